//! file {"sources":["$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp","$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp"],"opt":"-O1"}
//! * {"unroll": 60, "time": 200}
//! orientation_integers {"trials":1}
//! orientation_random {"trials":1}
//! parameters_units {"trials":1}
//! parameters_refused {"trials":1}
//! snapped {"trials":1}
//! snapped_lengths {"trials":1}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include "verif.h"
#ifdef VF_SYM
#include "symmetry.cpp"
#include "pointsymmetry.cpp"
#include "pointgroup.cpp"
#endif
#include "array_.hpp"
#include "lattice_dual.hpp"
#include "array_l_.hpp"
using namespace brille; using namespace brille::lattice; using V3 = std::array<double,3>; using M3 = std::array<double,9>; using L = Lattice<double>; using I = Impl<double>; using Q = LVec<double>; using D = bArray<double>;
static const LengthUnit DIR = LengthUnit::angstrom, REC = LengthUnit::inverse_angstrom; static const double PI2 = math::two_pi;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
static M3 mul(const M3& a, const M3& b){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*i]*b[j] + a[3*i+1]*b[3+j] + a[3*i+2]*b[6+j]; return r; }
static M3 tr(const M3& a){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*j+i]; return r; }
static V3 mv(const M3& a, const double* v){ V3 r; for (int i=0;i<3;++i) r[i] = a[3*i]*v[0]+a[3*i+1]*v[1]+a[3*i+2]*v[2]; return r; }
static double det(const M3& a){ return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
static double dot(const V3& a, const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static V3 cross(const V3& a, const V3& b){ return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
static bool eq(const M3& a, const M3& b){ bool e = true; for (int k=0;k<9;++k) e = vf_and(e, vf_eq(a[k],b[k])); return e; }
static bool eq(const V3& a, const V3& b){ bool e = true; for (int k=0;k<3;++k) e = vf_and(e, vf_eq(a[k],b[k])); return e; }
static M3 scaled(double s){ return {s,0,0,0,s,0,0,0,s}; }
static M3 matrix(const char* n="A"){ M3 a = vf::any_array<double,9>(n); vf_tame(std::abs(det(a)) > 0.05); for (auto x: a) { (void)x; vf_tame(std::abs(x) < 20); } return a; }
static Symmetry p1(){ Symmetry s(size_t(0)); s.add(Motion<int,double>()); return s; }
static void related(const L& l, const M3& A, bool metrics=true){
  M3 a = l.real_basis_vectors(), b = l.reciprocal_basis_vectors(); vf_check(eq(a, A), "the real basis vectors are those given"); vf_check(eq(mul(tr(a),b), scaled(PI2)), "a_i . b_j = 2 pi delta_ij"); vf_check(eq(mul(b,tr(a)), scaled(PI2)), "A B^T = 2 pi");
  if (metrics) { M3 g = l.metric(DIR), h = l.metric(REC); vf_check(eq(g, mul(tr(a),a)), "the real metric is A^T A"); vf_check(eq(h, mul(tr(b),b)), "the reciprocal metric is B^T B"); }
}
VF_ENTRY(direct_columns){ M3 m = matrix(); vf_assume(det(m) != 0); L l(DIR, m, MatrixVectors::column, p1(), Basis(), false); related(l, m); }
VF_ENTRY(direct_rows){ M3 m = matrix(); vf_assume(det(m) != 0); L l = Direct<double>(m, MatrixVectors::row, p1(), Basis(), false); related(l, tr(m)); }
VF_ENTRY(reciprocal_columns){ M3 m = matrix(); vf_assume(det(m) != 0); L l = Reciprocal<double>(m, MatrixVectors::column, p1(), Basis(), false); vf_check(eq(l.reciprocal_basis_vectors(), m), "the reciprocal basis vectors are those given"); related(l, l.real_basis_vectors()); }
VF_ENTRY(reciprocal_rows){ M3 m = matrix(); vf_assume(det(m) != 0); L l(REC, m, MatrixVectors::row, p1(), Basis(), false); vf_check(eq(l.reciprocal_basis_vectors(), tr(m)), "the reciprocal basis vectors are those given"); related(l, l.real_basis_vectors()); }
/// a lattice of symbolic basis vectors, given in real or reciprocal space
struct Lat { M3 m; bool real; L l; LengthUnit lu() const { return real ? DIR : REC; } };
static Lat make(int r=-1){ Lat o; o.m = matrix(); vf_assume(det(o.m) != 0); o.real = r<0 ? pick("real",1)==1 : r==1; o.l = L(o.real ? DIR : REC, o.m, MatrixVectors::column, p1(), Basis(), false); return o; }
VF_ENTRY(coordinates){
  auto a = make(); for (LengthUnit u: {DIR,REC}) { M3 t = a.l.to_xyz(u), f = a.l.from_xyz(u); vf_check(eq(mul(f,t), scaled(1)), "from_xyz inverts to_xyz"); vf_check(eq(t, a.l.vectors(u)), "to_xyz holds the basis vectors as columns"); for (unsigned i=0;i<3;++i) { V3 v = a.l.vector(u,i); vf_check(vf_eq(v[0],t[i]) && vf_eq(v[1],t[3+i]) && vf_eq(v[2],t[6+i]), "each basis vector is a column"); } }
  vf_check(vf_eq(a.l.volume(a.lu()), det(a.m)), "the volume is the determinant"); vf_check(vf_eq(a.l.volume(DIR)*a.l.volume(REC), PI2*PI2*PI2), "the volumes multiply to (2 pi)^3"); vf_check(eq(mul(a.l.metric(DIR), a.l.metric(REC)), scaled(PI2*PI2)), "the metrics are inverse but for 4 pi^2");
}
VF_ENTRY(lengths){ auto a = make(); auto n = a.l.lengths(a.lu()); for (unsigned i=0;i<3;++i) { V3 v{a.m[i],a.m[3+i],a.m[6+i]}; vf_check(vf_and(n[i] >= 0, vf_eq(n[i]*n[i], dot(v,v))), "the length of a basis vector"); vf_check(vf_eq(a.l.length(a.lu(),i), n[i]), "one length or all"); } }
VF_ENTRY(angles){
  auto a = make(); unsigned i = pick("i",2); V3 v[3]; for (unsigned k=0;k<3;++k) v[k] = {a.m[k],a.m[3+k],a.m[6+k]}; double r = a.l.angle(a.lu(),i), d = a.l.angle(a.lu(),i,AngleUnit::degree), p = a.l.angle(a.lu(),i,AngleUnit::pi); auto all = a.l.angles(a.lu(), AngleUnit::degree);
  const V3 &b = v[(i+1)%3], &c = v[(i+2)%3]; vf_check(vf_eq(r, std::acos(dot(b,c)/std::sqrt(dot(b,b))/std::sqrt(dot(c,c)))), "the angle opposite a basis vector"); vf_check(vf_eq(d, r/math::pi*180), "in degrees"); vf_check(vf_eq(p, r/math::pi), "in units of pi"); vf_check(vf_eq(all[i], d), "one angle or all");
}
VF_ENTRY(unit_errors){ auto a = make(1); LengthUnit n = LengthUnit::none; vf_check(vf::throws([&]{ (void)a.l.vectors(n); }) && vf::throws([&]{ (void)a.l.metric(n); }) && vf::throws([&]{ (void)a.l.volume(n); }) && vf::throws([&]{ (void)a.l.to_xyz(n); }) && vf::throws([&]{ (void)a.l.from_xyz(n); }) && vf::throws([&]{ L l(n, a.m, MatrixVectors::column, p1(), Basis(), false); }), "a unit which is none of the two is refused"); }

// ---- lattice parameters
VF_ENTRY(unit_volume){
  V3 c = vf::any_array<double,3>("c"); if (vf_native()) for (auto& x: c) x = std::cos(x); double q = 1-c[0]*c[0]-c[1]*c[1]-c[2]*c[2]+2*c[0]*c[1]*c[2]; double u = -1; vf_tame(std::abs(q) > 1e-9);
  bool t = vf::throws([&]{ u = unit_parallelpiped_volume(c); }); vf_check(vf_iff(t, q <= 0), "angles which no three vectors can have are refused, and only those"); if (!t) vf_check(vf_and(u > 0, vf_eq(u*u, q)), "the volume of a cell with edges of length one");
}
static V3 angle_cosines(V3& s){ V3 c = vf::any_array<double,3>("c"); for (int i=0;i<3;++i){ if (vf_native()) c[i] = std::cos(c[i]); vf_assume(c[i] > -1 && c[i] < 1); s[i] = std::sqrt(1-c[i]*c[i]); } double q = 1-c[0]*c[0]-c[1]*c[1]-c[2]*c[2]+2*c[0]*c[1]*c[2]; vf_assume(q > 0); vf_tame(q > 0.05); return c; }
static V3 edge_lengths(){ V3 l; for (int i=0;i<3;++i){ l[i] = vf::any_real("l",i); if (vf_native()) l[i] = 0.1+std::abs(l[i]); vf_assume(l[i] > 0); } return l; }
static M3 metric_of(const V3& l, const V3& c){ M3 g; for (int i=0;i<3;++i) for (int j=0;j<3;++j) g[3*i+j] = i==j ? l[i]*l[i] : l[i]*l[j]*c[3-i-j]; return g; }
VF_ENTRY(dual_parameters){
  V3 s, c = angle_cosines(s), l = edge_lengths(); auto [dl, dc, ds] = dual_lattice_parameters(l, c, s); M3 g = metric_of(l,c), h = metric_of(dl,dc), p = mul(g,h); for (int i=0;i<3;++i) for (int j=0;j<3;++j) vf_check(vf_eq(p[3*i+j], i==j ? PI2*PI2 : 0.), "the metrics of a lattice and its dual are inverse but for 4 pi^2");
  for (int i=0;i<3;++i) { vf_check(dl[i] > 0, "lengths are positive"); vf_check(vf_and(ds[i] >= 0, vf_eq(ds[i]*ds[i], 1-dc[i]*dc[i])), "sine and cosine belong to one angle of less than pi"); }
}
static V3 plain_angles(){ V3 a; static const double sp[] = {0,math::one_thirds_pi,math::half_pi,math::two_thirds_pi,math::pi}; for (int i=0;i<3;++i){ a[i] = vf::any_real("angle",i); if (vf_native()) a[i] = math::pi/2 + a[i]/20; for (double x: sp) vf_assume(a[i] != x); } return a; }
VF_ENTRY(parameters_reciprocal){
  V3 a = plain_angles(), l = edge_lengths(), c; for (int i=0;i<3;++i) { c[i] = std::cos(a[i]); vf_assume(std::sin(a[i]) > 0); } double q = 1-c[0]*c[0]-c[1]*c[1]-c[2]*c[2]+2*c[0]*c[1]*c[2]; vf_assume(q > 0); vf_tame(q > 0.1);
  L t = Reciprocal<double>(l, a, p1(), Basis(), false, AngleUnit::radian); M3 b = t.reciprocal_basis_vectors(), g = mul(tr(b),b), e = metric_of(l,c); for (int k=0;k<9;++k) vf_check(vf_eq(g[k], e[k]), "the reciprocal basis vectors have the lengths and angles given"); vf_check(vf_and(b[3]==0, vf_and(b[6]==0, b[7]==0)), "a* along x, b* in the x-y plane"); vf_check(vf_and(b[0]>0, vf_and(b[4]>0, b[8]>0)), "and a right-handed orientation"); related(t, t.real_basis_vectors(), false);
}
VF_ENTRY(parameters_real){
  V3 a = plain_angles(), l = edge_lengths(), c; for (int i=0;i<3;++i) { c[i] = std::cos(a[i]); vf_assume(std::sin(a[i]) > 0); } double q = 1-c[0]*c[0]-c[1]*c[1]-c[2]*c[2]+2*c[0]*c[1]*c[2]; vf_assume(q > 0); vf_tame(q > 0.1);
  L t = Direct<double>(l, a, p1(), Basis(), false, AngleUnit::radian); M3 b = t.real_basis_vectors(), g = mul(tr(b),b), e = metric_of(l,c); for (int k=0;k<9;++k) vf_check(vf_eq(g[k], e[k]), "the real basis vectors have the lengths and angles given");
}
// ---- vectors in units of a lattice
static Q vectors(const Lat& a, LengthUnit u, unsigned n, const char* nm="v"){ Q q(u, a.l, n); for (unsigned i=0;i<n;++i) for (unsigned j=0;j<3;++j) q.val(i,j) = vf::any_real(nm, 3*i+j); return q; }
static V3 row(const D& d, unsigned i){ return {d.val(i,0), d.val(i,1), d.val(i,2)}; }
static V3 cart(const Q& q, unsigned i){ V3 h = row(q.hkl(), i); return mv(q.lattice().to_xyz(q.type()), h.data()); }
static LengthUnit unit(){ return pick("unit",1) ? DIR : REC; } static LengthUnit other(LengthUnit u){ return u==DIR ? REC : DIR; }
static bool shape(const D& d, unsigned n, unsigned m){ return vf_and(d.size(0)==n, vf_and(d.ndim()==2, d.size(1)==m)); }
VF_ENTRY(vector_xyz){
  auto a = make(); LengthUnit u = unit(); unsigned n = 1+pick("n",1); Q q = vectors(a,u,n); D x = q.xyz(), g = get_xyz(q); vf_check(shape(x,n,3) && shape(g,n,3), "one Cartesian vector for each"); for (unsigned i=0;i<n;++i) vf_check(eq(row(x,i), cart(q,i)), "sum of the basis vectors times the coordinates");
  for (unsigned i=0;i<n;++i) vf_check(eq(row(g,i), cart(q,i)), "by either function"); Q b = from_xyz_like(q, x); vf_check(b.type()==u && b.same_lattice(q), "and back: the same lattice"); for (unsigned i=0;i<n;++i) vf_check(eq(row(b.hkl(),i), row(q.hkl(),i)), "and the same coordinates");
}
static void star_of(unsigned how, unsigned n, bool real){
  auto a = make(real); LengthUnit u = unit(); Q q = vectors(a,u,n), s = how==0 ? q.star() : how==1 ? star(q) : q.star(); vf_check(s.type()==other(u) && q.star_lattice(s) && !q.same_lattice(s), "the same lattice in the other unit"); vf_check(shape(s,n,3), "one for each");
  if (how<2) for (unsigned i=0;i<n;++i) vf_check(eq(cart(s,i), cart(q,i)), "the starred vector is the same vector in space"); else { Q t = s.star(); vf_check(t.type()==u, "twice starred"); for (unsigned i=0;i<n;++i) vf_check(eq(row(t.hkl(),i), row(q.hkl(),i)), "is the vector itself"); }
}
VF_ENTRY(star_member){ star_of(0,2,true); } VF_ENTRY(star_member_r){ star_of(0,1,false); } VF_ENTRY(star_function){ star_of(1,2,true); } VF_ENTRY(star_function_r){ star_of(1,1,false); } VF_ENTRY(star_twice){ star_of(2,1,true); } VF_ENTRY(star_twice_r){ star_of(2,1,false); }
static void dots(unsigned na, unsigned nb, bool real){
  auto a = make(real); LengthUnit u = unit(), w = unit(); w = pick("star",1) ? other(u) : u; Q p = vectors(a,u,na), q = vectors(a,w,nb,"w"); D d = dot(p,q); unsigned n = na==1 ? nb : na; vf_check(shape(d,n,1), "one product for each pair");
  for (unsigned i=0;i<n;++i) vf_check(vf_eq(d.val(i,0), dot(cart(p, na==1?0:i), cart(q, nb==1?0:i))), "the dot product of the vectors in space");
}
VF_ENTRY(dot_11){ dots(1,1,pick("real",1)); } VF_ENTRY(dot_12){ dots(1,2,true); } VF_ENTRY(dot_21){ dots(2,1,true); } VF_ENTRY(dot_22){ dots(2,2,true); } VF_ENTRY(dot_22r){ dots(2,2,false); }
VF_ENTRY(dot_member){ auto a = make(); Q q = vectors(a,unit(),2); unsigned i = pick("i",1), j = pick("j",1,1); vf_check(vf_eq(q.dot(i,j), dot(cart(q,i), cart(q,j))), "the dot product of two of the vectors"); }
VF_ENTRY(dot_outside){ auto a = make(1); Q q = vectors(a,unit(),2); bool t = vf::throws([&]{ (void)q.dot(pick("i",1),2); }) && vf::throws([&]{ (void)q.dot(2,0); }); vf_check(t, "there is no third"); }
static void norms(bool real, LengthUnit u, bool member){ auto a = make(real); Q q = vectors(a,u,1); double n; if (member) n = q.norm(0); else { D d = norm(q); vf_check(shape(d,1,1), "one length for each"); n = d.val(0,0); } vf_check(vf_and(n >= 0, vf_eq(n*n, dot(cart(q,0),cart(q,0)))), "the length in space"); }
VF_ENTRY(norm_direct){ norms(true, DIR, false); } VF_ENTRY(norm_dual){ norms(true, REC, false); } VF_ENTRY(norm_reciprocal){ norms(false, REC, false); } VF_ENTRY(norm_member){ norms(true, DIR, true); } VF_ENTRY(norm_member_r){ norms(false, REC, true); }
VF_ENTRY(norm_2){ auto a = make(1); Q q = vectors(a,DIR,2); D n = norm(q); vf_check(shape(n,2,1), "one length for each"); for (unsigned i=0;i<2;++i) vf_check(vf_and(n.val(i,0) >= 0, vf_eq(n.val(i,0)*n.val(i,0), dot(cart(q,i),cart(q,i)))), "the length in space"); }
static void crosses(unsigned na, unsigned nb, bool real){
  auto a = make(real); LengthUnit u = unit(); Q p = vectors(a,u,na), q = vectors(a,u,nb,"w"), c = cross(p,q); unsigned n = na==1 ? nb : na; vf_check(shape(c,n,3) && c.same_lattice(p), "one vector of the same lattice for each pair"); for (unsigned i=0;i<n;++i) vf_check(eq(cart(c,i), cross(cart(p, na==1?0:i), cart(q, nb==1?0:i))), "the cross product of the vectors in space");
}
VF_ENTRY(cross_11){ crosses(1,1,pick("real",1)); } VF_ENTRY(cross_12){ crosses(1,2,true); } VF_ENTRY(cross_21){ crosses(2,1,true); } VF_ENTRY(cross_22){ crosses(2,2,true); } VF_ENTRY(cross_22r){ crosses(2,2,false); }
VF_ENTRY(cross_member){ auto a = make(); Q q = vectors(a,unit(),2); unsigned i = pick("i",2), j = pick("j",2,1); Q c = q.cross(i,j); if (i<2 && j<2) { vf_check(shape(c,1,3) && c.same_lattice(q), "one vector of the same lattice"); vf_check(eq(cart(c,0), cross(cart(q,i), cart(q,j))), "the cross product of two of the vectors"); } else vf_check(c.size(0)==0, "vectors which are not there have no cross product"); }
VF_ENTRY(arithmetic){
  auto a = make(); Q p = vectors(a,unit(),2), q = vectors(a,p.type(),2,"w"); double k = vf::any_real("k"); Q s = p+q, d = p-q, m = p*k, n = -p, z = k*p, t = p/2.; Q o[6] = {s,d,m,n,z,t}; for (auto& x: o) vf_check(shape(x,2,3) && x.same_lattice(p), "results are vectors of the same lattice");
  for (unsigned i=0;i<2;++i) { V3 x = cart(p,i), y = cart(q,i), e; auto lin = [&](double u, double v){ for (int j=0;j<3;++j) e[j] = u*x[j]+v*y[j]; return e; }; vf_check(eq(cart(s,i), lin(1,1)), "sums"); vf_check(eq(cart(d,i), lin(1,-1)), "differences"); vf_check(eq(cart(m,i), lin(k,0)) && eq(cart(z,i), lin(k,0)), "multiples"); vf_check(eq(cart(n,i), lin(-1,0)), "negatives"); vf_check(eq(cart(t,i), lin(.5,0)), "fractions"); }
}
VF_ENTRY(parts){
  auto a = make(1); LengthUnit u = unit(); Q p = vectors(a,u,2), q = vectors(a,u,1,"w"), w = vectors(a,other(u),1,"x"); Q c = cat(0,p,q), v = p.view(1), e = p.extract(1); vf_check(shape(c,3,3) && c.same_lattice(p) && v.same_lattice(p) && e.same_lattice(p), "joined vectors and parts are of the same lattice"); for (unsigned i=0;i<3;++i) vf_check(eq(row(c.hkl(),i), i<2 ? row(p.hkl(),i) : row(q.hkl(),0)), "joined in order"); vf_check(eq(row(v.hkl(),0), row(p.hkl(),1)) && eq(row(e.hkl(),0), row(p.hkl(),1)), "a part");
  vf_check(vf::throws([&]{ (void)cat(0,p,w); }), "vectors in different units do not join"); Q ab = abs(p); for (unsigned j=0;j<3;++j) vf_check(ab.val(0,j)==std::abs(p.val(0,j)), "magnitudes of coordinates");
}
VF_ENTRY(matrix_times){ auto a = make(1); Q p = vectors(a,unit(),2); M3 m = vf::any_array<double,9>("m"); Q r = m*p; vf_check(shape(r,2,3) && r.same_lattice(p), "vectors of the same lattice"); for (unsigned i=0;i<2;++i) { V3 h = row(p.hkl(),i); vf_check(eq(row(r.hkl(),i), mv(m,h.data())), "the matrix times the coordinates"); } }
// ---- bounded: checked for many examples only
#ifndef VF_SYM
#include <random>
static std::mt19937 gen(12); static double uni(double a, double b){ return std::uniform_real_distribution<double>(a,b)(gen); }
static double apart(const M3& a, const M3& b){ double d=0; for (int k=0;k<9;++k) d = std::max(d, std::abs(a[k]-b[k])); return d; }
static M3 rotation(){ std::normal_distribution<double> N; double q[4], n=0; for (auto& x: q) { x = N(gen); n += x*x; } n = std::sqrt(n); double w=q[0]/n,x=q[1]/n,y=q[2]/n,z=q[3]/n; return {1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w),2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w),2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)}; }
static M3 axes(){ int p[3]={0,1,2}; std::shuffle(p,p+3,gen); M3 m{}; for (int i=0;i<3;++i) m[3*i+p[i]] = gen()%2 ? 1 : -1; return m; }
static void oriented(const M3& m){
  M3 r = standard_orientation_matrix(m), u = mul(r,m); double s = 0; for (double x: m) s = std::max(s, std::abs(x)); vf_check(apart(mul(r,tr(r)), scaled(1)) < 1e-12 && std::abs(det(r)-1) < 1e-12, "a rotation"); vf_check(std::max({std::abs(u[3]),std::abs(u[6]),std::abs(u[7])}) < 1e-12*s, "the first vector is along x, the second in the x-y plane"); vf_check(u[0] > 0 && u[4] > 0, "both on the positive side"); vf_check((u[8]>0) == (det(m)>0), "the third on the side of its handedness");
}
VF_NATIVE(orientation_integers){ for (int k=0;k<19683;++k) { M3 m; int t=k; for (auto& x: m) { x = t%3-1; t /= 3; } if (std::abs(det(m)) > .5) oriented(m); } }
VF_NATIVE(orientation_random){ for (int k=0;k<20000;++k) { M3 m; for (auto& x: m) x = uni(-5,5); if (std::abs(det(m)) > .5) oriented(m); } }
VF_NATIVE(parameters_units){
  for (int k=0;k<3000;++k) for (LengthUnit u: {DIR,REC}) {
    V3 l, a; for (auto& x: l) x = uni(1,20); for (auto& x: a) x = gen()%4 ? uni(50,115) : std::array<double,4>{60,90,120,90}[gen()%4]; double c[3]; for (int i=0;i<3;++i) c[i] = std::cos(a[i]*math::pi/180); double q = 1-c[0]*c[0]-c[1]*c[1]-c[2]*c[2]+2*c[0]*c[1]*c[2]; if (q < 0.05) continue;
    V3 r = a, p = a; for (auto& x: r) x *= math::pi/180; for (auto& x: p) x /= 180; L d(u,l,a,p1(),Basis(),false,AngleUnit::degree), e(u,l,r,p1(),Basis(),false,AngleUnit::radian), f(u,l,p,p1(),Basis(),false,AngleUnit::pi), g(u,l,a,p1(),Basis(),false), h(u,l,r,p1(),Basis(),false);
    for (const L* o: {&d,&e,&f,&g,&h}) { V3 n = o->lengths(u), m = o->angles(u,AngleUnit::degree); for (int i=0;i<3;++i) vf_check(std::abs(n[i]-l[i]) < 1e-9 && std::abs(m[i]-a[i]) < 1e-6, "the lengths and angles given, in any unit of angle"); vf_check(apart(o->real_basis_vectors(), d.real_basis_vectors()) < 1e-9 && apart(mul(tr(o->real_basis_vectors()), o->reciprocal_basis_vectors()), scaled(PI2)) < 1e-9, "in the same orientation"); }
  }
}
VF_NATIVE(parameters_refused){ for (V3 a: {V3{120,120,120},V3{30,30,90},V3{150,150,150}}) for (LengthUnit u: {DIR,REC}) vf_check(vf::throws([&]{ L l(u, V3{1,1,1}, a, p1(), Basis(), false); }), "angles which no three vectors can have are refused"); vf_check(vf::throws([&]{ L l(DIR, V3{1,1,1}, V3{-90,90,90}, p1(), Basis(), false); }), "so are negative ones"); }
VF_NATIVE(snapped){
  static const char* sg[] = {"P 6","P 4","P 4 2 3","R 3","P 3*","C 2y","P 2 2","I 4","P 1","F 4 2 3"}; const double s3 = std::sqrt(3.)/2;
  for (int t=0;t<3000;++t) { int k = t%10; double a = uni(2,6), b = uni(2,6), c = uni(2,9), x = uni(.1,1);
    M3 rows = k==0||k==3 ? M3{a,0,0,-a/2,a*s3,0,0,0,c} : k==1||k==7 ? M3{a,0,0,0,a,0,0,0,c} : k==2||k==9 ? M3{a,0,0,0,a,0,0,0,a} : k==4 ? M3{a,x,x,x,a,x,x,x,a} : k==5 ? M3{a,0,x,0,b,0,0,0,c} : k==6 ? M3{a,0,0,0,b,0,0,0,c} : M3{a,x,0,0,b,x,x,0,c}; if (gen()%2) for (auto& y: rows) y = -y;
    M3 v = mul(gen()%2 ? rotation() : axes(), tr(rows)); std::normal_distribution<double> N; M3 w = v; for (auto& y: w) y += 1e-6*N(gen);
    auto close = [&](const M3& got, const M3& given, const L& l, double tol){ double n = 0; for (double y: given) n = std::max(n, std::abs(y)); vf_check(apart(got, given) < tol*n, "basis vectors with symmetry change no more than they miss it by"); vf_check(apart(mul(tr(l.real_basis_vectors()), l.reciprocal_basis_vectors()), scaled(PI2)) < 1e-10, "a_i . b_j = 2 pi delta_ij"); };
    L l = Direct<double>(w, MatrixVectors::column, std::string(sg[k]), std::string("")); close(l.real_basis_vectors(), w, l, 2e-4);
    M3 g = l.metric(DIR); double n = 0; for (double y: g) n = std::max(n, std::abs(y)); bool exact = k!=5 && k!=6; auto ops = l.pointgroup_symmetry().getall(); if (exact) for (auto& r: ops) { M3 R; for (int i=0;i<9;++i) R[i] = r[i]; vf_check(apart(mul(tr(R), mul(g,R)), g) < (k==0||k==1||k==7||k==3 ? 1e-4 : 1e-5)*n, "the operations keep the metric"); }
    M3 B = tr(mul(scaled(PI2), [&]{ M3 i{}; double d = det(v); i = {(v[4]*v[8]-v[5]*v[7])/d,(v[2]*v[7]-v[1]*v[8])/d,(v[1]*v[5]-v[2]*v[4])/d,(v[5]*v[6]-v[3]*v[8])/d,(v[0]*v[8]-v[2]*v[6])/d,(v[2]*v[3]-v[0]*v[5])/d,(v[3]*v[7]-v[4]*v[6])/d,(v[1]*v[6]-v[0]*v[7])/d,(v[0]*v[4]-v[1]*v[3])/d}; return i; }())); for (auto& y: B) y += 1e-6*N(gen);
    L m = Reciprocal<double>(B, MatrixVectors::column, std::string(sg[k]), std::string("")); close(m.reciprocal_basis_vectors(), B, m, 2e-4);
  }
}
VF_NATIVE(snapped_lengths){ // lengths and angles linked by the symmetry become equal
  for (int t=0;t<500;++t) { double e = 1e-4, a = uni(2,9); auto j = [&](double x){ return x + uni(-e,e); }; L c = Direct<double>(V3{j(a),j(a),j(a)}, V3{90,90,90}, std::string("P 4 2 3"), std::string("")), h = Direct<double>(V3{j(a),j(a),5}, V3{90,90,120}, std::string("P 6"), std::string("")), q = Direct<double>(V3{j(a),j(a),5}, V3{90,90,90}, std::string("P 4"), std::string(""));
    auto n = c.lengths(DIR); vf_check(std::abs(n[0]-n[1]) < 1e-9 && std::abs(n[1]-n[2]) < 1e-9 && std::abs(n[0]-a) < 2*e, "cubic: three equal lengths"); n = h.lengths(DIR); vf_check(std::abs(n[0]-n[1]) < 1e-9 && std::abs(n[0]-a) < 2*e && std::abs(n[2]-5) < 2*e, "hexagonal: two"); n = q.lengths(DIR); vf_check(std::abs(n[0]-n[1]) < 1e-9 && std::abs(n[0]-a) < 2*e && std::abs(n[2]-5) < 2*e, "tetragonal: two"); }
}
#endif

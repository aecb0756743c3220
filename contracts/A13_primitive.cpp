//! file {"sources":["$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp","$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp"],"opt":"-O1"}
//! * {"unroll": 60, "time": 200}
//! table {"trials":1}
//! lattices {"trials":1}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include "verif.h"
#ifdef VF_SYM
#include "symmetry.cpp"
#include "pointsymmetry.cpp"
#include "pointgroup.cpp"
#include "bravais.cpp"
#endif
#include "array_.hpp"
#include "lattice_dual.hpp"
#include "array_l_.hpp"
#include "transform.hpp"
extern "C" { int omp_get_max_threads(void){ return 2; } void omp_set_num_threads(int){} int omp_get_thread_num(void){ return 0; } int omp_get_num_threads(void){ return 1; } }
using namespace brille; using namespace brille::lattice; using V3 = std::array<double,3>; using M3 = std::array<double,9>; using L = Lattice<double>; using I = Impl<double>; using Q = LVec<double>; using D = bArray<double>;
static const LengthUnit DIR = LengthUnit::angstrom, REC = LengthUnit::inverse_angstrom; static const double PI2 = math::two_pi;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
static M3 mul(const M3& a, const M3& b){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*i]*b[j] + a[3*i+1]*b[3+j] + a[3*i+2]*b[6+j]; return r; }
static M3 tr(const M3& a){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*j+i]; return r; }
static V3 mv(const M3& a, const double* v){ V3 r; for (int i=0;i<3;++i) r[i] = a[3*i]*v[0]+a[3*i+1]*v[1]+a[3*i+2]*v[2]; return r; }
static double det(const M3& a){ return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
static bool eq(const M3& a, const M3& b){ bool e = true; for (int k=0;k<9;++k) e = vf_and(e, vf_eq(a[k],b[k])); return e; }
static bool eq(const V3& a, const V3& b){ bool e = true; for (int k=0;k<3;++k) e = vf_and(e, vf_eq(a[k],b[k])); return e; }
static M3 scaled(double s){ return {s,0,0,0,s,0,0,0,s}; }
static Symmetry p1(){ Symmetry s(size_t(0)); s.add(Motion<int,double>()); return s; }
static const Bravais ALL[7] = {Bravais::P, Bravais::A, Bravais::B, Bravais::C, Bravais::I, Bravais::F, Bravais::R};
/// six times the translations of a centring
static std::vector<std::array<int,3>> centring(Bravais b){ switch (b) { case Bravais::A: return {{0,3,3}}; case Bravais::B: return {{3,0,3}}; case Bravais::C: return {{3,3,0}}; case Bravais::I: return {{3,3,3}}; case Bravais::F: return {{0,3,3},{3,0,3},{3,3,0}}; case Bravais::R: return {{4,2,2},{2,4,4}}; default: return {}; } }
VF_ENTRY(matrices){
  Bravais b = ALL[pick("b",6)]; PrimitiveTransform t(b); auto p = t.get_6P(), q = t.get_invP(), pt = t.get_6Pt(), qt = t.get_invPt(); auto c = centring(b);
  for (int i=0;i<3;++i) for (int j=0;j<3;++j) { int s = 0, r = 0; for (int k=0;k<3;++k) { s += p[3*i+k]*q[3*k+j]; r += q[3*i+k]*p[3*k+j]; } vf_check(s==(i==j?6:0) && r==(i==j?6:0), "P and its inverse multiply to one"); vf_check(pt[3*i+j]==p[3*j+i] && qt[3*i+j]==q[3*j+i], "the transposed matrices"); }
  int d = q[0]*(q[4]*q[8]-q[5]*q[7]) - q[1]*(q[3]*q[8]-q[5]*q[6]) + q[2]*(q[3]*q[7]-q[4]*q[6]); vf_check(d==int(c.size())+1, "as many primitive cells fit the conventional one as it has lattice points");
  for (auto& x: c) for (int i=0;i<3;++i) vf_check((q[3*i]*x[0]+q[3*i+1]*x[1]+q[3*i+2]*x[2])%6==0, "lattice points have whole primitive coordinates");
  for (int j=0;j<3;++j) { bool on = false; c.push_back({0,0,0}); for (auto& x: c) { bool same = true; for (int i=0;i<3;++i) same = same && (p[3*i+j]-x[i])%6==0; on = on || same; } c.pop_back(); vf_check(on, "primitive vectors end on lattice points"); }
  vf_check(t.does_nothing()==(b==Bravais::P) && t.does_anything()==(b!=Bravais::P), "only a primitive lattice needs no transformation");
}
VF_ENTRY(no_centring){ PrimitiveTransform t(Bravais::_); vf_check(vf::throws([&]{ (void)t.get_6P(); }) && vf::throws([&]{ (void)t.get_invP(); }) && vf::throws([&]{ (void)t.get_6Pt(); }) && vf::throws([&]{ (void)t.get_invPt(); }), "an unknown centring is refused"); }
static M3 matrix(){ M3 a = vf::any_array<double,9>("A"); vf_tame(std::abs(det(a)) > 0.05); for (auto x: a) { (void)x; vf_tame(std::abs(x) < 20); } return a; }
/// the real and reciprocal vectors are symbolic; they need not be dual for what is checked of vectors
static I conventional(Bravais b, const M3& A, const M3& B){ return I(A, B, mul(tr(A),A), mul(tr(B),B), b, p1(), PointSymmetry(), Basis(), false); }
static M3 sixth(Bravais b){ auto p = PrimitiveTransform(b).get_6P(); M3 r; for (int k=0;k<9;++k) r[k] = double(p[k])/6; return r; }
static M3 inverse(Bravais b){ auto p = PrimitiveTransform(b).get_invP(); M3 r; for (int k=0;k<9;++k) r[k] = p[k]; return r; }
VF_ENTRY(primitive_lattice){
  Bravais b = ALL[pick("b",6)]; M3 A = matrix(), B = vf::any_array<double,9>("B"); I l = conventional(b,A,B), p = l.primitive(); M3 a = p.real_basis_vectors(), c = p.reciprocal_basis_vectors(); vf_check(eq(a, mul(A, sixth(b))), "the primitive vectors"); vf_check(eq(c, mul(B, tr(inverse(b)))), "the primitive reciprocal vectors"); vf_check(eq(mul(a,tr(c)), mul(A,tr(B))), "A_p B_p^T = A B^T");
  vf_check(eq(p.metric(DIR), mul(tr(a),a)) && eq(p.metric(REC), mul(tr(c),c)), "the metrics"); vf_check(p.bravais()==Bravais::P, "is primitive"); vf_check(vf_eq(p.volume(DIR)*double(centring(b).size()+1), det(A)), "the volume");
}
VF_ENTRY(primitive_dual){ Bravais b = ALL[pick("b",6)]; M3 A = matrix(); vf_assume(det(A) != 0); I c(DIR, A, MatrixVectors::column, p1(), Basis(), false); I l(A, c.reciprocal_basis_vectors(), c.metric(DIR), c.metric(REC), b, p1(), PointSymmetry(), Basis(), false), p = l.primitive(); vf_check(eq(mul(tr(p.real_basis_vectors()), p.reciprocal_basis_vectors()), scaled(PI2)), "a_i . b_j = 2 pi delta_ij"); }
VF_ENTRY(primitive_of_primitive){ M3 A = matrix(), B = vf::any_array<double,9>("B"); L l(std::make_shared<I>(conventional(Bravais::P,A,B))), p = l.primitive(); vf_check(p.is_same(l) && eq(p.real_basis_vectors(),A) && eq(p.reciprocal_basis_vectors(),B), "a primitive lattice is its own primitive lattice"); }
// ---- vectors
static bool differ(double a, double b){ return !approx_float::scalar(a,b); }
/// a lattice whose primitive vectors are not approximately its own
static L centred(Bravais b, M3& A, M3& B){ A = matrix(); B = vf::any_array<double,9>("B"); M3 p = mul(A, sixth(b)); if (vf_native()) { M3 c = scaled(0); double d = det(A); c = {A[4]*A[8]-A[5]*A[7],A[2]*A[7]-A[1]*A[8],A[1]*A[5]-A[2]*A[4],A[5]*A[6]-A[3]*A[8],A[0]*A[8]-A[2]*A[6],A[2]*A[3]-A[0]*A[5],A[3]*A[7]-A[4]*A[6],A[1]*A[6]-A[0]*A[7],A[0]*A[4]-A[1]*A[3]}; for (auto& x: c) x *= PI2/d; B = tr(c); } if (b!=Bravais::P) vf_assume(b==Bravais::A ? differ(p[1],A[1]) : differ(p[0],A[0])); return L(std::make_shared<I>(conventional(b,A,B))); }
static V3 row(const D& d, unsigned i){ return {d.val(i,0), d.val(i,1), d.val(i,2)}; }
static V3 cart(const Q& q, unsigned i){ V3 h = row(q.hkl(), i); return mv(q.lattice().vectors(q.type()), h.data()); }
static Q vectors(const L& l, LengthUnit u, unsigned n, const char* nm="v"){ Q q(u, l, n); for (unsigned i=0;i<n;++i) for (unsigned j=0;j<3;++j) q.val(i,j) = vf::any_real(nm, 3*i+j); return q; }
template<class F, class G> static void there_and_back(Bravais b, F&& to, G&& from){
  M3 A, B; L l = centred(b,A,B); LengthUnit u = pick("unit",1) ? DIR : REC; unsigned n = 1+pick("n",1); Q q = vectors(l,u,n), p = to(l,q); vf_check(p.type()==u && p.size(0)==n && p.size(1)==3, "as many vectors in the same unit"); M3 e = l.primitive().vectors(u), g = p.lattice().vectors(u); vf_check(eq(e,g), "of the primitive lattice");
  for (unsigned i=0;i<n;++i) vf_check(eq(cart(p,i), cart(q,i)), "the same vectors in space"); Q r = from(l,p); vf_check(r.type()==u && r.size(0)==n && eq(r.lattice().vectors(u), l.vectors(u)), "and back to the lattice"); for (unsigned i=0;i<n;++i) vf_check(eq(row(r.hkl(),i), row(q.hkl(),i)), "to the same coordinates");
  Q s = to(l,p), t = from(l,q); for (unsigned i=0;i<n;++i) vf_check(eq(row(s.hkl(),i), row(p.hkl(),i)) && eq(row(t.hkl(),i), row(q.hkl(),i)), "vectors which already are in that lattice stay the same");
}
static void serial(Bravais b){ there_and_back(b, [](const L& l, const Q& q){ return transform_to_primitive(l,q); }, [](const L& l, const Q& q){ return transform_from_primitive(l,q); }); }
static void parallel(Bravais b){ there_and_back(b, [](const L& l, const Q& q){ return parallel_transform_to_primitive(l,q,2); }, [](const L& l, const Q& q){ return parallel_transform_from_primitive(l,q,0); }); }
VF_ENTRY(transform_P){ serial(Bravais::P); } VF_ENTRY(transform_A){ serial(Bravais::A); } VF_ENTRY(transform_B){ serial(Bravais::B); } VF_ENTRY(transform_C){ serial(Bravais::C); } VF_ENTRY(transform_I){ serial(Bravais::I); } VF_ENTRY(transform_F){ serial(Bravais::F); } VF_ENTRY(transform_R){ serial(Bravais::R); }
VF_ENTRY(parallel_P){ parallel(Bravais::P); } VF_ENTRY(parallel_A){ parallel(Bravais::A); } VF_ENTRY(parallel_B){ parallel(Bravais::B); } VF_ENTRY(parallel_C){ parallel(Bravais::C); } VF_ENTRY(parallel_I){ parallel(Bravais::I); } VF_ENTRY(parallel_F){ parallel(Bravais::F); } VF_ENTRY(parallel_R){ parallel(Bravais::R); }
VF_ENTRY(other_lattice){
  Bravais b = ALL[1+pick("b",5)]; L l(std::make_shared<I>(conventional(b,{4,0,0,0,5,0,0,0,6},{1,0,0,0,2,0,0,0,3}))), o(std::make_shared<I>(conventional(b,{7,1,0,0,8,0,0,0,9},{1,0,0,0,2,0,0,0,3}))); LengthUnit u = pick("unit",1) ? DIR : REC; Q q = vectors(o,u,1);
  vf_check(vf::throws([&]{ (void)transform_to_primitive(l,q); }) && vf::throws([&]{ (void)transform_from_primitive(l,q); }) && vf::throws([&]{ (void)parallel_transform_to_primitive(l,q,1); }) && vf::throws([&]{ (void)parallel_transform_from_primitive(l,q,1); }), "vectors of another lattice are refused");
}
VF_ENTRY(cartesian){
  M3 A = matrix(); vf_assume(std::abs(det(A)) > 1e-10); L l(DIR, A, MatrixVectors::column, p1(), Basis(), false); LengthUnit u = pick("unit",1) ? DIR : REC; unsigned n = 1+pick("n",1); if (u==REC) vf_assume(std::abs(det(l.reciprocal_basis_vectors())) > 1e-10); D h(n,3u); for (unsigned i=0;i<n;++i) for (unsigned j=0;j<3;++j) h.val(i,j) = vf::any_real("h",3*i+j); D x = hkl_to_xyz(l,u,h), k = xyz_to_hkl(l,u,x);
  vf_check(x.size(0)==n && x.size(1)==3 && k.size(0)==n && k.size(1)==3, "one for each"); for (unsigned i=0;i<n;++i) { V3 c = row(h,i); vf_check(eq(row(x,i), mv(l.vectors(u), c.data())), "sum of the basis vectors times the coordinates"); vf_check(eq(row(k,i), c), "and back"); }
}
#ifndef VF_SYM
VF_NATIVE(table){ // the centring found in a space group is that whose translations it has
  for (int h=1; h<531; ++h) { Spacegroup sp(h); auto s = sp.get_spacegroup_symmetry(); Bravais b = s.getcentring(); auto c = centring(b); size_t n = 0; std::array<int,9> one{{1,0,0,0,1,0,0,0,1}}; for (size_t i=0;i<s.size();++i) { auto m = s.getm(i); if (m.getr()!=one) continue; auto t = m.gett(); bool found = t[0]==0 && t[1]==0 && t[2]==0; for (auto& x: c) { bool e = true; for (int j=0;j<3;++j) e = e && std::abs(t[j]-std::floor(t[j]+1e-6)-x[j]/6.) < 1e-6; found = found || e; } vf_check(found, "only the translations of the centring"); ++n; } vf_check(n==c.size()+1, "all the translations of the centring"); vf_check(b==sp.get_bravais_type(), "the centring listed for the space group"); }
}
VF_NATIVE(lattices){ // conventional lattices: their primitive lattice has the points of the conventional one
  static const char* sg[] = {"P 2 2","A 2 2","B 2 2","C 2 2","I 2 2","F 2 2","R 3"}; for (int k=0;k<7;++k) { L l = k==6 ? Direct<double>(V3{4,4,9}, V3{90,90,120}, std::string(sg[k])) : Direct<double>(V3{4,5,6}, V3{90,90,90}, std::string(sg[k])); vf_check(l.bravais()==ALL[k], "the centring of the space group"); L p = l.primitive(); M3 g = mul(tr(p.real_basis_vectors()), p.reciprocal_basis_vectors()); for (int i=0;i<9;++i) vf_check(std::abs(g[i]-(i%4==0?PI2:0)) < 1e-12, "a_i . b_j = 2 pi delta_ij"); }
}
#endif

//! file {"sources":["$REPO/src/bz.cpp","$REPO/src/bz_move.cpp","$REPO/src/bz_wedge.cpp","$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp","$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp","$REPO/src/polyhedron_faces.cpp","$REPO/src/neighbours.cpp","$REPO/lib/tetgen/predicates.cxx"],"opt":"-O1"}
//! * {"trials":1,"ntime":1,"unroll":60,"time":300}
//! moveinto_box {"trials":200}
//! moveinto_prism {"trials":200,"forksel":1,"som":1}
//! inside_wedge {"trials":200}
//! wedge {"trials":200}
//! wedge_reversal {"trials":200}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <random>
#include <cassert>
#include "verif.h"
#ifdef VF_SYM
#include "symmetry.cpp"
#include "pointsymmetry.cpp"
#include "pointgroup.cpp"
#include "bravais.cpp"
#endif
#include "bz.hpp"
extern "C" { int omp_get_max_threads(void){ return 2; } void omp_set_num_threads(int){} int omp_get_thread_num(void){ return 0; } int omp_get_num_threads(void){ return 1; } }
#ifdef VF_SYM
#include "bz_move.cpp"
#include "bz.cpp"
#endif
using namespace brille; using namespace brille::lattice; using V3 = std::array<double,3>; using M3 = std::array<double,9>; using I9 = std::array<int,9>; using L = Lattice<double>; using Q = LVec<double>; using QI = LVec<int>; using D = bArray<double>;
static const LengthUnit DIR = LengthUnit::angstrom, REC = LengthUnit::inverse_angstrom;
std::pair<LVec<double>, LVec<int>> part_moveinto_prim(const LVec<double>&, const LVec<double>&, const LVec<int>&, const Array2<double>&, double, int, const LVec<double>&, const LVec<double>&, const LVec<double>&);

// ---- proved: moving points into a zone whose planes are given, for every point
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
struct Prism { L lat; std::vector<std::array<int,3>> tau; std::vector<V3> xyz; };
static Symmetry p1(){ Symmetry s(size_t(0)); s.add(Motion<int,double>()); return s; }
/// an upright prism on the triangle with sides 13, 14 and 15: every length is a whole number
static Prism prism(bool boxed){
  using I = Impl<double>; M3 B = boxed ? M3{14,0,0,0,12,0,0,0,10} : M3{14,5,0,0,12,0,0,0,10}, A; double f = math::two_pi; A = boxed ? M3{f/14,0,0,0,f/12,0,0,0,f/10} : M3{f/14,0,0,-f*5/168,f/12,0,0,0,f/10};
  auto gram = [](const M3& m){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = m[i]*m[j]+m[3+i]*m[3+j]+m[6+i]*m[6+j]; return r; };
  Prism r{L(std::make_shared<I>(A,B,gram(A),gram(B),Bravais::P,p1(),PointSymmetry(),Basis(),false)),{{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}},{}}; if (!boxed) { r.tau.push_back({1,-1,0}); r.tau.push_back({-1,1,0}); }
  for (auto& t: r.tau) r.xyz.push_back({B[0]*t[0]+B[1]*t[1],B[4]*t[1],B[8]*t[2]}); return r;
}
static void moved(bool boxed){
  Prism p = prism(boxed); unsigned n = unsigned(p.tau.size()); Q nrm(REC,p.lat,n), pa(REC,p.lat,n), pb(REC,p.lat,n), pc(REC,p.lat,n); QI tau(REC,p.lat,n); D len(n,1u);
  for (unsigned k=0;k<n;++k) { auto t = p.tau[k]; auto x = p.xyz[k]; double l = std::sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); len.val(k,0) = l;
    // two vectors in the face, right handed with its normal
    V3 u = t[2] ? V3{1,0,0} : V3{-x[1],x[0],0}, v = t[2] ? V3{0,double(t[2]),0} : V3{0,0,1}; auto rlu = [&](const V3& c)->V3{ double y = c[1]/12; return {(c[0]-(boxed?0:5)*y)/14, y, c[2]/10}; }; V3 ru = rlu(u), rv = rlu(v);
    for (int j=0;j<3;++j) { tau.val(k,j) = t[j]; nrm.val(k,j) = t[j]/l; pa.val(k,j) = 0.5*t[j]; pb.val(k,j) = 0.5*t[j]+ru[j]; pc.val(k,j) = 0.5*t[j]+rv[j]; } }
  Q q0(REC,p.lat,1u); for (int j=0;j<3;++j) { double x = vf::any<double>("Q",j); vf_tame(std::abs(x) < 100); if (!boxed) vf_assume(vf_and(x > -0.5, x < 0.5)); q0.val(0,j) = x; }
  auto r = part_moveinto_prim(q0, nrm, tau, len, 1e-12, 1000, pa, pb, pc);
  vf_check(r.first.size(0)==1 && r.second.size(0)==1, "one result"); for (int j=0;j<3;++j) vf_check(vf_eq(r.first.val(0,j) + double(r.second.val(0,j)), q0.val(0,j)), "Q = q + tau");
  for (unsigned k=0;k<n;++k) { auto x = p.xyz[k]; double a = r.first.val(0,0), b = r.first.val(0,1), c = r.first.val(0,2), X = 14*a + (boxed?0:5)*b, Y = 12*b, Z = 10*c; vf_check(x[0]*X+x[1]*Y+x[2]*Z <= (x[0]*x[0]+x[1]*x[1]+x[2]*x[2])/2 + 1e-6, "q is in the first zone"); }
}
VF_ENTRY(moveinto_box){ moved(true); }
VF_ENTRY(moveinto_prism){ moved(false); }
/// the wedge of an orthorhombic lattice's eight operations: every coordinate is non-negative
static L wedge_lattice(bool centre){ using I = Impl<double>; double f = math::two_pi; M3 A{4,0,0,0,8,0,0,0,2}, B{f/4,0,0,0,f/8,0,0,0,f/2}, a{16,0,0,0,64,0,0,0,4}, b{f*f/16,0,0,0,f*f/64,0,0,0,f*f/4};
  PointSymmetry ps(size_t(0)); for (int k=0;k<(centre?8:4);++k) { int x = centre ? (k&1?-1:1) : (k==1||k==2 ? -1 : 1), y = centre ? (k&2?-1:1) : (k==1||k==3 ? -1 : 1), z = centre ? (k&4?-1:1) : x*y; ps.add(I9{x,0,0,0,y,0,0,0,z}); }
  return L(std::make_shared<I>(A,B,a,b,Bravais::P,p1(),ps,Basis(),false)); }
static BrillouinZone wedge_zone(const L& lat, bool reversal){ D n(3u,3u,0.); double f = math::two_pi; n.val(0,0) = 4/f; n.val(1,1) = 8/f; n.val(2,2) = 2/f; return BrillouinZone(lat, lat, BrillouinZone::poly_t(), BrillouinZone::poly_t(), n, reversal, true, false, true, 1000, 1e-12); }
static Q a_point(const L& lat){ Q q(REC,lat,1u); for (int j=0;j<3;++j) { double x = vf::any<double>("Q",j); vf_tame(std::abs(x) < 100); q.val(0,j) = x; } return q; }
VF_ENTRY(inside_wedge){ L lat = wedge_lattice(true); auto z = wedge_zone(lat, false); Q q = a_point(lat); auto in = z.isinside_wedge(q, true); vf_check(in.size()==1, "one answer"); double m = 1e-9; bool all = true, deep = true; for (int j=0;j<3;++j) { all = vf_and(all, q.val(0,j) >= 0); deep = vf_and(deep, q.val(0,j) >= -m*16); } bool a = in[0]; vf_check(vf_implies(all, a), "points of the wedge are inside"); vf_check(vf_implies(a, deep), "points outside of it are not"); }
static void wedge_moved(bool centre){ L lat = wedge_lattice(centre); auto z = wedge_zone(lat, !centre); Q q0 = a_point(lat), q(REC,lat,1u); std::vector<size_t> R; vf_check(z.ir_moveinto_wedge(q0, q, R, 1), "points are moved into the wedge"); vf_check(q.size(0)==1 && R.size()==1, "one result"); auto ps = z.get_pointgroup_symmetry(); vf_check(R[0] < ps.size(), "an operation of the group"); auto r = ps.get(R[0]);
  for (int j=0;j<3;++j) { vf_check(q.val(0,j) >= -1e-7, "q is in the wedge"); vf_check(vf_eq(q0.val(0,j), r[j]*q.val(0,0) + r[3+j]*q.val(0,1) + r[6+j]*q.val(0,2)), "Q = R^T q"); } }
VF_ENTRY(wedge){ wedge_moved(true); }
VF_ENTRY(wedge_reversal){ wedge_moved(false); }
#ifndef VF_SYM
static M3 mul(const M3& a, const M3& b){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*i]*b[j] + a[3*i+1]*b[3+j] + a[3*i+2]*b[6+j]; return r; }
static M3 tr(const M3& a){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*j+i]; return r; }
static V3 mv(const M3& a, const V3& v){ V3 r; for (int i=0;i<3;++i) r[i] = a[3*i]*v[0]+a[3*i+1]*v[1]+a[3*i+2]*v[2]; return r; }
/// R^T v: how an operation acts on reciprocal lattice coordinates
static V3 tmv(const I9& a, const V3& v){ V3 r; for (int i=0;i<3;++i) r[i] = a[i]*v[0]+a[3+i]*v[1]+a[6+i]*v[2]; return r; }
static double det(const M3& a){ return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
static double dt(const V3& a, const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static double far(const V3& a, const V3& b){ return std::max({std::abs(a[0]-b[0]),std::abs(a[1]-b[1]),std::abs(a[2]-b[2])}); }
static bool whole(const V3& a){ return std::max({std::abs(a[0]-std::round(a[0])),std::abs(a[1]-std::round(a[1])),std::abs(a[2]-std::round(a[2]))}) < 1e-6; }
static V3 row(const Q& d, unsigned i){ return {d.val(i,0), d.val(i,1), d.val(i,2)}; }
static V3 row(const QI& d, unsigned i){ return {double(d.val(i,0)), double(d.val(i,1)), double(d.val(i,2))}; }
/// a random lattice with the symmetry of a space group
static L symmetric(int hall, std::mt19937& g){
  std::normal_distribution<double> N; Spacegroup sp(hall); auto ps = sp.get_pointgroup_symmetry(0).getall(); M3 a; for (int i=0;i<9;++i) a[i] = (i%4==0?4:0) + 0.7*N(g); M3 G0 = mul(tr(a),a), G{}; for (auto& r: ps) { M3 R; for (int i=0;i<9;++i) R[i] = r[i]; M3 x = mul(tr(R),mul(G0,R)); for (int i=0;i<9;++i) G[i] += x[i]/double(ps.size()); }
  double a1 = std::sqrt(G[0]), b1 = G[3]/a1, c1 = G[6]/a1, b2 = std::sqrt(G[4]-b1*b1), c2 = (G[7]-c1*b1)/b2, c3 = std::sqrt(G[8]-c1*c1-c2*c2); Symmetry sy = sp.get_spacegroup_symmetry(); return L(DIR, M3{a1,b1,c1,0,b2,c2,0,0,c3}, MatrixVectors::column, sy, Basis(), true);
}
struct Short { std::vector<V3> t; /// the short primitive reciprocal lattice vectors in space
  explicit Short(const L& prim){ M3 B = prim.vectors(REC); for (int h=-3;h<4;++h) for (int k=-3;k<4;++k) for (int l=-3;l<4;++l) if (h||k||l) t.push_back(mv(B,{double(h),double(k),double(l)})); }
  /// the largest excess of x . t/|t| over |t|/2: positive outside of the first zone
  double outside(const V3& x) const { double m = -1e9; for (auto& u: t) { double n = std::sqrt(dt(u,u)); m = std::max(m, dt(x,u)/n - n/2); } return m; } };
/// counts zones, returns whether the zone could be built
static bool zone(int hall, unsigned seed, bool primitive, bool reversal, bool wedge, bool divide){
  std::mt19937 g(hall*1000+seed); std::normal_distribution<double> N; L lat = symmetric(hall, g); BrillouinZoneConfig c; c.primitive(primitive); c.time_reversal(reversal); c.wedge_search(wedge); c.divide_primitive(divide); std::unique_ptr<BrillouinZone> z; try { z = std::make_unique<BrillouinZone>(lat, c); } catch (std::runtime_error& e) { return false; }
  auto first = z->get_polyhedron(), ir = z->get_ir_polyhedron(); auto pg = z->get_pointgroup_symmetry(); L prim = primitive ? lat.primitive() : lat; M3 B = lat.vectors(REC), P = prim.vectors(REC), Pi; { M3 A = prim.vectors(DIR); Pi = tr(A); for (auto& x: Pi) x /= math::two_pi; } Short s(prim);
  auto xyz = [&](const V3& q){ return mv(B,q); }; auto on_lattice = [&](const V3& q){ return whole(mv(Pi, xyz(q))); };
  // the first zone
  double v = first.volume(), tv = std::abs(det(P)); vf_check(std::abs(v/tv-1) < 1e-7, "the first zone has the volume of the reciprocal cell");
  auto fv = first.vertices(); for (unsigned i=0;i<fv.size(0);++i) vf_check(std::abs(s.outside(xyz(row(fv,i)))) < 1e-6, "its corners are no closer to another lattice point, and as close to one");
  auto fp = z->get_points(), fn = z->get_normals(); for (unsigned i=0;i<fp.size(0);++i) { V3 p = row(fp,i), x = xyz(p), n = xyz(row(fn,i)); for (auto& y: p) y *= 2; vf_check(on_lattice(p), "its faces lie half way to lattice points"); double xx = std::sqrt(dt(x,x)), nn = std::sqrt(dt(n,n)); vf_check(std::abs(dt(x,n)/xx/nn-1) < 1e-6, "and are normal to them"); }
  vf_check(z->faces_count()==fp.size(0) && z->vertices_count()==fv.size(0), "as many faces and vertices");
  // the irreducible zone
  auto in = ir.vertices(); auto wn = z->get_ir_wedge_normals(); size_t order = pg.size(); bool has = pg.has_space_inversion(); vf_check(order == (lat.pointgroup_symmetry().size() * (reversal && !lat.pointgroup_symmetry().has_space_inversion() ? 2u : 1u)) && (!reversal || has), "the operations used");
  if (wedge && !(lat.is_triclinic() && !has)) vf_check(std::abs(ir.volume()*double(order)/v-1) < 1e-6, "the irreducible zone is the part of the first zone one operation accounts for"); else vf_check(std::abs(ir.volume()/v-1) < 1e-6, "without a wedge the irreducible zone is the first zone");
  for (unsigned i=0;i<in.size(0);++i) vf_check(s.outside(xyz(row(in,i))) < 1e-6, "the irreducible zone is part of the first zone");
  // points
  unsigned n = 12; Q q0(REC, lat, n), q(REC, lat, 1u); QI t(REC, lat, 1u); for (unsigned i=0;i<n;++i) for (unsigned j=0;j<3;++j) q0.val(i,j) = i==0 ? 0. : i==1 ? 0.25*std::round(8*N(g)) : 2*N(g);
  vf_check(z->moveinto(q0, q, t, 1), "points are moved into the first zone"); vf_check(q.size(0)==n && t.size(0)==n, "one result for each point");
  for (unsigned i=0;i<n;++i) { V3 a = row(q0,i), b = row(q,i), c2 = row(t,i), d; for (int j=0;j<3;++j) d[j] = b[j]+c2[j]; vf_check(far(a,d) < 1e-9, "Q = q + tau"); vf_check(on_lattice(c2), "tau is a reciprocal lattice vector"); vf_check(s.outside(xyz(b)) < 1e-6, "q is in the first zone"); }
  auto ins = z->isinside(q0); for (unsigned i=0;i<n;++i) { double o = s.outside(xyz(row(q0,i))); if (std::abs(o) > 1e-6) vf_check(ins[i]==(o<0), "inside exactly if no lattice point is closer than the origin"); }
  if (primitive) { Q p0 = transform_to_primitive(lat, q0), p(REC, prim, 1u); QI pt(REC, prim, 1u); auto pin = z->isinside(p0); for (unsigned i=0;i<n;++i) { double o = s.outside(xyz(row(q0,i))); if (std::abs(o) > 1e-6) vf_check(pin[i]==(o<0), "also for points in the primitive lattice"); } }
  // the wedge
  double tol = 1e-7; auto inwedge = [&](const V3& b){ double m = 1e9; V3 x = xyz(b); for (unsigned k=0;k<wn.size(0);++k) { V3 y = xyz(row(wn,k)); m = std::min(m, dt(x,y)/std::sqrt(dt(y,y))); } return m; };
  std::vector<size_t> R, S; Q w(REC, lat, 1u); QI u(REC, lat, 1u);
  vf_check(z->ir_moveinto(q0, w, u, R, S, 1), "points are moved into the irreducible zone"); vf_check(w.size(0)==n && u.size(0)==n && R.size()==n && S.size()==n, "one result for each point");
  auto iw = z->isinside_wedge(w);
  for (unsigned i=0;i<n;++i) { vf_check(R[i] < order && S[i] < order, "operations of the point group"); V3 a = row(q0,i), b = row(w,i), c2 = row(u,i), d = tmv(pg.get(R[i]), b); for (int j=0;j<3;++j) d[j] += c2[j]; vf_check(far(a,d) < 1e-8, "Q = R^T q + tau"); vf_check(on_lattice(c2), "tau is a reciprocal lattice vector"); vf_check(s.outside(xyz(b)) < 1e-6, "q is in the first zone"); V3 e = tmv(pg.get(S[i]), tmv(pg.get(R[i]), b)); vf_check(far(e,b) < 1e-8 && pg.get(S[i])==pg.get(pg.get_inverse_index(R[i])), "the inverse operation"); vf_check(iw[i], "q is in the wedge"); }
  // points equivalent by symmetry have the same irreducible point
  bool whole_wedge = wedge && !(lat.is_triclinic() && !has);
  if (whole_wedge) { Q e(REC, lat, n), x(REC, lat, 1u); QI y(REC, lat, 1u); std::vector<size_t> R2, S2; for (unsigned i=0;i<n;++i) { V3 a = tmv(pg.get(g()%order), row(q0,i)); M3 T = mul(tr(lat.vectors(DIR)), P); V3 k{double(int(g()%5)-2),double(int(g()%5)-2),double(int(g()%5)-2)}; V3 b = mv(T,k); for (int j=0;j<3;++j) e.val(i,j) = a[j] + std::round(b[j]/math::two_pi); }
    z->ir_moveinto(e, x, y, R2, S2, 1); for (unsigned i=2;i<n;++i) { vf_check(far(row(x,i), row(w,i)) < 1e-7, "equivalent points have one irreducible point"); } }
  // the wedge alone
  Q ww(REC, lat, 1u); std::vector<size_t> R3; vf_check(z->ir_moveinto_wedge(q0, ww, R3, 1), "points are moved into the wedge"); auto iww = z->isinside_wedge(ww); for (unsigned i=0;i<n;++i) { vf_check(iww[i], "in the wedge"); vf_check(far(row(q0,i), tmv(pg.get(R3[i]), row(ww,i))) < 1e-8, "Q = R^T q"); }
  auto i0 = z->isinside_wedge(q0, true); for (unsigned i=0;i<n;++i) { double m = inwedge(row(q0,i)); if (std::abs(m) > tol) vf_check(i0[i]==(m>0), "in the wedge exactly if on the inner side of its planes"); }
  return true;
}
static void zones(int from, unsigned seed, bool primitive, bool reversal, bool wedge, bool divide, unsigned allowed){ unsigned refused = 0; for (int h=from; h<531; h+=8) if (!zone(h, seed, primitive, reversal, wedge, divide)) ++refused; vf_check(refused <= allowed, "a zone is found"); }
#define ZONES(k) VF_NATIVE(zones_##k){ zones(1+k, 1, true, false, true, true, 0); }
ZONES(0) ZONES(1) ZONES(2) ZONES(3) ZONES(4) ZONES(5) ZONES(6) ZONES(7)
VF_NATIVE(conventional){ for (int k=0;k<8;k+=3) zones(1+k, 2, false, false, true, true, 0); }
VF_NATIVE(time_reversal){ for (int k=1;k<8;k+=3) zones(1+k, 3, true, true, true, true, 0); }
VF_NATIVE(no_wedge){ for (int k=2;k<8;k+=3) zones(1+k, 4, true, false, false, true, 0); }
VF_NATIVE(divide_conventional){ for (int k=0;k<8;k+=3) zones(1+k, 5, true, false, true, false, 0); }
VF_NATIVE(divide_conventional_reversal){ for (int k=1;k<8;k+=3) zones(1+k, 6, false, true, true, false, 0); }
#endif

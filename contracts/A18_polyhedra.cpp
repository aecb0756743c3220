//! file {"sources":["$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp","$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp","$REPO/src/polyhedron_faces.cpp","$REPO/lib/tetgen/predicates.cxx"],"opt":"-O1","flags":["-DTETLIBRARY"]}
//! * {"trials":200,"ntime":1,"unroll":60,"time":120}
//! hulls {"ntime":8,"trials":3000}
//! hulls_lattice {"ntime":8,"trials":3000}
//! cuts {"ntime":15,"trials":3000}
//! cuts_lattice {"ntime":15,"trials":3000}
//! both {"ntime":15,"trials":3000}
//! rotated {"ntime":8,"trials":3000}
//! sliver {"trials":1}
//! relations {"ntime":15,"trials":3000}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <random>
#include <cassert>
#include <map>
#include <set>
#include "verif.h"
#ifdef VF_SYM
#include "stdmap.h"
#include "symmetry.cpp"
#include "pointsymmetry.cpp"
#include "pointgroup.cpp"
#include "bravais.cpp"
#endif
#include "array_.hpp"
#include "lattice_dual.hpp"
#include "array_l_.hpp"
#include "polyhedron_flex.hpp"
using namespace brille; using namespace brille::lattice; using V3 = std::array<double,3>; using M3 = std::array<double,9>; using L = Lattice<double>; using Q = LVec<double>; using D = bArray<double>;
static const LengthUnit DIR = LengthUnit::angstrom, REC = LengthUnit::inverse_angstrom;
using Bare = polyhedron::Poly<double,brille::Array2>; using Lat = polyhedron::Poly<double,LVec>; using polyhedron::Faces;
#ifdef VF_SYM
// tetgen's exact sign predicate; its value is the determinant itself
double orient3d(const double* a, const double* b, const double* c, const double* d, const bool&, const bool&, const double&){ double u[3], v[3], w[3]; for (int i=0;i<3;++i) { u[i] = a[i]-d[i]; v[i] = b[i]-d[i]; w[i] = c[i]-d[i]; } return u[0]*(v[1]*w[2]-v[2]*w[1]) + u[1]*(v[2]*w[0]-v[0]*w[2]) + u[2]*(v[0]*w[1]-v[1]*w[0]); }
double orient2d(const double* a, const double* b, const double* c){ return (a[0]-c[0])*(b[1]-c[1]) - (a[1]-c[1])*(b[0]-c[0]); }
#include "polyhedron_faces.cpp"
#endif
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
static V3 sub(const V3& a, const V3& b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
static V3 crs(const V3& a, const V3& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
static double dt(const V3& a, const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static double det(const V3& a, const V3& b, const V3& c){ return dt(a,crs(b,c)); }
static V3 any3(const char* nm, long k){ V3 r; for (long j=0;j<3;++j) r[j] = vf::any<double>(nm,3*k+j); return r; }
static V3 row(const D& x, ind_t i){ return {x.val(i,0u),x.val(i,1u),x.val(i,2u)}; }
static D rows(const std::vector<V3>& p){ D r(ind_t(p.size()),3u); for (ind_t i=0;i<p.size();++i) for (ind_t j=0;j<3;++j) r.val(i,j) = p[i][j]; return r; }
// ---- the orientation of points
VF_ENTRY(orient_bare){ V3 a = any3("a",0), b = any3("b",0), c = any3("c",0), d = any3("d",0), e = any3("d",1); auto o = pseudo_orient3d(rows({a}),rows({b}),rows({c}),rows({d,e})); vf_check(o.size()==2, "one plane and two points");
  vf_check(vf_eq(o[0], det(sub(a,d),sub(b,d),sub(c,d))), "the determinant for the first point"); vf_check(vf_eq(o[1], det(sub(a,e),sub(b,e),sub(c,e))), "the determinant for the second point");
  vf_check(vf_eq(predicate3d(a[0],a[1],a[2],b[0],b[1],b[2],c[0],c[1],c[2],d[0],d[1],d[2]), o[0]), "the predicate of coordinates"); }
VF_ENTRY(orient_planes){ V3 a = any3("a",0), b = any3("b",0), c = any3("c",0), f = any3("a",1), g = any3("b",1), h = any3("c",1), d = any3("d",0); auto o = pseudo_orient3d(rows({a,f}),rows({b,g}),rows({c,h}),rows({d})); vf_check(o.size()==2, "two planes and one point");
  vf_check(vf_eq(o[0], det(sub(a,d),sub(b,d),sub(c,d))), "the determinant for the first plane"); vf_check(vf_eq(o[1], det(sub(f,d),sub(g,d),sub(h,d))), "the determinant for the second plane"); }
static Symmetry p1(){ Symmetry s(size_t(0)); s.add(Motion<int,double>()); return s; }
/// a triclinic lattice of whole numbers with determinant 64
static L tri(){ using I = Impl<double>; double f = math::two_pi; M3 A{4,1,-1, 0,4,2, 0,0,4}, B{f/4,0,0, -f/16,f/4,0, f*3/32,-f/8,f/4}, a, b; for (int i=0;i<3;++i) for (int j=0;j<3;++j) { a[3*i+j] = b[3*i+j] = 0; for (int k=0;k<3;++k) { a[3*i+j] += A[3*k+i]*A[3*k+j]; b[3*i+j] += B[3*k+i]*B[3*k+j]; } }
  return L(std::make_shared<I>(A,B,a,b,Bravais::P,p1(),PointSymmetry(),Basis(),false)); }

static Q lrows(LengthUnit u, const L& l, const std::vector<V3>& p){ return Q(u, l, rows(p)); }
/// six times the oriented volume of lattice vectors is that of their coordinates times the volume of the cell
VF_ENTRY(orient_lattice){ L l = tri(); bool dir = pick("direct",1); V3 a = any3("a",0), b = any3("b",0), c = any3("c",0), d = any3("d",0); auto u = dir ? DIR : REC; auto o = pseudo_orient3d(lrows(u,l,{a}),lrows(u,l,{b}),lrows(u,l,{c}),lrows(u,l,{d})); double f = math::two_pi, v = dir ? 64. : f*f*f/64;
  vf_check(o.size()==1, "one"); vf_check(vf_eq(o[0], v*det(sub(a,d),sub(b,d),sub(c,d))), "the determinant times the volume of the cell"); }
VF_ENTRY(orient_flat){ double x[6]; D a(1u,2u), b(1u,2u), c(1u,2u); for (int j=0;j<2;++j) { x[j] = a.val(0u,j) = vf::any<double>("a",j); x[2+j] = b.val(0u,j) = vf::any<double>("b",j); x[4+j] = c.val(0u,j) = vf::any<double>("c",j); }
  std::vector<double> o; bool bad = vf::throws([&]{ o = pseudo_orient2d(a,b,c); }); vf_check(!bad, "accepted"); vf_check(o.size()==1, "one"); vf_check(vf_eq(o[0], (x[0]-x[4])*(x[3]-x[5])-(x[1]-x[5])*(x[2]-x[4])), "the determinant"); }
VF_ENTRY(colinear){ V3 a = any3("a",0), b = any3("b",0), c = any3("c",0); auto t = pseudo_colinear(rows({a}),rows({b}),rows({c})); vf_check(t.size()==1, "one"); V3 n = crs(sub(a,c),sub(b,c)); double e = 1e-9; vf_check(vf_implies(vf_and(vf_and(n[0]==0,n[1]==0),n[2]==0), t[0]), "points on one line are"); vf_check(vf_implies(t[0], vf_and(vf_and(vf_and(n[0]<e,n[0]>-e),vf_and(n[1]<e,n[1]>-e)),vf_and(n[2]<e,n[2]>-e))), "no others are"); }
/// which side of one or of many planes a point is on
VF_ENTRY(inside){ V3 a = any3("a",0), b = any3("b",0), c = any3("c",0), f = any3("a",1), g = any3("b",1), h = any3("c",1), d = any3("d",0), e = any3("d",1); double s = det(sub(a,d),sub(b,d),sub(c,d)), t = det(sub(a,e),sub(b,e),sub(c,e)), r = det(sub(f,d),sub(g,d),sub(h,d));
  auto i = point_inside_plane(rows({a}),rows({b}),rows({c}),rows({d,e})); vf_check(i.size()==2, "two points"); vf_check(vf_iff(i[0], s >= 0), "the first point"); vf_check(vf_iff(i[1], t >= 0), "the second point");
  auto j = point_inside_planes(rows({a,f}),rows({b,g}),rows({c,h}),rows({d})); vf_check(j.size()==2, "two planes"); vf_check(vf_iff(j[0], s >= 0), "the first plane"); vf_check(vf_iff(j[1], r >= 0), "the second plane"); }
VF_ENTRY(inside_all){ V3 a = any3("a",0), b = any3("b",0), c = any3("c",0), f = any3("a",1), g = any3("b",1), h = any3("c",1), d = any3("d",0); double s = det(sub(a,d),sub(b,d),sub(c,d)), r = det(sub(f,d),sub(g,d),sub(h,d)); double tol = 1e-6*pick("tolerance",1);
  bool k = point_inside_all_planes(rows({a,f}),rows({b,g}),rows({c,h}),rows({d}),tol); vf_check(vf_implies(vf_and(s >= 0, r >= 0), k), "points behind all planes are inside"); double e = tol + 1e-9; vf_check(vf_implies(k, vf_and(s > -e, r > -e)), "points in front of a plane are not"); }
/// normal vectors and points of planes
VF_ENTRY(normal){ V3 a = any3("a",0), b = any3("b",0), c = any3("c",0), n = crs(sub(b,a),sub(c,a)); vf_assume(dt(n,n) > 0.01); auto x = row(three_point_normal(rows({a}),rows({b}),rows({c})),0); double l = std::sqrt(dt(n,n)); for (int j=0;j<3;++j) vf_check(vf_eq(x[j]*l, n[j]), "along the product of the edges and of unit length");
  auto y = row(three_point_normal(rows({c,b,a}),2u,1u,0u),0); std::vector<ind_t> f{2,1,0}; auto z = row(three_point_normal(rows({c,b,a}),f),0); for (int j=0;j<3;++j) { vf_check(vf_eq(y[j],x[j]), "of indexed points"); vf_check(vf_eq(z[j],x[j]), "of a face"); } }
static void from_normal(const V3& d, double l){ V3 n, p = any3("p",0); double f = vf::any<double>("f"); vf_assume(vf_and(f > 0.01, f < 100)); for (int j=0;j<3;++j) n[j] = f*d[j];
  auto [a,b,c] = plane_points_from_normal(rows({n}),rows({p})); V3 u = sub(row(b,0),row(a,0)), v = sub(row(c,0),row(a,0)), w = crs(u,v); for (int j=0;j<3;++j) vf_check(vf_eq(row(a,0)[j],p[j]), "the point is kept"); vf_check(vf_eq(dt(u,n),0.), "the second point is in the plane"); vf_check(vf_eq(dt(v,n),0.), "the third point is in the plane"); for (int j=0;j<3;++j) vf_check(vf_eq(w[j]*l, d[j]), "and they turn around the normal"); }
VF_ENTRY(normal_100){ from_normal({1,0,0},1); } VF_ENTRY(normal_001){ from_normal({0,0,-1},1); } VF_ENTRY(normal_221){ from_normal({2,2,1},3); }
#ifndef VF_SYM
VF_NATIVE(normal_any){ V3 d; bool some = false; for (int j=0;j<3;++j) { d[j] = vf::any_int<int>("d",-4,4,j); some |= d[j]!=0; } vf_assume(some); from_normal(d, std::sqrt(dt(d,d))); }
VF_NATIVE(normal_diagonal){ double s = vf::any_bool("s") ? 1 : -1; from_normal({s,s,s}, std::sqrt(3.)); }
#endif
// ---- measures of a tetrahedron of any shape
static const ind_t TET[4][3] = {{0,2,1},{0,1,3},{1,2,3},{2,0,3}}; static Faces tet(){ std::vector<std::vector<ind_t>> f; for (auto& t: TET) f.push_back({t[0],t[1],t[2]}); return Faces(f); }
static std::vector<V3> four(){ std::vector<V3> p; for (int i=0;i<4;++i) p.push_back(any3("v",i)); return p; }
static double six(const std::vector<V3>& p){ return det(sub(p[1],p[0]),sub(p[2],p[0]),sub(p[3],p[0])); }
VF_ENTRY(tetra_bare){ auto p = four(); double v = six(p); vf_assume(v > 0.01); Bare t(rows(p), tet()); vf_check(vf_eq(6*t.volume(), v), "volume"); auto c = row(t.centroid(),0); for (int j=0;j<3;++j) vf_check(vf_eq(c[j]*4*t.volume(), (p[0][j]+p[1][j]+p[2][j]+p[3][j])*v/6), "centroid");
  auto fp = t.face_points(); for (unsigned k=0;k<4;++k) for (int j=0;j<3;++j) vf_check(vf_eq(3*fp.val(k,j), p[TET[k][0]][j]+p[TET[k][1]][j]+p[TET[k][2]][j]), "points of faces"); auto [a,b,d] = t.planes(); for (unsigned k=0;k<4;++k) for (int j=0;j<3;++j) { vf_check(vf_eq(a.val(k,j),p[TET[k][0]][j]), "first point of a plane"); vf_check(vf_eq(b.val(k,j),p[TET[k][1]][j]), "second point of a plane"); vf_check(vf_eq(d.val(k,j),p[TET[k][2]][j]), "third point of a plane"); } }
VF_ENTRY(tetra_lattice){ auto p = four(); double v = six(p), f = math::two_pi; vf_assume(v > 0.01); L l = tri(); bool dir = pick("direct",1); Lat t(lrows(dir?DIR:REC,l,p), tet()); vf_check(vf_eq(6*t.volume(), v*(dir ? 64. : f*f*f/64)), "volume in the units of the lattice"); auto c = t.centroid(); vf_check(c.size(0)==1 && c.type()==(dir?DIR:REC), "a vector of the lattice"); for (int j=0;j<3;++j) vf_check(vf_eq(c.val(0u,unsigned(j))*4*v, (p[0][j]+p[1][j]+p[2][j]+p[3][j])*v), "centroid"); }
VF_ENTRY(tetra_moved){ auto p = four(); double v = six(p); vf_assume(v > 0.01); Bare t(rows(p), tet()); auto m = t.mirror(); vf_check(vf_eq(6*m.volume(), v), "the mirrored volume"); for (unsigned i=0;i<4;++i) for (int j=0;j<3;++j) vf_check(vf_eq(m.vertices().val(i,j), -p[i][j]), "mirrored vertices"); auto e = t.edges(); vf_check(e.size(0)==6, "six edges"); auto h = t.half_edges(); for (unsigned k=0;k<6;++k) { vf_check(e.val(k,0u) < 4 && e.val(k,1u) < 4 && e.val(k,0u)!=e.val(k,1u), "an edge"); for (unsigned q=0;q<k;++q) vf_check(!(e.val(k,0u)==e.val(q,0u)&&e.val(k,1u)==e.val(q,1u)) && !(e.val(k,0u)==e.val(q,1u)&&e.val(k,1u)==e.val(q,0u)), "edges differ"); for (int j=0;j<3;++j) vf_check(vf_eq(2*h.val(k,j), p[e.val(k,0u)][j]+p[e.val(k,1u)][j]), "middles of edges"); } }
VF_ENTRY(tetra_contains){ auto p = four(); double v = six(p); vf_assume(v > 0.01); V3 x = any3("x",0); Bare t(rows(p), tet()); auto r = t.contains(rows({x})); vf_check(r.size()==1, "one point"); bool in = true, near = true; for (auto& f: TET) { double s = det(sub(p[f[0]],x),sub(p[f[1]],x),sub(p[f[2]],x)); in = vf_and(in, s >= 0); near = vf_and(near, s > -1e-9); } vf_check(vf_implies(in, r[0]), "points behind all faces are inside"); vf_check(vf_implies(r[0], near), "no others are"); }
/// the volume of a closed set of faces does not depend on the origin
VF_ENTRY(prism_moved){ std::vector<V3> p, q; V3 o = any3("o",0); for (int i=0;i<6;++i) { p.push_back(any3("v",i)); q.push_back({p[i][0]+o[0],p[i][1]+o[1],p[i][2]+o[2]}); } std::vector<std::vector<ind_t>> f{{0,2,1},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}}; vf_check(vf_eq(Faces(f).volume(rows(p)), Faces(f).volume(rows(q))), "volume"); }
/// the box around points
static void boxed(unsigned n){ std::vector<V3> p; for (unsigned i=0;i<n;++i) p.push_back(any3("v",i)); for (auto& x: p) for (double y: x) vf_assume(vf_and(y < 1e9, y > -1e9)); auto b = polyhedron::bounding_box(rows(p)); V3 lo, hi; auto v = b.vertices(); vf_check(v.size(0)==8 && b.face_count()==6, "a box"); for (int j=0;j<3;++j) { lo[j] = v.val(0u,unsigned(j)); hi[j] = v.val(6u,unsigned(j)); bool l = false, h = false; for (auto& x: p) { vf_check(vf_and(lo[j] <= x[j], x[j] <= hi[j]), "every point is between the extremes"); l = vf_or(l, lo[j]==x[j]); h = vf_or(h, hi[j]==x[j]); } vf_check(vf_and(l,h), "which are those of points"); }
  vf_check(vf_eq(b.volume(), (hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2])), "volume of the box"); for (unsigned i=0;i<8;++i) for (int j=0;j<3;++j) vf_check(vf_or(v.val(i,unsigned(j))==lo[j], v.val(i,unsigned(j))==hi[j]), "corners"); }
VF_ENTRY(box_1){ boxed(1); } VF_ENTRY(box_2){ boxed(2); } VF_ENTRY(box_3){ boxed(3); }
#ifndef VF_SYM
// ---- a cube cut by any plane perpendicular to an axis
static void cut_axis(unsigned ax, bool up){ double h = vf::any<double>("h"); if (vf_native()) h = 0.05+3.9*(std::abs(h)-std::floor(std::abs(h))); vf_assume(vf_and(h > 0.01, h < 3.99)); auto box = polyhedron::bounding_box(rows({{0,0,0},{4,4,4}})); V3 a{0,0,0}, b{0,0,0}, c{0,0,0}; a[ax] = b[ax] = c[ax] = h; b[(ax+1)%3] = 1; c[(ax+2)%3] = 1;
  auto r = up ? box.cut(rows({a}),rows({c}),rows({b})) : box.cut(rows({a}),rows({b}),rows({c})); vf_check(r.face_count()==6 && r.vertex_count()==8, "a box is left"); vf_check(vf_eq(r.volume(), up ? 16*(4-h) : 16*h), "of the volume behind the plane"); auto v = r.vertices(); for (unsigned i=0;i<v.size(0);++i) vf_check(up ? v.val(i,ax) >= h-1e-9 : v.val(i,ax) <= h+1e-9, "no vertex is in front of the plane"); }
VF_NATIVE(cut_x_lower){ cut_axis(0,false); } VF_NATIVE(cut_x_upper){ cut_axis(0,true); } VF_NATIVE(cut_y_lower){ cut_axis(1,false); } VF_NATIVE(cut_y_upper){ cut_axis(1,true); } VF_NATIVE(cut_z_lower){ cut_axis(2,false); } VF_NATIVE(cut_z_upper){ cut_axis(2,true); }
// ---- bounded: hulls of whole-number points, compared with their exact hulls
using K3 = std::array<long,3>;
static std::mt19937 rgen(7);
static void seed(){ rgen.seed(vf::any_int<unsigned>("seed",0,1000000000)); }
static long rnd(long a, long b){ return a + long(rgen()%(unsigned long)(b-a+1)); }
static K3 sub(const K3& a, const K3& b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
static K3 crs(const K3& a, const K3& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
static long dt(const K3& a, const K3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static bool near(double a, double b, double e=1e-8){ return std::abs(a-b) < e*(1+std::abs(b)); }
// outward planes n.x <= d, the corners, and six times the volume; all exactly
struct Hull { std::vector<K3> p; std::set<std::array<long,4>> planes; std::set<K3> corner; std::map<std::array<long,4>,size_t> sides; long vol6 = 0; };
static Hull hull(const std::vector<K3>& p){ Hull h; h.p = p; int n = int(p.size());
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) for (int k=0;k<n;++k) { K3 c = crs(sub(p[j],p[i]),sub(p[k],p[i])); if (dt(c,c)==0) continue; bool ok = true; long lo = 0; for (auto& x: p) { long v = dt(c,sub(x,p[i])); if (v>0) ok = false; lo = std::min(lo,v); } if (!ok || lo==0) continue; long g = std::abs(std::gcd(std::gcd(c[0],c[1]),c[2])); K3 m{c[0]/g,c[1]/g,c[2]/g}; h.planes.insert({m[0],m[1],m[2],dt(m,p[i])}); }
  for (auto& f: h.planes) { K3 m{f[0],f[1],f[2]}; std::vector<K3> on, poly; for (auto& x: p) if (dt(m,x)==f[3]) on.push_back(x); K3 st = *std::min_element(on.begin(),on.end()), cur = st;
    do { poly.push_back(cur); bool first = true; K3 nx{}; for (auto& x: on) { if (x==cur) continue; if (first) { nx = x; first = false; continue; } long t = dt(m,crs(sub(nx,cur),sub(x,cur))); if (t<0 || (t==0 && dt(sub(x,cur),sub(x,cur))>dt(sub(nx,cur),sub(nx,cur)))) nx = x; } cur = nx; } while (cur!=st);
    for (auto& x: poly) h.corner.insert(x); h.sides[f] = poly.size(); for (size_t i=1;i+1<poly.size();++i) h.vol6 += dt(poly[0],crs(poly[i],poly[i+1])); }
  return h; }
static D arr(const std::vector<K3>& p, double s=1){ std::vector<V3> v; for (auto& x: p) v.push_back({s*double(x[0]),s*double(x[1]),s*double(x[2])}); return rows(v); }
static Hull some_hull(long& r){ r = rnd(1,4); for (;;) { std::vector<K3> p; for (long n=rnd(4,9);n>0;--n) p.push_back({rnd(-r,r),rnd(-r,r),rnd(-r,r)}); Hull h = hull(p); if (!h.planes.empty()) return h; } }
static L some_lattice(){ M3 A; double d; do { for (auto& x: A) x = double(rnd(-8,8))/4; d = A[0]*(A[4]*A[8]-A[5]*A[7])-A[1]*(A[3]*A[8]-A[5]*A[6])+A[2]*(A[3]*A[7]-A[4]*A[6]); } while (d<1); return L(LengthUnit::angstrom, A, MatrixVectors::row, "P 1", "", Basis(), false); }
/// every edge is shared by two faces which pass it in opposite directions
template<class P> static void closed(const P& q){ auto f = q.faces().faces(); std::map<std::pair<ind_t,ind_t>,int> e; std::set<ind_t> vs; bool ok = true; for (auto& x: f) { ok &= x.size()>2; for (size_t i=0;i<x.size();++i) { ++e[{x[i],x[(i+1)%x.size()]}]; vs.insert(x[i]); } } vf_check(ok, "faces have three or more vertices"); for (auto& [k,v]: e) ok &= v==1 && e.count({k.second,k.first})==1; vf_check(ok, "the surface is closed"); vf_check(vs.size()==q.vertex_count(), "all vertices are used"); vf_check(long(vs.size())-long(e.size()/2)+long(f.size())==2, "like a sphere"); }
template<class P> static V3 cen(const P& q){ auto c = q.centroid(); vf_check(c.size(0)==1, "one centroid"); return {c.val(0u,0u),c.val(0u,1u),c.val(0u,2u)}; }
template<class P> static V3 fan(const P& q){ auto v = q.vertices(); V3 o{v.val(0u,0u),v.val(0u,1u),v.val(0u,2u)}, s{0,0,0}; double V = 0; auto at = [&](ind_t i)->V3{ return {v.val(i,0u)-o[0],v.val(i,1u)-o[1],v.val(i,2u)-o[2]}; }; for (auto& f: q.faces().faces()) for (size_t i=1;i+1<f.size();++i) { V3 a = at(f[0]), b = at(f[i]), c = at(f[i+1]); double d = det(a,b,c); V += d; for (int j=0;j<3;++j) s[j] += d*(a[j]+b[j]+c[j])/4; } return {o[0]+s[0]/V,o[1]+s[1]/V,o[2]+s[2]/V}; }
/// a hull has the faces and vertices of the exact one
template<class P> static void right_hull(const P& q, const Hull& h, double s, double unit){ closed(q); vf_check(near(q.volume(), s*s*s*double(h.vol6)/6*unit), "volume of the hull"); vf_check(q.face_count()==h.planes.size() && q.vertex_count()==h.corner.size(), "as many faces and vertices"); auto v = q.vertices(); std::vector<K3> k; for (ind_t i=0;i<v.size(0);++i) { K3 x; for (unsigned j=0;j<3;++j) x[j] = std::lround(v.val(i,j)/s); for (unsigned j=0;j<3;++j) vf_check(near(v.val(i,j), s*double(x[j])), "a vertex is one of the points"); vf_check(h.corner.count(x)==1, "and a corner"); k.push_back(x); }
  std::set<std::array<long,4>> seen; for (auto& f: q.faces().faces()) { K3 c = crs(sub(k[f[1]],k[f[0]]),sub(k[f[2]],k[f[1]])); long g = std::abs(std::gcd(std::gcd(c[0],c[1]),c[2])); vf_check(g>0, "corners of a face are no line"); K3 m{c[0]/g,c[1]/g,c[2]/g}; std::array<long,4> pl{m[0],m[1],m[2],dt(m,k[f[0]])}; vf_check(h.planes.count(pl)==1 && h.sides.at(pl)==f.size(), "a face of the hull, outward, with all of its corners"); vf_check(seen.insert(pl).second, "once"); }
  V3 a = cen(q), b = fan(q); for (int j=0;j<3;++j) vf_check(near(a[j],b[j]), "centroid"); }
VF_NATIVE(hulls){ seed(); long r; Hull h = some_hull(r); double s = std::array<double,3>{1,0.125,0.375}[size_t(rnd(0,2))]; Bare q(arr(h.p,s)); right_hull(q,h,s,1); auto p = h.p; std::shuffle(p.begin(),p.end(),rgen); Bare o(arr(p,s)); right_hull(o,h,s,1); vf_check(o==q && q==o, "the order of points does not matter"); for (int i=0;i<4;++i) p.push_back(p[size_t(rnd(0,long(p.size())-1))]); right_hull(Bare(arr(p,s)),h,s,1); }
VF_NATIVE(hulls_lattice){ seed(); long r; Hull h = some_hull(r); double s = std::array<double,3>{1,0.1,0.37}[size_t(rnd(0,2))]; L l = some_lattice(); auto u = rnd(0,1) ? DIR : REC; Lat q(Q(u,l,arr(h.p,s)),1e-9); right_hull(q,h,s,std::abs(l.volume(u))); }
/// measures and relations of one polyhedron
template<class P> static void relations_of(const P& q, bool strict){ auto v = q.vertices(); double V = q.volume(); auto m = q.mirror(); vf_check(near(m.volume(),V), "mirrored volume"); closed(m); vf_check(m.mirror()==q, "mirrored twice"); auto ce = q.centre(); vf_check(near(ce.volume(),V), "centred volume"); V3 o = cen(ce); for (double x: o) vf_check(near(x,0), "centred"); vf_check(q==q && !(q!=q), "equal to itself"); auto bb = polyhedron::bounding_box(v); closed(bb); for (bool b: bb.contains(v,1e-8*(1+bb.volume()))) vf_check(b, "the box contains all vertices"); vf_check(bb.volume() >= V-1e-9, "the box is not smaller");
  vf_check(q.edges().size(0)==q.vertex_count()+q.face_count()-2, "every edge once"); double md = 1e300, cr = 0; for (ind_t i=0;i<v.size(0);++i) { for (ind_t j=0;j<i;++j) md = std::min(md,norm(v.view(i)-v.view(j)).sum()); cr = std::max(cr,norm(v.view(i)-q.centroid()).sum()); } vf_check(near(q.faces().minimum_distance(v),md), "closest vertices"); vf_check(near(q.circumsphere_radius(),cr), "farthest vertex");
  std::vector<ind_t> pm(v.size(0)), inv(v.size(0)); std::iota(pm.begin(),pm.end(),0); std::shuffle(pm.begin(),pm.end(),rgen); for (ind_t i=0;i<pm.size();++i) inv[pm[i]] = i; auto fs = q.faces().faces(); std::shuffle(fs.begin(),fs.end(),rgen); for (auto& f: fs) { for (auto& x: f) x = inv[x]; std::rotate(f.begin(),f.begin()+rnd(0,long(f.size())-1),f.end()); } P ren(v.extract(pm),Faces(fs)); vf_check(ren==q && q==ren, "numbering of vertices and faces does not matter"); std::swap(fs[0][0],fs[0][1]); P bad(v.extract(pm),Faces(fs)); vf_check(bad!=q, "the order around a face does");
  auto fp = q.face_points(); auto fn = q.face_normals(); vf_check(fp.size(0)==q.face_count() && fn.size(0)==q.face_count(), "one point and normal per face"); for (auto& f: q.faces().faces()) { auto a = v.view(f[0]), b = v.view(f[1]), c = v.view(f[2]); vf_check(q.has_face(a,b,c) && !q.has_face(a,c,b), "has its faces, outward"); } for (ind_t i=0;i<fn.size(0);++i) { vf_check(near(norm(fn.view(i)).sum(),1), "unit length"); for (ind_t j=0;j<v.size(0);++j) vf_check(dot(fn.view(i),v.view(j)-fp.view(i)).sum() < 1e-8, "normals point outward"); }
  for (bool b: q.contains(v,1e-8*(1+V))) vf_check(b, "contains its vertices"); for (bool b: q.contains(q.half_edges(),1e-8*(1+V))) vf_check(b, "contains the middles of its edges"); for (bool b: q.contains(fp,1e-8*(1+V))) vf_check(b, "contains the points of its faces"); auto rp = q.rand_rejection(5,unsigned(rnd(1,1000))); vf_check(rp.size(0)==5, "as many random points as asked for"); for (bool b: q.contains(rp)) vf_check(b, "random points are inside"); for (bool b: q.contains(q.centroid())) vf_check(b, "contains its centroid"); }
VF_NATIVE(relations){ seed(); long r; Hull h = some_hull(r); if (rnd(0,1)) relations_of(Bare(arr(h.p)), true); else { L l = some_lattice(); auto u = rnd(0,1) ? DIR : REC; relations_of(Lat(Q(u,l,arr(h.p)),1e-9), false); } }
/// both parts of a cut polyhedron, and what they contain
template<class P, class M> static void cut_by(const P& q, const Hull& h, long r, M mk, bool exact){ const long big = 1000000; double V = q.volume(); auto pt = [&]()->K3{ K3 x{rnd(-r,r),rnd(-r,r),rnd(-r,r)}; if (!exact) for (auto& y: x) y = y*big+rnd(-400000,400000); return x; }; double fine = exact ? 1 : 1e-6;
  for (int t=0;t<4;++t) { K3 ka = pt(), kb = pt(), kc = pt(), n = crs(sub(kb,ka),sub(kc,ka)); if (n==K3{0,0,0}) continue; auto a = mk({ka},fine), b = mk({kb},fine), c = mk({kc},fine); P one = q, two = q, moved = q;
    try { one = q.cut(a,b,c); two = q.cut(a,c,b); moved = q.divide(a,b,c); } catch (const std::exception& e) { if (!exact && std::string(e.what()).find("uplicate") != std::string::npos) continue; vf_check(false, "a cut failed"); }
    double v1 = one.volume(), v2 = two.volume(); vf_check(near(v1+v2,V), "both parts add up"); vf_check(near(moved.volume(),v1), "divided like cut"); if (one.face_count()) closed(one); if (two.face_count()) closed(two);
    double s1 = 0, s2 = 0; for (auto& x: h.p) { __int128 d = 0; K3 y = x; if (!exact) for (auto& z: y) z *= big; y = sub(y,ka); for (int j=0;j<3;++j) d += (__int128)n[j]*y[j]; if (d>0) s2 = 1; if (d<0) s1 = 1; } vf_check((one.face_count()>0) == (s1>0), "a part exists if a point is behind the plane"); vf_check((two.face_count()>0) == (s2>0), "or in front of it");
    if (s1>0 && s2>0) { vf_check(near(one.combine(two).volume(),V), "both parts combine"); if (v1 > 1e-4*V && v2 > 1e-4*V) { vf_check(!one.intersects(two,1e-10), "the parts do not overlap"); vf_check(one.intersects(q,1e-9) && q.intersects(two,1e-9), "each overlaps the whole"); vf_check(near(one.intersection(q,1e-9).volume(),v1), "common part with the whole"); } }
    for (int y=0;y<12;++y) { K3 x{rnd(-r,r),rnd(-r,r),rnd(-r,r)}; bool in = true, edge = false; for (auto& f: h.planes) { long d = dt(K3{f[0],f[1],f[2]},x); if (d>f[3]) in = false; if (d==f[3]) edge = true; } K3 z = x; if (!exact) for (auto& w: z) w *= big; z = sub(z,ka); __int128 sd = 0; for (int j=0;j<3;++j) sd += (__int128)n[j]*z[j]; if (edge || sd==0) continue; auto X = mk({x},1.); vf_check(q.contains(X)[0]==in, "contains what its planes bound"); if (s1>0) vf_check(one.contains(X)[0]==(in&&sd<0), "behind the plane"); if (s2>0) vf_check(two.contains(X)[0]==(in&&sd>0), "in front of the plane"); } } }
VF_NATIVE(cuts){ seed(); long r; Hull h = some_hull(r); cut_by(Bare(arr(h.p)), h, r, [](std::vector<K3> x, double f){ return arr(x,f); }, true); }
VF_NATIVE(cuts_lattice){ seed(); long r; Hull h = some_hull(r); L l = some_lattice(); auto u = rnd(0,1) ? DIR : REC; auto mk = [&](std::vector<K3> x, double f){ return Q(u,l,arr(x,f)); }; cut_by(Lat(mk(h.p,1.),1e-9), h, r, mk, false); }
/// no point of the hull is almost, but not, in the plane of a face (slivers are beyond the reach of rounded coordinates)
static bool blunt(const Hull& h){ for (auto& f: h.planes) { K3 m{f[0],f[1],f[2]}; for (auto& x: h.corner) { long d = f[3]-dt(m,x); if (d!=0 && double(d) < 10*std::sqrt(double(dt(m,m)))) return false; } } return true; }
/// intersections of two hulls: what both contain
VF_NATIVE(both){ seed(); long r; Hull h = some_hull(r), g; for (auto& x: h.p) for (auto& y: x) y *= 64; h = hull(h.p); do { std::vector<K3> p; for (long n=rnd(4,9);n>0;--n) p.push_back({rnd(-64*r,64*r),rnd(-64*r,64*r),rnd(-64*r,64*r)}); g = hull(p); } while (g.planes.empty() || g.vol6 < 64*64*64 || !blunt(g)); const double f = 1/64.; Bare p(arr(h.p,f)), q(arr(g.p,f)), i, j; try { i = p.intersection(q); j = q.intersection(p); } catch (const std::exception& e) { if (std::string(e.what()).find("uplicate") != std::string::npos) return; vf_check(false, "an intersection failed"); }
  vf_check(std::abs(i.volume()-j.volume()) < 1e-6, "both ways"); vf_check(i.volume() < std::min(p.volume(),q.volume())+1e-6, "not larger than either"); if (i.volume() > 1e-3) closed(i);
  bool common = false; for (int t=0;t<60;++t) { K3 x; for (auto& y: x) y = rnd(-64*r,64*r); auto where = [&](const Hull& k){ int w = 1; for (auto& pl: k.planes) { long d = dt(K3{pl[0],pl[1],pl[2]},x) - pl[3]; if (d>0) return -1; if (d==0) w = 0; } return w; }; int a = where(h), b = where(g); if (a==0 || b==0) continue; bool in = a>0 && b>0; common |= in; if (i.face_count()) vf_check(i.contains(arr({x},f))[0]==in, "contains what both contain"); else vf_check(!in, "nothing in common"); } if (common && i.volume() > 1e-3) vf_check(p.intersects(q) && q.intersects(p), "they overlap"); }
/// one intersection with a sliver (known finding)
VF_NATIVE(sliver){ const double f = 1/64.; Bare p(arr({{1,1,0},{-1,2,-1},{-2,-2,-1},{-2,-1,2},{-1,0,2},{1,-1,-1},{1,0,-1}})), q(arr({{-40,20,97},{15,-42,-74},{-73,50,118},{72,94,92},{-89,-86,-27},{-108,-81,-79},{92,106,-43},{-36,-33,-71}},f)); vf_check(std::abs(p.intersection(q).volume()-q.intersection(p).volume()) < 1e-6, "sliver: both ways"); }
/// operations of a crystal keep shapes
VF_NATIVE(rotated){ seed(); long r; Hull h = some_hull(r); auto u = rnd(0,1) ? DIR : REC; long k = rnd(0,2); M3 A = k==0 ? M3{4,0,0,-2,2*std::sqrt(3.),0,0,0,5} : k==1 ? M3{4,0,0,0,4,0,0,0,4} : M3{4,1,1,1,4,1,1,1,4}; L l(LengthUnit::angstrom, A, MatrixVectors::row, std::string(rnd(0,1)?"-":"")+(k==0?"P 6 2":k==1?"P 4 2 3":"P 3*"), "", Basis(), false); auto ps = l.pointgroup_symmetry(); Lat q(Q(u,l,arr(h.p)),1e-9); V3 c = cen(q); for (ind_t i=0;i<ps.size();++i) { auto p = q.apply(ps,i); closed(p); vf_check(near(p.volume(),q.volume()), "volume"); V3 d = cen(p); auto R = ps.get(i); for (unsigned a=0;a<3;++a) { double e = 0; for (unsigned b=0;b<3;++b) e += double(u==DIR ? R[3*a+b] : R[3*b+a])*c[b]; vf_check(near(d[a],e), "the centroid moves along"); } } }
#endif

//! file {"sources":["$REPO/src/bz.cpp","$REPO/src/bz_move.cpp","$REPO/src/bz_wedge.cpp","$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp","$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp","$REPO/src/polyhedron_faces.cpp","$REPO/src/neighbours.cpp","$REPO/lib/tetgen/predicates.cxx","$REPO/lib/tetgen/tetgen.cxx"],"opt":"-O1","flags":["-DTETLIBRARY","-fopenmp"]}
//! * {"trials":1,"ntime":1,"unroll":60,"time":120}
//! tree {"forksel":2,"trials":200,"time":300,"prio":5}
//! trellis {"trials":1}
//! leaf {"trials":200}
//! tetrahedra {"trials":200}
//! tetrahedra_must {"trials":200}
//! cube_inside {"som":1,"products":3,"trials":200}
//! cube_face {"som":1,"products":3,"trials":200}
//! cube_edge {"som":1,"products":3,"trials":200}
//! cube_corner {"trials":200}
//! cube_volume {"trials":200}
//! bin_2 {"trials":200}
//! bin_3 {"trials":200}
//! bin_4 {"trials":200}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <random>
#include <cassert>
#include <mutex>
#include "verif.h"
#include "bz.hpp"
#include "bz_trellis.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
using namespace brille; using namespace brille::lattice; using V3 = std::array<double,3>; using M3 = std::array<double,9>; using I9 = std::array<int,9>; using L = Lattice<double>; using Q = LVec<double>; using QI = LVec<int>; using D = bArray<double>;
static const LengthUnit DIR = LengthUnit::angstrom, REC = LengthUnit::inverse_angstrom;
#ifdef VF_SYM
// tetgen's exact sign predicate; its value is the determinant itself
double orient3d(const double* a, const double* b, const double* c, const double* d, const bool&, const bool&, const double&){ double u[3], v[3], w[3]; for (int i=0;i<3;++i) { u[i] = a[i]-d[i]; v[i] = b[i]-d[i]; w[i] = c[i]-d[i]; } return u[0]*(v[1]*w[2]-v[2]*w[1]) + u[1]*(v[2]*w[0]-v[0]*w[2]) + u[2]*(v[0]*w[1]-v[1]*w[0]); }
#endif
using IW = std::vector<std::pair<ind_t,double>>;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
static bool close(double a, double b, double tol){ return vf_and(a-b < tol, b-a < tol); }
// ---- which bin of a trellis
static void bin(unsigned n){ std::vector<double> e(n); for (unsigned i=0;i<n;++i) { e[i] = vf::any<double>("e",i); if (i) vf_assume(e[i] > e[i-1]+0.01); } vf_assume(vf_and(e[0] > -10, e[n-1] < 10)); double x = vf::any<double>("x"); vf_tame(std::abs(x) < 12);
  size_t k = polytrellis::find_bin(e, x); vf_check(k < n, "a bin"); if (x < e[0]) vf_check(k==0, "points before the first edge are in the first bin"); else { vf_check(e[k] <= x, "its lower edge is not above the point"); if (k+1<n) vf_check(x < e[k+1], "its upper edge is above the point"); }
  int b = polytrellis::on_boundary(e, x, k); bool up = k+2<n, lo = k>0; if (b==1) { vf_check(up, "there is a bin above"); vf_check(close(x, e[up?k+1:k], 1e-9), "the point is on the upper edge"); } else if (b==-1) { vf_check(lo, "there is a bin below"); vf_check(close(x, e[k], 1e-9), "the point is on the lower edge"); } else { vf_check(b==0, "or none"); if (up) vf_check(x != e[k+1], "not on the upper edge"); if (lo) vf_check(x != e[k], "not on the lower edge"); } }
VF_ENTRY(bin_2){ bin(2); } VF_ENTRY(bin_3){ bin(3); } VF_ENTRY(bin_4){ bin(4); }
/// weights are not negative, sum up to one and reproduce the point
static void combine(const D& v, const IW& iw, const D& x, double tol){ double s = 0, p[3] = {0,0,0}; bool pos = true; for (auto& w: iw) { pos = vf_and(pos, w.second > -tol); s += w.second; for (int j=0;j<3;++j) p[j] += w.second*v.val(w.first,j); }
  vf_check(iw.size() > 0, "vertices are found"); vf_check(pos, "no weight is negative"); vf_check(close(s,1,tol), "weights sum up to one"); for (int j=0;j<3;++j) vf_check(close(p[j], x.val(0,j), tol), "the point is the weighted sum of the vertices"); }
static D position(){ D x(1u,3u); for (int j=0;j<3;++j) x.val(0,j) = vf::any<double>("x",j); return x; }
/// the on-th coordinate is inside of the box (0), on its lower (1) or upper (2) face
static void cube(const unsigned (&on)[3]){ unsigned at[8] = {4,7,1,0,9,2,5,8}; static const int c[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{1,0,1},{0,0,1},{0,1,1},{1,1,1}}; V3 lo{-1,0.5,2}, d{2,0.5,1}; D v(10u,3u,77.); for (int i=0;i<8;++i) for (int j=0;j<3;++j) v.val(at[i],j) = lo[j] + d[j]*c[i][j];
  std::array<ind_t,8> vi; for (int i=0;i<8;++i) vi[i] = at[i]; CubeNode n(vi); D x(1u,3u); double f[3]; for (int j=0;j<3;++j) { f[j] = on[j] ? on[j]-1. : vf::any<double>("f",j); if (!on[j]) { if (vf_native()) f[j] = 0.01+0.98*(std::abs(f[j])-std::floor(std::abs(f[j]))); vf_assume(vf_and(f[j] > 0.01, f[j] < 0.99)); } x.val(0,j) = lo[j]+d[j]*f[j]; }
  // products of numbers between zero and one are so, too
  for (int i=0;i<8;++i) { double g = c[i][0] ? 1-f[0] : f[0], h = c[i][1] ? 1-f[1] : f[1], k = c[i][2] ? 1-f[2] : f[2]; if (on[0]+on[1]+on[2]) { vf_check(vf_and(g*h >= 0, g*h <= 1), "products of fractions"); vf_check(vf_and(g*h*k >= 0, g*h*k <= 1), "products of fractions"); } else { vf_check(vf_and(g*h > 0.00005, g*h < 1), "products of fractions"); vf_check(vf_and(g*h*k > 0.0000002, g*h*k < 1), "products of fractions"); } }
  IW iw(3); bool ok = n.indices_weights(v, x, iw, true); vf_check(ok, "the node contains the point"); combine(v, iw, x, 1e-6); }
VF_ENTRY(cube_inside){ cube({0,0,0}); } VF_ENTRY(cube_face){ unsigned a = pick("axis",2), on[3] = {0,0,0}; on[a] = 1+pick("side",1); cube(on); } VF_ENTRY(cube_edge){ unsigned a = pick("axis",2), on[3]; for (unsigned j=0;j<3;++j) on[j] = j==a ? 0 : 1+pick("side",1,j); cube(on); } VF_ENTRY(cube_corner){ unsigned on[3]; for (unsigned j=0;j<3;++j) on[j] = 1+pick("side",1,j); cube(on); }
VF_ENTRY(cube_volume){ D v(8u,3u); double d[3]; static const int c[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{1,0,1},{0,0,1},{0,1,1},{1,1,1}}; for (int j=0;j<3;++j) { d[j] = vf::any<double>("d",j); double o = vf::any<double>("o",j); for (int i=0;i<8;++i) v.val(i,j) = o+d[j]*c[i][j]; } CubeNode n(std::array<ind_t,8>{0,1,2,3,4,5,6,7}); vf_check(vf_eq(n.volume(v), d[0]*d[1]*d[2]), "the volume of a box"); }
static double six(const D& v, const std::array<ind_t,4>& t){ double u[3][3]; for (int i=0;i<3;++i) for (int j=0;j<3;++j) u[i][j] = v.val(t[i],j)-v.val(t[3],j); return u[0][0]*(u[1][1]*u[2][2]-u[1][2]*u[2][1]) + u[0][1]*(u[1][2]*u[2][0]-u[1][0]*u[2][2]) + u[0][2]*(u[1][0]*u[2][1]-u[1][1]*u[2][0]); }
/// a pyramid cut into two tetrahedra of positive volume
struct Two { D v; std::vector<std::array<ind_t,4>> t; std::vector<std::array<double,4>> c; std::vector<double> vol; };
static Two two(){ Two r{D(6u,3u,50.),{{0,1,2,5},{0,2,3,5}},{},{}}; const double p[5][3] = {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,2}}; unsigned at[5] = {0,1,2,3,5}; for (int i=0;i<5;++i) for (int j=0;j<3;++j) r.v.val(at[i],j) = p[i][j]; for (auto& t: r.t) { double s = six(r.v,t); if (s<0) { std::swap(t[0],t[1]); s = -s; } r.vol.push_back(s/6); r.c.push_back({1,1,0.5,1.5}); } return r; }
/// the barycentric coordinates of a point, by its definition
static void inside_of(const Two& m, const D& x, bool* in, double tol){ for (int k=0;k<2;++k) { in[k] = true; for (int i=0;i<4;++i) { D v = 1.*m.v; for (int j=0;j<3;++j) v.val(m.t[k][i],j) = x.val(0,j); in[k] = vf_and(in[k], six(v,m.t[k]) >= -tol); } } }
VF_ENTRY(tetrahedra){ auto m = two(); PolyNode n(m.t, m.c, m.vol); D x = position(); IW iw(2); bool in[2], near[2]; inside_of(m, x, in, 0); inside_of(m, x, near, 1e-6); bool ok = n.indices_weights(m.v, x, iw, false); if (ok) { vf_check(vf_or(near[0],near[1]), "only points inside are found"); combine(m.v, iw, x, 1e-6); } else { vf_check(!vf_or(in[0],in[1]), "every point inside is found"); vf_check(iw.empty(), "otherwise there are no weights"); } }
VF_ENTRY(tetrahedra_must){ auto m = two(); PolyNode n(m.t, m.c, m.vol); D x = position(); IW iw(2); bool in[2]; inside_of(m, x, in, 0); vf_assume(vf_or(in[0],in[1])); bool ok = n.indices_weights(m.v, x, iw, true); vf_check(ok, "every point inside is found"); combine(m.v, iw, x, 1e-6); }
VF_ENTRY(leaf){ auto m = two(); NestLeaf l(m.t[0], m.c[0], m.vol[0]); D x = position(); bool in[2], near[2]; inside_of(m, x, in, 0); inside_of(m, x, near, 1e-6); std::array<double,4> w{}; bool ok = l.contains(m.v, x, w, 1e-12, 1000); if (ok) { vf_check(near[0], "only points inside are found"); IW iw; for (int i=0;i<4;++i) iw.emplace_back(m.t[0][i], w[i]); combine(m.v, iw, x, 1e-6); } else vf_check(!in[0], "every point inside is found"); auto w2 = l.weights(m.v, x, 1e-12, 1000); if (ok) for (int i=0;i<4;++i) vf_check(w2[i]==w[i], "the same weights"); }
VF_ENTRY(tree){ auto m = two(); NestNode root(true); for (int k=0;k<2;++k) root.branches().emplace_back(m.t[k], m.c[k], m.vol[k]); D x = position(); bool in[2], near[2]; inside_of(m, x, in, 0); inside_of(m, x, near, 1e-6); auto iw = root.indices_weights(m.v, x, 1e-12, 1000); if (iw.size()) { vf_check(vf_or(near[0],near[1]), "only points inside are found"); combine(m.v, iw, x, 1e-6); } else vf_check(!vf_or(in[0],in[1]), "every point inside is found"); }
#ifndef VF_SYM
static M3 mul(const M3& a, const M3& b){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*i]*b[j] + a[3*i+1]*b[3+j] + a[3*i+2]*b[6+j]; return r; }
static M3 tr(const M3& a){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*j+i]; return r; }
static double dt(const V3& a, const V3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static L symmetric(int hall, std::mt19937& g){
  std::normal_distribution<double> N; Spacegroup sp(hall); auto ps = sp.get_pointgroup_symmetry(0).getall(); M3 a; for (int i=0;i<9;++i) a[i] = (i%4==0?4:0) + 0.7*N(g); M3 G0 = mul(tr(a),a), G{}; for (auto& r: ps) { M3 R; for (int i=0;i<9;++i) R[i] = r[i]; M3 x = mul(tr(R),mul(G0,R)); for (int i=0;i<9;++i) G[i] += x[i]/double(ps.size()); }
  double a1 = std::sqrt(G[0]), b1 = G[3]/a1, c1 = G[6]/a1, b2 = std::sqrt(G[4]-b1*b1), c2 = (G[7]-c1*b1)/b2, c3 = std::sqrt(G[8]-c1*c1-c2*c2); Symmetry sy = sp.get_spacegroup_symmetry(); return L(DIR, M3{a1,b1,c1,0,b2,c2,0,0,c3}, MatrixVectors::column, sy, Basis(), true);
}
/// a linear function of position, its values on vertices and points inside of a zone
struct Linear { std::array<double,4> c[2]; double operator()(int k, const V3& x) const { return c[k][3] + dt({c[k][0],c[k][1],c[k][2]}, x); } };
template<class Net> static bool linear(Net& net, const BrillouinZone& bz, std::mt19937& g, unsigned n){
  std::normal_distribution<double> N; Linear f; for (auto& c: f.c) for (auto& y: c) y = N(g);
  D v = net.get_xyz(); unsigned nv = v.size(0); brille::Array<double> val(brille::shape_t{nv,1u,1u}), vec(brille::shape_t{nv,1u,2u}); for (unsigned i=0;i<nv;++i) { V3 x{v.val(i,0),v.val(i,1),v.val(i,2)}; val[i] = f(0,x); vec[2*i] = f(1,x); vec[2*i+1] = 1; }
  Interpolator<double> a(val, {1,0,0}, RotatesLike::vector, LengthUnit::real_lattice), b(vec, {2,0,0}, RotatesLike::vector, LengthUnit::real_lattice); net.replace_data(a, b);
  auto lat = bz.get_lattice(); Q q0(REC,lat,n); for (unsigned i=0;i<n;++i) for (unsigned j=0;j<3;++j) q0.val(i,j) = 2*N(g); Q q(REC,lat,1u); QI t(REC,lat,1u); std::vector<size_t> R, S; if (!bz.ir_moveinto(q0, q, t, R, S, 1)) return false; D x = q.xyz(); D w(1u,3u);
  // random combinations of vertices of the zone are inside as well
  auto p = bz.get_ir_polyhedron().vertices().xyz(); for (unsigned i=0;i<n/2;++i) { double s = 0; V3 y{}; for (unsigned k=0;k<p.size(0);++k) { double u = (i%3==0 && k%2) ? 0 : std::abs(N(g)); s += u; for (int j=0;j<3;++j) y[j] += u*p.val(k,j); } if (s>0) for (int j=0;j<3;++j) x.val(i,j) = y[j]/s; }
  auto r = net.at(x, 3), r1 = net.at(x); bool same = std::get<0>(r).shape()==std::get<0>(r1).shape() && std::get<1>(r).shape()==std::get<1>(r1).shape() && std::get<0>(r).shape()==brille::shape_t{n,1u,1u} && std::get<1>(r).shape()==brille::shape_t{n,1u,2u}; vf_check(same, "one result for each point"); for (unsigned i=0;i<n;++i) same = same && std::get<0>(r)[i]==std::get<0>(r1)[i] && std::get<1>(r)[2*i]==std::get<1>(r1)[2*i]; vf_check(same, "threads give the same results"); auto& rv = std::get<0>(r); auto& re = std::get<1>(r); for (unsigned i=0;i<n;++i) { V3 y{x.val(i,0),x.val(i,1),x.val(i,2)}; double d0 = rv[i]-f(0,y), d1 = re[2*i]-f(1,y), d2 = re[2*i+1]-1; if (std::max({std::abs(d0),std::abs(d1),std::abs(d2)}) > 1e-6) { printf("  %g %g %g\n", d0,d1,d2); vf_check(false, "linear functions are interpolated exactly"); } }
  vf_check(true, "linear functions are interpolated exactly"); return true;
}
struct TrellisNet : BrillouinZoneTrellis3<double,double,double> { using B = BrillouinZoneTrellis3<double,double,double>; using B::B; using P = polytrellis::PolyTrellis<double,double,double,Array2>; template<class... A> auto at(A... a){ return P::interpolate_at(a...); } };
struct NestNet : BrillouinZoneNest3<double,double,double> { using B = BrillouinZoneNest3<double,double,double>; using B::B; using P = Nest<double,double,double,Array2>; D get_xyz() const { return this->get_all_xyz(); } template<class... A> auto at(A... a){ return P::interpolate_at(a...); } };
struct MeshNet : BrillouinZoneMesh3<double,double,double> { using B = BrillouinZoneMesh3<double,double,double>; using B::B; using P = Mesh3<double,double,double,Array2>; D get_xyz() const { return this->get_mesh_xyz(); } template<class... A> auto at(A... a){ return P::interpolate_at(a...); } };
template<class Net> static void outside(Net& net, std::mt19937& g){ std::normal_distribution<double> N; D x(1u,3u); double n = 0; for (int j=0;j<3;++j) { x.val(0,j) = N(g); n += x.val(0,j)*x.val(0,j); } for (int j=0;j<3;++j) x.val(0,j) *= 100/std::sqrt(n); for (int k=0;k<2;++k) { bool threw = false; try { if (k) net.at(x,2); else net.at(x); } catch (std::exception&) { threw = true; } vf_check(threw, "points outside are refused"); } }
static void nets(int kind, int from, int step){ unsigned refused = 0, all = 0; for (int hall=from; hall<531; hall+=step) { std::mt19937 g(hall*1000+kind); L lat = symmetric(hall,g); std::unique_ptr<BrillouinZone> z; try { z = std::make_unique<BrillouinZone>(lat); } catch (std::runtime_error&) { continue; } double vol = z->get_ir_polyhedron().volume(); ++all;
  std::unique_ptr<TrellisNet> a; std::unique_ptr<NestNet> b; std::unique_ptr<MeshNet> c; try { if (kind==0) a = std::make_unique<TrellisNet>(*z, vol/50); if (kind==1) b = std::make_unique<NestNet>(*z, vol/50, 5u); if (kind>=2) c = std::make_unique<MeshNet>(*z, kind==2 ? vol/50 : vol/8, kind==2 ? 1 : 2, -1); } catch (std::exception& e) { ++refused; continue; }
  if (a) linear(*a, *z, g, 40); if (b) { linear(*b, *z, g, 40); outside(*b, g); } if (c) { linear(*c, *z, g, 40); outside(*c, g); }
  } vf_check(refused*(kind==3 ? 2 : 8) <= all, "almost all lattices are accepted"); }
VF_NATIVE(trellis){ nets(0, 1, 9); }
VF_NATIVE(trellis_more){ nets(0, 4, 9); }
VF_NATIVE(nest){ nets(1, 2, 9); }
VF_NATIVE(mesh){ nets(2, 3, 15); }
VF_NATIVE(mesh_layers){ nets(3, 1, 130); }
struct SetMesh : MeshNet { using MeshNet::MeshNet; void set(){ approx_.reciprocal(0.125); } };
VF_NATIVE(mesh_copy){ using P = MeshNet::P; std::mt19937 g(7); L lat = symmetric(525, g); BrillouinZone z(lat); SetMesh n(z, z.get_ir_polyhedron().volume()/5, 1, -1); P before(n); n.set(); P m(n); before = n; vf_check(m.approx_config().reciprocal<double>()==0.125, "a copy has the same configuration"); vf_check(before.approx_config().reciprocal<double>()==0.125, "a copy has the same configuration"); }
#endif

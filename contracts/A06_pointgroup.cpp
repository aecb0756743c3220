//! file {"sources":["$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp"],"opt":"-O1"}
//! * {"unroll": 40, "time": 200}
//! all_small_matrices {"what": "every integer matrix with entries -1, 0, 1 and finite order", "trials": 1, "ntime": 60}
//! pointgroup_closed {"what": "the point groups of the 530 Hall settings", "trials": 500, "ntime": 30}
//! generate_closes {"what": "subsets of up to 4 operations, in any order, of the point groups of the 530 Hall settings", "trials": 400, "ntime": 30}
//! generators_generate {"what": "the point groups of the 530 Hall settings, in any order", "trials": 400, "ntime": 30}
//! inversion_added {"what": "the point groups of the 530 Hall settings", "trials": 400, "ntime": 30}
//! nfold_axes {"what": "the point groups of the 530 Hall settings", "trials": 500, "ntime": 30}
//! linking_native {"what": "the point groups of the 530 Hall settings", "trials": 500}
//! sorted {"what": "the point groups of the 530 Hall settings", "trials": 300, "ntime": 30}
//! identification {"what": "the point groups of the 530 Hall settings, in any order", "trials": 530, "ntime": 30}
//! permuted {"what": "lists of up to 48 operations", "trials": 500, "ntime": 30}
//! xyz_strings {"what": "strings of one to three operations with coefficients -1, 0, 1", "trials": 500}
//! unique_rotations_native {"what": "the point groups of the 530 Hall settings with repetitions", "trials": 400}
#include "verif.h"
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <numeric>
#ifdef VF_SYM
#include "pointgroup.cpp"
#undef NUM_ROT_AXES
#include "pointsymmetry.cpp"
#else
#include "pointgroup.hpp"
#include "spg_database.hpp"
#endif
using namespace brille; using R3 = std::array<int,9>; using V3i = std::array<int,3>;
static const R3 ONE{1,0,0,0,1,0,0,0,1}, INV{-1,0,0,0,-1,0,0,0,-1};
static R3 rot(const char* n, long i, int k=2){ R3 r; for (int j=0;j<9;++j) r[j] = vf::any_int<int>(n,-k,k,9*i+j); return r; }
static bool same(const R3& a, const R3& b){ bool s = true; for (int k=0;k<9;++k) s = vf_and(s, a[k]==b[k]); return s; }
static R3 mul(const R3& a, const R3& b){ R3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*i]*b[j]+a[3*i+1]*b[3+j]+a[3*i+2]*b[6+j]; return r; }
static int det(const R3& m){ return m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]); }
static int tra(const R3& m){ return m[0]+m[4]+m[8]; }
struct In { R3 r[3]; PointSymmetry s; In(int n, int k=2) : s(size_t(0)) { for (int i=0;i<n;++i){ r[i] = rot("R",i,k); s.add(r[i]); } } };

static R3 unimodular(int w){ R3 r = rot("R",0,3); if (vf_native()) { auto v = r; int L[9]={1,0,0,v[0],1,0,v[1],v[2],1}, U[9]={w,v[3],v[4],0,1,v[5],0,0,1}; R3 l, u; for (int i=0;i<9;++i){ l[i]=L[i]; u[i]=U[i]; } r = mul(l,u); } return r; }
static void isometry_case(int d){
  R3 r = unimodular(d); vf_assume(det(r)==d); int o = 0, pt = d<0 ? -tra(r) : tra(r); // the trace of the proper part
  if (pt==3) o=1; else if (pt==-1) o=2; else if (pt==0) o=3; else if (pt==1) o=4; else if (pt==2) o=6;
  vf_check(isometry_value(r.data())==(d<0?-o:o), "the isometry is the signed order of the proper part, from determinant and trace"); vf_check(rotation_order(r.data())==o, "the order is the order of the proper part");
}
VF_ENTRY(isometry){ isometry_case(1); }
VF_ENTRY(isometry_neg){ isometry_case(-1); }
VF_ENTRY(access){
  In in(2); int g[9]; vf_check(in.s.size()==2, "size counts the operations"); vf_check(same(in.s.get(0), in.r[0]), "the first operation is kept"); vf_check(same(in.s.get(1), in.r[1]), "the second operation is kept"); R3 z = in.s.get(2);
  for (int k=0;k<9;++k) vf_check(z[k]==0, "beyond the end: zero matrix"); vf_check(in.s.get(1, g), "get into a buffer"); for (int k=0;k<9;++k) vf_check(vf_and(g[k]==in.r[1][k], in.s.data(1)[k]==in.r[1][k]), "buffer and pointer hold the operation");
  vf_check(vf_and(!in.s.get(2, g), !in.s.set(2, g)), "get and set past the end report failure"); vf_check(in.s.data(2)==nullptr, "no pointer past the end"); R3 q = rot("Q",0); vf_check(in.s.set(0, q.data()), "set"); vf_check(vf_and(same(in.s.get(0), q), same(in.s.get(1), in.r[1])), "set changes exactly one operation");
  vf_check(in.s.add(q.data())==3, "adding from a pointer returns the size"); vf_check(same(in.s.get(2), q), "the added operation is last");
}
VF_ENTRY(erase){
  In in(3); size_t i = vf::any_int<size_t>("i",0,4); bool pop = vf::any_bool("pop"); for (size_t c=0;c<3;++c) if (i==c) i = c;
  if (i < 3) { if (pop) vf_check(same(in.s.pop(i), in.r[i]), "pop returns the removed operation"); else vf_check(in.s.erase(i)==2, "erase returns the new size");
    vf_check(in.s.size()==2, "one operation is removed"); size_t k = 0; for (size_t j=0;j<3;++j) if (j != i) { vf_check(same(in.s.get(k), in.r[j]), "the other operations keep their order"); ++k; } }
  else { vf_check(vf::throws([&]{ in.s.erase(i); }), "erasing past the end throws"); vf_check(in.s.size()==3, "and changes nothing"); }
}
VF_ENTRY(has){
  In in(3); R3 r = rot("Q",0); if (vf_native()) { int c = vf::any_int<int>("c",0,3); if (c<3) r = in.r[c]; } bool any = vf_or(vf_or(same(r,in.r[0]), same(r,in.r[1])), same(r,in.r[2]));
  vf_check(vf_iff(in.s.has(r), any), "has(R) iff one of the operations is R"); size_t f = in.s.find_index(r); bool hit = false;
  for (size_t i=0;i<3;++i){ bool e = same(r, in.r[i]); vf_check(vf_implies(f==i, vf_and(e, !hit)), "the first equal operation is found"); hit = vf_or(hit, e); } vf_check(vf_iff(f==3, !hit), "an operation which is not present gives the number of operations");
}
VF_ENTRY(identity_index){
  In in(3); if (vf_native()) { int c = vf::any_int<int>("c",0,3); if (c<3) { in.r[c] = ONE; in.s.set(c, ONE.data()); } } size_t f = in.s.find_identity_index(); bool hit = false;
  for (size_t i=0;i<3;++i){ bool e = same(ONE, in.r[i]); vf_check(vf_implies(f==i, vf_and(e, !hit)), "the first identity is found"); hit = vf_or(hit, e); } vf_check(vf_iff(f==3, !hit), "no identity gives the number of operations");
}
VF_ENTRY(inverse_index){
  In in(3); if (vf_native()) { int c = vf::any_int<int>("c",0,5); R3 a{0,1,0,-1,0,0,0,0,1}, b{0,-1,0,1,0,0,0,0,1}, d{-1,0,0,0,-1,0,0,0,1}; R3 p[6][3] = {{a,b,d},{b,d,a},{d,a,b},{a,a,b},{ONE,a,b},{d,d,ONE}}; for (int i=0;i<3;++i){ in.r[i] = p[c][i]; in.s.set(i, in.r[i].data()); } }
  size_t i = vf::any_int<size_t>("i",0,2); for (size_t c=0;c<3;++c) if (i==c) i = c;
  bool inv[3], any = false; for (size_t j=0;j<3;++j) { inv[j] = same(mul(in.r[j], in.r[i]), ONE); any = vf_or(any, inv[j]); }
  size_t f = 9; bool thrown = vf::throws([&]{ f = in.s.get_inverse_index(i); }); vf_check(vf_iff(thrown, !any), "a missing inverse is reported");
  if (!thrown) { vf_check(f<3, "the index is in range"); for (size_t j=0;j<3;++j) vf_check(vf_implies(f==j, inv[j]), "the inverse times the operation is the identity"); }
}
VF_ENTRY(inverse){
  In in(2); if (vf_native()) { R3 a{0,1,0,-1,0,0,0,0,1}, b{0,-1,0,1,0,0,0,0,1}; if (vf::any_bool("c")) { in.r[0]=a; in.r[1]=b; for (int i=0;i<2;++i) in.s.set(i, in.r[i].data()); } }
  R3 g{}; bool any = vf_or(same(mul(in.r[0],in.r[0]),ONE), same(mul(in.r[1],in.r[0]),ONE)); bool thrown = vf::throws([&]{ g = in.s.get_inverse(0); }); vf_check(vf_iff(thrown, !any), "a missing inverse is reported"); if (!thrown) vf_check(same(mul(g,in.r[0]),ONE), "the inverse times the operation is the identity");
  vf_check(same(in.s.get_inverse(2), ONE), "a missing operation has the identity as inverse");
}
VF_ENTRY(proper){
  In in(1,3); if (vf_native()) { in.r[0] = unimodular(vf::any_bool("neg")?-1:1); in.s.set(0, in.r[0].data()); } vf_assume(vf_or(det(in.r[0])==1, det(in.r[0])==-1)); int e = in.s.isometry(0); R3 p = in.s.get_proper(0); vf_check(in.s.order(0)==(e<0?-e:e), "order and isometry agree"); vf_check(vf_implies(e!=0, det(in.r[0])*e > 0), "the sign of the isometry is the determinant");
  for (int k=0;k<9;++k) vf_check(p[k] == (e<0 ? -in.r[0][k] : in.r[0][k]), "the proper part is the operation times the sign of its isometry"); R3 z = in.s.get_proper(1); for (int k=0;k<9;++k) vf_check(z[k]==0, "beyond the end: zero matrix");
}
VF_ENTRY(links){
  In in(2); V3i a = vf::any_int_array<int,3>("a",-3,3), b = vf::any_int_array<int,3>("b",-3,3); if (vf_native() && vf::any_bool("hit")) for (int i=0;i<3;++i) { b[i]=0; for (int j=0;j<3;++j) b[i] += vf::any_bool("left") ? a[j]*in.r[0][3*j+i] : in.r[0][3*i+j]*a[j]; }
  bool mv[2], vm[2]; for (int q=0;q<2;++q){ mv[q]=vm[q]=true; for (int i=0;i<3;++i){ int s=0,t=0; for (int j=0;j<3;++j){ s += in.r[q][3*i+j]*a[j]; t += a[j]*in.r[q][3*j+i]; } mv[q] = vf_and(mv[q], s==b[i]); vm[q] = vf_and(vm[q], t==b[i]); } }
  vf_check(vf_iff(in.s.mat_vec_links(a,b), vf_or(mv[0],mv[1])), "two vectors are linked iff some operation maps one to the other"); vf_check(vf_iff(in.s.vec_mat_links(a,b), vf_or(vm[0],vm[1])), "two vectors are linked from the left iff some operation maps one to the other");
}
VF_ENTRY(linking_operations){
  In in(1); V3i a = vf::any_int_array<int,3>("a",-3,3), b = vf::any_int_array<int,3>("b",-3,3); if (vf_native() && vf::any_bool("hit")) for (int i=0;i<3;++i) { b[i]=0; for (int j=0;j<3;++j) b[i] += vf::any_bool("left") ? a[j]*in.r[0][3*j+i] : in.r[0][3*i+j]*a[j]; }
  auto m = in.s.mat_vec_linking_operations(a,b), v = in.s.vec_mat_linking_operations(a,b); bool mv=true, vm=true; for (int i=0;i<3;++i){ int s=0,t=0; for (int j=0;j<3;++j){ s += in.r[0][3*i+j]*a[j]; t += a[j]*in.r[0][3*j+i]; } mv = vf_and(mv, s==b[i]); vm = vf_and(vm, t==b[i]); }
  vf_check(vf_and(m.size()<=1, vf_iff(m.size()==1, mv)), "an operation is listed iff it links the vectors"); vf_check(vf_and(v.size()<=1, vf_iff(v.size()==1, vm)), "an operation is listed iff it links the vectors from the left"); if (m.size()) vf_check(same(m[0], in.r[0]), "the linking operation is listed"); if (v.size()) vf_check(same(v[0], in.r[0]), "the left-linking operation is listed");
}
VF_ENTRY(space_inversion){
  In in(2); if (vf_native()) { in.r[0] = unimodular(vf::any_bool("neg")?-1:1); in.r[1] = vf::any_bool("has") ? INV : ONE; if (vf::any_bool("swap")) std::swap(in.r[0], in.r[1]); for (int i=0;i<2;++i) in.s.set(i, in.r[i].data()); } vf_assume(vf_and(vf_or(det(in.r[0])==1, det(in.r[0])==-1), vf_or(det(in.r[1])==1, det(in.r[1])==-1))); bool any = false; for (int i=0;i<2;++i) any = vf_or(any, vf_and(det(in.r[i])==-1, tra(in.r[i])==-3)); vf_check(vf_iff(in.s.has_space_inversion(), any), "inversion symmetry iff some operation has isometry -1");
}
VF_ENTRY(out_of_range){
  In in(1); size_t i = vf::any_int<size_t>("i",1,9); vf_check(vf::throws([&]{ (void)in.s.order(i); }), "order of a missing operation throws"); vf_check(vf::throws([&]{ (void)in.s.isometry(i); }), "isometry of a missing operation throws"); vf_check(vf::throws([&]{ (void)in.s.axis(i); }), "axis of a missing operation throws"); vf_check(vf::throws([&]{ (void)in.s.perpendicular_axis(i); }), "perpendicular axis of a missing operation throws"); vf_check(in.s.get_inverse_index(i)==i, "a missing operation has no inverse index");
}
VF_ENTRY(unique_rotations){
  std::vector<R3> v; R3 r[2]; for (int i=0;i<2;++i){ r[i] = rot("R",i); if (vf_native() && i && vf::any_bool("dup")) r[1] = r[0]; if (vf_native() && i && vf::any_bool("ndup")) for (int k=0;k<9;++k) r[1][k] = -r[0][k]; v.push_back(r[i]); }
  auto u = get_unique_rotations(v, 0); bool dup = same(r[0], r[1]); vf_check(u.size() == (dup ? 1u : 2u), "repetitions are dropped"); vf_check(same(u[0], r[0]), "the first operation is kept"); if (!dup) vf_check(same(u[1], r[1]), "distinct operations are kept in order");
}
#ifndef VF_SYM
static int hall(){ return vf::any_int<int>("hall",1,530); }
static std::vector<R3> shuffled(const std::vector<R3>& v){ auto o = v; for (size_t i=o.size(); i>1; --i) std::swap(o[i-1], o[vf::any_int<size_t>("shuffle",0,1000000,long(i)) % i]); return o; }
static bool in(const std::vector<R3>& v, const R3& m){ for (auto& x: v) if (same(x,m)) return true; return false; }
static std::vector<R3> closure(const std::vector<R3>& g){ std::vector<R3> o{ONE}; for (size_t i=0;i<o.size();++i) for (auto& x: g){ R3 y = mul(x,o[i]); if (!in(o,y)) o.push_back(y); } return o; }
static bool sameset(const std::vector<R3>& a, const std::vector<R3>& b){ if (a.size()!=b.size()) return false; for (auto& x: a) if (!in(b,x)) return false; return true; }
static PointSymmetry ps(const std::vector<R3>& v){ PointSymmetry p(size_t(0)); for (auto& x: v) p.add(x); return p; }
static int finite_order(const R3& r){ R3 x = r; for (int n=1;n<=6;++n){ if (same(x,ONE)) return n; x = mul(r,x); } return 0; }
static V3i app(const R3& r, const V3i& a){ V3i o; for (int i=0;i<3;++i) o[i] = r[3*i]*a[0]+r[3*i+1]*a[1]+r[3*i+2]*a[2]; return o; }
static R3 tp(const R3& r){ return R3{r[0],r[3],r[6],r[1],r[4],r[7],r[2],r[5],r[8]}; }
static R3 proper(const R3& r){ R3 p = r; if (det(r)<0) for (auto& x: p) x=-x; return p; }
#endif
#ifndef VF_SYM
VF_NATIVE(all_small_matrices){
  int seen = vf::any_int<int>("start",0,0);
  for (int c=0;c<19683;++c){ R3 r; int k=c; for (int i=0;i<9;++i){ r[i]=k%3-1; k/=3; } int d = det(r); if (d!=1 && d!=-1) continue; R3 p = proper(r); int o = finite_order(p); if (!o) continue; ++seen;
    vf_check(rotation_order(r.data())==o && isometry_value(r.data())==d*o, "order and isometry of every matrix of finite order");
    auto a = rotation_axis_and_perpendicular_vectors(r.data()); bool z = !a[0][0] && !a[0][1] && !a[0][2]; vf_check(z == (o==1), "every rotation except the identity and the inversion has an axis");
    if (!z) { vf_check(app(p,a[0])==a[0], "the axis is stationary"); for (int j=1;j<3;++j) vf_check(a[j][0]*a[0][0]+a[j][1]*a[0][1]+a[j][2]*a[0][2]==0 && (a[j][0]||a[j][1]||a[j][2]), "the perpendicular vectors are perpendicular"); vf_check(a[1]!=a[2], "the perpendicular vectors differ"); } }
  vf_check(seen > 500, "matrices were covered");
}
VF_NATIVE(pointgroup_closed){
  int t = vf::any_int<int>("tr",0,1); int h = hall(); PointSymmetry p = Spacegroup(h).get_pointgroup_symmetry(t); auto s = p.getall(); bool ok = in(s,ONE); for (auto& a: s) for (auto& b: s) ok = ok && in(s, mul(a,b)); vf_check(ok, "the operations of a point group are closed under multiplication and contain the identity"); if (t) vf_check(p.has_space_inversion(), "time reversal adds the inversion");
  for (size_t i=0;i<s.size();++i){ size_t j = p.get_inverse_index(i); vf_check(j<s.size() && same(mul(s[j],s[i]),ONE), "every operation has its inverse"); vf_check(same(p.get_inverse(i), s[j]), "the inverse and its index agree"); vf_check(p.find_index(s[i])==i, "every operation is found at its index"); vf_check(p.get(i)==s[i] && p.order(i)==p.orders()[i] && p.isometry(i)==p.isometries()[i] && p.axis(i)==p.axes()[i] && p.perpendicular_axis(i)==p.perpendicular_axes()[i], "lists of orders, isometries and axes agree with single values"); }
  std::vector<R3> sp; for (auto& x: Spacegroup(h).get_spacegroup_symmetry().getallr()) { if (!in(sp,x)) sp.push_back(x); R3 n; for (int k=0;k<9;++k) n[k]=-x[k]; if (t && !in(sp,n)) sp.push_back(n); } vf_check(sameset(sp, s), "the point group is the set of rotation parts of the space group");
}
VF_NATIVE(generate_closes){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(vf::any_int<int>("tr",0,1)).getall()); size_t n = vf::any_int<size_t>("n",0,4); if (s.size() > n) s.resize(n); vf_check(sameset(ps(s).generate().getall(), closure(s)), "generate gives exactly the group generated by the operations");
}
VF_NATIVE(generators_generate){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(vf::any_int<int>("tr",0,1)).getall()); auto g = ps(s).generators(); for (auto& x: g.getall()) vf_check(in(s,x), "generators are operations of the group"); vf_check(sameset(closure(g.getall()), s), "the generators generate the whole group"); vf_check(sameset(g.generate().getall(), s), "generate after generators gives the group back");
  auto gm = g.getall(); for (size_t i=0;i<gm.size();++i){ auto h = gm; h.erase(h.begin()+i); vf_check(!in(closure(h), gm[i]), "no generator is superfluous"); }
}
VF_NATIVE(inversion_added){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(0).getall()); auto a = ps(s).add_space_inversion(); auto t = s; for (auto& x: s){ R3 n; for (int k=0;k<9;++k) n[k]=-x[k]; if (!in(t,n)) t.push_back(n); } vf_check(sameset(a.getall(), t), "adding the inversion adds the negative of every operation");
}
VF_NATIVE(nfold_axes){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(vf::any_int<int>("tr",0,1)).getall()); int mo = vf::any_int<int>("min",0,4); PointSymmetry p = ps(s), h = p.higher(mo), n = p.nfolds(mo); size_t c = 0; for (auto& x: s) c += rotation_order(x.data()) > mo; vf_check(h.size()==c, "higher keeps every operation of higher order"); for (auto& x: h.getall()) vf_check(in(s,x) && rotation_order(x.data()) > mo, "higher keeps only operations of higher order");
  for (auto& x: n.getall()) vf_check(det(x)==1 && (in(s,x) || in(s,mul(INV,x))) && rotation_order(x.data())>mo, "n-fold operations are proper parts of operations of the group");
  auto ax = n.axes(); for (size_t i=0;i<ax.size();++i) for (size_t j=0;j<i;++j) vf_check(ax[i]!=ax[j], "there is one n-fold operation for every axis");
  for (auto& x: s){ int o = rotation_order(x.data()); if (o<=mo) continue; auto a = rotation_axis_and_perpendicular_vectors(x.data())[0]; bool f = false; for (size_t i=0;i<ax.size();++i) if (ax[i]==a) f = rotation_order(n.get(i).data()) >= o; vf_check(f, "every axis is represented by an operation of its highest order"); }
  auto o = n.orders(); vf_check(std::is_sorted(o.begin(), o.end()), "n-fold operations are sorted by order");
}
VF_NATIVE(linking_native){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(vf::any_int<int>("tr",0,1)).getall()); V3i a = vf::any_int_array<int,3>("a",-2,2), b; const R3& r = s[vf::any_int<size_t>("w",0,1000) % s.size()]; b = vf::any_bool("left") ? app(tp(r),a) : app(r,a); if (vf::any_bool("miss")) b[0] += vf::any_int<int>("d",-1,1); std::vector<R3> em, ev; for (auto& x: s){ if (app(x,a)==b) em.push_back(x); if (app(tp(x),a)==b) ev.push_back(x); }
  vf_check(ps(s).mat_vec_linking_operations(a,b)==em, "exactly the linking operations are listed in order"); vf_check(ps(s).vec_mat_linking_operations(a,b)==ev, "exactly the left-linking operations are listed in order"); vf_check(ps(s).mat_vec_links(a,b)==!em.empty() && ps(s).vec_mat_links(a,b)==!ev.empty(), "vectors are linked iff there is a linking operation");
}
VF_NATIVE(sorted){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(vf::any_int<int>("tr",0,1)).getall()); for (int m: {-2,-1,1,2}){ auto p = ps(s); p.sort(m); vf_check(sameset(p.getall(), s), "sorting keeps the operations"); auto o = (m==2||m==-2) ? p.isometries() : p.orders(); if (m<0) std::reverse(o.begin(), o.end()); vf_check(std::is_sorted(o.begin(), o.end()), "sorted by order or isometry"); }
}
VF_NATIVE(identification){
  Spacegroup g(hall()); PointSymmetry p = g.get_pointgroup_symmetry(0); auto s = shuffled(p.getall()); std::vector<int> flat; for (auto& x: s) flat.insert(flat.end(), x.begin(), x.end()); Pointgroup a = get_pointgroup(ps(s)), b = g.get_pointgroup(); vf_check(a.number==b.number && a.number>0 && a.symbol==b.symbol, "the point group found from the operations is the one of the space group");
  PointSymmetry q = ptg_get_pointsymmetry(flat.data(), int(s.size())); vf_check(sameset(q.getall(), s), "operations are collected from a flat list");
}
VF_NATIVE(permuted){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(1).getall()); std::vector<size_t> p(s.size()); std::iota(p.begin(), p.end(), 0); for (size_t i=p.size(); i>1; --i) std::swap(p[i-1], p[vf::any_int<size_t>("perm",0,1000000,long(i)) % i]); auto q = ps(s); int bad = vf::any_int<int>("bad",0,9); if (bad==0) p[0] = p.size(); if (bad==1) p.pop_back(); if (bad==2 && p.size()>1) p[0] = p[1];
  bool t = vf::throws([&]{ q.permute(p); }); vf_check(t == (bad<2 || (bad==2 && s.size()>1)), "only permutations are accepted"); if (!t) { bool one=true, two=true; for (size_t i=0;i<s.size();++i){ one = one && same(q.get(i), s[p[i]]); two = two && same(q.get(p[i]), s[i]); } vf_check(one, "operation i becomes operation p[i]"); }
}
VF_NATIVE(xyz_strings){
  int n = vf::any_int<int>("n",1,3); std::string str; std::vector<R3> e; for (int q=0;q<n;++q){ R3 r = rot("R",q,1); if (q) str += ";"; for (int i=0;i<3;++i){ if (i) str += ","; bool some=false; for (int j=0;j<3;++j){ int v = r[3*i+j]; if (!v) continue; str += v<0 ? "-" : some ? "+" : ""; str += "xyz"[j]; some = true; } if (!some) { str += "x"; r[3*i]=1; } } e.push_back(r); }
  PointSymmetry p(size_t(0)); vf_check(p.add(str)==size_t(n), "every operation of the string is added"); for (int q=0;q<n;++q) vf_check(same(p.get(q), e[q]), "the operation is the one of the string");
}
VF_NATIVE(unique_rotations_native){
  auto s = shuffled(Spacegroup(hall()).get_pointgroup_symmetry(0).getall()); auto t = s; for (size_t i=0;i<s.size();++i) if (vf::any_bool("rep",long(i))) t.push_back(s[i]); int tr = vf::any_int<int>("tr",0,1); auto u = get_unique_rotations(t, tr); auto e = s; if (tr) for (auto& x: s){ R3 nn; for (int k=0;k<9;++k) nn[k]=-x[k]; if (!in(e,nn)) e.push_back(nn); } vf_check(sameset(u, e), "every operation is kept once, with its negative under time reversal");
}
#endif

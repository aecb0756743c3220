//! file {"sources":["$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp"],"opt":"-O1"}
//! * {"unroll": 40, "time": 200}
//! groups_closed {"what": "every one of the 530 Hall settings", "trials": 250, "ntime": 40}
//! generate_closes {"what": "subsets of up to 4 operations, in any order, of the 530 Hall settings", "trials": 400, "ntime": 40}
//! generators_generate {"what": "all operations of the 530 Hall settings in any order", "trials": 300, "ntime": 40}
//! orders_native {"what": "all operations of the 530 Hall settings", "trials": 300, "ntime": 20}
//! inversion_added {"what": "the 530 Hall settings", "trials": 250, "ntime": 40}
//! centring_of_groups {"what": "the 530 Hall settings", "trials": 1000, "ntime": 20}
//! ascii {"what": "the 530 Hall settings", "trials": 300, "ntime": 20}
#include "verif.h"
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
#ifdef VF_SYM
#include "symmetry.cpp"
#else
#include "symmetry.hpp"
#include "spg_database.hpp"
#endif
using namespace brille; using M = Motion<int,double>; using V3 = std::array<double,3>; using R3 = std::array<int,9>;
static const R3 ONE{1,0,0,0,1,0,0,0,1};
static R3 rot(const char* n, long i){ R3 r; for (int k=0;k<9;++k) r[k] = vf::any_int<int>(n,-2,2,9*i+k); return r; }
static V3 tr(const char* n, long i){ V3 r; for (int k=0;k<3;++k) r[k] = vf::any_int<int>(n,0,11,3*i+k)/12.; return r; }
static bool same_r(const R3& a, const R3& b){ bool s = true; for (int k=0;k<9;++k) s = vf_and(s, a[k]==b[k]); return s; }
static bool same_t(const V3& a, const V3& b){ bool s = true; for (int k=0;k<3;++k) { double d = a[k]-b[k]; s = vf_and(s, vf_native() ? std::abs(d-std::round(d)) < 1e-9 : vf_isint(d)); } return s; }
static bool same(const M& a, const M& b){ return vf_and(same_r(a.getr(), b.getr()), same_t(a.gett(), b.gett())); }
static bool exact(const M& a, const M& b){ bool s = same_r(a.getr(), b.getr()); for (int k=0;k<3;++k) s = vf_and(s, a.gett()[k]==b.gett()[k]); return s; }
struct In { R3 r[3]; V3 t[3]; Symmetry s; In(int n) : s(size_t(0)) { for (int i=0;i<n;++i){ r[i] = rot("R",i); t[i] = tr("T",i); s.add(M(r[i],t[i])); } } };

VF_ENTRY(access){
  R3 r0 = rot("R",0), r1 = rot("R",1); V3 t0 = tr("T",0), t1 = tr("T",1); Symmetry s(size_t(0)); vf_check(s.size()==0, "a new list is empty");
  vf_check(s.add(M(r0,t0))==1, "adding a motion returns the new size"); vf_check(s.add(r1.data(), t1.data())==2, "adding from pointers returns the new size");
  vf_check(s.size()==2, "size counts the motions"); vf_check(exact(s.getm(0), M(r0,t0)), "the first motion is kept"); vf_check(exact(s.getm(1), M(r1,t1)), "the second motion is kept");
  vf_check(same_r(s.getr(1), r1), "rotation by index"); V3 g = s.gett(1); for (int k=0;k<3;++k) vf_check(g[k]==t1[k], "translation by index");
  R3 z = s.getr(2); for (int k=0;k<9;++k) vf_check(z[k]==0, "beyond the end: zero matrix");
  auto rs = s.getallr(); auto ts = s.getallt(); vf_check(vf_and(rs.size()==2, ts.size()==2), "all motions are listed"); vf_check(vf_and(same_r(rs[0], r0), same_r(rs[1], r1)), "rotations are listed in order");
  for (int k=0;k<3;++k) vf_check(vf_and(ts[0][k]==t0[k], ts[1][k]==t1[k]), "translations are listed in order");
}
VF_ENTRY(erase){
  In in(3); size_t i = vf::any_int<size_t>("i",0,4); bool pop = vf::any_bool("pop");
  for (size_t c=0;c<3;++c) if (i==c) i = c; // one case for every position
  if (i < 3) { if (pop) { M p = in.s.pop(i); vf_check(exact(p, M(in.r[i],in.t[i])), "pop returns the removed motion"); } else vf_check(in.s.erase(i)==2, "erase returns the new size");
    vf_check(in.s.size()==2, "one motion is removed"); size_t k = 0; for (size_t j=0;j<3;++j) if (j != i) { vf_check(exact(in.s.getm(k), M(in.r[j],in.t[j])), "the other motions keep their order"); ++k; } }
  else { vf_check(vf::throws([&]{ in.s.erase(i); }), "erasing past the end throws"); vf_check(in.s.size()==3, "and changes nothing"); }
}
VF_ENTRY(has){
  In in(2); R3 r = rot("Q",0); V3 t = tr("P",0); if (vf_native()) { int c = vf::any_int<int>("c",0,3); if (c<2) { r = in.r[c]; if (vf::any_bool("t")) t = in.t[c]; } }
  M m(r,t); bool any = vf_or(same(m, M(in.r[0],in.t[0])), same(m, M(in.r[1],in.t[1])));
  vf_check(vf_iff(in.s.has(m), any), "has(m) iff one of the motions equals m up to lattice vectors");
}
VF_ENTRY(equality){
  In in(2); Symmetry o(size_t(0)); R3 r[2]; V3 t[2]; for (int i=0;i<2;++i){ r[i] = rot("Q",i); t[i] = tr("P",i); if (vf_native() && vf::any_bool("cp",i)) { int k = vf::any_int<int>("sw",0,1) ? 1-i : i; r[i] = in.r[k]; t[i] = in.t[k]; } o.add(M(r[i],t[i])); }
  auto isin = [&](int i){ return vf_or(same(M(in.r[i],in.t[i]), M(r[0],t[0])), same(M(in.r[i],in.t[i]), M(r[1],t[1]))); };
  vf_check(vf_iff(in.s == o, vf_and(isin(0), isin(1))), "lists of one size are equal iff every motion of one is in the other");
  o.add(M(r[0],t[0])); vf_check(!(in.s == o), "lists of different size are not equal"); vf_check(in.s != o, "and compare unequal");
}
VF_ENTRY(find_matrix){
  In in(3); R3 r = rot("Q",0); if (vf_native()) { int c = vf::any_int<int>("c",0,3); if (c<3) r = in.r[c]; }
  size_t f = in.s.find_matrix_index(r); bool hit = false;
  for (size_t i=0;i<3;++i){ bool e = same_r(r, in.r[i]); vf_check(vf_implies(f==i, vf_and(e, !hit)), "the first motion with this rotation is found"); hit = vf_or(hit, e); }
  vf_check(vf_iff(f==3, !hit), "a rotation which is not present gives the number of motions"); vf_check(f<=3, "the index is in range");
}
VF_ENTRY(space_inversion){
  In in(2); R3 neg; for (int k=0;k<9;++k) neg[k] = k%4 ? 0 : -1; V3 z{0,0,0}; if (vf_native()) { int c = vf::any_int<int>("c",0,3); if (c<2) { in.s = Symmetry(size_t(0)); in.r[c] = neg; if (vf::any_bool("t")) in.t[c] = z; for (int i=0;i<2;++i) in.s.add(M(in.r[i],in.t[i])); } }
  bool any = vf_or(same(M(neg,z), M(in.r[0],in.t[0])), same(M(neg,z), M(in.r[1],in.t[1])));
  vf_check(vf_iff(in.s.has_space_inversion(), any), "inversion symmetry iff the inversion through the origin is present");
}
static void centring_case(int which){
  const double ot = 1./3., tt = 2./3.; V3 c[6] = {{0,.5,.5},{.5,0,.5},{.5,.5,0},{.5,.5,.5},{ot,tt,tt},{tt,ot,ot}}; bool in[6]; Symmetry s(size_t(0)); s.add(M(ONE, V3{0,0,0}));
  int p = vf::any_int<int>("perm",0,1); for (int k=0;k<6;++k) in[k] = (which>>k)&1; if (p) { for (int j=6;j--;) if (in[j]) s.add(M(ONE, c[j])); } else for (int j=0;j<6;++j) if (in[j]) s.add(M(ONE, c[j]));
  R3 q = rot("Q",0); V3 t = tr("P",0); vf_assume(!same_r(q, ONE)); s.add(M(q,t)); // any other operation has no influence
  Bravais e = in[0]&&in[1]&&in[2] ? Bravais::F : in[0] ? Bravais::A : in[1] ? Bravais::B : in[2] ? Bravais::C : in[3] ? Bravais::I : in[4]&&in[5] ? Bravais::R : Bravais::P;
  vf_check(s.getcentring()==e, "the centring follows from the pure translations");
}
VF_ENTRY(centring_p){ centring_case(0); } VF_ENTRY(centring_a){ centring_case(1); } VF_ENTRY(centring_b){ centring_case(2); } VF_ENTRY(centring_c){ centring_case(4); }
VF_ENTRY(centring_f){ centring_case(7); } VF_ENTRY(centring_i){ centring_case(8); } VF_ENTRY(centring_r){ centring_case(48); } VF_ENTRY(centring_r1){ centring_case(16); } VF_ENTRY(centring_r2){ centring_case(32); }
VF_ENTRY(resize){
  In in(2); size_t n = vf::any_int<size_t>("n",0,2); vf_check(in.s.resize(n)==n, "resize returns the size"); vf_check(in.s.size()==n, "resize changes the size"); for (size_t i=0;i<n;++i) vf_check(exact(in.s.getm(i), M(in.r[i],in.t[i])), "resize keeps the first motions");
}
VF_ENTRY(order_out_of_range){ In in(1); size_t i = vf::any_int<size_t>("i",1,5); vf_check(vf::throws([&]{ (void)in.s.order(i); }), "the order of a missing motion throws"); }
#ifndef VF_SYM
static int hall(){ return vf::any_int<int>("hall",1,530); }
static std::vector<M> shuffled(const std::vector<M>& v){ auto o = v; for (size_t i=o.size(); i>1; --i) std::swap(o[i-1], o[vf::any_int<size_t>("shuffle",0,1000000,long(i)) % i]); return o; }
static M mul(const M& a, const M& b){ R3 r; V3 t; for (int i=0;i<3;++i){ t[i] = a.gett()[i]; for (int j=0;j<3;++j){ r[3*i+j]=0; for (int k=0;k<3;++k) r[3*i+j]+=a.getr()[3*i+k]*b.getr()[3*k+j]; t[i]+=a.getr()[3*i+j]*b.gett()[j]; } t[i]-=std::floor(t[i]); } return M(r,t); }
static bool in(const std::vector<M>& v, const M& m){ for (auto& x: v) if (same(x,m)) return true; return false; }
static std::vector<M> closure(const std::vector<M>& g){ std::vector<M> o{M(ONE,V3{0,0,0})}; for (size_t i=0;i<o.size();++i) for (auto& x: g){ M y = mul(x,o[i]); if (!in(o,y)) o.push_back(y); } return o; }
static bool sameset(const std::vector<M>& a, const std::vector<M>& b){ if (a.size()!=b.size()) return false; for (auto& x: a) if (!in(b,x)) return false; return true; }
#endif
#ifndef VF_SYM
VF_NATIVE(groups_closed){
  auto s = Spacegroup(hall()).get_spacegroup_symmetry().getallm(); bool ok = true; for (auto& a: s) for (auto& b: s) ok = ok && in(s, mul(a,b)); vf_check(ok, "the operations of a space group are closed under multiplication"); vf_check(in(s, M(ONE,V3{0,0,0})), "they contain the identity");
  bool dup = false; for (size_t i=0;i<s.size();++i) for (size_t j=0;j<i;++j) dup = dup || same(s[i],s[j]); vf_check(!dup, "no operation is listed twice"); for (auto& a: s) { bool inv = false; for (auto& b: s) inv = inv || same(mul(a,b), M(ONE,V3{0,0,0})); vf_check(inv, "every operation has its inverse"); }
}
VF_NATIVE(generate_closes){
  auto s = shuffled(Spacegroup(hall()).get_spacegroup_symmetry().getallm()); size_t n = vf::any_int<size_t>("n",0,4); if (s.size() > n) s.resize(n);
  vf_check(sameset(Symmetry(s).generate().getallm(), closure(s)), "generate gives exactly the group generated by the motions");
}
VF_NATIVE(generators_generate){
  auto s = shuffled(Spacegroup(hall()).get_spacegroup_symmetry().getallm()); Symmetry g = Symmetry(s).generators();
  for (auto& x: g.getallm()) vf_check(in(s,x), "generators are operations of the group"); vf_check(sameset(closure(g.getallm()), s), "the generators generate the whole group"); vf_check(g.generate()==Symmetry(s), "generate after generators gives the group back");
  auto gm = g.getallm(); for (size_t i=0;i<gm.size();++i){ auto h = gm; h.erase(h.begin()+i); vf_check(!in(closure(h), gm[i]), "no generator is superfluous"); }
}
VF_NATIVE(orders_native){
  Symmetry s = Spacegroup(hall()).get_spacegroup_symmetry(); auto o = s.orders(); vf_check(o.size()==s.size(), "one order for every motion"); for (size_t i=0;i<s.size();++i){ M e(ONE,V3{0,0,0}), x = s.getm(i); int n = 1; while (!same(x,e) && n<100) { x = mul(s.getm(i),x); ++n; } vf_check(s.order(i)==n && o[i]==n, "the order is the smallest power giving the identity"); }
}
VF_NATIVE(inversion_added){
  Symmetry s = Spacegroup(hall()).get_spacegroup_symmetry(); if (vf::any_bool("shuf")) s = Symmetry(shuffled(s.getallm())); R3 neg; for (int k=0;k<9;++k) neg[k] = k%4 ? 0 : -1; M inv(neg, V3{0,0,0}); auto all = s.getallm(); all.push_back(inv);
  // (with several origins of inversion the group may be larger than twice the input: it is whatever the motions generate)
  Symmetry a = s.add_space_inversion(); vf_check(a.has_space_inversion(), "the inversion is present afterwards"); vf_check(sameset(a.getallm(), closure(all)), "adding the inversion gives the group generated by the operations and the inversion");
}
VF_NATIVE(centring_of_groups){
  Spacegroup g(hall()); Symmetry s = g.get_spacegroup_symmetry(); size_t n = 0; bool A=false,B=false,C=false,I=false,R=false; for (auto& m: s.getallm()) if (same_r(m.getr(),ONE)) { ++n; A|=same_t(m.gett(),{0,.5,.5}); B|=same_t(m.gett(),{.5,0,.5}); C|=same_t(m.gett(),{.5,.5,0}); I|=same_t(m.gett(),{.5,.5,.5}); R|=same_t(m.gett(),{1/3.,2/3.,2/3.}); }
  Bravais b = s.getcentring(); if (n==1) vf_check(b==Bravais::P, "no centring translation: primitive"); if (n==4) vf_check(b==Bravais::F && A && B && C, "four lattice points: face centred"); if (n==2) vf_check((b==Bravais::A&&A)||(b==Bravais::B&&B)||(b==Bravais::C&&C)||(b==Bravais::I&&I), "two lattice points: base or body centred"); if (n==3 && R) vf_check(b==Bravais::R, "three lattice points: rhombohedral");
}
VF_NATIVE(ascii){
  Symmetry s = Spacegroup(hall()).get_spacegroup_symmetry(); std::string t; for (auto& m: s.getallm()) t += (t.empty()?"":";") + m.to_ascii(); Symmetry r(t); vf_check(r.size()==s.size(), "every motion is read"); for (size_t i=0;i<s.size() && i<r.size();++i) vf_check(same(r.getm(i), s.getm(i)), "reading back the written motions gives them in order");
}
#endif

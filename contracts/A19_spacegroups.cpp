//! file {"sources":["$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp","$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp"],"opt":"-O1","symflags":["-D_GLIBCXX_ASSERTIONS"]}
//! * {"unroll":200,"time":200,"strings":1}
//! settings {"trials":1}
//! named {"trials":1}
//! found {"trials":1}
//! written {"trials":400}
//! crystals {"trials":1}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <cassert>
#include <cmath>
#include <mutex>
#include <set>
#include <map>
#include <random>
#include "verif.h"
#ifdef VF_SYM
#include "symmetry.cpp"
#include "pointsymmetry.cpp"
#include "pointgroup.cpp"
#include "bravais.cpp"
#include "hall_symbol.cpp"
#endif
#include "array_.hpp"
#include "lattice_dual.hpp"
#include "hall_symbol.hpp"
#include "spg_database.hpp"
using namespace brille; using I9 = std::array<int,9>; using I3 = std::array<int,3>; using std::string;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
// ---- the meaning of Hall's notation, with translations in twelfths
static I9 mul(const I9& a, const I9& b){ I9 r{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) r[3*i+j] += a[3*i+k]*b[3*k+j]; return r; }
static I3 on(const I9& a, const I3& v){ I3 r{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[i] += a[3*i+j]*v[j]; return r; }
/// the cyclic permutation taking z to the axis
static int shift(char ax){ return ax=='x' ? 1 : ax=='y' ? 2 : 0; }
static I9 cycle(I9 m, int n){ I9 r = m; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*((i+n)%3)+(j+n)%3] = m[3*i+j]; return r; }
/// Hall's Table A1.4.2.4 and following: rotations about c, the face diagonals a-b (') and a+b (") and the body diagonal (*)
static I9 rotation(int n, char ax, char pre){ I9 r{};
  if (ax=='*') r = I9{0,0,1,1,0,0,0,1,0}; else if (ax=='\'') r = cycle(I9{0,-1,0,-1,0,0,0,0,-1}, shift(pre)); else if (ax=='"') r = cycle(I9{0,1,0,1,0,0,0,0,-1}, shift(pre));
  else switch (n<0 ? -n : n) { case 1: r = I9{1,0,0,0,1,0,0,0,1}; break; case 2: r = cycle(I9{-1,0,0,0,-1,0,0,0,1}, shift(ax)); break; case 3: r = cycle(I9{0,-1,0,1,-1,0,0,0,1}, shift(ax)); break; case 4: r = cycle(I9{0,-1,0,1,0,0,0,0,1}, shift(ax)); break; case 6: r = cycle(I9{1,-1,0,1,0,0,0,0,1}, shift(ax)); break; }
  if (n<0) for (auto& x: r) x = -x; return r; }
/// the lattice vector along an axis
static I3 along(char ax, char pre){ I3 v{0,0,1}; if (ax=='*') return I3{1,1,1}; int n = shift(ax); if (ax=='\'' || ax=='"') { v = I3{1, ax=='"' ? 1 : -1, 0}; n = shift(pre); } I3 r; for (int i=0;i<3;++i) r[(i+n)%3] = v[i]; if (ax=='\'' && pre=='y') for (auto& x: r) x = -x; return r; }
static I3 letter(char c, int n, char ax, char pre){ switch (c) { case 'a': return I3{6,0,0}; case 'b': return I3{0,6,0}; case 'c': return I3{0,0,6}; case 'n': return I3{6,6,6}; case 'u': return I3{3,0,0}; case 'v': return I3{0,3,0}; case 'w': return I3{0,0,3}; case 'd': return I3{3,3,3}; }
  I3 v = along(ax,pre); for (auto& x: v) x *= 12*(c-'0')/(n<0 ? -n : n); return v; }
static I3 mod(I3 v){ for (auto& x: v) x = ((x%12)+12)%12; return v; }
static bool twelfths(const std::array<double,3>& t, const I3& v){ bool ok = true; for (int i=0;i<3;++i) { double d = 12*t[i]-v[i]; ok = ok && (std::abs(d)<1e-9 || std::abs(d-12)<1e-9) && t[i]>=0 && t[i]<1; } return ok; }
static bool same(const I9& a, const std::array<int,9>& b){ bool ok = true; for (int i=0;i<9;++i) ok = ok && a[i]==b[i]; return ok; }
static const char AX[] = "xyz'\"*", LET[] = "abcnuvwd12345"; static const int NS[] = {1,2,3,4,6};
// ---- one symbol
/// which axes exist for which order (and 1 has none)
static bool exists(int n, char ax){ return n==1 || (n==2 && ax!='*') || (n==3 && ax!='\'' && ax!='"') || (n>3 && (ax=='x' || ax=='y' || ax=='z')); }
static void rotate(bool inv){ int n = NS[pick("order",4)]; char ax = AX[pick("axis",5)]; if (!exists(n,ax)) return; int N = inv ? -n : n;
  if (ax!='\'' && ax!='"') vf_check(same(n==1 ? rotation(N,'z','z') : rotation(N,ax,'z'), SeitzSymbol(N,"",ax).getr()), "the matrix of a first symbol");
  else vf_check(vf::throws([&]{ (void)SeitzSymbol(N,"",ax).getr(); })==(n==2), "diagonals need an axis before them");
  for (int p=0;p<3;++p) { char pre = "xyz"[p]; for (int m=0;m<5;++m) { SeitzSymbol s(N,"",ax), q(NS[m],"",pre); I9 r = s.getr(q); vf_check(same(n==1 ? rotation(N,'z','z') : rotation(N,ax,pre), r), "the matrix is the rotation about the axis");
    I9 g = r, one = rotation(1,'z','z'); if (inv) for (auto& x: g) x = -x; I9 k = g; int o = 1; for (; o<7 && !same(k,one); ++o) k = mul(g,k); vf_check(o==n, "it has the order"); if (n>1) { I3 v = along(ax,pre), w = on(g,v); vf_check(w==v, "and leaves the axis alone"); } } } }
VF_ENTRY(rotations){ rotate(false); } VF_ENTRY(inversions){ rotate(true); }
/// the implicit axis: z for the first, then x for 2 after 2 or 4, a-b for 2 after 3 or 6, and the body diagonal for 3
VF_ENTRY(implicit){ int n = NS[pick("order",4)], m = NS[pick("before",4)]; bool i = pick("inversion",1), j = pick("inverted",1); int N = i ? -n : n, M = j ? -m : m; char pre = "xyz"[pick("pre",2)]; SeitzSymbol s(N), q(M,"",pre);
  vf_check(s.implicit_axis()=='z', "the first axis is c"); vf_check(same(rotation(N,'z','z'), s.getr()), "the first axis is c"); 
  if (n==2 && (m==2 || m==4)) { vf_check(s.implicit_axis(q)=='x', "a follows two and four"); vf_check(same(rotation(N,'x',pre), s.getr(q)), "a follows two and four"); vf_check(twelfths(SeitzSymbol(N,"1").gett(q), I3{6,0,0}), "a follows two and four"); }
  if (n==2 && (m==3 || m==6)) { vf_check(same(rotation(N,'\'','z'), s.getr(q)), "a-b follows three and six"); vf_check(twelfths(SeitzSymbol(N,"1").gett(q), mod(letter('1',N,'\'','z'))), "screws are along the implicit axis"); }
  if (n==3) { vf_check(s.implicit_axis(q)=='*', "three follows as the body diagonal"); vf_check(same(rotation(N,'*',pre), s.getr(q)), "three follows as the body diagonal"); }
  if (n==1) vf_check(same(rotation(N,'z','z'), s.getr(q)), "one has no axis");
  for (int a=0;a<6;++a) { SeitzSymbol e(N,"",AX[a]); vf_check(e.implicit_axis()==AX[a] && e.implicit_axis(q)==AX[a], "an explicit axis is used"); } }
/// translations: every pair of letters for every order and axis
static void translate(unsigned first){ char a = LET[first]; int n = NS[pick("order",4)]; char ax = AX[pick("axis",5)]; bool inv = pick("inversion",1); int N = inv ? -n : n; if (!exists(n,ax) || (n==1 && a<='9')) return;
  for (int p=0;p<3;++p) { char pre = "xyz"[p]; SeitzSymbol q(4,"",pre);
    for (unsigned l=first;l<13;++l) { char b = LET[l]; string t(1,a); I3 v = letter(a,n,ax,pre); if (b!=a) { if (n==1 && b<='9') continue; t += b; I3 w = letter(b,n,ax,pre); for (int i=0;i<3;++i) v[i] += w[i]; }
      SeitzSymbol s(N,t,ax); if (ax!='\'' && ax!='"') vf_check(twelfths(s.gett(), mod(v)), "the translation of a first symbol"); vf_check(twelfths(s.gett(q), mod(v)), "translations add up"); } } }
VF_ENTRY(translation_a){ translate(0); } VF_ENTRY(translation_b){ translate(1); } VF_ENTRY(translation_c){ translate(2); } VF_ENTRY(translation_n){ translate(3); } VF_ENTRY(translation_u){ translate(4); } VF_ENTRY(translation_v){ translate(5); } VF_ENTRY(translation_w){ translate(6); } VF_ENTRY(translation_d){ translate(7); } VF_ENTRY(translation_1){ translate(8); } VF_ENTRY(translation_2){ translate(9); } VF_ENTRY(translation_3){ translate(10); } VF_ENTRY(translation_4){ translate(11); } VF_ENTRY(translation_5){ translate(12); }
/// what is accepted as a symbol
VF_ENTRY(orders){ int n = vf::any_int<int>("n",-2000000000,2000000000); bool ok = SeitzSymbol(n).validate(); vf_check(vf_iff(ok, vf_or(vf_or(vf_or(vf_or(n==1,n==-1),vf_or(n==2,n==-2)),vf_or(vf_or(n==3,n==-3),vf_or(n==4,n==-4))),vf_or(n==6,n==-6))), "crystallographic orders are accepted"); }
VF_ENTRY(axes){ static const char cs[] = "xyz'\"*q"; unsigned k = pick("many",3); string a; int primes = 0, xyz = 0; bool bad = false; for (unsigned i=0;i<k;++i) { char c = cs[pick("c",6,i)]; a += c; if (c=='x' || c=='y' || c=='z') ++xyz; else if (c=='q') bad = true; else primes += c=='\'' ? 1 : c=='"' ? 2 : 3; }
  SeitzSymbol s(2,"",a); bool ok = !bad && xyz<2 && primes<4 && !(xyz && primes); vf_check(s.validate()==ok, "one axis, or up to three primes"); if (!ok) return; char e = xyz ? a[0] : " '\"*"[primes]; vf_check(k ? s.get_axis()==string(1,e) : s.get_axis().empty(), "the axis is written in the shortest way"); }
VF_ENTRY(letters){ string t; unsigned k = pick("many",2), seen[13] = {}; for (unsigned i=0;i<k;++i) { unsigned l = pick("l",12,i); t += LET[l]; ++seen[l]; } bool twice = false; for (auto x: seen) twice = twice || x>1; vf_check(SeitzSymbol(2,t).validate()==!twice, "a translation is not repeated"); vf_check(SeitzSymbol(2,t).get_tran()==t, "translations are kept"); }
/// the generators: centring translations, with the inversion, and one for each symbol
static void generate(Bravais L, const std::vector<I3>& ts){ bool c = pick("centrosymmetric",1); unsigned i = pick("order",4), j = pick("then",4), k = (i+j)%3, al = pick("axis",3); int n = NS[i], m = NS[j]; char ax = "zxyz"[al]; char bx = m==1 ? 0 : m==2 ? (n==1 ? 'x' : "'x\""[k]) : m==3 ? '*' : 'y'; bool first = al==3;
  std::vector<SeitzSymbol> sy; if (first) sy.emplace_back(n,"c"); else sy.emplace_back(n,"c",ax); static const char* T[] = {"","a","uw"}; if (bx) sy.emplace_back(-m,T[k],bx); else sy.emplace_back(-m,T[k]);
  HallSymbol h(L,c,sy); Symmetry g = h.get_generators(); std::vector<I9> r; std::vector<I3> t; static const I9 E{1,0,0,0,1,0,0,0,1}, X{-1,0,0,0,-1,0,0,0,-1}; for (auto& x: ts) { r.push_back(E); t.push_back(x); if (c) { r.push_back(X); t.push_back(x); } }
  r.push_back(n==1 ? E : rotation(n,ax,'z')); t.push_back(I3{0,0,6}); r.push_back(m==1 ? X : rotation(-m,bx,ax)); t.push_back(k==0 ? I3{0,0,0} : k==1 ? I3{6,0,0} : I3{3,0,3});
  for (size_t a=0;a<r.size();++a) { bool in = false; for (size_t b=0;b<g.size();++b) in = in || (same(r[a],g.getr(b)) && twelfths(g.gett(b),t[a])); vf_check(in, "every generator of the symbol is present"); }
  for (size_t b=0;b<g.size();++b) { bool in = false; for (size_t a=0;a<r.size();++a) in = in || (same(r[a],g.getr(b)) && twelfths(g.gett(b),t[a])); vf_check(in, "there are no other generators"); } vf_check(h.getl()==L && h.validate(), "the symbol is valid"); }
VF_ENTRY(generators_p){ generate(Bravais::P, {{0,0,0}}); } VF_ENTRY(generators_a){ generate(Bravais::A, {{0,0,0},{0,6,6}}); } VF_ENTRY(generators_b){ generate(Bravais::B, {{0,0,0},{6,0,6}}); } VF_ENTRY(generators_c){ generate(Bravais::C, {{0,0,0},{6,6,0}}); } VF_ENTRY(generators_i){ generate(Bravais::I, {{0,0,0},{6,6,6}}); } VF_ENTRY(generators_r){ generate(Bravais::R, {{0,0,0},{4,8,8},{8,4,4}}); } VF_ENTRY(generators_f){ generate(Bravais::F, {{0,0,0},{0,6,6},{6,0,6},{6,6,0}}); }
VF_ENTRY(unknown){ HallSymbol h(Bravais::_, pick("c",1)); vf_check(!h.validate(), "a symbol without a lattice is not valid"); vf_check(vf::throws([&]{ (void)h.get_generators(); }), "a symbol without a lattice is not valid"); static const char ls[] = "PABCIRFpQ 1"; unsigned k = pick("l",10); bool c = pick("c2",1); h.setl(ls[k],c); vf_check(h.validate()==(k<7), "the known lattices are set by letter"); if (k<7) { vf_check(bravais_letter(h.getl())==ls[k], "the known lattices are set by letter"); size_t n = 0; Symmetry g = h.get_generators(); for (size_t i=0;i<g.size();++i) n += g.getr(i)[0]<0; vf_check((n>0)==c, "and so is the inversion"); } }
#ifndef VF_SYM
// ---- whole symbols
struct Op { I9 r; I3 t; bool operator<(const Op& o) const { return std::tie(r,t)<std::tie(o.r,o.t); } bool operator==(const Op& o) const { return r==o.r && t==o.t; } };
static Op mul(const Op& a, const Op& b){ I3 t = on(a.r,b.t); for (int i=0;i<3;++i) t[i] += a.t[i]; return Op{mul(a.r,b.r), mod(t)}; }
static std::vector<I3> centring(char l){ switch (l) { case 'A': return {{0,0,0},{0,6,6}}; case 'B': return {{0,0,0},{6,0,6}}; case 'C': return {{0,0,0},{6,6,0}}; case 'I': return {{0,0,0},{6,6,6}}; case 'R': return {{0,0,0},{8,4,4},{4,8,8}}; case 'F': return {{0,0,0},{0,6,6},{6,0,6},{6,6,0}}; } return {{0,0,0}}; }
struct Sym { int n; char ax; string t; };
struct Hall { bool inv; char l; std::vector<Sym> s; I3 v{0,0,0}; };
static const I9 ONE{1,0,0,0,1,0,0,0,1}, INV{-1,0,0,0,-1,0,0,0,-1};
static std::vector<Op> generators(const Hall& h){ std::vector<Op> g; for (auto& c: centring(h.l)) g.push_back(Op{ONE,c}); if (h.inv) for (auto& c: centring(h.l)) g.push_back(Op{INV,c}); char pre = 'z'; int before = 0;
  for (auto& s: h.s) { char ax = s.ax, p = pre; if (!ax) { int n = std::abs(s.n); if (!before) ax = 'z'; else if (n==2 && (before==2 || before==4)) ax = 'x'; else if (n==2) { ax = '\''; p = 'z'; } else if (n==3) ax = '*'; else ax = 'z'; }
    I3 t{0,0,0}; for (char c: s.t) { I3 w = letter(c, s.n, ax, p); for (int i=0;i<3;++i) t[i] += w[i]; } I9 r = std::abs(s.n)==1 ? rotation(s.n,'z','z') : rotation(s.n,ax,p); g.push_back(Op{r,mod(t)}); before = std::abs(s.n); if (ax=='x' || ax=='y' || ax=='z') pre = ax; }
  for (auto& o: g) { I3 w = on(o.r,h.v); for (int i=0;i<3;++i) o.t[i] += h.v[i]-w[i]; o.t = mod(o.t); } return g; }
/// a decoder for the symbols separated by spaces
static Hall read(const string& s){ Hall h{false,'P',{},{0,0,0}}; string w, body = s; auto at = s.find('('); if (at!=string::npos) { body = s.substr(0,at); std::sscanf(s.c_str()+at, "(%d %d %d)", &h.v[0], &h.v[1], &h.v[2]); } std::istringstream in(body); in >> w; h.inv = w[0]=='-'; h.l = w.back();
  while (in >> w) { Sym y{1,0,""}; size_t i = 0; if (w[0]=='-') { y.n = -1; ++i; } y.n *= w[i++]-'0'; for (; i<w.size(); ++i) if (std::strchr("xyz'\"*",w[i])) y.ax = w[i]; else y.t += w[i]; h.s.push_back(y); } return h; }
static std::set<Op> group(const std::vector<Op>& gen){ std::set<Op> all{Op{ONE,{0,0,0}}}; std::vector<Op> list(all.begin(),all.end()); for (size_t i=0;i<list.size() && i<200;++i) for (auto& g: gen) { Op o = mul(g,list[i]); if (all.insert(o).second) list.push_back(o); } return all; }
static Op op(const Motion<int,double>& m, bool& ok){ Op o{m.getr(), {0,0,0}}; auto t = m.gett(); for (int i=0;i<3;++i) { double x = 12*t[i]; o.t[i] = int(std::lround(x)); ok = ok && std::abs(x-o.t[i])<1e-6; } o.t = mod(o.t); return o; }
static std::set<Op> motions_of(const Symmetry& s, bool& ok){ std::set<Op> all; for (auto& m: s.getallm()) all.insert(op(m,ok)); return all; }
static std::set<Op> group_of(int h){ return group(generators(read(Spacegroup(h).get_hall_symbol()))); }
/// number of the point group of a space group, its order
static int class_of(int it){ static const int last[] = {1,2,5,9,15,24,46,74,80,82,88,98,110,122,142,146,148,155,161,167,173,174,176,182,186,190,194,199,206,214,220,230}; int k = 0; while (last[k]<it) ++k; return k+1; }
static const int ORDER[] = {0,1,2,2,2,4,4,4,8,4,4,8,8,8,8,16,3,6,6,6,12,6,6,12,12,12,12,24,12,24,24,24,48};
VF_NATIVE(settings){ int it = 0; std::map<int,std::vector<std::array<int,4>>> kinds;
  for (int h=1;h<531;++h) { Spacegroup sp(h); vf_check(sp.get_hall_number()==h, "settings are numbered"); int n = sp.get_international_table_number(); vf_check(n==it || n==it+1, "all types are listed in order"); it = n; Hall d = read(sp.get_hall_symbol()); vf_check(bravais_letter(sp.get_bravais_type())==d.l, "the centring is that of the symbol"); vf_check(sp.get_pointgroup_number()==class_of(n), "the point group is that of the type");
    auto gen = generators(d); auto want = group(gen); bool ok = true; Symmetry s = sp.get_spacegroup_symmetry(); auto have = motions_of(s,ok); vf_check(ok && have.size()==s.size(), "translations are twelfths and no operation is repeated"); vf_check(have==want, "the space group is that of its Hall symbol");
    std::set<I9> rot; for (auto& o: want) rot.insert(o.r); vf_check(int(rot.size())==ORDER[class_of(n)] && want.size()==rot.size()*centring(d.l).size(), "the group has the order of its class");
    for (int tr=0;tr<2;++tr) { PointSymmetry ps = sp.get_pointgroup_symmetry(tr); std::set<I9> r2 = rot, r3; if (tr) for (auto& r: rot) { I9 m = r; for (auto& x: m) x = -x; r2.insert(m); } for (size_t i=0;i<ps.size();++i) r3.insert(ps.get(i)); vf_check(r3==r2 && ps.size()==r2.size(), "the point group is that of the space group"); }
    std::set<Op> g2; bool fine = true; HallSymbol hs(sp.get_hall_symbol()); g2 = motions_of(hs.get_generators(), fine); vf_check(fine && g2==std::set<Op>(gen.begin(),gen.end()), "the generators are those of the symbol"); vf_check(hs.validate() && hs.getl()==sp.get_bravais_type(), "the symbol is valid");
    // the kinds of operations: rotations with and without screws and glides
    std::vector<std::array<int,4>> k; for (auto& r: rot) { int det = r[0]*(r[4]*r[8]-r[5]*r[7])-r[1]*(r[3]*r[8]-r[5]*r[6])+r[2]*(r[3]*r[7]-r[4]*r[6]), tra = r[0]+r[4]+r[8], best = 99; I9 p = r, sum = ONE; int o = 1; for (; p!=ONE; ++o) { for (int i=0;i<9;++i) sum[i] += p[i]; p = mul(r,p); }
      for (auto& w: want) if (w.r==r) for (int x=-2;x<3;++x) for (int y=-2;y<3;++y) for (int z=-2;z<3;++z) { I3 v = on(sum, I3{w.t[0]+12*x, w.t[1]+12*y, w.t[2]+12*z}); int m = 1; if (v!=I3{0,0,0}) { m = 6; for (int q=2;q<5;++q) if (v[0]%(12*o/q)==0 && v[1]%(12*o/q)==0 && v[2]%(12*o/q)==0) { m = q; break; } } best = std::min(best,m); } k.push_back({det,tra,best,o}); }
    std::sort(k.begin(),k.end()); if (kinds.count(n)) vf_check(kinds[n]==k, "all settings of a type have the same kinds of operations"); else kinds[n] = k; }
  vf_check(it==230, "all types are listed in order"); for (int h: {-1,0,531,100000}) vf_check(Spacegroup(h).get_hall_number()==0 && !hall_number_ok(h), "other numbers are not settings"); }
// ---- Hermann-Mauguin names
/// is there a rotation N_k about an axis (a right-handed one about the given axis), or a reflection with this glide
static bool element(const std::set<Op>& g, const string& e, const std::vector<I3>& dirs, const std::vector<I3>& gl, const std::vector<I9>& plus){
  if (e=="1") return true; 
  for (auto& o: g) { int det = o.r[0]*(o.r[4]*o.r[8]-o.r[5]*o.r[7])-o.r[1]*(o.r[3]*o.r[8]-o.r[5]*o.r[6])+o.r[2]*(o.r[3]*o.r[7]-o.r[4]*o.r[6]); I9 p = o.r; if (det<0) for (auto& x: p) x = -x; bool about = false; I3 dir{}; for (auto& d: dirs) if (on(p,d)==d) { about = true; dir = d; break; } if (!about && e!="-1") continue; 
    I9 q = p; int n = 1; for (; q!=ONE; ++n) q = mul(p,q); 
    if (e[0]=='-') { if (det<0 && n==e[1]-'0') return true; continue; }
    if (std::isdigit(e[0])) { if (det<0 || n!=e[0]-'0') continue; if (n>2 && !plus.empty() && std::find(plus.begin(),plus.end(),p)==plus.end()) continue; int k = e.size()>1 ? e[2]-'0' : 0; I9 sum = ONE, a = p; for (; a!=ONE; a = mul(p,a)) for (int i=0;i<9;++i) sum[i] += a[i];
      for (int x=-1;x<2;++x) for (int y=-1;y<2;++y) for (int z=-1;z<2;++z) { I3 v = on(sum, I3{o.t[0]+12*x,o.t[1]+12*y,o.t[2]+12*z}); if (v==I3{12*k*dir[0],12*k*dir[1],12*k*dir[2]}) return true; } continue; }
    if (det>0 || n!=2) continue; 
    for (int x=-2;x<3;++x) for (int y=-2;y<3;++y) for (int z=-2;z<3;++z) { I3 t{o.t[0]+12*x,o.t[1]+12*y,o.t[2]+12*z}, w = on(o.r,t); for (int i=0;i<3;++i) w[i] += t[i]; // twice the glide
      I3 u{}; for (int i=0;i<3;++i) u[i] = std::abs(w[i]); bool in = false; 
      switch (e[0]) { case 'm': in = u==I3{0,0,0}; break; case 'a': in = u==I3{12,0,0}; break; case 'b': in = u==I3{0,12,0}; break; case 'c': in = u==I3{0,0,12} || (!gl.empty() && u==gl[0]); break; case 'n': { int c = 0; for (int i=0;i<3;++i) { if (u[i]==12) ++c; else if (u[i]) c = 9; } in = c==2 || c==3; break; } case 'd': { int c = 0; for (int i=0;i<3;++i) { if (u[i]==6) ++c; else if (u[i]) c = 9; } in = c==2 || c==3; break; } case 'e': in = u==I3{12,0,0} || u==I3{0,12,0} || u==I3{0,0,12}; break; }
      if (in) return true; } }
  return false; }
static bool name_holds(const string& name, const std::set<Op>& g, int it, bool rhombohedral, string& why){ std::istringstream in(name); string w; in >> w; std::vector<string> part; while (in >> w) part.push_back(w);
  for (size_t i=0;i<part.size();++i) { std::vector<I3> d, gl; std::vector<I9> plus; I3 A{1,0,0}, B{0,1,0}, Z{0,0,1};
    if (it<75) { if (part.size()==1) d = it<3 ? std::vector<I3>{Z} : std::vector<I3>{B,Z,A}; else d = {i==0 ? A : i==1 ? B : Z}; }
    else if (it<195) { bool hex = it>142; if (rhombohedral) { if (i==0) d = {I3{1,1,1}}; else { d = {I3{1,-1,0}}; gl = {I3{12,12,12}}; } } else if (i==0) { d = {Z}; int n = part[0][0]-'0'; if (n>2 && n<7) plus = {rotation(n,'z','z')}; } else if (i==1) d = {A}; else d = hex ? std::vector<I3>{I3{1,-1,0}} : std::vector<I3>{I3{1,1,0},I3{1,-1,0}}; }
    else { if (i==0) { d = {Z}; if (part[0][0]=='4') plus = {rotation(4,'z','z')}; } else if (i==1) d = {I3{1,1,1}}; else d = {I3{1,1,0},I3{1,-1,0}}; }
    std::istringstream es(part[i]); for (string e; std::getline(es,e,'/'); ) if (!element(g,e,d,gl,plus)) { why = e; return false; } }
  return true; }
VF_NATIVE(named){ for (int h=1;h<531;++h) { Spacegroup sp(h); int it = sp.get_international_table_number(); auto g = group_of(h); bool rh = sp.get_choice()=="R"; string why, full = sp.get_international_table_full(), nm = sp.get_international_table_symbol(), sh = sp.get_international_table_short(); auto last = nm.rfind(" = ");
    bool ok = name_holds(full,g,it,rh,why); if (!ok) std::printf("  H%d %s | %s | %s : %s\n", h, full.c_str(), nm.c_str(), sp.get_hall_symbol().c_str(), why.c_str()); vf_check(ok, "the group has the elements of its name");
    if (last==string::npos) { ok = name_holds(nm,g,it,rh,why); if (!ok) std::printf("  N%d %s | %s | %s : %s\n", h, full.c_str(), nm.c_str(), sp.get_hall_symbol().c_str(), why.c_str()); vf_check(ok, "the group has the elements of its name"); }
    string s2; for (char c: nm.substr(0,nm.find(" = "))) if (c!=' ') s2 += c; if (s2!=sh) std::printf("  S%d %s %s\n", h, s2.c_str(), sh.c_str()); vf_check(s2==sh, "short names are those without spaces"); if (nm.find(" = ")!=string::npos) vf_check((nm+" =").find(" = "+full+" =")!=string::npos, "long names contain the full one");
    if (full[0]!=read(sp.get_hall_symbol()).l) std::printf("  C%d %s %s\n", h, full.c_str(), sp.get_hall_symbol().c_str()); } }
// ---- finding settings
VF_NATIVE(found){ std::map<int,int> first; std::map<string,int> sym; std::vector<Spacegroup> all; for (int h=0;h<531;++h) all.emplace_back(h); auto is = [&](int h, const string& n){ return all[h].get_international_table_symbol()==n || all[h].get_international_table_full()==n || all[h].get_international_table_short()==n; };
  for (int h=1;h<531;++h) { int it = all[h].get_international_table_number(); string c = all[h].get_choice(), hs = all[h].get_hall_symbol(); 
    int r = hall_symbol_to_hall_number(hs); vf_check(r>0 && all[r].get_hall_symbol()==hs && r<=h, "Hall symbols are found"); vf_check(string_to_hall_number(hs)==r && string_to_hall_number(hs,"?")==r, "Hall symbols are found");
    r = international_number_to_hall_number(it); vf_check(r>0 && all[r].get_international_table_number()==it && (r==1 || all[r-1].get_international_table_number()==it-1), "numbers are found");
    r = international_number_to_hall_number(it,c); vf_check(r>0 && r<=h && all[r].get_international_table_number()==it && (c.empty() || all[r].get_choice()==c), "numbers are found with their choice"); if (r!=h) vf_check(c.empty() || all[h].get_choice()==all[r].get_choice(), "numbers are found with their choice");
    for (auto& n: {all[h].get_international_table_symbol(), all[h].get_international_table_full(), all[h].get_international_table_short()}) { int f = international_string_to_hall_number(n,c), a = international_string_to_hall_number(n); vf_check(f>0 && f<=h && is(f,n) && (c.empty() || all[f].get_choice()==c), "names are found with their choice"); vf_check(a>0 && a<=f && is(a,n), "names are found");
      if (hall_symbol_to_hall_number(n)==0) vf_check(string_to_hall_number(n,c)==f && string_to_hall_number(n)==a, "names are found like symbols"); } }
  for (auto& n: {"", "P", "p 1", "P 1 ", " P 1", "Q 1", "P 5", "P 2yy"}) { vf_check(string_to_hall_number(n)==0, "nothing else is found"); } for (int n: {-1,0,231,1000}) vf_check(international_number_to_hall_number(n)<1, "nothing else is found"); vf_check(international_string_to_hall_number("P m -3 m","2")==0 && international_number_to_hall_number(221,"2")<1, "nothing else is found"); }
// ---- arbitrary symbols, in both notations
VF_NATIVE(written){ std::mt19937 e(vf::any_int<unsigned>("seed",0,1000000000)); auto r = [&](int n){ return int(e()%n); }; Hall h; h.inv = r(2); h.l = "PABCIRF"[r(7)]; int many = r(4), before = 0; string s, f; s = f = string(h.inv ? "-" : "")+h.l; bool xyz = true;
  for (int i=0;i<=many;++i) { Sym y{NS[r(5)],0,""}; int n = y.n; if (r(2)) y.n = -n; string axs = n==2 ? (before && xyz ? "xyz'\"" : "xyz") : n==3 ? "xyz*" : n==1 ? "" : "xyz"; bool need = i && !(n==1 || n==3 || (n==2 && before>1)); if (n!=1 && (need || r(2))) y.ax = axs[r(axs.size())];
    string ls = n==1 ? "abcnuvwd" : string("abcnuvwd")+string("12345").substr(0,n-1); for (char c: ls) if (r(4)==0) y.t += c; std::shuffle(y.t.begin(),y.t.end(),e); bool sub = !y.t.empty();
    if (n==4 && !sub) {} s += (y.n<0 ? " -" : " ")+std::to_string(n); f += (y.n<0 ? " -" : " ")+std::to_string(n); if (y.ax) { s += y.ax; f += string("^")+y.ax; } s += y.t; for (char c: y.t) f += string("_")+c; h.s.push_back(y);
    char ax = y.ax ? y.ax : (!i ? 'z' : n==2 && (before==2 || before==4) ? 'x' : n==3 ? '*' : n==1 ? 0 : '\''); xyz = ax=='x' || ax=='y' || ax=='z'; before = n; if (n==1) before = 0; }
  h.v = {0,0,0}; if (r(3)==0) { for (auto& x: h.v) x = r(23)-11; string v = " ("+std::to_string(h.v[0])+" "+std::to_string(h.v[1])+" "+std::to_string(h.v[2])+")"; s += v; f += v; }
  auto gen = generators(h); std::set<Op> want(gen.begin(),gen.end());
  for (auto& t: {s, f}) { HallSymbol hs; bool valid = hs.from_ascii(t); vf_check(valid && hs.validate(), "symbols are understood"); vf_check(bravais_letter(hs.getl())==h.l, "the centring is read"); bool ok = true; auto g = hs.get_generators(); auto have = motions_of(g,ok); if (!(ok && have==want)) std::printf("  %s\n", t.c_str()); vf_check(ok && have==want, "the generators are those of the symbol");
    HallSymbol again(hs.to_ascii()); bool k = true; vf_check(motions_of(again.get_generators(),k)==want && k, "writing and reading a symbol gives it back"); } }
/// lattices built with names
VF_NATIVE(crystals){ for (int h=1;h<531;h+=7) { Spacegroup sp(h); double a=1,b=2,c=3,al=90,be=90,ga=90; int it = sp.get_international_table_number(); if (it<3) { al=80; be=70; ga=100; } else if (it<16) {} else if (it>142 && it<195) { b=a; ga=120; if (sp.get_choice()=="R") { c=a; al=be=ga=80; } } else if (it>194) { b=c=a; } else if (it>74) b=a; 
    using namespace brille::lattice; auto want = group_of(h); for (int how=0;how<2;++how) { string nm = how ? sp.get_international_table_full() : sp.get_hall_symbol(); if (how && hall_symbol_to_hall_number(nm)) continue; if (how && international_string_to_hall_number(nm,sp.get_choice())!=h) continue;
      Lattice<double> l(LengthUnit::angstrom, std::array<double,3>{a,b,c}, std::array<double,3>{al,be,ga}, nm, how ? sp.get_choice() : "", Basis(), false, AngleUnit::degree); bool ok = true; vf_check(motions_of(l.spacegroup_symmetry(),ok)==want && ok, "a lattice has the symmetry it is given by name"); vf_check(l.bravais()==sp.get_bravais_type(), "a lattice has the centring it is given by name"); } } }
#endif

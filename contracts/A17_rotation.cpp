//! file {"sources":["$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp","$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp"],"opt":"-O1"}
//! * {"unroll":60,"time":200}
//! atom_closest {"forksel":2}
//! field {"trials":80}
//! phonons {"trials":60}
//! atoms {"trials":60}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <cassert>
#include <mutex>
#include <random>
#include "verif.h"
#ifdef VF_SYM
#include "symmetry.cpp"
#include "pointsymmetry.cpp"
#include "pointgroup.cpp"
#include "bravais.cpp"
#endif
#include "array_.hpp"
#include "lattice_dual.hpp"
#include "array_l_.hpp"
#include "interpolatordual.hpp"
extern "C" { int omp_get_max_threads(void){ return 2; } void omp_set_num_threads(int){} int omp_get_thread_num(void){ return 0; } int omp_get_num_threads(void){ return 1; } }
using namespace brille; using namespace brille::lattice; using C = std::complex<double>; using V3 = std::array<double,3>; using M3 = std::array<double,9>; using I9 = std::array<int,9>; using L = Lattice<double>; using Q = LVec<double>;
static const LengthUnit DIR = LengthUnit::angstrom, REC = LengthUnit::inverse_angstrom;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
static int idet(const I9& m){ return m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]); }
static I9 mul(const I9& a, const I9& b){ I9 r{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) r[3*i+j] += a[3*i+k]*b[3*k+j]; return r; }
static I9 tr(const I9& a){ I9 r{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*j+i]; return r; }
static const I9 ONE{1,0,0,0,1,0,0,0,1};
/// the group generated by some matrices
static std::vector<I9> group(const std::vector<I9>& gen){ std::vector<I9> g{ONE}; for (size_t i=0;i<g.size();++i) for (auto& m: gen) { I9 p = mul(m,g[i]); if (std::find(g.begin(),g.end(),p)==g.end()) g.push_back(p); } return g; }
static size_t inverse_of(const PointSymmetry& ps, size_t r){ for (size_t i=0;i<ps.size();++i) if (mul(ps.get(i),ps.get(r))==ONE) return i; return ps.size(); }
/// S v and S M P for integer matrices
template<class T> static std::array<T,3> on(const I9& s, const T* v){ std::array<T,3> r; for (int i=0;i<3;++i) { r[i] = T(0); for (int j=0;j<3;++j) if (s[3*i+j]) r[i] += double(s[3*i+j])*v[j]; } return r; }
template<class T> static std::array<T,9> on(const I9& s, const T* m, const I9& p){ std::array<T,9> r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) { T t(0); for (int k=0;k<3;++k) for (int l=0;l<3;++l) if (s[3*i+k]*p[3*l+j]) t += double(s[3*i+k]*p[3*l+j])*m[3*k+l]; r[3*i+j] = t; } return r; }
static bool same(double a, double b){ return vf_eq(a,b); } static bool same(const C& a, const C& b){ return vf_and(vf_eq(a.real(),b.real()), vf_eq(a.imag(),b.imag())); }
// two modes with a scalar, two vectors and a matrix at two points
static void rotated(LengthUnit u, RotatesLike how, const std::vector<I9>& g, unsigned hi){
  PointSymmetry ps(g); unsigned first = pick("operation",hi); std::vector<size_t> r{first, (7*first+5)%ps.size()}, ir{inverse_of(ps,r[0]), inverse_of(ps,r[1])}; const unsigned S = 16;
  bArray<double> d(1u,2*S,0.), x(2u,2*S); double was[2][2*S]; for (unsigned i=0;i<2;++i) for (unsigned j=0;j<2*S;++j) was[i][j] = x.val(i,j) = vf::any<double>("x",2*S*i+j);
  Interpolator<double> f(d, {1u,2u,S}, {1,6,9}, how, u); vf_check(f.rotateslike()==how, "as told"); Q q(REC, L(DIR, M3{2,0,0,0,2,0,0,0,2}, MatrixVectors::column, Symmetry(), Basis(), false), bArray<double>(2u,3u,0.1)); 
  vf_check(f.rotate_in_place(x, q, GammaTable(false, q.lattice()), ps, r, ir, 1), "data is rotated");
  for (unsigned i=0;i<2;++i) { I9 R = ps.get(r[i]), s = ps.get(ir[i]), p = R; double e = how==RotatesLike::pseudovector ? idet(R) : 1; if (u==LengthUnit::reciprocal_lattice) { s = tr(R); p = tr(ps.get(ir[i])); }
    for (unsigned b=0;b<2;++b) { unsigned o = b*S; vf_check(x.val(i,o)==was[i][o], "scalars are invariant"); ++o; for (int v=0;v<2;++v, o+=3) { auto w = on(s, was[i]+o); for (int j=0;j<3;++j) vf_check(same(x.val(i,o+j), e*w[j]), "vectors transform like positions, or wave vectors"); } auto w = on(s, was[i]+o, p); for (int j=0;j<9;++j) vf_check(same(x.val(i,o+j), w[j]), "matrices transform from both sides"); } } }
static const I9 HEX{1,-1,0,1,0,0,0,0,1}, TWO{0,1,0,1,0,0,0,0,-1}, INV{-1,0,0,0,-1,0,0,0,-1}, CUB{0,0,1,1,0,0,0,1,0}, FOUR{0,-1,0,1,0,0,0,0,1}, MIRROR{0,1,0,1,0,0,0,0,1};
VF_ENTRY(real_hexagonal){ rotated(LengthUnit::real_lattice, RotatesLike::vector, group({HEX,TWO,INV}), 23); } VF_ENTRY(real_cubic){ rotated(LengthUnit::real_lattice, RotatesLike::vector, group({CUB,FOUR}), 23); }
VF_ENTRY(reciprocal_hexagonal){ rotated(LengthUnit::reciprocal_lattice, RotatesLike::vector, group({HEX,TWO,INV}), 23); } VF_ENTRY(reciprocal_cubic){ rotated(LengthUnit::reciprocal_lattice, RotatesLike::vector, group({CUB,FOUR}), 23); }
VF_ENTRY(axial_hexagonal){ rotated(LengthUnit::real_lattice, RotatesLike::pseudovector, group({HEX,TWO,INV}), 23); } VF_ENTRY(axial_cubic){ rotated(LengthUnit::real_lattice, RotatesLike::pseudovector, group({CUB,MIRROR}), 23); }
/// nothing else is done with data which do not transform, or in an unknown way
VF_ENTRY(refused){ static const LengthUnit us[] = {LengthUnit::none, DIR, REC, LengthUnit::real_lattice, LengthUnit::reciprocal_lattice}; static const RotatesLike hs[] = {RotatesLike::vector, RotatesLike::pseudovector, RotatesLike::Gamma}; unsigned u = pick("unit",4), h = pick("how",2); PointSymmetry ps(group({FOUR})); bArray<double> d(1u,3u,0.), x(1u,3u); for (unsigned j=0;j<3;++j) x.val(0,j) = vf::any<double>("x",j); Interpolator<double> f(d, {1u,1u,3u}, {0,3,0}, hs[h], us[u]); L l(DIR, M3{2,0,0,0,2,0,0,0,2}, MatrixVectors::column, Symmetry(), Basis(), false); Q q(REC, l, bArray<double>(1u,3u,0.1)); std::vector<size_t> r{1}, ir{3};
  bool works = (us[u]==LengthUnit::real_lattice && h<2) || (us[u]==LengthUnit::reciprocal_lattice && h==0); vf_check(vf::throws([&]{ f.rotate_in_place(x, q, GammaTable(false,l), ps, r, ir, 1); })==!works, "other combinations are refused"); }
VF_ENTRY(scalars){ static const RotatesLike hs[] = {RotatesLike::vector, RotatesLike::pseudovector, RotatesLike::Gamma}; unsigned h = pick("how",2); PointSymmetry ps(group({FOUR})); bArray<C> d(1u,3u,C(0)), x(1u,3u); C was[3]; for (unsigned j=0;j<3;++j) { double re = vf::any<double>("x",2*j), im = vf::any<double>("x",2*j+1); was[j] = x.val(0,j) = C(re,im); } Interpolator<C> f(d, {1u,3u}, {1,0,0}, hs[h], LengthUnit::real_lattice); L l(DIR, M3{2,0,0,0,2,0,0,0,2}, MatrixVectors::column, Symmetry(), Basis(), false); Q q(REC, l, bArray<double>(1u,3u,0.1)); std::vector<size_t> r{1}, ir{3}; vf_check(!f.rotate_in_place(x, q, GammaTable(false,l), ps, r, ir, 1), "there is nothing to rotate"); for (unsigned j=0;j<3;++j) vf_check(same(x.val(0,j), was[j]), "scalars are invariant"); }
// ---- phonon eigenvectors and dynamical matrices
struct Crystal { L l; PointSymmetry ps; std::vector<V3> at; std::vector<ind_t> type; Symmetry sg; };
/// atom l which k is moved to by the operation with this matrix, and the cell it comes from: the lattice vector (S x_l) - x_k of the inverse motion S
static std::pair<unsigned,V3> moved(const Crystal& c, unsigned k, const I9& m){ for (size_t i=0;i<c.sg.size();++i) if (c.sg.getr(i)==m) { auto t = c.sg.gett(i); auto p = on(m, c.at[k].data()); for (int j=0;j<3;++j) p[j] += t[j]; for (unsigned l=0;l<c.at.size();++l) { bool ok = c.type[l]==c.type[k]; for (int j=0;j<3;++j) { double d = p[j]-c.at[l][j]; ok = ok && std::abs(d-std::round(d)) < 1e-6; } if (!ok) continue; I9 inv = ONE; for (I9 s = m; s!=ONE; s = mul(s,m)) inv = s; V3 d; for (int j=0;j<3;++j) d[j] = c.at[l][j]-t[j]; auto b = on(inv, d.data()); V3 v; for (int j=0;j<3;++j) v[j] = std::round(b[j]-c.at[k][j]); return {l,v}; } return {99u,V3()}; } return {99u,V3()}; }
static void generate(std::vector<std::pair<I9,V3>>& g, const std::vector<std::pair<I9,V3>>& gen){ g = {{ONE,V3{0,0,0}}}; for (size_t i=0;i<g.size();++i) for (auto& m: gen) { I9 p = mul(m.first,g[i].first); bool have = false; for (auto& x: g) have = have || x.first==p; if (have) continue; auto t = on(m.first, g[i].second.data()); for (int j=0;j<3;++j) { t[j] += m.second[j]; t[j] -= std::floor(t[j]+1e-9); } g.emplace_back(p,t); } }
static M3 inverse(const M3& a){ double d = a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); return {(a[4]*a[8]-a[5]*a[7])/d, (a[2]*a[7]-a[1]*a[8])/d, (a[1]*a[5]-a[2]*a[4])/d, (a[5]*a[6]-a[3]*a[8])/d, (a[0]*a[8]-a[2]*a[6])/d, (a[2]*a[3]-a[0]*a[5])/d, (a[3]*a[7]-a[4]*a[6])/d, (a[1]*a[6]-a[0]*a[7])/d, (a[0]*a[4]-a[1]*a[3])/d}; }
static M3 gram(const M3& m){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = m[i]*m[j]+m[3+i]*m[3+j]+m[6+i]*m[6+j]; return r; }
static M3 mul(const M3& a, const M3& b){ M3 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) r[3*i+j] = a[3*i]*b[j] + a[3*i+1]*b[3+j] + a[3*i+2]*b[6+j]; return r; }
static M3 dbl(const I9& m){ M3 r; for (int i=0;i<9;++i) r[i] = m[i]; return r; }
static Crystal crystal(const M3& a, const std::vector<std::pair<I9,V3>>& gen, const V3& site){ std::vector<std::pair<I9,V3>> g; generate(g, gen); Crystal c; std::vector<I9> m; for (auto& x: g) { c.sg.add(x.first, x.second); m.push_back(x.first); auto p = on(x.first, site.data()); for (int j=0;j<3;++j) { p[j] += x.second[j]; p[j] -= std::floor(p[j]); } bool have = false; for (auto& o: c.at) { bool is = true; for (int j=0;j<3;++j) is = is && std::abs(o[j]-p[j]) < 1e-6; have = have || is; } if (!have) { c.at.push_back(p); c.type.push_back(3); } }
  c.at.push_back({0.125,0.125,0.125}); c.type.push_back(8); c.at.pop_back(); c.type.pop_back(); c.ps = PointSymmetry(m); M3 b = inverse(a), t; for (int i=0;i<3;++i) for (int j=0;j<3;++j) t[3*i+j] = math::two_pi*b[3*j+i]; c.l = L(std::make_shared<Impl<double>>(a, t, gram(a), gram(t), Bravais::P, c.sg, c.ps, Basis(c.at, c.type), false)); return c; }
static const I9 THREE{0,-1,0,1,-1,0,0,0,1}; static const M3 HEXAGONAL{4,-2,0,0,3.5,0,0,0,6}, TETRAGONAL{2,0,0,0,2,0,0,0,4};
static Crystal three(){ return crystal(HEXAGONAL, {{THREE,V3{0,0,0}}}, {0.125,0.375,0.0625}); } static Crystal screw6(){ return crystal(HEXAGONAL, {{HEX,V3{0,0,0.5}}}, {0.125,0.375,0.0625}); } static Crystal screw4(){ return crystal(TETRAGONAL, {{FOUR,V3{0,0,0.25}}}, {0.125,0.375,0.0625}); } static Crystal glide4(){ return crystal(TETRAGONAL, {{FOUR,V3{0,0,0.5}},{MIRROR,V3{0.5,0.5,0}}}, {0.125,0.375,0.0625}); }
// the translation of an operation is any of those a lattice vector apart, one for all atoms
static V3 common(const Crystal& c, const GammaTable& t, unsigned r){ auto m = moved(c, 0, c.ps.get(r)); auto v = t.vector(0u,r); V3 w; for (int j=0;j<3;++j) w[j] = v.val(0,j)-m.second[j]; return w; }
static void table(const Crystal& c){ GammaTable t(true, c.l); vf_check(t.lattice().is_same(c.l), "of this lattice"); for (unsigned r=0;r<c.ps.size();++r) { auto w = common(c, t, r); for (unsigned k=0;k<c.at.size();++k) { auto m = moved(c, k, c.ps.get(r)); vf_check(t.F0(k,r)==m.first, "the equivalent atom"); auto v = t.vector(k,r); for (int j=0;j<3;++j) { vf_check(std::abs(w[j]-std::round(w[j])) < 1e-9, "a lattice vector"); vf_check(std::abs(v.val(0,j)-m.second[j]-w[j]) < 1e-9, "the cell it comes from"); } } } vf_check(vf::throws([&]{ t.F0(unsigned(c.at.size()), 0u); }) && vf::throws([&]{ t.F0(0u, unsigned(c.ps.size())); }), "no other atoms and operations"); }
VF_ENTRY(table_screws){ if (pick("which",1)) table(screw6()); else table(screw4()); } VF_ENTRY(table_glides){ table(glide4()); }
static C any_number(const char* nm, long i){ double re = vf::any<double>(nm,2*i), im = vf::any<double>(nm,2*i+1); return C(re,im); }
static C times(const C& a, const C& b){ return C(a.real()*b.real()-a.imag()*b.imag(), a.real()*b.imag()+a.imag()*b.real()); }
template<class T> static std::array<T,3> on(const M3& s, const T* v){ std::array<T,3> r; for (int i=0;i<3;++i) { r[i] = T(0); for (int j=0;j<3;++j) if (s[3*i+j]!=0) r[i] += s[3*i+j]*v[j]; } return r; }
template<class T> static std::array<T,9> on(const M3& s, const T* m, const M3& p){ std::array<T,9> r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) { T t(0); for (int k=0;k<3;++k) for (int l=0;l<3;++l) if (s[3*i+k]*p[3*l+j]!=0) t += (s[3*i+k]*p[3*l+j])*m[3*k+l]; r[3*i+j] = t; } return r; }
static void gamma(const Crystal& c, LengthUnit u, bool vectors, bool matrices){ unsigned n = unsigned(c.at.size()), V = vectors ? n : 0, M = matrices ? n*n : 0, S = 1+3*V+9*M; unsigned r = pick("operation",unsigned(c.ps.size())-1); std::vector<size_t> ri{r}, ir{inverse_of(c.ps,r)};
  bArray<C> d(1u,S,C(0)), x(1u,S); std::vector<C> was(S); for (unsigned j=0;j<S;++j) was[j] = x.val(0,j) = any_number("x",j); Interpolator<C> f(d, {1u,1u,S}, {1,3*V,9*M}, RotatesLike::Gamma, u); Q q(REC, c.l, 1u); for (int j=0;j<3;++j) q.val(0,j) = vf::any<double>("q",j); GammaTable t(true, c.l); vf_check(f.rotate_in_place(x, q, t, c.ps, ri, ir, 1), "data is rotated"); vf_check(same(x.val(0,0), was[0]), "scalars are invariant");
  I9 s = c.ps.get(ir[0]); M3 S0 = dbl(s), S1 = dbl(c.ps.get(r)); if (u==DIR) { M3 A = u==DIR ? c.l.to_xyz(DIR) : S0, B = inverse(A); S0 = mul(A,mul(S0,B)); S1 = mul(A,mul(S1,B)); }
  V3 cm = common(c, t, unsigned(ir[0])); std::vector<unsigned> to; std::vector<C> ph; for (unsigned k=0;k<n;++k) { auto m = moved(c, k, s); to.push_back(m.first); double w = 0; for (int j=0;j<3;++j) w += q.val(0,j)*(m.second[j]+std::round(cm[j])); w *= math::two_pi; ph.push_back(std::exp(C(0,w))); }
  for (unsigned k=0;k<V;++k) { auto w = on(S0, was.data()+1+3*k); for (int j=0;j<3;++j) vf_check(same(x.val(0,1+3*to[k]+j), times(ph[k],w[j])), "displacements are rotated and moved to the equivalent atom with its phase"); }
  if (M) for (unsigned k=0;k<n;++k) for (unsigned l=0;l<n;++l) { auto w = on(S0, was.data()+1+3*V+9*(k*n+l), S1); C p = times(ph[k], std::conj(ph[l])); for (int j=0;j<9;++j) vf_check(same(x.val(0,1+3*V+9*(to[k]*n+to[l])+j), times(p,w[j])), "force constants are those between the equivalent atoms"); } }
VF_ENTRY(gamma_screw6){ gamma(screw6(), LengthUnit::real_lattice, true, false); } VF_ENTRY(gamma_screw4){ gamma(screw4(), LengthUnit::real_lattice, true, false); } VF_ENTRY(gamma_glide4){ gamma(glide4(), LengthUnit::real_lattice, true, false); } VF_ENTRY(gamma_cartesian){ gamma(screw4(), DIR, true, false); } VF_ENTRY(gamma_matrices){ gamma(three(), LengthUnit::real_lattice, false, true); } VF_ENTRY(gamma_all){ gamma(three(), LengthUnit::real_lattice, true, true); }
VF_ENTRY(gamma_refused){ Crystal c = three(); unsigned r = pick("kind",3); LengthUnit u = LengthUnit::real_lattice; GammaTable t(true, c.l); std::vector<size_t> ri{1}, ir{2}; bArray<double> z(1u,3u,0.1); L o(DIR, M3{2,0,0,0,2,0,0,0,2}, MatrixVectors::column, Symmetry(), Basis(), false); bArray<C> d(1u,18u,C(0)), x(1u,18u,C(1,2));
  if (r==0) { Interpolator<C> f(d, {1u,1u,18u}, {0,18,0}, RotatesLike::Gamma, u); vf_check(vf::throws([&]{ f.rotate_in_place(x, Q(REC,o,z), t, c.ps, ri, ir, 1); }), "points of another lattice"); }
  else if (r==1) { Interpolator<C> f(d, {1u,1u,18u}, {0,18,0}, RotatesLike::Gamma, u); vf_check(vf::throws([&]{ f.rotate_in_place(x, Q(DIR,c.l,z), t, c.ps, ri, ir, 1); }), "positions"); }
  else if (r==2) { Interpolator<C> f(d, {1u,1u,18u}, {0,0,18}, RotatesLike::Gamma, u); vf_check(!f.rotate_in_place(x, Q(REC,c.l,z), t, c.ps, ri, ir, 1), "not a square of matrices"); for (unsigned j=0;j<18;++j) vf_check(same(x.val(0,j), C(1,2)), "which stay as they are"); }
  else { bArray<double> e(1u,18u,0.), y(1u,18u,1.); Interpolator<double> f(e, {1u,1u,18u}, {0,18,0}, RotatesLike::Gamma, u); vf_check(vf::throws([&]{ f.rotate_in_place(y, Q(REC,c.l,z), t, c.ps, ri, ir, 1); }), "phases need complex numbers"); } }
/// an atom is found at every place which is a lattice vector from it, and nowhere else
static Basis three_atoms(){ return Basis({V3{0,0,0},V3{0.25,0.5,0.125},V3{0,0,0.5}}, {4,4,9}); } static const double AT[3][3] = {{0,0,0},{0.25,0.5,0.125},{0,0,0.5}}; static const ind_t TYPE[3] = {4,4,9};
static bool near_int(double d, double tol){ double e = d-std::floor(d+0.5); return vf_and(e < tol, e > -tol); }
VF_ENTRY(atom_there){ Basis b = three_atoms(); unsigned k = pick("atom",2); V3 p; for (int j=0;j<3;++j) p[j] = AT[k][j] + vf::any_int<int>("n",-1000,1000,j); auto e = b.equivalent_to(TYPE[k], p, 0., 1); vf_check(std::get<0>(e), "the atom is found"); vf_check(std::get<1>(e)==k, "which is there"); auto c = b.closest_to(TYPE[k], p, 0., 1); vf_check(std::get<0>(c) && std::get<1>(c)==k, "and the closest"); auto d = std::get<2>(c); for (int j=0;j<3;++j) vf_check(d[j]==0, "at no distance"); auto w = b.equivalent_to(7, p, 0., 1); vf_check(!std::get<0>(w) && std::get<1>(w)==3, "none of another type"); }
VF_ENTRY(atom_found){ Basis b = three_atoms(); V3 p; for (int j=0;j<3;++j) { p[j] = vf::any<double>("p",j); vf_tame(std::abs(p[j]) < 100); } unsigned t = pick("type",1) ? 9 : 4; auto e = b.equivalent_to(t, p, 0., 1); unsigned l = std::get<1>(e); if (std::get<0>(e)) { vf_check(l<3, "an atom"); vf_check(TYPE[l]==t, "of this type"); for (int j=0;j<3;++j) vf_check(near_int(p[j]-AT[l][j], 1e-6), "at this place"); } else { vf_check(l==3, "no atom"); for (unsigned k=0;k<3;++k) if (TYPE[k]==t) vf_check(!vf_and(vf_and(near_int(p[0]-AT[k][0],1e-15), near_int(p[1]-AT[k][1],1e-15)), near_int(p[2]-AT[k][2],1e-15)), "none is at this place"); } }
VF_ENTRY(atom_closest){ Basis b({V3{0.25,0.5,0.125},V3{0,0,0.25},V3{0,0,0.5}}, {4,9,9}); V3 p; for (int j=0;j<3;++j) { p[j] = vf::any<double>("p",j); vf_tame(std::abs(p[j]) < 100); } auto c = b.closest_to(4, p, 0., 1); vf_check(std::get<1>(c)==0, "the only atom of its type"); auto d = std::get<2>(c); for (int j=0;j<3;++j) { double a = j==0?0.25:j==1?0.5:0.125, m = p[j]-a-d[j], n = std::floor(p[j]-a+0.5); vf_check(vf_and(m-n < 1e-9, n-m < 1e-9), "the difference is to an equivalent place"); vf_check(vf_and(d[j] <= 0.5, d[j] >= -0.5), "the closest of them"); } }
VF_ENTRY(basis){ Basis b = three_atoms(); vf_check(b.size()==3, "number of atoms"); for (unsigned k=0;k<3;++k) { auto p = b.position(k); for (int j=0;j<3;++j) vf_check(p[j]==AT[k][j], "positions"); vf_check(b.types()[k]==TYPE[k], "types"); } vf_check(vf::throws([&]{ b.position(3); }), "no other atom"); Basis o({V3{0,0,0},V3{0.5,0,0}}), w({V3{0,0,0},V3{0.5,0,0}}, std::vector<ind_t>{3}); for (auto* x: {&o,&w}) vf_check(x->size()==2 && x->types()[0]==0 && x->types()[1]==1, "atoms of unknown type are different"); vf_check(vf::throws([&]{ b.equivalent_after_operation(3, Motion<int,double>(), 0., 1); }), "no other atom"); }
#ifndef VF_SYM
static double normal(std::mt19937& g){ return std::normal_distribution<double>()(g); }
/// a lattice of one of the space group settings, with a few atoms
static Crystal setting(int hall, std::mt19937& g){
  Crystal c; Spacegroup sp(hall); c.ps = sp.get_pointgroup_symmetry(0); c.sg = sp.get_spacegroup_symmetry(); M3 a, G{}; for (int i=0;i<9;++i) a[i] = (i%4==0?4:0) + 0.5*normal(g); M3 G0 = gram(a); for (auto& r: c.ps.getall()) { M3 R = dbl(r), x = mul(dbl(tr(r)),mul(G0,R)); for (int i=0;i<9;++i) G[i] += x[i]/double(c.ps.size()); }
  double a1 = std::sqrt(G[0]), b1 = G[3]/a1, c1 = G[6]/a1, b2 = std::sqrt(G[4]-b1*b1), c2 = (G[7]-c1*b1)/b2, c3 = std::sqrt(G[8]-c1*c1-c2*c2); std::uniform_real_distribution<double> U(0,1);
  for (int t=0;t<3;++t) { V3 s{U(g),U(g),U(g)}; if (t==0) { s = {0,0,0}; } if (t==1) { s[1] = s[0]; s[2] = g()%2 ? s[0] : 0; } std::vector<V3> o; for (auto& m: c.sg.getallm()) { auto p = m.move_point(s); for (auto& v: p) v -= std::floor(v+1e-7); bool have = false; for (auto& x: o) { bool is = true; for (int j=0;j<3;++j) { double d = x[j]-p[j]; is = is && std::abs(d-std::round(d)) < 1e-5; } have = have || is; } if (!have) o.push_back(p); } if (c.at.size()+o.size() > (c.at.size() ? 10u : 26u)) continue; for (auto& p: o) { c.at.push_back(p); c.type.push_back(t); } }
  c.l = L(DIR, M3{a1,b1,c1,0,b2,c2,0,0,c3}, MatrixVectors::column, c.sg, Basis(c.at,c.type), false); c.ps = c.l.pointgroup_symmetry(); return c; }
/// the dynamical matrix of central forces between all atoms less than some distance apart, in cartesian coordinates
static std::vector<C> dynamical(const Crystal& c, const V3& q){ unsigned n = unsigned(c.at.size()); std::vector<C> d(9*n*n, C(0)); M3 A = c.l.to_xyz(DIR); double reach = 5.5; int m[3]; M3 B = inverse(A); for (int j=0;j<3;++j) m[j] = 1+int(std::ceil(reach*std::sqrt(B[3*j]*B[3*j]+B[3*j+1]*B[3*j+1]+B[3*j+2]*B[3*j+2])));
  for (unsigned k=0;k<n;++k) for (unsigned l=0;l<n;++l) for (int h=-m[0];h<=m[0];++h) for (int i=-m[1];i<=m[1];++i) for (int j=-m[2];j<=m[2];++j) { V3 f{h+c.at[l][0]-c.at[k][0], i+c.at[l][1]-c.at[k][1], j+c.at[l][2]-c.at[k][2]}; auto r = on(A, f.data()); double s = r[0]*r[0]+r[1]*r[1]+r[2]*r[2]; if (s<1e-6 || s>reach*reach) continue; double x = std::sqrt(s)/reach, w = (1-x*x)*(1-x*x)*(1+0.3*(c.type[k]+c.type[l])); C e = std::polar(w/s, math::two_pi*(q[0]*h+q[1]*i+q[2]*j)); for (int u=0;u<3;++u) for (int v=0;v<3;++v) d[9*(k*n+l)+3*u+v] += e*r[u]*r[v]; }
  return d; }
VF_NATIVE(phonons){ unsigned seed = vf::any_int<unsigned>("seed",0,1000000); std::mt19937 g(seed); Crystal c; do c = setting(1+int(g()%530), g); while (c.at.size()>24); unsigned n = unsigned(c.at.size()), P = unsigned(std::min<size_t>(c.ps.size(),4)); M3 A = c.l.to_xyz(DIR), B = inverse(A); bool frac = g()%2; if (n>12) P = 1;
  Q q(REC,c.l,P); std::vector<size_t> r, ir; for (unsigned i=0;i<P;++i) { r.push_back(g()%c.ps.size()); ir.push_back(inverse_of(c.ps,r[i])); for (int j=0;j<3;++j) q.val(i,j) = normal(g); } GammaTable t(true, c.l); unsigned S = 3*n+9*n*n; bArray<C> x(P,S), d(1u,S,C(0)); std::vector<std::vector<C>> D, E, De;
  for (unsigned i=0;i<P;++i) { D.push_back(dynamical(c, {q.val(i,0),q.val(i,1),q.val(i,2)})); std::vector<C> e(3*n), y(3*n,C(0)); for (auto& v: e) v = C(normal(g),normal(g)); for (unsigned k=0;k<n;++k) for (unsigned l=0;l<n;++l) for (int u=0;u<3;++u) for (int v=0;v<3;++v) y[3*k+u] += D[i][9*(k*n+l)+3*u+v]*e[3*l+v]; E.push_back(e); De.push_back(y); }
  auto fill = [&](const std::vector<std::vector<C>>& e){ for (unsigned i=0;i<P;++i) { for (unsigned k=0;k<n;++k) { auto w = frac ? on(B, e[i].data()+3*k) : std::array<C,3>{e[i][3*k],e[i][3*k+1],e[i][3*k+2]}; for (int j=0;j<3;++j) x.val(i,3*k+j) = w[j]; } for (unsigned k=0;k<n*n;++k) { std::array<C,9> w; if (frac) w = on(B, D[i].data()+9*k, A); else for (int j=0;j<9;++j) w[j] = D[i][9*k+j]; for (int j=0;j<9;++j) x.val(i,3*n+9*k+j) = w[j]; } } };
  auto back = [&](unsigned i){ std::vector<C> e; for (unsigned k=0;k<n;++k) { auto w = frac ? on(A, x.ptr(i,3*k)) : std::array<C,3>{x.val(i,3*k),x.val(i,3*k+1),x.val(i,3*k+2)}; e.insert(e.end(), w.begin(), w.end()); } return e; };
  Interpolator<C> f(d, {1u,1u,S}, {0,3*n,9*n*n}, RotatesLike::Gamma, frac ? LengthUnit::real_lattice : DIR); std::vector<std::vector<C>> e, y; fill(De); vf_check(f.rotate_in_place(x, q, t, c.ps, r, ir, 1), "rotated"); for (unsigned i=0;i<P;++i) y.push_back(back(i)); fill(E); vf_check(f.rotate_in_place(x, q, t, c.ps, r, ir, 3), "rotated"); for (unsigned i=0;i<P;++i) e.push_back(back(i));
  for (unsigned i=0;i<P;++i) { I9 R = c.ps.get(r[i]); V3 p; for (int j=0;j<3;++j) p[j] = R[j]*q.val(i,0)+R[3+j]*q.val(i,1)+R[6+j]*q.val(i,2) + int(g()%5)-2; auto m = dynamical(c, p); std::vector<C> z(3*n,C(0)); double err = 0, dif = 0, scale = 1e-9;
    for (unsigned k=0;k<n;++k) for (unsigned l=0;l<n;++l) { std::array<C,9> w; if (frac) w = on(A, x.ptr(i,3*n+9*(k*n+l)), B); else for (int j=0;j<9;++j) w[j] = x.val(i,3*n+9*(k*n+l)+j); for (int j=0;j<9;++j) { C t0 = m[9*(k*n+l)+j]; dif = std::max(dif, std::abs(w[j]-t0)); scale = std::max(scale, std::abs(t0)); z[3*k+j/3] += t0*e[i][3*l+j%3]; } } for (unsigned k=0;k<3*n;++k) err = std::max(err, std::abs(z[k]-y[i][k]));
    vf_check(dif < 1e-6*scale, "the dynamical matrix of an equivalent point"); vf_check(err < 1e-5*scale, "the eigenvectors of an equivalent point"); } }
/// the fields Q and Q Q^T, in units of either lattice
VF_NATIVE(field){ unsigned seed = vf::any_int<unsigned>("seed",0,1000000); std::mt19937 g(seed); Crystal c = setting(1+int(g()%530), g); unsigned n = 8; bool rec = g()%2; Q q(REC,c.l,n); std::vector<size_t> r, ir; for (unsigned i=0;i<n;++i) { r.push_back(g()%c.ps.size()); ir.push_back(inverse_of(c.ps,r[i])); for (int j=0;j<3;++j) q.val(i,j) = normal(g); } M3 T = rec ? M3{1,0,0,0,1,0,0,0,1} : mul(inverse(c.l.to_xyz(DIR)), c.l.to_xyz(REC)), K = mul(inverse(c.l.to_xyz(DIR)), c.l.to_xyz(REC));
  auto value = [&](const V3& p){ auto v = on(T, p.data()), w = rec ? on(K, p.data()) : p; std::array<double,13> o; o[0] = p[0]; for (int j=0;j<3;++j) o[1+j] = v[j]; for (int j=0;j<3;++j) for (int k=0;k<3;++k) o[4+3*j+k] = v[j]*w[k]; return o; };
  bArray<double> d(1u,13u,0.), x(n,13u); for (unsigned i=0;i<n;++i) { auto v = value({q.val(i,0),q.val(i,1),q.val(i,2)}); for (unsigned j=0;j<13;++j) x.val(i,j) = v[j]; } Interpolator<double> f(d, {1u,1u,13u}, {1,3,9}, RotatesLike::vector, rec ? LengthUnit::reciprocal_lattice : LengthUnit::real_lattice); vf_check(f.rotate_in_place(x, q, GammaTable(false,c.l), c.ps, r, ir, 1+int(g()%3)), "rotated");
  for (unsigned i=0;i<n;++i) { I9 R = c.ps.get(r[i]); V3 p; for (int j=0;j<3;++j) p[j] = R[j]*q.val(i,0)+R[3+j]*q.val(i,1)+R[6+j]*q.val(i,2); auto v = value(p); for (unsigned j=1;j<13;++j) vf_check(std::abs(v[j]-x.val(i,j)) < 1e-6*(1+std::abs(v[j])), "the field at the equivalent point"); } }
VF_NATIVE(atoms){ unsigned seed = vf::any_int<unsigned>("seed",0,1000000); std::mt19937 g(seed); Crystal c = setting(1+int(g()%530), g); Basis b = c.l.basis(); for (size_t i=0;i<c.sg.size();++i) { auto m = c.sg.getm(i); for (unsigned k=0;k<c.at.size();++k) { auto e = b.equivalent_after_operation(k, m, 0., 1); vf_check(std::get<0>(e), "every atom has an equivalent"); unsigned l = std::get<1>(e); vf_check(c.type[l]==c.type[k], "of the same type"); auto p = m.move_point(c.at[k]); for (int j=0;j<3;++j) { double d = p[j]-c.at[l][j]; vf_check(std::abs(d-std::round(d)) < 1e-6, "where it is moved to"); } } }
  // atoms which are a little off their site are put onto it
  double eps = 1e-5; auto off = c.at; for (auto& p: off) for (auto& v: p) v += eps*std::uniform_real_distribution<double>(-1,1)(g); Basis o(off, c.type); bool ok = o.snap_to(c.sg.getallm(), 0., 1); auto now = o.positions(); for (unsigned k=0;k<now.size();++k) for (int j=0;j<3;++j) vf_check(std::abs(now[k][j]-off[k][j]) < 4*eps, "atoms move a little"); if (ok) for (size_t i=0;i<c.sg.size();++i) for (unsigned k=0;k<now.size();++k) vf_check(std::get<0>(o.equivalent_after_operation(k, c.sg.getm(i), 0., 1)), "then every atom has an equivalent");
  bool alone = true; for (auto t: c.type) alone = alone && std::count(c.type.begin(),c.type.end(),t)==1; if (alone) vf_check(ok, "a site of its own is found again"); }
#endif

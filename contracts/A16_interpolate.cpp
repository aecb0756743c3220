//! file {"sources":["$REPO/src/approx_config.cpp","$REPO/src/comparisons.cpp","$REPO/src/debug.cpp","$REPO/src/process_id.cpp","$REPO/src/symmetry.cpp","$REPO/src/pointsymmetry.cpp","$REPO/src/pointgroup.cpp","$REPO/src/spg_database.cpp","$REPO/src/hall_symbol.cpp","$REPO/src/bravais.cpp"],"opt":"-O1"}
//! * {"unroll":40,"time":150}
//! modes_native {"trials":60}
//! tracked_native {"trials":60}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <cassert>
#include <mutex>
#include <random>
#include "verif.h"
#include "array_.hpp"
#include "lattice_dual.hpp"
#include "array_l_.hpp"
#include "interpolatordual.hpp"
#include "stdmap.h"
using namespace brille; using C = std::complex<double>; using IW = std::vector<std::pair<ind_t,double>>; using P = std::vector<std::vector<ind_t>>;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
static const auto VEC = RotatesLike::vector; static const auto LAT = LengthUnit::real_lattice;
/// an order of two modes
static std::vector<ind_t> order(long i){ return pick("swapped",1,i) ? std::vector<ind_t>{1u,0u} : std::vector<ind_t>{0u,1u}; }
static const ind_t AT[3] = {2,0,3};
struct Weights { IW iw; P perm; std::vector<ind_t> i; std::vector<double> w; };
static Weights weights(unsigned n, bool first=false){ Weights r; for (unsigned k=0;k<n;++k) { double w = vf::any<double>("w",k); r.iw.emplace_back(AT[k], w); r.i.push_back(AT[k]); r.w.push_back(w); r.perm.push_back(k||first ? order(k) : std::vector<ind_t>{0u,1u}); } return r; }
template<class T> T any_number(const char* nm, long i); template<> double any_number<double>(const char* nm, long i){ return vf::any<double>(nm,i); } template<> C any_number<C>(const char* nm, long i){ double r = vf::any<double>(nm,2*i), m = vf::any<double>(nm,2*i+1); return C(r,m); }
static bool same(double a, double b){ return vf_eq(a,b); } static bool same(const C& a, const C& b){ return vf_and(vf_eq(a.real(),b.real()), vf_eq(a.imag(),b.imag())); }
static C times(double w, const C& a, const C& b){ return C(w*(a.real()*b.real()-a.imag()*b.imag()), w*(a.real()*b.imag()+a.imag()*b.real())); }
static double times(double w, double a, double b){ return w*a*b; }
/// two modes of S elements at four points, interpolated into the second of three rows of a result
template<class T, unsigned S> static void mix(unsigned n, bool phase, bool pairs){
  bArray<T> d(4u,2*S); for (unsigned i=0;i<4;++i) for (unsigned j=0;j<2*S;++j) d.val(i,j) = any_number<T>("d",2*S*i+j); Interpolator<T> f(d, {4u,2u,S}, {S,0,0}, VEC, LAT); bArray<T> out(3u,2*S); T was[6*S]; for (unsigned i=0;i<3;++i) for (unsigned j=0;j<2*S;++j) out.val(i,j) = was[2*S*i+j] = any_number<T>("o",2*S*i+j);
  auto w = weights(n, !phase); if (pairs) f.interpolate_at(w.perm, w.iw, out, ind_t(1), phase); else f.interpolate_at(w.perm, w.i, w.w, out, ind_t(1), phase);
  for (unsigned i=0;i<3;i+=2) for (unsigned j=0;j<2*S;++j) vf_check(same(out.val(i,j), was[2*S*i+j]), "the other results are untouched");
  for (unsigned b=0;b<2;++b) { T e[3]; for (unsigned k=0;k<n;++k) e[k] = phase ? utils::antiphase(S, d.ptr(AT[0])+b*S, d.ptr(AT[k])+w.perm[k][b]*S) : T(1);
    for (unsigned s=0;s<S;++s) { T sum = was[2*S+b*S+s]; for (unsigned k=0;k<n;++k) sum += times(w.w[k], e[k], d.val(AT[k], w.perm[k][b]*S+s)); vf_check(same(out.val(1,b*S+s), sum), "the weighted sum of the mode at every vertex"); } }
  for (unsigned i=0;i<4;++i) vf_check(f.size()==4 && f.branches()==2 && f.branch_span()==S, "points, modes and elements");
}
VF_ENTRY(mix_real){ mix<double,2>(3, false, pick("pairs",1)); } VF_ENTRY(mix_real_phase){ mix<double,2>(2, true, pick("pairs",1)); } VF_ENTRY(mix_complex){ mix<C,1>(3, false, pick("pairs",1)); } VF_ENTRY(mix_phase){ mix<C,1>(3, true, pick("pairs",1)); } VF_ENTRY(mix_phase_vector){ mix<C,2>(2, true, pick("pairs",1)); }
VF_ENTRY(nothing){ bArray<double> d(2u,2u,1.), out(1u,2u,0.); Interpolator<double> f(d, {2u,2u}, {1,0,0}, VEC, LAT); vf_check(vf::throws([&]{ f.interpolate_at(P(), IW(), out, ind_t(0), false); }), "no vertices is an error"); vf_check(vf::throws([&]{ f.interpolate_at(P(), std::vector<ind_t>(), std::vector<double>(), out, ind_t(0), true); }), "no vertices is an error"); }
/// both parts follow the first vertex with permutations of the table
VF_ENTRY(dual){ bArray<double> d(4u,2u); bArray<C> v(4u,2u); for (unsigned i=0;i<8;++i) d.val(i/2,i%2) = vf::any<double>("d",i); for (unsigned i=0;i<8;++i) v.val(i/2,i%2) = any_number<C>("v",i); Interpolator<double> a(d, {4u,2u}, {1,0,0}, VEC, LAT); Interpolator<C> b(v, {4u,2u}, {1,0,0}, VEC, LAT);
  struct Dual : DualInterpolator<double,C> { using DualInterpolator<double,C>::DualInterpolator; PermutationTable& table(){ return this->permutation_table_; } }; Dual f; f.replace_data(a, b); vf_check(f.size()==4 && f.branches()==2, "points and modes"); f.initialize_permutation_table(4, {2*4+0, 0*4+2, 2*4+3, 3*4+2});
  std::vector<ind_t> p[3] = {{0u,1u}, order(1), order(2)}; f.table().overwrite(2, 0, p[1]); f.table().overwrite(2, 3, p[2]); f.table().overwrite(0, 2, p[1]); f.table().overwrite(3, 2, p[2]);
  auto w = weights(3); bArray<double> x(2u,2u,0.); bArray<C> y(2u,2u,C(0)); f.interpolate_at(w.iw, x, y, 1u);
  for (unsigned m=0;m<2;++m) { double s = 0; C t(0); for (unsigned k=0;k<3;++k) { s += w.w[k]*d.val(AT[k],p[k][m]); t += times(w.w[k], utils::antiphase(1u, v.ptr(AT[0])+m, v.ptr(AT[k])+p[k][m]), v.val(AT[k],p[k][m])); } vf_check(vf_eq(x.val(1,m), s), "values follow their mode"); vf_check(same(y.val(1,m), t), "vectors follow the same mode"); vf_check(x.val(0,m)==0, "other results are untouched"); }
}
/// the shapes of data which are accepted
static bool rejects(brille::shape_t sh, std::array<ind_t,3> el){ unsigned n = 1; for (auto s: sh) n *= s; return vf::throws([&]{ brille::Array<double> d(sh, 0.); Interpolator<double> f(d, el, VEC, LAT); }); }
static void shape(brille::shape_t sh, std::array<ind_t,3> el, ind_t modes, ind_t span){ brille::Array<double> d(sh, 0.); Interpolator<double> f(d, el, VEC, LAT); vf_check(f.size()==sh[0], "points"); vf_check(f.branches()==modes, "modes"); vf_check(f.branch_span()==span, "elements of a mode"); size_t n = 1; for (size_t i=1;i<sh.size();++i) n *= sh[i]; vf_check(f.bytes_per_point()==8*n, "bytes of a point"); vf_check(modes*span==n, "modes make up the point");
  Interpolator<double> g; g.replace_data(d, el, VEC, LAT); vf_check(g.size()==sh[0] && g.branches()==modes && g.branch_span()==span, "replaced data"); vf_check(!(f != g), "the same data"); }
VF_ENTRY(shapes){ unsigned p = 1+pick("points",2), b = 1+pick("modes",2), k = 1+pick("elements",1); switch (pick("kind",7)) { case 0: shape({p},{1,0,0},1,1); break; case 1: shape({p,b},{1,0,0},b,1); break; case 2: shape({p,b*(k+3)},{k,3,0},b,k+3); break; case 3: shape({p,b,k+3*k+9},{k,3*k,9},b,4*k+9); break; case 4: shape({p,b,k,3},{0,3*k,0},b,3*k); break; case 5: shape({p,b,k,3,3},{0,0,9*k},b,9*k); break; case 6: shape({p,b},{0,0,0},1,b); break; default: shape({p,b,k,3},{0,0,0},b,3*k); break; } }
VF_ENTRY(refusals){ switch (pick("kind",6)) { case 0: vf_check(rejects({2},{2,0,0}), "one scalar for a point"); break; case 1: vf_check(rejects({2,3},{2,0,0}), "a whole number of modes"); break; case 2: vf_check(rejects({2,3,4},{3,0,0}), "as many elements as given"); break; case 3: vf_check(rejects({2,3,4,2},{0,8,0}), "three-vectors"); break; case 4: vf_check(rejects({2,3,4,3,2},{0,0,24}), "matrices"); break; case 5: vf_check(rejects({2,3,4,3},{0,9,0}), "as many vectors as given"); break; default: { brille::Array<double> d(brille::shape_t{2u,4u}, 0.); Interpolator<double> g; vf_check(vf::throws([&]{ g.replace_data(d, std::array<int,3>{0,4,0}, VEC, LAT); }), "vectors have three elements"); vf_check(vf::throws([&]{ g.replace_data(d, std::array<int,3>{0,0,4}, VEC, LAT); }), "matrices have nine elements"); } } }
/// the cost of assigning modes is the weighted difference of their elements
VF_ENTRY(cost){ bArray<double> d(2u,4u), v(2u,4u); for (unsigned i=0;i<8;++i) { d.val(i/4,i%4) = vf::any<double>("d",i); v.val(i/4,i%4) = vf::any<double>("v",i); } std::array<double,3> wd, wv; for (int i=0;i<3;++i) { wd[i] = vf::any<double>("wd",i); wv[i] = vf::any<double>("wv",i); } Interpolator<double> a(d, {2u,2u,2u}, {2,0,0}, VEC, LAT, 0, 0, wd), b(v, {2u,2u,2u}, {1,1,0}, VEC, LAT, 0, 2, wv); DualInterpolator<double,double> f(a, b);
  auto c = f.cost_matrix(0,1); vf_check(c.size()==4, "a square matrix"); for (unsigned i=0;i<2;++i) for (unsigned j=0;j<2;++j) vf_check(vf_eq(c[2*i+j], wd[0]*(std::abs(d.val(0,2*i)-d.val(1,2*j)) + std::abs(d.val(0,2*i+1)-d.val(1,2*j+1))) + wv[0]*std::abs(v.val(0,2*i)-v.val(1,2*j)) + wv[1]*(1-v.val(0,2*i+1)*v.val(1,2*j+1))), "the cost of a pair");
  auto s = f.cost_matrix(1,1); vf_check(vf_and(vf_and(s[0]<0, s[3]<0), vf_and(s[1]==0, s[2]==0)), "a point is assigned to itself"); }
VF_ENTRY(cost_distance){ bArray<double> v(2u,6u); for (unsigned i=0;i<12;++i) v.val(i/6,i%6) = vf::any<double>("v",i); Interpolator<double> b(v, {2u,2u,3u}, {0,3,0}, VEC, LAT, 0, 1, {1,1,1}); bool ph = pick("phase",1); std::vector<double> c(4,0.); b.add_cost(0, 1, c, ph); for (unsigned i=0;i<2;++i) for (unsigned j=0;j<2;++j) { double q = 0; for (int k=0;k<3;++k) { double t = v.val(0,3*i+k)-v.val(1,3*j+k); q += t*t; } vf_check(c[2*i+j]>=0, "a distance"); vf_check(vf_eq(c[2*i+j]*c[2*i+j], q), "the distance of vectors"); } }
VF_ENTRY(cost_matrices){ bArray<double> v(2u,18u); for (unsigned i=0;i<36;++i) v.val(i/18,i%18) = vf::any<double>("v",i); Interpolator<double> b(v, {2u,1u,18u}, {0,0,18}, VEC, LAT, 0, 0, {1,1,2}); std::vector<double> c(1,0.); b.add_cost(0, 1, c, pick("phase",1)); double q[2] = {0,0}; for (int m=0;m<2;++m) { for (int k=0;k<9;++k) { double t = v.val(0,9*m+k)-v.val(1,9*m+k); q[m] += t*t; } q[m] = std::sqrt(q[m]); } vf_check(vf_eq(c[0], 2*(q[0]+q[1])), "the Frobenius distances of matrices"); }
VF_ENTRY(fake){ bArray<double> d(3u,4u); for (unsigned i=0;i<12;++i) d.val(i/4,i%4) = vf::any<double>("d",i); brille::Array<double> n(brille::shape_t{3u,4u}); for (unsigned i=0;i<12;++i) n[i] = d.val(i/4,i%4); DualInterpolator<double,double> f; bool val = pick("values",1); if (val) f.replace_value_data(n, std::array<int,3>{2,0,0}, VEC, LAT); else f.replace_vector_data(n, std::array<int,3>{2,0,0}, VEC, LAT); vf_check(f.values().size()==3 && f.vectors().size()==3, "points"); vf_check(f.values().branches()==2 && f.vectors().branches()==2, "modes"); auto& k = val ? f.values() : f.vectors(); for (unsigned i=0;i<12;++i) vf_check(k.data().val(i/4,i%4)==d.val(i/4,i%4), "the data"); }
#ifndef VF_SYM
/// modes of random points are matched at least cost, and both ways
static double element(std::mt19937& g){ return std::normal_distribution<double>()(g); }
VF_NATIVE(modes_native){ unsigned seed = vf::any_int<unsigned>("seed",0,1000000); std::mt19937 g(seed); unsigned n = 2+seed%4, B = 1+seed%5; bArray<double> d(n,B); bArray<C> v(n,3*B); for (auto& x: d.valItr()) x = element(g); for (auto& x: v.valItr()) x = C(element(g),element(g)); Interpolator<double> a(d, {n,B}, {1,0,0}, VEC, LAT); Interpolator<C> b(v, {n,B,1u,3u}, {0,3,0}, VEC, LAT);
  struct Dual : DualInterpolator<double,C> { using DualInterpolator<double,C>::DualInterpolator; PermutationTable& table(){ return this->permutation_table_; } }; Dual f; f.replace_data(a, b); std::set<size_t> keys; for (unsigned i=0;i<n;++i) for (unsigned j=0;j<n;++j) if (i!=j) keys.insert(i*n+j); f.initialize_permutation_table(n, keys); f.sort();
  for (unsigned i=0;i<n;++i) for (unsigned j=0;j<n;++j) { auto p = f.get_permutation(i,j), q = f.get_permutation(j,i); vf_check(p.size()==B && q.size()==B, "a permutation for every pair"); for (unsigned k=0;k<B;++k) vf_check(p[k]<B && q[p[k]]==k, "both ways"); if (i==j) { for (unsigned k=0;k<B;++k) vf_check(p[k]==k, "itself"); continue; }
    auto c = f.cost_matrix(i,j); for (unsigned k=0;k<B;++k) for (unsigned l=0;l<B;++l) { C h = 0; double na = 0, nb = 0; for (int m=0;m<3;++m) { C x = v.val(i,3*k+m), y = v.val(j,3*l+m); h += std::conj(x)*y; na += std::norm(x); nb += std::norm(y); } double ref = std::abs(d.val(i,k)-d.val(j,l)) + 1-std::norm(h)/na/nb; vf_check(std::abs(c[k*B+l]-ref) < 1e-6, "the default cost is the difference of values and the squared sine of the angle"); }
    std::vector<unsigned> o(B); std::iota(o.begin(),o.end(),0u); double best = 1e300, have = 0; for (unsigned k=0;k<B;++k) have += c[k*B+p[k]]; do { double s = 0; for (unsigned k=0;k<B;++k) s += c[k*B+o[k]]; best = std::min(best,s); } while (std::next_permutation(o.begin(),o.end())); vf_check(have < best+1e-9, "the least cost"); } }
/// smooth modes, whatever order and phase they are stored in
VF_NATIVE(tracked_native){ unsigned seed = vf::any_int<unsigned>("seed",0,1000000); std::mt19937 g(seed); unsigned n = 4, B = 2+seed%3; std::vector<std::vector<double>> val(n,std::vector<double>(B)); std::vector<std::vector<C>> vec(n,std::vector<C>(3*B)); std::vector<C> base(3*B); for (auto& x: base) x = 0.05*C(element(g),element(g)); for (unsigned b=0;b<B;++b) base[3*b+b%3] += 1; for (unsigned i=0;i<n;++i) { for (unsigned b=0;b<B;++b) val[i][b] = 10*(b/3) + 0.3*b + 0.02*element(g); for (unsigned k=0;k<3*B;++k) vec[i][k] = base[k]+0.02*C(element(g),element(g)); }
  bArray<double> d(n,B); bArray<C> v(n,3*B); std::vector<std::vector<unsigned>> o(n); for (unsigned i=0;i<n;++i) { o[i].resize(B); std::iota(o[i].begin(),o[i].end(),0u); std::shuffle(o[i].begin(),o[i].end(),g); for (unsigned b=0;b<B;++b) { C e = std::polar(1.,7*element(g)); d.val(i,b) = val[i][o[i][b]]; for (int k=0;k<3;++k) v.val(i,3*b+k) = e*vec[i][3*o[i][b]+k]; } }
  Interpolator<double> a(d, {n,B}, {1,0,0}, VEC, LAT); Interpolator<C> c(v, {n,B,3u}, {0,3,0}, VEC, LAT); DualInterpolator<double,C> f; f.replace_data(a, c); std::set<size_t> keys; for (unsigned i=0;i<n;++i) for (unsigned j=0;j<n;++j) if (i!=j) keys.insert(i*n+j); f.initialize_permutation_table(n, keys); f.sort();
  IW iw; double s = 0; for (unsigned i=0;i<n;++i) { double w = std::abs(element(g))+0.1; iw.emplace_back((i+seed)%n, w); s += w; } for (auto& w: iw) w.second /= s; bArray<double> x(1u,B,0.); bArray<C> y(1u,3*B,C(0)); f.interpolate_at(iw, x, y, 0u);
  for (unsigned b=0;b<B;++b) { unsigned m = o[iw[0].first][b]; double r = 0; for (auto& w: iw) r += w.second*val[w.first][m]; vf_check(std::abs(r-x.val(0,b)) < 1e-9, "values of one mode are combined"); const C* v0 = v.ptr(iw[0].first,3*b); for (int k=0;k<3;++k) { C t = 0; for (auto& w: iw) { C h = 0; for (int q=0;q<3;++q) h += std::conj(v0[q])*vec[w.first][3*m+q]; t += w.second*vec[w.first][3*m+k]*std::conj(h)/std::abs(h); } vf_check(std::abs(t-y.val(0,3*b+k)) < 1e-9, "vectors of one mode are combined in phase"); } } }
#endif

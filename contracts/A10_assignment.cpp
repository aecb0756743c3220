//! * {"unroll": 60, "time": 300, "prove_to": 5000}
//! munkres_many {"what": "costs of up to 6 by 6 compared with every permutation", "trials": 3000, "ntime": 20}
//! lapjv_many {"what": "costs of up to 6 by 6 compared with every permutation", "trials": 3000, "ntime": 20}
//! smp_3 {"tier": "thorough", "time": 700}
//! munkres_3a {"prio": 5}
//! munkres_3b {"prio": 5}
//! munkres_3c {"prio": 5}
//! lapjv_3a {"prio": 5}
//! lapjv_3b {"prio": 5}
//! lapjv_3c {"prio": 5}
//! smp_many {"what": "costs of up to 6 by 6, every pair of rows and columns", "trials": 3000, "ntime": 20}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include "verif.h"
#include "array_.hpp"
#include "permutation.hpp"
using namespace brille; using S = size_t; using M = assignment::Munkres<double>;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
static double entry(long k){ double v = vf::any_real("c", k); if (vf_native()) { static const double q[] = {0,0.5,1,1.5,2,3,5,8}; if (vf::any_bool("few")) v = q[vf::any_int<unsigned>("q",0,7,k)]; if (vf::any_bool("one")) v += vf::any_real("e",k)*1e-3; } return v; }
/// the least total cost over all assignments is at least `lower` (no fork)
template<class F> static void perms(unsigned n, F&& f){ unsigned p[6] = {0,1,2,3,4,5}; do f(p); while (std::next_permutation(p,p+n)); }
static const unsigned P3[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
template<class I> static bool perm(const I* p, unsigned n){ bool e = true; for (unsigned i=0;i<n;++i) { e = e && p[i]>=0 && p[i]<I(n); for (unsigned j=0;j<i;++j) e = e && p[j]!=p[i]; } return e; }
template<class I> static double total(const double* c, const I* p, unsigned n){ double t = 0; for (unsigned i=0;i<n;++i) t += c[i*n+p[i]]; return t; }
template<class I> static bool least(const double* c, const I* p, unsigned n, double slack){ double t = total(c,p,n); bool e = true; if (n==2) { const unsigned a[2]={0,1}, b[2]={1,0}; e = vf_and(t <= total(c,a,2)+slack, t <= total(c,b,2)+slack); } else if (n==3) for (auto& q: P3) e = vf_and(e, t <= total(c,q,3)+slack); else perms(n, [&](const unsigned* q){ e = vf_and(e, t <= total(c,q,n)+slack); }); return e; }

// ---- optimal assignment (Munkres)
/// the (first) least element of the first row is in column k (or that of a column in row k): cases which together cover all costs
static void firstrow(const double* c, unsigned n, int k, unsigned step=1){ if (k<0) return; bool e = true; for (unsigned j=0;j<n;++j) e = vf_and(e, int(j)<k ? c[k*step]<c[j*step] : c[k*step]<=c[j*step]); vf_assume(e); }
static void munk(unsigned n, int k0=-1){ double c[36]; M m(n); bool zero = true; for (unsigned k=0;k<n*n;++k) { c[k] = entry(k); vf_assume(c[k]<1e6 && c[k]>-1e6); m.get_cost()[k] = c[k]; zero = vf_and(zero, c[k]==0); } firstrow(c,n,k0);
  bool ok = m.run_assignment(); S out[6] = {9,9,9,9,9,9}; vf_check(vf_iff(ok, !zero), "an assignment is found unless all costs are zero"); if (!ok) return; vf_check(m.get_assignment(out), "and can be read");
  vf_check(perm(out,n), "every row has its own column"); vf_check(least(c,out,n,vf_native() ? 1e-9 : 0), "no other assignment costs less"); }
VF_ENTRY(munkres_1){ munk(1); } VF_ENTRY(munkres_2){ munk(2); } VF_ENTRY(munkres_3a){ munk(3,0); } VF_ENTRY(munkres_3b){ munk(3,1); } VF_ENTRY(munkres_3c){ munk(3,2); }
VF_NATIVE(munkres_many){ munk(vf::any_int<unsigned>("n",1,6)); }
VF_ENTRY(munkres_constructed){ std::vector<double> c; double d[4]; for (long k=0;k<4;++k) { d[k] = entry(k); vf_assume(d[k]<1e6 && d[k]>-1e6); c.push_back(d[k]); } vf_assume(d[0] != 0); M m(2, c); S out[2] = {9,9}; vf_check(m.get_assignment(out), "constructing from costs solves them"); vf_check(perm(out,2) && least(d,out,2,vf_native()?1e-9:0), "with least cost"); for (auto& x: m.get_cost()) x = 1; m.get_cost()[0] = 0; m.get_cost()[3] = 0; vf_check(m.run_assignment() && m.get_assignment(out) && out[0]==0 && out[1]==1, "and can be used again"); }
// ---- assignment by shortest augmenting paths (lapjv): optimal within its tolerance
template<class I> static void lap(unsigned n, int k0=-1){ double c[36], u[6], v[6], sum = 0; for (unsigned k=0;k<n*n;++k) { c[k] = entry(k); if (vf_native() && c[k]<0) c[k] = -c[k]; vf_assume(c[k] >= 0); vf_assume(c[k] < 1e6); sum += c[k]; } if (n) firstrow(c+n-1,n,k0,n); I r[6], l[6]; for (int i=0;i<6;++i) r[i] = l[i] = I(9);
  double t = assignment::lapjv<I,double>(I(n), c, false, r, l, u, v); vf_check(perm(r,n), "every row has its own column"); bool inv = true; for (unsigned i=0;i<n;++i) inv = inv && l[r[i]]==I(i); vf_check(inv, "columns know their rows"); vf_check(vf_eq(t, total(c,r,n)), "the cost reported is that of the assignment");
  vf_check(least(c,r,n,n*sum/10000 + (vf_native()?1e-9:0)), "no other assignment costs less by more than the tolerance"); }
VF_ENTRY(lapjv_1){ lap<int>(1); } VF_ENTRY(lapjv_2){ lap<int>(2); } VF_ENTRY(lapjv_2u){ lap<unsigned>(2); } VF_ENTRY(lapjv_3a){ lap<int>(3,0); } VF_ENTRY(lapjv_3b){ lap<int>(3,1); } VF_ENTRY(lapjv_3c){ lap<int>(3,2); }
VF_NATIVE(lapjv_many){ unsigned n = vf::any_int<unsigned>("n",1,6); lap<int>(n); lap<size_t>(n); }
// ---- stable matching
static void stable(unsigned n){ double c[36]; for (unsigned k=0;k<n*n;++k) { c[k] = entry(k); vf_assume(c[k] < 1e6); } S r[6], l[6]; for (int i=0;i<6;++i) r[i] = l[i] = 9; assignment::smp<S,double>(n, c, r, l, false); vf_check(perm(r,n), "every row has its own column"); bool inv = perm(r,n); for (unsigned i=0;inv && i<n;++i) inv = l[r[i]]==i; vf_check(inv, "columns know their rows"); if (!inv) return;
  bool e = true; for (unsigned i=0;i<n;++i) for (unsigned j=0;j<n;++j) if (r[i]!=j) e = vf_and(e, !vf_and(c[i*n+j] < c[i*n+r[i]], c[i*n+j] < c[l[j]*n+j])); vf_check(e, "no row and column prefer each other to their partners"); }
VF_ENTRY(smp_1){ stable(1); } VF_ENTRY(smp_2){ stable(2); } VF_ENTRY(smp_3){ stable(3); } VF_NATIVE(smp_many){ stable(vf::any_int<unsigned>("n",1,6)); }
// ---- permutations of objects
VF_ENTRY(apply){ unsigned n = 1+pick("n",3); std::vector<int> p; std::vector<double> v, w; bool used[4] = {}; for (unsigned i=0;i<n;++i) { unsigned k = pick("p",n-1,i); if (used[k]) return; used[k] = true; p.push_back(int(k)); v.push_back(vf::any_real("v",i)); } w = v; auto q = p; apply_permutation(v.begin(), v.end(), q.begin()); bool e = true, s = true; for (unsigned i=0;i<n;++i) { e = vf_and(e, v[i]==w[p[i]]); s = s && q[i]==int(i); } vf_check(e, "every object comes from where the permutation says"); vf_check(s, "the permutation is used up");
  q = p; v = w; apply_inverse_permutation(v.begin(), v.end(), q.begin()); e = true; for (unsigned i=0;i<n;++i) e = vf_and(e, v[p[i]]==w[i]); vf_check(e, "the inverse sends every object where the permutation says"); }
// the permutation stored for the centre follows that of the neighbour through the assignment with least cost
template<class F> static void follow(const char* what, double slack, unsigned nn, bool st, F&& f){ const unsigned n = 2; double a[4], b[4]; for (unsigned k=0;k<n*nn;++k) { a[k] = vf::any_real("a",k); b[k] = vf::any_real("b",k); vf_assume(a[k]<1e4 && a[k]>-1e4 && b[k]<1e4 && b[k]>-1e4); } Array2<S> p(2,n,S(9)); unsigned k = pick("perm",1); p.val(1,0) = k; p.val(1,1) = 1-k;
  if (!f(a,b,p)) return; bool ok = p.val(0,0)<2 && p.val(0,1)<2 && p.val(0,0)!=p.val(0,1); vf_check(ok, "the result is a permutation"); vf_check(p.val(1,0)==k && p.val(1,1)==1-k, "the neighbour keeps its own"); if (!ok) return; double c[2][2], sum = 0; for (unsigned i=0;i<n;++i) for (unsigned j=0;j<n;++j) { double x = 0; for (unsigned m=0;m<nn;++m) { double d = a[i*nn+m]-b[j*nn+m]; x += d<0 ? -d : d; } c[i][j] = 2*x; sum += c[i][j]; }
  unsigned i0 = unsigned(p.val(0,0)), i1 = unsigned(p.val(0,1)), j0 = k, j1 = 1-k; if (st) { bool e = true; vf_check(!vf_and(c[i0][j1]<c[i0][j0], c[i0][j1]<c[i1][j1]) && !vf_and(c[i1][j0]<c[i1][j1], c[i1][j0]<c[i0][j0]), what); } else vf_check(c[i0][j0]+c[i1][j1] <= c[i0][j1]+c[i1][j0] + slack*sum + (vf_native()?1e-9:0), what); }
VF_ENTRY(munkres_follows){ follow("with least total difference", 0, 1+pick("el",1), false, [&](double* a, double* b, Array2<S>& p){ unsigned m = 1+pick("el",1); return munkres_permutation<double,double,unsigned>(a,b,{{m,0u,0u}},2.,0.,0.,m,2,p,0,1); }); }
VF_ENTRY(jv_follows){ follow("with least total difference", 2e-4, 1+pick("el",1), false, [&](double* a, double* b, Array2<S>& p){ unsigned m = 1+pick("el",1); return jv_permutation<double,double,unsigned>(a,b,{{m,0u,0u}},2.,0.,0.,m,2,p,0,1); }); }
VF_ENTRY(sm_follows){ follow("as a stable match", 0, 1+pick("el",1), true, [&](double* a, double* b, Array2<S>& p){ unsigned m = 1+pick("el",1); return sm_permutation<double,double,unsigned>(a,b,{{m,0u,0u}},2.,0.,0.,m,2,p,0,1); }); }
VF_ENTRY(jv_dual_follows){ unsigned n = 1+pick("el",1); follow("values and vectors both count", 2e-4, n, false, [&](double* a, double* b, Array2<S>& p){ double av[4], bv[4], ae[4], be[4]; unsigned k = n-1; for (unsigned i=0;i<2;++i) { av[i] = a[i*n]; bv[i] = b[i*n]; ae[i] = k ? a[i*n+1] : 0; be[i] = k ? b[i*n+1] : 0; } return jv_permutation<double,double,double,unsigned>(av,ae,bv,be,{{1u,0u,0u}},{{k,0u,0u}},2.,0.,0.,1,k,2,p,0,1); }); }
/// the three parts of an object: scalars, vectors and matrices count with their weights
static double mat(const double* a, const double* b){ double s = 0; for (int i=0;i<4;++i) s += (a[i]-b[i])*(a[i]-b[i]); return std::sqrt(s); }
static double len(const double* a, const double* b, unsigned n){ double s = 0; for (unsigned i=0;i<n;++i) s += (a[i]-b[i])*(a[i]-b[i]); return std::sqrt(s); }
template<class F> static void parts(double slack, bool dual, bool st, F&& f){ const unsigned sp = 8; double a[2*sp], b[2*sp], a2[2*sp], b2[2*sp]; for (unsigned k=0;k<2*sp;++k) { a[k] = vf::any_real("a",k); b[k] = vf::any_real("b",k); a2[k] = vf::any_real("a2",k); b2[k] = vf::any_real("b2",k); } double w[3]; for (long i=0;i<3;++i) w[i] = pick("w",1,i) ? std::abs(vf::any_real("w",i)) : 0; Array2<S> p(2,2,S(9)); unsigned k = pick("perm",1); p.val(1,0) = k; p.val(1,1) = 1-k; bool r = f(a,b,a2,b2,w,p); double c[2][2], sum = 0;
  for (int i=0;i<2;++i) for (int j=0;j<2;++j) { auto cost = [&](const double* x, const double* y){ return w[0]*std::abs(x[0]-y[0]) + w[1]*len(x+1,y+1,3) + w[2]*mat(x+4,y+4); }; c[i][j] = cost(a+i*sp,b+j*sp) + (dual ? cost(a2+i*sp,b2+j*sp) : 0); sum += c[i][j]; } if (!r) { vf_check(sum==0, "only identical objects can not be assigned"); return; }
  unsigned i0 = unsigned(p.val(0,0)), i1 = unsigned(p.val(0,1)), j0 = k, j1 = 1-k; vf_check(i0<2 && i1<2 && i0!=i1, "the result is a permutation"); if (st) vf_check(!(c[i0][j1]<c[i0][j0]-1e-9 && c[i0][j1]<c[i1][j1]-1e-9) && !(c[i1][j0]<c[i1][j1]-1e-9 && c[i1][j0]<c[i0][j0]-1e-9), "objects are matched stably"); else vf_check(c[i0][j0]+c[i1][j1] <= c[i0][j1]+c[i1][j0] + slack*sum + 1e-9, "scalars, vectors and matrices all count"); }
VF_NATIVE(munkres_parts){ parts(0, false, false, [](double* a, double* b, double*, double*, double* w, Array2<S>& p){ return munkres_permutation<double,double,unsigned>(a,b,{{1u,3u,4u}},w[0],w[1],w[2],8,2,p,0,1,1); }); }
VF_NATIVE(jv_parts){ parts(2e-4, false, false, [](double* a, double* b, double*, double*, double* w, Array2<S>& p){ return jv_permutation<double,double,unsigned>(a,b,{{1u,3u,4u}},w[0],w[1],w[2],8,2,p,0,1,1); }); }
VF_NATIVE(sm_parts){ parts(0, false, true, [](double* a, double* b, double*, double*, double* w, Array2<S>& p){ return sm_permutation<double,double,unsigned>(a,b,{{1u,3u,4u}},w[0],w[1],w[2],8,2,p,0,1,1); }); }
VF_NATIVE(jv_dual_parts){ parts(2e-4, true, false, [](double* a, double* b, double* a2, double* b2, double* w, Array2<S>& p){ return jv_permutation<double,double,double,unsigned>(a,a2,b,b2,{{1u,3u,4u}},{{1u,3u,4u}},w[0],w[1],w[2],8,8,2,p,0,1,1); }); }
VF_ENTRY(jv_fill){ std::vector<double> c; double d[4], sum=0; for (long k=0;k<4;++k) { d[k] = entry(k); if (vf_native() && d[k]<0) d[k] = -d[k]; vf_assume(d[k] >= 0); vf_assume(d[k] < 1e6); c.push_back(d[k]); sum += d[k]; } std::vector<int> r, s, l; vf_check(jv_permutation_fill(c, r) && jv_permutation_fill(c, s, l), "succeeds"); auto q = jv_permutation<int,double>(c); vf_check(r.size()==2 && s.size()==2 && l.size()==2 && q.size()==2 && perm(r.data(),2), "one column for every row"); vf_check(r[0]==s[0] && r[1]==s[1] && q[0]==r[0] && q[1]==r[1] && l[s[0]]==0 && l[s[1]]==1, "all variants agree"); vf_check(least(d,r.data(),2,2*sum/10000+(vf_native()?1e-9:0)), "with least cost"); }

//! * {"unroll": 16, "time": 200}
//! nested_loops {"what": "all shapes with up to 4 dimensions of up to 4", "trials": 1500, "ntime": 20}
//! broadcast_loops {"what": "all pairs of shapes with up to 4 dimensions of up to 4", "trials": 1500, "ntime": 20}
#include "verif.h"
#include <string>
#include "subscript.hpp"
using namespace brille; using U = unsigned; using V = std::vector<U>; using A = std::array<U,2>;
static U dim(const char* n, long i, int64_t hi=60000){ U v = vf::any_int<U>(n,1,hi,i); if (vf_native() && vf::any_bool("small",i)) v = v%4+1; return v; }
template<class S> static bool eq(const S& a, const S& b, size_t n){ bool e = true; for (size_t i=0;i<n;++i) e = vf_and(e, a[i]==b[i]); return e; }
// row-order successor of s in a box of the given shape; the first free dimension runs to its size (the end)
template<class S> static S next(S s, const S& sh, const bool* fx, size_t n){
  size_t first = n; for (size_t i=n;i--;) if (!fx[i]) first = i;
  for (size_t d=n; d--;) if (!fx[d]) { if (d != first && s[d]+1 == sh[d]) s[d] = 0; else { s[d] += 1; return s; } } return s; }

// ---- iteration over one shape
template<class It, class S, size_t N> static void step(S sh, S in, S cur, bool usefix){
  bool fx[N]; for (size_t i=0;i<N;++i) { fx[i] = usefix && in[i] < sh[i]; if (fx[i]) cur[i] = in[i]; else vf_assume(cur[i] < sh[i]); }
  bool all = true; for (size_t i=0;i<N;++i) all = all && fx[i];
  if (all) { vf_check(vf::throws([&]{ It x(sh, in); }), "fixing every dimension is reported"); return; }
  It it = usefix ? It(sh, in) : It(sh); *it = cur; S want = next(cur, sh, fx, N); ++it;
  vf_check(eq(*it, want, N), "the next subscript in row order with the fixed dimensions left alone"); vf_check(eq(it.shape(), sh, N), "the shape stays"); vf_check(it.ndim()==N, "number of dimensions");
  It b = (usefix ? It(sh, in) : It(sh)).begin(); for (size_t i=0;i<N;++i) vf_check((*b)[i]==(fx[i]?in[i]:0u), "begin: zero in all free dimensions");
  It e = (usefix ? It(sh, in) : It(sh)).end(); size_t first = N; for (size_t i=N;i--;) if (!fx[i]) first = i;
  for (size_t i=0;i<N;++i) vf_check((*e)[i]==(fx[i]?in[i]:i==first?sh[i]:0u), "end: one past the last along the first free dimension");
  It c(it), d(b); d = it; vf_check(vf_and(eq(*c,want,N), eq(*d,want,N)), "copies are at the same place"); vf_check(vf_and(c==it, !(c!=it)), "and compare equal");
  ++c; vf_check(eq(*c, next(want,sh,fx,N), N), "copies continue like the original"); ++d; vf_check(eq(*d, *c, N), "assigned iterators continue like the original"); S big = sh; for (size_t i=0;i<N;++i) big[i] += 1; It g(big); g = it; ++g; It ge = g.end(); vf_check(vf_and(eq(*g,*c,N), vf_and(eq(*ge,*e,N), eq(g.shape(),sh,N))), "also when assigned over an iterator of another shape"); vf_check(c!=it, "successive places differ");
  vf_check(vf_iff(it==e, eq(*it,*e,N)), "iterators are equal iff their subscripts are");
}
VF_ENTRY(step_1){ step<SubIt<U>,V,1>(V{dim("n",0)}, V{vf::any_int<U>("i",0,100000,0)}, V{vf::any_int<U>("c",0,60000,0)}, vf::any_bool("fix")); }
VF_ENTRY(step_2){ step<SubIt<U>,V,2>(V{dim("n",0),dim("n",1)}, V{vf::any_int<U>("i",0,100000,0),vf::any_int<U>("i",0,100000,1)}, V{vf::any_int<U>("c",0,60000,0),vf::any_int<U>("c",0,60000,1)}, vf::any_bool("fix")); }
VF_ENTRY(step_3){ V n, i, c; for (long k=0;k<3;++k){ n.push_back(dim("n",k)); i.push_back(vf::any_int<U>("i",0,100000,k)); c.push_back(vf::any_int<U>("c",0,60000,k)); if (vf_native() && vf::any_bool("last",k)) c[k] = n[k]-1; } step<SubIt<U>,V,3>(n, i, c, vf::any_bool("fix")); }
VF_ENTRY(step_array2){ A n, i, c; for (long k=0;k<2;++k){ n[k]=dim("n",k); i[k]=vf::any_int<U>("i",0,100000,k); c[k]=vf::any_int<U>("c",0,60000,k); if (vf_native() && vf::any_bool("last",k)) c[k] = n[k]-1; } step<SubIt2<U>,A,2>(n, i, c, vf::any_bool("fix")); }
VF_ENTRY(size_differs){ V a{dim("n",0),dim("n",1)}, b{dim("m",0)}; SubIt<U> x(a), y(b); vf_check(!(x==y), "iterators over different numbers of dimensions are never equal"); vf_check(x!=y, "they compare unequal"); }
VF_ENTRY(fixed){
  int i = vf::any_int<int>("i",-100000,100000); unsigned u = vf::any_int<unsigned>("u",0,100000), n = vf::any_int<unsigned>("n",0,60000);
  vf_check(vf_iff(is_fixed(i,n), vf_and(i>=0, int64_t(i)<int64_t(n))), "a signed subscript fixes a dimension iff it is a valid subscript"); vf_check(vf_iff(is_fixed(u,n), u<n), "an unsigned subscript fixes a dimension iff it is a valid subscript");
}
// ---- iteration over two shapes
template<class It, class S, size_t N> static void bstep(S a, S b, S cur, S zero){
  bool ok = true; S o = zero, s0 = zero, s1 = zero; for (size_t i=0;i<N;++i) { ok = ok && (a[i]==b[i] || a[i]==1 || b[i]==1); o[i] = a[i]==1 ? b[i] : a[i]; }
  if (!ok) { vf_check(vf::throws([&]{ It x(a,b); }), "shapes which do not broadcast are reported"); return; }
  It x(a,b); vf_check(eq(x.shape(), o, N), "the common shape takes the larger size of every dimension"); vf_check(x.ndim()==N, "number of dimensions");
  for (size_t i=0;i<N;++i) { vf_assume(cur[i] < o[i]); s0[i] = a[i]==1 ? 0 : cur[i]; s1[i] = b[i]==1 ? 0 : cur[i]; }
  bool fx[N] = {}; S want = next(cur, o, fx, N); It it(a, b, o, s0, s1, cur); auto before = *it; vf_check(vf_and(eq(std::get<0>(before),cur,N), vf_and(eq(std::get<1>(before),s0,N), eq(std::get<2>(before),s1,N))), "dereferencing gives the outer, first and second subscripts"); ++it; auto t = *it;
  vf_check(eq(std::get<0>(t), want, N), "the outer subscript advances in row order"); bool end = want[0]==o[0];
  for (size_t i=0;i<N;++i) { vf_check(vf_or(end, std::get<1>(t)[i]==(a[i]==1?0u:want[i])), "the first subscript follows the outer one except along its singleton dimensions"); vf_check(vf_or(end, std::get<2>(t)[i]==(b[i]==1?0u:want[i])), "the second subscript follows the outer one except along its singleton dimensions"); }
  It e = x.end(), f = x.begin(); vf_check(vf_iff(it==e, end), "the end is reached exactly after the last subscript"); vf_check(vf_iff(it!=e, !end), "unequal is the negation of equal");
  auto z = *f; bool isz = true; for (size_t i=0;i<N;++i) isz = vf_and(isz, vf_and(std::get<0>(z)[i]==0, vf_and(std::get<1>(z)[i]==0, std::get<2>(z)[i]==0))); vf_check(isz, "begin: all subscripts zero"); vf_check(f!=e, "a loop over non-empty shapes runs at least once"); vf_check(eq(f.shape(),o,N), "begin keeps the shape"); ++f; vf_check(eq(std::get<0>(*f), next(zero,o,fx,N), N), "and iterates like the original");
}
static U other(U a, long i){ U k = vf::any_int<U>("kind",0,2,i); U b = vf::any_int<U>("m",1,60000,i); if (vf_native() && k==0) b = a; if (vf_native() && k==1) b = 1; return b; }
VF_ENTRY(broadcast_1){ V a{dim("n",0)}; bstep<BroadcastIt<U>,V,1>(a, V{other(a[0],0)}, V{vf::any_int<U>("c",0,60000,0)}, V{0}); }
static U tam(U c, U n, long k){ return vf_native() ? vf::any_bool("last",k) ? n-1 : c%n : c; }
VF_ENTRY(broadcast_2){ V a{dim("n",0),dim("n",1)}, b{other(a[0],0),other(a[1],1)}; V c; for (long k=0;k<2;++k) c.push_back(tam(vf::any_int<U>("c",0,60000,k), a[k]>b[k]?a[k]:b[k], k)); bstep<BroadcastIt<U>,V,2>(a, b, c, V{0,0}); }
VF_ENTRY(broadcast_3){ V a{dim("n",0),dim("n",1),dim("n",2)}, b{other(a[0],0),other(a[1],1),other(a[2],2)}; V c; for (long k=0;k<3;++k) c.push_back(tam(vf::any_int<U>("c",0,60000,k), a[k]>b[k]?a[k]:b[k], k)); bstep<BroadcastIt<U>,V,3>(a, b, c, V{0,0,0}); }
VF_ENTRY(broadcast_array2){ A a{dim("n",0),dim("n",1)}, b{other(a[0],0),other(a[1],1)}; A c; for (long k=0;k<2;++k) c[k] = tam(vf::any_int<U>("c",0,60000,k), a[k]>b[k]?a[k]:b[k], k); bstep<BroadcastIt2<U>,A,2>(a, b, c, A{0,0}); }
VF_ENTRY(broadcast_size){ V a{dim("n",0,1000),dim("n",1,1000),dim("n",2,1000)}, b{1,a[1],1}; BroadcastIt<U> x(a,b); vf_check(x.size()==a[0]*a[1]*a[2], "the number of subscripts is the product of the common shape"); A c{a[0],a[1]}, d{1,a[1]}; vf_check(BroadcastIt2<U>(c,d).size()==a[0]*a[1], "the number of subscript pairs is the product of the common shape"); }
// ---- linear index <-> subscript
VF_ENTRY(array2_row){ U n = dim("n",0), m = dim("n",1), i = vf::any_int<U>("i",0,60000,0), j = vf::any_int<U>("i",0,60000,1); if (vf_native()) { i%=n; j%=m; } vf_assume(i<n && j<m);
  A st{m,1}; U l = sub2lin(A{i,j}, st); vf_check(l==i*m+j, "linear index of a row-ordered array"); vf_check(sub2lin(i,j,st)==l, "the same from separate subscripts"); A s = lin2sub(l, st); vf_check(vf_and(s[0]==i, s[1]==j), "the subscripts come back from the linear index"); }
VF_ENTRY(array2_col){ U n = dim("n",0), m = dim("n",1), i = vf::any_int<U>("i",0,60000,0), j = vf::any_int<U>("i",0,60000,1); if (vf_native()) { i%=n; j%=m; } vf_assume(i<n && j<m && n>1); // (strides 1,1 mean row order)
  A st{1,n}; U l = sub2lin(A{i,j}, st); vf_check(l==i+j*n, "linear index of a column-ordered array"); A s = lin2sub(l, st); vf_check(vf_and(s[0]==i, s[1]==j), "the subscripts come back from the linear index"); }
VF_ENTRY(vector_row){ U n = dim("n",0,1000), m = dim("n",1,1000), p = dim("n",2,1000), i = vf::any_int<U>("i",0,1000,0), j = vf::any_int<U>("i",0,1000,1), k = vf::any_int<U>("i",0,1000,2); if (vf_native()) { i%=n; j%=m; k%=p; } vf_assume(i<n && j<m && k<p);
  V st{m*p,p,1}; U l = sub2lin(V{i,j,k}, st); vf_check(l==i*m*p+j*p+k, "linear index of a row-ordered array"); V s = lin2sub(l, st); vf_check(vf_and(s[0]==i, vf_and(s[1]==j, s[2]==k)), "the subscripts come back from the linear index"); }
VF_ENTRY(vector_col){ U n = dim("n",0,1000), m = dim("n",1,1000), p = dim("n",2,1000), i = vf::any_int<U>("i",0,1000,0), j = vf::any_int<U>("i",0,1000,1), k = vf::any_int<U>("i",0,1000,2); if (vf_native()) { i%=n; j%=m; k%=p; } vf_assume(i<n && j<m && k<p && n>1);
  V st{1,n,n*m}; U l = sub2lin(V{i,j,k}, st); vf_check(l==i+j*n+k*n*m, "linear index of a column-ordered array"); V s = lin2sub(l, st); vf_check(vf_and(s[0]==i, vf_and(s[1]==j, s[2]==k)), "the subscripts come back from the linear index"); }
VF_ENTRY(vector_1){ U i = vf::any_int<U>("i",0,100000); V s = lin2sub(i, V{1}); vf_check(vf_and(s.size()==1, s[0]==i), "one dimension: the subscript is the linear index"); vf_check(lin2sub(i, V{}).empty(), "no dimension: no subscript"); }
// ---- complete loops
#ifndef VF_SYM
static std::vector<V> all(const V& sh){ std::vector<V> o{V()}; for (U n: sh){ std::vector<V> p; for (auto& v: o) for (U i=0;i<n;++i){ V w(v); w.push_back(i); p.push_back(w); } o = p; } return o; }
VF_NATIVE(nested_loops){
  size_t d = vf::any_int<size_t>("d",1,4); V sh, in; for (size_t i=0;i<d;++i){ sh.push_back(vf::any_int<U>("n",1,4,i)); in.push_back(vf::any_int<U>("i",0,8,i)); } bool fx = vf::any_bool("fix"), any = !fx; for (size_t i=0;i<d;++i) any = any || in[i]>=sh[i]; if (!any) return;
  std::vector<V> want; for (auto& v: all(sh)) { bool k = true; for (size_t i=0;i<d;++i) k = k && (!fx || in[i]>=sh[i] || v[i]==in[i]); if (k) want.push_back(v); }
  std::vector<V> got; if (fx) { SubIt<U> r(sh,in); for (auto& x: r) { got.push_back(x); if (got.size()>want.size()) break; } } else { SubIt<U> r(sh); for (auto& x: r) { got.push_back(x); if (got.size()>want.size()) break; } } vf_check(got==want, "a loop visits every subscript once, in the order of nested loops");
  if (d==2) { got.clear(); A s{sh[0],sh[1]}, n{in[0],in[1]}; if (fx) { SubIt2<U> r(s,n); for (auto& x: r) { got.push_back({x[0],x[1]}); if (got.size()>want.size()) break; } } else { SubIt2<U> r(s); for (auto& x: r) { got.push_back({x[0],x[1]}); if (got.size()>want.size()) break; } } vf_check(got==want, "a loop over two dimensions visits every subscript once, in the order of nested loops"); }
}
VF_NATIVE(broadcast_loops){
  size_t d = vf::any_int<size_t>("d",1,4); V a, b, o; for (size_t i=0;i<d;++i){ U n = vf::any_int<U>("n",1,4,i); int k = vf::any_int<int>("k",0,2,i); a.push_back(k==0?1:n); b.push_back(k==1?1:n); o.push_back(n); }
  auto want = all(o); size_t i = 0; bool ok = true; for (auto [x,y,z]: BroadcastIt<U>(a,b)) { if (i>=want.size()) { ++i; break; } for (size_t j=0;j<d;++j) ok = ok && x[j]==want[i][j] && y[j]==(a[j]>1?x[j]:0) && z[j]==(b[j]>1?x[j]:0); ++i; } vf_check(ok && i==want.size(), "a broadcast loop visits every subscript once, in the order of nested loops");
  if (d==2) { i=0; A p{a[0],a[1]}, q{b[0],b[1]}; for (auto [x,y,z]: BroadcastIt2<U>(p,q)) { if (i>=want.size()) { ++i; break; } for (size_t j=0;j<2;++j) ok = ok && x[j]==want[i][j] && y[j]==(a[j]>1?x[j]:0) && z[j]==(b[j]>1?x[j]:0); ++i; } vf_check(ok && i==want.size(), "a two-dimensional broadcast loop visits every subscript once, in the order of nested loops"); }
}
#endif

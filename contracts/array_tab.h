// reference tables and arrays holding them, shared by the array contracts
#pragma once
#include "verif.h"
#include "array_.hpp"
#include "array_functions.hpp"
using namespace brille; template<class A> using Sh = decltype(std::declval<A>().shape());
// ---- a reference table of n x m values and an array holding them in one of six layouts
struct Sz { unsigned n, m; };
static Sz size(unsigned hi=3){ Sz s; unsigned n = vf::any_int<unsigned>("n",1,hi), m = vf::any_int<unsigned>("m",1,hi); for (s.n=1; s.n<n; ++s.n); for (s.m=1; s.m<m; ++s.m); return s; }
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
template<class T> struct Tab { unsigned n, m; T v[4][4]; };
template<class T> static Tab<T> table(Sz s, const char* nm="v"){ Tab<T> t; t.n=s.n; t.m=s.m; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) t.v[i][j] = vf::any<T>(nm, i*4+j); return t; }
template<class A, class T> static A raw(T* d, unsigned num, unsigned n, unsigned m, unsigned s0, unsigned s1, bool own=true){ Sh<A> sh{n,m}, st{s0,s1}; return A(d,num,own,sh,st); }
/// layouts: 0 row order, 1 column order, 2 rows of a larger row-ordered array, 3 a corner of a larger row-ordered array, 4 a corner of a larger column-ordered one, 5 rows of a larger column-ordered one
template<class A, class T> static A make(const Tab<T>& t, unsigned lay, T fill=T(77)){
  unsigned N = t.n + (lay>1), M = t.m + (lay==3||lay==4), oi = N-t.n, oj = M-t.m; bool row = lay==0||lay==2||lay==3;
  T* d = new T[N*M]; for (unsigned k=0;k<N*M;++k) d[k] = fill;
  for (unsigned i=0;i<t.n;++i) for (unsigned j=0;j<t.m;++j) d[row ? (i+oi)*M+(j+oj) : (i+oi)+(j+oj)*N] = t.v[i][j];
  A a = raw<A>(d, N*M, N, M, row?M:1, row?1:N); if (lay<2) return a;
  Sh<A> from{oi,oj}; return (lay==2||lay==5) ? a.view(1,N) : a.view(from); }
template<class A> static auto at(const A& a, unsigned i, unsigned j){ Sh<A> s{i,j}; return a[s]; }
template<class A, class T> static bool is(const A& a, const Tab<T>& t){ bool e = a.size(0)==t.n && a.size(1)==t.m; if (!e) return false; for (unsigned i=0;i<t.n;++i) for (unsigned j=0;j<t.m;++j) e = vf_and(e, vf_eq(at(a,i,j), t.v[i][j])); return e; }
template<class A, class T> static bool rowis(const A& a, unsigned i, const Tab<T>& t, unsigned k){ bool e = true; for (unsigned j=0;j<t.m;++j) e = vf_and(e, vf_eq(at(a,i,j), t.v[k][j])); return e; }
using D = Array2<double>; using N = Array<double>; using I2 = Array2<int>; using In = Array<int>;


//! * {"unroll": 40, "time": 300, "nsw": "check"}
#include "array_tab.h"
namespace af = brille::approx_float;
static cmp which(long i=-1){ unsigned k = pick("cmp",7,i); const cmp c[] = {cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::nle,cmp::nge,cmp::neq}; return c[k]; }
/// the meaning of each comparison, given tolerant equality
template<class T> static bool holds(cmp c, T a, T b, bool e){ switch (c) { case cmp::lt: return vf_and(!e,a<b); case cmp::gt: return vf_and(!e,a>b); case cmp::le: return vf_or(e,a<b); case cmp::ge: return vf_or(e,a>b); case cmp::eq: return e; case cmp::nle: return vf_and(!e,a>b); case cmp::nge: return vf_and(!e,a<b); default: return !e; } }
static double near(double a, const char* n, long i=-1){ if (vf_native()) { const double d[] = {0,1e-16,1e-14,1e-3,1}; unsigned k = vf::any_int<unsigned>("near",0,4,i); double r = vf::any_real(n,i); return vf::any_bool("other",i) ? r : vf::any_bool("sign",i) ? a+d[k] : a-d[k]; } return vf::any_real(n,i); }
static bool veccmp(cmp c){ return c==cmp::neq || c==cmp::nle || c==cmp::nge; }

// ---- comparisons of scalars and vectors
VF_ENTRY(compare_real){ cmp c = which(); double a = vf::any_real("a"), b = near(a,"b"), tol = vf::any_real("tol",0,1); Comparer<double,double> op(c, tol, tol); vf_check(vf_iff(op(a,b), holds(c,a,b,af::scalar(a,b,tol,tol))), "comparisons combine tolerant equality with order"); Comparer<double,double> q(c); vf_check(vf_iff(q(a,b), holds(c,a,b,af::scalar(a,b))), "with the default tolerance"); }
VF_ENTRY(compare_int){ cmp c = which(); int a = vf::any_int<int>("a",-100000,100000), b = vf::any_int<int>("b",-100000,100000); if (vf_native() && vf::any_bool("same")) b = a; Comparer<int,int> op(c); vf_check(vf_iff(op(a,b), holds(c,a,b,a==b)), "integer comparisons are exact"); }
VF_ENTRY(compare_unsigned){ cmp c = which(); unsigned a = vf::any_int<unsigned>("a",0,100000), b = vf::any_int<unsigned>("b",0,100000); if (vf_native() && vf::any_bool("same")) b = a; Comparer<unsigned,unsigned> op(c); vf_check(vf_iff(op(a,b), holds(c,a,b,a==b)), "unsigned comparisons are exact"); }
VF_ENTRY(compare_negated){ double a = vf::any_real("a"), b = near(a,"b"); using C = Comparer<double,double>; C lt(cmp::lt), gt(cmp::gt), le(cmp::le), ge(cmp::ge), eq(cmp::eq), ne(cmp::neq), nle(cmp::nle), nge(cmp::nge);
  vf_check(int(lt(a,b))+int(gt(a,b))+int(eq(a,b))==1, "exactly one of less, equal and greater holds"); vf_check(vf_iff(ne(a,b), !eq(a,b)), "unequal is the negation of equal"); vf_check(vf_iff(nle(a,b), !le(a,b)), "not-less-equal is the negation of less-equal"); vf_check(vf_iff(nge(a,b), !ge(a,b)), "not-greater-equal is the negation of greater-equal"); vf_check(vf_and(vf_iff(lt(a,b), gt(b,a)), vf_iff(le(a,b), ge(b,a))), "exchanging the sides reverses the order"); }
VF_ENTRY(compare_vector){ cmp c = which(); unsigned n = pick("n",3), sa = 1+pick("sa",1), sb = 1+pick("sb",1); int a[8], b[8]; for (long i=0;i<8;++i) { a[i] = vf::any_int<int>("a",-9,9,i); b[i] = vf::any_int<int>("b",-9,9,i); if (vf_native() && vf::any_int<int>("same",0,3,i)) b[i] = a[i]; } Comparer<int,int> op(c); bool all = true, any = false; for (unsigned i=0;i<n;++i) { bool h = holds(c,a[i*sa],b[i*sb],a[i*sa]==b[i*sb]); all = vf_and(all,h); any = vf_or(any,h); }
  bool r = op(n, a, sa, b, sb); vf_check(vf_iff(r, veccmp(c) ? any : all), "a vector is X if all its elements are, and not X if any is not"); if (sa==1 && sb==1) vf_check(vf_iff(op(n,a,b), r), "contiguous vectors have stride one"); }
VF_ENTRY(compare_copies){ cmp c = which(); double a = vf::any_real("a"), b = near(a,"b"), tol = vf::any_real("tol",0,1), v[2] = {a,b}, w[2] = {b,b}; auto* p = new Comparer<double,double>(c, tol, tol); bool s = (*p)(a,b), u = (*p)(2,v,w); Comparer<double,double> q(*p); delete p; vf_check(vf_and(vf_iff(q(a,b),s), vf_iff(q(2,v,w),u)), "copies compare like the original"); }
VF_ENTRY(compare_unknown){ vf_check(vf::throws([]{ Comparer<double,double> op(cmp::le_ge); }), "comparisons without a meaning for single values are reported"); }
VF_ENTRY(binary){ double a = vf::any_real("a"), b = vf::any_real("b"); using B = RawBinaryOperator<double>; vf_check(vf_eq(B(ops::plus)(a,b), a+b), "plus"); vf_check(vf_eq(B(ops::minus)(a,b), a-b), "minus"); vf_check(vf_eq(B(ops::times)(a,b), a*b), "times"); if (b != 0) vf_check(vf_eq(B(ops::rdiv)(a,b), a/b), "divide"); if (a != 0) vf_check(vf_eq(B(ops::ldiv)(a,b), b/a), "left divide");
  double x[6], y[6], z[6], q[3]; for (long i=0;i<6;++i) { x[i] = vf::any_real("x",i); y[i] = vf::any_real("y",i); z[i] = 7; } B p(ops::minus); p(3,q,x,y); p(3,z,2,x,1,y,2); bool e = true; for (int i=0;i<3;++i) e = vf_and(e, vf_and(vf_eq(q[i], x[i]-y[i]), vf_and(vf_eq(z[2*i], x[i]-y[2*i]), z[2*i+1]==7))); vf_check(e, "vectors element by element, with strides"); }

// ---- element-wise arithmetic
template<class F> static void arith(Sz s, unsigned la, unsigned lb, const char* what, F&& f){
  unsigned k = pick("broadcast",3); Tab<double> t = table<double>(s), u = table<double>(Sz{k&1?1:s.n, k&2?1:s.m},"u"); if (k==3 && s.n+s.m>3) return; D a = make<D>(t,la), b = make<D>(u,lb);
  D c = f(a,b), d = f(b,a); bool e = c.size(0)==s.n && c.size(1)==s.m, g = e && d.shape()==c.shape(); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { double x = t.v[i][j], y = u.v[i%u.n][j%u.m]; e = vf_and(e, vf_eq(at(c,i,j), f(x,y))); g = vf_and(g, vf_eq(at(d,i,j), f(y,x))); } vf_check(e, what); vf_check(g, "with the broadcast operand first"); vf_check(vf_and(is(a,t), is(b,u)), "operands are unchanged"); }
struct Add { template<class X, class Y> auto operator()(const X& x, const Y& y) const { return x+y; } }; struct Sub { template<class X, class Y> auto operator()(const X& x, const Y& y) const { return x-y; } }; struct Mul { template<class X, class Y> auto operator()(const X& x, const Y& y) const { return x*y; } };
VF_ENTRY(array_add){ arith(size(2), pick("la",5), pick("lb",1), "sums element by element", Add()); } VF_ENTRY(array_subtract){ arith(size(2), pick("la",1), pick("lb",5), "differences element by element", Sub()); } VF_ENTRY(array_multiply){ arith(size(2), pick("la",5), 0, "products element by element", Mul()); }
VF_ENTRY(array_divide){ Sz s = size(2); Tab<double> t = table<double>(s), u = table<double>(Sz{1,s.m},"u"); for (unsigned j=0;j<s.m;++j) { vf_assume(u.v[0][j] != 0); vf_tame(u.v[0][j]*u.v[0][j] > 1e-6); } D a = make<D>(t,pick("la",5)), b = make<D>(u,0), c = a/b; bool e = c.shape()==a.shape(); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) e = vf_and(e, vf_eq(at(c,i,j), t.v[i][j]/u.v[0][j])); vf_check(e, "quotients element by element"); vf_check(is(a,t), "the dividend is unchanged"); }
VF_ENTRY(broadcast_reported){ Tab<double> t = table<double>(Sz{2,3}), u = table<double>(Sz{3,2},"u"); D a = make<D>(t,pick("la",5)), b = make<D>(u,0); vf_check(vf::throws([&]{ a+b; }) && vf::throws([&]{ a-b; }) && vf::throws([&]{ a*b; }) && vf::throws([&]{ a/b; }), "shapes which do not broadcast are reported"); vf_check(vf::throws([&]{ D c(a.decouple()); c += b; }), "also in place"); }
VF_ENTRY(array_scalar){ Sz s = size(3); Tab<double> t = table<double>(s); D a = make<D>(t,pick("la",5)); double x = vf::any_real("x"); unsigned k = pick("op",6); D c = k==0 ? a+x : k==1 ? a-x : k==2 ? a*x : k==3 ? x+a : k==4 ? x-a : k==5 ? x*a : -a; bool e = c.shape()==a.shape(); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { double v = t.v[i][j]; e = vf_and(e, vf_eq(at(c,i,j), k==0||k==3 ? v+x : k==1 ? v-x : k==4 ? x-v : k==6 ? -v : v*x)); } vf_check(e, "arithmetic with a scalar applies to every element"); vf_check(is(a,t), "the operand is unchanged"); vf_check(c.ismutable(), "the result can be changed"); }
VF_ENTRY(array_scalar_int){ Sz s = size(2); Tab<int> t = table<int>(s); I2 a = make<I2>(t,pick("la",5)); int x = vf::any_int<int>("x",-1000,1000); I2 c = a+x, d = x-a, f = a*x; D g = a*0.5; bool e = true; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { int v = t.v[i][j]; e = vf_and(e, vf_and(vf_and(at(c,i,j)==v+x, at(d,i,j)==x-v), vf_and(at(f,i,j)==v*x, vf_eq(at(g,i,j), 0.5*v)))); } vf_check(e, "integer arithmetic with a scalar, promoted when the scalar is real"); }
VF_ENTRY(array_scalar_divide){ Sz s = size(2); Tab<double> t = table<double>(s); D a = make<D>(t,pick("la",5)); double x = vf::any_real("x"); vf_assume(x != 0); vf_tame(x*x > 1e-6); D c = a/x; bool e = c.shape()==a.shape(); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) e = vf_and(e, vf_eq(at(c,i,j), t.v[i][j]/x)); vf_check(e, "quotients by a scalar"); vf_check(is(a,t), "the operand is unchanged"); }
VF_ENTRY(in_place){ Sz s = size(2); unsigned k = pick("op",5), lay = pick("la",1), lb = pick("lb",5); bool row = pick("row",1); Tab<double> t = table<double>(s), u = table<double>(Sz{row?1:s.n,s.m},"u"); D a = make<D>(t,lay), c(a), b = make<D>(u,lb); double x = vf::any_real("x"); if (k==0) a += x; else if (k==1) a -= x; else if (k==2) a *= x; else if (k==3) a += b; else if (k==4) a -= b; else a *= b;
  for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { double& v = t.v[i][j]; double y = k<3 ? x : u.v[i%u.n][j]; v = k%3==0 ? v+y : k%3==1 ? v-y : v*y; } vf_check(is(a,t), "in-place arithmetic changes every element"); vf_check(is(c,t), "seen through shared copies"); vf_check(is(b,u), "the operand is unchanged"); D v = a.view(0); vf_check(vf::throws([&]{ v += x; }) && vf::throws([&]{ v *= b; }), "immutable arrays can not be changed"); vf_check(is(a,t), "and are not"); }
VF_ENTRY(array_stdarray){ unsigned n = 1+pick("n",1), la = pick("la",5); Tab<double> t = table<double>(Sz{n,3}); D a = make<D>(t,la); std::array<double,3> x; for (long j=0;j<3;++j) x[j] = vf::any_real("x",j); D c = a+x, d = a-x, f = a*x; bool e = true; for (unsigned i=0;i<n;++i) for (unsigned j=0;j<3;++j) { double v = t.v[i][j]; e = vf_and(e, vf_and(vf_eq(at(c,i,j),v+x[j]), vf_and(vf_eq(at(d,i,j),v-x[j]), vf_eq(at(f,i,j),v*x[j])))); } vf_check(e, "a fixed vector combines with every row"); vf_check(is(a,t), "the operand is unchanged"); }
// ---- reductions
template<class A> static void reducing(unsigned lay){ Sz s = size(3); Tab<double> t = table<double>(s); A a = make<A>(t,lay); A s0 = a.sum(0), s1 = a.sum(1), p0 = a.prod(0), p1 = a.prod(1); bool e = s0.size(0)==1 && s0.size(1)==s.m && s1.size(0)==s.n && s1.size(1)==1 && p0.shape()==s0.shape() && p1.shape()==s1.shape();
  for (unsigned j=0;e && j<s.m;++j) { double x = 0, y = 1; for (unsigned i=0;i<s.n;++i) { x += t.v[i][j]; y *= t.v[i][j]; } e = vf_and(e, vf_and(vf_eq(at(s0,0,j),x), vf_eq(at(p0,0,j),y))); } for (unsigned i=0;i<s.n;++i) { double x = 0, y = 1; for (unsigned j=0;j<s.m;++j) { x += t.v[i][j]; y *= t.v[i][j]; } e = vf_and(e, vf_and(vf_eq(at(s1,i,0),x), vf_eq(at(p1,i,0),y))); } vf_check(e, "sums and products along one dimension");
  if constexpr (std::is_same_v<A,D>) { double x = 0, y = 1; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { x += t.v[i][j]; y *= t.v[i][j]; } vf_check(vf_and(vf_eq(a.sum(),x), vf_eq(a.prod(),y)), "sum and product of all elements"); } vf_check(is(a,t), "the array is unchanged"); }
VF_ENTRY(reduce_2){ reducing<D>(pick("layout",5)); } VF_ENTRY(reduce_n){ reducing<N>(pick("layout",3)); }
template<class A> static void extremes(unsigned lay){ unsigned k = pick("shape",3); Sz s{k==0?3u:k==1?1u:2u, k==0?1u:k==1?3u:k==2?1u:2u}; Tab<double> t = table<double>(s); double big = 1e300; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) vf_assume(vf_and(t.v[i][j]<big, t.v[i][j]>-big)); A a = make<A>(t,lay), mn = a.min(0), mx = a.max(1); bool e = mn.size(0)==1 && mn.size(1)==s.m && mx.size(0)==s.n && mx.size(1)==1;
  for (unsigned j=0;e && j<s.m;++j) { bool in = false, le = true; double m = at(mn,0,j); for (unsigned i=0;i<s.n;++i) { in = vf_or(in, m==t.v[i][j]); le = vf_and(le, m<=t.v[i][j]); } e = vf_and(e, vf_and(in,le)); } for (unsigned i=0;i<s.n;++i) { bool in = false, ge = true; double m = at(mx,i,0); for (unsigned j=0;j<s.m;++j) { in = vf_or(in, m==t.v[i][j]); ge = vf_and(ge, m>=t.v[i][j]); } e = vf_and(e, vf_and(in,ge)); } vf_check(e, "extremes are elements which bound the others"); }
VF_ENTRY(extremes_2){ extremes<D>(pick("layout",5)); } VF_ENTRY(extremes_n){ extremes<N>(pick("layout",2)); }
VF_ENTRY(dot_norm){ Sz s = size(3); Tab<double> t = table<double>(s); D a = make<D>(t,pick("layout",5)); unsigned i = pick("i",s.n-1), j = pick("j",s.n-1); double x = 0, y = 0; for (unsigned k=0;k<s.m;++k) { x += t.v[i][k]*t.v[j][k]; y += t.v[i][k]*t.v[i][k]; } vf_check(vf_eq(a.dot(i,j), x), "the dot product of two rows"); double n = a.norm(i); vf_check(vf_and(vf_eq(n*n, y), n >= 0), "the norm of a row"); }
VF_ENTRY(dot_rows){ Sz s = size(3); Tab<double> t = table<double>(s); D a = make<D>(t,2*pick("layout",1)); unsigned i = pick("i",s.n-1); double y = 0; for (unsigned k=0;k<s.m;++k) y += t.v[i][k]*t.v[i][k]; D nn = norm(a); vf_check(nn.size(0)==s.n && nn.size(1)==1, "one norm per row"); double r = at(nn,i,0); vf_check(vf_and(vf_eq(r*r,y), r>=0), "norms of all rows");
  D dd = dot(a, make<D>(table<double>(Sz{1,s.m},"u"),0)); bool e = dd.size(0)==s.n && dd.size(1)==1; double z = 0; for (unsigned k=0;k<s.m;++k) z += t.v[i][k]*vf::any_real("u",k); vf_check(e, "one dot product per row"); vf_check(vf_eq(at(dd,i,0), z), "dot products with a single vector"); }
VF_ENTRY(cross_rows){ unsigned n = 1+pick("n",1), k = pick("single",2); if (k && n<2) return; Tab<double> t = table<double>(Sz{k==1?1:n,3}), u = table<double>(Sz{k==2?1:n,3},"u"); D c = cross(make<D>(t,2*pick("la",1)), make<D>(u,2*pick("lb",1))); bool e = c.size(0)==n && c.size(1)==3; for (unsigned i=0;i<n;++i) { double *a = t.v[i%t.n], *b = u.v[i%u.n]; e = vf_and(e, vf_and(vf_eq(at(c,i,0),a[1]*b[2]-a[2]*b[1]), vf_and(vf_eq(at(c,i,1),a[2]*b[0]-a[0]*b[2]), vf_eq(at(c,i,2),a[0]*b[1]-a[1]*b[0])))); } vf_check(e, "cross products row by row"); }
VF_ENTRY(rounding){ Sz s = size(2); Tab<double> t = table<double>(s); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { if (vf_native() && vf::any_bool("half",i*4+j)) t.v[i][j] = std::floor(t.v[i][j])+0.5; vf_assume(vf_and(t.v[i][j]<1e6, t.v[i][j]>-1e6)); } D a = make<D>(t,pick("layout",5)); I2 r = a.round(), f = a.floor(), c = a.ceil(); vf_check(r.shape()==a.shape() && f.shape()==a.shape() && c.shape()==a.shape(), "one integer for every element");
  for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { double v = t.v[i][j], x = at(r,i,j), y = at(f,i,j), z = at(c,i,j); vf_check(vf_and(x-v<=0.5, v-x<=0.5), "round gives the nearest integer"); vf_check(vf_and(y<=v, v<y+1), "floor gives the integer below"); vf_check(vf_and(z>=v, v>z-1), "ceil gives the integer above"); } }
VF_ENTRY(absolute){ Sz s = size(2); Tab<double> t = table<double>(s); D a = make<D>(t,pick("layout",5)), b = a.abs(), c = abs(a); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) if (t.v[i][j]<0) t.v[i][j] = -t.v[i][j]; vf_check(vf_and(is(b,t), is(c,t)), "magnitudes of all elements"); }
// ---- searching
template<class T> static unsigned lin(unsigned lay, Sz s, unsigned i, unsigned j){ bool row = lay==0||lay==2||lay==3; return row ? i*s.m+j : i+j*s.n; }
VF_ENTRY(truth){ Sz s = size(2); unsigned lay = pick("layout",5), cap = pick("cap",4), no = s.n*s.m, lim = cap>0 && cap<no ? cap : no; Tab<int> t; t.n=s.n; t.m=s.m; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) t.v[i][j] = int(pick("v",1,i*4+j)); I2 a = make<I2>(t,lay,1); int o[4]; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) o[lin<int>(lay,s,i,j)] = t.v[i][j]; unsigned cnt=0, f=lim, l=lim; for (unsigned k=0;k<lim;++k) if (o[k]) { ++cnt; if (f==lim) f=k; l=k; }
  vf_check(a.count(cap)==cnt, "the number of true elements"); vf_check(a.all(cap)==(cnt==lim), "all true"); vf_check(a.any(cap)==(cnt>0), "any true"); vf_check(a.first(cap)==f, "the first true element"); vf_check(a.last(cap)==l, "the last true element"); }
VF_ENTRY(truth_value){ Sz s = size(2); unsigned lay = pick("layout",5), cap = pick("cap",4), no = s.n*s.m, lim = cap>0 && cap<no ? cap : no; Tab<int> t; t.n=s.n; t.m=s.m; int w = vf::any_int<int>("w",-5,5); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) t.v[i][j] = w+int(pick("v",1,i*4+j)); I2 a = make<I2>(t,lay,w); int o[4]; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) o[lin<int>(lay,s,i,j)] = t.v[i][j]-w; unsigned cnt=0, f=lim, l=lim; for (unsigned k=0;k<lim;++k) if (!o[k]) { ++cnt; if (f==lim) f=k; l=k; }
  vf_check(a.count(w,cap)==cnt, "the number of elements with a value"); vf_check(a.all(w,cap)==(cnt==lim), "all have a value"); vf_check(a.any(w,cap)==(cnt>0), "any has a value"); vf_check(a.first(w,cap)==f, "the first with a value"); vf_check(a.last(w,cap)==l, "the last with a value"); }
static void search_value(unsigned big){ Sz s = size(2); if ((s.n*s.m==4)!=(big!=0)) return; const unsigned ls[] = {0,1,4}; unsigned lay = big ? 3 : ls[pick("layout",2)]; cmp c = which(); if (big && (c==cmp::gt || c==cmp::le || c==cmp::nle || c==cmp::nge)) return; Tab<int> t; t.n=s.n; t.m=s.m; int w = vf::any_int<int>("w",-5,5); for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) t.v[i][j] = w-1+int(pick("v",2,i*4+j)); I2 a = make<I2>(t,lay,w); bool o[4]; unsigned no = s.n*s.m; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { int d = t.v[i][j]-w; o[lin<int>(lay,s,i,j)] = holds(c,d,0,d==0); } unsigned cnt=0, f=no, l=no; for (unsigned k=0;k<no;++k) if (o[k]) { ++cnt; if (f==no) f=k; l=k; }
  vf_check(a.count(c,w)==cnt, "the number of elements which compare"); vf_check(a.all(c,w)==(cnt==no), "all compare"); vf_check(a.any(c,w)==(cnt>0), "any compares"); vf_check(a.first(c,w)==f, "the first which compares"); vf_check(a.last(c,w)==l, "the last which compares"); auto q = a.find(c,w); bool e = q.size()==cnt; unsigned p=0; for (unsigned k=0;e && k<no;++k) if (o[k]) e = q[p++]==k; vf_check(e, "the list of those which compare");
  Array2<bool> b = a.is(c,w); e = b.shape()==a.shape(); for (unsigned i=0;e && i<s.n;++i) for (unsigned j=0;j<s.m;++j) e = e && at(b,i,j)==o[lin<int>(lay,s,i,j)]; vf_check(e, "element by element"); if (s.m==1 || lay==0) { std::vector<int> ws(no,w); auto ei = a.each_is(c,ws); e = ei.size()==no; for (unsigned k=0;e && k<no;++k) e = ei[k]==o[k]; vf_check(e, "each compared with its own value"); } }
VF_ENTRY(search_small){ search_value(0); } VF_ENTRY(search_square){ search_value(1); }
VF_ENTRY(search_le_ge){ Sz s = size(2); Tab<double> t = table<double>(s); double w = vf::any_real("w"), tol = 0.25; if (vf_native()) for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) t.v[i][j] = w + 0.2*vf::any_int<int>("k",-3,3,i*4+j); D a = make<D>(t,pick("layout",1)); bool le = true, ge = true; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) { double v = t.v[i][j]; bool e = af::scalar(v,w,tol,tol); le = vf_and(le, vf_or(e,v<w)); ge = vf_and(ge, vf_or(e,v>w)); } vf_check(vf_iff(a.all(cmp::le_ge,w,tol), vf_or(le,ge)), "all on one side of a value"); }
static void search_rows(unsigned big, bool single){ unsigned n = 1+pick("n",1), m = 1+pick("m",1); if ((n*m==4)!=(big!=0)) return; const unsigned ls[] = {0,1,3}; unsigned lay = big ? 4 : ls[pick("layout",2)]; bool one = single; if (!single && n==1) return; cmp c = which(); if (big && (c==cmp::gt || c==cmp::le || c==cmp::nle || c==cmp::nge)) return; Tab<int> t; t.n=n; t.m=m; Tab<int> u; u.n=one?1:n; u.m=m; for (unsigned i=0;i<u.n;++i) for (unsigned j=0;j<m;++j) u.v[i][j] = vf::any_int<int>("u",-5,5,i*4+j); for (unsigned i=0;i<n;++i) for (unsigned j=0;j<m;++j) t.v[i][j] = u.v[i%u.n][j]-1+int(pick("v",2,i*4+j)); I2 a = make<I2>(t,lay), b = make<I2>(u,(lay+3)%6); bool o[2]; unsigned cnt=0, f=n, l=n;
  for (unsigned i=0;i<n;++i) { bool all = true, any = false; for (unsigned j=0;j<m;++j) { int d = t.v[i][j]-u.v[i%u.n][j]; bool h = holds(c,d,0,d==0); all = all && h; any = any || h; } o[i] = veccmp(c) ? any : all; if (o[i]) { ++cnt; if (f==n) f=i; l=i; } }
  vf_check(a.count(c,b)==cnt, "the number of rows which compare"); vf_check(a.first(c,b)==f, "the first row which compares"); vf_check(a.last(c,b)==l, "the last row which compares"); auto q = a.find(c,b); bool e = q.size()==cnt; unsigned p=0; for (unsigned k=0;e && k<n;++k) if (o[k]) e = q[p++]==k; vf_check(e, "the list of rows which compare"); auto r = a.row_is(c,b); e = r.size(0)==n && r.size(1)==1; for (unsigned k=0;e && k<n;++k) e = r[k]==o[k]; vf_check(e, "row by row");
  if (one) { std::vector<int> w; for (unsigned j=0;j<m;++j) w.push_back(u.v[0][j]); auto z = a.row_is(c,w); e = z.size()==n; for (unsigned k=0;e && k<n;++k) e = z[k]==o[k]; vf_check(e, "row by row against a vector"); } Array2<bool> g = a.is(c,b); e = g.shape()==a.shape(); for (unsigned i=0;e && i<n;++i) for (unsigned j=0;j<m;++j) { int d = t.v[i][j]-u.v[i%u.n][j]; e = e && at(g,i,j)==holds(c,d,0,d==0); } vf_check(e, "element by element"); if (c==cmp::eq) vf_check(a.is(b)==(cnt==n), "arrays are equal if all their elements are"); }
VF_ENTRY(search_rows_single){ search_rows(0,true); } VF_ENTRY(search_rows_each){ search_rows(0,false); } VF_ENTRY(search_rows_square_single){ search_rows(1,true); } VF_ENTRY(search_rows_square_each){ search_rows(1,false); }
VF_ENTRY(rows_reported){ Tab<int> t = table<int>(Sz{2,2}), u = table<int>(Sz{3,2},"u"); I2 a = make<I2>(t,pick("layout",5)), b = make<I2>(u,0); vf_check(vf::throws([&]{ a.is(cmp::eq,b); }) && vf::throws([&]{ a.row_is(cmp::eq,b); }) && vf::throws([&]{ a.first(cmp::eq,b); }) && vf::throws([&]{ a.last(cmp::eq,b); }) && vf::throws([&]{ a.count(cmp::eq,b); }) && vf::throws([&]{ a.find(cmp::eq,b); }), "rows which do not match in number are reported"); }
VF_ENTRY(uniqueness){ unsigned n = 1+pick("n",2), m = 1+pick("m",1), lay = pick("layout",5); Tab<int> t; t.n=n; t.m=m; for (unsigned i=0;i<n;++i) { unsigned k = pick("row",2,i); for (unsigned j=0;j<m;++j) t.v[i][j] = int(j==m-1 ? k : 1); } I2 a = make<I2>(t,lay); auto iu = a.is_unique(); auto ui = a.unique_idx(); I2 u = a.unique(); bool e = iu.size()==n, g = ui.size()==n, h = true; unsigned cnt = 0; for (unsigned i=0;e && g && i<n;++i) { unsigned f = i; for (unsigned j=i;j--;) if (t.v[j][m-1]==t.v[i][m-1]) f = j; e = e && iu[i]==(f==i); g = g && ui[i]==f; if (f==i) { h = h && cnt<u.size(0) && rowis(u,cnt,t,i); ++cnt; } } vf_check(e, "a row is unique if it equals no earlier one"); vf_check(g, "every row knows the first equal to it"); vf_check(h && u.size(0)==cnt, "the unique rows in order"); }
static void permutation(unsigned n, bool square){ unsigned m = square ? n : 1; Tab<int> t, u; t.n=u.n=n; t.m=u.m=m; for (unsigned i=0;i<n;++i) { unsigned k = n==3 && i==0 ? 1 : pick("row",2,i), l = pick("oth",2,i); for (unsigned j=0;j<m;++j) { t.v[i][j] = int(j==m-1 ? k : 1); u.v[i][j] = int(j==m-1 ? l : 1); } } I2 a = make<I2>(t,n==3 ? 0 : pick("layout",1)), b = make<I2>(u,n==3 ? 0 : 1); bool p = true; for (unsigned i=0;i<n;++i) { unsigned x=0, y=0; for (unsigned k=0;k<n;++k) { x += t.v[k][m-1]==t.v[i][m-1]; y += u.v[k][m-1]==t.v[i][m-1]; } p = p && x==y; } vf_check(a.is_permutation(b)==p, "one array is a permutation of the other if every row occurs as often");
  if (!p) { vf_check(vf::throws([&]{ a.permutation_vector(b); }), "a missing row is reported"); return; } auto v = a.permutation_vector(b); bool e = v.size()==n; unsigned seen = 0; for (unsigned i=0;e && i<n;++i) { e = v[i]<n; if (e) { seen |= 1u<<v[i]; e = rowis(b,v[i],t,i); } } vf_check(e && seen==(1u<<n)-1, "the permutation vector pairs every row with a different equal one"); }
VF_ENTRY(permutations_1){ permutation(1,true); } VF_ENTRY(permutations_2){ permutation(2,false); } VF_ENTRY(permutations_22){ permutation(2,true); } VF_ENTRY(permutations_3){ permutation(3,false); }
VF_ENTRY(match_ops){ unsigned m = 1+pick("m",1); Tab<int> t = table<int>(Sz{2,m}); int w = vf::any_int<int>("w",1,9); if (vf_native()) for (unsigned j=0;j<m;++j) if (vf::any_int<int>("rel",0,3,j)) t.v[0][j] = vf::any_bool("t",0) ? t.v[1][j]*w : t.v[1][j]+w; I2 a = make<I2>(t,pick("layout",5)); bool p = true, q = true, r = true; for (unsigned j=0;j<m;++j) { p = vf_and(p, t.v[0][j]==t.v[1][j]+w); q = vf_and(q, t.v[0][j]==t.v[1][j]-w); r = vf_and(r, t.v[0][j]==t.v[1][j]*w); } vf_check(vf_iff(a.match(0,1,ops::plus,w),p), "rows differ by a value"); vf_check(vf_iff(a.match(0,1,ops::minus,w),q), "rows differ by minus a value"); vf_check(vf_iff(a.match(0,1,ops::times,w),r), "rows are multiples"); }
VF_ENTRY(match_rotation){ Tab<double> t = table<double>(Sz{2,2}); std::array<int,4> R; for (long k=0;k<4;++k) R[k] = vf::any_int<int>("R",-1,1,k); int order = int(pick("order",2)); double v[2] = {t.v[1][0],t.v[1][1]}; for (int o=0;o<order;++o) { double x = R[0]*v[0]+R[1]*v[1], y = R[2]*v[0]+R[3]*v[1]; v[0]=x; v[1]=y; } if (vf_native() && vf::any_bool("rel")) { t.v[0][0] = v[0]; t.v[0][1] = v[1]; } D a = make<D>(t,pick("layout",5)); vf_check(vf_iff(a.match(0,1,R,order), vf_and(af::scalar(t.v[0][0],v[0]), af::scalar(t.v[0][1],v[1]))), "a row equals another rotated a number of times"); }

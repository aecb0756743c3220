//! * {"unroll": 6, "time": 200}
//! fp_reflexive {"real": false, "time": 300, "prove_to": 60000}
#include "verif.h"
#include <string>
#include <array>
#include "approx_float.hpp"
namespace af = brille::approx_float;
// the documented tolerance: |a-b| <= absolute + relative |a+b|; with defaults
// absolute 5e-15 and relative 10000 epsilon, each replaced by the caller's value when that is larger
static double rel_(double t, double eps, double mult){ double r = eps*mult*10000.; return t > r ? t : r; }
static double abs_(double t){ double d = 5./1000000000000000.; return t > d ? t : d; }
static double mod(double x){ return x < 0 ? -x : x; }
static const double E64 = 2.220446049250313e-16, E32 = 1.1920928955078125e-07;
static bool spec(double a, double b, double tol, double mult=1){ return mod(a-b) <= abs_(tol) + rel_(tol,E64,mult)*mod(a+b); }
static bool guard(double a, double b, double tol, double mult=1){ // natively stay away from the edge of the tolerance
  double d = mod(a-b), t = abs_(tol) + rel_(tol,E64,mult)*mod(a+b); return a==b || mod(d-t) > 1e-3*t; }
static double other(double a, const char* n, long i=-1){ // natively: values near a
  if (vf_native()) { int k = vf::any_int<int>("near",0,9,i); double d[]={0,1e-15,1e-13,1e-12,4e-12,1e-11,1e-9,1e-6,1e-3,1}; double s = vf::any_int<int>("sgn",0,1,i)?1:-1; return vf::any_int<int>("far",0,3,i)==0 ? vf::any_real(n,i) : a + s*d[k]*(vf::any_int<int>("scaled",0,1,i)?mod(a)+1e-3:1.); }
  return vf::any_real(n, i); }

VF_ENTRY(scalar_definition){
  double a = vf::any_real("a"), b = other(a,"b"); double tol = vf::any_bool("usetol") ? vf::any_real("tol",0,1) : 0.; vf_tame(guard(a,b,tol)); vf_assume(tol == 0 || tol > 1e-300);
  vf_assume(a == b || mod(a-b) > 1e-307);
  vf_check(vf_iff(af::scalar(a, b, tol, tol), spec(a, b, tol)), "two values are equal iff |a-b| <= abs + rel |a+b|");
}
VF_ENTRY(scalar_symmetric){
  double a = vf::any_real("a"), b = other(a,"b"), tol = vf::any_real("tol",0,1);
  vf_check(vf_iff(af::scalar(a, b), af::scalar(b, a)), "tolerant equality is symmetric"); vf_check(vf_iff(af::scalar(a, b, tol, tol), af::scalar(b, a, tol, tol)), "tolerant equality with a given tolerance is symmetric");
  vf_check(af::scalar(a, a), "every value equals itself"); vf_check(vf_iff(af::scalar(a, b), af::scalar(-a, -b)), "negating both sides changes nothing");
}
VF_ENTRY(scalar_monotone){
  double a = vf::any_real("a"), b = other(a,"b"), t = vf::any_real("tol",0,1), u = vf::any_real("tol2",0,1); vf_assume(t <= u); int m = vf::any_int<int>("mult",1,100), k = vf::any_int<int>("mult2",1,100); vf_assume(m <= k);
  vf_check(vf_implies(af::scalar(a, b, t, t), af::scalar(a, b, u, u)), "a larger tolerance accepts whatever a smaller one accepts");
  vf_check(vf_implies(af::scalar(a, b, 0., 0., m), af::scalar(a, b, 0., 0., k)), "a larger multiplier accepts whatever a smaller one accepts");
}
VF_ENTRY(scalar_multiplier){
  double a = vf::any_real("a"), b = other(a,"b"); int m = vf::any_int<int>("mult",1,100); vf_tame(guard(a,b,0,m)); vf_assume(a == b || mod(a-b) > 1e-307);
  vf_check(vf_iff(af::scalar(a, b, 0., 0., m), spec(a, b, 0., m)), "the multiplier scales the relative tolerance");
}
VF_ENTRY(scalar_exclusive){
  double a = vf::any_real("a",-1e6,1e6), b = vf::any_real("b",-1e6,1e6); vf_assume(mod(a-b) > 1e-5);
  vf_check(!af::scalar(a, b), "clearly different values are never equal");
}
VF_ENTRY(integers){
  int a = vf::any_int<int>("a",-1000000,1000000), b = vf::any_int<int>("b",-1000000,1000000); unsigned u = vf::any_int<unsigned>("u",0,1000000), v = vf::any_int<unsigned>("v",0,1000000); size_t p = vf::any_int<size_t>("p",0,1000000), q = vf::any_int<size_t>("q",0,1000000);
  vf_check(vf_iff(af::scalar(a, b), a == b), "integers compare exactly"); vf_check(vf_iff(af::scalar(u, v), u == v), "unsigned integers compare exactly"); vf_check(vf_iff(af::scalar(p, q), p == q), "sizes compare exactly");
  double x = vf::any_real("x"); if (vf_native() && vf::any_bool("close")) x = a; vf_tame(guard(x,a,0)); vf_assume(x == a || mod(x-a) > 1e-307);
  vf_check(vf_iff(af::scalar(x, a), spec(x, a, 0)), "a real number and an integer compare with the tolerance of the real"); vf_check(vf_iff(af::scalar(a, x), spec(x, a, 0)), "an integer and a real number compare with the tolerance of the real");
}
VF_ENTRY(integers_tol){ int a = vf::any_int<int>("a",-1000,1000); double t = vf::any_real("t",0,1), x = vf::any_real("x"); if (vf_native()) { double d = t+t*std::abs(2.0*a); const double f[] = {0.2,0.5,0.9,1,1.1,2.5}; x = a + d*f[vf::any_int<unsigned>("f",0,5)]; } vf_tame(guard(x,a,t)); vf_assume(x == a || mod(x-a) > 1e-307);
  vf_check(vf_iff(af::scalar(x, a, t, 0), spec(x, a, t)), "the tolerance of the real applies to an integer"); vf_check(vf_iff(af::scalar(a, x, 0, t), spec(x, a, t)), "also with the integer first"); }
static bool close(double a, double b, double tol){ double d = mod(a-b), s = mod(a+b); return vf_or(d <= abs_(tol) + rel_(tol,E64,1)*s, d < std::numeric_limits<double>::min()); }
VF_ENTRY(vectors){
  size_t n = vf::any_int<size_t>("n",0,1000000); vf_tame(n < 8); const double* a = vf::array<double>("a", n); double* b = vf::array<double>("b", n); double tol = vf::any_real("tol",0,1);
  if (vf_native()) for (size_t i=0;i<n;++i) b[i] = other(a[i],"bb",long(i));
  for (size_t i=0; vf_native() && i<n; ++i) vf_tame(guard(a[i],b[i],tol));
  auto inv = [&](int64_t i, bool ok){ return vf_and(i >= 0, vf_iff(ok, vf::forall(0, i, [&](int64_t k){ return close(a[k], b[k], tol); }))); }; vf::invariant_ib("all so far are close", inv);
  bool all = vf::forall(0, n, [&](int64_t k){ return close(a[k], b[k], tol); });
  vf_check(vf_iff(af::vector(n, a, b, tol, tol), all), "vectors are equal iff every element is");
}
VF_ENTRY(arrays){
  size_t n = vf::any_int<size_t>("n",0,1000), m = vf::any_int<size_t>("m",0,1000); vf_tame(n < 5 && m < 5); const double* a = vf::array<double>("a", n*m); double* b = vf::array<double>("b", n*m); double tol = vf::any_real("tol",0,1);
  if (vf_native()) for (size_t i=0;i<n*m;++i) b[i] = other(a[i],"bb",long(i));
  for (size_t i=0; vf_native() && i<n*m; ++i) vf_tame(guard(a[i],b[i],tol));
  auto inv = [&](int64_t i, bool ok){ return vf_and(i >= 0, vf_iff(ok, vf::forall(0, i, [&](int64_t k){ return close(a[k], b[k], tol); }))); }; vf::invariant_ib("all so far are close", inv);
  bool all = vf::forall(0, n*m, [&](int64_t k){ return close(a[k], b[k], tol); });
  vf_check(vf_iff(af::array(n, m, a, b, tol, tol), all), "arrays are equal iff every element is");
}
VF_ENTRY(matrices){
  auto A = vf::any_array<double,9>("A"); std::array<double,9> B; for (int i=0;i<9;++i) B[i] = other(A[i],"B",i); double tol = vf::any_real("tol",0,1);
  for (int i=0;i<9;++i) vf_tame(guard(A[i],B[i],tol) && guard(A[i],B[i],0));
  bool all = true, v3 = true, m2 = true; for (int i=0;i<9;++i) all = vf_and(all, close(A[i],B[i],tol)); for (int i=0;i<3;++i) v3 = vf_and(v3, close(A[i],B[i],0)); for (int i=0;i<4;++i) m2 = vf_and(m2, close(A[i],B[i],tol));
  vf_check(vf_iff(af::matrix(A.data(), B.data(), tol, tol), all), "3x3 matrices are equal iff all nine elements are"); vf_check(vf_iff(af::vector(A.data(), B.data()), v3), "3-vectors are equal iff all three elements are");
  vf_check(vf_iff(af::equal(A, B, tol, tol), all), "fixed size containers are equal iff all elements are"); vf_check(vf_iff(af::matrix(2, A.data(), B.data(), tol, tol), m2), "NxN matrices compare all NxN elements");
}
VF_ENTRY(int_matrix){
  auto A = vf::any_int_array<int,9>("A",-3,3); auto B = vf::any_int_array<int,9>("B",-3,3); if (vf_native() && vf::any_bool("same")) B = A; if (vf_native() && vf::any_bool("one")) { B = A; B[vf::any_int<int>("w",0,8)] += 1; } bool all = true; for (int i=0;i<9;++i) all = vf_and(all, A[i]==B[i]);
  vf_check(vf_iff(af::matrix(A.data(), B.data()), all), "integer matrices compare exactly");
}
VF_ENTRY(containers){
  size_t n = vf::any_int<size_t>("n",0,3), m = vf::any_int<size_t>("m",0,3); std::vector<double> a, b; for (size_t i=0;i<3;++i) { if (i<n) a.push_back(vf::any_real("a",long(i))); if (i<m) b.push_back(vf::any_bool("same",long(i)) ? vf::any_real("a",long(i)) : vf::any_real("b",long(i))); }
  bool all = n==m; if (n==m) for (size_t i=0;i<n;++i) { all = vf_and(all, close(a[i],b[i],0)); vf_tame(guard(a[i],b[i],0)); }
  vf_check(vf_iff(af::equal(a, b), all), "containers of different size are never equal, others iff all elements are");
}
VF_ENTRY(fp_reflexive){ double a = vf::any_real("a",-1e150,1e150); vf_check(af::scalar(a, a), "in machine arithmetic every value equals itself"); }
VF_NATIVE(fp_symmetric){ double a = vf::any_real("a",-1e150,1e150), b = vf::any_real("b",-1e150,1e150); vf_check(vf_iff(af::scalar(a, b), af::scalar(b, a)), "in machine arithmetic tolerant equality is symmetric"); }
VF_NATIVE(floats){
  float a = float(vf::any_real("a")), b = float(other(a,"b")); double d = mod(double(a)-double(b)), t = 5e-15 + E32*10000.*mod(double(a)+double(b)); vf_tame(mod(d-t) > 1e-2*t);
  vf_check(af::scalar(a, b) == (d <= t), "single precision uses the single precision epsilon");
}

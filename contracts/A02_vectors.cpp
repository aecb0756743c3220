//! * {"unroll": 6, "time": 150}
//! antiphase_native {"trials": 2000}
#include "verif.h"
#include <complex>
#include <string>
#include "utilities.hpp"
using namespace brille::utils; using C = std::complex<double>;
// spec: sums over the first k elements, by recursion
extern "C" double vfspec_dot(const double* a, const double* b, int64_t k){ return k <= 0 ? 0. : vfspec_dot(a, b, k-1) + a[k-1]*b[k-1]; }
extern "C" double vfspec_dist2(const double* a, const double* b, int64_t k){ return k <= 0 ? 0. : vfspec_dist2(a, b, k-1) + (a[k-1]-b[k-1])*(a[k-1]-b[k-1]); }
extern "C" int64_t vfspec_idot(const int* a, const int* b, int64_t k){ return k <= 0 ? 0 : vfspec_idot(a, b, k-1) + int64_t(a[k-1])*int64_t(b[k-1]); }
// complex vectors are stored as interleaved re, im pairs
extern "C" double vfspec_hre(const double* a, const double* b, int64_t k){ return k <= 0 ? 0. : vfspec_hre(a, b, k-1) + a[2*(k-1)]*b[2*(k-1)] + a[2*(k-1)+1]*b[2*(k-1)+1]; }
extern "C" double vfspec_him(const double* a, const double* b, int64_t k){ return k <= 0 ? 0. : vfspec_him(a, b, k-1) + a[2*(k-1)]*b[2*(k-1)+1] - a[2*(k-1)+1]*b[2*(k-1)]; }
#define SIZES size_t n = vf::any_int<size_t>("n", 0, 1000000); vf_tame(n < 40); const double* a = vf::array<double>("a", n); const double* b = vf::array<double>("b", n);
#define CSIZES size_t n = vf::any_int<size_t>("n", 0, 1000000); vf_tame(n < 40); const double* a = vf::array<double>("a", 2*n); const double* b = vf::array<double>("b", 2*n); const C* A = reinterpret_cast<const C*>(a); const C* B = reinterpret_cast<const C*>(b);

VF_ENTRY(dot){ SIZES
  auto inv = [&](int64_t i, double s){ return vf_and(i >= 0, vf_eq(s, vfspec_dot(a, b, i))); }; vf::invariant_ir("partial dot", inv);
  vf_check(vf_eq((vector_dot<double,double,double>(n, a, b)), vfspec_dot(a, b, n)), "vector_dot is the sum of products over all n elements");
}
VF_ENTRY(product){ SIZES
  auto inv = [&](int64_t i, double s){ return vf_and(i >= 0, vf_eq(s, vfspec_dot(a, b, i))); }; vf::invariant_ir("partial dot", inv);
  vf_check(vf_eq(vector_product(n, a, b), vfspec_dot(a, b, n)), "vector_product of real vectors is their dot product");
}
VF_ENTRY(hermitian_real){ SIZES
  auto inv = [&](int64_t i, double s){ return vf_and(i >= 0, vf_eq(s, vfspec_dot(a, b, i))); }; vf::invariant_ir("partial dot", inv);
  vf_check(vf_eq(hermitian_product(n, a, b), vfspec_dot(a, b, n)), "hermitian_product of real vectors is their dot product");
}
VF_ENTRY(distance){ SIZES
  auto inv = [&](int64_t i, double s){ return vf_and(vf_and(i >= 0, s >= 0), vf_eq(s, vfspec_dist2(a, b, i))); }; vf::invariant_ir("partial squared distance", inv);
  double d = vector_distance(n, a, b);
  vf_check(d >= 0, "a distance is not negative"); vf_check(vf_eq(d*d, vfspec_dist2(a, b, n)), "vector_distance is the root of the sum of squared differences");
}
VF_ENTRY(dot_int){ size_t n = vf::any_int<size_t>("n", 0, 1000); vf_tame(n < 40); const int* a = vf::array<int>("a", n, -1000, 1000); const int* b = vf::array<int>("b", n, -1000, 1000);
  auto inv = [&](int64_t i, int64_t s){ return vf_and(vf_and(i >= 0, vf_and(s <= 1000000*i, s >= -1000000*i)), s == vfspec_idot(a, b, i)); }; vf::invariant_ii("partial dot", inv);
  vf_check((vector_dot<int,int,int>(n, a, b)) == vfspec_idot(a, b, n), "vector_dot of integers");
}
extern "C" double vfspec_norm2(const double* a, int64_t k){ return k <= 0 ? 0. : vfspec_norm2(a, k-1) + a[k-1]*a[k-1]; }
#define HINV auto inv = [&](int64_t i, double r, double m){ return vf_and(i >= 0, vf_and(vf_eq(r, vfspec_hre(a, b, i)), vf_eq(m, vfspec_him(a, b, i)))); }; vf::invariant_irr("partial hermitian product", inv); \
  auto inv2 = [&](int64_t i, double r, double m){ return vf_and(i >= 0, vf_and(vf_eq(r, vfspec_hre(a, b, n)-vfspec_hre(a, b, i)), vf_eq(m, vfspec_him(a, b, n)-vfspec_him(a, b, i)))); }; vf::invariant_irr("remaining hermitian product", inv2);
VF_ENTRY(hermitian){ CSIZES HINV
  C h = hermitian_product(n, A, B);
  vf_check(vf_eq(h.real(), vfspec_hre(a, b, n)), "real part of sum conj(a_i) b_i"); vf_check(vf_eq(h.imag(), vfspec_him(a, b, n)), "imaginary part of sum conj(a_i) b_i");
}
VF_ENTRY(hermitian_product_sq){ CSIZES HINV
  double p = vector_product(n, A, B), r = vfspec_hre(a, b, n), m = vfspec_him(a, b, n); vf_check(vf_eq(p, r*r+m*m), "vector_product of complex vectors is |<a|b>|^2");
}
extern "C" double vfspec_rre(const double* r, const double* b, int64_t k){ return k <= 0 ? 0. : vfspec_rre(r, b, k-1) + r[k-1]*b[2*(k-1)]; }
extern "C" double vfspec_rim(const double* r, const double* b, int64_t k){ return k <= 0 ? 0. : vfspec_rim(r, b, k-1) + r[k-1]*b[2*(k-1)+1]; }
VF_ENTRY(hermitian_mixed){ size_t n = vf::any_int<size_t>("n", 0, 1000000); vf_tame(n < 40); const double* a = vf::array<double>("a", n); const double* b = vf::array<double>("b", 2*n); const C* B = reinterpret_cast<const C*>(b);
  auto inv = [&](int64_t i, double r, double m){ return vf_and(i >= 0, vf_and(vf_eq(r, vfspec_rre(a, b, i)), vf_eq(m, vfspec_rim(a, b, i)))); }; vf::invariant_irr("partial product", inv);
  auto inw = [&](int64_t i, double r, double m){ return vf_and(i >= 0, vf_and(vf_eq(r, vfspec_rre(a, b, i)), vf_eq(m, -vfspec_rim(a, b, i)))); }; vf::invariant_irr("partial product (conjugated)", inw);
  C h = hermitian_product(n, a, B), g = hermitian_product(n, B, a);
  vf_check(vf_eq(h.real(), vfspec_rre(a, b, n)) && vf_eq(h.imag(), vfspec_rim(a, b, n)), "<real|complex>"); vf_check(vf_eq(g.real(), vfspec_rre(a, b, n)) && vf_eq(g.imag(), -vfspec_rim(a, b, n)), "<complex|real> conjugates its first argument");
  double p = vector_product(n, a, B), q = vector_product(n, B, a), r = vfspec_rre(a, b, n), m = vfspec_rim(a, b, n); vf_check(vf_eq(p, r*r+m*m) && vf_eq(q, r*r+m*m), "vector_product with one complex vector is |<a|b>|^2");
}
extern "C" double vfspec_cdist2(const double* a, const double* b, int64_t k){ return k <= 0 ? 0. : vfspec_cdist2(a, b, k-1) + (a[2*(k-1)]-b[2*(k-1)])*(a[2*(k-1)]-b[2*(k-1)]) + (a[2*(k-1)+1]-b[2*(k-1)+1])*(a[2*(k-1)+1]-b[2*(k-1)+1]); }
VF_ENTRY(complex_distance){ CSIZES
  auto inv = [&](int64_t i, double s){ return vf_and(vf_and(i >= 0, s >= 0), vf_eq(s, vfspec_cdist2(a, b, i))); }; vf::invariant_ir("partial squared distance", inv);
  double d = vector_distance(n, A, B); vf_check(d >= 0, "a distance is not negative"); vf_check(vf_eq(d*d, vfspec_cdist2(a, b, n)), "complex vector_distance is the root of the summed squared moduli");
}
VF_ENTRY(frobenius){ size_t n = vf::any_int<size_t>("n", 0, 1000); vf_tame(n < 7); const double* a = vf::array<double>("a", n*n); const double* b = vf::array<double>("b", n*n);
  auto inv = [&](int64_t i, double s){ return vf_and(vf_and(i >= 0, s >= 0), vf_eq(s, vfspec_dist2(a, b, i))); }; vf::invariant_ir("partial squared distance", inv);
  double d = frobenius_distance(n, a, b); vf_check(d >= 0 && vf_eq(d*d, vfspec_dist2(a, b, n*n)), "frobenius_distance covers all n x n elements");
}
VF_ENTRY(scalars){
  double ar = vf::any_real("ar"), ai = vf::any_real("ai"), br = vf::any_real("br"), bi = vf::any_real("bi"); C a(ar,ai), b(br,bi);
  vf_check(vf_eq(squared_distance(ar, br), (ar-br)*(ar-br)), "squared_distance of reals"); vf_check(vf_eq(squared_distance(a, b), (ar-br)*(ar-br)+(ai-bi)*(ai-bi)), "squared_distance of complex numbers");
  double m = magnitude(a); vf_check(m >= 0 && vf_eq(m*m, ar*ar+ai*ai), "magnitude of a complex number"); vf_check(vf_eq(magnitude(ar), std::abs(ar)), "magnitude of a real number");
}
VF_ENTRY(antiphase_any){ CSIZES HINV
  C e = antiphase(n, A, B); double r = vfspec_hre(a, b, n), m = vfspec_him(a, b, n), c = e.real(), s = e.imag();
  vf_check(vf_eq(c*c+s*s, 1.), "antiphase is a pure phase"); vf_check(vf_eq(c*m+s*r, 0.), "the rephased hermitian product is real"); vf_check(c*r-s*m > -1e-9, "and not negative");
}
template<unsigned n> static void inplace(){ C a[n], b[n], p[n]; for (unsigned i=0;i<n;++i) { a[i] = C(vf::any_real("ar",i),vf::any_real("ai",i)); b[i] = C(vf::any_real("br",i),vf::any_real("bi",i)); } C e = antiphase(n, a, b); inplace_antiphase(n, a, b, p); for (unsigned i=0;i<n;++i) { vf_check(vf_eq(p[i].real(), e.real()*b[i].real()-e.imag()*b[i].imag()), "every element is rephased"); vf_check(vf_eq(p[i].imag(), e.real()*b[i].imag()+e.imag()*b[i].real()), "every element is rephased"); }
  double u[n], v[n], w[n]; for (unsigned i=0;i<n;++i) { u[i] = vf::any_real("u",i); v[i] = vf::any_real("v",i); } inplace_antiphase(n, u, v, w); for (unsigned i=0;i<n;++i) vf_check(w[i]==v[i], "real vectors have no phase"); vf_check(antiphase(n, u, v)==1, "real vectors have no phase"); }
VF_ENTRY(inplace_1){ inplace<1>(); } VF_ENTRY(inplace_3){ inplace<3>(); }
VF_NATIVE(antiphase_native){
  size_t n = vf::any_int<size_t>("n", 1, 12); std::vector<C> a(n), b(n), p(n); for (size_t i=0;i<n;++i){ a[i]=C(vf::any_real("ar",long(i)),vf::any_real("ai",long(i))); b[i]=C(vf::any_real("br",long(i)),vf::any_real("bi",long(i))); }
  C ph = antiphase(n, a.data(), b.data()); inplace_antiphase(n, a.data(), b.data(), p.data()); vf_check(vf_eq(std::abs(ph), 1.), "antiphase is a pure phase");
  C h = hermitian_product(n, a.data(), b.data()), g = hermitian_product(n, a.data(), p.data()); vf_tame(std::abs(h) > 1e-3);
  vf_check(vf_eq(g.imag(), 0.) && vf_eq(g.real(), std::abs(h)), "the rephased vector has a real, non-negative hermitian product"); 
  for (size_t i=0;i<n;++i) vf_check(vf_eq(std::abs(p[i]), std::abs(b[i])), "rephasing keeps every modulus");
  C z = antiphase(h)*h; vf_check(vf_eq(z.imag(), 0.) && vf_eq(z.real(), std::abs(h)), "antiphase of a number");
}
VF_NATIVE(angles_native){
  size_t n = vf::any_int<size_t>("n", 1, 8); std::vector<double> a(n), b(n); std::vector<C> u(n), v(n);
  for (size_t i=0;i<n;++i){ a[i]=vf::any_real("a",long(i)); b[i]=vf::any_real("b",long(i)); u[i]=C(a[i],vf::any_real("c",long(i))); v[i]=C(b[i],vf::any_real("d",long(i))); }
  auto cosang = [](double ab, double aa, double bb){ return aa>0&&bb>0 ? std::max(-1.,std::min(1.,ab/std::sqrt(aa*bb))) : (aa>0||bb>0 ? 0. : 1.); };
  double ab=0,aa=0,bb=0,re=0,im=0,uu=0,vv=0; for (size_t i=0;i<n;++i){ ab+=a[i]*b[i]; aa+=a[i]*a[i]; bb+=b[i]*b[i]; C h=std::conj(u[i])*v[i]; re+=h.real(); im+=h.imag(); uu+=std::norm(u[i]); vv+=std::norm(v[i]); }
  vf_check(vf_eq(std::cos(vector_angle(n, a.data(), b.data())), cosang(ab,aa,bb)), "vector_angle"); 
  vf_check(vf_eq(std::cos(euclidean_angle(n, u.data(), v.data())), cosang(re,uu,vv)), "euclidean_angle treats n complex as 2n real numbers");
  vf_check(vf_eq(std::cos(hermitian_angle(n, u.data(), v.data())), cosang(std::sqrt(re*re+im*im),uu,vv)), "hermitian_angle uses |<u|v>|");
}
VF_ENTRY(angle_real){ // cosine of the angle; the precondition keeps both lengths nonzero
  size_t n = vf::any_int<size_t>("n", 1, 1000000); vf_tame(n < 20); const double* a = vf::array<double>("a", n); const double* b = vf::array<double>("b", n);
  auto inv = [&](int64_t i, double x, double y, double z){ return vf_and(vf_and(i >= 0, vf_eq(x, vfspec_norm2(a, i))), vf_and(vf_eq(y, vfspec_norm2(b, i)), vf_eq(z, vfspec_dot(a, b, i)))); }; vf::invariant_irrr("partial sums", inv);
  vf_assume(vfspec_norm2(a, n) > 0 && vfspec_norm2(b, n) > 0); double t = vf::any_real("bound", 0, 1); (void)t;
  vf_assume(vfspec_dot(a,b,n)*vfspec_dot(a,b,n) < vfspec_norm2(a,n)*vfspec_norm2(b,n));
  double ang = vector_angle(n, a, b), c = vfspec_dot(a,b,n)/(std::sqrt(vfspec_norm2(a,n))*std::sqrt(vfspec_norm2(b,n)));
  vf_check(vf_eq(ang, std::acos(c)), "vector_angle is acos(a.b/(|a||b|))");
}

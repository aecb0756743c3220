//! * {"unroll": 40, "time": 120}
//! det_4_native {"what": "4x4 determinant/inverse by execution"}
#include "verif.h"
#include <complex>
#include <string>
#include "utilities.hpp"
using namespace brille::utils;
template<size_t N> static double spec_mul(const double* A, const double* B, size_t i, size_t j){ double s=0; for (size_t k=0;k<N;++k) s += A[i*N+k]*B[k*N+j]; return s; }
static double det3(const double* m){ return m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]); }
static int det3i(const int* m){ return m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]); }

VF_ENTRY(determinant){
  auto A = vf::any_array<double,9>("A"); auto m2 = vf::any_array<double,4>("B"); auto m1 = vf::any_array<double,1>("C");
  vf_check(vf_eq(matrix_determinant(A.data(),3), det3(A.data())), "det of a 3x3 matrix is the rule of Sarrus");
  vf_check(vf_eq(matrix_determinant(m2.data(),2), m2[0]*m2[3]-m2[1]*m2[2]), "det of a 2x2 matrix");
  vf_check(vf_eq(matrix_determinant(m1.data(),1), m1[0]), "det of a 1x1 matrix");
}
VF_ENTRY(determinant_int){
  auto A = vf::any_int_array<int,9>("A",-500,500); 
  vf_check(matrix_determinant(A.data(),3) == det3i(A.data()), "det of an integer 3x3 matrix");
}
VF_ENTRY(determinant_4){
  auto A = vf::any_array<double,16>("A"); double s=0, sg=1;
  for (size_t i=0;i<4;++i){ double c[9]; size_t k=0; for (size_t r=0;r<4;++r) if (r!=i) for (size_t q=1;q<4;++q) c[k++]=A[r*4+q]; s += sg*A[i*4]*det3(c); sg=-sg; }
  vf_check(vf_eq(matrix_determinant(A.data(),4), s), "det of a 4x4 matrix is the expansion along its first column");
}
VF_ENTRY(det_product){
  auto A = vf::any_array<double,9>("A"); auto B = vf::any_array<double,9>("B"); double C[9];
  multiply_matrix_matrix<double,double,double,3>(C, A.data(), B.data());
  vf_check(vf_eq(matrix_determinant(C), matrix_determinant(A.data())*matrix_determinant(B.data())), "det(AB) = det A det B");
}
VF_ENTRY(det_transpose){
  auto A = vf::any_array<double,9>("A"); double C[9]; matrix_transpose<double,3>(C, A.data());
  vf_check(vf_eq(matrix_determinant(C), matrix_determinant(A.data())), "det of the transpose");
}
VF_ENTRY(multiply){
  auto A = vf::any_array<double,9>("A"); auto B = vf::any_array<double,9>("B"); double C[9], v[3], w[3]; for (auto& c: C) c = 7; for (auto& c: v) c = 7; for (auto& c: w) c = 7;
  multiply_matrix_matrix<double,double,double,3>(C, A.data(), B.data());
  for (size_t i=0;i<3;++i) for (size_t j=0;j<3;++j) vf_check(vf_eq(C[i*3+j], spec_mul<3>(A.data(),B.data(),i,j)), "(AB)_ij = sum_k A_ik B_kj");
  multiply_matrix_vector<double,double,double,3>(v, A.data(), B.data());
  multiply_vector_matrix<double,double,double,3>(w, B.data(), A.data());
  for (size_t i=0;i<3;++i){ vf_check(vf_eq(v[i], A[3*i]*B[0]+A[3*i+1]*B[1]+A[3*i+2]*B[2]), "(Av)_i");
    vf_check(vf_eq(w[i], A[i]*B[0]+A[3+i]*B[1]+A[6+i]*B[2]), "(vA)_i"); }
}
VF_ENTRY(multiply_mixed){
  auto R = vf::any_int_array<int,9>("R",-9,9); auto B = vf::any_array<double,9>("B"); double C[9], v[3]; int iv[3]; auto Q = vf::any_int_array<int,9>("Q",-9,9); int K[9];
  multiply_matrix_matrix<double,int,double,3>(C, R.data(), B.data());
  multiply_matrix_vector<double,int,double,3>(v, R.data(), B.data());
  multiply_matrix_matrix<int,int,int,3>(K, R.data(), Q.data()); multiply_matrix_vector<int,int,int,3>(iv, R.data(), Q.data());
  for (size_t i=0;i<3;++i){
    vf_check(vf_eq(v[i], R[3*i]*B[0]+R[3*i+1]*B[1]+R[3*i+2]*B[2]), "(Rv)_i for an integer matrix");
    vf_check(iv[i] == R[3*i]*Q[0]+R[3*i+1]*Q[1]+R[3*i+2]*Q[2], "(Rv)_i for integers");
    for (size_t j=0;j<3;++j){ vf_check(vf_eq(C[3*i+j], R[3*i]*B[j]+R[3*i+1]*B[3+j]+R[3*i+2]*B[6+j]), "(RB)_ij for an integer matrix");
      vf_check(K[3*i+j] == R[3*i]*Q[j]+R[3*i+1]*Q[3+j]+R[3*i+2]*Q[6+j], "(RQ)_ij for integers"); }
  }
}
VF_ENTRY(multiply_rect){
  auto A = vf::any_array<double,8>("A"); auto B = vf::any_array<double,12>("B"); double C[6];
  multiply_arrays<double,double,double,2,4,3>(C, A.data(), B.data());
  for (size_t i=0;i<2;++i) for (size_t j=0;j<3;++j){ double s=0; for (size_t k=0;k<4;++k) s += A[i*4+k]*B[k*3+j]; vf_check(vf_eq(C[i*3+j], s), "rectangular product"); }
}
VF_ENTRY(mul_arrays_runtime){
  auto A = vf::any_array<double,8>("A"); auto B = vf::any_array<double,12>("B"); double C[6];
  mul_arrays(C, size_t(2), size_t(4), size_t(3), A.data(), B.data());
  for (size_t i=0;i<2;++i) for (size_t j=0;j<3;++j){ double s=0; for (size_t k=0;k<4;++k) s += A[i*4+k]*B[k*3+j]; vf_check(vf_eq(C[i*3+j], s), "rectangular product, sizes given at run time"); }
  auto M = vf::any_array<double,9>("M"); auto v = vf::any_array<double,3>("v"); double u[3], w[3], p[3]={v[0],v[1],v[2]}, D[9];
  mul_mat_vec(u, size_t(3), M.data(), v.data()); mul_vec_mat(w, size_t(3), v.data(), M.data()); mul_mat_mat(D, size_t(3), M.data(), B.data()); mul_mat_vec_inplace(size_t(3), M.data(), p);
  for (size_t i=0;i<3;++i){ double s = M[3*i]*v[0]+M[3*i+1]*v[1]+M[3*i+2]*v[2];
    vf_check(vf_eq(u[i], s), "runtime matrix-vector product"); vf_check(vf_eq(p[i], s), "in place matrix-vector product");
    vf_check(vf_eq(w[i], M[i]*v[0]+M[3+i]*v[1]+M[6+i]*v[2]), "runtime vector-matrix product");
    for (size_t j=0;j<3;++j) vf_check(vf_eq(D[3*i+j], spec_mul<3>(M.data(),B.data(),i,j)), "runtime matrix-matrix product"); }
}
VF_ENTRY(mul_arrays_complex){
  using C = std::complex<double>; auto A = vf::any_array<double,8>("A"); auto B = vf::any_array<double,8>("B"); C a[4], b[4], c[4], d[4], e[4]; double r[4];
  for (int i=0;i<4;++i){ a[i]=C(A[2*i],A[2*i+1]); b[i]=C(B[2*i],B[2*i+1]); r[i]=A[i]; }
  mul_arrays(c, size_t(2), size_t(2), size_t(2), r, b); mul_arrays(d, size_t(2), size_t(2), size_t(2), b, r);
  for (int i=0;i<2;++i) for (int j=0;j<2;++j){
    vf_check(vf_eq(c[2*i+j].real(), r[2*i]*b[j].real()+r[2*i+1]*b[2+j].real()), "real x complex, real part");
    vf_check(vf_eq(c[2*i+j].imag(), r[2*i]*b[j].imag()+r[2*i+1]*b[2+j].imag()), "real x complex, imaginary part");
    vf_check(vf_eq(d[2*i+j].real(), r[j]*b[2*i].real()+r[2+j]*b[2*i+1].real()), "complex x real, real part");
    vf_check(vf_eq(d[2*i+j].imag(), r[j]*b[2*i].imag()+r[2+j]*b[2*i+1].imag()), "complex x real, imaginary part"); }
}
VF_NATIVE(mul_arrays_complex2){
  using C = std::complex<double>; auto A = vf::any_array<double,8>("A"); auto B = vf::any_array<double,8>("B"); C a[4], b[4], e[4];
  for (int i=0;i<4;++i){ a[i]=C(A[2*i],A[2*i+1]); b[i]=C(B[2*i],B[2*i+1]); }
  mul_arrays(e, size_t(2), size_t(2), size_t(2), a, b);
  for (int i=0;i<2;++i) for (int j=0;j<2;++j){ C s = a[2*i]*b[j]+a[2*i+1]*b[2+j]; vf_check(vf_eq(e[2*i+j].real(), s.real()) && vf_eq(e[2*i+j].imag(), s.imag()), "complex x complex"); }
}
VF_ENTRY(adjoint){
  auto A = vf::any_array<double,9>("A"); double J[9], P[9], Q[9]; matrix_adjoint(J, A.data()); double d = matrix_determinant(A.data());
  multiply_matrix_matrix<double,double,double,3>(P, A.data(), J); multiply_matrix_matrix<double,double,double,3>(Q, J, A.data());
  for (int i=0;i<9;++i){ vf_check(vf_eq(P[i], i%4 ? 0. : d), "A adj(A) = det(A) 1"); vf_check(vf_eq(Q[i], i%4 ? 0. : d), "adj(A) A = det(A) 1"); }
}
VF_ENTRY(adjoint_int){
  auto A = vf::any_int_array<int,9>("A",-300,300); int J[9], P[9]; matrix_adjoint(J, A.data()); int d = det3i(A.data());
  multiply_matrix_matrix<int,int,int,3>(P, A.data(), J);
  for (int i=0;i<9;++i) vf_check(P[i] == (i%4 ? 0 : d), "A adj(A) = det(A) 1 for integers");
}
VF_ENTRY(inverse){
  auto A = vf::any_array<double,9>("A"); double K[9], P[9], Q[9]; for (auto& k: K) k = 5; double d = det3(A.data()); double tol = vf::any_real("tol",0,1);
  vf_tame(std::abs(d) > 1e-2);
  bool ok = matrix_inverse(K, A.data(), tol);
  vf_check(vf_iff(ok, std::abs(d) > tol), "a matrix is reported invertible iff |det| > tol");
  if (ok) {
    multiply_matrix_matrix<double,double,double,3>(P, A.data(), K); multiply_matrix_matrix<double,double,double,3>(Q, K, A.data());
    for (int i=0;i<9;++i){ vf_check(vf_eq(P[i], i%4 ? 0. : 1.), "A inv(A) = 1"); vf_check(vf_eq(Q[i], i%4 ? 0. : 1.), "inv(A) A = 1"); }
  } else for (int i=0;i<9;++i) vf_check(vf_eq(K[i], 5.), "a singular matrix leaves the output unchanged");
}
VF_ENTRY(inverse_det){
  auto A = vf::any_array<double,9>("A"); double K[9]; vf_tame(std::abs(det3(A.data())) > 1e-2);
  vf_check(vf_eq(matrix_determinant_and_inverse(K, A.data()), det3(A.data())), "matrix_determinant_and_inverse returns the determinant");
  auto B = vf::any_array<double,4>("B"); double d = B[0]*B[3]-B[1]*B[2], I[4], P[4]; vf_assume(d != 0); vf_tame(std::abs(d) > 1e-2);
  vf_check(matrix_inverse(I, B.data(), 0., 2), "a regular 2x2 matrix is inverted"); multiply_matrix_matrix<double,double,double,2>(P, B.data(), I);
  for (int i=0;i<4;++i) vf_check(vf_eq(P[i], i%3 ? 0. : 1.), "2x2: A inv(A) = 1");
}
static std::array<int,9> unimodular(int w){ // natively: products of shears, so that the preconditions are met often
  auto A = vf::any_int_array<int,9>("A",-3,3);
  if (vf_native()){ auto a = A; int L[9]={1,0,0,a[0],1,0,a[1],a[2],1}, U[9]={w,a[3],a[4],0,1,a[5],0,0,1}; for (int i=0;i<3;++i) for (int j=0;j<3;++j){ A[3*i+j]=0; for (int k=0;k<3;++k) A[3*i+j]+=L[3*i+k]*U[3*k+j]; } }
  return A; }
static void inverse_int_case(int w){
  auto A = unimodular(w); int d = matrix_determinant(A.data()); vf_assume(d==w); int K[9], P[9];
  bool ok = matrix_inverse(K, A.data()); vf_check(ok, "unimodular integer matrices are inverted");
  multiply_matrix_matrix<int,int,int,3>(P, A.data(), K);
  for (int i=0;i<9;++i) vf_check(P[i] == (i%4 ? 0 : 1), "integer A inv(A) = 1");
}
VF_ENTRY(inverse_int){ inverse_int_case(1); }
VF_ENTRY(inverse_int_neg){ inverse_int_case(-1); }
VF_ENTRY(similar){
  auto A = vf::any_array<double,9>("A"); auto B = vf::any_array<double,9>("B"); double M[9], L[9], R[9]; vf_assume(det3(B.data()) != 0); vf_tame(std::abs(det3(B.data())) > 1e-1);
  bool ok = similar_matrix<double,3>(M, A.data(), B.data(), 0.); vf_check(ok, "a regular B gives a similar matrix");
  multiply_matrix_matrix<double,double,double,3>(L, B.data(), M); multiply_matrix_matrix<double,double,double,3>(R, A.data(), B.data());
  for (int i=0;i<9;++i) vf_check(vf_eq(L[i], R[i]), "B (inv(B) A B) = A B");
}
VF_ENTRY(transposes){
  auto A = vf::any_array<double,9>("A"); double C[9], D[9], E[6], G[9]; matrix_transpose<double,3>(C, A.data()); copy_matrix<double,3>(D, A.data()); matrix_transpose<double,3>(D);
  array_transpose<double,2,3>(E, A.data());
  for (int i=0;i<3;++i) for (int j=0;j<3;++j){ vf_check(vf_eq(C[3*i+j], A[3*j+i]), "(A^T)_ij = A_ji"); vf_check(vf_eq(D[3*i+j], A[3*j+i]), "in place transpose"); }
  for (int i=0;i<2;++i) for (int j=0;j<3;++j) vf_check(vf_eq(E[2*j+i], A[3*i+j]), "rectangular transpose");
  matrix_metric<double,3>(G, A.data());
  for (int i=0;i<3;++i) for (int j=0;j<3;++j) vf_check(vf_eq(G[3*i+j], A[i]*A[j]+A[3+i]*A[3+j]+A[6+i]*A[6+j]), "metric = A^T A");
}
VF_ENTRY(transpose_in_place_n){
  auto A = vf::any_array<double,16>("A"); double D[16], B[4]={A[0],A[1],A[2],A[3]}; copy_matrix<double,4>(D, A.data()); matrix_transpose<double,4>(D); matrix_transpose<double,2>(B);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) vf_check(vf_eq(D[4*i+j], A[4*j+i]), "in place transpose of a 4x4 matrix");
  for (int i=0;i<2;++i) for (int j=0;j<2;++j) vf_check(vf_eq(B[2*i+j], A[2*j+i]), "in place transpose of a 2x2 matrix");
}
VF_ENTRY(elementwise){
  auto A = vf::any_array<double,9>("A"); auto B = vf::any_array<double,9>("B"); double C[9], D[9], v[3];
  add_matrix<double,double,double,3>(C, A.data(), B.data()); subtract_matrix<double,double,double,3>(D, A.data(), B.data()); copy_vector<double,3>(v, A.data());
  for (int i=0;i<9;++i){ vf_check(vf_eq(C[i], A[i]+B[i]), "sum"); vf_check(vf_eq(D[i], A[i]-B[i]), "difference"); }
  for (int i=0;i<3;++i) vf_check(v[i] == A[i], "copy");
  double t = trace<double,3>(A.data()); vf_check(vf_eq(t, A[0]+A[4]+A[8]), "trace");
  vf_check(vf_eq((vector_norm_squared<double,3>(A.data())), A[0]*A[0]+A[1]*A[1]+A[2]*A[2]), "norm squared");
  vf_check(vf_eq((vector_dot<double,3>(A.data(), B.data())), A[0]*B[0]+A[1]*B[1]+A[2]*B[2]), "dot product");
}
VF_ENTRY(equality){
  auto A = vf::any_array<double,9>("A"); auto B = vf::any_array<double,9>("B"); double tol = vf::any_real("tol",0,2);
  if (vf::any_bool("same")) B = A;
  bool near = true, nearv = true; for (int i=0;i<9;++i) near = vf_and(near, std::abs(A[i]-B[i]) <= tol); for (int i=0;i<3;++i) nearv = vf_and(nearv, std::abs(A[i]-B[i]) <= tol);
  vf_check(vf_iff((equal_matrix<double,3>(A.data(), B.data(), tol)), near), "equal_matrix iff every element agrees within tol");
  vf_check(vf_iff((equal_vector<double,3>(A.data(), B.data(), tol)), nearv), "equal_vector iff every element agrees within tol");
}
VF_ENTRY(cross){
  auto A = vf::any_array<double,3>("A"); auto B = vf::any_array<double,3>("B"); double C[3]; vector_cross(C, A.data(), B.data());
  vf_check(vf_eq(C[0], A[1]*B[2]-A[2]*B[1]), "cross x"); vf_check(vf_eq(C[1], A[2]*B[0]-A[0]*B[2]), "cross y"); vf_check(vf_eq(C[2], A[0]*B[1]-A[1]*B[0]), "cross z");
}
VF_ENTRY(casting){
  double x = vf::any_real("x",-1e6,1e6); int i = my_cast<int,double>(x); double e = double(i)-x;
  vf_check(e <= 0.5 && e >= -0.5, "casting to an integer rounds to the nearest");
  int n = vf::any_int<int>("n",0,1000000); 
  vf_check((my_cast<int,double>(n+0.5)) == n+1 && (my_cast<int,double>(-n-0.5)) == -n-1, "ties round away from zero");
  auto A = vf::any_array<double,9>("A"); int M[9]; for (auto a: A) vf_assume(std::abs(a) < 1e6); cast_matrix<int,double,3>(M, A.data());
  for (int k=0;k<9;++k) vf_check(std::abs(double(M[k])-A[k]) <= 0.5, "cast_matrix rounds every element");
}
VF_ENTRY(is_int){
  auto A = vf::any_array<double,9>("A"); for (auto a: A) vf_assume(std::abs(a) < 1e6); double tol = vf::any_real("tol",0,0.4);
  bool all = true; for (int k=0;k<9;++k){ double f = std::floor(A[k]+0.5); all = vf_and(all, std::abs(f-A[k]) <= tol); }
  vf_check(vf_iff((is_int_matrix<double,double,3>(A.data(), tol)), all), "an integer matrix has every element within tol of an integer");
}
VF_ENTRY(modulo1){
  double x = vf::any_real("x",-1e6,1e6); double y = mod1(x); vf_check(vf_isint(x-y), "x - mod1(x) is an integer"); vf_check(y >= -1e-9 && y < 1+1e-9, "mod1(x) in [0,1]");
}
VF_NATIVE(det_4_native){
  auto A = vf::any_array<double,16>("A"); double K[16], P[16]; double d = matrix_determinant(A.data(),4); vf_tame(std::abs(d) > 1e-1); bool ok = matrix_inverse(K, A.data(), 0., 4); vf_check(ok, "4x4 inverted");
  multiply_matrix_matrix<double,double,double,4>(P, A.data(), K); for (int i=0;i<16;++i) vf_check(vf_eq(P[i], i%5 ? 0. : 1.), "4x4 A inv(A) = 1");
}

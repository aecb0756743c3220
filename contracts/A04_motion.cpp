//! * {"unroll": 40, "time": 200}
//! ascii_round_trip {"what": "translations k/n with n in 1,2,3,4,6,8,12 and rotation entries -1,0,1", "trials": 2000}
//! hall_translation {"what": "change-of-basis vectors in twelfths, -11..11", "trials": 500}
#include "verif.h"
#include <string>
#include <sstream>
#include <iostream>
#include "motion.hpp"
using M = brille::Motion<int,double>; using V3 = std::array<double,3>; using R3 = std::array<int,9>;
static R3 rot(const char* n, int k=3){ return vf::any_int_array<int,9>(n,-k,k); }
static int det3i(const int* m){ return m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]); }
static V3 tr(const char* n){ auto v = vf::any_array<double,3>(n); if (vf_native()) for (int i=0;i<3;++i) if (vf::any_bool("nice",i)) v[i] = vf::any_int<int>("n12",-24,24,i)/12.; return v; }
static double d(double x){ return x; }
static V3 act(const R3& W, const V3& w, const V3& p){ V3 o; for (int i=0;i<3;++i) o[i] = W[3*i]*p[0]+W[3*i+1]*p[1]+W[3*i+2]*p[2]+w[i]; return o; }

VF_ENTRY(action){
  auto W = rot("W"); auto w = tr("w"), p = tr("p"); M m(W, w); V3 e = act(W, w, p), z{0,0,0}, f = act(W, z, p);
  V3 q = m.move_point(p), v = m.move_vector(p), a = m.move_axial(p); double D = det3i(W.data());
  for (int i=0;i<3;++i){ vf_check(vf_eq(q[i], e[i]), "a point goes to W p + w"); vf_check(vf_eq(v[i], f[i]), "a vector goes to W v"); vf_check(vf_eq(a[i], D*f[i]), "an axial vector goes to det(W) W a");
    vf_check(m.gett()[i]==w[i], "the translation is kept"); }
  for (int i=0;i<9;++i) vf_check(m.getr()[i]==W[i], "the rotation is kept");
}
VF_ENTRY(constructors){
  auto W = rot("W"); auto w = tr("w"); M r(W), t(w), pr(std::make_pair(W, w));
  for (int i=0;i<9;++i){ vf_check(r.getr()[i]==W[i], "rotation only: rotation"); vf_check(t.getr()[i]==(i%4?0:1), "translation only: identity rotation"); vf_check(pr.getr()[i]==W[i], "pair: rotation"); }
  for (int i=0;i<3;++i){ vf_check(r.gett()[i]==0, "rotation only: no translation"); vf_check(t.gett()[i]==w[i], "translation only: translation"); vf_check(pr.gett()[i]==w[i], "pair: translation"); }
}
VF_ENTRY(product){
  auto A = rot("A"), B = rot("B"); auto a = tr("a"), b = tr("b"); M m = M(A,a)*M(B,b); V3 e = act(A, a, b);
  for (int i=0;i<3;++i) for (int j=0;j<3;++j) vf_check(m.getr()[3*i+j] == A[3*i]*B[j]+A[3*i+1]*B[3+j]+A[3*i+2]*B[6+j], "the rotation of a product is the product of the rotations");
  for (int i=0;i<3;++i){ double t = m.gett()[i]; vf_check(vf_isint(t-e[i]), "the translation of a product is A b + a up to lattice vectors"); vf_check(vf_and(t >= 0, vf_native() ? t <= 1 : t < 1), "translations are reduced to [0,1)"); }
}
VF_ENTRY(product_acts){
  auto A = rot("A",2), B = rot("B",2); auto a = tr("a"), b = tr("b"), p = tr("p"); M x(A,a), y(B,b); M m = x*y;
  V3 l = m.move_point(p), r = x.move_point(y.move_point(p)), u = m.move_vector(p), v = x.move_vector(y.move_vector(p));
  for (int i=0;i<3;++i){ vf_check(vf_isint(l[i]-r[i]), "a product acts on points as the composition of its factors, up to lattice vectors"); vf_check(vf_eq(u[i], v[i]), "a product acts on vectors as the composition of its factors"); }
}
VF_ENTRY(associative){
  auto A = rot("A",2), B = rot("B",2), C = rot("C",2); auto a = tr("a"), b = tr("b"), c = tr("c"); M x(A,a), y(B,b), z(C,c); M l = (x*y)*z, r = x*(y*z);
  for (int i=0;i<9;++i) vf_check(l.getr()[i]==r.getr()[i], "rotations multiply associatively");
  for (int i=0;i<3;++i) vf_check(vf_isint(l.gett()[i]-r.gett()[i]), "motions multiply associatively up to lattice vectors");
}
VF_ENTRY(identity){
  auto A = rot("A"); auto a = tr("a"); M e(R3{1,0,0,0,1,0,0,0,1}), x(A,a); M l = e*x, r = x*e;
  for (int i=0;i<9;++i) vf_check(vf_and(l.getr()[i]==A[i], r.getr()[i]==A[i]), "the identity keeps rotations");
  for (int i=0;i<3;++i) vf_check(vf_and(vf_isint(l.gett()[i]-a[i]), vf_isint(r.gett()[i]-a[i])), "the identity keeps translations");
}
static R3 unimodular(int w){
  auto A = rot("A"); if (vf_native()){ auto a = A; int L[9]={1,0,0,a[0],1,0,a[1],a[2],1}, U[9]={w,a[3],a[4],0,1,a[5],0,0,1}; for (int i=0;i<3;++i) for (int j=0;j<3;++j){ A[3*i+j]=0; for (int k=0;k<3;++k) A[3*i+j]+=L[3*i+k]*U[3*k+j]; } }
  return A; }
static void inverse_case(int w, bool left){
  auto A = unimodular(w); auto a = tr("a"); vf_assume(det3i(A.data())==w); M x(A,a); M i = x.inverse(); M p = left ? i*x : x*i;
  for (int k=0;k<9;++k) vf_check(p.getr()[k]==(k%4?0:1), left ? "inverse times motion is the identity rotation" : "motion times inverse is the identity rotation");
  for (int k=0;k<3;++k){ vf_check(vf_isint(p.gett()[k]), left ? "inverse times motion does not translate" : "motion times inverse does not translate"); double t = i.gett()[k]; vf_check(vf_and(t >= 0, vf_native() ? t <= 1 : t < 1), "translations of inverses are reduced to [0,1)"); }
}
VF_ENTRY(inverse_right){ inverse_case(1, false); }
VF_ENTRY(inverse_right_neg){ inverse_case(-1, false); }
VF_ENTRY(inverse_left){ inverse_case(1, true); }
VF_ENTRY(inverse_left_neg){ inverse_case(-1, true); }
VF_ENTRY(equality){
  auto A = rot("A"); auto a = tr("a"); R3 B = A; V3 b; bool far = false, same = true; int c = vf::any_int<int>("k",0,9); if (c < 9) { B[c] += vf::any_int<int>("delta",-2,2); }
  for (int i=0;i<3;++i){ b[i] = a[i] + vf::any_int<int>("lat",-3,3,i); }
  for (int i=0;i<9;++i) same = vf_and(same, A[i]==B[i]);
  vf_check(vf_iff(M(A,a)==M(B,b), same), "translations differing by lattice vectors are equal, rotations must agree");
  vf_check(vf_iff(M(A,a)!=M(B,b), !same), "inequality is the negation of equality");
}
VF_ENTRY(equality_translation){
  auto A = rot("A"); auto a = tr("a"); V3 b = a; int k = vf::any_int<int>("axis",0,2); double f = vf::any_real("f",1e-3,1-1e-3); for (int i=0;i<3;++i) b[i] = a[i] + vf::any_int<int>("lat",-3,3,i) + (i==k ? f : 0.);
  vf_check(!(M(A,a)==M(A,b)), "translations differing by a fraction of a lattice vector are not equal");
}
VF_ENTRY(equality_matrix){
  auto A = rot("A"); auto B = vf_native() && vf::any_bool("same") ? A : rot("B"); auto a = tr("a"); bool same = true; for (int i=0;i<9;++i) same = vf_and(same, A[i]==B[i]);
  vf_check(vf_iff(M(A,a).equal_matrix(B), same), "comparison with a rotation ignores the translation");
}
VF_ENTRY(identity_tests){
  R3 W{1,0,0,0,1,0,0,0,1}; int c = vf::any_int<int>("k",0,9), dl = vf::any_int<int>("delta",-2,2); if (c < 9) W[c] += dl; V3 w{0,0,0}; int t = vf::any_int<int>("t",0,3); double f = vf::any_int<int>("tw",-24,24)/24.; if (t < 3) w[t] = f;
  M m(W,w); vf_check(vf_iff(m.has_identity_rotation(), vf_or(c==9, dl==0)), "has_identity_rotation iff the rotation is the identity"); vf_check(vf_iff(m.has_identity_translation(), vf_or(t==3, f==0)), "has_identity_translation iff the translation vanishes");
}
VF_ENTRY(mixed_product){
  using D = brille::Motion<double,double>; auto A = rot("A"); auto a = tr("a"), b = tr("b"); D t(b); M m(A,a); M l = m*t, r = t*m; V3 e = act(A, a, b);
  for (int i=0;i<9;++i) vf_check(vf_and(l.getr()[i]==A[i], r.getr()[i]==A[i]), "a change of origin keeps the rotation");
  for (int i=0;i<3;++i){ vf_check(vf_isint(l.gett()[i]-e[i]), "motion times shift"); vf_check(vf_isint(r.gett()[i]-(a[i]+b[i])), "shift times motion"); }
}
VF_NATIVE(ascii_round_trip){
  R3 W = rot("W",1); int den[7] = {1,2,3,4,6,8,12}; V3 w; for (int i=0;i<3;++i){ int n = den[vf::any_int<int>("den",0,6,i)]; w[i] = double(vf::any_int<int>("num",0,n-1,i))/n; if (w[i] != 0) for (int u=vf::any_int<int>("ulp",-2,2,i); u; u += u<0 ? 1 : -1) w[i] = std::nextafter(w[i], u<0 ? 0. : 1.); }
  for (int i=0;i<3;++i) vf_assume(W[3*i]||W[3*i+1]||W[3*i+2]);
  M m(W,w), r(m.to_ascii()); vf_check(r==m, "writing and reading a motion gives it back");
}
VF_NATIVE(hall_translation){
  using D = brille::Motion<double,double>; int v[3]; for (int i=0;i<3;++i) v[i] = vf::any_int<int>("v",-11,11,i);
  D m(std::to_string(v[0])+" "+std::to_string(v[1])+" "+std::to_string(v[2]), true); for (int i=0;i<9;++i) vf_check(m.getr()[i]==(i%4?0:1), "an origin shift has the identity rotation"); for (int i=0;i<3;++i) vf_check(vf_eq(m.gett()[i], v[i]/12.), "origin shifts are read in twelfths");
}

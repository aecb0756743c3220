// Specification interface used by the contract files in /verif/contracts.
//
// A contract file includes the real brille headers/sources and states, per
// function (or per group of functions that only make sense together),
//   requires  -> vf_assume(...)
//   ensures   -> vf_check(cond, "obligation name")
//   spec fns  -> extern "C" functions named vfspec_* (recursive definitions)
//   loop invariants -> vf::invariant(lambda): predicates with holes which the
//                verifier instantiates with the loop variables it finds
// It is compiled twice from the same text:
//   * VF_SYM: clang -> LLVM IR -> irdump -> vcgen.py (proof, all inputs)
//   * native: g++ -> replay of counterexamples and search for failing inputs
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cmath>
#include <type_traits>
#include <array>
#include <vector>
#include <limits>

extern "C" {
double  vf_in_real(const char* name, long idx);
double  vf_in_real_range(const char* name, long idx, double lo, double hi);
int64_t vf_in_int(const char* name, long idx, int64_t lo, int64_t hi, int bits);
void    vf_assume_(int cond);
void    vf_check_(int cond, const char* label);
int     vf_eqr_(double a, double b);
int     vf_isint_(double a);
int     vf_try_(void (*f)(void*), void* ctx);
int     vf_forall_(int64_t lo, int64_t hi, int (*f)(void*, int64_t), void* ctx);
int     vf_exists_(int64_t lo, int64_t hi, int (*f)(void*, int64_t), void* ctx);
void    vf_invariant_(const char* name, const char* sig, void* fn, void* ctx);
void*   vf_array_(const char* name, size_t n, size_t elsize, int kind, int64_t lo, int64_t hi);
int     vf_native(void);
void    vf_cover_(const char* label);
void    vf_note_(const char* name, double v);
}
static inline void vf_assume(bool c){ vf_assume_(c ? 1 : 0); }
static inline void vf_check(bool c, const char* l){ vf_check_(c ? 1 : 0, l); }
/// equality of reals: exact in the proof, within rounding when run natively
static inline bool vf_eq(double a, double b){ return vf_eqr_(a, b) != 0; }
static inline bool vf_isint(double a){ return vf_isint_(a) != 0; }
static inline bool vf_eq(int a, int b){ return a == b; }
static inline bool vf_eq(long a, long b){ return a == b; }
/// non-forking boolean connectives
static inline bool vf_and(bool a, bool b){ return (int(a) & int(b)) != 0; }
static inline bool vf_or(bool a, bool b){ return (int(a) | int(b)) != 0; }
static inline bool vf_implies(bool a, bool b){ return ((int(!a)) | int(b)) != 0; }
static inline bool vf_iff(bool a, bool b){ return int(a) == int(b); }
/// a restriction of the natively generated inputs (keeps them well conditioned);
/// it is not an assumption of the proof
#ifdef VF_SYM
#define vf_tame(c) ((void)0)
#else
#define vf_tame(c) vf_assume(c)
#endif
namespace vf {
  template<class T> T any_int(const char* n, int64_t lo, int64_t hi, long idx=-1){ return static_cast<T>(vf_in_int(n, idx, lo, hi, 8*sizeof(T))); }
  static inline double any_real(const char* n, long idx=-1){ return vf_in_real(n, idx); }
  static inline double any_real(const char* n, double lo, double hi, long idx=-1){ return vf_in_real_range(n, idx, lo, hi); }
  template<class T> T any(const char* n, long idx=-1){
    if constexpr (std::is_floating_point_v<T>) return static_cast<T>(vf_in_real(n, idx));
    else return any_int<T>(n, -1000, 1000, idx);
  }
  static inline bool any_bool(const char* n, long idx=-1){ return vf_in_int(n, idx, 0, 1, 8) != 0; }
  template<class T, size_t N> std::array<T,N> any_array(const char* n){
    std::array<T,N> a; for (size_t i=0;i<N;++i) a[i] = any<T>(n, long(i)); return a; }
  template<class T, size_t N> std::array<T,N> any_int_array(const char* n, int64_t lo, int64_t hi){
    std::array<T,N> a; for (size_t i=0;i<N;++i) a[i] = any_int<T>(n, lo, hi, long(i)); return a; }
  /// array of symbolic length n (kind 0: reals, 1: integers in [lo,hi])
  template<class T> T* array(const char* n, size_t len, int64_t lo=-1000, int64_t hi=1000){
    return static_cast<T*>(vf_array_(n, len, sizeof(T), std::is_floating_point_v<T> ? 0 : (std::is_signed_v<T> ? 1 : 2), lo, hi)); }
  template<class F> bool throws(F&& f){
    return vf_try_([](void* c){ (*static_cast<std::remove_reference_t<F>*>(c))(); }, (void*)&f) != 0; }
  template<class F> bool forall(int64_t lo, int64_t hi, F&& f){
    return vf_forall_(lo, hi, [](void* c, int64_t k)->int{ return (*static_cast<std::remove_reference_t<F>*>(c))(k) ? 1 : 0; }, (void*)&f) != 0; }
  template<class F> bool exists(int64_t lo, int64_t hi, F&& f){
    return vf_exists_(lo, hi, [](void* c, int64_t k)->int{ return (*static_cast<std::remove_reference_t<F>*>(c))(k) ? 1 : 0; }, (void*)&f) != 0; }
  template<class F> void invariant_i(const char* n, F& f){
    vf_invariant_(n, "i", (void*)(int(*)(void*,int64_t))[](void*c,int64_t a)->int{ return (*static_cast<F*>(c))(a)?1:0; }, (void*)&f); }
  template<class F> void invariant_ir(const char* n, F& f){
    vf_invariant_(n, "ir", (void*)(int(*)(void*,int64_t,double))[](void*c,int64_t a,double r)->int{ return (*static_cast<F*>(c))(a,r)?1:0; }, (void*)&f); }
  template<class F> void invariant_irr(const char* n, F& f){
    vf_invariant_(n, "irr", (void*)(int(*)(void*,int64_t,double,double))[](void*c,int64_t a,double r,double q)->int{ return (*static_cast<F*>(c))(a,r,q)?1:0; }, (void*)&f); }
  template<class F> void invariant_irrr(const char* n, F& f){
    vf_invariant_(n, "irrr", (void*)(int(*)(void*,int64_t,double,double,double))[](void*c,int64_t a,double r,double q,double p)->int{ return (*static_cast<F*>(c))(a,r,q,p)?1:0; }, (void*)&f); }
  template<class F> void invariant_ib(const char* n, F& f){
    vf_invariant_(n, "ib", (void*)(int(*)(void*,int64_t,bool))[](void*c,int64_t a,bool r)->int{ return (*static_cast<F*>(c))(a,r)?1:0; }, (void*)&f); }
  template<class F> void invariant_ii(const char* n, F& f){
    vf_invariant_(n, "ii", (void*)(int(*)(void*,int64_t,int64_t))[](void*c,int64_t a,int64_t r)->int{ return (*static_cast<F*>(c))(a,r)?1:0; }, (void*)&f); }
  template<class F> void invariant_(const char* n, F& f){
    vf_invariant_(n, "", (void*)(int(*)(void*))[](void*c)->int{ return (*static_cast<F*>(c))()?1:0; }, (void*)&f); }
}
#ifdef VF_SYM
#define VF_ENTRY(name) extern "C" void vf_entry_##name()
#define VF_NATIVE(name) static void vf_unused_##name()
#else
extern "C" void vf_register_(const char*, void(*)(), int);
namespace vf { struct Reg { Reg(const char* n, void(*f)(), int k){ vf_register_(n, f, k); } }; }
#define VF_ENTRY(name) extern "C" void vf_entry_##name(); static vf::Reg vf_reg_##name(#name, vf_entry_##name, 0); extern "C" void vf_entry_##name()
#define VF_NATIVE(name) extern "C" void vf_entry_##name(); static vf::Reg vf_reg_##name(#name, vf_entry_##name, 1); extern "C" void vf_entry_##name()
#endif

// Native side of the specification interface: runs the same contract entries
// against the compiled brille code, either on inputs read from a replay file or
// on generated inputs (search for failing inputs).
#include "verif.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <map>
#include <random>
#include <chrono>
#include <exception>
#include <stdexcept>
#include <csignal>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/personality.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
namespace {
struct AssumeFail {};
struct CheckFail { std::string label; };
struct Entry { const char* name; void (*f)(); int native; };
std::vector<Entry>& entries(){ static std::vector<Entry> e; return e; }
struct Shared { volatile long trial, run, skipped, checks, distinct; volatile int pos; char label[512]; char buf[1<<16]; };
Shared* sh = nullptr;
std::map<std::string,double> given; std::map<std::string,std::vector<double>> given_arr; bool replay = false;
std::map<std::string,double> vals; std::map<std::string,void*> arrs; std::vector<void*> owned;
std::map<std::string,long long> ivals;
std::mt19937_64 gen; int style = 0;
double u01(){ return std::uniform_real_distribution<double>(0,1)(gen); }
long ri(long a, long b){ return std::uniform_int_distribution<long>(a,b)(gen); }
double nice(){
  int s = style; if (s == 5) s = int(ri(0,4));
  switch (s) {
    case 0: return double(ri(-3,3));
    case 1: { static const double d[] = {2,3,4,6,8}; return double(ri(-12,12))/d[ri(0,4)]; }
    case 2: return 2*u01()-1;
    case 3: return 20*u01()-10;
    default: { static const double t[]={0,0,1,-1,0.5,-0.5,1e-3,-1e-3,0.25,2,100,-100,1e-9,0.1,-0.1,1./3,-1./3,1.5,7,-0.999}; return t[ri(0,19)]; }
  }
}
void logv(const std::string& k, double v){
  if (!sh) return; int p = sh->pos; if (p > (1<<16)-300) return;
  p += snprintf(sh->buf+p, 256, "%s=%.17g\n", k.c_str(), v); sh->pos = p;
}
void logi(const std::string& k, long long v){
  if (!sh) return; int p = sh->pos; if (p > (1<<16)-300) return;
  p += snprintf(sh->buf+p, 256, "%s=%lld\n", k.c_str(), v); sh->pos = p;
}
std::string key(const char* n, long i){ return std::string(n) + "|" + std::to_string(i); }
void clear(){ vals.clear(); ivals.clear(); arrs.clear(); for (auto p: owned) free(p); owned.clear(); if (sh) { sh->pos = 0; sh->buf[0]=0; } }
}
extern "C" void vf_register_(const char* n, void(*f)(), int nat){ entries().push_back({n,f,nat}); }
extern "C" {
int vf_native(void){ return 1; }
double vf_in_real(const char* n, long i){
  auto k = key(n,i); auto it = vals.find(k); if (it != vals.end()) return it->second;
  double v; if (replay) { auto g = given.find(k); v = g==given.end()?0.0:g->second; } else v = nice();
  vals[k]=v; logv(k,v); return v; }
double vf_in_real_range(const char* n, long i, double lo, double hi){
  auto k = key(n,i); auto it = vals.find(k); if (it != vals.end()) return it->second;
  double v; if (replay) { auto g = given.find(k); v = g==given.end()?lo:g->second; }
  else { int t=0; do { v = nice(); } while ((v<lo||v>hi) && ++t<4); double r=u01();
    if (v<lo||v>hi) v = lo+(hi-lo)*u01();
    if (r<0.05) v=lo; else if (r<0.1) v=hi; else if (r<0.15) v=(lo+hi)/2; }
  if (v<lo) v=lo; if (v>hi) v=hi;
  vals[k]=v; logv(k,v); return v; }
int64_t vf_in_int(const char* n, long i, int64_t lo, int64_t hi, int){
  auto k = key(n,i); auto it = ivals.find(k); if (it != ivals.end()) return it->second;
  int64_t v; if (replay) { auto g = given.find(k); v = g==given.end()?((lo<=0&&hi>=0)?0:lo):(int64_t)g->second; }
  else { double r=u01();
    if (hi-lo < 0 || r < 0.55) { // near small numbers when possible
      int64_t a = lo>-4?lo:(hi<-4?hi-8:-4), b = hi<6?hi:(lo>6?lo+8:6); if (a<lo) a=lo; if (b>hi) b=hi; v=(a<=b)?ri(a,b):lo; }
    else if (r<0.6) v=lo; else if (r<0.65) v=hi; else v=ri(lo,hi); }
  if (v<lo) v=lo; if (v>hi) v=hi;
  ivals[k]=v; logi(k,v); return v; }
void vf_assume_(int c){ if (!c) throw AssumeFail{}; }
void vf_check_(int c, const char* l){ if (sh) { sh->checks = sh->checks+1; } if (!c) throw CheckFail{l}; }
int vf_eqr_(double a, double b){
  if (a==b) return 1; if (a!=a && b!=b) return 1; if (std::isinf(a)||std::isinf(b)) return 0;
  double m = std::max(std::abs(a),std::abs(b)); return std::abs(a-b) <= 1e-6*(1.0+m); }
int vf_isint_(double a){ return std::abs(a-std::round(a)) <= 1e-6; }
int vf_try_(void (*f)(void*), void* c){
  try { f(c); } catch (AssumeFail&) { throw; } catch (CheckFail&) { throw; } catch (...) { return 1; } return 0; }
int vf_forall_(int64_t lo, int64_t hi, int (*f)(void*,int64_t), void* c){ for (int64_t k=lo;k<hi;++k) if (!f(c,k)) return 0; return 1; }
int vf_exists_(int64_t lo, int64_t hi, int (*f)(void*,int64_t), void* c){ for (int64_t k=lo;k<hi;++k) if (f(c,k)) return 1; return 0; }
void vf_invariant_(const char*, const char*, void*, void*){}
void vf_cover_(const char*){}
void vf_note_(const char*, double){}
void* vf_array_(const char* n, size_t len, size_t es, int kind, int64_t lo, int64_t hi){
  auto it = arrs.find(n); if (it != arrs.end()) return it->second;
  if (len > 4096) throw AssumeFail{};
  char* p = (char*)malloc(len*es ? len*es : 1); owned.push_back(p); arrs[n]=p;
  for (size_t i=0;i<len;++i){
    if (kind==0) { double v = replay ? (given_arr.count(n)&&i<given_arr[n].size()?given_arr[n][i]: (given.count(key(n,(long)i))?given[key(n,(long)i)]:0.0)) : nice(); logv(key(n,(long)i),v);
      if (es==8) ((double*)p)[i]=v; else ((float*)p)[i]=(float)v; }
    else { int64_t v; if (replay) v = given_arr.count(n)&&i<given_arr[n].size()?(int64_t)given_arr[n][i]:(given.count(key(n,(long)i))?(int64_t)given[key(n,(long)i)]:lo); else v = u01()<0.5 ? ri(lo<-3?-3:lo, hi>3?3:hi) : ri(lo,hi); if (v<lo) v=lo; if (v>hi) v=hi; logi(key(n,(long)i),v);
      switch (es) { case 1: ((int8_t*)p)[i]=(int8_t)v; break; case 2: ((int16_t*)p)[i]=(int16_t)v; break; case 4: ((int32_t*)p)[i]=(int32_t)v; break; default: ((int64_t*)p)[i]=v; } }
  }
  return p; }
}
static int run_one(const Entry& e, std::string& label){
  clear();
  try { e.f(); } catch (AssumeFail&) { return 2; }
  catch (CheckFail& c) { label = c.label; return 1; }
  catch (std::exception& x) { label = std::string("unexpected exception: ") + x.what(); return 1; }
  catch (...) { label = "unexpected exception"; return 1; }
  return 0; }
static void on_alarm(int){ const char m[]="vf: entry did not terminate\n"; (void)!write(2,m,sizeof m-1); _exit(97); }
int main(int argc, char** argv){
  std::string mode = argc>1?argv[1]:"";
  // the same addresses in every run, where the system allows it
  { int old = personality(0xffffffff); if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && !getenv("VF_FIXED") && personality(unsigned(old) | ADDR_NO_RANDOMIZE) != -1) { setenv("VF_FIXED", "1", 1); execv("/proc/self/exe", argv); } }
  if (mode == "--list") { for (auto& e: entries()) printf("%s %d\n", e.name, e.native); return 0; }
  if (argc < 3) return 64;
  const Entry* E = nullptr; for (auto& e: entries()) if (!strcmp(e.name, argv[2])) E = &e;
  if (!E) { fprintf(stderr, "no such entry\n"); return 64; }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (mode == "--replay") {  // file of lines key=value / name|arr=v,v,v
    replay = true; std::ifstream f(argv[3]); std::string l;
    while (std::getline(f,l)) { auto p=l.rfind('='); if (p==std::string::npos) continue; std::string k=l.substr(0,p), v=l.substr(p+1);
      if (k.size()>4 && k.substr(k.size()-4)=="|arr") { std::stringstream ss(v); std::string x; while (std::getline(ss,x,',')) given_arr[k.substr(0,k.size()-4)].push_back(atof(x.c_str())); }
      else given[k]=strtod(v.c_str(),nullptr); }
  }
  unsigned long seed = mode=="--search" ? strtoul(argv[3],nullptr,10) : 0; long trials = mode=="--search" ? atol(argv[4]) : 1; double tlim = mode=="--search" ? atof(argv[5]) : 1e9;
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGALRM, on_alarm);
    auto t0 = std::chrono::steady_clock::now(); unsigned long long hmask=0; (void)hmask;
    std::map<size_t,int> seen;
    for (long t=0;t<trials;++t){
      alarm(mode=="--replay"?120:200);
      gen.seed(seed*1000003UL + t); style = int(t%6); sh->trial = t; std::string label;
      int r = run_one(*E, label);
      if (r==1) { snprintf(sh->label, sizeof sh->label, "%s", label.c_str()); _exit(1); }
      if (r==2) sh->skipped = sh->skipped+1; else { sh->run = sh->run+1; size_t h = std::hash<std::string>()(std::string(sh->buf)); if (seen.size()<2000000 && !seen.count(h)) { seen[h]=1; sh->distinct = sh->distinct+1; } }
      if (std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count() > tlim) break;
    }
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  bool fail = false; std::string why;
  if (WIFEXITED(st) && WEXITSTATUS(st)==0) {}
  else if (WIFEXITED(st) && WEXITSTATUS(st)==1 && sh->label[0]) { fail = true; why = sh->label; }
  else if (WIFEXITED(st) && WEXITSTATUS(st)==97) { fail = true; why = "did not terminate"; }
  else if (WIFEXITED(st)) { fail = true; why = "memory error reported by the sanitizer"; }
  else { fail = true; why = std::string("killed by signal ") + strsignal(WTERMSIG(st)); if (WTERMSIG(st)==SIGKILL) { printf("KILLED\n"); return 3; } }
  printf("%s run=%ld skipped=%ld checks=%ld distinct=%ld\n", fail?"FAIL":"OK", (long)sh->run, (long)sh->skipped, (long)sh->checks, (long)sh->distinct);
  if (fail) printf("label=%s\n", why.c_str());
  printf("inputs:\n%s", sh->buf);
  return fail?1:0;
}

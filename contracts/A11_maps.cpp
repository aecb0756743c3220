//! * {"unroll": 60, "time": 300, "prove_to": 5000, "nsw": "check"}
//! reduce_2_1 {"prio": 5}
//! combine_1_2 {"prio": 5}
//! reduce_many {"what": "up to five threads, up to 5 nodes each of up to 4 vertices", "trials": 1500, "ntime": 20}
//! table_many {"what": "up to 5 vertices, histories of up to 12 operations against a plain table", "trials": 2000, "ntime": 10}
#include <tuple>
#include <memory>
#include <complex>
#include <algorithm>
#include <numeric>
#include <sstream>
#include "verif.h"
#include "stdmap.h"
#include "array_.hpp"
#include "approx_config.hpp"
#include "vertex_map_knit.h"
#include "permutation_table.hpp"
using namespace brille; using A = Array2<double>; using VMS = VertexMapSet<double,Array2>; using VIM = VertexIndexMap; using MT = MapVertexType; using Pair = std::pair<VMS,VIM>;
static unsigned pick(const char* nm, unsigned hi, long i=-1){ unsigned k = vf::any_int<unsigned>(nm,0,hi,i), c = 0; for (; c<k; ++c); return c; }
/// vertices: points on a line, those differing in position differ by at least one
static double at(unsigned k, double x0){ return x0 + 2.*k; }
static A point(double x){ return A(1,1,x); }
struct World { double x0; unsigned n; A knots; };
static World world(unsigned nmin, unsigned nmax){ World w; w.x0 = vf::any_real("x0"); vf_assume(w.x0 > -100 && w.x0 < 100); w.n = nmin+pick("n",nmax-nmin); w.knots = A(w.n,1); for (unsigned i=0;i<w.n;++i) w.knots.val(i,0) = at(i,w.x0); return w; }
static bool same(double a, double b){ return vf_and(a-b < 0.1, b-a < 0.1); }
/// the vertex an index stands for once the set is consolidated
static double vertex(const VMS& s, const A& all, std::pair<MT,ind_t> r){ return all.val(r.first==MT::Pristine ? r.second : s.preserved_count()+r.second, 0); }
// ---- one set: every vertex added gets one index, which finds it again
static void adding(unsigned nmin, unsigned nmax, unsigned ops){ auto w = world(nmin,nmax); VMS s(w.knots, 1e-6, 1000); unsigned pos[8]; std::pair<MT,ind_t> r[8]; bool kind = true; for (unsigned i=0;i<ops;++i) { unsigned k = pick("op",2,i); if (k==0) { pos[i] = pick("at",w.n-1,i); r[i] = s.preserve(pos[i]); } else { pos[i] = pick("at",w.n+1,i); if (k==2 && pos[i]<w.n) return; r[i] = s.add(point(at(pos[i],w.x0)), k==1 ? AddVertexType::Unknown : AddVertexType::Crafted); } kind = kind && (r[i].first==MT::Pristine)==(pos[i]<w.n) && (r[i].first==MT::Pristine || r[i].first==MT::Appended); }
  vf_check(kind, "known vertices are marked as such"); auto c = s.consolidate(); A all = c.pristine(); bool found = true, uniq = true; unsigned kept = 0, extra = 0; for (unsigned p=0;p<w.n+2;++p) { bool u = false; for (unsigned i=0;i<ops;++i) u = u || pos[i]==p; (p<w.n ? kept : extra) += u; } for (unsigned i=0;i<ops;++i) { found = vf_and(found, same(vertex(s,all,r[i]), at(pos[i],w.x0))); for (unsigned j=0;j<i;++j) uniq = uniq && (pos[i]==pos[j])==(r[i]==r[j]); }
  vf_check(found, "the index given finds the vertex"); vf_check(uniq, "equal vertices share one index, others do not"); vf_check(s.preserved_count()==kept && s.appended_count()==extra && all.size(0)==kept+extra && c.appended_count()==0, "nothing else is kept"); vf_check(c.is_consolidated() && c.preserved_count()==kept+extra, "and the result is consolidated"); bool in = s.pristine_count()==w.n; A p = s.pristine(); for (unsigned i=0;i<w.n;++i) in = vf_and(in, p.val(i,0)==at(i,w.x0)); vf_check(in, "known vertices stay"); }
VF_ENTRY(add_1){ adding(2,3,1); } VF_ENTRY(add_2){ adding(2,2,2); } VF_ENTRY(add_single){ adding(1,1,2); } VF_NATIVE(add_many){ adding(1,4,vf::any_int<unsigned>("ops",1,8)); }
VF_ENTRY(origin){ auto w = world(1,2); VMS s(w.knots, 1e-6, 1000); unsigned z = pick("zero",2); vf_assume(z<2 ? w.x0 == -2.*z : (w.x0 > 1 || w.x0 < -9)); auto r = s.origin_index(); bool known = z<w.n && z<2; vf_check(r.first==(known ? MT::Pristine : MT::Appended) && r.second==0, "the origin is found or added"); vf_check(same(vertex(s,s.consolidate().pristine(),r), 0), "as zero"); vf_check(s.origin_index()==r, "once"); }
// ---- maps of nodes
VF_ENTRY(index_map){ VIM m; unsigned n0 = pick("node",2), n1 = pick("node",2,1); using R = VIM::rel_t; R a{MT::Pristine, vf::any_int<unsigned>("a",0,9)}, b{MT::Appended, vf::any_int<unsigned>("b",0,9)}; m.append(n0,a); m.append(n0,b); vf_check(m.size()==1 && m.has(n0) && m.has(n1)==(n0==n1), "nodes added are known"); vf_check(m.get(n0,0)==a && m.get(n0,1)==b, "their vertices in order"); vf_check(vf::throws([&]{ m.get(n0,2); }) && (n0==n1 || vf::throws([&]{ m.get(n1,0u); })), "unknown vertices and nodes are reported");
  ind_t off = vf::any_int<unsigned>("off",0,1000); vf_check(m.decode(off,n0,0)==a.second && m.decode(off,n0,1)==off+b.second, "appended vertices follow the kept ones"); auto d = m.decode(off,n0); vf_check(d.size()==2 && d[0]==a.second && d[1]==off+b.second, "for a whole node too"); auto c = m.first_copy(), s = m.second_copy(); vf_check(s.has_second() && !m.has_second() && !c.has_second(), "second copies are marked"); vf_check(s.get(n0,0)==R(MT::SecondPristine,a.second) && s.get(n0,1)==R(MT::SecondAppended,b.second), "and hold the same"); vf_check(vf::throws([&]{ s.decode(off,n0,0); }) && vf::throws([&]{ s.decode(off,n0); }) && vf::throws([&]{ s.second_copy(); }), "but can not be used yet");
  R t{MT::Pristine,77}; c.replace(b,t); vf_check(c.get(n0,0)==a && c.get(n0,1)==t && m.get(n0,1)==b, "replacing changes the one meant"); VIM o; o.append(n1,t); bool left = c.merge(o); vf_check(left==(n0==n1), "only new nodes merge"); vf_check(left ? c.get(n1,0)==a && o.size()==1 : (c.get(n1,0)==t && c.size()==2 && o.size()==0), "and join"); c.set(n0,0,b); vf_check(c.get(n0,0)==b, "set replaces"); c.get(5u).resize(3); vf_check(c.has(5) && c.get(5u).size()==3 && !m.has(5), "new nodes start where named"); }
// ---- knitting together what threads found
struct Node { unsigned id, n; unsigned pos[4]; };
static Pair thread(const World& w, const Node* b, const Node* e){ VMS s(w.knots, 1e-6, 1000); VIM m; for (auto p=b;p!=e;++p) { auto& g = m.get(p->id); g.resize(p->n); for (unsigned j=0;j<p->n;++j) g[j] = p->pos[j]<w.n ? s.preserve(p->pos[j]) : s.add(point(at(p->pos[j],w.x0)), AddVertexType::Crafted); } return std::make_pair(s,m); }
static void knitted(const World& w, const Pair& r, const Node* b, const Node* e, const char* what, const char* few){ A all = r.first.consolidate().pristine(); bool ok = true, size = true; unsigned used = 0; for (auto p=b;p!=e;++p) { auto d = r.second.decode(r.first.preserved_count(), p->id); size = size && d.size()==p->n; for (unsigned j=0;j<p->n && size;++j) ok = vf_and(ok, d[j]<all.size(0) && same(all.val(d[j],0), at(p->pos[j],w.x0))); } for (unsigned k=0;k<w.n+4;++k) { bool u = false; for (auto p=b;p!=e;++p) for (unsigned j=0;j<p->n;++j) u = u || p->pos[j]==k; used += u; } vf_check(size, "every node keeps its number of vertices"); vf_check(ok, what); vf_check(all.size(0)==used && r.second.size()==size_t(e-b), few); }
static Node node(const World& w, unsigned id, unsigned n, long c){ Node x; x.id = id; x.n = n; for (unsigned j=0;j<n;++j) x.pos[j] = pick("pos",w.n+1,4*c+j); return x; }
static void two(unsigned n0, unsigned n1, int kind, bool again){ auto w = world(2,2); Node x[2] = {node(w,3,n0,0), node(w,1,n1,1)}; auto a = thread(w,x,x+1), b = thread(w,x+1,x+2); auto pa = a.first.preserved(), pb = b.first.preserved(); if (kind==0) { auto r = vertex_maps::combine(a,b); knitted(w,r,x,x+2,"every node finds its vertices","and none is kept twice"); vf_check(!r.second.has_second(), "all are placed"); } else { std::vector<Pair> v{a,b}; auto r = kind==1 ? vertex_maps::reduce(v) : vertex_maps::parallel_reduce(v); knitted(w,r,x,x+2,"every node finds its vertices","and none is kept twice"); vf_check(r.first.is_consolidated() && r.first.appended_count()==0, "the set is consolidated"); }
  knitted(w,a,x,x+1,"the first is unchanged","the first gains nothing"); knitted(w,b,x+1,x+2,"the second is unchanged","the second gains nothing"); vf_check(a.first.preserved()==pa && b.first.preserved()==pb, "nor do their known vertices"); (void)again; }
VF_ENTRY(combine_1_1){ two(1,1,0,false); } VF_ENTRY(combine_1_2){ two(1,2,0,false); } VF_ENTRY(reduce_1_1){ two(1,1,1,false); } VF_ENTRY(reduce_2_1){ two(2,1,1,false); }
VF_ENTRY(combine_shared){ auto w = world(2,2); Node x[2] = {node(w,1,1,0), node(w,1,1,1)}; auto a = thread(w,x,x+1), b = thread(w,x+1,x+2); vf_check(vf::throws([&]{ vertex_maps::combine(a,b); }), "a node found twice is reported"); }
VF_ENTRY(reduce_three){ auto w = world(1,1); Node x[3] = {node(w,3,1,0), node(w,1,1,1), node(w,2,1,2)}; std::vector<Pair> v; for (int i=0;i<3;++i) v.push_back(thread(w,x+i,x+i+1)); knitted(w, vertex_maps::reduce(v), x, x+3, "every node finds its vertices", "and none is kept twice"); }
VF_ENTRY(reduce_one){ auto w = world(2,2); Node x = node(w,3,2,0); std::vector<Pair> v{thread(w,&x,&x+1)}; knitted(w, vertex_maps::reduce(v), &x, &x+1, "the node finds its vertices", "and none is kept twice"); }
VF_NATIVE(reduce_many){ World w = world(1,5); std::vector<Node> x; std::vector<Pair> v; unsigned nt = vf::any_int<unsigned>("threads",1,5); long c = 0; unsigned start[6]; for (unsigned t=0;t<nt;++t) { start[t] = unsigned(x.size()); unsigned k = vf::any_int<unsigned>("nodes",0,5,t); for (unsigned i=0;i<k;++i,++c) { Node n; n.id = unsigned((c*7)%31); n.n = vf::any_int<unsigned>("nv",1,4,c); for (unsigned j=0;j<n.n;++j) n.pos[j] = vf::any_int<unsigned>("pos",0,w.n+3,4*c+j); x.push_back(n); } } start[nt] = unsigned(x.size()); vf_assume(!x.empty()); for (unsigned t=0;t<nt;++t) v.push_back(thread(w, x.data()+start[t], x.data()+start[t+1]));
  knitted(w, vertex_maps::reduce(v), x.data(), x.data()+x.size(), "every node finds its vertices", "and none is kept twice"); auto r = vertex_maps::parallel_reduce(v), q = vertex_maps::reduce(v); knitted(w, r, x.data(), x.data()+x.size(), "every node finds its vertices (parallel)", "and none is kept twice (parallel)"); bool e = true; for (auto& n: x) e = e && r.second.decode(r.first.preserved_count(),n.id)==q.second.decode(q.first.preserved_count(),n.id); vf_check(e, "in parallel and in sequence give the same"); }
// ---- permutation table
using P = std::vector<ind_t>;
static P perm2(unsigned k){ return k ? P{1,0} : P{0,1}; }
VF_ENTRY(table_set){ unsigned N = 2+pick("N",1), i = pick("i",N-1), j = pick("j",N-1), k = pick("k",N-1), l = pick("l",N-1), p = pick("p",1), q = pick("q",1); PermutationTable t(N,2); t.set(i,j,perm2(p)); bool first = i!=j, same = i==k && j==l, diag = k==l; vf_check(t.has(i,j) && t.safe_get(i,j)==perm2(first ? p : 0), "a pair keeps its permutation, one vertex keeps the identity"); t.set(k,l,perm2(q)); vf_check(t.safe_get(i,j)==perm2(first ? p : 0), "other pairs do not change it"); vf_check(t.safe_get(k,l)==perm2(diag ? 0 : same ? p : q), "the first value stays"); unsigned used = 1+(first && 1)+(!diag && !same); vf_check(t.keys().size()==used, "one key for every pair"); bool e = true; for (unsigned a=0;a<N;++a) for (unsigned b=0;b<N;++b) { bool there = a==b || (a==i && b==j) || (a==k && b==l); e = e && t.has(a,b)==there && !t.value_needed(a,b) && (there || t.safe_get(a,b)==perm2(0)); } vf_check(e, "pairs without value read as the identity"); }
VF_ENTRY(table_overwrite){ unsigned N = 2+pick("N",1), i = pick("i",N-1), j = pick("j",N-1), k = pick("k",N-1), l = pick("l",N-1), p = pick("p",1), q = pick("q",1); if (i==j || k==l) return; PermutationTable t(N,2,{i*N+j, k*N+l}); vf_check(t.value_needed(i,j) && t.value_needed(k,l) && !t.has(i,j), "declared pairs need a value"); vf_check(t.safe_get(i,j)==perm2(0), "and are the identity until then"); size_t x = t.overwrite(i,j,perm2(p)); vf_check(!t.value_needed(i,j) && t.has(i,j) && t.safe_get(i,j)==perm2(p), "which can be given"); bool same = i==k && j==l; vf_check(t.value_needed(k,l)==!same, "for that pair only"); t.overwrite(k,l,perm2(q)); vf_check(t.safe_get(k,l)==perm2(q) && t.safe_get(i,j)==perm2(same ? q : p), "and changed"); t.overwrite(k,l,x); vf_check(t.safe_get(k,l)==perm2(p), "also by number"); unsigned m = pick("m",N-1), n = pick("o",N-1); bool known = m==n || (m==i && n==j) || (m==k && n==l); vf_check(vf::throws([&]{ t.overwrite(m,n,perm2(0)); })==!known, "undeclared pairs are reported"); }
VF_ENTRY(table_keys){ unsigned N = 2+pick("N",1), i = pick("i",N-1), j = pick("j",N-1); if (i==j) return; PermutationTable t(N,2); t.set(i,j,perm2(1)); auto ks = t.insert_keys({0, i*N+j, j*N+i}); vf_check(ks.size()==3 && ks.count(0) && ks.count(i*N+j) && ks.count(j*N+i), "keys are added once"); vf_check(t.safe_get(i,j)==perm2(1) && t.value_needed(j,i) && t.has(i,i), "and keep values"); PermutationTable u = t; vf_check(!(u != t), "copies agree"); u.overwrite(j,i,perm2(0)); vf_check(u != t, "until changed"); vf_check(!u.refresh(N,2) && u.safe_get(i,j)==perm2(1), "refreshing the same size changes nothing"); vf_check(!u.refresh(N,3) && u.value_needed(i,j) && u.safe_get(i,j)==P({0,1,2}) && u.safe_get(0,0)==P({0,1,2}), "another number of branches clears the values"); vf_check(u.refresh(N+1,3) && !u.has(i,j), "another number of vertices clears the pairs"); }
VF_ENTRY(table_indices){ unsigned N = 4; unsigned a[3]; for (long k=0;k<3;++k) a[k] = pick("a",3,k); auto ks = permutation_table_keys_from_indicies(a,a+3,N); bool e = true; unsigned c = 0; for (unsigned i=0;i<N;++i) for (unsigned j=0;j<N;++j) { bool in = false; for (int x=0;x<3;++x) for (int y=0;y<3;++y) in = in || (a[x]==i && a[y]==j && i!=j); c += in; e = e && (ks.count(i*N+j)!=0)==in; } vf_check(e && ks.size()==c, "a key for every ordered pair of different vertices"); }
VF_NATIVE(table_many){ unsigned N = vf::any_int<unsigned>("N",2,5), B = vf::any_int<unsigned>("B",1,4); std::set<size_t> keys; for (unsigned i=0;i<N;++i) for (unsigned j=0;j<N;++j) if (i!=j && vf::any_bool("key",i*N+j)) keys.insert(i*N+j); PermutationTable t(N,B,keys); P id(B); std::iota(id.begin(),id.end(),0u); std::map<size_t,P> ref; for (auto k: keys) ref[k] = P(); bool e = true; unsigned ops = vf::any_int<unsigned>("ops",1,12); for (unsigned o=0;o<ops;++o) { unsigned i = vf::any_int<unsigned>("i",0,N-1,o), j = vf::any_int<unsigned>("j",0,N-1,o); if (i==j) continue; P p = id; for (unsigned r = vf::any_int<unsigned>("p",0,5,o); r>0; --r) std::next_permutation(p.begin(),p.end()); size_t k = i*N+j; if (vf::any_bool("set",o)) { if (!ref.count(k)) { t.set(i,j,p); ref[k] = p; } } else if (ref.count(k)) { t.overwrite(i,j,p); ref[k] = p; } else e = e && vf::throws([&]{ t.overwrite(i,j,p); }); }
  for (unsigned i=0;i<N;++i) for (unsigned j=0;j<N;++j) if (i!=j) { auto f = ref.find(i*N+j); bool v = f!=ref.end() && !f->second.empty(); e = e && t.has(i,j)==v && t.value_needed(i,j)==(f!=ref.end() && !v) && t.safe_get(i,j)==(v ? f->second : id); } vf_check(e, "the table agrees with a plain one"); }

//! * {"unroll": 40, "time": 300, "nsw": "check"}
#include "array_tab.h"
// ---- storage and views
template<class A, class T> static void views(unsigned lay){
  Sz s = size(); Tab<T> t = table<T>(s); A a = make<A>(t, lay); vf_check(is(a,t), "an array holds the values at their subscripts"); vf_check(a.numel()==s.n*s.m, "number of elements");
  vf_check(is(a.view(),t), "a view shows the same values"); vf_check(!a.view().ismutable(), "views are immutable"); A b(a); vf_check(vf_and(is(b,t), b.data()==a.data()), "copies share their data");
  for (unsigned i=0;i<s.n;++i) { A v = a.view(i); vf_check(v.size(0)==1 && v.size(1)==s.m && v.data()==a.data(), "a row view has one row and shares the data"); vf_check(rowis(v,0,t,i), "a row view shows its row"); A x = a.extract(i); vf_check(rowis(x,0,t,i), "an extracted row has the values of its row"); vf_check(x.data()!=a.data() && x.ismutable(), "an extracted row is a separate mutable copy");
    for (unsigned j=i+1;j<=s.n;++j) { A w = a.view(i,j); bool ok = w.size(0)==j-i; for (unsigned k=i;ok && k<j;++k) ok = vf_and(ok, rowis(w,k-i,t,k)); vf_check(ok, "a range view shows its rows"); } }
  if constexpr (std::is_same_v<A,Array2<T>>) { A e = a.view(s.n,s.n); vf_check(e.size(0)==0 && e.size(1)==s.m, "an empty range gives an empty array"); }
  unsigned q = vf::any_int<unsigned>("row",0,9); vf_check(vf::throws([&]{ a.view(s.n+q); }), "a row which does not exist is reported"); vf_check(vf::throws([&]{ a.view(0,s.n+1+q); }), "a range which does not exist is reported"); vf_check(vf::throws([&]{ a.view(1,0); }), "a reversed range is reported");
  A c = a.decouple(); vf_check(is(c,t), "decoupling keeps the values"); vf_check(c.ismutable(), "decoupled arrays can be changed"); Sh<A> z{0,0}; c[z] = 5; vf_check(is(a,t), "changing a decoupled array leaves the original alone");
  A cc = a.contiguous_copy(); vf_check(vf_and(is(cc,t), cc.is_contiguous()||(std::is_same_v<A,Array<T>>&&(s.n==1||s.m==1))), "a contiguous copy is contiguous with the same values"); A cr = a.contiguous_row_ordered_copy(); vf_check(is(cr,t), "a contiguous row-ordered copy has the same values"); vf_check((cr.is_contiguous() || s.n==1 || s.m==1) && (cr.stride()[1]==1 || s.m==1) && (cr.stride()[0]==s.m || s.n==1), "and is in row order");
}
VF_ENTRY(views_2_row){ views<D,double>(0); } VF_ENTRY(views_2_col){ views<D,double>(1); } VF_ENTRY(views_2_rows){ views<D,double>(2); } VF_ENTRY(views_2_corner){ views<D,double>(3); } VF_ENTRY(views_2_cocorner){ views<D,double>(4); } VF_ENTRY(views_2_corows){ views<D,double>(5); }
VF_ENTRY(views_n_row){ views<N,double>(0); } VF_ENTRY(views_n_col){ views<N,double>(1); } VF_ENTRY(views_n_rows){ views<N,double>(2); } VF_ENTRY(views_n_corner){ views<N,double>(3); } VF_ENTRY(views_n_cocorner){ views<N,double>(4); } VF_ENTRY(views_n_corows){ views<N,double>(5); }
template<class A, class T> static void linear(unsigned lay){
  Sz s = size(); Tab<T> t = table<T>(s); A a = make<A>(t, lay); bool row = lay==0||lay==2||lay==3;
  for (unsigned k=0;k<s.n*s.m;++k) { unsigned i = row ? k/s.m : k%s.n, j = row ? k%s.m : k/s.n; vf_check(vf_eq(a[k], t.v[i][j]), "linear indices run over exactly the elements of the array"); }
  std::vector<T> v = a.to_std(); vf_check(v.size()==s.n*s.m, "all elements are listed"); bool e = true; for (unsigned k=0;k<v.size();++k) e = vf_and(e, vf_eq(v[k], t.v[k/s.m][k%s.m])); vf_check(e, "in row order");
  unsigned k=0; e = true; for (auto x: a.valItr()) { e = vf_and(e, vf_eq(x, t.v[k/s.m][k%s.m])); ++k; } vf_check(vf_and(e, k==s.n*s.m), "iterating over the values visits each once in row order");
}
VF_ENTRY(linear_2){ linear<D,double>(pick("layout",5)); } VF_ENTRY(linear_n){ linear<N,double>(pick("layout",5)); }
VF_ENTRY(linear_n3){ unsigned k[3]; for (long d=0;d<3;++d) { unsigned x = vf::any_int<unsigned>("n",1,2,d); for (k[d]=1;k[d]<x;++k[d]); } bool row = vf::any_bool("row"); Sh<N> sh{k[0],k[1],k[2]}, st = row ? Sh<N>{k[1]*k[2],k[2],1} : Sh<N>{1,k[0],k[0]*k[1]};
  double* d = new double[8]; for (unsigned i=0;i<8;++i) d[i] = vf::any_real("v",i); N a(d, k[0]*k[1]*k[2], true, sh, st); bool e = true; for (unsigned x=0;x<k[0];++x) for (unsigned y=0;y<k[1];++y) for (unsigned z=0;z<k[2];++z) { Sh<N> s{x,y,z}; e = vf_and(e, vf_eq(a[s], d[x*st[0]+y*st[1]+z*st[2]])); } vf_check(e, "values at three subscripts"); for (unsigned i=0;i<a.numel();++i) vf_check(vf_eq(a[i], d[i]), "linear indices");
  D b(a); vf_check(b.size(0)==k[0] && b.size(1)==k[1]*k[2], "converting to two dimensions keeps the first"); e = true; for (unsigned x=0;x<k[0];++x) for (unsigned y=0;y<k[1]*k[2];++y) e = vf_and(e, vf_eq(at(b,x,y), d[x*st[0]+(y/k[2])*st[1]+(y%k[2])*st[2]])); vf_check(e, "and every row holds the same values in row order");
  N c(b, sh); e = c.shape()==sh; for (unsigned x=0;x<k[0];++x) for (unsigned y=0;y<k[1];++y) for (unsigned z=0;z<k[2];++z) { Sh<N> s{x,y,z}; e = vf_and(e, vf_eq(c[s], d[x*st[0]+y*st[1]+z*st[2]])); } vf_check(e, "converting back gives the same array"); }
VF_ENTRY(n_from_2){ Sz s = size(); Tab<double> t = table<double>(s); D a = make<D>(t, pick("layout",5)); N b(a, Sh<N>{s.n,s.m}); vf_check(is(b,t), "an N-dimensional array made from a two dimensional one has its values"); }
VF_ENTRY(two_from_n){ Sz s = size(); Tab<double> t = table<double>(s); N a = make<N>(t, pick("layout",5)); D b(a); vf_check(is(b,t), "a two dimensional array made from an N-dimensional one has its values"); }
VF_ENTRY(convert){ Sz s = size(); Tab<int> t = table<int>(s); I2 a = make<I2>(t, pick("layout",5)); D b(a), c; c = a; bool e = b.size(0)==s.n && c.size(1)==s.m; for (unsigned i=0;i<s.n;++i) for (unsigned j=0;j<s.m;++j) e = vf_and(e, vf_and(at(b,i,j)==double(t.v[i][j]), at(c,i,j)==double(t.v[i][j]))); vf_check(e, "conversions keep the values"); }
VF_ENTRY(from_std){ Sz s = size(); std::vector<double> v; std::vector<std::array<double,3>> w; for (unsigned i=0;i<s.n;++i) { v.push_back(vf::any_real("v",i)); w.push_back({vf::any_real("x",i),vf::any_real("y",i),vf::any_real("z",i)}); } D a = D::from_std(v), b = D::from_std(w); bool e = a.size(0)==s.n && a.size(1)==1 && b.size(0)==s.n && b.size(1)==3; for (unsigned i=0;i<s.n;++i) { e = vf_and(e, at(a,i,0)==v[i]); for (unsigned j=0;j<3;++j) e = vf_and(e, at(b,i,j)==w[i][j]); } vf_check(e, "arrays made from vectors hold their values"); }

// ---- changing
template<class A, class T> static void setting(unsigned lay){
  Sz s = size(); Tab<T> t = table<T>(s), u = table<T>({1,s.m},"u"); A a = make<A>(t, lay); unsigned r = pick("at",s.n-1), k = pick("by",2);
  if (k==0) a.set(r, make<A>(u, pick("other",1))); else if (k==1) { std::vector<T> w; for (unsigned j=0;j<s.m;++j) w.push_back(u.v[0][j]); a.set(r, w); } else { unsigned c = pick("col",s.m-1); Sh<A> x{r,c}; vf_check(vf_eq(a.set(x, u.v[0][0]), u.v[0][0]), "setting an element returns it"); t.v[r][c] = u.v[0][0]; vf_check(is(a,t), "setting an element changes just that element"); return; }
  for (unsigned j=0;j<s.m;++j) t.v[r][j] = u.v[0][j]; vf_check(is(a,t), "setting a row changes just that row");
  Tab<T> w = table<T>({1,s.m+1},"w"); vf_check(vf::throws([&]{ a.set(r, make<A>(w,0)); }), "a row of another length is reported"); vf_check(vf::throws([&]{ a.set(r, std::vector<T>(s.m+1)); }), "a vector of another length is reported"); vf_check(is(a,t), "and changes nothing"); }
VF_ENTRY(set_2){ setting<D,double>(pick("layout",5)); } VF_ENTRY(set_n){ setting<N,double>(1+pick("layout",2)); }
template<class A, class T> static void resizing(unsigned lay){
  Sz s = size(); Tab<T> t = table<T>(s); A a = make<A>(t, lay), old(a); unsigned n = pick("rows",4), m = 1+pick("cols",3); T init = vf::any<T>("init"); Sh<A> ns{n,m};
  bool shrink = n<=s.n && m<=s.m, grow = !shrink && n>=s.n && m>=s.m; if (!shrink && !grow) { vf_check(vf::throws([&]{ a.resize(ns, init); }), "growing one dimension while shrinking another is reported"); return; }
  a.resize(ns, init); bool e = a.size(0)==n && a.size(1)==m; for (unsigned i=0;i<n;++i) for (unsigned j=0;j<m;++j) e = vf_and(e, vf_eq(at(a,i,j), i<s.n && j<s.m ? t.v[i][j] : init)); vf_check(e, "resizing keeps the common part and fills the rest"); vf_check(is(old,t), "other arrays sharing the data are not changed"); vf_check(a.ismutable(), "a resized array can be changed"); }
VF_ENTRY(resize_2){ resizing<D,double>(pick("layout",1)); } VF_ENTRY(resize_n_row){ resizing<N,double>(0); } VF_ENTRY(resize_n_col){ resizing<N,double>(1); }
template<class A, class T> static void appending(unsigned lay){
  Sz s = size(2); unsigned d = pick("dim",1), k = 1+pick("extra",1); Tab<T> t = table<T>(s), u = table<T>(d ? Sz{s.n,k} : Sz{k,s.m}, "u"); A a = make<A>(t, lay), b = make<A>(u, pick("other",5)); a.append(d, b);
  bool e = a.size(0)==s.n+(d?0:k) && a.size(1)==s.m+(d?k:0); for (unsigned i=0;e && i<a.size(0);++i) for (unsigned j=0;j<a.size(1);++j) e = vf_and(e, vf_eq(at(a,i,j), i<s.n && j<s.m ? t.v[i][j] : d ? u.v[i][j-s.m] : u.v[i-s.n][j])); vf_check(e, "appending puts one array after the other"); vf_check(is(b,u), "and leaves the second alone");
  Tab<T> w = table<T>({s.n+1,s.m+1},"w"); A x = make<A>(w,0); vf_check(vf::throws([&]{ a.append(d, x); }), "appending an array of another width is reported"); }
VF_ENTRY(append_2){ appending<D,double>(pick("layout",1)); } VF_ENTRY(append_n){ appending<N,double>(pick("layout",1)); }
VF_ENTRY(cat_2){ Sz s = size(2); unsigned d = pick("dim",1), k = 1+pick("extra",1); Tab<double> t = table<double>(s), u = table<double>(d ? Sz{s.n,k} : Sz{k,s.m}, "u"); D a = make<D>(t, pick("layout",1)), b = make<D>(u, pick("other",5)); D c = cat(d, a, b);
  bool e = c.size(0)==s.n+(d?0:k) && c.size(1)==s.m+(d?k:0); for (unsigned i=0;e && i<c.size(0);++i) for (unsigned j=0;j<c.size(1);++j) e = vf_and(e, vf_eq(at(c,i,j), i<s.n && j<s.m ? t.v[i][j] : d ? u.v[i][j-s.m] : u.v[i-s.n][j])); vf_check(e, "concatenation puts one array after the other"); vf_check(vf_and(is(a,t), is(b,u)), "and leaves both alone"); }
template<class A, class T> static void reshaping(unsigned lay){ Sz s = size(); Tab<T> t = table<T>(s); A a = make<A>(t, lay); Sh<A> ns{s.m,s.n}; if (s.n>1 && s.m>1 && (lay==3||lay==4||lay==5)) { vf_check(vf::throws([&]{ a.reshape(ns); }), "arrays with gaps can not be reshaped"); return; } if (lay>2) return; if (std::is_same_v<A,Array<T>> && lay==1 && (s.n==1||s.m==1)) return; bool row = lay!=1;
  a.reshape(ns); bool e = a.size(0)==s.m && a.size(1)==s.n; for (unsigned k=0;k<s.n*s.m;++k) e = vf_and(e, vf_eq(row ? at(a,k/s.n,k%s.n) : at(a,k%s.m,k/s.m), row ? t.v[k/s.m][k%s.m] : t.v[k%s.n][k/s.n])); vf_check(e, "reshaping keeps the elements in their order"); }
VF_ENTRY(reshape_2){ reshaping<D,double>(pick("layout",5)); } VF_ENTRY(reshape_n){ reshaping<N,double>(pick("layout",2)); }
template<class A, class T> static void swapping(unsigned lay){ Sz s = size(); Tab<T> t = table<T>(s); A a = make<A>(t, lay); unsigned i = pick("i",s.n-1), j = pick("j",s.n-1), p = pick("p",s.m-1), q = pick("q",s.m-1); a.swap(i,j); for (unsigned k=0;k<s.m;++k) { T x = t.v[i][k]; t.v[i][k] = t.v[j][k]; t.v[j][k] = x; } vf_check(is(a,t), "swapping exchanges two rows"); a.swap(i,p,q); T x = t.v[i][p]; t.v[i][p] = t.v[i][q]; t.v[i][q] = x; vf_check(is(a,t), "swapping exchanges two elements of one row"); }
VF_ENTRY(swap_2){ swapping<D,double>(pick("layout",5)); } VF_ENTRY(swap_n){ swapping<N,double>(1+pick("layout",2)); }
template<class A, class T> static void permuting(unsigned lay){ Sz s = size(); Tab<T> t = table<T>(s); A a = make<A>(t, lay); std::vector<int> p; for (unsigned i=0;i<s.n;++i) p.push_back(int(i)); unsigned x = pick("a",s.n-1), y = pick("b",s.n-1); std::swap(p[0],p[x]); std::swap(p[s.n-1],p[y]); std::vector<int> q = p; a.permute(q); bool e = true; for (unsigned i=0;i<s.n;++i) e = vf_and(e, rowis(a,i,t,unsigned(p[i]))); vf_check(e, "after permuting row i is the row the permutation names"); }
VF_ENTRY(permute_2){ permuting<D,double>(pick("layout",5)); } VF_ENTRY(permute_n){ permuting<N,double>(pick("layout",5)); }
template<class A, class T> static void extracting(unsigned lay){ Sz s = size(); Tab<T> t = table<T>(s); A a = make<A>(t, lay); unsigned k = pick("count",std::is_same_v<A,Array2<T>>?3:2); std::vector<int> idx; bool ok = true; for (unsigned i=0;i<k;++i) { int x = vf::any_int<int>("idx",-1,int(s.n),i); for (int c=-1;c<4;++c) if (x==c) x=c; idx.push_back(x); ok = ok && x>=0 && x<int(s.n); }
  if (!ok) { vf_check(vf::throws([&]{ a.extract(idx); }), "extracting a row which does not exist is reported"); return; } A b = a.extract(idx); bool e = b.size(0)==k && b.size(1)==s.m; for (unsigned i=0;i<k;++i) e = vf_and(e, rowis(b,i,t,unsigned(idx[i]))); vf_check(e, "extraction gives the chosen rows in order"); vf_check(is(a,t), "and leaves the array alone"); }
VF_ENTRY(extract_2){ extracting<D,double>(pick("layout",5)); } VF_ENTRY(extract_n){ extracting<N,double>(1+pick("layout",2)); }
VF_ENTRY(extract_bool){ Sz s = size(); Tab<double> t = table<double>(s); unsigned lay = pick("layout",5); D a = make<D>(t, lay); unsigned k = 1+pick("count",3); std::vector<bool> m; Array2<bool> mb(k,1u); unsigned q = 0; std::vector<unsigned> want; for (unsigned i=0;i<k;++i) { bool b = pick("m",1,i); if (b) { want.push_back(i); ++q; } m.push_back(b); mb[i] = b; }
  if (k>s.n) { vf_check(vf::throws([&]{ a.extract(m); }) && vf::throws([&]{ a.extract(mb); }), "a mask longer than the array is reported"); return; } D b = a.extract(m), c = a.extract(mb); bool e = b.size(0)==q && c.size(0)==q; for (unsigned i=0;e && i<q;++i) e = vf_and(e, vf_and(rowis(b,i,t,want[i]), rowis(c,i,t,want[i]))); vf_check(e, "a mask selects the rows where it is set"); }
// ---- ownership
VF_ENTRY(sharing){ Sz s = size(2); Tab<double> t = table<double>(s), u = table<double>(s,"u"); D* a = new D(make<D>(t,0)); D b(*a), v = a->view(); Sh<D> z{0,0}; (*a)[z] = 3; t.v[0][0] = 3; vf_check(vf_and(is(b,t), is(v,t)), "changes are seen through copies and views"); delete a; vf_check(vf_and(is(b,t), is(v,t)), "copies and views keep the data alive"); b = make<D>(u,1); vf_check(vf_and(is(b,u), is(v,t)), "assignment replaces one handle only"); v = b; vf_check(is(v,u), "and releases the old data with the last handle"); v = *&v; vf_check(is(v,u), "self assignment changes nothing"); double buf[4]; for (unsigned i=0;i<s.n*s.m;++i) buf[i] = u.v[i/s.m][i%s.m]; { D w = raw<D>(buf, s.n*s.m, s.n, s.m, s.m, 1, false); vf_check(is(w,u), "arrays over memory they do not own"); } vf_check(vf_eq(buf[0],u.v[0][0]), "do not release it"); }
VF_ENTRY(too_small){ unsigned n = pick("n",3), m = pick("m",3), k = pick("num",8); static double buf[16]; bool bad = k < n*m; vf_check(vf::throws([&]{ raw<D>(buf,k,n,m,m,1,false); })==bad, "memory too small for its shape is reported"); vf_check(vf::throws([&]{ raw<N>(buf,k,n,m,m,1,false); })==bad, "for any number of dimensions"); }

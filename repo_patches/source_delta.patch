From adb01e72bb2e54f08021f9d4ff4ad3a15d38e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 01/51] fix: in-place matrix_transpose used a stride of 3 for
 every N

---
 src/utilities.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..5cfc0e5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -186,9 +186,9 @@ template<typename R, int N> void complex_conj_matrix_transpose(std::complex<R> *
 template<typename R, int N> void matrix_transpose(R *B){
   R t;
   for (int i=0; i<N; i++) for(int j=i+1; j<N; j++) {
-    t = B[i+j*3];
-    B[i+j*3] = B[j+i*3];
-    B[j+i*3] = t;
+    t = B[i+j*N];
+    B[i+j*N] = B[j+i*N];
+    B[j+i*N] = t;
   }
 }
 
-- 
2.43.0


From 3bb0eb33ce7029a0346759a3c4fa8532fc5ac371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 02/51] fix: generate() did not always close the group

One pass over the generators only forms products of their powers, which is
not a group when those do not permute, e.g. for two three-fold and four-fold
axes. generators() followed by generate() then lost operations (Hall 364).
---
 src/pointsymmetry.cpp | 35 +++++++++++++++++++++--------------
 src/symmetry.cpp      | 34 +++++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index fb4c0f3..cd65812 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -298,22 +298,29 @@ PointSymmetry PointSymmetry::generate() const {
   Matrix<int> x, y, E{1,0,0, 0,1,0, 0,0,1}; // E, the identity operation
   PointSymmetry gen;
   gen.add(E); // any generated operations always need the identity operation
-  size_t gensize;
-  for (size_t i=0; i<this->size(); ++i){
-    x = E;
-    // for each of R, R¹,…, Rⁿ⁻¹
-    for (int count=this->order(i); count--;){ // post-decrimate to run the loop count times
-      brille::utils::multiply_matrix_matrix(y.data(), this->data(i), x.data());
-      x = y;
-      // multiply Rⁱ by the operators in gen
-      gensize = gen.size(); // only multiply against pre-existing operations
-      for (size_t j=0; j<gensize; ++j){
-        brille::utils::multiply_matrix_matrix(y.data(), x.data(), gen.data(j));
-        // and add them to gen if they are not already present
-        if (!gen.has(y)) gen.add(y);
+  size_t gensize, before;
+  // one pass over the known operations does not necessarily close the group, so
+  // repeat until no new operations are found. No crystallographic pointgroup has
+  // more than 48 operations; with more the input can not generate a finite group
+  const size_t max_size{48};
+  do {
+    before = gen.size();
+    for (size_t i=0; i<this->size(); ++i){
+      x = E;
+      // for each of R, R¹,…, Rⁿ⁻¹
+      for (int count=this->order(i); count--;){ // post-decrimate to run the loop count times
+        brille::utils::multiply_matrix_matrix(y.data(), this->data(i), x.data());
+        x = y;
+        // multiply Rⁱ by the operators in gen
+        gensize = gen.size(); // only multiply against pre-existing operations
+        for (size_t j=0; j<gensize; ++j){
+          brille::utils::multiply_matrix_matrix(y.data(), x.data(), gen.data(j));
+          // and add them to gen if they are not already present
+          if (!gen.has(y)) gen.add(y);
+        }
       }
     }
-  }
+  } while (gen.size() > before && gen.size() < max_size);
   return gen;
 }
 PointSymmetry PointSymmetry::generators() const {
diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 8eb1aaf..0091535 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -127,21 +127,29 @@ Symmetry Symmetry::generate() const {
   Motion<int,double> e({1,0,0, 0,1,0, 0,0,1}, {0,0,0});
   Symmetry gen;
   gen.add(e);
-  size_t gensize;
-  for (size_t i=0; i<this->size(); ++i){
-    auto x = e;
-    // for each of {W,w}, {W²,Ww+w}, {W³,W²w+Ww+w}, …
-    for (int count=this->order(i); count--;) /* loop runs count times */ {
-      x = getm(i)*x;
-      // multiply {Wⁱ,Wⁱ⁻¹w+…} by the motions in gen
-      gensize = gen.size(); // only multiply against pre-existing motions
-      for (size_t j=0; j<gensize; ++j){
-        auto y = x * gen.getm(j);
-        // add missing motions to gen
-        if (!gen.has(y)) gen.add(y);
+  size_t gensize, before;
+  // one pass over the known Motions does not necessarily close the group, so
+  // repeat until no new Motions are found. A crystallographic spacegroup has at
+  // most 192 Motions per (conventional) unit cell; with more than that the input
+  // can not generate a finite group and there is no point in continuing.
+  const size_t max_size{192};
+  do {
+    before = gen.size();
+    for (size_t i=0; i<this->size(); ++i){
+      auto x = e;
+      // for each of {W,w}, {W²,Ww+w}, {W³,W²w+Ww+w}, …
+      for (int count=this->order(i); count--;) /* loop runs count times */ {
+        x = getm(i)*x;
+        // multiply {Wⁱ,Wⁱ⁻¹w+…} by the motions in gen
+        gensize = gen.size(); // only multiply against pre-existing motions
+        for (size_t j=0; j<gensize; ++j){
+          auto y = x * gen.getm(j);
+          // add missing motions to gen
+          if (!gen.has(y)) gen.add(y);
+        }
       }
     }
-  }
+  } while (gen.size() > before && gen.size() < max_size);
   return gen;
 }
 Symmetry Symmetry::generators() const{
-- 
2.43.0


From 9a571ebe63f99f94c656dce4e09923970fac43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 03/51] fix: ptg_get_pointsymmetry compared against a null
 pointer

The inner loop ran over all given rotations instead of the unique ones found
so far; data(j) is a null pointer past the end of those.
---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5a90f89..61173e1 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -229,7 +229,7 @@ PointSymmetry brille::ptg_get_pointsymmetry(const int *rotations, const int num_
   // so that our outer for loop can start from the second one
   for (int i = 1; i < num_rotations; i++) {
     bool isunique = true;
-    for (int j = 0; j < num_rotations; j++)
+    for (size_t j = 0; j < pointsym.size(); j++)
       if ( brille::utils::equal_matrix(rotations+i*9, pointsym.data(j)) ){
        isunique = false;
        break;
-- 
2.43.0


From eb47e002a4b05067b9eebb297553b6b5902a89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 04/51] fix: adding a pointgroup operation from its xyz string

All components ended up in the first row, signs were lost and an unterminated
number never ended; use the parser which Symmetry uses.
---
 src/pointsymmetry.cpp | 55 ++++---------------------------------------
 1 file changed, 4 insertions(+), 51 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index cd65812..0542b0e 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -37,57 +37,10 @@ size_t PointSymmetry::add(const Matrix<int>& r){
   return this->R.size();
 }
 size_t PointSymmetry::add(const std::string& s){
-  Matrix<int> newR{0,0,0,0,0,0,0,0,0};
-  // a valid encoded Motion will be of the form
-  // ∑ₙiₙαₙ + f where each iₙ is an integer, αₙ∈{x,y,z}
-  // and f one of 0, ±1/12, ±1/6, ±1/4, ±1/3, ±1/2
-  // but we should support any rational or floating point value for f
-  int n{0}, i{1};
-  char c{' '};
-  std::istringstream stream(s);
-  size_t ret{0};
-  while (stream.good()){
-    c = char(stream.get());
-    switch (c){
-      case ';': // end of one motion
-        ret = this->add(newR);
-        newR = {0,0,0,0,0,0,0,0,0};
-        n=0;
-        i=1;
-        break;
-      case ',': // end of motion component
-        i=1;
-        break;
-      case 'x':
-        newR[n*3] = i;
-        i=1;
-        break;
-      case 'y':
-        newR[n*3+1] = i;
-        i=1;
-        break;
-      case 'z':
-        newR[n*3+2] = i;
-        i=1;
-        break;
-      default: // not ;,xyz
-        std::stringstream tmp;
-        tmp << c;
-        bool haspoint{false}, hasslash{false};
-        while (std::strchr(";,xyz-+",stream.peek())==nullptr){
-          hasslash |= '/'==stream.peek();
-          haspoint |= '.'==stream.peek();
-          tmp << stream.get();
-        }
-        if (haspoint && hasslash) throw std::logic_error("Number has both point and slash?!");
-        if (!(haspoint^hasslash)) tmp >> i; // TT (error) or FF (integer)
-        // either floating point or rational numbers represent part of the
-        // translation which strictly shouldn't be here for pointgroup
-        // operations, but we should just skip for now
-    }
-  }
-  if (';'!=c) ret = this->add(newR);
-  return ret;
+  // the string represents one or more Motions separated by semicolons;
+  // any translation part is of no consequence for a pointgroup operation
+  for (const auto & r: Symmetry(s).getallr()) this->add(r);
+  return this->R.size();
 }
 bool PointSymmetry::set(const size_t i, const int *r){
   if ( i>=this->size() ) return false;
-- 
2.43.0


From 5b1111cce05be64d9133480497c04002abfc49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:57 +0000
Subject: [PATCH 05/51] fix: motions with rounded rational translations did not
 survive being written

1/0.33333333333333337 was truncated to 2, no fraction was found and only six
decimals were written, which do not compare equal when read again.
---
 src/motion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..a9d535c 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -145,7 +145,7 @@ operations.
                 // try finding a rational number:
                 int num{0}, den{0};
                 for (; num<256; ++num){
-                    den = T(num)/v;
+                    den = static_cast<int>(std::round(T(num)/v));
                     if (brille::approx_float::scalar(v, T(num)/T(den))) break;
                 }
                 lout += (num < 256) ? (std::to_string(num) + "/" + std::to_string(den)) : std::to_string(v);
-- 
2.43.0


From fd21d615665ad9c2b538f7e49f80c95920c15f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:31 +0000
Subject: [PATCH 06/51] fix: lin2sub skipped the last dimension of
 column-ordered strides

---
 src/subscript.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index af72b86..823b266 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -546,7 +546,7 @@ std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-    for (I i=ndim-1; i--; ){
+    for (I i=static_cast<I>(ndim); i--; ){
       sub[i] = l/stride[i];
       l -= sub[i]*stride[i];
     }
-- 
2.43.0


From eee1b224a697accdfe42674125a44a249428b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 07/51] fix: contiguous_row_ordered_copy of a column-ordered
 Array2 stayed in column order

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..c4de93f 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1240,7 +1240,7 @@ Array2<T> Array2<T>::contiguous_copy() const {
 template<class T>
 Array2<T> Array2<T>::contiguous_row_ordered_copy() const {
   if (this->is_row_ordered() && this->is_contiguous()) return Array2<T>(*this);
-  Array2<T> out(_shape, this->calculate_stride(_shape));
+  Array2<T> out(_shape); // always row-ordered
   for (auto x : this->subItr()) out[x] = (*this)[x];
   return out;
 }
-- 
2.43.0


From bb8f6449aaa249ac282f4b6e6235aa617a208ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 08/51] fix: decoupling a strided Array view wrote past its new
 memory

---
 src/array.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index f67eae3..43b4eae 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -414,17 +414,19 @@ private:
   Array<T> _decouple() const {
     ind_t nnum = this->size_from_shape(_shape);
     T* new_data = new T[nnum]();
+    shape_t new_st{_stride};
     if (nnum == _num) {
       std::copy(_data, _data+_num, new_data);
     } else {
       //subscript conversion necessary due to offset
-      //                                   vvv(no offset)vvvv          vvv(offset)vvv
-      for (auto x: SubIt(_shape)) new_data[sub2lin(x,_stride)] = _data[this->s2l_d(x)];
+      //                                   vvv(no offset)vvv           vvv(offset)vvv
+      new_st = this->calculate_stride(_shape); // the copy has no gaps between its elements
+      for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
     auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
-    return Array<T>(new_data, nnum, new_own, new_ref, _shape, _stride, new_mut);
+    return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
 public:
   // sub-array access
-- 
2.43.0


From 820e25b4e2ac1430202df83cdd874726a48761dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 09/51] fix: results shaped like a strided Array view were
 written past their memory

---
 src/array.tpp  | 10 +++++-----
 src/array2.tpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 0cdc9b8..c5c75d6 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -503,7 +503,7 @@ Array<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array<int>\
 Array<T>:: X () const {\
-  Array<int> out(_shape, _stride);\
+  Array<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: SubIt(out.shape()))\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -734,7 +734,7 @@ Array<T>::count(const brille::cmp expr, const T val) const {
 template<class T>
 Array<bool>
 Array<T>::is(const brille::cmp expr, const T val) const {
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -765,7 +765,7 @@ Array<T>::is(const brille::cmp expr, const Array<R>& that) const {
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   size_t ndim = _shape.size();
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
@@ -847,7 +847,7 @@ Array<T>::unique() const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array<T> out(osize, _stride);
+  Array<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -877,7 +877,7 @@ T Array<T>::norm(ind_t i) const {
 template<class T>
 Array<T>
 Array<T>::operator-() const{
-  Array<T> neg(_shape, _stride);
+  Array<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: SubIt(_shape)) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
diff --git a/src/array2.tpp b/src/array2.tpp
index c4de93f..d92383c 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -497,7 +497,7 @@ Array2<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array2<int>\
 Array2<T>:: X () const {\
-  Array2<int> out(_shape, _stride);\
+  Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -703,7 +703,7 @@ Array2<T>::count(const brille::cmp expr, const T val, const T Ttol, const int to
 template<class T>
 Array2<bool>
 Array2<T>::is(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -735,7 +735,7 @@ Array2<T>::is(const brille::cmp expr, const Array2<R>& that, const T Ttol, const
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
     brille::Comparer<T,R> op(expr, Ttol, Rtol, tol);
@@ -984,7 +984,7 @@ Array2<T>::unique(const T Ttol, const int tol) const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array2<T> out(osize, _stride);
+  Array2<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -1009,7 +1009,7 @@ T Array2<T>::norm(ind_t i) const {
 template<class T>
 Array2<T>
 Array2<T>::operator-() const{
-  Array2<T> neg(_shape, _stride);
+  Array2<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: this->subItr()) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
-- 
2.43.0


From 9e7a43516297f5f12f80f9b52259524abc27634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 10/51] fix: linear indices into a strided Array view addressed
 elements outside of the view

---
 src/array.hpp  | 14 +++++++++++++-
 src/array2.hpp |  5 ++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 43b4eae..5b08a74 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -340,7 +340,19 @@ protected: // so inherited classes can calculate subscript indexes into their da
   //   return offset_sub2lin(_offset, s, _stride);
   // }
   ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    // step over the gaps of a strided view, from the fastest to the slowest dimension
+    ind_t lin{l}, out{_shift};
+    auto step = [&](const size_t i){
+      if (_shape[i] > 1){
+        out += (lin % _shape[i]) * _stride[i];
+        lin /= _shape[i];
+      }
+    };
+    if (_stride.front() < _stride.back())
+      for (size_t i=0; i<_shape.size(); ++i) step(i);
+    else
+      for (size_t i=_shape.size(); i--;) step(i);
+    return out;
   }
   ind_t s2l_d(const shape_t& s) const {
     return sub2lin(s, _stride) + _shift;
diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..c8da446 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -309,7 +309,10 @@ public:
   const T& operator[](const shape_t& sub) const {return _data[this->s2l_d(sub)];}
 protected: // so inherited classes can calculate subscript indexes into their data
   [[nodiscard]] ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    if (this->is_contiguous() || 0 == this->numel()) return l + _shift;
+    // step over the gaps of a strided view
+    if (_stride[0] < _stride[1]) return ij2l_d(l % _shape[0], l / _shape[0]);
+    return ij2l_d(l / _shape[1], l % _shape[1]);
   }
   [[nodiscard]] ind_t ij2l_d(const ind_t x, const ind_t y) const {
     return sub2lin(x, y, _stride) + _shift;
-- 
2.43.0


From 97ff813b6ef5dcc628286dcdceb62a114cdb0022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 11/51] fix: Array2::each_is read past the end of arrays with
 more than one column

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index d92383c..584c271 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -930,7 +930,7 @@ Array2<T>::each_is(const brille::cmp expr, const std::vector<R>& vals, const T T
   out.reserve(no);
   // loop over whole array in linear-index order
   for (ind_t i=0; i<no; ++i)
-    out.push_back(op(this->val(i), vals[i]));
+    out.push_back(op((*this)[i], vals[i]));
   return out;
 }
 
-- 
2.43.0


From 19bebc4981ca90fb95514c19ed1a5342795cacd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 12/51] fix: permutation_vector returned one row twice for
 arrays with repeated rows

---
 src/array2.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 584c271..4e61c66 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1063,9 +1063,9 @@ template<class R>
 std::vector<ind_t> Array2<T>::permutation_vector(const Array2<R>& other, const T Ttol, const R Rtol, int tol) const {
   auto not_present = [](const auto & a, const auto & b){
     if (a.size() == 0) throw std::runtime_error("Can not find a not in b since a is empty");
-    if (b.size() == 0) return a[0];
-    const auto ptr = std::find_first_of(a.begin(), a.end(), b.begin(), b.end(),
-                                        [](const auto & x, const auto & y){return x != y;});
+    const auto ptr = std::find_if(a.begin(), a.end(), [&b](const auto & x){
+      return std::find(b.begin(), b.end(), x) == b.end();
+    });
     if (ptr == a.end())
       throw std::runtime_error("b contains all of a!");
     return *ptr;
-- 
2.43.0


From fc1a8c914dce52ab2700eed34203118a03105902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 13/51] fix: subtracting an array from a scalar gave the
 negative of the result

---
 src/array_functions.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 92d659f..533b786 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -98,9 +98,16 @@ operator X (const R b, const A<T>& a){\
   return out;\
 }
 SCALAR_ARRAY_OP(+,+=)
-SCALAR_ARRAY_OP(-,-=)
 SCALAR_ARRAY_OP(*,*=)
 #undef SCALAR_ARRAY_OP
+template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>
+std::enable_if_t<isArray<T,A>, A<S>>
+operator - (const R b, const A<T>& a){
+  A<S> out = A<S>(a).decouple();
+  out *= S(-1);
+  out += b;
+  return out;
+}
 
 // any derived bArray<T> with a copy constructor [+-*/] std::array<R,N>
 // broadcasts the std::array but only if N matches the size of the last dimension of the bArray
-- 
2.43.0


From a86a246e19b4a2410dd55a81ff554a5f31958fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 14/51] fix: copies of a Comparer used the tolerances of the
 object they were copied from

---
 src/comparisons.hpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/comparisons.hpp b/src/comparisons.hpp
index cf21627..6531472 100644
--- a/src/comparisons.hpp
+++ b/src/comparisons.hpp
@@ -65,43 +65,43 @@ public:
     // set the comparison function
     switch(op){
       case cmp::lt:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a<b;
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return !approx_float::_scalar(a,b,ut,rt,rr,at,ar) && a<b;
       };
       break;
       case cmp::gt:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a>b;
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return !approx_float::_scalar(a,b,ut,rt,rr,at,ar) && a>b;
       };
       break;
       case cmp::le:
-      scalar = [&](const T& a, const R& b){
-        return approx_float::_scalar(a,b,useT,relT,relR,absT,absR) || a<b;
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return approx_float::_scalar(a,b,ut,rt,rr,at,ar) || a<b;
       };
       break;
       case cmp::ge:
-      scalar = [&](const T& a, const R& b){
-        return approx_float::_scalar(a,b,useT,relT,relR,absT,absR) || a>b;
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return approx_float::_scalar(a,b,ut,rt,rr,at,ar) || a>b;
       };
       break;
       case cmp::eq:
-      scalar = [&](const T& a, const R& b){
-        return approx_float::_scalar(a,b,useT,relT,relR,absT,absR);
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return approx_float::_scalar(a,b,ut,rt,rr,at,ar);
       };
       break;
       case cmp::nle:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a>b;
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return !approx_float::_scalar(a,b,ut,rt,rr,at,ar) && a>b;
       };
       break;
       case cmp::nge:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a<b;
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return !approx_float::_scalar(a,b,ut,rt,rr,at,ar) && a<b;
       };
       break;
       case cmp::neq:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR);
+      scalar = [ut=useT,rt=relT,rr=relR,at=absT,ar=absR](const T& a, const R& b){
+        return !approx_float::_scalar(a,b,ut,rt,rr,at,ar);
       };
       break;
       default:
@@ -112,25 +112,25 @@ public:
       case cmp::neq:
       case cmp::nge:
       case cmp::nle:
-      vector = [&](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
+      vector = [sc=scalar](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
         /* Replace this by a short-cutting variant:
         bool ret{false};
         for (size_t i=0; i<n; ++i) ret |= this->scalar(a[i*sa], b[i*sb]);
         return ret;
         */
-        for (size_t i=0; i<n; ++i) if (this->scalar(a[i*sa], b[i*sb])) return true;
+        for (size_t i=0; i<n; ++i) if (sc(a[i*sa], b[i*sb])) return true;
         return false;
       };
       break;
       // A vector IS X if all of the elements ARE X
       default:
-      vector = [&](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
+      vector = [sc=scalar](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
         /* Replace this by a short-cutting variant:
         bool ret{true};
         for (size_t i=0; i<n; ++i) ret &= this->scalar(a[i*sa], b[i*sb]);
         return ret;
         */
-        for (size_t i=0; i<n; ++i) if (!this->scalar(a[i*sa], b[i*sb])) return false;
+        for (size_t i=0; i<n; ++i) if (!sc(a[i*sa], b[i*sb])) return false;
         return true;
       };
     }
-- 
2.43.0


From b50770cba2794aec4fbae2c07e57043581411b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:27 +0000
Subject: [PATCH 15/51] fix: Array2::all with le_ge ignored its tolerance

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 4e61c66..f51c668 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -664,7 +664,7 @@ bool Array2<T>::match(const ind_t i, const ind_t j, brille::ops op, T val, const
 template<class T>
 bool Array2<T>::all(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
   if (brille::cmp::le_ge == expr)
-    return this->all(brille::cmp::le, val) || this->all(brille::cmp::ge, val);
+    return this->all(brille::cmp::le, val, Ttol, tol) || this->all(brille::cmp::ge, val, Ttol, tol);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) if(!op(_data[this->l2l_d(k)], val)) return false;
-- 
2.43.0


From 4f5afdd8d5b13d8223f79b1962c69411bfc6e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 16/51] fix: sums, products and extremes of strided Array views
 were written past their memory

---
 src/array.tpp | 42 +++++++++---------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index c5c75d6..be49796 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -516,16 +516,10 @@ ARRAY_ELEMENTWISE_INT_TRANSFORM(ceil)
 template<class T>
 Array<T>
 Array<T>::sum(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{0};
@@ -542,16 +536,10 @@ Array<T>::sum(const ind_t dim) const{
 template<class T>
 Array<T>
 Array<T>::prod(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{1};
@@ -568,16 +556,10 @@ Array<T>::prod(const ind_t dim) const{
 template<class T>
 Array<T>
 Array<T>::min(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{(std::numeric_limits<T>::max)()};
@@ -595,18 +577,12 @@ Array<T>::min(const ind_t dim) const{
 template<class T>
 Array<T>
 Array<T>::max(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   // the stride along any dimension can not be zero. protect against it:
-  for (ind_t i=0; i<ndim; ++i) if (ostride[i] < 1u) ostride[i] = 1u;
+  for (ind_t i=0; i<_shape.size(); ++i) if (ostride[i] < 1u) ostride[i] = 1u;
 
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
-- 
2.43.0


From 5f8be9a1eb83c2a64a4f0b1addc98dd3c192e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 17/51] fix: permutation functions for arrays of objects did
 not compile

---
 src/permutation.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 419597d..04b2e66 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -140,7 +140,7 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (Nel[0]){
       for (size_t k=0; k<Nel[0]; ++k)
-        s_cost += magnitude(c_i[k] - n_j[k]);
+        s_cost += brille::utils::magnitude(c_i[k] - n_j[k]);
       c_i += Nel[0];
       n_j += Nel[0];
     }
@@ -306,7 +306,7 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (Nel[0]){
       for (size_t k=0; k<Nel[0]; ++k)
-        s_cost += magnitude(c_i[k] - n_j[k]);
+        s_cost += brille::utils::magnitude(c_i[k] - n_j[k]);
       c_i += Nel[0];
       n_j += Nel[0];
     }
@@ -473,13 +473,13 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (vals_Nel[0]){
       for (size_t k=0; k<vals_Nel[0]; ++k)
-        s_cost += magnitude(vals_c_i[k] - vals_n_j[k]);
+        s_cost += brille::utils::magnitude(vals_c_i[k] - vals_n_j[k]);
       vals_c_i += vals_Nel[0];
       vals_n_j += vals_Nel[0];
     }
     if (vecs_Nel[0]){
       for (size_t k=0; k<vecs_Nel[0]; ++k)
-        s_cost += magnitude(vecs_c_i[k] - vecs_n_j[k]);
+        s_cost += brille::utils::magnitude(vecs_c_i[k] - vecs_n_j[k]);
       vecs_c_i += vecs_Nel[0];
       vecs_n_j += vecs_Nel[0];
     }
@@ -695,7 +695,7 @@ for (size_t i=0; i<Nobj; ++i){
     s_cost = R(0);
     if (Nel[0]){
       for (size_t k=0; k<Nel[0]; ++k)
-        s_cost += magnitude(c_i[k] - n_j[k]);
+        s_cost += brille::utils::magnitude(c_i[k] - n_j[k]);
       c_i += Nel[0];
       n_j += Nel[0];
     }
-- 
2.43.0


From de3d315a0abd870cbc82cbdc8e87eba46e7f8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 18/51] fix: stable matching compared the preferences of the
 wrong column

---
 src/smp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.hpp b/src/smp.hpp
index f9c28c2..9b9b031 100644
--- a/src/smp.hpp
+++ b/src/smp.hpp
@@ -132,7 +132,7 @@ int smp(const T dim, const P *restrict prefs, T *restrict rsol, T *restrict csol
         // if the preferred column has a proposed match
         if (cmatched[thisc]){
           // and if the column prefers this row over the proposed row
-          if (cpref[i*dim + i] < cpref[i*dim + csol[thisc]]){
+          if (cpref[thisc*dim + i] < cpref[thisc*dim + csol[thisc]]){
             // unmatch the other row
             rmatched[csol[thisc]] = false;
             rsol[csol[thisc]] = T(0);
-- 
2.43.0


From a5889f5bf179f83d4031c59dbbac94ccf6f9e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 19/51] fix: apply_inverse_permutation stored indices in place
 of objects

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 04b2e66..0386e8e 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -809,7 +809,7 @@ apply_inverse_permutation(ObjItr objects, ObjItr end, PermItr indices){
     objects[indices[i]] = std::move(objects[i]);
     indices[indices[i]] = indices[i];
     // and put the popped object and index back in here
-    objects[i] = std::move(pop_idx);
+    objects[i] = std::move(pop_obj);
     indices[i] = pop_idx;
   }
 }
-- 
2.43.0


From 34d2ead7d5e445b6ee1c8051d5dd99996a332733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 20/51] fix: sm_permutation used the matrix size for vector
 angles

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 0386e8e..957caea 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -704,7 +704,7 @@ for (size_t i=0; i<Nobj; ++i){
         case 0: v_cost = std::abs(std::sin(brille::utils::hermitian_angle(Nel[1], c_i, n_j))); break;
         case 1: v_cost =  brille::utils::vector_distance(Nel[1], c_i, n_j); break;
         case 2: v_cost = 1-brille::utils::vector_product(Nel[1], c_i, n_j); break;
-        case 3: v_cost =     brille::utils::vector_angle(Nel[2], c_i, n_j); break;
+        case 3: v_cost =     brille::utils::vector_angle(Nel[1], c_i, n_j); break;
         default: std::cout << "Unknown vector cost function. None used." << std::endl;
       }
       c_i += Nel[1];
-- 
2.43.0


From 394a8088e1b6eff07a18006377a192e3be87057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 21/51] fix: matrices among the vectors replaced the cost of
 those among the values

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 957caea..bb822df 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -515,7 +515,7 @@ for (size_t i=0; i<Nobj; ++i){
       I nel2 = static_cast<I>(std::sqrt(vecs_Nel[2]));
       if (nel2*nel2 != vecs_Nel[2])
         throw std::runtime_error("Non-square matrix in jv_permutation");
-      m_cost = brille::utils::frobenius_distance(nel2, vecs_c_i, vecs_n_j);
+      m_cost += brille::utils::frobenius_distance(nel2, vecs_c_i, vecs_n_j);
     }
     // for each i we want to determine the cheapest j
     // cost[i*Nobj+j] = std::log(Wscl*s_cost + Wvec*v_cost + Wmat*m_cost);
-- 
2.43.0


From 3125c455ca0e804d6a6ec4a45ca22a51b6c02430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 22/51] fix: VertexMapSet could not append to a set without
 room for one vertex

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..9388091 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -229,7 +229,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_ + 1u);
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From f967823aa5db8195413c1a1034215a655a79e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 23/51] fix: VertexMapSet::is_consolidated looked at room for
 vertices in place of vertices

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 9388091..1c196ea 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -197,7 +197,7 @@ public:
   }
 
   [[nodiscard]] bool is_consolidated() const {
-    if (appended_.size(0) > 0) return false;
+    if (appended_count_ > 0) return false;
 // //    for (ind_t i=0; i<preserved_.size(); ++i) if (preserved_[i] != i) return false;
 //    for (const auto & pr: preserve_) if (pr.first != pr.second) return false;
 //    return true;
-- 
2.43.0


From 7a5c23bfb5623c7d09c83b2ba42580aaa5ab7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 24/51] fix: standard_orientation_matrix did not align basis
 vectors perpendicular to z or pointing to its negative side

---
 src/lattice_dual.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index acceaf6..32823cc 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -25,14 +25,14 @@ standard_orientation_matrix(const std::array<T, 9>& bv){
    *   Find the rotation matrix which takes us to the standard upper triangular
    *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz}
    * */
-	// Avoid (0, -1) -> pi in std::atan2:
-	auto arctan = [](T x, T y){return std::abs(x) ? std::atan2(x, y) : 0.;};
+  // Avoid (-0., -1) -> -pi in std::atan2:
+  auto arctan = [](S x, S y){return std::atan2(std::abs(x) ? x : S(0), y);};
   // tan(mu) = -ay / az
   S mu = arctan(-bv[3], bv[6]);
   auto [c_mu, s_mu] = math::cos_and_sin(mu);
 
-  // tan(nu) = -az / (ax * cos(mu))
-  S nu = arctan(-bv[6], bv[0] * c_mu);
+  // tan(nu) = -(az * cos(mu) - ay * sin(mu)) / ax
+  S nu = arctan(bv[3] * s_mu - bv[6] * c_mu, bv[0]);
   auto [c_nu, s_nu] = math::cos_and_sin(nu);
 
   // tan(xi) = (bx sin(nu) - by cos(nu) sin(mu) + bz cos(nu) cos(mu)) / (by cos(mu) + bz sin(mu))
-- 
2.43.0


From ee67269b676be44e928f1f7dac0bd0879652cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 25/51] fix: snapping left-handed basis vectors to symmetry
 inverted one of them

---
 src/lattice_dual.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 32823cc..d6f2135 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -410,13 +410,16 @@ private:
     if (snap_to_symmetry(use_real, v, c, s)) {
       // determine the re-orientation matrix necessary to align the real basis
       // vectors with the 'standard' orientation of a || x, b⋅z == 0, b⋅y > 0
-      auto R = standard_orientation_matrix(use_real ? _real_vectors : _reciprocal_vectors);
+      const auto & vectors = use_real ? _real_vectors : _reciprocal_vectors;
+      auto R = standard_orientation_matrix(vectors);
+      // left-handed basis vectors stay left-handed
+      const T handed = utils::matrix_determinant(vectors.data()) < T(0) ? T(-1) : T(1);
 
       // build the upper-triangular basis vector column-vector matrix
       matrix_t ut {{
           v[0],  v[1] * c[2], v[2] * c[1],
           T(0) , v[1] * s[2], v[2] * (c[0] - c[2]*c[1])/s[2],
-          T(0) , T(0)       , v[2] * unit_parallelpiped_volume(c) / s[2]
+          T(0) , T(0)       , handed * v[2] * unit_parallelpiped_volume(c) / s[2]
       }};
 
       // rotate the matrix back from the standard orientation to the user orientation
-- 
2.43.0


From b0036216675167d5c66153da9f87a6b081ac4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 26/51] fix: star() of an array of lattice vectors was 2 pi
 times too long

---
 src/array_functions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 533b786..013ce50 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -413,6 +413,7 @@ star(const L<T>& v){
   vsh.back() = 0;
   for (auto x: v.subItr(vsh)) // iterate over all but the last dimension
     brille::utils::multiply_matrix_vector(vstar.ptr(x), covariant_metric.data(), v.ptr(x));
+  vstar /= brille::math::two_pi; // ai= gij/2/pi * ai_star
   return vstar;
 }
 
-- 
2.43.0


From 209c5f5aee9a19d19d3e574d1026ff80811d2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 27/51] fix: the primitive transformation of a primitive
 lattice was not the identity

---
 src/primitive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive.hpp b/src/primitive.hpp
index d87794a..d33e037 100644
--- a/src/primitive.hpp
+++ b/src/primitive.hpp
@@ -118,7 +118,7 @@ public:
     case Bravais::B: return { 3, 0,-3,  0, 6, 0,  3, 0, 3};
     case Bravais::C: return { 3, 3, 0, -3, 3, 0,  0, 0, 6};
     case Bravais::R: return { 4,-2,-2,  2, 2,-4,  2, 2, 2};
-    default: return {6,6,6, 6,6,6, 6,6,6};
+    default: return { 6, 0, 0,  0, 6, 0,  0, 0, 6};
     }
   }
   /*! \brief Return the inverse of the transformation matrix P
-- 
2.43.0


From e3629b3e1b7d83684e6ec9a51ba5daba15af23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:19 +0000
Subject: [PATCH 28/51] fix: the space group table listed every B-centred group
 as primitive

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..81b31b4 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From c398dd54b198f3ff326888a53755af4e050928d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 29/51] fix: small Brillouin zone faces were taken for walls of
 the irreducible wedge

---
 src/bz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 9895b38..e04f6b3 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -27,7 +27,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
   for (ind_t i=0; i<bz_n.size(0); ++i){
     // check if the irBZ face point is on a first BZ zone face too
     // FIXME Add tolerance here
-    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0.);
+    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0., float_tolerance, approx_tolerance);
     if (!not_bz.any())
       throw std::runtime_error("Why are all of the points on the first BZ surface?!");
     ir_n = ir_n.extract(not_bz);
@@ -42,7 +42,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
     std::vector<bool> no_inverse(ir_n.size(0), true), keep(ir_n.size(0), true);
     for (ind_t i=0; i<ir_n.size(0)-1; ++i) if (no_inverse[i])
     for (ind_t j=i+1; j<ir_n.size(0); ++j) if (no_inverse[j])
-    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0.)) {
+    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0., float_tolerance, approx_tolerance)) {
       // FIXME Consider adding tolerance                             ^^^
       no_inverse[i] = no_inverse[j] = keep[j] = false;
       break;
-- 
2.43.0


From 9f58b776f5ba8af98755dcc9e45519f21b08c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:53 +0000
Subject: [PATCH 30/51] fix: isinside_wedge refused points on the wedge
 boundary which ir_moveinto returns

---
 src/bz.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..cc78c63 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -694,8 +694,7 @@ public:
 #pragma omp parallel for default(none) shared(out, normals, p, c)              \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
-        //TODO Add tolerance here?
-        out[i] = dot(normals, p.view(i)).all(c, 0.);
+        out[i] = dot(normals, p.view(i)).all(c, 0., float_tolerance, approx_tolerance);
     }
     return out;
   }
-- 
2.43.0


From 305a7fbf78a15c8d3c609c65b57c467a283d06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:11 +0000
Subject: [PATCH 31/51] fix: moveinto used primitive coordinates for the zone
 of a centred conventional lattice

---
 src/bz_move.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index efe713c..e9c6303 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -108,7 +108,8 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   LVec<double> qprim(q.type(), _inner);
   LVec<int> tauprim(tau.type(), _inner);
   PrimitiveTransform PT(_outer.bravais());
-  bool transform_needed = PT.does_anything() && _outer.is_same(Q.lattice());
+  // only a zone of the primitive lattice has its planes in that lattice
+  bool transform_needed = is_primitive && PT.does_anything() && _outer.is_same(Q.lattice());
   if (!(already_same || transform_needed)){
     std::string msg = "Q points provided to BrillouinZone::moveinto must be ";
     msg += "in the standard or primitive lattice used to define ";
@@ -121,9 +122,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
 //  auto & tausl = transform_needed? tauprim : tau;
 
   auto [a, b, c] = _first.planes();
-  auto pa = parallel_transform_to_primitive(_outer, a, threads);
-  auto pb = parallel_transform_to_primitive(_outer, b, threads);
-  auto pc = parallel_transform_to_primitive(_outer, c, threads);
+  auto pa = is_primitive ? parallel_transform_to_primitive(_outer, a, threads) : a;
+  auto pb = is_primitive ? parallel_transform_to_primitive(_outer, b, threads) : b;
+  auto pc = is_primitive ? parallel_transform_to_primitive(_outer, c, threads) : c;
 
 //  // more than one thread == slow??
 //  this->_moveinto_prim(Qsl, qsl, tausl, pa, pb, pc, threads);
-- 
2.43.0


From 5b91e1924872502ab3c80abe2dc92aebcc433222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:03 +0000
Subject: [PATCH 32/51] fix: a polygon face whose first three vertices are
 co-linear was dropped from the convex hull

---
 src/geometry.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 812a614..9f530bf 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -346,7 +346,11 @@ namespace brille {
     auto facet = points - centre;
     // pick the first on-face vector to be our x-axis
     auto x = facet.view(0).decouple(); // decouple since we're going to normalise this
-    auto z = three_point_normal(facet, 0, 1, 2);
+    // the first three points may be co-linear, in which case they define no plane
+    ind_t third{2};
+    while (third < facet.size(0) && pseudo_colinear(facet.view(0), facet.view(1), facet.view(third))[0]) ++third;
+    if (third == facet.size(0)) return false; // all points are on one line
+    auto z = three_point_normal(facet, 0u, 1u, third);
     auto y = cross(z, x);
     x /= norm(x);
     y /= norm(y);
-- 
2.43.0


From b19f147cac858f5476a27090728ae6ba9428e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 33/51] fix: Nest: interpolated vectors have the shape of the
 vectors

---
 src/nest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index cd18613..555565b 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -358,7 +358,7 @@ public:
   interpolate_at(const vert_t& x) const {
     this->check_before_interpolating(x);
     auto valsh = data_.values().shape();
-    auto vecsh = data_.values().shape();
+    auto vecsh = data_.vectors().shape();
     valsh[0] = x.size(0);
     vecsh[0] = x.size(0);
     brille::Array<DataValues> vals(valsh);
-- 
2.43.0


From a60ae037078d2bb4d5d1b6c39a74132ff8fe4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 34/51] fix: TetTri::locate: a point outside of a layer has no
 connections

---
 src/triangulation_layers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a9379ec..3fbe256 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -410,6 +410,8 @@ public:
     ind_t idx = layers[0].unsafe_locate(x,vw);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
+      // the point is not inside any tetrahedron of the higher layer
+      if (idx >= layers[i-1].number_of_tetrahedra()) break;
       const TetSet& tosearch = connections[i-1][idx];
       idx = layers[i].unsafe_locate(tosearch, x, vw);
     }
-- 
2.43.0


From 3267c172fc53a22e065f5b600829522dcddb3ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 35/51] fix: TetTri: an exception can not leave the parallel
 region connecting layers

---
 src/triangulation_layers.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 3fbe256..03bc48b 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -31,6 +31,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "array_.hpp" // defines bArray
 #include "tetgen.h"
 #include "polyhedron_flex.hpp"
+#include "thread_exception.h"
 namespace brille {
 
 /*! \brief A single triangulated layer of the hierarchy for Mesh3
@@ -452,14 +453,15 @@ private:
     if (brille::printer.datetime()) stopwatch.tic(); // we only need to start the timer if we are printing timing information
     TetMap map(layers[high].number_of_tetrahedra());
     auto mapsize = brille::utils::u2s<long long, size_t>(map.size());
+    ThreadException thread_ex;
 #if defined(__GNUC__) && !defined(__llvm__) && __GNUC__ < 9
 // this version is necessary with g++ <= 8.3.0
-#pragma omp parallel for default(none) shared(map, mapsize) schedule(dynamic)
+#pragma omp parallel for default(none) shared(map, thread_ex, mapsize) schedule(dynamic)
 #else
 // this version is necessary with g++ == 9.2.0
-#pragma omp parallel for default(none) shared(map, mapsize, high, low) schedule(dynamic)
+#pragma omp parallel for default(none) shared(map, thread_ex, mapsize, high, low) schedule(dynamic)
 #endif
-    for (long ui=0; ui<mapsize; ++ui){
+    for (long ui=0; ui<mapsize; ++ui) thread_ex.run([&]{
       auto i = brille::utils::s2u<ind_t, long long>(ui);
       // initialize the map
       map[i] = TetSet();
@@ -486,7 +488,8 @@ private:
         // if (add || tethi.intersects(ll.get_tetrahedron(j))) map[i].push_back(j);
         if (add || layers[low].get_tetrahedron(j).intersects(tethi)) map[i].push_back(j);
       }
-    }
+    }); // an exception can not leave the parallel region
+    thread_ex.rethrow();
     if (brille::printer.datetime()) stopwatch.toc();
     info_update_if(brille::printer.datetime(), "Connect ",layers[high].number_of_tetrahedra()," to ",layers[low].number_of_tetrahedra()," completed in ",stopwatch.elapsed()," ms");
     // we now have a TetMap which contains, for every tetrahedral index of the
-- 
2.43.0


From f0105815d50d43c0c2c6cce75cde709460bb4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 36/51] fix: Mesh3: copies keep the approximate comparison
 configuration

---
 src/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..71ed635 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -85,6 +85,7 @@ public:
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -93,6 +94,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
-- 
2.43.0


From 8dc11709a008774fcd79d12e4a96bb116205e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 37/51] fix: Mesh3: points which can not be located throw from
 parallel interpolation

---
 src/mesh.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index 71ed635..9c4acfe 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -177,11 +177,19 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) schedule(dynamic)
+    size_t missing{0};
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:missing) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
       auto verts_weights = this->mesh.locate(x.view(i));
-      data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      if (verts_weights.empty()) {
+        ++missing;
+      } else {
+        data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      }
+    }
+    if (missing > 0) {
+      throw std::runtime_error(std::to_string(missing) + " points not found in tetrahedral mesh");
     }
     return std::make_tuple(vals, vecs);
   }
-- 
2.43.0


From c65346a1c46ce49710e941e8d4139006b31cc1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:24 +0000
Subject: [PATCH 38/51] fix: Nest: points which can not be located throw from
 serial interpolation

---
 src/nest.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nest.hpp b/src/nest.hpp
index 555565b..4c6c767 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -373,6 +373,8 @@ public:
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
       auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      if (iw.empty())
+        throw std::runtime_error("Point not found in Nest");
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
     return std::make_tuple(vals, vecs);
-- 
2.43.0


From 90778c9c12b84136fc5d7bbd03bfbe97cc16c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:23 +0000
Subject: [PATCH 39/51] fix: Mesh3: points on the boundary are located within
 the configured tolerance

---
 src/mesh.hpp                 | 10 +++++++---
 src/triangulation_layers.hpp | 24 ++++++++++++------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index 9c4acfe..8901a9d 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -147,9 +147,11 @@ public:
     // Interpolator2::interpolate_at through the constructor:
     brille::Array2<DataValues> vals2(vals);
     brille::Array2<DataVectors> vecs2(vecs);
+    auto t = approx_.template reciprocal<double>();
+    auto n = approx_.digit();
     for (ind_t i=0; i<x.size(0); ++i){
       verbose_update("Locating ",x.to_string(i));
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->mesh.locate(x.view(i), t, n);
       if (verts_weights.size()<1){
         debug_update("Point ",x.to_string(i)," not found in tetrahedra!");
         throw std::runtime_error("Point not found in tetrahedral mesh");
@@ -178,10 +180,12 @@ public:
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
     size_t missing{0};
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:missing) schedule(dynamic)
+    auto t = approx_.template reciprocal<double>();
+    auto n = approx_.digit();
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:missing) firstprivate(t, n) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->mesh.locate(x.view(i), t, n);
       if (verts_weights.empty()) {
         ++missing;
       } else {
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 03bc48b..f40cdd0 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -159,11 +159,11 @@ public:
       throw std::runtime_error("locate requires a single 3-element vector.");
     return unsafe_locate(x, vw);
   }
-  ind_t unsafe_locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t unsafe_locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t_tol=0., const int n_tol=1) const {
     // no specified tetrahedra to check against, so check them all
     std::vector<ind_t> tosearch(nTetrahedra);
     std::iota(tosearch.begin(), tosearch.end(), 0u);
-    return unsafe_locate(tosearch, x, vw);
+    return unsafe_locate(tosearch, x, vw, t_tol, n_tol);
   }
   ind_t locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
@@ -175,13 +175,13 @@ public:
       throw std::runtime_error("The point was not located!");
     return found;
   }
-  ind_t unsafe_locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t unsafe_locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t_tol=0., const int n_tol=1) const {
     std::array<double,4> ws{};
     vw.clear();// make sure w is back to zero-elements
     for (ind_t idx: tosearch){
-      if (this->unsafe_might_contain(idx, x) && this->unsafe_contains(idx, x, ws)){
+      if (this->unsafe_might_contain(idx, x, t_tol, n_tol) && this->unsafe_contains(idx, x, ws, t_tol, n_tol)){
         // unsafe_contains sets the weights in ws
-        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0.))
+        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0., t_tol, t_tol, n_tol))
           vw.emplace_back(vertices_per_tetrahedron.val(idx,i), ws[i]);
         return idx;
       }
@@ -252,16 +252,16 @@ public:
     return keys;
   }
 protected:
-  [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x) const {
-    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet]);
+  [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x, const double t_tol=0., const int n_tol=1) const {
+    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet], t_tol, n_tol);
   }
   [[nodiscard]] bool unsafe_contains(const ind_t tet, const bArray<double>& x) const {
     std::array<double,4> w{0.,0.,0.,0.};
     return this->unsafe_contains(tet,x,w);
   }
-  bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
+  bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w, const double t_tol=0., const int n_tol=1) const {
     this->weights(tet, x, w);
-    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0.||brille::approx_float::scalar(z,0.)); });
+    return std::all_of(w.begin(), w.end(), [t_tol,n_tol](double z){ return (z>0.||brille::approx_float::scalar(z, 0., t_tol, t_tol, n_tol)); });
   }
   void weights(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     const ind_t* i = vertices_per_tetrahedron.ptr(tet);
@@ -400,7 +400,7 @@ public:
   //   return this->locate(x, v, w);
   // }
   [[nodiscard]] std::vector<std::pair<ind_t,double>>
-  locate(const bArray<double>& x) const {
+  locate(const bArray<double>& x, const double t_tol=0., const int n_tol=1) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("locate requires a single 3-element vector.");
     if (layers.size() < 1)
@@ -408,13 +408,13 @@ public:
     // setup temporary vertex(index) and weight vectors
     std::vector<std::pair<ind_t,double>> vw;
     // find the point within the highest-layer tetrahedra:
-    ind_t idx = layers[0].unsafe_locate(x,vw);
+    ind_t idx = layers[0].unsafe_locate(x, vw, t_tol, n_tol);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
       // the point is not inside any tetrahedron of the higher layer
       if (idx >= layers[i-1].number_of_tetrahedra()) break;
       const TetSet& tosearch = connections[i-1][idx];
-      idx = layers[i].unsafe_locate(tosearch, x, vw);
+      idx = layers[i].unsafe_locate(tosearch, x, vw, t_tol, n_tol);
     }
     return vw;
   }
-- 
2.43.0


From f1f236bd746797fe677ad24f3d964ce2c4a17822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:43 +0000
Subject: [PATCH 40/51] fix: mode costs of real eigenvectors were computed from
 uninitialised memory

---
 src/utilities.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 5cfc0e5..f5761fe 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -527,7 +527,9 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* phased) {
+    for (I i=0; i<n; ++i) phased[i] = b[i];
+  }
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From 2122ee7073f4d9c1d3b9314e798d7b0b63903e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:43 +0000
Subject: [PATCH 41/51] fix: vectors and matrices of the real lattice were
 rotated by the inverse operation

---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..f878c8f 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From 62c0c8a232cba4ae4372a9af0cf08b84f01653cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:43 +0000
Subject: [PATCH 42/51] fix: dynamical matrices were refused or put to the
 wrong atoms

---
 src/interpolator_gamma.tpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..dac2766 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -64,8 +64,8 @@ bool Interpolator<T>::rip_gamma_complex(
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
+  ind_t Nmat = static_cast<ind_t>(std::round(std::sqrt(no[2])));
+  if (no[2] != Nmat*Nmat){
     std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
     return false;
   }
@@ -115,19 +115,21 @@ bool Interpolator<T>::rip_gamma_complex(
       }
       if (no[2]>0){
         if (tA.size() < no[2]*9u) tA.resize(no[2]*9u);
+        // the tensor for atoms n and m transforms as the product of the vector
+        // for atom n and the conjugate of the vector for atom m, M → Γ M Γ†
         for (ind_t n=0; n<Nmat; ++n){
-          T Rph = e_iqd_gt(i, n, Rii);
-          ind_t v = static_cast<ind_t>(pgt.F0(n, Rii));
+          T nph = e_iqd_gt(i, n, iRii);
+          ind_t v = static_cast<ind_t>(pgt.F0(n, iRii));
           for (ind_t m=0; m<Nmat; ++m){
-            T iRph = e_iqd_gt(i, m, iRii);
+            T mph = std::conj(e_iqd_gt(i, m, iRii));
             ind_t k = static_cast<ind_t>(pgt.F0(m, iRii));
             // Calculate R⁻¹*M*R in two steps
             // first calculate M*R, storing in t0
             brille::utils::mul_mat_mat(t0, 3u, xi+o+9u*(n*Nmat+m), rot[Rii].data());
             // next calculate R⁻¹*t0, storing in the temporary all matrix array
             brille::utils::mul_mat_mat(t1, 3u, rot[iRii].data(), t0);
-            // include the R R⁻¹ phase factor
-            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = Rph*iRph*t1[j];
+            // include the phase factors of both atoms
+            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = nph*mph*t1[j];
           }
         }
         for (ind_t j=0; j<no[2]*9u; ++j) xi[o+j] = tA[j];
-- 
2.43.0


From af2393e0336c13171b11a4f0a971110f0d40d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:54 +0000
Subject: [PATCH 43/51] fix: convex hulls of points with duplicates had faces
 pointing to the wrong vertices

---
 src/polyhedron_faces.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index c5aacef..6caed32 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -59,7 +59,8 @@ namespace brille::polyhedron{
       if (max > 2u) {
         _faces = polygon_faces(a, b, c, fpv, unique_vertices);
         debug_update("First-pass faces:\n", _faces);
-        if (polygon_face_vertex_purge(unique_vertices, _faces)) {
+        polygon_face_vertex_purge(unique_vertices, _faces);
+        if (unique_vertices.size(0) < vertices.size(0)) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
                        get_xyz(unique_vertices).to_string(), "),\n", _faces);
           // the _faces vectors point into the smaller unique_vertices, so we
@@ -87,7 +88,8 @@ namespace brille::polyhedron{
       auto v = T(1) * vertices;
       std::tie(v, _faces) = remove_duplicate_points_and_update_face_indexing(v, _faces);
       _faces = polygon_faces(_faces, v);
-      if (polygon_face_vertex_purge(v, _faces)){
+      polygon_face_vertex_purge(v, _faces);
+      if (v.size(0) < vertices.size(0)){
         debug_update("Some vertices purged. Now vertices\nnp.array(\n", get_xyz(v).to_string(), "),\n", _faces);
         // the _faces vectors point into the smaller unique_vertices, so we
         // need to find *an* equivalent vertex in vertices for each retained
-- 
2.43.0


From d176036a32f5c235b1f4da5ae49b35c9eabcb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:54 +0000
Subject: [PATCH 44/51] fix: a polygon face was dropped if its first vertex is
 the average of its vertices

---
 src/geometry.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 9f530bf..e0e6d0e 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -342,19 +342,18 @@ namespace brille {
     // pick the first three points to define a plane, then ensure all points are in it
     if (points.size(0) < 3) return false; // can't be a face
     // move to the 2-D face coordinate system so that we can use orient2d
-    auto centre = points.sum(0) / static_cast<T>(points.size(0));
-    auto facet = points - centre;
-    // pick the first on-face vector to be our x-axis
-    auto x = facet.view(0).decouple(); // decouple since we're going to normalise this
+    auto facet = points - points.view(0);
     // the first three points may be co-linear, in which case they define no plane
     ind_t third{2};
     while (third < facet.size(0) && pseudo_colinear(facet.view(0), facet.view(1), facet.view(third))[0]) ++third;
     if (third == facet.size(0)) return false; // all points are on one line
+    // pick an on-face vector which can not be zero to be our x-axis
+    auto x = facet.view(third).decouple(); // decouple since we're going to normalise this
     auto z = three_point_normal(facet, 0u, 1u, third);
     auto y = cross(z, x);
     x /= norm(x);
     y /= norm(y);
-    T a[2] = {1, 0}, b[2], c[2];
+    T a[2] = {0, 0}, b[2], c[2];
     T s{0};
     for (ind_t i = 1; i < facet.size(0) - 1; ++i) {
       on_plane_vector(x, y, facet.view(i), b);
-- 
2.43.0


From 773855b5a49f131feca3457c04961beaf77dcdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:55 +0000
Subject: [PATCH 45/51] fix: rounding errors removed faces and vertices from
 convex hulls of lattice vectors

---
 src/geometry.hpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index e0e6d0e..571e0d1 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -650,6 +650,12 @@ namespace brille {
     return out;
   }
 
+  //! Determine if a value is only a rounding error of a calculation with results as large as `scale`
+  template<class T>
+  bool is_rounding_error(const T value, const T scale, const T Ttol=T(0), const int tol=1){
+    return approx_float::scalar(value, T(0), Ttol, Ttol, tol) || approx_float::scalar(scale + value, scale, Ttol, Ttol, tol);
+  }
+
   template<class T, template<class> class A>
   std::enable_if_t<isBareArray<T, A>, std::tuple<Array2<T>, Array2<T>, Array2<T>>>
   find_convex_hull_planes(const A<T>& points, const T Ttol=T(0), const int tol=1){
@@ -661,15 +667,19 @@ namespace brille {
     auto ibc = static_cast<ind_t>(bc);
     A<T> n(ibc, 3u), a(ibc, 3u), b(ibc, 3u), c(ibc, 3u);
     ind_t count{0}, no{points.size(0)};
+    const auto span = norm(points.max(0) - points.min(0)).sum();
     for (ind_t i=0; i < no-2; ++i) for (ind_t j=i+1; j < no-1; ++j) for (ind_t k=j+1; k<no; ++k) {
       if (pseudo_colinear(points.view(i), points.view(j), points.view(k), Ttol, tol)[0]) {
         continue;
       }
+      const auto area = norm(cross(points.view(j) - points.view(i), points.view(k) - points.view(i))).sum();
+      if (is_rounding_error(area, span * span, Ttol, tol)) continue;
       bool positive{true}, negative{true};
       for (ind_t r=0; (positive || negative) && r < no; ++r){
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
+        if (is_rounding_error(d, area * span, Ttol, tol)) continue;
         positive &= d >= 0;
         negative &= d <= 0;
       }
@@ -698,8 +708,16 @@ namespace brille {
   template<class T, template<class> class A>
   std::enable_if_t<isLatVec<T,A>, std::tuple<A<T>, A<T>, A<T>>>
   find_convex_hull_planes(const A<T>& points, const T Ttol=T(0), const int tol=1){
-    auto [a, b, c] = find_convex_hull_planes(points.xyz(), Ttol, tol);
-    return std::make_tuple(from_xyz_like(points, a), from_xyz_like(points, b), from_xyz_like(points, c));
+    const auto xyz = points.xyz();
+    auto [a, b, c] = find_convex_hull_planes(xyz, Ttol, tol);
+    // use the provided points, since coordinates can change if converted back
+    auto like = [&](const auto & y){
+      std::vector<ind_t> index;
+      index.reserve(y.size(0));
+      for (ind_t i=0; i < y.size(0); ++i) index.push_back(xyz.first(cmp::eq, y.view(i)));
+      return points.extract(index);
+    };
+    return std::make_tuple(like(a), like(b), like(c));
   }
 
 //  template<class T, template<class> class A>
@@ -731,13 +749,19 @@ namespace brille {
   find_planes_containing_point(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& points, const T Ttol=T(0), const int tol=1){
     std::vector<std::vector<ind_t>> result;
     result.reserve(points.size(0));
+    std::vector<std::vector<T>> vols;
+    vols.reserve(points.size(0));
+    std::vector<T> scale(a.size(0), T(0)); // the volume for the point furthest from each plane
+    for (ind_t i=0; i < points.size(0); ++i){
+      vols.push_back(pseudo_orient3d(a, b, c, points.view(i)));
+      for (ind_t j=0; j < scale.size(); ++j) scale[j] = (std::max)(scale[j], std::abs(vols[i][j]));
+    }
     for (ind_t i=0; i < points.size(0); ++i){
-      const auto d{points.view(i)};
+      const auto & vol{vols[i]};
       std::vector<ind_t> plane;
       plane.reserve(a.size(0));
-      auto vol = pseudo_orient3d(a, b, c, d);
       for (ind_t j=0; j < vol.size(); ++j) {
-        if (approx_float::scalar(vol[j], T(0), Ttol, Ttol, tol)) {
+        if (is_rounding_error(vol[j], scale[j], Ttol, tol)) {
           plane.push_back(j);
         }
       }
@@ -824,7 +848,8 @@ namespace brille {
       auto prev = points.view(sorted[i]) - points.view(sorted[j]);
       j = static_cast<ind_t>((sorted.size() + i + 1) % sorted.size());
       auto next = points.view(sorted[j]) - points.view(sorted[i]);
-      if (dot(normal, cross(prev, next)).all(cmp::gt, 0.)){ // FIXME add tolerance?
+      const auto turn = dot(normal, cross(prev, next)).sum();
+      if (turn > 0. && !is_rounding_error(turn, (norm(prev) * norm(next)).sum())){
         // left turn; we keep this point
         ++i;
       } else{
-- 
2.43.0


From 7e81396710ea4fc38c5b8dae1bf5fdce079f01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:55 +0000
Subject: [PATCH 46/51] fix: Faces::edges wrote out of bounds for faces which
 are not closed

---
 src/polyhedron_faces.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.cpp b/src/polyhedron_faces.cpp
index e194d10..74bec70 100644
--- a/src/polyhedron_faces.cpp
+++ b/src/polyhedron_faces.cpp
@@ -76,8 +76,10 @@ bool Faces::operator!=(const Faces& that) const {
       auto b = known[face[(i+1) % face.size()]];
       if (unseen[a * n_vert + b] && unseen[a + b * n_vert]) {
         unseen[a * n_vert + b] = unseen[a + b * n_vert] = false;
-        edges[{found, 0}] = face[i];
-        edges[{found, 1}] = face[(i+1) % face.size()];
+        if (found < edge_count) {
+          edges[{found, 0}] = face[i];
+          edges[{found, 1}] = face[(i+1) % face.size()];
+        }
         ++found;
       }
     }
-- 
2.43.0


From 32d3ec3a174b91a3679c183548648d9027d5f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:55 +0000
Subject: [PATCH 47/51] fix: the centroid of a polyhedron in a reciprocal
 lattice was scaled by 4 pi^2

---
 src/polyhedron_faces.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 6caed32..08ee5cb 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -226,12 +226,12 @@ namespace brille::polyhedron{
         for (ind_t i=1; i < face.size() - 1; ++i) {
           const auto b{x.view(face[i])};
           const auto c{x.view(face[i + 1])};
-          auto cr = cross(b-a, c-a);
-          auto sq = (((a+b)^T(2))+ ((b+c)^T(2)) + ((c+a)^T(2)));
-          for (ind_t j=0; j<3; ++j) cen[j] += cr[j] * sq[j];
+          // the tetrahedron of the origin and a triangle with (six times its) volume
+          auto six_volume = dot(cross(b-a, c-a), a).sum();
+          cen += six_volume * (a + b + c);
         }
       }
-      return cen / (T(48) * this->volume(x));
+      return cen / (T(24) * this->volume(x));
     }
     template<class T, template<class> class A>
     std::enable_if_t<isArray<T,A>, A<T>> rand_rejection(const A<T>& x, const ind_t n, const unsigned int seed) const {
-- 
2.43.0


From 627cf8e2dea1182413b35519fdc29f936dead3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:55 +0000
Subject: [PATCH 48/51] fix: Poly::divide moved the polyhedron but not the
 dividing plane

---
 src/polyhedron_faces.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 08ee5cb..e1aac42 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -401,9 +401,10 @@ namespace brille::polyhedron{
     template<class T, class R, template<class> class A, template<class> class B>
     [[nodiscard]] std::enable_if_t <isArray<T,A> &&  isArray<R,B>, std::tuple<A<T>, Faces>>
     divide(const A<T>& v, const B<R>& a, const B<R>& b, const B<R>& c) const {
-      // this all seems unnecessary
+      // this all seems unnecessary; the plane must move with the vertices
       auto z = this->centroid(v);
-      auto [cv, cf] = this->cut(v - z, a, b, c);
+      auto [cv, cf] = this->cut(v - z, a - z, b - z, c - z);
+      if (cv.size(0) < 1) return std::make_tuple(cv, cf); // nothing is left to be moved back
       return std::make_tuple(cv + z, cf);
     }
 
-- 
2.43.0


From eb2c415c479fdb8057ce6f52bee95a7ad93d9903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:18 +0000
Subject: [PATCH 49/51] fix: space group 230 can be found by its number

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 81b31b4..1470dbf 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>0 && n<231) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 2cd98fc053bf7f7c47525d48159e0f980558ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:18 +0000
Subject: [PATCH 50/51] fix: screw translations along the implied a-b axis of a
 Hall symbol

---
 src/hall_symbol.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 1dccc68..9c88e8d 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -273,6 +273,7 @@ Vector<double> SeitzSymbol::inner_gett(const int an, const char ax, const char p
       case 'y': a = {0,1,0}; break;
       case 'z': a = {0,0,1}; break;
       case '*': a = {1,1,1}; break;
+      case '?': a = {1,-1,0}; break; // the implicit axis after 3 or 6
       case '\'': switch (pax) {
         case 'x': a = {0,1,-1}; break;
         case 'y': a = {1,0,-1}; break;
-- 
2.43.0


From 33828e6c05ba2cfc9f06a4dbb5103796de2b3575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:18 +0000
Subject: [PATCH 51/51] fix: keep the origin shift when writing a Hall symbol

---
 src/hall_symbol.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 9c88e8d..6e2a349 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -164,6 +164,13 @@ std::string HallSymbol::to_ascii() const {
   if (this->centrosymmetric) s += "-";
   s += brille::bravais_letter(this->L);
   for (auto z: this->symbols) s += " " + z.to_ascii();
+  if (!this->V.has_identity_translation()){
+    // only an origin shift, in twelfths, is supported by get_generators
+    s += " (";
+    auto v = this->V.gett();
+    for (size_t i=0; i<3; ++i) s += (i ? " " : "") + std::to_string(static_cast<int>(std::round(12*v[i])));
+    s += ")";
+  }
   return s;
 }
 
-- 
2.43.0


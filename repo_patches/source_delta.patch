From ac941117792b721d6f99965ceca7c2f2c300a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:14 +0000
Subject: [PATCH 001/109] fix: stop subscript iterators at once for shapes with
 an empty dimension

SubIt, SubIt2, BroadcastIt and BroadcastIt2 compared against an end with only
the first dimension advanced, so a zero-length later dimension was iterated
(almost) forever, reading outside of the array. Broadcasting a singleton
against an empty dimension is empty as well. lin2sub skipped the slowest
dimension of column-ordered strides.
---
 src/subscript.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index af72b86..b902bef 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -178,6 +178,8 @@ public:
     size_t n = this->ndim();
     holder sub(n,T(0));
     for (size_t i=0; i<sub.size(); ++i) if (_fixed[i]) sub[i] = _inpt[i];
+    // there is nothing to iterate over if any non-fixed dimension is empty
+    for (size_t i=0; i<n; ++i) if (!_fixed[i] && _shape[i] == T(0)) return this->end();
     return {_shape, _inpt, std::move(sub), _fixed};
   }
   SubIt<T> end() const {
@@ -287,6 +289,8 @@ public:
     holder sub({T(0), T(0)});
     if (_fixed[0]) sub[0] = _inpt[0];
     if (_fixed[1]) sub[1] = _inpt[1];
+    // there is nothing to iterate over if any non-fixed dimension is empty
+    for (size_t i=0; i<2; ++i) if (!_fixed[i] && _shape[i] == T(0)) return this->end();
     return SubIt2<T>(_shape, _inpt, std::move(sub), _fixed);
   }
   SubIt2<T> end() const {
@@ -355,7 +359,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -404,6 +408,8 @@ public:
   std::tuple<holder,holder,holder> operator*() const {return triple_subscripts();}
   BroadcastIt<T> begin() const {
     size_t n = this->ndim();
+    // there is nothing to iterate over if any dimension is empty
+    for (const auto & x: _shapeO) if (x == T(0)) return this->end();
     /* Something here causes a compiler warning */
     holder s0(n,0), s1(n,0), sO(n,0);
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
@@ -474,7 +480,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt2(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -515,6 +521,8 @@ public:
     return std::make_tuple(_subO, _sub0, _sub1);
   }
   BroadcastIt2<T> begin() const {
+    // there is nothing to iterate over if any dimension is empty
+    for (const auto & x: _shapeO) if (x == T(0)) return this->end();
     holder s0({0,0}), s1({0,0}), sO({0,0});
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
   }
@@ -546,7 +554,7 @@ std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-    for (I i=ndim-1; i--; ){
+    for (size_t i=ndim; i--; ){
       sub[i] = l/stride[i];
       l -= sub[i]*stride[i];
     }
-- 
2.43.0


From fe9778bd0436e21cc389086de19294e7dab0a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 002/109] fix: linear indices of strided Array and Array2 views
 address the viewed elements

Linear indexing added only the offset of the view, so for any view that is not
contiguous (a column-ordered array's rows, an offset view, padded memory) it
reached elements outside of the view, and with it all, any, count, first,
last, is, find, match and in-place scalar operators. Contiguity of an Array is
now determined without allocating since it is checked per access.
---
 src/array.hpp  | 32 +++++++++++++++++++++++---------
 src/array2.hpp |  5 ++++-
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index f67eae3..106262d 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -112,17 +112,21 @@ public:
     return true;
   }
   bool is_contiguous() const {
-    shape_t expected(1, 1);
+    const size_t nd{_shape.size()};
+    ind_t expected{1};
     if (this->is_row_ordered()){
-      for (auto s = _shape.rbegin(); s!=_shape.rend(); ++s)
-        expected.push_back(expected.back()*(*s));
-      expected.pop_back();
-      return std::equal(_stride.begin(), _stride.end(), expected.rbegin());
+      for (size_t i=nd; i--;) {
+        if (_stride[i] != expected) return false;
+        expected *= _shape[i];
+      }
+      return true;
     }
     if (this->is_column_ordered()){
-      for (auto s : _shape) expected.push_back(expected.back()*s);
-      // expected has one too many elements
-      return std::equal(_stride.begin(), _stride.end(), expected.begin());
+      for (size_t i=0; i<nd; ++i) {
+        if (_stride[i] != expected) return false;
+        expected *= _shape[i];
+      }
+      return true;
     }
     return false;
   }
@@ -340,7 +344,17 @@ protected: // so inherited classes can calculate subscript indexes into their da
   //   return offset_sub2lin(_offset, s, _stride);
   // }
   ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    if (this->is_contiguous()) return l + _shift;
+    // the linear index counts the elements of *this* view, which does not hold all strided elements
+    ind_t rem{l}, idx{_shift};
+    const size_t nd{_shape.size()};
+    const bool column{_stride.front() < _stride.back()};
+    for (size_t i=0; i<nd; ++i){
+      const size_t d = column ? i : nd - 1 - i;
+      idx += (rem % _shape[d]) * _stride[d];
+      rem /= _shape[d];
+    }
+    return idx;
   }
   ind_t s2l_d(const shape_t& s) const {
     return sub2lin(s, _stride) + _shift;
diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..ba64a2e 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -309,7 +309,10 @@ public:
   const T& operator[](const shape_t& sub) const {return _data[this->s2l_d(sub)];}
 protected: // so inherited classes can calculate subscript indexes into their data
   [[nodiscard]] ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    if (this->is_contiguous()) return l + _shift;
+    // the linear index counts the elements of *this* view, which does not hold all strided elements
+    if (_stride[0] < _stride[1]) return ij2l_d(l % _shape[0], l / _shape[0]);
+    return ij2l_d(l / _shape[1], l % _shape[1]);
   }
   [[nodiscard]] ind_t ij2l_d(const ind_t x, const ind_t y) const {
     return sub2lin(x, y, _stride) + _shift;
-- 
2.43.0


From 6c7738eb049e71c79bd816561613be3b5c06af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 003/109] fix: decoupling a strided Array view uses strides of
 the new memory

The new memory holds only the viewed elements but was addressed with the
strides of the original, writing beyond its end.
---
 src/array.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 106262d..ffd83ea 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -428,17 +428,19 @@ private:
   Array<T> _decouple() const {
     ind_t nnum = this->size_from_shape(_shape);
     T* new_data = new T[nnum]();
-    if (nnum == _num) {
+    shape_t new_st{_stride};
+    if (this->is_contiguous() && nnum == _num) {
       std::copy(_data, _data+_num, new_data);
     } else {
-      //subscript conversion necessary due to offset
-      //                                   vvv(no offset)vvvv          vvv(offset)vvv
-      for (auto x: SubIt(_shape)) new_data[sub2lin(x,_stride)] = _data[this->s2l_d(x)];
+      //subscript conversion necessary due to offset or strided array
+      new_st = this->calculate_stride(_shape);
+      //                                   vvv(no offset)vvv         vvv(offset)vvv
+      for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
     auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
-    return Array<T>(new_data, nnum, new_own, new_ref, _shape, _stride, new_mut);
+    return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
 public:
   // sub-array access
-- 
2.43.0


From 4d843323cd403fa4724fba0174a65e1826c6498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 004/109] fix: results of Array and Array2 methods do not
 inherit the strides of a view

round, floor, ceil, negation, comparisons, unique and the Array reductions
allocated as many elements as the view has but addressed them with its
strides, accessing memory out of bounds.
---
 src/array.tpp  | 47 ++++++++++++-----------------------------------
 src/array2.tpp | 10 +++++-----
 2 files changed, 17 insertions(+), 40 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 0cdc9b8..bb0bd9c 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -503,7 +503,7 @@ Array<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array<int>\
 Array<T>:: X () const {\
-  Array<int> out(_shape, _stride);\
+  Array<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: SubIt(out.shape()))\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -516,16 +516,10 @@ ARRAY_ELEMENTWISE_INT_TRANSFORM(ceil)
 template<class T>
 Array<T>
 Array<T>::sum(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{0};
@@ -542,16 +536,10 @@ Array<T>::sum(const ind_t dim) const{
 template<class T>
 Array<T>
 Array<T>::prod(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{1};
@@ -568,16 +556,10 @@ Array<T>::prod(const ind_t dim) const{
 template<class T>
 Array<T>
 Array<T>::min(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{(std::numeric_limits<T>::max)()};
@@ -597,14 +579,9 @@ Array<T>
 Array<T>::max(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   // the stride along any dimension can not be zero. protect against it:
   for (ind_t i=0; i<ndim; ++i) if (ostride[i] < 1u) ostride[i] = 1u;
 
@@ -734,7 +711,7 @@ Array<T>::count(const brille::cmp expr, const T val) const {
 template<class T>
 Array<bool>
 Array<T>::is(const brille::cmp expr, const T val) const {
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -765,7 +742,7 @@ Array<T>::is(const brille::cmp expr, const Array<R>& that) const {
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   size_t ndim = _shape.size();
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
@@ -847,7 +824,7 @@ Array<T>::unique() const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array<T> out(osize, _stride);
+  Array<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -877,7 +854,7 @@ T Array<T>::norm(ind_t i) const {
 template<class T>
 Array<T>
 Array<T>::operator-() const{
-  Array<T> neg(_shape, _stride);
+  Array<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: SubIt(_shape)) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..0717b35 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -497,7 +497,7 @@ Array2<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array2<int>\
 Array2<T>:: X () const {\
-  Array2<int> out(_shape, _stride);\
+  Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -703,7 +703,7 @@ Array2<T>::count(const brille::cmp expr, const T val, const T Ttol, const int to
 template<class T>
 Array2<bool>
 Array2<T>::is(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -735,7 +735,7 @@ Array2<T>::is(const brille::cmp expr, const Array2<R>& that, const T Ttol, const
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
     brille::Comparer<T,R> op(expr, Ttol, Rtol, tol);
@@ -984,7 +984,7 @@ Array2<T>::unique(const T Ttol, const int tol) const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array2<T> out(osize, _stride);
+  Array2<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -1009,7 +1009,7 @@ T Array2<T>::norm(ind_t i) const {
 template<class T>
 Array2<T>
 Array2<T>::operator-() const{
-  Array2<T> neg(_shape, _stride);
+  Array2<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: this->subItr()) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
-- 
2.43.0


From d40c2371b8acf88741f493f6ab8db73c6c6bc4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 005/109] fix: extracting an Array by a vector of arrays of
 indices

The extracted elements were read from, and written to, wrong subscripts.
---
 src/array.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index bb0bd9c..faa257f 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -130,8 +130,8 @@ Array<T>::extract(const std::vector<std::array<I,Nel>>& i) const
       xi[0] = static_cast<ind_t>(i[a][b]);
       for (auto sub: SubIt(_shape, xi))
       {
-        for (ind_t j=0; j<_shape.size(); ++j) osh[j+1]=sub[j];
-        out[sub] = _data[this->s2l_d(xi)];
+        for (ind_t j=1; j<_shape.size(); ++j) osh[j+1]=sub[j];
+        out[osh] = _data[this->s2l_d(sub)];
       }
     }
   }
-- 
2.43.0


From ea4a26359e2078e899ec5ae5e8e5bb055478b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 006/109] fix: Array::match with a rotation compares the
 requested row

It compared the start of the underlying memory instead of row i.
---
 src/array.tpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index faa257f..176061f 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -619,16 +619,14 @@ bool Array<T>::match(const ind_t i, const ind_t j, const std::array<R,Nel>& rot,
   assert(this->ndim() == 2u); // only defined for 2-D Arrays
   assert(Nel == _shape[1]*_shape[1]);
   ind_t n = _shape[1];
-  auto ai=this->view(i);
-  auto aj=this->view(j);
   std::vector<T> tmp(n,T(0));
-  for (ind_t k=0; k<n; ++k) tmp[k] = aj[k];
+  for (ind_t k=0; k<n; ++k) tmp[k] = this->val(j,k);
   brille::Comparer<T,T> eq(brille::cmp::eq);
   if (order < 0){
     int o{0};
     do{
       //check against the current tmp vector whether this order rotation has moved j to i
-      if (eq(n, ai.data(), tmp.data())) return true;
+      if (eq(n, this->ptr(i), _stride[1], tmp.data(), 1u)) return true;
       // otherwise apply the rotation (again)
       brille::utils::mul_mat_vec_inplace(n, rot.data(), tmp.data());
     } while (o++ < std::abs(order));
@@ -637,7 +635,7 @@ bool Array<T>::match(const ind_t i, const ind_t j, const std::array<R,Nel>& rot,
     // rotate exactly order times
     for (int o=0; o<order; ++o)
       brille::utils::mul_mat_vec_inplace(n, rot.data(), tmp.data());
-    return eq(n, ai.data(), tmp.data());
+    return eq(n, this->ptr(i), _stride[1], tmp.data(), 1u);
   }
 }
 
-- 
2.43.0


From 0f02ac84fd3d0846249e08e0d098c9be2e6c52cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 007/109] fix: Array2::contiguous_row_ordered_copy returns a
 row ordered copy

A column ordered Array2 was copied to a column ordered Array2.
---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 0717b35..80fcbac 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1240,7 +1240,7 @@ Array2<T> Array2<T>::contiguous_copy() const {
 template<class T>
 Array2<T> Array2<T>::contiguous_row_ordered_copy() const {
   if (this->is_row_ordered() && this->is_contiguous()) return Array2<T>(*this);
-  Array2<T> out(_shape, this->calculate_stride(_shape));
+  Array2<T> out(_shape); // row-ordered contiguous
   for (auto x : this->subItr()) out[x] = (*this)[x];
   return out;
 }
-- 
2.43.0


From 2eec75a53a06ae687d9acc717860a21653aa71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 008/109] fix: Array2::each_is compares elements in linear
 order

It used the linear index as a row index, comparing only first elements of rows
and reading beyond the end of any Array2 with more than one column.
---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 80fcbac..b4b71f0 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -930,7 +930,7 @@ Array2<T>::each_is(const brille::cmp expr, const std::vector<R>& vals, const T T
   out.reserve(no);
   // loop over whole array in linear-index order
   for (ind_t i=0; i<no; ++i)
-    out.push_back(op(this->val(i), vals[i]));
+    out.push_back(op(_data[this->l2l_d(i)], vals[i]));
   return out;
 }
 
-- 
2.43.0


From 64bf3b9a512bfcb6cba1386c2d719fbf1d0f1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 009/109] fix: type-converting assignment to an Array or Array2
 releases its memory

The memory owned before the assignment was never freed.
---
 src/array.hpp  | 9 +--------
 src/array2.hpp | 8 +-------
 2 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index ffd83ea..b0e1f02 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -310,14 +310,7 @@ public:
   }
   template<class R>
   Array<T>& operator=(const Array<R>& other){
-    _mutable = true;
-    _shape = other.shape();
-    // _offset = shape_t(_shape.size(), 0);
-    _shift = 0u;
-    this->set_stride();
-    this->construct();
-    for (auto x: SubIt(_shape)) _data[s2l_d(x)] = static_cast<T>(other[x]);
-    return *this;
+    return *this = Array<T>(other); // which releases the memory held before
   }
 
   // modifiers
diff --git a/src/array2.hpp b/src/array2.hpp
index ba64a2e..017d59f 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -284,13 +284,7 @@ public:
   }
   template<class R>
   Array2<T>& operator=(const Array2<R>& other){
-    _mutable = true;
-    _shape = other.shape();
-    _shift = 0;
-    this->set_stride();
-    this->construct();
-    for (const auto & x: this->subItr()) _data[s2l_d(x)] = static_cast<T>(other[x]);
-    return *this;
+    return *this = Array2<T>(other); // which releases the memory held before
   }
 
   // modifiers
-- 
2.43.0


From 3666c8b4711e39ee70d0d6759c5678e2552d2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 010/109] fix: a scalar minus an array is not the array minus
 the scalar

---
 src/array_functions.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 92d659f..08f5ccd 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -89,7 +89,7 @@ ARRAY_SCALAR_OP(*,*=)
 ARRAY_SCALAR_OP(/,/=)
 #undef ARRAY_SCALAR_OP
 
-// scalar [+-*] any derived bArray<T> class with a copy constructor:
+// scalar [+*] any derived bArray<T> class with a copy constructor:
 #define SCALAR_ARRAY_OP(X,Y) template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>\
 std::enable_if_t<isArray<T,A>, A<S>>\
 operator X (const R b, const A<T>& a){\
@@ -98,10 +98,18 @@ operator X (const R b, const A<T>& a){\
   return out;\
 }
 SCALAR_ARRAY_OP(+,+=)
-SCALAR_ARRAY_OP(-,-=)
 SCALAR_ARRAY_OP(*,*=)
 #undef SCALAR_ARRAY_OP
 
+// scalar - any derived bArray<T> class with a copy constructor:
+template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>
+std::enable_if_t<isArray<T,A>, A<S>>
+operator - (const R b, const A<T>& a){
+  A<S> out = A<S>(a).decouple();
+  for (auto & v: out.valItr()) v = static_cast<S>(b) - v;
+  return out;
+}
+
 // any derived bArray<T> with a copy constructor [+-*/] std::array<R,N>
 // broadcasts the std::array but only if N matches the size of the last dimension of the bArray
 #define ARRAY_STDA_OP(X,Y) template<class T, template<class> class A, class R, class S = std::common_type_t<T,R>, size_t Nel>\
-- 
2.43.0


From 77b114d3b7a33ba8efbee84af6d301332ebf8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 011/109] fix: Array2::is_permutation counts rows of both
 arrays with one tolerance

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index b4b71f0..b0c21b6 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1045,7 +1045,7 @@ bool Array2<T>::is_permutation(const Array2<R>& other, const T Ttol, const R Rto
     const auto x{this->view(i)};
     // if *this contains the same thing more than once, other must as well:
     // NaN values would break this functionality since NaN == NaN is never true
-    if (this->count(cmp::eq, x) != other.count(cmp::eq, x, Ttol, Rtol, tol)) {
+    if (this->count(cmp::eq, x, Ttol, Ttol, tol) != other.count(cmp::eq, x, Ttol, Rtol, tol)) {
       info_update(x.to_string(0), " is in \n", this->to_string(), this->count(cmp::eq, x), " times but in\n",
                   other.to_string(), other.count(cmp::eq, x, tol), " times!");
       return false;
-- 
2.43.0


From 5693ab3a5ae6a1b8dc7161df58b56c9ffef17b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 012/109] fix: Array2::permutation_vector uses every row once

A row equal to an earlier row was given the same index.
---
 src/array2.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index b0c21b6..df0b780 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1063,9 +1063,9 @@ template<class R>
 std::vector<ind_t> Array2<T>::permutation_vector(const Array2<R>& other, const T Ttol, const R Rtol, int tol) const {
   auto not_present = [](const auto & a, const auto & b){
     if (a.size() == 0) throw std::runtime_error("Can not find a not in b since a is empty");
-    if (b.size() == 0) return a[0];
-    const auto ptr = std::find_first_of(a.begin(), a.end(), b.begin(), b.end(),
-                                        [](const auto & x, const auto & y){return x != y;});
+    const auto ptr = std::find_if(a.begin(), a.end(), [&b](const auto & x){
+      return std::find(b.begin(), b.end(), x) == b.end();
+    });
     if (ptr == a.end())
       throw std::runtime_error("b contains all of a!");
     return *ptr;
-- 
2.43.0


From 2964374663075dd24595a24a5664a35da49fc38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 013/109] fix: Array2::all(le_ge, ...) uses the provided
 tolerances

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index df0b780..f5a2040 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -664,7 +664,7 @@ bool Array2<T>::match(const ind_t i, const ind_t j, brille::ops op, T val, const
 template<class T>
 bool Array2<T>::all(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
   if (brille::cmp::le_ge == expr)
-    return this->all(brille::cmp::le, val) || this->all(brille::cmp::ge, val);
+    return this->all(brille::cmp::le, val, Ttol, tol) || this->all(brille::cmp::ge, val, Ttol, tol);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) if(!op(_data[this->l2l_d(k)], val)) return false;
-- 
2.43.0


From 7f3f572dfea323bf8e143af85bbc9d231eb61669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 014/109] fix: value iterators of empty arrays stop at once

---
 src/array.hpp  | 2 +-
 src/array2.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index b0e1f02..2d063f7 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -586,7 +586,7 @@ public:
   {}
   //! Return this ArrayIt with the iterator starting at index 0
   ArrayIt<T> begin() const {
-    return ArrayIt(array);
+    return ArrayIt(array, subit.begin());
   }
   //! Return this ArrayIt with the iterator at its end (one beyond the last valid subscript)
   ArrayIt<T> end() const {
diff --git a/src/array2.hpp b/src/array2.hpp
index 017d59f..50aa72a 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -619,7 +619,7 @@ public:
   {}
   //! Return this ArrayIt with the iterator starting at index {0,0}
   Array2It<T> begin() const {
-    return Array2It(array);
+    return Array2It(array, subit.begin());
   }
   //! Return this ArrayIt with the iterator at its end {array.size(0),0}
   Array2It<T> end() const {
-- 
2.43.0


From 1018bb592ed904e8474a6a31fee5c0be8945e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 015/109] fix: strides of singleton dimensions do not make an
 Array non-contiguous

The contiguous copy of, e.g., one row of a column ordered Array reported that
it was not contiguous and could not be reshaped. Array2 has ignored them.
---
 src/array.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 2d063f7..1258725 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -115,15 +115,18 @@ public:
     const size_t nd{_shape.size()};
     ind_t expected{1};
     if (this->is_row_ordered()){
-      for (size_t i=nd; i--;) {
-        if (_stride[i] != expected) return false;
+      bool row{true};
+      for (size_t i=nd; row && i--;) {
+        // the stride along a dimension with a single element has no impact
+        row = _shape[i] < 2 || _stride[i] == expected;
         expected *= _shape[i];
       }
-      return true;
+      if (row) return true;
     }
     if (this->is_column_ordered()){
+      expected = 1;
       for (size_t i=0; i<nd; ++i) {
-        if (_stride[i] != expected) return false;
+        if (_shape[i] > 1 && _stride[i] != expected) return false;
         expected *= _shape[i];
       }
       return true;
-- 
2.43.0


From 1207623abb56b907f9a6ed3effbff9110c514130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 016/109] fix: swap, permute and extract pairs of elements of
 one-dimensional Arrays

A subscript iterator with all of its dimensions fixed can not be constructed.
---
 src/array.tpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 176061f..e680dee 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -121,15 +121,16 @@ Array<T>::extract(const std::vector<std::array<I,Nel>>& i) const
     osh.push_back(_shape[j]);
   Array<T> out(osh);
   shape_t xi{_shape};
+  xi[0] = 1u; // iterate over one sub-array, which may be a single element
   for (ind_t a=0; a<i.size(); ++a)
   {
     osh[0] = a;
     for (ind_t b=0; b<Nel; ++b)
     {
       osh[1] = b;
-      xi[0] = static_cast<ind_t>(i[a][b]);
-      for (auto sub: SubIt(_shape, xi))
+      for (auto sub: SubIt(xi))
       {
+        sub[0] = static_cast<ind_t>(i[a][b]);
         for (ind_t j=1; j<_shape.size(); ++j) osh[j+1]=sub[j];
         out[osh] = _data[this->s2l_d(sub)];
       }
@@ -883,9 +884,9 @@ template<class T>
 bool Array<T>::swap(const ind_t a, const ind_t b){
   assert(a<_shape[0] && b<_shape[0]);
   shape_t sub{_shape};
-  sub[0] = a; // fix the 0th index to 'a' in the iterator
-  auto itr = SubIt<ind_t>(_shape, sub);
-  for (auto aidx: itr){
+  sub[0] = 1u; // iterate over one sub-array, which may be a single element
+  for (auto aidx: SubIt<ind_t>(sub)){
+    aidx[0] = a;
     // for each of the [a,...] subscripted indices, construct [b,...]
     shape_t bidx{aidx};
     bidx[0] = b;
-- 
2.43.0


From 76aa74ad8b7120bf4ea1911c1e1e0ed3cbc9f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 017/109] fix: binomial coefficients whose numerator product
 overflows

---
 src/utilities.tpp | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..a045726 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -689,7 +689,7 @@ indistinguishable objects can be chosen.
 template<class T, class R>
 std::enable_if_t<std::is_unsigned<T>::value&&std::is_unsigned<R>::value, unsigned long long>
 binomial_coefficient(const T n, const R k){
-  unsigned long long ans{1}, num{1}, den{1}, comdiv;
+  unsigned long long ans{1};
   if (k>n){
     std::string msg = "The binomial coefficient requires more choices than selections.";
     msg += "\n binomial_coefficient(" + std::to_string(n) + ":" + std::to_string(k) + ") is invalid";
@@ -697,31 +697,17 @@ binomial_coefficient(const T n, const R k){
   }
   // the Binomial coefficient is symmetric due to the denominator k!(n-k)!
   R m = (n-k < k) ? static_cast<R>(n-k) : k;
-  bool overflow = false;
   for (R i=0; i<m; ++i){
-    unsigned long long lastnum{num}, lastden{den};
-    num *= static_cast<unsigned long long>(n-i);
-    den *= static_cast<unsigned long long>(i)+1;
-    if (lastnum > num || lastden > den){
-      comdiv = gcd(lastnum, lastden);
-      if (comdiv > 1){
-        num = lastnum/comdiv;
-        den = lastden/comdiv;
-        --i;
-      } else {
-        overflow = true;
-      }
+    // ans is C(n,i) and ans * (n-i) / (i+1) is C(n,i+1): removing the common
+    // factors first means that only a too-large result can overflow
+    unsigned long long num{static_cast<unsigned long long>(n-i)}, den{static_cast<unsigned long long>(i)+1};
+    const unsigned long long common = gcd(num, den);
+    num /= common;
+    ans /= den / common;
+    if (ans > (std::numeric_limits<unsigned long long>::max)() / num){
+      throw std::overflow_error("The binomial coefficient is too large to be represented");
     }
-    if (overflow) break;
-  }
-
-  if (overflow){
-    long double dans{1};
-    for (T i=0; i<m; ++i)
-      dans *= static_cast<long double>(n-i)/(static_cast<long double>(i)+1);
-    ans = std::llround(dans);
-  } else {
-    ans = num/den;
+    ans *= num;
   }
   return ans;
 }
-- 
2.43.0


From ebda0a2d5705110bfc342b138cf2486ca11ddffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 018/109] fix: in-place transpose of matrices that are not 3 by
 3

---
 src/utilities.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index a045726..81f0187 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -186,9 +186,9 @@ template<typename R, int N> void complex_conj_matrix_transpose(std::complex<R> *
 template<typename R, int N> void matrix_transpose(R *B){
   R t;
   for (int i=0; i<N; i++) for(int j=i+1; j<N; j++) {
-    t = B[i+j*3];
-    B[i+j*3] = B[j+i*3];
-    B[j+i*3] = t;
+    t = B[i+j*N];
+    B[i+j*N] = B[j+i*N];
+    B[j+i*N] = t;
   }
 }
 
-- 
2.43.0


From d91609e0012e589d4049c2f0d4e58a70744fb61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 019/109] fix: rounding of values just below one half

---
 src/utilities.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 81f0187..9651e63 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -86,7 +86,8 @@ template<typename T, typename R, typename S, int N> void subtract_matrix(T *C, c
 // specialized casting of doubles to ints
 template<typename T,typename R> T my_cast(const R a){ return T(a); }
 // inlined to avoid redefining this specialization each time the header is called
-template<> inline int my_cast<int,double>(const double a){ return int( a<0 ? a-0.5 : a+0.5); }
+// a+0.5 is not exact for every a, so use the standard rounding function
+template<> inline int my_cast<int,double>(const double a){ return int(std::round(a)); }
 // element-wise re-(special)-casting of arrays
 template<typename T, typename R, int N, int M> void cast_array(T *A, const R *B){ for (int i=0; i<N*M; i++) A[i] = my_cast<T,R>(B[i]); }
 
-- 
2.43.0


From 836c73d9d592386b957a312e5bfa3e4fd96903a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 020/109] fix: refuse signed values too large for the unsigned
 type

---
 src/utilities.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9651e63..625baa8 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -730,8 +730,8 @@ S u2s(const U u){
 template<typename U,typename S>
 U s2u(const S s){
   if (s < 0
-    //|| static_cast<U>((std::numeric_limits<S>::max)()) > (std::numeric_limits<U>::max)() // the largest element of type S is too big for U
-    //|| s > static_cast<S>((std::numeric_limits<U>::max)()) // s, specifically is too big to be expressed in type U
+    // s, specifically, is too big to be expressed in type U
+    || static_cast<unsigned long long>(s) > static_cast<unsigned long long>((std::numeric_limits<U>::max)())
   ){
     std::string msg = "signed_to_unsiged:: Value " + std::to_string(s)
                     + " can not be stored in requested unsiged type"
-- 
2.43.0


From 1020b3f9f1ae29645172b1d4d64b11761c80b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 021/109] fix: chain after setting the direct tolerance

---
 src/approx_config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/approx_config.hpp b/src/approx_config.hpp
index e325946..91b5553 100644
--- a/src/approx_config.hpp
+++ b/src/approx_config.hpp
@@ -24,7 +24,7 @@ public:
 
   // setters returning a set object reference (to, hopefully, allow chaining)
   Config & digit(int i) {digit_=i; return *this;}
-  template<class T> Config direct(T value){
+  template<class T> Config & direct(T value){
     direct_ = static_cast<double>(value);
     return *this;
   }
-- 
2.43.0


From c638471c7aea3eba7412dfc75b0969e1b3d766d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 022/109] fix: tolerant comparisons of infinities and of
 mixed-sign integers

---
 src/approx_float.hpp | 52 ++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/approx_float.hpp b/src/approx_float.hpp
index 715bd6c..2d7c52c 100644
--- a/src/approx_float.hpp
+++ b/src/approx_float.hpp
@@ -99,6 +99,23 @@ namespace brille::approx_float{
     return std::make_tuple(TorRisInteger, TisFloatingPt, Trel, Rrel, Tabs, Rabs);
   }
 
+  #if !defined(DOXYGEN_SHOULD_SKIP_THIS)
+  /* \brief Whether |a-b| <= abs_tol + rel_tol*|a+b|
+
+  Equal infinities have no difference, and an infinite sum is not a tolerance
+  within which every difference is small: scale the two values before adding them
+  and never accept an infinite difference.
+  */
+  template<class T, class R, class E>
+  bool _within(const T a, const R b, const E rel_tol, const E abs_tol){
+    if (a == b) return true;
+    auto x = brille::abs(a-b);
+    // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
+    return (x <= abs_tol + brille::abs(rel_tol*a + rel_tol*b) && x <= (std::numeric_limits<decltype(x)>::max)())
+      || (std::is_floating_point_v<E> && x < std::numeric_limits<E>::min()); // an integer minimum is not a small number
+  }
+  #endif
+
   #if defined(DOXYGEN_SHOULD_SKIP_THIS)
     /*! \brief Approximate equivalency of two scalars `a ≈ b`
 
@@ -155,36 +172,25 @@ namespace brille::approx_float{
     template<typename T, typename R>
     std::enable_if_t<std::is_integral_v<T> && !std::is_integral_v<R>, bool>
     _scalar(const T a, const R b, const bool, const T, const R Rrel, const T, const R Rabs){
-      // if ( a == T(0) && brille::abs(b) <= Rrel ) return true;
-      auto x = brille::abs(a-b);
-      return x <= Rabs + Rrel*brille::abs(a+b) || x < std::numeric_limits<R>::min();
+      return _within(a, b, Rrel, Rabs);
     }
     // Floating Point T and Integral R
     template<typename T, typename R>
     std::enable_if_t<!std::is_integral_v<T> && std::is_integral_v<R>, bool>
     _scalar(const T a, const R b, const bool, const T Trel, const R, const T Tabs, const R){
-      // if ( brille::abs(a) <= Trel && b == R(0) ) return true;
-      auto x = brille::abs(a-b);
-      return x <= Tabs + Trel*brille::abs(a+b) || x < std::numeric_limits<T>::min();
+      return _within(a, b, Trel, Tabs);
     }
     // same-type Floating Point T and R
     template<typename T, typename R>
     std::enable_if_t<!std::is_integral_v<T>, bool>
     _scalar(const T a, const T b, const bool, const T Trel, const T, const T Tabs, const T){
-      // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-      auto x = brille::abs(a-b);
-      return x <= Tabs + Trel*brille::abs(a+b) || x < std::numeric_limits<T>::min();
+      return _within(a, b, Trel, Tabs);
     }
     // Floating Point T and R
     template<typename T, typename R>
     std::enable_if_t<!std::is_integral_v<T> && !std::is_integral_v<R>, bool>
     _scalar(const T a, const R b, const bool useT, const T Trel, const R Rrel, const T Tabs, const R Rabs){
-      // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-      auto x = brille::abs(a-b);
-      if (useT)
-        return x <= Tabs + Trel*brille::abs(a+b) || x < std::numeric_limits<T>::min();
-      else
-        return x <= Rabs + Rrel*brille::abs(a+b) || x < std::numeric_limits<R>::min();
+      return useT ? _within(a, b, Trel, Tabs) : _within(a, b, Rrel, Rabs);
     }
   #endif
 
@@ -223,21 +229,9 @@ namespace brille::approx_float{
     bool answer=true;
     // we need <= in case T and R are integer, otherwise this is *always* false since 0 !< 0
     if (useT){
-      T Tmin = std::numeric_limits<T>::min();
-      for (size_t i=0; i<NM; ++i){
-        auto x = brille::abs(a[i]-b[i]);
-        // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-        // if ( brille::abs(a[i]) <= Trel && brille::abs(b[i]) <= Rrel ) answer &= x <= Trel;
-        answer &= x <= Tabs + Trel*brille::abs(a[i]+b[i]) || x < Tmin;
-      }
+      for (size_t i=0; i<NM; ++i) answer &= _within(a[i], b[i], Trel, Tabs);
     } else {
-      R Rmin = std::numeric_limits<R>::min();
-      for (size_t i=0; i<NM; ++i){
-        auto x = brille::abs(a[i]-b[i]);
-        // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-        // if ( brille::abs(a[i]) <= Trel && brille::abs(b[i]) <= Rrel ) answer &= x <= Rrel;
-        answer &= x <= Rabs + Rrel*brille::abs(a[i]+b[i]) || x < Rmin;
-      }
+      for (size_t i=0; i<NM; ++i) answer &= _within(a[i], b[i], Rrel, Rabs);
     }
     return answer;
   }
-- 
2.43.0


From 627e105c8738ba0cf14e33a81f1842fcbc47fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 023/109] fix: compare proposals by the preferences of the
 proposed column

---
 src/smp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.hpp b/src/smp.hpp
index f9c28c2..9b9b031 100644
--- a/src/smp.hpp
+++ b/src/smp.hpp
@@ -132,7 +132,7 @@ int smp(const T dim, const P *restrict prefs, T *restrict rsol, T *restrict csol
         // if the preferred column has a proposed match
         if (cmatched[thisc]){
           // and if the column prefers this row over the proposed row
-          if (cpref[i*dim + i] < cpref[i*dim + csol[thisc]]){
+          if (cpref[thisc*dim + i] < cpref[thisc*dim + csol[thisc]]){
             // unmatch the other row
             rmatched[csol[thisc]] = false;
             rsol[csol[thisc]] = T(0);
-- 
2.43.0


From 645eb7698c202f6f3310697cd4510b16139fbaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 024/109] fix: apply an inverse permutation to the objects

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 419597d..de7b9ee 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -809,7 +809,7 @@ apply_inverse_permutation(ObjItr objects, ObjItr end, PermItr indices){
     objects[indices[i]] = std::move(objects[i]);
     indices[indices[i]] = indices[i];
     // and put the popped object and index back in here
-    objects[i] = std::move(pop_idx);
+    objects[i] = std::move(pop_obj);
     indices[i] = pop_idx;
   }
 }
-- 
2.43.0


From a90813b8c8eb17b8d1bd7383eacc54f5edf1b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 025/109] fix: grow an empty list of appended vertices

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..9388091 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -229,7 +229,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_ + 1u);
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From e66a43e13be6ab9a6d178b1e832e8fb044e476f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 026/109] fix: assign when every cost is zero

---
 src/munkres.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/munkres.hpp b/src/munkres.hpp
index fa61e4d..11836d0 100644
--- a/src/munkres.hpp
+++ b/src/munkres.hpp
@@ -62,7 +62,7 @@ public:
     rowcover.resize(N);
     colcover.resize(N);
     // try to run the assignment algorithm
-    finished = run_assignment();
+    finished = cmat.size() > 0 && run_assignment();
   }
   void reset(){
     // Make sure the mask and covers are set correctly for the start of a run
@@ -87,11 +87,8 @@ public:
   */
   bool run_assignment(){
     reset();
-    // check that we *can* perform an assignment
-    T sum = 0;
-    for (size_t i=0; i < cost.size(); ++i) sum+=std::abs(cost[i]);
-    // If there is cost information we're not done yet.
-    bool done = sum <= 0;
+    // all-zero costs are as valid as any other
+    bool done = N < 1;
     while (!done) {
       // show();
       switch (step) {
-- 
2.43.0


From 85c244320638908d6799f18fc492824a69c102e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 027/109] fix: Jonker-Volgenant assignments have the minimum
 cost

An offset of 1/(10000 n) of the summed costs in the row reduction allowed
assignments that are not optimal (and overflows integer costs). Limit the
number of row reductions instead; the augmentation does not need them.
---
 src/lapjv.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/lapjv.hpp b/src/lapjv.hpp
index f8db668..7f34f5d 100644
--- a/src/lapjv.hpp
+++ b/src/lapjv.hpp
@@ -300,12 +300,6 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
     matches[i] = 0;
   }
 
-  // Following https://github.com/Fil/lap-jv/blob/master/lap.js
-  // add an epsilon to comparisons to break infinite loops
-  cost total_cost{0};
-  for (idx tc=0; tc<dim*dim; ++tc) total_cost += assign_cost[tc];
-  cost cost_epsilon = total_cost / static_cast<cost>(10000*dim);
-
   // COLUMN REDUCTION
   //for (idx j = dim - 1; j >= 0; j--) {   // reverse order gives better results.
   for (idx j = dim; j-- > 0; ){
@@ -344,7 +338,7 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
       cost min = (std::numeric_limits<cost>::max)();
       for (idx j = 0; j < dim; j++) {
         if (j != j1) {
-          if (local_cost[j] - v[j] < min + cost_epsilon) {
+          if (local_cost[j] - v[j] < min) {
             min = local_cost[j] - v[j];
           }
         }
@@ -363,6 +357,9 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
     idx k = 0;
     idx prevnumfree = numfree;
     numfree = 0;  // start list of rows still free after augmenting row reduction.
+    // rounding of real costs can make the reductions arbitrarily small; limit
+    // their number, since the augmentation below does not depend on them.
+    size_t remaining = static_cast<size_t>(dim) * static_cast<size_t>(dim);
     while (k < prevnumfree) {
       idx i = free[k++];
 
@@ -372,13 +369,15 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
       std::tie(umin, usubmin, j1, j2) = find_umins(dim, i, assign_cost, v);
 
       idx i0 = colsol[j1];
-      cost vj1_new = v[j1] - (usubmin + cost_epsilon - umin);
-      bool vj1_lowers = vj1_new < v[j1];  // the trick to eliminate the epsilon bug
+      cost vj1_new = v[j1] - (usubmin - umin);
+      bool may_lower = remaining > 0;
+      if (may_lower) --remaining;
+      bool vj1_lowers = may_lower && vj1_new < v[j1];  // the trick to eliminate the epsilon bug
       if (vj1_lowers) {
         // change the reduction of the minimum column to increase the minimum
         // reduced cost in the row to the subminimum.
         v[j1] = vj1_new;
-      } else if (i0 != static_cast<idx>(-1)) {  // (was >=0) minimum and subminimum equal.
+      } else if (may_lower && i0 != static_cast<idx>(-1)) {  // (was >=0) minimum and subminimum equal.
         // minimum column j1 is assigned.
         // swap columns j1 and j2, as j2 may be unassigned.
         j1 = j2;
-- 
2.43.0


From 27cbcf477a83bc940deda16d49fc4133538083da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 028/109] fix: the unique elements of an empty vector are none

---
 src/utilities.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utilities.hpp b/src/utilities.hpp
index 8107d15..93e1985 100644
--- a/src/utilities.hpp
+++ b/src/utilities.hpp
@@ -778,7 +778,6 @@ subscript_ok(const std::vector<I>& subscript, const std::vector<I>& shape){
   template<typename T>
   std::vector<T> unique(const std::vector<T> &x) {
     std::vector<T> out;
-    out.push_back(x[0]);
     for (auto &v: x)
       if (std::find(out.begin(), out.end(), v) == out.end())
         out.push_back(v);
-- 
2.43.0


From 52f764d4788b8ae1957f9df6c22e7df0f6e2d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 029/109] fix: round single precision values cast to integers

---
 src/utilities.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 625baa8..11386b4 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -88,6 +88,7 @@ template<typename T,typename R> T my_cast(const R a){ return T(a); }
 // inlined to avoid redefining this specialization each time the header is called
 // a+0.5 is not exact for every a, so use the standard rounding function
 template<> inline int my_cast<int,double>(const double a){ return int(std::round(a)); }
+template<> inline int my_cast<int,float>(const float a){ return int(std::round(a)); }
 // element-wise re-(special)-casting of arrays
 template<typename T, typename R, int N, int M> void cast_array(T *A, const R *B){ for (int i=0; i<N*M; i++) A[i] = my_cast<T,R>(B[i]); }
 
-- 
2.43.0


From 2954988a35e41b01fdbead28835254db19391598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:38 +0000
Subject: [PATCH 030/109] fix: tolerant comparisons of integers do not overflow

---
 src/approx_float.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/approx_float.hpp b/src/approx_float.hpp
index 2d7c52c..f0f0b62 100644
--- a/src/approx_float.hpp
+++ b/src/approx_float.hpp
@@ -109,6 +109,8 @@ namespace brille::approx_float{
   template<class T, class R, class E>
   bool _within(const T a, const R b, const E rel_tol, const E abs_tol){
     if (a == b) return true;
+    // without any tolerance (only possible for integers) avoid a difference which could overflow
+    if (rel_tol == E(0) && abs_tol == E(0)) return false;
     auto x = brille::abs(a-b);
     // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
     return (x <= abs_tol + brille::abs(rel_tol*a + rel_tol*b) && x <= (std::numeric_limits<decltype(x)>::max)())
-- 
2.43.0


From 4d11596984f0357a52e4013fd3c46e1e01e56b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 031/109] fix: vectors expressed in the dual lattice keep their
 length

---
 src/array_functions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 08f5ccd..b9ace28 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -414,6 +414,7 @@ star(const L<T>& v){
   vsh.back() = 0;
   for (auto x: v.subItr(vsh)) // iterate over all but the last dimension
     brille::utils::multiply_matrix_vector(vstar.ptr(x), covariant_metric.data(), v.ptr(x));
+  vstar /= math::two_pi; // ai = gij / 2 pi * ai_star
   return vstar;
 }
 
-- 
2.43.0


From 4efcd9b47557c88c67f730c395688f51729d2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 032/109] fix: the primitive transform of a primitive lattice
 is the identity

---
 src/primitive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive.hpp b/src/primitive.hpp
index d87794a..d33e037 100644
--- a/src/primitive.hpp
+++ b/src/primitive.hpp
@@ -118,7 +118,7 @@ public:
     case Bravais::B: return { 3, 0,-3,  0, 6, 0,  3, 0, 3};
     case Bravais::C: return { 3, 3, 0, -3, 3, 0,  0, 0, 6};
     case Bravais::R: return { 4,-2,-2,  2, 2,-4,  2, 2, 2};
-    default: return {6,6,6, 6,6,6, 6,6,6};
+    default: return { 6, 0, 0,  0, 6, 0,  0, 0, 6};
     }
   }
   /*! \brief Return the inverse of the transformation matrix P
-- 
2.43.0


From 87e994720b092ab4dbcd52ada1c1e8979d39c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 033/109] fix: snapping basis vectors keeps their orientation
 and handedness

---
 src/lattice_dual.hpp | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index acceaf6..43f3054 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -25,28 +25,22 @@ standard_orientation_matrix(const std::array<T, 9>& bv){
    *   Find the rotation matrix which takes us to the standard upper triangular
    *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz}
    * */
-	// Avoid (0, -1) -> pi in std::atan2:
-	auto arctan = [](T x, T y){return std::abs(x) ? std::atan2(x, y) : 0.;};
-  // tan(mu) = -ay / az
-  S mu = arctan(-bv[3], bv[6]);
-  auto [c_mu, s_mu] = math::cos_and_sin(mu);
-
-  // tan(nu) = -az / (ax * cos(mu))
-  S nu = arctan(-bv[6], bv[0] * c_mu);
-  auto [c_nu, s_nu] = math::cos_and_sin(nu);
-
-  // tan(xi) = (bx sin(nu) - by cos(nu) sin(mu) + bz cos(nu) cos(mu)) / (by cos(mu) + bz sin(mu))
-  S num = bv[1] * s_nu - bv[4] * c_nu * s_mu + bv[7] * c_nu * c_mu;
-  S den = bv[4] * c_mu + bv[7] * s_mu;
-  S xi = arctan(num, den);
-  auto [c_xi, s_xi] = math::cos_and_sin(xi);
-
-  // Rotation matrix, verified 'by hand' multiple times.
-  std::array<S,9> rotation_matrix{
-      {c_nu,                              s_nu * s_mu,                      -s_nu * c_mu,
-       s_xi * s_nu,  c_xi * c_mu - s_xi * c_nu * s_mu,  c_xi * s_mu + s_xi * c_nu * c_mu,
-       c_xi * s_nu, -s_xi * c_mu - c_xi * c_nu * s_mu, -s_xi * s_mu + c_xi * c_nu * c_mu}
+  // The rows of the rotation matrix are the orthonormal directions along a, in
+  // the (a,b) plane, and along a x b
+  std::array<S,3> x{{bv[0], bv[3], bv[6]}}, b{{bv[1], bv[4], bv[7]}};
+  auto normalise = [](std::array<S,3>& v){
+    auto n = std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
+    for (auto & e: v) e /= n;
   };
+  auto cross = [](const std::array<S,3>& u, const std::array<S,3>& v){
+    return std::array<S,3>{{u[1]*v[2] - u[2]*v[1], u[2]*v[0] - u[0]*v[2], u[0]*v[1] - u[1]*v[0]}};
+  };
+  normalise(x);
+  auto z = cross(x, b);
+  normalise(z);
+  auto y = cross(z, x);
+
+  std::array<S,9> rotation_matrix{{x[0], x[1], x[2], y[0], y[1], y[2], z[0], z[1], z[2]}};
   return rotation_matrix;
 }
 
@@ -412,11 +406,15 @@ private:
       // vectors with the 'standard' orientation of a || x, b⋅z == 0, b⋅y > 0
       auto R = standard_orientation_matrix(use_real ? _real_vectors : _reciprocal_vectors);
 
+      // the third basis vector of a left-handed basis is below the plane of the first two
+      const auto & bv = use_real ? _real_vectors : _reciprocal_vectors;
+      const T hand = utils::matrix_determinant(bv.data()) < T(0) ? T(-1) : T(1);
+
       // build the upper-triangular basis vector column-vector matrix
       matrix_t ut {{
           v[0],  v[1] * c[2], v[2] * c[1],
           T(0) , v[1] * s[2], v[2] * (c[0] - c[2]*c[1])/s[2],
-          T(0) , T(0)       , v[2] * unit_parallelpiped_volume(c) / s[2]
+          T(0) , T(0)       , v[2] * unit_parallelpiped_volume(c) / s[2] * hand
       }};
 
       // rotate the matrix back from the standard orientation to the user orientation
-- 
2.43.0


From e6f0fdd597b4d1c1c36d5deb40ce4126b0fa9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 034/109] fix: snap the lengths of basis vectors mapped onto
 the opposite of one another

---
 src/lattice_dual.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 43f3054..a83c181 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -318,14 +318,16 @@ private:
     bool second_hint{centring_hint && _space.getcentring() != Bravais::R};
     // determine if basis vectors are connected by symmetry operations
     std::vector<std::array<int,3>> eis {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
+    // a vector mapped to the opposite of another has the same length, too
+    auto minus = [](const std::array<int,3>& e){return std::array<int,3>{{-e[0], -e[1], -e[2]}};};
     // (a-b, b-c, c-a), (a*-b*, b*-c*, c*-a*)
     bool main[3]{false, false, false}, dual[3]{false, false, false};
     for (size_t i=0; i<3u; ++i){
       const auto j{(i+1)%3u};
       // Real lattice vectors rotate like v' = R v
-      main[i] = _point.mat_vec_links(eis[i], eis[j]);
+      main[i] = _point.mat_vec_links(eis[i], eis[j]) || _point.mat_vec_links(eis[i], minus(eis[j]));
       // Reciprocal lattice vectors rotate like q' = tr(R) q = tr(tr(q) R)
-      dual[i] = _point.vec_mat_links(eis[i], eis[j]);
+      dual[i] = _point.vec_mat_links(eis[i], eis[j]) || _point.vec_mat_links(eis[i], minus(eis[j]));
     }
     // if we're dealing with Reciprocal lattice parameters, then main and dual
     // need to be swapped!
-- 
2.43.0


From 4df423fd441c076d65c98b299d87ed655402fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:20 +0000
Subject: [PATCH 035/109] fix: snap atoms to the average of all their
 equivalent atoms

---
 src/basis.hpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/basis.hpp b/src/basis.hpp
index ad12958..ccc4e76 100644
--- a/src/basis.hpp
+++ b/src/basis.hpp
@@ -203,27 +203,23 @@ public:
       // if (!is_ok[k]) break; // we can not break early in case multiple atoms need to be modified
     }
     if (all_ok(is_ok)) return true;
-    // not all ok; figure out *which* need to be snapped
-    for (size_t k=0; k<positions_.size(); ++k){
-      if (!is_ok[k]){
-        // we know the k-th atom position is (slightly) wrong, find how much
-        // it needs to be moved to be 'right':
-        point delta{{0,0,0}};
-        ind_t count{0};
-        for (const auto & op: ops){
-          point K_pos = op.move_point(positions_[k]);
-          auto c = closest_to(types_[k], K_pos, e_tol, n_tol); // (found_or_not, closest_atom_index, difference_vector)
-          if (std::get<ind_t>(c) == k){
-            count++;
-            for (size_t xi=0; xi<3; ++xi) delta[xi] += std::get<point>(c)[xi];
-          }
-        }
-        // calculate the average difference vector for the closest atom
-        if (count) for (auto & d: delta) d /= static_cast<double>(count);
-        // and add it to the k-th position, thereby fixing its wrong position
-        for (size_t xi=0; xi<3; ++xi) positions_[k][xi] += delta[xi];
+    // not all ok; every operation takes one atom close to the position of an
+    // equivalent atom, find how far from it they all are to move it to their average
+    std::vector<point> delta(positions_.size(), point{{0,0,0}});
+    std::vector<ind_t> count(positions_.size(), 0);
+    for (size_t j=0; j<positions_.size(); ++j){
+      for (const auto & op: ops){
+        point K_pos = op.move_point(positions_[j]);
+        auto c = closest_to(types_[j], K_pos, e_tol, n_tol); // (found_or_not, closest_atom_index, difference_vector)
+        auto k = std::get<ind_t>(c);
+        count[k]++;
+        for (size_t xi=0; xi<3; ++xi) delta[k][xi] += std::get<point>(c)[xi];
       }
     }
+    for (size_t k=0; k<positions_.size(); ++k){
+      // add the average difference to the k-th position, thereby fixing its wrong position
+      if (count[k]) for (size_t xi=0; xi<3; ++xi) positions_[k][xi] += delta[k][xi] / static_cast<double>(count[k]);
+    }
     // double check that we've snapped appropriately
     for (size_t k=0; k<positions_.size(); ++k)
       for (const auto & op: ops)
-- 
2.43.0


From 2f196578b83ca608c94d47395b2a6983dd117260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:39 +0000
Subject: [PATCH 036/109] fix: Motions with negative or irrational translations
 print text that reads back equal

---
 src/motion.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..aaab8f7 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -1,5 +1,7 @@
 #ifndef BRILLE_MOTION_HPP_
 #define BRILLE_MOTION_HPP_
+#include <iomanip>
+#include <limits>
 #include "symmetry_common.hpp"
 #include "hdf_interface.hpp"
 namespace brille {
@@ -141,14 +143,26 @@ operations.
         std::string out;
         auto one = [](const R* e, const T v){
             std::string lout;
-            if (v != T(0)){
+            // the sign is kept separate since a denominator can not be signed
+            const T av = std::abs(v);
+            if (av != T(0)){
+                if (v < T(0)) lout += "-";
                 // try finding a rational number:
-                int num{0}, den{0};
+                int num{1}, den{0};
                 for (; num<256; ++num){
-                    den = T(num)/v;
-                    if (brille::approx_float::scalar(v, T(num)/T(den))) break;
+                    const T ratio = std::round(T(num)/av);
+                    if (ratio > T(65536)) continue;
+                    den = static_cast<int>(ratio);
+                    // much closer than the precision used to compare Motions
+                    if (den > 0 && std::abs(av - T(num)/T(den)) <= 4*std::numeric_limits<T>::epsilon()*av) break;
+                }
+                if (num < 256) {
+                    lout += std::to_string(num) + "/" + std::to_string(den);
+                } else {
+                    std::stringstream decimal; // enough digits to recover the value
+                    decimal << std::fixed << std::setprecision(20) << av;
+                    lout += decimal.str();
                 }
-                lout += (num < 256) ? (std::to_string(num) + "/" + std::to_string(den)) : std::to_string(v);
             }
             std::vector<std::string> es{"x","y","z"};
             for (int i=0; i<3; ++i) if (e[i] != 0)
-- 
2.43.0


From eb5fb66d123d3585cd1b6f1947002c72541b7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:39 +0000
Subject: [PATCH 037/109] fix: Motion text with blanks after a sign, a leading
 decimal point, or too many components

---
 src/motion.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index aaab8f7..f767eb2 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -193,6 +193,7 @@ operations.
         T f{0}; // always floating point
         char c;
         size_t ret{0}; // number of characters read
+        bool pending{false}; // a number has been read but not yet used, special case only
         std::stringstream stream(s);
         std::string nosearch = special ? "-+ " : ";,xyz-+";
         std::string digits = "0123456789";
@@ -206,10 +207,15 @@ operations.
                 break;
             }
             ++ret; // we've read another character
+            if (n > 2 && std::string(";,xyz").find(c) != std::string::npos)
+                throw std::runtime_error("String representation of a Motion has more than three components.");
+            if (n > 2 && special && pending)
+                throw std::runtime_error("String representation of a translation has more than three components.");
             switch (c){
                 case ' ': // end of motion component in the special case, otherwise nothing
-                    if (special) {
+                    if (special && pending) {
                         this->w[n++] = static_cast<T>(i)/T(12);
+                        pending = false;
                         debug_update("set w[",n-1,"] to ", this->w[n-1]);
                     }
                     break;
@@ -235,11 +241,16 @@ operations.
                     debug_update_if(special, "which is not one of ';,xyz ' so search until one of '",nosearch,"' is found next");
                     std::stringstream tmp;
                     tmp << c; // if a number, tmp might be the sign.
-                    bool haspoint{false}, hasslash{false}, hasdigit{digits.find(c)!=std::string::npos};
+                    pending = true;
+                    bool haspoint{'.'==c}, hasslash{false}, hasdigit{digits.find(c)!=std::string::npos};
                     while (nosearch.find(char(stream.peek()))==std::string::npos && stream.good()){
                         hasdigit |= digits.find(char(stream.peek()))!=std::string::npos;
                         hasslash |= '/'==stream.peek();
                         haspoint |= '.'==stream.peek();
+                        if (' '==stream.peek()) { // blanks between, e.g., a sign and a number are not significant
+                            stream.get();
+                            continue;
+                        }
                         tmp << char(stream.get()); // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
                     }
                     // Make sure the end-of-motion character is next even if we're at the end of the string
-- 
2.43.0


From 885e2f17d8de8a6808fd65cf94fda024e5a6b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:39 +0000
Subject: [PATCH 038/109] fix: blanks after the last ';' of a list of Motions
 are not a Motion

---
 src/symmetry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 8eb1aaf..667ece3 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -63,7 +63,8 @@ bool Symmetry::from_ascii(const std::string& s){
   // split the string on ';' character(s) which denote individual motions
   std::vector<std::string> motions;
   std::istringstream stream(s);
-  for (std::string m; std::getline(stream, m, ';'); ) motions.push_back(m);
+  for (std::string m; std::getline(stream, m, ';'); ) // blanks following a ';' are not a motion
+    if (m.find_first_not_of(" \t\r\n") != std::string::npos) motions.push_back(m);
   this->M.resize(motions.size());
   for (size_t i=0; i<motions.size(); ++i) this->M[i].from_ascii(motions[i]);
   return true;
-- 
2.43.0


From 1098a7f52846ee4ff084b25258b1ecb9092fc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 039/109] fix: settings with B-face centring claim that
 centring

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..81b31b4 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From 1f27edb0a1692a37098e6392ecdfa1615735847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 040/109] fix: the Schoenflies symbol of point group 32 has no
 trailing blank

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5a90f89..cfce8dd 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -98,7 +98,7 @@ static PointgroupType pointgroup_data[33] = {
   {/*15*/{0,2,0,5,1,1,5,0,2,0},"4/mmm","D4h",Holohedry::tetragonal,Laue::_4mmm,},
   {/*16*/{0,0,0,0,0,1,0,2,0,0},"3"    ,"C3" ,Holohedry::trigonal  ,Laue::_3   ,},
   {/*17*/{0,0,2,0,1,1,0,2,0,0},"-3"   ,"C3i",Holohedry::trigonal  ,Laue::_3   ,},
-  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3 ",Holohedry::trigonal  ,Laue::_3m  ,},
+  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3" ,Holohedry::trigonal  ,Laue::_3m  ,},
   {/*19*/{0,0,0,3,0,1,0,2,0,0},"3m"   ,"C3v",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*20*/{0,0,2,3,1,1,3,2,0,0},"-3m"  ,"D3d",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*21*/{0,0,0,0,0,1,1,2,0,2},"6"    ,"C6" ,Holohedry::hexagonal ,Laue::_6m  ,},
-- 
2.43.0


From 6acb847eb0c2e5fec741f2aab111f03e3e666a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 041/109] fix: generated groups include products with
 generators listed later

---
 src/pointsymmetry.cpp | 5 +++++
 src/symmetry.cpp      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index fb4c0f3..41c07fa 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -314,6 +314,11 @@ PointSymmetry PointSymmetry::generate() const {
       }
     }
   }
+  // products with operations which come later in the list can still be missing
+  for (size_t j=0; j<gen.size(); ++j) for (size_t i=0; i<this->size(); ++i){
+    brille::utils::multiply_matrix_matrix(y.data(), this->data(i), gen.data(j));
+    if (!gen.has(y)) gen.add(y);
+  }
   return gen;
 }
 PointSymmetry PointSymmetry::generators() const {
diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 667ece3..913f77e 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -143,6 +143,11 @@ Symmetry Symmetry::generate() const {
       }
     }
   }
+  // products with generators which come later in the list can still be missing
+  for (size_t j=0; j<gen.size(); ++j) for (size_t i=0; i<this->size(); ++i){
+    auto y = getm(i) * gen.getm(j);
+    if (!gen.has(y)) gen.add(y);
+  }
   return gen;
 }
 Symmetry Symmetry::generators() const{
-- 
2.43.0


From c808240fbaf6932af3edf7698d352cfb6ba33714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 042/109] fix: collecting unique point operations does not read
 past the end of those found

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index cfce8dd..15178bf 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -229,7 +229,7 @@ PointSymmetry brille::ptg_get_pointsymmetry(const int *rotations, const int num_
   // so that our outer for loop can start from the second one
   for (int i = 1; i < num_rotations; i++) {
     bool isunique = true;
-    for (int j = 0; j < num_rotations; j++)
+    for (size_t j = 0; j < pointsym.size(); j++)
       if ( brille::utils::equal_matrix(rotations+i*9, pointsym.data(j)) ){
        isunique = false;
        break;
-- 
2.43.0


From 09fa5dc09b951358739bbea41317bf2a904a6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 043/109] fix: international table number 230 names a
 spacegroup

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 81b31b4..2a9f726 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>=0 && n<=230) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 3f8d2888b067d34256d3bbbd45450694bbc7f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 044/109] fix: a given choice is used for names which are also
 Hall symbols

---
 src/spg_database.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 2a9f726..90bc2f1 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -644,7 +644,9 @@ int brille::hall_symbol_to_hall_number(const std::string& hsymbol){
 // When we don't know if we're searching for a Hall Symbol or
 // International Table Name/Symbol search for either, starting with Hall symbols
 int brille::string_to_hall_number(const std::string& str, const std::string& ch){
-  int tmp = brille::hall_symbol_to_hall_number(str);
+  // a choice only has meaning for a Table Name/Symbol, even if it is also a Hall Symbol
+  int tmp = ch.empty() ? 0 : brille::international_string_to_hall_number(str, ch);
+  if (!tmp) tmp = brille::hall_symbol_to_hall_number(str);
   if (!tmp) tmp = brille::international_string_to_hall_number(str, ch);
   return tmp;
 }
-- 
2.43.0


From 1b6b0328ad1884dfaf0fac67f8de19fc2fa33561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 045/109] fix: repeated ' in a Hall symbol is stored as the
 axis it stands for

---
 src/hall_symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 1dccc68..c3a3c7e 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -105,7 +105,7 @@ bool HallSymbol::from_ascii(const std::string& s){
 bool HallSymbol::validate(){
   // verify that everything went ok
   bool ok = brille::bravais_is_known(this->L);
-  for (auto ss: this->symbols) ok &= ss.validate();
+  for (auto & ss: this->symbols) ok &= ss.validate();
   // further validation could be possible by finding the full spacegroup
   return ok;
 }
-- 
2.43.0


From acc2b4e25f3c53cf86dbe92021ea039dd5cfadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 046/109] fix: decoding a Hall symbol replaces any earlier one

---
 src/hall_symbol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index c3a3c7e..49cf3f8 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -22,7 +22,8 @@ using namespace brille;
 bool HallSymbol::from_ascii(const std::string& s){
   char c;
   bool hassubsup;
-  this->L = Bravais::_;
+  // nothing of a previous symbol remains
+  *this = HallSymbol();
   hassubsup = s.find('^') != std::string::npos;
   hassubsup |= s.find('_') != std::string::npos;
   // bool hasspace = s.find(' ') != std::string::npos;
-- 
2.43.0


From 9d8333d4454da1a40b1b83e4c59cef3ec93e590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 047/109] fix: screw translations along the implicit a-b axis
 of a Hall symbol

---
 src/hall_symbol.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 49cf3f8..c69ed26 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -274,6 +274,8 @@ Vector<double> SeitzSymbol::inner_gett(const int an, const char ax, const char p
       case 'y': a = {0,1,0}; break;
       case 'z': a = {0,0,1}; break;
       case '*': a = {1,1,1}; break;
+      // the special 2 preceeded by 3 or 6 case -> a-b
+      case '?': a = {1,-1,0}; break;
       case '\'': switch (pax) {
         case 'x': a = {0,1,-1}; break;
         case 'y': a = {1,0,-1}; break;
-- 
2.43.0


From be6ea1b96de5672d1d9ca2aa1dfb602c534ab73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:46 +0000
Subject: [PATCH 048/109] fix: a Hall symbol is printed with its origin shift

---
 src/hall_symbol.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index c69ed26..156e847 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -17,6 +17,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 
 #include "hall_symbol.hpp"
 #include "bravais.hpp" // for bravais_letter
+#include <cmath>
 using namespace brille;
 
 bool HallSymbol::from_ascii(const std::string& s){
@@ -165,6 +166,12 @@ std::string HallSymbol::to_ascii() const {
   if (this->centrosymmetric) s += "-";
   s += brille::bravais_letter(this->L);
   for (auto z: this->symbols) s += " " + z.to_ascii();
+  // an origin shift is given in twelfths
+  if (!this->V.has_identity_translation()){
+    std::string shift;
+    for (auto v: this->V.gett()) shift += (shift.empty() ? "" : " ") + std::to_string(std::lround(12*v));
+    s += " (" + shift + ")";
+  }
   return s;
 }
 
-- 
2.43.0


From 60c4020f495fd411d80064f26f2f42a9fccf106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:17 +0000
Subject: [PATCH 049/109] fix: faces of points with repeats index the points
 given

---
 src/polyhedron_faces.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index c5aacef..b594943 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -59,7 +59,8 @@ namespace brille::polyhedron{
       if (max > 2u) {
         _faces = polygon_faces(a, b, c, fpv, unique_vertices);
         debug_update("First-pass faces:\n", _faces);
-        if (polygon_face_vertex_purge(unique_vertices, _faces)) {
+        auto purged = polygon_face_vertex_purge(unique_vertices, _faces);
+        if (purged || std::find(unique.begin(), unique.end(), false) != unique.end()) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
                        get_xyz(unique_vertices).to_string(), "),\n", _faces);
           // the _faces vectors point into the smaller unique_vertices, so we
@@ -87,7 +88,8 @@ namespace brille::polyhedron{
       auto v = T(1) * vertices;
       std::tie(v, _faces) = remove_duplicate_points_and_update_face_indexing(v, _faces);
       _faces = polygon_faces(_faces, v);
-      if (polygon_face_vertex_purge(v, _faces)){
+      polygon_face_vertex_purge(v, _faces);
+      if (v.size(0) != vertices.size(0)){
         debug_update("Some vertices purged. Now vertices\nnp.array(\n", get_xyz(v).to_string(), "),\n", _faces);
         // the _faces vectors point into the smaller unique_vertices, so we
         // need to find *an* equivalent vertex in vertices for each retained
-- 
2.43.0


From 3b20a1b85afa846a82ff5e46396dd49862b9d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 050/109] fix: a face has area even if its first points are on
 one line

---
 src/geometry.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 812a614..9e1bc3b 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -341,12 +341,21 @@ namespace brille {
     // first verify that all points are coplanar
     // pick the first three points to define a plane, then ensure all points are in it
     if (points.size(0) < 3) return false; // can't be a face
+    // the first points may be on one line, so find some which are not
+    ind_t first{0}, second{0};
+    for (ind_t i=1; second == 0 && i < points.size(0) - 1; ++i) for (ind_t j=i+1; second == 0 && j < points.size(0); ++j){
+      if (!pseudo_colinear(points.view(0), points.view(i), points.view(j))[0]) {
+        first = i;
+        second = j;
+      }
+    }
+    if (second == 0) return false; // all points are on one line
     // move to the 2-D face coordinate system so that we can use orient2d
     auto centre = points.sum(0) / static_cast<T>(points.size(0));
     auto facet = points - centre;
-    // pick the first on-face vector to be our x-axis
-    auto x = facet.view(0).decouple(); // decouple since we're going to normalise this
-    auto z = three_point_normal(facet, 0, 1, 2);
+    // pick an on-face vector to be our x-axis
+    auto x = points.view(first) - points.view(0);
+    auto z = three_point_normal(points, static_cast<ind_t>(0), first, second);
     auto y = cross(z, x);
     x /= norm(x);
     y /= norm(y);
-- 
2.43.0


From d05ad4276293fd0c2dd1933153d7ed0f5e764a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 051/109] fix: the area of a face is that between its own
 points

---
 src/geometry.hpp | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 9e1bc3b..37c6570 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -341,34 +341,20 @@ namespace brille {
     // first verify that all points are coplanar
     // pick the first three points to define a plane, then ensure all points are in it
     if (points.size(0) < 3) return false; // can't be a face
-    // the first points may be on one line, so find some which are not
-    ind_t first{0}, second{0};
-    for (ind_t i=1; second == 0 && i < points.size(0) - 1; ++i) for (ind_t j=i+1; second == 0 && j < points.size(0); ++j){
-      if (!pseudo_colinear(points.view(0), points.view(i), points.view(j))[0]) {
-        first = i;
-        second = j;
+    auto facet = get_xyz(points);
+    auto two = [&](const ind_t i){return facet.view(i) - facet.view(0);};
+    // the first points may be on one line, so find some which are not to define the plane
+    for (ind_t i=1; i < facet.size(0) - 1; ++i) for (ind_t j=i+1; j < facet.size(0); ++j){
+      if (!pseudo_colinear(facet.view(0), facet.view(i), facet.view(j))[0]) {
+        if (!strict) return true;
+        // the (signed) area relative to the normal of the plane
+        auto z = cross(two(i), two(j));
+        T s{0};
+        for (ind_t k = 1; k < facet.size(0) - 1; ++k) s += dot(cross(two(k), two(k + 1)), z).sum();
+        return s > T(0);
       }
     }
-    if (second == 0) return false; // all points are on one line
-    // move to the 2-D face coordinate system so that we can use orient2d
-    auto centre = points.sum(0) / static_cast<T>(points.size(0));
-    auto facet = points - centre;
-    // pick an on-face vector to be our x-axis
-    auto x = points.view(first) - points.view(0);
-    auto z = three_point_normal(points, static_cast<ind_t>(0), first, second);
-    auto y = cross(z, x);
-    x /= norm(x);
-    y /= norm(y);
-    T a[2] = {1, 0}, b[2], c[2];
-    T s{0};
-    for (ind_t i = 1; i < facet.size(0) - 1; ++i) {
-      on_plane_vector(x, y, facet.view(i), b);
-      on_plane_vector(x, y, facet.view(i+1), c);
-      auto piece = orient2d(a, b, c);
-      if (!strict) piece = std::abs(piece);
-      s += piece;
-    }
-    return (s > T(0));
+    return false; // all points are on one line
   }
 
   /*! \brief Check if a point is 'behind' a plane
-- 
2.43.0


From 2d141a3cddc6aee617c65f51507ada01bbb0274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 052/109] fix: the centroid of a polyhedron in lattice units

---
 src/polyhedron_faces.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index b594943..f80b97d 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -226,12 +226,11 @@ namespace brille::polyhedron{
         for (ind_t i=1; i < face.size() - 1; ++i) {
           const auto b{x.view(face[i])};
           const auto c{x.view(face[i + 1])};
-          auto cr = cross(b-a, c-a);
-          auto sq = (((a+b)^T(2))+ ((b+c)^T(2)) + ((c+a)^T(2)));
-          for (ind_t j=0; j<3; ++j) cen[j] += cr[j] * sq[j];
+          // the sum of tetrahedron (origin, a, b, c) centroids, weighted by their (signed) volumes; valid in any units
+          cen += dot(cross(b-a, c-a), a).sum() * (a + b + c);
         }
       }
-      return cen / (T(48) * this->volume(x));
+      return cen / (T(24) * this->volume(x));
     }
     template<class T, template<class> class A>
     std::enable_if_t<isArray<T,A>, A<T>> rand_rejection(const A<T>& x, const ind_t n, const unsigned int seed) const {
-- 
2.43.0


From 1a6b0c6970f5065911f452c964d595b22af0a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:37 +0000
Subject: [PATCH 053/109] fix: convex hulls of points with rounding errors have
 all of their faces, once

---
 src/geometry.hpp | 53 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 37c6570..542ade3 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -143,6 +143,33 @@ namespace brille {
 //      return pseudo_orient3d(a.xyz(), b.xyz(), c.xyz(), d.xyz());
 //    }
 
+    /*! \brief Identify whether the test points are on the same plane as three points
+     *
+     * Rounding errors in the volume found by pseudo_orient3d are proportional to the cubed distance between the points.
+     *
+     * \returns -1 if the test point is above the plane, 0 if it is on it, and 1 if it is below
+     */
+    template<class T, template<class> class A>
+    std::enable_if_t<isArray<T,A>, std::vector<int>>
+    pseudo_side3d(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& d, const T Ttol=T(0), const int tol=1){
+      auto volume = pseudo_orient3d(a, b, c, d);
+      const auto single = d.size(0) == 1u;
+      std::vector<int> out;
+      out.reserve(volume.size());
+      for (ind_t i=0; i < volume.size(); ++i){
+        const auto ai{a.view(a.size(0) == 1u ? 0u : i)};
+        const auto x{d.view(single ? 0u : i)};
+        T scale = norm(ai - x).sum();
+        scale = (std::max)(scale, norm(b.view(b.size(0) == 1u ? 0u : i) - x).sum());
+        scale = (std::max)(scale, norm(c.view(c.size(0) == 1u ? 0u : i) - x).sum());
+        scale *= scale * scale;
+        const auto v = volume[i];
+        const bool zero = approx_float::scalar(v, T(0), Ttol, Ttol, tol) || approx_float::scalar(scale + v, scale, Ttol, Ttol, tol);
+        out.push_back(zero ? 0 : v < T(0) ? -1 : 1);
+      }
+      return out;
+    }
+
   template<class T, template<class> class A>
   std::enable_if_t<isArray<T,A>, std::vector<bool>>
   pseudo_colinear(const A<T>& a, const A<T>& b, const A<T>& c, const T Ttol=T(0), const int tol=1){
@@ -660,8 +687,7 @@ namespace brille {
       bool positive{true}, negative{true};
       for (ind_t r=0; (positive || negative) && r < no; ++r){
         if (r == i || r == j || r == k) continue;
-        auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
-//        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
+        auto d = pseudo_side3d(points.view(i), points.view(j), points.view(k), points.view(r), Ttol, tol)[0];
         positive &= d >= 0;
         negative &= d <= 0;
       }
@@ -672,7 +698,16 @@ namespace brille {
         b.set(count, points.view(positive ? j : i));
         c.set(count, points.view(k));
         n.set(count, three_point_normal(a.view(count), b.view(count), c.view(count)));
-        ++count;
+        // only keep the first of multiple descriptions of one plane
+        bool known{false};
+        for (ind_t r=0; !known && r < count; ++r) {
+          if (dot(n.view(r), n.view(count)).sum() <= T(0)) continue;
+          known = true;
+          for (const auto & x: {i, j, k}){
+            known &= 0 == pseudo_side3d(a.view(r), b.view(r), c.view(r), points.view(x), Ttol, tol)[0];
+          }
+        }
+        if (!known) ++count;
       }
     }
     if (ibc < count)
@@ -681,10 +716,8 @@ namespace brille {
     a.resize(count);
     b.resize(count);
     c.resize(count);
-    auto u = n.is_unique(Ttol, tol);
     verbose_update("Found 3-point bounding planes with normals\n", n.to_string());
-    verbose_update("Of which the unique normals are\n", n.extract(u).to_string());
-    return std::make_tuple(a.extract(u), b.extract(u), c.extract(u));
+    return std::make_tuple(a, b, c);
   }
 
   template<class T, template<class> class A>
@@ -727,12 +760,8 @@ namespace brille {
       const auto d{points.view(i)};
       std::vector<ind_t> plane;
       plane.reserve(a.size(0));
-      auto vol = pseudo_orient3d(a, b, c, d);
-      for (ind_t j=0; j < vol.size(); ++j) {
-        if (approx_float::scalar(vol[j], T(0), Ttol, Ttol, tol)) {
-          plane.push_back(j);
-        }
-      }
+      auto side = pseudo_side3d(a, b, c, d, Ttol, tol);
+      for (ind_t j=0; j < side.size(); ++j) if (0 == side[j]) plane.push_back(j);
       result.push_back(plane);
     }
     return result;
-- 
2.43.0


From f071f7491ac6bcdef5593756ecd0f16edf5d3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 054/109] fix: sorting a face removes every point which is not
 one of its corners

---
 src/geometry.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 542ade3..76da69d 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -840,19 +840,23 @@ namespace brille {
 //    verbose_update("The permutation", perm, " sorts the vertices to ", sorted);
 
     // finally, go through sorted to ensure there are no extraneous points hanging about
-    for (ind_t i=0, j; sorted.size() > 3 && i < sorted.size();){
+    // the removal of one point changes what should be decided about its neighbours
+    bool removed{true};
+    while (removed) { removed = false; for (ind_t i=0, j; sorted.size() > 3 && i < sorted.size();){
       j = static_cast<ind_t>((sorted.size() + i - 1) % sorted.size()); // why not just (i-1) % sorted.size()?
       auto prev = points.view(sorted[i]) - points.view(sorted[j]);
       j = static_cast<ind_t>((sorted.size() + i + 1) % sorted.size());
       auto next = points.view(sorted[j]) - points.view(sorted[i]);
-      if (dot(normal, cross(prev, next)).all(cmp::gt, 0.)){ // FIXME add tolerance?
+      const T turn = dot(normal, cross(prev, next)).sum() / (norm(prev).sum() * norm(next).sum());
+      if (turn > T(0) && !approx_float::scalar(T(1) + turn, T(1))){
         // left turn; we keep this point
         ++i;
       } else{
-        // right turn, we remove this point
+        // right turn (or none at all), we remove this point
         sorted.erase(sorted.begin() + i);
+        removed = true;
       }
-    }
+    } }
     return sorted;
   }
 
-- 
2.43.0


From 71e27aa1176d27bbd82d4b4034216771ae12b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:50 +0000
Subject: [PATCH 055/109] fix: only points in the middle of an edge are removed
 from a cut face

---
 src/geometry.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 76da69d..53b53da 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -985,7 +985,10 @@ namespace brille {
       for (ind_t i = 1; i < s; ++i) {
         auto e1 = points.view(face[(i + 1) % s]) - points.view(face[i]);
         e1 /= norm(e1);
-        if (dot(e0, e1).any(cmp::lt, 1., t_tol, i_tol)) updated.push_back(face[i]);
+        // the cosine of a small angle is too insensitive to decide if it is zero, its sine is not
+        const T sine = norm(cross(e0, e1)).sum();
+        const bool straight = dot(e0, e1).sum() > T(0) && approx_float::scalar(T(1) + sine, T(1), t_tol, t_tol, i_tol);
+        if (!straight) updated.push_back(face[i]);
         std::swap(e0, e1);
       }
     }
-- 
2.43.0


From 6926e349a9b4aceb2490c4ed342d351c3b42715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:30 +0000
Subject: [PATCH 056/109] fix: a cut through a vertex of a polyhedron does not
 duplicate it

---
 src/polyhedron_faces.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index f80b97d..f2195c0 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -430,8 +430,11 @@ namespace brille::polyhedron{
       auto v = T(1) * vin; // make a copy,  I hope
       auto f = this->faces(); // ditto
       auto pre_v_count = v.size(0);
+      // an intersection at a vertex differs from it by a rounding error relative to the size of the whole polyhedron
+      const T size = v.abs().max(0).max(1).sum();
+      const T Ttol = (std::max)(static_cast<T>(Rtol), static_cast<T>(tol * 10000) * std::numeric_limits<T>::epsilon() * size);
       for (auto [first, second, edge, at]: intersections){
-        auto index = v.first(cmp::eq, at, Rtol, Rtol, tol); // == v.size(0) if not found)
+        auto index = v.first(cmp::eq, at, Ttol, Ttol, tol); // == v.size(0) if not found)
         if (index < keep.size()) {
           debug_update("Edge ", my_to_string(edge), " intersection ", at.to_string(0), " which is pre-existing vertex ", index, ": ", v.view(index).to_string(0));
           // ensure existing vertices which are 'cut' because they're on the plane are retained
-- 
2.43.0


From 69d1afd91e39974c291d8d60a083ba69632323c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 057/109] fix: combining polyhedra keeps faces which are only
 part of another

---
 src/polyhedron_flex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polyhedron_flex.hpp b/src/polyhedron_flex.hpp
index c0dbfb5..ca2f424 100644
--- a/src/polyhedron_flex.hpp
+++ b/src/polyhedron_flex.hpp
@@ -121,7 +121,7 @@ namespace brille::polyhedron{
           //        // e.g., [0, 1, 2] == [0, 1, 2] || [1, 2, 3] || [2, 3, 0] || [3, 0, 1] for 4-point duplicate check
           //        // or    [0, 2, 1] == [0, 1, 2] || [1, 2, 3] || [2, 3, 0] || [3, 0, 1] for 4-point opposites check
           //      }
-          if (c > 2 && std::is_permutation(a.begin(), a.end(), b.begin())){
+          if (c > 2 && std::is_permutation(a.begin(), a.end(), b.begin(), b.end())){
             // either these faces point in opposite directions and should be removed
             // or in the same direction and only one should be removed(?);
             needed[i] = is_positive_permutation(a, b); // keep the first face *if* they point the same way
-- 
2.43.0


From 36907be44161ff6fbbff97a1c923c03997fca30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:34 +0000
Subject: [PATCH 058/109] fix: the search for the first Brillouin zone
 continues until it has the right volume

---
 src/bz.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..9c58b12 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -142,13 +142,23 @@ public:
   void construct(int test_extent, bool divide_primitive, bool wedge_search) {
     profile_update("Start of BrillouinZone construction");
     double old_volume = -1.0, new_volume = 0.0;
+    // The first Brillouin zone has the volume of the unit cell of its lattice;
+    // an unchanged volume alone does not indicate that the extent was enough.
+    const double goal = std::abs(_inner.volume(LengthUnit::inverse_angstrom));
+    const int max_extent = std::max(10, test_extent + 2);
+    auto same = [&](const double a, const double b) {
+      return approx_float::scalar(a, b, float_tolerance, float_tolerance,
+                                  approx_tolerance);
+    };
     // initial test_extent based on spacegroup or pointgroup?
     do {
       old_volume = new_volume;
+      if (test_extent >= max_extent)
+        throw std::runtime_error(
+            "failed to find the first Brillouin zone of a very oblique lattice");
       this->voro_search(++test_extent, divide_primitive);
       new_volume = _first.volume();
-    } while (!approx_float::scalar(new_volume, old_volume, float_tolerance,
-                                   float_tolerance, approx_tolerance));
+    } while (!same(new_volume, old_volume) || !same(new_volume, goal));
 
     if (brille::approx_float::scalar(new_volume, 0., float_tolerance,
                                      float_tolerance, approx_tolerance)) {
-- 
2.43.0


From 4b6419d4e8958ae9050ed38053623ef45532de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:39 +0000
Subject: [PATCH 059/109] fix: vectors can be moved into the zone of a
 conventional lattice which is centred

---
 src/bz_move.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index efe713c..bd554bd 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -107,8 +107,8 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   LVec<double> Qprim(Q.type(), _inner);
   LVec<double> qprim(q.type(), _inner);
   LVec<int> tauprim(tau.type(), _inner);
-  PrimitiveTransform PT(_outer.bravais());
-  bool transform_needed = PT.does_anything() && _outer.is_same(Q.lattice());
+  // only necessary if the zone is that of the primitive lattice
+  bool transform_needed = is_primitive && _outer.is_same(Q.lattice());
   if (!(already_same || transform_needed)){
     std::string msg = "Q points provided to BrillouinZone::moveinto must be ";
     msg += "in the standard or primitive lattice used to define ";
@@ -121,9 +121,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
 //  auto & tausl = transform_needed? tauprim : tau;
 
   auto [a, b, c] = _first.planes();
-  auto pa = parallel_transform_to_primitive(_outer, a, threads);
-  auto pb = parallel_transform_to_primitive(_outer, b, threads);
-  auto pc = parallel_transform_to_primitive(_outer, c, threads);
+  auto pa = is_primitive ? parallel_transform_to_primitive(_outer, a, threads) : a;
+  auto pb = is_primitive ? parallel_transform_to_primitive(_outer, b, threads) : b;
+  auto pc = is_primitive ? parallel_transform_to_primitive(_outer, c, threads) : c;
 
 //  // more than one thread == slow??
 //  this->_moveinto_prim(Qsl, qsl, tausl, pa, pb, pc, threads);
-- 
2.43.0


From 50e7b7da82f5951b6da5fcbe9afbb64a036857bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 060/109] fix: faces of the first zone are recognised within
 tolerance when finding the irreducible wedge

---
 src/bz.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 9895b38..65cc551 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -26,8 +26,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
   auto bz_p = this->get_points();
   for (ind_t i=0; i<bz_n.size(0); ++i){
     // check if the irBZ face point is on a first BZ zone face too
-    // FIXME Add tolerance here
-    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0.);
+    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0., float_tolerance, approx_tolerance);
     if (!not_bz.any())
       throw std::runtime_error("Why are all of the points on the first BZ surface?!");
     ir_n = ir_n.extract(not_bz);
@@ -42,8 +41,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
     std::vector<bool> no_inverse(ir_n.size(0), true), keep(ir_n.size(0), true);
     for (ind_t i=0; i<ir_n.size(0)-1; ++i) if (no_inverse[i])
     for (ind_t j=i+1; j<ir_n.size(0); ++j) if (no_inverse[j])
-    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0.)) {
-      // FIXME Consider adding tolerance                             ^^^
+    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0., float_tolerance, approx_tolerance)) {
       no_inverse[i] = no_inverse[j] = keep[j] = false;
       break;
     }
-- 
2.43.0


From ab8b15dde73fe5cb773ae2bc034384fe212333e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 061/109] fix: points on the surface of the irreducible wedge
 are inside it, within tolerance

---
 src/bz.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 9c58b12..52a3363 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -704,8 +704,7 @@ public:
 #pragma omp parallel for default(none) shared(out, normals, p, c)              \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
-        //TODO Add tolerance here?
-        out[i] = dot(normals, p.view(i)).all(c, 0.);
+        out[i] = dot(normals, p.view(i)).all(c, 0., float_tolerance, approx_tolerance);
     }
     return out;
   }
-- 
2.43.0


From 4d73e7120e075286c849860c5725a166b2e6b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 062/109] fix: threads testing points for being in the wedge do
 not share words of the result

---
 src/bz.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 52a3363..3318be3 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -677,7 +677,8 @@ public:
       msg += "used to define the BrillouinZone object";
       throw std::runtime_error(msg);
     }
-    std::vector<bool> out(p.size(0), true);
+    // the elements of std::vector<bool> can not be set by different threads
+    std::vector<char> out(p.size(0), 1);
     auto normals =
         isouter ? get_ir_wedge_normals() : get_primitive_ir_wedge_normals();
     if (normals.size(
@@ -704,9 +705,9 @@ public:
 #pragma omp parallel for default(none) shared(out, normals, p, c)              \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
-        out[i] = dot(normals, p.view(i)).all(c, 0., float_tolerance, approx_tolerance);
+        out[i] = dot(normals, p.view(i)).all(c, 0., float_tolerance, approx_tolerance) ? 1 : 0;
     }
-    return out;
+    return std::vector<bool>(out.begin(), out.end());
   }
   /*! \brief Find q and τ such that Q=q+τ and τ is a reciprocal lattice vector
     \param[in] Q A reference to lattice::LVec list of Q points
-- 
2.43.0


From d91742f271d22760e751e1d8233bb4eab32b8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 063/109] fix: the normal of a face does not depend on three of
 its vertices alone

---
 src/polyhedron_faces.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index f2195c0..1bdee36 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -196,7 +196,11 @@ namespace brille::polyhedron{
       p.resize(size());
       ind_t idx{0};
       for (const auto & face: _faces){
-        p.set(idx++, three_point_normal(x, face));
+        // three vertices can be almost collinear, so use all of them
+        auto n = cross(x.view(face[1]) - x.view(face[0]), x.view(face[2]) - x.view(face[1]));
+        for (size_t i=2; i+1 < face.size(); ++i)
+          n += cross(x.view(face[i]) - x.view(face[0]), x.view(face[i+1]) - x.view(face[i]));
+        p.set(idx++, n / norm(n));
       }
       return p;
     }
-- 
2.43.0


From e585729b3c3e9b8e1657093567af4d2c30f95750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:31 +0000
Subject: [PATCH 064/109] fix: the largest volume of a triangulated polyhedron
 is that of a tetrahedron

The method did not compile if used, and missed the factor of one sixth.
---
 src/triangulation_poly.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 1b30221..e031d80 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -169,7 +169,12 @@ public:
   }
   //! Return the volume of the largest tetrahedron
   T maximum_volume() const {
-    return triple_product(points_, tetrahedra_).max();
+    T vol{0}, max_vol{0};
+    for (ind_t i=0; i<this->number_of_tetrahedra(); ++i){
+      vol = this->volume(i);
+      if (vol > max_vol) max_vol = vol;
+    }
+    return max_vol;
   }
   //! Return the number of triangulated vertices
   [[nodiscard]] ind_t number_of_vertices() const {return points_.size(0);}
-- 
2.43.0


From 4522168cd3308dd4de07d322c736995978487f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 065/109] fix: points outside of a layered triangulation are
 not located in it

The tetrahedra connected to one which does not exist were searched.
---
 src/triangulation_layers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a9379ec..a58c5f9 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -410,6 +410,7 @@ public:
     ind_t idx = layers[0].unsafe_locate(x,vw);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
+      if (idx >= layers[i-1].number_of_tetrahedra()) break; // not located
       const TetSet& tosearch = connections[i-1][idx];
       idx = layers[i].unsafe_locate(tosearch, x, vw);
     }
-- 
2.43.0


From 98cfb3b4f856978ad9fb344708e357750fc388de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 066/109] fix: Gamma is a vertex of a triangulation which is to
 include it

---
 src/array_tetgen.hpp         | 98 ++++++++++++++++++++++++++++++++++++
 src/triangulation_poly.hpp   | 23 ++-------
 src/triangulation_simple.hpp | 27 ++--------
 3 files changed, 106 insertions(+), 42 deletions(-)

diff --git a/src/array_tetgen.hpp b/src/array_tetgen.hpp
index f58ed3d..e4e09c6 100644
--- a/src/array_tetgen.hpp
+++ b/src/array_tetgen.hpp
@@ -29,5 +29,103 @@ namespace brille {
     return four_point_sphere(v.view(i[0]), v.view(i[1]), v.view(i[2]), v.view(i[3]));
   }
 
+  /*! \brief Ensure that the origin is a point of the piecewise linear complex of a convex polyhedron
+
+  Points of the input complex are neither moved nor omitted by `TetGen`, which is
+  not true for a list of additional points.
+
+  \param io the `TetGen` input: points plus facets comprised of one polygon each
+  \returns true if a point was added, false if the origin already is a vertex
+  \note A vertex which is indistinguishable from the origin is moved there. If
+        the origin is on an edge or facet it must be part of that edge or facet.
+  */
+  inline bool include_origin(tetgenio& io){
+    using point = std::array<double,3>;
+    auto at = [&](const int i){ return point{{io.pointlist[3*i], io.pointlist[3*i+1], io.pointlist[3*i+2]}}; };
+    auto sub = [](const point& a, const point& b){ return point{{a[0]-b[0], a[1]-b[1], a[2]-b[2]}}; };
+    auto dot = [](const point& a, const point& b){ return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; };
+    auto cross = [](const point& a, const point& b){
+      return point{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}};
+    };
+    auto norm = [&](const point& a){ return std::sqrt(dot(a, a)); };
+    const int no{io.numberofpoints};
+    double size{0};
+    for (int i=1; i<no; ++i) size = (std::max)(size, norm(sub(at(i), at(0))));
+    const double tol{1e-10 * size};
+    // the origin is already a vertex
+    for (int i=0; i<no; ++i) if (norm(at(i)) <= tol) {
+      for (int j=0; j<3; ++j) io.pointlist[3*i+j] = 0.;
+      return false;
+    }
+    // otherwise add it to the list of points
+    auto * points = new double[3*(no+1)];
+    std::copy(io.pointlist, io.pointlist + 3*no, points);
+    std::fill(points + 3*no, points + 3*(no+1), 0.);
+    delete[] io.pointlist;
+    io.pointlist = points;
+    if (io.pointmarkerlist) {
+      auto * markers = new int[no+1];
+      std::copy(io.pointmarkerlist, io.pointmarkerlist + no, markers);
+      markers[no] = no;
+      delete[] io.pointmarkerlist;
+      io.pointmarkerlist = markers;
+    }
+    io.numberofpoints = no + 1;
+    // and, if it is on an edge, split the edge
+    bool on_edge{false};
+    std::pair<int,int> edge;
+    for (int f=0; f<io.numberoffacets && !on_edge; ++f) {
+      const auto & p{io.facetlist[f].polygonlist[0]};
+      for (int k=0; k<p.numberofvertices && !on_edge; ++k) {
+        edge = std::minmax({p.vertexlist[k], p.vertexlist[(k+1) % p.numberofvertices]});
+        const auto a{at(edge.first)}, b{at(edge.second)}, ab{sub(b, a)};
+        on_edge = dot(a, ab) < 0 && dot(b, ab) > 0 && norm(cross(a, ab)) <= tol * norm(ab);
+      }
+    }
+    if (on_edge) {
+      for (int f=0; f<io.numberoffacets; ++f) {
+        auto & p{io.facetlist[f].polygonlist[0]};
+        for (int k=0; k<p.numberofvertices; ++k) {
+          const int next{p.vertexlist[(k+1) % p.numberofvertices]};
+          if (std::pair<int,int>(std::minmax({p.vertexlist[k], next})) != edge) continue;
+          auto * list = new int[p.numberofvertices + 1];
+          std::copy(p.vertexlist, p.vertexlist + k + 1, list);
+          list[k + 1] = no;
+          std::copy(p.vertexlist + k + 1, p.vertexlist + p.numberofvertices, list + k + 2);
+          delete[] p.vertexlist;
+          p.vertexlist = list;
+          ++p.numberofvertices;
+          break;
+        }
+      }
+      return true;
+    }
+    // or, if it is on a facet, add it to that facet
+    for (int f=0; f<io.numberoffacets; ++f) {
+      auto & facet{io.facetlist[f]};
+      const auto & p{facet.polygonlist[0]};
+      point n{{0., 0., 0.}};
+      for (int k=0; k<p.numberofvertices; ++k) {
+        const auto c{cross(at(p.vertexlist[k]), at(p.vertexlist[(k+1) % p.numberofvertices]))};
+        for (int j=0; j<3; ++j) n[j] += c[j];
+      }
+      bool on_facet{std::abs(dot(n, at(p.vertexlist[0]))) <= tol * norm(n)};
+      for (int k=0; k<p.numberofvertices && on_facet; ++k) {
+        const auto c{cross(at(p.vertexlist[k]), at(p.vertexlist[(k+1) % p.numberofvertices]))};
+        on_facet = dot(n, c) > 0;
+      }
+      if (!on_facet) continue;
+      auto * polygons = new tetgenio::polygon[2];
+      polygons[0] = p;
+      polygons[1].numberofvertices = 1;
+      polygons[1].vertexlist = new int[1]{no};
+      delete[] facet.polygonlist;
+      facet.polygonlist = polygons;
+      facet.numberofpolygons = 2;
+      return true;
+    }
+    return true;
+  }
+
 }
 #endif
\ No newline at end of file
diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index e031d80..bef635c 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -61,11 +61,6 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
     for (ind_t j=0; j<3u; ++j)
       tgi.pointlist[i*3u+j] = points.val(i,j);
   }
-  debug_update_if(addGamma,"Check whether the Gamma point is present");
-  bool gammaPresent{false};
-  if (addGamma){
-    gammaPresent = points.row_is(brille::cmp::eq, 0 * points.view(0)).any();
-  }
   debug_update("Initialize and fill the input object's facetlist parameter");
   tgi.numberoffacets = static_cast<int>(f.size());
   tgi.facetlist = new tetgenio::facet[tgi.numberoffacets];
@@ -81,22 +76,13 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
     for (size_t j=0; j<f[i].size(); ++j)
       tgi.facetlist[i].polygonlist[0].vertexlist[j] = static_cast<int>(f[i][j]);
   }
+  debug_update_if(addGamma,"Ensure that the Gamma point is present");
+  if (addGamma) include_origin(tgi);
   // The input is now filled with the piecewise linear complex information.
   // so we can call tetrahedralize:
   debug_update("Calling tetgen::tetrahedralize");
   try {
-    if (addGamma && !gammaPresent){
-      tgb.insertaddpoints = 1;
-      tetgenio add_in;
-      add_in.numberofpoints = 1;
-      add_in.pointlist = new double[3];
-      add_in.pointmarkerlist = new int[1];
-      for (int j=0; j<3; ++j) add_in.pointlist[j] = 0.;
-      add_in.pointmarkerlist[0] = points.size(0);
-      tetrahedralize(&tgb, &tgi, &tgo, &add_in);
-    } else {
-      tetrahedralize(&tgb, &tgi, &tgo);
-    }
+    tetrahedralize(&tgb, &tgi, &tgo);
   } catch (const std::logic_error& e) {
     std::string msg = "tetgen threw a logic error with message\n" + std::string(e.what());
     throw std::runtime_error(msg);
@@ -121,8 +107,7 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
       tetrahedra.val(i, (j + 1) % 4) = static_cast<ind_t>(tgo.tetrahedronlist[i * tgo.numberofcorners + j]);
     }
   }
-  auto extra = tgo.numberofpoints - tgi.numberofpoints;
-  if (addGamma && !gammaPresent) extra -= 1; // we know about Gamma already
+  auto extra = tgo.numberofpoints - tgi.numberofpoints; // any added Gamma is part of the input
   return std::make_tuple(extra, position, tetrahedra);
 }
 template<class T, template<class> class A>
diff --git a/src/triangulation_simple.hpp b/src/triangulation_simple.hpp
index 8253887..0a6c5e4 100644
--- a/src/triangulation_simple.hpp
+++ b/src/triangulation_simple.hpp
@@ -23,6 +23,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 */
 #include "array_.hpp" // defines bArray
 #include "tetgen.h"
+#include "array_tetgen.hpp"
 namespace brille {
 
 /*! \brief A class to handle interaction with `TetGen`
@@ -91,17 +92,6 @@ public:
       for (ind_t j=0; j<numel; ++j)
         tgi.pointlist[i*numel+j] = verts.val(i,j);
     }
-    debug_update_if(addGamma,"Check whether the Gamma point is present");
-    bool gammaPresent{false};
-    if (addGamma) {
-      for (ind_t i=0; i<verts.size(0); ++i){
-        bool isGamma{true};
-        for (ind_t j=0; j<numel; ++j)
-          isGamma &= brille::approx_float::scalar(tgi.pointlist[i*numel+j], 0.);
-        if (isGamma) for (ind_t j=0; j<numel; ++j) tgi.pointlist[i*numel+j] = 0.;
-	      gammaPresent |= isGamma;
-      }
-    }
     debug_update("Initialize and fill the input object's facetlist parameter");
     tgi.numberoffacets = static_cast<int>(vpf.size());
     tgi.facetlist = new tetgenio::facet[tgi.numberoffacets];
@@ -117,22 +107,13 @@ public:
       for (size_t j=0; j<vpf[i].size(); ++j)
         tgi.facetlist[i].polygonlist[0].vertexlist[j] = static_cast<int>(vpf[i][j]);
     }
+    debug_update_if(addGamma,"Ensure that the Gamma point is present");
+    if (addGamma) include_origin(tgi);
     // The input is now filled with the piecewise linear complex information.
     // so we can call tetrahedralize:
     debug_update("Calling tetgen::tetrahedralize");
     try {
-      if (addGamma && !gammaPresent){
-        tgb.insertaddpoints = 1;
-        tetgenio addin;
-        addin.numberofpoints = 1;
-        addin.pointlist = new double[3];
-        addin.pointmarkerlist = new int[1];
-        for (int j=0; j<3; ++j) addin.pointlist[j] = 0.;
-        addin.pointmarkerlist[0] = verts.size(0);
-        tetrahedralize(&tgb, &tgi, &tgo, &addin);
-      } else {
-        tetrahedralize(&tgb, &tgi, &tgo);
-      }
+      tetrahedralize(&tgb, &tgi, &tgo);
     } catch (const std::logic_error& e) {
       std::string msg = "tetgen threw a logic error with message\n" + std::string(e.what());
       throw std::runtime_error(msg);
-- 
2.43.0


From c5eaa57834ff276428a7573989d34763dee0a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 067/109] fix: smoothing does not enlarge tetrahedra beyond the
 maximum volume

---
 src/triangulation_layers.hpp | 1 +
 src/triangulation_poly.hpp   | 1 +
 src/triangulation_simple.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a58c5f9..960e98e 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -551,6 +551,7 @@ triangulate_one_layer(const bArray<T>& verts,
   verbose_update("Creating `tetgenbehavior` object");
   tetgenbehavior tgb;
   tgb.plc = 1; // we will always tetrahedralize a piecewise linear complex
+  tgb.smooth_maxiter = 0; // smoothing moves Gamma, and makes tetrahedra larger than the maximum volume
   tgb.quality = 1; // we will (almost) always improve the tetrahedral mesh
   tgb.neighout = 1; // we *need* the neighbour information to be stored into tgo.
   if (max_cell_size > 0){
diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index bef635c..8b76118 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -35,6 +35,7 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   debug_update("Creating `tetgenbehavior` object with options/switches for tetrahedralize");
   tetgenbehavior tgb;
   tgb.plc = 1; // we will always tetrahedralize a piecewise linear complex
+  tgb.smooth_maxiter = 0; // smoothing moves Gamma, and makes tetrahedra larger than the maximum volume
   if (max_volume > 0){
     tgb.quality = 1; // we will (almost) always improve the tetrahedral mesh
     tgb.fixedvolume = 1;
diff --git a/src/triangulation_simple.hpp b/src/triangulation_simple.hpp
index 0a6c5e4..3f06013 100644
--- a/src/triangulation_simple.hpp
+++ b/src/triangulation_simple.hpp
@@ -63,6 +63,7 @@ public:
     debug_update("Creating `tetgenbehavior` object");
     tetgenbehavior tgb;
     tgb.plc = 1; // we will always tetrahedralize a piecewise linear complex
+    tgb.smooth_maxiter = 0; // smoothing moves Gamma, and makes tetrahedra larger than the maximum volume
     if (max_volume > 0){
       tgb.quality = 1; // we will (almost) always improve the tetrahedral mesh
     // tgb.neighout = 1; // we *need* the neighbour information to be stored into tgo.
-- 
2.43.0


From 541eed1e1ce0c93456dd3737af788e2c1bdcc7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 068/109] fix: a corner of a face is kept when other points of
 the face are colinear with it

---
 src/geometry.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 53b53da..86a09c7 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -843,14 +843,19 @@ namespace brille {
     // the removal of one point changes what should be decided about its neighbours
     bool removed{true};
     while (removed) { removed = false; for (ind_t i=0, j; sorted.size() > 3 && i < sorted.size();){
-      j = static_cast<ind_t>((sorted.size() + i - 1) % sorted.size()); // why not just (i-1) % sorted.size()?
-      auto prev = points.view(sorted[i]) - points.view(sorted[j]);
+      const auto h = static_cast<ind_t>((sorted.size() + i - 1) % sorted.size()); // why not just (i-1) % sorted.size()?
+      auto prev = points.view(sorted[i]) - points.view(sorted[h]);
       j = static_cast<ind_t>((sorted.size() + i + 1) % sorted.size());
       auto next = points.view(sorted[j]) - points.view(sorted[i]);
       const T turn = dot(normal, cross(prev, next)).sum() / (norm(prev).sum() * norm(next).sum());
-      if (turn > T(0) && !approx_float::scalar(T(1) + turn, T(1))){
+      const bool straight = approx_float::scalar(T(1) + turn, T(1));
+      if (turn > T(0) && !straight){
         // left turn; we keep this point
         ++i;
+      } else if (straight && dot(prev, next).sum() < T(0)) {
+        // the path is reversed, we remove the neighbour which is between this point and the other neighbour
+        sorted.erase(sorted.begin() + (norm(prev).sum() < norm(next).sum() ? h : j));
+        removed = true;
       } else{
         // right turn (or none at all), we remove this point
         sorted.erase(sorted.begin() + i);
-- 
2.43.0


From 6448082ed18fd3b124c302206476a4c5e90e08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 069/109] fix: Nest interpolation uses the leaf with a vertex
 at the interpolation point

---
 src/nest.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index cd18613..7016a20 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -191,12 +191,16 @@ public:
     // No solution found:
     if (solutions.empty()) return {};
     // More than one sol -- find the 'best' one:
+    // Neighbouring branches are subdivided independently, so a vertex of one
+    // leaf can be on a face of another: prefer the leaf with a vertex at the point
     size_t best{0};
-    if (solutions.size() > 1u) {
-      for (size_t i=0; i<solutions.size(); ++i){
-        bool better{true};
-        for (auto & j : solutions[i]) if (j.second <= 0) better = false;
-        if (better) best = i;
+    double best_max{0};
+    for (size_t i=0; i<solutions.size(); ++i){
+      double this_max{0};
+      for (auto & j : solutions[i]) if (j.second > this_max) this_max = j.second;
+      if (this_max > best_max){
+        best = i;
+        best_max = this_max;
       }
     }
     // (Attempt to) deal with slightly-negative weights by reducing maximum
-- 
2.43.0


From 79739bfd73ebd658e75c1e3a8e005a8387b835a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 070/109] fix: serial Nest interpolation sizes the vectors
 output by the stored vectors, reports points outside the nest

---
 src/nest.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index 7016a20..c9a7b4f 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -362,7 +362,7 @@ public:
   interpolate_at(const vert_t& x) const {
     this->check_before_interpolating(x);
     auto valsh = data_.values().shape();
-    auto vecsh = data_.values().shape();
+    auto vecsh = data_.vectors().shape();
     valsh[0] = x.size(0);
     vecsh[0] = x.size(0);
     brille::Array<DataValues> vals(valsh);
@@ -377,6 +377,8 @@ public:
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
       auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      if (iw.empty())
+        throw std::runtime_error("Point not found in Nest");
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
     return std::make_tuple(vals, vecs);
-- 
2.43.0


From 541d5fc83fb2c9a632a77447595123fbce49e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 071/109] fix: parallel Mesh interpolation reports points
 outside the mesh

---
 src/mesh.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..be5945d 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -175,11 +175,20 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) schedule(dynamic)
+    ind_t unfound{0};
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:unfound) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
       auto verts_weights = this->mesh.locate(x.view(i));
-      data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      if (verts_weights.size()){
+        data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      } else {
+        ++unfound;
+      }
+    }
+    if (unfound > 0){
+      std::string msg = std::to_string(unfound) + " points not found in tetrahedral mesh";
+      throw std::runtime_error(msg);
     }
     return std::make_tuple(vals, vecs);
   }
-- 
2.43.0


From abe9be36d04aed1851f5d2fb922795400a98df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 072/109] fix: copying a Mesh copies its approximate comparison
 configuration

---
 src/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index be5945d..a305adb 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -85,6 +85,7 @@ public:
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -93,6 +94,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
-- 
2.43.0


From e5353ee6afc3d17a38a95a7ea8d225508a3b60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:47 +0000
Subject: [PATCH 073/109] fix: data for the wrong number of points is not
 accepted, permutations found for replaced data are not used

---
 src/interpolatordual.hpp  | 22 ++++++++++++++++++++--
 src/permutation_table.hpp |  7 +++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index 50bdca0..f92c717 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -189,19 +189,26 @@ public:
   void replace_data(Interpolator<T>& val, Interpolator<R>& vec){
     if (vec.size() != val.size() || vec.branches() != val.branches())
       throw std::runtime_error("The values and vectors must have matching number of points and branches");
+    this->check_point_count(val.size());
     values_ = val;
     vectors_ = vec;
     this->update_permutation_table();
   }
   //! Replace only the eigenvalue data, possibly producing faked eigenvector data
   template<typename... A> void replace_value_data(A... args) {
-    values_.replace_data(args...);
+    auto replacement = values_;
+    replacement.replace_data(args...);
+    this->check_point_count(replacement.size());
+    values_ = replacement;
     this->validate_vectors();
     this->update_permutation_table();
   }
   //! Replace only the eigenvector data, possibly producing faked eigenvalue data
   template<typename... A> void replace_vector_data(A... args) {
-    vectors_.replace_data(args...);
+    auto replacement = vectors_;
+    replacement.replace_data(args...);
+    this->check_point_count(replacement.size());
+    vectors_ = replacement;
     this->validate_values();
     this->update_permutation_table();
   }
@@ -217,6 +224,17 @@ public:
   void update_permutation_table(){
     // preserve the keys in the permutation table, if possible
     this->permutation_table_.refresh(this->size(), this->branches());
+    // any permutations found for previous data do not apply to the new data
+    this->permutation_table_.reset();
+  }
+  //! \brief Ensure that data provided for a number of points can be used with the held PermutationTable
+  void check_point_count(const size_t count) const {
+    auto expected = this->permutation_table_.index_size();
+    if (expected && expected != count){
+      std::string msg = "Data for " + std::to_string(count) + " points provided but ";
+      msg += std::to_string(expected) + " were expected";
+      throw std::runtime_error(msg);
+    }
   }
   /*! Set the cost information for the eigenvalues
 
diff --git a/src/permutation_table.hpp b/src/permutation_table.hpp
index cdc2bd3..f933c83 100644
--- a/src/permutation_table.hpp
+++ b/src/permutation_table.hpp
@@ -127,6 +127,13 @@ public:
 		}
 		return invalidated;
 	}
+	//! Return the number of indexed vertices
+	[[nodiscard]] size_t index_size() const {return IndexSize;}
+	//! Reset all double-index mappings, except for the identity, to their invalid value
+	void reset(){
+		for (auto& itr: ijmap) if (itr.first) itr.second = 0u;
+		permutations.resize(1u);
+	}
 	//! Access the find method of the double-index map
 	std::map<size_t,size_t>::const_iterator find(const size_t i, const size_t j) const {
 		auto itr = this->ij2key(i,j);
-- 
2.43.0


From bcbdae4d041507cbf1a7ec330ee7925750f5c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:47 +0000
Subject: [PATCH 074/109] fix: filling a grid with the wrong number of arrays
 is an error

---
 wrap/_interpolator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wrap/_interpolator.hpp b/wrap/_interpolator.hpp
index 6a8ab00..5324c0e 100644
--- a/wrap/_interpolator.hpp
+++ b/wrap/_interpolator.hpp
@@ -19,6 +19,7 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, const size_t count){
     std::string msg;
     msg = "Provided " + std::to_string(data.size(0)) + " arrays but ";
     msg += std::to_string(count) + " were expected!";
+    throw std::runtime_error(msg);
   }
   // copy-over the element specification
   std::array<br::ind_t,3> el{{0,0,0}};
@@ -62,6 +63,7 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, py::array_t<double> py
     std::string msg;
     msg = "Provided " + std::to_string(data.size(0)) + " arrays but ";
     msg += std::to_string(count) + " were expected!";
+    throw std::runtime_error(msg);
   }
   // InnerInterpolationData requires data arrays of atleast 2D:
   if (data.ndim() < 2){
-- 
2.43.0


From 669f99e2cf85b42ebb86e494e29bc29e8a004352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:25 +0000
Subject: [PATCH 075/109] fix: real-space vectors and matrices transform with
 the inverse of the operation relating q to Q

---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..f878c8f 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From 3b62220aafeddd0c972ee12f5b0ca65e5b91fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:25 +0000
Subject: [PATCH 076/109] fix: the Gamma transformation of an NxN matrix of
 tensors

---
 src/interpolator_gamma.tpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..0338c7f 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -64,11 +64,9 @@ bool Interpolator<T>::rip_gamma_complex(
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
-    std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
-    return false;
-  }
+  ind_t Nmat = static_cast<ind_t>(std::round(std::sqrt(no[2])));
+  if (no[2] != Nmat*Nmat)
+    throw std::runtime_error("Atomic displacement Gamma transformation requires NxN 3x3 tensors!");
   const ind_t b_{this->branches()}, s_{this->branch_span()};
   // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
   long long xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
@@ -115,19 +113,21 @@ bool Interpolator<T>::rip_gamma_complex(
       }
       if (no[2]>0){
         if (tA.size() < no[2]*9u) tA.resize(no[2]*9u);
+        // the force on atom n due to the displacement of atom m transforms as
+        //  Dᵥₖ(Rq) = Γᵥₙ(q;R) Dₙₘ(q) Γₖₘ†(q;R)
         for (ind_t n=0; n<Nmat; ++n){
-          T Rph = e_iqd_gt(i, n, Rii);
-          ind_t v = static_cast<ind_t>(pgt.F0(n, Rii));
+          T nph = e_iqd_gt(i, n, iRii);
+          ind_t v = static_cast<ind_t>(pgt.F0(n, iRii));
           for (ind_t m=0; m<Nmat; ++m){
-            T iRph = e_iqd_gt(i, m, iRii);
+            T mph = std::conj(e_iqd_gt(i, m, iRii));
             ind_t k = static_cast<ind_t>(pgt.F0(m, iRii));
             // Calculate R⁻¹*M*R in two steps
             // first calculate M*R, storing in t0
             brille::utils::mul_mat_mat(t0, 3u, xi+o+9u*(n*Nmat+m), rot[Rii].data());
             // next calculate R⁻¹*t0, storing in the temporary all matrix array
             brille::utils::mul_mat_mat(t1, 3u, rot[iRii].data(), t0);
-            // include the R R⁻¹ phase factor
-            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = Rph*iRph*t1[j];
+            // include the phase factors
+            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = nph*mph*t1[j];
           }
         }
         for (ind_t j=0; j<no[2]*9u; ++j) xi[o+j] = tA[j];
-- 
2.43.0


From 3f0fb5254a7f228c6084e75c71c4b5ab0234636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:25 +0000
Subject: [PATCH 077/109] fix: the Gamma transformation requires one vector per
 atom

---
 src/interpolator_gamma.tpp | 2 ++
 src/phonon.hpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index 0338c7f..faee14d 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -67,6 +67,8 @@ bool Interpolator<T>::rip_gamma_complex(
   ind_t Nmat = static_cast<ind_t>(std::round(std::sqrt(no[2])));
   if (no[2] != Nmat*Nmat)
     throw std::runtime_error("Atomic displacement Gamma transformation requires NxN 3x3 tensors!");
+  if ((no[1] && no[1] != pgt.atoms()) || (no[2] && Nmat != pgt.atoms()))
+    throw std::runtime_error("Atomic displacement Gamma transformation requires one vector, or one row and column of tensors, per atom!");
   const ind_t b_{this->branches()}, s_{this->branch_span()};
   // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
   long long xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
diff --git a/src/phonon.hpp b/src/phonon.hpp
index 64822d8..3e76fcc 100644
--- a/src/phonon.hpp
+++ b/src/phonon.hpp
@@ -107,6 +107,8 @@ public:
     if (init){
       this->construct(dlat, time_reversal, e_tol, n_tol);
     } else {
+      n_atoms = 0;
+      n_sym_ops = 0;
       l_mapping.resize(0);
       v_mapping.resize(0);
     }
@@ -185,6 +187,7 @@ public:
     return lattice::LVec<double>(LengthUnit::angstrom, lattice_, this->vector(k,r));
   }
   [[nodiscard]] const lattice_t& lattice() const {return lattice_;}
+  [[nodiscard]] ind_t atoms() const {return n_atoms;}
 private:
   template<class Ik, class Ir> [[nodiscard]] ind_t calc_key(Ik k, Ir r) const {
     if (k<n_atoms && r<n_sym_ops)
-- 
2.43.0


From 50314b53ddcd5fcfe18b41f457e1dbbb437d1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:25 +0000
Subject: [PATCH 078/109] fix: values can rotate with the Gamma transformation

---
 src/bz_mesh.hpp    | 3 ++-
 src/bz_nest.hpp    | 3 ++-
 src/bz_trellis.hpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bz_mesh.hpp b/src/bz_mesh.hpp
index 19d2a6d..d33682d 100644
--- a/src/bz_mesh.hpp
+++ b/src/bz_mesh.hpp
@@ -122,7 +122,8 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike()
+               || RotatesLike::Gamma == this->data().values().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     //
     brille::Array2<T> vals2(vals);
diff --git a/src/bz_nest.hpp b/src/bz_nest.hpp
index d35f264..3af2a0f 100644
--- a/src/bz_nest.hpp
+++ b/src/bz_nest.hpp
@@ -114,7 +114,8 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike()
+               || RotatesLike::Gamma == this->data().values().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     //
     brille::Array2<T> vals2(vals);
diff --git a/src/bz_trellis.hpp b/src/bz_trellis.hpp
index 77de7ff..6261e74 100644
--- a/src/bz_trellis.hpp
+++ b/src/bz_trellis.hpp
@@ -182,7 +182,8 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike()
+               || RotatesLike::Gamma == this->data().values().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     // make data-sharing Array2 objects for the rotation functions
     brille::Array2<T> vals2(vals);
-- 
2.43.0


From 7458a6c7f2a1aee8a4d19085204998752321487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:25 +0000
Subject: [PATCH 079/109] fix: the cost function for real vectors uses the
 stored vectors

---
 src/utilities.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 11386b4..c8c23a5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -529,7 +529,9 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* phased) {
+    for (I i=0; i<n; ++i) phased[i] = b[i];
+  }
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From a50cbf45f0a733e0265350154741f8b30ac75c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:42 +0000
Subject: [PATCH 080/109] fix: the type of the vector cost function is kept
 when an Interpolator is written to and read from a file

---
 src/interpolator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7fcba0b..12a40d2 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -260,28 +260,28 @@ public:
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_distance(n, i, j);
       };
-      _funtype[0] = 1;
+      _funtype[1] = 1;
       break;
       case 2:
       debug_update("selecting 1-brille::utils::vector_product");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return 1-brille::utils::vector_product(n, i, j);
       };
-      _funtype[0] = 2;
+      _funtype[1] = 2;
       break;
       case 3:
       debug_update("selecting brille::utils::vector_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_angle(n, i, j);
       };
-      _funtype[0] = 3;
+      _funtype[1] = 3;
       break;
       case 4:
       debug_update("selecting brille::utils::hermitian_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
          return brille::utils::hermitian_angle(n,i,j);
       };
-      _funtype[0] = 4;
+      _funtype[1] = 4;
       break;
       default:
       debug_update("selecting sin**2(brille::utils::hermitian_angle)");
-- 
2.43.0


From 4f56b3587644b1c598613e8b5ee4dfe0f2c43a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 081/109] fix: locating a point in a Mesh uses the configured
 tolerance, and does not depend on the layer connections

---
 src/mesh.hpp                 | 10 +++++++---
 src/triangulation_layers.hpp | 35 +++++++++++++++++++----------------
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index a305adb..4f4c311 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -147,9 +147,11 @@ public:
     // Interpolator2::interpolate_at through the constructor:
     brille::Array2<DataValues> vals2(vals);
     brille::Array2<DataVectors> vecs2(vecs);
+    auto t = approx_.template reciprocal<double>();
+    auto n = approx_.digit();
     for (ind_t i=0; i<x.size(0); ++i){
       verbose_update("Locating ",x.to_string(i));
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->mesh.locate(x.view(i), t, n);
       if (verts_weights.size()<1){
         debug_update("Point ",x.to_string(i)," not found in tetrahedra!");
         throw std::runtime_error("Point not found in tetrahedral mesh");
@@ -178,10 +180,12 @@ public:
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
     ind_t unfound{0};
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:unfound) schedule(dynamic)
+    auto t = approx_.template reciprocal<double>();
+    auto n = approx_.digit();
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) firstprivate(t, n) reduction(+:unfound) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->mesh.locate(x.view(i), t, n);
       if (verts_weights.size()){
         data_.interpolate_at(verts_weights, vals2, vecs2, i);
       } else {
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 960e98e..bdaa40f 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -153,34 +153,34 @@ public:
   //   }
   //   return nTetrahedra;
   // }
-  ind_t locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("locate requires a single 3-element vector.");
-    return unsafe_locate(x, vw);
+    return unsafe_locate(x, vw, t, n);
   }
-  ind_t unsafe_locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t unsafe_locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     // no specified tetrahedra to check against, so check them all
     std::vector<ind_t> tosearch(nTetrahedra);
     std::iota(tosearch.begin(), tosearch.end(), 0u);
-    return unsafe_locate(tosearch, x, vw);
+    return unsafe_locate(tosearch, x, vw, t, n);
   }
-  ind_t locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("locate requires a single 3-element vector.");
     if (std::any_of(tosearch.begin(), tosearch.end(), [this](ind_t a){return a>=this->nTetrahedra;}))
       throw std::domain_error("Out-of-bounds tetrahedra index to search");
-    ind_t found = this->unsafe_locate(tosearch, x, vw);
+    ind_t found = this->unsafe_locate(tosearch, x, vw, t, n);
     if (found >= nTetrahedra)
       throw std::runtime_error("The point was not located!");
     return found;
   }
-  ind_t unsafe_locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t unsafe_locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     std::array<double,4> ws{};
     vw.clear();// make sure w is back to zero-elements
     for (ind_t idx: tosearch){
-      if (this->unsafe_might_contain(idx, x) && this->unsafe_contains(idx, x, ws)){
+      if (this->unsafe_might_contain(idx, x, t, n) && this->unsafe_contains(idx, x, ws, t, n)){
         // unsafe_contains sets the weights in ws
-        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0.))
+        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0., t, t, n))
           vw.emplace_back(vertices_per_tetrahedron.val(idx,i), ws[i]);
         return idx;
       }
@@ -251,16 +251,16 @@ public:
     return keys;
   }
 protected:
-  [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x) const {
-    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet]);
+  [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x, const double t=0., const int n=1) const {
+    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet], t, n);
   }
   [[nodiscard]] bool unsafe_contains(const ind_t tet, const bArray<double>& x) const {
     std::array<double,4> w{0.,0.,0.,0.};
     return this->unsafe_contains(tet,x,w);
   }
-  bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
+  bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w, const double t=0., const int n=1) const {
     this->weights(tet, x, w);
-    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0.||brille::approx_float::scalar(z,0.)); });
+    return std::all_of(w.begin(), w.end(), [t,n](double z){ return (z>0.||brille::approx_float::scalar(z,0.,t,t,n)); });
   }
   void weights(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     const ind_t* i = vertices_per_tetrahedron.ptr(tet);
@@ -399,7 +399,7 @@ public:
   //   return this->locate(x, v, w);
   // }
   [[nodiscard]] std::vector<std::pair<ind_t,double>>
-  locate(const bArray<double>& x) const {
+  locate(const bArray<double>& x, const double t=0., const int n=1) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("locate requires a single 3-element vector.");
     if (layers.size() < 1)
@@ -407,13 +407,16 @@ public:
     // setup temporary vertex(index) and weight vectors
     std::vector<std::pair<ind_t,double>> vw;
     // find the point within the highest-layer tetrahedra:
-    ind_t idx = layers[0].unsafe_locate(x,vw);
+    ind_t idx = layers[0].unsafe_locate(x, vw, t, n);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
       if (idx >= layers[i-1].number_of_tetrahedra()) break; // not located
       const TetSet& tosearch = connections[i-1][idx];
-      idx = layers[i].unsafe_locate(tosearch, x, vw);
+      idx = layers[i].unsafe_locate(tosearch, x, vw, t, n);
     }
+    // a point on the surface of a higher-layer tetrahedron can be in a lower
+    // layer tetrahedron which it is not connected to
+    if (vw.empty() && layers.size() > 1) layers.back().unsafe_locate(x, vw, t, n);
     return vw;
   }
   // return the neighbouring vertices to a provided mesh-vertex in the lowest layer.
-- 
2.43.0


From 9b2e54bbc965decb9bafbb8a18b6c666cc198fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:10 +0000
Subject: [PATCH 082/109] fix: an intersection of degenerate tetrahedra which
 can not be found does not end the program

---
 src/triangulation_layers.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index bdaa40f..77b87c8 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -486,7 +486,17 @@ private:
         // can overlap -- and checking for this overlap is complicated.
         // make the Polyhedron class do the heavy lifting.
         // if (add || tethi.intersects(ll.get_tetrahedron(j))) map[i].push_back(j);
-        if (add || layers[low].get_tetrahedron(j).intersects(tethi)) map[i].push_back(j);
+        if (!add) {
+          try {
+            add = layers[low].get_tetrahedron(j).intersects(tethi);
+          } catch (const std::runtime_error &) {
+            // The intersection of (nearly) degenerate tetrahedra can not always
+            // be found. An extra connection is harmless, and an exception must
+            // not leave the parallel region.
+            add = true;
+          }
+        }
+        if (add) map[i].push_back(j);
       }
     }
     if (brille::printer.datetime()) stopwatch.toc();
-- 
2.43.0


From aab02edaddaf570718acc4d84e11913dd92af098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:15 +0000
Subject: [PATCH 083/109] fix: interpolating outside of the bounds of a
 PolyhedronTrellis is an error

---
 src/trellis_poly.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 74a2dc6..efa9807 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -382,8 +382,14 @@ public:
   [[nodiscard]] std::array<ind_t,3> node_subscript(const vert_t& p) const {
     std::array<ind_t,3> sub{{0,0,0}};
     auto pos = get_xyz(p.view(0)).to_std(); // the knots are in the absolute xyz frame
-    for (ind_t dim=0; dim<3u; ++dim)
-      sub[dim] = static_cast<ind_t>(find_bin(knots_[dim], pos[dim]));
+    for (ind_t dim=0; dim<3u; ++dim) {
+      const auto & k{knots_[dim]};
+      // a point can be beyond the first or last knot due to rounding, but not further
+      auto rounding = (k.back() - k.front()) * std::sqrt(std::numeric_limits<double>::epsilon());
+      if (!(pos[dim] >= k.front() - rounding && pos[dim] <= k.back() + rounding))
+        throw std::out_of_range("The point " + p.to_string(0u) + " is outside of the PolyhedronTrellis");
+      sub[dim] = static_cast<ind_t>(find_bin(k, pos[dim]));
+    }
     // it's possible that a subscript could go beyond the last bin in any direction!
     bool bad = !subscript_ok_and_not_null(sub);
     if (bad){
@@ -424,6 +430,8 @@ public:
       }
       if (!bad) sub = newsub;
       else {
+        if (!subscript_ok(sub))
+          throw std::out_of_range("The point " + p.to_string(0u) + " is outside of the PolyhedronTrellis");
         auto node_type = nodes_.node_type_string(sub2idx(sub));
         info_update("The node subscript ", sub, " for the point\n\t(hkl) ",
                     p.to_string(0u), "\n\t(xyz) [[", pos, "]]\n",
-- 
2.43.0


From de4c1680049cb875ba7d947efb72bdcea8c2a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 084/109] fix: resizing a PermutationTable does not remove the
 identity permutation

---
 src/permutation_table.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permutation_table.hpp b/src/permutation_table.hpp
index f933c83..c02be2e 100644
--- a/src/permutation_table.hpp
+++ b/src/permutation_table.hpp
@@ -117,6 +117,7 @@ public:
 		if (ni != this->IndexSize){
 			info_update("Resizing the PermutationTable is probably not what you wanted");
 			this->ijmap.clear();
+			this->ijmap[0u] = offset; // the identity is always present
 			this->IndexSize = ni;
 			invalidated = true;
 		}
-- 
2.43.0


From fd086a14271d056cc612983bf55f62fd56861e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 085/109] fix: setting a permutation which is still needed
 stores it

---
 src/permutation_table.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/permutation_table.hpp b/src/permutation_table.hpp
index c02be2e..0f6053f 100644
--- a/src/permutation_table.hpp
+++ b/src/permutation_table.hpp
@@ -158,14 +158,14 @@ public:
 		size_t idx{0};
 		size_t key = this->ij2key(i,j);
 		auto itr = ijmap.find(key);
-		// if the key is already present, emplace will not overwrite it anyway
-		if (itr != ijmap.end()) return itr->second;
-		// the ijmap does not contain key (i,j), so check for permutation duplication
+		// if the key is already present and has a valid value it is not overwritten
+		if (itr != ijmap.end() && itr->second >= offset) return itr->second - offset;
+		// the ijmap does not contain a value for key (i,j), so check for permutation duplication
 		std::tie(contains, idx) = this->find_permutation(v);
 		// add this permutation if it's not present
 		if (!contains) permutations.push_back(v);
 		// and store the mapping
-		ijmap.emplace(key, idx+offset); // +offset for -offset in get
+		ijmap[key] = idx+offset; // +offset for -offset in get
 		return idx;
 	}
 	//! Replace an existing mapping in the double-index map
-- 
2.43.0


From 368b965b70299dfabcbf5bd90e4c297e10e1be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 086/109] fix: the stand-in for data which has not been
 provided has defined values

---
 src/interpolator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 12a40d2..17cc638 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -211,7 +211,7 @@ public:
         fake dataset for the second Interpolator.
   */
   void setup_fake(const ind_t sz, const ind_t br){
-    data_ = bArray<T>(sz, br);
+    data_ = bArray<T>(sz, br, T(0));
     shape_ = {sz, br};
     _elements = {1u,0u,0u};
   }
-- 
2.43.0


From 5aa23b37fb0a223a0107412fe7644f849a7148b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 087/109] fix: an Interpolator can not be made with incomplete
 vectors or matrices

---
 src/interpolator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 17cc638..81a3aaa 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -546,6 +546,10 @@ public:
 private:
   void check_elements(void){
     // check the input for correctness
+    if (_elements[1] % 3u)
+      throw std::logic_error("Vectors must have 3N elements per branch");
+    if (_elements[2] % 9u)
+      throw std::logic_error("Matrices must have 9N elements per branch");
     ind_t x = this->branch_span(_elements);
     switch (shape_.size()) {
       case 0u:
-- 
2.43.0


From ce9f3f1ad583dd0e0e763989e28a8078707216b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 088/109] fix: two-dimensional data without elements is not
 accepted

---
 src/interpolator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 81a3aaa..a0ce17f 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -560,7 +560,7 @@ private:
         break;
       case 2u: // (P, B*Y)
         if (0u == x) x = _elements[0] = shape_[1]; // one branch with y scalars per point
-        if (shape_[1] % x)
+        if (0u == x || shape_[1] % x)
           throw std::runtime_error("2-D data requires an integer number of branches!");
         break;
       case 3u: // (P, B, Y)
-- 
2.43.0


From 73b4ef9a1182f0cf6a99fa71bcb9d2e87a9ee470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 089/109] fix: the modes of a constant Interpolator can be
 compared

---
 src/interpolator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index a0ce17f..6915a2d 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -586,7 +586,7 @@ private:
         throw std::runtime_error("Interpolator data is expected to be 1- to 5-D");
     }
   }
-  bool any_equal_modes_(const ind_t idx, const ind_t b_, const ind_t s_) {
+  bool any_equal_modes_(const ind_t idx, const ind_t b_, const ind_t s_) const {
     // since we're probably only using this when the data is provided and
     // most eigenproblem solvers sort their output by eigenvalue magnitude it is
     // most-likely for mode i and mode i+1 to be equal.
-- 
2.43.0


From 3a8fe6ab3fa6ece6ec40044cbb4958dbaa880f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:51 +0000
Subject: [PATCH 090/109] fix: a lattice read from a file keeps its atom basis
 as it was written

The constructor used for reading snapped the basis to the symmetry operations again, which changed
atom positions or threw for a lattice made without snapping.
---
 src/lattice_dual.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index a83c181..6ef688f 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -729,7 +729,7 @@ public:
     auto spg = Symmetry::from_hdf(group, "spacegroup_symmetry");
     auto ptg = PointSymmetry::from_hdf(group, "pointgroup_symmetry");
     auto bas = Basis::from_hdf(group, "basis");
-    return {real, reciprocal, real_metric, reciprocal_metric, L, spg, ptg, bas};
+    return {real, reciprocal, real_metric, reciprocal_metric, L, spg, ptg, bas, false};
   }
 
   Impl<T> primitive() const {
-- 
2.43.0


From 6581ab4f998fd9c09859ceb5670cee6d9fb74f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:51 +0000
Subject: [PATCH 091/109] fix: point operations are read from a file in the
 order they were written

Sorting them again by their order is not stable, so the indices of the operations changed.
---
 src/pointsymmetry.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pointsymmetry.hpp b/src/pointsymmetry.hpp
index 58383bf..a837751 100644
--- a/src/pointsymmetry.hpp
+++ b/src/pointsymmetry.hpp
@@ -107,9 +107,9 @@ public:
     from_hdf(HF& obj, const std::string& entry){
         std::vector<HF_Matrix<int>> hfm;
         obj.getDataSet(entry).read(hfm);
-        Matrices<int> m;
-        for (const auto& x: hfm) m.push_back(x.array());
-        return PointSymmetry(m);
+        PointSymmetry ps;
+        for (const auto& x: hfm) ps.R.push_back(x.array());
+        return ps;
     }
 
 };
-- 
2.43.0


From 24c323fd9b5c7064e2ec7e03b27dfe52b7e8a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:45 +0000
Subject: [PATCH 092/109] fix: the primitive lattice keeps the atom basis of a
 lattice made without snapping

It was snapped to the symmetry operations, throwing if that was not possible.
---
 src/lattice_dual.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 6ef688f..4d87589 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -765,7 +765,7 @@ public:
       // strictly we should change the spacegroup and pointgroup symmetry
       // representations, plus the atom basis representation... but that seems
       // overkill for now. FIXME think about this more.
-      return {pv, pr, pvm, prm, Bravais::P, _space, _point, _basis};
+      return {pv, pr, pvm, prm, Bravais::P, _space, _point, _basis, false};
     }
     return *this;
   }
-- 
2.43.0


From 826de1e565cbcb460c09d0433b5730a745e34917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:12 +0000
Subject: [PATCH 093/109] fix: sorting the modes of a grid without data is not
 a division by zero

---
 src/interpolatordual.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index f92c717..e0cd5e9 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -421,6 +421,7 @@ DualInterpolator<T,R>::sort(){
   std::vector<std::array<ind_t,2>> tri_ij;
   tri_ij.reserve(keys.size()/2);
   ind_t no = this->size();
+  if (no < 1) return; // there is nothing to sort before data has been provided
   for (const auto & key: keys){
     auto i = static_cast<ind_t>(key/no);
     if (static_cast<size_t>(i)*static_cast<size_t>(no+1) < key)
-- 
2.43.0


From 49455752205029a9bdf29be34e7566326f3829a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 094/109] fix: an exception raised while a trellis node is cut
 or triangulated reaches the caller

---
 src/trellis_poly_parallel.tpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index 1dbec3f..573d915 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -220,7 +220,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
     // stash our thread number to access this thread's pair
     int thread = omp_get_thread_num();
 #pragma omp for
-    for (long long s_i = 0; s_i < s_count; ++s_i) {
+    for (long long s_i = 0; s_i < s_count; ++s_i) thread_ex.run([&]{ // an exception must not leave the parallel region
       auto i = cube_indexes[utils::s2u<ind_t>(s_i)];
       auto this_node_faces = trellis_node_faces(i);
       // this limits all_points to have the knots *first*
@@ -240,7 +240,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
       } else {
         if (intersection.face_count() < 4 || intersection.volume() <= 0.) {
           node_type[i] = NodeType::found_null;
-          continue; // we don't want to re-wrap the following code block
+          return; // we don't want to re-wrap the following code block
         }
         // find which of the vertices of the intersection are knots as well.
         const auto &iv{intersection.vertices()};
@@ -282,7 +282,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
       stash_mutex.lock();
       poly_stash.emplace(i, intersection);
       stash_mutex.unlock();
-    } // end parallel for-loop
+    }); // end parallel for-loop
   } // end parallel region -- back to single-thread execution
   thread_ex.rethrow(); //Now handle any encountered errors if they exist
 
@@ -369,8 +369,9 @@ PolyTrellis<T,R,S,A>::part_two(
   // Handle all polyhedron nodes (this almost certainly needs to be parallel)
   ind_t fatal_tri{0}, fatal_miss{0}, fatal_match{0}, hiccups{0};
   auto p_count = utils::u2s<long long>(poly_indexes.size());
-#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
-  for (long long s_i=0; s_i<p_count; ++s_i) {
+  ThreadException thread_ex; // an exception must not leave the parallel region
+#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol, thread_ex) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
+  for (long long s_i=0; s_i<p_count; ++s_i) thread_ex.run([&]{
     auto i = poly_indexes[utils::s2u<ind_t>(s_i)];
     //
     auto Gamma = 0 * vertices_.view(0);
@@ -451,7 +452,8 @@ PolyTrellis<T,R,S,A>::part_two(
       throw std::runtime_error("Triangulated node is actually Null!");
     }
     nodes_.set(i, PolyNode(idx_per_tet, cci_per_tet, vol_per_tet));
-  }
+  });
+  thread_ex.rethrow();
 
   profile_update("Poly node vertexes stored");
 
-- 
2.43.0


From 390b54cc366aa14768ee3a353a69f95d8363cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:53 +0000
Subject: [PATCH 095/109] fix: tetgen must not merge the nearly coplanar facets
 of a slightly rotated zone

---
 src/triangulation_layers.hpp | 1 +
 src/triangulation_poly.hpp   | 1 +
 src/triangulation_simple.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 77b87c8..78506d7 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -564,6 +564,7 @@ triangulate_one_layer(const bArray<T>& verts,
   verbose_update("Creating `tetgenbehavior` object");
   tetgenbehavior tgb;
   tgb.plc = 1; // we will always tetrahedralize a piecewise linear complex
+  tgb.epsilon = 1e-14; // facets which are nearly, but not exactly, coplanar must not be merged: their edges may not match
   tgb.smooth_maxiter = 0; // smoothing moves Gamma, and makes tetrahedra larger than the maximum volume
   tgb.quality = 1; // we will (almost) always improve the tetrahedral mesh
   tgb.neighout = 1; // we *need* the neighbour information to be stored into tgo.
diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 8b76118..2c76f5e 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -35,6 +35,7 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   debug_update("Creating `tetgenbehavior` object with options/switches for tetrahedralize");
   tetgenbehavior tgb;
   tgb.plc = 1; // we will always tetrahedralize a piecewise linear complex
+  tgb.epsilon = 1e-14; // facets which are nearly, but not exactly, coplanar must not be merged: their edges may not match
   tgb.smooth_maxiter = 0; // smoothing moves Gamma, and makes tetrahedra larger than the maximum volume
   if (max_volume > 0){
     tgb.quality = 1; // we will (almost) always improve the tetrahedral mesh
diff --git a/src/triangulation_simple.hpp b/src/triangulation_simple.hpp
index 3f06013..47a638f 100644
--- a/src/triangulation_simple.hpp
+++ b/src/triangulation_simple.hpp
@@ -63,6 +63,7 @@ public:
     debug_update("Creating `tetgenbehavior` object");
     tetgenbehavior tgb;
     tgb.plc = 1; // we will always tetrahedralize a piecewise linear complex
+    tgb.epsilon = 1e-14; // facets which are nearly, but not exactly, coplanar must not be merged: their edges may not match
     tgb.smooth_maxiter = 0; // smoothing moves Gamma, and makes tetrahedra larger than the maximum volume
     if (max_volume > 0){
       tgb.quality = 1; // we will (almost) always improve the tetrahedral mesh
-- 
2.43.0


From 0f76c9a995dee5f905c1e55175d20acc5b894d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:43 +0000
Subject: [PATCH 096/109] fix: set_flags_weights sets how the data transforms
 and its units

set_flags_weights is documented to set the RotatesLike and LengthUnit of the
values and vectors but it checked the provided integers and dropped them.
---
 src/interpolator.hpp     |  7 +++++++
 src/interpolatordual.hpp | 12 ++++++++++++
 wrap/_common_grid.hpp    |  4 ++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 6915a2d..7963632 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -433,6 +433,13 @@ public:
     rotlike_ = a;
     return rotlike_;
   }
+  //! Return the units of the stored data
+  LengthUnit lengthunit() const { return lenunit_; }
+  //! Set the units of the stored data
+  LengthUnit lengthunit(const LengthUnit a) {
+    lenunit_ = a;
+    return lenunit_;
+  }
   /*! \brief Replace the data within this object.
 
   \param nd The new data to be interpolated
diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index e0cd5e9..ff975f5 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -246,6 +246,12 @@ public:
   void set_value_cost_info(const int csf, const int cvf, const element_t<double>& elcost){
     values_.set_cost_info(csf, cvf, elcost);
   }
+  //! Set the cost information for the eigenvalues along with how they transform and their units
+  void set_value_cost_info(const int csf, const int cvf, const element_t<double>& elcost, const RotatesLike rl, const LengthUnit lu){
+    values_.set_cost_info(csf, cvf, elcost);
+    values_.rotateslike(rl);
+    values_.lengthunit(lu);
+  }
   /*! Set the cost information for the eigenvectors
 
   \param csf The scalar cost function index
@@ -256,6 +262,12 @@ public:
   void set_vector_cost_info(const int csf, const int cvf, const element_t<double>& elcost){
     vectors_.set_cost_info(csf, cvf, elcost);
   }
+  //! Set the cost information for the eigenvectors along with how they transform and their units
+  void set_vector_cost_info(const int csf, const int cvf, const element_t<double>& elcost, const RotatesLike rl, const LengthUnit lu){
+    vectors_.set_cost_info(csf, cvf, elcost);
+    vectors_.rotateslike(rl);
+    vectors_.lengthunit(lu);
+  }
   //! Create a string representation of the values and vectors
   [[nodiscard]] std::string to_string() const {
     std::string str = "value " + values_.to_string() + " vector " + vectors_.to_string();
diff --git a/wrap/_common_grid.hpp b/wrap/_common_grid.hpp
index 8d31d35..39f69a4 100644
--- a/wrap/_common_grid.hpp
+++ b/wrap/_common_grid.hpp
@@ -495,8 +495,8 @@ void def_grid_sort(py::class_<Grid<T,R,S>>& cls){
     int val_sf{0}, val_vf{0}, vec_sf{0}, vec_vf{0};
     std::tie(val_rl,val_lu,val_sf,val_vf,val_wght)=set_check(pyvalfnc,pyvalwght);
     std::tie(vec_rl,vec_lu,vec_sf,vec_vf,vec_wght)=set_check(pyvecfnc,pyvecwght);
-    cobj.set_value_cost_info(val_sf, val_vf, val_wght);
-    cobj.set_vector_cost_info(vec_sf, vec_vf, vec_wght);
+    cobj.set_value_cost_info(val_sf, val_vf, val_wght, val_rl, val_lu);
+    cobj.set_vector_cost_info(vec_sf, vec_vf, vec_wght, vec_rl, vec_lu);
     if (sort) cobj.sort();
   },
   "values_flags"_a, "values_weights"_a, "vectors_flags"_a, "vectors_weights"_a,
-- 
2.43.0


From b049eeb31701470e275c7a1e6a0666ceb1d68b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 097/109] fix: arrays from Python can have any strides

Reversed views have negative strides, fields of structured arrays have strides
which are not multiples of the element size and broadcast arrays have zero
strides. Such arrays were read at the wrong positions, or out of bounds.
---
 wrap/_array.hpp       | 66 +++++++++++++++++++++----------
 wrap/_c_to_python.hpp | 92 +++++++++----------------------------------
 2 files changed, 64 insertions(+), 94 deletions(-)

diff --git a/wrap/_array.hpp b/wrap/_array.hpp
index e20b8c0..a2e739b 100644
--- a/wrap/_array.hpp
+++ b/wrap/_array.hpp
@@ -87,20 +87,48 @@ namespace brille {
     return pybind11::array_t<T>(shape, cstride, aptr->data(), capsule);
   }
 
+  /*! \brief Ensure that an array from Python can be indexed by a brille array
+
+  A brille array describes its memory by a pointer to the first element plus
+  unsigned strides which are counted in elements and which are ordered such that
+  the memory is filled. NumPy views can be anything else as well: fields of
+  structured arrays have strides which are not multiples of the element size,
+  reversed arrays have negative strides, broadcast arrays have zero strides and
+  the buffer of a view can be unaligned. Such inputs are replaced by a copy.
+
+  \returns a row- or column-ordered, contiguous and aligned array
+  */
+  template<class T>
+  pybind11::array_t<T> contiguous_py(pybind11::array_t<T> pya){
+    const auto flags = pya.flags();
+    const auto address = reinterpret_cast<std::uintptr_t>(pya.data());
+    const bool row = flags & pybind11::array::c_style;
+    const bool col = flags & pybind11::array::f_style;
+    if ((row || col) && address % alignof(T) == 0) return pya;
+    return pybind11::array_t<T>(pya.attr("copy")()); // always row-ordered
+  }
+  //! The strides, in elements, of an array returned by contiguous_py
+  template<class T>
+  std::vector<ind_t> contiguous_stride(const pybind11::array_t<T>& pya){
+    // The strides held by NumPy are not used since they can be anything for
+    // dimensions with a single element
+    const auto ndim = static_cast<size_t>(pya.ndim());
+    std::vector<ind_t> stride(ndim, 1u);
+    if (pya.flags() & pybind11::array::c_style){
+      for (size_t i=ndim; i-->1; ) stride[i-1] = stride[i] * static_cast<ind_t>(pya.shape(i));
+    } else {
+      for (size_t i=1; i<ndim; ++i) stride[i] = stride[i-1] * static_cast<ind_t>(pya.shape(i-1));
+    }
+    return stride;
+  }
+
   template<class T>
-  brille::Array<T> py2a(pybind11::array_t<T> pya){
+  brille::Array<T> py2a(pybind11::array_t<T> input){
+    pybind11::array_t<T> pya = contiguous_py(input);
     pybind11::buffer_info info = pya.request();
-    std::vector<ind_t> shape, stride;
-    // the py::buffer_info contains a size which counts the indexable number
-    // of elements. This IS NOT the allocated size of the array unless it is
-    // contiguous. For non-contiguous arrays the allocated memory will fill
-    // max(shape[i]*stride[i])
+    std::vector<ind_t> shape, stride{contiguous_stride(pya)};
     auto num = brille::utils::s2u<ind_t,pybind11::ssize_t>(info.size);
-    for (pybind11::ssize_t i=0; i<info.ndim; ++i){
-      shape.push_back(static_cast<ind_t>(info.shape[i]));
-      stride.push_back(static_cast<ind_t>(info.strides[i]/sizeof(T)));
-      if (shape[i]*stride[i] > num) num = shape[i]*stride[i];
-    }
+    for (const auto & s: info.shape) shape.push_back(static_cast<ind_t>(s));
     T* ptr = (T*) info.ptr;
     bool own_memory{false}; // we NEVER own the memory coming from Python
     bool py_mutable{!info.readonly};
@@ -135,17 +163,15 @@ namespace brille {
     return Array<T>(ptr, num, own_memory, ref, shape, stride, py_mutable);
   }
   template<class T>
-  brille::Array2<T> py2a2(pybind11::array_t<T> pya){
-    pybind11::buffer_info info = pya.request();
-    if (info.ndim != 2)
+  brille::Array2<T> py2a2(pybind11::array_t<T> input){
+    if (input.ndim() != 2)
       throw std::runtime_error("brille::Array2 objects require 2D input!");
-    std::array<ind_t,2> shape{{0,0}}, stride{{0,0}};
+    pybind11::array_t<T> pya = contiguous_py(input);
+    pybind11::buffer_info info = pya.request();
+    const auto strides = contiguous_stride(pya);
+    std::array<ind_t,2> shape{{0,0}}, stride{{strides[0], strides[1]}};
     auto num = brille::utils::s2u<ind_t,pybind11::ssize_t>(info.size);
-    for (pybind11::ssize_t i=0; i<info.ndim; ++i){
-      shape[i] = static_cast<ind_t>(info.shape[i]);
-      stride[i] = static_cast<ind_t>(info.strides[i]/sizeof(T));
-      if (shape[i]*stride[i] > num) num = shape[i]*stride[i];
-    }
+    for (size_t i=0; i<2u; ++i) shape[i] = static_cast<ind_t>(info.shape[i]);
     T* ptr = (T*) info.ptr;
     bool own_memory{false}; // we NEVER own the memory coming from Python
     bool py_mutable{!info.readonly};
diff --git a/wrap/_c_to_python.hpp b/wrap/_c_to_python.hpp
index 5cab2e8..482316c 100644
--- a/wrap/_c_to_python.hpp
+++ b/wrap/_c_to_python.hpp
@@ -48,39 +48,25 @@ template<typename I, typename T, size_t N> py::array_t<T> sa2np(const std::vecto
   for (size_t i=0; i<numel; ++i) ptr[i] = sv[i];
   return np;
 }
+//! The elements of any array, in row order, which are copied first unless they are already contiguous and aligned
+template<typename T>
+std::vector<T> np_elements(const py::array_t<T>& np){
+  const bool aligned = reinterpret_cast<std::uintptr_t>(np.data()) % alignof(T) == 0;
+  const bool use = aligned && (np.flags() & py::array::c_style);
+  py::array_t<T> row = use ? np : py::array_t<T>(np.attr("copy")());
+  const T * ptr = row.data();
+  return std::vector<T>(ptr, ptr + row.size());
+}
 template<typename T, size_t N>
 std::array<T,N> np2sa(const py::array_t<T>& pya){
-  py::buffer_info info = pya.request();
-  size_t array_size{1u};
-  for (pybind11::ssize_t i=0; i < info.ndim; ++i) array_size *= info.shape[i];
-  if (N != array_size){
+  const auto elements = np_elements(pya);
+  if (N != elements.size()){
     std::string msg = "wrong number of elements for array of ";
     msg += std::to_string(N) + " elements";
     throw std::runtime_error(msg);
   }
-  std::array<T,N> sa; sa.fill(T(0));
-  T * ptr = (T*) info.ptr;
-
-  // find the row-ordered spans
-  std::vector<size_t> spans(info.ndim, 1u);
-  for (pybind11::ssize_t i=info.ndim-1u; i-->0; ) // first i in loop is ndim-2
-    spans[i] = spans[i+1]*info.shape[i+1];
-  // check if input np *is* row ordered
-  bool row_ord{true};
-  for (pybind11::ssize_t i=0; i<info.ndim; ++i) row_ord &= info.strides[i]/sizeof(T) == spans[i];
-
-  auto l2s2l = [spans,row_ord,s=info.strides,n=info.ndim](const auto & l){
-    if (row_ord) return l;
-    size_t lin{0};
-    size_t tmp{l};
-    for (pybind11::ssize_t i=0; i < n; ++i){
-      size_t idx{tmp / spans[i]};
-      tmp -= idx * spans[i];
-      lin += idx * s[i]/sizeof(T);
-    }
-    return lin;
-  };
-  for (size_t i=0; i<N; ++i) sa[i] = ptr[l2s2l(i)];
+  std::array<T,N> sa;
+  for (size_t i=0; i<N; ++i) sa[i] = elements[i];
   return sa;
 }
 
@@ -129,46 +115,10 @@ np2sva(py::array_t<T> np){
     msg += std::to_string(N) + " arrays";
     throw std::runtime_error(msg);
   }
-  std::vector<std::array<T,N>> v;
-  auto vlen = static_cast<size_t>(info.shape[0]);
-  v.reserve(vlen);
-  T * ptr = (T*) info.ptr;
-
-  // find the row-ordered spans
-  std::vector<size_t> spans(info.ndim, 1u);
-  for (pybind11::ssize_t i=info.ndim-1u; i-->0; ) // first i in loop is ndim-2
-    spans[i] = spans[i+1]*info.shape[i+1];
-  // check if input np *is* row ordered
-  bool roword{true};
-  for (pybind11::ssize_t i=0; i<info.ndim; ++i) roword &= info.strides[i]/sizeof(T) == spans[i];
-  if (roword){
-    // if it is the copying is straightforward
-    for (size_t i=0; i<vlen; ++i){
-      std::array<T,N> a;
-      for (size_t j=0; j<N; ++j) a[j] = ptr[i*spans[0]+j];
-      v.push_back(a);
-    }
-  } else {
-    // we need to worry about subscripted indexing
-    for (size_t i=0; i<vlen; ++i){
-      std::array<T,N> a;
-      // loop over the linear indices within this array (2nd+ dimension[s])
-      for (size_t j=0; j<N; ++j){
-        // calculate the subscripted indices using the new row-ordered span
-        // and the linear index into ptr using the provided strides
-        size_t tmp = j; // linear index jᵗʰ array entry
-        size_t lin=0; // will be linear index to entry [i,j] of numpy array
-        for (pybind11::ssize_t k=1; k<info.ndim; ++k){
-          size_t idx = tmp/spans[k]; // the subscripted index along dimension k
-          tmp -= idx*spans[k]; // adjust the linear index
-          lin += idx*info.strides[k]/sizeof(T);
-        }
-        // we skipped the first dimension in the calculation of lin:
-        a[j] = ptr[i*info.strides[0]/sizeof(T) + lin];
-      }
-      v.push_back(a);
-    }
-  }
+  const auto elements = np_elements(np);
+  std::vector<std::array<T,N>> v(static_cast<size_t>(info.shape[0]));
+  for (size_t i=0; i<v.size(); ++i)
+    for (size_t j=0; j<N; ++j) v[i][j] = elements[i*N + j];
   return v;
 }
 
@@ -177,13 +127,7 @@ std::vector<T> np2vec(py::array_t<T> pyV){
   py::buffer_info vinfo = pyV.request();
   if (vinfo.ndim != 1u)
     throw std::runtime_error("np2vec expects a 1-D input buffer object");
-  size_t span = static_cast<size_t>(vinfo.strides[0])/sizeof(T);
-  std::vector<T> v;
-  auto vlen = static_cast<size_t>(vinfo.shape[0]);
-  v.reserve(vlen);
-  T * vptr = (T*) vinfo.ptr;
-  for (size_t i=0; i<vlen; ++i) v.push_back(vptr[i*span]);
-  return v;
+  return np_elements(pyV);
 }
 
 #endif
-- 
2.43.0


From 0778d88c774597744c90f00d23b3054d02b214c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 098/109] fix: elements, flags and weights can be strided and
 must not be negative

The integers and weights given to fill and set_flags_weights were read as if
they were contiguous, and a negative number of elements was converted to a
huge unsigned one.
---
 wrap/_interpolator.cpp | 21 +++++++++------------
 wrap/_interpolator.hpp | 40 ++++++++++++++++++++++------------------
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/wrap/_interpolator.cpp b/wrap/_interpolator.cpp
index 6b3428d..4645efb 100644
--- a/wrap/_interpolator.cpp
+++ b/wrap/_interpolator.cpp
@@ -44,13 +44,11 @@ set_check(
   py::array_t<int> pyflg, py::array_t<double> pywght
 ){
   using namespace brille;
-  py::buffer_info bi;
-  bi = pyflg.request();
-  if (bi.ndim != 1) throw std::runtime_error("flags must be a 1-D array");
-  int *intel = (int*) bi.ptr;
+  if (pyflg.ndim() != 1) throw std::runtime_error("flags must be a 1-D array");
+  const auto intel = np_elements(pyflg);
   // convert the input integer to a RotatesLike
   RotatesLike rl{RotatesLike::vector};
-  if (bi.shape[0] > 0) switch(intel[0]){
+  if (intel.size() > 0) switch(intel[0]){
     case 2: rl = RotatesLike::Gamma; break;
     case 1: rl = RotatesLike::pseudovector; break;
     case 0: rl = RotatesLike::vector; break;
@@ -58,7 +56,7 @@ set_check(
   }
   // convert input integer to LengthUnit
   LengthUnit lu{LengthUnit::real_lattice};
-  if (bi.shape[0] > 1) switch(intel[1]){
+  if (intel.size() > 1) switch(intel[1]){
     case 4: lu = LengthUnit::reciprocal_lattice; break;
     case 3: lu = LengthUnit::real_lattice; break;
     case 2: lu = LengthUnit::inverse_angstrom; break;
@@ -68,14 +66,13 @@ set_check(
   }
   // get the cost-function type(s)
   int csf{0}, cvf{0};
-  if (bi.shape[0] > 2) csf = intel[2];
-  if (bi.shape[0] > 3) cvf = intel[3];
+  if (intel.size() > 2) csf = intel[2];
+  if (intel.size() > 3) cvf = intel[3];
   // copy-over the weight specification
   std::array<double,3> wght{{1,1,1}};
-  bi = pywght.request();
-  if (bi.ndim != 1) throw std::runtime_error("weights must be a 1-D array");
-  auto *dblwght = (double*) bi.ptr;
-  for (pybind11::ssize_t i=0; i<bi.shape[0] && i<3; ++i) wght[i] = dblwght[i];
+  if (pywght.ndim() != 1) throw std::runtime_error("weights must be a 1-D array");
+  const auto dblwght = np_elements(pywght);
+  for (size_t i=0; i<dblwght.size() && i<3; ++i) wght[i] = dblwght[i];
   // tie everything up
   return std::make_tuple(rl, lu, csf, cvf, wght);
 }
diff --git a/wrap/_interpolator.hpp b/wrap/_interpolator.hpp
index 5324c0e..954cacc 100644
--- a/wrap/_interpolator.hpp
+++ b/wrap/_interpolator.hpp
@@ -4,6 +4,7 @@
 #include "phonon.hpp"
 #include "utilities.hpp"
 #include "_array.hpp"
+#include "_c_to_python.hpp"
 
 #ifndef WRAP_BRILLE_INTERPOLATOR_HPP_
 #define WRAP_BRILLE_INTERPOLATOR_HPP_
@@ -14,6 +15,7 @@ template<class T>
 br::Interpolator<T>
 fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, const size_t count){
   using namespace brille;
+  if (pyarray.ndim() < 1) throw std::runtime_error("data must be at least 1-D");
   br::Array<T> data = br::py2a(pyarray);
   if (count != data.size(0)){
     std::string msg;
@@ -23,14 +25,15 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, const size_t count){
   }
   // copy-over the element specification
   std::array<br::ind_t,3> el{{0,0,0}};
-  py::buffer_info bi = pyel.request();
-  if (bi.ndim != 1) throw std::runtime_error("elements must be a 1-D array");
-  int *intel = (int*) bi.ptr;
-  for (pybind11::ssize_t i=0; i<bi.shape[0] && i<3; ++i)
+  if (pyel.ndim() != 1) throw std::runtime_error("elements must be a 1-D array");
+  const auto intel = np_elements(pyel);
+  for (size_t i=0; i<intel.size() && i<3; ++i) {
+    if (intel[i] < 0) throw std::runtime_error("the number of elements must not be negative");
     el[i] = static_cast<br::ind_t>(intel[i]);
+  }
   // convert the input integer to a RotatesLike
   RotatesLike rl{RotatesLike::vector};
-  if (bi.shape[0] > 3) switch(intel[3]){
+  if (intel.size() > 3) switch(intel[3]){
     case 2: rl = RotatesLike::Gamma; break;
     case 1: rl = RotatesLike::pseudovector; break;
     case 0: rl = RotatesLike::vector; break;
@@ -38,7 +41,7 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, const size_t count){
   }
   // convert input integer to LengthUnit
   LengthUnit lu{LengthUnit::real_lattice};
-  if (bi.shape[0] > 4) switch(intel[4]){
+  if (intel.size() > 4) switch(intel[4]){
     case 4: lu = LengthUnit::reciprocal_lattice; break;
     case 3: lu = LengthUnit::real_lattice; break;
     case 2: lu = LengthUnit::inverse_angstrom; break;
@@ -58,6 +61,7 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, py::array_t<double> py
   using namespace brille;
   // copy-over the N-D array information
   // this will probably be a problem if I don't figure out a way to add to the python reference count
+  if (pyarray.ndim() < 1) throw std::runtime_error("data must be at least 1-D");
   br::Array<T> data = br::py2a(pyarray);
   if (count != data.size(0)){
     std::string msg;
@@ -72,14 +76,15 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, py::array_t<double> py
   }
   // copy-over the element specification
   std::array<br::ind_t,3> el{{0,0,0}};
-  py::buffer_info bi = pyel.request();
-  if (bi.ndim != 1) throw std::runtime_error("elements must be a 1-D array");
-  int *intel = (int*) bi.ptr;
-  for (pybind11::ssize_t i=0; i<bi.shape[0] && i<3; ++i)
+  if (pyel.ndim() != 1) throw std::runtime_error("elements must be a 1-D array");
+  const auto intel = np_elements(pyel);
+  for (size_t i=0; i<intel.size() && i<3; ++i) {
+    if (intel[i] < 0) throw std::runtime_error("the number of elements must not be negative");
     el[i] = static_cast<br::ind_t>(intel[i]);
+  }
   // convert the input integer to a RotatesLike
   RotatesLike rl{RotatesLike::vector};
-  if (bi.shape[0] > 3) switch(intel[3]){
+  if (intel.size() > 3) switch(intel[3]){
     case 2: rl = RotatesLike::Gamma; break;
     case 1: rl = RotatesLike::pseudovector; break;
     case 0: rl = RotatesLike::vector; break;
@@ -87,7 +92,7 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, py::array_t<double> py
   }
   // convert input integer to LengthUnit
   LengthUnit lu{LengthUnit::real_lattice};
-  if (bi.shape[0] > 4) switch(intel[4]){
+  if (intel.size() > 4) switch(intel[4]){
     case 4: lu = LengthUnit::reciprocal_lattice; break;
     case 3: lu = LengthUnit::real_lattice; break;
     case 2: lu = LengthUnit::inverse_angstrom; break;
@@ -97,14 +102,13 @@ fill_check(py::array_t<T> pyarray, py::array_t<int> pyel, py::array_t<double> py
   }
   // get the cost-function type(s)
   int csf{0}, cvf{0};
-  if (bi.shape[0] > 5) csf = intel[5];
-  if (bi.shape[0] > 6) cvf = intel[6];
+  if (intel.size() > 5) csf = intel[5];
+  if (intel.size() > 6) cvf = intel[6];
   // copy-over the weight specification
   std::array<double,3> wght{{1,1,1}};
-  bi = pywght.request();
-  if (bi.ndim != 1) throw std::runtime_error("weights must be a 1-D array");
-  auto *dblwght = (double*) bi.ptr;
-  for (pybind11::ssize_t i=0; i<bi.shape[0] && i<3; ++i) wght[i] = dblwght[i];
+  if (pywght.ndim() != 1) throw std::runtime_error("weights must be a 1-D array");
+  const auto dblwght = np_elements(pywght);
+  for (size_t i=0; i<dblwght.size() && i<3; ++i) wght[i] = dblwght[i];
   // tie everything up
   // return std::make_tuple(data, el, rl, csf, cvf, wght);
   return Interpolator(data, el, rl, lu, csf, cvf, wght);
-- 
2.43.0


From 1007610d6ec3dc5ae05c15c3881fed2c2dcbf23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:45 +0000
Subject: [PATCH 099/109] fix: create_grid makes a grid which can hold complex
 values if told to

With complex_values but without complex_vectors a real valued grid was made,
which drops the imaginary part of the values it is filled with.
---
 brille/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brille/utils.py b/brille/utils.py
index 6fa6d99..5b9095e 100644
--- a/brille/utils.py
+++ b/brille/utils.py
@@ -299,7 +299,8 @@ def create_grid(
         )
 
     def constructor(grid_type):
-        if complex_values and complex_vectors:
+        if complex_values:
+            # complex values can be held next to real vectors only by a fully complex grid
             return getattr(_brille, grid_type + "cc")
         elif complex_vectors:
             return getattr(_brille, grid_type + "dc")
-- 
2.43.0


From 1c32e6f3e523171f6e13b51ba0b8a67785114c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:45 +0000
Subject: [PATCH 100/109] fix: create_grid does not ignore number_density

number_density is a parameter of the nest, like max_volume, but it was ignored
for the other grids and if max_volume was given as well.
---
 brille/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brille/utils.py b/brille/utils.py
index 5b9095e..060043d 100644
--- a/brille/utils.py
+++ b/brille/utils.py
@@ -316,6 +316,8 @@ def create_grid(
             raise ValueError(
                 "Parameters given are consistent with a mesh grid but mesh=False"
             )
+        if "max_volume" in kwargs and "number_density" in kwargs:
+            raise ValueError("Both `max_volume` and `number_density` provided")
         if "max_volume" in kwargs:
             return constructor("BZNestQ")(
                 bz, float(kwargs["max_volume"]), kwargs.pop("max_branchings", 5)
@@ -331,7 +333,7 @@ def create_grid(
             raise ValueError(
                 "Parameters given are consistent with a trellis grid but mesh=True"
             )
-        if any([v in kwargs for v in ["max_volume", "max_branchings"]]):
+        if any([v in kwargs for v in ["max_volume", "number_density", "max_branchings"]]):
             raise ValueError(
                 "Parameters given are consistent with a nested grid but nest=False"
             )
@@ -342,7 +344,7 @@ def create_grid(
             int(kwargs.pop("max_points", -1)),
         )
     else:
-        if any([v in kwargs for v in ["max_volume", "max_branchings"]]):
+        if any([v in kwargs for v in ["max_volume", "number_density", "max_branchings"]]):
             raise ValueError(
                 "Parameters given are consistent with a nested grid but nest=False"
             )
-- 
2.43.0


From 278758037a20b4e8f065c45c7f9421674461367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:22 +0000
Subject: [PATCH 101/109] fix: the elements given to fill can be an array of
 any integer type

Without cost information only 32-bit integer arrays were accepted, with cost
information any integers are.
---
 wrap/_common_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrap/_common_grid.hpp b/wrap/_common_grid.hpp
index 39f69a4..694534c 100644
--- a/wrap/_common_grid.hpp
+++ b/wrap/_common_grid.hpp
@@ -25,8 +25,8 @@ void def_grid_fill(py::class_<Grid<T,R,S>>& cls){
 
   cls.def("fill",
   [](Class& cobj,
-    py::array_t<T> pyvals, py::array_t<int, py::array::c_style> pyvalelrl,
-    py::array_t<R> pyvecs, py::array_t<int, py::array::c_style> pyvecelrl,
+    py::array_t<T> pyvals, py::array_t<int> pyvalelrl,
+    py::array_t<R> pyvecs, py::array_t<int> pyvecelrl,
     bool sort
   ){
     using namespace brille;
-- 
2.43.0


From c70d3236d4f946fcd8cda723556a963fbb99a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:44 +0000
Subject: [PATCH 102/109] fix: column ordered points from Python are copied

The points in a column ordered array do not have contiguous elements, which is
assumed when they are transformed to the primitive lattice or moved into the
first Brillouin zone.
---
 wrap/_array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wrap/_array.hpp b/wrap/_array.hpp
index a2e739b..1e17db6 100644
--- a/wrap/_array.hpp
+++ b/wrap/_array.hpp
@@ -167,6 +167,8 @@ namespace brille {
     if (input.ndim() != 2)
       throw std::runtime_error("brille::Array2 objects require 2D input!");
     pybind11::array_t<T> pya = contiguous_py(input);
+    // functions of vectors require that the elements of each are contiguous
+    if (!(pya.flags() & pybind11::array::c_style)) pya = pybind11::array_t<T>(pya.attr("copy")());
     pybind11::buffer_info info = pya.request();
     const auto strides = contiguous_stride(pya);
     std::array<ind_t,2> shape{{0,0}}, stride{{strides[0], strides[1]}};
-- 
2.43.0


From d2992a612c3bf95f34082c5580528a2aa5616318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:46 +0000
Subject: [PATCH 103/109] fix: the values and vectors of a grid which was not
 filled are empty

They were arrays without dimensions, which hold a single uninitialised number.
---
 wrap/_array.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wrap/_array.hpp b/wrap/_array.hpp
index 1e17db6..cc23bb5 100644
--- a/wrap/_array.hpp
+++ b/wrap/_array.hpp
@@ -26,11 +26,17 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "array_.hpp"
 
 namespace brille {
+  //! Let Python allocate an array without any elements
+  template<class T>
+  pybind11::array_t<T> empty_py(const shape_t& shape){
+    // but an array without any dimensions has one (uninitialised) element
+    return shape.empty() ? pybind11::array_t<T>(0) : pybind11::array_t<T>(shape);
+  }
   template<class T>
   pybind11::array_t<T> a2py(const brille::Array<T>& a){
     // share an Array with Python
     // but if it has zero size let Python allocate a new empty array
-    if (a.raw_size() == 0u) return pybind11::array_t<T>(a.shape());
+    if (a.raw_size() == 0u) return empty_py<T>(a.shape());
     // construct a new Array<T> using the same underlying heap data
     std::unique_ptr<brille::Array<T>> aptr = std::make_unique<brille::Array<T>>(brille::Array<T>(a));
     auto capsule = pybind11::capsule(aptr.get(), [](void *p) { std::unique_ptr<brille::Array<T>>(reinterpret_cast<brille::Array<T>*>(p)); });
@@ -43,7 +49,7 @@ namespace brille {
   pybind11::array_t<T> a2py(brille::Array<T>&& a){
     // move an Array to Python.
     // but if it has zero size let Python allocate a new empty array
-    if (a.raw_size() == 0u) return pybind11::array_t<T>(a.shape());
+    if (a.raw_size() == 0u) return empty_py<T>(a.shape());
     // Ref: https://stackoverflow.com/questions/54876346/pybind11-and-stdvector-how-to-free-data-using-capsules
     auto* aptr = new brille::Array<T>(std::move(a));
     // At this point, transferToHeapGetRawPtr is a raw pointer to an object on the heap.
-- 
2.43.0


From 88c889ee58308d7f5923d014b2ab845e6e755891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:37 +0000
Subject: [PATCH 104/109] fix: malformed vertices and faces of a Polyhedron
 raise in Python

Vertices which are not three-vectors failed an assertion or were read out of
bounds, as were faces with vertices which do not exist.
---
 wrap/_polyhedron.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wrap/_polyhedron.hpp b/wrap/_polyhedron.hpp
index 840f704..c9a804b 100644
--- a/wrap/_polyhedron.hpp
+++ b/wrap/_polyhedron.hpp
@@ -6,6 +6,19 @@
 #include "polyhedron_flex.hpp"
 #include "utilities.hpp"
 
+//! Ensure that vertices have three elements and, if given, that each face holds at least three vertices which exist
+template<class T>
+brille::Array2<T> check_polyhedron_vertices(const py::array_t<T> & pyv, const std::vector<std::vector<int>> & faces = {}){
+  auto v = brille::py2a2(pyv);
+  if (v.size(1) != 3u) throw std::runtime_error("The vertices of a polyhedron must be three-vectors");
+  for (const auto & face: faces) {
+    if (face.size() < 3u) throw std::runtime_error("A face of a polyhedron must have at least three vertices");
+    for (const auto & i: face) if (i < 0 || static_cast<brille::ind_t>(i) >= v.size(0))
+      throw std::runtime_error("The face of a polyhedron has a vertex which does not exist");
+  }
+  return v;
+}
+
 template<class T, class A>
 void define_polyhedron_inits(py::class_<A> & cls){
   namespace py = pybind11;
@@ -13,11 +26,11 @@ void define_polyhedron_inits(py::class_<A> & cls){
   using namespace brille::polyhedron;
   using namespace pybind11::literals;
   cls.def(py::init([](const py::array_t<T> &pyv) {
-    return A(py2a2(pyv));
+    return A(check_polyhedron_vertices(pyv));
   }), "vertices"_a);
 
   cls.def(py::init([](const py::array_t<T> &pyv, const std::vector<std::vector<int>> &faces) {
-    return A(py2a2(pyv), Faces(faces));
+    return A(check_polyhedron_vertices(pyv, faces), Faces(faces));
   }), "vertices"_a, "faces"_a);
 }
 
-- 
2.43.0


From b03feace0558efa28c99cc99306c05b1ade729ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 105/109] fix: trellis nodes which do not exist are not
 accessed by subscript

PolyhedronTrellis::subscripted_node_poly and node_at_type read beyond the
knots and the nodes for subscripts outside of the trellis.
---
 src/trellis_poly.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index efa9807..39f6fba 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -442,8 +442,14 @@ public:
   }
   //! Find the trellis node linear index for an arbitrary point
   template <class S> ind_t node_index(const S& p) const { return this->sub2idx(this->node_subscript(p)); }
+  //! Throw an error if there is no node with the provided subscripts
+  void require_subscript(const std::array<ind_t, 3>& ijk) const {
+    for (ind_t dim=0; dim<3u; ++dim) if (ijk[dim] + 1u >= knots_[dim].size() || ijk[dim] + 1u == 0u)
+      throw std::out_of_range("The subscripts are outside of the PolyhedronTrellis");
+  }
   //! Return the (Cube) polyhedron representing an indexed node
   poly_t subscripted_node_poly(const std::array<ind_t, 3>& ijk) const {
+    this->require_subscript(ijk);
     auto i0 = knots_[0][ijk[0]];
     auto i1 = knots_[0][ijk[0]+1];
     auto j0 = knots_[1][ijk[1]];
@@ -469,6 +475,7 @@ public:
     return subscripted_node_poly(node_subscript(p));
   }
   [[nodiscard]] NodeType node_at_type(const std::array<ind_t, 3>& ijk) const {
+    this->require_subscript(ijk);
     return nodes_.node_type(sub2idx(ijk));
   }
   template <class S>
-- 
2.43.0


From 9fedc1a06d970c243bd6279710e5294952d57e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 106/109] fix: the node containing a malformed point is an
 error

An array which does not hold any three-component vector was used to find a
node by reading beyond its end.
---
 wrap/_trellis.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wrap/_trellis.hpp b/wrap/_trellis.hpp
index 8634f07..7e5295d 100644
--- a/wrap/_trellis.hpp
+++ b/wrap/_trellis.hpp
@@ -77,6 +77,8 @@ void declare_bztrellisq(py::module &m, const std::string &typestr){
     using namespace brille;
     using namespace brille::lattice;
     brille::Array2<double> bX = brille::py2a2(pyX);
+    if (bX.ndim() != 2 || bX.size(0) < 1 || bX.size(1) != 3)
+      throw std::runtime_error("Finding the containing node requires one 3-vector");
     auto qv = LQVec<double>(c.get_brillouinzone().get_lattice(), bX);
     return c.point_in_node_poly(qv);
   }, "Q"_a);
@@ -89,6 +91,8 @@ void declare_bztrellisq(py::module &m, const std::string &typestr){
     using namespace brille;
     using namespace brille::lattice;
     brille::Array2<double> bX = brille::py2a2(pyX);
+    if (bX.ndim() != 2 || bX.size(0) < 1 || bX.size(1) != 3)
+      throw std::runtime_error("Finding the containing node requires one 3-vector");
     auto qv = LQVec<double>(c.get_brillouinzone().get_lattice(), bX);
     return c.point_in_node_type(qv);
   }, "Q"_a);
-- 
2.43.0


From 4fba2844c16bda77cc6ffff06f3b79a5e3b4cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:23 +0000
Subject: [PATCH 107/109] fix: setting the number of visits of a SortingStatus
 replaces the previous number

---
 src/sorting_status.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorting_status.hpp b/src/sorting_status.hpp
index dbdc764..1bc56d7 100644
--- a/src/sorting_status.hpp
+++ b/src/sorting_status.hpp
@@ -86,8 +86,8 @@ public:
   template<typename T>
   status_t visits(T v) {
     if (v <= static_cast<status_t>(-1) >> v_shift){
-      this->status ^= v_mask; // keep everything but the number of visits
-      this->status += v << v_shift; // add the offset visits value
+      this->status &= ~v_mask; // keep everything but the number of visits
+      this->status += static_cast<status_t>(v) << v_shift; // add the offset visits value
     }
     else
       throw std::overflow_error("SortingStatus can not hold more than 2^29-1 visits.");
-- 
2.43.0


From f7a0d5bcffe97cfcd66c750147759a533d5eada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 108/109] fix: point operations are read from text

PointSymmetry::add(string) never advanced past the first row of a matrix, read a
lone sign as zero, and did not stop at the end of the text.  It now reads each
operation as Motion does, and keeps its rotation.
---
 src/pointsymmetry.cpp | 57 ++++++-------------------------------------
 1 file changed, 7 insertions(+), 50 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index 41c07fa..c72b059 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -17,6 +17,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include "pointsymmetry.hpp"
 #include "approx_float.hpp"
 #include "linear_algebra.hpp"
+#include "motion.hpp"
 #include "pointgroup.hpp"
 #include <algorithm>
 #include <cstring>
@@ -37,57 +38,13 @@ size_t PointSymmetry::add(const Matrix<int>& r){
   return this->R.size();
 }
 size_t PointSymmetry::add(const std::string& s){
-  Matrix<int> newR{0,0,0,0,0,0,0,0,0};
-  // a valid encoded Motion will be of the form
-  // ∑ₙiₙαₙ + f where each iₙ is an integer, αₙ∈{x,y,z}
-  // and f one of 0, ±1/12, ±1/6, ±1/4, ±1/3, ±1/2
-  // but we should support any rational or floating point value for f
-  int n{0}, i{1};
-  char c{' '};
+  // ';' separates encoded Motions. Their translation parts, which strictly
+  // should not be present for pointgroup operations, are skipped.
   std::istringstream stream(s);
-  size_t ret{0};
-  while (stream.good()){
-    c = char(stream.get());
-    switch (c){
-      case ';': // end of one motion
-        ret = this->add(newR);
-        newR = {0,0,0,0,0,0,0,0,0};
-        n=0;
-        i=1;
-        break;
-      case ',': // end of motion component
-        i=1;
-        break;
-      case 'x':
-        newR[n*3] = i;
-        i=1;
-        break;
-      case 'y':
-        newR[n*3+1] = i;
-        i=1;
-        break;
-      case 'z':
-        newR[n*3+2] = i;
-        i=1;
-        break;
-      default: // not ;,xyz
-        std::stringstream tmp;
-        tmp << c;
-        bool haspoint{false}, hasslash{false};
-        while (std::strchr(";,xyz-+",stream.peek())==nullptr){
-          hasslash |= '/'==stream.peek();
-          haspoint |= '.'==stream.peek();
-          tmp << stream.get();
-        }
-        if (haspoint && hasslash) throw std::logic_error("Number has both point and slash?!");
-        if (!(haspoint^hasslash)) tmp >> i; // TT (error) or FF (integer)
-        // either floating point or rational numbers represent part of the
-        // translation which strictly shouldn't be here for pointgroup
-        // operations, but we should just skip for now
-    }
-  }
-  if (';'!=c) ret = this->add(newR);
-  return ret;
+  for (std::string m; std::getline(stream, m, ';'); )
+    if (m.find_first_not_of(" \t\r\n") != std::string::npos)
+      this->add(Motion<int,double>(m).getr());
+  return this->size();
 }
 bool PointSymmetry::set(const size_t i, const int *r){
   if ( i>=this->size() ) return false;
-- 
2.43.0


From 7d88f12e9b23ad13bd10616dab38d3cbdbd39ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:04 +0000
Subject: [PATCH 109/109] fix: a consolidated vertex map reports that it is

The number of allocated appended vertices was used in place of their count.
---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 9388091..1c196ea 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -197,7 +197,7 @@ public:
   }
 
   [[nodiscard]] bool is_consolidated() const {
-    if (appended_.size(0) > 0) return false;
+    if (appended_count_ > 0) return false;
 // //    for (ind_t i=0; i<preserved_.size(); ++i) if (preserved_[i] != i) return false;
 //    for (const auto & pr: preserve_) if (pr.first != pr.second) return false;
 //    return true;
-- 
2.43.0


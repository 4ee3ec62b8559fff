From 2da18ddc88f040e6ff5751779978d63bbe6309f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:13 +0000
Subject: [PATCH 01/91] fix: return the value produced by the update in the cpp
 atomics scheme

The result was re-read from the atomic after the update, so another thread's
concurrent update could be returned (two adds could return the same value).
---
 ristra/atomics/src/atomics-macro-class.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ristra/atomics/src/atomics-macro-class.h b/ristra/atomics/src/atomics-macro-class.h
index 1a7394f..3191ea4 100644
--- a/ristra/atomics/src/atomics-macro-class.h
+++ b/ristra/atomics/src/atomics-macro-class.h
@@ -33,9 +33,13 @@ public:
       // std::atomic<>'s fetch_add() etc. return the contained value BEFORE
       // the call, which is inconsistent with what we expect from "+=" etc.,
       // and with what we get from our other atomicity schemes (below). So,
-      // we split the call and the return.
-      atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
-      return T(atom);
+      // we re-apply the operation to the value that our call replaced. (We
+      // can't re-read atom: another thread may have changed it meanwhile.)
+      std::atomic<T> result(
+         atom.atomics_cpp(val,sync) // e.g. atom.fetch_add(val,sync)
+      );
+      result.atomics_cpp(val,std::memory_order_relaxed);
+      return result.load(std::memory_order_relaxed);
    }
    #endif
 
-- 
2.43.0


From 4b0e7cc2b0b9aeb7b3fc4f08cafcdf5ef7513b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:03 +0000
Subject: [PATCH 02/91] fix: make data() and the reverse iterators of
 fixed_vector usable

---
 ristra/utils/fixed_vector.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7e3af50..0fffb8b 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -134,8 +134,8 @@ public:
   constexpr reference front() { return data_[0]; }
   constexpr reference back()  { return data_[size()-1]; }
         
-  constexpr const_pointer data() const { return data_; }
-  constexpr pointer data() { return data_; }
+  constexpr const_pointer data() const { return data_.data(); }
+  constexpr pointer data() { return data_.data(); }
         
 
   //============================================================================
@@ -148,10 +148,16 @@ public:
   constexpr const_iterator end() const { return std::next(data_.begin(), length_); }
   constexpr const_iterator cbegin() const { return begin(); }
   constexpr const_iterator cend() const { return end(); }
-  reverse_iterator rbegin() const {
+  reverse_iterator rbegin() {
+    return reverse_iterator(end());
+  }
+  reverse_iterator rend() {
+    return reverse_iterator(begin());
+  }
+  const_reverse_iterator rbegin() const {
     return const_reverse_iterator(end());
   }
-  reverse_iterator rend() const {
+  const_reverse_iterator rend() const {
     return const_reverse_iterator(begin());
   }
   const_reverse_iterator crbegin() const { return rbegin(); }
-- 
2.43.0


From d0cff8c263f083fe86aa60090e26307bcc274570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:03 +0000
Subject: [PATCH 03/91] fix: shift elements from the back when inserting into a
 fixed_vector

---
 ristra/utils/fixed_vector.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 0fffb8b..d34adb0 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -185,11 +185,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
+    // the value may be one of the elements that are about to be shifted
+    value_type copy( value );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::copy(d_first, end(), d_last );
+    std::move_backward( d_first, end(), std::next(end()) );
     // assign value
-    *d_first = value;
+    *d_first = std::move( copy );
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -202,8 +203,7 @@ public:
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::move(d_first, end(), d_last );
+    std::move_backward( d_first, end(), std::next(end()) );
     // assign value
     *d_first = std::move( value );
     // increment counter
@@ -219,11 +219,12 @@ public:
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
+    // the value may be one of the elements that are about to be shifted
+    value_type copy( value );
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::copy(d_first, end(), d_last );
+    std::move_backward( d_first, end(), std::next(end(), count) );
     // assign value
-    std::fill_n( d_first, count, value );
+    std::fill_n( d_first, count, copy );
     // increment counter
     length_ += count;
     // return an iterator to the inserted value
@@ -244,8 +245,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::move(d_first, end(), d_last );
+    std::move_backward( d_first, end(), std::next(end(), count) );
     // assign values
     std::copy( first, last, d_first );
     // increment counter
@@ -264,8 +264,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return start;
     // otherwise, shift data to the right
-    auto next = std::next(start, count);
-    std::move(start, end(), next );
+    std::move_backward( start, end(), std::next(end(), count) );
     // assign values
     std::copy( ilist.begin(), ilist.end(), start );
     // increment counter
-- 
2.43.0


From e9bf2fdd0e1312231c8e539dd42f5997c39af13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:03 +0000
Subject: [PATCH 04/91] fix: return the given position when erasing an empty
 range of a fixed_vector

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index d34adb0..dcd9c06 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -297,7 +297,7 @@ public:
     // if empty, nothing to do    
     if ( empty() ) return end();
     // if first == last, nothring to do
-    if ( first == last ) return begin();
+    if ( first == last ) return _validate_iterator( last );
     // get the number of deleted elements
     auto count = std::distance( first, last );
     // convert to a non-const iterator
-- 
2.43.0


From 26fb46453031b2900e777ec0eb2b026c49892b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:03 +0000
Subject: [PATCH 05/91] fix: compare the lengths of fixed_vectors

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index dcd9c06..f737f05 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -388,7 +388,7 @@ template< class T, std::size_t N >
 bool operator==( const fixed_vector<T,N>& lhs,
                  const fixed_vector<T,N>& rhs )
 {
-  return std::equal( lhs.begin(), lhs.end(), rhs.begin() );
+  return std::equal( lhs.begin(), lhs.end(), rhs.begin(), rhs.end() );
 }
     
 } // namespace utils
-- 
2.43.0


From 9d8384461fab4b246bb75b54137734a1855dbf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:53 +0000
Subject: [PATCH 06/91] fix: do not write past the storage of a trivial_string

---
 ristra/utils/trivial_string.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/trivial_string.h b/ristra/utils/trivial_string.h
index 76353b4..9c0f499 100644
--- a/ristra/utils/trivial_string.h
+++ b/ristra/utils/trivial_string.h
@@ -13,6 +13,7 @@
 
 // system includes
 #include <array>
+#include <cassert>
 #include <cstring>
 #include <string>
 
@@ -78,7 +79,9 @@ template< std::size_t N >
 auto to_trivial_string( const std::string & str )
 {
   trivial_string<N> tmp;
-  strcpy( tmp.data(), str.c_str() );
+  // never write past the fixed storage, and always terminate the string
+  strncpy( tmp.data(), str.c_str(), N-1 );
+  tmp.data()[N-1] = '\0';
   return tmp;
 }
 
-- 
2.43.0


From d2c40f26d50fa7a08a1fcc743995e5b62d5c3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:53 +0000
Subject: [PATCH 07/91] fix: make the accessors of const_string usable on
 constant strings

---
 ristra/utils/const_string.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/const_string.h b/ristra/utils/const_string.h
index 0c506ea..aa333f5 100644
--- a/ristra/utils/const_string.h
+++ b/ristra/utils/const_string.h
@@ -9,6 +9,10 @@
 
 #pragma once
 
+// system includes
+#include <cstddef>
+#include <stdexcept>
+
 namespace ristra {
 namespace utils {
 
@@ -29,11 +33,11 @@ public:
   constexpr const_string( const char (&a)[N] ) : p_(a), sz_(N-1) {}
 
   //! \brief return the value at a specific position `n`
-  constexpr char operator[] ( size_type n )
+  constexpr char operator[] ( size_type n ) const
   { return n < sz_ ? p_[n] : throw std::out_of_range(""); }
 
   //! \brief Return the size of the string.
-  constexpr size_type size() { return sz_; }
+  constexpr size_type size() const { return sz_; }
 
   //! \brief Return a pointer to a c-string.
   constexpr const char* c_str() const { return p_; }
-- 
2.43.0


From c24dd2abd4e6f75c0513029ea8913344984e9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 08/91] fix: let checked access to array views throw

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index d56c5b3..7392b2c 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2271,7 +2271,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the strided_array_view.    
@@ -2780,7 +2780,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3289,7 +3289,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
-- 
2.43.0


From 4363b5ce63c491f1f147b8e825a217a621b0472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 09/91] fix: report an array view as empty when it has no
 elements

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 7392b2c..15a9d6a 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2218,7 +2218,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -2728,7 +2728,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -3236,7 +3236,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
-- 
2.43.0


From 6ec391fc6c8107d682e3e4154c66e369a3cc5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 10/91] fix: make random access and ordering of bounds
 iterators follow the iteration order

---
 ristra/utils/array_view.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 15a9d6a..415d729 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1433,11 +1433,16 @@ public:
   constexpr bounds_iterator& operator+=(difference_type n) noexcept
   {
     auto linear_idx = linearize(current_) + n;
-    std::remove_const_t<value_type> stride = 0;
+    std::remove_const_t<value_type> stride;
     stride[rank - 1] = 1;
     for (int i = rank - 1; i-- > 0;) {
       stride[i] = stride[i + 1] * bounds_[i + 1];
     }
+    // moving just past the last index gives the end iterator
+    if (linear_idx == stride[0] * bounds_[0]) {
+      current_ = bounds_;
+      return *this;
+    }
     for (int i = 0; i < rank; ++i) {
       current_[i] = linear_idx / stride[i];
       linear_idx = linear_idx % stride[i];
@@ -1492,7 +1497,7 @@ public:
   //! \brief test less-than
   //! \param [in] rhs the object on the right hand side of the operator
   constexpr bool operator<(const bounds_iterator& rhs) const noexcept
-  { return (current_ < rhs.current_); }
+  { return linearize(current_) < linearize(rhs.current_); }
 
   //! \brief test <=
   //! \param [in] rhs the object on the right hand side of the operator
-- 
2.43.0


From fc97216698ca628de908dda19d3a0cc0403160b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 11/91] fix: do not iterate over bounds that contain no index

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 415d729..920db15 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -738,7 +738,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() == 0 ? bounds_ : index_type{} ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -995,7 +995,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() == 0 ? bounds_ : index_type{} ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -1221,7 +1221,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() == 0 ? bounds_ : index_type{} ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
-- 
2.43.0


From 1fd6b1277c83db59524014b2801d84ad935a48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 12/91] fix: compare the elements of strided views that start
 at the same address

---
 ristra/utils/array_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 920db15..0697c2f 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2425,8 +2425,9 @@ public:
   >
   constexpr bool operator==(const strided_array_view<OtherValueType, OtherRank>& other) const noexcept
   {
+    // views of the same data may still differ in their strides
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
-- 
2.43.0


From 228269a16e798f6bf2b3721506343ec09583a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 13/91] fix: compute the strides of contiguous bounds made from
 an array

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 0697c2f..babb509 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1040,7 +1040,7 @@ protected:
   constexpr contiguous_bounds( 
     ArrayType &, std::index_sequence<I...> ) noexcept : 
     bounds_( std::extent<ArrayType, I>::value... ),
-    strides_( std::extent<ArrayType, I>::value... )
+    strides_( detail::make_strides<index_type>{}( std::extent<ArrayType, I>::value... ) )
   { };  
 
   /// @}
-- 
2.43.0


From 2e62152a75ef0e05165fdc36fd652efa089c8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 14/91] fix: allow the conversion of array views to strided
 views

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index babb509..b48a172 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2085,7 +2085,7 @@ public:
   //! \param [in] rhs  the array_vew to set the new view to
   template<
     typename ViewValueType, 
-    int ViewRank,
+    std::ptrdiff_t ViewRank,
     bool Enabled1 = std::is_convertible< std::add_pointer_t<ViewValueType>, pointer>::value,
     bool Enabled2 = (ViewRank == Rank),
     std::enable_if_t< Enabled1 && Enabled2 >* = nullptr
-- 
2.43.0


From d9bad6c645a6d578f56118f5e299444a645d04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:41 +0000
Subject: [PATCH 15/91] fix: make slices, sections and conversions of static
 array views usable

---
 ristra/utils/array_view.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index b48a172..8b59663 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3110,7 +3110,7 @@ public:
   using reference = std::add_lvalue_reference_t<value_type>;
 
   //! \brief a constant version of the same view
-  using const_static_array_view = static_array_view<const_value_type, Rank>;
+  using const_static_array_view = static_array_view<const_value_type, FirstDim, RestDims...>;
 
   //! \brief a strided version of the same view
   using strided_view = strided_array_view<value_type, Rank>;
@@ -3125,7 +3125,7 @@ public:
 
 
   //! a sliced type
-  using sliced_type = slice_chooser< (Rank == 1),  value_type, RestDims... >;
+  using sliced_type = typename slice_chooser< (Rank == 1),  value_type, RestDims... >::type;
 
   /// @}
         
@@ -3182,6 +3182,7 @@ public:
   operator=(const static_array_view<ViewValueType, FirstDim, RestDims...>& rhs) noexcept
   {
     data_ = rhs.data();
+    return *this;
   }
 
   //! \brief single parameter container
@@ -3328,7 +3329,7 @@ public:
   constexpr Ret operator[]( size_type idx ) const noexcept
   { 
     const auto ridx = idx * bounds_.stride();
-    return { bounds_.slice(), data_+ridx };
+    return { data_+ridx };
   }
 
   //! \brief slice an array, i.e. fix the most significant dimension
@@ -3357,7 +3358,7 @@ public:
   { 
     assert( bounds().contains(origin) );
     auto bnds = bounds_.as_index() - origin;
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   constexpr strided_view section( 
@@ -3366,21 +3367,21 @@ public:
   { 
     assert( bounds_.contains(origin) );
     assert( origin + bnds <= bounds_.as_index() );    
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator strided_view() const 
   {
-    return strided_view( bounds_.as_index(), bounds_.strides(), data() );
+    return strided_view( data(), bounds_.as_index(), bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator dynamic_view() const 
   {
-    return dynamic_view( bounds_.as_index(), data() );
+    return dynamic_view( data(), typename dynamic_view::bounds_type( bounds_.as_index() ) );
   }
   
   /// @}
-- 
2.43.0


From a0d9695adb2c98af740af76285bf3ac08d838ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:41 +0000
Subject: [PATCH 16/91] fix: do not return references to temporaries from
 static array views, and let their checked slice throw

---
 ristra/utils/array_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 8b59663..4d61c4f 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3250,10 +3250,10 @@ public:
   { return bounds_; }
 
   //! \brief return the stride of the array
-  constexpr const auto & strides() const noexcept
+  constexpr auto strides() const noexcept
   { return bounds_.strides(); }
  
-  constexpr const auto & stride() const noexcept
+  constexpr auto stride() const noexcept
   { return bounds_.stride(); }
 
 
@@ -3336,7 +3336,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] slice the index
   //! \return a reference to the indexed location
-  constexpr auto slice( size_type idx ) const noexcept
+  constexpr auto slice( size_type idx ) const
   { 
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3352,7 +3352,7 @@ public:
   //! \param [in] bnds     the new bounds, if non is specified, keep old bounds
   //! \return a the new view
   constexpr strided_view section() const noexcept
-  { return *this; }
+  { return strided_view( data_, bounds_.as_index(), bounds_.strides() ); }
 
   constexpr strided_view section( const index_type & origin ) const noexcept
   { 
-- 
2.43.0


From 416843f41ed3c8c0792e566ecc23044d07468d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:58 +0000
Subject: [PATCH 17/91] fix: make bounds iterators assignable

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 4d61c4f..5015b44 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1563,7 +1563,7 @@ private:
   /// @{
 
   //! \brief storage for the bounds
-  value_type bounds_;
+  std::remove_const_t<value_type> bounds_;
   //! \brief storage for the current index
   std::remove_const_t<value_type> current_;
 
-- 
2.43.0


From 9b455429ab4267a53db92a6cd8a3bd4de82c711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:29 +0000
Subject: [PATCH 18/91] fix: compare the sizes of all zipped containers

---
 ristra/utils/zip.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/zip.h b/ristra/utils/zip.h
index 0731ff3..9840ab5 100644
--- a/ristra/utils/zip.h
+++ b/ristra/utils/zip.h
@@ -131,8 +131,8 @@ decltype(auto) zip(Types&&... args)
 
   // check all the sizes
   size_t sizes[] = { args.size()... };
-  auto first_size = sizes[1];
-  for ( int i=2; i<n; i++ )
+  auto first_size = sizes[0];
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 
   return zipper<special_decay_t<Types>...>(std::forward<Types>(args)...);
-- 
2.43.0


From 170152a418006d0fc0d07057003fa4ab1f6432b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:29 +0000
Subject: [PATCH 19/91] fix: make the conversion of tuples to arrays usable

---
 ristra/utils/tuple_to_array.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/tuple_to_array.h b/ristra/utils/tuple_to_array.h
index 5699cac..6addac0 100644
--- a/ristra/utils/tuple_to_array.h
+++ b/ristra/utils/tuple_to_array.h
@@ -9,6 +9,12 @@
 
 #pragma once
 
+// system includes
+#include <array>
+#include <cstddef>
+#include <tuple>
+#include <utility>
+
 namespace ristra {
 namespace utils {
 
@@ -24,7 +30,7 @@ template<typename T, typename... U, std::size_t... I>
 inline Array<T, U...>
 to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 {
-  return Array<T, U...>{ get<I>(t)... };
+  return Array<T, U...>{ std::get<I>(t)... };
 }
 
 } // detail
@@ -35,7 +41,7 @@ to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 ////////////////////////////////////////////////////////////////////////////////
 template<typename T, typename... U>
 inline detail::Array<T, U...>
-to_array(const tuple<T, U...>& t)
+to_array(const std::tuple<T, U...>& t)
 {
   using IndexTuple = std::make_index_sequence<1+sizeof...(U)>;
   return detail::to_array(t, IndexTuple());
-- 
2.43.0


From d752f7a8d53c54eafec625db6b5211b382b372da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:12 +0000
Subject: [PATCH 20/91] fix: let dimensioned arrays be combined with themselves

---
 ristra/utils/dimensioned_array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index c21656c..8e1d36a 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -204,11 +204,9 @@ public:
       dimensioned_array__ const & rhs                                          \
     )                                                                          \
     {                                                                          \
-      if(this != &rhs) {                                                       \
-        for(size_t i{0}; i<DIMENSION; i++) {                                   \
-          data_[i] op rhs[i];                                                  \
-        } /* for */                                                            \
-      } /* if */                                                               \
+      for(size_t i{0}; i<DIMENSION; i++) {                                     \
+        data_[i] op rhs[i];                                                    \
+      } /* for */                                                              \
                                                                                \
       return *this;                                                            \
     }
-- 
2.43.0


From a3b70743ae9fbf893ca09e8c870bcab2fef56dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:12 +0000
Subject: [PATCH 21/91] fix: terminate when replacing all occurrences of an
 empty string

---
 ristra/utils/string_utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9ea2e6f..88be089 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -33,6 +33,7 @@ namespace utils {
 ////////////////////////////////////////////////////////////////////////////////
 inline
 auto replace_all(std::string str, const std::string & from, const std::string & to) {
+  if (from.empty()) return str;
   size_t start_pos = 0;
   while((start_pos = str.find(from, start_pos)) != std::string::npos) {
     str.replace(start_pos, from.length(), to);
-- 
2.43.0


From 15cec79a5dcd9d35bf0d6a6e3cdecb68159b2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:12 +0000
Subject: [PATCH 22/91] fix: size wide strings by the number of characters
 converted

---
 ristra/utils/string_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 88be089..2dd86f1 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -65,7 +65,8 @@ static std::wstring to_wstring(const char* text)
     std::wstring wstr;
     if (size > 0) {
         wstr.resize(size);
-        std::mbstowcs(&wstr[0], text, size);
+        const size_t len = std::mbstowcs(&wstr[0], text, size);
+        wstr.resize(len == static_cast<size_t>(-1) ? 0 : len);
     }
     return wstr;
 }
-- 
2.43.0


From 0375a7eee1ccdc13ddc581d0e642702f293639b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:12 +0000
Subject: [PATCH 23/91] fix: do not take a dot in a directory name for an
 extension

---
 ristra/utils/string_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 2dd86f1..d044bd0 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -119,6 +119,7 @@ inline
 std::string remove_extension(const std::string & str) {
     auto lastdot = str.find_last_of(".");
     if (lastdot == std::string::npos) return str;
+    if (basename(str).find('.') == std::string::npos) return str;
     return str.substr(0, lastdot); 
 }
 
@@ -131,7 +132,8 @@ inline
 std::pair<std::string, std::string>
 split_extension(const std::string & str) {
   auto lastdot = str.find_last_of(".");
-  if (lastdot == std::string::npos)
+  if (lastdot == std::string::npos ||
+      basename(str).find('.') == std::string::npos)
     return std::make_pair( str, "");
   else
     return std::make_pair( str.substr(0, lastdot), str.substr(lastdot+1) ); 
-- 
2.43.0


From 328891d01d8034f0784bf1ba06804558697e98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:12 +0000
Subject: [PATCH 24/91] fix: split strings at the given delimiters only

---
 ristra/utils/string_utils.h | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index d044bd0..29b550a 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -154,32 +154,13 @@ std::vector<std::string> split(
 
   if (str.empty()) return {};
 
-  struct tokens_t : std::ctype<char>
-  {
-    using ctype_base = std::ctype_base;
-    using cctype = std::ctype<char>;
-    using ccmask = cctype::mask;
-    
-    tokens_t(const std::vector<char> & delims) 
-      : cctype(get_table(delims)) {}
-
-    static ctype_base::mask const * get_table(
-      const std::vector<char> & delims
-    ) {
-      static const ccmask * const_rc = cctype::classic_table();
-      static ccmask rc[cctype::table_size];
-      std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
-      for (const auto & d : delims) 
-        rc[d] = ctype_base::space;
-      return &rc[0];
-    }
-  };
-
-  std::stringstream ss(str);
-  ss.imbue(std::locale(std::locale(), new tokens_t(delim)));
-  std::istream_iterator<std::string> begin(ss);
-  std::istream_iterator<std::string> end;
-  std::vector<std::string> vstrings(begin, end);
+  const std::string delims(delim.begin(), delim.end());
+  std::vector<std::string> vstrings;
+  for (auto pos = str.find_first_not_of(delims); pos != std::string::npos; ) {
+    auto last = str.find_first_of(delims, pos);
+    vstrings.emplace_back(str, pos, last - pos);
+    pos = str.find_first_not_of(delims, last);
+  }
   return vstrings;
 }
 
-- 
2.43.0


From 600b7f3751ebba113658b67f3e2f8b6745cb2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 25/91] fix: allow arithmetic between arrays of different
 element types

---
 ristra/math/array.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 55277ef..bdcd6a9 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -99,7 +99,7 @@ public:
   constexpr array(const array<T2,N> &rhs) noexcept
   {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i]; 
+      elems_[i] = rhs[i]; 
   }
 
   //! \brief Constructor with variadic arguments.
@@ -332,7 +332,7 @@ public:
   template <typename T2>
   auto & operator= (const array<T2,N>& rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i];    
+      elems_[i] = rhs[i];    
     return *this;
   }
 
@@ -352,7 +352,7 @@ public:
   template <typename T2>
   auto & operator+=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] += rhs.elems_[i];    
+      elems_[i] += rhs[i];    
     return *this;
   }
 
@@ -372,7 +372,7 @@ public:
   template <typename T2>
   auto & operator-=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] -= rhs.elems_[i];    
+      elems_[i] -= rhs[i];    
     return *this;
   }
 
@@ -393,7 +393,7 @@ public:
   template <typename T2> 
   auto & operator*=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= rhs.elems_[i];    
+      elems_[i] *= rhs[i];    
     return *this;
   }
 
@@ -413,7 +413,7 @@ public:
   template <typename T2>
   auto & operator/=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] /= rhs.elems_[i];    
+      elems_[i] /= rhs[i];    
     return *this;
   }
 
-- 
2.43.0


From 446090bb2f3025d188afb74b1c3d30059f2f57de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 26/91] fix: divide arrays of integers by a scalar correctly

---
 ristra/math/array.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index bdcd6a9..73e7ef0 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -422,9 +422,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= inv;
+      elems_[i] /= val;
     return *this;
   }
 
@@ -687,11 +686,10 @@ operator/( const array<T,N>& lhs,
            const U& rhs )
 {
   array<T,N> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename array<T,N>::counter_type;
   constexpr auto len = static_cast<counter_type>(N);
   for ( counter_type i=0; i<len; i++ )
-    tmp[i] = lhs[i] * inv;
+    tmp[i] = lhs[i] / rhs;
   return tmp;
 }
 
-- 
2.43.0


From 05bcb475fb9cfae7a69aeef1725d105b75ed1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 27/91] fix: apply a scalar operand that is an element of the
 array itself

---
 ristra/math/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 73e7ef0..f56cd50 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -360,7 +360,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator+=(const T2 & val) {
+  auto & operator+=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] += val;    
     return *this;
@@ -380,7 +380,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator-=(const T2 & val) {
+  auto & operator-=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] -= val;    
     return *this;
@@ -401,7 +401,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator*=(const T2 & val) {
+  auto & operator*=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] *= val;    
     return *this;
@@ -421,7 +421,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator/=(const T2 & val) {
+  auto & operator/=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] /= val;
     return *this;
-- 
2.43.0


From b5169a086989550fce1291088a9ed040ce4197f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 28/91] fix: allow arithmetic between multi_arrays of different
 element types

---
 ristra/math/multi_array.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index b75828d..b4fdd91 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -449,8 +449,7 @@ public:
   //!\brief  assignment with type conversion
   template <typename T2>
   auto & operator= (const multi_array<T2,N...>& rhs) {
-    if ( this != &rhs )
-      for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs[i];    
     return *this;
   }
 
@@ -468,7 +467,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs[i];    
     return *this;
   }
 
@@ -486,7 +485,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs[i];    
     return *this;
   }
 
@@ -505,7 +504,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2> 
   auto & operator*=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs[i];    
     return *this;
   }
 
@@ -523,7 +522,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs[i];    
     return *this;
   }
 
-- 
2.43.0


From 7720d3863c11d505018d5c3b43411312440bbf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 29/91] fix: divide multi_arrays of integers by a scalar
 correctly

---
 ristra/math/multi_array.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index b4fdd91..c8f69f5 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -531,8 +531,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= inv;
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= val;
     return *this;
   }
 
@@ -874,10 +873,9 @@ operator/( const multi_array<T,N...>& lhs,
            const U& rhs )
 {
   multi_array<T,N...> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename multi_array<T,N...>::counter_type;
   for ( counter_type i=0; i<multi_array<T,N...>::elements; i++ ) 
-    tmp[i] = lhs[i] * inv;    
+    tmp[i] = lhs[i] / rhs;    
   return tmp;
 }
 
-- 
2.43.0


From 412610c38192f3420d711a86f9aba8213d995e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 30/91] fix: apply a scalar operand that is an element of the
 multi_array itself

---
 ristra/math/multi_array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index c8f69f5..869828c 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -475,7 +475,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator+=(const T2 & val) {
+  auto & operator+=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] += val;    
     return *this;
   }
@@ -493,7 +493,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator-=(const T2 & val) {
+  auto & operator-=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] -= val;    
     return *this;
   }
@@ -512,7 +512,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator*=(const T2 & val) {
+  auto & operator*=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] *= val;    
     return *this;
   }
@@ -530,7 +530,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator/=(const T2 & val) {
+  auto & operator/=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] /= val;
     return *this;
   }
-- 
2.43.0


From 8a8b8db3ec6e2a43ce7d25db9c69dea82b5890c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 31/91] fix: apply a scalar operand that is an element of the
 tuple itself

---
 ristra/math/tuple.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ristra/math/tuple.h b/ristra/math/tuple.h
index 7d37c31..9a270a8 100644
--- a/ristra/math/tuple.h
+++ b/ristra/math/tuple.h
@@ -34,7 +34,7 @@ using std::get;
 //! \brief Constructor with one value.
 //! \param[in] val The value to set the array to
 template < typename... Types, typename U >
-void fill( tuple<Types...> & t, const U & val ) 
+void fill( tuple<Types...> & t, const U val ) 
 { 
   //std::cout << "tuple (single value constructor)\n";
   using std::fill;  // enable ADL
@@ -60,7 +60,7 @@ void plus_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void plus_equal( tuple<Types...>& lhs, const U & rhs )
+void plus_equal( tuple<Types...>& lhs, const U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
@@ -128,7 +128,7 @@ void minus_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void minus_equal( tuple<Types...>& lhs, const U & rhs )
+void minus_equal( tuple<Types...>& lhs, const U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
@@ -194,7 +194,7 @@ void multiplies_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void multiplies_equal( tuple<Types...>& lhs, const U & rhs )
+void multiplies_equal( tuple<Types...>& lhs, const U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
@@ -263,7 +263,7 @@ void divides_equal( tuple<Types...>& lhs, const tuple<Types...>& rhs )
 }
 
 template <typename... Types, typename U>
-void divides_equal( tuple<Types...>& lhs, const U & rhs )
+void divides_equal( tuple<Types...>& lhs, const U rhs )
 {
   utils::tuple_for_each( lhs,
                          [&](auto & tup) { 
-- 
2.43.0


From fe174315b6093a445c7782e806b6a55cbedeebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 32/91] fix: scale the result vector once in matrix_vector

---
 ristra/math/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index 3c7739b..0a315e2 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -304,8 +304,9 @@ void matrix_vector(
   C<T,D1> & y )
 {
   for ( utils::select_counter_t<D1> i = 0; i<D1; i++ ) {
+    y[i] = beta * y[i];
     for ( utils::select_counter_t<D2>  j = 0; j<D2; j++ )
-      y[i] = alpha * A(i,j) * x[j] + beta * y[i];
+      y[i] += alpha * A(i,j) * x[j];
   }
 }
 //! @}
-- 
2.43.0


From 006772c418ecc8a6f6037273356ea483e9fbefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 33/91] fix: size the result of the element-wise minimum and
 maximum of vectors

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index bf50433..89410cf 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -286,7 +286,7 @@ auto min(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto min(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp(a);
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::min( a[i], b[i] );
   return tmp;
@@ -315,7 +315,7 @@ auto max(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto max(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp(a);
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::max( a[i], b[i] );
   return tmp;
-- 
2.43.0


From b21e898c5586948791b7af5e9294b49bd5ac4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:50 +0000
Subject: [PATCH 34/91] fix: average negative integers correctly

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index 89410cf..7aca88a 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -42,7 +42,7 @@ average( T && t, Types&&... args )
 { 
   auto res( t ); // first one
   detail::average(res, std::forward<Types>(args)...); // sum the rest
-  res /=  ( sizeof...(args) + 1 ); // divide by number
+  res /=  static_cast<int>( sizeof...(args) + 1 ); // divide by number
   return res;
 }
 
@@ -83,7 +83,7 @@ auto average( const V<T, Args...> & vals )
   assert( vals.size() > 0 && "not enough values" );
   T avg(0);
   for ( const auto & x : vals ) avg += x;
-  avg /= vals.size();
+  avg /= static_cast<std::ptrdiff_t>( vals.size() );
   return avg;
 }
 
-- 
2.43.0


From 0e2838bd266578d9c1d751d97e9252287bd5b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:50 +0000
Subject: [PATCH 35/91] fix: do not take the logarithm of zero in the matrix
 exponential

---
 ristra/math/matrix.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index 0a315e2..cce00a3 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -574,9 +574,11 @@ auto exponential( const matrix<T, N, N> & mat )
     constexpr size_t q = 6;
     //
     T mat_norm            = infinity_norm( mat );
-    T scaling_coefficient = ( std::log(mat_norm)
-                            / std::log(2.)
-                            ) + 1.;
+    T scaling_coefficient = 0.;
+    if ( mat_norm > 0. )
+        scaling_coefficient = ( std::log(mat_norm)
+                              / std::log(2.)
+                              ) + 1.;
     const size_t s =
         static_cast<size_t>
         (
-- 
2.43.0


From 6a62f355420de116b73d467c421365043a4be396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:50 +0000
Subject: [PATCH 36/91] fix: compute the strides of the column-major ordering
 from the leading dimensions

---
 ristra/math/multi_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 869828c..e57100d 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -86,7 +86,7 @@ class col_major_ordering {
   constexpr size_type stride(const size_type * ids, const size_type & N )
   {
     if ( N > 0 )
-      return ids[1] * stride( &ids[1], N-1 );
+      return ids[0] * stride( &ids[1], N-1 );
     else 
       return 1;
   }
@@ -99,7 +99,7 @@ class col_major_ordering {
   template< size_type N, size_type... I >
   constexpr std::array<size_type, N> ordering_helper( const size_type (&ids)[N], std::index_sequence<I...> ) 
   {
-    return {{ stride( &ids[N-I-1], I )... }};
+    return {{ stride( ids, I )... }};
   }
   
 public:
-- 
2.43.0


From 4179d9cff57fb1daf37a9ffc072955a6c64ffe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 37/91] fix: accept polygons of three points in three
 dimensions

---
 ristra/geometry/shapes/polygon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/geometry/shapes/polygon.h b/ristra/geometry/shapes/polygon.h
index 2bf3e55..708ec78 100644
--- a/ristra/geometry/shapes/polygon.h
+++ b/ristra/geometry/shapes/polygon.h
@@ -498,7 +498,7 @@ public:
   static 
   constexpr
   std::enable_if_t< 
-    (sizeof...(Types) >= 3 && utils::are_type_t<T,Types...>::value && 
+    (sizeof...(Types) >= 2 && utils::are_type_t<T,Types...>::value && 
      std::decay_t<T>::size() >= 3), 
     std::decay_t<T> 
   >
@@ -532,7 +532,7 @@ public:
   { 
     // get the number of points
     auto num_points = std::distance( first, last );
-    assert( num_points > 3 && "not enough points for 3d" );
+    assert( num_points > 2 && "not enough points for 3d" );
 
     // determine the vector and coordinate type
     using point_type = std::decay_t< decltype(*first) >;
@@ -582,7 +582,7 @@ public:
   static
   constexpr
   std::enable_if_t< 
-    (sizeof...(Types) >= 3 && utils::are_type_t<T,Types...>::value && 
+    (sizeof...(Types) >= 2 && utils::are_type_t<T,Types...>::value && 
      std::decay_t<T>::size() >= 3), 
      std::decay_t< decltype( std::declval<T>()[0] ) > 
   >
@@ -615,7 +615,7 @@ public:
 
     // get the number of points
     auto num_points = std::distance( first, last );
-    assert( num_points > 3 && "not enough points for 3d" );
+    assert( num_points > 2 && "not enough points for 3d" );
 
     // determine the vector and coordinate type
     using coord_type = std::decay_t< decltype( (*first)[0] ) >;
@@ -657,7 +657,7 @@ public:
   static
   constexpr
   std::enable_if_t< 
-    (sizeof...(Types) >= 3 && utils::are_type_t<T,Types...>::value && 
+    (sizeof...(Types) >= 2 && utils::are_type_t<T,Types...>::value && 
      std::decay_t<T>::size() >= 3), 
      std::decay_t<T> 
   >
@@ -689,7 +689,7 @@ public:
 
     // get the number of points
     auto num_points = std::distance( first, last );
-    assert( num_points > 3 && "not enough points for 3d" );
+    assert( num_points > 2 && "not enough points for 3d" );
 
     // determine the vector and coordinate type
     using point_type = std::decay_t< decltype(*first) >;
-- 
2.43.0


From 2ed55c8d15fe94bc7c5f61d850b9367231242ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 38/91] fix: reject areas of points that are not
 two-dimensional

---
 ristra/geometry/area.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ristra/geometry/area.h b/ristra/geometry/area.h
index 2a5b7fd..47b208f 100644
--- a/ristra/geometry/area.h
+++ b/ristra/geometry/area.h
@@ -9,6 +9,7 @@
 #pragma once
 
 // user includes
+#include "ristra/assertions/errors.h"
 #include "ristra/utils/type_traits.h"
 #include "area_impl.h"
 
@@ -75,8 +76,10 @@ auto area( const V<T, Args...> & points )
   auto dim = points[0].size();
   if ( dim == 2 )
     return area_2d( points );
-  else
-    assert( false && "unsuported dimemsion" );
+  else {
+    THROW_IMPLEMENTED_ERROR( "unsuported dimemsion" );
+    return area_2d( points ); // should never get here
+  }
 }
 
 
-- 
2.43.0


From 02758dcea1b4f4f2b44a6f844459ed37942c7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 39/91] fix: do not read a third row of two-dimensional
 jacobians

---
 ristra/elements/elements.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1b18817..1a9e66b 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -553,12 +553,18 @@ void jacobian(
     
 
    //calcualate the determinant of the jacobian for 2D/3D matrices
-   det_J =  J_matrix[0][0] *(J_matrix[1][1] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][1] * J_matrix[1][2])*abs(dim-2))  //group 1
-         -  J_matrix[0][1] *(J_matrix[1][0] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][0] * J_matrix[1][2])*abs(dim-2))  // group 2
-         +  J_matrix[0][2] *(J_matrix[1][0] *  J_matrix[2][1] 
-         -  J_matrix[2][0] * J_matrix[1][1])*(abs(dim-2)); // group 3 
+   if (dim == 2) {
+      det_J =  J_matrix[0][0] * J_matrix[1][1]
+            -  J_matrix[0][1] * J_matrix[1][0];
+   }
+   else {
+      det_J =  J_matrix[0][0] *(J_matrix[1][1] * J_matrix[2][2] 
+            -  J_matrix[2][1] * J_matrix[1][2])  //group 1
+            -  J_matrix[0][1] *(J_matrix[1][0] * J_matrix[2][2] 
+            -  J_matrix[2][0] * J_matrix[1][2])  // group 2
+            +  J_matrix[0][2] *(J_matrix[1][0] * J_matrix[2][1] 
+            -  J_matrix[2][0] * J_matrix[1][1]); // group 3 
+   }
    } // end of jacobian function
 
 //defining the jacobian for 4D elements
-- 
2.43.0


From 9eda4d7eb4507e6d4e5adfca439e69ca217c3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 40/91] fix: compute the inverse of three-dimensional jacobians

---
 ristra/elements/elements.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1a9e66b..7979b8c 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -665,16 +665,16 @@ void jacobian_inverse_3d(
    real_t A_32 = jacobian[0][2]*jacobian[1][0] 
                  - jacobian[1][2]*jacobian[0][0];
 
-   real_t A_13 = jacobian[1][0]*jacobian[1][1] 
+   real_t A_13 = jacobian[1][0]*jacobian[2][1] 
                  - jacobian[2][0]*jacobian[1][1];
  
-   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_21 
-                + jacobian[0][2]*A_31;
+   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_12 
+                + jacobian[0][2]*A_13;
 
    J_inverse_matrix = {
-                      {A_11/det, A_12/det, A_13/det},
-                      {A_21/det, A_22/det, A_23/det},
-                      {A_31/det, A_32/det, A_33/det},
+                      {A_11/det, A_21/det, A_31/det},
+                      {A_12/det, A_22/det, A_32/det},
+                      {A_13/det, A_23/det, A_33/det},
                       };
 
     } // end of inverse jacobian 
-- 
2.43.0


From 24138a187847bff6fa343c97c65fb031ca4554c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 41/91] fix: correct a cofactor of the inverse of
 four-dimensional jacobians

---
 ristra/elements/elements.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 7979b8c..9fb0fc2 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -780,7 +780,7 @@ void jacobian_inverse_4d(
            - m[4]  * m[1] * m[15] 
            + m[4]  * m[3] * m[13] 
            + m[12] * m[1] * m[7] 
-           - m[12] * m[3] * m[6];
+           - m[12] * m[3] * m[5];
 
    inv[14] =-m[0]  * m[5] * m[14] 
            + m[0]  * m[6] * m[13] 
-- 
2.43.0


From e6b37a85ef8ca79ba3852416f0bb4c0c5853faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 42/91] fix: evaluate the basis of the twelve-node
 quadrilateral

---
 ristra/elements/elements.cc | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 9fb0fc2..ed41fdc 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -1257,26 +1257,28 @@ void Quad_12_2D::basis(
 
    // calculate the shape functions for node 0,1,2,3(xi,eta)
    for( int this_vert = 0; this_vert < 4; this_vert++ ){
-      basis[this_vert] = 1.0/4.0
-         * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
-         * (xi_2D_point[0]*ref_vert[this_vert][0] 
-         +  xi_2D_point[1]*ref_vert[this_vert][1] -1);
+      basis[this_vert] = 1.0/32.0
+         * (1 + ref_vert[this_vert][0] * xi_2D_point[0])
+         * (1 + ref_vert[this_vert][1] * xi_2D_point[1])
+         * (9.0 * (xi_2D_point[0] * xi_2D_point[0] 
+         + xi_2D_point[1] * xi_2D_point[1]) - (10.0));
    } // end for this_vert
 
 
-   // calculate the shape functions for node 4,6(xi,eta)
-   for( int this_vert = 4; this_vert <= 6; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
-         * (1.0 - xi_2D_point[0]*xi_2D_point[0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1]);
+   // calculate the shape functions for node 4-7(xi,eta)
+   for( int this_vert = 4; this_vert <= 7; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
+         * (1 - xi_2D_point[0] * xi_2D_point[0])
+         * (1 + xi_2D_point[1] * ref_vert[this_vert][1])
+         * (1 + 9.0 * xi_2D_point[0] * ref_vert[this_vert][0]);
    } // end for this_vert
 
-   // calculate the shape functions for node 5,7 (xi,eta)
-   for( int this_vert = 5; this_vert <= 7; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
-         * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 - xi_2D_point[1]*xi_2D_point[1]);
+   // calculate the shape functions for node 8-11 (xi,eta)
+   for( int this_vert = 8; this_vert <= 11; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
+         * (1 + xi_2D_point[0] * ref_vert[this_vert][0])
+         * (1 - xi_2D_point[1] * xi_2D_point[1])
+         * (1 + 9.0 * xi_2D_point[1] * ref_vert[this_vert][1]);
    } // end for this_vert
 }// end of quad12 basis functions
 
-- 
2.43.0


From 8268951d71bdd69310a78e9d8c5e32942b8909f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 43/91] fix: compute all coordinates of positions in arbitrary
 order elements

---
 ristra/elements/elements.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index ed41fdc..f9f9543 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2290,8 +2290,11 @@ void QuadN::physical_position (
    int nodes = orderN + 1;
    int numnodes_2d = nodes * nodes;
 
+   for (int dim = 0; dim < 2; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_2d; this_vert++ ){
-      for (int dim = 0; dim < 1; dim++){
+      for (int dim = 0; dim < 2; dim++){
          x_point[dim] += lag_nodes_2d[this_vert][dim]*lag_basis_2d[this_vert];
       } // end for dim
    } // end for this_vert
@@ -2572,8 +2575,11 @@ void HexN::physical_position (
    int nodes = orderN + 1;
    int numnodes_3d = nodes * nodes * nodes;
 
+   for (int dim = 0; dim < 3; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_3d; this_vert++ ){
-      for (int dim = 0; dim < 2; dim++){
+      for (int dim = 0; dim < 3; dim++){
          x_point[dim] += lag_nodes[this_vert][dim]*lag_basis_3d[this_vert];
       } // end for dim
    } // end for this_vert
-- 
2.43.0


From da34f67941368293490780bb4ba1b553511544e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 44/91] fix: use the table of reference vertices in the
 tesseract element

---
 ristra/elements/elements.cc | 4 ++--
 ristra/elements/elements.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index f9f9543..086351d 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2763,9 +2763,9 @@ void HexN::basis_partials (
  */
 
 
-int  num_nodes = 16;
+int  Tess16::num_nodes = 16;
 
-real_t ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
+real_t Tess16::ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
    {
    // Interior cube bottom
    {-1.0, -1.0, -1.0, -1.0},//0
diff --git a/ristra/elements/elements.h b/ristra/elements/elements.h
index 85739d0..66d52a8 100644
--- a/ristra/elements/elements.h
+++ b/ristra/elements/elements.h
@@ -742,9 +742,9 @@ class HexN{
 
 class Tess16: public Element4D {
    protected:
-      int  num_nodes;
+      static int  num_nodes;
 
-      real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
+      static real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
 
 
 
-- 
2.43.0


From 19d46d5d1eb3f9c4dc91ef0138681c42348ba13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 45/91] fix: reject Lua numbers an integral type cannot
 represent

---
 ristra/embedded/embed_lua.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index fc15b0b..70a5fd1 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -90,9 +90,16 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
-    auto i = lua_tointeger(s, index);
+    int is_integer = 0;
+    auto i = lua_tointegerx(s, index, &is_integer);
+    auto res = static_cast<T>(i);
+    // make sure the value is representable by the requested type
+    if ( !is_integer || static_cast<lua_Integer>(res) != i || (res<T{}) != (i<0) )
+      THROW_RUNTIME_ERROR( "Number is not representable by the requested "
+        "integral type."
+      );
     lua_remove(s,index);
-    return i;
+    return res;
   }
 };
 
-- 
2.43.0


From efb568b073ffccc4fe09f69e0ab2f6a72f985f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 46/91] fix: keep the length of strings read from Lua

---
 ristra/embedded/embed_lua.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 70a5fd1..0255bd9 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -161,7 +161,9 @@ struct lua_value<std::string>
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to string."
     );
-    auto str = lua_tostring(s, index);
+    std::size_t len = 0;
+    auto c_str = lua_tolstring(s, index, &len);
+    std::string str(c_str, len);
     lua_remove(s, index);
     return str;
   }
-- 
2.43.0


From b7fc5a6044800f0c66f58708692f788095768fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 47/91] fix: check the rows of matrices read from Lua

---
 ristra/embedded/embed_lua.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 0255bd9..36dd8b9 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -281,6 +281,10 @@ struct lua_value< Matrix<T,M,N> >
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
       lua_rawgeti(s, -1, i);  // push t[i]
+      if ( !lua_istable(s, -1) || lua_rawlen(s, -1) != N )
+        THROW_RUNTIME_ERROR( "Expecting row " << i << " to be an array of size "
+          << N
+        );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From c1de5adddb8db98e563effff8a7629237a7af0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 48/91] fix: reject sizes that Lua integers cannot represent

---
 ristra/embedded/embed_lua.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 36dd8b9..e6c8ac4 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -317,6 +317,8 @@ inline std::size_t lua_push(lua_State * s, int i)
 /// \param [in] i  The size_t to push.
 inline std::size_t lua_push(lua_State * s, size_t i)
 {
+  if ( i > static_cast<size_t>(LUA_MAXINTEGER) )
+    THROW_RUNTIME_ERROR( "Integer is too large for lua: " << i );
   lua_pushinteger( s, i );
   return 1;
 }
-- 
2.43.0


From 5a0cbd611af02d58323788cf7869c7128cfb8496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 49/91] fix: pop only the table after a Lua table lookup

---
 ristra/embedded/embed_lua.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index e6c8ac4..7b9c6fb 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -876,7 +876,7 @@ public:
     auto len = lua_rawlen(s, -1);
     // get a reference to the result, and pop the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
+    lua_pop(s, 1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -899,7 +899,7 @@ public:
     auto len = lua_rawlen(s, -1);
     // get a reference to the result, and pop the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
+    lua_pop(s, 1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
-- 
2.43.0


From 14f532b77bdd2de4e094be1d5b2a668a2834791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 50/91] fix: let the Lua function wrapper refer to its own copy
 of the function

---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 7b9c6fb..da00c5a 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -957,7 +957,7 @@ struct Lua_Func_Wrapper<std::function<Ret(Args...)>> {
 
   /**\brief Construct from reference to lua_result_t */
   explicit Lua_Func_Wrapper(lua_result_t & lf)
-    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(lf)
+    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(*plua_func_)
   {
   }
 
-- 
2.43.0


From aaa8c45477e6a1a9eea2e48af6f7f3b516dade8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 51/91] fix: restore the Lua stack when an operation fails

---
 ristra/embedded/embed_lua.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index da00c5a..d08be71 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -59,6 +59,16 @@ namespace embedded {
       "\' does not exist in the lua state you are accessing."                  \
     )
 
+//! \brief Restores the height of the lua stack at the end of the scope.
+struct lua_stack_guard_t {
+  lua_State * state;
+  int top;
+  explicit lua_stack_guard_t(lua_State * s) : state(s), top(lua_gettop(s)) {}
+  lua_stack_guard_t(const lua_stack_guard_t &) = delete;
+  lua_stack_guard_t & operator=(const lua_stack_guard_t &) = delete;
+  ~lua_stack_guard_t() { lua_settop(state, top); }
+};
+
 //! \brief Use a shared pointer to the lua state.
 //! Multiple objects may use the same lua state, so we don't want to 
 //! destroy it unless all objects are destroyed.
@@ -762,6 +772,8 @@ public:
   explicit operator T() const {
     if ( refs_.size() != 1 )
       THROW_RUNTIME_ERROR( "Expecting 1 result, stack has " << refs_.size() );
+    // restores the stack, also if something fails
+    lua_stack_guard_t guard(state());
     push_last();
     return lua_value<T>::get(state());
   }
@@ -777,6 +789,8 @@ public:
       THROW_RUNTIME_ERROR( 
         "Expecting "<<N<<" results, stack has " << refs_.size() 
       );
+    // restores the stack, also if something fails
+    lua_stack_guard_t guard(state());
     push_all();
     Tup tup;
     get_results<Tup,0,Args...>(tup);
@@ -817,6 +831,8 @@ public:
     // get the current stack position ( the function and arguments will get
     // deleted from the stack after the function call )
     auto pos0 = lua_gettop(s);
+    // restores the stack, also if something fails
+    lua_stack_guard_t guard(state());
     // push the function onto the stack
     check_stack(1);
     push_last();
@@ -863,6 +879,8 @@ public:
   {
     auto s = state();
     auto new_name = name_+".[\""+key+"\"]";
+    // restores the stack, also if something fails
+    lua_stack_guard_t guard(state());
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
@@ -889,6 +907,8 @@ public:
   {
     auto s = state();
     auto new_name = name_+"["+std::to_string(n)+"]";
+    // restores the stack, also if something fails
+    lua_stack_guard_t guard(state());
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
@@ -994,6 +1014,8 @@ public:
   /// \return The lua error code.
   bool run_string( const std::string & script )
   {
+    // restores the stack, also if something fails
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dostring(state(),script.c_str());
     if ( ret ) {
       print_last_row();
@@ -1006,6 +1028,8 @@ public:
   /// \param [in] file  The file to load.
   void loadfile( const std::string & file )
   {
+    // restores the stack, also if something fails
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dofile(state(),file.c_str());
     if ( ret ) {
       print_last_row();
-- 
2.43.0


From a1b7c396f11413684345c8f2a4d12fc21e0678c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:36 +0000
Subject: [PATCH 52/91] fix: read Lua arrays from the requested stack position

---
 ristra/embedded/embed_lua.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index d08be71..98aecf8 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -200,13 +200,15 @@ struct lua_value< Vector<T,Allocator> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    // the table may be anywhere in the stack
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     // extract the results
     Vector<T,Allocator> res;
     res.reserve(n);
     for ( int i=1; i<=n; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res.emplace_back( lua_value<T>::get(s) );
     }
     // remove it from the stack
@@ -237,8 +239,10 @@ struct lua_value< Array<T,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    // the table may be anywhere in the stack
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != N )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<N<<", stack array is size " << n
@@ -246,7 +250,7 @@ struct lua_value< Array<T,N> >
     // extract the results
     Array<T,N> res;
     for ( int i=1; i<=std::min(n,N); ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res[i-1] = lua_value<T>::get(s);
     }
     // remove it from the stack
@@ -281,8 +285,10 @@ struct lua_value< Matrix<T,M,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to multiarray."
     );
+    // the table may be anywhere in the stack
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != M )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<M<<", stack array is size " << n
@@ -290,7 +296,7 @@ struct lua_value< Matrix<T,M,N> >
     // extract the results
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       if ( !lua_istable(s, -1) || lua_rawlen(s, -1) != N )
         THROW_RUNTIME_ERROR( "Expecting row " << i << " to be an array of size "
           << N
-- 
2.43.0


From d96c2a6923b01eb953fa2b597b5eeba45bfdc064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:36 +0000
Subject: [PATCH 53/91] fix: keep hard-coded input values when they are looked
 up

---
 ristra/initialization/input_source.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index e4be871..f905a37 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -105,7 +105,7 @@ class hard_coded_source_t : public input_source<hard_coded_source_t>
     auto it = reg.find(k);
     bool found(false);
     if (reg.end() != it) {
-      t = std::move(it->second);
+      t = it->second;
       found = true;
     }
     return found;
-- 
2.43.0


From af0bc2422d231a399ba27bded7380dadac23332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:36 +0000
Subject: [PATCH 54/91] fix: rethrow the original error from Lua input sources

---
 ristra/initialization/input_source.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index f905a37..a35b8e8 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -257,12 +257,12 @@ class lua_source_t : public input_source<lua_source_t>
       }  catch (std::exception & x) {
         printf("%s:%i Failed to find the table '%s' for the key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, from_name.c_str(),key.c_str());
-        throw x;
+        throw;
       }
     } catch (std::exception & x) {
       printf("%s:%i Failed to find any table associated with key '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, key.c_str());
-      throw x;
+      throw;
     }
     return sz;
   } // get_size
@@ -291,12 +291,12 @@ class lua_source_t : public input_source<lua_source_t>
         } catch (std::exception & x) {
           printf("%s:%i Failed to find table '%s'\n", __PRETTY_FUNCTION__,
             __LINE__, from_name.c_str());
-          throw x;
+          throw;
         }
       } catch (std::exception & x) {
         printf("%s:%i Failed to find table associated with key '%s'\n",
           __PRETTY_FUNCTION__, __LINE__, k.c_str());
-        throw x;
+        throw;
       }
       return found;
     }
@@ -319,7 +319,7 @@ class lua_source_t : public input_source<lua_source_t>
     } catch (std::exception & x) {
       printf("%s:%i Failed to find table named '%s'\n",
         __PRETTY_FUNCTION__, __LINE__, table_name.c_str());
-      throw x;
+      throw;
     }
   } // get_table
 
-- 
2.43.0


From 60100778c2360f7af6bb26ee03f6ec701e6ccf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 55/91] fix: report keys unknown to a Lua input source as
 missing

---
 ristra/initialization/input_source.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index a35b8e8..7274e22 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -272,6 +272,10 @@ class lua_source_t : public input_source<lua_source_t>
   struct value_getter {
     bool get_value(str_cr_t k, T & t, lua_source_t & ls)
     {
+      // keys that were never associated with a table are not provided
+      if (0 == ls.m_table_map.count(k)) {
+        return false;
+      }
       // check if there is a Lua key distinct from k
       str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
       bool found = true;
@@ -381,6 +385,10 @@ template <>
 struct lua_source_t::value_getter<embedded::lua_result_uptr_t> {
   bool get_value(str_cr_t k, embedded::lua_result_uptr_t & t, lua_source_t & ls)
   {
+    // keys that were never associated with a table are not provided
+    if (0 == ls.m_table_map.count(k)) {
+      return false;
+    }
     // check if there is a Lua key distinct from k
     str_cr_t l_key(1 == ls.m_lua_key.count(k) ? ls.m_lua_key[k] : k);
     // now recover the table to look in
-- 
2.43.0


From 7da4b136342e0be72697a516bb7ba57815b2e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:09 +0000
Subject: [PATCH 56/91] fix: forget the old Lua key when an input is registered
 again

---
 ristra/initialization/input_source.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index 7274e22..3ab214c 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -218,6 +218,8 @@ class lua_source_t : public input_source<lua_source_t>
     m_table_map[key] = t_name;
     if (!lua_key.empty()) {
       m_lua_key[key] = lua_key;
+    } else {
+      m_lua_key.erase(key);
     }
     return will_replace;
   }
-- 
2.43.0


From bfe7f65ba6718ea938dce57dc656fa08ea126693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:09 +0000
Subject: [PATCH 57/91] fix: load Lua tables by their Lua key and replace
 earlier definitions

---
 ristra/initialization/input_source.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index 3ab214c..8be880d 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -350,11 +350,15 @@ class lua_source_t : public input_source<lua_source_t>
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
+    // use the lua key of the table, if there is one
+    str_cr_t l_key(
+      1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, load_name));
+      m_tables.insert_or_assign(
+        load_name, lua_try_access(m_lua_state, l_key));
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(from_state, l_key));
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From d3311a08b18982aeaa889ca2fa19fdd7b0bd6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:09 +0000
Subject: [PATCH 58/91] fix: let function inputs be resolved again

---
 ristra/initialization/input_engine.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 938e6d0..bfae8f8 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -504,12 +504,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            // auto ins_pr =
-            hc_registry.insert(std::make_pair(target, f));
-            // bool inserted = ins_pr.second;
-            // Could have some error checking on whether the thing was
-            // inserted: if it weren't, that might mean this key is already
-            // inhabited, and that would be unexpected.
+            hc_registry[target] = f;
             continue;
           }
         }
@@ -594,7 +589,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry.insert(std::make_pair(target, f));
+          hc_registry[target] = f;
         }
       }
       return found_target;
-- 
2.43.0


From eea445fe810417e44a91b78b298936741332fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:09 +0000
Subject: [PATCH 59/91] fix: name only the inputs the latest resolution missed

---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index bfae8f8..9e7f071 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -429,6 +429,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<T>());
       registry<T> & the_registry(inp.get_registry<T>());
       failed_set_t & failures(inp.get_failed_target_set<T>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
@@ -484,6 +485,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<func_t>());
       registry<func_t> & hc_registry(inp.get_registry<func_t>());
       failed_set_t & failures(inp.get_failed_target_set<func_t>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
-- 
2.43.0


From 89b7b2209607ad030db33b96442f22ffc4c06d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:09 +0000
Subject: [PATCH 60/91] fix: judge the current value in init_value_t::valid

---
 ristra/initialization/init_value.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c6b95fd..8623715 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -100,18 +100,13 @@ class init_value_t
   /**\brief Was a valid */
   bool valid() 
   {
-    if (status_t::valid == m_status) {
-      return true;
-    }
-    if (status_t::invalid == m_status) {
-      return false;
-    }
+    // the value may have been resolved again since the last check
     bool reslvd = resolved();
     if (!reslvd) {
       return false;
     }
     input_engine ie;
-    T & t(ie.template get_value<T>(full_name()));
+    get_return_t t(ie.template get_value<T>(full_name()));
     bool valid = m_valid(t);
     m_status = valid ? status_t::valid : status_t::invalid;
     return valid;
-- 
2.43.0


From 90f7d9c0edcb8b0df387ee9cdbe2b5a6ce0c5462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:24 +0000
Subject: [PATCH 61/91] fix: let Lua results be read as matrices

---
 ristra/embedded/embed_lua.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 98aecf8..c4dfca0 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -808,13 +808,13 @@ public:
   /// \return The typecast value.
   template< typename T >
   T as() const {
-    return static_cast<T>(*this);
+    return operator T();
   }
   
   template< typename T >
   T as(const T & def ) const {
     if (empty()) return def;
-    else return static_cast<T>(*this);
+    else return operator T();
   }
   
   /// \brief Explicit type conversion operators for tuples.
-- 
2.43.0


From 0604fc5d1dce0cd8f033dd42db1ce05f7c13f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:33 +0000
Subject: [PATCH 62/91] fix: do not judge a Lua call without results by what
 was on the stack before

---
 ristra/embedded/embed_lua.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index c4dfca0..029532a 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -862,12 +862,14 @@ public:
       print_last_row();
       THROW_RUNTIME_ERROR("Problem calling \"" << name_ << "\".");
     }
-    // make sure the result is non nill
-    check_result(name_);
     // figure out how much the stack grew
     pos1 = lua_gettop(s);
     auto num_results = pos1 - pos0;
     assert( num_results >= 0 );
+    // make sure there is a result and that it is non nill
+    if (num_results == 0)
+      THROW_RUNTIME_ERROR("\"" << name_ << "\" returned nothing.");
+    check_result(name_);
     // because there could be multiple results, get a reference to each one
     std::vector<lua_ref_t> ref_list;
     ref_list.reserve( num_results );
-- 
2.43.0


From ce76e738e2748ce26eb941674602d88729199938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 63/91] fix: give the caller of python_add_to_path a reference
 of its own

---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 258cc43..5d310c0 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -150,6 +150,8 @@ auto python_add_to_path( std::string path )
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
   Py_DECREF(pname);
+  // the caller frees what it is given, but PySys_GetObject only lends it
+  Py_INCREF(syspath);
   return syspath; 
 } 
 
-- 
2.43.0


From 511b9d4c70afaa651131fa0d562602f2b724e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 64/91] fix: report python values that cannot be converted, and
 read integral reals as integers

---
 ristra/embedded/embed_python.h | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 5d310c0..631cec3 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -19,6 +19,9 @@
 // use python
 #include <Python.h>
 
+// system includes
+#include <cmath>
+
 namespace ristra {
 namespace embedded {
 
@@ -167,12 +170,38 @@ auto python_get_attribute( PyObject * py_module, std::string attribute )
 
 inline auto python_as_long( PyObject * py_value )
 {
-  return PyLong_AsLong( py_value );
+  long res = -1;
+  if (PyFloat_Check(py_value)) {
+    // a real without a fraction is an integer, anything else is not
+    auto real = PyFloat_AsDouble(py_value);
+    PyObject * pint = nullptr;
+    if (std::floor(real) == real)
+      pint = PyLong_FromDouble(real);
+    else
+      PyErr_SetString(PyExc_TypeError, "real number is not an integer");
+    if (pint) {
+      res = PyLong_AsLong(pint);
+      Py_DECREF(pint);
+    }
+  }
+  else {
+    res = PyLong_AsLong(py_value);
+  }
+  if (PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to an integer.");
+  }
+  return res;
 }
 
 inline auto python_as_double( PyObject * py_value )
 {
-  return PyFloat_AsDouble( py_value );
+  auto res = PyFloat_AsDouble( py_value );
+  if (PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to a real.");
+  }
+  return res;
 }
 
 auto python_get_value( long arg )
-- 
2.43.0


From 97a9199b37a874385b4977bc3986d6838c7adce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 65/91] fix: report python scripts that fail

---
 ristra/embedded/embed_python.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 631cec3..696159e 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -105,7 +105,8 @@ void python_finalize( void )
 
 void python_run_string( std::string exec )
 {
-  PyRun_SimpleString( exec.c_str() );
+  if (PyRun_SimpleString( exec.c_str() ))
+    THROW_RUNTIME_ERROR("Problem running python script.");
 } 
 
 auto python_import( std::string name ) 
-- 
2.43.0


From 8b5b8e94024199a19b19f83c59c864d6dc3afffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 66/91] fix: free names and arguments when a python import or
 call fails

---
 ristra/embedded/embed_python.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 696159e..e9bf80b 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -121,11 +121,11 @@ auto python_import( std::string name )
     THROW_RUNTIME_ERROR("Cannot decode module name \"" << name << "\"");
   }
   auto pmodule = PyImport_Import(pname);
+  Py_DECREF(pname);
   if (!pmodule) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot import module \"" << name << "\"");
   }
-  Py_DECREF(pname);
   return pmodule;
 }
 
@@ -310,11 +310,11 @@ auto python_call_function( PyObject * py_func, Args&&... args )
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
   auto pval = PyObject_CallObject(py_func, pargs);
+  Py_DECREF(pargs);
   if (!pval) {
     python_check();
     THROW_RUNTIME_ERROR("Problem calling function.");
   }
-  Py_DECREF(pargs);
   return pval;
 }
 
-- 
2.43.0


From 890f8d80c1fe648e1df08df00e31ac13a91f1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 67/91] fix: let python functions be called without arguments

---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index e9bf80b..aa74250 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -266,6 +266,8 @@ void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 
 namespace detail {
 
+inline void python_build_args( PyObject *, std::size_t ) {}
+
 template< typename Arg >
 void python_build_args( PyObject * py_args, std::size_t i, Arg&& arg )
 {
-- 
2.43.0


From 84f7226343ce8645220651db57c90d451b3c5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 68/91] fix: do not treat other python values as tuples

---
 ristra/embedded/embed_python.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index aa74250..0542ca7 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -232,6 +232,8 @@ auto python_get_value( double arg )
 
 auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
 {
+  if (!PyTuple_Check(py_tup))
+    THROW_RUNTIME_ERROR("Value is not a tuple.");
   auto n = PyTuple_GET_SIZE(py_tup);
   if (i>=n) {
     python_check();
@@ -249,6 +251,8 @@ auto python_get_tuple_element( PyObject * py_tup, std::size_t i )
 template< typename Arg >
 void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 {
+  if (!PyTuple_Check(py_tup))
+    THROW_RUNTIME_ERROR("Value is not a tuple.");
   auto n = PyTuple_GET_SIZE(py_tup);
   if (i>=n) {
     python_check();
-- 
2.43.0


From b3e7507150d6e5bb3fddbfe67754b05cd6c65054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:10 +0000
Subject: [PATCH 69/91] fix: let RISTRA_DBC_ACTION select the design by
 contract action

---
 CMakeLists.txt | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 6079fd4..c52b386 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -114,6 +114,13 @@ set(RISTRA_DBC_ACTION "${RISTRA_DBC_ACTION}" CACHE STRING
   "Select the design by contract action")
 set_property(CACHE RISTRA_DBC_ACTION PROPERTY STRINGS ${RISTRA_DBC_ACTIONS})
 
+# the definitions that end up in ristra-config.h
+if(RISTRA_DBC_ACTION STREQUAL "throw")
+  set(RISTRA_DBC_THROW ON)
+elseif(RISTRA_DBC_ACTION STREQUAL "notify")
+  set(RISTRA_DBC_NOTIFY ON)
+endif()
+
 set(RISTRA_DBC_REQUIRE ON CACHE BOOL
   "Enable DBC Pre/Post Condition Assertions")
 
-- 
2.43.0


From bac4a8c5661054d2dae7c9bc16e5e4764de9ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:10 +0000
Subject: [PATCH 70/91] fix: let RISTRA_DBC_REQUIRE enable the contract
 assertions

---
 ristra/ristra-config.h.in | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ristra/ristra-config.h.in b/ristra/ristra-config.h.in
index 137677c..e1f34d3 100644
--- a/ristra/ristra-config.h.in
+++ b/ristra/ristra-config.h.in
@@ -43,6 +43,11 @@
 // Pre/Post Condition Assertions
 #cmakedefine RISTRA_DBC_REQUIRE
 
+// the name the assertions know this by
+#ifdef RISTRA_DBC_REQUIRE
+#define RISTRA_REQUIRE_ON
+#endif
+
 //----------------------------------------------------------------------------//
 // Configuration
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 8463dd074a608f08eaa92b93e849cc77119f7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:42 +0000
Subject: [PATCH 71/91] fix: keep assert_true from taking the else branch of a
 surrounding if

---
 ristra/assertions/errors.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/assertions/errors.h b/ristra/assertions/errors.h
index e1ce61d..eac1eb9 100644
--- a/ristra/assertions/errors.h
+++ b/ristra/assertions/errors.h
@@ -79,8 +79,10 @@
 //! \param[in] msg  the message to display
 ////////////////////////////////////////////////////////////////////////////////
 #define assert_true(cond, msg)                                          \
-  if ( ! (cond) )                                                       \
-    THROW_RUNTIME_ERROR("Assertion falied: " << msg)
+  do {                                                                  \
+    if ( ! (cond) )                                                     \
+      THROW_RUNTIME_ERROR("Assertion falied: " << msg);                 \
+  } while(0)
 
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief Display a warning.
-- 
2.43.0


From b859c4a2277f661fa1b32fece20aa2ff7ef98833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 72/91] fix: include what filter_iterator.h uses

---
 ristra/utils/filter_iterator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 984e5ce..e33a9b6 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -8,7 +8,11 @@
 ////////////////////////////////////////////////////////////////////////////////    
 #pragma once
 
-// user includes
+// system includes
+#include <cstddef>
+#include <iterator>
+#include <type_traits>
+#include <utility>
 
 namespace ristra {
 namespace utils {
-- 
2.43.0


From 6f1fa9ede8c869f1dced6c71a05aa1a16126a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 73/91] fix: dereference the underlying iterator in
 filter_iterator

---
 ristra/utils/filter_iterator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index e33a9b6..96efc75 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -11,6 +11,7 @@
 // system includes
 #include <cstddef>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -102,10 +103,10 @@ public:
   //============================================================================
   
   //! \brief return the current value
-  constexpr reference operator*() const noexcept { return iter_; }
+  constexpr reference operator*() const noexcept { return *iter_; }
 
   //! \brief return a pointer to the current value
-  constexpr pointer operator->() const noexcept { return &iter_; }
+  constexpr pointer operator->() const noexcept { return std::addressof(*iter_); }
 
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
-- 
2.43.0


From eb3abe5157db26050f1720e03974a418eac4f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 74/91] fix: visit every selected element once in
 filter_iterator

---
 ristra/utils/filter_iterator.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 96efc75..4e819a3 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -57,7 +57,8 @@ public:
   //!        no default constructor either
   constexpr filter_iterator( 
     Predicate pred, Iterator first, Iterator last = Iterator() ) noexcept
-    : pred_( pred ), iter_(first), end_(last) {}
+    : pred_( pred ), iter_(first), end_(last)
+  { satisfy_predicate(); }
 
   template<
     class OtherIterator,
@@ -111,10 +112,8 @@ public:
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
   {
-    for (; iter_ != end_ ; ++iter_) {
-      if ( pred_(*iter_) )
-        return *this;
-    }
+    ++iter_;
+    satisfy_predicate();
     return *this;
   }
 
@@ -158,6 +157,12 @@ public:
 
 private:
 
+  //! \brief move on to the first position that satisfies the predicate
+  constexpr void satisfy_predicate() noexcept
+  {
+    while ( iter_ != end_ && !pred_(*iter_) ) ++iter_;
+  }
+
   //============================================================================
   /// \name private data
   //============================================================================
-- 
2.43.0


From 73d1394d333424bdf713513bf862fa17d13ea660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 75/91] fix: keep the range when converting between
 filter_iterators

---
 ristra/utils/filter_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 4e819a3..fc7cd53 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -67,7 +67,7 @@ public:
   >
   filter_iterator( 
     filter_iterator<Predicate, OtherIterator> const& other ) noexcept
-    : pred_( other.predicate() ), iter_( *other ), end_( end() )
+    : pred_( other.predicate() ), iter_( other.begin() ), end_( other.end() )
   {}
 
   //! \brief default copy constructor
-- 
2.43.0


From 39bf9767c54da707def1b0156bea5f19310213a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 76/91] fix: store values, not references, in
 make_filter_iterator

---
 ristra/utils/filter_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index fc7cd53..424700f 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -186,12 +186,12 @@ private:
 ////////////////////////////////////////////////////////////////////////////////    
 
 template <class Predicate, class Iterator>
-auto make_filter_iterator( Iterator && first, Iterator && last, Predicate && pred ) 
+auto make_filter_iterator( Iterator first, Iterator last, Predicate && pred ) 
 {
-  return filter_iterator<Predicate, Iterator>( 
+  return filter_iterator<std::decay_t<Predicate>, Iterator>( 
     std::forward<Predicate>(pred), 
-    std::forward<Iterator>(first), 
-    std::forward<Iterator>(last)
+    std::move(first), 
+    std::move(last)
   );
 }
 
-- 
2.43.0


From 11412f74bab1408cec44ea0dab5b57d2ad1ad320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 77/91] fix: do not claim more than a forward iterator in
 filter_iterator

---
 ristra/utils/filter_iterator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 424700f..16e36a1 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -38,7 +38,13 @@ public:
   using difference_type = typename std::iterator_traits<Iterator>::difference_type;
   using pointer = typename std::iterator_traits<Iterator>::pointer;
   using reference = typename std::iterator_traits<Iterator>::reference;
-  using iterator_category = typename std::iterator_traits<Iterator>::iterator_category;
+  //! \remark filtering supports stepping forward only
+  using iterator_category = std::conditional_t<
+    std::is_convertible<
+      typename std::iterator_traits<Iterator>::iterator_category,
+      std::forward_iterator_tag >::value,
+    std::forward_iterator_tag,
+    typename std::iterator_traits<Iterator>::iterator_category >;
 
   //! \brief the size type
   using size_type = std::size_t;
-- 
2.43.0


From 9d5f8591866d3020b8b9f73e9febe58a2f96ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:51 +0000
Subject: [PATCH 78/91] fix: swap the predicates of filter_iterators

---
 ristra/utils/filter_iterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 16e36a1..b44feee 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -155,6 +155,8 @@ public:
   //! \param [in] rhs the other iterator to swap with
   void swap(filter_iterator& rhs) noexcept
   {
+    if constexpr ( !std::is_empty<Predicate>::value )
+      std::swap(pred_, rhs.pred_);
     std::swap(iter_, rhs.iter_);
     std::swap(end_, rhs.end_);
   }
-- 
2.43.0


From 99a6770fef8d73a85762cad4c813ad92db6b46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:29 +0000
Subject: [PATCH 79/91] fix: let extract_extents return the extents

---
 ristra/utils/type_traits.h      |  2 +-
 ristra/utils/type_traits_impl.h | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ristra/utils/type_traits.h b/ristra/utils/type_traits.h
index 7dbb32a..c1921cf 100644
--- a/ristra/utils/type_traits.h
+++ b/ristra/utils/type_traits.h
@@ -183,7 +183,7 @@ template <typename T>
 constexpr auto & extract_extents()
 {
   using Indices = std::make_index_sequence<std::rank<T>::value>;
-  return detail::extract_extents_helper<T>(Indices{});
+  return detail::extract_extents_helper<T, Indices>::value;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
diff --git a/ristra/utils/type_traits_impl.h b/ristra/utils/type_traits_impl.h
index e18d6f0..b704cd6 100644
--- a/ristra/utils/type_traits_impl.h
+++ b/ristra/utils/type_traits_impl.h
@@ -103,13 +103,14 @@ struct is_container {
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief A helper to extract the extents from an array.
 ////////////////////////////////////////////////////////////////////////////////
+template <typename T, typename Indices>
+struct extract_extents_helper;
+
 template <typename T, std::size_t... I>
-constexpr auto extract_extents_helper(std::index_sequence<I...>)
-{
-  constexpr std::size_t extents[std::rank<T>::value] = {
+struct extract_extents_helper<T, std::index_sequence<I...>> {
+  static constexpr std::size_t value[std::rank<T>::value] = {
     std::extent<T, I>::value...};
-  return extents;
-}
+};
 
 } // detail::
 } // utils::
-- 
2.43.0


From 1ec54822e8e12858375c1deae50f894419738c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:58 +0000
Subject: [PATCH 80/91] fix: lua_try_access inside an expression gave another
 value

---
 ristra/embedded/embed_lua.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 029532a..1be5921 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -44,20 +44,20 @@ namespace embedded {
 
 
 #define lua_try_access_as(state, key, ...)                                     \
-  (!state[key].empty()) ?                                                      \
-    state[key].template as<__VA_ARGS__>() :                                             \
+  ((!(state)[key].empty()) ?                                                      \
+    (state)[key].template as<__VA_ARGS__>() :                                             \
     throw std::runtime_error(                                                  \
-      "\'" + state[key].name() +                                               \
+      "\'" + (state)[key].name() +                                               \
       "\' does not exist in the lua state you are accessing."                  \
-    )
+    ))
 
 #define lua_try_access(state, key)                                             \
-  (!state[key].empty()) ?                                                      \
-    state[key] :                                                               \
+  ((!(state)[key].empty()) ?                                                      \
+    (state)[key] :                                                               \
     throw std::runtime_error(                                                  \
-      "\'" + state[key].name() +                                               \
+      "\'" + (state)[key].name() +                                               \
       "\' does not exist in the lua state you are accessing."                  \
-    )
+    ))
 
 //! \brief Restores the height of the lua stack at the end of the scope.
 struct lua_stack_guard_t {
-- 
2.43.0


From e04c9637cafa7f921876465b41ee4ba754aa2437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:58 +0000
Subject: [PATCH 81/91] fix: inputs_try_access inside an expression gave
 another value

---
 ristra/initialization/input.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ristra/initialization/input.h b/ristra/initialization/input.h
index 8df6566..2a5808a 100644
--- a/ristra/initialization/input.h
+++ b/ristra/initialization/input.h
@@ -25,20 +25,20 @@ namespace ristra {
 namespace initialization {
 
 #define inputs_try_access_as(state, key, ...)                                  \
-  (!state[key].empty()) ?                                                      \
-    state[key].template as<__VA_ARGS__>() :                                             \
+  ((!(state)[key].empty()) ?                                                      \
+    (state)[key].template as<__VA_ARGS__>() :                                             \
     throw std::runtime_error(                                                  \
-      "\'" + state[key].name() +                                               \
+      "\'" + (state)[key].name() +                                               \
       "\' does not exist in the input state you are accessing."                \
-    )
+    ))
 
 #define inputs_try_access(state, key)                                          \
-  (!state[key].empty()) ?                                                      \
-    state[key] :                                                               \
+  ((!(state)[key].empty()) ?                                                      \
+    (state)[key] :                                                               \
     throw std::runtime_error(                                                  \
-      "\'" + state[key].name() +                                               \
+      "\'" + (state)[key].name() +                                               \
       "\' does not exist in the input state you are accessing."                \
-    )
+    ))
 
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 67959666984f11da57995e6acb633d555ed522d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 82/91] fix: insituTimer.hpp did not compile on its own

---
 ristra/io/catalyst/utils/insituTimer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/io/catalyst/utils/insituTimer.hpp b/ristra/io/catalyst/utils/insituTimer.hpp
index 71ecf23..3248bb2 100644
--- a/ristra/io/catalyst/utils/insituTimer.hpp
+++ b/ristra/io/catalyst/utils/insituTimer.hpp
@@ -3,6 +3,7 @@
 #include <chrono>
 #include <string>
 #include <ctime>
+#include <iostream>
 #include <sstream>
 #include <map>
 
-- 
2.43.0


From 2452043975e4102ec70b0d121455f03b1ef051a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 83/91] fix: catalystUtils.hpp did not compile on its own

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 95f8b7f..e685f9f 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -3,6 +3,7 @@
 #include <vector>
 #include <string>
 #include <fstream>
+#include <iostream>
 #include <iterator>
 #include <string>
 #include <algorithm>
-- 
2.43.0


From 727b81a32af9909bba4f7ca4be33e9958b5935e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 84/91] fix: catalyst scripts beside an input file without
 directory were not found

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index e685f9f..4485b71 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -21,7 +21,8 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
       //
       // Find the path 
       std::size_t foundBackslash = inputFilename.find_last_of("/");
-      std::string catalystPath = inputFilename.substr(0,foundBackslash);
+      std::string catalystPath = (foundBackslash == std::string::npos) ?
+        "." : inputFilename.substr(0,foundBackslash);
 
       //
       // Pass JSON file to json parser and
-- 
2.43.0


From 018acfc935a516536c43d24a310f21dd9c1a4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 85/91] fix: replacing a text that does not occur raised an
 error

---
 ristra/io/catalyst/utils/catalystUtils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/io/catalyst/utils/catalystUtils.hpp b/ristra/io/catalyst/utils/catalystUtils.hpp
index 4485b71..0359af1 100644
--- a/ristra/io/catalyst/utils/catalystUtils.hpp
+++ b/ristra/io/catalyst/utils/catalystUtils.hpp
@@ -50,6 +50,8 @@ inline std::vector<std::string> getCatalystScripts(std::string inputFilename)
 inline std::string replaceInString(std::string original, std::string stringToReplace, std::string replacement)
 {
   auto found = original.find(stringToReplace);
+  if (found == std::string::npos)
+    return original;
   original.replace(found, stringToReplace.length(), replacement);
 
   return original;
-- 
2.43.0


From 4941d44229166b9e8c463bb1dee0f585ca5c3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 86/91] fix: finalizeAdaptor returned nothing

---
 ristra/io/catalyst/adaptor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/io/catalyst/adaptor.h b/ristra/io/catalyst/adaptor.h
index 71d6f37..f1750fd 100644
--- a/ristra/io/catalyst/adaptor.h
+++ b/ristra/io/catalyst/adaptor.h
@@ -127,6 +127,8 @@ inline vtkCPProcessor* finalizeAdaptor(vtkCPProcessor* processor)
 
   clock.stop("finalizeAdaptor");
   std::cout << "Finalize Catalyst Adaptor:" << clock.getDuration("finalizeAdaptor") << " s" << std::endl;
+
+  return processor;
 }
 
 
-- 
2.43.0


From d069587110b445f1ec9144cf42ae1595aaa5c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 87/91] fix: initVTKUnstructuredGrid did not create the grid

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index a00021b..32e194b 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -89,7 +89,7 @@ auto validate_string = []( auto && str )
 };
 
 
-inline void initVTKUnstructuredGrid(vtkSmartPointer<vtkUnstructuredGrid> grid)
+inline void initVTKUnstructuredGrid(vtkSmartPointer<vtkUnstructuredGrid> & grid)
 {
 	grid = vtkSmartPointer<vtkUnstructuredGrid>::New();
 }
-- 
2.43.0


From a94c0e6fa11f04ac4724d4263869146287b36e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 88/91] fix: createMesh wrote past the coordinates of
 two-dimensional meshes

---
 ristra/io/catalyst/flecsale_unstructuredGrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/io/catalyst/flecsale_unstructuredGrid.h b/ristra/io/catalyst/flecsale_unstructuredGrid.h
index 32e194b..6fd2e54 100644
--- a/ristra/io/catalyst/flecsale_unstructuredGrid.h
+++ b/ristra/io/catalyst/flecsale_unstructuredGrid.h
@@ -287,7 +287,7 @@ inline vtkSmartPointer<vtkUnstructuredGrid> createMesh(mesh_t &m)
     	int count = 0;
       	for ( int i=0; i<num_dims; i++ )
       	{
-      		vertex_coord[ v.id()*3 + i] = coords[i];
+      		vertex_coord[ v.id()*num_dims + i] = coords[i];
       		vertex.push_back(coords[i]);
       		count++;
       	}
-- 
2.43.0


From 888f5c4168fd1a1f3cd22ad7bd681bb95f0dbe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 89/91] fix: UnstructuredGrid was unusable after reset

---
 ristra/io/catalyst/vtk/unstructuredGrid.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/io/catalyst/vtk/unstructuredGrid.h b/ristra/io/catalyst/vtk/unstructuredGrid.h
index 121dbe5..d55d7bd 100644
--- a/ristra/io/catalyst/vtk/unstructuredGrid.h
+++ b/ristra/io/catalyst/vtk/unstructuredGrid.h
@@ -288,8 +288,12 @@ inline void UnstructuredGrid::pushPointsToGrid()
 
 inline void UnstructuredGrid::reset()
 {
-	pnts->Delete();
-	cells->Delete();
+	pnts = vtkSmartPointer<vtkPoints>::New();
+	cells = vtkSmartPointer<vtkCellArray>::New();
+	pointIDs.clear();
+
+	numOfPoints = 0;
+	numOfCells = 0;
 
 	idx = 0;
 }
-- 
2.43.0


From c57c545f538444e02e0532a90c0c535d52af2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:12 +0000
Subject: [PATCH 90/91] fix: time_utils.h could not be included on its own or
 by two source files

---
 ristra/utils/time_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/time_utils.h b/ristra/utils/time_utils.h
index dd7a553..fced339 100644
--- a/ristra/utils/time_utils.h
+++ b/ristra/utils/time_utils.h
@@ -10,6 +10,7 @@
 #pragma once
 
 #include "ristra/ristra-config.h"
+#include "ristra/assertions/errors.h"
 
 //! system includes
 #ifdef RISTRA_ENABLE_MPI
@@ -28,7 +29,7 @@ namespace utils {
 //! \brief Return the wall time counter.
 //! \return the wall time
 ////////////////////////////////////////////////////////////////////////////////
-double get_wall_time(void)
+inline double get_wall_time(void)
 {
 
 #ifdef RISTRA_ENABLE_MPI
@@ -60,7 +61,7 @@ double get_wall_time(void)
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief Convert seconds to days:hours:minutes:seconds.
 ////////////////////////////////////////////////////////////////////////////////
-void daysHoursMinutesSeconds( 
+inline void daysHoursMinutesSeconds( 
   const long long input_seconds, //!< [in] total number of seconds
   long long & days,              //!< [out] number of days
   int & hours,                   //!< [out] number of hours
-- 
2.43.0


From 6528efee96a6ef10cf8d30ee1fddcaa9e3c8e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:20 +0000
Subject: [PATCH 91/91] fix: dot_product of ranges of different types rounded
 to the first

---
 ristra/math/general.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index 7aca88a..b646699 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -163,7 +163,9 @@ auto max_element( const A<T,N...> & a )
 template< class InputIt1, class InputIt2 >
 auto dot_product( InputIt1 first1, InputIt1 last1, InputIt2 first2 )
 {
-  std::decay_t< decltype(*first1) > zero = 0;
+  std::common_type_t<
+    std::decay_t< decltype(*first1) >, std::decay_t< decltype(*first2) >
+  > zero = 0;
   return std::inner_product(first1, last1, first2, zero );
 }
 
-- 
2.43.0


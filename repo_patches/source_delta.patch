From c0d04310cad70bdf2e7ca07213d08da63204935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 01/32] fix: cross() of dynamic temporaries checked the sizes
 of moved-from vectors

---
 cml/vector/cross_node.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/vector/cross_node.tpp b/cml/vector/cross_node.tpp
index c5494a8..fa6601d 100644
--- a/cml/vector/cross_node.tpp
+++ b/cml/vector/cross_node.tpp
@@ -17,8 +17,8 @@ vector_cross_node<Sub1, Sub2>::vector_cross_node(Sub1 left, Sub2 right)
 : m_left(std::move(left))
 , m_right(std::move(right))
 {
-  cml::check_size(left, cml::int_c<3>());
-  cml::check_size(right, cml::int_c<3>());
+  cml::check_size(this->m_left, cml::int_c<3>());
+  cml::check_size(this->m_right, cml::int_c<3>());
   /* Note: this seems to be exception-safe since temporaries are stored by
    * value and references by reference.
    */
-- 
2.43.0


From 0529c3073f53859b35045a0aad0d4848ae1a7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 02/32] fix: LU pivot search compared a signed diagonal against
 magnitudes

---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index fe3ae40..bfe6f6a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -50,7 +50,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   for(int k = 0; k < N - 1; ++k) {
     /* Find the next pivot row: */
     int row = k;
-    value_type max = M(k, k);
+    value_type max = value_traits::fabs(M(k, k));
     for(int i = k + 1; i < N; ++i) {
       value_type mag = value_traits::fabs(M(i, k));
       if(mag > max) {
-- 
2.43.0


From 5fb5c216fed765b1515cb6ac2721f1d3733adbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 03/32] fix: NxN inverse could pick an already eliminated
 element as the pivot

---
 cml/matrix/detail/inverse.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 78a651d..e68dfaa 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -164,8 +164,10 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   int N = M.rows();
   for(int i = 0; i < N; ++i) {
     /* Find the pivot */
-    int row = 0, col = 0;
-    auto pivot = value_traits::fabs(M(0, 0));
+    int row = 0;
+    while(pivoted[row]) ++row;
+    int col = row;
+    auto pivot = value_traits::fabs(M(row, col));
     for(int j = 0; j < N; ++j) {
       if(pivoted[j]) continue;
 
-- 
2.43.0


From b4055325bd794ccf757e0e2b705b424709d46bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 04/32] fix: += and -= resized a dynamic operand of the wrong
 size instead of throwing

---
 cml/matrix/writable_matrix.tpp | 4 ++--
 cml/vector/writable_vector.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 078f119..e911a35 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -331,7 +331,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator+=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_plus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
@@ -350,7 +350,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator-=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_minus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 7781a4f..b5e1031 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -309,7 +309,7 @@ DT&
 writable_vector<DT>::operator+=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
@@ -330,7 +330,7 @@ DT&
 writable_vector<DT>::operator-=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
-- 
2.43.0


From 25099897f2235f0b0e957f16de9aef7ee41ad634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 05/32] fix: *= and /= by an element of the destination used
 the already modified element

---
 cml/matrix/writable_matrix.tpp         | 6 ++++--
 cml/quaternion/writable_quaternion.tpp | 6 ++++--
 cml/vector/writable_vector.tpp         | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e911a35..a044502 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -372,7 +372,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator*=(const ScalarT& v) &
 {
-  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of *this
+  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
@@ -394,7 +395,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator/=(const ScalarT& v) &
 {
-  detail::apply<binary_divide_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s = v;  // v may refer to an element of *this
+  detail::apply<binary_divide_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 05cf0a5..ac9036f 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -389,7 +389,8 @@ DT&
 writable_quaternion<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to an element of *this
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -412,7 +413,8 @@ DT&
 writable_quaternion<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s = v;  // v may refer to an element of *this
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index b5e1031..13f502c 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -352,8 +352,9 @@ DT&
 writable_vector<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of *this
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -374,8 +375,9 @@ DT&
 writable_vector<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
+  const ScalarT s = v;  // v may refer to an element of *this
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
-- 
2.43.0


From b33175caa993e160e17b5e17115a4f837356a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 06/32] fix: assigning a list or a 2D array to a temporary did
 not compile

---
 cml/matrix/writable_matrix.h           | 2 +-
 cml/matrix/writable_matrix.tpp         | 5 +++--
 cml/quaternion/writable_quaternion.tpp | 3 ++-
 cml/vector/writable_vector.tpp         | 3 ++-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cml/matrix/writable_matrix.h b/cml/matrix/writable_matrix.h
index 631dc77..b674066 100644
--- a/cml/matrix/writable_matrix.h
+++ b/cml/matrix/writable_matrix.h
@@ -225,7 +225,7 @@ class writable_matrix : public readable_matrix<DerivedT>
    * are fixed-size, then the size is checked at compile time.
    */
   template<class Other, int Rows, int Cols>
-  DerivedT& operator=(Other const (&array)[Rows][Cols]) &&;
+  DerivedT&& operator=(Other const (&array)[Rows][Cols]) &&;
 
   /** Assign from initializer list.
    *
diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index a044502..633d0d7 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -303,7 +303,7 @@ writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &
 
 template<class DT>
 template<class Other, int Rows, int Cols>
-DT&
+DT&&
 writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &&
 {
   this->operator=(array);
@@ -323,7 +323,8 @@ template<class Other>
 DT&&
 writable_matrix<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index ac9036f..3cb8ffe 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -320,7 +320,8 @@ template<class Other>
 DT&&
 writable_quaternion<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 13f502c..ca6001f 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -300,7 +300,8 @@ template<class Other>
 DT&&
 writable_vector<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->operator=(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
-- 
2.43.0


From 8f9df5dc346d4adcaa939fb0322c740973ac0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 07/32] fix: the 2x3 float matrix was named matrix32f instead
 of matrix23f

---
 cml/matrix/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/types.h b/cml/matrix/types.h
index 70810df..9bc5e7d 100644
--- a/cml/matrix/types.h
+++ b/cml/matrix/types.h
@@ -29,7 +29,7 @@ using externalmni = matrix<int, external<>>;
 using matrix22f = matrix<float, fixed<2, 2>>;
 using matrix33f = matrix<float, fixed<3, 3>>;
 using matrix44f = matrix<float, fixed<4, 4>>;
-using matrix32f = matrix<float, fixed<2, 3>>;
+using matrix23f = matrix<float, fixed<2, 3>>;
 using matrix34f = matrix<float, fixed<3, 4>>;
 using matrixf = matrix<float, dynamic<>>;
 using external22f = matrix<float, external<2, 2>>;
-- 
2.43.0


From bc88697d839816e7a5833548012ed07bf9013e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 08/32] fix: moving a column-major non-square fixed matrix
 indexed out of bounds

---
 cml/matrix/fixed_compiled.tpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cml/matrix/fixed_compiled.tpp b/cml/matrix/fixed_compiled.tpp
index a6ff21a..f9c3b13 100644
--- a/cml/matrix/fixed_compiled.tpp
+++ b/cml/matrix/fixed_compiled.tpp
@@ -89,8 +89,7 @@ matrix<E, fixed<R, C>, BO, L>::operator=(matrix_type&& other) -> matrix_type&
 {
   for(int i = 0; i < R; ++i)
     for(int j = 0; j < C; ++j)
-      this->m_data[i][j] = std::move(other.m_data[i][j]);
-  /* Note: the layout doesn't matter here. */
+      this->i_get(i, j) = std::move(other.i_get(i, j));
   return *this;
 }
 
-- 
2.43.0


From 985630ad8fbe837ac68d0bdb89110ed83006d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 09/32] fix: exp() and log() of a real quaternion were NaN

---
 cml/quaternion/writable_quaternion.tpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 3cb8ffe..4c89165 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -189,7 +189,10 @@ writable_quaternion<DT>::log() &
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
-  auto c = element_traits::acos(this->real() / lq) / lv;
+  using value_t = decltype(lv);
+  auto c = (lv == value_t(0) && this->real() > value_t(0))
+    ? value_t(0)  // Positive real: the imaginary part is 0.
+    : value_t(element_traits::acos(this->real() / lq) / lv);
   this->assign(c * v, element_traits::log(lq));
   return this->actual();
 }
@@ -218,7 +221,10 @@ writable_quaternion<DT>::exp() &
   auto v = this->imaginary();
   auto lv = v.length();
   auto x = element_traits::exp(this->real());
-  auto c = element_traits::sin(lv) / lv;
+  using value_t = decltype(lv);
+  auto c = (lv == value_t(0))
+    ? value_t(1)  // sin(|v|)/|v| -> 1 as |v| -> 0.
+    : value_t(element_traits::sin(lv) / lv);
   this->assign(x * c * v, x * element_traits::cos(lv));
   return this->actual();
 }
-- 
2.43.0


From 7ae509fe81c5c4ab02ec20e6ebd6f8a7c4b359c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 10/32] fix: the last Euler angle was rounded to the type of
 the first

---
 cml/mathlib/matrix/rotation.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 5e83395..613c124 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -528,7 +528,7 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
       angle_0 =
         E0(value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i)));
       angle_2 =
-        E0(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
+        E2(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
     } else {
       angle_0 = E0(0);
       angle_2 = E2(cml::sign(c1)
-- 
2.43.0


From 09c0625e6a34ce88665854939df1373529f3f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 11/32] fix: Euler angle derivatives had the wrong sign for odd
 orders

---
 cml/mathlib/matrix/rotation.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 613c124..4f66404 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -311,6 +311,13 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     m.set_basis_element(k, j, s1 * c0c2 + s0s2);
     m.set_basis_element(k, k, 0.);
   }
+
+  /* Each angle was negated for an odd order, so apply the chain rule: */
+  if(odd) {
+    for(int r = 0; r < 3; ++r)
+      for(int c = 0; c < 3; ++c)
+        m.set_basis_element(r, c, -m.basis_element(r, c));
+  }
 }
 
 template<class Sub, class ESub>
-- 
2.43.0


From 9c7987c63dfdddb0ff1ed12f7e0ece9aef1a18c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 12/32] fix: products of quaternion expressions of different
 types did not compile

---
 cml/quaternion/product.tpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cml/quaternion/product.tpp b/cml/quaternion/product.tpp
index b7a5c75..9a5bb1d 100644
--- a/cml/quaternion/product.tpp
+++ b/cml/quaternion/product.tpp
@@ -42,9 +42,12 @@ operator*(Sub1&& sub1,
    * {+/-} is determined by cross_type:
    */
   auto real = sub1[W] * sub2[W] - cml::dot(sub1.imaginary(), sub2.imaginary());
-  auto cross = std::is_same<cross_type, positive_cross>::value
-    ? cml::cross(sub1.imaginary(), sub2.imaginary())
-    : cml::cross(sub2.imaginary(), sub1.imaginary());
+  auto cross = [&]() {
+    if constexpr(std::is_same<cross_type, positive_cross>::value)
+      return cml::cross(sub1.imaginary(), sub2.imaginary());
+    else
+      return cml::cross(sub2.imaginary(), sub1.imaginary());
+  }();
   auto imaginary =
     sub1[W] * sub2.imaginary() + sub2[W] * sub1.imaginary() + cross;
 
-- 
2.43.0


From 6a012bd4de9358ae966235415db33dec00ec70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 13/32] fix: non-square transposes kept the storage shape of
 their operand

---
 cml/matrix/transpose_node.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/transpose_node.h b/cml/matrix/transpose_node.h
index 3ea2351..9390acc 100644
--- a/cml/matrix/transpose_node.h
+++ b/cml/matrix/transpose_node.h
@@ -21,11 +21,17 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   using element_traits = typename sub_traits::element_traits;
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
-  using storage_type = typename sub_traits::storage_type;
-  using size_tag = typename sub_traits::size_tag;
   using basis_tag = typename sub_traits::basis_tag;
   using layout_tag = typename sub_traits::layout_tag;
 
+  /* Swap the shape of the subexpression storage: */
+  using sub_storage_type = typename sub_traits::storage_type;
+  using reshaped_type = reshape_storage_t<
+    typename sub_storage_type::unbound_type, sub_traits::array_cols,
+    sub_traits::array_rows>;
+  using storage_type = rebind_matrix_storage_t<reshaped_type>;
+  using size_tag = typename storage_type::size_tag;
+
 #if 0
   /* Flip the layout: */
   typedef typename sub_traits::layout_tag		sub_layout;
-- 
2.43.0


From 4b1ddb4914ac24a09633c6e34e28820d196e3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 14/32] fix: basis vectors of non-square column-basis matrices
 had the wrong fixed size

---
 cml/matrix/basis_node.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/basis_node.h b/cml/matrix/basis_node.h
index 1016f4c..209278b 100644
--- a/cml/matrix/basis_node.h
+++ b/cml/matrix/basis_node.h
@@ -23,8 +23,10 @@ template<class Sub, int I> struct vector_traits<matrix_basis_node<Sub, I>>
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
 
-  /* Propagate the column count from the subexpression: */
-  static const int array_size = sub_traits::array_cols;
+  /* Propagate the size of a basis vector from the subexpression: */
+  static const int array_size = (sub_traits::matrix_basis == row_basis_c)
+    ? sub_traits::array_cols
+    : sub_traits::array_rows;
 
   /* Deduce the vector storage type: */
   using sub_storage_type = typename sub_traits::storage_type;
-- 
2.43.0


From 9f443e100cc693e03b3de4c5d04f56c6eeed6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 15/32] fix: resize() of a dynamic array copied elements it had
 already destroyed

---
 cml/matrix/dynamic_allocated.tpp | 22 ++++++++++++++--------
 cml/vector/dynamic_allocated.tpp | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index ac3a5fb..001389e 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -167,16 +167,22 @@ matrix<E, dynamic<A>, BO, L>::resize(int rows, int cols)
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, n_old,
-      typename std::is_trivially_destructible<E>::type());
-
     /* Copy elements to the new array if necessary: */
+    int to = data ? std::min(n_old, n_new) : 0;
+    for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
+      allocator_traits::construct(allocator, dst, *src);
+    }
+
+    /* Construct the remaining elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(pointer dst = copy + to; dst < copy + n_new; ++dst)
+        allocator_traits::construct(allocator, dst);
+    }
+
     if(data) {
-      int to = std::min(n_old, n_new);
-      for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
-        allocator_traits::construct(allocator, dst, *src);
-      }
+      /* Destruct elements if necessary: */
+      this->destruct(data, n_old,
+        typename std::is_trivially_destructible<E>::type());
 
       /* Deallocate the old array: */
       allocator_traits::deallocate(allocator, data, n_old);
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 3bd5c6f..476b7f7 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -148,16 +148,22 @@ vector<E, dynamic<A>>::resize(int n)
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, size,
-      typename std::is_trivially_destructible<E>::type());
-
     /* Copy elements to the new array if necessary: */
+    int to = data ? std::min(size, n) : 0;
+    for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
+      allocator_traits::construct(allocator, dst, *src);
+    }
+
+    /* Construct the remaining elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(pointer dst = copy + to; dst < copy + n; ++dst)
+        allocator_traits::construct(allocator, dst);
+    }
+
     if(data) {
-      int to = std::min(size, n);
-      for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
-        allocator_traits::construct(allocator, dst, *src);
-      }
+      /* Destruct elements if necessary: */
+      this->destruct(data, size,
+        typename std::is_trivially_destructible<E>::type());
 
       /* Deallocate the old array: */
       allocator_traits::deallocate(allocator, data, size);
-- 
2.43.0


From 33cad3ef40c551fe424c87266955ae9f6e979e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 16/32] fix: resize_fast() left the elements of a class type
 unconstructed

---
 cml/matrix/dynamic_allocated.tpp | 6 ++++++
 cml/vector/dynamic_allocated.tpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index 001389e..f5b32b4 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -222,6 +222,12 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
   try {
+    /* Construct the new elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(pointer dst = copy; dst < copy + n_new; ++dst)
+        allocator_traits::construct(allocator, dst);
+    }
+
     /* Destruct elements if necessary: */
     this->destruct(data, n_old,
       typename std::is_trivially_destructible<E>::type());
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 476b7f7..a3975e0 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -195,6 +195,12 @@ vector<E, dynamic<A>>::resize_fast(int n)
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
   try {
+    /* Construct the new elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(pointer dst = copy; dst < copy + n; ++dst)
+        allocator_traits::construct(allocator, dst);
+    }
+
     /* Destruct elements if necessary: */
     this->destruct(data, size,
       typename std::is_trivially_destructible<E>::type());
-- 
2.43.0


From 5d63d719cf96074065cc6350727f98fb13bbb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 17/32] fix: results combining different matrix memory orders
 had no storage order

---
 cml/common/layout_tags.h | 15 +++++++++++++++
 cml/matrix/promotion.h   |  6 +++---
 cml/matrix/temporary.h   |  2 +-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/cml/common/layout_tags.h b/cml/common/layout_tags.h
index 2f8ac7b..5ef3a80 100644
--- a/cml/common/layout_tags.h
+++ b/cml/common/layout_tags.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <cml/common/mpl/if_t.h>
 #include <cml/common/traits.h>
 
 namespace cml {
@@ -85,4 +86,18 @@ template<class T> struct layout_tag_trait_of
 template<class T>
 using layout_tag_trait_of_t = typename layout_tag_trait_of<T>::type;
 
+/** Deduce the layout tag of a matrix that has to store the elements of an
+ * expression having layout tag @c Tag.  any_major does not specify a storage
+ * order, so it is replaced by the default layout.
+ */
+template<class Tag> struct storage_layout_tag
+{
+  static_assert(is_layout_tag<Tag>::value, "invalid layout tag");
+  using type = cml::if_t<std::is_same<Tag, any_major>::value, row_major, Tag>;
+};
+
+/** Convenience alias for storage_layout_tag. */
+template<class Tag>
+using storage_layout_tag_t = typename storage_layout_tag<Tag>::type;
+
 }  // namespace cml
diff --git a/cml/matrix/promotion.h b/cml/matrix/promotion.h
index 271f7e3..4874b5d 100644
--- a/cml/matrix/promotion.h
+++ b/cml/matrix/promotion.h
@@ -103,9 +103,9 @@ struct matrix_inner_product_promote<Sub1, Sub2,
   using basis_tag = basis_tag_promote_t<basis_tag_of_t<left_traits>,
     basis_tag_of_t<right_traits>>;
 
-  /* Determine the common layout type: */
-  using layout_tag = layout_tag_promote_t<layout_tag_of_t<left_traits>,
-    layout_tag_of_t<right_traits>>;
+  /* Determine the common layout type, which needs a storage order: */
+  using layout_tag = storage_layout_tag_t<layout_tag_promote_t<
+    layout_tag_of_t<left_traits>, layout_tag_of_t<right_traits>>>;
 
   /* Build the temporary: */
   using type = matrix<value_type, proxy_type, basis_tag, layout_tag>;
diff --git a/cml/matrix/temporary.h b/cml/matrix/temporary.h
index 72a3a60..a9593a3 100644
--- a/cml/matrix/temporary.h
+++ b/cml/matrix/temporary.h
@@ -23,7 +23,7 @@ struct temporary_of<Matrix, cml::enable_if_matrix_t<Matrix>>
   using value_type = typename traits_type::value_type;
   using storage_type = typename traits_type::storage_type;
   using basis_tag = typename traits_type::basis_tag;
-  using layout_tag = typename traits_type::layout_tag;
+  using layout_tag = storage_layout_tag_t<typename traits_type::layout_tag>;
 
   /* Need the proxy for the storage type: */
   using proxy_type = typename storage_type::proxy_type;
-- 
2.43.0


From 3bd79c2e8aee2b1611ca9289d48de81ecb7820ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 18/32] fix: assigning a quaternion with the other element
 order scrambled its components

---
 cml/quaternion/writable_quaternion.tpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 4c89165..54b3002 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -335,9 +335,12 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::operator+=(const readable_quaternion<ODT>& other) &
 {
+  /* Note: other may have a different element order. */
   using op_type = binary_plus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  this->put(W, op_type().apply(this->get(W), other.w()));
+  this->put(X, op_type().apply(this->get(X), other.x()));
+  this->put(Y, op_type().apply(this->get(Y), other.y()));
+  this->put(Z, op_type().apply(this->get(Z), other.z()));
   return this->actual();
 }
 
@@ -355,9 +358,12 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::operator-=(const readable_quaternion<ODT>& other) &
 {
+  /* Note: other may have a different element order. */
   using op_type = binary_minus_t<DT, ODT>;
-  for(int i = 0; i < 4; ++i)
-    this->put(i, op_type().apply(this->get(i), other.get(i)));
+  this->put(W, op_type().apply(this->get(W), other.w()));
+  this->put(X, op_type().apply(this->get(X), other.x()));
+  this->put(Y, op_type().apply(this->get(Y), other.y()));
+  this->put(Z, op_type().apply(this->get(Z), other.z()));
   return this->actual();
 }
 
@@ -443,10 +449,11 @@ template<class ODT>
 DT&
 writable_quaternion<DT>::assign(const readable_quaternion<ODT>& other)
 {
-  this->put(W, other.get(W));
-  this->put(X, other.get(X));
-  this->put(Y, other.get(Y));
-  this->put(Z, other.get(Z));
+  /* Note: other may have a different element order. */
+  this->put(W, other.w());
+  this->put(X, other.x());
+  this->put(Y, other.y());
+  this->put(Z, other.z());
   return this->actual();
 }
 
-- 
2.43.0


From cedd0040abe272ad26a6c79af17840cc66b94555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 19/32] fix: inverse of NxN matrices undid its row exchanges in
 the wrong order

---
 cml/matrix/detail/inverse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index e68dfaa..0206645 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -211,8 +211,8 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
     }
   }
 
-  /* Swap columns if necessary */
-  for(int i = 0; i < N; ++i) {
+  /* Swap columns if necessary, in the reverse order of the row swaps */
+  for(int i = N - 1; i >= 0; --i) {
     if(row_index[i] == col_index[i]) continue;
 
     for(int j = 0; j < N; ++j)
-- 
2.43.0


From 5fcd9b63d2670901ddf9dafdabf95ba276f39c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 20/32] fix: lu_solve accumulates in the factors' type, not in
 the right-hand side's

---
 cml/matrix/lu.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/lu.tpp b/cml/matrix/lu.tpp
index 108d358..f3f8917 100644
--- a/cml/matrix/lu.tpp
+++ b/cml/matrix/lu.tpp
@@ -56,7 +56,7 @@ inline void
 lu_solve(const readable_matrix<LUSub>& LU, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_promote_t<LUSub, XSub>;
 
   cml::check_square(LU);
   cml::check_same_inner_size(LU, x);
@@ -104,7 +104,7 @@ inline void
 lu_solve(const lu_pivot_result<Matrix>& lup, writable_vector<XSub>& x,
   const readable_vector<BSub>& b)
 {
-  using value_type = value_type_trait_of_t<BSub>;
+  using value_type = value_type_trait_promote_t<Matrix, XSub>;
 
   cml::check_same_inner_size(lup.lu, x);
   cml::check_same_inner_size(lup.lu, b);
-- 
2.43.0


From 6d996ce3d66a9a7b728b756b2473d9d3c7890e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 21/32] fix: declare matrix_skew_symmetric_2D under the name it
 is defined with

The scalar overload of matrix_skew_symmetric was declared but never defined,
and, being the better match, was chosen for vectors too.
---
 cml/mathlib/matrix/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/misc.h b/cml/mathlib/matrix/misc.h
index 1350533..da46f82 100644
--- a/cml/mathlib/matrix/misc.h
+++ b/cml/mathlib/matrix/misc.h
@@ -56,7 +56,7 @@ void matrix_skew_symmetric(writable_matrix<Sub1>& m,
  * run-time.
  */
 template<class Sub1, class Scalar>
-void matrix_skew_symmetric(writable_matrix<Sub1>& m, const Scalar& s);
+void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s);
 
 
 /** Invert a 3D matrix composed of a rotation and translation.
-- 
2.43.0


From d8df959dfd64472d6372fdf556f6baf955798a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 22/32] fix: matrix_rotation_euler_derivatives: reject a
 repeated axis before modifying m

---
 cml/mathlib/matrix/rotation.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 4f66404..114fd53 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -254,14 +254,14 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     "axis must be 0, 1, or 2");
   cml::check_linear_3D(m);
 
-  /* Initialize: */
-  m.identity();
-
   int i, j, k;
   bool odd, repeat;
   cml::unpack_euler_order(order, i, j, k, odd, repeat);
   cml_require(!repeat, std::invalid_argument, "repeated axis not supported");
 
+  /* Initialize: */
+  m.identity();
+
   if(odd) {
     angle_0 = -angle_0;
     angle_1 = -angle_1;
-- 
2.43.0


From d9e9d6412e92823b015669959c4491d5f5890b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 23/32] fix: reject sums, differences and elementwise products
 of fixed vectors of different sizes at compile time

---
 cml/vector/size_checking.h   | 11 +++++++----
 cml/vector/size_checking.tpp |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cml/vector/size_checking.h b/cml/vector/size_checking.h
index 2917897..579c517 100644
--- a/cml/vector/size_checking.h
+++ b/cml/vector/size_checking.h
@@ -6,8 +6,9 @@
 
 #include <cml/common/mpl/int_c.h>
 #include <cml/common/mpl/enable_if_array.h>
+#include <cml/common/mpl/enable_if_t.h>
 #include <cml/common/exception.h>
-#include <cml/vector/fwd.h>
+#include <cml/vector/type_util.h>
 
 namespace cml {
 
@@ -97,8 +98,9 @@ void check_same_size(const readable_vector<Sub1>& left, const Sub2& right,
   enable_if_array_t<Sub2>* = 0);
 
 /** Front-end for run-time vector binary expression length checking.  The
- * first expression must derive from readable_vector, and the second must
- * implement a size() method for this overload to be enabled.
+ * first expression must derive from readable_vector, and the second must not
+ * be a vector, and must implement a size() method, for this overload to be
+ * enabled.
  *
  * @tparam Sub1 the actual type of the first expression.
  * @tparam Sub2 the actual type of the second expression.
@@ -111,7 +113,8 @@ void check_same_size(const readable_vector<Sub1>& left, const Sub2& right,
  * @note Run-time checking can be disabled by defining
  * CML_NO_RUNTIME_VECTOR_SIZE_CHECKS at compile time.
  */
-template<class Sub1, class Sub2>
+template<class Sub1, class Sub2,
+  enable_if_t<!is_vector<Sub2>::value>* = nullptr>
 auto check_same_size(const readable_vector<Sub1>& left, const Sub2& right)
   -> decltype(right.size(), void());
 
diff --git a/cml/vector/size_checking.tpp b/cml/vector/size_checking.tpp
index 4f5f256..1bcb3bb 100644
--- a/cml/vector/size_checking.tpp
+++ b/cml/vector/size_checking.tpp
@@ -150,7 +150,7 @@ check_same_size(const readable_vector<Sub1>& left, const Sub2& right,
   detail::check_same_size(left, right, size_check_promote_t<tag1, tag2>());
 }
 
-template<class Sub1, class Sub2>
+template<class Sub1, class Sub2, enable_if_t<!is_vector<Sub2>::value>*>
 auto
 check_same_size(const readable_vector<Sub1>& left, const Sub2& right)
   -> decltype(right.size(), void())
-- 
2.43.0


From 5148943df47dc0b533f50a1dd961df0e37765f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 24/32] fix: subvector(temporary, i) and signed_angle_2D were
 declared with the wrong parameters

---
 cml/mathlib/vector/angle.h | 2 +-
 cml/vector/subvector_ops.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/vector/angle.h b/cml/mathlib/vector/angle.h
index 5e1ff4b..2989b4e 100644
--- a/cml/mathlib/vector/angle.h
+++ b/cml/mathlib/vector/angle.h
@@ -15,7 +15,7 @@ namespace cml {
 /*@{*/
 
 /** Signed angle between two 2D vectors @c v1 and @c v2. */
-template<class Sub1, class Sub2, class Sub3>
+template<class Sub1, class Sub2>
 inline auto signed_angle_2D(const readable_vector<Sub1>& v1,
   const readable_vector<Sub2>& v2) -> value_type_trait_promote_t<Sub1, Sub2>;
 
diff --git a/cml/vector/subvector_ops.h b/cml/vector/subvector_ops.h
index 3e92637..3df7061 100644
--- a/cml/vector/subvector_ops.h
+++ b/cml/vector/subvector_ops.h
@@ -20,7 +20,7 @@ auto subvector(const readable_vector<Sub>& sub, int i)
  * std::move).
  */
 template<class Sub>
-auto subvector(readable_vector<Sub>&& sub) -> subvector_node<Sub&&>;
+auto subvector(readable_vector<Sub>&& sub, int i) -> subvector_node<Sub&&>;
 
 }  // namespace cml
 
-- 
2.43.0


From 1e5bd6c1fb7c589dcb4bcc4dfc7bd565410b39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 25/32] fix: check_same_linear_size of two matrices was
 declared but did not compile or link

---
 cml/matrix/size_checking.h   |  6 ++++--
 cml/matrix/size_checking.tpp | 31 ++++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/cml/matrix/size_checking.h b/cml/matrix/size_checking.h
index 0d5db22..a9048dd 100644
--- a/cml/matrix/size_checking.h
+++ b/cml/matrix/size_checking.h
@@ -6,9 +6,10 @@
 
 #include <cml/common/mpl/int_c.h>
 #include <cml/common/mpl/enable_if_array.h>
+#include <cml/common/mpl/enable_if_t.h>
 #include <cml/common/exception.h>
 #include <cml/vector/fwd.h>
-#include <cml/matrix/fwd.h>
+#include <cml/matrix/type_util.h>
 
 namespace cml {
 
@@ -148,7 +149,8 @@ void check_same_linear_size(const readable_matrix<Sub1>& left,
  * @note Run-time checking can be disabled by defining
  * CML_NO_RUNTIME_MATRIX_SIZE_CHECKS at compile time.
  */
-template<class Sub1, class Sub2>
+template<class Sub1, class Sub2,
+  enable_if_t<!is_matrix<Sub2>::value>* = nullptr>
 auto check_same_linear_size(const readable_matrix<Sub1>& left,
   const Sub2& right) -> decltype(right.size(), void());
 
diff --git a/cml/matrix/size_checking.tpp b/cml/matrix/size_checking.tpp
index b141925..4ea8279 100644
--- a/cml/matrix/size_checking.tpp
+++ b/cml/matrix/size_checking.tpp
@@ -112,6 +112,31 @@ check_same_linear_size(const readable_matrix<Sub1>& left, const Sub2& right,
 #endif
 }
 
+/* Compile-time linear size checking of two matrix expressions: */
+template<class Sub1, class Sub2>
+inline void
+check_same_linear_size(const readable_matrix<Sub1>&,
+  const readable_matrix<Sub2>&, fixed_size_tag)
+{
+  static_assert(array_rows_of_c<Sub1>::value * array_cols_of_c<Sub1>::value
+      == array_rows_of_c<Sub2>::value * array_cols_of_c<Sub2>::value,
+    "incompatible matrix expression sizes");
+}
+
+/* Run-time linear size checking of two matrix expressions: */
+template<class Sub1, class Sub2>
+inline void
+check_same_linear_size(const readable_matrix<Sub1>& left,
+  const readable_matrix<Sub2>& right, dynamic_size_tag)
+{
+#ifndef CML_NO_RUNTIME_MATRIX_SIZE_CHECKS
+  cml_require(array_rows_of(left) * array_cols_of(left)
+      == array_rows_of(right) * array_cols_of(right),
+    incompatible_matrix_size_error,
+    /**/);
+#endif
+}
+
 /* No-op matrix linear size checking. */
 template<class Sub>
 inline void
@@ -381,11 +406,11 @@ check_square(const readable_matrix<Sub>& sub, SizeTag)
 template<class Sub1, class Sub2>
 inline void
 check_same_linear_size(const readable_matrix<Sub1>& left,
-  const readable_matrix<Sub1>& right)
+  const readable_matrix<Sub2>& right)
 {
   using tag1 = size_tag_of_t<Sub1>;
   using tag2 = size_tag_of_t<Sub2>;
-  detail::check_same_linear_size(left, right.actual(),
+  detail::check_same_linear_size(left, right,
     size_check_promote_t<tag1, tag2>());
 }
 
@@ -400,7 +425,7 @@ check_same_linear_size(const readable_matrix<Sub1>& left, const Sub2& right,
     size_check_promote_t<tag1, tag2>());
 }
 
-template<class Sub1, class Sub2>
+template<class Sub1, class Sub2, enable_if_t<!is_matrix<Sub2>::value>*>
 inline auto
 check_same_linear_size(const readable_matrix<Sub1>& left, const Sub2& right)
   -> decltype(right.size(), void())
-- 
2.43.0


From 6581ac09f6c6f057cbe34b6465fb34c49b3b1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 26/32] fix: a dynamic vector or matrix constructor that throws
 releases its storage

The constructors that allocate and then copy delegate to the default
constructor, so the destructor runs when the copy throws.
---
 cml/matrix/dynamic_allocated.h   |  4 +---
 cml/matrix/dynamic_allocated.tpp | 32 ++++++++------------------------
 cml/vector/dynamic_allocated.h   |  6 ++----
 cml/vector/dynamic_allocated.tpp | 24 ++++++++----------------
 4 files changed, 19 insertions(+), 47 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.h b/cml/matrix/dynamic_allocated.h
index 931a95d..cce81de 100644
--- a/cml/matrix/dynamic_allocated.h
+++ b/cml/matrix/dynamic_allocated.h
@@ -155,9 +155,7 @@ class matrix<Element, dynamic<Allocator>, BasisOrient, Layout>
   matrix(RowsT rows, ColsT cols, const E0& e0, const Elements&... eN)
   // XXX Should be in matrix/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_rows(0)
-  , m_cols(0)
+  : matrix()
   {
     this->resize_fast(rows, cols);
     this->assign_elements(e0, eN...);
diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index f5b32b4..55632a1 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -23,27 +23,21 @@ matrix<E, dynamic<A>, BO, L>::matrix()
 
 template<class E, class A, typename BO, typename L>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
 }
 
 template<class E, class A, typename BO, typename L>
 matrix<E, dynamic<A>, BO, L>::matrix(const matrix_type& other)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(other);
 }
 
 template<class E, class A, typename BO, typename L>
 matrix<E, dynamic<A>, BO, L>::matrix(matrix_type&& other)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->operator=(std::move(other));
 }
@@ -51,9 +45,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(matrix_type&& other)
 template<class E, class A, typename BO, typename L>
 template<class Sub>
 matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(sub);
 }
@@ -61,9 +53,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
 template<class E, class A, typename BO, typename L>
 template<class Array, enable_if_array_t<Array>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
@@ -72,9 +62,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
 template<class E, class A, typename BO, typename L>
 template<class Other, int R, int C>
 matrix<E, dynamic<A>, BO, L>::matrix(Other const (&array)[R][C])
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(array);
 }
@@ -82,9 +70,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(Other const (&array)[R][C])
 template<class E, class A, typename BO, typename L>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Pointer& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
@@ -93,9 +79,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Pointer& array)
 template<class E, class A, typename BO, typename L>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 matrix<E, dynamic<A>, BO, L>::matrix(const Pointer& array, int rows, int cols)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
diff --git a/cml/vector/dynamic_allocated.h b/cml/vector/dynamic_allocated.h
index efc9775..c0c0d6e 100644
--- a/cml/vector/dynamic_allocated.h
+++ b/cml/vector/dynamic_allocated.h
@@ -115,8 +115,7 @@ class vector<Element, dynamic<Allocator>>
   vector(const E0& e0, const Elements&... eN)
   // XXX Should be in vector/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_size(0)
+  : vector()
   {
     this->assign_elements(e0, eN...);
   }
@@ -134,8 +133,7 @@ class vector<Element, dynamic<Allocator>>
   vector(const readable_vector<Sub>& sub, const E0& e0, const Elements&... eN)
   // XXX Should be in vector/fixed_compiled.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_size(0)
+  : vector()
   {
     this->assign(sub, e0, eN...);
   }
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index a3975e0..8f828ad 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -21,24 +21,21 @@ vector<E, dynamic<A>>::vector()
 template<class E, class A>
 template<class Int, enable_if_t<std::is_integral<Int>::value>*>
 vector<E, dynamic<A>>::vector(Int size)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(int(size));
 }
 
 template<class E, class A>
 vector<E, dynamic<A>>::vector(const vector_type& other)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(other);
 }
 
 template<class E, class A>
 vector<E, dynamic<A>>::vector(vector_type&& other)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->operator=(std::move(other));
 }
@@ -46,8 +43,7 @@ vector<E, dynamic<A>>::vector(vector_type&& other)
 template<class E, class A>
 template<class Sub>
 vector<E, dynamic<A>>::vector(const readable_vector<Sub>& sub)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(sub);
 }
@@ -55,8 +51,7 @@ vector<E, dynamic<A>>::vector(const readable_vector<Sub>& sub)
 template<class E, class A>
 template<class Array, enable_if_array_t<Array>*>
 vector<E, dynamic<A>>::vector(const Array& array)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(array);
 }
@@ -64,8 +59,7 @@ vector<E, dynamic<A>>::vector(const Array& array)
 template<class E, class A>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 vector<E, dynamic<A>>::vector(const Pointer& array, int size)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(size);
   this->assign(array);
@@ -74,8 +68,7 @@ vector<E, dynamic<A>>::vector(const Pointer& array, int size)
 template<class E, class A>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 vector<E, dynamic<A>>::vector(int size, const Pointer& array)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(size);
   this->assign(array);
@@ -84,8 +77,7 @@ vector<E, dynamic<A>>::vector(int size, const Pointer& array)
 template<class E, class A>
 template<class Other>
 vector<E, dynamic<A>>::vector(std::initializer_list<Other> l)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(l);
 }
-- 
2.43.0


From 1102a5caae6199cc27ce6bea895aa81bc98ed191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 27/32] fix: resize of a dynamic vector or matrix destroys the
 new elements before releasing them when it fails

---
 cml/matrix/dynamic_allocated.tpp | 18 ++++++++++++------
 cml/vector/dynamic_allocated.tpp | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index 55632a1..01a7810 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -150,17 +150,18 @@ matrix<E, dynamic<A>, BO, L>::resize(int rows, int cols)
   /* Allocate the new array: */
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
+  pointer last = copy;
   try {
     /* Copy elements to the new array if necessary: */
     int to = data ? std::min(n_old, n_new) : 0;
-    for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
-      allocator_traits::construct(allocator, dst, *src);
+    for(pointer src = data; src < data + to; ++src, ++last) {
+      allocator_traits::construct(allocator, last, *src);
     }
 
     /* Construct the remaining elements if necessary: */
     if constexpr(!std::is_trivially_default_constructible<E>::value) {
-      for(pointer dst = copy + to; dst < copy + n_new; ++dst)
-        allocator_traits::construct(allocator, dst);
+      for(; last < copy + n_new; ++last)
+        allocator_traits::construct(allocator, last);
     }
 
     if(data) {
@@ -172,6 +173,8 @@ matrix<E, dynamic<A>, BO, L>::resize(int rows, int cols)
       allocator_traits::deallocate(allocator, data, n_old);
     }
   } catch(...) {
+    this->destruct(copy, int(last - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
   }
@@ -205,11 +208,12 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
   /* Allocate the new array: */
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
+  pointer last = copy;
   try {
     /* Construct the new elements if necessary: */
     if constexpr(!std::is_trivially_default_constructible<E>::value) {
-      for(pointer dst = copy; dst < copy + n_new; ++dst)
-        allocator_traits::construct(allocator, dst);
+      for(; last < copy + n_new; ++last)
+        allocator_traits::construct(allocator, last);
     }
 
     /* Destruct elements if necessary: */
@@ -219,6 +223,8 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
     /* Deallocate the old array: */
     allocator_traits::deallocate(allocator, data, n_old);
   } catch(...) {
+    this->destruct(copy, int(last - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
   }
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 8f828ad..a774ec4 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -139,17 +139,18 @@ vector<E, dynamic<A>>::resize(int n)
   pointer data = this->m_data;
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
+  pointer last = copy;
   try {
     /* Copy elements to the new array if necessary: */
     int to = data ? std::min(size, n) : 0;
-    for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
-      allocator_traits::construct(allocator, dst, *src);
+    for(pointer src = data; src < data + to; ++src, ++last) {
+      allocator_traits::construct(allocator, last, *src);
     }
 
     /* Construct the remaining elements if necessary: */
     if constexpr(!std::is_trivially_default_constructible<E>::value) {
-      for(pointer dst = copy + to; dst < copy + n; ++dst)
-        allocator_traits::construct(allocator, dst);
+      for(; last < copy + n; ++last)
+        allocator_traits::construct(allocator, last);
     }
 
     if(data) {
@@ -161,6 +162,8 @@ vector<E, dynamic<A>>::resize(int n)
       allocator_traits::deallocate(allocator, data, size);
     }
   } catch(...) {
+    this->destruct(copy, int(last - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n);
     throw;
   }
@@ -186,11 +189,12 @@ vector<E, dynamic<A>>::resize_fast(int n)
   pointer data = this->m_data;
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
+  pointer last = copy;
   try {
     /* Construct the new elements if necessary: */
     if constexpr(!std::is_trivially_default_constructible<E>::value) {
-      for(pointer dst = copy; dst < copy + n; ++dst)
-        allocator_traits::construct(allocator, dst);
+      for(; last < copy + n; ++last)
+        allocator_traits::construct(allocator, last);
     }
 
     /* Destruct elements if necessary: */
@@ -200,6 +204,8 @@ vector<E, dynamic<A>>::resize_fast(int n)
     /* Deallocate the old array: */
     allocator_traits::deallocate(allocator, data, size);
   } catch(...) {
+    this->destruct(copy, int(last - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n);
     throw;
   }
-- 
2.43.0


From b0b914f44d0f43cd91c174527702ec8c370b3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 28/32] fix: outer products of a fixed-size and a run-time
 sized vector had a fixed size of -1

---
 cml/matrix/promotion.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/promotion.h b/cml/matrix/promotion.h
index 4874b5d..b89ee79 100644
--- a/cml/matrix/promotion.h
+++ b/cml/matrix/promotion.h
@@ -203,9 +203,15 @@ struct matrix_outer_product_storage_promote
   using right_storage_type = rebind_matrix_storage_t<right_unbound_type>;
 
   /* Determine the common storage type, based on the storage types of its
-   * subexpressions:
+   * subexpressions, preferring a dynamic-size type unless both sizes are
+   * fixed:
    */
-  using type = matrix_binary_storage_promote_t<left_storage_type, right_storage_type>;
+  static const bool is_fixed = left_size > 0 && right_size > 0;
+  using dynamic_type = reshape_storage_t<
+    storage_promote_t<left_storage_type, right_storage_type, true>, -1, -1>;
+  using type = cml::if_t<is_fixed,
+    matrix_binary_storage_promote_t<left_storage_type, right_storage_type>,
+    rebind_matrix_storage_t<dynamic_type>>;
 };
 
 /** Convenience alias for matrix_outer_product_promote. */
-- 
2.43.0


From 2b100e53a981e2e8a051896e684aeec7c59bc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:00 +0000
Subject: [PATCH 29/32] fix: include the standard headers the tag and trait
 headers use

---
 cml/common/memory_tags.h        | 2 ++
 cml/common/mpl/is_reshapeable.h | 3 +++
 cml/quaternion/cross_tags.h     | 3 +++
 cml/quaternion/order_tags.h     | 1 +
 4 files changed, 9 insertions(+)

diff --git a/cml/common/memory_tags.h b/cml/common/memory_tags.h
index bb04132..95132b7 100644
--- a/cml/common/memory_tags.h
+++ b/cml/common/memory_tags.h
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <type_traits>
+
 namespace cml {
 
 /** Specify a type containing compile-time memory. */
diff --git a/cml/common/mpl/is_reshapeable.h b/cml/common/mpl/is_reshapeable.h
index cdb471f..6e3df3b 100644
--- a/cml/common/mpl/is_reshapeable.h
+++ b/cml/common/mpl/is_reshapeable.h
@@ -4,6 +4,9 @@
 
 #pragma once
 
+#include <type_traits>
+#include <utility>
+
 namespace cml {
 
 /** Helper that defines @c type as std::true_type and @c value as true if
diff --git a/cml/quaternion/cross_tags.h b/cml/quaternion/cross_tags.h
index 9f6bc96..df7d086 100644
--- a/cml/quaternion/cross_tags.h
+++ b/cml/quaternion/cross_tags.h
@@ -4,6 +4,9 @@
 
 #pragma once
 
+#include <type_traits>
+#include <cml/common/traits.h>
+
 namespace cml {
 
 /** Helper to specify v1^v2 multiplication cross. */
diff --git a/cml/quaternion/order_tags.h b/cml/quaternion/order_tags.h
index 5ba8eb1..97bee2d 100644
--- a/cml/quaternion/order_tags.h
+++ b/cml/quaternion/order_tags.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <type_traits>
 #include <cml/common/traits.h>
 
 namespace cml {
-- 
2.43.0


From 4d22c8114aaf82068fa4dc77e6bd558fbc00d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 30/32] fix: printing an empty vector reads an element that
 does not exist

---
 cml/util/vector_print.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/util/vector_print.tpp b/cml/util/vector_print.tpp
index 90cea17..20f42e1 100644
--- a/cml/util/vector_print.tpp
+++ b/cml/util/vector_print.tpp
@@ -15,8 +15,10 @@ template<class DT>
 inline std::ostream&
 operator<<(std::ostream& os, const readable_vector<DT>& v)
 {
-  os << v[0];
-  for(int i = 1; i < v.size(); ++i) os << " " << v[i];
+  for(int i = 0; i < v.size(); ++i) {
+    if(i > 0) os << " ";
+    os << v[i];
+  }
   return os;
 }
 
-- 
2.43.0


From 09200587ff1bc5d18755a18982f5324c4d001341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 31/32] fix: inverse scale by integer factors truncated to zero

---
 cml/mathlib/matrix/scale.tpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 3991414..a9ea1d0 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -46,7 +46,10 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
-  matrix_scale_2D(m, E0(1) / e0, E1(1) / e1);
+  using value_type = value_type_trait_of_t<Sub>;
+  using value0_type = scalar_promote_t<value_type, E0>;
+  using value1_type = scalar_promote_t<value_type, E1>;
+  matrix_scale_2D(m, value0_type(1) / e0, value1_type(1) / e1);
 }
 
 template<class Sub1, class Sub2>
@@ -95,7 +98,12 @@ inline void
 matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
-  matrix_scale(m, E0(1) / e0, E1(1) / e1, E2(1) / e2);
+  using value_type = value_type_trait_of_t<Sub>;
+  using value0_type = scalar_promote_t<value_type, E0>;
+  using value1_type = scalar_promote_t<value_type, E1>;
+  using value2_type = scalar_promote_t<value_type, E2>;
+  matrix_scale(m, value0_type(1) / e0, value1_type(1) / e1,
+    value2_type(1) / e2);
 }
 
 template<class Sub1, class Sub2>
-- 
2.43.0


From 7fb81f74f152736af71b2907dc9045d57fd86dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 32/32] fix: projections with integer bounds truncated to zero

---
 cml/mathlib/matrix/projection.tpp | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cml/mathlib/matrix/projection.tpp b/cml/mathlib/matrix/projection.tpp
index c191d60..9f3291a 100644
--- a/cml/mathlib/matrix/projection.tpp
+++ b/cml/mathlib/matrix/projection.tpp
@@ -31,9 +31,10 @@ matrix_orthographic(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
+  using value_type = scalar_promote_t<value_type_trait_of_t<Sub>, E>;
+  auto inv_width = value_type(1) / (right - left);
+  auto inv_height = value_type(1) / (top - bottom);
+  auto inv_depth = value_type(1) / (f - n);
   auto s = E(handedness == left_handed ? 1 : -1);
 
   if(z_clip == z_clip_neg_one) {
@@ -71,10 +72,11 @@ inline void
 matrix_orthographic(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_orthographic(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using value_type = scalar_promote_t<value_type_trait_of_t<Sub>, E>;
+  auto half_width = width / value_type(2);
+  auto half_height = height / value_type(2);
+  matrix_orthographic(m, -half_width, half_width, -half_height, half_height,
+    value_type(n), value_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -108,9 +110,10 @@ matrix_perspective(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
+  using value_type = scalar_promote_t<value_type_trait_of_t<Sub>, E>;
+  auto inv_width = value_type(1) / (right - left);
+  auto inv_height = value_type(1) / (top - bottom);
+  auto inv_depth = value_type(1) / (f - n);
   auto near2 = E(2) * n;
   auto s = E(handedness == left_handed ? 1 : -1);
 
@@ -151,10 +154,11 @@ inline void
 matrix_perspective(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_perspective(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using value_type = scalar_promote_t<value_type_trait_of_t<Sub>, E>;
+  auto half_width = width / value_type(2);
+  auto half_height = height / value_type(2);
+  matrix_perspective(m, -half_width, half_width, -half_height, half_height,
+    value_type(n), value_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
-- 
2.43.0


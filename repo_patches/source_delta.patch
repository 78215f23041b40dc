From 0f62ee9fa9ac5eaedf31cf25a32056973c45365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 01/43] fix: element ids of regular meshes overflow int when
 the mesh has more than 2^31 points

---
 include/ftk/mesh/simplicial_regular_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_regular_mesh.hh b/include/ftk/mesh/simplicial_regular_mesh.hh
index b92d54f..4203803 100644
--- a/include/ftk/mesh/simplicial_regular_mesh.hh
+++ b/include/ftk/mesh/simplicial_regular_mesh.hh
@@ -238,7 +238,7 @@ private:
   const int nd_;
   std::vector<int> lb_, ub_; // lower and upper bounds of each dimension
   std::vector<int> ntypes_, ntypes_ordinal_, ntypes_interval_; // number of types for k-simplex
-  std::vector<int> dimprod_;
+  std::vector<uint64_t> dimprod_;
 
   struct lattice lattice_; 
 
-- 
2.43.0


From ebbfc49552aa9b2ef1474c66ff3d2f436efa18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 02/43] fix: parallel_for truncates task counts beyond the
 range of int

---
 include/ftk/object.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/object.hh b/include/ftk/object.hh
index 3e79d34..3aa9a76 100644
--- a/include/ftk/object.hh
+++ b/include/ftk/object.hh
@@ -58,25 +58,25 @@ struct object {
 #endif
   }
 
-  static void parallel_for(int ntasks, std::function<void(int)> f, 
+  static void parallel_for(size_t ntasks, std::function<void(size_t)> f, 
       int thread_backend = FTK_THREAD_PTHREAD, 
       int nthreads = std::thread::hardware_concurrency(), 
       bool affinity = true)
   {
     if (thread_backend == FTK_THREAD_PTHREAD) {
-      nthreads = std::min(ntasks, nthreads);
+      nthreads = std::min(ntasks, (size_t)nthreads);
 
       std::vector<std::thread> workers;
       for (auto i = 1; i < nthreads; i ++) {
         workers.push_back(std::thread([=]() {
           if (affinity) set_affinity(i);
-          for (auto j = i; j < ntasks; j += nthreads)
+          for (size_t j = i; j < ntasks; j += nthreads)
             f(j);
         }));
       }
 
       if (affinity) set_affinity(0);
-      for (auto j = 0; j < ntasks; j += nthreads) // the main thread
+      for (size_t j = 0; j < ntasks; j += nthreads) // the main thread
         f(j);
 
       std::for_each(workers.begin(), workers.end(), [](std::thread &t) {t.join();});
-- 
2.43.0


From 7e7203586820d24bf8c01c47c3838233fff09ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 03/43] fix: the number of elements of an ndarray is computed
 in int and truncated beyond 2^31

---
 include/ftk/ndarray.hh              | 2 +-
 include/ftk/ndarray/ndarray_base.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 2049a03..f173bdb 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -525,7 +525,7 @@ void ndarray<T>::read_binary_file_sequence(const std::string& pattern)
   mydims[nd() - 1] = filenames.size();
   reshape(mydims);
  
-  size_t npt = std::accumulate(dims.begin(), dims.end()-1, 1, std::multiplies<size_t>());
+  size_t npt = std::accumulate(dims.begin(), dims.end()-1, size_t(1), std::multiplies<size_t>());
   for (int i = 0; i < filenames.size(); i ++) {
     // fprintf(stderr, "loading %s\n", filenames[i].c_str());
     FILE *fp = fopen(filenames[i].c_str(), "rb");
diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index 26780f9..6dc7ed1 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -78,7 +78,7 @@ struct ndarray_base {
   size_t dim(size_t i) const {return dims[i];}
   size_t shape(size_t i) const {return dim(i);}
   const std::vector<size_t> &shape() const {return dims;}
-  size_t nelem() const { if (empty()) return 0; else return std::accumulate(dims.begin(), dims.end(), 1, std::multiplies<size_t>()); }
+  size_t nelem() const { if (empty()) return 0; else return std::accumulate(dims.begin(), dims.end(), size_t(1), std::multiplies<size_t>()); }
   virtual size_t elem_size() const = 0;
  
   virtual const void* pdata() const = 0;
-- 
2.43.0


From 8c847b4c10311abe050befbd2155b6c5e32d61e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 04/43] fix: element loops of ndarray overflow an int counter
 on arrays with more than 2^31 elements

---
 include/ftk/ndarray.hh | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index f173bdb..1f231d9 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -324,7 +324,7 @@ template <typename T>
 template <typename T1>
 ndarray<T>& ndarray<T>::operator*=(const T1& x)
 {
-  for (auto i = 0; i < p.size(); i ++)
+  for (size_t i = 0; i < p.size(); i ++)
     p[i] *= x;
   return *this;
 }
@@ -333,7 +333,7 @@ template <typename T>
 template <typename T1>
 ndarray<T>& ndarray<T>::operator/=(const T1& x)
 {
-  for (auto i = 0; i < p.size(); i ++)
+  for (size_t i = 0; i < p.size(); i ++)
     p[i] /= x;
   return *this;
 }
@@ -344,7 +344,7 @@ ndarray<T>& ndarray<T>::operator+=(const ndarray<T>& x)
   if (empty()) *this = x;
   else {
     assert(this->shape() == x.shape());
-    for (auto i = 0; i < p.size(); i ++)
+    for (size_t i = 0; i < p.size(); i ++)
       p[i] += x.p[i];
   }
   return *this;
@@ -356,7 +356,7 @@ ndarray<T> operator+(const ndarray<T>& lhs, const ndarray<T>& rhs)
   ndarray<T> array;
   array.reshape(lhs);
 
-  for (auto i = 0; i < array.nelem(); i ++)
+  for (size_t i = 0; i < array.nelem(); i ++)
     array[i] = lhs[i] + rhs[i];
   return array;
 }
@@ -366,7 +366,7 @@ ndarray<T> operator*(const ndarray<T>& lhs, const T1& rhs)
 {
   ndarray<T> array;
   array.reshape(lhs);
-  for (auto i = 0; i < array.nelem(); i ++)
+  for (size_t i = 0; i < array.nelem(); i ++)
     array[i] = lhs[i] * rhs;
   return array;
 }
@@ -376,7 +376,7 @@ ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs)
 {
   ndarray<T> array;
   array.reshape(lhs);
-  for (auto i = 0; i < array.nelem(); i ++)
+  for (size_t i = 0; i < array.nelem(); i ++)
     array[i] = lhs[i] / rhs;
   return array;
 }
@@ -403,7 +403,7 @@ template <typename T1>
 void ndarray<T>::from_array(const ndarray<T1>& array1)
 {
   reshape(array1.shape());
-  for (auto i = 0; i < p.size(); i ++)
+  for (size_t i = 0; i < p.size(); i ++)
     p[i] = static_cast<T>(array1[i]);
   ncd = array1.multicomponents();
   tv = array1.has_time();
@@ -418,7 +418,7 @@ void ndarray<T>::from_array(const T *x, const std::vector<size_t>& shape)
 
 template <typename T>
 void ndarray<T>::from_vector(const std::vector<T> &in_vector){
-  for (int i=0;i<nelem();++i)
+  for (size_t i=0;i<nelem();++i)
     if (i<in_vector.size())
       p[i] = in_vector[i];
     else break;
@@ -462,7 +462,7 @@ ndarray<T> ndarray<T>::subarray(const lattice& l0) const
   }
 
   ndarray<T> arr(l.sizes());
-  for (auto i = 0; i < arr.nelem(); i ++) {
+  for (size_t i = 0; i < arr.nelem(); i ++) {
     auto idx = l.from_integer(i);
     arr[i] = at(idx);
   }
@@ -1164,8 +1164,8 @@ ndarray<T> ndarray<T>::concat(const std::vector<ndarray<T>>& arrays)
   const auto n = arrays[0].nelem();
   const auto n1 = arrays.size();
 
-  for (auto i = 0; i < n; i ++)
-    for (auto j = 0 ; j < n1; j ++)
+  for (size_t i = 0; i < n; i ++)
+    for (size_t j = 0 ; j < n1; j ++)
       result[i*n1 + j] = arrays[j][i];
 
   return result;
@@ -1182,8 +1182,8 @@ ndarray<T> ndarray<T>::stack(const std::vector<ndarray<T>>& arrays)
   const auto n = arrays[0].nelem();
   const auto n1 = arrays.size();
 
-  for (auto j = 0 ; j < n1; j ++)
-    for (auto i = 0; i < n; i ++)
+  for (size_t j = 0 ; j < n1; j ++)
+    for (size_t i = 0; i < n; i ++)
       result[i + j*n] = arrays[j][i];
 
   return result;
@@ -1334,7 +1334,7 @@ ndarray<T>& ndarray<T>::perturb(T sigma)
   std::mt19937 gen{rd()};
   std::normal_distribution<> d{0, sigma};
 
-  for (auto i = 0; i < nelem(); i ++)
+  for (size_t i = 0; i < nelem(); i ++)
     p[i] = p[i] + d(gen);
 
   return *this;
@@ -1343,7 +1343,7 @@ ndarray<T>& ndarray<T>::perturb(T sigma)
 template <typename T>
 ndarray<T>& ndarray<T>::clamp(T min, T max)
 {
-  for (auto i = 0; i < nelem(); i ++)
+  for (size_t i = 0; i < nelem(); i ++)
     p[i] = ftk::clamp(p[i], min, max);
 
   return *this;
-- 
2.43.0


From 2a7a995558e95da3329c01c1cdc73094a3452d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 05/43] fix: ndarray::min_max reports a positive maximum for
 arrays of non-positive values

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 1f231d9..91ba631 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -746,7 +746,7 @@ void ndarray<T>::reshape(const std::vector<size_t> &dims, T val)
 template <typename T>
 std::tuple<T, T> ndarray<T>::min_max() const {
   T min = std::numeric_limits<T>::max(), 
-    max = std::numeric_limits<T>::min();
+    max = std::numeric_limits<T>::lowest();
 
   for (size_t i = 0; i < nelem(); i ++) {
     min = std::min(min, at(i));
-- 
2.43.0


From 9e2098da400f3a3b569e11fa20de5a54084ad5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 06/43] fix: ndarray::from_index does not compile and uses an
 empty lattice instead of the shape of the array

---
 include/ftk/ndarray/ndarray_base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index 6dc7ed1..e371360 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -95,7 +95,7 @@ struct ndarray_base {
   size_t index(const size_t idx[]) const;
   
   template <typename uint=size_t>
-  std::vector<uint> from_index(uint i) const {return lattice().from_integer(i);}
+  std::vector<uint> from_index(uint i) const {const auto idx = get_lattice().from_integer(i); return std::vector<uint>(idx.begin(), idx.end());}
 
   lattice get_lattice() const;
 
-- 
2.43.0


From 8ba5a80e83ffef70f0cdedce2e1f61908bcd44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 07/43] fix: ndarray::subarray of multicomponent arrays inserts
 into the wrong vector and uses stale strides

---
 include/ftk/ndarray.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 91ba631..c284908 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -453,13 +453,14 @@ void ndarray<T>::swap(ndarray& x)
 template <typename T>
 ndarray<T> ndarray<T>::subarray(const lattice& l0) const
 {
-  lattice l(l0);
+  std::vector<size_t> starts(l0.starts()), sizes(l0.sizes());
   if (l0.nd_cuttable() < nd()) {
     for (int i = 0; i < ncd; i ++) {
-      l.starts_.insert(l.starts_.begin(), 0);
-      l.sizes_.insert(l.starts_.begin(), this->shape(i));
+      starts.insert(starts.begin() + i, 0);
+      sizes.insert(sizes.begin() + i, this->shape(i));
     }
   }
+  const lattice l(starts, sizes);
 
   ndarray<T> arr(l.sizes());
   for (size_t i = 0; i < arr.nelem(); i ++) {
-- 
2.43.0


From 6214f152c5c38c740d32efc5cdcc93f60a867dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 08/43] fix: ndarray::slice overflows an int counter on slices
 with more than 2^31 elements

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index c284908..7760eb5 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -1022,7 +1022,7 @@ template <typename T>
 inline ndarray<T> ndarray<T>::slice(const lattice& l) const
 {
   ndarray<T> array(l);
-  for (auto i = 0; i < l.n(); i ++) {
+  for (size_t i = 0; i < l.n(); i ++) {
     auto idx = l.from_integer(i);
     array[i] = at(idx);
   }
-- 
2.43.0


From 1a2846ebb2fe12f887de5cdcf554fa4003be3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 09/43] fix: const ndarray::operator()(index vector) drops
 const and does not compile

---
 include/ftk/ndarray.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 7760eb5..0325ef2 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -134,8 +134,8 @@ struct ndarray : public ndarray_base {
   T& operator()(size_t i0, size_t i1, size_t i2, size_t i3, size_t i4, size_t i5) {return p[i0+i1*s[1]+i2*s[2]+i3*s[3]+i4*s[4]+i5*s[5]];}
   T& operator()(size_t i0, size_t i1, size_t i2, size_t i3, size_t i4, size_t i5, size_t i6) {return p[i0+i1*s[1]+i2*s[2]+i3*s[3]+i4*s[4]+i5*s[5]+i6*s[6]];}
   
-  T& operator()(const std::vector<size_t>& idx) const {return at(idx);}
-  T& operator()(const std::vector<int>& idx) const {return at(idx);}
+  const T& operator()(const std::vector<size_t>& idx) const {return at(idx);}
+  const T& operator()(const std::vector<int>& idx) const {return at(idx);}
   const T& operator()(size_t i0) const {return p[i0];}
   const T& operator()(size_t i0, size_t i1) const {return p[i0+i1*s[1]];}
   const T& operator()(size_t i0, size_t i1, size_t i2) const {return p[i0+i1*s[1]+i2*s[2]];}
-- 
2.43.0


From 31b201e0107466e6d9a9175bc520f23201901607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 10/43] fix: ndarray / scalar resolves to a friend declaration
 that is never defined and does not link

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 0325ef2..6108491 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -158,7 +158,7 @@ struct ndarray : public ndarray_base {
 
   // template <typename T1> friend ndarray<T> operator*(const ndarray<T>& lhs, const T1& rhs);
   template <typename T1> friend ndarray<T> operator*(const T1& lhs, const ndarray<T>& rhs) {return rhs * lhs;}
-  template <typename T1> friend ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs);
+  // template <typename T1> friend ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs);
 
   // element access
   T& operator[](size_t i) {return p[i];}
-- 
2.43.0


From 4e1e93a15d2ce9c53929959401fb888012e6c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 11/43] fix: ndarray subtraction (operator- and operator-=) is
 declared but not defined

---
 include/ftk/ndarray.hh | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 6108491..78474bc 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -350,6 +350,16 @@ ndarray<T>& ndarray<T>::operator+=(const ndarray<T>& x)
   return *this;
 }
 
+template <typename T>
+ndarray<T>& ndarray<T>::operator-=(const ndarray<T>& x)
+{
+  if (empty()) reshape(x);
+  assert(this->shape() == x.shape());
+  for (size_t i = 0; i < p.size(); i ++)
+    p[i] -= x.p[i];
+  return *this;
+}
+
 template <typename T>
 ndarray<T> operator+(const ndarray<T>& lhs, const ndarray<T>& rhs)
 {
@@ -361,6 +371,17 @@ ndarray<T> operator+(const ndarray<T>& lhs, const ndarray<T>& rhs)
   return array;
 }
 
+template <typename T>
+ndarray<T> operator-(const ndarray<T>& lhs, const ndarray<T>& rhs)
+{
+  ndarray<T> array;
+  array.reshape(lhs);
+
+  for (size_t i = 0; i < array.nelem(); i ++)
+    array[i] = lhs[i] - rhs[i];
+  return array;
+}
+
 template <typename T, typename T1>
 ndarray<T> operator*(const ndarray<T>& lhs, const T1& rhs) 
 {
-- 
2.43.0


From 47567d9252a25d27251fddf444fa3e3ca98c1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 12/43] fix: hoshen_kopelman_2d writes past its label table on
 checkerboard-like images

---
 include/ftk/algorithms/hoshen_kopelman.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/algorithms/hoshen_kopelman.hh b/include/ftk/algorithms/hoshen_kopelman.hh
index 727308b..8299c6c 100644
--- a/include/ftk/algorithms/hoshen_kopelman.hh
+++ b/include/ftk/algorithms/hoshen_kopelman.hh
@@ -12,7 +12,7 @@ LabelIdType hoshen_kopelman_2d(ndarray<LabelIdType>& matrix)
   LabelIdType largest_label = 0;
 
   if (matrix.nd() != 2) return 0;
-  std::vector<LabelIdType> labels(matrix.nelem() / 2);
+  std::vector<LabelIdType> labels(matrix.nelem() / 2 + 2); // labels[0] counts; a checkerboard needs (nelem+1)/2 labels
 
   auto make_set = [&]() {
     labels[0] ++;
-- 
2.43.0


From f1808c5c8c9b668db4922b7acc30c68e54219836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 13/43] fix: quadratic_interpolation_hessian misses the factor
 2 of the pure second derivatives

---
 include/ftk/numeric/quadratic_interpolation.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/quadratic_interpolation.hh b/include/ftk/numeric/quadratic_interpolation.hh
index f7e7f9c..d44db84 100644
--- a/include/ftk/numeric/quadratic_interpolation.hh
+++ b/include/ftk/numeric/quadratic_interpolation.hh
@@ -116,8 +116,8 @@ bool quadratic_interpolation_gradient(const T Q[3][3], const T x[3][2], T grad[3
 
 template <typename T>
 bool quadratic_interpolation_hessian(const T Q[3][3], T H[2][2]){
-	H[0][0] = Q[0][0];
-	H[1][1] = Q[1][1];
+	H[0][0] = 2 * Q[0][0];
+	H[1][1] = 2 * Q[1][1];
 	H[0][1] = H[1][0] = Q[0][1] + Q[1][0];
 	return true;
 }
-- 
2.43.0


From ea479adcbda4d737dffd2646dcfc864f4e0d3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 14/43] fix: solve_quadratic_real writes the zero root past the
 returned roots (out of bounds for a 2-root array)

---
 include/ftk/numeric/quadratic_solver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quadratic_solver.hh b/include/ftk/numeric/quadratic_solver.hh
index ac42f0e..04e0844 100644
--- a/include/ftk/numeric/quadratic_solver.hh
+++ b/include/ftk/numeric/quadratic_solver.hh
@@ -67,7 +67,7 @@ int solve_quadratic_real(const T P[3], T x[2], const T epsilon)
     return solve_linear_real1(P, x);
   else if (std::abs(P[0]) <= epsilon || std::isinf(P[0]) || std::isnan(P[0])) {
     const int n = solve_linear_real1(P+1, x);
-    x[n+1] = T(0);
+    x[n] = T(0);
     return n+1;
   }
   else {
-- 
2.43.0


From 2a4f941246d65b0208bdb0b3d741b5df9538ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 15/43] fix: polynomial_subtraction returns Q-P instead of P-Q
 when Q has the higher degree

---
 include/ftk/numeric/polynomial.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/polynomial.hh b/include/ftk/numeric/polynomial.hh
index 3a0ec80..cbbeaf0 100644
--- a/include/ftk/numeric/polynomial.hh
+++ b/include/ftk/numeric/polynomial.hh
@@ -82,7 +82,9 @@ void polynomial_subtraction(const T P[], int m, const T Q[], int n, T R[])
       if (i <= n) R[i] = P[i] - Q[i];
       else R[i] = P[i];
   else 
-    polynomial_subtraction(Q, n, P, m, R);
+    for (int i = 0; i <= n; i ++)
+      if (i <= m) R[i] = P[i] - Q[i];
+      else R[i] = -Q[i];
 }
 
 template <typename T>
-- 
2.43.0


From d4c06357fa4ccf443660c6a0725950429d421543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 16/43] fix: polynomial_scalar_multiplication into a second
 array does not compile (const output)

---
 include/ftk/numeric/polynomial.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/polynomial.hh b/include/ftk/numeric/polynomial.hh
index cbbeaf0..0d5043f 100644
--- a/include/ftk/numeric/polynomial.hh
+++ b/include/ftk/numeric/polynomial.hh
@@ -120,7 +120,7 @@ void polynomial_scalar_multiplication(T P[], int m, T scalar)
 }
 
 template <typename T>
-void polynomial_scalar_multiplication(const T P[], int m, T scalar, const T R[])
+void polynomial_scalar_multiplication(const T P[], int m, T scalar, T R[])
 {
   for (int i = 0; i <= m; i ++) 
     R[i] = P[i] * scalar;
-- 
2.43.0


From 6110eadacb3532eaf228bfb7fcc27747946b3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 17/43] fix: jacobian2D multiplies only the second operand of
 each difference and stores off-diagonals at node (0,0)

---
 include/ftk/ndarray/grad.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index dfe5235..06682db 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -67,18 +67,18 @@ ndarray<T> jacobian2D(const ndarray<T>& vec)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      const T H00 = f(0, i+1, j) - f(0, i-1, j) * (DW-1),
-              H01 = f(0, i, j+1) - f(0, i, j-1) * (DH-1),
-              H10 = f(1, i+1, j) - f(1, i-1, j) * (DW-1), 
-              H11 = f(1, i, j+1) - f(1, i, j-1) * (DH-1);
+      const T H00 = (f(0, i+1, j) - f(0, i-1, j)) * (DW-1),
+              H01 = (f(0, i, j+1) - f(0, i, j-1)) * (DH-1),
+              H10 = (f(1, i+1, j) - f(1, i-1, j)) * (DW-1), 
+              H11 = (f(1, i, j+1) - f(1, i, j-1)) * (DH-1);
 
       grad(0, 0, i, j) = H00;
       grad(1, 1, i, j) = H11;
       if (symmetric)
         grad(0, 1, i, j) = grad(1, 0, i, j) = (H01 + H10) * 0.5;
       else {
-        grad(0, 1) = H01;
-        grad(1, 0) = H10;
+        grad(0, 1, i, j) = H01;
+        grad(1, 0, i, j) = H10;
       }
     }
   }
-- 
2.43.0


From a3d84127ff03586567251b92983aaff44952c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 18/43] fix: jacobian3Dt reads below the first slice and stores
 two components at the first time step only

---
 include/ftk/ndarray/grad.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index 06682db..70bf429 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -221,14 +221,14 @@ ndarray<T> jacobian3Dt(const ndarray<T>& V)
 
 #pragma omp parallel for collapse(4)
   for (int t = 0; t < DT; t ++) {
-    for (int k = 0; k < DD-2; k ++) {
+    for (int k = 2; k < DD-2; k ++) {
       for (int j = 2; j < DH-2; j ++) {
         for (int i = 2; i < DW-2; i ++) {
           const float H00 = J(0, 0, i, j, k, t) = // ddf/dx2
             0.5 * (V(0, i+1, j, k, t) - V(0, i-1, j, k, t));
-          const float H01 = J(0, 1, i, j, k) = // ddf/dxdy
+          const float H01 = J(0, 1, i, j, k, t) = // ddf/dxdy
             0.5 * (V(0, i, j+1, k, t) - V(0, i, j-1, k, t));
-          const float H02 = J(0, 2, i, j, k) = // ddf/dxdz
+          const float H02 = J(0, 2, i, j, k, t) = // ddf/dxdz
             0.5 * (V(0, i, j, k+1, t) - V(0, i, j, k-1, t));
 
           const float H10 = J(1, 0, i, j, k, t) = // ddf/dydx
-- 
2.43.0


From 1b9bad43a6f89c6fd2954fcd07165f5a97411fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 19/43] fix: basic_interval::set_lower_inf writes the upper
 bound of integer intervals

---
 include/ftk/numeric/basic_interval.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 25a8bc8..93a5b45 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -36,7 +36,7 @@ struct basic_interval {
     if (std::numeric_limits<T>::has_infinity)
       _lower = -std::numeric_limits<T>::infinity();
     else 
-      _upper = std::numeric_limits<T>::min();
+      _lower = std::numeric_limits<T>::min();
   }
   void set_upper_inf() {
     if (std::numeric_limits<T>::has_infinity)
-- 
2.43.0


From 09b04b395e835e4a34e474b4bf9f57d9bd8a9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 20/43] fix: basic_interval keeps stale open bounds when set to
 empty, complete or a singleton

---
 include/ftk/numeric/basic_interval.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 93a5b45..98d9980 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -70,16 +70,19 @@ struct basic_interval {
   void set_to_empty() {
     _lower = upper_inf();
     _upper = lower_inf(); 
+    set_closed();
   }
 
   void set_to_complete() {
     _lower = lower_inf();
     _upper = upper_inf();
+    set_closed();
   }
 
   void set_to_singleton(T x) {
     _lower = x;
     _upper = x;
+    set_closed();
   }
 
   T lower() const {return _lower;}
-- 
2.43.0


From fddef7c45fa5cbd573fd0968d39f1072665acabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 21/43] fix: basic_interval::contains is true for the end of an
 empty interval

---
 include/ftk/numeric/basic_interval.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 98d9980..2f73c19 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -139,7 +139,8 @@ struct basic_interval {
   }
 
   bool contains(T x) const {
-    if (singleton()) return x == lower();
+    if (empty()) return false;
+    else if (singleton()) return x == lower();
     else if (x == lower() && lower_closed()) return true;
     else if (x == upper() && upper_closed()) return true;
     else return x > lower() && x < upper();
-- 
2.43.0


From 7286b809ca7e9fa2bf91dbe1ed4d2c98eccba49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 22/43] fix: basic_interval::join ignores whether the joined
 bounds are open

---
 include/ftk/numeric/basic_interval.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 2f73c19..a1a2c3d 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -167,8 +167,17 @@ struct basic_interval {
     else if (upper() == i.lower() && upper_open() && i.lower_open()) return false;
     else if (lower() == i.upper() && lower_open() && i.upper_open()) return false;
     else {
-      _lower = std::min(lower(), i.lower());
-      _upper = std::max(upper(), i.upper());
+      if (i.lower() < lower()) {
+        _lower = i.lower();
+        _lower_open = i._lower_open;
+      } else if (i.lower() == lower())
+        _lower_open = _lower_open && i._lower_open;
+
+      if (i.upper() > upper()) {
+        _upper = i.upper();
+        _upper_open = i._upper_open;
+      } else if (i.upper() == upper())
+        _upper_open = _upper_open && i._upper_open;
       return true;
     }
   }
-- 
2.43.0


From dc3d00961c7ddc2dff16103f8d272d4d5207112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 23/43] fix: disjoint_intervals::join drops intervals that
 touch a subinterval with the same lower bound

---
 include/ftk/numeric/disjoint_intervals.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ftk/numeric/disjoint_intervals.hh b/include/ftk/numeric/disjoint_intervals.hh
index 88bbc3a..28a210c 100644
--- a/include/ftk/numeric/disjoint_intervals.hh
+++ b/include/ftk/numeric/disjoint_intervals.hh
@@ -93,10 +93,8 @@ struct disjoint_intervals {
 
     for (typename std::set<basic_interval<T> >::iterator it = _subintervals.begin(); 
         it != _subintervals.end(); it ++) {
-      if (it->overlaps(ii)) {
-        ii.join(*it);
+      if (ii.join(*it)) // overlapping or adjacent
         to_erase.push_back(it);
-      }
     }
 
     for (auto it : to_erase)
-- 
2.43.0


From 15bc4135faf876bb3d50be964610cc9f31b529d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 24/43] fix: solve_quadratic_rational_inequality_quantized
 reads past the denominator coefficients

---
 include/ftk/numeric/quadratic_rational_inequality_solver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quadratic_rational_inequality_solver.hh b/include/ftk/numeric/quadratic_rational_inequality_solver.hh
index 2e386a2..cdd9c3c 100644
--- a/include/ftk/numeric/quadratic_rational_inequality_solver.hh
+++ b/include/ftk/numeric/quadratic_rational_inequality_solver.hh
@@ -20,7 +20,7 @@ solve_quadratic_rational_inequality_quantized(
   if (polynomial_equals_to_zero(P, 2)) {
     I.set_to_complete();
     return std::make_tuple(I, quantized_roots);
-  } else if (polynomial_equals_to_zero(Q, 3)) {
+  } else if (polynomial_equals_to_zero(Q, 2)) {
     I.set_to_empty();
     return std::make_tuple(I, quantized_roots);
   }
-- 
2.43.0


From 91c8d687636958a0a9ff653e20909927ed80d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 25/43] fix: fixed_point division divides by the factor twice

---
 include/ftk/numeric/fixed_point.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/fixed_point.hh b/include/ftk/numeric/fixed_point.hh
index 9d1a0c0..c4a110b 100644
--- a/include/ftk/numeric/fixed_point.hh
+++ b/include/ftk/numeric/fixed_point.hh
@@ -38,7 +38,7 @@ struct fixed_point {
     return *this;
   }
   fixed_point& __device__ __host__ operator/=(const fixed_point& x) {
-    num = num / x.num / factor;
+    num = (num * factor) / x.num;
     return *this;
   }
 
-- 
2.43.0


From b5b5f494f24c608413dd518773dba0c345319ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 26/43] fix: fixed_point operators do not compile with a
 non-default factor

---
 include/ftk/numeric/fixed_point.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/numeric/fixed_point.hh b/include/ftk/numeric/fixed_point.hh
index c4a110b..ba211a4 100644
--- a/include/ftk/numeric/fixed_point.hh
+++ b/include/ftk/numeric/fixed_point.hh
@@ -60,14 +60,14 @@ private:
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator+(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t += b;
 }
 
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator-(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t -= b;
 }
 
@@ -80,14 +80,14 @@ fixed_point<I, factor> __device__ __host__ operator-(const fixed_point<I, factor
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator*(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t *= b;
 }
 
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator/(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t /= b;
 }
 
-- 
2.43.0


From 00864bdd576614db327b85e387bc4704bcb5302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 27/43] fix: extruded meshes map ids that are negative
 multiples of the step size out of range

---
 include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh | 2 +-
 include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh
index bdfdacc..a04a291 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh
@@ -64,7 +64,7 @@ template <typename I, typename F>
 I simplicial_unstructured_extruded_2d_mesh<I, F>::mod(I v, I m)
 {
   I mod = v % m;
-  if (v < 0) mod += m;
+  if (mod < 0) mod += m;
   return mod;
 }
 
diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 0e2041a..261862f 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -67,7 +67,7 @@ template <typename I, typename F>
 I simplicial_unstructured_extruded_3d_mesh<I, F>::mod(I v, I m)
 {
   I mod = v % m;
-  if (v < 0) mod += m;
+  if (mod < 0) mod += m;
   return mod;
 }
 
-- 
2.43.0


From 3ef8b9ef2b24549bc1907a3bccf22d0cd00277a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 28/43] fix: vertical edges of a partitioned extruded mesh
 resolve the wrong vertex

---
 .../simplicial_unstructured_extruded_2d_mesh_implicit.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh
index 0a9b92e..0a8536a 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh
@@ -199,10 +199,11 @@ I simplicial_unstructured_extruded_2d_mesh_implicit<I, F>::get_simplex(int d, I
           gid = eid + this->m2->n(1);
       }
     } else {
-      const I vid = part ? this->m2->lid2gid(0, i) : i;
-      verts[0] = vid - 2*this->m2->n(1);
-      verts[1] = vid - 2*this->m2->n(1) + this->m2->n(0);
-      gid = vid; // + 2 * this->m2->n(1);
+      const I lid = i - 2*this->m2->n(1, part);
+      const I vid = part ? this->m2->lid2gid(0, lid) : lid;
+      verts[0] = vid;
+      verts[1] = vid + this->m2->n(0);
+      gid = vid + 2*this->m2->n(1);
     }
   } else if (d == 2) {
     if (type < 3) {
-- 
2.43.0


From 7f5b8fb3e8f55041f3596035acea3bca7e8000bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 29/43] fix: fourth pentachoron type of the extruded 3D mesh
 repeats a vertex

---
 include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 261862f..40c0a8a 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -433,9 +433,9 @@ void simplicial_unstructured_extruded_3d_mesh<I, F>::get_simplex(int d, I k, I v
         verts[4] = tet[3] + m->n(0);
         break;
 
-      case 3: // type IV:  0 1'1'2'3'
+      case 3: // type IV:  0 0'1'2'3'
         verts[0] = tet[0];
-        verts[1] = tet[1] + m->n(0);
+        verts[1] = tet[0] + m->n(0);
         verts[2] = tet[1] + m->n(0);
         verts[3] = tet[2] + m->n(0);
         verts[4] = tet[3] + m->n(0);
-- 
2.43.0


From 0c56543b37320cb9affc2daaadf28938cef3203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 30/43] fix: extruded 3D mesh counts all pentachora as ordinal

---
 include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 40c0a8a..73885bb 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -10,7 +10,7 @@ struct simplicial_unstructured_extruded_3d_mesh : public object { // extruded fr
   simplicial_unstructured_extruded_3d_mesh(std::shared_ptr<simplicial_unstructured_3d_mesh<I, F>> m_) : m(m_) {extrude();}
 
   size_t n(int d) const;
-  size_t n_ordinal(int d) const { if (d == 4) return m->n(3)*4; else return m->n(d); }
+  size_t n_ordinal(int d) const { if (d == 4) return 0; else return m->n(d); } // all pentachora span two timesteps
   size_t n_interval(int d) const;
 
   bool is_ordinal(int d, I i) const {
-- 
2.43.0


From 22674323596cdd86d75069125c8f8603c0e7a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 31/43] fix: tetrahedra around a triangle of the extruded 3D
 mesh are incomplete

---
 ...simplicial_unstructured_extruded_3d_mesh.hh | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 73885bb..f7a68c6 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -1009,6 +1009,10 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
 
+      // 0 1 2 2' and 0 0'1'2' (t-1), regardless of the tets in the base mesh
+      results.insert(otid + t*n(3) + 4*m->n(3));
+      results.insert(otid + (t-1)*n(3) + 4*m->n(3) + 2*m->n(2));
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
@@ -1069,6 +1073,10 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
 
+      // 0 1 2 2' and 0 1 1'2', regardless of the tets in the base mesh
+      results.insert(otid + t*n(3) + 4*m->n(3));
+      results.insert(otid + t*n(3) + 4*m->n(3) + m->n(2));
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
@@ -1098,6 +1106,10 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
             results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
           }
         } else if (pos == 2) { // 0 1 a 2, equiv to finding 013' in 0123-0'1'2'3'
+          // 0 1 2 3'
+          results.insert(otetid + t*n(3) + m->n(3));
+          // 0 1 2'3'
+          results.insert(otetid + t*n(3) + 2*m->n(3));
           // 0 1 1'3' (0 1 1'2' type)
           {
             int otriid;
@@ -1115,6 +1127,8 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
             results.insert(otriid + t*n(3) + 4*m->n(3));
           }
         } else if (pos == 3) { // 0 1 2 a, equiv to finding 012' in 0123-0'1'2'3'
+          // 0 1 2'3'
+          results.insert(otetid + t*n(3) + 2*m->n(3));
           // 0 1 2 2' (0 1 2 2' type)
           {
             int otriid;
@@ -1136,6 +1150,10 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
     } else if (i < 3*m->n(2)) { // type 0 1'2', pos=0, 1, 2, 3
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
+
+      // 0 1 1'2' and 0 0'1'2', regardless of the tets in the base mesh
+      results.insert(otid + t*n(3) + 4*m->n(3) + m->n(2));
+      results.insert(otid + t*n(3) + 4*m->n(3) + 2*m->n(2));
       
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
-- 
2.43.0


From e27a0f799625eaeca7a1188a4ad629c693a45fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 32/43] fix: neighbours of triangles were collected from a part
 of the edges only

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index ed5ffb3..ac1aaee 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -487,7 +487,7 @@ void simplicial_unstructured_2d_mesh<I, F>::build_edges()
 
   // triangle_edge_triangles
   triangle_edge_triangles.resize(n(2));
-  for (int i = 0; i < n(2); i ++) {
+  for (int i = 0; i < n(1); i ++) {
     const I t0 = edges_side_of(0, i), 
             t1 = edges_side_of(1, i);
     if (t0 >= 0 && t1 >= 0) {
-- 
2.43.0


From bba47da003b0404a187ae98c219b3a5cc032692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 33/43] fix: second row of the vector gradient on triangular
 meshes repeats the first

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index ac1aaee..ada3ec9 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -669,7 +669,7 @@ ndarray<F> simplicial_unstructured_2d_mesh<I, F>::vector_gradient(const ndarray<
 
     for (int c = 0; c < vector.dim(0); c ++) {
       grad(0, c, i) = grad(0, c, i) / ntris;
-      grad(1, c, i) = grad(0, c, i) / ntris;
+      grad(1, c, i) = grad(1, c, i) / ntris;
     }
   }
   
-- 
2.43.0


From 190fffa2fe494c42eb84b45026d8e07155ea622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 34/43] fix: evaluation of vector fields on triangular meshes
 mixes vertices and components

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index ada3ec9..49fde1c 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -222,14 +222,13 @@ bool simplicial_unstructured_2d_mesh<I, F>::eval(const ndarray<T>& f, const F x[
       return true;
     } else if (f.multicomponents() == 1) { // vector field
       const int d = f.dim(0);
-      T fs[3][d];
 
-      for (int i = 0; i < 3; i ++)
-        for (int j = 0; j < d; j ++)
-          fs[i][j] = f(j, tri[i]);
-
-      for (int j = 0; j < d; j ++)
-        val[j] = lerp_s2(fs[j], mu);
+      for (int j = 0; j < d; j ++) {
+        T fs[3];
+        for (int i = 0; i < 3; i ++)
+          fs[i] = f(j, tri[i]);
+        val[j] = lerp_s2(fs, mu);
+      }
       return true;
     } else // not supported
       return false;
-- 
2.43.0


From 901e68d026d379f3f7592532609e22093d5ae3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 35/43] fix: triangular meshes built from vectors have no edges

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 49fde1c..6cdc588 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -269,6 +269,8 @@ simplicial_unstructured_2d_mesh<I, F>::simplicial_unstructured_2d_mesh(const std
   triangles.reshape({3, triangles_.size()/3});
 
   build_triangles();
+  build_edges();
+  build_partition();
 }
 
 template <typename I, typename F>
-- 
2.43.0


From 9d1494b33c8a883144b39f78d1549465e85ee628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 36/43] fix: tetrahedral meshes built from vectors have no
 triangles and edges

---
 include/ftk/mesh/simplicial_unstructured_3d_mesh.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
index 91ceecb..0068425 100644
--- a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
@@ -113,6 +113,8 @@ simplicial_unstructured_3d_mesh<I, F>::simplicial_unstructured_3d_mesh(
 
   // tetrahedra.copy_vector(tetrahedra_);
   // tetrahedra.reshape({4, tetrahedra_.size()/4});
+
+  initialize();
 }
 
 template <typename I, typename F>
-- 
2.43.0


From 62f963e46dd7ee0685a09d6796c808353e9295c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 37/43] fix: smoothed gradients on unstructured meshes point
 downhill

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 4 ++--
 include/ftk/mesh/simplicial_unstructured_3d_mesh.hh | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 6cdc588..c661979 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -611,8 +611,8 @@ void simplicial_unstructured_2d_mesh<I, F>::smooth_scalar_gradient_jacobian(
       scalar[i] += f[k] * w;
 
       // gradient
-      grad(0, i) += - f[k] * w * d[0] / sigma2;
-      grad(1, i) += - f[k] * w * d[1] / sigma2;
+      grad(0, i) += f[k] * w * d[0] / sigma2;
+      grad(1, i) += f[k] * w * d[1] / sigma2;
 
       // jacobian
       J(0, 0, i) += (d[0]*d[0] / sigma2 - 1) / sigma2 * f[k] * w;
diff --git a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
index 0068425..7b0723b 100644
--- a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
@@ -632,9 +632,9 @@ void simplicial_unstructured_3d_mesh<I, F>::smooth_scalar_gradient_jacobian(
       scalar[i] += f[k] * w;
 
       // gradient
-      grad(0, i) += - f[k] * w * d[0] / sigma2;
-      grad(1, i) += - f[k] * w * d[1] / sigma2;
-      grad(2, i) += - f[k] * w * d[2] / sigma2;
+      grad(0, i) += f[k] * w * d[0] / sigma2;
+      grad(1, i) += f[k] * w * d[1] / sigma2;
+      grad(2, i) += f[k] * w * d[2] / sigma2;
 
       // jacobian
       J(0, 0, i) += (d[0]*d[0] / sigma2 - 1) / sigma2 * f[k] * w;
-- 
2.43.0


From 9902a4cad2ba309c15b37bf2787dd7d88852e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 38/43] fix: points on the upper side of a bounding box are not
 located in the triangles there

---
 include/ftk/mesh/aabb.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/aabb.hh b/include/ftk/mesh/aabb.hh
index b3cb060..2d25dc4 100644
--- a/include/ftk/mesh/aabb.hh
+++ b/include/ftk/mesh/aabb.hh
@@ -36,7 +36,7 @@ struct AABB {
 
   bool contains(const std::array<T, N> &X) const {
     for (int i = 0; i < N; i ++) 
-      if (X[i] < A[i] || X[i] >= B[i])
+      if (X[i] < A[i] || X[i] > B[i])
         return false;
     return true;
   }
-- 
2.43.0


From ff66ff721a6cdbb50768cd96b579fdce1278b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:10 +0000
Subject: [PATCH 39/43] fix: parallel_for does not terminate when the number of
 threads is unknown (0)

---
 include/ftk/object.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/object.hh b/include/ftk/object.hh
index 3aa9a76..6ae9672 100644
--- a/include/ftk/object.hh
+++ b/include/ftk/object.hh
@@ -64,7 +64,7 @@ struct object {
       bool affinity = true)
   {
     if (thread_backend == FTK_THREAD_PTHREAD) {
-      nthreads = std::min(ntasks, (size_t)nthreads);
+      nthreads = std::min(ntasks, (size_t)std::max(nthreads, 1)); // hardware_concurrency() may be 0
 
       std::vector<std::thread> workers;
       for (auto i = 1; i < nthreads; i ++) {
-- 
2.43.0


From 2032bad8ba1e51824f598a9768840ea42597cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 40/43] fix: explicit coordinates of the 3D critical point
 tracker ignored z and used z as time

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 8170dcd..c916a69 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -371,10 +371,10 @@ inline void critical_point_tracker_3d_regular::simplex_coordinates(
     }
   } else if (mode_phys_coords == REGULAR_COORDS_EXPLICIT) {
     for (int i = 0; i < vertices.size(); i ++) {
-      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1]); // x
-      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1]); // y
-      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1]);
-      X[i][3] = vertices[i][2]; // t
+      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1], vertices[i][2]); // x
+      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1], vertices[i][2]); // y
+      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1], vertices[i][2]); // z
+      X[i][3] = vertices[i][3]; // t
     }
   }
 }
-- 
2.43.0


From e633e20cca11746c84049ad5e44920e889e71331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 41/43] fix: the 3D critical point tracker read Jacobians that
 were not given

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index c916a69..101bd15 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -484,9 +484,12 @@ inline bool critical_point_tracker_3d_regular::check_simplex(
     cp.scalar[0] = lerp_s3(values, mu);
   }
 
-  double Js[4][3][3], J[3][3];
-  simplex_jacobians(vertices, Js);
-  ftk::lerp_s3m3x3(Js, mu, J);
+  double J[3][3] = {0}; // jacobian or hessian
+  if (jacobian_field_source != SOURCE_NONE) {
+    double Js[4][3][3];
+    simplex_jacobians(vertices, Js);
+    ftk::lerp_s3m3x3(Js, mu, J);
+  }
 
   cp.type = ftk::critical_point_type_3d(J, is_jacobian_field_symmetric);
   cp.tag = e.to_integer(m);
-- 
2.43.0


From f3e2bd6d8989c9cd703b0118f6a0c80551cd2b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 42/43] fix: the 3D critical point tracker ignored the type
 filter

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 101bd15..bff9bb2 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -165,7 +165,8 @@ inline void critical_point_tracker_3d_regular::update_timestep()
       feature_point_t cp;
       if (check_simplex(e, cp)) {
         std::lock_guard<std::mutex> guard(mutex);
-        discrete_critical_points[e] = cp;
+        if (filter_critical_point_type(cp))
+          discrete_critical_points[e] = cp;
         // fprintf(stderr, "x={%f, %f, %f}, t=%f, cond=%f, type=%d\n", cp[0], cp[1], cp[2], cp.t, cp.cond, cp.type);
       }
     };
-- 
2.43.0


From 3acd78bd6d25e632ba2351931cea425df6902169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:14 +0000
Subject: [PATCH 43/43] fix: clamped barycentric coordinates in the 3D
 unstructured tracker did not sum to one

---
 include/ftk/filters/critical_point_tracker_3d_unstructured.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index fd71cc2..5ff71ea 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -138,7 +138,7 @@ inline bool critical_point_tracker_3d_unstructured::check_simplex(int i, feature
       mu[0] = std::max(std::min(1.0, mu[0]), 0.0);
       mu[1] = std::max(std::min(1.0-mu[0], mu[1]), 0.0);
       mu[2] = std::max(std::min(1.0-mu[1]-mu[0], mu[2]), 0.0);
-      mu[2] = 1.0 - mu[0] - mu[1] - mu[2];
+      mu[3] = 1.0 - mu[0] - mu[1] - mu[2];
       // fprintf(stderr,  "mu =%f, %f, %f\n", mu[0], mu[1], mu[2]);
     }
   }
-- 
2.43.0


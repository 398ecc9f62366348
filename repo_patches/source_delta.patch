From a3e4f1389b0f0d0820390b19122f7fabe26af838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 01/45] fix: print a Graph to the stream that was passed to
 operator<<

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index d074abd..c188f87 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -277,7 +277,7 @@ template <typename VertexType>
 inline std::ostream &operator<<(std::ostream &os,
                                 const Graph<VertexType> &graph) {
   for (const auto &edge : graph.edges) {
-    std::cout << edge << std::endl;
+    os << edge << std::endl;
   }
   return os;
 }
-- 
2.43.0


From d90c753c261f1299c6e4755b6c11766ab0e297f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 02/45] fix: keep self loops out of spanning trees

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index c188f87..8045a43 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -132,6 +132,10 @@ Graph<VertexType> maximum_spanning_tree(const Graph<VertexType> &graph) {
   const Edge<VertexType> first_edge =
       *std::max_element(graph.edges.begin(), graph.edges.end());
 
+  // The tree starts from this vertex, so (for example) an edge which leads
+  // from it back to itself isn't part of the tree.
+  output.vertices.insert(first_edge.a);
+
   for (const auto &edge : adjacency.at(first_edge.a)) {
     if (!contains_vertex(output, edge.b)) {
       queue.push(edge);
-- 
2.43.0


From 283d375fdbc97714c17eaf4b15c8ff01961ade05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 03/45] fix: don't trust the declared size in
 zstd::maybe_decompress

---
 include/albatross/src/utils/compress.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/albatross/src/utils/compress.hpp b/include/albatross/src/utils/compress.hpp
index cb6cf4b..32b1ac9 100644
--- a/include/albatross/src/utils/compress.hpp
+++ b/include/albatross/src/utils/compress.hpp
@@ -186,6 +186,13 @@ maybe_decompress(const std::string &input, std::string *output) {
     return false;
   }
 
+  // The size comes from the (possibly corrupt) input, don't allocate more than
+  // an input of this length could ever decompress to: every block takes at
+  // least one byte and holds at most `ZSTD_BLOCKSIZE_MAX` bytes.
+  if (decompressed_size / ZSTD_BLOCKSIZE_MAX > input.size()) {
+    return false;
+  }
+
   output->resize(decompressed_size);
   const auto result = internal::maybe_decompress(
       input, const_cast<void *>(static_cast<const void *>(output->data())),
-- 
2.43.0


From c82f1cbfbd91db76579f71b52e6b75cde5c1783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 04/45] fix: print a JointDistribution to the stream that was
 passed to operator<<

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fc7d26..f090580 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -299,7 +299,7 @@ inline std::ostream &operator<<(std::ostream &os,
                            joint.covariance.cols() + 1);
   combined.rightCols(joint.covariance.cols()) = joint.covariance;
   combined.col(0) = joint.mean;
-  std::cout << combined;
+  os << combined;
   return os;
 }
 
-- 
2.43.0


From c30c268c707733aff013bc13a922ce5cb572ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 05/45] fix: make the free set_subset usable with distributions

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index f090580..5a95804 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -243,7 +243,7 @@ template <typename SizeType, typename DistributionType>
 inline void set_subset(const DistributionBase<DistributionType> &from,
                        const std::vector<SizeType> &indices,
                        DistributionBase<DistributionType> *to) {
-  to->derived().set_subset(from, indices);
+  to->derived().set_subset(from.derived(), indices);
 }
 
 template <typename Derived>
-- 
2.43.0


From c9032e1764556c7fc3c0a9bb42fc23515af06193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 06/45] fix: wait for every task of a parallel apply before
 rethrowing an exception

---
 include/albatross/src/utils/async_utils.hpp | 23 +++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/albatross/src/utils/async_utils.hpp b/include/albatross/src/utils/async_utils.hpp
index 3239325..23cad91 100644
--- a/include/albatross/src/utils/async_utils.hpp
+++ b/include/albatross/src/utils/async_utils.hpp
@@ -21,6 +21,23 @@ inline bool should_serial_apply(ThreadPool *pool) {
   return (nullptr == pool) || (pool->thread_count() <= 1);
 }
 
+// Blocks until every task has finished.  Getting the results one by one would
+// rethrow the first exception while other tasks, which may reference objects
+// that are about to be destroyed by the caller, are still running.
+template <typename T>
+inline void wait_for_all(const std::vector<std::future<T>> &futures) {
+  for (const auto &f : futures) {
+    f.wait();
+  }
+}
+
+template <typename KeyType, typename T>
+inline void wait_for_all(const Grouped<KeyType, std::future<T>> &futures) {
+  for (const auto &f : futures) {
+    f.second.wait();
+  }
+}
+
 } // namespace detail
 
 template <typename ValueType, typename ApplyFunction,
@@ -41,6 +58,7 @@ inline void apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -64,6 +82,7 @@ inline auto apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
     futures.emplace_back(pool->enqueue(func, x));
   }
 
+  detail::wait_for_all(futures);
   std::vector<ApplyType> output;
   for (auto &f : futures) {
     output.emplace_back(f.get());
@@ -90,6 +109,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -115,6 +135,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
@@ -142,6 +163,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.first, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -168,6 +190,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.first, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
-- 
2.43.0


From 3673f75b1cb5f459012876ff32255d937a9eed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 07/45] fix: normalise the Gaussian and log normal prior
 densities

---
 include/albatross/src/core/priors.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 978aa34..976739f 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -134,7 +134,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation);
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation);
   }
 
   double mu_;
@@ -162,7 +162,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
   }
 
   double mu_;
@@ -185,7 +185,8 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (log(x) - mu_) / sigma_;
-    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - deviation * deviation;
+    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) -
+           0.5 * deviation * deviation;
   }
 
   double mu_;
-- 
2.43.0


From 6160a18d152a6eb22c4e3c01f93982009aca9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 08/45] fix: give positive priors zero density below zero and
 bounds which hold their mass

---
 include/albatross/src/core/priors.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 976739f..fc3c832 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -152,7 +152,9 @@ public:
 
   double lower_bound() const override { return 0.; }
 
-  double upper_bound() const override { return 10. * sigma_; }
+  double upper_bound() const override {
+    return std::max(mu_, 0.) + 10. * sigma_;
+  }
 
   std::string get_name() const override {
     std::ostringstream oss;
@@ -161,8 +163,14 @@ public:
   }
 
   double log_pdf(double x) const override {
+    if (!(x >= 0.)) {
+      return -LARGE_VAL;
+    }
+    // The probability that the untruncated Gaussian is positive.
+    const double log_mass = log(0.5 * std::erfc(-mu_ / (M_SQRT2 * sigma_)));
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) -
+           log_mass;
   }
 
   double mu_;
@@ -173,6 +181,8 @@ class LogNormalPrior : public Prior {
 public:
   LogNormalPrior(double mu = 0., double sigma = 1.) : mu_(mu), sigma_(sigma) {}
 
+  double lower_bound() const override { return 0.; }
+
   bool operator==(const LogNormalPrior &other) const {
     return other.mu_ == mu_ && other.sigma_ == sigma_;
   }
@@ -184,6 +194,9 @@ public:
   }
 
   double log_pdf(double x) const override {
+    if (!(x > 0.)) {
+      return -LARGE_VAL;
+    }
     double deviation = (log(x) - mu_) / sigma_;
     return -0.5 * LOG_2PI_ - log(sigma_) - log(x) -
            0.5 * deviation * deviation;
-- 
2.43.0


From 6bc86d4fe5652bda5043e47497ebf08bccea42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 09/45] fix: compare uniform priors by their bounds instead of
 their printed names

---
 include/albatross/src/core/priors.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index fc3c832..ac4e1d9 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -80,6 +80,12 @@ public:
     ALBATROSS_ASSERT(upper_ > lower_);
   };
 
+  // The name only holds a few digits of the bounds.
+  bool operator==(const UniformPrior &other) const {
+    return get_name() == other.get_name() && lower_ == other.lower_ &&
+           upper_ == other.upper_;
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "uniform[" << lower_ << "," << upper_ << "]";
@@ -259,6 +265,10 @@ public:
     return priors_ == other.priors_;
   }
 
+  bool operator!=(const PriorContainer &other) const {
+    return !(*this == other);
+  }
+
   template <typename PriorType> void operator=(const PriorType &prior) {
     priors_ = prior;
   }
-- 
2.43.0


From 57c66eab26939886aab3c0ef7a1b391735e9958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 10/45] fix: make block_product callable

---
 include/albatross/src/linalg/block_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/linalg/block_utils.hpp b/include/albatross/src/linalg/block_utils.hpp
index 77fa09c..b40e4fc 100644
--- a/include/albatross/src/linalg/block_utils.hpp
+++ b/include/albatross/src/linalg/block_utils.hpp
@@ -68,7 +68,7 @@ inline Eigen::MatrixXd block_accumulate(const Grouped<GroupKey, X> &lhs,
   return block_sum(apply(lhs.keys(), one_group));
 }
 
-template <typename GroupKey, typename ApplyFunction>
+template <typename GroupKey>
 inline Eigen::MatrixXd
 block_product(const Grouped<GroupKey, Eigen::MatrixXd> &lhs,
               const Grouped<GroupKey, Eigen::MatrixXd> &rhs) {
-- 
2.43.0


From 83b20f242d60d1d3feebe6e9cc69e954ebc35093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 11/45] fix: don't read past the last eigen direction when
 printing

---
 include/albatross/src/linalg/print_eigen_directions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/albatross/src/linalg/print_eigen_directions.hpp b/include/albatross/src/linalg/print_eigen_directions.hpp
index 1bd3aba..c329dde 100644
--- a/include/albatross/src/linalg/print_eigen_directions.hpp
+++ b/include/albatross/src/linalg/print_eigen_directions.hpp
@@ -50,6 +50,8 @@ inline void _print_eigen_directions(const Eigen::MatrixXd &matrix,
 
   stream->flags(f);
 
+  // There are only so many directions to print.
+  count = std::min(count, values_and_vectors.size());
   for (std::size_t i = 0; i < count; ++i) {
     const double value = std::get<0>(values_and_vectors[i]);
     const auto vector = std::get<1>(values_and_vectors[i]);
-- 
2.43.0


From 3a196ca68def0ec55aa42035fc212d2c81b75d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 12/45] fix: make block sums over groups and block solves of
 sparse matrices compile

block_accumulate's unqualified apply() found std::apply through the
std::vector argument, and BlockDiagonalLDLT's solves of sparse right hand
sides passed a sparse block to dense solvers.
---
 include/albatross/src/linalg/block_diagonal.hpp | 6 ++++--
 include/albatross/src/linalg/block_utils.hpp    | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 2932187..1c7ad3f 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -130,7 +130,8 @@ BlockDiagonalLDLT::solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.solve(rhs_chunk);
     i += b.rows();
   }
@@ -155,7 +156,8 @@ BlockDiagonalLDLT::sqrt_solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.sqrt_solve(rhs_chunk);
     i += b.rows();
   }
diff --git a/include/albatross/src/linalg/block_utils.hpp b/include/albatross/src/linalg/block_utils.hpp
index b40e4fc..60efe37 100644
--- a/include/albatross/src/linalg/block_utils.hpp
+++ b/include/albatross/src/linalg/block_utils.hpp
@@ -65,7 +65,7 @@ inline Eigen::MatrixXd block_accumulate(const Grouped<GroupKey, X> &lhs,
     return apply_function(lhs.at(key), rhs.at(key));
   };
 
-  return block_sum(apply(lhs.keys(), one_group));
+  return block_sum(albatross::apply(lhs.keys(), one_group));
 }
 
 template <typename GroupKey>
-- 
2.43.0


From a1775033eb79efccf9435817636281cd90b9e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 13/45] fix: don't drop terms for measured linear combinations
 of features

Constant claimed to be directly callable with a
Measurement<LinearCombination<X>>, so sums and products with it ignored
their other terms (and the coefficients) for such features.  Likewise sums
and products of mean functions were defined for any composite type, so a
product of mean functions multiplied the combinations instead of combining
the products.
---
 .../covariance_functions/mean_function.hpp    | 30 +++++++++++--------
 .../src/covariance_functions/polynomials.hpp  |  5 +++-
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/albatross/src/covariance_functions/mean_function.hpp b/include/albatross/src/covariance_functions/mean_function.hpp
index ea0f541..f127135 100644
--- a/include/albatross/src/covariance_functions/mean_function.hpp
+++ b/include/albatross/src/covariance_functions/mean_function.hpp
@@ -167,8 +167,8 @@ public:
    * this will return the sum of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x) + this->rhs_(x);
@@ -178,8 +178,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -189,8 +189,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -232,8 +232,8 @@ public:
    * this will return the product of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     double output = this->lhs_(x);
@@ -247,8 +247,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -258,8 +258,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -272,7 +272,11 @@ protected:
 };
 
 struct ZeroMean : public MeanFunction<ZeroMean> {
-  template <typename X> double _call_impl(const X &) const { return 0.; }
+  template <typename X,
+            typename std::enable_if<is_basic_type<X>::value, int>::type = 0>
+  double _call_impl(const X &) const {
+    return 0.;
+  }
 };
 
 template <typename Derived>
diff --git a/include/albatross/src/covariance_functions/polynomials.hpp b/include/albatross/src/covariance_functions/polynomials.hpp
index 1c39d63..17de6b2 100644
--- a/include/albatross/src/covariance_functions/polynomials.hpp
+++ b/include/albatross/src/covariance_functions/polynomials.hpp
@@ -53,7 +53,10 @@ public:
    * which is saying all observations are perfectly correlated,
    * so you can move one if you move the rest the same amount.
    */
-  template <typename X, typename Y>
+  template <
+      typename X, typename Y,
+      typename std::enable_if<
+          is_basic_type<X>::value && is_basic_type<Y>::value, int>::type = 0>
   double _call_impl(const X &x __attribute__((unused)),
                     const Y &y __attribute__((unused))) const {
     return sigma_constant.value * sigma_constant.value;
-- 
2.43.0


From 40803a3fb8757e8056d881c86337d0c5865fb624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 14/45] fix: scale both features when only one of them is a
 measurement

ScalingTerm ignores a feature type its scaling function is not defined for,
and took Measurement<X> for such a type when the other feature was a plain
X, so cross covariances between training and test features were scaled by
one of the two factors only.
---
 .../albatross/src/covariance_functions/scaling_function.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/covariance_functions/scaling_function.hpp b/include/albatross/src/covariance_functions/scaling_function.hpp
index 62351ec..becbbe3 100644
--- a/include/albatross/src/covariance_functions/scaling_function.hpp
+++ b/include/albatross/src/covariance_functions/scaling_function.hpp
@@ -91,7 +91,8 @@ public:
    */
   template <typename X, typename Y,
             typename std::enable_if<
-                (!has_valid_call_impl<ScalingFunction, X &>::value &&
+                (is_basic_type<X>::value &&
+                 !has_valid_call_impl<ScalingFunction, X &>::value &&
                  has_valid_call_impl<ScalingFunction, Y &>::value),
                 int>::type = 0>
   double _call_impl(const X &, const Y &y) const {
@@ -100,7 +101,8 @@ public:
 
   template <typename X, typename Y,
             typename std::enable_if<
-                (has_valid_call_impl<ScalingFunction, X &>::value &&
+                (is_basic_type<Y>::value &&
+                 has_valid_call_impl<ScalingFunction, X &>::value &&
                  !has_valid_call_impl<ScalingFunction, Y &>::value),
                 int>::type = 0>
   double _call_impl(const X &x, const Y &) const {
-- 
2.43.0


From 0c74996629fe94eee2810c47a0a51c2387b74cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 15/45] fix: derive finite length scales for small increases in
 standard deviation

---
 include/albatross/src/covariance_functions/radial.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index a129b3e..a60a657 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -45,7 +45,8 @@ inline double process_noise_equivalent(RadialFunction func, double distance) {
   //   STD[f_d|f_0] = sqrt(k(0) - k(d)^2/ k(0))
   const double k0 = func(0);
   const double kd = func(distance);
-  return sqrt(k0 - kd * kd / k0);
+  // rounding can put this slightly below zero for very long length scales
+  return sqrt(std::max(0., k0 - kd * kd / k0));
 }
 
 namespace detail {
@@ -121,7 +122,7 @@ inline double derive_squared_exponential_length_scale(double reference_distance,
   const double ratio = std_dev_increase / prior_sigma;
   assert(ratio > 0.);
   assert(ratio < 1.);
-  return sqrt(2.0) * reference_distance / sqrt(-log(1. - ratio * ratio));
+  return sqrt(2.0) * reference_distance / sqrt(-log1p(-ratio * ratio));
 }
 
 /*
@@ -229,7 +230,7 @@ inline double derive_exponential_length_scale(double reference_distance,
   const double ratio = std_dev_increase / prior_sigma;
   assert(ratio > 0.);
   assert(ratio < 1.);
-  return -2.0 * reference_distance / log(1. - ratio * ratio);
+  return -2.0 * reference_distance / log1p(-ratio * ratio);
 }
 
 /*
-- 
2.43.0


From a5472449c8475f843f7b61d9a7d60886aa33dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 16/45] fix: keep the length scale solver bracketed so it
 converges

---
 include/albatross/src/covariance_functions/radial.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index a60a657..e5a6ad6 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -318,6 +318,15 @@ inline double newton_solve(double guess, double target, Func func, Grad grad,
       break;
     }
 
+    // The sign of the step says on which side of the guess the solution is, so
+    // the bounds can be tightened, without that the fall back to bisection can
+    // end up alternating between the same guesses.
+    if (delta > 0.) {
+      upper_bound = guess;
+    } else {
+      lower_bound = guess;
+    }
+
     if (guess - delta <= lower_bound) {
       guess = 0.5 * (guess + lower_bound);
     } else if (guess - delta >= upper_bound) {
-- 
2.43.0


From e50394297abc4c132e12a31282cf4e73457edd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 17/45] fix: include measurement noise when updating a Gaussian
 process

---
 include/albatross/src/models/gp.hpp | 48 +++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index c10da0d..fca0d38 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -152,6 +152,27 @@ gp_fit_from_prediction(const std::vector<FeatureType> &features,
   return fit;
 }
 
+/*
+ * The features of a fit are measurements, except for the leading ones of a fit
+ * which started from a prediction (see gp_fit_from_prediction).
+ */
+template <typename CovarianceRepresentation>
+inline Eigen::Index gp_unmeasured_feature_count(
+    const CovarianceRepresentation &covariance ALBATROSS_UNUSED) {
+  return 0;
+}
+
+inline Eigen::Index
+gp_unmeasured_feature_count(const ExplainedCovariance &covariance) {
+  return covariance.rows();
+}
+
+template <typename Solver>
+inline Eigen::Index
+gp_unmeasured_feature_count(const BlockSymmetric<Solver> &covariance) {
+  return gp_unmeasured_feature_count(covariance.A);
+}
+
 template <typename CovFunc, typename MeanFunc>
 std::string default_model_name(const CovFunc &cov_func,
                                const MeanFunc &mean_func) {
@@ -388,15 +409,30 @@ public:
                             const MarginalDistribution &targets) const {
     const auto new_features = concatenate(fit_.train_features, features);
 
-    auto pred = this->_predict_impl(features, fit_,
-                                    PredictTypeIdentity<JointDistribution>());
+    const auto measurement_features = as_measurements(features);
+
+    // The data already in the fit was measured as well.
+    Eigen::MatrixXd cross = covariance_function_(
+        as_measurements(fit_.train_features), measurement_features);
+    const Eigen::Index unmeasured_count =
+        gp_unmeasured_feature_count(fit_.train_covariance);
+    if (unmeasured_count > 0) {
+      const std::vector<FeatureType> unmeasured_features(
+          fit_.train_features.begin(),
+          fit_.train_features.begin() + unmeasured_count);
+      cross.topRows(unmeasured_count) =
+          covariance_function_(unmeasured_features, measurement_features);
+    }
+
+    const Eigen::MatrixXd prior_cov =
+        covariance_function_(measurement_features);
+    auto pred = gp_joint_prediction(cross, prior_cov, fit_.information,
+                                    fit_.train_covariance);
+    mean_function_.add_to(measurement_features, &pred.mean);
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
     pred.covariance += targets.covariance;
-    const auto S_ldlt = pred.covariance.ldlt();
-
-    const Eigen::MatrixXd cross =
-        covariance_function_(fit_.train_features, features);
+    const Eigen::SerializableLDLT S_ldlt(pred.covariance);
 
     const auto new_covariance =
         build_block_symmetric(fit_.train_covariance, cross, S_ldlt);
-- 
2.43.0


From 403d077e04ca54f7ab33ef0a4866ea312a409e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 18/45] fix: include the noise of the targets in a Gaussian
 process' log likelihood

---
 include/albatross/src/models/gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index fca0d38..004264b 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -480,7 +480,8 @@ public:
     Eigen::VectorXd zero_mean(dataset.targets.mean);
     const auto measurement_features = as_measurements(dataset.features);
     mean_function_.remove_from(measurement_features, &zero_mean);
-    const Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    cov += dataset.targets.covariance;
     double ll = -negative_log_likelihood(zero_mean, cov);
     ll += this->prior_log_likelihood();
     return ll;
-- 
2.43.0


From 7f5146413d851c1d70bd80ff93c2a92a472763da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 19/45] fix: compute the differential entropy of a Gaussian

The log determinant was multiplied by the dimension.
---
 include/albatross/src/evaluation/differential_entropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/differential_entropy.hpp b/include/albatross/src/evaluation/differential_entropy.hpp
index 2f184c8..d393c7e 100644
--- a/include/albatross/src/evaluation/differential_entropy.hpp
+++ b/include/albatross/src/evaluation/differential_entropy.hpp
@@ -38,7 +38,7 @@ inline double
 differential_entropy(const Eigen::LDLT<Eigen::MatrixXd> &cov_ldlt) {
   double k = cast::to_double(cov_ldlt.rows());
   double log_det = log_determinant_of_symmetric(cov_ldlt);
-  return 0.5 * (k * (1 + log(2 * M_PI) + log_det));
+  return 0.5 * (k * (1 + log(2 * M_PI)) + log_det);
 }
 
 inline double differential_entropy(const Eigen::MatrixXd &cov) {
-- 
2.43.0


From 50a3b6021ed8c5cbc8f95fff063cc9c0715b30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 20/45] fix: draw energy score samples from the predicted
 covariance

The decomposition is P^T L D L^T P, so samples need to be permuted by P^T.
---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b2a7437..5af6486 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -206,7 +206,7 @@ Eigen::MatrixXd draw_mvn(const Eigen::LDLT<Eigen::MatrixXd> &decomp,
   ALBATROSS_ASSERT((decomp.vectorD().array() > 0.).all() &&
                    "Please pass a positive definite covariance!");
   std::normal_distribution<double> standard_normal{0.0, 1.0};
-  return (decomp.transpositionsP() *
+  return (decomp.transpositionsP().transpose() *
           (decomp.matrixL() *
            (decomp.vectorD().array().sqrt().matrix().asDiagonal() *
             Eigen::MatrixXd::NullaryExpr(
-- 
2.43.0


From acbbe9872cca74242befe356a3dcc661c3b0ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 21/45] fix: use the same weighted norm for both energy score
 terms

The distance to the truth was weighted by the square roots of the weights
but the distance between samples by the weights, so the difference of the
two was not an energy score and could be negative (which is asserted not to
happen).
---
 include/albatross/src/evaluation/prediction_metrics.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5af6486..a17cd9d 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -225,11 +225,10 @@ inline double mean_err_norms(const Eigen::MatrixXd &samples,
                    "invalid sampling distribution");
   ALBATROSS_ASSERT(samples.rows() == weights.size() &&
                    "invalid sampling weights");
-  return (((samples.colwise() - truth).array().square().colwise() *
-           weights.array())
-              .colwise()
-              .sum())
-      .sqrt()
+  return ((samples.colwise() - truth).array().colwise() * weights.array())
+      .matrix()
+      .colwise()
+      .norm()
       .mean();
 }
 
-- 
2.43.0


From 2bb79ca1dba873da0f4996f6f7f086fa02b26db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 22/45] fix: make the variogram score computable

Row and column expressions were mixed, which aborts with Eigen's assertions
enabled, and the standard deviation of the difference of perfectly
correlated components could be NaN.
---
 include/albatross/src/evaluation/prediction_metrics.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index a17cd9d..eda0720 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -486,10 +486,13 @@ inline double variogram_score(
     ALBATROSS_ASSERT(rest < truth.size() && "Internal error");
     Eigen::VectorXd mean_err =
         prediction.mean.tail(rest).array() - prediction.mean(row);
+    // The variance of the difference between two strongly correlated
+    // components can end up slightly negative.
     Eigen::VectorXd sigma =
         (prediction.get_diagonal(row) +
          prediction.covariance.diagonal().tail(rest).array() -
-         2. * prediction.covariance.row(row).tail(rest).array())
+         2. * prediction.covariance.col(row).tail(rest).array())
+            .max(0.)
             .sqrt();
     Eigen::VectorXd expectation =
         mean_err.binaryExpr(sigma, [order](double mean, double std) {
@@ -498,9 +501,7 @@ inline double variogram_score(
     Eigen::VectorXd truth_err =
         (truth(row) - truth.tail(rest).array()).abs().pow(p);
     Eigen::VectorXd diff = truth_err - expectation;
-    sum += (weight_matrix.row(row).tail(rest).array() * diff.array() *
-            diff.array())
-               .sum();
+    sum += weight_matrix.row(row).tail(rest).dot(diff.cwiseProduct(diff));
   }
 
   ALBATROSS_ASSERT(sum >= 0.0 && "Invalid (negative) variogram score!");
-- 
2.43.0


From 527c7e450a8665b7b02b766811136a1c06e6e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 23/45] fix: make the Wasserstein distance defined for singular
 covariances

Only negative eigenvalues of about the size of the smallest positive one
were treated as zero, so several of them (or one which was further from
zero than the smallest positive one) resulted in NaN.
---
 .../src/evaluation/prediction_metrics.hpp     | 39 +++++++++++--------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index eda0720..b0ca56d 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -156,18 +156,13 @@ inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
     // easily happen when comparing two nearby distributions, we clamp
     // numerically negative but morally OK eigenvalues to 0.
     //
-    // The factor of 10 here is a heuristic to allow small negative
-    // eigenvalues (due to numerical errors) but not clamp
-    // meaningfully large ones that indicate a serious problem in
-    // calculation.
-    const double min_positive =
-        (eigenvalues.array() > 0)
-            .select(eigenvalues.array(),
-                    std::numeric_limits<double>::infinity())
-            .minCoeff();
-    eigenvalues =
-        (eigenvalues.array() < 0 && eigenvalues.array() > -10 * min_positive)
-            .select(0, eigenvalues.array());
+    // The tolerance here is a heuristic to allow small negative
+    // eigenvalues (due to numerical errors, which are proportional to
+    // the largest eigenvalue) but not clamp meaningfully large ones
+    // that indicate a serious problem in calculation.
+    const double tolerance = 1.e-10 * eigenvalues.cwiseAbs().maxCoeff();
+    eigenvalues = (eigenvalues.array() < 0 && eigenvalues.array() >= -tolerance)
+                      .select(0, eigenvalues.array());
   }
 
   return eigs.eigenvectors() *
@@ -179,11 +174,21 @@ inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
 
 inline double wasserstein_2(const JointDistribution &a,
                             const JointDistribution &b) {
-  auto b_sqrt{detail::principal_sqrt(b.covariance)};
-  return (a.mean - b.mean).squaredNorm() +
-         (a.covariance + b.covariance -
-          2 * detail::principal_sqrt(b_sqrt * a.covariance * b_sqrt))
-             .trace();
+  // The trace of the principal square root of
+  //
+  //    b_sqrt * a.covariance * b_sqrt
+  //
+  // is the sum of the singular values of a_sqrt * b_sqrt, which (unlike the
+  // eigenvalues of the product) can't end up negative.
+  const Eigen::MatrixXd a_sqrt{detail::principal_sqrt(a.covariance)};
+  const Eigen::MatrixXd b_sqrt{detail::principal_sqrt(b.covariance)};
+  const Eigen::BDCSVD<Eigen::MatrixXd> svd(a_sqrt * b_sqrt);
+  const double distance = (a.mean - b.mean).squaredNorm() +
+                          a.covariance.trace() + b.covariance.trace() -
+                          2. * svd.singularValues().sum();
+  // Rounding can make the distance between (nearly) equal distributions
+  // slightly negative.
+  return std::max(distance, 0.);
 }
 
 } // namespace distance
-- 
2.43.0


From 8ef76a76fa95afb762b09eb71a32e950be950a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 24/45] fix: don't predict measurements from a fit which is
 gone

A prediction from a temporary fit which used predict_with_measurement_noise
referred to the temporary instead of keeping it.
---
 include/albatross/src/core/fit_model.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/core/fit_model.hpp b/include/albatross/src/core/fit_model.hpp
index c0da05c..ec5ca00 100644
--- a/include/albatross/src/core/fit_model.hpp
+++ b/include/albatross/src/core/fit_model.hpp
@@ -53,12 +53,14 @@ public:
 
   template <typename PredictFeatureType>
   auto predict_with_measurement_noise(
-      const std::vector<PredictFeatureType> &features) const {
-    std::vector<Measurement<PredictFeatureType>> measurements;
-    for (const auto &f : features) {
-      measurements.emplace_back(Measurement<PredictFeatureType>(f));
-    }
-    return predict(measurements);
+      const std::vector<PredictFeatureType> &features) const & {
+    return predict(measurements_(features));
+  }
+
+  template <typename PredictFeatureType>
+  auto predict_with_measurement_noise(
+      const std::vector<PredictFeatureType> &features) && {
+    return std::move(*this).predict(measurements_(features));
   }
 
   template <
@@ -109,6 +111,16 @@ public:
   }
 
 private:
+  template <typename PredictFeatureType>
+  static std::vector<Measurement<PredictFeatureType>>
+  measurements_(const std::vector<PredictFeatureType> &features) {
+    std::vector<Measurement<PredictFeatureType>> measurements;
+    for (const auto &f : features) {
+      measurements.emplace_back(Measurement<PredictFeatureType>(f));
+    }
+    return measurements;
+  }
+
   ModelType model_;
   Fit fit_;
 };
-- 
2.43.0


From 9a8301cae7c2f22b7748aebddfcf9a5d8a4fed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 25/45] fix: make dataset_size_from_folds compile

group_indexer_from_folds takes a std::map, RegressionFolds is a Grouped.
---
 include/albatross/src/evaluation/folds.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/folds.hpp b/include/albatross/src/evaluation/folds.hpp
index 7c30949..3f76a23 100644
--- a/include/albatross/src/evaluation/folds.hpp
+++ b/include/albatross/src/evaluation/folds.hpp
@@ -142,7 +142,7 @@ dataset_size_from_indexer(const GroupIndexer<GroupKey> &indexer) {
 template <typename GroupKey, typename FeatureType>
 inline std::size_t
 dataset_size_from_folds(const RegressionFolds<GroupKey, FeatureType> &folds) {
-  return dataset_size_from_indexer(group_indexer_from_folds(folds));
+  return dataset_size_from_indexer(group_indexer_from_folds(folds.get_map()));
 }
 
 } // namespace albatross
-- 
2.43.0


From 114e234c2c53f101b0e90137762cfa42fea0995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 26/45] fix: get joint held out predictions as a map

The map and Grouped overloads were swapped, so asking for a map did not
compile.
---
 include/albatross/src/evaluation/cross_validation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/evaluation/cross_validation.hpp b/include/albatross/src/evaluation/cross_validation.hpp
index b0e6cbe..aeedbef 100644
--- a/include/albatross/src/evaluation/cross_validation.hpp
+++ b/include/albatross/src/evaluation/cross_validation.hpp
@@ -234,11 +234,11 @@ private:
   auto get(get_type<JointDistribution>) const { return this->joint(); }
 
   auto get(get_type<std::map<GroupKey, JointDistribution>>) const {
-    return this->joints();
+    return this->joints().get_map();
   }
 
   auto get(get_type<Grouped<GroupKey, JointDistribution>>) const {
-    return this->joints().get_map();
+    return this->joints();
   }
 
   const ModelType model_;
-- 
2.43.0


From 40d7c277aa5291f2ee915b12fa33843b967d8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 27/45] fix: remove the mean function when fitting a sparse GP

The targets were copied before the mean was removed from them, so the mean
was added to predictions without ever having been subtracted. The mean of
the measurements is what needs to be removed, as in an exact GP.
---
 include/albatross/src/models/sparse_gp.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 8927f08..6ed5091 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -662,11 +662,9 @@ private:
     const auto features =
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
+    this->mean_function_.remove_from(features, &targets.mean);
     *y = targets.mean;
 
-    this->mean_function_.remove_from(
-        subset(out_of_order_features, reordered_inds), &targets.mean);
-
     *K_fu = this->covariance_function_(features, inducing_features,
                                        Base::threads_.get());
 
-- 
2.43.0


From d93449dd8e8c9e1865f0bf238fb5a464ec7f2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 28/45] fix: remove the mean function when rebasing a sparse GP

Predictions of the resulting fit add it again.
---
 include/albatross/src/models/sparse_gp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 6ed5091..2872400 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -422,6 +422,7 @@ public:
     JointDistribution prediction(prediction_);
     prediction.covariance.diagonal() += Eigen::VectorXd::Constant(
         cast::to_index(prediction.size()), 1, details::DEFAULT_NUGGET);
+    this->mean_function_.remove_from(new_inducing_points, &prediction.mean);
     new_fit.information = new_fit.train_covariance.solve(prediction.mean);
 
     // Here P is the posterior covariance at the new inducing points.  If
-- 
2.43.0


From a878cbfb2897fc924e0ef51cf269d3a9a6d6459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 29/45] fix: set the inducing point strategy of a sparse GP

It was assigned to itself.
---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 2872400..a29013d 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -609,7 +609,7 @@ public:
 
   void
   set_inducing_point_strategy(InducingPointStrategy &&inducing_point_strategy) {
-    inducing_point_strategy =
+    inducing_point_strategy_ =
         std::forward<InducingPointStrategy>(inducing_point_strategy);
   }
 
-- 
2.43.0


From b4e7a8e7e2fb7dc39f9caf60a829272228f4e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 30/45] fix: compare the best iteration of RANSAC results

RansacOutput::operator== compared the best iteration with itself, results
which only differ in their best iteration were equal.
---
 include/albatross/src/models/ransac.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 52d2421..6efad39 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -125,7 +125,7 @@ template <typename GroupKey> struct RansacOutput {
   std::vector<RansacIteration<GroupKey>> iterations;
 
   bool operator==(const RansacOutput &other) const {
-    return (return_code == other.return_code && best == best &&
+    return (return_code == other.return_code && best == other.best &&
             iterations == other.iterations);
   }
 };
-- 
2.43.0


From ddedb7fa2c7bad751b1349a5c68f5b36363a27ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 31/45] fix: RANSAC functions of a GP own their metrics

The functions held references to the metrics which were given, which are
gone when they came from a temporary strategy.
---
 include/albatross/src/models/ransac_gp.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/models/ransac_gp.hpp b/include/albatross/src/models/ransac_gp.hpp
index fadb2a2..d828ca7 100644
--- a/include/albatross/src/models/ransac_gp.hpp
+++ b/include/albatross/src/models/ransac_gp.hpp
@@ -32,7 +32,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::IsValidCandidate
 get_gp_ransac_is_valid_candidate(const ConditionalGaussian &model,
                                  const GroupIndexer<GroupKey> &indexer,
                                  const IsValidCandidateMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [metric, model, indexer](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
@@ -45,7 +45,8 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::InlierMetric
 get_gp_ransac_inlier_metric(const ConditionalGaussian &model,
                             const GroupIndexer<GroupKey> &indexer,
                             const InlierMetricType &metric) {
-  return [&, indexer, model](const GroupKey &group, const ConditionalFit &fit) {
+  return [metric, indexer, model](const GroupKey &group,
+                                  const ConditionalFit &fit) {
     const auto indices = indexer.at(group);
     const auto pred = get_prediction_reference(model, fit, indices);
     const auto truth = model.get_truth(indices);
@@ -58,7 +59,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::ConsensusMetric
 get_gp_ransac_consensus_metric(const ConditionalGaussian &model,
                                const GroupIndexer<GroupKey> &indexer,
                                const ConsensusMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [metric, model, indexer](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
-- 
2.43.0


From 709c7c31cd3813fb17ef1fb469bb5e666dbae7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 32/45] fix: serialize datasets of plain features

A RegressionDataset was only serializable when a single archive could both
save and load its features.  That is never so for arithmetic types, strings
or types with archive specific functions.
---
 include/albatross/src/cereal/dataset.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/cereal/dataset.hpp b/include/albatross/src/cereal/dataset.hpp
index a76c829..163d4dc 100644
--- a/include/albatross/src/cereal/dataset.hpp
+++ b/include/albatross/src/cereal/dataset.hpp
@@ -15,13 +15,16 @@
 
 using albatross::delay_static_assert;
 using albatross::RegressionDataset;
-using albatross::valid_in_out_serializer;
+using albatross::valid_input_serializer;
+using albatross::valid_output_serializer;
 
 namespace cereal {
 
 template <class Archive, class FeatureType>
-typename std::enable_if<valid_in_out_serializer<FeatureType, Archive>::value,
-                        void>::type
+typename std::enable_if<
+    valid_input_serializer<FeatureType, Archive>::value ||
+        valid_output_serializer<FeatureType, Archive>::value,
+    void>::type
 serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
           const std::uint32_t) {
   archive(cereal::make_nvp("features", dataset.features));
@@ -30,8 +33,10 @@ serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
 }
 
 template <class Archive, class FeatureType>
-typename std::enable_if<!valid_in_out_serializer<FeatureType, Archive>::value,
-                        void>::type
+typename std::enable_if<
+    !valid_input_serializer<FeatureType, Archive>::value &&
+        !valid_output_serializer<FeatureType, Archive>::value,
+    void>::type
 serialize(Archive &archive ALBATROSS_UNUSED, RegressionDataset<FeatureType> &,
           const std::uint32_t) {
   static_assert(delay_static_assert<Archive>::value,
-- 
2.43.0


From ee1d8d7dcf1683df66240740d0c1f6ac9abc0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 33/45] fix: serialize all of a sparse matrix

The size of the scalars was used as the size of the triplets, so part of
the elements was lost, and rows and columns were swapped.
---
 include/albatross/src/cereal/eigen.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/cereal/eigen.hpp b/include/albatross/src/cereal/eigen.hpp
index 188b24a..0e9f954 100644
--- a/include/albatross/src/cereal/eigen.hpp
+++ b/include/albatross/src/cereal/eigen.hpp
@@ -169,15 +169,16 @@ inline void save(Archive &ar,
   const _StorageIndex rows = m.rows();
   const _StorageIndex cols = m.cols();
   const std::size_t nnz = albatross::cast::to_size(m.nonZeros());
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  using Triplet = Eigen::Triplet<_Scalar, _StorageIndex>;
+  const std::size_t size_bytes = nnz * sizeof(Triplet);
 
-  std::vector<Eigen::Triplet<_Scalar>> elems;
+  std::vector<Triplet> elems;
   elems.reserve(nnz);
   for (_StorageIndex col = 0; col < m.outerSize(); ++col) {
     for (typename Eigen::SparseMatrix<_Scalar, _Options,
                                       _StorageIndex>::InnerIterator it(m, col);
          it; ++it) {
-      elems.emplace_back(it.col(), it.row(), it.value());
+      elems.emplace_back(it.row(), it.col(), it.value());
     }
   }
 
@@ -207,7 +208,8 @@ inline void load(Archive &ar,
   ar(CEREAL_NVP(cols));
   ar(CEREAL_NVP(nnz));
   ar(CEREAL_NVP(payload));
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  using Triplet = Eigen::Triplet<_Scalar, _StorageIndex>;
+  const std::size_t size_bytes = nnz * sizeof(Triplet);
 
   if (::cereal::traits::is_text_archive<Archive>::value) {
     payload = base64::decode(payload);
@@ -222,7 +224,7 @@ inline void load(Archive &ar,
   if (size_bytes == 0) {
     m.setZero();
   } else {
-    std::vector<Eigen::Triplet<_Scalar>> elems(nnz);
+    std::vector<Triplet> elems(nnz);
     std::memcpy(elems.data(), decompressed.data(), size_bytes);
     m.setFromTriplets(elems.begin(), elems.end());
   }
-- 
2.43.0


From c6c1bc656169ae08dfa5455f6fd2aa56e46ba127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 34/45] fix: serialize the norm, sign and state of an LDLT

They were left uninitialized in a loaded factorization, so rcond(), info(),
isPositive() and isNegative() were not those of the original.
---
 .../albatross/src/cereal/serializable_ldlt.hpp   | 16 ++++++++++++++--
 .../albatross/src/eigen/serializable_ldlt.hpp    | 10 ++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/cereal/serializable_ldlt.hpp b/include/albatross/src/cereal/serializable_ldlt.hpp
index a6b6fe6..870738d 100644
--- a/include/albatross/src/cereal/serializable_ldlt.hpp
+++ b/include/albatross/src/cereal/serializable_ldlt.hpp
@@ -17,18 +17,30 @@ namespace cereal {
 
 template <typename Archive>
 inline void save(Archive &archive, const Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   save_lower_triangle(archive, ldlt.matrix());
   archive(cereal::make_nvp("transpositions", ldlt.transpositionsP()),
           cereal::make_nvp("is_initialized", ldlt.is_initialized()));
+  if (version > 0 && ldlt.is_initialized()) {
+    archive(cereal::make_nvp("l1_norm", ldlt.l1_norm()),
+            cereal::make_nvp("sign", ldlt.sign()),
+            cereal::make_nvp("info", ldlt.info()));
+  }
 }
 
 template <typename Archive>
 inline void load(Archive &archive, Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   load_lower_triangle(archive, ldlt.mutable_matrix());
   archive(cereal::make_nvp("transpositions", ldlt.mutable_transpositions()),
           cereal::make_nvp("is_initialized", ldlt.mutable_is_initialized()));
+  if (version > 0 && ldlt.is_initialized()) {
+    archive(cereal::make_nvp("l1_norm", ldlt.mutable_l1_norm()),
+            cereal::make_nvp("sign", ldlt.mutable_sign()),
+            cereal::make_nvp("info", ldlt.mutable_info()));
+  } else {
+    ldlt.mutable_info() = Eigen::Success;
+  }
 }
 
 } // namespace cereal
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 5e9eace..0bb4b05 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -22,6 +22,8 @@ public:
   using Scalar = double;
   using MatrixType = MatrixXd;
 
+  static const std::uint32_t serialization_version = 1;
+
   SerializableLDLT() : LDLT<MatrixXd, Lower>() {}
 
   SerializableLDLT(const MatrixXd &x) : LDLT<MatrixXd, Lower>(x.ldlt()) {}
@@ -47,6 +49,14 @@ public:
 
   bool is_initialized() const { return this->m_isInitialized; }
 
+  double &mutable_l1_norm() { return this->m_l1_norm; }
+
+  internal::SignMatrix &mutable_sign() { return this->m_sign; }
+
+  internal::SignMatrix sign() const { return this->m_sign; }
+
+  ComputationInfo &mutable_info() { return this->m_info; }
+
   double l1_norm() const {
     ALBATROSS_ASSERT(is_initialized() && "Must initialize first!");
     return this->m_l1_norm;
-- 
2.43.0


From d6dfd2176cf112fd576acb8b8655ea88cceaf213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 35/45] fix: serialize the numerical rank of a sparse GP fit

The version of the fit was never set, so the rank was not written, lost when
read and (as saving and loading share a function) overwritten in the fit
which was saved.
---
 include/albatross/src/models/sparse_gp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index a29013d..edb25ab 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -100,6 +100,8 @@ template <typename FeatureType> struct Fit<SparseGPFit<FeatureType>> {
   Eigen::VectorXd information;
   Eigen::Index numerical_rank;
 
+  static const std::uint32_t serialization_version = 2;
+
   Fit() {}
 
   Fit(const std::vector<FeatureType> &features_,
-- 
2.43.0


From 885494a5600d476307bd8b930db8038cd0efcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 36/45] fix: let several translation units include the samplers

The functions were defined in a header without being inline.
---
 include/albatross/src/samplers/ensemble.hpp       | 2 +-
 include/albatross/src/samplers/initialization.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 6cbded4..16c6c32 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -35,7 +35,7 @@ inline std::size_t random_complement(std::size_t n, std::size_t i,
   }
 }
 
-void assert_valid_states(const EnsembleSamplerState &ensembles) {
+inline void assert_valid_states(const EnsembleSamplerState &ensembles) {
   for (std::size_t i = 0; i < ensembles.size(); ++i) {
     ALBATROSS_ASSERT(std::isfinite(ensembles[i].log_prob));
   }
diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 5eeb0b9..9271151 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -26,7 +26,7 @@ inline std::vector<std::string> split_string(const std::string &s,
   return tokens;
 }
 
-std::vector<double> parse_line(const std::string &line) {
+inline std::vector<double> parse_line(const std::string &line) {
   std::vector<double> output;
   for (const auto &s : split_string(line, ',')) {
     try {
@@ -39,7 +39,7 @@ std::vector<double> parse_line(const std::string &line) {
   return output;
 }
 
-std::vector<std::map<std::string, double>>
+inline std::vector<std::map<std::string, double>>
 initial_params_from_csv(std::istream &ss) {
 
   std::vector<std::map<std::string, double>> output;
@@ -76,7 +76,7 @@ initial_params_from_csv(std::istream &ss) {
   return output;
 }
 
-std::vector<std::vector<double>>
+inline std::vector<std::vector<double>>
 initial_params_from_csv(const ParameterStore &param_store, std::istream &ss) {
 
   const auto all_params = initial_params_from_csv(ss);
-- 
2.43.0


From eead1ba20c22f2fbdf5c073eaf6043592b66be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 37/45] fix: do not move the log probability into the first
 sampler step

A temporary functor (a std::function, or a lambda owning its data) was
forwarded to every iteration, all but the first got a moved from object.
---
 include/albatross/src/samplers/ensemble.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 16c6c32..8bb27a9 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -129,16 +129,17 @@ ensemble_sampler(ComputeLogProb &&compute_log_prob,
                  std::size_t max_iterations, std::default_random_engine &gen,
                  CallbackFunc &&callback = NullCallback()) {
 
-  EnsembleSamplerState state = ensure_finite_initial_state(
-      std::forward<ComputeLogProb>(compute_log_prob), initial_state, gen);
+  EnsembleSamplerState state =
+      ensure_finite_initial_state(compute_log_prob, initial_state, gen);
 
   std::vector<EnsembleSamplerState> output;
   output.push_back(state);
   callback(0, state);
 
   for (std::size_t iter = 1; iter <= max_iterations; ++iter) {
-    const auto next_state = stretch_move_step<ComputeLogProb>(
-        state, std::forward<ComputeLogProb>(compute_log_prob), gen);
+    // This is called repeatedly, so compute_log_prob can't be moved from.
+    const auto next_state =
+        stretch_move_step<ComputeLogProb &>(state, compute_log_prob, gen);
     output.push_back(next_state);
     callback(iter, next_state);
     state = next_state;
-- 
2.43.0


From 6b0d9daeb4af29ac9c80e3712c480ebc10b4969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 38/45] fix: keep model samples inside of the parameter bounds

Parameters outside of their bounds were given the likelihood of the closest
valid ones, so walkers would leave the bounds and never return.
---
 include/albatross/src/samplers/ensemble.hpp       | 10 ++++++++++
 include/albatross/src/samplers/initialization.hpp | 12 +++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 8bb27a9..0bfdbe6 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -176,7 +176,17 @@ std::vector<EnsembleSamplerState> ensemble_sampler(
   const auto initial_params =
       initial_params_from_jitter(model.get_params(), jitter, gen, n_walkers);
 
+  const TunableParameters tunable = get_tunable_parameters(model.get_params());
+
   auto compute_ll = [&](const std::vector<double> &param_values) {
+    // Setting the parameters moves them to the bounds, which would make
+    // everything outside of the bounds as likely as the bounds themselves.
+    for (std::size_t i = 0; i < param_values.size(); ++i) {
+      if (param_values[i] < tunable.lower_bounds[i] ||
+          param_values[i] > tunable.upper_bounds[i]) {
+        return -HUGE_VAL;
+      }
+    }
     ModelType m(model);
     m.set_tunable_params_values(param_values);
     return m.log_likelihood(dataset);
diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 9271151..a12b61b 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -105,13 +105,15 @@ initial_params_from_jitter(const ParameterStore &params,
   n = std::max(n, 2 * params.size() + 1);
 
   std::vector<std::vector<double>> output;
-  std::vector<double> double_params = get_tunable_parameters(params).values;
-  output.push_back(double_params);
+  const TunableParameters tunable = get_tunable_parameters(params);
+  output.push_back(tunable.values);
   for (std::size_t i = 0; i < n - 1; ++i) {
 
-    std::vector<double> perturbed(double_params);
-    for (auto &d : perturbed) {
-      d += jitter_distribution(gen);
+    std::vector<double> perturbed(tunable.values);
+    for (std::size_t j = 0; j < perturbed.size(); ++j) {
+      perturbed[j] += jitter_distribution(gen);
+      perturbed[j] = std::min(std::max(perturbed[j], tunable.lower_bounds[j]),
+                              tunable.upper_bounds[j]);
     };
 
     output.push_back(perturbed);
-- 
2.43.0


From 834c0e80f495c47dbbcc3aacc3745f30b5c40a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 39/45] fix: write numbers to CSV with all of their digits

std::to_string only gives six decimals, small variances or parameters
were written as zero and a sampler could not be resumed from its output.
---
 include/albatross/src/samplers/callbacks.hpp |  4 ++--
 include/albatross/src/utils/csv_utils.hpp    | 22 +++++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/samplers/callbacks.hpp b/include/albatross/src/samplers/callbacks.hpp
index ab391e6..f8d795b 100644
--- a/include/albatross/src/samplers/callbacks.hpp
+++ b/include/albatross/src/samplers/callbacks.hpp
@@ -40,10 +40,10 @@ inline void write_ensemble_sampler_state(
     const auto params =
         set_tunable_params_values(param_store, ensemble[i].params);
     for (const auto &param : params) {
-      row[param.first] = std::to_string(param.second.value);
+      row[param.first] = details::to_csv_string(param.second.value);
     }
     row["iteration"] = std::to_string(iteration);
-    row["log_probability"] = std::to_string(ensemble[i].log_prob);
+    row["log_probability"] = details::to_csv_string(ensemble[i].log_prob);
     row["ensemble_index"] = std::to_string(i);
     write_row(stream, row, columns);
   }
diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 39b8a71..5a2ce75 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -120,10 +120,22 @@ inline std::map<std::string, std::string> to_map(const FeatureType &feature) {
   return output;
 }
 
+namespace details {
+
+// Unlike std::to_string this keeps all the digits.
+inline std::string to_csv_string(double x) {
+  std::ostringstream oss;
+  oss.precision(std::numeric_limits<double>::max_digits10);
+  oss << x;
+  return oss.str();
+}
+
+} // namespace details
+
 // A special case for floating point features, otherwise they would
 // be given a column name of "value0" by cereal.
 inline std::map<std::string, std::string> to_map(const double &feature) {
-  return {{"feature", std::to_string(feature)}};
+  return {{"feature", details::to_csv_string(feature)}};
 }
 
 template <typename FeatureType>
@@ -131,10 +143,10 @@ inline std::map<std::string, std::string>
 to_map(const FeatureType &feature, double target, double target_variance,
        double prediction, double prediction_variance) {
   auto output = to_map(feature);
-  output["target"] = std::to_string(target);
-  output["target_variance"] = std::to_string(target_variance);
-  output["prediction"] = std::to_string(prediction);
-  output["prediction_variance"] = std::to_string(prediction_variance);
+  output["target"] = details::to_csv_string(target);
+  output["target_variance"] = details::to_csv_string(target_variance);
+  output["prediction"] = details::to_csv_string(prediction);
+  output["prediction_variance"] = details::to_csv_string(prediction_variance);
   return output;
 }
 
-- 
2.43.0


From cfe055ccacc13c6b4112256b9bed2c3a0910e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 40/45] fix: compute gradients at the upper bound of a
 parameter

The step across the bound was reverted when setting the parameters, so the
gradient was always zero and gradient based tuning could not leave the bound.
---
 include/albatross/src/tune/finite_difference.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/tune/finite_difference.hpp b/include/albatross/src/tune/finite_difference.hpp
index 586aac3..409db45 100644
--- a/include/albatross/src/tune/finite_difference.hpp
+++ b/include/albatross/src/tune/finite_difference.hpp
@@ -55,12 +55,12 @@ compute_gradient(Function f, const ParameterStore &params, double f_val,
     if (std::isfinite(range)) {
       epsilon = 1e-8 * range;
     }
-    auto perturbed_params = get_perturbed(i, epsilon);
-
-    if (!params_are_valid(perturbed_params)) {
+    // Setting the parameters moves them to the closest bound, a step across
+    // the upper bound would hardly (or not at all) change the parameters.
+    if (tunable_params.values[i] + epsilon > tunable_params.upper_bounds[i]) {
       epsilon *= -1;
-      perturbed_params = get_perturbed(i, epsilon);
     }
+    const auto perturbed_params = get_perturbed(i, epsilon);
 
     double grad_i = (f(perturbed_params) - f_val) / epsilon;
 
-- 
2.43.0


From e551a7ee5ec47ad08301cc348b8e94f97c3f284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 41/45] fix: keep single greedy queries inside of the range

With one query per direction the ratio was -5 instead of 1e-5.
---
 include/albatross/src/tune/greedy_tuner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/greedy_tuner.hpp b/include/albatross/src/tune/greedy_tuner.hpp
index d35f752..0ee9cfd 100644
--- a/include/albatross/src/tune/greedy_tuner.hpp
+++ b/include/albatross/src/tune/greedy_tuner.hpp
@@ -38,7 +38,7 @@ inline std::vector<double> query_ratios(std::size_t n) {
   const double log_min = -5.;
   const double log_max = -0.1;
   if (n == 1) {
-    return {log_min};
+    return {std::pow(10, log_min)};
   }
 
   const double step = (log_max - log_min) / (cast::to_double(n) - 1);
-- 
2.43.0


From adedaf02cc361fad508a22b10ee5f764d0034127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 42/45] fix: write CSV to streams which can not seek

The trailing separator of each line was replaced by seeking back, which
fails for pipes (std::cout), leaves nothing but the header there, and
overwrites what came before if there are no columns.
---
 include/albatross/src/utils/csv_utils.hpp | 27 +++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 5a2ce75..34bfbfb 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -174,16 +174,6 @@ to_map(const RegressionDataset<FeatureType> &dataset,
   return row;
 }
 
-/*
- * This helper function makes it easier to use range based
- * for loops that append a delimeter which can be followed
- * by this function to turn the last delimeter into a new line
- */
-inline void replace_last_character_with_newline(std::ostream &stream) {
-  stream.seekp(-1, std::ios_base::end);
-  stream << std::endl;
-}
-
 template <typename FeatureType, typename DistributionType>
 inline std::vector<std::string>
 get_column_names(const RegressionDataset<FeatureType> &dataset,
@@ -199,21 +189,30 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
+  bool first = true;
   for (const auto &col : columns) {
+    if (!first) {
+      stream << ",";
+    }
+    first = false;
     if (map_contains(row, col)) {
       stream << row.at(col);
     }
-    stream << ",";
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 inline void write_header(std::ostream &stream,
                          const std::vector<std::string> &columns) {
+  bool first = true;
   for (const auto &col : columns) {
-    stream << col << ",";
+    if (!first) {
+      stream << ",";
+    }
+    first = false;
+    stream << col;
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 template <typename FeatureType, typename DistributionType>
-- 
2.43.0


From 8657fbce7b558c7ced0f97a765139b04a7dfabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 43/45] fix: write all columns of several datasets to CSV

Only the columns of the first dataset were written, none if it was empty.
---
 include/albatross/src/utils/csv_utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 34bfbfb..5a69e5e 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -257,9 +257,14 @@ inline void
 write_to_csv(std::ostream &stream,
              const std::vector<RegressionDataset<FeatureType>> &datasets,
              const std::vector<DistributionType> &predictions) {
-  const auto columns = get_column_names(datasets[0], predictions[0]);
-  write_header(stream, columns);
   ALBATROSS_ASSERT(datasets.size() == predictions.size());
+  std::set<std::string> keys;
+  for (std::size_t i = 0; i < datasets.size(); i++) {
+    const auto next_keys = get_column_names(datasets[i], predictions[i]);
+    keys.insert(next_keys.begin(), next_keys.end());
+  }
+  const std::vector<std::string> columns(keys.begin(), keys.end());
+  write_header(stream, columns);
   for (std::size_t i = 0; i < datasets.size(); i++) {
     write_to_csv(stream, datasets[i], predictions[i], columns);
   }
-- 
2.43.0


From ce322093a73dd3ae923cbc26c236d23f735572a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 44/45] fix: quote CSV cells which contain separators

Text (of features or metadata) with a comma, quote or line break turned
into several cells or rows.
---
 include/albatross/src/utils/csv_utils.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 5a69e5e..f7b3534 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -186,6 +186,25 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
   return std::vector<std::string>(keys.begin(), keys.end());
 }
 
+namespace details {
+
+// Quotes a cell if it would otherwise not be read as a single one.
+inline std::string to_csv_cell(const std::string &value) {
+  if (value.find_first_of(",\"\r\n") == std::string::npos) {
+    return value;
+  }
+  std::string output = "\"";
+  for (const char &c : value) {
+    if (c == '"') {
+      output += '"';
+    }
+    output += c;
+  }
+  return output + '"';
+}
+
+} // namespace details
+
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
@@ -196,7 +215,7 @@ inline void write_row(std::ostream &stream,
     }
     first = false;
     if (map_contains(row, col)) {
-      stream << row.at(col);
+      stream << details::to_csv_cell(row.at(col));
     }
   }
   stream << std::endl;
@@ -210,7 +229,7 @@ inline void write_header(std::ostream &stream,
       stream << ",";
     }
     first = false;
-    stream << col;
+    stream << details::to_csv_cell(col);
   }
   stream << std::endl;
 }
-- 
2.43.0


From 781be3dfc29fd287ff77541944d90fa5ebe367fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 45/45] fix: values of different sizes compare unequal

Comparing distributions, factorizations, least squares fits or covariance
representations of different sizes (or a factorization with an empty one)
aborted, or with assertions disabled read past the end of the smaller one.
---
 include/albatross/src/core/distribution.hpp        | 14 +++++++++++---
 .../src/covariance_functions/representations.hpp   |  6 ++++--
 include/albatross/src/eigen/serializable_ldlt.hpp  | 13 +++++++------
 include/albatross/src/linalg/block_symmetric.hpp   |  3 ++-
 include/albatross/src/models/least_squares.hpp     |  4 +++-
 5 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 5a95804..036d63b 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -15,7 +15,7 @@
 
 inline bool operator==(const albatross::DiagonalMatrixXd &x,
                        const albatross::DiagonalMatrixXd &y) {
-  return (x.diagonal() == y.diagonal());
+  return (x.rows() == y.rows() && x.diagonal() == y.diagonal());
 }
 
 namespace albatross {
@@ -110,6 +110,9 @@ struct MarginalDistribution : public DistributionBase<MarginalDistribution> {
   bool approximately_equal(
       const MarginalDistribution &other,
       double epsilon = cDefaultApproximatelyEqualEpsilon) const {
+    if (size() != other.size()) {
+      return false;
+    }
     const bool mean_approx_equal = mean.isApprox(other.mean, epsilon);
     const bool cov_approx_equal =
         covariance.diagonal().isApprox(other.covariance.diagonal(), epsilon);
@@ -117,7 +120,8 @@ struct MarginalDistribution : public DistributionBase<MarginalDistribution> {
   }
 
   bool operator==(const MarginalDistribution &other) const {
-    return (mean == other.mean) && (covariance == other.covariance);
+    return size() == other.size() && (mean == other.mean) &&
+           (covariance == other.covariance);
   }
 
   MarginalDistribution operator+(const MarginalDistribution &other) const {
@@ -184,6 +188,9 @@ struct JointDistribution : public DistributionBase<JointDistribution> {
   bool approximately_equal(
       const JointDistribution &other,
       const double epsilon = cDefaultApproximatelyEqualEpsilon) const {
+    if (size() != other.size()) {
+      return false;
+    }
     const bool mean_approx_equal = mean.isApprox(other.mean, epsilon);
     const bool cov_approx_equal =
         covariance.isApprox(other.covariance, epsilon);
@@ -191,7 +198,8 @@ struct JointDistribution : public DistributionBase<JointDistribution> {
   }
 
   bool operator==(const JointDistribution &other) const {
-    return (mean == other.mean) && (covariance == other.covariance);
+    return size() == other.size() && (mean == other.mean) &&
+           (covariance == other.covariance);
   }
 
   JointDistribution operator*(double scale) const {
diff --git a/include/albatross/src/covariance_functions/representations.hpp b/include/albatross/src/covariance_functions/representations.hpp
index f883aa8..5bec9f5 100644
--- a/include/albatross/src/covariance_functions/representations.hpp
+++ b/include/albatross/src/covariance_functions/representations.hpp
@@ -84,7 +84,8 @@ struct ExplainedCovariance {
   }
 
   bool operator==(const ExplainedCovariance &rhs) const {
-    return (outer_ldlt == rhs.outer_ldlt && inner == rhs.inner);
+    return (outer_ldlt == rhs.outer_ldlt && rows() == rhs.rows() &&
+            cols() == rhs.cols() && inner == rhs.inner);
   }
 
   Eigen::Index rows() const { return inner.rows(); }
@@ -108,7 +109,8 @@ struct DirectInverse {
   }
 
   bool operator==(const DirectInverse &rhs) const {
-    return (inverse_ == rhs.inverse_);
+    return (rows() == rhs.rows() && cols() == rhs.cols() &&
+            inverse_ == rhs.inverse_);
   }
 
   Eigen::Index rows() const { return inverse_.rows(); }
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 0bb4b05..0b2c3cb 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -211,18 +211,19 @@ public:
   bool operator==(const SerializableLDLT &rhs) const {
     // Make sure the two lower triangles are the same and that
     // any permutations are identical.
-    if (!this->m_isInitialized && !rhs.m_isInitialized) {
-      return true;
+    if (!this->m_isInitialized || !rhs.m_isInitialized) {
+      return this->m_isInitialized == rhs.m_isInitialized;
+    }
+    if (this->rows() != rhs.rows()) {
+      return false;
     }
     auto this_lower =
         MatrixXd(MatrixXd(this->matrixLDLT()).triangularView<Eigen::Lower>());
     auto rhs_lower =
         MatrixXd(MatrixXd(rhs.matrixLDLT()).triangularView<Eigen::Lower>());
 
-    return (this->m_isInitialized == rhs.m_isInitialized &&
-            this_lower == rhs_lower &&
-            this->transpositionsP().indices() ==
-                rhs.transpositionsP().indices());
+    return (this_lower == rhs_lower && this->transpositionsP().indices() ==
+                                           rhs.transpositionsP().indices());
   }
 };
 
diff --git a/include/albatross/src/linalg/block_symmetric.hpp b/include/albatross/src/linalg/block_symmetric.hpp
index e89170c..7d70406 100644
--- a/include/albatross/src/linalg/block_symmetric.hpp
+++ b/include/albatross/src/linalg/block_symmetric.hpp
@@ -105,7 +105,8 @@ inline Eigen::Matrix<_Scalar, _Rows, _Cols> BlockSymmetric<Solver>::solve(
 template <typename Solver>
 inline bool
 BlockSymmetric<Solver>::operator==(const BlockSymmetric &rhs) const {
-  return (A == rhs.A && Ai_B == rhs.Ai_B && S == rhs.S);
+  return (A == rhs.A && Ai_B.rows() == rhs.Ai_B.rows() &&
+          Ai_B.cols() == rhs.Ai_B.cols() && Ai_B == rhs.Ai_B && S == rhs.S);
 }
 
 template <typename Solver>
diff --git a/include/albatross/src/models/least_squares.hpp b/include/albatross/src/models/least_squares.hpp
index bb62fa4..01237a1 100644
--- a/include/albatross/src/models/least_squares.hpp
+++ b/include/albatross/src/models/least_squares.hpp
@@ -20,7 +20,9 @@ template <typename ImplType> class LeastSquares;
 template <typename ImplType> struct Fit<LeastSquares<ImplType>> {
   Eigen::VectorXd coefs;
 
-  bool operator==(const Fit &other) const { return (coefs == other.coefs); }
+  bool operator==(const Fit &other) const {
+    return (coefs.size() == other.coefs.size() && coefs == other.coefs);
+  }
 };
 
 inline bool all_same_value(const Eigen::VectorXd &x) {
-- 
2.43.0


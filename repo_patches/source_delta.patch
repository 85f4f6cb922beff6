From 6eaeec7b2b8f4c3ae552da08dfc5bf739d98fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 01/41] fix: no division by zero when heavy values use up all
 float buckets

---
 src/data_store/column.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..e65fe0f 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -286,8 +286,9 @@ void BucketizedFloatColumn::BuildBuckets() {
     }
   }
   // Use uniform binning for the rest.
-  uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+  // The buckets above may already have used up all of num_buckets_.
+  int left_over_buckets = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
+  uint left_over_capacity = max(1, left_over / left_over_buckets);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From f2d1ae37a655eb5a01dc77eede4bec044feb5872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 02/41] fix: IntegerCol is deleted through its base class, give
 it a virtual destructor

---
 src/data_store/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index f99e583..4627be2 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -70,6 +70,7 @@ class IntegerizedColumn : public Column {
   // An interface to access integer vector of different bits.
   class IntegerCol {
    public:
+    virtual ~IntegerCol() {}
     virtual uint operator [] (uint) const = 0;
     inline bool missing(uint i) const {
       return (*this)[i] == 0;
-- 
2.43.0


From 45c5ec024bf6b5c02356851dd0f83cb54803f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 03/41] fix: StringColumn::Add after Finalize is reported
 instead of silently losing rows

---
 src/data_store/column.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index e65fe0f..8301cfe 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -149,6 +149,10 @@ const string& StringColumn::get_row_string(uint i) const {
 
 void StringColumn::Add(const vector<string>* raw_strings) {
   if (!status_.ok()) return;
+  if (finalized_) {
+    status_ = Status(error::FAILED_PRECONDITION, "Cannot run Add after finalized.");
+    return;
+  }
   for (const auto& s : *raw_strings) {
     auto it = map_to_indices_.find(s);
     if (it == map_to_indices_.end()) {
-- 
2.43.0


From e416ebf371f12af18379e85c979074310795b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 04/41] fix: the row count is also checked against columns that
 have no rows

---
 src/data_store/data_store.cc           | 2 +-
 src/data_store/flatfiles_data_store.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..4d829f6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 49377b4..24ccc70 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,7 +74,7 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
-- 
2.43.0


From e51e468acff226fe087212bae0202d8accfdf1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 05/41] fix: concurrent loads of one flatfile column do not
 free the column already handed out

---
 src/data_store/flatfiles_data_store.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 24ccc70..ffb711d 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,6 +74,8 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
+  // Another thread may have loaded the column in the meantime, and handed it out.
+  if (column_map_.find(column_name) != column_map_.end()) return true;
   if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
-- 
2.43.0


From 6916dd305c36c8e63a0580a6b0de68c3bf46af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 06/41] fix: buckets whose gradients or hessians cancel out
 still take part in splits

---
 src/gbdt_algo/split_algo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..b90c814 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
-- 
2.43.0


From 199ac4578754db3922f5d61bb95d0e9983839d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 07/41] fix: LambdaMART wrote its precomputed discounts past
 the end of an empty vector

---
 src/loss_func/loss_func_lambdamart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_lambdamart.cc b/src/loss_func/loss_func_lambdamart.cc
index c37406a..994f077 100644
--- a/src/loss_func/loss_func_lambdamart.cc
+++ b/src/loss_func/loss_func_lambdamart.cc
@@ -40,7 +40,7 @@ LambdaMART::LambdaMART(const Config& config)
   if (config.lambdamart_dcg_base() > 0) {
     dcg_base_ = config.lambdamart_dcg_base();
   }
-  precomputed_discounts_.reserve(kNumPrecomputedDiscounts);
+  precomputed_discounts_.resize(kNumPrecomputedDiscounts);
   for (int i = 0; i < kNumPrecomputedDiscounts; ++i) {
     precomputed_discounts_[i] = discount(i, dcg_base_);
   }
-- 
2.43.0


From 793b85579883b7eb3010f34eeb45bf789bd2cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 08/41] fix: log loss of a large negative margin is finite
 instead of NaN

---
 src/loss_func/loss_func_math.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..2b0f9ce 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,7 +26,13 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
-  double e = exp(-y * f);
+  double margin = y * f;
+  if (margin < 0) {
+    // exp(-margin) may overflow, use exp(margin).
+    double e = exp(margin);
+    return make_tuple(log(1 + e) - margin, y / (1 + e), e / ((1 + e) * (1 + e)));
+  }
+  double e = exp(-margin);
   return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
 };
 
-- 
2.43.0


From 66442bccde064d0300aad7ed1f26ee6893755c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 09/41] fix: EvaluateForest writes every requested test point,
 whatever their order

---
 src/gbdt_algo/evaluation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..6c48df6 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,7 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  test_points.sort();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From c9c815b0c67651e2016bf8327aad33e453437ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 10/41] fix: CheckConfig refuses NaN sampling rates

---
 src/gbdt_algo/utils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..7efd9c0 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -212,14 +212,14 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
-- 
2.43.0


From c506ffa325532858a3e66cf4a576bc36f11fd00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 11/41] fix: HasPrefix and HasSuffix read past the end of a
 shorter string

---
 src/utils/utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 939d812..652dc47 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -93,11 +93,13 @@ bool StringCast(const string& s, float* v) {
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-  return std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
+  return s.size() >= prefix.size() &&
+      std::mismatch(prefix.begin(), prefix.end(), s.begin()).first == prefix.end();
 }
 
 bool HasSuffix(const string& s, const string& suffix) {
-  return std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
+  return s.size() >= suffix.size() &&
+      std::mismatch(suffix.rbegin(), suffix.rend(), s.rbegin()).first == suffix.rend();
 }
 
 }  // namespace strings
-- 
2.43.0


From 764f9281d249d442ea5d6206afa0416e20510b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 12/41] fix: StringCast refuses text after an embedded NUL

---
 src/utils/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 652dc47..f7fcc17 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -89,7 +89,7 @@ vector<string> split(const string& s, const string& delim) {
 bool StringCast(const string& s, float* v) {
     char* pEnd;
     *v = strtof(s.c_str(), &pEnd);
-    return *pEnd == '\0' && s.size() != 0;
+    return pEnd == s.c_str() + s.size() && s.size() != 0;
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-- 
2.43.0


From ad9258d5247811cf8d33a9576e453063cebe8108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 13/41] fix: the split threshold separates the two sides for
 adjacent and for huge values

---
 src/gbdt_algo/split_algo.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b90c814..f0367b5 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -226,9 +226,11 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
-  split->mutable_float_split()->set_threshold(
-      isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+  float threshold = isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
+      (static_cast<double>(left_limit) + right_limit) / 2.0;
+  // The middle of two adjacent floats may round down to left_limit.
+  if (!isnan(left_limit) && !(threshold > left_limit)) threshold = right_limit;
+  split->mutable_float_split()->set_threshold(threshold);
   return true;
 }
 
-- 
2.43.0


From 67cf8011f2e9100dd28374c2dbac33059f2c82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 14/41] fix: buckets stay in order when the values include
 infinity

---
 src/data_store/column.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index 8301cfe..f76af41 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -294,8 +294,8 @@ void BucketizedFloatColumn::BuildBuckets() {
   int left_over_buckets = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
   uint left_over_capacity = max(1, left_over / left_over_buckets);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
-  sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
+  sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
 
   for (int i = 1; i < bucket_maxs_.size(); ++i) {
     bucket_map_[bucket_maxs_[i]] = i;
-- 
2.43.0


From e4e3ca16d786a7b5d6010692bd181f3c4d62b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 15/41] fix: pairwise losses with constant targets sample no
 pair instead of computing with infinity

---
 src/loss_func/loss_func_pairwise.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..74531c6 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,6 +40,8 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
+  // Without any pair (e.g. constant targets) there is nothing to sample.
+  if (num_total_pairs == 0) return 0;
   return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
@@ -153,7 +155,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   double loss = std::accumulate(losses.begin(), losses.end(), 0.0);
   double weight_sum = std::accumulate(weight_sums.begin(), weight_sums.end(), 0.0);
 
-  loss /= weight_sum;
+  if (weight_sum != 0) loss /= weight_sum;
   if (progress) {
     *progress = PrepareProgressMessage(loss);
   }
-- 
2.43.0


From 45c513ebfaf8b4337e9cc74e04f9053016583e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 16/41] fix: a missing group is reported instead of indexing
 before the first group

---
 src/loss_func/loss_func_pairwise.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 74531c6..a2b9781 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -75,6 +75,10 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
+      if (group_id == 0) {
+        return Status(error::INVALID_ARGUMENT,
+                      fmt::format("The group is missing at row {0}.", i));
+      }
       groups[group_id - 1].emplace_back(i);
     }
   }
-- 
2.43.0


From de13b6c887835bc574509e5e3d18f9d85274a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 17/41] fix: the threads of a pairwise loss no longer share one
 random generator

---
 src/loss_func/loss_func_pairwise.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index a2b9781..524744e 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -116,11 +116,14 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
+  // A generator is not thread-safe, so every slice gets its own.
+  vector<uint> seeds(slices_.size());
+  for (auto& seed : seeds) seed = (*Subsampling::get_generator())();
   {
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
-      pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
+      pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j], seed=seeds[j]]() {
+          std::mt19937 generator(seed);
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
             if (rerank_) group.Rerank(f);
@@ -133,7 +136,7 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
                                              double(min_num_pairs_) / group.num_pairs() : 1.0;
             auto pair_weighting_func = PairWeightingFunc(group);
             for (int i = 0; i < num_sample_pairs; ++i) {
-              auto p = group.SamplePair(generator);
+              auto p = group.SamplePair(&generator);
               auto pos_sample = group[p.first];
               auto neg_sample = group[p.second];
               double weight = w_(pos_sample) * w_(neg_sample) * pair_weighting_func(p) *
-- 
2.43.0


From 6223f20b7111d81c8fdfb428244ed57d7463f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 18/41] fix: a column listed twice in the config no longer
 leaves a dangling column behind

---
 src/data_store/tsv_data_store.cc | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1e6f8f0..8f746aa 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -50,6 +50,21 @@ Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& colu
   return Status::OK;
 }
 
+// Whether the column still has to be created. A column may be listed several times
+// (e.g. as a feature and as the group), but only with one type.
+Status CheckNewColumn(const unordered_map<string, unique_ptr<Column>>& column_map,
+                      const string& header,
+                      Column::ColumnType type,
+                      bool* is_new) {
+  auto it = column_map.find(header);
+  *is_new = it == column_map.end();
+  if (!*is_new && it->second->type() != type) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Column {0} is listed with different types.", header));
+  }
+  return Status::OK;
+}
+
 }  // namespace
 
 TSVDataStore::TSVDataStore(const vector<string>& tsvs, const Config& config) {
@@ -151,6 +166,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}.", header, first_tsv));
     }
+    bool is_new = false;
+    auto status = CheckNewColumn(column_map_, header, Column::kBucketizedFloatColumn, &is_new);
+    if (!status.ok()) return status;
+    if (!is_new) continue;
     column_map_[header].reset(new BucketizedFloatColumn(header));
     bucketized_float_columns_.push_back(
         make_pair(static_cast<BucketizedFloatColumn*>(column_map_[header].get()),
@@ -173,6 +192,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}", header, first_tsv));
     }
+    bool is_new = false;
+    auto status = CheckNewColumn(column_map_, header, Column::kRawFloatColumn, &is_new);
+    if (!status.ok()) return status;
+    if (!is_new) continue;
     column_map_[header].reset(new RawFloatColumn(header));
     raw_float_columns_.push_back(
         make_pair(static_cast<RawFloatColumn*>(column_map_[header].get()),
@@ -190,6 +213,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    bool is_new = false;
+    auto status = CheckNewColumn(column_map_, header, Column::kStringColumn, &is_new);
+    if (!status.ok()) return status;
+    if (!is_new) continue;
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
@@ -203,6 +230,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    bool is_new = false;
+    auto status = CheckNewColumn(column_map_, header, Column::kStringColumn, &is_new);
+    if (!status.ok()) return status;
+    if (!is_new) continue;
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
-- 
2.43.0


From 57ad0737348ba8c388e0750cdda9b83f412d68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 19/41] fix: a failed TSV load leaves an empty data store
 instead of unusable columns

---
 src/data_store/tsv_data_store.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 8f746aa..4ce646f 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -69,6 +69,8 @@ Status CheckNewColumn(const unordered_map<string, unique_ptr<Column>>& column_ma
 
 TSVDataStore::TSVDataStore(const vector<string>& tsvs, const Config& config) {
   status_ = LoadTSVs(tsvs, config);
+  // Do not leave half loaded columns behind.
+  if (!status_.ok()) column_map_.clear();
 }
 
 Status TSVDataStore::LoadTSVs(const vector<string>& tsvs, const Config& config) {
-- 
2.43.0


From 421f035438108aa4fc545ecfce06a3f2a30e2577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 20/41] fix: feature importance of a forest without gain is 0
 instead of NaN

---
 src/gbdt_algo/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 7efd9c0..a5b9bbb 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -101,7 +101,7 @@ vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest) {
   if (feature_importance.size() > 0) {
     double max_importance = feature_importance[0].second;
     for (auto& p : feature_importance) {
-      p.second /= max_importance;
+      if (max_importance > 0) p.second /= max_importance;
     }
   }
   return feature_importance;
-- 
2.43.0


From c3302f1b27d876b408885b231255488123ffabad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 21/41] fix: ThrowException raises every error, adding an
 existing column was ignored

---
 src/python/gbdt_py_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/gbdt_py_base.cc b/src/python/gbdt_py_base.cc
index 47e5b1a..ee7accd 100644
--- a/src/python/gbdt_py_base.cc
+++ b/src/python/gbdt_py_base.cc
@@ -17,5 +17,7 @@ void ThrowException(const Status& status) {
       throw std::logic_error(status.ToString());
     case error::OK:
       return;
+    default:
+      throw std::runtime_error(status.ToString());
   }
 }
-- 
2.43.0


From d063ad3d4a3dac3fedc4fa6b4fbed8ccf65a1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 22/41] fix: training and checkpoint prediction on an empty
 data store raise instead of crashing

---
 src/python/forest_py.cc     | 3 +++
 src/python/train_gbdt_py.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/forest_py.cc b/src/python/forest_py.cc
index 9f566b4..d95586d 100644
--- a/src/python/forest_py.cc
+++ b/src/python/forest_py.cc
@@ -57,6 +57,9 @@ vector<double> ForestPy::Predict(DataStorePy* data_store_py) const {
 void ForestPy::PredictAndOutput(DataStorePy* data_store_py,
                                 const list<int>& test_points,
                                 const string& output_dir) const {
+  if (!data_store_py || !data_store_py->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Data store is empty."));
+  }
   auto status = EvaluateForest(data_store_py->data_store(),
                                forest_,
                                test_points,
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 98ffa34..497820b 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -51,7 +51,7 @@ ForestPy TrainPy(DataStorePy* data_store,
   Config config;
   auto status = JsonUtils::FromJson(json_config, &config);
   if (!status.ok()) ThrowException(status);
-  if (!data_store) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  if (!data_store || !data_store->data_store()) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
 
   if (!y.empty() && data_store->num_rows() != y.size()) {
     ThrowException(Status(error::INVALID_ARGUMENT,
-- 
2.43.0


From 7a9a7270f2fa4f508d7e42dab64b4bfb31e8e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 23/41] fix: a test point of 0 no longer suppresses the score
 file of the first tree

---
 src/gbdt_algo/evaluation.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 6c48df6..c75fed1 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -60,6 +60,8 @@ Status EvaluateForest(DataStore* data_store,
                       const string& output_dir) {
   auto test_points = test_points_arg;
   test_points.sort();
+  // There is no forest without trees to test.
+  while (!test_points.empty() && test_points.front() < 1) test_points.pop_front();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From 4c3f916497d041d80ec9a1d6fdbc2c28ea9b5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 24/41] fix: Init of a pairwise loss replaces the groups of an
 earlier Init

---
 src/loss_func/loss_func_pairwise.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 524744e..ca966cb 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -83,6 +83,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     }
   }
 
+  groups_.clear();
   groups_.reserve(groups.size());
   for (auto& group : groups) {
     groups_.emplace_back(std::move(group), y);
-- 
2.43.0


From a205ae34e14dac30acb6c8a519fb05759c2dfc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 25/41] fix: pairwise losses refuse a NaN or infinite
 pair_sampling_rate

---
 src/loss_func/loss_func_pairwise.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index ca966cb..9033f8f 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -16,6 +16,7 @@
 #include "loss_func_pairwise.h"
 
 #include <algorithm>
+#include <cmath>
 #include <gflags/gflags.h>
 #include <string>
 #include <vector>
@@ -59,7 +60,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
   w_ = w;
   y_ = y;
 
-  if (pair_sampling_rate_ <= 0) {
+  if (!(pair_sampling_rate_ > 0) || std::isinf(pair_sampling_rate_)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
-- 
2.43.0


From 86b642f5cf75130e90e739a620f78a61dc3972ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 26/41] fix: a base forest with an unknown feature fails the
 training instead of aborting the process

---
 src/gbdt_algo/gbdt_algo.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 526a0f7..f97a9bd 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -138,6 +138,11 @@ Status TrainGBDT(DataStore* data_store,
   vector<const Column*> features;
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
+  if (base_forest) {
+    // Continuing from a forest needs its features, too.
+    status = LoadFeatures(CollectAllFeatures(*base_forest), data_store, nullptr);
+    if (!status.ok()) return status;
+  }
 
   status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
   if (!status.ok()) return status;
-- 
2.43.0


From cabd80ade1eefd2a4c4cc69ec75ac3d14af87051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 27/41] fix: an absent group column fails the training instead
 of aborting the process

---
 src/gbdt_algo/gbdt_algo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index f97a9bd..25b3d92 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -144,6 +144,10 @@ Status TrainGBDT(DataStore* data_store,
     if (!status.ok()) return status;
   }
 
+  if (!config.group_column().empty() && !data_store->GetStringColumn(config.group_column())) {
+    return Status(error::NOT_FOUND,
+                  fmt::format("Failed to load group column {0} from data_store.", config.group_column()));
+  }
   status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
   if (!status.ok()) return status;
 
-- 
2.43.0


From 5560f09d9438c93f5b90332bd32adae905e45284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 28/41] fix: train refuses num_threads below 1 instead of
 dividing by zero

---
 src/python/train_gbdt_py.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 497820b..b567e6d 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -46,6 +46,10 @@ ForestPy TrainPy(DataStorePy* data_store,
                  ForestPy* base_forest_py,
                  int random_seed,
                  int num_threads) {
+  if (num_threads <= 0) {
+    ThrowException(Status(error::INVALID_ARGUMENT,
+                          fmt::format("num_threads should be positive (actual {0})", num_threads)));
+  }
   FLAGS_num_threads = num_threads;
 
   Config config;
-- 
2.43.0


From 88aa969bba3dcd9e458067d11c9374e534cb9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 29/41] fix: train honours weight_column and binarize_target of
 the config as the command line does

---
 src/python/train_gbdt_py.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index b567e6d..75d06f7 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -71,6 +71,12 @@ ForestPy TrainPy(DataStorePy* data_store,
   FloatVector w_hat = [](int){ return 1.0f; };
   if (!w.empty()) {
     w_hat = ([&w](int i) { return w[i]; });
+  } else if (!config.weight_column().empty()) {
+    if (!data_store->data_store()->GetRawFloatColumn(config.weight_column())) {
+      ThrowException(Status(error::INVALID_ARGUMENT,
+                            fmt::format("Failed to load weight column {0}", config.weight_column())));
+    }
+    w_hat = GetSampleWeightsOrDie(config, data_store->data_store());
   }
 
   FloatVector y_hat = [&y](int i) { return y[i]; };
@@ -84,8 +90,7 @@ ForestPy TrainPy(DataStorePy* data_store,
       ThrowException(Status(error::INVALID_ARGUMENT,
                             fmt::format("Failed to load target column {0}", config.target_column())));
     }
-    const vector<float>& target_floats = targets->raw_floats();
-    y_hat = [&target_floats](int i) { return target_floats[i]; };
+    y_hat = GetTargetsOrDie(config, data_store->data_store());
   }
 
 
-- 
2.43.0


From bf08fbda7cd771c9de0c6a3a49fea3f3bf954e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 30/41] fix: a failed write of a model, importance or score
 file is reported

---
 src/gbdt_algo/evaluation.cc | 2 +-
 src/utils/utils.cc          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index c75fed1..502ea1d 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -51,7 +51,7 @@ bool WriteScoreFile(const string& filename,
   }
 
   out_file.close();
-  return true;
+  return !out_file.fail();
 }
 
 Status EvaluateForest(DataStore* data_store,
diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index f7fcc17..3d11fb0 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -44,6 +44,7 @@ void WriteStringToFile(const string& content, const string& file) {
   CHECK(!out.fail()) << "Failed to open " << file << " for writing.";
   out << content;
   out.close();
+  CHECK(!out.fail()) << "Failed to write " << file << ".";
 }
 
 vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
-- 
2.43.0


From a799e5a389635f98e60fbba1a60b008d6b46416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:52 +0000
Subject: [PATCH 31/41] fix: a model whose split does not match the feature's
 column is an error instead of aborting or being ignored

---
 src/gbdt_algo/evaluation.cc |  6 ++----
 src/gbdt_algo/gbdt_algo.cc  |  2 +-
 src/gbdt_algo/utils.cc      | 23 +++++++++++++++++++++++
 src/gbdt_algo/utils.h       |  3 +++
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 502ea1d..a991c38 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -62,8 +62,7 @@ Status EvaluateForest(DataStore* data_store,
   test_points.sort();
   // There is no forest without trees to test.
   while (!test_points.empty() && test_points.front() < 1) test_points.pop_front();
-  auto feature_names = CollectAllFeatures(forest);
-  auto status = LoadFeatures(feature_names, data_store, nullptr);
+  auto status = LoadFeaturesOfForest(forest, data_store);
   if (!status.ok()) return status;
   mkdir(output_dir.c_str(), 0744);
 
@@ -92,8 +91,7 @@ Status EvaluateForest(DataStore* data_store,
 Status EvaluateForest(DataStore* data_store,
                       const Forest& forest,
                       vector<double>* scores) {
-  auto feature_names = CollectAllFeatures(forest);
-  auto status = LoadFeatures(feature_names, data_store, nullptr);
+  auto status = LoadFeaturesOfForest(forest, data_store);
   if (!status.ok()) return status;
 
   ComputeTreeScores compute_tree_scores(data_store);
diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 25b3d92..c9ce04c 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -140,7 +140,7 @@ Status TrainGBDT(DataStore* data_store,
   if (!status.ok()) return status;
   if (base_forest) {
     // Continuing from a forest needs its features, too.
-    status = LoadFeatures(CollectAllFeatures(*base_forest), data_store, nullptr);
+    status = LoadFeaturesOfForest(*base_forest, data_store);
     if (!status.ok()) return status;
   }
 
diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index a5b9bbb..3ccca21 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -76,6 +76,29 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
   return Status::OK;
 }
 
+static Status CheckSplits(const TreeNode& node, DataStore* data_store) {
+  if (!node.has_left_child()) return Status::OK;
+  const auto& split = node.split();
+  const auto* column = data_store->GetColumn(split.feature());
+  bool match = column &&
+      ((column->type() == Column::kBucketizedFloatColumn && split.has_float_split()) ||
+       (column->type() == Column::kStringColumn && split.has_cat_split()));
+  if (!match) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("The split does not match feature {0} in data_store.", split.feature()));
+  }
+  auto status = CheckSplits(node.left_child(), data_store);
+  return status.ok() ? CheckSplits(node.right_child(), data_store) : status;
+}
+
+Status LoadFeaturesOfForest(const Forest& forest, DataStore* data_store) {
+  auto status = LoadFeatures(CollectAllFeatures(forest), data_store, nullptr);
+  for (int i = 0; status.ok() && i < forest.tree_size(); ++i) {
+    status = CheckSplits(forest.tree(i), data_store);
+  }
+  return status;
+}
+
 void ComputeFeatureImportance(const TreeNode& node,
                               unordered_map<string, double>* feature_importance_map) {
   if (node.has_left_child()) {
diff --git a/src/gbdt_algo/utils.h b/src/gbdt_algo/utils.h
index 26b424a..42bc846 100644
--- a/src/gbdt_algo/utils.h
+++ b/src/gbdt_algo/utils.h
@@ -37,6 +37,9 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
                     DataStore* data_store,
                     vector<const Column*>* columns);
 
+// Loads the features of a forest and checks that its splits fit them.
+Status LoadFeaturesOfForest(const Forest& forest, DataStore* data_store);
+
 vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest);
 unordered_set<string> CollectAllFeatures(const Forest& forest);
 
-- 
2.43.0


From 06e3b3685e8d12f7f694b599adc8bdb555a9b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:27 +0000
Subject: [PATCH 32/41] fix: a read error ends the load with an error instead
 of looping forever

---
 src/data_store/flatfiles_data_store.cc | 6 ++++--
 src/data_store/tsv_block.cc            | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index ffb711d..d95c719 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -88,13 +88,14 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
 
 unique_ptr<Column> FlatfilesDataStore::LoadStringColumn(ifstream& in, const string& column_name) {
   vector<string> raw_strings;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
     }
     raw_strings.push_back(line);
   }
+  if (in.bad()) return nullptr;
 
   return Column::CreateStringColumn(column_name, raw_strings);
 }
@@ -103,7 +104,7 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
                                                        const string& column_name,
                                                        bool bucketized) {
   vector<float> raw_floats;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
@@ -115,6 +116,7 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
       raw_floats.push_back(NAN);
     }
   }
+  if (in.bad()) return nullptr;
 
   return bucketized ? Column::CreateBucketizedFloatColumn(column_name, raw_floats) :
       Column::CreateRawFloatColumn(column_name, std::move(raw_floats));
diff --git a/src/data_store/tsv_block.cc b/src/data_store/tsv_block.cc
index b520894..59d8f0a 100644
--- a/src/data_store/tsv_block.cc
+++ b/src/data_store/tsv_block.cc
@@ -57,7 +57,7 @@ Status TSVBlock::ReadTSV(const string& tsv,
   }
 
   int num_rows = 0;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (line.empty()) continue;
     auto row = strings::split(line, "\t");
@@ -96,6 +96,9 @@ Status TSVBlock::ReadTSV(const string& tsv,
       }
     }
   }
+  if (in.bad()) {
+    return Status(error::ABORTED, fmt::format("Failed to read TSV {0}.", tsv));
+  }
   stopwatch.End();
   LOG(INFO) << "Loaded " << float_columns_.size() << " float columns"
             << " and " << string_columns_.size() << " string columns, each with "
-- 
2.43.0


From a6c52bfb899b5227a90c17bc3dd8c99d05b415e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 33/41] fix: a data frame's columns are loaded under their
 override types, none is dropped

---
 gbdt/_data_store.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gbdt/_data_store.py b/gbdt/_data_store.py
index 1163358..312a98b 100644
--- a/gbdt/_data_store.py
+++ b/gbdt/_data_store.py
@@ -155,16 +155,25 @@ class DataLoader:
         d = libgbdt.DataStore()
         raw_float_cols = set([k for k, v in type_overrides.items()
                               if v == 'float' or v == 'raw_float'])
+        bucketized_float_cols = set([k for k, v in type_overrides.items()
+                                     if v == 'bucketized_float'])
         string_cols = set([k for k, v in type_overrides.items()
                            if v == 'string'])
 
         for col in df.select_dtypes(include=[numpy.number]).keys():
             if col in raw_float_cols:
                 d.add_raw_float_col(col, list(df[col]))
-            elif col not in string_cols:
+            elif col in string_cols:
+                d.add_string_col(col, [str(v) for v in df[col]])
+            else:
                 d.add_bucketized_float_col(col, list(df[col]))
 
         for col in df.select_dtypes(exclude=[numpy.number]).keys():
-            d.add_string_col(col, list(df[col]))
+            if col in raw_float_cols:
+                d.add_raw_float_col(col, list(df[col]))
+            elif col in bucketized_float_cols:
+                d.add_bucketized_float_col(col, list(df[col]))
+            else:
+                d.add_string_col(col, list(df[col]))
 
         return DataStore(d)
-- 
2.43.0


From 33fc2877851f6b8728ec370a83c7e11be072a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 34/41] fix: scores at checkpoints use a temporary directory of
 their own

---
 gbdt/_forest.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gbdt/_forest.py b/gbdt/_forest.py
index 12f259f..6822c74 100644
--- a/gbdt/_forest.py
+++ b/gbdt/_forest.py
@@ -19,14 +19,18 @@ class Forest:
         """Computes prediction scores for data_store at different checkpoints. At each checkpoint n,
            We compute prediction scores for the sub forest from the first tree to nth tree.
         """
+        import shutil
         import tempfile
 
-        output_dir = tempfile.gettempdir()
-
-        self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
-        for p in checkpoints:
-            yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
-                      if line.strip()]
+        output_dir = tempfile.mkdtemp()
+        try:
+            self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
+            for p in checkpoints:
+                with open(output_dir + '/forest.{}.score'.format(p)) as f:
+                    scores = [float(line) for line in f if line.strip()]
+                yield p, scores
+        finally:
+            shutil.rmtree(output_dir)
 
     def feature_importance(self):
         """Outputs list of feature importances in descending order."""
-- 
2.43.0


From 3cedaffc072f85956321c70d81657f2c56036ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 35/41] fix: a column keeps its data store alive in Python

---
 src/python/datastore_py.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/datastore_py.cc b/src/python/datastore_py.cc
index c508479..03dd46e 100644
--- a/src/python/datastore_py.cc
+++ b/src/python/datastore_py.cc
@@ -197,9 +197,13 @@ void InitDataStorePy(py::module &m) {
            py::arg("bucketized_float_cols")=vector<string>(),
            py::arg("raw_float_cols")=vector<string>(),
            py::arg("string_cols")=vector<string>())
-      .def("get_bucketized_float_col", &DataStorePy::GetBucketizedFloatColumn)
-      .def("get_raw_float_col", &DataStorePy::GetRawFloatColumn)
-      .def("get_string_col", &DataStorePy::GetStringColumn)
+      .def("get_bucketized_float_col", &DataStorePy::GetBucketizedFloatColumn,
+           // A column is a view of the data store.
+           py::keep_alive<0, 1>())
+      .def("get_raw_float_col", &DataStorePy::GetRawFloatColumn,
+           py::keep_alive<0, 1>())
+      .def("get_string_col", &DataStorePy::GetStringColumn,
+           py::keep_alive<0, 1>())
       .def("add_bucketized_float_col", &DataStorePy::AddBucketizedFloatColumn)
       .def("add_raw_float_col", &DataStorePy::AddRawFloatColumn)
       .def("add_string_col", &DataStorePy::AddStringColumn)
-- 
2.43.0


From b299a124e813388ecc66ca12a01d4c3e7162355a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:45:30 +0000
Subject: [PATCH 36/41] fix: converted files name a column type that the data
 store knows

---
 scripts/convert_tsv_to_filatfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_tsv_to_filatfiles.py b/scripts/convert_tsv_to_filatfiles.py
index 5cd1373..fbc74e9 100644
--- a/scripts/convert_tsv_to_filatfiles.py
+++ b/scripts/convert_tsv_to_filatfiles.py
@@ -14,7 +14,7 @@ def CreateWriters(output_flatfiles_dir, header, raw_float_columns, string_column
         elif string_columns and column in string_columns:
             print >>writers[i], '# dtype=strings'
         else:
-            print >>writers[i], '# dtype=binned_floats'
+            print >>writers[i], '# dtype=bucketized_floats'
     print '\n'.join(['Writing to %s' % flatfile for flatfile in flatfiles])
     return writers
 
-- 
2.43.0


From 893059e81d00b1a1caec70171446502d22dec23d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:45:31 +0000
Subject: [PATCH 37/41] fix: a group id is compared without its line end

---
 scripts/compute_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_metrics.py b/scripts/compute_metrics.py
index 96cba78..e5ec7af 100755
--- a/scripts/compute_metrics.py
+++ b/scripts/compute_metrics.py
@@ -29,7 +29,7 @@ def ReadFlatFile(f):
     for line in open(f):
         if line.startswith('#'):
             continue
-        yield line
+        yield line.rstrip('\r\n')
 
 def ReadByGroup(opts):
     group_file = ReadFlatFile(opts.group_file)
-- 
2.43.0


From c1c5dcff39692ca409f8e34f1f67d1201997e550 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:45:31 +0000
Subject: [PATCH 38/41] fix: mean counts per group are not rounded down

---
 scripts/compute_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_metrics.py b/scripts/compute_metrics.py
index e5ec7af..748dfdb 100755
--- a/scripts/compute_metrics.py
+++ b/scripts/compute_metrics.py
@@ -82,7 +82,7 @@ def main():
 
     keys = sorted(metrics.keys())
     for k in keys:
-        print '%s=%.4f' % (k, metrics[k] / (numGroups + 1))
+        print '%s=%.4f' % (k, float(metrics[k]) / (numGroups + 1))
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From d6f02957016670aa908cbd8ae6ef178254356b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:40 +0000
Subject: [PATCH 39/41] fix: a drawn tree shows where missing values go

---
 scripts/draw_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/draw_trees.py b/scripts/draw_trees.py
index 496e93c..a8c5df3 100755
--- a/scripts/draw_trees.py
+++ b/scripts/draw_trees.py
@@ -17,7 +17,7 @@ def branchNodeToString(node):
     split = node['split']
     if 'floatSplit' in split:
         return '{feature} {less_than} {threshold:.3f} \\n{score:.6f}'.format(
-            less_than='<=*' if 'missingToRightChild' in split['floatSplit'] else '*<=',
+            less_than='<=*' if split['floatSplit'].get('missingToRightChild') else '*<=',
             feature=split['feature'],
             threshold=split['floatSplit']['threshold'],
             score=node['score'])
-- 
2.43.0


From df5de8566a3636b1f14edb61c1a8e0046f9fb905 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:45:40 +0000
Subject: [PATCH 40/41] fix: the weights of a bag are set in the configuration

---
 scripts/bagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/bagged.py b/scripts/bagged.py
index ef39323..3128991 100755
--- a/scripts/bagged.py
+++ b/scripts/bagged.py
@@ -77,7 +77,7 @@ class Bagging:
         except:
             pass
 
-        self._opts.config['data_config']['sample_weight_column'] = 'bagging_weights'
+        self._opts.config['weight_column'] = 'bagging_weights'
         print >>open(os.path.join(bagging_dir, 'bagging.config'), 'w'), json.dumps(self._opts.config)
         # First prepair a weight flatfile for the bag.
         weights = ['# dtype=raw_floats'] + [str(int(self.inBag(i, k))) for i in xrange(self._opts.num_rows)]
-- 
2.43.0


From 6b7694be8c90fd4dd354e2f7ef058d28153f89d6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:48:49 +0000
Subject: [PATCH 41/41] fix: a missing value counts as a row when bagging

---
 scripts/bagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/bagged.py b/scripts/bagged.py
index 3128991..276391b 100755
--- a/scripts/bagged.py
+++ b/scripts/bagged.py
@@ -33,7 +33,7 @@ class Bagging:
         flatfiles = os.listdir(self._opts.flatfiles_dir)
         flatfile = os.path.join(self._opts.flatfiles_dir, flatfiles[0])
         self._opts.num_rows = len(
-            [line for line in open(flatfile).readlines() if not line.startswith('#') and line.strip()])
+            [line for line in open(flatfile).readlines() if not line.startswith('#')])
 
     def bagDir(self, k):
         return '{0}/bag_{1}'.format(self._opts.output_dir, k)
-- 
2.43.0


From 9bf14ae11cbe204fd210a15c750c3b0ed0fbfa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 01/38] Add optional tracing of nondeterministic choices
 (guarded by MLRL_VERIF_TRACE)

---
 .../include/mlrl/common/util/verif_trace.hpp  | 144 ++++++++++++++++++
 .../post_optimization_sequential.cpp          |   3 +
 .../rule_induction/rule_induction_common.hpp  |   3 +
 .../rule_induction_top_down_beam_search.cpp   |   3 +
 .../rule_induction_top_down_greedy.cpp        |   2 +
 .../rule_model_assemblage_sequential.cpp      |   3 +
 .../src/mlrl/common/sampling/partition_bi.cpp |   3 +
 7 files changed, 161 insertions(+)
 create mode 100644 cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp

diff --git a/cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp b/cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp
new file mode 100644
index 0000000..349ca90
--- /dev/null
+++ b/cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp
@@ -0,0 +1,144 @@
+/*
+ * Optional tracing of nondeterministic choices that are made during training. It is only available if the preprocessor
+ * definition `MLRL_VERIF_TRACE` is set. Otherwise, the macro `VERIF_TRACE` expands to nothing.
+ */
+#pragma once
+
+#ifdef MLRL_VERIF_TRACE
+
+    #include "mlrl/common/indices/index_vector.hpp"
+    #include "mlrl/common/model/condition_list.hpp"
+    #include "mlrl/common/model/head_complete.hpp"
+    #include "mlrl/common/model/head_partial.hpp"
+    #include "mlrl/common/rule_refinement/prediction_evaluated.hpp"
+    #include "mlrl/common/sampling/partition_bi.hpp"
+    #include "mlrl/common/sampling/weight_vector_bit.hpp"
+    #include "mlrl/common/sampling/weight_vector_dense.hpp"
+
+    #include <cstdio>
+    #include <cstdlib>
+    #include <string>
+
+namespace verif {
+
+    /**
+     * Appends a line to the file that is specified via the environment variable `MLRL_VERIF_TRACE_FILE`, if any.
+     */
+    static inline void write(const std::string& line) {
+        const char* path = std::getenv("MLRL_VERIF_TRACE_FILE");
+
+        if (path && *path) {
+            if (std::FILE* file = std::fopen(path, "a")) {
+                std::fputs((line + "\n").c_str(), file);
+                std::fclose(file);
+            }
+        }
+    }
+
+    static inline bool enabled() {
+        const char* path = std::getenv("MLRL_VERIF_TRACE_FILE");
+        return path && *path;
+    }
+
+    template<typename Iterator>
+    static inline std::string list(Iterator begin, Iterator end) {
+        std::string result = "[";
+
+        for (Iterator it = begin; it != end; it++) {
+            if (it != begin) result += ",";
+            result += std::to_string(*it);
+        }
+
+        return result + "]";
+    }
+
+    static inline std::string number(double value) {
+        char buffer[64];
+        std::snprintf(buffer, sizeof(buffer), "\"%a\"", value);
+        return buffer;
+    }
+
+    static inline void traceIndices(const char* event, const IIndexVector& indexVector) {
+        if (!enabled()) return;
+        std::string result;
+
+        for (uint32 i = 0; i < indexVector.getNumElements(); i++) {
+            if (i > 0) result += ",";
+            result += std::to_string(indexVector.getIndex(i));
+        }
+
+        write(std::string("{\"e\":\"") + event + "\",\"idx\":[" + result + "]}");
+    }
+
+    static inline void traceWeights(const char* event, const IWeightVector& weights) {
+        if (!enabled()) return;
+        std::string result;
+
+        if (const BitWeightVector* bitWeights = dynamic_cast<const BitWeightVector*>(&weights)) {
+            for (uint32 i = 0; i < bitWeights->getNumElements(); i++) {
+                if (i > 0) result += ",";
+                result += (*bitWeights)[i] ? "1" : "0";
+            }
+
+            result = "[" + result + "],\"nz\":" + std::to_string(bitWeights->getNumNonZeroWeights());
+        } else if (const DenseWeightVector<uint32>* denseWeights =
+                     dynamic_cast<const DenseWeightVector<uint32>*>(&weights)) {
+            result = list(denseWeights->cbegin(), denseWeights->cend())
+                     + ",\"nz\":" + std::to_string(denseWeights->getNumNonZeroWeights());
+        } else {
+            result = "null,\"nz\":-1";
+        }
+
+        write(std::string("{\"e\":\"") + event + "\",\"w\":" + result + "}");
+    }
+
+    static inline void tracePartition(const BiPartition& partition) {
+        if (!enabled()) return;
+        write("{\"e\":\"partition\",\"train\":" + list(partition.first_cbegin(), partition.first_cend())
+              + ",\"holdout\":" + list(partition.second_cbegin(), partition.second_cend()) + "}");
+    }
+
+    static inline void traceRule(const ConditionList& conditionList, const IEvaluatedPrediction& prediction) {
+        if (!enabled()) return;
+        std::string conditions;
+
+        for (auto it = conditionList.cbegin(); it != conditionList.cend(); it++) {
+            const Condition& condition = *it;
+            if (!conditions.empty()) conditions += ",";
+            double threshold = std::visit(
+              [](auto value) {
+                return (double) value;
+              },
+              condition.threshold);
+            conditions += "[" + std::to_string(condition.featureIndex) + ","
+                          + std::to_string((int) condition.comparator) + "," + number(threshold) + "]";
+        }
+
+        std::string indices;
+        std::string scores;
+        uint32 i = 0;
+        auto addScore = [&](double value) {
+            if (i > 0) {
+                indices += ",";
+                scores += ",";
+            }
+
+            indices += std::to_string(prediction.getIndex(i));
+            scores += number(value);
+            i++;
+        };
+        prediction.createHead()->visit(
+          [&](const CompleteHead& head) {
+            for (auto it = head.values_cbegin(); it != head.values_cend(); it++) addScore(*it);
+          },
+          [&](const PartialHead& head) {
+            for (auto it = head.values_cbegin(); it != head.values_cend(); it++) addScore(*it);
+          });
+        write("{\"e\":\"rule\",\"conds\":[" + conditions + "],\"idx\":[" + indices + "],\"scores\":[" + scores + "]}");
+    }
+}
+
+    #define VERIF_TRACE(statement) verif::statement
+#else
+    #define VERIF_TRACE(statement)
+#endif
diff --git a/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_sequential.cpp b/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_sequential.cpp
index 7285d80..efe0fdb 100644
--- a/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_sequential.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_sequential.cpp
@@ -2,6 +2,7 @@
 
 #include "mlrl/common/sampling/feature_sampling_predefined.hpp"
 #include "mlrl/common/util/validation.hpp"
+#include "mlrl/common/util/verif_trace.hpp"
 
 #include <unordered_set>
 
@@ -82,6 +83,7 @@ class SequentialPostOptimization final : public IPostOptimizationPhase {
 
                     // Create a new subset of the given thresholds...
                     const IWeightVector& weights = instanceSampling.sample();
+                    VERIF_TRACE(traceWeights("postopt", weights);)
                     std::unique_ptr<IFeatureSubspace> featureSubspacePtr = weights.createFeatureSubspace(featureSpace);
 
                     // Filter the thresholds subset according to the conditions of the current rule...
@@ -95,6 +97,7 @@ class SequentialPostOptimization final : public IPostOptimizationPhase {
 
                     // Learn a new rule...
                     const IIndexVector& outputIndices = refineHeads_ ? outputSampling.sample() : prediction;
+                    VERIF_TRACE(traceIndices("outputs", outputIndices);)
                     RuleReplacementBuilder ruleReplacementBuilder(intermediateRule);
 
                     if (resampleFeatures_) {
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
index 0be83e5..0842066 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
@@ -6,6 +6,7 @@
 #include "mlrl/common/indices/index_vector_complete.hpp"
 #include "mlrl/common/rule_induction/rule_induction.hpp"
 #include "mlrl/common/rule_refinement/score_processor.hpp"
+#include "mlrl/common/util/verif_trace.hpp"
 
 #include <memory>
 #include <utility>
@@ -132,6 +133,8 @@ class AbstractRuleInduction : public IRuleInduction {
                 // Update the statistics by applying the predictions of the new rule...
                 featureSubspacePtr->applyPrediction(*headPtr);
 
+                VERIF_TRACE(traceRule(*conditionListPtr, *headPtr);)
+
                 // Add the induced rule to the model...
                 modelBuilder.addRule(conditionListPtr, headPtr);
                 return true;
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index a911369..82e317b 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -2,6 +2,7 @@
 
 #include "mlrl/common/util/math.hpp"
 #include "mlrl/common/util/validation.hpp"
+#include "mlrl/common/util/verif_trace.hpp"
 #include "rule_induction_common.hpp"
 
 #include <algorithm>
@@ -175,6 +176,7 @@ class Beam final {
                 if (entry.outputIndices) {
                     // Sample features...
                     const IIndexVector& featureIndices = featureSampling.sample();
+                    VERIF_TRACE(traceIndices("features", featureIndices);)
 
                     // Search for refinements of the existing beam entry...
                     FixedRefinementComparator refinementComparator(ruleCompareFunction, beamWidth, minQuality);
@@ -325,6 +327,7 @@ class BeamSearchTopDownRuleInduction final : public AbstractRuleInduction {
 
             // Sample features...
             const IIndexVector& sampledFeatureIndices = featureSampling.sample();
+            VERIF_TRACE(traceIndices("features", sampledFeatureIndices);)
 
             // Search for the best refinements using a single condition...
             FixedRefinementComparator refinementComparator(ruleCompareFunction_, beamWidth_);
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
index d23912e..9831de8 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
@@ -2,6 +2,7 @@
 
 #include "mlrl/common/util/math.hpp"
 #include "mlrl/common/util/validation.hpp"
+#include "mlrl/common/util/verif_trace.hpp"
 #include "rule_induction_common.hpp"
 
 /**
@@ -74,6 +75,7 @@ class GreedyTopDownRuleInduction final : public AbstractRuleInduction {
             while (foundRefinement && (maxConditions_ == 0 || conditionListPtr->getNumConditions() < maxConditions_)) {
                 // Sample features...
                 const IIndexVector& sampledFeatureIndices = featureSampling.sample();
+                VERIF_TRACE(traceIndices("features", sampledFeatureIndices);)
 
                 // Search for the best refinement...
                 foundRefinement =
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp b/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp
index 3729652..d516431 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.cpp
@@ -1,4 +1,5 @@
 #include "mlrl/common/rule_model_assemblage/rule_model_assemblage_sequential.hpp"
+#include "mlrl/common/util/verif_trace.hpp"
 
 /**
  * Allows to sequentially induce several rules, optionally starting with a default rule, that are added to a rule-based
@@ -59,7 +60,9 @@ class SequentialRuleModelAssemblage final : public IRuleModelAssemblage {
                 }
 
                 const IWeightVector& weights = instanceSampling.sample();
+                VERIF_TRACE(traceWeights("weights", weights);)
                 const IIndexVector& outputIndices = outputSampling.sample();
+                VERIF_TRACE(traceIndices("outputs", outputIndices);)
                 bool success = ruleInductionPtr_->induceRule(featureSpace, outputIndices, weights, partition,
                                                              featureSampling, modelBuilder);
 
diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/partition_bi.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/partition_bi.cpp
index 5a130c7..5a4de19 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/partition_bi.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/partition_bi.cpp
@@ -6,6 +6,7 @@
 #include "mlrl/common/rule_refinement/prediction.hpp"
 #include "mlrl/common/sampling/instance_sampling.hpp"
 #include "mlrl/common/stopping/stopping_criterion.hpp"
+#include "mlrl/common/util/verif_trace.hpp"
 
 #include <algorithm>
 
@@ -74,12 +75,14 @@ std::unique_ptr<IStoppingCriterion> BiPartition::createStoppingCriterion(const I
 std::unique_ptr<IInstanceSampling> BiPartition::createInstanceSampling(
   const IClassificationInstanceSamplingFactory& factory, const IRowWiseLabelMatrix& labelMatrix,
   IStatistics& statistics) {
+    VERIF_TRACE(tracePartition(*this);)
     return labelMatrix.createInstanceSampling(factory, *this, statistics);
 }
 
 std::unique_ptr<IInstanceSampling> BiPartition::createInstanceSampling(
   const IRegressionInstanceSamplingFactory& factory, const IRowWiseRegressionMatrix& regressionMatrix,
   IStatistics& statistics) {
+    VERIF_TRACE(tracePartition(*this);)
     return regressionMatrix.createInstanceSampling(factory, *this, statistics);
 }
 
-- 
2.43.0


From e39e9d2ad439682585e7c8c3fe0a47aeafa86f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 02/38] fix: Preserve explicitly stored zeros when converting
 sparse matrices with a non-zero sparse value to dense ones

---
 python/subprojects/common/mlrl/common/arrays.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/arrays.py b/python/subprojects/common/mlrl/common/arrays.py
index 7b1fc9b..58dc52a 100644
--- a/python/subprojects/common/mlrl/common/arrays.py
+++ b/python/subprojects/common/mlrl/common/arrays.py
@@ -144,8 +144,8 @@ def enforce_dense(array, order: str, dtype, sparse_value=0) -> np.ndarray:
     if is_sparse(array):
         if sparse_value != 0:
             dense_array = np.full(shape=array.shape, fill_value=sparse_value, dtype=dtype, order=order)
-            dense_array[array.nonzero()] = 0
-            dense_array += array
+            coo_array = array.tocsr().tocoo()
+            dense_array[coo_array.row, coo_array.col] = coo_array.data
             return np.asarray(dense_array, dtype=dtype, order=order)
         return np.require(array.toarray(order=order), dtype=dtype)
     return np.require(array, dtype=dtype, requirements=[order])
-- 
2.43.0


From 5900925b0ba30ef4207ea3d5a79b63d6a16a8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 03/38] fix: Examples with missing feature values must not be
 covered by conditions on these features at prediction time

---
 .../src/mlrl/common/model/body_conjunctive.cpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
index 441136a..ad9fbbd 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/model/body_conjunctive.hpp"
 
+#include <cmath>
+
 template<typename Threshold, typename Compare>
 ConjunctiveBody::ConditionVector<Threshold, Compare>::ConditionVector(uint32 numConditions)
     : IterableIndexedVectorDecorator<IndexedVectorDecorator<AllocatedVector<uint32>, AllocatedVector<Threshold>>>(
@@ -16,9 +18,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<const flo
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) begin[featureIndex];
+        float32 featureValue = begin[featureIndex];
 
-        if (!compare_(featureValue, threshold)) {
+        // Examples with missing feature values are never covered...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
@@ -40,9 +43,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<uint32>::
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) (tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue);
+        float32 featureValue = tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue;
 
-        if (!compare_(featureValue, threshold)) {
+        // Examples with missing feature values are never covered...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
-- 
2.43.0


From 2d69f5bdde4c80b357d4656778f143044ae02c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 04/38] fix: Use a valid thread index for predictions if
 multi-threading is not available

The buffer that stores the scores predicted for individual examples has one row per thread. If only a
single thread is used, the index 1 is out of bounds and corrupts the heap.
---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From 34112fe67e73f2de4dc3e9256dc900ef001e9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:29 +0000
Subject: [PATCH 05/38] fix: Keep the averaged probability of the last
 threshold when fitting isotonic calibration models

If the largest threshold occurs several times, the outcomes of the corresponding examples are averaged. However,
the outcome of a single one of these examples was stored instead of the average.
---
 .../mlrl/common/prediction/probability_calibration_isotonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index 87542fe..a0414ca 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -29,7 +29,7 @@ static inline void sortByThresholdsAndEliminateDuplicates(ListOfLists<Tuple<floa
         }
     }
 
-    bins[n] = bins[numBins - 1];
+    bins[n] = previousBin;
     n++;
     bins.resize(n);
 }
-- 
2.43.0


From 8cbc98a6fd6ced1b496f21a99cd3ab3f686c7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 06/38] fix: Support sparse matrices without any explicitly
 stored elements

---
 .../common/mlrl/common/cython/feature_matrix.pyx          | 8 ++++++--
 .../common/mlrl/common/cython/label_matrix.pyx            | 3 ++-
 .../common/mlrl/common/cython/regression_matrix.pyx       | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
index a2f0ac0..906b445 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
@@ -91,7 +91,9 @@ cdef class CscFeatureMatrix(ColumnWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCscFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCscFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
@@ -156,7 +158,9 @@ cdef class CsrFeatureMatrix(RowWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCsrFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCsrFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
diff --git a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
index 1afda7a..b35d044 100644
--- a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
@@ -56,7 +56,8 @@ cdef class CsrLabelMatrix(RowWiseLabelMatrix):
         """
         self.indices = indices
         self.indptr = indptr
-        self.label_matrix_ptr = createCsrLabelMatrix(&indices[0], &indptr[0], num_examples, num_labels)
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.label_matrix_ptr = createCsrLabelMatrix(indices_ptr, &indptr[0], num_examples, num_labels)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
         return self.label_matrix_ptr.get()
diff --git a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
index f2db3c1..34be58f 100644
--- a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
@@ -57,7 +57,9 @@ cdef class CsrRegressionMatrix(RowWiseRegressionMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.regression_matrix_ptr = createCsrRegressionMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.regression_matrix_ptr = createCsrRegressionMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                                num_outputs)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
-- 
2.43.0


From 1f22980a87cdb6f3c040d0fe199251e408445e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 07/38] fix: Select the automatic binary predictor if requested
 via the Python API

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 34a701d..586c995 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -557,7 +557,7 @@ cdef class BoomerClassifierConfig(RuleLearnerConfig,
         return config
 
     def use_automatic_binary_predictor(self):
-        self.config_ptr.get().useOutputWiseBinaryPredictor()
+        self.config_ptr.get().useAutomaticBinaryPredictor()
 
 
 cdef class BoomerClassifier(ClassificationRuleLearner):
-- 
2.43.0


From 0147f1f28e9d43a3f6f3278fcdd4f3c99f5fd16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:46 +0000
Subject: [PATCH 08/38] fix: Rows of binary CSR matrices must not exceed the
 number of elements stored in a row

---
 .../include/mlrl/common/data/view_matrix_csr_binary.hpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
index a624fe3..2d1df31 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
@@ -56,7 +56,8 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `const_row` that has been created
          */
         const_row operator[](uint32 row) const {
-            return Vector<const uint32>(indices_cbegin(row), Matrix::numCols);
+            uint32 numElements = static_cast<uint32>(indices_cend(row) - indices_cbegin(row));
+            return Vector<const uint32>(indices_cbegin(row), numElements);
         }
 
         /**
@@ -66,7 +67,8 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `row` that has been created
          */
         row operator[](uint32 row) {
-            return Vector<uint32>(indices_begin(row), Matrix::numCols);
+            uint32 numElements = static_cast<uint32>(indices_end(row) - indices_begin(row));
+            return Vector<uint32>(indices_begin(row), numElements);
         }
 
         /**
-- 
2.43.0


From 34841deac1eab7cc3b983346ca0157fa5cf707d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:30 +0000
Subject: [PATCH 09/38] fix: Do not count examples with missing feature values
 as covered when searching for refinements

---
 .../common/input/feature_based_search.hpp     | 55 +++++++++++++++----
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
index bc8ea93..94a6845 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
@@ -45,6 +45,31 @@ static inline std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubse
     return statisticsSubsetPtr;
 }
 
+/**
+ * Returns the number of examples with non-zero weights that are not missing the value of a certain feature and therefore
+ * may be covered by a refinement that is created from the corresponding feature vector.
+ *
+ * @param statisticsSubset              A reference to an object of type `IResettableStatisticsSubset` that provides
+ *                                      access to the weights of the examples
+ * @param missingFeatureVector          A reference to an object of type `MissingFeatureVector` that provides access to
+ *                                      the indices of training examples with missing feature values
+ * @param numExamplesWithNonZeroWeights The total number of examples with non-zero weights
+ * @return                              The number of examples with non-zero weights, excluding those with missing values
+ */
+static inline uint32 getNumNonMissingExamples(const IResettableStatisticsSubset& statisticsSubset,
+                                              const MissingFeatureVector& missingFeatureVector,
+                                              uint32 numExamplesWithNonZeroWeights) {
+    uint32 numNonMissing = numExamplesWithNonZeroWeights;
+
+    for (auto it = missingFeatureVector.indices_cbegin(); it != missingFeatureVector.indices_cend(); it++) {
+        if (statisticsSubset.hasNonZeroWeight(*it)) {
+            numNonMissing--;
+        }
+    }
+
+    return numNonMissing;
+}
+
 /**
  * Conducts a search for the best refinement of an existing rule that can be created from a `NumericalFeatureVector`.
  *
@@ -76,8 +101,10 @@ static inline void searchForNumericalRefinement(const NumericalFeatureVector& fe
                                                 uint32 minCoverage, Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator,
-                                           numExamplesWithNonZeroWeights, minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                           refinement);
 }
 
 /**
@@ -111,8 +138,10 @@ static inline void searchForNominalRefinement(const NominalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -145,8 +174,10 @@ static inline void searchForBinaryRefinement(const BinaryFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                        refinement);
 }
 
 /**
@@ -180,8 +211,10 @@ static inline void searchForOrdinalRefinement(const OrdinalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -215,6 +248,8 @@ static inline void searchForBinnedRefinement(const BinnedFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numNonMissing =
+      getNumNonMissingExamples(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numNonMissing, minCoverage,
+                                        refinement);
 }
-- 
2.43.0


From 3f640acf6eebec6a52d96012e1a352e2cd17c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:30 +0000
Subject: [PATCH 10/38] fix: Copy the number of conditions using the !=
 operator when copying condition lists

---
 cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
index a016116..4a0af53 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
@@ -7,7 +7,7 @@ ConditionList::ConditionList(const ConditionList& conditionList)
       numConditionsPerComparator_(
         {conditionList.numConditionsPerComparator_[0], conditionList.numConditionsPerComparator_[1],
          conditionList.numConditionsPerComparator_[2], conditionList.numConditionsPerComparator_[3],
-         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[4]}) {}
+         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[5]}) {}
 
 ConditionList::const_iterator ConditionList::cbegin() const {
     return vector_.cbegin();
-- 
2.43.0


From a8493b481e70116ccd58cad4bdb1b777fd582139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:30 +0000
Subject: [PATCH 11/38] fix: Initialize whether unused rules should be removed
 when using pre-pruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..c803a22 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,9 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent),
+              minImprovement_(minImprovement) {}
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From 1417b7b02919360609d18edaafc81e6359fd572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:23 +0000
Subject: [PATCH 12/38] fix: stop refining rules in a beam search that do not
 become more specific (endless loop)

---
 .../rule_induction_top_down_beam_search.cpp        | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index 82e317b..fb29704 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -38,6 +38,11 @@ struct BeamEntry final {
          * potential refinements of the rule may predict.
          */
         const IIndexVector* outputIndices;
+
+        /**
+         * The number of training examples with non-zero weights that are covered by the rule.
+         */
+        uint32 numCovered;
 };
 
 static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
@@ -49,18 +54,24 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
     entry.conditionListPtr->addCondition(refinement);
     entry.headPtr = std::move(refinement.headPtr);
     entry.outputIndices = keepHead ? entry.headPtr.get() : &outputIndices;
+    entry.numCovered = refinement.numCovered;
 }
 
 static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinement& refinement,
                              std::unique_ptr<IFeatureSubspace> featureSubspacePtr,
                              std::unique_ptr<ConditionList> conditionListPtr, bool keepHead, uint32 minCoverage) {
+    uint32 numCovered = oldEntry.numCovered;
     featureSubspacePtr->filterSubspace(refinement);
     newEntry.featureSubspacePtr = std::move(featureSubspacePtr);
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
     newEntry.headPtr = std::move(refinement.headPtr);
 
-    if (refinement.numCovered <= minCoverage) {
+    newEntry.numCovered = refinement.numCovered;
+
+    // Rules that cover the minimum number of examples, or that do not cover less examples than the rule they originate
+    // from, are not refined any further. Otherwise, conditions could be added to a rule infinitely...
+    if (refinement.numCovered <= minCoverage || refinement.numCovered >= numCovered) {
         newEntry.outputIndices = nullptr;
     } else {
         newEntry.outputIndices = keepHead ? newEntry.headPtr.get() : oldEntry.outputIndices;
@@ -72,6 +83,7 @@ static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry) {
     newEntry.conditionListPtr = std::move(oldEntry.conditionListPtr);
     newEntry.headPtr = std::move(oldEntry.headPtr);
     newEntry.outputIndices = nullptr;
+    newEntry.numCovered = oldEntry.numCovered;
 }
 
 static inline const Quality& updateOrder(RuleCompareFunction ruleCompareFunction,
-- 
2.43.0


From caef28c1ed0d35278752b626b7e4b77005499d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:23 +0000
Subject: [PATCH 13/38] fix: sort the predictions of rules induced by a beam
 search by their output indices

---
 .../rule_induction/rule_induction_top_down_beam_search.cpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index fb29704..d6ee4a4 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -53,6 +53,7 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
     entry.conditionListPtr = std::make_unique<ConditionList>();
     entry.conditionListPtr->addCondition(refinement);
     entry.headPtr = std::move(refinement.headPtr);
+    entry.headPtr->sort();
     entry.outputIndices = keepHead ? entry.headPtr.get() : &outputIndices;
     entry.numCovered = refinement.numCovered;
 }
@@ -66,7 +67,7 @@ static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinemen
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
     newEntry.headPtr = std::move(refinement.headPtr);
-
+    newEntry.headPtr->sort();
     newEntry.numCovered = refinement.numCovered;
 
     // Rules that cover the minimum number of examples, or that do not cover less examples than the rule they originate
-- 
2.43.0


From 8f3f07ce11444e1d11b6614a947c7e08fdeb91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:19 +0000
Subject: [PATCH 14/38] fix: Allocate one confusion matrix per output rather
 than per example when evaluating SeCo rules

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From 7f3583a9711e27b643c1e3eaf113655fd622694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 15/38] fix: Update the sum of uncovered weights atomically, as
 statistics may be updated in parallel

---
 .../seco/include/mlrl/seco/data/matrix_coverage_dense.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
index 5cc83a1..7ef1c74 100644
--- a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
+++ b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
@@ -8,6 +8,8 @@
 #include "mlrl/common/indices/index_vector_complete.hpp"
 #include "mlrl/common/indices/index_vector_partial.hpp"
 
+#include <atomic>
+
 namespace seco {
 
     /**
@@ -17,7 +19,8 @@ namespace seco {
     class DenseCoverageMatrix final : public DenseMatrixDecorator<AllocatedCContiguousView<uint32>> {
         private:
 
-            float64 sumOfUncoveredWeights_;
+            // The statistics of different examples may be updated by multiple threads in parallel
+            std::atomic<float64> sumOfUncoveredWeights_;
 
         public:
 
-- 
2.43.0


From de6e23170def11d562a5e97d2edb4b1cbbb86396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:50 +0000
Subject: [PATCH 16/38] fix: sample valid numbers of features if less than two
 features can be sampled

---
 .../common/sampling/feature_sampling_without_replacement.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..7fdc930 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -151,8 +151,10 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
 
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
-    } else {
+    } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+    } else {
+        numSamples = numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From a846a77224993faa1e58c22703719b16afdc75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 17/38] fix: sort the indices of outputs that are sampled
 without replacement, as required by separate-and-conquer algorithms

---
 .../common/sampling/output_sampling_without_replacement.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
index 8ff21b8..a3e371a 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
@@ -6,6 +6,8 @@
 #include "mlrl/common/util/math.hpp"
 #include "mlrl/common/util/validation.hpp"
 
+#include <algorithm>
+
 /**
  * Allows to select a subset of the available outputs without replacement.
  */
@@ -32,6 +34,8 @@ class OutputSamplingWithoutReplacement final : public IOutputSampling {
         const IIndexVector& sample() override {
             sampleIndicesWithoutReplacement<IndexIterator>(indexVector_.begin(), indexVector_.getNumElements(),
                                                            IndexIterator(numOutputs_), numOutputs_, *rngPtr_);
+            // The indices of outputs must be given in increasing order...
+            std::sort(indexVector_.begin(), indexVector_.end());
             return indexVector_;
         }
 };
-- 
2.43.0


From dda16c62b8862659e751def2b961aaab95e7caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 18/38] Record the growth of rules (guarded by
 MLRL_VERIF_TRACE)

---
 .../include/mlrl/common/util/verif_trace.hpp  | 22 +++++++++++++++++++
 .../rule_induction_top_down_greedy.cpp        |  1 +
 2 files changed, 23 insertions(+)

diff --git a/cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp b/cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp
index 349ca90..d25e78b 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/verif_trace.hpp
@@ -11,6 +11,7 @@
     #include "mlrl/common/model/head_complete.hpp"
     #include "mlrl/common/model/head_partial.hpp"
     #include "mlrl/common/rule_refinement/prediction_evaluated.hpp"
+    #include "mlrl/common/rule_refinement/refinement.hpp"
     #include "mlrl/common/sampling/partition_bi.hpp"
     #include "mlrl/common/sampling/weight_vector_bit.hpp"
     #include "mlrl/common/sampling/weight_vector_dense.hpp"
@@ -98,6 +99,27 @@ namespace verif {
               + ",\"holdout\":" + list(partition.second_cbegin(), partition.second_cend()) + "}");
     }
 
+    static inline void traceRefinement(const Refinement& refinement) {
+        if (!enabled()) return;
+        const Condition& condition = refinement;
+        double threshold = std::visit(
+          [](auto value) {
+            return (double) value;
+          },
+          condition.threshold);
+        std::string indices;
+
+        for (uint32 i = 0; i < refinement.headPtr->getNumElements(); i++) {
+            if (i > 0) indices += ",";
+            indices += std::to_string(refinement.headPtr->getIndex(i));
+        }
+
+        write("{\"e\":\"grow\",\"c\":[" + std::to_string(condition.featureIndex) + ","
+              + std::to_string((int) condition.comparator) + "," + number(threshold)
+              + "],\"n\":" + std::to_string(refinement.numCovered)
+              + ",\"q\":" + number(refinement.headPtr->quality) + ",\"idx\":[" + indices + "]}");
+    }
+
     static inline void traceRule(const ConditionList& conditionList, const IEvaluatedPrediction& prediction) {
         if (!enabled()) return;
         std::string conditions;
diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
index 9831de8..19afdb1 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_greedy.cpp
@@ -93,6 +93,7 @@ class GreedyTopDownRuleInduction final : public AbstractRuleInduction {
 
                     // Add the new condition...
                     conditionListPtr->addCondition(bestRefinement);
+                    VERIF_TRACE(traceRefinement(bestRefinement);)
 
                     // Keep the outputs for which the rule predicts, if the head should not be further refined...
                     if (maxHeadRefinements_ > 0 && conditionListPtr->getNumConditions() >= maxHeadRefinements_) {
-- 
2.43.0


From bddc43de21b89fb5730220681f869f8bb3ed08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 19/38] fix: shrink gradients towards zero by the L1
 regularization weight when calculating the predictions of decomposable rules

---
 .../rule_evaluation/rule_evaluation_decomposable_common.hpp   | 4 ++--
 .../rule_evaluation_non_decomposable_binned_common.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
index 8c93f25..678b366 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
@@ -20,7 +20,7 @@ namespace boosting {
         } else if (gradient < -l1RegularizationWeight) {
             return l1RegularizationWeight;
         } else {
-            return 0;
+            return -gradient;
         }
     }
 
@@ -37,7 +37,7 @@ namespace boosting {
     static inline constexpr float64 calculateOutputWiseScore(float64 gradient, float64 hessian,
                                                              float64 l1RegularizationWeight,
                                                              float64 l2RegularizationWeight) {
-        return util::divideOrZero(-gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight),
+        return util::divideOrZero(-(gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight)),
                                   hessian + l2RegularizationWeight);
     }
 
diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
index 68e7427..0a13aee 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
@@ -117,7 +117,7 @@ namespace boosting {
         for (uint32 i = 0; i < numPredictions; i++) {
             uint32 weight = weights[i];
             float64 gradient = ordinates[i];
-            ordinates[i] += (weight * getL1RegularizationWeight(gradient, l1RegularizationWeight));
+            ordinates[i] += getL1RegularizationWeight(gradient, weight * l1RegularizationWeight);
         }
     }
 
-- 
2.43.0


From 23f9f73d80b13e7fcd8d6dd13f9318b552def7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:17 +0000
Subject: [PATCH 20/38] fix: train a new model if a model file is corrupt

---
 python/subprojects/testbed/mlrl/testbed/persistence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/persistence.py b/python/subprojects/testbed/mlrl/testbed/persistence.py
index d5c8ab6..95606d5 100644
--- a/python/subprojects/testbed/mlrl/testbed/persistence.py
+++ b/python/subprojects/testbed/mlrl/testbed/persistence.py
@@ -65,3 +65,7 @@ class ModelPersistence:
         except IOError:
             log.error('Failed to load model from file \"%s\"', file_path)
             return None
+        except Exception as error:  # pylint: disable=broad-exception-caught
+            # Depending on how a file is damaged, "pickle" may raise arbitrary exceptions...
+            log.error('Failed to load model from file \"%s\": The file is corrupt (%s)', file_path, error)
+            return None
-- 
2.43.0


From 446e5c0d6cd43da3fb51c77f5932a1e4f2921b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 21/38] fix: respect the maximum size when evaluating models
 incrementally

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index 914ee69..1c8d6d2 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -197,10 +197,10 @@ class IncrementalEvaluation(Evaluation):
                 total_size = min(max_size, total_size)
 
             min_size = self.min_size
-            next_step_size = min_size if min_size > 0 else step_size
-            current_size = min(next_step_size, total_size)
+            next_step_size = min(min_size if min_size > 0 else step_size, total_size)
+            current_size = next_step_size
 
-            while incremental_predictor.has_next():
+            while next_step_size > 0:
                 log.info('Predicting for %s %s examples using a model of size %s...', x.shape[0], data_type.value,
                          current_size)
                 start_time = timer()
@@ -222,8 +222,8 @@ class IncrementalEvaluation(Evaluation):
                                                predictions=predictions,
                                                learner=learner)
 
-                next_step_size = step_size
-                current_size = min(current_size + next_step_size, total_size)
+                next_step_size = min(step_size, total_size - current_size)
+                current_size += next_step_size
 
 
 class Experiment(DataSplitter.Callback):
-- 
2.43.0


From 49a849277de9f83476245a2cf1a28c05c3778b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 22/38] fix: pass keyword arguments when predicting
 probabilities

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index 1c8d6d2..b46cdef 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -52,7 +52,7 @@ class Evaluation(ABC):
         :param x:                       A `numpy.ndarray`, `scipy.sparse.spmatrix` or `scipy.sparse.sparray`, shape
                                         `(num_examples, num_features)`, that stores the feature values of the query
                                         examples
-        :param kwargs:                  Optional keyword arguments to be passed to the `predict_function`
+        :param kwargs:                  Optional keyword arguments to be passed to the invoked function
         :return:                        The return value of the invoked function
         """
         prediction_type = self.prediction_type
@@ -70,7 +70,7 @@ class Evaluation(ABC):
                 result = None
         elif prediction_type == PredictionType.PROBABILITIES:
             try:
-                result = predict_proba_function(x)
+                result = predict_proba_function(x, **kwargs)
             except RuntimeError:
                 log.error('Prediction of probabilities not supported')
                 result = None
-- 
2.43.0


From cdba7b003f7c67f3f1a42754665c5dfb05179441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 23/38] fix: average the results of incremental evaluations
 across models of the same size

---
 python/subprojects/testbed/mlrl/testbed/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/evaluation.py b/python/subprojects/testbed/mlrl/testbed/evaluation.py
index 961da97..3d548a8 100644
--- a/python/subprojects/testbed/mlrl/testbed/evaluation.py
+++ b/python/subprojects/testbed/mlrl/testbed/evaluation.py
@@ -381,7 +381,7 @@ class EvaluationWriter(OutputWriter, ABC):
 
     def __init__(self, sinks: List[OutputWriter.Sink]):
         super().__init__(sinks)
-        self.results: Dict[str, EvaluationWriter.EvaluationResult] = {}
+        self.results: Dict[Tuple[DataType, int], EvaluationWriter.EvaluationResult] = {}
 
     @abstractmethod
     def _populate_result(self, data_split: DataSplit, result: EvaluationResult, predictions, ground_truth):
@@ -401,8 +401,9 @@ class EvaluationWriter(OutputWriter, ABC):
                               learner, data_type: Optional[DataType], prediction_type: Optional[PredictionType],
                               prediction_scope: Optional[PredictionScope], predictions: Optional[Any],
                               train_time: float, predict_time: float) -> Optional[Any]:
-        result = self.results[data_type] if data_type in self.results else EvaluationWriter.EvaluationResult()
-        self.results[data_type] = result
+        key = (data_type, prediction_scope.get_model_size())
+        result = self.results[key] if key in self.results else EvaluationWriter.EvaluationResult()
+        self.results[key] = result
         num_folds = data_split.get_num_folds()
         fold = data_split.get_fold()
         result.put(EVALUATION_MEASURE_TRAINING_TIME, train_time, num_folds=num_folds, fold=fold)
-- 
2.43.0


From e3e7bc38abedbc0895b8fc39ad51a710cdf0cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 24/38] fix: declare attributes as numeric when writing scores
 or probability estimates to ARFF files

---
 .../testbed/mlrl/testbed/predictions.py        | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/predictions.py b/python/subprojects/testbed/mlrl/testbed/predictions.py
index abfbd82..7e1292a 100644
--- a/python/subprojects/testbed/mlrl/testbed/predictions.py
+++ b/python/subprojects/testbed/mlrl/testbed/predictions.py
@@ -10,7 +10,7 @@ import numpy as np
 
 from mlrl.common.options import Options
 
-from mlrl.testbed.data import MetaData, Output, save_arff_file
+from mlrl.testbed.data import Feature, FeatureType, MetaData, Output, save_arff_file
 from mlrl.testbed.data_splitting import DataSplit, DataType
 from mlrl.testbed.format import OPTION_DECIMALS, format_array
 from mlrl.testbed.io import SUFFIX_ARFF, get_file_name_per_fold
@@ -68,6 +68,12 @@ class PredictionWriter(OutputWriter):
             super().__init__(options=options)
             self.output_dir = output_dir
 
+        @staticmethod
+        def __create_attribute(name: str, problem_type: ProblemType, values) -> Feature:
+            if problem_type == ProblemType.CLASSIFICATION and issubclass(values.dtype.type, np.integer):
+                return Output(name)
+            return Feature(name, FeatureType.NUMERICAL)
+
         # pylint: disable=unused-argument
         def write_output(self, problem_type: ProblemType, meta_data: MetaData, data_split: DataSplit,
                          data_type: Optional[DataType], prediction_scope: Optional[PredictionScope], output_data, **_):
@@ -83,8 +89,14 @@ class PredictionWriter(OutputWriter):
 
             file_name = get_file_name_per_fold(prediction_scope.get_file_name(data_type.get_file_name('predictions')),
                                                SUFFIX_ARFF, data_split.get_fold())
-            features = [Output('Ground Truth ' + output.name) for output in meta_data.outputs]
-            outputs = [Output('Prediction ' + output.name) for output in meta_data.outputs]
+            features = [
+                self.__create_attribute('Ground Truth ' + output.name, problem_type, ground_truth)
+                for output in meta_data.outputs
+            ]
+            outputs = [
+                self.__create_attribute('Prediction ' + output.name, problem_type, predictions)
+                for output in meta_data.outputs
+            ]
             prediction_meta_data = MetaData(features, outputs, outputs_at_start=False)
             save_arff_file(self.output_dir, file_name, ground_truth, predictions, prediction_meta_data)
 
-- 
2.43.0


From 68081097f924d3e7d92dd83c43c4c58f3511c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 25/38] fix: support one-hot encoding when using predefined
 cross validation folds

---
 python/subprojects/testbed/mlrl/testbed/data_splitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data_splitting.py b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
index 0713025..d105ca7 100644
--- a/python/subprojects/testbed/mlrl/testbed/data_splitting.py
+++ b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
@@ -13,9 +13,13 @@ from os import path
 from timeit import default_timer as timer
 from typing import List, Optional
 
+import numpy as np
+
 from scipy.sparse import vstack
 from sklearn.model_selection import KFold, train_test_split
 
+from mlrl.common.arrays import is_sparse
+
 from mlrl.testbed.data import MetaData, load_data_set, load_data_set_and_meta_data, one_hot_encode
 from mlrl.testbed.format import format_duration
 from mlrl.testbed.io import SUFFIX_ARFF, SUFFIX_XML, get_file_name, get_file_name_per_fold
@@ -449,7 +453,7 @@ class CrossValidationSplitter(DataSplitter):
                         train_x = x
                         train_y = y
                     else:
-                        train_x = vstack((train_x, x))
+                        train_x = vstack((train_x, x)) if is_sparse(x) else np.vstack((train_x, x))
                         train_y = vstack((train_y, y))
 
             # Obtain test set for current fold...
-- 
2.43.0


From 8be9937b8219bcf84e8af3d6cf3a9783fde937ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 26/38] fix: preserve examples and attributes without non-zero
 values at the end of sparse ARFF files

---
 python/subprojects/testbed/mlrl/testbed/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 1da5244..db1dfa4 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -378,10 +378,10 @@ def __load_arff(arff_file: str, feature_dtype) -> Tuple[csc_array, list, str]:
     try:
         arff_dict = __load_arff_as_dict(arff_file, sparse=True)
         data = arff_dict['data']
-        matrix_data = data[0]
-        matrix_row_indices = data[1]
-        matrix_col_indices = data[2]
-        shape = (max(matrix_row_indices) + 1, max(matrix_col_indices) + 1)
+        matrix_data = [value for row in data for value in row.values()]
+        matrix_row_indices = [row_index for row_index, row in enumerate(data) for _ in row]
+        matrix_col_indices = [col_index for row in data for col_index in row]
+        shape = (len(data), len(arff_dict['attributes']))
         matrix = coo_array((matrix_data, (matrix_row_indices, matrix_col_indices)), shape=shape, dtype=feature_dtype)
         matrix = matrix.tocsc()
     except arff.BadLayout:
@@ -404,7 +404,7 @@ def __load_arff_as_dict(arff_file: str, sparse: bool) -> dict:
     :return:            A dictionary that stores the content of the ARFF file
     """
     with open(arff_file, 'r', encoding=ENCODING_UTF8) as file:
-        sparse_format = arff.COO if sparse else arff.DENSE
+        sparse_format = arff.LOD if sparse else arff.DENSE
         return arff.load(file, encode_nominal=True, return_type=sparse_format)
 
 
-- 
2.43.0


From b70e71b82dc9fa3d5ad6b2e18ce1d2649b4a649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 27/38] fix: support ARFF files with outputs at the end, if no
 XML file is available

---
 python/subprojects/testbed/mlrl/testbed/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index db1dfa4..fb79bd0 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -437,7 +437,8 @@ def __parse_outputs_from_relation(relation: str, features: list) -> List[Output]
         parameter_value = parameter_value[:index]
 
     num_outputs = int(parameter_value)
-    return [Output(__parse_feature_or_output_name(features[i][0])) for i in range(num_outputs)]
+    output_features = features[:num_outputs] if num_outputs >= 0 else features[num_outputs:]
+    return [Output(__parse_feature_or_output_name(feature[0])) for feature in output_features]
 
 
 def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaData:
-- 
2.43.0


From a5f2ad4283c2b76a1dd6bc4906308205a67381a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 28/38] fix: assign the names of outputs according to the order
 of the attributes in an ARFF file

---
 python/subprojects/testbed/mlrl/testbed/data.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index fb79bd0..f19f6a7 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -450,14 +450,15 @@ def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaDa
     :param outputs:     A list that contains the all outputs
     :return:            The `MetaData` that has been created
     """
-    output_names = {output.name for output in outputs}
+    outputs_by_name = {output.name: output for output in outputs}
     outputs_at_start = False
     feature_list = []
+    output_list = []
 
     for feature in features:
         feature_name = __parse_feature_or_output_name(feature[0])
 
-        if feature_name not in output_names:
+        if feature_name not in outputs_by_name:
             type_definition = feature[1]
 
             if isinstance(type_definition, list):
@@ -475,10 +476,13 @@ def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaDa
                     raise ValueError('Encountered unsupported feature type: ' + type_definition)
 
             feature_list.append(Feature(feature_name, feature_type, nominal_values))
-        elif len(feature_list) == 0:
-            outputs_at_start = True
+        else:
+            output_list.append(outputs_by_name[feature_name])
 
-    meta_data = MetaData(feature_list, outputs, outputs_at_start)
+            if len(feature_list) == 0:
+                outputs_at_start = True
+
+    meta_data = MetaData(feature_list, output_list, outputs_at_start)
     return meta_data
 
 
-- 
2.43.0


From 4154e84edad737398c3fb7284ca3fe688b7a6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 29/38] fix: support label vectors without relevant labels when
 writing label vectors

---
 python/subprojects/testbed/mlrl/testbed/label_vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/label_vectors.py b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
index 50c68a4..885f509 100644
--- a/python/subprojects/testbed/mlrl/testbed/label_vectors.py
+++ b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
@@ -62,8 +62,8 @@ class LabelVectorWriter(OutputWriter):
                 unique_label_vectors: List[Tuple[np.array, int]] = []
 
                 for label_vector_string, frequency in unique_label_vector_strings.items():
-                    label_vector = np.asarray(
-                        [int(label_index) for label_index in label_vector_string.split(separator)])
+                    label_indices = label_vector_string.split(separator) if label_vector_string else []
+                    label_vector = np.asarray([int(label_index) for label_index in label_indices], dtype=int)
                     unique_label_vectors.append((label_vector, frequency))
 
                 self.unique_label_vectors = unique_label_vectors
-- 
2.43.0


From 8f528094a98f51fcc8db90302260ce623de1129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 30/38] fix: assign thresholds and probabilities of calibration
 models to the correct columns of CSV files

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index af73bea..68511b0 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -102,7 +102,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
                     column_threshold = self.__format_threshold_column(list_index)
 
                     if len(bin_list) > i:
-                        probability, threshold = bin_list[i]
+                        threshold, probability = bin_list[i]
                         columns[column_probability] = format_float(probability, decimals=decimals)
                         columns[column_threshold] = format_float(threshold, decimals=decimals)
                         end = False
-- 
2.43.0


From d47cc526e77ec5de75b0e2658d340789fc766257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 31/38] fix: do not duplicate the bins of calibration models
 that are written to several sinks

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index 68511b0..e7d48cd 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -61,6 +61,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Formattable.format`
             """
+            self.bins = {}
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 4)
             bins = self.bins
@@ -86,6 +87,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Tabularizable.tabularize`
             """
+            self.bins = {}
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 0)
             bins = self.bins
-- 
2.43.0


From 0aa8969d2e54ac1b55b01bd1a4fc242329e43957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 32/38] fix: use integer indices for label vectors without
 relevant labels when visiting label vector sets

---
 .../common/mlrl/common/cython/output_space_info.pyx            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
index 6b870de..c860eb6 100644
--- a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
+++ b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
@@ -74,7 +74,8 @@ cdef class LabelVectorSet(OutputSpaceInfo):
 
     cdef __visit_label_vector(self, const LabelVector& label_vector, uint32 frequency):
         cdef uint32 num_elements = label_vector.getNumElements()
-        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [])
+        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [],
+                                   dtype=np.uint32)
         self.visitor.visit_label_vector(label_indices, frequency)
 
     cdef __serialize_label_vector(self, const LabelVector& label_vector, uint32 frequency):
-- 
2.43.0


From 3c742f474b7a50dbc90cc49da59f9e31f8e26e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:18 +0000
Subject: [PATCH 33/38] fix: support isotonic calibration models that have not
 been fit to any examples

---
 .../prediction/probability_calibration_isotonic.cpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index a0414ca..de518c7 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -102,6 +102,9 @@ static inline void aggregateNonIncreasingBins(ListOfLists<Tuple<float64>>::row b
 }
 
 static inline float64 calibrateProbability(ListOfLists<Tuple<float64>>::const_row bins, float64 probability) {
+    // Probabilities cannot be calibrated if no bins are available, e.g., because the holdout set is empty...
+    if (bins.empty()) return probability;
+
     // Find the bins that impose a lower and upper bound on the probability...
     ListOfLists<Tuple<float64>>::value_const_iterator begin = bins.cbegin();
     ListOfLists<Tuple<float64>>::value_const_iterator end = bins.cend();
@@ -140,8 +143,11 @@ void IsotonicProbabilityCalibrationModel::fit() {
 
     for (uint32 i = 0; i < numLists; i++) {
         row bins = (*this)[i];
-        sortByThresholdsAndEliminateDuplicates(bins);
-        aggregateNonIncreasingBins(bins);
+
+        if (!bins.empty()) {
+            sortByThresholdsAndEliminateDuplicates(bins);
+            aggregateNonIncreasingBins(bins);
+        }
     }
 }
 
-- 
2.43.0


From ba9cf49a387109df292d5e5eb192ac6e43830056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:52 +0000
Subject: [PATCH 34/38] fix: count uncovered labels that are predicted
 correctly by default when calculating the accuracy heuristic

---
 .../seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
index 14e7921..42eeb97 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
@@ -14,9 +14,9 @@ namespace seco {
             float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin,
                                             float64 uip, float64 urn, float64 urp) const override {
                 float64 numCoveredCorrect = cin + crp;
-                float64 numUncoveredCorrect = uin + uip;
+                float64 numUncoveredCorrect = uip + urn;
                 float64 numCorrect = numCoveredCorrect + numUncoveredCorrect;
-                float64 numTotal = numCorrect + cip + crn + urn + urp;
+                float64 numTotal = numCorrect + cip + crn + uin + urp;
                 return util::divideOrZero(numCorrect, numTotal);
             }
     };
-- 
2.43.0


From 2551f4741a63c3460100355af8c88933d07eb355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:52 +0000
Subject: [PATCH 35/38] fix: let the peak lift function decrease monotonously
 after the peak, as documented

---
 .../src/mlrl/seco/lift_functions/lift_function_peak.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
index d1daa49..677c8d8 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
@@ -18,7 +18,7 @@ namespace seco {
                 normalization = ((float64) numLabels - 1) / ((float64) peakLabel - 1);
             } else {
                 normalization =
-                  ((float64) numLabels - (float64) totalLabels) / ((float64) totalLabels - (float64) peakLabel);
+                  ((float64) totalLabels - (float64) numLabels) / ((float64) totalLabels - (float64) peakLabel);
             }
 
             return 1 + pow(normalization, exponent) * (maxLift - 1);
@@ -100,10 +100,10 @@ namespace seco {
              */
             PeakLiftFunctionFactory(uint32 numLabels, uint32 peakLabel, float64 maxLift, float64 curvature)
                 : numLabels_(numLabels), peakLabel_(peakLabel), maxLift_(maxLift), curvature_(curvature),
-                  maxLiftsAfterPeak_(numLabels - peakLabel) {
-                for (uint32 i = 0; i < numLabels - peakLabel; i++) {
+                  maxLiftsAfterPeak_(numLabels - peakLabel + 1) {
+                for (uint32 i = 0; i <= numLabels - peakLabel; i++) {
                     maxLiftsAfterPeak_[i] =
-                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, curvature);
+                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, 1.0 / curvature);
                 }
             }
 
-- 
2.43.0


From 88f5e4a6eb1aef3a3a724d60ed4b69a0d09139ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 36/38] fix: evaluate sparse predictions correctly if they have
 not been predicted in the order of the labels

---
 .../losses/loss_decomposable_sparse_common.hpp        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
index 5a5ad75..d878685 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <limits>
+#include <vector>
 
 namespace boosting {
 
@@ -121,11 +122,19 @@ namespace boosting {
                                              SparseSetView<float64>::value_const_iterator scoresEnd,
                                              DecomposableClassificationLoss::EvaluateFunction evaluateFunction,
                                              uint32 numLabels) {
+        // The scores of an example are stored in the order in which they have been predicted for the first time...
+        std::vector<IndexedValue<float64>> sortedScores(scoresBegin, scoresEnd);
+        std::sort(sortedScores.begin(), sortedScores.end(),
+                  [](const IndexedValue<float64>& lhs, const IndexedValue<float64>& rhs) {
+            return lhs.index < rhs.index;
+        });
+        SparseSetView<float64>::value_const_iterator sortedScoresBegin = sortedScores.cbegin();
         float64 mean = 0;
         float64 score = 0;
         uint32 i = 0;
 
-        while (fetchNextNonZeroEvaluation(indicesBegin, indicesEnd, scoresBegin, scoresEnd, score, evaluateFunction)
+        while (fetchNextNonZeroEvaluation(indicesBegin, indicesEnd, sortedScoresBegin, sortedScores.cend(), score,
+                                          evaluateFunction)
                < LIMIT) {
             mean = util::iterativeArithmeticMean<float64>(i + 1, score, mean);
             i++;
-- 
2.43.0


From f2da5ea1991cf9b270de45d919f36f7d77e618c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 37/38] fix: revert the predictions of unused rules when
 removing them

---
 .../post_optimization_unused_rule_removal.cpp     | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_unused_rule_removal.cpp b/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_unused_rule_removal.cpp
index b6fd854..96b95c7 100644
--- a/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_unused_rule_removal.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/post_optimization/post_optimization_unused_rule_removal.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/post_optimization/post_optimization_unused_rule_removal.hpp"
 
+#include "mlrl/common/sampling/weight_vector_equal.hpp"
+
 /**
  * An implementation of the class `IPostOptimizationPhase` that removes unused rules from a model.
  */
@@ -21,7 +23,20 @@ class UnusedRuleRemoval final : public IPostOptimizationPhase {
             uint32 numUsedRules = modelBuilder_.getNumUsedRules();
 
             if (numUsedRules > 0) {
+                EqualWeightVector weights(featureSpace.getStatisticsProvider().get().getNumStatistics());
+
                 while (modelBuilder_.getNumRules() > numUsedRules) {
+                    // Revert the statistics based on the predictions of the rule to be removed...
+                    const IntermediateModelBuilder::IntermediateRule& intermediateRule = *(modelBuilder_.end() - 1);
+                    const ConditionList& conditionList = *intermediateRule.first;
+                    std::unique_ptr<IFeatureSubspace> featureSubspacePtr = weights.createFeatureSubspace(featureSpace);
+
+                    for (auto it = conditionList.cbegin(); it != conditionList.cend(); it++) {
+                        const Condition& condition = *it;
+                        featureSubspacePtr->filterSubspace(condition);
+                    }
+
+                    featureSubspacePtr->revertPrediction(*intermediateRule.second);
                     modelBuilder_.removeLastRule();
                 }
 
-- 
2.43.0


From ed77598014038072cd3e6401a076823bac941726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:38 +0000
Subject: [PATCH 38/38] fix: do not mistake zeros that are explicitly stored in
 sparse label matrices for relevant labels and support unsorted indices

---
 python/subprojects/common/mlrl/common/rule_learners.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 40c55f4..71c8c5e 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -439,6 +439,10 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the labels of the training examples')
+            # Only relevant labels may be stored explicitly, in increasing order and without duplicates...
+            y = y.copy()
+            y.sum_duplicates()
+            y.eliminate_zeros()
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
             return CsrLabelMatrix(y_indices, y_indptr, y.shape[0], y.shape[1])
@@ -609,6 +613,9 @@ class RegressionRuleLearner(RuleLearner, RegressorMixin, IncrementalRegressorMix
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the regression scores of the training examples')
+            # Scores must be stored in increasing order of their indices and without duplicates...
+            y = y.copy()
+            y.sum_duplicates()
             y_data = np.ascontiguousarray(y.data, dtype=Float32)
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
-- 
2.43.0


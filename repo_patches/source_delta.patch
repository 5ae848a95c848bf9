From ba253703039a4916ee3cbb590467a0c6a204607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 1/5] fix: score each candidate threshold once, on the first
 row holding its value

The previous value was never advanced, so every row above the minimum was
scored, including positions inside a run of equal values. No threshold can
produce such a partition (equal values all go to the true side), so the
reported gain and the selected split could be wrong.
---
 .../threshold_finders/threshold_finder_variance.rs          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..2a1c315 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,7 +46,7 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -76,6 +76,7 @@ pub(super) fn determine_best_threshold(
                 best_result_container.loss = split_variance_sum;
                 best_result_container.threshold_value = feature_value;
             }
+            previous_feature_val = feature_value;
         }
 
         let real_row_index = tuple.1;
@@ -123,7 +124,7 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -153,6 +154,7 @@ pub(super) fn determine_best_threshold_new(
                 best_result_container.loss = split_variance_sum;
                 best_result_container.threshold_value = feature_value;
             }
+            previous_feature_val = feature_value;
         }
 
         let real_row_index = tuple.1;
-- 
2.43.0


From 1e929753115c664084342567c9dd625833b3aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 2/5] fix: new_partition puts every row on the false side when
 no value reaches the threshold

With no value >= split_value the first encounter index stayed 0, so every row
was marked true as well and ended up on the true side.
---
 common/src/data_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..1ff4e76 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,7 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From e1ec86f133740d8436a305b953047caa616d3a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 3/5] fix: create_feature_columns accepts an empty set of rows

partition() calls it for both sides, so a question that sends every row to
one side panicked with an out-of-bounds index.
---
 common/src/data_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index a635f57..e4e386a 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -105,7 +105,8 @@ fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec
 
 pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
     let mut columns = vec![];
-    for col in 0..data_set_features[0].len() {
+    let number_of_columns = data_set_features.first().map_or(0, |row| row.len());
+    for col in 0..number_of_columns {
         let mut column = vec![];
         for row in 0..data_set_features.len() {
             column.push(data_set_features[row][col]);
-- 
2.43.0


From e6d6a0e1e1f857ecb40d580d2616759d3254e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 4/5] fix: multi-class leaf output no longer divides by a
 vanishing denominator

Once a leaf's residuals saturate to 0 or +-1 (e.g. iris, 500 iterations at
learning rate 0.1) the output became NaN or infinite, which then poisoned
every later score and turned the model into a constant class-0 predictor.
---
 .../tree_builders/grad_boost/grad_boost_leaf_output.rs    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..54984da 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -39,7 +39,13 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    let mut numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    // residuals that have saturated to 0 or +-1 leave nothing to divide by
+    for (i, denominator_element) in denominator.iter().enumerate() {
+        if *denominator_element < 1e-150 {
+            numerator_over_denominator[i] = 0.;
+        }
+    }
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0


From 78f76cf68230ceac6c705c0b4f90089ef9595285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 5/5] fix: softmax of large scores no longer overflows to NaN

exp() of a score above 709 is infinite and infinity divided by infinity is
NaN. Shift the scores by their maximum first.
---
 .../common_multi_class_boosting_functions.rs           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
index a0306c4..36cd440 100644
--- a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
+++ b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
@@ -59,8 +59,14 @@ pub mod executor_helper_functions {
 
     //current label ~ current prediction
     fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
-        let exponential_of_current_data_label: Vec<f64> =
-            current_label.iter().map(|element| element.exp()).collect();
+        //shift by the maximum so that exp cannot overflow, the probabilities are unaffected by it
+        let max_label = current_label
+            .iter()
+            .fold(f64::NEG_INFINITY, |max, element| max.max(*element));
+        let exponential_of_current_data_label: Vec<f64> = current_label
+            .iter()
+            .map(|element| (element - max_label).exp())
+            .collect();
         let sum_of_exponentials_of_predictions: f64 =
             exponential_of_current_data_label.iter().sum();
         let probabilties = multiply_f64_slice_by_f64_scalar(
-- 
2.43.0


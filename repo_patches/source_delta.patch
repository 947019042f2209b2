From 68d50bc2f4167aaad70f0269f74f9b3f7267c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 1/7] fix: evaluate a split candidate only on the first
 occurrence of a feature value

previous_feature_val was never advanced past the smallest value, so inside a
run of equal values the scan also scored splits that cut the run in two. No
question can realise those, so the reported gain could be wrong and a worse
column or threshold be chosen.
---
 .../threshold_finders/threshold_finder_variance.rs        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..8e935c2 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,7 +46,7 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -78,6 +78,8 @@ pub(super) fn determine_best_threshold(
             }
         }
 
+        previous_feature_val = feature_value;
+
         let real_row_index = tuple.1;
         let label_vector = &labels[real_row_index];
         update_left_value_tracker(&mut left_value_tracker, label_vector, number_of_targets);
@@ -123,7 +125,7 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -155,6 +157,8 @@ pub(super) fn determine_best_threshold_new(
             }
         }
 
+        previous_feature_val = feature_value;
+
         let real_row_index = tuple.1;
         let label_vector = &all_labels[real_row_index];
         update_left_value_tracker(&mut left_value_tracker, label_vector, number_of_targets);
-- 
2.43.0


From 322e3c4610c68abd908cea11508d285f53be8142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 2/7] fix: put all rows on the false side when the split value
 exceeds every value

collect_indices_for_partitioning started with first_encounter_index 0, so when
no value reached the split value every row was marked true (and false), and
new_partition returned all rows on the true side.
---
 common/src/data_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..1ff4e76 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,7 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From eab0dccf54f1d57e2f4f01d3ef56826602f8013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 3/7] fix: let a row partition have an empty side

create_feature_columns indexed the first row unconditionally, so partition
panicked for a question that all rows (or none) answer with yes.
---
 common/src/data_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index a635f57..e4e386a 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -105,7 +105,8 @@ fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec
 
 pub fn create_feature_columns(data_set_features: &Vec<Vec<f64>>) -> Vec<Vec<f64>> {
     let mut columns = vec![];
-    for col in 0..data_set_features[0].len() {
+    let number_of_columns = data_set_features.first().map_or(0, |row| row.len());
+    for col in 0..number_of_columns {
         let mut column = vec![];
         for row in 0..data_set_features.len() {
             column.push(data_set_features[row][col]);
-- 
2.43.0


From 9b096993852968e4a0a9ec1ab3cc7a5f47c5ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 4/7] fix: keep classification leaf outputs finite when the
 denominator vanishes

Once the softmax of a training row saturates, its residual is exactly 0 and the
leaf output became 0/0 = NaN. The NaN spread through the residuals of the next
iterations, so an ensemble trained long enough predicted the first class for
every row (three separable rows, learning rate 1, 30 iterations).
---
 .../tree_builders/grad_boost/grad_boost_leaf_output.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..43966bd 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -6,6 +6,9 @@ use common::{
     },
 };
 
+// No step is taken where the denominator vanishes, i.e. all residuals of a leaf are 0 (or +-1)
+const SMALLEST_DENOMINATOR: f64 = 1e-150;
+
 #[derive(Clone, Copy)]
 pub enum LeafOutputType {
     Regression,
@@ -39,7 +42,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    let mut numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    for i in 0..denominator.len() {
+        if denominator[i].abs() < SMALLEST_DENOMINATOR {
+            numerator_over_denominator[i] = 0.;
+        }
+    }
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0


From 394b096cc40b0a8f2818b922ea774174d36420f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 5/7] fix: keep softmax probabilities finite for large scores

---
 .../common_multi_class_boosting_functions.rs           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
index a0306c4..6a18790 100644
--- a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
+++ b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
@@ -59,8 +59,14 @@ pub mod executor_helper_functions {
 
     //current label ~ current prediction
     fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
-        let exponential_of_current_data_label: Vec<f64> =
-            current_label.iter().map(|element| element.exp()).collect();
+        //subtracting the maximum keeps the exponentials from overflowing
+        let max_of_current_data_label = current_label
+            .iter()
+            .fold(f64::NEG_INFINITY, |max, element| max.max(*element));
+        let exponential_of_current_data_label: Vec<f64> = current_label
+            .iter()
+            .map(|element| (element - max_of_current_data_label).exp())
+            .collect();
         let sum_of_exponentials_of_predictions: f64 =
             exponential_of_current_data_label.iter().sum();
         let probabilties = multiply_f64_slice_by_f64_scalar(
-- 
2.43.0


From 4d2ebabdfe9d49b6b48606e5aac0e134f20bd93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 6/7] fix: reject labels that are no class instead of storing
 them as another one

---
 common/src/data_reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index e4e386a..cac05da 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -96,6 +96,11 @@ fn parse_data_into_features_and_labels(data_set: Vec<Vec<f64>>) -> SingleTargetD
 fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec<Vec<f64>> {
     let mut multi_target_labels = vec![];
     labels.iter().for_each(|label| {
+        assert!(
+            *label >= 0. && label.fract() == 0.,
+            "The label {} is not a class",
+            label
+        );
         let mut multi_target = vec![0.; number_of_targets];
         multi_target[*label as usize] = 1.;
         multi_target_labels.push(multi_target);
-- 
2.43.0


From 06de54c41542cb4fff5394d4421930ebeffcd779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 7/7] fix: refuse feature and label files with different
 numbers of records

---
 common/src/data_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index cac05da..10f6b9f 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -41,6 +41,7 @@ pub fn read_csv_data_multi_target(
 ) -> MultiTargetDataSet {
     let data_set_features = read_data(file_path_to_features).unwrap();
     let data_set_labels = read_data(file_path_to_labels).unwrap();
+    assert_eq!(data_set_features.len(), data_set_labels.len());
 
     let columns = create_feature_columns(&data_set_features);
 
-- 
2.43.0


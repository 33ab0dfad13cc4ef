From e2bdf0e1411ac5499bb781b17782766d83833c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:13 +0000
Subject: [PATCH 01/34] fix: load registry files in a stable order

The files of a registry were collected with par_bridge in directory order, so
the order of diagnostics, the fatal error that was reported first, and the
order of groups sharing an id depended on the file system and on thread
scheduling.
---
 crates/weaver_resolver/src/loader.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index e8a3a72..c231fba 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -1,8 +1,7 @@
 // SPDX-License-Identifier: Apache-2.0
 
 use itertools::Itertools;
-use rayon::iter::ParallelIterator;
-use rayon::iter::{IntoParallelIterator, ParallelBridge};
+use rayon::iter::{IntoParallelIterator, ParallelIterator};
 use std::fmt::Display;
 use std::path::MAIN_SEPARATOR;
 use weaver_common::http_auth::HttpAuthResolver;
@@ -446,12 +445,16 @@ fn load_definition_repository(
 
     // Loads the semantic convention specifications from the git repo.
     // All yaml files are recursively loaded and parsed in parallel from
-    // the given path.
+    // the given path. The files are visited in a fixed order, and their results
+    // are kept in that order, so that neither the directory order of the file
+    // system nor the thread schedule is visible in what is loaded or reported.
     let result = walkdir::WalkDir::new(local_path.clone())
         .follow_links(follow_symlinks)
+        .sort_by_file_name()
         .into_iter()
         .filter_entry(|e| !is_hidden(e))
-        .par_bridge()
+        .collect::<Vec<_>>()
+        .into_par_iter()
         .flat_map(|entry| {
             match entry {
                 Ok(entry) => {
-- 
2.43.0


From cb9568d91e39961e8370fd63fcc0240a280b02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:13 +0000
Subject: [PATCH 02/34] fix: report duplicate declarations in a stable order

Duplicate ids, metric names and group names were grouped in hash maps, so the
order of the reports and of the locations in them changed from run to run.
---
 crates/weaver_resolver/src/registry.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index ab2376f..317f452 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -13,7 +13,6 @@ use itertools::Itertools;
 use serde::Deserialize;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fmt::Display;
-use std::hash::Hash;
 use weaver_common::result::WResult;
 use weaver_resolved_schema::attribute::{AttributeRef, UnresolvedAttribute};
 use weaver_resolved_schema::lineage::{AttributeLineage, GroupLineage};
@@ -282,11 +281,12 @@ fn check_uniqueness<K, KF, EF>(
     key_fn: KF,
     error_fn: EF,
 ) where
-    K: Eq + Display + Hash,
+    K: Ord + Display,
     KF: Fn(&Group) -> Option<K>,
     EF: Fn(String, Vec<Provenance>) -> Error,
 {
-    let mut keys: HashMap<K, Vec<Provenance>> = HashMap::new();
+    // A `BTreeMap` keeps the reports in a stable order.
+    let mut keys: BTreeMap<K, Vec<Provenance>> = BTreeMap::new();
 
     for group in registry.groups.iter() {
         if let Some(key) = key_fn(group) {
@@ -300,9 +300,9 @@ fn check_uniqueness<K, KF, EF>(
     for (key, provenances) in keys {
         if provenances.len() > 1 {
             // Deduplicate the provenances.
-            let provenances: HashSet<Provenance> = provenances.into_iter().unique().collect();
+            let provenances: Vec<Provenance> = provenances.into_iter().unique().collect();
 
-            errors.push(error_fn(key.to_string(), provenances.into_iter().collect()));
+            errors.push(error_fn(key.to_string(), provenances));
         }
     }
 }
@@ -331,7 +331,8 @@ pub fn check_root_attribute_id_duplicates(
     errors: &mut Vec<Error>,
 ) {
     // Map to track groups by their root attribute ID.
-    let mut groups_by_root_attr_id = HashMap::new();
+    // A `BTreeMap` keeps the reports in a stable order.
+    let mut groups_by_root_attr_id = BTreeMap::new();
     // Iterate over all groups in the registry that are of type `AttributeGroup`.
     registry
         .groups
-- 
2.43.0


From b81ef99394366d74e2da7b8c1ae401c810990f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:13 +0000
Subject: [PATCH 03/34] fix: make stats and diff output independent of hash
 order

The breakdowns of registry stats and the items of registry diff were kept in
hash maps and hash sets, so json, yaml and template output changed from run to
run.
---
 crates/weaver_resolved_schema/src/catalog.rs  |  4 +--
 crates/weaver_resolved_schema/src/lib.rs      | 14 +++++-----
 crates/weaver_resolved_schema/src/registry.rs | 24 ++++++++--------
 crates/weaver_resolved_schema/src/v2/mod.rs   | 12 ++++----
 .../weaver_resolved_schema/src/v2/registry.rs | 28 +++++++++----------
 crates/weaver_resolved_schema/src/v2/stats.rs | 20 ++++++-------
 crates/weaver_semconv/src/group.rs            | 12 ++++++--
 crates/weaver_version/src/schema_changes.rs   | 10 ++++---
 src/weaver.rs                                 |  4 +--
 9 files changed, 68 insertions(+), 60 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/catalog.rs b/crates/weaver_resolved_schema/src/catalog.rs
index c05cbbe..e46308b 100644
--- a/crates/weaver_resolved_schema/src/catalog.rs
+++ b/crates/weaver_resolved_schema/src/catalog.rs
@@ -52,7 +52,7 @@ pub struct Stats {
     /// Breakdown of requirement levels.
     pub requirement_level_breakdown: BTreeMap<String, usize>,
     /// Breakdown of stability levels.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated attributes.
     pub deprecated_count: usize,
 }
@@ -149,7 +149,7 @@ impl Catalog {
                 .iter()
                 .filter_map(|attr| attr.stability.as_ref())
                 .map(|stability| (stability.clone(), 1))
-                .fold(HashMap::new(), |mut acc, (k, v)| {
+                .fold(BTreeMap::new(), |mut acc, (k, v)| {
                     *acc.entry(k).or_insert(0) += v;
                     acc
                 }),
diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index a72318f..2b9b264 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -11,7 +11,7 @@ use crate::instrumentation_library::InstrumentationLibrary;
 use crate::registry::{Group, Registry};
 use crate::resource::Resource;
 use serde::Serialize;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet};
 use weaver_semconv::deprecated::Deprecated;
 use weaver_semconv::group::GroupType;
 use weaver_semconv::manifest::RegistryManifest;
@@ -214,7 +214,7 @@ impl ResolvedTelemetrySchema {
 
     /// Get the attributes of the resolved telemetry schema.
     #[must_use]
-    pub fn attribute_map(&self) -> HashMap<&str, &Attribute> {
+    pub fn attribute_map(&self) -> BTreeMap<&str, &Attribute> {
         self.registry
             .groups
             .iter()
@@ -241,7 +241,7 @@ impl ResolvedTelemetrySchema {
     ///
     /// A refinement is defined as any attribute which is a `ref` of another.
     #[must_use]
-    pub fn registry_attribute_map(&self) -> HashMap<&str, &Attribute> {
+    pub fn registry_attribute_map(&self) -> BTreeMap<&str, &Attribute> {
         self.registry
             .groups
             .iter()
@@ -273,7 +273,7 @@ impl ResolvedTelemetrySchema {
 
     /// Get the groups of a specific type from the resolved telemetry schema.
     #[must_use]
-    pub fn groups(&self, group_type: GroupType) -> HashMap<&str, &Group> {
+    pub fn groups(&self, group_type: GroupType) -> BTreeMap<&str, &Group> {
         self.registry
             .groups
             .iter()
@@ -284,7 +284,7 @@ impl ResolvedTelemetrySchema {
 
     /// Grab a specific type of group identified by the name (not id).
     #[must_use]
-    pub fn groups_by_name(&self, group_type: GroupType) -> HashMap<&str, &Group> {
+    pub fn groups_by_name(&self, group_type: GroupType) -> BTreeMap<&str, &Group> {
         self.registry
             .groups
             .iter()
@@ -452,8 +452,8 @@ impl ResolvedTelemetrySchema {
     fn diff_signals(
         &self,
         schema_item_type: SchemaItemType,
-        latest_signals: &HashMap<&str, &Group>,
-        baseline_signals: &HashMap<&str, &Group>,
+        latest_signals: &BTreeMap<&str, &Group>,
+        baseline_signals: &BTreeMap<&str, &Group>,
         changes: &mut SchemaChanges,
     ) {
         // Collect all the information related to the signals that have been
diff --git a/crates/weaver_resolved_schema/src/registry.rs b/crates/weaver_resolved_schema/src/registry.rs
index c3f2030..278e8de 100644
--- a/crates/weaver_resolved_schema/src/registry.rs
+++ b/crates/weaver_resolved_schema/src/registry.rs
@@ -5,7 +5,7 @@
 //! A semantic convention registry.
 
 use schemars::JsonSchema;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 use weaver_semconv::any_value::AnyValueSpec;
 
 use crate::attribute::{Attribute, AttributeRef};
@@ -72,7 +72,7 @@ pub struct Stats {
     /// Total number of groups.
     pub group_count: usize,
     /// Breakdown of group statistics by type.
-    pub group_breakdown: HashMap<GroupType, GroupStats>,
+    pub group_breakdown: BTreeMap<GroupType, GroupStats>,
 }
 
 /// Group specification.
@@ -251,7 +251,7 @@ pub struct CommonGroupStats {
     /// Total number of groups with a note.
     pub total_with_note: usize,
     /// Stability breakdown.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated groups.
     pub deprecated_count: usize,
     /// Attribute cardinality breakdown.
@@ -271,11 +271,11 @@ pub enum GroupStats {
         /// Common statistics for this type of group.
         common_stats: CommonGroupStats,
         /// Metric names.
-        metric_names: HashSet<String>,
+        metric_names: BTreeSet<String>,
         /// Instrument breakdown.
-        instrument_breakdown: HashMap<InstrumentSpec, usize>,
+        instrument_breakdown: BTreeMap<InstrumentSpec, usize>,
         /// Unit breakdown.
-        unit_breakdown: HashMap<String, usize>,
+        unit_breakdown: BTreeMap<String, usize>,
     },
     /// Statistics for a metric group.
     MetricGroup {
@@ -302,7 +302,7 @@ pub enum GroupStats {
         /// Common statistics for this type of group.
         common_stats: CommonGroupStats,
         /// Span kind breakdown.
-        span_kind_breakdown: HashMap<SpanKindSpec, usize>,
+        span_kind_breakdown: BTreeMap<SpanKindSpec, usize>,
     },
     /// Statistics for an undefined group.
     Undefined {
@@ -359,7 +359,7 @@ impl Registry {
         Stats {
             url: self.registry_url.clone(),
             group_count: self.groups.len(),
-            group_breakdown: self.groups.iter().fold(HashMap::new(), |mut acc, group| {
+            group_breakdown: self.groups.iter().fold(BTreeMap::new(), |mut acc, group| {
                 let group_type = group.r#type.clone();
 
                 // Ensure we have an initialized entry
@@ -371,9 +371,9 @@ impl Registry {
                         },
                         GroupType::Metric => Metric {
                             common_stats: CommonGroupStats::default(),
-                            metric_names: HashSet::new(),
-                            instrument_breakdown: HashMap::new(),
-                            unit_breakdown: HashMap::new(),
+                            metric_names: BTreeSet::new(),
+                            instrument_breakdown: BTreeMap::new(),
+                            unit_breakdown: BTreeMap::new(),
                         },
                         GroupType::MetricGroup => MetricGroup {
                             common_stats: CommonGroupStats::default(),
@@ -389,7 +389,7 @@ impl Registry {
                         },
                         GroupType::Span => Span {
                             common_stats: CommonGroupStats::default(),
-                            span_kind_breakdown: HashMap::new(),
+                            span_kind_breakdown: BTreeMap::new(),
                         },
                         GroupType::Undefined => Undefined {
                             common_stats: CommonGroupStats::default(),
diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index cb3e391..6b8ebf6 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -1,6 +1,6 @@
 //! Version 2 of semantic convention schema.
 
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
@@ -116,7 +116,7 @@ impl ResolvedTelemetrySchema {
     }
 
     /// Get the registry attributes of the resolved telemetry schema in a fast lookup map.
-    fn registry_attribute_map(&self) -> HashMap<&str, &Attribute> {
+    fn registry_attribute_map(&self) -> BTreeMap<&str, &Attribute> {
         self.registry
             .attributes
             .iter()
@@ -799,15 +799,15 @@ pub trait Signal {
 /// Diffs signal registries.
 #[must_use]
 fn diff_signals<T: Signal>(latest: &[T], baseline: &[T]) -> Vec<SchemaItemChange> {
-    let baseline_signals: HashMap<&str, &T> = baseline.iter().map(|s| (s.id(), s)).collect();
-    let latest_signals: HashMap<&str, &T> = latest.iter().map(|s| (s.id(), s)).collect();
+    let baseline_signals: BTreeMap<&str, &T> = baseline.iter().map(|s| (s.id(), s)).collect();
+    let latest_signals: BTreeMap<&str, &T> = latest.iter().map(|s| (s.id(), s)).collect();
     diff_signals_by_hash(&latest_signals, &baseline_signals)
 }
 
 /// Finds the difference between two signal registries using a hash into the signal id.
 fn diff_signals_by_hash<T: Signal>(
-    latest: &HashMap<&str, &T>,
-    baseline: &HashMap<&str, &T>,
+    latest: &BTreeMap<&str, &T>,
+    baseline: &BTreeMap<&str, &T>,
 ) -> Vec<SchemaItemChange> {
     let mut changes: Vec<SchemaItemChange> = Vec::new();
     for (&signal_id, latest_signal) in latest.iter() {
diff --git a/crates/weaver_resolved_schema/src/v2/registry.rs b/crates/weaver_resolved_schema/src/v2/registry.rs
index bf022c4..2d0b7d7 100644
--- a/crates/weaver_resolved_schema/src/v2/registry.rs
+++ b/crates/weaver_resolved_schema/src/v2/registry.rs
@@ -1,6 +1,6 @@
 //! A semantic convention registry.
 
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
@@ -55,7 +55,7 @@ impl Registry {
     pub fn stats<T: AttributeCatalog>(&self, catalog: &T) -> RegistryStats {
         let attributes = {
             let mut attribute_type_breakdown = BTreeMap::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             for attribute in self
                 .attributes
@@ -87,12 +87,12 @@ impl Registry {
         };
 
         let metrics = {
-            let mut stability_breakdown = HashMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
-            let mut metric_names = HashSet::new();
-            let mut instrument_breakdown = HashMap::new();
-            let mut unit_breakdown = HashMap::new();
+            let mut metric_names = BTreeSet::new();
+            let mut instrument_breakdown = BTreeMap::new();
+            let mut unit_breakdown = BTreeMap::new();
             for metric in &self.metrics {
                 if metric.common.deprecated.is_some() {
                     deprecated_count += 1;
@@ -124,8 +124,8 @@ impl Registry {
         };
 
         let spans = {
-            let mut span_kind_breakdown = HashMap::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut span_kind_breakdown = BTreeMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
             for span in &self.spans {
@@ -152,8 +152,8 @@ impl Registry {
         };
 
         let events = {
-            let mut event_names = HashSet::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut event_names = BTreeSet::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
             for event in &self.events {
@@ -180,9 +180,9 @@ impl Registry {
         };
 
         let entities = {
-            let mut entity_types = HashSet::new();
-            let mut entity_identity_length_distribution = HashMap::new();
-            let mut stability_breakdown = HashMap::new();
+            let mut entity_types = BTreeSet::new();
+            let mut entity_identity_length_distribution = BTreeMap::new();
+            let mut stability_breakdown = BTreeMap::new();
             let mut deprecated_count = 0;
             let mut total_with_note = 0;
             for entity in &self.entities {
@@ -216,7 +216,7 @@ impl Registry {
             AttributeGroupStats {
                 common: CommonSignalStats {
                     count: self.attribute_groups.len(),
-                    stability_breakdown: HashMap::new(),
+                    stability_breakdown: BTreeMap::new(),
                     deprecated_count: 0,
                     total_with_note: 0,
                 },
diff --git a/crates/weaver_resolved_schema/src/v2/stats.rs b/crates/weaver_resolved_schema/src/v2/stats.rs
index 78a876d..866e447 100644
--- a/crates/weaver_resolved_schema/src/v2/stats.rs
+++ b/crates/weaver_resolved_schema/src/v2/stats.rs
@@ -1,6 +1,6 @@
 //! Version 2 of semantic convention schema stats
 
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use serde::Serialize;
 use weaver_semconv::{
@@ -44,7 +44,7 @@ pub struct AttributeStats {
     /// Breakdown of attribute types.
     pub attribute_type_breakdown: BTreeMap<String, usize>,
     /// Breakdown of stability levels.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated attributes.
     pub deprecated_count: usize,
 }
@@ -54,7 +54,7 @@ pub struct CommonSignalStats {
     /// Number of instances in this type of group.
     pub count: usize,
     /// Stability breakdown.
-    pub stability_breakdown: HashMap<Stability, usize>,
+    pub stability_breakdown: BTreeMap<Stability, usize>,
     /// Number of deprecated signals.
     pub deprecated_count: usize,
     /// Total number of groups with a note.
@@ -74,11 +74,11 @@ pub struct MetricStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Metric names.
-    pub metric_names: HashSet<String>,
+    pub metric_names: BTreeSet<String>,
     /// Instrument breakdown.
-    pub instrument_breakdown: HashMap<InstrumentSpec, usize>,
+    pub instrument_breakdown: BTreeMap<InstrumentSpec, usize>,
     /// Unit breakdown.
-    pub unit_breakdown: HashMap<String, usize>,
+    pub unit_breakdown: BTreeMap<String, usize>,
 }
 
 /// Statistics about Spans.
@@ -87,7 +87,7 @@ pub struct SpanStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Span kind breakdown.
-    pub span_kind_breakdown: HashMap<SpanKindSpec, usize>,
+    pub span_kind_breakdown: BTreeMap<SpanKindSpec, usize>,
 }
 
 /// Statistics about events.
@@ -96,7 +96,7 @@ pub struct EventStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Event names.
-    pub event_names: HashSet<String>,
+    pub event_names: BTreeSet<String>,
 }
 
 /// Statistics about entities.
@@ -105,10 +105,10 @@ pub struct EntityStats {
     /// Common statistics for every signal.
     pub common: CommonSignalStats,
     /// Entity types.
-    pub entity_types: HashSet<String>,
+    pub entity_types: BTreeSet<String>,
     /// A map of the "length" of identity (number of attributes)
     /// to the number of entities with that length.
-    pub entity_identity_length_distribution: HashMap<usize, usize>,
+    pub entity_identity_length_distribution: BTreeMap<usize, usize>,
 }
 
 /// Statistics about V2 refinements.
diff --git a/crates/weaver_semconv/src/group.rs b/crates/weaver_semconv/src/group.rs
index 0fa62f6..b805b1a 100644
--- a/crates/weaver_semconv/src/group.rs
+++ b/crates/weaver_semconv/src/group.rs
@@ -632,7 +632,9 @@ fn validate_any_value(
 /// The different types of groups: `attribute_group`, `span`, `event`, `metric`, `entity`, `scope`.
 ///
 /// Note: The `resource` type is no longer used and is an alias for `entity`.
-#[derive(Serialize, Deserialize, Debug, Eq, PartialEq, Hash, Clone, JsonSchema)]
+#[derive(
+    Serialize, Deserialize, Debug, Eq, PartialEq, PartialOrd, Ord, Hash, Clone, JsonSchema,
+)]
 #[serde(rename_all = "snake_case")]
 pub enum GroupType {
     /// Attribute group (attribute_group type) defines a set of attributes that
@@ -683,7 +685,9 @@ impl Display for GroupType {
 }
 
 /// The span kind.
-#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash, JsonSchema)]
+#[derive(
+    Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, JsonSchema,
+)]
 #[cfg_attr(feature = "openapi", derive(utoipa::ToSchema))]
 #[serde(rename_all = "snake_case")]
 pub enum SpanKindSpec {
@@ -700,7 +704,9 @@ pub enum SpanKindSpec {
 }
 
 /// The type of the metric.
-#[derive(Serialize, Deserialize, Debug, Clone, Eq, PartialEq, Hash, JsonSchema)]
+#[derive(
+    Serialize, Deserialize, Debug, Clone, Eq, PartialEq, PartialOrd, Ord, Hash, JsonSchema,
+)]
 #[cfg_attr(feature = "openapi", derive(utoipa::ToSchema))]
 #[serde(rename_all = "snake_case")]
 pub enum InstrumentSpec {
diff --git a/crates/weaver_version/src/schema_changes.rs b/crates/weaver_version/src/schema_changes.rs
index 9b0c60f..f0af0cd 100644
--- a/crates/weaver_version/src/schema_changes.rs
+++ b/crates/weaver_version/src/schema_changes.rs
@@ -4,10 +4,12 @@
 
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// The type of schema item.
-#[derive(Debug, Serialize, Deserialize, Hash, Eq, PartialEq, Copy, Clone, JsonSchema)]
+#[derive(
+    Debug, Serialize, Deserialize, Hash, Eq, PartialEq, PartialOrd, Ord, Copy, Clone, JsonSchema,
+)]
 #[serde(rename_all = "snake_case")]
 pub enum SchemaItemType {
     /// Registry attributes
@@ -35,7 +37,7 @@ pub struct SchemaChanges {
     /// A map where the key is the type of schema item (e.g., "attributes", "metrics",
     /// "events, "spans", "resources"), and the value is a list of changes associated
     /// with that item type.
-    changes: HashMap<SchemaItemType, Vec<SchemaItemChange>>,
+    changes: BTreeMap<SchemaItemType, Vec<SchemaItemChange>>,
 }
 
 /// Represents the information of a semantic convention registry manifest.
@@ -101,7 +103,7 @@ impl SchemaChanges {
         let mut schema_changes = SchemaChanges {
             head: RegistryManifest::default(),
             baseline: RegistryManifest::default(),
-            changes: HashMap::new(),
+            changes: BTreeMap::new(),
         };
         let _ = schema_changes
             .changes
diff --git a/src/weaver.rs b/src/weaver.rs
index 8ac8402..18755a3 100644
--- a/src/weaver.rs
+++ b/src/weaver.rs
@@ -496,7 +496,7 @@ impl Diff {
 
 #[derive(serde::Serialize)]
 pub struct DiffV2Context<'a> {
-    pub changes: std::collections::HashMap<String, &'a Vec<weaver_version::v2::SchemaItemChange>>,
+    pub changes: std::collections::BTreeMap<String, &'a Vec<weaver_version::v2::SchemaItemChange>>,
     pub head: DiffManifest,
     pub baseline: DiffManifest,
 }
@@ -516,7 +516,7 @@ pub struct DiffV2 {
 impl DiffV2 {
     /// Returns the context we'll use to render diffs.
     pub fn as_template_context(&self) -> DiffV2Context<'_> {
-        let mut changes_map = std::collections::HashMap::new();
+        let mut changes_map = std::collections::BTreeMap::new();
         let _ = changes_map.insert(
             "registry_attributes".to_owned(),
             &self.changes.registry.attribute_changes,
-- 
2.43.0


From 8e74d8ce15df7ea5e4822feb01b6fceaaed56f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 04/34] fix: report unreadable template files and directories
 instead of skipping them

---
 crates/weaver_forge/src/config.rs      | 19 ++++----
 crates/weaver_forge/src/file_loader.rs | 61 +++++++++++++++++++++-----
 crates/weaver_forge/src/lib.rs         |  6 +--
 3 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/crates/weaver_forge/src/config.rs b/crates/weaver_forge/src/config.rs
index 7d6db58..2781bce 100644
--- a/crates/weaver_forge/src/config.rs
+++ b/crates/weaver_forge/src/config.rs
@@ -504,7 +504,7 @@ impl WeaverConfig {
     ///    directory.
     /// 3. The `$HOME/.weaver/weaver.yaml` file.
     pub fn try_from_path<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
-        let configs = Self::collect_from_path(path);
+        let configs = Self::collect_from_path(path)?;
         Self::resolve_from(&configs)
     }
 
@@ -568,14 +568,16 @@ impl WeaverConfig {
         Ok(config)
     }
 
-    fn collect_from_path<P: AsRef<Path>>(path: P) -> Vec<FileContent> {
+    fn collect_from_path<P: AsRef<Path>>(path: P) -> Result<Vec<FileContent>, Error> {
         let mut file_contents = Vec::new();
 
         // Detect all the weaver.yaml files in the path and parent folder.
         let mut current_path = path.as_ref();
         loop {
-            if let Ok(file_content) = FileContent::try_from_path(current_path.join("weaver.yaml")) {
-                file_contents.push(file_content);
+            // A configuration file that exists must be readable.
+            let config_file = current_path.join(WEAVER_YAML);
+            if config_file.is_file() {
+                file_contents.push(FileContent::try_from_path(config_file)?);
             }
 
             if let Some(parent) = current_path.parent() {
@@ -587,15 +589,14 @@ impl WeaverConfig {
 
         // Add the configuration from the home directory.
         if let Some(home_dir) = home_dir() {
-            if let Ok(file_content) =
-                FileContent::try_from_path(home_dir.join(".weaver/weaver.yaml"))
-            {
-                file_contents.push(file_content);
+            let config_file = home_dir.join(".weaver/weaver.yaml");
+            if config_file.is_file() {
+                file_contents.push(FileContent::try_from_path(config_file)?);
             }
         }
 
         file_contents.reverse();
-        file_contents
+        Ok(file_contents)
     }
 
     /// Return a template matcher for the target configuration.
diff --git a/crates/weaver_forge/src/file_loader.rs b/crates/weaver_forge/src/file_loader.rs
index 2815241..a6ab4bb 100644
--- a/crates/weaver_forge/src/file_loader.rs
+++ b/crates/weaver_forge/src/file_loader.rs
@@ -20,6 +20,12 @@ pub trait FileLoader {
     /// Returns a list of all files in the loader's root directory.
     fn all_files(&self) -> Vec<PathBuf>;
 
+    /// Returns a list of all files in the loader's root directory, or an error if
+    /// the list can't be established completely.
+    fn try_all_files(&self) -> Result<Vec<PathBuf>, Error> {
+        Ok(self.all_files())
+    }
+
     /// Returns the content of a file from a given name.
     fn load_file(&self, file: &str) -> Result<Option<FileContent>, Error>;
 }
@@ -135,6 +141,15 @@ impl FileLoader for EmbeddedFileLoader {
         files
     }
 
+    /// Returns a list of all files in the loader's root directory, or an error if
+    /// the list can't be established completely.
+    fn try_all_files(&self) -> Result<Vec<PathBuf>, Error> {
+        match &self.fs_loader {
+            Some(fs_loader) => fs_loader.try_all_files(),
+            None => Ok(self.all_files()),
+        }
+    }
+
     /// Returns the content of a file from a given name.
     fn load_file(&self, file: &str) -> Result<Option<FileContent>, Error> {
         if let Some(fs_loader) = &self.fs_loader {
@@ -184,21 +199,43 @@ impl FileLoader for FileSystemFileLoader {
 
     /// Returns a list of all files in the loader's root directory.
     fn all_files(&self) -> Vec<PathBuf> {
+        self.try_all_files().unwrap_or_default()
+    }
+
+    /// Returns a list of all files in the loader's root directory, or an error if
+    /// the list can't be established completely.
+    fn try_all_files(&self) -> Result<Vec<PathBuf>, Error> {
         // List all files in the target directory and its subdirectories
-        let files: Vec<PathBuf> = WalkDir::new(self.dir.clone())
-            .into_iter()
-            .filter_map(|e| {
+        let mut files = vec![];
+        for entry in WalkDir::new(self.dir.clone()) {
+            let entry = match entry {
+                Ok(entry) => entry,
                 // Skip directories that the owner of the running process does not
                 // have permission to access
-                e.ok()
-            })
-            .filter(|dir_entry| dir_entry.path().is_file())
-            .map(|dir_entry| dir_entry.into_path()
-                .strip_prefix(&self.dir)
-                .expect("Failed to strip prefix. Should never happen as `self.dir` is initial root.").to_owned())
-            .collect();
-
-        files
+                Err(e)
+                    if e.io_error()
+                        .is_some_and(|e| e.kind() == io::ErrorKind::PermissionDenied) =>
+                {
+                    continue
+                }
+                Err(e) => {
+                    return Err(Error::FileLoaderError {
+                        file: e.path().unwrap_or(&self.dir).to_path_buf(),
+                        error: e.to_string(),
+                    })
+                }
+            };
+            if entry.path().is_file() {
+                files.push(
+                    entry
+                        .into_path()
+                        .strip_prefix(&self.dir)
+                        .expect("Failed to strip prefix. Should never happen as `self.dir` is initial root.")
+                        .to_owned(),
+                );
+            }
+        }
+        Ok(files)
     }
 
     /// Returns a function that loads a file from a given name
diff --git a/crates/weaver_forge/src/lib.rs b/crates/weaver_forge/src/lib.rs
index 45911b8..a05d666 100644
--- a/crates/weaver_forge/src/lib.rs
+++ b/crates/weaver_forge/src/lib.rs
@@ -249,7 +249,7 @@ impl TemplateEngine {
         // Validate template files exist
         let mut errors = Vec::new();
         if let Some(templates) = config.templates.as_ref() {
-            let all_files = loader.all_files();
+            let all_files = loader.try_all_files()?;
             for template in templates {
                 // Check if any files match the template glob pattern
                 let matcher = template.template.compile_matcher();
@@ -331,7 +331,7 @@ impl TemplateEngine {
     ///
     /// This is useful when the output needs to be captured (e.g., for HTTP responses).
     pub(crate) fn generate_to_string<T: Serialize>(&self, context: &T) -> Result<String, Error> {
-        let files = self.file_loader.all_files();
+        let files = self.file_loader.try_all_files()?;
         let tmpl_matcher = self.target_config.template_matcher()?;
 
         let context = serde_json::to_value(context).map_err(|e| ContextSerializationFailed {
@@ -421,7 +421,7 @@ impl TemplateEngine {
         output_dir: &Path,
         output_directive: &OutputDirective,
     ) -> Result<(), Error> {
-        let files = self.file_loader.all_files();
+        let files = self.file_loader.try_all_files()?;
         let tmpl_matcher = self.target_config.template_matcher()?;
 
         // Serialize the context in JSON
-- 
2.43.0


From 2a69ff18d95b0df7327bc001a65c87c845a01273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:34 +0000
Subject: [PATCH 05/34] fix: report unreadable policy and markdown directories
 instead of skipping them

---
 crates/weaver_checker/src/lib.rs | 13 +++++++++++--
 src/registry/update_markdown.rs  | 17 ++++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/weaver_checker/src/lib.rs b/crates/weaver_checker/src/lib.rs
index bc20011..40d1b34 100644
--- a/crates/weaver_checker/src/lib.rs
+++ b/crates/weaver_checker/src/lib.rs
@@ -464,11 +464,20 @@ impl Engine {
         };
 
         // Visit recursively all the files in the policy directory
-        for entry in walkdir::WalkDir::new(policy_dir)
+        for entry in walkdir::WalkDir::new(&policy_dir)
             .into_iter()
             .filter_entry(|e| !is_hidden(e))
-            .flatten()
         {
+            let entry = match entry {
+                Ok(entry) => entry,
+                Err(err) => {
+                    errors.push(Error::AccessDenied {
+                        path: policy_dir.as_ref().to_string_lossy().to_string(),
+                        error: err.to_string(),
+                    });
+                    continue;
+                }
+            };
             if is_policy_file(&entry) {
                 if let Err(err) = self.add_policy_from_file(entry.path()) {
                     errors.push(err);
diff --git a/src/registry/update_markdown.rs b/src/registry/update_markdown.rs
index 12c7c0e..33da6b6 100644
--- a/src/registry/update_markdown.rs
+++ b/src/registry/update_markdown.rs
@@ -178,13 +178,16 @@ pub(crate) fn command(
     log_success("Registry resolved successfully");
     let operation = if dry_run { "Validating" } else { "Updating" };
     let mut has_error = false;
-    for entry in walkdir::WalkDir::new(&markdown_dir)
-        .into_iter()
-        .filter_map(|e| match e {
-            Ok(v) if is_markdown(&v) => Some(v),
-            _ => None,
-        })
-    {
+    for entry in walkdir::WalkDir::new(&markdown_dir) {
+        let entry = match entry {
+            Ok(entry) if is_markdown(&entry) => entry,
+            Ok(_) => continue,
+            Err(error) => {
+                has_error = true;
+                log_error(error);
+                continue;
+            }
+        };
         log_info(format!("{}: ${}", operation, entry.path().display()));
         if let Err(error) = generator.update_markdown(
             &entry.path().display().to_string(),
-- 
2.43.0


From 6c7bed8b3688ec496cd96b855e8f5bb0de55f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:33 +0000
Subject: [PATCH 06/34] fix: report several broken policy files instead of
 panicking

---
 src/weaver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/weaver.rs b/src/weaver.rs
index 18755a3..c0df3c5 100644
--- a/src/weaver.rs
+++ b/src/weaver.rs
@@ -570,7 +570,11 @@ pub enum Error {
 // TODO - transparently convert to diagnostic messages.
 impl From<Error> for DiagnosticMessages {
     fn from(value: Error) -> Self {
-        DiagnosticMessages::new(vec![DiagnosticMessage::new(value)])
+        match value {
+            // A compound checker error is not serializable, its parts are.
+            Error::Checker(e @ weaver_checker::Error::CompoundError(_)) => e.into(),
+            value => DiagnosticMessages::new(vec![DiagnosticMessage::new(value)]),
+        }
     }
 }
 
-- 
2.43.0


From b81e84c2f055f7caff4938c147eb26633c7adf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:28 +0000
Subject: [PATCH 07/34] fix: show diagnostics other than policy violations in
 the gh_workflow_command format

---
 defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2 b/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
index 81d6f1a..43f735e 100644
--- a/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
+++ b/defaults/diagnostic_templates/gh_workflow_command/errors.txt.j2
@@ -11,7 +11,7 @@
 
 {%- if other_diagnostics %}
 ::group::Diagnostic report
-{% for item in policy_violations %}
+{% for item in other_diagnostics %}
 {{ item.diagnostic.ansi_message }}
 {% endfor %}
 ::endgroup::
-- 
2.43.0


From c787f3e1d669a2cb074c13a21a67c31cd5842c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:28 +0000
Subject: [PATCH 08/34] fix: load policy files in a stable order

---
 crates/weaver_checker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/weaver_checker/src/lib.rs b/crates/weaver_checker/src/lib.rs
index 40d1b34..8a8a6f1 100644
--- a/crates/weaver_checker/src/lib.rs
+++ b/crates/weaver_checker/src/lib.rs
@@ -304,6 +304,7 @@ impl Engine {
 
         let mut errors = Vec::new();
         for entry in walkdir::WalkDir::new(&base)
+            .sort_by_file_name()
             .into_iter()
             .filter_entry(|e| !is_hidden(e))
         {
@@ -465,6 +466,7 @@ impl Engine {
 
         // Visit recursively all the files in the policy directory
         for entry in walkdir::WalkDir::new(&policy_dir)
+            .sort_by_file_name()
             .into_iter()
             .filter_entry(|e| !is_hidden(e))
         {
-- 
2.43.0


From 7f8388eb5aa8a1659606008b07ff9b2393c94f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:43 +0000
Subject: [PATCH 09/34] fix: report a failed last write of package and
 completion files

---
 src/main.rs             |  7 ++++++-
 src/registry/package.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bb4d567..36e126d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -280,7 +280,12 @@ fn generate_completion(shell: &Shell, output_file: &Option<PathBuf>) -> Result<(
     if let Some(file_path) = output_file {
         let file = std::fs::File::create(file_path)
             .map_err(|e| format!("Failed to create file '{}': {}", file_path.display(), e))?;
-        generate(*shell, &mut app, bin_name, &mut io::BufWriter::new(file));
+        let mut writer = io::BufWriter::new(file);
+        generate(*shell, &mut app, bin_name, &mut writer);
+        // Dropping the writer would ignore the errors of this last write.
+        writer
+            .flush()
+            .map_err(|e| format!("Failed to write file '{}': {}", file_path.display(), e))?;
     } else {
         // Default to writing to STDOUT
         generate(*shell, &mut app, bin_name, &mut io::stdout());
diff --git a/src/registry/package.rs b/src/registry/package.rs
index f5df930..618cfad 100644
--- a/src/registry/package.rs
+++ b/src/registry/package.rs
@@ -3,7 +3,7 @@
 //! Package a semantic convention registry.
 
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::{Path, PathBuf};
 
 use clap::Args;
@@ -57,7 +57,13 @@ fn write_yaml(path: &Path, data: &impl serde::Serialize) -> Result<(), Diagnosti
         path: path.to_path_buf(),
         error: e.to_string(),
     })?;
-    serde_yaml::to_writer(BufWriter::new(file), data).map_err(|e| Error::OutputWrite {
+    let mut writer = BufWriter::new(file);
+    serde_yaml::to_writer(&mut writer, data).map_err(|e| Error::OutputWrite {
+        path: path.to_path_buf(),
+        error: e.to_string(),
+    })?;
+    // Dropping the writer would ignore the errors of this last write.
+    writer.flush().map_err(|e| Error::OutputWrite {
         path: path.to_path_buf(),
         error: e.to_string(),
     })?;
-- 
2.43.0


From 476f61a486cea895b08d69313c67583228502260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:31 +0000
Subject: [PATCH 10/34] fix: never truncate a markdown file while updating it

---
 crates/weaver_semconv_gen/src/lib.rs | 29 ++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a7cd1d1..a46e6df 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -6,7 +6,8 @@
 
 use miette::Diagnostic;
 use serde::Serialize;
-use std::{fmt, fs};
+use std::ffi::OsString;
+use std::{fmt, fs, io};
 use weaver_common::diagnostic::{DiagnosticMessage, DiagnosticMessages};
 use weaver_common::error::{format_errors, WeaverError};
 use weaver_diff::diff_output;
@@ -100,6 +101,30 @@ pub enum Error {
     CompoundError(Vec<Error>),
 }
 
+/// Replaces the contents of an existing file in one step, so that neither an error nor
+/// a crash leaves a truncated file behind.
+fn replace_file(file: &str, contents: &str) -> io::Result<()> {
+    // Follow links: the file is replaced, not a link to it.
+    let path = fs::canonicalize(file)?;
+    // As with an update in place, the file must be writable.
+    let permissions = fs::OpenOptions::new()
+        .write(true)
+        .open(&path)?
+        .metadata()?
+        .permissions();
+    let mut tmp_name = OsString::from(".");
+    tmp_name.push(path.file_name().unwrap_or_default());
+    tmp_name.push(".tmp");
+    let tmp_path = path.with_file_name(tmp_name);
+    let result = fs::write(&tmp_path, contents)
+        .and_then(|()| fs::set_permissions(&tmp_path, permissions))
+        .and_then(|()| fs::rename(&tmp_path, &path));
+    if result.is_err() {
+        _ = fs::remove_file(&tmp_path);
+    }
+    result
+}
+
 enum SnippetType {
     Semconv,
     Weaver,
@@ -125,7 +150,7 @@ pub trait MarkdownSnippetGenerator {
         let updated_markdown =
             self.update_markdown_contents(&original_markdown, attribute_registry_base_url)?;
         if !dry_run {
-            fs::write(file, updated_markdown).map_err(|e| Error::StdIoError(e.to_string()))?;
+            replace_file(file, &updated_markdown).map_err(|e| Error::StdIoError(e.to_string()))?;
             Ok(())
         } else if original_markdown != updated_markdown {
             Err(Error::MarkdownIsNotEqual {
-- 
2.43.0


From e5171004c4f8d345555b2288aca27f74d0bf8cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:23 +0000
Subject: [PATCH 11/34] fix: refuse a markdown file with an unterminated
 generated section

---
 crates/weaver_semconv_gen/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a46e6df..d60d392 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -84,6 +84,10 @@ pub enum Error {
         error: String,
     },
 
+    /// Thrown when a generated section has no end marker.
+    #[error("A generated section is not terminated")]
+    UnterminatedSnippet,
+
     /// Errors from using weaver_semconv.
     #[error(transparent)]
     SemconvError(#[from] weaver_semconv::Error),
@@ -212,6 +216,10 @@ pub trait MarkdownSnippetGenerator {
                 }
             }
         }
+        // Everything after an unterminated section would be dropped.
+        if snippet_context.is_some() {
+            return Err(Error::UnterminatedSnippet);
+        }
         Ok(result)
     }
 
-- 
2.43.0


From 8ea8351c702109193f7b689b921f70c2b9e14a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 12/34] fix: live-check of OTLP input used the resource of an
 earlier request

The report loop overwrote the resource the OTLP ingester attaches to each
signal with the most recently seen one, so a signal sent without a resource
was checked against the resource of whatever request came before it.
---
 src/registry/live_check.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 844a25d..90615de 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -388,17 +388,21 @@ pub(crate) fn command(
     };
 
     let mut samples = Vec::new();
+    let is_otlp_input = matches!(&input_source, InputSource::Otlp);
     let mut current_resource: Option<std::rc::Rc<SampleResource>> = None;
     for mut sample in ingester {
         // Track the most-recently-seen resource and attach it to signals that carry one.
-        // This mirrors what the OTLP ingester does when building metrics/logs/spans from
-        // OTLP protocol buffers, and allows JSON file inputs to associate a resource.
-        match &mut sample {
-            Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
-            Sample::Metric(m) => m.resource = current_resource.clone(),
-            Sample::Log(l) => l.resource = current_resource.clone(),
-            Sample::Span(s) => s.resource = current_resource.clone(),
-            _ => {}
+        // This allows JSON file inputs to associate a resource. The OTLP ingester already
+        // attaches to each signal the resource it was sent with (or none): the
+        // most-recently-seen resource may belong to another request.
+        if !is_otlp_input {
+            match &mut sample {
+                Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
+                Sample::Metric(m) => m.resource = current_resource.clone(),
+                Sample::Log(l) => l.resource = current_resource.clone(),
+                Sample::Span(s) => s.resource = current_resource.clone(),
+                _ => {}
+            }
         }
         sample.run_live_check(&mut live_checker, &mut stats, None, &sample.clone())?;
         //TODO: Check for violations and set exit_code here for no-stats mode
-- 
2.43.0


From 1d02175756d48a764374bc9d4b3d6914787f00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:20 +0000
Subject: [PATCH 13/34] fix: expect the report before the admin port opens

---
 src/registry/live_check.rs         |  5 +----
 src/registry/otlp/mod.rs           | 14 ++++++++++++++
 src/registry/otlp/otlp_ingester.rs | 11 +++++++----
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 90615de..8d19eff 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -331,10 +331,7 @@ pub(crate) fn command(
                 admin_port: config.otlp.admin_port,
                 inactivity_timeout: config.otlp.inactivity_timeout,
             };
-            let (iter, coordinator) = otlp.ingest_otlp()?;
-            if is_http_output {
-                coordinator.set_expect_report(true);
-            }
+            let (iter, coordinator) = otlp.ingest_otlp(is_http_output)?;
             shutdown_coordinator = Some(coordinator);
             iter
         }
diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 7962910..8a72d15 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -320,6 +320,19 @@ pub fn listen_otlp_requests(
     grpc_port: u16,
     admin_port: u16,
     inactivity_timeout: Duration,
+) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
+    listen_otlp_requests_with_report(grpc_addr, grpc_port, admin_port, inactivity_timeout, false)
+}
+
+/// Same as [`listen_otlp_requests`]. `expect_report` is `true` when `/stop` must
+/// return the report (`--output http`): it is set before the admin port opens, so
+/// no `/stop` request is answered without the report.
+pub fn listen_otlp_requests_with_report(
+    grpc_addr: &str,
+    grpc_port: u16,
+    admin_port: u16,
+    inactivity_timeout: Duration,
+    expect_report: bool,
 ) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
     let addr: SocketAddr =
         format!("{grpc_addr}:{grpc_port}")
@@ -342,6 +355,7 @@ pub fn listen_otlp_requests(
     // Create a watch channel for the last activity timestamp
     let (activity_tx, activity_rx) = watch::channel(Instant::now());
     let (coordinator, admin_shutdown_rx) = ShutdownCoordinator::new();
+    coordinator.set_expect_report(expect_report);
     let logs_service = LogsServiceImpl {
         tx: tx.clone(),
         activity_tx: activity_tx.clone(),
diff --git a/src/registry/otlp/otlp_ingester.rs b/src/registry/otlp/otlp_ingester.rs
index 2bfe1b6..54baaf3 100644
--- a/src/registry/otlp/otlp_ingester.rs
+++ b/src/registry/otlp/otlp_ingester.rs
@@ -18,7 +18,7 @@ use super::{
         otlp_profile_to_sample, sample_attribute_from_key_value, span_kind_from_otlp_kind,
         status_from_otlp_status,
     },
-    listen_otlp_requests, OtlpRequest, ShutdownCoordinator,
+    listen_otlp_requests_with_report, OtlpRequest, ShutdownCoordinator,
 };
 
 /// An ingester for OTLP data
@@ -278,15 +278,18 @@ impl OtlpIngester {
     ///
     /// The `ShutdownCoordinator` can be used to send a formatted report back through
     /// the `/stop` HTTP endpoint when `--output http` is used, and to wait for the
-    /// admin server to finish delivering that response before exiting.
+    /// admin server to finish delivering that response before exiting. `expect_report`
+    /// must be `true` in that case.
     pub fn ingest_otlp(
         &self,
+        expect_report: bool,
     ) -> Result<(Box<dyn Iterator<Item = Sample>>, ShutdownCoordinator), Error> {
-        let (otlp_requests, coordinator) = listen_otlp_requests(
+        let (otlp_requests, coordinator) = listen_otlp_requests_with_report(
             self.otlp_grpc_address.as_str(),
             self.otlp_grpc_port,
             self.admin_port,
             Duration::from_secs(self.inactivity_timeout),
+            expect_report,
         )
         .map_err(|e| Error::IngestError {
             error: format!("Failed to listen to OTLP requests: {e}"),
@@ -320,7 +323,7 @@ impl OtlpIngester {
 
 impl Ingester for OtlpIngester {
     fn ingest(&self) -> Result<Box<dyn Iterator<Item = Sample>>, Error> {
-        let (iterator, _coordinator) = self.ingest_otlp()?;
+        let (iterator, _coordinator) = self.ingest_otlp(false)?;
         Ok(iterator)
     }
 }
-- 
2.43.0


From f7cd0da8856d10990362ad5e454d20132c40f1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:02 +0000
Subject: [PATCH 14/34] fix: give the report to every waiting /stop client, or
 print it when they are all gone

---
 src/registry/live_check.rs | 23 +++++++++++------
 src/registry/otlp/mod.rs   | 53 +++++++++++++++++++++++++++++---------
 2 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 8d19eff..bc9c95b 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -429,21 +429,25 @@ pub(crate) fn command(
         if admin_waiting {
             // Format report and send through admin channel
             let content_type = output.content_type().to_owned();
+            let report = LiveCheckReport {
+                statistics: stats,
+                samples,
+            };
             let body = if output.is_line_oriented() {
                 // For line-oriented formats (jsonl), build the body line by line
                 let mut lines = Vec::new();
-                for sample in &samples {
+                for sample in &report.samples {
                     lines.push(
                         output
                             .generate_to_string(sample)
                             .map_err(DiagnosticMessages::from)?,
                     );
                 }
-                match &stats {
+                match &report.statistics {
                     LiveCheckStatistics::Cumulative(_) => {
                         lines.push(
                             output
-                                .generate_to_string(&stats)
+                                .generate_to_string(&report.statistics)
                                 .map_err(DiagnosticMessages::from)?,
                         );
                     }
@@ -451,10 +455,6 @@ pub(crate) fn command(
                 }
                 lines.join("\n")
             } else {
-                let report = LiveCheckReport {
-                    statistics: stats,
-                    samples,
-                };
                 output
                     .generate_to_string(&report)
                     .map_err(DiagnosticMessages::from)?
@@ -462,8 +462,15 @@ pub(crate) fn command(
             if let Some(coordinator) = shutdown_coordinator.take() {
                 coordinator.deliver_report(content_type, body);
                 // Don't let the process exit until the admin server has
-                // actually finished writing the /stop response.
+                // actually finished writing the /stop response. The request may
+                // be gone by now, so it is not left to it to start the shutdown.
+                coordinator.trigger_admin_shutdown();
                 coordinator.wait_for_admin_shutdown();
+                if !coordinator.is_report_delivered() {
+                    // The HTTP client disconnected, fall back to stdout
+                    generate_report(&mut output, report.samples, report.statistics)
+                        .map_err(DiagnosticMessages::from)?;
+                }
             }
         } else {
             // No HTTP client waiting (SIGINT/inactivity stop), fall back to stdout
diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 8a72d15..b980fee 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -59,6 +59,15 @@ const LOCK_POISONED_MSG: &str = "one of the threads responsible for reporting st
      shutdown has crashed; killing the process because we're not sure whether our memory is \
      still safe to use";
 
+/// State shared by the `/stop` requests and the report.
+#[derive(Default)]
+struct ReportSlot {
+    /// One sender per `/stop` request that waits for the report.
+    waiting: Vec<oneshot::Sender<(String, String)>>,
+    /// Content type and body of the report, once delivered.
+    delivered: Option<(String, String)>,
+}
+
 /// Coordinates delivering the live-check report to a waiting `/stop`
 /// request and confirming the admin server has finished writing it before
 /// the process exits. All locking lives here; call sites only use these
@@ -68,9 +77,9 @@ pub struct ShutdownCoordinator {
     /// `true` when `--output http` is set: `/stop` waits for and returns
     /// the report instead of responding immediately.
     expect_report: Arc<AtomicBool>,
-    /// `None` when no `/stop` request is currently waiting; `.take()` in
-    /// `deliver_report` ensures a report is only ever delivered once.
-    report_slot: Arc<Mutex<Option<oneshot::Sender<(String, String)>>>>,
+    /// The `/stop` requests waiting for the report, and the report once it
+    /// has been delivered to one of them.
+    report_slot: Arc<Mutex<ReportSlot>>,
     /// Tells axum's `with_graceful_shutdown` to start draining.
     admin_shutdown_trigger_slot: Arc<Mutex<Option<oneshot::Sender<()>>>>,
     /// Both halves of the admin-done signal, produced together in `new`
@@ -88,7 +97,7 @@ impl ShutdownCoordinator {
         let (admin_done_tx, admin_done_rx) = oneshot::channel();
         let coordinator = Self {
             expect_report: Arc::new(AtomicBool::new(false)),
-            report_slot: Arc::new(Mutex::new(None)),
+            report_slot: Arc::new(Mutex::new(ReportSlot::default())),
             admin_shutdown_trigger_slot: Arc::new(Mutex::new(Some(shutdown_tx))),
             admin_done: Arc::new(Mutex::new((Some(admin_done_tx), Some(admin_done_rx)))),
         };
@@ -105,28 +114,48 @@ impl ShutdownCoordinator {
         self.expect_report.load(Ordering::Acquire)
     }
 
-    /// Registers a slot for the report and returns the receiver to await.
+    /// Registers a request for the report and returns the receiver to await.
+    /// A request that arrives after the delivery gets the same report.
     fn begin_report_wait(&self) -> oneshot::Receiver<(String, String)> {
         let (tx, rx) = oneshot::channel();
-        *self.report_slot.lock().expect(LOCK_POISONED_MSG) = Some(tx);
+        let mut slot = self.report_slot.lock().expect(LOCK_POISONED_MSG);
+        match &slot.delivered {
+            Some(report) => {
+                let _ = tx.send(report.clone());
+            }
+            None => slot.waiting.push(tx),
+        }
         rx
     }
 
     /// True while an HTTP client is registered and waiting for a report.
+    /// Clients that disconnected in the meantime don't count.
     pub fn is_report_pending(&self) -> bool {
-        self.report_slot.lock().expect(LOCK_POISONED_MSG).is_some()
+        let slot = self.report_slot.lock().expect(LOCK_POISONED_MSG);
+        slot.waiting.iter().any(|sender| !sender.is_closed())
     }
 
-    /// Hands the report to a waiting `/stop` request, if any.
+    /// Hands the report to every waiting `/stop` request, if any.
     pub fn deliver_report(&self, content_type: String, body: String) {
-        let sender = self.report_slot.lock().expect(LOCK_POISONED_MSG).take();
-        if let Some(sender) = sender {
-            let _ = sender.send((content_type, body));
+        let mut slot = self.report_slot.lock().expect(LOCK_POISONED_MSG);
+        let report = (content_type, body);
+        let mut delivered = false;
+        for sender in slot.waiting.drain(..) {
+            delivered |= sender.send(report.clone()).is_ok();
         }
+        if delivered {
+            slot.delivered = Some(report);
+        }
+    }
+
+    /// True once at least one `/stop` request has been handed the report.
+    pub fn is_report_delivered(&self) -> bool {
+        let slot = self.report_slot.lock().expect(LOCK_POISONED_MSG);
+        slot.delivered.is_some()
     }
 
     /// Starts the admin server's graceful shutdown.
-    fn trigger_admin_shutdown(&self) {
+    pub fn trigger_admin_shutdown(&self) {
         let tx = self
             .admin_shutdown_trigger_slot
             .lock()
-- 
2.43.0


From 28895ba6e1868fd0f396dbfb03081318e85fd09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:20 +0000
Subject: [PATCH 15/34] fix: fail when the admin port cannot be opened instead
 of ending successfully

---
 src/registry/otlp/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index b980fee..989dd91 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -379,6 +379,13 @@ pub fn listen_otlp_requests_with_report(
             error: e.to_string(),
         })?;
 
+    let admin_error = |e: std::io::Error| Error::HttpAdminError {
+        error: format!("Failed to bind HTTP admin port {admin_port}: {e}"),
+    };
+    let admin_listener = std::net::TcpListener::bind(SocketAddr::from(([0, 0, 0, 0], admin_port)))
+        .map_err(admin_error)?;
+    admin_listener.set_nonblocking(true).map_err(admin_error)?;
+
     let (tx, rx) = mpsc::channel(100);
     let stop_tx = tx.clone();
     // Create a watch channel for the last activity timestamp
@@ -420,7 +427,7 @@ pub fn listen_otlp_requests_with_report(
                 spawn_stop_signal_handlers(stop_tx.clone(), &mut tasks);
                 spawn_http_admin_handler(
                     stop_tx.clone(),
-                    admin_port,
+                    admin_listener,
                     coordinator_clone,
                     admin_shutdown_rx,
                     &mut tasks,
@@ -576,16 +583,12 @@ async fn stop_handler(State(state): State<AdminState>) -> impl IntoResponse {
 /// ignore as we don't need to abort these tasks.
 async fn spawn_http_admin_handler(
     stop_tx: mpsc::Sender<OtlpRequest>,
-    port: u16,
+    listener: std::net::TcpListener,
     coordinator: ShutdownCoordinator,
     admin_shutdown_rx: oneshot::Receiver<()>,
     tasks: &mut JoinSet<()>,
 ) {
-    let addr: SocketAddr = format!("0.0.0.0:{port}")
-        .parse()
-        .expect("Failed to parse HTTP admin port");
-
-    match TcpListener::bind(addr).await {
+    match TcpListener::from_std(listener) {
         Ok(listener) => {
             let state = AdminState {
                 stop_tx,
@@ -636,7 +639,7 @@ async fn spawn_http_admin_handler(
         Err(e) => {
             stop_tx
                 .send(OtlpRequest::Error(Error::HttpAdminError {
-                    error: format!("Failed to bind HTTP admin port {port}: {e}"),
+                    error: format!("Failed to listen on the HTTP admin port: {e}"),
                 }))
                 .await
                 .expect("Failed to send an OtlpRequest::Error");
-- 
2.43.0


From 5a8fe61e7d617ec0e8e5a2d0df252d0c677e6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:24 +0000
Subject: [PATCH 16/34] fix: don't truncate the /stop answer of a client that
 asked to close the connection

---
 src/registry/otlp/mod.rs | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 989dd91..6aa8deb 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -40,18 +40,21 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, oneshot, watch};
-use tokio::task::JoinSet;
+use tokio::task::{yield_now, JoinSet};
 use tokio::time::sleep;
 use tonic::codegen::tokio_stream::wrappers::TcpListenerStream;
 use tonic::transport::Server;
 use tonic::{Request, Response, Status};
 use weaver_common::diagnostic::{DiagnosticMessage, DiagnosticMessages};
 
-/// How long `/stop` waits for the report, and how long the admin server's
-/// graceful shutdown gets to finish delivering it (see
-/// [`ShutdownCoordinator::wait_for_admin_shutdown`]).
+/// How long `/stop` waits for the report.
 const ADMIN_REQUEST_TIMEOUT: Duration = Duration::from_secs(60);
 
+/// How long the admin server's graceful shutdown gets, from the `/stop` request, to
+/// obtain the report (at most [`ADMIN_REQUEST_TIMEOUT`]) and to finish delivering it
+/// (see [`ShutdownCoordinator::wait_for_admin_shutdown`]).
+const ADMIN_DRAIN_TIMEOUT: Duration = Duration::from_secs(120);
+
 /// A poisoned lock means one of the threads responsible for reporting
 /// status on shutdown has crashed. We kill the process here too, because
 /// we're not sure whether our memory is still safe to use.
@@ -80,6 +83,8 @@ pub struct ShutdownCoordinator {
     /// The `/stop` requests waiting for the report, and the report once it
     /// has been delivered to one of them.
     report_slot: Arc<Mutex<ReportSlot>>,
+    /// `true` once the admin server has started draining.
+    draining: Arc<AtomicBool>,
     /// Tells axum's `with_graceful_shutdown` to start draining.
     admin_shutdown_trigger_slot: Arc<Mutex<Option<oneshot::Sender<()>>>>,
     /// Both halves of the admin-done signal, produced together in `new`
@@ -98,6 +103,7 @@ impl ShutdownCoordinator {
         let coordinator = Self {
             expect_report: Arc::new(AtomicBool::new(false)),
             report_slot: Arc::new(Mutex::new(ReportSlot::default())),
+            draining: Arc::new(AtomicBool::new(false)),
             admin_shutdown_trigger_slot: Arc::new(Mutex::new(Some(shutdown_tx))),
             admin_done: Arc::new(Mutex::new((Some(admin_done_tx), Some(admin_done_rx)))),
         };
@@ -166,6 +172,18 @@ impl ShutdownCoordinator {
         }
     }
 
+    /// Starts the admin server's graceful shutdown on behalf of a request, and waits
+    /// until the connection of that request knows about it. The response must only be
+    /// produced afterwards: hyper drops the unsent part of a response when it learns
+    /// about the shutdown in the middle of it (for a `Connection: close` request).
+    async fn start_draining(&self) {
+        self.trigger_admin_shutdown();
+        while !self.draining.load(Ordering::Acquire) {
+            yield_now().await;
+        }
+        yield_now().await;
+    }
+
     /// Called once the admin server's graceful shutdown has finished.
     fn signal_admin_shutdown_complete(&self) {
         let tx = self.admin_done.lock().expect(LOCK_POISONED_MSG).0.take();
@@ -539,7 +557,9 @@ async fn stop_handler(State(state): State<AdminState>) -> impl IntoResponse {
             .send(OtlpRequest::Stop(StopSignal::AdminStop))
             .await;
 
-        let response = match tokio::time::timeout(ADMIN_REQUEST_TIMEOUT, rx).await {
+        state.coordinator.start_draining().await;
+
+        match tokio::time::timeout(ADMIN_REQUEST_TIMEOUT, rx).await {
             Ok(Ok((content_type, body))) => {
                 (StatusCode::OK, [(header::CONTENT_TYPE, content_type)], body).into_response()
             }
@@ -559,18 +579,14 @@ async fn stop_handler(State(state): State<AdminState>) -> impl IntoResponse {
                 )
                     .into_response()
             }
-        };
-
-        state.coordinator.trigger_admin_shutdown();
-
-        response
+        }
     } else {
         let _ = state
             .stop_tx
             .send(OtlpRequest::Stop(StopSignal::AdminStop))
             .await;
 
-        state.coordinator.trigger_admin_shutdown();
+        state.coordinator.start_draining().await;
 
         StatusCode::OK.into_response()
     }
@@ -601,20 +617,22 @@ async fn spawn_http_admin_handler(
                 .with_state(state);
 
             let _ = tasks.spawn(async move {
-                // ADMIN_REQUEST_TIMEOUT bounds only the graceful-shutdown drain
+                // ADMIN_DRAIN_TIMEOUT bounds only the graceful-shutdown drain
                 // (after the stop signal), not the server's whole lifetime.
                 // Wrapping the entire `serve` in the timeout would tear the admin
                 // server (and `/stop`) down that long after startup, so a `/stop`
                 // sent later in a long-running live-check could never stop it.
                 let (drain_started_tx, drain_started_rx) = oneshot::channel();
+                let drain_coordinator = coordinator.clone();
                 let serve = axum::serve(listener, app).with_graceful_shutdown(async move {
                     let _ = admin_shutdown_rx.await;
+                    drain_coordinator.draining.store(true, Ordering::Release);
                     let _ = drain_started_tx.send(());
                 });
 
                 let drain_deadline = async {
                     if drain_started_rx.await.is_ok() {
-                        sleep(ADMIN_REQUEST_TIMEOUT).await;
+                        sleep(ADMIN_DRAIN_TIMEOUT).await;
                     } else {
                         std::future::pending::<()>().await;
                     }
@@ -628,7 +646,7 @@ async fn spawn_http_admin_handler(
                     }
                     _ = drain_deadline => warn!(
                         "Admin HTTP server graceful shutdown did not complete within \
-                         {ADMIN_REQUEST_TIMEOUT:?}; a client may not have finished reading \
+                         {ADMIN_DRAIN_TIMEOUT:?}; a client may not have finished reading \
                          a response"
                     ),
                 }
-- 
2.43.0


From cfe8993f75031dc9caa6b233b8ac8d457cb659ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:24 +0000
Subject: [PATCH 17/34] fix: fail when the receiver didn't accept every span
 and log record that emit sent

An export that failed before the last batch, and records that didn't fit into
the queue of the batch processor, were lost without an error.
---
 crates/weaver_emit/src/lib.rs   | 149 +++++++++++++++++++++++++++++---
 crates/weaver_emit/src/logs.rs  |  12 ++-
 crates/weaver_emit/src/spans.rs |  23 +++--
 3 files changed, 162 insertions(+), 22 deletions(-)

diff --git a/crates/weaver_emit/src/lib.rs b/crates/weaver_emit/src/lib.rs
index 6500cd9..4a97edf 100644
--- a/crates/weaver_emit/src/lib.rs
+++ b/crates/weaver_emit/src/lib.rs
@@ -6,11 +6,17 @@ use metrics::emit_metrics_for_registry;
 use miette::Diagnostic;
 use opentelemetry::global;
 use opentelemetry_otlp::{ExporterBuildError, MetricExporter, WithExportConfig};
+use opentelemetry_sdk::logs::{BatchLogProcessor, LogBatch, LogExporter};
 use opentelemetry_sdk::metrics::SdkMeterProvider;
+use opentelemetry_sdk::trace::{BatchSpanProcessor, SpanData, SpanExporter};
 use opentelemetry_sdk::Resource;
+use opentelemetry_sdk::{error::OTelSdkResult, logs as sdk_logs, trace as sdk_trace};
 use opentelemetry_sdk::{metrics::PeriodicReader, trace::SdkTracerProvider};
 use serde::Serialize;
 use spans::emit_trace_for_registry;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::Arc;
+use std::time::Duration;
 use weaver_common::diagnostic::{DiagnosticMessage, DiagnosticMessages};
 use weaver_forge::registry::ResolvedRegistry;
 use weaver_forge::v2::registry::ForgeResolvedRegistry;
@@ -65,9 +71,75 @@ impl From<Error> for DiagnosticMessages {
     }
 }
 
+/// An exporter that counts the spans or log records the receiver accepted.
+///
+/// The batch processors only report the result of the last batch, and neither
+/// an earlier batch that failed nor a record that didn't fit into their queue.
+#[derive(Debug)]
+struct CountingExporter<E> {
+    inner: E,
+    accepted: Arc<AtomicUsize>,
+}
+
+impl<E: SpanExporter> SpanExporter for CountingExporter<E> {
+    async fn export(&self, batch: Vec<SpanData>) -> OTelSdkResult {
+        let count = batch.len();
+        self.inner.export(batch).await?;
+        let _ = self.accepted.fetch_add(count, Ordering::SeqCst);
+        Ok(())
+    }
+
+    fn shutdown_with_timeout(&self, timeout: Duration) -> OTelSdkResult {
+        self.inner.shutdown_with_timeout(timeout)
+    }
+
+    fn force_flush(&self) -> OTelSdkResult {
+        self.inner.force_flush()
+    }
+
+    fn set_resource(&mut self, resource: &Resource) {
+        self.inner.set_resource(resource);
+    }
+}
+
+impl<E: LogExporter> LogExporter for CountingExporter<E> {
+    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
+        let count = batch.iter().count();
+        self.inner.export(batch).await?;
+        let _ = self.accepted.fetch_add(count, Ordering::SeqCst);
+        Ok(())
+    }
+
+    fn shutdown_with_timeout(&self, timeout: Duration) -> OTelSdkResult {
+        self.inner.shutdown_with_timeout(timeout)
+    }
+
+    fn set_resource(&mut self, resource: &Resource) {
+        self.inner.set_resource(resource);
+    }
+}
+
+/// Fails if the receiver accepted fewer records than were emitted.
+fn check_accepted(what: &str, emitted: usize, accepted: &AtomicUsize) -> Result<(), String> {
+    let accepted = accepted.load(Ordering::SeqCst);
+    if accepted < emitted {
+        return Err(format!(
+            "Only {accepted} of {emitted} {what} were accepted by the OTLP receiver."
+        ));
+    }
+    Ok(())
+}
+
 /// Initialise a grpc OTLP exporter, sends to by default http://localhost:4317
 /// but can be overridden with the standard OTEL_EXPORTER_OTLP_ENDPOINT env var.
-fn init_tracer_provider(endpoint: &String) -> Result<SdkTracerProvider, ExporterBuildError> {
+///
+/// `max_span_count` spans can be queued without being dropped, and `accepted` counts
+/// the spans accepted by the receiver.
+fn init_tracer_provider(
+    endpoint: &String,
+    max_span_count: usize,
+    accepted: Arc<AtomicUsize>,
+) -> Result<SdkTracerProvider, ExporterBuildError> {
     let exporter = opentelemetry_otlp::SpanExporter::builder()
         .with_tonic()
         .with_endpoint(endpoint)
@@ -78,7 +150,18 @@ fn init_tracer_provider(endpoint: &String) -> Result<SdkTracerProvider, Exporter
                 .with_service_name(WEAVER_SERVICE_NAME)
                 .build(),
         )
-        .with_batch_exporter(exporter)
+        .with_span_processor(
+            BatchSpanProcessor::builder(CountingExporter {
+                inner: exporter,
+                accepted,
+            })
+            .with_batch_config(
+                sdk_trace::BatchConfigBuilder::default()
+                    .with_max_queue_size(max_span_count)
+                    .build(),
+            )
+            .build(),
+        )
         .build())
 }
 
@@ -131,8 +214,13 @@ fn init_stdout_meter_provider() -> SdkMeterProvider {
 
 /// Initialise a grpc OTLP exporter for logs, sends to by default http://localhost:4317
 /// but can be overridden with the standard OTEL_EXPORTER_OTLP_ENDPOINT env var.
+///
+/// `max_log_count` log records can be queued without being dropped, and `accepted`
+/// counts the log records accepted by the receiver.
 fn init_logger_provider(
     endpoint: &String,
+    max_log_count: usize,
+    accepted: Arc<AtomicUsize>,
 ) -> Result<opentelemetry_sdk::logs::SdkLoggerProvider, ExporterBuildError> {
     let resource = Resource::builder()
         .with_service_name(WEAVER_SERVICE_NAME)
@@ -145,7 +233,18 @@ fn init_logger_provider(
 
     Ok(opentelemetry_sdk::logs::SdkLoggerProvider::builder()
         .with_resource(resource)
-        .with_batch_exporter(exporter)
+        .with_log_processor(
+            BatchLogProcessor::builder(CountingExporter {
+                inner: exporter,
+                accepted,
+            })
+            .with_batch_config(
+                sdk_logs::BatchConfigBuilder::default()
+                    .with_max_queue_size(max_log_count)
+                    .build(),
+            )
+            .build(),
+        )
         .build())
 }
 
@@ -182,6 +281,16 @@ pub enum RegistryVersion<'a> {
     V2(&'a ForgeResolvedRegistry),
 }
 
+impl RegistryVersion<'_> {
+    /// An upper bound of the number of spans, or log records, emitted for the registry.
+    fn max_signal_count(&self) -> usize {
+        1 + match self {
+            RegistryVersion::V1(reg) => reg.groups.len(),
+            RegistryVersion::V2(reg) => reg.registry.spans.len().max(reg.registry.events.len()),
+        }
+    }
+}
+
 /// Emit the signals from the registry to the configured exporter.
 pub fn emit(
     registry: RegistryVersion<'_>,
@@ -193,26 +302,34 @@ pub fn emit(
     })?;
     rt.block_on(async {
         // Emit spans
+        let accepted_spans = Arc::new(AtomicUsize::new(0));
         let tracer_provider = match exporter_config {
             ExporterConfig::Stdout => init_stdout_tracer_provider(),
-            ExporterConfig::Otlp { endpoint } => {
-                init_tracer_provider(endpoint).map_err(|e| Error::TracerProviderError {
-                    error: e.to_string(),
-                })?
-            }
+            ExporterConfig::Otlp { endpoint } => init_tracer_provider(
+                endpoint,
+                registry.max_signal_count(),
+                accepted_spans.clone(),
+            )
+            .map_err(|e| Error::TracerProviderError {
+                error: e.to_string(),
+            })?,
         };
         global::set_tracer_provider(tracer_provider.clone());
 
-        match registry {
+        let emitted_spans = match registry {
             RegistryVersion::V1(reg) => emit_trace_for_registry(reg, registry_path),
             RegistryVersion::V2(reg) => emit_trace_for_registry_v2(reg, registry_path),
-        }
+        };
 
         tracer_provider
             .force_flush()
             .map_err(|e| Error::TracerProviderError {
                 error: e.to_string(),
             })?;
+        if matches!(exporter_config, ExporterConfig::Otlp { .. }) {
+            check_accepted("spans", emitted_spans, &accepted_spans)
+                .map_err(|error| Error::TracerProviderError { error })?;
+        }
 
         // Emit metrics
         let meter_provider = match exporter_config {
@@ -237,25 +354,31 @@ pub fn emit(
             })?;
 
         // Emit logs
+        let accepted_logs = Arc::new(AtomicUsize::new(0));
         let logger_provider = match exporter_config {
             ExporterConfig::Stdout => init_stdout_logger_provider(),
             ExporterConfig::Otlp { endpoint } => {
-                init_logger_provider(endpoint).map_err(|e| Error::LogProviderError {
+                init_logger_provider(endpoint, registry.max_signal_count(), accepted_logs.clone())
+                    .map_err(|e| Error::LogProviderError {
                     error: e.to_string(),
                 })?
             }
         };
 
-        match registry {
+        let emitted_logs = match registry {
             RegistryVersion::V1(reg) => emit_logs_for_registry(reg, &logger_provider),
             RegistryVersion::V2(reg) => emit_logs_for_registry_v2(reg, &logger_provider),
-        }
+        };
 
         logger_provider
             .shutdown()
             .map_err(|e| Error::LogProviderError {
                 error: e.to_string(),
             })?;
+        if matches!(exporter_config, ExporterConfig::Otlp { .. }) {
+            check_accepted("log records", emitted_logs, &accepted_logs)
+                .map_err(|error| Error::LogProviderError { error })?;
+        }
         Ok(())
     })
 }
diff --git a/crates/weaver_emit/src/logs.rs b/crates/weaver_emit/src/logs.rs
index 5e0962f..df2ed5b 100644
--- a/crates/weaver_emit/src/logs.rs
+++ b/crates/weaver_emit/src/logs.rs
@@ -38,12 +38,13 @@ fn value_to_any_value(value: Value) -> AnyValue {
 }
 
 /// Uses the provided logger_provider to emit log records for all the defined
-/// events in the registry
+/// events in the registry. Returns the number of emitted log records.
 pub(crate) fn emit_logs_for_registry(
     registry: &ResolvedRegistry,
     logger_provider: &SdkLoggerProvider,
-) {
+) -> usize {
     let logger = logger_provider.logger("weaver");
+    let mut emitted = 0;
 
     // Emit each event as a log record to the OTLP receiver.
     for group in registry.groups.iter() {
@@ -63,15 +64,18 @@ pub(crate) fn emit_logs_for_registry(
             }
 
             logger.emit(log_record);
+            emitted += 1;
         }
     }
+    emitted
 }
 
 pub(crate) fn emit_logs_for_registry_v2(
     registry: &ForgeResolvedRegistry,
     logger_provider: &SdkLoggerProvider,
-) {
+) -> usize {
     let logger = logger_provider.logger("weaver");
+    let mut emitted = 0;
 
     // Emit each event as a log record to the OTLP receiver.
     for event in registry.registry.events.iter() {
@@ -90,7 +94,9 @@ pub(crate) fn emit_logs_for_registry_v2(
         }
 
         logger.emit(log_record);
+        emitted += 1;
     }
+    emitted
 }
 
 #[cfg(test)]
diff --git a/crates/weaver_emit/src/spans.rs b/crates/weaver_emit/src/spans.rs
index b2c7241..64e1cb0 100644
--- a/crates/weaver_emit/src/spans.rs
+++ b/crates/weaver_emit/src/spans.rs
@@ -5,7 +5,7 @@
 use crate::attributes::{get_attribute_name_value, get_attribute_name_value_v2};
 use opentelemetry::{
     global,
-    trace::{SpanKind, TraceContextExt, Tracer},
+    trace::{Span, SpanKind, TraceContextExt, Tracer},
     KeyValue,
 };
 use weaver_forge::{
@@ -32,9 +32,10 @@ fn otel_span_kind(span_kind: Option<&SpanKindSpec>) -> SpanKind {
 }
 
 /// Uses the global tracer_provider to emit a single trace for all the defined
-/// spans in the registry
-pub(crate) fn emit_trace_for_registry(registry: &ResolvedRegistry, registry_path: &str) {
+/// spans in the registry. Returns the number of emitted (i.e. sampled) spans.
+pub(crate) fn emit_trace_for_registry(registry: &ResolvedRegistry, registry_path: &str) -> usize {
     let tracer = global::tracer("weaver");
+    let mut emitted = 0;
     // Start a parent span here and use this context to create child spans
     tracer.in_span(WEAVER_EMIT_SPAN, |cx| {
         let span = cx.span();
@@ -42,22 +43,29 @@ pub(crate) fn emit_trace_for_registry(registry: &ResolvedRegistry, registry_path
             WEAVER_REGISTRY_PATH,
             registry_path.to_owned(),
         ));
+        emitted += usize::from(span.is_recording());
 
         // Emit each span to the OTLP receiver.
         for group in registry.groups.iter() {
             if group.r#type == GroupType::Span {
-                let _span = tracer
+                let child = tracer
                     .span_builder(group.id.clone())
                     .with_kind(otel_span_kind(group.span_kind.as_ref()))
                     .with_attributes(group.attributes.iter().map(get_attribute_name_value))
                     .start_with_context(&tracer, &cx);
+                emitted += usize::from(child.is_recording());
             }
         }
     });
+    emitted
 }
 
-pub(crate) fn emit_trace_for_registry_v2(registry: &ForgeResolvedRegistry, registry_path: &str) {
+pub(crate) fn emit_trace_for_registry_v2(
+    registry: &ForgeResolvedRegistry,
+    registry_path: &str,
+) -> usize {
     let tracer = global::tracer("weaver");
+    let mut emitted = 0;
     // Start a parent span here and use this context to create child spans
     tracer.in_span(WEAVER_EMIT_SPAN, |cx| {
         let span = cx.span();
@@ -65,10 +73,11 @@ pub(crate) fn emit_trace_for_registry_v2(registry: &ForgeResolvedRegistry, regis
             WEAVER_REGISTRY_PATH,
             registry_path.to_owned(),
         ));
+        emitted += usize::from(span.is_recording());
 
         // Emit each span to the OTLP receiver.
         for span in registry.registry.spans.iter() {
-            let _span =
+            let child =
                 tracer
                     .span_builder(span.r#type.to_string())
                     .with_kind(otel_span_kind(Some(&span.kind)))
@@ -76,8 +85,10 @@ pub(crate) fn emit_trace_for_registry_v2(registry: &ForgeResolvedRegistry, regis
                         get_attribute_name_value_v2(&span_attr.base)
                     }))
                     .start_with_context(&tracer, &cx);
+            emitted += usize::from(child.is_recording());
         }
     });
+    emitted
 }
 
 #[cfg(test)]
-- 
2.43.0


From 32050f852d34d09782f98691a494570dcebd9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:55 +0000
Subject: [PATCH 18/34] fix: fail when the receiver didn't accept every finding
 that live-check emitted

An export that failed before the last batch, and findings that didn't fit into
the queue of the batch processor, were lost without an error.
---
 crates/weaver_live_check/src/otlp_logger.rs | 90 +++++++++++++++++++--
 1 file changed, 83 insertions(+), 7 deletions(-)

diff --git a/crates/weaver_live_check/src/otlp_logger.rs b/crates/weaver_live_check/src/otlp_logger.rs
index 63bee75..4070989 100644
--- a/crates/weaver_live_check/src/otlp_logger.rs
+++ b/crates/weaver_live_check/src/otlp_logger.rs
@@ -5,10 +5,14 @@
 use opentelemetry::logs::{AnyValue, Logger, LoggerProvider, Severity};
 use opentelemetry::{Key, KeyValue};
 use opentelemetry_otlp::WithExportConfig;
-use opentelemetry_sdk::logs::SdkLoggerProvider;
+use opentelemetry_sdk::error::OTelSdkResult;
+use opentelemetry_sdk::logs::{LogBatch, LogExporter, SdkLoggerProvider};
 use opentelemetry_sdk::resource::ResourceDetector;
 use opentelemetry_sdk::Resource;
 use serde_json::Value as JsonValue;
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use std::sync::Arc;
+use std::time::Duration;
 use weaver_checker::{FindingLevel, PolicyFinding};
 
 use crate::generated::attributes::{FindingId, FindingLevel as GeneratedFindingLevel, SignalType};
@@ -58,9 +62,43 @@ fn build_resource() -> Resource {
         .build()
 }
 
+/// Number of findings after which the queue of the batch exporter (2048 log
+/// records by default) is flushed, so that none is dropped.
+const FLUSH_INTERVAL: usize = 512;
+
+/// A log exporter that counts the log records the receiver accepted.
+///
+/// The batch processor only reports the result of the last batch, and neither
+/// an earlier batch that failed nor a record that didn't fit into its queue.
+#[derive(Debug)]
+struct CountingExporter<E> {
+    inner: E,
+    accepted: Arc<AtomicUsize>,
+}
+
+impl<E: LogExporter> LogExporter for CountingExporter<E> {
+    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
+        let count = batch.iter().count();
+        self.inner.export(batch).await?;
+        let _ = self.accepted.fetch_add(count, Ordering::SeqCst);
+        Ok(())
+    }
+
+    fn shutdown_with_timeout(&self, timeout: Duration) -> OTelSdkResult {
+        self.inner.shutdown_with_timeout(timeout)
+    }
+
+    fn set_resource(&mut self, resource: &Resource) {
+        self.inner.set_resource(resource);
+    }
+}
+
 /// OTLP emitter for policy findings
 pub struct OtlpEmitter {
     provider: SdkLoggerProvider,
+    emitted: AtomicUsize,
+    accepted: Arc<AtomicUsize>,
+    flush_failed: AtomicBool,
 }
 
 impl OtlpEmitter {
@@ -77,12 +115,16 @@ impl OtlpEmitter {
                 error: format!("Failed to create OTLP log exporter: {e}"),
             })?;
 
+        let accepted = Arc::new(AtomicUsize::new(0));
         let provider = SdkLoggerProvider::builder()
             .with_resource(build_resource())
-            .with_batch_exporter(exporter)
+            .with_batch_exporter(CountingExporter {
+                inner: exporter,
+                accepted: accepted.clone(),
+            })
             .build();
 
-        Ok(OtlpEmitter { provider })
+        Ok(Self::new(provider, accepted))
     }
 
     /// Create a new OTLP emitter with stdout export (for debugging)
@@ -90,12 +132,25 @@ impl OtlpEmitter {
     pub fn new_stdout() -> Self {
         let exporter = opentelemetry_stdout::LogExporter::default();
 
+        let accepted = Arc::new(AtomicUsize::new(0));
         let provider = SdkLoggerProvider::builder()
             .with_resource(build_resource())
-            .with_simple_exporter(exporter)
+            .with_simple_exporter(CountingExporter {
+                inner: exporter,
+                accepted: accepted.clone(),
+            })
             .build();
 
-        OtlpEmitter { provider }
+        Self::new(provider, accepted)
+    }
+
+    fn new(provider: SdkLoggerProvider, accepted: Arc<AtomicUsize>) -> Self {
+        OtlpEmitter {
+            provider,
+            emitted: AtomicUsize::new(0),
+            accepted,
+            flush_failed: AtomicBool::new(false),
+        }
     }
 
     /// Emit a policy finding as an OTLP log record
@@ -137,6 +192,16 @@ impl OtlpEmitter {
         );
 
         logger.emit(log_record);
+
+        let emitted = self.emitted.fetch_add(1, Ordering::SeqCst) + 1;
+        if emitted.is_multiple_of(FLUSH_INTERVAL) && !self.flush_failed.load(Ordering::SeqCst) {
+            // A failed export is reported by `shutdown`. Don't wait for the
+            // receiver again, it may be unreachable.
+            if let Err(e) = self.force_flush() {
+                log::warn!("{e}");
+                self.flush_failed.store(true, Ordering::SeqCst);
+            }
+        }
     }
 
     /// Force-flush any pending log records without shutting down the provider.
@@ -146,11 +211,22 @@ impl OtlpEmitter {
         })
     }
 
-    /// Shutdown the provider, flushing any pending log records
+    /// Shutdown the provider, flushing any pending log records. Fails if the
+    /// receiver didn't accept every emitted finding.
     pub fn shutdown(&self) -> Result<(), Error> {
         self.provider.shutdown().map_err(|e| Error::OutputError {
             error: format!("Failed to shutdown OTLP log provider: {e}"),
-        })
+        })?;
+        let emitted = self.emitted.load(Ordering::SeqCst);
+        let accepted = self.accepted.load(Ordering::SeqCst);
+        if accepted < emitted {
+            return Err(Error::OutputError {
+                error: format!(
+                    "Only {accepted} of {emitted} findings were accepted by the OTLP log receiver"
+                ),
+            });
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 2ee3561d7b9f9bee32409388656602cf1c4e14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 19/34] fix: apply finding filters and level overrides to the
 emitted findings

---
 crates/weaver_live_check/src/otlp_logger.rs | 22 +++++++++++++++++++++
 src/registry/live_check.rs                  |  4 ++++
 2 files changed, 26 insertions(+)

diff --git a/crates/weaver_live_check/src/otlp_logger.rs b/crates/weaver_live_check/src/otlp_logger.rs
index 4070989..49da6b3 100644
--- a/crates/weaver_live_check/src/otlp_logger.rs
+++ b/crates/weaver_live_check/src/otlp_logger.rs
@@ -15,6 +15,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use weaver_checker::{FindingLevel, PolicyFinding};
 
+use crate::finding_modifier::FindingModifier;
 use crate::generated::attributes::{FindingId, FindingLevel as GeneratedFindingLevel, SignalType};
 use crate::generated::entities::{
     ServiceCriticality, SERVICE_CRITICALITY, SERVICE_NAME, SERVICE_VERSION,
@@ -99,6 +100,7 @@ pub struct OtlpEmitter {
     emitted: AtomicUsize,
     accepted: Arc<AtomicUsize>,
     flush_failed: AtomicBool,
+    finding_modifier: Option<FindingModifier>,
 }
 
 impl OtlpEmitter {
@@ -150,9 +152,18 @@ impl OtlpEmitter {
             emitted: AtomicUsize::new(0),
             accepted,
             flush_failed: AtomicBool::new(false),
+            finding_modifier: None,
         }
     }
 
+    /// Apply the finding filters and level overrides to the emitted findings,
+    /// as they are applied to the findings of the report.
+    #[must_use]
+    pub fn with_finding_modifier(mut self, finding_modifier: Option<FindingModifier>) -> Self {
+        self.finding_modifier = finding_modifier;
+        self
+    }
+
     /// Emit a policy finding as an OTLP log record
     pub fn emit_finding(
         &self,
@@ -160,6 +171,17 @@ impl OtlpEmitter {
         sample_ref: &SampleRef<'_>,
         parent_signal: &Sample,
     ) {
+        let modified;
+        let finding = match &self.finding_modifier {
+            Some(modifier) => match modifier.apply(finding.clone(), sample_ref) {
+                Some(finding) => {
+                    modified = finding;
+                    &modified
+                }
+                None => return,
+            },
+            None => finding,
+        };
         log::debug!("Emitting finding: {} - {}", finding.id, finding.message);
         let logger = self.provider.logger("weaver.live_check");
         let mut log_record = logger.create_log_record();
diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index bc9c95b..68d2d55 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -366,6 +366,10 @@ pub(crate) fn command(
         } else {
             weaver_live_check::otlp_logger::OtlpEmitter::new_grpc(&config.emit.otlp_logs_endpoint)?
         };
+        let emitter = emitter.with_finding_modifier(FindingModifier::from_rules(
+            &config.finding_filters,
+            &config.finding_level_overrides,
+        )?);
         live_checker.otlp_emitter = Some(std::rc::Rc::new(emitter));
     }
 
-- 
2.43.0


From 1640e2966f063078e5465d998358ba029041b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 20/34] fix: infer the same registry independently of the hash
 seed

---
 crates/weaver_infer/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/weaver_infer/src/lib.rs b/crates/weaver_infer/src/lib.rs
index 2498313..44e6441 100644
--- a/crates/weaver_infer/src/lib.rs
+++ b/crates/weaver_infer/src/lib.rs
@@ -31,7 +31,7 @@ struct AccumulatedSpan {
     name: String,
     kind: SpanKindSpec,
     attributes: HashMap<String, AttributeSpec>,
-    events: HashMap<String, AccumulatedEvent>,
+    events: BTreeMap<String, AccumulatedEvent>,
 }
 
 impl AccumulatedSpan {
@@ -40,7 +40,7 @@ impl AccumulatedSpan {
             name,
             kind,
             attributes: HashMap::new(),
-            events: HashMap::new(),
+            events: BTreeMap::new(),
         }
     }
 }
@@ -78,12 +78,15 @@ impl AccumulatedEvent {
 }
 
 /// Accumulates telemetry samples into inferred semantic convention groups.
+///
+/// The signals are kept sorted by name: when several signals share an attribute,
+/// the attribute definition is taken from the first of them.
 #[derive(Default)]
 pub struct AccumulatedSamples {
     resources: HashMap<String, AttributeSpec>,
-    spans: HashMap<String, AccumulatedSpan>,
-    metrics: HashMap<String, AccumulatedMetric>,
-    events: HashMap<String, AccumulatedEvent>,
+    spans: BTreeMap<String, AccumulatedSpan>,
+    metrics: BTreeMap<String, AccumulatedMetric>,
+    events: BTreeMap<String, AccumulatedEvent>,
 }
 
 impl AccumulatedSamples {
-- 
2.43.0


From df3210329cc78e9d7156f55c53db23b1f3ead759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 21/34] fix: output generated artifacts in a reproducible order

---
 crates/weaver_forge/src/file_loader.rs |   5 +-
 crates/weaver_forge/src/lib.rs         | 156 +++++++++++++------------
 2 files changed, 83 insertions(+), 78 deletions(-)

diff --git a/crates/weaver_forge/src/file_loader.rs b/crates/weaver_forge/src/file_loader.rs
index a6ab4bb..66ae736 100644
--- a/crates/weaver_forge/src/file_loader.rs
+++ b/crates/weaver_forge/src/file_loader.rs
@@ -205,9 +205,10 @@ impl FileLoader for FileSystemFileLoader {
     /// Returns a list of all files in the loader's root directory, or an error if
     /// the list can't be established completely.
     fn try_all_files(&self) -> Result<Vec<PathBuf>, Error> {
-        // List all files in the target directory and its subdirectories
+        // List all files in the target directory and its subdirectories, in a
+        // reproducible order
         let mut files = vec![];
-        for entry in WalkDir::new(self.dir.clone()) {
+        for entry in WalkDir::new(self.dir.clone()).sort_by_file_name() {
             let entry = match entry {
                 Ok(entry) => entry,
                 // Skip directories that the owner of the running process does not
diff --git a/crates/weaver_forge/src/lib.rs b/crates/weaver_forge/src/lib.rs
index a05d666..12490df 100644
--- a/crates/weaver_forge/src/lib.rs
+++ b/crates/weaver_forge/src/lib.rs
@@ -84,6 +84,14 @@ pub(crate) enum OutputDirective {
     File,
 }
 
+/// The result of the evaluation of a template.
+struct Artifact {
+    /// The rendered template.
+    output: String,
+    /// The name of the generated file, relative to the output directory.
+    file_name: PathBuf,
+}
+
 /// A template object accessible from the template.
 #[derive(Debug, Clone)]
 struct TemplateObject {
@@ -429,9 +437,8 @@ impl TemplateEngine {
             error: e.to_string(),
         })?;
 
-        // Process each file and collect any errors.
-        // The files are processed in parallel.
-        let errs = files
+        // Render each file. The files are processed in parallel.
+        let artifacts = files
             .into_par_iter()
             .flat_map(|file_to_process| {
                 // Iterate over the all the template configurations that match the file
@@ -439,17 +446,25 @@ impl TemplateEngine {
                 tmpl_matcher
                     .matches(file_to_process.clone())
                     .into_par_iter()
-                    .filter_map(|template| {
-                        self.process_template(
-                            &file_to_process,
-                            template,
-                            &context,
-                            output_dir,
-                            output_directive,
-                        )
-                        .err()
+                    .flat_map(|template| {
+                        self.process_template(&file_to_process, template, &context)
+                    })
+                    .collect::<Vec<Result<Artifact, Error>>>()
+            })
+            .collect::<Vec<Result<Artifact, Error>>>();
+
+        // Output the artifacts and collect any errors. This is done in the order of
+        // the templates and objects, so that neither the order of the console output
+        // nor the content of a file generated more than once depends on the order in
+        // which the artifacts were rendered.
+        let errs = artifacts
+            .into_iter()
+            .filter_map(|artifact| {
+                artifact
+                    .and_then(|artifact| {
+                        Self::output_artifact(artifact, output_dir, output_directive)
                     })
-                    .collect::<Vec<Error>>()
+                    .err()
             })
             .collect::<Vec<Error>>();
 
@@ -493,20 +508,26 @@ impl TemplateEngine {
         }
     }
 
-    /// Process a single template file with the given template configuration,
-    /// context, output directory, and output directive.
+    /// Render a single template file with the given template configuration and context.
     fn process_template(
         &self,
         template_file: &Path,
         template: &TemplateConfig,
         context: &serde_json::Value,
-        output_dir: &Path,
-        output_directive: &OutputDirective,
-    ) -> Result<(), Error> {
-        log::debug!(
-            "Processing template file: {template_file:#?}, output directory: {output_dir:#?}"
-        );
+    ) -> Vec<Result<Artifact, Error>> {
+        log::debug!("Processing template file: {template_file:#?}");
+
+        self.try_process_template(template_file, template, context)
+            .unwrap_or_else(|e| vec![Err(e)])
+    }
 
+    /// Render a single template file, see [`Self::process_template`].
+    fn try_process_template(
+        &self,
+        template_file: &Path,
+        template: &TemplateConfig,
+        context: &serde_json::Value,
+    ) -> Result<Vec<Result<Artifact, Error>>, Error> {
         let yaml_params = Self::init_params(template.params.clone())?;
         let params = Self::prepare_jq_context(&yaml_params)?;
 
@@ -514,20 +535,18 @@ impl TemplateEngine {
         // evaluates to `true`. Evaluated before filtering so a skipped template
         // does no work.
         if !self.evaluate_when(template, context, &params)? {
-            return Ok(());
+            return Ok(vec![]);
         }
 
         let filter = Filter::new(template.filter.as_str());
         let filtered_result = filter.apply(context.clone(), &params)?;
 
-        match template.application_mode {
+        Ok(match template.application_mode {
             ApplicationMode::Single => self.process_single_mode(
                 &filtered_result,
                 template.file_name.as_ref(),
                 &yaml_params,
                 template_file,
-                output_dir,
-                output_directive,
                 &template.auto_escape,
             ),
             ApplicationMode::Each => self.process_each_mode(
@@ -535,55 +554,33 @@ impl TemplateEngine {
                 template.file_name.as_ref(),
                 &yaml_params,
                 template_file,
-                output_dir,
-                output_directive,
                 &template.auto_escape,
             ),
-        }
+        })
     }
 
     /// Evaluate the template for each object in the context if the context is an array, otherwise
     /// evaluate the template for the context entire object.
-    /// The evaluation is done in parallel.
+    /// The evaluation is done in parallel, the result is in the order of the objects.
     fn process_each_mode(
         &self,
         ctx: &serde_json::Value,
         file_path: Option<&String>,
         params: &BTreeMap<String, serde_yaml::Value>,
         template_file: &Path,
-        output_dir: &Path,
-        output_directive: &OutputDirective,
         auto_escape: &AutoEscapeMode,
-    ) -> Result<(), Error> {
+    ) -> Vec<Result<Artifact, Error>> {
         match ctx {
             serde_json::Value::Array(values) => {
                 // Evaluate the template for each object in the array context in parallel
-                let errs = values
+                values
                     .into_par_iter()
-                    .filter_map(|result| {
-                        self.evaluate_template(
-                            NewContext { ctx: result }.try_into().ok()?,
-                            file_path,
-                            params,
-                            template_file,
-                            output_directive,
-                            output_dir,
-                            auto_escape,
-                        )
-                        .err()
+                    .map(|ctx| {
+                        self.evaluate_template(ctx, file_path, params, template_file, auto_escape)
                     })
-                    .collect::<Vec<Error>>();
-                handle_errors(errs)
+                    .collect()
             }
-            _ => self.evaluate_template(
-                NewContext { ctx }.try_into()?,
-                file_path,
-                params,
-                template_file,
-                output_directive,
-                output_dir,
-                auto_escape,
-            ),
+            _ => vec![self.evaluate_template(ctx, file_path, params, template_file, auto_escape)],
         }
     }
 
@@ -594,23 +591,13 @@ impl TemplateEngine {
         file_path: Option<&String>,
         params: &BTreeMap<String, serde_yaml::Value>,
         template_file: &Path,
-        output_dir: &Path,
-        output_directive: &OutputDirective,
         auto_escape: &AutoEscapeMode,
-    ) -> Result<(), Error> {
+    ) -> Vec<Result<Artifact, Error>> {
         if ctx.is_null() || (ctx.is_array() && ctx.as_array().expect("is_array").is_empty()) {
             // Skip the template evaluation if the filtered result is null or an empty array
-            return Ok(());
+            return vec![];
         }
-        self.evaluate_template(
-            NewContext { ctx }.try_into()?,
-            file_path,
-            params,
-            template_file,
-            output_directive,
-            output_dir,
-            auto_escape,
-        )
+        vec![self.evaluate_template(ctx, file_path, params, template_file, auto_escape)]
     }
 
     /// Build a JQ context from the Weaver parameters.
@@ -741,20 +728,37 @@ impl TemplateEngine {
         Ok((output, template_object))
     }
 
-    #[allow(clippy::print_stdout)] // This is used for the OutputDirective::Stdout variant
-    #[allow(clippy::print_stderr)] // This is used for the OutputDirective::Stderr variant
+    /// Evaluate the template for the given context object.
     fn evaluate_template(
         &self,
-        ctx: serde_json::Value,
+        ctx: &serde_json::Value,
         file_path: Option<&String>,
         params: &BTreeMap<String, serde_yaml::Value>,
         template_path: &Path,
-        output_directive: &OutputDirective,
-        output_dir: &Path,
         auto_escape: &AutoEscapeMode,
+    ) -> Result<Artifact, Error> {
+        let (output, template_object) = self.render_template(
+            NewContext { ctx }.try_into()?,
+            params,
+            template_path,
+            file_path,
+            auto_escape,
+        )?;
+        Ok(Artifact {
+            output,
+            file_name: template_object.file_name(),
+        })
+    }
+
+    /// Write an artifact to the destination given by the output directive.
+    #[allow(clippy::print_stdout)] // This is used for the OutputDirective::Stdout variant
+    #[allow(clippy::print_stderr)] // This is used for the OutputDirective::Stderr variant
+    fn output_artifact(
+        artifact: Artifact,
+        output_dir: &Path,
+        output_directive: &OutputDirective,
     ) -> Result<(), Error> {
-        let (output, template_object) =
-            self.render_template(ctx, params, template_path, file_path, auto_escape)?;
+        let output = artifact.output;
         match output_directive {
             OutputDirective::Stdout => {
                 println!("{output}");
@@ -764,7 +768,7 @@ impl TemplateEngine {
             }
             OutputDirective::File => {
                 let generated_file =
-                    Self::save_generated_code(output_dir, template_object.file_name(), output)?;
+                    Self::save_generated_code(output_dir, artifact.file_name, output)?;
                 log_success(format!("Generated file {generated_file:?}"));
             }
         }
-- 
2.43.0


From a390b5162c6a74901d95b4cb50c05fd263572de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 22/34] fix: report dependency version upgrades in a
 reproducible order

---
 crates/weaver_resolver/src/loader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/loader.rs b/crates/weaver_resolver/src/loader.rs
index c231fba..d3907ed 100644
--- a/crates/weaver_resolver/src/loader.rs
+++ b/crates/weaver_resolver/src/loader.rs
@@ -182,7 +182,8 @@ pub(crate) fn load_semconv_repository_with_cache(
     let mut chosen_versions = std::collections::HashMap::new();
     let mut dependency_chain = Vec::new();
 
-    let mut main_dependencies = std::collections::HashMap::new();
+    // Sorted by name, so that the warnings are reported in a reproducible order.
+    let mut main_dependencies = std::collections::BTreeMap::new();
     if let Some(manifest) = registry_repo.manifest() {
         for dep in manifest.dependencies().iter() {
             let _ =
-- 
2.43.0


From d1d8fb3597b9f8c387487ad3682b22861cb52bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 23/34] fix: time out when a registry server stops responding

---
 crates/weaver_common/src/vdir.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 3f1961d..4ab9d5b 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -84,6 +84,7 @@ use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Mutex};
+use std::time::Duration;
 use tempfile::TempDir;
 use ureq::config::{Config, RedirectAuthHeaders};
 use ureq::tls::{RootCerts, TlsConfig};
@@ -109,16 +110,27 @@ pub fn is_git_credentials_enabled() -> bool {
     ALLOW_GIT_CREDENTIALS.load(std::sync::atomic::Ordering::Relaxed)
 }
 
+/// Limit for establishing a connection to a server.
+const HTTP_CONNECT_TIMEOUT: Duration = Duration::from_secs(30);
+/// Limit for receiving a response.
+const HTTP_RESPONSE_TIMEOUT: Duration = Duration::from_secs(600);
+/// Limit for receiving more of the body of a response.
+const HTTP_BODY_TIMEOUT: Duration = Duration::from_secs(60);
+
 /// Shared ureq [`Agent`] configured for authenticated HTTP downloads.
 ///
 /// Uses `RedirectAuthHeaders::SameHost` so that the `Authorization` header
 /// is preserved across same-host redirects (needed for GitHub API asset
 /// downloads that redirect within `*.github.com`) but stripped on
 /// cross-origin redirects. The agent is shared so that connection pooling
-/// benefits multiple downloads in the same run.
+/// benefits multiple downloads in the same run. The timeouts keep a server that
+/// stopped responding from blocking the command forever.
 static HTTP_AGENT: Lazy<Agent> = Lazy::new(|| {
     Config::builder()
         .max_redirects(10)
+        .timeout_connect(Some(HTTP_CONNECT_TIMEOUT))
+        .timeout_recv_response(Some(HTTP_RESPONSE_TIMEOUT))
+        .timeout_recv_body(Some(HTTP_BODY_TIMEOUT))
         .redirect_auth_headers(RedirectAuthHeaders::SameHost)
         .tls_config(
             TlsConfig::builder()
-- 
2.43.0


From a26a7eb824b028e16f98eba72ef41b9f604c4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 24/34] fix: support nested and detect missing sub-folders of
 archives

---
 crates/weaver_common/src/vdir.rs | 45 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 4ab9d5b..da3a044 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -880,6 +880,7 @@ impl VirtualDirectory {
     ) -> Result<(), Error> {
         let tar_file = flate2::read::GzDecoder::new(archive_file);
         let mut archive = tar::Archive::new(tar_file);
+        let mut found = false;
 
         for entry in archive.entries().map_err(|e| InvalidRegistryArchive {
             archive: archive_filename.to_owned(),
@@ -896,6 +897,7 @@ impl VirtualDirectory {
             })?;
 
             if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, target_path) {
+                found = true;
                 Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
                 // Unpack returns an Unpacked type containing the file descriptor to the
                 // unpacked file. The file descriptor is ignored as we don't have any use for it.
@@ -907,7 +909,7 @@ impl VirtualDirectory {
                     })?;
             }
         }
-        Ok(())
+        Self::check_found(found, sub_folder, archive_filename)
     }
 
     /// Extracts the contents of a `.zip` archive into the specified directory.
@@ -930,6 +932,8 @@ impl VirtualDirectory {
                 error: e.to_string(),
             })?;
 
+        let mut found = false;
+
         for i in 0..archive.len() {
             let mut entry = archive.by_index(i).map_err(|e| InvalidRegistryArchive {
                 archive: archive_filename.to_owned(),
@@ -938,6 +942,7 @@ impl VirtualDirectory {
 
             if let Some(path) = entry.enclosed_name() {
                 if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, tmp_path) {
+                    found = true;
                     Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
 
                     if entry.is_dir() {
@@ -965,7 +970,24 @@ impl VirtualDirectory {
                 }
             }
         }
-        Ok(())
+        Self::check_found(found, sub_folder, archive_filename)
+    }
+
+    /// Checks that the archive contains the sub-folder to unpack, if any.
+    fn check_found(
+        found: bool,
+        sub_folder: Option<&String>,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
+        match sub_folder {
+            Some(sub_folder) if !found && !sub_folder.trim().is_empty() => {
+                Err(InvalidRegistryArchive {
+                    archive: archive_filename.to_owned(),
+                    error: format!("Path `{sub_folder}` not found in archive"),
+                })
+            }
+            _ => Ok(()),
+        }
     }
 
     /// Calculates the final destination path for an archive entry based on filtering rules.
@@ -995,21 +1017,16 @@ impl VirtualDirectory {
         // Skip the first component, i.e. the top-level directory in the archive that
         // corresponds to the initial directory archived.
         _ = components.next();
+        let path = components.as_path();
 
-        // If a sub-folder is specified, skip entries not in the sub-folder.
-        if let Some(sub_folder) = sub_folder {
-            if !sub_folder.trim().is_empty() {
-                // Skip any entry that is not in the sub-folder.
-                // If the entry is in the sub-folder, the sub-folder component is skipped.
-                let component = components.next();
-                if let Some(component) = component {
-                    if component.as_os_str() != sub_folder.as_str() {
-                        return None; // Skip entries not in the sub-folder
-                    }
-                }
+        // If a sub-folder is specified, skip entries not in the sub-folder. If the entry
+        // is in the sub-folder, the components of the sub-folder are skipped.
+        match sub_folder {
+            Some(sub_folder) if !sub_folder.trim().is_empty() => {
+                Some(target_path.join(path.strip_prefix(sub_folder).ok()?))
             }
+            _ => Some(target_path.join(path)),
         }
-        Some(target_path.join(components.collect::<PathBuf>()))
     }
 
     /// Creates parent directories for the given path.
-- 
2.43.0


From 416ca4a33893ac9e0b3e7375ff2ba0ec2a8a2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 25/34] fix: unpack registry archives inside the target
 directory only

---
 crates/weaver_common/src/vdir.rs | 37 +++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index da3a044..5032f85 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -80,7 +80,7 @@ use std::fmt::Display;
 use std::fs::{create_dir_all, File};
 use std::io;
 use std::num::NonZeroU32;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Mutex};
@@ -898,6 +898,13 @@ impl VirtualDirectory {
 
             if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, target_path) {
                 found = true;
+                Self::check_inside(&valid_entry_path, target_path, archive_filename)?;
+                if entry.header().entry_type().is_hard_link() {
+                    return Err(InvalidRegistryArchive {
+                        archive: archive_filename.to_owned(),
+                        error: format!("Hard link `{}` is not supported", path.display()),
+                    });
+                }
                 Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
                 // Unpack returns an Unpacked type containing the file descriptor to the
                 // unpacked file. The file descriptor is ignored as we don't have any use for it.
@@ -1029,6 +1036,34 @@ impl VirtualDirectory {
         }
     }
 
+    /// Checks that unpacking an entry at the given path doesn't write outside the target
+    /// directory, neither by `..` components nor through a symbolic link unpacked before.
+    fn check_inside(
+        entry_path: &Path,
+        target_path: &Path,
+        archive_filename: &str,
+    ) -> Result<(), Error> {
+        let inside = entry_path
+            .strip_prefix(target_path)
+            .is_ok_and(|path| path.components().all(|c| matches!(c, Component::Normal(_))));
+        let through_link = entry_path
+            .ancestors()
+            .skip(1)
+            .take_while(|path| *path != target_path)
+            .any(Path::is_symlink);
+        if inside && !through_link {
+            Ok(())
+        } else {
+            Err(InvalidRegistryArchive {
+                archive: archive_filename.to_owned(),
+                error: format!(
+                    "Entry `{}` is outside the target directory",
+                    entry_path.display()
+                ),
+            })
+        }
+    }
+
     /// Creates parent directories for the given path.
     fn create_parent_dirs(new_path: &Path, archive_filename: &str) -> Result<(), Error> {
         if let Some(parent) = new_path.parent() {
-- 
2.43.0


From 5417e623f032eafab9c44ba94fd22a49ab1a8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 26/34] fix: don't send tokens to other hosts matching the URL
 prefix

---
 crates/weaver_common/src/http_auth.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_common/src/http_auth.rs b/crates/weaver_common/src/http_auth.rs
index 564b6cd..c714bd7 100644
--- a/crates/weaver_common/src/http_auth.rs
+++ b/crates/weaver_common/src/http_auth.rs
@@ -98,7 +98,7 @@ impl HttpAuthResolver {
             .inner
             .rules
             .iter()
-            .find(|r| url.starts_with(&r.url_prefix))?;
+            .find(|r| matches_prefix(url, &r.url_prefix))?;
         self.materialize(rule)
     }
 
@@ -144,6 +144,18 @@ impl HttpAuthResolver {
     }
 }
 
+/// Returns true if `url` starts with `url_prefix` and is on the same host, i.e. the
+/// prefix `https://example.com` doesn't match `https://example.com.evil.org/`.
+fn matches_prefix(url: &str, url_prefix: &str) -> bool {
+    let Some(rest) = url.strip_prefix(url_prefix) else {
+        return false;
+    };
+    let ends_in_authority = url_prefix
+        .split_once("://")
+        .is_none_or(|(_, after_scheme)| !after_scheme.contains(['/', '?', '#']));
+    !ends_in_authority || rest.is_empty() || rest.starts_with(['/', '?', '#'])
+}
+
 fn run_token_command(argv: &[String]) -> Option<String> {
     let (program, rest) = argv.split_first()?;
     let output = Command::new(program)
-- 
2.43.0


From 992bf7c75902e564c2e56774d32361cc25fe76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 27/34] fix: report errors reading the standard input of
 live-check

---
 .../src/text_stdin_ingester.rs                | 43 +++++++++++++++----
 src/registry/live_check.rs                    |  5 ++-
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/crates/weaver_live_check/src/text_stdin_ingester.rs b/crates/weaver_live_check/src/text_stdin_ingester.rs
index b391520..8222769 100644
--- a/crates/weaver_live_check/src/text_stdin_ingester.rs
+++ b/crates/weaver_live_check/src/text_stdin_ingester.rs
@@ -2,19 +2,36 @@
 
 //! An ingester that reads attribute names or name=value pairs from standard input.
 
+use std::cell::RefCell;
 use std::io::{self, BufRead};
+use std::rc::Rc;
 
 use crate::{sample_attribute::SampleAttribute, Error, Ingester, Sample};
 
 /// An ingester that streams attribute names or name=value pairs from standard input.
 /// Implements the Ingester trait to return an iterator of SampleAttribute items.
-pub struct TextStdinIngester;
+pub struct TextStdinIngester {
+    read_error: Rc<RefCell<Option<io::Error>>>,
+}
 
 impl TextStdinIngester {
     /// Create a new AttributeStdInIngester
     #[must_use]
     pub fn new() -> Self {
-        TextStdinIngester
+        TextStdinIngester {
+            read_error: Rc::default(),
+        }
+    }
+
+    /// Checks that the samples didn't end early because standard input could not be
+    /// read. To be called once the iterator returned by [`Ingester::ingest`] ended.
+    pub fn check_read(&self) -> Result<(), Error> {
+        match self.read_error.take() {
+            Some(e) => Err(Error::IngestError {
+                error: format!("Failed to read from stdin: {e}"),
+            }),
+            None => Ok(()),
+        }
     }
 }
 
@@ -28,13 +45,16 @@ impl Ingester for TextStdinIngester {
     fn ingest(&self) -> Result<Box<dyn Iterator<Item = Sample>>, Error> {
         let stdin = io::stdin();
         let handle = stdin.lock();
-        Ok(Box::new(TextStdinIterator::new(handle)))
+        let mut iterator = TextStdinIterator::new(handle);
+        iterator.read_error = self.read_error.clone();
+        Ok(Box::new(iterator))
     }
 }
 
 /// Generic iterator that can work with any BufRead source
 pub struct TextStdinIterator<R: BufRead> {
     lines: io::Lines<R>,
+    read_error: Rc<RefCell<Option<io::Error>>>,
 }
 
 impl<R: BufRead> TextStdinIterator<R> {
@@ -42,6 +62,7 @@ impl<R: BufRead> TextStdinIterator<R> {
     pub fn new(reader: R) -> Self {
         Self {
             lines: reader.lines(),
+            read_error: Rc::default(),
         }
     }
 }
@@ -53,12 +74,16 @@ impl<R: BufRead> Iterator for TextStdinIterator<R> {
         loop {
             match self.lines.next() {
                 None => return None,
-                Some(line_result) => {
-                    if let Ok(line) = line_result {
-                        return SampleAttribute::try_from(line.as_str())
-                            .ok()
-                            .map(Sample::Attribute);
-                    }
+                Some(Ok(line)) => {
+                    return SampleAttribute::try_from(line.as_str())
+                        .ok()
+                        .map(Sample::Attribute);
+                }
+                // A line which isn't valid UTF-8 is skipped.
+                Some(Err(e)) if e.kind() == io::ErrorKind::InvalidData => {}
+                Some(Err(e)) => {
+                    _ = self.read_error.replace(Some(e));
+                    return None;
                 }
             }
         }
diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 68d2d55..5b5abb4 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -314,11 +314,12 @@ pub(crate) fn command(
     live_checker.add_advisor(Box::new(rego_advisor));
 
     // Prepare the ingester
+    let text_stdin = TextStdinIngester::new();
     let mut shutdown_coordinator: Option<ShutdownCoordinator> = None;
     let ingester = match (&input_source, &input_format) {
         (InputSource::File(path), InputFormat::Text) => TextFileIngester::new(path).ingest()?,
 
-        (InputSource::Stdin, InputFormat::Text) => TextStdinIngester::new().ingest()?,
+        (InputSource::Stdin, InputFormat::Text) => text_stdin.ingest()?,
 
         (InputSource::File(path), InputFormat::Json) => JsonFileIngester::new(path).ingest()?,
 
@@ -415,6 +416,8 @@ pub(crate) fn command(
         }
     }
 
+    text_stdin.check_read()?;
+
     stats.finalize();
     // Set exit_code based on the configured --fail-on threshold. `None`
     // threshold means "never fail". `should_fail` returns false for disabled
-- 
2.43.0


From 5787ede9167b6b88caa9641718479d031d0747dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 28/34] fix: update markdown files in a reproducible order

---
 src/registry/update_markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/registry/update_markdown.rs b/src/registry/update_markdown.rs
index 33da6b6..d502687 100644
--- a/src/registry/update_markdown.rs
+++ b/src/registry/update_markdown.rs
@@ -178,7 +178,7 @@ pub(crate) fn command(
     log_success("Registry resolved successfully");
     let operation = if dry_run { "Validating" } else { "Updating" };
     let mut has_error = false;
-    for entry in walkdir::WalkDir::new(&markdown_dir) {
+    for entry in walkdir::WalkDir::new(&markdown_dir).sort_by_file_name() {
         let entry = match entry {
             Ok(entry) if is_markdown(&entry) => entry,
             Ok(_) => continue,
-- 
2.43.0


From f3736768641273ed972d4b5e20c01d8f033f1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 29/34] fix: keep matching URL prefixes that name no host

---
 crates/weaver_common/src/http_auth.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_common/src/http_auth.rs b/crates/weaver_common/src/http_auth.rs
index c714bd7..5ef8ed3 100644
--- a/crates/weaver_common/src/http_auth.rs
+++ b/crates/weaver_common/src/http_auth.rs
@@ -150,10 +150,10 @@ fn matches_prefix(url: &str, url_prefix: &str) -> bool {
     let Some(rest) = url.strip_prefix(url_prefix) else {
         return false;
     };
-    let ends_in_authority = url_prefix
+    let ends_in_host = url_prefix
         .split_once("://")
-        .is_none_or(|(_, after_scheme)| !after_scheme.contains(['/', '?', '#']));
-    !ends_in_authority || rest.is_empty() || rest.starts_with(['/', '?', '#'])
+        .is_some_and(|(_, host)| !host.is_empty() && !host.contains(['/', '?', '#']));
+    !ends_in_host || rest.is_empty() || rest.starts_with(['/', '?', '#'])
 }
 
 fn run_token_command(argv: &[String]) -> Option<String> {
-- 
2.43.0


From 7a97881fbc19e5baedd6c41df86756b58d4fa6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:10 +0000
Subject: [PATCH 30/34] fix: look up template attributes over MCP like over
 HTTP

---
 crates/weaver_mcp/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 90ee3fc..b799a33 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -418,7 +418,11 @@ impl WeaverMcpService {
                        full documentation."
     )]
     fn get_attribute(&self, Parameters(params): Parameters<GetAttributeParams>) -> String {
-        match self.search_context.get_attribute(&params.key) {
+        match self
+            .search_context
+            .get_attribute(&params.key)
+            .or_else(|| self.search_context.get_template(&params.key))
+        {
             Some(attr) => serde_json::to_string_pretty(attr.as_ref())
                 .unwrap_or_else(|e| format!("Error: {e}")),
             None => format!("Attribute '{}' not found in registry", params.key),
-- 
2.43.0


From 6fb7955639656fb505ebb371680921a2ff1253e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 31/34] fix: unpack zip archives inside the target directory
 only

A directory or file entry with `..` components that stays inside the archive
as a whole could leave the target directory once the top-level folder and the
sub-folder were stripped from its path.
---
 crates/weaver_common/src/vdir.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index 5032f85..b2d12c0 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -950,6 +950,7 @@ impl VirtualDirectory {
             if let Some(path) = entry.enclosed_name() {
                 if let Some(valid_entry_path) = Self::path_to_unpack(&path, sub_folder, tmp_path) {
                     found = true;
+                    Self::check_inside(&valid_entry_path, tmp_path, archive_filename)?;
                     Self::create_parent_dirs(&valid_entry_path, archive_filename)?;
 
                     if entry.is_dir() {
-- 
2.43.0


From d3caf47b73436f7f1ad745df7ebc4cf51aff4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 32/34] fix: convert registries with dependencies to v2 for
 serve and mcp

The conversion resolved the dependencies with a resolver that knows none, so
every registry with a dependency was refused unless `--v2` was given.
---
 src/weaver.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/weaver.rs b/src/weaver.rs
index c0df3c5..3b5fcfb 100644
--- a/src/weaver.rs
+++ b/src/weaver.rs
@@ -182,6 +182,7 @@ impl<'a> WeaverEngine<'a> {
                     template_schema: template,
                     registry_path_repr,
                     policy_engine,
+                    resolver,
                 })
             }
             WeaverResolvedSchema::V2(resolved) => {
@@ -271,6 +272,8 @@ pub struct ResolvedV1 {
     template_schema: ResolvedRegistry,
     registry_path_repr: String,
     policy_engine: Option<Engine>,
+    /// Knows the dependencies, which are needed again to convert to V2.
+    resolver: WeaverResolver,
 }
 impl ResolvedV1 {
     /// Returns a reference to the resolved schema.
@@ -461,13 +464,13 @@ impl TryFrom<ResolvedV1> for ResolvedV2 {
     type Error = Error;
 
     fn try_from(value: ResolvedV1) -> Result<Self, Self::Error> {
+        let mut resolver = value.resolver;
         let resolved_schema: weaver_resolved_schema::v2::ResolvedTelemetrySchema =
             value.resolved_schema.try_into()?;
-        let mut null_resolver = weaver_resolver::NullSchemaResolver;
         let template_schema =
             match weaver_forge::v2::registry::ForgeResolvedRegistry::try_from_resolved_schema(
                 resolved_schema.clone(),
-                &mut null_resolver,
+                &mut resolver,
             ) {
                 WResult::Ok(t) => t,
                 WResult::OkWithNFEs(t, _) => t,
-- 
2.43.0


From 4f7aadbf8a4697a194494c5249768cd949e5a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 33/34] fix: download an archive outside the directory it is
 unpacked in

A file of the archive with the archive's own name overwrote the archive while
it was read.
---
 crates/weaver_common/src/vdir.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index b2d12c0..d935ff3 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -1099,7 +1099,8 @@ impl VirtualDirectory {
         vdir_path: String,
         auth: &HttpAuthResolver,
     ) -> Result<Self, Error> {
-        let tmp_path = target_dir.path().to_path_buf();
+        // Not the target directory, as the archive may contain a file of its own name.
+        let download_dir = Self::create_tmp_repo()?;
         let err = |msg: String| InvalidRegistryArchive {
             archive: url.to_owned(),
             error: msg,
@@ -1114,7 +1115,7 @@ impl VirtualDirectory {
             .and_then(|name| if name.is_empty() { None } else { Some(name) })
             .ok_or_else(|| err("Failed to extract file name from URL".to_owned()))?;
 
-        let save_path = tmp_path.join(file_name);
+        let save_path = download_dir.path().join(file_name);
         download_to_file(url, &save_path, auth, err)?;
 
         Self::try_from_local_archive(
-- 
2.43.0


From b0c6b83059a299cc4d3afa207072f8d160df0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 34/34] fix: read all members of a gzip compressed archive

A .tar.gz file may consist of several gzip members. Only the first one was
read, so the rest of the registry was silently missing.
---
 crates/weaver_common/src/vdir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/weaver_common/src/vdir.rs b/crates/weaver_common/src/vdir.rs
index d935ff3..a127b8d 100644
--- a/crates/weaver_common/src/vdir.rs
+++ b/crates/weaver_common/src/vdir.rs
@@ -878,7 +878,7 @@ impl VirtualDirectory {
         target_path: &Path,
         sub_folder: Option<&String>,
     ) -> Result<(), Error> {
-        let tar_file = flate2::read::GzDecoder::new(archive_file);
+        let tar_file = flate2::read::MultiGzDecoder::new(archive_file);
         let mut archive = tar::Archive::new(tar_file);
         let mut found = false;
 
-- 
2.43.0


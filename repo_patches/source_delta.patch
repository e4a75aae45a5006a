From eac478d5e3f69219a3b33db5689938e7f6789c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 01/20] fix: escape line feeds as \n in label values and help
 texts

The line feed was written as an escaped backslash followed by `n`, so
"a<LF>b" and "a\nb" rendered identically and neither parsed back.
---
 src/label.rs  | 2 +-
 src/metric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..2b9d668 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -100,7 +100,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
diff --git a/src/metric.rs b/src/metric.rs
index de10628..ca21bf5 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -332,7 +332,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
-- 
2.43.0


From e483e8643a190788ed577a9321d578ddf2024734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 02/20] fix: escape labels of bucket and quantile lines like
 any other label

They were written with Rust's Debug escaping (\t, \u{..}, ...), which is not
valid in the exposition format.
---
 src/aggregated_metrics.rs | 4 ++--
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..43b7b9c 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -216,7 +216,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
@@ -347,7 +347,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..10933de 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -131,7 +131,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..ff89fa4 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -169,7 +169,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From e919b643a7e37a446ad71af7c37ccdd1c0538da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 03/20] fix: do not index past the samples for the 1.0 quantile

Quantile 1.0 is accepted by the builder, but computing it panicked.
---
 src/aggregated_metrics.rs | 5 ++++-
 src/metrics/summary.rs    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 43b7b9c..7413a24 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,10 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(
+                    count - 1,
+                    (quantile.as_f64() * count as f64).floor() as usize,
+                );
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index ff89fa4..ed557c7 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,10 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(
+                    count - 1,
+                    (quantile.as_f64() * count as f64).floor() as usize,
+                );
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From dd77af1b8b5a0446b3c9fb0d0147eb6637f25075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 04/20] fix: do not wrap counters around when a huge amount is
 added

Amounts of 2^64 and more were saturated to u64::MAX and added to the integer
part: the counter gained the wrong amount, and the next increment or addition
wrapped it around.
---
 src/metrics/counter.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..bad4c34 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -238,6 +238,9 @@ struct Inner {
     value: Value,
 }
 
+/// The largest integer `n` such that `f64` represents all integers up to `n` (i.e., `2^53`).
+const MAX_EXACT_INTEGER: f64 = 9_007_199_254_740_992.0;
+
 #[derive(Debug)]
 struct Value {
     f64: AtomicF64,
@@ -263,10 +266,10 @@ impl Value {
 
     #[inline]
     fn add(&self, count: f64) {
-        let floor = count.floor() as u64;
-        let ceil = count.ceil() as u64;
-        if floor == ceil {
-            self.u64.add(floor);
+        // Only integers that `f64` represents exactly go to the integer part
+        // (larger ones would saturate the cast and wrap the integer around).
+        if count.fract() == 0.0 && count <= MAX_EXACT_INTEGER {
+            self.u64.add(count as u64);
         } else {
             self.f64.add(count);
         }
-- 
2.43.0


From 6fa8c9543ebf7eeb4995b3476f7d426776b2e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 05/20] fix: merge histogram buckets that have the same upper
 bound

A bound given twice (e.g., an explicit +Inf) resulted in duplicate bucket
lines, the counts of which disagreed.
---
 src/metrics/histogram.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 10933de..cd8949f 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -282,6 +282,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
-- 
2.43.0


From 0588793793875c48ae7b4a2ada4e37592f462280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 06/20] fix: aggregate histogram buckets by their exact upper
 bounds

Different bounds closer than f64::EPSILON were counted under the smallest of
them, and a bucket bounded by -Inf swallowed the buckets of other histograms.
---
 src/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..6508594 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -133,7 +133,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
 
         for buckets in &mut self.iters {
             let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            if upper_bound == min {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From 64bdd659b91ab4713dd73bfb5008e20a56622851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 07/20] fix: multiply instead of add in exponential buckets

The bounds were `start + factor^i`; exponential buckets begin at `start`, each
being `factor` times the previous one.
---
 src/metrics/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index cd8949f..bedf294 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -192,7 +192,7 @@ impl HistogramBuilder {
     /// Makes a builder with the specified exponential buckets.
     pub fn with_exponential_buckets(name: &str, start: f64, factor: f64, count: usize) -> Self {
         let mut this = Self::new(name);
-        for x in (0..count).map(|i| start + factor.powi(i as i32)) {
+        for x in (0..count).map(|i| start * factor.powi(i as i32)) {
             this.bucket(x);
         }
         this
-- 
2.43.0


From c3709515bcec9555c3368e8f00b56690875434f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 08/20] fix: report a quantile that was added twice only once

The text of the summary had two sample lines with the same labels.
---
 src/metrics/summary.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index ed557c7..3536b49 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -296,6 +296,7 @@ impl SummaryBuilder {
             .map(|quantile| track!(Quantile::new(*quantile)))
             .collect::<Result<Vec<_>>>())?;
         quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
+        quantiles.dedup();
         let inner = Inner {
             quantile_name,
             labels: Labels::new(labels),
-- 
2.43.0


From cf205f5f7b1b1382a76d1496acce4da7c824a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 09/20] fix: measure the window of summaries with the monotonic
 clock

With the system time, setting the clock forward emptied the window, and
setting it back kept expired samples (and all newer ones) in it.
---
 src/metrics/summary.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 3536b49..ba2648a 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 use std::fmt;
 use std::iter;
 use std::sync::{Arc, Mutex, Weak};
-use std::time::{Duration, Instant, SystemTime};
+use std::time::{Duration, Instant};
 
 use atomic::{AtomicF64, AtomicU64};
 use default_registry;
@@ -133,13 +133,13 @@ impl Summary {
 
     pub(crate) fn with_current_samples<F, T>(&self, f: F) -> T
     where
-        F: FnOnce(SystemTime, &mut VecDeque<(SystemTime, f64)>) -> T,
+        F: FnOnce(Instant, &mut VecDeque<(Instant, f64)>) -> T,
     {
-        let now = SystemTime::now();
+        let now = Instant::now();
         if let Ok(mut samples) = self.0.samples.lock() {
             while samples
                 .front()
-                .and_then(|s| now.duration_since(s.0).ok())
+                .and_then(|s| now.checked_duration_since(s.0))
                 .and_then(|d| if d > self.0.window { Some(()) } else { None })
                 .is_some()
             {
@@ -336,7 +336,7 @@ struct Inner {
     timestamp: Timestamp,
     window: Duration,
     quantiles: Vec<Quantile>,
-    samples: Mutex<VecDeque<(SystemTime, f64)>>,
+    samples: Mutex<VecDeque<(Instant, f64)>>,
     count: AtomicU64,
     sum: AtomicF64,
 }
-- 
2.43.0


From f161c2f5bb0b356c19d6de80d67257694a906ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 10/20] fix: end in-progress tracking also if the tracked
 function panics

The gauge stayed incremented forever.
---
 src/metrics/gauge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metrics/gauge.rs b/src/metrics/gauge.rs
index 291f5cf..734fb1a 100644
--- a/src/metrics/gauge.rs
+++ b/src/metrics/gauge.rs
@@ -116,10 +116,16 @@ impl Gauge {
     where
         F: FnOnce() -> T,
     {
+        struct Guard<'a>(&'a Gauge);
+        impl<'a> Drop for Guard<'a> {
+            fn drop(&mut self) {
+                self.0.decrement();
+            }
+        }
+
         self.increment();
-        let result = f();
-        self.decrement();
-        result
+        let _guard = Guard(self);
+        f()
     }
 
     /// Measures the exeuction time of `f` and sets this gauge to its duration in seconds.
-- 
2.43.0


From 83cb1e1186af44bbc75dbb100d80ea7153450ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 11/20] fix: write the count of a histogram consistently with
 its buckets

The count was read again after the buckets had been written, so it differed
from the +Inf bucket if a value was observed in between.
---
 src/aggregated_metrics.rs | 8 ++++++--
 src/metrics/histogram.rs  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 7413a24..4cb7139 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -208,7 +208,11 @@ impl fmt::Display for AggregatedHistogram {
             "".to_string()
         };
 
+        // The count has to be consistent with the buckets written here,
+        // even if values are being observed concurrently.
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -218,7 +222,7 @@ impl fmt::Display for AggregatedHistogram {
             for label in self.labels().iter() {
                 write!(f, ",{}", label)?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -233,7 +237,7 @@ impl fmt::Display for AggregatedHistogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index bedf294..c6d2800 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -123,7 +123,11 @@ impl fmt::Display for Histogram {
             "".to_string()
         };
 
+        // The count has to be consistent with the buckets written here,
+        // even if values are being observed concurrently.
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
+            count = bucket.cumulative_count();
             write!(
                 f,
                 "{}_bucket{{le=\"{}\"",
@@ -133,7 +137,7 @@ impl fmt::Display for Histogram {
             for label in self.labels().iter() {
                 write!(f, ",{}", label)?;
             }
-            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            writeln!(f, "}} {}{}", count, timestamp)?;
         }
         writeln!(
             f,
@@ -148,7 +152,7 @@ impl fmt::Display for Histogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
-- 
2.43.0


From 39b935293983fbc9a49b15d4d918679fe6105391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 12/20] fix: do not lose labels that are inserted or removed
 concurrently

The compare-and-swap of `AtomicImmut::update` is subject to the ABA problem:
with several writers, changes of other writers were overwritten.
---
 src/label.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 2b9d668..49e12fe 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -8,6 +8,7 @@ use atomic_immut::AtomicImmut;
 use std;
 use std::fmt;
 use std::ops::Deref;
+use std::sync::{Mutex, MutexGuard};
 
 use {ErrorKind, Result};
 
@@ -111,7 +112,7 @@ impl fmt::Display for Label {
 
 /// A map of labels (i.e., key-value pairs).
 #[derive(Debug)]
-pub struct Labels(AtomicImmut<Vec<Label>>);
+pub struct Labels(AtomicImmut<Vec<Label>>, Mutex<()>);
 impl Labels {
     /// Returns the number of labels contained in this map.
     pub fn len(&self) -> usize {
@@ -136,7 +137,15 @@ impl Labels {
     }
 
     pub(crate) fn new(labels: Vec<Label>) -> Self {
-        Labels(AtomicImmut::new(labels))
+        Labels(AtomicImmut::new(labels), Mutex::new(()))
+    }
+
+    /// Excludes other writers.
+    ///
+    /// `AtomicImmut::update` detects conflicts by comparing addresses, and the address of
+    /// a replaced value may already have been reused for a newer one (i.e., the ABA problem).
+    fn lock_for_update(&self) -> MutexGuard<()> {
+        self.1.lock().unwrap_or_else(|e| e.into_inner())
     }
 }
 impl fmt::Display for Labels {
@@ -168,6 +177,7 @@ impl<'a> LabelsMut<'a> {
             ErrorKind::InvalidInput
         );
         let label = track!(Label::new(name, value))?;
+        let _guard = self.inner.lock_for_update();
         self.inner.0.update(move |labels| {
             let mut labels = labels.clone();
             labels.retain(|l| l.name != label.name);
@@ -180,6 +190,7 @@ impl<'a> LabelsMut<'a> {
 
     /// Removes the label which has the name `name` if it exists.
     pub fn remove(&mut self, name: &str) {
+        let _guard = self.inner.lock_for_update();
         self.inner
             .0
             .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
@@ -187,6 +198,7 @@ impl<'a> LabelsMut<'a> {
 
     /// Clears the all labels.
     pub fn clear(&mut self) {
+        let _guard = self.inner.lock_for_update();
         self.inner.0.store(Vec::new());
     }
 
-- 
2.43.0


From 6c853296f5035a21bd1da56f85ab0801c7f75e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 13/20] fix: capture the labels of metrics once per gather

If labels were changed by another thread while gathering, the sort could panic
(inconsistent comparisons) or metrics with the same labels were left unmerged,
and a gathered result changed its labels afterwards.
---
 src/aggregated_metrics.rs | 20 ++++++++++++++++----
 src/label.rs              |  8 ++++++++
 src/metric.rs             | 37 +++++++++++++++++++++----------------
 src/registry.rs           | 18 ++++++++++++------
 4 files changed, 57 insertions(+), 26 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 4cb7139..decb7a1 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -12,6 +12,7 @@ use timestamp::Timestamp;
 #[derive(Debug, Clone)]
 pub struct AggregatedCounter {
     inner: Counter,
+    labels: Labels,
     timestamp: Option<i64>,
     value: f64,
 }
@@ -23,7 +24,7 @@ impl AggregatedCounter {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inner.labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the counters in this aggregation.
@@ -39,8 +40,10 @@ impl AggregatedCounter {
     pub(crate) fn new(counter: Counter) -> Self {
         let value = counter.value();
         let timestamp = counter.timestamp().get();
+        let labels = counter.labels().clone();
         AggregatedCounter {
             inner: counter,
+            labels,
             timestamp,
             value,
         }
@@ -76,6 +79,7 @@ impl fmt::Display for AggregatedCounter {
 #[derive(Debug, Clone)]
 pub struct AggregatedGauge {
     inner: Gauge,
+    labels: Labels,
     timestamp: Option<i64>,
     value: f64,
 }
@@ -87,7 +91,7 @@ impl AggregatedGauge {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inner.labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the counters in this aggregation.
@@ -103,8 +107,10 @@ impl AggregatedGauge {
     pub(crate) fn new(gauge: Gauge) -> Self {
         let value = gauge.value();
         let timestamp = gauge.timestamp().get();
+        let labels = gauge.labels().clone();
         AggregatedGauge {
             inner: gauge,
+            labels,
             timestamp,
             value,
         }
@@ -140,6 +146,7 @@ impl fmt::Display for AggregatedGauge {
 #[derive(Debug, Clone)]
 pub struct AggregatedHistogram {
     inners: Vec<Histogram>,
+    labels: Labels,
 }
 impl AggregatedHistogram {
     /// Returns the name of this metric.
@@ -149,7 +156,7 @@ impl AggregatedHistogram {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inners[0].labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the histograms in this aggregation.
@@ -179,8 +186,10 @@ impl AggregatedHistogram {
     }
 
     pub(crate) fn new(histogram: Histogram) -> Self {
+        let labels = histogram.labels().clone();
         AggregatedHistogram {
             inners: vec![histogram],
+            labels,
         }
     }
 
@@ -248,6 +257,7 @@ impl fmt::Display for AggregatedHistogram {
 #[derive(Debug, Clone)]
 pub struct AggregatedSummary {
     inners: Vec<Summary>,
+    labels: Labels,
 }
 impl AggregatedSummary {
     /// Returns the name of this metric.
@@ -257,7 +267,7 @@ impl AggregatedSummary {
 
     /// Returns the labels of this metric.
     pub fn labels(&self) -> &Labels {
-        self.inners[0].labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the summaries in this aggregation.
@@ -317,8 +327,10 @@ impl AggregatedSummary {
     }
 
     pub(crate) fn new(summary: Summary) -> Self {
+        let labels = summary.labels().clone();
         AggregatedSummary {
             inners: vec![summary],
+            labels,
         }
     }
 
diff --git a/src/label.rs b/src/label.rs
index 49e12fe..e623910 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -148,6 +148,14 @@ impl Labels {
         self.1.lock().unwrap_or_else(|e| e.into_inner())
     }
 }
+impl Clone for Labels {
+    /// Makes a copy of the current labels.
+    ///
+    /// Later changes of the labels do not affect the copy (and vice versa).
+    fn clone(&self) -> Self {
+        Labels::new(Vec::clone(&self.0.load()))
+    }
+}
 impl fmt::Display for Labels {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{{")?;
diff --git a/src/metric.rs b/src/metric.rs
index ca21bf5..5d47920 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -283,43 +283,48 @@ impl MetricFamily {
             },
         }
     }
-    pub(crate) fn same_family(&self, metric: &Metric) -> bool {
-        (self.name(), self.kind()) == (metric.name(), metric.kind())
+    pub(crate) fn same_family(&self, other: &Self) -> bool {
+        (self.name(), self.kind()) == (other.name(), other.kind())
     }
-    pub(crate) fn push(&mut self, metric: Metric) {
-        match metric {
-            Metric::Counter(m) => {
-                if let Metrics::Counter(ref mut v) = self.metrics {
-                    let m = AggregatedCounter::new(m);
+    pub(crate) fn first_labels(&self) -> Option<&Labels> {
+        match self.metrics {
+            Metrics::Counter(ref v) => v.first().map(|m| m.labels()),
+            Metrics::Gauge(ref v) => v.first().map(|m| m.labels()),
+            Metrics::Summary(ref v) => v.first().map(|m| m.labels()),
+            Metrics::Histogram(ref v) => v.first().map(|m| m.labels()),
+        }
+    }
+    pub(crate) fn merge(&mut self, other: Self) {
+        match (&mut self.metrics, other.metrics) {
+            (&mut Metrics::Counter(ref mut v), Metrics::Counter(metrics)) => {
+                for m in metrics {
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
                 }
             }
-            Metric::Gauge(m) => {
-                if let Metrics::Gauge(ref mut v) = self.metrics {
-                    let m = AggregatedGauge::new(m);
+            (&mut Metrics::Gauge(ref mut v), Metrics::Gauge(metrics)) => {
+                for m in metrics {
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
                 }
             }
-            Metric::Summary(m) => {
-                if let Metrics::Summary(ref mut v) = self.metrics {
-                    let m = AggregatedSummary::new(m);
+            (&mut Metrics::Summary(ref mut v), Metrics::Summary(metrics)) => {
+                for m in metrics {
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
                 }
             }
-            Metric::Histogram(m) => {
-                if let Metrics::Histogram(ref mut v) = self.metrics {
-                    let m = AggregatedHistogram::new(m);
+            (&mut Metrics::Histogram(ref mut v), Metrics::Histogram(metrics)) => {
+                for m in metrics {
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
                 }
             }
+            _ => {}
         }
     }
 }
diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..bb08d8a 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -104,21 +104,27 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
+
+        // This captures the labels of the metrics, which may be changed by other threads
+        // at any time, before they are compared.
+        let mut singles: Vec<_> = metrics.into_iter().map(MetricFamily::new).collect();
+        singles.sort_by(|a, b| {
             let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
             if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
+                let a = a.first_labels().into_iter().flat_map(|l| l.iter());
+                let b = b.first_labels().into_iter().flat_map(|l| l.iter());
+                a.cmp(b)
             } else {
                 result
             }
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-        for metric in metrics {
-            if !families.last().map_or(false, |f| f.same_family(&metric)) {
-                families.push(MetricFamily::new(metric));
+        for family in singles {
+            if !families.last().map_or(false, |f| f.same_family(&family)) {
+                families.push(family);
             } else {
-                families.last_mut().unwrap().push(metric);
+                families.last_mut().unwrap().merge(family);
             }
         }
         MetricFamilies(families)
-- 
2.43.0


From 4aabb3e9a84fadc33366a1e24d84593f316249dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 14/20] fix: compare metric names as a whole

Metrics whose names are equal but were divided differently into namespace,
subsystem and name were gathered as separate families of the same name, with
repeated TYPE lines and sample lines.
---
 src/metric.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index 5d47920..4262b17 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -1,6 +1,9 @@
 //! Metric.
 use std;
+use std::cmp;
 use std::fmt;
+use std::hash::{Hash, Hasher};
+use std::iter;
 
 pub use aggregated_metrics::{
     AggregatedCounter, AggregatedGauge, AggregatedHistogram, AggregatedSummary,
@@ -84,7 +87,9 @@ impl From<Summary> for Metric {
 ///
 /// - [Metric name and labels](https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels)
 /// - [Metric names](https://prometheus.io/docs/instrumenting/writing_clientlibs/#metric-names)
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+///
+/// Names are compared as a whole, i.e., regardless of how they are divided into the parts.
+#[derive(Debug, Clone)]
 pub struct MetricName {
     namespace: Option<String>,
     subsystem: Option<String>,
@@ -140,6 +145,38 @@ impl MetricName {
         }
         Ok(())
     }
+    fn bytes<'a>(&'a self) -> Box<dyn Iterator<Item = u8> + 'a> {
+        let prefixes = self.namespace.iter().chain(self.subsystem.iter());
+        Box::new(
+            prefixes
+                .flat_map(|s| s.bytes().chain(iter::once(b'_')))
+                .chain(self.name.bytes()),
+        )
+    }
+}
+impl PartialEq for MetricName {
+    fn eq(&self, other: &Self) -> bool {
+        self.bytes().eq(other.bytes())
+    }
+}
+impl Eq for MetricName {}
+impl PartialOrd for MetricName {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for MetricName {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        self.bytes().cmp(other.bytes())
+    }
+}
+impl Hash for MetricName {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        for b in self.bytes() {
+            state.write_u8(b);
+        }
+        state.write_u8(0xff);
+    }
 }
 impl fmt::Display for MetricName {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From 527d3ca6605594dee065b3571b394323a93e521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 15/20] fix: keep the default registry connected after a panic

Once a thread had panicked while holding the default gatherer (e.g., in a
collector), default registries silently dropped everything registered.
---
 src/registry.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index bb08d8a..5982912 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -17,12 +17,9 @@ pub fn default_gatherer() -> &'static Mutex<Gatherer> {
 
 /// Returns the global default `Registry`.
 pub fn default_registry() -> Registry {
-    if let Ok(gatherer) = default_gatherer().lock() {
-        gatherer.registry()
-    } else {
-        let (tx, _) = mpsc::channel();
-        Registry { tx }
-    }
+    // The gatherer is usable even if a collector has panicked while it was locked.
+    let gatherer = default_gatherer().lock().unwrap_or_else(|e| e.into_inner());
+    gatherer.registry()
 }
 
 /// Collector registry.
-- 
2.43.0


From 534a10fde16660c29b4e66ff9ecc18d54b74b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 16/20] fix: report the number of open file descriptors

open_fds was the number of allocated descriptor slots (FDSize), and is missing
altogether with kernels whose /proc/self/status procinfo fails to parse.
---
 src/metrics/process.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 9ae6d87..69e74a3 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -2,6 +2,8 @@
 use libc;
 #[cfg(target_os = "linux")]
 use procinfo;
+#[cfg(target_os = "linux")]
+use std::fs;
 use std::time::SystemTime;
 #[cfg(target_os = "linux")]
 use std::time::UNIX_EPOCH;
@@ -68,8 +70,9 @@ impl Collect for ProcessMetricsCollector {
                 metrics.push(gauge("max_fds", fds as f64));
             }
         }
-        if let Ok(status) = procinfo::pid::status_self() {
-            metrics.push(gauge("open_fds", f64::from(status.fd_allocated)));
+        if let Ok(fds) = fs::read_dir("/proc/self/fd") {
+            // Excludes the descriptor used for reading the directory.
+            metrics.push(gauge("open_fds", fds.count().saturating_sub(1) as f64));
         }
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
-- 
2.43.0


From e16846ca0103ee7b2a47b0bb5fc1f9eefede04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 17/20] fix: report the start time of the process

start_time_seconds was the time at which the collector had been created.
---
 src/metrics/process.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 69e74a3..22cc64f 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -18,6 +18,7 @@ use Collect;
 lazy_static! {
     static ref CLK_TCK: f64 = { unsafe { libc::sysconf(libc::_SC_CLK_TCK) as f64 } };
     static ref PAGESIZE: usize = { unsafe { libc::sysconf(libc::_SC_PAGESIZE) as usize } };
+    static ref BOOT_TIME: Option<f64> = boot_time_seconds();
 }
 
 /// Process metrics collector.
@@ -79,7 +80,12 @@ impl Collect for ProcessMetricsCollector {
                 "cpu_seconds_total",
                 (stat.utime + stat.stime) as f64 / *CLK_TCK,
             ));
-            if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
+            if let Some(boot_time) = *BOOT_TIME {
+                metrics.push(gauge(
+                    "start_time_seconds",
+                    boot_time + stat.start_time as f64 / *CLK_TCK,
+                ));
+            } else if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
                 metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
             }
             metrics.push(gauge("threads_total", f64::from(stat.num_threads)));
@@ -98,6 +104,14 @@ impl Collect for ProcessMetricsCollector {
     }
 }
 
+/// Returns the unixtime at which the system was booted.
+#[cfg(target_os = "linux")]
+fn boot_time_seconds() -> Option<f64> {
+    let stat = fs::read_to_string("/proc/stat").ok()?;
+    let line = stat.lines().find(|l| l.starts_with("btime "))?;
+    line["btime ".len()..].trim().parse().ok()
+}
+
 #[cfg(target_os = "linux")]
 fn counter(name: &str, value: f64) -> Metric {
     let counter = CounterBuilder::new(name)
-- 
2.43.0


From 641dabfe1f18a4f262d84768ec2b80a520a561b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 18/20] fix: write all lines of a histogram or summary with the
 same labels

---
 src/metrics/histogram.rs | 8 +++++---
 src/metrics/summary.rs   | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index c6d2800..f4e205a 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -112,8 +112,10 @@ impl Histogram {
 }
 impl fmt::Display for Histogram {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let labels = if !self.labels().is_empty() {
-            self.labels().to_string()
+        // The labels may be changed by other threads at any time.
+        let current_labels = self.labels().clone();
+        let labels = if !current_labels.is_empty() {
+            current_labels.to_string()
         } else {
             "".to_string()
         };
@@ -134,7 +136,7 @@ impl fmt::Display for Histogram {
                 self.metric_name(),
                 MetricValue(bucket.upper_bound())
             )?;
-            for label in self.labels().iter() {
+            for label in current_labels.iter() {
                 write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", count, timestamp)?;
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index ba2648a..1692b6d 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -153,8 +153,10 @@ impl Summary {
 }
 impl fmt::Display for Summary {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let labels = if !self.labels().is_empty() {
-            self.labels().to_string()
+        // The labels may be changed by other threads at any time.
+        let current_labels = self.labels().clone();
+        let labels = if !current_labels.is_empty() {
+            current_labels.to_string()
         } else {
             "".to_string()
         };
@@ -171,7 +173,7 @@ impl fmt::Display for Summary {
                 self.metric_name(),
                 quantile.as_f64()
             )?;
-            for label in self.labels().iter() {
+            for label in current_labels.iter() {
                 write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
-- 
2.43.0


From 2c36629d804402ec60d5aa9b38bad8470af46579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 19/20] fix: never report the creation of the collector as the
 start of the process

---
 src/metrics/process.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 22cc64f..a0dedbd 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -3,12 +3,13 @@ use libc;
 #[cfg(target_os = "linux")]
 use procinfo;
 #[cfg(target_os = "linux")]
-use std::fs;
-use std::time::SystemTime;
+use std;
 #[cfg(target_os = "linux")]
-use std::time::UNIX_EPOCH;
+use std::fs;
 use std::vec;
 
+#[cfg(target_os = "linux")]
+use atomic::AtomicF64;
 use metric::Metric;
 #[cfg(target_os = "linux")]
 use metrics::{CounterBuilder, GaugeBuilder};
@@ -18,7 +19,7 @@ use Collect;
 lazy_static! {
     static ref CLK_TCK: f64 = { unsafe { libc::sysconf(libc::_SC_CLK_TCK) as f64 } };
     static ref PAGESIZE: usize = { unsafe { libc::sysconf(libc::_SC_PAGESIZE) as usize } };
-    static ref BOOT_TIME: Option<f64> = boot_time_seconds();
+    static ref BOOT_TIME: AtomicF64 = AtomicF64::new(std::f64::NAN); // `NaN` means "not read yet"
 }
 
 /// Process metrics collector.
@@ -45,14 +46,12 @@ lazy_static! {
 /// ```
 #[derive(Debug)]
 pub struct ProcessMetricsCollector {
-    start_time: SystemTime,
+    _private: (),
 }
 impl ProcessMetricsCollector {
     /// Makes a new `ProcessMetricsCollector` instance.
     pub fn new() -> Self {
-        ProcessMetricsCollector {
-            start_time: SystemTime::now(),
-        }
+        ProcessMetricsCollector { _private: () }
     }
 }
 impl Default for ProcessMetricsCollector {
@@ -80,13 +79,11 @@ impl Collect for ProcessMetricsCollector {
                 "cpu_seconds_total",
                 (stat.utime + stat.stime) as f64 / *CLK_TCK,
             ));
-            if let Some(boot_time) = *BOOT_TIME {
+            if let Some(boot_time) = boot_time_seconds() {
                 metrics.push(gauge(
                     "start_time_seconds",
                     boot_time + stat.start_time as f64 / *CLK_TCK,
                 ));
-            } else if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
-                metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
             }
             metrics.push(gauge("threads_total", f64::from(stat.num_threads)));
             metrics.push(gauge("virtual_memory_bytes", stat.vsize as f64));
@@ -105,8 +102,19 @@ impl Collect for ProcessMetricsCollector {
 }
 
 /// Returns the unixtime at which the system was booted.
+///
+/// It will be tried again if it is unreadable at the moment (e.g., for want of a file descriptor).
 #[cfg(target_os = "linux")]
 fn boot_time_seconds() -> Option<f64> {
+    if BOOT_TIME.get().is_nan() {
+        let boot_time = read_boot_time_seconds()?;
+        BOOT_TIME.update(|old| if old.is_nan() { boot_time } else { old });
+    }
+    Some(BOOT_TIME.get())
+}
+
+#[cfg(target_os = "linux")]
+fn read_boot_time_seconds() -> Option<f64> {
     let stat = fs::read_to_string("/proc/stat").ok()?;
     let line = stat.lines().find(|l| l.starts_with("btime "))?;
     line["btime ".len()..].trim().parse().ok()
-- 
2.43.0


From 2e84f20bce74c3906ae83fdc674a2aaefb3dc1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:40 +0000
Subject: [PATCH 20/20] fix: keep counters from wrapping around at 2^64

---
 src/atomic.rs          | 7 +++++++
 src/metrics/counter.rs | 9 ++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/atomic.rs b/src/atomic.rs
index d6a08f3..f821f3f 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -23,6 +23,13 @@ impl AtomicU64 {
         self.0.fetch_add(v, Relaxed);
     }
 
+    /// Adds `v` and returns `true`, or does nothing and returns `false` if the sum would overflow.
+    pub fn checked_add(&self, v: u64) -> bool {
+        self.0
+            .fetch_update(Relaxed, Relaxed, |old| old.checked_add(v))
+            .is_ok()
+    }
+
     pub fn update<F>(&self, f: F)
     where
         F: Fn(u64) -> u64,
diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index bad4c34..28c6137 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -261,7 +261,7 @@ impl Value {
 
     #[inline]
     fn increment(&self) {
-        self.u64.inc();
+        self.add_u64(1);
     }
 
     #[inline]
@@ -269,7 +269,7 @@ impl Value {
         // Only integers that `f64` represents exactly go to the integer part
         // (larger ones would saturate the cast and wrap the integer around).
         if count.fract() == 0.0 && count <= MAX_EXACT_INTEGER {
-            self.u64.add(count as u64);
+            self.add_u64(count as u64);
         } else {
             self.f64.add(count);
         }
@@ -277,7 +277,10 @@ impl Value {
 
     #[inline]
     fn add_u64(&self, count: u64) {
-        self.u64.add(count);
+        // The value must never go down, so the integer part must not wrap around.
+        if !self.u64.checked_add(count) {
+            self.f64.add(count as f64);
+        }
     }
 }
 
-- 
2.43.0


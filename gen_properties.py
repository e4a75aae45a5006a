#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A counter equals the sum of everything added to it",
  "Once all operations have returned, a counter's value equals the sum of all accepted amounts (each increment counts 1, each add its amount, integral or fractional, tiny, huge or infinite), no matter how many threads and clones the operations were spread over. Whole amounts up to 2^53 lose nothing however large the sum: while only such amounts are added and their total is below 2^64, the value is the f64 nearest to it. Clones of a counter share one value; separately built counters never influence each other.",
  ["schedules", "histories", "inputs"], "every interleaving of increment/add/add_u64 over any threads and clones, every amount >= 0",
  "The one unit test is single-threaded and adds four small numbers; lost updates need two threads in a read-modify-write window, and the integral/fractional/huge routes need special amounts.",
  ["src/metrics/counter.rs", "src/atomic.rs"],
  [("integral amounts go to an atomic u64, others to a CAS loop over f64 bits", "src/metrics/counter.rs Value::add"), ("AtomicF64::update", "src/atomic.rs")],
  [("Value", "split integer and float parts of one counter", "src/metrics/counter.rs")], ["Counter::value"])

p("C02", "A counter never goes down and rejects what would lower it",
  "Successive reads of a counter never decrease, whichever thread makes them, and every read lies between the sum of the additions completed before it and the sum of those started before it ended. Adding a negative or NaN amount returns an InvalidInput error and leaves the value unchanged; every other amount is accepted.",
  ["schedules", "histories", "inputs"], "every history of adds, rejected adds and reads on any threads; every f64 amount",
  "No test reads a counter while it is written, or tries a negative, NaN, infinite or >= 2^53 amount.",
  ["src/metrics/counter.rs", "src/atomic.rs"],
  [("track_assert count >= 0", "src/metrics/counter.rs Counter::add"), ("both parts only grow", "src/metrics/counter.rs Value")],
  (), ["Counter::value", "Counter::add"])

p("C03", "Gauge operations are atomic and follow f64 arithmetic",
  "A gauge starts at its configured initial value, and set, add, subtract, increment, decrement and read on it (through any clones and threads) behave as if each took effect at one instant between its call and its return, computing with ordinary f64 arithmetic. No update is lost and no value is read that such an order does not produce.",
  ["schedules", "histories", "inputs"], "every concurrent history of gauge operations; every f64 operand",
  "The unit test sets once and reads once; atomicity of a mixed set/add history needs concurrent histories and a linearizability checker.",
  ["src/metrics/gauge.rs", "src/atomic.rs"],
  [("CAS loop AtomicF64::update", "src/atomic.rs"), ("Gauge::add/set", "src/metrics/gauge.rs")], (), ["Gauge::value"])

p("C04", "Histogram buckets account for every observation exactly",
  "Once all observations have returned, for every bucket the cumulative count equals the number of observed values less than or equal to its upper bound, the per-bucket counts add up to the total count, the total count equals the number of observations, and the sum equals the sum of the observed values. This holds for every non-NaN value (bounds themselves, their neighbours, signed zeros, infinities), any bucket layout, and observations made concurrently through clones; an attempt to observe NaN records nothing at all.",
  ["inputs", "schedules", "histories"], "all bucket layouts, all f64 observations (NaN is refused), all interleavings of observers",
  "The tests observe six hand-picked values from one thread; boundary values, infinities, dense layouts and concurrent observers are untested.",
  ["src/metrics/histogram.rs", "src/bucket.rs", "src/atomic.rs"],
  [("binary search for the first bound >= value", "src/metrics/histogram.rs Histogram::observe"), ("running sum", "src/bucket.rs CumulativeBuckets")],
  (), ["Histogram::buckets", "Histogram::cumulative_buckets", "Histogram::count", "Histogram::sum"])

p("C05", "A histogram has exactly the configured bounds, sorted, plus +Inf",
  "Whatever bounds are configured and in whatever order or multiplicity, a built histogram's buckets have strictly increasing upper bounds, consisting of exactly the distinct configured bounds plus +Inf as the last. Linear buckets are start + i*width and exponential buckets are start * factor^i for i < count; a NaN bound makes the build fail with InvalidInput.",
  ["inputs", "configurations"], "all sequences of bounds (unsorted, duplicated, infinite, NaN) and all builder constructors",
  "Tests use two sorted, duplicate-free layouts and never use exponential buckets, duplicates, infinities or NaN.",
  ["src/metrics/histogram.rs", "src/bucket.rs"],
  [("validation, sort and de-duplication in finish", "src/metrics/histogram.rs HistogramBuilder::finish"), ("with_linear_buckets / with_exponential_buckets", "src/metrics/histogram.rs")],
  (), ["Histogram::buckets", "HistogramBuilder::finish"])

p("C06", "Exposed histograms are self-consistent even while being observed",
  "In every rendering of a histogram or of an aggregation of histograms as text, also while other threads are observing, the bucket lines have strictly increasing le bounds and non-decreasing counts, end with +Inf, and the _count line equals the +Inf bucket. Successive renderings by one reader never show any of these counts going down, and include every observation completed before the rendering began.",
  ["schedules", "histories"], "every interleaving of observers with renderers",
  "Tests render only quiescent histograms; a torn rendering needs an observation between two reads inside one rendering.",
  ["src/metrics/histogram.rs", "src/aggregated_metrics.rs", "src/bucket.rs"],
  [("count line taken from the last cumulative bucket", "Display for Histogram / AggregatedHistogram")], (), ["Histogram Display", "MetricFamilies::to_text"])

p("C07", "Summary quantiles are rank-accurate for every quantile in [0,1]",
  "For every configured quantile q (all of 0 through 1 inclusive, each reported once, in ascending order), the reported value is one of the non-NaN observations currently in the window, at least q*n of the n observations are less than or equal to it and at most q*n are strictly less. With no such observation nothing is reported; computing quantiles never fails or alters the summary, and a quantile outside [0,1] (or NaN) makes the build fail with InvalidInput.",
  ["inputs", "configurations"], "all observation multisets (duplicates, infinities, NaN, any size) and all quantile sets",
  "The unit test has five distinct samples and three interior quantiles; the ends 0 and 1, duplicates, NaN and other sizes are not sampled.",
  ["src/metrics/summary.rs", "src/aggregated_metrics.rs", "src/quantile.rs"],
  [("sort and index by floor(q*n), clamped", "src/metrics/summary.rs Summary::quantiles"), ("Quantile::new range check", "src/quantile.rs")],
  (), ["Summary::quantiles", "Summary Display"])

p("C08", "A summary's window slides with elapsed time; its totals never expire",
  "Quantiles are computed from exactly the observations made no more than one window length of elapsed time ago (older ones never contribute), unaffected by adjustments of the system's wall clock in either direction. The count and sum cover every observation ever made and never expire, and memory held stays proportional to the most observations any one window contained.",
  ["histories", "fault_sequences", "configurations"], "all sequences of observations, queries, time advances and wall-clock steps; all window lengths",
  "The unit test never lets time pass; expiry needs controlled time and clock steps, which tests cannot produce without a virtual clock.",
  ["src/metrics/summary.rs"],
  [("expire from the front of a time-ordered queue before each access", "src/metrics/summary.rs Summary::with_current_samples")],
  [("samples", "queue of (time, value)", "src/metrics/summary.rs Inner")], ["Summary::quantiles", "Summary::count", "Summary::sum"])

p("C09", "Concurrent summary observations are each recorded exactly once",
  "When observations made by any number of threads and clones have returned, the count equals their number, the sum equals their sum, and the set of values the quantiles are computed from contains each of them exactly once. A concurrent reader of quantiles only ever sees values actually observed, and never fewer than the observations completed before it started.",
  ["schedules", "histories"], "every interleaving of observers and quantile readers on one summary",
  "The unit test is single-threaded; lost or duplicated samples need concurrent observers and a readout of the whole sample multiset.",
  ["src/metrics/summary.rs", "src/atomic.rs"],
  [("samples behind a mutex, count and sum atomic", "src/metrics/summary.rs Summary::observe")], (), ["Summary::quantiles", "Summary::count", "Summary::sum"])

p("C10", "Gathering merges same-named counters and gauges with equal labels",
  "In a gather result, all registered counters (respectively gauges) with the same full name and the same label set appear as one metric whose value is the sum of theirs at that gather and whose timestamp is the latest of theirs (none if none has one). Metrics that differ in full name, kind or label set are never merged, and every registered live metric is included in exactly one merged metric.",
  ["inputs", "configurations", "histories"], "all sets of registered counters and gauges, in any registration order, with any names, labels, values and timestamps",
  "One test merges two counters and two gauges; it does not vary label sets, orders, timestamps, the number of metrics or the way the name is split into parts.",
  ["src/registry.rs", "src/metric.rs", "src/aggregated_metrics.rs"],
  [("sort by name, kind, labels, then merge neighbours", "src/registry.rs Gatherer::gather"), ("try_merge", "src/aggregated_metrics.rs")],
  (), ["MetricFamilies", "AggregatedCounter", "AggregatedGauge"])

p("C11", "Aggregated histograms and summaries equal the pooled observations",
  "Histograms (respectively summaries) with the same full name and labels are gathered as one whose count and sum are the totals of theirs and whose timestamp is the latest. An aggregated histogram has one cumulative bucket per distinct bound of its members, in increasing order ending with +Inf, each counting all observations recorded in member buckets with bounds less than or equal to it; an aggregated summary reports every member's quantiles once each, rank-accurate over the pooled in-window observations.",
  ["inputs", "configurations"], "all collections of histograms/summaries with arbitrary (also very close, infinite, disjoint) bounds, quantiles, windows and observations",
  "One test merges two histograms with bounds 5 and 10; nothing merges summaries, close or infinite bounds, or three or more members.",
  ["src/bucket.rs", "src/aggregated_metrics.rs", "src/registry.rs"],
  [("k-way merge of bucket lists", "src/bucket.rs AggregatedCumulativeBuckets"), ("pooled samples and united quantiles", "src/aggregated_metrics.rs AggregatedSummary::quantiles")],
  (), ["AggregatedHistogram", "AggregatedSummary"])

p("C12", "The text output is valid exposition format and loses nothing",
  "For any metric names, label values, help texts (arbitrary Unicode, quotes, backslashes, newlines, control characters), values (including NaN and infinities) and timestamps, the text of a metric, a family or a whole gather result parses under the Prometheus text exposition format, and parsing returns exactly the names, types, help, labels, values and timestamps that were put in. Different contents never render to the same text line.",
  ["inputs"], "all Unicode strings for label values and help, all f64 values, all i64 timestamps, all four kinds",
  "Tests compare a few literal outputs with plain ASCII labels and small numbers; escaping and special values are never exercised.",
  ["src/label.rs", "src/metric.rs", "src/aggregated_metrics.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs"],
  [("label escaping", "src/label.rs Display for Label"), ("help escaping, TYPE lines", "src/metric.rs Display for MetricFamily"), ("value formatting", "src/metric.rs MetricValue")],
  (), ["to_text", "to_string"])

p("C13", "One family per name and kind, one sample per label set, in any order",
  "A gather result contains each full metric name (the namespace, subsystem and name parts joined by underscores) and kind in exactly one family, and within a family each label set exactly once, however many metrics are registered, however their names are split into parts and in whatever order they were registered or labelled. Families and their metrics come in the same order for every registration order, and a family's help is one its members supplied.",
  ["inputs", "configurations"], "all multisets of registered metrics and all permutations of their registration",
  "One test registers at most four families in one order; sort and grouping errors need many metrics, equal joined names and permutations.",
  ["src/registry.rs", "src/metric.rs"],
  [("sort then group neighbours", "src/registry.rs Gatherer::gather"), ("name equality by full name", "src/metric.rs MetricName")],
  (), ["MetricFamilies::as_ref", "MetricFamilies::to_text"])

p("C14", "Each collector is polled once per gather until it returns None",
  "Every registered collector is asked exactly once per gather, all metrics it returns are included in that gather's result, and once it returns None it is released and never asked again. Collectors leaving, registering further collectors during a gather, or panicking never cause another collector to be skipped, asked twice or forgotten; registering with a registry whose gatherer is gone is harmless.",
  ["histories", "inputs"], "all sequences of registrations and gathers, all scripts of collector results (None, empty, many, panic, re-entrant registration)",
  "No test registers a custom collector that ever returns None; removal while iterating is exactly where skips occur.",
  ["src/registry.rs", "src/collect.rs"],
  [("drain channel, poll with removal", "src/registry.rs Gatherer::gather")],
  [("collectors", "registered collectors", "src/registry.rs Gatherer")], ["Collect::collect calls", "Drop of collectors"])

p("C15", "A completed registration is in every later gather of that gatherer only",
  "A metric whose registration (with any clone of a gatherer's registry, from any thread) returned before a gather began is included exactly once in that and every later gather while it is alive, also when registrations and gathers run concurrently. Gatherers are isolated from each other, a metric built with several registries appears in each, and all threads' default registry feeds the one default gatherer even after a panic while it was locked.",
  ["schedules", "histories"], "every interleaving of registering threads with gathers, over several gatherers and the default one",
  "Tests register and gather from one thread in sequence.",
  ["src/registry.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("mpsc channel from registries to the gatherer", "src/registry.rs"), ("global gatherer", "src/registry.rs default_gatherer / default_registry")],
  (), ["Gatherer::gather"])

p("C16", "Metrics are gathered while alive and vanish when dropped",
  "A registered metric appears in every gather as long as at least one handle to it (any clone, on any thread) exists, and in none that begins after the last handle and the last gather result mentioning it are gone. The gatherer never keeps a metric alive and after the following gather retains no memory for it; a metric never registered never appears.",
  ["histories", "schedules"], "all histories of creating, cloning, dropping and gathering across threads, for all four kinds",
  "No test drops a metric before gathering.",
  ["src/registry.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("collectors hold weak references", "src/metrics/*.rs *Collector"), ("None deregisters", "src/registry.rs")],
  (), ["Gatherer::gather", "allocator"])

p("C17", "Exactly the valid names are accepted, and a failed build has no effect",
  "Building a metric succeeds exactly if (besides the kind's own settings being valid) its name, and its namespace and subsystem if given, each match [a-zA-Z_:][a-zA-Z0-9_:]* and every label name matches [a-zA-Z_][a-zA-Z0-9_]* without a leading double underscore and is not the kind's reserved label (le for histograms, quantile for summaries); the same label rules govern labels created or inserted later. Otherwise the result is an InvalidInput error and nothing is registered or changed. An accepted name is reported and displayed as its given parts joined by underscores.",
  ["inputs"], "all Unicode strings in every name position, for every kind",
  "The doc-test tries three label names; metric names, other positions, non-ASCII text and effects of failed builds are untested.",
  ["src/metric.rs", "src/label.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("validate_name", "src/metric.rs MetricName, src/label.rs Label"), ("reserved label checks", "src/metrics/histogram.rs, src/metrics/summary.rs, src/label.rs LabelsMut::insert")],
  (), ["*Builder::finish", "Label::new", "LabelsMut::insert"])

p("C18", "Labels behave as a map from name to last inserted value",
  "The labels of a metric are, after any sequence of builder labels and later insert, remove and clear operations through any clone, exactly the map those operations define: each name once with the last value given, visited in name order, with len, is_empty, get and iteration agreeing. A rejected insert changes nothing, and changes show in every clone of the metric, in its text and in later gathers.",
  ["histories", "inputs"], "all sequences of label operations over all clones",
  "Tests insert at most one label; replacement, removal, ordering, clone sharing and rejected inserts are untested.",
  ["src/label.rs", "src/metrics/builder.rs"],
  [("copy-on-write sorted vector", "src/label.rs LabelsMut"), ("retain/push/sort", "*Builder::label")],
  (), ["Labels", "LabelsMut"])

p("C19", "Concurrent label changes are never lost, readers see whole label sets",
  "When several threads insert or remove labels on clones of one metric at the same time, the final label set is the one some ordering of those operations produces: no completed change is lost. A concurrent reader always sees one complete label set that existed at some moment during its read, and successive reads never go back in time.",
  ["schedules"], "every interleaving of label writers and readers on one metric",
  "No test changes labels from two threads.",
  ["src/label.rs"],
  [("atomic replacement of an immutable vector, writers serialised", "src/label.rs LabelsMut")], (), ["Labels::iter", "Labels Display"])

p("C20", "Gathering is safe and complete while labels change concurrently",
  "A gather that runs while other threads change metric labels completes without failing, contains every live registered metric exactly once under a label set it had during the gather, and still lists each label set only once per family. A finished gather result keeps the labels it was gathered with.",
  ["schedules"], "every interleaving of gathers with label changes, for any number of metrics",
  "No test mutates labels during a gather; the failure needs enough metrics for the sort to notice inconsistent comparisons.",
  ["src/registry.rs", "src/metric.rs", "src/aggregated_metrics.rs", "src/label.rs"],
  [("labels are captured once per metric before sorting", "src/registry.rs Gatherer::gather, src/aggregated_metrics.rs")], (), ["Gatherer::gather", "MetricFamilies::to_text"])

p("C21", "No use of the safe API causes undefined behaviour or a data race",
  "No sequence or interleaving of safe public operations (building, updating, labelling, iterating, gathering, rendering, cloning and dropping metrics on any threads) reads freed or uninitialised memory, races on memory, leaks unreachable memory or otherwise executes undefined behaviour.",
  ["schedules", "histories", "programs"], "all safe programs using the API",
  "The crate contains unsafe lifetime extension and depends on a hand-written atomic pointer; tests run without sanitizers, from one thread.",
  ["src/label.rs", "src/atomic.rs", "src/metrics/process.rs", "src/registry.rs"],
  [("Iter keeps an Arc to the vector it borrows from", "src/label.rs Labels::iter")], (), ["sanitizer and interpreter reports"])

p("C22", "Timing helpers run the code once and record exactly its duration",
  "time on a counter, gauge, histogram or summary runs the given closure exactly once, returns its result, and respectively adds, sets or observes (once) the elapsed time of that run in seconds, unaffected by wall-clock adjustments. set_to_current_time sets a gauge to the current Unix time in seconds, also before the epoch, and durations convert to seconds without loss beyond floating-point rounding.",
  ["inputs", "histories", "fault_sequences"], "all durations and current times, with wall-clock steps during the timed code",
  "No test calls time or set_to_current_time; exactness needs a controlled clock.",
  ["src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/timestamp.rs"],
  [("Instant based measurement", "src/metrics/*.rs time"), ("duration_to_seconds", "src/timestamp.rs")], (), ["*::time", "Gauge::set_to_current_time"])

p("C23", "In-progress tracking always returns the gauge to where it was",
  "While closures run under track_inprogress the gauge is raised by exactly one for each of them, nested or on any number of threads, and after each closure has finished, by returning or by panicking, its contribution is gone. The closure runs exactly once and its result or panic is passed on.",
  ["schedules", "fault_sequences", "histories"], "all nestings and interleavings of tracked closures, each returning or panicking",
  "The doc-test tracks one closure that returns.",
  ["src/metrics/gauge.rs"],
  [("increment before, decrement after (also on unwind)", "src/metrics/gauge.rs Gauge::track_inprogress")], (), ["Gauge::value"])

p("C24", "Timestamps read back as set and are exposed exactly when set",
  "A metric's timestamp is absent until set; after set it is the given milliseconds, after set_time the Unix time in milliseconds of the given moment (also before the epoch, within one millisecond), after set_now the current time, and after clear absent again, shared by all clones and never a mixture under concurrent writes; an attempt to set the reserved minimum changes nothing. Each sample line of a metric, and of its gathered form, carries the timestamp exactly when it is present.",
  ["inputs", "histories", "schedules"], "all i64 milliseconds (the reserved minimum is refused), all representable moments, all sequences and interleavings of set/clear/read",
  "No test touches timestamps.",
  ["src/timestamp.rs", "src/aggregated_metrics.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("atomic i64 with a reserved value for absent", "src/timestamp.rs Timestamp")], (), ["Timestamp::get", "to_text"])

p("C25", "Process metrics report what the kernel reports for this process",
  "Each gather of the process collector on Linux reports, for the process at that moment, its number of open file descriptors, file descriptor limit, thread count, virtual and resident memory in bytes, total user and system CPU seconds, and process start time as Unix time, each once, with the standard process_ name and kind. CPU seconds never decrease and the start time does not change over the life of the process. What the process cannot read at the moment (having no descriptor left) is left out of that gather, never wrong, and reported again later.",
  ["histories", "configurations"], "all process states: any number of descriptors, threads, mapped and resident pages, CPU use, limits and process names",
  "The doc-test only checks that gathering does not fail.",
  ["src/metrics/process.rs"],
  [("read /proc/self and convert units", "src/metrics/process.rs ProcessMetricsCollector::collect")], (), ["ProcessMetricsCollector::collect"])

p("C26", "Metrics from a common builder get exactly its settings",
  "A counter, gauge, histogram or summary obtained from a common metric builder has exactly the namespace, subsystem, labels and registries that builder had at that point (a later label of the same name replacing an earlier one), plus what is set on its own builder, as if built directly. An individual builder can be finished any number of times, each giving a fresh, separate metric of what was set so far. Building one metric never changes the common builder or any other metric.",
  ["configurations", "histories"], "all sequences of settings on the common and individual builders, all four kinds",
  "One test uses a builder with only a registry; namespaces, subsystems, labels, several registries and replacement are not exercised.",
  ["src/metrics/builder.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("settings copied per metric", "src/metrics/builder.rs MetricBuilder")], (), ["MetricBuilder", "Gatherer::gather"])

p("C27", "A gather result is a snapshot whose views all agree",
  "The names, help and labels in a gather result, and the values and timestamps of its counters and gauges, stay as they were at that gather, whatever happens to the metrics afterwards: updates, relabelling, dropping, later gathers, concurrently or not. as_ref, into_vec, iteration, clones and to_text of one result show the same families and metrics in the same order.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of operations on the metrics after the gather; all sets of metrics",
  "The tests look at a gather result once, immediately, through to_text.",
  ["src/aggregated_metrics.rs", "src/metric.rs", "src/registry.rs", "src/label.rs"],
  [("values copied, labels copied on write", "src/aggregated_metrics.rs"), ("one ordered collection behind all views", "src/metric.rs MetricFamilies")],
  (), ["MetricFamilies", "MetricFamily::metrics", "MetricFamilies::to_text"])

p("C28", "Re-entrant, panicking and concurrent callers never block or break anything",
  "Collectors, timed and tracked closures, formatters and bucket iterators may call any operation on the same metrics, registries and other gatherers, or panic, and labels and buckets may be changed while they are iterated. Every such call completes (nothing deadlocks, also while other threads are inside the library), its effects are those of the calls made, and after a panic everything goes on working.",
  ["schedules", "fault_sequences", "histories"], "all nestings of operations inside callbacks, each returning or panicking, with any other thread held up inside the library",
  "No test calls the library from a collector or closure, and none panics inside one; a lock kept across a callback shows only then.",
  ["src/registry.rs", "src/label.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/metrics/counter.rs"],
  [("collectors polled without a lock", "src/registry.rs Gatherer::gather"), ("no lock is held across user code", "src/metrics/*.rs time, track_inprogress"), ("short critical sections", "src/label.rs, src/metrics/summary.rs")],
  (), ["Gatherer::gather", "*::time", "Gauge::track_inprogress", "HistogramBuilder::bucket"])

p("C29", "Memory use does not grow with the number of operations",
  "The memory in use depends on the live metrics, their labels and their windows' contents, not on how many updates, relabellings, renderings, gathers, failed builds, or metrics built and dropped came before.",
  ["histories", "schedules"], "all long histories of operations on any metrics, sequential or concurrent",
  "A leak per operation is invisible to tests that make a handful of operations and compare values.",
  ["src/label.rs", "src/registry.rs", "src/metrics/summary.rs", "src/metrics/counter.rs", "src/atomic.rs"],
  [("label versions reclaimed", "src/label.rs"), ("dead collectors removed at gather", "src/registry.rs"), ("expired observations removed", "src/metrics/summary.rs")],
  (), ["global allocator"])

p("C30", "Names, labels, quantiles and kinds compare, hash and show consistently",
  "Metric names are equal, ordered and hashed by their joined text however they are divided into parts; labels by name, then value; quantiles by number. Every comparison operator and trait gives the same answer about two of them, equal ones hash alike, and different labels show differently. Kinds show as counter, gauge, summary and histogram. A Metric made from a metric, or yielded by its collector, is that metric with its name, kind and labels; a collector yields it once per call while it is alive and nothing afterwards.",
  ["inputs"], "all pairs of names (in every division), labels, quantiles and kinds; all four kinds of metrics and collectors",
  "Consistency of the comparisons is a law over all pairs; the tests compare no names, and one text each of labels.",
  ["src/metric.rs", "src/label.rs", "src/quantile.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("comparison by the joined bytes", "src/metric.rs MetricName"), ("derived comparisons of Label", "src/label.rs"), ("Quantile::cmp", "src/quantile.rs")],
  (), ["MetricName", "Label", "Quantile", "Metric", "Collect::collect"])

p("C31", "Reading changes nothing and equal histories give equal results",
  "Reading values, labels, timestamps, quantiles, buckets or texts, cloning handles, rejected changes, registering elsewhere, gathering and rendering, any number of times and on any threads, change nothing that is visible later: a history with such reads added ends with exactly the values, labels, gather results and texts of the same history without them, and so does a repetition. (Which of several differing help texts a merged family shows is left open, and so is the rounding of merged sums.)",
  ["histories", "schedules"], "all histories of operations with any reads inserted anywhere or running concurrently",
  "A test reads once at the end; an effect of a read shows only when the same history is also run without it.",
  ["src/registry.rs", "src/aggregated_metrics.rs", "src/metrics/summary.rs", "src/metrics/counter.rs", "src/label.rs", "src/bucket.rs"],
  [("reads load, expire or copy only", "src/metrics/*.rs"), ("stable order of families and metrics", "src/registry.rs Gatherer::gather")],
  (), ["every public read", "Gatherer::gather"])

p("C32", "Rendering reaches any writer completely or reports its failure",
  "The text of a metric, family, merged metric, label set, label, name or kind is the same for every writer. When a writer fails, rendering stops at once and returns the error (never success with a part missing), having written a beginning of the text. Afterwards, also when the writer panicked, everything shows the same text as before.",
  ["inputs", "fault_sequences"], "all contents, all points at which a writer fails or panics",
  "The tests render into strings, which never fail; an ignored error of a nested write shows only with a failing writer.",
  ["src/metric.rs", "src/label.rs", "src/aggregated_metrics.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"],
  [("every write is propagated with ?", "Display implementations")],
  (), ["Display", "MetricFamilies::to_text"])

p("C33", "Every operation changes what it is meant for and nothing else",
  "After any history of operations, everything visible of every metric (name, help, labels, timestamp, value, buckets, quantiles, totals, text) and of every gatherer is what the operations on that very metric, label set or gatherer define: updating a value, relabelling, setting timestamps, cloning, registering, building and dropping each leave all other aspects of that metric, and every other metric, builder, gather result and gatherer, as they were. The same holds when other threads use other metrics at the same time.",
  ["histories", "schedules"], "all histories over several metrics of all kinds, builders, registries and gatherers; disjoint histories on any threads",
  "A test uses one metric in a few steps; an effect on another aspect or metric shows only when everything is compared after each step of long mixed histories.",
  ["src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/metrics/builder.rs", "src/label.rs", "src/timestamp.rs", "src/registry.rs", "src/aggregated_metrics.rs"],
  [("one Inner per metric, shared by its clones only", "src/metrics/*.rs"), ("separate cells for labels, timestamp and value", "src/metrics/*.rs Inner")],
  (), ["every public read", "Gatherer::gather"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

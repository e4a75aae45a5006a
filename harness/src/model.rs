//! Uniform access to the four kinds of metrics, and plain views of gather results.

use crate::core::{close, invalid, same, Must, R};
use crate::promtext::{self, Sample};
use crate::rng::Rng;
use prometrics::label::{Labels, LabelsMut};
use prometrics::metric::{Metric, MetricFamilies, MetricFamily, MetricKind, MetricName, Metrics};
use prometrics::metrics::*;
use prometrics::timestamp::{Timestamp, TimestampMut};
use prometrics::{Gatherer, Registry};
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Kind {
    Counter,
    Gauge,
    Summary,
    Histogram,
}
pub const KINDS: [Kind; 4] = [Kind::Counter, Kind::Gauge, Kind::Summary, Kind::Histogram];
impl Kind {
    pub fn of(k: MetricKind) -> Kind {
        match k {
            MetricKind::Counter => Kind::Counter,
            MetricKind::Gauge => Kind::Gauge,
            MetricKind::Summary => Kind::Summary,
            MetricKind::Histogram => Kind::Histogram,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Kind::Counter => "counter",
            Kind::Gauge => "gauge",
            Kind::Summary => "summary",
            Kind::Histogram => "histogram",
        }
    }
    pub fn reserved(self) -> Option<&'static str> {
        match self {
            Kind::Summary => Some("quantile"),
            Kind::Histogram => Some("le"),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Any {
    C(Counter),
    G(Gauge),
    S(Summary),
    H(Histogram),
}
macro_rules! each {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            Any::C($m) => $e,
            Any::G($m) => $e,
            Any::S($m) => $e,
            Any::H($m) => $e,
        }
    };
}
impl Any {
    pub fn kind(&self) -> Kind {
        match self {
            Any::C(_) => Kind::Counter,
            Any::G(_) => Kind::Gauge,
            Any::S(_) => Kind::Summary,
            Any::H(_) => Kind::Histogram,
        }
    }
    pub fn metric_name(&self) -> &MetricName {
        each!(self, m => m.metric_name())
    }
    pub fn name(&self) -> String {
        self.metric_name().to_string()
    }
    pub fn help(&self) -> Option<String> {
        each!(self, m => m.help().map(|h| h.to_string()))
    }
    pub fn labels(&self) -> &Labels {
        each!(self, m => m.labels())
    }
    pub fn labels_mut(&mut self) -> LabelsMut<'_> {
        each!(self, m => m.labels_mut())
    }
    pub fn ts(&self) -> &Timestamp {
        each!(self, m => m.timestamp())
    }
    pub fn ts_mut(&mut self) -> TimestampMut<'_> {
        each!(self, m => m.timestamp_mut())
    }
    pub fn text(&self) -> String {
        each!(self, m => m.to_string())
    }
    /// Adds, adds or observes.
    pub fn feed(&self, v: f64) {
        match self {
            Any::C(m) => m.add(v).expect("add"),
            Any::G(m) => m.add(v),
            Any::S(m) => m.observe(v),
            Any::H(m) => m.observe(v),
        }
    }
    /// Value or sum.
    pub fn total(&self) -> f64 {
        match self {
            Any::C(m) => m.value(),
            Any::G(m) => m.value(),
            Any::S(m) => m.sum(),
            Any::H(m) => m.sum(),
        }
    }
    pub fn metric(&self) -> Metric {
        match self {
            Any::C(m) => m.clone().into(),
            Any::G(m) => m.clone().into(),
            Any::S(m) => m.clone().into(),
            Any::H(m) => m.clone().into(),
        }
    }
    pub fn register(&self, r: &Registry) {
        each!(self, m => r.register(m.collector()))
    }
    /// What this metric's own accessors say.
    pub fn view(&self) -> Agg {
        let val = match self {
            Any::C(m) => Val::Num(m.value()),
            Any::G(m) => Val::Num(m.value()),
            Any::S(m) => Val::Summary {
                quantiles: m.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect(),
                count: m.count(),
                sum: m.sum(),
            },
            Any::H(m) => Val::Histogram {
                buckets: m
                    .cumulative_buckets()
                    .map(|b| (b.upper_bound(), b.cumulative_count()))
                    .collect(),
                count: m.count(),
                sum: m.sum(),
            },
        };
        Agg {
            labels: label_vec(self.labels()),
            ts: self.ts().get(),
            val,
        }
    }
}

/// The labels in iteration order. (The iterator stays alive while its items are used, see finding K1.)
pub fn label_vec(l: &Labels) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let it = l.iter();
    for x in it {
        v.push((x.name().to_string(), x.value().to_string()));
    }
    v
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub namespace: Option<String>,
    pub subsystem: Option<String>,
    pub name: String,
    pub help: Option<String>,
    pub labels: Vec<(String, String)>,
    pub bounds: Vec<f64>,
    pub quantiles: Vec<f64>,
    pub window: Duration,
    pub initial: f64,
}
impl Spec {
    /// Adds settings that make no difference to who has which metric with which value.
    pub fn enriched(mut self, rng: &Rng, labels: bool) -> Spec {
        if cfg!(miri) || !rng.chance(1, 3) {
            return self;
        }
        let many = if rng.chance(1, 10) { 60 } else { 5 };
        for _ in 0..rng.below(many) {
            self.bounds.push(rng.below(1 << 12) as f64 / 8.0);
        }
        for _ in 0..rng.below(many) {
            self.quantiles.push(rng.unit());
        }
        if rng.chance(1, 2) {
            self.help = Some(rng.ustring(30));
        }
        if labels {
            for i in 0..rng.below(many) {
                self.labels.push((format!("x{}", i), rng.ustring(6)));
            }
        }
        self
    }
    pub fn new(kind: Kind, name: &str) -> Spec {
        Spec {
            kind,
            namespace: None,
            subsystem: None,
            name: name.to_string(),
            help: None,
            labels: vec![],
            bounds: vec![],
            quantiles: vec![],
            window: Duration::from_secs(1_000_000),
            initial: 0.0,
        }
    }
    pub fn label(mut self, k: &str, v: &str) -> Spec {
        self.labels.push((k.into(), v.into()));
        self
    }
    pub fn full_name(&self) -> String {
        let mut s = String::new();
        for p in [&self.namespace, &self.subsystem].into_iter().flatten() {
            s.push_str(p);
            s.push('_');
        }
        s + &self.name
    }
    pub fn label_map(&self) -> BTreeMap<String, String> {
        self.labels.iter().cloned().collect()
    }
    pub fn build(&self, regs: &[&Registry]) -> prometrics::Result<Any> {
        macro_rules! common {
            ($b:expr) => {{
                if let Some(ref x) = self.namespace {
                    $b.namespace(x);
                }
                if let Some(ref x) = self.subsystem {
                    $b.subsystem(x);
                }
                if let Some(ref x) = self.help {
                    $b.help(x);
                }
                for (k, v) in &self.labels {
                    $b.label(k, v);
                }
                for r in regs {
                    $b.registry((*r).clone());
                }
            }};
        }
        if self.namespace.is_none()
            && self.subsystem.is_none()
            && self.help.is_none()
            && self.labels.is_empty()
            && regs.is_empty()
            && self.name.len() % 2 == 1
        {
            // (the short way)
            match self.kind {
                Kind::Counter => return Counter::new(&self.name).map(Any::C),
                Kind::Gauge if self.initial.to_bits() == 0 => return Gauge::new(&self.name).map(Any::G),
                Kind::Summary if self.quantiles.is_empty() => {
                    return Summary::new(&self.name, self.window).map(Any::S)
                }
                Kind::Histogram if self.bounds.is_empty() => return Histogram::new(&self.name).map(Any::H),
                _ => {}
            }
        }
        match self.kind {
            Kind::Counter => {
                let mut b = CounterBuilder::new(&self.name);
                common!(b);
                b.finish().map(Any::C)
            }
            Kind::Gauge => {
                let mut b = GaugeBuilder::new(&self.name);
                b.initial_value(self.initial);
                common!(b);
                b.finish().map(Any::G)
            }
            Kind::Summary => {
                let mut b = SummaryBuilder::new(&self.name, self.window);
                for q in &self.quantiles {
                    b.quantile(*q);
                }
                common!(b);
                b.finish().map(Any::S)
            }
            Kind::Histogram => {
                let mut b = HistogramBuilder::new(&self.name);
                for x in &self.bounds {
                    b.bucket(*x);
                }
                common!(b);
                b.finish().map(Any::H)
            }
        }
    }
    pub fn must(&self, regs: &[&Registry]) -> R<Any> {
        match self.build(regs) {
            Ok(m) => Ok(m),
            Err(e) => Err(e).must(&format!("building {:?}", self)),
        }
    }
    pub fn must_fail(&self, regs: &[&Registry]) -> R {
        invalid(self.build(regs), "building it").map_err(|e| format!("{} ({:?})", e, self))
    }
}

/// A random valid specification over small pools of names and labels, so that metrics collide.
pub fn split_name(rng: &mut Rng, full: &str) -> (Option<String>, Option<String>, String) {
    let cuts: Vec<usize> = full
        .char_indices()
        .filter(|&(i, c)| c == '_' && i > 0 && i + 1 < full.len())
        .map(|x| x.0)
        .collect();
    let ok = |s: &str| promtext::is_metric_name(s);
    for _ in 0..10 {
        match rng.below(4) {
            1 if !cuts.is_empty() => {
                let c = *rng.pick(&cuts);
                let (a, b) = (&full[..c], &full[c + 1..]);
                if ok(a) && ok(b) {
                    return (Some(a.into()), None, b.into());
                }
            }
            2 if !cuts.is_empty() => {
                let c = *rng.pick(&cuts);
                let (a, b) = (&full[..c], &full[c + 1..]);
                if ok(a) && ok(b) {
                    return (None, Some(a.into()), b.into());
                }
            }
            3 if cuts.len() >= 2 => {
                let mut x = [*rng.pick(&cuts), *rng.pick(&cuts)];
                x.sort();
                if x[1] > x[0] + 1 {
                    let (a, b, c) = (&full[..x[0]], &full[x[0] + 1..x[1]], &full[x[1] + 1..]);
                    if ok(a) && ok(b) && ok(c) {
                        return (Some(a.into()), Some(b.into()), c.into());
                    }
                }
            }
            0 => break,
            _ => {}
        }
    }
    (None, None, full.into())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(f64),
    Histogram {
        buckets: Vec<(f64, u64)>,
        count: u64,
        sum: f64,
    },
    Summary {
        quantiles: Vec<(f64, f64)>,
        count: u64,
        sum: f64,
    },
}

#[derive(Clone, Debug)]
pub struct Agg {
    pub labels: Vec<(String, String)>,
    pub ts: Option<i64>,
    pub val: Val,
}
impl Agg {
    pub fn map(&self) -> BTreeMap<String, String> {
        self.labels.iter().cloned().collect()
    }
    pub fn num(&self) -> f64 {
        match self.val {
            Val::Num(v) => v,
            Val::Histogram { sum, .. } => sum,
            Val::Summary { sum, .. } => sum,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fam {
    pub name: String,
    pub kind: Kind,
    pub help: Option<String>,
    pub metrics: Vec<Agg>,
    pub metric_names: Vec<String>,
}

pub fn fam(f: &MetricFamily) -> Fam {
    let mut metric_names = Vec::new();
    let metrics = match f.metrics() {
        Metrics::Counter(v) => v
            .iter()
            .map(|m| {
                metric_names.push(m.metric_name().to_string());
                Agg {
                    labels: label_vec(m.labels()),
                    ts: m.timestamp().get(),
                    val: Val::Num(m.value()),
                }
            })
            .collect(),
        Metrics::Gauge(v) => v
            .iter()
            .map(|m| {
                metric_names.push(m.metric_name().to_string());
                Agg {
                    labels: label_vec(m.labels()),
                    ts: m.timestamp().get(),
                    val: Val::Num(m.value()),
                }
            })
            .collect(),
        Metrics::Summary(v) => v
            .iter()
            .map(|m| {
                metric_names.push(m.metric_name().to_string());
                Agg {
                    labels: label_vec(m.labels()),
                    ts: m.timestamp().get(),
                    val: Val::Summary {
                        quantiles: m.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect(),
                        count: m.count(),
                        sum: m.sum(),
                    },
                }
            })
            .collect(),
        Metrics::Histogram(v) => v
            .iter()
            .map(|m| {
                metric_names.push(m.metric_name().to_string());
                Agg {
                    labels: label_vec(m.labels()),
                    ts: m.timestamp().get(),
                    val: Val::Histogram {
                        buckets: m
                            .cumulative_buckets()
                            .map(|b| (b.upper_bound(), b.cumulative_count()))
                            .collect(),
                        count: m.count(),
                        sum: m.sum(),
                    },
                }
            })
            .collect(),
    };
    Fam {
        name: f.name().to_string(),
        kind: Kind::of(f.kind()),
        help: f.help().map(|h| h.to_string()),
        metrics,
        metric_names,
    }
}

pub fn fams(fs: &MetricFamilies) -> Vec<Fam> {
    fs.as_ref().iter().map(fam).collect()
}

/// The structural rules every gather result has to obey.
pub fn well_formed(fs: &[Fam]) -> R {
    let mut seen = std::collections::HashSet::new();
    for f in fs {
        ensure!(
            seen.insert((f.name.clone(), f.kind)),
            "family {} {:?} appears twice",
            f.name,
            f.kind
        );
        ensure!(!f.metrics.is_empty(), "family {} is empty", f.name);
        let mut sets = std::collections::HashSet::new();
        for (m, n) in f.metrics.iter().zip(&f.metric_names) {
            ensure!(*n == f.name, "a metric named {} is in family {}", n, f.name);
            ensure!(
                m.labels.windows(2).all(|w| w[0].0 < w[1].0),
                "labels {:?} are not a sorted map",
                m.labels
            );
            ensure!(
                sets.insert(m.map()),
                "label set {:?} appears twice in family {}",
                m.labels,
                f.name
            );
        }
    }
    Ok(())
}

/// The samples that the text of `agg` has to consist of.
pub fn expected_samples(name: &str, a: &Agg) -> Vec<Sample> {
    let s = |suffix: &str, extra: Option<(&str, f64)>, value: f64| {
        let mut labels = a.labels.clone();
        if let Some((k, v)) = extra {
            labels.push((
                k.to_string(),
                format!("{:016x}", if v == 0.0 { 0 } else { v.to_bits() }),
            ));
        }
        labels.sort();
        Sample {
            name: format!("{}{}", name, suffix),
            labels,
            value,
            ts: a.ts,
        }
    };
    match &a.val {
        Val::Num(v) => vec![s("", None, *v)],
        Val::Histogram { buckets, count, sum } => {
            let mut o: Vec<_> = buckets
                .iter()
                .map(|&(le, c)| s("_bucket", Some(("le", le)), c as f64))
                .collect();
            o.push(s("_sum", None, *sum));
            o.push(s("_count", None, *count as f64));
            o
        }
        Val::Summary { quantiles, count, sum } => {
            let mut o: Vec<_> = quantiles
                .iter()
                .map(|&(q, v)| s("", Some(("quantile", q)), v))
                .collect();
            o.push(s("_sum", None, *sum));
            o.push(s("_count", None, *count as f64));
            o
        }
    }
}

/// Brings parsed samples to the form of `expected_samples` (le and quantile as bits of the number).
pub fn normalise(kind: Kind, mut v: Vec<Sample>) -> R<Vec<Sample>> {
    for s in &mut v {
        let special = match kind {
            Kind::Histogram if s.name.ends_with("_bucket") => Some("le"),
            Kind::Summary if s.labels.iter().any(|l| l.0 == "quantile") => Some("quantile"),
            _ => None,
        };
        if let Some(k) = special {
            let l = s
                .labels
                .iter_mut()
                .find(|l| l.0 == k)
                .ok_or_else(|| format!("a {} sample without {}", s.name, k))?;
            let x = promtext::value(&l.1)?;
            l.1 = format!("{:016x}", if x == 0.0 { 0 } else { x.to_bits() });
        }
        s.labels.sort();
    }
    Ok(v)
}

fn value_bits(v: f64) -> u64 {
    if v.is_nan() {
        u64::MAX
    } else {
        v.to_bits()
    }
}

/// The same samples, in any order within a metric.
pub fn same_samples(got: &[Sample], want: &[Sample]) -> R {
    let key = |s: &Sample| (s.name.clone(), s.labels.clone(), value_bits(s.value), s.ts);
    let mut g: Vec<_> = got.iter().map(key).collect();
    let mut w: Vec<_> = want.iter().map(key).collect();
    g.sort();
    w.sort();
    if g != w {
        let extra: Vec<_> = got.iter().filter(|s| !w.contains(&key(s))).take(3).collect();
        let missing: Vec<_> = want.iter().filter(|s| !g.contains(&key(s))).take(3).collect();
        return Err(format!(
            "the text differs from the contents: unexpected {:?}, missing {:?}",
            extra, missing
        ));
    }
    Ok(())
}

pub fn gather(g: &mut Gatherer) -> R<Vec<Fam>> {
    let v = fams(&g.gather());
    well_formed(&v)?;
    Ok(v)
}

pub fn find<'a>(fs: &'a [Fam], name: &str, kind: Kind) -> Option<&'a Fam> {
    fs.iter().find(|f| f.name == name && f.kind == kind)
}

/// Rank accuracy of reported quantiles (`sorted` are the non-NaN observations in the window).
pub fn check_quantiles(got: &[(f64, f64)], configured: &[f64], sorted: &[f64]) -> R {
    if sorted.is_empty() {
        ensure!(got.is_empty(), "quantiles {:?} are reported without observations", got);
        return Ok(());
    }
    let mut want: Vec<f64> = configured.to_vec();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    want.dedup();
    let qs: Vec<f64> = got.iter().map(|x| x.0).collect();
    ensure!(
        qs == want,
        "the reported quantiles are {:?}, the configured ones {:?}",
        qs,
        want
    );
    let n = sorted.len() as f64;
    for &(q, v) in got {
        let lt = sorted.partition_point(|x| *x < v);
        let le = sorted.partition_point(|x| *x <= v);
        ensure!(
            le > lt,
            "quantile {} is {}, which was not observed (or has expired): {:?}",
            q,
            v,
            crate::core::show(&sorted)
        );
        let eps = 1e-9 * (1.0 + n);
        ensure!(
            le as f64 >= q * n - eps && lt as f64 <= q * n + eps,
            "quantile {} of {} values is {}: {} are less, {} are less or equal ({})",
            q,
            n,
            v,
            lt,
            le,
            crate::core::show(&sorted)
        );
    }
    Ok(())
}

/// Whether `sum` can be the sum of `vs` in some order with f64 rounding.
pub fn check_sum(sum: f64, vs: &[f64]) -> R {
    let nan = vs.iter().any(|v| v.is_nan());
    let pos = vs.iter().any(|v| *v == f64::INFINITY);
    let neg = vs.iter().any(|v| *v == f64::NEG_INFINITY);
    let mag: f64 = vs.iter().filter(|v| v.is_finite()).map(|v| v.abs()).sum();
    if mag >= 1e307 && !nan && !(pos && neg) {
        return Ok(()); // intermediate overflow is possible
    }
    let want = if nan || (pos && neg) {
        f64::NAN
    } else if pos {
        f64::INFINITY
    } else if neg {
        f64::NEG_INFINITY
    } else {
        let want = neumaier(vs);
        let tol = (vs.len() as f64 + 2.0) * (f64::EPSILON * mag + 5e-324);
        ensure!(
            (sum - want).abs() <= tol,
            "the sum is {:e}, not {:e} (tolerance {:e})",
            sum,
            want,
            tol
        );
        return Ok(());
    };
    ensure!(same(sum, want), "the sum is {}, not {}", sum, want);
    Ok(())
}

pub fn neumaier(vs: &[f64]) -> f64 {
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for &v in vs {
        let t = s + v;
        c += if s.abs() >= v.abs() { (s - t) + v } else { (v - t) + s };
        s = t;
    }
    s + c
}

#[allow(dead_code)]
pub fn roughly(a: f64, b: f64) -> bool {
    close(a, b)
}

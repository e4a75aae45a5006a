//! Whole histories: many metrics of all kinds, builders, registries and gatherers in use at once. After every operation
//! everything visible of everything is compared with a model, so an operation that changes (or fails to change) something
//! elsewhere shows. Each property's check looks at its own aspects; C33 looks at all.

use crate::core::*;
use crate::model::*;
use crate::promtext;
use crate::rng::*;
use crate::vclock;
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{Gatherer, Registry};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::{Duration, UNIX_EPOCH};

/// A deviation from the model, and the aspects it concerns.
struct Off(Vec<&'static str>, String);
type W<T = ()> = Result<T, Off>;

macro_rules! hold {
    ($tag:expr, $c:expr, $($a:tt)*) => {
        if !$c {
            return Err(Off(vec![$tag], format!($($a)*)));
        }
    };
}
fn tagged<T>(tag: &'static str, r: R<T>) -> W<T> {
    r.map_err(|e| Off(vec![tag], e))
}

/// Nanoseconds since the epoch.
fn wall_ns() -> i128 {
    let now = std::time::SystemTime::now();
    match now.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    }
}

/// The aspects a property speaks about.
fn aspects(id: &str) -> &'static [&'static str] {
    match id {
        "C01" => &["counter"],
        "C02" => &["rejected amount"],
        "C03" => &["gauge"],
        "C04" => &["counts"],
        "C05" => &["bounds"],
        "C07" => &["quantiles"],
        "C08" => &["quantiles", "totals"],
        "C09" => &["totals"],
        "C10" => &["merged", "membership"],
        "C11" => &["pooled"],
        "C12" => &["text"],
        "C13" => &["family", "order"],
        "C15" => &["membership"],
        "C16" => &["membership"],
        "C17" => &["name", "rejected build", "rejected label"],
        "C18" => &["labels", "rejected label"],
        "C22" => &["timed"],
        "C23" => &["tracked"],
        "C24" => &["timestamp", "merged timestamp"],
        "C26" => &["built"],
        "C27" => &["kept"],
        _ => &[],
    }
}

#[derive(Debug, Clone)]
enum Value {
    Num(f64),
    Hist {
        bounds: Vec<f64>,
        counts: Vec<u64>,
        sum: f64,
    },
    Sum {
        window: Duration,
        quantiles: Vec<f64>,
        seen: VecDeque<(i64, f64)>,
        count: u64,
        sum: f64,
    },
}
impl Value {
    fn of(s: &Spec) -> Value {
        match s.kind {
            Kind::Counter => Value::Num(0.0),
            Kind::Gauge => Value::Num(s.initial),
            Kind::Histogram => {
                let mut bounds = s.bounds.clone();
                bounds.push(f64::INFINITY);
                bounds.sort_by(|a, b| a.partial_cmp(b).unwrap());
                bounds.dedup();
                Value::Hist {
                    counts: vec![0; bounds.len()],
                    bounds,
                    sum: 0.0,
                }
            }
            Kind::Summary => Value::Sum {
                window: s.window,
                quantiles: s.quantiles.clone(),
                seen: VecDeque::new(),
                count: 0,
                sum: 0.0,
            },
        }
    }
    fn feed(&mut self, now: i64, v: f64) {
        match self {
            Value::Num(x) => *x += v,
            Value::Hist { bounds, counts, sum } => {
                let i = bounds.iter().position(|b| v <= *b).expect("+Inf");
                counts[i] += 1;
                *sum += v;
            }
            Value::Sum { seen, count, sum, .. } => {
                seen.push_back((now, v));
                *count += 1;
                *sum += v;
            }
        }
    }
    /// The observations in the window, sorted.
    fn current(&self, now: i64) -> Vec<f64> {
        let mut v: Vec<f64> = match self {
            Value::Sum { seen, window, .. } => seen
                .iter()
                .filter(|(t, v)| Duration::from_nanos((now - t) as u64) <= *window && !v.is_nan())
                .map(|x| x.1)
                .collect(),
            _ => vec![],
        };
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    }
}

struct M {
    kind: Kind,
    name: String,
    help: Option<String>,
    labels: BTreeMap<String, String>,
    ts: Option<i64>,
    value: Value,
    regs: BTreeSet<usize>,
    handles: Vec<Any>,
    /// Kept in another form.
    others: Vec<Metric>,
    /// What was last done to it.
    last: &'static str,
}

struct Kept {
    from: usize,
    result: MetricFamilies,
    then: Vec<Fam>,
}

struct World<'a> {
    rng: &'a Rng,
    prefix: String,
    clock: bool,
    /// Infinite amounts and NaN as well.
    hostile: bool,
    now: i64,
    gs: Vec<Arc<Mutex<Gatherer>>>,
    regs: Vec<Registry>,
    builders: Vec<(MetricBuilder, Spec, BTreeSet<usize>)>,
    ms: Vec<M>,
    kept: Vec<Kept>,
    log: Vec<String>,
    checks: u64,
    gathers: u64,
    merged: std::cell::Cell<u64>,
}

const KEYS: [&str; 6] = ["a", "b", "k", "_l", "B", "zz"];
const VALUES: [&str; 7] = ["", "1", "2", "x\n", "\"", "b=\"1", "é"];

impl<'a> World<'a> {
    fn new(rng: &'a Rng, prefix: String, clock: bool, gs: Vec<Arc<Mutex<Gatherer>>>) -> Self {
        let now = 10_000_000_000;
        if clock {
            vclock::set_virtual(now, 1_600_000_000, 0);
        }
        let regs = gs.iter().map(|g| g.lock().unwrap().registry()).collect();
        World {
            rng,
            prefix,
            clock,
            hostile: rng.chance(1, 6),
            now,
            gs,
            regs,
            builders: vec![],
            ms: vec![],
            kept: vec![],
            log: vec![],
            checks: 0,
            gathers: 0,
            merged: std::cell::Cell::new(0),
        }
    }
    fn now(&self) -> i64 {
        self.now
    }
    fn advance(&mut self, ns: i64) {
        if self.clock {
            vclock::advance(ns);
            self.now += ns;
        }
    }
    fn amount(&self, m: &M) -> f64 {
        let rng = self.rng;
        if self.hostile && rng.chance(1, 6) {
            return match m.kind {
                Kind::Counter => f64::INFINITY,
                Kind::Histogram => *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
                _ => *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::NAN]),
            };
        }
        match &m.value {
            Value::Hist { bounds, .. } if rng.chance(1, 2) => {
                let b = *rng.pick(bounds);
                if b.is_finite() {
                    b
                } else {
                    rng.dyadic()
                }
            }
            // (minus zero would make the order of equal values visible)
            Value::Hist { .. } | Value::Sum { .. } => rng.sdyadic() + 0.0,
            Value::Num(_) if m.kind == Kind::Gauge => rng.sdyadic(),
            _ => rng.dyadic(),
        }
    }
    fn some(&self) -> Option<usize> {
        if self.ms.is_empty() {
            None
        } else {
            Some(self.rng.us(self.ms.len()))
        }
    }
    fn say(&mut self, s: String) {
        self.log.push(s);
    }

    fn spec(&self) -> Spec {
        let rng = self.rng;
        let mut s = Spec::new(*rng.pick(&KINDS), "");
        let twin = self.some().filter(|_| rng.chance(2, 5)).map(|i| &self.ms[i]);
        s.name = format!("{}{}", self.prefix, rng.pick(&["a", "b", "a_b", "a_b_c", "c"]));
        if rng.chance(1, 3) {
            s.subsystem = Some(s.name.clone());
            s.name = (*rng.pick(&["a", "b", "b_c", "d"])).into();
        }
        if rng.chance(1, 4) {
            s.namespace = Some(format!("{}{}", self.prefix, rng.pick(&["n", "a"])));
        }
        if rng.chance(1, 2) {
            s.help = Some((*rng.pick(&["", "help", "other\nhelp", "\\n"])).into());
        }
        for _ in 0..rng.below(4) {
            s.labels.push(((*rng.pick(&KEYS)).into(), (*rng.pick(&VALUES)).into()));
        }
        for _ in 0..rng.below(6) {
            s.bounds.push(*rng.pick(&[0.0, 1.0, -1.5, 2.5, 10.0, 1e6, -100.0]));
        }
        for _ in 0..rng.below(5) {
            s.quantiles.push(*rng.pick(&[0.0, 0.1, 0.25, 0.5, 0.9, 0.99, 1.0]));
        }
        if self.clock {
            s.window = *rng.pick(&[
                Duration::from_secs(10),
                Duration::from_millis(1500),
                Duration::from_nanos(1),
                Duration::from_secs(1_000_000),
            ]);
        }
        if rng.chance(1, 2) {
            s.initial = rng.sdyadic();
        }
        if let Some(m) = twin {
            // one to merge with
            s.kind = m.kind;
            let (a, b, c) = split_name(&mut rng.fork(), &m.name);
            s.namespace = a;
            s.subsystem = b;
            s.name = c;
            s.labels = m.labels.clone().into_iter().collect();
            rng.shuffle(&mut s.labels);
        }
        s
    }

    fn build(&mut self) -> W {
        let rng = self.rng;
        let mut s = self.spec();
        let mut regs: BTreeSet<usize> = (0..self.gs.len()).filter(|_| rng.chance(1, 2)).collect();
        let m = if rng.chance(1, 3) {
            // from a common builder
            if self.builders.is_empty() || rng.chance(1, 5) {
                let mut c = Spec::new(Kind::Counter, "");
                c.namespace = Some(format!("{}n", self.prefix));
                let r = rng.us(self.gs.len());
                let (mut b, regs) = if rng.chance(1, 3) {
                    (MetricBuilder::without_registry(), BTreeSet::new())
                } else {
                    (MetricBuilder::with_registry(self.regs[r].clone()), Some(r).into_iter().collect())
                };
                b.namespace(c.namespace.as_ref().unwrap());
                self.builders.push((b, c, regs));
            }
            let k = rng.us(self.builders.len());
            let (b, c, bregs) = &mut self.builders[k];
            match rng.below(4) {
                0 => {
                    let (k, v) = (*rng.pick(&KEYS), *rng.pick(&VALUES));
                    b.label(k, v);
                    c.labels.push((k.into(), v.into()));
                }
                1 => {
                    let x = *rng.pick(&["s", "a"]);
                    b.subsystem(x);
                    c.subsystem = Some(x.into());
                }
                2 => {
                    let r = rng.us(self.regs.len());
                    if !bregs.contains(&r) {
                        b.registry(self.regs[r].clone());
                        bregs.insert(r);
                    }
                }
                _ => (),
            }
            regs = bregs.clone();
            let mut all = s.clone();
            all.namespace = c.namespace.clone();
            all.subsystem = c.subsystem.clone();
            all.labels = c.labels.iter().chain(&s.labels).cloned().collect();
            let r = (|| -> prometrics::Result<Any> {
                macro_rules! own {
                    ($b:expr) => {{
                        if let Some(ref x) = s.help {
                            $b.help(x);
                        }
                        for (k, v) in &s.labels {
                            $b.label(k, v);
                        }
                    }};
                }
                Ok(match s.kind {
                    Kind::Counter => {
                        let mut x = b.counter(&s.name);
                        own!(x);
                        Any::C(x.finish()?)
                    }
                    Kind::Gauge => {
                        let mut x = b.gauge(&s.name);
                        own!(x);
                        Any::G(x.initial_value(s.initial).finish()?)
                    }
                    Kind::Summary => {
                        let mut x = b.summary(&s.name, s.window);
                        own!(x);
                        for q in &s.quantiles {
                            x.quantile(*q);
                        }
                        Any::S(x.finish()?)
                    }
                    Kind::Histogram => {
                        let mut x = b.histogram(&s.name);
                        own!(x);
                        x.buckets(s.bounds.iter().cloned());
                        Any::H(x.finish()?)
                    }
                })
            })();
            s = all;
            tagged("built", r.must("build"))?
        } else {
            let rs: Vec<&Registry> = regs.iter().map(|i| &self.regs[*i]).collect();
            tagged("built", s.must(&rs))?
        };
        self.say(format!("{}: build {:?} in {:?}", self.ms.len(), s, regs));
        self.ms.push(M {
            kind: s.kind,
            name: s.full_name(),
            help: s.help.clone(),
            labels: s.label_map(),
            ts: None,
            value: Value::of(&s),
            regs,
            handles: vec![m],
            others: vec![],
            last: "built",
        });
        Ok(())
    }

    /// A build that has to fail and to leave no trace.
    fn bad_build(&mut self) -> W {
        let rng = self.rng;
        let mut s = self.spec();
        match rng.below(6) {
            0 => s.name = "0".into(),
            1 => s.namespace = Some("".into()),
            2 => s.labels.push(("__x".into(), "".into())),
            3 if s.kind.reserved().is_some() => s.labels.push((s.kind.reserved().unwrap().into(), "1".into())),
            4 if s.kind == Kind::Histogram => s.bounds.push(f64::NAN),
            5 if s.kind == Kind::Summary => s.quantiles.push(1.5),
            _ => s.labels.push(("ä".into(), "".into())),
        }
        let rs: Vec<&Registry> = self.regs.iter().collect();
        self.log.push(format!("bad build {:?}", s));
        tagged("rejected build", s.must_fail(&rs))
    }

    fn forget(&mut self, i: usize) {
        self.kept.clear();
        self.ms.remove(i);
        self.log.push(format!("drop {} (the later ones move up)", i));
    }

    /// One operation on one metric, through any of its handles.
    fn act(&mut self) -> W {
        let rng = self.rng;
        let Some(i) = self.some() else { return self.build() };
        let h = rng.us(self.ms[i].handles.len());
        let mut m = self.ms[i].handles[h].clone();
        let v = self.amount(&self.ms[i]);
        let mut said = String::new();
        let mut last = "";
        match rng.below(32) {
            0..=6 => {
                said = format!("feed {}", v);
                m.feed(v);
                let now = self.now();
                self.ms[i].value.feed(now, v);
            }
            7 => {
                let n = rng.range(1, 30);
                said = format!("feed {} {} times", v, n);
                for _ in 0..n {
                    m.feed(v);
                    let now = self.now();
                    self.ms[i].value.feed(now, v);
                }
            }
            8 => match &m {
                Any::C(c) => {
                    let v = if v.is_finite() { v.trunc() } else { 1.0 };
                    said = format!("add_u64 {}", v);
                    c.add_u64(v as u64);
                    self.ms[i].value.feed(0, v);
                }
                Any::G(g) => {
                    said = format!("set {}", v);
                    g.set(v);
                    self.ms[i].value = Value::Num(v);
                }
                _ => (),
            },
            9 => match &m {
                Any::C(c) => {
                    said = "increment".into();
                    c.increment();
                    self.ms[i].value.feed(0, 1.0);
                }
                Any::G(g) => {
                    let x = match rng.below(3) {
                        0 => {
                            g.increment();
                            1.0
                        }
                        1 => {
                            g.decrement();
                            -1.0
                        }
                        _ => {
                            g.subtract(v);
                            -v
                        }
                    };
                    said = format!("step {}", x);
                    self.ms[i].value.feed(0, x);
                }
                _ => (),
            },
            10 => {
                if let Any::G(g) = &m {
                    let v = rng.f64_any(true);
                    said = format!("set {:e}", v);
                    g.set(v);
                    self.ms[i].value = Value::Num(v);
                }
            }
            11 => match &m {
                Any::C(c) => {
                    last = "rejected amount";
                    let x = *rng.pick(&[-1.0, f64::NAN, -5e-324, f64::NEG_INFINITY]);
                    said = format!("rejected add of {}", x);
                    tagged(last, invalid(c.add(x), "the amount"))?;
                }
                Any::H(x) if rng.chance(1, 4) => {
                    said = "refused NaN".into();
                    attempt(|| x.observe(f64::NAN));
                }
                _ => (),
            },
            12 | 13 if self.clock => {
                let d = rng.below(1 << 6) as i64 * 125_000_000 + 125_000_000 * rng.below(2) as i64;
                let secs = d as f64 / 1e9;
                said = format!("time {} s", secs);
                last = "timed";
                match &m {
                    Any::C(x) => x.time(|| vclock::advance(d)),
                    Any::G(x) => x.time(|| vclock::advance(d)),
                    Any::S(x) => x.time(|| vclock::advance(d)),
                    Any::H(x) => x.time(|| vclock::advance(d)),
                }
                self.now += d;
                let now = self.now();
                match &mut self.ms[i].value {
                    Value::Num(x) if m.kind() == Kind::Gauge => *x = secs,
                    x => x.feed(now, secs),
                }
            }
            14 => {
                if let Any::G(g) = &m {
                    if let Value::Num(x) = self.ms[i].value {
                        said = "tracked".into();
                        last = "tracked";
                        let panics = rng.chance(1, 4);
                        let mut inside = f64::NAN;
                        let n = if panics {
                            attempt(|| {
                                g.track_inprogress(|| {
                                    inside = g.value();
                                    std::panic::resume_unwind(Box::new(Expected))
                                })
                            });
                            1
                        } else {
                            g.track_inprogress(|| {
                                inside = g.value();
                                1
                            })
                        };
                        hold!(
                            "tracked",
                            n == 1 && same(inside, x + 1.0),
                            "inside it is {} instead of {}",
                            inside,
                            x + 1.0
                        );
                        self.ms[i].value = Value::Num(x + 1.0 - 1.0);
                    }
                }
            }
            15..=17 => {
                let (k, x) = (*rng.pick(&KEYS), *rng.pick(&VALUES));
                said = format!("insert {}={:?}", k, x);
                tagged("labels", m.labels_mut().insert(k, x).must("insert"))?;
                self.ms[i].labels.insert(k.into(), x.into());
            }
            18 => {
                let k = *rng.pick(&KEYS);
                said = format!("remove {}", k);
                m.labels_mut().remove(k);
                self.ms[i].labels.remove(k);
            }
            19 => {
                said = "clear labels".into();
                m.labels_mut().clear();
                self.ms[i].labels.clear();
            }
            20 => {
                let k = match m.kind().reserved() {
                    Some(r) if rng.chance(1, 2) => r,
                    _ => *rng.pick(&["__a", "", "0", "a b", "ä"]),
                };
                said = format!("rejected insert {:?}", k);
                last = "rejected label";
                tagged(last, invalid(m.labels_mut().insert(k, "v"), k))?;
            }
            21 | 22 => {
                let t = match rng.below(4) {
                    0 => 0,
                    1 => rng.next() as i64 | 1,
                    2 => -(rng.below(1000) as i64),
                    _ => 1_600_000_000_000 + rng.below(100) as i64,
                };
                said = format!("timestamp {}", t);
                if rng.chance(1, 3) && t.abs() < 1 << 50 {
                    let d = Duration::from_millis(t.unsigned_abs());
                    m.ts_mut()
                        .set_time(if t < 0 { UNIX_EPOCH - d } else { UNIX_EPOCH + d });
                } else {
                    m.ts_mut().set(t);
                }
                self.ms[i].ts = Some(t);
            }
            23 => {
                said = "clear timestamp".into();
                m.ts_mut().clear();
                self.ms[i].ts = None;
            }
            24 => {
                said = "refused timestamp".into();
                attempt(|| m.ts_mut().set(i64::MIN));
            }
            25 => {
                said = "clone".into();
                if rng.chance(1, 3) {
                    self.ms[i].others.push(m.metric());
                } else {
                    self.ms[i].handles.push(m.clone());
                }
            }
            26 => {
                let k = self.ms[i].handles.len();
                if k > 1 {
                    said = "drop a handle".into();
                    drop(self.ms[i].handles.swap_remove(h));
                } else if self.prefix.is_empty() && rng.chance(1, 2) {
                    // (other worlds' gather results may keep it alive)
                    drop(m);
                    self.forget(i);
                    return Ok(());
                }
            }
            27 => {
                let r = rng.us(self.regs.len());
                if self.ms[i].regs.insert(r) {
                    said = format!("register with {}", r);
                    m.register(&self.regs[r]);
                }
            }
            30 => {
                if let Any::G(g) = &m {
                    said = "set to current time".into();
                    last = "timed";
                    let before = wall_ns();
                    g.set_to_current_time();
                    let v = g.value();
                    let secs = before as f64 / 1e9;
                    hold!(
                        "timed",
                        !self.clock || (v - secs).abs() < 5e-6,
                        "set_to_current_time gave {} at {} s",
                        v,
                        secs
                    );
                    self.ms[i].value = Value::Num(v);
                }
            }
            31 => {
                said = "timestamp now".into();
                let before = wall_ns();
                m.ts_mut().set_now();
                let t = m.ts().get();
                let ms = before.div_euclid(1_000_000) as i64;
                hold!(
                    "timestamp",
                    t.map_or(false, |t| !self.clock || (t - ms).abs() <= 1),
                    "set_now gave {:?} at {} ms",
                    t,
                    ms
                );
                self.ms[i].ts = t;
            }
            28 => {
                said = "read".into();
                drop((m.view(), m.text(), format!("{:?}", m.metric()), m.labels().clone()));
            }
            _ => {
                let twins: Vec<usize> = (0..self.ms.len())
                    .filter(|k| *k != i && self.ms[*k].kind == m.kind() && self.ms[*k].name == self.ms[i].name)
                    .collect();
                if !twins.is_empty() {
                    let k = *rng.pick(&twins);
                    // the same name and labels as another one, so that they merge
                    said = format!("labels like {}", k);
                    let want = self.ms[k].labels.clone();
                    m.labels_mut().clear();
                    for (a, b) in &want {
                        tagged("labels", m.labels_mut().insert(a, b).must("insert"))?;
                    }
                    self.ms[i].labels = want;
                }
            }
        }
        if !said.is_empty() {
            self.log.push(format!("{}.{}", i, said));
            self.ms[i].last = last;
        }
        Ok(())
    }

    /// Compares everything visible of one metric with the model.
    fn look(&self, i: usize) -> W {
        let m = &self.ms[i];
        let h = &m.handles[self.rng.us(m.handles.len())];
        let also = |r: W| -> W {
            r.map_err(|mut e| {
                if !m.last.is_empty() {
                    e.0.push(m.last);
                }
                e.1 = format!("metric {} ({:?} {}): {}", i, m.kind, m.name, e.1);
                e
            })
        };
        also(self.look_at(m, h))
    }
    fn look_at(&self, m: &M, h: &Any) -> W {
        hold!("name", h.name() == m.name, "the name is {} instead of {}", h.name(), m.name);
        hold!("help", h.help() == m.help, "the help is {:?} instead of {:?}", h.help(), m.help);
        let v = h.view();
        let want: Vec<_> = m.labels.clone().into_iter().collect();
        hold!("labels", v.labels == want, "the labels are {:?} instead of {:?}", v.labels, want);
        hold!("timestamp", v.ts == m.ts, "the timestamp is {:?} instead of {:?}", v.ts, m.ts);
        match (&m.value, &v.val) {
            (Value::Num(want), Val::Num(got)) => {
                let tag = if m.kind == Kind::Counter { "counter" } else { "gauge" };
                hold!(tag, same(*got, *want), "the value is {} instead of {}", got, want);
            }
            (Value::Hist { bounds, counts, sum }, Val::Histogram { buckets, count, sum: s }) => {
                let b: Vec<f64> = buckets.iter().map(|x| x.0).collect();
                hold!("bounds", b == *bounds, "the bounds are {:?} instead of {:?}", b, bounds);
                let mut k = 0;
                for (got, c) in buckets.iter().zip(counts) {
                    k += c;
                    hold!("counts", got.1 == k, "bucket {} counts {} instead of {}", got.0, got.1, k);
                }
                hold!("counts", *count == k, "the count is {} instead of {}", count, k);
                hold!("counts", same(*s, *sum), "the sum is {} instead of {}", s, sum);
            }
            (
                Value::Sum {
                    quantiles, count, sum, ..
                },
                Val::Summary {
                    quantiles: got,
                    count: c,
                    sum: s,
                },
            ) => {
                hold!("totals", c == count, "the count is {} instead of {}", c, count);
                hold!("totals", same(*s, *sum), "the sum is {} instead of {}", s, sum);
                tagged("quantiles", check_quantiles(got, quantiles, &m.value.current(self.now)))?;
            }
            _ => hold!("built", false, "it is {:?}", v.val),
        }
        // the text shows the same
        let text = h.text();
        tagged(
            "text",
            promtext::samples(&text)
                .and_then(|s| normalise(m.kind, s))
                .and_then(|s| same_samples(&s, &expected_samples(&m.name, &v)))
                .map_err(|e| format!("{} in {:?}", e, text)),
        )
    }

    fn own(&self, mut f: Vec<Fam>) -> Vec<Fam> {
        f.retain(|x| x.name.starts_with(&self.prefix));
        f
    }

    fn gather(&mut self) -> W {
        let g = self.rng.us(self.gs.len());
        let result = self.gs[g].lock().unwrap().gather();
        self.gathers += 1;
        self.log.push(format!("gather {}", g));
        let got = self.own(fams(&result));
        self.compare(g, &got)?;
        if self.prefix.is_empty() {
            let text = result.to_text();
            tagged(
                "text",
                promtext::families(&text).and_then(|p| {
                    ensure!(p.len() == got.len(), "{} families in the text, {} in the result", p.len(), got.len());
                    for (p, f) in p.into_iter().zip(&got) {
                        ensure!(
                            p.name == f.name && p.kind == f.kind.text() && p.help == f.help,
                            "{} {} {:?} is shown for {} {:?} {:?}",
                            p.name,
                            p.kind,
                            p.help,
                            f.name,
                            f.kind,
                            f.help
                        );
                        let want: Vec<_> = f.metrics.iter().flat_map(|a| expected_samples(&f.name, a)).collect();
                        same_samples(&normalise(f.kind, p.samples)?, &want)?;
                    }
                    Ok(())
                }),
            )?;
        }
        if self.rng.chance(1, 3) {
            self.kept.push(Kept {
                from: g,
                result,
                then: got,
            });
        }
        Ok(())
    }

    /// Compares a gather result with what the metrics are.
    fn compare(&self, g: usize, got: &[Fam]) -> W {
        tagged("family", well_formed(got))?;
        let mut want: BTreeMap<(String, Kind, BTreeMap<String, String>), Vec<&M>> = BTreeMap::new();
        for m in self.ms.iter().filter(|m| m.regs.contains(&g)) {
            want.entry((m.name.clone(), m.kind, m.labels.clone())).or_default().push(m);
        }
        let mut seen = 0;
        for f in got {
            let helps: Vec<_> = want
                .iter()
                .filter(|(k, _)| k.0 == f.name && k.1 == f.kind)
                .flat_map(|(_, ms)| ms.iter().map(|m| &m.help))
                .collect();
            for a in &f.metrics {
                let key = (f.name.clone(), f.kind, a.map());
                let Some(ms) = want.get(&key) else {
                    hold!("membership", false, "{:?} is gathered from {}", key, g);
                    return Ok(());
                };
                seen += 1;
                self.merged.set(self.merged.get() + (ms.len() > 1) as u64);
                self.merged(ms, a)
                    .map_err(|e| Off(e.0, format!("{:?} gathered from {}: {}", key, g, e.1)))?;
            }
            hold!(
                "family",
                helps.contains(&&f.help),
                "the help of {} is {:?}, the members' are {:?}",
                f.name,
                f.help,
                helps
            );
        }
        if seen != want.len() {
            let all: BTreeSet<_> = got
                .iter()
                .flat_map(|f| f.metrics.iter().map(move |a| (f.name.clone(), f.kind, a.map())))
                .collect();
            let missing = want.keys().find(|k| !all.contains(k));
            hold!("membership", false, "{:?} is missing from what is gathered from {}", missing, g);
        }
        Ok(())
    }

    fn merged(&self, ms: &[&M], a: &Agg) -> W {
        let ts = ms.iter().filter_map(|m| m.ts).max();
        hold!("merged timestamp", a.ts == ts, "the timestamp is {:?} instead of {:?}", a.ts, ts);
        match &a.val {
            Val::Num(x) => {
                let vs: Vec<f64> = ms
                    .iter()
                    .map(|m| match m.value {
                        Value::Num(v) => v,
                        _ => f64::NAN,
                    })
                    .collect();
                tagged("merged", check_sum(*x, &vs))?;
            }
            Val::Histogram { buckets, count, sum } => {
                let mut bounds: Vec<f64> = Vec::new();
                let (mut n, mut s) = (0, vec![]);
                for m in ms {
                    if let Value::Hist { bounds: b, counts, sum } = &m.value {
                        bounds.extend(b);
                        n += counts.iter().sum::<u64>();
                        s.push(*sum);
                    }
                }
                bounds.sort_by(|a, b| a.partial_cmp(b).unwrap());
                bounds.dedup();
                let got: Vec<f64> = buckets.iter().map(|x| x.0).collect();
                hold!("pooled", got == bounds, "the bounds are {:?} instead of {:?}", got, bounds);
                for (b, c) in buckets {
                    let k: u64 = ms
                        .iter()
                        .map(|m| match &m.value {
                            Value::Hist { bounds, counts, .. } => {
                                bounds.iter().zip(counts).filter(|x| x.0 <= b).map(|x| x.1).sum()
                            }
                            _ => 0,
                        })
                        .sum();
                    hold!("pooled", *c == k, "bucket {} counts {} instead of {}", b, c, k);
                }
                hold!("pooled", *count == n, "the count is {} instead of {}", count, n);
                tagged("pooled", check_sum(*sum, &s))?;
            }
            Val::Summary { quantiles, count, sum } => {
                let (mut n, mut s, mut qs, mut vs) = (0, vec![], vec![], vec![]);
                for m in ms {
                    if let Value::Sum {
                        quantiles, count, sum, ..
                    } = &m.value
                    {
                        n += count;
                        s.push(*sum);
                        qs.extend(quantiles);
                        vs.extend(m.value.current(self.now));
                    }
                }
                vs.sort_by(|a, b| a.partial_cmp(b).unwrap());
                hold!("pooled", *count == n, "the count is {} instead of {}", count, n);
                tagged("pooled", check_sum(*sum, &s))?;
                tagged("pooled", check_quantiles(quantiles, &qs, &vs))?;
            }
        }
        Ok(())
    }

    /// Earlier results still say what they said.
    fn look_back(&self) -> W {
        for k in &self.kept {
            let now = self.own(fams(&k.result));
            let keep = |fs: &[Fam]| -> Vec<String> {
                fs.iter()
                    .map(|f| {
                        let ms: Vec<_> = f
                            .metrics
                            .iter()
                            .map(|m| match m.val {
                                Val::Num(v) => format!("{:?} {:?} {:?}", m.labels, m.ts, v),
                                _ => format!("{:?}", m.labels),
                            })
                            .collect();
                        format!("{} {:?} {:?} {:?}", f.name, f.kind, f.help, ms)
                    })
                    .collect()
            };
            let (a, b) = (keep(&k.then), keep(&now)); // (NaN shows as itself)
            hold!(
                "kept",
                a == b,
                "a result of gatherer {} has become {:?}, it was {:?}",
                k.from,
                show(&b),
                show(&a)
            );
        }
        Ok(())
    }

    /// The same metrics, registered in another order with a gatherer of their own.
    fn another_order(&mut self) -> W {
        let g = self.rng.us(self.gs.len());
        let mut ids: Vec<usize> = (0..self.ms.len()).filter(|i| self.ms[*i].regs.contains(&g)).collect();
        self.rng.shuffle(&mut ids);
        let mut other = Gatherer::new();
        for i in &ids {
            let m = &self.ms[*i];
            if !m.others.is_empty() && self.rng.chance(1, 2) {
                // through what was kept as a `Metric`
                match &m.others[0] {
                    Metric::Counter(x) => other.registry().register(x.collector()),
                    Metric::Gauge(x) => other.registry().register(x.collector()),
                    Metric::Summary(x) => other.registry().register(x.collector()),
                    Metric::Histogram(x) => other.registry().register(x.collector()),
                }
            } else {
                m.handles[0].register(&other.registry());
            }
        }
        let got = fams(&other.gather());
        self.compare(g, &got)?;
        let r = self.gs[g].lock().unwrap().gather();
        let first = self.own(fams(&r));
        self.compare(g, &first)?;
        let keys = |fs: &[Fam]| -> Vec<_> {
            fs.iter()
                .flat_map(|f| f.metrics.iter().map(move |m| (f.name.clone(), f.kind, m.labels.clone())))
                .collect()
        };
        let (a, b) = (keys(&first), keys(&got));
        hold!("order", a == b, "{:?} in one order of registration, {:?} in another", show(&a), show(&b));
        Ok(())
    }

    fn step(&mut self, every: u64, n: u64, most: usize) -> W {
        let rng = self.rng;
        match rng.below(40) {
            0..=3 if self.ms.len() < most => self.build()?,
            4 => self.bad_build()?,
            5..=7 => self.gather()?,
            8 => self.kept.clear(),
            9 => self.another_order()?,
            10 | 11 => {
                let d = match rng.below(4) {
                    0 => 1,
                    1 => rng.below(3_000_000_000) as i64,
                    2 => 1_500_000_000,
                    _ => rng.below(20_000_000_000) as i64,
                };
                self.advance(d);
                self.log.push(format!("{} ns pass", d));
            }
            12 if self.clock => {
                vclock::set_wall(rng.below(1 << 33) as i64, 0);
                self.log.push("the wall clock jumps".into());
            }
            13 => {
                if let Some(i) = self.some() {
                    self.ms[i].others.clear();
                }
            }
            _ => self.act()?,
        }
        if n % every == 0 {
            for i in 0..self.ms.len() {
                self.look(i)?;
            }
            self.look_back()?;
            self.checks += 1;
        }
        Ok(())
    }
}

fn life(rng: &Rng, prefix: String, clock: bool, gs: Vec<Arc<Mutex<Gatherer>>>, id: &str, steps: u64) -> R<([u64; 3], String)> {
    let mine = aspects(id);
    let mut w = World::new(rng, prefix, clock, gs);
    let every = if steps > 300 { 16 } else { 1 };
    let most = if steps > 300 { 60 } else { rng.range(2, 9) as usize };
    let mut pace = Pace::new(10.0);
    for n in 0..steps {
        if pace.over() {
            break;
        }
        if let Err(Off(tags, e)) = w.step(every, n, most) {
            if id == "C33" || tags.iter().any(|t| mine.contains(t)) {
                let last = w.log[w.log.len().saturating_sub(12)..].join("; ");
                return Err(format!("{} (after {} operations, the last: {})", e, n + 1, last));
            }
            // (another property's business, and the model is of no use any more)
            break;
        }
    }
    Ok(([w.checks, w.gathers, w.merged.get()], w.log.join("; ")))
}

fn tell(case: &mut Case, counts: &[u64; 3]) {
    case.count("checks_of_everything", counts[0]);
    case.count("gathers", counts[1]);
    case.count("merged_metrics", counts[2]);
}

fn gatherers(n: u64) -> Vec<Arc<Mutex<Gatherer>>> {
    (0..n).map(|_| Arc::new(Mutex::new(Gatherer::new()))).collect()
}

pub fn more(id: &str, run: &mut Run) {
    if aspects(id).is_empty() {
        return;
    }
    histories(id, run, 250, 5_000);
}

pub fn c33(run: &mut Run) {
    histories("C33", run, 10_000, 200_000);
    run.cases("worlds-in-parallel", 300, 6_000, |case| {
        let rng = &mut case.rng;
        vclock::real();
        let threads = rng.range(2, sz(5, 2)) as usize;
        let steps = rng.range(sz(10, 3), sz(150, 6));
        let shared = gatherers(rng.range(1, 2));
        let seed = rng.next();
        let r = par(threads, |t| {
            let rng = Rng::new(seed ^ t as u64);
            life(&rng, format!("t{}_", t), false, shared.clone(), "C33", steps)
        })?;
        for (counts, _) in &r {
            tell(case, counts);
        }
        case.count("operations", steps * threads as u64);
        note!(case, format!("{} {} {}", threads, seed, r[0].1));
        Ok(())
    });
}

fn histories(id: &str, run: &mut Run, quick: u64, thorough: u64) {
    let clock = vclock::works();
    run.cases("whole-histories", quick, thorough, |case| {
        let rng = case.rng.fork();
        let steps = rng.big(200, 6000).unwrap_or(rng.range(5, sz(150, 12)));
        let n = rng.range(1, 3);
        let (counts, log) = life(&rng, String::new(), clock, gatherers(n), id, steps)?;
        case.count("operations", steps);
        tell(case, &counts);
        note!(case, log);
        Ok(())
    });
}

//! C27 (gather results are snapshots), C28 (user code called by the library), C29 (bounded memory).

use crate::alloc;
use crate::core::*;
use crate::model::*;
use crate::rng::*;
use crate::vclock;
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{Collect, Gatherer, Registry};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

const NAMES: [&str; 4] = ["a", "a_b", "b", "c"];
const LABELS: [&str; 3] = ["k", "l", "m"];
const VALUES: [&str; 3] = ["1", "2", "\n\"\\"];

fn spec(rng: &Rng) -> Spec {
    let mut s = Spec::new(*rng.pick(&KINDS), *rng.pick(&NAMES));
    for l in LABELS {
        if rng.chance(1, 4) {
            s = s.label(l, *rng.pick(&VALUES));
        }
    }
    if rng.chance(1, 2) {
        s.help = Some(format!("help of {}", s.name));
    }
    if rng.chance(1, 4) && s.name == "a_b" {
        s.namespace = Some("a".into());
        s.name = "b".into();
    }
    s.bounds = vec![1.0, 10.0];
    s.quantiles = vec![0.5];
    s
}

/// One random operation through one handle.
fn disturb(m: &mut Any, rng: &Rng) {
    match rng.below(7) {
        0 | 1 => m.feed(rng.dyadic()),
        2 => m.labels_mut().insert(*rng.pick(&LABELS), *rng.pick(&VALUES)).expect("insert"),
        3 => m.labels_mut().remove(*rng.pick(&LABELS)),
        4 => m.labels_mut().clear(),
        5 => m.ts_mut().set(rng.below(1000) as i64 - 500),
        _ => m.ts_mut().clear(),
    }
}

// -- C27 -----------------------------------------------------------------------------------------

/// The part of a gather result that never changes.
#[derive(Clone, PartialEq, Debug)]
struct Fixed(Vec<(String, Kind, Option<String>, Vec<(Vec<(String, String)>, Option<(u64, Option<i64>)>)>)>);

fn fixed(fs: &[Fam]) -> Fixed {
    Fixed(
        fs.iter()
            .map(|f| {
                let ms = f
                    .metrics
                    .iter()
                    .map(|m| {
                        let v = match m.val {
                            Val::Num(v) => Some((v.to_bits(), m.ts)),
                            _ => None,
                        };
                        (m.labels.clone(), v)
                    })
                    .collect();
                (f.name.clone(), f.kind, f.help.clone(), ms)
            })
            .collect(),
    )
}

/// The lines of counters and gauges (and the headers) in the text.
fn fixed_text(r: &MetricFamilies) -> String {
    let mut o = String::new();
    for f in r.as_ref() {
        if matches!(Kind::of(f.kind()), Kind::Counter | Kind::Gauge) {
            let _ = write!(o, "{}", f);
        }
    }
    o
}

/// All ways of looking at a result that nobody changes.
fn views_agree(r: &MetricFamilies) -> R {
    let all = fams(r);
    let show_all = format!("{:?}", all);
    let v = r.clone().into_vec();
    ensure!(
        format!("{:?}", v.iter().map(fam).collect::<Vec<_>>()) == show_all,
        "into_vec() shows {:?}, as_ref() {}",
        v.iter().map(fam).collect::<Vec<_>>(),
        show_all
    );
    let it: Vec<Fam> = r.clone().into_iter().map(|f| fam(&f)).collect();
    ensure!(format!("{:?}", it) == show_all, "iteration shows {:?}, as_ref() {}", it, show_all);
    let joined: String = r.as_ref().iter().map(|f| f.to_string()).collect();
    ensure!(
        r.to_text() == joined,
        "to_text() is {:?}, the texts of the families are {:?}",
        r.to_text(),
        joined
    );
    let again: String = v.iter().map(|f| f.to_string()).collect();
    ensure!(again == joined, "the text of a clone is {:?}, not {:?}", again, joined);
    for f in r.as_ref() {
        ensure!(
            f.to_string().ends_with(&f.metrics().to_string()),
            "the text of the family {:?} does not end with that of its metrics {:?}",
            f.to_string(),
            f.metrics().to_string()
        );
        ensure!(
            f.metrics().clone().to_string() == f.metrics().to_string(),
            "the text of cloned metrics differs"
        );
    }
    Ok(())
}

pub fn c27(run: &mut Run) {
    run.cases("snapshot", 12_000, 250_000, |case| {
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let reg = g.registry();
        let n = match rng.below(10) {
            0 => sz(rng.range(20, if rng.chance(1, 10) { 500 } else { 60 }), 4),
            _ => rng.big(3000, 12_000).unwrap_or(rng.range(1, sz(8, 4))),
        };
        let own_families = n > 8 && rng.chance(1, 2);
        let own = if rng.chance(1, 2) { 300 } else { 100_000 };
        let mut ms: Vec<Any> = (0..n)
            .map(|i| {
                let mut s = spec(rng);
                if own_families {
                    s.name = format!("{}{}", s.name, i % own);
                }
                s.must(&[&reg])
            })
            .collect::<R<_>>()?;
        for _ in 0..rng.below(2 * n + 1) {
            let i = rng.us(ms.len());
            disturb(&mut ms[i], rng);
        }
        let r = g.gather();
        views_agree(&r)?;
        let (want, text) = (fixed(&fams(&r)), fixed_text(&r));
        let mut results = vec![r];
        let mut log = Vec::new();
        for step in 0..rng.range(1, sz(12, 5)) {
            let what = rng.below(8);
            log.push(what);
            match what {
                0 if !ms.is_empty() => {
                    let i = rng.us(ms.len());
                    ms.swap_remove(i);
                }
                1 => ms.push(spec(rng).must(&[&reg])?),
                2 => {
                    let new = g.gather();
                    views_agree(&new)?;
                }
                3 => {
                    let c = results[0].clone();
                    results.push(c);
                    if rng.chance(1, 2) {
                        results.swap_remove(0);
                    }
                }
                4 if rng.chance(1, 4) => ms.clear(),
                5 => {
                    let r = results.pop().unwrap();
                    results.push(std::thread::scope(|s| s.spawn(move || r).join().unwrap()));
                }
                _ if !ms.is_empty() => {
                    for _ in 0..rng.below(4) {
                        let i = rng.us(ms.len());
                        disturb(&mut ms[i], rng);
                    }
                }
                _ => {}
            }
            for r in &results {
                let got = fixed(&fams(r));
                ensure!(
                    got == want,
                    "after step {} ({:?}) the gather result shows {:?}, at the gather it showed {:?}",
                    step,
                    log,
                    got,
                    want
                );
            }
            if rng.chance(1, 3) {
                let got = fixed_text(&results[0]);
                ensure!(got == text, "the text of the gather result changed from {:?} to {:?}", text, got);
                views_agree(&results[0])?;
            }
        }
        case.count("metrics", n);
        case.count("results_compared", log.len() as u64);
        note!(case, format!("{:?} {:?}", log, want));
        Ok(())
    });
    run.cases("concurrent-snapshot", 400, 8000, |case| {
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let reg = g.registry();
        let n = rng.range(1, sz(6, 2));
        let mut ms: Vec<Any> = (0..n).map(|_| spec(rng).must(&[&reg])).collect::<R<_>>()?;
        for m in &mut ms {
            disturb(m, rng);
        }
        let writers = rng.range(1, sz(4, 2)) as usize;
        let readers = rng.range(1, sz(3, 1)) as usize;
        let per = rng.range(1, sz(1500, 6));
        let live = AtomicU64::new(writers as u64);
        let seed = rng.next();
        let gm = Mutex::new(&mut g);
        let counts = par(writers + readers, |t| {
            let rng = Rng::new(seed ^ t as u64);
            if t < writers {
                let mut ms = ms.clone();
                for _ in 0..per {
                    let i = rng.us(ms.len());
                    disturb(&mut ms[i], &rng);
                }
                live.fetch_sub(1, SeqCst);
                return Ok((0, 0));
            }
            let (mut seen, mut moved) = (0, 0);
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let r = gm.lock().unwrap().gather();
                let (want, text) = (fixed(&fams(&r)), fixed_text(&r));
                for _ in 0..3 {
                    rng.spin(200);
                    let got = fixed(&fams(&r));
                    ensure!(got == want, "the gather result changed from {:?} to {:?}", want, got);
                }
                ensure!(fixed_text(&r) == text, "the text of a gather result changed from {:?}", text);
                let c = r.clone();
                ensure!(fixed(&fams(&c)) == want, "a clone of the gather result differs from {:?}", want);
                seen += 1;
                moved += u64::from(want != fixed(&fams(&gm.lock().unwrap().gather())));
                if done {
                    return Ok((seen, moved));
                }
            }
        })?;
        case.count("gathers", counts.iter().map(|c| c.0).sum());
        case.count("gathers_after_which_the_metrics_changed", counts.iter().map(|c| c.1).sum());
        note!(case, format!("{}w {}r x{} {:?}", writers, readers, per, counts));
        Ok(())
    });
}

// -- C28 -----------------------------------------------------------------------------------------

/// What user code may get hold of, with what its operations add up to.
struct World {
    metrics: Vec<Any>,
    totals: Vec<Mutex<f64>>,
    /// completed and started calls of the timing helpers, which make one observation each
    counts: Vec<Mutex<(u64, u64)>>,
    labels: Vec<Mutex<BTreeMap<String, String>>>,
    reg: Registry,
    other: Mutex<Gatherer>,
    other_reg: Registry,
    built: Mutex<Vec<(String, Any)>>,
    ops: AtomicU64,
    exact_labels: bool,
}
struct Recount<'a>(&'a World, &'a Rng, u64, String);
/// Does what the user of `Display` is allowed to do.
impl std::fmt::Write for Recount<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.3.push_str(s);
        if self.2 > 0 {
            self.2 -= 1;
            op(self.0, self.1, 0).map_err(|_| std::fmt::Error)?;
        }
        Ok(())
    }
}

impl World {
    fn new(rng: &Rng, reg: &Registry, exact_labels: bool) -> R<World> {
        let n = rng.range(1, 5) as usize;
        let other = Gatherer::new();
        let other_reg = other.registry();
        let metrics: Vec<Any> = (0..n)
            .map(|i| {
                let mut s = Spec::new(KINDS[(i + rng.us(4)) % 4], &format!("m{}", i));
                s.bounds = vec![1.0, 100.0];
                s.quantiles = vec![0.0, 1.0];
                s.enriched(rng, false).must(&[reg, &other_reg])
            })
            .collect::<R<_>>()?;
        Ok(World {
            totals: metrics.iter().map(|_| Mutex::new(0.0)).collect(),
            counts: metrics.iter().map(|_| Mutex::new((0, 0))).collect(),
            labels: metrics.iter().map(|_| Mutex::new(BTreeMap::new())).collect(),
            metrics,
            reg: reg.clone(),
            other: Mutex::new(other),
            other_reg,
            built: Mutex::new(Vec::new()),
            ops: AtomicU64::new(0),
            exact_labels,
        })
    }
    fn add(&self, i: usize, v: f64, observations: u64) {
        *self.totals[i].lock().unwrap() += v;
        let mut c = self.counts[i].lock().unwrap();
        c.0 += observations;
        c.1 += observations;
    }
    /// After everything has returned.
    fn check(&self, g: &mut Gatherer) -> R {
        for (i, m) in self.metrics.iter().enumerate() {
            let want = *self.totals[i].lock().unwrap();
            ensure!(
                m.total() == want,
                "{:?} {} is {} instead of {} after all calls",
                m.kind(),
                i,
                m.total(),
                want
            );
            let (lo, hi) = *self.counts[i].lock().unwrap();
            let n = match m {
                Any::S(m) => m.count(),
                Any::H(m) => m.count(),
                _ => lo,
            };
            ensure!(
                lo <= n && n <= hi,
                "{:?} {} has {} observations instead of {}..{}",
                m.kind(),
                i,
                n,
                lo,
                hi
            );
            if self.exact_labels {
                let want: Vec<(String, String)> =
                    self.labels[i].lock().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(
                    label_vec(m.labels()) == want,
                    "the labels are {:?} instead of {:?}",
                    label_vec(m.labels()),
                    want
                );
            }
        }
        let built = self.built.lock().unwrap();
        let fs = gather(g)?;
        for (name, m) in built.iter() {
            ensure!(
                find(&fs, name, m.kind()).map_or(false, |f| f.metrics.len() == 1),
                "{} was built in user code and is not gathered",
                name
            );
        }
        for m in &self.metrics {
            ensure!(
                find(&fs, &m.name(), m.kind()).is_some(),
                "{} is not gathered any more",
                m.name()
            );
        }
        ensure!(
            fs.len() == built.len() + self.metrics.len(),
            "{} families instead of {}",
            fs.len(),
            built.len() + self.metrics.len()
        );
        Ok(())
    }
}

/// One operation; some call user code again.
fn op(w: &World, rng: &Rng, depth: u64) -> R {
    w.ops.fetch_add(1, Relaxed);
    let i = rng.us(w.metrics.len());
    let m = &w.metrics[i];
    match rng.below(if depth == 0 { 12 } else { 20 }) {
        0 | 1 => {
            let v = rng.below(64) as f64 / 8.0;
            m.feed(v);
            w.add(i, v, 1);
        }
        2 => {
            let mut c = m.clone();
            let (k, v) = (*rng.pick(&LABELS), *rng.pick(&VALUES));
            let mut map = w.labels[i].lock().unwrap();
            c.labels_mut().insert(k, v).must("insert")?;
            map.insert(k.into(), v.into());
        }
        3 => {
            let mut c = m.clone();
            let k = *rng.pick(&LABELS);
            let mut map = w.labels[i].lock().unwrap();
            c.labels_mut().remove(k);
            map.remove(k);
        }
        4 => {
            ensure!(!m.text().is_empty(), "no text");
        }
        5 => {
            let _ = m.view();
        }
        6 => {
            // (the lock is the harness's own, and may be held by a caller further up)
            if let Ok(mut g) = w.other.try_lock() {
                let _ = g.gather().to_text();
            }
        }
        7 => {
            let name = format!("n{}", w.ops.load(Relaxed));
            let x = Spec::new(*rng.pick(&KINDS), &name).enriched(rng, true).must(&[&w.reg])?;
            let mut b = w.built.lock().unwrap();
            if b.iter().all(|x| x.0 != name) {
                b.push((name, x));
            }
        }
        8 => {
            let mut c = m.clone();
            c.ts_mut().set(5);
            c.ts_mut().set_now();
            c.ts_mut().clear();
        }
        9 => {
            Spec::new(*rng.pick(&KINDS), "0").must_fail(&[&w.reg, &w.other_reg])?;
            invalid(m.clone().labels_mut().insert("__x", ""), "inserting __x")?;
        }
        10 => {
            if let Any::G(g) = m {
                g.increment();
                g.subtract(1.0);
            }
        }
        11 => {
            let _ = (m.metric_name().to_string(), m.help(), m.ts().get(), m.labels().to_string());
        }
        12 => timed(w, rng, depth - 1, i)?,
        13 => {
            // labels are changed while they are visited
            let mut c = m.clone();
            let mut n = 0;
            let it = m.labels().iter();
            let before = w.exact_labels.then(|| label_vec(m.labels()));
            let mut seen = Vec::new();
            for l in it {
                let (k, v) = (l.name().to_string(), l.value().to_string());
                if n < 3 {
                    let mut map = w.labels[i].lock().unwrap();
                    if rng.chance(1, 2) {
                        c.labels_mut().remove(&k);
                        map.remove(&k);
                    } else {
                        c.labels_mut().insert("m", "new").must("insert")?;
                        map.insert("m".into(), "new".into());
                    }
                }
                n += 1;
                seen.push((k, v));
            }
            if let Some(b) = before {
                ensure!(
                    seen == b,
                    "visiting labels while changing them shows {:?} instead of {:?}",
                    seen,
                    b
                );
            }
        }
        14 => {
            if let Any::H(h) = m {
                let mut last = 0;
                for b in h.cumulative_buckets() {
                    ensure!(b.cumulative_count() >= last, "cumulative counts fall");
                    last = b.cumulative_count();
                    let v = rng.below(300) as f64;
                    h.observe(v);
                    w.add(i, v, 1);
                }
                for b in h.buckets() {
                    let _ = b.count();
                    op(w, rng, depth - 1)?;
                }
            }
        }
        15 | 16 => {
            // formatting writes to user code
            let mut out = Recount(w, rng, rng.below(6), String::new());
            let r = match m {
                Any::C(m) => write!(out, "{}", m),
                Any::G(m) => write!(out, "{}", m),
                Any::S(m) => write!(out, "{}", m),
                Any::H(m) => write!(out, "{}", m),
            };
            ensure!(r.is_ok(), "writing the text failed");
        }
        17 => {
            if let Ok(mut g) = w.other.try_lock() {
                let r = g.gather();
                let mut out = Recount(w, rng, rng.below(6), String::new());
                for f in r.as_ref() {
                    ensure!(write!(out, "{}", f).is_ok(), "writing the text failed");
                }
            }
        }
        18 => {
            // bounds come from user code
            let mut b = HistogramBuilder::new("h");
            b.buckets((0..3).map(|i| {
                let _ = op(w, rng, 0);
                i as f64
            }));
            ensure!(b.finish().must("finish")?.buckets().len() == 4, "buckets are missing");
        }
        _ => {
            for _ in 0..2 {
                op(w, rng, depth - 1)?;
            }
        }
    }
    Ok(())
}

/// A closure run by the library, which may panic.
fn timed(w: &World, rng: &Rng, depth: u64, i: usize) -> R {
    let throw = rng.chance(1, 4);
    let mut inner = Ok(());
    let track = rng.chance(1, 2);
    w.counts[i].lock().unwrap().1 += 1;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut f = || {
            for _ in 0..rng.below(3) {
                if let Err(e) = op(w, rng, depth) {
                    inner = Err(e);
                }
            }
            if throw {
                resume_unwind(Box::new(Expected));
            }
            17
        };
        match &w.metrics[i] {
            Any::C(m) => m.time(f),
            Any::S(m) => m.time(f),
            Any::H(m) => m.time(f),
            // (time() of a gauge sets it)
            Any::G(m) if track => m.track_inprogress(f),
            Any::G(_) => f(),
        }
    }));
    inner?;
    match r {
        Ok(v) => {
            ensure!(!throw && v == 17, "the result of the closure was lost");
            w.counts[i].lock().unwrap().0 += 1;
        }
        Err(p) => ensure!(throw && p.is::<Expected>(), "another panic than that of the closure: {}", take_panics()),
    }
    Ok(())
}

struct Reenter {
    w: Arc<World>,
    rng: Rng,
    failed: Arc<Mutex<Option<String>>>,
    polls: Arc<AtomicU64>,
    panics: bool,
}
// (the generator is only used by the thread that polls)
unsafe impl Send for Reenter {}
impl Collect for Reenter {
    type Metrics = Box<dyn Iterator<Item = Metric>>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.polls.fetch_add(1, SeqCst);
        for _ in 0..self.rng.below(5) {
            if let Err(e) = op(&self.w, &self.rng, 3) {
                *self.failed.lock().unwrap() = Some(e);
            }
        }
        if self.panics && self.rng.chance(1, 6) {
            resume_unwind(Box::new(Expected));
        }
        let w = self.w.clone();
        let rng = self.rng.fork();
        Some(Box::new((0..self.rng.below(3)).filter_map(move |_| {
            let _ = op(&w, &rng, 1);
            None
        })))
    }
}

/// Calls everything from another thread while this one is inside the library; the watchdog finds what never returns.
fn blocked(case: &mut Case) -> R {
    let rng = &case.rng;
    let mut g = Gatherer::new();
    let reg = g.registry();
    let w = Arc::new(World::new(rng, &reg, false)?);
    for m in &w.metrics {
        m.clone().labels_mut().insert("k", "v").must("insert")?;
    }
    let (ready_tx, ready_rx) = mpsc::channel::<()>();
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let mode = rng.below(9);
    let i = rng.us(w.metrics.len());
    let seed = rng.next();
    let n = sz(200, 8);
    let pause = move || {
        let _ = ready_tx.send(());
        let _ = go_rx.recv();
    };
    let m = w.metrics[i].clone();
    std::thread::scope(|s| -> R {
        let h = {
            let w = w.clone();
            s.spawn(move || {
                guard(|| {
                    ready_rx.recv().must("waiting")?;
                    let rng = Rng::new(seed);
                    for _ in 0..n {
                        op(&w, &rng, 3)?;
                    }
                    // every operation has returned
                    drop(go_tx);
                    Ok(())
                })
            })
        };
        match mode {
            0 => {
                struct Slow<F>(Option<F>);
                impl<F: FnOnce()> Collect for Slow<F> {
                    type Metrics = std::vec::IntoIter<Metric>;
                    fn collect(&mut self) -> Option<Self::Metrics> {
                        (self.0.take()?)();
                        None
                    }
                }
                reg.register(Slow(Some(pause)));
                let _ = g.gather();
            }
            1 => match &m {
                Any::C(m) => {
                    let v = m.value();
                    let _ = v;
                    m.track(pause)
                }
                Any::G(m) => m.track_inprogress(pause),
                Any::S(m) => m.track(pause),
                Any::H(m) => m.track(pause),
            },
            2 => {
                let mut c = m.clone();
                let l = c.labels_mut();
                pause();
                let _ = l.len();
            }
            3 => {
                let mut c = m.clone();
                let t = c.ts_mut();
                pause();
                let _ = t.get();
            }
            4 => {
                let mut it = m.labels().iter();
                let first = it.next().map(|l| l.name().to_string());
                pause();
                let _ = (first, it.count());
            }
            5 => {
                struct Out<F>(Option<F>);
                impl<F: FnOnce()> std::fmt::Write for Out<F> {
                    fn write_str(&mut self, _: &str) -> std::fmt::Result {
                        if let Some(f) = self.0.take() {
                            f()
                        }
                        Ok(())
                    }
                }
                let mut o = Out(Some(pause));
                let r = match &m {
                    Any::C(m) => write!(o, "{}", m),
                    Any::G(m) => write!(o, "{}", m),
                    Any::S(m) => write!(o, "{}", m),
                    Any::H(m) => write!(o, "{}", m),
                };
                r.must("writing")?;
            }
            6 => {
                let r = g.gather();
                pause();
                drop(r.to_text());
            }
            7 => {
                let r = g.gather();
                let mut p = Some(pause);
                for f in r {
                    let _ = f.to_string();
                    if let Some(p) = p.take() {
                        p();
                    }
                }
            }
            _ => {
                let mut p = Some(pause);
                let mut b = MetricBuilder::with_registry(reg.clone());
                b.label("x", "y");
                let mut hb = b.histogram("hb");
                hb.buckets((0..2).map(|i| {
                    if let Some(p) = p.take() {
                        p();
                    }
                    i as f64
                }));
                let _ = hb.finish().must("finish")?;
            }
        }
        h.join().unwrap_or_else(|_| Err(take_panics()))
    })?;
    drop(m);
    case.count("operations_during_another", w.ops.load(SeqCst));
    note!(case, format!("mode {} {:?} seed {}", mode, w.metrics[i].kind(), seed));
    Ok(())
}

/// `time` without looking at what it records.
trait Track {
    fn track(&self, f: impl FnOnce());
}
impl Track for Counter {
    fn track(&self, f: impl FnOnce()) {
        self.time(f)
    }
}
impl Track for Summary {
    fn track(&self, f: impl FnOnce()) {
        self.time(f)
    }
}
impl Track for Histogram {
    fn track(&self, f: impl FnOnce()) {
        self.time(f)
    }
}

pub fn c28(run: &mut Run) {
    // (virtual time stands still, so that timing helpers add nothing to the sums)
    let still = || vclock::set_virtual(1_000_000_000, 1_600_000_000, 0);
    if vclock::works() {
        run.cases("re-entrant-collectors", 3_000, 60_000, |case| {
            let rng = &mut case.rng;
            still();
            let mut g = Gatherer::new();
            let reg = g.registry();
            let w = Arc::new(World::new(rng, &reg, true)?);
            let failed = Arc::new(Mutex::new(None));
            let polls = Arc::new(AtomicU64::new(0));
            let panics = rng.chance(1, 3);
            let n = rng.range(1, 4);
            for _ in 0..n {
                let r = Reenter {
                    w: w.clone(),
                    rng: rng.fork(),
                    failed: failed.clone(),
                    polls: polls.clone(),
                    panics,
                };
                if rng.chance(1, 2) {
                    reg.register(r)
                } else {
                    g.registry().register(r)
                }
            }
            let mut panicked = 0;
            let rounds = rng.range(1, 5);
            for _ in 0..rounds {
                let before = polls.load(SeqCst);
                match catch_unwind(AssertUnwindSafe(|| g.gather())) {
                    Ok(_) => ensure!(
                        polls.load(SeqCst) == before + n,
                        "{} collectors were polled instead of {}",
                        polls.load(SeqCst) - before,
                        n
                    ),
                    Err(p) => {
                        ensure!(panics && p.is::<Expected>(), "gather panicked: {}", take_panics());
                        panicked += 1;
                    }
                }
            }
            if let Some(e) = failed.lock().unwrap().take() {
                return Err(e);
            }
            let ops = w.ops.load(SeqCst);
            check_quiet(&w, &mut g, panics)?;
            case.count("operations_in_collectors", ops);
            case.count("panics", panicked);
            note!(case, format!("{} collectors, {} rounds, {} operations, {} panics", n, rounds, ops, panicked));
            Ok(())
        });
        run.cases("re-entrant-closures", 12_000, 250_000, |case| {
            let rng = &mut case.rng;
            still();
            let mut g = Gatherer::new();
            let reg = g.registry();
            let w = World::new(rng, &reg, true)?;
            for _ in 0..rng.range(1, 10) {
                let i = rng.us(w.metrics.len());
                timed(&w, rng, 3, i)?;
                op(&w, rng, 4)?;
            }
            w.check(&mut g)?;
            let ops = w.ops.load(SeqCst);
            case.count("operations_in_closures", ops);
            note!(case, format!("{:?} {} {:?}", w.metrics.len(), ops, w.totals));
            Ok(())
        });
        run.cases("from-many-threads", 400, 8_000, |case| {
            let rng = &mut case.rng;
            still();
            let mut g = Gatherer::new();
            let reg = g.registry();
            let w = World::new(rng, &reg, false)?;
            let threads = rng.range(2, 4) as usize;
            let per = rng.range(5, 60);
            let seed = rng.next();
            par(threads, |t| {
                let rng = Rng::new(seed ^ t as u64);
                for _ in 0..per {
                    op(&w, &rng, 4)?;
                }
                Ok(())
            })?;
            let mut names = std::collections::HashSet::new();
            w.built.lock().unwrap().retain(|x| names.insert(x.0.clone()));
            w.check(&mut g)?;
            let ops = w.ops.load(SeqCst);
            case.count("operations", ops);
            note!(case, format!("{}x{} {} {}", threads, per, ops, seed));
            Ok(())
        });
    }
    run.cases("while-inside-the-library", 1_500, 30_000, |case| blocked(case));
}

/// The collectors of this world still run operations when polled, so totals are compared first.
fn check_quiet(w: &World, g: &mut Gatherer, panics: bool) -> R {
    for (i, m) in w.metrics.iter().enumerate() {
        let want = *w.totals[i].lock().unwrap();
        ensure!(
            m.total() == want,
            "{:?} {} is {} instead of {} after its collectors ran",
            m.kind(),
            i,
            m.total(),
            want
        );
    }
    let built: Vec<(String, Kind)> = w.built.lock().unwrap().iter().map(|x| (x.0.clone(), x.1.kind())).collect();
    for _ in 0..50 {
        match catch_unwind(AssertUnwindSafe(|| g.gather())) {
            Ok(r) => {
                let fs = fams(&r);
                for (name, kind) in &built {
                    ensure!(
                        find(&fs, name, *kind).map_or(false, |f| f.metrics.len() == 1),
                        "{} was built in a collector and is not gathered later",
                        name
                    );
                }
                for m in &w.metrics {
                    ensure!(
                        find(&fs, &m.name(), m.kind()).is_some(),
                        "{} is not gathered any more",
                        m.name()
                    );
                }
                return Ok(());
            }
            Err(p) => ensure!(panics && p.is::<Expected>(), "gather panicked: {}", take_panics()),
        }
    }
    Ok(())
}

// -- C29 -----------------------------------------------------------------------------------------

struct Bench {
    g: Gatherer,
    reg: Registry,
    ms: Vec<Any>,
    failing: u64,
}
const ACTS: u64 = 17;

fn act(b: &mut Bench, which: u64, rng: &Rng, k: u64) -> R {
    let i = (k % b.ms.len() as u64) as usize;
    match which {
        0 => b.ms[i].feed(rng.dyadic()),
        1 => {
            let (l, v) = (LABELS[(k % 3) as usize], VALUES[(k / 3 % 3) as usize]);
            b.ms[i].labels_mut().insert(l, v).must("insert")?;
        }
        2 => {
            b.ms[i].labels_mut().insert("z", "z").must("insert")?;
            b.ms[i].labels_mut().remove("z");
        }
        3 => {
            b.ms[i].labels_mut().insert("z", "z").must("insert")?;
            b.ms[i].labels_mut().clear();
        }
        4 => drop(b.ms[i].text()),
        5 => drop(b.ms[i].view()),
        6 => drop(b.g.gather()),
        7 => drop(b.g.gather().to_text()),
        8 => {
            let c = b.ms[i].clone();
            b.ms[i] = c;
        }
        9 => {
            // built, gathered, dropped
            let m = Spec::new(b.ms[i].kind(), "t").label("a", "b").must(&[&b.reg])?;
            if k % 2 == 0 {
                drop(b.g.gather());
            }
            drop(m);
            drop(b.g.gather());
        }
        10 => drop(Spec::new(b.ms[i].kind(), "t").label("a", "b").must(&[])?),
        11 => {
            Spec::new(b.ms[i].kind(), "t").label("0", "b").must_fail(&[&b.reg])?;
            let _ = b.ms[i].labels_mut().insert("0", "");
            b.failing += 1;
        }
        12 => {
            let r = b.g.registry();
            b.reg = r.clone();
        }
        13 => {
            let mut g = Gatherer::new();
            b.ms[i].register(&g.registry());
            if k % 2 == 0 {
                drop(g.gather());
            }
        }
        14 => {
            match &b.ms[i] {
                Any::C(m) => m.time(|| ()),
                Any::G(m) => m.time(|| ()),
                Any::S(m) => m.time(|| ()),
                Any::H(m) => m.time(|| ()),
            }
            if let Any::G(m) = &b.ms[i] {
                m.track_inprogress(|| ());
                m.set_to_current_time();
            }
        }
        15 => {
            b.ms[i].ts_mut().set_now();
            b.ms[i].ts_mut().clear();
        }
        _ => {
            let l = b.ms[i].labels();
            let _ = (l.len(), l.to_string());
            let mut n = 0;
            for x in l.iter() {
                n += x.name().len();
            }
            let c = l.clone();
            ensure!(n == 0 || c.len() > 0, "a copy of the labels is empty");
        }
    }
    Ok(())
}

pub fn c29(run: &mut Run) {
    if !vclock::works() {
        return;
    }
    run.cases("steady-state", 1_200, 30_000, |case| {
        let rng = &mut case.rng;
        vclock::set_virtual(1_000_000_000, 1_600_000_000, 0);
        let mut g = Gatherer::new();
        let reg = g.registry();
        let n = rng.range(1, 5);
        let ms: Vec<Any> = (0..n)
            .map(|i| {
                let mut s = Spec::new(*rng.pick(&KINDS), &format!("m{}", i % 3));
                s.window = Duration::from_millis(1);
                s.quantiles = vec![0.5];
                s.bounds = vec![1.0, 2.0];
                s.enriched(rng, true).must(&[&reg])
            })
            .collect::<R<_>>()?;
        drop(g.gather());
        let mut b = Bench { g, reg, ms, failing: 0 };
        let mut acts = vec![rng.below(ACTS)];
        while rng.chance(1, 2) {
            acts.push(rng.below(ACTS));
        }
        let ops = rng.range(400, 1500);
        let work = rng.fork();
        let mut k = 0;
        let mut round = |b: &mut Bench, n: u64| -> R {
            for _ in 0..n {
                let a = acts[(k % acts.len() as u64) as usize];
                act(b, a, &work, k / acts.len() as u64)?;
                // at most about ten observations are younger than the window
                vclock::advance(100_000);
                k += 1;
            }
            Ok(())
        };
        round(&mut b, 300)?;
        alloc::start();
        let mut grown = Vec::new();
        let r = round(&mut b, ops).and_then(|_| {
            grown.push(alloc::live());
            round(&mut b, 3 * ops)?;
            grown.push(alloc::live());
            // a few bytes per operation at most; buffers may be fuller or emptier by chance, so what looks
            // like growth has to go on
            if grown[1] - grown[0] >= 2500 + ops as i64 {
                round(&mut b, 12 * ops)?;
                grown.push(alloc::live());
            }
            Ok(())
        });
        alloc::stop();
        r?;
        let rate = |from: usize, to: usize, ops: u64| (grown[to] - grown[from]) as f64 / ops as f64;
        ensure!(
            grown.len() < 3 || rate(1, 2, 12 * ops) < rate(0, 1, 3 * ops) / 2.0,
            "the heap grew by {:?} bytes after {}, {} and {} operations of the kinds {:?}",
            grown,
            ops,
            4 * ops,
            16 * ops,
            acts
        );
        let (first, last) = (grown[0], grown[1]);
        case.count("operations", 4 * ops);
        note!(case, format!("{:?} {} metrics {} ops: {} {}", acts, n, ops, first, last - first));
        Ok(())
    });
    run.cases("concurrent-churn", 60, 1_500, |case| {
        let rng = &mut case.rng;
        vclock::real();
        let mut g = Gatherer::new();
        let reg = g.registry();
        let kinds = [*rng.pick(&KINDS), *rng.pick(&KINDS)];
        let ms: Vec<Any> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let mut s = Spec::new(*k, &format!("m{}", i));
                s.window = Duration::from_millis(1);
                s.enriched(rng, true).must(&[&reg])
            })
            .collect::<R<_>>()?;
        drop(g.gather());
        let threads = rng.range(2, 5) as usize;
        let per = rng.range(200, 2000);
        let seed = rng.next();
        let gm = Mutex::new(&mut g);
        let work = || -> R {
            par(threads, |t| {
                let rng = Rng::new(seed ^ t as u64);
                let mut ms = ms.clone();
                for i in 0..per {
                    let m = &mut ms[(i % 2) as usize];
                    match rng.below(6) {
                        0 => m.labels_mut().insert(*rng.pick(&LABELS), *rng.pick(&VALUES)).must("insert")?,
                        1 => m.labels_mut().remove(*rng.pick(&LABELS)),
                        2 => drop(m.text()),
                        3 if i % 8 == 0 => drop(gm.lock().unwrap().gather()),
                        4 if !matches!(m, Any::S(_)) => m.feed(1.0),
                        _ => drop(label_vec(m.labels())),
                    }
                }
                Ok(())
            })?;
            Ok(())
        };
        work()?;
        alloc::start();
        let mut grown = Vec::new();
        let r = work().and_then(|_| work()).and_then(|_| {
            grown.push(alloc::live());
            if grown[0] >= 4000 {
                for _ in 0..6 {
                    work()?;
                }
                grown.push(alloc::live());
            }
            Ok(())
        });
        alloc::stop();
        r?;
        ensure!(
            grown.len() < 2 || grown[1] < grown[0] * 2,
            "the heap grew by {:?} bytes while {} threads made {} and 3 times as many further operations",
            grown,
            threads,
            2 * per * threads as u64
        );
        let live = grown[0];
        case.count("operations", 3 * per * threads as u64);
        note!(case, format!("{} threads x {} {:?}: {}", threads, per, kinds, live));
        Ok(())
    });
}

//! C30 (value types are consistent), C31 (reading changes nothing).

use crate::core::*;
use crate::model::*;
use crate::rng::*;
use crate::vclock;
use prometrics::label::Label;
use prometrics::metric::{Metric, MetricKind, MetricName};
use prometrics::quantile::Quantile;
use prometrics::{Collect, Gatherer, Registry};
use std::cmp::Ordering as Ord3;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::RwLock;
use std::time::Duration;

// -- C30 -----------------------------------------------------------------------------------------

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Everything the comparison traits say about two values against the order of what they stand for.
fn compare<T: Ord + PartialOrd + Eq + PartialEq + Debug>(a: &T, b: &T, want: Ord3) -> R {
    let partial = a.partial_cmp(b);
    ensure!(
        a.cmp(b) == want && b.cmp(a) == want.reverse() && partial == Some(want) && b.partial_cmp(a) == Some(want.reverse()),
        "{:?} and {:?} compare as {:?} and {:?}, reversed {:?}, instead of {:?}",
        a,
        b,
        a.cmp(b),
        partial,
        b.cmp(a),
        want
    );
    let eq = want == Ord3::Equal;
    ensure!(
        (a == b) == eq && (b == a) == eq && (a != b) != eq,
        "{:?} == {:?} is {}, != is {}, and they compare as {:?}",
        a,
        b,
        a == b,
        a != b,
        want
    );
    ensure!(
        (a < b) == want.is_lt() && (a <= b) == want.is_le() && (a > b) == want.is_gt() && (a >= b) == want.is_ge(),
        "the operators on {:?} and {:?} do not agree with {:?}",
        a,
        b,
        want
    );
    Ok(())
}

fn named(rng: &Rng, base: Option<&str>) -> R<(String, Any)> {
    let mut r = rng.fork();
    let full: String = if let Some(base) = base {
        base.to_string()
    } else {
        let n = rng.range(1, 7) + if rng.chance(1, 4) { rng.below(60) } else { 0 };
        let mut s: String = (0..n).map(|_| *rng.pick(&['a', 'a', 'b', '_', '_', ':', 'A', '0'])).collect();
        if s.starts_with('0') {
            s.insert(0, '_');
        }
        s
    };
    let (ns, sub, name) = split_name(&mut r, &full);
    let mut s = Spec::new(*rng.pick(&KINDS), &name);
    s.namespace = ns;
    s.subsystem = sub;
    let full = s.full_name();
    Ok((full, s.must(&[])?))
}

fn collected(m: &Any, rng: &Rng) -> R {
    // (what a collector yields is the metric itself)
    fn one<C: Collect>(mut c: C, n: u64) -> R<(Vec<Metric>, C)> {
        let mut v = Vec::new();
        for _ in 0..n {
            let got: Vec<Metric> = c.collect().ok_or("the collector of a live metric is finished")?.collect();
            ensure!(got.len() == 1, "the collector yields {} metrics", got.len());
            v.extend(got);
        }
        Ok((v, c))
    }
    let n = rng.range(1, 3);
    let ms = match m {
        Any::C(x) => one(x.collector(), n)?.0,
        Any::G(x) => one(x.collector(), n)?.0,
        Any::S(x) => one(x.collector(), n)?.0,
        Any::H(x) => one(x.collector(), n)?.0,
    };
    m.feed(1.0);
    for y in ms.iter().chain(&[m.metric()]) {
        let kind = match y {
            Metric::Counter(_) => Kind::Counter,
            Metric::Gauge(_) => Kind::Gauge,
            Metric::Summary(_) => Kind::Summary,
            Metric::Histogram(_) => Kind::Histogram,
        };
        ensure!(
            kind == m.kind() && Kind::of(y.kind()) == kind,
            "the kinds are {:?} and {:?} instead of {:?}",
            kind,
            y.kind(),
            m.kind()
        );
        ensure!(
            y.name() == m.metric_name() && y.name().to_string() == m.name(),
            "the name is {} instead of {}",
            y.name(),
            m.name()
        );
        ensure!(
            label_vec(y.labels()) == label_vec(m.labels()),
            "the labels are {} instead of {}",
            y.labels(),
            m.labels()
        );
        let total = match y {
            Metric::Counter(x) => x.value(),
            Metric::Gauge(x) => x.value(),
            Metric::Summary(x) => x.sum(),
            Metric::Histogram(x) => x.sum(),
        };
        ensure!(total == m.total(), "the total is {} instead of {}", total, m.total());
    }
    Ok(())
}

fn finished<C: Collect>(mut c: C, kind: Kind) -> R {
    for _ in 0..3 {
        ensure!(
            c.collect().is_none(),
            "the collector of a dropped {:?} is not finished",
            kind
        );
    }
    Ok(())
}

pub fn c30(run: &mut Run) {
    run.cases("names", 30_000, 500_000, |case| {
        let rng = &mut case.rng;
        let mut ms: Vec<(String, Any)> = vec![named(rng, None)?];
        for _ in 0..rng.range(1, 5) {
            // the same text in other parts, a slightly different one, or another one
            let base = match rng.below(4) {
                0 | 1 => Some(rng.pick(&ms).0.clone()),
                2 => {
                    let mut s = rng.pick(&ms).0.clone().into_bytes();
                    let i = rng.us(s.len());
                    s[i] = *rng.pick(b"aZ_:b");
                    String::from_utf8(s).ok()
                }
                _ => None,
            };
            let m = named(rng, base.as_deref())?;
            ms.push(m);
        }
        for (a, x) in &ms {
            let nx: &MetricName = x.metric_name();
            ensure!(nx.to_string() == *a, "{:?} shows as {} instead of {}", nx, nx, a);
            ensure!(*nx == nx.clone() && hash(nx) == hash(&nx.clone()), "{:?} differs from its copy", nx);
            for (b, y) in &ms {
                let ny = y.metric_name();
                compare(nx, ny, a.cmp(b))?;
                ensure!(a != b || hash(nx) == hash(ny), "{:?} and {:?} are equal but hash differently", nx, ny);
            }
            collected(x, rng)?;
        }
        note!(case, format!("{:?}", ms.iter().map(|m| &m.0).collect::<Vec<_>>()));
        Ok(())
    });
    run.cases("labels", 30_000, 500_000, |case| {
        let rng = &mut case.rng;
        let pool: Vec<char> = (0..3).map(|_| rng.uchar()).collect();
        let text = |rng: &Rng| -> String { (0..rng.below(4)).map(|_| *rng.pick(&pool)).collect() };
        let ls: Vec<(String, String, Label)> = (0..rng.range(2, 6))
            .map(|_| {
                let name: String = (0..rng.range(1, 3)).map(|_| *rng.pick(&['a', 'b', 'A'])).collect();
                let value = text(rng);
                let l = Label::new(&name, &value).must("label")?;
                Ok((name, value, l))
            })
            .collect::<R<_>>()?;
        for (n, v, x) in &ls {
            ensure!(
                x.name() == n && x.value() == v,
                "{:?} has the name {:?} and the value {:?} instead of {:?} and {:?}",
                x,
                x.name(),
                x.value(),
                n,
                v
            );
            for (k, w, y) in &ls {
                compare(x, y, (n, v).cmp(&(k, w)))?;
                ensure!(x != y || hash(x) == hash(y), "{:?} and {:?} are equal but hash differently", x, y);
                ensure!(
                    (x.to_string() == y.to_string()) == (x == y),
                    "{:?} and {:?} show as {} and {}",
                    x,
                    y,
                    x,
                    y
                );
            }
        }
        note!(case, format!("{:?}", ls));
        Ok(())
    });
    run.cases("quantiles", 30_000, 500_000, |case| {
        let rng = &mut case.rng;
        let v: Vec<f64> = (0..rng.range(2, 6))
            .map(|_| match rng.below(8) {
                0 => 0.0,
                1 => -0.0,
                2 => 1.0,
                3 => next_down(1.0),
                4 => next_up(0.0),
                5 => rng.below(5) as f64 / 4.0,
                _ => rng.unit(),
            })
            .collect();
        for a in &v {
            let x = Quantile::new(*a).must("quantile")?;
            ensure!(x.as_f64().to_bits() == a.to_bits(), "{:e} became {:e}", a, x.as_f64());
            for b in &v {
                let y = Quantile::new(*b).must("quantile")?;
                compare(&x, &y, a.partial_cmp(b).unwrap())?;
            }
        }
        let bad = *rng.pick(&[next_up(1.0), -5e-324, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2.0, -1.0, 100.0]);
        invalid(Quantile::new(bad), "an invalid quantile")?;
        note!(case, format!("{:?}", v));
        Ok(())
    });
    run.cases("kinds-and-collectors", 3_000, 60_000, |case| {
        let rng = &mut case.rng;
        let ks = [
            (MetricKind::Counter, "counter"),
            (MetricKind::Gauge, "gauge"),
            (MetricKind::Summary, "summary"),
            (MetricKind::Histogram, "histogram"),
        ];
        for (i, (a, t)) in ks.iter().enumerate() {
            ensure!(a.to_string() == *t, "{:?} shows as {}", a, a);
            for (j, (b, _)) in ks.iter().enumerate() {
                ensure!((a == b) == (i == j), "{:?} == {:?} is {}", a, b, a == b);
                compare(a, b, a.cmp(b))?;
                ensure!((a.cmp(b) == Ord3::Equal) == (i == j), "{:?} and {:?} compare as equal", a, b);
                ensure!(i != j || hash(a) == hash(b), "{:?} hashes differently", a);
            }
        }
        let kind = *rng.pick(&KINDS);
        let m = Spec::new(kind, "m").label("a", &rng.ustring(4)).must(&[])?;
        let copies: Vec<Any> = (0..rng.below(4)).map(|_| m.clone()).collect();
        collected(&m, rng)?;
        let late = rng.chance(1, 2);
        macro_rules! ends {
            ($x:expr) => {{
                let mut c = $x.collector();
                drop(copies);
                if late {
                    // what a collector has yielded keeps the metric alive
                    let y: Vec<Metric> = c.collect().ok_or("finished")?.collect();
                    drop(m);
                    ensure!(c.collect().is_some(), "finished although the metric is alive");
                    drop(y);
                } else {
                    drop(m);
                }
                finished(c, kind)?;
            }};
        }
        match &m {
            Any::C(x) => ends!(x),
            Any::G(x) => ends!(x),
            Any::S(x) => ends!(x),
            Any::H(x) => ends!(x),
        }
        note!(case, format!("{:?} {} {}", kind, late, case.idx % 64));
        Ok(())
    });
}

// -- C31 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Op {
    Build(Spec, bool),
    Clone(usize),
    Drop(usize),
    Feed(usize, f64),
    FeedMany(usize, u64),
    Set(usize, f64),
    Insert(usize, &'static str, &'static str),
    Remove(usize, &'static str),
    Clear(usize),
    Stamp(usize, i64),
    Unstamp(usize),
    Now(usize),
    Advance(i64),
    Wall(i64),
    Timed(usize, i64),
    Tracked(usize),
}

const LABELS: [&str; 4] = ["k", "l", "m", "n"];
const VALUES: [&str; 3] = ["", "1", "\n\"\\"];

fn script(rng: &Rng, clock: bool) -> Vec<Op> {
    let n = rng.range(4, 40);
    let bulk = match rng.below(800) {
        0 => sz(30_000, 0),
        1..=20 => sz(3_000, 20),
        _ => 0,
    };
    (0..n)
        .map(|i| {
            let at = rng.us(8);
            if bulk > 0 && i >= 2 && rng.chance(1, 6) {
                return Op::FeedMany(at, rng.range(1, bulk));
            }
            match if i < 2 { 0 } else { rng.below(26) } {
                0..=3 => {
                    let mut s = Spec::new(*rng.pick(&KINDS), *rng.pick(&["a", "b", "b_c"]));
                    if s.name == "b_c" && rng.chance(1, 2) {
                        s.namespace = Some("b".into());
                        s.name = "c".into();
                    }
                    if s.full_name() == "a" {
                        s.help = Some("help".into());
                    }
                    for l in LABELS {
                        if rng.chance(1, 5) {
                            s = s.label(l, *rng.pick(&VALUES));
                        }
                    }
                    s.bounds = vec![0.5, 2.0, 16.0];
                    s.quantiles = vec![0.0, 0.5, 1.0];
                    if clock {
                        s.window = Duration::from_nanos(*rng.pick(&[0, 100, 1000, 1_000_000]));
                    }
                    Op::Build(s, rng.chance(5, 6))
                }
                4 => Op::Clone(at),
                5 => Op::Drop(at),
                6..=10 => Op::Feed(at, rng.dyadic()),
                11 => Op::Set(at, rng.sdyadic()),
                12..=14 => Op::Insert(at, *rng.pick(&LABELS), *rng.pick(&VALUES)),
                15 => Op::Remove(at, *rng.pick(&LABELS)),
                16 => Op::Clear(at),
                17 => Op::Stamp(at, rng.below(2000) as i64 - 1000),
                18 => Op::Unstamp(at),
                19 if clock => Op::Now(at),
                20 | 21 if clock => Op::Advance(rng.below(1500) as i64),
                22 if clock => Op::Wall(1_500_000_000 + rng.below(1 << 28) as i64),
                23 if clock => Op::Timed(at, rng.below(1000) as i64 * 1_000_000_000),
                24 => Op::Tracked(at),
                _ => Op::Feed(at, rng.below(20) as f64),
            }
        })
        .collect()
}

type Handles = RwLock<Vec<Any>>;

fn apply(op: &Op, hs: &Handles, reg: &Registry) -> R {
    // (works on a clone, so that readers are not excluded)
    let at = |i: usize| -> Option<Any> {
        let v = hs.read().unwrap();
        if v.is_empty() {
            None
        } else {
            Some(v[i % v.len()].clone())
        }
    };
    match op {
        Op::Build(s, registered) => {
            let m = if *registered { s.must(&[reg])? } else { s.must(&[])? };
            hs.write().unwrap().push(m);
        }
        Op::Clone(i) => {
            if let Some(m) = at(*i) {
                hs.write().unwrap().push(m);
            }
        }
        Op::Drop(i) => {
            let mut v = hs.write().unwrap();
            if !v.is_empty() {
                let n = v.len();
                v.remove(i % n);
            }
        }
        Op::Feed(i, x) => {
            if let Some(m) = at(*i) {
                m.feed(*x);
            }
        }
        Op::FeedMany(i, n) => {
            if let Some(m) = at(*i) {
                for k in 0..*n {
                    m.feed((k * 7 % 1024) as f64);
                }
            }
        }
        Op::Set(i, x) => {
            if let Some(Any::G(m)) = at(*i) {
                m.set(*x);
            }
        }
        Op::Insert(i, k, v) => {
            if let Some(mut m) = at(*i) {
                m.labels_mut().insert(k, v).must("insert")?;
            }
        }
        Op::Remove(i, k) => {
            if let Some(mut m) = at(*i) {
                m.labels_mut().remove(k);
            }
        }
        Op::Clear(i) => {
            if let Some(mut m) = at(*i) {
                m.labels_mut().clear();
            }
        }
        Op::Stamp(i, t) => {
            if let Some(mut m) = at(*i) {
                m.ts_mut().set(*t);
            }
        }
        Op::Unstamp(i) => {
            if let Some(mut m) = at(*i) {
                m.ts_mut().clear();
            }
        }
        Op::Now(i) => {
            if let Some(mut m) = at(*i) {
                m.ts_mut().set_now();
                if let Any::G(g) = &m {
                    g.set_to_current_time();
                }
            }
        }
        Op::Advance(d) => vclock::advance(*d),
        Op::Wall(t) => vclock::set_wall(*t, 0),
        Op::Timed(i, d) => match at(*i) {
            Some(Any::C(m)) => m.time(|| vclock::advance(*d)),
            Some(Any::G(m)) => m.time(|| vclock::advance(*d)),
            Some(Any::S(m)) => m.time(|| vclock::advance(*d)),
            Some(Any::H(m)) => m.time(|| vclock::advance(*d)),
            None => (),
        },
        Op::Tracked(i) => {
            if let Some(Any::G(m)) = at(*i) {
                m.track_inprogress(|| ());
            }
        }
    }
    Ok(())
}

/// Reads something, in a way that should change nothing.
fn read(m: &Any, which: u64, rng: &Rng) {
    match which {
        0 => drop(m.view()),
        1 => drop(m.text()),
        2 => drop(format!("{:?}", m.metric())),
        3 => drop(label_vec(m.labels())),
        4 => drop((m.labels().len(), m.labels().is_empty(), m.labels().clone(), m.labels().to_string())),
        5 => {
            let c = m.clone();
            drop((c.name(), c.help(), c.ts().get(), c.total()));
        }
        6 => {
            if let Any::S(s) = m {
                for _ in 0..rng.range(1, 3) {
                    drop(s.quantiles());
                }
            }
        }
        7 => {
            if let Any::H(h) = m {
                let n = rng.us(4);
                drop(h.cumulative_buckets().take(n).count());
                drop(h.buckets().iter().map(|b| b.count()).sum::<u64>());
            }
        }
        8 => {
            let mut other = Gatherer::new();
            m.register(&other.registry());
            drop(other.gather());
        }
        9 => {
            // a rejected change is none
            let mut m = m.clone();
            let _ = m.labels_mut().insert("__x", "y");
            if let Any::C(c) = &m {
                let _ = c.add(-1.0);
                let _ = c.add(f64::NAN);
            }
        }
        _ => {
            // labels and timestamps as they are, through handles for changes
            let mut m = m.clone();
            let _ = (m.labels_mut().len(), m.ts_mut().get());
        }
    }
}

/// Everything that can be seen.
fn all(hs: &Handles, g: &mut Gatherer) -> R<Vec<String>> {
    let mut v = Vec::new();
    for m in hs.read().unwrap().iter() {
        v.push(format!("{} {:?} {:?} {}", m.name(), m.help(), m.view(), m.text()));
    }
    let r = g.gather();
    let fs = fams(&r);
    well_formed(&fs)?;
    for f in &fs {
        v.push(format!("{:?}", f));
    }
    v.push(r.to_text());
    Ok(v)
}

fn differs(a: &[String], b: &[String]) -> String {
    a.iter()
        .zip(b)
        .find(|(x, y)| x != y)
        .map(|(x, y)| format!("{} without, {} with reads", x, y))
        .unwrap_or_else(|| format!("{} and {} things", a.len(), b.len()))
}

pub fn c31(run: &mut Run) {
    let clock = vclock::works();
    let fresh = || {
        if clock {
            vclock::set_virtual(1_000_000_000, 1_600_000_000, 0);
        }
        let g = Gatherer::new();
        let r = g.registry();
        (g, r, RwLock::new(Vec::new()))
    };
    run.cases("interleaved-reads", 10_000, 200_000, |case| {
        let rng = &mut case.rng;
        let ops = script(rng, clock);
        let (mut g, reg, hs) = fresh();
        for op in &ops {
            apply(op, &hs, &reg)?;
        }
        let want = all(&hs, &mut g)?;
        let (mut g, reg, hs) = fresh();
        let mut reads = 0;
        let often = rng.range(1, 6);
        let gathers = rng.below(4);
        let mut kept = Vec::new();
        for op in &ops {
            apply(op, &hs, &reg)?;
            while rng.chance(often, often + 1) {
                for m in hs.read().unwrap().iter() {
                    if rng.chance(1, 2) {
                        let which = rng.below(11);
                        for _ in 0..if rng.chance(1, 1000) { sz(300, 3) } else { 1 } {
                            read(m, which, rng);
                            reads += 1;
                        }
                    }
                }
                if rng.chance(1, 3000) {
                    for _ in 0..sz(300, 3) {
                        drop(g.gather());
                        reads += 1;
                    }
                }
                if rng.chance(gathers, 8) {
                    let r = g.gather();
                    reads += 1;
                    match rng.below(4) {
                        0 => drop(r),
                        1 => drop(r.to_text()),
                        2 => drop(format!("{:?}", r)),
                        _ => {
                            drop(fams(&r));
                            kept.push(r);
                        }
                    }
                }
                if rng.chance(1, 3) {
                    break;
                }
            }
            if matches!(op, Op::Drop(_)) || kept.len() > 2 {
                kept.clear();
            }
        }
        // (results keep what they mention alive)
        drop(kept);
        let got = all(&hs, &mut g)?;
        ensure!(got == want, "{} after {:?}", differs(&want, &got), ops);
        let again = all(&hs, &mut g)?;
        ensure!(again == want, "{} read a second time after {:?}", differs(&want, &again), ops);
        case.count("reads", reads);
        case.count("operations", ops.len() as u64);
        if reads > 0 {
            note!(case, format!("{} reads: {:?}", reads, ops));
        }
        Ok(())
    });
    run.cases("concurrent-reads", 500, 10_000, |case| {
        let rng = &mut case.rng;
        let ops = script(rng, clock);
        let (mut g, reg, hs) = fresh();
        for op in &ops {
            apply(op, &hs, &reg)?;
        }
        let want = all(&hs, &mut g)?;
        let (mut g, reg, hs) = fresh();
        let readers = rng.range(1, sz(3, 1)) as usize;
        let seed = rng.next();
        let done = AtomicBool::new(false);
        let ready = AtomicU64::new(0);
        let reads = AtomicU64::new(0);
        let gm = std::sync::Mutex::new(&mut g);
        par(readers + 1, |t| {
            if t == 0 {
                while ready.load(SeqCst) < readers as u64 {
                    std::thread::yield_now();
                }
                let r = (|| {
                    for op in &ops {
                        apply(op, &hs, &reg)?;
                        std::thread::yield_now();
                    }
                    Ok(())
                })();
                done.store(true, SeqCst);
                return r;
            }
            let rng = Rng::new(seed ^ t as u64);
            ready.fetch_add(1, SeqCst);
            let mut n = 0;
            let mut pace = Pace::new(1.0);
            while !done.load(SeqCst) && n < 100_000 {
                pace.rest();
                let m = {
                    let v = hs.read().unwrap();
                    if v.is_empty() {
                        None
                    } else {
                        Some(v[rng.us(v.len())].clone())
                    }
                };
                if let Some(m) = m {
                    read(&m, rng.below(11), &rng);
                }
                if rng.chance(1, 8) {
                    drop(gm.lock().unwrap().gather());
                }
                n += 1;
            }
            reads.fetch_add(n, SeqCst);
            Ok(())
        })?;
        let got = all(&hs, &mut g)?;
        ensure!(got == want, "{} after {:?}", differs(&want, &got), ops);
        case.count("reads_during_operations", reads.load(SeqCst));
        case.count("operations", ops.len() as u64);
        note!(case, format!("{} readers: {:?}", readers, ops));
        Ok(())
    });
    run.cases("updates-while-read", 400, 8_000, |case| {
        let rng = &mut case.rng;
        let writers = rng.range(1, sz(3, 1)) as usize;
        let readers = rng.range(1, sz(3, 1)) as usize;
        let per = rng.range(1, sz(if rng.chance(1, 4) { 20_000 } else { 2_000 }, 6));
        let specs: Vec<Spec> = (0..rng.range(1, 3))
            .map(|i| {
                let mut s = Spec::new(*rng.pick(&KINDS), *rng.pick(&["a", "b"])).label("k", &i.to_string());
                s.bounds = vec![0.5, 100.0, 700.0];
                s.quantiles = vec![0.0, 0.1, 0.5, 0.9, 1.0];
                s
            })
            .collect();
        let scale = *rng.pick(&[0.25, 0.5, 1.0, 128.5]);
        let amount = |t: usize, k: u64| ((k * 7 + t as u64) % 9) as f64 * scale;
        let (mut g, reg, hs) = fresh();
        for s in &specs {
            hs.write().unwrap().push(s.must(&[&reg])?);
        }
        for t in 0..writers {
            for k in 0..per {
                let v = hs.read().unwrap();
                v[k as usize % v.len()].feed(amount(t, k));
            }
        }
        let want = all(&hs, &mut g)?;
        let (mut g, reg, hs) = fresh();
        for s in &specs {
            hs.write().unwrap().push(s.must(&[&reg])?);
        }
        let ms = hs.read().unwrap().clone();
        let seed = rng.next();
        let working = AtomicU64::new(writers as u64);
        let ready = AtomicU64::new(0);
        let reads = AtomicU64::new(0);
        let gm = std::sync::Mutex::new(&mut g);
        // one way of reading per case, or all
        let way = rng.below(16);
        par(writers + readers, |t| {
            if t < writers {
                while ready.load(SeqCst) < readers as u64 {
                    std::thread::yield_now();
                }
                for k in 0..per {
                    ms[k as usize % ms.len()].feed(amount(t, k));
                }
                working.fetch_sub(1, SeqCst);
                return Ok(());
            }
            let rng = Rng::new(seed ^ t as u64);
            let mut n = 0;
            ready.fetch_add(1, SeqCst);
            let mut pace = Pace::new(1.0);
            while working.load(SeqCst) > 0 {
                pace.rest();
                let m = &ms[rng.us(ms.len())];
                match way {
                    0..=10 => read(m, way, &rng),
                    11 => drop(gm.lock().unwrap().gather()),
                    12 => drop(m.total()),
                    13 => drop(gm.lock().unwrap().gather().to_text()),
                    _ => read(m, rng.below(11), &rng),
                }
                n += 1;
            }
            reads.fetch_add(n, SeqCst);
            Ok(())
        })?;
        let got = all(&hs, &mut g)?;
        ensure!(got == want, "{} after {} updates by each of {} threads", differs(&want, &got), per, writers);
        case.count("reads_during_operations", reads.load(SeqCst));
        case.count("operations", per * writers as u64);
        note!(case, format!("{} writers {} readers {} {:?} {}", writers, readers, per, specs, seed));
        Ok(())
    });
}

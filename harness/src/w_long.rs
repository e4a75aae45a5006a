//! Long lives: one metric, gatherer or builder used up to millions of times, compared with a model at every step.

use crate::core::*;
use crate::model::*;
use crate::promtext;
use crate::rng::*;
use crate::vclock;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{Collect, Gatherer};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const NAME: &str = "long-run";

/// How many steps (most lives are short, a few very long).
fn steps(rng: &Rng, max: u64) -> u64 {
    rng.big(1, max).unwrap_or(40)
}
/// Moments to look closer: around powers of two, and now and then.
fn look(i: u64, every: u64) -> bool {
    i % every == 0 || i.is_power_of_two() || (i + 1).is_power_of_two() || i.wrapping_sub(1).is_power_of_two()
}

pub fn more(id: &str, run: &mut Run) {
    match id {
        "C01" => counter(run),
        "C02" => rejected(run),
        "C03" => gauge(run),
        "C04" => {
            histogram(run, 60, 1500, false);
            beyond_32_bits(run);
        }
        "C06" => histogram(run, 80, 1500, true),
        "C08" => window(run),
        "C10" | "C13" | "C15" | "C16" => churn(run),
        "C11" => pooled(run),
        "C14" => polls(run),
        "C18" => labels(run),
        "C19" => labels_concurrent(run),
        "C22" => timed(run),
        "C23" => tracked(run),
        "C24" => timestamps(run),
        "C26" => builder(run),
        "C27" => snapshot(run),
        _ => {}
    }
}

fn counter(run: &mut Run) {
    run.cases(NAME, 150, 2500, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 3_000_000);
        let period = rng.range(1, 40) as usize;
        // (sums of eighths are exact)
        let kinds: Vec<(u64, f64)> = (0..period)
            .map(|_| match rng.below(if period > 20 { 4 } else { 3 }) {
                0 => (0, 1.0),
                1 => (1, rng.below(4) as f64),
                2 => (2, rng.below(3) as f64),
                _ => (1, rng.below(64) as f64 / 8.0),
            })
            .collect();
        let mut g = Gatherer::new();
        let c = CounterBuilder::new("c").registry(g.registry()).finish().must("build")?;
        let d = c.clone();
        let mut want = 0.0;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            let (k, v) = kinds[i as usize % period];
            let h = if i % 3 == 0 { &d } else { &c };
            match k {
                0 => h.increment(),
                1 => h.add(v).must("add")?,
                _ => h.add_u64(v as u64),
            }
            want += v;
            i += 1;
            let got = c.value();
            ensure!(got == want, "after {} additions the value is {} instead of {}", i, got, want);
            if look(i, 100_003) {
                let f = gather(&mut g)?;
                ensure!(
                    f[0].metrics[0].num() == want,
                    "after {} additions {} is gathered instead of {}",
                    i,
                    f[0].metrics[0].num(),
                    want
                );
            }
        }
        case.count("additions", i);
        note!(case, format!("{} {:?}", i, kinds));
        Ok(())
    });
}

fn rejected(run: &mut Run) {
    run.cases(NAME, 80, 1500, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 500_000);
        let c = Counter::new("c").must("new")?;
        let mut want = 0.0;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            let bad = [-1.0, f64::NAN, -5e-324, f64::NEG_INFINITY];
            match rng.below(8) {
                0..=3 => {
                    let v = *rng.pick(&bad);
                    ensure!(c.add(v).is_err(), "adding {} was accepted after {} calls", v, i);
                }
                4 => c.add_u64(0),
                _ => {
                    let v = rng.below(32) as f64 / 8.0;
                    c.add(v).must("add")?;
                    want += v;
                }
            }
            ensure!(c.value() == want, "after {} calls the value is {} instead of {}", i, c.value(), want);
        }
        case.count("calls", i);
        note!(case, format!("{} {}", i, want));
        Ok(())
    });
}

fn gauge(run: &mut Run) {
    run.cases(NAME, 400, 8000, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 3_000_000);
        let mut g = Gatherer::new();
        let a = GaugeBuilder::new("a").registry(g.registry()).finish().must("build")?;
        let b = a.clone();
        let period = rng.range(1, 40) as usize;
        let sets = rng.chance(1, 4);
        let ops: Vec<(u64, f64)> = (0..period).map(|_| (rng.below(if sets { 5 } else { 4 }), rng.below(64) as f64 / 8.0)).collect();
        let mut want = 0.0;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            let (k, v) = ops[i as usize % period];
            let h = if i % 3 == 0 { &a } else { &b };
            match k {
                0 => {
                    h.increment();
                    want += 1.0
                }
                1 => {
                    h.decrement();
                    want -= 1.0
                }
                2 => {
                    h.add(v);
                    want += v
                }
                3 => {
                    h.subtract(v);
                    want -= v
                }
                _ => {
                    h.set(v);
                    want = v
                }
            }
            i += 1;
            let got = a.value();
            ensure!(got == want, "after {} operations the value is {} instead of {}", i, got, want);
            if look(i, 100_003) {
                let f = gather(&mut g)?;
                ensure!(f[0].metrics[0].num() == want, "{} is gathered instead of {}", f[0].metrics[0].num(), want);
            }
        }
        case.count("operations", i);
        note!(case, format!("{} {:?}", i, ops));
        Ok(())
    });
}

/// What the text and the aggregated form of one histogram without labels must show.
fn shown(text: &str, want: &[(f64, u64)], sum: f64) -> R {
    let s = promtext::samples(text)?;
    let total = want.last().unwrap().1;
    ensure!(s.len() == want.len() + 2, "{} lines for {} buckets", s.len(), want.len());
    for (x, &(b, c)) in s.iter().zip(want) {
        let le = promtext::value(x.label("le").map_or("", |l| l))?;
        ensure!(
            le == b && x.value == c as f64 && x.name.ends_with("_bucket"),
            "the text shows {:?} instead of {} up to {}",
            x,
            c,
            b
        );
    }
    let (a, b) = (&s[want.len()], &s[want.len() + 1]);
    ensure!(a.name.ends_with("_sum") && a.value == sum, "the text shows {:?} instead of the sum {}", a, sum);
    ensure!(b.name.ends_with("_count") && b.value == total as f64, "the text shows {:?} instead of {}", b, total);
    Ok(())
}

struct Stream {
    h: Histogram,
    counts: Vec<u64>,
    sum: f64,
}
impl Stream {
    fn cumulative(&self) -> Vec<(f64, u64)> {
        let mut t = 0;
        let last = self.counts.len() - 1;
        self.counts
            .iter()
            .enumerate()
            .map(|(i, c)| {
                t += c;
                (if i == last { f64::INFINITY } else { i as f64 }, t)
            })
            .collect()
    }
    fn check(&self, render: bool) -> R {
        let n: u64 = self.counts.iter().sum();
        let want = self.cumulative();
        ensure!(self.h.buckets().len() == want.len(), "{} buckets", self.h.buckets().len());
        for (i, (b, c)) in self.h.buckets().iter().zip(self.h.cumulative_buckets()).enumerate() {
            ensure!(
                b.count() == self.counts[i],
                "after {} observations the bucket {} counts {} instead of {}",
                n,
                b.upper_bound(),
                b.count(),
                self.counts[i]
            );
            ensure!(
                (c.upper_bound(), c.cumulative_count()) == want[i],
                "after {} observations {} are counted up to {} instead of {:?}",
                n,
                c.cumulative_count(),
                c.upper_bound(),
                want[i]
            );
        }
        ensure!(self.h.count() == n, "the count is {} instead of {}", self.h.count(), n);
        ensure!(self.h.sum() == self.sum, "after {} observations the sum is {} instead of {}", n, self.h.sum(), self.sum);
        if render {
            shown(&self.h.to_string(), &want, self.sum)?;
        }
        Ok(())
    }
    fn observe(&mut self, k: usize) {
        self.h.observe(k as f64);
        self.counts[k] += 1;
        self.sum += k as f64;
    }
}

fn stream(name: &str, k: u64, reg: &prometrics::Registry) -> R<Stream> {
    let mut b = HistogramBuilder::new(name);
    for i in 0..k {
        b.bucket(i as f64);
    }
    Ok(Stream {
        h: b.registry(reg.clone()).finish().must("build")?,
        counts: vec![0; k as usize + 1],
        sum: 0.0,
    })
}

fn merged(g: &mut Gatherer, a: &Stream, b: &Stream) -> R {
    let r = g.gather();
    let n = a.counts.len();
    let mut both = Stream {
        h: a.h.clone(),
        counts: a.counts.clone(),
        sum: a.sum + b.sum,
    };
    // b has other buckets of the same bounds, up to its +Inf
    let m = b.counts.len();
    if n != m {
        return Ok(());
    }
    for (x, y) in both.counts.iter_mut().zip(&b.counts) {
        *x += y;
    }
    let want = both.cumulative();
    let total = want.last().unwrap().1;
    let f = fams(&r);
    ensure!(f.len() == 1 && f[0].metrics.len() == 1, "{} families", f.len());
    let Val::Histogram { buckets, count, sum } = &f[0].metrics[0].val else {
        return Err("kind".into());
    };
    ensure!(*buckets == want, "the merged buckets are {:?} instead of {:?}", buckets, want);
    ensure!(*count == total && *sum == both.sum, "merged: count {} sum {} instead of {} {}", count, sum, total, both.sum);
    let text = r.to_text();
    let lines: String = text.lines().filter(|l| !l.starts_with('#')).map(|l| format!("{}\n", l)).collect();
    shown(&lines, &want, both.sum)
}

fn histogram(run: &mut Run, quick: u64, thorough: u64, render: bool) {
    run.cases(NAME, quick, thorough, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 3_000_000);
        let k = rng.below(5);
        let mut g = Gatherer::new();
        let mut a = stream("h", k, &g.registry())?;
        let mut b = stream("h", k, &g.registry())?;
        let main = rng.below(k + 1) as usize;
        let rare = rng.range(1, 5000);
        let other = rng.range(1, 100);
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            let at = if i % rare == 0 { (i / rare % (k + 1)) as usize } else { main };
            if i % other == 0 { &mut b } else { &mut a }.observe(at);
            if look(i, 20_011) || i == n {
                a.check(render)?;
                b.check(render)?;
                if render || rng.chance(1, 8) {
                    merged(&mut g, &a, &b)?;
                }
            }
        }
        case.count("long_run_observations", i);
        note!(case, format!("{} {} {} {} {}", i, k, main, rare, other));
        Ok(())
    });
}

/// Counts that need more than 32 bits, as far as time allows.
fn beyond_32_bits(run: &mut Run) {
    // (this takes a minute or more)
    if !cfg!(feature = "plain") || !(run.thorough || run.only.is_some()) {
        return;
    }
    run.cases("beyond-32-bits", 1, 1, |case| {
        if case.idx > 0 {
            return Ok(());
        }
        let n = (1u64 << 32) + 3;
        let mut g = Gatherer::new();
        let mut a = stream("h", 1, &g.registry())?;
        let mut b = stream("h", 1, &g.registry())?;
        b.observe(1);
        let mut pace = Pace::new(300.0);
        while a.counts[0] < n && !pace.over() {
            // (in lots, to spend the time on the observations)
            let lot = 1024.min(n - a.counts[0]);
            for _ in 0..lot {
                a.h.observe(0.0);
            }
            a.counts[0] += lot;
            for _ in 0..63 {
                if pace.over() {
                    break;
                }
            }
        }
        a.check(true)?;
        a.observe(1);
        a.check(true)?;
        merged(&mut g, &a, &b)?;
        case.count("observations_of_one_histogram_max", a.counts[0]);
        note!(case, format!("{}", a.counts[0]));
        Ok(())
    });
}

fn window(run: &mut Run) {
    run.cases(NAME, 60, 1200, |case| {
        if !vclock::works() {
            return Ok(());
        }
        let rng = &mut case.rng;
        let n = steps(rng, 1_000_000);
        // a window of w observations, 10 ns apart
        let w = rng.range(1, 300);
        let mut q: Vec<f64> = vec![0.0, 0.5, 1.0];
        q.push(rng.unit());
        let mut b = SummaryBuilder::new("s", Duration::from_nanos(w * 10 - 5));
        for x in &q {
            b.quantile(*x);
        }
        let s = b.finish().must("build")?;
        vclock::set_virtual(1_000_000_000_000_000, 1_600_000_000, 0);
        let value = |i: u64| (i * 37 % 1009) as f64;
        let mut sum = 0.0;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            vclock::advance(10);
            s.observe(value(i));
            sum += value(i);
            if look(i, 1000 + w * 20) || i == n {
                if rng.chance(1, 4) {
                    vclock::set_wall(rng.below(1 << 32) as i64, 0);
                }
                let mut live: Vec<f64> = (i.saturating_sub(w - 1).max(1)..=i).map(value).collect();
                live.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let got: Vec<(f64, f64)> = s.quantiles().iter().map(|x| (x.0.as_f64(), x.1)).collect();
                check_quantiles(&got, &q, &live).map_err(|e| format!("after {} observations, window of {}: {}", i, w, e))?;
                ensure!(s.count() == i, "the count is {} after {} observations", s.count(), i);
                ensure!(s.sum() == sum, "the sum is {} instead of {}", s.sum(), sum);
            }
        }
        vclock::real();
        case.count("long_run_observations", i);
        note!(case, format!("{} {}", i, w));
        Ok(())
    });
}

/// Metrics come and go, one gather after each change.
fn churn(run: &mut Run) {
    let (quick, thorough) = match run.id.as_str() {
        "C10" | "C13" => (80, 1000),
        _ => (30, 400),
    };
    run.cases(NAME, quick, thorough, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 150_000);
        let mut g = Gatherer::new();
        let mut spare = g.registry();
        let most = rng.range(1, 6) as usize;
        let mut live: Vec<(Spec, Any, f64)> = Vec::new();
        let mut built = 0u64;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            match rng.below(6) {
                0 | 1 if live.len() < most => {
                    built += 1;
                    // (names come back)
                    let s = Spec::new(*rng.pick(&KINDS), *rng.pick(&["a", "b", "c"])).label("l", &(rng.below(3)).to_string());
                    if rng.chance(1, 50) {
                        spare = g.registry();
                    }
                    let m = s.must(&[&spare])?;
                    live.push((s, m, 0.0));
                }
                2 if !live.is_empty() => {
                    let k = rng.us(live.len());
                    live.swap_remove(k);
                }
                _ if !live.is_empty() => {
                    let k = rng.us(live.len());
                    let v = rng.below(64) as f64 / 8.0;
                    live[k].1.feed(v);
                    live[k].2 += v;
                }
                _ => {}
            }
            let mut want: BTreeMap<(String, Kind, BTreeMap<String, String>), f64> = BTreeMap::new();
            for (s, _, v) in &live {
                *want.entry((s.full_name(), s.kind, s.label_map())).or_insert(0.0) += v;
            }
            let mut got = BTreeMap::new();
            for f in gather(&mut g)? {
                for m in &f.metrics {
                    if got.insert((f.name.clone(), f.kind, m.map()), m.num()).is_some() {
                        return Err(format!("gather {} shows {} {:?} twice", i, f.name, m.labels));
                    }
                }
            }
            ensure!(
                got == want,
                "gather {} of one gatherer ({} metrics built so far) shows {:?} instead of {:?}",
                i,
                built,
                got,
                want
            );
        }
        case.count("long_run_gathers", i);
        case.count("long_run_metrics", built);
        note!(case, format!("{} {} {}", i, built, most));
        Ok(())
    });
}

fn pooled(run: &mut Run) {
    run.cases(NAME, 250, 5000, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 1_000_000);
        let mut g = Gatherer::new();
        let members = rng.range(2, 4) as usize;
        let hist = rng.chance(1, 2);
        let ms: Vec<Any> = (0..members)
            .map(|i| {
                let mut s = Spec::new(if hist { Kind::Histogram } else { Kind::Summary }, "m");
                s.bounds = (0..i).map(|x| x as f64).collect();
                s.quantiles = vec![0.0, 0.5, 1.0];
                s.window = if hist { s.window } else { Duration::from_secs(1 << 30) };
                s.must(&[&g.registry()])
            })
            .collect::<R<_>>()?;
        let n = if hist { n } else { n / 8 + 1 };
        let mut counts = vec![0u64; members + 1];
        let mut sum = 0.0;
        let period = rng.range(1, 30);
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        let check = |g: &mut Gatherer, counts: &[u64], sum: f64, i: u64| -> R {
            let f = gather(g)?;
            match &f[0].metrics[0].val {
                Val::Histogram { buckets, count, sum: s } => {
                    ensure!(*count == i && *s == sum, "count {} sum {} instead of {} {}", count, s, i, sum);
                    ensure!(buckets.len() == members, "{} buckets for bounds below {}", buckets.len(), members - 1);
                    // all members observe only 0 .. and members without a bound count it further up
                    ensure!(
                        buckets.last() == Some(&(f64::INFINITY, i)),
                        "the last bucket is {:?} after {} observations",
                        buckets.last(),
                        i
                    );
                    let mut c = 0;
                    for (k, b) in buckets.iter().enumerate().take(members - 1) {
                        c += counts[k];
                        ensure!(b.1 == c, "the bucket {} counts {} instead of {}", b.0, b.1, c);
                    }
                }
                Val::Summary { quantiles, count, sum: s } => {
                    ensure!(*count == i && *s == sum, "count {} sum {} instead of {} {}", count, s, i, sum);
                    let sorted: Vec<f64> = counts
                        .iter()
                        .enumerate()
                        .flat_map(|(v, c)| std::iter::repeat(v as f64).take(*c as usize))
                        .collect();
                    check_quantiles(quantiles, &[0.0, 0.5, 1.0], &sorted)?;
                }
                _ => return Err("kind".into()),
            }
            Ok(())
        };
        while i < n && !pace.over() {
            i += 1;
            let m = (i % period) as usize % members;
            // a value that every member with a bound at or above it counts in the bucket of that bound
            let v = if hist {
                // member m has the bounds 0 .. m-1
                if m == 0 { members } else { (i as usize / 7) % m }
            } else {
                (i as usize * 7) % (members + 1)
            };
            ms[m].feed(v as f64);
            counts[v] += 1;
            sum += v as f64;
            if look(i, 150_001) || i == n {
                check(&mut g, &counts, sum, i).map_err(|e| format!("after {} observations of {} members: {}", i, members, e))?;
            }
        }
        case.count("long_run_observations", i);
        note!(case, format!("{} {} {} {:?}", i, hist, period, counts));
        Ok(())
    });
}

struct Polled {
    polls: Arc<AtomicU64>,
    left: Option<u64>,
    metric: Metric,
}
impl Collect for Polled {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.polls.fetch_add(1, SeqCst);
        if let Some(n) = &mut self.left {
            if *n == 0 {
                return None;
            }
            *n -= 1;
        }
        Some(vec![self.metric.clone()].into_iter())
    }
}

fn polls(run: &mut Run) {
    run.cases(NAME, 60, 1500, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 200_000);
        let mut g = Gatherer::new();
        let reg = g.registry();
        let busy = rng.range(2, 400);
        // (name, polls, gathers at which it registered, gathers it stays)
        let mut all: Vec<(String, Arc<AtomicU64>, u64, Option<u64>)> = Vec::new();
        let mut serial = 0u64;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            if all.is_empty() || (all.len() < 8 && rng.chance(1, busy)) {
                serial += 1;
                let name = format!("m{}", serial);
                let polls = Arc::new(AtomicU64::new(0));
                let left = if rng.chance(1, 3) { None } else { Some(rng.below(if rng.chance(1, 10) { n } else { 30 })) };
                reg.register(Polled {
                    polls: polls.clone(),
                    left,
                    metric: Spec::new(*rng.pick(&KINDS), &name).must(&[])?.metric(),
                });
                all.push((name, polls, i, left));
            }
            let got: Vec<String> = g.gather().as_ref().iter().map(|f| f.name().to_string()).collect();
            let mut want = BTreeSet::new();
            for (name, polls, at, left) in &all {
                // (the poll that returns None is the last)
                let due = (i - at + 1).min(left.map_or(u64::MAX, |l| l + 1));
                let seen = polls.load(SeqCst);
                ensure!(
                    seen == due,
                    "{} was asked {} times instead of {} by gather {} (registered before gather {}, leaves after {:?})",
                    name,
                    seen,
                    due,
                    i,
                    at,
                    left
                );
                if left.map_or(true, |l| i - at < l) {
                    want.insert(name.clone());
                }
            }
            ensure!(
                got.len() == want.len() && got.iter().all(|x| want.contains(x)),
                "gather {} shows {:?} instead of {:?}",
                i,
                got,
                want
            );
            all.retain(|x| x.3.map_or(true, |l| i - x.2 < l + 3));
            // (the others make room now and then)
            if all.len() > 6 && all.iter().all(|x| x.3.is_none()) {
                let mut h = Gatherer::new();
                std::mem::swap(&mut g, &mut h);
                break;
            }
        }
        case.count("long_run_gathers", i);
        case.count("long_run_collectors", serial);
        note!(case, format!("{} {} {}", i, serial, busy));
        Ok(())
    });
}

fn labels(run: &mut Run) {
    run.cases(NAME, 80, 1500, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 300_000);
        let mut g = Gatherer::new();
        let mut m = Spec::new(*rng.pick(&KINDS), "m").must(&[&g.registry()])?;
        let mut h = m.clone();
        let names = ["a", "b", "c", "d"];
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            let x = if rng.chance(1, 2) { &mut m } else { &mut h };
            let k = *rng.pick(&names);
            match rng.below(40) {
                0 => {
                    x.labels_mut().clear();
                    want.clear();
                }
                1..=9 => {
                    x.labels_mut().remove(k);
                    want.remove(k);
                }
                10 => {
                    ensure!(x.labels_mut().insert("__x", "").is_err(), "a reserved name was accepted");
                }
                _ => {
                    let v = i.to_string();
                    x.labels_mut().insert(k, &v).must("insert")?;
                    want.insert(k.into(), v);
                }
            }
            let got = label_vec(m.labels());
            ensure!(
                got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (&a.0, &a.1) == (b.0, b.1)),
                "after {} changes the labels are {:?} instead of {:?}",
                i,
                got,
                want
            );
            if look(i, 5003) {
                let f = gather(&mut g)?;
                ensure!(f[0].metrics[0].map() == want, "{:?} is gathered instead of {:?}", f[0].metrics[0].labels, want);
            }
        }
        case.count("long_run_changes", i);
        note!(case, format!("{} {:?}", i, want));
        Ok(())
    });
}

fn labels_concurrent(run: &mut Run) {
    run.cases(NAME, 60, 1000, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 150_000);
        let threads = rng.range(2, 5) as usize;
        let kind = *rng.pick(&KINDS);
        let m = Spec::new(kind, "m").must(&[])?;
        let done: Vec<u64> = par(threads, |t| {
            let mut m = m.clone();
            let name = format!("t{}", t);
            let mut pace = Pace::new(10.0);
            let mut last = vec![0u64; threads];
            let mut i = 0;
            while i < n && !pace.over() {
                i += 1;
                m.labels_mut().insert(&name, &i.to_string()).must("insert")?;
                if i % 8 != 0 {
                    continue;
                }
                let mut own = None;
                for (k, v) in label_vec(m.labels()) {
                    let j: usize = k[1..].parse().map_err(|_| format!("a label {:?}", k))?;
                    let x: u64 = v.parse().map_err(|_| format!("a value {:?}", v))?;
                    ensure!(x >= last[j], "the label {} goes back from {} to {}", k, last[j], x);
                    last[j] = x;
                    if j == t {
                        own = Some(x);
                    }
                }
                ensure!(own == Some(i), "the own label is {:?} after change {}", own, i);
            }
            Ok(i)
        })?;
        let got: BTreeMap<String, String> = label_vec(m.labels()).into_iter().collect();
        let want: BTreeMap<String, String> = done.iter().enumerate().map(|(t, i)| (format!("t{}", t), i.to_string())).collect();
        ensure!(got == want, "the labels are {:?} instead of {:?}", got, want);
        case.count("long_run_changes", done.iter().sum());
        note!(case, format!("{:?} {:?}", kind, done));
        Ok(())
    });
}

fn timed(run: &mut Run) {
    run.cases(NAME, 40, 1000, |case| {
        if !vclock::works() {
            return Ok(());
        }
        let rng = &mut case.rng;
        let n = steps(rng, 400_000);
        let c = Counter::new("c").must("new")?;
        let g = Gauge::new("g").must("new")?;
        let h = Histogram::new("h").must("new")?;
        let s = Summary::new("s", Duration::from_nanos(1)).must("new")?;
        vclock::set_virtual(1_000_000_000_000_000, 1_600_000_000, 0);
        // (multiples of 1/8 s add up exactly)
        let (mut sums, mut counts) = ([0.0; 4], [0u64; 4]);
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            let d = rng.below(80);
            let mut runs = 0;
            let f = || {
                runs += 1;
                vclock::advance(d as i64 * 125_000_000);
                i
            };
            let k = rng.us(4);
            let r = match k {
                0 => c.time(f),
                1 => g.time(f),
                2 => h.time(f),
                _ => s.time(f),
            };
            let t = d as f64 / 8.0;
            sums[k] = if k == 1 { t } else { sums[k] + t };
            counts[k] += 1;
            ensure!(runs == 1 && r == i, "call {}: the closure ran {} times, the result is {}", i, runs, r);
            let got = [c.value(), g.value(), h.sum(), s.sum()];
            ensure!(got == sums, "after call {} the times are {:?} instead of {:?}", i, got, sums);
            ensure!(
                h.count() == counts[2] && s.count() == counts[3],
                "after call {} {} and {} observations instead of {} and {}",
                i,
                h.count(),
                s.count(),
                counts[2],
                counts[3]
            );
        }
        vclock::real();
        case.count("long_run_calls", i);
        note!(case, format!("{} {:?}", i, sums));
        Ok(())
    });
}

fn tracked(run: &mut Run) {
    run.cases(NAME, 100, 2500, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 1_000_000);
        let base = rng.below(64) as f64 / 8.0;
        let g = GaugeBuilder::new("g").initial_value(base).finish().must("build")?;
        let panics = if rng.chance(1, 2) { 0 } else { rng.range(20, 500) };
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            let mut inside = 0.0;
            if panics > 0 && i % panics == 0 {
                attempt(|| {
                    g.track_inprogress(|| {
                        inside = g.value();
                        std::panic::resume_unwind(Box::new(Expected));
                    })
                });
            } else {
                let r = g.track_inprogress(|| {
                    inside = g.value();
                    i
                });
                ensure!(r == i, "closure {} returned {}", i, r);
            }
            ensure!(inside == base + 1.0, "inside closure {} the gauge is {} over {}", i, inside, base);
            ensure!(g.value() == base, "after closure {} the gauge is {} instead of {}", i, g.value(), base);
        }
        case.count("long_run_closures", i);
        note!(case, format!("{} {} {}", i, base, panics));
        Ok(())
    });
}

fn timestamps(run: &mut Run) {
    run.cases(NAME, 100, 2500, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 1_500_000);
        let mut g = Gatherer::new();
        let mut m = Spec::new(*rng.pick(&KINDS), "m").must(&[&g.registry()])?;
        let h = m.clone();
        let mut want = None;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            match rng.below(8) {
                0 => {
                    m.ts_mut().clear();
                    want = None;
                }
                1 => {
                    let t = rng.below(1 << 42);
                    m.ts_mut().set_time(UNIX_EPOCH + Duration::from_millis(t));
                    want = Some(t as i64);
                }
                2 => {
                    let t = rng.below(1 << 42);
                    m.ts_mut().set_time(SystemTime::UNIX_EPOCH - Duration::from_millis(t));
                    want = Some(-(t as i64));
                }
                _ => {
                    let t = (rng.next() as i64 >> rng.below(64)).max(i64::MIN + 1);
                    m.ts_mut().set(t);
                    want = Some(t);
                }
            }
            let got = h.ts().get();
            ensure!(got == want, "after {} operations the timestamp is {:?} instead of {:?}", i, got, want);
            if look(i, 30_011) {
                let f = gather(&mut g)?;
                ensure!(f[0].metrics[0].ts == want, "{:?} is gathered instead of {:?}", f[0].metrics[0].ts, want);
                let text = h.text();
                for s in promtext::samples(&text)? {
                    ensure!(s.ts == want, "the text shows {:?} instead of {:?}: {}", s.ts, want, text);
                }
            }
        }
        case.count("long_run_operations", i);
        note!(case, format!("{} {:?}", i, want));
        Ok(())
    });
}

/// One common builder, and one builder of each kind, used again and again.
fn builder(run: &mut Run) {
    run.cases(NAME, 5, 150, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 100_000);
        let mut g = Gatherer::new();
        let mut common = MetricBuilder::new();
        common.namespace("n").label("l", "0").registry(g.registry());
        let own = common.counter("own");
        let mut last: Option<Counter> = None;
        let mut label = "0".to_string();
        let mut extra = None;
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            if rng.chance(1, 500) {
                label = rng.below(100).to_string();
                common.label("l", &label);
            }
            if extra.is_none() && rng.chance(1, 10_000) {
                extra = Some("x".to_string());
                common.label("k", "x");
            }
            let m = match rng.below(4) {
                0 => Any::C(common.counter("m").finish().must("counter")?),
                1 => Any::G(common.gauge("m").initial_value(0.0).finish().must("gauge")?),
                2 => Any::H(common.histogram("m").bucket(1.0).finish().must("histogram")?),
                _ => Any::S(common.summary("m", Duration::from_secs(9)).quantile(0.5).finish().must("summary")?),
            };
            let mut want: Vec<(String, String)> = vec![];
            if let Some(x) = &extra {
                want.push(("k".into(), x.clone()));
            }
            want.push(("l".into(), label.clone()));
            ensure!(
                m.name() == "n_m" && label_vec(m.labels()) == want && m.total() == 0.0,
                "metric {} of a common builder is {} {:?} {}",
                i,
                m.name(),
                label_vec(m.labels()),
                m.total()
            );
            m.feed(1.0);
            let c = own.finish().must("finish")?;
            ensure!(
                c.value() == 0.0 && c.metric_name().to_string() == "n_own" && label_vec(c.labels()) == [("l".to_string(), "0".to_string())],
                "counter {} of one builder is {}",
                i,
                c
            );
            c.add(i as f64).must("add")?;
            if let Some(l) = &last {
                ensure!(l.value() == (i - 1) as f64, "the counter built before has changed to {}", l.value());
            }
            if look(i, 997) {
                let f = gather(&mut g)?;
                let old = last.as_ref().map_or(0.0, |l| l.value());
                let own = find(&f, "n_own", Kind::Counter).map(|f| f.metrics.iter().map(|m| m.num()).sum::<f64>());
                ensure!(own == Some(old + i as f64), "{:?} is gathered instead of {} + {}", own, old, i);
                ensure!(
                    find(&f, "n_m", m.kind()).map_or(false, |f| f.metrics.len() == 1 && f.metrics[0].num() == 1.0),
                    "the metric {} of a common builder is not gathered: {:?}",
                    i,
                    f
                );
            }
            last = Some(c);
        }
        case.count("long_run_metrics", 2 * i);
        note!(case, format!("{} {}", i, label));
        Ok(())
    });
}

fn snapshot(run: &mut Run) {
    run.cases(NAME, 100, 2000, |case| {
        let rng = &mut case.rng;
        let n = steps(rng, 200_000);
        let mut g = Gatherer::new();
        let reg = g.registry();
        let mut ms: Vec<Any> = (0..3)
            .map(|i| Spec::new(if i == 1 { Kind::Counter } else { Kind::Gauge }, "m").label("l", &(i / 2).to_string()).must(&[&reg]))
            .collect::<R<_>>()?;
        ms.iter().for_each(|m| m.feed(0.5));
        ms[0].ts_mut().set(7);
        let r = g.gather();
        let text = r.to_text();
        let mut pace = Pace::new(10.0);
        let mut i = 0;
        while i < n && !pace.over() {
            i += 1;
            let k = rng.us(ms.len());
            match rng.below(5) {
                0 | 1 => ms[k].feed(1.0),
                2 => ms[k].ts_mut().set(i as i64),
                3 => ms[k].labels_mut().insert("l", &(i % 5).to_string()).must("insert")?,
                _ => drop(g.gather()),
            }
            if rng.chance(1, 4) || look(i, 1000) {
                let now = r.to_text();
                ensure!(now == text, "after {} operations the text is {:?} instead of {:?}", i, now, text);
            }
        }
        case.count("long_run_operations", i);
        note!(case, format!("{}", i));
        Ok(())
    });
}

//! C22 (timing helpers) and C24 (timestamps).

use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

use prometrics::metrics::*;
use prometrics::timestamp::duration_to_seconds;
use prometrics::Gatherer;

use crate::core::*;
use crate::model::*;
use crate::promtext;
use crate::rng::Rng;
use crate::vclock;

const SEC: i64 = 1_000_000_000;
const VIRTUAL: bool = cfg!(all(feature = "plain", not(miri)));

fn rounding(want: f64, got: f64) -> bool {
    (want - got).abs() <= want.abs() * 4.0 * f64::EPSILON
}

fn duration_ns(rng: &mut Rng) -> i64 {
    if rng.chance(1, 200) {
        return rng.below(1 << 60) as i64;
    }
    match rng.below(6) {
        0 => 0,
        1 => rng.below(2000) as i64,
        2 => rng.below(10) as i64 * SEC,
        3 => rng.below(1 << rng.range(1, 40)) as i64,
        4 => rng.below(1 << rng.range(30, 56)) as i64,
        _ => rng.below(3 * SEC as u64) as i64,
    }
}

fn wall_jump(rng: &mut Rng) {
    let s = match rng.below(4) {
        0 => rng.below(4_000_000_000) as i64,
        1 => -(rng.below(1_000_000_000) as i64),
        2 => 0,
        _ => 1_700_000_000 - rng.below(100_000) as i64,
    };
    vclock::set_wall(s, rng.below(SEC as u64) as i64);
}

fn start_virtual(rng: &mut Rng) {
    vclock::set_virtual(
        rng.below(1 << 50) as i64,
        1_600_000_000 + rng.below(1 << 28) as i64,
        rng.below(SEC as u64) as i64,
    );
}

/// What has been timed with one metric, in nanoseconds.
struct Timed {
    m: Any,
    bounds: Vec<f64>,
    base: f64,
    ns: Vec<i64>,
}
impl Timed {
    fn check(&self) -> R {
        let secs: Vec<f64> = self.ns.iter().map(|n| *n as f64 / 1e9).collect();
        match &self.m {
            Any::C(m) => {
                let all: Vec<f64> = secs.iter().cloned().chain([self.base]).collect();
                check_sum(m.value(), &all).map_err(|e| format!("counter timing {}: {}", show(&self.ns), e))
            }
            Any::G(m) => {
                let want = secs.last().cloned().unwrap_or(self.base);
                ensure!(
                    rounding(want, m.value()),
                    "gauge: {:?} instead of {:?}",
                    m.value(),
                    want
                );
                Ok(())
            }
            Any::S(m) => {
                ensure!(
                    m.count() == secs.len() as u64,
                    "{} durations are recorded instead of {}",
                    m.count(),
                    secs.len()
                );
                check_sum(m.sum(), &secs)?;
                let mut s = secs.clone();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let got = m.quantiles();
                let q: Vec<f64> = got.iter().map(|x| x.1).collect();
                match (s.first(), s.last()) {
                    (Some(lo), Some(hi)) => ensure!(
                        q.len() == 2 && rounding(*lo, q[0]) && rounding(*hi, q[1]),
                        "the recorded durations are within {:?}, not {:?}",
                        got,
                        (lo, hi)
                    ),
                    _ => ensure!(q.is_empty(), "quantiles {:?} without observations", got),
                }
                Ok(())
            }
            Any::H(m) => {
                ensure!(
                    m.count() == secs.len() as u64,
                    "{} durations are recorded instead of {}",
                    m.count(),
                    secs.len()
                );
                check_sum(m.sum(), &secs)?;
                for (b, le) in m
                    .cumulative_buckets()
                    .zip(self.bounds.iter().cloned().chain([f64::INFINITY]))
                {
                    let near = |x: f64| rounding(x, le) && le != 0.0;
                    let lo = secs.iter().filter(|x| **x <= le && !near(**x)).count() as u64;
                    let hi = secs.iter().filter(|x| **x <= le || near(**x)).count() as u64;
                    ensure!(
                        b.upper_bound() == le && b.cumulative_count() >= lo && b.cumulative_count() <= hi,
                        "bucket {} counts {} instead of {}..{}",
                        b.upper_bound(),
                        b.cumulative_count(),
                        lo,
                        hi
                    );
                }
                Ok(())
            }
        }
    }
}

fn time_any<T>(m: &Any, f: impl FnOnce() -> T) -> T {
    match m {
        Any::C(m) => m.time(f),
        Any::G(m) => m.time(f),
        Any::S(m) => m.time(f),
        Any::H(m) => m.time(f),
    }
}

/// Times a random nest of closures under the virtual clock; returns the time passed.
fn nest(ms: &mut Vec<Timed>, rng: &mut Rng, levels: u64, runs: &mut u64) -> R<i64> {
    let i = rng.us(ms.len());
    let token = rng.next();
    let m = ms[i].m.clone();
    let (mut ran, mut total) = (0u64, 0i64);
    let mut inner: R = Ok(());
    let got = time_any(&m, || {
        ran += 1;
        inner = (|| {
            for _ in 0..rng.below(4) {
                match rng.below(4) {
                    0 => wall_jump(rng),
                    1 if levels > 0 => total += nest(ms, rng, levels - 1, runs)?,
                    _ => {
                        let d = duration_ns(rng);
                        vclock::advance(d);
                        total += d;
                    }
                }
            }
            Ok(())
        })();
        (token, vec![token])
    });
    inner?;
    ensure!(ran == 1, "the closure ran {} times", ran);
    ensure!(
        got.0 == token && got.1 == [token],
        "the result of the closure was not passed on"
    );
    ms[i].ns.push(total);
    *runs += 1;
    ms[i].check()?;
    Ok(total)
}

pub fn c22(run: &mut Run) {
    if VIRTUAL {
        run.cases("virtual-time", 30_000, 600_000, |case| {
            let rng = &mut case.rng;
            start_virtual(rng);
            let mut ms = Vec::new();
            for (i, kind) in KINDS.iter().enumerate() {
                let mut s = Spec::new(*kind, &format!("m{}", i));
                s.window = Duration::from_secs(1 << 33);
                s.quantiles = vec![0.0, 1.0];
                if rng.chance(1, 2) {
                    s.bounds = (0..rng.below(5))
                        .map(|_| rng.below(1 << rng.range(1, 40)) as f64 / 1e9)
                        .collect();
                    s.bounds.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    s.bounds.dedup();
                }
                let m = s.must(&[])?;
                let base = match &m {
                    Any::C(m) => {
                        let b = rng.below(10);
                        m.add_u64(b);
                        b as f64
                    }
                    Any::G(m) => {
                        let b = rng.sdyadic();
                        m.set(b);
                        b
                    }
                    _ => 0.0,
                };
                ms.push(Timed {
                    m,
                    bounds: s.bounds,
                    base,
                    ns: vec![],
                });
            }
            rng.shuffle(&mut ms);
            ms.truncate(rng.range(1, 4) as usize);
            let mut runs = 0;
            for _ in 0..rng.range(1, 6) {
                let levels = rng.below(4);
                nest(&mut ms, rng, levels, &mut runs)?;
                if rng.chance(1, 2) {
                    vclock::advance(duration_ns(rng)); // not timed
                }
            }
            for m in &ms {
                m.check()?;
            }
            case.count("closures_timed", runs);
            note!(
                case,
                format!("{:?}", ms.iter().map(|m| (m.m.kind(), &m.ns)).collect::<Vec<_>>())
            );
            Ok(())
        });
        run.cases("current-time", 20_000, 400_000, |case| {
            let rng = &mut case.rng;
            start_virtual(rng);
            let g = Gauge::new("g").must("new")?;
            let g2 = g.clone();
            g.set(rng.sdyadic());
            let mut trace = Vec::new();
            for _ in 0..rng.range(1, 6) {
                let s = match rng.below(5) {
                    0 => rng.below(1 << 36) as i64,
                    1 => -(rng.below(1 << 36) as i64),
                    2 => rng.below(3) as i64 - 1,
                    3 => 1_500_000_000 + rng.below(1_000_000_000) as i64,
                    _ => rng.below(1 << rng.range(1, 40)) as i64 * if rng.chance(1, 2) { 1 } else { -1 },
                };
                let ns = *rng.pick(&[0, 1, 999_999_999, 500_000_000, 123_456_789]);
                let ns = if rng.chance(1, 2) {
                    ns
                } else {
                    rng.below(SEC as u64) as i64
                };
                vclock::set_wall(s, ns);
                g.set_to_current_time();
                let exact = i128::from(s) * i128::from(SEC) + i128::from(ns);
                let want = exact as f64 / 1e9;
                let got = g2.value();
                ensure!(
                    rounding(want, got),
                    "set_to_current_time gave {:?} at {:?} s",
                    got,
                    want
                );
                trace.push((s, ns));
                if rng.chance(1, 3) {
                    g.add(1.0);
                }
            }
            case.count("current_time_readings", trace.len() as u64);
            note!(case, format!("{:?}", trace));
            Ok(())
        });
    }
    run.cases("duration", 20_000, 400_000, |case| {
        let rng = &mut case.rng;
        let mut last = (0u128, 0.0);
        for k in 0..40 {
            let secs = match rng.below(4) {
                0 => rng.below(4),
                1 => rng.below(1 << rng.range(1, 63)),
                2 => u64::MAX - rng.below(3),
                _ => rng.below(100_000),
            };
            let nanos = match rng.below(4) {
                0 => 0,
                1 => 999_999_999,
                2 => rng.below(1000) as u32,
                _ => rng.below(SEC as u64) as u32,
            };
            let d = Duration::new(secs, nanos);
            let got = duration_to_seconds(d);
            let want = d.as_nanos() as f64 / 1e9;
            ensure!(
                rounding(want, got),
                "{:?} is converted to {:e} seconds, not {:e}",
                d,
                got,
                want
            );
            if k > 0 && d.as_nanos() >= last.0 {
                ensure!(
                    got >= last.1,
                    "a longer duration {:?} is converted to less: {:e} < {:e}",
                    d,
                    got,
                    last.1
                );
            }
            last = (d.as_nanos(), got);
        }
        case.count("durations_converted", 40);
        note!(case, format!("{:?}", last));
        Ok(())
    });
    // Several threads, real clocks: the recorded time lies between what the closure and what the caller saw.
    run.cases("real-time", 200, 4000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(1, sz(6, 2)) as usize;
        let per = rng.range(1, sz(40, 2));
        let kind = *rng.pick(&KINDS);
        let mut s = Spec::new(kind, "m");
        s.quantiles = vec![0.0, 0.5, 1.0];
        s.bounds = vec![1e-6, 1e-3];
        let m = s.must(&[])?;
        let seed = rng.next();
        let runs = AtomicU64::new(0);
        let all = par(threads, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let m = m.clone();
            let mut out = Vec::new();
            for k in 0..per {
                let o0 = Instant::now();
                let (i0, i1, token) = time_any(&m, || {
                    let i0 = Instant::now();
                    runs.fetch_add(1, SeqCst);
                    rng.spin(3000);
                    (i0, Instant::now(), k)
                });
                let o1 = Instant::now();
                ensure!(token == k, "another closure's result");
                out.push(((i1 - i0).as_secs_f64(), (o1 - o0).as_secs_f64()));
            }
            Ok(out)
        })?
        .concat();
        let n = all.len() as u64;
        ensure!(runs.load(SeqCst) == n, "{} runs of {} closures", runs.load(SeqCst), n);
        let sum = |f: fn(&(f64, f64)) -> f64| all.iter().map(f).sum::<f64>();
        let (lo, hi) = (sum(|x| x.0), sum(|x| x.1));
        let got = m.total();
        match &m {
            Any::G(_) => ensure!(
                all.iter().any(|x| got >= x.0 * 0.999_999 && got <= x.1 * 1.000_001),
                "the gauge is {:e}, the duration of no run",
                got
            ),
            _ => ensure!(
                got >= lo * 0.999_999 && got <= hi * 1.000_001,
                "{:e} s recorded, not {:e}..{:e}",
                got,
                lo,
                hi
            ),
        }
        let count = match &m {
            Any::S(m) => m.count(),
            Any::H(m) => m.count(),
            _ => n,
        };
        ensure!(count == n, "{} durations of {} are recorded", count, n);
        case.count("closures_timed", n);
        note!(case, format!("{:?} {}x{} {:e}", kind, threads, per, got));
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

fn any_ts(rng: &mut Rng) -> i64 {
    let v = match rng.below(8) {
        0 => 0,
        1 => -1,
        2 => i64::MAX - rng.below(2) as i64,
        3 => i64::MIN + 1 + rng.below(2) as i64,
        4 => rng.below(5) as i64 - 2,
        5 => 1_600_000_000_000 + rng.below(1 << 36) as i64,
        _ => rng.next() as i64 >> rng.below(63),
    };
    if v == i64::MIN {
        0
    } else {
        v
    }
}

/// A moment and its exact distance from the epoch in nanoseconds.
fn moment(rng: &mut Rng) -> (SystemTime, i128) {
    let secs = match rng.below(4) {
        0 => rng.below(3),
        1 => rng.below(1 << 40),
        2 => rng.below(1 << rng.range(1, 50)),
        _ => rng.below(2_000_000_000),
    };
    let nanos = match rng.below(5) {
        0 => 0,
        1 => 999_999_999,
        2 => rng.below(1000) as u32 * 1_000_000,
        3 => rng.below(1_000_000) as u32,
        _ => rng.below(SEC as u64) as u32,
    };
    let d = Duration::new(secs, nanos);
    if rng.chance(1, 2) {
        (UNIX_EPOCH + d, d.as_nanos() as i128)
    } else {
        (UNIX_EPOCH - d, -(d.as_nanos() as i128))
    }
}

fn within_ms(got: Option<i64>, ns: i128) -> bool {
    got.map_or(false, |g| (i128::from(g) * 1_000_000 - ns).abs() <= 1_000_000)
}

/// All lines of the text carry exactly this timestamp.
fn text_ts(text: &str, ts: Option<i64>) -> R {
    let lines = promtext::samples(text)?;
    ensure!(!lines.is_empty(), "no lines");
    for s in lines {
        ensure!(
            s.ts == ts,
            "a line carries timestamp {:?}, the metric has {:?}: {:?}",
            s.ts,
            ts,
            s
        );
    }
    Ok(())
}

pub fn c24(run: &mut Run) {
    run.cases("sequential", 20_000, 400_000, |case| {
        let rng = &mut case.rng;
        if VIRTUAL {
            start_virtual(rng);
        }
        let mut g = Gatherer::new();
        let kind = *rng.pick(&KINDS);
        let n = rng.range(1, 3) as usize;
        let separate = rng.chance(1, 3);
        let mut handles: Vec<Vec<Any>> = Vec::new();
        for i in 0..n {
            let mut s = Spec::new(kind, "m");
            s.labels = vec![("l".into(), if separate { i.to_string() } else { "x".into() })];
            s.quantiles = vec![0.5];
            s.bounds = vec![1.0];
            let m = s.must(&[&g.registry()])?;
            m.feed(1.5);
            ensure!(m.ts().get().is_none(), "a new metric has timestamp {:?}", m.ts().get());
            text_ts(&m.text(), None)?;
            handles.push(vec![m.clone(), m]);
        }
        let mut model: Vec<Option<i64>> = vec![None; n];
        let mut trace = String::new();
        for _ in 0..rng.range(1, sz(12, 5)) {
            let i = rng.us(n);
            let h = rng.us(handles[i].len());
            match rng.below(10) {
                9 => {
                    attempt(|| handles[i][h].ts_mut().set(i64::MIN));
                    trace += &format!(" {}=reserved", i);
                }
                0 | 1 | 2 => {
                    let v = if rng.chance(1, 4) {
                        model[rng.us(n)].unwrap_or(5)
                    } else {
                        any_ts(rng)
                    };
                    handles[i][h].ts_mut().set(v);
                    model[i] = Some(v);
                    trace += &format!(" {}={}", i, v);
                }
                3 | 4 => {
                    let (t, ns) = moment(rng);
                    handles[i][h].ts_mut().set_time(t);
                    let got = handles[i][0].ts().get();
                    ensure!(
                        within_ms(got, ns),
                        "set_time with {} ns since the epoch reads back as {:?} ms",
                        ns,
                        got
                    );
                    model[i] = got;
                    trace += &format!(" {}@{}ns", i, ns);
                }
                5 => {
                    if VIRTUAL {
                        wall_jump(rng);
                    }
                    let t0 = SystemTime::now();
                    handles[i][h].ts_mut().set_now();
                    let t1 = SystemTime::now();
                    let ns = |t: SystemTime| match t.duration_since(UNIX_EPOCH) {
                        Ok(d) => d.as_nanos() as i128,
                        Err(e) => -(e.duration().as_nanos() as i128),
                    };
                    let got = handles[i][0].ts().get();
                    let Some(v) = got else {
                        return Err("no timestamp after set_now".into());
                    };
                    let v = i128::from(v) * 1_000_000;
                    ensure!(
                        t1 < t0 || (v >= ns(t0) - 1_000_000 && v <= ns(t1) + 1_000_000),
                        "set_now between {} and {} ns gave {:?} ms",
                        ns(t0),
                        ns(t1),
                        got
                    );
                    model[i] = got;
                    trace += &format!(" {}:now", i);
                }
                6 => {
                    handles[i][h].ts_mut().clear();
                    model[i] = None;
                    trace += &format!(" {}:clear", i);
                }
                7 => {
                    let c = handles[i][h].clone();
                    handles[i].push(c);
                }
                _ => {
                    let m = &handles[i][h];
                    m.feed(1.0);
                    let mut m2 = m.clone();
                    m2.labels_mut().insert("k", "v").must("insert")?;
                    m2.labels_mut().remove("k");
                }
            }
            for k in 0..n {
                for m in &handles[k] {
                    ensure!(
                        m.ts().get() == model[k],
                        "timestamp {:?} instead of {:?} after{}",
                        m.ts().get(),
                        model[k],
                        trace
                    );
                    ensure!(
                        m.clone().ts_mut().get() == model[k],
                        "timestamp_mut reads another value"
                    );
                }
                text_ts(&handles[k][0].text(), model[k])?;
            }
            if rng.chance(1, 3) {
                let fs = g.gather();
                let f = fams(&fs);
                well_formed(&f)?;
                ensure!(f.len() == 1, "{} families", f.len());
                if separate {
                    ensure!(f[0].metrics.len() == n, "{} metrics", f[0].metrics.len());
                    for (k, m) in f[0].metrics.iter().enumerate() {
                        ensure!(
                            m.ts == model[k],
                            "gathered timestamp {:?} instead of {:?}",
                            m.ts,
                            model[k]
                        );
                    }
                } else {
                    let want = model.iter().flatten().max().cloned();
                    ensure!(f[0].metrics.len() == 1, "{} metrics", f[0].metrics.len());
                    ensure!(
                        f[0].metrics[0].ts == want,
                        "gathered {:?} of timestamps {:?}",
                        f[0].metrics[0].ts,
                        model
                    );
                }
                let text = fs.to_text();
                let body: String = text
                    .lines()
                    .filter(|l| !l.starts_with('#'))
                    .map(|l| format!("{}\n", l))
                    .collect();
                let parsed = promtext::samples(&body)?;
                let per = parsed.len() / f[0].metrics.len();
                for (k, s) in parsed.iter().enumerate() {
                    let want = f[0].metrics[k / per].ts;
                    ensure!(
                        s.ts == want,
                        "a gathered line carries {:?}, not {:?}: {:?}",
                        s.ts,
                        want,
                        s
                    );
                }
                case.counts.push(("gathers", 1));
            }
        }
        note!(case, format!("{:?} x{} separate {}:{}", kind, n, separate, trace));
        Ok(())
    });
    run.cases("concurrent", 300, 6000, |case| {
        let rng = &mut case.rng;
        let kind = *rng.pick(&KINDS);
        let mut g = Gatherer::new();
        let m = Spec::new(kind, "m").must(&[&g.registry()])?;
        m.feed(1.0);
        let writers = rng.range(1, sz(4, 2)) as usize;
        let per = rng.range(1, sz(800, 8)) as i64;
        let clear = rng.chance(1, 2);
        let mode = rng.below(2); // 0: one increasing writer, 1: all write
        let writers = if mode == 0 { 1 } else { writers };
        let live = AtomicU64::new(writers as u64);
        let seed = rng.next();
        let m2 = m.clone();
        let gm = std::sync::Mutex::new(&mut g);
        // values: both halves are equal, so a mixture of two values is recognisable
        let encode = |w: usize, k: i64| {
            let h = (k * 4 + w as i64 + 1) & 0x3fff_ffff;
            h << 32 | h
        };
        let valid = |v: i64| v >> 32 == (v & 0xffff_ffff) && (v >> 32) >= 1 && (v >> 32) <= per * 4 + 4;
        let reads = par(writers + 2, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let mut m = m2.clone();
            if t < writers {
                for k in 0..per {
                    if clear && rng.chance(1, 4) {
                        m.ts_mut().clear();
                    }
                    m.ts_mut().set(encode(t, k));
                }
                live.fetch_sub(1, SeqCst);
                return Ok(0);
            }
            let (mut last, mut n, mut changes) = (0, 0u64, 0u64);
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let (v, missing) = if t == writers || n % 16 != 0 {
                    (m.ts().get(), true)
                } else {
                    let f = gm.lock().unwrap().gather();
                    let f = fams(&f);
                    ensure!(f.len() == 1, "{} families", f.len());
                    (f[0].metrics[0].ts, true)
                };
                match v {
                    None => ensure!(missing && (clear || last == 0), "the timestamp disappeared"),
                    Some(v) => {
                        ensure!(valid(v), "timestamp {:#x} was never set", v);
                        ensure!(
                            mode != 0 || v >= last,
                            "timestamp went back from {:#x} to {:#x}",
                            last,
                            v
                        );
                        changes += u64::from(v != last);
                        last = v;
                    }
                }
                n += 1;
                if done {
                    ensure!(v.is_some(), "no timestamp in the end");
                    ensure!(mode != 0 || v == Some(encode(0, per - 1)), "{:?} in the end", v);
                    return Ok(changes);
                }
            }
        })?;
        drop(gm);
        let end = m.ts().get();
        ensure!(
            (0..writers).any(|w| end == Some(encode(w, per - 1))),
            "timestamp {:?} in the end is no writer's last",
            end
        );
        let changes: u64 = reads.iter().sum();
        case.count("timestamp_changes_seen", changes);
        note!(
            case,
            format!(
                "{:?} {} writers x {} clear {} changes seen {}",
                kind, writers, per, clear, changes
            )
        );
        Ok(())
    });
}

//! C04, C05 and C06: histograms.

use crate::core::*;
use crate::model::*;
use crate::promtext::{self, Sample};
use crate::rng::*;
use prometrics::metrics::{Histogram, HistogramBuilder};
use prometrics::Gatherer;
use std::collections::BTreeMap;
use std::sync::atomic::{fence, AtomicU64, Ordering::*};

/// Distinct finite-or-infinite bounds in increasing order, without a final +Inf.
pub fn bounds(rng: &mut Rng, max: u64) -> Vec<f64> {
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => max,
        _ => rng.below(max.min(12) + 1),
    };
    let n = rng.big(600, 5000).unwrap_or(n);
    let style = rng.below(5);
    let c = rng.f64_any(false);
    let mut v: Vec<f64> = (0..n)
        .map(|i| match style {
            0 => i as f64 * 10.0,
            1 => rng.sdyadic(),
            2 => {
                // neighbours
                let mut x = if c.is_finite() { c } else { 1.0 };
                for _ in 0..rng.below(6) {
                    x = if rng.chance(1, 2) { next_up(x) } else { next_down(x) };
                }
                x
            }
            _ => rng.f64_any(false),
        })
        .collect();
    rng.shuffle(&mut v);
    v
}

/// The bounds a histogram configured with `b` must have.
pub fn expected_bounds(b: &[f64]) -> Vec<f64> {
    let mut v: Vec<f64> = b.to_vec();
    v.push(f64::INFINITY);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

pub fn observation(rng: &mut Rng, b: &[f64]) -> f64 {
    if !b.is_empty() && rng.chance(2, 3) {
        let x = *rng.pick(b);
        match rng.below(4) {
            0 | 1 => x,
            2 => next_up(x),
            _ => next_down(x),
        }
    } else {
        rng.f64_any(false)
    }
}

/// Compares all views of a histogram with a recount of the observations.
fn recount(h: &Histogram, want_bounds: &[f64], obs: &[f64]) -> R {
    let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
    ensure!(
        got == want_bounds,
        "the bounds are {:?} instead of {:?}",
        show(&got),
        show(&want_bounds)
    );
    let mut sorted = obs.to_vec();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let le = |b: f64| sorted.partition_point(|v| *v <= b) as u64;
    let mut prev = 0;
    let mut total = 0;
    for (b, c) in h.buckets().iter().zip(h.cumulative_buckets()) {
        let n = le(b.upper_bound());
        ensure!(
            c.cumulative_count() == n && c.upper_bound() == b.upper_bound(),
            "the cumulative bucket {:e} counts {} although {} observed values are less or equal ({})",
            b.upper_bound(),
            c.cumulative_count(),
            n,
            show(&obs)
        );
        ensure!(
            b.count() == n - prev,
            "the bucket {:e} counts {} instead of {} ({})",
            b.upper_bound(),
            b.count(),
            n - prev,
            show(&obs)
        );
        total += b.count();
        prev = n;
    }
    ensure!(
        h.cumulative_buckets().count() == want_bounds.len(),
        "number of cumulative buckets"
    );
    ensure!(
        total == obs.len() as u64,
        "the buckets count {} of {} observations",
        total,
        obs.len()
    );
    ensure!(
        h.count() == obs.len() as u64,
        "the count is {} after {} observations",
        h.count(),
        obs.len()
    );
    check_sum(h.sum(), obs).map_err(|e| format!("{} ({})", e, show(&obs)))
}

/// Tries to observe some NaN.
fn refuse_nan(rng: &mut Rng, h: &Histogram) {
    let bits = 0x7ff8_0000_0000_0000 | (rng.next() & 0x8007_ffff_ffff_ffff);
    attempt(|| h.observe(f64::from_bits(bits)));
}

pub fn c04(run: &mut Run) {
    run.cases("recount", 20_000, 500_000, |case| {
        let rng = &mut case.rng;
        let b = bounds(rng, sz(if rng.chance(1, 20) { 700 } else { 30 }, 8));
        let mut hb = HistogramBuilder::new("h");
        if rng.chance(1, 2) {
            hb.buckets(b.iter().cloned());
        } else {
            for x in &b {
                hb.bucket(*x);
            }
        }
        let h = hb.finish().must("build")?;
        let sibling = hb.finish().must("build")?;
        let want = expected_bounds(&b);
        recount(&h, &want, &[])?;
        let clone = h.clone();
        let n = match rng.below(6) {
            0 => want.len() as u64 * 3,
            1 => rng.range(0, sz(400, 20)),
            _ => rng.range(0, 12),
        };
        let dyadic = rng.chance(1, 4);
        let mut obs = Vec::new();
        let sweep = rng.chance(1, 4);
        let refused = if rng.chance(1, 3) { 8 } else { 0 };
        for i in 0..n {
            if refused > 0 && rng.chance(1, refused) {
                refuse_nan(rng, if rng.chance(1, 2) { &h } else { &clone });
                case.counts.push(("refused", 1));
                if n < 10 {
                    recount(&h, &want, &obs)?;
                }
            }
            let v = if sweep && i < want.len() as u64 * 3 {
                let x = want[(i / 3) as usize];
                [x, next_up(x), next_down(x)][(i % 3) as usize]
            } else if dyadic {
                rng.sdyadic()
            } else {
                observation(rng, &want)
            };
            if rng.chance(1, 2) { &h } else { &clone }.observe(v);
            obs.push(v);
            if n < 10 {
                recount(&h, &want, &obs)?;
            }
        }
        recount(&h, &want, &obs)?;
        recount(&clone, &want, &obs)?;
        recount(&sibling, &want, &[]).map_err(|e| format!("a separate histogram: {}", e))?;
        case.count("observations", n);
        case.count("buckets", want.len() as u64);
        note!(case, format!("bounds {} obs {}", show(&b), show(&obs)));
        Ok(())
    });
    run.cases("concurrent", 300, 6000, |case| {
        let rng = &mut case.rng;
        let b = bounds(rng, sz(20, 3));
        let h = HistogramBuilder::new("h")
            .buckets(b.iter().cloned())
            .finish()
            .must("build")?;
        let want = expected_bounds(&b);
        let threads = rng.range(2, sz(8, 3)) as usize;
        let per = rng.range(1, sz(2000, 6));
        let one_bucket = rng.chance(1, 3);
        let dyadic = rng.chance(2, 3);
        let refused = rng.chance(1, 3);
        let seed = rng.next();
        let obs = par(threads, |t| {
            let mut rng = Rng::new(seed ^ t as u64);
            let h = h.clone();
            let mut o = Vec::new();
            for _ in 0..per {
                let v = if one_bucket {
                    0.125
                } else if dyadic {
                    rng.sdyadic()
                } else {
                    observation(&mut rng, &want)
                };
                if refused && rng.chance(1, 50) {
                    refuse_nan(&mut rng, &h);
                }
                h.observe(v);
                o.push(v);
            }
            Ok(o)
        })?
        .concat();
        recount(&h, &want, &obs)?;
        if one_bucket || dyadic {
            let s: f64 = obs.iter().sum();
            ensure!(h.sum() == s, "the sum is {} instead of {}", h.sum(), s);
        }
        case.count("observations", obs.len() as u64);
        note!(case, format!("{}x{} bounds {} sum {}", threads, per, show(&b), h.sum()));
        Ok(())
    });
}

pub fn c05(run: &mut Run) {
    run.cases("configured-bounds", 40_000, 1_000_000, |case| {
        let rng = &mut case.rng;
        let mut all: Vec<f64> = Vec::new();
        let mut trace = String::new();
        let small = |rng: &mut Rng| (rng.sdyadic() / 1024.0 * 8.0).trunc() / 8.0;
        let mut hb = match rng.below(4) {
            0 => {
                let (s, w, n) = (small(rng), small(rng), rng.below(sz(60, 10)) as usize);
                all.extend((0..n).map(|i| s + i as f64 * w));
                trace += &format!("linear({},{},{}) ", s, w, n);
                HistogramBuilder::with_linear_buckets("h", s, w, n)
            }
            1 => {
                // exact powers
                let s = *rng.pick(&[1.0, 0.125, 3.0, -1.0, 0.0, 5e-324, 1024.0]);
                let f = *rng.pick(&[2.0, 0.5, 1.0, 4.0, -2.0, 0.0, 10.0, 3.0]);
                let n = rng.below(16) as usize;
                let mut x = s;
                for _ in 0..n {
                    all.push(x);
                    x *= f;
                }
                trace += &format!("exponential({},{},{}) ", s, f, n);
                HistogramBuilder::with_exponential_buckets("h", s, f, n)
            }
            _ => HistogramBuilder::new("h"),
        };
        for _ in 0..rng.below(4) {
            if rng.chance(1, 2) {
                let x = if rng.chance(1, 3) && !all.is_empty() {
                    *rng.pick(&all)
                } else {
                    rng.f64_any(true)
                };
                hb.bucket(x);
                all.push(x);
                trace += &format!("bucket({:e}) ", x);
            } else {
                let mut xs = bounds(rng, 40);
                if rng.chance(1, 3) {
                    xs.extend(all.iter().cloned());
                    rng.shuffle(&mut xs);
                }
                if rng.chance(1, 30) {
                    let at = rng.us(xs.len() + 1);
                    xs.insert(at, f64::NAN);
                }
                hb.buckets(xs.clone());
                trace += &format!("buckets({}) ", show(&xs));
                all.extend(xs);
            }
            if rng.chance(1, 8) {
                let _ = hb.finish();
            }
        }
        let r = hb.finish();
        if all.iter().any(|x| x.is_nan()) {
            case.count("nan_rejected", 1);
            invalid(r, &format!("a NaN bound in {}", trace))?;
        } else {
            let h = r.must(&trace)?;
            let want = expected_bounds(&all);
            let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
            ensure!(
                got == want,
                "the bounds are {:?} instead of {:?} for {}",
                show(&got),
                show(&want),
                trace
            );
            let cum: Vec<f64> = h.cumulative_buckets().map(|b| b.upper_bound()).collect();
            ensure!(
                cum == want,
                "the cumulative bounds are {:?} instead of {:?} for {}",
                show(&cum),
                show(&want),
                trace
            );
            ensure!(
                h.buckets().iter().all(|b| b.count() == 0),
                "a new histogram is not empty"
            );
            case.count("buckets", want.len() as u64);
        }
        note!(case, trace);
        Ok(())
    });
    run.cases("inexact-sequences", 20_000, 400_000, |case| {
        let rng = &mut case.rng;
        let n = rng.range(0, if rng.chance(1, 10) { sz(600, 8) } else { sz(40, 8) }) as usize;
        let (lin, s, f) = if rng.chance(1, 2) {
            let s = (rng.unit() - 0.5) * 10f64.powi(rng.below(9) as i32 - 4);
            let w =
                (rng.unit() + 0.01) * 10f64.powi(rng.below(9) as i32 - 4) * if rng.chance(1, 5) { -1.0 } else { 1.0 };
            (true, s, w)
        } else {
            let s =
                (rng.unit() + 0.01) * 10f64.powi(rng.below(9) as i32 - 4) * if rng.chance(1, 5) { -1.0 } else { 1.0 };
            (false, s, 1.05 + rng.unit() * 4.0)
        };
        // i * width is exact for such widths, so there is only one correctly rounded bound
        let exact = lin && rng.chance(1, 3);
        let (s, f) = if exact {
            let start = match rng.below(4) {
                0 => 2f64.powi(53) * (1.0 + rng.below(4) as f64),
                1 => s * 1e12,
                2 => (rng.unit() - 0.5) * 2f64.powi(rng.below(80) as i32 - 10),
                _ => s,
            };
            let w = rng.range(1, 2000) as f64 * 2f64.powi(rng.below(20) as i32 - 10) * f.signum();
            (start, w)
        } else {
            (s, f)
        };
        let mut hb = if lin {
            HistogramBuilder::with_linear_buckets("h", s, f, n)
        } else {
            HistogramBuilder::with_exponential_buckets("h", s, f, n)
        };
        let desc = format!(
            "{}({:e}, {:e}, {})",
            if lin { "linear" } else { "exponential" },
            s,
            f,
            n
        );
        hb.help("x");
        let h = hb.finish().must(&desc)?;
        let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
        let mut want: Vec<f64> = (0..n)
            .map(|i| if lin { s + i as f64 * f } else { s * f.powf(i as f64) })
            .collect();
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        want.push(f64::INFINITY);
        if exact {
            want.dedup();
            ensure!(
                got == want,
                "{}: the bounds are {} instead of {}",
                desc,
                show(&got),
                show(&want)
            );
        }
        let separated = want
            .windows(2)
            .all(|w| w[1] - w[0] > 1e-6 * (w[0].abs().max(w[1].abs()).min(1e300)));
        if separated {
            ensure!(
                got.len() == want.len(),
                "{}: {} buckets instead of {}",
                desc,
                got.len(),
                want.len()
            );
            for (i, (a, b)) in got.iter().zip(&want).enumerate() {
                // linear: two roundings; exponential: that of repeated multiplication
                let scale = if lin {
                    2.5 * (b.abs() + (b - s).abs())
                } else {
                    (4 * n + 16) as f64 * b.abs()
                };
                ensure!(
                    a == b || (a - b).abs() <= f64::EPSILON * scale,
                    "{}: bound {} is {:e} instead of {:e}",
                    desc,
                    i,
                    a,
                    b
                );
            }
        }
        ensure!(
            got.windows(2).all(|w| w[0] < w[1]),
            "{}: the bounds {:?} are not increasing",
            desc,
            got
        );
        ensure!(
            got.last() == Some(&f64::INFINITY),
            "{}: the last bound is {:?}",
            desc,
            got.last()
        );
        if separated {
            note!(case, desc);
        }
        Ok(())
    });
    run.cases("nan-parameters", 2_000, 40_000, |case| {
        let rng = &mut case.rng;
        let n = rng.range(2, 9) as usize;
        let at = rng.below(4);
        let v = rng.dyadic();
        let hb = match at {
            0 => HistogramBuilder::with_linear_buckets("h", f64::NAN, v, n),
            1 => HistogramBuilder::with_linear_buckets("h", v, f64::NAN, n),
            2 => HistogramBuilder::with_exponential_buckets("h", f64::NAN, v + 1.0, n),
            _ => HistogramBuilder::with_exponential_buckets("h", v + 1.0, f64::NAN, n),
        };
        note!(case, format!("{} {} {}", at, v, n));
        invalid(hb.finish(), &format!("NaN parameter {} ({}, {})", at, v, n))
    });
}

#[derive(Clone)]
struct Seen {
    /// counts by bound
    buckets: BTreeMap<u64, u64>,
    count: u64,
}

/// Checks one rendering (samples of one metric) and returns its counts.
fn rendering(name: &str, s: &[Sample], labels: &[(String, String)]) -> R<(Vec<(f64, u64)>, u64)> {
    let mut b = Vec::new();
    let (mut sum, mut count) = (0, None);
    for x in s {
        ensure!(
            x.without("le") == labels,
            "a line has the labels {:?} instead of {:?}",
            x.labels,
            labels
        );
        if x.name == format!("{}_bucket", name) {
            let le = promtext::value(x.label("le").ok_or("a bucket line without le")?)?;
            b.push((le, x.value as u64));
        } else if x.name == format!("{}_sum", name) {
            sum += 1;
        } else if x.name == format!("{}_count", name) {
            ensure!(count.is_none(), "_count twice");
            count = Some(x.value as u64);
        } else {
            return Err(format!("unexpected sample {}", x.name));
        }
    }
    ensure!(
        b.windows(2).all(|w| w[0].0 < w[1].0),
        "the bounds {:?} are not increasing",
        b
    );
    ensure!(
        b.windows(2).all(|w| w[0].1 <= w[1].1),
        "the bucket counts {:?} are decreasing",
        b
    );
    ensure!(
        b.last().map(|x| x.0) == Some(f64::INFINITY),
        "the last bucket is {:?}",
        b.last()
    );
    let c = count.ok_or("no _count")?;
    ensure!(sum == 1, "{} _sum lines", sum);
    ensure!(
        c == b.last().unwrap().1,
        "_count is {} although the +Inf bucket is {}",
        c,
        b.last().unwrap().1
    );
    Ok((b, c))
}

pub fn c06(run: &mut Run) {
    run.cases("rendered-while-observed", 400, 8000, |case| {
        let rng = &mut case.rng;
        let members = if rng.chance(1, 3) {
            1
        } else {
            rng.range(2, sz(4, 2)) as usize
        };
        let gat = Gatherer::new();
        let reg = gat.registry();
        let labels: Vec<(String, String)> = if rng.chance(1, 2) {
            vec![]
        } else {
            vec![("a".into(), "x\n\"\\".into()), ("b".into(), "".into())]
        };
        let pool = expected_bounds(&bounds(rng, sz(20, 4)));
        let mut hs = Vec::new();
        let mut bs = Vec::new();
        for _ in 0..members {
            let mine: Vec<f64> = pool.iter().filter(|_| rng.chance(2, 3)).cloned().collect();
            let mut hb = HistogramBuilder::new("h");
            hb.buckets(mine.iter().cloned());
            for (k, v) in &labels {
                hb.label(k, v);
            }
            hb.registry(reg.clone());
            let mut h = hb.finish().must("build")?;
            if rng.chance(1, 4) {
                h.timestamp_mut().set(5);
            }
            let _ = &mut h;
            bs.push(expected_bounds(&mine));
            hs.push(h);
        }
        let writers = rng.range(1, sz(4, 2)) as usize;
        let readers = rng.range(1, sz(3, 1)) as usize;
        let per = rng.range(1, sz(2500, 6));
        // started / completed per writer, member and bucket
        let grid = |_: usize| -> Vec<Vec<AtomicU64>> {
            bs.iter()
                .map(|b| b.iter().map(|_| AtomicU64::new(0)).collect())
                .collect()
        };
        let started: Vec<_> = (0..writers).map(grid).collect();
        let completed: Vec<_> = (0..writers).map(grid).collect();
        let live = AtomicU64::new(writers as u64);
        let seed = rng.next();
        let burst = rng.chance(1, 2);
        let gat = std::sync::Mutex::new(gat);
        let bound_of = |m: usize, i: usize| bs[m][i];
        let counts = par(writers + readers, |t| {
            let rng = Rng::new(seed ^ t as u64);
            if t < writers {
                let hs: Vec<Histogram> = hs.iter().cloned().collect();
                for k in 0..per {
                    let m = rng.us(members);
                    let i = if burst && k % 2 == 0 { 0 } else { rng.us(bs[m].len()) };
                    let (s, c) = (&started[t][m][i], &completed[t][m][i]);
                    s.store(s.load(Relaxed) + 1, Relaxed);
                    fence(SeqCst);
                    hs[m].observe(bound_of(m, i));
                    c.store(c.load(Relaxed) + 1, Release);
                }
                live.fetch_sub(1, SeqCst);
                return Ok(0);
            }
            // which: 0.. = the member rendered alone, `members` = the gathered aggregation
            let mut last: Vec<Option<Seen>> = vec![None; members + 1];
            let mut kept = None;
            let mut n = 0u64;
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let which = rng.us(members + 1);
                let all: Vec<usize> = if which == members {
                    (0..members).collect()
                } else {
                    vec![which]
                };
                let sum_le = |g: &Vec<Vec<Vec<AtomicU64>>>, b: f64, o| -> u64 {
                    g.iter()
                        .map(|w| {
                            all.iter()
                                .map(|&m| {
                                    (0..bs[m].len())
                                        .filter(|&i| bs[m][i] <= b)
                                        .map(|i| w[m][i].load(o))
                                        .sum::<u64>()
                                })
                                .sum::<u64>()
                        })
                        .sum()
                };
                let mut union: Vec<f64> = all.iter().flat_map(|&m| bs[m].iter().cloned()).collect();
                union.sort_by(|a, b| a.partial_cmp(b).unwrap());
                union.dedup();
                let lo: Vec<u64> = union.iter().map(|&b| sum_le(&completed, b, Acquire)).collect();
                let samples = if which < members {
                    promtext::samples(&hs[which].to_string())?
                } else {
                    // a result may be rendered more than once
                    if kept.is_none() || rng.chance(1, 2) {
                        kept = Some(gat.lock().map_err(|_| "the gatherer is poisoned".to_string())?.gather());
                    }
                    let f = promtext::families(&kept.as_ref().unwrap().to_text())?;
                    ensure!(
                        f.len() == 1 && f[0].kind == "histogram",
                        "{} families were gathered",
                        f.len()
                    );
                    f[0].samples.clone()
                };
                fence(SeqCst);
                let hi: Vec<u64> = union.iter().map(|&b| sum_le(&started, b, Relaxed)).collect();
                let (b, count) = rendering("h", &samples, &labels)?;
                ensure!(
                    b.iter().map(|x| x.0).collect::<Vec<_>>() == union,
                    "the bounds {:?} instead of {:?}",
                    b,
                    union
                );
                for (i, &(le, c)) in b.iter().enumerate() {
                    ensure!(
                        c >= lo[i],
                        "the bucket {} shows {} although {} observations had completed",
                        le,
                        c,
                        lo[i]
                    );
                    ensure!(
                        c <= hi[i],
                        "the bucket {} shows {} although only {} observations had been started",
                        le,
                        c,
                        hi[i]
                    );
                }
                if let Some(ref l) = last[which] {
                    for (k, v) in &b {
                        let old = l.buckets.get(&k.to_bits()).copied().unwrap_or(0);
                        ensure!(*v >= old, "the bucket {} went down from {} to {}", k, old, v);
                    }
                    ensure!(count >= l.count, "_count went down from {} to {}", l.count, count);
                }
                last[which] = Some(Seen {
                    buckets: b.iter().map(|x| (x.0.to_bits(), x.1)).collect(),
                    count,
                });
                n += 1;
                if done {
                    return Ok(n);
                }
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
        })?;
        case.count("renderings", counts.iter().sum());
        case.count("observations", per * writers as u64);
        note!(
            case,
            format!(
                "{} members {}w {}r x {} bounds {} renderings {}",
                members,
                writers,
                readers,
                per,
                show(&pool),
                counts.iter().sum::<u64>()
            )
        );
        Ok(())
    });
    run.cases("rendered-at-rest", 8000, 200_000, |case| {
        let rng = &mut case.rng;
        let mut gat = Gatherer::new();
        let reg = gat.registry();
        let pool = expected_bounds(&bounds(rng, sz(25, 5)));
        let members = rng.range(1, 4);
        let mut hs = Vec::new();
        for _ in 0..members {
            let mut hb = HistogramBuilder::new("h");
            hb.buckets(pool.iter().filter(|_| rng.chance(2, 3)).cloned().collect::<Vec<_>>());
            if rng.chance(1, 3) {
                hb.buckets(bounds(rng, 6));
            }
            hs.push(hb.registry(reg.clone()).finish().must("build")?);
        }
        for _ in 0..rng.below(30) {
            let v = observation(rng, &pool);
            rng.pick(&hs).observe(v);
        }
        let mut union: Vec<f64> = Vec::new();
        for h in &hs {
            let b: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
            let (r, c) = rendering("h", &promtext::samples(&h.to_string())?, &[])?;
            ensure!(
                r.iter().map(|x| x.0).collect::<Vec<_>>() == b,
                "text bounds {:?}, buckets {:?}",
                r,
                b
            );
            ensure!(c == h.count(), "_count {} but count() {}", c, h.count());
            union.extend(b);
        }
        union.sort_by(|a, b| a.partial_cmp(b).unwrap());
        union.dedup();
        let r = gat.gather();
        let f = promtext::families(&r.to_text())?;
        let (b, c) = rendering("h", &f[0].samples, &[])?;
        ensure!(
            b.iter().map(|x| x.0).collect::<Vec<_>>() == union,
            "text bounds {:?} instead of {:?}",
            b,
            union
        );
        ensure!(c == hs.iter().map(|h| h.count()).sum::<u64>(), "_count is {}", c);
        case.count("renderings", members + 1);
        note!(case, format!("{} {:?}", members, show(&b)));
        Ok(())
    });
}

//! C07, C08 and C09: summaries.

use crate::core::*;
use crate::model::*;
use crate::promtext;
use crate::rng::*;
use crate::{alloc, vclock};
use prometrics::metrics::{Summary, SummaryBuilder};
use prometrics::quantile::Quantile;
use prometrics::Gatherer;
use std::sync::atomic::{fence, AtomicU64, Ordering::*};
use std::time::Duration;

pub fn random_quantiles(rng: &mut Rng) -> Vec<f64> {
    let n = match rng.below(6) {
        0 => 0,
        1 => rng.range(1, 40),
        _ => rng.range(1, 6),
    };
    let n = rng.big(500, 2500).unwrap_or(n);
    let mut v: Vec<f64> = (0..n)
        .map(|_| match rng.below(10) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            3 => rng.below(101) as f64 / 100.0,
            4 => next_down(1.0),
            5 => *rng.pick(&[5e-324, 1e-300, f64::EPSILON, 1.0 - 1e-9, 0.999, 0.99, 0.9]),
            6 => rng.below(9) as f64 / 8.0,
            7 => rng.range(1, 29) as f64 / 29.0,
            _ => rng.unit(),
        })
        .collect();
    if n > 0 && rng.chance(1, 4) {
        let d = *rng.pick(&v);
        v.push(d);
    }
    v
}

fn pairs(s: &Summary) -> Vec<(f64, f64)> {
    s.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect()
}
fn sorted(v: &[f64]) -> Vec<f64> {
    let mut v: Vec<f64> = v.iter().filter(|v| !v.is_nan()).cloned().collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
fn build(q: &[f64], window: Duration) -> R<Summary> {
    let mut b = SummaryBuilder::new("s", window);
    for x in q {
        b.quantile(*x);
    }
    b.finish().must(&format!("building with quantiles {:?}", q))
}

/// Quantiles with which the whole multiset of up to `max` observations can be read out.
fn grid(max: usize) -> Vec<f64> {
    let mut v = vec![0.0, 1.0];
    for n in 1..=max {
        for i in 0..n {
            v.push((i as f64 + 0.5) / n as f64);
        }
    }
    v
}
fn multiset(got: &[(f64, f64)], n: usize) -> R<Vec<f64>> {
    if n == 0 {
        ensure!(
            got.is_empty(),
            "{:?} is reported although the window is empty",
            show(&got)
        );
        return Ok(vec![]);
    }
    ensure!(
        !got.is_empty(),
        "nothing is reported although the window contains {} observations",
        n
    );
    let by_quantile: std::collections::BTreeMap<u64, f64> = got.iter().map(|x| (x.0.to_bits(), x.1)).collect();
    (0..n)
        .map(|i| {
            let q = (i as f64 + 0.5) / n as f64;
            by_quantile
                .get(&q.to_bits())
                .copied()
                .ok_or_else(|| format!("quantile {} is not reported", q))
        })
        .collect()
}

pub fn c07(run: &mut Run) {
    run.cases("rank-accuracy", 30_000, 800_000, |case| {
        let rng = &mut case.rng;
        let q = random_quantiles(rng);
        let window = *rng.pick(&[
            Duration::from_secs(3600),
            Duration::from_secs(86400 * 365),
            Duration::from_secs(1 << 40),
            Duration::from_secs(u64::MAX),
            Duration::new(u64::MAX, 999_999_999),
        ]);
        let s = build(&q, window)?;
        let t = s.clone();
        let n = match rng.below(12) {
            0 => 0,
            1 => sz(rng.range(100, 3000), 20),
            2 => 1,
            3 => 2,
            _ => rng.range(1, 40),
        };
        let style = rng.below(5);
        let mut obs = Vec::new();
        let mut checks = 0;
        for i in 0..n {
            let v = match style {
                0 => i as f64,
                1 => -(i as f64),
                2 => rng.below(4) as f64,
                3 => rng.f64_any(true),
                _ => {
                    if rng.chance(1, 6) {
                        f64::NAN
                    } else {
                        rng.sdyadic()
                    }
                }
            };
            if rng.chance(1, 2) { &s } else { &t }.observe(v);
            obs.push(v);
            if rng.chance(1, 8) && n < 100 {
                check_quantiles(&pairs(&t), &q, &sorted(&obs))?;
                checks += 1;
            }
        }
        let sd = sorted(&obs);
        let (count, sum) = (s.count(), s.sum());
        let a = pairs(&s);
        check_quantiles(&a, &q, &sd)?;
        let b = pairs(&t);
        ensure!(a == b, "computing the quantiles twice gives {:?} and {:?}", a, b);
        ensure!(
            s.count() == count && same(s.sum(), sum),
            "computing quantiles changed the summary"
        );
        ensure!(count == n, "the count is {} after {} observations", count, n);
        check_sum(sum, &obs)?;
        let text = promtext::samples(&s.to_string())?;
        let tq: Vec<(f64, f64)> = text
            .iter()
            .filter(|x| x.name == "s")
            .map(|x| {
                Ok((
                    promtext::value(x.label("quantile").ok_or("no quantile label")?)?,
                    x.value,
                ))
            })
            .collect::<R<_>>()?;
        ensure!(tq == a, "the text shows {:?}, not {:?}", tq, a);
        case.count("observations", n);
        case.count("quantile_reads", checks + 3);
        note!(case, format!("q {} obs {}", show(&q), show(&obs)));
        Ok(())
    });
    run.cases("large", 24, 600, |case| {
        let rng = &mut case.rng;
        let mut q = random_quantiles(rng);
        q.extend([0.0, 1.0, 0.5, 0.9, 0.99, 0.999, 0.9999]);
        let s = build(&q, Duration::from_secs(1 << 30))?;
        // (the very large ones make a second's work)
        let n = if case.idx % 200 == 5 {
            sz(rng.range(1_060_000, 1_300_000), 50)
        } else {
            sz(rng.range(5_000, 70_000), 50)
        };
        let mut obs = Vec::new();
        let step = 1 + 2 * rng.below(5000);
        let mut pace = Pace::new(8.0);
        for i in 0..n {
            let v = ((i * step) % (n + 7)) as f64;
            s.observe(v);
            obs.push(v);
            if pace.over() {
                break;
            }
        }
        let n = obs.len() as u64;
        check_quantiles(&pairs(&s), &q, &sorted(&obs))?;
        ensure!(s.count() == n, "count {}", s.count());
        case.count("observations", n);
        note!(case, format!("n {} step {} q {}", n, step, show(&q)));
        Ok(())
    });
    run.cases("invalid-quantiles", 10_000, 200_000, |case| {
        let rng = &mut case.rng;
        let x = match rng.below(6) {
            0 => f64::NAN,
            1 => -f64::NAN,
            2 => next_up(1.0),
            3 => -5e-324,
            4 => rng.unit(),
            _ => rng.f64_any(true),
        };
        let ok = (0.0..=1.0).contains(&x);
        let mut q = random_quantiles(rng);
        let at = rng.us(q.len() + 1);
        q.insert(at, x);
        let mut g = Gatherer::new();
        let mut b = SummaryBuilder::new("s", Duration::from_secs(9));
        b.registry(g.registry());
        for x in &q {
            b.quantile(*x);
        }
        let r = b.finish();
        let fams = g.gather().into_vec().len();
        if ok {
            let s = r.must(&format!("quantile {:e}", x))?;
            s.observe(3.0);
            check_quantiles(&pairs(&s), &q, &[3.0])?;
            ensure!(
                Quantile::new(x).must("Quantile::new")?.as_f64() == x,
                "Quantile::new({:e})",
                x
            );
        } else {
            invalid(r, &format!("quantile {:e} in {:?}", x, q))?;
            invalid(Quantile::new(x), &format!("Quantile::new({:e})", x))?;
            ensure!(fams == 0, "a summary was registered by a failed build");
        }
        note!(case, format!("{:e} {}", x, show(&q)));
        Ok(())
    });
    run.cases("aggregated", 5_000, 100_000, |case| {
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let members = rng.range(1, 4);
        let mut q = Vec::new();
        let mut obs = Vec::new();
        let mut keep = Vec::new();
        for _ in 0..members {
            let mine = random_quantiles(rng);
            let mut b = SummaryBuilder::new("s", Duration::from_secs(1 << 30));
            for x in &mine {
                b.quantile(*x);
            }
            let s = b.registry(g.registry()).finish().must("build")?;
            for _ in 0..rng.below(14) {
                let v = rng.f64_any(true);
                s.observe(v);
                obs.push(v);
            }
            q.extend(mine);
            keep.push(s);
        }
        let f = gather(&mut g)?;
        let Val::Summary { quantiles, .. } = &f[0].metrics[0].val else {
            return Err("not a summary".into());
        };
        check_quantiles(quantiles, &q, &sorted(&obs))?;
        note!(case, format!("{} {} {}", members, show(&q), show(&obs)));
        Ok(())
    });
}

pub fn c08(run: &mut Run) {
    if !vclock::works() {
        run.stats
            .inconclusive
            .push("the clocks cannot be interposed in this build".into());
        return;
    }
    run.cases("virtual-time", 20_000, 400_000, |case| {
        let rng = &mut case.rng;
        // all moments are multiples of 10 ns, so ages often equal the window if it is one, too
        let off = *rng.pick(&[0, 0, 5]);
        let whole = match rng.below(8) {
            0 => Duration::new(0, 0),
            1 => Duration::from_nanos(10 * rng.range(1, 50)),
            2 => Duration::from_secs(1),
            3 => Duration::from_secs(60),
            4 => Duration::from_secs(86_400 * rng.range(1, 400)),
            5 => Duration::new(
                *rng.pick(&[1 << 31, 1 << 32, 1 << 34, (1 << 63) - 1, 1 << 63, u64::MAX]),
                999_999_990,
            ),
            6 => Duration::from_millis(rng.range(1, 5000)),
            _ => Duration::from_nanos(10 * rng.range(1, 1 << 33)),
        };
        let length = whole + Duration::from_nanos(off);
        let window = length.as_secs() as i128 * 1_000_000_000 + i128::from(length.subsec_nanos());
        // what the clock is moved by refers to windows of up to 63 years
        let near = window.min(2_000_000_000_000_000_000) as i64 / 10 * 10;
        let max = 10usize;
        let q = grid(max);
        vclock::set_virtual(
            1_000_000_000_000_000 + 10 * rng.below(1 << 40) as i64,
            1_600_000_000,
            10,
        );
        let mut now: i128 = 0;
        let mut g = Gatherer::new();
        let mut b = SummaryBuilder::new("s", length);
        for x in &q {
            b.quantile(*x);
        }
        let s = b.registry(g.registry()).finish().must("build")?;
        let t = s.clone();
        let mut obs: Vec<(i128, f64)> = Vec::new();
        let mut trace = String::new();
        let (mut expired, mut walls, mut reads) = (0, 0, 0);
        for _ in 0..rng.range(3, sz(60, 10)) {
            match rng.below(8) {
                0..=2 => {
                    let in_window = obs.iter().filter(|o| now - o.0 <= window).count();
                    if in_window < max {
                        let v = if rng.chance(1, 10) {
                            f64::NAN
                        } else {
                            rng.below(50) as f64
                        };
                        if rng.chance(1, 2) { &s } else { &t }.observe(v);
                        obs.push((now, v));
                        trace += &format!("observe({}) ", v);
                    }
                }
                3 | 4 => {
                    let d = match rng.below(6) {
                        0 => 10,
                        1 => near,
                        2 => near + 10,
                        3 => (near / 30) * 10 + 10,
                        4 => (near / 70) * 10,
                        _ => 10 * rng.below((near as u64 / 5).max(2)) as i64,
                    };
                    if now + i128::from(d) < 6_000_000_000_000_000_000 {
                        vclock::advance(d);
                        now += i128::from(d);
                        trace += &format!("advance({}) ", d);
                    }
                }
                5 => {
                    let w = match rng.below(5) {
                        0 => 0,
                        1 => -(rng.below(1 << 33) as i64),
                        2 => rng.below(1 << 34) as i64,
                        3 => 1_600_000_000 + rng.below(100) as i64,
                        _ => 1_600_000_000 - rng.below(10_000_000) as i64,
                    };
                    vclock::set_wall(w, 0);
                    walls += 1;
                    trace += &format!("wall({}) ", w);
                }
                _ => {
                    let live: Vec<f64> = obs.iter().filter(|o| now - o.0 <= window).map(|o| o.1).collect();
                    let want = sorted(&live);
                    let got = if rng.chance(1, 4) {
                        let f = gather(&mut g)?;
                        match &f[0].metrics[0].val {
                            Val::Summary { quantiles, .. } => quantiles.clone(),
                            _ => return Err("not a summary".into()),
                        }
                    } else {
                        pairs(if rng.chance(1, 2) { &s } else { &t })
                    };
                    let m =
                        multiset(&got, want.len()).map_err(|e| format!("{} (window {} ns) {}", e, window, trace))?;
                    ensure!(
                        m == want,
                        "the window contains {:?} instead of {:?} (window {} ns): {}",
                        m,
                        want,
                        window,
                        trace
                    );
                    expired += obs.len() - live.len();
                    reads += 1;
                }
            }
            ensure!(
                s.count() == obs.len() as u64,
                "the count is {} after {} observations: {}",
                s.count(),
                obs.len(),
                trace
            );
            check_sum(s.sum(), &obs.iter().map(|o| o.1).collect::<Vec<_>>())
                .map_err(|e| format!("{}: {}", e, trace))?;
        }
        vclock::real();
        case.count("observations", obs.len() as u64);
        case.count("wall_clock_steps", walls);
        case.count("window_reads", reads);
        case.count("expired_observations_at_reads", expired as u64);
        if reads > 0 {
            note!(case, format!("window {} {}", window, trace));
        }
        Ok(())
    });
    run.cases("bulk-expiry", 150, 3000, |case| {
        let rng = &mut case.rng;
        vclock::set_virtual(1_000_000_000_000_000, 1_600_000_000, 0);
        let window = 10 * rng.range(10, 100_000) as i64 + *rng.pick(&[0, 5]);
        let mut now = 0i64;
        let mut obs: Vec<(i64, f64)> = Vec::new();
        let many = rng.chance(1, 100);
        let huge = case.idx % 500 == 77 && sz(100, 1) == 100;
        let many = many || huge;
        let n = match (huge, many) {
            (true, _) => rng.range(1_060_000, 1_300_000),
            (_, true) => rng.range(12_000, 140_000),
            _ => rng.range(100, 6000),
        };
        // (all but a few of the very many are in the window at the same time)
        let window = if huge { 20_000_005 } else { window };
        let step = if huge { *rng.pick(&[0, 10]) } else { 10 * rng.below(window as u64 / 100 + 2) as i64 };
        let q = [0.0, 0.25, 0.5, 0.9, 1.0];
        let s = build(&q, Duration::from_nanos(window as u64))?;
        let mut pace = Pace::new(8.0);
        for i in 0..n {
            s.observe(i as f64);
            obs.push((now, i as f64));
            vclock::advance(step);
            now += step;
            let over = pace.over();
            if rng.chance(1, if huge { 300_000 } else if many { 20_000 } else { 60 }) || i + 1 == n || over {
                if rng.chance(1, 4) {
                    let j = 10 * rng.below(window as u64 / 8 + 1) as i64;
                    vclock::advance(j);
                    now += j;
                }
                let live: Vec<f64> = obs.iter().filter(|o| now - o.0 <= window).map(|o| o.1).collect();
                check_quantiles(&pairs(&s), &q, &sorted(&live))
                    .map_err(|e| format!("{} window {} step {}", e, window, step))?;
            }
            if over {
                break;
            }
        }
        let n = obs.len() as u64;
        ensure!(s.count() == n, "count {} after {}", s.count(), n);
        vclock::real();
        case.count("observations", n);
        note!(case, format!("window {} n {} step {}", window, n, step));
        Ok(())
    });
    run.cases("memory", 48, 400, |case| {
        let rng = &mut case.rng;
        vclock::set_virtual(1_000_000_000_000_000, 1_600_000_000, 0);
        let per_window = rng.range(1, 200);
        let window = 10 * 1000 * per_window as i64 + 5;
        let n = rng.range(50_000, 150_000);
        let reads = rng.chance(1, 2);
        let s = build(&[0.5], Duration::from_nanos(window as u64))?;
        alloc::start();
        let mut worst = 0;
        for i in 0..n {
            s.observe(i as f64);
            vclock::advance(10_000);
            if i % 1000 == 0 {
                if rng.chance(1, 3) {
                    // the wall clock is set back and forth
                    vclock::set_wall(1_600_000_000 - rng.below(1 << 30) as i64, 0);
                }
                if reads {
                    drop(s.quantiles());
                }
                worst = worst.max(alloc::live());
            }
        }
        let live = alloc::stop();
        let limit = 4096 + 16 * 24 * (per_window as i64 + 2);
        ensure!(
            worst.max(live) <= limit,
            "{} bytes are held after {} observations although a window contains at most {}",
            worst.max(live),
            n,
            per_window + 1
        );
        ensure!(s.count() == n, "count {}", s.count());
        vclock::real();
        case.count("observations", n);
        case.count("bytes_held_max", worst.max(live).max(0) as u64);
        note!(
            case,
            format!(
                "{} per window, {} observations, reads {} held {}",
                per_window, n, reads, worst
            )
        );
        Ok(())
    });
}

pub fn c09(run: &mut Run) {
    run.cases("each-once", 400, 10_000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(8, 3)) as usize;
        let per = if case.idx % 1000 == 211 {
            sz(1_200_000 / threads as u64, 5)
        } else if rng.chance(1, 250) {
            sz(rng.range(3000, 20_000), 5)
        } else {
            rng.range(1, if rng.chance(1, 3) { sz(300, 5) } else { sz(30, 4) })
        };
        let mut per = per;
        if per > 50_000 {
            // (as many as take no more than a few seconds)
            let s = build(&[0.5], Duration::from_secs(1 << 30))?;
            let mut pace = Pace::new(3.0);
            let n = (0..per * threads as u64).take_while(|_| !pace.over()).map(|i| s.observe(i as f64)).count();
            per = n as u64 / threads as u64;
        }
        let per = per;
        let total = threads * per as usize;
        let mut q: Vec<f64> = (0..total).map(|i| (i as f64 + 0.5) / total as f64).collect();
        q.extend([0.0, 0.5, 1.0]);
        let s = build(&q, Duration::from_secs(1 << 30))?;
        let seed = rng.next();
        let reading = per <= 300 && rng.chance(1, 3);
        // equal values, also at the same moment, are different observations
        let equal = if rng.chance(1, 3) { rng.range(1, 4) } else { u64::MAX };
        if rng.chance(1, 2) {
            vclock::set_virtual(1_000_000_000_000_000, 1_600_000_000, 0);
        }
        par(threads, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let s = s.clone();
            for i in 0..per {
                s.observe(((i * threads as u64 + t as u64) % equal) as f64);
                if reading && rng.chance(1, 20) {
                    drop(s.quantiles());
                }
            }
            Ok(())
        })?;
        ensure!(
            s.count() == total as u64,
            "the count is {} after {} observations",
            s.count(),
            total
        );
        let mut want: Vec<f64> = (0..total as u64).map(|v| (v % equal) as f64).collect();
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let sum: f64 = want.iter().sum();
        ensure!(s.sum() == sum, "the sum is {} instead of {}", s.sum(), sum);
        let m = multiset(&pairs(&s), total)?;
        ensure!(
            m == want,
            "the observations in the window are {} instead of 0..{} modulo {}",
            show(&m),
            total,
            equal
        );
        vclock::real();
        case.count("observations", total as u64);
        note!(case, format!("{} threads x {} reading {}", threads, per, reading));
        Ok(())
    });
    run.cases("short-windows", 150, 3000, |case| {
        // expiry (in real time) races with the observations; totals stay exact
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(6, 3)) as usize;
        let per = rng.range(1, sz(1500, 5));
        let window = Duration::from_nanos(rng.below(20_000));
        let s = build(&[0.0, 0.5, 1.0], window)?;
        par(threads, |t| {
            let s = s.clone();
            for i in 0..per {
                s.observe((t as u64 * per + i) as f64);
                if i % 7 == 0 {
                    for (_, v) in s.quantiles() {
                        ensure!(
                            v.fract() == 0.0 && v >= 0.0 && v < (threads as u64 * per) as f64,
                            "{} was never observed",
                            v
                        );
                    }
                }
            }
            Ok(())
        })?;
        let n = threads as u64 * per;
        ensure!(s.count() == n, "the count is {} after {} observations", s.count(), n);
        let sum = (n * (n - 1) / 2) as f64;
        ensure!(s.sum() == sum, "the sum is {} instead of {}", s.sum(), sum);
        case.count("observations", n);
        note!(case, format!("{} threads x {} window {:?}", threads, per, window));
        Ok(())
    });
    run.cases("concurrent-reader", 400, 8000, |case| {
        let rng = &mut case.rng;
        let writers = rng.range(1, sz(4, 2)) as usize;
        let readers = rng.range(1, sz(3, 1)) as usize;
        let per = rng.range(1, sz(300, 4));
        let q = [0.0, 0.1, 0.5, 0.75, 0.99, 1.0];
        let gat = Gatherer::new();
        let mut b = SummaryBuilder::new("s", Duration::from_secs(1 << 30));
        for x in &q {
            b.quantile(*x);
        }
        let s = b.registry(gat.registry()).finish().must("build")?;
        let started: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let completed: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicU64::new(writers as u64);
        let gat = std::sync::Mutex::new(gat);
        let w = writers as u64;
        // writer t observes t, t + w, t + 2w, ...: how many of its first k values satisfy a bound
        let less = |t: u64, k: u64, v: f64, eq: bool| -> u64 {
            (0..k).take_while(|i| ((t + i * w) as f64) < v || (eq && (t + i * w) as f64 == v)).count() as u64
        };
        let seed = rng.next();
        let n = par(writers + readers, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let s = s.clone();
            if t < writers {
                for i in 0..per {
                    started[t].store(i + 1, Relaxed);
                    fence(SeqCst);
                    s.observe((t as u64 + i * w) as f64);
                    completed[t].store(i + 1, Release);
                    rng.spin(300);
                }
                live.fetch_sub(1, SeqCst);
                return Ok(0);
            }
            let mut n = 0;
            let mut last_count = 0;
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let c: Vec<u64> = completed.iter().map(|a| a.load(Acquire)).collect();
                let got = if n % 4 == 3 {
                    let r = gat.lock().map_err(|_| "poisoned".to_string())?.gather();
                    match &fams(&r)[0].metrics[0].val {
                        Val::Summary { quantiles, .. } => quantiles.clone(),
                        _ => return Err("not a summary".into()),
                    }
                } else {
                    pairs(&s)
                };
                let count = s.count();
                fence(SeqCst);
                let st: Vec<u64> = started.iter().map(|a| a.load(Relaxed)).collect();
                let (nc, ns) = (c.iter().sum::<u64>(), st.iter().sum::<u64>());
                ensure!(count >= nc && count <= ns, "count() is {} between {} completed and {} started observations", count, nc, ns);
                ensure!(count >= last_count, "count() went down");
                last_count = count;
                ensure!(nc == 0 || !got.is_empty(), "no quantiles although {} observations had completed", nc);
                for &(q, v) in &got {
                    ensure!(v >= 0.0 && v.fract() == 0.0, "{} was never observed", v);
                    let (wt, i) = ((v as u64 % w) as usize, v as u64 / w);
                    ensure!(i < st[wt], "{} was not yet observed", v);
                    let lt: u64 = (0..writers).map(|t| less(t as u64, c[t], v, false)).sum();
                    let le: u64 = (0..writers).map(|t| less(t as u64, st[t], v, true)).sum();
                    ensure!(
                        lt as f64 <= q * ns as f64 + 1e-6 && le as f64 >= q * nc as f64 - 1e-6,
                        "quantile {} is {} although of {:?} completed observations {} are less and of {:?} started ones {} are less or equal",
                        q,
                        v,
                        c,
                        lt,
                        st,
                        le
                    );
                }
                n += 1;
                if done {
                    return Ok(n);
                }
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
        })?;
        let total = w * per;
        ensure!(s.count() == total, "count {} instead of {}", s.count(), total);
        case.count("observations", total);
        case.count("quantile_reads", n.iter().sum());
        note!(case, format!("{}w {}r x {} reads {}", writers, readers, per, n.iter().sum::<u64>()));
        Ok(())
    });
}

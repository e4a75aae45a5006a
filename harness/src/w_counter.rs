//! C01 and C02: counters.

use crate::core::*;
use crate::model::*;
use crate::promtext;
use crate::rng::*;
use prometrics::metrics::{Counter, CounterBuilder};
use prometrics::Gatherer;
use std::sync::atomic::{fence, AtomicU64, Ordering::*};

#[derive(Clone, Copy, Debug)]
enum Op {
    Inc,
    Add(f64),
    AddU64(u64),
}
impl Op {
    fn apply(self, c: &Counter) -> R {
        match self {
            Op::Inc => c.increment(),
            Op::Add(v) => c.add(v).must(&format!("add({:e})", v))?,
            Op::AddU64(v) => c.add_u64(v),
        }
        Ok(())
    }
    fn amount(self) -> f64 {
        match self {
            Op::Inc => 1.0,
            Op::Add(v) => v,
            Op::AddU64(v) => v as f64,
        }
    }
}

/// Multiples of 1/8 below 2^40, so that all sums are exact.
fn exact_op(rng: &mut Rng) -> Op {
    match rng.below(5) {
        0 | 1 => Op::Inc,
        2 => Op::AddU64(match rng.below(4) {
            0 => 0,
            1 => rng.below(1 << 33),
            _ => rng.below(1000),
        }),
        _ => Op::Add(rng.dyadic()),
    }
}

/// Any non-negative amount.
fn hostile_op(rng: &mut Rng) -> Op {
    match rng.below(6) {
        0 => Op::Inc,
        1 => Op::AddU64(match rng.below(6) {
            0 => rng.below(100),
            1 => 1 << rng.below(64),
            2 => (1 << 53) + rng.below(3),
            3 => u64::MAX - rng.below(3) * rng.below(3000),
            _ => rng.next() >> rng.below(64),
        }),
        _ => {
            let mut v = rng.f64_any(false).abs();
            if rng.chance(1, 8) {
                v = (rng.next() >> rng.below(60)) as f64;
            }
            // (minus zero is no negative amount)
            if v == 0.0 && rng.chance(1, 2) {
                v = -0.0;
            }
            Op::Add(v)
        }
    }
}

fn check_hostile(value: f64, amounts: &[f64]) -> R {
    ensure!(!value.is_nan() && value >= 0.0, "the value is {}", value);
    let inf = amounts.iter().any(|v| v.is_infinite());
    let mag: f64 = amounts.iter().map(|v| v / 1e20).sum();
    if inf || mag > f64::MAX / 1e20 * (1.0 + 1e-9) {
        ensure!(
            value == f64::INFINITY,
            "the value is {:e} although the sum is infinite",
            value
        );
    } else if mag < f64::MAX / 1e20 * (1.0 - 1e-9) {
        let want = neumaier(amounts);
        let tol = (amounts.len() as f64 + 2.0) * f64::EPSILON * want;
        ensure!(
            (value - want).abs() <= tol,
            "the value is {:e} ({}), the sum of the {} added amounts is {:e} ({})",
            value,
            value,
            amounts.len(),
            want,
            want
        );
    }
    Ok(())
}

fn counters(rng: &mut Rng, n: usize) -> R<Vec<Counter>> {
    // same name and labels: still separate counters
    let same = rng.chance(1, 2);
    (0..n)
        .map(|i| {
            let mut b = CounterBuilder::new(&if same { "c".to_string() } else { format!("c{}", i) });
            if rng.chance(1, 2) {
                b.label("x", "y");
            }
            b.finish().must("building a counter")
        })
        .collect()
}

/// Every way of reading a counter agrees with its value.
fn all_views(c: &Counter, g: Option<&mut Gatherer>, want: f64) -> R {
    let v = c.value();
    ensure!(v == want, "value() is {}, expected {}", v, want);
    let s = promtext::samples(&c.to_string())?;
    ensure!(
        s.len() == 1 && s[0].value == want,
        "the text {:?} does not show the value {}",
        c.to_string(),
        want
    );
    if let Some(g) = g {
        let f = gather(g)?;
        let got: Vec<f64> = f.iter().flat_map(|f| f.metrics.iter().map(|m| m.num())).collect();
        ensure!(got == [want], "gathered {:?}, expected {}", got, want);
    }
    Ok(())
}

pub fn c01(run: &mut Run) {
    run.cases("exact-sequence", 12_000, 300_000, |case| {
        let rng = &mut case.rng;
        let n = rng.range(1, 4) as usize;
        let base = counters(rng, n)?;
        let mut handles: Vec<(usize, Counter)> = base.iter().cloned().enumerate().collect();
        drop(base);
        let mut want = vec![0.0; n];
        let steps = rng.range(1, sz(60, 12));
        let mut trace = Vec::new();
        for _ in 0..steps {
            let h = rng.us(handles.len());
            if rng.chance(1, 8) {
                let c = (handles[h].0, handles[h].1.clone());
                handles.push(c);
            } else if rng.chance(1, 12) && handles.iter().filter(|x| x.0 == handles[h].0).count() > 1 {
                handles.swap_remove(h);
            } else {
                let op = exact_op(rng);
                op.apply(&handles[h].1)?;
                want[handles[h].0] += op.amount();
                trace.push((handles[h].0, op));
            }
            if rng.chance(1, 4) {
                let (i, c) = rng.pick(&handles);
                ensure!(
                    c.value() == want[*i],
                    "value {} instead of {} after {:?}",
                    c.value(),
                    want[*i],
                    show(&trace)
                );
            }
        }
        for (i, c) in &handles {
            all_views(c, None, want[*i]).map_err(|e| format!("{} after {:?}", e, show(&trace)))?;
        }
        case.count("operations", trace.len() as u64);
        note!(case, show(&trace));
        Ok(())
    });
    run.cases("hostile-amounts", 20_000, 600_000, |case| {
        let rng = &mut case.rng;
        let c = Counter::new("c").must("new")?;
        let d = c.clone();
        let n = match rng.below(4) {
            0 => 1,
            1 => rng.range(1, sz(400, 10)),
            _ => rng.range(1, 8),
        };
        let mut amounts = Vec::new();
        let few = rng.chance(1, 3).then(|| [hostile_op(rng), hostile_op(rng)]);
        for _ in 0..n {
            let op = match &few {
                Some(p) => *rng.pick(p),
                _ => hostile_op(rng),
            };
            op.apply(if rng.chance(1, 2) { &c } else { &d })?;
            amounts.push(op.amount());
        }
        check_hostile(d.value(), &amounts).map_err(|e| format!("{} amounts {:?}", e, show(&amounts)))?;
        let s = promtext::samples(&c.to_string())?;
        ensure!(
            s[0].value == d.value(),
            "the text {:?} does not show {}",
            c.to_string(),
            d.value()
        );
        case.count("operations", n);
        note!(case, show(&amounts));
        Ok(())
    });
    run.cases("many-small", 24, 400, |case| {
        let rng = &mut case.rng;
        let c = Counter::new("c").must("new")?;
        let v = *rng.pick(&[1e-17, 5e-324, 0.125, 1.0 / 3.0, 1e-9, 0.1]);
        let n = sz(200_000, 60);
        let every = rng.range(1, 1000);
        let (mut ints, mut fr) = (0u64, 0u64);
        for i in 0..n {
            if i % every == 0 {
                c.increment();
                ints += 1;
            } else {
                c.add(v).must("add")?;
                fr += 1;
            }
        }
        let want = ints as f64 + fr as f64 * v;
        let tol = want * f64::EPSILON * (n as f64 + 4.0);
        ensure!(
            (c.value() - want).abs() <= tol,
            "{} times {} and {} increments: {} instead of {}",
            fr,
            v,
            ints,
            c.value(),
            want
        );
        case.count("operations", n);
        note!(case, format!("{} {} {}", v, every, n));
        Ok(())
    });
    run.cases("concurrent-sum", 300, 8000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(8, 3)) as usize;
        let per = rng.range(1, sz(3000, 8));
        let mut g = Gatherer::new();
        let r = g.registry();
        let c = CounterBuilder::new("c").registry(r).finish().must("build")?;
        let other = Counter::new("c").must("build")?;
        let seed = rng.next();
        let mode = rng.below(4);
        let sums = par(threads, |t| {
            let mut rng = Rng::new(seed ^ t as u64);
            let mut c = c.clone();
            let mut sum = 0.0;
            for i in 0..per {
                let op = match mode {
                    0 => Op::Inc,
                    1 => Op::Add(0.125),
                    2 if t % 2 == 0 => Op::Add(0.5),
                    2 => Op::AddU64(3),
                    _ => exact_op(&mut rng),
                };
                op.apply(&c)?;
                sum += op.amount();
                if i % 64 == 0 {
                    c = c.clone();
                    other.increment();
                }
            }
            Ok(sum)
        })?;
        let want: f64 = sums.iter().sum();
        all_views(&c, Some(&mut g), want)
            .map_err(|e| format!("{} ({} threads, {} operations each, mode {})", e, threads, per, mode))?;
        let o = (threads as u64 * ((per + 63) / 64)) as f64;
        ensure!(
            other.value() == o,
            "another counter is {} instead of {}",
            other.value(),
            o
        );
        case.count("operations", per * threads as u64);
        note!(
            case,
            format!("{} threads x {} mode {} sum {}", threads, per, mode, want)
        );
        Ok(())
    });
    run.cases("whole-amounts", 1500, 30_000, |case| {
        // sums that f64 cannot represent, of amounts that it can
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let r = g.registry();
        let c = CounterBuilder::new("c").registry(r).finish().must("build")?;
        let mut total = 0u128;
        if rng.chance(1, 3) {
            // (all of it stays below 2^64)
            let v = (1u64 << rng.range(62, 63)) + (rng.next() >> 8);
            c.add_u64(v);
            total += v as u128;
        }
        for _ in 0..rng.range(1, 6) {
            let v = match rng.below(4) {
                0 => 1u64 << rng.range(50, 60),
                1 => (1 << 53) - rng.below(3),
                2 => rng.next() >> rng.range(4, 20),
                _ => rng.below(1 << 53),
            };
            if v <= 1 << 53 && rng.chance(2, 3) {
                c.add(v as f64).must("add")?;
            } else {
                c.add_u64(v);
            }
            total += v as u128;
        }
        let threads = if rng.chance(1, 4) { rng.range(2, sz(6, 2)) as usize } else { 1 };
        let per = rng.range(1, sz(3000, 20));
        let small = rng.below(4);
        let seed = rng.next();
        let one = |t: usize| -> R<u128> {
            let rng = Rng::new(seed ^ t as u64);
            let mut sum = 0;
            for _ in 0..per {
                match (small, rng.below(3)) {
                    (0, _) | (1, 0) => {
                        c.increment();
                        sum += 1;
                    }
                    (2, _) | (1, _) => {
                        c.add(1.0).must("add")?;
                        sum += 1;
                    }
                    (_, k) => {
                        let v = rng.below(1 << (1 + rng.below(40)));
                        if k == 0 {
                            c.add_u64(v);
                        } else {
                            c.add(v as f64).must("add")?;
                        }
                        sum += u128::from(v);
                    }
                }
            }
            Ok(sum)
        };
        total += if threads == 1 {
            one(0)?
        } else {
            par(threads, one)?.iter().sum::<u128>()
        };
        ensure!(total < 1 << 64, "the workload is wrong");
        all_views(&c, Some(&mut g), total as f64)
            .map_err(|e| format!("{} (the total is {} of {} whole amounts)", e, total, per * threads as u64))?;
        case.count("operations", per * threads as u64);
        note!(case, format!("{} threads x {} total {}", threads, per, total));
        Ok(())
    });
}

fn rejects(c: &Counter, rng: &mut Rng) -> R<f64> {
    let v = match rng.below(8) {
        0 => f64::NAN,
        1 => -f64::NAN,
        2 => f64::from_bits(0x7ff0_0000_0000_0001 | rng.next() >> 12),
        3 => f64::NEG_INFINITY,
        4 => -5e-324,
        5 => -(rng.below(10) as f64 + 1.0),
        6 => -rng.f64_any(false).abs(),
        _ => -f64::MIN_POSITIVE,
    };
    let before = c.value();
    if v == 0.0 {
        return Ok(v);
    }
    invalid(c.add(v), &format!("adding {}", v))?;
    ensure!(
        c.value().to_bits() == before.to_bits(),
        "the value changed from {} to {} by the rejected amount {}",
        before,
        c.value(),
        v
    );
    Ok(v)
}

pub fn c02(run: &mut Run) {
    run.cases("rejected-amounts", 20_000, 400_000, |case| {
        let rng = &mut case.rng;
        let c = Counter::new("c").must("new")?;
        let mut trace = Vec::new();
        let mut amounts = Vec::new();
        for _ in 0..rng.range(1, 12) {
            if rng.chance(1, 2) {
                let op = hostile_op(rng);
                let before = c.value();
                op.apply(&c)?;
                ensure!(
                    c.value() >= before,
                    "the value went from {:e} down to {:e} by {:?}",
                    before,
                    c.value(),
                    op
                );
                amounts.push(op.amount());
                trace.push(op.amount());
            } else {
                trace.push(rejects(&c, rng)?);
            }
        }
        check_hostile(c.value(), &amounts)?;
        case.count("operations", trace.len() as u64);
        note!(case, show(&trace));
        Ok(())
    });
    run.cases("monotone-readers", 300, 6000, |case| {
        let rng = &mut case.rng;
        let writers = rng.range(1, sz(4, 2)) as usize;
        let readers = rng.range(1, sz(4, 2)) as usize;
        let per = rng.range(1, sz(4000, 6));
        let c = Counter::new("c").must("new")?;
        let started: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let completed: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicU64::new(writers as u64);
        let shared_max = AtomicU64::new(0);
        let seed = rng.next();
        let mode = rng.below(3);
        let counts = par(writers + readers, |t| {
            let mut rng = Rng::new(seed ^ t as u64);
            let c = c.clone();
            if t < writers {
                let r = (|| {
                    for i in 0..per {
                        let op = match mode {
                            0 => exact_op(&mut rng),
                            1 => *rng.pick(&[Op::Inc, Op::Add(0.125)]),
                            // crossing many binades and both representations
                            _ => *rng.pick(&[
                                Op::Add(1048576.5),
                                Op::AddU64(1 << 20),
                                Op::Add(0.125),
                                Op::Add(524288.0),
                            ]),
                        };
                        let units = (op.amount() * 8.0) as u64;
                        started[t].store(started[t].load(Relaxed) + units, Relaxed);
                        fence(SeqCst);
                        op.apply(&c)?;
                        completed[t].store(completed[t].load(Relaxed) + units, Release);
                        if i % 16 == 0 {
                            rejects(&c.clone(), &mut rng).or_else(|e| {
                                if writers == 1 {
                                    Err(e)
                                } else if e.contains("accepted") {
                                    Err(e)
                                } else {
                                    Ok(0.0)
                                }
                            })?;
                        }
                    }
                    Ok(0)
                })();
                live.fetch_sub(1, SeqCst);
                return r;
            }
            let mut n = 0;
            let mut last = 0.0;
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let lo: u64 = completed.iter().map(|a| a.load(Acquire)).sum();
                let seen = f64::from_bits(shared_max.load(Acquire));
                let v = if n % 5 == 4 {
                    promtext::samples(&c.to_string())?[0].value
                } else {
                    c.value()
                };
                fence(SeqCst);
                let hi: u64 = started.iter().map(|a| a.load(Relaxed)).sum();
                ensure!(v >= last, "successive reads of one thread: {} then {}", last, v);
                ensure!(
                    v >= seen,
                    "a read returned {} after another thread had read {}",
                    v,
                    seen
                );
                ensure!(
                    v * 8.0 >= lo as f64,
                    "read {} although {} had been added before",
                    v,
                    lo as f64 / 8.0
                );
                ensure!(
                    v * 8.0 <= hi as f64,
                    "read {} although only {} had been started",
                    v,
                    hi as f64 / 8.0
                );
                last = v;
                n += 1;
                // (non-negative floats are ordered like their bits)
                shared_max.fetch_max(v.to_bits(), AcqRel);
                if done {
                    return Ok(n);
                }
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
        })?;
        let reads: u64 = counts.iter().sum();
        let total: u64 = completed.iter().map(|a| a.load(SeqCst)).sum();
        ensure!(
            c.value() * 8.0 == total as f64,
            "final value {} instead of {}",
            c.value(),
            total as f64 / 8.0
        );
        case.count("reads", reads);
        case.count("operations", per * writers as u64);
        note!(
            case,
            format!("{}w {}r x {} mode {} reads {}", writers, readers, per, mode, reads)
        );
        Ok(())
    });
    run.cases("beyond-u64", 300, 6000, |case| {
        // the sum crosses 2^64 while it is read
        let rng = &mut case.rng;
        let writers = rng.range(1, sz(4, 2)) as usize;
        let readers = rng.range(1, sz(4, 2)) as usize;
        let per = rng.range(1, sz(2000, 6));
        let mode = rng.below(4);
        let mut g = Gatherer::new();
        let c = CounterBuilder::new("c").registry(g.registry()).finish().must("build")?;
        // (in units of 2^40)
        let unit = |j: u64| j as f64 * 2f64.powi(40);
        let base = (1u64 << 24) - rng.below(1 << rng.below(24)) - 1;
        c.add_u64(base << 40);
        let started: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let completed: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicU64::new(writers as u64);
        let seed = rng.next();
        let counts = par(writers + readers, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let c = c.clone();
            if t < writers {
                let r = (|| {
                    for _ in 0..per {
                        let j = rng.below(1 << (1 + rng.below(13)));
                        let (op, units) = match (mode, rng.below(3)) {
                            (1, _) | (0, 0) => (Op::AddU64(j << 40), j),
                            (2, _) | (0, 1) => (Op::Add(unit(j)), j),
                            _ => (Op::Inc, 0),
                        };
                        started[t].store(started[t].load(Relaxed) + units, Relaxed);
                        fence(SeqCst);
                        op.apply(&c)?;
                        completed[t].store(completed[t].load(Relaxed) + units, Release);
                    }
                    Ok(0)
                })();
                live.fetch_sub(1, SeqCst);
                return r;
            }
            let (mut n, mut last) = (0, 0.0);
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let lo: u64 = completed.iter().map(|a| a.load(Acquire)).sum();
                let v = c.value();
                fence(SeqCst);
                let hi: u64 = started.iter().map(|a| a.load(Relaxed)).sum();
                ensure!(v >= last, "successive reads of one thread: {:e} then {:e}", last, v);
                // (increments and rounding are far below 2^-40 of it)
                ensure!(
                    v >= unit(base + lo) * (1.0 - 1e-12) && v <= unit(base + hi) * (1.0 + 1e-12),
                    "read {:e} although {:e} had been added and {:e} started",
                    v,
                    unit(base + lo),
                    unit(base + hi)
                );
                last = v;
                n += 1;
                if done {
                    return Ok(n);
                }
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
        })?;
        let total = unit(base + completed.iter().map(|a| a.load(SeqCst)).sum::<u64>());
        let f = gather(&mut g)?;
        for v in [c.value(), f[0].metrics[0].num(), promtext::samples(&c.to_string())?[0].value] {
            ensure!((v - total).abs() <= total * 1e-12, "{:e} instead of {:e}", v, total);
        }
        case.count("sums_beyond_u64", u64::from(total >= 2f64.powi(64)));
        note!(case, format!("{}w {}r x {} mode {} base {} reads {}", writers, readers, per, mode, base, counts.iter().sum::<u64>()));
        Ok(())
    });
}

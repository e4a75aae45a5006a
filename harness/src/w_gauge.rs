//! C03 and C23: gauges.

use crate::core::*;
use crate::lin::{self, Ev};
use crate::model::*;
use crate::promtext;
use crate::rng::*;
use prometrics::metrics::{Gauge, GaugeBuilder};
use prometrics::Gatherer;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{fence, AtomicI64, AtomicU64, Ordering::*};

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(f64),
    Add(f64),
    Sub(f64),
    Inc,
    Dec,
    Read(f64),
}
fn step(s: f64, op: &Op) -> f64 {
    match *op {
        Op::Set(v) => v,
        Op::Add(v) => s + v,
        Op::Sub(v) => s - v,
        Op::Inc => s + 1.0,
        Op::Dec => s - 1.0,
        Op::Read(_) => s,
    }
}
fn apply(g: &Gauge, op: Op) -> Op {
    match op {
        Op::Set(v) => g.set(v),
        Op::Add(v) => g.add(v),
        Op::Sub(v) => g.subtract(v),
        Op::Inc => g.increment(),
        Op::Dec => g.decrement(),
        Op::Read(_) => return Op::Read(g.value()),
    }
    op
}
fn key(v: f64) -> u64 {
    if v.is_nan() {
        u64::MAX
    } else {
        v.to_bits()
    }
}

pub fn c03(run: &mut Run) {
    run.cases("sequential-arithmetic", 20_000, 500_000, |case| {
        let rng = &mut case.rng;
        let mut gat = Gatherer::new();
        let init = if rng.chance(1, 4) {
            None
        } else {
            Some(rng.f64_any(true))
        };
        let mut b = GaugeBuilder::new("g");
        if let Some(v) = init {
            if rng.chance(1, 4) {
                b.initial_value(rng.f64_any(true));
            }
            b.initial_value(v);
        }
        b.registry(gat.registry());
        let g = b.finish().must("build")?;
        let other = b.finish().must("build")?; // same builder, separate gauge
        drop(gat.gather());
        let mut m = init.unwrap_or(0.0);
        ensure!(key(g.value()) == key(m), "initial value {} instead of {}", g.value(), m);
        let h = g.clone();
        let mut trace = Vec::new();
        let hostile = rng.chance(2, 3);
        for _ in 0..rng.range(1, 16) {
            let v = if hostile { rng.f64_any(true) } else { rng.sdyadic() };
            let op = match rng.below(6) {
                0 => Op::Set(v),
                1 => Op::Add(v),
                2 => Op::Sub(v),
                3 => Op::Inc,
                4 => Op::Dec,
                _ => Op::Read(0.0),
            };
            apply(if rng.chance(1, 2) { &g } else { &h }, op);
            trace.push(op);
            m = step(m, &op);
            let v = if rng.chance(1, 2) { g.value() } else { h.value() };
            ensure!(
                key(v) == key(m),
                "value {:?} instead of {:?} after {:?} from {:?}",
                v,
                m,
                trace,
                init
            );
        }
        let t = promtext::samples(&g.to_string())?;
        ensure!(
            t.len() == 1 && key(t[0].value) == key(m),
            "text {:?} instead of {}",
            g.to_string(),
            m
        );
        ensure!(
            key(other.value()) == key(init.unwrap_or(0.0)),
            "another gauge was changed to {}",
            other.value()
        );
        drop(other);
        let f = gather(&mut gat)?;
        ensure!(
            f.len() == 1 && f[0].metrics.len() == 1 && key(f[0].metrics[0].num()) == key(m),
            "gathered {:?}, not {}",
            f,
            m
        );
        case.count("operations", trace.len() as u64);
        note!(case, format!("{:?} {:?}", init, trace));
        Ok(())
    });
    run.cases("linearizable-histories", 40_000, 1_000_000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(4, 3)) as usize;
        let init = rng.below(8) as f64;
        let g = GaugeBuilder::new("g").initial_value(init).finish().must("build")?;
        let mode = rng.below(4);
        let mut bit = 10;
        let plans: Vec<Vec<Op>> = (0..threads)
            .map(|_| {
                (0..rng.range(2, if cfg!(miri) { 4 } else { 5 }))
                    .map(|_| {
                        bit += 1;
                        let v = (1u64 << (bit % 45)) as f64;
                        match rng.below(if mode == 0 { 5 } else { 8 }) {
                            0 => Op::Add(v),
                            1 => Op::Sub(v),
                            2 => Op::Inc,
                            3 => Op::Dec,
                            4 | 5 => Op::Read(0.0),
                            6 if mode == 1 => Op::Add(1e16), // rounding makes the order visible
                            _ => Op::Set(if mode == 2 { init } else { v + 0.5 }),
                        }
                    })
                    .collect()
            })
            .collect();
        let jitter = *rng.pick(&[0, 10, 100, 400]);
        let seed = rng.next();
        let evs: Vec<Ev<Op>> = par(threads, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let g = g.clone();
            let mut o = Vec::new();
            for &op in &plans[t] {
                rng.spin(jitter);
                let call = tick();
                let op = apply(&g, op);
                o.push(Ev { call, ret: tick(), op });
            }
            Ok(o)
        })?
        .concat();
        let mut evs = evs;
        let call = tick();
        evs.push(Ev {
            call,
            ret: tick(),
            op: Op::Read(g.value()),
        });
        match lin::check(key(init), &evs, |s, op| {
            let s = f64::from_bits(*s);
            match op {
                Op::Read(v) if key(*v) != key(s) => None,
                op => Some(key(step(s, op))),
            }
        }) {
            lin::Verdict::Ok => {}
            lin::Verdict::Violation => {
                return Err(format!("no order of the operations explains the history {:?}", evs))
            }
            lin::Verdict::Unknown => case.inconclusive = Some("linearizability checker ran out of budget".into()),
        }
        let o = lin::overlaps(&evs);
        case.count("operations", evs.len() as u64);
        case.count("overlapping_pairs", o);
        if o > 0 {
            let mut order: Vec<_> = evs.iter().collect();
            order.sort_by_key(|e| e.call);
            note!(case, order.iter().map(|e| format!("{:?};", e.op)).collect::<String>());
        }
        Ok(())
    });
    run.cases("conservation", 300, 6000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(8, 3)) as usize;
        let per = rng.range(1, sz(3000, 8));
        let init = rng.sdyadic();
        let g = GaugeBuilder::new("g").initial_value(init).finish().must("build")?;
        let seed = rng.next();
        let mode = rng.below(3);
        let sums = par(threads, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let g = g.clone();
            let mut d = 0.0;
            for _ in 0..per {
                let op = match mode {
                    0 if t % 2 == 0 => Op::Inc,
                    0 => Op::Dec,
                    _ => match rng.below(4) {
                        0 => Op::Inc,
                        1 => Op::Dec,
                        2 => Op::Add(rng.sdyadic()),
                        _ => Op::Sub(rng.sdyadic()),
                    },
                };
                apply(&g, op);
                d = step(d, &op);
            }
            Ok(d)
        })?;
        let want = init + sums.iter().sum::<f64>();
        ensure!(
            g.value() == want,
            "{} instead of {} after {} threads x {} operations",
            g.value(),
            want,
            threads,
            per
        );
        case.count("operations", per * threads as u64);
        note!(case, format!("{}x{} mode {} = {}", threads, per, mode, want));
        Ok(())
    });
}

struct Payload(u64);

/// Runs a random nest of tracked closures; returns the number of closures run.
fn nest(
    g: &[Gauge],
    depth: &mut Vec<f64>,
    rng: &mut Rng,
    levels: u64,
    exact: Option<&[f64]>,
    panics: bool,
    offset: &mut Vec<f64>,
) -> R<u64> {
    let i = rng.us(g.len());
    let mut ran = 0;
    let mut runs = 0;
    let token = rng.next();
    let throw = panics && rng.chance(1, 3);
    let widen = rng.chance(1, 4);
    let gc = g[i].clone();
    depth[i] += 1.0;
    let mut inner: R = Ok(());
    let r = catch_unwind(AssertUnwindSafe(|| {
        gc.track_inprogress(|| {
            runs += 1;
            inner = (|| {
                if let Some(base) = exact {
                    for k in 0..g.len() {
                        let want = base[k] + depth[k] + offset[k];
                        ensure!(
                            g[k].value() == want,
                            "gauge {} is {} instead of {} inside {:?} tracked closures",
                            k,
                            g[k].value(),
                            want,
                            depth
                        );
                    }
                }
                if widen {
                    g[i].add(16.0);
                    offset[i] += 16.0;
                }
                for _ in 0..rng.below(3) {
                    if levels > 0 {
                        ran += nest(g, depth, rng, levels - 1, exact, panics, offset)?;
                    }
                }
                Ok(())
            })();
            if throw && inner.is_ok() {
                resume_unwind(Box::new(Payload(token)));
            }
            vec![token]
        })
    }));
    depth[i] -= 1.0;
    inner?;
    match r {
        Ok(v) => ensure!(!throw && v == [token], "the result of the closure was not passed on"),
        Err(p) => match p.downcast::<Payload>() {
            Ok(p) => ensure!(throw && p.0 == token, "another panic was passed on"),
            Err(_) => return Err(format!("the panic of the closure was replaced by {}", take_panics())),
        },
    }
    ensure!(runs == 1, "the closure ran {} times", runs);
    if let Some(base) = exact {
        for k in 0..g.len() {
            let want = base[k] + depth[k] + offset[k];
            ensure!(
                g[k].value() == want,
                "gauge {} is {} instead of {} after a tracked closure {}",
                k,
                g[k].value(),
                want,
                if throw { "panicked" } else { "returned" }
            );
        }
    }
    Ok(ran + 1)
}

pub fn c23(run: &mut Run) {
    run.cases("nested", 15_000, 300_000, |case| {
        let rng = &mut case.rng;
        let n = rng.range(1, 3) as usize;
        let base: Vec<f64> = (0..n)
            .map(|_| if rng.chance(1, 2) { 0.0 } else { rng.sdyadic() })
            .collect();
        let g: Vec<Gauge> = base
            .iter()
            .map(|b| GaugeBuilder::new("g").initial_value(*b).finish().must("build"))
            .collect::<R<_>>()?;
        let mut depth = vec![0.0; n];
        let mut offset = vec![0.0; n];
        let panics = rng.chance(1, 2);
        let levels = rng.range(0, sz(7, 3));
        let mut ran = 0;
        for _ in 0..rng.range(1, 3) {
            ran += nest(&g, &mut depth, rng, levels, Some(&base), panics, &mut offset)?;
        }
        case.count("tracked_closures", ran);
        note!(
            case,
            format!(
                "{:?} levels {} panics {} closures {} {:?}",
                base, levels, panics, ran, offset
            )
        );
        Ok(())
    });
    run.cases("deep", 40, 400, |case| {
        let depth = case.rng.range(1, sz(400, 20));
        let g = Gauge::new("g").must("new")?;
        fn go(g: &Gauge, k: u64, n: u64) -> R {
            ensure!(g.value() == k as f64, "{} instead of {} in a nest", g.value(), k);
            if k < n {
                g.track_inprogress(|| go(g, k + 1, n))?;
                ensure!(
                    g.value() == k as f64,
                    "{} instead of {} after a nested closure",
                    g.value(),
                    k
                );
            }
            Ok(())
        }
        go(&g, 0, depth)?;
        case.count("tracked_closures", depth);
        note!(case, format!("depth {}", depth));
        Ok(())
    });
    run.cases("concurrent", 300, 6000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(8, 3)) as usize;
        let per = rng.range(1, sz(600, 4));
        let base = rng.sdyadic();
        let mut gat = Gatherer::new();
        let g = GaugeBuilder::new("g")
            .initial_value(base)
            .registry(gat.registry())
            .finish()
            .must("build")?;
        let begun = AtomicI64::new(0); // tracked calls begun
        let entered = AtomicI64::new(0); // closures entered
        let leaving = AtomicI64::new(0); // closures about to end
        let left = AtomicI64::new(0); // tracked calls ended
        let ops = AtomicU64::new(0);
        let seed = rng.next();
        let panics = rng.chance(1, 2);
        let look = |g: &Gauge| -> R {
            // closures certainly inside during the whole read .. closures possibly inside
            let e = entered.load(Acquire);
            let l0 = left.load(Acquire);
            let v = g.value() - base;
            fence(SeqCst);
            let l1 = leaving.load(Relaxed);
            let b = begun.load(Relaxed);
            ensure!(
                v >= (e - l1) as f64,
                "{} in progress although at least {} closures were running",
                v,
                e - l1
            );
            ensure!(
                v <= (b - l0) as f64,
                "{} in progress although at most {} could be",
                v,
                b - l0
            );
            Ok(())
        };
        par(threads, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let g = g.clone();
            for _ in 0..per {
                begun.fetch_add(1, Relaxed);
                fence(SeqCst);
                let throw = panics && rng.chance(1, 4);
                let mut inner = Ok(());
                let r = catch_unwind(AssertUnwindSafe(|| {
                    g.track_inprogress(|| {
                        entered.fetch_add(1, AcqRel);
                        rng.spin(200);
                        inner = look(&g);
                        ops.fetch_add(1, Relaxed);
                        leaving.fetch_add(1, Relaxed);
                        fence(SeqCst);
                        if throw {
                            resume_unwind(Box::new(Payload(7)));
                        }
                    })
                }));
                left.fetch_add(1, AcqRel);
                inner?;
                ensure!(r.is_err() == throw, "the outcome of the closure was not passed on");
            }
            Ok(())
        })?;
        ensure!(
            ops.load(SeqCst) == per * threads as u64,
            "{} closures ran, not {}",
            ops.load(SeqCst),
            per * threads as u64
        );
        ensure!(
            g.value() == base,
            "the gauge is {} instead of {} after all closures have finished",
            g.value(),
            base
        );
        let f = gather(&mut gat)?;
        ensure!(f[0].metrics[0].num() == base, "gathered {:?}", f);
        case.count("tracked_closures", per * threads as u64);
        note!(case, format!("{}x{} base {} panics {}", threads, per, base, panics));
        Ok(())
    });
}

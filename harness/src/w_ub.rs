//! C21: everything the safe API offers, for execution under Miri and sanitizers.

use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, SystemTime};

use prometrics::metric::{MetricFamilies, Metrics};
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Gatherer};

use crate::core::*;
use crate::model::*;
use crate::rng::Rng;

fn spec(rng: &mut Rng, i: usize) -> Spec {
    let mut s = Spec::new(KINDS[i % 4], *rng.pick(&["m", "a_b", "x"]));
    if rng.chance(1, 3) {
        s.namespace = Some("n".into());
    }
    if rng.chance(1, 2) {
        s.labels.push(("a".into(), "1".into()));
        s.labels.push(("b".into(), "\n\"".into()));
    }
    if rng.chance(1, 2) {
        s.help = Some("help\n".into());
    }
    s.quantiles = vec![0.0, 0.5, 1.0];
    s.bounds = vec![0.0, 1.0, 10.0];
    s.window = *rng.pick(&[
        Duration::from_secs(1000),
        Duration::from_nanos(1),
        Duration::from_micros(300),
    ]);
    s
}

fn read_families(fs: &MetricFamilies, rng: &mut Rng) -> usize {
    let mut n = 0;
    match rng.below(3) {
        0 => n += fs.to_text().len(),
        1 => n += format!("{:?}", fs).len(),
        _ => {
            for f in fs.as_ref() {
                n += f.name().to_string().len() + f.help().map_or(0, |h| h.len());
                match f.metrics() {
                    Metrics::Counter(v) => v.iter().for_each(|m| n += m.to_string().len() + m.labels().len()),
                    Metrics::Gauge(v) => v.iter().for_each(|m| n += m.to_string().len() + m.labels().len()),
                    Metrics::Summary(v) => v.iter().for_each(|m| n += m.quantiles().len() + m.labels().len()),
                    Metrics::Histogram(v) => v
                        .iter()
                        .for_each(|m| n += m.cumulative_buckets().count() + m.labels().len()),
                }
            }
        }
    }
    n
}

/// One random operation of the public API.
fn step(
    ms: &mut Vec<Any>,
    g: &Mutex<Gatherer>,
    reg: &prometrics::Registry,
    held: &mut Vec<MetricFamilies>,
    rng: &mut Rng,
) -> R<usize> {
    if ms.is_empty() {
        let i = rng.us(4);
        ms.push(spec(rng, i).must(&[reg])?);
    }
    let i = rng.us(ms.len());
    let mut n = 0;
    match rng.below(22) {
        0 | 1 => ms[i].feed(1.5),
        2 => n += ms[i].text().len(),
        3 => n += format!("{:?}", ms[i]).len(),
        4 => {
            let k = *rng.pick(&["a", "b", "c"]);
            let v = "v".repeat(rng.us(40));
            ms[i].labels_mut().insert(k, &v).must("insert")?;
        }
        5 => ms[i].labels_mut().remove(*rng.pick(&["a", "b", "c"])),
        6 => ms[i].labels_mut().clear(),
        7 => n += label_vec(ms[i].labels()).len() + ms[i].labels().len() + ms[i].labels().to_string().len(),
        8 => {
            // an iterator that outlives changes of the labels (its items are used while it is alive)
            let mut other = ms[i].clone();
            let mut it = ms[i].labels().iter();
            let first = it.next();
            other.labels_mut().insert("z", "0").must("insert")?;
            other.labels_mut().clear();
            n += first.map_or(0, |l| l.value().len());
            for l in it.by_ref() {
                n += l.name().len() + l.to_string().len();
            }
            drop(it);
        }
        9 => {
            let c = ms[i].clone();
            ms.push(c);
        }
        10 | 11 => {
            if ms.len() > 1 {
                ms.swap_remove(i);
            }
        }
        12 => {
            let k = rng.us(4);
            ms.push(spec(rng, k).must(&[reg])?);
        }
        13 | 14 | 15 => {
            let fs = g.lock().unwrap_or_else(|e| e.into_inner()).gather();
            n += read_families(&fs, rng);
            if rng.chance(1, 2) && held.len() < 4 {
                held.push(fs);
            } else if rng.chance(1, 2) {
                n += fs.into_iter().map(|f| f.to_string().len()).sum::<usize>();
            } else {
                n += fs.into_vec().len();
            }
        }
        16 => {
            if let Some(f) = held.pop() {
                n += read_families(&f, rng);
            }
        }
        17 => match rng.below(4) {
            0 => ms[i].ts_mut().set_now(),
            1 => ms[i].ts_mut().clear(),
            2 => ms[i].ts_mut().set_time(SystemTime::now()),
            _ => ms[i].ts_mut().set(5),
        },
        18 => match &ms[i] {
            Any::C(m) => n += m.time(|| 1),
            Any::G(m) => {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    m.track_inprogress(|| {
                        if rng.chance(1, 2) {
                            std::panic::resume_unwind(Box::new(Expected))
                        }
                    })
                }));
                m.set_to_current_time();
            }
            Any::S(m) => n += m.time(|| 1) + m.quantiles().len(),
            Any::H(m) => n += m.time(|| 1) + m.buckets().len() + m.cumulative_buckets().count(),
        },
        19 => {
            let m = ms[i].metric();
            n += m.name().to_string().len() + m.labels().len() + m.kind().to_string().len();
            n += format!("{:?}", m.clone()).len();
        }
        20 => {
            let m = ms[i].clone();
            m.register(reg);
        }
        _ => {
            let v = ms[i].view();
            n += v.labels.len();
        }
    }
    Ok(n)
}

pub fn tour(run: &mut Run) {
    run.cases("tour-sequential", 60, 1000, |case| {
        let rng = &mut case.rng;
        let g = Mutex::new(Gatherer::new());
        let reg = g.lock().unwrap().registry();
        let (mut ms, mut held) = (Vec::new(), Vec::new());
        let n = rng.range(5, sz(400, 30));
        let mut total = 0;
        for _ in 0..n {
            total += step(&mut ms, &g, &reg, &mut held, rng)?;
        }
        if rng.chance(1, 2) {
            drop(g);
            total += step(&mut ms, &Mutex::new(Gatherer::new()), &reg, &mut held, rng)?;
        }
        case.count("api_operations", n);
        note!(case, format!("{} operations, {}", n, total));
        Ok(())
    });
    run.cases("tour-concurrent", 120, 2000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(6, 3)) as usize;
        let g = Mutex::new(Gatherer::new());
        let reg = Mutex::new(g.lock().unwrap().registry());
        let kinds = rng.range(1, 4) as usize;
        let mut shared = Vec::new();
        for i in 0..kinds {
            let s = spec(rng, i);
            shared.push(s.must(&[&reg.lock().unwrap()])?);
        }
        let n = rng.range(3, sz(150, 10));
        let seed = rng.next();
        let total = AtomicUsize::new(0);
        let shared = Mutex::new(shared);
        par(threads, |t| {
            let mut rng = Rng::new(seed ^ t as u64);
            let mut ms = shared.lock().unwrap().clone();
            let reg = reg.lock().unwrap().clone();
            let mut held = Vec::new();
            for _ in 0..n {
                total.fetch_add(step(&mut ms, &g, &reg, &mut held, &mut rng)?, SeqCst);
            }
            // metrics travel between threads and are dropped on others
            shared.lock().unwrap().append(&mut ms);
            Ok(())
        })?;
        case.count("api_operations", n * threads as u64);
        note!(
            case,
            format!(
                "{}x{} operations on {} metrics, {}",
                threads,
                n,
                kinds,
                total.load(SeqCst)
            )
        );
        Ok(())
    });
    run.cases("labels-concurrent", 60, 1000, |case| {
        // readers, writers and gathers of one metric's labels
        let rng = &mut case.rng;
        let kind = *rng.pick(&KINDS);
        let mut g = Gatherer::new();
        let m = Spec::new(kind, "m").label("a", "0").must(&[&g.registry()])?;
        let n = rng.range(2, sz(300, 6));
        let seed = rng.next();
        let g = Mutex::new(&mut g);
        let out = par(3, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let mut m = m.clone();
            let mut seen = 0;
            for k in 0..n {
                match t {
                    0 => m.labels_mut().insert("a", &k.to_string()).must("insert")?,
                    1 => match rng.below(4) {
                        0 => m.labels_mut().clear(),
                        1 => m.labels_mut().remove("a"),
                        _ => m.labels_mut().insert("b", &"x".repeat(rng.us(100))).must("insert")?,
                    },
                    _ => {
                        seen += label_vec(m.labels()).len() + m.text().len() + m.labels().len();
                        seen += g.lock().unwrap().gather().to_text().len();
                    }
                }
            }
            Ok(seen)
        })?;
        case.count("api_operations", 3 * n);
        note!(case, format!("{:?} {} {:?}", kind, n, out));
        Ok(())
    });
    run.cases("default-registry", 20, 200, |case| {
        let rng = &mut case.rng;
        let idx = case.idx;
        let n = rng.range(1, 3) as usize;
        let out = par(n + 1, |t| {
            if t == n {
                let fs = default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).gather();
                return Ok(fs.to_text().len());
            }
            let b = MetricBuilder::new();
            let c = b.counter(&format!("c{}_{}", idx, t)).finish().must("finish")?;
            c.increment();
            default_registry().register(c.collector());
            let h = HistogramBuilder::with_exponential_buckets("h", 1.0, 2.0, 4)
                .default_registry()
                .finish()
                .must("finish")?;
            h.observe(3.0);
            let s = SummaryBuilder::new("s", Duration::from_secs(1))
                .quantile(0.9)
                .default_registry()
                .finish()
                .must("finish")?;
            s.observe(1.0);
            Ok(s.quantiles().len())
        })?;
        drop(default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).gather());
        case.count("api_operations", n as u64 * 8);
        note!(case, format!("{} threads {:?}", n, out));
        Ok(())
    });
}

/// The scenarios of known finding K1, each a few lines of safe code.
pub fn micro(name: &str) -> Option<usize> {
    let a = CounterBuilder::new("m").label("k", &"value".repeat(20)).finish().ok()?;
    let mut b = a.clone();
    match name {
        "labels-get-outlives-update" => {
            let l = a.labels().get("k")?;
            b.labels_mut().insert("k", "other").ok()?;
            Some(l.value().bytes().map(usize::from).sum())
        }
        "labels-iter-item-outlives-iter" => {
            let l = a.labels().iter().next()?;
            b.labels_mut().clear();
            Some(l.value().bytes().map(usize::from).sum())
        }
        _ => None,
    }
}

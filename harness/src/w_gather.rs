//! C10, C11, C12 and C13: gather results and their text.

use crate::core::*;
use crate::model::*;
use crate::promtext;
use crate::rng::*;
use crate::vclock;
use crate::w_hist::{bounds, expected_bounds, observation};
use crate::w_summary::random_quantiles;
use prometrics::metrics::{Counter, Gauge};
use prometrics::Gatherer;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{fence, AtomicU64, Ordering::*};
use std::time::Duration;

type Key = (String, Kind, BTreeMap<String, String>);

/// Full names that are easily confused with each other.
fn name_pool(rng: &mut Rng) -> Vec<String> {
    match rng.below(4) {
        0 => vec![
            "a_b_c".into(),
            "a_b".into(),
            "a_bc".into(),
            "ab_c".into(),
            "a_b_c_d".into(),
            "a".into(),
            "A_b".into(),
        ],
        1 => vec![
            "a__b".into(),
            "a_b".into(),
            "a__".into(),
            "a_:b".into(),
            "a:b".into(),
            "a_b_".into(),
            "_a_b".into(),
        ],
        2 => (0..rng.range(1, 12)).map(|i| format!("m{}_x_y", i)).collect(),
        _ => (0..rng.range(1, 6))
            .map(|_| format!("{}_{}_{}", rng.name(true), rng.name(true), rng.name(true)))
            .collect(),
    }
}

/// Label sets that are easily confused with each other.
fn label_pool(rng: &mut Rng) -> Vec<Vec<(String, String)>> {
    let p = |xs: &[(&str, &str)]| -> Vec<(String, String)> { xs.iter().map(|x| (x.0.into(), x.1.into())).collect() };
    match rng.below(4) {
        0 => vec![
            p(&[]),
            p(&[("a", "")]),
            p(&[("a", "1")]),
            p(&[("a", "1"), ("b", "2")]),
            p(&[("a", "2"), ("b", "1")]),
            p(&[("b", "2")]),
            p(&[("a", "1\",b=\"2")]),
            p(&[("a", "1"), ("b", "")]),
            p(&[("a", "1"), ("b", "2"), ("c", "3")]),
            p(&[("A", "1")]),
        ],
        1 => vec![
            p(&[("a", "x\n")]),
            p(&[("a", "x\\n")]),
            p(&[("a", "x\\\n")]),
            p(&[("a", "x")]),
            p(&[("a", "x ")]),
            p(&[]),
        ],
        2 => (0..rng.range(1, 20))
            .map(|i| p(&[("k", &format!("{}", i)), ("z", "same")]))
            .collect(),
        _ => (0..rng.range(1, 8))
            .map(|_| {
                let mut m = BTreeMap::new();
                for _ in 0..rng.below(5) {
                    m.insert(rng.name(false), rng.ustring(6));
                }
                m.into_iter().filter(|(k, _)| k != "le" && k != "quantile").collect()
            })
            .collect(),
    }
}

/// A specification with the given full name and label set, written down in some way.
fn spec(rng: &mut Rng, kind: Kind, full: &str, labels: &[(String, String)]) -> Spec {
    let (ns, sub, name) = split_name(rng, full);
    let mut s = Spec::new(kind, &name);
    s.namespace = ns;
    s.subsystem = sub;
    s.labels = labels.to_vec();
    rng.shuffle(&mut s.labels);
    if rng.chance(1, 4) && !s.labels.is_empty() {
        // an earlier value that is replaced
        let k = rng.pick(&s.labels).0.clone();
        s.labels.insert(0, (k, "replaced".into()));
    }
    s
}

fn ts(rng: &mut Rng) -> Option<i64> {
    match rng.below(6) {
        0 => Some(rng.below(5) as i64 - 2),
        1 => Some(rng.next() as i64 >> rng.below(30) | 1),
        2 => Some(1_600_000_000_000 + rng.below(1000) as i64),
        _ => None,
    }
}
fn set_ts(m: &mut Any, t: Option<i64>) {
    match t {
        Some(t) if t != i64::MIN => m.ts_mut().set(t),
        _ => m.ts_mut().clear(),
    }
}

struct Pool {
    names: Vec<String>,
    labels: Vec<Vec<(String, String)>>,
    kinds: Vec<Kind>,
    count: u64,
}
fn pool(rng: &mut Rng, kinds: &[Kind], big: u64) -> Pool {
    Pool {
        names: name_pool(rng),
        labels: label_pool(rng),
        kinds: if rng.chance(1, 3) {
            vec![*rng.pick(kinds)]
        } else {
            kinds.to_vec()
        },
        count: match rng.below(12) {
            0 => big,
            1 => 1,
            2 => rng.range(20, 90).min(big),
            3 => 0,
            _ => rng.big(200, 3000).unwrap_or(rng.range(2, 14)),
        },
    }
}
impl Pool {
    fn spec(&self, rng: &mut Rng) -> Spec {
        let k = *rng.pick(&self.kinds);
        let n = rng.pick(&self.names).clone();
        let l = rng.pick(&self.labels).clone();
        spec(rng, k, &n, &l)
    }
}
fn key(s: &Spec) -> Key {
    (s.full_name(), s.kind, s.label_map())
}

fn compare_keys(got: &[Fam], want: &BTreeSet<Key>) -> R {
    let mut seen = BTreeSet::new();
    for f in got {
        for m in &f.metrics {
            seen.insert((f.name.clone(), f.kind, m.map()));
        }
    }
    if seen != *want {
        let extra: Vec<_> = seen.difference(want).take(3).collect();
        let missing: Vec<_> = want.difference(&seen).take(3).collect();
        return Err(format!(
            "the result has {} metrics instead of {}: unexpected {:?}, missing {:?}",
            seen.len(),
            want.len(),
            extra,
            missing
        ));
    }
    Ok(())
}

pub fn c10(run: &mut Run) {
    run.cases("merged-values", 15_000, 300_000, |case| {
        let rng = &mut case.rng;
        let p = pool(rng, &[Kind::Counter, Kind::Gauge], sz(400, 20));
        let mut g = Gatherer::new();
        let r = g.registry();
        let mut live: Vec<(Key, Any, f64, Option<i64>)> = Vec::new();
        let mut old: Option<(prometrics::metric::MetricFamilies, Vec<(Key, f64, Option<i64>)>)> = None;
        let rounds = rng.range(1, 3);
        let mut merged = 0;
        for round in 0..rounds {
            for _ in 0..(if round == 0 { p.count } else { rng.below(4) }) {
                let s = p.spec(rng);
                let m = s.must(&[&r])?;
                ensure!(
                    m.name() == s.full_name(),
                    "the name is {} instead of {}",
                    m.name(),
                    s.full_name()
                );
                live.push((key(&s), m, 0.0, None));
            }
            for (k, m, v, t) in &mut live {
                if rng.chance(2, 3) {
                    let d = if k.1 == Kind::Gauge {
                        rng.sdyadic()
                    } else {
                        rng.dyadic()
                    };
                    m.feed(d);
                    *v += d;
                }
                if rng.chance(1, 3) {
                    *t = ts(rng).filter(|t| *t != i64::MIN);
                    set_ts(m, *t);
                }
            }
            if round > 0 && !live.is_empty() && rng.chance(1, 2) {
                drop(old.take());
                for _ in 0..rng.below(live.len() as u64 + 1) {
                    let i = rng.us(live.len());
                    live.swap_remove(i);
                }
            }
            let mut want: BTreeMap<Key, (f64, Option<i64>, u32)> = BTreeMap::new();
            for (k, _, v, t) in &live {
                let e = want.entry(k.clone()).or_insert((0.0, None, 0));
                e.0 += v;
                e.1 = e.1.max(*t);
                e.2 += 1;
            }
            let fs = g.gather();
            let got = fams(&fs);
            well_formed(&got)?;
            compare_keys(&got, &want.keys().cloned().collect())?;
            for f in &got {
                for m in &f.metrics {
                    let k = (f.name.clone(), f.kind, m.map());
                    let w = &want[&k];
                    ensure!(
                        m.num() == w.0,
                        "{:?} is {} instead of {}, the sum of {} metrics",
                        k,
                        m.num(),
                        w.0,
                        w.2
                    );
                    ensure!(m.ts == w.1, "{:?} has the timestamp {:?} instead of {:?}", k, m.ts, w.1);
                    merged += u64::from(w.2 > 1);
                }
            }
            // values and timestamps are those at that gather
            if let Some((fs, snap)) = &old {
                let again = fams(fs);
                let mut i = 0;
                for f in &again {
                    for m in &f.metrics {
                        let s = &snap[i];
                        ensure!(
                            (f.name.clone(), f.kind, m.map()) == s.0 && m.num() == s.1 && m.ts == s.2,
                            "an earlier gather result changed from {:?} to {:?}",
                            s,
                            m
                        );
                        i += 1;
                    }
                }
            }
            let snap = got
                .iter()
                .flat_map(|f| {
                    f.metrics
                        .iter()
                        .map(move |m| ((f.name.clone(), f.kind, m.map()), m.num(), m.ts))
                })
                .collect();
            old = Some((fs, snap));
        }
        case.count("gathers", rounds);
        case.count("metrics", p.count);
        case.count("merged_groups", merged);
        if p.count > 0 {
            note!(case, format!("{} of {:?} x {:?}", p.count, p.names, show(&p.labels)));
        }
        Ok(())
    });
    run.cases("hostile-values", 5_000, 100_000, |case| {
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let n = rng.range(1, 6);
        let counter = rng.chance(1, 3);
        let mut keep = Vec::new();
        let mut vs = Vec::new();
        let mut latest = None;
        let stamped = rng.below(5);
        for _ in 0..n {
            let mut m = Spec::new(if counter { Kind::Counter } else { Kind::Gauge }, "x").must(&[&g.registry()])?;
            let mut v = if rng.chance(1, 8) && !counter { f64::NAN } else { rng.f64_any(!counter) };
            if rng.chance(stamped, 4) {
                let t = ts(rng);
                set_ts(&mut m, t);
                latest = latest.max(t.filter(|t| *t != i64::MIN));
            }
            if counter {
                v = v.abs();
                m.feed(v);
            } else if let Any::G(ref x) = m {
                x.set(v);
            }
            vs.push(v);
            keep.push(m);
        }
        let f = gather(&mut g)?;
        check_sum(f[0].metrics[0].num(), &vs).map_err(|e| format!("{} {:?}", e, vs))?;
        ensure!(
            f.len() == 1 && f[0].metrics.len() == 1 && f[0].metrics[0].ts == latest,
            "{:?} is gathered for {:?}, the latest timestamp is {:?}",
            f,
            vs,
            latest
        );
        if n == 1 {
            ensure!(
                same(f[0].metrics[0].num(), vs[0]),
                "{} instead of {}",
                f[0].metrics[0].num(),
                vs[0]
            );
        }
        note!(case, format!("{:?}", vs));
        Ok(())
    });
    run.cases("while-updated", 150, 3000, |case| {
        let rng = &mut case.rng;
        let groups = rng.range(1, 3) as usize;
        let members = rng.range(1, 4) as usize;
        let per = rng.range(1, sz(1500, 5));
        let g = Gatherer::new();
        let r = g.registry();
        let mut cs: Vec<Vec<Counter>> = Vec::new();
        let mut gs: Vec<Vec<Gauge>> = Vec::new();
        for i in 0..groups {
            let l = [("g".to_string(), i.to_string())];
            let mut c = Vec::new();
            let mut x = Vec::new();
            for _ in 0..members {
                match spec(rng, Kind::Counter, "n_s_c", &l).must(&[&r])? {
                    Any::C(m) => c.push(m),
                    _ => unreachable!(),
                }
                match spec(rng, Kind::Gauge, "n_s_c", &l).must(&[&r])? {
                    Any::G(m) => x.push(m),
                    _ => unreachable!(),
                }
            }
            cs.push(c);
            gs.push(x);
        }
        let threads = rng.range(1, sz(3, 2)) as usize;
        let z = || {
            (0..threads)
                .map(|_| (0..groups).map(|_| AtomicU64::new(0)).collect::<Vec<_>>())
                .collect::<Vec<_>>()
        };
        let (started, completed) = (z(), z());
        let live = AtomicU64::new(threads as u64);
        let g = std::sync::Mutex::new(g);
        let seed = rng.next();
        let n = par(threads + 1, |t| {
            let rng = Rng::new(seed ^ t as u64);
            if t < threads {
                for _ in 0..per {
                    let (i, j) = (rng.us(groups), rng.us(members));
                    started[t][i].store(started[t][i].load(Relaxed) + 1, Relaxed);
                    fence(SeqCst);
                    cs[i][j].increment();
                    gs[i][j].increment();
                    completed[t][i].store(completed[t][i].load(Relaxed) + 1, Release);
                }
                live.fetch_sub(1, SeqCst);
                return Ok(0);
            }
            let mut g = g.lock().unwrap();
            let mut n = 0;
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let lo: Vec<u64> = (0..groups)
                    .map(|i| completed.iter().map(|c| c[i].load(Acquire)).sum())
                    .collect();
                let f = gather(&mut g)?;
                fence(SeqCst);
                let hi: Vec<u64> = (0..groups)
                    .map(|i| started.iter().map(|c| c[i].load(Relaxed)).sum())
                    .collect();
                ensure!(
                    f.len() == 2 && f.iter().all(|f| f.metrics.len() == groups),
                    "{:?}",
                    show(&f)
                );
                for f in &f {
                    for m in &f.metrics {
                        let i: usize = m.labels[0].1.parse().map_err(|_| "label")?;
                        let v = m.num();
                        ensure!(
                            v >= lo[i] as f64 && v <= hi[i] as f64,
                            "group {} of {:?} is {} although between {} and {} had been added",
                            i,
                            f.kind,
                            v,
                            lo[i],
                            hi[i]
                        );
                    }
                }
                n += 1;
                if done {
                    return Ok(n);
                }
            }
        })?;
        case.count("gathers", n[threads]);
        note!(
            case,
            format!(
                "{} groups x {} members x {} updates, {} gathers",
                groups, members, per, n[threads]
            )
        );
        Ok(())
    });
}

pub fn c11(run: &mut Run) {
    run.cases("pooled-histograms", 12_000, 250_000, |case| {
        let rng = &mut case.rng;
        let p = pool(rng, &[Kind::Histogram], sz(60, 10));
        let bp = expected_bounds(&bounds(rng, 20));
        let mut g = Gatherer::new();
        let r = g.registry();
        // per key: bounds and observations of each member
        let mut want: BTreeMap<Key, (Vec<(Vec<f64>, Vec<f64>)>, Option<i64>)> = BTreeMap::new();
        let mut keep = Vec::new();
        for _ in 0..p.count.max(1) {
            let mut s = p.spec(rng);
            s.bounds = match rng.below(4) {
                0 => bounds(rng, 8),
                1 => bp.clone(),
                _ => bp.iter().filter(|_| rng.chance(1, 2)).cloned().collect(),
            };
            let mut m = s.must(&[&r])?;
            let mut obs = Vec::new();
            for _ in 0..rng.below(10) {
                let v = observation(rng, &bp);
                m.feed(v);
                obs.push(v);
            }
            let t = ts(rng).filter(|t| *t != i64::MIN);
            set_ts(&mut m, t);
            let e = want.entry(key(&s)).or_insert((vec![], None));
            e.0.push((expected_bounds(&s.bounds), obs));
            e.1 = e.1.max(t);
            keep.push(m);
        }
        let got = gather(&mut g)?;
        compare_keys(&got, &want.keys().cloned().collect())?;
        let mut merged = 0;
        for f in &got {
            for m in &f.metrics {
                let (members, t) = &want[&(f.name.clone(), f.kind, m.map())];
                merged += u64::from(members.len() > 1);
                let Val::Histogram { buckets, count, sum } = &m.val else {
                    return Err("kind".into());
                };
                let mut union: Vec<f64> = members.iter().flat_map(|x| x.0.iter().cloned()).collect();
                union.sort_by(|a, b| a.partial_cmp(b).unwrap());
                union.dedup();
                let bs: Vec<f64> = buckets.iter().map(|b| b.0).collect();
                ensure!(
                    bs == union,
                    "the bounds are {} instead of {} for members {}",
                    show(&bs),
                    show(&union),
                    show(members)
                );
                for &(le, c) in buckets {
                    // the member's bucket of a value has the smallest bound that is not less
                    let n = members
                        .iter()
                        .flat_map(|(b, o)| o.iter().map(move |v| b[b.partition_point(|x| x < v)]))
                        .filter(|b| *b <= le)
                        .count() as u64;
                    ensure!(
                        c == n,
                        "the bucket {:e} counts {} instead of {} for members {}",
                        le,
                        c,
                        n,
                        show(members)
                    );
                }
                let obs: Vec<f64> = members.iter().flat_map(|x| x.1.iter().cloned()).collect();
                ensure!(
                    *count == obs.len() as u64,
                    "the count is {} instead of {}",
                    count,
                    obs.len()
                );
                check_sum(*sum, &obs)?;
                ensure!(m.ts == *t, "the timestamp is {:?} instead of {:?}", m.ts, t);
            }
        }
        case.count("members", keep.len() as u64);
        case.count("merged_groups", merged);
        note!(case, show(&want));
        Ok(())
    });
    run.cases("pooled-summaries", 10_000, 200_000, |case| {
        let rng = &mut case.rng;
        let virt = vclock::works();
        if virt {
            vclock::set_virtual(1_000_000_000_000_000, 1_600_000_000, 0);
        }
        let p = pool(rng, &[Kind::Summary], sz(40, 10));
        let mut g = Gatherer::new();
        let r = g.registry();
        let mut ms: Vec<(Spec, Any, Vec<(i64, f64)>, Option<i64>)> = Vec::new();
        for _ in 0..p.count.max(1) {
            let mut s = p.spec(rng);
            s.quantiles = random_quantiles(rng);
            s.window = Duration::from_nanos(if virt { rng.range(1, 40) * 100 + 5 } else { 1 << 60 });
            let mut m = s.must(&[&r])?;
            let t = ts(rng).filter(|t| *t != i64::MIN);
            set_ts(&mut m, t);
            ms.push((s, m, vec![], t));
        }
        let mut now = 0i64;
        for _ in 0..rng.below(ms.len() as u64 * 8 + 1) {
            let m = {
                let i = rng.us(ms.len());
                &mut ms[i]
            };
            let v = match rng.below(4) {
                0 => rng.f64_any(true),
                _ => rng.below(20) as f64,
            };
            m.1.feed(v);
            m.2.push((now, v));
            if virt && rng.chance(1, 3) {
                let d = 10 * rng.below(60) as i64;
                vclock::advance(d);
                now += d;
            }
        }
        let fs = g.gather();
        let (mut merged, mut expired) = (0, 0u64);
        for again in 0..2 {
            let got = fams(&fs);
            well_formed(&got)?;
            let mut want: BTreeMap<Key, Vec<usize>> = BTreeMap::new();
            for (i, m) in ms.iter().enumerate() {
                want.entry(key(&m.0)).or_default().push(i);
            }
            compare_keys(&got, &want.keys().cloned().collect())?;
            for f in &got {
                for a in &f.metrics {
                    let members = &want[&(f.name.clone(), f.kind, a.map())];
                    merged += u64::from(members.len() > 1);
                    let Val::Summary { quantiles, count, sum } = &a.val else {
                        return Err("kind".into());
                    };
                    let (mut q, mut all, mut live, mut t) = (vec![], vec![], vec![], None);
                    for &i in members {
                        let m = &ms[i];
                        q.extend(m.0.quantiles.iter().cloned());
                        all.extend(m.2.iter().map(|o| o.1));
                        let w = m.0.window.as_nanos() as i64;
                        live.extend(m.2.iter().filter(|o| now - o.0 < w && !o.1.is_nan()).map(|o| o.1));
                        t = t.max(m.3);
                    }
                    expired += (all.len() - live.len()) as u64;
                    live.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    check_quantiles(quantiles, &q, &live).map_err(|e| format!("{} ({} members)", e, members.len()))?;
                    ensure!(
                        *count == all.len() as u64,
                        "the count is {} instead of {}",
                        count,
                        all.len()
                    );
                    check_sum(*sum, &all)?;
                    ensure!(a.ts == t, "the timestamp is {:?} instead of {:?}", a.ts, t);
                }
            }
            if again == 0 && virt {
                let d = 10 * rng.below(300) as i64;
                vclock::advance(d);
                now += d;
            }
        }
        vclock::real();
        case.count("members", ms.len() as u64);
        case.count("merged_groups", merged);
        case.count("expired_observations", expired);
        note!(
            case,
            format!("{} members {} q {}", ms.len(), show(&ms[0].2), show(&ms[0].0.quantiles))
        );
        Ok(())
    });
}

/// A random metric with hostile contents (its name is a valid one).
pub fn hostile_spec(rng: &mut Rng, kind: Kind) -> Spec {
    let mut s = Spec::new(kind, &rng.name(true));
    if rng.chance(1, 3) {
        s.namespace = Some(rng.name(true));
    }
    if rng.chance(1, 3) {
        s.subsystem = Some(rng.name(true));
    }
    if rng.chance(1, 2) {
        s.help = Some(rng.ustring(20));
    }
    let n = match rng.big(700, 3000) {
        Some(n) => {
            // (numbered, as random names are short)
            for i in 0..n {
                s.labels.push((format!("n{}", i * 7 % 7919), rng.ustring(3)));
            }
            3
        }
        None if rng.chance(1, 15) => 40,
        None => rng.below(5),
    };
    for _ in 0..n {
        let k = if rng.chance(1, 12) {
            ["le", "quantile", "_", "_a", "l", "lf"][rng.us(6)].to_string()
        } else {
            rng.name(false)
        };
        if Some(k.as_str()) != kind.reserved() {
            s.labels
                .push((k, rng.ustring(if rng.chance(1, 20) { 300 } else { 10 })));
        }
    }
    s.bounds = bounds(rng, 12);
    s.quantiles = random_quantiles(rng);
    s
}

pub fn fill(rng: &mut Rng, m: &mut Any) {
    match m {
        Any::G(g) => g.set(rng.f64_any(true)),
        Any::C(c) => {
            for _ in 0..rng.below(3) {
                let v = rng.f64_any(false).abs();
                c.add(v).expect("add");
            }
        }
        _ => {
            for _ in 0..rng.below(6) {
                let v = rng.f64_any(m.kind() == Kind::Summary);
                m.feed(v);
            }
        }
    }
    let t = ts(rng);
    set_ts(m, t);
}

pub fn c12(run: &mut Run) {
    run.cases("single-metric", 25_000, 600_000, |case| {
        let rng = &mut case.rng;
        let kind = *rng.pick(&KINDS);
        let s = hostile_spec(rng, kind);
        let mut m = s.must(&[])?;
        fill(rng, &mut m);
        if rng.chance(1, 4) {
            let (k, v) = (rng.name(false), rng.ustring(8));
            if Some(k.as_str()) != kind.reserved() {
                m.labels_mut().insert(&k, &v).must("insert")?;
            }
        }
        let text = m.text();
        let got = normalise(
            kind,
            promtext::samples(&text).map_err(|e| format!("{} in {:?}", e, text))?,
        )?;
        let view = m.view();
        same_samples(&got, &expected_samples(&s.full_name(), &view)).map_err(|e| format!("{} text {:?}", e, text))?;
        case.count("lines", got.len() as u64);
        note!(case, text);
        Ok(())
    });
    run.cases("gather-result", 8_000, 200_000, |case| {
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let r = g.registry();
        let mut keep = Vec::new();
        let mut kinds: BTreeMap<String, Kind> = BTreeMap::new();
        let n = match rng.below(10) {
            0 => 0,
            1 => sz(60, 6),
            _ => rng.big(500, 15_000).unwrap_or(rng.range(1, sz(8, 2))),
        };
        let mut names: BTreeMap<String, Vec<Option<String>>> = BTreeMap::new();
        for _ in 0..n {
            let kind = *rng.pick(&KINDS);
            let mut s = hostile_spec(rng, kind);
            if !keep.is_empty() && rng.chance(1, 3) {
                // another member of an existing family
                let (o, _): &(Spec, Any) = rng.pick(&keep);
                s.kind = o.kind;
                s.namespace = o.namespace.clone();
                s.subsystem = o.subsystem.clone();
                s.name = o.name.clone();
                s.labels.retain(|l| Some(l.0.as_str()) != s.kind.reserved());
                if rng.chance(1, 3) {
                    s.labels = o.labels.clone();
                }
            }
            // one kind per name (the format has one TYPE per name)
            if *kinds.entry(s.full_name()).or_insert(s.kind) != s.kind {
                continue;
            }
            let mut m = s.must(&[&r])?;
            fill(rng, &mut m);
            names.entry(s.full_name()).or_default().push(s.help.clone());
            keep.push((s, m));
        }
        let fs = g.gather();
        let text = fs.to_text();
        let got = promtext::families(&text).map_err(|e| format!("{} in {}", e, text))?;
        let view = fams(&fs);
        well_formed(&view)?;
        ensure!(
            got.len() == names.len(),
            "the text has {} families instead of {}",
            got.len(),
            names.len()
        );
        ensure!(
            view.len() == names.len(),
            "the result has {} families instead of {}",
            view.len(),
            names.len()
        );
        let by_name: BTreeMap<String, usize> = keep.iter().enumerate().map(|(i, k)| (k.0.full_name(), i)).collect();
        let mut joined = String::new();
        for ((p, v), raw) in got.iter().zip(&view).zip(fs.as_ref()) {
            ensure!(
                p.name == v.name && p.kind == v.kind.text(),
                "the text says {} {} instead of {} {:?}",
                p.name,
                p.kind,
                v.name,
                v.kind
            );
            ensure!(kinds.get(&p.name) == Some(&v.kind), "{} is a {:?}", p.name, v.kind);
            ensure!(p.help == v.help, "the help is {:?} instead of {:?}", p.help, v.help);
            ensure!(
                names[&p.name].contains(&p.help),
                "the help {:?} is none of {:?}",
                p.help,
                names[&p.name]
            );
            let want: Vec<_> = v.metrics.iter().flat_map(|m| expected_samples(&v.name, m)).collect();
            let s = normalise(v.kind, p.samples.clone())?;
            same_samples(&s, &want).map_err(|e| format!("{} text {}", e, text))?;
            // the text of the family alone, and of its metrics alone
            joined += &raw.to_string();
            let lines = raw.metrics().to_string();
            let s = normalise(v.kind, promtext::samples(&lines)?)?;
            same_samples(&s, &want)?;
            // a family with a single member shows exactly the member (the quantiles of a pool may be
            // others that are as accurate)
            let members = names[&p.name].len();
            if let (1, true, Some((_, m))) = (members, v.kind != Kind::Summary, by_name.get(&p.name).map(|i| &keep[*i])) {
                same_samples(&s, &expected_samples(&v.name, &m.view()))?;
            }
        }
        ensure!(joined == text, "the text of the families is not the text of the result");
        case.count("families", got.len() as u64);
        case.count("lines", got.iter().map(|f| f.samples.len() as u64).sum());
        if n > 0 {
            note!(case, text);
        }
        Ok(())
    });
    run.cases("values", 60_000, 1_500_000, |case| {
        let rng = &mut case.rng;
        let v = rng.f64_any(true);
        let t = rng.next() as i64 >> rng.below(64);
        let Any::G(mut g) = Spec::new(Kind::Gauge, "g").label("l", &rng.ustring(4)).must(&[])? else {
            unreachable!()
        };
        g.set(v);
        if t != i64::MIN {
            g.timestamp_mut().set(t);
        }
        let _ = &mut g;
        let text = g.to_string();
        let s = promtext::sample(&text)?;
        ensure!(
            s.value.to_bits() == v.to_bits() || (v.is_nan() && s.value.is_nan()),
            "{:?} shows {:e} instead of {:e}",
            text,
            s.value,
            v
        );
        ensure!(
            s.ts == Some(t),
            "{:?} shows the timestamp {:?} instead of {}",
            text,
            s.ts,
            t
        );
        note!(case, text);
        Ok(())
    });
    run.cases("every-character", 1200, 4352, |case| {
        // all characters (in blocks of 256) as label value and help
        let total = 4352;
        let idx = if case.idx < 16 {
            case.idx
        } else {
            (case.idx * 2654435761 + case.rng.below(7)) % total
        };
        let cs: Vec<char> = (0..sz(256, 8))
            .filter_map(|i| char::from_u32((idx * 256 + i) as u32))
            .collect();
        if cs.is_empty() {
            return Ok(());
        }
        let all: String = cs.iter().collect();
        let mut g = Gatherer::new();
        let mut s = Spec::new(*case.rng.pick(&KINDS), "m")
            .label("l", &all)
            .label("m", &format!("x{}y", cs[0]));
        s.help = Some(all.clone());
        s.quantiles = vec![0.5];
        let m = s.must(&[&g.registry()])?;
        m.feed(1.0);
        let f = promtext::families(&g.gather().to_text())?;
        ensure!(
            f[0].help.as_ref() == Some(&all),
            "the help with characters {:x}.. is {:?}",
            idx * 256,
            f[0].help
        );
        for x in &f[0].samples {
            ensure!(
                x.label("l") == Some(&all),
                "the label with characters {:x}.. is {:?}",
                idx * 256,
                x.label("l")
            );
        }
        for (i, c) in cs.iter().enumerate().step_by(if idx < 4 { 1 } else { 37 }) {
            let Any::G(mut x) = Spec::new(Kind::Gauge, "m").must(&[])? else {
                unreachable!()
            };
            let v: String = match i % 3 {
                0 => c.to_string(),
                1 => format!("{}{}", c, c),
                _ => format!("a{}n", c),
            };
            x.labels_mut().insert("l", &v).must("insert")?;
            let p = promtext::sample(&x.to_string())?;
            ensure!(p.label("l") == Some(&v), "{:?} is shown as {:?}", v, p.label("l"));
        }
        case.count("characters", cs.len() as u64);
        note!(case, format!("U+{:04X}..", idx * 256));
        Ok(())
    });
    run.cases("distinct-lines", 10_000, 200_000, |case| {
        // nearly equal contents never share a line
        let rng = &mut case.rng;
        let alphabet = ["\\", "n", "\n", "\"", ",", "=", "{", "}", " ", "b"];
        let word = || (0..rng.below(4)).map(|_| *rng.pick(&alphabet)).collect::<String>();
        let mk = |a: &str, b: &str| Spec::new(Kind::Gauge, "m").label("a", a).label("b", b);
        let pairs: Vec<(String, String)> = (0..6).map(|_| (word(), word())).collect();
        let mut lines: BTreeMap<String, &(String, String)> = BTreeMap::new();
        for p in &pairs {
            let t = mk(&p.0, &p.1).must(&[])?.text();
            if let Some(o) = lines.insert(t.clone(), p) {
                ensure!(o == p, "{:?} and {:?} are both rendered as {:?}", o, p, t);
            }
        }
        note!(case, format!("{:?}", pairs));
        Ok(())
    });
}

pub fn c13(run: &mut Run) {
    run.cases("permuted-registrations", 6_000, 120_000, |case| {
        let rng = &mut case.rng;
        let big = sz(if rng.chance(1, 15) { 1500 } else { 250 }, 5);
        let p = pool(rng, &KINDS, big);
        let specs: Vec<Spec> = (0..p.count)
            .map(|i| {
                let mut s = p.spec(rng);
                s.help = if rng.chance(1, 4) {
                    None
                } else {
                    Some(format!("help {}", i))
                };
                s
            })
            .collect();
        let want: BTreeSet<Key> = specs.iter().map(key).collect();
        let fam_keys: BTreeSet<(String, Kind)> = specs.iter().map(|s| (s.full_name(), s.kind)).collect();
        type Shape = Vec<(String, Kind, Vec<Vec<(String, String)>>)>;
        let mut first: Option<Shape> = None;
        for round in 0..rng.range(2, 3) {
            let mut g = Gatherer::new();
            let r = g.registry();
            let mut order: Vec<usize> = (0..specs.len()).collect();
            match rng.below(4) {
                0 => order.reverse(),
                1 if round > 0 => order.sort_by_key(|i| (specs[*i].full_name(), specs[*i].label_map())),
                _ => rng.shuffle(&mut order),
            }
            let mut keep = Vec::new();
            for i in order {
                let mut s = specs[i].clone();
                let (ns, sub, name) = split_name(rng, &s.full_name());
                s.namespace = ns;
                s.subsystem = sub;
                s.name = name;
                let mut l: Vec<_> = specs[i].label_map().into_iter().collect();
                rng.shuffle(&mut l);
                // labels set by the builder or later
                let late = rng.chance(1, 3).then(|| l.pop()).flatten();
                s.labels = l;
                let mut m = s.must(&[&r])?;
                if let Some((k, v)) = late {
                    m.labels_mut().insert(&k, &v).must("insert")?;
                }
                m.feed(1.0);
                keep.push(m);
            }
            for _ in 0..2 {
                let got = gather(&mut g)?;
                compare_keys(&got, &want)?;
                ensure!(
                    got.len() == fam_keys.len(),
                    "{} families instead of {}",
                    got.len(),
                    fam_keys.len()
                );
                for f in &got {
                    let helps: Vec<_> = specs
                        .iter()
                        .filter(|s| s.kind == f.kind && s.full_name() == f.name)
                        .map(|s| &s.help)
                        .collect();
                    ensure!(
                        helps.contains(&&f.help),
                        "the help of {} is {:?}, the members' are {:?}",
                        f.name,
                        f.help,
                        show(&helps)
                    );
                }
                let shape: Shape = got
                    .iter()
                    .map(|f| {
                        (
                            f.name.clone(),
                            f.kind,
                            f.metrics.iter().map(|m| m.labels.clone()).collect(),
                        )
                    })
                    .collect();
                match &first {
                    None => first = Some(shape),
                    Some(s) => {
                        if *s != shape {
                            let i = (0..shape.len()).find(|&i| s[i] != shape[i]).unwrap_or(0);
                            return Err(format!(
                                "the order depends on the order of registration: {} and {}",
                                show(&s[i]),
                                show(&shape[i])
                            ));
                        }
                    }
                }
            }
        }
        case.count("metrics", p.count);
        case.count("families", fam_keys.len() as u64);
        if p.count > 1 {
            note!(case, format!("{} of {:?} x {}", p.count, p.names, show(&p.labels)));
        }
        Ok(())
    });
    run.cases("many-families", 60, 1500, |case| {
        let rng = &mut case.rng;
        let n = rng.big(1, 20_000).unwrap_or(8);
        let base = rng.name(true);
        let mut specs: Vec<Spec> = (0..n)
            .map(|i| {
                let mut s = Spec::new(*rng.pick(&KINDS), &format!("{}{}", base, i * 7 % 40_009));
                if rng.chance(1, 3) {
                    s.help = Some(format!("help {}", s.name));
                }
                s
            })
            .collect();
        // several members of some, one of them in another kind
        for _ in 0..rng.below(n + 1) {
            let s = specs[rng.us(n as usize)].clone();
            specs.push(match rng.below(4) {
                0 => Spec { kind: *rng.pick(&KINDS), ..s },
                1 => s,
                _ => s.label("x", &rng.below(3).to_string()),
            });
        }
        let mut want: BTreeMap<Key, u64> = BTreeMap::new();
        for s in &specs {
            *want.entry(key(s)).or_insert(0) += 1;
        }
        let keys: BTreeSet<Key> = want.keys().cloned().collect();
        let families = keys.iter().map(|k| (&k.0, k.1)).collect::<BTreeSet<_>>().len();
        let mut first = None;
        for _ in 0..2 {
            rng.shuffle(&mut specs);
            let mut g = Gatherer::new();
            let r = g.registry();
            let keep: Vec<Any> = specs.iter().map(|s| s.must(&[&r])).collect::<R<_>>()?;
            keep.iter().for_each(|m| m.feed(1.0));
            let got = gather(&mut g)?;
            compare_keys(&got, &keys)?;
            ensure!(got.len() == families, "{} families instead of {}", got.len(), families);
            for f in &got {
                for m in &f.metrics {
                    let n = want[&(f.name.clone(), f.kind, m.map())];
                    ensure!(
                        m.num() == n as f64,
                        "{} {:?} shows {} instead of the sum {} of its members",
                        f.name,
                        m.labels,
                        m.num(),
                        n
                    );
                }
            }
            let order: Vec<_> = got
                .iter()
                .map(|f| (f.name.clone(), f.kind, f.metrics.iter().map(|m| m.labels.clone()).collect::<Vec<_>>()))
                .collect();
            match &first {
                None => first = Some(order),
                Some(o) => {
                    if let Some(i) = (0..o.len()).find(|&i| o[i] != order[i]) {
                        return Err(format!(
                            "the order depends on the order of registration: {} and {}",
                            show(&o[i]),
                            show(&order[i])
                        ));
                    }
                }
            }
        }
        case.count("metrics", specs.len() as u64);
        case.count("families", families as u64);
        note!(case, format!("{} {} {}", base, n, specs.len()));
        Ok(())
    });
    run.cases("split-names", 6_000, 100_000, |case| {
        // all ways of writing the same full name end in one family
        let rng = &mut case.rng;
        let parts: Vec<String> = (0..rng.range(2, 5))
            .map(|_| if rng.chance(1, 5) { "_".into() } else { rng.name(true) })
            .collect();
        let full = parts.join("_");
        let mut g = Gatherer::new();
        let r = g.registry();
        let kind = *rng.pick(&KINDS);
        let n = rng.range(2, 6);
        let mut keep = Vec::new();
        let mut splits = BTreeSet::new();
        for i in 0..n {
            let (ns, sub, name) = split_name(rng, &full);
            let mut s = Spec::new(kind, &name);
            s.namespace = ns;
            s.subsystem = sub;
            splits.insert((s.namespace.clone(), s.subsystem.clone(), s.name.clone()));
            if rng.chance(1, 2) {
                s = s.label("x", &(i % 2).to_string());
            }
            let m = s.must(&[&r])?;
            m.feed(1.0);
            // names in between
            let other = Spec::new(kind, &format!("{}{}", full, rng.pick(&["a", "_", ":", "0"]))).must(&[&r])?;
            keep.push((s.label_map(), m, other));
        }
        let got = gather(&mut g)?;
        let mine: Vec<_> = got.iter().filter(|f| f.name == full).collect();
        ensure!(mine.len() == 1, "{} families are named {}", mine.len(), full);
        let sets: BTreeSet<_> = keep.iter().map(|k| k.0.clone()).collect();
        ensure!(
            mine[0].metrics.len() == sets.len(),
            "{} metrics instead of {} in {}",
            mine[0].metrics.len(),
            sets.len(),
            full
        );
        let total: f64 = mine[0].metrics.iter().map(|m| m.num()).sum();
        ensure!(
            total == n as f64,
            "the {} metrics named {} sum up to {}",
            n,
            full,
            total
        );
        case.count("splits", splits.len() as u64);
        note!(case, format!("{:?}", splits));
        Ok(())
    });
}

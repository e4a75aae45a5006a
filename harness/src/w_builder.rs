//! C26: metrics obtained from a common builder.

use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Gatherer};
use std::collections::BTreeMap;

use crate::core::*;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Default)]
struct Model {
    namespace: Option<String>,
    subsystem: Option<String>,
    labels: Vec<(String, String)>,
    regs: Vec<usize>,
}

struct Made {
    m: Any,
    spec: Spec,
    regs: Vec<usize>,
    value: f64,
}

/// Applies the settings that are made on the specific builder and finishes it.
fn finish(b: &MetricBuilder, spec: &Spec, own: &Spec, regs: &[prometrics::Registry]) -> R<Any> {
    macro_rules! common {
        ($b:expr) => {{
            if let Some(ref x) = own.namespace {
                $b.namespace(x);
            }
            if let Some(ref x) = own.subsystem {
                $b.subsystem(x);
            }
            if let Some(ref x) = own.help {
                $b.help(x);
            }
            for (k, v) in &own.labels {
                $b.label(k, v);
            }
            for r in regs {
                $b.registry(r.clone());
            }
        }};
    }
    Ok(match spec.kind {
        Kind::Counter => {
            let mut x = b.counter(&spec.name);
            common!(x);
            Any::C(x.finish().must("finish")?)
        }
        Kind::Gauge => {
            let mut x = b.gauge(&spec.name);
            if own.initial != 0.0 {
                x.initial_value(own.initial);
            }
            common!(x);
            Any::G(x.finish().must("finish")?)
        }
        Kind::Summary => {
            let mut x = b.summary(&spec.name, spec.window);
            for q in &own.quantiles {
                x.quantile(*q);
            }
            common!(x);
            Any::S(x.finish().must("finish")?)
        }
        Kind::Histogram => {
            let mut x = b.histogram(&spec.name);
            for q in &own.bounds {
                x.bucket(*q);
            }
            common!(x);
            Any::H(x.finish().must("finish")?)
        }
    })
}

const DEFAULT: usize = 3;

fn text_of(m: &Any) -> String {
    m.text()
}

pub fn c26(run: &mut Run) {
    run.cases("sequence", 12_000, 250_000, |case| {
        let idx = case.idx;
        let rng = &mut case.rng;
        let mut gs: Vec<Gatherer> = (0..3).map(|_| Gatherer::new()).collect();
        let regs: Vec<prometrics::Registry> = gs.iter().map(|g| g.registry()).chain([default_registry()]).collect();
        let start = |rng: &mut Rng| -> (MetricBuilder, Model) {
            let mut m = Model::default();
            let b = match rng.below(5) {
                0 => {
                    m.regs = vec![DEFAULT];
                    if rng.chance(1, 2) {
                        MetricBuilder::new()
                    } else {
                        MetricBuilder::default()
                    }
                }
                1 => MetricBuilder::without_registry(),
                _ => {
                    let i = rng.us(4);
                    m.regs = vec![i];
                    MetricBuilder::with_registry(regs[i].clone())
                }
            };
            (b, m)
        };
        let mut builders = vec![start(rng)];
        let mut made: Vec<Made> = Vec::new();
        let words = ["a", "b", "ns", "x_y", "_z"];
        let keys = ["k", "a", "zz", "_l", "le2"];
        let values = ["", "1", "x\n\"", "v"];
        let mut trace = String::new();
        for _ in 0..rng.range(3, sz(25, 10)) {
            let i = rng.us(builders.len());
            match rng.below(14) {
                0 | 1 => {
                    let w = *rng.pick(&words);
                    builders[i].0.namespace(w);
                    builders[i].1.namespace = Some(w.into());
                    trace += &format!(" {}.ns={}", i, w);
                }
                2 | 3 => {
                    let w = *rng.pick(&words);
                    builders[i].0.subsystem(w);
                    builders[i].1.subsystem = Some(w.into());
                    trace += &format!(" {}.sub={}", i, w);
                }
                4 | 5 | 6 => {
                    let (k, v) = (*rng.pick(&keys), *rng.pick(&values));
                    builders[i].0.label(k, v);
                    builders[i].1.labels.push((k.into(), v.into()));
                    trace += &format!(" {}.{}={:?}", i, k, v);
                }
                7 | 8 => {
                    let r = rng.us(4);
                    if rng.chance(1, 2) {
                        builders[i].0.set_registry(regs[r].clone());
                        builders[i].1.regs = vec![r];
                        trace += &format!(" {}.set_registry({})", i, r);
                    } else if !builders[i].1.regs.contains(&r) {
                        builders[i].0.registry(regs[r].clone());
                        builders[i].1.regs.push(r);
                        trace += &format!(" {}.registry({})", i, r);
                    }
                }
                9 => {
                    if rng.chance(1, 2) {
                        let c = (builders[i].0.clone(), builders[i].1.clone());
                        builders.push(c);
                        trace += &format!(" clone {}", i);
                    } else {
                        builders.push(start(rng));
                        trace += " new";
                    }
                }
                _ => {
                    let kind = *rng.pick(&KINDS);
                    let mut own = Spec::new(kind, &format!("m{}_{}_{}", run_id(), idx, made.len()));
                    if rng.chance(1, 2) {
                        own.labels
                            .push((rng.pick(&keys).to_string(), rng.pick(&values).to_string()));
                    }
                    if rng.chance(1, 5) {
                        own.namespace = Some(rng.pick(&words).to_string());
                    }
                    if rng.chance(1, 5) {
                        own.subsystem = Some(rng.pick(&words).to_string());
                    }
                    if rng.chance(1, 3) {
                        own.help = Some("h".into());
                    }
                    if rng.chance(1, 2) {
                        own.initial = 2.5;
                        own.quantiles = vec![0.5, 0.25];
                        own.bounds = vec![1.0, 3.0];
                    }
                    own.window = std::time::Duration::from_secs(1 << 30);
                    let mut own_regs = Vec::new();
                    let mut all = builders[i].1.regs.clone();
                    if rng.chance(1, 4) {
                        let r = rng.us(4);
                        if !all.contains(&r) {
                            own_regs.push(regs[r].clone());
                            all.push(r);
                        }
                    }
                    // as built directly
                    let base = &builders[i].1;
                    let mut spec = own.clone();
                    spec.namespace = own.namespace.clone().or(base.namespace.clone());
                    spec.subsystem = own.subsystem.clone().or(base.subsystem.clone());
                    spec.labels = base.labels.iter().chain(&own.labels).cloned().collect();
                    let m = finish(&builders[i].0, &spec, &own, &own_regs)?;
                    let direct = spec.must(&[])?;
                    ensure!(
                        m.name() == spec.full_name(),
                        "the name is {}, not {} after{}",
                        m.name(),
                        spec.full_name(),
                        trace
                    );
                    let want: Vec<(String, String)> = spec.label_map().into_iter().collect();
                    ensure!(
                        label_vec(m.labels()) == want,
                        "the labels are {:?}, not {:?} after{}",
                        label_vec(m.labels()),
                        want,
                        trace
                    );
                    ensure!(m.help() == own.help, "the help is {:?}, not {:?}", m.help(), own.help);
                    ensure!(
                        text_of(&m) == text_of(&direct),
                        "{:?} differs from the directly built {:?} after{}",
                        m.text(),
                        direct.text(),
                        trace
                    );
                    let v = rng.dyadic() + 1.0;
                    let window_check = v; // the summary's window holds the observation
                    m.feed(v);
                    direct.feed(v);
                    let (a, b) = (m.view(), direct.view());
                    ensure!(
                        a.val == b.val && a.ts == b.ts,
                        "{:?} behaves unlike the directly built {:?}",
                        a,
                        b
                    );
                    let value = m.total();
                    trace += &format!(" {}:{}({})", i, kind.text(), window_check);
                    made.push(Made {
                        m,
                        spec,
                        regs: all,
                        value,
                    });
                }
            }
        }
        // nothing has changed since, and each metric is in exactly its registries
        let mut results: Vec<BTreeMap<String, Fam>> = Vec::new();
        for g in gs.iter_mut() {
            results.push(gather(g)?.into_iter().map(|f| (f.name.clone(), f)).collect());
        }
        let mut lock = default_gatherer().lock().unwrap_or_else(|e| e.into_inner());
        results.push(gather(&mut lock)?.into_iter().map(|f| (f.name.clone(), f)).collect());
        drop(lock);
        for x in &made {
            let want: Vec<(String, String)> = x.spec.label_map().into_iter().collect();
            ensure!(
                x.m.name() == x.spec.full_name() && label_vec(x.m.labels()) == want && same(x.m.total(), x.value),
                "{} {:?} {} has changed to {}: after{}",
                x.spec.full_name(),
                want,
                x.value,
                x.m.text(),
                trace
            );
            for (i, r) in results.iter().enumerate() {
                let f = r.get(&x.m.name());
                ensure!(
                    f.is_some() == x.regs.contains(&i),
                    "{} with registries {:?} {} gatherer {} (after{})",
                    x.m.name(),
                    x.regs,
                    if f.is_some() { "is in" } else { "is missing from" },
                    i,
                    trace
                );
                if let Some(f) = f {
                    ensure!(
                        f.metrics.len() == 1
                            && f.kind == x.spec.kind
                            && f.metrics[0].labels == want
                            && same(f.metrics[0].num(), x.value),
                        "gathered {:?} for {}",
                        f,
                        x.m.text()
                    );
                }
            }
        }
        let n = made.len() as u64;
        drop(made);
        drop(results);
        let mut lock = default_gatherer().lock().unwrap_or_else(|e| e.into_inner());
        ensure!(
            lock.gather().as_ref().is_empty(),
            "the default gatherer is not empty in the end"
        );
        case.count("metrics_built", n);
        case.count("builders", builders.len() as u64);
        if n > 0 {
            note!(case, trace);
        }
        Ok(())
    });
    run.cases("reused", 6_000, 120_000, |case| {
        // one individual builder, changed and finished again and again
        let rng = &mut case.rng;
        let mut gs: Vec<Gatherer> = (0..3).map(|_| Gatherer::new()).collect();
        let regs: Vec<prometrics::Registry> = gs.iter().map(|g| g.registry()).collect();
        let words = ["a", "b", "ns", "x_y", "_z"];
        let keys = ["k", "a", "zz", "_l", "le2"];
        let values = ["", "1", "x\n\"", "v"];
        let mut common = MetricBuilder::without_registry();
        let kind = *rng.pick(&KINDS);
        let mut spec = Spec::new(kind, rng.pick(&words));
        spec.window = std::time::Duration::from_secs(1 << 30);
        let mut own: Vec<usize> = Vec::new();
        let mut trace = format!("{:?}", kind);
        if rng.chance(1, 2) {
            common.registry(regs[0].clone());
            own.push(0);
        }
        if rng.chance(1, 2) {
            common.namespace("c");
            spec.namespace = Some("c".into());
        }
        if rng.chance(1, 2) {
            common.label("k", "common");
            spec.labels.push(("k".into(), "common".into()));
        }
        let mut made: Vec<(Any, Spec, Vec<usize>, f64)> = Vec::new();
        let steps = rng.range(2, sz(20, 8));
        macro_rules! go {
            ($b:expr, $any:expr, $extra:expr) => {{
                let mut b = $b;
                for k in 0..steps {
                    match rng.below(9) {
                        0 => {
                            let w = *rng.pick(&words);
                            b.namespace(w);
                            spec.namespace = Some(w.into());
                            trace += &format!(" ns={}", w);
                        }
                        1 => {
                            let w = *rng.pick(&words);
                            b.subsystem(w);
                            spec.subsystem = Some(w.into());
                            trace += &format!(" sub={}", w);
                        }
                        2 => {
                            let w = *rng.pick(&words);
                            b.help(w);
                            spec.help = Some(w.into());
                            trace += &format!(" help={}", w);
                        }
                        3 => {
                            let (k, v) = (*rng.pick(&keys), *rng.pick(&values));
                            b.label(k, v);
                            spec.labels.push((k.into(), v.into()));
                            trace += &format!(" {}={:?}", k, v);
                        }
                        4 => {
                            let r = rng.us(3);
                            if !own.contains(&r) {
                                b.registry(regs[r].clone());
                                own.push(r);
                                trace += &format!(" reg{}", r);
                            }
                        }
                        5 => {
                            $extra(&mut b, &mut spec, rng);
                            trace += " extra";
                        }
                        6 => {
                            // (this is too late for the individual builder)
                            common.label("late", "x").namespace("late").subsystem("late");
                            common.set_registry(regs[rng.us(3)].clone());
                            trace += " late";
                        }
                        _ => {
                            let m: Any = $any(b.finish().must("finish")?);
                            let direct = spec.must(&[])?;
                            let (x, y) = (m.view(), direct.view());
                            ensure!(
                                m.name() == spec.full_name()
                                    && m.help() == spec.help
                                    && m.text() == direct.text()
                                    && show(&x) == show(&y),
                                "{:?} ({:?}) differs from the directly built {:?} ({:?}) after {}",
                                m.text(),
                                m.help(),
                                direct.text(),
                                spec.help,
                                trace
                            );
                            let v = (1u64 << k) as f64 + 0.5;
                            m.feed(v);
                            direct.feed(v);
                            ensure!(
                                m.text() == direct.text(),
                                "{:?} behaves unlike the directly built {:?} after {}",
                                m.text(),
                                direct.text(),
                                trace
                            );
                            let total = m.total();
                            made.push((m, spec.clone(), own.clone(), total));
                            trace += &format!(" finish#{}", k);
                        }
                    }
                }
            }};
        }
        let name = spec.name.clone();
        match kind {
            Kind::Counter => go!(common.counter(&name), Any::C, |_: &mut CounterBuilder, _: &mut Spec, _: &mut Rng| ()),
            Kind::Gauge => go!(
                common.gauge(&name),
                Any::G,
                |b: &mut GaugeBuilder, s: &mut Spec, rng: &mut Rng| {
                    s.initial = rng.dyadic();
                    b.initial_value(s.initial);
                }
            ),
            Kind::Summary => go!(
                common.summary(&name, spec.window),
                Any::S,
                |b: &mut SummaryBuilder, s: &mut Spec, rng: &mut Rng| {
                    let q = (1 + s.quantiles.len()) as f64 / 64.0;
                    let _ = rng;
                    s.quantiles.push(q);
                    b.quantile(q);
                }
            ),
            Kind::Histogram => go!(
                common.histogram(&name),
                Any::H,
                |b: &mut HistogramBuilder, s: &mut Spec, rng: &mut Rng| {
                    let x = rng.dyadic();
                    s.bounds.push(x);
                    b.bucket(x);
                }
            ),
        }
        for (m, s, _, total) in &made {
            let want: Vec<(String, String)> = s.label_map().into_iter().collect();
            ensure!(
                m.name() == s.full_name() && label_vec(m.labels()) == want && same(m.total(), *total),
                "{} has changed to {} by finishing its builder again: {}",
                s.full_name(),
                m.text(),
                trace
            );
        }
        // each is in exactly the registries set when it was built
        for (i, g) in gs.iter_mut().enumerate() {
            let mut want: BTreeMap<(String, BTreeMap<String, String>), f64> = BTreeMap::new();
            for (_, s, r, total) in &made {
                if r.contains(&i) {
                    *want.entry((s.full_name(), s.label_map())).or_insert(0.0) += total;
                }
            }
            let mut got = BTreeMap::new();
            for f in gather(g)? {
                ensure!(f.kind == kind, "kind {:?}", f.kind);
                for a in f.metrics {
                    got.insert((f.name.clone(), a.map()), a.num());
                }
            }
            ensure!(got == want, "gatherer {} contains {:?} instead of {:?} after {}", i, got, want, trace);
        }
        case.count("metrics_built", made.len() as u64);
        if !made.is_empty() {
            note!(case, trace);
        }
        Ok(())
    });
    run.cases("many", 300, 6_000, |case| {
        // any number of common labels and registries
        let rng = &mut case.rng;
        let n = rng.big(1, 400).unwrap_or(6) as usize;
        let k = rng.range(0, n as u64) as usize;
        let mut gs: Vec<Gatherer> = (0..n).map(|_| Gatherer::new()).collect();
        let mut b = MetricBuilder::without_registry();
        let replaced = rng.chance(1, 3);
        if replaced {
            // (registries and labels that are replaced later)
            let other = Gatherer::new();
            for _ in 0..rng.range(1, 3) {
                b.registry(other.registry());
            }
            b.label("l0", "x");
        }
        b.set_registry(gs[0].registry());
        let mut order: Vec<usize> = (0..k).collect();
        rng.shuffle(&mut order);
        for i in &order {
            b.label(&format!("l{}", i), &i.to_string());
        }
        for g in &gs[1..] {
            b.registry(g.registry());
        }
        let b2 = b.clone();
        let from = if rng.chance(1, 2) { &b } else { &b2 };
        let kind = *rng.pick(&KINDS);
        let spec = Spec::new(kind, "m");
        let m = finish(from, &spec, &spec, &[])?;
        let mut want: Vec<(String, String)> = order.iter().map(|i| (format!("l{}", i), i.to_string())).collect();
        if k == 0 && replaced {
            want.push(("l0".into(), "x".into()));
        }
        want.sort();
        ensure!(label_vec(m.labels()) == want, "{} labels instead of {}", m.labels().len(), want.len());
        m.feed(3.0);
        for (i, g) in gs.iter_mut().enumerate() {
            let f = gather(g)?;
            ensure!(
                f.len() == 1 && f[0].metrics.len() == 1 && f[0].metrics[0].num() == 3.0 && f[0].metrics[0].labels == want,
                "gatherer {} of {} contains {}",
                i,
                n,
                show(&f)
            );
        }
        case.count("metrics_built", 1);
        note!(case, format!("{:?} {} {}", kind, n, k));
        Ok(())
    });
    run.cases("summary-window", 2000, 40_000, |case| {
        // the window given to the common builder is the summary's
        let rng = &mut case.rng;
        if !cfg!(all(feature = "plain", not(miri))) {
            return Ok(());
        }
        crate::vclock::set_virtual(1 << 40, 1_600_000_000, 0);
        let ms = rng.range(1, 10_000_000);
        let window = std::time::Duration::from_millis(ms);
        let mut b = MetricBuilder::without_registry();
        b.label("a", "b");
        let s = b.summary("s", window).quantile(0.5).finish().must("finish")?;
        s.observe(3.0);
        crate::vclock::advance(ms as i64 * 1_000_000 - 1);
        ensure!(
            s.quantiles().len() == 1,
            "the observation is gone before the window of {} ms has passed",
            ms
        );
        crate::vclock::advance(1_000_000);
        ensure!(
            s.quantiles().is_empty(),
            "the observation is there after the window of {} ms has passed",
            ms
        );
        note!(case, format!("window {} ms", ms));
        Ok(())
    });
    run.cases("invalid", 1000, 20_000, |case| {
        // settings are validated when building a metric, and the builder stays usable
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let mut b = MetricBuilder::with_registry(g.registry());
        let bad = *rng.pick(&["0", "a-b", "", "é", "a b"]);
        let what = rng.below(3);
        match what {
            0 => b.namespace(bad),
            1 => b.subsystem(bad),
            _ => b.label(bad, "v"),
        };
        invalid(b.counter("m").finish(), "a counter with a bad common setting")?;
        invalid(b.gauge("m").finish(), "a gauge with a bad common setting")?;
        invalid(b.histogram("m").finish(), "a histogram with a bad common setting")?;
        invalid(
            b.summary("m", std::time::Duration::from_secs(1)).finish(),
            "a summary with a bad common setting",
        )?;
        ensure!(gather(&mut g)?.is_empty(), "a failed build was registered");
        if what == 0 {
            b.namespace("n");
        } else if what == 1 {
            b.subsystem("n");
        }
        if what < 2 {
            let c = b.counter("m").finish().must("finish")?;
            ensure!(c.metric_name().to_string() == "n_m", "{}", c.metric_name());
            ensure!(gather(&mut g)?.len() == 1, "not registered");
        }
        note!(case, format!("{:?} as {}", bad, what));
        Ok(())
    });
}

fn run_id() -> u32 {
    std::process::id()
}

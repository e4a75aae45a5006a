//! C14, C15 and C16: collectors, registries, lifetimes.

use crate::alloc;
use crate::core::*;
use crate::model::*;
use crate::rng::*;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Act {
    /// Returns this many metrics.
    Metrics(usize),
    Leave,
    Panic,
    /// Panics while its iterator is consumed (after some metrics).
    PanicLate(usize),
    /// Registers further collectors (by their index in the plan), then returns metrics.
    Register(Vec<usize>, usize),
    RegisterAndLeave(Vec<usize>),
}

#[derive(Default)]
struct Log {
    polls: Vec<usize>,
    dropped: HashSet<usize>,
    registered: Vec<usize>,
}

struct Scripted {
    id: usize,
    script: Vec<Act>,
    at: usize,
    plan: Arc<Vec<Vec<Act>>>,
    log: Arc<Mutex<Log>>,
    registry: Registry,
}
fn metric(id: usize, k: usize) -> Metric {
    let Ok(Any::G(g)) = Spec::new(Kind::Gauge, "g")
        .label("id", &id.to_string())
        .label("k", &k.to_string())
        .build(&[])
    else {
        panic!("cannot build a gauge")
    };
    g.set(1.0);
    g.into()
}
impl Scripted {
    fn new(id: usize, plan: &Arc<Vec<Vec<Act>>>, log: &Arc<Mutex<Log>>, registry: &Registry) -> Self {
        Scripted {
            id,
            script: plan[id].clone(),
            at: 0,
            plan: plan.clone(),
            log: log.clone(),
            registry: registry.clone(),
        }
    }
    fn metrics(&self, n: usize, panic_at: Option<usize>) -> Box<dyn Iterator<Item = Metric>> {
        let id = self.id;
        Box::new((0..n + usize::from(panic_at.is_some())).map(move |k| {
            if Some(k) == panic_at {
                resume_unwind(Box::new(Expected));
            }
            metric(id, k)
        }))
    }
    fn register(&self, ids: &[usize]) {
        for &i in ids {
            self.log.lock().unwrap().registered.push(i);
            self.registry
                .register(Scripted::new(i, &self.plan, &self.log, &self.registry));
        }
    }
}
impl Drop for Scripted {
    fn drop(&mut self) {
        self.log
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .dropped
            .insert(self.id);
    }
}
impl Collect for Scripted {
    type Metrics = Box<dyn Iterator<Item = Metric>>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.log.lock().unwrap().polls.push(self.id);
        let act = self.script.get(self.at).cloned().unwrap_or(Act::Metrics(1));
        self.at += 1;
        match act {
            Act::Metrics(n) => Some(self.metrics(n, None)),
            Act::Leave => None,
            Act::Panic => resume_unwind(Box::new(Expected)),
            Act::PanicLate(k) => Some(self.metrics(k, Some(k))),
            Act::Register(ids, n) => {
                self.register(&ids);
                Some(self.metrics(n, None))
            }
            Act::RegisterAndLeave(ids) => {
                self.register(&ids);
                None
            }
        }
    }
}

pub fn c14(run: &mut Run) {
    run.cases("scripted-collectors", 15_000, 300_000, |case| {
        let rng = &mut case.rng;
        let panics = rng.chance(1, 3);
        let leavers = rng.range(1, 8);
        let roots = match rng.below(8) {
            0 => sz(rng.range(30, 200), 6) as usize,
            _ if cfg!(miri) => 3,
            1 => 1,
            _ => rng.range(2, 9) as usize,
        };
        let total = roots + if rng.chance(1, 2) { rng.below(8) as usize } else { 0 };
        let rounds = rng.range(1, 7) as usize;
        let mut spare: Vec<usize> = (roots..total).collect();
        let same_round = rng.chance(1, 3).then(|| rng.us(rounds));
        let plan: Vec<Vec<Act>> = (0..total)
            .map(|_| {
                (0..rounds)
                    .map(|r| {
                        if same_round == Some(r) && rng.chance(2, 3) {
                            return Act::Leave; // many leave at the same gather
                        }
                        match rng.below(10) {
                            0 if rng.below(8) < leavers => Act::Leave,
                            1 if panics => Act::Panic,
                            2 if panics => Act::PanicLate(rng.us(3)),
                            3 if !spare.is_empty() => {
                                let k = rng.us(spare.len()) + 1;
                                Act::Register(spare.drain(..k).collect(), rng.us(3))
                            }
                            4 if !spare.is_empty() => Act::RegisterAndLeave(spare.drain(..1).collect()),
                            5 => Act::Metrics(0),
                            6 => Act::Metrics(rng.big(100, 4000).unwrap_or(rng.range(2, 5)) as usize),
                            _ => Act::Metrics(1),
                        }
                    })
                    .collect()
            })
            .collect();
        let plan = Arc::new(plan);
        let log = Arc::new(Mutex::new(Log::default()));
        let mut g = Gatherer::new();
        let reg = g.registry();
        let mut active: BTreeMap<usize, usize> = BTreeMap::new(); // id -> polls so far
        for i in 0..roots {
            reg.register(Scripted::new(i, &plan, &log, &g.registry()));
            active.insert(i, 0);
        }
        let mut panicked = 0;
        let (mut polls, mut left) = (0u64, 0u64);
        for _ in 0..rounds + 1 {
            {
                let mut l = log.lock().unwrap();
                l.polls.clear();
                l.registered.clear();
            }
            let before: BTreeMap<usize, usize> = active.clone();
            let r = catch_unwind(AssertUnwindSafe(|| gather(&mut g)));
            let (asked, registered, dropped) = {
                let l = log.lock().unwrap();
                (l.polls.clone(), l.registered.clone(), l.dropped.clone())
            };
            polls += asked.len() as u64;
            let mut count: HashMap<usize, usize> = HashMap::new();
            for i in &asked {
                *count.entry(*i).or_insert(0) += 1;
            }
            for (i, n) in &count {
                ensure!(
                    *n == 1,
                    "collector {} was asked {} times in one gather ({:?})",
                    i,
                    n,
                    show(&plan)
                );
                ensure!(
                    before.contains_key(i) || registered.contains(i),
                    "collector {} was asked although it had returned None ({:?})",
                    i,
                    show(&plan)
                );
            }
            // what each asked collector did
            let mut want: BTreeSet<(usize, usize)> = BTreeSet::new();
            for i in &registered {
                active.entry(*i).or_insert(0);
            }
            let mut gone = Vec::new();
            let mut panic_expected = false;
            for i in &asked {
                let at = active[i];
                active.insert(*i, at + 1);
                match plan[*i].get(at).cloned().unwrap_or(Act::Metrics(1)) {
                    Act::Metrics(n) | Act::Register(_, n) => want.extend((0..n).map(|k| (*i, k))),
                    Act::Leave | Act::RegisterAndLeave(_) => gone.push(*i),
                    Act::Panic | Act::PanicLate(_) => panic_expected = true,
                }
            }
            match r {
                Ok(r) => {
                    ensure!(!panic_expected, "the panic of a collector was swallowed");
                    for i in before.keys() {
                        ensure!(
                            count.contains_key(i),
                            "collector {} was not asked ({:?})",
                            i,
                            show(&plan)
                        );
                    }
                    let got: BTreeSet<(usize, usize)> = r?
                        .iter()
                        .flat_map(|f| f.metrics.iter())
                        .map(|m| {
                            let x = m.map();
                            ensure!(m.num() == 1.0, "a metric was included {} times", m.num());
                            Ok((x["id"].parse().unwrap(), x["k"].parse().unwrap()))
                        })
                        .collect::<R<_>>()?;
                    ensure!(
                        got == want,
                        "the result contains {:?} instead of {:?}",
                        show(&got),
                        show(&want)
                    );
                }
                Err(p) => {
                    ensure!(p.is::<Expected>(), "gathering panicked: {}", take_panics());
                    ensure!(panic_expected, "a panic without a panicking collector");
                    panicked += 1;
                }
            }
            for i in gone {
                active.remove(&i);
                left += 1;
                ensure!(
                    dropped.contains(&i),
                    "collector {} was not released after it had returned None",
                    i
                );
            }
            for i in active.keys() {
                ensure!(
                    !dropped.contains(i),
                    "collector {} was released although it had not returned None ({:?})",
                    i,
                    show(&plan)
                );
            }
        }
        drop(g);
        // registering with a registry whose gatherer is gone
        for i in 0..roots.min(3) {
            reg.register(Scripted::new(i, &plan, &log, &reg));
        }
        let c = Spec::new(Kind::Counter, "late").must(&[&reg])?;
        c.feed(2.0);
        ensure!(
            c.total() == 2.0,
            "a counter registered with a dead gatherer is {}",
            c.total()
        );
        drop(reg);
        case.count("polls", polls);
        case.count("collectors_left", left);
        case.count("panicked_gathers", panicked);
        note!(case, format!("{} roots {} rounds {:?}", roots, rounds, show(&plan)));
        Ok(())
    });
    run.cases("late-registrations-in-order", 2_000, 40_000, |case| {
        // collectors registered between gathers while others come and go
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let reg = g.registry();
        let log = Arc::new(Mutex::new(Log::default()));
        let n = rng.range(1, sz(60, 8)) as usize;
        let plan: Arc<Vec<Vec<Act>>> = Arc::new(
            (0..n)
                .map(|_| {
                    let life = rng.us(5);
                    (0..life)
                        .map(|_| Act::Metrics(1))
                        .chain(rng.chance(2, 3).then_some(Act::Leave))
                        .collect()
                })
                .collect(),
        );
        let mut next = 0;
        let mut age: BTreeMap<usize, usize> = BTreeMap::new();
        let mut gathers = 0u64;
        while next < n || gathers < 3 {
            for _ in 0..rng.below(6) {
                if next < n {
                    reg.clone().register(Scripted::new(next, &plan, &log, &reg));
                    age.insert(next, 0);
                    next += 1;
                }
            }
            log.lock().unwrap().polls.clear();
            let f = gather(&mut g)?;
            gathers += 1;
            let mut asked = log.lock().unwrap().polls.clone();
            asked.sort();
            ensure!(
                asked == age.keys().cloned().collect::<Vec<_>>(),
                "asked {:?} instead of {:?}",
                asked,
                age.keys()
            );
            let mut want = BTreeSet::new();
            for i in asked {
                let a = age[&i];
                if matches!(plan[i].get(a), Some(Act::Leave)) {
                    age.remove(&i);
                } else {
                    age.insert(i, a + 1);
                    want.insert(i);
                }
            }
            let got: BTreeSet<usize> = f
                .iter()
                .flat_map(|f| f.metrics.iter())
                .map(|m| m.map()["id"].parse().unwrap())
                .collect();
            ensure!(got == want, "the result contains {:?} instead of {:?}", got, want);
        }
        case.count("gathers", gathers);
        note!(case, format!("{:?}", show(&plan)));
        Ok(())
    });
}

pub fn c15(run: &mut Run) {
    run.cases("registrations-and-gathers", 400, 8000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(1, sz(6, 2)) as usize;
        let per = rng.range(1, sz(80, 4)) as usize;
        let mut g = Gatherer::new();
        let reg = g.registry();
        // a registration: id, call, return
        type Reg = (usize, u64, u64);
        let live = AtomicU64::new(threads as u64);
        let seed = rng.next();
        let jitter = *rng.pick(&[0, 100, 2000]);
        let kind = *rng.pick(&KINDS);
        let gathers: Mutex<Vec<(u64, u64, BTreeMap<usize, f64>)>> = Mutex::new(Vec::new());
        let gm = Mutex::new(&mut g);
        let early = rng.below(5) as usize;
        let mut keep = Vec::new();
        let name = |id: usize| format!("m{}", id);
        for i in 0..early {
            let m = Spec::new(kind, &name(1_000_000 + i)).enriched(rng, true).must(&[&reg])?;
            m.feed(1.0);
            keep.push(m);
        }
        let regs = par(threads + 1, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let mut out: Vec<(Any, Reg)> = Vec::new();
            if t < threads {
                let reg = reg.clone();
                for k in 0..per {
                    let id = t * per + k;
                    rng.spin(jitter);
                    let s = Spec::new(kind, &name(id)).enriched(&rng, true);
                    let m = if rng.chance(1, 2) {
                        // registered by the builder: it is complete when finish() returns
                        let call = tick();
                        let m = s.must(&[&reg.clone()])?;
                        (m, call, tick())
                    } else {
                        let m = s.must(&[])?;
                        let call = tick();
                        m.register(&reg);
                        (m, call, tick())
                    };
                    m.0.feed(1.0);
                    out.push((m.0, (id, m.1, m.2)));
                }
                live.fetch_sub(1, SeqCst);
                return Ok(out);
            }
            let mut g = gm.lock().unwrap();
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let call = tick();
                let fs = g.gather();
                let ret = tick();
                let f = fams(&fs);
                well_formed(&f)?;
                let mut m = BTreeMap::new();
                for f in &f {
                    ensure!(f.metrics.len() == 1, "{} metrics in {}", f.metrics.len(), f.name);
                    m.insert(
                        f.name[1..].parse::<usize>().map_err(|_| f.name.clone())?,
                        f.metrics[0].num(),
                    );
                }
                gathers.lock().unwrap().push((call, ret, m));
                if done {
                    return Ok(out);
                }
            }
        })?
        .concat();
        drop(gm);
        let gathers = gathers.into_inner().unwrap();
        let mut races = 0u64;
        for (gc, gr, m) in &gathers {
            for i in 0..early {
                ensure!(m.contains_key(&(1_000_000 + i)), "an earlier registration is missing");
            }
            for (_, (id, call, ret)) in &regs {
                let included = m.contains_key(id);
                races += u64::from(call < gr && gc < ret);
                ensure!(
                    included || ret > gc,
                    "metric {} is missing in a gather that began (at {}) after its registration had returned (at {})",
                    id,
                    gc,
                    ret
                );
                ensure!(
                    !included || call < gr,
                    "metric {} is in a gather that ended before its registration",
                    id
                );
                if included && kind != Kind::Gauge {
                    ensure!(m[id] <= 1.0, "metric {} is included more than once ({})", id, m[id]);
                }
            }
        }
        // once included, always included
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        for (_, _, m) in &gathers {
            let now: BTreeSet<usize> = m.keys().cloned().collect();
            ensure!(
                seen.is_subset(&now),
                "the metrics {:?} have vanished",
                seen.difference(&now).take(4).collect::<Vec<_>>()
            );
            seen = now;
        }
        let f = gather(&mut g)?;
        ensure!(
            f.len() == threads * per + early,
            "{} metrics in the end instead of {}",
            f.len(),
            threads * per + early
        );
        for f in &f {
            ensure!(
                f.metrics[0].num() == 1.0,
                "{} is included {} times",
                f.name,
                f.metrics[0].num()
            );
        }
        drop((keep, regs));
        case.count("registrations", (threads * per) as u64);
        case.count("gathers", gathers.len() as u64);
        case.count("registrations_overlapping_a_gather", races);
        note!(
            case,
            format!(
                "{} threads x {} {:?} {} gathers {} overlaps",
                threads,
                per,
                kind,
                gathers.len(),
                races
            )
        );
        Ok(())
    });
    run.cases("isolated-gatherers", 8_000, 150_000, |case| {
        let rng = &mut case.rng;
        let n = rng.range(2, 6) as usize;
        let mut gs: Vec<Gatherer> = (0..n).map(|_| Gatherer::new()).collect();
        let regs: Vec<Registry> = gs.iter().map(|g| g.registry()).collect();
        let mut ms: Vec<(Any, BTreeSet<usize>)> = Vec::new();
        let mut total = 0;
        for _ in 0..rng.range(1, 4) {
            for _ in 0..rng.below(6) {
                let to: BTreeSet<usize> = (0..n).filter(|_| rng.chance(1, 2)).collect();
                let mut order: Vec<&Registry> = to.iter().map(|i| &regs[*i]).collect();
                rng.shuffle(&mut order);
                let s = Spec::new(*rng.pick(&KINDS), &format!("m{}", ms.len())).enriched(rng, true);
                let m = s.must(&order)?;
                m.feed(1.0);
                ms.push((m, to));
            }
            if !ms.is_empty() && rng.chance(1, 3) {
                let (i, k) = (rng.us(ms.len()), rng.us(n));
                if ms[i].1.insert(k) {
                    ms[i].0.register(&regs[k].clone());
                }
            }
            for (k, g) in gs.iter_mut().enumerate() {
                if rng.chance(1, 4) {
                    continue;
                }
                let got: BTreeSet<String> = gather(g)?.iter().map(|f| f.name.clone()).collect();
                let want: BTreeSet<String> = ms
                    .iter()
                    .enumerate()
                    .filter(|m| m.1 .1.contains(&k))
                    .map(|m| format!("m{}", m.0))
                    .collect();
                ensure!(got == want, "gatherer {} contains {:?} instead of {:?}", k, got, want);
                total += 1;
            }
        }
        case.count("gathers", total);
        note!(
            case,
            format!("{} gatherers {:?}", n, ms.iter().map(|m| &m.1).collect::<Vec<_>>())
        );
        Ok(())
    });
    if cfg!(all(feature = "plain", not(miri))) {
        run.cases("default-registry-in-fresh-processes", 64, 1500, |case| {
            let out = child(&["child", "default-registry", &case.rng.next().to_string()])?;
            case.count("processes", 1);
            note!(case, out);
            Ok(())
        });
    }
}

/// Runs this program again; its last line of output is returned.
pub fn child(args: &[&str]) -> R<String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    BLOCKED_ON_CHILD.store(true, SeqCst);
    let o = std::process::Command::new(exe).args(args).output();
    BLOCKED_ON_CHILD.store(false, SeqCst);
    let o = o.map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&o.stdout).trim().to_string();
    let err = String::from_utf8_lossy(&o.stderr);
    let err: String = err
        .chars()
        .rev()
        .take(500)
        .collect::<Vec<_>>()
        .into_iter()
        .rev()
        .collect();
    if o.status.success() {
        Ok(text)
    } else if o.status.code() == Some(1) {
        Err(text)
    } else {
        Err(format!(
            "a process running {:?} ended with {:?}: {} {}",
            args, o.status, text, err
        ))
    }
}

/// In a fresh process: the default registry from many threads, before and after a panic.
pub fn default_registry_child(seed: u64) -> R<String> {
    let rng = Rng::new(seed);
    let threads = rng.range(1, 8) as usize;
    let poison_first = rng.chance(1, 4);
    let lock = || default_gatherer().lock().unwrap_or_else(|e| e.into_inner());
    let poison = |by_collector: bool| -> R {
        struct Bad(Arc<AtomicBool>);
        impl Collect for Bad {
            type Metrics = std::vec::IntoIter<Metric>;
            fn collect(&mut self) -> Option<Self::Metrics> {
                if self.0.swap(false, SeqCst) {
                    resume_unwind(Box::new(Expected));
                }
                None
            }
        }
        let h = std::thread::spawn(move || {
            if by_collector {
                default_registry().register(Bad(Arc::new(AtomicBool::new(true))));
                let _ = default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).gather();
            } else {
                let _g = default_gatherer().lock().unwrap_or_else(|e| e.into_inner());
                resume_unwind(Box::new(Expected));
            }
        });
        ensure!(h.join().is_err(), "the panic was swallowed");
        ensure!(default_gatherer().lock().is_err(), "the lock is not poisoned");
        Ok(())
    };
    if poison_first {
        poison(false)?;
    }
    let mut keep = Vec::new();
    let mut expected = 0;
    let early = if rng.chance(1, 2) {
        Some(default_registry())
    } else {
        None
    };
    for round in 0..2 {
        let way = rng.next();
        let ms = par(threads, |t| {
            let rng = Rng::new(way ^ t as u64);
            let name = format!("r{}t{}", round, t);
            // the default registry is obtained in every way the library offers
            let unwinding = rng.chance(1, 4);
            let build = || Ok(match rng.below(7) {
                0 => Any::C(CounterBuilder::new(&name).default_registry().finish().must("build")?),
                1 => Any::G(GaugeBuilder::new(&name).default_registry().finish().must("build")?),
                2 => Any::S(
                    SummaryBuilder::new(&name, std::time::Duration::from_secs(9))
                        .default_registry()
                        .finish()
                        .must("build")?,
                ),
                3 => Any::H(HistogramBuilder::new(&name).default_registry().finish().must("build")?),
                4 => Any::C(MetricBuilder::new().counter(&name).finish().must("build")?),
                5 => Any::G(MetricBuilder::default().gauge(&name).finish().must("build")?),
                _ => {
                    let m = Spec::new(Kind::Counter, &name).must(&[])?;
                    match &early {
                        Some(r) if rng.chance(1, 2) => m.register(&r.clone()),
                        _ => m.register(&default_registry()),
                    }
                    m
                }
            });
            if unwinding {
                while_unwinding(build)
            } else {
                build()
            }
        })?;
        for m in &ms {
            m.feed(1.0);
        }
        expected += ms.len();
        keep.extend(ms);
        let f = gather(&mut lock())?;
        ensure!(
            f.len() == expected,
            "the default gatherer has {} metrics instead of {} in round {}",
            f.len(),
            expected,
            round
        );
        for f in &f {
            ensure!(f.metrics.len() == 1 && f.metrics[0].num() == 1.0, "{:?}", f);
        }
        if round == 0 {
            poison(rng.chance(1, 2))?;
            let f = gather(&mut lock())?;
            ensure!(
                f.len() == expected,
                "the default gatherer has {} metrics instead of {} after a panic",
                f.len(),
                expected
            );
        }
    }
    // it is isolated from others
    let mut other = Gatherer::new();
    ensure!(gather(&mut other)?.is_empty(), "another gatherer is not empty");
    drop(keep);
    ensure!(gather(&mut lock())?.is_empty(), "dropped metrics are still gathered");
    Ok(format!(
        "{} threads, poisoned first {}, way {:x}",
        threads, poison_first, seed
    ))
}

pub fn c16(run: &mut Run) {
    run.cases("lifetimes", 12_000, 250_000, |case| {
        let rng = &mut case.rng;
        let n = rng.range(1, 3) as usize;
        let mut gs: Vec<Gatherer> = (0..n).map(|_| Gatherer::new()).collect();
        struct M {
            handles: Vec<Any>,
            regs: BTreeSet<usize>,
            /// gathers whose (kept) result mentions it
            results: BTreeSet<usize>,
        }
        let mut ms: Vec<M> = Vec::new();
        let mut results: BTreeMap<usize, prometrics::metric::MetricFamilies> = BTreeMap::new();
        let (mut gathers, mut vanished) = (0usize, 0u64);
        let mut trace = String::new();
        let big = rng.chance(1, 20);
        for _ in 0..rng.range(4, sz(if big { 300 } else { 50 }, 14)) {
            match rng.below(8) {
                0 | 1 => {
                    let regs: BTreeSet<usize> = (0..n).filter(|_| rng.chance(2, 3)).collect();
                    let s = Spec::new(*rng.pick(&KINDS), &format!("m{}", ms.len())).enriched(rng, true);
                    let r: Vec<Registry> = regs.iter().map(|i| gs[*i].registry()).collect();
                    let m = s.must(&r.iter().collect::<Vec<_>>())?;
                    trace += &format!("m{}->{:?} ", ms.len(), regs);
                    ms.push(M {
                        handles: vec![m],
                        regs,
                        results: BTreeSet::new(),
                    });
                }
                2 => {
                    if let Some(m) = pick_mut(rng, &mut ms) {
                        if let Some(h) = m.handles.first().cloned() {
                            // clones may be of any form
                            m.handles.push(h);
                        }
                    }
                }
                3 | 4 => {
                    if !ms.is_empty() {
                        let i = rng.us(ms.len());
                        if !ms[i].handles.is_empty() {
                            let k = rng.us(ms[i].handles.len());
                            let h = ms[i].handles.swap_remove(k);
                            if rng.chance(1, 20) {
                                std::thread::spawn(move || drop(h))
                                    .join()
                                    .map_err(|_| "drop panicked")?;
                            }
                            trace += &format!("drop(m{}) ", i);
                        }
                    }
                }
                5 => {
                    let ks: Vec<usize> = results.keys().cloned().collect();
                    if !ks.is_empty() {
                        let k = *rng.pick(&ks);
                        results.remove(&k);
                        for m in &mut ms {
                            m.results.remove(&k);
                        }
                        trace += "drop(result) ";
                    }
                }
                _ => {
                    let k = rng.us(n);
                    let r = gs[k].gather();
                    gathers += 1;
                    trace += &format!("gather({}) ", k);
                    let got: BTreeSet<String> = fams(&r).iter().map(|f| f.name.clone()).collect();
                    for (i, m) in ms.iter_mut().enumerate() {
                        let inside = got.contains(&format!("m{}", i));
                        let alive = !m.handles.is_empty() || !m.results.is_empty();
                        if !m.regs.contains(&k) {
                            ensure!(!inside, "m{} was never registered here: {}", i, trace);
                        } else if alive {
                            ensure!(inside, "m{} is missing although it is alive: {}", i, trace);
                        } else {
                            ensure!(!inside, "m{} is included although all handles are gone: {}", i, trace);
                            vanished += 1;
                        }
                        // an entry of a gatherer that saw it dead is gone for good (and it cannot revive)
                    }
                    if rng.chance(1, 3) {
                        for (i, m) in ms.iter_mut().enumerate() {
                            if got.contains(&format!("m{}", i)) {
                                m.results.insert(gathers);
                            }
                        }
                        results.insert(gathers, r);
                    }
                }
            }
        }
        case.count("gathers", gathers as u64);
        case.count("vanished_metric_checks", vanished);
        if gathers > 0 {
            note!(case, trace);
        }
        Ok(())
    });
    if cfg!(all(feature = "plain", not(miri))) {
        run.cases("retained-memory", 160, 3000, |case| {
            let rng = &mut case.rng;
            let mut g = Gatherer::new();
            let r = g.registry();
            let n = rng.range(1, 300) as usize;
            let payload = "x".repeat(2000);
            let kinds = if rng.chance(1, 2) {
                KINDS.to_vec()
            } else {
                vec![*rng.pick(&KINDS)]
            };
            let survivors: Vec<Any> = (0..rng.below(4))
                .map(|i| Spec::new(Kind::Gauge, &format!("keep{}", i)).must(&[&r]))
                .collect::<R<_>>()?;
            drop(g.gather());
            let gather_while_alive = rng.chance(2, 3);
            let cycles = rng.range(1, 4);
            alloc::start();
            for cycle in 0..cycles {
                let mut ms = Vec::new();
                for i in 0..n {
                    let mut s = Spec::new(kinds[i % kinds.len()], &format!("m{}", i)).label("l", &payload);
                    s.help = Some(payload.clone());
                    ms.push(s.must(&[&r])?);
                }
                if gather_while_alive {
                    let f = g.gather();
                    ensure!(
                        f.as_ref().len() == n + survivors.len(),
                        "{} families instead of {}",
                        f.as_ref().len(),
                        n + survivors.len()
                    );
                }
                if rng.chance(1, 2) {
                    rng.shuffle(&mut ms);
                }
                drop(ms);
                let f = g.gather();
                ensure!(
                    f.as_ref().len() == survivors.len(),
                    "{} families instead of {}",
                    f.as_ref().len(),
                    survivors.len()
                );
                drop(f);
                let live = alloc::live();
                // (the capacity of the list of collectors may stay; a metric holds at least 4000 bytes)
                let limit = 6000 + 128 * n as i64;
                ensure!(
                    live <= limit,
                    "{} bytes are retained for {} dropped metrics after {} cycles",
                    live,
                    n,
                    cycle + 1
                );
                case.counts.push(("bytes_retained_max", 0));
            }
            let live = alloc::stop();
            case.count("metrics", n as u64 * cycles);
            note!(
                case,
                format!(
                    "{} metrics x {} cycles, {} survivors, {} bytes retained",
                    n,
                    cycles,
                    survivors.len(),
                    live
                )
            );
            Ok(())
        });
    }
    run.cases("concurrent-drops", 300, 6000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(1, sz(5, 2)) as usize;
        let per = rng.range(1, sz(60, 4)) as usize;
        let mut g = Gatherer::new();
        let reg = g.registry();
        let kind = *rng.pick(&KINDS);
        let live = AtomicU64::new(threads as u64);
        let seed = rng.next();
        let gathers: Mutex<Vec<(u64, u64, BTreeSet<usize>)>> = Mutex::new(Vec::new());
        let gm = Mutex::new(&mut g);
        // id, registered, drop call, drop return
        let events = par(threads + 1, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let mut out: Vec<(usize, u64, u64, u64)> = Vec::new();
            if t < threads {
                let mut held: Vec<(usize, Vec<Any>, u64)> = Vec::new();
                for k in 0..per {
                    let id = t * per + k;
                    let m = Spec::new(kind, &format!("m{}", id)).enriched(&rng, true).must(&[&reg.clone()])?;
                    let r = tick();
                    let mut hs = vec![m];
                    for _ in 0..rng.below(3) {
                        hs.push(hs[0].clone());
                    }
                    held.push((id, hs, r));
                    rng.spin(500);
                    while held.len() > rng.us(6) {
                        let i = rng.us(held.len());
                        let (id, hs, r) = held.swap_remove(i);
                        let call = tick();
                        drop(hs);
                        out.push((id, r, call, tick()));
                    }
                }
                for (id, hs, r) in held {
                    let call = tick();
                    drop(hs);
                    out.push((id, r, call, tick()));
                }
                live.fetch_sub(1, SeqCst);
                return Ok(out);
            }
            let mut g = gm.lock().unwrap();
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let done = live.load(SeqCst) == 0;
                let call = tick();
                let fs = g.gather();
                let names: BTreeSet<usize> = fs
                    .as_ref()
                    .iter()
                    .map(|f| f.name().name()[1..].parse().unwrap_or(usize::MAX))
                    .collect();
                let text = fs.to_text();
                ensure!(names.is_empty() == text.is_empty(), "text {:?}", text);
                drop(fs);
                gathers.lock().unwrap().push((call, tick(), names));
                if done {
                    return Ok(out);
                }
            }
        })?
        .concat();
        drop(gm);
        let gathers = gathers.into_inner().unwrap();
        let (mut inside, mut outside) = (0u64, 0u64);
        for (gc, gr, names) in &gathers {
            for (id, registered, dc, dr) in &events {
                if registered < gc && dc > gr {
                    ensure!(
                        names.contains(id),
                        "m{} was alive during a whole gather but is missing",
                        id
                    );
                    inside += 1;
                }
                if dr < gc {
                    ensure!(
                        !names.contains(id),
                        "m{} is in a gather that began after its last handle was dropped",
                        id
                    );
                    outside += 1;
                }
            }
        }
        let f = gather(&mut g)?;
        ensure!(f.is_empty(), "{} metrics are left in the end", f.len());
        case.count("gathers", gathers.len() as u64);
        case.count("alive_checks", inside);
        case.count("gone_checks", outside);
        note!(
            case,
            format!(
                "{}x{} {:?} {} gathers {} {}",
                threads,
                per,
                kind,
                gathers.len(),
                inside,
                outside
            )
        );
        Ok(())
    });
}

fn pick_mut<'a, T>(rng: &mut Rng, v: &'a mut [T]) -> Option<&'a mut T> {
    if v.is_empty() {
        None
    } else {
        let i = rng.us(v.len());
        v.get_mut(i)
    }
}

//! C17, C18, C19 and C20: names and labels.

use crate::core::*;
use crate::lin::{self, Ev};
use crate::model::*;
use crate::promtext::{self, is_label_name, is_metric_name};
use crate::rng::*;
use prometrics::label::Label;
use prometrics::metrics::MetricBuilder;
use prometrics::Gatherer;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

fn label_ok(name: &str, kind: Option<Kind>) -> bool {
    is_label_name(name) && !name.starts_with("__") && kind.map_or(true, |k| k.reserved() != Some(name))
}

const ALPHABET: &[&str] = &[
    "a", "z", "A", "Z", "m", "_", ":", "0", "9", "-", ".", " ", "{", "}", "\"", "\\", "\n", "\0", "\u{7f}", "\u{80}",
    "é", "Ã", "ä", "ª", "ſ", "K", "٣", "Ａ", "ａ", "０", "😀", "\u{301}", "@", "[", "`", "/", ";", ",", "=", "#", "\r",
    "\t", "＿", "：",
];

/// The position of a name in a metric.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pos {
    Name,
    Namespace,
    Subsystem,
    Label,
}

fn place(s: &mut Spec, pos: Pos, x: &str) {
    match pos {
        Pos::Name => s.name = x.into(),
        Pos::Namespace => s.namespace = Some(x.into()),
        Pos::Subsystem => s.subsystem = Some(x.into()),
        Pos::Label => s.labels.push((x.into(), "v".into())),
    }
}

/// Builds (directly and with the common builder) and checks the outcome and its effects.
fn check_build(s: &Spec, settings_ok: bool) -> R<bool> {
    let ok = settings_ok
        && is_metric_name(&s.name)
        && s.namespace.as_deref().map_or(true, is_metric_name)
        && s.subsystem.as_deref().map_or(true, is_metric_name)
        && s.labels.iter().all(|l| label_ok(&l.0, Some(s.kind)));
    for common in [false, true] {
        let mut g = Gatherer::new();
        let r = g.registry();
        // (it may be for several registries)
        let mut others: Vec<Gatherer> = (0..(s.name.len() * 7 + s.labels.len() * 3 + usize::from(common)) % 5)
            .map(|_| Gatherer::new())
            .collect();
        let built = if common {
            let mut b = MetricBuilder::with_registry(r.clone());
            for g in &others {
                b.registry(g.registry());
            }
            if let Some(ref x) = s.namespace {
                b.namespace(x);
            }
            if let Some(ref x) = s.subsystem {
                b.subsystem(x);
            }
            for (k, v) in &s.labels {
                b.label(k, v);
            }
            match s.kind {
                Kind::Counter => b.counter(&s.name).finish().map(Any::C),
                Kind::Gauge => b.gauge(&s.name).finish().map(Any::G),
                Kind::Summary => {
                    let mut b = b.summary(&s.name, s.window);
                    for q in &s.quantiles {
                        b.quantile(*q);
                    }
                    b.finish().map(Any::S)
                }
                Kind::Histogram => b
                    .histogram(&s.name)
                    .buckets(s.bounds.iter().cloned())
                    .finish()
                    .map(Any::H),
            }
        } else {
            let mut rs = vec![r];
            rs.extend(others.iter().map(|g| g.registry()));
            s.build(&rs.iter().collect::<Vec<_>>())
        };
        let fams = g.gather().into_vec();
        let others_len = others.len() + 1;
        for g in &mut others {
            let n = g.gather().into_vec().len();
            ensure!(
                n == usize::from(built.is_ok()),
                "{} families in another registry after building {:?} for {}",
                n,
                s,
                others_len
            );
        }
        if ok {
            let m = built.must(&format!("building {:?}", s))?;
            let full = s.full_name();
            ensure!(m.name() == full, "the name of {:?} is displayed as {:?}", s, m.name());
            let n = m.metric_name();
            ensure!(
                n.name() == s.name
                    && n.namespace() == s.namespace.as_deref()
                    && n.subsystem() == s.subsystem.as_deref(),
                "the parts of the name of {:?} are {:?}",
                s,
                n
            );
            ensure!(
                fams.len() == 1 && fams[0].name().to_string() == full,
                "{:?} was not registered: {:?}",
                s,
                show(&fams)
            );
            let sample = promtext::samples(&m.text())?;
            ensure!(
                sample.last().unwrap().name.starts_with(&full),
                "{:?} is shown as {:?}",
                s,
                m.text()
            );
        } else {
            invalid(built, &format!("building {:?}", s))?;
            ensure!(fams.is_empty(), "a failed build has registered {:?}", show(&fams));
        }
    }
    Ok(ok)
}

pub fn c17(run: &mut Run) {
    let short: Vec<String> = {
        let mut v = vec![String::new()];
        v.extend(ALPHABET.iter().map(|a| a.to_string()));
        for a in ALPHABET {
            for b in ALPHABET {
                v.push(format!("{}{}", a, b));
            }
        }
        for a in [
            "_",
            "a",
            "_a",
            "__",
            "a_",
            "le",
            "quantile",
            "___",
            "__a",
            "_le",
            "LE",
            "lE",
            "lee",
            "l",
            "Quantile",
            "quantiles",
            "a__",
            "a__b",
        ] {
            v.push(a.into());
            v.push(format!("{}_", a));
            v.push(format!("_{}", a));
        }
        v
    };
    let n = short.len() as u64 * 4;
    // every short string at every position (enumerated completely by the shards together)
    run.cases("short-names", n, n, |case| {
        let Some(x) = short.get((case.idx / 4) as usize) else {
            return Ok(());
        };
        let pos = [Pos::Name, Pos::Namespace, Pos::Subsystem, Pos::Label][(case.idx % 4) as usize];
        let (mut yes, mut no) = (0, 0);
        for kind in KINDS {
            let mut s = Spec::new(kind, "ok_name");
            if case.rng.chance(1, 2) {
                s.namespace = Some("n".into());
            }
            place(&mut s, pos, x);
            if check_build(&s, true)? {
                yes += 1;
            } else {
                no += 1;
            }
        }
        if pos == Pos::Label {
            let ok = label_ok(x, None);
            match Label::new(x, "v") {
                Ok(l) => ensure!(
                    ok && l.name() == x && l.value() == "v",
                    "Label::new({:?}) gives {:?}",
                    x,
                    l
                ),
                Err(e) => {
                    ensure!(!ok, "Label::new({:?}) was rejected", x);
                    ensure!(*e.kind() == prometrics::ErrorKind::InvalidInput, "kind {:?}", e.kind());
                }
            }
        }
        case.count("accepted", yes);
        case.count("rejected", no);
        note!(case, format!("{:?} {:?}", pos, x));
        Ok(())
    });
    run.cases("every-byte", 700, 20_000, |case| {
        // every character up to U+02BB, and random ones, first, in the middle and last
        let rng = &mut case.rng;
        let c = if case.idx < 700 {
            char::from_u32(case.idx as u32).unwrap()
        } else {
            rng.uchar()
        };
        for pos in [Pos::Name, Pos::Namespace, Pos::Subsystem, Pos::Label] {
            for x in [format!("{}b_1", c), format!("ab{}c", c), format!("ab_1{}", c)] {
                let mut s = Spec::new(*rng.pick(&KINDS), "n");
                place(&mut s, pos, &x);
                check_build(&s, true)?;
            }
        }
        note!(case, format!("{:?}", c));
        Ok(())
    });
    run.cases("combinations", 12_000, 250_000, |case| {
        let rng = &mut case.rng;
        let mut s = Spec::new(*rng.pick(&KINDS), "x");
        let bad = rng.chance(1, 2);
        let gen = |rng: &mut Rng, colon: bool| -> String {
            if bad && rng.chance(1, 5) {
                match rng.below(5) {
                    0 => String::new(),
                    1 => rng.ustring(5),
                    2 => format!("{}{}", rng.name(colon), rng.uchar()),
                    3 => format!("__{}", rng.name(false)),
                    _ => {
                        let long = rng.name(colon).repeat(rng.range(1, 30) as usize);
                        format!("{}{}{}", long, rng.pick(ALPHABET), long)
                    }
                }
            } else if rng.chance(1, 20) {
                rng.name(colon).repeat(30)
            } else {
                rng.name(colon)
            }
        };
        s.name = gen(rng, true);
        if rng.chance(1, 2) {
            s.namespace = Some(gen(rng, true));
        }
        if rng.chance(1, 2) {
            s.subsystem = Some(gen(rng, true));
        }
        for _ in 0..rng.below(5) {
            let k = match rng.below(14) {
                0 => "le".into(),
                1 => "quantile".into(),
                _ => gen(rng, false),
            };
            s.labels.push((k, rng.ustring(5)));
        }
        let mut settings = true;
        match s.kind {
            Kind::Histogram => {
                s.bounds = (0..rng.below(4))
                    .map(|_| rng.f64_any(bad && rng.chance(1, 3)))
                    .collect();
                settings = s.bounds.iter().all(|b| !b.is_nan());
            }
            Kind::Summary => {
                s.quantiles = (0..rng.below(4))
                    .map(|_| {
                        if bad && rng.chance(1, 6) {
                            rng.f64_any(true)
                        } else {
                            rng.unit()
                        }
                    })
                    .collect();
                settings = s.quantiles.iter().all(|q| (0.0..=1.0).contains(q));
            }
            _ => {}
        }
        let ok = check_build(&s, settings)?;
        case.count(if ok { "accepted" } else { "rejected" }, 1);
        note!(case, format!("{:?}", s));
        Ok(())
    });
    run.cases("later-labels", 15_000, 300_000, |case| {
        let rng = &mut case.rng;
        let kind = *rng.pick(&KINDS);
        let mut g = Gatherer::new();
        let mut m = Spec::new(kind, "m").label("a", "1").enriched(rng, false).must(&[&g.registry()])?;
        let mut n = m.clone();
        let mut want: BTreeMap<String, String> = [("a".to_string(), "1".to_string())].into();
        let mut trace = Vec::new();
        for _ in 0..rng.range(1, 6) {
            let k = match rng.below(6) {
                0 => rng.pick(&short).clone(),
                1 => rng
                    .pick(&["le", "quantile", "__a", "__", "_", "a", "", "l_e", "__name__"])
                    .to_string(),
                2 => rng.ustring(4),
                _ => rng.name(false),
            };
            let v = rng.ustring(4);
            let r = if rng.chance(1, 2) { &mut m } else { &mut n }
                .labels_mut()
                .insert(&k, &v);
            trace.push((k.clone(), v.clone()));
            if label_ok(&k, Some(kind)) {
                r.must(&format!("inserting the label {:?} into a {:?}", k, kind))?;
                want.insert(k, v);
            } else {
                invalid(r, &format!("inserting the label {:?} into a {:?}", k, kind))?;
            }
            let got: BTreeMap<_, _> = label_vec(n.labels()).into_iter().collect();
            ensure!(
                got == want,
                "the labels are {:?} instead of {:?} after {:?}",
                got,
                want,
                trace
            );
            let f = gather(&mut g)?;
            ensure!(
                f[0].metrics[0].map() == want,
                "gathered {:?} instead of {:?}",
                f[0].metrics[0].labels,
                want
            );
        }
        note!(case, format!("{:?} {:?}", kind, trace));
        Ok(())
    });
}

pub fn c18(run: &mut Run) {
    run.cases("map-semantics", 25_000, 600_000, |case| {
        let rng = &mut case.rng;
        let kind = *rng.pick(&KINDS);
        let pool: Vec<String> = match rng.below(5) {
            4 => {
                // names that begin or end alike
                let base = rng.name(false);
                let mut v = vec![base.clone()];
                for _ in 0..rng.below(8) {
                    let x = v[rng.us(v.len())].clone();
                    v.push(match rng.below(4) {
                        0 => format!("{}{}", x, base),
                        1 => format!("{}_{}", x, rng.below(3)),
                        2 => format!("a{}", x),
                        _ => format!("{}x", x),
                    });
                }
                v.retain(|n| label_ok(n, Some(Kind::Histogram)) && label_ok(n, Some(Kind::Summary)) && n.len() < 200);
                v
            }
            0 => ["a", "A", "aa", "a_", "a0", "b", "_", "_a", "B"]
                .iter()
                .map(|s| s.to_string())
                .collect(),
            1 => ["x"].iter().map(|s| s.to_string()).collect(),
            2 => (0..rng.big(40, 2500).unwrap_or(sz(60, 3)))
                .map(|i| format!("l{}", i * 7 % 7919))
                .collect(),
            _ => (0..rng.range(1, 8))
                .map(|_| rng.name(false))
                .filter(|n| n != "le" && n != "quantile")
                .collect(),
        };
        if pool.is_empty() {
            return Ok(());
        }
        let mut s = Spec::new(kind, "m").enriched(rng, false);
        if rng.chance(1, 3) {
            let mut all = pool.clone();
            rng.shuffle(&mut all);
            for k in &all {
                s = s.label(k, &rng.ustring(5));
            }
        }
        for _ in 0..rng.below(pool.len() as u64 + 4) {
            s = s.label(rng.pick(&pool), &rng.ustring(5));
        }
        let mut want = s.label_map();
        let mut g = Gatherer::new();
        let m = s.must(&[&g.registry()])?;
        let twin = s.must(&[])?; // same settings, separate labels
        let twin_want = want.clone();
        let mut handles = vec![m.clone(), m.clone(), m];
        let mut trace = format!("{:?}", s.labels);
        let mut results: Vec<(prometrics::metric::MetricFamilies, BTreeMap<String, String>)> = Vec::new();
        let steps = rng.below(sz(20, 4));
        for step in 0..=steps {
            if step > 0 {
                let h = {
                    let i = rng.us(handles.len());
                    &mut handles[i]
                };
                match rng.below(10) {
                    0..=4 => {
                        let (k, v) = (rng.pick(&pool).clone(), rng.ustring(6));
                        h.labels_mut().insert(&k, &v).must("insert")?;
                        trace += &format!(" insert({:?},{:?})", k, v);
                        want.insert(k, v);
                    }
                    5 | 6 => {
                        let k = if rng.chance(1, 6) {
                            rng.ustring(3)
                        } else {
                            rng.pick(&pool).clone()
                        };
                        h.labels_mut().remove(&k);
                        trace += &format!(" remove({:?})", k);
                        want.remove(&k);
                    }
                    7 => {
                        h.labels_mut().clear();
                        trace += " clear";
                        want.clear();
                    }
                    8 => {
                        let k = *rng.pick(&["__x", "0", "", "a-b", "é", kind.reserved().unwrap_or("-")]);
                        invalid(h.labels_mut().insert(k, "v"), &format!("inserting {:?}", k))?;
                        trace += &format!(" insert({:?})", k);
                    }
                    _ => {
                        // several changes with one handle
                        let mut l = h.labels_mut();
                        for _ in 0..2 {
                            let (k, v) = (rng.pick(&pool).clone(), rng.ustring(3));
                            l.insert(&k, &v).must("insert")?;
                            ensure!(
                                l.get(&k).map(|l| l.value().to_string()) == Some(v.clone()),
                                "get after insert"
                            );
                            trace += &format!(" insert({:?},{:?})", k, v);
                            want.insert(k, v);
                        }
                        ensure!(
                            l.len() == want.len(),
                            "len {} instead of {} after {}",
                            l.len(),
                            want.len(),
                            trace
                        );
                    }
                }
            }
            let h = rng.pick(&handles);
            let l = h.labels();
            let got = label_vec(l);
            let w: Vec<(String, String)> = want.clone().into_iter().collect();
            ensure!(got == w, "the labels are {:?} instead of {:?} after {}", got, w, trace);
            ensure!(
                l.len() == w.len() && l.is_empty() == w.is_empty(),
                "len {} is_empty {} instead of {}",
                l.len(),
                l.is_empty(),
                w.len()
            );
            for k in &pool {
                let x = l.get(k).map(|x| (x.name().to_string(), x.value().to_string()));
                let y = want.get(k).map(|v| (k.clone(), v.clone()));
                ensure!(x == y, "get({:?}) is {:?} instead of {:?} after {}", k, x, y, trace);
            }
            for k in ["", "__x", "nope", "le", "quantile"] {
                ensure!(
                    l.get(k).is_some() == want.contains_key(k),
                    "get({:?}) after {}",
                    k,
                    trace
                );
            }
            // all text shows exactly these labels
            for s in promtext::samples(&h.text())? {
                let x = s.without(if s.name == "m_bucket" || kind == Kind::Summary && s.name == "m" {
                    kind.reserved().unwrap_or("")
                } else {
                    ""
                });
                ensure!(
                    x == w,
                    "the text {:?} shows {:?} instead of {:?} after {}",
                    h.text(),
                    x,
                    w,
                    trace
                );
            }
            let disp = l.to_string();
            let p = promtext::sample(&format!("x{} 1", disp))?;
            ensure!(p.labels == w, "Display shows {:?} instead of {:?}", disp, w);
            if rng.chance(1, 2) {
                let r = g.gather();
                let f = fams(&r);
                well_formed(&f)?;
                ensure!(
                    f.len() == 1 && f[0].metrics.len() == 1 && f[0].metrics[0].labels == w,
                    "gathered {:?} instead of {:?}",
                    f,
                    w
                );
                let t = promtext::families(&r.to_text())?;
                ensure!(
                    t[0].samples.last().unwrap().map() == want,
                    "gathered text {:?}",
                    r.to_text()
                );
                results.push((r, want.clone()));
            }
        }
        ensure!(
            label_vec(twin.labels()).into_iter().collect::<BTreeMap<_, _>>() == twin_want,
            "another metric's labels changed"
        );
        for (r, w) in &results {
            ensure!(
                fams(r)[0].metrics[0].map() == *w,
                "an earlier gather result changed its labels"
            );
        }
        case.count("steps", steps + 1);
        note!(case, trace);
        Ok(())
    });
}

#[derive(Clone, Debug)]
enum LOp {
    Insert(u8, u16),
    Remove(u8),
    Clear,
    Snap(Vec<(u8, u16)>),
    Len(usize),
}
fn lname(k: u8) -> String {
    format!("k{}", k)
}
fn snapshot(m: &Any, how: u64) -> R<LOp> {
    let labels: Vec<(String, String)> = match how {
        0 => promtext::sample(&format!("x{} 1", m.labels()))?.labels,
        1 => {
            // a whole rendering: all of its lines agree
            let all = promtext::samples(&m.text())?;
            let sets: BTreeSet<Vec<(String, String)>> = all
                .iter()
                .map(|s| {
                    s.labels
                        .iter()
                        .filter(|l| l.0.starts_with('k'))
                        .cloned()
                        .collect::<Vec<_>>()
                })
                .collect();
            ensure!(
                sets.len() == 1,
                "the lines of one rendering have different labels: {:?}",
                m.text()
            );
            sets.into_iter().next().unwrap()
        }
        2 => return Ok(LOp::Len(m.labels().len())),
        _ => label_vec(m.labels()),
    };
    ensure!(labels.windows(2).all(|w| w[0].0 < w[1].0), "a reader saw {:?}", labels);
    Ok(LOp::Snap(
        labels
            .iter()
            .map(|l| {
                Ok((
                    l.0[1..].parse().map_err(|_| format!("{:?}", labels))?,
                    l.1.parse().map_err(|_| format!("{:?}", labels))?,
                ))
            })
            .collect::<R<_>>()?,
    ))
}

pub fn c19(run: &mut Run) {
    run.cases("linearizable-histories", 15_000, 400_000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(4, 3)) as usize;
        let keys = rng.range(1, 4);
        let kind = *rng.pick(&KINDS);
        let mut s = Spec::new(kind, "m").enriched(rng, false);
        s.bounds = vec![1.0, 2.0];
        s.quantiles = vec![0.25, 0.5];
        let mut init: Vec<(u8, u16)> = Vec::new();
        for k in 0..keys as u8 {
            if rng.chance(1, 2) {
                s = s.label(&lname(k), "9999");
                init.push((k, 9999));
            }
        }
        let m = s.must(&[])?;
        m.feed(1.0);
        let mut v = 0u16;
        let plans: Vec<Vec<LOp>> = (0..threads)
            .map(|_| {
                (0..rng.range(2, if cfg!(miri) { 3 } else { 5 }))
                    .map(|_| {
                        v += 1;
                        match rng.below(9) {
                            0..=3 => LOp::Insert(rng.below(keys) as u8, v),
                            4 => LOp::Remove(rng.below(keys) as u8),
                            5 if rng.chance(1, 3) => LOp::Clear,
                            _ => LOp::Snap(vec![]),
                        }
                    })
                    .collect()
            })
            .collect();
        let jitter = *rng.pick(&[0, 20, 200, 1000]);
        let seed = rng.next();
        let mut evs: Vec<Ev<LOp>> = par(threads, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let mut m = m.clone();
            let mut o = Vec::new();
            for op in &plans[t] {
                rng.spin(jitter);
                let call = tick();
                let op = match op {
                    LOp::Insert(k, v) => {
                        m.labels_mut().insert(&lname(*k), &v.to_string()).must("insert")?;
                        op.clone()
                    }
                    LOp::Remove(k) => {
                        m.labels_mut().remove(&lname(*k));
                        op.clone()
                    }
                    LOp::Clear => {
                        m.labels_mut().clear();
                        op.clone()
                    }
                    _ => snapshot(&m, rng.below(5))?,
                };
                o.push(Ev { call, ret: tick(), op });
            }
            Ok(o)
        })?
        .concat();
        let call = tick();
        let last = snapshot(&m, 9)?;
        evs.push(Ev {
            call,
            ret: tick(),
            op: last,
        });
        match lin::check(init, &evs, |s, op| {
            let mut s = s.clone();
            match op {
                LOp::Insert(k, v) => {
                    s.retain(|l| l.0 != *k);
                    s.push((*k, *v));
                    s.sort();
                }
                LOp::Remove(k) => s.retain(|l| l.0 != *k),
                LOp::Clear => s.clear(),
                LOp::Snap(x) => {
                    if *x != s {
                        return None;
                    }
                }
                LOp::Len(n) => {
                    if *n != s.len() {
                        return None;
                    }
                }
            }
            Some(s)
        }) {
            lin::Verdict::Ok => {}
            lin::Verdict::Violation => {
                return Err(format!("no order of the operations explains the history {:?}", evs))
            }
            lin::Verdict::Unknown => case.inconclusive = Some("linearizability checker ran out of budget".into()),
        }
        let o = lin::overlaps(&evs);
        case.count("operations", evs.len() as u64);
        case.count("overlapping_pairs", o);
        if o > 0 {
            evs.sort_by_key(|e| e.call);
            note!(case, evs.iter().map(|e| format!("{:?};", e.op)).collect::<String>());
        }
        Ok(())
    });
    run.cases("disjoint-changes", 250, 5000, |case| {
        let rng = &mut case.rng;
        let threads = rng.range(2, sz(8, 3)) as usize;
        let per = rng.range(1, sz(40, 3));
        let kind = *rng.pick(&KINDS);
        let mut s = Spec::new(kind, "m").enriched(rng, false);
        let remove = rng.chance(1, 2);
        if remove {
            for t in 0..threads {
                for k in 0..per {
                    s = s.label(&format!("old{}_{}", t, k), "x");
                }
            }
        }
        let m = s.must(&[])?;
        par(threads, |t| {
            let mut m = m.clone();
            for k in 0..per {
                m.labels_mut()
                    .insert(&format!("new{}_{}", t, k), &k.to_string())
                    .must("insert")?;
                if remove {
                    m.labels_mut().remove(&format!("old{}_{}", t, k));
                }
                // own changes stay visible
                let mine: Vec<_> = label_vec(m.labels())
                    .into_iter()
                    .filter(|l| l.0.starts_with(&format!("new{}_", t)))
                    .collect();
                ensure!(
                    mine.len() as u64 == k + 1,
                    "thread {} sees only {} of its {} labels",
                    t,
                    mine.len(),
                    k + 1
                );
            }
            Ok(())
        })?;
        let got = label_vec(m.labels());
        let want: BTreeMap<String, String> = (0..threads)
            .flat_map(|t| (0..per).map(move |k| (format!("new{}_{}", t, k), k.to_string())))
            .collect();
        let w: Vec<_> = want.into_iter().collect();
        ensure!(got == w, "{} labels instead of {}: {}", got.len(), w.len(), show(&got));
        case.count("operations", threads as u64 * per * 2);
        note!(case, format!("{}x{} {:?} remove {}", threads, per, kind, remove));
        Ok(())
    });
    run.cases("whole-sets", 250, 5000, |case| {
        // a writer moves through numbered label sets; readers never see a mixture or an older one
        let rng = &mut case.rng;
        let readers = rng.range(1, sz(4, 2)) as usize;
        let steps = rng.range(2, sz(400, 6));
        let mut s = Spec::new(*rng.pick(&KINDS), "m").enriched(rng, false);
        s.bounds = vec![1.0];
        s.quantiles = vec![0.5];
        let m = s.must(&[])?;
        m.feed(1.0);
        // step i inserts label k<i % n> = i: the set after step i is known exactly
        let n = rng.range(1, 6);
        let state = |i: u64| -> BTreeMap<String, String> {
            (i.saturating_sub(n - 1).max(1)..=i)
                .map(|j| (format!("k{}", j % n), j.to_string()))
                .collect()
        };
        let begun = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let seed = rng.next();
        let counts = par(readers + 1, |t| {
            let rng = Rng::new(seed ^ t as u64);
            let mut m = m.clone();
            if t == 0 {
                for i in 1..=steps {
                    begun.store(i, SeqCst);
                    m.labels_mut()
                        .insert(&format!("k{}", i % n), &i.to_string())
                        .must("insert")?;
                    done.store(i, SeqCst);
                    rng.spin(300);
                }
                return Ok(0);
            }
            let mut last = 0;
            let mut reads = 0;
            let mut pace = Pace::new(1.0);
            loop {
                pace.rest();
                let lo = done.load(SeqCst);
                let got = match snapshot(&m, rng.below(2) * 9)? {
                    LOp::Snap(v) => v,
                    _ => unreachable!(),
                };
                let hi = begun.load(SeqCst);
                let i = got.iter().map(|x| u64::from(x.1)).max().unwrap_or(0);
                let got: BTreeMap<String, String> = got.iter().map(|x| (lname(x.0), x.1.to_string())).collect();
                ensure!(got == state(i), "the set {:?} never existed (step {} of {})", got, i, n);
                ensure!(
                    i >= lo && i <= hi,
                    "the set of step {} was seen between the steps {} and {}",
                    i,
                    lo,
                    hi
                );
                ensure!(i >= last, "the set of step {} was seen after that of step {}", i, last);
                last = i;
                reads += 1;
                if lo == steps {
                    return Ok(reads);
                }
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
        })?;
        case.count("reads", counts.iter().sum());
        case.count("operations", steps);
        note!(
            case,
            format!(
                "{} readers {} steps {} keys {} reads",
                readers,
                steps,
                n,
                counts.iter().sum::<u64>()
            )
        );
        Ok(())
    });
}

pub fn c20(run: &mut Run) {
    run.cases("gathered-while-relabelled", 200, 4000, |case| {
        let rng = &mut case.rng;
        let churners = rng.range(1, sz(4, 2)) as usize;
        let count = match rng.below(4) {
            0 => rng.range(2, 5),
            1 => sz(rng.range(100, 300), 6),
            _ => rng.range(21, sz(60, 22)),
        };
        let count = if cfg!(miri) { count.min(4) } else { count };
        let per_family = rng.range(1, 40).min(count);
        let kinds = if rng.chance(1, 2) {
            vec![*rng.pick(&KINDS)]
        } else {
            KINDS.to_vec()
        };
        let changes = rng.range(1, sz(600, 5));
        let gathers = rng.range(1, sz(12, 2));
        let variety = rng.range(1, 5);
        let mut g = Gatherer::new();
        let reg = g.registry();
        let mut ms: Vec<(Any, String, Kind, u64)> = Vec::new(); // metric, family, kind, weight exponent
        let mut fam_size: BTreeMap<(String, Kind), u64> = BTreeMap::new();
        for i in 0..count {
            let kind = *rng.pick(&kinds);
            let name = format!("f{}", i / per_family);
            let e = fam_size.entry((name.clone(), kind)).or_insert(0);
            let m = Spec::new(kind, &name).enriched(rng, false).must(&[&reg])?;
            m.feed((1u64 << *e) as f64);
            ms.push((m, name, kind, *e));
            *e += 1;
        }
        // per metric: (call, return, labels after)
        type Change = (u64, u64, BTreeMap<String, String>);
        let history: Vec<Mutex<Vec<Change>>> = (0..count).map(|_| Mutex::new(vec![(0, 0, BTreeMap::new())])).collect();
        let results: Mutex<Vec<(u64, u64, Vec<Fam>, prometrics::metric::MetricFamilies)>> = Mutex::new(Vec::new());
        let live = AtomicU64::new(1);
        let gm = Mutex::new(&mut g);
        let seed = rng.next();
        let done = par(churners + 1, |t| {
            let rng = Rng::new(seed ^ t as u64);
            if t == churners {
                let mut g = gm.lock().unwrap();
                let r = (|| {
                    for _ in 0..gathers {
                        let call = tick();
                        let fs = g.gather();
                        let ret = tick();
                        let f = fams(&fs);
                        results.lock().unwrap().push((call, ret, f, fs));
                    }
                    Ok(0)
                })();
                live.store(0, SeqCst);
                return r;
            }
            // each churner changes metrics of its own
            let mine: Vec<usize> = (0..ms.len()).filter(|i| i % churners == t).collect();
            let mut n = 0;
            while !mine.is_empty() && (n < changes || live.load(SeqCst) == 1) && n < sz(200_000, 12) {
                let i = *rng.pick(&mine);
                let mut m = ms[i].0.clone();
                let mut h = history[i].lock().unwrap();
                let mut l = h.last().unwrap().2.clone();
                let k = format!("l{}", rng.below(2));
                let call = tick();
                match rng.below(6) {
                    0 => {
                        m.labels_mut().remove(&k);
                        l.remove(&k);
                    }
                    1 if rng.chance(1, 4) => {
                        m.labels_mut().clear();
                        l.clear();
                    }
                    _ => {
                        let v = rng.below(variety).to_string();
                        m.labels_mut().insert(&k, &v).must("insert")?;
                        l.insert(k, v);
                    }
                }
                h.push((call, tick(), l));
                n += 1;
            }
            Ok(n)
        })?;
        drop(gm);
        let results = results.into_inner().unwrap();
        let history: Vec<Vec<Change>> = history.into_iter().map(|h| h.into_inner().unwrap()).collect();
        let mut during = 0u64;
        for (gc, gr, f, fs) in &results {
            well_formed(f)?;
            let mut seen: BTreeSet<(String, Kind, u64)> = BTreeSet::new();
            for fam in f {
                for m in &fam.metrics {
                    let mut bits = m.num() as u64;
                    ensure!(bits > 0 && m.num().fract() == 0.0, "{:?} in {}", m, fam.name);
                    while bits > 0 {
                        let e = u64::from(bits.trailing_zeros());
                        bits &= bits - 1;
                        ensure!(
                            seen.insert((fam.name.clone(), fam.kind, e)),
                            "a metric of {} is included twice",
                            fam.name
                        );
                        let i = ms
                            .iter()
                            .position(|x| x.1 == fam.name && x.2 == fam.kind && x.3 == e)
                            .ok_or_else(|| format!("an unknown metric in {} {:?} ({})", fam.name, fam.kind, m.num()))?;
                        let h = &history[i];
                        // a state lasts from its own call to the return of the next change
                        let ok = (0..h.len())
                            .any(|k| h[k].2 == m.map() && h[k].0 <= *gr && h.get(k + 1).map_or(true, |n| n.1 >= *gc));
                        ensure!(
                            ok,
                            "a metric of {} is included with the labels {:?} it did not have during the gather",
                            fam.name,
                            m.labels
                        );
                    }
                }
            }
            ensure!(
                seen.len() as u64 == count,
                "{} of {} metrics are included",
                seen.len(),
                count
            );
            during += history
                .iter()
                .map(|h| h.iter().filter(|c| c.0 < *gr && c.1 > *gc).count() as u64)
                .sum::<u64>();
            // the result still has the labels it was gathered with
            let again = fams(fs);
            let shape = |f: &[Fam]| -> Vec<Vec<(String, String)>> {
                f.iter()
                    .flat_map(|f| f.metrics.iter().map(|m| m.labels.clone()))
                    .collect()
            };
            ensure!(
                shape(&again) == shape(f),
                "the labels of a gather result changed afterwards"
            );
            let text = promtext::families(&fs.to_text())?;
            for (t, f) in text.iter().zip(f) {
                let a: BTreeSet<_> = t
                    .samples
                    .iter()
                    .map(|s| s.without(f.kind.reserved().unwrap_or("")))
                    .collect();
                let b: BTreeSet<_> = f.metrics.iter().map(|m| m.labels.clone()).collect();
                ensure!(
                    a == b,
                    "the text of a result shows {:?} instead of {:?}",
                    show(&a),
                    show(&b)
                );
            }
        }
        case.count("gathers", results.len() as u64);
        case.count("label_changes", done.iter().sum());
        case.count("label_changes_during_gathers", during);
        note!(
            case,
            format!(
                "{} metrics {} churners {} gathers {} overlapping changes",
                count,
                churners,
                results.len(),
                during
            )
        );
        Ok(())
    });
}

//! C25: the process collector against the harness's own reading of the kernel's numbers.

use std::collections::BTreeMap;
use std::fs::{self, File};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

use prometrics::metrics::ProcessMetricsCollector;
use prometrics::Gatherer;

use crate::core::*;
use crate::model::*;
use crate::promtext;
use crate::rng::Rng;
use crate::vclock;
use crate::w_registry::child;

const NAMES: [(&str, Kind); 7] = [
    ("process_cpu_seconds_total", Kind::Counter),
    ("process_max_fds", Kind::Gauge),
    ("process_open_fds", Kind::Gauge),
    ("process_resident_memory_bytes", Kind::Gauge),
    ("process_start_time_seconds", Kind::Gauge),
    ("process_threads_total", Kind::Gauge),
    ("process_virtual_memory_bytes", Kind::Gauge),
];

type Reading = BTreeMap<&'static str, f64>;

fn sysconf(k: libc::c_int) -> f64 {
    unsafe { libc::sysconf(k) as f64 }
}

/// What the kernel says now, read independently of the library.
fn kernel() -> R<Reading> {
    let stat = fs::read("/proc/self/stat").map_err(|e| e.to_string())?;
    let p = stat.iter().rposition(|c| *c == b')').ok_or("stat")?;
    let rest = String::from_utf8_lossy(&stat[p + 2..]).to_string();
    let f: Vec<f64> = rest.split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
    // f[0] is field 3 of proc(5)
    let field = |n: usize| f[n - 3];
    let tck = sysconf(libc::_SC_CLK_TCK);
    let pstat = fs::read_to_string("/proc/stat").map_err(|e| e.to_string())?;
    let btime: f64 = pstat
        .lines()
        .find_map(|l| l.strip_prefix("btime "))
        .and_then(|x| x.trim().parse().ok())
        .ok_or("btime")?;
    let mut lim = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    ensure!(
        unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim) } == 0,
        "getrlimit"
    );
    // (one of the entries is the descriptor used for reading the directory)
    let fds = fs::read_dir("/proc/self/fd").map_err(|e| e.to_string())?.count() - 1;
    Ok([
        ("process_cpu_seconds_total", (field(14) + field(15)) / tck),
        ("process_max_fds", lim.rlim_cur as f64),
        ("process_open_fds", fds as f64),
        ("process_resident_memory_bytes", field(24) * sysconf(libc::_SC_PAGESIZE)),
        ("process_start_time_seconds", btime + field(22) / tck),
        ("process_threads_total", field(20)),
        ("process_virtual_memory_bytes", field(23)),
    ]
    .into_iter()
    .collect())
}

fn gathered(g: &mut Gatherer) -> R<Reading> {
    let fs = g.gather();
    let f = fams(&fs);
    well_formed(&f)?;
    let mut out = Reading::new();
    for (name, kind) in NAMES {
        let fam = find(&f, name, kind).ok_or_else(|| format!("no {} {} is gathered", kind.text(), name))?;
        ensure!(
            fam.metrics.len() == 1 && fam.metrics[0].labels.is_empty(),
            "{} is {:?}",
            name,
            fam.metrics
        );
        out.insert(name, fam.metrics[0].num());
    }
    ensure!(
        f.len() == NAMES.len(),
        "other metrics are reported: {:?}",
        f.iter().map(|x| &x.name).collect::<Vec<_>>()
    );
    let text = fs.to_text();
    for fam in promtext::families(&text)? {
        ensure!(fam.samples.len() == 1, "{} samples of {}", fam.samples.len(), fam.name);
        let v = out.get(fam.name.as_str()).ok_or("another name in the text")?;
        ensure!(
            fam.samples[0].value == *v,
            "the text of {} says {}, not {}",
            fam.name,
            fam.samples[0].value,
            v
        );
    }
    Ok(out)
}

/// Compares a gather with kernel readings just before and after it.
/// (Memory and thread readings of the kernel are momentary, so only a persistent deviation counts.)
fn compare(g: &mut Gatherer) -> R<Reading> {
    let mut failure = String::new();
    for attempt in 0..40 {
        let before = kernel()?;
        let got = gathered(g)?;
        let after = kernel()?;
        let mut ok = true;
        for (name, _) in NAMES {
            let (mut lo, mut hi) = (before[name].min(after[name]), before[name].max(after[name]));
            match name {
                // (the kernel derives btime from two clocks)
                "process_start_time_seconds" => {
                    lo -= 1.1;
                    hi += 1.1;
                }
                "process_cpu_seconds_total" => {
                    lo -= 1e-6;
                    hi += 1e-6;
                }
                _ => {}
            }
            let v = got[name];
            if !(v >= lo && v <= hi) {
                ok = false;
                failure = format!(
                    "{} is {}, the kernel said {} before and {} after the gather",
                    name, v, before[name], after[name]
                );
            }
        }
        if ok {
            return Ok(got);
        }
        if attempt > 5 {
            let ts = libc::timespec {
                tv_sec: 0,
                tv_nsec: 2_000_000,
            };
            unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
        }
    }
    Err(format!("{} (in 40 attempts)", failure))
}

fn gatherer() -> Gatherer {
    let g = Gatherer::default();
    g.registry().register(ProcessMetricsCollector::default());
    g
}

fn cpu() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

pub fn burn(seconds: f64) {
    let end = cpu() + seconds;
    let mut x = 0u64;
    while cpu() < end {
        for i in 0..1000 {
            x = std::hint::black_box(x.wrapping_mul(31).wrapping_add(i));
        }
        // some of it in the kernel
        for _ in 0..20 {
            unsafe { libc::syscall(libc::SYS_getppid) };
        }
    }
}

pub fn c25(run: &mut Run) {
    run.cases("files", 120, 3000, |case| {
        let rng = &mut case.rng;
        let mut g = gatherer();
        let first = compare(&mut g)?;
        let n = rng.below(60) as usize;
        let mut open: Vec<File> = Vec::new();
        let mut sockets = Vec::new();
        for k in 0..n {
            match rng.below(3) {
                0 => sockets.push(std::os::unix::net::UnixStream::pair().map_err(|e| e.to_string())?),
                1 => open.push(File::open("/proc/self/stat").map_err(|e| e.to_string())?),
                _ => open.push(File::open("/dev/null").map_err(|e| e.to_string())?),
            }
            if rng.chance(1, 6) && k > 0 {
                rng.shuffle(&mut open);
                open.pop();
            }
        }
        let held = open.len() + 2 * sockets.len();
        let second = compare(&mut g)?;
        let grown = second["process_open_fds"] - first["process_open_fds"];
        ensure!(
            grown == held as f64,
            "open_fds grew by {} after opening {} descriptors",
            grown,
            held
        );
        drop((open, sockets));
        let third = compare(&mut g)?;
        ensure!(
            third["process_open_fds"] == first["process_open_fds"],
            "open_fds is {} after closing all",
            third["process_open_fds"]
        );
        case.count("gathers", 3);
        case.count("descriptors_opened", held as u64);
        note!(
            case,
            format!("{} descriptors above {}", held, first["process_open_fds"])
        );
        Ok(())
    });
    run.cases("limits", 80, 1000, |case| {
        let rng = &mut case.rng;
        let mut g = gatherer();
        let mut old = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) };
        let top = old.rlim_max.min(1 << 20);
        let cur = 200 + rng.below(top.saturating_sub(200).max(1));
        let new = libc::rlimit {
            rlim_cur: cur.min(old.rlim_max),
            rlim_max: old.rlim_max,
        };
        let set = unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &new) } == 0;
        let r = compare(&mut g);
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
        let r = r?;
        ensure!(
            !set || r["process_max_fds"] == new.rlim_cur as f64,
            "max_fds {} with limit {}",
            r["process_max_fds"],
            new.rlim_cur
        );
        case.count("gathers", 1);
        note!(case, format!("limit {}", new.rlim_cur));
        Ok(())
    });
    run.cases("threads", 80, 1500, |case| {
        let rng = &mut case.rng;
        let n = rng.below(25);
        let mut g = gatherer();
        let first = compare(&mut g)?;
        let gate = Arc::new((Mutex::new((0u64, false)), Condvar::new()));
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let gate = gate.clone();
                std::thread::spawn(move || {
                    let (m, c) = &*gate;
                    let mut s = m.lock().unwrap();
                    s.0 += 1;
                    c.notify_all();
                    while !s.1 {
                        s = c.wait(s).unwrap();
                    }
                })
            })
            .collect();
        {
            let (m, c) = &*gate;
            let mut s = m.lock().unwrap();
            while s.0 < n {
                s = c.wait(s).unwrap();
            }
        }
        // gathering on another thread does not change what is reported
        let elsewhere = rng.chance(1, 2);
        let second = if elsewhere {
            std::thread::scope(|s| {
                s.spawn(|| guard(|| compare(&mut g)))
                    .join()
                    .unwrap_or(Err("panic".into()))
            })?
        } else {
            compare(&mut g)?
        };
        let grown = second["process_threads_total"] - first["process_threads_total"];
        let want = n as f64 + if elsewhere { 1.0 } else { 0.0 };
        {
            let (m, c) = &*gate;
            m.lock().unwrap().1 = true;
            c.notify_all();
        }
        for h in hs {
            let _ = h.join();
        }
        // (earlier threads may still be exiting during the first gather)
        ensure!(
            grown <= want && grown >= want - 2.0 - first["process_threads_total"],
            "threads grew by {} instead of {}",
            grown,
            want
        );
        ensure!(
            second["process_threads_total"] > n as f64,
            "{} threads although {} and more exist",
            second["process_threads_total"],
            n
        );
        case.count("gathers", 2);
        note!(case, format!("{} threads, elsewhere {}", n, elsewhere));
        Ok(())
    });
    run.cases("memory", 48, 600, |case| {
        let rng = &mut case.rng;
        let mut g = gatherer();
        let first = compare(&mut g)?;
        let pages = rng.range(1, 16_000);
        let touched = rng.below(pages + 1);
        let page = sysconf(libc::_SC_PAGESIZE) as usize;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                pages as usize * page,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        if p == libc::MAP_FAILED {
            case.inconclusive = Some("mmap failed".into());
            return Ok(());
        }
        for k in 0..touched as usize {
            unsafe { std::ptr::write_volatile((p as *mut u8).add(k * page), 1) };
        }
        let r = compare(&mut g);
        unsafe { libc::munmap(p, pages as usize * page) };
        let second = r?;
        let v = second["process_virtual_memory_bytes"] - first["process_virtual_memory_bytes"];
        let want = (pages as usize * page) as f64;
        ensure!(
            (v - want).abs() <= 4e6,
            "virtual memory grew by {} after mapping {} bytes",
            v,
            want
        );
        let r = second["process_resident_memory_bytes"] - first["process_resident_memory_bytes"];
        let want = (touched as usize * page) as f64;
        ensure!(
            (r - want).abs() <= 12e6,
            "resident memory grew by {} after touching {} bytes",
            r,
            want
        );
        case.count("gathers", 2);
        note!(case, format!("{} pages mapped, {} touched", pages, touched));
        Ok(())
    });
    run.cases("cpu", 24, 400, |case| {
        let rng = &mut case.rng;
        let mut g = gatherer();
        let mut last = compare(&mut g)?;
        let mode = rng.below(3);
        let secs = 0.03 + rng.unit() * 0.07;
        for _ in 0..rng.range(1, 3) {
            let c0 = cpu();
            match mode {
                0 => burn(secs),
                // by a thread that has ended
                1 => std::thread::spawn(move || burn(secs)).join().map_err(|_| "panic")?,
                // by a child process: not this process's time
                _ => drop(child(&["child", "burn", "120"])?),
            }
            let now = compare(&mut g)?;
            let c1 = cpu();
            let name = "process_cpu_seconds_total";
            ensure!(
                now[name] >= last[name],
                "CPU seconds went from {} to {}",
                last[name],
                now[name]
            );
            let tick = 2.0 / sysconf(libc::_SC_CLK_TCK);
            ensure!(
                now[name] <= c1 + tick && now[name] >= c0 + if mode < 2 { secs } else { 0.0 } - 2.0 * tick,
                "{} CPU seconds are reported, {}..{} were used",
                now[name],
                c0,
                c1
            );
            let name = "process_start_time_seconds";
            ensure!(
                now[name] == last[name],
                "the start time changed from {} to {}",
                last[name],
                now[name]
            );
            last = now;
            case.counts.push(("gathers", 1));
        }
        note!(case, format!("mode {} {:.3} s", mode, secs));
        Ok(())
    });
    run.cases("start-time", 60, 600, |case| {
        let rng = &mut case.rng;
        // the clock was wrong when the collector was made, or is when gathering
        let at = rng.below(3);
        let wall = rng.below(3_000_000_000) as i64;
        if at != 0 {
            vclock::set_virtual(rng.below(1 << 50) as i64, wall, 0);
        }
        let mut g = gatherer();
        if at == 1 {
            vclock::real();
        }
        let f = fams(&g.gather());
        vclock::real();
        let got = find(&f, "process_start_time_seconds", Kind::Gauge).map(|f| f.metrics[0].num());
        let want = kernel()?["process_start_time_seconds"];
        ensure!(
            got.map_or(false, |v| (v - want).abs() <= 1.1),
            "the start time is {:?} instead of {} (wall clock {} at {})",
            got,
            want,
            wall,
            at
        );
        let again = compare(&mut g)?["process_start_time_seconds"];
        ensure!(got == Some(again), "the start time changed from {:?} to {}", got, again);
        case.count("gathers", 2);
        note!(case, format!("wall clock {} mode {}", wall, at));
        Ok(())
    });
    run.cases("names", 60, 600, |case| {
        let rng = &mut case.rng;
        let names = ["vmon", "a) R (b", "x y  z", ") S 1 2 3", "((((", "12 34", "))))"];
        let name = *rng.pick(&names);
        let set = |s: &str| {
            let mut b = s.as_bytes().to_vec();
            b.push(0);
            let _ = fs::write("/proc/self/comm", s); // the name of the process (its main thread)
            unsafe { libc::prctl(libc::PR_SET_NAME, b.as_ptr()) };
        };
        set(name);
        let r = compare(&mut gatherer());
        set("vmon");
        r?;
        case.count("gathers", 1);
        note!(case, format!("process name {:?}", name));
        Ok(())
    });
    run.cases("other-process", 16, 100, |case| {
        // another process (forked, with other threads, files and start time) reports its own numbers
        let seed = case.rng.next().to_string();
        let out = child(&["child", "process", &seed])?;
        case.count("gathers", 3);
        note!(case, out);
        Ok(())
    });
    run.cases("no-descriptors", 24, 200, |case| {
        // (in a process of its own, which runs out of them)
        let seed = case.rng.next().to_string();
        let out = child(&["child", "process-exhausted", &seed])?;
        case.count("gathers_without_descriptors", 8);
        note!(case, out);
        Ok(())
    });
    run.cases("contended-descriptors", 3, 24, |case| {
        // several processes, each with another thread that takes and returns the last descriptors
        let seed = case.rng.next();
        let out = par(6, |t| {
            let seed = (seed ^ t as u64).to_string();
            child(&["child", "process-contended", &seed])
        })?;
        case.count("processes_with_contended_descriptors", 6);
        note!(case, out.join("; "));
        Ok(())
    });
}

/// In a fresh process some seconds old: whatever is reported while descriptors come and go is right.
pub fn process_contended_child(seed: u64) -> R<String> {
    let rng = Rng::new(seed);
    std::thread::sleep(std::time::Duration::from_millis(2500));
    let mut g = gatherer();
    let mut old = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) };
    let new = libc::rlimit {
        rlim_cur: 40.min(old.rlim_max),
        rlim_max: old.rlim_max,
    };
    let start = kernel()?;
    let name = "process_start_time_seconds";
    let stop = std::sync::atomic::AtomicBool::new(false);
    let order = std::sync::atomic::Ordering::SeqCst;
    ensure!(unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &new) } == 0, "setrlimit");
    let mut files: Vec<File> = Vec::new();
    let most = rng.range(1, 2) as usize; // (that are free now and then)
    let pause = rng.below(3000);
    let (mut partial, mut first, mut times) = (0, String::new(), Vec::new());
    while let Ok(f) = File::open("/dev/null") {
        files.push(f);
        if files.len() > 200 {
            return Err("the limit has no effect".into());
        }
    }
    files.truncate(files.len().saturating_sub(most));
    let r = std::thread::scope(|s| -> R {
        s.spawn(|| {
            while !stop.load(order) {
                let taken: Vec<_> = (0..most).map(|_| File::open("/dev/null")).collect();
                for _ in 0..pause {
                    std::hint::spin_loop();
                }
                drop(taken);
                for _ in 0..pause {
                    std::hint::spin_loop();
                }
            }
        });
        let r = (|| {
            for k in 0..300 {
                let fs = catch_unwind(AssertUnwindSafe(|| g.gather()))
                    .map_err(|_| format!("gathering panicked: {}", take_panics()))?;
                let f = fams(&fs);
                well_formed(&f)?;
                for x in &f {
                    ensure!(
                        NAMES.iter().any(|n| n.0 == x.name && n.1 == x.kind) && x.metrics.len() == 1,
                        "reported {:?}",
                        x
                    );
                    let v = x.metrics[0].num();
                    if x.name == name {
                        times.push(v);
                    }
                    if x.name == "process_max_fds" {
                        ensure!(v == new.rlim_cur as f64, "max_fds {}", v);
                    }
                    if x.name == "process_open_fds" {
                        let n = files.len() as f64;
                        ensure!(v >= n && v <= new.rlim_cur as f64, "open_fds {} with {} open files", v, n);
                    }
                }
                if f.len() < NAMES.len() {
                    partial += 1;
                }
                if k == 0 {
                    first = f.len().to_string();
                }
            }
            Ok(())
        })();
        stop.store(true, order);
        r
    });
    drop(files);
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
    r?;
    times.push(compare(&mut g)?[name]);
    for t in &times {
        ensure!(
            (t - start[name]).abs() < 1.2,
            "the start time is reported as {}, the kernel says {} (all reported: {})",
            t,
            start[name],
            show(&times)
        );
    }
    Ok(format!("free {} first {} partial {}/300", most, first, partial))
}

/// In a fresh process: what cannot be read is left out, what is reported is right, and all of it comes back.
pub fn process_exhausted_child(seed: u64) -> R<String> {
    let rng = Rng::new(seed);
    let mut g = gatherer();
    let warm = rng.chance(1, 2);
    if warm {
        compare(&mut g)?;
    }
    let mut old = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) };
    let new = libc::rlimit {
        rlim_cur: rng.range(40, 90).min(old.rlim_max),
        rlim_max: old.rlim_max,
    };
    ensure!(unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &new) } == 0, "setrlimit");
    let mut trace = format!("warm {} limit {}:", warm, new.rlim_cur);
    for _ in 0..8 {
        let free = rng.below(4) as usize;
        let mut failure = String::new();
        // (other threads of the harness open files now and then)
        for _ in 0..20 {
            failure.clear();
            let before = kernel()?;
            let mut files: Vec<File> = Vec::new();
            while let Ok(f) = File::open("/dev/null") {
                files.push(f);
                if files.len() > 200 {
                    return Err("the limit has no effect".into());
                }
            }
            files.truncate(files.len().saturating_sub(free));
            let open = before["process_open_fds"] + files.len() as f64;
            let fs = catch_unwind(AssertUnwindSafe(|| g.gather()));
            drop(files);
            let fs = fs.map_err(|_| format!("with {} free descriptors, gathering panicked: {}", free, take_panics()))?;
            let after = kernel()?;
            let f = fams(&fs);
            well_formed(&f)?;
            let mut seen = 0;
            for f in &f {
                let Some((name, kind)) = NAMES.iter().find(|n| n.0 == f.name) else {
                    return Err(format!("another metric is reported: {}", f.name));
                };
                ensure!(
                    f.kind == *kind && f.metrics.len() == 1 && f.metrics[0].labels.is_empty(),
                    "{:?}",
                    f
                );
                let v = f.metrics[0].num();
                seen += 1;
                let (lo, hi) = match *name {
                    "process_open_fds" => (open, open),
                    "process_start_time_seconds" => (before[name].min(after[name]) - 1.1, before[name].max(after[name]) + 1.1),
                    "process_cpu_seconds_total" => (before[name] - 1e-6, after[name] + 1e-6),
                    // (touched in between by the files)
                    "process_virtual_memory_bytes" | "process_resident_memory_bytes" => {
                        (before[name].min(after[name]) * 0.5, before[name].max(after[name]) * 2.0)
                    }
                    _ => (before[name].min(after[name]), before[name].max(after[name])),
                };
                if !(v >= lo && v <= hi) {
                    failure = format!("{} is {} instead of {}..{} with {} free descriptors", name, v, lo, hi, free);
                }
            }
            if free == 3 && seen < NAMES.len() {
                failure = format!("{} values with {} free descriptors", seen, free);
            }
            if failure.is_empty() {
                trace += &format!(" {}:{}", free, seen);
                break;
            }
        }
        ensure!(failure.is_empty(), "{}", failure);
        if rng.chance(1, 3) {
            compare(&mut g)?;
        }
    }
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
    compare(&mut g)?;
    Ok(trace)
}

/// In a fresh process that has existed for some time before the collector is made.
pub fn process_child(seed: u64) -> R<String> {
    let rng = Rng::new(seed);
    let ms = rng.below(2800);
    std::thread::sleep(std::time::Duration::from_millis(ms));
    let files: Vec<_> = (0..rng.below(20)).map(|_| File::open("/dev/null")).collect();
    let mut g = gatherer();
    let a = compare(&mut g)?;
    burn(0.03);
    let b = compare(&mut g)?;
    let mut g2 = gatherer();
    let c = compare(&mut g2)?;
    let s = "process_start_time_seconds";
    ensure!(a[s] == b[s] && b[s] == c[s], "start times {} {} {}", a[s], b[s], c[s]);
    ensure!(
        a["process_open_fds"] == c["process_open_fds"],
        "open fds {:?} {:?}",
        a,
        c
    );
    Ok(format!("{} ms old, {} files, {:?}", ms, files.len(), c))
}

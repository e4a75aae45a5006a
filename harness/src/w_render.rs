//! C32 (rendering passes on the writer's failure and changes nothing).

use crate::core::*;
use crate::model::*;
use crate::rng::*;
use prometrics::label::Labels;
use prometrics::metric::{MetricFamilies, Metrics};
use prometrics::Gatherer;
use std::fmt::{self, Debug, Display, Write};
use std::io;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// every write fails once the limit is reached
    Fails,
    /// one write fails, later ones would succeed
    FailsOnce,
    Panics,
}

/// Accepts `limit` bytes.
struct Limited {
    limit: usize,
    fault: Fault,
    got: String,
    failures: u32,
}
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.limit && !(self.fault == Fault::FailsOnce && self.failures > 0) {
            self.failures += 1;
            if self.fault == Fault::Panics {
                resume_unwind(Box::new(Expected));
            }
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// The same for bytes; a write may be accepted in part.
struct Device {
    limit: usize,
    got: Vec<u8>,
}
impl io::Write for Device {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.limit - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Renders into writers that fail at any point; the number of faulty renderings.
fn render(what: &str, x: &dyn Display, full: &str, rng: &Rng, effort: u64) -> R<u64> {
    let again = |why: &str| -> R {
        let now = x.to_string();
        ensure!(now == full, "{} shows {:?} instead of {:?} after {}", what, now, full, why);
        Ok(())
    };
    again("nothing")?;
    let n = full.len();
    let mut faults = 0;
    for k in 0..effort {
        let limit = match k {
            0 => 0,
            1 => n.saturating_sub(1),
            2 => n,
            _ => rng.us(n + 1),
        };
        let fault = *rng.pick(&[Fault::Fails, Fault::FailsOnce, Fault::Panics]);
        let mut w = Limited {
            limit,
            fault,
            got: String::new(),
            failures: 0,
        };
        let r = catch_unwind(AssertUnwindSafe(|| write!(w, "{}", x)));
        let ctx = || format!("{} rendered into a writer that {:?} after {} of {} bytes", what, fault, limit, n);
        ensure!(full.starts_with(&w.got), "{}: {:?} was written of {:?}", ctx(), w.got, full);
        match r {
            Ok(Ok(())) => ensure!(
                w.failures == 0 && w.got == full,
                "{}: success after {} failures, {:?} was written of {:?}",
                ctx(),
                w.failures,
                w.got,
                full
            ),
            Ok(Err(_)) => ensure!(
                w.failures > 0 && fault != Fault::Panics,
                "{}: an error without a failure",
                ctx()
            ),
            Err(p) => ensure!(
                fault == Fault::Panics && p.is::<Expected>(),
                "{}: panicked: {}",
                ctx(),
                take_panics()
            ),
        }
        ensure!(w.failures <= 1, "{}: {} writes after the first failure", ctx(), w.failures - 1);
        if w.failures > 0 {
            faults += 1;
        }
        if k % 4 == 3 {
            use io::Write;
            let mut d = Device { limit, got: vec![] };
            let r = write!(d, "{}", x);
            ensure!(
                r.is_ok() == (limit >= n) && d.got == full.as_bytes()[..limit],
                "{} written to a device for {} of {} bytes: {:?}, {} bytes were written",
                what,
                limit,
                n,
                r,
                d.got.len()
            );
            faults += 1;
        }
    }
    again("failing writers")?;
    Ok(faults)
}

/// Debug formatting shows no promised text, but has to pass on errors, too.
fn debug(what: &str, x: &dyn Debug, rng: &Rng) -> R {
    let full = format!("{:?}", x);
    let mut w = Limited {
        limit: rng.us(full.len() + 1),
        fault: *rng.pick(&[Fault::Fails, Fault::FailsOnce]),
        got: String::new(),
        failures: 0,
    };
    let r = write!(w, "{:?}", x);
    ensure!(
        r.is_err() == (w.failures > 0),
        "{} debugged into a failing writer: {:?} after {} failures",
        what,
        r,
        w.failures
    );
    Ok(())
}

fn labels(what: &str, l: &Labels, rng: &Rng, effort: u64) -> R<u64> {
    let mut n = render(&format!("labels of {}", what), l, &l.to_string(), rng, effort)?;
    debug("labels", l, rng)?;
    let own: Vec<_> = l.iter().map(|x| x.clone()).collect();
    for x in own.iter().take(3) {
        n += render("label", x, &x.to_string(), rng, effort)?;
    }
    Ok(n)
}

fn families(fs: &MetricFamilies, rng: &Rng, effort: u64) -> R<u64> {
    let mut n = 0;
    debug("families", fs, rng)?;
    for f in fs.as_ref() {
        n += render("family", f, &f.to_string(), rng, effort)?;
        n += render("name", f.name(), &f.name().to_string(), rng, effort)?;
        n += render("kind", &f.kind(), &f.kind().to_string(), rng, effort)?;
        n += render("metrics of a family", f.metrics(), &f.metrics().to_string(), rng, effort)?;
        debug("family", f, rng)?;
        macro_rules! each {
            ($v:expr) => {
                for m in $v.iter().take(4) {
                    n += render("merged metric", m, &m.to_string(), rng, effort)?;
                    n += labels("a merged metric", m.labels(), rng, effort)?;
                }
            };
        }
        match f.metrics() {
            Metrics::Counter(v) => each!(v),
            Metrics::Gauge(v) => each!(v),
            Metrics::Summary(v) => each!(v),
            Metrics::Histogram(v) => each!(v),
        }
    }
    Ok(n)
}

pub fn c32(run: &mut Run) {
    run.cases("failing-writers", 4_000, 80_000, |case| {
        let rng = &mut case.rng;
        let mut g = Gatherer::new();
        let reg = g.registry();
        let mut ms = Vec::new();
        for _ in 0..rng.range(1, 3) {
            let kind = *rng.pick(&KINDS);
            let mut s = crate::w_gather::hostile_spec(rng, kind);
            s.window = Duration::from_secs(1 << 30);
            let mut m = s.must(&[&reg])?;
            crate::w_gather::fill(rng, &mut m);
            ms.push((s, m));
        }
        if rng.chance(1, 3) {
            // another member of a family
            let s = ms[0].0.clone();
            let m = s.must(&[&reg])?;
            ms.push((s, m));
        }
        let effort = *rng.pick(&[3, 8, 24]);
        let mut faults = 0;
        for (_, m) in &ms {
            let what = format!("{:?} {}", m.kind(), m.name());
            let full = m.text();
            faults += match m {
                Any::C(m) => render(&what, m, &full, rng, effort)?,
                Any::G(m) => render(&what, m, &full, rng, effort)?,
                Any::S(m) => render(&what, m, &full, rng, effort)?,
                Any::H(m) => render(&what, m, &full, rng, effort)?,
            };
            faults += labels(&what, m.labels(), rng, effort)?;
            debug(&what, &m.metric(), rng)?;
        }
        let fs = g.gather();
        let text = fs.to_text();
        faults += families(&fs, rng, effort)?;
        ensure!(fs.to_text() == text, "the text of the result changed");
        ensure!(
            g.gather().to_text() == text,
            "the text of a later gather is {:?} instead of {:?}",
            g.gather().to_text(),
            text
        );
        case.count("failed_renderings", faults);
        if faults > 0 {
            note!(case, format!("{} {}", faults, text));
        }
        Ok(())
    });
}

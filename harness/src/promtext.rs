//! Strict parser of the Prometheus text exposition format (version 0.0.4).

use crate::core::R;
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone, PartialEq)]
pub struct Sample {
    pub name: String,
    pub labels: Vec<(String, String)>,
    pub value: f64,
    pub ts: Option<i64>,
}
impl Sample {
    pub fn map(&self) -> BTreeMap<String, String> {
        self.labels.iter().cloned().collect()
    }
    pub fn label(&self, k: &str) -> Option<&str> {
        self.labels.iter().find(|l| l.0 == k).map(|l| l.1.as_str())
    }
    pub fn without(&self, k: &str) -> Vec<(String, String)> {
        let mut v: Vec<_> = self.labels.iter().filter(|l| l.0 != k).cloned().collect();
        v.sort();
        v
    }
}

#[derive(Debug, Clone)]
pub struct Family {
    pub name: String,
    pub kind: String,
    pub help: Option<String>,
    pub samples: Vec<Sample>,
}

pub fn is_metric_name(s: &str) -> bool {
    let mut cs = s.chars();
    cs.next()
        .map_or(false, |c| c.is_ascii_alphabetic() || c == '_' || c == ':')
        && cs.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ':')
}
pub fn is_label_name(s: &str) -> bool {
    is_metric_name(s) && !s.contains(':')
}

pub fn value(tok: &str) -> R<f64> {
    ensure!(!tok.is_empty(), "empty value");
    let t = tok.to_ascii_lowercase();
    let body = t.strip_prefix(['+', '-']).unwrap_or(&t);
    match body {
        "nan" if body.len() == t.len() => return Ok(f64::NAN),
        "inf" | "infinity" => {
            return Ok(if t.starts_with('-') {
                f64::NEG_INFINITY
            } else {
                f64::INFINITY
            })
        }
        _ => {}
    }
    ensure!(
        body.chars()
            .all(|c| c.is_ascii_digit() || matches!(c, '.' | 'e' | '+' | '-')),
        "value {:?} is not a number",
        tok
    );
    tok.parse::<f64>().map_err(|e| format!("value {:?}: {}", tok, e))
}

pub fn sample(line: &str) -> R<Sample> {
    let c: Vec<char> = line.chars().collect();
    let mut i = 0;
    while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == ':') {
        i += 1;
    }
    let name: String = c[..i].iter().collect();
    ensure!(is_metric_name(&name), "bad sample name in line {:?}", line);
    let mut labels = Vec::new();
    if c.get(i) == Some(&'{') {
        i += 1;
        loop {
            if c.get(i) == Some(&'}') {
                i += 1;
                break;
            }
            let s = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let k: String = c[s..i].iter().collect();
            ensure!(is_label_name(&k), "bad label name at char {} of line {:?}", s, line);
            ensure!(
                c.get(i) == Some(&'=') && c.get(i + 1) == Some(&'"'),
                "bad label syntax in line {:?}",
                line
            );
            i += 2;
            let mut v = String::new();
            loop {
                match c.get(i) {
                    None => return Err(format!("unterminated label value in line {:?}", line)),
                    Some('"') => break,
                    Some('\\') => {
                        i += 1;
                        v.push(match c.get(i) {
                            Some('\\') => '\\',
                            Some('"') => '"',
                            Some('n') => '\n',
                            x => return Err(format!("bad escape {:?} in line {:?}", x, line)),
                        });
                    }
                    Some(&x) => v.push(x),
                }
                i += 1;
            }
            i += 1;
            ensure!(
                labels.iter().all(|l: &(String, String)| l.0 != k),
                "label {} twice in line {:?}",
                k,
                line
            );
            labels.push((k, v));
            match c.get(i) {
                Some(',') => i += 1,
                Some('}') => {}
                x => return Err(format!("unexpected {:?} after a label in line {:?}", x, line)),
            }
        }
    }
    ensure!(
        matches!(c.get(i), Some(' ') | Some('\t')),
        "no blank before the value in line {:?}",
        line
    );
    let rest: String = c[i..].iter().collect();
    let toks: Vec<&str> = rest.split([' ', '\t']).filter(|t| !t.is_empty()).collect();
    ensure!(
        toks.len() == 1 || toks.len() == 2,
        "{} tokens after the labels in line {:?}",
        toks.len(),
        line
    );
    let value = value(toks[0]).map_err(|e| format!("{} in line {:?}", e, line))?;
    let ts = match toks.get(1) {
        None => None,
        Some(t) => Some(
            t.parse::<i64>()
                .map_err(|e| format!("timestamp {:?}: {} in line {:?}", t, e, line))?,
        ),
    };
    Ok(Sample {
        name,
        labels,
        value,
        ts,
    })
}

/// Parses the text of a single metric (no comments).
pub fn samples(text: &str) -> R<Vec<Sample>> {
    let t = text.strip_suffix('\n').unwrap_or(text);
    let v = t.split('\n').map(sample).collect::<R<Vec<_>>>()?;
    unique(&v)?;
    Ok(v)
}

fn unique(v: &[Sample]) -> R {
    let mut seen = HashSet::new();
    for s in v {
        ensure!(
            seen.insert((s.name.clone(), s.map())),
            "sample {:?} {:?} appears twice",
            s.name,
            s.labels
        );
    }
    Ok(())
}

fn help_text(s: &str) -> R<String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            o.push(match it.next() {
                Some('\\') => '\\',
                Some('n') => '\n',
                x => return Err(format!("bad escape {:?} in help {:?}", x, s)),
            });
        } else {
            o.push(c);
        }
    }
    Ok(o)
}

/// Parses families: every sample has to follow the TYPE line of its own family.
pub fn families(text: &str) -> R<Vec<Family>> {
    let mut fams: Vec<Family> = Vec::new();
    let mut help: Option<(String, String)> = None;
    if text.is_empty() {
        return Ok(fams);
    }
    ensure!(text.ends_with('\n'), "the last line does not end with a line feed");
    for line in text[..text.len() - 1].split('\n') {
        if let Some(rest) = line.strip_prefix("# HELP ") {
            let (name, doc) = rest
                .split_once(' ')
                .ok_or_else(|| format!("bad HELP line {:?}", line))?;
            ensure!(is_metric_name(name), "bad name in {:?}", line);
            let doc = help_text(doc)?;
            match fams.last_mut() {
                Some(f) if f.name == name && f.help.is_none() && f.samples.is_empty() => f.help = Some(doc),
                _ => {
                    ensure!(help.is_none(), "HELP without TYPE before {:?}", line);
                    help = Some((name.to_string(), doc));
                }
            }
        } else if let Some(rest) = line.strip_prefix("# TYPE ") {
            let (name, kind) = rest
                .split_once(' ')
                .ok_or_else(|| format!("bad TYPE line {:?}", line))?;
            ensure!(is_metric_name(name), "bad name in {:?}", line);
            ensure!(
                ["counter", "gauge", "histogram", "summary"].contains(&kind),
                "bad type in {:?}",
                line
            );
            let doc = match help.take() {
                Some((n, d)) => {
                    ensure!(n == name, "HELP of {:?} before TYPE of {:?}", n, name);
                    Some(d)
                }
                None => None,
            };
            fams.push(Family {
                name: name.into(),
                kind: kind.into(),
                help: doc,
                samples: Vec::new(),
            });
        } else {
            ensure!(!line.starts_with('#'), "unexpected comment {:?}", line);
            ensure!(help.is_none(), "a sample follows a HELP line: {:?}", line);
            let s = sample(line)?;
            let f = fams
                .last_mut()
                .ok_or_else(|| format!("sample before any TYPE: {:?}", line))?;
            let ok = match f.kind.as_str() {
                "histogram" => ["_bucket", "_sum", "_count"]
                    .iter()
                    .any(|x| s.name == format!("{}{}", f.name, x)),
                "summary" => {
                    s.name == f.name || ["_sum", "_count"].iter().any(|x| s.name == format!("{}{}", f.name, x))
                }
                _ => s.name == f.name,
            };
            ensure!(ok, "sample {:?} under TYPE of {:?} {}", s.name, f.name, f.kind);
            f.samples.push(s);
        }
    }
    ensure!(help.is_none(), "HELP at the end");
    for f in &fams {
        unique(&f.samples)?;
    }
    Ok(fams)
}

//! C12: repeated cleaning settles and keeps the picture.
use crate::engine::*;
use crate::fam::*;
use crate::render;
use std::collections::BTreeSet;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

/// Passes after which a history that still changes its size counts as not settling.
const PASSES: usize = 40;

#[derive(Default)]
pub struct Seen {
    passes: AtomicU64,
    longest: AtomicU64,
    changed: AtomicU64,
    /// documents that later passes still change, with their options
    multi: Mutex<BTreeSet<(usize, String, Vec<String>)>>,
}

/// The passes of one option set on one document, until the sizes settle.
fn settle(c: &Case, note: &mut Note, seen: &Seen) -> Result<(), String> {
    let first = match c.out {
        Outcome::Panic(p) => return Err(format!("panic: {}", p)),
        Outcome::Err(e) => {
            note.observed = fnv(e);
            return Ok(());
        }
        Outcome::Ok(o) => o,
    };
    note.observed = fnv(first);
    note.nontrivial = first != c.pre.text;
    let want = match c.pre.render() {
        Ok(a) => a,
        Err(e) if e == "cyclic" => return Ok(()),
        Err(e) => return Err(format!("HARNESS: cannot render the input: {}", e)),
    };
    let same = |o: &str, k: usize| -> Result<(), String> {
        let p = Pre::new(o);
        let got = match p.render() {
            Ok(b) => b,
            Err(e) => return Err(format!("output of pass {} cannot be rendered: {}\n{}", k, e, o)),
        };
        match render::diff(want, got, TOL, &mut String::new()) {
            None => Ok(()),
            Some(d) => Err(format!("picture differs after pass {}: {}\n{}", k, d, o)),
        }
    };
    same(first, 1)?;
    let mut prev = first.clone();
    let mut sizes = vec![first.len()];
    for k in 2..=PASSES {
        seen.passes.fetch_add(1, Relaxed);
        let next = match clean(&prev, c.cfg) {
            Outcome::Ok(s) => s,
            Outcome::Err(e) => return Err(format!("pass {} is refused: {}\n{}", k, e, prev)),
            Outcome::Panic(e) => return Err(format!("pass {} panics: {}\n{}", k, e, prev)),
        };
        let fixed = next == prev;
        if !fixed {
            seen.changed.fetch_add(1, Relaxed);
            seen.longest.fetch_max(k as u64, Relaxed);
            same(&next, k)?;
        }
        if k == 2 && next.len() != first.len() {
            seen.multi.lock().unwrap().insert((c.pre.text.len(), c.pre.text.to_string(), c.cfg.args.clone()));
        }
        sizes.push(next.len());
        if next.len() == prev.len() {
            if fixed {
                return Ok(());
            }
            // the text still changes: further cleaning must keep the size and the picture
            let mut p = next.clone();
            for j in k + 1..k + 4 {
                let n = match clean(&p, c.cfg) {
                    Outcome::Ok(s) => s,
                    r => return Err(format!("pass {}: {:?}\n{}", j, r, p)),
                };
                if n != p {
                    same(&n, j)?;
                }
                p = n;
            }
            return Ok(());
        }
        prev = next;
    }
    Err(format!("sizes do not settle: {:?}\n{}", sizes, prev))
}

/// Everything that is neither the same picture nor a repeated refusal.
fn chain(c: &Case, note: &mut Note) -> Result<(), String> {
    // svgdom drops repeated closepath commands (recorded finding)
    if c.pre.text.contains("marker") && (c.pre.text.contains("Z Z") || c.pre.text.contains("z z")) {
        return Ok(());
    }
    match c.pre.render() {
        Err(e) if e == "cyclic" => Ok(()),
        _ if c.depth == 1 => same_or_refused(c, note),
        _ => same_picture(c, note),
    }
}

/// The multipass mode of the executable on one document.
fn multipass(text: &str, args: &[String], w: &crate::bin::Worker) -> crate::bin::Scn {
    w.reset();
    w.put("in.svg", text.as_bytes());
    let mut a = args.to_vec();
    a.push("--allow-bigger-file".into());
    let mut s = crate::bin::Scn::new(text.into(), format!("{} --multipass", a.join(" ")));
    let mut go = |a: &[String], extra: &[&str]| {
        let mut a = a.to_vec();
        a.extend(extra.iter().map(|s| s.to_string()));
        s.runs += 1;
        w.run(&a, None, &[])
    };
    let one = go(&a, &["in.svg", "one.svg"]);
    let all = go(&a, &["--multipass", "in.svg", "all.svg"]);
    s.output = all.text();
    for r in [&one, &all] {
        if let Err(e) = r.sane() {
            return s.fail(e);
        }
    }
    let (one, all) = match (w.get("one.svg"), w.get("all.svg")) {
        (Some(a), Some(b)) => (String::from_utf8_lossy(&a).to_string(), String::from_utf8_lossy(&b).to_string()),
        _ => return s.fail("no result".into()),
    };
    s.output = all.clone();
    if all.len() > one.len() {
        return s.fail(format!("the result of multipass has {} bytes, the one of a single pass {}: {}", all.len(), one.len(), one));
    }
    let (p, q) = (Pre::new(text), Pre::new(&all));
    match (p.render(), q.render()) {
        (Ok(a), Ok(b)) => match render::diff(a, b, TOL, &mut String::new()) {
            None => s,
            Some(d) => s.fail(format!("picture differs after multipass: {}", d)),
        },
        (_, Err(e)) => s.fail(format!("the result of multipass cannot be rendered: {}", e)),
        _ => s,
    }
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let seen = Arc::new(Seen::default());
    let cap = if t { 1_000_000 } else { 60_000 };

    // the same options again and again
    let s = seen.clone();
    crate::corpus(r, move |mut f| {
        if f.size > cap {
            return None;
        }
        f.configs = if t {
            vec![
                config(&[]),
                config(&["--apply-transform-to-paths=true", "--remove-gradient-attributes=true", "--join-arcto-flags=true", "--join-style-attributes=all"]),
                config(&["--group-by-style=false", "--indent=1"]),
                solo(&["ungroup-groups", "group-by-style"]),
            ]
        } else if f.size < 4_000 {
            vec![
                config(&[]),
                config(&["--apply-transform-to-paths=true", "--remove-gradient-attributes=true", "--join-arcto-flags=true", "--join-style-attributes=all"]),
            ]
        } else {
            vec![config(&[])]
        };
        f.depth = 1;
        f.next = vec![];
        let s = s.clone();
        f.check = Box::new(move |c, n| settle(c, n, &s));
        Some(f)
    });
    // mixtures of options
    let cap = if t { 100_000 } else { 6_000 };
    crate::corpus(r, move |mut f| {
        if f.size > cap || f.name.starts_with("populations of ids") {
            return None;
        }
        f.configs = vec![
            config(&["--trim-ids=false", "--resolve-use=false", "--convert-shapes=false"]),
            config(&["--no-defaults", "--join-style-attributes=all"]),
            config(&["--group-by-style=false", "--ungroup-groups=false", "--paths-to-relative=false", "--remove-unused-segments=false", "--convert-segments=false"]),
        ];
        f.next = vec![
            config(&["--apply-transform-to-paths=true", "--remove-gradient-attributes=true", "--join-style-attributes=all", "--list-separator=comma"]),
            config(&["--ungroup-groups=false", "--indent=2", "--merge-gradients=false", "--remove-unused-defs=false"]),
            solo(&["trim-ids", "ungroup-defs", "resolve-use"]),
        ];
        if t {
            f.next.push(config(&[]));
            f.next.push(solo(&["group-by-style", "remove-default-attributes", "remove-needless-attributes"]));
        }
        f.depth = if t { 4 } else { 3 };
        f.check = Box::new(chain);
        Some(f)
    });

    // the multipass mode of the executable on every document that it changes
    let limit = if t { 60_000 } else { 6_000 };
    let found: Vec<_> = seen.multi.lock().unwrap().iter().cloned().collect();
    let step = (found.len() + limit - 1) / limit.max(1);
    let list: Vec<_> = found.iter().step_by(step.max(1)).collect();
    r.extra.push(("documents_changed_by_later_passes".into(), found.len().to_string()));
    r.scenarios("multipass on documents that need several passes", list.len() as u64, |i, w| {
        let x = list[i as usize];
        Some(multipass(&x.1, &x.2, w))
    });
    r.stats.transitions += seen.passes.load(Relaxed);
    r.extra.push(("further_passes".into(), seen.passes.load(Relaxed).to_string()));
    r.extra.push(("further_passes_that_changed_the_document".into(), seen.changed.load(Relaxed).to_string()));
    r.extra.push(("longest_history_of_changes".into(), seen.longest.load(Relaxed).to_string()));
}

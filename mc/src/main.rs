mod bin;
mod engine;
mod fam;
mod geom;
mod render;
mod style;
mod xml;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod subj;

use engine::*;
use std::io::Write;
use std::time::Instant;

fn dispatch(r: &mut Run) -> bool {
    match r.property.clone().as_str() {
        "C01" => c01::run(r),
        "C02" => c02::run(r),
        "C03" => c03::run(r),
        "C04" => c04::run(r),
        "C05" => c05::run(r),
        "C06" => c06::run(r),
        "C07" => c07::run(r),
        "C08" => c08::run(r),
        "C09" => c09::run(r),
        "C10" => c10::run(r),
        "C11" => c11::run(r),
        "C12" => c12::run(r),
        "C13" => c13::run(r),
        "C14" => c14::run(r),
        "C15" => c15::run(r),
        "C16" => c16::run(r),
        "C17" => c17::run(r),
        "C18" => c18::run(r),
        "C19" => c19::run(r),
        "C20" => c20::run(r),
        "C21" => c21::run(r),
        "C22" => c22::run(r),
        _ => return false,
    }
    true
}

/// Explores the quick families of the picture properties with another oracle and other option sets.
pub fn corpus(r: &mut Run, f: impl Fn(Family<'static>) -> Option<Family<'static>> + 'static) {
    if r.over.is_some() {
        return;
    }
    let tier = std::mem::replace(&mut r.tier, "quick".to_string());
    let filter = r.filter.clone();
    if let Some(ref x) = filter {
        if let Some(rest) = x.strip_prefix("corpus:") {
            r.filter = Some(rest.to_string());
        }
    }
    r.over = Some(Box::new(f));
    c01::run(r);
    c02::run(r);
    c03::run(r);
    c04::run(r);
    c05::run(r);
    c06::run(r);
    c07::run(r);
    c08::run(r);
    c21::run(r);
    r.over = None;
    r.filter = filter;
    r.tier = tier;
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => supervise(&a[2..]),
        "run" => child(&a[2..]),
        "one" => {
            // re-run a single recorded case
            let (i, c) = read_slot(std::path::Path::new(&a[2])).expect("slot");
            let args: Vec<&str> = if c == "defaults" { vec![] } else { c.split(' ').collect() };
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn({
                let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
                move || {
                    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                    clean(&i, &config(&args))
                }
            });
            println!("{:?}", h.unwrap().join().unwrap());
        }
        "prints" => prints(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(50_000)),
        "known" => {
            // prints a known_findings entry for a document (used by hand, never by a check)
            let t = std::fs::read_to_string(&a[4]).unwrap();
            let args: Vec<&str> = a[5..].iter().map(|s| s.as_str()).collect();
            quiet_panics();
            let t = t.trim_end().to_string();
            let o = match clean(&t, &config(&args)) {
                Outcome::Ok(s) => s,
                Outcome::Err(e) => format!("ERROR {}", e),
                Outcome::Panic(e) => format!("PANIC {}", e),
            };
            println!(
                "known: property={} {}\n  options: {}\n  input: {}\n  output: {}",
                a[2],
                a[3],
                config(&args).name,
                t.replace('\n', "\\n"),
                o.replace('\n', "\\n")
            );
        }
        "render" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let x = xml::parse(&t).unwrap();
            println!("{}", render::render(&x).map(|v| v.text()).unwrap_or_else(|e| e));
        }
        "clean" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let args: Vec<&str> = a[3..].iter().map(|s| s.as_str()).collect();
            match clean(&t, &config(&args)) {
                Outcome::Ok(s) => {
                    println!("{}", s);
                    let show = |t: &str| xml::parse(t).and_then(|x| render::render(&x)).map(|v| v.text()).unwrap_or_else(|e| e);
                    println!("IN  {}\nOUT {}", show(&t), show(&s));
                }
                o => println!("{:?}", o),
            }
        }
        _ => {
            eprintln!("usage: mc check|run PROPERTY | clean FILE ARGS.. | render FILE");
            std::process::exit(2);
        }
    }
}

fn supervise(a: &[String]) {
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", a[0], std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let st = std::process::Command::new(&exe)
        .arg("run")
        .args(a)
        .env("MC_SLOTS", &dir)
        .status()
        .unwrap();
    let code = match st.code() {
        Some(c) => c,
        None => {
            // killed by a signal: find the case that does it
            let mut found = false;
            for e in std::fs::read_dir(&dir).unwrap() {
                let p = e.unwrap().path();
                if !p.file_name().unwrap().to_string_lossy().starts_with("slot-") {
                    continue;
                }
                if let Some((i, c)) = read_slot(&p) {
                    let o = std::process::Command::new(&exe)
                        .arg("one")
                        .arg(&p)
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .status()
                        .unwrap();
                    if o.code().is_none() {
                        let what = format!("cleaning crashed the process ({})", o);
                        let f = write_replay(&a[0], 0, &Violation {
                            family: "crash".into(),
                            index: 0,
                            input: i,
                            args: c,
                            output: "no output".into(),
                            what: what.clone(),
                        });
                        println!("VIOLATION property={} replay={}", a[0], f);
                        println!("  {}", what);
                        found = true;
                        break;
                    }
                }
            }
            if found {
                1
            } else {
                eprintln!("explorer died: {}", st);
                4
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code);
}

fn child(a: &[String]) {
    let prop = a[0].clone();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut filter = None;
    let mut show = 1;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--tier" => {
                tier = a[i + 1].clone();
                i += 1;
            }
            "--family" => {
                filter = Some(a[i + 1].clone());
                i += 1;
            }
            "--show" => {
                show = a[i + 1].parse().unwrap();
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let lim = [16u64 << 30, 16u64 << 30];
    unsafe {
        setrlimit(9, &lim);
    }
    quiet_panics();
    let mut r = Run {
        property: prop.clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        start: Instant::now(),
        stats: Stats::default(),
        violations: vec![],
        known: vec![],
        slots: std::env::var("MC_SLOTS").ok().map(Into::into),
        extra: vec![],
        over: None,
        filter,
        silent: false,
        max_report: show,
        capped: vec![],
        findings: load_known().into_iter().filter(|k| k.property == prop).collect(),
    };
    known_findings(&mut r);
    if !dispatch(&mut r) {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    }
    finish(r);
}

/// Replays every recorded finding: the recorded failure is announced, another one is a violation.
/// Prints a fingerprint of what the cleaner does with (a part of) every family. Not used by checks: it only tells
/// which families a change of the code is visible in.
fn prints(cap: u64) {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    use std::sync::{Arc, Mutex};
    quiet_panics();
    let list: Arc<Mutex<Vec<(String, Arc<AtomicU64>)>>> = Arc::default();
    for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C21", "C09", "C10", "C11", "C17", "C19", "C20", "C22"] {
        let l = list.clone();
        let mut r = Run {
            property: p.into(),
            tier: "quick".into(),
            seed: 1,
            start: Instant::now(),
            stats: Stats::default(),
            violations: vec![],
            known: vec![],
            slots: None,
            extra: vec![],
            over: Some(Box::new(move |mut f| {
                let sum = Arc::new(AtomicU64::new(0));
                l.lock().unwrap().push((format!("{} {}", p, f.name), sum.clone()));
                let step = (f.size * f.configs.len() as u64 / cap).max(1) | 1;
                let gen = f.gen;
                f.gen = Box::new(move |i| gen(i * step));
                f.size = (f.size + step - 1) / step;
                f.depth = 1;
                f.next = vec![];
                f.check = Box::new(move |c, _| {
                    let o = match c.out {
                        Outcome::Ok(s) => format!("{}|{}|{}", c.pre.text, c.cfg.name, s),
                        Outcome::Panic(_) => format!("{}|{}|panic", c.pre.text, c.cfg.name),
                        o => format!("{}|{}|{:?}", c.pre.text, c.cfg.name, o),
                    };
                    sum.fetch_add(fnv(&o), Relaxed);
                    Ok(())
                });
                Some(f)
            })),
            filter: None,
            silent: true,
            max_report: 0,
            capped: vec![],
            findings: vec![],
        };
        dispatch(&mut r);
    }
    for (n, s) in list.lock().unwrap().iter() {
        println!("{:016x} {}", s.load(Relaxed), n);
    }
}

fn known_findings(r: &mut Run) {
    let list = std::mem::take(&mut r.findings);
    for k in list.iter().filter(|k| !k.input.is_empty() && k.oracle != "scenario") {
        let args: Vec<&str> = if k.args == "defaults" { vec![] } else { k.args.split(' ').collect() };
        let cfg = config(&args);
        let out = clean(&k.input, &cfg);
        r.stats.transitions += 1;
        r.stats.states += 1;
        let text = match out {
            Outcome::Ok(ref s) => s.clone(),
            Outcome::Err(ref e) => format!("ERROR {}", e),
            Outcome::Panic(ref e) => format!("PANIC {}", e),
        };
        if text == k.output {
            r.known.push(format!("KNOWN-FINDING: property={} {}", k.property, k.what));
            continue;
        }
        let pre = Pre::new(&k.input);
        let case = Case { pre: &pre, out: &out, cfg: &cfg, depth: 1 };
        let mut n = Note::default();
        let v = match k.oracle.as_str() {
            "picture" => fam::same_picture(&case, &mut n),
            "refused-or-picture" => fam::same_or_refused(&case, &mut n),
            "refused" => match out {
                Outcome::Err(_) => Ok(()),
                _ => Err("not refused".into()),
            },
            "wellformed" => c11::wellformed(&case, &mut n),
            "no-panic" => match out {
                Outcome::Panic(ref p) => Err(p.clone()),
                _ => Ok(()),
            },
            _ => Ok(()),
        };
        if let Err(what) = v {
            r.violations.push(Violation {
                family: "recorded finding".into(),
                index: 0,
                input: k.input.clone(),
                args: k.args.clone(),
                output: text,
                what,
            });
        }
    }
    r.findings = list;
}

fn finish(r: Run) {
    let s = &r.stats;
    let mut n = 0;
    let _ = std::fs::remove_dir_all(verif_dir().join("evidence").join("replay").join(&r.property));
    for v in &r.violations {
        let p = write_replay(&r.property, n, v);
        println!("VIOLATION property={} replay={}", r.property, p);
        println!("  {} [{} #{}] options: {}", v.what, v.family, v.index, v.args);
        println!("  input:  {}", v.input);
        println!("  output: {}", v.output);
        n += 1;
    }
    for k in &r.known {
        println!("{}", k);
    }
    let mut f = String::new();
    f.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        js(&r.property),
        js(if r.thorough() { "thorough" } else { "quick" }),
        r.seed
    ));
    f.push_str(&format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"initial_states\": {},\n  \"accepted_runs\": {},\n  \"refused_runs\": {},\n  \"runs_that_changed_the_document\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n",
        s.states,
        s.transitions,
        s.transitions,
        s.initial,
        s.ok,
        s.refused,
        s.nontrivial,
        s.outcomes,
        r.capped.is_empty()
    ));
    f.push_str("  \"families\": [\n");
    for (i, q) in s.families.iter().enumerate() {
        f.push_str(&format!(
            "   {{\"family\": {}, \"documents\": {}, \"states\": {}, \"transitions\": {}}}{}\n",
            js(&q.0),
            q.1,
            q.2,
            q.3,
            if i + 1 < s.families.len() { "," } else { "" }
        ));
    }
    f.push_str("  ],\n");
    for (k, v) in &r.extra {
        f.push_str(&format!("  {}: {},\n", js(k), v));
    }
    f.push_str("  \"samples\": [\n");
    for (i, q) in s.samples.iter().enumerate() {
        f.push_str(&format!(
            "   {{\"input\": {}, \"options\": {}, \"output\": {}}}{}\n",
            js(&q.0),
            js(&q.1),
            js(&q.2),
            if i + 1 < s.samples.len() { "," } else { "" }
        ));
    }
    f.push_str("  ]\n },\n");
    f.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", r.start.elapsed().as_secs_f64(), n));
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if r.filter.is_none() {
        let mut o = std::fs::File::create(d.join(format!("{}.json", r.property))).unwrap();
        o.write_all(f.as_bytes()).unwrap();
    }
    eprintln!(
        "{}: {} states, {} transitions, {} violations, {:.1}s",
        r.property,
        s.states,
        s.transitions,
        n,
        r.start.elapsed().as_secs_f64()
    );
    if !r.capped.is_empty() {
        eprintln!("stopped early in: {:?}", r.capped);
    }
    std::process::exit(if n > 0 { 1 } else { 0 });
}

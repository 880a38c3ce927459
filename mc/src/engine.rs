//! Exhaustive explicit-state exploration: states are documents, transitions are cleaning runs.
use crate::render::{self, V};
use crate::xml;
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use svgcleaner::{cleaner, cli, ChainedErrorExt, CleaningOptions, ParseOptions, WriteOptions};

pub struct Config {
    pub name: String,
    pub args: Vec<String>,
    pub parse: ParseOptions,
    pub clean: CleaningOptions,
    pub write: WriteOptions,
}

impl Config {
    /// Whether a boolean option is on, as documented (not as parsed by the tool).
    pub fn on(&self, name: &str) -> bool {
        let mut v = !self.args.iter().any(|a| a == "--no-defaults") && crate::fam::is_default_on(name);
        for a in &self.args {
            if let Some(r) = a.strip_prefix("--").and_then(|a| a.strip_prefix(name)) {
                match r {
                    "" | "=true" | "=yes" | "=1" => v = true,
                    "=false" | "=no" | "=0" => v = false,
                    _ => {}
                }
            }
        }
        v
    }
}

/// Options exactly as the command line would set them.
pub fn config(args: &[&str]) -> Config {
    try_config(args).unwrap_or_else(|e| panic!("bad config {:?}: {}", args, e))
}
pub fn try_config(args: &[&str]) -> Result<Config, String> {
    let mut v = vec!["svgcleaner"];
    v.extend_from_slice(args);
    v.push("in.svg");
    v.push("out.svg");
    let m = cli::prepare_app().get_matches_from_safe(&v).map_err(|e| e.message)?;
    Ok(Config {
        name: if args.is_empty() { "defaults".into() } else { args.join(" ") },
        args: args.iter().map(|s| s.to_string()).collect(),
        parse: cli::gen_parse_options(&m),
        clean: cli::gen_cleaning_options(&m),
        write: cli::gen_write_options(&m),
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(String),
    Err(String),
    Panic(String),
}
impl Outcome {
    pub fn ok(&self) -> Option<&str> {
        match self {
            Outcome::Ok(s) => Some(s),
            _ => None,
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        if std::thread::current().name() == Some("main") {
            eprintln!("{}", m);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn clean(input: &str, c: &Config) -> Outcome {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
        let mut doc = match cleaner::parse_data(input, &c.parse) {
            Ok(d) => d,
            Err(e) => return Outcome::Err(format!("{}", e.full_chain())),
        };
        if let Err(e) = cleaner::clean_doc(&mut doc, &c.clean, &c.write) {
            return Outcome::Err(format!("{}", e.full_chain()));
        }
        let mut buf = Vec::new();
        cleaner::write_buffer(&doc, &c.write, &mut buf);
        match String::from_utf8(buf) {
            Ok(s) => Outcome::Ok(s),
            Err(_) => Outcome::Panic("output is not UTF-8".into()),
        }
    }));
    match r {
        Ok(o) => o,
        Err(_) => Outcome::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// A document with its (lazily computed) reference rendering.
pub struct Pre<'a> {
    pub text: &'a str,
    xml: std::cell::OnceCell<Result<xml::Xml, String>>,
    ren: std::cell::OnceCell<Result<V, String>>,
}
impl<'a> Pre<'a> {
    pub fn new(text: &'a str) -> Pre<'a> {
        Pre { text, xml: Default::default(), ren: Default::default() }
    }
    pub fn xml(&self) -> &Result<xml::Xml, String> {
        self.xml.get_or_init(|| xml::parse(self.text))
    }
    pub fn render(&self) -> &Result<V, String> {
        self.ren.get_or_init(|| match self.xml() {
            Ok(x) => render::render(x),
            Err(e) => Err(e.clone()),
        })
    }
}

pub struct Case<'a> {
    pub pre: &'a Pre<'a>,
    pub out: &'a Outcome,
    pub cfg: &'a Config,
    pub depth: usize,
}

/// Verdict of an invariant on one transition.
pub type Check = dyn Fn(&Case, &mut Note) -> Result<(), String> + Sync;

/// What the check observed (for the evidence).
#[derive(Default)]
pub struct Note {
    pub observed: u64,
    pub nontrivial: bool,
}

pub struct Family<'a> {
    pub name: String,
    pub size: u64,
    pub gen: Box<dyn Fn(u64) -> Option<String> + Sync + 'a>,
    /// option sets applied to the initial documents
    pub configs: Vec<Config>,
    /// option sets applied to every document reached (depth > 1)
    pub next: Vec<Config>,
    pub depth: usize,
    pub check: Box<Check>,
}

pub struct Violation {
    pub family: String,
    pub index: u64,
    pub input: String,
    pub args: String,
    pub output: String,
    pub what: String,
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub ok: u64,
    pub refused: u64,
    pub nontrivial: u64,
    pub outcomes: u64,
    pub initial: u64,
    pub families: Vec<(String, u64, u64, u64)>,
    pub samples: Vec<(String, String, String)>,
}

pub struct Run {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub slots: Option<std::path::PathBuf>,
    pub extra: Vec<(String, String)>,
    pub filter: Option<String>,
    pub silent: bool,
    pub max_report: usize,
    pub capped: Vec<String>,
    pub findings: Vec<Known>,
    /// replaces option sets, depth and oracle of the families of other properties
    pub over: Option<Box<dyn Fn(Family<'static>) -> Option<Family<'static>>>>,
}

struct Watch {
    start: AtomicU64,
}

fn write_slot(f: &Option<std::fs::File>, input: &str, args: &str) {
    if let Some(f) = f {
        let mut b = Vec::with_capacity(input.len() + args.len() + 16);
        b.extend_from_slice(&(args.len() as u64).to_le_bytes());
        b.extend_from_slice(&(input.len() as u64).to_le_bytes());
        b.extend_from_slice(args.as_bytes());
        b.extend_from_slice(input.as_bytes());
        let _ = f.write_all_at(&b, 0);
    }
}
pub fn read_slot(p: &std::path::Path) -> Option<(String, String)> {
    let b = std::fs::read(p).ok()?;
    if b.len() < 16 {
        return None;
    }
    let a = u64::from_le_bytes(b[0..8].try_into().ok()?) as usize;
    let i = u64::from_le_bytes(b[8..16].try_into().ok()?) as usize;
    if b.len() < 16 + a + i {
        return None;
    }
    Some((
        String::from_utf8_lossy(&b[16 + a..16 + a + i]).to_string(),
        String::from_utf8_lossy(&b[16..16 + a]).to_string(),
    ))
}

pub const HANG_S: u64 = 30;

/// A genuine defect of the unchanged tree that is recorded instead of repaired:
/// one document with one option set and the exact (wrong) result.
pub struct Known {
    pub property: String,
    pub what: String,
    pub oracle: String,
    pub args: String,
    pub input: String,
    pub output: String,
    /// place of a panic in a dependency
    pub site: String,
}

/// Reads /verif/known_findings.txt.
pub fn load_known() -> Vec<Known> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v: Vec<Known> = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (p, w) = r.split_once(' ').unwrap_or((r, ""));
            v.push(Known {
                property: p.into(),
                what: w.into(),
                oracle: "picture".into(),
                args: "defaults".into(),
                input: String::new(),
                output: String::new(),
                site: String::new(),
            });
        } else if let Some(k) = v.last_mut() {
            if let Some(r) = l.strip_prefix("  options: ") {
                k.args = r.into();
            } else if let Some(r) = l.strip_prefix("  oracle: ") {
                k.oracle = r.into();
            } else if let Some(r) = l.strip_prefix("  input: ") {
                k.input = r.replace("\\n", "\n");
            } else if let Some(r) = l.strip_prefix("  site: ") {
                k.site = r.into();
            } else if let Some(r) = l.strip_prefix("  output: ") {
                k.output = r.replace("\\n", "\n");
            }
        }
    }
    v
}

/// A panic at a recorded place in a dependency.
pub fn at_known_site(f: &Known, out: &str) -> bool {
    !f.site.is_empty() && out.starts_with("PANIC panicked at ") && out.lines().next().map_or(false, |l| l.contains("/registry/src/") && l.contains(&format!("/{}:", f.site)))
}

impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn explore(&mut self, fam: Family<'static>) {
        let fam = match self.over {
            Some(ref f) => match f(fam) {
                Some(f) => f,
                None => return,
            },
            None => fam,
        };
        if let Some(ref f) = self.filter {
            if !fam.name.contains(f.as_str()) {
                return;
            }
        }
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let next_idx = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let shards: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let outc: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let trans = AtomicU64::new(0);
        let oks = AtomicU64::new(0);
        let refused = AtomicU64::new(0);
        let nontriv = AtomicU64::new(0);
        let initial = AtomicU64::new(0);
        let viols: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let nviol = AtomicU64::new(0);
        let samples: Mutex<Vec<(u64, String, String, String)>> = Mutex::new(vec![]);
        let watches: Vec<Watch> = (0..threads).map(|_| Watch { start: AtomicU64::new(0) }).collect();
        let t0 = Instant::now();
        let done = AtomicBool::new(false);
        let prop = self.property.clone();
        let slots = self.slots.clone();
        let maxrep = self.max_report as u64;
        let findings = &self.findings;
        let chunk = (fam.size / (threads as u64 * 64)).max(1).min(256);
        std::thread::scope(|sc| {
            let mut handles = vec![];
            for t in 0..threads {
                let (fam, next_idx, stop, shards, outc, trans, oks, refused, nontriv, viols, nviol, samples, watch, initial) = (
                    &fam, &next_idx, &stop, &shards, &outc, &trans, &oks, &refused, &nontriv, &viols, &nviol, &samples,
                    &watches[t], &initial,
                );
                let slot = slots.as_ref().map(|d| std::fs::File::create(d.join(format!("slot-{}", t))).unwrap());
                let b = std::thread::Builder::new().stack_size(8 << 20);
                handles.push(
                    b.spawn_scoped(sc, move || {
                        let add = |h: u64, s: &Vec<Mutex<HashSet<u64>>>| s[(h % 64) as usize].lock().unwrap().insert(h);
                        loop {
                            let i0 = next_idx.fetch_add(chunk, SeqCst);
                            if i0 >= fam.size || stop.load(Relaxed) {
                                break;
                            }
                            for i in i0..(i0 + chunk).min(fam.size) {
                                let made = panic::catch_unwind(panic::AssertUnwindSafe(|| (fam.gen)(i))).unwrap_or_else(|_| {
                                    eprintln!("HARNESS PANIC {} making document {}", LAST_PANIC.with(|p| p.borrow().clone()), i);
                                    std::process::exit(3);
                                });
                                let doc = match made {
                                    Some(d) => d,
                                    None => continue,
                                };
                                if !add(fnv(&doc), shards) {
                                    continue;
                                }
                                initial.fetch_add(1, Relaxed);
                                let mut stack = vec![(doc, 1usize)];
                                while let Some((doc, depth)) = stack.pop() {
                                    let pre = Pre::new(&doc);
                                    let cfgs = if depth == 1 { &fam.configs } else { &fam.next };
                                    for cfg in cfgs {
                                        watch.start.store(1 + t0.elapsed().as_millis() as u64, Relaxed);
                                        write_slot(&slot, &doc, &cfg.name);
                                        let out = clean(&doc, cfg);
                                        trans.fetch_add(1, Relaxed);
                                        match out {
                                            Outcome::Ok(_) => oks.fetch_add(1, Relaxed),
                                            _ => refused.fetch_add(1, Relaxed),
                                        };
                                        let mut note = Note::default();
                                        let case = Case { pre: &pre, out: &out, cfg, depth };
                                        let r = match panic::catch_unwind(panic::AssertUnwindSafe(|| (fam.check)(&case, &mut note))) {
                                            Ok(r) => r,
                                            Err(_) => {
                                                eprintln!(
                                                    "HARNESS PANIC {} on\n{}\n{:?}",
                                                    LAST_PANIC.with(|p| p.borrow().clone()),
                                                    doc,
                                                    out
                                                );
                                                std::process::exit(3);
                                            }
                                        };
                                        watch.start.store(0, Relaxed);
                                        if note.nontrivial {
                                            nontriv.fetch_add(1, Relaxed);
                                        }
                                        add(note.observed, outc);
                                        let otext = match out {
                                            Outcome::Ok(ref s) => s.clone(),
                                            Outcome::Err(ref e) => format!("ERROR {}", e),
                                            Outcome::Panic(ref e) => format!("PANIC {}", e),
                                        };
                                        if i % (fam.size / 3 + 1) == 0 && depth == 1 {
                                            let mut s = samples.lock().unwrap();
                                            if s.len() < 3 {
                                                s.push((i, doc.clone(), cfg.name.clone(), otext.clone()));
                                            }
                                        }
                                        if let Err(what) = r {
                                            if findings.iter().any(|f| (f.input == doc && f.args == cfg.name && f.output == otext) || at_known_site(f, &otext)) {
                                                continue;
                                            }
                                            let k = nviol.fetch_add(1, Relaxed);
                                            let mut v = viols.lock().unwrap();
                                            if v.iter().any(|x| x.input == doc) {
                                                continue;
                                            }
                                            v.push(Violation {
                                                family: fam.name.clone(),
                                                index: i,
                                                input: doc.clone(),
                                                args: cfg.name.clone(),
                                                output: otext,
                                                what,
                                            });
                                            v.sort_by_key(|x| (x.index, x.input.len()));
                                            v.truncate(maxrep.max(1) as usize);
                                            if k > 200 * maxrep {
                                                stop.store(true, Relaxed);
                                            }
                                            continue;
                                        }
                                        if let Outcome::Ok(s) = out {
                                            if s != doc && add(fnv(&s), shards) && depth < fam.depth {
                                                stack.push((s, depth + 1));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    })
                    .unwrap(),
                );
            }
            // watchdog
            let (watches, done, slots2, fname) = (&watches, &done, slots.clone(), fam.name.clone());
            let prop2 = prop.clone();
            let wd = sc.spawn(move || {
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    let now = t0.elapsed().as_millis() as u64;
                    for (t, w) in watches.iter().enumerate() {
                        let s = w.start.load(Relaxed);
                        if s != 0 && now > s + HANG_S * 1000 {
                            let (i, a) = slots2
                                .as_ref()
                                .and_then(|d| read_slot(&d.join(format!("slot-{}", t))))
                                .unwrap_or_default();
                            let p = write_replay(&prop2, 0, &Violation {
                                family: fname.clone(),
                                index: 0,
                                input: i,
                                args: a,
                                output: "no output".into(),
                                what: format!("cleaning did not finish within {} s", HANG_S),
                            });
                            println!("VIOLATION property={} replay={}", prop2, p);
                            println!("  cleaning did not finish within {} s", HANG_S);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in handles {
                h.join().unwrap();
            }
            done.store(true, Relaxed);
            wd.join().unwrap();
        });
        let st: u64 = shards.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let oc: u64 = outc.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let s = &mut self.stats;
        s.states += st;
        s.outcomes += oc;
        s.transitions += trans.load(SeqCst);
        s.ok += oks.load(SeqCst);
        s.refused += refused.load(SeqCst);
        s.nontrivial += nontriv.load(SeqCst);
        s.initial += initial.load(SeqCst);
        s.families.push((fam.name.clone(), initial.load(SeqCst), st, trans.load(SeqCst)));
        for q in samples.into_inner().unwrap().into_iter().take(2) {
            if s.samples.len() < 12 {
                s.samples.push((q.1, q.2, q.3));
            }
        }
        let nv = nviol.load(SeqCst);
        eprintln!(
            "{}: family {}: {} documents, {} states, {} transitions ({} refused, {} nontrivial, {} outcomes), {} violations, {:.1}s",
            self.property,
            fam.name,
            initial.load(SeqCst),
            st,
            trans.load(SeqCst),
            refused.load(SeqCst),
            nontriv.load(SeqCst),
            oc,
            nv,
            t0.elapsed().as_secs_f64()
        );
        if stop.load(SeqCst) {
            self.capped.push(fam.name.clone());
        }
        self.violations.extend(viols.into_inner().unwrap());
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn write_replay(prop: &str, n: usize, v: &Violation) -> String {
    let d = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{}-{}.txt", prop, n));
    let mut f = std::fs::File::create(&p).unwrap();
    let _ = write!(
        f,
        "property: {}\nfamily: {} index {}\noptions: {}\nwhat: {}\n--- input\n{}\n--- output\n{}\n--- end\n",
        prop, v.family, v.index, v.args, v.what, v.input, v.output
    );
    p.display().to_string()
}

//! Runs the real executable (built from /repo's current tree) inside of scratch directories,
//! and enumerates scenarios in parallel.
use crate::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn exe() -> PathBuf {
    verif_dir().join("target").join("bin").join("release").join("svgcleaner")
}
pub fn shim() -> PathBuf {
    verif_dir().join("target").join("shim.so")
}

pub struct Res {
    /// None if killed by a signal
    pub code: Option<i32>,
    pub hung: bool,
    pub stdout: Vec<u8>,
    pub stderr: String,
}
impl Res {
    pub fn text(&self) -> String {
        format!(
            "exit {:?}{} stdout {:?} stderr {:?}",
            self.code,
            if self.hung { " (hung)" } else { "" },
            String::from_utf8_lossy(&self.stdout),
            self.stderr
        )
    }
    /// Normal end: not killed, no panic.
    pub fn sane(&self) -> Result<(), String> {
        if self.hung {
            return Err("the program did not end".into());
        }
        match self.code {
            None => return Err("the program was killed by a signal".into()),
            Some(101) => return Err(format!("the program panicked: {}", self.stderr)),
            _ => {}
        }
        if self.stderr.contains("panicked at") {
            return Err(format!("the program panicked: {}", self.stderr));
        }
        Ok(())
    }
    pub fn reported_error(&self) -> bool {
        self.stderr.lines().any(|l| l.starts_with("Error") || l.starts_with("error"))
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// Sends stderr to /dev/null, returns the original one.
unsafe fn silence() -> i32 {
    use std::os::fd::AsRawFd;
    let saved = dup(2);
    let n = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    dup2(n.as_raw_fd(), 2);
    saved
}
static RUNNING: OnceLock<Mutex<Vec<(u32, Instant, bool)>>> = OnceLock::new();
fn running() -> &'static Mutex<Vec<(u32, Instant, bool)>> {
    RUNNING.get_or_init(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(100));
            if let Some(m) = RUNNING.get() {
                for r in m.lock().unwrap().iter_mut() {
                    if r.1.elapsed() > Duration::from_secs(20) && !r.2 {
                        r.2 = true;
                        unsafe {
                            kill(r.0 as i32, 9);
                        }
                    }
                }
            }
        });
        Mutex::new(vec![])
    })
}

/// The scratch directory of one worker.
pub struct Worker {
    pub dir: PathBuf,
    io: PathBuf,
}

impl Worker {
    pub fn new(root: &Path, n: usize) -> Worker {
        let dir = root.join(format!("w{}", n)).join("cwd");
        let io = root.join(format!("w{}", n)).join("io");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::create_dir_all(&io).unwrap();
        Worker { dir, io }
    }

    /// Empties the scratch directory.
    pub fn reset(&self) {
        assert!(self.dir.ends_with("cwd"));
        if let Ok(d) = std::fs::read_dir(&self.dir) {
            for e in d.flatten() {
                let p = e.path();
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    let _ = std::fs::remove_dir_all(&p);
                } else {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }

    pub fn put(&self, name: &str, data: &[u8]) {
        let p = self.dir.join(name);
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(p, data).unwrap();
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(name)).ok()
    }

    /// Every file below the scratch directory.
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        fn rec(d: &Path, pre: &str, m: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                let n = format!("{}{}", pre, e.file_name().to_string_lossy());
                let t = e.file_type().unwrap();
                if t.is_dir() {
                    m.insert(format!("{}/", n), vec![]);
                    rec(&e.path(), &format!("{}/", n), m);
                } else if t.is_symlink() {
                    let l = std::fs::read_link(e.path()).unwrap();
                    m.insert(format!("{} -> {}", n, l.display()), std::fs::read(e.path()).unwrap_or_default());
                } else {
                    m.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
        let mut m = BTreeMap::new();
        rec(&self.dir, "", &mut m);
        m
    }

    pub fn run(&self, args: &[String], stdin: Option<&[u8]>, env: &[(&str, &str)]) -> Res {
        self.run_in(&self.dir, args, stdin, env, false)
    }

    pub fn run_in(&self, cwd: &Path, args: &[String], stdin: Option<&[u8]>, env: &[(&str, &str)], clear: bool) -> Res {
        let so = self.io.join("stdout");
        let se = self.io.join("stderr");
        let si = self.io.join("stdin");
        let mut c = Command::new(exe());
        if clear {
            c.env_clear();
        }
        c.args(args).current_dir(cwd).stdout(std::fs::File::create(&so).unwrap()).stderr(std::fs::File::create(&se).unwrap());
        for (k, v) in env {
            c.env(k, v);
        }
        match stdin {
            Some(d) => {
                std::fs::write(&si, d).unwrap();
                c.stdin(std::fs::File::open(&si).unwrap());
            }
            None => {
                c.stdin(Stdio::null());
            }
        }
        let mut ch = c.spawn().expect("cannot start the executable under test");
        let pid = ch.id();
        running().lock().unwrap().push((pid, Instant::now(), false));
        let st = ch.wait().unwrap();
        let hung = {
            let mut g = running().lock().unwrap();
            let k = g.iter().position(|r| r.0 == pid).unwrap();
            g.remove(k).2
        };
        let _ = st.signal();
        Res {
            code: st.code(),
            hung,
            stdout: std::fs::read(&so).unwrap_or_default(),
            stderr: String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).to_string(),
        }
    }
}

/// What happened in one scenario.
pub struct Scn {
    pub input: String,
    pub args: String,
    pub output: String,
    /// executions of the code under test
    pub runs: u64,
    pub failed: bool,
    pub nontrivial: bool,
    pub verdict: Result<(), String>,
}
impl Scn {
    pub fn new(input: String, args: String) -> Scn {
        Scn { input, args, output: String::new(), runs: 0, failed: false, nontrivial: true, verdict: Ok(()) }
    }
    pub fn fail(mut self, what: String) -> Scn {
        self.verdict = Err(what);
        self
    }
}

impl Run {
    /// Runs all scenarios 0..size.
    pub fn scenarios(&mut self, name: &str, size: u64, f: impl Fn(u64, &Worker) -> Option<Scn> + Sync) {
        if self.over.is_some() {
            return;
        }
        if let Some(ref x) = self.filter {
            if !name.contains(x.as_str()) {
                return;
            }
        }
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let root = match self.slots {
            Some(ref s) => s.join("scratch"),
            None => std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id())),
        };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let (trans, oks, failed, nontriv, docs, nviol) =
            (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let outs: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let viols: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let announced: Mutex<Vec<String>> = Mutex::new(vec![]);
        let samples: Mutex<Vec<(String, String, String)>> = Mutex::new(vec![]);
        let maxrep = self.max_report.max(1);
        let t0 = Instant::now();
        let chunk = (size / (threads as u64 * 32)).clamp(1, 64);
        let findings = &self.findings;
        // the code under test writes messages
        let saved = if self.silent { Some(unsafe { silence() }) } else { None };
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop, trans, oks, failed, nontriv, docs, nviol, seen, outs, viols, samples, f, root, announced) =
                    (&next, &stop, &trans, &oks, &failed, &nontriv, &docs, &nviol, &seen, &outs, &viols, &samples, &f, &root, &announced);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let w = Worker::new(root, t);
                        loop {
                            let i0 = next.fetch_add(chunk, SeqCst);
                            if i0 >= size || stop.load(Relaxed) {
                                break;
                            }
                            for i in i0..(i0 + chunk).min(size) {
                                let s = match f(i, &w) {
                                    Some(s) => s,
                                    None => continue,
                                };
                                docs.fetch_add(1, Relaxed);
                                trans.fetch_add(s.runs.max(1), Relaxed);
                                if s.failed { failed.fetch_add(1, Relaxed) } else { oks.fetch_add(1, Relaxed) };
                                if s.nontrivial {
                                    nontriv.fetch_add(1, Relaxed);
                                }
                                seen.lock().unwrap().insert(fnv(&format!("{}\n{}", s.args, s.input)));
                                outs.lock().unwrap().insert(fnv(&s.output));
                                if i % (size / 3 + 1) == 0 {
                                    samples.lock().unwrap().push((s.input.clone(), s.args.clone(), s.output.clone()));
                                }
                                if let Err(what) = s.verdict {
                                    if let Some(k) = findings.iter().find(|k| k.input == s.input && k.args == s.args && k.output == s.output) {
                                        announced.lock().unwrap().push(format!("KNOWN-FINDING: property={} {}", k.property, k.what));
                                        continue;
                                    }
                                    let k = nviol.fetch_add(1, Relaxed);
                                    let mut v = viols.lock().unwrap();
                                    v.push(Violation {
                                        family: name.to_string(),
                                        index: i,
                                        input: s.input,
                                        args: s.args,
                                        output: s.output,
                                        what,
                                    });
                                    v.sort_by_key(|x| x.index);
                                    v.truncate(maxrep);
                                    if k > 200 * maxrep as u64 {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if let Some(fd) = saved {
            unsafe {
                dup2(fd, 2);
                close(fd);
            }
        }
        let _ = std::fs::remove_dir_all(&root);
        let (st, oc) = (seen.into_inner().unwrap().len() as u64, outs.into_inner().unwrap().len() as u64);
        let s = &mut self.stats;
        s.states += st + oc;
        s.outcomes += oc;
        s.transitions += trans.load(SeqCst);
        s.ok += oks.load(SeqCst);
        s.refused += failed.load(SeqCst);
        s.nontrivial += nontriv.load(SeqCst);
        s.initial += docs.load(SeqCst);
        s.families.push((name.to_string(), docs.load(SeqCst), st + oc, trans.load(SeqCst)));
        for q in samples.into_inner().unwrap().into_iter().take(2) {
            if s.samples.len() < 12 {
                s.samples.push(q);
            }
        }
        eprintln!(
            "{}: family {}: {} scenarios, {} distinct, {} runs ({} failed runs, {} outcomes), {} violations, {:.1}s",
            self.property,
            name,
            docs.load(SeqCst),
            st,
            trans.load(SeqCst),
            failed.load(SeqCst),
            oc,
            nviol.load(SeqCst),
            t0.elapsed().as_secs_f64()
        );
        if stop.load(SeqCst) {
            self.capped.push(name.to_string());
        }
        let mut a = announced.into_inner().unwrap();
        a.sort();
        a.dedup();
        self.known.extend(a);
        self.violations.extend(viols.into_inner().unwrap());
    }
}

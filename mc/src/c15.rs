//! C15: faults of input and output. A preloaded shim decides the result of every call on the input and
//! the output; all patterns of results up to a depth are enumerated and the real executable is run under each.
use crate::bin::*;
use crate::c14::result;
use crate::engine::*;
use crate::fam::{product, radix};

fn docs() -> Vec<(&'static str, String, Vec<&'static str>)> {
    let ns = "xmlns=\"http://www.w3.org/2000/svg\"";
    vec![
        ("small", format!("<svg {}>\n <text>é日本😀</text>\n</svg>", ns), vec![]),
        ("lines", format!("<svg {}>\n\n\n\n <g     >    \n<text>é日</text><path      d=\"M   1   2   3   4   5   0   z\"/></g></svg>        \n     \n       \n        ", ns), vec!["--indent=1", "--append-newline=true"]),
        ("long", format!("<svg {}>{}</svg>", ns, "<path d=\"M 10 20 L 30 40 L 50 20 Z\"/>".repeat(500)), vec![]),
        ("long lines", format!("<svg {}>\n{}</svg>", ns, "      <path d=\"M 10 20 L 30 40 L 50 20 Z\"/>\n".repeat(700)), vec!["--indent=2"]),
    ]
}

const ROUTES: &[&str] = &["file to file", "file to stdout", "stdin to stdout", "stdin to file", "overwrite"];

struct Plan {
    plan: String,
    at: Option<(usize, char)>,
    only: &'static str,
}

fn execute(w: &Worker, doc: &(&str, String, Vec<&str>), route: &str, p: &Plan, bad: bool, extra: &[&str]) -> Scn {
    let text = if bad { doc.1.replace("<svg ", "<svg onload=\"a()\" ") } else { doc.1.clone() };
    w.reset();
    w.put("in.svg", text.as_bytes());
    let mut args: Vec<String> = doc.2.iter().chain(extra).map(|s| s.to_string()).collect();
    let v: &[&str] = match route {
        "file to stdout" => &["-c", "in.svg"],
        "stdin to stdout" => &["-c", "-"],
        "stdin to file" => &["out.svg", "-"],
        "overwrite" => &["in.svg", "in.svg"],
        _ => &["in.svg", "out.svg"],
    };
    args.extend(v.iter().map(|s| s.to_string()));
    let sh = shim().display().to_string();
    let log = w.dir.join("../io/log");
    let _ = std::fs::remove_file(&log);
    let logs = log.display().to_string();
    let at = p.at.map(|a| format!("{}:{}", a.0, a.1));
    let mut env: Vec<(&str, &str)> = vec![("LD_PRELOAD", &sh), ("SHIM_PLAN", &p.plan), ("SHIM_ONLY", p.only), ("SHIM_LOG", &logs)];
    if let Some(ref a) = at {
        env.push(("SHIM_AT", a));
    }
    let stdin = route.starts_with("stdin");
    let r = w.run(&args, if stdin { Some(text.as_bytes()) } else { None }, &env);
    let trace = std::fs::read_to_string(&log).unwrap_or_default().replace('\n', " ");
    let mut s = Scn::new(
        format!("{} ({}): plan {:?} at {:?} for calls '{}'", doc.0, route, p.plan, at, p.only),
        args.join(" "),
    );
    s.runs = 1;
    let short: String = trace.chars().take(400).collect();
    s.output = format!("{} calls: {}", if r.stdout.len() > 400 { format!("stdout {} bytes, stderr {:?}", r.stdout.len(), r.stderr) } else { r.text() }, short);
    s.nontrivial = trace.contains('-') || trace.contains('1') || trace.contains('h') || trace.contains('3');
    if let Err(e) = r.sane() {
        return s.fail(e);
    }
    let err = r.reported_error();
    s.failed = err;
    let to_stdout = route.ends_with("stdout");
    let target = if route == "overwrite" { "in.svg" } else { "out.svg" };
    if bad {
        // the failed run reports its error and a copy is complete or an error is reported (it is anyway)
        if !err {
            return s.fail("a failed run reports no error".into());
        }
        if w.get("in.svg").as_deref() != Some(text.as_bytes()) {
            return s.fail("the input file was changed by a failed run".into());
        }
        if !r.stdout.is_empty() {
            return s.fail("a failed run writes to the standard output".into());
        }
        if extra.contains(&"--copy-on-error") && route == "file to file" && !trace.contains('-') {
            if w.get("out.svg").as_deref() != Some(text.as_bytes()) {
                return s.fail("the copy is not complete although nothing failed".into());
            }
        }
        return s;
    }
    let mut opts: Vec<&str> = doc.2.clone();
    opts.extend(extra.iter().filter(|e| **e != "--multipass" && **e != "--quiet"));
    let exp = match result(&text, &opts, extra.contains(&"--multipass")) {
        Some(x) => x,
        None => return s.fail("HARNESS: the document can't be cleaned".into()),
    };
    let got = if to_stdout { Some(r.stdout.clone()) } else { w.get(target) };
    if err {
        // reading failed: nothing may have been written
        let read_failed = !trace.contains('w');
        if read_failed && trace.split_whitespace().any(|c| c.starts_with('r') && (c.contains('e') || c.contains('a'))) {
            if !r.stdout.is_empty() || w.get("in.svg").as_deref() != Some(text.as_bytes()) || (!to_stdout && target == "out.svg" && got.is_some()) {
                return s.fail("files were changed although the input can't be read".into());
            }
        }
        // no fault was injected, so no error is expected
        if !trace.split_whitespace().any(|c| c.ends_with('-') || c.ends_with("z0")) {
            return s.fail("an error is reported although no call failed".into());
        }
        return s;
    }
    if got.as_deref() != Some(exp.as_bytes()) {
        return s.fail(format!(
            "success is reported, but {} of {} bytes were written{}",
            got.as_ref().map_or(0, |g| g.len()),
            exp.len(),
            if got.map_or(false, |g| exp.as_bytes().starts_with(&g)) { " (truncated)" } else { " (different)" }
        ));
    }
    s
}

fn word(mut i: u64, alpha: &str, len: usize) -> String {
    let a: Vec<char> = alpha.chars().collect();
    (0..len)
        .map(|_| {
            let c = a[(i % a.len() as u64) as usize];
            i /= a.len() as u64;
            c
        })
        .collect()
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let ds = docs();
    let (ra, wa) = (".1hiea", ".1hienpz");
    let rl = if t { 6 } else { 4 };
    let wl = if t { 5 } else { 4 };
    let rn = (ra.len() as u64).pow(rl as u32);
    let wn = (wa.len() as u64).pow(wl as u32);
    let rr = ["file to file", "stdin to stdout"];
    let rd = 2;
    r.scenarios("all patterns of reads", rn * 2 * rd * 2, |i, w| {
        let k = radix(i % (2 * rd * 2), &[2, rd as usize, 2]);
        let mut plan = word(i / (2 * rd * 2), ra, rl);
        plan.push(['.', '1'][k[2]]);
        Some(execute(w, &ds[[0, 2][k[1]]], rr[k[0]], &Plan { plan, at: None, only: "r" }, false, &["--quiet"])).filter(|_| !(k[1] == 1 && k[2] == 1))
    });
    let wr = ["file to file", "file to stdout"];
    let dims = [2usize, ds.len(), 2];
    let per = product(&dims);
    r.scenarios("all patterns of writes", wn * per, |i, w| {
        let k = radix(i % per, &dims);
        // after the pattern everything is written in one byte or normal writes (long documents: normal)
        if k[1] >= 2 && k[2] == 1 {
            return None;
        }
        let p = i / per;
        // the quick tier explores patterns of length 4 for the small documents and 3 for the long ones
        let len = if k[1] >= 2 && !t { 3 } else { wl };
        if len < wl && p >= (wa.len() as u64).pow(len as u32) {
            return None;
        }
        let mut plan = word(p, wa, len);
        plan.push(['.', '1'][k[2]]);
        Some(execute(w, &ds[k[1]], wr[k[0]], &Plan { plan, at: None, only: "w" }, false, &[]))
    });
    // one fault at every call of a run made of tiny calls
    let faults = ['e', 'n', 'p', 'a', 'i', 'z'];
    let rest = ["1", "3", "h", "."];
    let dims = [faults.len(), rest.len(), ROUTES.len(), 2, if t { 700 } else { 330 }];
    r.scenarios("a fault at every call", product(&dims), |i, w| {
        let k = radix(i, &dims);
        // runs of ordinary calls are short
        if (rest[k[1]] == "h" || rest[k[1]] == ".") && k[4] > 40 || rest[k[1]] == "3" && k[4] > 150 {
            return None;
        }
        if !t && rest[k[1]] == "1" && (k[0] + k[4]) % 3 != 0 && k[4] > 12 && k[0] > 0 {
            return None;
        }
        Some(execute(w, &ds[k[3]], ROUTES[k[2]], &Plan { plan: rest[k[1]].into(), at: Some((k[4], faults[k[0]])), only: "rw" }, false, &[]))
    });
    // two faults anywhere, including open and stat
    let all = ['e', 'n', 'i', 'a', '1', 'h'];
    let len = 14;
    let dims = [len, len, all.len(), all.len(), ROUTES.len(), 2, 2];
    r.scenarios("two faults anywhere", product(&dims), |i, w| {
        let k = radix(i, &dims);
        if k[0] >= k[1] || (!t && k[6] == 1) {
            return None;
        }
        let mut p = vec!['.'; len];
        p[k[0]] = all[k[2]];
        p[k[1]] = all[k[3]];
        p.push('.');
        let extra: &[&str] = if k[6] == 1 { &["--multipass"] } else { &[] };
        Some(execute(w, &ds[if k[5] == 0 { 1 } else { 3 }], ROUTES[k[4]], &Plan { plan: p.into_iter().collect(), at: None, only: "rwos" }, false, extra))
    });
    // a failed run that copies the input
    let dims = [len, len, all.len(), all.len(), 2, 2];
    r.scenarios("faults while copying on error", product(&dims), |i, w| {
        let k = radix(i, &dims);
        if k[0] > k[1] {
            return None;
        }
        let mut p = vec!['.'; len];
        p[k[0]] = all[k[2]];
        p[k[1]] = all[k[3]];
        p.push('.');
        let extra: &[&str] = if k[4] == 1 { &["--copy-on-error", "--multipass"] } else { &["--copy-on-error"] };
        Some(execute(w, &ds[[0, 3][k[5]]], ROUTES[0], &Plan { plan: p.into_iter().collect(), at: None, only: "rwos" }, true, extra))
    });
}

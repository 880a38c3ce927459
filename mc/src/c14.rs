//! C14: a failed run never damages files. Every combination of input kind, file layout, switches and
//! arguments is run with the real executable; the complete directory is compared before and after.
use crate::bin::*;
use crate::engine::*;
use crate::fam::{product, radix};

const OLD: &[u8] = b"<svg>precious old content that is longer than anything the tool would write here, with \xff bytes</svg>";

/// Inputs and whether they can be cleaned (None: the file doesn't exist).
fn inputs() -> Vec<(&'static str, Option<Vec<u8>>, Kind)> {
    let b = |s: &str| Some(s.as_bytes().to_vec());
    let ns = "xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"";
    let d = |s: &str| Some(format!("<svg {}>\n  {}\n  <path d=\"M 10 20 L 30 40 L 50 20 Z\"/>\n</svg>\n", ns, s).into_bytes());
    vec![
        ("valid", d("<rect width=\"10\" height=\"20\"/>"), Kind::Good),
        ("missing", None, Kind::NoLoad),
        ("not UTF-8", Some(b"<svg xmlns=\"http://www.w3.org/2000/svg\"><title>\xff\xfe</title></svg>".to_vec()), Kind::NoLoad),
        ("truncated UTF-8", Some("<svg xmlns=\"http://www.w3.org/2000/svg\"/>é".as_bytes()[..43].to_vec()), Kind::NoLoad),
        ("empty", b(""), Kind::Bad),
        ("blank", b(" \n "), Kind::Bad),
        ("no svg", b("<html/>"), Kind::Bad),
        ("not XML", b("<svg xmlns=\"http://www.w3.org/2000/svg\"><g fill=red></g></svg>"), Kind::Bad),
        ("cut", b("<svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"M 1"), Kind::Bad),
        ("bad attribute", d("<rect fill=\"qwe rty\" width=\"10\" height=\"20\"/>"), Kind::Bad),
        ("bad css", d("<style>a { b </style>"), Kind::Bad),
        ("script", d("<script>alert(1)</script>"), Kind::Bad),
        ("event", d("<rect onclick=\"a()\" width=\"10\" height=\"20\"/>"), Kind::Bad),
        ("animation", d("<rect width=\"10\" height=\"20\"><animate attributeName=\"x\" to=\"5\"/></rect>"), Kind::Bad),
        ("conditional", d("<rect systemLanguage=\"en\" width=\"10\" height=\"20\"/>"), Kind::Bad),
        ("external", d("<use xlink:href=\"other.svg#a\"/>"), Kind::Bad),
        ("inherit", d("<rect fill=\"inherit\" width=\"10\" height=\"20\" stroke-width=\"inherit\"/>"), Kind::Bad),
        ("stop offset", d("<linearGradient id=\"a\"><stop offset=\"q\"/></linearGradient>"), Kind::Bad),
        // refused inputs whose bytes must be copied as they are
        ("BOM", Some(format!("\u{feff}<svg {}><script/></svg>\n", ns).into_bytes()), Kind::Bad),
        ("leading blanks", b(" \n\t<svg xmlns=\"http://www.w3.org/2000/svg\"><script/></svg>  \n\n"), Kind::Bad),
        ("line ends", b("\r\n<svg xmlns=\"http://www.w3.org/2000/svg\">\r\n<script/>\r</svg>\r\n\r\n"), Kind::Bad),
        ("junk after", b("<svg xmlns=\"http://www.w3.org/2000/svg\"><script/></svg>\n<!-- c -->junk\0\u{1}\n"), Kind::Bad),
        ("other encoding", b("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><svg xmlns=\"http://www.w3.org/2000/svg\"><title>é</title><script/></svg>"), Kind::Bad),
        ("small", b("<svg xmlns=\"http://www.w3.org/2000/svg\"><g id=\"a\"><path d=\"M1 2L3 4 5 0z\"/></g></svg>"), Kind::Good),
        ("entity", b("<!DOCTYPE svg [<!ENTITY a \"b\">]><svg xmlns=\"http://www.w3.org/2000/svg\"><g/></svg>"), Kind::Any),
        ("long good", Some(format!("<svg {}>{}</svg>", ns, "<path d=\"M 10 20 L 30 40 L 50 20 Z\"/>".repeat(400)).into_bytes()), Kind::Good),
        ("long bad", Some(format!("<svg {}>{}<script/></svg>", ns, "<path d=\"M 10 20 L 30 40 L 50 20 Z\"/>".repeat(400)).into_bytes()), Kind::Bad),
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// accepted
    Good,
    /// refused after loading
    Bad,
    /// can't be read
    NoLoad,
    /// whatever the library says
    Any,
}

/// How the output is given.
const LAYOUT: &[&str] = &[
    "new", "existing", "same path", "dot alias", "symlink to input", "hard link to input", "input is symlink to output", "missing directory", "directory",
    "stdout", "stdin to stdout", "stdin to new", "stdin to existing", "symlink to other", "existing unicode", "absolute alias", "directory alias", "stdout with unused output",
];

const EXTRA: &[&[&str]] = &[
    &[],
    &["--indent=4", "--no-defaults", "--join-style-attributes=no"],
    &["--indent=4", "--no-defaults", "--join-style-attributes=no", "--allow-bigger-file"],
    &["--append-newline=true"],
    &["--indent=9"],
    &["--unknown"],
    &["--trim-paths=false", "--join-arcto-flags=true"],
    &["third.svg"],
    &["--paths-to-relative=no"],
    &["--coordinates-precision=0"],
    &["--remove-title"],
];

pub fn run(r: &mut Run) {
    let ins = inputs();
    let t = r.thorough();
    let dims = [ins.len(), LAYOUT.len(), EXTRA.len(), 2, 2, 2];
    r.scenarios("failures", product(&dims), |i, w| {
        let k = radix(i, &dims);
        let (name, data, kind) = &ins[k[0]];
        let layout = LAYOUT[k[1]];
        let extra = EXTRA[k[2]];
        let (copy, multi, quiet) = (k[3] == 1, k[4] == 1, k[5] == 1);
        w.reset();
        let stdin = layout.starts_with("stdin");
        w.put("other.svg", OLD);
        w.put("a/b.txt", b"x");
        let mut inp = "in.svg".to_string();
        let mut out = Some("out.svg".to_string());
        // files
        if let Some(d) = data {
            if layout == "input is symlink to output" {
                w.put("out.svg", d);
                std::os::unix::fs::symlink("out.svg", w.dir.join("in.svg")).unwrap();
            } else {
                w.put("in.svg", d);
            }
        } else if stdin {
            return None;
        }
        let mut alias = false;
        match layout {
            "existing" | "stdin to existing" => w.put("out.svg", OLD),
            "same path" => {
                out = Some("in.svg".into());
                alias = true;
            }
            "dot alias" => {
                out = Some("./in.svg".into());
                alias = true;
            }
            "directory alias" => {
                out = Some("a/../in.svg".into());
                alias = true;
            }
            "absolute alias" => {
                out = Some(w.dir.join("in.svg").display().to_string());
                alias = true;
            }
            "symlink to input" => {
                std::os::unix::fs::symlink("in.svg", w.dir.join("out.svg")).unwrap();
                alias = true;
            }
            "hard link to input" => {
                if data.is_none() {
                    return None;
                }
                std::fs::hard_link(w.dir.join("in.svg"), w.dir.join("out.svg")).unwrap();
                alias = true;
            }
            "input is symlink to output" => alias = true,
            "missing directory" => out = Some("nope/out.svg".into()),
            "directory" => {
                std::fs::create_dir_all(w.dir.join("out.svg")).unwrap();
            }
            "stdout" => out = None,
            "stdout with unused output" => {}
            "stdin to stdout" => {
                out = None;
                inp = "-".into();
            }
            "symlink to other" => std::os::unix::fs::symlink("other.svg", w.dir.join("out.svg")).unwrap(),
            "existing unicode" => {
                out = Some("é ü.svg".into());
                w.put("é ü.svg", OLD);
            }
            _ => {}
        }
        let mut args: Vec<String> = extra.iter().map(|s| s.to_string()).collect();
        if copy {
            args.push("--copy-on-error".into());
        }
        if multi {
            args.push("--multipass".into());
        }
        if quiet {
            args.push("--quiet".into());
        }
        let to_stdout = layout.starts_with("stdout") || layout == "stdin to stdout";
        if to_stdout {
            args.push("-c".into());
        }
        // file arguments last, except for the surplus one
        let stdin_file = stdin && !to_stdout;
        if stdin_file {
            args.insert(0, "-".into());
            args.insert(0, out.clone().unwrap());
        } else {
            if let Some(ref o) = out {
                args.insert(0, o.clone());
            }
            args.insert(0, inp.clone());
        }
        let before = w.snapshot();
        let res = w.run(&args, if stdin { data.as_deref() } else { None }, &[]);
        let after = w.snapshot();
        let mut s = Scn::new(
            format!("input: {} ({:?}); layout: {}", name, data.as_ref().map(|d| String::from_utf8_lossy(d).chars().take(300).collect::<String>()), layout),
            args.join(" ").replace(&w.dir.display().to_string(), "$DIR"),
        );
        s.runs = 1;
        s.output = res.text().replace(&w.dir.display().to_string(), "$DIR");
        if let Err(e) = res.sane() {
            return Some(s.fail(e));
        }
        // what has to happen
        let rejected = k[2] >= 4 && !(extra == ["third.svg"] && out.is_none());
        if extra == ["third.svg"] && out.is_none() {
            return None;
        }
        // (the value is then taken from the file arguments or is the default one)
        let rejected = rejected || extra == ["--remove-title"];
        if extra == ["--remove-title"] {
            return None;
        }
        let ok = if rejected {
            None
        } else {
            match kind {
                Kind::NoLoad | Kind::Bad => None,
                Kind::Good | Kind::Any => {
                    let text = String::from_utf8(data.clone().unwrap()).unwrap();
                    match crate::c14::result(&text, extra, multi) {
                        Some(x) => Some(x),
                        None => None,
                    }
                }
            }
        };
        if *kind == Kind::Good && !rejected && k[2] != 1 && k[2] != 2 && ok.is_none() {
            return Some(s.fail("a valid document can't be cleaned".into()));
        }
        let target = out.as_ref().filter(|_| !to_stdout);
        let unwritable = layout == "missing directory" || layout == "directory";
        match ok {
            Some(x) if !(unwritable && target.is_some()) => {
                // success
                if res.reported_error() {
                    return Some(s.fail("a successful run reports an error".into()));
                }
                if to_stdout {
                    if res.stdout != x.as_bytes() || before != after {
                        return Some(s.fail("wrong standard output, or changed files".into()));
                    }
                } else {
                    if !res.stdout.is_empty() {
                        return Some(s.fail("something is written to the standard output".into()));
                    }
                    if std::fs::read(w.dir.join(target.unwrap())).ok().as_deref() != Some(x.as_bytes()) {
                        return Some(s.fail("the output file doesn't hold the result".into()));
                    }
                    // everything else stays
                    if !alias && !stdin && w.get("in.svg") != *data {
                        return Some(s.fail("the input file is changed".into()));
                    }
                    if let Some(e) = others_changed(&before, &after, layout) {
                        return Some(s.fail(e));
                    }
                }
                Some(s)
            }
            _ => {
                s.failed = true;
                if !res.reported_error() {
                    return Some(s.fail("the failure is not reported".into()));
                }
                if !res.stdout.is_empty() {
                    return Some(s.fail("a failed run writes to the standard output".into()));
                }
                if !stdin && data.is_some() && w.get("in.svg") != *data {
                    return Some(s.fail("the input file is changed by a failed run".into()));
                }
                if before == after {
                    // untouched: fine, unless a copy is requested and possible
                    if copy && !rejected && !stdin && !alias && target.is_some() && !unwritable && ok.is_none() && *kind != Kind::NoLoad {
                        return Some(s.fail("--copy-on-error didn't copy".into()));
                    }
                    return Some(s);
                }
                if !copy || rejected || stdin || target.is_none() || data.is_none() {
                    return Some(s.fail("a failed run changed files".into()));
                }
                if std::fs::read(w.dir.join(target.unwrap())).ok() != *data {
                    return Some(s.fail("the output of a failed run is neither untouched nor a copy of the input".into()));
                }
                if let Some(e) = others_changed(&before, &after, layout) {
                    return Some(s.fail(e));
                }
                Some(s)
            }
        }
    });
    // option sets that make a later pass fail or the result grow: the same guarantees
    let _ = t;
    r.scenarios("file names", product(&[NAMES.len(), NAMES.len(), 3, 2]), |i, w| {
        let k = radix(i, &[NAMES.len(), NAMES.len(), 3, 2]);
        let (a, b) = (NAMES[k[0]], NAMES[k[1]]);
        let data = inputs()[if k[2] == 0 { 0 } else { 11 }].1.clone().unwrap();
        w.reset();
        w.put("sub/x.txt", b"x");
        w.put(a, &data);
        if k[2] == 2 && a != b {
            w.put(b, OLD);
        }
        let before = w.snapshot();
        let mut args: Vec<String> = vec![a.into(), b.into()];
        if k[3] == 1 {
            args.push("--copy-on-error".into());
        }
        let res = w.run(&args, None, &[]);
        let after = w.snapshot();
        let mut s = Scn::new(format!("{} -> {}: {}", a, b, String::from_utf8_lossy(&data)), args.join(" "));
        s.output = res.text();
        s.runs = 1;
        if let Err(e) = res.sane() {
            return Some(s.fail(e));
        }
        let mut exp = before.clone();
        if k[2] == 0 {
            let x = result(std::str::from_utf8(&data).unwrap(), &[], false).unwrap();
            exp.insert(b.into(), x.into_bytes());
        } else {
            s.failed = true;
            if k[3] == 1 && a != b {
                exp.insert(b.into(), data.clone());
            }
            if !res.reported_error() {
                return Some(s.fail("the failure is not reported".into()));
            }
        }
        if exp != after {
            return Some(s.fail("files are not as they should be".into()));
        }
        Some(s)
    });
}

const NAMES: &[&str] = &["in.svg", "IN.SVG", "in.svg.svg", "a b.svg", " .svg", "é.svg", "sub/in.svg", ".svg", "in.svg~.svg", "%20.svg", "$HOME.svg", "*.svg", "in;rm.svg", "in\n.svg", "日本.SVG", "sub/y.svg"];

fn others_changed(
    before: &std::collections::BTreeMap<String, Vec<u8>>,
    after: &std::collections::BTreeMap<String, Vec<u8>>,
    layout: &str,
) -> Option<String> {
    for (k, v) in after {
        let ours = k.starts_with("out.svg") || k.starts_with("é ü.svg") || k.starts_with("in.svg") || (layout == "symlink to other" && k == "other.svg");
        if !ours && before.get(k) != Some(v) {
            return Some(format!("'{}' was created or changed", k));
        }
    }
    for k in before.keys() {
        if !after.contains_key(k) {
            return Some(format!("'{}' was removed or replaced", k));
        }
    }
    None
}

/// The documented result of a run with these extra arguments, None for a failure.
/// One pass, or passes until the size stays the same (or would grow).
pub fn passes(text: &str, cfg: &Config, multi: bool) -> Option<String> {
    let mut t = clean(text, cfg).ok()?.to_string();
    while multi {
        let n = clean(&t, cfg).ok()?.to_string();
        if n.len() > t.len() {
            break;
        }
        let end = n.len() == t.len();
        t = n;
        if end {
            break;
        }
    }
    Some(t)
}

pub fn result(text: &str, extra: &[&str], multi: bool) -> Option<String> {
    let a: Vec<&str> = extra.iter().copied().filter(|a| *a != "--allow-bigger-file" && *a != "third.svg").collect();
    let cfg = try_config(&a).ok()?;
    let mut t = passes(text, &cfg, multi)?;
    if t.len() > text.len() && !extra.contains(&"--allow-bigger-file") {
        return None;
    }
    if extra.contains(&"--append-newline=true") {
        t.push('\n');
    }
    Some(t)
}

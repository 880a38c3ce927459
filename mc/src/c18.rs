//! C18: determinism. Every document of the corpus is cleaned repeatedly (same thread, fresh thread, fresh
//! process, after other documents, through every route, in different environments); all bytes must agree.
use crate::bin::*;
use crate::c13::{flags, PROBES};
use crate::engine::*;
use crate::fam::{product, radix, seq, seq_count, solo};

fn again(c: &Case, note: &mut Note) -> Result<(), String> {
    let show = |o: &Outcome| format!("{:?}", o).chars().take(600).collect::<String>();
    if let Outcome::Ok(o) = c.out {
        note.observed = fnv(o);
        note.nontrivial = o != c.pre.text;
    }
    // panics are a matter of another property
    let norm = |o: &Outcome| match o {
        Outcome::Panic(_) => Outcome::Panic(String::new()),
        o => o.clone(),
    };
    for _ in 0..2 {
        let o = clean(c.pre.text, c.cfg);
        if norm(&o) != norm(c.out) {
            return Err(format!("another run in the same thread gives {}", show(&o)));
        }
    }
    if note.observed % 4 == 0 {
        let o = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || clean(c.pre.text, c.cfg)).unwrap().join()
        });
        match o {
            Ok(o) if norm(&o) == norm(c.out) => {}
            Ok(o) => return Err(format!("a run in a fresh thread gives {}", show(&o))),
            Err(_) => return Err("a run in a fresh thread dies".into()),
        }
    }
    Ok(())
}

/// Documents of histories.
fn history_docs() -> Vec<String> {
    let b = crate::fam::svg;
    let mut v: Vec<String> = PROBES.iter().map(|s| s.to_string()).collect();
    v.extend([
        b("<defs><linearGradient id='a'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient></defs><path fill='url(#a)' d='M1 2 3 4 5 0z'/>"),
        b("<defs><linearGradient id='b'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient><linearGradient id='a'><stop offset='0'/><stop offset='1' stop-color='red'/></linearGradient></defs><path fill='url(#a)' d='M1 2 3 4 5 0z'/><path fill='url(#b)' d='M1 2 3 4 5 9z'/>"),
        b("<script/>"),
        b("<path d='M 1 2 L"),
        b("<text>a b<tspan x='1 2'>c</tspan></text><text font-size='5' xml:space='preserve'> q </text>"),
        b("<style>.a{fill:red}.b{stroke:blue}</style><path class='a b c' d='M1 2 3 4 5 0z'/>"),
        b("<g id='z1' fill='red'><g id='z2' stroke='lime' fill='red'><path id='z3' d='M1 2 3 4 5 0z'/><path d='M1 2 3 4 5 6 7 8z'/></g></g><use xlink:href='#z1'/><use xlink:href='#z3' x='4'/>"),
        format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>{}{}</svg>", (0..60).map(|i| format!("<clipPath id='c{}'><rect width='{}' height='3'/></clipPath>", i, i + 1)).collect::<String>(), (0..60).map(|i| format!("<path clip-path='url(#c{})' d='M1 2 3 4 5 0z'/>", i)).collect::<String>()),
        // values far from the usual ones
        b("<path d='M 1e6 -2e6 L 3e-7 4 A 1e5 1e-5 1000 0 1 9 99999999 z' stroke='red' stroke-width='123456.789' stroke-dasharray='200000.5 3 1e-7' stroke-dashoffset='-1e6' stroke-miterlimit='1e5' transform='matrix(1e5 0 0 1e-5 1e6 -1e6)'/><rect x='-1e7' width='1e7' height='.0000001' fill-opacity='.000001'/><text x='1e6 2e6 3' font-size='1e5' letter-spacing='-1e5'>a</text><polygon points='1e6 2 3 4 5e-7 6'/>"),
        b("<linearGradient id='a' x1='1e6' x2='-1e6%' gradientTransform='rotate(720.5)'><stop offset='1e-7' stop-opacity='1e-7'/><stop offset='1.5'/></linearGradient><radialGradient id='r' r='1e6' fx='-1e6' spreadMethod='repeat'><stop offset='-1'/></radialGradient><filter id='f'><feGaussianBlur stdDeviation='1e6 0'/></filter><g opacity='1e-9' filter='url(#f)'><ellipse rx='1e6' ry='1e-9' fill='url(#a)' stroke='url(#r)'/></g>"),
        "<html/>".into(),
        String::new(),
    ]);
    // whatever is before and after the document, and kinds of line ends
    let d = b("<title>a\r\n b</title><text> a\r\n b </text><path d='M1 2 3 4 5 0z'/>");
    for (x, y) in [(" ", ""), ("\n\t", "\n\n"), ("\r\n", "\r\n"), ("\u{feff}", ""), ("\u{feff}<?xml version='1.0'?>\n", "\n"), ("\n<?xml version='1.0'?>\n", ""), (" ", "\0"), ("\n\n", "<x"), ("<!-- c -->\n", "<!-- d -->\n"), ("", "\u{feff}"), ("", "junk")] {
        v.push(format!("{}{}{}", x, d, y));
    }
    v
}

const ENVS: &[&[(&str, &str)]] = &[
    &[],
    &[("LANG", "de_DE.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("LC_NUMERIC", "de_DE")],
    &[("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full")],
    &[("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent"), ("TERM", "dumb"), ("COLUMNS", "10"), ("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1")],
    &[("TZ", "Asia/Tokyo"), ("USER", "x"), ("SOURCE_DATE_EPOCH", "1"), ("CI", "true"), ("DEBUG", "1"), ("VERBOSE", "1")],
];

/// Runs one document through one route, in one environment.
fn route(w: &Worker, text: &str, args: &[&str], k: usize, env: usize) -> (Res, Option<Vec<u8>>, String) {
    w.reset();
    w.put("in.svg", text.as_bytes());
    w.put("d/e/x.svg", b"old");
    let mut cwd = w.dir.clone();
    let abs = w.dir.join("in.svg").display().to_string();
    let (names, target): (Vec<String>, Option<&str>) = match k {
        0 => (vec!["in.svg".into(), "out.svg".into()], Some("out.svg")),
        1 => (vec!["-c".into(), "in.svg".into()], None),
        2 => (vec!["-c".into(), "-".into()], None),
        3 => (vec!["out.svg".into(), "-".into()], Some("out.svg")),
        4 => (vec!["in.svg".into(), "in.svg".into()], Some("in.svg")),
        5 => (vec![abs, "d/e/x.svg".into()], Some("d/e/x.svg")),
        6 => {
            cwd = w.dir.join("d/e");
            (vec!["../../in.svg".into(), "x.svg".into()], Some("d/e/x.svg"))
        }
        7 => (vec!["./in.svg".into(), "d/../in.svg".into()], Some("in.svg")),
        _ => {
            std::fs::rename(w.dir.join("in.svg"), w.dir.join("très long name with spaces.SVG")).unwrap();
            (vec!["--stdout".into(), "très long name with spaces.SVG".into()], None)
        }
    };
    let mut a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    a.push("--allow-bigger-file".into());
    a.extend(names);
    let stdin = k == 2 || k == 3;
    let before = target.map(|t| std::fs::read(w.dir.join(t)).ok());
    let r = w.run_in(&cwd, &a, if stdin { Some(text.as_bytes()) } else { None }, ENVS[env], env == 1);
    let out = match target {
        None => Some(r.stdout.clone()),
        Some(t) => {
            let o = w.get(t);
            if r.reported_error() && Some(&o) == before.as_ref() {
                None
            } else {
                o
            }
        }
    };
    let out = if r.reported_error() && out.as_ref().map_or(false, |o| o.is_empty()) { None } else { out };
    (r, out, a.join(" "))
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let docs = history_docs();
    let n = docs.len();
    let optsets: Vec<Vec<&str>> = vec![vec![], vec!["--join-style-attributes=all", "--indent=2"], vec!["--no-defaults"], vec!["--apply-transform-to-paths=true", "--coordinates-precision=2"]];
    let lib = |text: &str, args: &[&str]| -> Option<Vec<u8>> {
        match clean(text, &config(args)) {
            Outcome::Ok(s) => Some(s.into_bytes()),
            _ => None,
        }
    };
    // histories: what was cleaned before doesn't matter
    let len = if t { 4 } else { 3 };
    let alone: Vec<Vec<Option<Vec<u8>>>> = optsets
        .iter()
        .map(|o| {
            docs.iter()
                .map(|d| {
                    let d = d.clone();
                    let o: Vec<String> = o.iter().map(|s| s.to_string()).collect();
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn(move || {
                            let a: Vec<&str> = o.iter().map(|s| s.as_str()).collect();
                            match clean(&d, &config(&a)) {
                                Outcome::Ok(s) => Some(s.into_bytes()),
                                _ => None,
                            }
                        })
                        .unwrap()
                        .join()
                        .unwrap()
                })
                .collect()
        })
        .collect();
    r.scenarios("histories of documents", seq_count(n, len) * 2, |i, _| {
        let h = seq(i / 2, n);
        let mixed = i % 2 == 1;
        let mut s = Scn::new(h.iter().map(|d| docs[*d].as_str()).collect::<Vec<_>>().join("\n---\n"), format!("history {:?}, options {}", h, if mixed { "alternating" } else { "defaults" }));
        let x = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, || {
                    for (j, d) in h.iter().enumerate() {
                        let o = if mixed { j % optsets.len() } else { 0 };
                        let got = lib(&docs[*d], &optsets[o]);
                        if got != alone[o][*d] {
                            return Some(format!("document {} of the history is cleaned differently than alone: {:?}", j + 1, got.map(|g| String::from_utf8_lossy(&g).to_string())));
                        }
                    }
                    None
                })
                .unwrap()
                .join()
                .unwrap_or(Some("a run panics".into()))
        });
        s.runs = h.len() as u64;
        s.output = x.clone().unwrap_or_default();
        Some(match x {
            Some(e) => s.fail(e),
            None => s,
        })
    });
    let dims = [n, optsets.len(), 9, ENVS.len(), 2];
    r.scenarios("routes and environments", product(&dims), |i, w| {
        let k = radix(i, &dims);
        let mut o = optsets[k[1]].clone();
        if k[4] == 1 {
            o.push("--multipass");
            if !t && k[3] > 0 {
                return None;
            }
        }
        let (res, got, args) = route(w, &docs[k[0]], &o, k[2], k[3]);
        let mut s = Scn::new(docs[k[0]].clone(), format!("{} [environment {}]", args.replace(&w.dir.display().to_string(), "$DIR"), k[3]));
        s.runs = 1;
        s.output = got.as_ref().map(|g| String::from_utf8_lossy(g).to_string()).unwrap_or_else(|| res.stderr.replace(&w.dir.display().to_string(), "$DIR"));
        if let Err(e) = res.sane() {
            return Some(s.fail(e));
        }
        let want = if k[4] == 1 {
            let c: Vec<&str> = optsets[k[1]].clone();
            crate::c14::result(&docs[k[0]], &c.iter().copied().chain(["--allow-bigger-file"]).collect::<Vec<_>>(), true).map(|s| s.into_bytes())
        } else {
            alone[k[1]][k[0]].clone()
        };
        s.failed = want.is_none();
        if got != want {
            return Some(s.fail(format!("the result differs from the result of the library: {:?}", want.map(|g| String::from_utf8_lossy(&g).to_string()))));
        }
        Some(s)
    });
    // spelling and order of options
    let fl = flags();
    let yes = ["true", "yes", "y"];
    let no = ["false", "no", "n"];
    let dims = [fl.len(), 2, 6, 4, PROBES.len()];
    r.scenarios("spellings of options", product(&dims), |i, w| {
        let k = radix(i, &dims);
        let name = fl[k[0]].0;
        let vals = if k[1] == 0 { yes } else { no };
        let dep: &[&str] = match (name, k[1]) {
            ("paths-to-relative", 1) => &["--remove-unused-segments=false", "--convert-segments=false"],
            ("join-arcto-flags", 0) => &["--trim-paths=true"],
            ("remove-unused-segments", 0) | ("convert-segments", 0) | ("apply-transform-to-paths", 0) => &["--paths-to-relative=true"],
            _ => &[],
        };
        let spell = |v: usize| -> Vec<String> {
            if v < 3 {
                vec![format!("--{}={}", name, vals[v])]
            } else {
                vec![format!("--{}", name), vals[v - 3].to_string()]
            }
        };
        let build = |v: usize, order: usize| -> Vec<String> {
            let d: Vec<String> = dep.iter().map(|s| s.to_string()).collect();
            let x: Vec<String> = if order == 3 { vec!["--no-defaults".to_string()] } else { vec![] };
            let q = vec!["--indent=2".to_string()];
            let b = vec!["--allow-bigger-file".to_string()];
            let f = vec!["in.svg".to_string(), "out.svg".to_string()];
            let parts = match order {
                0 => vec![spell(v), q, d, b, f, x],
                1 => vec![f, d, b, q, x, spell(v)],
                2 => vec![d, q, vec!["in.svg".to_string()], b, spell(v), vec!["out.svg".to_string()], x],
                _ => vec![d, x, spell(v), q, b, f],
            };
            parts.into_iter().flatten().collect()
        };
        let run1 = |a: &[String]| {
            w.reset();
            w.put("in.svg", PROBES[k[4]].as_bytes());
            let r = w.run(a, None, &[]);
            (w.get("out.svg"), r)
        };
        let a = build(k[2], k[3]);
        let (got, res) = run1(&a);
        let mut s = Scn::new(PROBES[k[4]].to_string(), a.join(" "));
        s.runs = 2;
        s.output = format!("{:?} {}", got.as_ref().map(|g| String::from_utf8_lossy(g).to_string()), res.stderr);
        if let Err(e) = res.sane() {
            return Some(s.fail(e));
        }
        let base: Vec<String> = build(0, if k[3] == 3 { 3 } else { 0 });
        let (want, _) = run1(&base);
        if got.is_none() || got != want {
            return Some(s.fail(format!("the equivalent arguments '{}' give {:?}", base.join(" "), want.map(|g| String::from_utf8_lossy(&g).to_string()))));
        }
        Some(s)
    });
    // documents in which several things are equally good
    let mut again_family = |name: &str, size: u64, gen: Box<dyn Fn(u64) -> Option<String> + Sync>| {
        let gs = ["--group-by-style=true", "--indent=0"];
        r.explore(crate::fam::family(name, size, gen, vec![config(&[]), config(&gs), solo(&["group-by-style"]), solo(&["remove-dupl-lineargradient", "remove-dupl-radialgradient", "remove-dupl-fegaussianblur", "regroup-gradient-stops", "merge-gradients"]), config(&["--trim-ids=true", "--ungroup-groups=false", "--join-style-attributes=all"])], again))
    };
    // siblings in groups of equal attributes
    const STYLES: &[&str] = &["", "fill='red'", "stroke='lime'", "fill='red' stroke='lime'", "fill='blue' stroke-width='2'"];
    let (n, len) = (STYLES.len(), if t { 8 } else { 7 });
    again_family("ties: siblings", seq_count(n, len) - if len > 5 { seq_count(n, 3) } else { 0 }, Box::new(move |i| {
        let q = seq(i + seq_count(n, 3), n);
        Some(crate::fam::svg(&q.iter().enumerate().map(|(j, s)| format!("<path {} d='M {} 2 L 30 40'/>", STYLES[*s], j)).collect::<String>()))
    }));
    // runs of siblings: lengths of the runs and what they share
    let dims = [3, 3, 3, 3, 3, 4];
    again_family("ties: runs of siblings", product(&dims), Box::new(move |i| {
        let k = radix(i, &dims);
        let mut s = String::new();
        for (j, l) in k[..5].iter().enumerate() {
            for m in 0..(l + 1) {
                let a = match k[5] {
                    0 => ["fill='red'", "fill='lime'"][j % 2].to_string(),
                    1 => format!("fill='#{0}{0}{0}'", j),
                    2 => format!("{} opacity='.{}'", ["fill='red'", ""][j % 2], m + 1),
                    _ => format!("fill='#{0}{0}{0}' stroke='#{1}{1}{1}'", j / 2, (j + 1) / 2),
                };
                s.push_str(&format!("<path {} d='M {} {} L 30 40'/>", a, j, m));
            }
        }
        Some(crate::fam::svg(&s))
    }));
    // definitions that are all alike, or all alike but one
    let dims = [6, 9, 4, 3];
    again_family("ties: definitions", product(&dims), Box::new(move |i| {
        let k = radix(i, &dims);
        let n = k[1] + 2;
        let (e, a, inner, by) = [
            ("linearGradient", "", "<stop stop-color='red'/><stop offset='1'/>", "fill"),
            ("linearGradient", "xlink:href='#base'", "", "fill"),
            ("radialGradient", "", "<stop stop-color='red'/><stop offset='1'/>", "stroke"),
            ("filter", "", "<feGaussianBlur stdDeviation='2'/>", "filter"),
            ("clipPath", "", "<path d='M 1 2 L 30 40'/>", "clip-path"),
            ("linearGradient", "x1='.5'", "<stop stop-color='red'/><stop offset='1'/>", "fill"),
        ][k[0]];
        let odd = [n, 0, n / 2, n - 1][k[2]];
        let id = |j: usize| ["", "very-long-", "z"][k[3]].to_string() + &format!("n{}", j * 7 % n);
        let mut s = String::new();
        for j in 0..n {
            s.push_str(&format!("<{0} id='{1}' {2} {4}>{3}</{0}>", e, id(j), a, inner, if j == odd { "x='.2' r='.3' y2='.4'" } else { "" }));
        }
        for j in 0..n {
            s.push_str(&format!("<path {}='url(#{})' d='M {} 2 L 30 40 L 5 9'/>", by, id(j), j));
        }
        Some(crate::fam::svg(&format!("<linearGradient id='base'><stop stop-color='red'/><stop offset='1'/></linearGradient>{}", s)))
    }));
    let cap = if t { 200_000 } else { 40_000 };
    crate::corpus(r, move |mut f| {
        if f.size > cap {
            return None;
        }
        f.configs = if t { vec![config(&[]), config(&["--join-style-attributes=all", "--indent=1"]), solo(&["group-by-style", "trim-ids"])] } else { vec![config(&[])] };
        f.depth = 1;
        f.next = vec![];
        f.check = Box::new(again);
        Some(f)
    });
}

//! C16: the size decision. Inputs are padded so that their size is every value around the size of the result.
use crate::bin::*;
use crate::c14::result;
use crate::engine::*;
use crate::fam::{product, radix};

const DOCS: &[&str] = &[
    "<svg xmlns='http://www.w3.org/2000/svg'><g id='a'><g id='b'><path d='M1 2 3 4 5 0z'/></g></g></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><text>é日本😀</text><text>ü</text></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><path d='M1e9 1e9l1e9 5e8 1 1z'/><rect width='1e9' height='1e9'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><path fill='red' d='M1 2 3 4 5 0z'/><g/><rect fill='#ff0000' width='5' height='7'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'/>",
    "<svg xmlns='http://www.w3.org/2000/svg'><text x='1'>a&#38;b&#60;&#xE9;</text></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><path style='fill:tan' d='M1 2 3 4 5 0z'/><path style='fill:tan' d='M1 2 3 4 5 9z'/><path style='stroke:tan' d='M1 2 3 4 5 9z'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><path id='a' d='M1 2 3 4 5 0z'/><use xlink:href='#a' x='5'/><use xlink:href='#a' x='7'/></svg>",
    // settles only after several passes
    "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><defs><linearGradient id='a'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient></defs><g><g opacity='.5'><g fill='url(#a)'><rect x='1' y='2' width='30' height='40' transform='scale(2)'/></g></g></g><g><g/></g></svg>",
];

const OPTS: &[&[&str]] = &[
    &[],
    &["--no-defaults", "--join-style-attributes=no"],
    &["--no-defaults", "--join-style-attributes=no", "--indent=4"],
    &["--indent=tabs", "--list-separator=comma-space"],
    &["--join-style-attributes=all", "--indent=0"],
    &["--trim-paths=false", "--trim-colors=false", "--indent=2"],
    &["--join-style-attributes=all", "--remove-unreferenced-ids=false"],
    &["--no-defaults", "--indent=1", "--convert-shapes=true", "--list-separator=comma"],
];

const ROUTES: &[&str] = &["new file", "existing file", "overwrite", "stdout", "stdin to stdout", "stdin to file"];

fn scenario(doc: &str, opts: &[&str], delta: i64, route: &str, sw: [bool; 5], w: &Worker, pad: usize) -> Option<Scn> {
    let [allow, multi, newline, quiet, copy] = sw;
    // the size of the result doesn't depend on the padding
    let mut all: Vec<&str> = opts.to_vec();
    all.push("--allow-bigger-file");
    let out = result(doc, &all, multi)?;
    let want = out.len() as i64 + delta;
    if want < doc.len() as i64 {
        return None;
    }
    let n = (want - doc.len() as i64) as usize;
    let fill = ["\n", " ", "\t", "\r\n"][pad];
    let mut text = doc.to_string();
    while text.len() + fill.len() <= doc.len() + n {
        text.push_str(fill);
    }
    while text.len() < doc.len() + n {
        text.push('\n');
    }
    // the padding may be put before the document as well
    if pad == 1 {
        text = text.split_at(doc.len()).1.to_string() + doc;
    }
    let bigger = result(&text, &all, multi)?.len() as i64 - text.len() as i64;
    if bigger != -delta {
        // padding is kept by these options; use what the library gives
        return None;
    }
    let mut exp = result(&text, &all, multi)?;
    let fails = exp.len() > text.len() && !allow;
    if newline {
        exp.push('\n');
    }
    w.reset();
    w.put("in.svg", text.as_bytes());
    if route == "existing file" || route == "stdin to file" {
        w.put("out.svg", b"old");
    }
    let mut args: Vec<String> = opts.iter().map(|s| s.to_string()).collect();
    for (on, s) in [(allow, "--allow-bigger-file"), (multi, "--multipass"), (newline, "--append-newline=true"), (quiet, "--quiet"), (copy, "--copy-on-error")] {
        if on {
            args.push(s.into());
        }
    }
    let v: &[&str] = match route {
        "overwrite" => &["in.svg", "in.svg"],
        "stdout" => &["-c", "in.svg"],
        "stdin to stdout" => &["-c", "-"],
        "stdin to file" => &["out.svg", "-"],
        _ => &["in.svg", "out.svg"],
    };
    args.extend(v.iter().map(|s| s.to_string()));
    let stdin = route.starts_with("stdin");
    let stdout = route.ends_with("stdout");
    let before = w.snapshot();
    let r = w.run(&args, if stdin { Some(text.as_bytes()) } else { None }, &[]);
    let after = w.snapshot();
    let mut s = Scn::new(text.clone(), args.join(" "));
    s.output = r.text();
    s.runs = 1;
    s.failed = fails;
    if let Err(e) = r.sane() {
        return Some(s.fail(e));
    }
    let target = if route == "overwrite" { "in.svg" } else { "out.svg" };
    let mut ef = before.clone();
    if !fails && !stdout {
        ef.insert(target.into(), exp.clone().into_bytes());
    }
    if fails && copy && !stdin && !stdout && route != "overwrite" {
        ef.insert(target.into(), text.clone().into_bytes());
    }
    let what = format!("result {} bytes, input {} bytes", exp.len(), text.len());
    if after != ef {
        return Some(s.fail(format!("{}: wrong files after the run", what)));
    }
    let eo: &[u8] = if stdout && !fails { exp.as_bytes() } else { b"" };
    if r.stdout != eo {
        return Some(s.fail(format!("{}: wrong standard output", what)));
    }
    if r.reported_error() != fails {
        return Some(s.fail(format!("{}: {}", what, if fails { "no error is reported" } else { "an error is reported" })));
    }
    Some(s)
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let deltas: Vec<i64> = if t { (-40..=40).collect() } else { vec![-33, -9, -4, -2, -1, 0, 1, 2, 5, 30] };
    let nd = deltas.len();
    let dims = [DOCS.len(), OPTS.len(), nd, ROUTES.len(), 2, 2, 2, 4];
    r.scenarios("around the boundary", product(&dims), |i, w| {
        let k = radix(i, &dims);
        let quiet = (k[2] + k[3]) % 2 == 1;
        scenario(DOCS[k[0]], OPTS[k[1]], deltas[k[2]], ROUTES[k[3]], [k[4] == 1, k[5] == 1, k[6] == 1, quiet, k[7] % 2 == 1], w, (k[7] + k[2]) % 4)
    });
    // huge distances
    let big: &[i64] = &[4096, 8192, 65536, 1 << 20];
    let dims = [DOCS.len(), OPTS.len(), big.len(), ROUTES.len(), 2];
    r.scenarios("far from the boundary", product(&dims), |i, w| {
        let k = radix(i, &dims);
        if !t && k[0] % 3 != 0 {
            return None;
        }
        scenario(DOCS[k[0]], OPTS[k[1]], big[k[2]], ROUTES[k[3]], [false, k[4] == 1, false, true, true], w, 0)
    });
}

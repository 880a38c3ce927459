//! C20: output formatting options change only the spelling.
//!
//! Every document is cleaned with a reference formatting and with every listed other formatting;
//! all outputs have to denote the same tree, and each has to be spelled as requested.
use crate::engine::*;
use crate::fam::*;
use crate::geom;
use crate::style;
use crate::xml::{self, Kind, Xml};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

/// A requested formatting.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fmt {
    indent: &'static str,
    list: &'static str,
    join: &'static str,
    colors: bool,
    paths: bool,
    flags: bool,
    dupl: bool,
    implicit: bool,
    transforms: bool,
}

pub const PLAIN: Fmt = Fmt {
    indent: "none",
    list: "space",
    join: "no",
    colors: false,
    paths: false,
    flags: false,
    dupl: false,
    implicit: false,
    transforms: false,
};

impl Fmt {
    fn args(&self) -> Vec<String> {
        let b = |n: &str, v: bool| format!("--{}={}", n, v);
        vec![
            format!("--indent={}", self.indent),
            format!("--list-separator={}", self.list),
            format!("--join-style-attributes={}", self.join),
            b("trim-colors", self.colors),
            b("trim-paths", self.paths),
            b("join-arcto-flags", self.flags),
            b("remove-dupl-cmd-in-paths", self.dupl),
            b("use-implicit-cmds", self.implicit),
            b("simplify-transforms", self.transforms),
        ]
    }
    fn config(&self, base: &[&str]) -> Config {
        let a = self.args();
        let mut v = base.to_vec();
        v.extend(a.iter().map(|s| s.as_str()));
        config(&v)
    }
}

pub const INDENTS: &[&str] = &["none", "0", "1", "2", "3", "4", "tabs"];
pub const LISTS: &[&str] = &["space", "comma", "comma-space"];
pub const JOINS: &[&str] = &["no", "some", "all"];

/// Every formatting that the tool accepts.
pub fn all_formats(indents: &[&'static str]) -> Vec<Fmt> {
    let mut v = vec![];
    for &indent in indents {
        for &list in LISTS {
            for &join in JOINS {
                for m in 0..64 {
                    let f = Fmt {
                        indent,
                        list,
                        join,
                        colors: m & 1 > 0,
                        paths: m & 2 > 0,
                        flags: m & 4 > 0,
                        dupl: m & 8 > 0,
                        implicit: m & 16 > 0,
                        transforms: m & 32 > 0,
                    };
                    if f.paths || !f.flags {
                        v.push(f);
                    }
                }
            }
        }
    }
    v
}

/// A covering selection: every value of every option, and every pair of path options.
pub fn few_formats(indents: &[&'static str]) -> Vec<Fmt> {
    let on = Fmt { colors: true, paths: true, flags: true, dupl: true, implicit: true, transforms: true, join: "all", list: "comma", ..PLAIN };
    let mut v = vec![
        on,
        Fmt { paths: true, ..PLAIN },
        Fmt { dupl: true, join: "some", ..PLAIN },
        Fmt { implicit: true, list: "comma-space", ..PLAIN },
        Fmt { implicit: true, dupl: true, colors: true, join: "all", ..PLAIN },
        Fmt { paths: true, dupl: true, transforms: true, list: "comma", ..PLAIN },
        Fmt { paths: true, flags: true, implicit: true, join: "some", list: "comma-space", ..PLAIN },
        Fmt { flags: false, join: "some", list: "space", ..on },
    ];
    for (i, f) in v.iter_mut().enumerate() {
        f.indent = indents[i % indents.len()];
    }
    v
}

// ---------------------------------------------------------------- paths

#[derive(Clone, PartialEq, Debug)]
pub struct Cmd {
    c: char,
    p: Vec<f64>,
    /// the numbers as written
    text: Vec<String>,
    letter: bool,
}

/// Commands and their numbers as written.
pub fn spelled(d: &str) -> Result<Vec<(char, Vec<String>)>, String> {
    commands(d).map(|v| v.into_iter().map(|c| (c.c, c.text)).collect()).ok_or_else(|| format!("malformed path '{}'", d))
}

fn arity(c: char) -> usize {
    match c.to_ascii_lowercase() {
        'm' | 'l' | 't' => 2,
        'h' | 'v' => 1,
        'c' => 6,
        's' | 'q' => 4,
        'a' => 7,
        _ => 0,
    }
}

/// The commands of path data, with repeated and implied ones made explicit.
pub fn commands(d: &str) -> Option<Vec<Cmd>> {
    let mut v: Vec<Cmd> = vec![];
    let mut s = geom::skip_ws(d);
    let mut cur = ' ';
    while !s.is_empty() {
        let c = s.chars().next().unwrap();
        let mut letter = false;
        if c.is_ascii_alphabetic() {
            if !"MmLlHhVvCcSsQqTtAaZz".contains(c) {
                return None;
            }
            cur = c;
            letter = true;
            s = geom::skip_ws(&s[1..]);
        } else if cur == ' ' || arity(cur) == 0 {
            return None;
        }
        if v.is_empty() && cur.to_ascii_lowercase() != 'm' {
            return None;
        }
        let mut p = vec![];
        let mut text = vec![];
        for k in 0..arity(cur) {
            if k > 0 {
                s = geom::skip_cw(s);
            }
            if cur.to_ascii_lowercase() == 'a' && (k == 3 || k == 4) {
                let f = s.chars().next()?;
                if f != '0' && f != '1' {
                    return None;
                }
                p.push(if f == '1' { 1.0 } else { 0.0 });
                text.push(f.to_string());
                s = &s[1..];
            } else {
                let (n, r) = geom::number(s)?;
                p.push(n);
                text.push(s[..s.len() - r.len()].to_string());
                s = r;
            }
        }
        v.push(Cmd { c: cur, p, text, letter });
        s = if arity(cur) == 0 { geom::skip_ws(s) } else { geom::skip_cw(s) };
        cur = match cur {
            'M' => 'L',
            'm' => 'l',
            c => c,
        };
    }
    Some(v)
}

fn same_commands(a: &[Cmd], b: &[Cmd]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.c == y.c && x.p == y.p)
}

fn path_applied(d: &str, f: &Fmt) -> Result<(), String> {
    if d.is_empty() {
        return Ok(());
    }
    let c = match commands(d) {
        Some(c) => c,
        None => return Err(format!("malformed path '{}'", d)),
    };
    // which letters are written
    let mut implicit = false;
    for i in 0..c.len() {
        let prev = if i > 0 { c[i - 1].c } else { ' ' };
        let imp = (prev == 'M' && c[i].c == 'L') || (prev == 'm' && c[i].c == 'l') || (implicit && c[i].c == prev);
        let omit = (f.implicit && imp) || (f.dupl && c[i].c == prev && !"Mm".contains(prev));
        implicit = imp;
        if c[i].letter == omit {
            return Err(format!(
                "path '{}': command {} is {}written",
                d,
                i + 1,
                if omit { "" } else { "not " }
            ));
        }
    }
    if f.paths {
        // no blank can be left out
        for (i, b) in d.bytes().enumerate() {
            if b == b' ' || b == b',' || b == b'+' || (b == b'0' && d.as_bytes().get(i + 1) == Some(&b'.')) {
                let t = format!("{}{}", &d[..i], &d[i + 1..]);
                if let Some(k) = commands(&t) {
                    if same_commands(&c, &k) {
                        // the blanks after flags belong to another option
                        if !f.flags && b == b' ' && near_flag(d, i) {
                            continue;
                        }
                        return Err(format!("path '{}' is not trimmed at {}", d, i));
                    }
                }
            }
        }
        if !f.flags {
            for i in flags_at(d) {
                if d.as_bytes().get(i + 1) != Some(&b' ') {
                    return Err(format!("flags of '{}' are joined", d));
                }
            }
        } else if flags_at(d).iter().any(|i| d.as_bytes().get(i + 1) == Some(&b' ')) {
            return Err(format!("flags of '{}' are not joined", d));
        }
    } else {
        // everything is separated by one space
        for t in d.split(' ').filter(|t| !t.is_empty()) {
            let ok = t.len() == 1 && t.chars().all(|c| c.is_ascii_alphabetic()) || geom::number(t).map_or(false, |r| r.1.is_empty());
            if !ok {
                return Err(format!("path '{}' is trimmed at '{}'", d, t));
            }
        }
    }
    Ok(())
}

/// Positions of the arc flags.
fn flags_at(d: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut s = geom::skip_ws(d);
    let mut cur = ' ';
    while !s.is_empty() {
        let c = s.chars().next().unwrap();
        if c.is_ascii_alphabetic() {
            cur = c;
            s = geom::skip_ws(&s[1..]);
        }
        for k in 0..arity(cur) {
            if k > 0 {
                s = geom::skip_cw(s);
            }
            if cur.to_ascii_lowercase() == 'a' && (k == 3 || k == 4) {
                v.push(d.len() - s.len());
                s = &s[1..];
            } else {
                match geom::number(s) {
                    Some((_, r)) => s = r,
                    None => return v,
                }
            }
        }
        s = geom::skip_cw(s);
    }
    v
}
fn near_flag(d: &str, i: usize) -> bool {
    flags_at(d).iter().any(|f| f + 1 == i)
}

// ---------------------------------------------------------------- values

fn is_list_token(t: &str) -> bool {
    match geom::number(t) {
        Some((_, r)) => matches!(r, "" | "em" | "ex" | "px" | "in" | "cm" | "mm" | "pt" | "pc" | "%"),
        None => false,
    }
}

/// The separators of a list of numbers or lengths.
fn list_tokens(v: &str) -> Option<Vec<&str>> {
    let t: Vec<&str> = v.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
    if t.len() > 1 && t.iter().all(|t| is_list_token(t)) {
        Some(t)
    } else {
        None
    }
}

const LIST_ATTRS: &[&str] = &[
    "points", "stroke-dasharray", "viewBox", "x", "y", "dx", "dy", "rotate", "stdDeviation", "values", "tableValues", "kernelMatrix", "order",
    "baseFrequency", "radius", "filterRes", "kernelUnitLength",
];
const COLOR_ATTRS: &[&str] = &["fill", "stroke", "color", "stop-color", "flood-color", "lighting-color"];

fn canon(name: &str, v: &str) -> String {
    match name {
        "d" => match commands(v) {
            Some(c) => {
                let mut o = String::new();
                for (i, k) in c.iter().enumerate() {
                    // closing a closed subpath does nothing
                    if "zZ".contains(k.c) && i > 0 && "zZ".contains(c[i - 1].c) {
                        continue;
                    }
                    o.push_str(&format!("{}{:?}", k.c, k.p));
                }
                o
            }
            None => v.to_string(),
        },
        "transform" | "gradientTransform" | "patternTransform" => match geom::transform(v) {
            Some(m) => {
                // a rotation is written by its angle
                let q = |x: f64| {
                    let r = (x * 1e6).round() / 1e6;
                    if r == 0.0 { 0.0 } else { r }
                };
                format!("{:?}", [q(m.a), q(m.b), q(m.c), q(m.d), q(m.e), q(m.f)])
            }
            None => v.to_string(),
        },
        _ if LIST_ATTRS.contains(&name) => match list_tokens(v) {
            Some(t) => t.join(" "),
            None => v.to_string(),
        },
        _ if COLOR_ATTRS.contains(&name) => {
            if v.len() == 4 && v.starts_with('#') {
                let b: Vec<char> = v.chars().collect();
                format!("#{0}{0}{1}{1}{2}{2}", b[1], b[2], b[3])
            } else {
                v.to_string()
            }
        }
        _ => v.to_string(),
    }
}

/// Does an attribute take a value that the tool keeps as a list?
fn value_applied(elem: &str, name: &str, v: &str, f: &Fmt) -> Result<(), String> {
    if COLOR_ATTRS.contains(&name) && v.starts_with('#') && v.bytes().skip(1).all(|b| b.is_ascii_hexdigit()) {
        let b = v.as_bytes();
        let short = v.len() == 4;
        let can = v.len() == 7 && b[1] == b[2] && b[3] == b[4] && b[5] == b[6];
        if !short && v.len() != 7 || short && !f.colors || can && f.colors {
            return Err(format!("colour '{}' of {} is not spelled as requested", v, name));
        }
    }
    if name == "d" && elem == "path" {
        path_applied(v, f)?;
    }
    if name == "points" || name == "stroke-dasharray" || (name == "viewBox" && elem == "svg") {
        if let Some(t) = list_tokens(v) {
            let sep = match f.list {
                "space" => " ",
                "comma" => ",",
                _ => ", ",
            };
            if t.join(sep) != v {
                return Err(format!("list '{}' of {} is not separated as requested", v, name));
            }
        }
    }
    if name == "transform" || name == "gradientTransform" || name == "patternTransform" {
        if let Some(m) = geom::transform(v) {
            if !f.transforms {
                if !v.starts_with("matrix(") {
                    return Err(format!("transform '{}' is simplified", v));
                }
            } else if v.starts_with("matrix(") {
                let tr = m.a == 1.0 && m.b == 0.0 && m.c == 0.0 && m.d == 1.0;
                let sc = m.b == 0.0 && m.c == 0.0 && m.e == 0.0 && m.f == 0.0;
                if tr || sc {
                    return Err(format!("transform '{}' is not simplified", v));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- trees

fn is_presentation(name: &str) -> bool {
    style::prop_info(name).is_some()
}

/// The tree with values in a canonical spelling.
fn tree(x: &Xml) -> Vec<String> {
    fn rec(x: &Xml, n: usize, text: bool, o: &mut Vec<String>) {
        match x.nodes[n].kind {
            Kind::Elem { .. } => {
                let name = x.name(n).to_string();
                let mut at: Vec<(String, String)> = vec![];
                for (k, v) in x.attrs(n) {
                    if k == "style" {
                        for (p, v, _) in style::declarations(v) {
                            at.retain(|a| a.0 != p);
                            at.push((p.clone(), canon(&p, v.trim())));
                        }
                    } else if !at.iter().any(|a| a.0 == *k) {
                        at.push((k.clone(), canon(k, v)));
                    }
                }
                at.sort();
                o.push(format!("<{} {:?}", name, at));
                let is_text = text || matches!(name.as_str(), "text" | "title" | "desc" | "style" | "script" | "p");
                let kids = &x.nodes[n].children;
                for (i, &c) in kids.iter().enumerate() {
                    // blanks at the ends of text are not shown
                    if name == "text" && (i == 0 || i + 1 == kids.len()) && x.attr(n, "xml:space") != Some("preserve") {
                        if let Kind::Text(ref t) = x.nodes[c].kind {
                            if t.trim().is_empty() {
                                continue;
                            }
                        }
                    }
                    rec(x, c, is_text, o);
                }
                o.push(">".into());
            }
            Kind::Text(ref t) => {
                if t.chars().all(|c| matches!(c, ' ' | '\n' | '\t' | '\r')) && !text {
                    return;
                }
                o.push(format!("{:?}", t));
            }
            ref k => o.push(format!("{:?}", k)),
        }
    }
    let mut o = vec![];
    for &c in &x.nodes[0].children {
        rec(x, c, false, &mut o);
    }
    o
}

fn has_text(x: &Xml, n: usize) -> bool {
    x.nodes[n].children.iter().any(|&c| {
        matches!(x.nodes[c].kind, Kind::Text(ref t) if !t.trim().is_empty()) || (x.is_elem(c) && matches!(x.name(c), "tspan" | "tref"))
    })
}

/// Lines and indentation of the markup outside of text.
fn indent_applied(text: &str, x: &Xml, f: &Fmt) -> Result<(), String> {
    // expected text: elements and comments on their own lines
    let simple = x.all_elems().iter().all(|&n| !has_text(x, n) || x.elem_children(n).count() == 0);
    let other = fn_other(x, 0);
    if !simple || other {
        return Ok(());
    }
    if f.indent == "none" {
        for (i, _) in text.match_indices('\n') {
            // line breaks between tags only
            let a = text[..i].trim_end().ends_with('>');
            let b = text[i..].trim_start().starts_with('<');
            if a && b {
                return Err("the output has line breaks between elements".into());
            }
        }
        return Ok(());
    }
    let unit = match f.indent {
        "tabs" => "\t".to_string(),
        n => " ".repeat(n.parse().unwrap()),
    };
    let mut want: Vec<(usize, String)> = vec![];
    fn rec(x: &Xml, n: usize, d: usize, want: &mut Vec<(usize, String)>) {
        if !x.is_elem(n) {
            return;
        }
        let kids: Vec<usize> = x.nodes[n].children.iter().cloned().filter(|&c| x.is_elem(c)).collect();
        want.push((d, format!("<{}", x.name(n))));
        if kids.is_empty() {
            return;
        }
        for c in kids {
            rec(x, c, d + 1, want);
        }
        want.push((d, format!("</{}>", x.name(n))));
    }
    for &c in &x.nodes[0].children {
        rec(x, c, 0, &mut want);
    }
    let mut lines = text.lines();
    for (d, w) in want {
        let l = match lines.next() {
            Some(l) => l,
            None => return Err(format!("no line for '{}'", w)),
        };
        let p = unit.repeat(d);
        let ok = l.strip_prefix(p.as_str()).map_or(false, |r| r.starts_with(w.as_str()));
        if !ok {
            return Err(format!("the line of '{}' is not indented as requested: '{}'", w, l));
        }
    }
    Ok(())
}
/// Nodes other than elements and text (whose lines are not checked), or text with line breaks.
fn fn_other(x: &Xml, n: usize) -> bool {
    x.nodes[n].children.iter().any(|&c| match x.nodes[c].kind {
        Kind::Elem { .. } => {
            fn_other(x, c) || x.attrs(c).iter().any(|a| a.1.contains('\n'))
        }
        Kind::Text(ref t) => t.contains('\n') && !t.trim().is_empty(),
        _ => true,
    })
}

fn join_applied(x: &Xml, f: &Fmt) -> Result<(), String> {
    for n in x.all_elems() {
        let name = x.name(n);
        if name.contains(':') {
            continue;
        }
        let st = x.attr(n, "style");
        let props: Vec<&str> = x
            .attrs(n)
            .iter()
            .filter(|a| is_presentation(&a.0) && a.0 != "transform" && !a.1.trim().is_empty() && !a.1.contains(|c| "'\"&<>;:{}!/\\".contains(c)))
            .map(|a| a.0.as_str())
            .collect();
        match f.join {
            "no" => {
                if st.is_some() {
                    return Err(format!("<{}> has a style attribute", name));
                }
            }
            "all" => {
                if !props.is_empty() {
                    return Err(format!("{} of <{}> is not joined", props[0], name));
                }
            }
            _ => {
                if st.is_some() && !props.is_empty() {
                    return Err(format!("{} of <{}> is not joined", props[0], name));
                }
                if let Some(s) = st {
                    let n = style::declarations(s).len();
                    if n < 6 {
                        return Err(format!("only {} attributes of <{}> are joined", n, name));
                    }
                } else if props.len() >= 6 {
                    return Err(format!("{} attributes of <{}> are not joined", props.len(), name));
                }
            }
        }
    }
    Ok(())
}

pub fn applied(text: &str, x: &Xml, f: &Fmt) -> Result<(), String> {
    for n in x.all_elems() {
        let e = x.name(n);
        for (k, v) in x.attrs(n) {
            if k == "style" {
                for (p, v, _) in style::declarations(v) {
                    value_applied(e, &p, v.trim(), f)?;
                }
            } else {
                value_applied(e, k, v, f)?;
            }
        }
    }
    join_applied(x, f)?;
    indent_applied(text, x, f)
}

/// The check: all formats against the reference one.
fn check(base: &'static [&'static str], plain: Fmt, formats: Vec<Fmt>, runs: Arc<AtomicU64>) -> (Vec<Config>, Box<Check>) {
    let list: Vec<(Fmt, Config)> = formats.into_iter().filter(|f| *f != plain).map(|f| (f, f.config(base))).collect();
    let c = move |c: &Case, note: &mut Note| -> Result<(), String> {
        let o = match c.out {
            Outcome::Panic(p) => return Err(format!("panic: {}", p)),
            Outcome::Err(e) => {
                note.observed = fnv(e);
                // the formatting has no part in refusals
                for (_, k) in list.iter().take(2) {
                    runs.fetch_add(1, Relaxed);
                    match clean(c.pre.text, k) {
                        Outcome::Err(ref f) if f == e => {}
                        r => return Err(format!("refused, but not with {}: {:?}", k.name, r)),
                    }
                }
                return Ok(());
            }
            Outcome::Ok(o) => o,
        };
        note.observed = fnv(o);
        note.nontrivial = true;
        if c.pre.xml().is_err() {
            return Ok(());
        }
        let x = match xml::parse(o) {
            Ok(x) => x,
            Err(e) => return Err(format!("output is not well-formed: {}", e)),
        };
        let want = tree(&x);
        applied(o, &x, &plain)?;
        let n = if c.pre.text.len() > 20_000 { 1 } else { list.len() };
        for (f, k) in &list[..n] {
            runs.fetch_add(1, Relaxed);
            let p = match clean(c.pre.text, k) {
                Outcome::Ok(p) => p,
                r => return Err(format!("with {}: {:?}", k.name, r)),
            };
            let y = match xml::parse(&p) {
                Ok(y) => y,
                Err(e) => return Err(format!("output with {} is not well-formed: {}", k.name, e)),
            };
            let got = tree(&y);
            if got != want {
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!(
                    "output with {} denotes another tree: {} instead of {}\n{}",
                    k.name,
                    got.get(i).map_or("nothing", |s| s),
                    want.get(i).map_or("nothing", |s| s),
                    p
                ));
            }
            applied(&p, &y, f).map_err(|e| format!("output with {}: {}\n{}", k.name, e, p))?;
        }
        Ok(())
    };
    (vec![plain.config(base)], Box::new(c))
}

const WIDE: Fmt = Fmt { indent: "2", ..PLAIN };
static SMALL: &[&str] = &["none", "0"];
static LARGE: &[&str] = &["1", "2", "3", "4", "tabs"];
static NOGROUP: &[&str] = &["--group-by-style=false"];

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let runs = Arc::new(AtomicU64::new(0));
    // every formatting on documents that have everything that is formatted
    let body: &[&str] = &[
        "<path d=\"{0}\" fill=\"{1}\" stroke=\"#102030\" transform=\"{2}\" stroke-width=\"2\" stroke-dasharray=\"1 2,3\" stroke-linejoin=\"round\"/>",
        "<g opacity=\".5\" transform=\"{2}\" style=\"fill:{1};stroke:#aabbcc;stroke-dasharray:1,2\"><path d=\"{0}\"/><polygon points=\"0 0,10 0 10,10.5\"/><rect width=\"9\" height=\"8\"/></g>",
        "<g fill=\"{1}\" stroke=\"red\" stroke-width=\"3\" stroke-linecap=\"round\" stroke-linejoin=\"round\" fill-rule=\"evenodd\" opacity=\".4\"><path d=\"{0}\"/><path d=\"{0}\" transform=\"{2}\"/></g><text x=\"1 2 3\" dx=\"1,2\" fill=\"{1}\" transform=\"{2}\">a <tspan rotate=\"1 2\">b</tspan> c</text><g><g><path id=\"a\" d=\"{0}\"/></g><use xlink:href=\"#a\"/></g>",
    ];
    let d: &[&str] = &[
        "M 1 2 L 3 4 L .5 -.5 L -0.5 0.25 z M 5 6 M 7 8 l 1 1 l 2 2 h 3 h 4 v .5 v -.5",
        "M 10 20 A 5 6 30 1 0 40 50 A 5 6 30 0 1 .5 .6 a 1 2 0 1 1 -3 4 a 1.5 2 0 0 0 0.5 0.5 l 1 0",
        "M 0 0 C 1 2 3 4 5 6 C 1 .2 .3 .4 .5 -6 S 1 2 3 4 S 5 6 7 8 Q 1 2 3 4 q .1 .2 .3 .4 t 1 2 t -1 -2 z",
        "m 1 2 3 4 5 6 l 1 2 L 3 4 5 6 z l 1 1 m 1 1 2 2 z m 3 3 l 0 5 z",
    ];
    let fill: &[&str] = &["#aabbcc", "red", "#123456"];
    let ts: &[&str] = &["translate(10 20)", "rotate(30)", "scale(2)", "matrix(1 .5 0 2 3 4)", "scale(2 .5)", "translate(5)"];
    let full = |r: &mut Run, name: &str, base: &'static [&'static str], plain: Fmt, ind: &[&'static str], n: usize| {
        let (cfg, ck) = check(base, plain, all_formats(ind), runs.clone());
        let dims = [body.len(), d.len(), fill.len(), ts.len()];
        let (body, d, fill, ts): (Vec<String>, Vec<String>, Vec<String>, Vec<String>) = (
            body.iter().map(|s| s.to_string()).collect(),
            d.iter().map(|s| s.to_string()).collect(),
            fill.iter().map(|s| s.to_string()).collect(),
            ts.iter().map(|s| s.to_string()).collect(),
        );
        let size = product(&dims);
        r.explore(Family {
            name: name.into(),
            size: size / n as u64,
            gen: Box::new(move |i| {
                // every n-th document (in every residue class of the other tier)
                let i = i * n as u64;
                let k = radix(i, &dims);
                Some(svg(&body[k[0]].replace("{0}", &d[k[1]]).replace("{1}", &fill[k[2]]).replace("{2}", &ts[k[3]])))
            }),
            configs: cfg,
            next: vec![],
            depth: 1,
            check: ck,
        });
    };
    let n = if t { 1 } else { 5 };
    full(r, "every formatting, nothing else cleaned", &["--no-defaults"], PLAIN, INDENTS, n);
    full(r, "every formatting, everything cleaned, no or no visible indent", &[], PLAIN, SMALL, n);
    full(r, "every formatting, everything cleaned, indented", &[], WIDE, LARGE, n);
    full(r, "every formatting, styles not grouped", NOGROUP, PLAIN, INDENTS, n);

    // path data: every sequence of commands
    let alpha: &'static [&'static str] = &[
        "M 1 2", "m .5 -3", "L 5 .5", "l 1 1", "l -0.25 0.75", "H 7", "h -.5", "V 8", "v 2", "C 1 2 3 4 5 .6", "c 1 2 3 4 5 6", "S 1 2 3 4", "s .1 .2 3 4", "Q 1 2 3 4", "q .1 2 3 4", "T 5 6",
        "t 1 2", "A 5 6 30 1 0 9 8", "a .5 .6 0 0 1 .9 -8", "a 5 6 0 1 1 .9 1", "z", "Z",
    ];
    let len = if t { 4 } else { 3 };
    for (name, base) in [("path commands", &["--no-defaults"][..]), ("path commands, cleaned", &[][..])].iter() {
        let base: &'static [&'static str] = base;
        let mut fm = vec![];
        for m in 0..32 {
            let f = Fmt { paths: m & 1 > 0, flags: m & 2 > 0, dupl: m & 4 > 0, implicit: m & 8 > 0, ..PLAIN };
            if (f.paths || !f.flags) && m < 16 {
                fm.push(f);
            }
        }
        if !t && base.is_empty() {
            fm.retain(|f| f.paths || f.dupl == f.implicit);
        }
        let (cfg, ck) = check(base, PLAIN, fm, runs.clone());
        r.explore(Family {
            name: name.to_string(),
            size: seq_count(alpha.len(), len),
            gen: Box::new(move |i| {
                let mut s = String::from("M 10 20");
                for k in seq(i, alpha.len()) {
                    s.push(' ');
                    s.push_str(alpha[k]);
                }
                Some(svg(&format!("<path d=\"{}\"/>", s)))
            }),
            configs: cfg,
            next: vec![],
            depth: 1,
            check: ck,
        });
    }

    // numbers of presentation attributes around the threshold of joining
    let props: &'static [&'static str] = &[
        "fill=\"#abc\"", "stroke=\"red\"", "stroke-width=\"2\"", "opacity=\".5\"", "fill-opacity=\".25\"", "stroke-opacity=\".75\"", "stroke-dasharray=\"1 2 3\"", "clip-path=\"url(#c)\"",
        "font-family=\"A, 'B c'\"", "transform=\"translate(1)\"",
    ];
    let elems: &'static [(&'static str, &'static str)] = &[("<path d=\"M 1 2 L 3 4 L 9 0 z\" ", "/>"), ("<path d=\"M 1 2 L 3 4 L 9 0 z\" stroke-linecap=\"round\" stroke-linejoin=\"bevel\" stroke-miterlimit=\"3\" stroke-dashoffset=\"2\" fill-rule=\"evenodd\" color=\"#123\" visibility=\"visible\" ", "/>"), ("<g ", "><path d=\"M 1 2 L 3 4 L 9 0 z\"/><path d=\"M 1 2 L 3 5 L 9 0 z\"/></g>"), ("<text ", ">t</text>"), ("<image width=\"9\" height=\"9\" xlink:href=\"data:image/png;base64,AA\" ", "/>")];
    for base in [&["--no-defaults"][..], &[][..]].iter() {
        let base: &'static [&'static str] = base;
        let mut fm = vec![];
        for &join in JOINS {
            for &list in LISTS {
                for m in 0..4 {
                    fm.push(Fmt { join, list, colors: m & 1 > 0, transforms: m & 2 > 0, ..PLAIN });
                }
            }
        }
        let (cfg, ck) = check(base, PLAIN, fm, runs.clone());
        let n = elems.len() as u64;
        r.explore(Family {
            name: format!("joining of attributes {}", base.len()),
            size: n << props.len(),
            gen: Box::new(move |i| {
                let e = elems[(i % n) as usize];
                let mask = i / n;
                let a: Vec<&str> = (0..props.len()).filter(|k| mask >> k & 1 > 0).map(|k| props[k]).collect();
                Some(svg(&format!("<clipPath id=\"c\"><path d=\"M 0 0 h 50 v 50 z\"/></clipPath>{}{}{}", e.0, a.join(" "), e.1)))
            }),
            configs: cfg,
            next: vec![],
            depth: 1,
            check: ck,
        });
    }

    // colours: every one that can or nearly can be shortened
    {
        let hex: &'static [&'static str] = &["00", "ff", "0f", "f0", "11", "12", "a0", "aa", "ab", "99"];
        let (cfg, ck) = check(&["--no-defaults"], PLAIN, vec![Fmt { colors: true, ..PLAIN }, Fmt { colors: true, join: "all", ..PLAIN }], runs.clone());
        r.explore(Family {
            name: "colours".into(),
            size: product(&[10, 10, 10, 3]),
            gen: Box::new(move |i| {
                let k = radix(i, &[10, 10, 10, 3]);
                let c = format!("#{}{}{}", hex[k[0]], hex[k[1]], hex[k[2]]);
                Some(svg(&match k[3] {
                    0 => format!("<path d=\"M 1 2 L 3 4 L 9 0 z\" fill=\"{0}\" stroke=\"{0}\"/>", c),
                    1 => format!("<g color=\"{0}\"><path d=\"M 1 2 L 3 4 L 9 0 z\" fill=\"currentColor\" style=\"stroke:{0}\"/></g>", c),
                    _ => format!(
                        "<linearGradient id=\"l\"><stop offset=\"0\" stop-color=\"{0}\"/><stop offset=\"1\" style=\"stop-color:{0}\"/></linearGradient><filter id=\"f\"><feFlood flood-color=\"{0}\"/></filter><path d=\"M 1 2 L 3 4 L 9 0 z\" fill=\"url(#l)\" filter=\"url(#f)\"/>",
                        c
                    ),
                }))
            }),
            configs: cfg,
            next: vec![],
            depth: 1,
            check: ck,
        });
    }

    // transforms
    {
        let fs: &'static [&'static str] = &[
            "translate(10 20)", "translate(5)", "translate(0 -3)", "scale(2)", "scale(2 3)", "scale(-1)", "scale(-1 1)", "scale(1 -1)", "rotate(30)", "rotate(-45.5)", "rotate(90)", "rotate(180)", "rotate(30 5 6)",
            "skewX(20)", "skewY(-10)", "matrix(1 .5 0 2 3 4)", "matrix(0 1 -1 0 0 0)", "matrix(.5 0 0 .5 0 0)", "matrix(1 0 0 1 0 0)", "rotate(360)", "rotate(.1)", "scale(.001 1000)", "matrix(0 1 1 0 0 0)", "matrix(0 -1 1 0 0 0)", "scale(0 1)", "matrix(-.6 .8 -.8 -.6 0 0)",
        ];
        let (cfg, ck) = check(&["--no-defaults"], PLAIN, vec![Fmt { transforms: true, ..PLAIN }, Fmt { transforms: true, list: "comma", ..PLAIN }], runs.clone());
        let n = fs.len() as u64;
        r.explore(Family {
            name: "transforms".into(),
            size: (n + n * n + if t { n * n * n } else { 0 }) * 2,
            gen: Box::new(move |i| {
                let l: Vec<&str> = seq(i / 2, fs.len()).iter().map(|k| fs[*k]).collect();
                let m = l.join(" ");
                Some(svg(&if i % 2 == 0 {
                    format!("<g transform=\"{0}\"><rect width=\"9\" height=\"9\" transform=\"{0}\"/></g>", m)
                } else {
                    format!("<linearGradient id=\"l\" gradientTransform=\"{0}\"><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"red\"/></linearGradient><pattern id=\"p\" width=\"1\" height=\"1\" patternTransform=\"{0}\"><rect width=\"9\" height=\"9\"/></pattern><rect width=\"9\" height=\"9\" fill=\"url(#l)\" stroke=\"url(#p)\"/>", m)
                }))
            }),
            configs: cfg,
            next: vec![],
            depth: 1,
            check: ck,
        });
    }

    // indentation of all kinds of nodes
    let inner: &'static [&'static str] = &[
        "<path d=\"M 1 2 L 3 4 L 9 0 z\"/>", "<g><path d=\"M 1 2 L 3 4 L 9 0 z\"/></g>", "<text>a<tspan> b </tspan>c</text>", "<text><tspan>x</tspan></text>", "<title>t u</title>", "<desc>d <b>e</b> f</desc>", "<!-- c -->",
        "<text xml:space=\"preserve\"> a  b </text>", "<metadata><r:R xmlns:r=\"http://r\"><r:D/></r:R></metadata>", "<defs><linearGradient id=\"{0}\"><stop offset=\"0\"/></linearGradient></defs>", "<a xlink:href=\"x\"><text>l</text></a>", "<text><a xlink:href=\"x\">l</a> m</text>",
        "<foreignObject width=\"9\" height=\"9\"><p xmlns=\"http://www.w3.org/1999/xhtml\">a <b>c</b> d</p></foreignObject>", "<symbol id=\"{0}\"><path d=\"M 1 2 L 3 4 L 9 0 z\"/></symbol>", "<style>a{b:c}</style>", "<text><textPath xlink:href=\"#q\">w</textPath></text>", "<switch><g/></switch>", "<svg><rect width=\"5\" height=\"5\"/></svg>",
    ];
    for base in [&["--no-defaults"][..], NOGROUP, &["--group-by-style=false", "--remove-comments=false", "--remove-title=false", "--remove-desc=false", "--remove-metadata=false", "--remove-nonsvg-elements=false", "--remove-unused-defs=false", "--ungroup-groups=false"][..]].iter() {
        let base: &'static [&'static str] = base;
        let (cfg, ck) = check(base, PLAIN, INDENTS.iter().map(|&indent| Fmt { indent, ..PLAIN }).collect(), runs.clone());
        r.explore(Family {
            name: format!("indentation {}", base.len()),
            size: seq_count(inner.len(), if t { 4 } else { 3 }) * 2,
            gen: Box::new(move |i| {
                let mut s = String::new();
                for (j, k) in seq(i / 2, inner.len()).iter().enumerate() {
                    s.push_str(&inner[*k].replace("{0}", &format!("i{}", j)));
                }
                let b = if i % 2 == 0 { s } else { format!("<g opacity=\".5\">{}</g><path id=\"q\" d=\"M 1 2 h 9\"/>", s) };
                Some(svg(&b))
            }),
            configs: cfg,
            next: vec![],
            depth: 1,
            check: ck,
        });
    }

    // everything that the other checks explore
    let cap = if t { 1_000_000 } else { 30_000 };
    let runs2 = runs.clone();
    crate::corpus(r, move |mut f| {
        if f.size > cap {
            return None;
        }
        let mut few = few_formats(SMALL);
        if !t {
            few.truncate(if f.size < 6_000 { 8 } else { 2 });
        }
        let (cfg, ck) = check(&[], PLAIN, few, runs2.clone());
        f.configs = cfg;
        f.depth = 1;
        f.next = vec![];
        f.check = ck;
        Some(f)
    });
    if t {
        let runs2 = runs.clone();
        crate::corpus(r, move |mut f| {
            if f.size > 100_000 {
                return None;
            }
            let mut few = few_formats(INDENTS);
            few.extend(INDENTS.iter().map(|&indent| Fmt { indent, ..PLAIN }));
            let (cfg, ck) = check(&["--no-defaults"], PLAIN, few, runs2.clone());
            f.configs = cfg;
            f.depth = 1;
            f.next = vec![];
            f.check = ck;
            Some(f)
        });
    }
    r.stats.transitions += runs.load(Relaxed);
    r.extra.push(("runs_with_other_formatting".into(), runs.load(Relaxed).to_string()));
}

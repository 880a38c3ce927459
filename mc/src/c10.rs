//! C10: what is off stays off. The output of one option alone is compared with the output of no options,
//! and that with the input.
use crate::c22::ELEMENTS;
use crate::engine::*;
use crate::fam::*;
use crate::style;
use crate::subj;
use crate::xml::{self, Kind, Xml, ROOT};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

const REFERENCED: &[&str] = &["altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask", "pattern", "radialGradient", "symbol"];
const GRADIENTS: &[&str] = &["linearGradient", "radialGradient"];
const SHAPES: &[&str] = &["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"];
const GEOMETRY: &[&str] = &["x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "points", "d"];
const TEXT: &[&str] = &[
    "alignment-baseline", "baseline-shift", "direction", "dominant-baseline", "font", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant", "font-weight",
    "glyph-orientation-horizontal", "glyph-orientation-vertical", "kerning", "letter-spacing", "line-height", "text-anchor", "text-decoration", "word-spacing", "writing-mode", "xml:space", "unicode-bidi",
];

#[derive(Clone, Debug)]
struct T {
    /// element name, or #text, #comment, ...
    name: String,
    text: String,
    attrs: BTreeMap<String, String>,
    kids: Vec<T>,
}

fn number(s: &str) -> String {
    let e = s.find(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c))).unwrap_or(s.len());
    // units can start with an e
    let mut e = e;
    while e > 0 {
        if let Ok(v) = s[..e].parse::<f64>() {
            let v = (v * 1e4).round() / 1e4 + 0.0;
            let u = &s[e..];
            return format!("{}{}", v, if u == "px" { "" } else { u });
        }
        e -= 1;
    }
    s.to_string()
}

fn value(name: &str, k: &str, v: &str) -> String {
    if k == "d" {
        return match crate::c20::spelled(v) {
            Ok(s) => s
                .iter()
                .map(|(c, a)| format!("{} {}", c, a.iter().map(|x| number(x)).collect::<Vec<_>>().join(" ")))
                .collect::<Vec<_>>()
                .join(" "),
            Err(_) => v.to_string(),
        };
    }
    if ["transform", "gradientTransform", "patternTransform"].contains(&k) {
        if let Some(m) = crate::geom::transform(v) {
            let f = |x: f64| (x * 1e4).round() / 1e4 + 0.0;
            return format!("{} {} {} {} {} {}", f(m.a), f(m.b), f(m.c), f(m.d), f(m.e), f(m.f));
        }
    }
    if ["fill", "stroke", "stop-color", "flood-color", "lighting-color", "color", "solid-color"].contains(&k) {
        if let Some(c) = style::color(v) {
            return format!("{:?}", c);
        }
    }
    if k == "offset" && name == "stop" {
        if let Some(p) = v.strip_suffix('%') {
            if let Ok(p) = p.parse::<f64>() {
                return number(&(p / 100.0).to_string());
            }
        }
    }
    if ["id", "class", "xlink:href"].contains(&k) || k.contains(':') || v.contains("url(") {
        return v.trim().to_string();
    }
    v.split(|c: char| c.is_whitespace() || c == ',').filter(|s| !s.is_empty()).map(number).collect::<Vec<_>>().join(" ")
}

fn quiet(v: &mut Vec<T>) {
    v.retain(|k| k.name != "#comment");
    for k in v {
        quiet(&mut k.kids);
    }
}

/// The id that an attribute refers to.
fn target<'a>(k: &str, v: &'a str) -> Option<&'a str> {
    if k == "xlink:href" {
        return v.strip_prefix('#');
    }
    v.strip_prefix("url(#").and_then(|v| v.strip_suffix(')'))
}

fn build(x: &Xml, n: usize, flat: &[&str], ids: &HashSet<String>, out: &mut Vec<T>) {
    for &c in &x.nodes[n].children {
        match x.nodes[c].kind {
            Kind::Elem(ref name, ref at) => {
                if flat.contains(&name.as_str()) {
                    build(x, c, flat, ids, out);
                    continue;
                }
                if name == "style" {
                    continue;
                }
                let mut attrs = BTreeMap::new();
                let svg = ELEMENTS.contains(&name.as_str());
                for (k, v) in at {
                    if k == "style" {
                        for d in style::declarations(v) {
                            attrs.insert(d.0.clone(), value(name, &d.0, &d.1));
                        }
                    }
                }
                for (k, v) in at {
                    if k == "style" || k == "xmlns" || k == "xmlns:xlink" || attrs.contains_key(k) {
                        continue;
                    }
                    // SVG attributes of foreign elements are lost when the document is read
                    if !svg && !k.contains(':') {
                        continue;
                    }
                    attrs.insert(k.clone(), value(name, k, v));
                }
                attrs.retain(|k, v| !(k.ends_with("ransform") && v == "1 0 0 1 0 0"));
                // a reference to nothing is no reference
                attrs.retain(|k, v| target(k, v).map_or(true, |t| ids.contains(t)));
                let mut kids = vec![];
                build(x, c, flat, ids, &mut kids);
                // the document model loses comments next to text
                if name == "text" {
                    quiet(&mut kids);
                } else if kids.iter().any(|k| k.name == "#text") {
                    kids.retain(|k| k.name != "#comment");
                }
                out.push(T { name: name.clone(), text: String::new(), attrs, kids });
            }
            Kind::Text(ref s) | Kind::CData(ref s) => {
                let s = s.split_whitespace().collect::<Vec<_>>().join(" ");
                if !s.is_empty() {
                    out.push(T { name: "#text".into(), text: s, attrs: BTreeMap::new(), kids: vec![] });
                }
            }
            Kind::Comment(ref s) => out.push(T { name: "#comment".into(), text: s.trim().to_string(), attrs: BTreeMap::new(), kids: vec![] }),
            Kind::Pi(ref s) => out.push(T { name: "#pi".into(), text: s.trim().to_string(), attrs: BTreeMap::new(), kids: vec![] }),
            _ => {}
        }
    }
}

/// Takes the definitions out of the tree.
fn extract(v: &mut Vec<T>, in_defs: bool, defs: &mut Vec<T>) {
    let mut keep = vec![];
    for mut t in v.drain(..) {
        if t.name == "defs" {
            extract(&mut t.kids, true, defs);
            continue;
        }
        let d = in_defs || REFERENCED.contains(&t.name.as_str());
        let mut kids = std::mem::take(&mut t.kids);
        extract(&mut kids, false, defs);
        t.kids = kids;
        if d {
            defs.push(t);
        } else {
            keep.push(t);
        }
    }
    *v = keep;
}

struct Tree {
    main: Vec<T>,
    defs: Vec<T>,
}

fn tree(s: &str, flat: &[&str]) -> Result<Tree, String> {
    let x = xml::parse(s)?;
    let mut main = vec![];
    let ids = x
        .nodes
        .iter()
        .filter_map(|n| match n.kind {
            Kind::Elem(_, ref at) => at.iter().find(|a| a.0 == "id").map(|a| a.1.to_string()),
            _ => None,
        })
        .collect();
    build(&x, ROOT, flat, &ids, &mut main);
    let mut defs = vec![];
    extract(&mut main, false, &mut defs);
    Ok(Tree { main, defs })
}

/// What an option may do to the document.
struct Foot {
    /// elements that come and go, with their contents staying
    flat: &'static [&'static str],
    del: fn(&T, bool) -> bool,
    /// element, attribute, before, after
    attr: fn(&str, &str, Option<&str>, Option<&str>) -> bool,
    rename: fn(&str, &str) -> bool,
    /// elements not compared at all
    opaque: &'static [&'static str],
    refs: bool,
}

fn no_del(_: &T, _: bool) -> bool {
    false
}
fn no_attr(_: &str, _: &str, _: Option<&str>, _: Option<&str>) -> bool {
    false
}
fn same(a: &str, b: &str) -> bool {
    a == b
}
const NONE: Foot = Foot { flat: &[], del: no_del, attr: no_attr, rename: same, opaque: &[], refs: false };

fn is_svg(n: &str) -> bool {
    n.starts_with('#') || ELEMENTS.contains(&n)
}
fn is_def(t: &T, d: bool) -> bool {
    d && !t.name.starts_with('#')
}
fn is_style(k: &str) -> bool {
    style::prop_info(k).is_some() || ["transform", "opacity", "display", "overflow", "clip"].contains(&k)
}
fn protected(k: &str) -> bool {
    ["id", "class", "xlink:href", "d", "points", "version", "baseProfile", "gradientTransform", "transform"].contains(&k) || (k.contains(':') && k != "xml:space")
}
/// The types of segments; a MoveTo after a ClosePath can be explicit or not.
fn letters(d: &str) -> String {
    d.chars().filter(|c| c.is_ascii_alphabetic() && *c != 'e').collect::<String>().to_uppercase().replace("ZM", "Z")
}
fn gone(b: Option<&str>, a: Option<&str>) -> bool {
    b.is_some() && a.is_none()
}

fn foot(opt: &str) -> Foot {
    let mut f = NONE;
    match opt {
        "remove-comments" => f.del = |t, _| t.name == "#comment",
        "remove-declarations" => f.del = |t, _| t.name == "#pi",
        "remove-nonsvg-elements" => {
            f.del = |t, _| !is_svg(&t.name);
            f.attr = |_, k, _, _| k.starts_with("xmlns:");
        }
        "remove-nonsvg-attributes" => {
            f.attr = |_, k, b, a| {
                gone(b, a)
                    && (k.split_once(':').map_or(false, |p| !["xml", "xlink"].contains(&p.0))
                        || k.starts_with("data-")
                        || k.starts_with("aria-")
                        || ["foo", "bar", "role", "tabindex", "lang", "unicode-bidi", "line-height", "mask-type"].contains(&k))
            }
        }
        "remove-title" => f.del = |t, _| t.name == "title",
        "remove-desc" => f.del = |t, _| t.name == "desc",
        "remove-metadata" => f.del = |t, _| t.name == "metadata",
        "remove-version" => f.attr = |e, k, b, a| e == "svg" && ["version", "baseProfile"].contains(&k) && gone(b, a),
        "remove-unreferenced-ids" => f.attr = |_, k, b, a| k == "id" && gone(b, a),
        "trim-ids" => f.refs = true,
        "remove-dupl-cmd-in-paths" => {
            f.attr = |_, k, b, a| k == "d" && b.map_or(false, |b| { let mut b = b.replace('z', "Z"); while b.contains("Z  Z ") { b = b.replace("Z  Z ", "Z "); } a.map(|a| a.replace('z', "Z")) == Some(b) })
        }
        "remove-xmlns-xlink-attribute" => {}
        "remove-text-attributes" => f.attr = |_, k, b, a| TEXT.contains(&k) && gone(b, a),
        "remove-unused-coordinates" => f.attr = |_, k, b, a| (GEOMETRY.contains(&k) || ["fx", "fy"].contains(&k)) && !protected(k) && gone(b, a),
        "remove-default-attributes" => f.attr = |_, k, b, a| !protected(k) && gone(b, a),
        "remove-needless-attributes" => f.attr = |e, k, b, a| {
                (a == Some("none") && (k == "fill" || k == "stroke")) || gone(b, a) && (!protected(k) || (SHAPES.contains(&e) && e != "path" && ["points", "d", "version", "baseProfile", "gradientTransform", "xlink:href"].contains(&k)))
            },
        "remove-gradient-attributes" => f.attr = |e, _, b, a| GRADIENTS.contains(&e) && gone(b, a),
        "apply-transform-to-gradients" => f.attr = |e, k, _, _| GRADIENTS.contains(&e) && (k == "gradientTransform" || GEOMETRY.contains(&k) || ["fx", "fy"].contains(&k)),
        "apply-transform-to-shapes" => f.attr = |e, k, _, _| SHAPES.contains(&e) && e != "path" && !e.starts_with("pol") && (k == "transform" || GEOMETRY.contains(&k) || k.starts_with("stroke-")),
        "remove-unresolved-classes" => f.attr = |_, k, _, _| k == "class",
        "paths-to-relative" => f.attr = |e, k, b, a| e == "path" && k == "d" && gone(b, None) && letters(b.unwrap()) == letters(a.unwrap_or("")),
        "convert-segments" => f.attr = |e, k, b, a| e == "path" && k == "d" && gone(b, None) && letters(b.unwrap()).len() == letters(a.unwrap_or("")).len(),
        "remove-unused-segments" => {
            f.attr = |e, k, b, a| {
                e == "path" && k == "d" && b.is_some() && a.is_some() && {
                    let (b, a) = (letters(b.unwrap()), letters(a.unwrap()));
                    let hv = b.contains(|c| c == 'H' || c == 'V');
                    a.len() <= b.len() && a.chars().all(|c| b.contains(c) || c == 'Z' || (hv && "HVL".contains(c)))
                }
            }
        }
        "apply-transform-to-paths" => f.attr = |e, k, _, _| e == "path" && (k == "d" || k == "transform" || k.starts_with("stroke-")),
        "convert-shapes" => {
            f.rename = |a, b| a == b || (b == "path" && ["rect", "line", "polyline", "polygon"].contains(&a));
            f.attr = |_, k, b, a| if k == "d" { a.is_some() } else { GEOMETRY.contains(&k) && gone(b, a) };
        }
        "remove-unused-defs" => {
            f.flat = &["g"];
            f.del = is_def;
            // the attributes of the groups above move down
            f.attr = |_, k, _, a| is_style(k) && a.is_some();
        }
        "remove-dupl-lineargradient" => {
            f.del = |t, d| d && t.name == "linearGradient";
            f.refs = true;
        }
        "remove-dupl-radialgradient" => {
            f.del = |t, d| d && t.name == "radialGradient";
            f.refs = true;
        }
        "remove-dupl-fegaussianblur" => {
            f.del = |t, d| d && t.name == "filter";
            f.refs = true;
        }
        "merge-gradients" | "regroup-gradient-stops" => f.opaque = GRADIENTS,
        "remove-invalid-stops" => f.del = |t, _| t.name == "stop",
        "ungroup-groups" => {
            f.flat = &["g"];
            f.attr = |_, k, b, a| is_style(k) || k == "xml:space" || (k == "class" && b.is_none()) || (k == "xlink:href" && gone(b, a));
        }
        "group-by-style" => {
            f.flat = &["g"];
            f.attr = |_, k, _, _| is_style(k);
        }
        "ungroup-defs" => {}
        "remove-invisible-elements" => {
            f.del = |t, _| !t.name.starts_with('#') && is_svg(&t.name) && !["title", "desc", "metadata", "stop", "feMergeNode"].contains(&t.name.as_str());
            f.attr = |_, k, _, _| ["fill", "stroke", "fill-opacity", "stroke-opacity", "filter", "opacity", "visibility", "display"].contains(&k);
        }
        "resolve-use" => {
            f.rename = |a, b| a == b || a == "use";
            f.del = is_def;
        }
        _ => {}
    }
    f
}

fn show(t: &T) -> String {
    let mut s = format!("<{}", t.name);
    for (k, v) in &t.attrs {
        s.push_str(&format!(" {}='{}'", k, v));
    }
    s.push('>');
    s.push_str(&t.text);
    s
}

fn eq(a: &T, b: &T, def: bool, f: &Foot) -> Result<(), String> {
    if !(f.rename)(&a.name, &b.name) || a.text != b.text {
        return Err(format!("{} became {}", show(a), show(b)));
    }
    if a.name == "use" && b.name != "use" {
        return Ok(());
    }
    let mut keys: Vec<&String> = a.attrs.keys().chain(b.attrs.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let (x, y) = (a.attrs.get(k).map(|s| s.as_str()), b.attrs.get(k).map(|s| s.as_str()));
        if x == y || (f.attr)(&a.name, k, x, y) {
            continue;
        }
        if f.refs && x.is_some() && y.is_some() && (k == "id" || k == "xlink:href" || x.unwrap().contains("url(#")) {
            continue;
        }
        return Err(format!("'{}' was {:?} and is {:?} on {}", k, x, y, show(a)));
    }
    list(&a.kids, &b.kids, false, f).map_err(|e| if def { format!("{} (in {})", e, show(a)) } else { e })
}

/// The same elements in the same order, apart from what may be deleted.
fn list(a: &[T], b: &[T], def: bool, f: &Foot) -> Result<(), String> {
    let mut j = 0;
    let mut why = String::new();
    let b: Vec<&T> = b.iter().filter(|t| !f.opaque.contains(&t.name.as_str())).collect();
    for t in a {
        if f.opaque.contains(&t.name.as_str()) {
            continue;
        }
        let r = match b.get(j) {
            Some(u) => eq(t, u, def, f),
            None => Err(format!("{} is gone", show(t))),
        };
        match r {
            Ok(()) => j += 1,
            Err(e) if (f.del)(t, def) => {
                if why.is_empty() {
                    why = e;
                }
            }
            Err(e) => return Err(e),
        }
    }
    match b.get(j) {
        Some(u) => Err(format!("{} is new; {}", show(u), why)),
        None => Ok(()),
    }
}

/// Definitions move around, so their order is free.
fn set(a: &[T], b: &[T], f: &Foot) -> Result<(), String> {
    let mut left: Vec<&T> = b.iter().filter(|t| !f.opaque.contains(&t.name.as_str())).collect();
    let mut replaced = 0;
    for t in a {
        if f.opaque.contains(&t.name.as_str()) {
            continue;
        }
        let id = t.attrs.get("id");
        let hit = left.iter().position(|u| (id.is_some() == u.attrs.get("id").is_some() || f.refs || (f.attr)(&t.name, "id", Some("x"), None)) && (id.is_none() || f.refs || u.attrs.get("id").is_none() || id == u.attrs.get("id")) && eq(t, u, true, f).is_ok());
        match hit {
            Some(p) => {
                left.remove(p);
            }
            None if (f.del)(t, true) => {
                // a 'use' in 'defs' becomes the definition that it refers to
                if t.name == "use" && (f.rename)("use", "g") {
                    replaced += 1;
                }
            }
            None => {
                let why = left.iter().find(|u| id.is_some() && id == u.attrs.get("id")).map(|u| eq(t, u, true, f));
                return Err(match why {
                    Some(Err(e)) => e,
                    _ => format!("the definition {} is gone", show(t)),
                });
            }
        }
    }
    // which keeps its name and its contents
    left.retain(|u| {
        let moved = replaced > 0 && a.iter().any(|t| t.name == u.name && t.attrs.get("id") == u.attrs.get("id") && list(&t.kids, &u.kids, true, f).is_ok());
        replaced -= moved as usize;
        !moved
    });
    match left.first() {
        Some(u) => Err(format!("the definition {} is new", show(u))),
        None => Ok(()),
    }
}

fn compare(before: &str, after: &str, f: &Foot) -> Result<(), String> {
    let a = tree(before, f.flat)?;
    let b = tree(after, f.flat)?;
    list(&a.main, &b.main, false, f)?;
    set(&a.defs, &b.defs, f)
}

/// What reading alone does.
fn reading() -> Foot {
    Foot {
        attr: |e, k, _, a| {
            // what definitions inherited where they were
            (is_style(k) && a.is_some() && (REFERENCED.contains(&e) || !e.is_empty()))
                || (e == "rect" && ["width", "height", "rx", "ry"].contains(&k))
                || (e == "stop" && k == "offset")
                || (e.starts_with("pol") && k == "points")
        },
        ..NONE
    }
}

fn untouched(c: &Case, off: &Config, opt: &str, more: &Arc<AtomicU64>, note: &mut Note) -> Result<(), String> {
    let o = match c.out {
        Outcome::Ok(o) => o,
        Outcome::Err(_) => return Ok(()),
        Outcome::Panic(e) => return Err(format!("panic: {}", e)),
    };
    note.observed = fnv(o);
    note.nontrivial = o != c.pre.text;
    if opt != "remove-xmlns-xlink-attribute" && xlink(c.pre.text)? && !xlink(o)? {
        return Err("xmlns:xlink is gone".into());
    }
    if opt.is_empty() {
        // styles are resolved to attributes, which is the matter of C04
        if ["<style", "inherit", "currentColor", "<!ENTITY", "<!DOCTYPE", " marker="].iter().any(|s| c.pre.text.contains(s)) {
            return Ok(());
        }
        return compare(c.pre.text, o, &reading());
    }
    more.fetch_add(1, Ordering::Relaxed);
    match clean(c.pre.text, off) {
        Outcome::Ok(p) => compare(&p, o, &foot(opt)),
        r => Err(format!("accepted with {} but not with everything off: {:?}", opt, r)),
    }
}


/// What of an option's subject a document has, apart from what the other options may take.
type Keeps = fn(&Doc) -> Vec<String>;

struct Doc {
    all: Vec<T>,
    xlink: bool,
}

/// The declaration of xlink on the root.
fn xlink(s: &str) -> Result<bool, String> {
    let x = xml::parse(s)?;
    Ok(x.nodes[ROOT].children.iter().any(|c| match x.nodes[*c].kind {
        Kind::Elem(_, ref at) => at.iter().any(|a| a.0 == "xmlns:xlink"),
        _ => false,
    }))
}

impl Doc {
    fn new(s: &str) -> Result<Doc, String> {
        let t = tree(s, &[])?;
        let mut all = vec![];
        fn walk(t: &T, inside: &str, out: &mut Vec<T>) {
            let mut c = t.clone();
            // inside of what some other option removes as a whole
            c.text = format!("{}{}", inside, c.text);
            c.kids.retain(|k| k.name.starts_with('#'));
            let inner = if t.name == "title" || t.name == "desc" || t.name == "metadata" || !is_svg(&t.name) { "-" } else { inside };
            out.push(c);
            for k in &t.kids {
                walk(k, inner, out);
            }
        }
        for t in t.main.iter().chain(&t.defs) {
            walk(t, "", &mut all);
        }
        Ok(Doc { all, xlink: xlink(s)? })
    }
    fn pick(&self, f: impl Fn(&T) -> Option<String>) -> Vec<String> {
        let mut v: Vec<String> = self.all.iter().filter(|t| !t.text.starts_with('-')).filter_map(f).collect();
        v.sort();
        v
    }
    fn elems(&self, names: &[&str]) -> Vec<String> {
        self.pick(|t| if names.contains(&t.name.as_str()) { Some(t.name.clone()) } else { None })
    }
    fn attrs(&self, f: impl Fn(&str, &str, &str) -> bool) -> Vec<String> {
        self.all
            .iter()
            .filter(|t| !t.text.starts_with('-') && is_svg(&t.name) && !["title", "desc", "metadata"].contains(&t.name.as_str()))
            .flat_map(|t| t.attrs.iter().filter(|a| f(&t.name, a.0, a.1)).map(|a| format!("{}='{}'", a.0, a.1)).collect::<Vec<_>>())
            .collect()
    }
    fn letters(&self, f: impl Fn(char) -> Option<char>) -> Vec<String> {
        self.pick(|t| t.attrs.get("d").filter(|_| t.name == "path").map(|d| d.chars().filter(|c| c.is_ascii_alphabetic() && *c != 'e').filter_map(&f).collect::<String>().replace("ZM", "Z").replace("zm", "z")))
    }
}

fn described(name: &'static str) -> impl Fn(&T) -> Option<String> {
    move |t| if t.name == name { Some(format!("{} {}", name, t.kids.iter().map(|k| k.text.clone()).collect::<Vec<_>>().join(" "))) } else { None }
}

const KEEPS: &[(&str, Keeps)] = &[
    ("remove-comments", |d| d.pick(|t| if t.name == "#comment" { Some(t.text.clone()) } else { None })),
    ("remove-declarations", |d| d.pick(|t| if t.name == "#pi" { Some(t.text.clone()) } else { None })),
    ("remove-nonsvg-elements", |d| d.pick(|t| if !is_svg(&t.name) { Some(t.name.clone()) } else { None })),
    ("remove-title", |d| d.pick(described("title"))),
    ("remove-desc", |d| d.pick(described("desc"))),
    ("remove-metadata", |d| d.pick(described("metadata"))),
    ("remove-nonsvg-attributes", |d| d.attrs(|_, k, _| k.starts_with("m:") || k.starts_with("n:") || k.starts_with("data-") || k.starts_with("aria-") || k == "foo")),
    ("remove-version", |d| d.attrs(|e, k, _| e == "svg" && k == "version")),
    ("remove-unresolved-classes", |d| d.attrs(|_, k, _| k == "class")),
    ("remove-unreferenced-ids", |d| d.attrs(|e, k, _| k == "id" && e != "defs" && e != "g").iter().map(|_| "id".to_string()).collect()),
    ("convert-shapes", |d| d.elems(SHAPES)),
    ("remove-unused-defs", |d| d.elems(&["clipPath", "mask", "pattern", "marker", "symbol"])),
    ("remove-dupl-lineargradient", |d| d.elems(&["linearGradient"])),
    ("remove-dupl-radialgradient", |d| d.elems(&["radialGradient"])),
    ("remove-dupl-fegaussianblur", |d| d.elems(&["filter"])),
    ("resolve-use", |d| d.elems(&["use"])),
    ("ungroup-groups", |d| d.elems(&["g"])),
    ("apply-transform-to-gradients", |d| {
        let mut v = d.attrs(|e, k, _| GRADIENTS.contains(&e) && k == "gradientTransform");
        v.sort();
        v.dedup();
        v
    }),
    ("apply-transform-to-shapes", |d| d.pick(|t| t.attrs.get("transform").filter(|_| SHAPES.contains(&t.name.as_str())).cloned())),
    ("remove-text-attributes", |d| d.attrs(|e, k, v| k == "letter-spacing" && v == "2" && e != "text")),
    ("remove-xmlns-xlink-attribute", |d| if d.xlink { vec!["xmlns:xlink".into()] } else { vec![] }),
    ("paths-to-relative", |d| d.letters(Some)),
    ("convert-segments", |d| d.letters(|c| Some(c.to_ascii_uppercase()))),
    ("remove-unused-segments", |d| d.letters(|c| match c {
        'H' | 'h' | 'V' | 'v' => Some('L'),
        'S' | 's' => Some('C'),
        'T' | 't' => Some('Q'),
        c => Some(c.to_ascii_uppercase()),
    })),
];

/// All options on apart from one: what is left of its subject.
fn kept(c: &Case, keeps: Keeps, off: &Config, more: &Arc<AtomicU64>, note: &mut Note) -> Result<(), String> {
    let o = match c.out {
        Outcome::Ok(o) => o,
        Outcome::Err(_) => return Ok(()),
        Outcome::Panic(e) => return Err(format!("panic: {}", e)),
    };
    note.observed = fnv(o);
    more.fetch_add(1, Ordering::Relaxed);
    let p = match clean(c.pre.text, off) {
        Outcome::Ok(p) => p,
        r => return Err(format!("not accepted with everything off: {:?}", r)),
    };
    let a = keeps(&Doc::new(&p)?);
    let b = keeps(&Doc::new(o)?);
    note.nontrivial = !a.is_empty();
    if a != b {
        return Err(format!("had {:?}, has {:?}", a, b));
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    let t = r.tier == "thorough";
    let more = Arc::new(AtomicU64::new(0));
    let opts: Vec<&'static str> = BOOLS.iter().map(|b| b.0).filter(|o| std::env::var("C10").map_or(true, |v| v == *o)).collect();
    let m = more.clone();
    let hook = move |mut f: Family<'static>, opts: Vec<&'static str>| -> Family<'static> {
        let mut names: HashMap<String, &'static str> = HashMap::new();
        let mut v = vec![solo(&[])];
        for o in &opts {
            let c = solo(&[o]);
            names.insert(c.name.clone(), o);
            v.push(c);
        }
        f.configs = v;
        f.next = vec![];
        f.depth = 1;
        let m = m.clone();
        let off = solo(&[]);
        f.check = Box::new(move |c, n| untouched(c, &off, names.get(&c.cfg.name).map_or("", |s| s), &m, n));
        f
    };
    let (np, nn, nc, na) = (subj::PLACES, subj::NODES.len(), subj::CARRIERS.len(), subj::ATTRS.len());
    let dims = [np, nn, nn];
    r.explore(hook(
        family("two nodes in every place", product(&dims), move |i| {
            let k = radix(i, &dims);
            let (a, b) = (subj::NODES[k[1]], subj::NODES[k[2]]);
            if !subj::fits(k[0], a) || !subj::fits(k[0], b) || (a == b && a.contains("id=")) {
                return None;
            }
            Some(subj::place(&[(k[0], a), (k[0], b)]))
        }, vec![], |_, _| Ok(())),
        opts.clone(),
    ));
    let dims = [nc, na];
    r.explore(hook(
        family("attributes on every element", product(&dims), move |i| {
            let k = radix(i, &dims);
            subj::carry(k[0], subj::ATTRS[k[1]])
        }, vec![], |_, _| Ok(())),
        opts.clone(),
    ));
    // from all on
    let subjects: Vec<(&'static str, Keeps)> = KEEPS.iter().filter(|k| std::env::var("C10").map_or(true, |v| v == k.0)).cloned().collect();
    let m = more.clone();
    let on = move |mut f: Family<'static>, s: &[&str]| -> Family<'static> {
        let mut names: HashMap<String, Keeps> = HashMap::new();
        f.configs = vec![];
        for (o, k) in subjects.iter().filter(|k| s.contains(&k.0)) {
            let mut c = without(o);
            if *o == "convert-segments" {
                c = config(&["--convert-segments=false", "--remove-unused-segments=false"]);
            }
            if *o == "ungroup-groups" {
                c = config(&["--ungroup-groups=false", "--group-by-style=false", "--resolve-use=false"]);
            }
            if o.starts_with("remove-dupl-") {
                c = config(&[&format!("--{}=false", o), "--merge-gradients=false", "--regroup-gradient-stops=false"]);
            }
            names.insert(c.name.clone(), *k);
            f.configs.push(c);
        }
        let m = m.clone();
        let off = solo(&[]);
        f.check = Box::new(move |c, n| kept(c, names[&c.cfg.name], &off, &m, n));
        f
    };
    let dims = [np, nn, nn];
    r.explore(on(
        family("all but one: two nodes in every place", product(&dims), move |i| {
            let k = radix(i, &dims);
            let (a, b) = (subj::NODES[k[1]], subj::NODES[k[2]]);
            if !subj::fits(k[0], a) || !subj::fits(k[0], b) || (a == b && a.contains("id=")) {
                return None;
            }
            // elements directly in defs are unused definitions
            if [2, 19].contains(&k[0]) && (a != b || !a.starts_with("<!")) {
                return None;
            }
            Some(subj::place(&[(k[0], a), (k[0], b)]))
        }, vec![], |_, _| Ok(())),
        &["remove-comments", "remove-declarations", "remove-nonsvg-elements", "remove-title", "remove-desc", "remove-metadata", "remove-nonsvg-attributes", "remove-unused-defs", "remove-unreferenced-ids", "remove-xmlns-xlink-attribute"],
    ));
    let dims = [nc, na, na];
    r.explore(on(
        family("all but one: two sets of attributes on every element", product(&dims), move |i| {
            let k = radix(i, &dims);
            if k[1] >= k[2] {
                return None;
            }
            subj::carry(k[0], &format!("{} {}", subj::ATTRS[k[1]], subj::ATTRS[k[2]]))
        }, vec![], |_, _| Ok(())),
        &["remove-nonsvg-attributes", "remove-version", "remove-unresolved-classes", "remove-unreferenced-ids", "convert-shapes", "remove-text-attributes", "apply-transform-to-gradients", "apply-transform-to-shapes"],
    ));
    // paths, visible and without a segment to spare
    const SEGS: &[&str] = &["L 30 40", "l 3 4", "H 7", "h 8", "V 9", "v 11", "C 1 2 3 5 7 11", "c 1 2 3 5 7 11", "S 5 6 9 4", "s 5 6 9 4", "Q 5 9 6 3", "q 5 9 6 3", "T 17 8", "t 17 8", "A 5 7 20 0 1 40 50", "a 5 7 20 1 0 40 50", "Z", "z", "M 60 70", "m 60 70", "L 30 40 50 70", "L 50 40", "l 0 9", "C 10 20 10 20 30 40", "S 10 20 30 40"];
    let n = if t { 4 } else { 3 };
    let dims = [seq_count(SEGS.len(), n) as usize, 2];
    r.explore(on(
        family("all but one: segments of paths", product(&dims), move |i| {
            let k = radix(i, &dims);
            let v = seq(k[0] as u64, SEGS.len());
            let d = v.iter().map(|j| SEGS[*j]).collect::<Vec<_>>().join(" ");
            // lines that look like H and V next to H and V are kept apart by nobody
            // what remove-unused-segments and remove-dupl-cmd-in-paths are for belongs to them
            if ["Z Z", "z z", "Z z", "z Z"].iter().any(|z| d.contains(z)) {
                return None;
            }
            Some(svg(&format!("<path d='{} 10 20 L 3 50 {}' stroke='red'/>", ["M", "m"][k[1]], d)))
        }, vec![], |_, _| Ok(())),
        &["paths-to-relative", "convert-segments", "remove-unused-segments"],
    ));
    const DEFS: &[(&str, &str)] = &[
        ("linearGradient", ""), ("linearGradient", " x1='0%'"), ("linearGradient", " x1='.1'"), ("linearGradient", " gradientTransform='rotate(9)'"), ("linearGradient", " gradientUnits='userSpaceOnUse'"),
        ("radialGradient", ""), ("radialGradient", " r='50%'"), ("radialGradient", " r='.4'"), ("radialGradient", " gradientTransform='rotate(9)'"),
        ("clipPath", ""), ("mask", ""), ("pattern", " width='9' height='8'"), ("marker", " markerWidth='3' markerHeight='4'"), ("filter", ""), ("symbol", ""), ("g", ""), ("g", " fill='red'"), ("circle", " r='4'"), ("rect", " width='5' height='4'"),
    ];
    let nd = DEFS.len();
    let dims = [nd, nd, 3, 3, 3];
    let definitions = |name: &str, least: usize, s: &[&str]| on(
        family(name, product(&dims), move |i| {
            let k = radix(i, &dims);
            if k[3] < least || k[4] < least {
                return None;
            }
            let one = |d: usize, id: &str| {
                let (e, a) = DEFS[d];
                let inner = match e {
                    "linearGradient" | "radialGradient" => "<stop offset='0' stop-color='red'/><stop offset='1' stop-color='lime'/>",
                    "filter" => "<feGaussianBlur stdDeviation='2'/>",
                    "circle" | "rect" => "",
                    "g" | "symbol" => "<circle r='5'/><circle r='6' stroke='red'/>",
                    _ => "<circle r='5' fill='white'/>",
                };
                format!("<{} id='{}'{}>{}</{}>", e, id, a, inner, e)
            };
            let used = |d: usize, id: &str, n: usize| {
                let e = DEFS[d].0;
                (0..n)
                    .map(|j| match e {
                        "symbol" | "g" | "circle" | "rect" => format!("<use xlink:href='#{}' x='{}'/>", id, 5 + j),
                        e => {
                            let a = match e {
                                "clipPath" => "clip-path",
                                "mask" => "mask",
                                "filter" => "filter",
                                "marker" => "marker-end",
                                _ => "fill",
                            };
                            format!("<path {}='url(#{})' d='M {} 5 L 30 40 L 5 70'/>", a, id, j)
                        }
                    })
                    .collect::<String>()
            };
            let (a, b) = (one(k[0], "a"), one(k[1], "b"));
            let d = match k[2] {
                0 => format!("<defs>{}{}</defs>", a, b),
                1 => format!("<defs>{}</defs><defs>{}</defs>", a, b),
                _ => format!("{}<g fill='lime'><circle r='9'/>{}<circle r='8'/></g>", a, b),
            };
            Some(svg(&format!("{}{}{}", d, used(k[0], "a", k[3]), used(k[1], "b", k[4]))))
        }, vec![], |_, _| Ok(())),
        s,
    );
    r.explore(definitions("all but one: two used definitions", 1, &["remove-xmlns-xlink-attribute", "convert-shapes", "remove-dupl-lineargradient", "remove-dupl-radialgradient", "remove-dupl-fegaussianblur", "resolve-use", "ungroup-groups", "apply-transform-to-gradients"]));
    r.explore(definitions("all but one: two definitions", 0, &["remove-unused-defs"]));
    crate::corpus(r, move |f: Family<'static>| if f.size <= if t { 100_000 } else { 5_000 } { Some(hook(f, opts.clone())) } else { None });
    r.stats.transitions += more.load(Ordering::Relaxed);
}

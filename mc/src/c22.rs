//! C22: what an enabled option documents holds for the whole output.
use crate::engine::*;
use crate::fam::*;
use crate::style;
use crate::subj;
use crate::xml::{self, Kind, Xml, ROOT};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// Elements of SVG 1.1.
pub const ELEMENTS: &[&str] = &[
    "a", "altGlyph", "altGlyphDef", "altGlyphItem", "animate", "animateColor", "animateMotion", "animateTransform", "circle", "clipPath", "color-profile", "cursor", "defs", "desc", "ellipse",
    "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feDistantLight", "feFlood", "feFuncA", "feFuncB", "feFuncG",
    "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "filter", "font",
    "font-face", "font-face-format", "font-face-name", "font-face-src", "font-face-uri", "foreignObject", "g", "glyph", "glyphRef", "hkern", "image", "line", "linearGradient", "marker", "mask",
    "metadata", "missing-glyph", "mpath", "path", "pattern", "polygon", "polyline", "radialGradient", "rect", "script", "set", "stop", "style", "svg", "switch", "symbol", "text", "textPath",
    "title", "tref", "tspan", "use", "view", "vkern",
];

/// Elements that are only drawn where something refers to them.
const REFERENCED: &[&str] = &[
    "altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask", "pattern", "radialGradient", "symbol",
];
const TEXT_ATTRS: &[&str] = &[
    "alignment-baseline", "baseline-shift", "direction", "dominant-baseline", "font", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant", "font-weight",
    "glyph-orientation-horizontal", "glyph-orientation-vertical", "kerning", "letter-spacing", "line-height", "text-anchor", "text-decoration", "word-spacing", "writing-mode", "xml:space",
];

pub struct Doc<'a> {
    pub x: &'a Xml,
    pub root: usize,
    pub elems: Vec<usize>,
    /// attributes with the style attribute split
    pub attrs: HashMap<usize, BTreeMap<String, String>>,
    pub id: HashMap<String, usize>,
    /// element -> elements that refer to it, with the attribute
    pub users: HashMap<usize, Vec<(usize, String)>>,
}

impl<'a> Doc<'a> {
    pub fn new(x: &'a Xml) -> Doc<'a> {
        let elems = x.all_elems();
        let mut attrs = HashMap::new();
        let mut id = HashMap::new();
        for &n in &elems {
            let mut m: BTreeMap<String, String> = x.attrs(n).iter().cloned().collect();
            if let Some(s) = m.remove("style") {
                for d in style::declarations(&s) {
                    m.insert(d.0, d.1);
                }
            }
            if let Some(i) = m.get("id") {
                id.insert(i.clone(), n);
            }
            attrs.insert(n, m);
        }
        let mut users: HashMap<usize, Vec<(usize, String)>> = HashMap::new();
        for &n in &elems {
            for (k, v) in &attrs[&n] {
                if k == "xlink:href" {
                    if let Some(t) = v.trim().strip_prefix('#').and_then(|i| id.get(i)) {
                        users.entry(*t).or_default().push((n, k.clone()));
                    }
                } else {
                    let mut rest = v.as_str();
                    while let Some(p) = rest.find("url(#") {
                        rest = &rest[p + 5..];
                        if let Some(e) = rest.find(')') {
                            if let Some(t) = id.get(&rest[..e]) {
                                users.entry(*t).or_default().push((n, k.clone()));
                            }
                        }
                    }
                }
            }
        }
        Doc { x, root: x.root_elem().unwrap_or(ROOT), elems, attrs, id, users }
    }
    pub fn name(&self, n: usize) -> &str {
        self.x.name(n)
    }
    pub fn get(&self, n: usize, k: &str) -> Option<&str> {
        self.attrs.get(&n).and_then(|m| m.get(k)).map(|s| s.as_str())
    }
    pub fn has(&self, n: usize, k: &str) -> bool {
        self.get(n, k).is_some()
    }
    pub fn kids(&self, n: usize) -> Vec<usize> {
        self.x.elem_children(n).collect()
    }
    pub fn parents(&self, n: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut p = self.x.parent(n);
        while p != ROOT {
            v.push(p);
            p = self.x.parent(p);
        }
        v
    }
    pub fn used(&self, n: usize) -> bool {
        self.users.contains_key(&n)
    }
    pub fn uses(&self, n: usize) -> usize {
        self.users.get(&n).map_or(0, |v| v.len())
    }
    pub fn target(&self, n: usize) -> Option<usize> {
        self.get(n, "xlink:href").and_then(|h| h.trim().strip_prefix('#')).and_then(|i| self.id.get(i)).cloned()
    }
    /// Something above (or the element itself) can be instantiated elsewhere, where other values are inherited.
    pub fn instanced(&self, n: usize) -> bool {
        let mut v = self.parents(n);
        v.push(n);
        v.iter().any(|p| self.users.get(p).map_or(false, |u| u.iter().any(|(e, _)| ["use", "tref"].contains(&self.name(*e)))))
    }
    pub fn show(&self, n: usize) -> String {
        let mut s = format!("<{}", self.name(n));
        for (k, v) in &self.attrs[&n] {
            s.push_str(&format!(" {}='{}'", k, v));
        }
        s.push('>');
        s
    }
    fn has_text(&self, n: usize) -> bool {
        self.x.nodes[n].children.iter().any(|c| match self.x.nodes[*c].kind {
            Kind::Text(ref s) => !s.is_empty(),
            Kind::CData(_) => true,
            Kind::Elem(..) => self.has_text(*c),
            _ => false,
        })
    }
    fn gradients(&self) -> Vec<usize> {
        self.elems.iter().cloned().filter(|n| self.is_gradient(*n)).collect()
    }
    fn is_gradient(&self, n: usize) -> bool {
        ["linearGradient", "radialGradient"].contains(&self.name(n))
    }
    fn stop(&self, n: usize) -> [String; 3] {
        let g = |k: &str, d: &str| self.get(n, k).unwrap_or(d).to_string();
        let c = match style::color(&g("stop-color", "#000")) {
            Some(c) => format!("{:?}", c),
            None => g("stop-color", "#000"),
        };
        let f = |s: String| match s.strip_suffix('%') {
            Some(p) => p.parse::<f64>().map(|v| (v / 100.0).to_string()).unwrap_or(s.clone()),
            None => s.parse::<f64>().map(|v| v.to_string()).unwrap_or(s.clone()),
        };
        [f(g("offset", "0")), c, f(g("stop-opacity", "1"))]
    }
    fn stops(&self, n: usize) -> Vec<[String; 3]> {
        self.kids(n).into_iter().filter(|c| self.name(*c) == "stop").map(|c| self.stop(c)).collect()
    }
    /// An attribute of a gradient with what it inherits through references.
    fn grad(&self, n: usize, k: &str) -> Option<String> {
        let mut n = n;
        for _ in 0..20 {
            if let Some(v) = self.get(n, k) {
                return Some(v.to_string());
            }
            let t = self.target(n)?;
            if ["gradientUnits", "spreadMethod", "gradientTransform"].contains(&k) || self.name(t) == self.name(n) {
                n = t;
            } else {
                return None;
            }
        }
        None
    }
    /// What a gradient amounts to, apart from its stops.
    fn geometry(&self, n: usize) -> Vec<String> {
        let d = |k: &str, d: &str| self.grad(n, k).unwrap_or(d.to_string());
        let mut v = vec![self.name(n).to_string(), d("gradientUnits", "objectBoundingBox"), d("spreadMethod", "pad"), d("gradientTransform", "")];
        if self.name(n) == "linearGradient" {
            v.extend([d("x1", "0%"), d("y1", "0%"), d("x2", "100%"), d("y2", "0%")]);
        } else {
            let (cx, cy) = (d("cx", "50%"), d("cy", "50%"));
            v.extend([d("r", "50%"), d("fx", &cx), d("fy", &cy), cx, cy]);
        }
        v
    }
    fn marker_possible(&self) -> bool {
        self.elems.iter().any(|n| self.attrs[n].keys().any(|k| k.starts_with("marker-") || k == "marker"))
    }
}

fn num(s: &str) -> Option<f64> {
    s.parse().ok()
}
/// A plain number.
fn plain(d: &Doc, n: usize, k: &str) -> Option<f64> {
    match d.get(n, k) {
        None => Some(0.0),
        Some(s) => num(s),
    }
}

/// Translation, or translation with a uniform positive scale.
fn simple_transform(t: &str) -> bool {
    match crate::geom::transform(t) {
        Some(m) => m.b == 0.0 && m.c == 0.0 && m.a == m.d && m.a > 0.0,
        None => false,
    }
}

type Post = fn(&Doc, &Config) -> Result<(), String>;

fn each(d: &Doc, f: impl Fn(usize) -> Option<&'static str>) -> Result<(), String> {
    for &n in &d.elems {
        if let Some(w) = f(n) {
            return Err(format!("{}: {}", w, d.show(n)));
        }
    }
    Ok(())
}

fn no_element(d: &Doc, name: &str) -> Result<(), String> {
    match d.elems.iter().find(|n| d.name(**n) == name) {
        Some(n) => Err(format!("{} is left", d.show(*n))),
        None => Ok(()),
    }
}

fn comments(d: &Doc, _: &Config) -> Result<(), String> {
    match d.x.nodes.iter().any(|n| matches!(n.kind, Kind::Comment(_))) {
        true => Err("a comment is left".into()),
        false => Ok(()),
    }
}
fn declarations(d: &Doc, _: &Config) -> Result<(), String> {
    for n in &d.x.nodes {
        if let Kind::Pi(ref s) = n.kind {
            return Err(format!("a declaration is left: {}", s));
        }
    }
    Ok(())
}
fn nonsvg_elements(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| if ELEMENTS.contains(&d.name(n)) { None } else { Some("a non-SVG element is left") })
}
fn nonsvg_attributes(d: &Doc, _: &Config) -> Result<(), String> {
    let used: HashSet<&str> = d.elems.iter().filter_map(|n| d.name(*n).split_once(':').map(|p| p.0)).collect();
    for &n in &d.elems {
        if !ELEMENTS.contains(&d.name(n)) {
            continue;
        }
        for k in d.attrs[&n].keys() {
            let bad = match k.split_once(':') {
                Some(("xmlns", "xlink")) | Some(("xml", _)) | Some(("xlink", _)) => false,
                Some(("xmlns", p)) => !used.contains(p),
                Some(_) => true,
                None => k.starts_with("data-") || k.starts_with("aria-") || ["foo", "bar", "role", "tabindex", "href"].contains(&k.as_str()) || k == "lang" && d.name(n) != "glyph",
            };
            if bad {
                return Err(format!("the attribute '{}' is left on {}", k, d.show(n)));
            }
        }
    }
    Ok(())
}
fn title(d: &Doc, _: &Config) -> Result<(), String> {
    no_element(d, "title")
}
fn desc(d: &Doc, _: &Config) -> Result<(), String> {
    no_element(d, "desc")
}
fn metadata(d: &Doc, _: &Config) -> Result<(), String> {
    no_element(d, "metadata")
}
fn unused_defs(d: &Doc, _: &Config) -> Result<(), String> {
    for &n in &d.elems {
        let p = d.x.parent(n);
        let defs = p != ROOT && d.name(p) == "defs";
        if (defs || REFERENCED.contains(&d.name(n))) && !d.used(n) && !["font", "font-face", "style", "defs", "title", "desc", "metadata"].contains(&d.name(n)) {
            // definitions inside other definitions go with them
            return Err(format!("{} is defined but not used", d.show(n)));
        }
    }
    Ok(())
}
fn convert_shapes(d: &Doc, _: &Config) -> Result<(), String> {
    let markers = d.marker_possible();
    each(d, |n| match d.name(n) {
        "line" if ["x1", "y1", "x2", "y2"].iter().all(|k| plain(d, n, k).is_some()) => Some("a line is left"),
        "polyline" | "polygon" if d.get(n, "points").map_or(false, |p| !p.is_empty()) => Some("a shape is left"),
        "rect"
            if !markers
                && ["x", "y"].iter().all(|k| plain(d, n, k).is_some())
                && ["width", "height"].iter().all(|k| plain(d, n, k).map_or(false, |v| v > 1e-6))
                && ["rx", "ry"].iter().all(|k| plain(d, n, k).map_or(false, |v| v == 0.0)) =>
        {
            Some("a rect is left")
        }
        _ => None,
    })
}
fn dupl(d: &Doc, name: &str) -> Result<(), String> {
    let v: Vec<usize> = d.elems.iter().cloned().filter(|n| d.name(*n) == name).collect();
    for (i, &a) in v.iter().enumerate() {
        for &b in &v[i + 1..] {
            if d.get(a, "xlink:href") == d.get(b, "xlink:href") && d.get(a, "color-interpolation") == d.get(b, "color-interpolation") && d.geometry(a) == d.geometry(b) && d.stops(a) == d.stops(b) {
                return Err(format!("{} and {} are duplicates", d.show(a), d.show(b)));
            }
        }
    }
    Ok(())
}
fn dupl_linear(d: &Doc, _: &Config) -> Result<(), String> {
    dupl(d, "linearGradient")
}
fn dupl_radial(d: &Doc, _: &Config) -> Result<(), String> {
    dupl(d, "radialGradient")
}
fn dupl_blur(d: &Doc, _: &Config) -> Result<(), String> {
    let key = |n: usize| -> Option<String> {
        let k = d.kids(n);
        if d.name(n) != "filter" || k.len() != 1 || d.name(k[0]) != "feGaussianBlur" || d.has(n, "xlink:href") || d.used(k[0]) {
            return None;
        }
        let c = k[0];
        if d.has(c, "in") || d.has(c, "result") {
            return None;
        }
        let f: Vec<Option<&str>> = ["x", "y", "width", "height", "filterUnits", "primitiveUnits", "filterRes", "color-interpolation-filters"].iter().map(|k| d.get(n, k)).collect();
        let g: Vec<Option<&str>> = ["stdDeviation", "x", "y", "width", "height", "color-interpolation-filters"].iter().map(|k| d.get(c, k)).collect();
        Some(format!("{:?} {:?}", f, g))
    };
    let mut seen: HashMap<String, usize> = HashMap::new();
    for &n in &d.elems {
        if let Some(k) = key(n) {
            if let Some(m) = seen.insert(k, n) {
                return Err(format!("the filters {} and {} are duplicates", d.show(m), d.show(n)));
            }
        }
    }
    Ok(())
}
fn ungroup_groups(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| {
        if d.name(n) != "g" {
            return None;
        }
        let p = d.x.parent(n);
        if p == ROOT || d.name(p) == "switch" {
            return None;
        }
        if d.x.nodes[n].children.is_empty() && !d.has(n, "filter") {
            return Some("an empty group is left");
        }
        if d.used(n) || d.name(p) == "clipPath" {
            return None;
        }
        if d.attrs[&n].is_empty() {
            return Some("a group without attributes is left");
        }
        let kids = d.kids(n);
        if d.x.nodes[n].children.len() == 1 && kids.len() == 1 && !d.used(kids[0]) {
            let c = kids[0];
            let blocks = ["mask", "clip-path", "filter", "text-decoration", "dominant-baseline", "font", "font-size", "font-family", "font-style", "font-weight", "font-variant", "font-stretch"];
            if d.attrs[&n].keys().any(|k| blocks.contains(&k.as_str()) || k.starts_with("xmlns")) || d.name(c) == "svg" {
                return None;
            }
            // units of a font
            let rel = |m: usize| d.attrs[&m].values().any(|v| v.contains("em") || v.contains("ex"));
            if rel(n) || rel(c) {
                return None;
            }
            return Some("a group with only one child is left");
        }
        None
    })
}
fn ungroup_defs(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| {
        if d.name(n) == "defs" && d.x.nodes[n].children.iter().all(|c| REFERENCED.contains(&d.name(*c))) {
            Some("defs of referenced elements only is left")
        } else {
            None
        }
    })
}
fn merge_gradients(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| {
        if !d.is_gradient(n) {
            return None;
        }
        let t = d.target(n)?;
        if !d.is_gradient(t) || d.uses(t) != 1 || d.has(t, "xlink:href") {
            return None;
        }
        if d.name(t) != d.name(n) && d.users.get(&n).map_or(false, |u| u.iter().any(|(m, _)| d.is_gradient(*m))) {
            return None;
        }
        Some("a gradient that inherits from one used by nothing else is left")
    })
}
fn regroup_stops(d: &Doc, _: &Config) -> Result<(), String> {
    let mut seen: HashMap<Vec<[String; 3]>, usize> = HashMap::new();
    for n in d.gradients() {
        let s = d.stops(n);
        if s.is_empty() || d.has(n, "xlink:href") {
            continue;
        }
        if let Some(m) = seen.insert(s, n) {
            return Err(format!("{} and {} have the same stops", d.show(m), d.show(n)));
        }
    }
    Ok(())
}
fn invalid_stops(d: &Doc, _: &Config) -> Result<(), String> {
    for n in d.gradients() {
        let s = d.stops(n);
        for w in s.windows(2) {
            if w[0] == w[1] {
                return Err(format!("{} has a stop that repeats the previous one", d.show(n)));
            }
        }
    }
    Ok(())
}
fn resolve_use(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| {
        if d.name(n) != "use" || d.used(n) || !d.x.nodes[n].children.is_empty() {
            return None;
        }
        let t = d.target(n)?;
        let p = d.x.parent(t);
        if d.name(p) != "defs" || ["use", "svg"].contains(&d.name(t)) || REFERENCED.contains(&d.name(t)) || d.uses(t) != 1 {
            return None;
        }
        // what can't be expressed on the element itself
        let hard = ["clip-path", "mask", "filter", "opacity", "display", "text-decoration", "dominant-baseline"];
        if plain(d, n, "x").is_none() || plain(d, n, "y").is_none() || hard.iter().any(|k| d.has(n, k)) || d.attrs[&n].keys().chain(d.attrs[&t].keys()).any(|k| k.starts_with("font") || k == "letter-spacing") {
            return None;
        }
        Some("a use of an element used by nothing else is left")
    })
}
fn version(d: &Doc, _: &Config) -> Result<(), String> {
    match d.has(d.root, "version") || d.has(d.root, "baseProfile") {
        true => Err(format!("the version is left: {}", d.show(d.root))),
        false => Ok(()),
    }
}
fn unreferenced_ids(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| if d.has(n, "id") && !d.used(n) && ELEMENTS.contains(&d.name(n)) { Some("an id that nothing refers to is left") } else { None })
}
/// Serial number of a trimmed id: a, b, ..., Z, aa, ...
fn serial(id: &str) -> Option<u64> {
    const CHARS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let mut v: u64 = 0;
    for (i, c) in id.chars().enumerate() {
        let p = CHARS.find(c)? as u64;
        if i == 0 && p > 51 {
            return None;
        }
        v = if i == 0 { p } else { v * 62 + p };
    }
    // shorter names come first
    let mut base = 0;
    for l in 1..id.len() as u32 {
        base += 52 * 62u64.pow(l - 1);
    }
    Some(base + v)
}
fn trim_ids(d: &Doc, _: &Config) -> Result<(), String> {
    let mut ids = vec![];
    for &n in &d.elems {
        if let Some(i) = d.get(n, "id") {
            if !ELEMENTS.contains(&d.name(n)) {
                continue;
            }
            match serial(i) {
                Some(s) => ids.push(s),
                None => return Err(format!("the id '{}' is not a trimmed one", i)),
            }
        }
    }
    ids.sort();
    // an element that is removed after trimming leaves a gap
    match ids.last() {
        Some(l) if *l as usize >= ids.len() + 2 => Err(format!("{} ids but the longest is number {}", ids.len(), l)),
        _ => Ok(()),
    }
}
fn text_attributes(d: &Doc, _: &Config) -> Result<(), String> {
    if d.elems.iter().any(|n| ["tref", "font-face", "altGlyph"].contains(&d.name(*n)) || !ELEMENTS.contains(&d.name(*n))) || d.has_text(d.root) {
        return Ok(());
    }
    for &n in &d.elems {
        for v in d.attrs[&n].values() {
            if v.contains("em") || v.contains("ex") {
                return Ok(());
            }
        }
    }
    for &n in &d.elems {
        if n == d.root {
            continue;
        }
        if let Some(k) = TEXT_ATTRS.iter().find(|k| d.has(n, k)) {
            return Err(format!("'{}' is left on {} without any text", k, d.show(n)));
        }
    }
    Ok(())
}
fn unused_coordinates(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| match d.name(n) {
        "rect" if d.get(n, "rx").map_or(false, |v| !v.ends_with('%')) && d.get(n, "rx") == d.get(n, "ry") => Some("ry repeats rx"),
        "radialGradient" if !d.has(n, "xlink:href") && !d.users.get(&n).map_or(false, |u| u.iter().any(|m| d.is_gradient(m.0))) => {
            if d.has(n, "fx") && d.has(n, "cx") && d.get(n, "fx") == d.get(n, "cx") || d.has(n, "fy") && d.has(n, "cy") && d.get(n, "fy") == d.get(n, "cy") {
                Some("the focal point repeats the centre")
            } else {
                None
            }
        }
        _ => None,
    })
}
/// (property, value as written)
const DEFAULTS: &[(&str, bool, &[&str])] = &[
    ("fill", true, &["#000", "#000000"]),
    ("stroke", true, &["none"]),
    ("fill-opacity", true, &["1"]),
    ("stroke-opacity", true, &["1"]),
    ("opacity", false, &["1"]),
    ("fill-rule", true, &["nonzero"]),
    ("clip-rule", true, &["nonzero"]),
    ("stroke-width", true, &["1"]),
    ("stroke-linecap", true, &["butt"]),
    ("stroke-linejoin", true, &["miter"]),
    ("stroke-miterlimit", true, &["4"]),
    ("stroke-dashoffset", true, &["0"]),
    ("stroke-dasharray", true, &["none"]),
    ("clip-path", false, &["none"]),
    ("mask", false, &["none"]),
    ("filter", false, &["none"]),
    ("marker-start", true, &["none"]),
    ("marker-mid", true, &["none"]),
    ("marker-end", true, &["none"]),
    ("stop-opacity", false, &["1"]),
    ("stop-color", false, &["#000", "#000000"]),
    ("flood-opacity", false, &["1"]),
    ("visibility", true, &["visible"]),
    ("display", false, &["inline"]),
    ("shape-rendering", true, &["auto"]),
    ("font-style", true, &["normal"]),
    ("font-weight", true, &["normal"]),
    ("text-anchor", true, &["start"]),
    ("text-decoration", false, &["none"]),
];
fn default_attributes(d: &Doc, _: &Config) -> Result<(), String> {
    for &n in &d.elems {
        if !ELEMENTS.contains(&d.name(n)) {
            continue;
        }
        for (k, v) in &d.attrs[&n] {
            if let Some((_, inherited, vals)) = DEFAULTS.iter().find(|x| x.0 == k) {
                if !vals.contains(&v.as_str()) {
                    continue;
                }
                // an ancestor with the property, or an instance, gives the default a meaning
                if (*inherited && d.instanced(n)) || d.parents(n).iter().any(|p| d.has(*p, k)) {
                    continue;
                }
                return Err(format!("the default {}='{}' is left on {}", k, v, d.show(n)));
            }
        }
        let z = |k: &str| d.get(n, k) == Some("0");
        let bad = match d.name(n) {
            "circle" | "ellipse" => z("cx") || z("cy"),
            "line" => z("x1") || z("y1") || z("x2") || z("y2"),
            "rect" | "image" | "use" => z("x") || z("y"),
            "text" => z("x") || z("y"),
            "svg" => z("x") || z("y") || d.get(n, "width") == Some("100%") || d.get(n, "height") == Some("100%"),
            "marker" => z("refX") || z("refY"),
            "pattern" => !d.has(n, "xlink:href") && (z("x") || z("y") || d.get(n, "patternUnits") == Some("objectBoundingBox") || d.get(n, "patternContentUnits") == Some("userSpaceOnUse")),
            "mask" => {
                d.get(n, "x") == Some("-10%")
                    || d.get(n, "y") == Some("-10%")
                    || d.get(n, "width") == Some("120%")
                    || d.get(n, "height") == Some("120%")
                    || d.get(n, "maskUnits") == Some("objectBoundingBox")
                    || d.get(n, "maskContentUnits") == Some("userSpaceOnUse")
            }
            "filter" => {
                !d.has(n, "xlink:href")
                    && (d.get(n, "x") == Some("-10%")
                        || d.get(n, "y") == Some("-10%")
                        || d.get(n, "width") == Some("120%")
                        || d.get(n, "height") == Some("120%")
                        || d.get(n, "filterUnits") == Some("objectBoundingBox")
                        || d.get(n, "primitiveUnits") == Some("userSpaceOnUse"))
            }
            "clipPath" => d.get(n, "clipPathUnits") == Some("userSpaceOnUse"),
            _ => false,
        };
        if bad {
            return Err(format!("a default value is left on {}", d.show(n)));
        }
    }
    Ok(())
}
fn xmlns_xlink(d: &Doc, _: &Config) -> Result<(), String> {
    let used = d.elems.iter().any(|n| d.attrs[n].keys().any(|k| k.starts_with("xlink:"))) || d.elems.iter().any(|n| d.used(*n));
    if d.has(d.root, "xmlns:xlink") && !used {
        return Err("xmlns:xlink is left but not used".into());
    }
    Ok(())
}
fn needless_attributes(d: &Doc, _: &Config) -> Result<(), String> {
    for &n in &d.elems {
        let e = d.name(n);
        if !ELEMENTS.contains(&e) {
            continue;
        }
        let geo: &[&str] = match e {
            "rect" => &["x", "y", "width", "height", "rx", "ry"],
            "circle" => &["cx", "cy", "r"],
            "ellipse" => &["cx", "cy", "rx", "ry"],
            "line" => &["x1", "y1", "x2", "y2"],
            "polyline" | "polygon" => &["points"],
            _ => &[],
        };
        let all = ["x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "points", "d", "viewBox", "preserveAspectRatio", "offset", "dx", "dy", "rotate", "pathLength", "xlink:href", "gradientUnits", "fx", "fy"];
        if !geo.is_empty() {
            if let Some(k) = all.iter().find(|k| d.has(n, k) && !geo.contains(k)) {
                return Err(format!("'{}' does not belong to {}", k, d.show(n)));
            }
        }
        if d.has(n, "color") {
            return Err(format!("'color' is left on {}", d.show(n)));
        }
        if d.has(n, "overflow") && !["svg", "symbol", "image", "foreignObject", "pattern", "marker"].contains(&e) {
            return Err(format!("'overflow' has no effect on {}", d.show(n)));
        }
        if d.has(n, "enable-background") && !["a", "defs", "g", "glyph", "marker", "mask", "missing-glyph", "pattern", "svg", "switch", "symbol"].contains(&e) {
            return Err(format!("'enable-background' has no effect on {}", d.show(n)));
        }
        let leaf = d.x.nodes[n].children.is_empty();
        if leaf && e != "use" {
            if d.get(n, "fill") == Some("none") && (d.has(n, "fill-rule") || d.has(n, "fill-opacity")) {
                return Err(format!("fill properties are left without a fill on {}", d.show(n)));
            }
            if d.get(n, "stroke") == Some("none") {
                if let Some(k) = d.attrs[&n].keys().find(|k| k.starts_with("stroke-")) {
                    return Err(format!("'{}' is left without a stroke on {}", k, d.show(n)));
                }
            }
        }
        let p = d.x.parent(n);
        if p != ROOT && d.name(p) == "clipPath" && !d.used(n) {
            if let Some(k) = d.attrs[&n].keys().find(|k| (k.starts_with("fill") || k.starts_with("stroke") || *k == "opacity") && d.get(n, k) != Some("none")) {
                return Err(format!("'{}' has no effect in a clipPath on {}", k, d.show(n)));
            }
        }
    }
    Ok(())
}
fn gradient_attributes(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| {
        if !d.is_gradient(n) {
            return None;
        }
        let own = d.get(n, "gradientUnits");
        match d.target(n) {
            Some(t) if d.is_gradient(t) => {
                let up = d.grad(t, "gradientUnits").unwrap_or("objectBoundingBox".into());
                if own == Some(up.as_str()) {
                    return Some("gradientUnits repeat what is inherited");
                }
                None
            }
            _ => None,
        }
    })
}
fn gradient_transforms(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| {
        let t = match d.get(n, "gradientTransform") {
            Some(t) if d.is_gradient(n) => t,
            _ => return None,
        };
        if !simple_transform(t) || d.users.get(&n).map_or(false, |u| u.iter().any(|m| d.is_gradient(m.0))) {
            return None;
        }
        if let Some(t) = d.target(n) {
            if d.grad(t, "gradientTransform").is_some() {
                return None;
            }
        }
        let k: &[&str] = if d.name(n) == "linearGradient" { &["x1", "y1", "x2", "y2"] } else { &["cx", "cy", "fx", "fy", "r"] };
        if d.grad(n, "gradientUnits").as_deref() != Some("userSpaceOnUse") || !k.iter().all(|k| d.get(n, k).map_or(false, |v| num(v).is_some())) {
            return None;
        }
        Some("a simple gradientTransform is left")
    })
}
fn shape_transforms(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| {
        let t = match d.get(n, "transform") {
            Some(t) => t,
            _ => return None,
        };
        let k: &[&str] = match d.name(n) {
            "rect" => &["x", "y", "width", "height", "rx", "ry"],
            "circle" => &["cx", "cy", "r"],
            "ellipse" => &["cx", "cy", "rx", "ry"],
            "line" => &["x1", "y1", "x2", "y2"],
            _ => return None,
        };
        if !simple_transform(t) || !k.iter().all(|k| plain(d, n, k).is_some()) || d.instanced(n) || d.used(n) {
            return None;
        }
        // properties that depend on the coordinate system
        let mut up = d.parents(n);
        up.push(n);
        let dep = |k: &str, v: &str| v.contains("url(") || ["clip-path", "mask", "filter", "clip"].contains(&k) || (k.starts_with("stroke-") && !v.chars().all(|c| c.is_ascii_digit() || c == '.' || c.is_ascii_lowercase()));
        if up.iter().any(|p| d.attrs[p].iter().any(|(k, v)| dep(k, v) || k.starts_with("marker") || v.ends_with('%') && (k.starts_with("stroke") || k.starts_with("font")) || k == "stroke-width" && num(v).is_none())) {
            return None;
        }
        Some("a simple transform is left")
    })
}
fn classes(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| if d.has(n, "class") && ELEMENTS.contains(&d.name(n)) { Some("a class is left") } else { None })
}
fn relative(d: &Doc, _: &Config) -> Result<(), String> {
    each(d, |n| if d.name(n) == "path" && d.get(n, "d").map_or(false, |v| v.bytes().any(|b| b.is_ascii_uppercase())) { Some("an absolute command is left") } else { None })
}
fn convert_segments(d: &Doc, _: &Config) -> Result<(), String> {
    for &n in &d.elems {
        if let (true, Some(p)) = (d.name(n) == "path", d.get(n, "d")) {
            let v: Vec<(char, Vec<f64>)> = crate::c20::spelled(p)?.into_iter().map(|(c, v)| (c, v.iter().map(|s| num(s).unwrap_or(0.5)).collect())).collect();
            for i in 0..v.len() {
                let (c, ref a) = v[i];
                if c == 'l' && (a[0] == 0.0) != (a[1] == 0.0) {
                    return Err(format!("a straight line is not spelled shortly: {}", d.show(n)));
                }
                // sums are exact for whole numbers only
                if c == 'c' && i > 0 && v.iter().all(|s| s.1.iter().all(|x| x.fract() == 0.0)) {
                    let (q, ref b) = v[i - 1];
                    let k = match q {
                        'c' => (b[4] - b[2], b[5] - b[3]),
                        's' => (b[2] - b[0], b[3] - b[1]),
                        _ => (0.0, 0.0),
                    };
                    if (a[0], a[1]) == k {
                        return Err(format!("a smooth curve is not spelled shortly: {}", d.show(n)));
                    }
                    let smooth = v.get(i + 1).map_or(false, |s| s.0 == 's' || s.0 == 't');
                    let between = |x: f64, e: f64| (x >= 0.0 && x <= e) || (x <= 0.0 && x >= e);
                    let flat = |o: usize| a[o] == 0.0 && a[o + 2] == 0.0 && a[o + 4] == 0.0 && between(a[1 - o], a[5 - o]) && between(a[3 - o], a[5 - o]);
                    if !smooth && (flat(0) || flat(1)) {
                        return Err(format!("a straight curve is not a line: {}", d.show(n)));
                    }
                }
            }
        }
    }
    Ok(())
}
fn final_fixes(d: &Doc) -> Result<(), String> {
    each(d, |n| {
        if d.name(n) == "defs" && d.x.nodes[n].children.is_empty() && d.x.parent(n) == d.root {
            return Some("an empty defs is left");
        }
        match d.get(n, "transform") {
            Some(t) if crate::geom::transform(t).map_or(false, |m| (m.a, m.b, m.c, m.d, m.e, m.f) == (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)) => Some("a transform without effect is left"),
            _ => None,
        }
    })
}

pub const POSTS: &[(&str, Post)] = &[
    ("remove-comments", comments),
    ("remove-declarations", declarations),
    ("remove-nonsvg-elements", nonsvg_elements),
    ("remove-nonsvg-attributes", nonsvg_attributes),
    ("remove-title", title),
    ("remove-desc", desc),
    ("remove-metadata", metadata),
    ("remove-unused-defs", unused_defs),
    ("convert-shapes", convert_shapes),
    ("remove-dupl-lineargradient", dupl_linear),
    ("remove-dupl-radialgradient", dupl_radial),
    ("remove-dupl-fegaussianblur", dupl_blur),
    ("ungroup-groups", ungroup_groups),
    ("ungroup-defs", ungroup_defs),
    ("merge-gradients", merge_gradients),
    ("regroup-gradient-stops", regroup_stops),
    ("remove-invalid-stops", invalid_stops),
    ("resolve-use", resolve_use),
    ("remove-version", version),
    ("remove-unreferenced-ids", unreferenced_ids),
    ("trim-ids", trim_ids),
    ("remove-text-attributes", text_attributes),
    ("remove-unused-coordinates", unused_coordinates),
    ("remove-default-attributes", default_attributes),
    ("remove-xmlns-xlink-attribute", xmlns_xlink),
    ("remove-needless-attributes", needless_attributes),
    ("remove-gradient-attributes", gradient_attributes),
    ("apply-transform-to-gradients", gradient_transforms),
    ("apply-transform-to-shapes", shape_transforms),
    ("remove-unresolved-classes", classes),
    ("paths-to-relative", relative),
    ("convert-segments", convert_segments),
];

/// Options whose work other options can leave more of, for the next pass.
const LATER: &[&str] = &[
    "remove-unused-defs",
    "ungroup-groups",
    "remove-needless-attributes",
    "apply-transform-to-shapes",
    "merge-gradients",
    "regroup-gradient-stops",
    "remove-dupl-lineargradient",
    "remove-dupl-radialgradient",
    "remove-dupl-fegaussianblur",
    "resolve-use",
    "remove-default-attributes",
];

fn documented(c: &Case, settle: bool, more: &Arc<AtomicU64>, note: &mut Note) -> Result<(), String> {
    let mut o = match c.out {
        Outcome::Ok(o) => o.clone(),
        Outcome::Err(_) => return Ok(()),
        Outcome::Panic(e) => return Err(format!("panic: {}", e)),
    };
    note.observed = fnv(&o);
    note.nontrivial = o != c.pre.text;
    let text = c.pre.text.contains("<text");
    // lengths in em need the font only as long as they are there
    let font = ["em'", "ex'", "em ", "ex ", "em\"", "ex\"", "em;", "em,"].iter().any(|u| c.pre.text.contains(u));
    let marker = c.pre.text.contains("marker-");
    let alone = POSTS.iter().filter(|p| c.cfg.on(p.0) && p.0 != "paths-to-relative").count() <= 1;
    let all = |o: &str, settled: bool| -> Result<(), String> {
        let x = xml::parse(o).map_err(|e| format!("output: {}", e))?;
        let d = Doc::new(&x);
        for (k, f) in POSTS {
            if c.cfg.on(k) && !(text && *k == "remove-text-attributes") && !(font && !settled && *k == "remove-text-attributes") && !(marker && *k == "convert-shapes") && (settled || !LATER.contains(k)) {
                f(&d, c.cfg).map_err(|e| format!("{}: {}", k, e))?;
            }
        }
        final_fixes(&d)
    };
    if alone {
        return all(&o, true);
    }
    all(&o, false)?;
    if !settle {
        return Ok(());
    }
    for i in 0.. {
        if i == 40 {
            return Err("repeated cleaning doesn't settle".into());
        }
        more.fetch_add(1, Ordering::Relaxed);
        match clean(&o, c.cfg) {
            Outcome::Ok(p) if p == o => break,
            Outcome::Ok(p) => o = p,
            Outcome::Err(e) => return Err(format!("next pass: {}", e)),
            Outcome::Panic(e) => return Err(format!("next pass: panic: {}", e)),
        }
    }
    all(&o, true).map_err(|e| format!("settled after repeated cleaning: {}\n  {}", e, o))
}

/// The options whose subject is a node or an attribute of its own.
const NODE_OPTS: &[&str] = &["remove-comments", "remove-declarations", "remove-nonsvg-elements", "remove-title", "remove-desc", "remove-metadata"];
const ATTR_OPTS: &[&str] = &[
    "remove-nonsvg-attributes", "remove-version", "remove-unreferenced-ids", "trim-ids", "remove-text-attributes", "remove-unused-coordinates", "remove-default-attributes",
    "remove-xmlns-xlink-attribute", "remove-needless-attributes", "remove-gradient-attributes", "remove-unresolved-classes", "apply-transform-to-gradients", "apply-transform-to-shapes",
];

/// The options to enable alone on a family of the corpus, in the quick tier.
fn pick(name: &str) -> Vec<Config> {
    const BY: &[(&str, &[&str])] = &[
        ("radient", &["remove-dupl-lineargradient", "remove-dupl-radialgradient", "merge-gradients", "regroup-gradient-stops", "apply-transform-to-gradients", "remove-unused-coordinates", "remove-gradient-attributes"]),
        ("stops", &["remove-invalid-stops", "remove-dupl-lineargradient", "regroup-gradient-stops", "remove-default-attributes"]),
        ("paint", &["remove-unused-defs", "merge-gradients"]),
        ("group", &["ungroup-groups", "remove-default-attributes", "apply-transform-to-shapes"]),
        ("propert", &["ungroup-groups", "remove-default-attributes", "remove-needless-attributes"]),
        ("attribute", &["ungroup-groups", "remove-default-attributes", "remove-needless-attributes"]),
        ("inherit", &["ungroup-groups", "apply-transform-to-shapes"]),
        ("use", &["resolve-use", "ungroup-defs", "remove-unused-defs"]),
        ("reference", &["resolve-use", "remove-unused-defs", "remove-unreferenced-ids", "trim-ids", "ungroup-defs"]),
        ("ids", &["remove-unreferenced-ids", "trim-ids"]),
        ("contents", &["ungroup-groups", "ungroup-defs", "remove-unused-defs", "convert-shapes"]),
        ("line", &["convert-shapes", "apply-transform-to-shapes"]),
        ("rect", &["convert-shapes", "apply-transform-to-shapes", "remove-unused-coordinates"]),
        ("poly", &["convert-shapes"]),
        ("points", &["convert-shapes"]),
        ("point lists", &["convert-shapes"]),
        ("shapes", &["convert-shapes", "apply-transform-to-shapes"]),
        ("sequences", &["paths-to-relative", "convert-segments"]),
        ("segment", &["convert-segments"]),
        ("path", &["convert-segments"]),
        ("blur", &["remove-dupl-fegaussianblur"]),
        ("filter", &["remove-unused-defs", "remove-default-attributes"]),
        ("mask", &["remove-unused-defs", "remove-default-attributes"]),
        ("clip", &["remove-unused-defs", "remove-needless-attributes"]),
        ("pattern", &["remove-default-attributes"]),
        ("marker", &["remove-default-attributes"]),
    ];
    let mut v: Vec<&str> = BY.iter().filter(|b| name.contains(b.0)).flat_map(|b| b.1.iter().cloned()).collect();
    v.sort();
    v.dedup();
    v.iter().map(|k| solo(&[k])).collect()
}

pub fn run(r: &mut Run) {
    let t = r.tier == "thorough";
    let more = Arc::new(AtomicU64::new(0));
    let m = more.clone();
    let fam = move |name: &str, n: u64, gen: Box<dyn Fn(u64) -> Option<String> + Sync + Send>, cfgs: Vec<Config>| -> Family<'static> {
        let mut f = family(name, n, gen, cfgs, |_, _| Ok(()));
        let m = m.clone();
        f.check = Box::new(move |c, n| documented(c, true, &m, n));
        f
    };
    let solos = |o: &[&str]| -> Vec<Config> { o.iter().map(|k| solo(&[k])).collect() };
    let cf = || {
        let mut v = solos(NODE_OPTS);
        v.push(solo(NODE_OPTS));
        v.push(config(&[]));
        v
    };
    let (np, nn) = (subj::PLACES, subj::NODES.len());
    let two = |p: usize, a: usize, q: usize, b: usize| -> Option<String> {
        let (a, b) = (subj::NODES[a], subj::NODES[b]);
        if !subj::fits(p, a) || !subj::fits(q, b) || (a == b && a.contains("id=")) {
            return None;
        }
        Some(subj::place(&[(p, a), (q, b)]))
    };
    if t {
        let dims = [np, nn, np, nn];
        r.explore(fam("nodes in two places", product(&dims), Box::new(move |i| {
            let k = radix(i, &dims);
            two(k[0], k[1], k[2], k[3])
        }), cf()));
    } else {
        let dims = [np, nn, nn];
        r.explore(fam("two nodes in every place", product(&dims), Box::new(move |i| {
            let k = radix(i, &dims);
            two(k[0], k[1], k[0], k[2])
        }), cf()));
        let dims = [np, np, 6];
        r.explore(fam("equal nodes in two places", product(&dims), Box::new(move |i| {
            let k = radix(i, &dims);
            let a = [0, 1, 3, 5, 7, 8][k[2]];
            two(k[0], a, k[1], a)
        }), cf()));
    }
    // three in a row, and one inside another
    let dims = [nn, nn, nn, 4];
    r.explore(fam("rows and nests of nodes", product(&dims), Box::new(move |i| {
        let k = radix(i, &dims);
        let (a, b, c) = (subj::NODES[k[0]], subj::NODES[k[1]], subj::NODES[k[2]]);
        let row = format!("{}{}{}", a, b, c);
        if row.matches("id='d'").count() > 1 {
            return None;
        }
        let s = match k[3] {
            0 => row,
            1 => format!("<g fill='red'>{}<circle r='5'/><circle r='6'/></g>", row),
            2 => format!("<m:x>{}</m:x>", row),
            _ => format!("<title>{}</title><m:x>{}</m:x>", a, row).replacen(" id='d'", "", 1),
        };
        Some(subj::place(&[(31, &s)]))
    }), cf()));
    let (nc, na) = (subj::CARRIERS.len(), subj::ATTRS.len());
    let dims = [nc, na];
    let ca = || {
        let mut v = solos(ATTR_OPTS);
        v.push(config(&[]));
        v
    };
    r.explore(fam("attributes on every element", product(&dims), Box::new(move |i| {
        let k = radix(i, &dims);
        subj::carry(k[0], subj::ATTRS[k[1]])
    }), ca()));
    let dims = [nc, na, na];
    r.explore(fam("two sets of attributes on every element", product(&dims), Box::new(move |i| {
        let k = radix(i, &dims);
        if k[1] >= k[2] {
            return None;
        }
        subj::carry(k[0], &format!("{} {}", subj::ATTRS[k[1]], subj::ATTRS[k[2]]))
    }), if t { ca() } else { vec![solo(ATTR_OPTS), config(&[])] }));
    let m = more.clone();
    crate::corpus(r, move |mut f: Family<'static>| {
        let mut v = vec![config(&[])];
        if t && f.size <= 100_000 {
            v.extend(POSTS.iter().map(|p| solo(&[p.0])));
        } else if t || f.size <= 300_000 {
            v.extend(pick(&f.name));
        }
        f.configs = v;
        f.next = vec![];
        f.depth = 1;
        let m = m.clone();
        f.check = Box::new(move |c, n| documented(c, t, &m, n));
        Some(f)
    });
    r.stats.transitions += more.load(Ordering::Relaxed);
}

//! CSS cascade, colours and lengths (independent of svgdom).
use crate::geom;
use crate::xml::{Kind, Xml, ROOT};
use std::rc::Rc;

/// (name, inherited, initial value)
pub static PROPS: &[(&str, bool, &str)] = &[
    ("alignment-baseline", false, "auto"),
    ("baseline-shift", false, "baseline"),
    ("clip", false, "auto"),
    ("clip-path", false, "none"),
    ("clip-rule", true, "nonzero"),
    ("color", true, "black"),
    ("color-interpolation", true, "sRGB"),
    ("color-interpolation-filters", true, "linearRGB"),
    ("color-profile", true, "auto"),
    ("color-rendering", true, "auto"),
    ("cursor", true, "auto"),
    ("direction", true, "ltr"),
    ("display", false, "inline"),
    ("dominant-baseline", false, "auto"),
    ("enable-background", false, "accumulate"),
    ("fill", true, "black"),
    ("fill-opacity", true, "1"),
    ("fill-rule", true, "nonzero"),
    ("filter", false, "none"),
    ("flood-color", false, "black"),
    ("flood-opacity", false, "1"),
    ("font-family", true, ""),
    ("font-size", true, "medium"),
    ("font-size-adjust", true, "none"),
    ("font-stretch", true, "normal"),
    ("font-style", true, "normal"),
    ("font-variant", true, "normal"),
    ("font-weight", true, "normal"),
    ("glyph-orientation-horizontal", true, "0deg"),
    ("glyph-orientation-vertical", true, "auto"),
    ("image-rendering", true, "auto"),
    ("kerning", true, "auto"),
    ("letter-spacing", true, "normal"),
    ("lighting-color", false, "white"),
    ("marker-end", true, "none"),
    ("marker-mid", true, "none"),
    ("marker-start", true, "none"),
    ("mask", false, "none"),
    ("opacity", false, "1"),
    ("overflow", false, ""),
    ("pointer-events", true, "visiblePainted"),
    ("shape-rendering", true, "auto"),
    ("stop-color", false, "black"),
    ("stop-opacity", false, "1"),
    ("stroke", true, "none"),
    ("stroke-dasharray", true, "none"),
    ("stroke-dashoffset", true, "0"),
    ("stroke-linecap", true, "butt"),
    ("stroke-linejoin", true, "miter"),
    ("stroke-miterlimit", true, "4"),
    ("stroke-opacity", true, "1"),
    ("stroke-width", true, "1"),
    ("text-anchor", true, "start"),
    ("text-decoration", false, "none"),
    ("text-rendering", true, "auto"),
    ("unicode-bidi", false, "normal"),
    ("visibility", true, "visible"),
    ("word-spacing", true, "normal"),
    ("writing-mode", true, "lr-tb"),
];

pub fn prop_info(name: &str) -> Option<&'static (&'static str, bool, &'static str)> {
    PROPS.binary_search_by(|p| p.0.cmp(name)).ok().map(|i| &PROPS[i])
}

struct Rule {
    tag: Option<String>,
    id: Option<String>,
    classes: Vec<String>,
    spec: u32,
    decls: Vec<(String, String, bool)>,
}

pub fn declarations(s: &str) -> Vec<(String, String, bool)> {
    let mut v = vec![];
    let mut t = String::new();
    // strip comments
    let mut rest = s;
    while let Some(k) = rest.find("/*") {
        t.push_str(&rest[..k]);
        match rest[k..].find("*/") {
            Some(e) => rest = &rest[k + e + 2..],
            None => {
                rest = "";
            }
        }
    }
    t.push_str(rest);
    for d in t.split(';') {
        if let Some(k) = d.find(':') {
            let n = d[..k].trim().to_string();
            let mut val = d[k + 1..].trim().to_string();
            let mut imp = false;
            if let Some(e) = val.find('!') {
                imp = val[e..].replace(' ', "") == "!important";
                val = val[..e].trim().to_string();
            }
            if n == "marker" {
                for m in ["marker-start", "marker-mid", "marker-end"] {
                    v.push((m.to_string(), val.clone(), imp));
                }
            } else if !n.is_empty() {
                v.push((n, val, imp));
            }
        }
    }
    v
}

fn rules(x: &Xml) -> Vec<Rule> {
    let mut text = String::new();
    for n in x.all_elems() {
        if x.name(n) == "style" {
            if let Some(t) = x.attr(n, "type") {
                if !t.is_empty() && t != "text/css" {
                    continue;
                }
            }
            for &c in &x.nodes[n].children {
                match x.nodes[c].kind {
                    Kind::Text(ref s) | Kind::CData(ref s) => text.push_str(s),
                    _ => {}
                }
            }
        }
    }
    let mut v = vec![];
    if text.is_empty() {
        return v;
    }
    while let (Some(a), Some(b)) = (text.find("/*"), text.find("*/")) {
        if b < a {
            break;
        }
        text.replace_range(a..b + 2, " ");
    }
    for block in text.split('}') {
        if let Some(k) = block.find('{') {
            let decls = declarations(&block[k + 1..]);
            for sel in block[..k].split(',') {
                let sel = sel.trim();
                if sel.is_empty() || sel.contains(|c: char| c.is_whitespace() || ">+~[:@".contains(c)) {
                    continue;
                }
                let mut r = Rule { tag: None, id: None, classes: vec![], spec: 0, decls: decls.clone() };
                let mut cur = String::new();
                let mut kind = 't';
                for c in sel.chars().chain(std::iter::once('\0')) {
                    if c == '.' || c == '#' || c == '\0' {
                        if !cur.is_empty() {
                            match kind {
                                't' => {
                                    if cur != "*" {
                                        r.tag = Some(cur.clone());
                                        r.spec += 1
                                    }
                                }
                                '.' => {
                                    r.classes.push(cur.clone());
                                    r.spec += 100
                                }
                                _ => {
                                    r.id = Some(cur.clone());
                                    r.spec += 10000
                                }
                            }
                        }
                        cur.clear();
                        kind = c;
                    } else {
                        cur.push(c);
                    }
                }
                v.push(r);
            }
        }
    }
    v
}

/// Specified values of every node.
pub struct Styles {
    pub spec: Vec<Vec<(&'static str, String)>>,
}

impl Styles {
    pub fn new(x: &Xml) -> Styles {
        let rs = rules(x);
        let mut spec = vec![vec![]; x.nodes.len()];
        for n in 0..x.nodes.len() {
            if !x.is_elem(n) {
                continue;
            }
            let mut list: Vec<(&'static str, String, u64)> = vec![];
            let mut put = |name: &str, val: &str, prio: u64| {
                if let Some(p) = prop_info(name) {
                    if let Some(e) = list.iter_mut().find(|e| e.0 == p.0) {
                        if prio >= e.2 {
                            e.1 = val.trim().to_string();
                            e.2 = prio;
                        }
                    } else {
                        list.push((p.0, val.trim().to_string(), prio));
                    }
                }
            };
            for (k, v) in x.attrs(n) {
                put(k, v, 0);
            }
            if !rs.is_empty() {
                let id = x.attr(n, "id").unwrap_or("");
                let cl: Vec<&str> = x.attr(n, "class").unwrap_or("").split_whitespace().collect();
                for r in &rs {
                    if r.tag.as_ref().map(|t| t != x.name(n)).unwrap_or(false)
                        || r.id.as_ref().map(|t| t != id).unwrap_or(false)
                        || !r.classes.iter().all(|c| cl.contains(&c.as_str()))
                    {
                        continue;
                    }
                    for d in &r.decls {
                        put(&d.0, &d.1, 1 + r.spec as u64 + if d.2 { 1 << 40 } else { 0 });
                    }
                }
            }
            if let Some(s) = x.attr(n, "style") {
                for d in declarations(s) {
                    put(&d.0, &d.1, (1 << 30) + if d.2 { 1 << 40 } else { 0 });
                }
            }
            spec[n] = list.into_iter().map(|e| (e.0, e.1)).collect();
        }
        Styles { spec }
    }
    pub fn own(&self, n: usize, name: &str) -> Option<&str> {
        self.spec[n].iter().find(|e| e.0 == name).map(|e| e.1.as_str())
    }
}

/// An element in the instance tree (use instances have the use element as parent).
pub struct Ctx {
    pub node: usize,
    pub parent: Option<Rc<Ctx>>,
    /// viewport size for percentages
    pub vp: (f64, f64),
    pub depth: usize,
}

pub fn computed(st: &Styles, c: &Rc<Ctx>, name: &str) -> String {
    let info = prop_info(name).expect("property");
    let mut cur = c.clone();
    let mut first = true;
    loop {
        let own = st.own(cur.node, name);
        match own {
            Some("inherit") => {}
            Some(v) if first || info.1 => {
                if v == "currentColor" && name != "color" {
                    return computed(st, &cur, "color");
                }
                return v.to_string();
            }
            Some(v) => {
                // reached through an explicit inherit of a non-inherited property
                return v.to_string();
            }
            None => {
                if !info.1 {
                    return info.2.to_string();
                }
            }
        }
        first = false;
        let p = match cur.parent {
            Some(ref p) => p.clone(),
            None => return info.2.to_string(),
        };
        cur = p;
    }
}

pub fn natural_ctx(x: &Xml, n: usize, vp: (f64, f64)) -> Rc<Ctx> {
    let mut chain = vec![];
    let mut c = n;
    while c != ROOT {
        chain.push(c);
        c = x.parent(c);
    }
    let mut cur: Option<Rc<Ctx>> = None;
    for &k in chain.iter().rev() {
        cur = Some(Rc::new(Ctx { node: k, parent: cur, vp, depth: 0 }));
    }
    cur.unwrap()
}

pub fn child_ctx(c: &Rc<Ctx>, n: usize) -> Rc<Ctx> {
    Rc::new(Ctx { node: n, parent: Some(c.clone()), vp: c.vp, depth: c.depth + 1 })
}

pub fn font_size(st: &Styles, c: &Rc<Ctx>) -> f64 {
    let mut cur = Some(c.clone());
    let mut scale = 1.0;
    while let Some(k) = cur {
        if let Some(v) = st.own(k.node, "font-size") {
            if v != "inherit" {
                match v {
                    "xx-small" => return scale * 9.0,
                    "x-small" => return scale * 10.0,
                    "small" => return scale * 13.0,
                    "medium" => return scale * 16.0,
                    "large" => return scale * 18.0,
                    "x-large" => return scale * 24.0,
                    "xx-large" => return scale * 32.0,
                    "larger" => scale *= 1.2,
                    "smaller" => scale /= 1.2,
                    _ => {
                        if let Some((n, r)) = geom::number(v) {
                            match r {
                                "%" => scale *= n / 100.0,
                                "em" => scale *= n,
                                "ex" => scale *= n / 2.0,
                                _ => return scale * n * unit_factor(r).unwrap_or(1.0),
                            }
                        }
                    }
                }
            }
        }
        cur = k.parent.clone();
    }
    scale * 16.0
}

pub fn unit_factor(u: &str) -> Option<f64> {
    Some(match u {
        "" | "px" => 1.0,
        "in" => 96.0,
        "cm" => 96.0 / 2.54,
        "mm" => 96.0 / 25.4,
        "pt" => 96.0 / 72.0,
        "pc" => 16.0,
        _ => return None,
    })
}

#[derive(Clone, Copy, PartialEq)]
pub enum Axis {
    X,
    Y,
    D,
}

pub fn length(st: &Styles, c: &Rc<Ctx>, v: &str, ax: Axis) -> Option<f64> {
    let v = v.trim();
    let (n, r) = geom::number(v)?;
    let r = r.trim();
    if let Some(f) = unit_factor(r) {
        return Some(n * f);
    }
    match r {
        "%" => {
            let b = match ax {
                Axis::X => c.vp.0,
                Axis::Y => c.vp.1,
                Axis::D => ((c.vp.0 * c.vp.0 + c.vp.1 * c.vp.1) / 2.0).sqrt(),
            };
            Some(n / 100.0 * b)
        }
        "em" => Some(n * font_size(st, c)),
        "ex" => Some(n * font_size(st, c) / 2.0),
        _ => None,
    }
}

pub fn color(s: &str) -> Option<[u8; 3]> {
    let s = s.trim();
    if let Some(h) = s.strip_prefix('#') {
        let d: Option<Vec<u8>> = h.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect();
        let d = d?;
        return match d.len() {
            3 => Some([d[0] * 17, d[1] * 17, d[2] * 17]),
            6 => Some([d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5]]),
            _ => None,
        };
    }
    if s.len() > 4 && s[..4].eq_ignore_ascii_case("rgb(") && s.ends_with(')') {
        let p: Vec<&str> = s[4..s.len() - 1].split(',').collect();
        if p.len() != 3 {
            return None;
        }
        let mut o = [0u8; 3];
        for i in 0..3 {
            let (n, r) = geom::number(p[i].trim())?;
            let v = if r == "%" { (n * 255.0 / 100.0).round() } else { n };
            o[i] = v.max(0.0).min(255.0) as u8;
        }
        return Some(o);
    }
    let l = s.to_ascii_lowercase();
    NAMES.iter().find(|n| n.0 == l).map(|n| [(n.1 >> 16) as u8, (n.1 >> 8) as u8, n.1 as u8])
}

static NAMES: &[(&str, u32)] = &[
    ("black", 0), ("white", 0xffffff), ("red", 0xff0000), ("green", 0x008000), ("blue", 0x0000ff), ("lime", 0x00ff00),
    ("yellow", 0xffff00), ("cyan", 0x00ffff), ("aqua", 0x00ffff), ("magenta", 0xff00ff), ("fuchsia", 0xff00ff),
    ("gray", 0x808080), ("grey", 0x808080), ("silver", 0xc0c0c0), ("maroon", 0x800000), ("olive", 0x808000),
    ("purple", 0x800080), ("teal", 0x008080), ("navy", 0x000080), ("orange", 0xffa500), ("pink", 0xffc0cb),
    ("gold", 0xffd700), ("brown", 0xa52a2a), ("coral", 0xff7f50), ("tomato", 0xff6347), ("azure", 0xf0ffff),
    ("beige", 0xf5f5dc), ("ivory", 0xfffff0), ("khaki", 0xf0e68c), ("indigo", 0x4b0082), ("violet", 0xee82ee),
    ("tan", 0xd2b48c), ("plum", 0xdda0dd), ("salmon", 0xfa8072), ("sienna", 0xa0522d), ("snow", 0xfffafa),
];

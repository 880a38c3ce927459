//! C19: every input ends in a result or a reported error.
//!
//! Oracle: cleaning returns; it doesn't panic, crash the process or run for ever. The invariant is checked on every
//! text of the families below; the real executable is run on deep, long and expanding documents.
use crate::bin::*;
use crate::engine::*;
use crate::fam::*;
use crate::subj;
use crate::xml;
use std::collections::BTreeMap;
use std::sync::Mutex;

static SITES: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());

/// file:line of a panic
fn site(p: &str) -> String {
    let l = p.lines().next().unwrap_or("");
    let l = l.rsplit("panicked at ").next().unwrap_or(l);
    match l.find("/src/index.crates.io") {
        Some(_) => l.split('/').skip_while(|s| !s.starts_with("index.crates.io")).skip(1).collect::<Vec<_>>().join("/"),
        None => l.to_string(),
    }
}

fn ends(c: &Case, note: &mut Note) -> Result<(), String> {
    match c.out {
        Outcome::Ok(o) => {
            note.observed = fnv(o);
            note.nontrivial = true;
            Ok(())
        }
        Outcome::Err(e) => {
            note.observed = fnv(e);
            if e.trim().is_empty() {
                return Err("an error without a message".into());
            }
            Ok(())
        }
        Outcome::Panic(p) => {
            let s = site(p);
            let mut m = SITES.lock().unwrap();
            let e = m.entry(s.clone()).or_insert((0, String::new()));
            e.0 += 1;
            if e.1.is_empty() || e.1.len() > c.pre.text.len() + c.cfg.name.len() + 3 {
                e.1 = format!("{} | {}", c.cfg.name, c.pre.text);
            }
            Err(format!("panic: {}", p))
        }
    }
}

const RICH: &str = r##"<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<!DOCTYPE svg [<!ENTITY e "#f00"><!ENTITY n 'urn:x'>]>
<!--c--><?pi x?>
<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:m="&n;" width="10em" viewBox="0 0 20 10">
<style type="text/css"><![CDATA[ .a{fill:red} #p,rect{stroke:blue;stroke-width:2} /*x*/ *{opacity:1}]]></style>
<title>t &lt;&#x20;</title><metadata><m:e m:a='1'/></metadata>
<defs><linearGradient id="l" x1="5%"><stop offset="0" stop-color="&e;"/><stop offset="1"/></linearGradient>
<radialGradient id="r" xlink:href="#l" gradientTransform="rotate(30 1,2)scale(.5)" r="1e-1"/>
<clipPath id="c"><rect width="5" height="-4"/></clipPath><filter id="f"><feGaussianBlur stdDeviation="2 3"/></filter>
<marker id="k"><path d="M0 0"/></marker><g id="u" color="red"><circle r="3" fill="currentColor"/></g></defs>
<g class="a b" transform="matrix(1 0 0 1 5 6)" style="fill:none;stroke:url(#r) ; opacity:.5">
<path id="p" d="m1-2.5.5e1l3,4H5v6C1 2 3 4 5 6s1 2 3 4q1 2 3 4T5 6A1 2 3 0 1 5 6zM7 8z" marker-end="url(#k)"/>
<rect x="1" y="2" width="30" height="40" rx="2" clip-path="url(#c)" filter="url(#f)"/><polygon points="1,2 3-4 5 6"/>
<line x2="5" stroke-dasharray="1 2,3%" stroke="rgb(1,2,3)"/></g><use xlink:href="#u" x="1in"/>
<text x="1 2" xml:space="preserve" font-size="1.5em"> a<tspan dy="1 2">&amp; b</tspan>c </text><svg x="1"><a xlink:href="http://x"><path d="M 1 2 L 3 4"/></a></svg>
</svg>"##;

/// Every element there is.
const ELEMENTS: &[&str] = &[
    "a", "altGlyph", "altGlyphDef", "altGlyphItem", "circle", "clipPath", "color-profile", "cursor", "defs", "desc", "ellipse", "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting",
    "feDisplacementMap", "feDistantLight", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight",
    "feTile", "feTurbulence", "filter", "flowPara", "flowRegion", "flowRoot", "flowSpan", "font", "font-face", "font-face-format", "font-face-name", "font-face-src", "font-face-uri", "foreignObject", "g", "glyph", "glyphRef", "hkern", "image",
    "line", "linearGradient", "marker", "mask", "metadata", "missing-glyph", "mpath", "path", "pattern", "polygon", "polyline", "radialGradient", "rect", "stop", "style", "svg", "switch", "symbol", "text", "textPath", "title", "tref",
    "tspan", "use", "view", "vkern", "script", "set", "animate", "m:e", "unknown",
];

/// Every attribute that is looked at anywhere.
const NAMES: &[&str] = &[
    "x", "y", "x1", "y1", "x2", "y2", "cx", "cy", "r", "rx", "ry", "fx", "fy", "width", "height", "d", "points", "transform", "gradientTransform", "patternTransform", "viewBox", "offset", "stdDeviation", "dx", "dy", "rotate", "slope", "values",
    "id", "class", "style", "xlink:href", "fill", "stroke", "stroke-width", "stroke-dasharray", "stroke-dashoffset", "stroke-miterlimit", "stroke-linecap", "opacity", "fill-opacity", "stop-color", "stop-opacity", "flood-color", "color", "font-size",
    "font-family", "font", "marker", "marker-start", "clip-path", "mask", "filter", "display", "visibility", "overflow", "fill-rule", "letter-spacing", "text-anchor", "baseline-shift", "enable-background", "clip", "gradientUnits", "spreadMethod",
    "clipPathUnits", "maskUnits", "patternUnits", "markerWidth", "refX", "orient", "preserveAspectRatio", "version", "xml:space", "xmlns", "xmlns:m", "systemLanguage", "kerning", "cursor", "unknown", "m:a", "in", "result", "type", "tableValues",
];
const VALUES: &[&str] = &[
    "", " ", "0", "-0", "-1", "1", "0.5", "-1.5", "1e300", "-1e300", "1e-300", "1e999", "99999999999999999999", "0.00000000000000000001", "+", "-", ".", "e", "1e", "1.2.3", "NaN", "inf", "%", "-100%", "100%", "0%", "1e9%", "1em", "-1ex", "1foo", "0px", "1 2", "1,2,3,4",
    "0 0 0 0", "1 2 3 4 5 6 7", ",", "1,,2", "none", "auto", "inherit", "currentColor", "red", "#", "#1", "#12g", "#123456789", "rgb(", "rgb()", "rgb(1,2)", "rgb(1e9,-5%,300)", "rgba(1,2,3,4)", "url()", "url(#)", "url(#z)", "url(#o)", "url(#i)", "url(", "url(#o) none", "url(#z) red", "url(#z) foo",
    "#o", "#i", "#z", "a", "M", "M 1", "M 1 2", "M 1 2 L", "L 1 2", "M 1 2 M 3 4 Z Z", "M 0 0 A 0 0 0 2 5 1 1", "M 1e300 1e300 l 1e300 1e300", "m 0 0 z m 0 0 h 0", "M1 2 3", "matrix()", "matrix(0 0 0 0 0 0)", "matrix(1 2 3)", "matrix(1e300 0 0 1e300 0 0)", "rotate(1 2)", "scale(0)",
    "scale(1e-300)", "skewX(90)", "translate(1e300)rotate(45)", "foo(1)", "rotate(", "translate(1 2", "inherit inherit", "é", "日本", "\u{1f600}", "a b  c", "&amp;", "&lt;", "&#0;", "&#x110000;", "&e;", "fill:red", "fill", "fill:", ":red", ";;", "fill:red;fill:blue", "fill:inherit;x", "marker:url(#o)",
    "/*", "fill:url(#o) red", "new 0 0 1", "bold 12px Arial", "objectBoundingBox", "userSpaceOnUse", "reflect", "evenodd", "hidden", "preserve", "default", "1.1", "xMidYMid slice", "http://x", "data:,",
];

/// Elements that refer or are referred to.
const REFS: &[(&str, &str)] = &[
    ("linearGradient", "<stop offset='0' stop-color='red'/><stop offset='1'/>"), ("radialGradient", ""), ("pattern", "<circle r='3'/>"), ("clipPath", "<circle r='3'/>"), ("mask", "<circle r='3'/>"), ("filter", "<feFlood/>"), ("marker", "<path d='M 0 0 L 1 2'/>"), ("symbol", "<circle r='3'/>"),
    ("g", "<circle r='3'/><circle r='4'/>"), ("use", ""), ("path", ""), ("rect", ""), ("text", "a"), ("textPath", "a"), ("tref", ""), ("svg", "<circle r='3'/>"), ("a", "<circle r='3'/>"), ("feImage", ""), ("defs", ""), ("stop", ""), ("cursor", ""),
];
const EDGES: &[(&str, bool)] = &[("xlink:href", false), ("fill", true), ("stroke", true), ("clip-path", true), ("mask", true), ("filter", true), ("marker-start", true)];

fn edge(e: usize, to: &str) -> String {
    let (n, f) = EDGES[e];
    if f {
        format!(" {}='url(#{})'", n, to)
    } else {
        format!(" {}='#{}'", n, to)
    }
}

fn modes() -> Vec<Config> {
    vec![config(&[]), solo(&[]), config(&["--apply-transform-to-paths=true", "--remove-gradient-attributes=true", "--join-arcto-flags=true", "--join-style-attributes=all"])]
}

fn doc(body: &str) -> String {
    format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:m='urn:m' viewBox='0 0 200 100'>{}</svg>", body)
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    texts(r, t);
    report();
    structure(r, t);
    report();
    values(r, t);
    report();
    references(r, t);
    report();
    sizes(r, t);
    crate::corpus(r, move |mut f| {
        if f.name.starts_with("populations of ids") || f.size > if t { 30_000 } else { 4_000 } {
            return None;
        }
        f.configs = all_configs();
        f.next = vec![];
        f.depth = 1;
        f.check = Box::new(ends);
        Some(f)
    });
    report();
}

fn report() {
    if std::env::var("C19").is_ok() {
        for (k, v) in std::mem::take(&mut *SITES.lock().unwrap()).iter() {
            eprintln!("SITE {} x{} {}", k, v.0, v.1);
        }
    }
}

/// Damaged texts.
fn texts(r: &mut Run, t: bool) {
    let c: Vec<char> = RICH.chars().collect();
    let n = c.len();
    let text = |c: &[char]| c.iter().collect::<String>();
    let c2 = c.clone();
    r.explore(family("a text cut off anywhere", n as u64 + 1, move |i| Some(text(&c2[..i as usize])), modes(), ends));
    let c2 = c.clone();
    r.explore(family("a text beginning anywhere", n as u64 + 1, move |i| Some(text(&c2[i as usize..])), modes(), ends));
    let width = if t { n } else { 24 };
    let dims = [n, width];
    let c2 = c.clone();
    r.explore(family("a text with a gap", product(&dims), move |i| {
        let k = radix(i, &dims);
        let e = k[0] + k[1] + 1;
        if e > c2.len() {
            return None;
        }
        let mut v = c2.clone();
        v.drain(k[0]..e);
        Some(text(&v))
    }, if t { vec![config(&[])] } else { modes() }, ends));
    let c2 = c.clone();
    let w2 = if t { 200 } else { 16 };
    let dims = [n, w2];
    r.explore(family("a text with a part twice", product(&dims), move |i| {
        let k = radix(i, &dims);
        let e = k[0] + k[1] + 1;
        if e > c2.len() {
            return None;
        }
        let mut v = c2[..e].to_vec();
        v.extend_from_slice(&c2[k[0]..]);
        Some(text(&v))
    }, modes(), ends));
    const CHARS: &[char] = &['<', '>', '/', '"', '\'', '&', ';', '=', ' ', '\n', '#', '(', ')', '{', '}', '[', ']', '!', '?', '-', '.', ',', ':', '%', '0', '9', 'e', 'z', 'M', '\0', '\u{1}', '\u{e9}', '\u{65e5}', '\u{1f600}', '\u{feff}', '\u{ffff}'];
    let dims = [n, CHARS.len(), 2];
    let c2 = c.clone();
    r.explore(family("a text with another character", product(&dims), move |i| {
        let k = radix(i, &dims);
        let mut v = c2.clone();
        if k[2] == 0 {
            v[k[0]] = CHARS[k[1]];
        } else {
            v.insert(k[0], CHARS[k[1]]);
        }
        Some(text(&v))
    }, modes(), ends));
    const TOKENS: &[&str] = &[
        "<svg xmlns='http://www.w3.org/2000/svg'>", "<svg>", "</svg>", "<svg/>", "<g>", "</g>", "<g/>", "<g", "/>", ">", "<", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version='1.0'?>", "<?a b?>", "<!DOCTYPE svg>", "<!DOCTYPE svg [", "]>", "<!ENTITY a 'b'>", "<!ENTITY a '<g/>'>", "&a;", "&", "&lt;", "&#0;", "&#xd800;",
        "<style>", "</style>", "<text>", "</text>", "<text/>", "<tspan>", "</tspan>", "a", " ", "\n", " b='c'", " id='a'", "'", "\u{feff}", "<m:e/>", "<title>", "</title>", "<script>", "<path d='M 1 2 3'/>",
    ];
    let m = if t { 4 } else { 3 };
    let dims = [seq_count(TOKENS.len(), m) as usize, 4];
    r.explore(family("sequences of pieces of XML", product(&dims), move |i| {
        let k = radix(i, &dims);
        let s: String = seq(k[0] as u64, TOKENS.len()).iter().map(|j| TOKENS[*j]).collect();
        Some(match k[1] {
            0 => s,
            1 => doc(&s),
            2 => doc(&format!("<text>{}</text>", s)),
            _ => format!("<!DOCTYPE svg [<!ENTITY a 'x'>{}]><svg xmlns='http://www.w3.org/2000/svg' fill='&a;'/>", s),
        })
    }, modes(), ends));
    const CSS: &[&str] = &[
        "*", ".a", "#p", "rect", "g rect", "g>rect", "rect:first-child", "[x]", "rect[x='1']", "{", "}", "fill", ":", "red", ";", "/*", "*/", "@import url(a)", "@font-face", "@charset 'x';", "'", "!important", ",", "{fill:red}", "{fill:url(#l)}", "{stroke:inherit}", "<!--", " ", "\\", "~",
        "{marker:url(#k)}", "{font:bold 1em a}", "{:}", "{fill:}", "+", "é",
    ];
    let m = if t { 4 } else { 3 };
    let dims = [seq_count(CSS.len(), m) as usize, 3];
    r.explore(family("sequences of pieces of CSS", product(&dims), move |i| {
        let k = radix(i, &dims);
        let s: String = seq(k[0] as u64, CSS.len()).iter().map(|j| CSS[*j]).collect();
        let el = "<linearGradient id='l'/><rect class='a' id='p' width='4' height='5'/>";
        Some(match k[1] {
            0 => doc(&format!("<style><![CDATA[{}]]></style>{}", s, el)),
            1 => doc(&format!("<style type='text/css'>{}</style>{}", s, el)),
            _ => doc(&format!("<linearGradient id='l'/><rect style=\"{}\" width='4' height='5'/>", s)),
        })
    }, modes(), ends));
    const PATH: &[&str] = &["M", "m", "L", "h", "V", "C", "s", "Q", "t", "A", "Z", "z", "1", "-2", "0", ".5", "1e9", "1e99", "-", ".", ",", " ", "e", "x", "10 20 ", "é", "1 2 3 4 5 6 ", "5 5 0 0 1 9 9 ", "5 5 0 2"];
    let m = if t { 5 } else { 4 };
    let dims = [seq_count(PATH.len(), m) as usize, 1];
    r.explore(family("sequences of pieces of path data", product(&dims), move |i| {
        let k = radix(i, &dims);
        let s: String = seq(k[0] as u64, PATH.len()).iter().map(|j| PATH[*j]).collect();
        Some(doc(&format!("<path d='{}' transform='scale(2)' stroke='red'/>", s)))
    }, vec![config(&["--apply-transform-to-paths=true", "--join-arcto-flags=true"])], ends));
    const TS: &[&str] = &["matrix(", "rotate(", "scale(", "translate(", "skewX(", "skewY(", ")", "1", "0", "-1 ", "1e99 ", ",", " ", "30 ", "foo(", ".5 ", "1 0 0 1 0 0", "e", "é"];
    let m = if t { 5 } else { 4 };
    let dims = [seq_count(TS.len(), m) as usize, 2];
    r.explore(family("sequences of pieces of transforms", product(&dims), move |i| {
        let k = radix(i, &dims);
        let s: String = seq(k[0] as u64, TS.len()).iter().map(|j| TS[*j]).collect();
        Some(doc(&match k[1] {
            0 => format!("<rect width='4' height='5' rx='1' transform='{}' stroke='red'/>", s),
            _ => format!("<linearGradient id='l' gradientTransform='{}'/><g transform='{}'><path d='M 1 2 L 3 4 H 5' fill='url(#l)'/></g>", s, s),
        }))
    }, vec![config(&["--apply-transform-to-paths=true"])], ends));
}

/// Elements in every other element.
fn structure(r: &mut Run, t: bool) {
    let n = ELEMENTS.len();
    const ATTRS: &[&str] = &["", " id='a' xlink:href='#o' fill='url(#o)' transform='scale(2)'", " id='a' fill='red' style='stroke:blue' x='1' cx='2' width='3' offset='1'"];
    let dims = [n, n, ATTRS.len(), 3];
    r.explore(family("every element in every element", product(&dims), move |i| {
        let k = radix(i, &dims);
        let (a, b) = (ELEMENTS[k[0]], ELEMENTS[k[1]]);
        let x = ["", "a", "<circle r='3'/>"][k[3]];
        Some(doc(&format!("<defs><g id='o'><circle r='2'/></g></defs><use xlink:href='#a'/><{}{}><{} {}>{}</{}></{}>", a, ATTRS[k[2]], b, ATTRS[k[2]].replace("id='a'", "id='b'"), x, b, a)))
    }, if t { all_configs() } else { modes() }, ends));
    let dims = [n, n, n];
    r.explore(family("three elements in each other", product(&dims), move |i| {
        let k = radix(i, &dims);
        let (a, b, c) = (ELEMENTS[k[0]], ELEMENTS[k[1]], ELEMENTS[k[2]]);
        if !t && (k[0] + k[1] + k[2]) % 4 != 0 {
            return None;
        }
        Some(doc(&format!("<{} fill='red'><{} fill='red'><{} fill='red' id='a'/></{}></{}><use xlink:href='#a'/>", a, b, c, b, a)))
    }, vec![config(&[])], ends));
    let dims = [n, n];
    r.explore(family("every element as the root", product(&dims), move |i| {
        let k = radix(i, &dims);
        let (a, b) = (ELEMENTS[k[0]], ELEMENTS[k[1]]);
        Some(format!("<{} xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:m='urn:m'><{}/></{}>", a, b, a))
    }, modes(), ends));
}

fn unique(s: String) -> Option<String> {
    match xml::parse(&s) {
        Err(ref e) if e.starts_with("duplicate attribute") => None,
        _ => Some(s),
    }
}

/// Attributes with every value.
fn values(r: &mut Run, t: bool) {
    let (nn, nv) = (NAMES.len(), VALUES.len());
    let ncar = subj::CARRIERS.len();
    let dims = [nn, nv, ncar];
    r.explore(family("every value of every attribute on every element", product(&dims), move |i| {
        let k = radix(i, &dims);
        let q = if VALUES[k[1]].contains('\'') { '"' } else { '\'' };
        let a = format!("{}={}{}{}", NAMES[k[0]], q, VALUES[k[1]], q);
        let s = subj::carry(k[2], &a)?;
        let s = s.replacen("viewBox='0 0 200 100'>", "viewBox='0 0 200 100'><linearGradient id='o'/><g id='i'/>", 1);
        // the one on the root replaces
        if NAMES[k[0]] == "xmlns" || NAMES[k[0]] == "xmlns:m" {
            return Some(s);
        }
        unique(s)
    }, if t { modes() } else { vec![config(&[])] }, ends));
    // everything that has a number is replaced in a document with everything
    let x = xml::parse(&RICH[RICH.find("<svg").unwrap()..].replace("&e;", "red").replace("&n;", "urn:x").replace("<style", "<m:style").replace("</style", "</m:style")).unwrap();
    let mut slots: Vec<(usize, usize)> = vec![];
    for n in x.all_elems() {
        for (j, _) in x.attrs(n).iter().enumerate() {
            slots.push((n, j));
        }
    }
    let rich: Vec<char> = RICH.chars().collect();
    let _ = rich;
    // every attribute of the document, by its position in the text
    let at: Vec<(usize, usize)> = {
        let b = RICH.as_bytes();
        let mut v = vec![];
        let mut i = RICH.find("<svg").unwrap();
        while let Some(p) = RICH[i..].find('=') {
            let p = i + p;
            let q = b[p + 1];
            if q == b'"' || q == b'\'' {
                let e = p + 2 + RICH[p + 2..].find(q as char).unwrap();
                v.push((p + 2, e));
                i = e;
            } else {
                i = p + 1;
            }
        }
        v
    };
    let na = at.len();
    let dims = [na, nv, na, 8];
    r.explore(family("values of two attributes of a document", product(&dims), move |i| {
        let k = radix(i, &dims);
        if k[0] > k[2] || (k[0] == k[2] && k[3] > 0) {
            return None;
        }
        if !t && (k[0] != k[2] && (k[1] + k[0] + k[2] + k[3]) % 3 != 0) {
            return None;
        }
        const SECOND: &[&str] = &["", "0", "-1", "1e300", "#l", "url(#l)", "none", "inherit"];
        let mut s = RICH.to_string();
        if k[0] != k[2] {
            s.replace_range(at[k[2]].0..at[k[2]].1, SECOND[k[3]]);
        }
        s.replace_range(at[k[0]].0..at[k[0]].1, VALUES[k[1]]);
        Some(s)
    }, vec![config(&[])], ends));
    // nothing, one and two attributes are missing
    let at2: Vec<(usize, usize)> = {
        let b = RICH.as_bytes();
        let mut v = vec![];
        let mut i = RICH.find("<svg").unwrap();
        while let Some(p) = RICH[i..].find('=') {
            let p = i + p;
            let q = b[p + 1];
            if q == b'"' || q == b'\'' {
                let e = p + 2 + RICH[p + 2..].find(q as char).unwrap();
                let st = RICH[..p].rfind(' ').unwrap();
                v.push((st, e + 1));
                i = e;
            } else {
                i = p + 1;
            }
        }
        v
    };
    let dims = [na, na, na];
    r.explore(family("up to three attributes are missing", product(&dims), move |i| {
        let k = radix(i, &dims);
        if k[0] > k[1] || k[1] > k[2] || (!t && k[0] != k[1] && k[1] != k[2] && (k[0] + k[1] + k[2]) % 2 != 0) {
            return None;
        }
        let mut s = RICH.to_string();
        let mut last = usize::MAX;
        for j in [2, 1, 0] {
            if k[j] != last {
                s.replace_range(at2[k[j]].0..at2[k[j]].1, "");
                last = k[j];
            }
        }
        Some(s)
    }, vec![config(&[])], ends));
}

/// Graphs of references, with cycles.
fn references(r: &mut Run, t: bool) {
    let (nk, ne) = (REFS.len(), EDGES.len());
    let per = 1 + ne * 2;
    let dims = [nk, nk, per, per, 3, 2];
    r.explore(family("all references between two elements", product(&dims), move |i| {
        let k = radix(i, &dims);
        let e = |j: usize| if k[j] == 0 { String::new() } else { edge((k[j] - 1) / 2, ["a", "b"][(k[j] - 1) % 2]) };
        let (a, ab) = REFS[k[0]];
        let (b, bb) = REFS[k[1]];
        let s = match k[4] {
            0 => format!("<{} id='a'{}>{}</{}><{} id='b'{}>{}</{}>", a, e(2), ab, a, b, e(3), bb, b),
            1 => format!("<{} id='a'{}>{}<{} id='b'{}>{}</{}></{}>", a, e(2), ab, b, e(3), bb, b, a),
            _ => format!("<defs><{} id='a'{}>{}</{}></defs><{} id='b'{}>{}</{}>", a, e(2), ab, a, b, e(3), bb, b),
        };
        let u = ["", "<use xlink:href='#a'/><path d='M 1 2 L 3 4 L 7 9' fill='url(#a)' stroke='url(#b)' clip-path='url(#b)'/>"][k[5]];
        Some(doc(&format!("{}{}", s, u)))
    }, if t { modes() } else { vec![config(&[])] }, ends));
    // two links of both
    const TWO: &[usize] = &[0, 1, 2, 3, 4, 8, 9, 10, 7, 6];
    let nt = if t { TWO.len() } else { 5 };
    let dims = [nt, nt, per, per, per, per];
    r.explore(family("two references of both of two elements", product(&dims), move |i| {
        let k = radix(i, &dims);
        let e = |j: usize| if k[j] == 0 { String::new() } else { edge((k[j] - 1) / 2, ["a", "b"][(k[j] - 1) % 2]) };
        let dup = |x: usize, y: usize| k[x] > k[y] || (k[x] > 0 && (k[x] - 1) / 2 == (k[y] - 1) / 2) || (k[x] == 0 && k[y] > 0);
        if dup(2, 3) || dup(4, 5) {
            return None;
        }
        let (a, ab) = REFS[TWO[k[0]]];
        let (b, bb) = REFS[TWO[k[1]]];
        Some(doc(&format!("<{} id='a'{}{}>{}</{}><{} id='b'{}{}>{}</{}><path d='M 1 2 L 3 4 L 7 9' fill='url(#a)' stroke='url(#b)'/>", a, e(2), e(3), ab, a, b, e(4), e(5), bb, b)))
    }, vec![config(&[])], ends));
    // three and four elements: any graph of one kind of link
    for (n, kinds) in [(3usize, 8usize), (4, 3)] {
        const K: &[usize] = &[0, 1, 9, 2, 8, 3, 4, 7];
        let per = 1 + n * 2;
        let mut dims = vec![kinds; n];
        dims.extend(vec![per; n]);
        let size = product(&dims);
        r.explore(family(&format!("references between {} elements", n), size, move |i| {
            let k = radix(i, &dims);
            if !t && n == 4 && i % 8 != 0 {
                return None;
            }
            let mut s = String::new();
            for j in 0..n {
                let (a, body) = REFS[K[k[j]]];
                let l = k[n + j];
                let e = if l == 0 { String::new() } else { edge([0, if ["clipPath", "mask"].contains(&a) { 3 } else { 1 }][(l - 1) / n], ["a", "b", "c", "d"][(l - 1) % n]) };
                s.push_str(&format!("<{} id='{}'{}>{}</{}>", a, ["a", "b", "c", "d"][j], e, body.replace("r='3'", if a == "pattern" { "r='5' fill='url(#b)'" } else { "r='3'" }), a));
            }
            Some(doc(&format!("{}<path d='M 1 2 L 3 4 L 7 9' fill='url(#a)' stroke='url(#b)'/>", s)))
        }, if t && n == 3 { modes() } else { vec![config(&[])] }, ends));
    }
    // a reference to an element from deep inside of it
    const WRAP: &[&str] = &["", "<g>|</g>", "<g><g id='w'>|</g></g>", "<g><svg><g>|</g></svg></g>", "<a><g fill='red'><switch><g>|</g></switch></g></a>", "<symbol id='w'><g>|</g></symbol>", "<g><defs><g>|</g></defs></g>", "<defs><symbol><g>|</g></symbol></defs>", "<g id='w'><use xlink:href='#v'/><g id='v'>|</g></g>"];
    const OUT: &[&str] = &["", "<use xlink:href='#a'/>", "<use xlink:href='#a'/><use xlink:href='#a' x='1'/>", "<use xlink:href='#w'/>", "<path d='M 1 2 L 3 4 L 7 9' fill='url(#a)' stroke='url(#a)' clip-path='url(#a)' mask='url(#a)'/>"];
    const LEAF: &[&str] = &["<use{}/>", "<use{}/><path d='M 1 2 L 3 4 L 7 9'/>", "<use{} x='3' display='none'/>", "<path d='M 1 2 L 3 4 L 7 9'{}/>", "<g{}><path d='M 1 2 L 3 4 L 7 9'/></g>"];
    let dims = [nk, WRAP.len(), ne, LEAF.len(), OUT.len(), 4];
    r.explore(family("references from deep inside", product(&dims), move |i| {
        let k = radix(i, &dims);
        let (a, _) = REFS[k[0]];
        let s = WRAP[k[1]].replace('|', &LEAF[k[3]].replace("{}", &edge(k[2], "a")));
        let s = if k[1] == 0 { LEAF[k[3]].replace("{}", &edge(k[2], "a")) } else { s };
        let s = format!("<{} id='a'>{}</{}>", a, s, a);
        let o = OUT[k[4]];
        Some(doc(&match k[5] {
            0 => format!("{}{}", s, o),
            1 => format!("{}<defs>{}</defs>", o, s),
            2 => format!("<defs><g>{}</g></defs>{}", s, o),
            _ => format!("<g id='b'>{}</g>{}<use xlink:href='#b'/>", s, o),
        }))
    }, if t { modes() } else { vec![config(&[])] }, ends));
    // references between ancestors and descendants
    let dims = [nk, nk, nk, 7, 7, 7, 3];
    r.explore(family("references to ancestors", product(&dims), move |i| {
        let k = radix(i, &dims);
        if k[3] != k[6] && k[4] != k[6] && !t && (k[0] + k[1] + k[2] + k[3] + k[4] + k[5]) % 4 != 0 {
            return None;
        }
        let e = |j: usize, to: &str| if k[j] == 0 { String::new() } else { edge(k[j] - 1, to) };
        let (a, b, c) = (REFS[k[0]].0, REFS[k[1]].0, REFS[k[2]].0);
        let to: [&str; 3] = [["c", "a", "b"], ["b", "c", "a"], ["b", "a", "a"]][k[6]];
        Some(doc(&format!("<{} id='a'{}><{} id='b'{}><{} id='c'{}/></{}></{}>", a, e(3, to[0]), b, e(4, to[1]), c, e(5, to[2]), b, a)))
    }, vec![config(&[])], ends));
}

/// Deep, long and expanding documents, with the real executable.
fn sizes(r: &mut Run, t: bool) {
    let mut docs: Vec<(String, String)> = vec![];
    let deep: &[usize] = if t { &[10, 100, 300, 1000, 3000] } else { &[10, 100, 300] };
    for n in deep {
        for (o, c) in [("<g>", "</g>"), ("<g fill='red'>", "</g>"), ("<svg>", "</svg>"), ("<a xlink:href='http://x'>", "</a>"), ("<switch>", "</switch>"), ("<g transform='scale(1.01)'>", "</g>"), ("<defs>", "</defs>"), ("<m:e>", "</m:e>"), ("<g opacity='.9'>", "</g>"), ("<pattern>", "</pattern>"), ("<symbol>", "</symbol>")] {
            docs.push((format!("{} times {}", n, o), doc(&format!("{}<circle r='5'/><circle r='6' fill='red'/>{}", o.repeat(*n), c.repeat(*n)))));
        }
        docs.push((format!("{} nested tspans", n), doc(&format!("<text>{}a{}</text>", "<tspan>".repeat(*n), "</tspan>".repeat(*n)))));
        docs.push((format!("{} unclosed groups", n), doc(&"<g>".repeat(*n))));
        let mut s = String::new();
        for j in 0..*n {
            s.push_str(&format!("<linearGradient id='l{}'{}/>", j, if j + 1 < *n { format!(" xlink:href='#l{}'", j + 1) } else { String::new() }));
        }
        if *n > 1000 {
            // cubic
            continue;
        }
        docs.push((format!("{} gradients in a chain", n), doc(&format!("{}<path d='M 1 2 L 3 4 L 5 9' fill='url(#l0)'/>", s))));
        let mut s = String::new();
        for j in 0..*n {
            s.push_str(&format!("<use id='l{}' xlink:href='#l{}'/>", j, j + 1));
        }
        docs.push((format!("{} uses in a chain", n), doc(&format!("<defs><path id='l{}' d='M 1 2 L 3 4 L 5 9'/></defs>{}", n, s))));
    }
    let long: &[usize] = if t { &[1000, 3000] } else { &[300, 1000] };
    for n in long {
        docs.push((format!("{} circles", n), doc(&"<circle r='5' fill='red' cx='4'/>".repeat(*n))));
        docs.push((format!("{} groups", n), doc(&"<g fill='red'><circle r='5' cx='4'/></g>".repeat(*n))));
        docs.push((format!("{} segments", n * 10), doc(&format!("<path d='M 1 2{}'/>", " L 3 4 H 5 v 6 c 1 2 3 4 5 6".repeat(*n * 2)))));
        docs.push((format!("{} subpaths", n), doc(&format!("<path d='{}'/>", "M 3 4 H 5 v 6 z".repeat(*n)))));
        docs.push((format!("{} attributes", n), doc(&format!("<g{}><circle r='4'/></g>", (0..*n).map(|j| format!(" a{}='1'", j)).collect::<String>()))));
        docs.push((format!("{} classes", n), doc(&format!("<style>{}</style><g class='{}'><circle r='4'/></g>", (0..*n).map(|j| format!(".a{}{{fill:red}}", j)).collect::<String>(), (0..*n).map(|j| format!("a{} ", j)).collect::<String>()))));
        docs.push((format!("{} ids", n), doc(&(0..*n).map(|j| format!("<linearGradient id='lg{}'><stop offset='0.{}'/></linearGradient><circle r='4' fill='url(#lg{})'/>", j, j, j)).collect::<String>())));
        docs.push((format!("{} gradients alike", n), doc(&(0..*n).map(|j| format!("<linearGradient id='lg{}'><stop offset='0.5'/></linearGradient><circle r='4' fill='url(#lg{})'/>", j, j)).collect::<String>())));
        docs.push((format!("{} stops", n), doc(&format!("<linearGradient id='l'>{}</linearGradient><circle r='4' fill='url(#l)'/>", "<stop offset='0.5'/>".repeat(*n)))));
        docs.push((format!("{} transforms", n), doc(&format!("<g transform='{}'><circle r='5'/></g>", "rotate(5) scale(1.01) ".repeat(*n)))));
        docs.push((format!("{} points", n), doc(&format!("<polygon points='{}'/>", "1 2 5 6 ".repeat(*n)))));
        docs.push((format!("{} characters", n * 100), doc(&format!("<text>{}</text>", "ab  c".repeat(*n * 20)))));
        docs.push((format!("{} comments", n), format!("{}{}", "<!--c-->".repeat(*n), doc(&"<!--d-->".repeat(*n)))));
        docs.push((format!("{} style declarations", n), doc(&format!("<g style='{}'><circle r='4'/></g>", "fill:red;stroke:blue;".repeat(*n)))));
        docs.push((format!("{} times no element", n), "<".repeat(*n)));
        docs.push((format!("{} blanks", n * 100), format!("{}{}", " ".repeat(*n * 100), doc(&" ".repeat(*n * 100)))));
    }
    docs.push(("nothing".into(), String::new()));
    docs.push(("entities".into(), "<!DOCTYPE svg [<!ENTITY a 'x'><!ENTITY b '&a;&a;'><!ENTITY c '&b;&b;'><!ENTITY d '&c;&c;'>]><svg xmlns='http://www.w3.org/2000/svg'><text>&d;</text></svg>".into()));
    let sets: &[&[&str]] = &[&[], &["--no-defaults", "--join-style-attributes=no"], &["--multipass", "--apply-transform-to-paths=true", "--indent=tabs"], &["--no-defaults", "--group-by-style=true", "--indent=4"]];
    let dims = [docs.len(), sets.len()];
    r.scenarios("deep, long and expanding documents", product(&dims), |i, w| {
        let k = radix(i, &dims);
        w.reset();
        w.put("in.svg", docs[k[0]].1.as_bytes());
        let mut args: Vec<String> = sets[k[1]].iter().map(|s| s.to_string()).collect();
        args.extend(["in.svg", "out.svg"].iter().map(|s| s.to_string()));
        let t0 = std::time::Instant::now();
        let res = w.run(&args, None, &[]);
        let d = t0.elapsed().as_secs_f64();
        let mut s = Scn::new(docs[k[0]].0.clone(), args.join(" "));
        s.runs = 1;
        s.output = if res.text().len() > 400 { "long".into() } else { res.text() };
        if let Err(e) = res.sane() {
            return Some(s.fail(e));
        }
        s.failed = res.reported_error();
        if std::env::var("C19").is_ok() && d > 1.0 {
            eprintln!("SLOW {:.1} {} {}", d, s.input, s.args);
        }
        if !s.failed && w.get("out.svg").is_none() {
            return Some(s.fail("neither a result nor an error".into()));
        }
        Some(s)
    });
    const ENTITIES: &[&str] = &[
        "<!DOCTYPE svg [<!ENTITY a '&a;'>]><svg xmlns='http://www.w3.org/2000/svg' fill='&a;'/>",
        "<!DOCTYPE svg [<!ENTITY a '&a;'>]><svg xmlns='http://www.w3.org/2000/svg'><text>&a;</text></svg>",
        "<!DOCTYPE svg [<!ENTITY a '&b;'><!ENTITY b '&a;'>]><svg xmlns='http://www.w3.org/2000/svg'><g>&a;</g></svg>",
        "<!DOCTYPE svg [<!ENTITY a '<g>&a;</g>'>]><svg xmlns='http://www.w3.org/2000/svg'>&a;</svg>",
        "<!DOCTYPE svg [<!ENTITY a 'x&a;'>]><svg xmlns='http://www.w3.org/2000/svg' xmlns:a='&a;'><style>&a;</style></svg>",
        "<!DOCTYPE svg [<!ENTITY a '&a;'>]><svg xmlns='http://www.w3.org/2000/svg'><g id='&a;'/></svg>",
    ];
    r.scenarios("recursive entities", ENTITIES.len() as u64, |i, w| {
        w.reset();
        w.put("in.svg", ENTITIES[i as usize].as_bytes());
        let res = w.run(&["in.svg".to_string(), "out.svg".to_string()], None, &[]);
        let mut s = Scn::new(ENTITIES[i as usize].to_string(), "in.svg out.svg".into());
        s.runs = 1;
        s.output = res.text();
        if let Err(e) = res.sane() {
            s.output = e.lines().next().unwrap_or("").to_string();
            return Some(s.fail(e));
        }
        s.failed = res.reported_error();
        Some(s)
    });
}

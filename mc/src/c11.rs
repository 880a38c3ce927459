//! C11: the output is well-formed SVG that the cleaner itself accepts.
use crate::engine::*;
use crate::fam::*;
use crate::geom;
use crate::style;
use crate::xml::{self, Xml};
use std::collections::BTreeSet;

fn is_length(v: &str) -> bool {
    match geom::number(v.trim()) {
        Some((_, r)) => matches!(r.trim(), "" | "em" | "ex" | "px" | "in" | "cm" | "mm" | "pt" | "pc" | "%"),
        None => false,
    }
}
fn is_length_list(v: &str) -> bool {
    v.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).all(is_length)
}
fn is_color(v: &str) -> bool {
    v.starts_with("icc-color") || style::color(v).is_some() || v.chars().all(|c| c.is_ascii_alphabetic())
}
fn is_paint(v: &str) -> bool {
    let v = v.trim();
    if let Some(r) = v.strip_prefix("url(") {
        return match r.find(')') {
            Some(e) => {
                let rest = r[e + 1..].trim();
                rest.is_empty() || is_color(rest)
            }
            None => false,
        };
    }
    is_color(v)
}
fn is_link(v: &str) -> bool {
    v == "none" || v == "inherit" || (v.starts_with("url(") && v.ends_with(')'))
}

/// Whether a value has the syntax of its attribute; unknown attributes may hold anything.
fn valid(elem: &str, name: &str, v: &str) -> bool {
    if v.trim() == "inherit" {
        return true;
    }
    match name {
        "d" => geom::path(v).1,
        "points" => geom::number_list(v).map_or(false, |l| l.len() % 2 == 0),
        "transform" | "gradientTransform" | "patternTransform" => geom::transform(v).is_some(),
        "viewBox" => geom::number_list(v).map_or(false, |l| l.len() == 4),
        "x" | "y" | "dx" | "dy" if elem == "text" || elem == "tspan" || elem == "tref" || elem == "altGlyph" || elem == "glyphRef" => {
            is_length_list(v)
        }
        "rotate" if elem != "animateMotion" => geom::number_list(v).is_some(),
        "x" | "y" | "width" | "height" | "rx" | "ry" | "cx" | "cy" | "r" | "x1" | "y1" | "x2" | "y2" | "fx" | "fy" | "markerWidth"
        | "markerHeight" | "refX" | "refY" | "startOffset" | "textLength" | "stroke-width" | "stroke-dashoffset" => is_length(v),
        "stroke-dasharray" => v == "none" || is_length_list(v),
        "offset" if elem == "stop" => geom::number(v.trim()).map_or(false, |r| matches!(r.1.trim(), "" | "%")),
        "opacity" | "fill-opacity" | "stroke-opacity" | "stop-opacity" | "flood-opacity" | "stroke-miterlimit" => {
            geom::number(v.trim()).map_or(false, |r| r.1.trim().is_empty())
        }
        "fill" | "stroke" if elem != "set" && !elem.starts_with("animate") => is_paint(v),
        "color" | "stop-color" | "flood-color" | "lighting-color" => is_color(v),
        "clip-path" | "mask" | "filter" | "marker-start" | "marker-mid" | "marker-end" => is_link(v.trim()),
        "stdDeviation" => geom::number_list(v).map_or(false, |l| l.len() == 1 || l.len() == 2),
        "font-size" => is_length(v) || v.chars().all(|c| c.is_ascii_alphabetic() || c == '-'),
        "letter-spacing" | "word-spacing" | "kerning" => is_length(v) || v == "normal" || v == "auto",
        "baseline-shift" => is_length(v) || v.chars().all(|c| c.is_ascii_alphabetic()),
        "id" => {
            let c = v.chars().next();
            c.map_or(false, |c| c.is_alphabetic() || c == '_') && !v.contains(|c: char| c.is_whitespace() || c == '<' || c == '&')
        }
        _ => true,
    }
}

/// Attribute names with malformed values.
fn malformed(x: &Xml) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for n in x.all_elems() {
        let e = x.name(n);
        for (k, v) in x.attrs(n) {
            if k == "style" {
                for (p, v, _) in style::declarations(v) {
                    if !valid(e, &p, &v) {
                        s.insert(p);
                    }
                }
            } else if !valid(e, k, v) {
                s.insert(k.clone());
            }
        }
    }
    s
}

fn namespaces(x: &Xml) -> Result<(), String> {
    fn rec(x: &Xml, n: usize, scope: &[(String, String)]) -> Result<(), String> {
        let mut sc = scope.to_vec();
        for (k, v) in x.attrs(n) {
            if k == "xmlns" {
                sc.push((String::new(), v.clone()));
            } else if let Some(p) = k.strip_prefix("xmlns:") {
                sc.push((p.into(), v.clone()));
            }
        }
        let find = |p: &str| sc.iter().rev().find(|s| s.0 == p).map(|s| s.1.clone());
        let mut seen: Vec<(String, String)> = vec![];
        for (k, _) in x.attrs(n).iter().map(|a| (&a.0, 0)).chain(std::iter::once((&x.name(n).to_string(), 1))) {
            if k == "xmlns" {
                continue;
            }
            if let Some((p, l)) = k.split_once(':') {
                if p == "xml" || p == "xmlns" {
                    continue;
                }
                let ns = find(p).ok_or_else(|| format!("undeclared prefix in '{}'", k))?;
                if l.is_empty() || l.contains(':') {
                    return Err(format!("bad name '{}'", k));
                }
                let q = (ns, l.to_string());
                if seen.contains(&q) {
                    return Err(format!("attribute '{}' occurs twice through two prefixes", k));
                }
                seen.push(q);
            }
        }
        for c in x.elem_children(n) {
            rec(x, c, &sc)?;
        }
        Ok(())
    }
    let r = x.root_elem().ok_or("no root element")?;
    let (p, l) = x.name(r).split_once(':').unwrap_or(("", x.name(r)));
    let decl = if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", p) };
    if l != "svg" || x.attr(r, &decl) != Some("http://www.w3.org/2000/svg") {
        return Err("the root element is not svg in the SVG namespace".into());
    }
    // nested elements that redeclare the default namespace are foreign content
    rec(x, r, &[])
}

pub fn wellformed(c: &Case, note: &mut Note) -> Result<(), String> {
    let o = match c.out {
        Outcome::Panic(p) => return Err(format!("panic: {}", p)),
        Outcome::Err(e) => {
            note.observed = fnv(e);
            return Ok(());
        }
        Outcome::Ok(o) => o,
    };
    note.observed = fnv(o);
    note.nontrivial = o != c.pre.text;
    // the tool also accepts some texts that are not XML documents; those need not become ones
    let ok_in = c.pre.xml().is_ok();
    let x = match xml::parse(o) {
        Ok(x) => x,
        Err(e) if ok_in => return Err(format!("output is not well-formed: {}", e)),
        Err(_) => return accepted_again(o, c.cfg, ok_in),
    };
    if let Err(e) = namespaces(&x) {
        // not every accepted document is namespace-well-formed itself
        if c.pre.xml().as_ref().map_or(true, |x| namespaces(x).is_ok()) {
            return Err(format!("output: {}", e));
        }
    }
    let m = malformed(&x);
    if !m.is_empty() {
        let before = match c.pre.xml() {
            Ok(x) => malformed(x),
            Err(_) => BTreeSet::new(),
        };
        if let Some(k) = m.difference(&before).next() {
            return Err(format!("malformed value of '{}'", k));
        }
    }
    accepted_again(o, c.cfg, ok_in)
}

/// The cleaner accepts its own output.
fn accepted_again(o: &str, cfg: &Config, ok_in: bool) -> Result<(), String> {
    match clean(o, cfg) {
        Outcome::Ok(o2) => {
            if ok_in && o2 != *o {
                xml::parse(&o2).map_err(|e| format!("output of the second run is not well-formed: {}", e))?;
            }
            Ok(())
        }
        Outcome::Err(e) => Err(format!("the output is refused: {}", e)),
        Outcome::Panic(e) => Err(format!("cleaning the output panics: {}", e)),
    }
}

pub fn keep() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&[]),
        config(&["--remove-comments=false", "--remove-declarations=false", "--remove-nonsvg-elements=false", "--remove-nonsvg-attributes=false", "--remove-title=false", "--remove-desc=false", "--remove-metadata=false"]),
        config(&["--remove-nonsvg-attributes=false"]),
        config(&["--remove-xmlns-xlink-attribute=false", "--join-style-attributes=all"]),
        solo(&["remove-xmlns-xlink-attribute"]),
        solo(&["remove-nonsvg-elements", "remove-nonsvg-attributes"]),
    ]
}

/// Positions for character data.
pub static POS: &[&str] = &[
    "<text x=\"1\">{0}</text>",
    "<text x=\"1\">a<tspan>{0}</tspan>b</text>",
    "<title>{0}</title><path d=\"M 1 2 3 4 5 0 z\"/>",
    "<desc>{0}</desc><path d=\"M 1 2 3 4 5 0 z\"/>",
    "<metadata>{0}</metadata><path d=\"M 1 2 3 4 5 0 z\"/>",
    "<metadata><r:RDF xmlns:r=\"http://r\" r:about=\"{0}\">{0}</r:RDF></metadata><path d=\"M 1 2 3 4 5 0 z\"/>",
    "<path d=\"M 1 2 3 4 5 0 z\" data-x=\"{0}\"/>",
    "<path d=\"M 1 2 3 4 5 0 z\" xmlns:i=\"http://i\" i:label=\"{0}\"/>",
    "<a xlink:href=\"http://x/?{0}\"><path d=\"M 1 2 3 4 5 0 z\"/></a>",
    "<a xlink:title=\"{0}\" xlink:href=\"http://x\"><path d=\"M 1 2 3 4 5 0 z\"/></a>",
    "<text x=\"1\" font-family=\"{0}\">t</text>",
    "<text x=\"1\" font-family=\"Arial\" class=\"{0}\">t</text>",
    "<i:thing xmlns:i=\"http://i\" a=\"{0}\">{0}</i:thing><path d=\"M 1 2 3 4 5 0 z\"/>",
    "<foreignObject width=\"9\" height=\"9\"><p xmlns=\"http://www.w3.org/1999/xhtml\" title=\"{0}\">{0}</p></foreignObject>",
    "<image width=\"9\" height=\"9\" xlink:href=\"data:image/png;base64,{0}\"/>",
    "<switch><path systemLanguage=\"{0}\" d=\"M 1 2 3 4 5 0 z\"/></switch>",
    "<path id=\"p{0}\" d=\"M 1 2 3 4 5 0 z\"/>",
    "<filter id=\"f\"><feFlood result=\"{0}\"/><feMerge><feMergeNode in=\"{0}\"/></feMerge></filter><path filter=\"url(#f)\" d=\"M 1 2 3 4 5 0 z\"/>",
    "<font><font-face font-family=\"{0}\"/><glyph unicode=\"{0}\" glyph-name=\"{0}\"/></font>",
    "<path d=\"M 1 2 3 4 5 0 z\" xml:lang=\"{0}\"/>",
    "<path d=\"M 1 2 3 4 5 0 z\" xml:base=\"{0}\"/>",
    "<path d=\"M 1 2 3 4 5 0 z\" style=\"-v-x:a;fill:red;foo:bar\" data-x=\"{0}\"/>",
];
pub static CHARS: &[&str] = &[
    "", "a", "a b", " a ", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "'", "&#39;", "&#34;", "a&amp;b&lt;c", "&amp;amp;", "&amp;lt;", "]]&gt;", "&#38;",
    "&#x26;lt;", "&#60;b&#62;", "&#9;", "&#10;", "&#13;", "&#xA0;", "é", "日本", "😀", "&#x1F600;", "&ent;", "&ent;&amp;", "&quot;&apos;", "--", "&amp;ent;", "{x}",
    "a;b", "%", "a=b&amp;c=d", "/* */", "&unknown;", "&#0;", "&",
];

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let n = POS.len();
    let gen = move |wrap: usize| {
        move |i: u64| {
            let k = radix(i, &[n, CHARS.len(), CHARS.len()]);
            let c = format!("{}{}", CHARS[k[1]], CHARS[k[2]]);
            // references to entities inside of attributes are never resolved (recorded finding)
            if k[0] > 3 && (c.contains("&ent;") || c.contains("&unknown;")) {
                return None;
            }
            let body = POS[k[0]].replace("{0}", &c);
            Some(match wrap {
                0 => format!("<!DOCTYPE svg [<!ENTITY ent \"text\">]>{}", svg(&body)),
                1 => format!("<!DOCTYPE svg [<!ENTITY ent \"a&#38;lt;b\">]>{}", svg(&body)),
                _ => format!("<?xml version=\"1.0\"?>\n<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"svg11.dtd\" [<!ENTITY ent \"x'y\"><!ENTITY n \"&ent;\">]>\n{}", svg(&body)),
            })
        }
    };
    r.explore(family("special characters everywhere", product(&[n, CHARS.len(), CHARS.len()]), gen(0), keep(), wellformed));
    r.explore(family("special characters, all option sets", n as u64 * CHARS.len() as u64, gen(1), all_configs(), wellformed));
    if t {
        r.explore(family("special characters and entities", product(&[n, CHARS.len(), CHARS.len()]), gen(2), keep(), wellformed));
    }
    let misc: &[&str] = &[
        "", "<!-- c -->", "<?pi data?>", "<!---->", "<!-- <a> & ' -->", "<?pi?>", " \n ", "<title>t</title>", "<!-- a --><!-- b -->", "<?x <>&'\"?>",
    ];
    r.explore(grid(
        "prolog and epilog",
        "{0}{1}{2}<svg xmlns=\"http://www.w3.org/2000/svg\"{3}>{1}{4}{2}</svg>{5}",
        &[
            &["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8' standalone='no'?>\n", "<!DOCTYPE svg>", "<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/svg11.dtd\">", "<!DOCTYPE svg [<!ENTITY a \"b\">]>\n", "<!DOCTYPE svg [<!ENTITY a 'b'><!ATTLIST svg x CDATA #IMPLIED>]>", "<?xml version=\"1.0\"?><!DOCTYPE svg [\n<!ENTITY c \"red\">\n]>"],
            &misc[..8],
            misc,
            &["", " version=\"1.1\"", " baseProfile='basic' version='1.1'", " x=\"1\" y=\"2\" width=\"9\" height=\"9\"", " xml:space=\"preserve\"", " enable-background='new 0 0 1 1'", " style=\"\"", " zoomAndPan='magnify' contentScriptType='text/ecmascript'"],
            &["", "<path d=\"M1 2L3 4L5 0z\"/>", "<g/>", "<text>a</text>", "<defs/>", "<style/>", "<style type=\"text/css\"> /* c */ </style>", "<svg/>"],
            &["", "<!-- end -->", "\n", "<?end x?>"],
        ],
        keep(),
        wellformed,
    ));
    r.explore(grid(
        "prefixes",
        "<svg xmlns=\"http://www.w3.org/2000/svg\"{0}><g{1}>{2}{3}</g></svg>",
        &[
            &["", " xmlns:xlink=\"http://www.w3.org/1999/xlink\"", " xmlns:x=\"http://www.w3.org/1999/xlink\"", " xmlns:i=\"http://i\"", " xmlns:i=\"http://i\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"", " xmlns:svg=\"http://www.w3.org/2000/svg\"", " xmlns:i=\"http://i\" i:a=\"1\" a=\"2\"", " xmlns:xml=\"http://www.w3.org/XML/1998/namespace\""],
            &["", " xmlns:xlink=\"http://www.w3.org/1999/xlink\"", " xmlns:i=\"http://j\"", " xmlns=\"http://www.w3.org/2000/svg\"", " i:b='1'", " xmlns:i='http://k' i:b='1'", " xmlns:s=\"http://www.w3.org/2000/svg\" xmlns:xl=\"http://www.w3.org/1999/xlink\""],
            &["", "<a xlink:href=\"http://x\"><path d=\"M1 2L3 4L5 0z\"/></a>", "<defs><path id=\"p\" d=\"M1 2L3 4L5 0z\"/></defs><use xlink:href=\"#p\" x=\"1\"/>", "<a x:href=\"http://x\"><path d=\"M1 2L3 4L5 0z\"/></a>", "<image width=\"9\" height=\"9\" xlink:href=\"data:image/png;base64,AAAA\"/>", "<svg:path d=\"M1 2L3 4L5 0z\"/>", "<s:path d=\"M1 2L3 4L5 0z\"/>", "<image width=\"9\" height=\"9\" href=\"data:image/png;base64,AAAA\"/>", "<a xl:href=\"http://x\"><path d=\"M1 2L3 4L5 0z\"/></a>"],
            &["", "<i:e/>", "<i:e i:a='1'>t<i:f/></i:e>", "<e xmlns=\"http://e\" b='2'><f/></e>", "<path i:a='1' d=\"M1 2L3 4L5 9z\"/>", "<unknown/>", "<unknown a='1'>x<path d=\"M1 2L3 4L5 9z\"/></unknown>", "<p:q xmlns:p='http://p'/>", "<p:path xmlns:p='http://www.w3.org/2000/svg' d='M1 2L3 4L5 9z'/>"],
        ],
        all_configs(),
        wellformed,
    ));
    // longer names of namespaces: what is left of foreign elements and attributes needs their declarations
    const PREFIX: &[&str] = &["i", "in", "ink", "inks", "inkscape", "sodipodi", "s1", "a-b", "a.b", "_", "\u{e9}a", "xlinks", "xmlsvg", "xm", "svgs"];
    let with = |s: &[&str]| -> Vec<String> { s.iter().flat_map(|s| if s.contains('P') { PREFIX.iter().map(|p| s.replace('P', p)).collect() } else { vec![s.to_string()] }).collect() };
    let decl = with(&["", " xmlns:P='http://p'", " xmlns:P='http://p' P:v='1'"]);
    let gr = with(&["", " xmlns:P='http://p'", " xmlns:P='http://q' P:v='1'"]);
    let el = with(&["", "<P:e/>", "<P:e P:a='1' b='2'>t</P:e>", "<path P:a='1' d='M1 2L3 4L5 9z'/>", "<metadata><P:e/></metadata>"]);
    let dims = [decl.len(), gr.len(), el.len()];
    r.explore(family(
        "names of prefixes",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            // of the prefixes at most two that differ, and the same or one next to it
            let used = |s: &str| PREFIX.iter().position(|p| s.contains(&format!("{}:", p)) && (s.contains(&format!("xmlns:{}=", p)) || s.contains(&format!("<{}:", p)) || s.contains(&format!(" {}:", p))));
            let u: Vec<usize> = [&decl[k[0]], &gr[k[1]], &el[k[2]]].iter().filter_map(|s| used(s)).collect();
            if u.iter().any(|a| u.iter().any(|b| a.abs_diff(*b) > 1)) {
                return None;
            }
            Some(format!("<svg xmlns=\"http://www.w3.org/2000/svg\"{}><g fill='red'{}><path d='M1 2L3 4L5 0z'/>{}</g></svg>", decl[k[0]], gr[k[1]], el[k[2]]))
        },
        all_configs(),
        wellformed,
    ));
    // numbers, lengths, colours as the writer may spell them
    r.explore(grid(
        "spelling of values",
        "<g transform=\"{0}\"><path d=\"{1}\" fill=\"{2}\" stroke=\"{2}\" stroke-width=\"{3}\" stroke-dasharray=\"{4}\"/><rect width=\"{3}\" height=\"9\" rx=\"{3}\"/></g>",
        &[
            &["", "translate(1)", "translate(1e-7 1e7)", "scale(-.5)", "rotate(30)", "matrix(1e-5 0 0 1e5 -0 0)", "rotate(30 1 2) skewX(10)", "scale(1e10)", "matrix(1 0 0 1 0 0)", "translate(-.5-.5)", "scale(0)", "matrix(.000000001 0 0 1 0 0)"],
            &["M1e-7 1e7L-.5-.5 3 3z", "M.5.5l1e-9 1e9zm1 1h1v1z", "M0 0A1 1 0 01.5.5z", "M-1-1a1e3 1e3-30 1 0 1e2.5z", "M1 1C.1.2.3.4.5.6S-1-2-3-4", "M 100000000000 .00000000001 L 1 1 0 5", "M1 1h1e20v-1e20z"],
            &["red", "#ABCDEF", "rgb(10%,20%,30%)", "rgb(1, 2,3)", "none", "#aabbcc", "LightGoldenrodYellow"],
            &["1", "1e-7", "1e10", ".5px", "3em", "1.23456789mm", "50%", "-0", "+1"],
            &["none", "1,2", "1 2em", ".5 .5", "1e-9 5", "0 0", "10% 5"],
        ],
        vec![
            config(&[]),
            solo(&[]),
            config(&["--join-style-attributes=all", "--list-separator=comma", "--join-arcto-flags=true"]),
            config(&["--list-separator=comma-space", "--apply-transform-to-paths=true", "--indent=tabs"]),
            config(&["--properties-precision=1", "--transforms-precision=1", "--coordinates-precision=1", "--paths-coordinates-precision=1"]),
            config(&["--properties-precision=12", "--transforms-precision=12", "--coordinates-precision=12", "--paths-coordinates-precision=12"]),
            config(&["--trim-paths=false", "--trim-colors=false", "--simplify-transforms=false", "--use-implicit-cmds=false", "--remove-dupl-cmd-in-paths=false"]),
        ],
        wellformed,
    ));
    let cap = if t { 1_000_000 } else { 130_000 };
    crate::corpus(r, move |mut f| {
        if f.size > cap {
            return None;
        }
        f.configs = if t {
            vec![config(&[]), solo(&[]), config(&["--join-style-attributes=all", "--list-separator=comma", "--apply-transform-to-paths=true", "--indent=none"])]
        } else if f.size < 40_000 {
            vec![config(&["--join-style-attributes=all"]), config(&[])]
        } else {
            vec![config(&["--join-style-attributes=all"])]
        };
        f.depth = 1;
        f.next = vec![];
        f.check = Box::new(wellformed);
        Some(f)
    });
}

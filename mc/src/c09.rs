//! C09: what can't be handled is refused, and nothing else is.
//!
//! Oracle: an independent reading of the document decides which reasons for a refusal it has; the outcome of
//! cleaning has to be a refusal for one of these reasons, or a result if there is none.
use crate::bin::*;
use crate::engine::*;
use crate::fam::*;
use crate::style::Styles;
use crate::subj;
use crate::xml::{self, Xml};

const EVENTS: &[&str] = &[
    "onfocusin", "onfocusout", "onactivate", "onclick", "onmousedown", "onmouseup", "onmouseover", "onmousemove", "onmouseout", "onload",
    "onunload", "onabort", "onerror", "onresize", "onscroll", "onzoom", "onbegin", "onend", "onrepeat",
];
const ANIMATION: &[&str] = &["animate", "animateColor", "animateMotion", "animateTransform", "set"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Scripting,
    Animation,
    Conditional,
    External,
    Unresolved,
    NoOffset,
}
use Why::*;

/// What an error message says.
fn class(e: &str) -> Option<Why> {
    if e.contains("scripting is not supported") {
        Some(Scripting)
    } else if e.contains("animation is not supported") {
        Some(Animation)
    } else if e.contains("conditional processing") {
        Some(Conditional)
    } else if e.contains("external object") {
        Some(External)
    } else if e.contains("failed to resolve") {
        Some(Unresolved)
    } else if e.contains("'offset' is missing in the 'stop'") {
        Some(NoOffset)
    } else {
        None
    }
}

/// Elements of our documents which look like ones of SVG.
const UNKNOWN: &[&str] = &["foo", "scripts", "Script", "animation"];

/// (reasons, what might be one)
///
/// `dropped`: elements which aren't SVG go with everything they have.
fn reasons(x: &Xml, dropped: bool) -> (Vec<Why>, Vec<Why>) {
    let mut must = vec![];
    let mut may = vec![];
    let st = Styles::new(x);
    let all = x.all_elems();
    let svg = |n: usize| !x.name(n).contains(':') && !UNKNOWN.contains(&x.name(n));
    let mut used: Option<Vec<usize>> = None;
    for &n in &all {
        if !svg(n) {
            continue;
        }
        let name = x.name(n);
        let outer = must;
        must = vec![];
        if name == "script" {
            must.push(Scripting);
        }
        if ANIMATION.contains(&name) {
            must.push(Animation);
        }
        for (k, v) in x.attrs(n) {
            if EVENTS.contains(&k.as_str()) {
                must.push(Scripting);
            }
            if (k == "requiredFeatures" || k == "systemLanguage") && !v.trim().is_empty() {
                must.push(Conditional);
            }
            if k == "xlink:href" && !v.is_empty() && !v.starts_with('#') && !["a", "image", "font-face-uri", "feImage"].contains(&name) {
                must.push(External);
            }
            if k == "xlink:href" && v.is_empty() {
                // refers to the document itself
                may.push(External);
            }
        }
        for (p, _, _) in crate::style::PROPS {
            let v = match st.own(n, p) {
                Some(v) => v.trim(),
                None => continue,
            };
            let anc = |p: &str| {
                let mut m = n;
                let mut found = false;
                while m != xml::ROOT {
                    m = x.parent(m);
                    if m != xml::ROOT && svg(m) && st.own(m, p).is_some() {
                        found = true;
                    }
                }
                found
            };
            if v == "inherit" && !anc(p) {
                must.push(Unresolved);
            }
            if v == "currentColor" && *p != "color" {
                let used = used.get_or_insert_with(|| {
                    all.iter()
                        .filter(|u| x.name(**u) == "use")
                        .filter_map(|u| x.attr(*u, "xlink:href").and_then(|h| h.strip_prefix('#')))
                        .filter_map(|id| all.iter().copied().find(|e| x.attr(*e, "id") == Some(id)))
                        .collect()
                });
                if st.own(n, "color").is_none() && !anc("color") {
                    must.push(Unresolved);
                } else if used.iter().any(|u| *u == n || x.is_ancestor(*u, n)) {
                    // the color may come from the 'use'
                    may.push(Unresolved);
                }
            }
        }
        if name == "linearGradient" || name == "radialGradient" {
            let mut first = true;
            for c in x.elem_children(n) {
                if x.name(c) == "stop" {
                    if !first && x.attr(c, "offset").is_none() {
                        must.push(NoOffset);
                    }
                    first = false;
                }
            }
        }
        let mut m = n;
        let mut foreign = false;
        while m != xml::ROOT {
            foreign |= x.name(m).contains(':') || UNKNOWN.contains(&x.name(m));
            m = x.parent(m);
        }
        // the reader takes style sheets out
        if name == "style" || (foreign && dropped) {
            may.extend(must.drain(..));
        }
        must.extend(outer);
    }
    (must, may)
}

fn verdict(c: &Case, note: &mut Note) -> Result<(), String> {
    judge(c, note, true)
}

fn judge(c: &Case, note: &mut Note, strict: bool) -> Result<(), String> {
    let x = match c.pre.xml() {
        Ok(x) => x,
        Err(e) => return Err(format!("HARNESS: the document can't be read: {}", e)),
    };
    let (must, may) = reasons(x, c.cfg.on("remove-nonsvg-elements"));
    note.nontrivial = !must.is_empty();
    match c.out {
        Outcome::Panic(p) => Err(format!("panic: {}", p)),
        Outcome::Ok(o) => {
            note.observed = fnv(o);
            if must.is_empty() {
                return Ok(());
            }
            Err(format!("accepted although it has content that can't be handled: {:?}", must))
        }
        Outcome::Err(e) => {
            note.observed = fnv(e);
            match class(e) {
                Some(w) if must.contains(&w) || may.contains(&w) => Ok(()),
                Some(w) => Err(format!("refused because of {:?} but the document has {:?}: {}", w, must, e)),
                None if strict && must.is_empty() => Err(format!("refused without a reason: {}", e)),
                // an error of the reader comes first
                None => Ok(()),
            }
        }
    }
}

/// Elements that are refused.
const BAD: &[&str] = &[
    "<script/>",
    "<script type='text/ecmascript'><![CDATA[ a<b ]]></script>",
    "<script xlink:href='#g'/>",
    "<animate attributeName='x' from='1' to='2' dur='1s'/>",
    "<animateColor/>",
    "<animateMotion path='M 0 0 L 5 5'/>",
    "<animateTransform type='rotate'/>",
    "<set/>",
    "<g><g><set attributeName='fill' to='red'/></g></g>",
    "<foo><script/></foo>",
];
/// Elements that are not.
const GOOD: &[&str] = &[
    "<m:script/>",
    "<m:set/>",
    "<m:animate m:onclick='1'/>",
    "<m:e onclick='1' requiredFeatures='2' systemLanguage='en'/>",
    "<m:e xlink:href='http://x'/>",
    "<!--<script/>-->",
    "<desc>script set onclick=''</desc>",
    "<desc><![CDATA[<script/><set/>]]></desc>",
    "<metadata><m:RDF><m:set><m:script/></m:set></m:RDF></metadata>",
    "<scripts/>",
    "<Script/>",
    "<animation/>",
    "<g id='script' class='animate set' m:onload='a()'/>",
    "<g requiredFeatures='' systemLanguage=''/>",
    "<switch><g/></switch>",
    "<view id='set'/>",
    "<a xlink:href='script'><g/></a>",
    "<image xlink:href='a.png' width='4' height='5'/>",
    "<cursor id='v'/>",
    "<foreignObject><m:p/></foreignObject>",
    "<style type='text/css'/>",
    "<font-face><font-face-src><font-face-uri xlink:href='a.svg#b'/></font-face-src></font-face>",
    "<linearGradient id='lz'><stop/><stop offset='1'/></linearGradient>",
    "<g onClick='a()' on='b' onxyz='c'/>",
    "<g href='http://x'/>",
    "<use xlink:href='#h'/>",
    "<path d='M 1 2 L 3 4' fill='#f00' color='red'/>",
];

const GOODATTRS: &[&str] = &[
    "", "requiredFeatures=''", "systemLanguage=''", "m:onclick='a()'", "m:requiredFeatures='x'", "m:systemLanguage='en'", "onClick='a()'", "on='x'", "ONLOAD='a'",
    "data-onclick='a()'", "requiredExtensions=''", "class='onclick'", "id='onload'", "style='cursor:pointer'", "m:href='http://y'", "href='http://y'", "requiredfeatures='x'", "xml:lang='en'", "lang='en'",
];

/// Elements that can have a link, and the rest of them.
const LINKERS: &[(&str, &str)] = &[
    ("use", ""), ("linearGradient", ""), ("radialGradient", ""), ("pattern", " width='3' height='4'"), ("filter", ""), ("textPath", ""), ("tref", ""), ("a", ""), ("image", " width='3' height='4'"),
    ("feImage", ""), ("font-face-uri", ""), ("altGlyph", ""), ("glyphRef", ""), ("cursor", ""), ("mpath", ""), ("color-profile", ""), ("rect", " width='3' height='4'"), ("g", ""), ("path", " d='M 1 2 L 3 4'"),
    ("text", ""), ("tspan", ""), ("symbol", ""), ("svg", ""), ("clipPath", ""), ("mask", ""), ("marker", ""), ("switch", ""), ("stop", " offset='1'"), ("m:use", ""), ("feFlood", ""), ("foreignObject", ""), ("defs", ""), ("title", ""), ("view", ""),
];
const LINKS: &[Option<&str>] = &[
    None, Some(""), Some("#h"), Some("#z"), Some("http://x/y.svg"), Some("y.svg#h"), Some("data:image/png;base64,iVBORw0KGgo="), Some("y"), Some("file:///y"),
];

/// Elements with attributes that are refused or not.
const HOSTS: &[&str] = &["g", "path", "rect", "use", "a", "text", "tspan", "svg", "defs", "symbol", "clipPath", "linearGradient", "stop", "filter", "feFlood", "switch", "title", "m:e", "foo", "font-face", "foreignObject", "image"];
const HATTRS: &[&str] = &[
    "", "requiredFeatures=''", "requiredFeatures='x'", "systemLanguage=''", "systemLanguage='en'", "requiredFeatures='' systemLanguage='en'", "requiredFeatures='x' systemLanguage=''", "requiredExtensions='y'",
    "onload=''", "onclick='a()'", "onbegin='a()'", "m:onload='a()'", "xlink:href='http://x'", "xlink:href=''", "xlink:title='http://x'",
];

/// (property, values)
const INHERITED: &[(&str, &str)] = &[
    ("fill", "red"), ("fill-opacity", ".5"), ("fill-rule", "evenodd"), ("stroke", "blue"), ("stroke-width", "5"), ("stroke-opacity", ".5"), ("stroke-linecap", "round"), ("stroke-linejoin", "round"), ("stroke-miterlimit", "8"),
    ("stroke-dasharray", "1 2"), ("stroke-dashoffset", "3"), ("opacity", ".5"), ("visibility", "hidden"), ("display", "inline"), ("overflow", "visible"), ("clip-path", "none"), ("clip-rule", "evenodd"), ("mask", "none"), ("filter", "none"),
    ("marker-start", "none"), ("marker-end", "none"), ("color", "red"), ("stop-color", "red"), ("stop-opacity", ".5"), ("flood-color", "red"), ("flood-opacity", ".5"), ("lighting-color", "red"), ("font-family", "Arial"), ("font-size", "9"),
    ("font-weight", "bold"), ("font-style", "italic"), ("font-variant", "small-caps"), ("text-anchor", "middle"), ("text-decoration", "underline"), ("letter-spacing", "2"), ("word-spacing", "2"), ("baseline-shift", "sub"), ("direction", "rtl"),
    ("writing-mode", "tb"), ("color-interpolation", "linearRGB"), ("color-interpolation-filters", "sRGB"), ("shape-rendering", "crispEdges"), ("image-rendering", "optimizeSpeed"), ("pointer-events", "none"), ("cursor", "help"),
];

const DOC: &str = "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:m='urn:m' viewBox='0 0 200 100'";

fn few() -> Vec<Config> {
    vec![config(&[]), solo(&[]), config(&["--apply-transform-to-paths=true", "--remove-gradient-attributes=true", "--join-arcto-flags=true", "--join-style-attributes=all"])]
}

fn nodup(s: String) -> Option<String> {
    match xml::parse(&s) {
        Ok(ref x) => {
            let mut ids = std::collections::HashSet::new();
            if x.all_elems().iter().filter_map(|n| x.attr(*n, "id")).all(|i| ids.insert(i.to_string())) {
                Some(s)
            } else {
                None
            }
        }
        Err(e) => {
            if !e.starts_with("duplicate attribute") {
                panic!("bad document: {} {}", e, s);
            }
            None
        }
    }
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let some = if t { all_configs } else { few };
    // elements
    let (nb, ng, np) = (BAD.len(), GOOD.len(), subj::PLACES);
    let nodes: Vec<&'static str> = BAD.iter().chain(GOOD).cloned().collect();
    let all = nodes.len();
    let dims = [np, all];
    let n2 = nodes.clone();
    r.explore(family("an element in every place, all options", product(&dims), move |i| {
        let k = radix(i, &dims);
        if [0, 32].contains(&k[0]) && !n2[k[1]].starts_with("<!") {
            return None;
        }
        nodup(subj::place(&[(k[0], n2[k[1]])]))
    }, all_configs(), verdict));
    let dims = [np - 2, np - 2, all, all];
    let n2 = nodes.clone();
    r.explore(family("two elements in every two places", product(&dims), move |i| {
        let k = radix(i, &dims);
        // the quick run has all pairs of one refused element and an accepted one
        if !t && ((k[2] < nb) == (k[3] < nb) || (k[0] + k[1] + k[2] + k[3]) % 3 != 0) {
            return None;
        }
        nodup(subj::place(&[(k[0] + 1, n2[k[2]]), (k[1] + 1, n2[k[3]])]))
    }, vec![config(&[])], verdict));
    let _ = ng;
    // attributes
    let mut attrs: Vec<String> = vec![];
    for e in EVENTS {
        attrs.push(format!("{}='a()'", e));
        attrs.push(format!("{}=''", e));
    }
    for a in ["requiredFeatures", "systemLanguage"] {
        for v in ["x", "en", "en, de", " ", "http://www.w3.org/TR/SVG11/feature#Shape"] {
            attrs.push(format!("{}='{}'", a, v));
        }
    }
    attrs.push("requiredFeatures='' systemLanguage='en'".into());
    attrs.push("requiredFeatures='x' systemLanguage=''".into());
    attrs.push("m:onclick='' onclick=''".into());
    attrs.extend(GOODATTRS.iter().map(|s| s.to_string()));
    let dims = [subj::CARRIERS.len(), attrs.len()];
    r.explore(family("attributes on every element, all options", product(&dims), move |i| {
        let k = radix(i, &dims);
        nodup(subj::carry(k[0], &attrs[k[1]])?)
    }, all_configs(), verdict));
    let (nh, na) = (HOSTS.len(), HATTRS.len());
    let dims = [nh, na, nh, na, 2];
    r.explore(family("attributes of two elements", product(&dims), move |i| {
        let k = radix(i, &dims);
        if HATTRS[k[1]].contains("http") && HATTRS[k[3]].contains("http") && !t {
            return None;
        }
        let (a, b) = (HOSTS[k[0]], HOSTS[k[2]]);
        let s = if k[4] == 0 {
            format!("{}><{} {}/><{} {}/></svg>", DOC, a, HATTRS[k[1]], b, HATTRS[k[3]])
        } else {
            format!("{}><{} {}><{} {}/></{}></svg>", DOC, a, HATTRS[k[1]], b, HATTRS[k[3]], a)
        };
        nodup(s)
    }, if t { few() } else { vec![config(&[]), solo(&[])] }, verdict));
    // links
    let (nl, nv) = (LINKERS.len(), LINKS.len());
    let link = |k: usize, v: usize, body: &str| {
        let (e, rest) = LINKERS[k];
        match LINKS[v] {
            Some(h) => format!("<{} xlink:href='{}'{}>{}</{}>", e, h, rest, body, e),
            None => format!("<{}{}>{}</{}>", e, rest, body, e),
        }
    };
    let dims = [nl, nv, 3];
    r.explore(family("links of every element, all options", product(&dims), move |i| {
        let k = radix(i, &dims);
        let l = link(k[0], k[1], "");
        // a text has to be inside of an element that can have it
        let s = match k[2] {
            0 => l,
            1 => format!("<defs>{}</defs>", l),
            _ => format!("<g><text>a{}</text></g>", l),
        };
        nodup(format!("{}><defs><path id='h' d='M 0 0 L 5 6'/></defs><use xlink:href='#h'/>{}</svg>", DOC, s))
    }, all_configs(), verdict));
    let dims = [nl, nv, nl, nv, 2];
    r.explore(family("links of two elements", product(&dims), move |i| {
        let k = radix(i, &dims);
        let s = if k[4] == 0 {
            format!("{}{}", link(k[0], k[1], ""), link(k[2], k[3], ""))
        } else {
            link(k[0], k[1], &link(k[2], k[3], ""))
        };
        nodup(format!("{}><defs><path id='h' d='M 0 0 L 5 6'/></defs>{}</svg>", DOC, s))
    }, if t { few() } else { vec![config(&[])] }, verdict));
    // inherit
    // where the value is: root, group, inner group, a sibling, the element itself; how both are written
    const HOW: &[&str] = &["attribute", "style"];
    let ni = INHERITED.len();
    const WHAT: &[(&str, &str)] = &[("g", "<circle r='4'/>"), ("path", ""), ("text", "a"), ("tspan", "b"), ("svg", ""), ("clipPath", ""), ("stop", ""), ("feFlood", ""), ("linearGradient", ""), ("use", "")];
    let dims = [ni, WHAT.len(), 16, HOW.len(), HOW.len(), 3];
    r.explore(family("inherit", product(&dims), move |i| {
        let k = radix(i, &dims);
        let (p, v) = INHERITED[k[0]];
        let w = |how: usize, v: &str| if how == 0 { format!(" {}='{}'", p, v) } else { format!(" style='{}:{}'", p, v) };
        let val = w(k[3], v);
        let at = |b: usize| if k[2] >> b & 1 == 1 { val.as_str() } else { "" };
        let (e, body) = WHAT[k[1]];
        // neighbours: nothing, an attribute in front, another inherit that can be resolved
        let more = ["", " id='b' class='c'", " fill-rule='inherit'"][k[5]];
        if k[5] == 2 && p == "fill-rule" {
            return None;
        }
        let outer = if k[5] == 2 { " fill-rule='evenodd'" } else { "" };
        nodup(format!(
            "{}{}{}><g{}><g{}><circle r='2'{}/><{}{}{}>{}</{}></g></g></svg>",
            DOC, at(0), outer, at(1), at(2), at(3), e, more, w(k[4], "inherit"), body, e
        ))
    }, if t { few() } else { vec![config(&[])] }, verdict));
    // currentColor
    let dims = [5, WHAT.len(), 32, 2, 3];
    r.explore(family("currentColor", product(&dims), move |i| {
        let k = radix(i, &dims);
        let p = ["fill", "stroke", "stop-color", "flood-color", "lighting-color"][k[0]];
        let at = |b: usize| if k[2] >> b & 1 == 1 { " color='red'" } else { "" };
        let (e, body) = WHAT[k[1]];
        let w = if k[3] == 0 { format!(" {}='currentColor'", p) } else { format!(" style='{}:currentColor'", p) };
        let u = ["", "<use xlink:href='#x'/>", "<use xlink:href='#y'/>"][k[4]];
        nodup(format!(
            "{}{}>{}<g{} id='y'><g{}><circle r='2'{}/><{}{}{} id='x'>{}</{}></g></g></svg>",
            DOC, at(0), u, at(1), at(2), at(3), e, at(4), w, body, e
        ))
    }, if t { all_configs() } else { few() }, verdict));
    // stops
    const STOPS: &[&str] = &[
        "<stop offset='0'/>", "<stop offset='50%' stop-color='red'/>", "<stop stop-color='red'/>", "<stop style='stop-color:red' id='{}'/>", "<!--c-->", "<desc>d</desc>", "<m:stop/>", "<stop offset='1' stop-opacity='.5'><desc/></stop>",
    ];
    let len = if t { 5 } else { 4 };
    let dims = [seq_count(STOPS.len(), len) as usize, 2, 4];
    r.explore(family("stops of a gradient", product(&dims), move |i| {
        let k = radix(i, &dims);
        let g = ["linearGradient", "radialGradient"][k[1]];
        let s: String = seq(k[0] as u64, STOPS.len()).iter().enumerate().map(|(n, j)| STOPS[*j].replace("{}", &format!("s{}", n))).collect();
        let l = format!("<{} id='l'>{}</{}>", g, s, g);
        nodup(match k[2] {
            0 => format!("{}><defs>{}</defs><path fill='url(#l)' d='M 0 0 L 5 6 L 9 2'/></svg>", DOC, l),
            1 => format!("{}>{}</svg>", DOC, l),
            2 => format!("{}><linearGradient id='k'><stop/><stop offset='1'/></linearGradient><pattern id='p'><g>{}</g></pattern></svg>", DOC, l),
            _ => format!("{}><defs>{}<linearGradient id='k' xlink:href='#l'/></defs><path fill='url(#k)' d='M 0 0 L 5 6 L 9 2'/><g>{}</g></svg>", DOC, l, s.replace("id='s", "id='t")),
        })
    }, if t { few() } else { vec![config(&[]), solo(&[])] }, verdict));
    // no cleaned output comes out of the tool
    let offenders: Vec<String> = {
        let mut v: Vec<String> = nodes.iter().map(|n| subj::place(&[(20, n)])).filter(|s| nodup(s.clone()).is_some()).collect();
        for a in HATTRS {
            v.push(subj::carry(2, a).unwrap());
        }
        v.push(svg("<g fill='inherit'><circle r='4'/></g>"));
        v.push(svg("<g fill='currentColor'><circle r='4'/></g>"));
        v.push(svg("<linearGradient id='l'><stop offset='0'/><stop/></linearGradient>"));
        v
    };
    let dims = [offenders.len(), 5, 4];
    r.scenarios("no cleaned output of a refused document", product(&dims), |i, w| {
        let k = radix(i, &dims);
        let text = &offenders[k[0]];
        let x = xml::parse(text).unwrap();
        let (must, may) = reasons(&x, k[2] != 3);
        w.reset();
        w.put("in.svg", text.as_bytes());
        if k[1] == 4 {
            w.put("out.svg", b"older");
        }
        let mut args: Vec<String> = [&[][..], &["--multipass"], &["--quiet"], &["--no-defaults", "--allow-bigger-file"]][k[2]].iter().map(|s| s.to_string()).collect();
        let v: &[&str] = [&["in.svg", "out.svg"][..], &["-c", "in.svg"], &["in.svg", "in.svg"], &["-c", "-"], &["in.svg", "out.svg"]][k[1]];
        args.extend(v.iter().map(|s| s.to_string()));
        let res = w.run(&args, if k[1] == 3 { Some(text.as_bytes()) } else { None }, &[]);
        let mut s = Scn::new(text.clone(), args.join(" "));
        s.runs = 1;
        s.output = res.text();
        s.nontrivial = !must.is_empty();
        if let Err(e) = res.sane() {
            return Some(s.fail(e));
        }
        s.failed = res.reported_error();
        let got = match k[1] {
            1 | 3 => Some(res.stdout.clone()).filter(|o| !o.is_empty()),
            2 => w.get("in.svg"),
            _ => w.get("out.svg"),
        };
        let left: Option<Vec<u8>> = match k[1] {
            2 => Some(text.as_bytes().to_vec()),
            4 => Some(b"older".to_vec()),
            _ => None,
        };
        if must.is_empty() {
            if s.failed && !res.stderr.contains("bigger") && !class(&res.stderr).map_or(false, |c| may.contains(&c)) {
                return Some(s.fail("refused without a reason".into()));
            }
        } else {
            if !s.failed || !class(&res.stderr).map_or(false, |c| must.contains(&c)) {
                return Some(s.fail(format!("the reason is not reported: {:?}", must)));
            }
            if got != left {
                return Some(s.fail("a refused document has an output".into()));
            }
        }
        Some(s)
    });
    // the documents of the other properties, whatever the options
    crate::corpus(r, move |mut f| {
        if f.name.starts_with("populations of ids") || f.size > if t { 60_000 } else { 6_000 } {
            return None;
        }
        f.configs = some();
        f.next = vec![];
        f.depth = 1;
        f.check = Box::new(|c: &Case, n: &mut Note| {
            // what isn't XML is for others
            if c.pre.xml().is_err() || c.pre.text.contains("<!ENTITY") || c.pre.text.contains("<style") {
                return Ok(());
            }
            judge(c, n, false)
        });
        Some(f)
    });
}

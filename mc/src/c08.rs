//! C08: text keeps its characters, layout attributes and text properties.
use crate::engine::*;
use crate::fam::*;

fn cfgs() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&[]),
        solo(&["remove-text-attributes"]),
        solo(&["remove-default-attributes"]),
        solo(&["group-by-style"]),
        solo(&["ungroup-groups"]),
        solo(&["resolve-use", "ungroup-groups", "ungroup-defs", "group-by-style"]),
        without("remove-text-attributes"),
        without("ungroup-groups"),
        without("group-by-style"),
        config(&["--join-style-attributes=all", "--indent=none"]),
    ]
}
fn few() -> Vec<Config> {
    vec![config(&[]), solo(&[]), solo(&["remove-text-attributes"]), config(&["--join-style-attributes=all", "--group-by-style=false", "--indent=4"])]
}

/// (property, values)
const PROPS: &[(&str, &[&str])] = &[
    ("font-family", &["Arial", "serif", "'A B', serif"]),
    ("font-size", &["20", "12", "2em", "50%", "larger", "medium"]),
    ("font-style", &["italic", "normal"]),
    ("font-variant", &["small-caps", "normal"]),
    ("font-weight", &["bold", "normal", "700"]),
    ("font-stretch", &["condensed", "normal"]),
    ("font-size-adjust", &["0.5", "none"]),
    ("letter-spacing", &["2", "normal", "1em"]),
    ("word-spacing", &["3", "normal", "-1"]),
    ("kerning", &["auto", "0", "2"]),
    ("text-anchor", &["start", "middle", "end"]),
    ("text-decoration", &["underline", "none", "line-through"]),
    ("direction", &["rtl", "ltr"]),
    ("unicode-bidi", &["embed", "normal"]),
    ("writing-mode", &["tb", "lr-tb", "lr"]),
    ("glyph-orientation-vertical", &["auto", "90"]),
    ("glyph-orientation-horizontal", &["0deg", "90"]),
    ("baseline-shift", &["baseline", "sub", "10%"]),
    ("text-rendering", &["auto", "geometricPrecision"]),
    ("fill", &["red", "#000", "none"]),
    ("stroke-width", &["1em", "2"]),
    ("visibility", &["hidden", "visible"]),
    ("opacity", &[".5", "1"]),
    ("xml:space", &["preserve", "default"]),
];

/// Contents below the three levels; {0}..{2} are the attributes of levels 1-3.
const SHAPES: &[&str] = &[
    "<g {0}><g {1}><text {2} y='3'>ab <tspan>c</tspan> d</text><path d='M 1 2 L 30 40 L 5 6'/></g></g>",
    "<g {0}><text {1} x='1'>a b<tspan {2} dx='2'>  c  </tspan> d</text><circle r='4'/></g>",
    "<g {0}><text {1}><tspan {2}>ab</tspan></text></g>",
    "<text {0}>a<tspan {1}>b<tspan {2}>c</tspan></tspan>d</text>",
    "<text {0}>a</text><text {1}>a</text><text {2}>a</text>",
    "<g {0}><path d='M 1 2 L 30 40 L 5 6'/><g {1}><circle r='4'/></g></g><text {2}>b</text>",
    "<defs><text id='t' {0}>abc</text></defs><g {1}><use xlink:href='#t' {2}/></g>",
    "<defs><g id='t' {0}><text>abc</text></g></defs><g {1}><use xlink:href='#t' {2}/><use xlink:href='#t' x='3'/></g>",
    "<symbol id='t' {0}><text {1}>abc</text></symbol><use xlink:href='#t' {2}/>",
    "<g {0}><text display='none' id='s'>tref</text><text {1}><tref {2} xlink:href='#s'/>u</text></g>",
    "<g {0}><pattern id='p' width='9' height='9' patternUnits='userSpaceOnUse' {1}><text {2}>ab</text></pattern></g><rect width='40' height='30' fill='url(#p)'/>",
    "<g {0}><clipPath id='p' {1}><text {2}>ab</text></clipPath></g><rect width='40' height='30' clip-path='url(#p)'/>",
    "<g {0}><mask id='p' {1}><text {2} color='#fff'>ab</text><rect width='3' height='4' fill='#fff'/></mask></g><rect width='40' height='30' mask='url(#p)'/>",
    "<marker id='p' {0}><g {1}><text {2}>ab</text></g></marker><path d='M 1 2 L 30 40 L 5 6' marker-mid='url(#p)'/>",
    "<g {0}><switch {1}><text {2}>ab</text><text>cd</text></switch></g>",
    "<a xlink:href='http://x' {0}><text {1}>a<a xlink:href='http://y' {2}>b</a></text></a>",
    "<svg {0}><text {1}><textPath xlink:href='#q' {2}>ab cd</textPath></text></svg><path id='q' d='M 1 2 L 30 40' fill='none'/>",
    "<g {0}><circle r='1em' {1}/><rect {2} width='2ex' height='3' stroke='red' stroke-dasharray='.2em 3'/></g>",
    "<g {0}><g {1}><use xlink:href='#q' {2} x='1em'/></g></g><defs><path id='q' d='M 1 2 L 30 40 L 4 5' stroke='red' stroke-width='.2em'/></defs>",
    // one font-relative length each
    "<g {0}><path {1} d='M 1 2 L 30 40' stroke='red' stroke-dasharray='.2em 3'/><circle r='3' {2}/></g>",
    "<g {0}><g {1} stroke-dasharray='.2em 3' stroke='red'><path d='M 1 2 L 30 40'/><path d='M 5 2 L 30 40'/></g></g><text {2}>a</text>",
    "<g {0}><svg width='2em' height='30' viewBox='0 0 9 9' {1}><rect {2} width='10' height='20'/></svg></g>",
    "<g {0}><g {1}><use xlink:href='#q' {2}/></g></g><defs><path id='q' d='M 1 2 L 30 40 L 4 5' stroke='red' stroke-width='.2em'/></defs>",
    "<g {0}><use {1} xlink:href='#u'/></g><defs><g id='u'><use {2} xlink:href='#t'/></g><text id='t'>ab</text></defs>",
    "<use {0} xlink:href='#u'/><use xlink:href='#u' x='3'/><defs><g id='u'><use {1} xlink:href='#q'/></g><rect {2} id='q' width='1em' height='20'/></defs>",
    "<g {0}><use {1} xlink:href='#u' width='9' height='2em'/></g><use xlink:href='#u' y='3' {2}/><defs><symbol id='u' viewBox='0 0 9 9'><circle r='3'/></symbol></defs>",
    "<g {0}><pattern id='p' width='2em' height='9' patternUnits='userSpaceOnUse' {1}><circle {2} r='3'/></pattern></g><rect width='40' height='30' fill='url(#p)'/>",
    "<g {0}><mask id='p' x='.1em' y='0' width='30' height='30' maskUnits='userSpaceOnUse' {1}><g {2}><rect width='3' height='4' fill='#fff'/></g></mask></g><rect width='40' height='30' mask='url(#p)'/>",
    "<g {0}><linearGradient id='p' x2='2em' gradientUnits='userSpaceOnUse' {1}><stop {2} offset='0'/><stop offset='1' stop-color='red'/></linearGradient></g><rect width='40' height='30' fill='url(#p)'/>",
    "<g {0}><marker id='p' markerWidth='2em' {1}><circle {2} r='3'/></marker></g><path d='M 1 2 L 30 40 L 5 6' marker-mid='url(#p)'/>",
    "<g {0}><image {1} width='2em' height='9' xlink:href='data:image/png;base64,AA'/><switch {2}><circle r='1em'/></switch></g>",
    "<g {0}><text {1}/><text {2}> </text><circle r='3'/></g><text> <tspan/></text><text>x</text>",
];

/// Properties that are an attribute only.
fn put_in(shape: &str, slots: &[String]) -> Option<String> {
    // xml:space on text content elements is mishandled by svgdom
    if slots.iter().enumerate().any(|(i, a)| {
        a.starts_with("xml:space") && ["tspan", "a", "textPath", "tref"].iter().any(|t| shape.contains(&format!("<{} {{{}}}", t, i)))
    }) {
        return None;
    }
    // a preserved lone blank is lost by the svgdom writer
    if shape.contains("> </text>") && slots.iter().any(|a| a.contains("preserve")) {
        return None;
    }
    // sizes with no numeric value can't be combined when definitions are moved
    if shape.contains("id='p'") && slots.iter().any(|a| a.contains("larger")) {
        return None;
    }
    Some(svg(&fill(shape, &slots.iter().map(|x| vec![x.clone()]).collect::<Vec<_>>(), &[0, 0, 0])))
}

fn put(p: &str, v: &str, style: bool) -> String {
    if v.is_empty() {
        String::new()
    } else if style && !v.contains('\'') && !p.starts_with("xml") {
        format!("style=\"{}:{}\"", p, v)
    } else {
        format!("{}=\"{}\"", p, v)
    }
}

/// `<tspan> </tspan>`
fn lone_blank(s: &str) -> bool {
    s.match_indices('<').any(|(i, _)| {
        let t = &s[i..];
        if !t.starts_with("<tspan") {
            return false;
        }
        let e = t.find('>').unwrap();
        if t[..e].ends_with('/') {
            return false;
        }
        let body = &t[e + 1..];
        let c = body.replace("<!--c-->", "").replace("&#32;", " ");
        let n = c.find('<').unwrap_or(c.len());
        n > 0 && c[..n].trim().is_empty() && c[n..].starts_with("</tspan")
    })
}

/// What an SVG font is made of: every element with its attributes, without those
/// that spell the value a missing attribute has. Nothing here is inherited.
fn fonts(x: &crate::xml::Xml) -> Vec<String> {
    let default = |tag: &str, k: &str| -> &'static str {
        match (tag, k) {
            ("font-face", "font-style") | ("font-face", "font-weight") => "all",
            ("font-face", "font-variant") | ("font-face", "font-stretch") => "normal",
            ("font-face", "units-per-em") => "1000",
            ("font-face", "slope") => "0",
            ("font-face", "unicode-range") => "U+0-10FFFF",
            ("font-face", "panose-1") => "0 0 0 0 0 0 0 0 0 0",
            ("font", "horiz-origin-x") | ("font", "horiz-origin-y") => "0",
            _ => "\u{0}",
        }
    };
    let mut v = vec![];
    for n in x.all_elems() {
        let tag = x.name(n);
        // where a font itself is does not matter
        let m = match x.name(x.parent(n)) {
            m if m.starts_with("font") => m,
            _ => "",
        };
        if !["font", "font-face", "font-face-src", "font-face-name", "font-face-format", "glyph", "missing-glyph", "hkern", "vkern"].contains(&tag) {
            continue;
        }
        let mut a: Vec<String> = x
            .attrs(n)
            .iter()
            .filter(|(k, w)| k != "id" && w != default(tag, k) && (tag == "font-face" || k != "fill" && k != "style"))
            .map(|(k, w)| match k.as_str() {
                "d" => format!("d={:?}", crate::geom::path(w)),
                _ => match w.parse::<f64>() {
                    Ok(f) => format!("{}={}", k, f),
                    Err(_) => format!("{}={}", k, w),
                },
            })
            .collect();
        a.sort();
        v.push(format!("{} in {}: {}", tag, m, a.join(" ")));
    }
    v
}
fn same_fonts(c: &Case, note: &mut Note) -> Result<(), String> {
    picture_and_ids(c, note)?;
    if let (Ok(a), Outcome::Ok(o)) = (c.pre.xml(), c.out) {
        let (a, b) = (fonts(a), fonts(&crate::xml::parse(o)?));
        if a != b {
            let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Err(format!("a font differs: {:?} became {:?}", a.get(k), b.get(k)));
        }
        // the content of the glyphs is drawn as any other content
        let open = |s: &str| {
            s.replace("<glyph ", "<g ").replace("</glyph>", "</g>").replace("<font ", "<g ").replace("</font>", "</g>")
        };
        let (a, b) = (open(c.pre.text), open(o));
        if let Some(d) = crate::render::diff(Pre::new(&a).render().as_ref()?, Pre::new(&b).render().as_ref()?, TOL, &mut String::new()) {
            return Err(format!("the content of a glyph differs: {}", d));
        }
    }
    Ok(())
}
const DESCRIPTORS: &[(&str, &[&str])] = &[
    ("font-style", &["normal", "italic"]),
    ("font-variant", &["normal", "small-caps"]),
    ("font-weight", &["normal", "400", "bold"]),
    ("font-stretch", &["normal", "condensed"]),
    ("font-size", &["12", "1em"]),
    ("unicode-range", &["U+0-10FFFF", "U+20-7F"]),
    ("units-per-em", &["1000", "1", "0", "2048"]),
    ("panose-1", &["0 0 0 0 0 0 0 0 0 0", "1 2 3 4 5 6 7 8 9 1"]),
    ("stemv", &["0", "1"]),
    ("stemh", &["0", "1"]),
    ("slope", &["0", "1", "-10"]),
    ("cap-height", &["0", "1"]),
    ("x-height", &["0", "1"]),
    ("accent-height", &["0", "1"]),
    ("ascent", &["0", "800"]),
    ("descent", &["0", "-200"]),
    ("widths", &["U+0 1"]),
    ("bbox", &["0 0 0 0", "1 2 3 4"]),
    ("ideographic", &["0"]),
    ("alphabetic", &["0", "1"]),
    ("mathematical", &["0"]),
    ("hanging", &["0"]),
    ("v-ideographic", &["0"]),
    ("v-alphabetic", &["0"]),
    ("v-mathematical", &["0"]),
    ("v-hanging", &["0"]),
    ("underline-position", &["0"]),
    ("underline-thickness", &["0", "1"]),
    ("strikethrough-position", &["0"]),
    ("strikethrough-thickness", &["1"]),
    ("overline-position", &["0"]),
    ("overline-thickness", &["1"]),
];
const GLYPHS: &[&str] = &[
    "",
    "<missing-glyph/>",
    "<missing-glyph d='M 0 0 L 10 0 L 5 8 Z' horiz-adv-x='0'/>",
    "<glyph unicode='a'/>",
    "<glyph unicode='b' d='M 0 0 H 10 V 0 L 10 0 Z' horiz-adv-x='500'/>",
    "<glyph unicode='ab' glyph-name='n' d='M 0 0 L 0 0' orientation='h' arabic-form='initial' lang='en' vert-origin-x='0' vert-origin-y='0' vert-adv-y='0'/>",
    "<glyph glyph-name='x' fill='#f00'><path d='M 1 2 L 30 40 L 5 6'/></glyph>",
    "<hkern u1='a' u2='b' k='0'/>",
    "<hkern g1='n' g2='x' k='1'/>",
    "<vkern u1='a' g2='x' k='10'/>",
];

pub fn run(r: &mut Run) {
    let t = r.thorough();
    // one property at three levels
    let total: Vec<(usize, usize, usize, usize)> = {
        let mut v = vec![];
        for (p, q) in PROPS.iter().enumerate() {
            let n = q.1.len() + 1;
            for a in 0..n {
                for b in 0..n {
                    for c in 0..n {
                        v.push((p, a, b, c));
                    }
                }
            }
        }
        v
    };
    let ns = SHAPES.len() as u64;
    let n = total.len() as u64 * ns * 2;
    let tot = total.clone();
    r.explore(family(
        "one text property at three levels",
        n,
        move |i| {
            let style = i % 2 == 1;
            let i = i / 2;
            let (p, a, b, c) = tot[(i / ns) as usize];
            let val = |k: usize| if k == 0 { "" } else { PROPS[p].1[k - 1] };
            let slots: Vec<String> = [a, b, c].iter().map(|k| put(PROPS[p].0, val(*k), style)).collect();
            put_in(SHAPES[(i % ns) as usize], &slots)
        },
        if t { cfgs() } else { few() },
        picture_and_ids,
    ));
    // two properties: one on the first level, another on the second or third
    let flat: Vec<(usize, usize)> = PROPS.iter().enumerate().flat_map(|(p, q)| (0..q.1.len()).map(move |k| (p, k))).collect();
    let nf = flat.len();
    let dims = [nf, nf, SHAPES.len(), 3];
    r.explore(family(
        "two text properties",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let (p, q) = (flat[k[0]], flat[k[1]]);
            if p.0 == q.0 {
                return None;
            }
            let a = put(PROPS[p.0].0, PROPS[p.0].1[p.1], false);
            let b = put(PROPS[q.0].0, PROPS[q.0].1[q.1], false);
            let s = match k[3] {
                0 => [a, b, String::new()],
                1 => [a, String::new(), b],
                _ => [String::new(), a, b],
            };
            put_in(SHAPES[k[2]], &s)
        },
        if t { few() } else { vec![config(&[]), solo(&["remove-text-attributes"])] },
        picture_and_ids,
    ));
    // white space and characters
    let tok: &'static [&'static str] = &["a", " ", "\n", "\t", "  ", "<tspan>", "</tspan>", "&lt;&amp;&gt;", "\u{436}", "&#32;", "<!--c-->", "&quot;'", "<tspan/>", "<tspan x='3'>"];
    let nt = if t { 5 } else { 4 };
    let cnt = seq_count(tok.len(), nt);
    r.explore(family(
        "white space and characters",
        cnt * 3,
        move |i| {
            let s = seq(i / 3, tok.len());
            let mut d = 0i32;
            let mut o = String::new();
            for k in s {
                if tok[k].starts_with("<tspan") && !tok[k].ends_with("/>") {
                    d += 1;
                } else if tok[k] == "</tspan>" {
                    d -= 1;
                    if d < 0 {
                        return None;
                    }
                }
                o.push_str(tok[k]);
            }
            for _ in 0..d {
                o.push_str("</tspan>");
            }
            // A blank that is alone in its element is lost by the svgdom
            // writer: see the known findings.
            // So is the meaning of an escaped character after a comment
            // or an element.
            if lone_blank(&o) || o.starts_with("<!--")
                || (o.starts_with("<tspan") && o.replace("<tspan ", "").contains(char::is_whitespace))
                || ["<!--c-->", "<tspan"].iter().any(|t| o.find(t).map_or(false, |p| o[p..].contains('&'))) {
                return None;
            }
            Some(svg(&match i % 3 {
                0 => format!("<text>{}</text>", o),
                1 => format!("<text xml:space='preserve'>{}</text>", o),
                _ => format!("<g xml:space='preserve'><text x='3'>b{}c</text><text xml:space='default'>{}</text></g>", o, o),
            }))
        },
        vec![config(&[]), solo(&[]), solo(&["remove-text-attributes"]), config(&["--indent=4"])],
        same_picture,
    ));
    // positions
    r.explore(grid(
        "character positions",
        "<g {5}><text {0} {1} {2}>ab{3}ef{4}</text></g>",
        &[
            &["", "x='0'", "x='10'", "x='10 20 30'", "x='1em 5'", "x='5mm,3'", "x='10%'", "x='10.123456789 -.5'", "x='0 0'", "x='1e1'"],
            &["", "y='0'", "y='10'", "y='10 20 30'", "dy='1 2'", "dx='3' dy='0'", "dx='0 0 5'", "dx='.5em'"],
            &["", "rotate='10'", "rotate='10 20'", "rotate='0'", "textLength='50'", "textLength='50' lengthAdjust='spacingAndGlyphs'", "transform='scale(2)'", "transform='rotate(30 1 2)'"],
            &["", "<tspan>cd</tspan>", "<tspan x='5' y='6 7'>cd</tspan>", "<tspan dx='5' rotate='3'>c</tspan>d", "<tspan x='0' y='0'>cd</tspan>"],
            &["", "<tspan x='0'>gh</tspan>", "<tspan rotate='0' dy='0'><tspan x='3 4'>g</tspan>h</tspan>", " <tspan dy='1'> gh </tspan> "],
            &["", "transform='translate(3 4)'", "transform='scale(.5)' fill='red'", "fill='red'"],
        ],
        if t { cfgs() } else { few() },
        same_picture,
    ));
    // lists of text and other siblings sharing attributes
    let el: &'static [&'static str] = &[
        "<text font-size='9' fill='red'>a</text>",
        "<text font-size='9'>b</text>",
        "<text fill='red' font-family='Arial' x='2'>c<tspan fill='lime'>d</tspan></text>",
        "<path fill='red' d='M 1 2 L 30 40 L 5 6'/>",
        "<g font-size='9'><circle r='3'/></g>",
        "<g font-size='9' fill='red'><text>e</text></g>",
        "<circle font-size='9' r='1em'/>",
        "<use xlink:href='#q' font-size='9'/>",
        "<g font-family='Arial'><g font-size='9'><text font-size='9' y='2'>e</text><rect width='2' height='3'/></g></g>",
        "<text text-anchor='end' letter-spacing='2'>f</text>",
        "<text text-anchor='end' xml:space='preserve'> f </text>",
        "<text fill='red' text-decoration='underline'>h</text>",
        "<g text-decoration='underline'><text fill='red'>h</text><text fill='red'>i</text></g>",
    ];
    let ne = el.len();
    let len = if t { 5 } else { 4 };
    let c = seq_count(ne, len);
    r.explore(family(
        "siblings with text properties",
        c * 2,
        move |i| {
            let s: String = seq(i / 2, ne).iter().map(|k| el[*k]).collect();
            let q = "<defs><text id='q' x='9'>q</text></defs>";
            Some(svg(&if i % 2 == 0 { format!("{}{}", q, s) } else { format!("{}<g font-size='9' text-anchor='end'>{}</g>", q, s) }))
        },
        vec![config(&[]), solo(&["group-by-style"]), solo(&["remove-text-attributes", "ungroup-groups"]), config(&["--join-style-attributes=all"])],
        picture_and_ids,
    ));
    // SVG fonts
    let mut desc: Vec<String> = vec![String::new()];
    for (k, vs) in DESCRIPTORS {
        desc.extend(vs.iter().map(|v| format!("{}='{}'", k, v)));
    }
    let place: &'static [&'static str] = &[
        "{}{t}",
        "<defs>{}</defs>{t}",
        "<g font-weight='bold' font-family='F' fill='red'>{}{t}</g>",
        "{t}<defs><g font-style='italic' font-size='9'>{}</g></defs>",
        "<a>{}</a><g font-family='F'>{t}</g>",
        "<g>{}{}{t}</g>",
        // the only text is deep inside of something
        "{}<a xlink:href='http://x'><svg><g>{t}</g></svg></a>",
        "<defs>{}<g id='tg'><a>{t}</a></g></defs><use xlink:href='#tg' x='3'/>",
        "<defs>{}<symbol id='tg'>{t}</symbol></defs><use xlink:href='#tg' x='3'/>",
        "{}<pattern id='tg' width='20' height='20' patternUnits='userSpaceOnUse'><g>{t}</g></pattern><path d='M1 2 30 4 50 60z' fill='url(#tg)'/>",
        "{}<clipPath id='tg'>{t}</clipPath><path d='M1 2 30 4 50 60z' clip-path='url(#tg)'/>",
        "{}<switch><g>{t}</g></switch><mask id='tg'>{t}</mask><path d='M1 2 30 4 50 60z' mask='url(#tg)'/>",
    ];
    let body: &'static [&'static str] = &[
        "<font horiz-adv-x='9' {1}><font-face font-family='F' {0}/>{2}</font>",
        "<font id='o' horiz-adv-x='0' horiz-origin-x='0' {1}><font-face font-family='F' {0}><font-face-src><font-face-name name='N'/></font-face-src></font-face>{2}</font>",
        "<font-face font-family='F' {0}><font-face-src><font-face-uri xlink:href='#o'><font-face-format string='svg'/></font-face-uri></font-face-src></font-face><font id='o' horiz-adv-x='9' {1}><font-face {0}/>{2}</font>",
    ];
    let fattr: &'static [&'static str] = &["", "horiz-origin-y='0'", "vert-origin-x='0' vert-origin-y='5' vert-adv-y='1'"];
    let text = "<text font-family='F' font-weight='bold' font-style='italic' x='3'>ab</text><text font-family='F'>a</text>";
    let gl = if t { seq_count(GLYPHS.len(), 2) } else { GLYPHS.len() as u64 };
    let dims = [desc.len(), place.len(), body.len(), fattr.len(), gl as usize];
    r.explore(family(
        "SVG fonts",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let g: String = seq(k[4] as u64, GLYPHS.len()).iter().map(|n| GLYPHS[*n]).collect();
            let b = body[k[2]].replace("{0}", &desc[k[0]]).replace("{1}", fattr[k[3]]).replace("{2}", &g);
            let p = place[k[1]];
            let two = p.matches("{}").count() > 1;
            if two && b.contains("id='o'") {
                return None;
            }
            Some(svg(&p.replace("{}", &b).replace("{t}", text)))
        },
        if t { cfgs() } else { few() },
        same_fonts,
    ));
    // long and deep texts
    r.explore(runs(
        "long texts",
        strings(&[
            "a",
            "<tspan>b</tspan>",
            "<tspan x='{i}'>c</tspan>",
            "<tspan font-weight='bold'>d</tspan>",
            "<tspan dx='1 2' rotate='9'>ef</tspan>",
            "<tspan xml:space='preserve'> g </tspan>",
            "<tspan fill='red' font-size='9'>h</tspan>",
        ]),
        4..=if t { 16 } else { 11 },
        true,
        |v| Some(svg(&format!("<text x='1 2 3 4 5 6 7'>{0}</text><text font-size='9'>{0}</text>", v.concat()))),
        few(),
        same_picture,
    ));
    r.explore(runs(
        "deep texts",
        strings(&[
            "<tspan>|</tspan>",
            "<tspan>a|b</tspan>",
            "<tspan font-weight='bold'>a|</tspan>",
            "<tspan font-weight='normal'>|</tspan>",
            "<tspan x='5'>|</tspan>",
            "<tspan fill='red' text-decoration='underline'>|b</tspan>",
            "<tspan xml:space='preserve'>|</tspan>",
            "<tspan xml:space='default'>|</tspan>",
            "<tspan><a xlink:href='http://x'>|</a></tspan>",
        ]),
        3..=if t { 9 } else { 7 },
        true,
        |v| Some(svg(&format!("<g font-style='italic'><text y='20'>{}</text></g>", nested(v, "inner")))),
        few(),
        same_picture,
    ));
}

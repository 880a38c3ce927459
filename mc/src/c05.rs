//! C05: gradients keep painting the same colours at the same places.
use crate::engine::*;
use crate::fam::*;

pub fn cfgs() -> Vec<Config> {
    let mut v = vec![
        config(&[]),
        config(&["--remove-gradient-attributes=true"]),
        config(&["--join-style-attributes=all", "--remove-gradient-attributes=true", "--indent=none"]),
        solo(&[]),
        without("merge-gradients"),
        without("apply-transform-to-gradients"),
    ];
    for n in [
        "remove-unused-defs",
        "remove-dupl-lineargradient",
        "remove-dupl-radialgradient",
        "merge-gradients",
        "regroup-gradient-stops",
        "remove-invalid-stops",
        "remove-gradient-attributes",
        "apply-transform-to-gradients",
        "remove-default-attributes",
        "remove-invisible-elements",
    ]
    .iter()
    {
        v.push(solo(&[n]));
    }
    v.push(solo(&["regroup-gradient-stops", "merge-gradients"]));
    v.push(solo(&["regroup-gradient-stops", "remove-gradient-attributes"]));
    v.push(solo(&["remove-dupl-lineargradient", "remove-dupl-radialgradient", "merge-gradients", "remove-gradient-attributes"]));
    v
}

const ST: &str = "<stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/>";

/// Only the attributes that belong to the kind of gradient.
fn own(kind: usize, a: &str) -> String {
    let not = [["cx=", "cy=", "r=", "fx=", "fy="], ["x1=", "y1=", "x2=", "y2=", "-"]][kind];
    // values may contain spaces only inside of gradientTransform
    a.split(" ").filter(|t| !not.iter().any(|n| t.starts_with(n))).collect::<Vec<_>>().join(" ")
}

/// A paint server with a fallback colour is refused by design.
fn same_or_fallback_refused(c: &Case, note: &mut Note) -> Result<(), String> {
    if let Outcome::Err(e) = c.out {
        if e.contains("with fallback value is not supported") && (c.pre.text.contains("url(#a) red") || c.pre.text.contains("url(#a) green")|| c.pre.text.contains("url(#a) none")) {
            note.observed = fnv(e);
            return Ok(());
        }
    }
    same_picture(c, note)
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let units: &[&str] = &["", "gradientUnits='userSpaceOnUse'", "gradientUnits='objectBoundingBox'"];
    let spread: &[&str] = &["", "spreadMethod='reflect'", "spreadMethod='pad'"];
    let ts: &[&str] = &[
        "", "gradientTransform='translate(3 4)'", "gradientTransform='scale(2)'", "gradientTransform='matrix(2 0 0 2 10 20)'", "gradientTransform='scale(2 3)'",
        "gradientTransform='rotate(30)'", "gradientTransform='skewX(20)'", "gradientTransform='scale(-1 1)'", "gradientTransform='translate(0)'", "gradientTransform=''",
        "gradientTransform='scale(.5) translate(.25)'",
    ];
    let user: &[&str] = &[
        "<rect x='10' y='20' width='40' height='30' fill='url(#a)'/>",
        "<path transform='translate(4 5) scale(2)' d='M 0 0 L 10 20 L 20 5 Z' stroke='url(#a)' fill='none' stroke-width='2'/>",
    ];
    r.explore(grid(
        "linear gradient geometry",
        "<linearGradient id='a' {0} {1} {2} {3} {4} {5} {6}><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient>{7}",
        &[
            &["", "x1='.25'", "x1='10%'", "x1='5'"],
            &["", "y1='10'", "y1='0%'"],
            &["", "x2='80'", "x2='1'", "x2='50%'", "x2='100%'"],
            &["", "y2='30'", "y2='0'"],
            units,
            spread,
            ts,
            user,
        ],
        cfgs(),
        same_picture,
    ));
    r.explore(grid(
        "radial gradient geometry",
        "<radialGradient id='a' {0} {1} {2} {3} {4} {5} {6} {7}><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></radialGradient>{8}",
        &[
            &["", "cx='.25'", "cx='50%'", "cx='5'"],
            &["", "cy='10'", "cy='40%'"],
            &["", "r='.5'", "r='50%'", "r='20'", "r='0'"],
            &["", "fx='.25'", "fx='9'", "fx='50%'"],
            &["", "fy='10'", "fy='40%'"],
            if t { units } else { &units[..2] },
            if t { spread } else { &spread[..2] },
            if t { ts } else { &ts[..7] },
            user,
        ],
        cfgs(),
        same_picture,
    ));
    // lists of stops
    let stops: &'static [&'static str] = &[
        "<stop offset='0' stop-color='red'/>",
        "<stop offset='1'/>",
        "<stop offset='.5' stop-color='red'/>",
        "<stop offset='.5' stop-color='red' stop-opacity='.5'/>",
        "<stop offset='50%' style='stop-color:blue'/>",
        "<stop offset='.5' stop-color='#ff0000' id='s'/>",
        "<stop offset='2' stop-color='green'/>",
        "<stop offset='-1' stop-color='green'/>",
        "<stop offset='.25' stop-color='blue' stop-opacity='0'/>",
        "<stop offset='.7' stop-color='currentColor' color='lime'/>",
    ];
    let len = if t { 5 } else { 4 };
    let n = seq_count(stops.len(), len);
    r.explore(family(
        "lists of stops",
        n * 2,
        move |i| {
            let q = seq(i / 2, stops.len());
            if q.iter().filter(|k| **k == 5).count() > 1 {
                return None;
            }
            let s: String = q.iter().map(|k| stops[*k]).collect();
            Some(svg(&if i % 2 == 0 {
                format!("<linearGradient id='a'>{}</linearGradient><rect width='40' height='30' fill='url(#a)'/>", s)
            } else {
                format!("<radialGradient id='a' spreadMethod='repeat'>{}</radialGradient><rect width='40' height='30' fill='url(#a)' fill-opacity='.5' stroke='url(#a)' stroke-opacity='.25'/>", s)
            }))
        },
        vec![config(&[]), solo(&["remove-invalid-stops"]), solo(&["remove-invisible-elements"]), solo(&["remove-default-attributes"]), solo(&["regroup-gradient-stops", "merge-gradients"])],
        same_picture,
    ));
    // two and three gradients, referencing each other or equal
    let kinds: &'static [&'static str] = &["linear", "radial"];
    let bodies: &'static [&'static str] = &["", ST, "<stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue' stop-opacity='.5'/>", "<stop offset='0' stop-color='green'/>"];
    let attrs: &'static [&'static str] = &[
        "",
        "gradientUnits='userSpaceOnUse'",
        "gradientUnits='userSpaceOnUse' x1='5' cx='7' x2='30' r='12'",
        "gradientTransform='translate(3 4)'",
        "gradientUnits='userSpaceOnUse' x1='1' y1='2' x2='30' y2='4' cx='9' cy='8' r='7' fx='8' fy='7' gradientTransform='translate(3 4)'",
        "spreadMethod='reflect' fx='.25' y2='.5'",
        "gradientTransform='rotate(9)' gradientUnits='objectBoundingBox'",
    ];
    let users: &'static [&'static str] = &[
        "<rect x='1' y='2' width='40' height='30' fill='url(#a)'/>",
        "<rect x='1' y='2' width='40' height='30' fill='url(#b)'/>",
        "<rect x='1' y='2' width='40' height='30' fill='url(#a)' stroke='url(#b)'/>",
        "<g fill='url(#b)'><rect x='1' y='2' width='40' height='30'/></g><path d='M 0 0 L 20 30 L 7 8' fill='url(#a)'/>",
        "<rect x='1' y='2' width='40' height='30' fill='url(#b)' stroke='url(#b)'/>",
        "<g stroke='url(#a)' fill='url(#b)'><path d='M 0 0 L 20 30 L 7 8' stroke='url(#b)' fill='url(#a)'/><rect x='1' y='2' width='40' height='30' fill='url(#b)'/></g>",
    ];
    let hrefs: &'static [(&'static str, &'static str)] = &[("", ""), ("", "xlink:href='#a'"), ("xlink:href='#b'", "")];
    let dims = [2, 2, 4, 4, 7, 7, 3, users.len(), 2];
    r.explore(family(
        "pairs of gradients",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            if !t && k[8] == 1 && k[4] > 3 {
                return None;
            }
            let a = format!("<{0}Gradient id='a' {1} {2}>{3}</{0}Gradient>", kinds[k[0]], own(k[0], attrs[k[4]]), hrefs[k[6]].0, bodies[k[2]]);
            let b = format!("<{0}Gradient id='b' {1} {2}>{3}</{0}Gradient>", kinds[k[1]], own(k[1], attrs[k[5]]), hrefs[k[6]].1, bodies[k[3]]);
            let u = users[k[7]];
            Some(svg(&if k[8] == 0 { format!("{}{}{}", a, b, u) } else { format!("<defs>{}</defs>{}<g>{}</g>", b, u, a) }))
        },
        cfgs(),
        same_picture,
    ));
    let hrefs: &'static [[&'static str; 3]] = &[
        ["", "a", "b"],
        ["b", "c", ""],
        ["", "a", "a"],
        ["c", "c", ""],
        ["", "", ""],
        ["", "", "a"],
        ["", "", "b"],
        ["b", "", "b"],
        ["c", "a", ""],
    ];
    let users: &'static [&'static str] = &["a", "b", "c", "ab", "bc", "ac", "abc"];
    let at3: &'static [&'static str] = &[
        "",
        "gradientUnits='userSpaceOnUse' x1='5' cx='7' x2='30' r='12'",
        "gradientUnits='userSpaceOnUse' x1='1' y1='2' x2='30' y2='4' cx='9' cy='8' r='7' fx='8' fy='7' gradientTransform='translate(3 4)'",
        "spreadMethod='reflect' fx='.25'",
    ];
    let na = if t { 4 } else { 3 };
    let dims = [hrefs.len(), users.len(), na, na, na, 2, 2, 2, 2, 2, 2];
    r.explore(family(
        "chains of three gradients",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            if !t && (k[8] == 1 && k[9] == 1) {
                return None;
            }
            let mut o = String::new();
            for (n, id) in ["a", "b", "c"].iter().enumerate() {
                let h = hrefs[k[0]][n];
                let h = if h.is_empty() { String::new() } else { format!("xlink:href='#{}'", h) };
                o.push_str(&format!("<{0}Gradient id='{1}' {2} {3}>{4}</{0}Gradient>", kinds[k[8 + n]], id, own(k[8 + n], at3[k[2 + n]]), h, if k[5 + n] == 0 { "" } else { ST }));
            }
            for (n, u) in users[k[1]].chars().enumerate() {
                o.push_str(&format!("<rect x='1' y='2' width='40' height='3{}' fill='url(#{})'/>", n, u));
            }
            Some(svg(&o))
        },
        cfgs(),
        same_picture,
    ));
    // many gradients with equal stops, ids that collide with generated ones
    let ids: &'static [&'static str] = &["lg1", "lg2", "a", "lg"];
    let gs: &'static [&'static str] = &[
        "<linearGradient id='{}'><stop stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient>",
        "<radialGradient id='{}'><stop stop-color='red'/><stop offset='1' stop-color='blue'/></radialGradient>",
        "<linearGradient id='{}' x1='.5'><stop stop-color='red'/><stop offset='1' stop-color='green'/></linearGradient>",
        "<linearGradient id='{}' x1='.5' gradientUnits='userSpaceOnUse'><stop stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient>",
        "<linearGradient id='{}' y1='.5'><stop stop-color='red'/><stop offset='1' stop-color='green'/></linearGradient>",
        "<g id='{}'/>",
    ];
    let dims = [6, 6, 6, 6, 2, 2];
    r.explore(family(
        "equal stops and generated ids",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let mut o = String::new();
            for n in 0..4 {
                o.push_str(&gs[k[n]].replace("{}", ids[if k[4] == 0 { n } else { 3 - n }]));
            }
            let g = |n: usize| format!("<rect width='40' height='3{}' fill='url(#{})'/>", n, ids[if k[4] == 0 { n } else { 3 - n }]);
            for n in 0..4 {
                if k[n] < 5 {
                    if k[5] == 0 {
                        o.push_str(&g(n));
                    } else {
                        o = g(n) + &o;
                    }
                }
            }
            Some(svg(&o))
        },
        cfgs(),
        same_picture,
    ));
    // two gradients which differ in one attribute, and a third one which takes the rest from one of them
    let one: &'static [&'static [(&'static str, &'static [&'static str])]] = &[
        &[
            ("x1", &[".1", ".2", "10%"]),
            ("y1", &[".15", "0"]),
            ("x2", &[".6", ".7", "1"]),
            ("y2", &[".5", "0"]),
            ("gradientUnits", &["objectBoundingBox", "userSpaceOnUse"]),
            ("spreadMethod", &["pad", "reflect", "repeat"]),
            ("gradientTransform", &["scale(2)", "rotate(30)", "translate(0)", "scale(1 2)"]),
            ("color", &["lime"]),
            ("color-interpolation", &["linearRGB"]),
        ],
        &[
            ("cx", &[".3", ".7", "30%"]),
            ("cy", &[".4", ".6"]),
            ("r", &[".3", ".5"]),
            ("fx", &[".3", ".4", "30%"]),
            ("fy", &[".4", ".35"]),
            ("gradientUnits", &["objectBoundingBox", "userSpaceOnUse"]),
            ("spreadMethod", &["pad", "reflect", "repeat"]),
            ("gradientTransform", &["scale(2)", "rotate(30)", "translate(0)", "scale(1 2)"]),
            ("color", &["lime"]),
            ("color-interpolation", &["linearRGB"]),
        ],
    ];
    // the full set of attributes, a short one and nothing at all
    let full: &'static [&'static [&'static str]] = &[
        &["x1='.1' y1='.15' x2='.6' y2='.5' gradientUnits='objectBoundingBox' spreadMethod='reflect' gradientTransform='scale(2)'", "x1='.1' x2='.6'", ""],
        &["cx='.3' cy='.4' r='.3' fx='.35' fy='.45' gradientUnits='objectBoundingBox' spreadMethod='reflect' gradientTransform='scale(2)'", "cx='.3' fx='.3' cy='.4' fy='.4' r='.3'", ""],
    ];
    let mut docs: Vec<(usize, String, String)> = Vec::new();
    for k in 0..2 {
        for f in full[k] {
            let put = |name: &str, v: Option<&str>| {
                let mut o: Vec<String> = f.split(' ').filter(|a| !a.is_empty() && !a.starts_with(&format!("{}=", name))).map(|a| a.to_string()).collect();
                if let Some(v) = v {
                    o.push(format!("{}='{}'", name, v));
                }
                o.join(" ")
            };
            for (name, vs) in one[k] {
                docs.push((k, f.to_string(), put(name, None)));
                for v in vs.iter() {
                    docs.push((k, f.to_string(), put(name, Some(v))));
                }
            }
        }
    }
    let st: &'static [&'static str] = &[
        ST,
        "<stop offset='.2' stop-color='red'/><stop offset='.6' stop-color='blue'/>",
        "<stop offset='.2' stop-color='red'/><stop offset='.6' stop-color='blue' stop-opacity='.5'/>",
        "<stop offset='.2' stop-color='red'/><stop offset='.7' stop-color='blue'/>",
        "<stop offset='.2' stop-color='red'/><stop offset='.6' stop-color='lime'/>",
        "<stop offset='.2' stop-color='red'/><stop offset='.6' stop-color='currentColor'/>",
    ];
    let dims = [docs.len(), if t { 6 } else { 3 }, if t { 6 } else { 2 }, 4];
    r.explore(family(
        "gradients which differ in one attribute",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let (kind, a, b) = &docs[k[0]];
            let (s1, s2) = (st[if t { k[1] } else { k[1].min(1) + k[1] / 2 * 2 }], st[k[2] + !t as usize]);
            let g = |id: &str, at: &str, st: &str| format!("<{0}Gradient id='{1}' {2}>{3}</{0}Gradient>", kinds[*kind], id, at, st);
            let u = "<rect x='1' y='2' width='40' height='30' fill='url(#a)'/><rect x='1' y='2' width='30' height='40' fill='url(#b)'/>";
            Some(svg(&match k[3] {
                0 => format!("{}{}{}", g("a", a, s1), g("b", b, s2), u),
                1 => format!("{}{}{}", g("b", b, s1), g("a", a, s2), u),
                // the same attributes through a link
                2 => format!("{}{}{}{}", g("c", "", s1), g("a", &format!("{} xlink:href='#c'", a), ""), g("b", &format!("{} xlink:href='#c'", b), ""), u),
                _ => format!("{}{}<rect width='9' height='8' fill='url(#a)'/>", g("b", b, s1), g("a", "color='red' xlink:href='#b'", if k[2] == 0 { "" } else { s2 })),
            }))
        },
        cfgs(),
        same_picture,
    ));
    // a gradient with two attributes that is a source of one with other two
    let dims = [2usize, 10, 10, 4, 10, 4, 3];
    r.explore(family(
        "attributes taken from another gradient",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let l = one[k[0]];
            if k[1] >= l.len() || k[2] >= k[1] || k[4] >= l.len() || (!t && k[3] + k[5] > 3) {
                return None;
            }
            let at = |n: usize, v: usize| format!("{}='{}'", l[n].0, l[n].1[v % l[n].1.len()]);
            let a = format!("{} {}", at(k[1], k[3] & 1), at(k[2], k[3] >> 1));
            let b = at(k[4], k[5]);
            // svgdom forgets an identity which hides the transform of the other gradient
            if b.contains("translate(0)") && a.contains("gradientTransform") {
                return None;
            }
            let g = |id: &str, at: &str, st: &str| format!("<{0}Gradient id='{1}' {2}>{3}</{0}Gradient>", kinds[k[0]], id, at, st);
            let u = match k[6] {
                0 => "<rect x='1' y='2' width='40' height='30' fill='url(#b)'/>",
                1 => "<rect x='1' y='2' width='40' height='30' fill='url(#b)'/><circle r='9' fill='url(#a)'/>",
                _ => "<rect x='1' y='2' width='40' height='30' fill='url(#b)' stroke='url(#c)'/>",
            };
            let c = if k[6] == 2 { g("c", "xlink:href='#a' spreadMethod='pad'", "") } else { String::new() };
            Some(svg(&format!("{}{}{}{}", g("a", &a, ST), g("b", &format!("{} xlink:href='#a'", b), ""), c, u)))
        },
        cfgs(),
        same_picture,
    ));
    // who uses a gradient and what happens when it cannot paint
    r.explore(grid(
        "paint servers in use",
        "<defs>{0}<path id='p' d='M 0 0 L 10 20 L 20 5 Z'/></defs>{1}",
        &[
            &[
                "<linearGradient id='a'><stop stop-color='red'/><stop offset='1'/></linearGradient>",
                "<linearGradient id='a'><stop stop-color='red'/></linearGradient>",
                "<linearGradient id='a'><stop stop-color='red' stop-opacity='.5'/></linearGradient>",
                "<linearGradient id='a'/>",
                "<radialGradient id='a' gradientUnits='userSpaceOnUse' cx='10' cy='10' r='10'><stop stop-color='red'/><stop offset='1'/></radialGradient>",
                "<linearGradient id='a' xlink:href='#b'/><linearGradient id='b'><stop stop-color='red' stop-opacity='.25'/></linearGradient>",
                "<linearGradient id='b' xlink:href='#a'/><linearGradient id='a'><stop stop-color='red'/></linearGradient><rect width='3' height='4' fill='url(#b)'/>",
                "<radialGradient id='a' xlink:href='#a1'/><linearGradient id='a1' xlink:href='#a2' x2='.5'/><linearGradient id='a2'><stop stop-color='red'/><stop offset='1' stop-color='lime'/></linearGradient>",
                "<linearGradient id='a'><stop stop-color='red'/><stop offset='1' stop-color='red'/></linearGradient>",
                "<linearGradient id='a' x2='0%'><stop stop-color='red'/><stop offset='1' stop-color='lime'/></linearGradient>",
                "<g fill='red' stop-color='blue' color='lime'><linearGradient id='a'><stop stop-color='inherit' offset='0'/><stop offset='1' stop-color='currentColor'/></linearGradient></g>",
            ],
            &[
                "<text x='5' y='9' fill='url(#a)'>a<tspan stroke='url(#a)'>b</tspan></text>",
                "<use xlink:href='#p' fill='url(#a)'/><use xlink:href='#p' x='20' stroke='url(#a)'/>",
                "<g fill='url(#a)' fill-opacity='.5'><rect x='1' y='2' width='20' height='10'/><circle r='9' cx='40' cy='8' fill-opacity='1'/></g>",
                "<g transform='scale(2)'><g fill='url(#a)' transform='translate(3)'><path d='M 0 0 L 10 20 L 20 5 Z' opacity='.5'/></g></g>",
                "<svg width='50%' height='50' fill='url(#a)'><rect x='1' y='2' width='20%' height='10' stroke='url(#a)' stroke-width='1%'/></svg>",
                "<symbol id='s'><circle r='9' cx='40' cy='8'/></symbol><use xlink:href='#s' fill='url(#a)'/>",
                "<pattern id='q' width='10' height='10' patternUnits='userSpaceOnUse'><rect width='5' height='5' fill='url(#a)'/></pattern><circle r='30' fill='url(#q)'/>",
                "<mask id='m'><rect width='50' height='50' fill='url(#a)'/></mask><circle r='30' mask='url(#m)'/>",
                "<clipPath id='m'><rect width='50' height='50' fill='url(#a)'/></clipPath><circle r='30' clip-path='url(#m)'/>",
                "<marker id='m' markerWidth='9' markerHeight='9'><rect width='5' height='5' fill='url(#a)'/></marker><path d='M 1 2 L 30 20' marker-end='url(#m)' stroke='url(#a)'/>",
                "<path d='M 0 0 L 10 20 L 20 5 Z' style='fill:url(#a);stroke:url(#a) red'/><path d='M 0 9 L 10 20 L 20 5 Z' fill='url(#a) none'/>",
                "<path d='M 5 5 L 30 5' stroke='url(#a) green'/>",
                "<path d='M 0 0 L 10 20 L 20 5 Z' fill='url(#zz) red'/>",
                "<rect width='30' height='20' fill='url(#a)'/><rect width='30' height='20' x='40' fill='url(#a)' stroke='url(#a)' transform='rotate(9)'/>",
            ],
        ],
        {
            let mut c = cfgs();
            c.extend(all_configs());
            c
        },
        same_or_fallback_refused,
    ));
    // units of several gradients linked to one
    let un = ["", "gradientUnits='userSpaceOnUse'", "gradientUnits='objectBoundingBox'"];
    let max = if t { 6 } else { 5 };
    let dims = [seq_count(3, max) as usize, 3, 2, 5];
    r.explore(family(
        "units of several linked gradients",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let q = seq(k[0] as u64, 3);
            let mut s = format!("<linearGradient id='b' x2='.5' {}>{}</linearGradient>", un[k[1]], ST);
            let mut u = String::new();
            for (j, v) in q.iter().enumerate() {
                let (e, a) = [("linear", "y2='.3'"), ("radial", "r='.7'")][(k[2] * j) % 2];
                // every other one is linked to the one before it
                let to = if k[3] == 4 && j % 2 == 1 { format!("n{}", j - 1) } else { "b".to_string() };
                s.push_str(&format!("<{0}Gradient id='n{1}' xlink:href='#{2}' {3} {4}/>", e, j, to, un[*v], a));
                u.push_str(&match k[3] {
                    2 if j == 0 => format!("<use xlink:href='#p' fill='url(#n{})'/>", j),
                    _ => format!("<rect x='{}' y='2' width='40' height='30' fill='url(#n{})'/>", j * 7 + 1, j),
                });
            }
            match k[3] {
                1 => u.push_str("<circle r='9' stroke='url(#b)'/>"),
                2 => u.push_str("<defs><rect id='p' width='9' height='8'/></defs>"),
                3 => s.push_str("<linearGradient id='c' xlink:href='#b'/><circle id='x' r='9' fill='url(#c)'/>"),
                _ => {}
            }
            Some(svg(&format!("{}{}", s, u)))
        },
        vec![config(&[]), config(&["--remove-gradient-attributes=true"]), solo(&["remove-gradient-attributes"]), solo(&["merge-gradients", "remove-gradient-attributes"]), config(&["--remove-gradient-attributes=true", "--merge-gradients=false"])],
        same_picture,
    ));
    // two gradients which differ in one stop
    let base = ["<stop offset='{i}' stop-color='red'/>", "<stop offset='{i}' stop-color='lime' stop-opacity='0'/>", "<stop offset='{i}' stop-color='lime' stop-opacity='.5'/>", "<stop offset='{i}'/>", "<stop offset='.5' stop-color='blue' stop-opacity='1'/>"];
    let other = [
        "", "<stop offset='{i}' stop-color='blue'/>", "<stop offset='{i}' stop-color='red'/>", "<stop offset='{i}' stop-color='red' stop-opacity='.5'/>", "<stop offset='{i}' stop-color='lime' stop-opacity='0'/>",
        "<stop offset='{i}' stop-color='lime' stop-opacity='.25'/>", "<stop offset='{i}' stop-color='lime'/>", "<stop offset='.7' stop-color='red'/>", "<stop offset='{i}'/><stop offset='1' stop-color='red'/>",
    ];
    let (n, max) = (base.len(), if t { 5 } else { 4 });
    let dims = [seq_count(n, max) as usize, max, other.len(), 2];
    r.explore(family(
        "two gradients that differ in one stop",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let q = seq(k[0] as u64, n);
            if k[1] >= q.len() || (q.len() == max && !t && k[3] == 1) {
                return None;
            }
            let at = |j: usize| ["0", ".3", ".6", "1", "1"][j];
            let one: Vec<String> = q.iter().enumerate().map(|(j, b)| base[*b].replace("{i}", at(j))).collect();
            let mut two = one.clone();
            two[k[1]] = other[k[2]].replace("{i}", at(k[1]));
            let e = ["linear", "radial"][k[3]];
            let g = |id: &str, s: &[String]| format!("<{0}Gradient id='{1}'>{2}</{0}Gradient>", e, id, s.concat());
            Some(svg(&format!("{}{}<rect width='40' height='30' fill='url(#a)'/><circle r='9' fill='url(#b)'/>", g("a", &one), g("b", &two))))
        },
        vec![config(&[]), solo(&["remove-dupl-lineargradient", "remove-dupl-radialgradient"]), solo(&["regroup-gradient-stops"]), solo(&["remove-invalid-stops", "merge-gradients", "regroup-gradient-stops"])],
        same_picture,
    ));
    // long lists of stops
    r.explore(runs(
        "long lists of stops",
        strings(&[
            "<stop offset='.3' stop-color='red'/>",
            "<stop offset='.3' stop-color='lime'/>",
            "<stop offset='.{i}' stop-color='red'/>",
            "<stop offset='.{i}' stop-color='blue' stop-opacity='.5'/>",
            "<stop offset='0' stop-color='red'/>",
            "<stop offset='1' stop-color='red'/>",
            "<stop offset='1.5'/>",
        ]),
        5..=9,
        true,
        |v| Some(svg(&format!("<linearGradient id='a'>{0}</linearGradient><linearGradient id='b' x1='.2'>{0}</linearGradient><rect width='40' height='30' fill='url(#a)' stroke='url(#b)'/>", v.concat()))),
        vec![config(&[]), solo(&[]), solo(&["remove-invalid-stops"]), solo(&["remove-invalid-stops", "regroup-gradient-stops"])],
        same_picture,
    ));
    // long chains of gradients
    let end = "<stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/>";
    let mut kinds = vec![];
    for tag in &["linearGradient", "radialGradient"] {
        for a in &["", "x1='.3' cx='.3'", "gradientUnits='userSpaceOnUse'", "gradientTransform='scale(2)'", "spreadMethod='reflect' y2='5' r='7'"] {
            kinds.push(format!("<{0} id='e{{i}}' xlink:href='#e{{j}}' {1}/>", tag, a));
        }
        kinds.push(format!("<{0} id='e{{i}}' xlink:href='#e{{j}}'>{1}</{0}>", tag, end.replace("red", "lime")));
    }
    r.explore(runs(
        "long chains of gradients",
        kinds,
        4..=if t { 9 } else { 7 },
        true,
        move |v| {
            let last = v.len() - 1;
            Some(svg(&format!("<linearGradient id='e-1' x2='.7'>{0}</linearGradient>{1}<rect width='40' height='30' fill='url(#e{2})' stroke='url(#e{3})'/>", end, v.concat(), last, last / 2)))
        },
        vec![config(&[]), solo(&[]), solo(&["merge-gradients"]), solo(&["remove-gradient-attributes"]), solo(&["remove-dupl-lineargradient", "remove-dupl-radialgradient", "regroup-gradient-stops", "remove-unused-coordinates"])],
        same_picture,
    ));
}

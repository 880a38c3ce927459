//! C06: references stay intact and ids stay unique.
use crate::engine::*;
use crate::fam::*;

pub fn cfgs() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&[]),
        solo(&["trim-ids"]),
        solo(&["remove-unreferenced-ids"]),
        solo(&["trim-ids", "remove-unreferenced-ids"]),
        without("trim-ids"),
        without("remove-unreferenced-ids"),
        without("remove-unused-defs"),
        without("resolve-use"),
        config(&["--join-style-attributes=all", "--ungroup-defs=false", "--remove-gradient-attributes=true"]),
        solo(&["remove-unused-defs"]),
        solo(&["ungroup-defs", "remove-unused-defs", "trim-ids"]),
        solo(&["resolve-use", "trim-ids"]),
    ]
}

/// Referencing constructs ({} is the id) and a target.
const KINDS: &[(&str, &str)] = &[
    ("<use xlink:href='#{}' x='1'/>", "<path id='{}' d='M 1 2 L 30 40 L 5 6'/>"),
    ("<use xlink:href='#{}' width='20' height='10'/>", "<symbol id='{}' viewBox='0 0 9 9'><circle r='4'/></symbol>"),
    ("<circle r='9' fill='url(#{})'/>", "<linearGradient id='{}'><stop stop-color='red'/><stop offset='1'/></linearGradient>"),
    ("<circle r='9' style='stroke: url(#{})'/>", "<radialGradient id='{}'><stop stop-color='red'/><stop offset='1'/></radialGradient>"),
    ("<circle r='9' fill='url(#{})'/>", "<pattern id='{}' width='4' height='5' patternUnits='userSpaceOnUse'><circle r='2'/></pattern>"),
    ("<g clip-path='url(#{})'><circle r='9'/></g>", "<clipPath id='{}'><rect width='5' height='5'/></clipPath>"),
    ("<circle r='9' mask='url(#{})'/>", "<mask id='{}'><rect width='5' height='5' fill='#fff'/></mask>"),
    ("<circle r='9' filter='url(#{})'/>", "<filter id='{}'><feFlood flood-color='red'/></filter>"),
    ("<path d='M 1 2 L 30 40 L 5 6' marker-mid='url(#{})'/>", "<marker id='{}' markerWidth='4'><circle r='2'/></marker>"),
    ("<path d='M 1 2 L 30 40 L 5 6' style='marker-start:url(#{});marker-end:url(#{})'/>", "<marker id='{}' markerWidth='4'><circle r='2'/></marker>"),
    ("<text><textPath xlink:href='#{}'>abc</textPath></text>", "<path id='{}' d='M 1 2 L 30 40 L 5 6' fill='none'/>"),
    ("<text>x<tref xlink:href='#{}'/></text>", "<text id='{}' visibility='hidden'>hello</text>"),
    ("<linearGradient id='gg' xlink:href='#{}'/><circle r='9' fill='url(#gg)'/>", "<linearGradient id='{}'><stop stop-color='red'/><stop offset='1'/></linearGradient>"),
    ("<pattern id='gg' width='8' xlink:href='#{}'/><circle r='9' fill='url(#gg)'/>", "<pattern id='{}' width='4' height='5' patternUnits='userSpaceOnUse'><circle r='2'/></pattern>"),
    ("<a xlink:href='#{}'><circle r='9'/></a>", "<g id='{}'><circle r='5' fill='red'/></g>"),
    ("<use xlink:href='#{}'/><use xlink:href='#{}' x='3'/>", "<g id='{}'><circle r='5' fill='red'/><rect width='3' height='4'/></g>"),
    ("<filter id='gg'><feImage xlink:href='#{}'/></filter><circle r='9' filter='url(#gg)'/>", "<rect id='{}' width='5' height='5' fill='lime'/>"),
    ("<style>.k{fill:url(#{})}</style><circle class='k' r='9'/>", "<linearGradient id='{}'><stop stop-color='red'/><stop offset='1'/></linearGradient>"),
    ("<use xlink:href='#gg'/><g id='gg'><use xlink:href='#{}'/></g>", "<path id='{}' d='M 1 2 L 30 40 L 5 6'/>"),
];

const IDS: &[&str] = &["x", "a", "b", "long-name_1.2:3", "\u{44f}\u{437}", "lg1", "A", "_", "svg", "x1-2.\u{b7}"];

pub fn run(r: &mut Run) {
    let t = r.thorough();
    // every way to reference, every position of the target, every kind of id
    let nk = KINDS.len();
    let dims = [nk, IDS.len(), 9];
    r.explore(family(
        "kinds of references",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let id = IDS[k[1]];
            if k[2] == 5 && id == "b" {
                return None; // the id would occur twice
            }
            let u = KINDS[k[0]].0.replace("{}", id);
            let d = KINDS[k[0]].1.replace("{}", id);
            Some(svg(&match k[2] {
                0 => format!("<defs>{}</defs>{}", d, u),
                1 => format!("{}{}", d, u),
                2 => format!("{}{}", u, d),
                3 => format!("<g fill='red'>{}</g><g id='unused'>{}</g>", u, d),
                4 => format!("<g><defs>{}<path id='other' d='M 1 1 L 9 9'/></defs>{}</g>", d, u),
                5 => format!("{}<g><g>{}</g></g><g id='zz'/><path id='b' d='M 1 2 L 3 4 L 5 0'/>", u, d),
                6 => format!("<svg width='50' height='40'><defs>{}</defs></svg><svg>{}</svg>", d, u),
                7 => format!("<defs><g id='q'>{}</g></defs>{}<use xlink:href='#q'/>", d, u),
                _ => format!("<defs>{}</defs><g id='w'>{}</g><use xlink:href='#w' y='40'/>", d, u),
            }))
        },
        cfgs(),
        check,
    ));
    // pairs of references to two targets, in both orders, with ids that are each other's short names
    let idp: &'static [(&'static str, &'static str)] = &[("b", "a"), ("c", "b"), ("a", "b"), ("x", "y"), ("B", "aa")];
    let dims = [nk, nk, 5, 4];
    r.explore(family(
        "two references",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let (p, q) = idp[k[2]];
            let (u1, d1) = (KINDS[k[0]].0.replace("{}", p), KINDS[k[0]].1.replace("{}", p));
            let (u2, d2) = (KINDS[k[1]].0.replace("{}", q).replace("gg", "hh").replace(".k", ".k2").replace("class='k'", "class='k2'"), KINDS[k[1]].1.replace("{}", q));
            Some(svg(&match k[3] {
                0 => format!("<defs>{}{}</defs>{}{}", d1, d2, u1, u2),
                1 => format!("{}{}{}{}", u1, d2, d1, u2),
                2 => format!("<g>{}</g><g>{}</g>{}{}", d1, u1, u2, d2),
                _ => format!("{}<g fill='red'>{}</g><defs>{}{}</defs>", u2, u1, d2, d1),
            }))
        },
        if t { cfgs() } else { vec![config(&[]), solo(&["trim-ids"]), without("trim-ids"), without("resolve-use"), config(&["--join-style-attributes=all", "--remove-unreferenced-ids=false"])] },
        check,
    ));
    // graphs: every choice of reference for each of four nodes of each kind (cycles are refused or harmless)
    let shapes: &'static [&'static str] = &[
        "<g id='{0}' transform='translate({2})'><circle r='1{2}'/>{1}</g>",
        "<symbol id='{0}'><circle r='1{2}'/>{1}</symbol>",
        "<clipPath id='{0}' {1}><circle r='1{2}'/></clipPath>",
        "<mask id='{0}' {1}><circle r='1{2}' fill='#fff'/></mask>",
        "<pattern id='{0}' width='1{2}' height='5' patternUnits='userSpaceOnUse'><circle r='2' {1}/></pattern>",
        "<linearGradient id='{0}' {1}><stop stop-color='red'/><stop offset='.{2}'/></linearGradient>",
    ];
    let dims = [6, 5, 5, 5, 5, 4, if t { 2 } else { 1 }];
    r.explore(family(
        "reference graphs of four nodes",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let names = ["d", "a", "c", "b"];
            let mut o = String::new();
            for n in 0..4 {
                let to = k[1 + n];
                let rf = if to == 4 {
                    String::new()
                } else {
                    match k[0] {
                        0 | 1 => format!("<use xlink:href='#{}' x='3'/>", names[to]),
                        2 => format!("clip-path='url(#{})'", names[to]),
                        3 => format!("mask='url(#{})'", names[to]),
                        4 => format!("fill='url(#{})'", names[to]),
                        _ => format!("xlink:href='#{}'", names[to]),
                    }
                };
                o.push_str(&shapes[k[0]].replace("{0}", names[n]).replace("{1}", &rf).replace("{2}", &(n + 1).to_string()));
            }
            // acyclic graphs only
            for s in 0..4 {
                let mut n = s;
                for _ in 0..5 {
                    if k[1 + n] == 4 {
                        break;
                    }
                    n = k[1 + n];
                }
                if k[1 + n] != 4 {
                    return None;
                }
            }
            let user = match k[0] {
                0 | 1 => "<use xlink:href='#{}'/>",
                2 => "<rect width='40' height='30' clip-path='url(#{})'/>",
                3 => "<rect width='40' height='30' mask='url(#{})'/>",
                _ => "<rect width='40' height='30' fill='url(#{})'/>",
            };
            let us: String = if k[5] == 3 { vec![0, 2] } else { vec![k[5]] }.iter().map(|n| user.replace("{}", names[*n])).collect();
            Some(svg(&if k[6] == 0 { format!("<defs>{}</defs>{}", o, us) } else { format!("{}{}", us, o) }))
        },
        cfgs(),
        check,
    ));
    // names made up for shared stops
    r.explore(grid(
        "generated gradient names",
        "{0}<defs><linearGradient id='{1}'>{4}</linearGradient><{5} id='{2}' {6}>{4}</{5}><linearGradient id='{3}' x2='5' {7}</linearGradient></defs>{8}",
        &[
            &["", "<path id='lg1' d='M 1 2 L 30 40 L 5 6'/>", "<g id='lg2'><circle id='lg1' r='4' fill='url(#x)'/></g>", "<use xlink:href='#lg3'/><rect id='lg3' width='4' height='5'/>"],
            &["x", "lg1", "a"],
            &["y", "lg2", "b"],
            &["z", "lg3", "lg4"],
            &["<stop stop-color='red'/><stop offset='1' stop-color='blue'/>", "<stop offset='.2' stop-color='lime'/><stop offset='1' stop-opacity='.5'/>"],
            &["linearGradient", "radialGradient"],
            &["", "gradientTransform='translate(4)'", "gradientUnits='userSpaceOnUse'"],
            &[">{4}", "><stop offset='.1' stop-color='blue'/><stop offset='1' stop-color='#123'/>", "xlink:href='#{1}'>", "xlink:href='#{2}'>", "gradientTransform='rotate(4)'>{4}"],
            &[
                "<circle r='9' fill='url(#{1})'/><circle r='8' fill='url(#{2})'/><circle r='7' fill='url(#{3})'/>",
                "<circle r='9' fill='url(#{3})'/><circle r='8' fill='url(#{2})' stroke='url(#{1})'/>",
                "<circle r='9' fill='url(#{2})'/><circle r='9' style='fill:url(#{1})'/>",
            ],
        ],
        vec![
            config(&[]),
            without("trim-ids"),
            config(&["--trim-ids=false", "--remove-unreferenced-ids=false"]),
            solo(&["regroup-gradient-stops"]),
            solo(&["regroup-gradient-stops", "trim-ids"]),
            solo(&["merge-gradients", "regroup-gradient-stops", "remove-unreferenced-ids"]),
            solo(&["remove-dupl-lineargradient", "remove-dupl-radialgradient"]),
        ],
        check,
    ));
    // populations of ids around the lengths of the short names
    let sizes: Vec<u64> = if t {
        (1..=140).chain(vec![2703, 3275, 3276, 3277, 3278, 3340]).collect()
    } else {
        vec![1, 2, 25, 26, 27, 51, 52, 53, 54, 61, 62, 63, 64, 103, 104, 105, 113, 114, 115, 116, 176, 177, 178, 3277]
    };
    let ns = sizes.len() as u64;
    r.explore(family(
        "populations of ids",
        ns * 3,
        move |i| {
            let n = sizes[(i / 3) as usize];
            let mut o = String::from("<defs>");
            for k in 0..n {
                let k = if i % 3 == 1 { n - 1 - k } else { k };
                o.push_str(&format!("<path id='{}' d='M {} 2 L 3 4'/>", popid(k, i % 3), k));
            }
            o.push_str("</defs>");
            for k in 0..n {
                o.push_str(&format!("<use xlink:href='#{}' x='1'/><use xlink:href='#{}' y='2' fill='red'/>", popid(k, i % 3), popid(k, i % 3)));
            }
            Some(svg(&o))
        },
        vec![config(&[]), solo(&["trim-ids"]), solo(&["trim-ids", "remove-unreferenced-ids"]), without("trim-ids")],
        check,
    ));
    // ids of three characters: after 62 * 62 of them the first character changes too
    let sizes: &'static [u64] = if t { &[3277, 3338, 3339, 7119, 7120, 7121, 7122, 7190, 11000] } else { &[7130] };
    r.explore(family(
        "populations of ids of three characters",
        sizes.len() as u64,
        move |i| {
            let n = sizes[i as usize];
            let mut o = String::new();
            for k in 0..n {
                o.push_str(&format!("<path id='q{}' d='M {} 2 L 3 4'/>", k, k));
            }
            for k in [0, 1, n / 2, n - 2, n - 1] {
                o.push_str(&format!("<use xlink:href='#q{}'/>", k));
            }
            Some(svg(&o))
        },
        vec![solo(&["trim-ids"])],
        check,
    ));
    // which ids are dropped: referenced and unreferenced ids in every arrangement
    let el: &'static [&'static str] = &[
        "<path id='{}' d='M 1 2 L 30 40 L 5 {n}'/>",
        "<g id='{}'><path d='M 1 2 L 30 40 L 5 {n}'/><circle r='3'/></g>",
        "<use xlink:href='#p' id='{}' x='{n}'/>",
        "<use xlink:href='#q' id='{}' x='{n}'/>",
        "<g fill='red' id='{}'><use xlink:href='#q' y='{n}'/></g>",
        "<defs id='{}'><path id='w{n}' d='M 1 1 L 9 9'/></defs>",
        "<title id='{}'>t</title>",
        "<text id='{}'>t{n}<tspan id='t{n}'>u</tspan></text>",
    ];
    let idn: &'static [&'static str] = &["p", "q", "a", "b"];
    let dims = [8, 8, 8, 8, 24];
    r.explore(family(
        "referenced and unreferenced ids",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let perm = permutation(k[4], 4);
            // the four ids in every order over four elements
            let mut o = String::new();
            for n in 0..4 {
                o.push_str(&el[k[n]].replace("{}", idn[perm[n]]).replace("{n}", &(n + 1).to_string()));
            }
            // no self references
            let who = |id: usize| (0..4).find(|n| perm[*n] == id).unwrap();
            let refs = |n: usize| match k[n] {
                2 => Some(0),
                3 | 4 => Some(1),
                _ => None,
            };
            for s in 0..4 {
                let mut n = s;
                let mut c = 0;
                while let Some(t) = refs(n) {
                    n = who(t);
                    c += 1;
                    if c > 4 {
                        return None;
                    }
                }
            }
            if !t && k[0] > k[1] {
                return None;
            }
            Some(svg(&o))
        },
        vec![config(&[]), solo(&["remove-unreferenced-ids"]), solo(&["trim-ids"]), without("remove-unreferenced-ids"), solo(&["resolve-use", "remove-unreferenced-ids"])],
        check,
    ));
    // long chains of references
    r.explore(runs(
        "long chains of references",
        strings(&[
            "<g id='e{i}'><use xlink:href='#e{j}' x='1'/></g>",
            "<use id='e{i}' xlink:href='#e{j}' y='{i}'/>",
            "<g id='e{i}' transform='translate(1)'><use xlink:href='#e{j}'/><circle r='{i}'/></g>",
            "<symbol id='e{i}'><use xlink:href='#e{j}'/></symbol>",
            "<g id='e{i}'><mask id='m{i}'><use xlink:href='#e{j}' fill='#fff'/></mask><rect width='9' height='{i}' mask='url(#m{i})'/></g>",
            "<g id='e{i}'><pattern id='m{i}' width='5' height='6' patternUnits='userSpaceOnUse'><use xlink:href='#e{j}'/></pattern><rect width='9' height='7' fill='url(#m{i})'/></g>",
            "<g id='e{i}'><clipPath id='m{i}'><circle r='{i}'/></clipPath><g clip-path='url(#m{i})'><use xlink:href='#e{j}'/></g></g>",
            "<g id='e{i}'><path d='M 1 2 L 3 {i} L 9 9'/></g>",
        ]),
        3..=if t { 8 } else { 6 },
        true,
        |v| Some(svg(&format!("<defs><path id='e-1' d='M 1 1 L 9 9 L 0 7'/>{}</defs><use xlink:href='#e{}' fill='red'/>", v.concat(), v.len() - 1))),
        vec![config(&[]), solo(&[]), solo(&["resolve-use"]), solo(&["resolve-use", "ungroup-groups", "remove-unused-defs", "trim-ids"]), solo(&["ungroup-defs"])],
        picture_and_ids,
    ));
}

fn popid(k: u64, mode: u64) -> String {
    match mode {
        0 => format!("i{}", k),
        1 => format!("n-{:04}", 9999 - k),
        // ids that are short names themselves, shifted
        _ => {
            let c: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
            let k = k as usize + 7;
            let mut s = String::new();
            if k >= 52 {
                s.push(c[(k / 52 - 1) % 52]);
                if k / 52 - 1 >= 52 {
                    s.push_str(&format!("{}", (k / 52 - 1) / 52));
                }
            }
            s.push(c[k % 52]);
            s
        }
    }
}

pub fn permutation(mut k: usize, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut f: usize = (1..n).product();
    let mut v = vec![];
    for i in (0..n).rev() {
        v.push(left.remove(k / f));
        k %= f;
        if i > 0 {
            f /= i;
        }
    }
    v
}

/// Same picture, unique ids, resolving references; short names are short and ids only vanish when unreferenced.
fn check(c: &Case, note: &mut Note) -> Result<(), String> {
    picture_and_ids(c, note)?;
    let o = match c.out {
        Outcome::Ok(o) => o,
        _ => return Ok(()),
    };
    let on = |name: &str| c.cfg.on(name);
    let (pi, po) = (c.pre.xml().as_ref().map_err(|e| e.clone())?, Pre::new(o));
    let po = po.xml().as_ref().map_err(|e| e.clone())?;
    let ids = |x: &crate::xml::Xml| -> Vec<String> { x.all_elems().iter().filter_map(|n| x.attr(*n, "id")).map(|s| s.to_string()).collect() };
    let (a, b) = (ids(pi), ids(po));
    if on("trim-ids") {
        // names are taken in order of length; elements removed afterwards may leave gaps
        let max = short(a.len().max(b.len()) + if c.cfg.on("regroup-gradient-stops") { a.len() } else { 0 }).len();
        if let Some(n) = b.iter().find(|n| n.len() > max || !n.chars().all(|c| c.is_ascii_alphanumeric()) || n.as_bytes()[0].is_ascii_digit()) {
            return Err(format!("id '{}' is not a short one", n));
        }
    } else if let Some(n) = b.iter().find(|n| !a.contains(n) && !n.starts_with("lg")) {
        return Err(format!("id '{}' appeared", n));
    }
    if on("remove-unreferenced-ids") {
        for n in &b {
            if !o.contains(&format!("#{}\"", esc(n))) && !o.contains(&format!("url(#{})", esc(n))) {
                return Err(format!("unreferenced id '{}' is left", n));
            }
        }
    }
    Ok(())
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;")
}

/// The n-th valid id: a..Z, aa..
fn short(mut n: usize) -> String {
    let h: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    let t: Vec<char> = h.iter().cloned().chain('0'..='9').collect();
    let mut len = 1;
    let mut count = 52;
    while n >= count {
        n -= count;
        count *= 62;
        len += 1;
    }
    let mut v = vec![];
    for _ in 1..len {
        v.push(t[n % 62]);
        n /= 62;
    }
    v.push(h[n]);
    v.iter().rev().collect()
}

//! C04: presentation properties: cascade, inheritance, grouping.
use crate::engine::*;
use crate::fam::*;

fn cfgs() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&["ungroup-groups"]),
        solo(&["group-by-style"]),
        solo(&["remove-needless-attributes"]),
        solo(&["remove-default-attributes"]),
        solo(&["remove-default-attributes", "remove-needless-attributes", "group-by-style"]),
        solo(&["ungroup-groups", "group-by-style"]),
        solo(&["remove-text-attributes"]),
        solo(&["resolve-use"]),
        config(&["--join-style-attributes=all"]),
        solo(&[]),
    ]
}

/// Properties with two values that are not the default, and the default.
const PROPS: &[(&str, [&str; 3])] = &[
    ("fill", ["red", "none", "black"]),
    ("stroke", ["red", "#00ff00", "none"]),
    ("fill-opacity", ["0.5", "0", "1"]),
    ("stroke-opacity", ["0.5", "0", "1"]),
    ("stroke-width", ["3", "0", "1"]),
    ("stroke-linecap", ["round", "square", "butt"]),
    ("stroke-linejoin", ["round", "bevel", "miter"]),
    ("stroke-miterlimit", ["7", "1", "4"]),
    ("stroke-dasharray", ["5 2", "1,2,3", "none"]),
    ("stroke-dashoffset", ["3", "10%", "0"]),
    ("fill-rule", ["evenodd", "evenodd", "nonzero"]),
    ("clip-rule", ["evenodd", "evenodd", "nonzero"]),
    ("visibility", ["hidden", "collapse", "visible"]),
    ("display", ["none", "block", "inline"]),
    ("opacity", ["0.5", "0", "1"]),
    ("overflow", ["visible", "scroll", "hidden"]),
    ("shape-rendering", ["crispEdges", "optimizeSpeed", "auto"]),
    ("text-rendering", ["optimizeLegibility", "optimizeSpeed", "auto"]),
    ("image-rendering", ["optimizeSpeed", "optimizeQuality", "auto"]),
    ("color-interpolation", ["linearRGB", "auto", "sRGB"]),
    ("color-rendering", ["optimizeSpeed", "optimizeQuality", "auto"]),
    ("pointer-events", ["none", "all", "visiblePainted"]),
    ("cursor", ["help", "wait", "auto"]),
    ("font-size", ["20", "2em", "medium"]),
    ("font-weight", ["bold", "700", "normal"]),
    ("text-anchor", ["middle", "end", "start"]),
    ("letter-spacing", ["3", "1em", "normal"]),
    ("color", ["red", "#0f0", "black"]),
];

/// Leaves that have something to paint for every property.
const LEAVES: &[&str] = &[
    "<path d='M 1 2 L 30 40 L 5 60 Z' {}/>",
    "<rect x='1' y='2' width='30' height='20' {}/>",
    "<text x='5' y='6' {}>ab<tspan>c</tspan></text>",
    "<image width='9' height='8' xlink:href='a.png' {}/>",
    "<svg x='3' width='30' height='20' {}><circle r='40' stroke='green'/></svg>",
];

fn val(k: usize, p: usize) -> Option<String> {
    // 0: absent; 1..=3 values; 4: inherit
    match k {
        0 => None,
        4 => Some("inherit".into()),
        k => Some(PROPS[p].1[k - 1].into()),
    }
}

fn attr(p: usize, v: &Option<String>, style: bool) -> String {
    match v {
        None => String::new(),
        Some(v) => {
            if style {
                format!("style='{}:{}'", PROPS[p].0, v)
            } else {
                format!("{}='{}'", PROPS[p].0, v)
            }
        }
    }
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let np = PROPS.len();
    // one property at every level
    let dims = [np, LEAVES.len(), 5, 5, 5, 3, if t { 4 } else { 2 }];
    r.explore(family(
        "one property on group, group and leaf",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let p = k[0];
            let (a, b, c) = (val(k[2], p), val(k[3], p), val(k[4], p));
            // 'inherit' without anything to inherit from is refused by design
            let set = |v: &Option<String>| v.is_some() && v.as_deref() != Some("inherit");
            if k[2] == 4 || (k[3] == 4 && !set(&a)) || (k[4] == 4 && !set(&b) && k[3] != 4 && !set(&a)) {
                return None;
            }
            let base = if k[1] < 3 { "stroke='blue'" } else { "" };
            let base = if PROPS[p].0 == "stroke" { "" } else { base };
            let leaf = LEAVES[k[1]].replace("{}", &format!("{} {}", base, attr(p, &c, k[6] & 1 == 1)));
            let other = ["", "<path d='M 9 9 L 30 40 L 5 60'/>", "<path d='M 9 9 L 30 40 L 5 60'/><text>x</text><g><path d='M 1 2 L 3 4'/></g>"][k[5]];
            let (pre, post) = if k[6] & 2 == 2 { (other, "") } else { ("", other) };
            Some(svg(&format!(
                "<g {}>{}<g {}>{}</g>{}</g>",
                attr(p, &a, false),
                pre,
                attr(p, &b, k[6] & 1 == 1),
                leaf,
                post
            )))
        },
        cfgs(),
        same_picture,
    ));
    // the same property reached through use: on use, its parent, the target's parent and the target
    let dims = [np, 3, 4, 4, 4, 4, 4];
    r.explore(family(
        "one property around use",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let p = k[0];
            let base = if PROPS[p].0 == "stroke" { "" } else { "stroke='blue'" };
            if !t && k[2..6].iter().filter(|x| **x == 0).count() < 2 {
                return None;
            }
            let leaf = LEAVES[k[1]].replace("{}", &format!("{} {}", if k[6] & 1 == 1 { "id='u'" } else { base }, attr(p, &val(k[2], p), false)));
            let tg = format!("<g {} {}>{}</g>", if k[6] & 1 == 0 { "id='u'" } else { "" }, attr(p, &val(k[3], p), false), leaf);
            let us = format!("<g {}><use xlink:href='#u' x='1' {}/></g>", attr(p, &val(k[4], p), false), attr(p, &val(k[5], p), false));
            let us = if k[6] & 1 == 1 { us.replace("<g ", &format!("<g {} ", base)) } else { us };
            Some(svg(&if k[6] & 2 == 0 { format!("<defs>{}</defs>{}", tg, us) } else { format!("{}{}", us, tg) }))
        },
        cfgs(),
        same_picture,
    ));
    // through which containers a value reaches the leaf
    let cont: &'static [&'static str] = &[
        "<g {1}>{}</g>",
        "<a xlink:href='http://x' {1}>{}</a>",
        "<switch {1}>{}</switch>",
        "<svg width='90' height='80' {1}>{}</svg>",
        "<symbol id='s{0}' {1}>{}</symbol><use xlink:href='#s{0}'/>",
        "<defs {1}><g id='d{0}'>{}</g></defs><use xlink:href='#d{0}' {2}/>",
        "<pattern id='p{0}' width='20' height='20' patternUnits='userSpaceOnUse' {1}>{}</pattern><circle r='30' fill='url(#p{0})'/>",
        "<mask id='m{0}' {1}>{}</mask><rect width='30' height='20' mask='url(#m{0})'/>",
        "<marker id='k{0}' markerWidth='9' markerHeight='9' {1}>{}</marker><path d='M 1 2 L 30 40' stroke='#abc' marker-end='url(#k{0})'/>",
        "<clipPath id='c{0}' {1}>{}</clipPath><rect width='30' height='20' clip-path='url(#c{0})'/>",
    ];
    let pr: &'static [(&'static str, &'static [&'static str], &'static [&'static str])] = &[
        ("color", &["red", "lime"], &["fill='currentColor'", "stroke='currentColor' fill='none'", "fill='currentColor' color='blue'", "fill='currentColor' color='inherit'"]),
        ("fill", &["red", "none"], &["", "fill='inherit'", "fill='blue'", "stroke='red'"]),
        ("stroke", &["red", "none"], &["", "stroke='inherit'", "stroke='blue'", "stroke='red'"]),
        ("stroke-width", &["3", "10%"], &["stroke='red'", "stroke-width='inherit' stroke='red'", "stroke='red' stroke-width='1'"]),
        ("fill-opacity", &[".5", "0"], &["", "fill-opacity='inherit'", "fill-opacity='1'"]),
        ("visibility", &["hidden", "visible"], &["", "visibility='inherit'", "visibility='visible'"]),
        ("opacity", &[".5", "1"], &["", "opacity='inherit'", "opacity='.25'"]),
        ("display", &["none", "inline"], &["", "display='inherit'", "display='inline'"]),
        ("font-size", &["20", "2em"], &["stroke-width='1em' stroke='red'", "font-size='inherit' stroke-width='1em' stroke='red'", "font-size='50%' stroke-width='1em' stroke='red'"]),
        ("clip-rule", &["evenodd", "nonzero"], &["", "clip-rule='inherit'", "clip-rule='nonzero'"]),
        ("stroke-dasharray", &["5 2", "none"], &["stroke='red'", "stroke-dasharray='inherit' stroke='red'", "stroke='red' stroke-dasharray='none'"]),
    ];
    let dims = [pr.len(), 4, cont.len(), 3, cont.len() + 1, 3, if t { 3 } else { 1 }];
    r.explore(family(
        "containers between a property and the leaf",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let (name, vs, leaf) = pr[k[0]];
            if k[1] >= leaf.len() || k[4] == cont.len() && k[5] > 0 {
                return None;
            }
            let set = |v: usize| if v == 0 { String::new() } else { format!("{}='{}'", name, vs[v - 1]) };
            let put = |c: usize, n: usize, v: usize, x: &str| {
                if c == cont.len() {
                    return x.to_string();
                }
                cont[c].replace("{0}", &n.to_string()).replace("{1}", &set(v)).replace("{2}", &if v == 0 { set(1) } else { String::new() }).replace("{}", x)
            };
            let leaf = format!("<path d='M 1 2 L 30 40 L 5 60' {}/>", leaf[k[1]]);
            Some(svg(&format!("<g {}>{}</g>", set(k[6]), put(k[2], 1, k[3], &put(k[4], 2, k[5], &leaf)))))
        },
        cfgs(),
        same_or_inherit_refused,
    ));
    // grouping by style: every list of siblings
    let kids: &'static [&'static str] = &[
        "<path d='M 1 2 L 30 40 L 5 60 Z' fill='red'/>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' fill='red' stroke='blue' stroke-width='2'/>",
        "<rect width='5' height='6' stroke='blue' stroke-width='2' rx='1'/>",
        "<circle r='5' fill='red' opacity='.5' transform='translate(3)'/>",
        "<text fill='red' font-size='20'>a</text>",
        "<g fill='red' transform='translate(3)'><circle r='5'/><circle r='6' fill='green'/></g>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' fill='none' stroke='blue' transform='translate(3)'/>",
        "<use xlink:href='#u' fill='red' stroke='blue'/>",
        "<image width='5' height='6' xlink:href='a.png' opacity='.5'/>",
        "<path d='M 1 2 L 30 40' clip-path='url(#c)' fill='red'/>",
    ];
    let wraps: &'static [&'static str] = &[
        "{}",
        "<g>{}</g>",
        "<g fill='green' transform='scale(2)'>{}</g>",
        "<g opacity='.5' stroke='none'>{}<path d='M 1 2 L 3 9'/></g>",
        "<switch>{}</switch>",
        "<a xlink:href='http://x' fill='red'>{}</a>",
        "<g id='h'>{}</g><use xlink:href='#h' fill='blue'/>",
        "<pattern id='q' width='10' height='10' patternUnits='userSpaceOnUse'>{}</pattern><circle r='30' fill='url(#q)'/>",
        "<clipPath id='q'>{}</clipPath><circle r='30' clip-path='url(#q)'/>",
        "<mask id='q'>{}</mask><circle r='30' mask='url(#q)'/>",
        "<marker id='q' markerWidth='9' markerHeight='9'>{}</marker><path d='M 1 2 L 3 4' stroke='red' marker-end='url(#q)'/>",
        "<symbol id='q'>{}</symbol><use xlink:href='#q' x='1' stroke='red'/>",
        "<svg x='1' width='40' height='30' fill='red'>{}</svg>",
        "<defs><g id='h' fill='red'>{}</g></defs><use xlink:href='#h' stroke='green'/>",
    ];
    let len = if t { 5 } else { 4 };
    let total = seq_count(kids.len(), len);
    let mut gc = vec![
        config(&[]),
        solo(&["group-by-style"]),
        solo(&["ungroup-groups"]),
        config(&["--join-style-attributes=all", "--ungroup-groups=false"]),
    ];
    if t {
        gc.push(solo(&["group-by-style", "ungroup-groups", "remove-default-attributes"]));
    }
    let nk = kids.len();
    r.explore(family(
        "lists of styled siblings in every kind of parent",
        total * wraps.len() as u64,
        move |i| {
            let n = wraps.len() as u64;
            let s: String = seq(i / n, nk).iter().map(|k| kids[*k]).collect();
            Some(svg(&format!(
                "<defs><path id='u' d='M 1 1 L 9 9 L 0 7'/><clipPath id='c'><circle r='9'/></clipPath></defs>{}",
                wraps[(i % n) as usize].replace("{}", &s)
            )))
        },
        gc,
        same_picture,
    ));
    shared(r, "siblings with a property in common", &["fill='red'", "stroke='blue' fill='none'", "fill='url(#G)'", "stroke='blue' marker-end='url(#K)'", "color='red' fill='currentColor'", "visibility='hidden'", "fill='red' transform='scale(2)'", "font-size='20' stroke='blue' stroke-width='.2em'"]);
    // longer lists over few styles: ranges of equal styles
    let few: &'static [&'static str] = &[
        "<path d='M 1 2 L 30 40 L 5 60 Z' {}/>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' fill='red' {}/>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' fill='red' stroke='blue' {}/>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' stroke='blue' fill-rule='evenodd' {}/>",
    ];
    let len = if t { 8 } else { 6 };
    let total = seq_count(4, len);
    r.explore(family(
        "ranges of equal styles",
        total * 3,
        move |i| {
            let s: String = seq(i / 3, 4).iter().enumerate().map(|(n, k)| few[*k].replace("{}", if i % 3 == 1 && n % 2 == 0 { "transform='scale(3)'" } else { "" })).collect();
            Some(svg(&if i % 3 == 2 { format!("<g fill='green'>{}</g>", s) } else { s }))
        },
        vec![config(&[]), solo(&["group-by-style"]), solo(&["group-by-style", "ungroup-groups"]), config(&["--indent=2", "--join-style-attributes=no", "--group-by-style=true"])],
        same_picture,
    ));
    // ungrouping: attributes of the group against those of the children
    let ga: &[&str] = &[
        "", "fill='red'", "stroke='blue' stroke-width='3'", "opacity='.5'", "visibility='hidden'", "display='inline'", "transform='scale(2)'", "style='fill:green;opacity:.25'",
        "clip-path='url(#c)'", "mask='url(#m)'", "filter='url(#f)'", "id='z' fill='red'", "color='red'", "xml:space='preserve'", "overflow='visible'",
        "font-size='20' fill='#123'", "marker-end='url(#k)'", "enable-background='new'", "class='x'", "cursor='help'", "pointer-events='none' shape-rendering='crispEdges'",
        "display='none'", "transform='scale(2)' opacity='.5'",
    ];
    let gk: &[&str] = &[
        "", "fill='blue'", "fill='inherit'", "fill='none' stroke='currentColor'", "opacity='.5'", "visibility='visible'", "display='none'", "transform='translate(3 4)'",
        "clip-path='url(#c2)'", "mask='url(#m)'", "filter='url(#f)'", "id='y'", "marker-end='none'", "style='stroke:red'", "stroke-width='0' stroke='red'", "display='inline'",
    ];
    let gt: &[&str] = &[
        "<path d='M 1 2 L 30 40 L 5 60' {1}/>",
        "<g {1}><path d='M 1 2 L 30 40 L 5 60'/><text>a</text></g>",
        "<path d='M 1 2 L 30 40 L 5 60' {1}/><rect width='3' height='4'/>",
        "<text {1}>a b<tspan fill='red'>c</tspan></text>",
        "<use xlink:href='#u' {1}/>",
        "<image width='5' height='6' xlink:href='a.png' {1}/>",
        "<svg width='5' height='6' {1}><circle r='9'/></svg>",
        "<a xlink:href='http://x' {1}><circle r='9'/></a>",
        "<switch {1}><circle r='9'/><circle r='8'/></switch>",
        "<defs><path id='w' d='M 1 2 L 7 7 L 5 60' {1}/></defs><use xlink:href='#w'/>",
        "<symbol id='w' {1}><circle r='9'/></symbol><use xlink:href='#w'/>",
        "<linearGradient id='w' {1}><stop/><stop offset='1' stop-color='red'/></linearGradient><circle r='9' fill='url(#w)'/>",
    ];
    r.explore(grid(
        "group attributes against child attributes",
        "<defs><path id='u' d='M 1 1 L 9 9 L 0 7'/><clipPath id='c'><circle r='9'/></clipPath><clipPath id='c2'><circle r='7'/></clipPath><mask id='m'><circle r='9' fill='white'/></mask><filter id='f'><feGaussianBlur stdDeviation='2'/></filter><marker id='k' markerWidth='5' markerHeight='4'><path d='M 0 0 L 3 2 L 0 4'/></marker></defs>{3}",
        &[ga, gk, gt, &["<g {0}>{2}</g>", "<g {0}>{2}</g><use xlink:href='#z'/><use xlink:href='#y'/>", "<g fill='#abc' color='#def' marker-end='url(#k)'><g {0}>{2}</g></g>", "<switch><g {0}>{2}</g></switch>"]],
        cfgs(),
        same_or_inherit_refused,
    ));
    // where values come from: attribute, style, CSS rules
    let css: &[&str] = &[
        "", "path{fill:red}", ".a{fill:green}", "#i{fill:blue}", ".a{fill:green}.b{fill:yellow}", ".b{fill:yellow}.a{fill:green}",
        "path{fill:red}.a{stroke:#123}", "*{fill:red}", "/* c */.a{/*x*/fill:green;stroke-width:3}", ".a,.b{fill:green;;}",
    ];
    r.explore(grid(
        "attribute, style and CSS rules",
        "<style{4}>{0}</style><g {3}><path d='M 1 2 L 30 40 L 5 60' {1} {2} stroke='red'/><circle class='b' r='4'/></g>",
        &[
            css,
            &["", "fill='orange'", "fill='inherit'"],
            &["", "class='a'", "class='b a'", "class='a b' id='i'", "style='fill:navy'", "class='a' style='fill:navy;stroke-width:2'", "style='fill:navy;fill:teal'", "style=' fill : navy ; '", "class='c'"],
            &["", "fill='#999'", "class='a'", "style='fill:#888;color:red'"],
            &["", " type='text/css'"],
        ],
        cfgs(),
        same_or_inherit_refused,
    ));
    // the same through use
    let uc: &[&str] = &["", "color='red'", "fill='currentColor'", "fill='inherit'", "color='#123' fill='inherit'", "color='inherit' stroke='currentColor'", "fill='green'"];
    r.explore(grid(
        "color, currentColor and inherit through use",
        "<g {0}><defs><g id='u' {1}><path d='M 1 2 L 30 40 L 5 60' {2}/></g></defs></g><g {3}><use xlink:href='#u' {4}/>{5}</g>",
        &[&["", "color='red'", "fill='red'", "color='#111' fill='currentColor'"], uc, uc, uc, uc, &["", "<use xlink:href='#u' x='1' color='teal'/>"]],
        cfgs(),
        same_or_inherit_refused,
    ));
    // currentColor and inherit chains
    let cc: &[&str] = &["", "color='red'", "color='inherit'", "fill='currentColor'", "color='#123' fill='currentColor'", "fill='inherit'", "stroke='currentColor' color='#456'", "style='color:green;fill:currentColor'"];
    r.explore(grid(
        "color, currentColor and inherit",
        "<g {0}><g {1}><path d='M 1 2 L 30 40 L 5 60' {2}/><rect width='3' height='4' {3}/></g></g>{4}",
        &[cc, cc, cc, &["", "fill='inherit'", "stroke='currentColor'", "id='k' fill='currentColor'"], &["", "<linearGradient id='g'><stop stop-color='currentColor' {0}/><stop offset='1'/></linearGradient><circle r='9' fill='url(#g)'/>"]],
        cfgs(),
        same_or_inherit_refused,
    ));
    // long lists and deep groups
    r.explore(runs(
        "long lists of siblings",
        strings(&[
            "<path d='M {i} 2 L 30 40 L 5 60'/>",
            "<path d='M {i} 2 L 30 40 L 5 60' fill='red'/>",
            "<path d='M {i} 2 L 30 40 L 5 60' fill='red' stroke='lime' opacity='.5'/>",
            "<path d='M {i} 2 L 30 40 L 5 60' fill='red' stroke='blue'/>",
            "<path d='M {i} 2 L 30 40 L 5 60' stroke='lime' transform='rotate(30)'/>",
            "<g fill='red'><path d='M {i} 2 L 30 40 L 5 60'/><circle r='3' stroke='lime'/></g>",
            "<text fill='red' x='{i}'>a</text>",
            "<g id='g{i}'/>",
            "<!--c-->",
            "<circle r='{i}' fill='red' opacity='.5'/>",
            "<use xlink:href='#u' fill='red'/>",
        ]),
        5..=if t { 18 } else { 12 },
        true,
        |v| Some(svg(&format!("<defs><path id='u' d='M 1 1 L 9 9 L 0 7'/></defs>{}", v.concat()))),
        vec![config(&[]), solo(&["group-by-style"]), solo(&["group-by-style", "ungroup-groups"])],
        same_picture,
    ));
    r.explore(runs(
        "deep groups",
        strings(&[
            "<g>|</g>",
            "<g fill='red'>|</g>",
            "<g fill='none'>|</g>",
            "<g opacity='.5'>|</g>",
            "<g fill='red' stroke='lime'>|</g>",
            "<g fill='inherit'>|</g>",
            "<g color='blue' stroke='currentColor'>|</g>",
            "<a fill='lime'>|</a>",
            "<g stroke='blue'>|<circle r='3'/></g>",
            "<switch fill='blue'>|</switch>",
            "<g display='none'>|</g>",
            "<g visibility='hidden'>|</g>",
            "<g visibility='visible'>|</g>",
        ]),
        4..=if t { 10 } else { 7 },
        true,
        |v| Some(svg(&nested(v, "<path d='M 1 2 L 30 40 L 5 60'/><rect width='9' height='8' fill='lime'/>"))),
        vec![config(&[]), solo(&["ungroup-groups"]), solo(&["remove-default-attributes", "remove-needless-attributes", "ungroup-groups"])],
        same_or_refused,
    ));
}

/// 'inherit' and 'currentColor' that have nothing to refer to are refused by design.
pub fn same_or_inherit_refused(c: &Case, note: &mut Note) -> Result<(), String> {
    if let Outcome::Err(e) = c.out {
        if e.contains("failed to resolved attribute") && (c.pre.text.contains("inherit") || c.pre.text.contains("currentColor")) {
            note.observed = fnv(e);
            return Ok(());
        }
    }
    same_picture(c, note)
}

/// Siblings that have something in common and one that differs, in every kind of parent.
pub fn shared(r: &mut Run, name: &str, what: &'static [&'static str]) {
    const PARENTS: &[&str] = &[
        "{}",
        "<g>{}</g>",
        "<g fill='url(#G)'>{}</g>",
        "<g stroke='url(#P)' stroke-width='2'>{}</g>",
        "<g clip-path='url(#C)'>{}</g>",
        "<g mask='url(#M)'>{}</g>",
        "<g filter='url(#F)'>{}</g>",
        "<g stroke='red' marker-start='url(#K)'>{}</g>",
        "<g opacity='.5'>{}</g>",
        "<g transform='scale(2)'>{}</g>",
        "<g font-size='20'>{}</g>",
        "<g fill='blue' stroke='lime'>{}</g>",
        "<svg width='60' height='50'>{}</svg>",
        "<g><svg width='60' height='50'>{}</svg></g>",
        "<a xlink:href='http://x'><svg width='60' height='50'>{}</svg></a>",
        "<svg width='60' height='50'><g>{}</g></svg>",
        "<g id='h'>{}</g><use xlink:href='#h' x='3' fill='blue' stroke='lime'/>",
        "<defs><g id='h'>{}</g></defs><g transform='scale(2)'><use xlink:href='#h' stroke='lime'/></g>",
        "<symbol id='h'>{}</symbol><use xlink:href='#h' fill='blue' stroke='lime'/>",
        "<switch>{}</switch>",
        "<pattern id='h' width='40' height='40' patternUnits='userSpaceOnUse'><g>{}</g></pattern><circle r='30' fill='url(#h)'/>",
    ];
    const ODD: &[&str] = &[
        "<path d='M 1 2 L 30 40 L 5 60 Z'/>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' font-size='30' @/>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' clip-path='url(#C)' @/>",
        "<path d='M 1 2 L 30 40 L 5 60 Z' filter='url(#F)' opacity='.5' @/>",
        "<path id='v' d='M 1 2 L 30 40 L 5 60 Z' @/><use xlink:href='#v' y='9'/>",
        "<use id='v' xlink:href='#z' @/><use xlink:href='#v' y='9'/>",
        "<use xlink:href='#z' x='9' @/>",
        "<g id='v' @><path d='M 1 2 L 30 40 L 5 60 Z'/><circle r='9'/></g><use xlink:href='#v' x='9' stroke='lime'/>",
        "<g @><path id='v' d='M 1 2 L 30 40 L 5 60 Z'/></g><use xlink:href='#v' x='9' stroke='lime'/>",
        "<g @><text font-size='9' stroke-width='1em'>a</text><circle r='9'/></g>",
        "<text @>a<tspan font-size='150%'>b</tspan></text>",
        "<svg width='30' height='20'><path d='M 1 2 L 30 40 L 5 60 Z' @/></svg>",
        "<a xlink:href='http://y' @><path d='M 1 2 L 30 40 L 5 60 Z'/></a>",
        "<defs><path id='v' d='M 1 2 L 30 40 L 5 60 Z' @/></defs><use xlink:href='#v'/>",
        "<linearGradient id='v'><stop stop-color='red'/><stop offset='1' @/></linearGradient><rect width='9' height='8' fill='url(#v)' @/>",
        "<m:e/><path d='M 1 2 L 30 40 L 5 60 Z' @/>",
        "<!-- c --><title>t</title><switch @><circle r='9'/></switch>",
    ];
    let dims = [PARENTS.len(), what.len(), ODD.len(), 6, 2];
    r.explore(family(
        name,
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let (n, at) = [(2, 0), (2, 1), (3, 2), (3, 1), (4, 3), (4, 0)][k[3]];
            let own = "<path d='M 1 2 L 30 40 L 5 60 Z' @/>";
            let s: String = (0..n).map(|j| if j == at { ODD[k[2]] } else if k[4] == 1 && j % 2 == 0 { "<rect x='3' width='9' height='8' @/>" } else { own }).collect();
            if PARENTS[k[0]].starts_with("<switch") && (s.contains("<use") || s.contains("id=")) {
                return None;
            }
            let d = format!(
                "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:m='urn:m' viewBox='0 0 200 100'><defs><path id='z' d='M 1 1 L 9 9 L 0 7'/><clipPath id='C'><rect width='20' height='9'/></clipPath><mask id='M'><rect width='30' height='30' fill='#fff'/></mask><filter id='F'><feGaussianBlur stdDeviation='2'/></filter><pattern id='P' width='5' height='6' patternUnits='userSpaceOnUse'><circle r='2'/></pattern><marker id='K'><path d='M 0 0 L 2 2 L 0 2'/></marker><linearGradient id='G'><stop stop-color='red'/><stop offset='1' stop-color='lime'/></linearGradient></defs>{}</svg>",
                PARENTS[k[0]].replace("{}", &s.replace('@', what[k[1]]))
            );
            crate::xml::parse(&d).ok()?;
            Some(d)
        },
        vec![config(&[]), solo(&["group-by-style"]), solo(&["group-by-style", "ungroup-groups"]), config(&["--apply-transform-to-paths=true", "--join-style-attributes=all"])],
        same_picture,
    ));
}

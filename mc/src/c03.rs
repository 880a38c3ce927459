//! C03: transforms.
use crate::engine::*;
use crate::fam::*;

const DEFS: &str = "<defs><linearGradient id='lg'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient><linearGradient id='lu' gradientUnits='userSpaceOnUse' x1='1' y1='2' x2='30' y2='40'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient><pattern id='p' width='10' height='10' patternUnits='userSpaceOnUse'><rect width='5' height='5' fill='red'/></pattern><clipPath id='c'><circle r='9'/></clipPath><mask id='ma'><circle r='9' fill='white'/></mask><marker id='k' markerWidth='5' markerHeight='4' orient='auto'><path d='M 0 0 L 3 2 L 0 4'/></marker><marker id='ku' markerUnits='userSpaceOnUse' markerWidth='5' markerHeight='4'><path d='M 0 0 L 3 2 L 0 4'/></marker><filter id='f' filterUnits='userSpaceOnUse' x='0' y='0' width='50' height='50'><feGaussianBlur stdDeviation='2'/></filter></defs>";

fn cfgs() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&["apply-transform-to-shapes"]),
        solo(&["apply-transform-to-paths"]),
        solo(&["apply-transform-to-shapes", "apply-transform-to-paths", "apply-transform-to-gradients"]),
        config(&["--apply-transform-to-paths=true"]),
        config(&["--apply-transform-to-paths=true", "--convert-shapes=false"]),
        solo(&["ungroup-groups"]),
        solo(&["group-by-style"]),
        solo(&["simplify-transforms"]),
        solo(&[]),
    ]
}

pub const TS: &[&str] = &[
    "",
    "transform='translate(5 -7)'",
    "transform='scale(2)'",
    "transform='rotate(30)'",
    "transform='scale(2 3)'",
    "transform='matrix(-1 0 0 1 10 0)'",
    "transform='skewX(20)'",
    "transform='matrix(0 2 -2 0 3 4)'",
    "transform='scale(-2)'",
    "transform='matrix(1 0 0 1 0 0)'",
    "transform='scale(.5) rotate(10 3 4)'",
];

pub fn run(r: &mut Run) {
    let t = r.thorough();
    crate::c04::shared(r, "siblings with a transform or a length in common", &["transform='translate(3 4)'", "transform='scale(2)' stroke='blue'", "transform='scale(2 3)'", "fill='red' transform='rotate(30)'", "transform='scale(2)' fill='url(#G)'", "stroke='blue' stroke-width='.1em'", "stroke='blue' stroke-dasharray='.5em 2'", "stroke='blue' stroke-width='3%' stroke-dashoffset='.2em' stroke-dasharray='5'", "font-size='20' stroke='blue' stroke-width='.2em'", "stroke='blue' stroke-width='.1em' transform='scale(2)'"]);
    let shapes: &[&str] = &[
        "<rect x='1' y='2' width='30' height='20' {0} {1}/>",
        "<rect x='1' y='2' width='30' height='20' rx='4' {0} {1}/>",
        "<circle cx='3' cy='4' r='10' {0} {1}/>",
        "<ellipse cx='3' cy='4' rx='10' ry='5' {0} {1}/>",
        "<line x1='1' y1='2' x2='30' y2='4' {0} {1}/>",
        "<path d='M 10 20 L 30 40 H 50 V 60 Z M 1 2 A 4 5 20 1 0 7 8 q 1 2 3 4 t 5 6 s 1 2 3 4' {0} {1}/>",
        "<polyline points='1 2 30 4 30 40' {0} {1}/>",
        "<polygon points='1 2 30 4 30 40' {0} {1}/>",
        "<text x='3' y='4' {0} {1}>ab</text>",
        "<image x='3' y='4' width='9' height='8' xlink:href='a.png' {0} {1}/>",
        "<use xlink:href='#u' x='3' y='4' {0} {1}/><rect id='u' width='3' height='4'/>",
        "<svg x='3' y='4' width='30' height='20' viewBox='0 0 5 6' {1}><rect width='3' height='4' {0}/></svg>",
    ];
    let pres: &[&str] = &[
        "fill='red'",
        "stroke='red'",
        "stroke='red' stroke-width='3'",
        "stroke='red' stroke-dasharray='5 2' stroke-dashoffset='3' stroke-width='2'",
        "stroke='red' stroke-width='10%'",
        "stroke='red' stroke-width='2mm' stroke-miterlimit='8'",
        "stroke='red' stroke-dasharray='none'",
        "stroke='red' stroke-dasharray='10% 3mm' stroke-dashoffset='5%'",
        "stroke='url(#lu)' stroke-width='3'",
        "fill='url(#lg)'",
        "fill='url(#p)'",
        "fill='red' clip-path='url(#c)'",
        "fill='red' mask='url(#ma)'",
        "fill='red' filter='url(#f)'",
        "stroke='red' marker-end='url(#k)'",
        "stroke='red' marker-end='url(#ku)'",
        "opacity='.5' stroke='red' style='stroke-width:0'",
    ];
    let two = |name: &str, a: &[&str], b: &[&str], ctx: &[&str], sh: &[&str], pr: &[&str]| {
        // shape {own transform} {presentation} inside a context with transform {group}
        grid(name, &format!("{}{{4}}", DEFS), &[a, pr, b, sh, ctx], cfgs(), same_picture)
    };
    let ctx1: &[&str] = &[
        "<g {2}>{3}</g>",
        "<g {2}>{3}<rect width='3' height='4' fill='green'/></g>",
        "<g {2} stroke-width='4' stroke='blue' fill='none'>{3}<path d='M 1 2 L 30 40'/></g>",
        "<g {2}><g>{3}</g><line x2='5' y2='7' stroke='red'/></g>",
        "<g stroke-width='4' stroke-dasharray='7'><g {2}>{3}</g></g>",
    ];
    if t {
        r.explore(two("shapes in transformed groups", TS, TS, ctx1, shapes, pres));
    } else {
        r.explore(two("shapes in transformed groups, own transforms", TS, &TS[..3], ctx1, shapes, &pres[1..4]));
        r.explore(two("shapes in transformed groups, all paints", &TS[..4], &TS[..9], ctx1, shapes, pres));
    }
    // what the group and its children have besides the transform
    let gattr: &[&str] = &[
        "",
        "fill='url(#lu)'",
        "fill='url(#lg)'",
        "stroke='url(#p)'",
        "clip-path='url(#c)'",
        "mask='url(#ma)'",
        "filter='url(#f)'",
        "marker-start='url(#k)'",
        "marker-start='url(#ku)'",
        "opacity='.5'",
        "id='z' stroke='blue'",
        "stroke-width='3' stroke='red'",
        "style='stroke-dasharray:4 1;stroke:red'",
        "display='inline' fill-rule='evenodd'",
    ];
    let kids: &[&str] = &[
        "<rect width='30' height='20' {0}/>",
        "<rect width='30' height='20' {0}/><path d='M 1 2 L 30 40' {1}/>",
        "<g {1}><rect width='30' height='20' {0}/></g>",
        "<g {1}><path d='M 1 2 L 30 40 Z' {0}/><circle r='5' {0}/></g>",
        "<g {1}><text {0}>a</text></g><line x2='4' y2='5' {0} {1}/>",
        "<use xlink:href='#w' {0}/><path id='w' d='M 1 2 L 30 40 Z' {1}/>",
        "<rect width='30' height='20'/><rect width='10%' height='20%' {0} {1}/>",
    ];
    let kattr: &[&str] = &[
        "", "stroke='red'", "fill='none' stroke='url(#lu)'", "clip-path='url(#c)'", "marker-mid='url(#k)'", "stroke-width='5'",
    ];
    r.explore(grid(
        "what groups and children inherit under transforms",
        &format!("{}<g {{2}} {{3}}>{{4}}</g>{{5}}", DEFS),
        &[
            kattr,
            &["", "transform='scale(2)'", "transform='translate(3 4)' stroke='green'", "stroke-width='2' transform='rotate(20)'", "transform='scale(3)' stroke='red' fill='none'"],
            &TS[..8],
            gattr,
            kids,
            &["", "<use xlink:href='#z' x='5'/>", "<g stroke='green' stroke-width='7'><use xlink:href='#w' transform='scale(2)'/></g>"],
        ],
        cfgs(),
        same_picture,
    ));
    // one length in other units at a time
    let lens: &'static [(&'static str, &'static [(&'static str, &'static str)])] = &[
        ("rect", &[("x", "1"), ("y", "2"), ("width", "30"), ("height", "20"), ("rx", "3"), ("ry", "4"), ("stroke-width", "2"), ("stroke-dashoffset", "1"), ("stroke-dasharray", "5 2"), ("stroke-miterlimit", "3")]),
        ("circle", &[("cx", "1"), ("cy", "2"), ("r", "30"), ("stroke-width", "2"), ("stroke-dashoffset", "1"), ("stroke-dasharray", "5 2")]),
        ("ellipse", &[("cx", "1"), ("cy", "2"), ("rx", "30"), ("ry", "20"), ("stroke-width", "2"), ("stroke-dashoffset", "1"), ("stroke-dasharray", "5 2")]),
        ("line", &[("x1", "1"), ("y1", "2"), ("x2", "30"), ("y2", "20"), ("stroke-width", "2"), ("stroke-dashoffset", "1"), ("stroke-dasharray", "5 2")]),
        ("path", &[("d", "M 1 2 L 30 40 H 5"), ("stroke-width", "2"), ("stroke-dashoffset", "1"), ("stroke-dasharray", "5 2")]),
        ("polygon", &[("points", "1 2 30 40 5 40"), ("stroke-width", "2"), ("stroke-dashoffset", "1"), ("stroke-dasharray", "5 2")]),
        ("image", &[("x", "1"), ("y", "2"), ("width", "30"), ("height", "20")]),
        ("use", &[("x", "1"), ("y", "2")]),
        ("svg", &[("x", "1"), ("y", "2"), ("width", "30"), ("height", "20")]),
        ("text", &[("x", "1"), ("y", "2"), ("dx", "3"), ("dy", "4"), ("font-size", "20"), ("letter-spacing", "1"), ("stroke-width", "2")]),
    ];
    let mut elems: Vec<String> = Vec::new();
    for (tag, l) in lens {
        let units: &[&str] = &["2em", "3mm", "10%", "2.5ex", "1.5", "-4", "0"];
        for n in 0..l.len() {
            for (u, v) in units.iter().enumerate() {
                if ["d", "points", "stroke-miterlimit"].contains(&l[n].0) && u > 0 {
                    continue;
                }
                let a: Vec<String> = l
                    .iter()
                    .enumerate()
                    .map(|(m, (k, w))| {
                        let v = if m != n || ["d", "points", "stroke-miterlimit"].contains(k) {
                            w.to_string()
                        } else if *k == "stroke-dasharray" {
                            format!("5 {}", v.trim_start_matches('-'))
                        } else if u == 5 && ["width", "height", "r", "rx", "ry", "stroke-width", "font-size"].contains(k) {
                            "4".into()
                        } else {
                            v.to_string()
                        };
                        format!("{}='{}'", k, v)
                    })
                    .collect();
                let st = if ["image", "use", "svg"].contains(tag) { "" } else { "stroke='red'" };
                let (h, c) = match *tag {
                    "image" => ("xlink:href='a.png'", ""),
                    "use" => ("xlink:href='#u'", ""),
                    "svg" => ("", "<circle r='9' cx='10%'/>"),
                    "text" => ("", "ab"),
                    _ => ("", ""),
                };
                elems.push(format!("<{0} {1} {2} {3} {{}}>{4}</{0}>", tag, a.join(" "), st, h, c));
                // only this one
                elems.push(format!("<{0} {1} {2} {3} {{}}>{4}</{0}>", tag, a.iter().enumerate().filter(|(m, x)| *m == n || x.starts_with("width") || x.starts_with("height") || x.starts_with("r") || x.starts_with("d=") || x.starts_with("points")).map(|x| x.1.clone()).collect::<Vec<_>>().join(" "), st, h, c));
            }
        }
    }
    let ctx: &'static [&'static str] = &["{}", "<g {1}>{}</g>", "<g {1}>{}<circle r='7' fill='lime'/></g>", "<svg width='50' height='60' viewBox='0 0 30 20'><g {1}>{}</g></svg>"];
    let tn = if t { TS.len() } else { 6 };
    let dims = [elems.len(), tn, if t { 5 } else { 3 }, ctx.len()];
    r.explore(family(
        "one length in other units",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            if k[3] == 0 && k[2] > 0 || k[1] == 0 && k[3] > 0 && k[2] == 0 {
                return None;
            }
            // a nested svg cannot be transformed
            if elems[k[0]].starts_with("<svg") && k[1] > 0 {
                return None;
            }
            let e = elems[k[0]].replace("{}", TS[k[1]]);
            let u = if e.starts_with("<use") { "<defs><path id='u' d='M 1 2 L 30 40 L 5 60'/></defs>" } else { "" };
            Some(svg(&format!("{}{}", u, ctx[k[3]].replace("{1}", TS[k[2]]).replace("{}", &e))))
        },
        cfgs(),
        same_picture,
    ));
    // lengths that are inherited through other sizes of the font
    const LEN: &[&str] = &["", "3", "2em", "1.5ex", "10%", "2mm", "inherit"];
    const FS: &[&str] = &["", "font-size='20'", "font-size='2em'", "font-size='150%'", "font-size='2ex'"];
    let dims = [3, LEN.len() - 1, FS.len(), FS.len(), FS.len(), 3, 5];
    r.explore(family(
        "inherited lengths and sizes of fonts",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let set = |v: &str| match (k[0], v) {
                (_, "") => String::new(),
                (0, _) => format!("stroke-width='{}'", v),
                (1, "inherit") => "stroke-dasharray='inherit'".into(),
                (1, _) => format!("stroke-dasharray='5 {}'", v),
                _ => format!("stroke-dashoffset='{}' stroke-dasharray='3 4'", v),
            };
            let (up, own) = (set(LEN[k[1]]), set(["", "inherit", "1"][k[5]]));
            // an inherited value needs a parent that sets it
            if k[1] == 0 || k[0] == 2 && k[5] == 1 {
                return None;
            }
            // renderers don't agree on what an inherited 2em is when the font is another one
            if (LEN[k[1]].ends_with("em") || LEN[k[1]].ends_with("ex")) && (k[4] > 0 || k[3] > 0 && ![2, 4].contains(&k[6])) {
                return None;
            }
            let el = format!("<path d='M 1 2 L 30 40 L 5 60' {} {}/>", own, FS[k[4]]);
            Some(svg(&match k[6] {
                0 => format!("<g stroke='red' {} {}><g {}>{}</g></g>", up, FS[k[2]], FS[k[3]], el),
                1 => format!("<g stroke='red' {} {}><g {}>{}<circle r='9'/></g><circle r='8'/></g>", up, FS[k[2]], FS[k[3]], el),
                2 => format!("<g stroke='red' {} transform='scale(2)'><g {} {}>{}</g></g>", FS[k[2]], up, FS[k[3]], el),
                3 => format!("<svg width='50' height='40' stroke='red' {} {}><g {}>{}</g></svg>", up, FS[k[2]], FS[k[3]], el),
                _ => format!("<a xlink:href='http://x' stroke='red' {}><switch {} {}>{}</switch></a>", FS[k[2]], up, FS[k[3]], el),
            }))
        },
        vec![config(&[]), solo(&["group-by-style"]), solo(&["ungroup-groups"])],
        same_picture,
    ));
    // any subset of the attributes of a shape
    let shapes: &'static [(&'static str, &'static [&'static str])] = &[
        ("rect", &["x='3'", "y='4'", "width='40'", "height='30'", "rx='5'", "ry='7'", "stroke-width='3'"]),
        ("circle", &["cx='13'", "cy='14'", "r='9'", "stroke-width='3'", "stroke-dashoffset='2'", "stroke-dasharray='5 1'"]),
        ("ellipse", &["cx='13'", "cy='14'", "rx='9'", "ry='6'", "stroke-width='0'", "stroke-miterlimit='2'"]),
        ("line", &["x1='3'", "y1='4'", "x2='30'", "y2='20'", "stroke-width='3'", "stroke-dasharray='5'"]),
        ("image", &["x='3'", "y='4'", "width='40'", "height='30'", "xlink:href='a.png'", "preserveAspectRatio='none'"]),
        ("path", &["d='M 1 2 L 30 40 L 5 60 Z'", "stroke-width='3'", "stroke-dasharray='5 0 1'", "stroke-dashoffset='1'", "stroke-miterlimit='2'"]),
    ];
    let mut subsets: Vec<String> = vec![];
    for (tag, attrs) in shapes {
        for m in 0..1u32 << attrs.len() {
            let a: Vec<&str> = (0..attrs.len()).filter(|k| m >> k & 1 == 1).map(|k| attrs[k]).collect();
            subsets.push(format!("<{} {} stroke='red' {{}}/>", tag, a.join(" ")));
        }
    }
    let dims = [subsets.len(), TS.len(), if t { TS.len() } else { 4 }];
    r.explore(family(
        "subsets of attributes with transforms",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let e = subsets[k[0]].replace("{}", TS[k[1]]);
            Some(svg(&if k[2] == 0 { e } else { format!("<g {}>{}</g>", TS[k[2]], e) }))
        },
        cfgs(),
        same_picture,
    ));
    // lists of transform functions in every attribute that takes one
    let f: &'static [&'static str] = &[
        "translate(5)", "translate(5 -7)", "scale(2)", "scale(2,3)", "rotate(30)", "rotate(30 5 6)", "rotate(90)", "skewX(20)", "skewY(-10)",
        "matrix(1 2 3 4 5 6)", "matrix(1 0 0 1 0 0)", "matrix(2 0 0 2 0 0)", "matrix(0 -1 1 0 7 8)", "matrix(-1 0 0 -1 0 0)", "scale(-1 1)", "translate(0)", "rotate(360)",
        "rotate(-45,1,1)", "scale(.25)", "matrix(.866 .5 -.5 .866 0 0)",
    ];
    let places: &'static [&'static str] = &[
        "<path d='M 1 2 L 30 40' stroke='red' transform='{}'/>",
        "<g transform='{}'><circle r='5'/><text>a</text></g>",
        "<linearGradient id='q' x1='1' y1='2' x2='3' y2='4' gradientUnits='userSpaceOnUse' gradientTransform='{}'><stop offset='0' stop-color='red'/><stop offset='1'/></linearGradient><circle r='9' fill='url(#q)'/>",
        "<radialGradient id='q' gradientTransform='{}'><stop offset='0' stop-color='red'/><stop offset='1'/></radialGradient><circle r='9' fill='url(#q)'/><circle r='7' stroke='url(#q)'/>",
        "<pattern id='q' width='.1' height='.1' patternTransform='{}'><circle r='5'/></pattern><circle r='9' fill='url(#q)'/>",
        "<clipPath id='q' transform='{}'><circle r='5'/></clipPath><circle r='9' clip-path='url(#q)'/>",
        "<use xlink:href='#w' transform='{}'/><defs><g id='w' transform='{}'><path d='M 1 2 L 30 40 Z'/></g></defs>",
        "<image width='9' height='8' xlink:href='a.png' transform='{}'/>",
    ];
    let len = if t { 3 } else { 2 };
    let total = seq_count(f.len(), len);
    let mut cf = cfgs();
    cf.push(solo(&["apply-transform-to-gradients"]));
    cf.push(config(&["--simplify-transforms=false"]));
    r.explore(family(
        "lists of transform functions",
        total * places.len() as u64,
        move |i| {
            let n = places.len() as u64;
            let s: Vec<&str> = seq(i / n, f.len()).iter().map(|k| f[*k]).collect();
            Some(svg(&places[(i % n) as usize].replace("{}", &s.join(" "))))
        },
        cf,
        same_picture,
    ));
    // deeply nested transforms
    let mut kinds: Vec<String> = TS[..10].iter().map(|s| format!("<g {}>|</g>", s)).collect();
    kinds.extend(strings(&["<g fill='red'>|</g>", "<a transform='scale(2)'>|</a>", "<g transform='scale(2)'>|<circle r='3'/></g>", "<g transform='translate(1 2)'><circle r='2'/>|</g>", "<svg x='3' y='4' width='50' height='60' viewBox='0 0 30 20'>|</svg>"]));
    r.explore(runs(
        "deeply nested transforms",
        kinds,
        4..=if t { 10 } else { 7 },
        true,
        |v| Some(svg(&nested(v, "<path d='M 1 2 L 30 40 L 5 60 Z' stroke='red' stroke-width='2' transform='scale(2)'/>"))),
        vec![config(&[]), config(&["--apply-transform-to-paths=true"]), solo(&["ungroup-groups"]), solo(&["ungroup-groups", "apply-transform-to-shapes", "group-by-style"])],
        same_picture,
    ));
}

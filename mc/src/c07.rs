//! C07: exactly the visible elements survive, in the same paint order.
use crate::engine::*;
use crate::fam::*;

pub fn cfgs() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&[]),
        solo(&["remove-unused-defs"]),
        solo(&["remove-invisible-elements"]),
        solo(&["resolve-use"]),
        solo(&["ungroup-groups"]),
        solo(&["ungroup-defs"]),
        solo(&["group-by-style"]),
        solo(&["remove-unused-defs", "remove-invisible-elements", "resolve-use", "ungroup-groups", "ungroup-defs"]),
        without("ungroup-groups"),
        without("remove-unused-defs"),
        without("remove-invisible-elements"),
        without("ungroup-defs"),
        without("resolve-use"),
        config(&["--apply-transform-to-paths=true", "--join-style-attributes=all"]),
    ]
}
fn few() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&[]),
        solo(&["remove-unused-defs", "remove-invisible-elements"]),
        solo(&["resolve-use", "ungroup-groups", "ungroup-defs", "group-by-style"]),
    ]
}

/// Containers: tag, own attributes, element that uses it ({} is the id).
pub const BOXES: &[(&str, &str, &str)] = &[
    ("g", "", "<use xlink:href='#{}' x='3'/>"),
    ("defs", "", ""),
    ("symbol", "viewBox='0 0 50 40'", "<use xlink:href='#{}' width='30' height='20'/>"),
    ("svg", "width='60' height='50'", "<use xlink:href='#{}' y='1'/>"),
    ("switch", "", "<use xlink:href='#{}' x='4'/>"),
    ("a", "xlink:href='http://x'", "<use xlink:href='#{}' y='2'/>"),
    ("clipPath", "", "<rect width='40' height='30' clip-path='url(#{})'/>"),
    ("mask", "", "<circle r='7' mask='url(#{})'/>"),
    ("pattern", "width='8' height='9' patternUnits='userSpaceOnUse'", "<rect width='41' height='30' fill='url(#{})'/>"),
    ("marker", "markerWidth='4'", "<path d='M 1 2 L 30 40 L 5 6' marker-mid='url(#{})'/>"),
];

pub const ATTRS: &[&str] = &["", "fill='red'", "display='none'", "visibility='hidden'", "opacity='.5'", "transform='translate(2 3)'", "style='stroke:#123'", "stroke-width='3' color-interpolation='linearRGB'"];

const LEAVES: &[&str] = &[
    "<path {} d='M 1 2 L 30 40 L 5 6'/>",
    "<circle {} r='4' display='none'/>",
    "<rect {} width='9' height='5' visibility='hidden'/>",
    "<rect {} width='9' height='5' visibility='visible' fill='lime'/>",
    "<text {} fill='blue'>ab</text>",
    "<path {} d=''/>",
    "<rect {} width='0' height='5'/>",
    "<use {} xlink:href='#Z' x='5'/>",
    "<g {}/>",
    "<g {}><circle r='5'/><circle r='6' fill='lime'/></g>",
    "<path {} d='M 1 2 L 30 40 L 5 6' fill='none'/>",
    "<use {} x='5'/>",
    "<image {} xlink:href='data:image/png;base64,iVBORw0KGgo=' width='5' height='4'/>",
    "<switch {}><path d=''/><circle r='3'/></switch>",
];

fn open(b: &(&str, &str, &str), id: &str, attr: &str) -> String {
    format!("<{} {} {} {}>", b.0, if id.is_empty() { String::new() } else { format!("id='{}'", id) }, b.1, attr)
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    // two containers around a leaf, each with an attribute; every set of users before or after
    let nb = BOXES.len();
    let dims = [nb, ATTRS.len(), nb, ATTRS.len(), LEAVES.len(), 8, if t { 3 } else { 2 }];
    r.explore(family(
        "containers, contents and users",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let (a, b) = (&BOXES[k[0]], &BOXES[k[2]]);
            // quick: one of the two attributes
            if !t && k[1] != 0 && k[3] != 0 && k[4] > 1 {
                return None;
            }
            let mut u = String::new();
            if k[5] & 1 != 0 {
                if a.2.is_empty() {
                    return None;
                }
                u += &a.2.replace("{}", "A");
            }
            if k[5] & 2 != 0 {
                if b.2.is_empty() {
                    return None;
                }
                u += &b.2.replace("{}", "B");
            }
            if k[5] & 4 != 0 {
                u += "<use xlink:href='#L' y='9'/>";
            }
            let z = if k[4] == 7 { "<defs><path id='Z' d='M 1 1 L 9 9 L 1 8'/></defs>" } else { "" };
            let body = format!(
                "{}{}{}<circle r='1'/></{}><circle r='2'/></{}>",
                open(a, if k[5] & 1 != 0 { "A" } else { "" }, ATTRS[k[1]]),
                open(b, if k[5] & 2 != 0 { "B" } else { "" }, ATTRS[k[3]]),
                LEAVES[k[4]].replace("{}", if k[5] & 4 != 0 { "id='L'" } else { "" }),
                b.0,
                a.0
            );
            let d = svg(&match k[6] {
                0 => format!("{}<rect width='3' height='4'/>{}{}", body, u, z),
                1 => format!("{}{}<g fill='#123'>{}</g>", z, u, body),
                _ => format!("<g fill='#123' id='w'>{}{}</g>{}", body, z, u),
            });
            Some(d)
        },
        if t { cfgs() } else { few() },
        picture_and_ids,
    ));
    // lists of leaves in a container with a following sibling
    let ll: Vec<String> = LEAVES.iter().map(|s| s.to_string()).collect();
    let n = seq_count(LEAVES.len(), if t { 4 } else { 3 });
    let kinds = [0usize, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    let nk = kinds.len() as u64;
    r.explore(family(
        "lists of contents",
        n * nk,
        move |i| {
            let s = seq(i / nk, ll.len());
            let kd = kinds[(i % nk) as usize];
            let body: String = s.iter().map(|k| ll[*k].replace("{}", "")).collect();
            let z = "<defs><path id='Z' d='M 1 1 L 9 9 L 1 8'/></defs>";
            Some(svg(&if kd == 10 {
                format!("{}{}", body, z)
            } else {
                let b = &BOXES[kd];
                format!("{}{}{}</{}>{}", z, open(b, "A", ""), body, b.0, b.2.replace("{}", "A"))
            }))
        },
        few(),
        picture_and_ids,
    ));
    // use and what it uses
    r.explore(grid(
        "use of everything",
        "{0}<g {5}>{1}</g>{2}",
        &[
            // where the target is
            &["<defs>{3}</defs>", "{3}", "<g display='none'>{3}</g>", "<g fill='lime' stroke='blue'>{3}</g>", "<defs><g fill='lime' stroke='blue'>{3}</g></defs>", "<symbol>{3}</symbol>", "<switch><circle r='1'/>{3}</switch>", "<clipPath>{3}</clipPath>"],
            // the user
            &["<use xlink:href='#t' {4}/>", "<use xlink:href='#t' {4}/><use xlink:href='#t' x='3'/>", "<use id='u' xlink:href='#t' {4}/>", "<switch><use xlink:href='#t' {4}/><circle r='3'/></switch>", "<a xlink:href='http://x'><use xlink:href='#t' {4}/></a>", "<g><title>t</title><use xlink:href='#t' {4}><desc>d</desc></use></g>", "<circle r='2'/><use xlink:href='#t' {4}/><circle r='3'/>"],
            &["", "<use xlink:href='#u' y='7'/>", "<use xlink:href='#t' opacity='.5'/>", "<rect width='5' height='6' clip-path='url(#t)'/>"],
            // the target
            &[
                "<path id='t' d='M 1 2 L 30 40 L 5 6'/>",
                "<path id='t' d='M 1 2 L 30 40 L 5 6' fill='#123' transform='scale(2)'/>",
                "<g id='t'><circle r='4'/><circle r='5' fill='#123'/></g>",
                "<g id='t' display='none'><circle r='4'/></g>",
                "<g id='t' clip-path='url(#C)'><circle r='4'/></g><clipPath id='C'><rect width='3' height='4'/></clipPath>",
                "<svg id='t' width='9' height='8'><circle r='4'/></svg>",
                "<symbol id='t' viewBox='0 0 9 8'><circle r='4'/></symbol>",
                "<symbol id='t' display='none'><circle r='4'/></symbol>",
                "<text id='t' x='3'>ab</text>",
                "<use id='t' xlink:href='#T2' x='3'/><rect id='T2' width='4' height='9'/>",
                "<clipPath id='t'><circle r='4'/></clipPath>",
                "<linearGradient id='t'><stop stop-color='red'/></linearGradient>",
                "<defs id='t'><circle r='4'/></defs>",
                "<switch id='t'><circle r='4'/><circle r='5'/></switch>",
                "<g id='t'><use xlink:href='#T2'/></g><g id='T2'><use xlink:href='#T3'/></g><rect id='T3' width='4' height='9'/>",
                "<image id='t' xlink:href='data:image/png;base64,iVBORw0KGgo=' width='5' height='4'/>",
                "<rect id='t' width='4' height='9' visibility='hidden'/>",
            ],
            &["", "x='3' y='4'", "x='3' transform='scale(2)'", "fill='red'", "width='20' height='10'", "width='0' height='10'", "width='50%' x='10%'", "display='none'", "visibility='hidden'", "opacity='.5' x='2'", "clip-path='url(#K)' x='2'", "x='1mm'", "style='stroke:red;stroke-width:2'"],
            &["", "fill='#456'", "transform='translate(5)'"],
        ],
        if t { cfgs() } else { few() },
        used,
    ));
    // invisible elements that are needed
    r.explore(grid(
        "invisible elements that are used",
        "<g {0}>{1}{2}</g>{3}{4}",
        &[
            &["display='none'", "", "visibility='hidden'", "opacity='0'", "style='display:none'", "display='inline'"],
            &[
                "<path id='t' d='M 1 2 L 30 40 L 5 6'/>",
                "<g><path id='t' d='M 1 2 L 30 40 L 5 6'/></g><circle r='4'/>",
                "<g display='none'><path id='t' d='M 1 2 L 30 40 L 5 6'/><circle r='4'/></g>",
                "<linearGradient id='t'><stop stop-color='red'/><stop offset='1'/></linearGradient><circle r='9'/>",
                "<clipPath id='t'><circle r='9'/></clipPath><circle r='9'/>",
                "<g><g><pattern id='t' width='4' height='5' patternUnits='userSpaceOnUse'><circle r='2'/></pattern></g></g>",
                "<filter id='t'><feFlood flood-color='red'/></filter>",
                "<mask id='t'><rect width='9' height='9' fill='#fff'/></mask><marker id='m'><circle r='2'/></marker>",
                "<symbol id='t'><circle r='4' display='none'/><circle r='5'/></symbol>",
                "<g id='t'><circle r='4'/><circle r='5'/></g>",
                "<text id='t'>ab<tspan display='none'>cd</tspan></text>",
            ],
            &["", "<circle r='8' display='inline'/>", "<circle r='8' visibility='visible'/>", "<switch><g display='none'/><circle r='3'/></switch>"],
            &["", "<use xlink:href='#t'/>", "<rect width='40' height='30' fill='url(#t)'/>", "<rect width='40' height='30' clip-path='url(#t)'/>", "<rect width='40' height='30' filter='url(#t)'/>", "<g mask='url(#t)'><rect width='40' height='30'/></g>", "<g display='none'><use xlink:href='#t'/></g>", "<defs><g id='w'><use xlink:href='#t'/></g></defs><use xlink:href='#w' x='4'/>"],
            &["", "<circle r='6' display='none'/>", "<g display='none'><defs><path id='q' d='M 1 2 L 3 5 L 7 8'/></defs></g><use xlink:href='#q'/>"],
        ],
        cfgs(),
        used,
    ));
    // long lists and deep containers of elements which may be invisible
    let v0 = strings(&[
        "<path d='M {i} 2 L 30 40 L 5 60'/>",
        "<path d='M {i} 2'/>",
        "<path d='M {i} 2 L 30 40 L 5 60' display='none'/>",
        "<rect width='0' height='{i}'/>",
        "<g/>",
        "<g display='none'><path d='M {i} 2 L 30 40 L 5 60'/></g>",
        "<use xlink:href='#u' x='{i}'/>",
        "<use/>",
        "<text>a</text>",
        "<title>a</title>",
        "<defs/>",
        "<path id='x{i}' d='M {i} 2 L 30 40 L 5 60'/>",
        "<clipPath id='x{i}'/>",
        "<rect width='5' height='{i}' clip-path='url(#k)'/>",
    ]);
    r.explore(runs(
        "long lists of elements",
        v0,
        4..=if t { 12 } else { 8 },
        true,
        |v| Some(svg(&format!("<defs><path id='u' d='M 1 1 L 9 9 L 0 7'/><clipPath id='k'/></defs><g>{0}</g><use xlink:href='#x1'/>{0}", v.concat().replace("id='x", "id='y")).replacen("id='y", "id='x", v.len()))),
        vec![config(&[]), solo(&["remove-invisible-elements"]), solo(&["remove-invisible-elements", "remove-unused-defs", "ungroup-groups", "resolve-use"])],
        same_or_refused,
    ));
    r.explore(runs(
        "deep containers",
        strings(&[
            "<g>|</g>",
            "<g display='none'>|</g>",
            "<defs>|</defs>",
            "<symbol>|</symbol>",
            "<switch>|</switch>",
            "<a>|</a>",
            "<svg width='50' height='60'>|</svg>",
            "<clipPath>|</clipPath>",
            "<mask>|</mask>",
            "<g>|<rect width='3' height='4'/></g>",
            "<g id='z{i}'>|</g>",
        ]),
        3..=if t { 8 } else { 6 },
        true,
        |v| Some(svg(&format!("{}<use xlink:href='#L' x='50'/><use xlink:href='#z1' y='50'/>", nested(v, "<path d='M 1 2 L 30 40 L 5 60'/><rect id='L' width='9' height='8' fill='lime'/>")))),
        vec![config(&[]), solo(&["remove-invisible-elements", "remove-unused-defs"]), solo(&["ungroup-groups", "ungroup-defs", "resolve-use"])],
        same_or_refused,
    ));
}

/// References to something that cannot be referenced that way are outside the domain.
fn used(c: &Case, note: &mut Note) -> Result<(), String> {
    picture_and_ids(c, note)
}

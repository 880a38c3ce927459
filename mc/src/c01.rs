//! C01: path data.
use crate::engine::*;
use crate::fam::*;

/// One symbol per command form and per shortcut visible in the code.
pub static SEGS: &[&str] = &[
    "L 50 60", "l 7 3", "l 0 0", "L 10 20", "H 40", "h 0", "h -6", "V 30", "v 5", "v 0",
    "C 20 30 40 -5 60 15", "c 1 7 9 2 12 4", "c 0 3 0 6 0 9", "c 3 0 6 0 9 0", "c 12 0 15 0 9 0", "c 0 -4 0 6 0 9",
    "c 2 1 4 2 6 3", "c 0 0 5 8 9 9", "c 3 -2 5 8 9 9", "c 0 0 0 0 0 0",
    "S 70 20 80 45", "s 2 6 10 1",
    "Q 30 50 70 25", "q 5 9 11 2", "T 90 35", "t 8 -3",
    "A 20 10 30 0 1 75 45", "a 5 5 0 1 0 8 6", "a 6 4 0 0 1 0 0",
    "M 15 25", "m 4 9", "Z", "z",
];
/// reduced alphabet for longer sequences
pub static SEGS2: &[&str] = &[
    "L 50 60", "l 7 3", "l 0 0", "L 10 20", "h 6", "v 0", "C 20 30 40 -5 60 15", "c 3 0 6 0 9 0", "c 3 -2 5 8 9 9", "s 2 6 10 1", "q 5 9 11 2",
    "t 8 -3", "a 5 5 0 1 0 8 6", "m 4 9", "Z",
];

pub fn path_configs(full: bool) -> Vec<Config> {
    let mut v = vec![
        config(&[]),
        off_with(&[]),
        off_with(&["--paths-to-relative=true"]),
        off_with(&["--paths-to-relative=true", "--remove-unused-segments=true"]),
        off_with(&["--paths-to-relative=true", "--convert-segments=true"]),
        config(&["--apply-transform-to-paths=true", "--trim-paths=false", "--use-implicit-cmds=false", "--remove-dupl-cmd-in-paths=false"]),
    ];
    if full {
        v.push(config(&["--join-arcto-flags=true"]));
        v.push(config(&["--use-implicit-cmds=false", "--list-separator=comma"]));
        v.push(config(&["--remove-dupl-cmd-in-paths=false", "--list-separator=comma-space"]));
        v.push(config(&["--convert-segments=false"]));
        v.push(config(&["--remove-unused-segments=false"]));
        v.push(config(&["--paths-to-relative=false", "--convert-segments=false", "--remove-unused-segments=false"]));
        v.push(off_with(&["--trim-paths=true", "--use-implicit-cmds=true", "--remove-dupl-cmd-in-paths=true"]));
    }
    v
}

fn join(s: &[usize], a: &[&str]) -> String {
    s.iter().map(|k| a[*k]).collect::<Vec<_>>().join(" ")
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    let n = SEGS.len();
    let plain = |s: &[usize]| svg(&format!("<path fill=\"red\" stroke=\"blue\" d=\"M 10 20 {}\"/>", join(s, SEGS)));
    r.explore(family(
        "sequences up to 2, all option sets",
        seq_count(n, 2),
        move |i| Some(plain(&seq(i, n))),
        path_configs(true),
        same_picture,
    ));
    let plain = |s: &[usize]| svg(&format!("<path fill=\"red\" stroke=\"blue\" d=\"M 10 20 {}\"/>", join(s, SEGS)));
    r.explore(family(
        "sequences of 3",
        (n as u64).pow(3),
        move |i| Some(plain(&seq(i + seq_count(n, 2), n))),
        path_configs(false),
        same_picture,
    ));
    let n2 = SEGS2.len();
    let len = if t { 6 } else { 5 };
    let plain2 = |s: &[usize]| svg(&format!("<path stroke=\"blue\" d=\"m 10 20 {}\"/>", join(s, SEGS2)));
    r.explore(family(
        &format!("sequences up to {} over the reduced alphabet", len),
        seq_count(n2, len),
        move |i| Some(plain2(&seq(i, n2))),
        vec![config(&[]), off_with(&["--paths-to-relative=true", "--convert-segments=true", "--remove-unused-segments=true"])],
        same_picture,
    ));
    // markers: every vertex has to stay, wherever the marker comes from
    const MK: &[&str] = &[
        "<path marker-mid='url(#k)' D/>",
        "<path marker-start='url(#k)' D/>",
        "<path marker-end='url(#k)' D/>",
        "<path style='marker-start:url(#k);marker-mid:url(#k)' D/>",
        "<g marker-mid='url(#k)'><path D/></g>",
        "<g marker-end='url(#k)'><g><path D/></g><rect x='1' y='2' width='3' height='4'/></g>",
        "<use marker-mid='url(#k)' xlink:href='#p'/><defs><path id='p' D/></defs>",
        "<g marker-mid='url(#k)'><use xlink:href='#p'/></g><defs><g id='p'><path D/></g></defs>",
        "<use marker-start='url(#k)' xlink:href='#p'/><use xlink:href='#p'/><defs><symbol id='p'><path D/></symbol></defs>",
        "<g marker-start='url(#k)'><path marker-start='inherit' marker-mid='url(#k)' marker-end='none' D/></g>",
    ];
    const MKDEF: &str = "<marker id='k' markerWidth='5' markerHeight='4' orient='auto'><path d='M 0 0 L 3 2 L 0 4 L 0 4'/></marker>";
    let ml = if t { 3 } else { 2 };
    r.explore(family(
        "vertices of paths with markers",
        MK.len() as u64 * seq_count(n, ml),
        move |i| {
            let k = (i % MK.len() as u64) as usize;
            let s = seq(i / MK.len() as u64, n);
            Some(svg(&format!("{}{}", MKDEF, MK[k].replace('D', &format!("fill='none' stroke='red' d='M 10 20 {}'", join(&s, SEGS))))))
        },
        vec![
            config(&[]),
            off_with(&["--paths-to-relative=true", "--convert-segments=true", "--remove-unused-segments=true"]),
        ],
        same_picture,
    ));
    // coordinates that do not fit the precision, repeated: errors must not add up
    const FINE: &[&str] = &[
        "l 0.3333333333 0.1111111111", "l -0.6666666667 1.7777777777", "c 0.1234567891 1.9876543219 2.1 .3333333333 1.1111111111 2.2222222222",
        "s 0.7777777777 0.3 1.4142135623 -0.5772156649", "q 0.3333333333 0.2 0.6180339887 0.3141592653", "t 0.123456789012 -0.5",
        "a 5.123456789 4.987654321 33.333333333 0 1 1.2345678912 2.3456789123", "h 0.987654321987", "v -0.123123123123", "z m 0.5555555555 0.4444444444",
    ];
    let nf = FINE.len();
    r.explore(family(
        "long paths with many fraction digits",
        (nf * nf * 3) as u64,
        move |i| {
            let k = radix(i, &[nf, nf, 3]);
            let mut d = String::from("m 1.23456789012 9.87654321098");
            for _ in 0..[10, 40, 120][k[2]] {
                d.push_str(&format!(" {} {}", FINE[k[0]], FINE[k[1]]));
            }
            Some(svg(&format!("<path stroke='blue' d='{}'/>", d)))
        },
        vec![
            config(&[]),
            config(&["--paths-coordinates-precision=5"]),
            config(&["--paths-coordinates-precision=12", "--convert-segments=false", "--remove-unused-segments=false"]),
        ],
        // each number is rounded on its own, so the bound grows with the number of segments
        |c, n| same_picture_tol(c, n, if c.cfg.name.contains("precision=5") { 2e-3 } else { TOL }),
    ));
    // a path's transform applied to its data
    const TS: &[&str] = &["translate(5 -7)", "scale(2)", "translate(3 4) scale(0.5)", "scale(2 3)", "rotate(90)", "matrix(-1 0 0 1 5 6)", "scale(-2)"];
    r.explore(family(
        "transforms applied to path data",
        TS.len() as u64 * seq_count(n, ml) * 2,
        move |i| {
            let k = radix(i, &[TS.len(), 2]);
            let s = seq(i / (2 * TS.len() as u64), n);
            let p = ["fill='green'", "stroke='blue' stroke-width='3'"][k[1]];
            Some(svg(&format!("<path {} transform='{}' d='m 10 20 {}'/>", p, TS[k[0]], join(&s, SEGS))))
        },
        vec![
            config(&["--apply-transform-to-paths=true"]),
            off_with(&["--paths-to-relative=true", "--apply-transform-to-paths=true"]),
        ],
        same_picture,
    ));
    // long paths
    let mut kinds = strings(SEGS2);
    kinds.extend(strings(&["M 15 25", "L 10 20", "H 10", "v 5", "S 70 20 80 45", "T 9 8", "c 0 0 0 0 0 0", "a 6 4 0 0 1 0 0", "l 0 0 Z", "L 10 20 Z"]));
    r.explore(runs(
        "long paths",
        kinds,
        6..=if t { 18 } else { 12 },
        true,
        |v| Some(svg(&format!("<path stroke='blue' d='M 10 20 {}'/>", v.join(" ")))),
        vec![config(&[]), off_with(&["--paths-to-relative=true", "--convert-segments=true", "--remove-unused-segments=true"])],
        same_picture,
    ));
}

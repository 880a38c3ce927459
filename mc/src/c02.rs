//! C02: basic shapes.
use crate::engine::*;
use crate::fam::*;

fn cfgs() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&["convert-shapes"]),
        solo(&["convert-shapes", "paths-to-relative", "remove-unused-segments", "convert-segments"]),
        solo(&[]),
        config(&["--convert-shapes=false"]),
        solo(&["remove-invisible-elements", "remove-unused-coordinates", "remove-needless-attributes", "remove-default-attributes"]),
    ]
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    // presentation: markers only where the SVG allows them, rules, dashes, ids, transforms
    let pres: &[&str] = &[
        "fill='red'",
        "stroke='blue' stroke-width='3' fill='none'",
        "style='fill:green;stroke:#123456;stroke-dasharray:5 2'",
        "fill-rule='evenodd' stroke='red' stroke-linejoin='round' transform='translate(3 4)'",
        "stroke='red' marker-start='url(#k)' marker-mid='url(#k)' marker-end='url(#k)'",
        "stroke='red' fill='url(#lg)' opacity='0.5'",
        "id='z' stroke='red' clip-path='url(#c)'",
    ];
    const DEFS: &str = "<defs><marker id='k' markerWidth='5' markerHeight='4' orient='auto'><path d='M 0 0 L 3 2 L 0 4'/></marker><linearGradient id='lg'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient><clipPath id='c'><circle r='9'/></clipPath></defs>";
    let num: &[&str] = if t {
        &["", "{K}='0'", "{K}='10'", "{K}='-5'", "{K}='25%'", "{K}='3mm'", "{K}='7px'", "{K}='1e1'", "{K}='2em'", "{K}='.5'"]
    } else {
        &["", "{K}='0'", "{K}='10'", "{K}='-5.25'", "{K}='25%'", "{K}='3mm'", "{K}='7px'"]
    };
    let n = |k: &str| -> Vec<String> { num.iter().map(|s| s.replace("{K}", k)).collect() };
    fn rf(v: &Vec<String>) -> Vec<&str> {
        v.iter().map(|s| s.as_str()).collect()
    }
    {
        let v: Vec<Vec<String>> = ["x1", "y1", "x2", "y2"].iter().map(|k| n(k)).collect();
        let v: Vec<Vec<&str>> = v.iter().map(rf).collect();
        r.explore(grid(
            "line coordinates",
            &format!("{}<line {{4}} {{0}} {{1}} {{2}} {{3}}/>", DEFS),
            &[&v[0], &v[1], &v[2], &v[3], &["stroke='red'", "stroke='red' stroke-linecap='round' stroke-width='4'"]],
            cfgs(),
            same_picture,
        ));
    }
    {
        let x: &[&str] = &["", "x='7'", "x='-3.5'", "x='5%'", "x='2mm'"];
        let y: &[&str] = &["", "y='6'", "y='0'", "y='4%'"];
        let w: &[&str] = &["", "width='0'", "width='-4'", "width='90'", "width='20%'", "width='2mm'", "width='.25'"];
        let h: &[&str] = &["", "height='0'", "height='-4'", "height='70'", "height='10%'", "height='9pt'"];
        let rx: &[&str] = &["", "rx='0'", "rx='3'", "rx='-1'", "rx='10%'", "rx='50'"];
        let ry: &[&str] = &["", "ry='0'", "ry='2'", "ry='-1'", "ry='40'", "ry='10%'", "ry='3'"];
        r.explore(grid(
            "rect geometry",
            "<rect fill='red' stroke='blue' {0} {1} {2} {3} {4} {5}/>",
            &[x, y, w, h, rx, ry],
            if t { all_configs() } else { cfgs() },
            same_picture,
        ));
    }
    {
        // point lists: every list of up to 7 numbers over a small alphabet, and separators
        let a: &[&str] = &["10", "-4", "0", "25.5"];
        let len = if t { 8 } else { 6 };
        let total = seq_count(a.len(), len);
        let kinds = ["polyline", "polygon"];
        let seps = [" ", ",", " , "];
        r.explore(family(
            "point lists",
            total * 6,
            move |i| {
                let k = radix(i, &[2, 3]);
                let s = seq(i / 6, 4);
                let p: Vec<&str> = s.iter().map(|j| ["10", "-4", "0", "25.5"][*j]).collect();
                Some(svg(&format!("<{} fill='red' stroke='blue' points='{}'/>", kinds[k[0]], p.join(seps[k[1]]))))
            },
            cfgs(),
            same_picture,
        ));
        let pts: &[&str] = &[
            "points='10 20 30 40 50 10'", "points='10 20 30 40'", "points='10 20'", "", "points=''", "points='10 20 30 40 10 20'",
            "points='10 20 10 20 10 20'", "points='10 20 30 40 50'", "points='10,20 30,40 50,10 10,20 60,60'", "points='1e1-5.5.5+7'",
            "points='10 20 30 40 50 60'", "points='0 0 0 0'", "points='10 20 30 20 30 40 10 40'",
        ];
        r.explore(grid(
            "polyline and polygon with paint and markers",
            &format!("{}<{{0}} {{1}} {{2}}/>{{3}}", DEFS),
            &[&["polyline", "polygon"], pts, pres, &["", "<use xlink:href='#z' x='5'/>"]],
            all_configs(),
            same_picture,
        ));
    }
    {
        let cx: &[&str] = &["", "cx='7'", "cx='-3'", "cx='5%'", "cx='1mm'"];
        let cy: &[&str] = &["", "cy='6'", "cy='0'", "cy='4%'"];
        let rr: &[&str] = &["", "r='0'", "r='9'", "r='-2'", "r='10%'", "r='3mm'"];
        let rx: &[&str] = &["", "rx='0'", "rx='9'", "rx='-2'", "rx='10%'"];
        let ry: &[&str] = &["", "ry='0'", "ry='5'", "ry='-2'", "ry='2mm'"];
        r.explore(grid("circle geometry", "<circle fill='red' stroke='blue' {0} {1} {2}/>", &[cx, cy, rr], all_configs(), same_picture));
        r.explore(grid("ellipse geometry", "<ellipse fill='red' stroke='blue' {0} {1} {2} {3}/>", &[cx, cy, rx, ry], all_configs(), same_picture));
    }
    {
        // shapes in context: paint, markers from ancestors, use, neighbours
        let shape: &[&str] = &[
            "<line x1='1' y1='2' x2='30' y2='2' {1}/>",
            "<line x1='1' y1='2' x2='1' y2='2' {1}/>",
            "<rect x='5' y='6' width='20' height='10' {1}/>",
            "<rect x='5' y='6' width='20' height='10' rx='3' {1}/>",
            "<rect width='20' height='0' {1}/>",
            "<circle cx='9' cy='9' r='7' {1}/>",
            "<ellipse cx='9' cy='9' rx='7' ry='3' {1}/>",
            "<polyline points='1 2 30 4 30 40' {1}/>",
            "<polygon points='1 2 30 4 30 40' {1}/>",
            "<path d='M 3 4 L 20 4 L 20 30 Z' {1}/>",
        ];
        let ctx: &[&str] = &[
            "{0}",
            "<g marker-start='url(#k)' stroke='red'>{0}</g>",
            "<g marker-mid='url(#k)' marker-end='url(#k)'>{0}<line x2='5' y2='9' stroke='blue'/></g>",
            "<g fill='green' stroke='blue'>{0}<rect width='3' height='4'/></g>",
            "<use xlink:href='#d' marker-end='url(#k)'/><defs><g id='d'>{0}</g></defs>",
            "<g transform='translate(10 20)'>{0}</g>",
            "<g transform='scale(2)' stroke-width='2'>{0}</g>",
            "<clipPath id='q'>{0}</clipPath><circle r='30' clip-path='url(#q)'/>",
            "<pattern id='q' width='10' height='10' patternUnits='userSpaceOnUse'>{0}</pattern><circle r='30' fill='url(#q)'/>",
            "<mask id='q'>{0}</mask><circle r='30' mask='url(#q)'/>",
            "<marker id='q' markerWidth='9' markerHeight='9'>{0}</marker><path d='M 1 2 L 3 4' stroke='red' marker-end='url(#q)'/>",
            "<symbol id='q'>{0}</symbol><use xlink:href='#q' x='1'/><use xlink:href='#q' y='7'/>",
            "<switch>{0}<path d='M 1 2 L 3 4' stroke='red'/></switch>",
            "<a xlink:href='http://x'>{0}</a>",
        ];
        r.explore(grid(
            "shapes in context",
            &format!("{}{{2}}", DEFS),
            &[shape, pres, ctx],
            if t { all_configs() } else { let mut c = cfgs(); c.push(config(&["--apply-transform-to-paths=true"])); c.push(solo(&["apply-transform-to-shapes"])); c },
            same_picture,
        ));
    }
    // long lists of points
    r.explore(runs(
        "long point lists",
        strings(&["1", "-2.5", "7", "1 2", "30 40", "1e1", "0 0", "12.3456789 4"]),
        4..=if t { 33 } else { 20 },
        true,
        |v| {
            let p = v.join(" ");
            Some(svg(&format!("<polyline points='{0}' stroke='red'/><polygon fill='lime' points='{0}'/>", p)))
        },
        vec![config(&[]), off_with(&[]), off_with(&["--convert-shapes=true"])],
        same_picture,
    ));
}

//! C21: clips, masks, filters, markers, patterns and opacity keep their effect.
use crate::engine::*;
use crate::fam::*;

pub fn cfgs() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&[]),
        solo(&["remove-invisible-elements"]),
        solo(&["remove-default-attributes"]),
        solo(&["remove-needless-attributes"]),
        solo(&["remove-dupl-fegaussianblur"]),
        solo(&["ungroup-groups"]),
        solo(&["group-by-style"]),
        solo(&["resolve-use"]),
        solo(&["ungroup-defs", "ungroup-groups"]),
        solo(&["apply-transform-to-shapes", "apply-transform-to-gradients", "group-by-style", "ungroup-groups"]),
        config(&["--apply-transform-to-paths=true", "--join-style-attributes=all", "--remove-gradient-attributes=true"]),
        without("ungroup-groups"),
        without("remove-invisible-elements"),
        without("group-by-style"),
    ]
}
fn few() -> Vec<Config> {
    vec![
        config(&[]),
        solo(&[]),
        solo(&["ungroup-groups", "resolve-use", "ungroup-defs", "group-by-style", "apply-transform-to-shapes"]),
        solo(&["remove-invisible-elements", "remove-unused-defs", "remove-needless-attributes", "remove-default-attributes"]),
        config(&["--apply-transform-to-paths=true", "--join-style-attributes=all"]),
    ]
}

/// Definitions available to every document of this property.
const DEFS: &str = "<defs><clipPath id='C'><rect width='20' height='9'/></clipPath><clipPath id='C2' clipPathUnits='objectBoundingBox'><circle r='.4'/></clipPath><mask id='M'><rect width='30' height='30' fill='#fff'/></mask><filter id='F'><feGaussianBlur stdDeviation='2'/></filter><filter id='F2'><feOffset dx='3'/></filter><pattern id='P' width='5' height='6' patternUnits='userSpaceOnUse'><circle r='2'/></pattern><marker id='K'><path d='M 0 0 L 2 2 L 0 2'/></marker><linearGradient id='G'><stop stop-color='red'/><stop offset='1' stop-color='lime'/></linearGradient></defs>";

const EFFECTS: &[&str] = &[
    "",
    "clip-path='url(#C)'",
    "clip-path='url(#C2)'",
    "mask='url(#M)'",
    "filter='url(#F)'",
    "opacity='.5'",
    "opacity='0'",
    "transform='translate(5 6)'",
    "transform='rotate(30)'",
    "fill='url(#P)'",
    "fill='url(#G)'",
    "marker-mid='url(#K)'",
    "marker='url(#K)'",
    "marker-start='url(#K)' marker-end='url(#K)'",
    "style='filter:url(#F2);opacity:.5'",
    "clip-path='url(#C)' mask='url(#M)'",
    "clip-path='none'",
    "mask='none' filter='none'",
    "stroke='url(#P)' stroke-width='3'",
    "fill='red' stroke='lime'",
];

pub fn run(r: &mut Run) {
    let t = r.thorough();
    // effects at three levels
    let shapes: &'static [&'static str] = &[
        "<g {0}><g {1}><path {2} d='M 1 2 L 30 40 L 5 6'/></g></g>",
        "<g {0}><g {1}><path {2} d='M 1 2 L 30 40 L 5 6'/><circle r='4'/></g></g>",
        "<g {0}><path {1} d='M 1 2 L 30 40 L 5 6'/><rect {2} width='9' height='8'/></g>",
        "<defs><path id='t' {0} d='M 1 2 L 30 40 L 5 6'/></defs><g {1}><use {2} xlink:href='#t'/></g>",
        "<defs><g id='t' {0}><path {1} d='M 1 2 L 30 40 L 5 6'/></g></defs><use {2} x='3' xlink:href='#t'/>",
        "<symbol id='t' viewBox='0 0 30 30' {0}><path {1} d='M 1 2 L 30 40 L 5 6'/></symbol><use {2} width='20' height='20' xlink:href='#t'/>",
        "<svg {0} width='50' height='40'><g {1}><text {2}>ab</text></g></svg>",
        "<a {0}><switch {1}><path {2} d='M 1 2 L 30 40 L 5 6'/></switch></a>",
        "<g {0}><g {1}><image {2} xlink:href='data:image/png;base64,iVBORw0KGgo=' width='5' height='4'/></g></g>",
        "<g {0}><g {1}><g {2}/></g><path {2} d='M 1 2 L 30 40 L 5 6'/></g>",
        "<path {0} d='M 1 2 L 30 40 L 5 6'/><path {1} d='M 1 2 L 30 40 L 5 6'/><path {2} d='M 1 2 L 30 40 L 5 6'/>",
        "<clipPath id='u' {0}><path {1} d='M 1 2 L 30 40 L 5 6'/></clipPath><rect clip-path='url(#u)' {2} width='40' height='30'/>",
        "<mask id='u' {0}><path {1} d='M 1 2 L 30 40 L 5 6'/></mask><rect mask='url(#u)' {2} width='40' height='30'/>",
        "<pattern id='u' width='9' height='9' patternUnits='userSpaceOnUse' {0}><path {1} d='M 1 2 L 30 40 L 5 6'/></pattern><g {2}><rect fill='url(#u)' width='40' height='30'/></g>",
        "<marker id='u' {0}><path {1} d='M 1 2 L 30 40 L 5 6'/></marker><g {2}><path d='M 1 2 L 30 40 L 5 6' marker-start='url(#u)'/></g>",
    ];
    let ne = EFFECTS.len();
    let dims = [shapes.len(), ne, ne, ne];
    r.explore(family(
        "effects at three levels",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            // a shape twice the same effect set is enough in the quick tier
            let slots: Vec<Vec<String>> = (1..4).map(|j| vec![EFFECTS[k[j]].to_string()]).collect();
            let d = svg(&format!("{}{}", DEFS, fill(shapes[k[0]], &slots, &[0, 0, 0])));
            if crate::xml::parse(&d).is_err() {
                return None;
            }
            Some(d)
        },
        if t { cfgs() } else { few() },
        picture_and_ids,
    ));
    // where a use is, its effects and those of what it shows
    let dims = [6, 6, 8, EFFECTS.len(), 7, 4];
    r.explore(family(
        "effects and positions of uses",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let pos = |a: &str, n: usize| ["", "@='0'", "@='1'", "@='-.5'", "@='5px'", "@='10%'"][n].replace('@', a);
            let ef = ["clip-path='url(#C)'", "clip-path='url(#C2)'", "mask='url(#M)'", "filter='url(#F)'", "opacity='.5'", "transform='scale(2)'", "fill='url(#P)'", "clip-path='url(#C)' transform='translate(5 6)'"][k[2]];
            let own = EFFECTS[k[3]];
            let el = ["<path @ d='M 1 2 L 30 40 L 5 6'/>", "<rect @ x='3' width='9' height='8'/>", "<g @><path d='M 1 2 L 30 40 L 5 6'/><circle r='4'/></g>", "<svg @ width='30' height='20'><circle r='9'/></svg>", "<symbol @><circle r='9'/></symbol>", "<text @ x='1'>ab</text>", "<use @ x='1' xlink:href='#z'/>"][k[4]];
            if !t && k[3] > 9 && (k[0] > 2 || k[1] > 2) || el.starts_with("<symbol") && own.contains("transform") {
                return None;
            }
            let el = el.replace('@', &format!("id='t' {}", own));
            let z = if k[4] == 6 { "<defs><circle id='z' r='7'/></defs>" } else { "" };
            let u = format!("<use {} {} {} xlink:href='#t'/>", ef, pos("x", k[0]), pos("y", k[1]));
            Some(svg(&format!("{}{}{}", DEFS, z, match k[5] {
                0 => format!("<defs>{}</defs>{}", el, u),
                1 => format!("<defs>{}</defs><g transform='translate(3 4)' fill='red'>{}</g>", el, u),
                2 if k[4] != 4 => format!("{}{}", el, u),
                3 => format!("<defs>{}</defs>{}<use y='9' xlink:href='#t'/>", el, u),
                _ => return None,
            })))
        },
        if t { cfgs() } else { few() },
        picture_and_ids,
    ));
    // clipPath
    r.explore(grid(
        "clip paths",
        "<g {5}><clipPath id='c' {0}>{1}</clipPath></g>{2}{4}<clipPath id='d'><rect width='8' height='7'/></clipPath>",
        &[
            &["", "clipPathUnits='objectBoundingBox'", "clipPathUnits='userSpaceOnUse'", "transform='translate(3)'", "clip-path='url(#d)'", "clip-rule='evenodd'", "opacity='.5'", "display='none'", "fill='none' visibility='hidden'"],
            &[
                "",
                "<rect width='5' height='4'/>",
                "<rect width='5' height='4' {3}/>",
                "<path {3} d='M 1 2 L 30 40 L 5 6 Z M 4 4 L 10 10 L 5 2 Z'/><circle r='3'/>",
                "<use xlink:href='#x' {3}/>",
                "<text {3}>ab</text>",
                "<g {3}><circle r='4'/></g>",
                "<path {3} d='M 1 2 L 30 40'/>",
                "<polygon points='1 2 30 40 5 6' {3}/><line x2='5' y2='6'/>",
                "<rect width='0' height='4' {3}/>",
                "<title>t</title><circle {3} r='.5'/>",
            ],
            &["<rect width='40' height='30' clip-path='url(#c)'/>", "<g clip-path='url(#c)'><circle r='9'/><circle r='8' fill='red'/></g>", "<g clip-path='url(#c)'/><circle r='3'/>", "<use xlink:href='#x' clip-path='url(#c)' x='3'/>", "<rect width='40' height='30' clip-path='url(#c)' transform='scale(2)'/>", "<text clip-path='url(#c)'>a</text>", "<rect clip-path='url(#c)' width='40'/><circle r='3'/>"],
            &["", "clip-rule='evenodd'", "transform='scale(2)'", "display='none'", "visibility='hidden'", "fill='none'", "clip-path='url(#d)'", "opacity='0'", "stroke='red' stroke-width='4'"],
            &["", "<path id='x' d='M 1 2 L 30 40 L 5 6'/>", "<defs><path id='x' d='M 1 2 L 30 40 L 5 6' transform='scale(.5)' clip-rule='evenodd'/></defs>"],
            &["", "clip-rule='evenodd' fill='red'", "display='none'"],
        ],
        if t { cfgs() } else { few() },
        linked,
    ));
    // mask
    r.explore(grid(
        "masks",
        "<g {4}><mask id='c' {0} {1}>{2}</mask></g>{3}<mask id='d'><circle r='9' fill='#fff'/></mask>",
        &[
            &["", "maskUnits='userSpaceOnUse'", "maskUnits='objectBoundingBox' maskContentUnits='userSpaceOnUse'", "maskContentUnits='objectBoundingBox'", "mask='url(#d)'", "opacity='.5'", "color-interpolation='linearRGB'", "display='none'", "fill='red' transform='scale(2)'", "style='mask-type:alpha'"],
            &["", "x='0' y='0'", "x='-10%' y='-10%' width='120%' height='120%'", "x='0' y='0' width='1' height='1'", "width='0'", "x='-.1' y='-.1' width='1.2' height='1.2'", "x='5' y='6' width='20' height='30'", "x='10%' width='100%' height='120'"],
            &["", "<rect width='5' height='4' fill='#fff'/>", "<rect width='5' height='4' fill='#fff' opacity='.5'/><circle r='4' fill='#888'/>", "<g fill='#fff' opacity='.5'><circle r='4'/></g>", "<use xlink:href='#x' fill='#fff'/>", "<circle r='4' fill='#fff' display='none'/>", "<image xlink:href='data:image/png;base64,iVBORw0KGgo=' width='5' height='4'/>", "<g fill='#fff'><g transform='scale(2)'><circle r='4'/></g></g>"],
            &["<rect width='40' height='30' mask='url(#c)'/><defs><path id='x' d='M 1 2 L 30 40 L 5 6'/></defs>", "<path id='x' d='M 1 2 L 30 40 L 5 6'/><g mask='url(#c)'><circle r='9'/><circle r='8' fill='red'/></g>", "<path id='x' d='M 1 2 L 30 40 L 5 6'/><g mask='url(#c)'><g opacity='.4'><circle r='9'/></g></g>", "<path id='x' d='M 1 2 L 30 40 L 5 6' mask='url(#c)' transform='translate(3 4)'/>", "<path id='x' d='M 1 2 L 30 40 L 5 6'/><use xlink:href='#x' mask='url(#c)'/><use xlink:href='#x' mask='url(#c)' x='2'/>", "<path id='x' d='M 1 2 L 30 40 L 5 6'/><g mask='url(#c)'/>"],
            &["", "fill='lime' color-interpolation='linearRGB'", "opacity='.5'"],
        ],
        if t { cfgs() } else { few() },
        linked,
    ));
    // pattern
    r.explore(grid(
        "patterns",
        "<g {5}><pattern id='c' {0} {1}>{2}</pattern></g><pattern id='b' width='7' height='8' {3}><circle r='3' fill='#123'/></pattern>{4}",
        &[
            &["width='9' height='8'", "width='9' height='8' patternUnits='userSpaceOnUse'", "width='.5' height='.4' patternUnits='objectBoundingBox'", "width='0' height='8'", "width='9' height='8' x='1' y='2' patternUnits='userSpaceOnUse'", "width='50%' height='40%'", "height='8'", "width='9' height='8' x='0' y='0' patternUnits='userSpaceOnUse'"],
            &["", "patternContentUnits='objectBoundingBox'", "patternContentUnits='userSpaceOnUse'", "viewBox='0 0 5 5'", "viewBox='0 0 5 5' preserveAspectRatio='none'", "patternTransform='scale(2)'", "patternTransform='translate(1) rotate(5)'", "xlink:href='#b'", "xlink:href='#b' overflow='visible'", "overflow='hidden' fill='red'", "opacity='.5'"],
            &["", "<circle r='3'/>", "<g fill='lime'><circle r='3'/><rect width='2' height='3'/></g>", "<rect width='3' height='4' fill='url(#b)'/>", "<g clip-path='url(#z)'><circle r='4'/></g>"],
            &["", "patternUnits='userSpaceOnUse'", "patternTransform='scale(3)' viewBox='0 0 3 3'"],
            &["<rect width='40' height='30' fill='url(#c)'/>", "<g fill='url(#c)'><rect width='40' height='30'/><rect x='5' width='30' height='20'/></g>", "<rect width='40' height='30' fill='none' stroke='url(#c)' stroke-width='4' transform='scale(2)'/>", "<text fill='url(#c)'>ab</text>", "<clipPath id='z'><rect width='3' height='9'/></clipPath><rect width='40' height='30' fill='url(#c)'/>"],
            &["", "fill='blue' stroke='red'", "visibility='hidden'"],
        ],
        if t { cfgs() } else { few() },
        linked,
    ));
    // marker
    r.explore(grid(
        "markers",
        "<g {4}><marker id='c' {0} {1}>{2}</marker></g>{3}",
        &[
            &["", "refX='1' refY='2'", "refX='0' refY='0'", "markerUnits='userSpaceOnUse'", "markerUnits='strokeWidth'", "orient='auto'", "orient='45'", "orient='0'", "overflow='visible'", "overflow='hidden'", "opacity='.5'", "display='none'"],
            &["", "markerWidth='5' markerHeight='4'", "markerWidth='3' markerHeight='3'", "markerWidth='0'", "viewBox='0 0 5 5'", "viewBox='0 0 5 5' preserveAspectRatio='xMinYMax slice'", "clip-path='url(#z)'", "fill='lime'"],
            &["", "<path d='M 0 0 L 2 2 L 0 2'/>", "<path d='M 0 0 L 2 2 L 0 2' fill='red'/><circle r='1'/>", "<g transform='scale(2)'><path d='M 0 0 L 2 2 L 0 2' stroke='red'/></g>", "<text>a</text>"],
            &[
                "<path d='M 1 2 L 30 40 L 5 6' marker-start='url(#c)'/>",
                "<path d='M 1 2 L 30 40 L 5 6 Z' marker='url(#c)' stroke='red' stroke-width='2'/>",
                "<g marker-mid='url(#c)'><path d='M 1 2 L 30 40 L 5 6'/><circle r='4'/></g>",
                "<line x1='1' y1='2' x2='8' y2='9' marker-end='url(#c)'/>",
                "<polygon points='1 2 30 40 5 6' marker-mid='url(#c)' transform='scale(2)'/>",
                "<rect width='9' height='8' marker-start='url(#c)'/><polyline points='1 2 30 40 5 6' marker-end='url(#c)' fill='none'/>",
                "<path d='M 1 2' marker-start='url(#c)'/><path d='M 1 2 L 1 2 L 3 3' marker-mid='url(#c)' fill='none'/>",
                "<g stroke-width='3' marker-end='url(#c)'><use xlink:href='#x'/></g><defs><path id='x' d='M 1 2 C 30 40 5 6 7 8'/></defs>",
                "<clipPath id='z'><rect width='3' height='9'/></clipPath><path d='M 1 2 L 30 40 L 5 6' marker-mid='url(#c)'/>",
            ],
            &["", "fill='blue' stroke='red'", "stroke-width='3'"],
        ],
        if t { cfgs() } else { few() },
        linked,
    ));
    // filter attributes and primitives
    let prim: &'static [&'static str] = &[
        "<feGaussianBlur stdDeviation='2'/>",
        "<feGaussianBlur stdDeviation='2 2' in='SourceAlpha' result='a'/>",
        "<feGaussianBlur stdDeviation='0'/>",
        "<feGaussianBlur stdDeviation='0 3' x='0' y='0' width='100%'/>",
        "<feOffset dx='0' dy='3' in='a' result='b'/>",
        "<feOffset dx='2' x='5' result='a'/>",
        "<feFlood flood-color='red' flood-opacity='.5' result='b'/>",
        "<feFlood flood-color='#000' flood-opacity='1'/>",
        "<feBlend in='a' in2='SourceGraphic' mode='normal'/>",
        "<feMerge><feMergeNode in='a'/><feMergeNode/><feMergeNode in='SourceGraphic'/></feMerge>",
        "<feColorMatrix values='1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0'/>",
        "<feColorMatrix type='saturate' values='1'/>",
        "<feColorMatrix type='matrix' values='1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0'/>",
        "<feColorMatrix type='matrix' in='SourceAlpha' values='1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0'/>",
        "<feColorMatrix type='matrix' in='SourceGraphic' values='1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0'/>",
        "<feColorMatrix values='1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 .5 0' in='SourceAlpha'/>",
        "<feColorMatrix type='hueRotate' values='0' in='SourceAlpha' result='a'/>",
        "<feColorMatrix type='luminanceToAlpha'/>",
        "<feComposite in='a' in2='b' operator='arithmetic' k1='0' k2='1' k3='0' k4='.5'/>",
        "<feComponentTransfer><feFuncR type='linear' slope='1' intercept='0'/><feFuncA type='table' tableValues='0 .5 1'/><feFuncB type='gamma' amplitude='0' exponent='0' offset='0'/><feFuncG type='linear' slope='0'/></feComponentTransfer>",
        "<feConvolveMatrix order='3' kernelMatrix='0 0 0 0 1 0 0 0 0' targetX='0' divisor='2' bias='0' edgeMode='none' preserveAlpha='true'/>",
        "<feMorphology operator='dilate' radius='1 1'/>",
        "<feTurbulence baseFrequency='.05 .05' numOctaves='2' seed='0' type='fractalNoise'/>",
        "<feTile in='a'/>",
        "<feImage xlink:href='#x'/>",
        "<feImage xlink:href='data:image/png;base64,iVBORw0KGgo=' preserveAspectRatio='none'/>",
        "<feDiffuseLighting surfaceScale='0' diffuseConstant='0' lighting-color='white'><feDistantLight azimuth='0' elevation='3'/></feDiffuseLighting>",
        "<feSpecularLighting specularExponent='20' lighting-color='#0f0'><fePointLight x='0' y='5' z='1'/></feSpecularLighting>",
        "<feDisplacementMap in2='a' scale='0' xChannelSelector='R' yChannelSelector='A'/>",
        "<feSpecularLighting><feSpotLight x='0' pointsAtX='0' pointsAtY='2' specularExponent='1' limitingConeAngle='0'/></feSpecularLighting>",
    ];
    let np = prim.len();
    let len = if t { 3 } else { 2 };
    let cnt = seq_count(np, len);
    r.explore(family(
        "filter primitives",
        cnt * 2,
        move |i| {
            let s: String = seq(i / 2, np).iter().map(|k| prim[*k]).collect();
            let x = "<path id='x' d='M 1 2 L 30 40 L 5 6' fill='red'/>";
            Some(svg(&if i % 2 == 0 {
                format!("<filter id='c'>{}</filter><rect width='40' height='30' filter='url(#c)'/>{}", s, x)
            } else {
                format!("{}<g color-interpolation-filters='sRGB' flood-color='lime'><filter id='c'>{}</filter></g><g filter='url(#c)'><circle r='9'/></g><text filter='url(#c)'>a</text>", x, s)
            }))
        },
        few(),
        picture_and_ids,
    ));
    r.explore(grid(
        "filter elements",
        "<g {5}><filter id='c' {0} {1} {2}>{3}</filter></g><filter id='d' x='5' primitiveUnits='objectBoundingBox'><feGaussianBlur stdDeviation='.1'/></filter><filter id='e' xlink:href='#c'/><circle r='2' filter='url(#e)'/>{4}",
        &[
            &["", "filterUnits='userSpaceOnUse'", "filterUnits='objectBoundingBox' primitiveUnits='userSpaceOnUse'", "primitiveUnits='objectBoundingBox'", "filterRes='10'", "xlink:href='#d'", "color-interpolation-filters='sRGB'", "color-interpolation-filters='linearRGB' fill='red'"],
            &["", "x='0' y='0'", "x='-10%' y='-10%' width='120%' height='120%'", "x='-.1' y='-.1'", "x='5' y='6' width='20' height='30'", "width='0' height='3'", "x='-10%' width='100%' height='120'", "width='1' height='1'"],
            &["", "height='1.2'", "y='0'"],
            &["", "<feGaussianBlur stdDeviation='2'/>", "<feOffset dx='2'/><feMerge><feMergeNode/></feMerge>", "<feGaussianBlur stdDeviation='2' color-interpolation-filters='sRGB'/><feFlood flood-color='red'/>", "<feColorMatrix type='matrix' values='1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0'/>", "<feColorMatrix values='1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0'/>", "<title>t</title><feColorMatrix type='saturate' values='1'/>", "<feGaussianBlur stdDeviation='0'/>"],
            &["<rect width='40' height='30' filter='url(#c)'/>", "<g filter='url(#c)'><circle r='9'/><circle r='8' fill='red'/></g>", "<g filter='url(#c)'/><circle r='3'/>", "<rect width='40' height='30' filter='url(#c)' transform='scale(2)'/>", "<g filter='url(#c)' opacity='.5' clip-path='url(#z)'><circle r='3'/></g><clipPath id='z'><rect width='8' height='9'/></clipPath>", "<use xlink:href='#q' filter='url(#c)'/><defs><path id='q' d='M 1 2 L 30 40 L 5 6' filter='url(#c)'/></defs>", "<g filter='url(#c)'><path d='M 1 2 L 30 40 L 5 6' fill='none'/></g>", "<rect width='0' height='9' filter='url(#c)'/><circle r='2'/>"],
            &["", "color-interpolation-filters='sRGB'", "id='g'"],
        ],
        if t { cfgs() } else { few() },
        linked,
    ));
    // equal or nearly equal blur filters
    let at: &'static [&'static str] = &["", "x='-20%' width='140%'", "x='-20%' width='140%' y='0'", "color-interpolation-filters='sRGB'", "filterUnits='userSpaceOnUse'", "primitiveUnits='objectBoundingBox'", "xlink:href='#z'", "color-interpolation-filters='linearRGB'", "height='5'"];
    let bl: &'static [&'static str] = &["<feGaussianBlur stdDeviation='2'/>", "<feGaussianBlur stdDeviation='2 2'/>", "<feGaussianBlur stdDeviation='2' in='SourceAlpha'/>", "<feGaussianBlur stdDeviation='2' result='r'/>", "<feGaussianBlur stdDeviation='3'/>", "<feGaussianBlur stdDeviation='2' x='1'/>", "<feGaussianBlur stdDeviation='2' color-interpolation-filters='sRGB'/>", "<feGaussianBlur stdDeviation='2'/><feOffset dx='2'/>", "<feGaussianBlur stdDeviation='2' in='SourceGraphic'/>", ""];
    let dims = [at.len(), bl.len(), at.len(), bl.len(), if t { 3 } else { 1 }];
    r.explore(family(
        "equal blur filters",
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let g = ["", "color-interpolation-filters='sRGB'", "id='g'"][k[4]];
            Some(svg(&format!(
                "<filter id='a' {}>{}</filter><g {}><filter id='b' {}>{}</filter></g><filter id='z' x='1'><feGaussianBlur stdDeviation='5'/></filter><rect filter='url(#b)' width='9' height='8'/><circle r='5' filter='url(#a)'/><g filter='url(#b)'><circle r='4'/><circle r='3' fill='red'/></g><circle r='5' filter='url(#z)'/>",
                at[k[0]], bl[k[1]], g, at[k[2]], bl[k[3]]
            )))
        },
        vec![config(&[]), solo(&["remove-dupl-fegaussianblur"]), solo(&[])],
        picture_and_ids,
    ));
    // what is inside of a clip, mask, ... is also drawn elsewhere
    let mut f = grid(
        "contents used elsewhere",
        "{4}<g {5}><{0} id='c' width='9' height='8'><path id='x' {1} d='M 1 2 L 30 40 L 5 6'/>{2}</{0}></g><defs><rect id='y' width='5' height='6' fill='lime' opacity='.75'/></defs>{3}",
        &[
            &["clipPath", "mask", "pattern", "marker", "symbol", "defs", "switch"],
            &["", "fill='red'", "stroke='red' stroke-width='3'", "opacity='.5'", "fill='none' stroke='red'", "fill-opacity='.5' stroke-opacity='.25'", "style='fill:red;opacity:.5'", "fill-rule='evenodd' clip-rule='evenodd'", "stroke='lime' stroke-dasharray='3 4' stroke-linecap='round'", "filter='url(#F)'", "mask='url(#M)'", "visibility='hidden'", "marker-mid='url(#K)'", "clip-path='url(#C)'", "transform='scale(2)'"],
            &["", "<circle id='z' r='4' fill='red' opacity='.25'/>", "<use id='z' xlink:href='#y' fill='red'/>", "<text id='z' fill='red' opacity='.5'>a</text>"],
            &["<use xlink:href='#x' x='3'/>", "<g fill='blue' stroke='lime' opacity='.4'><use xlink:href='#x'/></g>", "<use xlink:href='#x' fill='blue'/><use xlink:href='#z' x='5'/>", "<rect mask='url(#c)' width='40' height='30'/><use xlink:href='#x' x='5'/>", "<rect clip-path='url(#c)' width='40' height='30'/><use xlink:href='#x' x='5'/>", "<rect fill='url(#c)' width='40' height='30'/><use xlink:href='#x' x='5'/>", "<path marker-start='url(#c)' d='M 1 2 L 30 40'/><use xlink:href='#z'/>", "<use xlink:href='#c'/>"],
            &["", "<use xlink:href='#x' y='7'/>", DEFS],
            &["", "fill='lime' stroke='blue'"],
        ],
        few(),
        linked,
    );
    // references to nothing or to an element of another kind are outside the domain
    let gen = f.gen;
    f.gen = Box::new(move |i| {
        gen(i).filter(|d| {
            ids_ok(d).is_ok() && [("clip-path", "clipPath"), ("mask", "mask"), ("fill", "pattern"), ("marker-start", "marker")].iter().all(|(a, e)| !d.contains(&format!("{}='url(#c)'", a)) || d.contains(&format!("<{} id='c'", e)))
        })
    });
    r.explore(f);
    // deep effects
    let mut kinds: Vec<String> = EFFECTS.iter().filter(|e| !e.starts_with("style")).map(|e| format!("<g {}>|</g>", e)).collect();
    kinds.push("<g opacity='.5'>|<circle r='3'/></g>".into());
    kinds.push("<a clip-path='url(#C)'>|</a>".into());
    r.explore(runs(
        "deep effects",
        kinds,
        3..=if t { 8 } else { 6 },
        true,
        |v| Some(svg(&format!("{}{}", DEFS, nested(v, "<path d='M 1 2 L 30 40 L 5 60' opacity='.25'/>")))),
        few(),
        same_picture,
    ));
    // long filters
    r.explore(runs(
        "long filters",
        strings(&[
            "<feGaussianBlur stdDeviation='2'/>",
            "<feGaussianBlur stdDeviation='0'/>",
            "<feColorMatrix type='matrix' values='1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0'/>",
            "<feFlood flood-color='red' flood-opacity='.5' result='r{i}'/>",
            "<feOffset dx='{i}' in='SourceAlpha'/>",
            "<feMerge><feMergeNode in='SourceGraphic'/><feMergeNode/></feMerge>",
            "<feBlend in2='SourceGraphic'/>",
            "<feTile x='0' width='5'/>",
        ]),
        2..=if t { 9 } else { 7 },
        true,
        |v| Some(svg(&format!("<filter id='f'>{0}</filter><filter id='g' primitiveUnits='objectBoundingBox'>{0}</filter><rect width='30' height='20' filter='url(#f)'/><rect width='30' height='20' filter='url(#g)'/>", v.concat()))),
        cfgs(),
        same_picture,
    ));
}

/// References that resolve to nothing are outside the domain.
fn linked(c: &Case, note: &mut Note) -> Result<(), String> {
    // as are those that never end
    if ids_ok(c.pre.text).is_err() || matches!(c.pre.render(), Err(e) if e.contains("cyclic")) {
        return Ok(());
    }
    picture_and_ids(c, note)
}

//! Documents with the subjects of the options in every place (for C10 and C22).
use crate::fam::*;

/// Places where nodes can be inserted, all in one document; every place is kept by every option.
pub const PLACES: usize = 33;
const DOC: &str = "{0}<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:m='urn:m' viewBox='0 0 200 100'>{1}<defs>{2}<clipPath id='c'>{3}<path d='M 0 0 L 30 40 L 5 60 Z'>{4}</path></clipPath><mask id='ma'>{5}<circle fill='white' r='9'/></mask><pattern id='p' width='9' height='8' patternUnits='userSpaceOnUse'>{6}<circle r='3'/></pattern><marker id='k' markerWidth='3' markerHeight='4'>{7}<path d='M 0 0 L 3 2 L 0 4'/></marker><filter id='f'>{8}<feFlood flood-color='red'>{9}</feFlood><feMerge>{10}<feMergeNode>{11}</feMergeNode></feMerge></filter><linearGradient id='lg'>{12}<stop offset='0' stop-color='red'>{13}</stop>{14}<stop offset='1' stop-color='blue'/></linearGradient><radialGradient id='rg' r='4'>{15}<stop offset='.5' stop-color='red'/><stop offset='1' stop-color='lime'/>{16}</radialGradient><symbol id='s'>{17}<circle r='6'/><circle r='5' fill='red'/></symbol><g id='h'>{18}<circle r='7'/><circle r='8' fill='red'/></g>{19}</defs><g fill='url(#lg)' id='g'>{20}<path d='M 0 0 L 30 40 L 5 60' clip-path='url(#c)' mask='url(#ma)'>{21}</path>{22}<circle r='4' fill='url(#p)' stroke='url(#rg)'/></g>{23}<g filter='url(#f)'>{24}<path d='M 0 0 L 3 2 L 6 7' marker-end='url(#k)'/><circle r='3' fill='lime'/></g><use xlink:href='#s' width='9' height='9'>{25}</use><use xlink:href='#h'/><use xlink:href='#h' x='9'/><text x='5' font-size='9'>abc{26}</text><svg width='30' height='40'>{27}<circle r='2'/></svg><switch>{28}<circle r='1'/></switch><a xlink:href='http://x'>{29}<path d='M 0 0 L 1 5 L 2 9'/><circle r='9'/></a><image width='5' height='4' xlink:href='data:image/png;base64,iVBORw0KGgo='>{30}</image>{31}</svg>{32}";

/// Nodes in every place; `k`-th nodes of `nodes` at the chosen places.
pub fn place(at: &[(usize, &str)]) -> String {
    let mut v: Vec<Vec<String>> = vec![vec![String::new()]; PLACES];
    for (p, s) in at {
        v[*p][0].push_str(s);
    }
    fill(DOC, &v, &[0; PLACES])
}

/// Descriptive nodes, comments, declarations and foreign elements.
pub const NODES: &[&str] = &[
    "<!--c-->",
    "<title>t</title>",
    "<title>t<!--c--><desc/></title>",
    "<desc>d</desc>",
    "<desc id='d'><title>t</title><m:e/></desc>",
    "<metadata>x</metadata>",
    "<metadata><m:RDF><m:Work m:about='a'>x</m:Work></m:RDF><title>t</title></metadata>",
    "<m:e/>",
    "<m:e m:a='1' b='2'><title>t</title><circle r='5'/><!--c--></m:e>",
    "<title/>",
    "<desc/>",
    "<metadata/>",
];

/// Only comments and white space can stand outside of the root element, and elements in few.
pub fn fits(place: usize, node: &str) -> bool {
    match place {
        0 | 32 => node.starts_with("<!--"),
        _ => true,
    }
}

/// (element, place of its attributes)
pub const CARRIERS: &[(&str, &str)] = &[
    ("svg", "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:m='urn:m' viewBox='0 0 200 100' @><circle r='9'/><path d='M 0 0 L 30 40 L 5 60'/></svg>"),
    ("svg2", "<svg width='30' height='20' @><circle r='9'/></svg>"),
    ("g", "<g fill='red' @><circle r='9'/><circle r='8'/></g>"),
    ("gg", "<g fill='red' opacity='.5'><circle r='5'/><g @><circle r='9'/><circle r='8' stroke='red'/></g></g>"),
    ("path", "<path d='M 0 0 L 30 40 L 5 60' @/>"),
    ("rect", "<rect width='30' height='20' @/>"),
    ("rrect", "<rect width='30' height='20' rx='3' ry='4' @/>"),
    ("circle", "<circle r='9' @/>"),
    ("ellipse", "<ellipse rx='9' ry='4' @/>"),
    ("line", "<line x2='9' y2='6' stroke='red' @/>"),
    ("polyline", "<polyline points='0 0 30 40 5 60' @/>"),
    ("polygon", "<polygon points='0 0 30 40 5 60' @/>"),
    ("image", "<image width='5' height='4' xlink:href='data:image/png;base64,iVBORw0KGgo=' @/>"),
    ("use", "<defs><g id='h'><circle r='7'/><circle r='8' fill='red'/></g></defs><use xlink:href='#h' @/><use xlink:href='#h' x='50'/>"),
    ("used", "<defs><g id='h' @><circle r='7'/><circle r='8' fill='red'/></g></defs><use xlink:href='#h'/><use xlink:href='#h' x='50'/>"),
    ("a", "<a xlink:href='http://x' @><circle r='7'/><circle r='8' fill='red'/></a>"),
    ("switch", "<switch @><circle r='7'/></switch>"),
    ("clipPath", "<clipPath id='c' @><circle r='7'/></clipPath><path d='M 0 0 L 30 40 L 5 60' clip-path='url(#c)'/>"),
    ("clipped", "<clipPath id='c'><circle r='7' @/></clipPath><path d='M 0 0 L 30 40 L 5 60' clip-path='url(#c)'/>"),
    ("mask", "<mask id='c' @><circle r='7'/></mask><path d='M 0 0 L 30 40 L 5 60' mask='url(#c)'/>"),
    ("pattern", "<pattern id='c' width='5' height='6' patternUnits='userSpaceOnUse' @><circle r='7'/></pattern><path d='M 0 0 L 30 40 L 5 60' fill='url(#c)'/>"),
    ("marker", "<marker id='c' markerWidth='5' markerHeight='6' @><circle r='7'/></marker><path d='M 0 0 L 30 40 L 5 60' marker-end='url(#c)'/>"),
    ("symbol", "<symbol id='c' @><circle r='7'/></symbol><use xlink:href='#c' width='9' height='9'/><use xlink:href='#c' width='8' height='9'/>"),
    ("linearGradient", "<linearGradient id='c' @><stop offset='0' stop-color='red'/><stop offset='1' stop-color='lime'/></linearGradient><path d='M 0 0 L 30 40 L 5 60' fill='url(#c)'/>"),
    ("radialGradient", "<radialGradient id='c' @><stop offset='0' stop-color='red'/><stop offset='1' stop-color='lime'/></radialGradient><path d='M 0 0 L 30 40 L 5 60' fill='url(#c)'/>"),
    ("stop", "<linearGradient id='c'><stop offset='.5' @/><stop offset='1' stop-color='lime'/></linearGradient><path d='M 0 0 L 30 40 L 5 60' fill='url(#c)'/>"),
    ("filter", "<filter id='c' @><feFlood flood-color='red'/></filter><path d='M 0 0 L 30 40 L 5 60' filter='url(#c)'/>"),
    ("feGaussianBlur", "<filter id='c'><feGaussianBlur stdDeviation='2' @/></filter><path d='M 0 0 L 30 40 L 5 60' filter='url(#c)'/>"),
    ("feOffset", "<filter id='c'><feOffset dx='2' @/></filter><path d='M 0 0 L 30 40 L 5 60' filter='url(#c)'/>"),
    ("feFunc", "<filter id='c'><feComponentTransfer><feFuncR type='linear' @/></feComponentTransfer></filter><path d='M 0 0 L 30 40 L 5 60' filter='url(#c)'/>"),
    ("text", "<text @>abc</text>"),
    ("tspan", "<text>ab<tspan @>c</tspan></text>"),
    ("textg", "<g @><text>abc</text><circle r='4'/></g>"),
    ("defs", "<defs @><circle id='c' r='7'/></defs><use xlink:href='#c'/><use xlink:href='#c' x='4'/>"),
    ("title", "<circle r='7'><title @>t</title></circle>"),
    ("desc", "<desc @>t</desc><circle r='7'/>"),
    ("metadata", "<metadata @>t</metadata><circle r='7'/>"),
];

/// Attributes without effect or with their default effect, and others that some option removes.
pub const ATTRS: &[&str] = &[
    "",
    "m:a='1'",
    "data-x='y'",
    "foo='bar' role='img'",
    "aria-label='x'",
    "xmlns:n='urn:n' n:b='2'",
    "class='k'",
    "class='k l'",
    "version='1.1'",
    "baseProfile='full'",
    "version='1.0' baseProfile='tiny'",
    "id='i'",
    "id='very-long-identifier'",
    "xml:space='preserve'",
    "xml:space='default'",
    "xml:base='http://x/'",
    "xml:lang='en'",
    "style='fill:#000000'",
    "style='opacity:1;stroke:none'",
    "fill='black'",
    "stroke='none'",
    "stroke='none' stroke-width='5' stroke-linecap='round'",
    "fill='none' fill-rule='evenodd' fill-opacity='.5'",
    "stroke='none' stroke-width='5' stroke-linejoin='round' stroke-miterlimit='9' stroke-dasharray='3' stroke-dashoffset='2' stroke-opacity='.5'",
    "stroke='red' stroke-width='0' stroke-dashoffset='2' stroke-opacity='.5'",
    "stroke='red' stroke-opacity='0' stroke-linecap='round' stroke-miterlimit='9'",
    "fill='red' fill-opacity='0' fill-rule='evenodd'",
    "stroke-width='1' stroke-miterlimit='4' stroke-linecap='butt' stroke-linejoin='miter'",
    "fill-rule='nonzero' clip-rule='nonzero' fill-opacity='1' stroke-opacity='1'",
    "opacity='1'",
    "visibility='visible' display='inline'",
    "stroke-dasharray='none' stroke-dashoffset='0'",
    "marker-start='none' marker-mid='none' marker-end='none'",
    "clip-path='none' mask='none' filter='none'",
    "stop-opacity='1' stop-color='black'",
    "flood-opacity='1' flood-color='black'",
    "font-size='12' font-family='Arial'",
    "font-style='normal' font-weight='normal' font-variant='normal' font-stretch='normal'",
    "text-anchor='start' letter-spacing='normal' word-spacing='normal' kerning='auto'",
    "text-anchor='middle' letter-spacing='2' writing-mode='lr-tb'",
    "baseline-shift='baseline' text-decoration='none' direction='ltr'",
    "x='0' y='0'",
    "x='0'",
    "cx='0' cy='0'",
    "cx='3' cy='4'",
    "x1='0' y1='0'",
    "x2='0' y2='0'",
    "x1='3' y1='4'",
    "rx='0' ry='0'",
    "rx='3' ry='3'",
    "ry='3'",
    "fx='3' fy='4' cx='3' cy='4'",
    "fx='50%' fy='50%' cx='50%' cy='50%' r='50%'",
    "gradientUnits='objectBoundingBox' spreadMethod='pad'",
    "gradientUnits='userSpaceOnUse'",
    "gradientTransform='translate(3 4)' gradientUnits='userSpaceOnUse' x1='1' y1='2' x2='9' y2='8'",
    "gradientTransform='scale(2)' gradientUnits='userSpaceOnUse' cx='1' cy='2' r='9' fx='1' fy='3'",
    "x1='0%' y1='0%' x2='100%' y2='0%'",
    "transform='translate(0)'",
    "transform='translate(3 4)'",
    "transform='scale(2)'",
    "transform='rotate(30)'",
    "points='0 0 5 6 7 8'",
    "d='M 0 0 L 5 6'",
    "offset='0.5'",
    "overflow='visible'",
    "overflow='hidden'",
    "overflow='auto'",
    "color='red'",
    "enable-background='accumulate'",
    "enable-background='new'",
    "width='100%' height='100%'",
    "width='0' height='0'",
    "x='-10%' y='-10%' width='120%' height='120%'",
    "maskUnits='objectBoundingBox' maskContentUnits='userSpaceOnUse'",
    "clipPathUnits='userSpaceOnUse'",
    "patternUnits='objectBoundingBox' patternContentUnits='userSpaceOnUse'",
    "filterUnits='objectBoundingBox' primitiveUnits='userSpaceOnUse'",
    "refX='0' refY='0'",
    "stdDeviation='0'",
    "slope='1'",
    "preserveAspectRatio='xMidYMid meet'",
    "shape-rendering='auto' color-rendering='auto' image-rendering='auto'",
    "pointer-events='none'",
    "cursor='pointer'",
    "zoomAndPan='magnify'",
    "contentScriptType='text/ecmascript' contentStyleType='text/css'",
];

pub fn carry(c: usize, attrs: &str) -> Option<String> {
    let t = CARRIERS[c].1.replace('@', attrs);
    let b = if CARRIERS[c].0 == "svg" {
        t
    } else {
        format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' xmlns:m='urn:m' viewBox='0 0 200 100'>{}<path d='M 5 5 L 30 40 L 5 70' fill='lime'/></svg>", t)
    };
    // an attribute twice: not a document
    crate::xml::parse(&b).ok()?;
    Some(b)
}

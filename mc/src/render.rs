//! Reference semantics: document -> canonical display list in device space.
use crate::geom::{self, pt, Mat, Path, Pt, Seg, Sub, ID};
use crate::style::*;
use crate::xml::{Kind, Xml};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    N(f64),
    S(String),
    L(Vec<V>),
    T(&'static str, Vec<V>),
}
use V::*;

pub const EPS: f64 = 1e-4;

impl V {
    pub fn show(&self, o: &mut String, ind: usize) {
        match self {
            N(n) => o.push_str(&format!("{:.5}", n).trim_end_matches('0').trim_end_matches('.')),
            S(s) => o.push_str(&format!("{:?}", s)),
            L(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(' ');
                    }
                    e.show(o, ind);
                }
                o.push(']');
            }
            T(n, v) => {
                o.push_str(n);
                o.push('(');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(' ');
                    }
                    e.show(o, ind);
                }
                o.push(')');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.show(&mut s, 0);
        s
    }
}

/// First difference between two canonical values, or None if equal within tolerance.
pub fn diff(a: &V, b: &V, tol: f64, path: &mut String) -> Option<String> {
    match (a, b) {
        (N(x), N(y)) => {
            if x == y || (x - y).abs() <= tol * (1.0 + x.abs().max(y.abs())) || (x.is_nan() && y.is_nan()) {
                None
            } else {
                Some(format!("{}: {} != {}", path, x, y))
            }
        }
        (S(x), S(y)) => {
            if x == y {
                None
            } else {
                Some(format!("{}: {:?} != {:?}", path, x, y))
            }
        }
        (L(x), L(y)) => {
            let l = path.len();
            for i in 0..x.len().min(y.len()) {
                path.push_str(&format!("[{}]", i));
                let d = diff(&x[i], &y[i], tol, path);
                path.truncate(l);
                if d.is_some() {
                    return d;
                }
            }
            if x.len() != y.len() {
                let e = if x.len() > y.len() { &x[y.len()] } else { &y[x.len()] };
                return Some(format!("{}: {} items != {} items (first extra: {})", path, x.len(), y.len(), e.text()));
            }
            None
        }
        (T(n, x), T(m, y)) => {
            if n != m {
                return Some(format!("{}: {} != {}", path, a.text(), b.text()));
            }
            let l = path.len();
            for i in 0..x.len().min(y.len()) {
                path.push_str(&format!("/{}.{}", n, i));
                let d = diff(&x[i], &y[i], tol, path);
                path.truncate(l);
                if d.is_some() {
                    return d;
                }
            }
            if x.len() != y.len() {
                return Some(format!("{}: {} != {}", path, a.text(), b.text()));
            }
            None
        }
        _ => Some(format!("{}: {} != {}", path, a.text(), b.text())),
    }
}

fn s(x: &str) -> V {
    S(x.to_string())
}
fn mat_v(m: &Mat) -> V {
    L(vec![N(m.a), N(m.b), N(m.c), N(m.d), N(m.e), N(m.f)])
}
/// Device-space parallelogram of a user-space rect.
fn quad(m: &Mat, x: f64, y: f64, w: f64, h: f64) -> V {
    let mut v = vec![];
    for p in [pt(x, y), pt(x + w, y), pt(x + w, y + h), pt(x, y + h)] {
        let q = m.ap(p);
        v.push(N(q.x));
        v.push(N(q.y));
    }
    L(v)
}

pub struct Doc<'a> {
    pub x: &'a Xml,
    pub st: Styles,
    ids: std::collections::HashMap<&'a str, usize>,
    /// set when a cyclic or too deep reference was met
    pub cyclic: Cell<bool>,
    budget: Cell<usize>,
    /// inside a clipPath only the geometry counts
    in_clip: Cell<bool>,
    root: usize,
}

const MAX_DEPTH: usize = 40;

pub fn render(x: &Xml) -> Result<V, String> {
    let d = Doc::new(x)?;
    let v = d.document();
    if d.cyclic.get() {
        return Err("cyclic".into());
    }
    Ok(v)
}

pub fn href<'b>(x: &'b Xml, n: usize) -> Option<&'b str> {
    x.attr(n, "xlink:href")
}

/// Parses `url(#id) fallback`.
fn func_iri(v: &str) -> Option<(&str, &str)> {
    let v = v.trim();
    let r = v.strip_prefix("url(")?;
    let e = r.find(')')?;
    let id = r[..e].trim().trim_matches(|c| c == '"' || c == '\'').trim();
    Some((id.strip_prefix('#')?, r[e + 1..].trim()))
}

struct View {
    m: Mat,
    clip: Option<(f64, f64, f64, f64)>,
    vp: (f64, f64),
}

impl<'a> Doc<'a> {
    pub fn new(x: &'a Xml) -> Result<Doc<'a>, String> {
        let mut ids = std::collections::HashMap::new();
        for n in x.all_elems() {
            if let Some(i) = x.attr(n, "id") {
                ids.entry(i).or_insert(n);
            }
        }
        let root = x.root_elem().ok_or("no root")?;
        Ok(Doc { x, st: Styles::new(x), ids, cyclic: Cell::new(false), budget: Cell::new(20000), in_clip: Cell::new(false), root })
    }
    fn target(&self, h: &str) -> Option<usize> {
        h.strip_prefix('#').and_then(|i| self.ids.get(i).cloned())
    }
    fn by_id(&self, id: &str) -> Option<usize> {
        self.ids.get(id).cloned()
    }
    fn prop(&self, c: &Rc<Ctx>, name: &str) -> String {
        computed(&self.st, c, name)
    }
    fn attr(&self, n: usize, name: &str) -> Option<&str> {
        self.x.attr(n, name)
    }
    fn len(&self, c: &Rc<Ctx>, name: &str, ax: Axis) -> Option<f64> {
        self.attr(c.node, name).and_then(|v| length(&self.st, c, v, ax))
    }
    fn len0(&self, c: &Rc<Ctx>, name: &str, ax: Axis) -> f64 {
        self.len(c, name, ax).unwrap_or(0.0)
    }
    fn opacity_val(&self, c: &Rc<Ctx>, name: &str) -> f64 {
        let v = self.prop(c, name);
        let t = v.trim();
        geom::number(t)
            .map(|(n, r)| if r == "%" { n / 100.0 } else { n })
            .unwrap_or(1.0)
            .max(0.0)
            .min(1.0)
    }

    pub fn viewport(&self) -> (f64, f64) {
        if let Some(vb) = self.viewbox(self.root) {
            return (vb[2], vb[3]);
        }
        let c = Rc::new(Ctx { node: self.root, parent: None, vp: (100.0, 100.0), depth: 0 });
        (
            self.len(&c, "width", Axis::X).unwrap_or(100.0),
            self.len(&c, "height", Axis::Y).unwrap_or(100.0),
        )
    }
    fn viewbox(&self, n: usize) -> Option<[f64; 4]> {
        let v = geom::number_list(self.attr(n, "viewBox")?)?;
        if v.len() == 4 {
            Some([v[0], v[1], v[2], v[3]])
        } else {
            None
        }
    }

    fn document(&self) -> V {
        let n = self.root;
        let lenstr = |a: &str, def: &str| -> V {
            let v = self.attr(n, a).unwrap_or(def);
            match geom::number(v.trim()) {
                Some((k, r)) => {
                    let r = if r.trim() == "px" { "" } else { r.trim() };
                    L(vec![N(k), s(r)])
                }
                None => s(v),
            }
        };
        let vb = match self.viewbox(n) {
            Some(v) => L(v.iter().map(|k| N(*k)).collect()),
            None => s("none"),
        };
        let par = self.attr(n, "preserveAspectRatio").unwrap_or("xMidYMid meet").to_string();
        let c = Rc::new(Ctx { node: n, parent: None, vp: self.viewport(), depth: 0 });
        let mut ops = vec![];
        if self.prop(&c, "display") != "none" {
            self.children(&c, &ID, &mut ops);
        }
        let ops = self.effects(&c, &ID, ops);
        let ov = {
            let o = self.prop(&c, "overflow");
            if o == "" || o == "auto" { "visible".to_string() } else { o }
        };
        T(
            "doc",
            vec![lenstr("width", "100%"), lenstr("height", "100%"), vb, S(par), S(ov), L(ops)],
        )
    }

    fn children(&self, c: &Rc<Ctx>, m: &Mat, out: &mut Vec<V>) {
        for k in self.x.elem_children(c.node) {
            let kc = child_ctx(c, k);
            self.elem(&kc, m, out);
        }
    }

    fn deep(&self, c: &Rc<Ctx>) -> bool {
        let b = self.budget.get();
        if c.depth > MAX_DEPTH || b == 0 {
            self.cyclic.set(true);
            return true;
        }
        self.budget.set(b - 1);
        false
    }

    fn own_transform(&self, n: usize) -> Mat {
        self.attr(n, "transform").and_then(geom::transform).unwrap_or(ID)
    }

    pub fn elem(&self, c: &Rc<Ctx>, ctm: &Mat, out: &mut Vec<V>) {
        let n = c.node;
        if self.deep(c) {
            return;
        }
        let tag = self.x.name(n);
        match tag {
            "g" | "a" | "switch" | "svg" | "use" | "path" | "rect" | "circle" | "ellipse" | "line" | "polyline"
            | "polygon" | "text" | "image" | "foreignObject" => {}
            _ => return,
        }
        if self.prop(c, "display") == "none" {
            return;
        }
        // SVG 1.1 ignores 'transform' on a nested svg and SVG 2 applies it: keep it apart.
        let m = if tag == "svg" { *ctm } else { ctm.mul(&self.own_transform(n)) };
        let mut ops = vec![];
        match tag {
            "g" => self.children(c, &m, &mut ops),
            "a" => {
                self.children(c, &m, &mut ops);
                if let Some(h) = href(self.x, n) {
                    if !ops.is_empty() {
                        ops = vec![T("a", vec![self.link(h), s(self.attr(n, "target").unwrap_or("")), L(ops)])];
                    }
                }
            }
            "switch" => {
                for k in self.x.elem_children(n) {
                    match self.x.name(k) {
                        "g" | "a" | "switch" | "svg" | "use" | "path" | "rect" | "circle" | "ellipse" | "line"
                        | "polyline" | "polygon" | "text" | "image" | "foreignObject" => {
                            self.elem(&child_ctx(c, k), &m, &mut ops);
                            break;
                        }
                        _ => {}
                    }
                }
            }
            "svg" => self.viewport_elem(c, &m, None, &mut ops),
            "use" => self.use_elem(c, &m, &mut ops),
            "text" => self.text(c, &m, &mut ops),
            "image" => {
                let (x, y) = (self.len0(c, "x", Axis::X), self.len0(c, "y", Axis::Y));
                let (w, h) = (self.len0(c, "width", Axis::X), self.len0(c, "height", Axis::Y));
                if self.prop(c, "visibility") == "visible" && w > 0.0 && h > 0.0 {
                    ops.push(T(
                        "image",
                        vec![
                            quad(&m, x, y, w, h),
                            s(href(self.x, n).unwrap_or("")),
                            s(self.attr(n, "preserveAspectRatio").unwrap_or("xMidYMid meet")),
                            S(self.prop(c, "image-rendering")),
                        ],
                    ));
                }
            }
            "foreignObject" => {
                ops.push(T("foreign", vec![mat_v(&m)]));
            }
            _ => {
                // rendering of the element is disabled, with its effects
                if self.outline(c).is_none() {
                    return;
                }
                self.shape(c, &m, &mut ops)
            }
        }
        if tag == "svg" {
            self.svg_transform(c, &m, ops, out);
        } else {
            out.extend(self.effects(c, &m, ops));
        }
    }

    /// The effects and the transform of a nested svg.
    fn svg_transform(&self, c: &Rc<Ctx>, m: &Mat, ops: Vec<V>, out: &mut Vec<V>) {
        let wrap = |ops: Vec<V>| match self.attr(c.node, "transform").and_then(geom::transform) {
            Some(t) if t != ID && !ops.is_empty() => vec![T("svg-transform", vec![mat_v(&t), L(ops)])],
            _ => ops,
        };
        // opacity does not depend on the coordinate system
        let plain = ["clip-path", "mask", "filter"].iter().all(|p| self.prop(c, p) == "none");
        out.extend(if plain { self.effects(c, m, wrap(ops)) } else { wrap(self.effects(c, m, ops)) });
    }

    /// Wraps the ops of an element in its group effects.
    fn effects(&self, c: &Rc<Ctx>, m: &Mat, ops: Vec<V>) -> Vec<V> {
        let op = self.opacity_val(c, "opacity");
        let clip = self.prop(c, "clip-path");
        let mask = self.prop(c, "mask");
        let filter = self.prop(c, "filter");
        let mut cv = s("none");
        let mut mv = s("none");
        let mut fv = s("none");
        if filter != "none" {
            match func_iri(&filter).and_then(|f| self.by_id(f.0)) {
                Some(f) if self.x.name(f) == "filter" => match self.filter(c, f, m) {
                    Some(v) => fv = v,
                    None => return vec![],
                },
                _ => return vec![],
            }
        }
        if let Some((id, _)) = func_iri(&clip) {
            if let Some(k) = self.by_id(id) {
                if self.x.name(k) == "clipPath" {
                    match self.clip(c, k, m, 0) {
                        Some(v) => cv = v,
                        None => return vec![],
                    }
                }
            }
        }
        if let Some((id, _)) = func_iri(&mask) {
            if let Some(k) = self.by_id(id) {
                if self.x.name(k) == "mask" {
                    match self.mask(c, k, m) {
                        Some(v) => mv = v,
                        None => return vec![],
                    }
                }
            }
        }
        if op == 0.0 {
            return vec![];
        }
        let none = |v: &V| matches!(v, S(ref t) if t == "none");
        if ops.is_empty() && none(&fv) {
            return vec![];
        }
        if op == 1.0 && none(&cv) && none(&mv) && none(&fv) {
            return ops;
        }
        // Clip, mask and opacity multiply pointwise, so nested ones are the same as merged ones.
        if ops.len() == 1 && none(&fv) {
            if let T("fx", ref v) = ops[0] {
                if (none(&cv) || none(&v[1])) && (none(&mv) || none(&v[2])) {
                    if let N(o) = v[0] {
                        let c = if none(&cv) { v[1].clone() } else { cv };
                        let m = if none(&mv) { v[2].clone() } else { mv };
                        return vec![T("fx", vec![N(o * op), c, m, v[3].clone(), v[4].clone()])];
                    }
                }
            }
        }
        vec![T("fx", vec![N(op), cv, mv, fv, L(ops)])]
    }

    // ---------------------------------------------------------------- viewports

    fn aspect(&self, n: usize, w: f64, h: f64) -> Option<Mat> {
        let vb = match self.viewbox(n) {
            Some(v) => v,
            None => return Some(ID),
        };
        if vb[2] <= 0.0 || vb[3] <= 0.0 {
            return None;
        }
        let par = self.attr(n, "preserveAspectRatio").unwrap_or("xMidYMid meet");
        let mut it = par.split_whitespace().filter(|t| *t != "defer");
        let al = it.next().unwrap_or("xMidYMid");
        let slice = it.next() == Some("slice");
        let (mut sx, mut sy) = (w / vb[2], h / vb[3]);
        if al != "none" {
            let k = if slice { sx.max(sy) } else { sx.min(sy) };
            sx = k;
            sy = k;
        }
        let mut tx = -vb[0] * sx;
        let mut ty = -vb[1] * sy;
        if al.contains("xMid") {
            tx += (w - vb[2] * sx) / 2.0;
        }
        if al.contains("xMax") {
            tx += w - vb[2] * sx;
        }
        if al.contains("YMid") {
            ty += (h - vb[3] * sy) / 2.0;
        }
        if al.contains("YMax") {
            ty += h - vb[3] * sy;
        }
        Some(Mat::new(sx, 0.0, 0.0, sy, tx, ty))
    }

    /// svg or symbol as a new viewport; `over` are the width/height given by a use element.
    fn viewport_elem(&self, c: &Rc<Ctx>, m: &Mat, over: Option<(Option<f64>, Option<f64>)>, out: &mut Vec<V>) {
        let n = c.node;
        let is_svg = self.x.name(n) == "svg";
        let pc = c.vp;
        let x = if is_svg { self.len0(c, "x", Axis::X) } else { 0.0 };
        let y = if is_svg { self.len0(c, "y", Axis::Y) } else { 0.0 };
        let own = |a: &str, ax: Axis, d: f64| if is_svg { self.len(c, a, ax).unwrap_or(d) } else { d };
        let (mut w, mut h) = (own("width", Axis::X, pc.0), own("height", Axis::Y, pc.1));
        if let Some((ow, oh)) = over {
            if let Some(k) = ow {
                w = k;
            }
            if let Some(k) = oh {
                h = k;
            }
        }
        if w <= 0.0 || h <= 0.0 {
            return;
        }
        let vm = match self.aspect(n, w, h) {
            Some(v) => v,
            None => return,
        };
        let vp = match self.viewbox(n) {
            Some(v) => (v[2], v[3]),
            None => (w, h),
        };
        let m1 = m.mul(&Mat::tr(x, y));
        let m2 = m1.mul(&vm);
        let kc = Rc::new(Ctx { node: n, parent: c.parent.clone(), vp, depth: c.depth });
        let mut ops = vec![];
        self.children(&kc, &m2, &mut ops);
        let ov = self.prop(c, "overflow");
        if ops.is_empty() {
            return;
        }
        if ov == "visible" || ov == "auto" {
            out.extend(ops);
        } else {
            out.push(T("vp", vec![quad(&m1, 0.0, 0.0, w, h), L(ops)]));
        }
    }

    fn use_elem(&self, c: &Rc<Ctx>, m: &Mat, out: &mut Vec<V>) {
        let n = c.node;
        let t = match href(self.x, n).and_then(|h| self.target(h)) {
            Some(t) => t,
            None => return,
        };
        let m = m.mul(&Mat::tr(self.len0(c, "x", Axis::X), self.len0(c, "y", Axis::Y)));
        let tc = child_ctx(c, t);
        match self.x.name(t) {
            "symbol" | "svg" => {
                if self.deep(&tc) {
                    return;
                }
                if self.prop(&tc, "display") == "none" && self.x.name(t) == "svg" {
                    return;
                }
                let is_sym = self.x.name(t) == "symbol";
                let (mut w, mut h) = (self.len(c, "width", Axis::X), self.len(c, "height", Axis::Y));
                if is_sym {
                    w = w.or(Some(c.vp.0));
                    h = h.or(Some(c.vp.1));
                }
                let m2 = if is_sym { m.mul(&self.own_transform(t)) } else { m };
                let mut ops = vec![];
                self.viewport_elem(&tc, &m2, Some((w, h)), &mut ops);
                if is_sym {
                    out.extend(self.effects(&tc, &m2, ops));
                } else {
                    self.svg_transform(&tc, &m2, ops, out);
                }
            }
            _ => self.elem(&tc, &m, out),
        }
    }

    // ---------------------------------------------------------------- shapes

    /// Outline of a basic shape or path in user space; None if it draws nothing.
    pub fn outline(&self, c: &Rc<Ctx>) -> Option<Path> {
        // a lone point draws nothing, markers included
        self.outline0(c).filter(|p| !(p.len() == 1 && p[0].segs.is_empty()))
    }
    fn outline0(&self, c: &Rc<Ctx>) -> Option<Path> {
        let n = c.node;
        match self.x.name(n) {
            "path" => {
                let p = geom::path(self.attr(n, "d").unwrap_or("")).0;
                if p.is_empty() {
                    None
                } else {
                    Some(p)
                }
            }
            "rect" => {
                let (x, y) = (self.len0(c, "x", Axis::X), self.len0(c, "y", Axis::Y));
                let (w, h) = (self.len0(c, "width", Axis::X), self.len0(c, "height", Axis::Y));
                if w <= 0.0 || h <= 0.0 {
                    return None;
                }
                let rx = self.len(c, "rx", Axis::X).filter(|v| *v >= 0.0);
                let ry = self.len(c, "ry", Axis::Y).filter(|v| *v >= 0.0);
                let (mut rx, mut ry) = match (rx, ry) {
                    (None, None) => (0.0, 0.0),
                    (Some(a), None) => (a, a),
                    (None, Some(b)) => (b, b),
                    (Some(a), Some(b)) => (a, b),
                };
                if rx > w / 2.0 {
                    rx = w / 2.0;
                }
                if ry > h / 2.0 {
                    ry = h / 2.0;
                }
                if rx == 0.0 || ry == 0.0 {
                    return Some(vec![Sub {
                        start: pt(x, y),
                        segs: vec![Seg::L(pt(x + w, y)), Seg::L(pt(x + w, y + h)), Seg::L(pt(x, y + h))],
                        closed: true,
                    }]);
                }
                let mut segs = vec![];
                let mut cur = pt(x + rx, y);
                let start = cur;
                let mut go = |p: Pt, is_arc: bool| {
                    if is_arc {
                        if let Some(g) = geom::arc(cur, rx, ry, 0.0, false, true, p) {
                            segs.push(g);
                        }
                    } else {
                        segs.push(Seg::L(p));
                    }
                    cur = p;
                };
                go(pt(x + w - rx, y), false);
                go(pt(x + w, y + ry), true);
                go(pt(x + w, y + h - ry), false);
                go(pt(x + w - rx, y + h), true);
                go(pt(x + rx, y + h), false);
                go(pt(x, y + h - ry), true);
                go(pt(x, y + ry), false);
                go(pt(x + rx, y), true);
                Some(vec![Sub { start, segs, closed: true }])
            }
            t @ "circle" | t @ "ellipse" => {
                let (cx, cy) = (self.len0(c, "cx", Axis::X), self.len0(c, "cy", Axis::Y));
                let (rx, ry) = if t == "circle" {
                    let r = self.len0(c, "r", Axis::D);
                    (r, r)
                } else {
                    (self.len0(c, "rx", Axis::X), self.len0(c, "ry", Axis::Y))
                };
                if rx <= 0.0 || ry <= 0.0 {
                    return None;
                }
                let mut segs = vec![];
                let ps = [pt(cx, cy + ry), pt(cx - rx, cy), pt(cx, cy - ry), pt(cx + rx, cy)];
                let mut cur = pt(cx + rx, cy);
                let start = cur;
                for p in ps {
                    segs.push(geom::arc(cur, rx, ry, 0.0, false, true, p).unwrap());
                    cur = p;
                }
                Some(vec![Sub { start, segs, closed: true }])
            }
            "line" => Some(vec![Sub {
                start: pt(self.len0(c, "x1", Axis::X), self.len0(c, "y1", Axis::Y)),
                segs: vec![Seg::L(pt(self.len0(c, "x2", Axis::X), self.len0(c, "y2", Axis::Y)))],
                closed: false,
            }]),
            t @ "polyline" | t @ "polygon" => {
                // an error in the list: everything up to it is rendered
                let mut v = vec![];
                let mut rest = geom::skip_ws(self.attr(n, "points").unwrap_or(""));
                while let Some((k, r)) = geom::number(rest) {
                    v.push(k);
                    rest = geom::skip_cw(r);
                }
                let p: Vec<Pt> = v.chunks(2).filter(|k| k.len() == 2).map(|k| pt(k[0], k[1])).collect();
                if p.len() < 2 {
                    return None;
                }
                Some(vec![Sub {
                    start: p[0],
                    segs: p[1..].iter().map(|q| Seg::L(*q)).collect(),
                    closed: t == "polygon",
                }])
            }
            _ => None,
        }
    }

    fn geom_v(&self, p: &Path, tag: &str, m: &Mat, dashed: bool) -> Option<V> {
        if (tag == "circle" || tag == "ellipse") && !dashed {
            // centre and quadratic form
            let b = geom::bbox(p);
            let (rx, ry) = ((b.x1 - b.x0) / 2.0, (b.y1 - b.y0) / 2.0);
            let ct = m.ap(pt((b.x0 + b.x1) / 2.0, (b.y0 + b.y1) / 2.0));
            let u = m.apv(pt(rx, 0.0));
            let v = m.apv(pt(0.0, ry));
            return Some(T(
                "ellipse",
                vec![N(ct.x), N(ct.y), N(u.x * u.x + v.x * v.x), N(u.x * u.y + v.x * v.y), N(u.y * u.y + v.y * v.y)],
            ));
        }
        let q = geom::canon(&geom::map_path(p, m), EPS);
        if q.is_empty() {
            return None;
        }
        Some(T("path", q.iter().map(sub_v).collect()))
    }

    fn shape(&self, c: &Rc<Ctx>, m: &Mat, out: &mut Vec<V>) {
        let n = c.node;
        let tag = self.x.name(n);
        let p = match self.outline(c) {
            Some(p) => p,
            None => return,
        };
        if self.prop(c, "visibility") != "visible" {
            return;
        }
        let bb = geom::bbox(&p);
        let fill = self.fill_v(c, m, Some(&bb));
        let stroke = self.stroke_v(c, m, Some(&bb), Some((&p, tag)));
        let dashed = self.dash(c).len() > 0 && stroke.is_some();
        if fill.is_some() || stroke.is_some() {
            if let Some(g) = self.geom_v(&p, tag, m, dashed) {
                let none = || s("none");
                out.push(T(
                    "shape",
                    vec![
                        g,
                        fill.unwrap_or_else(none),
                        stroke.unwrap_or_else(none),
                        S(self.prop(c, "shape-rendering")),
                        S(self.prop(c, "color-rendering")),
                    ],
                ));
            }
        }
        if matches!(tag, "path" | "line" | "polyline" | "polygon") {
            self.markers(c, m, &p, out);
        }
    }

    fn fill_v(&self, c: &Rc<Ctx>, m: &Mat, bb: Option<&geom::BBox>) -> Option<V> {
        let f = self.prop(c, "fill");
        let o = self.opacity_val(c, "fill-opacity");
        let (p, k) = self.paint(c, &f, m, bb)?;
        if o * k == 0.0 {
            return None;
        }
        Some(T("fill", vec![S(self.prop(c, "fill-rule")), p, N(o * k)]))
    }

    fn dash(&self, c: &Rc<Ctx>) -> Vec<f64> {
        let d = self.prop(c, "stroke-dasharray");
        if d == "none" {
            return vec![];
        }
        let mut v = vec![];
        for t in d.split(|ch: char| ch == ',' || ch.is_whitespace()).filter(|t| !t.is_empty()) {
            match length(&self.st, c, t, Axis::D) {
                Some(k) if k >= 0.0 => v.push(k),
                _ => return vec![],
            }
        }
        if v.iter().sum::<f64>() <= 0.0 {
            return vec![];
        }
        if v.len() % 2 == 1 {
            let w = v.clone();
            v.extend(w);
        }
        v
    }

    fn stroke_v(&self, c: &Rc<Ctx>, m: &Mat, bb: Option<&geom::BBox>, shape: Option<(&Path, &str)>) -> Option<V> {
        let f = self.prop(c, "stroke");
        let o = self.opacity_val(c, "stroke-opacity");
        let (p, k) = self.paint(c, &f, m, bb)?;
        let w = length(&self.st, c, &self.prop(c, "stroke-width"), Axis::D).unwrap_or(1.0);
        if o * k == 0.0 || w <= 0.0 {
            return None;
        }
        let w2 = w * w;
        let pen = L(vec![
            N(w2 * (m.a * m.a + m.c * m.c)),
            N(w2 * (m.a * m.b + m.c * m.d)),
            N(w2 * (m.b * m.b + m.d * m.d)),
        ]);
        let dash = self.dash(c);
        let off = if dash.is_empty() {
            0.0
        } else {
            length(&self.st, c, &self.prop(c, "stroke-dashoffset"), Axis::D).unwrap_or(0.0)
        };
        let mut cap = self.prop(c, "stroke-linecap");
        let mut join = self.prop(c, "stroke-linejoin");
        if let Some((p, tag)) = shape {
            let cp = geom::canon(&geom::map_path(p, m), EPS);
            if dash.is_empty() && cp.iter().all(|q| q.closed) {
                cap = "butt".into();
            }
            if tag == "line" || tag == "circle" || tag == "ellipse" {
                join = "-".into();
            }
            if cp.iter().all(|q| !q.closed && q.segs.len() == 1 && matches!(q.segs[0], Seg::L(_))) {
                join = "-".into();
            }
        }
        let ml = if join == "miter" {
            geom::number(&self.prop(c, "stroke-miterlimit")).map(|k| k.0).unwrap_or(4.0)
        } else {
            0.0
        };
        Some(T(
            "stroke",
            vec![
                pen,
                S(cap),
                S(join),
                N(ml),
                L(dash.iter().map(|d| N(d / w)).collect()),
                N(off / w),
                p,
                N(o * k),
            ],
        ))
    }

    // ---------------------------------------------------------------- paint servers

    fn color_v(&self, v: &str) -> Option<V> {
        color(v).map(|k| T("color", vec![N(k[0] as f64), N(k[1] as f64), N(k[2] as f64)]))
    }

    /// Paint and opacity multiplier; None = paints nothing.
    fn paint(&self, c: &Rc<Ctx>, v: &str, m: &Mat, bb: Option<&geom::BBox>) -> Option<(V, f64)> {
        let v = v.trim();
        if v == "none" {
            return None;
        }
        if let Some((id, fb)) = func_iri(v) {
            return match self.by_id(id) {
                Some(t) => match self.x.name(t) {
                    "linearGradient" | "radialGradient" => self.gradient(c, t, m, bb),
                    "pattern" => self.pattern(c, t, m, bb).map(|v| (v, 1.0)),
                    _ => None,
                },
                None => {
                    if fb.is_empty() || fb == "none" {
                        None
                    } else {
                        let fb = if fb == "currentColor" { self.prop(c, "color") } else { fb.to_string() };
                        self.color_v(&fb).map(|v| (v, 1.0))
                    }
                }
            };
        }
        match self.color_v(v) {
            Some(k) => Some((k, 1.0)),
            None => Some((T("badcolor", vec![s(v)]), 1.0)),
        }
    }

    /// A link; the names of local targets do not matter.
    fn link(&self, h: &str) -> V {
        match self.target(h) {
            Some(_) => s("#"),
            None => s(h),
        }
    }

    fn href_chain(&self, n: usize) -> Vec<usize> {
        let mut v = vec![n];
        let mut c = n;
        while let Some(t) = href(self.x, c).and_then(|h| self.target(h)) {
            if v.contains(&t) {
                self.cyclic.set(true);
                break;
            }
            v.push(t);
            c = t;
        }
        v
    }
    fn chain_attr(&self, ch: &[usize], a: &str, tags: &[&str]) -> Option<&str> {
        ch.iter().filter(|n| tags.contains(&self.x.name(**n))).filter_map(|n| self.attr(*n, a)).next()
    }

    fn grad_coord(&self, c: &Rc<Ctx>, v: Option<&str>, def: &str, obb: bool, ax: Axis) -> f64 {
        let v = v.unwrap_or(def);
        if obb {
            match geom::number(v.trim()) {
                Some((n, "%")) => n / 100.0,
                Some((n, "")) => n,
                Some((n, u)) => n * unit_factor(u).unwrap_or(1.0),
                None => 0.0,
            }
        } else {
            length(&self.st, c, v, ax).unwrap_or(0.0)
        }
    }

    fn gradient(&self, c: &Rc<Ctx>, g: usize, m: &Mat, bb: Option<&geom::BBox>) -> Option<(V, f64)> {
        const G: &[&str] = &["linearGradient", "radialGradient"];
        let ch: Vec<usize> = {
            let full = self.href_chain(g);
            let k = full.iter().position(|n| !G.contains(&self.x.name(*n))).unwrap_or(full.len());
            full[..k].to_vec()
        };
        let obb = self.chain_attr(&ch, "gradientUnits", G) != Some("userSpaceOnUse");
        let gt = self.chain_attr(&ch, "gradientTransform", G).and_then(geom::transform).unwrap_or(ID);
        let spread = self.chain_attr(&ch, "spreadMethod", G).unwrap_or("pad").to_string();
        // stops
        let mut stops: Vec<(f64, [u8; 3], f64)> = vec![];
        for &n in &ch {
            let st: Vec<usize> = self.x.elem_children(n).filter(|k| self.x.name(*k) == "stop").collect();
            if st.is_empty() {
                continue;
            }
            let nc = natural_ctx(self.x, n, c.vp);
            for k in st {
                let kc = child_ctx(&nc, k);
                let off = self.attr(k, "offset").unwrap_or("0").trim();
                let mut o = match geom::number(off) {
                    Some((v, r)) => {
                        if r.trim() == "%" {
                            v / 100.0
                        } else {
                            v
                        }
                    }
                    None => 0.0,
                };
                o = o.max(0.0).min(1.0);
                if let Some(l) = stops.last() {
                    o = o.max(l.0);
                }
                let col = color(&self.prop(&kc, "stop-color")).unwrap_or([0, 0, 0]);
                stops.push((o, col, self.opacity_val(&kc, "stop-opacity")));
            }
            break;
        }
        if stops.is_empty() {
            return None;
        }
        let solid = |st: &(f64, [u8; 3], f64)| {
            let k = st.1;
            Some((T("color", vec![N(k[0] as f64), N(k[1] as f64), N(k[2] as f64)]), st.2))
        };
        if stops.iter().all(|t| t.1 == stops[0].1 && (t.2 - stops[0].2).abs() < 1e-6) {
            return solid(&stops[0]);
        }
        let um = if obb {
            match bb {
                Some(b) => match b.mat() {
                    Some(k) => m.mul(&k),
                    None => return None,
                },
                None => *m,
            }
        } else {
            *m
        };
        let gm = um.mul(&gt);
        let inv = match gm.inv() {
            Some(i) => i,
            None => return Some((T("singular", vec![mat_v(&gm)]), 1.0)),
        };
        let lin = self.x.name(g) == "linearGradient";
        let tags: &[&str] = if lin { &["linearGradient"] } else { &["radialGradient"] };
        let co = |a: &str, d: &str, ax| self.grad_coord(c, self.chain_attr(&ch, a, tags), d, obb, ax);
        let geo;
        if lin {
            let p1 = pt(co("x1", "0%", Axis::X), co("y1", "0%", Axis::Y));
            let p2 = pt(co("x2", "100%", Axis::X), co("y2", "0%", Axis::Y));
            let d = p2.sub(p1);
            let l2 = d.x * d.x + d.y * d.y;
            if l2 < 1e-12 {
                return solid(stops.last().unwrap());
            }
            let t = |p: Pt| {
                let q = inv.ap(p).sub(p1);
                (q.x * d.x + q.y * d.y) / l2
            };
            let t0 = t(pt(0.0, 0.0));
            geo = L(vec![s("linear"), N(t(pt(100.0, 0.0)) - t0), N(t(pt(0.0, 100.0)) - t0), N(t0)]);
        } else {
            let cx = co("cx", "50%", Axis::X);
            let cy = co("cy", "50%", Axis::Y);
            let r = co("r", "50%", Axis::D);
            let fx = match self.chain_attr(&ch, "fx", tags) {
                Some(v) => self.grad_coord(c, Some(v), "", obb, Axis::X),
                None => cx,
            };
            let fy = match self.chain_attr(&ch, "fy", tags) {
                Some(v) => self.grad_coord(c, Some(v), "", obb, Axis::Y),
                None => cy,
            };
            if r.abs() < 1e-9 {
                return solid(stops.last().unwrap());
            }
            let (mut fx, mut fy) = (fx, fy);
            let df = (fx - cx).hypot(fy - cy);
            if df > r {
                fx = cx + (fx - cx) * r / df;
                fy = cy + (fy - cy) * r / df;
            }
            let u = gm.apv(pt(r, 0.0));
            let v = gm.apv(pt(0.0, r));
            let ct = gm.ap(pt(cx, cy));
            let f = gm.ap(pt(fx, fy));
            geo = L(vec![
                s("radial"),
                N(ct.x),
                N(ct.y),
                N(f.x),
                N(f.y),
                N(u.x * u.x + v.x * v.x),
                N(u.x * u.y + v.x * v.y),
                N(u.y * u.y + v.y * v.y),
            ]);
        }
        // canonical ramp
        let mut r: Vec<(f64, [u8; 3], f64)> = vec![];
        for st in &stops {
            let k = r.len();
            if k >= 2 && (r[k - 1].0 - st.0).abs() < 1e-7 && (r[k - 2].0 - st.0).abs() < 1e-7 {
                r[k - 1] = *st;
            } else if k >= 1 && (r[k - 1].0 - st.0).abs() < 1e-7 && r[k - 1].1 == st.1 && r[k - 1].2 == st.2 {
            } else {
                r.push(*st);
            }
        }
        // explicit ends
        if spread == "pad" {
            // everything before the first / after the last stop has that stop's colour: same ramp with
            // stops at 0 and 1; of several stops at offset 0 (1) only the last (first) one shows inside,
            // but the first (last) one pads outside
            if r[0].0 > 1e-7 {
                let f = r[0];
                r.insert(0, (0.0, f.1, f.2));
            }
            let l = *r.last().unwrap();
            if l.0 < 1.0 - 1e-7 {
                r.push((1.0, l.1, l.2));
            }
        } else {
            if r[0].0 > 1e-7 {
                let f = r[0];
                r.insert(0, (0.0, f.1, f.2));
            }
            let l = *r.last().unwrap();
            if l.0 < 1.0 - 1e-7 {
                r.push((1.0, l.1, l.2));
            }
        }
        // drop inner stops equal to both neighbours
        let mut i = 1;
        while i + 1 < r.len() {
            if r[i].1 == r[i - 1].1 && r[i].1 == r[i + 1].1 && r[i].2 == r[i - 1].2 && r[i].2 == r[i + 1].2 {
                r.remove(i);
            } else {
                i += 1;
            }
        }
        let ramp = r
            .iter()
            .map(|t| L(vec![N(t.0), N(t.1[0] as f64), N(t.1[1] as f64), N(t.1[2] as f64), N(t.2)]))
            .collect();
        let ci = {
            let nc = natural_ctx(self.x, g, c.vp);
            self.prop(&nc, "color-interpolation")
        };
        let mut v = vec![geo, S(spread), L(ramp), S(ci)];
        if obb && bb.is_none() {
            v.push(s("obb"));
        }
        Some((T("gradient", v), 1.0))
    }

    fn pattern(&self, c: &Rc<Ctx>, p: usize, m: &Mat, bb: Option<&geom::BBox>) -> Option<V> {
        const G: &[&str] = &["pattern"];
        let ch = self.href_chain(p);
        let obb = self.chain_attr(&ch, "patternUnits", G) != Some("userSpaceOnUse");
        let cobb = self.chain_attr(&ch, "patternContentUnits", G) == Some("objectBoundingBox");
        let ptm = self.chain_attr(&ch, "patternTransform", G).and_then(geom::transform).unwrap_or(ID);
        let co = |a: &str, ax| self.grad_coord(c, self.chain_attr(&ch, a, G), "0", obb, ax);
        let (x, y, w, h) = (co("x", Axis::X), co("y", Axis::Y), co("width", Axis::X), co("height", Axis::Y));
        if w <= 0.0 || h <= 0.0 {
            return None;
        }
        let content = ch.iter().cloned().find(|n| self.x.elem_children(*n).next().is_some())?;
        let bm = match bb {
            Some(b) => b.mat(),
            None => Some(ID),
        };
        let base = m.mul(&ptm);
        let tile_m = if obb { base.mul(&bm?) } else { base };
        let cm;
        let vbn = ch.iter().cloned().find(|n| self.attr(*n, "viewBox").is_some());
        if let Some(v) = vbn {
            // viewBox maps onto the tile
            let (tw, th, tx, ty, mm) = if obb {
                let b = bm?;
                (w * b.a, h * b.d, x * b.a + b.e, y * b.d + b.f, base)
            } else {
                (w, h, x, y, base)
            };
            cm = mm.mul(&Mat::tr(tx, ty)).mul(&self.aspect(v, tw, th)?);
        } else if cobb {
            cm = base.mul(&bm?);
        } else {
            // the content is positioned relative to the tile origin
            let o = if obb {
                let b = bm?;
                pt(x * b.a + b.e, y * b.d + b.f)
            } else {
                pt(x, y)
            };
            cm = base.mul(&Mat::tr(o.x, o.y));
        }
        let nc = natural_ctx(self.x, content, c.vp);
        let nc = Rc::new(Ctx { node: nc.node, parent: nc.parent.clone(), vp: nc.vp, depth: c.depth + 1 });
        if self.deep(&nc) {
            return None;
        }
        let mut ops = vec![];
        self.children(&nc, &cm, &mut ops);
        if ops.is_empty() {
            return None;
        }
        let mut ov = self.prop(&natural_ctx(self.x, p, c.vp), "overflow");
        if ov == "" {
            ov = "hidden".into();
        }
        Some(T("pattern", vec![quad(&tile_m, x, y, w, h), S(ov), L(ops)]))
    }

    // ---------------------------------------------------------------- markers

    fn markers(&self, c: &Rc<Ctx>, m: &Mat, p: &Path, out: &mut Vec<V>) {
        let get = |name: &str| -> Option<usize> {
            let v = self.prop(c, name);
            let t = func_iri(&v).and_then(|f| self.by_id(f.0))?;
            if self.x.name(t) == "marker" {
                Some(t)
            } else {
                None
            }
        };
        let (ms, mm, me) = (get("marker-start"), get("marker-mid"), get("marker-end"));
        if ms.is_none() && mm.is_none() && me.is_none() {
            return;
        }
        let vs = geom::vertices(p);
        let k = vs.len();
        let sw = length(&self.st, c, &self.prop(c, "stroke-width"), Axis::D).unwrap_or(1.0);
        for (i, v) in vs.iter().enumerate() {
            let a = match (v.1, v.2) {
                (Some(a), Some(b)) => {
                    let s = a.add(b);
                    if s.len() < 1e-6 {
                        a
                    } else {
                        s
                    }
                }
                (Some(a), None) => a,
                (None, Some(b)) => b,
                (None, None) => pt(1.0, 0.0),
            };
            let ang = a.y.atan2(a.x).to_degrees();
            let mut one = |mk: Option<usize>| {
                if let Some(mk) = mk {
                    self.marker(c, mk, m, v.0, ang, sw, out);
                }
            };
            if i == 0 {
                one(ms);
            }
            if i > 0 && i + 1 < k {
                one(mm);
            }
            if i + 1 == k {
                one(me);
            }
        }
    }

    fn marker(&self, c: &Rc<Ctx>, mk: usize, m: &Mat, p: Pt, auto_ang: f64, sw: f64, out: &mut Vec<V>) {
        let nc = natural_ctx(self.x, mk, c.vp);
        let nc = Rc::new(Ctx { node: nc.node, parent: nc.parent.clone(), vp: nc.vp, depth: c.depth + 1 });
        if self.deep(&nc) {
            return;
        }
        let g = |a: &str, d: f64, ax| self.len(&nc, a, ax).unwrap_or(d);
        let (rx, ry) = (g("refX", 0.0, Axis::X), g("refY", 0.0, Axis::Y));
        let (w, h) = (g("markerWidth", 3.0, Axis::X), g("markerHeight", 3.0, Axis::Y));
        if w <= 0.0 || h <= 0.0 {
            return;
        }
        let ang = match self.attr(mk, "orient") {
            Some("auto") => auto_ang,
            Some(v) => geom::number(v).map(|k| k.0).unwrap_or(0.0),
            None => 0.0,
        };
        let sc = if self.attr(mk, "markerUnits") == Some("userSpaceOnUse") { 1.0 } else { sw };
        let vm = match self.aspect(mk, w, h) {
            Some(v) => v,
            None => return,
        };
        let r = vm.ap(pt(rx, ry));
        let m1 = m.mul(&Mat::tr(p.x, p.y)).mul(&Mat::rot(ang)).mul(&Mat::sc(sc, sc)).mul(&Mat::tr(-r.x, -r.y));
        let m2 = m1.mul(&vm);
        let mut ops = vec![];
        self.children(&nc, &m2, &mut ops);
        let ops = self.effects(&nc, &m2, ops);
        if ops.is_empty() {
            return;
        }
        let ov = self.prop(&nc, "overflow");
        if ov == "visible" || ov == "auto" {
            out.push(T("marker", vec![L(ops)]));
        } else {
            out.push(T("marker", vec![quad(&m1, 0.0, 0.0, w, h), L(ops)]));
        }
    }

    // ---------------------------------------------------------------- bounding boxes

    /// Bounding box of an element in its own user space. `None` if unknown (text).
    fn elem_bbox(&self, c: &Rc<Ctx>, m: &Mat) -> Option<geom::BBox> {
        let mut b = geom::BBox::empty();
        if self.bbox_rec(c, m, &mut b) {
            Some(b)
        } else {
            None
        }
    }
    fn bbox_rec(&self, c: &Rc<Ctx>, m: &Mat, b: &mut geom::BBox) -> bool {
        if self.deep(c) {
            return true;
        }
        let n = c.node;
        if self.prop(c, "display") == "none" {
            return true;
        }
        match self.x.name(n) {
            "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" => {
                if let Some(p) = self.outline(c) {
                    b.union(&geom::bbox(&geom::map_path(&p, m)));
                }
                true
            }
            "image" => {
                let (x, y) = (self.len0(c, "x", Axis::X), self.len0(c, "y", Axis::Y));
                let (w, h) = (self.len0(c, "width", Axis::X), self.len0(c, "height", Axis::Y));
                for p in [pt(x, y), pt(x + w, y), pt(x + w, y + h), pt(x, y + h)] {
                    b.add(m.ap(p));
                }
                true
            }
            "g" | "a" | "switch" => {
                let mut ok = true;
                for k in self.x.elem_children(n) {
                    ok &= self.bbox_rec(&child_ctx(c, k), &m.mul(&self.own_transform(k)), b);
                }
                ok
            }
            "use" => {
                let m = m.mul(&Mat::tr(self.len0(c, "x", Axis::X), self.len0(c, "y", Axis::Y)));
                match href(self.x, n).and_then(|h| self.target(h)) {
                    Some(t) if self.x.name(t) != "symbol" && self.x.name(t) != "svg" => {
                        self.bbox_rec(&child_ctx(c, t), &m.mul(&self.own_transform(t)), b)
                    }
                    Some(_) => false,
                    None => true,
                }
            }
            "text" | "svg" | "foreignObject" => false,
            _ => true,
        }
    }

    fn unit_mat(&self, c: &Rc<Ctx>, m: &Mat, obb: bool) -> Option<Mat> {
        if !obb {
            return Some(*m);
        }
        match self.elem_bbox(c, &ID) {
            Some(b) => b.mat().map(|k| m.mul(&k)),
            None => Some(*m),
        }
    }

    // ---------------------------------------------------------------- clip, mask, filter

    /// None: clips everything away.
    fn clip(&self, c: &Rc<Ctx>, k: usize, m: &Mat, depth: usize) -> Option<V> {
        if depth > 8 {
            self.cyclic.set(true);
            return None;
        }
        let obb = self.attr(k, "clipPathUnits") == Some("objectBoundingBox");
        let um = self.unit_mat(c, m, obb)?.mul(&self.own_transform(k));
        let nc = natural_ctx(self.x, k, c.vp);
        let mut items = vec![];
        for e in self.x.elem_children(k) {
            let ec = child_ctx(&nc, e);
            if self.prop(&ec, "display") == "none" {
                continue;
            }
            let mut em = um.mul(&self.own_transform(e));
            let mut own_clip = self.prop(&ec, "clip-path");
            let mut gc = ec.clone();
            if self.x.name(e) == "use" {
                em = em.mul(&Mat::tr(self.len0(&ec, "x", Axis::X), self.len0(&ec, "y", Axis::Y)));
                let t = match href(self.x, e).and_then(|h| self.target(h)) {
                    Some(t) => t,
                    None => continue,
                };
                gc = child_ctx(&ec, t);
                if self.prop(&gc, "display") == "none" {
                    continue;
                }
                em = em.mul(&self.own_transform(t));
                let c2 = self.prop(&gc, "clip-path");
                if own_clip == "none" {
                    own_clip = c2;
                }
            }
            let v = match self.x.name(gc.node) {
                "text" => {
                    let mut o = vec![];
                    let was = self.in_clip.replace(true);
                    self.text(&gc, &em, &mut o);
                    self.in_clip.set(was);
                    if o.is_empty() {
                        continue;
                    }
                    T("cliptext", o)
                }
                t => {
                    if self.prop(&gc, "visibility") != "visible" {
                        continue;
                    }
                    let p = match self.outline(&gc) {
                        Some(p) => p,
                        None => continue,
                    };
                    match self.geom_v(&p, t, &em, false) {
                        Some(g) => {
                            let b = geom::bbox(&p);
                            if b.x1 - b.x0 < 1e-9 || b.y1 - b.y0 < 1e-9 {
                                continue;
                            }
                            g
                        }
                        None => continue,
                    }
                }
            };
            let cc = if own_clip != "none" {
                match func_iri(&own_clip).and_then(|f| self.by_id(f.0)).filter(|t| self.x.name(*t) == "clipPath") {
                    Some(t) => match self.clip(&gc, t, &em, depth + 1) {
                        Some(v) => v,
                        None => continue,
                    },
                    None => s("none"),
                }
            } else {
                s("none")
            };
            items.push(T("clipitem", vec![v, S(self.prop(&gc, "clip-rule")), cc]));
        }
        if items.is_empty() {
            return None;
        }
        let own = self.prop(&nc, "clip-path");
        let oc = match func_iri(&own).and_then(|f| self.by_id(f.0)).filter(|t| self.x.name(*t) == "clipPath") {
            Some(t) => self.clip(c, t, m, depth + 1)?,
            None => s("none"),
        };
        Some(T("clip", vec![L(items), oc]))
    }

    fn mask(&self, c: &Rc<Ctx>, k: usize, m: &Mat) -> Option<V> {
        let obb = self.attr(k, "maskUnits") != Some("userSpaceOnUse");
        let cobb = self.attr(k, "maskContentUnits") == Some("objectBoundingBox");
        let nc = natural_ctx(self.x, k, c.vp);
        let nc = Rc::new(Ctx { node: nc.node, parent: nc.parent.clone(), vp: nc.vp, depth: c.depth + 1 });
        if self.deep(&nc) {
            return None;
        }
        let co = |a: &str, d: &str, ax| self.grad_coord(&nc, self.attr(k, a), d, obb, ax);
        let (x, y, w, h) =
            (co("x", "-10%", Axis::X), co("y", "-10%", Axis::Y), co("width", "120%", Axis::X), co("height", "120%", Axis::Y));
        if w <= 0.0 || h <= 0.0 {
            return None;
        }
        let rm = self.unit_mat(c, m, obb)?;
        let cm = self.unit_mat(c, m, cobb)?;
        let mut ops = vec![];
        self.children(&nc, &cm, &mut ops);
        // effects on the mask element itself (mask, clip-path)
        let own_clip = self.prop(&nc, "clip-path");
        let own_mask = self.prop(&nc, "mask");
        if ops.is_empty() {
            return None;
        }
        let mut v = vec![quad(&rm, x, y, w, h), L(ops), S(self.prop(&nc, "color-interpolation"))];
        if let Some(t) = func_iri(&own_clip).and_then(|f| self.by_id(f.0)).filter(|t| self.x.name(*t) == "clipPath") {
            v.push(self.clip(c, t, m, 1)?);
        }
        if let Some(t) = func_iri(&own_mask).and_then(|f| self.by_id(f.0)).filter(|t| self.x.name(*t) == "mask") {
            if t == k || nc.depth > 30 {
                self.cyclic.set(true);
                return None;
            }
            let c2 = Rc::new(Ctx { node: c.node, parent: c.parent.clone(), vp: c.vp, depth: nc.depth + 1 });
            v.push(self.mask(&c2, t, m)?);
        }
        Some(T("mask", v))
    }

    fn filter(&self, c: &Rc<Ctx>, f: usize, m: &Mat) -> Option<V> {
        let chain: Vec<usize> = self.href_chain(f);
        let g: &[&str] = &["filter"];
        let obb = self.chain_attr(&chain, "filterUnits", g) != Some("userSpaceOnUse");
        let pobb = self.chain_attr(&chain, "primitiveUnits", g) == Some("objectBoundingBox");
        let nc = natural_ctx(self.x, f, c.vp);
        let co = |a: &str, d: &str, ax| self.grad_coord(&nc, self.chain_attr(&chain, a, g), d, obb, ax);
        let (x, y, w, h) =
            (co("x", "-10%", Axis::X), co("y", "-10%", Axis::Y), co("width", "120%", Axis::X), co("height", "120%", Axis::Y));
        if w <= 0.0 || h <= 0.0 {
            return None;
        }
        let rm = self.unit_mat(c, m, obb)?;
        let um = self.unit_mat(c, m, pobb)?;
        let content = chain
            .iter()
            .cloned()
            .find(|n| self.x.elem_children(*n).any(|k| self.x.name(k).starts_with("fe")))?;
        let cc = natural_ctx(self.x, content, c.vp);
        let mut prims = vec![];
        let mut results: Vec<(String, usize)> = vec![];
        let mut ident = true;
        for k in self.x.elem_children(content) {
            let t = self.x.name(k);
            if !t.starts_with("fe") {
                continue;
            }
            let kc = child_ctx(&cc, k);
            let idx = prims.len();
            let v = self.fe(&kc, idx, &results);
            if t == "feColorMatrix" {
                let v = self.attr(k, "values").unwrap_or("");
                let ty = self.attr(k, "type").unwrap_or("matrix");
                let id = geom::number_list(v)
                    .map(|v| v == [1., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 1., 0.])
                    .unwrap_or(false);
                if !matches!(self.attr(k, "in"), None | Some("SourceGraphic")) {
                    ident = false;
                }
                if !(ty == "matrix" && id || v.is_empty() && ty != "luminanceToAlpha") {
                    ident = false;
                }
            } else {
                ident = false;
            }
            if let Some(r) = self.attr(k, "result") {
                results.push((r.to_string(), idx));
            }
            prims.push(v);
        }
        if ident && prims.len() == 1 {
            return Some(s("none"));
        }
        Some(T(
            "filter",
            vec![
                quad(&rm, x, y, w, h),
                mat_v(&um),
                s(self.chain_attr(&chain, "filterRes", g).unwrap_or("")),
                L(prims),
            ],
        ))
    }

    /// Filter primitive (or child of one) with defaults filled in.
    fn fe(&self, c: &Rc<Ctx>, idx: usize, results: &[(String, usize)]) -> V {
        let n = c.node;
        let tag = self.x.name(n);
        let mut at: Vec<(String, V)> = vec![];
        for (k, v) in self.x.attrs(n) {
            let k = k.as_str();
            if prop_info(k).is_some() || matches!(k, "style" | "class" | "id" | "result" | "in" | "in2") || k.starts_with("xml") {
                continue;
            }
            if k == "xlink:href" {
                if let Some(t) = self.target(v) {
                    let nc = natural_ctx(self.x, t, c.vp);
                    let mut ops = vec![];
                    if !self.deep(&nc) {
                        self.elem(&nc, &ID, &mut ops);
                    }
                    at.push((k.to_string(), L(ops)));
                    continue;
                }
            }
            let val = match geom::number_list(v) {
                Some(l) if !l.is_empty() => {
                    if let Some(d) = fe_default(tag, k).and_then(|d| geom::number_list(d)) {
                        if l == d || (l.len() == 2 && d.len() == 1 && l == [d[0], d[0]]) {
                            continue;
                        }
                    }
                    if (k == "stdDeviation" || k == "radius" || k == "kernelUnitLength" || k == "baseFrequency" || k == "order")
                        && l.len() == 2
                        && l[0] == l[1]
                    {
                        L(vec![N(l[0])])
                    } else {
                        L(l.into_iter().map(N).collect())
                    }
                }
                _ => {
                    if fe_default(tag, k) == Some(v.trim()) {
                        continue;
                    }
                    s(v.trim())
                }
            };
            at.push((k.to_string(), val));
        }
        at.sort_by(|a, b| a.0.cmp(&b.0));
        let mut out: Vec<V> = vec![s(tag)];
        for inp in ["in", "in2"] {
            let v = self.attr(n, inp);
            let prev = if idx > 0 { format!("@{}", idx - 1) } else { "SourceGraphic".into() };
            let r = match v {
                None => prev,
                Some(v) => match v {
                    "SourceGraphic" | "SourceAlpha" | "BackgroundImage" | "BackgroundAlpha" | "FillPaint" | "StrokePaint" => {
                        v.to_string()
                    }
                    _ => match results.iter().rev().find(|r| r.0 == v) {
                        Some(r) => format!("@{}", r.1),
                        None => prev,
                    },
                },
            };
            out.push(S(r));
        }
        for (k, v) in at {
            out.push(L(vec![S(k), v]));
        }
        out.push(S(self.prop(c, "color-interpolation-filters")));
        if tag == "feFlood" || tag == "feDropShadow" {
            out.push(self.color_v(&self.prop(c, "flood-color")).unwrap_or(s("?")));
            out.push(N(self.opacity_val(c, "flood-opacity")));
        }
        if tag.contains("Lighting") {
            out.push(self.color_v(&self.prop(c, "lighting-color")).unwrap_or(s("?")));
        }
        for k in self.x.elem_children(n) {
            if self.x.name(k).starts_with("fe") {
                out.push(self.fe(&child_ctx(c, k), idx, results));
            }
        }
        T("fe", out)
    }

    // ---------------------------------------------------------------- text

    fn text(&self, c: &Rc<Ctx>, m: &Mat, out: &mut Vec<V>) {
        let mut chars: Vec<Ch> = vec![];
        let mut styles: Vec<V> = vec![];
        self.text_rec(c, m, &mut chars, &mut styles, &mut vec![]);
        // white space
        let mut keep: Vec<Ch> = vec![];
        for ch in chars {
            if !ch.preserve {
                // as in SVG 2 and in browsers; SVG 1.1 drops line breaks
                let c1 = if ch.c == '\t' || ch.c == '\n' { ' ' } else { ch.c };
                if c1 == ' ' {
                    match keep.last() {
                        None => continue,
                        Some(l) if l.c == ' ' && !l.preserve => continue,
                        _ => {}
                    }
                }
                keep.push(Ch { c: c1, ..ch });
            } else {
                let c1 = if ch.c == '\t' || ch.c == '\n' { ' ' } else { ch.c };
                keep.push(Ch { c: c1, ..ch });
            }
        }
        while let Some(l) = keep.last() {
            if l.c == ' ' && !l.preserve {
                keep.pop();
            } else {
                break;
            }
        }
        // blanks draw nothing but decorations
        if keep.iter().all(|c| c.c == ' ') && !styles.iter().any(|v| v.text().contains("[\"underline\"") || v.text().contains("[\"line-through\"")) {
            return;
        }
        // positions: per element, per addressable character index in that element
        let mut counters: std::collections::HashMap<usize, usize> = Default::default();
        let mut runs: Vec<V> = vec![];
        let mut cur = String::new();
        let mut cur_style = usize::MAX;
        let mut cur_pos: Vec<V> = vec![];
        for ch in &keep {
            let mut pos: [Option<f64>; 5] = [None; 5];
            for (inst, ctx) in ch.chain.iter() {
                let i = *counters.get(inst).unwrap_or(&0);
                for (k, a) in ["x", "y", "dx", "dy", "rotate"].iter().enumerate() {
                    if let Some(v) = self.attr(ctx.node, a) {
                        let l: Vec<&str> =
                            v.split(|c: char| c == ',' || c.is_whitespace()).filter(|t| !t.is_empty()).collect();
                        let ax = if k % 2 == 0 { Axis::X } else { Axis::Y };
                        let item = if k == 4 && !l.is_empty() { Some(l[i.min(l.len() - 1)]) } else { l.get(i).cloned() };
                        if let Some(t) = item {
                            pos[k] = length(&self.st, ctx, t, ax);
                        }
                    }
                }
            }
            for (inst, _) in ch.chain.iter() {
                *counters.entry(*inst).or_insert(0) += 1;
            }
            if cur.is_empty() && runs.is_empty() {
                for k in 0..2 {
                    if pos[k].is_none() {
                        pos[k] = Some(0.0);
                    }
                }
            }
            for k in 2..5 {
                if pos[k] == Some(0.0) {
                    pos[k] = None;
                }
            }
            // all style entries equal? compare by rendering text
            if cur_style != ch.style {
                let same = cur_style != usize::MAX && diff(&styles[cur_style], &styles[ch.style], 1e-9, &mut String::new()).is_none();
                if !same {
                    if !cur.is_empty() {
                        runs.push(T("run", vec![S(std::mem::take(&mut cur)), styles[cur_style].clone(), L(std::mem::take(&mut cur_pos))]));
                    }
                }
                cur_style = ch.style;
            }
            if pos.iter().any(|p| p.is_some()) {
                let i = cur.chars().count();
                cur_pos.push(L(vec![
                    N(i as f64),
                    L(pos.iter().map(|p| p.map(N).unwrap_or_else(|| s("-"))).collect()),
                ]));
            }
            cur.push(ch.c);
        }
        if !cur.is_empty() {
            runs.push(T("run", vec![S(cur), styles[cur_style].clone(), L(cur_pos)]));
        }
        if runs.iter().all(|r| matches!(r, T(_, v) if matches!(v[1], S(ref t) if t == "hidden"))) {
            return;
        }
        let mut h = vec![mat_v(m)];
        for (a, d) in [("writing-mode", "lr-tb"), ("text-anchor", "")] {
            let v = self.prop(c, a);
            let _ = d;
            h.push(S(v));
        }
        for a in ["textLength", "lengthAdjust"] {
            h.push(s(self.attr(c.node, a).unwrap_or("")));
        }
        h.push(L(runs));
        out.push(T("text", h));
    }

    fn text_rec(
        &self,
        c: &Rc<Ctx>,
        m: &Mat,
        chars: &mut Vec<Ch>,
        styles: &mut Vec<V>,
        chain: &mut Vec<(usize, Rc<Ctx>)>,
    ) {
        let n = c.node;
        if self.deep(c) {
            return;
        }
        if self.prop(c, "display") == "none" {
            return;
        }
        chain.push((n, c.clone()));
        let style = styles.len();
        styles.push(self.text_style(c, m));
        let preserve = {
            let mut k = n;
            loop {
                match self.attr(k, "xml:space") {
                    Some(v) => break v == "preserve",
                    None => {
                        if k == crate::xml::ROOT {
                            break false;
                        }
                        k = self.x.parent(k);
                    }
                }
            }
        };
        if self.x.name(n) == "tref" {
            if let Some(t) = href(self.x, n).and_then(|h| self.target(h)) {
                let mut text = String::new();
                self.collect_text(t, &mut text);
                for ch in text.chars() {
                    chars.push(Ch { c: ch, preserve, style, chain: chain.clone() });
                }
            }
            chain.pop();
            return;
        }
        for &k in &self.x.nodes[n].children {
            match self.x.nodes[k].kind {
                Kind::Text(ref t) | Kind::CData(ref t) => {
                    for ch in t.chars() {
                        chars.push(Ch { c: ch, preserve, style, chain: chain.clone() });
                    }
                }
                Kind::Elem(ref name, _) => match name.as_str() {
                    "tspan" | "a" | "tref" | "textPath" | "altGlyph" => {
                        self.text_rec(&child_ctx(c, k), m, chars, styles, chain)
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        chain.pop();
    }

    fn collect_text(&self, n: usize, o: &mut String) {
        for &k in &self.x.nodes[n].children {
            match self.x.nodes[k].kind {
                Kind::Text(ref t) | Kind::CData(ref t) => o.push_str(t),
                Kind::Elem(..) => self.collect_text(k, o),
                _ => {}
            }
        }
    }

    fn text_style(&self, c: &Rc<Ctx>, m: &Mat) -> V {
        if self.prop(c, "visibility") != "visible" {
            return s("hidden");
        }
        let mut v = vec![];
        for p in [
            "direction", "font-family", "font-size-adjust", "font-stretch", "font-style", "font-variant", "font-weight",
            "glyph-orientation-horizontal", "glyph-orientation-vertical", "text-rendering", "text-anchor",
        ] {
            let mut k = self.prop(c, p);
            if p == "font-weight" {
                k = match k.as_str() {
                    "normal" => "400".into(),
                    "bold" => "700".into(),
                    _ => k,
                };
            }
            if p == "font-size-adjust" {
                k = k.parse::<f64>().map(|n| format!("{}", n)).unwrap_or(k);
            }
            if p == "font-family" {
                k = k.replace('\'', "").replace('"', "");
            }
            v.push(L(vec![s(p), S(k)]));
        }
        for p in ["kerning", "letter-spacing", "word-spacing"] {
            let k = self.prop(c, p);
            v.push(L(vec![
                s(p),
                match length(&self.st, c, &k, Axis::X) {
                    Some(n) => N(n),
                    None => S(k),
                },
            ]));
        }
        v.push(N(font_size(&self.st, c)));
        // non-inherited, accumulated from the text element on
        let mut k = Some(c.clone());
        let mut deco = vec![];
        let mut inner = true;
        while let Some(e) = k {
            let t = self.x.name(e.node);
            if inner {
                for p in ["baseline-shift", "dominant-baseline", "alignment-baseline", "unicode-bidi"] {
                    let q = self.prop(&e, p);
                    if q != prop_info(p).unwrap().2 {
                        deco.push(L(vec![s(p), S(q)]));
                    }
                }
            }
            let d = self.prop(&e, "text-decoration");
            if d != "none" {
                let mut words: Vec<&str> = d.split_whitespace().collect();
                words.sort();
                let none = || s("none");
                if self.in_clip.get() {
                    deco.push(S(words.join(" ")));
                } else {
                    deco.push(L(vec![
                    S(words.join(" ")),
                    self.fill_v(&e, m, None).unwrap_or_else(none),
                    self.stroke_v(&e, m, None, None).unwrap_or_else(none),
                    ]));
                }
            }
            if t == "text" {
                inner = false;
            }
            // not inherited, so it doesn't come from outside of definitions
            if matches!(t, "pattern" | "clipPath" | "mask" | "marker") {
                break;
            }
            if t == "a" && inner {
                if let Some(h) = href(self.x, e.node) {
                    deco.push(L(vec![s("a"), self.link(h)]));
                }
            }
            if t == "textPath" {
                if let Some(t) = href(self.x, e.node).and_then(|h| self.target(h)) {
                    let pc = natural_ctx(self.x, t, e.vp);
                    let g = self.outline(&pc).and_then(|p| self.geom_v(&p, "path", &m.mul(&self.own_transform(t)), false));
                    deco.push(L(vec![
                        s("textPath"),
                        g.unwrap_or_else(|| s("none")),
                        s(self.attr(e.node, "startOffset").unwrap_or("0")),
                        s(self.attr(e.node, "method").unwrap_or("align")),
                        s(self.attr(e.node, "spacing").unwrap_or("exact")),
                    ]));
                }
            }
            k = e.parent.clone();
        }
        v.push(L(deco));
        if self.in_clip.get() {
            return T("style", v);
        }
        let none = || s("none");
        v.push(self.fill_v(c, m, None).unwrap_or_else(none));
        v.push(self.stroke_v(c, m, None, None).unwrap_or_else(none));
        T("style", v)
    }
}

struct Ch {
    c: char,
    preserve: bool,
    style: usize,
    chain: Vec<(usize, Rc<Ctx>)>,
}

fn sub_v(q: &Sub) -> V {
    let mut v = vec![s(if q.closed { "closed" } else { "open" }), N(q.start.x), N(q.start.y)];
    for g in &q.segs {
        match g {
            Seg::L(p) => v.push(T("L", vec![N(p.x), N(p.y)])),
            Seg::C(a, b, e) => v.push(T("C", vec![N(a.x), N(a.y), N(b.x), N(b.y), N(e.x), N(e.y)])),
            Seg::A(t) => {
                let mut w = vec![];
                for z in t {
                    for p in [z.0, z.1, z.2] {
                        w.push(N(p.x));
                        w.push(N(p.y));
                    }
                }
                v.push(T("A", w));
            }
        }
    }
    L(v)
}

/// Default values of attributes of filter primitives, SVG 1.1 section 15.
fn fe_default(tag: &str, a: &str) -> Option<&'static str> {
    Some(match (tag, a) {
        ("feBlend", "mode") => "normal",
        ("feColorMatrix", "type") => "matrix",
        (_, "slope") | (_, "amplitude") | (_, "exponent") => "1",
        (_, "intercept") | ("feFuncR", "offset") | ("feFuncG", "offset") | ("feFuncB", "offset") | ("feFuncA", "offset") => "0",
        ("feComposite", "operator") => "over",
        ("feComposite", _) if a.starts_with('k') => "0",
        ("feConvolveMatrix", "order") => "3",
        ("feConvolveMatrix", "bias") => "0",
        ("feConvolveMatrix", "edgeMode") => "duplicate",
        ("feConvolveMatrix", "preserveAlpha") => "false",
        (_, "surfaceScale") | (_, "diffuseConstant") | (_, "specularConstant") | (_, "specularExponent") => "1",
        ("feDisplacementMap", "scale") => "0",
        (_, "xChannelSelector") | (_, "yChannelSelector") => "A",
        ("feGaussianBlur", "stdDeviation") => "0",
        ("feMorphology", "operator") => "erode",
        ("feMorphology", "radius") => "0",
        ("feOffset", "dx") | ("feOffset", "dy") => "0",
        ("feTurbulence", "baseFrequency") | ("feTurbulence", "seed") => "0",
        ("feTurbulence", "numOctaves") => "1",
        ("feTurbulence", "stitchTiles") => "noStitch",
        ("feTurbulence", "type") => "turbulence",
        ("feImage", "preserveAspectRatio") => "xMidYMid meet",
        ("feDistantLight", _) | ("fePointLight", _) | ("feSpotLight", _) if a != "limitingConeAngle" => "0",
        _ => return None,
    })
}

//! Geometry: matrices, path data, number lists, transforms, bounding boxes (independent of svgdom).

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pt {
    pub x: f64,
    pub y: f64,
}
pub fn pt(x: f64, y: f64) -> Pt {
    Pt { x, y }
}
impl Pt {
    pub fn sub(self, o: Pt) -> Pt {
        pt(self.x - o.x, self.y - o.y)
    }
    pub fn add(self, o: Pt) -> Pt {
        pt(self.x + o.x, self.y + o.y)
    }
    pub fn len(self) -> f64 {
        self.x.hypot(self.y)
    }
    pub fn near(self, o: Pt, e: f64) -> bool {
        (self.x - o.x).abs() <= e && (self.y - o.y).abs() <= e
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mat {
    pub a: f64,
    pub b: f64,
    pub c: f64,
    pub d: f64,
    pub e: f64,
    pub f: f64,
}
pub const ID: Mat = Mat { a: 1.0, b: 0.0, c: 0.0, d: 1.0, e: 0.0, f: 0.0 };
impl Mat {
    pub fn new(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> Mat {
        Mat { a, b, c, d, e, f }
    }
    pub fn tr(x: f64, y: f64) -> Mat {
        Mat::new(1.0, 0.0, 0.0, 1.0, x, y)
    }
    pub fn sc(x: f64, y: f64) -> Mat {
        Mat::new(x, 0.0, 0.0, y, 0.0, 0.0)
    }
    pub fn rot(deg: f64) -> Mat {
        let (s, c) = deg.to_radians().sin_cos();
        Mat::new(c, s, -s, c, 0.0, 0.0)
    }
    /// self * o (o is applied first)
    pub fn mul(&self, o: &Mat) -> Mat {
        Mat::new(
            self.a * o.a + self.c * o.b,
            self.b * o.a + self.d * o.b,
            self.a * o.c + self.c * o.d,
            self.b * o.c + self.d * o.d,
            self.a * o.e + self.c * o.f + self.e,
            self.b * o.e + self.d * o.f + self.f,
        )
    }
    pub fn ap(&self, p: Pt) -> Pt {
        pt(self.a * p.x + self.c * p.y + self.e, self.b * p.x + self.d * p.y + self.f)
    }
    pub fn apv(&self, p: Pt) -> Pt {
        pt(self.a * p.x + self.c * p.y, self.b * p.x + self.d * p.y)
    }
    pub fn det(&self) -> f64 {
        self.a * self.d - self.b * self.c
    }
    pub fn inv(&self) -> Option<Mat> {
        let d = self.det();
        if d.abs() < 1e-12 {
            return None;
        }
        let (a, b, c, dd) = (self.d / d, -self.b / d, -self.c / d, self.a / d);
        Some(Mat::new(a, b, c, dd, -(a * self.e + c * self.f), -(b * self.e + dd * self.f)))
    }
}

/// Parses one SVG number at the start of s; returns (value, rest).
pub fn number(s: &str) -> Option<(f64, &str)> {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let mut nd = i - d0;
    if i < b.len() && b[i] == b'.' {
        let k = i + 1;
        let mut j = k;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        nd += j - k;
        i = j;
    }
    if nd == 0 {
        return None;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        let mut j = i + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            j += 1;
        }
        let k = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        if j > k {
            i = j;
        }
    }
    let t = s[..i].strip_prefix('+').unwrap_or(&s[..i]);
    t.parse().ok().map(|v| (v, &s[i..]))
}

pub fn skip_ws(s: &str) -> &str {
    s.trim_start_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
}
/// Skips comma-whitespace.
pub fn skip_cw(s: &str) -> &str {
    let s = skip_ws(s);
    let s = s.strip_prefix(',').unwrap_or(s);
    skip_ws(s)
}

pub fn number_list(s: &str) -> Option<Vec<f64>> {
    let mut v = vec![];
    let mut s = skip_ws(s);
    while !s.is_empty() {
        let (n, r) = number(s)?;
        v.push(n);
        s = skip_cw(r);
    }
    Some(v)
}

pub fn transform(s: &str) -> Option<Mat> {
    let mut m = ID;
    let mut s = skip_ws(s);
    while !s.is_empty() {
        let k = s.find('(')?;
        let name = s[..k].trim();
        let e = s.find(')')?;
        let a = number_list(&s[k + 1..e])?;
        let t = match (name, a.len()) {
            ("matrix", 6) => Mat::new(a[0], a[1], a[2], a[3], a[4], a[5]),
            ("translate", 1) => Mat::tr(a[0], 0.0),
            ("translate", 2) => Mat::tr(a[0], a[1]),
            ("scale", 1) => Mat::sc(a[0], a[0]),
            ("scale", 2) => Mat::sc(a[0], a[1]),
            ("rotate", 1) => Mat::rot(a[0]),
            ("rotate", 3) => Mat::tr(a[1], a[2]).mul(&Mat::rot(a[0])).mul(&Mat::tr(-a[1], -a[2])),
            ("skewX", 1) => Mat::new(1.0, 0.0, a[0].to_radians().tan(), 1.0, 0.0, 0.0),
            ("skewY", 1) => Mat::new(1.0, a[0].to_radians().tan(), 0.0, 1.0, 0.0, 0.0),
            _ => return None,
        };
        m = m.mul(&t);
        s = skip_cw(&s[e + 1..]);
    }
    Some(m)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    L(Pt),
    C(Pt, Pt, Pt),
    /// elliptical arc as consecutive cubics (one segment for vertex purposes)
    A(Vec<(Pt, Pt, Pt)>),
}
impl Seg {
    pub fn end(&self) -> Pt {
        match self {
            Seg::L(p) => *p,
            Seg::C(_, _, p) => *p,
            Seg::A(v) => v.last().unwrap().2,
        }
    }
    pub fn map(&self, m: &Mat) -> Seg {
        match self {
            Seg::L(p) => Seg::L(m.ap(*p)),
            Seg::C(a, b, c) => Seg::C(m.ap(*a), m.ap(*b), m.ap(*c)),
            Seg::A(v) => Seg::A(v.iter().map(|t| (m.ap(t.0), m.ap(t.1), m.ap(t.2))).collect()),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    pub start: Pt,
    pub segs: Vec<Seg>,
    pub closed: bool,
}
pub type Path = Vec<Sub>;

/// SVG 1.1 F.6 arc to 4 cubic Beziers.
pub fn arc(p0: Pt, rx: f64, ry: f64, rot: f64, large: bool, sweep: bool, p1: Pt) -> Option<Seg> {
    if p0 == p1 {
        return None;
    }
    let (mut rx, mut ry) = (rx.abs(), ry.abs());
    if rx == 0.0 || ry == 0.0 {
        return Some(Seg::L(p1));
    }
    let (s, c) = rot.to_radians().sin_cos();
    let dx = (p0.x - p1.x) / 2.0;
    let dy = (p0.y - p1.y) / 2.0;
    let x1 = c * dx + s * dy;
    let y1 = -s * dx + c * dy;
    let l = x1 * x1 / (rx * rx) + y1 * y1 / (ry * ry);
    if l > 1.0 {
        rx *= l.sqrt();
        ry *= l.sqrt();
    }
    let num = rx * rx * ry * ry - rx * rx * y1 * y1 - ry * ry * x1 * x1;
    let den = rx * rx * y1 * y1 + ry * ry * x1 * x1;
    // snap: radii just reaching the end points (within rounding noise) mean a half ellipse
    let q = if num / (rx * rx * ry * ry) < 1e-6 { 0.0 } else { (num / den).max(0.0).sqrt() };
    let sg = if large == sweep { -1.0 } else { 1.0 };
    let cx_ = sg * q * rx * y1 / ry;
    let cy_ = -sg * q * ry * x1 / rx;
    let cx = c * cx_ - s * cy_ + (p0.x + p1.x) / 2.0;
    let cy = s * cx_ + c * cy_ + (p0.y + p1.y) / 2.0;
    let ang = |ux: f64, uy: f64| uy.atan2(ux);
    let t1 = ang((x1 - cx_) / rx, (y1 - cy_) / ry);
    let t2 = ang((-x1 - cx_) / rx, (-y1 - cy_) / ry);
    let mut dt = t2 - t1;
    if q == 0.0 {
        dt = if sweep { std::f64::consts::PI } else { -std::f64::consts::PI };
    } else {
        if !sweep && dt > 0.0 {
            dt -= 2.0 * std::f64::consts::PI;
        }
        if sweep && dt < 0.0 {
            dt += 2.0 * std::f64::consts::PI;
        }
    }
    let n = 4;
    let d = dt / n as f64;
    let k = 4.0 / 3.0 * (d / 4.0).tan();
    let m = Mat::new(c * rx, s * rx, -s * ry, c * ry, cx, cy);
    let mut v = vec![];
    for i in 0..n {
        let a = t1 + d * i as f64;
        let b = a + d;
        let q1 = pt(a.cos() - k * a.sin(), a.sin() + k * a.cos());
        let q2 = pt(b.cos() + k * b.sin(), b.sin() - k * b.cos());
        let q3 = pt(b.cos(), b.sin());
        let e = if i == n - 1 { p1 } else { m.ap(q3) };
        v.push((m.ap(q1), m.ap(q2), e));
    }
    Some(Seg::A(v))
}

/// Parses path data. Returns the subpaths and whether the whole string was valid.
pub fn path(d: &str) -> (Path, bool) {
    let mut out: Path = vec![];
    let mut s = skip_ws(d);
    let mut cur = pt(0.0, 0.0);
    let mut start = pt(0.0, 0.0);
    let mut last_c: Option<Pt> = None; // last cubic control point
    let mut last_q: Option<Pt> = None;
    let mut cmd = ' ';
    let mut open = false; // a subpath exists to append to
    let mut first = true;
    macro_rules! bail {
        () => {
            return (out, false)
        };
    }
    while !s.is_empty() {
        let ch = s.chars().next().unwrap();
        if ch.is_ascii_alphabetic() {
            cmd = ch;
            s = skip_ws(&s[1..]);
        } else if cmd == ' ' || cmd == 'Z' || cmd == 'z' {
            bail!();
        } else {
            // implicit repetition
            if cmd == 'M' {
                cmd = 'L';
            } else if cmd == 'm' {
                cmd = 'l';
            }
            s = skip_cw(s);
        }
        if first && cmd != 'M' && cmd != 'm' {
            bail!();
        }
        let rel = cmd.is_ascii_lowercase();
        let n = match cmd.to_ascii_uppercase() {
            'M' | 'L' | 'T' => 2,
            'H' | 'V' => 1,
            'C' => 6,
            'S' | 'Q' => 4,
            'A' => 7,
            'Z' => 0,
            _ => bail!(),
        };
        let mut a = [0.0; 7];
        for i in 0..n {
            if i > 0 {
                s = skip_cw(s);
            }
            if n == 7 && (i == 3 || i == 4) {
                match s.chars().next() {
                    Some('0') => a[i] = 0.0,
                    Some('1') => a[i] = 1.0,
                    _ => bail!(),
                }
                s = &s[1..];
            } else {
                match number(s) {
                    Some((v, r)) => {
                        a[i] = v;
                        s = r;
                    }
                    None => bail!(),
                }
            }
        }
        s = skip_ws(s);
        if s.starts_with(',') {
            // a comma may only separate arguments
            let t = skip_ws(&s[1..]);
            if t.is_empty() || t.chars().next().unwrap().is_ascii_alphabetic() {
                bail!();
            }
        }
        let o = if rel { cur } else { pt(0.0, 0.0) };
        let up = cmd.to_ascii_uppercase();
        if up != 'M' && !open {
            out.push(Sub { start: cur, segs: vec![], closed: false });
            start = cur;
            open = true;
        }
        let (mut nc, mut nq) = (None, None);
        match up {
            'M' => {
                cur = pt(a[0], a[1]).add(o);
                start = cur;
                out.push(Sub { start: cur, segs: vec![], closed: false });
                open = true;
                first = false;
            }
            'L' | 'H' | 'V' => {
                let e = match up {
                    'L' => pt(a[0], a[1]).add(o),
                    'H' => pt(a[0] + o.x, cur.y),
                    _ => pt(cur.x, a[0] + o.y),
                };
                out.last_mut().unwrap().segs.push(Seg::L(e));
                cur = e;
            }
            'C' | 'S' => {
                let k = if up == 'C' { 2 } else { 0 };
                let c1 = if up == 'C' {
                    pt(a[0], a[1]).add(o)
                } else {
                    match last_c {
                        Some(l) => pt(2.0 * cur.x - l.x, 2.0 * cur.y - l.y),
                        None => cur,
                    }
                };
                let c2 = pt(a[k], a[k + 1]).add(o);
                let e = pt(a[k + 2], a[k + 3]).add(o);
                out.last_mut().unwrap().segs.push(Seg::C(c1, c2, e));
                nc = Some(c2);
                cur = e;
            }
            'Q' | 'T' => {
                let (q, e) = if up == 'Q' {
                    (pt(a[0], a[1]).add(o), pt(a[2], a[3]).add(o))
                } else {
                    let q = match last_q {
                        Some(l) => pt(2.0 * cur.x - l.x, 2.0 * cur.y - l.y),
                        None => cur,
                    };
                    (q, pt(a[0], a[1]).add(o))
                };
                let t = 2.0 / 3.0;
                let c1 = pt(cur.x + t * (q.x - cur.x), cur.y + t * (q.y - cur.y));
                let c2 = pt(e.x + t * (q.x - e.x), e.y + t * (q.y - e.y));
                out.last_mut().unwrap().segs.push(Seg::C(c1, c2, e));
                nq = Some(q);
                cur = e;
            }
            'A' => {
                let e = pt(a[5], a[6]).add(o);
                // an arc that ends where it starts draws nothing; keep it as a zero-length line (vertex)
                let sg = arc(cur, a[0], a[1], a[2], a[3] != 0.0, a[4] != 0.0, e).unwrap_or(Seg::L(e));
                out.last_mut().unwrap().segs.push(sg);
                cur = e;
            }
            'Z' => {
                let l = out.last_mut().unwrap();
                l.closed = true;
                cur = start;
                open = false;
            }
            _ => unreachable!(),
        }
        last_c = nc;
        last_q = nq;
    }
    (out, true)
}

pub fn map_path(p: &Path, m: &Mat) -> Path {
    p.iter()
        .map(|s| Sub { start: m.ap(s.start), segs: s.segs.iter().map(|g| g.map(m)).collect(), closed: s.closed })
        .collect()
}

/// Is the cubic p0,c1,c2,p3 geometrically the straight segment p0->p3 (no overshoot)?
fn flat(p0: Pt, c1: Pt, c2: Pt, p3: Pt, eps: f64) -> bool {
    let d = p3.sub(p0);
    let l2 = d.x * d.x + d.y * d.y;
    let l = l2.sqrt();
    if l < eps {
        return p0.near(c1, eps) && p0.near(c2, eps);
    }
    for c in [c1, c2] {
        let v = c.sub(p0);
        let cross = (d.x * v.y - d.y * v.x) / l;
        let dot = (d.x * v.x + d.y * v.y) / l;
        if cross.abs() > eps || dot < -eps || dot > l + eps {
            return false;
        }
    }
    true
}

/// Canonical outline: degenerate lines dropped, flat curves to lines, closing line made explicit,
/// subpaths that draw nothing dropped.
pub fn canon(p: &Path, eps: f64) -> Path {
    let mut out = vec![];
    for s in p {
        let mut cur = s.start;
        let mut segs: Vec<Seg> = vec![];
        for g in &s.segs {
            match g {
                Seg::L(e) => {
                    if !e.near(cur, eps) {
                        segs.push(Seg::L(*e));
                        cur = *e;
                    }
                }
                Seg::C(a, b, e) => {
                    if flat(cur, *a, *b, *e, eps) {
                        if !e.near(cur, eps) {
                            segs.push(Seg::L(*e));
                            cur = *e;
                        }
                    } else {
                        // a loop drawn twice covers the same points (exact for the nonzero rule)
                        let rep = match segs.last() {
                            Some(Seg::C(a2, b2, e2)) => {
                                e.near(cur, eps) && a2.near(*a, eps) && b2.near(*b, eps) && e2.near(*e, eps) && {
                                    let n = segs.len();
                                    let before = if n >= 2 { segs[n - 2].end() } else { s.start };
                                    before.near(cur, eps)
                                }
                            }
                            _ => false,
                        };
                        if !rep {
                            segs.push(g.clone());
                        }
                        cur = *e;
                    }
                }
                Seg::A(v) => {
                    let mut c = cur;
                    let mut all = true;
                    for t in v {
                        all &= flat(c, t.0, t.1, t.2, eps);
                        c = t.2;
                    }
                    if all && cur.near(c, eps) {
                        continue;
                    }
                    segs.push(g.clone());
                    cur = c;
                }
            }
        }
        let mut closed = s.closed;
        if segs.is_empty() {
            continue;
        }
        if cur.near(s.start, eps) {
            // a final straight line back to the start closes a subpath just as well
            let mut c = s.start;
            let mut line = false;
            for g in &s.segs {
                line = match g {
                    Seg::L(_) => true,
                    Seg::C(a, b, e) => flat(c, *a, *b, *e, eps),
                    Seg::A(_) => false,
                };
                c = g.end();
            }
            closed |= line;
        } else if closed {
            segs.push(Seg::L(s.start));
        }
        out.push(Sub { start: s.start, segs, closed });
    }
    out
}

#[derive(Clone, Copy, Debug)]
pub struct BBox {
    pub x0: f64,
    pub y0: f64,
    pub x1: f64,
    pub y1: f64,
}
impl BBox {
    pub fn empty() -> BBox {
        BBox { x0: f64::INFINITY, y0: f64::INFINITY, x1: -f64::INFINITY, y1: -f64::INFINITY }
    }
    pub fn add(&mut self, p: Pt) {
        self.x0 = self.x0.min(p.x);
        self.y0 = self.y0.min(p.y);
        self.x1 = self.x1.max(p.x);
        self.y1 = self.y1.max(p.y);
    }
    pub fn union(&mut self, o: &BBox) {
        if o.is_some() {
            self.add(pt(o.x0, o.y0));
            self.add(pt(o.x1, o.y1));
        }
    }
    pub fn is_some(&self) -> bool {
        self.x0 <= self.x1
    }
    pub fn mat(&self) -> Option<Mat> {
        let w = self.x1 - self.x0;
        let h = self.y1 - self.y0;
        if !self.is_some() || w < 1e-9 || h < 1e-9 {
            return None;
        }
        Some(Mat::new(w, 0.0, 0.0, h, self.x0, self.y0))
    }
}

fn cubic_ext(b: &mut BBox, p0: Pt, p1: Pt, p2: Pt, p3: Pt) {
    b.add(p0);
    b.add(p3);
    let ev = |t: f64| {
        let u = 1.0 - t;
        let f = |a: f64, bb: f64, c: f64, d: f64| u * u * u * a + 3.0 * u * u * t * bb + 3.0 * u * t * t * c + t * t * t * d;
        pt(f(p0.x, p1.x, p2.x, p3.x), f(p0.y, p1.y, p2.y, p3.y))
    };
    for (a, bb, c, d) in [(p0.x, p1.x, p2.x, p3.x), (p0.y, p1.y, p2.y, p3.y)] {
        let qa = -a + 3.0 * bb - 3.0 * c + d;
        let qb = 2.0 * (a - 2.0 * bb + c);
        let qc = bb - a;
        let mut ts = vec![];
        if qa.abs() < 1e-9 {
            if qb.abs() > 1e-12 {
                ts.push(-qc / qb);
            }
        } else {
            let disc = qb * qb - 4.0 * qa * qc;
            if disc >= 0.0 {
                ts.push((-qb + disc.sqrt()) / (2.0 * qa));
                ts.push((-qb - disc.sqrt()) / (2.0 * qa));
            }
        }
        for t in ts {
            if t > 0.0 && t < 1.0 {
                b.add(ev(t));
            }
        }
    }
}

pub fn bbox(p: &Path) -> BBox {
    let mut b = BBox::empty();
    for s in p {
        if s.segs.is_empty() {
            continue;
        }
        let mut cur = s.start;
        b.add(cur);
        for g in &s.segs {
            match g {
                Seg::L(e) => b.add(*e),
                Seg::C(c1, c2, e) => cubic_ext(&mut b, cur, *c1, *c2, *e),
                Seg::A(v) => {
                    let mut c = cur;
                    for t in v {
                        cubic_ext(&mut b, c, t.0, t.1, t.2);
                        c = t.2;
                    }
                }
            }
            cur = g.end();
        }
    }
    b
}

/// Vertices with (position, incoming direction, outgoing direction), per whole path, for markers.
pub fn vertices(p: &Path) -> Vec<(Pt, Option<Pt>, Option<Pt>)> {
    let mut v: Vec<(Pt, Option<Pt>, Option<Pt>)> = vec![];
    fn dir(a: Pt, list: &[Pt]) -> Option<Pt> {
        for q in list {
            let d = q.sub(a);
            if d.len() > 1e-6 {
                return Some(pt(d.x / d.len(), d.y / d.len()));
            }
        }
        None
    }
    for s in p {
        let first = v.len();
        v.push((s.start, None, None));
        let mut cur = s.start;
        for g in &s.segs {
            let (o, i) = match g {
                Seg::L(e) => (dir(cur, &[*e]), dir(*e, &[cur])),
                Seg::C(a, b, e) => (dir(cur, &[*a, *b, *e]), dir(*e, &[*b, *a, cur])),
                Seg::A(t) => {
                    let l = t.len() - 1;
                    (dir(cur, &[t[0].0, t[0].1, t[0].2]), dir(t[l].2, &[t[l].1, t[l].0]))
                }
            };
            v.last_mut().unwrap().2 = o;
            cur = g.end();
            v.push((cur, i.map(|d| pt(-d.x, -d.y)), None));
        }
        if s.closed {
            // closing segment
            if !cur.near(s.start, 1e-6) || s.segs.is_empty() {
                let o = dir(cur, &[s.start]);
                v.last_mut().unwrap().2 = o;
                let out0 = v[first].2;
                v.push((s.start, o, out0));
                v[first].1 = o;
            } else {
                let out0 = v[first].2;
                let in1 = v.last().unwrap().1;
                v.last_mut().unwrap().2 = out0;
                v[first].1 = in1;
                // the zero-length closing segment still is a vertex
                v.push((s.start, in1, out0));
            }
        }
    }
    v
}

//! C17: rounding respects the requested precision.
//!
//! Oracle: exact decimal arithmetic on the numbers as they are spelled in the input and the output.
use crate::engine::*;
use crate::fam::*;
use crate::style;
use crate::xml::{self, Xml};
use std::collections::BTreeMap;

/// A decimal number, exactly: mantissa * 10^-SCALE.
const SCALE: i32 = 24;
type Dec = i128;

fn pow10(n: i32) -> Dec {
    (10 as Dec).pow(n as u32)
}

/// Value and number of decimal digits as written.
fn dec(s: &str) -> Option<(Dec, i32)> {
    let b = s.as_bytes();
    let mut i = 0;
    let neg = match b.first() {
        Some(b'-') => {
            i = 1;
            true
        }
        Some(b'+') => {
            i = 1;
            false
        }
        _ => false,
    };
    let mut m: Dec = 0;
    let mut frac = 0;
    let mut digits = 0;
    let mut dot = false;
    while i < b.len() {
        match b[i] {
            b'0'..=b'9' => {
                m = m.checked_mul(10)?.checked_add((b[i] - b'0') as Dec)?;
                digits += 1;
                if dot {
                    frac += 1;
                }
            }
            b'.' if !dot => dot = true,
            _ => break,
        }
        i += 1;
    }
    if digits == 0 {
        return None;
    }
    let mut e = 0;
    if i < b.len() {
        if b[i] != b'e' && b[i] != b'E' {
            return None;
        }
        e = s[i + 1..].parse::<i32>().ok()?;
    }
    let k = SCALE - frac + e;
    if k < 0 {
        return None;
    }
    let v = m.checked_mul(pow10(k))?;
    Some((if neg { -v } else { v }, (frac - e).max(0)))
}

/// Splits a value into (number, unit) pairs; None if it is not a list of numbers.
fn numbers(s: &str) -> Option<Vec<(String, String)>> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b' ' || b[i] == b',' || b[i] == b'\n' || b[i] == b'\t' {
            i += 1;
            continue;
        }
        let st = i;
        if b[i] == b'-' || b[i] == b'+' {
            i += 1;
        }
        let ds = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i < b.len() && b[i] == b'.' {
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
        }
        if i == ds {
            return None;
        }
        if i + 1 < b.len() && (b[i] | 32) == b'e' && (b[i + 1].is_ascii_digit() || ((b[i + 1] == b'-' || b[i + 1] == b'+') && i + 2 < b.len() && b[i + 2].is_ascii_digit())) {
            i += 2;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
        }
        let num = s[st..i].to_string();
        let us = i;
        while i < b.len() && (b[i].is_ascii_alphabetic() || b[i] == b'%') {
            i += 1;
        }
        v.push((num, s[us..i].to_string()));
    }
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Coord,
    Prop,
    Ts,
    Path,
    None,
}

fn class(attr: &str) -> Class {
    match attr {
        "x" | "y" | "dx" | "dy" | "x1" | "y1" | "x2" | "y2" | "r" | "rx" | "ry" | "cx" | "cy" | "fx" | "fy" | "width" | "height" | "stroke-dasharray" => {
            Class::Coord
        }
        "stroke-dashoffset" | "stroke-miterlimit" | "stroke-width" | "opacity" | "fill-opacity" | "flood-opacity" | "stroke-opacity" | "stop-opacity" | "font-size" => Class::Prop,
        "transform" | "gradientTransform" | "patternTransform" => Class::Ts,
        "d" | "viewBox" | "points" => Class::Path,
        _ => Class::None,
    }
}

struct Prec {
    coord: i32,
    prop: i32,
    ts: i32,
    path: i32,
}

fn precisions(c: &Config) -> Prec {
    let mut p = Prec { coord: 6, prop: 6, ts: 8, path: 8 };
    for a in &c.args {
        for (k, f) in [("--coordinates-precision=", 0), ("--properties-precision=", 1), ("--transforms-precision=", 2), ("--paths-coordinates-precision=", 3)] {
            if let Some(v) = a.strip_prefix(k) {
                let v = v.parse().unwrap();
                match f {
                    0 => p.coord = v,
                    1 => p.prop = v,
                    2 => p.ts = v,
                    _ => p.path = v,
                }
            }
        }
    }
    p
}

/// out must be in, rounded to n decimals (n = 99: unchanged).
fn rounded(a: &str, b: &str, n: i32) -> Result<(), String> {
    let (av, ad) = dec(a).ok_or_else(|| format!("HARNESS: number '{}'", a))?;
    let (bv, bd) = dec(b).ok_or_else(|| format!("not a number: '{}'", b))?;
    // what a double can tell apart, and the eleven digits of the writer when nothing is rounded
    let slack = av.abs() / pow10(15) + 1;
    let diff = (av - bv).abs();
    if n == 99 {
        return if diff <= slack + 5 * pow10(SCALE - 12) { Ok(()) } else { Err(format!("'{}' became '{}' although its class is not rounded", a, b)) };
    }
    if ad <= n {
        return if diff <= slack { Ok(()) } else { Err(format!("'{}' has no more than {} decimals but became '{}'", a, n, b)) };
    }
    if diff > 5 * pow10(SCALE - n - 1) + slack {
        return Err(format!("'{}' became '{}', more than half a unit of decimal {} away", a, b, n));
    }
    // a large number has no further binary digits to cut
    if bd > n && av.abs() < pow10(SCALE + 15 - n) {
        return Err(format!("'{}' became '{}' with more than {} decimals", a, b, n));
    }
    Ok(())
}

fn attrs(x: &Xml, n: usize, split: bool) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in x.attrs(n) {
        m.insert(k.clone(), v.clone());
    }
    if split {
        if let Some(s) = m.remove("style") {
            for d in style::declarations(&s) {
                m.insert(d.0, d.1);
            }
        }
    }
    m
}

fn matrix(s: &str) -> Result<[String; 6], String> {
    // every transform used here is a single function
    let s = s.trim();
    let (f, a) = match (s.find('('), s.rfind(')')) {
        (Some(p), Some(q)) => (&s[..p], &s[p + 1..q]),
        _ => return Err(format!("transform '{}'", s)),
    };
    let n: Vec<String> = numbers(a).unwrap_or_default().into_iter().map(|x| x.0).collect();
    let g = |i: usize| n.get(i).cloned().unwrap_or_else(|| "0".to_string());
    let (o, z) = ("1".to_string(), "0".to_string());
    Ok(match f.trim() {
        "matrix" => [g(0), g(1), g(2), g(3), g(4), g(5)],
        "translate" => [o.clone(), z.clone(), z, o, g(0), g(1)],
        "scale" => [g(0), z.clone(), z.clone(), if n.len() > 1 { g(1) } else { g(0) }, z.clone(), z],
        _ => return Err(format!("transform '{}'", s)),
    })
}

fn compare(k: &str, a: &str, b: &str, p: &Prec) -> Result<(), String> {
    let c = class(k);
    let n = match c {
        Class::Coord => p.coord,
        Class::Prop => p.prop,
        Class::Path => p.path,
        Class::Ts => p.ts,
        Class::None => 99,
    };
    match k {
        "d" => {
            let (x, y) = (crate::c20::spelled(a).map_err(|e| format!("HARNESS: {:?}", e))?, crate::c20::spelled(b).map_err(|e| format!("output path: {:?}", e))?);
            if x.len() != y.len() {
                return Err(format!("{} path commands became {}", x.len(), y.len()));
            }
            for (s, t) in x.iter().zip(&y) {
                if s.0 != t.0 || s.1.len() != t.1.len() {
                    return Err(format!("command {} became {}", s.0, t.0));
                }
                for (i, (u, v)) in s.1.iter().zip(&t.1).enumerate() {
                    if s.0.eq_ignore_ascii_case(&'A') && (i == 3 || i == 4) {
                        if u != v {
                            return Err("an arc flag changed".into());
                        }
                        continue;
                    }
                    rounded(u, v, n).map_err(|e| format!("number {} of {}: {}", i, s.0, e))?;
                }
            }
            Ok(())
        }
        "transform" | "gradientTransform" | "patternTransform" => {
            let (x, y) = (matrix(a)?, matrix(b)?);
            for i in 0..6 {
                rounded(&x[i], &y[i], if i < 4 { p.ts } else { p.coord }).map_err(|e| format!("number {}: {}", i, e))?;
            }
            Ok(())
        }
        _ => match (numbers(a), numbers(b)) {
            (Some(x), Some(y)) => {
                if x.len() != y.len() {
                    return Err(format!("'{}' became '{}'", a, b));
                }
                for (s, t) in x.iter().zip(&y) {
                    let px = |u: &str| if u == "px" { String::new() } else { u.to_string() };
                    if px(&s.1) == px(&t.1) {
                        rounded(&s.0, &t.0, n)?;
                    } else if s.1 == "%" && t.1.is_empty() && c == Class::None {
                        // a stop offset becomes a fraction
                        let (u, v) = (dec(&s.0).unwrap().0, dec(&t.0).unwrap().0);
                        if (u - 100 * v).abs() > pow10(SCALE - 9) {
                            return Err(format!("'{}' became '{}'", a, b));
                        }
                    } else {
                        return Err(format!("the unit of '{}' became that of '{}'", a, b));
                    }
                }
                Ok(())
            }
            _ if a.trim() == b.trim() => Ok(()),
            _ if n == 99 => Ok(()),
            _ => Err(format!("'{}' became '{}'", a, b)),
        },
    }
}

/// The rules used here: one selector, one declaration list.
fn sheet(x: &Xml, a: &mut BTreeMap<String, String>) {
    for n in x.all_elems() {
        if x.name(n) != "style" {
            continue;
        }
        let t: String = x.nodes[n].children.iter().map(|c| match x.nodes[*c].kind { xml::Kind::Text(ref s) | xml::Kind::CData(ref s) => s.as_str(), _ => "" }).collect();
        for rule in t.split('}') {
            if let Some((s, d)) = rule.split_once('{') {
                let s = s.trim();
                if s.strip_prefix('.').map_or(false, |c| a.get("class").map_or(false, |v| v == c)) || s.strip_prefix('#').map_or(false, |c| a.get("id").map_or(false, |v| v == c)) {
                    for d in style::declarations(d) {
                        a.insert(d.0, d.1);
                    }
                }
            }
        }
    }
}

/// Everything else off: each number against its own origin.
fn each_number(c: &Case, note: &mut Note) -> Result<(), String> {
    let o = match c.out {
        Outcome::Ok(o) => o,
        Outcome::Err(e) => return Err(format!("refused: {}", e)),
        Outcome::Panic(e) => return Err(format!("panic: {}", e)),
    };
    note.observed = fnv(o);
    note.nontrivial = o != c.pre.text;
    let x = c.pre.xml().as_ref().map_err(|e| format!("HARNESS: {}", e))?;
    let y = xml::parse(o).map_err(|e| format!("output: {}", e))?;
    // definitions may be gathered
    let e = |x: &Xml| -> Vec<usize> { x.all_elems().into_iter().filter(|n| x.name(*n) != "defs" && x.name(*n) != "style").collect() };
    let (xs, ys) = (e(x), e(&y));
    if xs.len() != ys.len() {
        return Err(format!("{} elements became {}", xs.len(), ys.len()));
    }
    let p = precisions(c.cfg);
    for (n, m) in xs.iter().zip(&ys) {
        let mut a = attrs(x, *n, true);
        sheet(x, &mut a);
        let e = x.name(*n).to_string();
        if e != y.name(*m) {
            return Err(format!("<{}> became <{}>", e, y.name(*m)));
        }
        let b = attrs(&y, *m, true);
        for (k, v) in &a {
            if k.starts_with("xmlns") || k == "id" || k == "class" {
                continue;
            }
            match b.get(k) {
                None if class(k) == Class::Ts => compare(k, v, "matrix(1 0 0 1 0 0)", &p).map_err(|t| format!("{} of <{}> is gone: {}", k, e, t))?,
                None => return Err(format!("'{}' of <{}> is gone", k, e)),
                Some(w) => compare(k, v, w, &p).map_err(|t| format!("{} of <{}>: {}", k, e, t))?,
            }
        }
    }
    Ok(())
}

/// The absolute position of every point of a path, as exact decimals.
fn points(d: &str, n: Option<i32>) -> Result<Vec<Vec<Dec>>, String> {
    let mut v = Vec::new();
    let (mut x, mut y, mut sx, mut sy) = (0, 0, 0, 0);
    let mut after_z = false;
    for (c, p) in crate::c20::spelled(d)? {
        let mut q = Vec::new();
        for s in &p {
            let z = dec(s).ok_or_else(|| format!("number '{}'", s))?.0;
            q.push(match n {
                // round half away from zero; halves are not in the domain of this family
                Some(n) => {
                    let u = pow10(SCALE - n);
                    let r = (z.abs() + u / 2) / u * u;
                    if z < 0 {
                        -r
                    } else {
                        r
                    }
                }
                None => z,
            });
        }
        let rel = c.is_ascii_lowercase();
        let (ox, oy) = if rel { (x, y) } else { (0, 0) };
        let mut out = Vec::new();
        match c.to_ascii_uppercase() {
            'Z' => {
                x = sx;
                y = sy;
            }
            'H' => {
                x = q[0] + ox;
                out = vec![x, y];
            }
            'V' => {
                y = q[0] + oy;
                out = vec![x, y];
            }
            'A' => {
                x = q[5] + ox;
                y = q[6] + oy;
                out = vec![q[0], q[1], q[2], x, y];
            }
            u => {
                for (i, z) in q.iter().enumerate() {
                    out.push(z + if i % 2 == 0 { ox } else { oy });
                }
                y = out[out.len() - 1];
                x = out[out.len() - 2];
                if u == 'M' {
                    // what follows a closed subpath may be spelled with an explicit start
                    let same = (sx, sy) == (x, y);
                    sx = x;
                    sy = y;
                    if same && after_z {
                        after_z = false;
                        continue;
                    }
                }
            }
        }
        after_z = c == 'z' || c == 'Z';
        v.push(out);
    }
    Ok(v)
}

/// Path rewriting on: every point is where its rounded input puts it.
fn each_point(c: &Case, note: &mut Note) -> Result<(), String> {
    let o = match c.out {
        Outcome::Ok(o) => o,
        Outcome::Err(e) => return Err(format!("refused: {}", e)),
        Outcome::Panic(e) => return Err(format!("panic: {}", e)),
    };
    note.observed = fnv(o);
    note.nontrivial = true;
    let x = c.pre.xml().as_ref().map_err(|e| format!("HARNESS: {}", e))?;
    let y = xml::parse(o).map_err(|e| format!("output: {}", e))?;
    let get = |x: &Xml| x.all_elems().iter().filter_map(|n| x.attr(*n, "d").map(|s| s.to_string())).next().unwrap_or_default();
    let n = precisions(c.cfg).path;
    let a = points(&get(x), Some(n)).map_err(|e| format!("HARNESS: {}", e))?;
    let b = points(&get(&y), None).map_err(|e| format!("output path: {}", e))?;
    if a.len() != b.len() {
        return Err(format!("{} path commands became {}", a.len(), b.len()));
    }
    for (i, (s, t)) in a.iter().zip(&b).enumerate() {
        if s.len() != t.len() {
            return Err(format!("command {} is a different one", i));
        }
        for (u, v) in s.iter().zip(t) {
            if (u - v).abs() > pow10(SCALE - 10) {
                return Err(format!("a number of command {} is {} instead of {}", i, *v as f64 / 1e24, *u as f64 / 1e24));
            }
        }
    }
    Ok(())
}

/// The most decimals of any number in a text.
fn longest(s: &str) -> usize {
    s.split('.').skip(1).map(|t| t.bytes().take_while(|b| b.is_ascii_digit()).count()).max().unwrap_or(0)
}

fn prec_config(on: &[&str], p: [i32; 4]) -> Config {
    let mut v: Vec<String> = OFF.iter().map(|s| s.to_string()).collect();
    for o in on {
        v.push(format!("--{}=true", o));
    }
    for (k, n) in ["coordinates", "properties", "transforms", "paths-coordinates"].iter().zip(p) {
        v.push(format!("--{}-precision={}", k, n));
    }
    config(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>())
}

fn prec_configs(on: &[&str]) -> Vec<Config> {
    let mut v = Vec::new();
    {
        let mut a: Vec<String> = OFF.iter().map(|s| s.to_string()).collect();
        for o in on {
            a.push(format!("--{}=true", o));
        }
        v.push(config(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
    }
    for k in 0..4 {
        for n in 1..12 {
            let mut p = [11; 4];
            p[k] = n;
            v.push(prec_config(on, p));
            // and the other way round
            let mut p = [n; 4];
            p[k] = 11;
            if n == 3 || n == 6 {
                v.push(prec_config(on, p));
            }
        }
    }
    v
}

/// Numbers around every rounding boundary.
fn values(thorough: bool, max_int: bool) -> Vec<String> {
    let mut v: Vec<String> = ["0", "1", "7", "-4", "0.5", ".25", "-.75", "12.", "+3.5", "1e2", "1e-3", "2.5e-4", "1.005", "2.675", "1.15", "0.1", "0.3", "99.99999999999", "0.00000000001", "-0.000000049"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    if max_int {
        v.extend(["123456.78901234567", "-98765.43210987654", "1000000.0000005", "4503599.62737049"].iter().map(|s| s.to_string()));
    }
    let ints: &[&str] = if thorough { &["0", "1", "-3", "27", "-199", "8191", "-70", "655"] } else { &["0", "1", "-3", "27", "-199", "8191"] };
    let last: &[&str] = if thorough { &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"] } else { &["0", "1", "4", "5", "9"] };
    let tails: &[&str] = if thorough { &["", "1", "4", "49", "4999", "5", "50", "500", "51", "5001", "6", "9", "95"] } else { &["", "4", "49", "5", "51", "6", "9"] };
    for n in 1..12usize {
        for i in ints {
            for l in last {
                for t in tails {
                    let f = ["0", "9", "31"][(n + l.len() + t.len()) % 3];
                    let f: String = f.chars().cycle().take(n - 1).collect();
                    v.push(format!("{}.{}{}{}", i, f, l, t));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    // neighbours in a document should differ
    let k = v.len();
    let step = (k / 3..).find(|s| gcd(*s, k) == 1).unwrap();
    (0..k).map(|i| v[i * step % k].clone()).collect()
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Every number-carrying place: {s} any number, {p} a non-negative one, {o} a fraction.
const PLACES: &[&str] = &[
    "<rect x='{s}' y='{s}' width='{p}' height='{p}' rx='{p}' ry='{p}'/>",
    "<rect x='{s}mm' y='{s}em' width='{p}%' height='{p}in' rx='{p}px' ry='{p}pt'/>",
    "<circle cx='{s}' cy='{s}' r='{p}'/>",
    "<ellipse cx='{s}pt' cy='{s}' rx='{p}' ry='{p}mm'/>",
    "<line x1='{s}' y1='{s}' x2='{s}' y2='{s}'/>",
    "<polyline points='{s} {s} {s} {s}'/>",
    "<polygon points='{s},{s} {s},{s} {s},{s}'/>",
    "<path d='M {s} {s} L {s} {s} H {s} V {s} Z'/>",
    "<path d='M {s} {s} C {s} {s} {s} {s} {s} {s} S {s} {s} {s} {s}'/>",
    "<path d='m {s} {s} q {s} {s} {s} {s} t {s} {s} Q {s} {s} {s} {s} T {s} {s}'/>",
    "<path d='m {s} {s} c {s} {s} {s} {s} {s} {s} s {s} {s} {s} {s} l {s} {s} h {s} v {s} z'/>",
    "<path d='M {s} {s} A {p} {p} {s} 1 0 {s} {s} a {p} {p} {s} 0 1 {s} {s}'/>",
    "<path d='M {s} {s} m {s} {s} l {s} {s} M {s} {s} L {s} {s}' stroke-dasharray='{p} {p} {p}'/>",
    "<g stroke-width='{p}' stroke-dashoffset='{s}' stroke-miterlimit='1{p1}'><path d='M 1 2 L 3 4'/></g>",
    "<g stroke-width='{p}mm' stroke-dashoffset='{s}%' stroke-dasharray='{p}pt {p}%'><path d='M 1 2 L 3 4'/></g>",
    "<g opacity='{o}' fill-opacity='{o}' stroke-opacity='{o}'><path d='M 1 2 L 3 4'/></g>",
    "<path style='stroke-width:{p};opacity:{o};fill-opacity:{o};stroke-dashoffset:{s}' d='M 1 2 L 3 4'/>",
    "<text x='{s}' y='{s}' font-size='{p}'>a</text>",
    "<text x='{s} {s} {s}' y='{s} {s}' dx='{s} {s}' dy='{s} {s}' rotate='{s} {s}'>abc<tspan x='{s}' dy='{s}em'>d</tspan></text>",
    "<text style='font-size:{p}px' letter-spacing='{s}' word-spacing='{s}'>abc</text>",
    "<text font-size='{p}em' baseline-shift='{s}' kerning='{s}' textLength='{p}'>abc</text>",
    "<image x='{s}' y='{s}' width='{p}' height='{p}' xlink:href='data:image/png;base64,AA=='/>",
    "<rect id='q' width='{p}' height='{p}'/><use xlink:href='#q' x='{s}' y='{s}' width='{p}' height='{p}'/>",
    "<symbol id='q' viewBox='{s} {s} {p} {p}'><rect width='{p}' height='{p}'/></symbol><use xlink:href='#q'/>",
    "<svg x='{s}' y='{s}' width='{p}' height='{p}' viewBox='{s} {s} {p} {p}'><path d='M 1 2 L 3 4'/></svg>",
    "<linearGradient id='q' x1='{s}' y1='{s}' x2='{s}' y2='{s}'><stop offset='0'/><stop offset='{o}' stop-opacity='{o}'/><stop offset='1'/></linearGradient><rect fill='url(#q)' width='9' height='9'/>",
    "<radialGradient id='q' cx='{s}%' cy='{s}' r='{p}' fx='{s}' fy='{s}%'><stop offset='0'/><stop offset='1' style='stop-opacity:{o}'/></radialGradient><rect fill='url(#q)' width='9' height='9'/>",
    "<pattern id='q' x='{s}' y='{s}' width='{p}' height='{p}' viewBox='{s} {s} {p} {p}'><rect width='{p}' height='{p}'/></pattern><rect fill='url(#q)' width='9' height='9'/>",
    "<mask id='q' x='{s}' y='{s}' width='{p}' height='{p}'><rect width='{p}' height='{p}'/></mask><rect mask='url(#q)' width='9' height='9'/>",
    "<filter id='q' x='{s}' y='{s}' width='{p}' height='{p}'><feGaussianBlur x='{s}' y='{s}' width='{p}' height='{p}' stdDeviation='{p}'/><feFlood flood-opacity='{o}'/><feOffset dx='{s}' dy='{s}'/></filter><rect filter='url(#q)' width='9' height='9'/>",
    "<marker id='q' refX='{s}' refY='{s}' markerWidth='{p}' markerHeight='{p}' orient='{s}' viewBox='{s} {s} {p} {p}'><rect width='{p}' height='{p}'/></marker><path marker-end='url(#q)' d='M 1 2 L 3 4'/>",
    "<filter id='q'><feDiffuseLighting surfaceScale='{s}' diffuseConstant='{p}'><fePointLight x='{s}' y='{s}' z='{s}'/></feDiffuseLighting><feComposite operator='arithmetic' k1='{s}' k2='{s}'/><feMorphology radius='{p}'/><feTurbulence baseFrequency='{p}'/></filter><rect filter='url(#q)' width='9' height='9'/>",
    "<style>.a[stroke-width:{p};opacity:{o}] #q[font-size:{p}pt]</style><text class='a' id='q' x='{s}'>abc</text>",
    "<a xlink:href='http://x' stroke-width='{p}'><switch opacity='{o}'><g font-size='{p}'><path d='M {s} {s} L 9 9' transform='matrix({s} {s} {s} {s} {s} {s})'/></g></switch></a>",
    "<clipPath id='q'><circle r='{p}' transform='matrix({s} {s} {s} {s} {s} {s})'/></clipPath><rect clip-path='url(#q)' width='9' height='9'/>",
    "<rect transform='matrix({s} {s} {s} {s} {s} {s})' width='{p}' height='9'/>",
    "<rect transform='translate({s} {s})' width='{p}' height='9'/>",
    "<g transform='scale({s} {s})'><rect width='{p}' height='9'/></g>",
    "<linearGradient id='q' gradientTransform='matrix({s} {s} {s} {s} {s} {s})'><stop offset='0'/><stop offset='1'/></linearGradient><rect fill='url(#q)' width='9' height='9'/>",
    "<radialGradient id='q' gradientTransform='translate({s} {s})'><stop offset='0'/><stop offset='1'/></radialGradient><rect fill='url(#q)' width='9' height='9'/>",
    "<pattern id='q' patternTransform='matrix({s} {s} {s} {s} {s} {s})' width='9' height='9'><rect width='{p}' height='{p}'/></pattern><rect fill='url(#q)' width='9' height='9'/>",
];

/// The n-th document of a place: consecutive values from position n.
fn doc(place: &str, n: usize, v: &[String]) -> String {
    let mut o = String::new();
    let mut rest = place;
    let mut i = n;
    let is_neg = |s: &str| s.starts_with('-');
    while let Some(p) = rest.find('{') {
        o.push_str(&rest[..p]);
        let e = rest[p..].find('}').unwrap() + p;
        let kind = &rest[p + 1..e];
        let s = v[i % v.len()].as_str();
        i += 1;
        match kind {
            "s" | "f" => o.push_str(s),
            "t" => o.push_str(&s[1..]),
            "p" | "p1" => {
                let t = s.trim_start_matches(|c| c == '-' || c == '+');
                // zero sizes make other rules apply
                let t = if dec(t).map_or(false, |d| d.0 == 0) { "3" } else { t };
                o.push_str(if kind == "p1" && (!t.starts_with(|c: char| c.is_ascii_digit()) || t.contains('e')) { "8" } else { t })
            }
            "o" => {
                // the fraction of the value
                let t = s.trim_start_matches(|c| c == '-' || c == '+');
                match t.find('.') {
                    Some(d) if !t.contains('e') && d + 1 < t.len() => o.push_str(&format!("0{}", &t[d..])),
                    _ => o.push_str("0.5"),
                }
            }
            _ => panic!("slot {}", kind),
        }
        let _ = is_neg;
        rest = &rest[e + 1..];
    }
    o.push_str(rest);
    // braces of style sheets
    svg(&o.replace('[', "{").replace(']', "}"))
}

pub fn run(r: &mut Run) {
    whole(r);
    let t = r.thorough();
    {
        let v = values(t, true);
        let n = v.len() as u64;
        r.explore(family(
            "every number-carrying place, values around every rounding boundary",
            n * PLACES.len() as u64,
            move |i| Some(doc(PLACES[(i / n) as usize], (i % n) as usize, &v)),
            prec_configs(&[]),
            each_number,
        ));
    }
    {
        // the highest precision
        let v: Vec<String> = values(false, false);
        let n = v.len() as u64;
        let step = 41;
        let per = n / step;
        r.explore(family(
            "the highest precision, values with at most eleven decimals",
            per * PLACES.len() as u64,
            move |i| {
                let d = doc(PLACES[(i / per) as usize], (i % per * step) as usize, &v);
                Some(d)
            },
            vec![prec_config(&[], [12; 4])],
            |c, n| {
                // what the writer cannot spell is judged in the next family
                if longest(c.pre.text) > 11 {
                    return Ok(());
                }
                each_number(c, n)
            },
        ));
        r.explore(family(
            "the highest precision, twelve decimals",
            4,
            |i| {
                Some(svg(["<rect x='0.123456789012' width='5' height='5'/>", "<g opacity='0.123456789012'><path d='M 1 2 L 3 4'/></g>", "<path d='M 0.123456789012 2 L 3 4'/>", "<rect transform='matrix(0.123456789012 0 0 1 0 0)' width='5' height='5'/>"][i as usize]))
            },
            vec![prec_config(&[], [12; 4])],
            each_number,
        ));
    }
    {
        // the same document under different precisions of all classes at once
        let v = values(false, false);
        let n = v.len() as u64;
        let mut c = Vec::new();
        let m: &[i32] = if t { &[1, 2, 3, 5, 8, 11] } else { &[1, 4, 9] };
        for a in m {
            for b in m {
                for d in m {
                    for e in m {
                        c.push(prec_config(&[], [*a, *b, *d, *e]));
                    }
                }
            }
        }
        let step = if t { 7 } else { 31 };
        r.explore(family(
            "all four precisions together",
            (n / step) * PLACES.len() as u64,
            move |i| Some(doc(PLACES[(i / (n / step)) as usize], (i % (n / step) * step) as usize, &v)),
            c,
            each_number,
        ));
    }
    {
        // rewriting of the path works with the rounded numbers
        let cmds: &[&str] = &[
            "L {s} {s}", "l {s} {s}", "H {s}", "v {s}", "C {s} {s} {s} {s} {s} {s}", "q {s} {s} {s} {s}", "A {p} {p} {s} 0 1 {s} {s}", "s {s} {s} {s} {s}", "t {s} {s}", "Z", "M {s} {s}", "m {s} {s}",
        ];
        let v: Vec<String> = values(t, false)
            .into_iter()
            .filter(|s| {
                // halves, as far as a double can tell, go either way
                let d = dec(s).unwrap().0.abs();
                (1..12).all(|n| (d % pow10(SCALE - n) - 5 * pow10(SCALE - n - 1)).abs() > d / pow10(14))
            })
            .collect();
        let n = v.len() as u64;
        let len = if t { 3 } else { 2 };
        let k = seq_count(cmds.len(), len);
        let step = if t { 61 } else { 37 };
        let per = n / step;
        let cmds: Vec<String> = cmds.iter().map(|s| s.to_string()).collect();
        for on in [&["paths-to-relative"][..], &["paths-to-relative", "trim-paths", "use-implicit-cmds", "remove-dupl-cmd-in-paths"][..], &[][..]] {
            let (v, cmds) = (v.clone(), cmds.clone());
            let c: Vec<Config> = (1..12).map(|n| prec_config(on, [11, 11, 11, n])).collect();
            r.explore(family(
                &format!("path positions, {}", if on.is_empty() { "no rewriting".into() } else { on.join(" ") }),
                k * per,
                move |i| {
                    let s = seq(i / per, cmds.len());
                    let mut d = "<path d='M {s} {s}".to_string();
                    for j in &s {
                        d.push(' ');
                        d.push_str(&cmds[*j]);
                    }
                    d.push_str("'/>");
                    // the curve shorthands need the point they reflect, repeated closing and lines along an axis are respelled: kept out
                    if s.windows(2).any(|w| cmds[w[0]] == "Z" && cmds[w[1]] == "Z") {
                        return None;
                    }
                    Some(doc(&d, (i % per * step) as usize, &v))
                },
                c,
                each_point,
            ));
        }
    }
}

fn numbers_close(a: &crate::render::V, b: &crate::render::V, tol: f64) -> Result<(), String> {
    use crate::render::V::*;
    match (a, b) {
        (N(x), N(y)) => {
            if (x - y).abs() <= tol {
                Ok(())
            } else {
                Err(format!("{} became {}, which is more than {} away", x, y, tol))
            }
        }
        (L(x), L(y)) => {
            if x.len() != y.len() {
                return Err(format!("{} items became {}", x.len(), y.len()));
            }
            x.iter().zip(y).map(|(u, v)| numbers_close(u, v, tol)).collect()
        }
        (T(n, x), T(m, y)) => {
            if n != m || x.len() != y.len() {
                return Err(format!("{} became {}", a.text(), b.text()));
            }
            x.iter().zip(y).map(|(u, v)| numbers_close(u, v, tol)).collect()
        }
        (S(x), S(y)) if x == y => Ok(()),
        _ => Err(format!("{} became {}", a.text(), b.text())),
    }
}

/// The picture moves by no more than the roundings that add up in one number: a position, a size, a scale of two.
fn nearby(c: &Case, note: &mut Note) -> Result<(), String> {
    let o = match c.out {
        Outcome::Ok(o) => o,
        Outcome::Err(e) => return Err(format!("refused: {}", e)),
        Outcome::Panic(e) => return Err(format!("panic: {}", e)),
    };
    note.observed = fnv(o);
    note.nontrivial = true;
    let p = precisions(c.cfg);
    let n = p.coord.min(p.prop).min(p.path).min(p.ts);
    let a = c.pre.render().as_ref().map_err(|e| format!("HARNESS: {}", e))?;
    let q = Pre::new(o);
    let b = q.render().as_ref().map_err(|e| format!("output: {}", e))?;
    // circles, stroke widths and font sizes are compared by their square
    let round = ["circle", "ellipse", " rx=", "stroke-width", "font-size"].iter().any(|e| c.pre.text.contains(e));
    numbers_close(a, b, if round { 25.0 } else { 3.0 } * 10f64.powi(-n) + 1e-9)
}

const WHOLE: &[&str] = &[
    "<rect x='1{f}' y='2{f}' width='30{f}' height='20{f}'/>",
    "<rect x='1{f}' y='2{f}' width='30{f}' height='20{f}' rx='5{f}' ry='4{f}'/>",
    "<circle cx='15{f}' cy='16{f}' r='9{f}'/>",
    "<ellipse cx='15{f}' cy='16{f}' rx='9{f}' ry='7{f}'/>",
    "<line x1='1{f}' y1='2{f}' x2='30{f}' y2='41{f}' stroke='red' stroke-width='2{f}'/>",
    "<polygon points='1{f} 2{f} 30{f} 9{f} 17{f} 40{f}'/>",
    "<path d='M 1{f} 2{f} L 30{f} 9{f} L 17{f} 40{f} L 3{f} 31{f} L -5{f} 16{f} Z'/>",
    "<path d='M 1{f} 2{f} C 30{f} 9{f} 17{f} 40{f} 3{f} 31{f} C 1{f} 22{f} 60{f} 3{f} 70{f} 80{f} L 90{f} 1{f} Z'/>",
    "<path d='M 1{f} 2{f} Q 30{f} 9{f} 17{f} 40{f} Q 3{f} 31{f} 44{f} 16{f} L 90{f} 1{f} Z'/>",
    "<path d='M 1{f} 2{f} L 30{f} 9{f} L 17{f} 40{f} M 60{f} 3{f} L 70{f} 80{f} L 90{f} 1{f} L 71{f} 3{f} L 65{f} 9{f} L 81{f} 77{f}'/>",
    "<g transform='translate(3{f} 4{f})'><rect x='1{f}' y='2{f}' width='30{f}' height='20{f}'/></g>",
    "<rect transform='translate(3{f} 4{f})' x='1{f}' y='2{f}' width='30{f}' height='20{f}'/>",
    "<rect transform='matrix(2 0 0 2 3{f} 4{f})' x='1{f}' y='2{f}' width='10{f}' height='10{f}'/>",
    "<circle transform='matrix(1 0 0 1 3{f} 4{f})' cx='1{f}' cy='2{f}' r='10{f}' stroke='red' stroke-width='2{f}'/>",
    "<g opacity='0.4{t}'><rect x='1{f}' width='30{f}' height='20{f}' fill-opacity='0.4{t}'/><circle r='9{f}'/></g>",
    "<text x='1{f}' y='20{f}' font-size='10{f}'>abc</text>",
    "<text x='1{f} 9{f} 20{f}' y='20{f}' style='font-size:10{f}px'>abc</text>",
    "<clipPath id='c'><rect x='1{f}' width='30{f}' height='20{f}'/></clipPath><circle r='9{f}' clip-path='url(#c)'/>",
    "<linearGradient id='q' gradientUnits='userSpaceOnUse' x1='1{f}' y1='2{f}' x2='30{f}' y2='41{f}'><stop offset='0' stop-color='red'/><stop offset='1' stop-color='blue'/></linearGradient><rect fill='url(#q)' width='30{f}' height='20{f}'/><circle fill='url(#q)' r='9{f}'/>",
    "<pattern id='q' patternUnits='userSpaceOnUse' x='1{f}' y='2{f}' width='30{f}' height='41{f}'><circle cx='9{f}' r='7{f}'/></pattern><rect fill='url(#q)' width='30{f}' height='20{f}'/>",
    "<defs><rect id='u' x='1{f}' width='30{f}' height='20{f}'/></defs><use xlink:href='#u' x='3{f}' y='4{f}'/><use xlink:href='#u' x='30{f}' y='40{f}'/>",
    "<image x='1{f}' y='2{f}' width='30{f}' height='20{f}' xlink:href='data:image/png;base64,AA=='/>",
];

/// Everything on: the roundings stay as small as asked for.
pub fn whole(r: &mut Run) {
    let t = r.thorough();
    let v: Vec<String> = values(t, false)
        .into_iter()
        .filter_map(|s| s.find('.').map(|p| s[p..].to_string()).filter(|f| f.len() > 1 && f.bytes().skip(1).all(|b| b.is_ascii_digit()) && !f.bytes().skip(1).all(|b| b == b'0')))
        .collect();
    let n = v.len() as u64;
    let step = 1;
    let per = n / step;
    let mut c: Vec<Config> = Vec::new();
    for n in 2..12 {
        let mut a: Vec<String> = ["coordinates", "properties", "transforms", "paths-coordinates"].iter().map(|k| format!("--{}-precision={}", k, n)).collect();
        c.push(config(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
        a.push("--apply-transform-to-paths=true".into());
        c.push(config(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
    }
    r.explore(family(
        "everything on, the picture moves no more than the roundings allow",
        per * WHOLE.len() as u64,
        move |i| Some(doc(WHOLE[(i / per) as usize], (i % per * step) as usize, &v)),
        c,
        nearby,
    ));
}

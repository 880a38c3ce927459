//! Helpers shared by the families.
use crate::engine::*;
use crate::render;

pub const HEAD: &str = "<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" viewBox=\"0 0 200 100\">";

pub fn svg(body: &str) -> String {
    format!("{}{}</svg>", HEAD, body)
}

/// Mixed radix decoding.
pub fn radix(mut i: u64, dims: &[usize]) -> Vec<usize> {
    dims.iter()
        .map(|&d| {
            let k = (i % d as u64) as usize;
            i /= d as u64;
            k
        })
        .collect()
}
pub fn product(dims: &[usize]) -> u64 {
    dims.iter().map(|&d| d as u64).product()
}
/// Number of sequences over `n` symbols of length 1..=len.
pub fn seq_count(n: usize, len: usize) -> u64 {
    (1..=len).map(|l| (n as u64).pow(l as u32)).sum()
}
/// The i-th such sequence, shortest first.
pub fn seq(mut i: u64, n: usize) -> Vec<usize> {
    let mut l = 1;
    loop {
        let c = (n as u64).pow(l);
        if i < c {
            break;
        }
        i -= c;
        l += 1;
    }
    (0..l)
        .map(|_| {
            let k = (i % n as u64) as usize;
            i /= n as u64;
            k
        })
        .collect()
}

pub const OFF: &[&str] = &["--no-defaults", "--join-style-attributes=no"];
pub fn off_with(a: &[&str]) -> Config {
    let mut v = OFF.to_vec();
    v.extend_from_slice(a);
    config(&v)
}

pub const TOL: f64 = 1e-4;

/// The output must draw the same as the input.
pub fn same_picture(c: &Case, note: &mut Note) -> Result<(), String> {
    same_picture_tol(c, note, TOL)
}
pub fn same_picture_tol(c: &Case, note: &mut Note, tol: f64) -> Result<(), String> {
    match c.out {
        Outcome::Panic(p) => Err(format!("panic: {}", p)),
        Outcome::Err(e) => Err(format!("refused: {}", e)),
        Outcome::Ok(o) => {
            let a = match c.pre.render() {
                Ok(a) => a,
                Err(e) => return Err(format!("HARNESS: cannot render the input: {}", e)),
            };
            note.observed = fnv(o);
            note.nontrivial = o != c.pre.text;
            let p = Pre::new(o);
            let b = match p.render() {
                Ok(b) => b,
                Err(e) => return Err(format!("output cannot be rendered: {}", e)),
            };
            match render::diff(a, b, tol, &mut String::new()) {
                None => Ok(()),
                Some(d) => Err(format!("picture differs: {}", d)),
            }
        }
    }
}

/// As same_picture, but a refusal is acceptable.
pub fn same_or_refused(c: &Case, note: &mut Note) -> Result<(), String> {
    if let Outcome::Err(e) = c.out {
        note.observed = fnv(e);
        return Ok(());
    }
    same_picture(c, note)
}

pub fn family(
    name: &str,
    size: u64,
    gen: impl Fn(u64) -> Option<String> + Sync + 'static,
    configs: Vec<Config>,
    check: impl Fn(&Case, &mut Note) -> Result<(), String> + Sync + 'static,
) -> Family<'static> {
    Family {
        name: name.to_string(),
        size,
        gen: Box::new(gen),
        configs,
        next: vec![],
        depth: 1,
        check: Box::new(check),
    }
}

/// Long structures: `n` equal items of one kind, but another kind at one position
/// (in the thorough tier: at two positions too). `{i}` is the number of an item,
/// `{j}` the number of the previous one.
pub fn runs(
    name: &str,
    kinds: Vec<String>,
    len: std::ops::RangeInclusive<usize>,
    two: bool,
    wrap: impl Fn(&[String]) -> Option<String> + Sync + 'static,
    configs: Vec<Config>,
    check: impl Fn(&Case, &mut Note) -> Result<(), String> + Sync + 'static,
) -> Family<'static> {
    let mut at: Vec<(usize, usize, usize)> = vec![];
    for n in len {
        for p in 0..n {
            at.push((n, p, p));
            if two {
                at.extend((p + 1..n).map(|q| (n, p, q)));
            }
        }
    }
    let dims = [at.len(), kinds.len(), kinds.len()];
    family(
        name,
        product(&dims),
        move |i| {
            let k = radix(i, &dims);
            let (n, p, q) = at[k[0]];
            // without an exception once is enough
            if k[1] == k[2] && (p > 0 || p != q) {
                return None;
            }
            let items: Vec<String> = (0..n)
                .map(|m| {
                    let s = &kinds[if m == p || m == q { k[2] } else { k[1] }];
                    if s.contains('{') {
                        s.replace("{i}", &m.to_string()).replace("{j}", &(m as isize - 1).to_string())
                    } else {
                        s.clone()
                    }
                })
                .collect();
            wrap(&items)
        },
        configs,
        check,
    )
}
/// Items of the form "open|close" around each other, the first one outermost.
pub fn nested(items: &[String], inner: &str) -> String {
    let mut s = String::new();
    for i in items {
        s.push_str(i.split('|').next().unwrap());
    }
    s.push_str(inner);
    for i in items.iter().rev() {
        s.push_str(i.split('|').nth(1).unwrap_or(""));
    }
    s
}
pub fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// Every boolean cleaning/parsing/writing option with its documented default.
pub const BOOLS: &[(&str, bool)] = &[
    ("remove-comments", true),
    ("remove-declarations", true),
    ("remove-nonsvg-elements", true),
    ("remove-unused-defs", true),
    ("convert-shapes", true),
    ("remove-title", true),
    ("remove-desc", true),
    ("remove-metadata", true),
    ("remove-dupl-lineargradient", true),
    ("remove-dupl-radialgradient", true),
    ("remove-dupl-fegaussianblur", true),
    ("ungroup-groups", true),
    ("ungroup-defs", true),
    ("group-by-style", true),
    ("merge-gradients", true),
    ("regroup-gradient-stops", true),
    ("remove-invalid-stops", true),
    ("remove-invisible-elements", true),
    ("resolve-use", true),
    ("remove-version", true),
    ("remove-nonsvg-attributes", true),
    ("remove-unreferenced-ids", true),
    ("trim-ids", true),
    ("remove-text-attributes", true),
    ("remove-unused-coordinates", true),
    ("remove-default-attributes", true),
    ("remove-xmlns-xlink-attribute", true),
    ("remove-needless-attributes", true),
    ("remove-gradient-attributes", false),
    ("apply-transform-to-gradients", true),
    ("apply-transform-to-shapes", true),
    ("remove-unresolved-classes", true),
    ("paths-to-relative", true),
    ("remove-unused-segments", true),
    ("convert-segments", true),
    ("apply-transform-to-paths", false),
    ("trim-paths", true),
    ("join-arcto-flags", false),
    ("remove-dupl-cmd-in-paths", true),
    ("use-implicit-cmds", true),
    ("trim-colors", true),
    ("simplify-transforms", true),
];

pub fn is_default_on(name: &str) -> bool {
    BOOLS.iter().any(|b| b.0 == name && b.1)
}

/// Only the named options (and what they depend on).
pub fn solo(names: &[&str]) -> Config {
    let mut v: Vec<String> = OFF.iter().map(|s| s.to_string()).collect();
    let mut on: Vec<&str> = names.to_vec();
    if names.iter().any(|n| ["remove-unused-segments", "convert-segments", "apply-transform-to-paths"].contains(n))
        && !on.contains(&"paths-to-relative")
    {
        on.push("paths-to-relative");
    }
    if names.contains(&"join-arcto-flags") && !on.contains(&"trim-paths") {
        on.push("trim-paths");
    }
    for n in on {
        v.push(format!("--{}=true", n));
    }
    config(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>())
}

/// The defaults without one option (and what depends on it).
pub fn without(name: &str) -> Config {
    let mut v = vec![format!("--{}=false", name)];
    if name == "paths-to-relative" {
        v.push("--remove-unused-segments=false".into());
        v.push("--convert-segments=false".into());
    }
    config(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>())
}

/// Defaults, nothing, each option alone, each default without one option, style modes, the rest on.
pub fn all_configs() -> Vec<Config> {
    let mut v = vec![config(&[]), solo(&[])];
    for b in BOOLS {
        v.push(solo(&[b.0]));
        if b.1 {
            v.push(without(b.0));
        } else {
            v.push(config(&[&format!("--{}=true", b.0)]));
        }
    }
    v.push(config(&["--join-style-attributes=all"]));
    v.push(config(&["--join-style-attributes=no"]));
    v.push(config(&["--no-defaults"]));
    v.push(config(&["--no-defaults", "--join-style-attributes=all"]));
    v.push(config(&["--apply-transform-to-paths=true", "--remove-gradient-attributes=true", "--join-arcto-flags=true", "--join-style-attributes=all"]));
    v
}

/// Replaces {0}, {1}, ... by the chosen alternatives.
pub fn fill(template: &str, slots: &[Vec<String>], k: &[usize]) -> String {
    let mut o = String::with_capacity(template.len() + 64);
    let mut rest = template;
    while let Some(p) = rest.find('{') {
        o.push_str(&rest[..p]);
        let e = match rest[p..].find('}') {
            Some(e) => e + p,
            None => break,
        };
        match rest[p + 1..e].parse::<usize>() {
            Ok(n) if n < slots.len() => {
                o.push_str(&slots[n][k[n]]);
                rest = &rest[e + 1..];
            }
            _ => {
                o.push('{');
                rest = &rest[p + 1..];
            }
        }
    }
    o.push_str(rest);
    o
}

pub type Oracle = fn(&Case, &mut Note) -> Result<(), String>;

/// All combinations of slot alternatives in a template.
pub fn grid(name: &str, template: &str, slots: &[&[&str]], configs: Vec<Config>, check: Oracle) -> Family<'static> {
    let dims: Vec<usize> = slots.iter().map(|s| s.len()).collect();
    let slots: Vec<Vec<String>> = slots.iter().map(|s| s.iter().map(|x| x.to_string()).collect()).collect();
    let t = template.to_string();
    let n = product(&dims);
    family(
        name,
        n,
        move |i| {
            let k = radix(i, &dims);
            let b = fill(&t, &slots, &k);
            // slots may themselves contain references to later slots
            let mut b = b;
            for _ in 0..4 {
                if !b.contains('{') {
                    break;
                }
                b = fill(&b, &slots, &k);
            }
            let b = if b.starts_with("<svg xmlns") || b.starts_with("<?") || b.starts_with("<!") { b } else { svg(&b) };
            // combinations that give an attribute twice are not documents
            match crate::xml::parse(&b) {
                Err(ref e) if e.starts_with("duplicate attribute") => None,
                // nor are those that give an id twice
                Ok(ref x) => {
                    let mut ids = std::collections::HashSet::new();
                    if x.all_elems().iter().filter_map(|n| x.attr(*n, "id")).all(|i| ids.insert(i.to_string())) {
                        Some(b)
                    } else {
                        None
                    }
                }
                _ => Some(b),
            }
        },
        configs,
        check,
    )
}

/// Ids are unique and valid and every local reference resolves.
pub fn ids_ok(out: &str) -> Result<(), String> {
    let p = Pre::new(out);
    let x = match p.xml() {
        Ok(x) => x,
        Err(e) => return Err(format!("output is not well-formed: {}", e)),
    };
    let mut ids = std::collections::HashSet::new();
    for n in x.all_elems() {
        if let Some(id) = x.attr(n, "id") {
            if !ids.insert(id.to_string()) {
                return Err(format!("id '{}' occurs twice", id));
            }
            let c = id.chars().next();
            if !c.map_or(false, |c| c.is_alphabetic() || c == '_' || c == ':') || id.contains(char::is_whitespace) {
                return Err(format!("id '{}' is not valid", id));
            }
        }
    }
    for n in x.all_elems() {
        for (k, v) in x.attrs(n) {
            if k == "xlink:href" || k == "href" {
                if let Some(id) = v.trim().strip_prefix('#') {
                    if !ids.contains(id) {
                        return Err(format!("'{}' of <{}> refers to nothing", v, x.name(n)));
                    }
                }
            } else {
                let mut rest = v.as_str();
                while let Some(q) = rest.find("url(") {
                    rest = &rest[q + 4..];
                    let e = rest.find(')').unwrap_or(rest.len());
                    let id = rest[..e].trim().trim_matches(|c| c == '\'' || c == '"');
                    if let Some(id) = id.strip_prefix('#') {
                        if !ids.contains(id) {
                            return Err(format!("url(#{}) in '{}' of <{}> refers to nothing", id, k, x.name(n)));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// As same_picture; also ids and references are intact.
pub fn picture_and_ids(c: &Case, note: &mut Note) -> Result<(), String> {
    same_picture(c, note)?;
    match c.out {
        Outcome::Ok(o) => ids_ok(o),
        _ => Ok(()),
    }
}

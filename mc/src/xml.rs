//! Minimal strict XML parser (independent of svgdom). Arena tree.

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Root,
    Elem(String, Vec<(String, String)>),
    Text(String),
    Comment(String),
    Pi(String),
    Doctype(String),
    CData(String),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub parent: usize,
    pub children: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Xml {
    pub nodes: Vec<Node>,
}

pub const ROOT: usize = 0;

impl Xml {
    pub fn name(&self, n: usize) -> &str {
        match self.nodes[n].kind {
            Kind::Elem(ref s, _) => s,
            _ => "",
        }
    }
    pub fn attrs(&self, n: usize) -> &[(String, String)] {
        match self.nodes[n].kind {
            Kind::Elem(_, ref a) => a,
            _ => &[],
        }
    }
    pub fn attr(&self, n: usize, name: &str) -> Option<&str> {
        self.attrs(n).iter().find(|a| a.0 == name).map(|a| a.1.as_str())
    }
    pub fn is_elem(&self, n: usize) -> bool {
        matches!(self.nodes[n].kind, Kind::Elem(..))
    }
    pub fn elem_children(&self, n: usize) -> impl Iterator<Item = usize> + '_ {
        self.nodes[n].children.iter().cloned().filter(move |&c| self.is_elem(c))
    }
    pub fn root_elem(&self) -> Option<usize> {
        self.elem_children(ROOT).next()
    }
    pub fn parent(&self, n: usize) -> usize {
        self.nodes[n].parent
    }
    /// All element ids in document order.
    pub fn all_elems(&self) -> Vec<usize> {
        let mut v = Vec::new();
        fn rec(x: &Xml, n: usize, v: &mut Vec<usize>) {
            for &c in &x.nodes[n].children {
                if x.is_elem(c) {
                    v.push(c);
                    rec(x, c, v);
                }
            }
        }
        rec(self, ROOT, &mut v);
        v
    }
    pub fn is_ancestor(&self, anc: usize, mut n: usize) -> bool {
        loop {
            if n == anc {
                return true;
            }
            if n == ROOT {
                return false;
            }
            n = self.nodes[n].parent;
        }
    }
}

struct P<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
    ents: Vec<(String, String)>,
}

fn is_name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn is_name_char(c: char) -> bool {
    is_name_start(c) || c.is_ascii_digit() || c.is_alphanumeric() || c == '-' || c == '.' || c == '\u{b7}'
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.src[self.i..]
    }
    fn starts(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
        self.i > st
    }
    fn until(&mut self, t: &str) -> Result<&'a str, String> {
        match self.rest().find(t) {
            Some(k) => {
                let r = &self.src[self.i..self.i + k];
                self.i += k + t.len();
                Ok(r)
            }
            None => Err(format!("missing {:?}", t)),
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let mut end = 0;
        for (k, c) in r.char_indices() {
            let ok = if k == 0 { is_name_start(c) } else { is_name_char(c) };
            if !ok {
                break;
            }
            end = k + c.len_utf8();
        }
        if end == 0 {
            return Err(format!("name expected at {}: {:?}", self.i, r.chars().take(10).collect::<String>()));
        }
        self.i += end;
        Ok(r[..end].to_string())
    }
    fn decode(&self, raw: &str, attr: bool, depth: usize) -> Result<String, String> {
        if depth > 8 {
            return Err("entity depth".into());
        }
        let mut o = String::with_capacity(raw.len());
        let mut it = raw.char_indices();
        while let Some((k, c)) = it.next() {
            if !is_xml_char(c) {
                return Err(format!("invalid char {:?}", c));
            }
            if c == '&' {
                let e = match raw[k..].find(';') {
                    Some(e) => k + e,
                    None => return Err("bare &".into()),
                };
                let nm = &raw[k + 1..e];
                match nm {
                    "lt" => o.push('<'),
                    "gt" => o.push('>'),
                    "amp" => o.push('&'),
                    "quot" => o.push('"'),
                    "apos" => o.push('\''),
                    _ if nm.starts_with("#x") => {
                        let v = u32::from_str_radix(&nm[2..], 16).map_err(|_| "bad charref".to_string())?;
                        o.push(char::from_u32(v).ok_or("bad charref")?)
                    }
                    _ if nm.starts_with('#') => {
                        let v: u32 = nm[1..].parse().map_err(|_| "bad charref".to_string())?;
                        o.push(char::from_u32(v).ok_or("bad charref")?)
                    }
                    _ => match self.ents.iter().find(|x| x.0 == nm) {
                        Some(x) => o.push_str(&self.decode(&x.1.clone(), attr, depth + 1)?),
                        None => return Err(format!("undefined entity {:?}", nm)),
                    },
                }
                while let Some((k2, _)) = it.next() {
                    if k2 >= e {
                        break;
                    }
                }
                continue;
            }
            if attr && c == '<' {
                return Err("< in attribute".into());
            }
            if attr && (c == '\n' || c == '\t' || c == '\r') {
                o.push(' ');
            } else if c == '\r' {
                if !raw[k..].starts_with("\r\n") {
                    o.push('\n');
                }
            } else {
                o.push(c);
            }
        }
        Ok(o)
    }
}

pub fn parse(src: &str) -> Result<Xml, String> {
    let src = src.strip_prefix('\u{feff}').unwrap_or(src);
    let mut p = P { s: src.as_bytes(), src, i: 0, ents: vec![] };
    let mut x = Xml { nodes: vec![Node { kind: Kind::Root, parent: 0, children: vec![] }] };
    let mut stack = vec![ROOT];
    let mut had_root = false;
    fn add(x: &mut Xml, parent: usize, k: Kind) -> usize {
        let id = x.nodes.len();
        x.nodes.push(Node { kind: k, parent, children: vec![] });
        x.nodes[parent].children.push(id);
        id
    }
    while p.i < p.s.len() {
        let top = *stack.last().unwrap();
        if p.starts("<!--") {
            p.i += 4;
            let t = p.until("-->")?.to_string();
            if t.contains("--") {
                return Err("-- in comment".into());
            }
            add(&mut x, top, Kind::Comment(t));
        } else if p.starts("<![CDATA[") {
            if top == ROOT {
                return Err("cdata outside root".into());
            }
            p.i += 9;
            let t = p.until("]]>")?.to_string();
            add(&mut x, top, Kind::CData(t));
        } else if p.starts("<?") {
            p.i += 2;
            let st = p.i == 2;
            let t = p.until("?>")?.to_string();
            if (t.starts_with("xml ") || t == "xml") && !st {
                return Err("xml declaration not at the start".into());
            }
            add(&mut x, top, Kind::Pi(t));
        } else if p.starts("<!DOCTYPE") {
            if top != ROOT || had_root {
                return Err("misplaced doctype".into());
            }
            let st = p.i;
            // find end, honouring [ ... ] and quotes
            let mut depth = 0;
            let mut q = 0u8;
            loop {
                if p.i >= p.s.len() {
                    return Err("unterminated doctype".into());
                }
                let c = p.s[p.i];
                if q != 0 {
                    if c == q {
                        q = 0;
                    }
                } else if c == b'"' || c == b'\'' {
                    q = c;
                } else if c == b'[' {
                    depth += 1;
                } else if c == b']' {
                    depth -= 1;
                } else if c == b'>' && depth == 0 {
                    p.i += 1;
                    break;
                }
                p.i += 1;
            }
            let body = &src[st..p.i];
            let mut rest = body;
            while let Some(k) = rest.find("<!ENTITY") {
                rest = &rest[k + 8..];
                let t = rest.trim_start();
                let nm: String = t.chars().take_while(|c| !c.is_whitespace()).collect();
                let t = t[nm.len()..].trim_start();
                if let Some(q) = t.chars().next() {
                    if q == '"' || q == '\'' {
                        if let Some(e) = t[1..].find(q) {
                            p.ents.push((nm, t[1..1 + e].to_string()));
                        }
                    }
                }
            }
            add(&mut x, top, Kind::Doctype(body.to_string()));
        } else if p.starts("</") {
            p.i += 2;
            let n = p.name()?;
            p.ws();
            if !p.starts(">") {
                return Err("bad end tag".into());
            }
            p.i += 1;
            if top == ROOT || x.name(top) != n {
                return Err(format!("mismatched end tag {}", n));
            }
            stack.pop();
        } else if p.starts("<") {
            p.i += 1;
            let n = p.name()?;
            if top == ROOT {
                if had_root {
                    return Err("second root element".into());
                }
                had_root = true;
            }
            let mut attrs: Vec<(String, String)> = Vec::new();
            let empty;
            loop {
                let had_ws = p.ws();
                if p.starts("/>") {
                    p.i += 2;
                    empty = true;
                    break;
                }
                if p.starts(">") {
                    p.i += 1;
                    empty = false;
                    break;
                }
                if !had_ws {
                    return Err(format!("space expected in tag {} at {}", n, p.i));
                }
                let an = p.name()?;
                p.ws();
                if !p.starts("=") {
                    return Err(format!("= expected after {}", an));
                }
                p.i += 1;
                p.ws();
                let q = if p.starts("\"") {
                    "\""
                } else if p.starts("'") {
                    "'"
                } else {
                    return Err(format!("quote expected for {}", an));
                };
                p.i += 1;
                let raw = p.until(q)?;
                let v = p.decode(raw, true, 0)?;
                if attrs.iter().any(|a| a.0 == an) {
                    return Err(format!("duplicate attribute {}", an));
                }
                attrs.push((an, v));
            }
            let id = add(&mut x, top, Kind::Elem(n, attrs));
            if !empty {
                stack.push(id);
                if stack.len() > 4000 {
                    return Err("too deep".into());
                }
            }
        } else {
            let end = p.rest().find('<').map(|k| p.i + k).unwrap_or(p.s.len());
            let raw = &src[p.i..end];
            p.i = end;
            if top == ROOT {
                if !raw.trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r')).is_empty() {
                    return Err("text outside root".into());
                }
                continue;
            }
            if raw.contains("]]>") {
                return Err("]]> in text".into());
            }
            let t = p.decode(raw, false, 0)?;
            add(&mut x, top, Kind::Text(t));
        }
    }
    if stack.len() != 1 {
        return Err("unclosed element".into());
    }
    if !had_root {
        return Err("no root element".into());
    }
    Ok(x)
}

/// Namespace well-formedness: every used prefix is declared; root is svg in the SVG namespace.
pub fn check_namespaces(x: &Xml) -> Result<(), String> {
    fn rec(x: &Xml, n: usize, scope: &Vec<(String, String)>) -> Result<(), String> {
        let mut sc = scope.clone();
        for (k, v) in x.attrs(n) {
            if k == "xmlns" {
                sc.push(("".into(), v.clone()));
            } else if let Some(p) = k.strip_prefix("xmlns:") {
                sc.push((p.into(), v.clone()));
            }
        }
        let find = |p: &str| sc.iter().rev().find(|s| s.0 == p).map(|s| s.1.clone());
        let chk = |name: &str, elem: bool| -> Result<(), String> {
            if let Some(k) = name.find(':') {
                let p = &name[..k];
                if p != "xml" && p != "xmlns" && find(p).is_none() {
                    return Err(format!("undeclared prefix {:?} in {:?}", p, name));
                }
            } else if elem && find("").map(|v| v != "http://www.w3.org/2000/svg").unwrap_or(true) {
                return Err(format!("element {:?} is not in the SVG namespace", name));
            }
            Ok(())
        };
        chk(x.name(n), true)?;
        for (k, v) in x.attrs(n) {
            chk(k, false)?;
            if k == "xmlns:xlink" && v != "http://www.w3.org/1999/xlink" {
                return Err("wrong xlink namespace".into());
            }
        }
        for c in x.elem_children(n) {
            rec(x, c, &sc)?;
        }
        Ok(())
    }
    let r = x.root_elem().ok_or("no root")?;
    if x.name(r) != "svg" {
        return Err(format!("root is {:?}", x.name(r)));
    }
    rec(x, r, &vec![])
}

//! Stand-in for elementtree: a small XML reader with the interface Reveaal uses.
use std::io::Read;

#[derive(Debug, Clone, Default)]
pub struct Element {
    tag: String,
    attrs: Vec<(String, String)>,
    text: String,
    tail: String,
    children: Vec<Element>,
}
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) }
}
impl std::error::Error for Error {}

pub struct FindChildren<'a> { it: std::slice::Iter<'a, Element>, tag: String }
impl<'a> Iterator for FindChildren<'a> {
    type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> {
        let tag = &self.tag;
        self.it.find(|e| &e.tag == tag)
    }
}

impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> {
        let mut s = String::new();
        r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
        let mut p = P { s: s.as_bytes(), i: 0 };
        p.misc()?;
        let e = p.element()?;
        p.misc()?;
        if p.i != p.s.len() { return p.err("content after the root element"); }
        Ok(e)
    }
    pub fn find_all(&self, tag: &str) -> FindChildren<'_> {
        FindChildren { it: self.children.iter(), tag: tag.to_string() }
    }
    pub fn find(&self, tag: &str) -> Option<&Element> { self.children.iter().find(|e| e.tag == tag) }
    pub fn get_attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
    }
    pub fn text(&self) -> &str { &self.text }
    pub fn tail(&self) -> &str { &self.tail }
}

struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, Error> { Err(Error(format!("{} at byte {}", m, self.i))) }
    fn at(&self, t: &str) -> bool { self.s[self.i..].starts_with(t.as_bytes()) }
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1 } }
    fn until(&mut self, t: &str) -> Result<String, Error> {
        let start = self.i;
        while self.i < self.s.len() && !self.at(t) { self.i += 1 }
        if self.i >= self.s.len() { return self.err("unexpected end"); }
        let r = String::from_utf8_lossy(&self.s[start..self.i]).into_owned();
        self.i += t.len();
        Ok(r)
    }
    fn misc(&mut self) -> Result<(), Error> {
        loop {
            self.ws();
            if self.at("<?") { self.until("?>")?; }
            else if self.at("<!--") { self.until("-->")?; }
            else if self.at("<!DOCTYPE") {
                let mut depth = 0;
                while self.i < self.s.len() {
                    match self.s[self.i] { b'[' => depth += 1, b']' => depth -= 1, b'>' if depth == 0 => break, _ => {} }
                    self.i += 1;
                }
                self.i = (self.i + 1).min(self.s.len());
            } else { return Ok(()); }
        }
    }
    fn name(&mut self) -> Result<String, Error> {
        let start = self.i;
        while self.i < self.s.len() && !matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r' | b'>' | b'/' | b'=' | b'<') { self.i += 1 }
        if start == self.i { return self.err("name expected"); }
        Ok(String::from_utf8_lossy(&self.s[start..self.i]).into_owned())
    }
    fn unescape(&self, t: &str) -> Result<String, Error> {
        let mut out = String::new();
        let mut rest = t;
        while let Some(k) = rest.find('&') {
            out.push_str(&rest[..k]);
            rest = &rest[k + 1..];
            let e = match rest.find(';') { Some(e) => e, None => return self.err("bad entity") };
            let ent = &rest[..e];
            out.push(match ent {
                "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'',
                _ => {
                    let n = if let Some(h) = ent.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() }
                        else { ent.strip_prefix('#').and_then(|d| d.parse().ok()) };
                    match n.and_then(char::from_u32) { Some(c) => c, None => return self.err("bad entity") }
                }
            });
            rest = &rest[e + 1..];
        }
        out.push_str(rest);
        Ok(out)
    }
    fn element(&mut self) -> Result<Element, Error> {
        if !self.at("<") { return self.err("element expected"); }
        self.i += 1;
        let mut e = Element { tag: self.name()?, ..Default::default() };
        loop {
            self.ws();
            if self.at("/>") { self.i += 2; return Ok(e); }
            if self.at(">") { self.i += 1; break; }
            let n = self.name()?;
            self.ws();
            if !self.at("=") { return self.err("= expected"); }
            self.i += 1;
            self.ws();
            let q = if self.at("\"") { "\"" } else if self.at("'") { "'" } else { return self.err("quote expected"); };
            self.i += 1;
            let v = self.until(q)?;
            e.attrs.push((n, self.unescape(&v)?));
        }
        loop {
            let mut text = String::new();
            loop {
                if self.at("<![CDATA[") { self.i += 9; text.push_str(&self.until("]]>")?); }
                else if self.at("<!--") { self.until("-->")?; }
                else if self.at("<?") { self.until("?>")?; }
                else if self.at("<") { break; }
                else {
                    let start = self.i;
                    while self.i < self.s.len() && self.s[self.i] != b'<' { self.i += 1 }
                    if self.i >= self.s.len() { return self.err("unexpected end"); }
                    let t = String::from_utf8_lossy(&self.s[start..self.i]).into_owned();
                    text.push_str(&self.unescape(&t)?);
                }
            }
            match e.children.last_mut() { Some(c) => c.tail = text, None => e.text = text }
            if self.at("</") {
                self.i += 2;
                if self.name()? != e.tag { return self.err("wrong end tag"); }
                self.ws();
                if !self.at(">") { return self.err("> expected"); }
                self.i += 1;
                return Ok(e);
            }
            let c = self.element()?;
            e.children.push(c);
        }
    }
}

//! A strict XML 1.0 parser, written independently of the library under test.
//! It rejects everything a conforming non-validating processor rejects, applies
//! end-of-line and attribute value normalisation, and checks that namespace
//! prefixes are declared. DTDs are rejected: no part of an xlsx file has one.

#[derive(Debug, Clone, PartialEq)]
pub enum Kid {
    E(Elem),
    T(String),
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Kid>,
}

impl Elem {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(k, _)| k == n)
            .map(|(_, v)| v.as_str())
    }
    pub fn a(&self, n: &str) -> &str {
        self.attr(n).unwrap_or("")
    }
    pub fn num(&self, n: &str) -> Option<f64> {
        self.attr(n).and_then(|v| v.parse().ok())
    }
    pub fn int(&self, n: &str) -> Option<i64> {
        self.attr(n).and_then(|v| v.parse().ok())
    }
    /// OOXML boolean attribute with the given default.
    pub fn flag(&self, n: &str, default: bool) -> bool {
        match self.attr(n) {
            None => default,
            Some("1" | "true" | "on") => true,
            _ => false,
        }
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| match k {
            Kid::E(e) => Some(e),
            Kid::T(_) => None,
        })
    }
    pub fn child(&self, n: &str) -> Option<&Elem> {
        self.elems().find(|e| e.name == n)
    }
    pub fn children<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Elem> + 'a {
        self.elems().filter(move |e| e.name == n)
    }
    /// Follow a path of child names separated by '/'.
    pub fn path(&self, p: &str) -> Option<&Elem> {
        let mut cur = self;
        for n in p.split('/') {
            cur = cur.child(n)?;
        }
        Some(cur)
    }
    /// `val` attribute of the element at the path.
    pub fn val(&self, p: &str) -> Option<&str> {
        self.path(p).and_then(|e| e.attr("val"))
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Kid::T(t) = k {
                s.push_str(t);
            }
        }
        s
    }
    pub fn child_text(&self, n: &str) -> Option<String> {
        self.child(n).map(Elem::text)
    }
    pub fn all_text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Kid::T(t) => s.push_str(t),
                Kid::E(e) => s.push_str(&e.all_text()),
            }
        }
        s
    }
    pub fn desc<'a>(&'a self, n: &str, out: &mut Vec<&'a Elem>) {
        for e in self.elems() {
            if e.name == n {
                out.push(e);
            }
            e.desc(n, out);
        }
    }
    pub fn find_all(&self, n: &str) -> Vec<&Elem> {
        let mut v = vec![];
        self.desc(n, &mut v);
        v
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Elem)) {
        f(self);
        for e in self.elems() {
            e.walk(f);
        }
    }
    pub fn has_text_content(&self) -> bool {
        self.kids
            .iter()
            .any(|k| matches!(k, Kid::T(t) if !t.trim().is_empty()))
    }
    /// Local name without prefix.
    pub fn local(&self) -> &str {
        self.name.rsplit(':').next().unwrap_or(&self.name)
    }
    /// Canonical rendering for comparisons.
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        for (k, v) in &self.attrs {
            s.push_str(&format!(" {k}={v:?}"));
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Kid::T(t) => s.push_str(&format!("{t:?}")),
                Kid::E(e) => e.show_into(s),
            }
        }
        s.push_str("</>");
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    ns: Vec<Vec<String>>,
}

fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    matches!(c, ':' | 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn name_char(c: char) -> bool {
    name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

impl P<'_> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let lo = self.i.saturating_sub(60);
        let hi = (self.i + 40).min(self.b.len());
        Err(format!(
            "{m} at byte {} near {:?}",
            self.i,
            String::from_utf8_lossy(&self.b[lo..hi])
        ))
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn starts(&self, s: &str) -> bool {
        self.b[self.i..].starts_with(s.as_bytes())
    }
    fn ch(&self) -> Option<(char, usize)> {
        // Input is known to be UTF-8.
        let c0 = *self.b.get(self.i)?;
        if c0 < 0x80 {
            return Some((c0 as char, 1));
        }
        let n = if c0 >= 0xF0 {
            4
        } else if c0 >= 0xE0 {
            3
        } else {
            2
        };
        let s = std::str::from_utf8(&self.b[self.i..self.i + n]).ok()?;
        s.chars().next().map(|c| (c, n))
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> Result<String, String> {
        let s = self.i;
        match self.ch() {
            Some((c, n)) if name_start(c) => self.i += n,
            _ => return self.err("name expected"),
        }
        while let Some((c, n)) = self.ch() {
            if name_char(c) {
                self.i += n;
            } else {
                break;
            }
        }
        Ok(String::from_utf8_lossy(&self.b[s..self.i]).into_owned())
    }
    fn reference(&mut self) -> Result<char, String> {
        // at '&'
        let Some(end) = self.b[self.i..].iter().take(12).position(|b| *b == b';') else {
            return self.err("unterminated reference");
        };
        let r = String::from_utf8_lossy(&self.b[self.i + 1..self.i + end]).into_owned();
        let c = match r.as_str() {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = r.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = r.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if is_char(c) => c,
                    _ => return self.err("bad reference"),
                }
            }
        };
        self.i += end + 1;
        Ok(c)
    }
    fn comment(&mut self) -> Result<(), String> {
        self.i += 4;
        loop {
            if self.starts("-->") {
                self.i += 3;
                return Ok(());
            }
            if self.starts("--") {
                return self.err("-- in comment");
            }
            match self.ch() {
                Some((c, n)) if is_char(c) => self.i += n,
                _ => return self.err("bad comment"),
            }
        }
    }
    fn pi(&mut self) -> Result<(), String> {
        self.i += 2;
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("misplaced XML declaration");
        }
        loop {
            if self.starts("?>") {
                self.i += 2;
                return Ok(());
            }
            match self.ch() {
                Some((c, n)) if is_char(c) => self.i += n,
                _ => return self.err("bad PI"),
            }
        }
    }
    fn element(&mut self, depth: usize) -> Result<Elem, String> {
        if depth > 200 {
            return self.err("too deep");
        }
        self.i += 1; // '<'
        let mut e = Elem {
            name: self.name()?,
            ..Elem::default()
        };
        let mut decls = vec![];
        loop {
            let had_ws = self.ws();
            match self.peek() {
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                Some(b'/') => {
                    if !self.starts("/>") {
                        return self.err("bad empty tag");
                    }
                    self.i += 2;
                    self.ns.push(decls);
                    self.check_ns(&e)?;
                    self.ns.pop();
                    return Ok(e);
                }
                None => return self.err("eof in tag"),
                _ => {}
            }
            if !had_ws {
                return self.err("whitespace required between attributes");
            }
            let an = self.name()?;
            self.ws();
            if self.peek() != Some(b'=') {
                return self.err("= expected");
            }
            self.i += 1;
            self.ws();
            let q = match self.peek() {
                Some(q @ (b'"' | b'\'')) => q,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.ch() {
                    None => return self.err("eof in attribute"),
                    Some((c, n)) => {
                        if n == 1 && c as u32 == u32::from(q) {
                            self.i += 1;
                            break;
                        }
                        match c {
                            '<' => return self.err("< in attribute"),
                            '&' => v.push(self.reference()?),
                            '\r' => {
                                self.i += 1;
                                if self.peek() == Some(b'\n') {
                                    self.i += 1;
                                }
                                v.push(' ');
                            }
                            '\n' | '\t' => {
                                self.i += 1;
                                v.push(' ');
                            }
                            c if is_char(c) => {
                                self.i += n;
                                v.push(c);
                            }
                            _ => return self.err(&format!("illegal char U+{:04X}", c as u32)),
                        }
                    }
                }
            }
            if let Some(p) = an.strip_prefix("xmlns:") {
                decls.push(p.to_string());
            }
            if e.attr(&an).is_some() {
                return self.err(&format!("duplicate attribute {an}"));
            }
            e.attrs.push((an, v));
        }
        self.ns.push(decls);
        self.check_ns(&e)?;
        let mut t = String::new();
        loop {
            let Some((c, n)) = self.ch() else {
                return self.err(&format!("eof in element {}", e.name));
            };
            match c {
                '<' => {
                    if self.starts("<!--") {
                        self.comment()?;
                        continue;
                    }
                    if self.starts("<![CDATA[") {
                        self.i += 9;
                        loop {
                            if self.starts("]]>") {
                                self.i += 3;
                                break;
                            }
                            match self.ch() {
                                Some((c, n)) if is_char(c) => {
                                    self.i += n;
                                    t.push(c);
                                }
                                _ => return self.err("bad CDATA"),
                            }
                        }
                        continue;
                    }
                    if self.starts("<?") {
                        self.pi()?;
                        continue;
                    }
                    if !t.is_empty() {
                        e.kids.push(Kid::T(std::mem::take(&mut t)));
                    }
                    if self.starts("</") {
                        self.i += 2;
                        let n = self.name()?;
                        if n != e.name {
                            return self.err(&format!("</{n}> closes <{}>", e.name));
                        }
                        self.ws();
                        if self.peek() != Some(b'>') {
                            return self.err("> expected");
                        }
                        self.i += 1;
                        self.ns.pop();
                        return Ok(e);
                    }
                    let k = self.element(depth + 1)?;
                    e.kids.push(Kid::E(k));
                }
                '&' => t.push(self.reference()?),
                '\r' => {
                    self.i += 1;
                    if self.peek() == Some(b'\n') {
                        self.i += 1;
                    }
                    t.push('\n');
                }
                ']' if self.starts("]]>") => return self.err("]]> in text"),
                c if is_char(c) => {
                    self.i += n;
                    t.push(c);
                }
                _ => return self.err(&format!("illegal char U+{:04X}", c as u32)),
            }
        }
    }
    fn check_ns(&self, e: &Elem) -> Result<(), String> {
        let ok = |p: &str| {
            p == "xml" || p == "xmlns" || self.ns.iter().any(|d| d.iter().any(|x| x == p))
        };
        let chk = |n: &str| -> Result<(), String> {
            if let Some((p, l)) = n.split_once(':') {
                if !ok(p) {
                    return self.err(&format!("undeclared prefix {p} in {n}"));
                }
                if l.is_empty() || l.contains(':') {
                    return self.err("bad qname");
                }
            }
            Ok(())
        };
        chk(&e.name)?;
        for (k, _) in &e.attrs {
            chk(k)?;
        }
        Ok(())
    }
}

/// Parse a whole document.
pub fn parse(bytes: &[u8]) -> Result<Elem, String> {
    let bytes = bytes.strip_prefix(b"\xEF\xBB\xBF").unwrap_or(bytes);
    if let Err(e) = std::str::from_utf8(bytes) {
        return Err(format!("not UTF-8: {e}"));
    }
    let mut p = P {
        b: bytes,
        i: 0,
        ns: vec![],
    };
    if p.starts("<?xml") {
        let Some(end) = bytes.windows(2).position(|w| w == b"?>") else {
            return p.err("unterminated XML declaration");
        };
        let decl = String::from_utf8_lossy(&bytes[..end]).into_owned();
        if !decl.contains("version=\"1.0\"") {
            return p.err("bad XML declaration");
        }
        if decl.contains("encoding=") && !decl.to_ascii_lowercase().contains("encoding=\"utf-8\"") {
            return p.err("bad encoding");
        }
        p.i = end + 2;
    }
    let mut root = None;
    loop {
        p.ws();
        if p.peek().is_none() {
            break;
        }
        if p.starts("<!--") {
            p.comment()?;
        } else if p.starts("<?") {
            p.pi()?;
        } else if p.starts("<!") {
            return p.err("DTD not allowed");
        } else if p.peek() == Some(b'<') {
            if root.is_some() {
                return p.err("second root element");
            }
            root = Some(p.element(0)?);
        } else {
            return p.err("text outside root");
        }
    }
    root.ok_or_else(|| "no root element".to_string())
}

/// Undo the ST_Xstring escape: `_xHHHH_` denotes the UTF-16 code unit HHHH.
pub fn xstring(s: &str) -> String {
    if !s.contains("_x") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<u16> = vec![];
    let mut i = 0;
    while i < b.len() {
        if i + 7 <= b.len()
            && b[i] == b'_'
            && b[i + 1] == b'x'
            && b[i + 6] == b'_'
            && b[i + 2..i + 6].iter().all(u8::is_ascii_hexdigit)
        {
            let h = std::str::from_utf8(&b[i + 2..i + 6]).unwrap();
            out.push(u16::from_str_radix(h, 16).unwrap());
            i += 7;
            continue;
        }
        let c = s[i..].chars().next().unwrap();
        let mut buf = [0u16; 2];
        out.extend_from_slice(c.encode_utf16(&mut buf));
        i += c.len_utf8();
    }
    String::from_utf16_lossy(&out)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn t() {
        assert!(parse(b"<a><b></a>").is_err());
        assert!(parse(b"<a x='1' x='2'/>").is_err());
        assert!(parse(b"<a>\x01</a>").is_err());
        assert!(parse(b"<a>&#1;</a>").is_err());
        assert!(parse(b"<p:a/>").is_err());
        assert!(parse("<a>\u{FFFE}</a>".as_bytes()).is_err());
        let e = parse(b"<?xml version=\"1.0\"?>\n<a x=\"1\n2&#xA;3\">t<b/>&lt;</a>").unwrap();
        assert_eq!(e.a("x"), "1 2\n3");
        assert_eq!(e.text(), "t<");
        assert_eq!(xstring("a_x0041_b_x005F_x0041_"), "aAb_x0041_");
    }
}

//! A small, strict, conforming XML reader, independent of the crate under test: it is the oracle for what a
//! text says. It knows no DTD beyond the name and identifiers of a document type.
use crate::norm::{is_name_char, is_name_start};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum X {
    Elem(String, Vec<(String, String)>, Vec<X>),
    Text(String),
    CData(String),
    Comment(String),
    Pi(String, Option<String>),
    EntityRef(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Decl {
    pub version: String,
    pub encoding: Option<String>,
    pub standalone: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DocType {
    pub name: String,
    pub public_id: Option<String>,
    pub system_id: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub decl: Option<Decl>,
    pub doctype: Option<DocType>,
    pub children: Vec<X>,
}

struct P<'a> {
    s: &'a str,
    pos: usize,
    /// Accept what the crate is known to write for a document type (`PUBLIC "p" SYSTEM "s"`).
    crate_doctype: bool,
}

type R<T> = Result<T, String>;

/// Legal `Char` of XML 1.0.
pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

/// Read a whole document.
pub fn read_document(text: &str, crate_doctype: bool) -> R<Doc> {
    let folded = fold_line_ends(text);
    let mut p = P {
        s: &folded,
        pos: 0,
        crate_doctype,
    };
    p.document(true)
}

/// Read a document without requiring an element (what a document built through the API may print).
pub fn read_maybe_empty_document(text: &str, crate_doctype: bool) -> R<Doc> {
    let folded = fold_line_ends(text);
    let mut p = P {
        s: &folded,
        pos: 0,
        crate_doctype,
    };
    p.document(false)
}

/// Read element content (text that may be surrounded by a start and end tag).
pub fn read_content(text: &str) -> R<Vec<X>> {
    let folded = fold_line_ends(text);
    let mut p = P {
        s: &folded,
        pos: 0,
        crate_doctype: false,
    };
    let c = p.content(0)?;
    if p.pos != p.s.len() {
        return Err(format!("unexpected end tag at {}", p.pos));
    }
    Ok(c)
}

/// End-of-line handling of XML 1.0 §2.11.
fn fold_line_ends(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.pos..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.pos += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {t:?} at {}", self.pos))
        }
    }
    fn space(&mut self) -> bool {
        let r = self.rest();
        let t = r.trim_start_matches(is_space);
        self.pos += r.len() - t.len();
        r.len() != t.len()
    }
    fn until(&mut self, end: &str) -> R<&'a str> {
        match self.rest().find(end) {
            None => Err(format!("no {end:?} after {}", self.pos)),
            Some(i) => {
                let t = &self.rest()[..i];
                self.pos += i + end.len();
                check_chars(t)?;
                Ok(t)
            }
        }
    }
    fn name(&mut self) -> R<String> {
        let start = self.pos;
        while let Some(c) = self.peek() {
            let ok = if self.pos == start {
                is_name_start(c) || c == ':'
            } else {
                is_name_char(c) || c == ':'
            };
            if !ok {
                break;
            }
            self.pos += c.len_utf8();
        }
        if self.pos == start {
            Err(format!("expected a name at {start}"))
        } else {
            Ok(self.s[start..self.pos].to_string())
        }
    }
    fn quoted(&mut self) -> R<&'a str> {
        let q = match self.peek() {
            Some('"') => "\"",
            Some('\'') => "'",
            _ => return Err(format!("expected a quote at {}", self.pos)),
        };
        self.pos += 1;
        self.until(q)
    }

    fn document(&mut self, need_element: bool) -> R<Doc> {
        let mut doc = Doc::default();
        if self.at("<?xml") && self.rest()[5..].starts_with(is_space) {
            doc.decl = Some(self.decl()?);
        }
        let mut elements = 0;
        loop {
            self.space();
            if self.pos == self.s.len() {
                break;
            }
            if self.at("<!DOCTYPE") {
                if doc.doctype.is_some() || !doc.children.is_empty() && elements > 0 {
                    return Err("document type out of place".into());
                }
                doc.doctype = Some(self.doctype()?);
            } else if self.at("<!--") || self.at("<?") {
                let n = self.comment_or_pi()?;
                doc.children.push(n);
            } else if self.at("<") {
                elements += 1;
                if elements > 1 {
                    return Err("more than one element".into());
                }
                let e = self.element(0)?;
                doc.children.push(e);
            } else {
                return Err(format!("text outside the document element at {}", self.pos));
            }
        }
        if need_element && elements == 0 {
            return Err("no document element".into());
        }
        Ok(doc)
    }

    fn decl(&mut self) -> R<Decl> {
        self.expect("<?xml")?;
        let mut d = Decl::default();
        if !self.space() {
            return Err("space expected".into());
        }
        self.expect("version")?;
        self.eq()?;
        d.version = self.quoted()?.to_string();
        if d.version != "1.0" && d.version != "1.1" {
            return Err("version".into());
        }
        let mut spaced = self.space();
        if self.at("encoding") {
            if !spaced {
                return Err("space expected".into());
            }
            self.pos += 8;
            self.eq()?;
            let e = self.quoted()?;
            if !crate::norm::is_encoding_name(e) {
                return Err("encoding name".into());
            }
            d.encoding = Some(e.to_string());
            spaced = self.space();
        }
        if self.at("standalone") {
            if !spaced {
                return Err("space expected".into());
            }
            self.pos += 10;
            self.eq()?;
            let e = self.quoted()?;
            if e != "yes" && e != "no" {
                return Err("standalone".into());
            }
            d.standalone = Some(e.to_string());
            self.space();
        }
        self.expect("?>")?;
        Ok(d)
    }
    fn eq(&mut self) -> R<()> {
        self.space();
        self.expect("=")?;
        self.space();
        Ok(())
    }

    fn doctype(&mut self) -> R<DocType> {
        self.expect("<!DOCTYPE")?;
        if !self.space() {
            return Err("space expected".into());
        }
        let name = self.name()?;
        let mut d = DocType {
            name,
            public_id: None,
            system_id: None,
        };
        self.space();
        if self.eat("PUBLIC") {
            self.space();
            d.public_id = Some(self.quoted()?.to_string());
            self.space();
            if self.crate_doctype {
                if self.eat("SYSTEM") {
                    self.space();
                    d.system_id = Some(self.quoted()?.to_string());
                }
            } else {
                d.system_id = Some(self.quoted()?.to_string());
            }
        } else if self.eat("SYSTEM") {
            self.space();
            d.system_id = Some(self.quoted()?.to_string());
        }
        self.space();
        self.expect(">")?;
        Ok(d)
    }

    fn comment_or_pi(&mut self) -> R<X> {
        if self.eat("<!--") {
            let t = self.until("--")?;
            self.expect(">")?;
            Ok(X::Comment(t.to_string()))
        } else {
            self.expect("<?")?;
            let target = self.name()?;
            if target.eq_ignore_ascii_case("xml") {
                return Err("reserved instruction target".into());
            }
            if self.eat("?>") {
                return Ok(X::Pi(target, None));
            }
            if !self.space() {
                return Err("space expected after instruction target".into());
            }
            let data = self.until("?>")?;
            Ok(X::Pi(
                target,
                (!data.is_empty()).then(|| data.to_string()),
            ))
        }
    }

    fn element(&mut self, depth: usize) -> R<X> {
        if depth > 2000 {
            return Err("too deep for this reader".into());
        }
        self.expect("<")?;
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let spaced = self.space();
            if self.eat("/>") {
                return Ok(X::Elem(name, attrs, vec![]));
            }
            if self.eat(">") {
                break;
            }
            if !spaced {
                return Err(format!("space expected at {}", self.pos));
            }
            let a = self.name()?;
            self.eq()?;
            let raw = self.quoted()?;
            if attrs.iter().any(|(n, _)| *n == a) {
                return Err(format!("duplicate attribute {a}"));
            }
            attrs.push((a, attribute_value(raw)?));
        }
        let content = self.content(depth + 1)?;
        self.expect("</")?;
        let end = self.name()?;
        if end != name {
            return Err(format!("end tag {end} does not match {name}"));
        }
        self.space();
        self.expect(">")?;
        Ok(X::Elem(name, attrs, content))
    }

    fn content(&mut self, depth: usize) -> R<Vec<X>> {
        let mut out: Vec<X> = vec![];
        let mut text = String::new();
        loop {
            if self.pos == self.s.len() || self.at("</") {
                break;
            }
            if self.at("<") {
                if !text.is_empty() {
                    out.push(X::Text(std::mem::take(&mut text)));
                }
                let n = if self.eat("<![CDATA[") {
                    X::CData(self.until("]]>")?.to_string())
                } else if self.at("<!--") || self.at("<?") {
                    self.comment_or_pi()?
                } else {
                    self.element(depth)?
                };
                out.push(n);
            } else if self.eat("&") {
                let r = self.until(";")?;
                if let Some(c) = reference(r)? {
                    text.push(c);
                } else {
                    if !text.is_empty() {
                        out.push(X::Text(std::mem::take(&mut text)));
                    }
                    out.push(X::EntityRef(r.to_string()));
                }
            } else if self.at("]]>") {
                return Err("]]> in text".into());
            } else {
                let c = self.peek().unwrap();
                if !is_xml_char(c) {
                    return Err(format!("illegal character {c:?}"));
                }
                text.push(c);
                self.pos += c.len_utf8();
            }
        }
        if !text.is_empty() {
            out.push(X::Text(text));
        }
        Ok(out)
    }
}

fn check_chars(t: &str) -> R<()> {
    match t.chars().find(|c| !is_xml_char(*c)) {
        Some(c) => Err(format!("illegal character {c:?}")),
        None => Ok(()),
    }
}

/// The character a character reference, or one of the five predefined entities, stands for.
fn reference(r: &str) -> R<Option<char>> {
    if let Some(n) = r.strip_prefix('#') {
        let v = if let Some(h) = n.strip_prefix('x') {
            if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                return Err(format!("bad reference {r}"));
            }
            u32::from_str_radix(h, 16)
        } else {
            if n.is_empty() || !n.chars().all(|c| c.is_ascii_digit()) {
                return Err(format!("bad reference {r}"));
            }
            n.parse::<u32>()
        };
        return match v.ok().and_then(char::from_u32) {
            Some(c) if is_xml_char(c) => Ok(Some(c)),
            _ => Err(format!("bad reference {r}")),
        };
    }
    match r {
        "amp" => Ok(Some('&')),
        "lt" => Ok(Some('<')),
        "gt" => Ok(Some('>')),
        "apos" => Ok(Some('\'')),
        "quot" => Ok(Some('"')),
        _ => {
            let mut c = r.chars();
            let ok = c.next().map_or(false, |c| is_name_start(c) || c == ':')
                && c.all(|c| is_name_char(c) || c == ':');
            if ok {
                Ok(None)
            } else {
                Err(format!("bad reference {r}"))
            }
        }
    }
}

/// A CDATA-type attribute value (the input has its line ends folded already).
fn attribute_value(raw: &str) -> R<String> {
    let mut out = String::new();
    let mut rest = raw;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' => return Err("< in attribute value".into()),
            '&' => {
                let end = rest.find(';').ok_or("bad reference")?;
                match reference(&rest[1..end])? {
                    Some(c) => out.push(c),
                    None => return Err("reference to an undeclared entity in attribute".into()),
                }
                rest = &rest[end + 1..];
                continue;
            }
            '\t' | '\n' | '\r' => out.push(' '),
            c => out.push(c),
        }
        rest = &rest[c.len_utf8()..];
    }
    Ok(out)
}

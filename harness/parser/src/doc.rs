//! Documents: what they hold, how they may be written, and how a parsed tree is read back.
use common::gen;
use common::norm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::ext::convert::as_document_decl;
use xml_dom::level2::{Attribute as _, Node as _, NodeType, RefNode};

/// One character of content, and the way it is written: 0 as itself where it can be, 1 decimal reference,
/// 2 hexadecimal reference, 3 predefined entity where there is one, 4 hexadecimal with leading zeros and
/// upper case digits.
pub type Piece = (char, u8);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attr {
    pub name: String,
    pub value: Vec<Piece>,
    /// Choices: quote, space before, space around the `=`.
    pub style: (bool, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum N {
    Elem {
        name: String,
        attrs: Vec<Attr>,
        kids: Vec<N>,
        /// Choices: spaces at the end of the tags, and an empty element tag where there is no content.
        style: (u8, u8, bool),
    },
    Text(Vec<Piece>),
    CData(String),
    Comment(String),
    Pi(String, Option<String>, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Decl {
    pub v11: bool,
    pub encoding: Option<String>,
    pub standalone: Option<bool>,
    /// Choices: quotes, spaces, spaces around the `=`.
    pub style: (u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub decl: Option<Decl>,
    pub prolog: Vec<N>,
    pub root: N,
    pub epilog: Vec<N>,
    /// Spaces between the nodes at the top.
    pub gaps: Vec<u8>,
}

const SPACES: [&str; 8] = ["", " ", "\n", "\t", "  ", "\r\n", " \n\t", "\r"];

fn space(choice: u8, needed: bool) -> &'static str {
    let s = SPACES[choice as usize % SPACES.len()];
    if needed && s.is_empty() {
        " "
    } else {
        s
    }
}

fn piece(out: &mut String, c: char, how: u8, must: bool) {
    let named = match c {
        '&' => Some("&amp;"),
        '<' => Some("&lt;"),
        '>' => Some("&gt;"),
        '\'' => Some("&apos;"),
        '"' => Some("&quot;"),
        _ => None,
    };
    let n = c as u32;
    match (how % 5, named) {
        (0, _) if !must => out.push(c),
        (3, Some(t)) => out.push_str(t),
        (3, None) if !must => out.push(c),
        (1, _) => out.push_str(&format!("&#{n};")),
        (2, _) => out.push_str(&format!("&#x{n:x};")),
        (4, _) => out.push_str(&format!("&#x{n:05X};")),
        (_, Some(t)) => out.push_str(t),
        _ => out.push_str(&format!("&#{n};")),
    }
}

impl N {
    pub fn write(&self, out: &mut String) {
        match self {
            N::Elem { name, attrs, kids, style } => {
                out.push('<');
                out.push_str(name);
                for a in attrs {
                    let (single, before, around) = a.style;
                    out.push_str(space(before, true));
                    out.push_str(&a.name);
                    out.push_str(space(around & 7, false));
                    out.push('=');
                    out.push_str(space(around >> 3, false));
                    let q = if single { '\'' } else { '"' };
                    out.push(q);
                    for (c, how) in &a.value {
                        // A carriage return, or a line feed after one, would be folded.
                        let must = matches!(c, '&' | '<') || *c == q || matches!(c, '\t' | '\n' | '\r') && *how != 0;
                        piece(out, *c, *how, must);
                    }
                    out.push(q);
                }
                out.push_str(space(style.0, false));
                if kids.is_empty() && style.2 {
                    out.push_str("/>");
                    return;
                }
                out.push('>');
                for k in kids {
                    k.write(out);
                }
                out.push_str("</");
                out.push_str(name);
                out.push_str(space(style.1, false));
                out.push('>');
            }
            N::Text(t) => {
                for (c, how) in t {
                    // `]]>` may not be in text, in whatever way the brackets got there.
                    let must = matches!(c, '&' | '<') || *c == '>' && out.ends_with(']');
                    piece(out, *c, *how, must);
                }
            }
            N::CData(d) => {
                out.push_str("<![CDATA[");
                out.push_str(d);
                out.push_str("]]>");
            }
            N::Comment(d) => {
                out.push_str("<!--");
                out.push_str(d);
                out.push_str("-->");
            }
            N::Pi(t, d, gap) => {
                out.push_str("<?");
                out.push_str(t);
                match d {
                    Some(d) => {
                        out.push_str(space(*gap, true));
                        out.push_str(d);
                    }
                    None => out.push_str(space(*gap, false)),
                }
                out.push_str("?>");
            }
        }
    }
}

impl Doc {
    pub fn write(&self) -> String {
        let mut out = String::new();
        let mut gaps = self.gaps.iter().cycle();
        let mut gap = || space(*gaps.next().unwrap_or(&0), false);
        if let Some(d) = &self.decl {
            let (quotes, spaces, around) = d.style;
            let mut parameter = |i: u8, name: &str, value: &str| {
                let q = if quotes >> i & 1 == 0 { '"' } else { '\'' };
                out.push_str(space(if spaces >> i & 1 == 0 { 1 } else { spaces >> 3 }, true));
                out.push_str(name);
                out.push_str(space(around & 7, false));
                out.push('=');
                out.push_str(space(around >> 3, false));
                out.push(q);
                out.push_str(value);
                out.push(q);
            };
            // (The tag itself comes first.)
            parameter(0, "version", if d.v11 { "1.1" } else { "1.0" });
            if let Some(e) = &d.encoding {
                parameter(1, "encoding", e);
            }
            if let Some(s) = d.standalone {
                parameter(2, "standalone", if s { "yes" } else { "no" });
            }
            out.insert_str(0, "<?xml");
            out.push_str(space(quotes >> 3, false));
            out.push_str("?>");
            out.push_str(gap());
        }
        // White space in front of a declaration would make it an instruction; there is none in front of
        // the document otherwise either.
        for n in &self.prolog {
            n.write(&mut out);
            out.push_str(gap());
        }
        self.root.write(&mut out);
        for n in &self.epilog {
            out.push_str(gap());
            n.write(&mut out);
        }
        out.push_str(gap());
        out
    }
}

// ------------------------------------------------------------------------------------------------ what it says

/// A tree to compare. Attributes are sorted; text that is nothing but white space is not there, and white
/// space at the ends of text is set aside; nor is an end of a value that is spaces.
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Elem(String, Vec<(String, String)>, Vec<S>),
    Text(String),
    CData(String),
    Comment(String),
    Pi(String, Option<String>),
}

pub fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

pub fn fold(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}

pub fn push_text(out: &mut Vec<S>, t: &str) {
    let t = t.trim_matches(is_space);
    if !t.is_empty() {
        out.push(S::Text(t.to_string()));
    }
}

/// Decode pieces; literal line ends are folded, and become spaces in a value.
fn decode(pieces: &[Piece], value: bool) -> String {
    let mut out = String::new();
    let mut after_cr = false;
    for (c, how) in pieces {
        let literal = matches!(how % 5, 0 | 3) && !(value && *how != 0);
        if is_space(*c) && literal {
            if *c == '\n' && after_cr {
                after_cr = false;
                continue;
            }
            after_cr = *c == '\r';
            out.push(match c {
                _ if value => ' ',
                '\r' => '\n',
                c => *c,
            });
        } else {
            after_cr = false;
            out.push(*c);
        }
    }
    out
}

pub fn expected(n: &N, out: &mut Vec<S>) {
    match n {
        N::Elem { name, attrs, kids, .. } => {
            let mut a: Vec<(String, String)> = attrs
                .iter()
                .map(|a| (a.name.clone(), decode(&a.value, true).trim_matches(' ').to_string()))
                .collect();
            a.sort();
            let mut k = vec![];
            let mut text: Vec<Piece> = vec![];
            for kid in kids {
                if let N::Text(t) = kid {
                    text.extend(t);
                } else {
                    push_text(&mut k, &decode(&std::mem::take(&mut text), false));
                    expected(kid, &mut k);
                }
            }
            push_text(&mut k, &decode(&text, false));
            out.push(S::Elem(name.clone(), a, k));
        }
        N::Text(_) => unreachable!("text stands in an element"),
        N::CData(d) => out.push(S::CData(fold(d))),
        N::Comment(d) => out.push(S::Comment(fold(d))),
        N::Pi(t, d, _) => out.push(S::Pi(t.clone(), d.as_deref().map(fold))),
    }
}

// ------------------------------------------------------------------------------------------------ what was read

pub fn unescape(v: &str) -> Result<String, String> {
    let mut out = String::new();
    let chars: Vec<char> = v.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        if chars[i] == '&' {
            let (c, n) = norm::char_ref(&chars[i..]).ok_or_else(|| format!("{v:?} has a bare ampersand"))?;
            out.push(c);
            i += n;
        } else {
            out.push(chars[i]);
            i += 1;
        }
    }
    Ok(out)
}

/// The children of a node of the crate, as a comparable tree; and that the links between them are right.
pub fn seen(n: &RefNode, doc: &RefNode) -> Result<Vec<S>, String> {
    let mut out = vec![];
    let mut text = String::new();
    let kids = n.child_nodes();
    let mut previous: Option<RefNode> = None;
    if n.first_child() != kids.first().cloned() || n.last_child() != kids.last().cloned() {
        return Err(format!("first or last child of {:?} is not so", n.node_name().to_string()));
    }
    for k in kids {
        if k.parent_node().as_ref() != Some(n) {
            return Err(format!("{:?} has another parent than the node it is in", k.node_name().to_string()));
        }
        if k.owner_document().as_ref() != Some(doc) {
            return Err(format!("{:?} belongs to another document", k.node_name().to_string()));
        }
        if k.previous_sibling() != previous {
            return Err(format!("{:?} has another previous sibling", k.node_name().to_string()));
        }
        previous = Some(k.clone());
        if k.node_type() == NodeType::Text {
            text.push_str(&k.node_value().unwrap_or_default());
            continue;
        }
        push_text(&mut out, &std::mem::take(&mut text));
        out.push(match k.node_type() {
            NodeType::Element => {
                let mut a = vec![];
                for (name, attr) in k.attributes() {
                    if name != attr.node_name() {
                        return Err(format!("attribute {name} says it is {}", attr.node_name()));
                    }
                    if attr.owner_document().as_ref() != Some(doc) {
                        return Err(format!("attribute {name} belongs to another document"));
                    }
                    let v = xml_dom::level2::convert::as_attribute(&attr)
                        .map_err(|e| format!("{e:?}"))?
                        .value()
                        .ok_or_else(|| format!("attribute {name} has no value"))?;
                    a.push((name.to_string(), unescape(&v)?));
                }
                a.sort();
                S::Elem(k.node_name().to_string(), a, seen(&k, doc)?)
            }
            NodeType::CData => S::CData(k.node_value().unwrap_or_default()),
            NodeType::Comment => S::Comment(k.node_value().unwrap_or_default()),
            NodeType::ProcessingInstruction => {
                S::Pi(k.node_name().to_string(), k.node_value().filter(|d| !d.is_empty()))
            }
            t => return Err(format!("a parsed document holds a {t:?}")),
        });
    }
    push_text(&mut out, &text);
    Ok(out)
}

pub type SeenDecl = Option<(String, Option<String>, Option<bool>)>;

pub fn seen_decl(doc: &RefNode) -> Result<SeenDecl, String> {
    let d = as_document_decl(doc).map_err(|e| format!("{e:?}"))?.xml_declaration();
    Ok(d.map(|d| (d.version().to_string(), d.encoding().clone(), d.standalone())))
}

// ------------------------------------------------------------------------------------------------ generators

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => gen::ncname(),
        2 => (gen::ncname(), gen::ncname()).prop_map(|(p, l)| format!("{p}:{l}")),
    ]
    .boxed()
}

fn attr_name() -> BoxedStrategy<String> {
    prop_oneof![
        12 => name(),
        2 => gen::ncname().prop_map(|p| format!("xmlns:{p}")),
        1 => prop::sample::select(&["xmlns", "xml:lang", "xml:space", "xml:id", "id"][..]).prop_map(String::from),
    ]
    .boxed()
}

fn pieces(max: usize) -> BoxedStrategy<Vec<Piece>> {
    let how = prop_oneof![6 => Just(0u8), 1 => 1u8..5];
    prop_oneof![
        4 => prop::collection::vec((gen::xml_char(), how.clone()), 0..=max),
        1 => prop::collection::vec((prop::sample::select(&[' ', '\t', '\n', '\r', 'a'][..]), how), 0..=max),
        1 => prop::sample::select(&["&lt;", "&#60;", "&amp;amp;", "]]>", "<a>", "<!--", "a;b&", "&#x;", "\r\n x \r\n"][..])
            .prop_map(|s| s.chars().map(|c| (c, 0)).collect()),
    ]
    .boxed()
}

/// A string of XML characters that does not hold `bad`, nor end with what would make it.
fn free_of(bad: &'static str, max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        4 => gen::string_of(gen::xml_char(), max),
        1 => gen::string_of(prop::sample::select(&['-', ']', '>', '?', '<', ' ', 'a', '[', '&'][..]).boxed(), max),
        1 => prop::sample::select(&["&lt;", "<a>x</a>", "</a>", "&#60;&amp;", " x ", "]]", "<![CDATA["][..]).prop_map(String::from),
    ]
    .prop_map(move |s| {
        let mut s = s.replace(bad, "");
        while s.contains(bad) || bad == "--" && s.ends_with('-') {
            if s.contains(bad) {
                s = s.replace(bad, "");
            } else {
                s.pop();
            }
        }
        s
    })
    .boxed()
}

fn comment() -> BoxedStrategy<N> {
    free_of("--", 12).prop_map(N::Comment).boxed()
}

fn pi() -> BoxedStrategy<N> {
    (
        name().prop_filter("reserved", |n| !n.to_ascii_lowercase().starts_with("xml")),
        prop::option::weighted(0.7, free_of("?>", 12)),
        0u8..8,
    )
        .prop_map(|(t, d, gap)| {
            let d = d
                .map(|d| d.trim_start_matches(is_space).to_string())
                .filter(|d| !d.is_empty());
            N::Pi(t, d, gap)
        })
        .boxed()
}

fn attrs() -> BoxedStrategy<Vec<Attr>> {
    prop::collection::vec(
        (attr_name(), pieces(10), (any::<bool>(), 0u8..8, prop_oneof![3 => Just(0u8), 1 => 0u8..64])),
        0..5,
    )
    .prop_map(|v| {
        let mut out: Vec<Attr> = vec![];
        for (name, value, style) in v {
            if !out.iter().any(|a| a.name == name) {
                out.push(Attr { name, value, style });
            }
        }
        out
    })
    .boxed()
}

fn elem(kids: BoxedStrategy<Vec<N>>) -> BoxedStrategy<N> {
    (
        name(),
        attrs(),
        kids,
        (prop_oneof![3 => Just(0u8), 1 => 0u8..8], prop_oneof![3 => Just(0u8), 1 => 0u8..8], any::<bool>()),
    )
        .prop_map(|(name, attrs, kids, style)| N::Elem { name, attrs, kids, style })
        .boxed()
}

fn node() -> BoxedStrategy<N> {
    let leaf = prop_oneof![
        4 => pieces(14).prop_map(N::Text),
        2 => free_of("]]>", 12).prop_map(N::CData),
        1 => comment(),
        1 => pi(),
    ];
    leaf.prop_recursive(5, 40, 6, |inner| elem(prop::collection::vec(inner, 0..6).boxed()))
        .boxed()
}

/// The values of `xml:id` have to differ within a document.
pub fn number_ids(n: &mut N, next: &mut u32) {
    if let N::Elem { attrs, kids, .. } = n {
        for a in attrs {
            if a.name == "xml:id" || a.name == "id" {
                a.value = format!("i{next}").chars().map(|c| (c, 0)).collect();
                *next += 1;
            }
        }
        for k in kids {
            number_ids(k, next);
        }
    }
}

pub fn document() -> BoxedStrategy<Doc> {
    let decl = (
        prop::bool::weighted(0.2),
        prop::option::of(prop::sample::select(&["UTF-8", "utf-8", "US-ASCII", "a", "x_1.2-3"][..]).prop_map(String::from)),
        prop::option::of(any::<bool>()),
        (any::<u8>(), any::<u8>(), prop_oneof![3 => Just(0u8), 1 => 0u8..64]),
    )
        .prop_map(|(v11, encoding, standalone, style)| Decl { v11, encoding, standalone, style });
    let misc = || prop::collection::vec(prop_oneof![comment(), pi()], 0..3);
    (
        prop::option::of(decl),
        misc(),
        elem(prop::collection::vec(node(), 0..6).boxed()),
        misc(),
        prop::collection::vec(0u8..8, 1..4),
    )
        .prop_map(|(decl, prolog, mut root, epilog, gaps)| {
            number_ids(&mut root, &mut 0);
            if decl.as_ref().map_or(false, |d| d.v11) {
                // These are line ends in XML 1.1.
                plain(&mut root);
            }
            Doc { decl, prolog, root, epilog, gaps }
        })
        .boxed()
}

fn plain(n: &mut N) {
    let is_end = |c: &char| matches!(c, '\u{85}' | '\u{2028}');
    match n {
        N::Elem { attrs, kids, .. } => {
            for a in attrs {
                a.value.retain(|(c, _)| !is_end(c));
            }
            kids.iter_mut().for_each(plain);
        }
        N::Text(t) => t.retain(|(c, _)| !is_end(c)),
        _ => {}
    }
}

/// A document with something large in it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeDoc {
    pub doc: Doc,
    /// What is large: children, depth, attributes, text, CDATA, a comment, an instruction, a value, a name, a run of
    /// white space, what is around the root.
    pub what: u8,
    pub n: usize,
    /// Below the root, between others.
    #[serde(default)]
    pub inside: bool,
}

pub fn large_document(most: usize) -> BoxedStrategy<LargeDoc> {
    (document(), 0u8..11, gen::length(most), prop::bool::weighted(0.4))
        .prop_map(|(doc, what, n, inside)| LargeDoc { doc, what, n, inside })
        .boxed()
}

impl LargeDoc {
    pub fn enlarge(&self) -> Doc {
        let mut d = self.doc.clone();
        let n = self.n;
        let v11 = d.decl.as_ref().map_or(false, |d| d.v11);
        let N::Elem { name, attrs, kids, .. } = &mut d.root else { return d };
        let first = |from: &[N], f: &dyn Fn(&N) -> Option<String>| from.iter().find_map(f).filter(|s| !s.is_empty());
        match self.what {
            0 => {
                let mut some = std::mem::take(kids);
                some.push(N::Elem { name: "e".into(), attrs: vec![], kids: vec![], style: (0, 0, n % 2 == 0) });
                *kids = some.into_iter().cycle().take(n.min(700)).collect();
            }
            1 => {
                let mut inner = std::mem::take(kids);
                for i in 0..n.min(300) {
                    // What else is at this level.
                    let what = (i * 7 + n) % 11;
                    let attrs = match what {
                        1 | 2 => vec![Attr { name: "k".into(), value: vec![('v', 0)], style: (true, 0, 0) }],
                        3 => vec![Attr { name: "xml:id".into(), value: vec![], style: (true, 0, 0) }],
                        _ => vec![],
                    };
                    let e = N::Elem { name: ["e", "p:f"][i % 2].into(), attrs, kids: inner, style: (0, 0, false) };
                    inner = match what {
                        2 | 4 => vec![N::Text(vec![('t', 0)]), e],
                        5 => vec![e, N::Text(vec![('u', 0)])],
                        6 => vec![e, N::Comment("c".into())],
                        7 => vec![N::CData("d".into()), e],
                        8 => vec![e, N::Pi("t".into(), Some("p".into()), 1)],
                        9 => vec![
                            N::Elem { name: "g".into(), attrs: vec![], kids: vec![], style: (0, 0, true) },
                            e,
                            N::Elem { name: "h".into(), attrs: vec![], kids: vec![], style: (0, 0, false) },
                        ],
                        _ => vec![e],
                    };
                }
                *kids = inner;
            }
            2 => {
                for i in 0..n.min(600) {
                    attrs.push(Attr {
                        name: format!("at{i}"),
                        value: format!("<{i}").chars().map(|c| (c, 0)).collect(),
                        style: (i % 2 == 0, 0, 0),
                    });
                }
            }
            3 => {
                let some: Vec<Piece> = kids
                    .iter()
                    .find_map(|k| match k {
                        N::Text(t) if !t.is_empty() => Some(t.clone()),
                        _ => None,
                    })
                    .unwrap_or(vec![('a', 0), ('&', 0), ('\u{1f600}', 1)]);
                kids.push(N::Comment("before".into()));
                kids.push(N::Text(some.into_iter().cycle().take(n).collect()));
            }
            4 => {
                let some = first(kids, &|k| if let N::CData(d) = k { Some(d.clone()) } else { None }).unwrap_or("a]&<".into());
                let mut long = gen::stretch(&some, n);
                while long.contains("]]>") {
                    long = long.replace("]]>", "]>");
                }
                kids.push(N::CData(long));
            }
            5 => {
                let some = first(kids, &|k| if let N::Comment(d) = k { Some(d.clone()) } else { None }).unwrap_or("a-<\u{e9}".into());
                let mut long = gen::stretch(&some, n);
                while long.contains("--") {
                    long = long.replace("--", "-");
                }
                if long.ends_with('-') {
                    long.push('.');
                }
                kids.push(N::Comment(long));
            }
            6 => {
                let mut long = gen::stretch("d ?\u{e9}<", n).replace("?>", "");
                if long.ends_with('?') {
                    long.push('.');
                }
                kids.push(N::Pi("t".into(), Some(long), 1));
            }
            7 => {
                let some = attrs.iter().find(|a| !a.value.is_empty()).map_or(vec![('v', 0), ('<', 0), (' ', 0)], |a| a.value.clone());
                attrs.push(Attr { name: "longest".into(), value: some.into_iter().cycle().take(n).collect(), style: (true, 0, 0) });
            }
            8 => {
                *name = gen::stretch(name, n).replace(':', ".");
                attrs.push(Attr { name: gen::stretch("n\u{e9}-", n), value: vec![('v', 0)], style: (true, 0, 0) });
            }
            9 => {
                let mut t: Vec<Piece> = std::iter::repeat((' ', 0)).take(n).collect();
                t.insert(0, ('a', 0));
                t.push(('b', 0));
                kids.push(N::Comment("before".into()));
                kids.push(N::Text(t));
            }
            _ => {
                d.prolog.push(N::Comment("c".into()));
                d.prolog = std::mem::take(&mut d.prolog).into_iter().cycle().take(n.min(600)).collect();
                d.epilog.push(N::Pi("t".into(), None, 0));
                d.epilog = std::mem::take(&mut d.epilog).into_iter().cycle().take(n.min(600)).collect();
            }
        }
        if self.inside {
            let element = |name: &str, kids: Vec<N>| N::Elem { name: name.into(), attrs: vec![], kids, style: (0, 0, false) };
            let mut big = element("w", vec![element("a", vec![])]);
            std::mem::swap(&mut d.root, &mut big);
            if let N::Elem { kids, .. } = &mut d.root {
                kids.push(big);
                kids.push(element("b", vec![N::Text(vec![('t', 0)])]));
            }
        }
        number_ids(&mut d.root, &mut 0);
        if v11 {
            plain(&mut d.root);
        }
        d
    }
}

//! Serialization (P05), read back with an independent reader.
use crate::real::{shape, Real};
use crate::world::*;
use common::gen;
use common::norm;
use common::runner::{Cov, Known, Outcome, Property, Sub};
use common::xml::{self, X};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::as_document_decl_mut;
use xml_dom::level2::ext::{XmlDecl, XmlVersion};
use xml_dom::level2::*;

// ------------------------------------------------------------------------------------------------ trees

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum T {
    /// Name, namespace, attributes (name, namespace, value), children.
    Elem(String, Option<String>, Vec<(String, Option<String>, Option<String>)>, Vec<T>),
    Text(Option<String>),
    CData(Option<String>),
    Comment(Option<String>),
    Pi(String, Option<String>),
    EntRef(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    pub decl: Option<(Option<String>, Option<bool>)>,
    /// Name and identifiers of a document type.
    #[serde(default)]
    pub doctype: Option<(String, Option<String>, Option<String>)>,
    pub prolog: Vec<T>,
    pub root: T,
    pub epilog: Vec<T>,
    /// How each node gets to its place and its content, cycled through.
    pub ways: Vec<u8>,
}

fn legal(max: usize) -> BoxedStrategy<String> {
    let markup = prop::sample::select(
        &["]]>", "<![CDATA[", "<!--", "-->", "<a>", "</a>", "<?p d?>", "&amp;", "&#60;", "&#x3c;", "&lt;", "\r\n", "\r", "\"", "'", "?>", "--", "<", "&", ">",
          "</root>", " a=\"b\"", "\u{85}", "\u{2028}", "<!DOCTYPE a>", "]]", "&#13;", "\t", "\n"][..],
    )
    .prop_map(String::from);
    prop::collection::vec(
        prop_oneof![
            3 => markup,
            3 => gen::string_of(gen::xml_char(), 4),
            1 => "[a-z ]{1,6}",
        ],
        0..=max,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

fn no_cr(s: String) -> String {
    s.replace('\r', "\n")
}

fn comment_text(s: String) -> String {
    let mut s = no_cr(s);
    while s.contains("--") {
        s = s.replace("--", "-");
    }
    if s.ends_with('-') {
        s.push('.');
    }
    s
}

fn cdata_text(s: String) -> String {
    let mut s = no_cr(s);
    while s.contains("]]>") {
        s = s.replace("]]>", "]>");
    }
    s
}

fn pi_text(s: String) -> String {
    let mut s = no_cr(s);
    while s.contains("?>") {
        s = s.replace("?>", ">");
    }
    s.trim_start_matches([' ', '\t', '\n']).to_string()
}

fn opt(s: BoxedStrategy<String>) -> BoxedStrategy<Option<String>> {
    prop::option::weighted(0.95, s).boxed()
}

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => gen::ncname(),
        1 => (gen::ncname(), gen::ncname()).prop_map(|(p, l)| format!("{p}:{l}")),
    ]
    .boxed()
}

fn target() -> BoxedStrategy<String> {
    prop_oneof![4 => name(), 1 => pool(&["xml-stylesheet", "xmlx", "php", "XMLish"])]
        .prop_filter("reserved", |n| !n.eq_ignore_ascii_case("xml"))
        .boxed()
}

fn comment() -> BoxedStrategy<T> {
    opt(legal(5).prop_map(comment_text).boxed()).prop_map(T::Comment).boxed()
}

fn pi() -> BoxedStrategy<T> {
    (target(), prop::option::weighted(0.8, legal(5).prop_map(pi_text)))
        .prop_map(|(t, d)| T::Pi(t, d))
        .boxed()
}

fn entity_name() -> BoxedStrategy<String> {
    name()
        .prop_filter("predefined", |n| !["amp", "lt", "gt", "apos", "quot"].contains(&n.as_str()))
        .boxed()
}

fn attrs() -> BoxedStrategy<Vec<(String, Option<String>, Option<String>)>> {
    let value = prop_oneof![
        3 => legal(5),
        1 => crate::values::raw_value(),
    ]
    .prop_filter("legal", |v| norm::attribute_value_unescaped(v).chars().all(xml::is_xml_char))
    .boxed();
    let ordinary = (name(), prop::option::weighted(0.3, pool(&["urn:1", "urn:2", "http://a/b?c=d"]))).prop_map(|(n, ns)| (n, ns));
    let special = prop_oneof![
        Just(("xml:lang".to_string(), Some(XML_NS.to_string()))),
        Just(("xml:space".to_string(), None)),
        Just(("xmlns".to_string(), None)),
        Just(("xmlns".to_string(), Some(XMLNS_NS.to_string()))),
        Just(("xmlns:p".to_string(), Some(XMLNS_NS.to_string()))),
        Just(("id".to_string(), None)),
    ];
    prop::collection::vec((prop_oneof![8 => ordinary, 1 => special], opt(value)), 0..5)
        .prop_map(|v| {
            // One attribute per name, and per local name: which one displaces which is another matter.
            let mut out: Vec<(String, Option<String>, Option<String>)> = vec![];
            for ((n, ns), value) in v {
                let local = norm::split_qname(&n).1;
                if !out.iter().any(|(m, _, _)| *m == n || norm::split_qname(m).1 == local) {
                    out.push((n, ns, value));
                }
            }
            out
        })
        .boxed()
}

fn elem_of(kids: BoxedStrategy<Vec<T>>) -> BoxedStrategy<T> {
    (name(), prop::option::weighted(0.3, pool(&["urn:1", "urn:2"])), attrs(), kids)
        .prop_map(|(n, ns, a, k)| T::Elem(n, ns, a, k))
        .boxed()
}

fn leaf() -> BoxedStrategy<T> {
    prop_oneof![
        6 => opt(legal(6)).prop_map(T::Text),
        2 => opt(legal(6).prop_map(cdata_text).boxed()).prop_map(T::CData),
        2 => comment(),
        2 => pi(),
        1 => entity_name().prop_map(T::EntRef),
    ]
    .boxed()
}

const IDENTIFIERS: &[&str] = &["-//W3C//DTD XHTML 1.0//EN", "http://x.org/a?b=c&d=e", "", "it's", "<x>", "[", "SYSTEM 'x'", "]>"];

fn build_case() -> BoxedStrategy<Build> {
    let node = prop_oneof![3 => leaf(), 1 => elem_of(Just(vec![]).boxed())]
        .prop_recursive(5, 50, 7, |inner| elem_of(prop::collection::vec(inner, 0..7).boxed()));
    let misc = || prop::collection::vec(prop_oneof![comment(), pi()], 0..4);
    (
        prop::option::weighted(
            0.4,
            (
                prop::option::of(pool(&["UTF-8", "utf-8", "ISO-8859-1", "x", "A_b.c-9"])),
                prop::option::of(any::<bool>()),
            ),
        ),
        prop::option::weighted(0.3, (gen::ncname(), prop::option::of(pool(IDENTIFIERS)), prop::option::of(pool(IDENTIFIERS)))),
        misc(),
        elem_of(prop::collection::vec(node, 0..8).boxed()),
        misc(),
        prop::collection::vec(any::<u8>(), 1..12),
    )
        .prop_map(|(decl, doctype, prolog, root, epilog, ways)| Build { decl, doctype, prolog, root, epilog, ways })
        .boxed()
}

/// A document with something large in it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    pub build: Build,
    /// What is large: children, depth, attributes, character data, an attribute value, a name, what is around the root.
    pub what: u8,
    pub n: usize,
}

fn large_case() -> BoxedStrategy<Large> {
    (build_case(), 0u8..7, gen::length(70_000))
        .prop_map(|(build, what, n)| Large { build, what, n })
        .boxed()
}

fn longer(t: &mut [T], n: usize) -> bool {
    for t in t {
        let done = match t {
            T::Elem(_, _, _, kids) => longer(kids, n),
            T::Text(Some(d)) if !d.is_empty() => {
                *d = gen::stretch(d, n);
                true
            }
            T::CData(Some(d)) if !d.is_empty() => {
                *d = cdata_text(gen::stretch(d, n));
                true
            }
            T::Comment(Some(d)) if !d.is_empty() => {
                *d = comment_text(gen::stretch(d, n));
                true
            }
            T::Pi(_, Some(d)) if !d.is_empty() => {
                *d = pi_text(gen::stretch(d, n));
                true
            }
            _ => false,
        };
        if done {
            return true;
        }
    }
    false
}

fn enlarge(c: &Large) -> Build {
    let mut b = c.build.clone();
    let n = c.n;
    let T::Elem(name, _, attrs, kids) = &mut b.root else { return b };
    match c.what {
        0 => {
            if kids.is_empty() {
                kids.push(T::Elem("e".into(), None, vec![], vec![]));
                kids.push(T::Text(Some("<".into())));
            }
            *kids = std::mem::take(kids).into_iter().cycle().take(n.min(700)).collect();
        }
        1 => {
            let mut inner = std::mem::take(kids);
            for i in 0..n.min(300) {
                let t = T::Text(Some("&".into()));
                let e = T::Elem(["e", "p:f"][i % 2].into(), None, vec![], inner);
                inner = if i % 5 == 0 { vec![t, e] } else { vec![e] };
            }
            *kids = inner;
        }
        2 => {
            for i in 0..n.min(600) {
                attrs.push((format!("at{i}"), None, Some(format!("<{i}"))));
            }
        }
        3 => {
            if !longer(kids, n) {
                kids.push(T::Text(Some(gen::stretch("a<b&\u{e9}\u{1f600}]]>", n))));
            }
        }
        4 => {
            let v = attrs.iter().find_map(|a| a.2.clone().filter(|v| !v.is_empty())).unwrap_or("x\"<&#38;>'".into());
            // References may be cut, and be text then, but not join to become something XML does not allow.
            let v = gen::stretch(&v, n);
            if norm::attribute_value_unescaped(&v).chars().all(xml::is_xml_char) {
                attrs.push(("longest".into(), None, Some(v)));
            }
        }
        5 => *name = gen::stretch(name, n).replace(':', "."),
        _ => {
            b.prolog = std::mem::take(&mut b.prolog).into_iter().chain([T::Comment(None), T::Pi("t".into(), None)]).cycle().take(n.min(600)).collect();
            b.epilog = std::mem::take(&mut b.epilog).into_iter().cycle().take(n.min(600)).collect();
        }
    }
    b
}

fn built_large(c: &Large, cov: &mut Cov) -> Outcome {
    cov.hit(["wide", "deep", "attributes", "data", "value", "name", "around the root"][c.what as usize % 7]);
    if c.n > 255 {
        cov.hit("more than 255");
    }
    cov.nontrivial();
    built(&enlarge(c), cov)
}

struct Builder<'a> {
    doc: RefNode,
    ways: &'a [u8],
    at: usize,
}

type R<V> = std::result::Result<V, String>;

fn es(e: Error) -> String {
    format!("{e:?}")
}

impl Builder<'_> {
    fn way(&mut self, n: u8) -> u8 {
        let w = self.ways[self.at % self.ways.len()];
        self.at += 1;
        w % n
    }

    fn chars(&mut self, mut n: RefNode, data: &Option<String>) -> R<RefNode> {
        let Some(d) = data else {
            let t = as_character_data_mut(&mut n).map_err(es)?;
            t.append_data("gone").map_err(es)?;
            t.unset_data().map_err(es)?;
            return Ok(n);
        };
        match self.way(4) {
            0 | 1 if n.node_value().as_deref() == Some(d) => {}
            0 => as_character_data_mut(&mut n).map_err(es)?.set_data(d).map_err(es)?,
            1 => n.set_node_value(d).map_err(es)?,
            2 => {
                let t = as_character_data_mut(&mut n).map_err(es)?;
                t.set_data("<old>").map_err(es)?;
                t.replace_data(0, 5, d).map_err(es)?;
            }
            _ => {
                let t = as_character_data_mut(&mut n).map_err(es)?;
                t.unset_data().map_err(es)?;
                t.append_data(d).map_err(es)?;
                if d.is_empty() {
                    t.set_data("").map_err(es)?;
                }
            }
        }
        Ok(n)
    }

    fn place(&mut self, parent: &mut RefNode, node: RefNode) -> Outcome {
        match self.way(4) {
            0 => {
                // First to another place.
                if let Some(mut first) = parent.first_child().filter(|f| is_element(f) && f != &node) {
                    let _ = first.append_child(node.clone());
                }
                parent.append_child(node).map_err(es)?;
            }
            1 => {
                parent.insert_before(node, None).map_err(es)?;
            }
            2 if !is_document(parent) => {
                let stub = as_document(&self.doc).map_err(es)?.create_comment("stub");
                parent.append_child(stub.clone()).map_err(es)?;
                parent.replace_child(node, stub).map_err(es)?;
            }
            _ => {
                parent.append_child(node).map_err(es)?;
            }
        }
        Ok(())
    }

    fn attr(&mut self, el: &mut RefNode, n: &str, ns: &Option<String>, value: &Option<String>) -> Outcome {
        let dn = self.doc.clone();
        let doc = as_document(&dn).map_err(es)?;
        let Some(v) = value else {
            let a = match ns {
                None => doc.create_attribute(n),
                Some(ns) => doc.create_attribute_ns(ns, n),
            }
            .map_err(es)?;
            as_element_mut(el).map_err(es)?.set_attribute_node(a).map_err(es)?;
            return Ok(());
        };
        match (self.way(3), ns) {
            (0, None) => as_element_mut(el).map_err(es)?.set_attribute(n, v).map_err(es)?,
            (0, Some(ns)) => as_element_mut(el).map_err(es)?.set_attribute_ns(ns, n, v).map_err(es)?,
            (w, ns) => {
                let mut a = match ns {
                    None => doc.create_attribute(n),
                    Some(ns) => doc.create_attribute_ns(ns, n),
                }
                .map_err(es)?;
                if w == 1 {
                    as_attribute_mut(&mut a).map_err(es)?.set_value(v).map_err(es)?;
                } else {
                    let mut cut = v.len() / 2;
                    while !v.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    for p in [&v[..cut], &v[cut..]] {
                        a.append_child(doc.create_text_node(p)).map_err(es)?;
                    }
                }
                as_element_mut(el).map_err(es)?.set_attribute_node(a).map_err(es)?;
            }
        }
        Ok(())
    }

    fn node(&mut self, t: &T) -> R<RefNode> {
        let dn = self.doc.clone();
        let doc = as_document(&dn).map_err(es)?;
        match t {
            T::Elem(n, ns, attrs, kids) => {
                let mut el = match ns {
                    None => doc.create_element(n),
                    Some(ns) => doc.create_element_ns(ns, n),
                }
                .map_err(es)?;
                for (n, ns, v) in attrs {
                    self.attr(&mut el, n, ns, v).map_err(|e| format!("attribute {n} {ns:?} {v:?}: {e}"))?;
                }
                for k in kids {
                    let k = self.node(k)?;
                    self.place(&mut el, k)?;
                }
                Ok(el)
            }
            T::Text(d) => {
                let n = doc.create_text_node(d.as_deref().unwrap_or(""));
                self.chars(n, d)
            }
            T::CData(d) => {
                let n = doc.create_cdata_section(d.as_deref().unwrap_or("")).map_err(es)?;
                self.chars(n, d)
            }
            T::Comment(d) => {
                let n = doc.create_comment(d.as_deref().unwrap_or(""));
                self.chars(n, d)
            }
            T::Pi(t, d) => {
                let mut n = if self.way(2) == 0 {
                    doc.create_processing_instruction(t, d.as_deref()).map_err(es)?
                } else {
                    doc.create_processing_instruction(t, Some("<before>")).map_err(es)?
                };
                let pi = as_processing_instruction_mut(&mut n).map_err(es)?;
                match d {
                    Some(d) => pi.set_data(d).map_err(es)?,
                    None => pi.unset_data().map_err(es)?,
                }
                Ok(n)
            }
            T::EntRef(n) => doc.create_entity_reference(n).map_err(es),
        }
    }
}

/// What a reader has to find: adjacent text is one, nothing is printed for data that is not there.
fn expected(t: &[T]) -> Vec<X> {
    let mut out = vec![];
    for t in t {
        match t {
            T::Elem(n, _, a, kids) => {
                let mut a: Vec<(String, String)> = a
                    .iter()
                    .map(|(n, _, v)| (n.clone(), norm::attribute_value_unescaped(v.as_deref().unwrap_or(""))))
                    .collect();
                a.sort();
                out.push(X::Elem(n.clone(), a, expected(kids)));
            }
            T::Text(d) => push_text(&mut out, d.as_deref().unwrap_or("")),
            T::CData(Some(d)) => out.push(X::CData(padded(d))),
            T::Comment(Some(d)) => out.push(X::Comment(d.clone())),
            T::CData(None) | T::Comment(None) => {}
            T::Pi(t, d) => out.push(X::Pi(t.clone(), d.clone().filter(|d| !d.is_empty()))),
            T::EntRef(n) => out.push(X::EntityRef(n.clone())),
        }
    }
    out
}

/// The crate prints CDATA with one space on each side (see the known finding).
fn padded(d: &str) -> String {
    format!(" {d} ")
}

fn push_text(out: &mut Vec<X>, t: &str) {
    if t.is_empty() {
        return;
    }
    match out.last_mut() {
        Some(X::Text(last)) => last.push_str(t),
        _ => out.push(X::Text(t.to_string())),
    }
}

fn sorted(xs: Vec<X>) -> Vec<X> {
    xs.into_iter()
        .map(|x| match x {
            X::Elem(n, mut a, k) => {
                a.sort();
                X::Elem(n, a, sorted(k))
            }
            x => x,
        })
        .collect()
}

/// What the text of each node of a tree is made of.
fn parts(n: &RefNode) -> Outcome {
    let text = n.to_string();
    let inner: String = n.child_nodes().iter().map(|c| c.to_string()).collect();
    match kind_of(n) {
        Kind::Elem => {
            let name = n.node_name().to_string();
            let mut rest = text
                .strip_prefix(&format!("<{name}"))
                .and_then(|t| t.strip_suffix(&format!("{inner}</{name}>")))
                .and_then(|t| t.strip_suffix('>'))
                .ok_or_else(|| format!("{text:?} is not made of a tag {name:?}, the text of the children {inner:?}, and an end tag"))?
                .to_string();
            for a in n.attributes().values() {
                let a = format!(" {a}");
                if !rest.contains(&a) {
                    return Err(format!("attribute {a:?} is not in {rest:?}"));
                }
                rest = rest.replacen(&a, "", 1);
            }
            if !rest.is_empty() {
                return Err(format!("{rest:?} in {text:?} is no attribute"));
            }
        }
        Kind::Doc => {
            if !text.ends_with(&inner) {
                return Err(format!("{text:?} does not end with the text of the children {inner:?}"));
            }
        }
        _ => {}
    }
    if kind_of(n) != Kind::EntRef {
        for c in n.child_nodes() {
            parts(&c)?;
        }
    }
    Ok(())
}

fn built(c: &Build, cov: &mut Cov) -> Outcome {
    let mut doc_node = match &c.doctype {
        None => new_document(None, false, c.ways[0] % 2 == 0),
        Some((name, public, system)) => {
            let i = get_implementation();
            let t = i.create_document_type(name, public.as_deref(), system.as_deref()).map_err(es)?;
            i.create_document(None, None, Some(t)).map_err(es)?
        }
    };
    if let Some((enc, alone)) = &c.decl {
        as_document_decl_mut(&mut doc_node)
            .map_err(es)?
            .set_xml_declaration(XmlDecl::new(XmlVersion::V10, enc.clone(), *alone))
            .map_err(es)?;
    }
    let mut b = Builder { doc: doc_node.clone(), ways: &c.ways, at: 0 };
    let mut all: Vec<T> = c.prolog.clone();
    all.push(c.root.clone());
    all.extend(c.epilog.iter().cloned());
    let mut tops = vec![];
    for t in &all {
        let n = b.node(t)?;
        b.place(&mut doc_node, n.clone())?;
        tops.push(n);
    }
    let before = shape(&doc_node, true);
    let text = doc_node.to_string();
    let read = xml::read_document(&text, true).map_err(|e| format!("{text:?} is not well-formed: {e}"))?;
    let want = expected(&all);
    let got = sorted(read.children);
    if got != want {
        return Err(format!("{text:?}\nreads as {got:?}\n  built as {want:?}"));
    }
    let decl = read.decl.map(|d| (d.version, d.encoding, d.standalone));
    let want_decl = c
        .decl
        .as_ref()
        .map(|(e, s)| ("1.0".to_string(), e.clone(), s.map(|s| if s { "yes" } else { "no" }.to_string())));
    if decl != want_decl {
        return Err(format!("{text:?} has the declaration {decl:?}, not {want_decl:?}"));
    }
    let doctype = read.doctype.map(|d| (d.name, d.public_id, d.system_id));
    if doctype != c.doctype {
        return Err(format!("{text:?} has the document type {doctype:?}, not {:?}", c.doctype));
    }
    // Every node on its own.
    for (n, t) in tops.iter().zip(&all) {
        let one = n.to_string();
        let got = sorted(xml::read_content(&one).map_err(|e| format!("{one:?}: {e}"))?);
        let want = expected(std::slice::from_ref(t));
        if got != want {
            return Err(format!("{one:?} reads as {got:?}, not {want:?}"));
        }
    }
    parts(&doc_node)?;
    if doc_node.to_string() != text || doc_node.clone().to_string() != text {
        return Err("printing twice gives two texts".into());
    }
    if shape(&doc_node, true) != before {
        return Err("printing changed the tree".into());
    }
    // The document without its nodes, one by one; what remains is what stands before them.
    if tops.len() < 8 {
        let mut left = text;
        for (i, n) in tops.iter().enumerate() {
            let own = n.to_string();
            let at = left.len() - tops[i..].iter().map(|n| n.to_string().len()).sum::<usize>();
            left.replace_range(at..at + own.len(), "");
            doc_node.remove_child(n.clone()).map_err(es)?;
            if doc_node.to_string() != left || n.to_string() != own {
                return Err(format!("without {own:?} the document is {:?}, not {left:?}", doc_node.to_string()));
            }
        }
    }
    let mut found = Found::default();
    found.look(&all, 0);
    if found.markup_text {
        cov.hit("markup in text");
    }
    if found.markup_attr {
        cov.hit("markup in an attribute value");
    }
    if found.deep >= 3 {
        cov.hit("three levels or more");
    }
    if found.markup_text && found.markup_attr && found.deep >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Default)]
struct Found {
    markup_text: bool,
    markup_attr: bool,
    deep: usize,
}

impl Found {
    fn look(&mut self, t: &[T], depth: usize) {
        let markup = |s: &str| s.contains(['<', '&', '>', '"']);
        for t in t {
            match t {
                T::Elem(_, _, a, k) => {
                    self.deep = self.deep.max(depth + 1);
                    self.markup_attr |= a.iter().any(|(_, _, v)| v.as_deref().map_or(false, markup));
                    self.look(k, depth + 1);
                }
                T::Text(Some(d)) => self.markup_text |= markup(d),
                _ => {}
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ histories

/// Content that stays legal in every kind of node, however it is cut and joined.
fn safe_text() -> BoxedStrategy<String> {
    prop::collection::vec(
        prop::sample::select(&['a', 'b', '<', '&', '>', '"', '\'', '#', ';', '\u{e9}', '\u{1f600}', '[', '='][..]),
        0..6,
    )
    .prop_map(|v| v.into_iter().collect())
    .boxed()
}

const PRINT: Focus = Focus {
    create: 26,
    tree: 40,
    attr: 14,
    text: 14,
    norm: 3,
    clone: 4,
    value: 6,
    odd: 2,
    max: 50,
    min: 5,
    values: safe_text,
    ..BALANCED
};

/// A tree of the crate as a reader should find it, by its own accessors.
fn seen(n: &RefNode, out: &mut Vec<X>) -> Outcome {
    match kind_of(n) {
        Kind::Elem => {
            let mut a = vec![];
            for (name, attr) in n.attributes() {
                let mut raw = String::new();
                for c in attr.child_nodes() {
                    if is_text(&c) {
                        raw.push_str(&c.node_value().unwrap_or_default());
                    }
                }
                a.push((name.to_string(), norm::attribute_value_unescaped(&raw)));
            }
            a.sort();
            let mut k = vec![];
            for c in n.child_nodes() {
                seen(&c, &mut k)?;
            }
            out.push(X::Elem(n.node_name().to_string(), a, k));
        }
        Kind::Text => push_text(out, &n.node_value().unwrap_or_default()),
        Kind::CData => out.extend(n.node_value().map(|d| X::CData(padded(&d)))),
        Kind::Comment => out.extend(n.node_value().map(X::Comment)),
        Kind::Pi => out.push(X::Pi(n.node_name().to_string(), n.node_value().filter(|d| !d.is_empty()))),
        Kind::EntRef => out.push(X::EntityRef(n.node_name().to_string())),
        Kind::Doc => {
            for c in n.child_nodes() {
                seen(&c, out)?;
            }
        }
        k => return Err(format!("{k:?} in a tree")),
    }
    Ok(())
}

fn edited(h: &History, cov: &mut Cov) -> Outcome {
    let mut r = Real::new(&h.setup);
    let mut edits = 0;
    for op in &h.ops() {
        if r.nodes.len() > 120 && matches!(op, Op::Create { .. } | Op::Clone { .. }) {
            continue;
        }
        let Some(call) = resolve(&r, op) else { continue };
        if crate::real::out_of_domain(&r, &call) {
            continue;
        }
        let got = perform(&|i| r.nodes[i].clone(), &call);
        if let Ok(Some(n)) = &got {
            r.learn(n);
        }
        r.learn_all();
        edits += (got.is_ok() && !matches!(call, Call::Create { .. })) as usize;
    }
    for n in &r.nodes {
        let k = kind_of(n);
        if !matches!(k, Kind::Doc | Kind::Elem | Kind::Text | Kind::CData | Kind::Comment | Kind::Pi | Kind::EntRef) {
            continue;
        }
        if k != Kind::Doc && n.parent_node().is_some() {
            continue;
        }
        let before = shape(n, true);
        let text = n.to_string();
        let mut want = vec![];
        seen(n, &mut want)?;
        let got = if k == Kind::Doc {
            xml::read_maybe_empty_document(&text, false).map(|d| d.children)
        } else {
            xml::read_content(&text)
        };
        let got = sorted(got.map_err(|e| format!("{text:?}: {e}"))?);
        if got != want {
            return Err(format!("{text:?}\nreads as {got:?}\n  the tree is {want:?}"));
        }
        parts(n)?;
        if shape(n, true) != before || n.to_string() != text {
            return Err("printing changed the tree".into());
        }
        if matches!(&want[..], [X::Elem(_, a, kids)] if !a.is_empty() && kids.len() > 1) && edits > 3 {
            cov.nontrivial();
            cov.hit("element with attributes and children");
        }
    }
    Ok(())
}

fn pads_cdata() -> bool {
    let d = new_document(Some("r"), false, true);
    let doc = as_document(&d).unwrap();
    doc.document_element().unwrap().append_child(doc.create_cdata_section("d").unwrap()).unwrap();
    d.to_string() == "<r><![CDATA[ d ]]></r>"
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P05",
        subs: vec![
            Box::new(Sub {
                name: "built",
                quick: 90_000,
                thorough: 2_000_000,
                rule: "text and an attribute value hold markup characters, and elements are nested",
                strategy: build_case,
                run: built,
            }),
            Box::new(Sub {
                name: "large",
                quick: 1_600,
                thorough: 60_000,
                rule: "every case: there are many nodes, levels or attributes, or a long string",
                strategy: large_case,
                run: built_large,
            }),
            Box::new(Sub {
                name: "edited",
                quick: 48_000,
                thorough: 1_000_000,
                rule: "after more than three edits some element has attributes and two or more children",
                strategy: || history(PRINT),
                run: edited,
            }),
        ],
        known: vec![Known {
            id: "cdata-padding",
            what: "a CDATA section holding \"d\" is printed as <![CDATA[ d ]]>, which reads back as \" d \"",
            crash: false,
            witness: pads_cdata,
        }],
        assumptions: vec![
            "XML 1.0 documents; comments without --, CDATA without ]]>, instructions without ?> or leading space, none of them with a carriage return",
            "attribute values are compared as read (references decoded, white space normalized)",
            "entity references that are not one of the five predefined",
            "trees of at most 700 nodes or 300 levels, data of at most 70 000 characters",
        ],
    }]
}

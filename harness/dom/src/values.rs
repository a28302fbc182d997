//! Attribute values (P07) and character data (P08).
use crate::model::{char_op, splice, utf16};
use crate::world::*;
use common::gen;
use common::norm;
use common::runner::{Cov, Outcome, Property, Sub};
use common::xml::{self, X};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::as_document_decl_mut;
use xml_dom::level2::ext::{XmlDecl, XmlVersion};
use xml_dom::level2::*;

// ------------------------------------------------------------------------------------------------ P07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Value {
    pub raw: String,
    /// What the attribute held before.
    pub before: Option<String>,
    /// Where to cut the value into text children (char positions, modulo).
    pub cuts: Vec<u16>,
    /// Whether to put an entity reference node between the children.
    pub refs: bool,
    pub name: u8,
    /// Bits: no namespaces are kept, a declaration (1.0, or 1.1), elements in the tree, in a fragment, with
    /// other attributes; what the attribute held before is in several children; it is set while an element has
    /// the attribute.
    #[serde(default)]
    pub context: u8,
}

const VALUE_NAMES: &[&str] = &["a", "x:a", "b-c.d", "\u{e9}", "xmlns:p", "xmlns"];

fn reference() -> BoxedStrategy<String> {
    let code = prop_oneof![
        4 => prop::sample::select(gen::SPECIAL).prop_map(|c| c as u64),
        2 => 0u64..0x100,
        2 => 0u64..0x11_0100,
        1 => 0xD7F0u64..0xE010,
        1 => prop::sample::select(&[0u64, 9, 10, 13, 0x20, 0x85, 0x2028, 0xD800, 0xDFFF, 0xFFFE, 0xFFFF, 0x10FFFF, 0x110000,
            0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0041, u64::MAX][..]),
    ];
    let zeros = prop_oneof![5 => Just(0usize), 1 => 1usize..4, 1 => Just(30)];
    let good = (code, any::<bool>(), zeros, 0u8..5).prop_map(|(n, hex, zeros, case)| {
        let z = "0".repeat(zeros);
        if hex {
            match case {
                0 => format!("&#x{z}{n:x};"),
                1 => format!("&#x{z}{n:X};"),
                2 | 3 => format!("&#x{z}{n:x};"),
                // Digits of both cases.
                _ => format!("&#x{z}{};", format!("{n:x}").char_indices().map(|(i, c)| if i % 2 == 0 { c } else { c.to_ascii_uppercase() }).collect::<String>()),
            }
        } else {
            format!("&#{z}{n};")
        }
    });
    let bad = prop::sample::select(
        &["&#;", "&#x;", "&;", "&", "&#", "&#x", "&#65", "&#x41", "&#X41;", "&#xG;", "&#4x1;", "&# 65;", "&#65 ;", "&#-1;",
          "&#+1;", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&unknown;", "&a.b-c_1;", "%pe;", "&\u{e9};", "&a", "&a b;",
          "&#38;#38;", "&#38;amp;", "&#x26;lt;", "&#38;#60;", "&&#65;", "&#&#65;;", "&#6\u{660};", "&#\u{660};", "&#\u{1d7ce}1;", "&#x\u{ff21};",
          "&#99999999999999999999999999;", "&#xffffffffffffffffffffffff;"][..],
    )
    .prop_map(String::from);
    prop_oneof![3 => good, 2 => bad].boxed()
}

fn piece() -> BoxedStrategy<String> {
    prop_oneof![
        4 => reference(),
        3 => gen::string_of(gen::any_char(), 5),
        2 => prop::sample::select(&["\r\n", "\r\u{85}", "\r", "\n", "\t", " ", "  ", "\u{85}", "\u{2028}", "\r\r\n", "\n\r", "\r&#10;", "&#13;\n"][..])
            .prop_map(String::from),
        1 => "[a-z]{1,6}",
    ]
    .boxed()
}

pub fn raw_value() -> BoxedStrategy<String> {
    prop_oneof![
        8 => prop::collection::vec(piece(), 0..6).prop_map(|v| v.concat()),
        1 => gen::string_of(gen::any_char(), 40),
        1 => prop::collection::vec(piece(), 6..60).prop_map(|v| v.concat()),
    ]
    .boxed()
}

fn value_case() -> BoxedStrategy<Value> {
    (
        raw_value(),
        prop::option::weighted(0.5, raw_value()),
        prop::collection::vec(any::<u16>(), 0..5),
        any::<bool>(),
        0u8..VALUE_NAMES.len() as u8,
        prop_oneof![1 => Just(0u8), 1 => any::<u8>()],
    )
        .prop_map(|(raw, before, cuts, refs, name, context)| Value { raw, before, cuts, refs, name, context })
        .boxed()
}

/// A value of some length, in many pieces.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongValue {
    pub value: Value,
    pub chars: usize,
    pub pieces: u16,
}

fn long_value_case() -> BoxedStrategy<LongValue> {
    (value_case(), gen::length(20_000), prop_oneof![2 => 0u16..6, 1 => 6u16..600])
        .prop_map(|(value, chars, pieces)| LongValue { value, chars, pieces })
        .boxed()
}

fn p07_long(c: &LongValue, cov: &mut Cov) -> Outcome {
    let raw = gen::stretch(&c.value.raw, c.chars);
    let n = raw.chars().count();
    if n > 255 {
        cov.hit("more than 255 characters");
    }
    if c.pieces > 255 {
        cov.hit("more than 255 pieces");
    }
    let cuts = (0..c.pieces as usize).map(|k| (k * n / (c.pieces as usize + 1)) as u16).collect();
    p07(&Value { raw, cuts, ..c.value.clone() }, cov)
}

fn cut(raw: &str, cuts: &[u16]) -> Vec<String> {
    let chars: Vec<char> = raw.chars().collect();
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (chars.len() + 1)).collect();
    at.sort();
    let mut parts = vec![];
    let mut from = 0;
    for a in at {
        parts.push(chars[from..a].iter().collect());
        from = a;
    }
    parts.push(chars[from..].iter().collect());
    parts
}

fn p07(c: &Value, cov: &mut Cov) -> Outcome {
    let name = VALUE_NAMES[c.name as usize % VALUE_NAMES.len()];
    let (_, local) = norm::split_qname(name);
    let want = norm::attribute_value(&c.raw);
    let plain = norm::attribute_value_unescaped(&c.raw);
    let e = |e: Error| format!("{e:?}");
    let bit = |k: u8| c.context >> k & 1 == 1;
    let uri = if name.starts_with("xmlns") { crate::world::XMLNS_NS } else { "urn:1" };
    let mut doc_node = new_document(Some("root"), false, !bit(0));
    if bit(1) {
        let version = if bit(2) { XmlVersion::V11 } else { XmlVersion::V10 };
        as_document_decl_mut(&mut doc_node)
            .map_err(e)?
            .set_xml_declaration(XmlDecl::new(version, None, None))
            .map_err(e)?;
    }
    let doc = as_document(&doc_node).map_err(e)?;
    let root = doc.document_element().ok_or("no root")?;
    // Where the elements are that have the attribute, and what else they have.
    let element = || -> std::result::Result<RefNode, String> {
        let mut el = doc.create_element("e").map_err(e)?;
        if bit(3) {
            root.clone().append_child(el.clone()).map_err(e)?;
        } else if bit(4) {
            doc.create_document_fragment().map_err(e)?.append_child(el.clone()).map_err(e)?;
        }
        if bit(5) {
            let el = as_element_mut(&mut el).map_err(e)?;
            for other in ["A", "y:a", "aa", "z"] {
                el.set_attribute(other, "other").map_err(e)?;
            }
        }
        Ok(el)
    };

    // Every way of putting the value into an attribute.
    let mut made: Vec<(&'static str, RefNode)> = vec![];
    let attr = doc.create_attribute_with(name, &c.raw).map_err(e)?;
    made.push(("create_attribute_with", attr));

    let mut owners = vec![];
    let mut fresh = |ns: bool| -> std::result::Result<RefNode, String> {
        let a = match &c.before {
            Some(b) if !ns && !bit(6) => doc.create_attribute_with(name, b).map_err(e),
            Some(b) if bit(6) => {
                let mut a = if ns { doc.create_attribute_ns(uri, name) } else { doc.create_attribute(name) }.map_err(e)?;
                for p in cut(b, &c.cuts) {
                    a.append_child(doc.create_text_node(&p)).map_err(e)?;
                    if c.refs {
                        a.append_child(doc.create_entity_reference("lt").map_err(e)?).map_err(e)?;
                    }
                }
                Ok(a)
            }
            before => {
                let mut a = if ns { doc.create_attribute_ns(uri, name) } else { doc.create_attribute(name) }.map_err(e)?;
                if let Some(b) = before {
                    as_attribute_mut(&mut a).map_err(e)?.set_value(b).map_err(e)?;
                }
                Ok(a)
            }
        }?;
        if bit(7) {
            let mut el = element()?;
            as_element_mut(&mut el).map_err(e)?.set_attribute_node(a.clone()).map_err(e)?;
            owners.push(el);
        }
        Ok(a)
    };
    for ns in [false, true] {
        let mut a = fresh(ns)?;
        as_attribute_mut(&mut a).map_err(e)?.set_value(&c.raw).map_err(e)?;
        made.push(("set_value", a));
        let mut a = fresh(ns)?;
        a.set_node_value(&c.raw).map_err(e)?;
        made.push(("set_node_value", a));
        let mut a = fresh(ns)?;
        as_attribute_mut(&mut a).map_err(e)?.unset_value().map_err(e)?;
        if as_attribute(&a).map_err(e)?.value().is_some() {
            return Err("an attribute whose value was unset has one".into());
        }
        let text = doc.create_text_node(&c.raw);
        a.append_child(text).map_err(e)?;
        made.push(("one text child", a));
    }

    // As children, in two orders of insertion.
    let parts = cut(&c.raw, &c.cuts);
    if parts.len() > 1 {
        cov.hit("several text children");
    }
    for backwards in [false, true] {
        let mut a = doc.create_attribute(name).map_err(e)?;
        for k in 0..parts.len() {
            let k = if backwards { parts.len() - 1 - k } else { k };
            let text = doc.create_text_node(&parts[k]);
            let nodes = if c.refs { vec![text, doc.create_entity_reference("amp").map_err(e)?] } else { vec![text] };
            if backwards {
                for n in nodes.into_iter().rev() {
                    let first = a.first_child();
                    a.insert_before(n, first).map_err(e)?;
                }
            } else {
                for n in nodes {
                    a.append_child(n).map_err(e)?;
                }
            }
        }
        made.push((if backwards { "children, last first" } else { "children" }, a));
    }
    // A text child that is edited in place, split, and merged.
    {
        let a = doc.create_attribute_with(name, "zz").map_err(e)?;
        let mut t = a.first_child().ok_or("no text child")?;
        as_text_mut(&mut t).map_err(e)?.set_data(&c.raw).map_err(e)?;
        made.push(("set_data on the text child", a));
        let a = doc.create_attribute_with(name, &c.raw).map_err(e)?;
        let mut t = a.first_child().ok_or("no text child")?;
        let len = as_text(&t).map_err(e)?.length();
        let mut at = c.cuts.first().map_or(0, |c| *c as usize % (len + 1));
        while as_text(&t).map_err(e)?.substring_data(0, at).is_err() {
            at -= 1;
        }
        as_text_mut(&mut t).map_err(e)?.split(at).map_err(e)?;
        made.push(("a text child that was split", a));
        if !c.raw.is_empty() {
            let mut a = doc.create_attribute(name).map_err(e)?;
            for p in &parts {
                a.append_child(doc.create_text_node(p)).map_err(e)?;
            }
            a.normalize();
            made.push(("children that were normalized", a));
        }
    }

    for (how, a) in &made {
        read(how, a, &want, &plain)?;
    }

    // Through an element.
    let by_name = |el: &RefNode, how: &str| -> Outcome {
        let el = as_element(el).map_err(e)?;
        if el.get_attribute(name).as_deref() != Some(&want) {
            return Err(format!("{how}: get_attribute gives {:?}, not {want:?}", el.get_attribute(name)));
        }
        let a = el.get_attribute_node(name).ok_or("no attribute node")?;
        read(how, &a, &want, &plain)
    };
    for mut el in owners {
        by_name(&el, "set while an element has it")?;
        let a = as_element(&el).map_err(e)?.get_attribute_node(name).ok_or("no attribute node")?;
        as_element_mut(&mut el).map_err(e)?.remove_attribute_node(a).map_err(e)?;
    }
    for (how, a) in made {
        let mut el = element()?;
        as_element_mut(&mut el).map_err(e)?.set_attribute_node(a).map_err(e)?;
        by_name(&el, how)?;
        let copy = el.clone_node(true).ok_or("no clone")?;
        by_name(&copy, "a clone")?;
    }
    let mut el = element()?;
    {
        let el = as_element_mut(&mut el).map_err(e)?;
        if let Some(b) = &c.before {
            el.set_attribute(name, b).map_err(e)?;
        }
        el.set_attribute(name, &c.raw).map_err(e)?;
    }
    by_name(&el, "set_attribute")?;
    let mut el = element()?;
    {
        let el = as_element_mut(&mut el).map_err(e)?;
        if let Some(b) = &c.before {
            el.set_attribute_ns(uri, name, b).map_err(e)?;
        }
        el.set_attribute_ns(uri, name, &c.raw).map_err(e)?;
    }
    by_name(&el, "set_attribute_ns")?;
    let got = as_element(&el).map_err(e)?.get_attribute_ns(uri, &local);
    if got.as_deref() != Some(&want) {
        return Err(format!("get_attribute_ns gives {got:?}, not {want:?}"));
    }

    if c.raw.contains("&#") {
        cov.hit("has a numeric reference");
    }
    if plain != c.raw && want != plain {
        cov.hit("decoded and escaped");
    }
    if want != c.raw {
        cov.nontrivial();
    }
    Ok(())
}

fn read(how: &str, a: &RefNode, want: &str, plain: &str) -> Outcome {
    let e = |e: Error| format!("{e:?}");
    let got = as_attribute(a).map_err(e)?.value();
    if got.as_deref() != Some(want) {
        return Err(format!("{how}: the value is {got:?}, not {want:?}"));
    }
    if as_attribute(a).map_err(e)?.value() != got || a.node_value() != got {
        return Err(format!("{how}: reading again gives {:?}, not {got:?}", a.node_value()));
    }
    let text = a.to_string();
    let name = a.node_name().to_string();
    if !plain.chars().all(xml::is_xml_char) {
        return Ok(());
    }
    let doc = xml::read_content(&format!("<e {text}/>")).map_err(|e| format!("{how}: {text:?} is not an attribute: {e}"))?;
    match &doc[..] {
        [X::Elem(_, attrs, _)] if attrs.len() == 1 && attrs[0].0 == name && attrs[0].1 == plain => Ok(()),
        _ => Err(format!("{how}: {text:?} reads as {doc:?}, the value is {plain:?}")),
    }
}

// ------------------------------------------------------------------------------------------------ P08

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Num {
    Abs(usize),
    /// From the length of the data.
    End(i8),
    /// A part of the length, in 1/255.
    Part(u8),
    /// From `usize::MAX`.
    Huge(u8),
}

fn num() -> BoxedStrategy<Num> {
    prop_oneof![
        4 => (0usize..6).prop_map(Num::Abs),
        4 => (-3i8..4).prop_map(Num::End),
        4 => any::<u8>().prop_map(Num::Part),
        1 => any::<u8>().prop_map(Num::Huge),
        1 => any::<usize>().prop_map(Num::Abs),
    ]
    .boxed()
}

fn number(n: Num, len: usize) -> usize {
    match n {
        Num::Abs(n) => n,
        Num::End(d) => (len as i64 + d as i64).max(0) as usize,
        Num::Part(p) => len * p as usize / 255,
        Num::Huge(d) => usize::MAX - d as usize,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Data {
    pub kind: u8,
    pub init: String,
    /// Where the node is: nowhere, in an element, in an attribute (text only), a fragment, an entity
    /// reference, the document (comments only), below the root, four elements down.
    pub place: u8,
    /// What is on either side: a text, a CDATA section, a comment, an element, an entity reference, nothing.
    #[serde(default)]
    pub beside: (u8, u8),
    /// The document keeps no namespaces.
    #[serde(default)]
    pub plain: bool,
    pub ops: Vec<(CharOp, Num, Num, String)>,
    pub reads: Vec<(Num, Num)>,
}

fn wide_text(max: usize) -> BoxedStrategy<String> {
    let c = prop_oneof![
        4 => prop::char::range('a', 'e'),
        3 => prop::sample::select(&['\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{e9}', '\u{20ac}', '\u{ffff}', '\u{d7ff}', '\u{e000}'][..]),
        2 => prop::sample::select(&['\r', '\n', '\t', ' ', '-', '>', ']', '?', '&', ';', '#', '\0'][..]),
        1 => gen::any_char(),
    ];
    gen::string_of(c.boxed(), max)
}

fn data_case() -> BoxedStrategy<Data> {
    let op = prop_oneof![
        2 => Just(CharOp::Append),
        4 => Just(CharOp::Insert),
        4 => Just(CharOp::Delete),
        4 => Just(CharOp::Replace),
        1 => Just(CharOp::Set),
        1 => Just(CharOp::Unset),
    ];
    let text = || prop_oneof![6 => wide_text(5), 1 => wide_text(0), 1 => wide_text(30)];
    (
        0u8..3,
        prop_oneof![4 => wide_text(10), 1 => wide_text(0), 1 => wide_text(120)],
        (0u8..8, (0u8..6, 0u8..6), prop::bool::weighted(0.2)),
        prop::collection::vec((op, num(), num(), text()), 0..10),
        prop::collection::vec((num(), num()), 1..8),
    )
        .prop_map(|(kind, init, (place, beside, plain), ops, reads)| Data { kind, init, place, beside, plain, ops, reads })
        .boxed()
}

/// Data of some length.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongData {
    pub data: Data,
    pub chars: usize,
    /// How long the strings put in are.
    pub put: Vec<usize>,
}

fn long_data_case() -> BoxedStrategy<LongData> {
    let put = prop_oneof![2 => 0usize..6, 1 => gen::length(5_000)];
    (data_case(), gen::length(70_000), prop::collection::vec(put, 1..6))
        .prop_map(|(data, chars, put)| LongData { data, chars, put })
        .boxed()
}

fn p08_long(c: &LongData, cov: &mut Cov) -> Outcome {
    let mut d = c.data.clone();
    d.init = gen::stretch(&d.init, c.chars);
    for (k, op) in d.ops.iter_mut().enumerate() {
        op.3 = gen::stretch(&op.3, c.put[k % c.put.len()]);
        // Numbers that fit the length.
        let spread = |n: Num| match n {
            Num::Abs(a) if a < 6 => Num::Abs([0, 255, 256, 1024, 65_535, 65_536][a]),
            n => n,
        };
        op.1 = spread(op.1);
        op.2 = spread(op.2);
    }
    d.reads.truncate(3);
    if d.init.len() > 65_535 {
        cov.hit("more than 65535 bytes");
    }
    p08(&d, cov)
}

fn observe(n: &RefNode, model: &Option<String>, c: &Data, cov: &mut Cov) -> Outcome {
    let t = as_character_data(n).map_err(|e| format!("{e:?}"))?;
    if n.node_value() != *model {
        return Err(format!("the value is {:?}, not {model:?}", n.node_value()));
    }
    let len = model.as_deref().map_or(0, |s| utf16(s).len());
    if t.length() != len {
        return Err(format!("the length is {}, not {len} ({model:?})", t.length()));
    }
    let want = if c.kind == 0 { model.as_deref().map(norm::escape) } else { model.clone() };
    if t.data() != want {
        return Err(format!("data gives {:?}, not {want:?}", t.data()));
    }
    for (off, count) in &c.reads {
        let (off, count) = (number(*off, len), number(*count, len));
        let got = t.substring_data(off, count);
        let want = match model {
            _ if count == 0 => Ok(String::new()),
            None if off == 0 => Ok(String::new()),
            None => Err(Error::IndexSize),
            // What a deletion would take out, whole.
            Some(s) => splice(s, off, count, "").map(|_| {
                let u = utf16(s);
                String::from_utf16(&u[off..off.saturating_add(count).min(u.len())]).unwrap()
            }),
        };
        if got != want {
            return Err(format!("substring_data({off}, {count}) of {model:?} gives {got:?}, not {want:?}"));
        }
        match got {
            Err(_) => cov.hit("substring refused"),
            Ok(_) => cov.hit("substring"),
        }
    }
    Ok(())
}

fn p08(c: &Data, cov: &mut Cov) -> Outcome {
    let e = |e: Error| format!("{e:?}");
    let doc_node = new_document(Some("root"), false, !c.plain);
    let doc = as_document(&doc_node).map_err(e)?;
    let n = match c.kind {
        0 => doc.create_text_node(&c.init),
        1 => doc.create_comment(&c.init),
        _ => doc.create_cdata_section(&c.init).map_err(e)?,
    };
    // Neighbours that must not be touched.
    let parent = match (c.place, c.kind) {
        (1, _) => Some(doc.create_element("p").map_err(e)?),
        (2, 0) => Some(doc.create_attribute("p").map_err(e)?),
        (3, _) => Some(doc.create_document_fragment().map_err(e)?),
        (4, _) => Some(doc.create_entity_reference("p").map_err(e)?),
        (5, 1) => Some(doc_node.clone()),
        (6, _) => doc.document_element(),
        (7, _) => {
            let mut at = doc.document_element().ok_or("no root")?;
            for _ in 0..4 {
                let below = doc.create_element("root").map_err(e)?;
                at.append_child(below.clone()).map_err(e)?;
                at = below;
            }
            Some(at)
        }
        _ => None,
    };
    let mut kids: Vec<RefNode> = vec![];
    if let Some(mut p) = parent.clone() {
        let beside = |k: u8| -> std::result::Result<Option<RefNode>, String> {
            Ok(Some(match (p.node_type(), k) {
                (_, 5) => return Ok(None),
                (NodeType::Document, _) => doc.create_comment("beside"),
                (NodeType::Attribute, 1 | 4) => doc.create_entity_reference("beside").map_err(e)?,
                (NodeType::Attribute, _) => doc.create_text_node("beside"),
                (_, 0) => doc.create_text_node("beside"),
                (_, 1) => doc.create_cdata_section("beside").map_err(e)?,
                (_, 2) => doc.create_comment("beside"),
                (_, 3) => doc.create_element("p").map_err(e)?,
                _ => doc.create_entity_reference("beside").map_err(e)?,
            }))
        };
        let added: Vec<RefNode> =
            [beside(c.beside.0)?, Some(n.clone()), beside(c.beside.1)?].into_iter().flatten().collect();
        for t in added {
            p.append_child(t).map_err(e)?;
        }
        kids = p.child_nodes();
        cov.hit("in a tree");
    }
    let this = n.clone();
    let values = |kids: &[RefNode]| -> Vec<Option<String>> {
        kids.iter().filter(|k| **k != this).map(|k| k.node_value()).collect()
    };
    let others = values(&kids);
    let mut n = n.clone();
    let mut model = Some(c.init.clone());
    observe(&n, &model, c, cov)?;
    let mut wide = false;
    for (k, (op, off, count, data)) in c.ops.iter().enumerate() {
        let len = model.as_deref().map_or(0, |s| utf16(s).len());
        let (off, count) = (number(*off, len), number(*count, len));
        let want = char_op(&model, *op, off, count, data);
        let t = as_character_data_mut(&mut n).map_err(e)?;
        let got = match op {
            CharOp::Append => t.append_data(data),
            CharOp::Insert => t.insert_data(off, data),
            CharOp::Delete => t.delete_data(off, count),
            CharOp::Replace => t.replace_data(off, count, data),
            CharOp::Set => t.set_data(data),
            CharOp::Unset => t.unset_data(),
        };
        let what = || format!("operation {k}, {op:?} at {off}, {count}, {data:?} on {model:?}");
        match (&got, &want) {
            (Ok(()), Ok(_)) => {}
            (Err(a), Err(b)) if a == b => {}
            _ => return Err(format!("{}: gives {got:?}, should be {want:?}", what())),
        }
        let before = what();
        if let Ok(now) = want {
            if now != model && matches!(op, CharOp::Insert | CharOp::Delete | CharOp::Replace) {
                cov.hit("splice");
                wide |= model.as_deref().map_or(false, |s| s.chars().any(|c| c > '\u{ffff}'));
            }
            model = now;
        } else {
            cov.hit("refused");
        }
        observe(&n, &model, c, cov).map_err(|e| format!("{before}: then {e}"))?;
        if let Some(p) = &parent {
            let now = p.child_nodes();
            if now != kids || values(&now) != others {
                return Err(format!("{before}: the siblings were {others:?} and are now {:?}", values(&now)));
            }
        }
    }
    if wide {
        cov.nontrivial();
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P07",
            subs: vec![
            Box::new(Sub {
                name: "long_values",
                quick: 1_200,
                thorough: 60_000,
                rule: "reading the value gives something else than what was set",
                strategy: long_value_case,
                run: p07_long,
            }),
            Box::new(Sub {
                name: "attribute_values",
                quick: 240_000,
                thorough: 4_000_000,
                rule: "reading the value gives something else than what was set",
                strategy: value_case,
                run: p07,
            })],
            known: vec![],
            assumptions: vec![
                "entity reference nodes among the children of an attribute contribute nothing, as a reference has no value here",
                "values of at most 20 000 characters in 600 pieces",
            ],
        },
        Property {
            id: "P08",
            subs: vec![
            Box::new(Sub {
                name: "long_data",
                quick: 12_000,
                thorough: 200_000,
                rule: "the data of a node that holds a character outside the basic plane was spliced",
                strategy: long_data_case,
                run: p08_long,
            }),
            Box::new(Sub {
                name: "splices",
                quick: 480_000,
                thorough: 8_000_000,
                rule: "the data of a node that holds a character outside the basic plane was spliced",
                strategy: data_case,
                run: p08,
            })],
            known: vec![],
            assumptions: vec!["data of at most 70 000 characters to begin with"],
        },
    ]
}

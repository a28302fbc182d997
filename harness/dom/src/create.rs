//! Created nodes and their views (P17), documents, document types, options and features (P18), and XML
//! declarations (P20).
use crate::model::{ns_name_ok, ptr, utf16};
use crate::real::shape;
use crate::world::*;
use common::gen;
use common::norm;
use common::runner::{Cov, Exhaustive, Outcome, Property, Sub};
use common::xml;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::dom_impl::{create_entity, create_internal_entity, create_notation, get_implementation_ext};
use xml_dom::level2::ext::{ProcessingOptions, XmlDecl, XmlVersion};
use xml_dom::level2::*;

fn es(e: Error) -> String {
    format!("{e:?}")
}

// ------------------------------------------------------------------------------------------------ P17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Created {
    /// What to create, by number, in which of two documents.
    pub make: u8,
    pub second: bool,
    pub name: String,
    pub ns: String,
    pub data: Option<String>,
    pub ids: (Option<String>, Option<String>),
    pub then: Vec<Option<String>>,
    /// Through the general interface, or the one of the kind.
    pub general: bool,
    pub inside: bool,
}

const MAKES: u8 = 18;

/// The views, and the kinds each covers.
fn views(n: &RefNode) -> Outcome {
    let k = kind_of(n);
    let mut m = n.clone();
    let mut bad: Option<String> = None;
    macro_rules! view {
        ($what:literal, [$($kind:pat_param)|+], $is:expr, $as:expr, $as_mut:expr) => {{
            let want = matches!(k, $($kind)|+);
            let is = $is(n);
            let as_it = $as(n).map(|_| ());
            let as_mut = $as_mut(&mut m).map(|_| ());
            let fine = |r: &Result<()>| match r {
                Ok(()) => want,
                Err(e) => !want && *e == Error::InvalidState,
            };
            if is != want || !fine(&as_it) || !fine(&as_mut) {
                bad = Some(format!("{k:?} as {}: is {is}, as {as_it:?}, as_mut {as_mut:?}", $what));
            }
        }};
    }
    use Kind::*;
    view!("element", [Elem], is_element, as_element, as_element_mut);
    view!("attribute", [Attr], is_attribute, as_attribute, as_attribute_mut);
    view!("text", [Text], is_text, as_text, as_text_mut);
    view!("cdata", [CData], is_cdata_section, as_cdata_section, as_cdata_section_mut);
    view!("character data", [Text | CData | Comment], is_character_data, as_character_data, as_character_data_mut);
    view!("comment", [Comment], is_comment, as_comment, as_comment_mut);
    view!("entity reference", [EntRef], is_entity_reference, as_entity_reference, as_entity_reference_mut);
    view!("entity", [Entity], is_entity_, as_entity, as_entity_mut);
    view!("processing instruction", [Pi], is_processing_instruction, as_processing_instruction, as_processing_instruction_mut);
    view!("document", [Doc], is_document, as_document, as_document_mut);
    view!("document type", [DocType], is_document_type, as_document_type, as_document_type_mut);
    view!("fragment", [Frag], is_document_fragment, as_document_fragment, as_document_fragment_mut);
    view!("notation", [Notation], is_notation, as_notation, as_notation_mut);
    view!("document declaration", [Doc], is_document_decl, as_document_decl, as_document_decl_mut);
    let as_ns = |n: &mut RefNode| as_element_namespaced(n).map(|_| ());
    view!("namespaced element", [Elem], is_element_namespaced, as_element_namespaced, as_ns);
    bad.map_or(Ok(()), Err)
}

fn p17(c: &Created, cov: &mut Cov) -> Outcome {
    let docs = [new_document(Some("root"), false, true), new_document(Some("root"), true, false)];
    let docs_before = [shape(&docs[0], true), shape(&docs[1], true)];
    let doc_node = docs[c.second as usize].clone();
    let doc = as_document(&doc_node).map_err(es)?;
    let (n, ns) = (c.name.as_str(), c.ns.as_str());
    let data = c.data.as_deref().unwrap_or("");
    let (public, system) = (c.ids.0.as_deref(), c.ids.1.as_deref());
    use Kind::*;
    // The node, its kind, name, namespace, value, and whether a document owns it.
    let make = || -> std::result::Result<(RefNode, Kind, String, Option<String>, Option<String>, bool), Error> {
        let qname = n.to_string();
        let some_ns = Some(ns.to_string());
        let d = Some(data.to_string());
        Ok(match c.make % MAKES {
            0 => (doc.create_element(n)?, Elem, qname, None, None, true),
            1 => (doc.create_element_ns(ns, n)?, Elem, qname, some_ns, None, true),
            2 => (doc.create_attribute(n)?, Attr, qname, None, None, true),
            3 => (doc.create_attribute_with(n, data)?, Attr, qname, None, Some(norm::attribute_value(data)), true),
            4 => (doc.create_attribute_ns(ns, n)?, Attr, qname, some_ns, None, true),
            5 => (doc.create_text_node(data), Text, "#text".into(), None, d, true),
            6 => (doc.create_cdata_section(data)?, CData, "#cdata-section".into(), None, d, true),
            7 => (doc.create_comment(data), Comment, "#comment".into(), None, d, true),
            8 => (doc.create_processing_instruction(n, c.data.as_deref())?, Pi, qname, None, c.data.clone(), true),
            9 => (doc.create_entity_reference(n)?, EntRef, qname, None, None, true),
            10 => (doc.create_document_fragment()?, Frag, "#document-fragment".into(), None, None, true),
            11 => (create_entity(doc_node.clone(), n, public, system)?, Entity, qname, None, None, true),
            12 => (create_internal_entity(doc_node.clone(), n, data)?, Entity, qname, None, d, true),
            13 => (create_notation(doc_node.clone(), n, public, system)?, Notation, qname, None, None, true),
            14 => (get_implementation().create_document_type(n, public, system)?, DocType, qname, None, None, false),
            15 => (get_implementation().create_document(None, None, None)?, Doc, "#document".into(), None, None, false),
            16 => {
                let o = ProcessingOptions::new();
                (get_implementation_ext().create_document_with_options(None, None, None, o)?, Doc, "#document".into(), None, None, false)
            }
            _ => (doc.implementation().create_document_type(n, public, system)?, DocType, qname, None, None, false),
        })
    };
    let (mut node, kind, name, ns, value, owned) = make().map_err(|e| format!("{c:?}: {e:?}"))?;
    let (again, ..) = make().map_err(es)?;
    cov.hit(match kind {
        Elem => "element",
        Attr => "attribute",
        Text => "text",
        CData => "CDATA section",
        Comment => "comment",
        Pi => "processing instruction",
        EntRef => "entity reference",
        Frag => "document fragment",
        Entity => "entity",
        Notation => "notation",
        DocType => "document type",
        Doc => "document",
    });
    let fail = |what: &str| Err(format!("{what} ({c:?})"));
    if node == again || ptr(&node) == ptr(&again) || docs.contains(&node) {
        return fail("two calls gave the same node");
    }
    let has_text = kind == Attr && value.is_some();
    let is_as_created = |node: &RefNode| -> Outcome {
        if kind_of(node) != kind {
            return fail(&format!("the node is a {:?}", kind_of(node)));
        }
        let got = node.node_name();
        if got.to_string() != name || got.namespace_uri() != &ns || Node::namespace_uri(node) != ns {
            return fail(&format!("the name is {got:?}"));
        }
        let (prefix, local) = norm::split_qname(&name);
        if Node::prefix(node) != prefix || Node::local_name(node) != local {
            return fail("prefix or local name");
        }
        if node.parent_node().is_some() || node.previous_sibling().is_some() || node.next_sibling().is_some() {
            return fail("a new node has a parent or a sibling");
        }
        if node.owner_document() != owned.then(|| doc_node.clone()) {
            return fail("the owner document");
        }
        if node.child_nodes().len() != has_text as usize || node.has_child_nodes() != has_text {
            return fail("the children");
        }
        if node.has_attributes() || !node.attributes().is_empty() {
            return fail("a new node has attributes");
        }
        Ok(())
    };
    is_as_created(&node)?;
    if node.node_value() != value {
        return fail(&format!("the value is {:?}, not {value:?}", node.node_value()));
    }
    views(&node)?;
    match kind {
        Elem if as_element(&node).map_err(es)?.tag_name() != name => return fail("tag_name"),
        Pi => {
            let pi = as_processing_instruction(&node).map_err(es)?;
            let len = c.data.as_deref().map_or(0, |d| utf16(d).len());
            if pi.target() != name || pi.data() != c.data || pi.length() != len {
                return fail("target, data or length");
            }
        }
        Attr => {
            let a = as_attribute(&node).map_err(es)?;
            if !a.specified() || a.owner_element().is_some() || a.value() != value {
                return fail("specified, owner or value");
            }
        }
        Entity => {
            let x = as_entity(&node).map_err(es)?;
            let ids = if c.make % MAKES == 11 { c.ids.clone() } else { (None, None) };
            if (x.public_id(), x.system_id()) != ids || x.notation_name().is_some() {
                return fail("identifiers of an entity");
            }
        }
        Notation => {
            let x = as_notation(&node).map_err(es)?;
            if (x.public_id(), x.system_id()) != c.ids {
                return fail("identifiers of a notation");
            }
        }
        DocType => {
            let x = as_document_type(&node).map_err(es)?;
            if (x.public_id(), x.system_id()) != c.ids || x.internal_subset().is_some() {
                return fail("identifiers of a document type");
            }
            if !x.entities().is_empty() || !x.notations().is_empty() {
                return fail("entities or notations of a document type");
            }
        }
        Doc => {
            let x = as_document(&node).map_err(es)?;
            if x.document_element().is_some() || x.doc_type().is_some() {
                return fail("a document without root and type has one");
            }
            if as_document_decl(&node).map_err(es)?.xml_declaration().is_some() {
                return fail("a new document has a declaration");
            }
        }
        _ => {}
    }

    // Setting the value.
    let holds = matches!(kind, Text | CData | Comment | Pi | Attr);
    let mut element = None;
    if kind == Attr && c.inside {
        let mut el = doc.create_element("e").map_err(es)?;
        as_element_mut(&mut el).map_err(es)?.set_attribute_node(node.clone()).map_err(es)?;
        element = Some(el);
    }
    let mut value = value;
    for step in &c.then {
        // What setting the value of an entity means is not specified.
        if kind == Entity {
            break;
        }
        let before = shape(&node, false);
        let done = match (step, kind) {
            (Some(v), Attr) if !c.general => as_attribute_mut(&mut node).map_err(es)?.set_value(v),
            (None, Attr) if !c.general => as_attribute_mut(&mut node).map_err(es)?.unset_value(),
            (Some(v), Pi) if !c.general => as_processing_instruction_mut(&mut node).map_err(es)?.set_data(v),
            (None, Pi) if !c.general => as_processing_instruction_mut(&mut node).map_err(es)?.unset_data(),
            (Some(v), Text | CData | Comment) if !c.general => as_character_data_mut(&mut node).map_err(es)?.set_data(v),
            (None, Text | CData | Comment) if !c.general => as_character_data_mut(&mut node).map_err(es)?.unset_data(),
            (Some(v), _) => node.set_node_value(v),
            (None, _) => node.unset_node_value(),
        };
        if holds {
            done.map_err(|e| format!("setting the value of a {kind:?} to {step:?}: {e:?}"))?;
            value = match kind {
                Attr => step.as_deref().map(norm::attribute_value),
                _ => step.clone(),
            };
        }
        if node.node_value() != value {
            return fail(&format!("after {step:?} the value is {:?}, not {value:?}", node.node_value()));
        }
        if !holds && shape(&node, false) != before {
            return fail("setting a value changed a node that has none");
        }
        if kind_of(&node) != kind || node.node_name().to_string() != name {
            return fail("setting a value changed the name or kind");
        }
        if let Some(el) = &element {
            let a = as_attribute(&node).map_err(es)?;
            if a.owner_element().as_ref() != Some(el) || as_element(el).map_err(es)?.get_attribute(&name) != value {
                return fail("setting a value took the attribute from its element");
            }
        }
        cov.hit(if holds { "value set" } else { "value not set" });
    }
    // The other node, and the documents, are not affected.
    is_as_created(&again)?;
    if [shape(&docs[0], true), shape(&docs[1], true)] != docs_before {
        return fail("creating a node changed a document");
    }
    if !c.then.is_empty() {
        cov.nontrivial();
    }
    Ok(())
}

fn free_text() -> BoxedStrategy<String> {
    gen::at_times_long(gen::string_of(gen::any_char(), 8), 100, 5_000)
}

fn created_case() -> BoxedStrategy<Created> {
    let part = || {
        // Names close to those that mean something.
        let near = prop_oneof![
            2 => "[xX][mM][lL]([-._a-z0-9]{1,2}|ns[-a-z0-9])",
            1 => "[xX][mM]?|[_a][xX][mM][lL]|[iI][dD][-a-z0-9]?",
        ]
        .prop_filter("reserved", |n| n != "xmlns" && !n.eq_ignore_ascii_case("xml"));
        gen::at_times_long(prop_oneof![6 => gen::ncname(), 1 => near].boxed(), 100, 5_000)
    };
    let name = (prop::option::weighted(0.3, part()), part()).prop_map(|(p, l)| match p {
        Some(p) => format!("{p}:{l}"),
        None => l,
    });
    (
        0u8..MAKES,
        any::<bool>(),
        name,
        prop_oneof![pool(NSS), "[a-z:/.]{1,8}"],
        prop::option::weighted(0.8, free_text()),
        (prop::option::of(free_text()), prop::option::of(free_text())),
        prop::collection::vec(prop::option::weighted(0.8, free_text()), 0..4),
        any::<bool>(),
        any::<bool>(),
        prop::option::weighted(0.15, any::<u8>()),
    )
        .prop_map(|(make, second, mut name, mut ns, data, ids, then, general, inside, special)| {
            // Names that mean something, where they may be.
            if let Some(k) = special {
                let (n, u) = [
                    ("xml:id", XML_NS),
                    ("xml:lang", XML_NS),
                    ("xml:space", XML_NS),
                    ("xmlns", XMLNS_NS),
                    ("xmlns:p", XMLNS_NS),
                    ("id", "urn:1"),
                    ("a", XML_NS),
                ][k as usize % 7];
                let attribute = matches!(make % MAKES, 2..=4);
                if attribute || make % MAKES == 1 && u != XMLNS_NS {
                    (name, ns) = (n.to_string(), u.to_string());
                }
            }
            Created { make, second, name, ns, data, ids, then, general, inside }
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------------ P18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Try {
    pub ns: Option<String>,
    pub name: Option<String>,
    /// Which document type to give: none, one of those made first, or another kind of node.
    pub doctype: Option<u8>,
    pub wrong: Option<u8>,
    /// Options as bits, or the plain call.
    pub options: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Documents {
    pub types: Vec<(String, Option<String>, Option<String>)>,
    pub tries: Vec<Try>,
    pub decl: bool,
    pub content: Vec<u8>,
}

fn options(bits: u8, order: u8) -> ProcessingOptions {
    let mut o = ProcessingOptions::new();
    for k in 0..3 {
        let k = (k + order) % 3;
        if bits & (1 << k) != 0 {
            match k {
                0 => o.set_assume_ids(),
                1 => o.set_parse_entities(),
                _ => o.set_add_namespaces(),
            }
        }
    }
    o
}

fn p18(c: &Documents, cov: &mut Cov) -> Outcome {
    let mut types = vec![];
    for (n, p, s) in &c.types {
        types.push(get_implementation().create_document_type(n, p.as_deref(), s.as_deref()).map_err(es)?);
    }
    let mut served: Vec<Option<RefNode>> = vec![None; types.len()];
    let mut made: Vec<(RefNode, Option<usize>, Try)> = vec![];
    let helper = new_document(Some("root"), false, true);
    for t in &c.tries {
        let which = t.doctype.filter(|_| !types.is_empty()).map(|d| d as usize % types.len());
        let (given, wrong) = match (&t.wrong, which) {
            (Some(k), _) => {
                let d = as_document(&helper).map_err(es)?;
                let n = match k % 5 {
                    0 => d.create_element("a").map_err(es)?,
                    1 => d.create_text_node("a"),
                    2 => helper.clone(),
                    3 => create_notation(helper.clone(), "n", None, None).map_err(es)?,
                    _ => d.create_document_fragment().map_err(es)?,
                };
                (Some(n), true)
            }
            (None, Some(i)) => (Some(types[i].clone()), false),
            _ => (None, false),
        };
        let which = if wrong { None } else { which };
        let used = which.map_or(false, |i| served[i].is_some());
        let name_ok = match (&t.ns, &t.name) {
            (Some(ns), Some(n)) => ns_name_ok(ns, n),
            (None, Some(n)) => norm::is_qname(n),
            (Some(_), None) => false,
            (None, None) => true,
        };
        let got = match t.options {
            None => get_implementation().create_document(t.ns.as_deref(), t.name.as_deref(), given),
            Some(o) => get_implementation_ext().create_document_with_options(
                t.ns.as_deref(),
                t.name.as_deref(),
                given,
                options(o, o / 8),
            ),
        };
        match got {
            Err(e) => {
                let fine = match &e {
                    Error::InvalidState => wrong,
                    Error::WrongDocument => used,
                    Error::Namespace => {
                        t.ns.is_some() && (t.name.is_none() || (!name_ok && t.name.as_deref().map_or(false, norm::is_qname)))
                    }
                    Error::Syntax | Error::InvalidCharacter => !name_ok && t.name.is_some(),
                    _ => false,
                };
                if !fine {
                    return Err(format!("{t:?}: rejected with {e:?} (document type used: {used})"));
                }
                cov.hit("rejected");
            }
            Ok(_) if wrong || used || !name_ok => {
                return Err(format!("{t:?}: accepted (document type used: {used})"));
            }
            Ok(d) => {
                if let Some(i) = which {
                    served[i] = Some(d.clone());
                }
                if made.iter().any(|(o, ..)| *o == d) {
                    return Err("the same document twice".into());
                }
                made.push((d, which, t.clone()));
                cov.hit("accepted");
            }
        }
        for (i, d) in types.iter().enumerate() {
            if d.owner_document() != served[i] {
                return Err(format!("document type {i} belongs to {:?}", d.owner_document().map(|d| d.to_string())));
            }
        }
    }
    for (k, (d, which, t)) in made.iter_mut().enumerate() {
        inspect(d, which.map(|i| (&types[i], &c.types[i])), t, c, k, cov).map_err(|e| format!("{t:?}: {e}"))?;
    }
    // What happened to one document did not reach another.
    for (d, which, t) in &made {
        let x = as_document(d).map_err(es)?;
        if x.doc_type() != which.map(|i| types[i].clone()) || x.document_element().is_some() != t.name.is_some() {
            return Err(format!("{t:?}: the document changed"));
        }
    }
    if made.iter().any(|(_, w, t)| w.is_some() && t.name.is_some()) {
        cov.nontrivial();
    }
    Ok(())
}

#[allow(clippy::type_complexity)]
fn inspect(
    d: &mut RefNode,
    doctype: Option<(&RefNode, &(String, Option<String>, Option<String>))>,
    t: &Try,
    c: &Documents,
    k: usize,
    cov: &mut Cov,
) -> Outcome {
    let text = {
        let x = as_document(d).map_err(es)?;
        if d.owner_document().is_some() || d.parent_node().is_some() || d.node_value().is_some() {
            return Err("a document has an owner, parent or value".into());
        }
        let root = x.document_element();
        let kids = d.child_nodes();
        match (&t.name, &root) {
            (None, None) if kids.is_empty() => {}
            (Some(n), Some(r)) if kids.len() == 1 && kids[0] == *r => {
                if r.node_name().to_string() != *n || Node::namespace_uri(r) != t.ns || r.has_attributes() || r.has_child_nodes() {
                    return Err(format!("the root is {r}, {:?}", r.node_name()));
                }
                if r.owner_document().as_ref() != Some(d) || r.parent_node().as_ref() != Some(d) {
                    return Err("the root does not belong to the document".into());
                }
            }
            _ => return Err(format!("the document is {:?}", d.to_string())),
        }
        if x.doc_type().as_ref() != doctype.map(|d| d.0) {
            return Err("the document type is another".into());
        }
        if let Some((n, (name, public, system))) = doctype {
            let dt = as_document_type(n).map_err(es)?;
            if n.node_name().to_string() != *name || dt.public_id() != *public || dt.system_id() != *system {
                return Err("the document type lost its name or identifiers".into());
            }
            if dt.internal_subset().is_some() || !dt.entities().is_empty() || !dt.notations().is_empty() {
                return Err("the document type has content".into());
            }
        }
        // The options are seen in what they do.
        let bits = t.options.unwrap_or(0b100);
        let mut e = x.create_element("e").map_err(es)?;
        if let Some(mut r) = root.clone() {
            r.append_child(e.clone()).map_err(es)?;
        }
        {
            let el = as_element_mut(&mut e).map_err(es)?;
            el.set_attribute("id", "the-id").map_err(es)?;
            el.set_attribute_ns(XMLNS_NS, "xmlns:pre", "urn:x").map_err(es)?;
        }
        if root.is_some() {
            let found = x.get_element_by_id("the-id");
            if found != (bits & 1 != 0).then(|| e.clone()) {
                return Err(format!("options {bits:#b}: looking up the id gives {:?}", found.map(|f| f.to_string())));
            }
        }
        let mapped = as_element_namespaced(&e).map_err(es)?.contains_mapping(Some("pre"));
        if mapped != (bits & 0b100 != 0) {
            return Err(format!("options {bits:#b}: contains_mapping is {mapped}"));
        }
        d.to_string()
    };
    let mut decl = None;
    if c.decl {
        let v = XmlDecl::new(XmlVersion::V10, Some("UTF-8".into()), (k % 2 == 0).then_some(true));
        as_document_decl_mut(d).map_err(es)?.set_xml_declaration(v.clone()).map_err(es)?;
        decl = Some(v.to_string());
    }
    // Comments and instructions, on either side of the root.
    for w in &c.content {
        let x = as_document(d).map_err(es)?;
        let n = if w % 2 == 0 { x.create_comment("c") } else { x.create_processing_instruction("t", Some("d")).map_err(es)? };
        let before = if w & 2 == 0 { d.first_child() } else { None };
        d.clone().insert_before(n, before).map_err(es)?;
    }
    let content: String = d.child_nodes().iter().map(|n| n.to_string()).collect();
    let dt = doctype.map(|d| d.0.to_string()).unwrap_or_default();
    let want = format!("{}{dt}{content}", decl.clone().unwrap_or_default());
    let got = d.to_string();
    if got != want {
        return Err(format!("prints as {got:?}, not {want:?}"));
    }
    let read = xml::read_maybe_empty_document(&got, true).map_err(|e| format!("{got:?}: {e}"))?;
    let named = read.doctype.map(|d| (d.name, d.public_id, d.system_id));
    if named.as_ref() != doctype.map(|d| d.1) {
        return Err(format!("{got:?} has the document type {named:?}"));
    }
    if read.decl.is_some() != c.decl || read.children.len() != d.child_nodes().len() {
        return Err(format!("{got:?} reads as {:?}", read.children));
    }
    if doctype.is_some() && c.decl {
        cov.hit("declaration and document type");
    }
    if text.is_empty() && t.name.is_some() {
        return Err("prints nothing".into());
    }
    Ok(())
}

fn documents_case() -> BoxedStrategy<Documents> {
    // What can stand between quotes without being changed by a reader.
    let id = prop_oneof![
        2 => pool(&["-//W3C//DTD XHTML 1.0//EN", "http://www.w3.org/TR/x.dtd", "", "a'b", "<x>&amp;", "a b"]),
        1 => gen::at_times_long(gen::string_of(gen::xml_char(), 8), 20, 5_000).prop_map(|s| s.replace(['"', '\r'], "'")),
    ];
    let name = || prop_oneof![
        6 => (prop::option::weighted(0.4, gen::ncname()), gen::ncname()).prop_map(|(p, l)| match p {
            Some(p) => format!("{p}:{l}"),
            None => l,
        }),
        1 => pool(&["xml", "xml:a", "xmlns", "xmlns:a", "a:xml"]),
        2 => pool(&["", ":", "a:", ":a", "a b", "1", "a:b:c", "<", "a>"]),
    ];
    let ns = prop_oneof![4 => pool(NSS), 1 => Just(XML_NS.to_string()), 1 => Just(XMLNS_NS.to_string()), 1 => Just(String::new())];
    let id = || prop::option::of(id.clone());
    let types = prop::collection::vec(
        (name().prop_filter("legal", |n| norm::is_qname(n)), id(), id()),
        0..3,
    );
    let one = (
        prop::option::weighted(0.4, ns),
        prop::option::weighted(0.8, name()),
        prop::option::weighted(0.6, any::<u8>()),
        prop::option::weighted(0.08, any::<u8>()),
        prop::option::weighted(0.6, 0u8..24),
    )
        .prop_map(|(ns, name, doctype, wrong, options)| Try { ns, name, doctype, wrong, options });
    (types, prop::collection::vec(one, 1..6), any::<bool>(), prop::collection::vec(any::<u8>(), 0..4))
        .prop_map(|(types, tries, decl, content)| Documents { types, tries, decl, content })
        .boxed()
}

/// Two sets of options, each set in one of several orders.
fn option_sets(idx: u64, cov: &mut Cov) -> Outcome {
    let (a, b, order) = ((idx % 8) as u8, (idx / 8 % 8) as u8, (idx / 64) as u8);
    let same = |o: &ProcessingOptions, bits: u8, what: &str| -> Outcome {
        let got = (o.has_assume_ids(), o.has_parse_entities(), o.has_add_namespaces(), o.has_none());
        let want = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits == 0);
        if got != want {
            return Err(format!("{what} of {a:#b} and {b:#b}: {got:?}, should be {want:?}"));
        }
        let text = o.to_string();
        for (bit, name) in [(1, "AssumeIDs"), (2, "ParseEntities"), (4, "AddNamespaces")] {
            if text.contains(name) != (bits & bit != 0) {
                return Err(format!("{what} of {a:#b} and {b:#b} prints as {text:?}"));
            }
        }
        let digits = format!("{o:b}");
        if digits.matches('1').count() as u32 != bits.count_ones() || format!("{o:#b}") != format!("0b{digits}") {
            return Err(format!("{what} of {a:#b} and {b:#b} prints as {digits:?} and {o:#b}"));
        }
        Ok(())
    };
    let (x, y) = (options(a, order), options(b, order));
    same(&x, a, "one")?;
    same(&y, b, "other")?;
    same(&(x.clone() | y.clone()), a | b, "union")?;
    same(&(x.clone() & y.clone()), a & b, "intersection")?;
    if (x == y) != (a == b) || (format!("{x:b}") == format!("{y:b}")) != (a == b) {
        return Err(format!("{a:#b} and {b:#b}: equality is {}", x == y));
    }
    let mut twice = x.clone();
    for k in [1, 2, 4] {
        if a & k != 0 {
            match k {
                1 => twice.set_assume_ids(),
                2 => twice.set_parse_entities(),
                _ => twice.set_add_namespaces(),
            }
        }
    }
    same(&twice, a, "one, set twice,")?;
    if twice != x || (ProcessingOptions::new() == x) != (a == 0) || ProcessingOptions::default() != ProcessingOptions::new() {
        return Err(format!("{a:#b}: equality"));
    }
    cov.hit("pair of option sets");
    cov.nontrivial();
    Ok(())
}

fn features(c: &(String, String), cov: &mut Cov) -> Outcome {
    let (f, v) = c;
    let known = matches!(f.to_ascii_lowercase().as_str(), "core" | "xml");
    let want = known && matches!(v.as_str(), "" | "1.0" | "2.0");
    let d = new_document(Some("root"), false, true);
    let doc = as_document(&d).map_err(es)?;
    let root = doc.document_element().ok_or("no root")?;
    let text = doc.create_text_node("t");
    let got = [
        get_implementation().has_feature(f, v),
        get_implementation_ext().has_feature(f, v),
        doc.implementation().has_feature(f, v),
        d.is_supported(f, v),
        root.is_supported(f, v),
        text.is_supported(f, v),
    ];
    if got.iter().any(|g| *g != want) {
        return Err(format!("feature {f:?} version {v:?}: {got:?}, should be {want}"));
    }
    cov.hit(match (known, want) {
        (true, true) => "supported",
        (true, false) => "known feature, other version",
        _ => "unknown feature",
    });
    if known {
        cov.nontrivial();
    }
    Ok(())
}

fn features_case() -> BoxedStrategy<(String, String)> {
    let cased = (pool(&["core", "xml"]), any::<u8>()).prop_map(|(n, bits)| {
        n.chars()
            .enumerate()
            .map(|(i, c)| if bits & (1 << i) != 0 { c.to_ascii_uppercase() } else { c })
            .collect::<String>()
    });
    let spoilt = (pool(&["core", "xml", "XML", "Core"]), gen::any_char(), any::<u8>()).prop_map(|(n, c, at)| {
        let mut v: Vec<char> = n.chars().collect();
        let at = at as usize % (v.len() + 1);
        v.insert(at, c);
        v.into_iter().collect::<String>()
    });
    let feature = prop_oneof![
        5 => cased,
        2 => spoilt,
        2 => pool(&["", "HTML", "Events", "co", "xm", "Core ", " XML", "XMLCore", "Core XML", "\u{212a}ore", "Traversal"]),
        1 => free_text(),
    ];
    let version = prop_oneof![
        5 => pool(&["", "1.0", "2.0"]),
        3 => pool(&["1", "2", "3.0", "1.1", "2.00", "01.0", " 1.0", "1.0 ", "1,0", "2.0.0", "10", "1\u{2e}0\n"]),
        1 => free_text(),
    ];
    (feature, version).boxed()
}

// ------------------------------------------------------------------------------------------------ P20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Decls {
    /// Version 1.1, encoding, standalone, which document.
    pub sets: Vec<(bool, Option<String>, Option<bool>, bool)>,
    pub version: String,
    pub with_type: bool,
}

fn encoding() -> BoxedStrategy<String> {
    let legal = prop_oneof![
        2 => pool(&["UTF-8", "UTF-16", "utf-8", "utf-16", "Utf-8", "iso-8859-1", "ISO-8859-1", "US-ASCII", "us-ascii", "x", "Z", "windows-1252", "a--b", "a-", "A.B_c-9", "EUC-JP"]),
        3 => "[A-Za-z][A-Za-z0-9._-]{0,10}",
        1 => gen::at_times_long("[A-Za-z][A-Za-z0-9._-]{0,10}".boxed(), 20, 2_000),
    ]
    .boxed();
    let spoilt = (legal.clone(), gen::any_char(), any::<u8>()).prop_map(|(n, c, at)| {
        let mut v: Vec<char> = n.chars().collect();
        let at = at as usize % (v.len() + 1);
        v.insert(at, c);
        v.into_iter().collect::<String>()
    });
    let ascii = (legal.clone(), prop::char::range('\0', '\u{7f}'), any::<u8>()).prop_map(|(n, c, at)| {
        let mut v: Vec<char> = n.chars().collect();
        let at = at as usize % (v.len() + 1);
        v.insert(at, c);
        v.into_iter().collect::<String>()
    });
    prop_oneof![
        5 => legal,
        2 => spoilt,
        2 => ascii,
        1 => free_text(),
        1 => pool(&["", "-", "8", "_", ".", "-a", " UTF-8", "UTF 8", "UTF-8 ", "\u{e9}", "U\u{e9}", "\u{ff21}", "a\"", "a'", "a?>", "\u{212a}"]),
    ]
    .boxed()
}

fn decls(c: &Decls, cov: &mut Cov) -> Outcome {
    let mut docs = [new_document(Some("a"), false, true), new_document(None, false, true)];
    if c.with_type {
        let t = get_implementation().create_document_type("a", None, Some("s")).map_err(es)?;
        docs[0] = get_implementation().create_document(None, Some("a"), Some(t)).map_err(es)?;
    }
    let bare = [docs[0].to_string(), docs[1].to_string()];
    let mut held: [Option<String>; 2] = [None, None];
    let check = |d: &RefNode, held: &Option<String>, bare: &String| -> Outcome {
        let got = as_document_decl(d).map_err(es)?.xml_declaration().map(|d| d.to_string());
        if got != *held {
            return Err(format!("the document reports {got:?}, it was given {held:?}"));
        }
        let want = format!("{}{bare}", held.clone().unwrap_or_default());
        if d.to_string() != want {
            return Err(format!("the document prints as {:?}, not {want:?}", d.to_string()));
        }
        Ok(())
    };
    for (v11, enc, alone, second) in &c.sets {
        let version = if *v11 { XmlVersion::V11 } else { XmlVersion::V10 };
        let legal = enc.as_deref().map_or(true, norm::is_encoding_name);
        let made = catch_unwind(AssertUnwindSafe(|| XmlDecl::new(version.clone(), enc.clone(), *alone)));
        let decl = match made {
            Ok(d) if legal => d,
            Err(_) if !legal => {
                cov.hit("encoding name refused");
                continue;
            }
            Ok(d) => return Err(format!("encoding {enc:?} was accepted: {d}")),
            Err(_) => return Err(format!("encoding {enc:?} was refused")),
        };
        if decl.version() != version || decl.encoding() != *enc || decl.standalone() != *alone {
            return Err(format!("{version:?} {enc:?} {alone:?} became {decl:?}"));
        }
        let text = decl.to_string();
        let read = xml::read_maybe_empty_document(&text, false).map_err(|e| format!("{text:?}: {e}"))?;
        let want = xml::Decl {
            version: if *v11 { "1.1" } else { "1.0" }.into(),
            encoding: enc.clone(),
            standalone: alone.map(|a| if a { "yes" } else { "no" }.into()),
        };
        if read.decl.as_ref() != Some(&want) {
            return Err(format!("{text:?} reads as {:?}, not {want:?}", read.decl));
        }
        if decl.clone().to_string() != text {
            return Err("a copy prints differently".into());
        }
        let k = *second as usize;
        if held[k].is_some() {
            cov.hit("replaced");
            cov.nontrivial();
        }
        as_document_decl_mut(&mut docs[k]).map_err(es)?.set_xml_declaration(decl).map_err(es)?;
        held[k] = Some(text);
        for k in 0..2 {
            check(&docs[k], &held[k], &bare[k])?;
        }
        let got = as_document_decl(&docs[k]).map_err(es)?.xml_declaration().ok_or("no declaration")?;
        if got.version() != version || got.encoding() != *enc || got.standalone() != *alone {
            return Err(format!("the document holds {got:?}, it was given {version:?} {enc:?} {alone:?}"));
        }
        cov.hit("declaration set");
    }
    let got = XmlVersion::from_str(&c.version);
    let want = match c.version.as_str() {
        "1.0" => Some(XmlVersion::V10),
        "1.1" => Some(XmlVersion::V11),
        _ => None,
    };
    if got.clone().ok() != want {
        return Err(format!("version {:?} is read as {got:?}", c.version));
    }
    if let Ok(v) = got {
        if v.to_string() != c.version {
            return Err(format!("version {v:?} prints as {v}"));
        }
        cov.hit("version read");
    }
    let d = XmlDecl::default();
    if d.version() != XmlVersion::V10 || d.encoding().is_some() || d.standalone().is_some() {
        return Err(format!("the default is {d:?}"));
    }
    Ok(())
}

fn decls_case() -> BoxedStrategy<Decls> {
    let set = (
        any::<bool>(),
        prop::option::weighted(0.8, encoding()),
        prop::option::of(any::<bool>()),
        prop::bool::weighted(0.3),
    );
    let version = prop_oneof![
        3 => pool(&["1.0", "1.1"]),
        2 => pool(&["1", "1.2", "2.0", "1.00", " 1.0", "1.1 ", "", "11", "V10", "1\u{2e}", "\"1.0\"", "10"]),
        1 => free_text(),
    ];
    (prop::collection::vec(set, 1..6), version, any::<bool>())
        .prop_map(|(sets, version, with_type)| Decls { sets, version, with_type })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P17",
            subs: vec![Box::new(Sub {
                name: "created",
                quick: 720_000,
                thorough: 5_000_000,
                rule: "the value of the new node was set at least once",
                strategy: created_case,
                run: p17,
            })],
            known: vec![],
            assumptions: vec!["setting the value of an entity is left out, as it is not specified"],
        },
        Property {
            id: "P18",
            subs: vec![
                Box::new(Sub {
                    name: "documents",
                    quick: 360_000,
                    thorough: 3_000_000,
                    rule: "a document with a root and a document type was created",
                    strategy: documents_case,
                    run: p18,
                }),
                Box::new(Exhaustive {
                    name: "options",
                    total: |_| 8 * 8 * 3,
                    rule: "every pair of option sets",
                    run: option_sets,
                    describe: |i| serde_json::json!({"one": i % 8, "other": i / 8 % 8, "order": i / 64}),
                }),
                Box::new(Sub {
                    name: "features",
                    quick: 180_000,
                    thorough: 1_000_000,
                    rule: "the feature is a supported one, in some letter case",
                    strategy: features_case,
                    run: features,
                }),
            ],
            known: vec![],
            assumptions: vec![
                "a document type prints its identifiers as PUBLIC \"p\" SYSTEM \"s\", which a test fixes",
                "identifiers that can stand between double quotes",
            ],
        },
        Property {
            id: "P20",
            subs: vec![Box::new(Sub {
                name: "declarations",
                quick: 480_000,
                thorough: 4_000_000,
                rule: "the declaration of a document was replaced",
                strategy: decls_case,
                run: decls,
            })],
            known: vec![],
            assumptions: vec!["building a declaration with an encoding name that is not legal is refused with a panic, as documented"],
        },
    ]
}

//! Histories: operations with symbolic node selectors, their resolution against a view of the nodes, and the
//! calls they make on the crate.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::dom_impl::{create_entity, create_internal_entity, create_notation, get_implementation_ext};
use xml_dom::level2::ext::ProcessingOptions;
use xml_dom::level2::*;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Elem,
    Attr,
    Text,
    CData,
    EntRef,
    Entity,
    Pi,
    Comment,
    Doc,
    DocType,
    Frag,
    Notation,
}
use Kind::*;

pub const ALL_KINDS: [Kind; 12] = [
    Elem, Attr, Text, CData, EntRef, Entity, Pi, Comment, Doc, DocType, Frag, Notation,
];

pub fn kind_of(n: &RefNode) -> Kind {
    match n.node_type() {
        NodeType::Element => Elem,
        NodeType::Attribute => Attr,
        NodeType::Text => Text,
        NodeType::CData => CData,
        NodeType::EntityReference => EntRef,
        NodeType::Entity => Entity,
        NodeType::ProcessingInstruction => Pi,
        NodeType::Comment => Comment,
        NodeType::Document => Doc,
        NodeType::DocumentType => DocType,
        NodeType::DocumentFragment => Frag,
        NodeType::Notation => Notation,
    }
}

/// The DOM child-type table, as documented in the crate (its `Document` row leaves out the document type,
/// which is given at creation only).
pub fn table_allows(p: Kind, c: Kind) -> bool {
    match p {
        Doc => matches!(c, Elem | Comment | Pi),
        Elem | Frag | EntRef | Entity => matches!(c, Elem | Text | Comment | Pi | CData | EntRef),
        Attr => matches!(c, Text | EntRef),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------- selectors

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sel {
    /// Any node.
    N(u16),
    /// A node of this kind class.
    E(u16),
    /// A node that can have children.
    P(u16),
    /// A node that can be a child.
    C(u16),
    /// A character data node.
    T(u16),
    /// An attribute.
    A(u16),
    /// A document.
    D(u8),
    /// A recent node.
    L(u8),
    /// A node with a parent.
    K(u16),
    /// A node in the tree of a document.
    I(u16),
    /// A recent element.
    R(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ref {
    None,
    /// A child of the parent.
    Child(u16),
    /// Any node at all.
    Any(u16),
    /// The new child itself.
    Same,
    /// The next sibling of the new child.
    Next,
    /// The previous sibling of the new child.
    Prev,
}

pub trait View {
    fn len(&self) -> usize;
    fn kind(&self, i: usize) -> Kind;
    fn children(&self, i: usize) -> Vec<usize>;
    fn parent(&self, i: usize) -> Option<usize>;
    fn attrs(&self, i: usize) -> Vec<usize>;
    fn in_tree(&self, i: usize) -> bool {
        let mut cur = i;
        for _ in 0..=self.len() {
            match self.parent(cur) {
                Some(p) => cur = p,
                None => return self.kind(cur) == Doc,
            }
        }
        false
    }
    fn usable(&self, _i: usize) -> bool {
        true
    }
}

fn nth(v: Vec<usize>, k: u16) -> Option<usize> {
    if v.is_empty() {
        None
    } else {
        Some(v[k as usize % v.len()])
    }
}

pub fn pick(v: &dyn View, s: &Sel) -> Option<usize> {
    let all = |f: &dyn Fn(usize) -> bool| -> Vec<usize> {
        (0..v.len()).filter(|i| v.usable(*i) && f(*i)).collect()
    };
    match s {
        Sel::N(k) => nth(all(&|_| true), *k),
        Sel::E(k) => nth(all(&|i| v.kind(i) == Elem), *k),
        Sel::P(k) => nth(
            all(&|i| matches!(v.kind(i), Elem | Doc | Frag | EntRef | Entity | Attr)),
            *k,
        ),
        Sel::C(k) => nth(
            all(&|i| matches!(v.kind(i), Elem | Text | Comment | Pi | CData | EntRef)),
            *k,
        ),
        Sel::T(k) => nth(all(&|i| matches!(v.kind(i), Text | Comment | CData)), *k),
        Sel::A(k) => nth(all(&|i| v.kind(i) == Attr), *k),
        Sel::D(k) => nth(all(&|i| v.kind(i) == Doc), *k as u16),
        Sel::L(k) => {
            let a = all(&|_| true);
            let n = a.len();
            if n == 0 {
                None
            } else {
                Some(a[n - 1 - (*k as usize % n.min(4))])
            }
        }
        Sel::K(k) => nth(all(&|i| v.parent(i).is_some()), *k),
        Sel::I(k) => nth(all(&|i| v.in_tree(i)), *k),
        Sel::R(k) => {
            let a = all(&|i| v.kind(i) == Elem);
            let n = a.len();
            nth(a, (n.max(1) - 1 - (*k as usize % n.clamp(1, 3))) as u16)
        }
    }
}

pub fn pick_ref(v: &dyn View, r: &Ref, parent: usize, child: Option<usize>) -> Option<Option<usize>> {
    let sib = |d: isize| -> Option<usize> {
        let c = child?;
        let p = v.parent(c)?;
        let ks = v.children(p);
        let i = ks.iter().position(|k| *k == c)? as isize + d;
        if i < 0 {
            None
        } else {
            ks.get(i as usize).copied()
        }
    };
    match r {
        Ref::None => Some(None),
        Ref::Child(k) => match nth(v.children(parent).into_iter().filter(|i| v.usable(*i)).collect(), *k) {
            Some(c) => Some(Some(c)),
            None => Some(None),
        },
        Ref::Any(k) => pick(v, &Sel::N(*k)).map(Some),
        Ref::Same => child.map(Some),
        Ref::Next => Some(sib(1)).filter(|s| s.map_or(true, |i| v.usable(i))),
        Ref::Prev => Some(sib(-1)).filter(|s| s.map_or(true, |i| v.usable(i))),
    }
}

// ---------------------------------------------------------------------------------------------- operations

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Make {
    Elem,
    ElemNs,
    Attr,
    AttrWith,
    AttrNs,
    Text,
    CData,
    Comment,
    Pi,
    EntRef,
    Frag,
    Entity,
    IntEntity,
    Notation,
    DocType,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum CharOp {
    Append,
    Insert,
    Delete,
    Replace,
    Set,
    Unset,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create { make: Make, doc: u8, name: String, ns: String, data: String },
    Insert { p: Sel, c: Sel, r: Ref },
    Append { p: Sel, c: Sel },
    Replace { p: Sel, c: Sel, o: Ref },
    Remove { p: Sel, o: Ref },
    /// Take a node out of the parent it has.
    Detach { c: Sel },
    /// Insert one child of a parent before another.
    Reorder { c: Sel, k: u16 },
    Split { t: Sel, at: usize },
    Normalize { n: Sel },
    Clone { n: Sel, deep: bool },
    SetAttr { e: Sel, name: String, value: String },
    SetAttrNs { e: Sel, ns: String, name: String, value: String },
    RemAttr { e: Sel, name: String },
    RemAttrNs { e: Sel, ns: String, name: String },
    SetAttrNode { e: Sel, a: Sel, ns: bool },
    /// Remove an attribute the element has (`own`) or any.
    RemAttrNode { e: Sel, a: u16, own: bool },
    SetVal { n: Sel, value: String, via_attr: bool },
    UnsetVal { n: Sel, via_attr: bool },
    Chars { t: Sel, op: CharOp, off: usize, count: usize, data: String },
    /// Drop the handles of a node (P21 only).
    Drop { n: Sel },
}

/// An operation with its nodes resolved.
#[derive(Clone, Debug)]
pub enum Call {
    Create { make: Make, doc: usize, name: String, ns: String, data: String },
    Insert { p: usize, c: usize, r: Option<usize> },
    Append { p: usize, c: usize },
    Replace { p: usize, c: usize, o: usize },
    Remove { p: usize, o: usize },
    Split { t: usize, at: usize },
    Normalize { n: usize },
    Clone { n: usize, deep: bool },
    SetAttr { e: usize, name: String, value: String },
    SetAttrNs { e: usize, ns: String, name: String, value: String },
    RemAttr { e: usize, name: String },
    RemAttrNs { e: usize, ns: String, name: String },
    SetAttrNode { e: usize, a: usize, ns: bool },
    RemAttrNode { e: usize, a: usize },
    SetVal { n: usize, value: String, via_attr: bool },
    UnsetVal { n: usize, via_attr: bool },
    Chars { t: usize, op: CharOp, off: usize, count: usize, data: String },
}

pub fn resolve(v: &dyn View, op: &Op) -> Option<Call> {
    Some(match op {
        Op::Create { make, doc, name, ns, data } => Call::Create {
            make: *make,
            doc: pick(v, &Sel::D(*doc))?,
            name: name.clone(),
            ns: ns.clone(),
            data: data.clone(),
        },
        Op::Insert { p, c, r } => {
            let p = pick(v, p)?;
            let c = pick(v, c)?;
            Call::Insert { p, c, r: pick_ref(v, r, p, Some(c))? }
        }
        Op::Append { p, c } => Call::Append { p: pick(v, p)?, c: pick(v, c)? },
        Op::Replace { p, c, o } => {
            let p = pick(v, p)?;
            let c = pick(v, c)?;
            Call::Replace { p, c, o: pick_ref(v, o, p, Some(c))?? }
        }
        Op::Remove { p, o } => {
            let p = pick(v, p)?;
            Call::Remove { p, o: pick_ref(v, o, p, None)?? }
        }
        Op::Detach { c } => {
            let c = pick(v, c)?;
            Call::Remove { p: v.parent(c).filter(|p| v.usable(*p))?, o: c }
        }
        Op::Reorder { c, k } => {
            let c = pick(v, c)?;
            let p = v.parent(c).filter(|p| v.usable(*p))?;
            let ks: Vec<usize> = v.children(p);
            let r = nth(ks, *k).filter(|i| v.usable(*i))?;
            Call::Insert { p, c, r: Some(r) }
        }
        Op::Split { t, at } => Call::Split {
            t: pick(v, t).filter(|t| matches!(v.kind(*t), Text | CData))?,
            at: *at,
        },
        Op::Normalize { n } => Call::Normalize { n: pick(v, n)? },
        Op::Clone { n, deep } => Call::Clone { n: pick(v, n)?, deep: *deep },
        Op::SetAttr { e, name, value } => Call::SetAttr {
            e: pick(v, e)?,
            name: name.clone(),
            value: value.clone(),
        },
        Op::SetAttrNs { e, ns, name, value } => Call::SetAttrNs {
            e: pick(v, e)?,
            ns: ns.clone(),
            name: name.clone(),
            value: value.clone(),
        },
        Op::RemAttr { e, name } => Call::RemAttr { e: pick(v, e)?, name: name.clone() },
        Op::RemAttrNs { e, ns, name } => Call::RemAttrNs {
            e: pick(v, e)?,
            ns: ns.clone(),
            name: name.clone(),
        },
        Op::SetAttrNode { e, a, ns } => Call::SetAttrNode { e: pick(v, e)?, a: pick(v, a)?, ns: *ns },
        Op::RemAttrNode { e, a, own } => {
            let e = pick(v, e)?;
            let a = if *own {
                nth(v.attrs(e).into_iter().filter(|i| v.usable(*i)).collect(), *a)?
            } else {
                pick(v, &Sel::A(*a))?
            };
            Call::RemAttrNode { e, a }
        }
        Op::SetVal { n, value, via_attr } => Call::SetVal {
            n: pick(v, n)?,
            value: value.clone(),
            via_attr: *via_attr,
        },
        Op::UnsetVal { n, via_attr } => Call::UnsetVal { n: pick(v, n)?, via_attr: *via_attr },
        Op::Chars { t, op, off, count, data } => Call::Chars {
            t: pick(v, t).filter(|t| matches!(v.kind(*t), Text | CData | Comment))?,
            op: *op,
            off: *off,
            count: *count,
            data: data.clone(),
        },
        Op::Drop { .. } => return None,
    })
}

/// What a call gave: the node it returned, if it returns one.
pub type Got = Result<Option<RefNode>>;

/// Make the call on the crate. `at(i)` gives the node.
pub fn perform(at: &dyn Fn(usize) -> RefNode, c: &Call) -> Got {
    match c {
        Call::Create { make, doc, name, ns, data } => {
            let d = at(*doc);
            let doc = as_document(&d)?;
            let n = match make {
                Make::Elem => doc.create_element(name)?,
                Make::ElemNs => doc.create_element_ns(ns, name)?,
                Make::Attr => doc.create_attribute(name)?,
                Make::AttrWith => doc.create_attribute_with(name, data)?,
                Make::AttrNs => doc.create_attribute_ns(ns, name)?,
                Make::Text => doc.create_text_node(data),
                Make::CData => doc.create_cdata_section(data)?,
                Make::Comment => doc.create_comment(data),
                Make::Pi => doc.create_processing_instruction(name, (!data.is_empty()).then_some(data.as_str()))?,
                Make::EntRef => doc.create_entity_reference(name)?,
                Make::Frag => doc.create_document_fragment()?,
                Make::Entity => create_entity(d.clone(), name, None, Some(data))?,
                Make::IntEntity => create_internal_entity(d.clone(), name, data)?,
                Make::Notation => create_notation(d.clone(), name, Some(data), None)?,
                Make::DocType => get_implementation().create_document_type(name, Some(data), None)?,
            };
            Ok(Some(n))
        }
        Call::Insert { p, c, r } => at(*p).insert_before(at(*c), r.map(|r| at(r))).map(Some),
        Call::Append { p, c } => at(*p).append_child(at(*c)).map(Some),
        Call::Replace { p, c, o } => at(*p).replace_child(at(*c), at(*o)).map(Some),
        Call::Remove { p, o } => at(*p).remove_child(at(*o)).map(Some),
        Call::Split { t, at: off } => {
            let mut n = at(*t);
            if is_text(&n) {
                as_text_mut(&mut n)?.split(*off).map(Some)
            } else {
                as_cdata_section_mut(&mut n)?.split(*off).map(Some)
            }
        }
        Call::Normalize { n } => {
            at(*n).normalize();
            Ok(None)
        }
        Call::Clone { n, deep } => Ok(at(*n).clone_node(*deep)),
        Call::SetAttr { e, name, value } => {
            let mut e = at(*e);
            as_element_mut(&mut e)?.set_attribute(name, value)?;
            Ok(None)
        }
        Call::SetAttrNs { e, ns, name, value } => {
            let mut e = at(*e);
            as_element_mut(&mut e)?.set_attribute_ns(ns, name, value)?;
            Ok(None)
        }
        Call::RemAttr { e, name } => {
            let mut e = at(*e);
            as_element_mut(&mut e)?.remove_attribute(name)?;
            Ok(None)
        }
        Call::RemAttrNs { e, ns, name } => {
            let mut e = at(*e);
            as_element_mut(&mut e)?.remove_attribute_ns(ns, name)?;
            Ok(None)
        }
        Call::SetAttrNode { e, a, ns } => {
            let mut e = at(*e);
            let e = as_element_mut(&mut e)?;
            if *ns {
                e.set_attribute_node_ns(at(*a)).map(Some)
            } else {
                e.set_attribute_node(at(*a)).map(Some)
            }
        }
        Call::RemAttrNode { e, a } => {
            let mut e = at(*e);
            as_element_mut(&mut e)?.remove_attribute_node(at(*a)).map(Some)
        }
        Call::SetVal { n, value, via_attr } => {
            let mut n = at(*n);
            if *via_attr && is_attribute(&n) {
                as_attribute_mut(&mut n)?.set_value(value)?;
            } else {
                n.set_node_value(value)?;
            }
            Ok(None)
        }
        Call::UnsetVal { n, via_attr } => {
            let mut n = at(*n);
            if *via_attr && is_attribute(&n) {
                as_attribute_mut(&mut n)?.unset_value()?;
            } else {
                n.unset_node_value()?;
            }
            Ok(None)
        }
        Call::Chars { t, op, off, count, data } => {
            let mut n = at(*t);
            let n = as_character_data_mut(&mut n)?;
            match op {
                CharOp::Append => n.append_data(data)?,
                CharOp::Insert => n.insert_data(*off, data)?,
                CharOp::Delete => n.delete_data(*off, *count)?,
                CharOp::Replace => n.replace_data(*off, *count, data)?,
                CharOp::Set => n.set_data(data)?,
                CharOp::Unset => n.unset_data()?,
            }
            Ok(None)
        }
    }
}

pub fn new_document(root: Option<&str>, lax_ids: bool, namespaces: bool) -> RefNode {
    let mut o = ProcessingOptions::new();
    if lax_ids {
        o.set_assume_ids();
    }
    if namespaces {
        o.set_add_namespaces();
    }
    get_implementation_ext()
        .create_document_with_options(None, root, None, o)
        .expect("create_document_with_options")
}

/// What the two documents of a history start as.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    pub lax_ids: bool,
    pub namespaces: bool,
    /// Whether each document starts with a root element.
    pub roots: (bool, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub setup: Setup,
    pub ops: Vec<Op>,
    /// The first document is filled before the operations.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub big: Option<Big>,
    /// Strings are longer than the operations say.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub stretch: Option<Stretch>,
}

/// How to make the strings of a history long.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Stretch {
    pub values: u32,
    pub names: u32,
    pub how: u8,
}

pub fn grown(s: &str, n: u32, how: u8) -> String {
    let n = n as usize;
    let more = n.saturating_sub(s.chars().count());
    match how % 6 {
        _ if s.is_empty() || more == 0 => s.to_string(),
        0 => common::gen::stretch(s, n),
        1 => format!("{s}{}", "y".repeat(more)),
        2 => format!("{}{s}", "y".repeat(more)),
        3 => format!("{s}{}", "\u{e9}".repeat(more)),
        4 => format!("{}{s}", "\u{10000}".repeat(more)),
        _ => format!("{}{s}{}", "y".repeat(more / 2), "y".repeat(more - more / 2)),
    }
}

impl Stretch {
    fn value(&self, s: &mut String) {
        *s = grown(s, self.values, self.how);
    }

    /// The names that mean something stay as they are, and so do those that are no names.
    pub fn name(&self, s: &mut String) {
        let (prefix, local) = common::norm::split_qname(s);
        if prefix.is_none() && matches!(&local[..], "id" | "xmlns") || prefix.as_deref() == Some("xml") || !common::norm::is_qname(s) {
            return;
        }
        let how = if self.how % 6 == 0 { 1 } else { self.how };
        let local = grown(&local, self.names, how);
        *s = match prefix.as_deref() {
            None => local,
            Some("xmlns") => format!("xmlns:{local}"),
            Some(p) => format!("{}:{local}", grown(p, self.names / 2, how)),
        };
    }

    pub fn ns(&self, s: &mut String) {
        if s != XML_NS && s != XMLNS_NS && s != "*" {
            *s = grown(s, self.names, self.how);
        }
    }

    pub fn number(&self, n: &mut usize) {
        let all = self.values as usize;
        *n = match *n {
            2 => all / 2,
            3 => all.saturating_sub(1),
            4 => all,
            5 => all + 1,
            6 => 255,
            7 => 256,
            n => n,
        };
    }

    pub fn apply(&self, op: &mut Op) {
        match op {
            Op::Create { name, ns, data, .. } => {
                self.name(name);
                self.ns(ns);
                self.value(data);
            }
            Op::SetAttr { name, value, .. } => {
                self.name(name);
                self.value(value);
            }
            Op::SetAttrNs { ns, name, value, .. } => {
                self.ns(ns);
                self.name(name);
                self.value(value);
            }
            Op::RemAttr { name, .. } => self.name(name),
            Op::RemAttrNs { ns, name, .. } => {
                self.ns(ns);
                // A local name has no prefix; it is as long as that of the attribute.
                self.name(name);
            }
            Op::SetVal { value, .. } => self.value(value),
            Op::Split { at, .. } => self.number(at),
            Op::Chars { off, count, data, .. } => {
                self.number(off);
                self.number(count);
                // What is put in may be short.
                if *count % 2 == 0 {
                    self.value(data);
                }
            }
            _ => {}
        }
    }
}

impl History {
    pub fn ops(&self) -> Vec<Op> {
        let mut ops = self.ops.clone();
        if let Some(stretch) = &self.stretch {
            ops.iter_mut().for_each(|op| stretch.apply(op));
        }
        ops
    }
}

/// Short histories with long strings.
pub fn long(f: Focus) -> BoxedStrategy<History> {
    long_of(history(Focus { max: f.max.min(24).max(f.min), ..f }))
}

pub fn long_of(h: BoxedStrategy<History>) -> BoxedStrategy<History> {
    let (values, names) = (common::gen::length(70_000), common::gen::length(5_000));
    (h, values, names, 0u8..6, 0u8..4)
        .prop_map(|(mut h, values, names, how, what)| {
            h.stretch = Some(Stretch {
                values: if what == 0 { 1 } else { values as u32 },
                names: if what == 1 { 1 } else { names as u32 },
                how,
            });
            h
        })
        .boxed()
}

/// A document of many nodes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big {
    pub shape: Form,
    pub n: u16,
    /// Building it is what the property is about.
    pub own: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Form {
    /// Children of all kinds under the root.
    Wide,
    /// A chain of elements.
    Deep,
    /// Elements below one another in no regular way.
    Bushy,
    /// Attributes of the root, with and without namespaces.
    Attrs,
    /// Texts in a row, and as many in an attribute.
    Texts,
    /// Namespace declarations on the root.
    Decls,
    /// Elements with ids.
    Ids,
    /// Comments and instructions around the root.
    Misc,
}

impl Big {
    /// Fill a document, and compare what it holds with what it was given.
    pub fn build(&self, d: &RefNode) -> std::result::Result<(), String> {
        let e = |e: Error| format!("{e:?} while filling a document");
        let n = self.n as usize;
        let mut d = d.clone();
        let root = as_document(&d).map_err(e)?.document_element().ok_or("no root")?;
        // What is below what.
        let mut held: Vec<(RefNode, Vec<RefNode>)> = vec![];
        let mut attrs: Vec<(Option<String>, String, String)> = vec![];
        let element = |i: usize| as_document(&d).map_err(e)?.create_element(["a", "b", "x:a"][i % 3]).map_err(e);
        match self.shape {
            Form::Wide => {
                let mut kids = vec![];
                for i in 0..n {
                    let doc = as_document(&d).map_err(e)?;
                    let c = match i % 7 {
                        0 | 3 => element(i)?,
                        1 => doc.create_text_node("t"),
                        2 => doc.create_comment("c"),
                        4 => doc.create_cdata_section("d").map_err(e)?,
                        5 => doc.create_processing_instruction("p", None).map_err(e)?,
                        _ => doc.create_entity_reference("e").map_err(e)?,
                    };
                    root.clone().append_child(c.clone()).map_err(e)?;
                    kids.push(c);
                }
                held.push((root.clone(), kids));
            }
            Form::Deep => {
                let mut at = root.clone();
                for i in 0..n {
                    let c = element(i)?;
                    at.append_child(c.clone()).map_err(e)?;
                    held.push((at, vec![c.clone()]));
                    at = c;
                }
            }
            Form::Bushy => {
                held.push((root.clone(), vec![]));
                for i in 0..n {
                    let c = element(i)?;
                    let at = (i * 7 + i / 3) % held.len();
                    held[at].0.clone().insert_before(c.clone(), held[at].1.first().cloned()).map_err(e)?;
                    held[at].1.insert(0, c.clone());
                    held.push((c, vec![]));
                }
            }
            Form::Attrs => {
                for i in 0..n {
                    let (ns, name) = match i % 3 {
                        0 => (Some(format!("urn:{i}")), format!("x:n{i}")),
                        1 => (None, format!("n{i}")),
                        _ => (Some("urn:1".to_string()), format!("n{i}")),
                    };
                    let value = i.to_string();
                    let mut r = root.clone();
                    let r = as_element_mut(&mut r).map_err(e)?;
                    match &ns {
                        Some(ns) => r.set_attribute_ns(ns, &name, &value).map_err(e)?,
                        None => r.set_attribute(&name, &value).map_err(e)?,
                    }
                    attrs.push((ns, name, value));
                }
                for (i, name) in ["a", "b", "x:a", "id"].iter().enumerate() {
                    let mut r = root.clone();
                    as_element_mut(&mut r).map_err(e)?.set_attribute(name, &i.to_string()).map_err(e)?;
                    attrs.push((None, name.to_string(), i.to_string()));
                }
            }
            Form::Texts => {
                let mut a = as_document(&d).map_err(e)?.create_attribute("a").map_err(e)?;
                let (mut kids, mut inner) = (vec![], vec![]);
                for i in 0..n {
                    let c = as_document(&d).map_err(e)?.create_text_node(["x", "", "yz"][i % 3]);
                    root.clone().append_child(c.clone()).map_err(e)?;
                    kids.push(c);
                    let c = as_document(&d).map_err(e)?.create_text_node(["", "u"][i % 2]);
                    a.append_child(c.clone()).map_err(e)?;
                    inner.push(c);
                }
                let mut r = root.clone();
                as_element_mut(&mut r).map_err(e)?.set_attribute_node(a.clone()).map_err(e)?;
                held.push((root.clone(), kids));
                held.push((a, inner));
            }
            Form::Decls => {
                for i in 0..n {
                    let name = if i == n / 2 { "xmlns".to_string() } else { format!("xmlns:p{i}") };
                    let uri = format!("urn:{i}");
                    let mut r = root.clone();
                    as_element_mut(&mut r).map_err(e)?.set_attribute_ns(XMLNS_NS, &name, &uri).map_err(e)?;
                    attrs.push((Some(XMLNS_NS.into()), name, uri));
                }
            }
            Form::Ids => {
                let mut kids = vec![];
                for i in 0..n {
                    let c = element(i)?;
                    root.clone().append_child(c.clone()).map_err(e)?;
                    let mut el = c.clone();
                    as_element_mut(&mut el)
                        .map_err(e)?
                        .set_attribute_ns(XML_NS, "xml:id", &format!("i{i}"))
                        .map_err(e)?;
                    kids.push(c);
                }
                held.push((root.clone(), kids));
            }
            Form::Misc => {
                let mut kids = vec![root.clone()];
                for i in 0..n {
                    let doc = as_document(&d).map_err(e)?;
                    let c = match i % 2 {
                        0 => doc.create_comment("c"),
                        _ => doc.create_processing_instruction("p", Some("d")).map_err(e)?,
                    };
                    if i % 3 == 0 {
                        d.insert_before(c.clone(), Some(kids[0].clone())).map_err(e)?;
                        kids.insert(0, c);
                    } else {
                        d.append_child(c.clone()).map_err(e)?;
                        kids.push(c);
                    }
                }
                held.push((d.clone(), kids));
            }
        }
        for (p, kids) in &held {
            let got = p.child_nodes();
            if &got != kids {
                return Err(format!("a {:?} was given {} children and holds {}", kind_of(p), kids.len(), got.len()));
            }
        }
        if !attrs.is_empty() {
            let got = root.attributes();
            if got.len() != attrs.len() {
                return Err(format!("an element was given {} attributes and holds {}", attrs.len(), got.len()));
            }
            for (ns, name, value) in &attrs {
                let el = as_element(&root).map_err(e)?;
                let got = match ns {
                    Some(ns) => el.get_attribute_ns(ns, name.rsplit(':').next().unwrap_or(name)),
                    None => el.get_attribute(name),
                };
                if got.as_ref() != Some(value) {
                    return Err(format!("attribute {name} ({ns:?}) was set to {value:?} and is {got:?}"));
                }
            }
        }
        Ok(())
    }
}

/// Sizes on both sides of those at which a count could overflow or a container change its form.
pub fn sizes(most: u16) -> BoxedStrategy<u16> {
    prop_oneof![
        2 => 8u16..=most,
        2 => prop::sample::select(&[31u16, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513][..])
            .prop_map(move |n| n.min(most)),
    ]
    .boxed()
}

/// Histories on a large document.
pub fn large(f: Focus, shapes: &'static [Form], most: u16, own: bool) -> BoxedStrategy<History> {
    (
        any::<bool>(),
        prop::bool::weighted(0.8),
        any::<bool>(),
        prop::sample::select(shapes),
        sizes(most),
        prop::collection::vec(op(f), 3..14),
    )
        .prop_map(move |(lax_ids, namespaces, r1, shape, n, ops)| History {
            setup: Setup {
                lax_ids: if f.options { lax_ids } else { lax_ids && !namespaces },
                namespaces,
                roots: (true, r1),
            },
            ops,
            big: Some(Big { shape, n, own }),
            stretch: None,
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------- generators

/// What a history concentrates on: relative weights of the groups of operations.
#[derive(Clone, Copy)]
pub struct Focus {
    pub create: u32,
    pub tree: u32,
    pub attr: u32,
    pub text: u32,
    pub norm: u32,
    pub clone: u32,
    pub value: u32,
    pub odd: u32,
    pub drop: u32,
    pub min: usize,
    pub max: usize,
    pub names: &'static [&'static str],
    pub nss: &'static [&'static str],
    pub values: fn() -> BoxedStrategy<String>,
    pub makes: &'static [(u32, Make)],
    pub options: bool,
}

pub const TREE_MAKES: &[(u32, Make)] = &[
    (8, Make::Elem),
    (1, Make::ElemNs),
    (3, Make::Text),
    (2, Make::CData),
    (2, Make::Comment),
    (2, Make::Pi),
    (2, Make::EntRef),
    (1, Make::Frag),
    (1, Make::AttrWith),
    (1, Make::AttrNs),
    (1, Make::IntEntity),
];

pub const ATTR_MAKES: &[(u32, Make)] = &[
    (4, Make::Elem),
    (4, Make::AttrWith),
    (2, Make::Attr),
    (4, Make::AttrNs),
    (1, Make::Text),
];

pub const NAMES: &[&str] = &["a", "b", "c", "d", "x:a", "y:a"];
pub const ATTR_NAMES: &[&str] = &["a", "b", "A", "x:a", "y:a", "X:a", "x:A", "ab", "xml:a", "id", "xmlns:p", "\u{10000}b", "a-name-of-some-length"];
pub const ATTR_NSS: &[&str] = &["urn:1", "urn:2", "URN:1", XML_NS, XMLNS_NS];
pub const NSS: &[&str] = &["urn:1", "urn:2"];

pub fn short_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        3 => "[a-c]{1,3}",
        1 => "[\r\n\t ab]{1,3}",
        1 => common::gen::string_of(common::gen::xml_char(), 4),
    ]
    .boxed()
}

pub fn id_values() -> BoxedStrategy<String> {
    prop::sample::select(&["i1", "i2", "i3", "i4", "i1", "i2", "i3", "urn:1", "I1", "i", "i 1", "i1:", "12", "-", "a.b", "#i1", "\u{e9}", "\u{10000}", "i1;", "*"][..])
        .prop_map(String::from)
        .boxed()
}

pub const BALANCED: Focus = Focus {
    create: 20,
    tree: 45,
    attr: 12,
    text: 6,
    norm: 4,
    clone: 4,
    value: 4,
    odd: 8,
    drop: 0,
    min: 1,
    max: 40,
    names: NAMES,
    nss: NSS,
    values: short_text,
    makes: TREE_MAKES,
    options: false,
};

fn sel_parent() -> BoxedStrategy<Sel> {
    prop_oneof![
        6 => any::<u16>().prop_map(Sel::P),
        4 => any::<u16>().prop_map(Sel::E),
        1 => any::<u8>().prop_map(Sel::D),
    ]
    .boxed()
}

fn sel_child() -> BoxedStrategy<Sel> {
    prop_oneof![
        6 => any::<u16>().prop_map(Sel::C),
        3 => any::<u8>().prop_map(Sel::L),
        3 => any::<u16>().prop_map(Sel::K),
        1 => any::<u16>().prop_map(Sel::E),
    ]
    .boxed()
}

fn sel_any() -> BoxedStrategy<Sel> {
    prop_oneof![
        3 => any::<u16>().prop_map(Sel::N),
        1 => any::<u16>().prop_map(Sel::P),
        1 => any::<u16>().prop_map(Sel::A),
    ]
    .boxed()
}

fn ref_child() -> BoxedStrategy<Ref> {
    prop_oneof![
        8 => any::<u16>().prop_map(Ref::Child),
        1 => Just(Ref::None),
        1 => Just(Ref::Same),
        1 => Just(Ref::Next),
        1 => Just(Ref::Prev),
        1 => any::<u16>().prop_map(Ref::Any),
    ]
    .boxed()
}

pub fn offset() -> BoxedStrategy<usize> {
    prop_oneof![
        8 => 0usize..8,
        1 => Just(usize::MAX),
        1 => any::<usize>(),
    ]
    .boxed()
}

pub fn pool(names: &'static [&'static str]) -> BoxedStrategy<String> {
    prop::sample::select(names).prop_map(String::from).boxed()
}

pub fn op(f: Focus) -> BoxedStrategy<Op> {
    let mut arms: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let makes: Vec<(u32, BoxedStrategy<Make>)> = f
        .makes
        .iter()
        .map(|(w, m)| (*w, Just(*m).boxed()))
        .collect();
    let make = prop::strategy::Union::new_weighted(makes);
    if f.create > 0 {
        arms.push((
            f.create,
            (make, prop::bool::weighted(0.12), pool(f.names), pool(f.nss), (f.values)())
                .prop_map(|(make, other, name, ns, data)| Op::Create {
                    make,
                    doc: other as u8,
                    name,
                    ns,
                    data,
                })
                .boxed(),
        ));
    }
    if f.tree > 0 {
        arms.push((
            f.tree,
            prop_oneof![
                5 => (sel_parent(), sel_child(), ref_child()).prop_map(|(p, c, r)| Op::Insert { p, c, r }),
                4 => (sel_parent(), sel_child()).prop_map(|(p, c)| Op::Append { p, c }),
                4 => (sel_parent(), sel_child(), ref_child()).prop_map(|(p, c, o)| Op::Replace { p, c, o }),
                2 => (sel_parent(), ref_child()).prop_map(|(p, o)| Op::Remove { p, o }),
                1 => any::<u16>().prop_map(|c| Op::Detach { c: Sel::K(c) }),
                3 => (any::<u16>(), any::<u16>()).prop_map(|(c, k)| Op::Reorder { c: Sel::K(c), k }),
            ]
            .boxed(),
        ));
    }
    if f.attr > 0 {
        let e = || any::<u16>().prop_map(Sel::E);
        arms.push((
            f.attr,
            prop_oneof![
                4 => (e(), pool(f.names), (f.values)()).prop_map(|(e, name, value)| Op::SetAttr { e, name, value }),
                4 => (e(), pool(f.nss), pool(f.names), (f.values)())
                    .prop_map(|(e, ns, name, value)| Op::SetAttrNs { e, ns, name, value }),
                2 => (e(), pool(f.names)).prop_map(|(e, name)| Op::RemAttr { e, name }),
                2 => (e(), pool(f.nss), pool(f.names)).prop_map(|(e, ns, name)| Op::RemAttrNs {
                    e,
                    ns,
                    name: common::norm::split_qname(&name).1
                }),
                4 => (e(), any::<u16>(), any::<bool>()).prop_map(|(e, a, ns)| Op::SetAttrNode { e, a: Sel::A(a), ns }),
                3 => (e(), any::<u16>(), prop::bool::weighted(0.7))
                    .prop_map(|(e, a, own)| Op::RemAttrNode { e, a, own }),
            ]
            .boxed(),
        ));
    }
    if f.value > 0 {
        arms.push((
            f.value,
            prop_oneof![
                4 => (any::<u16>(), (f.values)(), any::<bool>())
                    .prop_map(|(a, value, via_attr)| Op::SetVal { n: Sel::A(a), value, via_attr }),
                1 => (any::<u16>(), any::<bool>()).prop_map(|(a, via_attr)| Op::UnsetVal { n: Sel::A(a), via_attr }),
                1 => (sel_any(), (f.values)()).prop_map(|(n, value)| Op::SetVal { n, value, via_attr: false }),
            ]
            .boxed(),
        ));
    }
    if f.text > 0 {
        let t = || any::<u16>().prop_map(Sel::T);
        arms.push((
            f.text,
            prop_oneof![
                2 => (t(), offset()).prop_map(|(t, at)| Op::Split { t, at }),
                2 => (
                    t(),
                    prop::sample::select(
                        &[CharOp::Append, CharOp::Insert, CharOp::Delete, CharOp::Replace, CharOp::Set, CharOp::Unset][..]
                    ),
                    offset(),
                    offset(),
                    (f.values)()
                )
                    .prop_map(|(t, op, off, count, data)| Op::Chars { t, op, off, count, data }),
            ]
            .boxed(),
        ));
    }
    if f.norm > 0 {
        arms.push((f.norm, sel_any().prop_map(|n| Op::Normalize { n }).boxed()));
    }
    if f.clone > 0 {
        arms.push((
            f.clone,
            (sel_any(), any::<bool>()).prop_map(|(n, deep)| Op::Clone { n, deep }).boxed(),
        ));
    }
    if f.odd > 0 {
        // Requests that are most likely to break a rule.
        arms.push((
            f.odd,
            prop_oneof![
                3 => (sel_any(), sel_any(), ref_child()).prop_map(|(p, c, r)| Op::Insert { p, c, r }),
                2 => (sel_any(), sel_any()).prop_map(|(p, c)| Op::Append { p, c }),
                2 => (sel_any(), sel_any(), ref_child()).prop_map(|(p, c, o)| Op::Replace { p, c, o }),
                1 => (sel_any(), any::<u16>()).prop_map(|(p, k)| Op::Remove { p, o: Ref::Any(k) }),
                1 => (any::<u16>(), sel_any(), any::<bool>()).prop_map(|(e, a, ns)| Op::SetAttrNode { e: Sel::E(e), a, ns }),
                1 => (any::<u16>(), any::<u16>()).prop_map(|(e, a)| Op::RemAttrNode { e: Sel::E(e), a, own: false }),
            ]
            .boxed(),
        ));
    }
    if f.drop > 0 {
        arms.push((
            f.drop,
            prop_oneof![
                6 => any::<u16>().prop_map(|k| Op::Drop { n: Sel::N(k) }),
                1 => any::<u8>().prop_map(|k| Op::Drop { n: Sel::D(k) }),
                2 => any::<u16>().prop_map(|k| Op::Drop { n: Sel::P(k) }),
            ]
            .boxed(),
        ));
    }
    prop::strategy::Union::new_weighted(arms).boxed()
}

/// A node created and put below an element at once.
fn plant(f: Focus) -> BoxedStrategy<[Op; 2]> {
    let make = prop_oneof![
        6 => Just(Make::Elem),
        2 => Just(Make::ElemNs),
        3 => Just(Make::Text),
        1 => Just(Make::CData),
        1 => Just(Make::Comment),
        1 => Just(Make::EntRef),
        2 => Just(Make::AttrWith),
        1 => Just(Make::AttrNs),
    ];
    let at = prop_oneof![2 => any::<u8>().prop_map(Sel::R), 1 => any::<u16>().prop_map(Sel::E)];
    (make, pool(f.names), pool(f.nss), (f.values)(), at)
        .prop_map(|(make, name, ns, data, at)| {
            let attribute = matches!(make, Make::AttrWith | Make::AttrNs);
            let create = Op::Create { make, doc: 0, name, ns, data };
            // The element is chosen before there is a new one.
            let put = if attribute {
                Op::SetAttrNode { e: at, a: Sel::L(0), ns: make == Make::AttrNs }
            } else if matches!(make, Make::Elem | Make::ElemNs) {
                match at {
                    Sel::R(k) => Op::Append { p: Sel::R(k % 2 + 1), c: Sel::L(0) },
                    at => Op::Append { p: at, c: Sel::L(0) },
                }
            } else {
                Op::Append { p: at, c: Sel::L(0) }
            };
            [create, put]
        })
        .boxed()
}

pub fn history(f: Focus) -> BoxedStrategy<History> {
    let setup = if f.options {
        (any::<bool>(), prop::bool::weighted(0.7)).boxed()
    } else {
        // Once in a while, whatever the history is about.
        prop_oneof![4 => Just((false, true)), 1 => (any::<bool>(), any::<bool>())].boxed()
    };
    (
        setup,
        prop::bool::weighted(0.85),
        prop::bool::weighted(0.5),
        // A few creations first, so there is something to work on.
        prop::collection::vec(op(Focus { tree: 0, attr: 0, text: 0, norm: 0, clone: 0, value: 0, odd: 0, drop: 0, ..f }), 2..8),
        // Sometimes a tree as well.
        prop_oneof![
            1 => Just(vec![]),
            1 => prop::collection::vec(plant(f), 1..14),
        ],
        prop::collection::vec(op(f), f.min..=f.max),
    )
        .prop_map(|((lax_ids, namespaces), r0, r1, mut first, planted, rest)| {
            first.extend(planted.into_iter().flatten());
            first.extend(rest);
            History {
                setup: Setup { lax_ids, namespaces, roots: (r0, r1) },
                ops: first,
                big: None,
                stretch: None,
            }
        })
        .boxed()
}

//! The reference model of the DOM: an arena of nodes, what each call should do to it, and the comparison of
//! the nodes of the crate with it.
use crate::world::{table_allows, Call, CharOp, Kind, Kind::*, Make, Setup, View, XMLNS_NS, XML_NS};
use crate::world::{kind_of, new_document, perform};
use common::norm;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::as_element_namespaced;
use xml_dom::level2::ext::NamespacePrefix;
use xml_dom::level2::*;

#[derive(Clone, Debug)]
pub struct MNode {
    pub kind: Kind,
    pub name: String,
    pub ns: Option<String>,
    pub value: Option<String>,
    pub doc: Option<usize>,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub attrs: Vec<usize>,
    pub owner: Option<usize>,
    /// An attribute that came to its element by cloning, not by being set.
    pub cloned: bool,
    /// Nothing keeps the node any more.
    pub dead: bool,
    /// The handle held.
    pub real: Option<RefNode>,
}

/// What part of the state a difference is in.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Aspect {
    /// Parents, children, siblings.
    Tree,
    /// Owner documents.
    Docs,
    /// Attribute collections, lookups and owners.
    Attrs,
    /// Values and data.
    Value,
    /// Kinds and names.
    Identity,
    /// Lookup by id.
    Ids,
    /// Namespace mappings.
    Ns,
}

pub type Diffs = Vec<(Aspect, String)>;

pub enum Exp {
    /// Succeeds, giving this node if it gives one that is to be checked.
    Ok(Give),
    /// Fails with one of these.
    Err(Vec<Error>),
    /// Not decided by the model: do not make this call.
    Skip,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Give {
    Nothing,
    Node(usize),
    New,
}

/// How a call went.
#[derive(Debug)]
pub struct Step {
    pub expected_err: Option<Vec<Error>>,
    pub got_err: Option<Error>,
    /// A wrong node was returned.
    pub wrong_return: Option<String>,
    /// Differences between the nodes and the model afterwards.
    pub diffs: Diffs,
}

impl Step {
    pub fn agrees(&self) -> bool {
        self.diffs.is_empty()
            && self.wrong_return.is_none()
            && match (&self.expected_err, &self.got_err) {
                (None, None) => true,
                (Some(e), Some(g)) => e.contains(g),
                _ => false,
            }
    }
    pub fn unexpected_err(&self) -> bool {
        self.expected_err.is_none() && self.got_err.is_some()
    }
    pub fn unexpected_ok(&self) -> bool {
        self.expected_err.is_some() && self.got_err.is_none()
    }
    pub fn wrong_err(&self) -> bool {
        matches!((&self.expected_err, &self.got_err), (Some(e), Some(g)) if !e.contains(g))
    }
    pub fn has(&self, aspects: &[Aspect]) -> bool {
        self.diffs.iter().any(|(a, _)| aspects.contains(a))
    }
    pub fn describe(&self) -> String {
        format!(
            "expected {}, got {}{}{}",
            match &self.expected_err {
                None => "success".to_string(),
                Some(e) => format!("one of {e:?}"),
            },
            match &self.got_err {
                None => "success".to_string(),
                Some(e) => format!("{e:?}"),
            },
            match &self.wrong_return {
                None => String::new(),
                Some(s) => format!("; {s}"),
            },
            if self.diffs.is_empty() {
                String::new()
            } else {
                format!("; differences: {:?}", &self.diffs[..self.diffs.len().min(4)])
            }
        )
    }
}

pub struct Model {
    pub nodes: Vec<MNode>,
    pub docs: Vec<usize>,
    pub lax: bool,
    pub ns_on: bool,
    /// Handles are dropped in this history.
    pub drops: bool,
    pub check_ids: bool,
    pub check_ns: bool,
    pub seen_ids: BTreeSet<String>,
    pub seen_uris: BTreeSet<String>,
    by_ptr: HashMap<usize, usize>,
    /// No more nodes are created beyond this many.
    pub cap: usize,
}

pub fn ptr(n: &RefNode) -> usize {
    std::rc::Rc::as_ptr(n.as_inner()) as *const () as usize
}

pub fn utf16(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

/// The result of a splice in UTF-16 units, or an index error.
pub fn splice(s: &str, off: usize, count: usize, with: &str) -> Result<String> {
    let u = utf16(s);
    if off > u.len() {
        return Err(Error::IndexSize);
    }
    let end = off.saturating_add(count).min(u.len());
    let cut = |at: usize| at > 0 && at < u.len() && (0xDC00..0xE000).contains(&u[at]);
    if cut(off) || cut(end) {
        return Err(Error::IndexSize);
    }
    let mut out = String::from_utf16(&u[..off]).unwrap();
    out.push_str(with);
    out.push_str(&String::from_utf16(&u[end..]).unwrap());
    Ok(out)
}

/// What a character data operation makes of a value (`None` is a node without data).
pub fn char_op(old: &Option<String>, op: CharOp, off: usize, count: usize, data: &str) -> Result<Option<String>> {
    let replace = |off, count, data: &str| match old {
        None if off == 0 => Ok(Some(data.to_string())),
        None => Err(Error::IndexSize),
        Some(s) => splice(s, off, count, data).map(Some),
    };
    match op {
        CharOp::Set => Ok(Some(data.to_string())),
        CharOp::Unset => Ok(None),
        CharOp::Append if data.is_empty() => Ok(old.clone()),
        CharOp::Append => Ok(Some(format!("{}{}", old.clone().unwrap_or_default(), data))),
        CharOp::Insert if data.is_empty() => Ok(old.clone()),
        CharOp::Insert => replace(off, 0, data),
        CharOp::Delete if count == 0 => Ok(old.clone()),
        CharOp::Delete => replace(off, count, ""),
        CharOp::Replace => replace(off, count, data),
    }
}

pub fn is_id(name: &str, ns: Option<&str>, lax: bool) -> bool {
    let (prefix, local) = norm::split_qname(name);
    local == "id" && (lax || ns == Some(XML_NS) || prefix.as_deref() == Some("xml"))
}

/// The prefix a namespace attribute declares.
pub fn declares(name: &str, ns: Option<&str>) -> Option<Option<String>> {
    if ns != Some(XMLNS_NS) {
        return None;
    }
    match norm::split_qname(name) {
        (None, l) if l == "xmlns" => Some(None),
        (Some(p), l) if p == "xmlns" => Some(Some(l)),
        _ => None,
    }
}

/// Whether a qualified name may be used with a namespace.
pub fn ns_name_ok(ns: &str, name: &str) -> bool {
    if ns.is_empty() || !norm::is_qname(name) {
        return false;
    }
    let (prefix, local) = norm::split_qname(name);
    let p = prefix.as_deref();
    !((p == Some("xml") || local == "xml") && ns != XML_NS) && !((p == Some("xmlns") || local == "xmlns") && ns != XMLNS_NS)
}

const NAME_ERRORS: &[Error] = &[Error::InvalidCharacter, Error::Syntax, Error::Namespace];

impl View for Model {
    fn len(&self) -> usize {
        self.nodes.len()
    }
    fn kind(&self, i: usize) -> Kind {
        self.nodes[i].kind
    }
    fn children(&self, i: usize) -> Vec<usize> {
        self.nodes[i].children.clone()
    }
    fn parent(&self, i: usize) -> Option<usize> {
        if self.nodes[i].kind == Attr {
            None
        } else {
            self.nodes[i].parent
        }
    }
    fn attrs(&self, i: usize) -> Vec<usize> {
        self.nodes[i].attrs.clone()
    }
    fn usable(&self, i: usize) -> bool {
        self.nodes[i].real.is_some()
    }
}

impl Model {
    fn empty(lax: bool, ns_on: bool) -> Model {
        Model {
            nodes: vec![],
            docs: vec![],
            lax,
            ns_on,
            drops: false,
            check_ids: false,
            check_ns: false,
            seen_ids: ["i1", "i2", "i3"].iter().map(|s| s.to_string()).collect(),
            seen_uris: ["urn:1", "urn:2"].iter().map(|s| s.to_string()).collect(),
            by_ptr: HashMap::new(),
            cap: 90,
        }
    }

    /// A model of documents that exist already, as they are.
    pub fn of(docs: &[RefNode], lax: bool, ns_on: bool) -> Model {
        let mut m = Model::empty(lax, ns_on);
        for d in docs {
            let at = m.take(d, None);
            m.docs.push(at);
        }
        m
    }

    fn take(&mut self, n: &RefNode, doc: Option<usize>) -> usize {
        let name = n.node_name();
        let kind = kind_of(n);
        let value = if kind == Attr { None } else { n.node_value() };
        let i = self.push(kind, &name.to_string(), name.namespace_uri().as_deref(), value.as_deref(), doc);
        self.nodes[i].real = Some(n.clone());
        self.by_ptr.insert(ptr(n), i);
        let doc = doc.or((kind == Doc).then_some(i));
        for c in n.child_nodes() {
            let c = self.take(&c, doc);
            self.nodes[c].parent = Some(i);
            self.nodes[i].children.push(c);
        }
        let mut attrs: Vec<RefNode> = n.attributes().into_values().collect();
        attrs.sort_by_key(|a| a.node_name().to_string());
        for a in attrs {
            let a = self.take(&a, doc);
            self.nodes[a].owner = Some(i);
            self.nodes[i].attrs.push(a);
            if let (true, Some(v)) = (self.attr_is_id(a), self.attr_value(a)) {
                self.seen_ids.insert(v);
            }
        }
        i
    }

    pub fn new(setup: &Setup) -> Model {
        let mut m = Model::empty(setup.lax_ids, setup.namespaces);
        for root in [setup.roots.0, setup.roots.1] {
            let real = new_document(root.then_some("root"), m.lax, m.ns_on);
            let d = m.push(Doc, "#document", None, None, None);
            m.nodes[d].doc = None;
            m.docs.push(d);
            if root {
                let e = m.push(Elem, "root", None, None, Some(d));
                m.nodes[d].children.push(e);
                m.nodes[e].parent = Some(d);
            }
            let _ = m.bind(d, &real);
        }
        m
    }

    fn push(&mut self, kind: Kind, name: &str, ns: Option<&str>, value: Option<&str>, doc: Option<usize>) -> usize {
        self.nodes.push(MNode {
            kind,
            name: name.to_string(),
            ns: ns.map(String::from),
            value: value.map(String::from),
            doc,
            parent: None,
            children: vec![],
            attrs: vec![],
            owner: None,
            cloned: false,
            dead: false,
            real: None,
        });
        self.nodes.len() - 1
    }

    pub fn at(&self, i: usize) -> RefNode {
        self.nodes[i].real.clone().expect("an unbound node")
    }

    pub fn find(&self, n: &RefNode) -> Option<usize> {
        self.by_ptr.get(&ptr(n)).copied()
    }

    /// Pair a model node, and the nodes below it that are not paired yet, with real ones.
    fn bind(&mut self, i: usize, real: &RefNode) -> bool {
        if let Some(old) = &self.nodes[i].real {
            return old == real;
        }
        if self.by_ptr.contains_key(&ptr(real)) || kind_of(real) != self.nodes[i].kind {
            return false;
        }
        self.nodes[i].real = Some(real.clone());
        self.by_ptr.insert(ptr(real), i);
        let mut ok = true;
        let kids = real.child_nodes();
        for (k, c) in self.nodes[i].children.clone().into_iter().enumerate() {
            match kids.get(k) {
                Some(rc) => ok &= self.bind(c, rc),
                None => ok = false,
            }
        }
        let attrs = real.attributes();
        for a in self.nodes[i].attrs.clone() {
            let name = self.nodes[a].name.clone();
            match attrs.values().find(|x| x.node_name().to_string() == name) {
                Some(ra) => ok &= self.bind(a, ra),
                None => ok = false,
            }
        }
        ok
    }

    pub fn doc_of(&self, i: usize) -> Option<usize> {
        if self.nodes[i].kind == Doc {
            Some(i)
        } else {
            self.nodes[i].doc
        }
    }

    /// `a` is `i` or above it; an attribute counts its element as above it.
    pub fn is_self_or_ancestor(&self, a: usize, i: usize) -> bool {
        let mut cur = Some(i);
        while let Some(c) = cur {
            if c == a {
                return true;
            }
            cur = if self.nodes[c].kind == Attr { self.nodes[c].owner } else { self.nodes[c].parent };
        }
        false
    }

    /// The concatenated text of an attribute, if it has a value.
    pub fn raw_attr(&self, a: usize) -> Option<String> {
        if self.nodes[a].children.is_empty() {
            return None;
        }
        let mut s = String::new();
        for c in &self.nodes[a].children {
            if self.nodes[*c].kind == Text {
                s.push_str(self.nodes[*c].value.as_deref().unwrap_or(""));
            }
        }
        Some(s)
    }

    pub fn attr_value(&self, a: usize) -> Option<String> {
        self.raw_attr(a).map(|s| norm::attribute_value(&s))
    }

    fn attr_is_id(&self, a: usize) -> bool {
        is_id(&self.nodes[a].name, self.nodes[a].ns.as_deref(), self.lax)
    }

    /// The elements of a document that have an id by having it set: (registered, only cloned).
    pub fn carriers(&self, doc: usize, id: &str) -> (Vec<usize>, Vec<usize>) {
        let (mut set, mut cloned) = (vec![], vec![]);
        for e in 0..self.nodes.len() {
            if self.nodes[e].kind != Elem || self.nodes[e].doc != Some(doc) || self.nodes[e].dead {
                continue;
            }
            let has = |c: bool| {
                self.nodes[e].attrs.iter().any(|a| {
                    self.nodes[*a].cloned == c && self.attr_is_id(*a) && self.attr_value(*a).as_deref() == Some(id)
                })
            };
            if has(false) {
                set.push(e);
            } else if has(true) {
                cloned.push(e);
            }
        }
        (set, cloned)
    }

    pub fn mappings(&self, e: usize) -> BTreeMap<Option<String>, String> {
        let mut m = BTreeMap::new();
        // Whether mappings are kept is an option of the document: without one they are off.
        if !self.ns_on || self.nodes[e].doc.map_or(true, |d| self.nodes[d].dead) {
            return m;
        }
        for a in &self.nodes[e].attrs {
            if let Some(p) = declares(&self.nodes[*a].name, self.nodes[*a].ns.as_deref()) {
                if let Some(v) = self.attr_value(*a) {
                    m.insert(p, v);
                }
            }
        }
        m
    }

    /// The attribute whose id or namespace declaration depends on this node (an attribute or the text in one).
    fn in_special_attr(&self, i: usize) -> bool {
        let special = |a: usize| {
            let n = &self.nodes[a];
            n.kind == Attr && n.owner.is_some() && (is_id(&n.name, n.ns.as_deref(), true) || n.ns.as_deref() == Some(XMLNS_NS))
        };
        special(i) || self.nodes[i].parent.map_or(false, special)
    }

    fn subtree(&self, n: usize) -> Vec<usize> {
        let mut out = vec![n];
        let mut k = 0;
        while k < out.len() {
            let i = out[k];
            out.extend(self.nodes[i].children.iter().copied());
            out.extend(self.nodes[i].attrs.iter().copied());
            k += 1;
        }
        out
    }

    fn same_attr(&self, a: usize, b: usize) -> bool {
        let (x, y) = (&self.nodes[a], &self.nodes[b]);
        x.name == y.name
            || (x.ns.is_some() && x.ns == y.ns && norm::split_qname(&x.name).1 == norm::split_qname(&y.name).1)
    }

    fn insert_errors(&self, p: usize, c: usize, except: Option<usize>) -> Vec<Error> {
        let mut errs = vec![];
        let (pk, ck) = (self.nodes[p].kind, self.nodes[c].kind);
        if !table_allows(pk, ck) || self.is_self_or_ancestor(c, p) {
            errs.push(Error::HierarchyRequest);
        }
        if pk == Doc
            && ck == Elem
            && self.nodes[p]
                .children
                .iter()
                .any(|k| self.nodes[*k].kind == Elem && *k != c && Some(*k) != except)
        {
            errs.push(Error::HierarchyRequest);
        }
        if self.doc_of(p) != self.doc_of(c) {
            errs.push(Error::WrongDocument);
        }
        errs
    }

    /// What the call should do. Does not change the model.
    pub fn expect(&self, call: &Call) -> Exp {
        let k = |i: usize| self.nodes[i].kind;
        match call {
            Call::Create { make, name, ns, data, .. } => {
                let by_name = |ok: bool| if ok { Exp::Ok(Give::New) } else { Exp::Err(NAME_ERRORS.to_vec()) };
                match make {
                    Make::Text | Make::CData | Make::Comment | Make::Frag => Exp::Ok(Give::New),
                    Make::ElemNs | Make::AttrNs => by_name(ns_name_ok(ns, name)),
                    Make::Pi => by_name(norm::is_qname(name) && !name.eq_ignore_ascii_case("xml")),
                    _ => {
                        let _ = data;
                        by_name(norm::is_qname(name))
                    }
                }
            }
            Call::Append { p, c } => self.expect(&Call::Insert { p: *p, c: *c, r: None }),
            Call::Insert { p, c, r } => {
                if self.in_special_attr(*p) || self.in_special_attr(*c) {
                    return Exp::Skip;
                }
                let mut errs = self.insert_errors(*p, *c, None);
                if r.map_or(false, |r| !self.nodes[*p].children.contains(&r)) {
                    errs.push(Error::NotFound);
                }
                if errs.is_empty() {
                    Exp::Ok(Give::Node(*c))
                } else {
                    Exp::Err(errs)
                }
            }
            Call::Replace { p, c, o } => {
                if self.in_special_attr(*p) || self.in_special_attr(*c) {
                    return Exp::Skip;
                }
                let mut errs = self.insert_errors(*p, *c, Some(*o));
                if !self.nodes[*p].children.contains(o) {
                    errs.push(Error::NotFound);
                }
                if errs.is_empty() {
                    Exp::Ok(Give::Node(*o))
                } else {
                    Exp::Err(errs)
                }
            }
            Call::Remove { p, o } => {
                if self.in_special_attr(*p) {
                    Exp::Skip
                } else if self.nodes[*p].children.contains(o) {
                    Exp::Ok(Give::Node(*o))
                } else {
                    Exp::Err(vec![Error::NotFound])
                }
            }
            Call::Split { t, at } => {
                let v = self.nodes[*t].value.clone().unwrap_or_default();
                let n = utf16(&v).len();
                if *at < n && splice(&v, *at, 0, "").is_err() {
                    Exp::Err(vec![Error::IndexSize])
                } else {
                    Exp::Ok(Give::New)
                }
            }
            Call::Normalize { n } => {
                let hidden = self
                    .subtree(*n)
                    .into_iter()
                    .any(|i| k(i) == Attr && self.in_special_attr(i) && self.raw_attr(i).as_deref() == Some(""));
                if hidden {
                    Exp::Skip
                } else {
                    Exp::Ok(Give::Nothing)
                }
            }
            Call::Clone { n, deep } => match k(*n) {
                Doc | DocType | Entity | Notation => Exp::Skip,
                Attr if !deep => Exp::Skip,
                _ => Exp::Ok(Give::New),
            },
            Call::SetAttr { e, name, value } => {
                if k(*e) != Elem {
                    Exp::Err(vec![Error::InvalidState])
                } else if !norm::is_qname(name) {
                    Exp::Err(NAME_ERRORS.to_vec())
                } else {
                    self.id_verdict(*e, name, None, Some(value))
                }
            }
            Call::SetAttrNs { e, ns, name, value } => {
                if k(*e) != Elem {
                    Exp::Err(vec![Error::InvalidState])
                } else if !ns_name_ok(ns, name) {
                    Exp::Err(NAME_ERRORS.to_vec())
                } else {
                    self.id_verdict(*e, name, Some(ns), Some(value))
                }
            }
            Call::RemAttr { e, .. } | Call::RemAttrNs { e, .. } => {
                if k(*e) != Elem {
                    Exp::Err(vec![Error::InvalidState])
                } else {
                    Exp::Ok(Give::Nothing)
                }
            }
            Call::SetAttrNode { e, a, .. } => {
                if k(*e) != Elem || k(*a) != Attr {
                    return Exp::Err(vec![Error::InvalidState]);
                }
                let mut errs = vec![];
                if self.doc_of(*e) != self.doc_of(*a) {
                    errs.push(Error::WrongDocument);
                }
                if self.is_self_or_ancestor(*a, *e) {
                    errs.push(Error::HierarchyRequest);
                }
                if self.nodes[*a].owner.map_or(false, |o| o != *e) {
                    errs.push(Error::InUseAttribute);
                }
                let n = &self.nodes[*a];
                match self.id_verdict(*e, &n.name, n.ns.as_deref(), self.raw_attr(*a).as_deref()) {
                    Exp::Err(more) => errs.extend(more),
                    Exp::Skip if errs.is_empty() => return Exp::Skip,
                    _ => (),
                }
                if errs.is_empty() {
                    Exp::Ok(Give::Nothing)
                } else {
                    Exp::Err(errs)
                }
            }
            Call::RemAttrNode { e, a } => {
                if k(*e) != Elem {
                    Exp::Err(vec![Error::InvalidState])
                } else if self.nodes[*e].attrs.contains(a) {
                    Exp::Ok(Give::Node(*a))
                } else {
                    Exp::Err(vec![Error::NotFound])
                }
            }
            Call::SetVal { n, value, .. } => match k(*n) {
                Attr => match self.nodes[*n].owner {
                    Some(e) => {
                        let a = &self.nodes[*n];
                        self.id_verdict(e, &a.name, a.ns.as_deref(), Some(value))
                    }
                    None => Exp::Ok(Give::Nothing),
                },
                Entity => Exp::Skip,
                Text if self.in_special_attr(*n) => Exp::Skip,
                _ => Exp::Ok(Give::Nothing),
            },
            Call::UnsetVal { n, .. } => match k(*n) {
                Entity => Exp::Skip,
                Text if self.in_special_attr(*n) => Exp::Skip,
                _ => Exp::Ok(Give::Nothing),
            },
            Call::Chars { t, op, off, count, data } => {
                if self.in_special_attr(*t) {
                    return Exp::Skip;
                }
                match char_op(&self.nodes[*t].value, *op, *off, *count, data) {
                    Ok(_) => Exp::Ok(Give::Nothing),
                    Err(e) => Exp::Err(vec![e]),
                }
            }
        }
    }

    fn id_verdict(&self, e: usize, name: &str, ns: Option<&str>, raw: Option<&str>) -> Exp {
        if let (true, Some(raw)) = (is_id(name, ns, self.lax), raw) {
            let id = norm::attribute_value(raw);
            if let Some(doc) = self.doc_of(e).filter(|d| !self.nodes[*d].dead) {
                let (set, cloned) = self.carriers(doc, &id);
                if set.iter().any(|o| *o != e) {
                    return Exp::Err(vec![Error::Syntax]);
                }
                if set.is_empty() && cloned.iter().any(|o| *o != e) {
                    return Exp::Skip;
                }
            }
        }
        Exp::Ok(Give::Nothing)
    }

    fn detach(&mut self, c: usize) {
        if let Some(p) = self.nodes[c].parent.take() {
            self.nodes[p].children.retain(|k| *k != c);
        }
    }

    fn drop_attr(&mut self, e: usize, a: usize) {
        self.nodes[e].attrs.retain(|k| *k != a);
        self.nodes[a].owner = None;
    }

    fn put_attr(&mut self, e: usize, a: usize) {
        for old in self.nodes[e].attrs.clone() {
            if old != a && self.same_attr(old, a) {
                self.drop_attr(e, old);
            }
        }
        if !self.nodes[e].attrs.contains(&a) {
            self.nodes[e].attrs.push(a);
        }
        self.nodes[a].owner = Some(e);
        self.nodes[a].cloned = false;
        if let (true, Some(v)) = (is_id(&self.nodes[a].name, self.nodes[a].ns.as_deref(), true), self.attr_value(a)) {
            self.seen_ids.insert(v);
        }
        if let (Some(XMLNS_NS), Some(v)) = (self.nodes[a].ns.as_deref(), self.attr_value(a)) {
            self.seen_uris.insert(v);
        }
    }

    fn set_attr_value(&mut self, a: usize, value: Option<&str>) -> Option<usize> {
        for c in self.nodes[a].children.clone() {
            self.detach(c);
        }
        let t = value.map(|v| {
            let doc = self.nodes[a].doc;
            let t = self.push(Text, "#text", None, Some(v), doc);
            self.nodes[t].parent = Some(a);
            self.nodes[a].children.push(t);
            t
        });
        if let Some(e) = self.nodes[a].owner {
            self.put_attr(e, a);
        }
        t
    }

    fn new_attr(&mut self, e: usize, name: &str, ns: Option<&str>, value: &str) -> usize {
        let doc = self.nodes[e].doc;
        let a = self.push(Attr, name, ns, None, doc);
        let _ = self.set_attr_value(a, Some(value));
        self.put_attr(e, a);
        a
    }

    fn copy(&mut self, n: usize, deep: bool) -> usize {
        let mut new = self.nodes[n].clone();
        new.parent = None;
        new.owner = None;
        new.children = vec![];
        new.attrs = vec![];
        new.real = None;
        self.nodes.push(new);
        let i = self.nodes.len() - 1;
        if deep {
            for c in self.nodes[n].children.clone() {
                let k = self.copy(c, true);
                self.nodes[k].parent = Some(i);
                self.nodes[i].children.push(k);
            }
        }
        for a in self.nodes[n].attrs.clone() {
            let k = self.copy(a, true);
            self.nodes[k].owner = Some(i);
            self.nodes[k].cloned = true;
            self.nodes[i].attrs.push(k);
        }
        i
    }

    fn normalize(&mut self, n: usize) {
        let mut prev: Option<usize> = None;
        for c in self.nodes[n].children.clone() {
            if self.nodes[c].kind == Text {
                let v = self.nodes[c].value.clone().unwrap_or_default();
                if v.is_empty() {
                    self.detach(c);
                } else if let Some(p) = prev {
                    let merged = self.nodes[p].value.clone().unwrap_or_default() + &v;
                    self.nodes[p].value = Some(merged);
                    self.detach(c);
                } else {
                    prev = Some(c);
                }
            } else {
                prev = None;
                self.normalize(c);
            }
        }
        for a in self.nodes[n].attrs.clone() {
            self.normalize(a);
        }
    }

    /// Do what a successful call does. Gives the node that should be returned, if that is a new one.
    fn apply(&mut self, call: &Call) -> Option<usize> {
        match call {
            Call::Create { make, doc, name, ns, data } => {
                let (kind, name, ns, value) = match make {
                    Make::Elem => (Elem, name.as_str(), None, None),
                    Make::ElemNs => (Elem, name.as_str(), Some(ns.as_str()), None),
                    Make::Attr => (Attr, name.as_str(), None, None),
                    Make::AttrWith => (Attr, name.as_str(), None, None),
                    Make::AttrNs => (Attr, name.as_str(), Some(ns.as_str()), None),
                    Make::Text => (Text, "#text", None, Some(data.as_str())),
                    Make::CData => (CData, "#cdata-section", None, Some(data.as_str())),
                    Make::Comment => (Comment, "#comment", None, Some(data.as_str())),
                    Make::Pi => (Pi, name.as_str(), None, (!data.is_empty()).then_some(data.as_str())),
                    Make::EntRef => (EntRef, name.as_str(), None, None),
                    Make::Frag => (Frag, "#document-fragment", None, None),
                    Make::Entity => (Entity, name.as_str(), None, None),
                    Make::IntEntity => (Entity, name.as_str(), None, Some(data.as_str())),
                    Make::Notation => (Notation, name.as_str(), None, None),
                    Make::DocType => (DocType, name.as_str(), None, None),
                };
                let d = (kind != DocType).then_some(*doc);
                let i = self.push(kind, name, ns, value, d);
                if *make == Make::AttrWith {
                    let _ = self.set_attr_value(i, Some(data));
                }
                Some(i)
            }
            Call::Append { p, c } => self.apply(&Call::Insert { p: *p, c: *c, r: None }),
            Call::Insert { p, c, r } => {
                if *r == Some(*c) {
                    return None;
                }
                self.detach(*c);
                let at = match r {
                    None => self.nodes[*p].children.len(),
                    Some(r) => self.nodes[*p].children.iter().position(|k| k == r).unwrap(),
                };
                self.nodes[*p].children.insert(at, *c);
                self.nodes[*c].parent = Some(*p);
                None
            }
            Call::Replace { p, c, o } => {
                if c != o {
                    self.detach(*c);
                    let at = self.nodes[*p].children.iter().position(|k| k == o).unwrap();
                    self.nodes[*p].children[at] = *c;
                    self.nodes[*c].parent = Some(*p);
                    self.nodes[*o].parent = None;
                }
                None
            }
            Call::Remove { o, .. } => {
                self.detach(*o);
                None
            }
            Call::Split { t, at } => {
                let v = utf16(self.nodes[*t].value.as_deref().unwrap_or(""));
                let cut = (*at).min(v.len());
                if cut < v.len() {
                    self.nodes[*t].value = Some(String::from_utf16(&v[..cut]).unwrap());
                }
                let rest = String::from_utf16(&v[cut..]).unwrap();
                let MNode { kind, name, doc, parent, .. } = self.nodes[*t].clone();
                let i = self.push(kind, &name, None, Some(&rest), doc);
                if let Some(p) = parent {
                    let pos = self.nodes[p].children.iter().position(|k| k == t).unwrap();
                    self.nodes[p].children.insert(pos + 1, i);
                    self.nodes[i].parent = Some(p);
                }
                Some(i)
            }
            Call::Normalize { n } => {
                self.normalize(*n);
                None
            }
            Call::Clone { n, deep } => {
                let i = self.copy(*n, *deep);
                Some(i)
            }
            Call::SetAttr { e, name, value } => {
                let _ = self.new_attr(*e, name, None, value);
                None
            }
            Call::SetAttrNs { e, ns, name, value } => {
                let _ = self.new_attr(*e, name, Some(ns), value);
                None
            }
            Call::RemAttr { e, name } => {
                let a = self.nodes[*e].attrs.iter().copied().find(|a| self.nodes[*a].name == *name);
                if let Some(a) = a {
                    self.drop_attr(*e, a);
                }
                None
            }
            Call::RemAttrNs { e, ns, name } => {
                let a = self.nodes[*e].attrs.iter().copied().find(|a| {
                    self.nodes[*a].ns.as_deref() == Some(ns) && norm::split_qname(&self.nodes[*a].name).1 == *name
                });
                if let Some(a) = a {
                    if ns_name_ok(ns, name) {
                        self.drop_attr(*e, a);
                    }
                }
                None
            }
            Call::SetAttrNode { e, a, .. } => {
                self.put_attr(*e, *a);
                None
            }
            Call::RemAttrNode { e, a } => {
                self.drop_attr(*e, *a);
                None
            }
            Call::SetVal { n, value, .. } => {
                match self.nodes[*n].kind {
                    Attr => {
                        let _ = self.set_attr_value(*n, Some(value));
                    }
                    Text | CData | Comment | Pi => self.nodes[*n].value = Some(value.clone()),
                    _ => (),
                }
                None
            }
            Call::UnsetVal { n, .. } => {
                match self.nodes[*n].kind {
                    Attr => {
                        let _ = self.set_attr_value(*n, None);
                    }
                    _ => self.nodes[*n].value = None,
                }
                None
            }
            Call::Chars { t, op, off, count, data } => {
                self.nodes[*t].value = char_op(&self.nodes[*t].value, *op, *off, *count, data).unwrap();
                None
            }
        }
    }

    /// Make the call on both sides. `None` when the model leaves the call undecided.
    pub fn step(&mut self, call: &Call) -> Option<Step> {
        let (give, expected_err) = match self.expect(call) {
            Exp::Skip => return None,
            Exp::Ok(g) => (g, None),
            Exp::Err(e) => (Give::Nothing, Some(e)),
        };
        let got = perform(&|i| self.at(i), call);
        let mut step = Step {
            expected_err,
            got_err: got.as_ref().err().cloned(),
            wrong_return: None,
            diffs: vec![],
        };
        if step.unexpected_ok() {
            return Some(step);
        }
        if let Ok(node) = &got {
            let before = self.nodes.len();
            let new = self.apply(call);
            match (give, node) {
                (Give::Node(i), Some(r)) if *r != self.at(i) => {
                    step.wrong_return = Some(format!("returned {} instead of node {i}", self.label(r)));
                }
                (Give::Node(_), None) => step.wrong_return = Some("returned nothing".into()),
                (Give::New, Some(r)) => {
                    let i = new.expect("a new node");
                    if !self.bind(i, r) {
                        step.wrong_return = Some("the returned node is not new, of another kind, or shares nodes".into());
                    }
                }
                (Give::New, None) => step.wrong_return = Some("returned nothing".into()),
                _ => (),
            }
            // Attributes and texts made on the way.
            for i in before..self.nodes.len() {
                if self.nodes[i].real.is_none() {
                    let found = if let Some(o) = self.nodes[i].owner {
                        let name = self.nodes[i].name.clone();
                        self.nodes[o].real.as_ref().and_then(|e| {
                            e.attributes().into_values().find(|x| x.node_name().to_string() == name)
                        })
                    } else if let Some(p) = self.nodes[i].parent {
                        let at = self.nodes[p].children.iter().position(|k| *k == i);
                        self.nodes[p]
                            .real
                            .as_ref()
                            .and_then(|e| at.and_then(|k| e.child_nodes().get(k).cloned()))
                    } else {
                        None
                    };
                    let ok = found.map_or(false, |r| self.bind(i, &r));
                    if !ok {
                        let aspect = if self.nodes[i].kind == Attr { Aspect::Attrs } else { Aspect::Tree };
                        step.diffs.push((aspect, format!("no new node where node {i} should be")));
                    }
                }
            }
        }
        drop(got);
        if step.diffs.is_empty() {
            if self.drops {
                self.sweep();
            }
            step.diffs = self.compare();
        }
        Some(step)
    }

    /// Drop the handle of a node; with it go the nodes that only it kept.
    pub fn drop_handle(&mut self, i: usize) {
        self.nodes[i].real = None;
        self.sweep();
    }

    /// Forget the nodes that no held node reaches downward.
    pub fn sweep(&mut self) {
        let mut alive = vec![false; self.nodes.len()];
        let mut todo: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].real.is_some()).collect();
        while let Some(i) = todo.pop() {
            if !alive[i] {
                alive[i] = true;
                todo.extend(self.nodes[i].children.iter().copied());
                todo.extend(self.nodes[i].attrs.iter().copied());
            }
        }
        for i in 0..self.nodes.len() {
            if !alive[i] && !self.nodes[i].dead {
                self.nodes[i].dead = true;
                for c in std::mem::take(&mut self.nodes[i].children) {
                    self.nodes[c].parent = None;
                }
                for a in std::mem::take(&mut self.nodes[i].attrs) {
                    self.nodes[a].owner = None;
                }
            }
        }
        let nodes = &self.nodes;
        self.by_ptr.retain(|_, i| !nodes[*i].dead);
    }

    pub fn label(&self, n: &RefNode) -> String {
        match self.find(n) {
            Some(i) => format!("node {i}"),
            None => format!("an unknown {:?}", kind_of(n)),
        }
    }

    fn opt(&self, n: &Option<RefNode>) -> Option<String> {
        n.as_ref().map(|n| self.label(n))
    }

    /// Compare every node with its model.
    pub fn compare(&self) -> Diffs {
        let mut out: Diffs = vec![];
        // The nodes held, and those below them.
        let mut todo: Vec<(usize, RefNode)> = vec![];
        let mut seen = vec![false; self.nodes.len()];
        for i in 0..self.nodes.len() {
            if let Some(r) = &self.nodes[i].real {
                seen[i] = true;
                todo.push((i, r.clone()));
            }
        }
        while let Some((i, r)) = todo.pop() {
            self.compare_node(i, &r, &mut out);
            if out.len() > 8 {
                return out;
            }
            for below in r.child_nodes().into_iter().chain(r.attributes().into_values()) {
                if let Some(k) = self.find(&below) {
                    if !seen[k] {
                        seen[k] = true;
                        todo.push((k, below));
                    }
                }
            }
        }
        if self.check_ids {
            self.compare_ids(&mut out);
        }
        if self.check_ns {
            self.compare_ns(&mut out);
        }
        out
    }

    fn compare_node(&self, i: usize, r: &RefNode, out: &mut Diffs) {
        let n = &self.nodes[i];
        let want = |k: Option<usize>| k.map(|k| format!("node {k}"));
        let mut differ = |a: Aspect, what: &str, got: String, want: String| {
            if got != want {
                out.push((a, format!("{what} of node {i} ({:?}): {got}, should be {want}", n.kind)));
            }
        };
        macro_rules! cmp {
            ($a:expr, $w:expr, $g:expr, $x:expr) => {{
                let (g, x) = ($g, $x);
                if g != x {
                    differ($a, $w, format!("{:?}", g), format!("{:?}", x));
                }
            }};
        }
        cmp!(Aspect::Identity, "kind", kind_of(r), n.kind);
        let name = r.node_name();
        cmp!(Aspect::Identity, "name", name.to_string(), n.name.clone());
        cmp!(Aspect::Identity, "namespace", name.namespace_uri().clone(), n.ns.clone());
        if n.kind != DocType {
            cmp!(Aspect::Docs, "owner document", self.opt(&r.owner_document()), want(n.doc.filter(|d| !self.nodes[*d].dead)));
        }
        // Tree.
        let parent = if n.kind == Attr { None } else { n.parent };
        cmp!(Aspect::Tree, "parent", self.opt(&r.parent_node()), want(parent));
        let kids: Vec<Option<usize>> = r.child_nodes().iter().map(|k| self.find(k)).collect();
        let want_kids: Vec<Option<usize>> = n.children.iter().map(|k| Some(*k)).collect();
        cmp!(Aspect::Tree, "children", kids, want_kids);
        cmp!(Aspect::Tree, "first child", self.opt(&r.first_child()), want(n.children.first().copied()));
        cmp!(Aspect::Tree, "last child", self.opt(&r.last_child()), want(n.children.last().copied()));
        cmp!(Aspect::Tree, "has_child_nodes", r.has_child_nodes(), !n.children.is_empty());
        let (mut prev, mut next) = (None, None);
        if let Some(p) = parent {
            let ks = &self.nodes[p].children;
            if let Some(at) = ks.iter().position(|k| *k == i) {
                prev = at.checked_sub(1).map(|k| ks[k]);
                next = ks.get(at + 1).copied();
            }
        }
        cmp!(Aspect::Tree, "previous sibling", self.opt(&r.previous_sibling()), want(prev));
        cmp!(Aspect::Tree, "next sibling", self.opt(&r.next_sibling()), want(next));
        // Values.
        let value = if n.kind == Attr { self.attr_value(i) } else { n.value.clone() };
        cmp!(Aspect::Value, "value", r.node_value(), value.clone());
        // Attributes.
        if n.kind == Attr {
            cmp!(
                Aspect::Attrs,
                "owner element",
                self.opt(&as_attribute(r).ok().and_then(|a| a.owner_element())),
                want(n.owner)
            );
        }
        if n.kind == Elem {
            let held = r.attributes();
            let mut got: Vec<Option<usize>> = held.values().map(|a| self.find(a)).collect();
            let mut wanted: Vec<Option<usize>> = n.attrs.iter().map(|a| Some(*a)).collect();
            got.sort();
            wanted.sort();
            cmp!(Aspect::Attrs, "attributes", got, wanted);
            cmp!(Aspect::Attrs, "has_attributes", r.has_attributes(), !n.attrs.is_empty());
            let Ok(e) = as_element(r) else { return };
            for (key, a) in &held {
                cmp!(Aspect::Attrs, "attribute key", key.to_string(), a.node_name().to_string());
            }
            for a in &n.attrs {
                let x = &self.nodes[*a];
                let v = self.attr_value(*a);
                cmp!(Aspect::Attrs, "get_attribute_node", self.opt(&e.get_attribute_node(&x.name)), want(Some(*a)));
                cmp!(Aspect::Attrs, "has_attribute", e.has_attribute(&x.name), true);
                cmp!(Aspect::Attrs, "get_attribute", e.get_attribute(&x.name), v.clone());
                let local = norm::split_qname(&x.name).1;
                if let Some(ns) = x.ns.as_deref().filter(|ns| ns_name_ok(ns, &local)) {
                    cmp!(
                        Aspect::Attrs,
                        "get_attribute_node_ns",
                        self.opt(&e.get_attribute_node_ns(ns, &local)),
                        want(Some(*a))
                    );
                    cmp!(Aspect::Attrs, "has_attribute_ns", e.has_attribute_ns(ns, &local), true);
                    cmp!(Aspect::Attrs, "get_attribute_ns", e.get_attribute_ns(ns, &local), v);
                }
            }
        }
    }

    /// Lookups of names that an element may or may not have.
    pub fn compare_misses(&self, i: usize, names: &[&str], nss: &[&str], out: &mut Diffs) {
        let Some(r) = self.nodes[i].real.clone() else { return };
        let Ok(e) = as_element(&r) else { return };
        let by = |f: &dyn Fn(&MNode) -> bool| self.nodes[i].attrs.iter().copied().find(|a| f(&self.nodes[*a]));
        for name in names {
            let found = by(&|x| x.name == *name);
            let value = found.and_then(|a| self.attr_value(a));
            let got = e.get_attribute_node(name).map(|a| self.find(&a));
            if got != found.map(Some) || e.has_attribute(name) != found.is_some() || e.get_attribute(name) != value {
                out.push((Aspect::Attrs, format!("lookup of {name} in node {i}: {got:?}, should be {found:?}")));
            }
            for ns in nss {
                // A qualified name is no local name.
                if name.contains(':')
                    && (e.has_attribute_ns(ns, name)
                        || e.get_attribute_node_ns(ns, name).is_some()
                        || e.get_attribute_ns(ns, name).is_some())
                {
                    out.push((Aspect::Attrs, format!("lookup of {ns} and local name {name} in node {i} finds one")));
                }
                let local = norm::split_qname(name).1;
                if !ns_name_ok(ns, &local) {
                    continue;
                }
                let found = by(&|x| x.ns.as_deref() == Some(ns) && norm::split_qname(&x.name).1 == local);
                let value = found.and_then(|a| self.attr_value(a));
                let got = e.get_attribute_node_ns(ns, &local).map(|a| self.find(&a));
                if got != found.map(Some)
                    || e.has_attribute_ns(ns, &local) != found.is_some()
                    || e.get_attribute_ns(ns, &local) != value
                {
                    out.push((Aspect::Attrs, format!("lookup of {ns} {local} in node {i}: {got:?}, should be {found:?}")));
                }
            }
        }
    }

    fn compare_ids(&self, out: &mut Diffs) {
        for d in &self.docs {
            let Some(real) = self.nodes[*d].real.clone() else { continue };
            let Ok(doc) = as_document(&real) else { continue };
            // Also what is nearly an id that was given.
            let nearly = self.seen_ids.iter().enumerate().map(|(k, id)| nearly(id, k + self.nodes.len()));
            for id in &self.seen_ids.iter().cloned().chain(nearly).collect::<Vec<String>>() {
                let got = doc.get_element_by_id(id);
                let (set, cloned) = self.carriers(*d, id);
                let found = got.as_ref().map(|n| self.find(n));
                let fine = match found {
                    None => set.is_empty(),
                    Some(Some(e)) => set.contains(&e) || (set.is_empty() && cloned.contains(&e)),
                    Some(None) => false,
                };
                if !fine {
                    out.push((
                        Aspect::Ids,
                        format!(
                            "get_element_by_id({id:?}) in document {d}: {:?}, should be one of {set:?}",
                            self.opt(&got)
                        ),
                    ));
                }
            }
        }
    }

    fn compare_ns(&self, out: &mut Diffs) {
        let maps: BTreeMap<usize, BTreeMap<Option<String>, String>> = (0..self.nodes.len())
            .filter(|i| self.nodes[*i].kind == Elem)
            .map(|i| (i, self.mappings(i)))
            .collect();
        for e in maps.keys() {
            self.compare_ns_at(*e, &maps, out);
        }
    }

    fn compare_ns_at(&self, e: usize, maps: &BTreeMap<usize, BTreeMap<Option<String>, String>>, out: &mut Diffs) {
        let Some(r) = self.nodes[e].real.clone() else { return };
        let Ok(real) = as_element_namespaced(&r) else {
            out.push((Aspect::Ns, format!("node {e} is not a namespaced element")));
            return;
        };
        let mut chain = vec![];
        let mut cur = Some(e);
        while let Some(c) = cur {
            if let Some(m) = maps.get(&c) {
                chain.push(m);
            }
            cur = self.nodes[c].parent;
        }
        for p in [None, Some("p"), Some("q"), Some("xml"), Some("xmlns"), Some("P"), Some("")] {
            let key = p.map(String::from);
            let own = maps[&e].get(&key).cloned();
            let resolved = chain.iter().find_map(|m| m.get(&key)).cloned();
            let got = (real.contains_mapping(p), real.get_namespace(p), real.resolve_namespace(p));
            let want = (own.is_some(), own, resolved);
            if got != want {
                out.push((Aspect::Ns, format!("mapping of {p:?} at node {e}: {got:?}, should be {want:?}")));
            }
        }
        let nearly = self.seen_uris.iter().enumerate().map(|(k, uri)| nearly(uri, k + self.nodes.len()));
        for uri in &self.seen_uris.iter().cloned().chain(nearly).collect::<Vec<String>>() {
            if uri.is_empty() {
                continue;
            }
            let matches = |m: &BTreeMap<Option<String>, String>, got: &NamespacePrefix| {
                let ks: Vec<&Option<String>> = m.iter().filter(|(_, v)| *v == uri).map(|(k, _)| k).collect();
                // What it is, in the three ways of asking.
                let is = (got.is_none(), got.is_default(), got.is_some(), got.some());
                let want = match got {
                    NamespacePrefix::None => (true, false, false, None),
                    NamespacePrefix::Default => (false, true, false, None),
                    NamespacePrefix::Some(p) => (false, false, *got == NamespacePrefix::new_some(p.as_str()), Some(p.clone())),
                };
                if is != want {
                    return false;
                }
                match got {
                    NamespacePrefix::None => ks.is_empty(),
                    NamespacePrefix::Default => ks.contains(&&None),
                    NamespacePrefix::Some(p) => ks.contains(&&Some(p.clone())),
                }
            };
            let own = real.get_prefix(uri);
            let none = BTreeMap::new();
            if !matches(&maps[&e], &own) || real.contains_mapped_namespace(uri) != maps[&e].values().any(|v| v == uri) {
                out.push((Aspect::Ns, format!("prefix of {uri:?} at node {e}: {own:?}, mappings {:?}", maps[&e])));
            }
            let resolved = real.resolve_prefix(uri);
            let nearest = chain.iter().find(|m| m.values().any(|v| v == uri)).copied().unwrap_or(&none);
            if !matches(nearest, &resolved) {
                out.push((
                    Aspect::Ns,
                    format!("resolved prefix of {uri:?} at node {e}: {resolved:?}, nearest mappings {nearest:?}"),
                ));
            }
        }
    }
}

/// Another string, that a lenient comparison would take for the same.
fn nearly(s: &str, k: usize) -> String {
    match k % 9 {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => s.to_uppercase(),
        3 => s.chars().skip(1).collect(),
        4 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        5 => format!("{s}/"),
        6 => format!("{s}\u{a0}"),
        7 => format!("{s}#"),
        _ => format!("*{s}"),
    }
}

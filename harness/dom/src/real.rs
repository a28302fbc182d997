//! Properties decided on the nodes of the crate alone: P01, P12, P14, P19.
use crate::hist::check_child_rules;
use crate::model::ptr;
use crate::world::*;
use common::norm;
use common::runner::{Cov, Outcome, Property, Sub};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::{as_document_decl, as_document_decl_mut, as_element_namespaced};
use xml_dom::level2::ext::{XmlDecl, XmlVersion};
use xml_dom::level2::*;

/// The nodes known so far, seen through the crate's own accessors.
pub struct Real {
    pub nodes: Vec<RefNode>,
    index: HashMap<usize, usize>,
}

impl Real {
    pub fn new(setup: &Setup) -> Real {
        let mut r = Real { nodes: vec![], index: HashMap::new() };
        for root in [setup.roots.0, setup.roots.1] {
            r.learn(&new_document(root.then_some("root"), setup.lax_ids, setup.namespaces));
        }
        r
    }

    pub fn find(&self, n: &RefNode) -> Option<usize> {
        self.index.get(&ptr(n)).copied()
    }

    /// Take note of a node and of every node that can be reached from it.
    pub fn learn(&mut self, n: &RefNode) {
        let mut todo = vec![n.clone()];
        while let Some(n) = todo.pop() {
            if self.index.contains_key(&ptr(&n)) {
                continue;
            }
            self.index.insert(ptr(&n), self.nodes.len());
            self.nodes.push(n.clone());
            todo.extend(n.child_nodes());
            let mut attrs: Vec<(String, RefNode)> =
                n.attributes().into_iter().map(|(k, a)| (k.to_string(), a)).collect();
            attrs.sort_by(|x, y| x.0.cmp(&y.0));
            todo.extend(attrs.into_iter().map(|(_, a)| a));
            todo.extend(n.parent_node());
            todo.extend(n.owner_document());
        }
    }

    pub fn learn_all(&mut self) {
        for n in self.nodes.clone() {
            for below in n.child_nodes() {
                self.learn(&below);
            }
            let mut attrs: Vec<(String, RefNode)> =
                n.attributes().into_iter().map(|(k, a)| (k.to_string(), a)).collect();
            attrs.sort_by(|x, y| x.0.cmp(&y.0));
            for (_, a) in attrs {
                self.learn(&a);
            }
        }
    }
}

impl View for Real {
    fn len(&self) -> usize {
        self.nodes.len()
    }
    fn kind(&self, i: usize) -> Kind {
        kind_of(&self.nodes[i])
    }
    fn children(&self, i: usize) -> Vec<usize> {
        self.nodes[i].child_nodes().iter().filter_map(|n| self.find(n)).collect()
    }
    fn parent(&self, i: usize) -> Option<usize> {
        self.nodes[i].parent_node().and_then(|n| self.find(&n))
    }
    fn attrs(&self, i: usize) -> Vec<usize> {
        let mut a: Vec<usize> = self.nodes[i].attributes().values().filter_map(|n| self.find(n)).collect();
        a.sort();
        a
    }
}

/// The link invariants over a closed set of nodes.
pub fn check_links(r: &Real) -> Outcome {
    let name = |n: &RefNode| match r.find(n) {
        Some(i) => format!("node {i} ({:?})", kind_of(n)),
        None => format!("an unknown {:?}", kind_of(n)),
    };
    for p in &r.nodes {
        let kids = p.child_nodes();
        let distinct: HashSet<usize> = kids.iter().map(ptr).collect();
        if distinct.len() != kids.len() {
            return Err(format!("a child appears twice under {}", name(p)));
        }
        if p.first_child() != kids.first().cloned() || p.last_child() != kids.last().cloned() {
            return Err(format!("first or last child of {} disagrees with its children", name(p)));
        }
        if p.has_child_nodes() == kids.is_empty() {
            return Err(format!("has_child_nodes of {} disagrees with its children", name(p)));
        }
        let doc = if is_document(p) { Some(p.clone()) } else { p.owner_document() };
        for (at, c) in kids.iter().enumerate() {
            if c.parent_node().as_ref() != Some(p) {
                return Err(format!(
                    "{} is in the children of {} but names {:?} as its parent",
                    name(c),
                    name(p),
                    c.parent_node().map(|n| name(&n))
                ));
            }
            let prev = at.checked_sub(1).map(|k| kids[k].clone());
            if c.previous_sibling() != prev || c.next_sibling() != kids.get(at + 1).cloned() {
                return Err(format!("siblings of {} disagree with the children of {}", name(c), name(p)));
            }
            if c.owner_document() != doc {
                return Err(format!("{} has another owner document than its parent {}", name(c), name(p)));
            }
        }
        for a in p.attributes().values() {
            if a.owner_document() != doc {
                return Err(format!("{} has another owner document than its element {}", name(a), name(p)));
            }
            let owner = as_attribute(a).map_err(|_| "an attribute collection holds another kind of node".to_string())?;
            if owner.owner_element().as_ref() != Some(p) {
                return Err(format!("{} is held by {} but has another owner", name(a), name(p)));
            }
        }
        match p.parent_node() {
            Some(up) => {
                if up.child_nodes().iter().filter(|c| *c == p).count() != 1 {
                    return Err(format!("{} names {} as parent but is not its child", name(p), name(&up)));
                }
                if is_attribute(p) {
                    return Err(format!("{} has a parent", name(p)));
                }
            }
            None => {
                if p.previous_sibling().is_some() || p.next_sibling().is_some() {
                    return Err(format!("{} has siblings but no parent", name(p)));
                }
            }
        }
        // No node above itself.
        let mut cur = p.clone();
        for steps in 0.. {
            let up = if is_attribute(&cur) {
                as_attribute(&cur).ok().and_then(|a| a.owner_element())
            } else {
                cur.parent_node()
            };
            match up {
                None => break,
                Some(up) if &up == p || steps > r.nodes.len() => return Err(format!("{} is above itself", name(p))),
                Some(up) => cur = up,
            }
        }
    }
    Ok(())
}

/// The same, over what can be reached from a node.
pub fn check_links_from(n: &RefNode) -> Outcome {
    let mut r = Real { nodes: vec![], index: HashMap::new() };
    r.learn(n);
    check_links(&r)
}

const CAP: usize = 90;

/// Run a history on the crate; `after` sees every step.
fn drive(
    h: &History,
    cov: &mut Cov,
    after: &mut dyn FnMut(&mut Real, &Call, &Got, &mut Cov) -> Outcome,
) -> std::result::Result<Real, String> {
    let mut r = Real::new(&h.setup);
    if let Some(big) = &h.big {
        if let Err(e) = big.build(&r.nodes[0].clone()) {
            return if big.own { Err(e) } else { Ok(r) };
        }
        r.learn_all();
    }
    let cap = CAP.max(r.nodes.len() + 20);
    for (k, op) in h.ops().iter().enumerate() {
        if r.nodes.len() > cap && matches!(op, Op::Create { .. } | Op::Clone { .. }) {
            continue;
        }
        let Some(call) = resolve(&r, op) else { continue };
        if out_of_domain(&r, &call) {
            continue;
        }
        let got = perform(&|i| r.nodes[i].clone(), &call);
        if let Ok(Some(n)) = &got {
            r.learn(n);
        }
        r.learn_all();
        cov.hit(if got.is_ok() { "accepted" } else { "rejected" });
        after(&mut r, &call, &got, cov).map_err(|e| format!("operation {k}, {call:?}: {e}"))?;
    }
    Ok(r)
}

/// Cloning a document type on its own is not supported; a shallow clone of an attribute is unspecified.
pub fn out_of_domain(r: &Real, c: &Call) -> bool {
    match c {
        Call::Clone { n, deep } => match kind_of(&r.nodes[*n]) {
            Kind::DocType => true,
            Kind::Attr => !deep,
            _ => false,
        },
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------------ P01

fn p01(h: &History, cov: &mut Cov) -> Outcome {
    let mut deepest = 0;
    let mut edits = 0;
    let mut failed = false;
    let mut after_failure = false;
    let r = drive(h, cov, &mut |r, call, got, cov| {
        check_links(r)?;
        if let Call::Insert { .. } | Call::Append { .. } | Call::Replace { .. } | Call::Remove { .. } = call {
            if got.is_ok() {
                edits += 1;
                if failed {
                    after_failure = true;
                    cov.hit("edit after a failed call");
                }
            }
        }
        failed |= got.is_err();
        Ok(())
    })?;
    for i in 0..r.nodes.len() {
        let mut d = 0;
        let mut cur = i;
        while let Some(p) = r.parent(cur) {
            d += 1;
            cur = p;
        }
        deepest = deepest.max(d);
    }
    cov.hit(match deepest {
        0..=1 => "depth 0-1",
        2..=3 => "depth 2-3",
        _ => "depth 4 or more",
    });
    if edits >= 2 && (h.big.is_some() || deepest >= 2 && after_failure) {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Search {
    /// Kind (0..=9), name, namespace, place: how many nodes back, below the root if none.
    pub nodes: Vec<(u8, String, Option<String>, Option<u16>)>,
    pub ops: Vec<Op>,
    pub names: Vec<String>,
    pub nss: Vec<String>,
    /// Search all along, not only at the end.
    #[serde(default)]
    pub often: bool,
    /// Any `id` attribute is an id; no namespaces are kept.
    #[serde(default)]
    pub odd: (bool, bool),
    /// Names and namespaces are longer than they say.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub stretch: Option<Stretch>,
}

fn long_search_case() -> BoxedStrategy<Search> {
    (search_case(), common::gen::length(5_000), 0u8..6)
        .prop_map(|(mut c, n, how)| {
            c.nodes.truncate(12);
            c.stretch = Some(Stretch { values: 1, names: n as u32, how });
            c
        })
        .boxed()
}

fn p12_long(c: &Search, cov: &mut Cov) -> Outcome {
    let mut c = c.clone();
    let Some(stretch) = c.stretch else { return p12(&c, cov) };
    c.names.iter_mut().for_each(|n| stretch.name(n));
    c.nss.iter_mut().for_each(|n| stretch.ns(n));
    for (_, name, ns, _) in &mut c.nodes {
        stretch.name(name);
        if let Some(ns) = ns {
            stretch.ns(ns);
        }
    }
    c.ops.iter_mut().for_each(|op| stretch.apply(op));
    p12(&c, cov)
}

const SEARCH_NAMES: &[&str] = &["a", "b", "A", "x:a", "y:a", "aa", "x:b", "x", "a-b", "a.b", "_a", "\u{e9}", "\u{10000}:a"];

const SEARCH_EDITS: &[&str] = &["a", "b", "A", "x:a", "y:a", "aa", "x:b", "x", "xml:id", "xmlns:a"];
const SEARCH_NSS: &[&str] = &["urn:1", "urn:2", XML_NS, XMLNS_NS, "a b"];

fn search_case() -> BoxedStrategy<Search> {
    let node = (
        0u8..10,
        pool(SEARCH_NAMES),
        // There may be a namespace that is called "*".
        prop::option::weighted(0.5, prop_oneof![15 => pool(NSS), 1 => Just("*".to_string()), 1 => Just("a b".to_string())]),
        prop_oneof![1 => Just(None), 3 => (1u16..4).prop_map(Some), 2 => (1u16..40).prop_map(Some)],
    );
    let query = prop_oneof![
        6 => pool(SEARCH_NAMES),
        2 => Just("*".to_string()),
        1 => prop::sample::select(&["", "c", "#text", "a*", "**", "root", "x:", ":a", "a ", "*:a"][..]).prop_map(String::from),
    ];
    let nss = prop_oneof![
        4 => pool(NSS),
        2 => Just("*".to_string()),
        1 => prop::sample::select(&["urn:3", "urn:", "URN:1", "urn:1 ", "", "a", "a b", "a b", "ab"][..]).prop_map(String::from),
    ];
    (
        prop::collection::vec(node, 0..40),
        prop::collection::vec(op(Focus { names: SEARCH_EDITS, nss: SEARCH_NSS, ..BALANCED }), 0..8),
        prop::collection::vec(query, 1..6),
        prop::collection::vec(nss, 1..4),
        prop::bool::weighted(0.3),
        (prop::bool::weighted(0.2), prop::bool::weighted(0.2)),
    )
        .prop_map(|(nodes, ops, names, nss, often, odd)| Search { nodes, ops, names, nss, often, odd, stretch: None })
        .boxed()
}

/// Many nodes: one below the other, side by side, or both.
fn wide_search_case() -> BoxedStrategy<Search> {
    (search_case(), sizes(400), 0u8..4)
        .prop_map(|(mut c, n, how)| {
            if c.nodes.is_empty() {
                c.nodes.push((0, "a".into(), None, None));
            }
            let some = c.nodes.clone();
            c.nodes = some.into_iter().cycle().take(n as usize).enumerate().map(|(i, mut x)| {
                match how {
                    0 => x.3 = Some(1),
                    1 => x.3 = None,
                    2 if i % 9 != 0 => x.3 = Some(1),
                    _ => {}
                }
                x
            }).collect();
            c.ops.truncate(2);
            c.names.truncate(2);
            c.nss.truncate(1);
            c
        })
        .boxed()
}

/// The elements below a node in document order, by walking its children.
fn walk(n: &RefNode, out: &mut Vec<RefNode>) {
    for c in n.child_nodes() {
        if c.node_type() == NodeType::Element {
            out.push(c.clone());
        }
        walk(&c, out);
    }
}

fn p12(c: &Search, cov: &mut Cov) -> Outcome {
    let setup = Setup { lax_ids: c.odd.0, namespaces: !c.odd.1, roots: (true, false) };
    let mut r = Real::new(&setup);
    let doc_node = r.nodes[0].clone();
    {
        let doc = as_document(&doc_node).map_err(|e| format!("{e:?}"))?;
        let root = doc.document_element().ok_or("no root")?;
        let mut made = vec![root.clone()];
        for (k, name, ns, back) in &c.nodes {
            let n = match (k, ns) {
                (0..=6, None) => doc.create_element(name),
                (0..=6, Some(ns)) => doc.create_element_ns(ns, name),
                (7, _) => doc.create_entity_reference(&norm::split_qname(name).1),
                (8, _) => Ok(doc.create_comment(name)),
                _ => Ok(doc.create_text_node(name)),
            }
            .map_err(|e| format!("create {k} {name}: {e:?}"))?;
            let mut parent = match back {
                Some(b) => made[made.len() - 1 - ((*b as usize - 1) % made.len())].clone(),
                None => root.clone(),
            };
            // What was found before has no say in what is found now.
            if c.often && c.nodes.len() < 60 {
                search_from(&r, c, 4, cov)?;
            }
            parent.append_child(n.clone()).map_err(|e| format!("append: {e:?}"))?;
            if matches!(n.node_type(), NodeType::Element | NodeType::EntityReference) {
                made.push(n.clone());
            }
            r.learn(&n);
        }
    }
    r.learn_all();
    for op in &c.ops {
        if let Some(call) = resolve(&r, op) {
            if !out_of_domain(&r, &call) {
                if c.often {
                    search_from(&r, c, 20, cov)?;
                    cov.hit("searched before and after an edit");
                }
                if let Ok(Some(n)) = perform(&|i| r.nodes[i].clone(), &call) {
                    r.learn(&n);
                }
                r.learn_all();
            }
        }
    }
    search_from(&r, c, usize::MAX, cov)
}

/// Every search of the case from every document and element, or from the first `few` of them.
fn search_from(r: &Real, c: &Search, few: usize, cov: &mut Cov) -> Outcome {
    let show = |v: &[RefNode]| v.iter().map(|n| r.find(n)).collect::<Vec<_>>();
    for (at, start) in r.nodes.iter().enumerate().filter(|(_, n)| is_document(n) || is_element(n)).take(few) {
        let mut below = vec![];
        let is_doc = is_document(start);
        walk(start, &mut below);
        for q in &c.names {
            let want: Vec<RefNode> =
                below.iter().filter(|e| q == "*" || e.node_name().to_string() == *q).cloned().collect();
            let got = if is_doc {
                as_document(start).map_err(|e| format!("{e:?}"))?.get_elements_by_tag_name(q)
            } else {
                as_element(start).map_err(|e| format!("{e:?}"))?.get_elements_by_tag_name(q)
            };
            if got != want {
                return Err(format!(
                    "search for {q:?} from node {at}: {:?}, should be {:?}",
                    show(&got),
                    show(&want)
                ));
            }
            if want.len() > 1 && want.len() < below.len() {
                cov.hit("several matches, and misses");
                cov.nontrivial();
            }
            for ns in &c.nss {
                let want: Vec<RefNode> = below
                    .iter()
                    .filter(|e| {
                        let name = e.node_name();
                        (ns == "*" || name.namespace_uri().as_deref() == Some(ns))
                            && (q == "*" || name.local_name() == q)
                    })
                    .cloned()
                    .collect();
                let got = if is_doc {
                    as_document(start).map_err(|e| format!("{e:?}"))?.get_elements_by_tag_name_ns(ns, q)
                } else {
                    as_element(start).map_err(|e| format!("{e:?}"))?.get_elements_by_tag_name_ns(ns, q)
                };
                if got != want {
                    return Err(format!(
                        "search for {ns:?} {q:?} from node {at}: {:?}, should be {:?}",
                        show(&got),
                        show(&want)
                    ));
                }
                if !want.is_empty() {
                    cov.hit("namespace match");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CloneCase {
    pub build: History,
    pub node: u16,
    pub deep: bool,
    /// Edit the clone, or the original.
    pub edit_clone: bool,
    pub edits: Vec<Op>,
}

/// Everything that can be seen of a node and of what is below it.
#[derive(Clone, Debug, PartialEq)]
pub struct Shape {
    kind: Kind,
    name: String,
    ns: Option<String>,
    value: Option<String>,
    doc: Option<usize>,
    attrs: BTreeMap<String, Shape>,
    mappings: Vec<Option<String>>,
    children: Vec<Shape>,
    /// Identity, where that matters.
    node: usize,
}

pub fn shape(n: &RefNode, identity: bool) -> Shape {
    let name = n.node_name();
    let mappings = match as_element_namespaced(n) {
        Ok(e) => [None, Some("p"), Some("q")].iter().map(|p| e.get_namespace(*p)).collect(),
        Err(_) => vec![],
    };
    Shape {
        kind: kind_of(n),
        name: name.to_string(),
        ns: name.namespace_uri().clone(),
        value: n.node_value(),
        doc: n.owner_document().map(|d| ptr(&d)),
        attrs: n.attributes().iter().map(|(k, a)| (k.to_string(), shape(a, identity))).collect(),
        mappings,
        children: n.child_nodes().iter().map(|c| shape(c, identity)).collect(),
        node: if identity { ptr(n) } else { 0 },
    }
}

fn ptrs(n: &RefNode, out: &mut HashSet<usize>) {
    out.insert(ptr(n));
    for c in n.child_nodes() {
        ptrs(&c, out);
    }
    for a in n.attributes().values() {
        ptrs(a, out);
    }
}

/// Only some nodes may be picked.
struct Side<'a> {
    r: &'a Real,
    allowed: Vec<bool>,
}

impl View for Side<'_> {
    fn len(&self) -> usize {
        self.r.len()
    }
    fn kind(&self, i: usize) -> Kind {
        self.r.kind(i)
    }
    fn children(&self, i: usize) -> Vec<usize> {
        self.r.children(i)
    }
    fn parent(&self, i: usize) -> Option<usize> {
        self.r.parent(i)
    }
    fn attrs(&self, i: usize) -> Vec<usize> {
        self.r.attrs(i)
    }
    fn usable(&self, i: usize) -> bool {
        self.allowed.get(i).copied().unwrap_or(false)
    }
}

fn p14(c: &CloneCase, cov: &mut Cov) -> Outcome {
    let mut quiet = Cov::default();
    let mut r = drive(&c.build, &mut quiet, &mut |_, _, _, _| Ok(()))?;
    let clonable: Vec<usize> = (0..r.len())
        .filter(|i| {
            matches!(
                r.kind(*i),
                Kind::Elem | Kind::Text | Kind::Comment | Kind::CData | Kind::Pi | Kind::EntRef | Kind::Frag
            )
        })
        .collect();
    if clonable.is_empty() {
        cov.hit("nothing to clone");
        return Ok(());
    }
    // The larger trees are the more interesting ones.
    let mut clonable: Vec<(usize, usize)> = clonable
        .into_iter()
        .map(|i| {
            let mut below = HashSet::new();
            ptrs(&r.nodes[i], &mut below);
            (below.len(), i)
        })
        .collect();
    clonable.sort_by(|x, y| y.0.cmp(&x.0).then(x.1.cmp(&y.1)));
    let among = if c.node % 4 == 0 { clonable.len() } else { clonable.len() / 5 + 1 };
    let original = r.nodes[clonable[(c.node / 4) as usize % among].1].clone();
    let before: Vec<Shape> = r.nodes.iter().map(|n| shape(n, true)).collect();
    let parent_before = original.parent_node();
    let Some(copy) = original.clone_node(c.deep) else {
        return Err("clone_node gave nothing".into());
    };
    if r.find(&copy).is_some() {
        return Err("the clone is a node that was there before".into());
    }
    let after: Vec<Shape> = r.nodes.iter().map(|n| shape(n, true)).collect();
    if before != after || original.parent_node() != parent_before {
        return Err("cloning changed a node that was there before".into());
    }
    if copy.parent_node().is_some() || copy.previous_sibling().is_some() || copy.next_sibling().is_some() {
        return Err("the clone has a parent or siblings".into());
    }
    let mut want = shape(&original, false);
    if !c.deep {
        want.children.clear();
    }
    let got = shape(&copy, false);
    if got != want {
        return Err(format!("the clone is {got:?}, should be {want:?}"));
    }
    let (mut mine, mut its) = (HashSet::new(), HashSet::new());
    ptrs(&original, &mut mine);
    ptrs(&copy, &mut its);
    if !mine.is_disjoint(&its) {
        return Err("the clone shares nodes with the original".into());
    }
    if its.iter().any(|p| r.nodes.iter().any(|n| ptr(n) == *p)) {
        return Err("the clone contains nodes that were there before".into());
    }
    r.learn(&copy);
    r.learn_all();
    check_links(&r)?;
    cov.hit(if c.deep { "deep" } else { "shallow" });
    if its.len() > 1 {
        cov.hit("clone of several nodes");
    }
    // Edit one side, watch the other.
    let cap = (CAP * 2).max(r.nodes.len() + 20);
    let (side, watched) = if c.edit_clone { (its, &original) } else { (mine, &copy) };
    let untouched = shape(watched, true);
    let mut extra: HashSet<usize> = side;
    let mut done = 0;
    for op in &c.edits {
        if r.nodes.len() > cap {
            break;
        }
        let allowed: Vec<bool> =
            r.nodes.iter().map(|n| extra.contains(&ptr(n)) || is_document(n)).collect();
        let view = Side { r: &r, allowed };
        let Some(call) = resolve(&view, op) else { continue };
        if out_of_domain(&r, &call) {
            continue;
        }
        // Documents are there to create nodes with, and only those of the same document can be used.
        let doc = |i: usize| is_document(&r.nodes[i]);
        let fine = match &call {
            Call::Create { .. } => true,
            Call::Insert { p, c, .. } | Call::Append { p, c } | Call::Replace { p, c, .. } => !doc(*p) && !doc(*c),
            Call::Remove { p, o } => !doc(*p) && !doc(*o),
            Call::Normalize { n } => !doc(*n),
            _ => true,
        };
        if !fine {
            continue;
        }
        let known = r.nodes.len();
        let got = perform(&|i| r.nodes[i].clone(), &call);
        if let Ok(Some(n)) = &got {
            r.learn(n);
        }
        r.learn_all();
        for n in &r.nodes[known..] {
            extra.insert(ptr(n));
        }
        if got.is_ok() && !matches!(call, Call::Create { .. }) {
            done += 1;
        }
        let now = shape(watched, true);
        if now != untouched {
            return Err(format!(
                "{call:?} on the {} changed the {}",
                if c.edit_clone { "clone" } else { "original" },
                if c.edit_clone { "original" } else { "clone" }
            ));
        }
    }
    if done > 0 {
        cov.hit("edited afterwards");
        if c.deep && !untouched.children.is_empty() {
            cov.nontrivial();
        }
    }
    check_links(&r)
}

const CLONE_BUILD: Focus = Focus {
    create: 30,
    tree: 50,
    attr: 20,
    text: 0,
    norm: 0,
    clone: 0,
    value: 4,
    odd: 0,
    min: 6,
    max: 30,
    names: &["a", "b", "x:a", "xmlns", "xmlns:p", "xml:id"],
    nss: &["urn:1", XMLNS_NS],
    ..BALANCED
};

fn clone_case() -> BoxedStrategy<CloneCase> {
    let edits = Focus { odd: 0, min: 1, max: 20, clone: 2, text: 15, ..CLONE_BUILD };
    (
        history(CLONE_BUILD),
        prop_oneof![1 => Just(1u16), 2 => any::<u16>()],
        prop::bool::weighted(0.75),
        any::<bool>(),
        prop::collection::vec(op(edits), 1..20),
    )
        .prop_map(|(build, node, deep, edit_clone, edits)| CloneCase { build, node, deep, edit_clone, edits })
        .boxed()
}

fn large_clone_case() -> BoxedStrategy<CloneCase> {
    const FORMS: &[Form] = &[Form::Wide, Form::Deep, Form::Bushy, Form::Attrs, Form::Texts, Form::Decls];
    (clone_case(), large(CLONE_BUILD, FORMS, 300, false), prop_oneof![3 => 0u16..4, 1 => any::<u16>()])
        .prop_map(|(c, mut build, node)| {
            build.ops.truncate(3);
            CloneCase { build, node, ..c }
        })
        .boxed()
}

fn long_clone_case() -> BoxedStrategy<CloneCase> {
    (clone_case(), long(CLONE_BUILD)).prop_map(|(c, build)| CloneCase { build, ..c }).boxed()
}

/// A document to clone, and what to do to either of the two afterwards.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DocumentClone {
    pub clone: CloneCase,
    /// A declaration, with or without an encoding.
    pub decl: Option<bool>,
    /// A document type: its name and its two identifiers.
    pub doctype: Option<(String, Option<String>, Option<String>)>,
}

fn document_clone() -> BoxedStrategy<DocumentClone> {
    const NAMES: &[&str] = &["a", "b", "x:a", "xmlns:p", "xml:id", "id", "xml:id"];
    const BUILD: Focus = Focus { names: NAMES, odd: 10, value: 10, ..CLONE_BUILD };
    let edits = Focus { min: 1, max: 20, clone: 2, text: 15, ..BUILD };
    (
        history(BUILD),
        prop::bool::weighted(0.8),
        any::<bool>(),
        prop::collection::vec(op(edits), 1..20),
        prop::option::of(any::<bool>()),
        prop::option::of((
            prop_oneof![Just("t"), Just("p:t"), Just("root")].prop_map(String::from),
            prop::option::of("[ -~]{0,4}".prop_map(String::from)),
            prop::option::of("[ -~]{0,4}".prop_map(String::from)),
        )),
    )
        .prop_map(|(build, deep, edit_clone, edits, decl, doctype)| DocumentClone {
            clone: CloneCase { build, node: 0, deep, edit_clone, edits },
            decl,
            doctype,
        })
        .boxed()
}

/// The elements below a document that have each of its IDs.
fn ids_below(doc: &RefNode, lax: bool) -> BTreeMap<String, Vec<RefNode>> {
    let mut ids: BTreeMap<String, Vec<RefNode>> = BTreeMap::new();
    let mut todo = doc.child_nodes();
    while let Some(n) = todo.pop() {
        for (name, a) in n.attributes() {
            let strict = name.prefix().as_deref() == Some("xml") || name.namespace_uri().as_deref() == Some(XML_NS);
            if name.local_name() == "id" && (lax || strict) {
                if let Some(v) = a.node_value() {
                    ids.entry(v).or_default().push(n.clone());
                }
            }
        }
        todo.extend(n.child_nodes());
    }
    ids
}

/// What a document says of its ID values.
fn ids_found(doc: &RefNode, values: &[String]) -> std::result::Result<Vec<Option<usize>>, String> {
    let d = as_document(doc).map_err(|e| format!("{e:?}"))?;
    Ok(values.iter().map(|v| d.get_element_by_id(v).map(|n| ptr(&n))).collect())
}

/// The shape of a document, its nodes being owned by "the document" and not by this one.
fn document_shape(doc: &RefNode) -> Shape {
    fn own(s: &mut Shape, doc: usize) {
        if s.doc == Some(doc) {
            s.doc = Some(0);
        }
        s.attrs.values_mut().for_each(|a| own(a, doc));
        s.children.iter_mut().for_each(|c| own(c, doc));
    }
    let mut s = shape(doc, false);
    own(&mut s, ptr(doc));
    s
}

type Kept = (String, String, Option<String>, Option<String>, Option<String>, Option<usize>);

/// The declaration and the document type of a document.
fn declared(doc: &RefNode) -> std::result::Result<(Option<String>, Option<Kept>), String> {
    let e = |e: Error| format!("{e:?}");
    let decl = as_document_decl(doc).map_err(e)?.xml_declaration().map(|d| d.to_string());
    let doctype = match as_document(doc).map_err(e)?.doc_type() {
        None => None,
        Some(t) => {
            let d = as_document_type(&t).map_err(e)?;
            Some((
                t.node_name().to_string(),
                format!("{:?}", kind_of(&t)),
                d.public_id(),
                d.system_id(),
                d.internal_subset(),
                t.owner_document().map(|o| (o == *doc) as usize),
            ))
        }
    };
    Ok((decl, doctype))
}

fn p14_documents(case: &DocumentClone, cov: &mut Cov) -> Outcome {
    let e = |e: Error| format!("{e:?}");
    let c = &case.clone;
    let mut quiet = Cov::default();
    let mut r = drive(&c.build, &mut quiet, &mut |_, _, _, _| Ok(()))?;
    let mut original = r.nodes[0].clone();
    if let Some(encoding) = case.decl {
        let encoding = encoding.then(|| "UTF-8".to_string());
        let decl = XmlDecl::new(XmlVersion::V10, encoding, None);
        as_document_decl_mut(&mut original).map_err(e)?.set_xml_declaration(decl).map_err(e)?;
    }
    let lax = c.build.setup.lax_ids;
    let mut values: Vec<String> = r.nodes.iter().filter(|n| is_attribute(n)).filter_map(|n| n.node_value()).collect();
    values.push("v".into());
    values.sort();
    values.dedup();
    let before: Vec<Shape> = r.nodes.iter().map(|n| shape(n, true)).collect();
    let said = ids_found(&original, &values)?;
    let kept = declared(&original)?;
    let Some(copy) = original.clone_node(c.deep) else {
        return Err("clone_node of a document gave nothing".into());
    };
    if r.find(&copy).is_some() {
        return Err("the clone of a document is a node that was there before".into());
    }
    if before != r.nodes.iter().map(|n| shape(n, true)).collect::<Vec<_>>()
        || said != ids_found(&original, &values)?
        || kept != declared(&original)?
    {
        return Err("cloning a document changed a node that was there before".into());
    }
    if copy.parent_node().is_some() || copy.owner_document().is_some() {
        return Err("the clone of a document has a parent or an owner".into());
    }
    let mut want = document_shape(&original);
    if !c.deep {
        want.children.clear();
    }
    let got = document_shape(&copy);
    if got != want {
        return Err(format!("the clone of the document is {got:?}, should be {want:?}"));
    }
    if declared(&copy)? != kept {
        return Err(format!("the clone of the document declares {:?}, should be {kept:?}", declared(&copy)?));
    }
    // The IDs of the copy are those of the elements in it.
    let theirs = ids_below(&copy, lax);
    for v in &values {
        let found = as_document(&copy).map_err(e)?.get_element_by_id(v);
        let fine = match (&found, theirs.get(v)) {
            (None, None) => true,
            (Some(n), Some(those)) => those.contains(n),
            _ => false,
        };
        if !fine {
            return Err(format!("the clone of the document finds {found:?} by the id {v:?}"));
        }
    }
    let (mut mine, mut its) = (HashSet::new(), HashSet::new());
    ptrs(&original, &mut mine);
    ptrs(&copy, &mut its);
    if its.iter().any(|p| r.nodes.iter().any(|n| ptr(n) == *p)) {
        return Err("the clone of the document contains nodes that were there before".into());
    }
    r.learn(&copy);
    r.learn_all();
    check_links(&r)?;
    cov.hit(if c.deep { "deep" } else { "shallow" });
    if !theirs.is_empty() {
        cov.hit("with ids");
    }
    // Edit one side, watch the other.
    let cap = (CAP * 2).max(r.nodes.len() + 20);
    let (side, watched) = if c.edit_clone { (its, &original) } else { (mine, &copy) };
    let untouched = (shape(watched, true), ids_found(watched, &values)?);
    let mut extra: HashSet<usize> = side;
    let mut done = 0;
    for op in &c.edits {
        if r.nodes.len() > cap {
            break;
        }
        let allowed: Vec<bool> = r.nodes.iter().map(|n| extra.contains(&ptr(n))).collect();
        let Some(call) = resolve(&Side { r: &r, allowed }, op) else { continue };
        if out_of_domain(&r, &call) {
            continue;
        }
        let known = r.nodes.len();
        let got = perform(&|i| r.nodes[i].clone(), &call);
        if let Ok(Some(n)) = &got {
            r.learn(n);
        }
        r.learn_all();
        for n in &r.nodes[known..] {
            extra.insert(ptr(n));
        }
        if got.is_ok() && !matches!(call, Call::Create { .. }) {
            done += 1;
        }
        if (shape(watched, true), ids_found(watched, &values)?) != untouched {
            return Err(format!(
                "{call:?} on the {} document changed the {} one",
                if c.edit_clone { "cloned" } else { "original" },
                if c.edit_clone { "original" } else { "cloned" }
            ));
        }
    }
    if done > 0 {
        cov.hit("edited afterwards");
        if c.deep && !untouched.0.children.is_empty() {
            cov.nontrivial();
        }
    }
    check_links(&r)?;
    // What either creates can be put in its own tree, and is the same under the same options.
    let mut made = vec![];
    for doc in [&original, &copy] {
        let mut x = as_document(doc).map_err(e)?.create_element("x").map_err(e)?;
        let el = as_element_mut(&mut x).map_err(e)?;
        el.set_attribute_ns(XMLNS_NS, "xmlns:p", "urn:p").map_err(e)?;
        el.set_attribute("id", "only").map_err(e)?;
        let by_id = as_document(doc).map_err(e)?.get_element_by_id("only");
        made.push((as_element_namespaced(&x).map_err(e)?.get_namespace(Some("p")), by_id == Some(x.clone())));
    }
    if made[0] != made[1] {
        return Err(format!("an element made by the original and by the cloned document differ: {made:?}"));
    }
    for doc in [&original, &copy] {
        let n = as_document(doc).map_err(e)?.create_comment("c");
        let mut to = as_document(doc).map_err(e)?.document_element().unwrap_or_else(|| doc.clone());
        to.append_child(n).map_err(|e| format!("a node that the document created cannot be added to it: {e:?}"))?;
    }
    // With a document type, which cannot be given to a document that is there.
    if let Some((name, public, system)) = &case.doctype {
        let t = get_implementation()
            .create_document_type(name, public.as_deref(), system.as_deref())
            .map_err(e)?;
        let mut original = get_implementation().create_document(None, Some("root"), Some(t.clone())).map_err(e)?;
        if let Some(encoding) = case.decl {
            let decl = XmlDecl::new(XmlVersion::V11, encoding.then(|| "UTF-8".to_string()), Some(true));
            as_document_decl_mut(&mut original).map_err(e)?.set_xml_declaration(decl).map_err(e)?;
        }
        let kept = declared(&original)?;
        let copy = original.clone_node(c.deep).ok_or("clone_node of a document gave nothing")?;
        if declared(&copy)? != kept || declared(&original)? != kept {
            return Err(format!(
                "the documents have the types {:?} and {:?}, should be {kept:?}",
                declared(&original)?,
                declared(&copy)?
            ));
        }
        if as_document(&copy).map_err(e)?.doc_type().as_ref() == Some(&t) {
            return Err("the clone of the document has the document type of the original".into());
        }
        if c.deep && copy.to_string() != original.to_string() {
            return Err(format!("the clone of the document prints {copy}, should be {original}"));
        }
        cov.hit("document type");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wild {
    pub history: History,
    /// Before which operations to call everything on which node.
    pub probes: Vec<(u8, u16, u16, usize, usize, String)>,
}

fn wild_string() -> BoxedStrategy<String> {
    prop_oneof![
        3 => pool(&["a", "xmlns", "xml:id", "id", "xmlns:p", "x:a", "xml", "*", "", ":", "a:", ":a", "a:b:c", "&a;", "&#x;",
            "&#xD800;", "&#99999999999;", "&#0;", "&amp;", "<", "]]>", "--", "?>", "\u{e9}", "\u{10000}", "a b", "\r\n",
            "http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespace", "%a;", "&;", "&#38;#38;"]),
        2 => common::gen::string_of(common::gen::any_char(), 6),
    ]
    .boxed()
}

const WILD: Focus = Focus {
    create: 22,
    tree: 34,
    attr: 20,
    text: 12,
    norm: 5,
    clone: 6,
    value: 10,
    odd: 20,
    values: wild_string,
    options: true,
    makes: &[
        (6, Make::Elem),
        (2, Make::ElemNs),
        (2, Make::Attr),
        (3, Make::AttrWith),
        (2, Make::AttrNs),
        (4, Make::Text),
        (2, Make::CData),
        (2, Make::Comment),
        (2, Make::Pi),
        (2, Make::EntRef),
        (1, Make::Frag),
        (1, Make::Entity),
        (1, Make::IntEntity),
        (1, Make::Notation),
        (1, Make::DocType),
    ],
    ..BALANCED
};

fn wild_case() -> BoxedStrategy<Wild> {
    // Names come from the wild strings as well.
    let rename = |op: Op, s: String, t: String, on: bool| {
        if !on {
            return op;
        }
        match op {
            Op::Create { make, doc, data, .. } => Op::Create { make, doc, name: s, ns: t, data },
            Op::SetAttr { e, value, .. } => Op::SetAttr { e, name: s, value },
            Op::SetAttrNs { e, value, .. } => Op::SetAttrNs { e, ns: t, name: s, value },
            Op::RemAttr { e, .. } => Op::RemAttr { e, name: s },
            Op::RemAttrNs { e, .. } => Op::RemAttrNs { e, ns: t, name: s },
            op => op,
        }
    };
    let ops = prop::collection::vec(
        (op(WILD), wild_string(), wild_string(), prop::bool::weighted(0.35))
            .prop_map(move |(op, s, t, on)| rename(op, s, t, on)),
        1..40,
    );
    (
        any::<bool>(),
        any::<bool>(),
        (any::<bool>(), any::<bool>()),
        ops,
        prop::collection::vec(
            (0u8..40, any::<u16>(), any::<u16>(), offset(), offset(), wild_string()),
            0..6,
        ),
    )
        .prop_map(|(lax_ids, namespaces, roots, ops, probes)| Wild {
            history: History { setup: Setup { lax_ids, namespaces, roots }, ops, big: None, stretch: None },
            probes,
        })
        .boxed()
}

/// The strings are long: those of the history, and those asked for.
fn long_wild_case() -> BoxedStrategy<Wild> {
    (wild_case(), common::gen::length(5_000), 0u8..6)
        .prop_map(|(mut c, n, how)| {
            c.history.ops.truncate(24);
            let stretch = Stretch { values: n as u32, names: n as u32, how };
            c.history.stretch = Some(stretch);
            for (_, _, _, a, b, s) in &mut c.probes {
                *s = grown(s, n as u32, how);
                stretch.number(a);
                stretch.number(b);
            }
            c
        })
        .boxed()
}

fn node_text(r: &Real, n: &Option<RefNode>) -> String {
    match n {
        None => "-".into(),
        Some(n) => r.find(n).map_or("?".to_string(), |i| i.to_string()),
    }
}

/// Call every query, and every cast, that the kind of the node grants.
fn probe(r: &Real, i: usize, j: usize, a: usize, b: usize, s: &str, log: &mut String) {
    let n = r.nodes[i].clone();
    let m = r.nodes[j].clone();
    let other = m.node_name().to_string();
    let _ = write!(
        log,
        "{:?} {:?} {:?} {} {} {} {} {} {:?} {:?} {} {}",
        n.node_type(),
        n.node_name(),
        n.node_value(),
        node_text(r, &n.parent_node()),
        node_text(r, &n.first_child()),
        node_text(r, &n.last_child()),
        node_text(r, &n.previous_sibling()),
        node_text(r, &n.next_sibling()),
        Node::namespace_uri(&n),
        Node::prefix(&n),
        Node::local_name(&n),
        n.is_supported(s, &other),
    );
    let _ = write!(log, "{} {} {}", n.has_attributes(), n.has_child_nodes(), n.attributes().len());
    // The order of attributes is not fixed, so a printed element has only a fixed set of characters.
    let mut text: Vec<char> = n.to_string().chars().collect();
    text.sort();
    let _ = write!(log, "{:?} {}", text, format!("{n:?}").len());
    if let Ok(x) = as_attribute(&n) {
        let _ = write!(log, "{:?} {} {}", x.value(), x.specified(), node_text(r, &x.owner_element()));
    }
    if let Ok(x) = as_character_data(&n) {
        let _ = write!(log, "{:?} {:?} {:?}", x.length(), x.data(), x.substring_data(a, b));
    }
    if let Ok(x) = as_processing_instruction(&n) {
        let _ = write!(log, "{:?} {:?} {:?}", x.length(), x.data(), x.target());
    }
    if let Ok(x) = as_element(&n) {
        for name in [s, &other] {
            let _ = write!(
                log,
                "{} {:?} {} {} {}",
                x.tag_name(),
                x.get_attribute(name),
                node_text(r, &x.get_attribute_node(name)),
                x.has_attribute(name),
                x.get_elements_by_tag_name(name).len()
            );
            for ns in [s, "urn:1", XMLNS_NS] {
                let _ = write!(
                    log,
                    "{:?} {} {} {}",
                    x.get_attribute_ns(ns, name),
                    node_text(r, &x.get_attribute_node_ns(ns, name)),
                    x.has_attribute_ns(ns, name),
                    x.get_elements_by_tag_name_ns(ns, name).len()
                );
            }
        }
    }
    if let Ok(x) = as_element_namespaced(&n) {
        let _ = write!(
            log,
            "{} {:?} {:?} {} {} {}",
            x.contains_mapping(Some(s)),
            x.get_namespace(None),
            x.resolve_namespace(Some(s)),
            x.contains_mapped_namespace(s),
            x.get_prefix("urn:1").is_none(),
            x.resolve_prefix(s).is_none(),
        );
    }
    if let Ok(x) = as_document(&n) {
        let _ = write!(
            log,
            "{} {} {} {} {}",
            node_text(r, &x.document_element()),
            x.doc_type().is_some(),
            node_text(r, &x.get_element_by_id(s)),
            x.get_elements_by_tag_name(s).len(),
            x.get_elements_by_tag_name_ns(s, &other).len()
        );
        let _ = x.implementation().has_feature(s, &other);
    }
    if let Ok(x) = as_document_decl(&n) {
        let _ = write!(log, "{:?}", x.xml_declaration().map(|d| d.to_string()));
    }
    let mut d = n.clone();
    if let Ok(x) = as_document_decl_mut(&mut d) {
        let decl = XmlDecl::new(if a % 2 == 0 { XmlVersion::V10 } else { XmlVersion::V11 }, None, Some(b % 2 == 0));
        let _ = x.set_xml_declaration(decl);
    }
    if let Ok(x) = as_document_type(&n) {
        let _ = write!(
            log,
            "{:?} {:?} {:?} {} {}",
            x.public_id(),
            x.system_id(),
            x.internal_subset(),
            x.entities().len(),
            x.notations().len()
        );
    }
    if let Ok(x) = as_entity(&n) {
        let _ = write!(log, "{:?} {:?} {:?}", x.public_id(), x.system_id(), x.notation_name());
    }
    if let Ok(x) = as_notation(&n) {
        let _ = write!(log, "{:?} {:?}", x.public_id(), x.system_id());
    }
    let _ = as_text(&n).is_ok();
    let _ = as_comment(&n).is_ok();
    let _ = as_cdata_section(&n).is_ok();
    let _ = as_document_fragment(&n).is_ok();
    let _ = as_entity_reference(&n).is_ok();
    // A new document takes any document type.
    let made = get_implementation().create_document(Some(s), Some(&other), None);
    let _ = write!(log, "{}", made.is_ok());
    let made = get_implementation().create_document(None, Some(s), Some(n));
    let _ = write!(log, "{:?}", made.map(|d| d.to_string()));
}

fn wild_run(c: &Wild, cov: &mut Cov) -> std::result::Result<String, String> {
    let mut log = String::new();
    let mut step = 0usize;
    let mut out = Cov::default();
    let r = drive(&c.history, &mut out, &mut |r, call, got, cov| {
        let _ = write!(log, "{call:?} {:?};", got.as_ref().map(|n| node_text(r, n)));
        for (at, i, j, a, b, s) in &c.probes {
            if *at as usize == step {
                let n = r.nodes.len();
                probe(r, *i as usize % n, *j as usize % n, *a, *b, s, &mut log);
                cov.hit("probe");
            }
        }
        step += 1;
        Ok(())
    })?;
    for (k, v) in out.classes {
        cov.add(k, v);
    }
    check_links(&r)?;
    check_child_rules(&r.nodes)?;
    for n in &r.nodes {
        let _ = n.to_string();
    }
    for n in &r.nodes {
        let _ = write!(log, "{:?}", (kind_of(n), n.node_name().to_string(), n.node_value()));
    }
    if step > 5 {
        cov.nontrivial();
    }
    Ok(log)
}

fn p19(c: &Wild, cov: &mut Cov) -> Outcome {
    let one = wild_run(c, cov)?;
    let two = wild_run(c, &mut Cov::default())?;
    if one != two {
        let at = one.bytes().zip(two.bytes()).position(|(x, y)| x != y).unwrap_or(0);
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60)..(at + 60).min(s.len())]).into_owned();
        return Err(format!("the same calls gave {:?} and then {:?}", cut(&one), cut(&two)));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ registration

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P01",
            subs: vec![
                Box::new(Sub {
                    name: "links",
                    quick: 192_000,
                    thorough: 2_000_000,
                    rule: "two edits succeeded, one of them after a failed call, and some node is at depth two or more",
                    strategy: || history(BALANCED),
                    run: p01,
                }),
                Box::new(Sub {
                    name: "links_text",
                    quick: 96_000,
                    thorough: 1_000_000,
                    rule: "two edits succeeded, one of them after a failed call, and some node is at depth two or more",
                    strategy: || history(Focus { text: 20, norm: 15, clone: 8, attr: 20, value: 10, max: 60, ..BALANCED }),
                    run: p01,
                }),
                Box::new(Sub {
                    name: "large",
                    quick: 3_000,
                    thorough: 60_000,
                    rule: "two edits succeeded",
                    strategy: || large(BALANCED, &[Form::Wide, Form::Deep, Form::Bushy, Form::Texts, Form::Misc, Form::Attrs], 520, true),
                    run: p01,
                }),
            ],
            known: vec![],
            assumptions: vec!["at most two documents and about ninety nodes in a history, or five hundred in a large one"],
        },
        Property {
            id: "P12",
            subs: vec![Box::new(Sub {
                name: "search",
                quick: 192_000,
                thorough: 1_000_000,
                rule: "a search has several matches, and elements that do not match",
                strategy: search_case,
                run: p12,
            }),
            Box::new(Sub {
                name: "large",
                quick: 2_000,
                thorough: 40_000,
                rule: "a search has several matches, and elements that do not match",
                strategy: wide_search_case,
                run: p12,
            }),
            Box::new(Sub {
                name: "long",
                quick: 2_000,
                thorough: 40_000,
                rule: "a search has several matches, and elements that do not match",
                strategy: long_search_case,
                run: p12_long,
            })],
            known: vec![],
            assumptions: vec!["at most about four hundred nodes"],
        },
        Property {
            id: "P14",
            subs: vec![Box::new(Sub {
                name: "clones",
                quick: 160_000,
                thorough: 1_000_000,
                rule: "a deep clone with children was made, and one of the sides edited afterwards",
                strategy: clone_case,
                run: p14,
            }),
            Box::new(Sub {
                name: "documents",
                quick: 60_000,
                thorough: 600_000,
                rule: "a deep clone of a document with children was made, and one of the documents edited afterwards",
                strategy: document_clone,
                run: p14_documents,
            }),
            Box::new(Sub {
                name: "large",
                quick: 1_200,
                thorough: 30_000,
                rule: "a deep clone with children was made, and one of the sides edited afterwards",
                strategy: large_clone_case,
                run: p14,
            }),
            Box::new(Sub {
                name: "long",
                quick: 3_000,
                thorough: 60_000,
                rule: "a deep clone with children was made, and one of the sides edited afterwards",
                strategy: long_clone_case,
                run: p14,
            })],
            known: vec![],
            assumptions: vec!["at most about three hundred nodes before cloning"],
        },
        Property {
            id: "P19",
            subs: vec![
                Box::new(Sub {
                    name: "wild",
                    quick: 192_000,
                    thorough: 1_500_000,
                    rule: "more than five calls were made",
                    strategy: wild_case,
                    run: p19,
                }),
                Box::new(Sub {
                    name: "long",
                    quick: 2_000,
                    thorough: 40_000,
                    rule: "more than five calls were made",
                    strategy: long_wild_case,
                    run: p19,
                }),
                Box::new(crate::deep::sub()),
                Box::new(crate::deep::attributes_sub()),
            ],
            known: vec![common::runner::Known {
                id: "deep-debug",
                what: "formatting with {:?} recurses, for a document of a hundred thousand levels it overflows the stack",
                crash: true,
                witness: crate::deep::debug_overflows,
            }],
            assumptions: vec!["at most two documents and about ninety nodes in a history, or five hundred in a large one"],
        },
    ]
}

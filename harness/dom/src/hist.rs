//! Properties decided over histories against the reference model: P02, P03, P04, P06, P09, P10, P11, P21.
use crate::model::{is_id, Aspect, Model, Step};
use crate::world::*;
use common::runner::{Cov, Known, Outcome, Property, Sub};
use proptest::prelude::*;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::as_element_namespaced;
use xml_dom::level2::*;

/// Run a history on the crate and the model; `judge` decides what each step means for a property.
pub fn drive(
    h: &History,
    cov: &mut Cov,
    ids: bool,
    ns: bool,
    judge: &mut dyn FnMut(&mut Model, &Call, &Step, &mut Cov) -> Outcome,
) -> Outcome {
    let Some(big) = &h.big else {
        return drive_on(Model::new(&h.setup), &h.ops(), cov, ids, ns, judge);
    };
    let docs = [h.setup.roots.0, h.setup.roots.1]
        .map(|root| new_document(root.then_some("root"), h.setup.lax_ids, h.setup.namespaces));
    if let Err(e) = big.build(&docs[0]) {
        cov.hit("abandoned");
        return if big.own { Err(e) } else { Ok(()) };
    }
    let mut m = Model::of(&docs, h.setup.lax_ids, h.setup.namespaces);
    drop(docs);
    m.cap = m.nodes.len() + 20;
    for k in [0, big.n as usize / 2, big.n as usize - 1] {
        m.seen_uris.insert(format!("urn:{k}"));
    }
    if !big.own {
        m.check_ids = ids;
        m.check_ns = ns;
        if !m.compare().is_empty() {
            cov.hit("abandoned");
            return Ok(());
        }
    }
    drive_on(m, &h.ops(), cov, ids, ns, judge)
}

/// The same, on documents there are already.
pub fn drive_on(
    mut m: Model,
    ops: &[Op],
    cov: &mut Cov,
    ids: bool,
    ns: bool,
    judge: &mut dyn FnMut(&mut Model, &Call, &Step, &mut Cov) -> Outcome,
) -> Outcome {
    m.drops = ops.iter().any(|o| matches!(o, Op::Drop { .. }));
    m.check_ids = ids;
    m.check_ns = ns;
    let start = m.compare();
    if !start.is_empty() {
        return Err(format!("new documents are not as they should be: {start:?}"));
    }
    for (step_no, op) in ops.iter().enumerate() {
        if let Op::Drop { n } = op {
            if let Some(i) = pick(&m, n) {
                m.drop_handle(i);
                cov.hit("drop");
                let step = Step {
                    expected_err: None,
                    got_err: None,
                    wrong_return: None,
                    diffs: m.compare(),
                };
                let call = Call::Normalize { n: i };
                judge(&mut m, &call, &step, cov).map_err(|e| format!("after dropping node {i} (operation {step_no}): {e}"))?;
                if !step.diffs.is_empty() {
                    cov.hit("abandoned");
                    return Ok(());
                }
            }
            continue;
        }
        if m.nodes.len() > m.cap && matches!(op, Op::Create { .. } | Op::Clone { .. }) {
            continue;
        }
        let Some(call) = resolve(&m, op) else {
            cov.hit("no operand");
            continue;
        };
        let Some(step) = m.step(&call) else {
            cov.hit("undecided");
            continue;
        };
        cov.hit(if step.got_err.is_some() { "rejected" } else { "accepted" });
        judge(&mut m, &call, &step, cov).map_err(|e| format!("operation {step_no}, {call:?}: {e}"))?;
        if !step.agrees() && !step.wrong_err() {
            // Another property's business: the rest of this history cannot be predicted.
            cov.hit("abandoned");
            return Ok(());
        }
    }
    Ok(())
}

fn is_tree_call(c: &Call) -> bool {
    matches!(c, Call::Insert { .. } | Call::Append { .. } | Call::Replace { .. } | Call::Remove { .. })
}

fn is_attr_call(c: &Call) -> bool {
    matches!(
        c,
        Call::SetAttr { .. }
            | Call::SetAttrNs { .. }
            | Call::RemAttr { .. }
            | Call::RemAttrNs { .. }
            | Call::SetAttrNode { .. }
            | Call::RemAttrNode { .. }
    )
}

fn report(step: &Step) -> Outcome {
    Err(step.describe())
}

// ------------------------------------------------------------------------------------------------ P02

fn p02(h: &History, cov: &mut Cov) -> Outcome {
    let mut moves = 0;
    let mut prev: Vec<Option<usize>> = vec![];
    drive(h, cov, false, false, &mut |m, c, s, cov| {
        if is_tree_call(c) {
            if s.unexpected_err() || s.wrong_return.is_some() || (s.got_err.is_none() && s.has(&[Aspect::Tree, Aspect::Docs])) {
                return report(s);
            }
            if s.agrees() && s.got_err.is_none() {
                match c {
                    Call::Insert { p, c, .. } | Call::Append { p, c } | Call::Replace { p, c, .. } => {
                        let old = prev.get(*c).copied().flatten();
                        if old == Some(*p) {
                            cov.hit("moved within its parent");
                            moves += 1;
                        } else if old.is_some() {
                            cov.hit("moved between parents");
                            moves += 1;
                        } else {
                            cov.hit("inserted");
                        }
                    }
                    _ => cov.hit("removed"),
                }
            }
        }
        prev = m.nodes.iter().map(|n| n.parent).collect();
        Ok(())
    })?;
    if moves > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P03

fn p03(h: &History, cov: &mut Cov) -> Outcome {
    let mut rejections = 0;
    drive(h, cov, true, true, &mut |_, c, s, cov| {
        if matches!(c, Call::Split { .. } | Call::Chars { .. }) {
            if s.got_err.is_some() && !s.diffs.is_empty() {
                return report(s);
            }
            return Ok(());
        }
        if !is_tree_call(c) && !is_attr_call(c) && !matches!(c, Call::SetVal { .. }) {
            return Ok(());
        }
        if s.unexpected_ok() || s.wrong_err() || (s.got_err.is_some() && !s.diffs.is_empty()) {
            return report(s);
        }
        if let Some(e) = &s.got_err {
            rejections += 1;
            cov.hit(match e {
                Error::HierarchyRequest => "HierarchyRequest",
                Error::WrongDocument => "WrongDocument",
                Error::NotFound => "NotFound",
                Error::InUseAttribute => "InUseAttribute",
                Error::Syntax => "Syntax",
                Error::InvalidState => "InvalidState",
                Error::Namespace => "Namespace",
                _ => "other error",
            });
        }
        Ok(())
    })?;
    if rejections > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P04

/// The rules, on the nodes of the crate alone.
pub fn check_child_rules(nodes: &[RefNode]) -> Outcome {
    use xml_dom::level2::convert::as_document;
    for n in nodes {
        let k = kind_of(n);
        let kids = n.child_nodes();
        for c in &kids {
            if !table_allows(k, kind_of(c)) {
                return Err(format!("a {k:?} has a {:?} child", kind_of(c)));
            }
        }
        if k == Kind::Doc {
            let elems: Vec<&RefNode> = kids.iter().filter(|c| kind_of(c) == Kind::Elem).collect();
            if elems.len() > 1 {
                return Err(format!("a document has {} element children", elems.len()));
            }
            let got = as_document(n).map_err(|e| format!("a document is not a document: {e:?}"))?.document_element();
            if got.as_ref() != elems.first().copied() {
                return Err("document_element is not the element child of the document".into());
            }
        }
    }
    Ok(())
}

fn p04(h: &History, cov: &mut Cov) -> Outcome {
    let (mut roots, mut refused) = (0, 0);
    drive(h, cov, false, false, &mut |m, c, s, cov| {
        let nodes: Vec<RefNode> = m.nodes.iter().filter_map(|n| n.real.clone()).collect();
        check_child_rules(&nodes)?;
        if let Call::Insert { p, c, .. } | Call::Append { p, c } | Call::Replace { p, c, .. } = c {
            // Whether the child is accepted: only where the kinds, or the second root, decide.
            let (pk, ck) = (m.nodes[*p].kind, m.nodes[*c].kind);
            let by_rule = s.expected_err.as_deref() == Some(&[Error::HierarchyRequest][..]) && !m.is_self_or_ancestor(*c, *p);
            if by_rule && s.got_err.is_none() {
                return report(s);
            }
            if by_rule && s.got_err != Some(Error::HierarchyRequest) {
                return report(s);
            }
            if s.unexpected_err() && s.got_err == Some(Error::HierarchyRequest) {
                return report(s);
            }
            if pk == Kind::Doc && ck == Kind::Elem {
                if s.got_err.is_none() {
                    roots += 1;
                    cov.hit("root accepted");
                } else {
                    refused += 1;
                    cov.hit("root refused");
                }
            }
        }
        Ok(())
    })?;
    if roots + refused > 1 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P06

fn p06(h: &History, cov: &mut Cov) -> Outcome {
    let mut displaced = 0;
    let mut before: Vec<Option<usize>> = vec![];
    drive(h, cov, false, false, &mut |m, c, s, cov| {
        if s.has(&[Aspect::Attrs]) && s.got_err.is_none() {
            return report(s);
        }
        if is_attr_call(c) {
            if s.unexpected_err() || s.wrong_return.is_some() {
                return report(s);
            }
            if s.agrees() {
                let mut diffs = vec![];
                if let Call::SetAttr { e, .. }
                | Call::SetAttrNs { e, .. }
                | Call::RemAttr { e, .. }
                | Call::RemAttrNs { e, .. }
                | Call::SetAttrNode { e, .. }
                | Call::RemAttrNode { e, .. } = c
                {
                    m.compare_misses(*e, ATTR_NAMES, ATTR_NSS, &mut diffs);
                }
                if let Some((_, d)) = diffs.first() {
                    return Err(d.clone());
                }
            }
        }
        for (i, o) in before.iter().enumerate() {
            if o.is_some() && m.nodes[i].owner.is_none() {
                cov.hit("displaced or removed");
                displaced += 1;
            }
        }
        before = m.nodes.iter().map(|n| n.owner).collect();
        Ok(())
    })?;
    if displaced > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P09

fn p09(h: &History, cov: &mut Cov) -> Outcome {
    let mut work = 0;
    let mut before = 0;
    drive(h, cov, false, false, &mut |m, c, s, cov| {
        let linked = m.nodes.iter().filter(|n| n.parent.is_some()).count();
        match c {
            Call::Split { .. } => {
                if !s.agrees() && !(s.expected_err.is_some() && s.got_err.is_some() && s.diffs.is_empty()) {
                    return report(s);
                }
                if s.got_err.is_none() {
                    cov.hit("split");
                    work += 1;
                }
            }
            Call::Normalize { n } => {
                if !s.agrees() {
                    return report(s);
                }
                if m.usable(*n) {
                    if linked < before {
                        cov.hit("normalize merged or removed texts");
                        work += 1;
                    }
                    m.at(*n).normalize();
                    let again = m.compare();
                    if !again.is_empty() {
                        return Err(format!("normalizing again changed: {again:?}"));
                    }
                }
            }
            _ => (),
        }
        before = linked;
        Ok(())
    })?;
    if work > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P10

fn p10(h: &History, cov: &mut Cov) -> Outcome {
    let mut most = 0;
    drive(h, cov, false, true, &mut |m, _, s, cov| {
        if s.has(&[Aspect::Ns]) && s.got_err.is_none() {
            return report(s);
        }
        let n: usize = (0..m.nodes.len())
            .filter(|i| m.nodes[*i].kind == Kind::Elem)
            .map(|i| m.mappings(i).len())
            .sum();
        if n > 0 {
            cov.hit("step with mappings");
        }
        most = most.max(n);
        Ok(())
    })?;
    if most > 1 || !h.setup.namespaces {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P11

fn p11(h: &History, cov: &mut Cov) -> Outcome {
    let mut carried = 0;
    drive(h, cov, true, false, &mut |m, c, s, cov| {
        if s.has(&[Aspect::Ids]) {
            return report(s);
        }
        let name = match c {
            Call::SetAttr { name, .. } => Some((name.clone(), None)),
            Call::SetAttrNs { name, ns, .. } => Some((name.clone(), Some(ns.clone()))),
            Call::SetAttrNode { a, .. } | Call::SetVal { n: a, .. } => {
                Some((m.nodes[*a].name.clone(), m.nodes[*a].ns.clone()))
            }
            _ => None,
        };
        if let Some((name, ns)) = name {
            // Uniqueness: refused exactly when another element has the id.
            let dup = s.expected_err.as_deref() == Some(&[Error::Syntax][..]);
            if dup {
                if s.got_err != Some(Error::Syntax) {
                    return report(s);
                }
                cov.hit("duplicate refused");
            }
            if is_id(&name, ns.as_deref(), true) && s.unexpected_err() && s.got_err == Some(Error::Syntax) {
                return report(s);
            }
        }
        let n: usize = m
            .docs
            .iter()
            .map(|d| m.seen_ids.iter().filter(|id| !m.carriers(*d, id).0.is_empty()).count())
            .sum();
        if n < carried {
            cov.hit("id gone");
            cov.nontrivial();
        }
        carried = n;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------ P21

fn p21(h: &History, cov: &mut Cov) -> Outcome {
    let mut dropped = false;
    let mut lost = false;
    let mut after = 0;
    drive(h, cov, false, false, &mut |m, _, s, cov| {
        dropped |= m.nodes.iter().any(|n| n.real.is_none());
        let orphan = m.nodes.iter().any(|n| n.real.is_some() && n.doc.map_or(false, |d| m.nodes[d].dead));
        lost |= orphan;
        if dropped {
            if !s.agrees() && !s.wrong_err() {
                return report(s);
            }
            after += 1;
            if orphan {
                cov.hit("step on nodes without document");
            }
            // Printing what is held always works.
            for n in m.nodes.iter().rev().take(3) {
                if let Some(r) = &n.real {
                    let _ = format!("{r}");
                }
            }
        }
        Ok(())
    })?;
    if lost && after > 2 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ P22

/// Whether a node is still allocated.
type Alive = Box<dyn Fn() -> bool>;

fn p22(h: &History, cov: &mut Cov) -> Outcome {
    let mut watched: Vec<Option<Alive>> = vec![];
    let mut freed = 0;
    drive(h, cov, false, false, &mut |m, _, s, _| {
        for i in 0..m.nodes.len() {
            if watched.len() <= i {
                watched.push(None);
            }
            if watched[i].is_none() {
                if let Some(n) = &m.nodes[i].real {
                    let weak = std::rc::Rc::downgrade(n.as_inner());
                    watched[i] = Some(Box::new(move || weak.strong_count() > 0));
                }
            }
        }
        if !s.agrees() && !s.wrong_err() {
            return Ok(());
        }
        for (i, w) in watched.iter().enumerate() {
            let Some(alive) = w else { continue };
            let dead = m.nodes[i].dead;
            if alive() == dead {
                let k = m.nodes[i].kind;
                return Err(if dead {
                    format!("node {i}, a {k:?} that no held node reaches, was not freed")
                } else {
                    format!("node {i}, a {k:?} that a held node reaches, was freed")
                });
            }
        }
        freed = m.nodes.iter().filter(|n| n.dead).count();
        Ok(())
    })?;
    // Every handle has been dropped with the model.
    let left = watched.iter().flatten().filter(|alive| alive()).count();
    if left > 0 {
        return Err(format!("{left} of {} nodes were not freed with the last handle", watched.len()));
    }
    cov.add("freed before the end", freed as u64);
    if freed > 1 {
        cov.nontrivial();
    }
    Ok(())
}

/// Documents with document types and content, and the order to drop handles in.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Held {
    /// For each document: a document type, a root, an id on it, comments, a declaration.
    pub docs: Vec<(bool, bool, bool, u8, bool)>,
    pub order: Vec<u16>,
}

fn held_case() -> BoxedStrategy<Held> {
    (
        prop::collection::vec((prop::bool::weighted(0.7), any::<bool>(), any::<bool>(), 0u8..3, any::<bool>()), 1..4),
        prop::collection::vec(any::<u16>(), 0..20),
    )
        .prop_map(|(docs, order)| Held { docs, order })
        .boxed()
}

fn p22_documents(c: &Held, cov: &mut Cov) -> Outcome {
    use xml_dom::level2::ext::convert::as_document_decl_mut;
    use xml_dom::level2::ext::{XmlDecl, XmlVersion};
    let e = |e: Error| format!("{e:?}");
    // What it is, whether it is alive, its handle, and the one that keeps it.
    let mut nodes: Vec<(&'static str, Alive, Option<RefNode>, Option<usize>)> = vec![];
    let watch = |n: &RefNode| -> Alive {
        let weak = std::rc::Rc::downgrade(n.as_inner());
        Box::new(move || weak.strong_count() > 0)
    };
    for (k, (doctype, root, id, comments, decl)) in c.docs.iter().enumerate() {
        let t = match doctype {
            true => Some(get_implementation().create_document_type("t", None, Some("s")).map_err(e)?),
            false => None,
        };
        let name = format!("r{k}");
        let mut d = get_implementation().create_document(None, root.then_some(name.as_str()), t.clone()).map_err(e)?;
        let at = nodes.len();
        nodes.push(("document", watch(&d), None, None));
        if let Some(t) = t {
            nodes.push(("document type", watch(&t), Some(t), Some(at)));
        }
        if *decl {
            as_document_decl_mut(&mut d)
                .map_err(e)?
                .set_xml_declaration(XmlDecl::new(XmlVersion::V10, None, None))
                .map_err(e)?;
        }
        for _ in 0..*comments {
            let n = as_document(&d).map_err(e)?.create_comment("c");
            d.append_child(n.clone()).map_err(e)?;
            nodes.push(("comment", watch(&n), Some(n), Some(at)));
        }
        let el = as_document(&d).map_err(e)?.document_element();
        if let Some(mut el) = el {
            if *id {
                as_element_mut(&mut el)
                    .map_err(e)?
                    .set_attribute_ns(XML_NS, "xml:id", "i")
                    .map_err(e)?;
                if as_document(&d).map_err(e)?.get_element_by_id("i").as_ref() != Some(&el) {
                    return Err("the root is not found by its id".into());
                }
            }
            nodes.push(("root", watch(&el), Some(el), Some(at)));
        }
        // A copy of it goes with its handle, and takes nothing of this one along.
        let copy = d.clone_node(true).ok_or("clone_node of a document gave nothing")?;
        let mut watches = vec![watch(&copy)];
        watches.extend(copy.child_nodes().iter().map(watch));
        watches.extend(as_document(&copy).map_err(e)?.doc_type().iter().map(watch));
        if !watches.iter().all(|alive| alive()) {
            return Err("a node of a copied document was freed early".into());
        }
        drop(copy);
        if watches.iter().any(|alive| alive()) {
            return Err("a copied document was not freed".into());
        }
        nodes[at].2 = Some(d);
    }
    let mut order: Vec<usize> = c.order.iter().map(|k| *k as usize % nodes.len()).collect();
    order.extend(0..nodes.len());
    for i in order {
        if nodes[i].0 == "document" && nodes[i].2.is_some() {
            cov.hit("document dropped");
            cov.nontrivial();
        }
        nodes[i].2 = None;
        for (j, (what, alive, handle, by)) in nodes.iter().enumerate() {
            let want = handle.is_some() || by.map_or(false, |b| nodes[b].2.is_some());
            if alive() != want {
                return Err(format!("{what} (node {j}) is {}", if want { "freed early" } else { "not freed" }));
            }
            let (Some(n), Some(b)) = (handle, by) else { continue };
            if n.owner_document() != nodes[*b].2 {
                return Err(format!("{what} (node {j}) has a wrong owner document"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ registration

const TREE: Focus = Focus {
    attr: 4,
    value: 2,
    ..BALANCED
};

const REJECT: Focus = Focus {
    create: 16,
    tree: 30,
    attr: 26,
    text: 4,
    odd: 22,
    value: 8,
    names: &["a", "b", "x:a", "id", "xml:id"],
    nss: &["urn:1", "http://www.w3.org/XML/1998/namespace"],
    values: id_values,
    makes: &[
        (6, Make::Elem),
        (2, Make::Text),
        (1, Make::CData),
        (2, Make::Comment),
        (1, Make::Pi),
        (3, Make::EntRef),
        (1, Make::Frag),
        (3, Make::AttrWith),
        (2, Make::AttrNs),
        (1, Make::Entity),
        (1, Make::Notation),
        (1, Make::DocType),
    ],
    ..BALANCED
};

const ROOTS: Focus = Focus {
    create: 25,
    tree: 50,
    attr: 2,
    text: 2,
    norm: 2,
    clone: 6,
    value: 1,
    odd: 14,
    names: &["a", "b", "c"],
    makes: &[
        (6, Make::Elem),
        (1, Make::Text),
        (3, Make::Comment),
        (3, Make::Pi),
        (1, Make::EntRef),
        (1, Make::CData),
        (1, Make::Frag),
        (1, Make::Entity),
        (1, Make::AttrWith),
        (1, Make::Notation),
        (1, Make::DocType),
    ],
    ..BALANCED
};

const ATTRS: Focus = Focus {
    create: 18,
    tree: 6,
    attr: 60,
    text: 2,
    norm: 2,
    clone: 4,
    value: 8,
    odd: 4,
    names: ATTR_NAMES,
    nss: ATTR_NSS,
    makes: ATTR_MAKES,
    ..BALANCED
};

const TEXTS: Focus = Focus {
    create: 25,
    tree: 35,
    attr: 4,
    text: 18,
    norm: 14,
    clone: 2,
    value: 3,
    odd: 0,
    makes: &[
        (3, Make::Elem),
        (9, Make::Text),
        (3, Make::CData),
        (1, Make::Comment),
        (2, Make::EntRef),
        (1, Make::Frag),
        (2, Make::AttrWith),
    ],
    min: 8,
    max: 50,
    ..BALANCED
};

fn uris() -> BoxedStrategy<String> {
    prop::sample::select(&["urn:1", "urn:2", "urn:3", ""][..]).prop_map(String::from).boxed()
}

const SPACES: Focus = Focus {
    create: 14,
    tree: 30,
    attr: 45,
    text: 0,
    norm: 2,
    clone: 4,
    value: 8,
    odd: 0,
    names: &["xmlns", "xmlns:p", "xmlns:q", "xmlns:p", "a", "p:a"],
    nss: &[XMLNS_NS, XMLNS_NS, XMLNS_NS, "urn:1"],
    values: uris,
    makes: &[(6, Make::Elem), (1, Make::EntRef), (4, Make::AttrNs), (1, Make::AttrWith), (1, Make::Frag)],
    options: true,
    min: 8,
    max: 50,
    ..BALANCED
};

const IDS: Focus = Focus {
    create: 16,
    tree: 12,
    attr: 50,
    text: 0,
    norm: 2,
    clone: 3,
    value: 16,
    odd: 2,
    names: &["id", "xml:id", "x:id", "id", "xml:id", "a", "Id"],
    nss: &[XML_NS, XML_NS, "urn:1"],
    values: id_values,
    makes: &[(6, Make::Elem), (4, Make::AttrWith), (3, Make::AttrNs), (1, Make::Attr)],
    options: true,
    drop: 5,
    min: 8,
    max: 50,
    ..BALANCED
};

const DROPS: Focus = Focus {
    create: 16,
    tree: 30,
    attr: 16,
    text: 6,
    norm: 4,
    clone: 5,
    value: 6,
    odd: 4,
    drop: 12,
    min: 10,
    max: 50,
    ..BALANCED
};

const FREED: Focus = Focus {
    names: &["a", "b", "x:a", "xml:id", "xmlns:p"],
    nss: &["urn:1", XMLNS_NS],
    clone: 8,
    tree: 40,
    attr: 24,
    ..DROPS
};

fn sub(
    name: &'static str,
    quick: u64,
    thorough: u64,
    rule: &'static str,
    strategy: fn() -> BoxedStrategy<History>,
    run: fn(&History, &mut Cov) -> Outcome,
) -> Box<dyn common::runner::DynSub> {
    Box::new(Sub { name, quick, thorough, rule, strategy, run })
}

fn edited_attribute(ns: &str, name: &str, value: &str, later: &str) -> (RefNode, RefNode) {
    let d = new_document(Some("r"), false, true);
    let root = as_document(&d).unwrap().document_element().unwrap();
    let mut attr = as_document(&d).unwrap().create_attribute_ns(ns, name).unwrap();
    as_attribute_mut(&mut attr).unwrap().set_value(value).unwrap();
    let mut r = root.clone();
    as_element_mut(&mut r).unwrap().set_attribute_node(attr.clone()).unwrap();
    let mut text = attr.first_child().unwrap();
    as_character_data_mut(&mut text).unwrap().set_data(later).unwrap();
    (d, root)
}

fn stale_mapping() -> bool {
    let (_d, root) = edited_attribute("http://www.w3.org/2000/xmlns/", "xmlns:p", "u", "v");
    let stale = as_element_namespaced(&root).unwrap().get_namespace(Some("p")) == Some("u".into());
    stale
}

fn stale_id() -> bool {
    let (d, _root) = edited_attribute("http://www.w3.org/XML/1998/namespace", "xml:id", "i", "j");
    let doc = as_document(&d).unwrap();
    doc.get_element_by_id("i").is_some() && doc.get_element_by_id("j").is_none()
}

pub fn properties() -> Vec<Property> {
    let assume = || vec!["at most two documents and about ninety nodes in a history, or five hundred in a large one"];
    vec![
        Property {
            id: "P02",
            subs: vec![sub(
                "edits",
                144_000,
                1_500_000,
                "a node that had a parent was moved",
                || history(TREE),
                p02,
            ),
            sub(
                "large",
                2_400,
                60_000,
                "a node that had a parent was moved",
                || large(TREE, &[Form::Wide, Form::Deep, Form::Bushy, Form::Misc], 520, true),
                p02,
            )],
            known: vec![],
            assumptions: assume(),
        },
        Property {
            id: "P03",
            subs: vec![
                sub("rejected", 120_000, 1_000_000, "an edit was rejected", || history(REJECT), p03),
                sub(
                    "large",
                    800,
                    20_000,
                    "an edit was rejected",
                    || large(REJECT, &[Form::Wide, Form::Bushy, Form::Attrs, Form::Ids, Form::Decls], 300, false),
                    p03,
                ),
                sub("long", 1_200, 30_000, "an edit was rejected", || long(REJECT), p03),
            ],
            known: vec![],
            assumptions: assume(),
        },
        Property {
            id: "P04",
            subs: vec![sub(
                "roots",
                144_000,
                1_200_000,
                "a document was given an element, or refused one, more than once",
                || history(ROOTS),
                p04,
            ),
            sub(
                "large",
                2_400,
                60_000,
                "a document was given an element, or refused one, more than once",
                || large(ROOTS, &[Form::Misc, Form::Misc, Form::Wide], 520, true),
                p04,
            )],
            known: vec![],
            assumptions: assume(),
        },
        Property {
            id: "P06",
            subs: vec![sub(
                "attributes",
                100_000,
                1_000_000,
                "an attribute was displaced or removed",
                || history(ATTRS),
                p06,
            ),
            sub(
                "large",
                800,
                20_000,
                "an attribute was displaced or removed",
                || large(ATTRS, &[Form::Attrs], 260, true),
                p06,
            ),
                sub("long", 1_200, 30_000, "an attribute was displaced or removed", || long(ATTRS), p06),
            ],
            known: vec![],
            assumptions: assume(),
        },
        Property {
            id: "P09",
            subs: vec![sub(
                "texts",
                144_000,
                1_200_000,
                "a text was split, or normalizing took nodes out",
                || history(TEXTS),
                p09,
            ),
            sub(
                "large",
                2_400,
                60_000,
                "a text was split, or normalizing took nodes out",
                || large(TEXTS, &[Form::Texts, Form::Texts, Form::Wide, Form::Deep], 520, false),
                p09,
            ),
                sub("long", 4_000, 80_000, "a text was split, or normalizing took nodes out", || long(TEXTS), p09),
            ],
            known: vec![],
            assumptions: assume(),
        },
        Property {
            id: "P10",
            subs: vec![
                sub(
                    "declarations",
                    90_000,
                    800_000,
                    "two mappings existed at once, or mappings are off",
                    || history(SPACES),
                    p10,
                ),
                sub(
                    "large",
                    600,
                    15_000,
                    "two mappings existed at once, or mappings are off",
                    || large(SPACES, &[Form::Decls, Form::Decls, Form::Deep], 300, true),
                    p10,
                ),
                sub("long", 1_200, 30_000, "two mappings existed at once, or mappings are off", || long(SPACES), p10),
            ],
            known: vec![Known {
                id: "declaration-text",
                what: "after the text in a namespace attribute is edited in place (set_data on the Text node), the element still reports the mapping it had",
                crash: false,
                witness: stale_mapping,
            }],
            assumptions: assume(),
        },
        Property {
            id: "P11",
            subs: vec![
                sub("ids", 100_000, 1_000_000, "an id disappeared", || history(IDS), p11),
                sub("large", 400, 10_000, "an id disappeared", || large(IDS, &[Form::Ids], 300, true), p11),
                sub("long", 1_200, 30_000, "an id disappeared", || long(IDS), p11),
            ],
            known: vec![Known {
                id: "id-text",
                what: "after the text in an id attribute is edited in place (set_data on the Text node), the element is found by the id it had, and not by the one it has",
                crash: false,
                witness: stale_id,
            }],
            assumptions: assume(),
        },
        Property {
            id: "P21",
            subs: vec![sub(
                "drops",
                144_000,
                1_200_000,
                "edits followed the loss of a document that held nodes refer to",
                || history(DROPS),
                p21,
            ),
            sub(
                "large",
                1_600,
                40_000,
                "edits followed the loss of a document that held nodes refer to",
                || large(DROPS, &[Form::Wide, Form::Deep, Form::Bushy, Form::Attrs, Form::Texts], 300, false),
                p21,
            ),
                sub("long", 1_200, 30_000, "edits followed the loss of a document that held nodes refer to", || long(DROPS), p21),
            ],
            known: vec![],
            assumptions: assume(),
        },
        Property {
            id: "P22",
            subs: vec![sub(
                "freed",
                144_000,
                1_200_000,
                "two or more nodes lost their last handle before the end",
                || history(FREED),
                p22,
            ),
            sub(
                "large",
                1_600,
                40_000,
                "two or more nodes lost their last handle before the end",
                || large(FREED, &[Form::Wide, Form::Deep, Form::Bushy, Form::Attrs, Form::Texts, Form::Ids, Form::Decls], 300, false),
                p22,
            ),
            Box::new(Sub {
                name: "documents",
                quick: 60_000,
                thorough: 1_000_000,
                rule: "a document was dropped",
                strategy: held_case,
                run: p22_documents,
            }),
                sub("long", 1_200, 30_000, "two or more nodes lost their last handle before the end", || long(FREED), p22),
            ],
            known: vec![],
            assumptions: assume(),
        },
    ]
}

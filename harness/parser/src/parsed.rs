//! A parsed document is an ordinary document (P23): histories that start from parsed documents, against the
//! model of the other harness.
use crate::doc::{document, expected, large_document, number_ids, Doc, LargeDoc, N};
use crate::faithful::tree;
use crate::hist::drive_on;
use crate::model::Model;
use crate::real::check_links_from;
use crate::world::*;
use common::runner::{Cov, Outcome, Property, Sub};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::convert::*;
use xml_dom::level2::*;
use xml_dom::parser::{read_reader, read_xml};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Parsed {
    pub docs: (Doc, Doc),
    pub reader: bool,
    pub ops: Vec<Op>,
}

const PARSED_NAMES: &[&str] = &["a", "b", "x:a", "id", "xml:id", "xmlns:p", "A"];

/// Few names, so that there is something to find.
fn tame(n: &mut N) {
    let few = |name: &str, from: &[&str]| -> String {
        let sum: usize = name.bytes().map(|b| b as usize).sum();
        from[sum % from.len()].to_string()
    };
    if let N::Elem { name, attrs, kids, .. } = n {
        *name = few(name, &["a", "b", "x:a", "A"]);
        let mut seen: Vec<String> = vec![];
        attrs.retain_mut(|a| {
            if !a.name.ends_with("id") {
                a.name = few(&a.name, PARSED_NAMES);
            }
            let new = !seen.contains(&a.name);
            seen.push(a.name.clone());
            new
        });
        kids.iter_mut().for_each(tame);
    }
}

fn tamed() -> BoxedStrategy<Doc> {
    document()
        .prop_map(|mut d| {
            tame(&mut d.root);
            number_ids(&mut d.root, &mut 0);
            d
        })
        .boxed()
}

const PARSED: Focus = Focus {
    create: 16,
    tree: 40,
    attr: 26,
    text: 6,
    norm: 5,
    clone: 5,
    value: 8,
    odd: 5,
    drop: 1,
    min: 4,
    max: 30,
    names: PARSED_NAMES,
    nss: &[XML_NS, XMLNS_NS, "urn:1"],
    values: id_values,
    ..BALANCED
};

fn parsed_case() -> BoxedStrategy<Parsed> {
    (tamed(), tamed(), any::<bool>(), prop::collection::vec(op(PARSED), 0..30))
        .prop_map(|(a, b, reader, ops)| Parsed { docs: (a, b), reader, ops })
        .boxed()
}

fn walk(n: &RefNode, out: &mut Vec<RefNode>) {
    for c in n.child_nodes() {
        if c.node_type() == NodeType::Element {
            out.push(c.clone());
        }
        walk(&c, out);
    }
}

/// Searching agrees with walking.
fn check_search(d: &RefNode) -> Outcome {
    let doc = as_document(d).map_err(|e| format!("{e:?}"))?;
    let mut all = vec![];
    walk(d, &mut all);
    if doc.document_element() != d.child_nodes().into_iter().find(|c| c.node_type() == NodeType::Element) {
        return Err("document_element is not the element child of the document".into());
    }
    for name in ["*", "a", "b", "x:a", "A", "c"] {
        let want: Vec<RefNode> =
            all.iter().filter(|e| name == "*" || e.node_name().to_string() == name).cloned().collect();
        let got = doc.get_elements_by_tag_name(name);
        if got != want {
            return Err(format!("searching for {name:?} finds {} elements, there are {}", got.len(), want.len()));
        }
    }
    Ok(())
}

fn p23(c: &Parsed, cov: &mut Cov) -> Outcome {
    let mut docs = vec![];
    for d in [&c.docs.0, &c.docs.1] {
        let text = d.write();
        let doc = if c.reader { read_reader(text.as_bytes()) } else { read_xml(&text) };
        let doc = doc.map_err(|e| format!("{text:?} is rejected: {e:?}"))?;
        let mut want = vec![];
        for n in d.prolog.iter().chain(std::iter::once(&d.root)).chain(&d.epilog) {
            expected(n, &mut want);
        }
        let got = tree(&doc)?.1;
        if got != want {
            return Err(format!("{text:?}\nis parsed as {got:?}\n        it is {want:?}"));
        }
        docs.push(doc);
    }
    for d in &docs {
        check_links_from(d)?;
        check_search(d)?;
    }
    let mut m = Model::of(&docs, false, true);
    m.cap = m.nodes.len() + 60;
    // Of the documents, the model holds the only handles.
    drop(docs);
    let parsed = m.nodes.len();
    let mut touched = 0;
    let mut elements = 0;
    for n in &m.nodes {
        elements += (n.kind == Kind::Elem) as usize;
    }
    drive_on(m, &c.ops, cov, true, true, &mut |m, call, s, cov| {
        if !s.agrees() {
            return Err(s.describe());
        }
        for d in m.docs.clone() {
            if let Some(r) = &m.nodes[d].real {
                check_search(r)?;
            }
        }
        let on_parsed = match call {
            Call::Insert { p, c, .. } | Call::Append { p, c } | Call::Replace { p, c, .. } => *p < parsed || *c < parsed,
            Call::Remove { o, .. } => *o < parsed,
            Call::SetAttr { e, .. } | Call::SetAttrNs { e, .. } | Call::RemAttr { e, .. } | Call::RemAttrNs { e, .. } => {
                *e < parsed
            }
            Call::SetAttrNode { e, a, .. } | Call::RemAttrNode { e, a } => *e < parsed || *a < parsed,
            Call::SetVal { n, .. } | Call::Normalize { n } | Call::Clone { n, .. } => *n < parsed,
            Call::Split { t, .. } | Call::Chars { t, .. } => *t < parsed,
            _ => false,
        };
        if on_parsed && s.got_err.is_none() {
            touched += 1;
            cov.hit("edit of a parsed node");
        }
        Ok(())
    })?;
    if elements > 4 && touched > 2 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeParsed {
    large: LargeDoc,
    rest: Parsed,
}

fn large_parsed() -> BoxedStrategy<LargeParsed> {
    (large_document(300), parsed_case())
        .prop_map(|(large, mut rest)| {
            rest.ops.truncate(10);
            LargeParsed { large, rest }
        })
        .boxed()
}

fn p23_large(c: &LargeParsed, cov: &mut Cov) -> Outcome {
    let mut d = c.large.enlarge();
    // Attributes enough to count are covered by P16.
    if c.large.what != 2 {
        tame(&mut d.root);
        number_ids(&mut d.root, &mut 0);
    }
    p23(&Parsed { docs: (d, c.rest.docs.1.clone()), ..c.rest.clone() }, cov)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P23",
        subs: vec![Box::new(Sub {
            name: "large",
            quick: 1_200,
            thorough: 30_000,
            rule: "more than four elements were parsed, and three edits of parsed nodes succeeded",
            strategy: large_parsed,
            run: p23_large,
        }),
        Box::new(Sub {
            name: "parsed",
            quick: 60_000,
            thorough: 1_000_000,
            rule: "more than four elements were parsed, and three edits of parsed nodes succeeded",
            strategy: parsed_case,
            run: p23,
        })],
        known: vec![],
        assumptions: vec!["documents without a document type, two in a history, and at most sixty nodes more than were parsed"],
    }]
}

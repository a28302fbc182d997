//! Trees that are much deeper than it would be safe to recurse (the second part of P19). Everything runs on a
//! small stack, so that recursion shows at depths that are quick to build.
use crate::world::*;
use common::runner::{Cov, Outcome, Sub};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::as_element_namespaced;
use xml_dom::level2::ext::NamespacePrefix;
use xml_dom::level2::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deep {
    pub levels: usize,
    /// What stands at each level, again and again: an element, an element with a prefix, an entity reference
    /// (rarely), and what is beside the next level in it.
    pub pattern: Vec<(u8, u8)>,
    pub inside_out: bool,
    pub ops: Vec<u8>,
}

const STACK: usize = 256 << 10;

fn es(e: Error) -> String {
    format!("{e:?}")
}

impl Deep {
    fn level(&self, i: usize) -> (u8, u8) {
        self.pattern[i % self.pattern.len()]
    }
    fn tag(&self, i: usize) -> Option<&'static str> {
        match self.level(i).0 % 8 {
            0..=4 => Some("a"),
            5 | 6 => Some("x:b"),
            // Nothing below is printed, so not too soon.
            _ => (i * 10 < self.levels * 9).then_some("c"),
        }
    }
    fn make(&self, doc: RefDocument<'_>, i: usize) -> Result<RefNode> {
        let mut n = match self.tag(i) {
            Some(t) if t.contains(':') => doc.create_element_ns("urn:1", t)?,
            Some(t) => doc.create_element(t)?,
            None => doc.create_entity_reference("e")?,
        };
        let what = self.level(i).1;
        for (bit, text) in [(1, "s"), (2, ""), (4, "t")] {
            if what & bit != 0 {
                n.append_child(doc.create_text_node(text))?;
            }
        }
        Ok(n)
    }
    /// What stands after the next level, and attributes (an element without any is quick to append).
    fn close(&self, doc: RefDocument<'_>, i: usize, n: &mut RefNode) -> Result<()> {
        if is_element(n) && self.level(i).1 & 8 != 0 {
            as_element_mut(n)?.set_attribute("k", "v")?;
        }
        if self.level(i).1 & 16 != 0 {
            n.append_child(doc.create_comment("z"))?;
        }
        Ok(())
    }
    fn text(&self) -> String {
        let mut out = String::new();
        let mut end = 0;
        for i in 0..self.levels {
            let Some(t) = self.tag(i) else {
                out += "&e;";
                break;
            };
            out += &format!("<{t}");
            if self.level(i).1 & 8 != 0 {
                out += " k=\"v\"";
            }
            out += ">";
            for (bit, text) in [(1, "s"), (4, "t")] {
                if self.level(i).1 & bit != 0 {
                    out += text;
                }
            }
            end = i + 1;
        }
        for i in (0..end).rev() {
            if self.level(i).1 & 16 != 0 {
                out += "<!--z-->";
            }
            out += &format!("</{}>", self.tag(i).unwrap());
        }
        out
    }
    fn elements(&self, tag: &str) -> usize {
        (0..self.levels).filter(|i| self.tag(*i).map_or(false, |t| tag == "*" || t == tag)).count()
    }
}

/// The first and the last level.
fn build(d: &Deep, root: &mut RefNode) -> Result<(RefNode, RefNode)> {
    let doc_node = root.owner_document().ok_or(Error::InvalidState)?;
    let doc = as_document(&doc_node)?;
    let mut all: Vec<RefNode> = (0..d.levels).map(|i| d.make(doc, i)).collect::<Result<_>>()?;
    if !d.inside_out {
        root.append_child(all[0].clone())?;
    }
    for k in 1..d.levels {
        let i = if d.inside_out { d.levels - k } else { k };
        let below = all[i].clone();
        all[i - 1].append_child(below)?;
        d.close(doc, i - 1, &mut all[i - 1])?;
    }
    let last = d.levels - 1;
    d.close(doc, last, &mut all[last])?;
    if d.inside_out {
        root.append_child(all[0].clone())?;
    }
    Ok((all[0].clone(), all[last].clone()))
}

/// The path down from a node, along what is not text or a comment.
fn spine(top: &RefNode) -> Vec<RefNode> {
    let mut out = vec![top.clone()];
    while let Some(n) = out[out.len() - 1].child_nodes().into_iter().find(|n| !is_text(n) && !is_comment(n)) {
        out.push(n);
    }
    out
}

fn run(d: &Deep) -> Outcome {
    let doc_node = new_document(Some("root"), true, true);
    let doc = as_document(&doc_node).map_err(es)?;
    let mut root = doc.document_element().ok_or("no root")?;
    as_element_mut(&mut root).map_err(es)?.set_attribute_ns(XMLNS_NS, "xmlns:p", "urn:p").map_err(es)?;
    let (top, mut bottom) = build(d, &mut root).map_err(es)?;
    let weak = bottom.clone().downgrade();
    let text = d.text();
    let mut copies = vec![];
    for op in &d.ops {
        match op % 8 {
            0 => {
                if top.to_string() != text {
                    return Err("the deep tree prints as something else".into());
                }
                if !doc_node.to_string().contains(&text) {
                    return Err("the document does not print the deep tree".into());
                }
            }
            1 => {
                let copy = top.clone_node(true).ok_or("no copy")?;
                let (a, b) = (spine(&top), spine(&copy));
                if a.len() != d.levels || b.len() != d.levels {
                    return Err(format!("{} levels, {} in the copy, of {}", a.len(), b.len(), d.levels));
                }
                for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                    if x == y
                        || x.node_name() != y.node_name()
                        || x.child_nodes().len() != y.child_nodes().len()
                        || (i > 0 && y.parent_node().as_ref() != Some(&b[i - 1]))
                        || y.owner_document().as_ref() != Some(&doc_node)
                    {
                        return Err(format!("level {i} of the copy is not like the original"));
                    }
                }
                if copy.to_string() != text {
                    return Err("the copy prints as something else".into());
                }
                copies.push(copy);
                let other = doc_node.clone_node(true).ok_or("no copy of the document")?;
                if other.to_string() != doc_node.to_string() {
                    return Err("the copy of the document prints as something else".into());
                }
            }
            2 => {
                root.normalize();
                for (i, n) in spine(&top).iter().enumerate() {
                    let mut texts = 0;
                    for c in n.child_nodes() {
                        if is_text(&c) {
                            texts += 1;
                            if c.node_value().unwrap_or_default().is_empty() {
                                return Err(format!("an empty text is left at level {i}"));
                            }
                        }
                    }
                    if texts != (d.level(i).1 & 5 != 0) as usize {
                        return Err(format!("{texts} texts are left at level {i}"));
                    }
                }
            }
            3 => {
                for tag in ["*", "a", "x:b", "none"] {
                    let want = d.elements(tag) + (tag == "*") as usize;
                    let got = doc.get_elements_by_tag_name(tag);
                    if got.len() != want {
                        return Err(format!("{} elements {tag:?} are found, there are {want}", got.len()));
                    }
                    let below = as_element(&root).map_err(es)?.get_elements_by_tag_name(tag);
                    if below[..] != got[(tag == "*") as usize..] {
                        return Err("searching the document and its element gives different results".into());
                    }
                }
                let want: Vec<RefNode> = spine(&top).into_iter().filter(|n| n.node_name().to_string() == "x:b").collect();
                if doc.get_elements_by_tag_name_ns("urn:1", "b") != want {
                    return Err("the search by namespace gives something else".into());
                }
            }
            4 if is_element(&bottom) => {
                let n = as_element_namespaced(&bottom).map_err(es)?;
                if n.resolve_namespace(Some("p")).as_deref() != Some("urn:p") || n.resolve_namespace(None).is_some() {
                    return Err("a prefix is not resolved from the bottom".into());
                }
                if n.resolve_prefix("urn:p") != NamespacePrefix::new_some("p") || !n.resolve_prefix("urn:q").is_none() {
                    return Err("a namespace is not resolved from the bottom".into());
                }
            }
            5 if is_element(&bottom) => {
                as_element_mut(&mut bottom).map_err(es)?.set_attribute("id", "deep").map_err(es)?;
                if doc.get_element_by_id("deep").as_ref() != Some(&bottom) {
                    return Err("the bottom is not found by its id".into());
                }
                as_element_mut(&mut bottom).map_err(es)?.remove_attribute("id").map_err(es)?;
            }
            6 => {
                match bottom.append_child(top.clone()) {
                    Err(Error::HierarchyRequest) => {}
                    r => return Err(format!("putting the top into the bottom gives {:?}", r.map(|_| ()))),
                }
            }
            _ => {
                // Out of the tree and in again.
                let out = root.remove_child(top.clone()).map_err(es)?;
                if out != top || top.parent_node().is_some() {
                    return Err("the tree was not taken out".into());
                }
                root.append_child(top.clone()).map_err(es)?;
            }
        }
    }
    drop((doc_node, root, top, bottom, copies));
    if weak.upgrade().is_some() {
        return Err("the bottom of the tree was not released".into());
    }
    Ok(())
}

/// The known finding: the process does not survive this.
pub fn debug_overflows() -> bool {
    let doc = new_document(Some("root"), false, true);
    let Ok(document) = as_document(&doc) else { return true };
    let mut at = document.document_element();
    for _ in 0..100_000 {
        let next = document.create_element("a").ok();
        at = at.and_then(|mut n| n.append_child(next?).ok());
    }
    at.is_none() || format!("{doc:?}").is_empty()
}

fn deep(d: &Deep, cov: &mut Cov) -> Outcome {
    let d2 = d.clone();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || common::runner::guarded(|| run(&d2)))
        .map_err(|e| e.to_string())?
        .join()
        .map_err(|_| "the thread ended with a panic".to_string())??;
    for op in &d.ops {
        cov.hit(["printed", "copied", "normalized", "searched", "resolved", "found by id", "refused", "moved"][*op as usize % 8]);
    }
    if d.levels >= 8_000 {
        cov.nontrivial();
    }
    Ok(())
}

fn deep_case() -> BoxedStrategy<Deep> {
    (
        prop_oneof![1 => 1usize..2_000, 3 => 8_000usize..20_000],
        prop::collection::vec((0u8..8, 0u8..32), 1..5),
        any::<bool>(),
        prop::collection::vec(0u8..8, 1..4),
    )
        .prop_map(|(levels, pattern, inside_out, ops)| Deep { levels, pattern, inside_out, ops })
        .boxed()
}

pub fn sub() -> Sub<Deep> {
    Sub {
        name: "deep",
        quick: 400,
        thorough: 40_000,
        rule: "at least 8000 levels, on a stack of 256 kilobytes",
        strategy: deep_case,
        run: deep,
    }
}

/// Levels that hold the next one among their children, or in an entity reference in an attribute.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DeepAttributes {
    pub levels: usize,
    /// At each level, again and again: how the next one is held, and the text before it.
    pub pattern: Vec<u8>,
    pub ops: Vec<u8>,
}

impl DeepAttributes {
    fn through(&self, i: usize) -> bool {
        self.pattern[i % self.pattern.len()] & 1 == 1
    }
    fn texts(&self, i: usize) -> &'static [&'static str] {
        match self.pattern[i % self.pattern.len()] >> 1 & 3 {
            0 => &[],
            1 => &["s"],
            2 => &["s", "", "t"],
            _ => &[""],
        }
    }
    /// How many levels at the top are held as children.
    fn seen(&self) -> usize {
        (0..self.levels).find(|i| self.through(*i)).unwrap_or(self.levels)
    }
    fn text(&self) -> String {
        let seen = self.seen();
        let mut out = String::new();
        for i in 0..seen {
            out += "<a>";
            out += &self.texts(i).concat();
        }
        if seen < self.levels {
            out += &format!("<a k=\"{}\"></a>", self.texts(seen).concat());
        } else {
            out += "<z></z>";
        }
        out + &"</a>".repeat(seen)
    }
    /// The first and the last level.
    fn build(&self, doc: RefDocument<'_>) -> Result<(RefNode, RefNode)> {
        let bottom = doc.create_element("z")?;
        let mut below = bottom.clone();
        for i in (0..self.levels).rev() {
            let mut element = doc.create_element("a")?;
            let mut attribute = doc.create_attribute("k")?;
            let holder = if self.through(i) { &mut attribute } else { &mut element };
            for t in self.texts(i) {
                holder.append_child(doc.create_text_node(t))?;
            }
            if self.through(i) {
                let mut reference = doc.create_entity_reference("r")?;
                reference.append_child(below)?;
                attribute.append_child(reference)?;
                as_element_mut(&mut element)?.set_attribute_node(attribute)?;
            } else {
                element.append_child(below)?;
            }
            below = element;
        }
        Ok((below, bottom))
    }
    /// Each level, and its texts.
    fn spine(&self, top: &RefNode) -> std::result::Result<Vec<(RefNode, Vec<String>)>, String> {
        let mut out = vec![];
        let mut at = top.clone();
        for i in 0..self.levels {
            let holder = if self.through(i) {
                let a = at.attributes().into_values().next().ok_or(format!("no attribute at level {i}"))?;
                if as_attribute(&a).map_err(es)?.owner_element().as_ref() != Some(&at) {
                    return Err(format!("the attribute at level {i} is not its element's"));
                }
                a
            } else {
                at.clone()
            };
            let children = holder.child_nodes();
            let last = children.last().ok_or(format!("nothing is held at level {i}"))?;
            if last.parent_node().as_ref() != Some(&holder) {
                return Err(format!("what is held at level {i} has another parent"));
            }
            let texts = children.iter().filter(|c| is_text(c)).map(|c| c.node_value().unwrap_or_default()).collect();
            out.push((at, texts));
            at = if self.through(i) { last.first_child().ok_or(format!("an empty reference at level {i}"))? } else { last.clone() };
        }
        out.push((at, vec![]));
        Ok(out)
    }
}

fn run_attributes(d: &DeepAttributes) -> Outcome {
    let doc_node = new_document(Some("root"), false, true);
    let doc = as_document(&doc_node).map_err(es)?;
    let mut root = doc.document_element().ok_or("no root")?;
    let (mut top, mut bottom) = d.build(doc).map_err(es)?;
    root.append_child(top.clone()).map_err(es)?;
    let weak = bottom.clone().downgrade();
    let text = d.text();
    let mut normal = false;
    let mut copies = vec![];
    for op in &d.ops {
        match op % 6 {
            0 => {
                if top.to_string() != text || root.to_string() != format!("<root>{text}</root>") {
                    return Err("the tree prints as something else".into());
                }
            }
            1 => {
                let copy = top.clone_node(true).ok_or("no copy")?;
                for (i, ((x, xs), (y, ys))) in d.spine(&top)?.iter().zip(&d.spine(&copy)?).enumerate() {
                    if x == y || x.node_name() != y.node_name() || xs != ys || y.owner_document().as_ref() != Some(&doc_node) {
                        return Err(format!("level {i} of the copy is not like the original"));
                    }
                }
                copies.push(copy);
            }
            2 => {
                root.normalize();
                normal = true;
            }
            3 => {
                // The root, and the levels down to the first one that is in an attribute.
                let want = 1 + d.seen() + 1;
                let got = doc.get_elements_by_tag_name("*").len();
                if got != want {
                    return Err(format!("{got} elements are found, there are {want}"));
                }
            }
            4 => match bottom.append_child(top.clone()) {
                Err(Error::HierarchyRequest) => {}
                r => return Err(format!("putting the top into the bottom gives {:?}", r.map(|_| ()))),
            },
            _ => {
                // Out of the tree and in again; the attribute of the top too.
                root.remove_child(top.clone()).map_err(es)?;
                if let Some(a) = top.attributes().into_values().next() {
                    let el = as_element_mut(&mut top).map_err(es)?;
                    el.remove_attribute_node(a.clone()).map_err(es)?;
                    el.set_attribute_node(a).map_err(es)?;
                }
                root.append_child(top.clone()).map_err(es)?;
            }
        }
        for (i, (_, texts)) in d.spine(&top)?.iter().enumerate() {
            let was: Vec<String> = if i == d.levels { vec![] } else { d.texts(i).iter().map(|t| t.to_string()).collect() };
            let all = was.concat();
            let want = if !normal { was } else if all.is_empty() { vec![] } else { vec![all] };
            // Whether an entity reference in an attribute is looked into is left open.
            if texts != &want && !(normal && i > d.seen()) {
                return Err(format!("the texts at level {i} are {texts:?}, not {want:?}"));
            }
        }
    }
    drop((doc_node, root, top, bottom, copies));
    if weak.upgrade().is_some() {
        return Err("the bottom of the tree was not released".into());
    }
    Ok(())
}

fn deep_attributes(d: &DeepAttributes, cov: &mut Cov) -> Outcome {
    let d2 = d.clone();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || common::runner::guarded(|| run_attributes(&d2)))
        .map_err(|e| e.to_string())?
        .join()
        .map_err(|_| "the thread ended with a panic".to_string())??;
    for op in &d.ops {
        cov.hit(["printed", "copied", "normalized", "searched", "refused", "moved"][*op as usize % 6]);
    }
    if (0..d.levels).filter(|i| d.through(*i)).count() >= 2_000 {
        cov.nontrivial();
    }
    Ok(())
}

fn deep_attributes_case() -> BoxedStrategy<DeepAttributes> {
    (
        prop_oneof![1 => 1usize..1_000, 3 => 4_000usize..10_000],
        prop::collection::vec(0u8..8, 1..5),
        prop::collection::vec(0u8..6, 1..4),
    )
        .prop_map(|(levels, pattern, ops)| DeepAttributes { levels, pattern, ops })
        .boxed()
}

pub fn attributes_sub() -> Sub<DeepAttributes> {
    Sub {
        name: "deep_attributes",
        quick: 200,
        thorough: 10_000,
        rule: "at least 2000 levels are in an attribute, on a stack of 256 kilobytes",
        strategy: deep_attributes_case,
        run: deep_attributes,
    }
}

//! Names (P13).
use crate::model::{declares, is_id, ns_name_ok};
use crate::world::*;
use common::gen;
use common::norm;
use common::runner::{Cov, Exhaustive, Outcome, Property, Sub, Tier};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::dom_impl::{create_entity, create_internal_entity, create_notation, get_implementation_ext};
use xml_dom::level2::ext::ProcessingOptions;
use xml_dom::level2::*;

fn name_error(e: &Error) -> bool {
    matches!(e, Error::InvalidCharacter | Error::Syntax)
}

/// An accepted name is the one that was given, split at its colon.
fn check_name(how: &str, n: &Name, given: &str, ns: Option<&str>) -> Outcome {
    let (prefix, local) = norm::split_qname(given);
    if n.to_string() != given
        || n.prefix() != &prefix
        || n.local_name() != &local
        || n.namespace_uri().as_deref() != ns
    {
        return Err(format!("{how}({given:?}, {ns:?}) made the name {n:?}, printed {:?}", n.to_string()));
    }
    Ok(())
}

/// A call that takes a name.
fn verdict(how: &str, given: &str, ns: Option<&str>, got: std::result::Result<Option<Name>, Error>) -> Outcome {
    let legal = norm::is_qname(given);
    let want = match ns {
        None => legal,
        Some(ns) => ns_name_ok(ns, given),
    };
    match got {
        Ok(name) if want => match name {
            Some(n) => check_name(how, &n, given, ns),
            None => Ok(()),
        },
        Ok(_) => Err(format!("{how}({given:?}, {ns:?}) was accepted")),
        Err(e) if want => Err(format!("{how}({given:?}, {ns:?}) was rejected: {e:?}")),
        Err(e) if name_error(&e) => Ok(()),
        Err(Error::Namespace) if legal && ns.map_or(false, |n| !n.is_empty()) => Ok(()),
        Err(e) => Err(format!("{how}({given:?}, {ns:?}) was rejected with {e:?}")),
    }
}

// ---------------------------------------------------------------------------------- every code point

const BLOCK: u64 = 256;

fn code_points(idx: u64, cov: &mut Cov) -> Outcome {
    let doc_node = new_document(None, false, true);
    let doc = as_document(&doc_node).map_err(|e| format!("{e:?}"))?;
    for cp in idx * BLOCK..(idx + 1) * BLOCK {
        let Some(c) = char::from_u32(cp as u32) else { continue };
        let names = [
            format!("{c}"),
            format!("{c}a"),
            format!("a{c}"),
            format!("a{c}b"),
            format!("p:{c}"),
            format!("p:{c}b"),
            format!("p:a{c}"),
            format!("{c}:a"),
            format!("p{c}:a"),
            format!("p{c}q:a{c}b"),
        ];
        for n in &names {
            verdict("Name::from_str", n, None, Name::from_str(n).map(Some))?;
            let made = doc.create_element(n);
            verdict("create_element", n, None, made.map(|e| Some(e.node_name())))?;
        }
        cov.hit(match (norm::is_name_start(c), norm::is_name_char(c)) {
            (true, _) => "name start character",
            (_, true) => "other name character",
            _ => "not a name character",
        });
        cov.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- every operation

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Names {
    pub name: String,
    pub ns: String,
    pub prefix: Option<String>,
    pub bytes: Vec<u8>,
    pub lax: bool,
    pub spaces: bool,
}

const RESERVED: &[&str] = &[
    "xml", "XML", "Xml", "xmL", "xmlns", "XMLNS", "Xmlns", "xml:a", "XML:a", "a:xml", "a:XML", "xmlns:a", "xmlns:xml", "xml:xmlns", "xml:xml",
    "xmlns:xmlns", "xml:lang", "xml:id", "a:xmlns", "xmlx", "xm", "axml", "xml-a", "xmlnsx", "ID", "id", "xml:", ":xml", "xml:a:b",
];

fn wide_ncname() -> BoxedStrategy<String> {
    let start = any::<char>().prop_filter_map("start", |c| norm::is_name_start(c).then_some(c));
    let later = prop_oneof![
        2 => prop::char::range('a', 'z'),
        1 => prop::sample::select(&['-', '.', '_', '0', '9', '\u{b7}', '\u{300}', '\u{36f}', '\u{203f}', '\u{2040}', '\u{10000}'][..]),
        1 => any::<char>().prop_filter_map("char", |c| norm::is_name_char(c).then_some(c)),
    ];
    let one = prop_oneof![
        2 => gen::ncname(),
        1 => (start, prop::collection::vec(later, 0..5)).prop_map(|(s, l)| std::iter::once(s).chain(l).collect()),
    ];
    gen::at_times_long(one.boxed(), 100, 10_000)
}

fn qname() -> BoxedStrategy<String> {
    (prop::option::weighted(0.5, wide_ncname()), wide_ncname())
        .prop_map(|(p, l)| match p {
            Some(p) => format!("{p}:{l}"),
            None => l,
        })
        .boxed()
}

fn any_name() -> BoxedStrategy<String> {
    // One character put somewhere into a legal name, or taken out of it.
    let off_by_one = (qname(), gen::any_char(), any::<u16>(), any::<bool>()).prop_map(|(n, c, at, take)| {
        let mut v: Vec<char> = n.chars().collect();
        let at = at as usize % (v.len() + 1);
        if take && at < v.len() {
            v.remove(at);
        } else {
            v.insert(at, c);
        }
        v.into_iter().collect::<String>()
    });
    let parts = prop::collection::vec(prop_oneof![wide_ncname(), Just(String::new())], 1..5).prop_map(|v| v.join(":"));
    prop_oneof![
        4 => qname(),
        3 => off_by_one,
        2 => parts,
        1 => gen::string_of(gen::any_char(), 6),
        2 => pool(RESERVED),
        1 => "[xX][mM][lL](ns|NS)?[-._:a-z0-9]{0,2}",
    ]
    .boxed()
}

fn any_uri() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just("urn:1".to_string()),
        3 => Just(XML_NS.to_string()),
        3 => Just(XMLNS_NS.to_string()),
        1 => prop::sample::select(&["http://www.w3.org/2000/xmlns", "HTTP://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespace/", " "][..]).prop_map(String::from),
        1 => Just(String::new()),
        1 => gen::string_of(gen::any_char(), 6),
    ]
    .boxed()
}

fn names_case() -> BoxedStrategy<Names> {
    let bytes = prop_oneof![
        1 => prop::collection::vec(any::<u8>(), 0..6),
        2 => (any_name(), prop::collection::vec(any::<u8>(), 0..2), any::<u16>()).prop_map(|(n, extra, at)| {
            let mut b = n.into_bytes();
            let at = at as usize % (b.len() + 1);
            for e in extra {
                b.insert(at, e);
            }
            b
        }),
        1 => (qname(), any::<u8>()).prop_map(|(n, cut)| {
            let mut b = n.into_bytes();
            let cut = cut as usize % (b.len() + 1);
            b.truncate(b.len() - cut);
            b
        }),
    ];
    (
        any_name(),
        any_uri(),
        prop::option::weighted(0.8, prop_oneof![2 => wide_ncname(), 2 => any_name(), 2 => pool(&["xml", "xmlns", "", "a", "a:b", ":"])]),
        bytes,
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(name, ns, prefix, bytes, lax, spaces)| Names { name, ns, prefix, bytes, lax, spaces })
        .boxed()
}

fn names(c: &Names, cov: &mut Cov) -> Outcome {
    let e = |e: Error| format!("{e:?}");
    let n = &c.name;
    let ns = &c.ns;
    let doc_node = new_document(Some("root"), c.lax, c.spaces);
    let doc = as_document(&doc_node).map_err(e)?;
    let named = |r: Result<RefNode>| r.map(|n| Some(n.node_name()));

    verdict("Name::from_str", n, None, Name::from_str(n).map(Some))?;
    verdict("Name::new_ns", n, Some(ns), Name::new_ns(ns, n).map(Some))?;
    verdict("create_element", n, None, named(doc.create_element(n)))?;
    verdict("create_element_ns", n, Some(ns), named(doc.create_element_ns(ns, n)))?;
    verdict("create_attribute", n, None, named(doc.create_attribute(n)))?;
    verdict("create_attribute_with", n, None, named(doc.create_attribute_with(n, "v")))?;
    verdict("create_attribute_ns", n, Some(ns), named(doc.create_attribute_ns(ns, n)))?;
    verdict("create_entity_reference", n, None, named(doc.create_entity_reference(n)))?;
    let i = get_implementation();
    verdict("create_document_type", n, None, named(i.create_document_type(n, None, Some("s"))))?;
    verdict("create_entity", n, None, named(create_entity(doc_node.clone(), n, Some("p"), None)))?;
    verdict("create_internal_entity", n, None, named(create_internal_entity(doc_node.clone(), n, "v")))?;
    verdict("create_notation", n, None, named(create_notation(doc_node.clone(), n, Some("p"), None)))?;

    // Documents carry the name on their root.
    let root = |r: Result<RefNode>| -> std::result::Result<Option<Name>, Error> {
        r.map(|d| as_document(&d).ok().and_then(|d| d.document_element()).map(|e| e.node_name()))
    };
    let some = |r: std::result::Result<Option<Name>, Error>, how: &str| match r {
        Ok(None) => Err(format!("{how}({n:?}) made a document without a root")),
        r => Ok(r),
    };
    let how = "create_document";
    verdict(how, n, None, some(root(i.create_document(None, Some(n), None)), how)?)?;
    verdict(how, n, Some(ns), some(root(i.create_document(Some(ns), Some(n), None)), how)?)?;
    let how = "create_document_with_options";
    let x = get_implementation_ext();
    let o = ProcessingOptions::new();
    verdict(how, n, Some(ns), some(root(x.create_document_with_options(Some(ns), Some(n), None, o)), how)?)?;

    // Targets of processing instructions.
    let made = doc.create_processing_instruction(n, Some("d"));
    if n.eq_ignore_ascii_case("xml") {
        cov.hit("reserved target");
        match made {
            Err(e) if name_error(&e) => {}
            Err(e) => return Err(format!("target {n:?} was rejected with {e:?}")),
            Ok(_) => return Err(format!("target {n:?} was accepted")),
        }
    } else {
        if let Ok(pi) = &made {
            let pi = as_processing_instruction(pi).map_err(e)?;
            if pi.target() != *n {
                return Err(format!("target {n:?} became {:?}", pi.target()));
            }
        }
        verdict("create_processing_instruction", n, None, named(made))?;
    }

    // Attributes of an element, by name.
    let mut el = doc.create_element("e").map_err(e)?;
    {
        let el = as_element_mut(&mut el).map_err(e)?;
        let done = el.set_attribute(n, "v");
        let held: Vec<Name> = el.attributes().into_keys().collect();
        if done.is_err() && !held.is_empty() {
            return Err(format!("set_attribute({n:?}) failed, the element has {held:?}"));
        }
        if done.is_ok() && held.len() != 1 {
            return Err(format!("set_attribute({n:?}) gave the element {held:?}"));
        }
        verdict("set_attribute", n, None, done.map(|()| held.first().cloned()))?;
        let legal = norm::is_qname(n);
        if el.has_attribute(n) != legal
            || el.get_attribute(n) != legal.then(|| "v".to_string())
            || el.get_attribute_node(n).is_some() != legal
        {
            return Err(format!("attribute {n:?} of the element is not as it was set"));
        }
        el.remove_attribute(n).map_err(|e| format!("remove_attribute({n:?}): {e:?}"))?;
        if el.has_attributes() {
            return Err(format!("attribute {n:?} was not removed"));
        }
        let done = el.set_attribute_ns(ns, n, "v");
        let held: Vec<Name> = el.attributes().into_keys().collect();
        if held.len() != done.is_ok() as usize {
            return Err(format!("set_attribute_ns({ns:?}, {n:?}) gave {done:?}, the element has {held:?}"));
        }
        verdict("set_attribute_ns", n, Some(ns), done.map(|()| held.first().cloned()))?;
    }

    // Bytes.
    let text = std::str::from_utf8(&c.bytes);
    match (Name::try_from(&c.bytes[..]), text) {
        (Ok(got), Ok(t)) if norm::is_qname(t) => check_name("Name::try_from", &got, t, None)?,
        (Err(e), Ok(t)) if !norm::is_qname(t) && name_error(&e) => {}
        (Err(e), Err(_)) if name_error(&e) => cov.hit("bytes that are not UTF-8"),
        (got, _) => return Err(format!("Name::try_from({:?}) gives {got:?}", c.bytes)),
    }

    // Another prefix.
    for (mut name, ns) in [(Name::from_str(n), None), (Name::new_ns(ns, n), Some(ns.as_str()))]
        .into_iter()
        .filter_map(|(r, ns)| r.ok().map(|n| (n, ns)))
    {
        let before = name.clone();
        let part = c.prefix.as_deref().map_or(true, norm::is_ncname);
        let printed = match &c.prefix {
            Some(p) => format!("{p}:{}", name.local_name()),
            None => name.local_name().clone(),
        };
        let want = part && ns.map_or(true, |ns| ns_name_ok(ns, &printed));
        let got = name.set_prefix(c.prefix.as_deref());
        match got {
            Ok(()) if want => check_name("set_prefix", &name, &printed, ns)?,
            Ok(()) => return Err(format!("set_prefix({:?}) on {before:?} was accepted", c.prefix)),
            Err(e) if want => return Err(format!("set_prefix({:?}) on {before:?} was rejected: {e:?}", c.prefix)),
            Err(e) if part == (e == Error::Namespace) && (part || name_error(&e)) => {
                if name != before {
                    return Err(format!("set_prefix({:?}) failed on {before:?} and left {name:?}", c.prefix));
                }
            }
            Err(e) => return Err(format!("set_prefix({:?}) on {before:?} was rejected with {e:?}", c.prefix)),
        }
    }

    known_names(c, cov)?;
    cov.hit(match (norm::is_qname(n), n.contains(':')) {
        (true, true) => "legal, with a prefix",
        (true, false) => "legal",
        _ => "not legal",
    });
    if norm::is_qname(n) && !ns.is_empty() && !ns_name_ok(ns, n) {
        cov.hit("reserved");
    }
    // Neither a plain ASCII name nor empty.
    if !n.is_empty() && !n.chars().all(|c| c.is_ascii_alphanumeric()) {
        cov.nontrivial();
    }
    Ok(())
}

fn hash(n: &Name) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// What a name is said to be, the names with a meaning, and when two names are one.
fn known_names(c: &Names, cov: &mut Cov) -> Outcome {
    let e = |e: Error| format!("{e:?}");
    let mut all: Vec<Name> = vec![
        Name::for_xml_id(),
        Name::for_namespace(None),
        Name::for_text(),
        Name::for_cdata(),
        Name::for_comment(),
        Name::for_document(),
        Name::for_document_fragment(),
        Name::for_public_id(),
        Name::for_system_id(),
    ];
    for (n, want) in all[2..].iter().zip(["#text", "#cdata-section", "#comment", "#document", "#document-fragment", "PUBLIC", "SYSTEM"]) {
        if n.to_string() != want || n.prefix().is_some() || n.namespace_uri().is_some() {
            return Err(format!("the name {want} is {n:?}"));
        }
    }
    check_name("Name::for_xml_id", &all[0], "xml:id", Some(XML_NS))?;
    check_name("Name::for_namespace", &all[1], "xmlns", Some(XMLNS_NS))?;
    let (prefix, local) = norm::split_qname(&c.name);
    for part in [prefix, Some(local), c.prefix.clone()].into_iter().flatten() {
        if norm::is_ncname(&part) && ns_name_ok(XMLNS_NS, &format!("xmlns:{part}")) {
            let n = Name::for_namespace(Some(&part));
            check_name("Name::for_namespace", &n, &format!("xmlns:{part}"), Some(XMLNS_NS))?;
            all.push(n);
        }
    }
    for q in [c.name.as_str(), "id", "xml:id", "p:id", "xmlns", "xmlns:p", "xmlns:id"] {
        all.extend(Name::from_str(q));
        for ns in [c.ns.as_str(), XML_NS, XMLNS_NS] {
            if let Ok(mut n) = Name::new_ns(ns, q) {
                all.push(n.clone());
                if n.set_prefix(c.prefix.as_deref()).is_ok() {
                    all.push(n);
                }
            }
        }
    }
    let key = |n: &Name| (n.namespace_uri().clone(), n.prefix().clone(), n.local_name().clone());
    let mut seen: HashMap<Name, usize> = HashMap::new();
    for (i, n) in all.iter().enumerate() {
        let (text, ns) = (n.to_string(), n.namespace_uri().as_deref());
        // A reserved name starts with a character that is in no other.
        let plain = !text.starts_with('#');
        if n.is_namespace_attribute() != (plain && declares(&text, ns).is_some()) {
            return Err(format!("{n:?} is a namespace attribute: {}", n.is_namespace_attribute()));
        }
        for lax in [false, true] {
            if n.is_id_attribute(lax) != (plain && is_id(&text, ns, lax)) {
                return Err(format!("{n:?} is an id attribute (ids assumed: {lax}): {}", n.is_id_attribute(lax)));
            }
        }
        let first = all.iter().position(|m| key(m) == key(n)).unwrap_or(i);
        if *seen.entry(n.clone()).or_insert(i) != first {
            return Err(format!("{n:?} is found as another name"));
        }
        for m in &all[..i] {
            let same = key(m) == key(n);
            if (m == n) != same || (n == m) != same || (same && hash(m) != hash(n)) {
                return Err(format!("{n:?} and {m:?} are equal: {}", m == n));
            }
        }
    }
    cov.hit("names compared");
    // The nodes with a fixed name have these.
    let doc_node = new_document(None, false, true);
    let doc = as_document(&doc_node).map_err(e)?;
    for (n, want) in [
        (doc.create_text_node("t"), Name::for_text()),
        (doc.create_cdata_section("t").map_err(e)?, Name::for_cdata()),
        (doc.create_comment("t"), Name::for_comment()),
        (doc.create_document_fragment().map_err(e)?, Name::for_document_fragment()),
        (doc_node.clone(), Name::for_document()),
    ] {
        if n.node_name() != want {
            return Err(format!("{:?} is named {:?}", n.node_type(), n.node_name()));
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P13",
        subs: vec![
            Box::new(Exhaustive {
                name: "code_points",
                total: |t: Tier| match t {
                    Tier::Quick | Tier::Thorough => 0x110000 / BLOCK,
                },
                rule: "every block holds code points to try in ten places of a name",
                run: code_points,
                describe: |i| serde_json::json!({"from": i * BLOCK, "to": (i + 1) * BLOCK - 1}),
            }),
            Box::new(Sub {
                name: "names",
                quick: 240_000,
                thorough: 5_000_000,
                rule: "the name is not made of ASCII letters and digits alone",
                strategy: names_case,
                run: names,
            }),
        ],
        known: vec![],
        assumptions: vec![
            "the legal name characters are those of XML 1.0 (fifth edition) and XML 1.1, without the colon",
            "Name::for_namespace is given legal prefixes, as it has no way to report others",
        ],
    }]
}

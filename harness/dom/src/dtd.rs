//! Entity, notation and document type declarations (P24).
use crate::world::*;
use common::gen;
use common::runner::{Cov, Outcome, Property, Sub};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::dom_impl::{create_entity, create_internal_entity, create_notation};
use xml_dom::level2::*;

fn es(e: Error) -> String {
    format!("{e:?}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Declared {
    /// Internal entity, external entity, notation, document type.
    pub kind: u8,
    pub name: String,
    pub value: String,
    pub ids: (Option<String>, Option<String>),
    /// Also try to set the value; also look at a copy.
    pub set: Option<String>,
    pub copy: bool,
}

/// What a declaration says.
#[derive(Debug, PartialEq)]
struct Said {
    name: String,
    public: Option<String>,
    system: Option<String>,
    value: Option<String>,
}

/// A declaration with nothing before or after it.
fn read(text: &str, word: &str) -> std::result::Result<Said, String> {
    let err = |what: &str, rest: &str| format!("{text:?}: {what} at {rest:?}");
    let mut rest = text.strip_prefix("<!").and_then(|r| r.strip_prefix(word)).ok_or_else(|| err("no keyword", text))?;
    let space = |rest: &mut &str| -> bool {
        let t = rest.trim_start_matches([' ', '\t', '\n', '\r']);
        let some = t.len() < rest.len();
        *rest = t;
        some
    };
    if !space(&mut rest) {
        return Err(err("no space", rest));
    }
    let end = rest.find([' ', '\t', '\n', '\r', '>', '"', '\'', '<', '[']).unwrap_or(rest.len());
    let mut said = Said { name: rest[..end].to_string(), public: None, system: None, value: None };
    rest = &rest[end..];
    if said.name.is_empty() {
        return Err(err("no name", rest));
    }
    let mut literals: Vec<(&str, String)> = vec![];
    loop {
        let spaced = space(&mut rest);
        if rest == ">" {
            break;
        }
        if !spaced {
            return Err(err("no space", rest));
        }
        let mut kw = "";
        for k in ["PUBLIC", "SYSTEM"] {
            if let Some(r) = rest.strip_prefix(k) {
                kw = k;
                rest = r;
                if !space(&mut rest) {
                    return Err(err("no space", rest));
                }
                break;
            }
        }
        let q = rest.chars().next().filter(|c| *c == '"' || *c == '\'').ok_or_else(|| err("no quote", rest))?;
        let end = rest[1..].find(q).ok_or_else(|| err("no end of the literal", rest))? + 1;
        literals.push((kw, rest[1..end].to_string()));
        rest = &rest[end + 1..];
    }
    let mut l = literals.into_iter().peekable();
    if let Some((_, v)) = l.next_if(|(k, _)| *k == "PUBLIC") {
        said.public = Some(v);
        // A document type writes the keyword before its system identifier, others do not.
        let kw = if word == "DOCTYPE" { "SYSTEM" } else { "" };
        said.system = l.next_if(|(k, _)| *k == kw).map(|(_, v)| v);
    } else if let Some((_, v)) = l.next_if(|(k, _)| *k == "SYSTEM") {
        said.system = Some(v);
    } else if let Some((_, v)) = l.next_if(|(k, _)| k.is_empty() && word == "ENTITY") {
        said.value = Some(v.replace("&#34;", "\"").replace("&#39;", "'").replace("&#x22;", "\"").replace("&#x27;", "'"));
    }
    match l.next() {
        Some(x) => Err(format!("{text:?}: {x:?} is out of place")),
        None => Ok(said),
    }
}

/// What the node itself reports, the kind of declaration.
fn reported(n: &RefNode) -> std::result::Result<(Said, &'static str), String> {
    let name = n.node_name().to_string();
    let (word, public, system) = match kind_of(n) {
        Kind::Entity => {
            let e = as_entity(n).map_err(es)?;
            ("ENTITY", e.public_id(), e.system_id())
        }
        Kind::Notation => {
            let e = as_notation(n).map_err(es)?;
            ("NOTATION", e.public_id(), e.system_id())
        }
        Kind::DocType => {
            let e = as_document_type(n).map_err(es)?;
            ("DOCTYPE", e.public_id(), e.system_id())
        }
        k => return Err(format!("{k:?} is no declaration")),
    };
    let internal = word == "ENTITY" && public.is_none() && system.is_none();
    let value = if internal { Some(n.node_value().unwrap_or_default()) } else { None };
    Ok((Said { name, public, system, value }, word))
}

fn prints_what_it_reports(n: &RefNode) -> std::result::Result<Said, String> {
    let (want, word) = reported(n)?;
    let said = read(&n.to_string(), word)?;
    if said != want {
        return Err(format!("{:?} says {said:?}, the node reports {want:?}", n.to_string()));
    }
    Ok(said)
}

fn p24(c: &Vec<Declared>, cov: &mut Cov) -> Outcome {
    let helper = new_document(Some("root"), false, true);
    let mut made: Vec<(RefNode, String)> = vec![];
    for d in c {
        let (public, system) = (d.ids.0.as_deref(), d.ids.1.as_deref());
        let (mut n, value) = match d.kind % 4 {
            0 => (create_internal_entity(helper.clone(), &d.name, &d.value), Some(d.value.clone())),
            1 => (
                create_entity(helper.clone(), &d.name, public, system),
                (public.is_none() && system.is_none()).then(String::new),
            ),
            2 => (create_notation(helper.clone(), &d.name, public, system), None),
            _ => (get_implementation().create_document_type(&d.name, public, system), None),
        }
        .pipe(|(n, v)| n.map(|n| (n, v)))
        .map_err(es)?;
        let want = Said {
            name: d.name.clone(),
            public: d.ids.0.clone().filter(|_| d.kind % 4 != 0),
            system: d.ids.1.clone().filter(|_| d.kind % 4 != 0),
            value,
        };
        let said = prints_what_it_reports(&n)?;
        if said != want {
            return Err(format!("{d:?} became {said:?}"));
        }
        cov.hit(["internal entity", "external entity", "notation", "document type"][d.kind as usize % 4]);
        let quoted = |s: &Option<String>| s.as_ref().map_or(false, |s| s.contains(['"', '\'', '<', '>']));
        if quoted(&said.public) || quoted(&said.system) || quoted(&said.value) {
            cov.hit("markup in a literal");
            cov.nontrivial();
        }
        if let Some(v) = &d.set {
            n.set_node_value(v).map_err(es)?;
            let now = prints_what_it_reports(&n)?;
            if (&now.name, &now.public, &now.system) != (&said.name, &said.public, &said.system) {
                return Err(format!("setting its value turned {said:?} into {now:?}"));
            }
        }
        if d.copy && d.kind % 4 != 3 {
            let copy = n.clone_node(true).ok_or("no copy")?;
            if copy.to_string() != n.to_string() || reported(&copy)? != reported(&n)? {
                return Err(format!("a copy of {n} is {copy}"));
            }
        }
        if d.kind % 4 == 3 {
            // In its document, it stands before the content and takes nothing of it.
            let doc = get_implementation().create_document(None, Some(&d.name), Some(n.clone())).map_err(es)?;
            let want = format!("{n}<{0}></{0}>", d.name);
            if doc.to_string() != want {
                return Err(format!("the document prints as {doc}, not {want}"));
            }
            prints_what_it_reports(&n)?;
        }
        let text = n.to_string();
        made.push((n, text));
    }
    for (n, text) in &made {
        if n.to_string() != *text {
            return Err(format!("{text} has become {n}"));
        }
    }
    Ok(())
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}

fn declared() -> BoxedStrategy<Vec<Declared>> {
    let name = (prop::option::weighted(0.2, gen::ncname()), gen::ncname()).prop_map(|(p, l)| match p {
        Some(p) => format!("{p}:{l}"),
        None => l,
    });
    let text = || prop_oneof![
        2 => pool(&["", "v", "My Name", "a \"b\" c", "it's", "\"", "'", "<!--", "]>", "]]>", "a>b", "PUBLIC", "SYSTEM \"x\"", " ", "a\tb\nc", "NDATA gif", "-//W3C//DTD XHTML 1.0 Strict//EN", "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd?a=b;c#d"]),
        2 => gen::string_of(prop_oneof![
            prop::sample::select(&['"', '\'', '<', '>', '[', ']', ' ', 'a', 'b', '\u{e9}', '\u{10000}'][..]).boxed(),
            gen::xml_char()
        ].boxed(), 8),
    ].boxed();
    let text = move || gen::at_times_long(text(), 100, 5_000);
    // Either quote, but not both; no reference.
    let id = move || prop::option::weighted(0.7, text().prop_map(|s| {
        let other = if s.find('\'') < s.find('"') { '\'' } else { '"' };
        let s = if s.contains('"') && s.contains('\'') { s.replace(other, "") } else { s };
        s.replace(['\r', '&', '%'], "x")
    }));
    let value = move || text().prop_map(|s| s.replace(['\r', '&', '%'], "x"));
    let one = (0u8..4, name, value(), (id(), id()), prop::option::weighted(0.3, value()), any::<bool>())
        .prop_map(|(kind, name, value, ids, set, copy)| Declared { kind, name, value, ids, set, copy });
    prop::collection::vec(one, 1..6).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P24",
        subs: vec![Box::new(Sub {
            name: "declarations",
            quick: 400_000,
            thorough: 4_000_000,
            rule: "an identifier or value holds a quote or angle bracket",
            strategy: declared,
            run: p24,
        })],
        known: vec![],
        assumptions: vec![
            "identifiers with not both kinds of quote (XML has no way to write them), no references in identifiers and values",
            "a document type prints PUBLIC \"p\" SYSTEM \"s\", and an external entity may have only a public identifier: tests fix both",
        ],
    }]
}

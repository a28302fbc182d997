//! Any input is a document or an error, and what is not a document is an error (P15).
use crate::doc::{self, Doc, LargeDoc, S};
use crate::faithful::tree;
use crate::readers::Chunks;
use common::gen;
use common::norm;
use common::runner::{Cov, Known, Outcome, Property, Sub};
use common::xml::{self, X};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;
use xml_dom::level2::{Node as _, RefNode};
use xml_dom::parser::{read_reader, read_xml};

const TOKENS: &[&str] = &[
    "<a>", "</a>", "<b>", "</b>", "<a/>", "<b x='1'>", "<a x=\"1\" y='2'/>", "<", ">", "/>", "</", "&", ";", "<!--", "-->",
    "--", "<!-- c -->", "<![CDATA[", "]]>", "<![CDATA[d]]>", "<?xml version='1.0'?>", "<?xml version=\"1.1\" encoding=\"UTF-8\"?>",
    "<?xml version='1.0' standalone='yes'?>", "<?xml", "<?xml ?>", "<?xml encoding='UTF-8'?>", "<?xml version='2.0'?>", "<?p d?>",
    "<?p?>", "<?", "?>", "<?XML a?>", "<? p?>", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "<!", "<!ELEMENT a>", "text",
    " ", "\n", "\t", "\r\n", "\"", "'", "=", "x", "x=", " x='1'", " x=\"1\"", " x='2'", " x=1", " x", " x='", " x='<'", " x='&amp;'",
    " x='&b;'", " x='&#60;'", " x=''", " xmlns='u'", " xmlns:p='u'", " xml:id='i'", " p:q='1'", "&amp;", "&lt;", "&#0;", "&#65;", "&#x41;",
    "&#x1F600;", "&#xD800;", "&#\u{660};", "&#;", "&#x;", "&#x110000;", "&foo;", "&;", "& ", "&#65", "&amp", "\0", "\u{1}", "\u{b}", "\u{fffe}", "\u{feff}", "\u{e9}",
    "\u{1f600}", ":", "a:b", "<a:b>", "</a:b>", "<:a>", "<a:>", "<a:b:c/>", "<1>", "<a\u{d7}/>", "<\u{e9}/>", "<a >", "</a >", "</ a>",
    "< a>", "<a\n>", "<xml/>", "<xmlns/>", "<a xml='1'/>", "</a x='1'>", "<a/ >", "<a//>", "<a x='1'y='2'/>", "<a x ='1'/>", "<a x= '1'/>",
    "]]", "[", "-", "!", "?", "/",
];

fn token() -> BoxedStrategy<String> {
    prop_oneof![
        12 => prop::sample::select(TOKENS).prop_map(String::from),
        1 => gen::string_of(gen::any_char(), 4),
    ]
    .boxed()
}

fn soup_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => prop::collection::vec(token(), 0..12).prop_map(|v| v.concat()),
        // Inside an element more of it is reached.
        3 => prop::collection::vec(token(), 0..8).prop_map(|v| format!("<a>{}</a>", v.concat())),
        // And inside a tag.
        2 => prop::collection::vec(token(), 0..5).prop_map(|v| format!("<a{}></a>", v.concat())),
        1 => prop::collection::vec(token(), 0..5).prop_map(|v| format!("<?xml version='1.0'{}?><a/>", v.concat())),
        1 => gen::string_of(gen::any_char(), 30),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Cut(u16),
    Delete(u16, u8),
    Repeat(u16, u8, u16),
    Insert(u16, String),
    Replace(u16, u8, String),
    Swap(u16, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutant {
    doc: Doc,
    edits: Vec<Edit>,
}

fn mutant() -> BoxedStrategy<Mutant> {
    let edit = prop_oneof![
        2 => any::<u16>().prop_map(Edit::Cut),
        3 => (any::<u16>(), 1u8..8).prop_map(|(p, n)| Edit::Delete(p, n)),
        2 => (any::<u16>(), 1u8..20, any::<u16>()).prop_map(|(p, n, q)| Edit::Repeat(p, n, q)),
        3 => (any::<u16>(), token()).prop_map(|(p, t)| Edit::Insert(p, t)),
        2 => (any::<u16>(), 1u8..3, token()).prop_map(|(p, n, t)| Edit::Replace(p, n, t)),
        1 => (any::<u16>(), 1u8..8, 1u8..8).prop_map(|(p, n, m)| Edit::Swap(p, n, m)),
    ];
    let edits = prop_oneof![4 => prop::collection::vec(edit.clone(), 1), 1 => prop::collection::vec(edit, 2..4)];
    (doc::document(), edits).prop_map(|(doc, edits)| Mutant { doc, edits }).boxed()
}

fn mutate(text: String, edits: &[Edit]) -> String {
    let mut t: Vec<char> = text.chars().collect();
    for e in edits {
        let at = |p: u16| p as usize % (t.len() + 1);
        match e {
            Edit::Cut(p) => {
                let p = at(*p);
                t.truncate(p);
            }
            Edit::Delete(p, n) => {
                let p = at(*p);
                let end = (p + *n as usize).min(t.len());
                t.drain(p..end);
            }
            Edit::Repeat(p, n, q) => {
                let (p, q) = (at(*p), at(*q));
                let piece: Vec<char> = t[p..(p + *n as usize).min(t.len())].to_vec();
                t.splice(q..q, piece);
            }
            Edit::Insert(p, s) => {
                let p = at(*p);
                t.splice(p..p, s.chars());
            }
            Edit::Replace(p, n, s) => {
                let p = at(*p);
                let end = (p + *n as usize).min(t.len());
                t.splice(p..end, s.chars());
            }
            Edit::Swap(p, n, m) => {
                let p = at(*p);
                let mid = (p + *n as usize).min(t.len());
                let end = (mid + *m as usize).min(t.len());
                t[p..end].rotate_left(mid - p);
            }
        }
    }
    t.into_iter().collect()
}

// ------------------------------------------------------------------------------------------------ the oracle

/// What an independent reader makes of the text.
enum Verdict {
    Good(doc::SeenDecl, Vec<S>),
    Bad(String),
    /// Well-formed, but not in the supported subset; or this reader cannot tell.
    Open(&'static str),
}

fn convert(xs: &[X], out: &mut Vec<S>, ids: &mut Vec<String>) -> Result<(), &'static str> {
    for x in xs {
        match x {
            X::Elem(n, a, k) => {
                if !norm::is_qname(n) || a.iter().any(|(n, _)| !norm::is_qname(n)) {
                    return Err("a name with more than one colon, or nothing on one side of it");
                }
                let mut attrs: Vec<(String, String)> =
                    a.iter().map(|(n, v)| (n.clone(), v.trim_matches(' ').to_string())).collect();
                ids.extend(attrs.iter().filter(|(n, _)| n == "xml:id").map(|(_, v)| v.clone()));
                attrs.sort();
                let mut kids = vec![];
                convert(k, &mut kids, ids)?;
                out.push(S::Elem(n.clone(), attrs, kids));
            }
            X::Text(t) => doc::push_text(out, t),
            X::CData(d) => out.push(S::CData(d.clone())),
            X::Comment(d) => out.push(S::Comment(d.clone())),
            X::Pi(t, _) if !norm::is_qname(t) => return Err("a target that is no name with at most one colon"),
            X::Pi(t, d) => out.push(S::Pi(t.clone(), d.clone())),
            X::EntityRef(_) => return Err("reference to an undeclared entity"),
        }
    }
    Ok(())
}

/// quick-xml takes references of up to seven decimal or six hexadecimal digits (see the known finding).
fn has_long_reference(text: &str) -> bool {
    text.split("&#").skip(1).any(|r| {
        let digits = r.find(';').unwrap_or(0);
        digits > 7 || r.starts_with('x') && digits > 7
    })
}

/// quick-xml recognizes `<![CDATA[` in any case (see the known finding).
fn has_cdata_in_lower_case(text: &str) -> bool {
    text.match_indices("<![").any(|(i, _)| {
        let word = text.as_bytes().get(i + 3..i + 9).unwrap_or(b"");
        word.eq_ignore_ascii_case(b"CDATA[") && word != b"CDATA["
    })
}

fn verdict(text: &str) -> Verdict {
    let mut text = text.strip_prefix('\u{feff}').unwrap_or(text);
    // The repository's own tests have white space in front of a declaration.
    if text.trim_start_matches(doc::is_space).starts_with("<?xml") {
        text = text.trim_start_matches(doc::is_space);
    }
    let d = match xml::read_document(text, false) {
        Err(e) if e.contains("bad reference") && text.contains("1.1") => return Verdict::Open("XML 1.1 references"),
        Err(_) if has_cdata_in_lower_case(text) => return Verdict::Open("CDATA in lower case"),
        Err(e) if e.contains("too deep") => return Verdict::Open("deep"),
        Err(e) => return Verdict::Bad(e),
        Ok(_) if has_long_reference(text) => return Verdict::Open("long reference"),
        Ok(d) => d,
    };
    let is_11 = d.decl.as_ref().map_or(false, |d| d.version == "1.1");
    if is_11 && text.contains(|c| matches!(c, '\u{7f}'..='\u{9f}' | '\u{2028}')) {
        return Verdict::Open("XML 1.1 controls and line ends");
    }
    if d.doctype.is_some() {
        return Verdict::Open("document type");
    }
    let (mut out, mut ids) = (vec![], vec![]);
    if let Err(e) = convert(&d.children, &mut out, &mut ids) {
        return Verdict::Bad(e.into());
    }
    ids.sort();
    if ids.windows(2).any(|w| w[0] == w[1]) {
        return Verdict::Open("two equal identifiers");
    }
    let decl = d.decl.map(|d| (d.version, d.encoding, d.standalone.map(|s| s == "yes")));
    Verdict::Good(decl, out)
}

/// Nothing ill-formed is accepted.
fn judge(text: &str, cov: &mut Cov) -> Outcome {
    judge_as(text, read_xml(text), false, cov)
}

/// With `faithful`, what is well-formed is accepted too, as what it says: that is P16.
fn judge_as(text: &str, got: xml_dom::parser::Result<RefNode>, faithful: bool, cov: &mut Cov) -> Outcome {
    match (verdict(text), got) {
        (Verdict::Bad(why), Ok(d)) => Err(format!("{text:?} is accepted, as {:?}, but is not well-formed: {why}", tree(&d)?)),
        (Verdict::Bad(_), Err(_)) => {
            cov.hit("rejected");
            Ok(())
        }
        (Verdict::Good(..), got) if !faithful => {
            cov.hit(if got.is_ok() { "accepted" } else { "well-formed, and rejected" });
            Ok(())
        }
        (Verdict::Good(decl, want), Ok(d)) => {
            let (got_decl, got) = tree(&d)?;
            if got != want {
                return Err(format!("{text:?}\nis parsed as {got:?}\n        it is {want:?}"));
            }
            if got_decl != decl {
                return Err(format!("{text:?}\nis parsed with the declaration {got_decl:?}, not {decl:?}"));
            }
            cov.hit("accepted");
            Ok(())
        }
        (Verdict::Good(..), Err(e)) => Err(format!("{text:?} is well-formed but rejected: {e:?}")),
        (Verdict::Open(why), r) => {
            cov.hit(why);
            if let Ok(d) = r {
                let _ = tree(&d);
            }
            Ok(())
        }
    }
}

fn soup(text: &String, cov: &mut Cov) -> Outcome {
    judge(text, cov)?;
    if text.len() > 4 && text.contains('<') {
        cov.nontrivial();
    }
    Ok(())
}

fn mutants(m: &Mutant, cov: &mut Cov) -> Outcome {
    let text = m.doc.write();
    let mutated = mutate(text.clone(), &m.edits);
    judge(&mutated, cov)?;
    if mutated != text {
        cov.nontrivial();
    }
    Ok(())
}

/// The same texts, for P16: those that are documents are read as what they say.
fn soup_says(text: &String, cov: &mut Cov) -> Outcome {
    judge_as(text, read_xml(text), true, cov)?;
    if cov.classes.contains_key("accepted") {
        cov.nontrivial();
    }
    Ok(())
}

fn mutants_say(m: &Mutant, cov: &mut Cov) -> Outcome {
    let text = m.doc.write();
    let mutated = mutate(text.clone(), &m.edits);
    judge_as(&mutated, read_xml(&mutated), true, cov)?;
    if mutated != text && cov.classes.contains_key("accepted") {
        cov.nontrivial();
    }
    Ok(())
}

pub fn faithful_subs() -> Vec<Box<dyn common::runner::DynSub>> {
    vec![
        Box::new(Sub {
            name: "soup",
            quick: 200_000,
            thorough: 4_000_000,
            rule: "the text is a document",
            strategy: soup_text,
            run: soup_says,
        }),
        Box::new(Sub {
            name: "mutants",
            quick: 90_000,
            thorough: 1_500_000,
            rule: "the changed text is a document still",
            strategy: mutant,
            run: mutants_say,
        }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeMutant {
    doc: LargeDoc,
    edits: Vec<Edit>,
}

fn large_mutant() -> BoxedStrategy<LargeMutant> {
    (doc::large_document(20_000), mutant()).prop_map(|(doc, m)| LargeMutant { doc, edits: m.edits }).boxed()
}

fn large_mutants(m: &LargeMutant, cov: &mut Cov) -> Outcome {
    let text = m.doc.enlarge().write();
    let mutated = mutate(text.clone(), &m.edits);
    judge(&mutated, cov)?;
    if mutated != text {
        cov.nontrivial();
    }
    // A beginning of it is nothing.
    let root_end = text.rfind("</").or_else(|| text.rfind("/>")).unwrap_or(0);
    for k in 1..5 {
        let mut cut = root_end * k / 4;
        while !text.is_char_boundary(cut) {
            cut -= 1;
        }
        if read_xml(&text[..cut]).is_ok() && matches!(verdict(&text[..cut]), Verdict::Bad(_)) {
            return Err(format!("the first {cut} bytes of {text:?} are accepted"));
        }
    }
    Ok(())
}

/// Every prefix of a document that lacks some of its element is an error.
fn prefixes(d: &Doc, cov: &mut Cov) -> Outcome {
    let mut only_root = d.clone();
    only_root.epilog.clear();
    only_root.gaps = vec![0];
    let text = only_root.write();
    let mut n = 0;
    for cut in 0..text.len() {
        if n > 150 {
            break;
        }
        if text.is_char_boundary(cut) {
            n += 1;
            if let Ok(d) = read_xml(&text[..cut]) {
                return Err(format!("{:?}, the beginning of {text:?}, is accepted as {:?}", &text[..cut], tree(&d)?));
            }
        }
    }
    read_xml(&text).map_err(|e| format!("{text:?} is rejected: {e:?}"))?;
    cov.add("prefixes", n);
    if n > 20 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
    base: Mutant,
    /// Where, and what, bytes are put in place.
    edits: Vec<(u16, u8, Vec<u8>)>,
    raw: Option<Vec<u8>>,
    chunks: Vec<u8>,
}

fn bytes_case() -> BoxedStrategy<Bytes> {
    let byte = prop_oneof![
        2 => any::<u8>(),
        2 => prop::sample::select(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xc3, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xfe, 0xff, 0][..]),
        1 => prop::sample::select(&b"<>&'\"/=?!-[] \n"[..]),
    ];
    (
        mutant(),
        prop::collection::vec((any::<u16>(), 0u8..4, prop::collection::vec(byte.clone(), 0..4)), 0..3),
        prop::option::weighted(0.1, prop::collection::vec(byte, 0..40)),
        prop::collection::vec(1u8..20, 1..4),
    )
        .prop_map(|(base, edits, raw, chunks)| Bytes { base, edits, raw, chunks })
        .boxed()
}

fn bytes(b: &Bytes, cov: &mut Cov) -> Outcome {
    let mut data = match &b.raw {
        Some(r) => r.clone(),
        None => b.base.doc.write().into_bytes(),
    };
    for (at, n, put) in &b.edits {
        let p = *at as usize % (data.len() + 1);
        let end = (p + *n as usize).min(data.len());
        data.splice(p..end, put.iter().copied());
    }
    let got = read_reader(std::io::BufReader::with_capacity(16, Chunks::new(&data, &b.chunks, 0)));
    match std::str::from_utf8(&data) {
        Ok(text) => {
            judge(text, cov)?;
            judge_as(text, got, false, cov).map_err(|e| format!("from a reader: {e}"))
        }
        Err(_) => {
            cov.nontrivial();
            match got {
                Ok(d) => Err(format!(
                    "{:?} is not UTF-8, and accepted as {:?}",
                    String::from_utf8_lossy(&data),
                    tree(&d)?
                )),
                Err(_) => {
                    cov.hit("not UTF-8");
                    Ok(())
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ faults

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    doc: Doc,
    at: u16,
    kind: u8,
    chunks: Vec<u8>,
    interrupt: u8,
    buffer: u8,
}

fn fault_case() -> BoxedStrategy<Fault> {
    (doc::document(), any::<u16>(), 0u8..6, prop::collection::vec(1u8..40, 1..4), 0u8..4, 1u8..40)
        .prop_map(|(doc, at, kind, chunks, interrupt, buffer)| Fault { doc, at, kind, chunks, interrupt, buffer })
        .boxed()
}

/// A reader that fails is an error, even where what it delivered is a document.
fn faults(f: &Fault, cov: &mut Cov) -> Outcome {
    let text = f.doc.write();
    let at = f.at as usize % (text.len() + 1);
    let kind = [
        ErrorKind::UnexpectedEof,
        ErrorKind::InvalidData,
        ErrorKind::TimedOut,
        ErrorKind::WouldBlock,
        ErrorKind::BrokenPipe,
        ErrorKind::Other,
    ][f.kind as usize % 6];
    let reader = Chunks::failing(&text.as_bytes()[..at], &f.chunks, f.interrupt, kind);
    if let Ok(d) = read_reader(std::io::BufReader::with_capacity(f.buffer as usize, reader)) {
        return Err(format!(
            "{text:?}: the reader failed after {at} bytes, and the result is {:?}",
            tree(&d)?
        ));
    }
    cov.hit("failed");
    if at > 0 {
        cov.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ depth

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    levels: u16,
    attribute: bool,
    /// What stands in front of, and after, each element.
    around: (u8, u8),
    /// End tags that are missing.
    missing: u16,
}

fn deep_case() -> BoxedStrategy<Deep> {
    (
        prop_oneof![1u16..3000, 1u16..50_000],
        any::<bool>(),
        (0u8..5, 0u8..5),
        prop_oneof![2 => Just(0u16), 1 => 1u16..5, 1 => any::<u16>()],
    )
        .prop_map(|(levels, attribute, around, missing)| Deep {
            levels,
            attribute,
            around,
            missing: missing.min(levels),
        })
        .boxed()
}

/// On a small stack: the depth of the input must not become the depth of the stack.
fn deep(d: &Deep, cov: &mut Cov) -> Outcome {
    let d2 = d.clone();
    std::thread::Builder::new()
        .stack_size(512 << 10)
        .spawn(move || common::runner::guarded(|| deep_inner(&d2)))
        .map_err(|e| e.to_string())?
        .join()
        .map_err(|_| "panic".to_string())??;
    if d.levels > 1000 {
        cov.nontrivial();
    }
    Ok(())
}

fn deep_inner(d: &Deep) -> Outcome {
    let around = |i: u8| ["", "<b/>", "<!--c-->", "<b>", "t"][i as usize % 5].replace("<b>", "<b><b>x</b></b>");
    let (before, after) = (around(d.around.0), around(d.around.1));
    let mut text = String::new();
    for i in 0..d.levels {
        if i > 0 {
            text.push_str(&before);
        }
        text.push_str(if d.attribute { "<a x='1'>" } else { "<a>" });
    }
    for i in d.missing..d.levels {
        if i > d.missing {
            text.push_str(&after);
        }
        text.push_str("</a>");
    }
    match (read_xml(&text), d.missing) {
        (Ok(_), 1..) => Err(format!("{} levels, {} not closed, are accepted", d.levels, d.missing)),
        (Err(e), 0) => Err(format!("{} levels are rejected: {e:?}", d.levels)),
        (Err(_), _) => Ok(()),
        (Ok(doc), _) => {
            let mut levels = 0;
            let mut at = Some(doc.clone());
            while let Some(n) = at {
                at = n.child_nodes().into_iter().find(|c| c.node_name().to_string() == "a");
                levels += at.is_some() as u16;
            }
            if levels != d.levels {
                return Err(format!("{} levels became {levels}", d.levels));
            }
            Ok(())
        }
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P15",
        subs: vec![
            Box::new(Sub {
                name: "soup",
                quick: 600_000,
                thorough: 10_000_000,
                rule: "the text has markup in it",
                strategy: soup_text,
                run: soup,
            }),
            Box::new(Sub {
                name: "mutants",
                quick: 180_000,
                thorough: 3_000_000,
                rule: "the document was changed",
                strategy: mutant,
                run: mutants,
            }),
            Box::new(Sub {
                name: "large",
                quick: 6_000,
                thorough: 100_000,
                rule: "the document was changed",
                strategy: large_mutant,
                run: large_mutants,
            }),
            Box::new(Sub {
                name: "prefixes",
                quick: 12_000,
                thorough: 200_000,
                rule: "more than twenty proper beginnings were tried",
                strategy: doc::document,
                run: prefixes,
            }),
            Box::new(Sub {
                name: "bytes",
                quick: 90_000,
                thorough: 1_500_000,
                rule: "the bytes are not UTF-8",
                strategy: bytes_case,
                run: bytes,
            }),
            Box::new(Sub {
                name: "faults",
                quick: 30_000,
                thorough: 500_000,
                rule: "the reader delivered something before it failed",
                strategy: fault_case,
                run: faults,
            }),
            Box::new(Sub {
                name: "deep",
                quick: 400,
                thorough: 10_000,
                rule: "more than a thousand levels",
                strategy: deep_case,
                run: deep,
            }),
        ],
        known: vec![Known {
            id: "cdata-case",
            what: "<a><![cdata[x]]></a> is accepted; quick-xml, which the parser is built on, recognizes the word in any case",
            crash: false,
            witness: || read_xml("<a><![cdata[x]]></a>").is_ok(),
        }],
        assumptions: vec![
            "UTF-8 input (quick-xml is built without its encoding feature)",
            "white space before an XML declaration is accepted, as the repository's own tests require",
            "of documents with a document type, with two equal values of xml:id, or with what XML 1.1 alone allows or forbids, only that they are parsed or rejected",
        ],
    }]
}

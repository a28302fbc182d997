//! Parsing says what the text says, and what is printed says the same again (P16).
use crate::doc::*;
use crate::readers::*;
use common::runner::{Cov, Known, Outcome, Property, Sub};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use xml_dom::level2::{Attribute as _, Node as _, NodeType, RefNode};
use xml_dom::parser::{read_reader, read_xml};

pub fn tree(doc: &RefNode) -> Result<(SeenDecl, Vec<S>), String> {
    if doc.node_type() != NodeType::Document {
        return Err(format!("the parser returned a {:?}", doc.node_type()));
    }
    Ok((seen_decl(doc)?, seen(doc, doc)?))
}

fn parse(text: &str) -> Result<(SeenDecl, Vec<S>), String> {
    let doc = read_xml(text).map_err(|e| format!("{text:?} is rejected: {e:?}"))?;
    tree(&doc)
}

fn faithful(d: &Doc, cov: &mut Cov) -> Outcome {
    let text = d.write();
    let mut want = vec![];
    for n in d.prolog.iter().chain(std::iter::once(&d.root)).chain(&d.epilog) {
        expected(n, &mut want);
    }
    let want_decl = d.decl.as_ref().map(|d| {
        (
            if d.v11 { "1.1" } else { "1.0" }.to_string(),
            d.encoding.clone(),
            d.standalone,
        )
    });
    let (decl, got) = parse(&text)?;
    if got != want {
        return Err(format!("{text:?}\nis parsed as {got:?}\n        it is {want:?}"));
    }
    if decl != want_decl {
        return Err(format!("{text:?}\nis parsed with the declaration {decl:?}, not {want_decl:?}"));
    }
    classify(&want, 0, cov);
    if cov.classes.len() >= 5 {
        cov.nontrivial();
    }
    Ok(())
}

fn classify(s: &[S], depth: usize, cov: &mut Cov) {
    for s in s {
        match s {
            S::Elem(_, a, k) => {
                cov.hit(if depth == 0 { "root" } else if depth > 2 { "deep element" } else { "element" });
                if !a.is_empty() {
                    cov.hit("attributes");
                }
                if a.iter().any(|(_, v)| v.contains(['&', '<', '"', '\n', '\t'])) {
                    cov.hit("special attribute value");
                }
                classify(k, depth + 1, cov);
            }
            S::Text(t) => {
                cov.hit("text");
                if t.contains(['&', '<']) {
                    cov.hit("markup in text");
                }
            }
            S::CData(_) => cov.hit("cdata"),
            S::Comment(_) => cov.hit("comment"),
            S::Pi(..) => cov.hit("instruction"),
        }
    }
}

/// One space is printed on each side of a CDATA section's content (see the known finding).
fn printed(s: &[S]) -> Vec<S> {
    s.iter()
        .map(|s| match s {
            S::Elem(n, a, k) => S::Elem(n.clone(), a.clone(), printed(k)),
            S::CData(d) => S::CData(format!(" {d} ")),
            s => s.clone(),
        })
        .collect()
}

fn again(d: &Doc, cov: &mut Cov) -> Outcome {
    let text = d.write();
    let doc = read_xml(&text).map_err(|e| format!("{text:?} is rejected: {e:?}"))?;
    let (decl, first) = tree(&doc)?;
    let out = doc.to_string();
    let (decl2, second) = parse(&out)?;
    let want = printed(&first);
    if second != want {
        return Err(format!("{text:?}\nprints as {out:?}\nwhich reads as {second:?}\n        not as {want:?}"));
    }
    if decl != decl2 {
        return Err(format!("{text:?}\nprints as {out:?}\nthe declaration was {decl:?}, and is {decl2:?}"));
    }
    classify(&first, 0, cov);
    if cov.classes.len() >= 5 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chunked {
    doc: Doc,
    chunks: Vec<u8>,
    buffer: u8,
    interrupt: u8,
    cut: Option<u16>,
}

fn chunked_case() -> BoxedStrategy<Chunked> {
    (
        document(),
        prop::collection::vec(1u8..20, 1..6),
        1u8..40,
        prop_oneof![Just(0u8), 1u8..5],
        prop::option::weighted(0.3, any::<u16>()),
    )
        .prop_map(|(doc, chunks, buffer, interrupt, cut)| Chunked { doc, chunks, buffer, interrupt, cut })
        .boxed()
}

fn readers(c: &Chunked, cov: &mut Cov) -> Outcome {
    let mut text = c.doc.write();
    if let Some(cut) = c.cut {
        // Also where the text is no document.
        let mut cut = cut as usize % (text.len() + 1);
        while !text.is_char_boundary(cut) {
            cut -= 1;
        }
        text.truncate(cut);
    }
    let one = read_xml(&text).map(|d| tree(&d));
    let whole = read_reader(text.as_bytes()).map(|d| tree(&d));
    let pieces = read_reader(std::io::BufReader::with_capacity(
        c.buffer as usize,
        Chunks::new(text.as_bytes(), &c.chunks, c.interrupt),
    ))
    .map(|d| tree(&d));
    let show = |r: &Result<Result<(SeenDecl, Vec<S>), String>, xml_dom::parser::Error>| match r {
        Ok(t) => format!("{t:?}"),
        Err(_) => "an error".to_string(),
    };
    let (one, whole, pieces) = (show(&one), show(&whole), show(&pieces));
    if one != whole || one != pieces {
        return Err(format!("{text:?}\nis {one} from a string\n   {whole} from a slice\n   {pieces} in pieces"));
    }
    cov.hit(if one == "an error" { "rejected" } else { "accepted" });
    if text.len() > c.buffer as usize * 2 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeRead {
    doc: LargeDoc,
    chunks: Vec<u8>,
    buffer: usize,
}

fn large_case() -> BoxedStrategy<LargeRead> {
    let buffer = prop_oneof![1 => 1usize..40, 2 => prop::sample::select(&[64usize, 255, 256, 512, 1024, 4096, 8192, 65_536][..])];
    (large_document(70_000), prop::collection::vec(1u8..=255, 1..6), buffer)
        .prop_map(|(doc, chunks, buffer)| LargeRead { doc, chunks, buffer })
        .boxed()
}

fn large(c: &LargeRead, cov: &mut Cov) -> Outcome {
    let d = c.doc.enlarge();
    faithful(&d, cov)?;
    again(&d, cov)?;
    let text = d.write();
    let one = parse(&text)?;
    let pieces = std::io::BufReader::with_capacity(c.buffer, Chunks::new(text.as_bytes(), &c.chunks, 0));
    let pieces = read_reader(pieces).map_err(|e| format!("{text:?} is rejected when read in pieces: {e:?}"))?;
    if tree(&pieces)? != one {
        return Err(format!("{text:?} is another document when read in pieces"));
    }
    if text.len() > 255 {
        cov.nontrivial();
    }
    if text.len() > 65_535 {
        cov.hit("more than 65535 bytes");
    }
    Ok(())
}

fn pads_cdata() -> bool {
    let text = "<r><![CDATA[d]]></r>";
    matches!(read_xml(text).map(|d| d.to_string()), Ok(out) if out == "<r><![CDATA[ d ]]></r>")
}

pub fn properties() -> Vec<Property> {
    let mut subs: Vec<Box<dyn common::runner::DynSub>> = crate::reject::faithful_subs();
    subs.extend(own_subs());
    vec![Property {
        id: "P16",
        subs,
        known: known(),
        assumptions: vec![
            "UTF-8 input (quick-xml is built without its encoding feature); no document type; values of xml:id differ",
            "white space at the ends of text, and spaces at the ends of attribute values, are set aside",
            "no literal U+0085 or U+2028 in the element of a document that declares XML 1.1",
        ],
    }]
}

fn own_subs() -> Vec<Box<dyn common::runner::DynSub>> {
    vec![
            Box::new(Sub {
                name: "large",
                quick: 4_000,
                thorough: 80_000,
                rule: "the text is longer than 255 bytes",
                strategy: large_case,
                run: large,
            }),
            Box::new(Sub {
                name: "faithful",
                quick: 120_000,
                thorough: 2_000_000,
                rule: "the document holds five or more different things",
                strategy: document,
                run: faithful,
            }),
            Box::new(Sub {
                name: "again",
                quick: 90_000,
                thorough: 1_500_000,
                rule: "the document holds five or more different things",
                strategy: document,
                run: again,
            }),
            Box::new(Sub {
                name: "readers",
                quick: 60_000,
                thorough: 1_000_000,
                rule: "the text is longer than two buffers",
                strategy: chunked_case,
                run: readers,
            }),
    ]
}

fn known() -> Vec<Known> {
    vec![Known {
            id: "long-reference",
            what: "<a>&#x0000041;</a> is rejected; quick-xml, which the parser is built on, takes no reference of more than six hexadecimal or seven decimal digits",
            crash: false,
            witness: || read_xml("<a>&#x0000041;</a>").is_err(),
        }, Known {
            id: "cdata-padding",
            what: "<r><![CDATA[d]]></r> is printed as <r><![CDATA[ d ]]></r>, which does not read back as the same",
            crash: false,
            witness: pads_cdata,
        }]
}

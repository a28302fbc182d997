//! Reference implementations written from the documentation, independent of the crate.

/// The attribute value that is read back for `raw` (see XML 1.1 §3.3.3 and the crate's documentation): line
/// ends folded, references replaced, white space made spaces, ends trimmed, markup characters escaped.
pub fn attribute_value(raw: &str) -> String {
    escape(&attribute_value_unescaped(raw))
}

pub fn attribute_value_unescaped(raw: &str) -> String {
    let folded: Vec<char> = fold_line_ends_11(raw).chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < folded.len() {
        let c = folded[i];
        if c == '&' {
            if let Some((decoded, len)) = char_ref(&folded[i..]) {
                out.push(decoded);
                i += len;
                continue;
            }
            out.push('&');
        } else if c == '\t' || c == '\n' || c == '\r' {
            out.push(' ');
        } else {
            out.push(c);
        }
        i += 1;
    }
    out.trim_matches(' ').to_string()
}

/// `&#d+;` or `&#xh+;` that denotes a Unicode scalar value: the character and the length of the reference.
pub fn char_ref(s: &[char]) -> Option<(char, usize)> {
    if s.len() < 4 || s[0] != '&' || s[1] != '#' {
        return None;
    }
    let (radix, start) = if s[2] == 'x' { (16, 3) } else { (10, 2) };
    let mut i = start;
    let mut v: u64 = 0;
    while i < s.len() && s[i].is_digit(radix) {
        v = (v * radix as u64 + s[i].to_digit(radix).unwrap() as u64).min(1 << 40);
        i += 1;
    }
    if i == start || i >= s.len() || s[i] != ';' || v > u32::MAX as u64 {
        return None;
    }
    char::from_u32(v as u32).map(|c| (c, i + 1))
}

/// End-of-line handling of XML 1.1 §2.11.
pub fn fold_line_ends_11(s: &str) -> String {
    let mut out = String::new();
    let mut chars = s.chars().peekable();
    while let Some(c) = chars.next() {
        match c {
            '\r' => {
                if matches!(chars.peek(), Some('\n') | Some('\u{85}')) {
                    chars.next();
                }
                out.push('\n');
            }
            '\u{85}' | '\u{2028}' => out.push('\n'),
            c => out.push(c),
        }
    }
    out
}

/// The five markup characters as decimal references.
pub fn escape(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '&' => out.push_str("&#38;"),
            '<' => out.push_str("&#60;"),
            '>' => out.push_str("&#62;"),
            '\'' => out.push_str("&#39;"),
            '"' => out.push_str("&#34;"),
            c => out.push(c),
        }
    }
    out
}

fn in_ranges(c: char, ranges: &[(u32, u32)]) -> bool {
    let c = c as u32;
    ranges.iter().any(|(a, b)| *a <= c && c <= *b)
}

/// NameStartChar without the colon (XML 1.0 fifth edition and XML 1.1).
pub fn is_name_start(c: char) -> bool {
    in_ranges(
        c,
        &[
            (0x41, 0x5A),
            (0x5F, 0x5F),
            (0x61, 0x7A),
            (0xC0, 0xD6),
            (0xD8, 0xF6),
            (0xF8, 0x2FF),
            (0x370, 0x37D),
            (0x37F, 0x1FFF),
            (0x200C, 0x200D),
            (0x2070, 0x218F),
            (0x2C00, 0x2FEF),
            (0x3001, 0xD7FF),
            (0xF900, 0xFDCF),
            (0xFDF0, 0xFFFD),
            (0x10000, 0xEFFFF),
        ],
    )
}

/// NameChar without the colon.
pub fn is_name_char(c: char) -> bool {
    is_name_start(c)
        || in_ranges(
            c,
            &[
                (0x2D, 0x2E),
                (0x30, 0x39),
                (0xB7, 0xB7),
                (0x300, 0x36F),
                (0x203F, 0x2040),
            ],
        )
}

pub fn is_ncname(s: &str) -> bool {
    let mut chars = s.chars();
    chars.next().map_or(false, is_name_start) && chars.all(is_name_char)
}

/// One name, or two joined by one colon.
pub fn is_qname(s: &str) -> bool {
    let parts: Vec<&str> = s.split(':').collect();
    parts.len() <= 2 && parts.iter().all(|p| is_ncname(p))
}

/// `(prefix, local name)` of a qualified name.
pub fn split_qname(s: &str) -> (Option<String>, String) {
    match s.split_once(':') {
        Some((p, l)) => (Some(p.to_string()), l.to_string()),
        None => (None, s.to_string()),
    }
}

/// `EncName  ::=  [A-Za-z] ([A-Za-z0-9._] | '-')*`
pub fn is_encoding_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b[1..]
            .iter()
            .all(|c| c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'-'))
}

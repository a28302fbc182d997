//! Generators shared by the checks.
use proptest::prelude::*;

/// Characters that matter somewhere: markup, white space, line ends, multi-byte of every UTF-8 and UTF-16
/// length, combining, and boundaries of the name and character classes.
pub const SPECIAL: &[char] = &[
    '&', '<', '>', '\'', '"', '#', ';', 'x', '%', ':', '-', ']', '[', '!', '?', '/', '=', ' ', '\t', '\n',
    '\r', '\u{85}', '\u{2028}', '\u{A0}', 'a', 'b', 'Z', '0', '9', '_', '.', '\u{e9}', '\u{7ff}', '\u{800}',
    '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{301}',
    '\u{3000}', '\u{660}', '\u{b7}',
];

/// Any XML character, weighted towards those that matter.
pub fn xml_char() -> BoxedStrategy<char> {
    prop_oneof![
        5 => prop::sample::select(SPECIAL),
        3 => prop::char::range('a', 'z'),
        1 => prop::char::range(' ', '~'),
        1 => any::<char>().prop_filter_map("xml", |c| crate::xml::is_xml_char(c).then_some(c)),
    ]
    .boxed()
}

/// Any Unicode character, weighted towards those that matter.
pub fn any_char() -> BoxedStrategy<char> {
    prop_oneof![
        5 => prop::sample::select(SPECIAL),
        3 => prop::char::range('a', 'z'),
        1 => prop::char::range('\0', '\u{ff}'),
        1 => any::<char>(),
    ]
    .boxed()
}

pub fn string_of(c: BoxedStrategy<char>, max: usize) -> BoxedStrategy<String> {
    prop::collection::vec(c, 0..=max)
        .prop_map(|v| v.into_iter().collect())
        .boxed()
}

/// A name part: a small pool, so names collide, or any legal name.
pub fn ncname() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(&["a", "b", "c", "item", "x1", "_u", "\u{e9}l", "\u{4e2d}"][..]).prop_map(String::from),
        1 => (prop::char::range('a', 'z'), prop::collection::vec(
                prop_oneof![
                    prop::char::range('a', 'z'), prop::char::range('A', 'Z'), prop::char::range('0', '9'),
                    prop::sample::select(&['-', '.', '_', '\u{b7}', '\u{e9}', '\u{300}', '\u{20ac}', '\u{10000}'][..])
                        .prop_filter_map("name", |c| crate::norm::is_name_char(c).then_some(c)),
                ], 0..6))
            .prop_map(|(h, t)| std::iter::once(h).chain(t).collect::<String>())
            .prop_filter("reserved", |n| !n.to_ascii_lowercase().starts_with("xml")),
    ]
    .boxed()
}

/// Lengths on both sides of those at which a buffer or a count could change its form.
pub fn length(most: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        2 => 20usize..2000.min(most),
        3 => prop::sample::select(&[31usize, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048][..])
            .prop_map(move |n| n.min(most)),
        1 => prop::sample::select(&[4095usize, 4096, 4097, 8192, 8193, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537][..])
            .prop_map(move |n| n.min(most)),
    ]
    .boxed()
}

/// A string repeated up to a number of characters.
pub fn stretch(s: &str, n: usize) -> String {
    s.chars().cycle().take(if s.is_empty() { 0 } else { n }).collect()
}

/// Long strings made of short ones.
pub fn long(s: BoxedStrategy<String>, most: usize) -> BoxedStrategy<String> {
    (s, length(most)).prop_map(|(s, n)| stretch(&s, n)).boxed()
}

/// A string that is long once in a while.
pub fn at_times_long(s: BoxedStrategy<String>, once_in: u32, most: usize) -> BoxedStrategy<String> {
    prop_oneof![once_in => s.clone(), 1 => long(s, most)].boxed()
}

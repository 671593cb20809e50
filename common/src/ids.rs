//! Names and versions of contracts that are near one another.
const fn tail(s: &'static str, n: usize) -> &'static str {
    assert!(n <= s.len() && s.as_bytes()[n] < 128);
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(s.as_ptr().add(n), s.len() - n)) }
}
const fn head(s: &'static str, n: usize) -> &'static str {
    assert!(n <= s.len());
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(s.as_ptr(), n)) }
}
/// Names and versions: pairs that differ in one component only, and one twin of kind 0.
pub const NEAR: [(&str, (u16, u16, u16)); 56] = [
    ("alpha", (1, 0, 0)),
    ("beta", (1, 0, 0)),
    ("alpha", (1, 0, 1)),
    ("alpha", (0, 1, 0)),
    ("alph", (1, 0, 0)),
    ("alpha", (1, 0, 0)), // twin of 0
    ("", (0, 0, 0)),
    ("alpha", (2, 0, 0)),
    ("Alpha", (1, 0, 0)),
    ("alpha ", (1, 0, 0)),
    (" alpha", (1, 0, 0)),
    ("alpha\0", (1, 0, 0)),
    ("\u{e4}lpha", (1, 0, 0)),
    ("a\u{308}lpha", (1, 0, 0)),
    ("ahpla", (1, 0, 0)),
    ("alpha1", (0, 0, 0)),
    ("alpha", (10, 0, 0)),
    ("alpha", (1, 2, 3)),
    ("alpha", (3, 2, 1)),
    ("alpha", (2, 2, 2)),
    ("alpha", (257, 0, 0)),
    ("alpha", (1, 256, 0)),
    ("alpha", (1, 0, 256)),
    ("alpha", (65535, 65535, 65535)),
    ("alpha", (0, 0, 65535)),
    ("alpha", (0, 65535, 0)),
    ("alpha", (65535, 0, 0)),
    ("teleportal.example.xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxa", (1, 0, 0)),
    ("teleportal.example.xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxb", (1, 0, 0)),
    ("Teleportal.example.xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxa", (1, 0, 0)),
    ("nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnx", (1, 0, 0)),
    ("nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnny", (1, 0, 0)),
    // the name at another place in memory
    (tail("beta alpha", 5), (1, 0, 0)),
    (head("alphabet", 5), (1, 0, 0)),
    (head("alphabet", 8), (1, 0, 0)),
    (tail("beta alpha", 5), (1, 0, 1)),
    // versions that collide when packed, added or mixed carelessly
    ("alpha", (0, 10, 0)),
    ("alpha", (0, 100, 0)),
    ("alpha", (0, 1000, 0)),
    ("alpha", (0, 0, 10)),
    ("alpha", (0, 0, 100)),
    ("alpha", (0, 0, 1000)),
    ("alpha", (0, 0, 10000)),
    ("alpha", (0, 16, 0)),
    ("alpha", (0, 0, 16)),
    ("alpha", (0, 256, 0)),
    ("alpha", (0, 0, 256)),
    ("alpha", (0, 1024, 0)),
    ("alpha", (0, 4096, 0)),
    ("alpha", (0, 0, 1)),
    ("alpha", (0, 0, 31)),
    ("alpha", (0, 31, 0)),
    ("alpha", (32769, 0, 0)),
    // the last part of a path, punctuation
    ("tp::alpha", (1, 0, 0)),
    ("tp.alpha", (1, 0, 0)),
    ("al-pha", (1, 0, 0)),
];

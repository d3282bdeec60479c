//! Documents, valid and not, that between them reach every part of the reader.

pub const VALID: &[&str] = &[
    "",
    "a",
    "~",
    "1",
    "'a''b'",
    "\"a\\n\\u00e9\"",
    "[]",
    "{}",
    "- a\n- b\n",
    "a: 1\n",
    "x: 1\ny: é\n",
    "- 1\n-\n- ~\n",
    "a:\n  b:\n  - c\n",
    "? [a]\n: {b: c}\n",
    "|\n a\n b\n",
    ">-\n a\n b\n",
    "!t a",
    "!New 1",
    "!St {x: 1}",
    "!!str 1",
    "!Tup [1, a]",
    "&a [1, *b]",
    "[&a 1, *a]",
    "- &a {k: v}\n- *a\n- <<: *a\n",
    "# c\na # d\n",
    "--- a\n...\n",
    "---\n",
    "---\n---\n",
    "--- 1\n--- 2\n",
    "a\n--- b\n--- c\n...\n",
    "%YAML 1.1\n--- a\n",
    "\u{feff}a: é\n",
    "\u{feff}",
    "é: ü\n",
    "a: 1\na: 2\n",
    "t: A\nx: 3\n",
    "- !A\n- New: 3\n",
    "\u{1F600}",
    "a\r\nb\r\n",
    "key: \"multi\n  line\"\n",
];

pub const INVALID: &[&str] = &[
    "[",
    "]",
    "{",
    "a: b: c",
    "'a",
    "\"a\\q\"",
    "@",
    "*a",
    "- *x\n- b\n",
    "a:\n\tb",
    "--- a\n--- [\n--- b\n",
    "a: [é, }",
    "é: é: é",
    "%FOO\n",
    "!<a b",
    "&",
    "- a\nb",
    "\u{7}",
    "a\n\u{0}",
    "? [\n",
    "|x\n a",
    "a: 1\n b: 2\n",
];

pub const BYTES: &[&[u8]] = &[
    b"\xff",
    b"a\xff",
    b"\xc3",
    b"- \xc3\n",
    b"\xc3\x28",
    b"\xed\xa0\x80",
    b"\xf4\x90\x80\x80",
    b"\xff\xfea\x00",
    b"\xfe\xff\x00a",
    b"\xef\xbb",
    b"a: \x00",
    b"\"\x80\"",
    b"'a\xe2\x82'",
    b"# \xff\na",
    b"\xc0\x80",
];

pub fn all() -> Vec<Vec<u8>> {
    VALID
        .iter()
        .chain(INVALID)
        .map(|s| s.as_bytes().to_vec())
        .chain(BYTES.iter().map(|b| b.to_vec()))
        .collect()
}

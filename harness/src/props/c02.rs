//! C02: strings round-trip exactly and never turn into another type.

use super::c01::{round_trip, wrap};
use crate::explore::*;
use crate::tree::*;
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTupleVariant};
use serde::{Serialize, Serializer};
use serde_yaml::Value;
use std::fmt;

/// Characters on which the emitter, the scanner or the resolver behave specially.
pub const HOSTILE: &[char] = &[
    'a', ' ', '\n', ':', '#', '-', '1', '0', '.', '\'', '"', '\t', '\r', '?', ',', '[', ']', '{', '}', '&', '*',
    '!', '|', '>', '%', '@', '`', '~', '=', '<', '\\', '+', 'e', 'x', '_', '/', 'é', '\u{85}', '\u{a0}', '\u{2028}',
    '\u{feff}', '\0', '\u{7f}', '\u{1F600}', '\u{ffff}', '\u{1b}',
];
const MID: &[char] = &[
    'a', ' ', '\n', ':', '#', '-', '1', '0', '.', '\'', '"', '\t', '\r', '?', ',', '[', '{', '&', '!', '|', '%', '~', '\\', 'é', '\u{85}', '+',
];
const CORE: &[char] = &['a', ' ', '\n', ':', '#', '-', '0', '\'', '"', '\t', '\r', '?', '.', '\u{85}'];

const POSITIONS: usize = 14;

fn place(pos: usize, s: &str) -> T {
    let x = st(s);
    match pos {
        0 => x,
        1..=7 => wrap(pos - 1, x),
        8 => wrap(0, wrap(0, x)),
        9 => wrap(2, wrap(0, x)),
        10 => wrap(0, wrap(2, x)),
        11 => T::Map(vec![(x.clone(), x)]),
        12 => wrap(2, wrap(2, x)),
        _ => tagged("t", wrap(2, x)),
    }
}

/// A string serialized with collect_str, written in pieces.
struct Disp<'a>(Vec<&'a str>);
impl fmt::Display for Disp<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for p in &self.0 {
            f.write_str(p)?;
        }
        Ok(())
    }
}
impl Serialize for Disp<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}

struct Typed<'a>(usize, &'a str, &'static str);
pub const TYPED: usize = 9;
impl Serialize for Typed<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let x = self.1;
        match self.0 {
            0 => s.serialize_str(x),
            1 => {
                let mut q = s.serialize_seq(None)?;
                q.serialize_element(x)?;
                q.serialize_element("z")?;
                q.end()
            }
            2 => {
                let mut m = s.serialize_map(None)?;
                m.serialize_key(x)?;
                m.serialize_value(x)?;
                m.end()
            }
            3 => {
                let mut m = s.serialize_struct("S", 1)?;
                m.serialize_field("f", x)?;
                m.end()
            }
            4 => s.serialize_newtype_variant("E", 0, "V", x),
            5 => {
                let mut v = s.serialize_tuple_variant("E", 0, "V", 2)?;
                v.serialize_field(x)?;
                v.serialize_field(x)?;
                v.end()
            }
            6 => {
                let mut v = s.serialize_struct_variant("E", 0, "V", 1)?;
                v.serialize_field("f", x)?;
                v.end()
            }
            7 => s.serialize_some(x),
            _ => {
                let mut m = s.serialize_map(Some(1))?;
                m.serialize_entry(x, &[x])?;
                m.end()
            }
        }
    }
}
fn typed_tree(k: usize, x: &str) -> T {
    match k {
        0 | 7 => st(x),
        1 => T::Seq(vec![st(x), st("z")]),
        2 => T::Map(vec![(st(x), st(x))]),
        3 => T::Map(vec![(st("f"), st(x))]),
        4 => tagged("V", st(x)),
        5 => tagged("V", T::Seq(vec![st(x), st(x)])),
        6 => tagged("V", T::Map(vec![(st("f"), st(x))])),
        _ => T::Map(vec![(st(x), T::Seq(vec![st(x)]))]),
    }
}

fn back(cx: &mut Cx, what: &str, ser: &impl Serialize, want: &T) {
    let text = match serde_yaml::to_string(ser) {
        Ok(t) => t,
        Err(e) => {
            cx.fail(format!("{what} {want:?}"), format!("{what}: to_string failed: {e}; {want:?}"));
            return;
        }
    };
    match serde_yaml::from_str::<Value>(&text) {
        Ok(v) if T::of(&v).same(want) => cx.trace(),
        Ok(v) => cx.fail(
            format!("{what} {want:?}"),
            format!("{what}: {want:?} written as {text:?} reads as {:?}", T::of(&v)),
        ),
        Err(e) => cx.fail(
            format!("{what} {want:?}"),
            format!("{what}: {want:?} written as {text:?} is unreadable: {e}"),
        ),
    }
}

fn as_string(cx: &mut Cx, s: &str) {
    match serde_yaml::to_string(s).and_then(|t| serde_yaml::from_str::<String>(&t)) {
        Ok(b) if b == s => cx.trace(),
        r => cx.fail(format!("{s:?}"), format!("String {s:?} comes back as {r:?}")),
    }
}

fn everywhere(cx: &mut Cx, s: &str) {
    cx.state(s);
    as_string(cx, s);
    for pos in 0..POSITIONS {
        cx.step(1);
        round_trip(cx, &place(pos, s));
    }
}

fn over(name: &'static str, alphabet: &'static [char], len: usize) -> Family {
    family(
        name,
        format!("every string of at most {len} characters over {} hostile characters, in {POSITIONS} positions", alphabet.len()),
        move |ch, cx| {
            let mut s = String::new();
            for _ in 0..len {
                let c = ch.choose(alphabet.len() + 1);
                if c == 0 {
                    break;
                }
                s.push(alphabet[c - 1]);
            }
            everywhere(cx, &s);
        },
    )
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(over("short", HOSTILE, 3));
    f.push(over("mid", MID, tier.pick(4, 5)));
    f.push(over("core", CORE, tier.pick(5, 6)));
    f.push(family(
        "code points",
        "every Unicode scalar value, as a char and inside 9 string contexts",
        |ch, cx| {
            let hi = ch.choose(0x1100);
            for lo in 0..256u32 {
                let Some(c) = char::from_u32((hi as u32) << 8 | lo) else {
                    continue;
                };
                cx.state(&c);
                match serde_yaml::to_string(&c).and_then(|t| serde_yaml::from_str::<char>(&t)) {
                    Ok(b) if b == c => cx.trace(),
                    r => cx.fail(format!("char {c:?}"), format!("char {c:?} comes back as {r:?}")),
                }
                back(cx, "char", &c, &T::Str(c.to_string()));
                for k in 0..8 {
                    cx.step(1);
                    let s = match k {
                        0 => format!("{c}"),
                        1 => format!("{c}a"),
                        2 => format!("a{c}"),
                        3 => format!("a{c}b"),
                        4 => format!("a\n{c}"),
                        5 => format!("{c}\n"),
                        6 => format!("a {c} b"),
                        _ => format!("a\n{c}b\n"),
                    };
                    as_string(cx, &s);
                    if k < 3 {
                        round_trip(cx, &wrap(1, T::Str(s.clone())));
                        round_trip(cx, &wrap(2, T::Str(s)));
                    }
                }
            }
        },
    ));
    f.push(family(
        "lines",
        format!("every string of at most {} lines over 19 lines, with up to 2 final line breaks, in all positions", tier.pick(3, 4)),
        move |ch, cx| {
            let lines = [
                "a", "", " ", " a", "  a", "a ", "\ta", "a\t", "\t", "# c", "a # c", "- a", "k: v", "---", "...", "é", "'a'", "\r", "a\r",
            ];
            let n = ch.range(1, cx.tier.pick(3, 4));
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push('\n');
                }
                s.push_str(ch.word(&lines));
            }
            s.push_str(["", "\n", "\n\n"][ch.choose(3)]);
            everywhere(cx, &s);
        },
    ));
    f.push(family(
        "words",
        format!("every concatenation of at most {} tokens over the resolution vocabulary, in all positions", tier.pick(3, 4)),
        move |ch, cx| {
            let words = [
                "true", "True", "TRUE", "false", "null", "Null", "NULL", "~", "y", "yes", "on", "0", "1", "7", "9", "+", "-", ".", "e", "E",
                "0x", "0X", "0o", "0b", "_", "inf", ".inf", ".Inf", "-.INF", "nan", ".nan", ".NaN", "a", "F", "<<", "=", " ", ":", "00", "99999999999999999999",
            ];
            let mut s = String::new();
            for _ in 0..cx.tier.pick(3, 4) {
                let c = ch.choose(words.len() + 1);
                if c == 0 {
                    break;
                }
                s.push_str(words[c - 1]);
            }
            everywhere(cx, &s);
        },
    ));
    f.push(family(
        "case",
        "every upper/lower-case spelling of the keywords, with every prefix and suffix of an alphabet",
        |ch, cx| {
            let w = ch.word(&["true", "false", "null", "inf", "nan", "yes", "no", "on", "off", "y", "n", "infinity"]);
            let pre = ch.word(&["", ".", "+.", "-.", "+", "-", "--.", "+-.", "0", "!", " "]);
            let mut s = pre.to_owned();
            for c in w.chars() {
                s.push(if ch.flag() { c.to_ascii_uppercase() } else { c });
            }
            s.push_str(ch.word(&["", " ", ".", "1", "\n"]));
            cx.state(&s);
            as_string(cx, &s);
            for pos in 0..4 {
                round_trip(cx, &place(pos, &s));
            }
        },
    ));
    f.push(family(
        "numeric",
        format!("every string of at most {} characters over the number alphabet, as root, value and key", tier.pick(5, 6)),
        move |ch, cx| {
            let cs = ['0', '1', '-', '+', '.', 'e', 'x', 'o', 'b', '9', '_', 'F'];
            let mut s = String::new();
            for _ in 0..cx.tier.pick(5, 6) {
                let c = ch.choose(cs.len() + 1);
                if c == 0 {
                    break;
                }
                s.push(cs[c - 1]);
            }
            cx.state(&s);
            as_string(cx, &s);
            for pos in [0, 2, 3] {
                round_trip(cx, &place(pos, &s));
            }
        },
    ));
    f.push(family(
        "big numerals",
        "sign x radix prefix x digit strings of every length up to 330 (leading digit 0, 1, 7, 9), with fraction and exponent",
        |ch, cx| {
            let sign = ch.word(&["", "+", "-"]);
            let pre = ch.word(&["", "0x", "0o", "0b", "0", "00", "."]);
            let d = ch.word(&["0", "1", "7", "9", "f"]);
            let suf = ch.word(&["", ".5", "e5", "e400", "."]);
            for n in (1..=140).chain(300..=330) {
                let s = format!("{sign}{pre}{}{suf}", d.repeat(n));
                cx.state(&s);
                cx.step(1);
                as_string(cx, &s);
                round_trip(cx, &place(0, &s));
                round_trip(cx, &place(3, &s));
            }
        },
    ));
    f.push(family(
        "typed",
        format!("every string of at most {} hostile characters and every wide string, through {TYPED} serde shapes", tier.pick(2, 3)),
        move |ch, cx| {
            let wide = strings_wide();
            let w = ch.choose(wide.len() + 1);
            let s = if w > 0 {
                wide[w - 1].clone()
            } else {
                let mut s = String::new();
                for _ in 0..cx.tier.pick(2, 3) {
                    let c = ch.choose(HOSTILE.len() + 1);
                    if c == 0 {
                        break;
                    }
                    s.push(HOSTILE[c - 1]);
                }
                s
            };
            cx.state(&s);
            for k in 0..TYPED {
                cx.step(1);
                back(cx, "typed", &Typed(k, &s, "V"), &typed_tree(k, &s));
            }
        },
    ));
    f.push(family(
        "field names",
        "every wide string and every two-character hostile string as struct field name and as unit variant name",
        |ch, cx| {
            let wide = strings_wide();
            let w = ch.choose(wide.len() + HOSTILE.len() * HOSTILE.len());
            let s = if w < wide.len() {
                wide[w].clone()
            } else {
                let k = w - wide.len();
                [HOSTILE[k / HOSTILE.len()], HOSTILE[k % HOSTILE.len()]].iter().collect()
            };
            cx.state(&s);
            let name: &'static str = Box::leak(s.clone().into_boxed_str());
            struct F(&'static str);
            impl Serialize for F {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    let mut m = s.serialize_struct("S", 2)?;
                    m.serialize_field(self.0, &1)?;
                    m.serialize_field("zz9", self.0)?;
                    m.end()
                }
            }
            back(cx, "struct field", &F(name), &T::Map(vec![(st(&s), T::Int(1)), (st("zz9"), st(&s))]));
            struct V(&'static str);
            impl Serialize for V {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_unit_variant("E", 0, self.0)
                }
            }
            back(cx, "unit variant", &V(name), &st(&s));
            struct K(&'static str);
            impl Serialize for K {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    let mut m = s.serialize_map(Some(1))?;
                    m.serialize_entry(&V(self.0), &V(self.0))?;
                    m.end()
                }
            }
            back(cx, "unit variant key", &K(name), &T::Map(vec![(st(&s), st(&s))]));
        },
    ));
    f.push(family(
        "collect_str",
        "every string of at most 3 pieces over 16 pieces, written piecewise by Display, in 5 positions; a two-piece '!x' key of a one-entry map is the crate's tag protocol and left out",
        |ch, cx| {
            let ps = ["a", "!", "", "!a", "1", "true", "~", " ", ":", "\n", "-", "0x", ".", "é", "\"", "#"];
            let n = ch.choose(4);
            let pieces: Vec<&str> = (0..n).map(|_| ch.word(&ps)).collect();
            let s = pieces.concat();
            let d = Disp(pieces.clone());
            cx.state(&pieces);
            back(cx, "collect_str root", &d, &st(&s));
            back(cx, "collect_str seq", &[&d, &d], &T::Seq(vec![st(&s), st(&s)]));
            struct M<'a>(&'a Disp<'a>, usize);
            impl Serialize for M<'_> {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    let mut m = s.serialize_map(match self.1 {
                        0 => None,
                        1 => Some(2),
                        _ => Some(1),
                    })?;
                    if self.1 != 3 {
                        m.serialize_entry(self.0, self.0)?;
                    } else {
                        m.serialize_key(self.0)?;
                        m.serialize_value(self.0)?;
                    }
                    if self.1 == 1 {
                        m.serialize_entry("zz9", &1)?;
                    }
                    m.end()
                }
            }
            let one = T::Map(vec![(st(&s), st(&s))]);
            back(cx, "collect_str key, unknown length", &M(&d, 0), &one);
            back(
                cx,
                "collect_str key of two",
                &M(&d, 1),
                &T::Map(vec![(st(&s), st(&s)), (st("zz9"), T::Int(1))]),
            );
            back(cx, "collect_str key, key/value calls", &M(&d, 3), &one);
            let solid: Vec<&str> = pieces.iter().copied().filter(|p| !p.is_empty()).collect();
            if !(solid.len() == 2 && solid[0] == "!") {
                back(cx, "collect_str key of one", &M(&d, 2), &one);
            }
        },
    ));
    f
}

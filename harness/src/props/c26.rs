//! C26: the text written is laid out in block style from the texts of its parts, and depends on
//! nothing but the data.

use crate::big;
use crate::data::{self, Kinds, D, W};
use crate::explore::*;
use crate::tree::*;
use serde::Serialize;
use serde_yaml::Value;

/// A node's text: what follows on the line of its indicator, and the lines below.
struct Block {
    head: String,
    body: Vec<String>,
    seq: bool,
    scalar: bool,
}

const BREAKS: [char; 5] = ['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}'];

/// A scalar's text is whatever the crate writes for it as the only element of a sequence.
fn scalar(t: &T) -> Result<(String, Vec<String>), String> {
    let s = serde_yaml::to_string(&[t.to_value()]).map_err(|e| e.to_string())?;
    let s = s.strip_prefix("- ").and_then(|s| s.strip_suffix('\n')).ok_or("not a sequence of one item on lines of their own")?;
    let mut l = s.split('\n');
    let head = l.next().unwrap_or("").to_owned();
    let body = l
        .map(|l| match l.strip_prefix("  ") {
            Some(r) => Ok(r.to_owned()),
            None if l.is_empty() => Ok(String::new()),
            None => Err(format!("the line {l:?} of an item is not indented")),
        })
        .collect::<Result<_, _>>()?;
    Ok((head, body))
}

/// What some scalars' texts must be, whatever stands around them.
fn absolute(t: &T, head: &str, body: &[String]) -> Result<(), String> {
    let want = |w: &str| match head == w && body.is_empty() {
        true => Ok(()),
        false => Err(format!("{t:?} is written {head:?} {body:?} and not {w:?}")),
    };
    match t {
        T::Null => want("null"),
        T::Bool(b) => want(if *b { "true" } else { "false" }),
        T::Int(i) => want(&i.to_string()),
        T::Str(s) => {
            let printable = s.bytes().all(|b| matches!(b, b' '..=b'~' | b'\n'));
            let word = s.starts_with(|c: char| c.is_ascii_alphabetic())
                && !s.ends_with(' ')
                && s.bytes().all(|b| b.is_ascii_alphabetic() || matches!(b, b'_' | b' '));
            if printable && s.contains('\n') && !s.contains(" \n") && !s.ends_with(' ') {
                let content = s.strip_suffix('\n').unwrap_or(s);
                let chomp = s.len() - s.trim_end_matches('\n').len();
                let marks = if chomp == 0 { "-" } else if chomp == 1 { "" } else { "+" };
                let hint = head.strip_prefix('|').map(|h| h.trim_start_matches('2'));
                let lines: Vec<&str> = content.split('\n').collect();
                if (hint == Some(marks) || s.trim_end_matches('\n').is_empty() && head.starts_with('|')) && (body == lines || s.trim_end_matches('\n').is_empty()) {
                    return Ok(());
                }
                return Err(format!("{t:?} is written {head:?} {body:?} and not as a literal block"));
            }
            if word && matches!(crate::resolve::plain(s), crate::resolve::R::Str) {
                return want(s);
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn indented(l: &[String], n: usize) -> impl Iterator<Item = String> + '_ {
    l.iter().map(move |l| if l.is_empty() { String::new() } else { format!("{}{l}", " ".repeat(n)) })
}

/// Behind an indicator of two columns.
fn behind(mark: &str, b: &Block, seq_indent: usize, out: &mut Vec<String>) {
    if b.head.is_empty() && !b.scalar {
        let mut l = indented(&b.body, 2);
        out.push(format!("{mark} {}", l.next().unwrap_or_default().trim_start_matches(' ')));
        out.extend(l);
    } else {
        out.push(format!("{mark} {}", b.head));
        out.extend(indented(&b.body, if b.seq { seq_indent } else { 2 }));
    }
}

fn simple(k: &T, tag: usize) -> bool {
    match k {
        T::Tag(n, k) => simple(k, tag + 1 + n.len()),
        T::Seq(v) => v.is_empty() && tag <= 128,
        T::Map(v) => v.is_empty() && tag <= 128,
        T::Str(s) => !s.contains(&BREAKS[..]) && tag + s.len() <= 128,
        _ => true,
    }
}

fn block(t: &T) -> Result<Block, String> {
    Ok(match t {
        T::Tag(n, x) => {
            let mut b = block(x)?;
            b.head = if b.head.is_empty() { format!("!{n}") } else { format!("!{n} {}", b.head) };
            b
        }
        T::Seq(v) if v.is_empty() => Block { head: "[]".into(), body: vec![], seq: true, scalar: false },
        T::Map(v) if v.is_empty() => Block { head: "{}".into(), body: vec![], seq: false, scalar: false },
        T::Seq(v) => {
            let mut l = vec![];
            for e in v {
                behind("-", &block(e)?, 2, &mut l);
            }
            Block { head: String::new(), body: l, seq: true, scalar: false }
        }
        T::Map(v) => {
            let mut l = vec![];
            for (k, e) in v {
                let (kb, eb) = (block(k)?, block(e)?);
                if simple(k, 0) {
                    if eb.head.is_empty() && !eb.scalar {
                        l.push(format!("{}:", kb.head));
                    } else {
                        l.push(format!("{}: {}", kb.head, eb.head));
                    }
                    l.extend(indented(&eb.body, if eb.seq { 0 } else { 2 }));
                } else {
                    behind("?", &kb, 0, &mut l);
                    behind(":", &eb, 0, &mut l);
                }
            }
            Block { head: String::new(), body: l, seq: false, scalar: false }
        }
        leaf => {
            let (head, body) = scalar(leaf)?;
            absolute(leaf, &head, &body)?;
            Block { head, body, seq: false, scalar: true }
        }
    })
}

fn layout(t: &T) -> Result<String, String> {
    let b = block(t)?;
    let mut l = vec![];
    if !b.head.is_empty() || b.scalar {
        l.push(b.head);
    }
    l.extend(indented(&b.body, if b.scalar { 2 } else { 0 }));
    Ok(l.join("\n") + "\n")
}

fn text_of<X: Serialize>(x: &X) -> Result<String, String> {
    serde_yaml::to_string(x).map_err(|e| e.to_string())
}

/// A line break that is neither escaped nor a line feed: inside of quotes its line is indented.
fn odd_break(t: &T) -> bool {
    match t {
        T::Str(s) => s.contains(&BREAKS[1..]),
        T::Seq(v) => v.iter().any(odd_break),
        T::Map(v) => v.iter().any(|(k, e)| odd_break(k) || odd_break(e)),
        T::Tag(_, t) => odd_break(t),
        _ => false,
    }
}

/// The text is the layout's; written again, read and written again, it is the same.
fn check(cx: &mut Cx, t: &T) {
    cx.state(t);
    let v = t.to_value();
    let want = if odd_break(t) { Ok(String::new()) } else { layout(t) };
    let got = text_of(&v);
    cx.step(3);
    cx.trace();
    if got != want && !odd_break(t) {
        cx.fail(format!("text of {t:?}"), format!("{t:?} is written {got:?} and not {want:?}"));
        return;
    }
    let Ok(text) = got else {
        cx.fail(format!("text of {t:?}"), format!("not written: {got:?}"));
        return;
    };
    let again = serde_yaml::from_str::<Value>(&text).map_err(|e| e.to_string()).and_then(|v| text_of(&v));
    cx.trace();
    if again.as_deref() != Ok(&text[..]) {
        cx.fail(format!("again {t:?}"), format!("{text:?} read and written again is {again:?}"));
    }
    cx.sample(|| format!("{t:?}: {text:?}"));
}

/// The same data by any serializer calls gives the text its Value gives.
fn typed(cx: &mut Cx, d: &D) {
    cx.state(&format!("{d:?}"));
    let t = d.content();
    if t.nested_tag() || t.has_dup_keys() {
        return;
    }
    let (a, b) = (text_of(d), text_of(&t.to_value()));
    cx.step(2);
    cx.trace();
    if a != b || a.is_err() {
        cx.fail(format!("{d:?}"), format!("written {a:?}, as a Value {b:?}"));
    }
}

fn surroundings(ch: &mut Ch, t: &T) -> T {
    let t = t.clone();
    let k = || st("k");
    match ch.choose(18) {
        0 => t,
        1 => tagged("t", t),
        2 => T::Seq(vec![t]),
        3 => T::Seq(vec![t.clone(), t]),
        4 => T::Seq(vec![T::Seq(vec![t, T::Null])]),
        5 => T::Map(vec![(k(), t.clone()), (st("l"), t)]),
        6 => T::Map(vec![(t, T::Null)]),
        7 => T::Map(vec![(t.clone(), t)]),
        8 => T::Map(vec![(k(), T::Map(vec![(k(), t), (st("l"), T::Null)]))]),
        9 => T::Map(vec![(k(), T::Seq(vec![t, T::Null])), (st("l"), T::Null)]),
        10 => T::Seq(vec![tagged("t", t), T::Null]),
        11 => T::Map(vec![(k(), tagged("t", t)), (st("l"), T::Null)]),
        12 => T::Map(vec![(tagged("t", t), T::Null)]),
        13 => T::Map(vec![(T::Seq(vec![t.clone(), T::Null]), t)]),
        14 => T::Map(vec![(T::Map(vec![(t.clone(), t.clone())]), t)]),
        15 => tagged("t", T::Seq(vec![t.clone(), t])),
        16 => tagged("t", T::Map(vec![(t.clone(), t)])),
        _ => T::Seq(vec![T::Map(vec![(k(), T::Seq(vec![T::Map(vec![(t.clone(), t)])]))]), T::Null]),
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    for (name, leaves, n) in [
        ("trees", vec![T::Int(1), st("a\nb"), st("")], tier.pick(7, 8)),
        ("plain trees", vec![st("a")], tier.pick(9, 10)),
    ] {
        f.push(family(
            name,
            format!("every tree of at most {n} nodes over {} leaves and one tag, any node as key", leaves.len()),
            move |ch, cx| {
                let t = Gen::new(leaves.clone(), &["t"]).tree(ch, n);
                if !t.has_dup_keys() {
                    check(cx, &t);
                }
            },
        ));
    }
    f.push(family(
        "scalars",
        "every leaf of the wide alphabet in each of 18 surroundings, and there in each of the 18 again",
        |ch, cx| {
            let l = leaves_wide();
            let mut t = ch.pick(&l).clone();
            if ch.flag() {
                t = surroundings(ch, &t);
            }
            let t = surroundings(ch, &t);
            if !t.nested_tag() && !t.has_dup_keys() {
                check(cx, &t);
            }
        },
    ));
    f.push(family(
        "siblings",
        "every pair of leaves of the wide alphabet beside each other in a sequence, as two values, as key and value, as two keys, each tagged or not",
        |ch, cx| {
            let l = leaves_wide();
            let (mut a, mut b) = (ch.pick(&l).clone(), ch.pick(&l).clone());
            let tags = ch.choose(4);
            if tags & 1 == 1 {
                a = tagged("t", a);
            }
            if tags & 2 == 2 {
                b = tagged("u", b);
            }
            let t = match ch.choose(4) {
                0 => T::Seq(vec![a, b]),
                1 => T::Map(vec![(st("k"), a), (st("l"), b)]),
                2 => T::Map(vec![(a, b)]),
                _ => T::Map(vec![(a, T::Null), (b, T::Seq(vec![T::Null]))]),
            };
            if !t.has_dup_keys() {
                check(cx, &t);
            }
        },
    ));
    f.push(family(
        "long keys",
        "keys of every length from 100 to 140 characters of 1 to 3 bytes, plain or quoted, bare or under a tag of 1, 10 or 120 characters, with each of 5 values: how long a key may be on its line",
        |ch, cx| {
            let c = *ch.pick(&['a', 'é', '語', ' ']);
            let n = ch.range(30, 140);
            let s: String = std::iter::repeat(c).take(n).collect();
            let s = if ch.flag() { format!("# {s}") } else { s };
            let mut k = st(&s);
            match ch.choose(4) {
                0 => {}
                1 => k = tagged("t", k),
                2 => k = tagged(&"t".repeat(10), k),
                _ => k = tagged(&"t".repeat(120), k),
            }
            let v = match ch.choose(5) {
                0 => T::Null,
                1 => T::Seq(vec![T::Null]),
                2 => T::Map(vec![(T::Null, T::Null)]),
                3 => tagged("u", T::Seq(vec![T::Null])),
                _ => st("a\nb"),
            };
            check(cx, &T::Map(vec![(k, v), (st("after"), T::Null)]));
        },
    ));
    let strings = tier.pick(5, 6);
    f.push(family(
        "lines",
        format!("every string of at most {strings} of 7 pieces of text with line breaks, in 18 surroundings"),
        move |ch, cx| {
            let mut s = String::new();
            for _ in 0..strings {
                match ch.choose(8) {
                    0 => break,
                    i => s.push_str(["a", " ", "\n", "#", "\t", ": ", "'"][i - 1]),
                }
            }
            if !s.contains('\n') {
                return;
            }
            let t = surroundings(ch, &st(&s));
            check(cx, &t);
        },
    ));
    let mut full = Kinds {
        leaves: vec![D::Int(7, W::I8), data::str("s"), D::F64(1.5), D::Bool(true), D::None, D::Unit],
        wrappers: true, tuples: true, structs: true, enums: true, styles: true, complex_keys: true, adapters: false, within: 0,
    };
    if tier == Tier::Thorough {
        full.leaves.extend([data::str("1"), data::str("a\nb"), D::UnitStruct]);
    }
    let n = 5;
    f.push(family(
        "typed",
        format!("every tree of at most {n} serializer calls over {} leaves, and every way to drive each of them: the text its Value has", full.leaves.len()),
        move |ch, cx| typed(cx, &full.tree(ch, n)),
    ));
    f.push(family(
        "deep",
        "towers of every pair of 8 kinds of level, each number of levels from 1 to 126, around 3 leaves",
        |ch, cx| {
            let w = big::word(ch);
            let d = ch.range(1, 126);
            let leaf = [crate::text::N::of(&T::Int(1)), crate::text::N::of(&st("a\nb")), crate::text::N::of(&T::Seq(vec![]))];
            let n = big::tower(&w, d, leaf[ch.choose(3)].clone());
            let t = big::content(&n);
            if !t.nested_tag() {
                check(cx, &t);
            }
        },
    ));
    let lengths = big::lengths(tier);
    f.push(family(
        "lengths",
        format!("strings of every one of {} lengths up to {}: one word, many words, one long line and a short one, many lines, quotes, in 18 surroundings", lengths.len(), lengths[lengths.len() - 1]),
        move |ch, cx| {
            let n = *ch.pick(&lengths);
            let s = match ch.choose(6) {
                0 => "a".repeat(n),
                1 => "word ".repeat(n / 5) + "end",
                2 => "a".repeat(n) + "\nb",
                3 => "a b\n".repeat(n / 4),
                4 => "a\n".to_owned() + &" b".repeat(n / 2),
                _ => "# ".to_owned() + &"it's ".repeat(n / 5) + "end",
            };
            if n < 5000 {
                let t = surroundings(ch, &st(&s));
                if !t.nested_tag() && !t.has_dup_keys() {
                    check(cx, &t);
                }
            } else {
                check(cx, &T::Map(vec![(st("k"), T::Seq(vec![st(&s), T::Null]))]));
            }
        },
    ));
    let sizes = big::few_sizes(tier);
    f.push(family(
        "many",
        format!("12 kinds of wide tree at {} sizes up to {}", sizes.len(), sizes[sizes.len() - 1]),
        move |ch, cx| {
            let n = *ch.pick(&sizes);
            let t = big::tree(ch.choose(12), n);
            if !t.nested_tag() {
                check(cx, &t);
            }
        },
    ));
    f
}

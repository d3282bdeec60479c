//! C07: any bytes at all give an answer, never a panic, hang or crash.

use crate::corpus;
use crate::explore::*;
use crate::props::c05::show;
use crate::types::{self, Out, Target};
use serde_yaml::Deserializer;

/// Everything that is done with one input. Panics and crashes are caught by the explorer.
fn probe(cx: &mut Cx, bytes: &[u8], targets: &[Target]) {
    let bound = bytes.len() + 3;
    for t in targets {
        let a = (t.slice)(bytes);
        let b = (t.slice)(bytes);
        cx.step(2);
        if a == b {
            cx.trace();
        } else {
            cx.fail(
                format!("repeat {} {:?}", t.name, show(bytes)),
                format!("{:?} as {}: first {a:?}, then {b:?}", show(bytes), t.name),
            );
        }
        match a {
            Out::Ok(_) => cx.outcome("value"),
            Out::Err(_, Some(_)) => cx.outcome("error with location"),
            Out::Err(_, None) => cx.outcome("error without location"),
        }
        // the caller ignores errors and keeps going
        let mut items = 0;
        let mut after_error = None;
        let mut failing = 0;
        for d in Deserializer::from_slice(bytes) {
            items += 1;
            let o = (t.de)(d);
            cx.step(1);
            if let Out::Err(m, _) = &o {
                failing += 1;
                if after_error.as_ref() == Some(&o) && items > bound {
                    cx.fail(
                        format!("endless documents {:?}", show(bytes)),
                        format!("document iterator over {:?} keeps repeating {m:?}", show(bytes)),
                    );
                    return;
                }
                after_error = Some(o);
            }
            if items > bound {
                cx.fail(
                    format!("too many documents {:?}", show(bytes)),
                    format!("document iterator over {:?} yields more than {bound} items", show(bytes)),
                );
                return;
            }
        }
        if failing > 0 {
            cx.outcome("iteration past an error");
        }
        cx.trace();
    }
}

/// Documents that fail to parse, as opposed to failing to fit the target: at most one, the last.
fn one_error(cx: &mut Cx, bytes: &[u8]) {
    let mut failed: Option<usize> = None;
    for (i, d) in Deserializer::from_slice(bytes).enumerate().take(bytes.len() + 3) {
        let o = Out::of(<serde::de::IgnoredAny as serde::Deserialize>::deserialize(d));
        if let Some(f) = failed {
            cx.fail(
                format!("item after error {:?}", show(bytes)),
                format!("documents of {:?}: item {f} is a parse error, yet item {i} follows: {o:?}", show(bytes)),
            );
            return;
        }
        if !o.is_ok() {
            failed = Some(i);
        }
    }
    cx.trace();
}

const TOKENS: &[&str] = &[
    "a", "- ", ": ", "? ", "[", "]", "{", "}", ", ", "\n", "\n ", "\n  ", "&x ", "*x", "!t ", "!!int ", "'", "\"", "|\n", ">-\n", "#", "\n---\n", "\n...\n",
    "%YAML 1.2\n", "<<", "1", "~", "\t", "\\", "é", "!", "&x", "%TAG ! !\n",
];

const ESCAPES: &[&str] = &[
    "\\0", "\\a", "\\b", "\\t", "\\\t", "\\n", "\\v", "\\f", "\\r", "\\e", "\\ ", "\\\"", "\\/", "\\\\", "\\N", "\\_", "\\L", "\\P", "\\x", "\\x41", "\\xe9", "\\u",
    "\\u00e9", "\\u2028", "\\ud800", "\\U", "\\U0001F600", "\\U00110000", "\\\n", "\\q", "a", "é", "\u{2028}", " ", "\n", "\n ", "\t", "\\",
];

const OPENERS: &[&str] = &[
    "[", "{", "- ", "? ", "[{", "{[", "!t [", "&a [", "a: [", "{a: ", "? - ", "- ? ", "[[", "{? ", "!t {a: ", "- - a: ", "[a, ", "{a: b, c: ", "[!t ", "&a {&b ", "[\"a\": ",
    "!<x> [", "!!seq [", "- !t\n", "'a': [", "!t !u ", "&a &b ",
];
const CORES: &[&str] = &["", "a", "*a", "]", "}", "a: b", "[", "'", "\"", "&a", "!"];

fn repeat_pieces() -> Vec<(&'static str, String)> {
    let n = 20000;
    let mut v = vec![];
    for p in [
        "[", "]", "{", "}", "- ", "? ", ": ", ",", "a", " ", "\n", "\t", "'", "\"", "\\", "\"\\", "#", "#\n", "&a ", "*a ", "!", "!t ", "%", "%A\n", "|\n", ">\n", "---\n",
        "...\n", "é", "\u{feff}", "a\n", "a:\n", "a: ", "- a\n", "? a\n", "'a' ", "- *a\n", "\r", "\r\n", "~", "0", "9", "-", "+", ".", "e", "_", "0x", "<<: ", "a b ", ":a", "a:a",
        "\u{2028}", "\u{85}", "%20", "!%20", "!<", "&", "*", "[]", "{}", "[],", "{},", "--- a\n", "--- |\n a\n", "--- &a a\n", "--- *a\n", "--- [\n",
    ] {
        v.push((p, p.repeat(n / p.len())));
    }
    v
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    thread_local! {
        static ALL: Vec<Target> = types::all();
        static FEW: Vec<Target> = types::few();
        static FOUR: Vec<Target> = {
            let mut t = types::few();
            t.retain(|t| ["Value", "IgnoredAny", "Vec<Option<String>>", "Enm"].contains(&t.name));
            t
        };
    }
    f.push(family("bytes 2", "every byte string of at most 2 bytes x 35 targets, whole and as documents", |ch, cx| {
        let mut b = vec![];
        for _ in 0..2 {
            let c = ch.choose(257);
            if c == 0 {
                break;
            }
            b.push((c - 1) as u8);
        }
        cx.state(&b);
        cx.case = show(&b);
        ALL.with(|t| probe(cx, &b, t));
        one_error(cx, &b);
    }));
    if tier == Tier::Thorough {
        f.push(family("bytes 3", "every byte string of 3 bytes x 4 targets", |ch, cx| {
            let a = ch.choose(256) as u8;
            let b = ch.choose(256) as u8;
            for c in 0..=255 {
                let s = [a, b, c];
                cx.case = show(&s);
                FOUR.with(|t| probe(cx, &s, t));
                one_error(cx, &s);
            }
            cx.state(&(a, b));
        }));
    }
    f.push(family("structural bytes", format!("every string of at most {} of 38 structural bytes x 4 targets", tier.pick(4, 5)), move |ch, cx| {
        let alphabet: &[u8] = b"a1 \n\t\r:-?,[]{}#&*!|>'\"%@`~<=.\\+\x00\x7f\xc3\xa9\xff\xef";
        let mut b = vec![];
        for _ in 0..tier.pick(4, 5) {
            let c = ch.choose(alphabet.len() + 1);
            if c == 0 {
                break;
            }
            b.push(alphabet[c - 1]);
        }
        if !b.is_empty() {
            cx.state(&b);
        }
        cx.case = show(&b);
        FOUR.with(|t| probe(cx, &b, t));
        one_error(cx, &b);
    }));
    let n = tier.pick(4, 5);
    f.push(family("tokens", format!("every sequence of at most {n} of {} YAML tokens x 4 targets; of 3 x 35 targets", TOKENS.len()), move |ch, cx| {
        let mut s = String::new();
        let mut k = 0;
        for _ in 0..n {
            let c = ch.choose(TOKENS.len() + 1);
            if c == 0 {
                break;
            }
            k += 1;
            s.push_str(TOKENS[c - 1]);
        }
        cx.state(&s);
        cx.case = show(s.as_bytes());
        if k <= 3 {
            ALL.with(|t| probe(cx, s.as_bytes(), t));
        } else {
            FOUR.with(|t| probe(cx, s.as_bytes(), t));
        }
        one_error(cx, s.as_bytes());
    }));
    f.push(family(
        "mutated corpus",
        format!("{} documents x every position x cut there, one byte removed, or one of 40 bytes put in or over x 8 targets", corpus::all().len()),
        |ch, cx| {
            let subst: &[u8] = b"a1 \n\t\r:-?,[]{}#&*!|>'\"%@`~<=.\\+\x00\x7f\xc3\xa9\xff\xef\xbb\xe2";
            let docs = corpus::all();
            let mut b = ch.pick(&docs).clone();
            let at = ch.choose(b.len() + 1);
            match ch.choose(4) {
                0 => b.truncate(at),
                1 => {
                    if at < b.len() {
                        b.remove(at);
                    }
                }
                2 => b.insert(at, *ch.pick(subst)),
                _ => {
                    if at < b.len() {
                        b[at] = *ch.pick(subst);
                    }
                }
            }
            cx.state(&b);
            cx.case = show(&b);
            FEW.with(|t| probe(cx, &b, t));
            one_error(cx, &b);
            let c = cx.case.clone();
            cx.sample(|| c);
        },
    ));
    f.push(family(
        "escapes",
        format!("every sequence of at most 3 of {} escapes and raw characters in double quotes, alone{} or in 5 surroundings, ended or cut, x 8 targets", ESCAPES.len(), tier.pick("", " (at most 4)")),
        move |ch, cx| {
            let around = [("", ""), ("- ", "\n"), ("", ": a\n"), ("[é, ", "]"), ("!t ", " # c\n"), ("&x ", "\n...\n")];
            let at = ch.choose(around.len());
            let (a, b) = around[at];
            let mut s = format!("{a}\"");
            for _ in 0..if at == 0 { tier.pick(3, 4) } else { 3 } {
                let c = ch.choose(ESCAPES.len() + 1);
                if c == 0 {
                    break;
                }
                s.push_str(ESCAPES[c - 1]);
            }
            if ch.flag() {
                cx.state(&s);
                cx.case = show(s.as_bytes());
                FOUR.with(|t| probe(cx, s.as_bytes(), t));
            }
            s.push('"');
            s.push_str(b);
            cx.state(&s);
            cx.case = show(s.as_bytes());
            FEW.with(|t| probe(cx, s.as_bytes(), t));
            one_error(cx, s.as_bytes());
        },
    ));
    f.push(family("streams", format!("every sequence of 3 of {} documents x 8 targets", corpus::all().len()), |ch, cx| {
        let docs = corpus::all();
        let mut b = vec![];
        for _ in 0..3 {
            let d = ch.pick(&docs);
            b.extend_from_slice(d);
            if !b.ends_with(b"\n") {
                b.push(b'\n');
            }
            if !d.ends_with(b"...\n") {
                b.extend_from_slice(b"---\n");
            }
        }
        cx.state(&b);
        cx.case = show(&b);
        FOUR.with(|t| probe(cx, &b, t));
        one_error(cx, &b);
    }));
    f.push(family(
        "depth",
        format!("{} openers x depths 1..140, 1000{} x {} cores x closed or not x 35 targets", OPENERS.len(), tier.pick("", ", 5000, 10000"), CORES.len()),
        move |ch, cx| {
            let o = ch.word(OPENERS);
            let mut depths: Vec<usize> = vec![1, 2, 3, 10, 60, 63, 64, 65, 100, 126, 127, 128, 129, 130, 140, 1000];
            if tier == Tier::Thorough {
                depths.extend([5000, 10000]);
            }
            let d = *ch.pick(&depths);
            let core = ch.word(CORES);
            let mut s = o.repeat(d);
            s.push_str(core);
            if ch.flag() {
                for _ in 0..d {
                    for c in o.chars().rev() {
                        match c {
                            '[' => s.push(']'),
                            '{' => s.push('}'),
                            _ => {}
                        }
                    }
                }
            }
            cx.state(&(o, d, core, s.len()));
            cx.case = format!("{o:?} x {d}, {core:?}, {} bytes", s.len());
            if d > 200 {
                FOUR.with(|t| probe(cx, s.as_bytes(), t));
            } else {
                ALL.with(|t| probe(cx, s.as_bytes(), t));
            }
            one_error(cx, s.as_bytes());
        },
    ));
    f.push(family(
        "bombs",
        "alias trees: 2..12 levels x 1..10 references each, as sequences, mappings, keys, merges, tagged or in a cycle x 35 targets",
        |ch, cx| {
            let levels = ch.range(2, 12);
            let refs = ch.range(1, 10);
            let kind = ch.choose(6);
            let mut s = String::new();
            for l in 0..levels {
                let r = if l == 0 {
                    match kind {
                        5 => "*z".to_owned(),
                        _ => "x".to_owned(),
                    }
                } else {
                    format!("*a{}", l - 1)
                };
                match kind {
                    0 | 5 => s.push_str(&format!("- &a{l} [{}]\n", vec![r; refs].join(", "))),
                    1 => s.push_str(&format!(
                        "- &a{l} {{{}}}\n",
                        (0..refs).map(|i| format!("k{i}: {r}")).collect::<Vec<_>>().join(", ")
                    )),
                    2 => s.push_str(&format!("- &a{l} {{? [{}] : 1}}\n", vec![r; refs].join(", "))),
                    3 => s.push_str(&format!("- &a{l} {{<<: [{}]}}\n", vec![if l == 0 { "{x: y}".into() } else { r }; refs].join(", "))),
                    _ => s.push_str(&format!("- &a{l} !t [{}]\n", vec![r; refs].join(", "))),
                }
            }
            if kind == 5 {
                s = format!("&z\n{s}");
            }
            cx.state(&s);
            cx.case = format!("bomb kind {kind}, {levels} levels x {refs}");
            // the Debug form of an expanded bomb can be large, so only few targets
            FEW.with(|t| probe(cx, s.as_bytes(), t));
            one_error(cx, s.as_bytes());
        },
    ));
    f.push(family("repetition", "64 pieces repeated to 20 KB, alone, after 'a: ' and after '- [', x 8 targets", |ch, cx| {
        let p = repeat_pieces();
        let (name, s) = ch.pick(&p);
        let s = match ch.choose(4) {
            0 => s.clone(),
            1 => format!("a: {s}"),
            2 => format!("- [{s}"),
            _ => format!("{s}\na: b"),
        };
        cx.state(&s);
        cx.case = format!("{name:?} repeated, {} bytes", s.len());
        // the document count is not bounded by 3 beyond the length here either
        FOUR.with(|t| probe(cx, s.as_bytes(), t));
        one_error(cx, s.as_bytes());
    }));
    f.push(family("two lines", "every pair of 34 line shapes with 0..3 spaces of indentation, three lines deep, x 8 targets", |ch, cx| {
        let shapes = [
            "a", "a:", "a: b", "- ", "- a", "- a: b", "? a", ": b", "[", "]", "{a: [", "}", "'", "\"", "|", ">", "a: |", "- >-", "&x", "*x", "a: *x", "!t", "!t a", "#", "---", "...", "",
            "<<: *x", "&x a: b", "- - a", "? - a", "a: 'b", "b'", "\tb",
        ];
        let mut s = String::new();
        for i in 0..3 {
            if i > 0 {
                s.push_str(&" ".repeat(ch.choose(if i == 1 { 3 } else { 4 })));
            }
            s.push_str(ch.word(&shapes));
            s.push('\n');
        }
        cx.state(&s);
        cx.case = show(s.as_bytes());
        FOUR.with(|t| probe(cx, s.as_bytes(), t));
        one_error(cx, s.as_bytes());
    }));
    f.push(family(
        "failing readers",
        format!("{} documents x a reader that fails after every number of bytes: one item, then the end", corpus::all().len()),
        |ch, cx| {
            let docs = corpus::all();
            let b = ch.pick(&docs);
            let at = ch.choose(b.len() + 1);
            struct Failing<'a>(&'a [u8]);
            impl std::io::Read for Failing<'_> {
                fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                    match std::io::Read::read(&mut self.0, buf) {
                        Ok(0) => Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")),
                        r => r,
                    }
                }
            }
            cx.state(&(b, at));
            cx.case = format!("{} failing after {at}", show(b));
            ALL.with(|ts| {
                for t in ts {
                    let items: Vec<Out> = Deserializer::from_reader(Failing(&b[..at])).take(4).map(|d| (t.de)(d)).collect();
                    cx.step(items.len() + 1);
                    if items.len() == 1 && !items[0].is_ok() {
                        cx.trace();
                    } else {
                        let case = cx.case.clone();
                        cx.fail(format!("failing reader {case}"), format!("{case} as {}: items {items:?}", t.name));
                    }
                }
            });
        },
    ));
    f
}

//! C08: document streams.

use crate::big;
use crate::explore::*;
use crate::tree::*;
use crate::types::{self, Out, Target};
use serde::de::IgnoredAny;
use serde::{Deserialize, Serialize};
use serde_yaml::{Deserializer, Serializer, Value};

fn m(k: &str, v: T) -> T {
    T::Map(vec![(st(k), v)])
}

/// Values whose text could be mistaken for stream structure.
fn values() -> Vec<T> {
    vec![
        T::Null,
        T::Bool(false),
        T::Int(1),
        T::Float(f64::NAN),
        st(""),
        st("a"),
        st("---"),
        st("--- a"),
        st("..."),
        st("... "),
        st("%YAML 1.2"),
        st("# c"),
        st("a\n"),
        st("a\n\n"),
        st("\n"),
        st("a\n---\nb\n"),
        st("a\n...\nb"),
        st("---\n"),
        st("...\n"),
        st("a\n%b\n"),
        st("a\n# c\n\n"),
        st(" a\nb\n"),
        st("null"),
        st("\u{feff}"),
        T::Seq(vec![]),
        T::Map(vec![]),
        T::Seq(vec![st("---"), st("...\n")]),
        m("---", st("a\n\n")),
        m("a", m("b", st("\n"))),
        T::Seq(vec![T::Seq(vec![st("x\n\n")])]),
        tagged("t", st("...")),
        tagged("t", T::Map(vec![])),
    ]
}

/// Document bodies: text that may follow `---` on its own line, and what it means.
struct Body {
    text: &'static str,
    /// may also stand on the line of the `---`
    inline: bool,
    value: fn() -> T,
}
fn bodies() -> Vec<Body> {
    fn b(text: &'static str, inline: bool, value: fn() -> T) -> Body {
        Body { text, inline, value }
    }
    vec![
        b("a\n", true, || st("a")),
        b("- 1\n- b\n", false, || T::Seq(vec![T::Int(1), st("b")])),
        b("k: v\n", false, || m("k", st("v"))),
        b("[x, {y: 2}]\n", true, || T::Seq(vec![st("x"), m("y", T::Int(2))])),
        b("|\n lit\n", true, || st("lit\n")),
        b(">-\n a\n b\n", true, || st("a b")),
        b("'q'\n", true, || st("q")),
        b("\"...\"\n", true, || st("...")),
        b("&x a\n", true, || st("a")),
        b("- &x 7\n- *x\n", false, || T::Seq(vec![T::Int(7), T::Int(7)])),
        b("!t a\n", true, || tagged("t", st("a"))),
        b("a ---\n", true, || st("a ---")),
        b("k:\n  - ...\n", false, || m("k", T::Seq(vec![st("...")]))),
        b("{}\n", true, || T::Map(vec![])),
        b("&x []\n", true, || T::Seq(vec![])),
        b("? a\n", false, || m("a", T::Null)),
    ]
}

fn compare(cx: &mut Cx, how: &str, text: &str, got: Vec<Result<T, String>>, want: &[T]) {
    cx.step(got.len() + 1);
    let ok = got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.as_ref().is_ok_and(|g| g.same(w)));
    if ok {
        cx.trace();
    } else {
        cx.fail(
            format!("{how} {text:?}"),
            format!("{how}: {text:?}: expected {} documents {want:?}, got {got:?}", want.len()),
        );
    }
}

fn read(d: Deserializer, n: usize) -> Vec<Result<T, String>> {
    d.take(n + 3)
        .map(|d| Value::deserialize(d).map(|v| T::of(&v)).map_err(|e| e.to_string()))
        .collect()
}

/// Everything a reader can do with a stream whose documents are known.
fn check_stream(cx: &mut Cx, text: &str, want: &[T]) {
    compare(cx, "str documents", text, read(Deserializer::from_str(text), want.len()), want);
    compare(cx, "slice documents", text, read(Deserializer::from_slice(text.as_bytes()), want.len()), want);
    compare(cx, "reader documents", text, read(Deserializer::from_reader(text.as_bytes()), want.len()), want);
    // reading only every other document, ignoring or dropping the rest, changes nothing
    for odd in [0, 1] {
        for ignore in [false, true] {
            let mut got = vec![];
            for (i, d) in Deserializer::from_str(text).enumerate().take(want.len() + 3) {
                if i % 2 == odd {
                    got.push(Value::deserialize(d).map(|v| T::of(&v)).map_err(|e| e.to_string()));
                } else if ignore {
                    if let Err(e) = IgnoredAny::deserialize(d) {
                        got.push(Err(e.to_string()));
                    }
                }
            }
            let part: Vec<T> = want.iter().skip(odd).step_by(2).cloned().collect();
            compare(cx, "every other document", text, got, &part);
        }
    }
    // single-document functions
    let s = serde_yaml::from_str::<Value>(text).map(|v| T::of(&v)).map_err(|e| e.to_string());
    let b = serde_yaml::from_slice::<Value>(text.as_bytes()).map(|v| T::of(&v)).map_err(|e| e.to_string());
    let r = serde_yaml::from_reader::<_, Value>(text.as_bytes()).map(|v| T::of(&v)).map_err(|e| e.to_string());
    let i = serde_yaml::from_str::<IgnoredAny>(text).map(|_| T::Null).map_err(|e| e.to_string());
    cx.step(4);
    let more = "deserializing from YAML containing more than one document is not supported";
    for (how, g) in [("from_str", s), ("from_slice", b), ("from_reader", r), ("ignored", i)] {
        let ok = match &g {
            Ok(v) => want.len() == 1 && (how == "ignored" || v.same(&want[0])),
            Err(e) => want.len() > 1 && e == more,
        };
        if ok {
            cx.trace();
            cx.outcome(if want.len() == 1 { "one document" } else { "more than one document" });
        } else {
            cx.fail(
                format!("{how} {text:?}"),
                format!("{how}: {text:?} has {} documents, got {g:?}", want.len()),
            );
        }
    }
}

const PIECES: &[&str] = &[
    "a", "- ", ": ", "? ", "[", "]", "{", "}", ", ", "\n", "\n ", "&x ", "*x", "!t ", "'", "\"", "|\n", "#", "\n---\n", "\n--- ", "\n...\n", "%YAML 1.1\n", "1", "\t", "--- a\n", "--- [\n",
    "--- *x\n", "--- - a\n", "\u{feff}", "%", "...",
];

/// What the iterator says about a text is what the single-document functions say.
fn any_text(cx: &mut Cx, s: &str, t: &Target) {
    let all: Vec<Out> = Deserializer::from_str(s).take(s.len() + 3).map(t.de).collect();
    cx.step(all.len() + 1);
    let mut why = None;
    for (how, one) in [("from_str", (t.str)(s)), ("from_slice", (t.slice)(s.as_bytes())), ("from_reader", (t.read)(&mut s.as_bytes()))] {
        cx.step(1);
        let ok = match (&all[..], &one) {
            ([], _) => false,
            ([only], one) => only == one,
            // complaining about the first document or about there being more
            ([Out::Ok(_), ..], Out::Err(e, at)) => e == "deserializing from YAML containing more than one document is not supported" && at.is_none(),
            ([Out::Err(f, at), ..], Out::Err(e, bt)) => (e == f && at == bt) || (e == "deserializing from YAML containing more than one document is not supported" && bt.is_none()),
            _ => false,
        };
        cx.outcome(match (&all[..], &one) {
            ([_], Out::Ok(_)) => "any text: one document",
            ([_], _) => "any text: one document refused",
            _ => "any text: more than one document",
        });
        if !ok {
            why = Some(format!("{how} gives {one:?}, the documents are {all:?}"));
        }
    }
    // any one of the documents, the others dropped unread
    if all.len() > 1 {
        for i in 0..all.len() {
            let got = Deserializer::from_str(s).nth(i).map(t.de);
            cx.step(1);
            // an error of the parser is raised by the document it is in, whoever reads it
            if got.as_ref() != Some(&all[i]) {
                why = Some(format!("document {i} of {all:?}, read on its own, gives {got:?}"));
            }
        }
        let n = Deserializer::from_str(s).take(s.len() + 3).count();
        if n != all.len() {
            why = Some(format!("{n} documents when none is read, {} when all are", all.len()));
        }
    }
    match why {
        None => cx.trace(),
        Some(w) => cx.fail(format!("any text {} {s:?}", t.name), format!("{s:?} as {}: {w}", t.name)),
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(family(
        "written",
        "every sequence of at most 3 of 32 values through one serializer: read back, and equal to the texts joined by '---' lines",
        |ch, cx| {
            let vs = values();
            let n = ch.choose(4);
            let list: Vec<T> = (0..n).map(|_| ch.pick(&vs).clone()).collect();
            let mut ser = Serializer::new(vec![]);
            let mut joined = String::new();
            for (i, t) in list.iter().enumerate() {
                let v = t.to_value();
                if let Err(e) = v.serialize(&mut ser) {
                    cx.fail(format!("{list:?}"), format!("serializing {t:?}: {e}"));
                    return;
                }
                if i > 0 {
                    joined.push_str("---\n");
                }
                joined.push_str(&serde_yaml::to_string(&v).unwrap_or_default());
            }
            let text = match ser.into_inner() {
                Ok(b) => String::from_utf8_lossy(&b).into_owned(),
                Err(e) => return cx.fail(format!("{list:?}"), format!("into_inner: {e}")),
            };
            cx.state(&text);
            cx.case = text.clone();
            if list.is_empty() {
                cx.expect(text.is_empty(), || ("empty stream".into(), format!("nothing written, text {text:?}")));
                return;
            }
            check_stream(cx, &text, &list);
            check_stream(cx, &joined, &list);
            cx.sample(|| text);
        },
    ));
    f.push(family(
        "written long",
        "every sequence of 4 to 6 of 8 values through one serializer, with a flush after any",
        |ch, cx| {
            let vs: Vec<T> = [0, 4, 6, 13, 15, 24, 27, 31].iter().map(|&i| values()[i].clone()).collect();
            let n = ch.range(4, cx.tier.pick(5, 6));
            let list: Vec<T> = (0..n).map(|_| ch.pick(&vs).clone()).collect();
            let mut buf = vec![];
            let mut ser = Serializer::new(&mut buf);
            for (i, t) in list.iter().enumerate() {
                let _ = t.to_value().serialize(&mut ser);
                if i % 2 == 1 {
                    let _ = ser.flush();
                }
            }
            drop(ser);
            let text = String::from_utf8(buf).unwrap_or_default();
            cx.state(&text);
            cx.case = text.clone();
            compare(cx, "documents", &text, read(Deserializer::from_str(&text), n), &list);
        },
    ));
    let toks = tier.pick(4, 5);
    f.push(family(
        "any text",
        format!("every sequence of at most {toks} of {} tokens, valid or not x 4 targets: the single-document function answers exactly what the only document answers; leaving documents out changes none of the others", PIECES.len()),
        move |ch, cx| {
            thread_local! {
                static FOUR: Vec<Target> = {
                    let mut t = types::few();
                    t.retain(|t| ["Value", "IgnoredAny", "String", "Vec<Option<String>>"].contains(&t.name));
                    t
                };
            }
            let mut s = String::new();
            for _ in 0..toks {
                let c = ch.choose(PIECES.len() + 1);
                if c == 0 {
                    break;
                }
                s.push_str(PIECES[c - 1]);
            }
            cx.state(&s);
            cx.case.clone_from(&s);
            FOUR.with(|t| t.iter().for_each(|t| any_text(cx, &s, t)));
        },
    ));
    let maxdocs = 3;
    f.push(family(
        "laid out",
        format!("1 to {maxdocs} of 16 documents or empty ones x 5 starts x 5 ends x 4 leads, comments, blank lines and directives between"),
        move |ch, cx| {
            let bs = bodies();
            let n = ch.range(1, maxdocs);
            // the alphabet narrows for later documents
            let mut s = String::new();
            let mut want: Vec<T> = vec![];
            s.push_str(ch.word(if n == 3 { &["", "# c\n"] } else { &["", "\n", "# c\n", "\u{feff}", "\n# c\n\n"] }));
            let mut ended = true; // bare documents and directives allowed
            for i in 0..n {
                let few = n == 3 || (n == 2 && i == 1 && cx.tier == Tier::Quick);
                let start = ch.choose(if few { 4 } else { 6 });
                let explicit_only = !ended;
                let body = if few {
                    let pick = [0usize, 1, 4, 9, 16][ch.choose(5)];
                    bs.get(pick)
                } else {
                    let k = ch.choose(bs.len() + 1);
                    bs.get(k)
                };
                match start {
                    0 => {
                        // bare: this parser takes YAML 1.1 streams, where only the first document may be
                        if i > 0 || body.is_none() {
                            return;
                        }
                    }
                    1 => s.push_str("---\n"),
                    2 => {
                        if !body.is_some_and(|b| b.inline) {
                            return;
                        }
                        s.push_str("--- ");
                    }
                    3 => {
                        if explicit_only {
                            return;
                        }
                        s.push_str("%YAML 1.1\n---\n");
                    }
                    4 => s.push_str("--- # c\n\n"),
                    _ => {
                        if explicit_only {
                            return;
                        }
                        s.push_str("%TAG !e! tag:e,2000:\n%YAML 1.2\n# d\n---\n");
                    }
                }
                match body {
                    Some(b) => {
                        s.push_str(b.text);
                        want.push((b.value)());
                    }
                    None => want.push(T::Null),
                }
                ended = true;
                match ch.choose(if few { 3 } else { 5 }) {
                    0 => ended = false,
                    1 => s.push_str("...\n"),
                    2 => {
                        s.push_str("\n# c\n");
                        ended = false;
                    }
                    3 => s.push_str("... # c\n\n"),
                    _ => s.push_str("...\n...\n"),
                }
            }
            cx.state(&s);
            cx.case = s.clone();
            check_stream(cx, &s, &want);
            cx.sample(|| s);
        },
    ));
    f.push(family("empty streams", "every sequence of at most 4 of blank line, spaces, comment, byte order mark, end marker", |ch, cx| {
        let mut s = String::new();
        for i in 0..4 {
            let c = ch.choose(6);
            if c == 0 {
                break;
            }
            let w = ["", "\n", "  \n", "# c\n", "\u{feff}", "\r\n"][c];
            if c == 4 && i > 0 {
                return;
            }
            s.push_str(w);
        }
        cx.state(&s);
        cx.case = s.clone();
        check_stream(cx, &s, &[T::Null]);
    }));
    f.push(family(
        "anchors",
        "1 to 3 documents that define, redefine, use or ignore an anchor, in 4 separations: known only within its document, the latest definition counts",
        |ch, cx| {
            let n = ch.range(1, 3);
            let mut s = String::new();
            let mut want: Vec<Option<T>> = vec![];
            for i in 0..n {
                let sep = ch.choose(3);
                let inline = if i == 0 {
                    if sep == 1 {
                        s.push_str("---\n");
                    }
                    false
                } else {
                    s.push_str(["---\n", "...\n---\n", "...\n# c\n---\n"][sep]);
                    false
                };
                let _ = inline;
                let k = ch.choose(9);
                let one = T::Int(i as i128 + 1);
                let d = i + 1;
                let (t, w) = match k {
                    0 => (format!("- &x {d}\n- *x\n"), Some(T::Seq(vec![one.clone(), one]))),
                    1 => ("- *x\n".to_owned(), None),
                    2 => (format!("- &x {d}\n- &x b\n- *x\n"), Some(T::Seq(vec![one, st("b"), st("b")]))),
                    3 => (format!("- *x\n- &x {d}\n"), None),
                    4 => (format!("- &y {d}\n- *x\n"), None),
                    5 => (format!("a: &x {{k: {d}}}\nb: *x\n"), Some(T::Map(vec![(st("a"), m("k", one.clone())), (st("b"), m("k", one))]))),
                    6 => (format!("&x a{d}\n"), Some(st(&format!("a{d}")))),
                    7 => (format!("- &x {d}\n- &y *x\n"), None),
                    _ => (format!("- &x {d}\n- [*x, &x [*x]]\n- *x\n"), {
                        let l = T::Seq(vec![one.clone()]);
                        // the inner alias stands inside the node that redefines the anchor
                        let _ = l;
                        None
                    }),
                };
                s.push_str(&t);
                want.push(w);
            }
            cx.state(&s);
            cx.case = s.clone();
            let mut i = 0;
            for d in Deserializer::from_str(&s).take(n + 2) {
                let g = Value::deserialize(d).map(|v| T::of(&v)).map_err(|e| e.to_string());
                cx.step(1);
                let ok = match (&g, want.get(i)) {
                    (Ok(g), Some(Some(w))) => g.same(w),
                    (Err(_), Some(None)) => true,
                    _ => false,
                };
                if !ok {
                    cx.fail(format!("anchors {s:?} {i}"), format!("{s:?}: document {i}: expected {:?}, got {g:?}", want.get(i)));
                    return;
                }
                i += 1;
                if g.is_err() {
                    cx.outcome("unknown anchor");
                    cx.trace();
                    return;
                }
            }
            if i == n {
                cx.trace();
                cx.outcome("all documents");
            } else {
                cx.fail(format!("anchors {s:?}"), format!("{s:?}: {i} documents, expected {n}"));
            }
        },
    ));
    f.push(family(
        "iterator protocol",
        "a partly consumed iterator refuses to be read as one document; a document yields no further documents; sizes stay consistent",
        |ch, cx| {
            let n = ch.range(0, 4);
            let taken = ch.range(1, 5);
            let text: String = (0..n).map(|i| format!("--- {i}\n")).collect();
            cx.state(&(n, taken));
            cx.case = format!("{text:?} taken {taken}");
            let docs = n.max(1);
            let mut d = Deserializer::from_str(&text);
            let mut ok = true;
            for i in 0..taken {
                match d.next() {
                    Some(mut doc) => {
                        ok &= i < docs;
                        ok &= doc.next().is_none();
                        let v = Value::deserialize(doc);
                        ok &= v.is_ok_and(|v| if n == 0 { v.is_null() } else { v == i });
                    }
                    None => ok &= i >= docs,
                }
                cx.step(1);
            }
            ok &= Value::deserialize(d).is_err();
            let case = cx.case.clone();
            if ok {
                cx.trace()
            } else {
                cx.fail(case.clone(), format!("iterator misbehaved on {case}"))
            }
        },
    ));
    let _ = tier;
    let n = big::sizes(tier);
    f.push(family(
        "many documents",
        format!("{} numbers of documents up to {}, of one kind or two in turn out of 6, written by the serializer or by hand: read, skipped and dropped; an error in the last or the one before", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            let n = (*ch.pick(&n)).max(1);
            let kinds = [("a\n", st("a")), ("- 1\n- b\n", T::Seq(vec![T::Int(1), st("b")])), ("k: &x v\nl: *x\n", T::Map(vec![(st("k"), st("v")), (st("l"), st("v"))])), ("null\n", T::Null), ("{}\n", T::Map(vec![])), ("!t |\n  x\n", tagged("t", st("x\n")))];
            let (a, b) = (ch.pick(&kinds), ch.pick(&kinds));
            let end = ch.choose(4);
            let list: Vec<T> = (0..n).map(|i| [&a.1, &b.1][i % 2].clone()).collect();
            let mut text = String::new();
            match end {
                0 => {
                    let mut ser = Serializer::new(vec![]);
                    for t in &list {
                        let _ = t.to_value().serialize(&mut ser);
                    }
                    text = String::from_utf8(ser.into_inner().unwrap_or_default()).unwrap_or_default();
                }
                _ => {
                    for i in 0..n {
                        text += "---\n";
                        text += [a, b][i % 2].0;
                    }
                }
            }
            cx.case = format!("{n} documents, {:?} and {:?}, end {end}", a.0, b.0);
            cx.state(&cx.case.clone());
            if end < 2 {
                check_stream(cx, &text, &list);
                return;
            }
            // an error behind them: the parser's, or the content's, followed by another document
            text += if end == 2 { "--- [\n" } else { "--- {a: 1, a: 2}\n--- z\n" };
            for way in 0..3 {
                let d = match way {
                    0 => Deserializer::from_str(&text),
                    1 => Deserializer::from_slice(text.as_bytes()),
                    _ => Deserializer::from_reader(text.as_bytes()),
                };
                let got: Vec<_> = d.take(n + 4).map(|d| Value::deserialize(d).map(|v| T::of(&v)).map_err(|e| e.to_string())).collect();
                cx.step(got.len());
                let more = if end == 2 { 1 } else { 2 };
                let fine = got.len() == n + more
                    && got.iter().zip(&list).all(|(g, w)| g.as_ref().is_ok_and(|g| g.same(w)))
                    && got[n].is_err()
                    && (end == 2 || got[n + 1].as_ref().is_ok_and(|g| g.same(&st("z"))));
                let case = cx.case.clone();
                cx.expect(fine, || (format!("{case} {way}"), format!("{case}, way {way}: {} documents, the last {:?}", got.len(), got.last())));
            }
        },
    ));
    f
}

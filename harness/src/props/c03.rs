//! C03: plain scalars resolve exactly by the documented grammar.

use crate::explore::*;
use crate::resolve::{self, Int, R};
use crate::tree::*;
use serde::de::DeserializeOwned;
use serde_yaml::Value;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

#[derive(Clone, Debug)]
enum Out {
    I(Int),
    F(f64),
    B(bool),
    Unit,
    S(String),
}

impl Out {
    fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::I(a), Out::I(b)) => a.mag == b.mag && (a.neg == b.neg || a.mag == 0),
            (Out::F(a), Out::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Out::B(a), Out::B(b)) => a == b,
            (Out::Unit, Out::Unit) => true,
            (Out::S(a), Out::S(b)) => a == b,
            _ => false,
        }
    }
}

fn i(v: i128) -> Out {
    Out::I(Int {
        neg: v < 0,
        mag: v.unsigned_abs(),
    })
}
fn u(v: u128) -> Out {
    Out::I(Int { neg: false, mag: v })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    Signed(i128, u128),
    Unsigned(u128),
    F64,
    F32,
    Bool,
    Unit,
    Str,
    OptI64,
    OptBool,
    OptF64,
    OptStr,
    Char,
}

type Get = fn(&str) -> Result<Out, String>;
type GetV = fn(&Value) -> Result<Out, String>;

fn get<T: DeserializeOwned>(s: &str, f: fn(T) -> Out) -> Result<Out, String> {
    serde_yaml::from_str::<T>(s).map(f).map_err(|e| e.to_string())
}
fn getv<T: DeserializeOwned>(v: &Value, f: fn(T) -> Out) -> Result<Out, String> {
    let a = T::deserialize(v).map(f).map_err(|e| e.to_string());
    let b = serde_yaml::from_value::<T>(v.clone())
        .map(f)
        .map_err(|e| e.to_string());
    match (&a, &b) {
        (Ok(x), Ok(y)) if x.same(y) => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("DISAGREE borrowed {a:?} owned {b:?}")),
    }
    a
}

macro_rules! panel {
    ($($t:ty, $ty:expr, $conv:expr;)*) => {
        vec![$((stringify!($t), $ty, (|s: &str| get::<$t>(s, $conv)) as Get, (|v: &Value| getv::<$t>(v, $conv)) as GetV)),*]
    };
}

fn panel() -> Vec<(&'static str, Ty, Get, GetV)> {
    panel![
        i8, Ty::Signed(i8::MIN as i128, i8::MAX as u128), |v| i(v as i128);
        i16, Ty::Signed(i16::MIN as i128, i16::MAX as u128), |v| i(v as i128);
        i32, Ty::Signed(i32::MIN as i128, i32::MAX as u128), |v| i(v as i128);
        i64, Ty::Signed(i64::MIN as i128, i64::MAX as u128), |v| i(v as i128);
        i128, Ty::Signed(i128::MIN, i128::MAX as u128), |v| i(v);
        u8, Ty::Unsigned(u8::MAX as u128), |v| u(v as u128);
        u16, Ty::Unsigned(u16::MAX as u128), |v| u(v as u128);
        u32, Ty::Unsigned(u32::MAX as u128), |v| u(v as u128);
        u64, Ty::Unsigned(u64::MAX as u128), |v| u(v as u128);
        u128, Ty::Unsigned(u128::MAX), |v| u(v);
        f64, Ty::F64, |v| Out::F(v);
        f32, Ty::F32, |v| Out::F(v as f64);
        bool, Ty::Bool, |v| Out::B(v);
        (), Ty::Unit, |_| Out::Unit;
        String, Ty::Str, |v| Out::S(v);
        Option<i64>, Ty::OptI64, |v: Option<i64>| v.map_or(Out::Unit, |v| i(v as i128));
        Option<bool>, Ty::OptBool, |v: Option<bool>| v.map_or(Out::Unit, Out::B);
        Option<f64>, Ty::OptF64, |v: Option<f64>| v.map_or(Out::Unit, Out::F);
        Option<String>, Ty::OptStr, |v: Option<String>| v.map_or(Out::Unit, Out::S);
        char, Ty::Char, |v: char| Out::S(v.to_string());
    ]
}

/// What a target type gets from the text of a scalar, reading directly. None: an error.
fn want(ty: Ty, s: &str, style: Style, tag: Option<&str>) -> Option<Out> {
    // tag: the core schema suffix (int, str, ...), see `core`
    let literal = |name| style == Style::Plain || (style == Style::Literal && tag == Some(name));
    let some = |ty| -> Option<Out> {
        // Option: null and empty plain scalars and what is tagged !!null are None, everything
        // else is the inner type
        match tag {
            Some("null") => return resolve_null(s).then_some(Out::Unit),
            None if style == Style::Plain && resolve::null(s) => return Some(Out::Unit),
            _ => {}
        }
        want(ty, s, style, tag)
    };
    match ty {
        Ty::Signed(min, max) => literal("int")
            .then(|| resolve::int(s).and_then(|v| v.fits(min, max)).map(Out::I))
            .flatten(),
        Ty::Unsigned(max) => literal("int")
            .then(|| {
                resolve::int(s)
                    .filter(|_| !s.starts_with('-'))
                    .and_then(|v| v.fits(0, max))
                    .map(Out::I)
            })
            .flatten(),
        Ty::F64 => literal("float").then(|| resolve::float(s).map(Out::F)).flatten(),
        Ty::F32 => literal("float")
            .then(|| resolve::float(s).map(|f| Out::F(f as f32 as f64)))
            .flatten(),
        Ty::Bool => literal("bool").then(|| resolve::boolean(s).map(Out::B)).flatten(),
        Ty::Unit => {
            let ok = style == Style::Plain
                && match tag {
                    None => resolve::null(s),
                    Some(t) => t == "null" && resolve_null(s),
                };
            ok.then_some(Out::Unit)
        }
        Ty::Str => Some(Out::S(s.to_owned())),
        Ty::Char => (s.chars().count() == 1).then(|| Out::S(s.to_owned())),
        Ty::OptI64 => some(Ty::Signed(i64::MIN as i128, i64::MAX as u128)),
        Ty::OptBool => some(Ty::Bool),
        Ty::OptF64 => some(Ty::F64),
        Ty::OptStr => some(Ty::Str),
    }
}

fn resolve_null(s: &str) -> bool {
    !s.is_empty() && resolve::null(s)
}

/// What an untyped reader sees. Err: an error.
fn want_value(s: &str, style: Style, tag: Option<&str>) -> Result<T, ()> {
    let of_int = |v: Int| {
        v.fits(i64::MIN as i128, u64::MAX as u128)
            .map(|v| T::Int(v.as_i128().expect("64 bit")))
            .ok_or(())
    };
    match tag {
        Some("bool") => resolve::boolean(s).map(T::Bool).ok_or(()),
        Some("int") => resolve::int(s).ok_or(()).and_then(of_int),
        Some("float") => resolve::float(s).map(T::Float).ok_or(()),
        Some("null") => resolve_null(s).then_some(T::Null).ok_or(()),
        Some(_) => Ok(st(s)),
        None if style != Style::Plain => Ok(st(s)),
        None => match resolve::plain(s) {
            R::Null => Ok(T::Null),
            R::Bool(b) => Ok(T::Bool(b)),
            R::Int(v) => of_int(v),
            R::Float(f) => Ok(T::Float(f)),
            R::Str => Ok(st(s)),
        },
    }
}

/// What a target type gets from a Value.
fn want_from_value(ty: Ty, v: &T) -> Option<Out> {
    let opt = |ty| match v {
        T::Null => Some(Out::Unit),
        v => want_from_value(ty, v),
    };
    match (ty, v) {
        (Ty::Signed(min, max), T::Int(n)) => Int {
            neg: *n < 0,
            mag: n.unsigned_abs(),
        }
        .fits(min, max)
        .map(Out::I),
        (Ty::Unsigned(max), T::Int(n)) => Int {
            neg: *n < 0,
            mag: n.unsigned_abs(),
        }
        .fits(0, max)
        .map(Out::I),
        (Ty::F64, T::Int(n)) => Some(Out::F(*n as f64)),
        (Ty::F64, T::Float(f)) => Some(Out::F(*f)),
        (Ty::F32, T::Int(n)) => Some(Out::F(*n as f32 as f64)),
        (Ty::F32, T::Float(f)) => Some(Out::F(*f as f32 as f64)),
        (Ty::Bool, T::Bool(b)) => Some(Out::B(*b)),
        (Ty::Unit, T::Null) => Some(Out::Unit),
        (Ty::Str, T::Str(s)) => Some(Out::S(s.clone())),
        (Ty::Char, T::Str(s)) if s.chars().count() == 1 => Some(Out::S(s.clone())),
        (Ty::OptI64, _) => opt(Ty::Signed(i64::MIN as i128, i64::MAX as u128)),
        (Ty::OptBool, _) => opt(Ty::Bool),
        (Ty::OptF64, _) => opt(Ty::F64),
        (Ty::OptStr, _) => opt(Ty::Str),
        _ => None,
    }
}

struct Panel(Vec<(&'static str, Ty, Get, GetV)>);

impl Panel {
    fn check(&self, cx: &mut Cx, doc: &str, s: &str, style: Style, tag: Option<&str>) {
        cx.case.clear();
        cx.case.push_str(doc);
        let got = serde_yaml::from_str::<Value>(doc);
        let expect = want_value(s, style, tag);
        cx.step(1);
        match (&got, &expect) {
            (Ok(v), Ok(t)) if T::of(v).same(t) => {
                cx.trace();
                cx.outcome(match t {
                    T::Null => "null",
                    T::Bool(_) => "bool",
                    T::Int(_) => "int",
                    T::Float(_) => "float",
                    _ => "string",
                });
            }
            (Err(_), Err(())) => {
                cx.trace();
                cx.outcome("refused");
            }
            _ => cx.fail(
                format!("Value {doc:?}"),
                format!("{doc:?} as Value: expected {expect:?}, got {:?}", got.as_ref().map(T::of).map_err(|e| e.to_string())),
            ),
        }
        for (name, ty, get, getv) in &self.0 {
            let g = get(doc);
            let w = want(*ty, s, style, tag);
            cx.step(1);
            let ok = match (&g, &w) {
                (Ok(a), Some(b)) => a.same(b),
                (Err(_), None) => true,
                _ => false,
            };
            if !ok {
                cx.fail(
                    format!("{name} {doc:?}"),
                    format!("{doc:?} as {name}: expected {w:?}, got {g:?}"),
                );
            } else {
                cx.trace();
            }
            if let Ok(v) = &got {
                let t = T::of(v);
                let g = getv(v);
                let w = want_from_value(*ty, &t);
                let ok = match (&g, &w) {
                    (Ok(a), Some(b)) => a.same(b),
                    (Err(e), None) => !e.starts_with("DISAGREE"),
                    _ => false,
                };
                if !ok {
                    cx.fail(
                        format!("{name} from Value {doc:?}"),
                        format!("Value {t:?} as {name}: expected {w:?}, got {g:?}"),
                    );
                } else {
                    cx.trace();
                }
            }
        }
        cx.sample(|| format!("{doc:?} -> {expect:?}"));
    }
}

fn plain_doc(s: &str) -> String {
    format!("--- {s}\n")
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    fn excluded(s: &str) -> bool {
        // not plain scalars in this context
        s == "-" || s == "?" || s == ":" || s.ends_with(':')
    }
    f.push(family(
        "boundaries",
        "every width (8..128), both signedness limits and powers of two and ten, offsets -3..3, x radix x digit case x sign x 0..2 leading zeros",
        |ch, cx| {
            let p = Panel(panel());
            let mut base: Vec<u128> = vec![0, 10];
            for b in [7u32, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127] {
                base.push(1u128 << b);
            }
            base.push(u128::MAX - 3);
            for e in 1..38 {
                base.push(10u128.pow(e));
            }
            let b = *ch.pick(&base);
            let off = ch.range(0, 6);
            let m = if off <= 3 { b.wrapping_add(off as u128) } else { b.saturating_sub(off as u128 - 3) };
            let sign = ch.word(&["", "+", "-"]);
            let zeros = ch.word(&["", "0", "00"]);
            for k in 0..6 {
                let body = match k {
                    0 => format!("{zeros}{m}"),
                    1 => format!("0x{zeros}{m:x}"),
                    2 => format!("0x{zeros}{m:X}"),
                    3 => format!("0o{zeros}{m:o}"),
                    4 => format!("0b{zeros}{m:b}"),
                    _ => format!("{zeros}{m}.0"),
                };
                let s = format!("{sign}{body}");
                cx.state(&s);
                p.check(cx, &plain_doc(&s), &s, Style::Plain, None);
            }
        },
    ));
    f.push(family(
        "numeric",
        format!("every string of at most {} characters over 14 number characters", tier.pick(5, 6)),
        move |ch, cx| {
            let cs = ['0', '1', '-', '+', '.', 'e', 'x', 'o', 'b', '9', '_', 'F', '8', 'E'];
            let mut s = String::new();
            for _ in 0..cx.tier.pick(5, 6) {
                let c = ch.choose(cs.len() + 1);
                if c == 0 {
                    break;
                }
                s.push(cs[c - 1]);
            }
            if excluded(&s) {
                return;
            }
            let p = Panel(panel());
            cx.state(&s);
            p.check(cx, &plain_doc(&s), &s, Style::Plain, None);
        },
    ));
    f.push(family(
        "ascii",
        "every string of at most 3 characters over 68 characters that are plain anywhere",
        move |ch, cx| {
            let cs: Vec<char> = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGILNORSTUXY+-._~=/<$^();é"
                .chars()
                .collect();
            let mut s = String::new();
            for _ in 0..3 {
                let c = ch.choose(cs.len() + 1);
                if c == 0 {
                    break;
                }
                s.push(cs[c - 1]);
            }
            if excluded(&s) {
                return;
            }
            let p = Panel(panel());
            cx.state(&s);
            p.check(cx, &plain_doc(&s), &s, Style::Plain, None);
        },
    ));
    f.push(family(
        "keywords",
        "every upper/lower-case spelling of the keywords, with every prefix and suffix of an alphabet",
        |ch, cx| {
            let w = ch.word(&["true", "false", "null", "inf", "nan", "yes", "no", "on", "off", "y", "infinity", "tru", "nul"]);
            let mut s = ch.word(&["", ".", "+.", "-.", "+", "-", "--.", "+-.", "-+.", "++.", "0", "~", "1"]).to_owned();
            for c in w.chars() {
                s.push(if ch.flag() { c.to_ascii_uppercase() } else { c });
            }
            s.push_str(ch.word(&["", ".", "1", "e", "~", "é"]));
            let p = Panel(panel());
            cx.state(&s);
            p.check(cx, &plain_doc(&s), &s, Style::Plain, None);
        },
    ));
    f.push(family(
        "long",
        "sign x prefix x repeated digit of every length up to 140 and 300..330 x fraction x exponent",
        |ch, cx| {
            let sign = ch.word(&["", "+", "-"]);
            let pre = ch.word(&["", "0x", "0o", "0b", "0", ".", "0.", "0xF", "1"]);
            let d = ch.word(&["0", "1", "7", "9"]);
            let suf = ch.word(&["", ".5", "e5", "e-400", "e400", "."]);
            let p = Panel(panel());
            for n in (1..=140).chain(300..=330) {
                let s = format!("{sign}{pre}{}{suf}", d.repeat(n));
                cx.state(&s);
                p.check(cx, &plain_doc(&s), &s, Style::Plain, None);
            }
        },
    ));
    f.push(family(
        "exponents",
        "mantissas x every exponent from -420 to 420 x exponent spelling x sign",
        |ch, cx| {
            let sign = ch.word(&["", "+", "-"]);
            let mant = ch.word(&["0", "1", "1.", ".1", "1.5", "17976931348623157", "1.7976931348623157", "1.7976931348623159", "4.9", "2.4", "2.5", "9.999999999999999999999", "00", "01"]);
            let e = ch.word(&["e", "E"]);
            let es = ch.word(&["", "+", "-"]);
            let p = Panel(panel());
            for n in (0..=30).chain(280..=345) {
                let s = format!("{sign}{mant}{e}{es}{n}");
                cx.state(&s);
                p.check(cx, &plain_doc(&s), &s, Style::Plain, None);
            }
        },
    ));
    f.push(family(
        "styles and core tags",
        "31 words x 5 scalar styles x no tag, each core schema tag (short and verbatim) or an unknown one",
        |ch, cx| {
            let words = [
                "", "~", "null", "Null", "true", "FALSE", "0", "5", "-5", "+5", "-0", "0x1F", "-0b1", "0o17", "010", "1.5", "-1e3", ".inf", "-.inf", ".nan", "a",
                "é", "128", "256", "65536", "4294967296", "9223372036854775808", "-9223372036854775809", "18446744073709551616",
                "340282366920938463463374607431768211456", "yes", "a b",
            ];
            let s = ch.word(&words);
            let style = *ch.pick(&[Style::Plain, Style::Single, Style::Double, Style::Literal, Style::Folded]);
            let tag = *ch.pick(&[None, Some("int"), Some("float"), Some("bool"), Some("null"), Some("str"), Some("foo")]);
            let verbatim = ch.flag();
            if verbatim && tag.is_none() {
                return;
            }
            let tagtext = match tag {
                None => String::new(),
                Some(t) if verbatim => format!("!<tag:yaml.org,2002:{t}> "),
                Some(t) => format!("!!{t} "),
            };
            let doc = match style {
                Style::Plain => format!("--- {tagtext}{s}\n"),
                Style::Single => format!("--- {tagtext}'{s}'\n"),
                Style::Double => format!("--- {tagtext}\"{s}\"\n"),
                Style::Literal => format!("--- {tagtext}|-\n {s}\n"),
                Style::Folded => format!("--- {tagtext}>-\n {s}\n"),
            };
            if s.is_empty() && matches!(style, Style::Literal | Style::Folded) {
                return;
            }
            let p = Panel(panel());
            cx.state(&doc);
            p.check(cx, &doc, s, style, tag);
        },
    ));
    f.push(family(
        "positions",
        "every numeric string of at most 3 characters, and the keywords, as element, key, value, tagged payload and flow item, alone and beside one another",
        |ch, cx| {
            let cs = ['0', '1', '-', '+', '.', 'e', 'x', '~', 'F', '9'];
            let mut s = String::new();
            if ch.flag() {
                s.push_str(ch.word(&["null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", "-.INF", ".nan", "nuLL", "yes", "010", "0x1F", "0o17", "0b11", "-0b1", "18446744073709551615", "-9223372036854775808"]));
            } else {
                s.push(*ch.pick(&cs));
                for _ in 0..2 {
                    let c = ch.choose(cs.len() + 1);
                    if c == 0 {
                        break;
                    }
                    s.push(cs[c - 1]);
                }
            }
            if excluded(&s) || s == "---" || s == "..." {
                return;
            }
            let Ok(w) = want_value(&s, Style::Plain, None) else { return };
            let k = ch.choose(9);
            let m = |k: T, v: T| T::Map(vec![(k, v)]);
            let (doc, want) = match k {
                0 => (format!("- {s}\n- {s}\n"), T::Seq(vec![w.clone(), w.clone()])),
                1 => (format!("{s}: {s}\n"), m(w.clone(), w.clone())),
                2 => (format!("[{s}, {s}]\n"), T::Seq(vec![w.clone(), w.clone()])),
                3 => (format!("{{{s}: {s}}}\n"), m(w.clone(), w.clone())),
                4 => (format!("!t {s}\n"), tagged("t", w.clone())),
                5 => (format!("? {s}\n: - {s} # c\n"), m(w.clone(), T::Seq(vec![w.clone()]))),
                6 => (format!("- - {s}\n- a: {s}\n"), T::Seq(vec![T::Seq(vec![w.clone()]), m(st("a"), w.clone())])),
                7 => (format!("- &a {s}\n- *a\n"), T::Seq(vec![w.clone(), w.clone()])),
                _ => (format!("{s}\n"), w.clone()),
            };
            cx.state(&doc);
            cx.step(1);
            match serde_yaml::from_str::<Value>(&doc) {
                Ok(v) if T::of(&v).same(&want) => cx.trace(),
                r => cx.fail(
                    format!("Value {doc:?}"),
                    format!("{doc:?}: expected {want:?}, got {:?}", r.map(|v| T::of(&v)).map_err(|e| e.to_string())),
                ),
            }
        },
    ));
    f
}

//! C04: numbers keep their exact value through text, Value and Number.

use crate::explore::*;
use crate::tree::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Number, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

fn std_hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn through_text<T>(cx: &mut Cx, name: &str, x: T, same: fn(&T, &T) -> bool)
where
    T: Serialize + DeserializeOwned + Debug + Copy,
{
    let text = match serde_yaml::to_string(&x) {
        Ok(t) => t,
        Err(e) => return cx.fail(format!("{name} {x:?}"), format!("to_string({x:?}{name}): {e}")),
    };
    cx.step(2);
    match serde_yaml::from_str::<T>(&text) {
        Ok(y) if same(&x, &y) => cx.trace(),
        r => cx.fail(format!("{name} {x:?}"), format!("{x:?}{name} wrote {text:?} and read back {r:?}")),
    }
}

fn through_value<T>(cx: &mut Cx, name: &str, x: T, want: &T2, same: fn(&T, &T) -> bool)
where
    T: Serialize + DeserializeOwned + Debug + Copy,
{
    cx.step(4);
    let v = match serde_yaml::to_value(x) {
        Ok(v) => v,
        Err(e) => return cx.fail(format!("{name} {x:?} to_value"), format!("to_value({x:?}{name}): {e}")),
    };
    if !want.is(&v) {
        cx.fail(format!("{name} {x:?} to_value"), format!("to_value({x:?}{name}) = {v:?}"));
    }
    let a = serde_yaml::from_value::<T>(v.clone());
    let b = T::deserialize(&v);
    for r in [a, b] {
        match r {
            Ok(y) if same(&x, &y) => cx.trace(),
            r => cx.fail(format!("{name} {x:?} from_value"), format!("{v:?} read back as {name}: {r:?}, expected {x:?}")),
        }
    }
    number(cx, &v, want);
}

/// The mathematical content of a Value number.
#[derive(Clone, Copy, Debug)]
pub enum T2 {
    I(i128),
    F(f64),
}
impl T2 {
    fn is(&self, v: &Value) -> bool {
        match self {
            T2::I(i) => T::of(v).same(&T::Int(*i)),
            T2::F(f) => T::of(v).same(&T::Float(*f)),
        }
    }
}

fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Accessors, printing, parsing and text of a Value that should be this number.
fn number(cx: &mut Cx, v: &Value, want: &T2) {
    let Value::Number(n) = v else {
        return cx.fail(format!("{v:?}"), format!("{v:?} is not a number, expected {want:?}"));
    };
    let (i64s, u64s, f64s) = match *want {
        T2::I(i) => (i64::try_from(i).ok(), u64::try_from(i).ok(), i as f64),
        T2::F(f) => (None, None, f),
    };
    let is_f = matches!(want, T2::F(_));
    let tagged = Value::Tagged(Box::new(TaggedValue {
        tag: Tag::new("t"),
        value: v.clone(),
    }));
    let mut bad = vec![];
    let mut chk = |ok: bool, what: &'static str| {
        if !ok {
            bad.push(what)
        }
    };
    chk(n.is_i64() == i64s.is_some() && n.as_i64() == i64s, "i64");
    chk(n.is_u64() == u64s.is_some() && n.as_u64() == u64s, "u64");
    chk(n.is_f64() == is_f && n.as_f64().is_some_and(|f| feq(f, f64s)), "f64");
    chk(n.is_nan() == (is_f && f64s.is_nan()), "is_nan");
    chk(n.is_infinite() == (is_f && f64s.is_infinite()), "is_infinite");
    chk(n.is_finite() == (!is_f || f64s.is_finite()), "is_finite");
    for v in [v, &tagged] {
        chk(v.is_number(), "is_number");
        chk(v.is_i64() == i64s.is_some() && v.as_i64() == i64s, "Value i64");
        chk(v.is_u64() == u64s.is_some() && v.as_u64() == u64s, "Value u64");
        chk(v.is_f64() == is_f && v.as_f64().is_some_and(|f| feq(f, f64s)), "Value f64");
        chk(!v.is_string() && !v.is_bool() && !v.is_null() && !v.is_sequence() && !v.is_mapping(), "other kinds");
        chk(v.as_str().is_none() && v.as_bool().is_none() && v.as_null().is_none(), "other as_");
    }
    chk(n == &n.clone() && v == &v.clone(), "reflexive");
    chk(n.partial_cmp(n) == Some(Ordering::Equal), "compares equal to itself");
    let shown = n.to_string();
    match shown.parse::<Number>() {
        Ok(m) => {
            chk(
                of_number(&m).same(&of_number(n)) && m == *n && m.is_f64() == n.is_f64() && std_hash(&m) == std_hash(n),
                "printed and parsed",
            );
        }
        Err(_) => chk(false, "print parses"),
    }
    let text = serde_yaml::to_string(v).unwrap_or_default();
    match serde_yaml::from_str::<Value>(&text) {
        Ok(w) => chk(want.is(&w) && w == *v, "text and back"),
        Err(_) => chk(false, "text parses"),
    }
    match serde_yaml::from_str::<Number>(&text) {
        Ok(m) => chk(of_number(&m).same(&of_number(n)), "Number from text"),
        Err(_) => chk(false, "Number from text"),
    }
    // a Number is itself a deserializer
    chk(Number::deserialize(n.clone()).is_ok_and(|m| of_number(&m).same(&of_number(n))), "Number from Number");
    chk(Number::deserialize(n).is_ok_and(|m| of_number(&m).same(&of_number(n))), "Number from &Number");
    chk(f64::deserialize(n).is_ok_and(|f| feq(f, f64s)), "f64 from &Number");
    chk(i64::deserialize(n).ok() == i64s, "i64 from &Number");
    chk(u64::deserialize(n.clone()).ok() == u64s, "u64 from Number");
    chk(shown.trim() == text.trim(), "print is the text");
    cx.step(10);
    if bad.is_empty() {
        cx.trace();
    } else {
        cx.fail(format!("number {want:?}"), format!("{want:?} as {v:?}: wrong {bad:?}; printed {shown:?} text {text:?}"));
    }
}

fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}
fn same64(a: &f64, b: &f64) -> bool {
    feq(*a, *b)
}
fn same32(a: &f32, b: &f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

macro_rules! ints {
    ($cx:expr, $v:expr, $($t:ident)*) => {$(
        if let Ok(x) = <$t>::try_from($v) {
            through_text($cx, stringify!($t), x, eq);
            if i64::try_from(x).is_ok() || u64::try_from(x).is_ok() {
                through_value($cx, stringify!($t), x, &T2::I(x as i128), eq);
            }
        }
    )*};
}
macro_rules! froms {
    ($cx:expr, $v:expr, $($t:ident)*) => {$(
        if let Ok(x) = <$t>::try_from($v) {
            let v = Value::from(x);
            let n = Number::from(x);
            $cx.step(2);
            let ok = T2::I(x as i128).is(&v) && v == Value::Number(n) && v == x && &v == x && &mut v.clone() == x;
            $cx.expect(ok, || (format!("from {x}"), format!("Value/Number from {x}{}: {v:?}", stringify!($t))));
        }
    )*};
}

fn int_u(cx: &mut Cx, v: u128) {
    ints!(cx, v, i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 usize isize);
    froms!(cx, v, i8 i16 i32 i64 u8 u16 u32 u64 usize isize);
    too_big(cx, v);
}
fn int_i(cx: &mut Cx, v: i128) {
    ints!(cx, v, i8 i16 i32 i64 i128 isize);
    froms!(cx, v, i8 i16 i32 i64 isize);
    too_big(cx, v);
}

/// Integers a Number cannot hold are refused when it is asked for, not altered.
fn too_big(cx: &mut Cx, v: impl Display + TryInto<i64> + TryInto<u64> + Copy) {
    let fits = TryInto::<i64>::try_into(v).is_ok() || TryInto::<u64>::try_into(v).is_ok();
    let s = v.to_string();
    let parsed: Result<Number, _> = s.parse();
    let read = serde_yaml::from_str::<Number>(&s);
    let read_v = serde_yaml::from_str::<Value>(&s);
    cx.step(3);
    let ok = |t: T| match t {
        T::Int(i) => i.to_string() == s,
        _ => false,
    };
    let good = if fits {
        parsed.is_ok_and(|n| ok(of_number(&n))) && read.is_ok_and(|n| ok(of_number(&n))) && read_v.is_ok_and(|v| ok(T::of(&v)))
    } else {
        parsed.is_err() && read.is_err() && read_v.is_err()
    };
    cx.expect(good, || (format!("text {s}"), format!("{s} as Number or Value is not exact or refused")));
}

fn float64(cx: &mut Cx, x: f64) {
    through_text(cx, "f64", x, same64);
    through_value(cx, "f64", x, &T2::F(x), same64);
    let v = Value::from(x);
    cx.expect(T2::F(x).is(&v) && (v == x || x.is_nan()), || (format!("from {x}"), format!("Value::from({x}) = {v:?}")));
}

fn float32(cx: &mut Cx, x: f32, full: bool) {
    through_text(cx, "f32", x, same32);
    if full {
        through_value(cx, "f32", x, &T2::F(x as f64), same32);
        // written as f32, read untyped, then narrowed
        let text = serde_yaml::to_string(&x).unwrap_or_default();
        let r = serde_yaml::from_str::<Value>(&text).map(|v| f32::deserialize(v));
        match r {
            Ok(Ok(y)) if same32(&x, &y) => cx.trace(),
            r => cx.fail(format!("f32 {x:?} via Value"), format!("{x:?} wrote {text:?}, via Value {r:?}")),
        }
        let v = Value::from(x);
        cx.expect(T2::F(x as f64).is(&v) && (v == x || x.is_nan()), || (format!("from f32 {x}"), format!("Value::from({x}f32) = {v:?}")));
    }
}

/// Numbers on which comparisons behave differently.
fn vocabulary() -> Vec<T2> {
    let mut v: Vec<T2> = [
        0,
        1,
        -1,
        2,
        127,
        128,
        -128,
        -129,
        255,
        256,
        32767,
        32768,
        65535,
        65536,
        -32769,
        1 << 24,
        (1 << 24) + 1,
        i32::MAX as i128,
        i32::MAX as i128 + 1,
        i32::MIN as i128,
        u32::MAX as i128,
        u32::MAX as i128 + 1,
        1 << 53,
        (1 << 53) + 1,
        -(1 << 53) - 1,
        i64::MAX as i128,
        i64::MAX as i128 + 1,
        i64::MIN as i128,
        i64::MIN as i128 + 1,
        u64::MAX as i128,
        u64::MAX as i128 - 1,
    ]
    .into_iter()
    .map(T2::I)
    .collect();
    v.extend(
        [
            0.0,
            -0.0,
            1.0,
            -1.0,
            1.5,
            0.1,
            0.1f32 as f64,
            127.0,
            128.0,
            255.0,
            256.0,
            16777216.0,
            16777217.0,
            9007199254740992.0,
            9.223372036854775807e18,
            1.8446744073709551615e19,
            -9.223372036854775808e18,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            f32::MAX as f64,
            f32::MIN_POSITIVE as f64,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            -f64::NAN,
        ]
        .map(T2::F),
    );
    v
}

fn to_number(t: T2) -> Number {
    match t {
        T2::I(i) => crate::tree::number(i),
        T2::F(f) => Number::from(f),
    }
}

macro_rules! versus {
    ($cx:expr, $v:expr, $w:expr, $p:expr, $($t:ident)*) => {$(
        if let T2::I(p) = $p {
            if let Ok(x) = <$t>::try_from(p) {
                let want = matches!($w, Some(T2::I(n)) if n == p);
                let got = ($v == x, &$v == x, &mut $v.clone() == x);
                $cx.step(3);
                if got == (want, want, want) {
                    $cx.trace();
                } else {
                    $cx.fail(format!("{:?} == {x}{}", $v, stringify!($t)), format!("{:?} == {x}{}: got {got:?}, expected {want}", $v, stringify!($t)));
                }
            }
        }
    )*};
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    f.push(family(
        "16 bit",
        "every integer from -65536 to 65536, as each of 12 integer types it fits",
        |ch, cx| {
            let neg = ch.flag();
            let hi = ch.choose(257);
            for lo in 0..256u32 {
                let m = ((hi as u32) << 8) + lo;
                if m > 65536 {
                    break;
                }
                cx.state(&(neg, m));
                if neg {
                    int_i(cx, -(m as i128));
                } else {
                    int_u(cx, m as u128);
                }
            }
        },
    ));
    f.push(family(
        "bit lattice",
        format!("every sum or difference of {} powers of two up to 2^127, offset -2..2, both signs, as each integer type it fits", tier.pick(2, 3)),
        move |ch, cx| {
            let a = ch.choose(129);
            let b = ch.choose(a.max(1));
            let c = if tier == Tier::Thorough { ch.choose(b.max(1)) } else { 0 };
            let pow = |k: usize| if k == 128 { 0 } else { 1u128 << k };
            let minus = ch.flag();
            let base = if minus { pow(a).wrapping_sub(pow(b)) } else { pow(a).wrapping_add(pow(b)) };
            for third in [0, pow(c)] {
                if third != 0 && tier == Tier::Quick {
                    continue;
                }
                for off in 0..5u128 {
                    let m = base.wrapping_add(third).wrapping_add(off).wrapping_sub(2);
                    if cx.state(&m) {
                        int_u(cx, m);
                        if m <= 1 << 127 {
                            int_i(cx, (m as i128).wrapping_neg());
                        }
                    }
                }
            }
        },
    ));
    f.push(family(
        "decimal shapes",
        "every d1 x 10^e1 + d2 x 10^e2 + d3 with d in 0..9, e up to 38, both signs",
        |ch, cx| {
            let e1 = ch.choose(39);
            let d1 = ch.range(1, 9) as u128;
            let e2 = ch.choose(e1.max(1));
            let Some(a) = d1.checked_mul(10u128.pow(e1 as u32)) else { return };
            for d2 in [0u128, 1, 9] {
                for d3 in [0u128, 1, 9] {
                    let Some(m) = a.checked_add(d2 * 10u128.pow(e2 as u32)).and_then(|m| m.checked_add(d3)) else { continue };
                    if cx.state(&m) {
                        int_u(cx, m);
                        if m <= 1 << 127 {
                            int_i(cx, (m as i128).wrapping_neg());
                        }
                    }
                }
            }
        },
    ));
    f.push(family(
        "f64 lattice",
        "both signs x all 2048 exponents x mantissas with at most two bits set or clear, every 6-bit leading pattern with zero, one and full tails",
        |ch, cx| {
            let sign = ch.choose(2) as u64;
            let exp = ch.choose(2048) as u64;
            let kind = ch.choose(3);
            let full = (1u64 << 52) - 1;
            let mut ms: Vec<u64> = vec![];
            match kind {
                0 => {
                    let a = ch.choose(53);
                    for b in 0..=a {
                        if ch_skip(a, b, exp) {
                            continue;
                        }
                        let m = (if a == 52 { 0 } else { 1u64 << a }) | (if b == 52 { 0 } else { 1u64 << b });
                        ms.push(m);
                        ms.push(full ^ m);
                    }
                }
                1 => {
                    for hi in 0..64u64 {
                        for tail in [0, 1, (1 << 46) - 1, 1 << 45, 0x1555_5555_5555] {
                            ms.push(hi << 46 | tail);
                        }
                    }
                }
                _ => {
                    // neighbours of the ends of the binade
                    for d in 0..8 {
                        ms.push(d);
                        ms.push(full - d);
                    }
                }
            }
            for m in ms {
                let bits = sign << 63 | exp << 52 | m;
                cx.state(&bits);
                float64(cx, f64::from_bits(bits));
            }
        },
    ));
    f.push(family(
        "f64 decimals",
        "every one to three digit mantissa x every decimal exponent from -345 to 310, and its two neighbours",
        |ch, cx| {
            let e = ch.choose(656) as i32 - 345;
            let d = ch.range(1, 99);
            for d in if d < 10 { d * 10..d * 10 + 10 } else { d * 10..d * 10 + 10 } {
                let x: f64 = format!("{d}e{e}").parse().expect("float");
                for x in [x, f64::from_bits(x.to_bits().saturating_sub(1)), f64::from_bits(x.to_bits() + 1)] {
                    if x.is_finite() {
                        cx.state(&x.to_bits());
                        through_text(cx, "f64", x, same64);
                        through_value(cx, "f64", x, &T2::F(x), same64);
                    }
                }
            }
        },
    ));
    let low: Vec<u32> = if tier == Tier::Quick {
        vec![0]
    } else {
        (0..64).map(|i| i * 8 + (i & 7)).collect()
    };
    let top = tier.pick(13, 14);
    f.push(family(
        "f32",
        format!("both signs x all 256 exponents x every {top}-bit leading mantissa pattern x {} tails, as text; every 64th also through Value", low.len() * tier.pick(2, 1)),
        move |ch, cx| {
            let sign = ch.choose(2) as u32;
            let exp = ch.choose(256) as u32;
            let hi8 = ch.choose(1 << (top - 6)) as u32;
            let rest = 23 - top;
            for mid in 0..64u32 {
                let h = hi8 << 6 | mid;
                let tails: &[u32] = if tier == Tier::Quick { &[0, 1023] } else { &low };
                for &l in tails {
                    let bits = sign << 31 | exp << 23 | h << rest | (l & ((1 << rest) - 1));
                    float32(cx, f32::from_bits(bits), mid == 0 && l == tails[0]);
                }
            }
            cx.state(&(sign, exp, hi8));
        },
    ));
    f.push(family(
        "comparisons",
        "58 numbers, bare, tagged, and non-numbers against every primitive type at 58 values",
        |ch, cx| {
            let voc = vocabulary();
            let k = ch.choose(voc.len() + 6);
            let (v, w) = if k < voc.len() {
                (Value::Number(to_number(voc[k])), Some(voc[k]))
            } else {
                (
                    [Value::Null, Value::Bool(true), Value::from("1"), Value::from(""), Value::Sequence(vec![Value::from(1)]), Value::Mapping(Default::default())]
                        [k - voc.len()]
                    .clone(),
                    None,
                )
            };
            let v = if ch.flag() {
                Value::Tagged(Box::new(TaggedValue {
                    tag: Tag::new("t"),
                    value: v,
                }))
            } else {
                v
            };
            let p = *ch.pick(&voc);
            cx.state(&format!("{v:?} {p:?}"));
            versus!(cx, v, w, p, i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
            let wf = match w {
                Some(T2::I(i)) => Some(i as f64),
                Some(T2::F(f)) => Some(f),
                None => None,
            };
            if let T2::F(p) = p {
                let want = wf == Some(p);
                let got = (v == p, &v == p, &mut v.clone() == p);
                cx.expect(got == (want, want, want), || (format!("{v:?} == {p}f64"), format!("{v:?} == {p}f64: {got:?}, expected {want}")));
                if (p as f32) as f64 == p || p.is_nan() {
                    let q = p as f32;
                    let got = (v == q, &v == q, &mut v.clone() == q);
                    cx.expect(got == (want, want, want), || (format!("{v:?} == {q}f32"), format!("{v:?} == {q}f32: {got:?}, expected {want}")));
                }
                cx.step(6);
            }
        },
    ));
    f.push(family("ordering", "every triple of 58 numbers", |ch, cx| {
        let voc = vocabulary();
        let a = *ch.pick(&voc);
        let b = *ch.pick(&voc);
        let (x, y) = (to_number(a), to_number(b));
        let math = match (a, b) {
            (T2::I(p), T2::I(q)) => Some(p.cmp(&q)),
            (T2::F(p), T2::F(q)) if !p.is_nan() && !q.is_nan() => p.partial_cmp(&q),
            (T2::F(p), T2::F(q)) if p.is_nan() && q.is_nan() => Some(Ordering::Equal),
            _ => None,
        };
        let got = x.partial_cmp(&y);
        cx.state(&(format!("{a:?} {b:?}")));
        cx.step(3);
        let mut ok = (x == y) == (got == Some(Ordering::Equal));
        if math.is_some() {
            ok &= got == math;
        } else {
            ok &= got != Some(Ordering::Equal);
        }
        ok &= y.partial_cmp(&x) == got.map(Ordering::reverse);
        ok &= x != y || std_hash(&x) == std_hash(&y);
        ok &= (Value::Number(x.clone()) == Value::Number(y.clone())) == (x == y);
        if matches!((a, b), (T2::I(_), T2::F(_)) | (T2::F(_), T2::I(_))) {
            ok &= got.is_some();
        }
        for &c in &voc {
            let z = to_number(c);
            let (xy, yz, xz) = (x.partial_cmp(&y), y.partial_cmp(&z), x.partial_cmp(&z));
            let le = |o: Option<Ordering>| matches!(o, Some(Ordering::Less | Ordering::Equal));
            ok &= !(le(xy) && le(yz)) || le(xz) || xz.is_none() && (is_nan(a) || is_nan(c));
            ok &= !(x == y && y == z) || x == z;
        }
        if ok {
            cx.trace();
        } else {
            cx.fail(format!("order {a:?} {b:?}"), format!("{a:?} against {b:?}: eq {}, cmp {got:?}, expected {math:?}", x == y));
        }
    }));
    f
}

fn is_nan(t: T2) -> bool {
    matches!(t, T2::F(f) if f.is_nan())
}

/// Two-bit patterns are thinned away from the special exponents.
fn ch_skip(a: usize, b: usize, exp: u64) -> bool {
    let edge = exp < 3 || exp > 2044 || (1021..1080).contains(&exp);
    !edge && a < 52 && b > 0 && b + 1 != a && b != a
}

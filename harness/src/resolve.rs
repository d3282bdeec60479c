//! Reference resolver for scalars, written from the documentation and the YAML 1.2 core schema,
//! with no code in common with the crate.

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Null,
    Bool(bool),
    Int(Int),
    Float(f64),
    Str,
}

/// Sign and magnitude; a value outside i128::MIN..=u128::MAX is not an Int at all.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Int {
    pub neg: bool,
    pub mag: u128,
}

impl Int {
    pub fn fits(self, min: i128, max: u128) -> Option<Int> {
        let ok = if self.neg && self.mag > 0 {
            self.mag <= min.unsigned_abs()
                && min < 0
        } else {
            self.mag <= max
        };
        ok.then_some(self)
    }
    pub fn as_i128(self) -> Option<i128> {
        if self.neg {
            if self.mag == 1 << 127 {
                Some(i128::MIN)
            } else {
                i128::try_from(self.mag).ok().map(|m| -m)
            }
        } else {
            i128::try_from(self.mag).ok()
        }
    }
}

/// Magnitude of a digit string in a radix, None if it is empty, has other characters, or is too big.
fn magnitude(digits: &str, radix: u32) -> Option<u128> {
    if digits.is_empty() {
        return None;
    }
    let mut m: u128 = 0;
    for c in digits.chars() {
        let d = c.to_digit(radix)?;
        m = m.checked_mul(radix as u128)?.checked_add(d as u128)?;
    }
    Some(m)
}

fn split_sign(s: &str) -> (Option<char>, &str) {
    match s.chars().next() {
        Some(c @ ('+' | '-')) => (Some(c), &s[1..]),
        _ => (None, s),
    }
}

/// Leading zero followed by nothing but digits.
pub fn zero_led(s: &str) -> bool {
    let (_, body) = split_sign(s);
    body.len() > 1 && body.starts_with('0') && body.chars().all(|c| c.is_ascii_digit())
}

pub fn int(s: &str) -> Option<Int> {
    let (sign, body) = split_sign(s);
    let mag = match body.get(..2) {
        Some("0x") => magnitude(&body[2..], 16),
        Some("0o") => magnitude(&body[2..], 8),
        Some("0b") => magnitude(&body[2..], 2),
        _ if zero_led(s) => None,
        _ => magnitude(body, 10),
    }?;
    let neg = sign == Some('-');
    // integers exist between i128::MIN and u128::MAX
    if neg && mag > 1 << 127 {
        return None;
    }
    Some(Int { neg, mag })
}

/// Decimal float syntax: digits with optional point and exponent, at least one mantissa digit.
fn decimal(body: &str) -> bool {
    let (mant, exp) = match body.find(['e', 'E']) {
        Some(i) => (&body[..i], Some(&body[i + 1..])),
        None => (body, None),
    };
    let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit());
    let mant_ok = match mant.split_once('.') {
        Some((a, b)) => digits(a) && digits(b) && !(a.is_empty() && b.is_empty()),
        None => !mant.is_empty() && digits(mant),
    };
    let exp_ok = match exp {
        None => true,
        Some(e) => {
            let (_, e) = split_sign(e);
            !e.is_empty() && digits(e)
        }
    };
    mant_ok && exp_ok
}

pub fn float(s: &str) -> Option<f64> {
    let (sign, body) = split_sign(s);
    let f = match body {
        ".inf" | ".Inf" | ".INF" => f64::INFINITY,
        ".nan" | ".NaN" | ".NAN" if sign.is_none() => return Some(f64::NAN),
        _ if decimal(body) => {
            let f: f64 = body.parse().expect("decimal syntax");
            if !f.is_finite() {
                return None;
            }
            f
        }
        _ => return None,
    };
    Some(if sign == Some('-') { -f } else { f })
}

pub fn null(s: &str) -> bool {
    ["", "~", "null", "Null", "NULL"].contains(&s)
}

pub fn boolean(s: &str) -> Option<bool> {
    match s {
        "true" | "True" | "TRUE" => Some(true),
        "false" | "False" | "FALSE" => Some(false),
        _ => None,
    }
}

/// An untagged plain scalar.
pub fn plain(s: &str) -> R {
    if null(s) {
        R::Null
    } else if let Some(b) = boolean(s) {
        R::Bool(b)
    } else if let Some(i) = int(s) {
        R::Int(i)
    } else if let (false, Some(f)) = (zero_led(s), float(s)) {
        R::Float(f)
    } else {
        R::Str
    }
}

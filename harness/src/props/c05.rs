//! C05: the input source never changes the result.

use crate::corpus;
use crate::explore::*;
use crate::props::c06;
use serde::Deserialize;
use crate::types::{self, Out, Target};
use serde_yaml::Deserializer;
use std::collections::VecDeque;
use std::error::Error as _;
use std::fmt;
use std::io::{self, ErrorKind, Read};

/// A reader that answers exactly as planned.
pub struct Plan<'a> {
    pub data: &'a [u8],
    /// sizes of the successive chunks; when used up, the rest comes in one piece
    pub chunks: VecDeque<usize>,
    /// a chunk size for ever after
    pub uniform: Option<usize>,
    /// answers with Interrupted before reads whose number is in here
    pub interrupts: Vec<usize>,
    pub interrupt_all: bool,
    pub fault_at: Option<(usize, ErrorKind)>,
    reads: usize,
    served: usize,
    last_was_interrupt: bool,
}

#[derive(Debug)]
struct Broken;
#[derive(Debug)]
struct Cause;
impl fmt::Display for Broken {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("disk on fire")
    }
}
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the cause")
    }
}
impl std::error::Error for Broken {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&Cause)
    }
}
impl std::error::Error for Cause {}

impl<'a> Plan<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Plan {
            data,
            chunks: VecDeque::new(),
            uniform: None,
            interrupts: vec![],
            interrupt_all: false,
            fault_at: None,
            reads: 0,
            served: 0,
            last_was_interrupt: false,
        }
    }
}

impl Read for Plan<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.reads;
        self.reads += 1;
        if (self.interrupt_all && !self.last_was_interrupt) || self.interrupts.contains(&n) {
            self.last_was_interrupt = true;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.last_was_interrupt = false;
        if let Some((at, kind)) = self.fault_at {
            if self.served == at {
                return Err(io::Error::new(kind, Broken));
            }
        }
        if buf.is_empty() || self.data.is_empty() {
            return Ok(0);
        }
        let want = match self.chunks.front_mut() {
            Some(c) => *c,
            None => self.uniform.unwrap_or(usize::MAX),
        };
        let mut n = want.min(buf.len()).min(self.data.len());
        if let Some((at, _)) = self.fault_at {
            n = n.min(at - self.served);
        }
        if let Some(c) = self.chunks.front_mut() {
            if n < *c && n < self.data.len() {
                *c -= n;
            } else {
                self.chunks.pop_front();
            }
        }
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.served += n;
        Ok(n)
    }
}

const MAX_DOCS: usize = 12;

fn documents(d: Deserializer, t: &Target) -> Vec<Out> {
    // errors end the comparison: what follows one belongs to C07
    let mut v = vec![];
    for doc in d.take(MAX_DOCS) {
        let o = (t.de)(doc);
        let stop = !o.is_ok();
        v.push(o);
        if stop {
            break;
        }
    }
    v
}

fn check_sources(cx: &mut Cx, bytes: &[u8], targets: &[Target]) {
    let s = std::str::from_utf8(bytes).ok();
    for t in targets {
        let base = (t.slice)(bytes);
        let mut others = vec![("reader", (t.read)(&mut Plan::new(bytes))), ("reader by bytes", (t.read)(&mut uniform(bytes, 1)))];
        others.push(("Deserializer::from_slice", (t.de)(Deserializer::from_slice(bytes))));
        others.push(("Deserializer::from_reader", (t.de)(Deserializer::from_reader(bytes))));
        if let Some(s) = s {
            others.push(("str", (t.str)(s)));
            others.push(("Deserializer::from_str", (t.de)(Deserializer::from_str(s))));
        }
        cx.step(others.len() + 1);
        cx.outcome(if base.is_ok() { "value" } else { "error" });
        for (how, o) in others {
            compare(cx, bytes, t, how, &base, &o);
        }
    }
    let t = &targets[0];
    let base = documents(Deserializer::from_slice(bytes), t);
    let mut others = vec![("documents of reader", documents(Deserializer::from_reader(uniform(bytes, 1)), t))];
    if let Some(s) = s {
        others.push(("documents of str", documents(Deserializer::from_str(s), t)));
    }
    for (how, o) in others {
        if o == base {
            cx.trace();
        } else {
            cx.fail(
                format!("{how} {:?}", show(bytes)),
                format!("{how}: {:?}: slice gives {base:?}, got {o:?}", show(bytes)),
            );
        }
    }
}

pub fn show(bytes: &[u8]) -> String {
    clip(&bytes.escape_ascii().to_string(), 120)
}

fn uniform(bytes: &[u8], n: usize) -> Plan<'_> {
    let mut p = Plan::new(bytes);
    p.uniform = Some(n);
    p
}

fn compare(cx: &mut Cx, bytes: &[u8], t: &Target, how: &str, base: &Out, o: &Out) {
    if o == base {
        cx.trace();
    } else {
        cx.fail(
            format!("{how} {} {:?}", t.name, show(bytes)),
            format!("{how}: {:?} as {}: slice gives {base:?}, got {o:?}", show(bytes), t.name),
        );
    }
}

fn large(k: usize) -> Vec<u8> {
    match k {
        0 => "- é\n".repeat(5000).into_bytes(),
        1 => format!("a: {}\n", "é€x".repeat(3000)).into_bytes(),
        2 => format!("- {}\n- {}\n", "x".repeat(8190), "\u{1F600}".repeat(4100)).into_bytes(),
        3 => (0..3000).map(|i| format!("k{i}: [{i}, é]\n")).collect::<String>().into_bytes(),
        4 => (0..3000).map(|i| format!("---\nk{i}: é\n")).collect::<String>().into_bytes(),
        5 => {
            let mut v = "- é\n".repeat(2048).into_bytes();
            v.extend(b"- \xc3\n");
            v
        }
        6 => format!("{}\n- ]\n", "- é\n".repeat(2048)).into_bytes(),
        _ => format!("# {}\na: |\n{}", "c".repeat(4095), "  lïne\n".repeat(2500)).into_bytes(),
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::PermissionDenied,
];

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let alphabet: &[u8] = b"a1 \n:-[]{},\"'#&*!|?\t%\xc3\xa9\xff\x00\x0d";
    let n = tier.pick(4, 5);
    f.push(family(
        "sources",
        format!("every byte string of at most {n} bytes over 26 bytes x 5 targets x 6 ways in, and as documents"),
        move |ch, cx| {
            let mut b = vec![];
            for _ in 0..n {
                let c = ch.choose(alphabet.len() + 1);
                if c == 0 {
                    break;
                }
                b.push(alphabet[c - 1]);
            }
            cx.state(&b);
            cx.case = show(&b);
            thread_local!(static T: Vec<Target> = {
                let mut t = types::few();
                t.retain(|t| ["Value", "String", "Vec<Option<String>>", "BTreeMap<String, Value>", "i64"].contains(&t.name));
                t
            });
            T.with(|t| check_sources(cx, &b, t));
        },
    ));
    f.push(family("corpus", format!("{} documents and the concatenation of any two x 35 targets x 6 ways in", corpus::all().len()), |ch, cx| {
        let docs = corpus::all();
        let mut b = ch.pick(&docs).clone();
        let j = ch.choose(docs.len() + 1);
        if j > 0 {
            if !b.ends_with(b"\n") {
                b.push(b'\n');
            }
            b.extend(&docs[j - 1]);
        }
        cx.state(&b);
        cx.case = show(&b);
        check_sources(cx, &b, &types::all());
    }));
    f.push(family(
        "chunkings",
        format!(
            "{} documents x every division into chunks (documents up to {} bytes; at most two cuts beyond) x interruptions before none, all, or any one read x 8 targets and the document iterator",
            corpus::all().len(),
            tier.pick(10, 14)
        ),
        move |ch, cx| {
            let docs = corpus::all();
            let b = ch.pick(&docs).clone();
            let mut chunks = VecDeque::new();
            let mut at = 0;
            if b.len() <= tier.pick(10, 14) {
                for i in 1..b.len() {
                    if ch.flag() {
                        chunks.push_back(i - at);
                        at = i;
                    }
                }
            } else {
                let p = ch.choose(b.len());
                let q = ch.choose(b.len() - p);
                if p > 0 {
                    chunks.push_back(p);
                }
                if q > 0 {
                    chunks.push_back(q);
                }
            }
            let reads = chunks.len() + 3;
            let irq = ch.choose(reads + 3);
            let plan = || {
                let mut p = Plan::new(&b);
                p.chunks = chunks.clone();
                if irq == 1 {
                    p.interrupt_all = true;
                } else if irq == 2 {
                    p.interrupts = vec![0, 1, 2];
                } else if irq > 2 {
                    p.interrupts = vec![irq - 3];
                }
                p
            };
            cx.state(&(&b, &chunks, irq));
            cx.case = format!("{} {chunks:?} {irq}", show(&b));
            thread_local!(static T: Vec<Target> = types::few());
            T.with(|ts| {
                for t in ts {
                    let base = (t.slice)(&b);
                    let got = (t.read)(&mut plan());
                    cx.step(reads);
                    cx.outcome(if base.is_ok() { "value" } else { "error" });
                    compare(cx, &b, t, "chunked reader", &base, &got);
                }
                let base = documents(Deserializer::from_slice(&b), &ts[0]);
                let got = documents(Deserializer::from_reader(plan()), &ts[0]);
                if base == got {
                    cx.trace();
                } else {
                    cx.fail(
                        format!("chunked documents {:?}", show(&b)),
                        format!("chunked documents of {:?}: {base:?} against {got:?}", show(&b)),
                    );
                }
            });
            cx.sample(|| format!("{} in chunks {chunks:?}, interrupts {irq}", show(&b)));
        },
    ));
    f.push(family(
        "large",
        "8 documents of 9 to 40 KB x 25 uniform chunk sizes x with and without interruptions, and one cut within 3 bytes of each multiple of 4096",
        |ch, cx| {
            let k = ch.choose(8);
            let b = large(k);
            let t = types::target::<serde_yaml::Value>("Value");
            let mode = ch.choose(2);
            let p = |interrupt| {
                let mut p = Plan::new(&b);
                p.interrupt_all = interrupt;
                p
            };
            let mut plan;
            if mode == 0 {
                let sizes = [
                    1, 2, 3, 5, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 511, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768,
                ];
                plan = p(ch.flag());
                plan.uniform = Some(*ch.pick(&sizes));
            } else {
                plan = p(false);
                let cut = 4096 * ch.range(1, 8) + ch.range(0, 6) - 3;
                plan.chunks.push_back(cut);
                plan.chunks.push_back(ch.range(1, 3));
            }
            cx.state(&(k, plan.uniform, &plan.chunks, plan.interrupt_all));
            cx.case = format!("large {k} {:?} {:?}", plan.uniform, plan.chunks);
            cx.step(2);
            if k == 4 {
                let base = documents(Deserializer::from_slice(&b), &t);
                let got = documents(Deserializer::from_reader(plan), &t);
                let case = cx.case.clone();
                cx.expect(base == got, || (case.clone(), case));
                return;
            }
            let base = (t.slice)(&b);
            let got = (t.read)(&mut plan);
            compare(cx, &b, &t, "large chunked reader", &base, &got);
        },
    ));
    f.push(family(
        "faults",
        format!("{} documents x a fault after every number of bytes x 9 error kinds x byte by byte or at once x 35 targets and the document iterator", corpus::all().len()),
        |ch, cx| {
            let docs = corpus::all();
            let b = ch.pick(&docs).clone();
            let at = ch.choose(b.len() + 1);
            let kind = *ch.pick(KINDS);
            let slow = ch.flag();
            let plan = || {
                let mut p = Plan::new(&b);
                p.fault_at = Some((at, kind));
                p.uniform = slow.then_some(1);
                p
            };
            cx.state(&(&b, at, kind, slow));
            cx.case = format!("{} fault at {at} {kind:?}", show(&b));
            let want = Out::Err("disk on fire".into(), None);
            thread_local!(static T: Vec<Target> = types::all());
            T.with(|ts| {
                for t in ts {
                    let got = (t.read)(&mut plan());
                    cx.step(1);
                    if got == want {
                        cx.trace();
                        cx.outcome("fault reported");
                    } else {
                        cx.fail(
                            format!("fault {} {:?} at {at}", t.name, show(&b)),
                            format!("{:?} as {}: reader failed after {at} bytes, got {got:?}", show(&b), t.name),
                        );
                    }
                }
                for t in &ts[..3] {
                    let got: Vec<Out> = Deserializer::from_reader(plan()).take(1).map(|d| (t.de)(d)).collect();
                    cx.expect(got == [want.clone()], || {
                        (
                            format!("fault documents {} {:?} at {at}", t.name, show(&b)),
                            format!("documents of {:?}: reader failed after {at} bytes, got {got:?}", show(&b)),
                        )
                    });
                    let direct = (t.de)(Deserializer::from_reader(plan()));
                    cx.expect(direct == want, || (format!("fault Deserializer {:?} at {at}", show(&b)), format!("{direct:?}")));
                }
            });
            // the failure itself stays reachable
            let value = <serde_yaml::Value as Deserialize>::deserialize;
            let mut e = vec![
                serde_yaml::from_reader::<_, serde_yaml::Value>(plan()),
                serde_yaml::from_reader::<_, Option<Vec<serde_yaml::Value>>>(plan()).map(|_| serde_yaml::Value::Null),
                value(Deserializer::from_reader(plan())),
            ];
            e.extend(Deserializer::from_reader(plan()).take(1).map(value));
            e.extend(Deserializer::from_reader(plan()).take(1).map(|d| serde::de::IgnoredAny::deserialize(d).map(|_| serde_yaml::Value::Null)));
            for (i, e) in e.iter().enumerate() {
                let cause = match e {
                    Err(e) => e.source().map(|s| s.to_string()),
                    Ok(_) => None,
                };
                cx.expect(cause.as_deref() == Some("the cause"), || {
                    (format!("fault source {i} {:?} at {at}", show(&b)), format!("source of {e:?} is {cause:?}"))
                });
            }
            cx.expect(e.len() == 5, || (format!("fault documents {:?} at {at}", show(&b)), "no first document".to_owned()));
        },
    ));
    f.push(family(
        "error kinds",
        format!("5 documents x a fault after every number of bytes x {} error kinds and the system's own x byte by byte or at once x 6 ways to read", c06::KINDS.len()),
        |ch, cx| {
            let docs: [&[u8]; 5] = [b"", b"a: [1, \xc3\xa9]\n", b"--- x\n--- y\n", b"- ]\n", b"a: 1\n\xff"];
            let b = *ch.pick(&docs);
            let at = ch.choose(b.len() + 1);
            let k = ch.choose(c06::KINDS.len() + 3);
            let slow = ch.flag();
            // no wrapped error at all: of the kind only, of the system, or with a message
            let make = move || match k.checked_sub(c06::KINDS.len()) {
                None => io::Error::from(c06::KINDS[k]),
                Some(0) => io::Error::from_raw_os_error(5),
                Some(1) => io::Error::from_raw_os_error(11),
                _ => io::Error::new(ErrorKind::Other, "EOF while parsing a value"),
            };
            struct Bare<'a, F>(&'a [u8], bool, F);
            impl<F: Fn() -> io::Error> Read for Bare<'_, F> {
                fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    if self.0.is_empty() {
                        return Err((self.2)());
                    }
                    let n = if self.1 { 1 } else { self.0.len() }.min(buf.len());
                    buf[..n].copy_from_slice(&self.0[..n]);
                    self.0 = &self.0[n..];
                    Ok(n)
                }
            }
            cx.state(&(b, at, k, slow));
            cx.case = format!("{} fault at {at} kind {k}", show(b));
            let bare = || Bare(&b[..at], slow, make);
            let want = make().to_string();
            let e = [
                serde_yaml::from_reader::<_, serde_yaml::Value>(bare()).err(),
                serde_yaml::from_reader::<_, serde::de::IgnoredAny>(bare()).err(),
                serde_yaml::from_reader::<_, Vec<String>>(bare()).err(),
                <Option<i8>>::deserialize(Deserializer::from_reader(bare())).err(),
                Deserializer::from_reader(bare()).next().and_then(|d| serde_yaml::Value::deserialize(d).err()),
                serde_yaml::from_reader::<_, serde_yaml::Mapping>(io::BufReader::with_capacity(3, bare())).err(),
            ];
            cx.step(e.len());
            for (i, e) in e.iter().enumerate() {
                if e.as_ref().is_some_and(|e| e.to_string() == want) {
                    cx.trace();
                    cx.outcome("fault reported");
                } else {
                    cx.fail(format!("kind {k} {:?} at {at} {i}", show(b)), format!("{:?}, way {i}: reader failed after {at} bytes with {want:?}, got {e:?}", show(b)));
                }
            }
        },
    ));
    f
}

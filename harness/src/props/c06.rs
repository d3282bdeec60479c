//! C06: writing reports every writer fault and writes nothing but the text.

use crate::big;
use crate::explore::*;
use crate::tree::*;
use serde::ser::SerializeSeq;
use serde::{Serialize, Serializer as _};
use serde_yaml::{Serializer, Value};
use std::cell::RefCell;
use std::error::Error as _;
use std::fmt;
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Ans {
    All,
    Some(usize),
    Interrupted,
    Zero,
    Fail(u8),
}

/// All but Interrupted.
pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::AlreadyExists,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

#[derive(Debug)]
struct Fault(usize);
#[derive(Debug)]
struct Cause;
impl fmt::Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "fault {}", self.0)
    }
}
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the cause")
    }
}
impl std::error::Error for Cause {}
impl std::error::Error for Fault {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&Cause)
    }
}

#[derive(Default)]
struct Log {
    got: Vec<u8>,
    writes: usize,
    flushes: usize,
    faults: usize,
    /// bytes pass until this many, then every write fails
    capacity: Option<usize>,
    chunk: Option<usize>,
    interrupt_each: bool,
    just_interrupted: bool,
    answers: Vec<Ans>,
    flush_fails: bool,
    kind: u8,
    drops: usize,
}

struct W {
    log: Rc<RefCell<Log>>,
    id: u32,
}

impl Drop for W {
    fn drop(&mut self) {
        self.log.borrow_mut().drops += 1;
    }
}

impl Log {
    fn fault(&mut self, kind: u8) -> io::Error {
        self.faults += 1;
        io::Error::new(KINDS[kind as usize], Fault(self.faults))
    }
}

impl Write for W {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        let n = l.writes;
        l.writes += 1;
        let mut take = buf.len();
        match l.answers.get(n).copied().unwrap_or(Ans::All) {
            Ans::All => {}
            Ans::Some(k) => take = take.min(k),
            Ans::Interrupted => return Err(io::Error::new(ErrorKind::Interrupted, "again")),
            Ans::Zero => {
                l.faults += 1;
                return Ok(0);
            }
            Ans::Fail(k) => return Err(l.fault(k)),
        }
        if l.interrupt_each && !l.just_interrupted {
            l.just_interrupted = true;
            return Err(io::Error::new(ErrorKind::Interrupted, "again"));
        }
        l.just_interrupted = false;
        if let Some(c) = l.chunk {
            take = take.min(c);
        }
        if let Some(cap) = l.capacity {
            let room = cap - l.got.len();
            if room == 0 && take > 0 {
                let k = l.kind;
                return Err(l.fault(k));
            }
            take = take.min(room);
        }
        l.got.extend_from_slice(&buf[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut l = self.log.borrow_mut();
        l.flushes += 1;
        if l.flush_fails {
            let k = l.kind;
            return Err(l.fault(k));
        }
        Ok(())
    }
}

/// Documents: small ones of every shape and ones larger than the emitter's buffers.
fn documents() -> Vec<Value> {
    let m = |k: &str, v: T| T::Map(vec![(st(k), v)]);
    let mut v: Vec<Value> = vec![
        T::Null,
        T::Int(-7),
        st("plain"),
        st("é€\u{1F600}"),
        st("a\n\n"),
        st("true"),
        T::Seq(vec![]),
        T::Map(vec![]),
        T::Seq(vec![T::Int(1), st("b"), m("c", T::Null)]),
        m("k", T::Seq(vec![st("line\nbreak"), tagged("t", m("x", T::Float(1.5)))])),
        tagged("t", T::Seq(vec![T::Bool(true)])),
    ]
    .iter()
    .map(T::to_value)
    .collect();
    v.push(Value::Sequence((0..7000).map(|i| Value::from(i)).collect()));
    v.push(Value::String("x".repeat(40000)));
    v.push(Value::String(format!("a{}", "é".repeat(20000))));
    v.push(Value::String("ab\n€\n".repeat(6000)));
    v
}
const SMALL: usize = 11;

fn reference(docs: &[&Value]) -> (Vec<u8>, Vec<usize>, Vec<u8>) {
    // text after each document, and after the end of the stream, on a plain Vec
    let mut ends = vec![];
    let mut ser = Serializer::new(vec![]);
    for d in docs {
        d.serialize(&mut ser).expect("serializes");
    }
    let all = ser.into_inner().expect("into_inner");
    let mut upto = vec![];
    for i in 1..=docs.len() {
        let mut buf = vec![];
        let mut ser = Serializer::new(&mut buf);
        for d in &docs[..i] {
            d.serialize(&mut ser).expect("serializes");
        }
        drop(ser);
        ends.push(buf.len());
        upto = buf;
    }
    (upto, ends, all)
}

thread_local!(static DOCS: Vec<Value> = documents());

/// Drive one scenario: documents through one serializer over a planned writer, with optional flushes.
struct Scenario<'a> {
    docs: Vec<&'a Value>,
    flush_after: usize,
    unwrap: bool,
    log: Rc<RefCell<Log>>,
}

fn run(cx: &mut Cx, s: Scenario) {
    let (text, ends, all) = reference(&s.docs);
    run_against(cx, s, &text, &ends, &all);
}

fn run_against(cx: &mut Cx, s: Scenario, text: &[u8], ends: &[usize], all: &[u8]) {
    let case = cx.case.clone();
    let bad = |cx: &mut Cx, what: String| cx.fail(case.clone(), format!("{case}: {what}"));
    let log = s.log;
    // the errors are ours
    let explained = |e: &serde_yaml::Error, log: &Log| {
        let m = e.to_string();
        if m == "failed to write whole buffer" {
            return log.answers.contains(&Ans::Zero);
        }
        m == format!("fault {}", log.faults) && e.source().is_some_and(|s| s.to_string() == "the cause")
    };
    let mut ser = Serializer::new(W { log: log.clone(), id: 7 });
    let mut failed = false;
    for (i, d) in s.docs.iter().enumerate() {
        let r = d.serialize(&mut ser);
        cx.step(1);
        let l = log.borrow();
        match r {
            Ok(()) => {
                if l.faults > 0 {
                    bad(cx, format!("document {i} reported written although the writer failed"));
                    return;
                }
                if l.got != text[..ends[i]] {
                    bad(cx, format!("document {i} reported written, writer has {} bytes, expected {}", l.got.len(), ends[i]));
                    return;
                }
            }
            Err(e) => {
                failed = true;
                if l.faults == 0 || !explained(&e, &l) {
                    bad(cx, format!("document {i} failed with {e:?}, faults so far {}", l.faults));
                    return;
                }
            }
        }
        if !text.starts_with(&l.got) {
            bad(cx, format!("writer has bytes that are not a prefix of the text: {}", clip(&String::from_utf8_lossy(&l.got), 200)));
            return;
        }
        drop(l);
        if failed {
            break;
        }
        if i < 32 && s.flush_after & (1 << i) != 0 {
            let before = log.borrow().flushes;
            let r = ser.flush();
            cx.step(1);
            let l = log.borrow();
            match r {
                Ok(()) if l.flush_fails || l.faults > 0 => {
                    bad(cx, "flush succeeded although the writer failed".into());
                    return;
                }
                Ok(()) if l.flushes == before => {
                    bad(cx, "flush did not reach the writer".into());
                    return;
                }
                Ok(()) => {}
                Err(e) => {
                    if !explained(&e, &l) || l.faults == 0 {
                        bad(cx, format!("flush failed with {e:?}"));
                        return;
                    }
                    failed = true;
                }
            }
            if !l.flush_fails && l.got != text[..ends[i]] {
                bad(cx, "flush changed what was written".into());
                return;
            }
        }
        if failed {
            break;
        }
    }
    cx.outcome(if failed { "fault reported" } else { "written" });
    if failed || !s.unwrap {
        drop(ser);
        let l = log.borrow();
        if l.drops != 1 || !text.starts_with(&l.got) {
            bad(cx, format!("after dropping the serializer: writer dropped {} times", l.drops));
            return;
        }
        cx.trace();
        return;
    }
    let r = ser.into_inner();
    cx.step(1);
    match r {
        Ok(w) => {
            let l = log.borrow();
            if l.faults > 0 || w.id != 7 || l.drops != 0 || l.got != all {
                bad(cx, format!("into_inner gave writer {} with {} of {} bytes, {} drops, {} faults", w.id, l.got.len(), all.len(), l.drops, l.faults));
                return;
            }
            drop(l);
            drop(w);
            if log.borrow().drops != 1 {
                bad(cx, "writer not dropped once".into());
                return;
            }
        }
        Err(e) => {
            let l = log.borrow();
            if l.faults == 0 || !explained(&e, &l) || l.drops != 1 || !all.starts_with(&l.got) {
                bad(cx, format!("into_inner failed with {e:?}, {} faults, {} drops", l.faults, l.drops));
                return;
            }
            cx.outcome("into_inner fault reported");
        }
    }
    cx.trace();
}

pub fn families(tier: Tier) -> Vec<Family> {
    let mut f = vec![];
    let maxdocs = tier.pick(2, 3);
    f.push(family(
        "capacity",
        format!("every sequence of 1 to {maxdocs} of 11 small documents x a writer that fails after every number of bytes x chunk sizes 1, 2, 3, all x interruptions x error kinds x unwrapped or dropped"),
        move |ch, cx| {
            DOCS.with(|docs| {
                let n = ch.range(1, maxdocs);
                let docs: Vec<&Value> = (0..n).map(|_| ch.pick(&docs[..SMALL])).collect();
                let (text, ends, all) = reference(&docs);
                let log = Rc::new(RefCell::new(Log::default()));
                let cap = ch.choose(all.len() + 2);
                {
                    let mut l = log.borrow_mut();
                    l.capacity = (cap <= all.len()).then_some(cap);
                    l.chunk = [None, Some(1), Some(2), Some(3)][ch.choose(4)];
                    l.interrupt_each = ch.flag();
                    l.kind = ch.choose(if n == 1 { 5 } else { 2 }) as u8;
                    cx.case = format!("{docs:?} capacity {cap} chunk {:?} interrupts {} kind {}", l.chunk, l.interrupt_each, l.kind);
                }
                let unwrap = ch.flag();
                cx.state(&cx.case.clone());
                run_against(cx, Scenario { docs, flush_after: 0, unwrap, log }, &text, &ends, &all);
                let c = cx.case.clone();
                cx.sample(|| c);
            })
        },
    ));
    let depth = tier.pick(5, 6);
    f.push(family(
        "answers",
        format!("1 or 2 of 11 small documents x every sequence of up to {depth} answers (all, one byte, seven bytes, interrupted, zero, two failures) x a flush after either"),
        move |ch, cx| {
            DOCS.with(|docs| {
                let n = ch.range(1, 2);
                let docs: Vec<&Value> = (0..n).map(|_| ch.pick(&docs[..SMALL])).collect();
                let log = Rc::new(RefCell::new(Log::default()));
                let mut answers = vec![];
                for _ in 0..if n == 2 { depth - 2 } else { depth } {
                    let a = *ch.pick(&[Ans::All, Ans::Some(1), Ans::Some(7), Ans::Interrupted, Ans::Zero, Ans::Fail(0), Ans::Fail(4)]);
                    answers.push(a);
                    if matches!(a, Ans::Zero | Ans::Fail(_)) {
                        break;
                    }
                }
                let flush_after = ch.choose(1 << n);
                cx.case = format!("{docs:?} answers {answers:?} flush {flush_after}");
                log.borrow_mut().answers = answers;
                cx.state(&cx.case.clone());
                run(cx, Scenario { docs, flush_after, unwrap: true, log });
            })
        },
    ));
    f.push(family(
        "flush faults",
        "1 to 3 of 11 small documents, a flush after any of them, a writer whose flush fails or not, with 36 kinds of error",
        |ch, cx| {
            DOCS.with(|docs| {
                let n = ch.range(1, 3);
                let docs: Vec<&Value> = (0..n).map(|_| ch.pick(&docs[..SMALL])).collect();
                let log = Rc::new(RefCell::new(Log::default()));
                log.borrow_mut().flush_fails = ch.flag();
                if log.borrow().flush_fails && n < 3 {
                    log.borrow_mut().kind = ch.choose(KINDS.len()) as u8;
                }
                let flush_after = ch.choose(1 << n);
                let unwrap = ch.flag();
                if unwrap && log.borrow().flush_fails {
                    return; // whether unwrapping flushes is left open
                }
                cx.case = format!("{docs:?} flush {flush_after} flush fails {} {}", log.borrow().flush_fails, log.borrow().kind);
                cx.state(&cx.case.clone());
                run(cx, Scenario { docs, flush_after, unwrap, log });
            })
        },
    ));
    let step = tier.pick(13, 1);
    f.push(family(
        "large",
        format!(
            "4 documents of 35 to 90 KB, alone and beside a small one, failing after every {step}th number of bytes, and every one near a buffer boundary; 12 chunk sizes x interruptions"
        ),
        move |ch, cx| {
            DOCS.with(|docs| {
                let k = SMALL + ch.choose(docs.len() - SMALL);
                let list: Vec<&Value> = match ch.choose(3) {
                    0 => vec![&docs[k]],
                    1 => vec![&docs[8], &docs[k]],
                    _ => vec![&docs[k], &docs[4]],
                };
                thread_local!(static REF: RefCell<std::collections::HashMap<(usize, usize), Rc<(Vec<u8>, Vec<usize>, Vec<u8>)>>> = Default::default());
                let key = (k, list.len() * 100000 + list[0] as *const Value as usize % 99991);
                let r = REF.with(|c| c.borrow_mut().entry(key).or_insert_with(|| Rc::new(reference(&list))).clone());
                let log = Rc::new(RefCell::new(Log::default()));
                if ch.flag() {
                    // groups of 64 capacities
                    let group = ch.choose(r.2.len() / 256 + 1);
                    for d in 0..256 {
                        let cap = group * 256 + d;
                        let near = cap % 16384 < 40 || cap % 16384 > 16344 || cap % 8192 < 8;
                        if cap > r.2.len() || !(near || cap % step == 0) {
                            continue;
                        }
                        let log = Rc::new(RefCell::new(Log::default()));
                        log.borrow_mut().capacity = Some(cap);
                        cx.case = format!("large {k} in {} docs capacity {cap}", list.len());
                        cx.state(&(k, list.len(), list[0] as *const Value as usize == &docs[8] as *const Value as usize, cap));
                        run_against(
                            cx,
                            Scenario {
                                docs: list.clone(),
                                flush_after: 0,
                                unwrap: true,
                                log,
                            },
                            &r.0,
                            &r.1,
                            &r.2,
                        );
                    }
                    return;
                }
                {
                    let mut l = log.borrow_mut();
                    l.chunk = Some(*ch.pick(&[1, 2, 3, 7, 63, 64, 1000, 4096, 8191, 16383, 16384, 16385]));
                    l.interrupt_each = ch.flag();
                    cx.case = format!("large {k} chunk {:?} {}", l.chunk, l.interrupt_each);
                }
                cx.state(&cx.case.clone());
                run_against(
                    cx,
                    Scenario {
                        docs: list,
                        flush_after: 1,
                        unwrap: true,
                        log,
                    },
                    &r.0,
                    &r.1,
                    &r.2,
                );
            })
        },
    ));
    f.push(family(
        "buffer boundary",
        "strings and keys of every length within 40 of 16384 and 49152 x characters of 1 to 4 bytes x a lead of 0 to 3 bytes x quoted, plain or literal, alone or in a sequence: read back exactly, same through all writers",
        |ch, cx| {
            let base = *ch.pick(&[16384usize, 49152, 65536]);
            let c = *ch.pick(&['x', 'é', '€', '\u{1F600}']);
            let lead = ch.choose(4);
            let form = ch.choose(4);
            for off in 0..80 {
                let bytes = base + off - 40;
                let body: String = std::iter::repeat(c).take(bytes / c.len_utf8()).collect();
                let s = match form {
                    0 => format!("{}{body}", &"abc"[..lead]),
                    1 => format!("{}{body}: ", &"abc"[..lead]),
                    2 => format!("{}\n{body}\n{body}", &"abc"[..lead]),
                    _ => format!("{}\t{body}\u{7}", &"abc"[..lead]),
                };
                let v = Value::Sequence(vec![Value::from("a"), Value::from(s), Value::from("z")]);
                cx.case = format!("boundary {base} {off} {c:?} {lead} {form}");
                cx.state(&(base, off, c, lead, form));
                let text = serde_yaml::to_string(&v).unwrap_or_default();
                let back = serde_yaml::from_str::<Value>(&text).ok();
                let mut buf = vec![];
                let r = serde_yaml::to_writer(&mut buf, &v);
                let ok = back.as_ref() == Some(&v) && r.is_ok() && buf == text.as_bytes();
                let case = cx.case.clone();
                cx.step(3);
                if ok {
                    cx.trace()
                } else {
                    cx.fail(case.clone(), format!("{case}: text of {} bytes, read back equal: {}", text.len(), back == Some(v)));
                }
            }
        },
    ));
    f.push(family(
        "entry points",
        "11 small documents x to_string, to_writer by value, by reference, boxed, buffered, Serializer over each, with a capacity of any number of bytes",
        |ch, cx| {
            DOCS.with(|docs| {
                let d = ch.pick(&docs[..SMALL]);
                let text = serde_yaml::to_string(d).expect("to_string");
                let cap = ch.choose(text.len() + 1);
                let how = ch.choose(5);
                cx.case = format!("{d:?} capacity {cap} way {how}");
                cx.state(&cx.case.clone());
                let log = Rc::new(RefCell::new(Log::default()));
                log.borrow_mut().capacity = Some(cap);
                let mut w = W { log: log.clone(), id: 1 };
                let r = match how {
                    0 => serde_yaml::to_writer(&mut w, d),
                    1 => serde_yaml::to_writer(Box::new(&mut w) as Box<dyn Write>, d),
                    2 => {
                        let mut room = vec![0u8; cap];
                        let mut s = room.as_mut_slice();
                        let r = serde_yaml::to_writer(&mut s, d);
                        let left = s.len();
                        let n = cap - left;
                        log.borrow_mut().got.extend_from_slice(&room[..n]);
                        r
                    }
                    3 => {
                        let mut ser = Serializer::new(io::LineWriter::with_capacity(4, &mut w));
                        let r = d.serialize(&mut ser);
                        let f = if r.is_ok() { ser.flush() } else { Ok(()) };
                        r.and(f)
                    }
                    _ => {
                        let mut ser = Serializer::new(io::BufWriter::with_capacity(1 << 12, &mut w));
                        let r = d.serialize(&mut ser);
                        let f = if r.is_ok() { ser.flush() } else { Ok(()) };
                        r.and(f)
                    }
                };
                cx.step(2);
                let full = cap >= text.len();
                let l = log.borrow();
                let ok = r.is_ok() == full && text.as_bytes().starts_with(&l.got) && (!full || l.got == text.as_bytes());
                let case = cx.case.clone();
                if ok {
                    cx.trace();
                } else {
                    cx.fail(case.clone(), format!("{case}: {r:?} with {} of {} bytes", l.got.len(), text.len()));
                }
            })
        },
    ));
    f.push(family(
        "interrupted serialization",
        "a sequence serialized element by element up to any point, then left: what was written is a prefix and the writer is handed back or dropped once",
        |ch, cx| {
            let n = ch.choose(5);
            let big = ch.flag();
            let end = ch.flag();
            let unwrap = ch.flag();
            let e = if big { "x".repeat(9000) } else { "x".into() };
            let full = serde_yaml::to_string(&vec![&e; n.max(1)]).expect("to_string");
            let log = Rc::new(RefCell::new(Log::default()));
            let mut ser = Serializer::new(W { log: log.clone(), id: 1 });
            let mut ok = true;
            {
                let mut q = (&mut ser).serialize_seq(None).expect("seq");
                for _ in 0..n {
                    ok &= q.serialize_element(&e).is_ok();
                }
                if end {
                    ok &= SerializeSeq::end(q).is_ok();
                }
            }
            cx.case = format!("interrupted {n} {big} {end} {unwrap}");
            cx.state(&cx.case.clone());
            if unwrap {
                match ser.into_inner() {
                    Ok(w) => drop(w),
                    Err(_) => ok &= !end,
                }
            } else {
                drop(ser);
            }
            let l = log.borrow();
            ok &= l.drops == 1;
            if n > 0 {
                ok &= full.as_bytes().starts_with(&l.got);
            }
            if end && n > 0 {
                ok &= l.got == full.as_bytes();
            }
            cx.step(n + 2);
            let case = cx.case.clone();
            if ok {
                cx.trace();
            } else {
                cx.fail(case.clone(), format!("{case}: {} bytes {} drops", l.got.len(), l.drops));
            }
        },
    ));
    f.push(family(
        "error kinds",
        format!("each of 11 small documents x a writer that fails after every number of bytes with each of {} kinds of error x chunk sizes 1 and all", KINDS.len()),
        |ch, cx| {
            DOCS.with(|docs| {
                let docs: Vec<&Value> = vec![ch.pick(&docs[..SMALL])];
                let (text, ends, all) = reference(&docs);
                let log = Rc::new(RefCell::new(Log::default()));
                let cap = ch.choose(all.len() + 1);
                {
                    let mut l = log.borrow_mut();
                    l.capacity = Some(cap);
                    l.chunk = [None, Some(1)][ch.choose(2)];
                    l.kind = ch.choose(KINDS.len()) as u8;
                    cx.case = format!("{docs:?} capacity {cap} chunk {:?} kind {}", l.chunk, l.kind);
                }
                let unwrap = ch.flag();
                cx.state(&(&cx.case.clone(), unwrap));
                run_against(cx, Scenario { docs, flush_after: 0, unwrap, log }, &text, &ends, &all);
            })
        },
    ));
    let n = big::sizes(tier);
    f.push(family(
        "many documents",
        format!("the same small document {} numbers of times up to {} through one serializer, a fault in the last of them or none, chunk sizes 1 and all; the text is that of one document repeated", n.len(), n[n.len() - 1]),
        move |ch, cx| {
            DOCS.with(|docs| {
                let k = ch.choose(SMALL);
                let n = (*ch.pick(&n)).max(1);
                let list: Vec<&Value> = vec![&docs[k]; n];
                let one = serde_yaml::to_string(&docs[k]).expect("to_string").into_bytes();
                let (text, ends, all) = repeated(&docs[k], n);
                let log = Rc::new(RefCell::new(Log::default()));
                {
                    let mut l = log.borrow_mut();
                    let c = ch.choose(4);
                    l.capacity = (c > 0).then(|| text.len().saturating_sub([0, 1, one.len() / 2, one.len()][c]));
                    l.chunk = [None, Some(1)][ch.choose(2)];
                    cx.case = format!("{n} of document {k} capacity {:?} chunk {:?}", l.capacity, l.chunk);
                }
                cx.state(&cx.case.clone());
                run_against(cx, Scenario { docs: list, flush_after: 0, unwrap: true, log }, &text, &ends, &all);
            })
        },
    ));
    f
}

/// The text of n times the same document, where each ends, and with the end of the stream.
fn repeated(doc: &Value, n: usize) -> (Vec<u8>, Vec<usize>, Vec<u8>) {
    let (two, ends, closed) = reference(&[doc, doc]);
    let again = &two[ends[0]..];
    let mut text = two[..ends[0]].to_vec();
    let mut ends = vec![text.len()];
    for _ in 1..n {
        text.extend(again);
        ends.push(text.len());
    }
    let all = [&text, &closed[two.len()..]].concat();
    (text, ends, all)
}

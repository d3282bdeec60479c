#![allow(dead_code)]
//! mc run <ID> <quick|thorough>      supervise one check, write evidence, print verdict
//! mc worker <ID> <tier> <dir>       the exploration itself (child of run)
//! mc case <ID> <tier> <family> <c,c,c...>   one execution; exit 0 held, 1 violated
//! mc replay <file>                  one execution from a replay file
//! mc list

mod big;
mod corpus;
mod data;
mod explore;
mod json;
mod props;
mod resolve;
mod text;
mod tree;
mod types;

#[global_allocator]
static ALLOC: props::c21::Counting = props::c21::Counting;

use explore::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

const SLOTS: usize = 16;

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn threads() -> usize {
    std::thread::available_parallelism()
        .map_or(4, |n| n.get())
        .clamp(1, SLOTS)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(1).copied() {
        Some("run") => run(a[2], tier_of(a.get(3).copied().unwrap_or("quick"))),
        Some("worker") => worker(a[2], tier_of(a[3]), a[4]),
        Some("case") => case(a[2], tier_of(a[3]), a[4], a.get(5).copied().unwrap_or("")),
        Some("replay") => replay(a[2]),
        Some("list") => {
            for (id, _) in props::all() {
                println!("{id}");
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: mc run|worker|case|replay|list");
            ExitCode::from(2)
        }
    }
}

fn families(id: &str, tier: Tier) -> Option<Vec<Family>> {
    props::all()
        .into_iter()
        .find(|(i, _)| *i == id)
        .map(|(_, f)| f(tier))
}

fn limits(as_bytes: u64) {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: as_bytes,
            rlim_max: as_bytes,
        };
        // AddressSanitizer maps more than there is
        if !cfg!(feature = "mem") {
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn map_slots(path: &str, create: bool) -> *mut u32 {
    let len = SLOTS * SLOT_WORDS * 4;
    let f = fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .open(path)
        .expect("slot file");
    if create {
        f.set_len(len as u64).expect("slot file size");
    }
    use std::os::fd::AsRawFd;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "mmap");
    p.cast()
}

// ---------------------------------------------------------------- known findings

struct Known {
    property: String,
    key: String,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let path = format!("{}/known_findings.txt", verif_dir());
    let Ok(text) = fs::read_to_string(path) else {
        return vec![];
    };
    text.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| json::parse(l).ok())
        .filter(|j| j.get("status").and_then(|s| s.as_str()) == Some("known"))
        .map(|j| Known {
            property: j.str("property"),
            key: j.str("key"),
            what: j.str("what"),
        })
        .collect()
}

// ---------------------------------------------------------------- worker

fn write_violations(path: &str, vs: &[Violation]) {
    let mut s = String::new();
    for v in vs {
        s.push_str(&json::obj(&[
            ("family", json::s(&v.family)),
            (
                "choices",
                json::s(
                    &v.choices
                        .iter()
                        .map(|c| c.to_string())
                        .collect::<Vec<_>>()
                        .join(","),
                ),
            ),
            ("key", json::s(&v.key)),
            ("detail", json::s(&clip(&v.detail, 4000))),
        ]));
        s.push('\n');
    }
    fs::write(path, s).expect("write violations");
}

fn worker(id: &str, tier: Tier, dir: &str) -> ExitCode {
    limits(14 << 30);
    install_panic_hook();
    let Some(fams) = families(id, tier) else {
        eprintln!("no such property {id}");
        return ExitCode::from(2);
    };
    let known = known_findings();
    let is_known = |v: &Violation| known.iter().any(|k| k.property == id && k.key == v.key);
    let base = map_slots(&format!("{dir}/slots"), false);
    let slots = (0..SLOTS)
        .map(|i| Slot(unsafe { base.add(i * SLOT_WORDS) }))
        .collect();
    let budget = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.pick(400u64, 20_000));
    let only = std::env::var("MC_FAMILY").ok();
    let start = Instant::now();
    let shared = Shared::new(tier.pick(24_000_000, 120_000_000));
    let ex = Explorer {
        shared: &shared,
        tier,
        threads: threads(),
        deadline: start + Duration::from_secs(budget),
        slots,
        max_violations: std::env::var("MC_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(60),
        is_known: &is_known,
    };
    let mut cov = Vec::new();
    let mut tot = Totals {
        complete: true,
        ..Totals::default()
    };
    for (i, f) in fams.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != f.name) {
            continue;
        }
        let t0 = Instant::now();
        let s0 = shared.n_states.load(std::sync::atomic::Ordering::Relaxed);
        let t = ex.run(f, i);
        let s1 = shared.n_states.load(std::sync::atomic::Ordering::Relaxed);
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "{id}/{}: {} executions, {} states, {} transitions, {} traces, depth {}, {:.1}s, {} violations, complete={} {:?}",
                f.name, t.executions, s1 - s0, t.transitions, t.traces, t.max_depth,
                t0.elapsed().as_secs_f64(), t.violations.len(), t.complete, t.outcomes
            );
        }
        cov.push(json::obj(&[
            ("family", json::s(f.name)),
            ("bound", json::s(&f.bound)),
            ("executions", t.executions.to_string()),
            ("states", (s1 - s0).to_string()),
            ("transitions", t.transitions.to_string()),
            ("traces", t.traces.to_string()),
            ("max_choice_depth", t.max_depth.to_string()),
            ("complete", t.complete.to_string()),
            (
                "outcomes",
                json::obj_owned(
                    t.outcomes
                        .iter()
                        .map(|(k, v)| (k.clone(), v.to_string()))
                        .collect(),
                ),
            ),
            ("wall_s", format!("{:.2}", t0.elapsed().as_secs_f64())),
        ]));
        tot.executions += t.executions;
        tot.transitions += t.transitions;
        tot.traces += t.traces;
        tot.complete &= t.complete;
        let mut seen = 0;
        for s in t.samples {
            if seen < 4 {
                tot.samples.push(format!("{}: {}", f.name, s));
                seen += 1;
            }
        }
        let fatal = t.violations.iter().filter(|v| !is_known(v)).count() >= ex.max_violations;
        tot.violations.extend(t.violations);
        if fatal || Instant::now() > ex.deadline {
            if i + 1 < fams.len() {
                tot.complete = false;
            }
            break;
        }
    }
    let dropped = shared
        .states_dropped
        .load(std::sync::atomic::Ordering::Relaxed);
    let states = shared.n_states.load(std::sync::atomic::Ordering::Relaxed);
    let coverage = json::obj(&[
        ("states", states.to_string()),
        ("transitions", tot.transitions.to_string()),
        ("traces_validated_against_impl", tot.traces.to_string()),
        ("executions", tot.executions.to_string()),
        ("exhaustive", tot.complete.to_string()),
        ("state_visits_not_stored", dropped.to_string()),
        ("families", json::arr(&cov)),
        (
            "samples",
            json::arr(&tot.samples.iter().map(|s| json::s(s)).collect::<Vec<_>>()),
        ),
    ]);
    write_violations(&format!("{dir}/violations.jsonl"), &tot.violations);
    fs::write(format!("{dir}/coverage.json"), coverage).expect("coverage");
    ExitCode::SUCCESS
}

// ---------------------------------------------------------------- single case

fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().expect("choice"))
        .collect()
}

fn case(id: &str, tier: Tier, fam: &str, choices: &str) -> ExitCode {
    limits(14 << 30);
    install_panic_hook();
    let Some(fams) = families(id, tier) else {
        return ExitCode::from(2);
    };
    let Some(f) = fams.iter().find(|f| f.name == fam) else {
        eprintln!("no such family {fam}");
        return ExitCode::from(2);
    };
    let choices = parse_choices(choices);
    let viol = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                let shared = Shared::new(1 << 20);
                let mut cx = Cx::new(&shared, f.name, tier);
                execute(f, choices, &mut cx);
                cx.violations
            })
            .unwrap()
            .join()
            .unwrap()
    });
    for v in &viol {
        println!("VIOLATED key={:?}\n{}", v.key, v.detail);
    }
    if viol.is_empty() {
        println!("held");
        ExitCode::SUCCESS
    } else {
        ExitCode::from(1)
    }
}

fn replay(path: &str) -> ExitCode {
    let text = fs::read_to_string(path).expect("replay file");
    let j = json::parse(&text).expect("replay json");
    println!("property {} family {}", j.str("property"), j.str("family"));
    println!("recorded: {}", j.str("detail"));
    case(
        &j.str("property"),
        tier_of(&j.str("tier")),
        &j.str("family"),
        &j.str("choices"),
    )
}

// ---------------------------------------------------------------- supervisor

struct Died {
    what: String,
}

/// Run one case in a process of its own; Some(outcome) if it dies or does not finish.
fn probe(id: &str, tier: Tier, fam: &str, choices: &str, secs: u64) -> Option<Died> {
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(exe)
        .args(["case", id, tier.name(), fam, choices])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn case");
    let mut err = child.stderr.take().expect("stderr");
    let err = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                let mut out = String::new();
                if let Some(mut o) = child.stdout.take() {
                    let _ = o.read_to_string(&mut out);
                }
                return if let Some(sig) = st.signal() {
                    let err = err.join().unwrap_or_default();
                    let why = err.lines().find(|l| l.contains("SUMMARY: AddressSanitizer")).unwrap_or("");
                    Some(Died {
                        what: format!("the process died of signal {sig} {why}"),
                    })
                } else if st.code() == Some(1) {
                    Some(Died { what: out })
                } else {
                    None
                };
            }
            None if Instant::now() > end => {
                let _ = child.kill();
                let _ = child.wait();
                return Some(Died {
                    what: format!("did not finish within {secs} s"),
                });
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn run(id: &str, tier: Tier) -> ExitCode {
    let start = Instant::now();
    let Some(fams) = families(id, tier) else {
        eprintln!("no such property {id}");
        return ExitCode::from(2);
    };
    let names: Vec<&'static str> = fams.iter().map(|f| f.name).collect();
    drop(fams);
    let dir = format!("{}/target/run/{id}", verif_dir());
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("run dir");
    let slot_path = format!("{dir}/slots");
    let base = map_slots(&slot_path, true);
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(exe)
        .args(["worker", id, tier.name(), &dir])
        .spawn()
        .expect("spawn worker");
    let hang_s: u64 = std::env::var("MC_HANG_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(40);
    let mut last: Vec<(u32, Instant)> = vec![(0, Instant::now()); SLOTS];
    let mut hung = None;
    let status = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            break Some(st);
        }
        std::thread::sleep(Duration::from_millis(50));
        for (i, l) in last.iter_mut().enumerate() {
            let (busy, ctr) = unsafe {
                let p = base.add(i * SLOT_WORDS);
                (p.read_volatile(), p.add(1).read_volatile())
            };
            if busy == 0 || ctr != l.0 {
                *l = (ctr, Instant::now());
            } else if l.1.elapsed() > Duration::from_secs(hang_s) {
                hung = Some(i);
            }
        }
        if hung.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let read_slot = |i: usize| -> Option<(String, String)> {
        unsafe {
            let p = base.add(i * SLOT_WORDS);
            if p.read_volatile() == 0 {
                return None;
            }
            let fam = p.add(2).read_volatile() as usize;
            let n = (p.add(3).read_volatile() as usize).min(SLOT_WORDS - 8);
            let v: Vec<String> = (0..n)
                .map(|k| p.add(4 + k).read_volatile().to_string())
                .collect();
            Some((names.get(fam)?.to_string(), v.join(",")))
        }
    };
    let mut violations: Vec<Violation> = Vec::new();
    let mut coverage = None;
    let mut broken = None;
    match status {
        Some(st) if st.code() == Some(0) => {
            let text =
                fs::read_to_string(format!("{dir}/violations.jsonl")).unwrap_or_default();
            for l in text.lines() {
                let j = json::parse(l).expect("violation line");
                violations.push(Violation {
                    family: j.str("family"),
                    choices: parse_choices(&j.str("choices")),
                    key: j.str("key"),
                    detail: j.str("detail"),
                });
            }
            coverage = fs::read_to_string(format!("{dir}/coverage.json")).ok();
        }
        other => {
            let how = match &other {
                Some(st) => format!("exploration process ended: {st}"),
                None => "an execution did not finish".to_owned(),
            };
            eprintln!("{id}: {how}; re-running the cases in flight one by one");
            let mut order: Vec<usize> = (0..SLOTS).collect();
            if let Some(h) = hung {
                order.retain(|&i| i != h);
                order.insert(0, h);
            }
            let mut found = 0;
            for i in order {
                let Some((fam, choices)) = read_slot(i) else {
                    continue;
                };
                if let Some(d) = probe(id, tier, &fam, &choices, hang_s) {
                    violations.push(Violation {
                        family: fam.clone(),
                        choices: parse_choices(&choices),
                        key: format!("crash {fam} {choices}"),
                        detail: format!("{how}; this execution alone: {}", d.what),
                    });
                    found += 1;
                    if found >= 2 {
                        break;
                    }
                }
            }
            if violations.is_empty() {
                broken = Some(how);
            }
        }
    }
    let known = known_findings();
    let mut fresh: Vec<&Violation> = Vec::new();
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    for v in &violations {
        match known.iter().find(|k| k.property == id && k.key == v.key) {
            Some(k) => {
                known_hits.insert(k.key.clone(), k.what.clone());
            }
            None => fresh.push(v),
        }
    }
    for (k, what) in &known_hits {
        println!("KNOWN-FINDING: property={id} {what} [{}]", clip(k, 200));
    }
    // shortest first: the easiest to understand
    fresh.sort_by_key(|v| (v.detail.len() / 64, v.choices.len()));
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let coverage = coverage.unwrap_or_else(|| {
        json::obj(&[
            ("states", "0".into()),
            ("transitions", "0".into()),
            ("traces_validated_against_impl", "0".into()),
            ("exhaustive", "false".into()),
            (
                "samples",
                json::arr(&[json::s("the exploration was cut short by a crash or hang")]),
            ),
        ])
    });
    let ev = json::obj(&[
        ("property", json::s(id)),
        ("tier", json::s(tier.name())),
        ("seed", seed.to_string()),
        ("level", json::s("model_checking")),
        ("coverage", coverage),
        (
            "assumptions",
            json::arr(&[
                json::s("exhaustive only within the bounds stated per family; values outside the alphabets are not covered"),
                json::s("single-threaded executions: the crate has no shared mutable state between threads"),
            ]),
        ),
        ("wall_s", format!("{:.2}", start.elapsed().as_secs_f64())),
        ("violations", fresh.len().to_string()),
    ]);
    let evdir = format!("{}/evidence", verif_dir());
    fs::create_dir_all(&evdir).expect("evidence dir");
    fs::write(format!("{evdir}/{id}.json"), ev + "\n").expect("evidence");
    let _ = fs::remove_file(&slot_path);
    let mut printed: Vec<&str> = Vec::new();
    for v in &fresh {
        if printed.len() >= 5 {
            break;
        }
        if printed.contains(&v.key.as_str()) {
            continue;
        }
        printed.push(&v.key);
        let path = format!("{dir}/replay-{}.json", printed.len());
        let j = json::obj(&[
            ("property", json::s(id)),
            ("tier", json::s(tier.name())),
            ("family", json::s(&v.family)),
            (
                "choices",
                json::s(
                    &v.choices
                        .iter()
                        .map(|c| c.to_string())
                        .collect::<Vec<_>>()
                        .join(","),
                ),
            ),
            ("key", json::s(&v.key)),
            ("detail", json::s(&v.detail)),
        ]);
        fs::write(&path, j + "\n").expect("replay file");
        println!("VIOLATION property={id} replay={path}");
        println!("  family {}: {}", v.family, clip(&v.detail, 1500));
    }
    let _ = std::io::stdout().flush();
    if let Some(b) = broken {
        eprintln!("{id}: inconclusive: {b}");
        return ExitCode::from(2);
    }
    if fresh.is_empty() {
        println!("{id} {}: held on everything explored ({:.1}s)", tier.name(), start.elapsed().as_secs_f64());
        ExitCode::SUCCESS
    } else {
        ExitCode::from(1)
    }
}

mod c01;
mod c03;
mod c04;
mod c05;
mod c09;
mod c10;
mod c11;
mod c12;
mod plain;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;

mod elem;
mod fam;
mod iters;
mod engine;
mod machine;
mod narrow;
mod setm;
mod shapes;
mod stack;
mod subj;

use engine::*;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: elem::Poison = elem::Poison;

pub struct CheckDef {
    pub id: &'static str,
    pub explore: fn(&Ctx),
    pub replay: fn(&str) -> Result<(), String>,
    /// what the exploration enumerates, for the evidence file
    pub space: &'static str,
    pub assumptions: &'static [&'static str],
}

fn def(
    id: &'static str,
    explore: fn(&Ctx),
    replay: fn(&str) -> Result<(), String>,
    space: &'static str,
    assumptions: &'static [&'static str],
) -> CheckDef {
    CheckDef { id, explore, replay, space, assumptions }
}

const KEYS: &str = "keys are opaque to the generic code, so keys in every gap of the stored ones stand for all keys";

#[rustfmt::skip]
pub fn checks() -> Vec<CheckDef> {
    vec![
        def("C01", c01::explore, c01::replay,
            "every operation from every reachable tree shape up to a size (breadth-first to a fixpoint), every operation sequence of a fixed length, and every single operation, remove/insert pair and positional drain on larger trees of seven construction patterns; every result and the whole contents are compared with a sorted vector after every step",
            &[KEYS]),
        def("C02", fam::explore_c02, fam::replay_c02,
            "every operation on every member of every reachable family of clones (canonical in contents, shape and sharing); every handle is compared with its own reference after every step",
            &[KEYS]),
        def("C03", c03::explore, c03::replay,
            "every state of the operation searches, of pairs of operands, of deserialization and of runs of operations on larger trees; check(), and heights, leaf depths, occupancy and comparison counts recovered from the comparisons of lookups",
            &[KEYS, "shapes are read through the public interface: the comparisons made by lookups of every key and gap"]),
        def("C04", c04::explore, c01::replay,
            "every pair of operands (contents x shape x sharing), split point and retain subset up to a size, and a grid of larger operands; results against the definition on sorted vectors, then used further",
            &[KEYS]),
        def("C05", c05::explore, c05::replay,
            "every pair of sets (contents x shape x sharing) up to a size, and a grid of size pairs and interleavings across the size-ratio thresholds; every operator, iterator, constructor and predicate against the definition",
            &[KEYS]),
        def("C06", iters::explore_c06, iters::replay_c06,
            "every interleaving of next and next_back for every iterator kind on every shape up to a size, unshared and shared, and a family of interleavings on larger trees",
            &[KEYS]),
        def("C07", iters::explore_c07, iters::replay_c07,
            "every pair of bounds at every key and gap x every interleaving of next and next_back on every shape up to a size, and a grid on larger trees",
            &[KEYS]),
        def("C08", fam::explore_c08, fam::replay_c08,
            "the families of C02 with the life-cycle registry and the allocation balance as oracle, owning and mutable iterators left at every point while other handles are dropped, rewritten or cloned",
            &[KEYS, "leaks are not looked for in executions that unwind from a panic"]),
        def("C09", c09::explore, c09::replay,
            "a panic at every callback (Clone, Ord, closure, Default) of every operation from every reachable family of handles up to a size, and from larger trees at the first and last callbacks",
            &[KEYS, "a panicking operation may leak; it may not drop twice, use after drop, or change other handles"]),
        def("C10", c10::explore, c10::replay,
            "every operation from every reachable family of handles, counting Clone calls, and updates at several positions of larger shared trees",
            &[KEYS]),
        def("C11", c11::explore, c11::replay,
            "every entry stream up to a length x size hint x position of an error, longer structured streams, and a round trip of every shape",
            &[KEYS]),
        def("C12", c12::explore, c12::replay,
            "every pair of collections (contents x shape x values) up to a size, clones after every short edit sequence, partially ordered values, and larger pairs that differ in one place",
            &[KEYS]),
        def("C13", stack::explore, stack::replay,
            "every operation from every reachable family of stacks, every operation sequence of a fixed length on two clones, and longer stacks",
            &[KEYS]),
        def("C14", c14::explore, c14::replay,
            "every script of up to two operations in every sharing pattern on long stacks, executed on a 128 kB call stack in a separate process; stacks of stacks; large maps and sets",
            &[KEYS]),
        def("C15", c15::explore, c15::replay,
            "every schedule within the preemption bounds of every program of two or three threads over clones of small collections, on the library built with scheduling points at its reference counts; Send and Sync of every type",
            &[KEYS, "sequentially consistent interleavings; std::sync::Arc is trusted to provide the ordering it documents", "threads switch only at reference-count operations, locks, atomics, element clones, drops, comparisons and reads"]),
        def("C16", c16::explore, c16::replay,
            "every entry operation at every key and gap of every handle of every shape and sharing pattern up to a size, pairs of entry operations, and larger maps",
            &[KEYS]),
        def("C17", c17::explore, c17::replay,
            "every operation with newer but equal instances of keys on every shape and every pair of operands up to a size; identity tags of all stored and returned instances against the documented choice",
            &[KEYS]),
        def("C18", c18::explore, c18::replay,
            "as C01, for the sets: every operation from every reachable shape, all short sequences, every retain mask and split point, every pair of operands of append, and larger sets",
            &[KEYS]),
        def("C19", c19::explore, c19::replay,
            "every script of comparison answers up to a length (then honest answers) and twelve dishonest orders, in every operation on every shape up to a size, and on larger trees",
            &[KEYS]),
    ]
}

fn usage() -> ExitCode {
    eprintln!("usage: mc check <ID> [quick|thorough] | mc replay <file> | mc list");
    ExitCode::from(2)
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for c in checks() {
                println!("{}", c.id);
            }
            ExitCode::SUCCESS
        }
        Some("check") if args.len() >= 2 => parent(&args[1], args.get(2).map(|s| s.as_str())),
        Some("worker") if args.len() == 5 => worker(&args[1], &args[2], &args[3], &args[4]),
        Some("raw-replay") if args.len() == 3 => raw_replay(&args[1], &args[2]),
        Some("replay") if args.len() == 2 => replay_file(&args[1]),
        _ => usage(),
    }
}

fn find(id: &str) -> Option<CheckDef> {
    checks().into_iter().find(|c| c.id == id)
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn limit_memory(gb: u64) {
    let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

/// The exploring process: `mc worker <id> <tier> <shared file> <result file>`.
fn worker(id: &str, tier: &str, shared: &str, out: &str) -> ExitCode {
    install_panic_hook();
    limit_memory(24);
    let Some(c) = find(id) else { return usage() };
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let threads = env_u64("MC_THREADS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize;
    let budget = Duration::from_secs(env_u64("MC_BUDGET", if tier == Tier::Quick { 420 } else { 3 * 3600 }));
    let sh = Shared::open(Path::new(shared)).expect("shared file");
    let ctx = Ctx::new(id, tier, env_u64("VERIF_SEED", 1), threads.clamp(1, SLOTS - 1), sh, budget);
    on_big_stack(|| (c.explore)(&ctx));
    if ctx.write_results(Path::new(out)).is_err() {
        return ExitCode::from(2);
    }
    ExitCode::SUCCESS
}

/// Run one case in this process; exit 0 fine, 1 violation.
fn raw_replay(id: &str, case_file: &str) -> ExitCode {
    install_panic_hook();
    limit_memory(24);
    let Some(c) = find(id) else { return usage() };
    let Ok(case) = fs::read_to_string(case_file) else { return usage() };
    match on_big_stack(|| run_guarded(|| (c.replay)(case.trim_end_matches('\n')))) {
        Ok(()) => {
            println!("the property held on this case");
            ExitCode::SUCCESS
        }
        Err(m) => {
            println!("{m}");
            ExitCode::from(1)
        }
    }
}

enum Ran {
    Ok,
    Violated(String),
    Died(String),
}

/// Replay a case in a fresh process, with a time limit.
fn isolated(id: &str, case: &str, dir: &Path, limit: Duration) -> Ran {
    let f = dir.join("case.txt");
    let o = dir.join("case.out");
    fs::write(&f, case).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["raw-replay", id, f.to_str().unwrap()])
        .stdout(fs::File::create(&o).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return match st.code() {
                Some(0) => Ran::Ok,
                Some(1) => Ran::Violated(fs::read_to_string(&o).unwrap_or_default().trim().to_string()),
                Some(c) => Ran::Died(format!("the process executing this case exits with status {c}")),
                None => Ran::Died(format!("the process executing this case is killed ({st})")),
            };
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ran::Died(format!("this case does not terminate within {} s", limit.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

#[derive(Default)]
struct Results {
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: u64,
    capped: bool,
    counters: Vec<(String, u64)>,
    notes: Vec<String>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
}

fn read_results(p: &Path) -> Option<Results> {
    let s = fs::read_to_string(p).ok()?;
    if !s.ends_with("end\n") {
        return None;
    }
    let mut r = Results::default();
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "states" => r.states = f[1].parse().ok()?,
            "transitions" => r.transitions = f[1].parse().ok()?,
            "traces" => r.traces = f[1].parse().ok()?,
            "outcomes" => r.outcomes = f[1].parse().ok()?,
            "capped" => r.capped = f[1] == "1",
            "counter" => r.counters.push((unesc(f[1]), f[2].parse().ok()?)),
            "note" => r.notes.push(unesc(f[1])),
            "sample" => r.samples.push(unesc(f[1])),
            "violation" => r.violations.push((unesc(f[1]), unesc(f[2]))),
            _ => (),
        }
    }
    Some(r)
}

enum WorkerEnd {
    Done(Results),
    /// cases that were in progress, and how it ended
    Died(Vec<String>, String),
}

fn run_worker(id: &str, tier: &str, dir: &Path, threads: Option<usize>) -> WorkerEnd {
    let shared = dir.join("slots");
    let out = dir.join("results");
    let _ = fs::remove_file(&shared);
    let _ = fs::remove_file(&out);
    let sh = Shared::open(&shared).expect("shared file");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["worker", id, tier, shared.to_str().unwrap(), out.to_str().unwrap()]);
    if let Some(n) = threads {
        cmd.env("MC_THREADS", n.to_string());
    }
    let mut ch = cmd.spawn().expect("worker");
    let hang = Duration::from_secs(env_u64("MC_HANG", 60));
    let mut last: Vec<(u64, Instant)> = (0..SLOTS).map(|i| (sh.seq_of(i), Instant::now())).collect();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            if st.success() {
                if let Some(r) = read_results(&out) {
                    return WorkerEnd::Done(r);
                }
            }
            let cur = (0..SLOTS).filter_map(|i| sh.current(i)).collect();
            return WorkerEnd::Died(cur, format!("worker ended with {st}"));
        }
        for i in 0..SLOTS {
            let s = sh.seq_of(i);
            if s != last[i].0 {
                last[i] = (s, Instant::now());
            } else if last[i].1.elapsed() > hang {
                if let Some(c) = sh.current(i) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return WorkerEnd::Died(vec![c], format!("a case ran for more than {} s", hang.as_secs()));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("MC_VERIF").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap())
}

/// Findings listed in known_findings.txt: "known: property=<id> case=<case>"
fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={id} case=")) {
                let (c, d) = r.split_once(" -- ").unwrap_or((r, ""));
                v.push((c.trim().to_string(), d.to_string()));
            }
        }
    }
    v
}

fn short_hash(s: &str) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn parent(id: &str, tier: Option<&str>) -> ExitCode {
    let Some(c) = find(id) else { return usage() };
    let env_tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = tier.map(|s| s.to_string()).unwrap_or(if env_tier.is_empty() { "quick".into() } else { env_tier });
    let t0 = Instant::now();
    let dir = scratch_dir();
    let code = parent_in(&c, &tier, t0, &dir);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn parent_in(c: &CheckDef, tier: &str, t0: Instant, dir: &Path) -> ExitCode {
    let id = c.id;
    let mut res = Results::default();
    let mut confirmed: Vec<(String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    match run_worker(id, tier, dir, None) {
        WorkerEnd::Done(r) => res = r,
        WorkerEnd::Died(cases, how) => {
            // find the case that does it
            for case in &cases {
                match isolated(id, case, dir, Duration::from_secs(90)) {
                    Ran::Ok => (),
                    Ran::Violated(m) | Ran::Died(m) => confirmed.push((case.clone(), m)),
                }
            }
            if confirmed.is_empty() {
                // not isolated: repeat sequentially
                match run_worker(id, tier, dir, Some(1)) {
                    WorkerEnd::Done(r) => res = r,
                    WorkerEnd::Died(cases, how2) => {
                        for case in &cases {
                            match isolated(id, case, dir, Duration::from_secs(90)) {
                                Ran::Ok => (),
                                Ran::Violated(m) | Ran::Died(m) => confirmed.push((case.clone(), m)),
                            }
                        }
                        if confirmed.is_empty() && how2.contains("signal") && !how2.contains("signal: 9") {
                            let case = cases.first().cloned().unwrap_or_default();
                            confirmed.push((
                                case,
                                format!("the exploration corrupts memory: it is killed on every run ({how}; {how2}), not only in the last case"),
                            ));
                        }
                    }
                }
            }
            if confirmed.is_empty() && res.violations.is_empty() {
                errors.push(format!("{how}; no single case reproduces it: {cases:?}"));
            }
        }
    }
    let known = known_findings(id);
    let mut unreproduced = vec![];
    for (case, msg) in &res.violations {
        if known.iter().any(|(k, _)| k == case) {
            continue;
        }
        match isolated(id, case, dir, Duration::from_secs(120)) {
            Ran::Ok => unreproduced.push((case.clone(), msg.clone())),
            Ran::Violated(m) | Ran::Died(m) => confirmed.push((case.clone(), m)),
        }
    }
    if confirmed.is_empty() && !unreproduced.is_empty() {
        errors.push(format!("a violation does not reproduce in a fresh process: {unreproduced:?}"));
    }
    for (k, d) in &known {
        println!("KNOWN-FINDING: property={id} {d} [{k}]");
    }
    let vdir = verif_dir();
    let _ = fs::create_dir_all(vdir.join("evidence"));
    write_evidence(c, tier, &res, &vdir, t0.elapsed().as_secs_f64(), confirmed.len());
    for n in &res.notes {
        println!("  {n}");
    }
    println!(
        "{id} {tier}: states={} transitions={} executions={} outcomes={} wall={:.1}s{}",
        res.states,
        res.transitions,
        res.traces,
        res.outcomes,
        t0.elapsed().as_secs_f64(),
        if res.capped { " (time budget reached: not exhaustive)" } else { "" }
    );
    for (k, v) in &res.counters {
        println!("  {k} = {v}");
    }
    let rdir = vdir.join("replays");
    for (case, msg) in &confirmed {
        let _ = fs::create_dir_all(&rdir);
        let p = rdir.join(format!("{id}-{}.txt", short_hash(case)));
        let _ = fs::write(&p, format!("property={id}\ncase={case}\nmessage={}\n", esc(msg)));
        println!("  {case}\n  -> {msg}");
        println!("VIOLATION property={id} replay={}", p.display());
    }
    if !confirmed.is_empty() {
        return ExitCode::from(1);
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR {id}: {e}");
        }
        return ExitCode::from(2);
    }
    if res.traces == 0 {
        eprintln!("ERROR {id}: nothing was explored");
        return ExitCode::from(2);
    }
    ExitCode::SUCCESS
}

fn write_evidence(c: &CheckDef, tier: &str, r: &Results, vdir: &Path, wall: f64, violations: usize) {
    let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    let mut counters = String::new();
    for (k, v) in &r.counters {
        counters.push_str(&format!(",{}:{}", jstr(k), v));
    }
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"exhaustive\":{},\"explanation\":{},\"caps_hit\":[{}],\"bounds\":[{}],\"samples\":[{}]{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(c.id),
        jstr(if tier == "thorough" { "thorough" } else { "quick" }),
        env_u64("VERIF_SEED", 1),
        r.states,
        r.transitions,
        r.traces,
        r.outcomes,
        !r.capped && violations == 0 && r.notes.iter().all(|n| !n.contains("cap reached")),
        jstr(c.space),
        list(&r.notes.iter().filter(|n| n.contains("cap reached")).cloned().collect::<Vec<_>>()),
        list(&r.notes),
        list(&r.samples),
        counters,
        c.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        wall,
        violations,
    );
    let _ = fs::write(vdir.join("evidence").join(format!("{}.json", c.id)), s);
}

/// `mc replay <file>`: replay a recorded violation in this process.
fn replay_file(p: &str) -> ExitCode {
    let Ok(s) = fs::read_to_string(p) else { return usage() };
    let (mut id, mut case) = ("", "");
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property=") {
            id = x;
        }
        if let Some(x) = l.strip_prefix("case=") {
            case = x;
        }
    }
    let Some(c) = find(id) else { return usage() };
    install_panic_hook();
    match on_big_stack(|| run_guarded(|| (c.replay)(case))) {
        Ok(()) => {
            println!("the property held on this case");
            ExitCode::SUCCESS
        }
        Err(m) => {
            println!("{m}");
            ExitCode::from(1)
        }
    }
}

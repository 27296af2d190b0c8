//! Deterministic simulation of graph_safe_compare, with fault injection.
//!
//!   gsc_sim check PROP quick|thorough SEED EVIDENCE REPLAYS FINDINGS
//!   gsc_sim worker ...            (started by check)
//!   gsc_sim exec FILE             0 holds, 1 violation, 2 no case, 3 harness error
//!   gsc_sim execseq FILE          the same for a sequence of runs in one process
//!   gsc_sim replay FILE           1 when the recorded violation is reproduced
//!   gsc_sim serve                 (reduced builds: executes scenarios from standard input)
//!   gsc_sim show PROP SEED INDEX  prints the scenario
//!   gsc_sim digest PROP SEED N    prints the digest of the first N runs

#![cfg_attr(feature = "anticipate", feature(step_trait, never_type))]
// Reduced builds leave much unused.
#![cfg_attr(not(feature = "full"), allow(dead_code, unused_imports, unused_macros, unreachable_patterns))]

mod alloc;
mod api;
mod ctx;
mod graph;
mod hist;
mod json;
mod parts;
mod prng;
mod refs;
mod props;
mod run;
mod scen;
mod shrink;
mod stack;
mod variants;

use json::J;
use scen::{Agg, Held, Scen};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const WORKERS: u64 = 8;
const PROFILE: &str = if cfg!(debug_assertions) { "release" } else { "shipped" };
/// Kilobytes of address space of a worker.
const MEMORY: u64 = 3_500_000;
/// No progress for this long: endless.
const HANG: Duration = Duration::from_secs(60);

#[cfg(not(feature = "full"))]
fn main() {
    std::process::exit(big_stack(variants::serve));
}

#[cfg(feature = "full")]
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |i: usize| args.get(i).map_or("", String::as_str);
    let code = match a(0) {
        "check" => check(&args),
        "worker" => big_stack(move || worker(&args)),
        "exec" => {
            let f = a(1).to_string();
            big_stack(move || exec(Path::new(&f)))
        }
        "execseq" => {
            let f = a(1).to_string();
            big_stack(move || execseq(Path::new(&f)))
        }
        "replay" => replay(Path::new(a(1))),
        "show" => {
            let (p, s, i) = (a(1).to_string(), num(a(2)), num(a(3)));
            big_stack(move || {
                let s = props::generate(&p, s, i);
                println!("{}", s.to_json().text());
                eprintln!("{}", s.describe());
                0
            })
        }
        "digest" => {
            let (p, s, n) = (a(1).to_string(), num(a(2)), num(a(3)));
            big_stack(move || {
                for i in 0..n {
                    let _ = props::check(&props::generate(&p, s, i), &mut Agg::default());
                }
                println!("{:016x}", run::EXECS.load(Ordering::Relaxed));
                0
            })
        }
        _ => {
            eprintln!("usage: see the head of main.rs");
            3
        }
    };
    std::process::exit(code);
}

fn num(s: &str) -> u64 {
    s.parse().unwrap_or(0)
}

fn big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    run::install_panic_hook();
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or(3)
}

// ---------------------------------------------------------------------- worker

/// worker PROP SEED WORKER TOTAL UNTIL_SECONDS DIR FINDINGS
fn worker(args: &[String]) -> i32 {
    let (prop, seed, me, total, secs, dir) = (
        args[1].as_str(),
        num(&args[2]),
        num(&args[3]),
        num(&args[4]),
        num(&args[5]),
        PathBuf::from(&args[6]),
    );
    let known = findings(Path::new(&args[7]), prop);
    let t0 = Instant::now();
    let mut progress = std::fs::File::create(dir.join(format!("progress{me}"))).expect("progress");
    let mut agg = Agg::default();
    let mut keys: Vec<u64> = Vec::new();
    let mut samples: Vec<J> = Vec::new();
    let (mut runs, mut skipped, mut rechecked, mut mismatched) = (0u64, 0u64, 0u64, 0u64);
    let mut known_hits: Vec<J> = Vec::new();
    let mut violation = J::Null;
    let mut i = me;
    while i < total && t0.elapsed().as_secs() < secs {
        use std::os::unix::fs::FileExt;
        let _ = progress.write_at(&(i + 1).to_le_bytes(), 0);
        let before = run::EXECS.load(Ordering::Relaxed);
        let outcome = catch_unwind(AssertUnwindSafe(|| {
            let s = props::generate(prop, seed, i);
            let r = props::check(&s, &mut agg);
            (s, r)
        }));
        let Ok((s, r)) = outcome else {
            let m = run::PANIC_MSG.with(|m| m.borrow().clone());
            println!("{}", J::obj(vec![("harness", J::s(&format!("run {i}: {m}")))]).text());
            return 3;
        };
        runs += 1;
        match r {
            Ok(Held::Yes(key, nontrivial)) => {
                if nontrivial {
                    keys.push(key);
                }
                if samples.len() < 2 && nontrivial {
                    samples.push(J::s(&format!("run {i} ({PROFILE}): {}", s.describe())));
                }
                // One seed must be one execution.
                if runs <= 20 || runs % 200 == 0 {
                    let first = run::EXECS.load(Ordering::Relaxed).wrapping_sub(before);
                    let mid = run::EXECS.load(Ordering::Relaxed);
                    let s2 = props::generate(prop, seed, i);
                    let _ = props::check(&s2, &mut Agg::default());
                    let second = run::EXECS.load(Ordering::Relaxed).wrapping_sub(mid);
                    rechecked += 1;
                    mismatched += u64::from(first != second || s2 != s);
                }
            }
            Ok(Held::Skip) => skipped += 1,
            Err(m) => {
                if let Some(k) = known.iter().find(|k| m.contains(&k.0)) {
                    known_hits.push(J::s(&k.0));
                } else {
                    violation = J::obj(vec![
                        ("index", J::Int(i as i64)),
                        ("message", J::s(&m)),
                        ("scenario", s.to_json()),
                    ]);
                    break;
                }
            }
        }
        i += WORKERS;
    }
    let _ = progress.flush();
    keys.sort_unstable();
    keys.dedup();
    let mut b = Vec::with_capacity(keys.len() * 8);
    for k in &keys {
        b.extend(k.to_le_bytes());
    }
    std::fs::write(dir.join(format!("keys{me}")), b).expect("keys");
    println!(
        "{}",
        J::obj(vec![
            ("runs", J::Int(runs as i64)),
            ("skipped", J::Int(skipped as i64)),
            ("rechecked", J::Int(rechecked as i64)),
            ("mismatched", J::Int(mismatched as i64)),
            ("known", J::Arr(known_hits)),
            ("agg", agg.to_json()),
            ("samples", J::Arr(samples)),
            ("violation", violation),
        ])
        .text()
    );
    // Whatever threads are stuck, end.
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

// ------------------------------------------------------------------ exec, replay

fn exec(file: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else { return 3 };
    let Ok(j) = J::parse(&text) else { return 3 };
    let s = Scen::from_json(if matches!(j.get("scenario"), J::Null) { &j } else { j.get("scenario") });
    let r = catch_unwind(AssertUnwindSafe(|| props::check(&s, &mut Agg::default())));
    let digest = format!("{:016x}", run::EXECS.load(Ordering::Relaxed));
    let (code, m) = match r {
        Ok(Ok(Held::Yes(..))) => (0, String::new()),
        Ok(Ok(Held::Skip)) => (2, String::new()),
        Ok(Err(m)) => (1, m),
        Err(_) => (3, run::PANIC_MSG.with(|m| m.borrow().clone())),
    };
    println!(
        "{}",
        J::obj(vec![("code", J::Int(code.into())), ("message", J::s(&m)), ("digest", J::s(&digest))]).text()
    );
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// Runs of {property, seed, runs: [index...]} one after another in this process; the outcome is
/// that of the first that fails.
fn execseq(file: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else { return 3 };
    let Ok(j) = J::parse(&text) else { return 3 };
    let (prop, seed) = (j.get("property").str().to_string(), j.get("seed").int() as u64);
    let mut res = (0, String::new());
    let mut agg = Agg::default();
    for i in j.get("runs").arr() {
        let i = i.int() as u64;
        let r = catch_unwind(AssertUnwindSafe(|| props::check(&props::generate(&prop, seed, i), &mut agg)));
        match r {
            Ok(Ok(_)) => (),
            Ok(Err(m)) => {
                res = (1, format!("run {i}: {m}"));
                break;
            }
            Err(_) => {
                res = (3, run::PANIC_MSG.with(|m| m.borrow().clone()));
                break;
            }
        }
    }
    let digest = format!("{:016x}", run::EXECS.load(Ordering::Relaxed));
    println!(
        "{}",
        J::obj(vec![("code", J::Int(res.0.into())), ("message", J::s(&res.1)), ("digest", J::s(&digest))]).text()
    );
    let _ = std::io::stdout().flush();
    std::process::exit(res.0)
}

/// What came out of executing a scenario in a process of its own.
#[derive(Clone, PartialEq, Debug)]
struct Outcome {
    /// 0..=3 as of exec; 4 crashed; 5 endless.
    code: i32,
    message: String,
    digest: String,
}

fn spawn(bin: &Path, args: &[&str]) -> std::io::Result<Child> {
    Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -v {MEMORY}; exec \"$0\" \"$@\""))
        .arg(bin)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
}

fn exec_apart(bin: &Path, file: &Path, patience: Duration) -> Outcome {
    run_apart(bin, "exec", file, patience)
}

fn run_apart(bin: &Path, mode: &str, file: &Path, patience: Duration) -> Outcome {
    let fail = |code, m: &str| Outcome { code, message: m.into(), digest: String::new() };
    let Ok(mut ch) = spawn(bin, &[mode, &file.to_string_lossy()]) else {
        return fail(3, "could not start");
    };
    let t0 = Instant::now();
    let mut nap = Duration::from_micros(300);
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let mut out = String::new();
                let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
                let Some(code) = st.code() else {
                    return fail(4, &format!("the process crashed ({st})"));
                };
                let j = J::parse(out.trim()).unwrap_or(J::Null);
                if !(0..=3).contains(&code) || matches!(j, J::Null) {
                    return fail(4, &format!("the process ended unexpectedly ({st})"));
                }
                return Outcome {
                    code,
                    message: j.get("message").str().into(),
                    digest: j.get("digest").str().into(),
                };
            }
            Ok(None) if t0.elapsed() > patience => {
                let _ = ch.kill();
                let _ = ch.wait();
                return fail(5, "the comparison did not end (no result within the time allowed)");
            }
            Ok(None) => {
                std::thread::sleep(nap);
                nap = (nap * 3 / 2).min(Duration::from_millis(50));
            }
            Err(_) => return fail(3, "wait"),
        }
    }
}

fn violates(o: &Outcome) -> bool {
    matches!(o.code, 1 | 4 | 5)
}

fn replay(file: &Path) -> i32 {
    let Some(j) = std::fs::read_to_string(file).ok().and_then(|t| J::parse(&t).ok()) else {
        eprintln!("cannot read {}", file.display());
        return 3;
    };
    let bin = bin_for(j.get("profile").str());
    let sequence = !j.get("runs").arr().is_empty();
    let o = if sequence {
        run_apart(&bin, "execseq", file, 5 * HANG)
    } else {
        exec_apart(&bin, file, HANG)
    };
    let same = o.message == j.get("message").str() && o.digest == j.get("digest").str();
    println!("property {}: {}", j.get("property").str(), j.get("description").str());
    println!("recorded: {}", j.get("message").str());
    println!("now:      {} (code {})", o.message, o.code);
    if violates(&o) {
        println!(
            "REPRODUCED{}",
            if same { " exactly (same message, same execution digest)" } else { ", with other details" }
        );
        1
    } else {
        println!("not reproduced");
        i32::from(o.code == 3) * 3
    }
}

fn bin_for(profile: &str) -> PathBuf {
    let me = std::env::current_exe().expect("exe");
    if profile.is_empty() || profile == PROFILE {
        return me;
    }
    // .../target/PROFILE/gsc_sim
    let dir = me.parent().and_then(Path::parent).expect("target directory");
    dir.join(profile).join("gsc_sim")
}

// ---------------------------------------------------------------------- check

/// (text that the message contains, description)
fn findings(file: &Path, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == prop)
        .filter_map(|(_, l)| l.strip_prefix("match="))
        .filter_map(|l| l.split_once('|'))
        .map(|(m, d)| (m.trim().to_string(), d.trim().to_string()))
        .collect()
}

/// Runs for quick and thorough.
fn amount(prop: &str) -> (u64, u64) {
    match prop {
        "C01" => (200_000, 4_000_000),
        "C02" => (100_000, 2_000_000),
        "C03" => (100_000, 2_000_000),
        "C04" => (60_000, 1_000_000),
        "C05" => (100_000, 2_000_000),
        "C06" => (60_000, 1_000_000),
        "C07" => (60_000, 1_000_000),
        "C08" => (100_000, 2_000_000),
        "C09" => (20_000, 400_000),
        "C10" => (8_000, 150_000),
        "C11" => (100_000, 2_000_000),
        "C12" => (5_000, 60_000),
        "C13" => (40_000, 600_000),
        "C14" => (30_000, 600_000),
        "C15" => (100_000, 2_000_000),
        "C17" => (60_000, 1_000_000),
        "C18" => (40_000, 800_000),
        _ => (100_000, 2_000_000),
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "run = seeded graph pair x API combination x phase schedule x pending-work order; non-trivial: at least two descents; distinct: hash of the whole sequence of callbacks",
        "C02" => "as C01 with adversarial schedules (maximum fast phases) and merge-heavy shapes; non-trivial: at least three descents",
        "C03" => "run = comparison and the same with operands exchanged; non-trivial: a difference found beyond the first two pairs",
        "C04" => "run = comparison with precheck and the same without; non-trivial: the precheck is cut off and more than one descent follows",
        "C05" => "run = budgeted comparison against the executable model; non-trivial: more than one pair, or budget below two",
        "C06" => "run = comparison without and with an error injected into a component, and again without; non-trivial: the fault fired after the first pair",
        "C07" => "run = comparison without and with a panic injected into a chosen call, and again without; non-trivial: more than one pair",
        "C08" => "run = comparison with any ending (verdict, limit, error, panic) with ledgers of all handles and bytes; non-trivial: more than one pair",
        "C09" => "run = history of comparisons of graph versions with reused identities, with nested comparisons inside callbacks, each against itself alone in a fresh thread; non-trivial: at least two comparisons of more than two pairs",
        "C10" => "run = threads passed a token at callbacks by the seeded scheduler, with stalls and panics, each comparison against itself alone; non-trivial: at least two threads and three switches",
        "C11" => "run = monitored comparison; non-trivial: more than one descent",
        "C12" => "run = comparison of very deep, wide or merge-heavy graphs with the stack measured at every callback and release, and painted; non-trivial: more than 1000 pairs",
        "C13" => "run = comparison with the count of node handles checked at every visit against the pending pairs; non-trivial: more than 20 pairs",
        "C14" => "run = series of draws of a provided generator, or comparison using it, with its shared state disturbed; non-trivial: bound above one, or anything drawn",
        "C15" => "run = comparison over a store reusing identities at once; non-trivial: at least one identity was reused",
        "C18" => "run = comparison executed in this build and in each reduced build (one per selection of features) that has what it uses; non-trivial: at least two descents",
        "C20" => "run = comparison with indexes of one of the twelve primitive types, counted so that its last value is that of the last edge possible, against the same with plain numbers; non-trivial: more than one pair, and the last index requested",
        "C17" => "run = comparison of nodes identified by real references at places in memory laid out by the seed, every identity judged against others, in tables by hash, by order and by equality at once, and against the same comparison with numbers for identities; non-trivial: more than three pairs",
        _ => "run = comparison under a scripted controller, against the executable model; non-trivial: more than three pairs asked about",
    }
}

fn check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let (prop, tier, seed) = (args[1].as_str(), args[2].as_str(), num(&args[3]));
    let evidence = PathBuf::from(&args[4]);
    let replays = PathBuf::from(&args[5]);
    let known_file = PathBuf::from(&args[6]);
    if !props::PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 3;
    }
    let (q, t) = amount(prop);
    let thorough = tier == "thorough";
    let total = std::env::var("GSC_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { t } else { q });
    let secs = if thorough { 720 } else { 300 };
    let dir = std::env::temp_dir().join(format!("gsc_sim.{}.{prop}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let code = supervise(prop, tier, seed, total, secs, &dir, &evidence, &replays, &known_file, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

struct W {
    ch: Child,
    profile: &'static str,
    out: std::thread::JoinHandle<String>,
    mark: u64,
    since: Instant,
    end: Option<Option<i32>>,
    hung: bool,
}

#[allow(clippy::too_many_arguments)]
fn supervise(
    prop: &str,
    tier: &str,
    seed: u64,
    total: u64,
    secs: u64,
    dir: &Path,
    evidence: &Path,
    replays: &Path,
    known_file: &Path,
    t0: Instant,
) -> i32 {
    let mut ws: Vec<W> = (0..WORKERS)
        .map(|w| {
            // As shipped, every fourth; stack use is judged as shipped and with checks alike.
            let profile = if w % 4 == 3 { "shipped" } else { "release" };
            let mut ch = spawn(
                &bin_for(profile),
                &[
                    "worker",
                    prop,
                    &seed.to_string(),
                    &w.to_string(),
                    &total.to_string(),
                    &secs.to_string(),
                    &dir.to_string_lossy(),
                    &known_file.to_string_lossy(),
                ],
            )
            .expect("worker");
            let mut so = ch.stdout.take().unwrap();
            let out = std::thread::spawn(move || {
                let mut s = String::new();
                let _ = so.read_to_string(&mut s);
                s
            });
            W { ch, profile, out, mark: 0, since: Instant::now(), end: None, hung: false }
        })
        .collect();
    let at = |w: usize| -> u64 {
        std::fs::read(dir.join(format!("progress{w}")))
            .ok()
            .and_then(|b| b.try_into().ok())
            .map_or(0, u64::from_le_bytes)
    };
    // Until all ended.
    while ws.iter().any(|w| w.end.is_none()) {
        std::thread::sleep(Duration::from_millis(30));
        for (i, w) in ws.iter_mut().enumerate() {
            if w.end.is_some() {
                continue;
            }
            if let Ok(Some(st)) = w.ch.try_wait() {
                w.end = Some(st.code());
                continue;
            }
            let m = at(i);
            if m != w.mark {
                w.mark = m;
                w.since = Instant::now();
            } else if w.since.elapsed() > HANG {
                w.hung = true;
                let _ = w.ch.kill();
                let _ = w.ch.wait();
                w.end = Some(None);
            }
        }
    }
    let mut agg = Agg::default();
    let (mut runs, mut skipped, mut rechecked, mut mismatched) = (0i64, 0i64, 0i64, 0i64);
    let mut samples = Vec::new();
    let mut keys: HashSet<u64> = HashSet::new();
    // (index, message, scenario, profile)
    let mut bad: Vec<(u64, String, Option<Scen>, &'static str)> = Vec::new();
    let mut harness = Vec::new();
    let mut known_hits: HashSet<String> = HashSet::new();
    for (i, w) in ws.into_iter().enumerate() {
        let text = w.out.join().unwrap_or_default();
        let j = J::parse(text.trim()).unwrap_or(J::Null);
        if !matches!(j.get("harness"), J::Null) {
            harness.push(j.get("harness").str().to_string());
            continue;
        }
        if w.end != Some(Some(0)) || matches!(j, J::Null) {
            let k = at(i);
            if k == 0 {
                harness.push(format!("worker {i} did not start ({:?})", w.end));
                continue;
            }
            let m = if w.hung { "the comparison did not end" } else { "the process crashed" };
            let (p, k) = (prop.to_string(), k - 1);
            // Generation may execute comparisons, and thus be what crashed: do it apart.
            let s = generate_apart(&bin_for(w.profile), &p, seed, k);
            bad.push((k, m.into(), s, w.profile));
            continue;
        }
        runs += j.get("runs").int();
        skipped += j.get("skipped").int();
        rechecked += j.get("rechecked").int();
        mismatched += j.get("mismatched").int();
        agg.merge(j.get("agg"));
        for k in j.get("known").arr() {
            known_hits.insert(k.str().into());
        }
        for s in j.get("samples").arr() {
            if samples.len() < 6 {
                samples.push(s.clone());
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("keys{i}"))) {
            keys.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        let v = j.get("violation");
        if !matches!(v, J::Null) {
            bad.push((
                v.get("index").int() as u64,
                v.get("message").str().into(),
                Some(Scen::from_json(v.get("scenario"))),
                w.profile,
            ));
        }
    }
    for (m, d) in findings(known_file, prop) {
        let _ = m;
        println!("KNOWN-FINDING: property={prop} {d}");
    }
    bad.sort_by_key(|b| b.0);
    let mut confirmed = Vec::new();
    let mut unconfirmed = Vec::new();
    for (i, m, s, profile) in bad {
        if !confirmed.is_empty() && t0.elapsed() > Duration::from_secs(600) {
            break;
        }
        let found = s
            .and_then(|s| confirm(prop, seed, i, &m, s, profile, dir, replays))
            .or_else(|| confirm_sequence(prop, seed, i, &m, profile, dir, replays));
        match found {
            Some(path) => {
                println!("VIOLATION property={prop} replay={}", path.display());
                confirmed.push(path);
                break;
            }
            None => unconfirmed.push(format!("run {i} ({profile}): {m}")),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(
        prop, tier, seed, evidence, wall, runs, skipped, rechecked, mismatched, &agg, samples,
        keys.len() as i64, confirmed.len() as i64, &harness, &unconfirmed, &known_hits,
    );
    for h in &harness {
        eprintln!("harness error: {h}");
    }
    for u in &unconfirmed {
        eprintln!("not reproduced in a fresh process: {u}");
    }
    println!(
        "{prop} {tier} seed {seed}: {runs} runs ({skipped} no case), {} distinct non-trivial, {:.1} s",
        keys.len(),
        wall
    );
    if !confirmed.is_empty() {
        1
    } else if !harness.is_empty() || !unconfirmed.is_empty() {
        3
    } else {
        0
    }
}

fn generate_apart(bin: &Path, prop: &str, seed: u64, i: u64) -> Option<Scen> {
    let mut ch = spawn(bin, &["show", prop, &seed.to_string(), &i.to_string()]).ok()?;
    let mut so = ch.stdout.take()?;
    let out = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if t0.elapsed() > HANG => {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
    let j = J::parse(out.join().ok()?.trim()).ok()?;
    Some(Scen::from_json(&j))
}

/// Reproduce, minimise, reproduce again, and write the replay file.
#[allow(clippy::too_many_arguments)]
fn confirm(
    prop: &str,
    seed: u64,
    index: u64,
    message: &str,
    s: Scen,
    profile: &'static str,
    dir: &Path,
    replays: &Path,
) -> Option<PathBuf> {
    let bin = bin_for(profile);
    let file = dir.join("candidate.json");
    let put = |s: &Scen| {
        std::fs::write(&file, s.to_json().text()).expect("candidate");
    };
    put(&s);
    let first = exec_apart(&bin, &file, HANG);
    if !violates(&first) {
        // It may need what came before it in the same process: not a case for a history of one.
        return None;
    }
    let patience = if first.code == 5 { Duration::from_secs(5) } else { Duration::from_secs(20) };
    let waits = first.message.contains("waits for another");
    let mut best = s.clone();
    let mut tried = 0;
    if !waits {
        let mut fails = |n: &Scen| {
            put(n);
            violates(&exec_apart(&bin, &file, patience))
        };
        let mut sh = shrink::Shrink::new(&mut fails, Duration::from_secs(75));
        best = sh.run(s.clone());
        tried = sh.tried;
    }
    // Must reproduce exactly.
    let twice = |s: &Scen| {
        put(s);
        let a = exec_apart(&bin, &file, HANG);
        let b = exec_apart(&bin, &file, HANG);
        (violates(&a) && violates(&b)).then_some((a == b, a))
    };
    let (exact, out, fin) = match twice(&best) {
        Some((e, o)) => (e, o, best),
        None => {
            let (e, o) = twice(&s).unwrap_or((false, first));
            (e, o, s.clone())
        }
    };
    std::fs::create_dir_all(replays).ok()?;
    let path = replays.join(format!("{prop}-{seed}-{index}.json"));
    let j = J::obj(vec![
        ("property", J::s(prop)),
        ("message", J::s(&out.message)),
        ("digest", J::s(&out.digest)),
        ("profile", J::s(profile)),
        ("seed", J::Int(seed as i64)),
        ("run", J::Int(index as i64)),
        ("first_message", J::s(message)),
        ("description", J::s(&fin.describe())),
        ("minimiser_attempts", J::Int(tried as i64)),
        ("reproduces_exactly", J::s(if exact { "yes" } else { "no" })),
        ("how", J::s("/verif/check.sh replay <this file>")),
        ("scenario", fin.to_json()),
    ]);
    std::fs::write(&path, j.text()).ok()?;
    println!("{prop}: {}", out.message);
    println!("{prop}: {}", fin.describe());
    Some(path)
}

/// For what shows only after other runs in the same process (or in making the scenario): the
/// shortest series of the worker's last runs that reproduces it.
fn confirm_sequence(
    prop: &str,
    seed: u64,
    index: u64,
    message: &str,
    profile: &'static str,
    dir: &Path,
    replays: &Path,
) -> Option<PathBuf> {
    let bin = bin_for(profile);
    let file = dir.join("sequence.json");
    let all: Vec<u64> = (0..=index).filter(|i| i % WORKERS == index % WORKERS).collect();
    let t0 = Instant::now();
    let describe = |runs: &[u64], o: &Outcome| {
        J::obj(vec![
            ("property", J::s(prop)),
            ("message", J::s(&o.message)),
            ("digest", J::s(&o.digest)),
            ("profile", J::s(profile)),
            ("seed", J::Int(seed as i64)),
            ("first_message", J::s(message)),
            ("description", J::s(&format!("{} runs in one process", runs.len()))),
            ("how", J::s("/verif/check.sh replay <this file>")),
            ("runs", J::Arr(runs.iter().map(|r| J::Int(*r as i64)).collect())),
        ])
    };
    let none = Outcome { code: 0, message: String::new(), digest: String::new() };
    let run = |runs: &[u64]| {
        std::fs::write(&file, describe(runs, &none).text()).expect("sequence");
        run_apart(&bin, "execseq", &file, HANG + Duration::from_secs(60))
    };
    // Ever more of what came before.
    let mut k = 1;
    let (mut best, mut out) = loop {
        let from = all.len().saturating_sub(k);
        let o = run(&all[from..]);
        if violates(&o) {
            break (all[from..].to_vec(), o);
        }
        if from == 0 || t0.elapsed() > Duration::from_secs(200) {
            return None;
        }
        k *= 8;
    };
    // And less again.
    let mut chunk = best.len() / 2;
    while chunk >= 1 && t0.elapsed() < Duration::from_secs(260) {
        let mut at = 0;
        while at + chunk < best.len() && t0.elapsed() < Duration::from_secs(260) {
            let mut n = best.clone();
            n.drain(at..at + chunk);
            let o = run(&n);
            if violates(&o) {
                best = n;
                out = o;
            } else {
                at += chunk;
            }
        }
        chunk /= 2;
    }
    std::fs::create_dir_all(replays).ok()?;
    let path = replays.join(format!("{prop}-{seed}-{index}.json"));
    std::fs::write(&path, describe(&best, &out).text()).ok()?;
    println!("{prop}: {} (after {} other runs in the same process)", out.message, best.len() - 1);
    Some(path)
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    path: &Path,
    wall: f64,
    runs: i64,
    skipped: i64,
    rechecked: i64,
    mismatched: i64,
    agg: &Agg,
    samples: Vec<J>,
    distinct: i64,
    violations: i64,
    harness: &[String],
    unconfirmed: &[String],
    known: &HashSet<String>,
) {
    let per_hour = (runs as f64 / wall.max(0.001) * 3600.0) as i64;
    let pick = |p: &str| {
        J::Obj(
            agg.sums
                .iter()
                .filter(|(k, _)| k.starts_with(p))
                .map(|(k, v)| (k[p.len()..].to_string(), J::Int(*v as i64)))
                .collect(),
        )
    };
    let rest = J::Obj(
        agg.sums
            .iter()
            .filter(|(k, _)| !k.starts_with("fault: ") && !k.starts_with("api: ") && *k != "sim_time")
            .map(|(k, v)| (k.clone(), J::Int(*v as i64)))
            .collect(),
    );
    let strs = |v: &[&str]| J::Arr(v.iter().map(|s| J::s(s)).collect());
    let coverage = J::obj(vec![
        ("evaluations", J::Int(runs)),
        ("distinct_nontrivial", J::Int(distinct)),
        ("rule", J::s(rule(prop))),
        ("samples", J::Arr(samples)),
        ("runs_per_hour", J::Int(per_hour)),
        ("seeds_per_hour", J::Int(per_hour)),
        ("runs_without_a_case", J::Int(skipped)),
        ("simulated_time_ticks", J::Int(agg.sums.get("sim_time").copied().unwrap_or(0) as i64)),
        ("simulated_time_unit", J::s("one tick is the least duration of a callback; delays and stalls are added from the run's seed")),
        ("faults_injected", pick("fault: ")),
        ("comparisons_by_api", pick("api: ")),
        ("counts", rest),
        ("maxima", J::Obj(agg.maxs.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())),
        ("distinct_measure", J::s("64-bit hash of the full sequence of callbacks with node positions, values, draws and results")),
        ("determinism_rechecked_runs", J::Int(rechecked)),
        ("determinism_mismatches", J::Int(mismatched)),
        ("real_components", strs(&[
            "all of graph_safe_compare from /repo's working tree, with and without debug assertions",
            "its premade recursion modes, tables, shared pointers, generators and premade functions",
            "std collections, Rc, threads, unwinding",
        ])),
        ("stubs", strs(&[
            "nodes, identities and indexes (simulated graph; for C17 the library's reference identities)",
            "random numbers (scripted, except where a provided generator is the subject)",
            "pool recursion mode, scripted descend mode, simulated table and pointers (in part of the runs)",
            "clock (counts callbacks and seeded delays)",
        ])),
        ("known_findings_met", J::Arr(known.iter().map(|k| J::s(k)).collect())),
        ("harness_errors", J::Arr(harness.iter().map(|k| J::s(k)).collect())),
        ("not_reproduced", J::Arr(unconfirmed.iter().map(|k| J::s(k)).collect())),
    ]);
    let mut text = String::from("{\n");
    let head = [
        ("property", J::s(prop)),
        ("tier", J::s(tier)),
        ("seed", J::Int(seed as i64)),
        ("level", J::s("exploration")),
        ("coverage", coverage),
        (
            "assumptions",
            strs(&[
                "the simulated nodes are pure between the changes of the scenario, as the API requires",
                "exploration is a seeded sample of schedules, faults and graphs, not exhaustive",
            ]),
        ),
        ("violations", J::Int(violations)),
    ];
    for (k, v) in head {
        text += &format!(" \"{k}\": {},\n", v.text());
    }
    text += &format!(" \"wall_s\": {wall:.3}\n}}\n");
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, text).expect("evidence");
}

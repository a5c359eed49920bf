//! csim: deterministic simulation of circuit_converters.
//!
//!   csim check PROPERTY            seeded search (VERIF_SEED, VERIF_TIER), evidence, verdict
//!   csim replay FILE               re-executes a replay file and compares it event by event
//!   csim show PROPERTY INDEX       one run, written out
//!   csim determinism PROPERTY N    runs N seeds twice and compares the event logs
//!   csim worker ..., one ..., shrink ...: used by check
mod aes;
mod back;
mod doc;
mod exec;
mod gadget;
mod gen;
mod lanes;
mod mem;
mod model;
mod plan;
mod prng;
mod seam;
mod shrink;
mod spend;
mod stream;
mod world;

use exec::*;
use plan::Plan;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const PROPS: [&str; 24] = [
    "L01", "L02", "L03", "L04", "W01", "W02", "W03", "E01", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "H01", "D01", "R01", "V01", "Q01", "Z01", "G01", "M01",
];

/// runs of the quick tier
fn quick_runs(p: &str) -> u64 {
    match p {
        "L01" | "L03" => 500_000,
        "L02" => 600_000,
        "L04" => 400_000,
        "W01" | "E01" => 650_000,
        "W02" => 720_000,
        "W03" => 850_000,
        "S01" => 950_000,
        "S02" => 780_000,
        "S03" => 880_000,
        "S04" => 9_000,
        "S05" => 37_000,
        "S06" => 13_500,
        "S07" => 2_400,
        "S08" => 280_000,
        "H01" => 37_000,
        "D01" => 4_500,
        "R01" => 420_000,
        "V01" => 500_000,
        "Q01" => 300_000,
        "Z01" => 1_200,
        "M01" => 15_000,
        "G01" => 40_000,
        _ => 50_000,
    }
}
const THOROUGH: u64 = 30;
/// a run takes milliseconds
const HANG_S: u64 = 90;

#[derive(Serialize, Deserialize, Default, Clone)]
struct Sum {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    skipped: u64,
    evals: u64,
    #[serde(default)]
    lanes: u64,
    calls: u64,
    shorts: u64,
    eintr: u64,
    switches: u64,
    known: u64,
    known_text: Option<String>,
    fired: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
}

impl Sum {
    fn add(&mut self, s: &world::Stats) {
        self.steps += s.steps;
        self.skipped += s.skipped;
        self.evals += s.evals;
        self.lanes += s.lanes;
        self.calls += s.calls;
        self.shorts += s.shorts;
        self.eintr += s.eintr;
        self.switches += s.switches;
        self.known += s.known;
        for (k, v) in &s.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &s.ops {
            *self.ops.entry(k.to_string()).or_default() += v;
        }
        for (k, v) in &s.probes {
            *self.probes.entry(k.to_string()).or_default() += v;
        }
    }
    fn merge(&mut self, o: &Sum) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        self.skipped += o.skipped;
        self.evals += o.evals;
        self.lanes += o.lanes;
        self.calls += o.calls;
        self.shorts += o.shorts;
        self.eintr += o.eintr;
        self.switches += o.switches;
        self.known += o.known;
        if self.known_text.is_none() {
            self.known_text = o.known_text.clone();
        }
        for (a, b) in [(&mut self.fired, &o.fired), (&mut self.ops, &o.ops), (&mut self.probes, &o.probes)] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    kind: String,
    detail: String,
    /// digest of the run's event log
    log_digest: String,
    log: Vec<String>,
    plan: Plan,
}

#[derive(Serialize, Deserialize, Clone)]
struct Found {
    index: u64,
    kind: String,
    detail: String,
}

/// Did the run reach what the property is about?
fn nontrivial(prop: &str, s: &world::Stats) -> bool {
    let op = |n: &str| s.ops.get(n).copied().unwrap_or(0);
    if s.steps < 3 {
        return false;
    }
    match prop {
        "L01" | "L03" => op("load") >= 1 && s.calls >= 2,
        "L02" => s.fired.keys().any(|k| k.starts_with("read:error") || k.starts_with("read:panic")),
        "L04" => op("load") >= 2,
        "W01" => op("write") >= 1,
        "W02" => s.fired.keys().any(|k| k.starts_with("write:error") || k.starts_with("write:zero") || k.starts_with("write:flush") || k.starts_with("write:panic")),
        "W03" => op("write") >= 2,
        "E01" => op("relay") >= 1,
        "S01" => s.switches >= 1 && s.evals >= 1,
        "S02" => op("evaluate") >= 1,
        "S03" => op("instance") >= 1,
        "S04" | "S05" | "S06" => op("word-operation") >= 1,
        "S07" => op("shipped-circuit") >= 1,
        "S08" => s.fired.keys().any(|k| k.contains(":pump:")),
        "D01" => s.probes.contains_key("chain of more than 1000 gates built") || s.probes.contains_key("document of more than 1000 gates loaded"),
        "R01" => op("rejected-request") >= 1,
        "V01" => op("hand-over") >= 1,
        "Q01" => op("read-back") >= 1,
        "G01" => op("backend-load") + op("backend-word") + op("backend-shipped-circuit") >= 1,
        "M01" => op("measured-requests") >= 1,
        "Z01" => op("bulk") >= 1 || s.probes.keys().any(|k| k.contains("65536")),
        _ => s.evals >= 1,
    }
}

const RULES: [(&str, &str); 24] = [
    ("L01", "at least one document was loaded through a scripted stream"),
    ("L02", "a hard error or panic of the stream fired during a load"),
    ("L03", "at least one (mostly torn or damaged) document was loaded"),
    ("L04", "at least two loads were made"),
    ("W01", "at least one circuit was written through a scripted sink and its document interpreted and loaded back"),
    ("W02", "a hard error, refused write, failed flush or panic of the sink fired"),
    ("W03", "at least two writes were made"),
    ("E01", "at least one export/import generation was made"),
    ("S01", "at least one switch between clients happened and every signal was checked"),
    ("S02", "at least one evaluation was requested during the history"),
    ("S03", "at least one module instance was made"),
    ("S04", "at least one integer operation was made"),
    ("S05", "at least one bit-vector operation was made"),
    ("S06", "at least one field operation was made"),
    ("S07", "at least one shipped circuit was added"),
    ("S08", "at least one batch of requests ran inside a stream call"),
    ("D01", "a chain or document of more than a thousand gates was built and used"),
    ("R01", "at least one request that names something that does not exist was made"),
    ("V01", "at least one hand-over of bits through scripted storage was made"),
    ("Q01", "at least one circuit was read back gate by gate in the middle of the history"),
    ("M01", "at least one kind of request was repeated with its memory measured"),
    ("Z01", "at least one batch of (mostly tens of thousands of) requests was made or document of that size loaded"),
    ("G01", "at least one document, shipped circuit or word operation met a circuit implementation of the simulator's own"),
    ("H01", "at least one evaluation was made and the run was repeated under every hash seed"),
];

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    let l = [3u64 << 30, 3u64 << 30];
    let core = [0u64, 0u64];
    // SAFETY: plain system calls on initialised structures (RLIMIT_AS, RLIMIT_CORE)
    unsafe {
        setrlimit(9, &l);
        setrlimit(4, &core);
    }
}

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}

/// `known: property=<id> class=<class> ...` lines of the committed known-findings file
fn known(prop: &str, class: &str) -> Option<String> {
    let t = std::fs::read_to_string(env("CSIM_KNOWN", "known_findings.txt")).unwrap_or_default();
    t.lines().find(|l| l.starts_with(&format!("known: property={prop} class={class} "))).map(|l| l.to_string())
}
fn fp_known(prop: &str) -> bool {
    prop != "S06" || known("S06", "product-is-zero").is_some()
}

fn worker(a: &[String]) -> ! {
    let prop = a[0].clone();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (master, w, ws, runs, secs) = (n(1), n(2), n(3), n(4), n(5));
    let dir = PathBuf::from(&a[6]);
    limit_memory();
    quiet_panics();
    let t0 = Instant::now();
    let mut status = std::fs::File::create(dir.join(format!("status.{w}"))).unwrap();
    let mut sum = Sum::default();
    let mut digests: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    let fpk = fp_known(&prop);
    let stop = dir.join("stop");
    let mut i = w;
    let mut k = 0u64;
    while i < runs && t0.elapsed().as_secs() < secs {
        if k % 16 == 0 {
            if let Ok(s) = std::fs::read_to_string(&stop) {
                if s.trim().parse::<u64>().is_ok_and(|m| i > m) {
                    break;
                }
            }
        }
        k += 1;
        status.seek(SeekFrom::Start(0)).unwrap();
        status.write_all(&i.to_le_bytes()).unwrap();
        let p = gen::plan(&prop, master, i);
        let o = execute(&p, false, fpk);
        sum.runs += 1;
        sum.add(&o.stats);
        if sum.known_text.is_none() {
            sum.known_text = o.known.clone();
        }
        if nontrivial(&prop, &o.stats) {
            sum.nontrivial += 1;
            if digests.len() < 3_000_000 {
                digests.insert(o.digest);
                inter.insert(interleaving(&p.steps));
            }
        }
        if let Some((kind, detail)) = o.viol {
            let f = Found { index: i, kind, detail };
            std::fs::write(dir.join(format!("viol.{w}")), serde_json::to_string(&f).unwrap()).unwrap();
            break;
        }
        i += ws;
    }
    let dump = |name: &str, s: &HashSet<u64>| {
        let mut v = Vec::with_capacity(s.len() * 8);
        for d in s {
            v.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(dir.join(format!("{name}.{w}")), v).unwrap();
    };
    dump("digests", &digests);
    dump("inter", &inter);
    std::fs::write(dir.join(format!("sum.{w}")), serde_json::to_string(&sum).unwrap()).unwrap();
    exit(0)
}

enum End {
    Held,
    Violation(String, String),
    Crash(String),
    Hang,
    Harness(String),
}

/// One plan in a process of its own, for runs that may not return.
fn isolated(plan: &Plan, secs: u64, dir: &Path) -> End {
    let f = dir.join("one.json");
    std::fs::write(&f, serde_json::to_string(plan).unwrap()).unwrap();
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new(me)
        .arg("one")
        .arg(&f)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            let mut out = String::new();
            let _ = c.stdout.take().unwrap().read_to_string(&mut out);
            return match s.code() {
                Some(0) => End::Held,
                Some(10) => {
                    let f: Found = serde_json::from_str(&out).unwrap();
                    End::Violation(f.kind, f.detail)
                }
                Some(70) => End::Harness(out),
                _ => End::Crash(format!("the process ended with {s}")),
            };
        }
        if t0.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn one(path: &str) -> ! {
    limit_memory();
    quiet_panics();
    let plan: Plan = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let o = execute(&plan, false, fp_known(&plan.property));
    match o.viol {
        None => exit(0),
        Some((kind, detail)) => {
            println!("{}", serde_json::to_string(&Found { index: 0, kind, detail }).unwrap());
            exit(10)
        }
    }
}

fn self_checks() {
    if !seam::self_check() {
        eprintln!("harness error: the hash seed seam does not own the process's hash keys");
        exit(70);
    }
    if !mem::self_check() {
        eprintln!("harness error: the memory seam does not see the process's allocations");
        exit(70);
    }
    if !aes::self_check() {
        eprintln!("harness error: the AES reference disagrees with FIPS-197");
        exit(70);
    }
}

fn check(prop: &str) -> ! {
    self_checks();
    quiet_panics();
    let master: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = if env("VERIF_TIER", "quick") == "thorough" { "thorough" } else { "quick" };
    let scale = if tier == "thorough" { THOROUGH } else { 1 };
    let runs: u64 = env("CSIM_RUNS", "").parse().unwrap_or(quick_runs(prop) * scale);
    let secs: u64 = env("CSIM_SECS", "").parse().unwrap_or(if tier == "thorough" { 5400 } else { 330 });
    let ws: u64 = env("CSIM_WORKERS", "").parse().unwrap_or_else(|_| std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16));
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("csim-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let me = std::env::current_exe().unwrap();
    let mut kids: Vec<Option<Child>> = (0..ws)
        .map(|w| {
            Some(
                Command::new(&me)
                    .args(["worker", prop, &master.to_string(), &w.to_string(), &ws.to_string(), &runs.to_string(), &secs.to_string()])
                    .arg(&dir)
                    .stdout(Stdio::null())
                    .spawn()
                    .expect("worker"),
            )
        })
        .collect();
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); ws as usize];
    let mut found: Vec<Found> = vec![];
    let status = |w: usize| -> u64 {
        std::fs::read(dir.join(format!("status.{w}"))).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(0)
    };
    let mut harness: Option<String> = None;
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..ws as usize {
            let Some(k) = &mut kids[w] else { continue };
            let mut over = None;
            if let Some(s) = k.try_wait().unwrap() {
                if s.code() == Some(0) {
                    if let Ok(t) = std::fs::read_to_string(dir.join(format!("viol.{w}"))) {
                        over = Some(Some(serde_json::from_str::<Found>(&t).unwrap()));
                    } else {
                        over = Some(None);
                    }
                } else if s.code() == Some(70) || s.code() == Some(101) {
                    harness = Some(format!("a worker reported a harness error at run {}", status(w)));
                    over = Some(None);
                } else {
                    over = Some(Some(Found { index: status(w), kind: "crash".into(), detail: format!("the process ended with {s}") }));
                }
            } else {
                let s = status(w);
                if s != last[w].0 {
                    last[w] = (s, Instant::now());
                } else if last[w].1.elapsed().as_secs() > HANG_S {
                    let _ = k.kill();
                    let _ = k.wait();
                    over = Some(Some(Found { index: s, kind: "hang".into(), detail: format!("the run did not end within {HANG_S} s") }));
                }
            }
            if let Some(f) = over {
                kids[w] = None;
                if let Some(f) = f {
                    found.push(f);
                    let m = found.iter().map(|f| f.index).min().unwrap();
                    let tmp = dir.join("stop.tmp");
                    std::fs::write(&tmp, m.to_string()).unwrap();
                    std::fs::rename(&tmp, dir.join("stop")).unwrap();
                }
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut sum = Sum::default();
    let mut digests: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    for w in 0..ws {
        if let Ok(t) = std::fs::read_to_string(dir.join(format!("sum.{w}"))) {
            sum.merge(&serde_json::from_str(&t).unwrap());
        }
        for (n, s) in [("digests", &mut digests), ("inter", &mut inter)] {
            if let Ok(b) = std::fs::read(dir.join(format!("{n}.{w}"))) {
                s.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    found.sort_by_key(|f| f.index);
    let mut verdict: Option<(Found, PathBuf)> = None;
    for f in &found {
        let plan = gen::plan(prop, master, f.index);
        let hard = f.kind == "crash" || f.kind == "hang";
        if hard {
            let ok = match isolated(&plan, HANG_S, &dir) {
                End::Crash(_) => f.kind == "crash",
                End::Hang => f.kind == "hang",
                End::Violation(..) => true,
                _ => false,
            };
            if !ok {
                harness = Some(format!("run {} ended in a {} that does not repeat", f.index, f.kind));
                continue;
            }
        }
        verdict = Some((f.clone(), report(prop, f, plan, &dir)));
        break;
    }
    evidence(prop, tier, master, &sum, &digests, &inter, search_s, t0, runs, ws, verdict.is_some());
    let _ = std::fs::remove_dir_all(&dir);
    if sum.known > 0 && known(prop, "product-is-zero").is_some() {
        println!("KNOWN-FINDING: property={prop} products modulo the prime are always zero ({})", sum.known_text.clone().unwrap_or_default());
    }
    println!(
        "{prop}: {} runs, {} distinct histories, {} requests, {} stream calls, {:.1} s",
        sum.runs,
        digests.len(),
        sum.steps,
        sum.calls,
        t0.elapsed().as_secs_f64()
    );
    if let Some((f, path)) = verdict {
        println!("{}: {}", f.kind, f.detail.replace('\n', " "));
        println!("VIOLATION property={prop} replay={}", path.display());
        exit(1);
    }
    if let Some(h) = harness {
        eprintln!("harness error: {h}");
        exit(70);
    }
    if sum.runs < 20 {
        eprintln!("harness error: only {} runs were made", sum.runs);
        exit(70);
    }
    exit(0)
}

/// Minimises a plan in a process of its own: a smaller plan may fail in a way that ends the process.
fn shrink_aside(plan: &Plan, secs: u64, kind: &str, dir: &Path) -> Plan {
    let (from, to) = (dir.join("big.json"), dir.join("small.json"));
    std::fs::write(&from, serde_json::to_string(plan).unwrap()).unwrap();
    let best = || std::fs::read_to_string(&to).ok().and_then(|t| serde_json::from_str::<Plan>(&t).ok()).unwrap_or(plan.clone());
    let t0 = Instant::now();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("shrink")
        .args([&from, &to])
        .args([kind, &secs.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            if s.success() {
                return best();
            }
            break;
        }
        if t0.elapsed().as_secs() >= secs + 20 {
            let _ = c.kill();
            let _ = c.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    let left = secs.saturating_sub(t0.elapsed().as_secs()).max(10);
    shrink::shrink(&best(), left, &mut |p| matches!(isolated(p, 20, dir), End::Violation(k, _) if k == kind))
}

fn shrink_here(from: &str, to: &str, kind: &str, secs: u64) -> ! {
    limit_memory();
    quiet_panics();
    let plan: Plan = serde_json::from_str(&std::fs::read_to_string(from).unwrap()).unwrap();
    let fpk = fp_known(&plan.property);
    let tmp = format!("{to}.tmp");
    shrink::shrink(&plan, secs, &mut |p| {
        let yes = execute(p, false, fpk).viol.is_some_and(|v| v.0 == kind);
        if yes {
            std::fs::write(&tmp, serde_json::to_string(p).unwrap()).unwrap();
            std::fs::rename(&tmp, to).unwrap();
        }
        yes
    });
    exit(0)
}

/// Minimises the plan and writes the replay file.
fn report(prop: &str, f: &Found, plan: Plan, dir: &Path) -> PathBuf {
    let secs = if env("VERIF_TIER", "quick") == "thorough" { 120 } else { 40 };
    let fpk = fp_known(prop);
    let out = PathBuf::from(env("CSIM_REPLAYS", "replays"));
    std::fs::create_dir_all(&out).unwrap();
    let path = out.join(format!("{prop}-{:016x}.json", plan.seed));
    let path = std::env::current_dir().unwrap().join(path);
    let r = if f.kind == "crash" || f.kind == "hang" {
        let t = if f.kind == "hang" { 20 } else { 60 };
        let small = shrink::shrink(&plan, secs, &mut |p| match isolated(p, t, dir) {
            End::Crash(_) => f.kind == "crash",
            End::Hang => f.kind == "hang",
            _ => false,
        });
        Replay { property: prop.into(), kind: f.kind.clone(), detail: f.detail.clone(), log_digest: String::new(), log: vec![], plan: small }
    } else {
        let small = shrink_aside(&plan, secs, &f.kind, dir);
        let o = execute(&small, true, fpk);
        let (kind, detail) = o.viol.unwrap_or((f.kind.clone(), f.detail.clone()));
        Replay { property: prop.into(), kind, detail, log_digest: format!("{:016x}", o.digest), log: o.text, plan: small }
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    path
}

fn replay(path: &str) -> ! {
    self_checks();
    quiet_panics();
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let prop = r.property.clone();
    if r.kind == "crash" || r.kind == "hang" {
        let dir = std::env::temp_dir().join(format!("csim-replay-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let e = isolated(&r.plan, HANG_S, &dir);
        let _ = std::fs::remove_dir_all(&dir);
        match (e, r.kind.as_str()) {
            (End::Crash(d), "crash") => println!("reproduced: {d}"),
            (End::Hang, "hang") => println!("reproduced: the run does not end"),
            (End::Held, _) => {
                println!("not reproduced: the run holds");
                exit(0)
            }
            _ => {
                println!("the run ends differently");
                exit(2)
            }
        }
    } else {
        let o = execute(&r.plan, true, fp_known(&prop));
        for l in &o.text {
            println!("  {l}");
        }
        match o.viol {
            None => {
                println!("not reproduced: the run holds");
                exit(0)
            }
            Some((k, d)) => {
                println!("{k}: {d}");
                let same = format!("{:016x}", o.digest) == r.log_digest && k == r.kind;
                println!("{}", if same { "reproduced: every event is the same" } else { "the run fails, but not in the same way" });
                if !same {
                    println!("VIOLATION property={prop} replay={path}");
                    exit(2)
                }
            }
        }
    }
    println!("VIOLATION property={prop} replay={path}");
    exit(1)
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, master: u64, s: &Sum, digests: &HashSet<u64>, inter: &HashSet<u64>, search_s: f64, t0: Instant, planned: u64, ws: u64, bad: bool) {
    let mut samples = vec![];
    if !bad {
        for i in [0u64, 1, 2] {
            if i >= planned {
                break;
            }
            let p = gen::plan(prop, master, i);
            let o = execute(&p, true, fp_known(prop));
            let head: Vec<String> = o.text.iter().take(40).cloned().collect();
            samples.push(serde_json::json!({
                "run": i, "seed": p.seed, "hash_seed": p.hash_seed, "clients": p.clients, "requests": p.steps.len(),
                "log_digest": format!("{:016x}", o.digest), "events": head, "events_total": o.text.len(),
            }));
        }
    }
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &s.fired {
        let mut t = k.split(':');
        let n = format!("{}:{}", t.next().unwrap_or(""), t.next().unwrap_or(""));
        *kinds.entry(n).or_default() += v;
    }
    let hour = |n: f64| (n / search_s.max(0.001) * 3600.0).round();
    let rule = RULES.iter().find(|r| r.0 == prop).map_or("", |r| r.1);
    let e = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": master,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": digests.len(),
            "rule": format!("One case is one simulated run: a plan (clients, requests, documents, stream scripts, faults, hash seed) drawn from the run's seed and executed against the real library; a case is non-trivial when {rule}; cases are distinct when their event logs (every request, result, size and value) differ."),
            "nontrivial_runs": s.nontrivial,
            "distinct_interleavings": inter.len(),
            "interleaving_measure": "sequence of (client, request kind) with every stream fault's kind and place, nested requests included",
            "planned_runs": planned,
            "workers": ws,
            "runs_per_hour": hour(s.runs as f64),
            "seeds_per_hour": hour(s.runs as f64),
            "simulated_time": { "unit": "requests and stream calls (the system has no clock)", "requests": s.steps, "requests_without_effect": s.skipped, "stream_calls": s.calls },
            "client_switches": s.switches,
            "evaluations_of_circuits": s.evals,
            "vectors_over_folded_circuits": s.lanes,
            "faults_injected": kinds,
            "faults_by_place": s.fired,
            "short_transfers": s.shorts,
            "interrupted_calls": s.eintr,
            "requests_by_kind": s.ops,
            "rare_situations_reached": s.probes,
            "known_finding_hits": s.known,
            "real_code": ["circuit_converters (all of it: circuits, references, module stores, evaluator, reader, writer, integer/bit-vector/field front ends, shipped documents)", "std BufReader/BufWriter", "std HashMap with simulated keys", "system allocator, counted and (M01) given a budget"],
            "stubs": ["byte source under the reader", "byte sink under the writer", "getrandom(2), hence the hash tables' keys", "storage that keeps acknowledged bytes across crashes (E01)", "the circuit implementation under the loader, shipped circuits and front ends (G01 only)"],
            "samples": samples,
        },
        "assumptions": [
            "The system is single-threaded: reference-counted cells cannot cross threads, so interleavings are of whole requests and of requests made inside stream calls.",
            "Circuits are small (a few thousand gates at most, except shipped circuits, the chains of D01 and the circuits of Z01) and are compared on sampled input vectors."
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": bad as u64,
    });
    let dir = PathBuf::from(env("CSIM_EVIDENCE", "evidence"));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap()).unwrap();
}

fn determinism(prop: &str, n: u64) -> ! {
    quiet_panics();
    self_checks();
    let mut d = vec![0u64; n as usize];
    for i in 0..n {
        d[i as usize] = execute(&gen::plan(prop, 1, i), false, true).digest;
    }
    let mut bad = 0;
    for i in (0..n).rev() {
        let o = execute(&gen::plan(prop, 1, i), true, true);
        if o.digest != d[i as usize] {
            println!("run {i} differs");
            bad += 1;
        }
    }
    let all = d.iter().fold(prng::FNV0, |h, x| prng::fnv(h, &x.to_le_bytes()));
    println!("{prop}: {n} runs repeated, {bad} differ, digest of all {all:016x}");
    exit((bad > 0) as i32)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let usage = || -> ! {
        eprintln!("usage: csim check PROPERTY | replay FILE | show PROPERTY INDEX | determinism PROPERTY N");
        exit(64)
    };
    match (a.first().map(|s| s.as_str()), a.len()) {
        (Some("check"), 2) if PROPS.contains(&a[1].as_str()) => check(&a[1]),
        (Some("worker"), 8) => worker(&a[1..]),
        (Some("one"), 2) => one(&a[1]),
        (Some("shrink"), 5) => shrink_here(&a[1], &a[2], &a[3], a[4].parse().unwrap_or(40)),
        (Some("replay"), 2) => replay(&a[1]),
        (Some("determinism"), 3) => determinism(&a[1], a[2].parse().unwrap_or(100)),
        (Some("show"), 3) => {
            quiet_panics();
            let p = gen::plan(&a[1], env("VERIF_SEED", "1").parse().unwrap_or(1), a[2].parse().unwrap_or(0));
            println!("{}", serde_json::to_string(&p).unwrap());
            let o = execute(&p, true, fp_known(&a[1]));
            let out = std::io::stdout();
            let mut out = out.lock();
            for l in &o.text {
                let _ = writeln!(out, "  {l}");
            }
            let _ = writeln!(out, "{:?} {:016x}", o.viol, o.digest);
        }
        _ => usage(),
    }
}

//! Executes plans: one plan, one thread, one repeatable run.
use crate::plan::*;
use crate::prng::{fnv, FNV0};
use crate::seam::set_hash_seed;
use crate::stream::Unwound;
use crate::world::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct Outcome {
    pub viol: Option<(String, String)>,
    pub digest: u64,
    pub stats: Stats,
    pub text: Vec<String>,
    pub known: Option<String>,
}

thread_local! {
    static WHERE: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are values here; only their place is remembered.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = WHERE.try_with(|w| *w.borrow_mut() = l);
    }));
}

fn run(plan: &Plan, verbose: bool, fp_known: bool) -> Outcome {
    let w = Rc::new(RefCell::new(W::new(plan, verbose)));
    w.borrow_mut().fp_known = fp_known;
    let r = catch_unwind(AssertUnwindSafe(|| {
        run_steps(&w, &plan.steps, 0);
        w.borrow_mut().finish();
    }));
    if r.is_err() {
        let at = WHERE.with(|x| x.borrow().clone());
        if at.starts_with("src/") {
            // the clients and the model hold for any library that keeps the properties
            w.borrow_mut().fail("unexpected", format!("a client could make nothing of what the library gave it (at {at} of the simulator)"));
        } else {
            w.borrow_mut().fail("panic", format!("library code panicked at {at}"));
        }
    }
    let mut b = w.borrow_mut();
    let _ = Unwound::Stall;
    let o = Outcome {
        viol: b.viol.take(),
        digest: b.digest,
        stats: std::mem::take(&mut b.stats),
        text: b.text.take().unwrap_or_default(),
        known: b.known_hit.take(),
    };
    b.teardown();
    o
}

fn once(plan: &Plan, hash_seed: u64, verbose: bool, fp_known: bool) -> Outcome {
    let plan = plan.clone();
    let h = std::thread::Builder::new()
        .stack_size(if plan.stack == 0 { 192 << 20 } else { (plan.stack as usize) << 10 })
        .spawn(move || {
            set_hash_seed(hash_seed);
            run(&plan, verbose, fp_known)
        })
        .expect("thread");
    match h.join() {
        Ok(o) => o,
        Err(_) => {
            eprintln!("harness error: a run died");
            std::process::exit(70);
        }
    }
}

pub const HASH_SEEDS: u64 = 3;

pub fn execute(plan: &Plan, verbose: bool, fp_known: bool) -> Outcome {
    let mut o = once(plan, plan.hash_seed, verbose, fp_known);
    if plan.property != "H01" {
        return o;
    }
    // the same requests in processes with other hash seeds
    let own = o.viol.take();
    for k in 1..HASH_SEEDS {
        let hs = plan.hash_seed.wrapping_add(k.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        let p = once(plan, hs, false, fp_known);
        if p.digest != o.digest {
            let a = once(plan, plan.hash_seed, true, fp_known).text;
            let b = once(plan, hs, true, fp_known).text;
            let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
            let none = "nothing".to_string();
            let d = format!(
                "with hash seed {} event {i} is '{}', with hash seed {hs} it is '{}'",
                plan.hash_seed,
                a.get(i).unwrap_or(&none),
                b.get(i).unwrap_or(&none)
            );
            o.viol = Some(("hash-dependent".into(), d));
            o.text = if verbose { a } else { vec![] };
            return o;
        }
    }
    if own.is_some() {
        *o.stats.probes.entry("stopped by a violation of another property").or_default() += 1;
    }
    o
}

/// Which client asked for what, in order.
pub fn interleaving(steps: &[Step]) -> u64 {
    let mut h = FNV0;
    for s in steps {
        h = fnv(h, &[s.by]);
        h = fnv(h, op_name(&s.op).as_bytes());
        let fs: Vec<&Fault> = match &s.op {
            Op::Load { src, .. } => src.faults.iter().collect(),
            Op::Write { sink, .. } => sink.faults.iter().collect(),
            Op::Relay { exports, imports, .. } => {
                exports.iter().flat_map(|a| a.sink.faults.iter()).chain(imports.iter().flat_map(|s| s.faults.iter())).collect()
            }
            _ => vec![],
        };
        for f in fs {
            h = fnv(h, &f.at.to_le_bytes());
            let k = match &f.kind {
                FaultKind::Eintr(n) => *n as u64,
                FaultKind::Err { kind, sticky } => 1000 + *kind as u64 * 2 + *sticky as u64,
                FaultKind::Zero => 2000,
                FaultKind::Panic => 2001,
                FaultKind::Pump(s) => interleaving(s),
            };
            h = fnv(h, &k.to_le_bytes());
        }
    }
    h
}

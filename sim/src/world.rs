//! One simulated process: the library's real objects, the clients' handles on them, and the reference model.
use crate::doc::{self, Doc, B, U};
use crate::gadget::big;
use crate::gadget::{self, Gadget};
use crate::lanes::Lanes;
use crate::model::*;
use crate::plan::*;
use crate::prng::{fnv, Rng, FNV0};
use crate::stream::*;
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::build_aes128;
use circuit_converters::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufReader, BufWriter, Write};
use std::rc::Rc;

pub type Store = ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>;
pub type Wr = BristolNXAOWriter<SimSink>;

pub struct FpMul {
    gids: Vec<GateId>,
    a: Vec<u32>,
    b: Vec<u32>,
    p: u128,
}

pub struct Circ {
    pub h: CRef,
    pub m: MCirc,
    gid: Vec<Option<GateId>>,
    /// items that are signals a client holds
    sigs: Vec<u32>,
    ids: BTreeSet<u64>,
    store: usize,
    sealed: bool,
    loads: Vec<Vec<u32>>,
    consts: usize,
    gates: usize,
    fpmul: Vec<FpMul>,
    /// items a client asked for as exactly this gate
    plain: BTreeSet<u32>,
    /// half-built circuit of a failed import
    junk: bool,
}

impl Circ {
    fn new(h: CRef, store: usize) -> Self {
        Circ {
            h,
            m: MCirc::default(),
            gid: vec![],
            sigs: vec![],
            ids: BTreeSet::new(),
            store,
            sealed: false,
            loads: vec![],
            consts: 0,
            gates: 0,
            fpmul: vec![],
            plain: BTreeSet::new(),
            junk: false,
        }
    }
    fn cost(&self) -> usize {
        self.gates + self.consts + self.m.inputs.len()
    }
    fn set_gid(&mut self, item: u32, g: GateId) {
        if self.gid.len() <= item as usize {
            self.gid.resize(item as usize + 1, None);
        }
        self.gid[item as usize] = Some(g);
    }
}

struct Mod {
    store: usize,
    mid: ModuleId,
    circ: usize,
}

#[derive(Clone)]
struct Word {
    items: Vec<u32>,
    gids: Vec<GateId>,
}

struct Gad {
    g: Box<dyn Gadget<NXAOBoolGate, NXAOBoolCircuit>>,
    owner: u8,
    fam: u8,
    idx: usize,
    n: usize,
    p: u128,
    c: usize,
    words: Vec<Word>,
    ext: bool,
}

#[derive(Default)]
struct Client {
    handles: BTreeMap<usize, CRef>,
    readers: BTreeMap<u8, BristolNXAOReader>,
    writers: BTreeMap<u8, (usize, Wr)>,
    evals: BTreeMap<u8, (usize, NXAOBoolEvaluator)>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub skipped: u64,
    pub evals: u64,
    pub lanes: u64,
    pub calls: u64,
    pub shorts: u64,
    pub eintr: u64,
    pub fired: BTreeMap<String, u64>,
    pub ops: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub switches: u64,
    pub known: u64,
}

pub struct W {
    pub prop: String,
    pub circs: Vec<Circ>,
    stores: Vec<Store>,
    mods: Vec<Mod>,
    clients: Vec<Client>,
    gads: Vec<Option<Gad>>,
    pub digest: u64,
    pub text: Option<Vec<String>>,
    pub stats: Stats,
    pub viol: Option<(String, String)>,
    last_by: u8,
    limit: usize,
    /// tens of thousands of everything
    large: bool,
    max_mods: usize,
    salt: u64,
    pub backs: crate::back::Backs,
    pub fp_known: bool,
    pub known_hit: Option<String>,
}

pub struct LoadDoc {
    pub bytes: Rc<Vec<u8>>,
    pub full: Rc<Doc>,
    pub line_ends: Vec<usize>,
    pub orig_len: usize,
    pub torn: bool,
}

macro_rules! log {
    ($w:expr, $($a:tt)*) => { $w.log(&format!($($a)*)) };
}

pub fn operands(g: &NXAOBoolGate) -> Vec<GateId> {
    match g {
        NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_) => vec![],
        NXAOBoolGate::Not(x) => vec![x.id],
        NXAOBoolGate::Xor(x) => vec![x.left_id, x.right_id],
        NXAOBoolGate::And(x) => vec![x.left_id, x.right_id],
        NXAOBoolGate::Or(x) => vec![x.left_id, x.right_id],
        NXAOBoolGate::Module(x) => x.input_ids.to_vec(),
    }
}

fn wid(k: usize) -> WireId {
    WireId(k as u64)
}

/// Input values for a circuit: plain patterns, and numbers that stand in some relation where inputs are numbers.
pub fn vector(m: &MCirc, r: &mut Rng) -> Vec<bool> {
    let n = m.inputs.len();
    let mode = r.below(8);
    let mut v: Vec<bool> = (0..n)
        .map(|_| match mode {
            0 => false,
            1 => true,
            2 => r.below(8) == 0,
            3 => r.below(8) != 0,
            _ => r.bool(),
        })
        .collect();
    if mode >= 2 || m.groups.iter().any(|g| g.modulus != 0) {
        let mut base = r.u128();
        if r.below(3) == 0 {
            base >>= r.below(128);
        }
        let twins = r.below(4) == 0;
        let high = r.u128();
        for g in &m.groups {
            let top = if g.len >= 128 { u128::MAX } else { (1u128 << g.len) - 1 };
            let md = if g.modulus != 0 { g.modulus } else { 0 };
            let b = if md != 0 { base % md } else { base & top };
            let neg = |x: u128| if md != 0 { (md - x % md) % md } else { x.wrapping_neg() & top };
            let x = match if twins { 30 + r.below(6) } else { r.below(27) } {
                30 | 31 => b ^ 1u128 << r.below(g.len.clamp(1, 128) as u64),
                32.. => b,
                0 => 0,
                1 => 1,
                2 => {
                    if md != 0 {
                        md - 1
                    } else {
                        top
                    }
                }
                3 => 1u128 << (g.len - 1).min(127),
                4 => (1u128 << (g.len - 1).min(127)) - 1,
                5 | 6 => b,
                7 => neg(b),
                8 => b.wrapping_add(1),
                9 => b.wrapping_sub(1),
                10 => r.below(8) as u128,
                11 => b ^ 1u128 << r.below(g.len.clamp(1, 128) as u64),
                12 => b.wrapping_add(1u128 << r.below(g.len.clamp(1, 128) as u64)),
                13 => (1u128 << r.below(g.len.clamp(1, 128) as u64)) - 1,
                14 => neg(1u128 << r.below(g.len.clamp(1, 128) as u64)),
                16 | 17 => (r.u128() & top) >> r.below(g.len.clamp(1, 128) as u64),
                18 => neg((r.u128() & top) >> r.below(g.len.clamp(1, 128) as u64)),
                19 => b.wrapping_mul((r.u128() & top) >> r.below(g.len.clamp(1, 128) as u64)).wrapping_add(r.below(3) as u128).wrapping_sub(1),
                // low bits clear, powers of two and their neighbours, of either sign
                22 | 23 => (r.u128() & top) << r.below(g.len.clamp(1, 128) as u64),
                24 => neg(1u128 << r.below(g.len.clamp(1, 128) as u64)).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                25 => (1u128 << r.below(g.len.clamp(1, 128) as u64)).wrapping_add(r.below(5) as u128).wrapping_sub(2),
                26 => neg((r.u128() & top) >> r.below(g.len.clamp(1, 128) as u64) << r.below(g.len.clamp(1, 128) as u64)),
                15 => 0x5555_5555_5555_5555_5555_5555_5555_5555 << r.below(2),
                _ => r.u128(),
            };
            let x = if md != 0 { x % md } else { x & top };
            let above = match r.below(if twins { 8 } else { 5 }) {
                0 => 0,
                1 => u128::MAX,
                2 => high ^ 1u128 << r.below(128),
                _ => high,
            };
            for i in 0..g.len {
                v[g.start + i] = if i < 128 { x >> i } else if md != 0 { 0 } else { above >> (i % 128) } & 1 == 1;
            }
        }
    }
    for (i, x) in &m.pinned {
        v[*i] = *x;
    }
    v
}

impl W {
    pub fn new(plan: &Plan, verbose: bool) -> Self {
        let mut w = W {
            prop: plan.property.clone(),
            circs: vec![],
            stores: vec![],
            mods: vec![],
            clients: (0..plan.clients.max(1)).map(|_| Client::default()).collect(),
            gads: vec![],
            digest: FNV0,
            text: if verbose { Some(vec![]) } else { None },
            stats: Stats::default(),
            viol: None,
            last_by: 0,
            max_mods: if plan.steps.iter().any(|s| matches!(s.op, Op::Burst { n, .. } if n > 250)) { 600 } else { 40 },
            limit: match plan.property.as_str() {
                "S04" | "S06" => 9000,
                "S07" => 60000,
                "D01" => 120_000,
                "Z01" => 800_000,
                "M01" => 60_000,
                _ => 4000,
            },
            large: plan.property == "Z01",
            salt: plan.seed,
            backs: Default::default(),
            fp_known: false,
            known_hit: None,
        };
        w.new_circ(None);
        w
    }

    pub fn log(&mut self, s: &str) {
        self.digest = fnv(self.digest, s.as_bytes());
        self.digest = fnv(self.digest, b"\n");
        if let Some(t) = &mut self.text {
            t.push(s.to_string());
        }
    }

    pub fn fail(&mut self, kind: &str, detail: String) {
        if self.viol.is_none() {
            log!(self, "VIOLATION {kind}: {detail}");
            self.viol = Some((kind.to_string(), detail));
        }
    }

    pub fn probe(&mut self, p: &'static str) {
        *self.stats.probes.entry(p).or_default() += 1;
    }

    /// Library call that must succeed.
    fn must<T, E: std::fmt::Display>(&mut self, what: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
        match quiet(f) {
            Ok(Ok(t)) => Some(t),
            Ok(Err(e)) => {
                self.fail("refused", format!("{what} was refused: {e}"));
                None
            }
            Err(p) => {
                self.fail("panic", format!("{what} panicked: {p:?}"));
                None
            }
        }
    }

    fn new_circ(&mut self, share: Option<usize>) -> usize {
        let s = match share {
            Some(s) => s,
            None => {
                self.stores.push(Store::new());
                self.stores.len() - 1
            }
        };
        let h = NXAOBoolCircuit::new(self.stores[s].clone()).to_ref();
        self.circs.push(Circ::new(h, s));
        self.circs.len() - 1
    }

    /// `u32::MAX` names the newest circuit.
    pub fn circuit(&self, c: u32) -> (usize, CRef) {
        let ci = self.cidx(c);
        (ci, self.circs[ci].h.clone())
    }

    fn cidx(&self, c: u32) -> usize {
        if c == u32::MAX {
            return self.circs.len() - 1;
        }
        c as usize % self.circs.len()
    }

    fn handle(&mut self, by: u8, c: usize) -> CRef {
        let root = &self.circs[c].h;
        let k = by as usize % self.clients.len();
        self.clients[k].handles.entry(c).or_insert_with(|| root.clone()).clone()
    }

    fn pick_sig(&self, c: usize, k: u32) -> Option<(u32, GateId)> {
        let s = &self.circs[c].sigs;
        if s.is_empty() {
            return None;
        }
        // small references reach back from the newest signal
        let i = s.len() - 1 - (k as usize % s.len());
        let it = s[i];
        Some((it, self.circs[c].gid[it as usize].unwrap()))
    }

    /// A signal handed out for `item`; `new`: it must not have been handed out before.
    fn signal(&mut self, c: usize, item: u32, g: GateId, new: bool, what: &str) {
        let known = !self.circs[c].ids.insert(g.0);
        if known && new {
            self.fail("id-reused", format!("{what} returned signal {g}, which circuit {c} had already handed out"));
        }
        let ci = &mut self.circs[c];
        ci.set_gid(item, g);
        if !known {
            ci.sigs.push(item);
        }
    }

    fn counts(&mut self, c: usize, when: &str) {
        let ci = &self.circs[c];
        let h = ci.h.clone();
        let exp = (ci.m.inputs.len(), ci.m.outputs.len(), ci.consts, ci.gates, ci.m.inputs.len() + ci.consts + ci.gates);
        let got = match quiet(|| (h.input_len(), h.output_len(), h.num_const(), h.num_gate(), h.num_wire())) {
            Ok(g) => g,
            Err(p) => return self.fail("panic", format!("reading the sizes of circuit {c} after {when}: {p:?}")),
        };
        log!(self, "  c{c} {got:?}");
        if got != exp {
            self.fail(
                "counts",
                format!("after {when} circuit {c} reports (inputs, outputs, constants, gates, wires) {got:?}, expected {exp:?}"),
            );
        }
    }

    /// Takes over what the load suspended in a stream call has added to circuit `c` so far.
    pub fn absorb(&mut self, c: u32) {
        let c = c as usize;
        let h = self.circs[c].h.clone();
        let (n, gates, consts) = (h.input_len(), h.num_gate(), h.num_const());
        for k in self.circs[c].m.inputs.len()..n {
            match quiet(|| h.input_to_gate_id(&wid(k))) {
                Ok(Ok(Some(g))) => {
                    let it = self.circs[c].m.add_input();
                    self.signal(c, it, g, true, "a load's input");
                    if let Some(l) = self.circs[c].loads.last_mut() {
                        l.push(it);
                    }
                }
                r => return self.fail("input-table", format!("input {k} of circuit {c} reads {r:?}")),
            }
        }
        if !self.circs[c].loads.is_empty() {
            self.circs[c].gates = gates;
            self.circs[c].consts = consts;
        }
    }

    /// A deep copy, for circuits small enough to compare.
    fn snapshot(&self, c: usize) -> Option<NXAOBoolCircuit> {
        let ci = &self.circs[c];
        if ci.cost() > 3000 {
            return None;
        }
        Some(ci.h.borrow().clone())
    }

    fn unchanged(&mut self, c: usize, before: &Option<NXAOBoolCircuit>, what: &str) {
        if let Some(b) = before {
            if *self.circs[c].h.borrow() != *b {
                self.fail("changed", format!("{what} changed circuit {c}"));
            }
        }
        self.counts(c, what);
    }

    // ---------------------------------------------------------------- values

    pub fn vector(&self, c: usize, r: &mut Rng) -> Vec<bool> {
        vector(&self.circs[c].m, r)
    }

    fn model_vals(&self, c: usize, v: &[bool]) -> Vec<Val> {
        let ms: Vec<&MCirc> = self.circs.iter().map(|c| &c.m).collect();
        let b: Vec<B> = v.iter().map(|x| *x as u8).collect();
        eval(&ms, c, &b)
    }

    fn model_outs(&self, c: usize, v: &[bool]) -> Vec<B> {
        outs(&self.model_vals(c, v), &self.circs[c].m.outputs)
    }

    fn differs(got: &[bool], want: &[B]) -> Option<String> {
        if got.len() != want.len() {
            return Some(format!("{} values instead of {}", got.len(), want.len()));
        }
        (0..got.len())
            .find(|i| want[*i] != U && got[*i] != (want[*i] == 1))
            .map(|i| format!("value {i} of {} is {}", got.len(), got[i]))
    }

    fn eval_with(&mut self, e: &mut NXAOBoolEvaluator, v: &[bool], what: &str) -> Option<Vec<bool>> {
        self.stats.evals += 1;
        match quiet(|| e.eval_output(v)) {
            Ok(Ok(o)) => {
                let mut d = fnv(FNV0, &[o.len() as u8]);
                d = fnv(d, &o.iter().map(|b| *b as u8).collect::<Vec<u8>>());
                log!(self, "  eval {d:x}");
                Some(o)
            }
            Ok(Err(er)) => {
                self.fail("eval-refused", format!("evaluating {what} failed: {er}"));
                None
            }
            Err(p) => {
                self.fail("panic", format!("evaluating {what} panicked: {p:?}"));
                None
            }
        }
    }

    /// Evaluates circuit `c`'s outputs on a few vectors through a fresh evaluator.
    fn spot(&mut self, c: usize, n: usize, seed: u64, what: &str) {
        let mut r = Rng::new(seed ^ 0x5907);
        for _ in 0..n {
            let v = self.vector(c, &mut r);
            let want = self.model_outs(c, &v);
            let mut e = NXAOBoolEvaluator::new(self.circs[c].h.clone());
            if let Some(o) = self.eval_with(&mut e, &v, what) {
                if let Some(d) = Self::differs(&o, &want) {
                    self.fail("wrong-output", format!("{what}: outputs of circuit {c}: {d}; inputs {}", show(&v)));
                }
            }
            if self.viol.is_some() {
                return;
            }
        }
    }

    /// Checks every signal clients hold on circuit `c`.
    fn audit(&mut self, c: usize, n: usize) {
        if self.viol.is_some() {
            return;
        }
        let h = self.circs[c].h.clone();
        let m = &self.circs[c].m;
        for (k, it) in m.inputs.iter().enumerate() {
            let want = self.circs[c].gid[*it as usize];
            match quiet(|| h.input_to_gate_id(&wid(k))) {
                Ok(Ok(g)) if g == want => {}
                r => return self.fail("input-table", format!("input {k} of circuit {c} reads {r:?}, expected {want:?}")),
            }
        }
        for (k, it) in m.outputs.iter().enumerate() {
            let want = self.circs[c].gid[*it as usize];
            match quiet(|| h.output_to_gate_id(&wid(k))) {
                Ok(Ok(g)) if Some(g) == want => {}
                r => return self.fail("output-table", format!("output {k} of circuit {c} reads {r:?}, expected {want:?}")),
            }
        }
        self.counts(c, "the whole history");
        let sigs = self.circs[c].sigs.clone();
        let mut all = sigs.clone();
        let fp: Vec<usize> = self.circs[c].fpmul.iter().map(|f| f.gids.len()).collect();
        let mut copy = h.borrow().clone();
        let n_out = copy.output_len();
        for it in &sigs {
            let g = self.circs[c].gid[*it as usize].unwrap();
            if self.must("registering an output", || copy.output(g)).is_none() {
                return;
            }
        }
        for k in 0..fp.len() {
            for j in 0..fp[k] {
                let g = self.circs[c].fpmul[k].gids[j];
                if self.must("registering an output", || copy.output(g)).is_none() {
                    return;
                }
            }
        }
        all.splice(0..0, self.circs[c].m.outputs.iter().copied());
        let copy = copy.to_ref();
        let mut r = Rng::new(self.salt ^ (c as u64 + 1) << 32);
        for i in 0..n {
            let v = self.vector(c, &mut r);
            let vals = self.model_vals(c, &v);
            let want = outs(&vals, &all);
            let mut e = NXAOBoolEvaluator::new(copy.clone());
            let o = match self.eval_with(&mut e, &v, "a copy of the final circuit") {
                Some(o) => o,
                None => return,
            };
            if o.len() < all.len() {
                return self.fail("wrong-signal", format!("a copy of circuit {c} yields {} of {} outputs", o.len(), all.len()));
            }
            self.agree(c, &v, &vals, &all, n_out, &o);
            if self.viol.is_some() {
                return;
            }
            if i == 0 {
                let mut e = NXAOBoolEvaluator::new(h.clone());
                if let Some(o) = self.eval_with(&mut e, &v, "the final circuit") {
                    if let Some(d) = Self::differs(&o, &want[..n_out]) {
                        self.fail("wrong-output", format!("outputs of circuit {c}: {d}; inputs {}", show(&v)));
                    }
                }
            }
        }
        if matches!(self.prop.as_str(), "S04" | "S05" | "S06" | "S07") && !self.circs[c].m.groups.is_empty() {
            self.wide(c, &copy, &all, n_out, &mut r);
        }
    }

    /// Sixty-four more vectors at once over the gates of the circuit, read through its public interface.
    fn wide(&mut self, c: usize, copy: &CRef, all: &[u32], n_out: usize, r: &mut Rng) {
        if self.circs[c].m.items.iter().any(|i| matches!(i, Item::Fun(Fun::Real(_), _))) {
            return;
        }
        let folded = match quiet(|| Lanes::of(copy, 400_000)) {
            Ok(Some(l)) => l,
            _ => return,
        };
        // shipped circuits may be wrong for very few inputs
        let shipped = self.prop == "S07" && self.circs[c].m.items.iter().any(|i| matches!(i, Item::Fun(Fun::Lib(_), _)));
        for _ in 0..if shipped { 32 } else { 1 } {
            let vs: Vec<Vec<bool>> = (0..64).map(|_| self.vector(c, r)).collect();
            let ins: Vec<u64> = (0..self.circs[c].m.inputs.len())
                .map(|k| vs.iter().enumerate().fold(0, |x, (l, v)| x | (v[k] as u64) << l))
                .collect();
            let got = folded.eval(&ins);
            self.probe("wide-audit");
            for (l, v) in vs.iter().enumerate() {
                self.stats.lanes += 1;
                let vals = self.model_vals(c, v);
                let o: Vec<bool> = got.iter().map(|x| x >> l & 1 == 1).collect();
                self.agree(c, v, &vals, all, n_out, &o);
                if self.viol.is_some() {
                    return;
                }
            }
        }
    }

    /// Compares the values of every signal (and product) of circuit `c` with the model's.
    fn agree(&mut self, c: usize, v: &[bool], vals: &[Val], all: &[u32], n_out: usize, o: &[bool]) {
        let want = outs(vals, all);
        if let Some(k) = (0..all.len()).find(|k| want[*k] != U && o[*k] != (want[*k] == 1)) {
            let what = if k < n_out { format!("output {k}") } else { format!("signal {:?}", self.circs[c].gid[all[k] as usize]) };
            return self.fail("wrong-signal", format!("{what} of circuit {c} is {}; inputs {}", o[k], show(v)));
        }
        let mut at = all.len();
        for k in 0..self.circs[c].fpmul.len() {
            let f = &self.circs[c].fpmul[k];
            let n = f.gids.len();
            let num = |x: &Vec<u32>| to_num(&outs(vals, x));
            let got = to_num(&o[at..at + n].iter().map(|b| *b as u8).collect::<Vec<B>>());
            at += n;
            if let (Some(a), Some(b), Some(got)) = (num(&f.a), num(&f.b), got) {
                let p = f.p;
                if a < p && b < p && got != a * b % p {
                    let d = format!("product of {a} and {b} modulo {p} at width {n} is {got}");
                    if got == 0 && self.fp_known {
                        self.stats.known += 1;
                        if self.known_hit.is_none() {
                            self.known_hit = Some(d);
                        }
                    } else {
                        return self.fail("wrong-product", d);
                    }
                }
            }
        }
    }

    pub fn finish(&mut self) {
        if self.viol.is_some() {
            return;
        }
        if self.prop == "Q01" {
            for c in 0..self.circs.len() {
                self.look(c, 0);
            }
        }
        crate::back::finish(self);
        for c in 0..self.circs.len() {
            if self.circs[c].junk {
                continue;
            }
            let k = self.circs[c].cost();
            let n = if k > 20000 {
                1
            } else if k > 3000 {
                2
            } else if k > 400 {
                4
            } else {
                6
            };
            self.audit(c, n);
        }
    }

    /// Breaks the reference cycles between stores and modules.
    pub fn teardown(&mut self) {
        self.clients.clear();
        self.gads.clear();
        self.mods.clear();
        for s in &self.stores {
            *s.borrow_mut() = ModuleStorage::new();
        }
        self.circs.clear();
    }

    // ---------------------------------------------------------------- requests without streams

    fn gate(&mut self, by: u8, c: u32, what: &'static str, item: impl FnOnce(u32, u32) -> Item, a: u32, b: Option<u32>, f: impl FnOnce(&mut CRef, &GateId, &GateId) -> Result<GateId, BoolCircuitError>) -> bool {
        let c = self.cidx(c);
        if self.circs[c].sealed || self.circs[c].cost() > self.limit {
            return false;
        }
        let (ia, ga) = match self.pick_sig(c, a) {
            Some(x) => x,
            None => return false,
        };
        let (ib, gb) = match b {
            Some(b) => self.pick_sig(c, b).unwrap(),
            None => (ia, ga),
        };
        let mut h = self.handle(by, c);
        if let Some(g) = self.must(what, || f(&mut h, &ga, &gb)) {
            let it = self.circs[c].m.push(item(ia, ib));
            self.signal(c, it, g, true, what);
            self.circs[c].plain.insert(it);
            if what == "identity" || what == "equivalent" {
                // how many gates these take is the library's business
                let n = self.circs[c].h.num_gate();
                if n < self.circs[c].gates {
                    self.fail("counts", format!("{what} lowered the number of gates"));
                }
                self.circs[c].gates = n;
            } else {
                self.circs[c].gates += 1;
            }
            log!(self, "{what} c{c} {ga} {gb} -> {g}");
            self.counts(c, what);
        }
        true
    }

    fn simple(&mut self, by: u8, op: &Op) -> bool {
        match op {
            Op::NewCirc { share } => {
                if self.circs.len() >= 24 {
                    return false;
                }
                let s = share.map(|s| s as usize % self.stores.len());
                let c = self.new_circ(s);
                log!(self, "new c{c}");
                true
            }
            Op::Sub { c } => {
                let c = self.cidx(*c);
                if self.circs.len() >= 24 {
                    return false;
                }
                let mut h = self.handle(by, c);
                if let Some((mid, sub)) = self.must("sub_circuit", || Ok::<_, BoolCircuitError>(h.sub_circuit())) {
                    let s = self.circs[c].store;
                    self.circs.push(Circ::new(sub, s));
                    let n = self.circs.len() - 1;
                    self.add_mod(s, mid, n);
                    self.counts(c, "sub_circuit");
                    self.counts(n, "sub_circuit");
                }
                true
            }
            Op::Register { into, what } => {
                let (i, x) = (self.cidx(*into), self.cidx(*what));
                if i == x || self.mods.len() > self.max_mods || self.circs[x].junk || !self.circs[x].m.pinned.is_empty() {
                    return false;
                }
                let mut h = self.handle(by, i);
                let what = self.handle(by, x);
                if let Some(mid) = self.must("register_module", || Ok::<_, BoolCircuitError>(h.register_module(&what))) {
                    let s = self.circs[i].store;
                    self.add_mod(s, mid, x);
                    self.counts(i, "register_module");
                }
                true
            }
            Op::Burst { c, n, seed } => {
                let mut r = Rng::new(*seed as u64 ^ 0xB0057);
                let chain = r.chance(1, 3);
                let wide = r.chance(1, 3);
                // one kind of request mostly
                let mostly = r.below(9);
                let mut any = false;
                for _ in 0..(*n).min(5000) {
                    let a = if chain || r.chance(1, 2) { r.below(4) as u32 } else { r.u32() >> 8 };
                    let b = if r.chance(1, 2) { r.below(6) as u32 } else { r.u32() >> 8 };
                    let c = *c;
                    let op = match r.below(if wide { 14 } else { 40 }) {
                        x if x > 3 && mostly < 5 => match mostly {
                            0 => Op::In { c },
                            1 => Op::Out { c, a },
                            2 => Op::Const { c, v: r.bool() },
                            3 => Op::Register { into: c, what: r.u32() >> 8 },
                            _ => Op::Call { c, m: a, args: r.u32() },
                        },
                        0 => Op::In { c },
                        1 => Op::Out { c, a },
                        2 => Op::Const { c, v: r.bool() },
                        x => match x % 5 {
                            0 => Op::Not { c, a },
                            1 => Op::And { c, a, b },
                            2 => Op::Or { c, a, b },
                            _ => Op::Xor { c, a, b },
                        },
                    };
                    any |= self.simple(by, &op);
                    if self.viol.is_some() {
                        break;
                    }
                }
                any
            }
            Op::Bulk { c, n, kind, seed } => self.bulk(by, *c, *n, *kind, *seed),
            Op::Chain { c, n, kind, seed } => self.chain(by, *c, *n, *kind, *seed),
            Op::Fork { c } => {
                let c = self.cidx(*c);
                if self.circs.len() >= 24 {
                    return false;
                }
                let h = self.handle(by, c);
                let copy = match quiet(|| h.borrow().clone()) {
                    Ok(x) => x,
                    Err(p) => {
                        self.fail("panic", format!("copying circuit {c} panicked: {p:?}"));
                        return true;
                    }
                };
                if copy != *h.borrow() {
                    self.fail("copy", format!("a copy of circuit {c} is not equal to it"));
                }
                let o = &self.circs[c];
                let n = Circ {
                    h: copy.to_ref(),
                    m: o.m.clone(),
                    gid: o.gid.clone(),
                    sigs: o.sigs.clone(),
                    ids: o.ids.clone(),
                    store: o.store,
                    sealed: false,
                    loads: vec![],
                    consts: o.consts,
                    gates: o.gates,
                    fpmul: vec![],
                    plain: o.plain.clone(),
                    junk: o.junk,
                };
                self.circs.push(n);
                let n = self.circs.len() - 1;
                log!(self, "fork c{c} -> c{n}");
                self.counts(n, "copying");
                true
            }
            Op::Forget { c } => {
                let c = self.cidx(*c);
                let at = match self.mods.iter().position(|m| m.circ == c) {
                    Some(k) => k,
                    None => return false,
                };
                let (store, mid) = (self.mods[at].store, self.mods[at].mid);
                for cl in &mut self.clients {
                    cl.handles.remove(&c);
                }
                let st = self.stores[store].clone();
                // the only handle left is the store's
                self.circs[c].h = NXAOBoolCircuit::new(st.clone()).to_ref();
                let via = self.circs.iter().position(|x| x.store == store && !x.junk);
                let got = match via {
                    Some(v) if v != c => {
                        let h = self.circs[v].h.clone();
                        self.must("get_module", || h.get_module(&mid))
                    }
                    _ => self.must("get_module", || st.get_module(&mid)),
                };
                if let Some(g) = got {
                    self.circs[c].h = g;
                    log!(self, "forget c{c}");
                    self.counts(c, "being retrieved from the module store");
                }
                true
            }
            Op::In { c } => {
                let c = self.cidx(*c);
                if self.circs[c].sealed || !self.large && self.circs[c].m.inputs.len() > 200 {
                    return false;
                }
                let mut h = self.handle(by, c);
                if let Some(g) = self.must("input", || h.input()) {
                    let k = self.circs[c].m.inputs.len();
                    let it = self.circs[c].m.add_input();
                    self.signal(c, it, g, true, "input");
                    match quiet(|| h.input_to_gate_id(&wid(k))) {
                        Ok(Ok(Some(x))) if x == g => {}
                        r => self.fail("input-table", format!("input {k} of circuit {c} is signal {g} but reads {r:?}")),
                    }
                    log!(self, "in c{c} -> {g}");
                    self.counts(c, "input");
                }
                true
            }
            Op::Const { c, v } => {
                let c = self.cidx(*c);
                if self.circs[c].sealed || self.circs[c].cost() > self.limit {
                    return false;
                }
                let mut h = self.handle(by, c);
                if let Some(g) = self.must("constant", || h.constant(*v)) {
                    let it = self.circs[c].m.push(Item::K(*v));
                    self.signal(c, it, g, true, "constant");
                    self.circs[c].plain.insert(it);
                    self.circs[c].consts += 1;
                    log!(self, "const c{c} {v} -> {g}");
                    self.counts(c, "constant");
                }
                true
            }
            Op::Not { c, a } => self.gate(by, *c, "not", |x, _| Item::Not(x), *a, None, |h, x, _| h.not(x)),
            Op::Xor { c, a, b } => self.gate(by, *c, "xor", Item::Xor, *a, Some(*b), |h, x, y| h.xor(x, y)),
            Op::And { c, a, b } => self.gate(by, *c, "and", Item::And, *a, Some(*b), |h, x, y| h.and(x, y)),
            Op::Or { c, a, b } => self.gate(by, *c, "or", Item::Or, *a, Some(*b), |h, x, y| h.or(x, y)),
            Op::Eqv { c, a, b } => self.gate(by, *c, "equivalent", Item::Eqv, *a, Some(*b), |h, x, y| h.equivalent(x, y)),
            Op::Ident { c, a } => self.gate(by, *c, "identity", |x, _| Item::Id(x), *a, None, |h, x, _| h.identity(x)),
            Op::Call { c, m, args } => self.call(by, *c, *m, *args),
            Op::Out { c, a } => {
                let c = self.cidx(*c);
                if self.circs[c].sealed || !self.large && self.circs[c].m.outputs.len() > 150 {
                    return false;
                }
                let (it, g) = match self.pick_sig(c, *a) {
                    Some(x) => x,
                    None => return false,
                };
                let mut h = self.handle(by, c);
                if let Some(x) = self.must("output", || h.output(g)) {
                    let k = self.circs[c].m.outputs.len();
                    self.circs[c].m.outputs.push(it);
                    if x != wid(k) {
                        self.fail("output-table", format!("output {k} of circuit {c} was numbered {x}"));
                    }
                    log!(self, "out c{c} {g} -> {x}");
                    self.counts(c, "output");
                }
                true
            }
            Op::BadOut { c } => {
                let c = self.cidx(*c);
                let before = self.snapshot(c);
                let mut h = self.handle(by, c);
                match quiet(|| h.output(GateId(1 << 40))) {
                    Ok(Err(_)) => {}
                    r => self.fail("accepted", format!("an output of an unknown signal gave {r:?}")),
                }
                self.unchanged(c, &before, "a rejected output");
                true
            }
            Op::BadCall { c } => {
                let c = self.cidx(*c);
                let before = self.snapshot(c);
                let args: Vec<GateId> = self.pick_sig(c, 0).into_iter().map(|x| x.1).collect();
                let mut h = self.handle(by, c);
                match quiet(|| h.module(&ModuleId(1 << 40), &args)) {
                    Ok(Err(_)) => {}
                    r => self.fail("accepted", format!("an instance of an unknown module gave {r:?}")),
                }
                self.unchanged(c, &before, "a rejected module instance");
                true
            }
            Op::Bad { c, kind, seed } => self.bad(by, *c, *kind, *seed),
            Op::Look { c, seed } => {
                let c = self.cidx(*c);
                self.look(c, *seed)
            }
            Op::Eval { c, slot, n, seed, skew } => self.evaluate(by, *c, *slot, *n, *seed, *skew),
            Op::DropClient => {
                let k = by as usize % self.clients.len();
                self.clients[k] = Client::default();
                for g in &mut self.gads {
                    if g.as_ref().is_some_and(|g| g.owner == by) {
                        *g = None;
                    }
                }
                log!(self, "client {by} went away");
                for c in 0..self.circs.len() {
                    if self.circs[c].loads.is_empty() {
                        self.counts(c, "a client went away");
                    }
                }
                true
            }
            Op::Lib { c, k } => self.lib(by, *c, *k),
            _ => self.gadget_op(by, op),
        }
    }

    /// Reads circuit `c` back gate by gate and compares it with what was built.
    fn look(&mut self, c: usize, seed: u32) -> bool {
        if self.circs[c].cost() > 6000 || self.viol.is_some() {
            return false;
        }
        let h = self.circs[c].h.clone();
        // while a load waits, parts of its circuit are nobody's yet
        let settled = self.circs[c].loads.is_empty() && !self.circs[c].junk;
        let mut gates: BTreeMap<u64, NXAOBoolGate> = BTreeMap::new();
        let mut users: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        let mut todo: Vec<GateId> = self.circs[c].ids.iter().map(|i| GateId(*i)).collect();
        let consts = match quiet(|| h.get_const_gates()) {
            Ok(k) => k,
            Err(p) => {
                self.fail("panic", format!("listing the constants of circuit {c} panicked: {p:?}"));
                return true;
            }
        };
        todo.extend(consts.iter().copied());
        while let Some(g) = todo.pop() {
            if gates.contains_key(&g.0) {
                continue;
            }
            let (gate, deps) = match quiet(|| (h.get_gate(&g), h.get_depended_gates(&g))) {
                Ok((Ok(gate), Ok(deps))) => (gate, deps),
                r => {
                    self.fail("unreadable", format!("signal {g} of circuit {c} reads {r:?}"));
                    return true;
                }
            };
            todo.extend(deps.iter().copied());
            todo.extend(operands(&gate));
            log!(self, "  {g}: {gate:?} {deps:?}");
            users.insert(g.0, deps.iter().map(|d| d.0).collect());
            gates.insert(g.0, gate);
        }
        // every gate is listed by each of its operands, once per place it takes there, and by nothing else
        let mut want: BTreeMap<u64, Vec<u64>> = gates.keys().map(|g| (*g, vec![])).collect();
        for (id, gate) in &gates {
            for o in operands(gate) {
                want.get_mut(&o.0).unwrap().push(*id);
            }
            if gate.input_len() != operands(gate).len() {
                return self.failed("gate-shape", format!("signal {id} of circuit {c} reads {gate:?}, which claims {} operands", gate.input_len()));
            }
        }
        for (id, w) in &want {
            let mut got = users[id].clone();
            got.sort();
            if got != *w {
                return self.failed("dependents", format!("signal {id} of circuit {c} lists the dependents {got:?}, but is used by {w:?}"));
            }
        }
        let mut listed: Vec<u64> = consts.iter().map(|g| g.0).collect();
        let held: Vec<u64> = (0..self.circs[c].gid.len())
            .filter(|i| matches!(self.circs[c].m.items[*i], Item::K(_)) && self.circs[c].sigs.contains(&(*i as u32)))
            .filter_map(|i| self.circs[c].gid[i].map(|g| g.0))
            .filter(|g| matches!(gates.get(g), Some(NXAOBoolGate::Const(_))))
            .collect();
        let order: Vec<u64> = listed.iter().copied().filter(|g| held.contains(g)).collect();
        if order != held {
            return self.failed("constants", format!("circuit {c} lists its constants as {order:?}, made in the order {held:?}"));
        }
        listed.sort();
        let all: Vec<u64> = gates.iter().filter(|x| matches!(x.1, NXAOBoolGate::Const(_))).map(|x| *x.0).collect();
        if listed != all {
            return self.failed("constants", format!("circuit {c} lists the constants {listed:?}, but holds {all:?}"));
        }
        let input_gates = gates.values().filter(|g| matches!(g, NXAOBoolGate::Input(_))).count();
        if settled && input_gates != self.circs[c].m.inputs.len() {
            return self.failed("gate-kind", format!("circuit {c} has {} inputs and {input_gates} input gates", self.circs[c].m.inputs.len()));
        }
        // what clients asked for themselves is there as they asked for it
        let ci = &self.circs[c];
        let id = |i: &u32| ci.gid.get(*i as usize).copied().flatten();
        let pair = |l: &GateId, r: &GateId| {
            let mut v = [l.0, r.0];
            v.sort();
            v
        };
        let same = |l: &GateId, r: &GateId, a: &u32, b: &u32| match (id(a), id(b)) {
            (Some(x), Some(y)) => pair(l, r) == pair(&x, &y),
            _ => true,
        };
        let mut bad = None;
        for (i, item) in ci.m.items.iter().enumerate() {
            let g = match ci.gid.get(i).copied().flatten() {
                Some(g) if gates.contains_key(&g.0) => g,
                _ => continue,
            };
            if !ci.plain.contains(&(i as u32)) && !matches!(item, Item::In(_)) {
                continue;
            }
            let gate = &gates[&g.0];
            let ok = match (item, gate) {
                (Item::In(k), NXAOBoolGate::Input(x)) => x.wire_id == wid(*k),
                (Item::K(v), NXAOBoolGate::Const(x)) => x.value == *v,
                (Item::Not(a), NXAOBoolGate::Not(x)) => id(a).is_none_or(|y| y == x.id),
                (Item::Xor(a, b), NXAOBoolGate::Xor(x)) => same(&x.left_id, &x.right_id, a, b),
                (Item::And(a, b), NXAOBoolGate::And(x)) => same(&x.left_id, &x.right_id, a, b),
                (Item::Or(a, b), NXAOBoolGate::Or(x)) => same(&x.left_id, &x.right_id, a, b),
                (Item::Id(_) | Item::Eqv(..), _) => true,
                (Item::Pick(f, k), NXAOBoolGate::Module(x)) => match &ci.m.items[*f as usize] {
                    Item::Fun(Fun::Module(t, n), args) => {
                        let module = self.mods.iter().any(|m| m.store == ci.store && m.mid == x.module_id && m.circ == *t);
                        module
                            && x.out_index == *k as usize
                            && gate.output_len() == *n
                            && x.input_ids.len() == args.len()
                            && x.input_ids.iter().zip(args).all(|(g, a)| id(a).is_none_or(|y| y == *g))
                    }
                    _ => true,
                },
                _ => false,
            };
            if !ok {
                bad = Some(format!("signal {g} of circuit {c} reads {gate:?}, which is not what was requested"));
                break;
            }
        }
        if let Some(b) = bad {
            return self.failed("gate-kind", b);
        }
        // modules read back as the circuits they are
        let st = ci.store;
        let circ_ok = settled;
        for k in 0..self.mods.len() {
            if self.mods[k].store != st || !circ_ok {
                continue;
            }
            let (mid, t) = (self.mods[k].mid, self.mods[k].circ);
            if let Some(m) = self.must("get_module", || h.get_module(&mid)) {
                let th = self.circs[t].h.clone();
                let same = quiet(|| (m.input_len(), m.output_len(), m.num_gate(), m.num_const(), m.num_wire()) == (th.input_len(), th.output_len(), th.num_gate(), th.num_const(), th.num_wire()));
                if !matches!(same, Ok(true)) {
                    return self.failed("module", format!("module {mid} reads as a circuit of another size than circuit {t}, which was registered"));
                }
            }
        }
        // equality
        if settled && self.circs[c].cost() < 2000 {
            let mut r = Rng::new(seed as u64 ^ 0x100C);
            let one = match quiet(|| h.borrow().clone()) {
                Ok(x) => x,
                Err(_) => return true,
            };
            if *h.borrow() != one {
                return self.failed("equality", format!("circuit {c} is not equal to its copy"));
            }
            let (mut x, mut y) = (one.clone(), one.clone());
            let sig = self.pick_sig(c, r.u32()).map(|s| s.1);
            let sig2 = self.pick_sig(c, r.u32()).map(|s| s.1);
            let mut what = "nothing";
            for _ in 0..r.range(1, 3) {
                let (k, v) = (r.below(7), r.bool());
                let mut go = |z: &mut NXAOBoolCircuit| -> Result<&'static str, BoolCircuitError> {
                    Ok(match (k, sig, sig2) {
                        (1, _, _) => {
                            z.constant(v)?;
                            "a constant"
                        }
                        (2, Some(a), _) => {
                            z.not(&a)?;
                            "an inverter"
                        }
                        (3, Some(a), Some(b)) => {
                            z.and(&a, &b)?;
                            "an and-gate"
                        }
                        (4, Some(a), Some(b)) => {
                            z.xor(&a, &b)?;
                            "an xor-gate"
                        }
                        (5, Some(a), Some(b)) => {
                            z.or(&a, &b)?;
                            "an or-gate"
                        }
                        (6, Some(a), _) => {
                            z.output(a)?;
                            "an output"
                        }
                        _ => {
                            z.input()?;
                            "an input"
                        }
                    })
                };
                let (p, q) = match quiet(|| (go(&mut x), go(&mut y))) {
                    Ok((Ok(p), Ok(q))) => (p, q),
                    e => return self.failed("refused", format!("a copy of circuit {c} refuses a request: {e:?}")),
                };
                what = p;
                let _ = q;
            }
            if x != y {
                return self.failed("equality", format!("copies of circuit {c} differ after the same requests, the last one {what}"));
            }
            if x == one || *h.borrow() == x {
                return self.failed("equality", format!("a copy of circuit {c} is still equal to it after getting {what}"));
            }
            // from here on one copy gets something else than the other
            let (k, v) = (r.below(5), r.bool());
            let first = |z: &mut NXAOBoolCircuit, b: bool| -> Result<&'static str, BoolCircuitError> {
                Ok(match (k, sig, sig2) {
                    (1, Some(a), Some(o)) if a != o => {
                        z.output(if b { a } else { o })?;
                        "outputs over different signals"
                    }
                    (2, Some(a), Some(o)) if a != o => {
                        z.not(if b { &a } else { &o })?;
                        "inverters over different signals"
                    }
                    (3, Some(a), Some(o)) => {
                        match (b, v) {
                            (true, true) => z.and(&a, &o)?,
                            (true, false) => z.xor(&a, &o)?,
                            _ => z.or(&a, &o)?,
                        };
                        "gates of different kinds"
                    }
                    (4, Some(a), Some(o)) if a != o => {
                        match v {
                            true => z.and(&a, if b { &a } else { &o })?,
                            false => z.or(&a, if b { &a } else { &o })?,
                        };
                        "gates over different signals"
                    }
                    _ => {
                        z.constant(b)?;
                        "different constants"
                    }
                })
            };
            let what = match quiet(|| (first(&mut x, v), first(&mut y, !v))) {
                Ok((Ok(p), Ok(_))) => p,
                e => return self.failed("refused", format!("a copy of circuit {c} refuses a request: {e:?}")),
            };
            if x == y {
                return self.failed("equality", format!("copies of circuit {c} are equal after getting {what}"));
            }
        }
        self.counts(c, "reading it back");
        true
    }

    fn failed(&mut self, kind: &str, detail: String) -> bool {
        self.fail(kind, detail);
        true
    }

    /// A long chain of gates.  Only its last signals are handed out, so that reading them needs the whole chain.
    fn chain(&mut self, by: u8, c: u32, n: u32, kind: u8, seed: u32) -> bool {
        let ci = self.cidx(c);
        let n = n.min(100_000) as usize;
        if self.circs[ci].sealed || self.circs[ci].cost() + n > self.limit || self.circs[ci].sigs.is_empty() {
            return false;
        }
        let mut r = Rng::new(seed as u64 ^ 0xC4A1);
        if kind == 3 {
            // instances of modules, each fed from the one before
            let mut any = false;
            for _ in 0..n.min(1500) {
                any |= self.call(by, c, seed, r.u32() << 1);
                if self.viol.is_some() {
                    break;
                }
            }
            return any;
        }
        if kind == 9 {
            return self.links(by, c, n, seed);
        }
        let first = self.pick_sig(ci, 0).unwrap();
        let some: Vec<(u32, GateId)> = (0..6).map(|_| self.pick_sig(ci, r.u32() >> 8).unwrap()).collect();
        let mut line = vec![first, first];
        // kind 5: one signal feeds every other gate
        let centre = some[0];
        let mut h = self.handle(by, ci);
        let side = r.below(3);
        for i in 0..n {
            let (x, gx) = if kind == 5 && i % 2 == 0 { centre } else { line[line.len() - 1] };
            let (y, gy) = match kind {
                5 if i % 2 == 1 => line[line.len() - 2],
                2 => line[line.len() - 2],
                4 => line[line.len() - 1 - r.below((line.len() as u64).min(40)) as usize],
                _ => *r.pick(&some),
            };
            let (ga, gb, a, b) = if side == 1 || side == 2 && r.bool() { (gx, gy, x, y) } else { (gy, gx, y, x) };
            let (item, g) = match match kind {
                0 => 0,
                // gates of one kind only
                6..=8 => kind as u64 - 4,
                5 if i % 2 == 1 => 2 + r.below(6),
                _ => r.below(8),
            } {
                0 | 1 => (Item::Not(x), quiet(|| h.not(&gx))),
                2 => (Item::And(a, b), quiet(|| h.and(&ga, &gb))),
                3 => (Item::Or(a, b), quiet(|| h.or(&ga, &gb))),
                _ => (Item::Xor(a, b), quiet(|| h.xor(&ga, &gb))),
            };
            let g = match g {
                Ok(Ok(g)) => g,
                r => {
                    self.fail("refused", format!("a gate was refused: {r:?}"));
                    return true;
                }
            };
            if !self.circs[ci].ids.insert(g.0) {
                self.fail("id-reused", format!("a gate returned signal {g}, which circuit {ci} had already handed out"));
                return true;
            }
            let it = self.circs[ci].m.push(item);
            self.circs[ci].set_gid(it, g);
            self.circs[ci].gates += 1;
            self.circs[ci].plain.insert(it);
            line.push((it, g));
        }
        // a little is handed out
        let k = line.len();
        let (end, _) = line[k - 1];
        if n > 0 {
            if r.chance(1, 3) {
                let (mid, _) = line[2 + r.below(n as u64) as usize];
                if mid != end {
                    self.circs[ci].sigs.push(mid);
                }
            }
            self.circs[ci].sigs.push(end);
        }
        log!(self, "chain c{ci} {n} kind {kind} -> {}", line[k - 1].1);
        self.counts(ci, "a chain of gates");
        if n > 1000 {
            self.probe("chain of more than 1000 gates built");
        }
        if n > 10_000 {
            self.probe("chain of more than 10000 gates built");
        }
        true
    }

    /// A long chain of instances of one small module, each fed from the one before.
    fn links(&mut self, by: u8, c: u32, n: usize, seed: u32) -> bool {
        let ci = self.cidx(c);
        if self.circs.len() >= 24 || self.mods.len() > self.max_mods {
            return false;
        }
        let mut r = Rng::new(seed as u64 ^ 0x11_4B5);
        let mut h = self.handle(by, ci);
        let (mid, sub) = match self.must("sub_circuit", || Ok::<_, BoolCircuitError>(h.sub_circuit())) {
            Some(x) => x,
            None => return true,
        };
        let s = self.circs[ci].store;
        self.circs.push(Circ::new(sub, s));
        let t = self.circs.len() - 1;
        self.add_mod(s, mid, t);
        let (n_in, n_out) = (r.range(1, 3) as usize, r.range(1, 4) as usize);
        let c_new = u32::MAX;
        for _ in 0..n_in {
            self.simple(by, &Op::In { c: c_new });
        }
        for _ in 0..r.range(1, 4) {
            let (c, a, b) = (c_new, r.below(3) as u32, r.below(4) as u32);
            self.simple(by, &match r.below(5) {
                0 | 1 => Op::Not { c, a },
                2 => Op::And { c, a, b },
                3 => Op::Or { c, a, b },
                _ => Op::Xor { c, a, b },
            });
        }
        for _ in 0..n_out {
            self.simple(by, &Op::Out { c: c_new, a: r.below(5) as u32 });
        }
        let (n_in, n_out) = (self.circs[t].m.inputs.len(), self.circs[t].m.outputs.len());
        if self.viol.is_some() || n_in == 0 || n_out == 0 {
            return true;
        }
        self.circs[t].sealed = true;
        let unit = self.circs[t].cost().max(1);
        let n = n.min(self.limit.saturating_sub(self.circs[ci].cost()) / unit);
        // which of the outputs feeds the next one, and through which of its inputs
        let (from, to) = (r.below(3), r.below(3));
        let gates_between = r.chance(1, 4);
        let some: Vec<(u32, GateId)> = (0..6).map(|_| self.pick_sig(ci, r.u32() >> 8).unwrap()).collect();
        let mut last = some[0];
        for _ in 0..n {
            let at = match to {
                0 => 0,
                1 => n_in - 1,
                _ => r.below(n_in as u64) as usize,
            };
            let args: Vec<(u32, GateId)> = (0..n_in).map(|i| if i == at { last } else { *r.pick(&some) }).collect();
            let gids: Vec<GateId> = args.iter().map(|x| x.1).collect();
            let o = match quiet(|| h.module(&mid, &gids)) {
                Ok(Ok(o)) => o,
                x => {
                    self.fail("refused", format!("a module instance was refused: {x:?}"));
                    return true;
                }
            };
            if o.len() != n_out {
                return self.failed("module-outputs", format!("an instance of a module with {n_out} outputs has {}", o.len()));
            }
            let picks = self.circs[ci].m.fun(Fun::Module(t, n_out), args.iter().map(|x| x.0).collect(), n_out);
            for (p, g) in picks.iter().zip(o.iter()) {
                if !self.circs[ci].ids.insert(g.0) {
                    return self.failed("id-reused", format!("an instance returned signal {g}, which circuit {ci} had already handed out"));
                }
                self.circs[ci].set_gid(*p, *g);
                self.circs[ci].plain.insert(*p);
            }
            self.circs[ci].consts += self.circs[t].consts;
            self.circs[ci].gates += self.circs[t].gates;
            let k = match from {
                0 => 0,
                1 => n_out - 1,
                _ => r.below(n_out as u64) as usize,
            };
            last = (picks[k], o[k]);
            if gates_between && r.bool() {
                match quiet(|| h.not(&last.1)) {
                    Ok(Ok(g)) if self.circs[ci].ids.insert(g.0) => {
                        let it = self.circs[ci].m.push(Item::Not(last.0));
                        self.circs[ci].set_gid(it, g);
                        self.circs[ci].gates += 1;
                        self.circs[ci].plain.insert(it);
                        last = (it, g);
                    }
                    x => return self.failed("refused", format!("a gate was refused, or is not new: {x:?}")),
                }
            }
        }
        if n > 0 {
            self.circs[ci].sigs.push(last.0);
        }
        log!(self, "links c{ci} {n} of {n_in} to {n_out}, {from} {to} -> {}", last.1);
        self.counts(ci, "a chain of instances");
        if n > 1000 {
            self.probe("chain of more than 1000 instances built");
        }
        if n > 10_000 {
            self.probe("chain of more than 10000 instances built");
        }
        true
    }

    /// Tens of thousands of requests of one kind.  A few of the signals and modules they return are handed out, among
    /// them the first and last ones and some beyond the sizes of small machine numbers.
    fn bulk(&mut self, by: u8, c: u32, n: u32, kind: u8, seed: u32) -> bool {
        let ci = self.cidx(c);
        let n = n.min(310_000) as usize;
        let kind = kind % 7;
        if self.circs[ci].sealed && kind != 3 || self.circs[ci].cost() + n > self.limit || !self.circs[ci].loads.is_empty() || self.circs[ci].junk || n == 0 {
            return false;
        }
        let mut r = Rng::new(seed as u64 ^ 0xB17C);
        let mut keep: BTreeSet<usize> = [0, n - 1, r.below(n as u64) as usize].into();
        for edge in [256, 32_768, 65_536, 131_072, 262_144] {
            if edge < n {
                let k = edge + r.below(6) as usize;
                keep.insert(k.min(n - 1));
                keep.insert(k - edge);
            }
        }
        let mut h = self.handle(by, ci);
        let mut made: Vec<u32> = vec![];
        // the signal that feeds all the gates, how many it fed before, how many it feeds more
        let (mut hub, mut users, mut fan) = (None, 0, 0);
        let modules = self.stores[self.circs[ci].store].num_module();
        let what = ["inputs", "constants", "outputs", "modules", "gates over one signal", "instances", "gates"][kind as usize];
        match kind {
            0 | 1 => {
                for _ in 0..n {
                    let v = r.bool();
                    let Some(g) = self.must(what, || if kind == 0 { h.input() } else { h.constant(v) }) else { return true };
                    if !self.circs[ci].ids.insert(g.0) {
                        return self.failed("id-reused", format!("a request returned signal {g}, which circuit {ci} had already handed out"));
                    }
                    let it = if kind == 0 { self.circs[ci].m.add_input() } else { self.circs[ci].m.push(Item::K(v)) };
                    self.circs[ci].set_gid(it, g);
                    made.push(it);
                }
                if kind == 1 {
                    self.circs[ci].consts += n;
                    self.circs[ci].plain.extend(made.iter());
                }
            }
            2 => {
                let all: Vec<u32> = if r.bool() {
                    self.circs[ci].sigs.clone()
                } else {
                    (0..self.circs[ci].gid.len() as u32).filter(|i| self.circs[ci].gid[*i as usize].is_some()).collect()
                };
                if all.is_empty() {
                    return false;
                }
                let in_order = r.bool();
                for i in 0..n {
                    let it = if in_order { all[i % all.len()] } else { *r.pick(&all) };
                    let g = self.circs[ci].gid[it as usize].unwrap();
                    let Some(x) = self.must(what, || h.output(g)) else { return true };
                    let k = self.circs[ci].m.outputs.len();
                    self.circs[ci].m.outputs.push(it);
                    if x != wid(k) {
                        return self.failed("output-table", format!("output {k} of circuit {ci} was numbered {x}"));
                    }
                }
            }
            3 => {
                let s = self.circs[ci].store;
                let cand: Vec<usize> = (0..self.circs.len())
                    .filter(|x| *x != ci && !self.circs[*x].junk && self.circs[*x].m.pinned.is_empty() && self.circs[*x].loads.is_empty())
                    .collect();
                let subs = cand.is_empty() || r.chance(1, 3);
                let mut seen: BTreeSet<u64> = self.mods.iter().filter(|m| m.store == s).map(|m| m.mid.0).collect();
                for i in 0..n {
                    let (mid, circ) = if subs && (keep.contains(&i) && self.circs.len() < 20 || cand.is_empty()) {
                        let Some((mid, mut sub)) = self.must("sub_circuit", || Ok::<_, BoolCircuitError>(h.sub_circuit())) else { return true };
                        if keep.contains(&i) && self.circs.len() < 20 {
                            // something small, different each time
                            let made = self.must("a small module", || {
                                let (a, b) = (sub.input()?, sub.input()?);
                                let x = match i % 3 {
                                    0 => sub.and(&a, &b)?,
                                    1 => sub.or(&a, &b)?,
                                    _ => sub.xor(&a, &b)?,
                                };
                                sub.output(x)?;
                                Ok::<_, BoolCircuitError>([a, b, x])
                            });
                            let Some(g) = made else { return true };
                            let mut z = Circ::new(sub, s);
                            let (a, b) = (z.m.add_input(), z.m.add_input());
                            let x = z.m.push(match i % 3 {
                                0 => Item::And(a, b),
                                1 => Item::Or(a, b),
                                _ => Item::Xor(a, b),
                            });
                            z.m.outputs.push(x);
                            z.gates = 1;
                            for (it, g) in [a, b, x].into_iter().zip(g) {
                                z.set_gid(it, g);
                                z.sigs.push(it);
                                z.ids.insert(g.0);
                            }
                            self.circs.push(z);
                            (mid, Some(self.circs.len() - 1))
                        } else {
                            (mid, None)
                        }
                    } else {
                        let x = *r.pick(&cand);
                        let w = self.circs[x].h.clone();
                        let Some(mid) = self.must("register_module", || Ok::<_, BoolCircuitError>(h.register_module(&w))) else { return true };
                        (mid, Some(x))
                    };
                    if !seen.insert(mid.0) {
                        return self.failed("module-id-reused", format!("module id {mid} was given out twice"));
                    }
                    if let (Some(circ), true) = (circ, keep.contains(&i)) {
                        self.mods.push(Mod { store: s, mid, circ });
                    }
                }
            }
            4 | 6 => {
                if self.circs[ci].sigs.is_empty() {
                    return false;
                }
                let mut all: Vec<u32> = self.circs[ci].sigs.clone();
                let one = *r.pick(&all);
                if kind == 4 {
                    let g = self.circs[ci].gid[one as usize].unwrap();
                    users = self.must("reading dependents", || h.get_depended_gates(&g)).map_or(0, |d| d.len());
                    hub = Some(g);
                }
                for i in 0..n {
                    let (mut a, mut b) = (if kind == 4 { one } else { *r.pick(&all) }, *r.pick(&all));
                    if r.bool() {
                        (a, b) = (b, a);
                    }
                    let (ga, gb) = (self.circs[ci].gid[a as usize].unwrap(), self.circs[ci].gid[b as usize].unwrap());
                    let (item, g) = match r.below(5) {
                        0 if kind == 6 || a == one => (Item::Not(a), quiet(|| h.not(&ga))),
                        1 => (Item::And(a, b), quiet(|| h.and(&ga, &gb))),
                        2 => (Item::Or(a, b), quiet(|| h.or(&ga, &gb))),
                        _ => (Item::Xor(a, b), quiet(|| h.xor(&ga, &gb))),
                    };
                    let Ok(Ok(g)) = g else { return self.failed("refused", format!("gate {i} of many was refused: {g:?}")) };
                    if !self.circs[ci].ids.insert(g.0) {
                        return self.failed("id-reused", format!("a gate returned signal {g}, which circuit {ci} had already handed out"));
                    }
                    fan += match &item {
                        Item::Not(a) => (self.circs[ci].gid[*a as usize] == hub) as usize,
                        Item::And(a, b) | Item::Or(a, b) | Item::Xor(a, b) => {
                            (self.circs[ci].gid[*a as usize] == hub) as usize + (self.circs[ci].gid[*b as usize] == hub) as usize
                        }
                        _ => 0,
                    };
                    let it = self.circs[ci].m.push(item);
                    self.circs[ci].set_gid(it, g);
                    self.circs[ci].gates += 1;
                    self.circs[ci].plain.insert(it);
                    made.push(it);
                    if kind == 6 {
                        all.push(it);
                    }
                }
            }
            _ => {
                // instances of small modules
                let store = self.circs[ci].store;
                let cand: Vec<usize> = (0..self.mods.len())
                    .filter(|k| {
                        let m = &self.mods[*k];
                        let t = &self.circs[m.circ];
                        m.store == store && m.circ != ci && t.loads.is_empty() && !t.junk && t.cost() < 40 && t.m.outputs.len() < 8
                    })
                    .collect();
                if cand.is_empty() || self.circs[ci].sigs.is_empty() {
                    return false;
                }
                for _ in 0..n {
                    let md = &self.mods[*r.pick(&cand)];
                    let (mid, t) = (md.mid, md.circ);
                    if self.circs[ci].cost() + self.circs[t].cost() > self.limit {
                        break;
                    }
                    let its: Vec<u32> = (0..self.circs[t].m.inputs.len()).map(|_| *r.pick(&self.circs[ci].sigs)).collect();
                    let gids: Vec<GateId> = its.iter().map(|i| self.circs[ci].gid[*i as usize].unwrap()).collect();
                    let Some(o) = self.must("module", || h.module(&mid, &gids)) else { return true };
                    self.circs[t].sealed = true;
                    let n_out = self.circs[t].m.outputs.len();
                    if o.len() != n_out {
                        return self.failed("module-outputs", format!("an instance of a module with {n_out} outputs has {}", o.len()));
                    }
                    let picks = self.circs[ci].m.fun(Fun::Module(t, n_out), its, n_out);
                    for (p, g) in picks.iter().zip(o.iter()) {
                        if !self.circs[ci].ids.insert(g.0) {
                            return self.failed("id-reused", format!("an instance returned signal {g}, which circuit {ci} had already handed out"));
                        }
                        self.circs[ci].set_gid(*p, *g);
                        self.circs[ci].plain.insert(*p);
                        made.push(*p);
                    }
                    self.circs[ci].consts += self.circs[t].consts;
                    self.circs[ci].gates += self.circs[t].gates;
                }
            }
        }
        for k in keep {
            if let Some(it) = made.get(k) {
                let g = self.circs[ci].gid[*it as usize].unwrap();
                let gate = quiet(|| h.get_gate(&g));
                let want = |x: &u32| self.circs[ci].gid[*x as usize].unwrap();
                let same = match (&gate, &self.circs[ci].m.items[*it as usize]) {
                    (Ok(Ok(NXAOBoolGate::Input(x))), Item::In(k)) => x.wire_id == wid(*k),
                    (Ok(Ok(NXAOBoolGate::Const(x))), Item::K(v)) => x.value == *v,
                    (Ok(Ok(NXAOBoolGate::Not(x))), Item::Not(a)) => x.id == want(a),
                    (Ok(Ok(NXAOBoolGate::And(x))), Item::And(a, b)) => [x.left_id, x.right_id] == [want(a), want(b)],
                    (Ok(Ok(NXAOBoolGate::Or(x))), Item::Or(a, b)) => [x.left_id, x.right_id] == [want(a), want(b)],
                    (Ok(Ok(NXAOBoolGate::Xor(x))), Item::Xor(a, b)) => [x.left_id, x.right_id] == [want(a), want(b)],
                    (Ok(Ok(NXAOBoolGate::Module(_))), Item::Pick(..)) => true,
                    _ => false,
                };
                if !same {
                    return self.failed("unreadable", format!("signal {g} of circuit {ci} reads {gate:?}"));
                }
                self.circs[ci].sigs.push(*it);
            }
        }
        let mut d = FNV0;
        for it in &made {
            d = fnv(d, &self.circs[ci].gid[*it as usize].unwrap().0.to_le_bytes());
        }
        log!(self, "bulk c{ci} {n} {what} {d:x}");
        // and they read back
        if let Some(one) = hub {
            let now = quiet(|| h.get_depended_gates(&one).map(|d| d.len()));
            if !matches!(&now, Ok(Ok(k)) if *k == users + fan) {
                return self.failed("dependents", format!("signal {one} of circuit {ci} lists {now:?} dependents, expected {}", users + fan));
            }
        }
        let consts = quiet(|| h.get_const_gates());
        if kind == 1 {
            let got = consts.as_ref().map(|k| k[k.len().saturating_sub(made.len())..].to_vec());
            let want: Vec<GateId> = made.iter().map(|i| self.circs[ci].gid[*i as usize].unwrap()).collect();
            if got != Ok(want) {
                return self.failed("constants", format!("circuit {ci} does not list the {n} constants it got last"));
            }
        }
        let store = self.stores[self.circs[ci].store].clone();
        if kind == 3 && store.num_module() != modules + n {
            return self.failed("counts", format!("a store of {} modules says it has {}", modules + n, store.num_module()));
        }
        if n > 262_144 {
            self.probe("more than 262144 of one kind");
        }
        if n > 65_536 {
            self.probe(match kind {
                0 => "more than 65536 inputs",
                1 => "more than 65536 constants",
                2 => "more than 65536 outputs",
                3 => "more than 65536 modules",
                4 => "more than 65536 gates over one signal",
                5 => "more than 65536 instances",
                _ => "more than 65536 gates",
            });
        }
        self.counts(ci, "many requests");
        true
    }

    fn add_mod(&mut self, store: usize, mid: ModuleId, circ: usize) {
        log!(self, "module {mid} of store {store} is c{circ}");
        if self.mods.iter().any(|m| m.store == store && m.mid == mid) {
            self.fail("module-id-reused", format!("module id {mid} was given out twice"));
        }
        self.mods.push(Mod { store, mid, circ });
    }

    fn call(&mut self, by: u8, c: u32, m: u32, args: u32) -> bool {
        let c = self.cidx(c);
        let store = self.circs[c].store;
        let cand: Vec<usize> =
            (0..self.mods.len()).filter(|k| self.mods[*k].store == store && self.mods[*k].circ != c).collect();
        if cand.is_empty() || self.circs[c].sealed {
            return false;
        }
        let md = &self.mods[cand[cand.len() - 1 - m as usize % cand.len()]];
        let (mid, t) = (md.mid, md.circ);
        if !self.circs[t].loads.is_empty() || self.circs[t].junk || self.circs[c].cost() + self.circs[t].cost() > self.limit {
            return false;
        }
        let n_in = self.circs[t].m.inputs.len();
        // an instance lists every input for each output
        if self.large && n_in * self.circs[t].m.outputs.len() > 600_000 {
            return false;
        }
        let mut r = Rng::new(args as u64);
        let near = r.bool();
        let mut its = vec![];
        let mut gids = vec![];
        for _ in 0..n_in {
            let k = if near { r.below(4) as u32 } else { r.u32() };
            match self.pick_sig(c, k) {
                Some((i, g)) => {
                    its.push(i);
                    gids.push(g);
                }
                None => return false,
            }
        }
        let mut h = self.handle(by, c);
        if let Some(o) = self.must("module", || h.module(&mid, &gids)) {
            self.circs[t].sealed = true;
            let n_out = self.circs[t].m.outputs.len();
            if o.len() != n_out {
                self.fail("module-outputs", format!("an instance of a module with {n_out} outputs has {}", o.len()));
            }
            let picks = self.circs[c].m.fun(Fun::Module(t, n_out), its, o.len());
            for (p, g) in picks.iter().zip(o.iter()) {
                self.signal(c, *p, *g, true, "module");
                self.circs[c].plain.insert(*p);
            }
            self.circs[c].consts += self.circs[t].consts;
            self.circs[c].gates += self.circs[t].gates;
            if gids.len() + o.len() < 300 {
                log!(self, "call c{c} m{mid} {:?} -> {:?}", gids, o);
            } else {
                log!(self, "call c{c} m{mid} of {} -> {}", gids.len(), o.len());
                self.probe("instance of a module with hundreds of inputs or outputs");
            }
            self.counts(c, "a module instance");
            if n_out > 0 && self.circs[t].m.outputs.iter().any(|i| matches!(self.circs[t].m.items[*i as usize], Item::In(_))) {
                self.probe("module with pass-through output instantiated");
            }
            if self.circs[t].m.items.iter().any(|i| matches!(i, Item::Fun(Fun::Module(..), _))) {
                self.probe("nested module instantiated");
            }
        }
        true
    }

    /// A request that names a signal, module, input or output that does not exist, or gives a module a wrong number of
    /// arguments.
    fn bad(&mut self, by: u8, c: u32, kind: u32, seed: u32) -> bool {
        let c = self.cidx(c);
        let mut r = Rng::new(seed as u64 ^ 0xBAD);
        let mut h = self.handle(by, c);
        let store = self.circs[c].store;
        // signals no request has returned: the next ones, another circuit's, and far away ones
        let next = self.circs[c].ids.iter().next_back().map_or(0, |x| x + 1);
        let mut cand: Vec<u64> = vec![1 << 40, u64::MAX, next + 100_000, 1 << 32];
        for k in 0..40 {
            if quiet(|| h.get_gate(&GateId(next + k)).is_err()) == Ok(true) {
                cand.extend([next + k, next + k, next + k + 1, next + k + 2, next + k + r.below(300)]);
                break;
            }
        }
        if let Some(o) = self.circs.get(r.below(self.circs.len() as u64) as usize) {
            if let Some(x) = o.ids.iter().next_back() {
                if *x > next + 40 && quiet(|| h.get_gate(&GateId(*x)).is_err()) == Ok(true) {
                    cand.push(*x);
                }
            }
        }
        let x = GateId(*r.pick(&cand));
        let good = self.pick_sig(c, r.u32() >> 12).map(|x| x.1);
        let y = good.unwrap_or(x);
        let before = self.snapshot(c);
        let n_mods = self.stores[store].num_module();
        // a module of the store, and arguments for it
        let own: Vec<usize> = (0..self.mods.len())
            .filter(|k| {
                let t = self.mods[*k].circ;
                self.mods[*k].store == store && t != c && self.circs[t].loads.is_empty() && !self.circs[t].junk
            })
            .collect();
        let md = if own.is_empty() { None } else { Some(&self.mods[*r.pick(&own)]) };
        let (mid, m_in) = md.map_or((ModuleId(0), 0), |m| (m.mid, self.circs[m.circ].m.inputs.len()));
        let has_mod = md.is_some();
        let other = md.map(|m| m.circ);
        let other_before = other.and_then(|t| self.snapshot(t));
        let mut args: Vec<GateId> = vec![];
        while args.len() < m_in {
            match self.pick_sig(c, r.u32() >> 12) {
                Some(a) => args.push(a.1),
                None => break,
            }
        }
        let kind = if has_mod && r.bool() { 9 + kind % 3 } else { kind % 16 };
        let mut what = String::new();
        let got: Result<Result<String, String>, Unwound> = quiet(|| {
            let s = |r: Result<GateId, BoolCircuitError>| r.map(|g| g.to_string()).map_err(|e| e.to_string());
            match kind {
                0 => {
                    what = format!("output {x}");
                    h.output(x).map(|w| w.to_string()).map_err(|e| e.to_string())
                }
                1 => {
                    what = format!("not {x}");
                    s(h.not(&x))
                }
                2 => {
                    what = format!("xor {x} {y}");
                    s(h.xor(&x, &y))
                }
                3 => {
                    what = format!("xor {y} {x}");
                    s(h.xor(&y, &x))
                }
                4 => {
                    what = format!("and {x} {y}");
                    s(h.and(&x, &y))
                }
                5 => {
                    what = format!("and {y} {x}");
                    s(h.and(&y, &x))
                }
                6 => {
                    what = format!("or {x} {y}");
                    s(h.or(&x, &y))
                }
                7 => {
                    what = format!("or {y} {x}");
                    s(h.or(&y, &x))
                }
                8 => {
                    let m = ModuleId(*r.pick(&[n_mods as u64, n_mods as u64 + 1, 1 << 40, u64::MAX]));
                    what = format!("an instance of unknown module {m}");
                    h.module(&m, &args).map(|v| v.len().to_string()).map_err(|e| e.to_string())
                }
                9 if has_mod && args.len() == m_in && (m_in > 0 || good.is_some()) => {
                    let k = r.below(4);
                    if (k == 0 || good.is_none()) && m_in > 0 {
                        args.truncate(r.below(m_in as u64) as usize);
                    } else if k == 1 && m_in > 0 {
                        args.pop();
                    } else {
                        for _ in 0..if r.chance(1, 5) { r.range(2, 200) } else { 1 } {
                            args.push(y);
                        }
                    }
                    what = format!("an instance of module {mid}, which has {m_in} inputs, over {} signals", args.len());
                    h.module(&mid, &args).map(|v| v.len().to_string()).map_err(|e| e.to_string())
                }
                10 | 11 if has_mod && args.len() == m_in && m_in > 0 => {
                    let at = match r.below(3) {
                        0 => 0,
                        1 => m_in - 1,
                        _ => r.below(m_in as u64) as usize,
                    };
                    args[at] = x;
                    what = format!("an instance of module {mid} over {args:?}");
                    h.module(&mid, &args).map(|v| v.len().to_string()).map_err(|e| e.to_string())
                }
                12 => {
                    let k = h.input_len() as u64 + r.below(3);
                    what = format!("reading input {k}");
                    h.input_to_gate_id(&WireId(k)).map(|v| format!("{v:?}")).map_err(|e| e.to_string())
                }
                13 => {
                    let k = h.output_len() as u64 + r.below(3);
                    what = format!("reading output {k}");
                    h.output_to_gate_id(&WireId(k)).map(|v| v.to_string()).map_err(|e| e.to_string())
                }
                14 => {
                    let (a, b) = if r.bool() { (x, y) } else { (y, x) };
                    what = format!("equivalent {a} {b}");
                    s(h.equivalent(&a, &b))
                }
                _ => {
                    what = format!("identity {x}");
                    s(h.identity(&x))
                }
            }
        });
        match got {
            Ok(Err(e)) => log!(self, "bad c{c} {what}: {e}"),
            Ok(Ok(v)) => self.fail("accepted", format!("{what} in circuit {c} was accepted and gave {v}")),
            Err(p) => self.fail("panic", format!("{what} in circuit {c} panicked: {p:?}")),
        }
        if self.viol.is_some() {
            return true;
        }
        self.unchanged(c, &before, &format!("a refused request ({what})"));
        if let Some(t) = other {
            self.unchanged(t, &other_before, &format!("a refused request ({what})"));
        }
        if self.stores[store].num_module() != n_mods {
            self.fail("changed", format!("a refused request ({what}) changed the number of modules"));
        }
        true
    }

    fn evaluate(&mut self, by: u8, c: u32, slot: u8, n: u8, seed: u32, skew: i8) -> bool {
        let k = by as usize % self.clients.len();
        let mut c = self.cidx(c);
        let slot = slot % 4;
        let h = self.handle(by, c);
        let (c0, mut e) = if slot == 0 {
            (c, NXAOBoolEvaluator::new(h))
        } else {
            self.clients[k].evals.remove(&slot).unwrap_or_else(|| (c, NXAOBoolEvaluator::new(h)))
        };
        c = c0;
        let before = if seed & 3 == 0 { self.snapshot(c) } else { None };
        let mut r = Rng::new(seed as u64);
        if skew != 0 {
            let mut v = self.vector(c, &mut r);
            let len = (v.len() as i64 + skew as i64).max(0) as usize;
            if len != v.len() {
                v.resize(len, true);
                match quiet(|| e.eval_output(&v)) {
                    Ok(Err(er)) => log!(self, "skewed {er}"),
                    Ok(Ok(_)) => self.fail(
                        "wrong-length-accepted",
                        format!("{} values for {} inputs were accepted", v.len(), self.circs[c].m.inputs.len()),
                    ),
                    Err(p) => self.fail(
                        "wrong-length-panic",
                        format!("{} values for {} inputs: {p:?}", v.len(), self.circs[c].m.inputs.len()),
                    ),
                }
                self.probe("wrong input length offered");
            }
        }
        let n = if self.circs[c].cost() > 3000 { 1 } else { n.clamp(1, 4) };
        for i in 0..n {
            let v = self.vector(c, &mut r);
            let want = self.model_outs(c, &v);
            if let Some(o) = self.eval_with(&mut e, &v, "a circuit") {
                if let Some(d) = Self::differs(&o, &want) {
                    self.fail("wrong-output", format!("outputs of circuit {c}: {d}; inputs {}", show(&v)));
                }
                if i == 0 && self.circs[c].cost() < 3000 {
                    if let Some(o2) = self.eval_with(&mut e, &v, "a circuit again") {
                        if o2 != o {
                            self.fail("not-repeatable", format!("circuit {c} evaluates differently the second time"));
                        }
                    }
                }
            }
            if self.viol.is_some() {
                break;
            }
        }
        self.unchanged(c, &before, "an evaluation");
        if slot != 0 {
            self.clients[k].evals.insert(slot, (c, e));
        }
        true
    }

    fn lib(&mut self, by: u8, c: u32, k: u32) -> bool {
        let c = self.cidx(c);
        let k = k % LIBS;
        let need = [900, 1000, 600, 30000, 31000, 18000, 34000][k as usize];
        if self.circs[c].sealed || self.circs[c].cost() + need > self.limit || !self.circs[c].loads.is_empty() {
            return false;
        }
        let mut h = self.handle(by, c);
        let what = LIB_NAMES[k as usize];
        let r = self.must(what, || match k {
            0 => build_adder64(&mut h),
            1 => build_sub64(&mut h),
            2 => build_neg64(&mut h),
            3 => build_mult2_64(&mut h),
            4 => build_divide_signed_64(&mut h),
            5 => build_divide_unsigned_64(&mut h),
            _ => build_aes128(&mut h),
        });
        if r.is_none() {
            return true;
        }
        let (ni, no) = lib_shape(k);
        let start = self.circs[c].m.inputs.len();
        self.circs[c].loads.push(vec![]);
        self.absorb(c as u32);
        let ins = self.circs[c].loads.pop().unwrap();
        if ins.len() != ni {
            self.fail("lib-inputs", format!("{what} added {} inputs", ins.len()));
            return true;
        }
        let sizes: &[usize] = if k == 6 { &[128, 128] } else if k == 2 { &[64] } else { &[64, 64] };
        let mut at = start;
        for s in sizes {
            self.circs[c].m.groups.push(Group { start: at, len: *s, modulus: 0 });
            at += s;
        }
        let picks = self.circs[c].m.fun(Fun::Lib(k), ins, no);
        self.appended(c, &picks, what);
        log!(self, "lib c{c} {what}");
        self.counts(c, what);
        true
    }

    /// Outputs a load appended to circuit `c`.
    fn appended(&mut self, c: usize, picks: &[u32], what: &str) {
        let h = self.circs[c].h.clone();
        let old = self.circs[c].m.outputs.len();
        let grown = h.output_len() as i64 - old as i64;
        if grown != picks.len() as i64 {
            self.fail("load-outputs", format!("{what} appended {grown} outputs instead of {}", picks.len()));
            return;
        }
        for (i, p) in picks.iter().enumerate() {
            match quiet(|| h.output_to_gate_id(&wid(old + i))) {
                Ok(Ok(g)) => {
                    self.signal(c, *p, g, false, what);
                    self.circs[c].m.outputs.push(*p);
                }
                r => return self.fail("output-table", format!("output {} of circuit {c} reads {r:?}", old + i)),
            }
        }
    }

    // ---------------------------------------------------------------- front ends

    fn gad(&self, g: u32) -> Option<usize> {
        let live: Vec<usize> = (0..self.gads.len())
            .filter(|k| self.gads[*k].as_ref().is_some_and(|g| !self.circs[g.c].sealed && self.circs[g.c].loads.is_empty()))
            .collect();
        if live.is_empty() {
            None
        } else {
            Some(live[live.len() - 1 - g as usize % live.len()])
        }
    }

    /// Sizes after a front end's request: only inputs and outputs are specified.
    fn resync(&mut self, c: usize) {
        let h = self.circs[c].h.clone();
        self.circs[c].consts = h.num_const();
        self.circs[c].gates = h.num_gate();
    }

    fn keep_word(&mut self, gi: usize, items: Vec<u32>, gids: Vec<GateId>, what: &str) {
        let (c, n) = {
            let g = self.gads[gi].as_ref().unwrap();
            (g.c, items.len())
        };
        if gids.len() != n {
            self.fail("width", format!("{what} returned {} bits instead of {n}", gids.len()));
            return;
        }
        for (i, x) in items.iter().zip(gids.iter()) {
            if self.circs[c].ids.contains(&x.0) {
                self.circs[c].set_gid(*i, *x);
                // an existing signal under a new expression: both are checked
                self.circs[c].sigs.push(*i);
            } else {
                self.signal(c, *i, *x, false, what);
            }
        }
        let g = self.gads[gi].as_mut().unwrap();
        if n == g.n {
            if g.words.len() >= 14 {
                g.words.remove(0);
            }
            g.words.push(Word { items, gids });
        }
    }

    fn gadget_op(&mut self, by: u8, op: &Op) -> bool {
        match op {
            Op::GCfg { c, fam, n, p } => {
                let c = self.cidx(*c);
                if self.circs[c].sealed || self.gads.len() > 12 {
                    return false;
                }
                let h = self.handle(by, c);
                let mut ext = p & 3 == 0;
                let (r, idx, n, p) = match fam {
                    0 => {
                        let i = *n as usize % gadget::INT_N.len();
                        {
                            ext &= gadget::INT_N[i] < 200;
                            (self.must("AllocIntConfig::new", || gadget::new_int(i, &h, ext)), i, gadget::INT_N[i], 0)
                        }
                    }
                    1 => {
                        let i = *n as usize % gadget::BITS_N.len();
                        (self.must("AllocBitsConfig::new", || gadget::new_bits(i, &h)), i, gadget::BITS_N[i], 0)
                    }
                    _ => {
                        let i = *n as usize % gadget::FP.len();
                        (self.must("AllocFpConfig::new", || gadget::new_fp(i, &h)), i, gadget::FP[i].0, gadget::FP[i].1)
                    }
                };
                if let Some(g) = r {
                    if let Some((q, inv, e)) = g.mont() {
                        let radius = big(1) << e;
                        if q != big(p) || inv >= radius || (q * &inv + big(1)) % &radius != big(0) {
                            self.fail("montgomery", format!("{inv} is not the negated inverse of {p} modulo 2^{e}"));
                        }
                    }
                    self.gads.push(Some(Gad { g, owner: by, fam: *fam, idx, n, p, c, words: vec![], ext }));
                    log!(self, "config c{c} fam {fam} width {n}");
                    self.counts(c, "making a configuration");
                }
                true
            }
            Op::GRebind { g, c } => {
                let c = self.cidx(*c);
                let gi = match self.gad(*g) {
                    Some(g) => g,
                    None => return false,
                };
                if self.circs[c].sealed || self.gads.len() > 12 {
                    return false;
                }
                let h = self.handle(by, c);
                let g = self.gads[gi].as_ref().unwrap();
                if self.circs[g.c].store != self.circs[c].store || g.c == c {
                    return false;
                }
                let n = Gad { g: g.g.rebind(&h), owner: by, fam: g.fam, idx: g.idx, n: g.n, p: g.p, c, words: vec![], ext: g.ext };
                log!(self, "config rebound to c{c}");
                self.gads.push(Some(n));
                true
            }
            Op::GNew { g } => {
                let gi = match self.gad(*g) {
                    Some(g) => g,
                    None => return false,
                };
                let g = self.gads[gi].take().unwrap();
                let (c, n, p) = (g.c, g.n, g.p);
                if self.circs[c].m.inputs.len() + n > if n > 100 { 800 } else { 200 } {
                    self.gads[gi] = Some(g);
                    return false;
                }
                let r = self.must("a new input word", || g.g.word());
                self.gads[gi] = Some(g);
                if let Some(w) = r {
                    let start = self.circs[c].m.inputs.len();
                    let items: Vec<u32> = (0..n).map(|_| self.circs[c].m.add_input()).collect();
                    self.circs[c].m.groups.push(Group { start, len: n, modulus: p });
                    for (i, x) in w.iter().enumerate() {
                        if self.circs[c].ids.contains(&x.0) {
                            self.fail("id-reused", format!("a new input word holds the old signal {x}"));
                        }
                        let h = self.circs[c].h.clone();
                        match quiet(|| h.input_to_gate_id(&wid(start + i))) {
                            Ok(Ok(Some(y))) if y == *x => {}
                            r => self.fail("input-table", format!("bit {i} of a new word is signal {x}, input {} is {r:?}", start + i)),
                        }
                    }
                    self.keep_word(gi, items, w, "a new input word");
                    log!(self, "word c{c}");
                    self.counts(c, "a new input word");
                }
                true
            }
            Op::GConst { g, v, w } => {
                let gi = match self.gad(*g) {
                    Some(g) => g,
                    None => return false,
                };
                let g = self.gads[gi].take().unwrap();
                let (c, n, p) = (g.c, g.n, g.p);
                let mut x = (*v as u128) << 64 | *w as u128;
                if w & 7 == 0 {
                    x = (*v % 4) as u128;
                }
                x &= if n >= 128 { u128::MAX } else { (1 << n) - 1 };
                if p != 0 {
                    x %= p;
                }
                let mut bits = to_bits(x, n);
                for i in if p != 0 { n } else { 128 }..n {
                    bits[i] = (v.rotate_left(29) >> (i % 64) & 1) as B;
                }
                let what = "a constant word";
                let r = self.must(what, || g.g.konst(&bits));
                self.gads[gi] = Some(g);
                if let Some(w) = r {
                    let items: Vec<u32> = bits.iter().map(|b| self.circs[c].m.push(Item::K(*b == 1))).collect();
                    self.keep_word(gi, items, w, what);
                    self.resync(c);
                    log!(self, "constant {x} c{c}");
                    self.counts(c, what);
                }
                true
            }
            Op::GFrom { g, len, args } => {
                let gi = match self.gad(*g) {
                    Some(g) => g,
                    None => return false,
                };
                let (c, n) = {
                    let g = self.gads[gi].as_ref().unwrap();
                    (g.c, g.n)
                };
                let len = *len as usize % (n + 1);
                let mut r = Rng::new(*args as u64);
                let mut items = vec![];
                let mut gids = vec![];
                for _ in 0..len {
                    match self.pick_sig(c, r.u32()) {
                        Some((i, g)) => {
                            items.push(i);
                            gids.push(g);
                        }
                        None => return false,
                    }
                }
                let g = self.gads[gi].take().unwrap();
                let what = "a word of given signals";
                let res = self.must(what, || g.g.from(gids));
                self.gads[gi] = Some(g);
                if let Some(w) = res {
                    let mut its: Vec<u32> = items.iter().map(|i| self.circs[c].m.push(Item::Id(*i))).collect();
                    while its.len() < n {
                        let z = self.circs[c].m.push(Item::K(false));
                        its.push(z);
                    }
                    self.keep_word(gi, its, w, what);
                    self.resync(c);
                    log!(self, "from c{c} {len}");
                    self.counts(c, what);
                }
                true
            }
            Op::GOp { g, op, a, b, k } => self.gop(*g, *op, *a, *b, *k),
            Op::GOut { g, a } => {
                let gi = match self.gad(*g) {
                    Some(g) => g,
                    None => return false,
                };
                let g = self.gads[gi].take().unwrap();
                let c = g.c;
                if g.words.is_empty() || self.circs[c].m.outputs.len() > 150 {
                    self.gads[gi] = Some(g);
                    return false;
                }
                let w = g.words[g.words.len() - 1 - *a as usize % g.words.len()].clone();
                let r = self.must("outputting a word", || g.g.out(w.gids.clone()));
                self.gads[gi] = Some(g);
                if r.is_some() {
                    self.circs[c].m.outputs.extend(w.items.iter().copied());
                    self.resync(c);
                    log!(self, "gout c{c}");
                    self.counts(c, "outputting a word");
                }
                true
            }
            _ => false,
        }
    }

    fn gop(&mut self, g: u32, op: u32, a: u32, b: u32, k: u32) -> bool {
        let gi = match self.gad(g) {
            Some(g) => g,
            None => return false,
        };
        let g = self.gads[gi].as_ref().unwrap();
        let (c, n, fam, p, idx) = (g.c, g.n, g.fam, g.p, g.idx);
        if g.words.is_empty() || self.circs[c].cost() > self.limit {
            return false;
        }
        let nops = [INT_NAMES.len(), BITS_NAMES.len(), FP_NAMES.len()][fam as usize % 3] as u32;
        let op = op % nops;
        match fam {
            0 if op == 15 && !g.ext => return false,
            0 if (4..=5).contains(&op) && n > 32 && self.circs[c].cost() > if n > 100 { 6000 } else { 500 } => return false,
            0 if op == 15 && n > 32 && self.circs[c].cost() > if n > 100 { 6000 } else { 500 } => return false,
            2 if op >= 9 && !gadget::fp_mul_ok(idx) => return false,
            2 if n > 16 && self.circs[c].cost() > if n > 66 { 6000 } else { 2000 } => return false,
            _ => {}
        }
        let wa = g.words[g.words.len() - 1 - a as usize % g.words.len()].clone();
        let wb = g.words[g.words.len() - 1 - b as usize % g.words.len()].clone();
        let k = if k % 11 == 10 { n + (k / 11 % 3) as usize * n + (k / 33 % 5) as usize } else { k as usize % (n + 1) };
        let (what, n_out) = match fam {
            0 => (INT_NAMES[op as usize], int_out(op, n)),
            1 => (BITS_NAMES[op as usize], bits_out(op, n)),
            _ => (FP_NAMES[op as usize], fp_out(op, n)),
        };
        let sel = if fam == 1 && op == 9 {
            match self.pick_sig(c, b.rotate_left(9) ^ a) {
                Some(s) => Some(s),
                None => return false,
            }
        } else {
            None
        };
        let g = self.gads[gi].take().unwrap();
        let r = self.must(what, || g.g.op(op, wa.gids.clone(), wb.gids.clone(), sel.map(|s| s.1), k));
        self.gads[gi] = Some(g);
        let w = match r {
            Some(w) => w,
            None => return true,
        };
        let mut args = wa.items.clone();
        let fun = match fam {
            0 => {
                if !matches!(op, 6..=8) {
                    args.extend(wb.items.iter().copied());
                }
                Fun::Int { op, n, k }
            }
            1 => {
                if op != 0 {
                    args.extend(wb.items.iter().copied());
                }
                if let Some(s) = sel {
                    args.push(s.0);
                }
                Fun::Bits { op, n }
            }
            _ => {
                if op != 4 {
                    args.extend(wb.items.iter().copied());
                }
                Fun::Fp { op, n, p }
            }
        };
        if fam == 2 && op >= 9 {
            if w.len() != n {
                self.fail("width", format!("{what} returned {} bits instead of {n}", w.len()));
                return true;
            }
            // the product is checked by itself; what is computed from it follows the product that was delivered
            let items: Vec<u32> = (0..n).map(|_| self.circs[c].m.push(Item::Unknown)).collect();
            self.circs[c].fpmul.push(FpMul { gids: w.clone(), a: wa.items, b: wb.items, p });
            self.keep_word(gi, items, w, what);
        } else {
            let picks = self.circs[c].m.fun(fun, args, n_out);
            self.keep_word(gi, picks, w, what);
        }
        self.resync(c);
        log!(self, "{what} c{c} width {n}");
        if fam == 0 && n > 100 && matches!(op, 4 | 5 | 15) {
            self.probe("product of words wider than 100 bits");
        }
        if fam == 2 && n > 66 {
            self.probe("field operation wider than 66 bits");
        }
        *self.stats.ops.entry(what).or_default() += 1;
        self.counts(c, what);
        true
    }
}

pub fn show(v: &[bool]) -> String {
    if v.len() > 96 {
        let mut d = FNV0;
        for b in v {
            d = fnv(d, &[*b as u8]);
        }
        return format!("({} values, digest {d:x})", v.len());
    }
    v.iter().map(|b| if *b { '1' } else { '0' }).collect()
}

// -------------------------------------------------------------------- requests with streams

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::NewCirc { .. } => "new-circuit",
        Op::Sub { .. } => "sub-circuit",
        Op::Register { .. } => "register",
        Op::Burst { .. } => "burst",
        Op::Bulk { .. } => "bulk",
        Op::Spend { .. } => "measured-requests",
        Op::Chain { .. } => "chain",
        Op::Fork { .. } => "copy",
        Op::Forget { .. } => "retrieve",
        Op::In { .. } => "input",
        Op::Const { .. } => "constant",
        Op::Not { .. } => "not",
        Op::Xor { .. } => "xor",
        Op::And { .. } => "and",
        Op::Or { .. } => "or",
        Op::Eqv { .. } => "equivalent",
        Op::Ident { .. } => "identity",
        Op::Call { .. } => "instance",
        Op::Out { .. } => "output",
        Op::BadOut { .. } => "rejected-output",
        Op::BadCall { .. } => "rejected-instance",
        Op::Bad { .. } => "rejected-request",
        Op::Hand { .. } => "hand-over",
        Op::Eval { .. } => "evaluate",
        Op::DropClient => "client-gone",
        Op::Look { .. } => "read-back",
        Op::GCfg { .. } => "config",
        Op::GRebind { .. } => "config-rebound",
        Op::GNew { .. } => "word-input",
        Op::GConst { .. } => "word-constant",
        Op::GFrom { .. } => "word-from-signals",
        Op::GOp { .. } => "word-operation",
        Op::GOut { .. } => "word-output",
        Op::Load { .. } => "load",
        Op::Write { .. } => "write",
        Op::Lib { .. } => "shipped-circuit",
        Op::Relay { .. } => "relay",
        Op::BNew { .. } => "backend-new",
        Op::BReq { .. } => "backend-request",
        Op::BLoad { .. } => "backend-load",
        Op::BLib { .. } => "backend-shipped-circuit",
        Op::BCfg { .. } => "backend-config",
        Op::BWord { .. } => "backend-word",
    }
}

pub fn run_steps(w: &Rc<RefCell<W>>, steps: &[Step], depth: u32) {
    for s in steps {
        {
            let mut b = w.borrow_mut();
            if b.viol.is_some() {
                return;
            }
            if s.by != b.last_by {
                b.last_by = s.by;
                b.stats.switches += 1;
            }
        }
        let done = match &s.op {
            Op::Load { c, slot, doc, src } => load_op(w, s.by, *c, *slot, doc, src, depth),
            Op::Write { c, slot, first, map, sink } => write_op(w, s.by, *c, *slot, *first, *map, sink, depth),
            Op::Relay { c, exports, imports } => relay(w, s.by, *c, exports, imports, depth),
            Op::Hand { c, fmt, seed, exports, imports } => hand(w, *c, *fmt, *seed, exports, imports),
            Op::Spend { c, kind, seed } => crate::spend::spend(w, *c, *kind, *seed),
            Op::BNew { .. } | Op::BReq { .. } | Op::BLoad { .. } | Op::BLib { .. } | Op::BCfg { .. } | Op::BWord { .. } => {
                crate::back::step(w, &s.op)
            }
            op => w.borrow_mut().simple(s.by, op),
        };
        let mut b = w.borrow_mut();
        if done {
            b.stats.steps += 1;
            let name = op_name(&s.op);
            *b.stats.ops.entry(name).or_default() += 1;
            if depth > 0 {
                b.probe("request made inside a stream call");
            }
        } else {
            b.stats.skipped += 1;
        }
    }
}

fn load_op(w: &Rc<RefCell<W>>, by: u8, c: u32, slot: u8, spec: &DocSpec, src: &Src, depth: u32) -> bool {
    let made = doc::make(spec);
    let (c, mut rd, fresh) = {
        let mut b = w.borrow_mut();
        let c = b.cidx(c);
        let room = if b.large {
            500_000
        } else if made.doc.n_in() > 150 {
            900
        } else {
            300
        };
        if b.circs[c].sealed || b.circs[c].cost() + made.doc.lines.len() * 2 > b.limit || b.circs[c].m.inputs.len() + made.doc.n_in() > room {
            return false;
        }
        let k = by as usize % b.clients.len();
        let slot = slot % 4;
        if slot == 0 {
            (c, BristolNXAOReader::new(), true)
        } else {
            match b.clients[k].readers.remove(&slot) {
                Some(r) => (c, r, false),
                None => (c, BristolNXAOReader::new(), true),
            }
        }
    };
    let ld = LoadDoc {
        bytes: Rc::new(made.bytes.clone()),
        full: Rc::new(made.doc.clone()),
        line_ends: made.line_ends.clone(),
        orig_len: made.orig.len(),
        torn: matches!(spec.damage, Damage::Torn(_)) && !doc::cut_to_eq(&made.bytes, &made.orig),
    };
    load(w, by, c, &mut rd, fresh, &ld, src, depth);
    let mut b = w.borrow_mut();
    if slot % 4 != 0 {
        let k = by as usize % b.clients.len();
        b.clients[k].readers.insert(slot % 4, rd);
    }
    true
}

enum Res {
    Ok,
    Err(BristolError),
    Unwound(Unwound),
}

fn undisturbed(bytes: &[u8]) -> Option<CRef> {
    let mut c = NXAOBoolCircuit::new(Store::new()).to_ref();
    match quiet(|| BristolNXAOReader::new().read(bytes, &mut c)) {
        Ok(Ok(())) => Some(c),
        _ => None,
    }
}

/// One load with every check that belongs to it; true if it succeeded.
#[allow(clippy::too_many_arguments)]
fn load(w: &Rc<RefCell<W>>, by: u8, c: usize, rd: &mut BristolNXAOReader, fresh: bool, ld: &LoadDoc, src: &Src, depth: u32) -> bool {
    let rec = Rc::new(RefCell::new(Rec::default()));
    let (mut h, was_empty, consts) = {
        let mut b = w.borrow_mut();
        b.circs[c].loads.push(vec![]);
        (b.handle(by, c), b.circs[c].m.items.is_empty() && b.circs[c].gates == 0 && b.circs[c].consts == 0, b.circs[c].consts)
    };
    let source = SimSource::new(src, ld.bytes.clone(), Rc::downgrade(w), c as u32, depth, rec.clone());
    let r = match if src.cap == 0 {
        quiet(|| rd.read(source, &mut h))
    } else {
        quiet(|| rd.read(BufReader::with_capacity(src.cap as usize, source), &mut h))
    } {
        Ok(Ok(())) => Res::Ok,
        Ok(Err(e)) => Res::Err(e),
        Err(u) => Res::Unwound(u),
    };
    let mut b = w.borrow_mut();
    if b.viol.is_some() {
        return false;
    }
    b.absorb(c as u32);
    let ins = b.circs[c].loads.pop().unwrap();
    let rec = rec.borrow();
    b.stats.calls += rec.calls;
    b.stats.shorts += rec.shorts;
    b.stats.eintr += rec.eintr;
    for (k, pos) in &rec.fired {
        let ph = doc::phase(ld.orig_len, &ld.line_ends, *pos);
        *b.stats.fired.entry(format!("read:{k}:{ph}")).or_default() += 1;
    }
    let parsed = doc::parse_sparse(&ld.bytes).ok().map(Rc::new);
    let grown = b.circs[c].h.output_len() as i64 - b.circs[c].m.outputs.len() as i64;
    let dump = || {
        if ld.bytes.len() < 400 {
            format!(" document {:?}", String::from_utf8_lossy(&ld.bytes))
        } else {
            String::new()
        }
    };
    match &r {
        Res::Ok => {
            log!(b, "load c{c} ok");
            if ld.full.n_in() > 65_536 {
                b.probe("document of more than 65536 inputs loaded");
            }
            if ld.full.n_out() > 65_536 {
                b.probe("document of more than 65536 outputs loaded");
            }
            if ld.full.lines.len() > 65_536 {
                b.probe("document of more than 65536 gates loaded");
            }
            if ld.full.lines.len() > 1000 {
                b.probe("document of more than 1000 gates loaded");
            }
        }
        Res::Err(e) => log!(b, "load c{c} error {e}"),
        Res::Unwound(u) => log!(b, "load c{c} unwound {u:?}"),
    }
    if !matches!(r, Res::Ok) && grown != 0 && b.viol.is_none() {
        b.fail("failed-load-output", format!("a load that did not succeed registered {grown} outputs;{}", dump()));
        return false;
    }
    let ok = match r {
        Res::Unwound(Unwound::Injected) => {
            b.probe("load abandoned by a panic of the stream");
            false
        }
        Res::Unwound(Unwound::Stall) => {
            b.fail("stall", format!("the load made more than {} stream calls on {} bytes", rec.calls, ld.bytes.len()));
            false
        }
        Res::Unwound(Unwound::Panic(p)) => {
            b.fail("load-panic", format!("the load panicked: {p};{}", dump()));
            false
        }
        Res::Err(e) => {
            let io = match &e {
                BristolError::IOError(x) => Some(x.kind()),
                _ => None,
            };
            match (&parsed, rec.hard) {
                (Some(_), None) => b.fail("load-refused", format!("a well-formed document was refused: {e};{}", dump())),
                (Some(_), Some((k, pos))) if io != Some(k) => {
                    b.fail("wrong-error", format!("the stream failed with {k:?} at byte {pos}, the load reported {e}"))
                }
                _ => {}
            }
            if rec.hard.is_some() {
                b.probe("load failed by a stream error");
            } else {
                b.probe("load rejected a damaged document");
            }
            false
        }
        Res::Ok => {
            if let Some((k, pos)) = rec.hard {
                let early = match &parsed {
                    Some(d) => pos < doc::body_end(&ld.bytes, d),
                    None => ld.torn,
                };
                if early {
                    b.fail(
                        "error-swallowed",
                        format!("the stream failed with {k:?} at byte {pos} of {}, the load reported success;{}", ld.bytes.len(), dump()),
                    );
                    return false;
                }
            }
            if let (None, Some(why)) = (&parsed, doc::unreadable(&ld.bytes)) {
                b.fail("damage-accepted", format!("a document that cannot be read was loaded: {why};{}", dump()));
                return false;
            }
            let d = match &parsed {
                Some(d) => Some(d.clone()),
                None if ld.torn => {
                    b.probe("torn document loaded as the full one");
                    Some(ld.full.clone())
                }
                None => None,
            };
            let (fun, ni, no) = match d {
                Some(d) => (Fun::Doc(d.clone()), d.n_in(), d.n_out()),
                None => match undisturbed(&ld.bytes) {
                    Some(s) => {
                        b.probe("damaged document accepted");
                        let (ni, no) = (s.input_len(), s.output_len());
                        (Fun::Real(s), ni, no)
                    }
                    None => {
                        b.fail("history", format!("a document a fresh loader refuses was loaded;{}", dump()));
                        return false;
                    }
                },
            };
            if ins.len() != ni {
                b.fail("load-inputs", format!("the load added {} inputs instead of {ni};{}", ins.len(), dump()));
                return false;
            }
            if let Fun::Doc(d) = &fun {
                let want = d.lines.iter().filter(|l| l.g == doc::G::Eq).count();
                let got = b.circs[c].consts - consts;
                if parsed.is_some() && !rec.pumped && got != want {
                    b.fail("load-constants", format!("the load added {got} constants instead of {want};{}", dump()));
                    return false;
                }
                // the document's input groups are its numbers
                let first = b.circs[c].m.inputs.len() - ins.len();
                let contiguous = ins.iter().enumerate().all(|(i, it)| b.circs[c].m.inputs.get(first + i) == Some(it));
                if contiguous {
                    let mut at = first;
                    for g in d.ins.iter().filter(|g| **g > 0 && **g <= 128) {
                        b.circs[c].m.groups.push(Group { start: at, len: *g, modulus: 0 });
                        at += g;
                    }
                }
            }
            let picks = b.circs[c].m.fun(fun, ins, no);
            b.appended(c, &picks, "a load");
            let n = b.circs[c].h.num_gate();
            b.circs[c].gates = n;
            if was_empty && !rec.pumped && b.viol.is_none() {
                match undisturbed(&ld.bytes) {
                    Some(s) => {
                        if *s.borrow() != *b.circs[c].h.borrow() {
                            b.fail("delivery", format!("the loaded circuit differs from the one an undisturbed stream gives;{}", dump()));
                        }
                    }
                    None => b.fail("history", format!("a document a fresh loader refuses was loaded;{}", dump())),
                }
            }
            true
        }
    };
    // what a fresh loader makes of the same stream
    if !fresh && !rec.pumped && b.viol.is_none() {
        let rec2 = Rc::new(RefCell::new(Rec::default()));
        let s2 = SimSource::new(src, ld.bytes.clone(), std::rc::Weak::new(), 0, 9, rec2);
        let mut c2 = NXAOBoolCircuit::new(Store::new()).to_ref();
        let r2 = if src.cap == 0 {
            quiet(|| BristolNXAOReader::new().read(s2, &mut c2).is_ok())
        } else {
            quiet(|| BristolNXAOReader::new().read(BufReader::with_capacity(src.cap as usize, s2), &mut c2).is_ok())
        };
        if matches!(r2, Ok(true)) != ok {
            b.fail("history", format!("a used loader {} where a fresh one does not;{}", if ok { "succeeds" } else { "fails" }, dump()));
        }
        b.probe("load through a used loader");
    }
    b.counts(c, "a load");
    if b.viol.is_none() && b.circs[c].cost() < 3000 {
        let salt = b.salt ^ b.digest;
        b.spot(c, 1, salt, "after a load");
    }
    ok
}

struct Reference {
    bytes: Rc<Vec<u8>>,
    consts: Vec<bool>,
    doc: Rc<Doc>,
}

/// What a fresh writer sends to an undisturbed sink, checked against the circuit.
fn reference(w: &Rc<RefCell<W>>, c: usize, first: usize) -> Option<Reference> {
    let mut b = w.borrow_mut();
    let h = b.circs[c].h.clone();
    let r = b.must("a write to a plain sink", || {
        let mut wr = BristolNXAOWriter::new(h, BufWriter::new(Vec::<u8>::new()));
        let consts = wr.write(first, None)?;
        wr.writer.flush()?;
        Ok::<_, BristolError>((wr.writer.get_ref().clone(), consts))
    });
    let (bytes, consts) = r?;
    let (n_in, n_out) = (b.circs[c].m.inputs.len(), b.circs[c].m.outputs.len());
    let total = n_in + b.circs[c].consts;
    let dump = || if bytes.len() < 400 { format!(" document {:?}", String::from_utf8_lossy(&bytes)) } else { String::new() };
    let d = match doc::parse(&bytes) {
        Ok(d) => d,
        Err(e) => {
            b.fail("not-a-document", format!("the written document is not well formed: {e};{}", dump()));
            return None;
        }
    };
    if d.ins.len() != 2 || d.ins[0] != first || d.ins[1] != total - first || d.n_out() != n_out {
        b.fail(
            "document-header",
            format!("the document declares inputs {:?} and outputs {:?}, expected {:?} and {n_out};{}", d.ins, d.outs, [first, total - first], dump()),
        );
        return None;
    }
    if consts.len() + n_in != total {
        b.fail("document-constants", format!("{} constants returned for {} constant inputs;{}", consts.len(), total - n_in, dump()));
        return None;
    }
    let fresh = undisturbed(&bytes);
    if fresh.is_none() {
        b.fail("unreadable", format!("the written document cannot be loaded;{}", dump()));
        return None;
    }
    let fresh = fresh.unwrap();
    let salt = b.salt ^ b.digest;
    let mut r = Rng::new(salt);
    for _ in 0..if b.circs[c].cost() > 3000 { 1 } else { 3 } {
        let v = b.vector(c, &mut r);
        let want = b.model_outs(c, &v);
        let all: Vec<bool> = v.iter().chain(consts.iter()).copied().collect();
        let got: Vec<bool> = d.eval(&all.iter().map(|x| *x as u8).collect::<Vec<B>>()).iter().map(|x| *x == 1).collect();
        if let Some(x) = W::differs(&got, &want) {
            b.fail("document-function", format!("the written document's outputs: {x}; inputs {};{}", show(&v), dump()));
            return None;
        }
        let mut e = NXAOBoolEvaluator::new(fresh.clone());
        let o = b.eval_with(&mut e, &all, "a written document loaded back")?;
        if let Some(x) = W::differs(&o, &want) {
            b.fail("reload-function", format!("the document loaded back: {x}; inputs {};{}", show(&v), dump()));
            return None;
        }
    }
    let dg = fnv(FNV0, &bytes);
    log!(b, "document c{c} first {first} {dg:x} {} consts {}", bytes.len(), show(&consts));
    if b.large && bytes.len() > 300_000 {
        b.probe("document of more than 300 kB written");
    }
    Some(Reference { bytes: Rc::new(bytes), consts, doc: Rc::new(d) })
}

impl W {
    /// The wire table a write hands back: inputs, outputs and every listed signal are on a wire that carries their value.
    fn wire_map(&mut self, c: usize, m: &HashMap<GateId, usize>, rf: &Reference) {
        let mut r = Rng::new(self.salt ^ self.digest ^ 0x3A9);
        let v = self.vector(c, &mut r);
        let vals = self.model_vals(c, &v);
        let all: Vec<B> = v.iter().chain(rf.consts.iter()).map(|x| *x as u8).collect();
        let wires = rf.doc.wires(&all);
        let ci = &self.circs[c];
        let mut known: Vec<u32> = ci.sigs.clone();
        let must: BTreeSet<u32> = ci.m.outputs.iter().chain(ci.m.inputs.iter()).copied().collect();
        known.extend(must.iter());
        let mut bad = None;
        for it in known {
            let Some(g) = ci.gid.get(it as usize).copied().flatten() else { continue };
            match m.get(&g) {
                None if must.contains(&it) => bad = Some(format!("signal {g:?} is missing")),
                None => {}
                Some(w) => {
                    let want = outs(&vals, &[it])[0];
                    if wires.get(*w).is_none_or(|x| *x != want && *x != U && want != U) {
                        bad = Some(format!("signal {g:?} is said to be on wire {w}, which does not carry its value; inputs {}", show(&v)));
                    }
                }
            }
        }
        self.probe("wire table checked");
        if let Some(d) = bad {
            self.fail("wire-table", format!("the wire table of a write is wrong: {d}"));
        }
    }
}

/// One write through `wr` into a scripted sink.  `Some(bytes)` if it was acknowledged; `Err(bytes)`: what the sink holds.
#[allow(clippy::too_many_arguments)]
fn attempt(w: &Rc<RefCell<W>>, c: usize, wr: &mut Wr, first: usize, map: bool, k: &SinkScript, rf: &Reference, depth: u32, used: bool) -> Result<Vec<u8>, Vec<u8>> {
    let rec = Rc::new(RefCell::new(Rec::default()));
    let sink = SimSink::new(k, rf.bytes.len(), Rc::downgrade(w), c as u32, depth, rec.clone());
    let before = w.borrow().snapshot(c);
    wr.writer = BufWriter::with_capacity(k.cap as usize, sink);
    let mut m = HashMap::new();
    let res = quiet(|| wr.write(first, if map { Some(&mut m) } else { None }));
    let fl = match &res {
        Ok(Ok(_)) => Some(quiet(|| wr.writer.flush())),
        _ => None,
    };
    let acked_bytes = rec.borrow().got.clone();
    rec.borrow_mut().disarmed = true;
    let old = std::mem::replace(&mut wr.writer, BufWriter::new(SimSink::idle()));
    if k.crash {
        // the process dies: what was still buffered is gone
        drop(old.into_parts());
    } else {
        drop(old);
    }
    let mut b = w.borrow_mut();
    let rec = rec.borrow();
    if b.viol.is_some() {
        return Err(rec.got.clone());
    }
    b.stats.calls += rec.calls;
    b.stats.shorts += rec.shorts;
    b.stats.eintr += rec.eintr;
    let head = rf.bytes.windows(2).position(|x| x == b"\n\n").map_or(rf.bytes.len(), |p| p + 2);
    for (k, pos) in &rec.fired {
        let ph = if *pos == 0 {
            "start"
        } else if *pos < head {
            "header"
        } else if *pos >= rf.bytes.len() {
            "end"
        } else if rf.bytes[*pos - 1] == b'\n' {
            "at-gate"
        } else {
            "in-gate"
        };
        *b.stats.fired.entry(format!("write:{k}:{ph}")).or_default() += 1;
    }
    let mut consts = None;
    let outcome = match (res, fl) {
        (Ok(Ok(v)), Some(Ok(Ok(())))) => {
            consts = Some(v);
            Some(true)
        }
        (Ok(Err(e)), _) => {
            log!(b, "write error {e}");
            if !matches!(e, BristolError::IOError(_)) {
                b.fail("wrong-error", format!("a write reported {e}"));
            }
            Some(false)
        }
        (Ok(Ok(_)), Some(Ok(Err(e)))) => {
            log!(b, "flush error {e}");
            Some(false)
        }
        (Err(Unwound::Injected), _) | (_, Some(Err(Unwound::Injected))) => {
            b.probe("write abandoned by a panic of the sink");
            None
        }
        (Err(Unwound::Stall), _) | (_, Some(Err(Unwound::Stall))) => {
            b.fail("stall", format!("the write made more than {} sink calls for {} bytes", rec.calls, rf.bytes.len()));
            None
        }
        (Err(p), _) | (_, Some(Err(p))) => {
            b.fail("write-panic", format!("the write panicked: {p:?}"));
            None
        }
        _ => None,
    };
    let dump = |x: &[u8]| if rf.bytes.len() < 400 { format!(" received {:?}, expected {:?}", String::from_utf8_lossy(x), String::from_utf8_lossy(&rf.bytes)) } else { String::new() };
    let who = if used { "a used writer" } else { "a fresh writer" };
    match outcome {
        Some(true) => {
            if let Some((k, pos)) = rec.hard {
                b.fail("failure-unreported", format!("the sink failed with {k:?} at byte {pos} of {}, write and flush succeeded", rf.bytes.len()));
            } else if acked_bytes != *rf.bytes {
                b.fail("document-differs", format!("{who} sent a different document;{}", dump(&acked_bytes)));
            } else if consts.as_ref() != Some(&rf.consts) {
                b.fail("constants-differ", format!("{who} returned constants {consts:?}, expected {:?}", rf.consts));
            } else if rec.got != *rf.bytes {
                b.fail("document-differs", format!("{who} sent more after the flush;{}", dump(&rec.got)));
            } else if map && !rec.pumped {
                b.wire_map(c, &m, rf);
            }
        }
        Some(false) => {
            b.probe("write failed by the sink");
            if rec.hard.is_none() {
                b.fail("write-refused", "write or flush failed although the sink did not".to_string());
            }
        }
        None => {}
    }
    if !rf.bytes.starts_with(&rec.got) && b.viol.is_none() {
        b.fail("not-a-prefix", format!("{who} left bytes that are not a prefix of the document;{}", dump(&rec.got)));
    }
    let dg = fnv(FNV0, &rec.got);
    log!(b, "attempt c{c} {outcome:?} {} bytes {dg:x}", rec.got.len());
    if !rec.pumped {
        b.unchanged(c, &before, "a write");
    }
    if used {
        b.probe("write through a used writer");
    }
    if outcome == Some(true) {
        Ok(acked_bytes)
    } else {
        Err(rec.got.clone())
    }
}

#[allow(clippy::too_many_arguments)]
fn write_op(w: &Rc<RefCell<W>>, by: u8, c: u32, slot: u8, first: u32, map: bool, k: &SinkScript, depth: u32) -> bool {
    let slot = slot % 4;
    let (c, mut wr, used) = {
        let mut b = w.borrow_mut();
        let mut c = b.cidx(c);
        let kk = by as usize % b.clients.len();
        let mut got = None;
        if slot != 0 {
            got = b.clients[kk].writers.remove(&slot);
        }
        let h = b.handle(by, c);
        match got {
            Some((c0, wr)) => {
                c = c0;
                (c, wr, true)
            }
            None => (c, BristolNXAOWriter::new(h, BufWriter::new(SimSink::idle())), false),
        }
    };
    let (skip, total) = {
        let b = w.borrow();
        (b.circs[c].cost() > b.limit, b.circs[c].m.inputs.len() + b.circs[c].consts)
    };
    let mut done = false;
    if !skip {
        let first = first as usize % (total + 1);
        if let Some(rf) = reference(w, c, first) {
            let _ = attempt(w, c, &mut wr, first, map, k, &rf, depth, used);
            if rf.doc.lines.is_empty() {
                w.borrow_mut().probe("document without gates written");
            }
        }
        done = true;
    }
    if slot != 0 {
        let mut b = w.borrow_mut();
        let kk = by as usize % b.clients.len();
        b.clients[kk].writers.insert(slot, (c, wr));
    }
    done
}

/// Bits packed and handed over as bytes (0: least significant bit first, 1: most significant first) or as hexadecimal
/// text of those (2, 3).
fn packed(bits: &[bool], fmt: u8) -> Vec<u8> {
    let mut v = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= if fmt & 1 == 0 { 1 << (i % 8) } else { 0x80 >> (i % 8) };
        }
    }
    if fmt >= 2 {
        v = v.iter().flat_map(|x| [b"0123456789abcdef"[(x >> 4) as usize], b"0123456789abcdef"[(x & 15) as usize]]).collect();
    }
    v
}

fn unpack(bytes: &[u8], fmt: u8) -> Result<Vec<bool>, String> {
    let raw = if fmt >= 2 {
        hex2bytes(std::str::from_utf8(bytes).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?
    } else {
        bytes.to_vec()
    };
    Ok(if fmt & 1 == 0 { bytes2bits_le(&raw) } else { bytes2bits_be(&raw) })
}

fn hand(w: &Rc<RefCell<W>>, c: u32, fmt: u8, seed: u32, exports: &[Attempt], imports: &[Src]) -> bool {
    let mut b = w.borrow_mut();
    let c = b.cidx(c);
    if b.circs[c].cost() > 3000 || !b.circs[c].loads.is_empty() {
        return false;
    }
    let fmt = fmt % 4;
    let mut r = Rng::new(seed as u64 ^ 0x4A7D);
    let v = b.vector(c, &mut r);
    let mut e = NXAOBoolEvaluator::new(b.circs[c].h.clone());
    let Some(o) = b.eval_with(&mut e, &v, "before a hand-over") else { return true };
    let (ni, no) = (v.len(), o.len());
    let mut bits: Vec<bool> = v.iter().chain(o.iter()).copied().collect();
    let extra = match r.below(4) {
        0 => 0,
        1 => (8 - bits.len() % 8) % 8,
        2 => r.below(40) as usize,
        _ if r.chance(1, 60) => r.range(4000, 140_000) as usize,
        _ => r.below(300) as usize,
    };
    let dense = r.below(3);
    bits.extend((0..extra).map(|_| match dense {
        0 => r.bool(),
        1 => r.chance(1, 12),
        _ => !r.chance(1, 12),
    }));
    let want = packed(&bits, fmt);
    let bytes = match quiet(|| {
        let raw = if fmt & 1 == 0 { bits2bytes_le(&bits) } else { bits2bytes_be(&bits) };
        if fmt >= 2 {
            bytes2hex(&raw).into_bytes()
        } else {
            raw
        }
    }) {
        Ok(x) => x,
        Err(p) => {
            b.fail("panic", format!("packing {} bits panicked: {p:?}", bits.len()));
            return true;
        }
    };
    let same = if fmt >= 2 { bytes.to_ascii_lowercase() == want } else { bytes == want };
    if !same {
        b.fail("packing", format!("{} bits {} were packed (format {fmt}) as {bytes:?}, expected {want:?}", bits.len(), show(&bits)));
        return true;
    }
    if bits.len() % 8 != 0 {
        b.probe("bits that do not fill the last byte were packed");
    }
    let mut full = bits.clone();
    full.resize(bits.len().div_ceil(8) * 8, false);
    drop(b);

    // the sender trusts the storage once write and flush were acknowledged
    let healthy = SinkScript { cap: 64, chunks: vec![], faults: vec![], flush_err: None, crash: false };
    let mut tries: Vec<(SinkScript, u32)> = exports.iter().map(|a| (a.sink.clone(), a.keep)).collect();
    tries.push((healthy, 1000));
    let mut durable = None;
    for (k, keep) in &tries {
        let rec = Rc::new(RefCell::new(Rec::default()));
        let sink = SimSink::new(k, bytes.len(), std::rc::Weak::new(), 0, 3, rec.clone());
        let res = quiet(|| {
            let mut wr = BufWriter::with_capacity(k.cap as usize, sink);
            let res = wr.write_all(&bytes).and_then(|_| wr.flush());
            drop(wr.into_parts());
            res.is_ok()
        });
        let rec = rec.borrow();
        let mut b = w.borrow_mut();
        b.stats.calls += rec.calls;
        b.stats.shorts += rec.shorts;
        b.stats.eintr += rec.eintr;
        for (k, _) in &rec.fired {
            *b.stats.fired.entry(format!("write:{k}:values")).or_default() += 1;
        }
        if res == Ok(true) {
            durable = Some(rec.got.clone());
            break;
        }
        let n = rec.got.len() * (*keep as usize).min(1000) / 1000;
        let left = &rec.got[..n];
        b.probe("crash left an unacknowledged hand-over");
        match quiet(|| unpack(left, fmt)) {
            Err(p) => b.fail("panic", format!("unpacking {left:?} (format {fmt}) panicked: {p:?}")),
            Ok(Err(_)) if fmt >= 2 && n % 2 == 1 => b.probe("torn hexadecimal text rejected"),
            Ok(Ok(x)) if (fmt < 2 || n % 2 == 0) && full.starts_with(&x) && x.len() == n * 8 / if fmt < 2 { 1 } else { 2 } => {}
            Ok(x) => b.fail("torn-values", format!("a torn hand-over {left:?} (format {fmt}) reads as {x:?}")),
        }
        if b.viol.is_some() {
            return true;
        }
    }
    let Some(stored) = durable else {
        w.borrow_mut().fail("harness", "healthy storage refused a hand-over".into());
        return true;
    };
    // the receiver reads until a read succeeds
    let mut srcs = imports.to_vec();
    srcs.push(Src { cap: 0, chunks: vec![], faults: vec![] });
    let stored = Rc::new(stored);
    for s in &srcs {
        let rec = Rc::new(RefCell::new(Rec::default()));
        let source = SimSource::new(s, stored.clone(), std::rc::Weak::new(), 0, 3, rec.clone());
        let mut got = vec![];
        let res = quiet(|| {
            let mut rd = BufReader::with_capacity(s.cap.max(1) as usize, source);
            std::io::Read::read_to_end(&mut rd, &mut got).is_ok()
        });
        let rec = rec.borrow();
        let mut b = w.borrow_mut();
        b.stats.calls += rec.calls;
        b.stats.shorts += rec.shorts;
        b.stats.eintr += rec.eintr;
        for (k, _) in &rec.fired {
            *b.stats.fired.entry(format!("read:{k}:values")).or_default() += 1;
        }
        if res != Ok(true) {
            continue;
        }
        match quiet(|| unpack(&got, fmt)) {
            Err(p) => b.fail("panic", format!("unpacking {} bytes (format {fmt}) panicked: {p:?}", got.len())),
            Ok(Err(e)) => b.fail("unpacking", format!("what was packed (format {fmt}) is refused: {e}")),
            Ok(Ok(x)) if x != full => {
                b.fail("unpacking", format!("{} bits {} were unpacked (format {fmt}) as {}", bits.len(), show(&full), show(&x)));
            }
            Ok(Ok(x)) => {
                let c_h = b.circs[c].h.clone();
                let mut e = NXAOBoolEvaluator::new(c_h);
                if let Some(o2) = b.eval_with(&mut e, &x[..ni], "after a hand-over") {
                    if o2[..] != x[ni..ni + no] {
                        b.fail("wrong-output", format!("circuit {c} gives other outputs on inputs that were handed over"));
                    }
                }
            }
        }
        if b.viol.is_some() {
            return true;
        }
        // a text with a character that is no hexadecimal digit
        if fmt >= 2 && !got.is_empty() {
            let at = match r.below(3) {
                0 => 0,
                1 => got.len() - 1,
                _ => r.below(got.len() as u64) as usize,
            };
            let what = *r.pick(b"gGzZ /:@`-+x_.\n\0");
            match r.below(5) {
                0 | 1 => got[at] = what,
                // around the text, in even number
                2 => got.extend([what, what]),
                3 => got.extend([*r.pick(b"\r \t\0"), *r.pick(b"\n \0h")]),
                _ => drop(got.splice(0..0, *r.pick(&[*b"0x", *b"0X", *b"  ", *b"\\x", *b"\n\n", *b"\0\0", *b"U+"]))),
            }
            match quiet(|| unpack(&got, fmt)) {
                Err(p) => b.fail("panic", format!("unpacking damaged text panicked: {p:?}")),
                Ok(Ok(_)) => b.fail("damaged-values", format!("the text {:?} is accepted", String::from_utf8_lossy(&got))),
                Ok(Err(_)) => b.probe("damaged hexadecimal text rejected"),
            }
        }
        let dg = fnv(FNV0, &stored);
        log!(b, "hand c{c} format {fmt} {} bits {dg:x}", bits.len());
        return true;
    }
    true
}

fn relay(w: &Rc<RefCell<W>>, by: u8, c: u32, exports: &[Attempt], imports: &[Src], depth: u32) -> bool {
    let (c, ni, no) = {
        let b = w.borrow();
        let c = b.cidx(c);
        if b.circs[c].cost() > b.limit || b.circs.len() > 20 || !b.circs[c].loads.is_empty() || b.circs[c].junk {
            return false;
        }
        (c, b.circs[c].m.inputs.len(), b.circs[c].m.outputs.len())
    };
    let first = ni;
    let rf = match reference(w, c, first) {
        Some(r) => r,
        None => return true,
    };
    let h = w.borrow_mut().handle(by, c);
    let mut wr: Wr = BristolNXAOWriter::new(h, BufWriter::new(SimSink::idle()));
    let mut durable = None;
    let healthy = SinkScript { cap: 64, chunks: vec![], faults: vec![], flush_err: None, crash: false };
    let mut tries: Vec<(SinkScript, u32)> = exports.iter().map(|a| (a.sink.clone(), a.keep)).collect();
    tries.push((healthy, 1000));
    for (i, (k, keep)) in tries.iter().enumerate() {
        match attempt(w, c, &mut wr, first, false, k, &rf, depth, i > 0) {
            Ok(bytes) => {
                durable = Some(bytes);
                break;
            }
            Err(got) => {
                if w.borrow().viol.is_some() {
                    return true;
                }
                // a crash keeps some of the unacknowledged bytes
                let n = got.len() * (*keep as usize).min(1000) / 1000;
                let left = got[..n].to_vec();
                w.borrow_mut().probe("crash left an unacknowledged export");
                let mut t = NXAOBoolCircuit::new(Store::new()).to_ref();
                let r = quiet(|| BristolNXAOReader::new().read(&left[..], &mut t));
                let mut b = w.borrow_mut();
                match r {
                    Ok(Err(_)) => {}
                    Ok(Ok(())) if doc::cut_to_eq(&left, &rf.bytes) => b.probe("crash cut a copy line to a constant line"),
                    Ok(Ok(())) => {
                        b.probe("unacknowledged export was importable");
                        let salt = b.salt ^ b.digest;
                        let mut r = Rng::new(salt);
                        for _ in 0..2 {
                            let v = b.vector(c, &mut r);
                            let want = b.model_outs(c, &v);
                            let all: Vec<bool> = v.iter().chain(rf.consts.iter()).copied().collect();
                            let mut e = NXAOBoolEvaluator::new(t.clone());
                            match b.eval_with(&mut e, &all, "an unacknowledged export") {
                                Some(o) => {
                                    if let Some(d) = W::differs(&o, &want) {
                                        b.fail("torn-export", format!("an unacknowledged export of {n} of {} bytes loads as another function: {d}", rf.bytes.len()));
                                    }
                                }
                                None => return true,
                            }
                        }
                    }
                    Err(p) => b.fail("load-panic", format!("importing an unacknowledged export panicked: {p:?}")),
                }
                if b.viol.is_some() {
                    return true;
                }
            }
        }
    }
    let bytes = match durable {
        Some(x) => x,
        None => {
            w.borrow_mut().fail("no-progress", "an export to healthy storage failed".into());
            return true;
        }
    };
    let mut line_ends = vec![];
    for (i, x) in bytes.iter().enumerate() {
        if *x == b'\n' {
            line_ends.push(i + 1);
        }
    }
    let ld = LoadDoc { orig_len: bytes.len(), bytes: Rc::new(bytes), full: rf.doc.clone(), line_ends, torn: false };
    let mut rd = BristolNXAOReader::new();
    let mut srcs = imports.to_vec();
    srcs.push(Src { cap: 0, chunks: vec![], faults: vec![] });
    for (i, s) in srcs.iter().enumerate() {
        let n = w.borrow_mut().new_circ(None);
        let ok = load(w, by, n, &mut rd, i == 0, &ld, s, depth);
        let mut b = w.borrow_mut();
        if b.viol.is_some() {
            return true;
        }
        if !ok {
            b.circs[n].junk = true;
            b.probe("import retried");
            continue;
        }
        // from here on the import stands for the original's outputs
        let ins = b.circs[n].m.inputs.clone();
        let gids: Vec<GateId> = b.circs[n].m.outputs.iter().map(|o| b.circs[n].gid[*o as usize].unwrap()).collect();
        let picks = b.circs[n].m.fun(Fun::Frozen(c, ni, no), ins, gids.len());
        for (p, g) in picks.iter().zip(gids) {
            b.circs[n].set_gid(*p, g);
            b.circs[n].sigs.push(*p);
        }
        b.circs[n].m.outputs = picks;
        // (the original may have grown since)
        let groups: Vec<Group> = b.circs[c].m.groups.iter().filter(|g| g.start + g.len <= ni).cloned().collect();
        let pinned: Vec<(usize, bool)> = b.circs[c].m.pinned.iter().filter(|p| p.0 < ni).cloned().collect();
        b.circs[n].m.groups = groups;
        b.circs[n].m.pinned = pinned;
        for (i, v) in rf.consts.iter().enumerate() {
            b.circs[n].m.pinned.push((ni + i, *v));
        }
        log!(b, "relayed c{c} -> c{n}");
        let salt = b.salt ^ b.digest;
        b.spot(n, 2, salt, "an imported generation");
        return true;
    }
    w.borrow_mut().fail("no-progress", "an import from healthy storage failed".into());
    true
}

//! A circuit of the simulator's own behind the library's circuit interface: it names signals and modules its own
//! way, and refuses the requests the plan wants refused.  Loader, shipped circuits, front ends and handles are the
//! library's; what they build here is evaluated by the simulator and compared with the reference model.
use crate::doc::{self, Doc, B, U};
use crate::gadget::{self, big, Gadget};
use crate::model::*;
use crate::plan::*;
use crate::prng::{mix, Rng};
use crate::stream::*;
use crate::world::{show, vector, W};
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::build_aes128;
use circuit_converters::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::BufReader;
use std::panic::resume_unwind;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    In(u32),
    K(bool),
    Not(u32),
    Xor(u32, u32),
    And(u32, u32),
    Or(u32, u32),
    Eqv(u32, u32),
    Id(u32),
    /// output `.2` of an instance of module `.0` (by its place in the store) over `.1`
    Inst(u32, Rc<Vec<u32>>, u32),
}

impl Gate for Node {
    fn input_len(&self) -> usize {
        match self {
            Node::In(_) | Node::K(_) => 0,
            Node::Not(_) | Node::Id(_) => 1,
            Node::Inst(_, a, _) => a.len(),
            _ => 2,
        }
    }
    fn output_len(&self) -> usize {
        1
    }
    fn to_str(&self) -> String {
        format!("{self:?}")
    }
}

pub type BRef = BoolCircuitRef<Node, Back>;

struct Ctl {
    fuse: u64,
    no: Refusal,
    blown: Option<String>,
    asked: u64,
    /// the (first) refused request was an output
    late: bool,
    misuse: Option<String>,
    rng: Rng,
    scheme: u8,
    next: u64,
}

impl Ctl {
    /// identifiers are never repeated within a circuit, whatever else they are
    fn id(&mut self, k: u64) -> u64 {
        self.next += 1;
        match self.scheme % 5 {
            0 => k,
            1 => u64::MAX - k,
            2 => self.next.wrapping_mul(0x9E37_79B9_7F4A_7C15),
            3 => (1 << 32) * (k + 1),
            _ => self.next ^ 0x5555,
        }
    }
    fn error(&mut self) -> BoolCircuitError {
        let t = self.rng.next();
        use BoolCircuitError::*;
        match self.no.how % 7 {
            0 => UnknownGate(GateId(t)),
            1 => UnknownModule(ModuleId(t)),
            2 => UnknownInput(WireId(t)),
            3 => FixedInput(WireId(t)),
            4 => NotConstGate(GateId(t)),
            5 => UnknownOutput(WireId(t)),
            _ => NotModuleGate(GateId(t)),
        }
    }
}

pub struct Back {
    ctl: Rc<RefCell<Ctl>>,
    store: Rc<RefCell<Vec<(ModuleId, BRef)>>>,
    /// the library's own table of modules, for the other half of the backends
    real: Option<ModuleStorageRef<Node, Back>>,
    nodes: Vec<Node>,
    ids: Vec<GateId>,
    at: BTreeMap<u64, u32>,
    inputs: Vec<u32>,
    outputs: Vec<u32>,
    consts: usize,
    /// gates, those of instances included
    size: u64,
}

impl Clone for Back {
    fn clone(&self) -> Self {
        Back {
            ctl: self.ctl.clone(),
            store: self.store.clone(),
            real: self.real.as_ref().map(|r| r.clone()),
            nodes: self.nodes.clone(),
            ids: self.ids.clone(),
            at: self.at.clone(),
            inputs: self.inputs.clone(),
            outputs: self.outputs.clone(),
            consts: self.consts,
            size: self.size,
        }
    }
}
impl PartialEq for Back {
    fn eq(&self, o: &Self) -> bool {
        self.nodes == o.nodes && self.inputs == o.inputs && self.outputs == o.outputs
    }
}
impl Eq for Back {}

type Bc<T> = Result<T, BoolCircuitError>;

impl Back {
    fn new(scheme: u8, seed: u64) -> Self {
        let ctl = Ctl {
            fuse: 0,
            no: Refusal { at: 0, how: 0, sticky: false },
            blown: None,
            asked: 0,
            late: false,
            misuse: None,
            rng: Rng::new(seed),
            scheme,
            next: 0,
        };
        let real = if scheme >= 5 { Some(ModuleStorageRef::new()) } else { None };
        Back::of(Rc::new(RefCell::new(ctl)), Rc::new(RefCell::new(vec![])), real)
    }
    fn of(ctl: Rc<RefCell<Ctl>>, store: Rc<RefCell<Vec<(ModuleId, BRef)>>>, real: Option<ModuleStorageRef<Node, Back>>) -> Self {
        Back { ctl, store, real, nodes: vec![], ids: vec![], at: BTreeMap::new(), inputs: vec![], outputs: vec![], consts: 0, size: 0 }
    }
    fn sibling(&self) -> Self {
        Back::of(self.ctl.clone(), self.store.clone(), self.real.as_ref().map(|r| r.clone()))
    }
    /// one request: refused if it is its turn
    fn ask(&self, out: bool) -> Bc<()> {
        let mut c = self.ctl.borrow_mut();
        c.asked += 1;
        if c.fuse == 0 {
            return Ok(());
        }
        c.fuse -= 1;
        if c.fuse > 0 {
            return Ok(());
        }
        if c.blown.is_none() {
            c.late = out;
        }
        if c.no.how == 7 {
            c.blown = Some(String::new());
            drop(c);
            resume_unwind(Box::new(Injected));
        }
        let e = c.error();
        c.blown.get_or_insert(e.to_string());
        if c.no.sticky {
            c.fuse = 1;
        }
        Err(e)
    }
    fn find(&self, g: &GateId) -> Bc<u32> {
        match self.at.get(&g.0) {
            Some(k) => Ok(*k),
            None => {
                self.ctl.borrow_mut().misuse.get_or_insert(format!("signal {g} was named, which this circuit never gave out"));
                Err(BoolCircuitError::UnknownGate(*g))
            }
        }
    }
    fn add(&mut self, n: Node) -> GateId {
        let k = self.nodes.len() as u32;
        let id = self.ctl.borrow_mut().id(k as u64);
        self.nodes.push(n);
        self.ids.push(GateId(id));
        self.at.insert(id, k);
        GateId(id)
    }
    fn two(&mut self, l: &GateId, r: &GateId, f: fn(u32, u32) -> Node) -> Bc<GateId> {
        self.ask(false)?;
        let (a, b) = (self.find(l)?, self.find(r)?);
        self.size += 1;
        Ok(self.add(f(a, b)))
    }
    fn module_at(&self, m: &ModuleId) -> Bc<(u32, BRef)> {
        if let Some(r) = &self.real {
            if let Err(e) = r.get_module(m) {
                self.ctl.borrow_mut().misuse.get_or_insert(format!("module {m} was named, which the store does not have"));
                return Err(e);
            }
        }
        match self.store.borrow().iter().position(|x| x.0 == *m) {
            Some(k) => Ok((k as u32, self.store.borrow()[k].1.clone())),
            None => {
                self.ctl.borrow_mut().misuse.get_or_insert(format!("module {m} was named, which this store never gave out"));
                Err(BoolCircuitError::UnknownModule(*m))
            }
        }
    }
    /// values of all nodes, sixty-four evaluations at once
    fn values(&self, ins: &[u64]) -> Vec<u64> {
        let mut v: Vec<u64> = Vec::with_capacity(self.nodes.len());
        let mut last: Option<(Rc<Vec<u32>>, Vec<u64>)> = None;
        for n in &self.nodes {
            let x = match n {
                Node::In(k) => ins[*k as usize],
                Node::K(b) => (*b as u64).wrapping_neg(),
                Node::Not(a) => !v[*a as usize],
                Node::Id(a) => v[*a as usize],
                Node::Xor(a, b) => v[*a as usize] ^ v[*b as usize],
                Node::And(a, b) => v[*a as usize] & v[*b as usize],
                Node::Or(a, b) => v[*a as usize] | v[*b as usize],
                Node::Eqv(a, b) => !(v[*a as usize] ^ v[*b as usize]),
                Node::Inst(m, args, k) => {
                    // the outputs of one instance follow one another
                    let hit = matches!(&last, Some((a, _)) if Rc::ptr_eq(a, args));
                    if !hit {
                        let a: Vec<u64> = args.iter().map(|x| v[*x as usize]).collect();
                        let h = self.store.borrow()[*m as usize].1.clone();
                        let c = h.borrow();
                        let o = c.values(&a);
                        last = Some((args.clone(), c.outputs.iter().map(|x| o[*x as usize]).collect()));
                    }
                    last.as_ref().map_or(0, |l| l.1[*k as usize])
                }
            };
            v.push(x);
        }
        v
    }
}

impl BoolCircuit<Node> for Back {
    fn to_ref(self) -> BRef {
        BRef::new(self)
    }
    fn input_len(&self) -> usize {
        self.inputs.len()
    }
    fn output_len(&self) -> usize {
        self.outputs.len()
    }
    fn num_wire(&self) -> usize {
        self.nodes.len() + 7
    }
    fn num_gate(&self) -> usize {
        self.size as usize
    }
    fn num_const(&self) -> usize {
        self.consts
    }
    fn input_to_gate_id(&self, w: &WireId) -> Bc<Option<GateId>> {
        match self.inputs.get(w.0 as usize) {
            Some(k) => Ok(Some(self.ids[*k as usize])),
            None => Err(BoolCircuitError::UnknownInput(*w)),
        }
    }
    fn output_to_gate_id(&self, w: &WireId) -> Bc<GateId> {
        match self.outputs.get(w.0 as usize) {
            Some(k) => Ok(self.ids[*k as usize]),
            None => Err(BoolCircuitError::UnknownOutput(*w)),
        }
    }
    fn get_gate(&self, g: &GateId) -> Bc<Node> {
        match self.at.get(&g.0) {
            Some(k) => Ok(self.nodes[*k as usize].clone()),
            None => Err(BoolCircuitError::UnknownGate(*g)),
        }
    }
    fn get_module(&self, m: &ModuleId) -> Bc<BRef> {
        Ok(self.module_at(m)?.1)
    }
    fn get_depended_gates(&self, g: &GateId) -> Bc<Vec<GateId>> {
        let k = match self.at.get(&g.0) {
            Some(k) => *k,
            None => return Err(BoolCircuitError::UnknownDependence(*g)),
        };
        let mut v = vec![];
        for (i, n) in self.nodes.iter().enumerate() {
            let uses = match n {
                Node::In(_) | Node::K(_) => false,
                Node::Not(a) | Node::Id(a) => *a == k,
                Node::Xor(a, b) | Node::And(a, b) | Node::Or(a, b) | Node::Eqv(a, b) => *a == k || *b == k,
                Node::Inst(_, a, _) => a.contains(&k),
            };
            if uses {
                v.push(self.ids[i]);
            }
        }
        Ok(v)
    }
    fn get_const_gates(&self) -> Vec<GateId> {
        (0..self.nodes.len()).filter(|k| matches!(self.nodes[*k], Node::K(_))).map(|k| self.ids[k]).collect()
    }
    fn input(&mut self) -> Bc<GateId> {
        self.ask(false)?;
        let k = self.inputs.len() as u32;
        self.inputs.push(self.nodes.len() as u32);
        Ok(self.add(Node::In(k)))
    }
    fn output(&mut self, g: GateId) -> Bc<WireId> {
        self.ask(true)?;
        let k = self.find(&g)?;
        self.outputs.push(k);
        Ok(WireId(self.outputs.len() as u64 - 1))
    }
    fn constant(&mut self, v: bool) -> Bc<GateId> {
        self.ask(false)?;
        self.consts += 1;
        Ok(self.add(Node::K(v)))
    }
    fn not(&mut self, g: &GateId) -> Bc<GateId> {
        self.ask(false)?;
        let a = self.find(g)?;
        self.size += 1;
        Ok(self.add(Node::Not(a)))
    }
    fn xor(&mut self, l: &GateId, r: &GateId) -> Bc<GateId> {
        self.two(l, r, Node::Xor)
    }
    fn and(&mut self, l: &GateId, r: &GateId) -> Bc<GateId> {
        self.two(l, r, Node::And)
    }
    fn or(&mut self, l: &GateId, r: &GateId) -> Bc<GateId> {
        self.two(l, r, Node::Or)
    }
    fn equivalent(&mut self, l: &GateId, r: &GateId) -> Bc<GateId> {
        self.two(l, r, Node::Eqv)
    }
    fn identity(&mut self, g: &GateId) -> Bc<GateId> {
        self.ask(false)?;
        let a = self.find(g)?;
        self.size += 1;
        Ok(self.add(Node::Id(a)))
    }
    fn register_module(&mut self, m: &BRef) -> ModuleId {
        let n = self.store.borrow().len() as u64;
        let id = match &mut self.real {
            Some(r) => r.register_module(m),
            None => ModuleId(self.ctl.borrow_mut().id(n)),
        };
        self.store.borrow_mut().push((id, m.clone()));
        id
    }
    fn sub_circuit(&mut self) -> (ModuleId, BRef) {
        let r = self.sibling().to_ref();
        (self.register_module(&r), r)
    }
    fn module(&mut self, m: &ModuleId, args: &[GateId]) -> Bc<Vec<GateId>> {
        self.ask(false)?;
        let (k, h) = self.module_at(m)?;
        let (ni, no, size) = {
            let c = h.borrow();
            (c.inputs.len(), c.outputs.len(), c.size)
        };
        if ni != args.len() {
            self.ctl.borrow_mut().misuse.get_or_insert(format!("an instance of a module of {ni} inputs was given {}", args.len()));
            return Err(BoolCircuitError::InvalidModuleInputLen(ni, args.len()));
        }
        let mut a = vec![];
        for g in args {
            a.push(self.find(g)?);
        }
        let a = Rc::new(a);
        self.size += size + 1;
        Ok((0..no as u32).map(|o| self.add(Node::Inst(k, a.clone(), o))).collect())
    }
}

// -------------------------------------------------------------------- histories

#[derive(Clone)]
struct Word {
    items: Vec<u32>,
    gids: Vec<GateId>,
}

struct BGad {
    g: Box<dyn Gadget<Node, Back>>,
    fam: u8,
    n: usize,
    p: u128,
    c: usize,
    words: Vec<Word>,
    ext: bool,
}

struct BCirc {
    h: BRef,
    m: MCirc,
    gid: BTreeMap<u32, GateId>,
    sigs: Vec<u32>,
}

#[derive(Default)]
pub struct Backs {
    circs: Vec<BCirc>,
    gads: Vec<BGad>,
    readers: BTreeMap<u8, BristolReader<Node, Back>>,
}

impl Drop for Backs {
    fn drop(&mut self) {
        // stores and modules name each other
        for c in &self.circs {
            let s = c.h.borrow().store.clone();
            s.borrow_mut().clear();
            if let Some(r) = &c.h.borrow().real {
                *r.borrow_mut() = ModuleStorage::new();
            }
        }
    }
}

const SIZE: u64 = 60_000;

/// Runs one operation of the library with the plan's refusal armed.  `free`: an operator, which can only panic.
fn judged<T, E: std::fmt::Display>(b: &mut W, c: usize, no: Refusal, free: bool, what: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
    let ctl = b.backs.circs[c].h.borrow().ctl.clone();
    {
        let mut k = ctl.borrow_mut();
        k.fuse = no.at as u64;
        k.no = no;
        k.blown = None;
    }
    let r = quiet(f);
    let (blown, misuse) = {
        let mut k = ctl.borrow_mut();
        k.fuse = 0;
        (k.blown.take(), k.misuse.take())
    };
    if let Some(m) = misuse {
        b.fail("misuse", format!("{what}: {m}"));
        return None;
    }
    if blown.is_some() {
        let n = if no.how == 7 { "circuit panicked" } else { "circuit refused a request" };
        *b.stats.fired.entry(format!("backend:{n}:{}", what.split(' ').next().unwrap_or(""))).or_default() += 1;
    }
    match (r, blown) {
        (Ok(Ok(t)), None) => {
            b.log(&format!("{what} ok"));
            Some(t)
        }
        (Ok(Ok(_)), Some(e)) => {
            b.fail("refusal-swallowed", format!("{what} reported success although the circuit refused a request: {e}"));
            None
        }
        (Ok(Err(e)), Some(want)) => {
            b.log(&format!("{what} refused {e}"));
            if no.how != 7 && !e.to_string().contains(&want) {
                b.fail("wrong-error", format!("the circuit refused a request ({want}), {what} reported {e}"));
            }
            None
        }
        (Ok(Err(e)), None) => {
            b.fail("refused", format!("{what} was refused: {e}"));
            None
        }
        (Err(Unwound::Injected), Some(_)) if no.how == 7 => {
            b.log(&format!("{what} abandoned"));
            None
        }
        (Err(_), Some(_)) if free => {
            b.log(&format!("{what} panicked"));
            None
        }
        (Err(p), e) => {
            b.fail("panic", format!("{what} panicked: {p:?}; refused request: {e:?}"));
            None
        }
    }
}

/// What the backend got that the model has not: inputs of an operation that ended early, outputs that were refused.
fn sync(b: &mut W, c: usize, outputs_too: bool) -> Vec<u32> {
    let k = &mut b.backs.circs[c];
    let back = k.h.borrow();
    let mut new = vec![];
    for n in back.inputs.iter().skip(k.m.inputs.len()) {
        new.push(back.ids[*n as usize]);
    }
    let outs: Vec<GateId> = back.outputs.iter().skip(k.m.outputs.len()).map(|n| back.ids[*n as usize]).collect();
    drop(back);
    let mut items = vec![];
    for g in new {
        let i = k.m.add_input();
        k.gid.insert(i, g);
        k.sigs.push(i);
        items.push(i);
    }
    if outputs_too {
        for g in outs {
            let i = k.m.push(Item::Unknown);
            k.gid.insert(i, g);
            k.m.outputs.push(i);
        }
    }
    items
}

fn keep(b: &mut W, c: usize, items: &[u32], gids: &[GateId], what: &str) {
    if items.len() != gids.len() {
        return b.fail("width", format!("{what} gave {} signals instead of {}", gids.len(), items.len()));
    }
    let k = &mut b.backs.circs[c];
    for (i, g) in items.iter().zip(gids) {
        k.gid.insert(*i, *g);
        k.sigs.push(*i);
    }
}

fn pick(b: &W, c: usize, k: u32) -> Option<(u32, GateId)> {
    let s = &b.backs.circs[c].sigs;
    if s.is_empty() {
        return None;
    }
    let i = s[s.len() - 1 - k as usize % s.len()];
    Some((i, b.backs.circs[c].gid[&i]))
}

/// Outputs an operation has appended: the ones the model expects, in order, and no others.
fn appended(b: &mut W, c: usize, picks: &[u32], what: &str) {
    let (old, now) = {
        let k = &b.backs.circs[c];
        let back = k.h.borrow();
        let ids: Vec<GateId> = back.outputs.iter().map(|n| back.ids[*n as usize]).collect();
        (k.m.outputs.len(), ids)
    };
    if now.len() != old + picks.len() {
        return b.fail("load-outputs", format!("{what} appended {} outputs instead of {}", now.len() as i64 - old as i64, picks.len()));
    }
    keep(b, c, picks, &now[old..], what);
    b.backs.circs[c].m.outputs.extend(picks);
}

/// Values of every signal and output against the model's.
fn spot(b: &mut W, c: usize, rounds: u32, r: &mut Rng) {
    for _ in 0..rounds {
        let n = if b.backs.circs[c].m.items.len() > 1500 { 8 } else { 16 };
        let vs: Vec<Vec<bool>> = (0..n).map(|_| vector(&b.backs.circs[c].m, r)).collect();
        let k = &b.backs.circs[c];
        let back = k.h.borrow();
        let ins: Vec<u64> = (0..k.m.inputs.len()).map(|i| vs.iter().enumerate().fold(0, |x, (l, v)| x | (v[i] as u64) << l)).collect();
        let got = back.values(&ins);
        let at: Vec<u32> = k.sigs.iter().map(|i| back.at[&k.gid[i].0]).collect();
        let mut bad = None;
        for (l, v) in vs.iter().enumerate() {
            let bits: Vec<B> = v.iter().map(|x| *x as B).collect();
            let vals = eval(&[&k.m], 0, &bits);
            let want = outs(&vals, &k.sigs);
            let want_out = outs(&vals, &k.m.outputs);
            if let Some(i) = (0..at.len()).find(|i| want[*i] != U && (got[at[*i] as usize] >> l & 1) as B != want[*i]) {
                bad = Some(format!("signal {:?} of backend {c} is {}; inputs {}", k.gid[&k.sigs[i]], 1 - want[i], show(v)));
                break;
            }
            let no = want_out.len();
            if let Some(i) = (0..no).find(|i| want_out[*i] != U && (got[back.outputs[*i] as usize] >> l & 1) as B != want_out[*i]) {
                bad = Some(format!("output {i} of backend {c} is {}; inputs {}", 1 - want_out[i], show(v)));
                break;
            }
        }
        drop(back);
        b.stats.lanes += n as u64;
        if let Some(d) = bad {
            return b.fail("wrong-signal", d);
        }
    }
}

pub fn finish(b: &mut W) {
    for c in 0..b.backs.circs.len() {
        if b.viol.is_some() {
            return;
        }
        let mut r = Rng::new(mix(b.digest, c as u64));
        let n = if b.backs.circs[c].h.borrow().size > 20_000 { 1 } else { 3 };
        spot(b, c, n, &mut r);
    }
}

pub fn step(w: &Rc<RefCell<W>>, op: &Op) -> bool {
    let mut b = w.borrow_mut();
    let b = &mut *b;
    if let Op::BNew { share, ids } = op {
        new(b, *share, *ids);
        return true;
    }
    if b.backs.circs.is_empty() {
        return false;
    }
    let done = match op {
        Op::BReq { c, kind, a, b: x, no } => request(b, *c, *kind, *a, *x, *no),
        Op::BLoad { c, slot, doc, src, no } => load(b, *c, *slot, doc, src, *no),
        Op::BLib { c, k, no } => lib(b, *c, *k, *no),
        Op::BCfg { c, fam, n, no } => config(b, *c, *fam, *n, *no),
        Op::BWord { g, kind, op, a, b: x, k, no } => word(b, *g, *kind, *op, *a, *x, *k, *no),
        _ => false,
    };
    if done && b.viol.is_none() {
        let n = b.backs.circs.len();
        let c = b.stats.steps as usize % n;
        if b.backs.circs[c].h.borrow().size < 4000 && b.backs.circs[c].m.items.len() < 1200 {
            let mut r = Rng::new(mix(b.digest, 77));
            spot(b, c, 1, &mut r);
        }
    }
    done
}

fn new(b: &mut W, share: Option<u32>, ids: u8) {
    let n = b.backs.circs.len();
    let h = match share {
        Some(s) if n > 0 => {
            let k = &b.backs.circs[s as usize % n];
            let h = k.h.borrow().sibling().to_ref();
            h
        }
        _ => Back::new(ids % 10, mix(ids as u64, n as u64)).to_ref(),
    };
    b.backs.circs.push(BCirc { h, m: MCirc::default(), gid: BTreeMap::new(), sigs: vec![] });
    b.log(&format!("backend {n}"));
}

fn cidx(b: &W, c: u32) -> usize {
    let n = b.backs.circs.len();
    n - 1 - c as usize % n
}

fn full(b: &W, c: usize, more: u64) -> bool {
    let k = &b.backs.circs[c];
    k.h.borrow().size + more > SIZE || k.m.items.len() > 6000
}

fn request(b: &mut W, c: u32, kind: u32, x: u32, y: u32, no: Refusal) -> bool {
    let c = cidx(b, c);
    if full(b, c, 100) {
        return false;
    }
    let mut h = b.backs.circs[c].h.clone();
    let no = Refusal { at: (no.at > 0) as u32, ..no };
    let kind = kind % 14;
    if kind < 2 {
        if kind == 0 && b.backs.circs[c].m.inputs.len() > 300 {
            return false;
        }
        let r = if kind == 0 { judged(b, c, no, false, "input", || h.input()) } else { judged(b, c, no, false, "constant", || h.constant(x & 1 == 1)) };
        if let Some(g) = r {
            let m = &mut b.backs.circs[c].m;
            let i = if kind == 0 { m.add_input() } else { m.push(Item::K(x & 1 == 1)) };
            keep(b, c, &[i], &[g], "a request");
        }
        return true;
    }
    let ((ia, ga), (ib, gb)) = match (pick(b, c, x), pick(b, c, y)) {
        (Some(p), Some(q)) => (p, q),
        _ => return false,
    };
    let (r, item) = match kind {
        2 => (judged(b, c, no, false, "not", || h.not(&ga)), Item::Not(ia)),
        3 => (judged(b, c, no, false, "xor", || h.xor(&ga, &gb)), Item::Xor(ia, ib)),
        4 => (judged(b, c, no, false, "and", || h.and(&ga, &gb)), Item::And(ia, ib)),
        5 => (judged(b, c, no, false, "or", || h.or(&ga, &gb)), Item::Or(ia, ib)),
        6 => (judged(b, c, no, false, "equivalent", || h.equivalent(&ga, &gb)), Item::Eqv(ia, ib)),
        7 => (judged(b, c, no, false, "identity", || h.identity(&ga)), Item::Id(ia)),
        8 | 9 => {
            let n = b.backs.circs[c].m.outputs.len();
            if n > 250 {
                return false;
            }
            if let Some(w) = judged(b, c, no, false, "output", || h.output(ga)) {
                if w.0 != n as u64 {
                    b.fail("output-number", format!("output {n} was answered {w}"));
                }
                b.backs.circs[c].m.outputs.push(ia);
            }
            return true;
        }
        10 | 11 => {
            // a small module of the client's own
            let r = judged(b, c, no, false, "module", || -> Bc<Vec<GateId>> {
                let (mid, mut s) = if kind == 10 {
                    h.sub_circuit()
                } else {
                    let s = h.borrow().sibling().to_ref();
                    (h.register_module(&s), s)
                };
                let (p, q) = (s.input()?, s.input()?);
                let o = s.and(&p, &q)?;
                let o2 = s.not(&o)?;
                s.output(o2)?;
                s.output(p)?;
                s.output(o)?;
                h.module(&mid, &[ga, gb])
            });
            if let Some(g) = r {
                let m = &mut b.backs.circs[c].m;
                let o = m.push(Item::And(ia, ib));
                let o2 = m.push(Item::Not(o));
                let p = m.push(Item::Id(ia));
                keep(b, c, &[o2, p, o], &g, "an instance");
            }
            return true;
        }
        _ => {
            look(b, c, &h, ga);
            return true;
        }
    };
    if let Some(g) = r {
        let i = b.backs.circs[c].m.push(item);
        keep(b, c, &[i], &[g], "a request");
    }
    true
}

/// The handle answers what the circuit behind it answers.
fn look(b: &mut W, c: usize, h: &BRef, g: GateId) {
    let r = quiet(|| -> Option<&'static str> {
        let k = h.borrow();
        if (h.input_len(), h.output_len(), h.num_wire(), h.num_gate(), h.num_const())
            != (k.input_len(), k.output_len(), k.num_wire(), k.num_gate(), k.num_const())
        {
            return Some("sizes");
        }
        if h.get_gate(&g).ok() != k.get_gate(&g).ok() || h.get_depended_gates(&g).ok() != k.get_depended_gates(&g).ok() {
            return Some("gate");
        }
        if h.get_const_gates() != k.get_const_gates() {
            return Some("constants");
        }
        for i in 0..k.inputs.len().min(9) as u64 + 1 {
            if h.input_to_gate_id(&WireId(i)).ok() != k.input_to_gate_id(&WireId(i)).ok() {
                return Some("inputs");
            }
        }
        for i in 0..k.outputs.len().min(9) as u64 + 1 {
            if h.output_to_gate_id(&WireId(i)).ok() != k.output_to_gate_id(&WireId(i)).ok() {
                return Some("outputs");
            }
        }
        for (m, s) in k.store.borrow().iter().take(5) {
            match h.get_module(m) {
                Ok(t) if *t.borrow() == *s.borrow() => {}
                _ => return Some("modules"),
            }
        }
        if k.real.as_ref().is_some_and(|r| r.num_module() != k.store.borrow().len()) {
            return Some("number of modules");
        }
        let e = GateId(0x1234_5678_9ABC);
        if !k.at.contains_key(&e.0) && h.get_gate(&e).is_ok() {
            return Some("unknown gate");
        }
        None
    });
    b.backs.circs[c].h.borrow().ctl.borrow_mut().misuse = None;
    match r {
        Ok(None) => b.log("look ok"),
        Ok(Some(what)) => b.fail("handle", format!("the handle of backend {c} does not answer what the circuit answers: {what}")),
        Err(p) => b.fail("panic", format!("questions to backend {c} panicked: {p:?}")),
    }
}

fn load(b: &mut W, c: u32, slot: u8, spec: &DocSpec, src: &Src, no: Refusal) -> bool {
    let c = cidx(b, c);
    let made = doc::make(spec);
    let n_req = made.doc.n_in() + made.doc.lines.len() + made.doc.n_out();
    if full(b, c, n_req as u64) || b.backs.circs[c].m.inputs.len() + made.doc.n_in() > 400 {
        return false;
    }
    let no = Refusal { at: if no.at == 0 { 0 } else { 1 + (no.at - 1) % (n_req.max(1) as u32) }, ..no };
    let bytes = Rc::new(made.bytes.clone());
    let parsed: Option<Rc<Doc>> = doc::parse_sparse(&bytes).ok().map(Rc::new);
    let mut rd = match slot % 4 {
        0 => BristolReader::new(),
        s => b.backs.readers.remove(&s).unwrap_or_else(BristolReader::new),
    };
    let rec = Rc::new(RefCell::new(Rec::default()));
    let source = SimSource::new(src, bytes.clone(), std::rc::Weak::new(), 0, 9, rec.clone());
    let mut h = b.backs.circs[c].h.clone();
    let ctl = h.borrow().ctl.clone();
    {
        let mut k = ctl.borrow_mut();
        k.fuse = no.at as u64;
        k.no = no;
        k.blown = None;
    }
    let start = b.backs.circs[c].m.inputs.len();
    let r = if src.cap == 0 { quiet(|| rd.read(source, &mut h)) } else { quiet(|| rd.read(BufReader::with_capacity(src.cap as usize, source), &mut h)) };
    let (blown, misuse) = {
        let mut k = ctl.borrow_mut();
        k.fuse = 0;
        (k.blown.take(), k.misuse.take())
    };
    if slot % 4 != 0 {
        b.backs.readers.insert(slot % 4, rd);
    }
    let rec = rec.borrow();
    b.stats.calls += rec.calls;
    b.stats.shorts += rec.shorts;
    b.stats.eintr += rec.eintr;
    for (k, pos) in &rec.fired {
        *b.stats.fired.entry(format!("read:{k}:{}", doc::phase(made.orig.len(), &made.line_ends, *pos))).or_default() += 1;
    }
    if blown.is_some() {
        let n = if no.how == 7 { "circuit panicked" } else { "circuit refused a request" };
        *b.stats.fired.entry(format!("backend:{n}:load")).or_default() += 1;
    }
    if let Some(m) = misuse {
        b.fail("misuse", format!("a load: {m}"));
        return true;
    }
    let dump = if bytes.len() < 400 { format!("; document {:?}", String::from_utf8_lossy(&bytes)) } else { String::new() };
    b.log(&format!(
        "backend load {}",
        match &r {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("error {e}"),
            Err(u) => format!("unwound {u:?}"),
        }
    ));
    let grown = b.backs.circs[c].h.output_len() as i64 - b.backs.circs[c].m.outputs.len() as i64;
    // a refused output comes after those that were not
    let at_output = blown.is_some() && ctl.borrow().late;
    if !matches!(r, Ok(Ok(()))) && grown != 0 && !at_output {
        b.fail("failed-load-output", format!("a load that did not succeed registered {grown} outputs{dump}"));
        return true;
    }
    match r {
        Ok(Ok(())) => {
            if let Some(e) = blown {
                b.fail("refusal-swallowed", format!("a load reported success although the circuit refused a request: {e}{dump}"));
                return true;
            }
            if rec.hard.is_some_and(|(_, pos)| parsed.as_ref().is_some_and(|d| pos < doc::body_end(&bytes, d))) {
                b.fail("error-swallowed", format!("the stream failed, the load reported success{dump}"));
                return true;
            }
            let ins = sync(b, c, false);
            let d = match parsed {
                Some(d) => d,
                // damaged documents are another property's
                None => {
                    sync(b, c, true);
                    return true;
                }
            };
            if ins.len() != d.n_in() {
                b.fail("load-inputs", format!("the load added {} inputs instead of {}{dump}", ins.len(), d.n_in()));
                return true;
            }
            let mut at = start;
            for g in d.ins.iter().filter(|g| **g > 0 && **g <= 128) {
                b.backs.circs[c].m.groups.push(Group { start: at, len: *g, modulus: 0 });
                at += g;
            }
            let no = d.n_out();
            let picks = b.backs.circs[c].m.fun(Fun::Doc(d), ins, no);
            appended(b, c, &picks, "a load");
            b.probe("document loaded into another implementation of circuits");
            if slot % 4 != 0 {
                b.probe("load through a used loader");
            }
        }
        Ok(Err(e)) => {
            let text = e.to_string();
            let io = matches!((&e, rec.hard), (BristolError::IOError(x), Some((k, _))) if x.kind() == k);
            let refused = blown.as_ref().is_some_and(|w| text.contains(w));
            if !io && !refused {
                if blown.is_some() || rec.hard.is_some() {
                    b.fail("wrong-error", format!("the circuit refused a request ({blown:?}) or the stream failed ({:?}), the load reported {e}{dump}", rec.hard));
                } else if parsed.is_some() {
                    b.fail("load-refused", format!("a well-formed document was refused: {e}{dump}"));
                }
            }
            sync(b, c, true);
        }
        Err(Unwound::Injected) => {
            sync(b, c, true);
        }
        Err(Unwound::Stall) => b.fail("stall", format!("the load made more than {} stream calls on {} bytes", rec.calls, bytes.len())),
        Err(Unwound::Panic(p)) => b.fail("panic", format!("a load panicked: {p}; refused request: {blown:?}{dump}")),
    }
    true
}

fn lib(b: &mut W, c: u32, k: u32, no: Refusal) -> bool {
    let c = cidx(b, c);
    let k = k % LIBS;
    let need = [900u64, 1000, 600, 30000, 31000, 18000, 34000][k as usize];
    let (ni, n_out) = lib_shape(k);
    if full(b, c, need) || b.backs.circs[c].m.inputs.len() + ni > 600 {
        return false;
    }
    let no = Refusal { at: if no.at == 0 { 0 } else { 1 + no.at % (need as u32 + 300) }, ..no };
    let mut h = b.backs.circs[c].h.clone();
    let start = b.backs.circs[c].m.inputs.len();
    let outs = b.backs.circs[c].h.output_len();
    let what = LIB_NAMES[k as usize];
    let r = judged(b, c, no, false, what, || match k {
        0 => build_adder64(&mut h),
        1 => build_sub64(&mut h),
        2 => build_neg64(&mut h),
        3 => build_mult2_64(&mut h),
        4 => build_divide_signed_64(&mut h),
        5 => build_divide_unsigned_64(&mut h),
        _ => build_aes128(&mut h),
    });
    let ins = sync(b, c, r.is_none());
    if r.is_none() {
        let grown = b.backs.circs[c].h.output_len() - outs;
        let late = b.backs.circs[c].h.borrow().ctl.borrow().late;
        if b.viol.is_none() && (grown >= n_out || (grown > 0 && !late)) {
            b.fail("failed-load-output", format!("{what} did not succeed and registered {grown} outputs"));
        }
        return true;
    }
    if ins.len() != ni {
        b.fail("lib-inputs", format!("{what} added {} inputs", ins.len()));
        return true;
    }
    let sizes: &[usize] = if k == 6 { &[128, 128] } else if k == 2 { &[64] } else { &[64, 64] };
    let mut at = start;
    for s in sizes {
        b.backs.circs[c].m.groups.push(Group { start: at, len: *s, modulus: 0 });
        at += s;
    }
    let picks = b.backs.circs[c].m.fun(Fun::Lib(k), ins, n_out);
    appended(b, c, &picks, what);
    true
}

fn config(b: &mut W, c: u32, fam: u8, n: u32, no: Refusal) -> bool {
    let c = cidx(b, c);
    if b.backs.gads.len() > 10 {
        return false;
    }
    let h = b.backs.circs[c].h.clone();
    let before = {
        let k = h.borrow();
        (k.nodes.len(), k.outputs.len())
    };
    let mut ext = false;
    // (field configurations are built with operators)
    let (r, n, p) = match fam % 3 {
        0 => {
            let i = n as usize % 18;
            ext = gadget::INT_N[i] <= 16 && n / 18 % 3 == 0;
            (judged(b, c, no, false, "AllocIntConfig::new", || gadget::new_int(i, &h, ext)), gadget::INT_N[i], 0)
        }
        1 => {
            let i = n as usize % 14;
            (judged(b, c, no, false, "AllocBitsConfig::new", || gadget::new_bits(i, &h)), gadget::BITS_N[i], 0)
        }
        _ => {
            let i = n as usize % 15;
            (judged(b, c, no, true, "AllocFpConfig::new", || gadget::new_fp(i, &h)), gadget::FP[i].0, gadget::FP[i].1)
        }
    };
    let after = {
        let k = h.borrow();
        (k.nodes.len(), k.outputs.len())
    };
    if before != after && b.viol.is_none() {
        b.fail("config", format!("making a configuration changed backend {c}"));
    }
    if let Some(g) = r {
        if let Some((q, inv, e)) = g.mont() {
            let radius = big(1) << e;
            if q != big(p) || inv >= radius || (q * &inv + big(1)) % &radius != big(0) {
                b.fail("montgomery", format!("{inv} is not the negated inverse of {p} modulo 2^{e}"));
            }
        }
        b.backs.gads.push(BGad { g, fam: fam % 3, n, p, c, words: vec![], ext });
    }
    true
}

#[allow(clippy::too_many_arguments)]
fn word(b: &mut W, g: u32, kind: u8, op: u32, x: u32, y: u32, k: u32, no: Refusal) -> bool {
    let ng = b.backs.gads.len();
    if ng == 0 {
        return false;
    }
    let gi = ng - 1 - g as usize % ng;
    let (c, n, p, fam) = {
        let g = &b.backs.gads[gi];
        (g.c, g.n, g.p, g.fam)
    };
    if full(b, c, 0) {
        return false;
    }
    let gad = b.backs.gads.remove(gi);
    let done = word_on(b, &gad, c, n, p, fam, kind, op, x, y, k, no);
    b.backs.gads.insert(gi, gad);
    if let Some(Some(w)) = &done {
        let ws = &mut b.backs.gads[gi].words;
        if w.items.len() == n {
            if ws.len() >= 10 {
                ws.remove(0);
            }
            ws.push(w.clone());
        }
    }
    done.is_some()
}

#[allow(clippy::too_many_arguments)]
fn word_on(b: &mut W, g: &BGad, c: usize, n: usize, p: u128, fam: u8, kind: u8, op: u32, x: u32, y: u32, k: u32, no: Refusal) -> Option<Option<Word>> {
    let small = Refusal { at: if no.at == 0 { 0 } else { 1 + (no.at - 1) % (n as u32 + 2) }, ..no };
    let wa = g.words.len().checked_sub(1).map(|l| g.words[l - x as usize % g.words.len()].clone());
    let wb = g.words.len().checked_sub(1).map(|l| g.words[l - y as usize % g.words.len()].clone());
    let kind = if wa.is_none() { kind % 3 } else { kind % 12 };
    match kind {
        0 => {
            let start = b.backs.circs[c].m.inputs.len();
            if start + n > 400 {
                return None;
            }
            let r = judged(b, c, small, false, "a new input word", || g.g.word());
            let ins = sync(b, c, r.is_none());
            let w = match r {
                Some(w) => w,
                None => return Some(None),
            };
            b.backs.circs[c].m.groups.push(Group { start, len: n, modulus: p });
            let want: Vec<GateId> = ins.iter().map(|i| b.backs.circs[c].gid[i]).collect();
            if want != w {
                b.fail("input-word", "a new input word does not hold the new inputs, lowest first".into());
            }
            Some(Some(Word { items: ins, gids: w }))
        }
        1 => {
            let mut v = (x as u128) << 96 | (y as u128) << 64 | (k as u128) << 32 | (x ^ op) as u128;
            if k % 5 == 0 {
                v = (x % 4) as u128;
            }
            v &= if n >= 128 { u128::MAX } else { (1 << n) - 1 };
            if p != 0 {
                v %= p;
            }
            let bits = to_bits(v, n);
            let w = match judged(b, c, small, fam == 2, "a constant word", || g.g.konst(&bits)) {
                Some(w) => w,
                None => return Some(None),
            };
            let items: Vec<u32> = bits.iter().map(|x| b.backs.circs[c].m.push(Item::K(*x == 1))).collect();
            keep(b, c, &items, &w, "a constant word");
            Some(Some(Word { items, gids: w }))
        }
        2 => {
            let len = op as usize % (n + 1);
            let mut r = Rng::new(mix(x as u64, y as u64));
            let (mut items, mut gids) = (vec![], vec![]);
            for _ in 0..len {
                let (i, g) = pick(b, c, r.u32())?;
                items.push(i);
                gids.push(g);
            }
            let w = match judged(b, c, small, fam == 2, "a word of given signals", || g.g.from(gids)) {
                Some(w) => w,
                None => return Some(None),
            };
            let mut its: Vec<u32> = items.iter().map(|i| b.backs.circs[c].m.push(Item::Id(*i))).collect();
            while its.len() < n {
                its.push(b.backs.circs[c].m.push(Item::K(false)));
            }
            keep(b, c, &its, &w, "a word of given signals");
            Some(Some(Word { items: its, gids: w }))
        }
        3 => {
            let (wa, outs) = (wa?, b.backs.circs[c].m.outputs.len());
            if outs > 250 {
                return None;
            }
            let r = judged(b, c, small, false, "outputting a word", || g.g.out(wa.gids.clone()));
            if r.is_some() {
                let now: Vec<GateId> = {
                    let h = b.backs.circs[c].h.borrow();
                    h.outputs[outs..].iter().map(|i| h.ids[*i as usize]).collect()
                };
                if now != wa.gids {
                    b.fail("word-output", "outputting a word did not register its signals in order".into());
                }
                b.backs.circs[c].m.outputs.extend(wa.items);
            } else {
                sync(b, c, true);
            }
            Some(None)
        }
        _ => {
            let (wa, wb) = (wa?, wb?);
            let nops = [INT_NAMES.len(), BITS_NAMES.len(), FP_NAMES.len()][fam as usize] as u32;
            let op = op % nops;
            let size = b.backs.circs[c].h.borrow().size;
            match fam {
                0 if op == 15 && !g.ext => return None,
                0 if matches!(op, 4 | 5) && n > 16 && size > 2000 => return None,
                2 if op >= 9 => return None,
                2 if n > 12 && size > 10_000 => return None,
                _ => {}
            }
            let k = k as usize % (2 * n + 1);
            let sel = if fam == 1 && op == 9 { Some(pick(b, c, x.rotate_left(9) ^ y)?) } else { None };
            let what = [INT_NAMES.get(op as usize), BITS_NAMES.get(op as usize), FP_NAMES.get(op as usize)][fam as usize].unwrap();
            let free = match fam {
                0 => op < 7,
                1 => op < 7,
                _ => op < 5,
            };
            let most = if fam == 1 && op == 9 { 4 * n as u32 } else { n as u32 + 1 };
            let no = Refusal { at: if no.at == 0 { 0 } else { 1 + (no.at - 1) % most }, ..no };
            let r = judged(b, c, no, free, what, || g.g.op(op, wa.gids.clone(), wb.gids.clone(), sel.map(|s| s.1), k));
            let w = match r {
                Some(w) => w,
                None => return Some(None),
            };
            *b.stats.ops.entry(what).or_default() += 1;
            let mut args = wa.items.clone();
            let (fun, len) = match fam {
                0 => {
                    if !matches!(op, 6..=8) {
                        args.extend(wb.items.iter().copied());
                    }
                    (Fun::Int { op, n, k: k.min(n) }, int_out(op, n))
                }
                1 => {
                    if op != 0 {
                        args.extend(wb.items.iter().copied());
                    }
                    if let Some(s) = sel {
                        args.push(s.0);
                    }
                    (Fun::Bits { op, n }, bits_out(op, n))
                }
                _ => {
                    if op != 4 {
                        args.extend(wb.items.iter().copied());
                    }
                    (Fun::Fp { op, n, p }, fp_out(op, n))
                }
            };
            let picks = b.backs.circs[c].m.fun(fun, args, len);
            keep(b, c, &picks, &w, what);
            Some(Some(Word { items: picks, gids: w }))
        }
    }
}

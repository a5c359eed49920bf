//! Plans from seeds.  A seeded scheduler interleaves the clients; each client works through episodes of requests.
use crate::doc;
use crate::plan::*;
use crate::prng::{mix, Rng};
use std::collections::VecDeque;

/// the client's own newest circuit
const CUR: u32 = u32::MAX - 1;
/// the circuit that one was made from
const PAR: u32 = u32::MAX - 2;

#[derive(Clone, Copy, PartialEq, Debug)]
enum E {
    Gates,
    Consts,
    Outs,
    Bad,
    New,
    NewShared,
    Module,
    Call,
    Register,
    Cross,
    Tower,
    Fork,
    Forget,
    Eval,
    Skew,
    Gone,
    Int,
    Bits,
    Fp,
    GMore,
    Rebind,
    Load,
    Write,
    Lib,
    Relay,
    Through,
    Chain,
    Bulk,
    Spend,
    Twice,
    Hand,
    Look,
    Back,
    BackWord,
    BackLoad,
    BackLib,
}

/// how stream faults are drawn
#[derive(Clone, Copy, PartialEq)]
enum F {
    Benign,
    Hard,
    Any,
}

struct Prof {
    eps: Vec<(E, u64)>,
    steps: (u64, u64),
    damage: u64,
    read: F,
    write: F,
    pump: bool,
    slots: bool,
    mul: bool,
    heavy: bool,
    deep: bool,
    large: bool,
    widths: u64,
}

fn profile(p: &str) -> Prof {
    use E::*;
    let base = Prof { eps: vec![], steps: (6, 30), damage: 0, read: F::Benign, write: F::Benign, pump: false, slots: true, mul: false, heavy: false, deep: false, large: false, widths: 6 };
    let eps: &[(E, u64)];
    let mut q = base;
    match p {
        "L01" => {
            eps = &[(Load, 10), (New, 4), (NewShared, 1), (Gates, 3), (Outs, 1), (Eval, 2), (Consts, 1), (Module, 1)];
            q.steps = (3, 14);
        }
        "L02" => {
            eps = &[(Load, 10), (New, 2), (Gates, 3), (Consts, 1), (Outs, 2), (Eval, 2), (Module, 1), (Gone, 1)];
            q.steps = (3, 14);
            q.read = F::Hard;
        }
        "L03" => {
            eps = &[(Load, 12), (New, 3), (Gates, 2), (Outs, 1), (Eval, 2)];
            q.steps = (3, 12);
            q.damage = 9;
        }
        "L04" => {
            eps = &[(Load, 14), (New, 2), (NewShared, 1), (Gates, 3), (Consts, 1), (Outs, 2), (Eval, 2), (Fork, 1), (Module, 1), (Gone, 1)];
            q.steps = (5, 22);
            q.damage = 3;
            q.read = F::Any;
        }
        "W01" => {
            eps = &[(Gates, 6), (Consts, 3), (Outs, 6), (Cross, 2), (Tower, 1), (Module, 5), (Call, 4), (Write, 8), (Load, 2), (New, 1), (Register, 1), (Eval, 1), (Int, 1), (Bits, 1)];
            q.steps = (6, 40);
            q.widths = 3;
        }
        "W02" => {
            eps = &[(Gates, 5), (Consts, 2), (Outs, 5), (Cross, 1), (Module, 3), (Call, 3), (Write, 12), (Load, 1), (New, 1)];
            q.steps = (6, 30);
            q.write = F::Hard;
        }
        "W03" => {
            eps = &[(Gates, 5), (Consts, 2), (Outs, 4), (Cross, 2), (Tower, 1), (Module, 4), (Call, 4), (Write, 14), (New, 1), (Eval, 2), (Fork, 1), (Gone, 1)];
            q.steps = (8, 40);
            q.write = F::Any;
        }
        "E01" => {
            eps = &[(Gates, 5), (Consts, 2), (Outs, 5), (Cross, 1), (Module, 3), (Call, 3), (Relay, 8), (Through, 1), (Load, 1), (Write, 1), (Eval, 1)];
            q.steps = (6, 30);
            q.read = F::Any;
            q.write = F::Any;
        }
        "S01" => {
            eps = &[(Gates, 12), (Consts, 3), (Outs, 4), (Bad, 2), (New, 1), (NewShared, 1), (Cross, 1), (Module, 3), (Call, 3), (Fork, 2), (Eval, 3), (Gone, 1), (Register, 1), (Forget, 1)];
            q.steps = (8, 70);
        }
        "S02" => {
            eps = &[(Gates, 8), (Consts, 3), (Outs, 8), (Eval, 10), (Skew, 3), (Cross, 1), (Tower, 1), (Module, 3), (Call, 3), (New, 1), (Load, 1), (Fork, 1), (Bad, 1)];
            q.steps = (8, 50);
        }
        "S03" => {
            eps = &[(Cross, 4), (Tower, 2), (Module, 10), (Call, 10), (Gates, 5), (Consts, 2), (Outs, 3), (Register, 4), (NewShared, 2), (New, 1), (Forget, 2), (Fork, 1), (Bad, 1), (Eval, 3), (Load, 1)];
            q.steps = (10, 70);
        }
        "S04" => {
            eps = &[(Int, 6), (GMore, 14), (Gates, 3), (Consts, 1), (Outs, 2), (Eval, 2), (Rebind, 2), (NewShared, 1), (New, 1), (Gone, 1), (Bits, 1)];
            q.steps = (8, 40);
            q.widths = 10;
        }
        "S05" => {
            eps = &[(Bits, 6), (GMore, 14), (Gates, 3), (Consts, 1), (Outs, 2), (Eval, 2), (Rebind, 2), (NewShared, 1), (New, 1), (Gone, 1), (Int, 1)];
            q.steps = (8, 40);
            q.widths = 10;
        }
        "S06" => {
            eps = &[(Fp, 6), (GMore, 14), (Gates, 2), (Consts, 1), (Outs, 1), (Eval, 2), (Rebind, 2), (NewShared, 1), (New, 1), (Gone, 1), (Int, 1)];
            q.steps = (8, 30);
            q.mul = true;
            q.widths = 10;
        }
        "S07" => {
            eps = &[(Lib, 6), (Gates, 6), (Consts, 2), (Outs, 3), (Eval, 2), (Load, 2), (Module, 2), (Call, 2), (New, 2), (Int, 1)];
            q.steps = (4, 14);
            q.heavy = true;
        }
        "D01" => {
            eps = &[(Chain, 10), (Gates, 3), (Outs, 4), (Eval, 4), (Write, 3), (Load, 5), (Relay, 2), (Fork, 1), (Module, 2), (Call, 2), (Lib, 2), (New, 2), (Consts, 1)];
            q.steps = (4, 16);
            q.read = F::Any;
            q.write = F::Any;
            q.heavy = true;
            q.deep = true;
        }
        "Z01" => {
            eps = &[(Bulk, 12), (Gates, 3), (Outs, 3), (Eval, 4), (Write, 3), (Load, 5), (Relay, 1), (Fork, 1), (Module, 3), (Call, 4), (New, 2), (NewShared, 1), (Consts, 1), (Register, 1), (Bad, 1), (Skew, 1)];
            q.steps = (6, 20);
            q.read = F::Any;
            q.write = F::Any;
            q.large = true;
        }
        "M01" => {
            eps = &[(Spend, 16), (Chain, 4), (Twice, 3), (Gates, 4), (Outs, 5), (Consts, 1), (Module, 3), (Call, 3), (Tower, 2), (Cross, 1), (Lib, 1), (Load, 2), (Fork, 1), (New, 1), (NewShared, 1), (Bad, 1), (Gone, 1), (Int, 1), (Eval, 1), (Write, 1)];
            q.steps = (6, 26);
            q.read = F::Any;
            q.write = F::Any;
            q.widths = 4;
        }
        "R01" => {
            eps = &[(Bad, 12), (Gates, 8), (Consts, 2), (Outs, 4), (Module, 4), (Call, 4), (Eval, 3), (New, 1), (NewShared, 1), (Fork, 1), (Register, 1), (Forget, 1), (Gone, 1), (Write, 1), (Load, 1), (Cross, 1), (Int, 1), (Bits, 1)];
            q.steps = (6, 40);
            q.pump = true;
            q.widths = 3;
        }
        "Q01" => {
            eps = &[(Look, 10), (Gates, 10), (Consts, 3), (Outs, 3), (Module, 5), (Call, 6), (New, 1), (NewShared, 1), (Fork, 2), (Register, 2), (Forget, 1), (Load, 3), (Write, 1), (Bad, 2), (Cross, 1), (Tower, 1), (Gone, 1), (Eval, 1), (Int, 1), (Bits, 1)];
            q.steps = (6, 50);
            q.read = F::Any;
            q.write = F::Any;
            q.pump = true;
            q.widths = 3;
        }
        "G01" => {
            eps = &[(Back, 10), (BackWord, 8), (BackLoad, 8), (BackLib, 2)];
            q.steps = (6, 40);
            q.read = F::Any;
        }
        "V01" => {
            eps = &[(Hand, 10), (Gates, 5), (Consts, 1), (Outs, 5), (Eval, 1), (New, 2), (Load, 2), (Module, 1), (Call, 1)];
            q.steps = (3, 16);
            q.read = F::Any;
            q.write = F::Any;
        }
        "S08" => {
            eps = &[(Load, 8), (Write, 6), (Gates, 5), (Consts, 2), (Outs, 4), (Module, 2), (Call, 2), (Eval, 3), (New, 1), (NewShared, 1), (Fork, 1)];
            q.steps = (5, 24);
            q.pump = true;
            q.read = F::Any;
            q.write = F::Any;
        }
        _ => {
            // H01
            eps = &[(Gates, 5), (Consts, 3), (Outs, 4), (Cross, 1), (Tower, 1), (Module, 4), (Call, 4), (Write, 5), (Load, 5), (Eval, 4), (Skew, 1), (New, 1), (NewShared, 1), (Register, 1), (Fork, 2), (Bad, 1), (Int, 1), (Bits, 1), (Gone, 1), (Relay, 1), (Fp, 1), (Look, 1)];
            q.steps = (8, 40);
            q.damage = 3;
            q.read = F::Any;
            q.write = F::Any;
            q.pump = true;
            q.widths = 4;
        }
    }
    q.eps = eps.to_vec();
    q
}

struct Client {
    queue: VecDeque<Op>,
    cur: u32,
    par: u32,
    fam: u8,
}

struct Gen {
    r: Rng,
    q: Prof,
    clients: Vec<Client>,
    ncirc: u32,
    small: bool,
    /// the run may meet a large document or circuit
    big: bool,
    /// document of the last load, and its loader
    last_doc: Option<(DocSpec, u8)>,
}

const ERRS: u64 = ERRORS;

impl Gen {
    fn sref(&mut self) -> u32 {
        match self.r.below(4) {
            0 => self.r.u32() >> 8,
            1 => self.r.below(12) as u32,
            _ => self.r.below(5) as u32,
        }
    }
    fn cref(&mut self) -> u32 {
        let n = self.ncirc.max(1) as u64;
        match self.r.below(4) {
            0 => 0,
            1 => (n - 1) as u32,
            2 => CUR,
            _ => self.r.below(n) as u32,
        }
    }

    fn gate(&mut self, c: u32) -> Op {
        let (a, b) = (self.sref(), self.sref());
        match self.r.below(9) {
            0 | 1 => Op::Not { c, a },
            2 | 3 => Op::Xor { c, a, b },
            4 | 5 => Op::And { c, a, b },
            6 => Op::Or { c, a, b },
            7 => Op::Eqv { c, a, b },
            _ => {
                if self.r.chance(1, 2) {
                    Op::Ident { c, a }
                } else {
                    Op::Or { c, a, b }
                }
            }
        }
    }

    pub fn doc_spec(&mut self) -> DocSpec {
        let r = &mut self.r;
        let groups = |r: &mut Rng, max: u64| -> Vec<u32> {
            let n = match r.below(8) {
                0 => 1,
                1..=4 => 2,
                5 | 6 => r.range(1, 4),
                _ => r.range(0, 5),
            };
            (0..n).map(|_| if r.chance(1, 8) { 0 } else { r.range(1, max) as u32 }).collect()
        };
        let ins = groups(r, 6);
        let outs = groups(r, 4);
        let gates = match r.below(8) {
            0 => r.below(3),
            1..=5 => r.range(1, 12),
            6 => r.range(8, 40),
            _ => {
                if self.small {
                    r.range(1, 12)
                } else {
                    r.range(30, 160)
                }
            }
        } as u32;
        let (mut ins, mut outs, mut gates) = (ins, outs, gates);
        if self.big && r.chance(1, 3) {
            match r.below(4) {
                0 => gates = r.range(400, 1800) as u32,
                1 if r.chance(1, 3) => ins = (0..r.range(400, 3000)).map(|_| r.chance(1, 6) as u32).collect(),
                1 => ins = (0..r.range(20, 400)).map(|_| r.below(3) as u32).collect(),
                2 => {
                    ins = groups(r, 150);
                    outs = groups(r, 200);
                    gates = r.range(100, 500) as u32;
                }
                _ if r.chance(1, 3) => outs = (0..r.range(400, 3000)).map(|_| r.chance(1, 6) as u32).collect(),
                _ => outs = (0..r.range(20, 300)).map(|_| r.below(2) as u32).collect(),
            }
        }
        if self.q.large && r.chance(3, 5) {
            let many = |r: &mut Rng| *r.pick(&[65_600u32, 66_000, 70_000, 33_000, 132_000, 65_600, 66_000, 70_000, 33_000, 263_000]) + r.below(40) as u32;
            match r.below(6) {
                0 => ins = vec![many(r)],
                1 => ins = vec![many(r), r.below(4) as u32, many(r) / 2],
                2 => ins = (0..many(r)).map(|_| r.chance(1, 3) as u32).collect(),
                3 => gates = many(r),
                _ => {
                    ins = vec![many(r), 2];
                    outs = vec![r.below(4) as u32, many(r)];
                    if r.chance(1, 3) {
                        outs = (0..many(r)).map(|_| r.chance(1, 3) as u32).collect();
                    }
                }
            }
        }
        if self.q.deep {
            if r.chance(1, 2) {
                gates = *r.pick(&[1500, 4000, 9000, 18_000]);
            }
            if ins.iter().all(|x| *x == 0) {
                ins = vec![2];
            }
        }
        let mut style = r.below(64) as u32;
        if self.q.deep && r.chance(3, 4) {
            style |= 128;
        }
        if r.chance(1, 12) {
            style |= 64;
        }
        if r.chance(1, 8) {
            style |= 256;
        }
        if r.chance(1, 8) {
            style |= 512;
        }
        DocSpec { seed: r.u32(), ins, outs, gates, style, damage: Damage::None }
    }

    fn damage(&mut self, d: &DocSpec) -> Damage {
        let m = doc::make(d);
        let n = m.orig.len().max(1);
        let r = &mut self.r;
        let share = |p: usize| -> u32 { ((p * 10000).div_ceil(n)).min(10000) as u32 };
        let near = |r: &mut Rng| -> usize {
            // mostly near line ends
            if r.chance(1, 2) && !m.line_ends.is_empty() {
                let e = *r.pick(&m.line_ends) as i64 + r.range(0, 4) as i64 - 2;
                e.clamp(0, n as i64) as usize
            } else {
                r.below(n as u64 + 1) as usize
            }
        };
        match r.below(8) {
            0..=3 => Damage::Torn(share(near(r))),
            4 | 5 => {
                let k = r.range(1, 3);
                let v = (0..k)
                    .map(|_| {
                        let p = near(r).min(n - 1);
                        let byte = match r.below(6) {
                            0 => b'0' + r.below(10) as u8,
                            1 => b' ',
                            2 => b'\n',
                            3 => *r.pick(b"AXOINVEQWR-+\t\r"),
                            4 => m.orig[p] ^ (1 << r.below(8)),
                            _ => r.next() as u8,
                        };
                        (share(p), byte)
                    })
                    .collect();
                Damage::Bytes(v)
            }
            6 => Damage::DropLine(r.u32() >> 16),
            _ => Damage::Rewire(r.u32() >> 16, r.below(m.doc.nw as u64 + 3) as u32),
        }
    }

    fn chunks(&mut self) -> Vec<u32> {
        let n = self.r.range(0, 4);
        if self.q.deep || self.q.large {
            return (0..n).map(|_| *self.r.pick(&[100, 333, 1000, 4096, 0])).collect();
        }
        (0..n).map(|_| *self.r.pick(&[1, 1, 2, 3, 5, 17, 64, 0])).collect()
    }
    fn cap(&mut self, zero: bool) -> u32 {
        let c = if self.q.deep || self.q.large { *self.r.pick(&[0, 512, 8192]) } else { *self.r.pick(&[0, 1, 2, 3, 7, 16, 61, 512, 8192]) };
        if c == 0 && !zero {
            if self.q.deep || self.q.large {
                100
            } else {
                4
            }
        } else {
            c
        }
    }

    fn fault(&mut self, f: F, sink: bool, depth: u32, by: u8) -> FaultKind {
        let hard = match f {
            F::Benign => false,
            F::Hard => self.r.chance(3, 4),
            F::Any => self.r.chance(2, 5),
        };
        if self.q.pump && depth < 3 && self.r.chance(3, 5) {
            let n = self.r.range(1, 4);
            return FaultKind::Pump((0..n).map(|_| self.inner(depth + 1, by)).collect());
        }
        if !hard {
            let n = match self.r.below(40) {
                // a storm of them: nobody's patience may run out
                0 => *self.r.pick(&[70, 130, 260, 520, 1100, 4500, 9000]) + self.r.below(60),
                1..=6 => self.r.range(2, 40),
                _ => self.r.range(1, 3),
            };
            return FaultKind::Eintr(n as u32);
        }
        match self.r.below(10) {
            0 | 1 => FaultKind::Panic,
            2 if sink => FaultKind::Zero,
            x => FaultKind::Err { kind: self.r.below(ERRS) as u8, sticky: x < 6 },
        }
    }

    fn nfaults(&mut self) -> u64 {
        match self.r.below(6) {
            0 => 0,
            1..=3 => 1,
            4 => 2,
            _ => self.r.range(1, 5),
        }
    }

    fn src(&mut self, d: &DocSpec, depth: u32, by: u8) -> Src {
        let m = doc::make(d);
        let n = m.bytes.len();
        let mut faults = vec![];
        for _ in 0..self.nfaults() {
            let pos = match self.r.below(4) {
                0 if !m.line_ends.is_empty() => *self.r.pick(&m.line_ends),
                1 if !m.line_ends.is_empty() => {
                    // header, and just before the end, where few bytes are
                    let k = if self.r.bool() { self.r.below(4.min(m.line_ends.len() as u64)) as usize } else { m.line_ends.len() - 1 };
                    (m.line_ends[k] as i64 + self.r.range(0, 3) as i64 - 2).max(0) as usize
                }
                _ => self.r.below(n as u64 + 1) as usize,
            }
            .min(n);
            let at = if n == 0 { 0 } else { ((pos as u64 * 100_000).div_ceil(n as u64)).min(100_000) as u32 };
            let f = self.q.read;
            faults.push(Fault { at, kind: self.fault(f, false, depth, by) });
        }
        Src { cap: self.cap(true), chunks: self.chunks(), faults }
    }

    /// a circuit of the simulator's own, mostly the newest
    fn bref(&mut self) -> u32 {
        if self.r.chance(2, 3) {
            0
        } else {
            self.r.below(6) as u32
        }
    }

    fn refusal(&mut self, most: u64) -> Refusal {
        if self.r.chance(2, 3) {
            return Refusal { at: 0, how: 0, sticky: false };
        }
        // every scale alike
        let mut top = most.max(1);
        while top > 2 && self.r.chance(1, 3) {
            top = top.div_ceil(3);
        }
        Refusal { at: self.r.range(1, top) as u32, how: self.r.below(8) as u8, sticky: self.r.bool() }
    }

    fn any_src(&mut self, depth: u32, by: u8) -> Src {
        let mut faults = vec![];
        for _ in 0..self.nfaults() {
            let f = self.q.read;
            faults.push(Fault { at: self.at(), kind: self.fault(f, false, depth, by) });
        }
        Src { cap: self.cap(true), chunks: self.chunks(), faults }
    }

    fn at(&mut self) -> u32 {
        match self.r.below(8) {
            0 => 0,
            1 => 100_000,
            2 => self.r.range(97_000, 100_000) as u32,
            3 => self.r.below(25_000) as u32,
            _ => self.r.below(100_001) as u32,
        }
    }

    fn sink(&mut self, depth: u32, by: u8) -> SinkScript {
        let f = self.q.write;
        let mut faults = vec![];
        for _ in 0..self.nfaults() {
            faults.push(Fault { at: self.at(), kind: self.fault(f, true, depth, by) });
        }
        let flush_err = if f != F::Benign && self.r.chance(1, 12) { Some(self.r.below(ERRS) as u8) } else { None };
        SinkScript { cap: self.cap(false), chunks: self.chunks(), faults, flush_err, crash: self.r.chance(1, 4) }
    }

    fn load(&mut self, c: u32, depth: u32, by: u8) -> Op {
        let mut slot = self.slot();
        let mut d = self.doc_spec();
        let mut again = false;
        if let Some((last, s)) = &self.last_doc {
            // the document of the load before, once more
            if self.r.chance(1, 8) {
                d = last.clone();
                slot = *s;
                again = true;
            }
        }
        if self.q.damage > 0 && self.r.chance(if again { 7 } else { self.q.damage }, 10) {
            d.damage = self.damage(&d);
        }
        self.last_doc = Some((DocSpec { damage: Damage::None, ..d.clone() }, slot));
        let src = self.src(&d, depth, by);
        Op::Load { c, slot, doc: d, src }
    }
    fn slot(&mut self) -> u8 {
        if self.q.slots && self.r.chance(2, 3) {
            self.r.range(1, 3) as u8
        } else {
            0
        }
    }
    fn write(&mut self, c: u32, depth: u32, by: u8) -> Op {
        let first = self.r.u32() >> 20;
        let slot = self.slot();
        let sink = self.sink(depth, by);
        Op::Write { c, slot, first, map: self.r.chance(1, 4), sink }
    }

    /// A request made while a stream call waits.
    fn inner(&mut self, depth: u32, by: u8) -> Step {
        let n = self.clients.len() as u64;
        let who = if n > 1 && self.r.chance(5, 6) { (by as u64 + 1 + self.r.below(n - 1)) % n } else { by as u64 } as u8;
        let c = self.cref();
        let c = if c == CUR { self.clients[who as usize].cur } else { c };
        let op = match self.r.below(18) {
            17 => Op::Look { c, seed: self.r.u32() },
            0 => Op::In { c },
            1 => Op::Const { c, v: self.r.bool() },
            2..=5 => self.gate(c),
            6 | 7 => Op::Out { c, a: self.sref() },
            8 | 9 => self.eval(c),
            10 => self.load(c, depth, who),
            11 => self.write(c, depth, who),
            12 => Op::Call { c, m: self.r.below(4) as u32, args: self.r.u32() },
            13 => Op::Sub { c },
            14 => Op::Fork { c },
            15 => Op::BadOut { c },
            _ => Op::Bad { c, kind: self.r.u32() >> 16, seed: self.r.u32() },
        };
        Step { by: who, op }
    }

    fn eval(&mut self, c: u32) -> Op {
        Op::Eval { c, slot: self.slot(), n: self.r.range(1, 3) as u8, seed: self.r.u32(), skew: 0 }
    }

    fn gop(&mut self, fam: u8) -> Op {
        let nops = match fam {
            0 => 18,
            1 => 10,
            _ => {
                if self.q.mul && self.r.chance(1, 6) {
                    11
                } else {
                    9
                }
            }
        };
        let op = if nops == 11 { 9 + self.r.below(2) } else { self.r.below(nops) } as u32;
        let k = match self.r.below(4) {
            0 => 0,
            1 => self.r.below(4) as u32,
            _ => self.r.u32() >> 8,
        };
        Op::GOp { g: self.r.below(3) as u32, op, a: self.r.below(5) as u32, b: self.r.below(5) as u32, k }
    }

    fn gadget_more(&mut self, fam: u8) -> Op {
        let g = self.r.below(3) as u32;
        match self.r.below(14) {
            0 => Op::GNew { g },
            1 => Op::GConst { g, v: self.r.next(), w: self.r.next() },
            2 => Op::GFrom { g, len: if self.r.bool() { self.r.u32() >> 8 } else { self.r.below(4) as u32 }, args: self.r.u32() },
            3 => Op::GOut { g, a: self.r.below(5) as u32 },
            _ => self.gop(fam),
        }
    }

    fn episode(&mut self, by: u8) {
        let total: u64 = self.q.eps.iter().map(|e| e.1).sum();
        let mut x = self.r.below(total);
        let mut e = self.q.eps[0].0;
        for (k, w) in &self.q.eps {
            if x < *w {
                e = *k;
                break;
            }
            x -= *w;
        }
        let c = self.cref();
        let mut v: Vec<Op> = vec![];
        match e {
            E::Gates => {
                if self.r.chance(1, 4) {
                    v.push(Op::In { c });
                }
                for _ in 0..self.r.range(1, 4) {
                    let g = self.gate(c);
                    v.push(g);
                }
                if self.r.chance(1, 50) {
                    let n = if self.big && self.r.chance(1, 3) { self.r.range(300, 3500) } else { self.r.range(10, 80) };
                    v.push(Op::Burst { c, n: n as u32, seed: self.r.u32() });
                }
                if !self.q.deep && self.r.chance(1, 400) {
                    v.push(Op::Chain { c, n: self.r.range(40, 1400) as u32, kind: *self.r.pick(&[5, 5, 1, 2, 4, 6, 7, 8]), seed: self.r.u32() });
                    v.push(Op::Out { c, a: 0 });
                    let op = self.eval(c);
                    v.push(op);
                }
            }
            E::Consts => v.push(Op::Const { c, v: self.r.bool() }),
            E::Outs => {
                for _ in 0..self.r.range(1, 3) {
                    let a = self.sref();
                    v.push(Op::Out { c, a });
                }
            }
            E::Bad => {
                for _ in 0..if self.r.chance(1, 4) { self.r.range(2, 5) } else { 1 } {
                    let op = match self.r.below(8) {
                        0 => Op::BadOut { c },
                        1 => Op::BadCall { c },
                        _ => Op::Bad { c, kind: self.r.u32() >> 16, seed: self.r.u32() },
                    };
                    v.push(op);
                }
            }
            E::Hand => {
                let exports = (0..self.r.below(4))
                    .map(|_| Attempt { sink: self.sink(3, by), keep: *self.r.pick(&[0, 1000, 1000, 500, 900, 990]) })
                    .collect();
                let imports = (0..self.r.below(3)).map(|_| self.any_src(3, by)).collect();
                v.push(Op::Hand { c, fmt: self.r.below(4) as u8, seed: self.r.u32(), exports, imports });
            }
            E::New => {
                v.push(Op::NewCirc { share: None });
                self.fill(&mut v, CUR);
            }
            E::NewShared => {
                v.push(Op::NewCirc { share: Some(self.r.below(3) as u32) });
                self.fill(&mut v, CUR);
            }
            E::Module => {
                v.push(Op::Sub { c });
                if self.r.chance(1, 3) {
                    v.push(Op::Call { c: CUR, m: self.r.below(4) as u32, args: self.r.u32() });
                }
                self.fill(&mut v, CUR);
                if self.r.chance(1, 3) {
                    v.push(Op::Call { c: CUR, m: self.r.below(4) as u32, args: self.r.u32() });
                }
                for _ in 0..self.r.range(0, 4) {
                    let a = self.sref();
                    v.push(Op::Out { c: CUR, a });
                }
                for _ in 0..self.r.range(0, 3) {
                    v.push(Op::Call { c: PAR, m: self.r.below(3) as u32, args: self.r.u32() });
                }
            }
            E::Call => {
                for _ in 0..self.r.range(1, 2) {
                    v.push(Op::Call { c, m: self.sref(), args: self.r.u32() });
                }
            }
            E::Register => {
                let what = self.cref();
                v.push(Op::Register { into: c, what });
            }
            E::Tower => {
                // modules of modules of modules
                let c = if c == CUR { self.clients[by as usize].cur } else { c };
                let base = self.r.bool();
                for k in 0..self.r.range(3, 16) {
                    v.push(Op::Sub { c });
                    for _ in 0..self.r.range(1, 2) {
                        v.push(Op::In { c: CUR });
                    }
                    if self.r.chance(1, 4) {
                        v.push(Op::Const { c: CUR, v: self.r.bool() });
                    }
                    let g = self.gate(CUR);
                    v.push(g);
                    if k > 0 || base {
                        for _ in 0..if self.r.chance(1, 6) { 2 } else { 1 } {
                            v.push(Op::Call { c: CUR, m: 0, args: self.r.u32() });
                        }
                    }
                    if self.r.chance(1, 2) {
                        let g = self.gate(CUR);
                        v.push(g);
                    }
                    for _ in 0..self.r.range(1, 3) {
                        let a = self.r.below(4) as u32;
                        v.push(Op::Out { c: CUR, a });
                    }
                }
                v.push(Op::In { c });
                v.push(Op::Call { c, m: 0, args: self.r.u32() });
                v.push(Op::Out { c, a: 0 });
            }
            E::Cross => {
                // a circuit with modules of its own store becomes a module of another store
                let c = if c == CUR { self.clients[by as usize].cur } else { c };
                if self.r.chance(1, 3) {
                    v.push(Op::Sub { c });
                    self.fill(&mut v, CUR);
                    v.push(Op::Out { c: CUR, a: self.r.below(3) as u32 });
                }
                v.push(Op::NewCirc { share: if self.r.chance(1, 4) { Some(self.r.below(3) as u32) } else { None } });
                self.fill(&mut v, CUR);
                v.push(Op::In { c: CUR });
                v.push(Op::Sub { c: CUR });
                self.fill(&mut v, CUR);
                for _ in 0..self.r.range(0, 2) {
                    let a = self.sref();
                    v.push(Op::Out { c: CUR, a });
                }
                for _ in 0..self.r.range(1, 2) {
                    v.push(Op::Call { c: PAR, m: 0, args: self.r.u32() });
                }
                for _ in 0..self.r.range(1, 2) {
                    v.push(Op::Out { c: PAR, a: self.r.below(3) as u32 });
                }
                v.push(Op::Register { into: c, what: PAR });
                v.push(Op::Call { c, m: 0, args: self.r.u32() });
                let a = self.r.below(3) as u32;
                v.push(Op::Out { c, a });
            }
            E::Look => v.push(Op::Look { c, seed: self.r.u32() }),
            E::Fork => v.push(Op::Fork { c }),
            E::Forget => v.push(Op::Forget { c }),
            E::Eval => {
                let op = self.eval(c);
                v.push(op);
            }
            E::Skew => {
                let skew = *self.r.pick(&[-1i8, 1, -2, 2, -100, 60]);
                v.push(Op::Eval { c, slot: self.slot(), n: 1, seed: self.r.u32(), skew });
            }
            E::Gone => v.push(Op::DropClient),
            E::Int | E::Bits | E::Fp => {
                let fam = match e {
                    E::Int => 0,
                    E::Bits => 1,
                    _ => 2,
                };
                self.clients[by as usize].fam = fam;
                let all = self.q.widths >= 10;
                let n = match fam {
                    2 if all && self.r.chance(1, 60) => self.r.range(21, 23),
                    2 if all && self.r.chance(1, 3) => self.r.below(21),
                    2 => self.r.below(13),
                    0 if all && self.r.chance(1, 60) => self.r.range(20, 25),
                    0 if all && self.r.chance(1, 3) => self.r.below(21),
                    1 if all && self.r.chance(1, 3) => self.r.below(22),
                    _ => self.r.below(self.q.widths),
                } as u32;
                v.push(Op::GCfg { c, fam, n, p: self.r.u32() >> 16 });
                for _ in 0..self.r.range(1, 3) {
                    v.push(Op::GNew { g: 0 });
                }
                for _ in 0..self.r.range(1, 4) {
                    let mut op = self.gop(fam);
                    if let Op::GOp { g, .. } = &mut op {
                        *g = 0;
                    }
                    v.push(op);
                }
                if self.r.chance(1, 2) {
                    v.push(Op::GOut { g: 0, a: 0 });
                }
            }
            E::GMore => {
                let fam = self.clients[by as usize].fam;
                for _ in 0..self.r.range(1, 3) {
                    let op = self.gadget_more(fam);
                    v.push(op);
                }
            }
            E::Rebind => {
                v.push(Op::GRebind { g: self.r.below(3) as u32, c });
                v.push(Op::GNew { g: 0 });
                let fam = self.clients[by as usize].fam;
                for _ in 0..self.r.range(1, 3) {
                    let mut op = self.gop(fam);
                    if let Op::GOp { g, .. } = &mut op {
                        *g = 0;
                    }
                    v.push(op);
                }
            }
            E::Load => {
                let op = self.load(c, 0, by);
                v.push(op);
            }
            E::Write => {
                if self.r.chance(1, 3) {
                    let a = self.sref();
                    v.push(Op::Out { c, a });
                }
                let op = self.write(c, 0, by);
                v.push(op);
            }
            E::Lib => {
                let k = if self.r.chance(2, 3) { self.r.below(3) } else { 3 + self.r.below(4) } as u32;
                v.push(Op::Lib { c, k });
            }
            E::Chain => {
                let n = match self.r.below(8) {
                    n if !self.q.deep => match n {
                        0 => self.r.range(4000, 20_000),
                        1 | 2 => self.r.range(500, 4000),
                        _ => self.r.range(1, 500),
                    },
                    0 if self.r.chance(1, 5) => self.r.range(66_000, 100_000),
                    0 => self.r.range(20_000, 45_000),
                    1..=3 => self.r.range(4000, 20_000),
                    4 | 5 => self.r.range(500, 4000),
                    _ => self.r.range(1, 500),
                };
                let kind = self.r.below(10) as u8;
                v.push(Op::Chain { c, n: if kind == 3 { n / 16 } else { n } as u32, kind, seed: self.r.u32() });
                if self.r.chance(2, 3) {
                    v.push(Op::Out { c, a: 0 });
                }
                if self.r.chance(1, 2) {
                    let op = if self.r.bool() { self.eval(c) } else { self.write(c, 0, by) };
                    v.push(op);
                }
            }
            E::Spend => {
                for _ in 0..self.r.range(1, 3) {
                    v.push(Op::Spend { c, kind: self.r.u32() >> 8, seed: self.r.u32() });
                }
            }
            E::Twice => {
                // each module makes its outputs of the outputs of the one below: they share it
                let w = *self.r.pick(&[2u32, 2, 2, 2, 3, 5, 12, 30]);
                let plain = self.r.bool();
                for k in 0..self.r.range(3, if w < 4 { 15 } else { 6 }) {
                    v.push(Op::Sub { c });
                    v.push(Op::In { c: CUR });
                    v.push(Op::In { c: CUR });
                    if k > 0 {
                        v.push(Op::Call { c: CUR, m: 0, args: self.r.u32() });
                    }
                    if k == 0 || !plain {
                        v.push(Op::Xor { c: CUR, a: 0, b: 1 });
                        v.push(Op::And { c: CUR, a: self.r.below(3) as u32, b: 2 });
                        if k == 0 && w > 2 {
                            for _ in 2..w {
                                let g = self.gate(CUR);
                                v.push(g);
                            }
                        }
                    }
                    for a in 0..w {
                        v.push(Op::Out { c: CUR, a });
                    }
                }
                v.push(Op::In { c });
                v.push(Op::Call { c, m: 0, args: self.r.u32() });
                for a in 0..w {
                    v.push(Op::Out { c, a });
                }
                v.push(Op::Spend { c, kind: self.r.u32() >> 8, seed: self.r.u32() });
            }
            E::Bulk => {
                let n = match self.r.below(8) {
                    0 => self.r.range(100, 5000),
                    1 => self.r.range(32_800, 33_500),
                    2 => self.r.range(131_100, 132_000),
                    3 if self.r.bool() => self.r.range(262_200, 300_000),
                    _ => self.r.range(65_540, 70_000),
                };
                let kind = self.r.below(7) as u8;
                if self.r.chance(1, 2) || kind == 5 {
                    // into a module, or with one at hand
                    v.push(Op::Sub { c });
                    self.fill(&mut v, CUR);
                    v.push(Op::Out { c: CUR, a: 0 });
                    v.push(Op::In { c: PAR });
                    let into = if kind == 5 || self.r.bool() { PAR } else { CUR };
                    v.push(Op::Bulk { c: into, n: n as u32, kind, seed: self.r.u32() });
                    v.push(Op::Out { c: into, a: self.r.below(8) as u32 });
                    if self.r.chance(3, 4) {
                        let m = if self.r.chance(2, 3) { 0 } else { self.r.below(10) } as u32;
                        v.push(Op::Call { c: PAR, m, args: self.r.u32() });
                    }
                    v.push(Op::Out { c: PAR, a: 0 });
                } else {
                    v.push(Op::Bulk { c, n: n as u32, kind, seed: self.r.u32() });
                    if kind == 3 {
                        v.push(Op::In { c });
                        for _ in 0..self.r.range(1, 4) {
                            v.push(Op::Call { c, m: self.r.below(10) as u32, args: self.r.u32() });
                            v.push(Op::Out { c, a: 0 });
                        }
                    }
                    for _ in 0..self.r.range(0, 3) {
                        v.push(Op::Out { c, a: self.r.below(9) as u32 });
                    }
                }
                match self.r.below(4) {
                    0 => {
                        let op = self.eval(c);
                        v.push(op)
                    }
                    1 => {
                        let op = self.write(c, 0, by);
                        v.push(op)
                    }
                    _ => {}
                }
            }
            E::Back => {
                if self.r.chance(1, 5) {
                    let share = if self.r.bool() { Some(self.r.below(4) as u32) } else { None };
                    v.push(Op::BNew { share, ids: self.r.below(10) as u8 });
                }
                let b = self.bref();
                for _ in 0..self.r.range(1, 5) {
                    let kind = match self.r.below(4) {
                        0 => 0,
                        _ => self.r.below(14) as u32,
                    };
                    let (a, x) = (self.sref(), self.sref());
                    let no = self.refusal(1);
                    v.push(Op::BReq { c: b, kind, a, b: x, no });
                }
            }
            E::BackWord => {
                let old = self.r.chance(2, 3);
                if !old {
                    let fam = self.r.below(3) as u8;
                    let n = self.r.below(64) as u32;
                    let no = self.refusal(8000);
                    let b = self.bref();
                    v.push(Op::BCfg { c: b, fam, n, no });
                }
                let g = if !old || self.r.bool() { 0 } else { self.r.below(8) as u32 };
                for _ in 0..self.r.range(1, 6) {
                    let kind = self.r.below(12) as u8;
                    let most = *self.r.pick(&[4, 40, 40, 400, 8000]);
                    let no = self.refusal(most);
                    let (a, x) = (self.sref(), self.sref());
                    let k = if self.r.bool() { self.r.below(9) as u32 } else { self.r.u32() };
                    v.push(Op::BWord { g, kind, op: self.r.below(64) as u32, a, b: x, k, no });
                }
            }
            E::BackLoad => {
                let doc = self.doc_spec();
                let mut doc = if self.r.chance(1, 4) { self.last_doc.clone().map_or(doc, |d| d.0) } else { doc };
                doc.damage = Damage::None;
                let src = self.src(&doc, 9, by);
                let most = (doc.gates as u64 + 20).max(1);
                let no = self.refusal(most);
                let slot = self.r.below(4) as u8;
                self.last_doc = Some((doc.clone(), slot));
                let b = self.bref();
                v.push(Op::BLoad { c: b, slot, doc, src, no });
            }
            E::BackLib => {
                let k = if self.r.chance(2, 3) { self.r.below(3) } else { 3 + self.r.below(4) } as u32;
                let no = self.refusal(30_000);
                let b = self.bref();
                v.push(Op::BLib { c: b, k, no });
            }
            E::Through => {
                // a circuit that hands its last signals on as they are
                let k = self.r.range(9, 13);
                v.push(Op::NewCirc { share: None });
                for _ in 0..k + self.r.below(3) {
                    v.push(Op::In { c: CUR });
                }
                for _ in 0..self.r.below(8).saturating_sub(5) {
                    let g = self.gate(CUR);
                    v.push(g);
                }
                for a in (0..k as u32).rev() {
                    v.push(Op::Out { c: CUR, a });
                }
                if self.q.eps.iter().any(|e| matches!(e.0, E::Relay)) {
                    let exports = (0..self.r.range(1, 4)).map(|_| Attempt { sink: self.sink(0, by), keep: self.r.below(1001) as u32 }).collect();
                    v.push(Op::Relay { c: CUR, exports, imports: vec![] });
                }
            }
            E::Relay => {
                let c = if self.r.chance(1, 3) { c } else { u32::MAX };
                let exports = (0..self.r.below(4))
                    .map(|_| Attempt { sink: self.sink(0, by), keep: *self.r.pick(&[0, 1000, 1000, 500, 900, 990]) })
                    .collect();
                let imports = (0..self.r.below(3)).map(|_| self.any_src(0, by)).collect();
                v.push(Op::Relay { c, exports, imports });
                if self.r.chance(1, 2) {
                    for _ in 0..self.r.range(1, 3) {
                        let g = self.gate(u32::MAX);
                        v.push(g);
                    }
                    let a = self.sref();
                    v.push(Op::Out { c: u32::MAX, a });
                }
            }
        }
        self.clients[by as usize].queue.extend(v);
    }

    /// Some content for a new circuit.
    fn fill(&mut self, v: &mut Vec<Op>, c: u32) {
        for _ in 0..self.r.range(0, 4) {
            v.push(Op::In { c });
        }
        if self.r.chance(1, 3) {
            v.push(Op::Const { c, v: self.r.bool() });
        }
        for _ in 0..self.r.range(0, 5) {
            let g = self.gate(c);
            v.push(g);
        }
    }

    /// The next request of client `by`, with its circuit names settled.
    fn next(&mut self, by: u8) -> Op {
        while self.clients[by as usize].queue.is_empty() {
            self.episode(by);
        }
        let cl = &mut self.clients[by as usize];
        let mut op = cl.queue.pop_front().unwrap();
        let (cur, par) = (cl.cur, cl.par);
        let fix = |c: &mut u32| {
            if *c == CUR {
                *c = cur
            } else if *c == PAR {
                *c = par
            }
        };
        match &mut op {
            Op::Burst { c, .. } | Op::Bulk { c, .. } | Op::Spend { c, .. } | Op::Chain { c, .. } | Op::Sub { c } | Op::Fork { c } | Op::Forget { c } | Op::In { c } | Op::Const { c, .. } => fix(c),
            Op::Not { c, .. } | Op::Xor { c, .. } | Op::And { c, .. } | Op::Or { c, .. } | Op::Eqv { c, .. } => fix(c),
            Op::Ident { c, .. } | Op::Call { c, .. } | Op::Out { c, .. } | Op::BadOut { c } | Op::BadCall { c } | Op::Bad { c, .. } | Op::Hand { c, .. } | Op::Look { c, .. } => fix(c),
            Op::Eval { c, .. } | Op::GCfg { c, .. } | Op::GRebind { c, .. } | Op::Load { c, .. } => fix(c),
            Op::Write { c, .. } | Op::Lib { c, .. } | Op::Relay { c, .. } => fix(c),
            Op::Register { into, what } => {
                fix(into);
                fix(what);
            }
            Op::NewCirc { .. } | Op::DropClient | Op::GNew { .. } | Op::GConst { .. } | Op::GFrom { .. } | Op::GOp { .. } | Op::GOut { .. } => {}
            Op::BNew { .. } | Op::BReq { .. } | Op::BLoad { .. } | Op::BLib { .. } | Op::BCfg { .. } | Op::BWord { .. } => {}
        }
        let cl = &mut self.clients[by as usize];
        match &op {
            Op::NewCirc { .. } if self.ncirc < 24 => {
                cl.par = cl.cur;
                cl.cur = self.ncirc;
                self.ncirc += 1;
            }
            Op::Sub { c } | Op::Fork { c } if self.ncirc < 24 => {
                cl.par = *c;
                cl.cur = self.ncirc;
                self.ncirc += 1;
            }
            _ => {}
        }
        op
    }
}

pub fn plan(prop: &str, master: u64, index: u64) -> Plan {
    let tag = prop.bytes().fold(0u64, |h, b| h * 131 + b as u64);
    let seed = mix(mix(master, tag), index);
    let mut r = Rng::new(seed);
    let mut q = profile(prop);
    // swarm: some kinds of request are left out of the run, others made frequent
    let main = q.eps[0].0;
    if r.chance(3, 4) {
        let main_too = r.chance(1, 2);
        for e in q.eps.iter_mut() {
            if e.0 == main || (main_too && e.1 >= 8) {
                continue;
            }
            match r.below(6) {
                0 | 1 => e.1 = 0,
                2 => e.1 *= 3,
                _ => {}
            }
        }
        q.eps.retain(|e| e.1 > 0);
    }
    // some runs leave out a kind of fault altogether
    if q.read == F::Any && r.chance(1, 5) {
        q.read = F::Benign;
    }
    if q.write == F::Any && r.chance(1, 5) {
        q.write = F::Benign;
    }
    let clients = r.range(1, 4) as usize;
    let nsteps = if r.chance(1, 3) { r.range(q.steps.0, (q.steps.0 + q.steps.1) / 2) } else { r.range(q.steps.0, q.steps.1) } as usize;
    let style = r.below(4);
    let small = r.chance(2, 3);
    let big = r.chance(1, 60);
    let nsteps = if big && r.chance(1, 2) && !matches!(prop, "S04" | "S06" | "S07" | "D01" | "Z01") { nsteps * 4 } else { nsteps };
    let mut g = Gen {
        r,
        q,
        clients: (0..clients).map(|_| Client { queue: VecDeque::new(), cur: 0, par: 0, fam: 0 }).collect(),
        ncirc: 1,
        small,
        big,
        last_doc: None,
    };
    let fam = match prop {
        "S05" => 1,
        "S06" => 2,
        _ => 0,
    };
    for c in &mut g.clients {
        c.fam = fam;
    }
    if g.q.large && g.r.chance(2, 3) {
        let eps = std::mem::replace(&mut g.q.eps, vec![(E::Bulk, 1)]);
        g.episode(0);
        g.q.eps = eps;
    }
    let mut steps = vec![];
    if prop == "G01" {
        for _ in 0..g.r.range(1, 3) {
            let by = g.r.below(clients as u64) as u8;
            let share = if g.r.chance(1, 3) { Some(0) } else { None };
            steps.push(Step { by, op: Op::BNew { share, ids: g.r.below(10) as u8 } });
        }
        for _ in 0..g.r.range(0, 4) {
            let (by, kind) = (g.r.below(clients as u64) as u8, g.r.chance(1, 5) as u32);
            let no = Refusal { at: 0, how: 0, sticky: false };
            steps.push(Step { by, op: Op::BReq { c: 0, kind, a: 0, b: 0, no } });
        }
    } else if g.r.chance(7, 8) {
        let mut v = vec![];
        for _ in 0..g.r.range(0, 4) {
            v.push(Op::In { c: 0 });
        }
        if g.r.chance(1, 4) {
            v.push(Op::Const { c: 0, v: g.r.bool() });
        }
        for op in v {
            let by = g.r.below(clients as u64) as u8;
            steps.push(Step { by, op });
        }
    }
    // priorities with change points; bursts; round robin; uniform
    let mut prio: Vec<u64> = (0..clients).map(|_| g.r.next() >> 1).collect();
    let mut cur = 0usize;
    for i in 0..nsteps {
        let by = match style {
            0 => g.r.below(clients as u64) as usize,
            1 => {
                if g.r.chance(1, 5) {
                    cur = g.r.below(clients as u64) as usize;
                }
                cur
            }
            2 => {
                let k = (0..clients).max_by_key(|k| prio[*k]).unwrap();
                if g.r.chance(1, 6) {
                    prio[k] = g.r.next() >> 2;
                }
                k
            }
            _ => i % clients,
        };
        let op = g.next(by as u8);
        steps.push(Step { by: by as u8, op });
    }
    // a client may go on to the end of what it had begun
    let on = match prop {
        "M01" | "E01" => g.r.chance(1, 2),
        _ => g.r.chance(1, 5),
    };
    if on {
        let by = g.r.below(clients as u64) as usize;
        for _ in 0..150 {
            if g.clients[by].queue.is_empty() {
                break;
            }
            let op = g.next(by as u8);
            steps.push(Step { by: by as u8, op });
        }
    }
    let stack = if g.q.deep { *g.r.pick(&[256, 256, 384, 512, 1024, 2048, 8192]) } else { 0 };
    Plan { property: prop.to_string(), seed, hash_seed: mix(seed, 0x4A5), clients: clients as u8, stack, steps }
}

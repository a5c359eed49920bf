//! Reference model of circuits: append-only lists of defined bits, evaluated forwards.
use crate::aes;
use crate::doc::*;
use circuit_converters::{BoolCircuitRef, BoolEvaluator, NXAOBoolCircuit, NXAOBoolEvaluator, NXAOBoolGate};
use std::rc::Rc;

pub type CRef = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;

#[derive(Clone)]
pub enum Fun {
    /// instance of circuit `.0`, using its first `.1` outputs
    Module(usize, usize),
    /// circuit `.0` as of when it had `.1` inputs and `.2` outputs
    Frozen(usize, usize, usize),
    Doc(Rc<Doc>),
    /// whatever this real circuit (a shadow load) computes
    Real(CRef),
    Int { op: u32, n: usize, k: usize },
    Bits { op: u32, n: usize },
    Fp { op: u32, n: usize, p: u128 },
    Lib(u32),
}

#[derive(Clone)]
pub enum Item {
    In(usize),
    K(bool),
    Unknown,
    Not(u32),
    Xor(u32, u32),
    And(u32, u32),
    Or(u32, u32),
    Eqv(u32, u32),
    Id(u32),
    Fun(Fun, Vec<u32>),
    Pick(u32, u32),
}

/// a run of inputs that is one number
#[derive(Clone)]
pub struct Group {
    pub start: usize,
    pub len: usize,
    /// 0: any value; otherwise the value must be below this
    pub modulus: u128,
}

#[derive(Clone, Default)]
pub struct MCirc {
    pub items: Vec<Item>,
    pub inputs: Vec<u32>,
    pub outputs: Vec<u32>,
    pub groups: Vec<Group>,
    pub pinned: Vec<(usize, bool)>,
}

pub enum Val {
    B(B),
    V(Vec<B>),
}

impl MCirc {
    pub fn push(&mut self, i: Item) -> u32 {
        self.items.push(i);
        self.items.len() as u32 - 1
    }
    pub fn add_input(&mut self) -> u32 {
        let k = self.inputs.len();
        let i = self.push(Item::In(k));
        self.inputs.push(i);
        i
    }
    pub fn fun(&mut self, f: Fun, args: Vec<u32>, n: usize) -> Vec<u32> {
        let x = self.push(Item::Fun(f, args));
        (0..n as u32).map(|k| self.push(Item::Pick(x, k))).collect()
    }
}

pub fn to_num(b: &[B]) -> Option<u128> {
    let mut v = 0u128;
    for (i, x) in b.iter().enumerate() {
        if *x == U || i >= 128 && *x != 0 {
            return None;
        }
        if i < 128 {
            v |= (*x as u128) << i;
        }
    }
    Some(v)
}
pub fn to_bits(v: u128, n: usize) -> Vec<B> {
    (0..n).map(|i| if i < 128 { (v >> i & 1) as u8 } else { 0 }).collect()
}
fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}
fn signed(v: u128, n: usize) -> i128 {
    if n >= 128 {
        v as i128
    } else if v >> (n - 1) & 1 == 1 {
        v as i128 - (1i128 << n)
    } else {
        v as i128
    }
}
fn bb(b: bool) -> Vec<B> {
    vec![b as u8]
}

pub const INT_OPS: u32 = 18;
pub const INT_NAMES: [&str; 18] = [
    "add", "add_assign", "sub", "sub_assign", "mul", "mul_assign", "neg", "shift_left", "shift_right", "eq", "neq", "less",
    "less_or_eq", "larger", "larger_or_eq", "mul_extend", "zero", "one",
];
pub const BITS_NAMES: [&str; 10] =
    ["not", "and", "or", "xor", "and_assign", "or_assign", "xor_assign", "eq", "neq", "mux"];
pub const FP_NAMES: [&str; 11] =
    ["add", "add_assign", "sub", "sub_assign", "neg", "eq", "neq", "zero", "one", "mul", "mul_assign"];

pub fn int_out(op: u32, n: usize) -> usize {
    match op {
        9..=14 => 1,
        15 => 2 * n,
        _ => n,
    }
}
pub fn bits_out(op: u32, n: usize) -> usize {
    if op == 7 || op == 8 {
        1
    } else {
        n
    }
}
pub fn fp_out(op: u32, n: usize) -> usize {
    if op == 5 || op == 6 {
        1
    } else {
        n
    }
}

fn int_fun(op: u32, n: usize, k: usize, a: &[B]) -> Vec<B> {
    let no = int_out(op, n);
    let unk = vec![U; no];
    match op {
        16 => return to_bits(0, n),
        17 => return to_bits(1, n),
        7 => return (0..n).map(|i| if i < k { 0 } else { a[i - k] }).collect(),
        8 => return (0..n).map(|i| a[(i + k).min(n - 1)]).collect(),
        _ => {}
    }
    if n > 126 || op == 15 && n > 64 {
        return wide_fun(op, n, a).unwrap_or(unk);
    }
    let x = match to_num(&a[..n]) {
        Some(x) => x,
        None => return unk,
    };
    if op == 6 {
        return to_bits(x.wrapping_neg() & mask(n), n);
    }
    let y = match to_num(&a[n..2 * n]) {
        Some(y) => y,
        None => return unk,
    };
    let (sx, sy) = (signed(x, n), signed(y, n));
    match op {
        0 | 1 => to_bits(x.wrapping_add(y) & mask(n), n),
        2 | 3 => to_bits(x.wrapping_sub(y) & mask(n), n),
        4 | 5 => to_bits(x.wrapping_mul(y) & mask(n), n),
        9 => bb(x == y),
        10 => bb(x != y),
        11 => bb(sx < sy),
        12 => bb(sx <= sy),
        13 => bb(sx > sy),
        14 => bb(sx >= sy),
        15 => to_bits(x.wrapping_mul(y), 2 * n),
        _ => unk,
    }
}

/// Digit by digit, for words that no machine number holds.
fn wide_fun(op: u32, n: usize, a: &[B]) -> Option<Vec<B>> {
    if a.contains(&U) {
        return None;
    }
    let sum = |x: &[B], y: &[B], mut carry: B| -> Vec<B> {
        (0..n)
            .map(|i| {
                let t = x[i] + y[i] + carry;
                carry = t >> 1;
                t & 1
            })
            .collect()
    };
    let inv = |x: &[B]| -> Vec<B> { x.iter().map(|b| 1 - b).collect() };
    let x = &a[..n];
    if op == 6 {
        return Some(sum(&vec![0; n], &inv(x), 1));
    }
    let y = &a[n..2 * n];
    let key = |v: &[B]| -> Vec<B> {
        let mut k: Vec<B> = v.iter().rev().copied().collect();
        k[0] = 1 - k[0];
        k
    };
    Some(match op {
        0 | 1 => sum(x, y, 0),
        2 | 3 => sum(x, &inv(y), 1),
        9 => bb(x == y),
        10 => bb(x != y),
        11 => bb(key(x) < key(y)),
        12 => bb(key(x) <= key(y)),
        13 => bb(key(x) > key(y)),
        14 => bb(key(x) >= key(y)),
        4 | 5 | 15 => {
            // column sums, as on paper
            let no = if op == 15 { 2 * n } else { n };
            let mut column = vec![0u32; no];
            for i in 0..n {
                for j in 0..n.min(no - i) {
                    column[i + j] += (x[i] & y[j]) as u32;
                }
            }
            let mut carry = 0;
            column
                .iter()
                .map(|c| {
                    let t = c + carry;
                    carry = t >> 1;
                    (t & 1) as B
                })
                .collect()
        }
        _ => return None,
    })
}

fn bits_fun(op: u32, n: usize, a: &[B]) -> Vec<B> {
    let z = |f: fn(B, B) -> B| -> Vec<B> { (0..n).map(|i| f(a[i], a[n + i])).collect() };
    match op {
        0 => a[..n].iter().map(|x| b_not(*x)).collect(),
        1 | 4 => z(b_and),
        2 | 5 => z(b_or),
        3 | 6 => z(b_xor),
        7 => vec![(0..n).fold(1, |e, i| b_and(e, b_not(b_xor(a[i], a[n + i]))))],
        8 => vec![b_not((0..n).fold(1, |e, i| b_and(e, b_not(b_xor(a[i], a[n + i])))))],
        _ => {
            let s = a[2 * n];
            (0..n)
                .map(|i| match s {
                    1 => a[n + i],
                    0 => a[i],
                    _ => U,
                })
                .collect()
        }
    }
}

fn fp_fun(op: u32, n: usize, p: u128, a: &[B]) -> Vec<B> {
    let unk = vec![U; fp_out(op, n)];
    match op {
        7 => return to_bits(0, n),
        8 => return to_bits(1, n),
        _ => {}
    }
    let x = match to_num(&a[..n]) {
        Some(x) if x < p => x,
        _ => return unk,
    };
    if op == 4 {
        return to_bits((p - x) % p, n);
    }
    let y = match to_num(&a[n..2 * n]) {
        Some(y) if y < p => y,
        _ => return unk,
    };
    match op {
        0 | 1 => to_bits((x + y) % p, n),
        2 | 3 => to_bits((x + p - y) % p, n),
        5 => bb(x == y),
        6 => bb(x != y),
        _ => to_bits(x * y % p, n),
    }
}

pub const LIBS: u32 = 7;
pub const LIB_NAMES: [&str; 7] = ["adder64", "sub64", "neg64", "mult2_64", "divide_signed_64", "divide_unsigned_64", "aes128"];
/// (inputs, outputs)
pub fn lib_shape(k: u32) -> (usize, usize) {
    match k {
        0 | 1 | 4 | 5 => (128, 64),
        2 => (64, 64),
        3 => (128, 128),
        _ => (256, 128),
    }
}

fn lib_fun(k: u32, a: &[B]) -> Vec<B> {
    let (_, no) = lib_shape(k);
    let unk = vec![U; no];
    if k == 6 {
        if a.contains(&U) {
            return unk;
        }
        return aes::doc_encrypt(a);
    }
    let x = match to_num(&a[..64]) {
        Some(x) => x as u64,
        None => return unk,
    };
    if k == 2 {
        return to_bits(x.wrapping_neg() as u128, 64);
    }
    let y = match to_num(&a[64..128]) {
        Some(y) => y as u64,
        None => return unk,
    };
    match k {
        0 => to_bits(x.wrapping_add(y) as u128, 64),
        1 => to_bits(x.wrapping_sub(y) as u128, 64),
        3 => {
            let v = x as u128 * y as u128;
            // the document's two groups: high word, low word
            to_bits(v.rotate_right(64), 128)
        }
        4 => {
            if y == 0 {
                unk
            } else {
                to_bits((x as i64).wrapping_div(y as i64) as u64 as u128, 64)
            }
        }
        _ => {
            if y == 0 {
                unk
            } else {
                to_bits((x / y) as u128, 64)
            }
        }
    }
}

pub fn real_eval(c: &CRef, inputs: &[bool]) -> Option<Vec<bool>> {
    let c = c.clone();
    crate::stream::quiet(|| NXAOBoolEvaluator::new(c).eval_output(inputs).ok()).ok().flatten()
}

/// Values of every item of circuit `i` (items defined so far) on `inputs`.
pub fn eval(cs: &[&MCirc], i: usize, inputs: &[B]) -> Vec<Val> {
    let m = cs[i];
    eval_items(cs, &m.items, inputs)
}

fn eval_items(cs: &[&MCirc], items: &[Item], inputs: &[B]) -> Vec<Val> {
    let mut v: Vec<Val> = Vec::with_capacity(items.len());
    for it in items {
        let b = |v: &Vec<Val>, x: &u32| match &v[*x as usize] {
            Val::B(b) => *b,
            _ => U,
        };
        let r = match it {
            Item::In(k) => Val::B(*inputs.get(*k).unwrap_or(&U)),
            Item::K(x) => Val::B(*x as u8),
            Item::Unknown => Val::B(U),
            Item::Not(a) => Val::B(b_not(b(&v, a))),
            Item::Id(a) => Val::B(b(&v, a)),
            Item::Xor(x, y) => Val::B(b_xor(b(&v, x), b(&v, y))),
            Item::Eqv(x, y) => Val::B(b_not(b_xor(b(&v, x), b(&v, y)))),
            Item::And(x, y) => Val::B(b_and(b(&v, x), b(&v, y))),
            Item::Or(x, y) => Val::B(b_or(b(&v, x), b(&v, y))),
            Item::Pick(f, k) => Val::B(match &v[*f as usize] {
                Val::V(w) => *w.get(*k as usize).unwrap_or(&U),
                _ => U,
            }),
            Item::Fun(f, args) => {
                let a: Vec<B> = args.iter().map(|x| b(&v, x)).collect();
                Val::V(match f {
                    Fun::Module(j, no) => {
                        let m = cs[*j];
                        first_outs(cs, m, &a, *no)
                    }
                    Fun::Frozen(j, ni, no) => {
                        let m = cs[*j];
                        first_outs(cs, m, &a[..*ni], *no)
                    }
                    Fun::Doc(d) => d.eval(&a),
                    Fun::Real(c) => {
                        if a.contains(&U) {
                            vec![U; c.output_len()]
                        } else {
                            let x: Vec<bool> = a.iter().map(|x| *x == 1).collect();
                            match real_eval(c, &x) {
                                Some(o) => o.iter().map(|x| *x as u8).collect(),
                                None => vec![U; c.output_len()],
                            }
                        }
                    }
                    Fun::Int { op, n, k } => int_fun(*op, *n, *k, &a),
                    Fun::Bits { op, n } => bits_fun(*op, *n, &a),
                    Fun::Fp { op, n, p } => fp_fun(*op, *n, *p, &a),
                    Fun::Lib(k) => lib_fun(*k, &a),
                })
            }
        };
        v.push(r);
    }
    v
}

/// Only what the outputs can depend on is evaluated: the circuit may have grown since, even by instances
/// of what was imported from it.
fn first_outs(cs: &[&MCirc], m: &MCirc, inputs: &[B], n: usize) -> Vec<B> {
    let o = &m.outputs[..n];
    let end = o.iter().map(|x| *x as usize + 1).max().unwrap_or(0);
    outs(&eval_items(cs, &m.items[..end], inputs), o)
}

pub fn outs(v: &[Val], o: &[u32]) -> Vec<B> {
    o.iter()
        .map(|x| match &v[*x as usize] {
            Val::B(b) => *b,
            _ => U,
        })
        .collect()
}

//! Sixty-four input vectors at once over a real circuit: the circuit's gates are read through its public
//! interface and folded into straight-line programs, one per module.
use circuit_converters::*;
use std::collections::HashMap;

type C = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;

enum Step {
    In(u32),
    K(bool),
    Not(u32),
    Xor(u32, u32),
    And(u32, u32),
    Or(u32, u32),
    Call(u32, Vec<u32>),
    Pick(u32, u32),
}

struct Prog {
    n_in: usize,
    steps: Vec<Step>,
    outs: Vec<u32>,
    calls: u32,
    cost: u64,
}

pub struct Lanes {
    progs: Vec<Prog>,
    top: usize,
}

struct Fold {
    progs: Vec<Prog>,
    of: HashMap<usize, usize>,
    budget: usize,
}

impl Lanes {
    /// None when the circuit uses anything this fold does not know, is too large, or is ill-formed: the
    /// evaluator under test decides alone then.
    pub fn of(c: &C, budget: usize) -> Option<Self> {
        let mut f = Fold { progs: vec![], of: HashMap::new(), budget };
        let top = f.circuit(c, 0)?;
        if f.progs[top].cost > 4_000_000 {
            return None;
        }
        Some(Lanes { progs: f.progs, top })
    }

    /// `ins[k]`: the 64 values of input `k`.
    pub fn eval(&self, ins: &[u64]) -> Vec<u64> {
        self.run(self.top, ins)
    }

    fn run(&self, p: usize, ins: &[u64]) -> Vec<u64> {
        let p = &self.progs[p];
        let mut v: Vec<u64> = Vec::with_capacity(p.steps.len());
        let mut calls: Vec<Vec<u64>> = Vec::with_capacity(p.calls as usize);
        for s in &p.steps {
            let x = match s {
                Step::In(k) => ins[*k as usize],
                Step::K(b) => {
                    if *b {
                        !0
                    } else {
                        0
                    }
                }
                Step::Not(a) => !v[*a as usize],
                Step::Xor(a, b) => v[*a as usize] ^ v[*b as usize],
                Step::And(a, b) => v[*a as usize] & v[*b as usize],
                Step::Or(a, b) => v[*a as usize] | v[*b as usize],
                Step::Call(q, args) => {
                    let a: Vec<u64> = args.iter().map(|x| v[*x as usize]).collect();
                    calls.push(self.run(*q as usize, &a));
                    calls.len() as u64 - 1
                }
                Step::Pick(call, k) => calls[v[*call as usize] as usize][*k as usize],
            };
            v.push(x);
        }
        p.outs.iter().map(|o| v[*o as usize]).collect()
    }
}

impl Fold {
    fn circuit(&mut self, c: &C, depth: usize) -> Option<usize> {
        let at = &*c.borrow() as *const NXAOBoolCircuit as usize;
        if let Some(p) = self.of.get(&at) {
            return Some(*p);
        }
        if depth > 40 {
            return None;
        }
        let n_in = c.input_len();
        let mut p = Prog { n_in, steps: vec![], outs: vec![], calls: 0, cost: 0 };
        let mut step: HashMap<GateId, u32> = HashMap::new();
        let mut call: HashMap<(usize, Vec<u32>), u32> = HashMap::new();
        for k in 0..n_in {
            let g = c.input_to_gate_id(&WireId(k as u64)).ok()??;
            step.insert(g, k as u32);
            p.steps.push(Step::In(k as u32));
        }
        for k in 0..c.output_len() {
            let out = c.output_to_gate_id(&WireId(k as u64)).ok()?;
            let mut todo = vec![out];
            while let Some(g) = todo.last().copied() {
                if step.contains_key(&g) {
                    todo.pop();
                    continue;
                }
                let gate = c.get_gate(&g).ok()?;
                let missing = |ids: &[GateId]| -> Vec<GateId> { ids.iter().rev().filter(|i| !step.contains_key(i)).copied().collect() };
                let need = match &gate {
                    NXAOBoolGate::Const(_) => vec![],
                    NXAOBoolGate::Not(x) => missing(&[x.id]),
                    NXAOBoolGate::Xor(x) => missing(&[x.left_id, x.right_id]),
                    NXAOBoolGate::And(x) => missing(&[x.left_id, x.right_id]),
                    NXAOBoolGate::Or(x) => missing(&[x.left_id, x.right_id]),
                    NXAOBoolGate::Module(x) => missing(&x.input_ids),
                    #[allow(unreachable_patterns)]
                    _ => return None,
                };
                if !need.is_empty() {
                    if todo.len() > 1_000_000 {
                        return None;
                    }
                    todo.extend(need);
                    continue;
                }
                self.budget = self.budget.checked_sub(1)?;
                let s = match &gate {
                    NXAOBoolGate::Const(x) => Step::K(x.value),
                    NXAOBoolGate::Not(x) => Step::Not(step[&x.id]),
                    NXAOBoolGate::Xor(x) => Step::Xor(step[&x.left_id], step[&x.right_id]),
                    NXAOBoolGate::And(x) => Step::And(step[&x.left_id], step[&x.right_id]),
                    NXAOBoolGate::Or(x) => Step::Or(step[&x.left_id], step[&x.right_id]),
                    NXAOBoolGate::Module(x) => {
                        let m = c.get_module(&x.module_id).ok()?;
                        let q = self.circuit(&m, depth + 1)?;
                        let args: Vec<u32> = x.input_ids.iter().map(|i| step[i]).collect();
                        if args.len() != self.progs[q].n_in || x.out_index >= self.progs[q].outs.len() {
                            return None;
                        }
                        let key = (q, args);
                        let at = match call.get(&key) {
                            Some(at) => *at,
                            None => {
                                let at = p.steps.len() as u32;
                                p.steps.push(Step::Call(q as u32, key.1.clone()));
                                p.calls += 1;
                                p.cost = p.cost.saturating_add(self.progs[q].cost);
                                call.insert(key, at);
                                at
                            }
                        };
                        Step::Pick(at, x.out_index as u32)
                    }
                    #[allow(unreachable_patterns)]
                    _ => return None,
                };
                step.insert(g, p.steps.len() as u32);
                p.steps.push(s);
                todo.pop();
            }
            p.outs.push(step[&out]);
        }
        p.cost = p.cost.saturating_add(p.steps.len() as u64);
        self.progs.push(p);
        self.of.insert(at, self.progs.len() - 1);
        Some(self.progs.len() - 1)
    }
}

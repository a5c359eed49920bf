//! What requests that add nothing take from memory, and what they leave there.
use crate::mem;
use crate::prng::Rng;
use crate::stream::{quiet, Injected};
use crate::model::CRef;
use crate::world::{operands, W};
use circuit_converters::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{self, BufReader, BufWriter, Read, Write};
use std::panic::resume_unwind;
use std::rc::Rc;

pub const KINDS: u32 = 13;
const REPS: usize = 7;
/// circuits beyond this are not measured
const MOST: u64 = 600_000;
/// bytes a request may take altogether per unit of size (the library takes up to about 90)
const PER: u64 = 1500;
const BASE: u64 = 64 << 10;

/// A stream that keeps nothing: pieces of one size, an interruption now and then, at `end` an error or a panic.
struct Plain {
    doc: Rc<Vec<u8>>,
    at: usize,
    piece: usize,
    calls: usize,
    end: usize,
    how: u8,
}

impl Plain {
    fn stop(&mut self) -> io::Result<()> {
        self.calls += 1;
        if self.how & 8 != 0 && self.calls % 3 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.at >= self.end {
            match self.how & 3 {
                1 => return Err(io::ErrorKind::TimedOut.into()),
                2 => resume_unwind(Box::new(Injected)),
                _ => {}
            }
        }
        Ok(())
    }
}

impl Read for Plain {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.stop()?;
        let n = self.piece.min(b.len()).min(self.doc.len() - self.at);
        b[..n].copy_from_slice(&self.doc[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

impl Write for Plain {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.stop()?;
        let n = self.piece.min(b.len());
        self.at += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// How much there is in what the circuit's outputs stand on: gates with their operands and dependents, outputs, and
/// for every instance the module's own size and a table of its arguments by its outputs.
fn size(h: &CRef, memo: &mut HashMap<ModuleId, u64>, deep: u32) -> Option<u64> {
    if deep > 40 {
        return None;
    }
    let mut x = 8 + h.num_const() as u64 + h.input_len() as u64;
    let mut seen = HashSet::new();
    let mut todo = vec![];
    for k in 0..h.input_len() {
        if let Some(g) = h.input_to_gate_id(&WireId(k as u64)).ok()? {
            seen.insert(g);
            x += 1 + h.get_depended_gates(&g).ok()?.len() as u64;
        }
    }
    for k in 0..h.output_len() {
        let g = h.output_to_gate_id(&WireId(k as u64)).ok()?;
        x += 1 + operands(&h.get_gate(&g).ok()?).len() as u64;
        todo.push(g);
    }
    while let Some(g) = todo.pop() {
        if !seen.insert(g) {
            continue;
        }
        let gate = h.get_gate(&g).ok()?;
        x += 1 + h.get_depended_gates(&g).ok()?.len() as u64 + operands(&gate).len() as u64;
        if let NXAOBoolGate::Module(m) = &gate {
            // all of the instance's outputs are there once one is
            let first = GateId(g.0 - m.out_index as u64);
            for k in 0..m.output_len {
                let o = GateId(first.0 + k as u64);
                if seen.insert(o) {
                    x += 1 + h.get_depended_gates(&o).ok()?.len() as u64 + m.input_ids.len() as u64;
                }
            }
            let inner = match memo.get(&m.module_id) {
                Some(s) => *s,
                None => {
                    let s = size(&h.get_module(&m.module_id).ok()?, memo, deep + 1)?;
                    memo.insert(m.module_id, s);
                    s
                }
            };
            x += inner + (m.input_ids.len() * m.output_len) as u64;
        }
        if x > MOST {
            return None;
        }
        todo.extend(operands(&gate));
    }
    Some(x)
}

/// The document, with one of its numbers that promise something (lines, wires, outputs, operands) made larger.  The
/// sizes of input groups stay: a document that asks for that many inputs gets them.
fn boast(doc: &[u8], r: &mut Rng) -> Vec<u8> {
    let text = String::from_utf8_lossy(doc);
    let mut lines: Vec<String> = text.lines().map(str::to_string).collect();
    let much = match r.below(4) {
        0 => 1u64 << r.range(16, 33),
        1 => 1u64 << r.range(30, 63),
        2 => u64::MAX - r.below(3),
        _ => 10_000_000 + r.below(1_000_000_000),
    };
    let (line, field) = match r.below(6) {
        0 => (0, 0),
        1 => (0, 1),
        2 => (2, 0),
        3 => (2, 1),
        _ if lines.len() > 4 => (r.range(4, lines.len() as u64 - 1) as usize, r.below(4) as usize),
        _ => (0, 1),
    };
    if let Some(l) = lines.get_mut(line) {
        let mut f: Vec<String> = l.split(' ').map(str::to_string).collect();
        if field < f.len() && f[field].parse::<u64>().is_ok() {
            f[field] = much.to_string();
        }
        *l = f.join(" ");
    }
    (lines.join("\n") + "\n").into_bytes()
}

pub fn spend(w: &Rc<RefCell<W>>, c: u32, kind: u32, seed: u32) -> bool {
    let mut b = w.borrow_mut();
    let (ci, h) = b.circuit(c);
    let mut memo = HashMap::new();
    let x = match quiet(|| size(&h, &mut memo, 0)) {
        Ok(Some(x)) => x,
        _ => return false,
    };
    let mut r = Rng::new(seed as u64 ^ 0x5BE4D);
    let n_in = h.input_len();
    let all = n_in + h.num_const();
    let first = r.below(all as u64 + 1) as usize;
    let vs: Vec<Vec<bool>> = (0..REPS).map(|_| b.vector(ci, &mut r)).collect();
    let piece = *r.pick(&[1usize, 7, 64, 1000, 8192]);
    let cap = *r.pick(&[16usize, 300, 8192]);
    let how = r.below(16) as u8;
    let where_ = r.below(1001) as usize;
    let kind = kind % KINDS;
    let mut doc = Rc::new(vec![]);
    if (3..=7).contains(&kind) || kind == 12 {
        let got = quiet(|| {
            let mut wr = BristolNXAOWriter::new(h.clone(), BufWriter::new(vec![]));
            wr.write(first, None)?;
            wr.writer.flush()?;
            Ok::<_, BristolError>(wr.writer.get_ref().clone())
        });
        match got {
            Ok(Ok(d)) => doc = Rc::new(d),
            // judged elsewhere
            _ => return false,
        }
    }
    let tall: Vec<Vec<u8>> = if kind == 12 { (0..REPS).map(|_| boast(&doc, &mut r)).collect() } else { vec![] };
    // failing and healthy turns alternate
    let stream = |i: usize| Plain {
        doc: doc.clone(),
        at: 0,
        piece,
        calls: 0,
        end: if i % 2 == 0 { doc.len() * where_ / 1000 } else { usize::MAX },
        how,
    };
    // a copy also holds what no output stands on
    let x = x + doc.len() as u64 / 4;
    let bound = if kind == 8 { u64::MAX / 16 } else { PER * x + BASE };
    let names = [
        "evaluating through an evaluator of its own",
        "evaluating through one evaluator",
        "offering a vector of another length",
        "writing through a writer of its own",
        "writing through one writer",
        "loading its document through a loader of its own",
        "loading its document through one loader",
        "loading a part of its document",
        "copying and comparing",
        "asking questions",
        "asking for what does not exist",
        "asking modules",
        "loading its document with a number made large",
    ];
    let ev = RefCell::new(NXAOBoolEvaluator::new(h.clone()));
    let mut rd = BristolNXAOReader::new();
    let mut wr = BristolNXAOWriter::new(h.clone(), BufWriter::with_capacity(cap, stream(1)));
    let load = |rd: &mut BristolNXAOReader, i: usize| {
        let mut into = NXAOBoolCircuit::new(ModuleStorageRef::new()).to_ref();
        let _ = quiet(|| rd.read(BufReader::with_capacity(cap, stream(i)), &mut into).is_ok());
    };
    let write = |wr: &mut BristolNXAOWriter<Plain>, i: usize| {
        wr.writer = BufWriter::with_capacity(cap, stream(i));
        let mut m = HashMap::new();
        let _ = quiet(|| wr.write(first, if i & 2 == 0 { None } else { Some(&mut m) }).is_ok());
        let old = std::mem::replace(&mut wr.writer, BufWriter::with_capacity(0, stream(1)));
        drop(old.into_parts());
    };
    let top = h.output_len();
    let mut lives = [0i64; REPS];
    let mut most = 0;
    let mut turn = |i: usize, v: &[bool]| {
        let (t, _) = mem::spent(bound * 8, || match kind {
            0 => drop(quiet(|| NXAOBoolEvaluator::new(h.clone()).eval_output(v).is_ok())),
            1 => drop(quiet(|| ev.borrow_mut().eval_output(v).is_ok())),
            2 => {
                let v = if v.is_empty() || seed & 1 == 0 { [v, &[true]].concat() } else { v[1..].to_vec() };
                drop(quiet(|| ev.borrow_mut().eval_output(&v).is_ok()))
            }
            3 => write(&mut BristolNXAOWriter::new(h.clone(), BufWriter::with_capacity(0, stream(1))), i),
            4 => write(&mut wr, i),
            5 => load(&mut BristolNXAOReader::new(), i),
            6 => load(&mut rd, i),
            7 => {
                let mut into = NXAOBoolCircuit::new(ModuleStorageRef::new()).to_ref();
                let part = &doc[..doc.len() * where_ / 1000];
                let _ = quiet(|| rd.read(part, &mut into).is_ok());
            }
            8 => {
                let copy = h.borrow().clone();
                let _ = quiet(|| copy == *h.borrow());
            }
            9 => {
                for k in 0..top.min(50) {
                    let _ = quiet(|| {
                        let g = h.output_to_gate_id(&WireId(k as u64))?;
                        h.get_depended_gates(&g)?;
                        h.get_gate(&g).map(|g| operands(&g).len())
                    });
                }
                let _ = quiet(|| (h.get_const_gates().len(), h.num_wire(), h.num_gate()));
            }
            10 => {
                let mut h = h.clone();
                let no = GateId(u64::MAX - 7);
                let _ = quiet(|| (h.and(&no, &no).is_ok(), h.not(&no).is_ok(), h.output(no).is_ok(), h.identity(&no).is_ok()));
                let _ = quiet(|| (h.module(&ModuleId(u64::MAX - 7), &[no]).is_ok(), h.get_gate(&no).is_ok(), h.get_depended_gates(&no).is_ok()));
                let _ = quiet(|| (h.input_to_gate_id(&WireId(u64::MAX - 7)).is_ok(), h.output_to_gate_id(&WireId(u64::MAX - 7)).is_ok()));
            }
            12 => {
                let mut into = NXAOBoolCircuit::new(ModuleStorageRef::new()).to_ref();
                let _ = quiet(|| rd.read(&tall[i % REPS][..], &mut into).is_ok());
            }
            _ => {
                for m in memo.keys() {
                    let _ = quiet(|| h.get_module(m).map(|m| (m.input_len(), m.output_len(), m.num_gate())));
                    let mut h = h.clone();
                    // refused: no module takes as many
                    let _ = quiet(|| {
                        let n = h.get_module(m)?.input_len();
                        h.module(m, &vec![GateId(u64::MAX - 7); n + 1]).map(|g| g.len())
                    });
                }
            }
        });
        (t, mem::live())
    };
    for i in 0..REPS {
        let (t, l) = turn(i, &vs[i]);
        most = most.max(t);
        lives[i] = l;
    }
    let name = names[kind as usize];
    let mut grown = (3..REPS).map(|i| lives[i] - lives[i - 2]).max().unwrap();
    if grown > 0 {
        // room that is kept for the next turn stops growing; a leak does not
        let n = vs[0].len();
        let mut after = |m: usize| {
            let mut v: Vec<bool> = vec![];
            let mut l = 0;
            for i in 0..m {
                v.clear();
                v.extend((0..n).map(|_| r.below(2) == 1));
                l = turn(i + 1, &v).1;
            }
            drop(v);
            l
        };
        let (a, b) = (after(2 * REPS), after(4 * REPS));
        if a <= lives[REPS - 1] + n as i64 || b <= a {
            grown = 0;
        }
    }
    log_size(&mut b, name, ci, x, most);
    if grown > 0 {
        b.fail("memory-held", format!("{name} leaves up to {grown} bytes behind each time (circuit {ci})"));
    } else if most > bound {
        b.fail("memory-taken", format!("{name} takes more than {bound} bytes for a circuit of size {x} (circuit {ci})"));
    }
    true
}

fn log_size(b: &mut W, name: &'static str, ci: usize, x: u64, most: u64) {
    b.log(&format!("{name}: circuit {ci} of size {x}"));
    if x > 20_000 {
        b.probe("request measured over a circuit of size beyond 20000");
    }
    b.probe(name);
    if std::env::var("CSIM_RATIO").is_ok() {
        eprintln!("RATIO {} {x} {most} {name}", most.saturating_sub(16 << 10) / x.max(1));
    }
}

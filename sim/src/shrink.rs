//! Minimises a failing plan: fewer requests, fewer faults, plainer streams, smaller documents.
use crate::plan::*;
use std::time::{Duration, Instant};

pub struct Budget {
    pub until: Instant,
    pub left: u32,
}

fn fits<T>(b: &mut Budget, p: &T, f: &mut dyn FnMut(&T) -> bool) -> bool {
    if b.left == 0 || Instant::now() > b.until {
        return false;
    }
    b.left -= 1;
    f(p)
}

/// delta debugging over a list inside the plan
fn ddmin(p: &mut Plan, b: &mut Budget, get: &dyn Fn(&mut Plan) -> Option<&mut Vec<Step>>, f: &mut dyn FnMut(&Plan) -> bool) -> bool {
    let mut changed = false;
    let mut size = match get(p) {
        Some(v) => v.len().div_ceil(2).max(1),
        None => return false,
    };
    loop {
        let mut i = 0;
        let mut any = false;
        loop {
            let n = get(p).map_or(0, |v| v.len());
            if i >= n {
                break;
            }
            let mut q = p.clone();
            if let Some(v) = get(&mut q) {
                v.drain(i..(i + size).min(n));
            }
            if fits(b, &q, f) {
                *p = q;
                any = true;
                changed = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        if size > 1 {
            size /= 2;
        }
        if b.left == 0 || Instant::now() > b.until {
            break;
        }
    }
    changed
}

fn plainer_src(s: &Src) -> Vec<Src> {
    let mut v = vec![];
    for i in 0..s.faults.len() {
        let mut t = s.clone();
        t.faults.remove(i);
        v.push(t);
    }
    if !s.chunks.is_empty() {
        v.push(Src { chunks: vec![], ..s.clone() });
    }
    if s.cap != 0 {
        v.push(Src { cap: 0, ..s.clone() });
    }
    for i in 0..s.faults.len() {
        for k in plainer_fault(&s.faults[i].kind) {
            let mut t = s.clone();
            t.faults[i].kind = k;
            v.push(t);
        }
    }
    v
}

fn plainer_fault(k: &FaultKind) -> Vec<FaultKind> {
    match k {
        FaultKind::Eintr(n) if *n > 1 => vec![FaultKind::Eintr(1), FaultKind::Eintr(*n / 2), FaultKind::Eintr(*n - 1)],
        FaultKind::Err { kind, sticky } if *kind != 0 => vec![FaultKind::Err { kind: 0, sticky: *sticky }],
        FaultKind::Pump(s) => {
            let mut v = vec![];
            for i in 0..s.len() {
                let mut t = s.clone();
                t.remove(i);
                v.push(FaultKind::Pump(t));
            }
            for i in 0..s.len() {
                for op in plainer(&s[i].op) {
                    let mut t = s.clone();
                    t[i].op = op;
                    v.push(FaultKind::Pump(t));
                }
            }
            v
        }
        _ => vec![],
    }
}

fn plainer_sink(s: &SinkScript) -> Vec<SinkScript> {
    let mut v = vec![];
    for i in 0..s.faults.len() {
        let mut t = s.clone();
        t.faults.remove(i);
        v.push(t);
    }
    if !s.chunks.is_empty() {
        v.push(SinkScript { chunks: vec![], ..s.clone() });
    }
    if s.cap != 8192 {
        v.push(SinkScript { cap: 8192, ..s.clone() });
    }
    if s.flush_err.is_some() {
        v.push(SinkScript { flush_err: None, ..s.clone() });
    }
    if s.crash {
        v.push(SinkScript { crash: false, ..s.clone() });
    }
    for i in 0..s.faults.len() {
        for k in plainer_fault(&s.faults[i].kind) {
            let mut t = s.clone();
            t.faults[i].kind = k;
            v.push(t);
        }
    }
    v
}

fn plainer_refusal(r: &Refusal) -> Vec<Refusal> {
    let mut v = vec![];
    if r.at > 0 {
        v.push(Refusal { at: 0, how: 0, sticky: false });
        for at in [r.at / 2, r.at - 1] {
            if at > 0 {
                v.push(Refusal { at, ..*r });
            }
        }
        if r.sticky {
            v.push(Refusal { sticky: false, ..*r });
        }
    }
    v
}

fn plainer(op: &Op) -> Vec<Op> {
    let mut v = vec![];
    match op {
        Op::Load { c, slot, doc, src } => {
            let mk = |doc: DocSpec, src: Src, slot: u8| Op::Load { c: *c, slot, doc, src };
            for s in plainer_src(src) {
                v.push(mk(doc.clone(), s, *slot));
            }
            if *slot != 0 {
                v.push(mk(doc.clone(), src.clone(), 0));
            }
            if doc.style != 0 {
                v.push(mk(DocSpec { style: 0, ..doc.clone() }, src.clone(), *slot));
                v.push(mk(DocSpec { style: doc.style & 0x30, ..doc.clone() }, src.clone(), *slot));
            }
            if doc.gates > 0 {
                v.push(mk(DocSpec { gates: doc.gates / 2, ..doc.clone() }, src.clone(), *slot));
                v.push(mk(DocSpec { gates: doc.gates - doc.gates / 4, ..doc.clone() }, src.clone(), *slot));
                v.push(mk(DocSpec { gates: doc.gates - doc.gates / 16, ..doc.clone() }, src.clone(), *slot));
                v.push(mk(DocSpec { gates: doc.gates - 1, ..doc.clone() }, src.clone(), *slot));
            }
            for i in 0..doc.ins.len() {
                let mut d = doc.clone();
                if d.ins[i] > 0 {
                    d.ins[i] -= 1;
                    v.push(mk(d.clone(), src.clone(), *slot));
                }
                let mut d = doc.clone();
                d.ins.remove(i);
                v.push(mk(d, src.clone(), *slot));
            }
            for i in 0..doc.outs.len() {
                let mut d = doc.clone();
                if d.outs[i] > 0 {
                    d.outs[i] -= 1;
                    v.push(mk(d.clone(), src.clone(), *slot));
                }
                let mut d = doc.clone();
                d.outs.remove(i);
                v.push(mk(d, src.clone(), *slot));
            }
            match &doc.damage {
                Damage::None => {}
                Damage::Bytes(x) if x.len() > 1 => {
                    for i in 0..x.len() {
                        let mut y = x.clone();
                        y.remove(i);
                        v.push(mk(DocSpec { damage: Damage::Bytes(y), ..doc.clone() }, src.clone(), *slot));
                    }
                }
                _ => v.push(mk(DocSpec { damage: Damage::None, ..doc.clone() }, src.clone(), *slot)),
            }
        }
        Op::BLoad { c, slot, doc, src, no } => {
            let base = Op::Load { c: *c, slot: *slot, doc: doc.clone(), src: src.clone() };
            for op in plainer(&base) {
                if let Op::Load { c, slot, doc, src } = op {
                    v.push(Op::BLoad { c, slot, doc, src, no: *no });
                }
            }
            for no in plainer_refusal(no) {
                v.push(Op::BLoad { c: *c, slot: *slot, doc: doc.clone(), src: src.clone(), no });
            }
        }
        Op::BReq { c, kind, a, b, no } => {
            for no in plainer_refusal(no) {
                v.push(Op::BReq { c: *c, kind: *kind, a: *a, b: *b, no });
            }
        }
        Op::BLib { c, k, no } => {
            for no in plainer_refusal(no) {
                v.push(Op::BLib { c: *c, k: *k, no });
            }
        }
        Op::BCfg { c, fam, n, no } => {
            for no in plainer_refusal(no) {
                v.push(Op::BCfg { c: *c, fam: *fam, n: *n, no });
            }
            if *n > 0 {
                v.push(Op::BCfg { c: *c, fam: *fam, n: 0, no: *no });
                v.push(Op::BCfg { c: *c, fam: *fam, n: n - 1, no: *no });
            }
        }
        Op::BWord { g, kind, op, a, b, k, no } => {
            for no in plainer_refusal(no) {
                v.push(Op::BWord { g: *g, kind: *kind, op: *op, a: *a, b: *b, k: *k, no });
            }
        }
        Op::Write { c, slot, first, map, sink } => {
            for s in plainer_sink(sink) {
                v.push(Op::Write { c: *c, slot: *slot, first: *first, map: *map, sink: s });
            }
            if *slot != 0 {
                v.push(Op::Write { c: *c, slot: 0, first: *first, map: *map, sink: sink.clone() });
            }
            if *first != 0 {
                v.push(Op::Write { c: *c, slot: *slot, first: 0, map: *map, sink: sink.clone() });
            }
            if *map {
                v.push(Op::Write { c: *c, slot: *slot, first: *first, map: false, sink: sink.clone() });
            }
        }
        Op::Relay { c, exports, imports } => {
            for i in 0..exports.len() {
                let mut e = exports.clone();
                e.remove(i);
                v.push(Op::Relay { c: *c, exports: e, imports: imports.clone() });
            }
            for i in 0..imports.len() {
                let mut m = imports.clone();
                m.remove(i);
                v.push(Op::Relay { c: *c, exports: exports.clone(), imports: m });
            }
            for i in 0..exports.len() {
                for s in plainer_sink(&exports[i].sink) {
                    let mut e = exports.clone();
                    e[i].sink = s;
                    v.push(Op::Relay { c: *c, exports: e, imports: imports.clone() });
                }
            }
            for i in 0..imports.len() {
                for s in plainer_src(&imports[i]) {
                    let mut m = imports.clone();
                    m[i] = s;
                    v.push(Op::Relay { c: *c, exports: exports.clone(), imports: m });
                }
            }
        }
        Op::Hand { c, fmt, seed, exports, imports } => {
            let mk = |e: Vec<Attempt>, m: Vec<Src>| Op::Hand { c: *c, fmt: *fmt, seed: *seed, exports: e, imports: m };
            for i in 0..exports.len() {
                let mut e = exports.clone();
                e.remove(i);
                v.push(mk(e, imports.clone()));
                for s in plainer_sink(&exports[i].sink) {
                    let mut e = exports.clone();
                    e[i].sink = s;
                    v.push(mk(e, imports.clone()));
                }
            }
            for i in 0..imports.len() {
                let mut m = imports.clone();
                m.remove(i);
                v.push(mk(exports.clone(), m));
                for s in plainer_src(&imports[i]) {
                    let mut m = imports.clone();
                    m[i] = s;
                    v.push(mk(exports.clone(), m));
                }
            }
            if *seed > 0 {
                v.push(Op::Hand { c: *c, fmt: *fmt, seed: seed / 2, exports: exports.clone(), imports: imports.clone() });
            }
        }
        Op::Burst { c, n, seed } if *n > 0 => {
            for k in [n / 2, n - n / 4, n - n.min(&8), n - 1] {
                if k < *n {
                    v.push(Op::Burst { c: *c, n: k, seed: *seed });
                }
            }
        }
        Op::Spend { c, kind, seed } if *seed > 0 => {
            v.push(Op::Spend { c: *c, kind: *kind, seed: seed / 2 });
            v.push(Op::Spend { c: *c, kind: *kind, seed: 0 });
        }
        Op::Bulk { c, n, kind, seed } if *n > 0 => {
            for k in [n / 2, n - n / 4, n - n / 16, n - n / 64, n - n.min(&8), n - 1] {
                if k < *n {
                    v.push(Op::Bulk { c: *c, n: k, kind: *kind, seed: *seed });
                }
            }
        }
        Op::Chain { c, n, kind, seed } if *n > 0 => {
            for k in [n / 2, n - n / 4, n - n / 16, n - n.min(&8), n - 1] {
                if k < *n {
                    v.push(Op::Chain { c: *c, n: k, kind: *kind, seed: *seed });
                }
            }
            if *kind != 0 {
                v.push(Op::Chain { c: *c, n: *n, kind: 0, seed: *seed });
            }
        }
        Op::Eval { c, slot, n, seed, skew } if *slot != 0 => {
            v.push(Op::Eval { c: *c, slot: 0, n: *n, seed: *seed, skew: *skew });
        }
        Op::GCfg { c, fam, n, p } if *n > 0 => {
            v.push(Op::GCfg { c: *c, fam: *fam, n: 0, p: *p });
            v.push(Op::GCfg { c: *c, fam: *fam, n: n - 1, p: *p });
        }
        _ => {}
    }
    v
}

pub fn shrink(plan: &Plan, secs: u64, fails: &mut dyn FnMut(&Plan) -> bool) -> Plan {
    let mut b = Budget { until: Instant::now() + Duration::from_secs(secs), left: 6000 };
    let mut p = plan.clone();
    for _ in 0..6 {
        let mut changed = ddmin(&mut p, &mut b, &|p| Some(&mut p.steps), fails);
        // one client
        if p.clients > 1 {
            let mut q = p.clone();
            q.clients = 1;
            for s in &mut q.steps {
                s.by = 0;
            }
            if fits(&mut b, &q, fails) {
                p = q;
                changed = true;
            }
        }
        let mut i = 0;
        while i < p.steps.len() {
            let mut again = true;
            while again {
                again = false;
                for op in plainer(&p.steps[i].op) {
                    let mut q = p.clone();
                    q.steps[i].op = op;
                    if fits(&mut b, &q, fails) {
                        p = q;
                        again = true;
                        changed = true;
                        break;
                    }
                }
                if b.left == 0 || Instant::now() > b.until {
                    return p;
                }
            }
            i += 1;
        }
        if !changed {
            break;
        }
    }
    p
}

//! Reference for the document format: strict parser, interpreter and generator.  Shares no code with the library.
use crate::plan::{Damage, DocSpec};
use crate::prng::Rng;

/// 0, 1, or 2 = unspecified
pub type B = u8;
pub const U: B = 2;

pub fn b_not(a: B) -> B {
    match a {
        0 => 1,
        1 => 0,
        _ => U,
    }
}
pub fn b_xor(a: B, b: B) -> B {
    if a == U || b == U {
        U
    } else {
        a ^ b
    }
}
pub fn b_and(a: B, b: B) -> B {
    if a == 0 || b == 0 {
        0
    } else if a == 1 && b == 1 {
        1
    } else {
        U
    }
}
pub fn b_or(a: B, b: B) -> B {
    b_not(b_and(b_not(a), b_not(b)))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum G {
    Inv,
    Xor,
    And,
    Or,
    Eqw,
    /// the operand is the constant 0 or 1, not a wire
    Eq,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub g: G,
    pub a: usize,
    pub b: usize,
    pub o: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub ins: Vec<usize>,
    pub outs: Vec<usize>,
    pub nw: usize,
    pub lines: Vec<Line>,
}

impl Doc {
    pub fn n_in(&self) -> usize {
        self.ins.iter().sum()
    }
    pub fn n_out(&self) -> usize {
        self.outs.iter().sum()
    }
    pub fn eval(&self, inputs: &[B]) -> Vec<B> {
        let w = self.wires(inputs);
        w[self.nw - self.n_out()..].to_vec()
    }
    pub fn wires(&self, inputs: &[B]) -> Vec<B> {
        let mut w = vec![U; self.nw];
        w[..inputs.len()].copy_from_slice(inputs);
        for l in &self.lines {
            w[l.o] = match l.g {
                G::Inv => b_not(w[l.a]),
                G::Eqw => w[l.a],
                G::Eq => l.a as B,
                G::Xor => b_xor(w[l.a], w[l.b]),
                G::And => b_and(w[l.a], w[l.b]),
                G::Or => b_or(w[l.a], w[l.b]),
            };
        }
        w
    }
}

fn int(t: &str) -> Result<usize, String> {
    if t.is_empty() || t.len() > 9 || !t.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("not a number: {t:?}"));
    }
    t.parse().map_err(|_| format!("not a number: {t:?}"))
}

fn fields(l: &str) -> Vec<&str> {
    l.split([' ', '\t', '\r']).filter(|t| !t.is_empty()).collect()
}

fn group_line(l: Option<&&str>, what: &str) -> Result<Vec<usize>, String> {
    let l = l.ok_or_else(|| format!("no {what} line"))?;
    let f = fields(l);
    if f.is_empty() {
        return Err(format!("empty {what} line"));
    }
    let n = int(f[0])?;
    if f.len() != n + 1 {
        return Err(format!("{what} line has {} fields, declares {n}", f.len()));
    }
    f[1..].iter().map(|t| int(t)).collect()
}

/// Strict reading of a document: anything not exactly as the format has it is refused.
pub fn parse(bytes: &[u8]) -> Result<Doc, String> {
    let d = parse_sparse(bytes)?;
    if d.n_in() + d.lines.len() != d.nw {
        return Err(format!("{} gates, {} inputs and {} wires do not fit", d.lines.len(), d.n_in(), d.nw));
    }
    Ok(d)
}

/// The same, but wire numbers may have gaps: some of the declared wires are never used.
pub fn parse_sparse(bytes: &[u8]) -> Result<Doc, String> {
    let text = std::str::from_utf8(bytes).map_err(|_| "not text".to_string())?;
    let mut lines: Vec<&str> = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    if text.ends_with('\r') {
        return Err("bare carriage return".into());
    }
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let head = fields(lines.first().ok_or("empty")?);
    if head.len() != 2 {
        return Err("first line needs two numbers".into());
    }
    let (ng, nw) = (int(head[0])?, int(head[1])?);
    let ins = group_line(lines.get(1), "input")?;
    let outs = group_line(lines.get(2), "output")?;
    match lines.get(3) {
        Some(&"") => {}
        _ => return Err("no blank line after the header".into()),
    }
    let n_in: usize = ins.iter().sum();
    let n_out: usize = outs.iter().sum();
    if n_in > 10_000_000 || nw > 10_000_000 || n_in + ng > nw || n_out > nw {
        return Err(format!("{ng} gates, {n_in} inputs, {n_out} outputs and {nw} wires do not fit"));
    }
    let mut def = vec![false; nw];
    def[..n_in].fill(true);
    let mut out = Vec::new();
    let mut i = 4;
    while i < lines.len() && !lines[i].is_empty() {
        let f = fields(lines[i]);
        if f.len() < 5 {
            return Err(format!("short gate line {:?}", lines[i]));
        }
        let (ni, no) = (int(f[0])?, int(f[1])?);
        if no != 1 || f.len() != ni + no + 3 {
            return Err(format!("gate line {:?}", lines[i]));
        }
        let g = match *f.last().unwrap() {
            "INV" => G::Inv,
            "XOR" => G::Xor,
            "AND" => G::And,
            "OR" => G::Or,
            "EQW" => G::Eqw,
            "EQ" => G::Eq,
            t => return Err(format!("gate type {t:?}")),
        };
        let need = if matches!(g, G::Inv | G::Eqw | G::Eq) { 1 } else { 2 };
        if ni != need {
            return Err(format!("gate line {:?}", lines[i]));
        }
        let a = int(f[2])?;
        let b = int(f[1 + ni])?;
        let o = int(f[2 + ni])?;
        if g == G::Eq && a > 1 {
            return Err(format!("constant {a}"));
        }
        for w in [a, b].into_iter().filter(|_| g != G::Eq) {
            if w >= nw || !def[w] {
                return Err(format!("wire {w} used before it is defined"));
            }
        }
        if o >= nw || def[o] {
            return Err(format!("wire {o} out of range or defined twice"));
        }
        def[o] = true;
        out.push(Line { g, a, b, o });
        i += 1;
    }
    if lines[i.min(lines.len())..].iter().any(|l| !l.is_empty()) {
        return Err("text after the blank line that ends the document".into());
    }
    if out.len() != ng {
        return Err(format!("{} gate lines, {ng} declared", out.len()));
    }
    if def[nw - n_out..].iter().any(|d| !*d) {
        return Err("an output wire is never defined".into());
    }
    Ok(Doc { ins, outs, nw, lines: out })
}

/// Why no reader can make sense of a document: a line that is not text, a field that is missing or not a number, a gate
/// that does not exist, a wire nobody defined.  Documents that are neither this nor well formed are left unspecified.
pub fn unreadable(bytes: &[u8]) -> Option<String> {
    let mut lines = bytes.split(|c| *c == b'\n');
    let mut k = 0;
    let mut next = |what: &str| -> Result<Option<&str>, String> {
        k += 1;
        match lines.next() {
            None => Ok(None),
            Some(l) => std::str::from_utf8(l).map(Some).map_err(|_| format!("line {k} ({what}) is not text")),
        }
    };
    // a sign or a number of many digits may be read or not
    let number = |t: Option<&str>| -> Result<Option<usize>, String> {
        let t = t.ok_or("a field is missing")?;
        match t.bytes().all(|c| c.is_ascii_digit()) {
            true if t.len() <= 9 => Ok(t.parse().ok()),
            true => Ok(None),
            false if t.starts_with(['+', '-']) => Ok(None),
            false => Err(format!("{t:?} is not a number")),
        }
    };
    let mut go = || -> Result<(), String> {
        let Some(l) = next("sizes")? else { return Err("no line".into()) };
        let mut f = l.split_whitespace();
        let sizes = (number(f.next())?, number(f.next())?);
        let mut sums = [0, 0];
        for s in &mut sums {
            let l = next("groups")?.ok_or("no group line")?;
            let mut f = l.split_whitespace();
            let Some(n) = number(f.next())? else { return Ok(()) };
            for _ in 0..n {
                let Some(x) = number(f.next())? else { return Ok(()) };
                *s += x;
            }
        }
        let (Some(_), Some(nw)) = sizes else { return Ok(()) };
        match next("blank")? {
            None => return Err("no blank line".into()),
            Some(l) if l.trim().is_empty() => {}
            _ => return Ok(()),
        }
        if sums.iter().any(|s| *s > 1 << 20) || nw > 1 << 20 {
            return Ok(());
        }
        let mut def: std::collections::BTreeSet<usize> = (0..sums[0]).collect();
        while let Some(l) = next("gate")? {
            if l.trim().is_empty() {
                break;
            }
            let mut f = l.split_whitespace();
            let (Some(ni), Some(no)) = (number(f.next())?, number(f.next())?) else { return Ok(()) };
            let mut wires = vec![];
            for _ in 0..ni + no {
                let Some(w) = number(f.next())? else { return Ok(()) };
                wires.push(w);
            }
            let g = f.next().ok_or("a gate line without a gate")?;
            let need = match g {
                "XOR" | "AND" | "OR" => 2,
                "INV" | "EQW" | "EQ" => 1,
                _ => return Err(format!("there is no gate {g:?}")),
            };
            if ni < need || no < 1 {
                return Err(format!("{g} of {ni} operands and {no} results"));
            }
            if ni != need || no != 1 || f.next().is_some() {
                return Ok(());
            }
            if g == "EQ" && wires[0] > 1 {
                return Err(format!("the constant {}", wires[0]));
            }
            for w in &wires[..ni] {
                if g != "EQ" && !def.contains(w) {
                    return Err(format!("wire {w} is not defined"));
                }
            }
            if !def.insert(wires[ni]) {
                return Ok(());
            }
        }
        if sums[1] > nw || (nw - sums[1]..nw).any(|w| !def.contains(&w)) {
            return Err("an output wire is not defined".into());
        }
        Ok(())
    };
    go().err()
}

/// A cut inside the letters `EQW` leaves an `EQ` line, which has another meaning.
pub fn cut_to_eq(bytes: &[u8], full: &[u8]) -> bool {
    bytes.ends_with(b"EQ") && full.get(bytes.len()) == Some(&b'W')
}

/// Offset just after the last character of the last gate line (of the output line if there are no gates).
pub fn body_end(bytes: &[u8], d: &Doc) -> usize {
    let want = if d.lines.is_empty() { 3 } else { 4 + d.lines.len() };
    let mut n = 0;
    let mut start = 0;
    for i in 0..=bytes.len() {
        if i == bytes.len() || bytes[i] == b'\n' {
            n += 1;
            if n == want {
                let mut e = i;
                while e > start && bytes[e - 1].is_ascii_whitespace() {
                    e -= 1;
                }
                return e;
            }
            start = i + 1;
        }
    }
    bytes.len()
}

pub struct Made {
    pub doc: Doc,
    /// undamaged bytes
    pub orig: Vec<u8>,
    /// bytes the stream holds
    pub bytes: Vec<u8>,
    /// end offset of each line of `orig`
    pub line_ends: Vec<usize>,
}

pub fn make(s: &DocSpec) -> Made {
    let mut r = Rng::new(s.seed as u64 ^ 0xD0C);
    let ins: Vec<usize> = s.ins.iter().map(|x| (*x % 262_144) as usize).collect();
    let n_in: usize = ins.iter().sum();
    let ng = s.gates as usize;
    let nw = n_in + ng;
    let mut left = nw;
    let outs: Vec<usize> = s
        .outs
        .iter()
        .map(|x| {
            let k = (*x as usize).min(left);
            left -= k;
            k
        })
        .collect();
    // wire numbers of the gates' outputs
    let mut num: Vec<usize> = (n_in..nw).collect();
    if s.style & 1 == 1 {
        for i in (1..num.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            num.swap(i, j);
        }
    }
    let mut avail: Vec<usize> = (0..n_in).collect();
    let mut lines = Vec::new();
    let pick = |r: &mut Rng, avail: &Vec<usize>| -> usize {
        let n = avail.len() as u64;
        if r.chance(1, 2) {
            avail[(n - 1 - r.below(n.min(6))) as usize]
        } else {
            avail[r.below(n) as usize]
        }
    };
    for o in num {
        let mut g = *r.pick(&[G::Inv, G::Xor, G::And, G::Or, G::Xor, G::And, G::Or, G::Eqw]);
        if avail.is_empty() || s.style & 128 == 0 && r.chance(1, 12) {
            g = G::Eq;
        }
        let a = if g == G::Eq {
            r.bool() as usize
        } else if s.style & 128 != 0 {
            *avail.last().unwrap()
        } else {
            pick(&mut r, &avail)
        };
        let b = if matches!(g, G::Inv | G::Eqw | G::Eq) { a } else { pick(&mut r, &avail) };
        lines.push(Line { g, a, b, o });
        avail.push(o);
    }
    let mut doc = Doc { ins, outs, nw, lines };
    if s.style & 64 != 0 {
        // wire numbers with a gap somewhere before the outputs
        let n_out: usize = doc.outs.iter().sum();
        if nw - n_out >= n_in {
            let from = r.range(n_in as u64, (nw - n_out) as u64) as usize;
            let gap = *r.pick(&[1, 3, 100, 300, 40_000, 70_000]);
            let f = |w: &mut usize| {
                if *w >= from {
                    *w += gap
                }
            };
            for l in &mut doc.lines {
                if l.g != G::Eq {
                    f(&mut l.a);
                    f(&mut l.b);
                }
                f(&mut l.o);
            }
            doc.nw += gap;
        }
    }
    let (orig, line_ends, starts) = render(&doc, s.style, &mut r);
    let n = orig.len();
    let bytes = match &s.damage {
        Damage::None => orig.clone(),
        Damage::Torn(p) => orig[..(*p as usize * n / 10000).min(n)].to_vec(),
        Damage::Bytes(v) => {
            let mut b = orig.clone();
            for (p, x) in v {
                let p = (*p as usize * n / 10000).min(n - 1);
                b[p] = *x;
            }
            b
        }
        Damage::DropLine(k) => {
            let mut b = orig.clone();
            if !doc.lines.is_empty() {
                let k = *k as usize % doc.lines.len();
                b.drain(starts[k]..line_ends[4 + k]);
            }
            b
        }
        Damage::Rewire(k, w) => {
            let mut d = doc.clone();
            if !d.lines.is_empty() {
                let k = *k as usize % d.lines.len();
                let old = d.lines[k].a;
                d.lines[k].a = *w as usize;
                if d.lines[k].b == old && matches!(d.lines[k].g, G::Inv | G::Eqw | G::Eq) {
                    d.lines[k].b = *w as usize;
                }
            }
            render(&d, s.style, &mut Rng::new(7)).0
        }
    };
    // keep declared sizes bounded whatever the damage
    let bytes = if longest_digits(&bytes) > 5 { orig.clone() } else { bytes };
    Made { doc, orig, bytes, line_ends }
}

fn longest_digits(b: &[u8]) -> usize {
    let (mut best, mut cur) = (0, 0);
    for c in b {
        if c.is_ascii_digit() {
            cur += 1;
            best = best.max(cur);
        } else {
            cur = 0;
        }
    }
    best
}

fn render(d: &Doc, style: u32, r: &mut Rng) -> (Vec<u8>, Vec<usize>, Vec<usize>) {
    let eol = if style & 2 != 0 { "\r\n" } else { "\n" };
    let trail = style & 4 != 0;
    let mixed = style & 8 != 0;
    let lead = style & 256 != 0;
    // carriage returns between fields
    let cr = style & 512 != 0;
    let mut s = String::new();
    let mut ends = Vec::new();
    let mut starts = Vec::new();
    let sep = |r: &mut Rng| -> &'static str {
        if cr && r.chance(1, 3) {
            *r.pick(&["\r", " \r", "\r ", "\r\r", "\t\r\t"])
        } else if mixed {
            *r.pick(&[" ", "  ", "\t", " \t "])
        } else {
            " "
        }
    };
    let mut put = |s: &mut String, f: Vec<String>, r: &mut Rng| {
        for (i, t) in f.iter().enumerate() {
            if i > 0 || lead {
                s.push_str(sep(r));
            }
            s.push_str(t);
        }
        if trail && !f.is_empty() {
            s.push(' ');
        }
        s.push_str(eol);
        ends.push(s.len());
    };
    let nums = |v: &Vec<usize>| -> Vec<String> {
        std::iter::once(v.len()).chain(v.iter().copied()).map(|x| x.to_string()).collect()
    };
    put(&mut s, vec![d.lines.len().to_string(), d.nw.to_string()], r);
    put(&mut s, nums(&d.ins), r);
    put(&mut s, nums(&d.outs), r);
    put(&mut s, vec![], r);
    for l in &d.lines {
        starts.push(s.len());
        let mut f = vec![];
        let two = !matches!(l.g, G::Inv | G::Eqw | G::Eq);
        f.push(if two { "2" } else { "1" }.to_string());
        f.push("1".to_string());
        f.push(l.a.to_string());
        if two {
            f.push(l.b.to_string());
        }
        f.push(l.o.to_string());
        f.push(
            match l.g {
                G::Inv => "INV",
                G::Xor => "XOR",
                G::And => "AND",
                G::Or => "OR",
                G::Eqw => "EQW",
                G::Eq => "EQ",
            }
            .to_string(),
        );
        put(&mut s, f, r);
    }
    // how the file ends: no line end after the last gate line, a plain end, or some blank lines
    match (style >> 4) % 4 {
        0 if !d.lines.is_empty() => {
            s.truncate(s.len() - eol.len());
            *ends.last_mut().unwrap() = s.len();
        }
        2 => s.push_str(eol),
        3 => {
            s.push_str(eol);
            s.push_str(eol);
        }
        _ => {}
    }
    (s.into_bytes(), ends, starts)
}

/// Where in a document a byte offset lies: for reporting which states faults reached.
pub fn phase(len: usize, line_ends: &[usize], pos: usize) -> &'static str {
    let line = line_ends.iter().position(|e| pos < *e);
    let start = match line {
        Some(0) => 0,
        Some(i) => line_ends[i - 1],
        None => return if pos >= len { "eof" } else { "tail" },
    };
    let first = pos == start;
    match (line.unwrap(), first) {
        (0, true) => "start",
        (0, false) => "in-sizes",
        (1, true) => "at-inputs",
        (1, false) => "in-inputs",
        (2, true) => "at-outputs",
        (2, false) => "in-outputs",
        (3, _) => "at-blank",
        (i, f) if i == line_ends.len() - 1 => if f { "at-last-gate" } else { "in-last-gate" },
        (_, true) => "at-gate",
        _ => "in-gate",
    }
}

//! Simulated streams.  A script decides how each call ends: short, interrupted, failed, abandoned by a panic, or
//! delayed while other clients run.
use crate::plan::*;
use crate::world::{run_steps, W};
use std::any::Any;
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::{Rc, Weak};

/// payload of a panic the plan injected
pub struct Injected;
/// the library called a stream more often than any finite progress allows
pub struct Stall;

#[derive(Debug, PartialEq)]
pub enum Unwound {
    Injected,
    Stall,
    Panic(String),
}

/// Runs library code, turning a panic into a value.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, Unwound> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p: Box<dyn Any + Send>| {
        if p.is::<Injected>() {
            Unwound::Injected
        } else if p.is::<Stall>() {
            Unwound::Stall
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Unwound::Panic(s.to_string())
        } else if let Some(s) = p.downcast_ref::<String>() {
            Unwound::Panic(s.clone())
        } else {
            Unwound::Panic("?".into())
        }
    })
}

#[derive(Default)]
pub struct Rec {
    pub calls: u64,
    pub eintr: u64,
    /// faults that fired: name, byte position
    pub fired: Vec<(&'static str, usize)>,
    /// first hard error given to the library: its kind and the number of bytes delivered before
    pub hard: Option<(io::ErrorKind, usize)>,
    pub panicked: bool,
    /// bytes the sink accepted
    pub got: Vec<u8>,
    pub disarmed: bool,
    pub shorts: u64,
    pub flushes: u64,
    pub pumped: bool,
}

struct Script {
    faults: Vec<(usize, FaultKind)>,
    next: usize,
    eintr_left: u32,
    sticky: Option<io::ErrorKind>,
    chunks: Vec<u32>,
    ci: usize,
    limit: u64,
    world: Weak<RefCell<W>>,
    owner: u32,
    depth: u32,
    rec: Rc<RefCell<Rec>>,
}

impl Script {
    fn call(&mut self) {
        let mut r = self.rec.borrow_mut();
        r.calls += 1;
        if r.calls > self.limit && !r.disarmed {
            r.disarmed = true;
            drop(r);
            resume_unwind(Box::new(Stall));
        }
    }
    /// faults due at byte `pos`; `Ok(true)`: accept nothing (sinks)
    fn due(&mut self, pos: usize, sink: bool) -> io::Result<bool> {
        if self.rec.borrow().disarmed {
            return Ok(false);
        }
        if let Some(k) = self.sticky {
            return Err(k.into());
        }
        loop {
            if self.eintr_left > 0 {
                self.eintr_left -= 1;
                let mut r = self.rec.borrow_mut();
                r.eintr += 1;
                // interruptions extend the number of calls that still counts as progress
                self.limit += 2;
                return Err(io::ErrorKind::Interrupted.into());
            }
            if self.next >= self.faults.len() || self.faults[self.next].0 > pos {
                return Ok(false);
            }
            let k = self.faults[self.next].1.clone();
            self.next += 1;
            match k {
                FaultKind::Eintr(n) => {
                    if n > 0 {
                        self.rec.borrow_mut().fired.push(("eintr", pos));
                    }
                    self.eintr_left = n;
                }
                FaultKind::Err { kind, sticky } => {
                    let e = injected(kind);
                    let k = e.kind();
                    let mut r = self.rec.borrow_mut();
                    r.fired.push((if sticky { "error-permanent" } else { "error-once" }, pos));
                    if r.hard.is_none() {
                        r.hard = Some((k, pos));
                    }
                    if sticky {
                        self.sticky = Some(k);
                    }
                    return Err(e);
                }
                FaultKind::Zero => {
                    if sink {
                        let mut r = self.rec.borrow_mut();
                        r.fired.push(("zero-write", pos));
                        if r.hard.is_none() {
                            r.hard = Some((io::ErrorKind::WriteZero, pos));
                        }
                        return Ok(true);
                    }
                }
                FaultKind::Panic => {
                    let mut r = self.rec.borrow_mut();
                    r.fired.push(("panic", pos));
                    r.panicked = true;
                    r.disarmed = true;
                    drop(r);
                    resume_unwind(Box::new(Injected));
                }
                FaultKind::Pump(steps) => {
                    if let Some(w) = self.world.upgrade() {
                        if self.depth < 3 {
                            {
                                let mut r = self.rec.borrow_mut();
                                r.fired.push(("pump", pos));
                                r.pumped = true;
                            }
                            w.borrow_mut().absorb(self.owner);
                            run_steps(&w, &steps, self.depth + 1);
                        }
                    }
                }
            }
        }
    }
    fn chunk(&mut self) -> usize {
        if self.chunks.is_empty() || self.rec.borrow().disarmed {
            return usize::MAX;
        }
        let c = self.chunks[self.ci % self.chunks.len()];
        self.ci += 1;
        if c == 0 {
            usize::MAX
        } else {
            c as usize
        }
    }
    fn until_next(&self, pos: usize) -> usize {
        match self.faults.get(self.next) {
            Some((p, _)) if !self.rec.borrow().disarmed => (p - pos).max(1),
            _ => usize::MAX,
        }
    }
}

fn place(faults: &[Fault], len: usize) -> Vec<(usize, FaultKind)> {
    let mut v: Vec<(usize, FaultKind)> = faults
        .iter()
        .map(|f| (((f.at.min(100_000) as u64 * len as u64) / 100_000) as usize, f.kind.clone()))
        .collect();
    v.sort_by_key(|x| x.0);
    v
}

pub struct SimSource {
    s: Script,
    bytes: Rc<Vec<u8>>,
    pos: usize,
    /// end of the chunk handed out by fill_buf
    end: usize,
}

impl SimSource {
    pub fn new(src: &Src, bytes: Rc<Vec<u8>>, world: Weak<RefCell<W>>, owner: u32, depth: u32, rec: Rc<RefCell<Rec>>) -> Self {
        let limit = 6 * bytes.len() as u64 + 256;
        let faults = place(&src.faults, bytes.len());
        SimSource {
            s: Script { faults, next: 0, eintr_left: 0, sticky: None, chunks: src.chunks.clone(), ci: 0, limit, world, owner, depth, rec },
            bytes,
            pos: 0,
            end: 0,
        }
    }
}

impl Read for SimSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.s.call();
        if buf.is_empty() {
            return Ok(0);
        }
        self.s.due(self.pos, false)?;
        let left = self.bytes.len() - self.pos;
        let n = buf.len().min(left).min(self.s.chunk()).min(self.s.until_next(self.pos));
        if n < buf.len().min(left) {
            self.s.rec.borrow_mut().shorts += 1;
        }
        buf[..n].copy_from_slice(&self.bytes[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl BufRead for SimSource {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.s.call();
        if self.pos >= self.end {
            self.s.due(self.pos, false)?;
            let left = self.bytes.len() - self.pos;
            let n = left.min(self.s.chunk()).min(self.s.until_next(self.pos));
            if n < left {
                self.s.rec.borrow_mut().shorts += 1;
            }
            self.end = self.pos + n;
        }
        Ok(&self.bytes[self.pos..self.end])
    }
    fn consume(&mut self, n: usize) {
        self.pos = (self.pos + n).min(self.end);
    }
}

pub struct SimSink {
    s: Script,
    flush_err: Option<u8>,
}

impl SimSink {
    /// `len`: length of the document an undisturbed sink would receive
    pub fn new(k: &SinkScript, len: usize, world: Weak<RefCell<W>>, owner: u32, depth: u32, rec: Rc<RefCell<Rec>>) -> Self {
        let limit = 6 * len as u64 + 256;
        let faults = place(&k.faults, len);
        SimSink {
            s: Script { faults, next: 0, eintr_left: 0, sticky: None, chunks: k.chunks.clone(), ci: 0, limit, world, owner, depth, rec },
            flush_err: k.flush_err,
        }
    }
    pub fn idle() -> Self {
        let rec = Rc::new(RefCell::new(Rec { disarmed: true, ..Default::default() }));
        SimSink {
            s: Script {
                faults: vec![],
                next: 0,
                eintr_left: 0,
                sticky: None,
                chunks: vec![],
                ci: 0,
                limit: u64::MAX,
                world: Weak::new(),
                owner: 0,
                depth: 0,
                rec,
            },
            flush_err: None,
        }
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.s.call();
        if buf.is_empty() {
            return Ok(0);
        }
        let pos = self.s.rec.borrow().got.len();
        if self.s.due(pos, true)? {
            return Ok(0);
        }
        let n = buf.len().min(self.s.chunk()).min(self.s.until_next(pos));
        let mut r = self.s.rec.borrow_mut();
        if n < buf.len() {
            r.shorts += 1;
        }
        r.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.s.call();
        let mut r = self.s.rec.borrow_mut();
        r.flushes += 1;
        if r.disarmed {
            return Ok(());
        }
        if let Some(k) = self.s.sticky {
            return Err(k.into());
        }
        if let Some(k) = self.flush_err {
            let e = injected(k);
            let k = e.kind();
            let pos = r.got.len();
            r.fired.push(("flush-error", pos));
            if r.hard.is_none() {
                r.hard = Some((k, pos));
            }
            return Err(e);
        }
        Ok(())
    }
}

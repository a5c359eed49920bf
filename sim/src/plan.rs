//! A plan is everything a run depends on: executing it is a pure function of the plan and the code.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub clients: u8,
    /// KB of stack the process's thread has; 0: more than enough
    #[serde(default)]
    pub stack: u32,
    pub steps: Vec<Step>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    /// client that makes the request
    pub by: u8,
    pub op: Op,
}

/// References (`c`, `a`, `b`, `m`, ...) are resolved modulo what exists when the step runs, so that any
/// sub-sequence of a plan is a plan.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    NewCirc { share: Option<u32> },
    Sub { c: u32 },
    Register { into: u32, what: u32 },
    Fork { c: u32 },
    Forget { c: u32 },
    /// `n` plain requests in a row
    Burst { c: u32, n: u32, seed: u32 },
    /// `n` gates, each over the one before
    Chain { c: u32, n: u32, kind: u8, seed: u32 },
    /// requests that add nothing, repeated, with what they take from memory measured
    Spend { c: u32, kind: u32, seed: u32 },
    /// `n` requests of one kind
    Bulk { c: u32, n: u32, kind: u8, seed: u32 },
    In { c: u32 },
    Const { c: u32, v: bool },
    Not { c: u32, a: u32 },
    Xor { c: u32, a: u32, b: u32 },
    And { c: u32, a: u32, b: u32 },
    Or { c: u32, a: u32, b: u32 },
    Eqv { c: u32, a: u32, b: u32 },
    Ident { c: u32, a: u32 },
    Call { c: u32, m: u32, args: u32 },
    Out { c: u32, a: u32 },
    BadOut { c: u32 },
    BadCall { c: u32 },
    /// a request that names something that does not exist
    Bad { c: u32, kind: u32, seed: u32 },
    /// bits handed over as bytes or text through storage
    Hand { c: u32, fmt: u8, seed: u32, exports: Vec<Attempt>, imports: Vec<Src> },
    /// evaluate `n` vectors; `skew` != 0 gives the vector a wrong length
    Eval { c: u32, slot: u8, n: u8, seed: u32, skew: i8 },
    /// the circuit is read back gate by gate
    Look { c: u32, seed: u32 },
    DropClient,
    GCfg { c: u32, fam: u8, n: u32, p: u32 },
    GRebind { g: u32, c: u32 },
    GNew { g: u32 },
    GConst { g: u32, v: u64, w: u64 },
    GFrom { g: u32, len: u32, args: u32 },
    GOp { g: u32, op: u32, a: u32, b: u32, k: u32 },
    GOut { g: u32, a: u32 },
    Load { c: u32, slot: u8, doc: DocSpec, src: Src },
    Write { c: u32, slot: u8, first: u32, map: bool, sink: SinkScript },
    Lib { c: u32, k: u32 },
    Relay { c: u32, exports: Vec<Attempt>, imports: Vec<Src> },
    /// a circuit of the simulator's own, behind the library's circuit interface; `ids`: how it names signals
    BNew { share: Option<u32>, ids: u8 },
    /// plain requests and questions made through the library's handle on it
    BReq { c: u32, kind: u32, a: u32, b: u32, no: Refusal },
    BLoad { c: u32, slot: u8, doc: DocSpec, src: Src, no: Refusal },
    BLib { c: u32, k: u32, no: Refusal },
    BCfg { c: u32, fam: u8, n: u32, no: Refusal },
    BWord { g: u32, kind: u8, op: u32, a: u32, b: u32, k: u32, no: Refusal },
}

/// Which of the requests an operation makes the circuit refuses (0: none), and how; 7: by a panic.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Refusal {
    pub at: u32,
    pub how: u8,
    /// every later request of the operation is refused, too
    pub sticky: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Attempt {
    pub sink: SinkScript,
    /// a crash keeps this share (per 1000) of the bytes that were not acknowledged
    pub keep: u32,
}

/// A generated document: `gates` random gates over the inputs, rendered in a random style.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DocSpec {
    pub seed: u32,
    pub ins: Vec<u32>,
    pub outs: Vec<u32>,
    pub gates: u32,
    pub style: u32,
    pub damage: Damage,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Damage {
    None,
    /// the producer crashed after this share (per 10000) of the bytes
    Torn(u32),
    /// (share per 10000, replacement byte)
    Bytes(Vec<(u32, u8)>),
    /// gate line removed
    DropLine(u32),
    /// an argument of a gate line renamed to this wire
    Rewire(u32, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Src {
    /// 0: the stream itself is buffered (hands out its chunks); otherwise capacity of a BufReader around it
    pub cap: u32,
    /// sizes of the reads, cyclic
    pub chunks: Vec<u32>,
    pub faults: Vec<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SinkScript {
    pub cap: u32,
    pub chunks: Vec<u32>,
    pub faults: Vec<Fault>,
    /// kind of error the sink's flush reports
    pub flush_err: Option<u8>,
    /// discard the unflushed buffer (crash) instead of dropping it normally
    pub crash: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    /// byte position, as a share (per 100000) of the document
    pub at: u32,
    pub kind: FaultKind,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FaultKind {
    Eintr(u32),
    Err { kind: u8, sticky: bool },
    /// sink only: accepts no byte
    Zero,
    Panic,
    /// other clients' requests, made while the stream call waits
    Pump(Vec<Step>),
}

pub const ERRORS: u64 = 43;

/// The error of a stream, of any kind, with or without a message, or an operating system's own.
pub fn injected(k: u8) -> std::io::Error {
    use std::io::ErrorKind::*;
    let kinds = [
        Other, ConnectionReset, TimedOut, WouldBlock, PermissionDenied, UnexpectedEof, BrokenPipe, NotFound, StorageFull, ConnectionRefused,
        ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, AlreadyExists, InvalidInput, InvalidData, WriteZero, Unsupported,
        OutOfMemory, NetworkUnreachable,
    ];
    let k = k as usize % ERRORS as usize;
    match k / kinds.len() {
        0 => kinds[k].into(),
        1 => std::io::Error::new(kinds[k - kinds.len()], "injected"),
        // EIO
        _ => std::io::Error::from_raw_os_error(5),
    }
}

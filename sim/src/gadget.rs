//! The arithmetic, bit-vector and field front ends, one object per configuration.  Every call goes to the library.
use crate::doc::B;
use circuit_converters::arithmetic::{build_add_circuit, build_mul_extend_circuit, AllocInt, AllocIntConfig};
use circuit_converters::finite_field::{AllocFp, AllocFpConfig};
use circuit_converters::logic::{AllocBits, AllocBitsConfig};
use circuit_converters::num_bigint::BigUint;
use circuit_converters::{BoolCircuit, BoolCircuitRef, BuildCircuitError, Gate, GateId, ModuleId};

pub type W = Vec<GateId>;
pub type R<T> = Result<T, BuildCircuitError>;

/// One configuration over circuits `C`: the library's own, or a backend of the simulator.
pub trait Gadget<G: Gate, C: BoolCircuit<G>> {
    fn rebind(&self, c: &BoolCircuitRef<G, C>) -> Box<dyn Gadget<G, C>>;
    fn word(&self) -> R<W>;
    /// a constant of these bits, lowest first
    fn konst(&self, v: &[B]) -> R<W>;
    fn from(&self, bits: W) -> R<W>;
    fn op(&self, op: u32, a: W, b: W, s: Option<GateId>, k: usize) -> R<W>;
    fn out(&self, a: W) -> R<()>;
    /// (prime, negated inverse of it, log2 of the radius)
    fn mont(&self) -> Option<(BigUint, BigUint, usize)> {
        None
    }
}

pub fn big(v: u128) -> BigUint {
    BigUint::from_bytes_le(&v.to_le_bytes())
}

/// the number these bits (lowest first) are
fn big_bits(v: &[B]) -> BigUint {
    let mut bytes = vec![0u8; v.len().div_ceil(8)];
    for (i, b) in v.iter().enumerate() {
        bytes[i / 8] |= (*b & 1) << (i % 8);
    }
    BigUint::from_bytes_le(&bytes)
}

struct IntG<G: Gate, C: BoolCircuit<G>, const N: usize> {
    cfg: AllocIntConfig<G, C, N>,
    ext: Option<ModuleId>,
}
struct BitsG<G: Gate, C: BoolCircuit<G>, const N: usize> {
    cfg: AllocBitsConfig<G, C, N>,
}
struct FpG<G: Gate, C: BoolCircuit<G>, const N: usize> {
    cfg: AllocFpConfig<G, C, N>,
}

impl<G: Gate + 'static, C: BoolCircuit<G> + 'static, const N: usize> Gadget<G, C> for IntG<G, C, N> {
    fn rebind(&self, c: &BoolCircuitRef<G, C>) -> Box<dyn Gadget<G, C>> {
        let mut cfg = self.cfg.clone();
        cfg.c_ref = c.clone();
        Box::new(IntG::<G, C, N> { cfg, ext: self.ext })
    }
    fn word(&self) -> R<W> {
        Ok(AllocInt::<G, C, N>::new(&self.cfg)?.val_le)
    }
    fn konst(&self, v: &[B]) -> R<W> {
        Ok(AllocInt::<G, C, N>::from_biguint(&big_bits(v), &self.cfg)?.val_le)
    }
    fn from(&self, bits: W) -> R<W> {
        Ok(AllocInt::<G, C, N>::from_gate_ids(bits, &self.cfg)?.val_le)
    }
    fn op(&self, op: u32, a: W, b: W, _s: Option<GateId>, k: usize) -> R<W> {
        let w = |v: W| AllocInt::<G, C, N>::from_gate_ids(v, &self.cfg);
        match op {
            16 => return Ok(AllocInt::<G, C, N>::zero(&self.cfg)?.val_le),
            17 => return Ok(AllocInt::<G, C, N>::one(&self.cfg)?.val_le),
            15 => {
                let mut c = self.cfg.c_ref.clone();
                let mid = self.ext.expect("extended multiplier");
                return Ok(c.module(&mid, &[a, b].concat())?);
            }
            _ => {}
        }
        let mut x = w(a)?;
        match op {
            6 => return Ok((-&x).val_le),
            7 => return Ok(x.shift_left(k)?.val_le),
            8 => return Ok(x.shift_right(k)?.val_le),
            _ => {}
        }
        let y = w(b)?;
        Ok(match op {
            0 => (&x + &y).val_le,
            1 => {
                x += &y;
                x.val_le
            }
            2 => (&x - &y).val_le,
            3 => {
                x -= &y;
                x.val_le
            }
            4 => (&x * &y).val_le,
            5 => {
                x *= &y;
                x.val_le
            }
            9 => vec![x.eq(&y)?],
            10 => vec![x.neq(&y)?],
            11 => vec![x.less(&y)?],
            12 => vec![x.less_or_eq(&y)?],
            13 => vec![x.larger(&y)?],
            _ => vec![x.larger_or_eq(&y)?],
        })
    }
    fn out(&self, a: W) -> R<()> {
        AllocInt::<G, C, N>::from_gate_ids(a, &self.cfg)?.output()
    }
}

impl<G: Gate + 'static, C: BoolCircuit<G> + 'static, const N: usize> Gadget<G, C> for BitsG<G, C, N> {
    fn rebind(&self, c: &BoolCircuitRef<G, C>) -> Box<dyn Gadget<G, C>> {
        let mut cfg = self.cfg.clone();
        cfg.c_ref = c.clone();
        Box::new(BitsG::<G, C, N> { cfg })
    }
    fn word(&self) -> R<W> {
        Ok(AllocBits::<G, C, N>::new(&self.cfg)?.bits)
    }
    fn konst(&self, v: &[B]) -> R<W> {
        let mut c = self.cfg.c_ref.clone();
        let mut bits = Vec::new();
        for i in 0..N {
            bits.push(c.constant(v[i] == 1)?);
        }
        Ok(AllocBits::<G, C, N>::from_gate_ids(bits, &self.cfg)?.bits)
    }
    fn from(&self, bits: W) -> R<W> {
        Ok(AllocBits::<G, C, N>::from_gate_ids(bits, &self.cfg)?.bits)
    }
    fn op(&self, op: u32, a: W, b: W, s: Option<GateId>, _k: usize) -> R<W> {
        let w = |v: W| AllocBits::<G, C, N>::from_gate_ids(v, &self.cfg);
        let mut x = w(a)?;
        if op == 0 {
            return Ok((!&x).bits);
        }
        let y = w(b)?;
        Ok(match op {
            1 => (&x & &y).bits,
            2 => (&x | &y).bits,
            3 => (&x ^ &y).bits,
            4 => {
                x &= &y;
                x.bits
            }
            5 => {
                x |= &y;
                x.bits
            }
            6 => {
                x ^= &y;
                x.bits
            }
            7 => vec![x.eq(&y)?],
            8 => vec![x.neq(&y)?],
            _ => x.mux(&y, &s.expect("select bit"))?.bits,
        })
    }
    fn out(&self, a: W) -> R<()> {
        AllocBits::<G, C, N>::from_gate_ids(a, &self.cfg)?.output()
    }
}

impl<G: Gate + 'static, C: BoolCircuit<G> + 'static, const N: usize> Gadget<G, C> for FpG<G, C, N> {
    fn rebind(&self, c: &BoolCircuitRef<G, C>) -> Box<dyn Gadget<G, C>> {
        let mut cfg = self.cfg.clone();
        cfg.c_ref = c.clone();
        cfg.int_config.c_ref = c.clone();
        Box::new(FpG::<G, C, N> { cfg })
    }
    fn mont(&self) -> Option<(BigUint, BigUint, usize)> {
        Some((self.cfg.p.clone(), self.cfg.p_minus_inv.clone(), self.cfg.r_exp))
    }
    fn word(&self) -> R<W> {
        Ok(AllocFp::<G, C, N>::new(&self.cfg)?.to_gate_ids())
    }
    fn konst(&self, v: &[B]) -> R<W> {
        Ok(AllocFp::<G, C, N>::from_biguint_unchecked(&big_bits(v), &self.cfg).to_gate_ids())
    }
    fn from(&self, bits: W) -> R<W> {
        Ok(AllocFp::<G, C, N>::from_gate_ids_unchecked(bits, &self.cfg).to_gate_ids())
    }
    fn op(&self, op: u32, a: W, b: W, _s: Option<GateId>, _k: usize) -> R<W> {
        let w = |v: W| AllocFp::<G, C, N>::from_gate_ids_unchecked(v, &self.cfg);
        match op {
            7 => return Ok(AllocFp::<G, C, N>::zero(&self.cfg)?.to_gate_ids()),
            8 => return Ok(AllocFp::<G, C, N>::one(&self.cfg)?.to_gate_ids()),
            _ => {}
        }
        let mut x = w(a);
        if op == 4 {
            return Ok((-&x).to_gate_ids());
        }
        let y = w(b);
        Ok(match op {
            0 => (&x + &y).to_gate_ids(),
            1 => {
                x += &y;
                x.to_gate_ids()
            }
            2 => (&x - &y).to_gate_ids(),
            3 => {
                x -= &y;
                x.to_gate_ids()
            }
            5 => vec![x.eq(&y)?],
            6 => vec![x.neq(&y)?],
            9 => (&x * &y).to_gate_ids(),
            _ => {
                x *= &y;
                x.to_gate_ids()
            }
        })
    }
    fn out(&self, a: W) -> R<()> {
        AllocFp::<G, C, N>::from_gate_ids_unchecked(a, &self.cfg).output()
    }
}

// (the first ones are the frequent ones)
pub const INT_N: [usize; 26] = [1, 2, 3, 4, 5, 8, 13, 16, 32, 64, 6, 7, 9, 12, 15, 24, 31, 33, 48, 63, 65, 100, 127, 128, 129, 256];
pub const BITS_N: [usize; 22] = [1, 2, 3, 8, 17, 33, 64, 4, 5, 6, 7, 9, 12, 16, 24, 31, 32, 63, 65, 128, 130, 256];
/// (width, odd prime, log2 of the Montgomery radius); products are exact where width >= 2 * radius + 2
pub const FP: [(usize, u128, usize); 24] = [
    (5, 3, 2),
    (5, 7, 3),
    (6, 3, 2),
    (6, 13, 4),
    (8, 5, 3),
    (8, 7, 3),
    (8, 61, 6),
    (11, 11, 4),
    (11, 251, 8),
    (16, 127, 7),
    (16, 16381, 14),
    (18, 131, 8),
    (24, 1021, 10),
    (7, 31, 5),
    (11, 257, 9),
    (13, 2039, 11),
    (34, 4294967291, 32),
    (66, 18446744073709551557, 64),
    (14, 59, 6),
    (20, 509, 9),
    (36, 65521, 16),
    // wide ones, which are rare
    (92, (1 << 89) - 1, 90),
    (130, (1 << 127) - 1, 127),
    (98, 79228162514264337593543950319, 96),
];
pub fn fp_mul_ok(i: usize) -> bool {
    FP[i].0 >= 2 * FP[i].2 + 2
}

pub fn new_int<G: Gate + 'static, C: BoolCircuit<G> + 'static>(i: usize, c: &BoolCircuitRef<G, C>, ext: bool) -> R<Box<dyn Gadget<G, C>>> {
    fn mk<G: Gate + 'static, C: BoolCircuit<G> + 'static, const N: usize>(c: &BoolCircuitRef<G, C>, ext: bool) -> R<Box<dyn Gadget<G, C>>> {
        let cfg = AllocIntConfig::<G, C, N>::new(c)?;
        let ext = if ext {
            let mut c = c.clone();
            let add2 = build_add_circuit(&mut c, 2 * N)?;
            Some(build_mul_extend_circuit(&mut c, N, add2)?)
        } else {
            None
        };
        Ok(Box::new(IntG::<G, C, N> { cfg, ext }))
    }
    match INT_N[i] {
        1 => mk::<G, C, 1>(c, ext),
        2 => mk::<G, C, 2>(c, ext),
        3 => mk::<G, C, 3>(c, ext),
        4 => mk::<G, C, 4>(c, ext),
        5 => mk::<G, C, 5>(c, ext),
        8 => mk::<G, C, 8>(c, ext),
        13 => mk::<G, C, 13>(c, ext),
        16 => mk::<G, C, 16>(c, ext),
        32 => mk::<G, C, 32>(c, ext),
        64 => mk::<G, C, 64>(c, ext),
        6 => mk::<G, C, 6>(c, ext),
        7 => mk::<G, C, 7>(c, ext),
        9 => mk::<G, C, 9>(c, ext),
        12 => mk::<G, C, 12>(c, ext),
        15 => mk::<G, C, 15>(c, ext),
        24 => mk::<G, C, 24>(c, ext),
        31 => mk::<G, C, 31>(c, ext),
        33 => mk::<G, C, 33>(c, ext),
        48 => mk::<G, C, 48>(c, ext),
        63 => mk::<G, C, 63>(c, ext),
        65 => mk::<G, C, 65>(c, ext),
        100 => mk::<G, C, 100>(c, ext),
        127 => mk::<G, C, 127>(c, ext),
        128 => mk::<G, C, 128>(c, ext),
        129 => mk::<G, C, 129>(c, ext),
        _ => mk::<G, C, 256>(c, false),
    }
}

pub fn new_bits<G: Gate + 'static, C: BoolCircuit<G> + 'static>(i: usize, c: &BoolCircuitRef<G, C>) -> R<Box<dyn Gadget<G, C>>> {
    fn mk<G: Gate + 'static, C: BoolCircuit<G> + 'static, const N: usize>(c: &BoolCircuitRef<G, C>) -> R<Box<dyn Gadget<G, C>>> {
        Ok(Box::new(BitsG::<G, C, N> { cfg: AllocBitsConfig::<G, C, N>::new(c)? }))
    }
    match BITS_N[i] {
        1 => mk::<G, C, 1>(c),
        2 => mk::<G, C, 2>(c),
        3 => mk::<G, C, 3>(c),
        8 => mk::<G, C, 8>(c),
        17 => mk::<G, C, 17>(c),
        33 => mk::<G, C, 33>(c),
        64 => mk::<G, C, 64>(c),
        4 => mk::<G, C, 4>(c),
        5 => mk::<G, C, 5>(c),
        6 => mk::<G, C, 6>(c),
        7 => mk::<G, C, 7>(c),
        9 => mk::<G, C, 9>(c),
        12 => mk::<G, C, 12>(c),
        16 => mk::<G, C, 16>(c),
        24 => mk::<G, C, 24>(c),
        31 => mk::<G, C, 31>(c),
        32 => mk::<G, C, 32>(c),
        63 => mk::<G, C, 63>(c),
        65 => mk::<G, C, 65>(c),
        128 => mk::<G, C, 128>(c),
        130 => mk::<G, C, 130>(c),
        _ => mk::<G, C, 256>(c),
    }
}

pub fn new_fp<G: Gate + 'static, C: BoolCircuit<G> + 'static>(i: usize, c: &BoolCircuitRef<G, C>) -> R<Box<dyn Gadget<G, C>>> {
    fn mk<G: Gate + 'static, C: BoolCircuit<G> + 'static, const N: usize>(c: &BoolCircuitRef<G, C>, p: u128, r: usize) -> R<Box<dyn Gadget<G, C>>> {
        let int = AllocIntConfig::<G, C, N>::new(c)?;
        Ok(Box::new(FpG::<G, C, N> { cfg: AllocFpConfig::<G, C, N>::new(c, &int, big(p), r)? }))
    }
    let (n, p, r) = FP[i];
    match n {
        5 => mk::<G, C, 5>(c, p, r),
        6 => mk::<G, C, 6>(c, p, r),
        8 => mk::<G, C, 8>(c, p, r),
        11 => mk::<G, C, 11>(c, p, r),
        16 => mk::<G, C, 16>(c, p, r),
        18 => mk::<G, C, 18>(c, p, r),
        24 => mk::<G, C, 24>(c, p, r),
        7 => mk::<G, C, 7>(c, p, r),
        13 => mk::<G, C, 13>(c, p, r),
        34 => mk::<G, C, 34>(c, p, r),
        14 => mk::<G, C, 14>(c, p, r),
        20 => mk::<G, C, 20>(c, p, r),
        36 => mk::<G, C, 36>(c, p, r),
        92 => mk::<G, C, 92>(c, p, r),
        130 => mk::<G, C, 130>(c, p, r),
        98 => mk::<G, C, 98>(c, p, r),
        _ => mk::<G, C, 66>(c, p, r),
    }
}

//! AES-128 (FIPS-197), written from the standard: the S-box is computed from field inversion and the affine map.
use crate::doc::B;

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
fn sbox(x: u8) -> u8 {
    // x^254 is the inverse of x (and 0 for 0)
    let mut inv = 1u8;
    for _ in 0..254 {
        inv = gmul(inv, x);
    }
    let mut r = 0x63;
    for i in 0..5 {
        r ^= inv.rotate_left(i);
    }
    r
}

pub fn encrypt(key: &[u8; 16], msg: &[u8; 16]) -> [u8; 16] {
    let mut sb = [0u8; 256];
    for (i, s) in sb.iter_mut().enumerate() {
        *s = sbox(i as u8);
    }
    let mut w = [[0u8; 4]; 44];
    for i in 0..4 {
        w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
    }
    let mut rcon = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 {
            t = [sb[t[1] as usize] ^ rcon, sb[t[2] as usize], sb[t[3] as usize], sb[t[0] as usize]];
            rcon = xtime(rcon);
        }
        for j in 0..4 {
            w[i][j] = w[i - 4][j] ^ t[j];
        }
    }
    let add = |s: &mut [u8; 16], r: usize| {
        for c in 0..4 {
            for j in 0..4 {
                s[4 * c + j] ^= w[4 * r + c][j];
            }
        }
    };
    let mut s = *msg;
    add(&mut s, 0);
    for r in 1..=10 {
        let mut t = [0u8; 16];
        for c in 0..4 {
            for j in 0..4 {
                t[4 * c + j] = sb[s[4 * ((c + j) % 4) + j] as usize];
            }
        }
        if r < 10 {
            for c in 0..4 {
                let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                for j in 0..4 {
                    t[4 * c + j] = gmul(a[j], 2) ^ gmul(a[(j + 1) % 4], 3) ^ a[(j + 2) % 4] ^ a[(j + 3) % 4];
                }
            }
        }
        s = t;
        add(&mut s, r);
    }
    s
}

/// The standard's own example (FIPS-197 appendix C.1).
pub fn self_check() -> bool {
    let key: [u8; 16] = std::array::from_fn(|i| i as u8);
    let msg: [u8; 16] = std::array::from_fn(|i| (i * 0x11) as u8);
    encrypt(&key, &msg)
        == [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a]
}

/// The function of the shipped document: message bits then key bits, each byte's most significant bit first.
pub fn doc_encrypt(a: &[B]) -> Vec<B> {
    let byte = |i: usize| (0..8).fold(0u8, |v, j| v << 1 | (a[8 * i + j] & 1));
    let msg: [u8; 16] = std::array::from_fn(byte);
    let key: [u8; 16] = std::array::from_fn(|i| byte(16 + i));
    let ct = encrypt(&key, &msg);
    ct.iter().flat_map(|x| (0..8).map(move |j| x >> (7 - j) & 1)).collect()
}

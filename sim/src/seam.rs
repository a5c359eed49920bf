//! Seam for the process's randomness: std's `RandomState` draws its keys with `getrandom(2)` the first time a
//! thread builds a hash table.  This definition takes the place of libc's, and derives the keys of a simulated run
//! from the run's plan; every run executes on a thread of its own, so each run starts with keys of its own.
use std::cell::Cell;
use std::collections::HashMap;

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
}

pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|c| c.set(s));
}

/// # Safety
/// Same contract as getrandom(2): `buf` points to `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = crate::prng::Rng::new(HASH_SEED.with(|c| c.get()) ^ 0x5EED);
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

/// Order in which a table with the given hash seed walks its keys.
fn walk(seed: u64) -> Vec<u32> {
    std::thread::spawn(move || {
        set_hash_seed(seed);
        let m: HashMap<u32, ()> = (0..64).map(|i| (i, ())).collect();
        m.keys().copied().collect::<Vec<_>>()
    })
    .join()
    .unwrap()
}

/// The seam must really own the hash keys, or runs would not replay.
pub fn self_check() -> bool {
    let a = walk(1);
    a == walk(1) && a != walk(2) && walk(2) == walk(2)
}

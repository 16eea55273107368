//! Ownership of the randomness std's hash maps are seeded with.
//!
//! std asks `getrandom` for the hash keys of a thread the first time the thread makes a map. The harness
//! provides that symbol itself, so that every chunk of work runs under a known seed: the order in which the
//! code under test iterates over its hash sets becomes a controlled, replayable choice.
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x5eed) };
}

pub fn set_seed(seed: u64) {
    SEED.with(|s| s.set(seed));
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// # Safety
/// `buf` must be valid for `len` bytes, as for the C function of this name.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = SEED.with(|s| s.get());
    for i in 0..len {
        *buf.add(i) = (splitmix(&mut s) >> 24) as u8;
    }
    SEED.with(|c| c.set(s));
    len as isize
}

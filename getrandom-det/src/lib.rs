//! Deterministic replacement of `getrandom` 0.1: the "entropy" of a thread is a splitmix64 stream whose
//! seed the harness sets at the start of each case, so that `from_entropy` constructors and internal
//! random generators of the crate under test are a function of the case.
use std::cell::Cell;
use std::fmt;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Error(code)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Sets the entropy stream of the current thread.
pub fn det_seed(seed: u64) {
    STATE.with(|s| s.set(seed));
    CALLS.with(|c| c.set(0));
}
/// How often entropy was requested on this thread since the last `det_seed`.
pub fn det_calls() -> u64 {
    CALLS.with(|c| c.get())
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    CALLS.with(|c| c.set(c.get() + 1));
    STATE.with(|s| {
        for chunk in dest.chunks_mut(8) {
            let mut z = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
            s.set(z);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^= z >> 31;
            let b = z.to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
    });
    Ok(())
}

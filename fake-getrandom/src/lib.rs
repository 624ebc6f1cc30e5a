//! Scripted stand-in for `getrandom` 0.2 (same public surface).
use std::cell::RefCell;
use std::collections::VecDeque;

/// What the randomness source does at one call.
#[derive(Clone, Debug)]
pub enum Draw {
    /// The output starts with these bytes; the remainder comes from the stream.
    Bytes(Vec<u8>),
    /// The source reports an error.
    Fail,
}

#[derive(Default)]
pub struct Source {
    pub seed: u64,
    pub counter: u64,
    /// Consumed one per call, before the stream is used.
    pub script: VecDeque<Draw>,
    /// Every successful draw, in order.
    pub log: Vec<Vec<u8>>,
    pub failures: u32,
}

thread_local! {
    pub static SOURCE: RefCell<Source> = RefCell::new(Source {
        seed: 0, counter: 0, script: VecDeque::new(), log: Vec::new(), failures: 0,
    });
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Resets the source: a stream determined by `seed`, preceded by `script`.
pub fn reset(seed: u64, script: Vec<Draw>) {
    SOURCE.with(|s| {
        let mut s = s.borrow_mut();
        s.seed = seed;
        s.counter = seed.wrapping_mul(0xD1342543DE82EF95);
        s.script = script.into();
        s.log.clear();
        s.failures = 0;
    })
}

/// Exchanges the source of this thread for another one.
pub fn swap(other: &mut Source) {
    SOURCE.with(|s| std::mem::swap(&mut *s.borrow_mut(), other))
}

pub fn log() -> Vec<Vec<u8>> {
    SOURCE.with(|s| s.borrow().log.clone())
}

pub fn failures() -> u32 {
    SOURCE.with(|s| s.borrow().failures)
}

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(core::num::NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(core::num::NonZeroU32::new(1 << 31).unwrap());
    pub fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> core::num::NonZeroU32 { self.0 }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("scripted randomness failure") }
}
impl std::error::Error for Error {}

/// Called with `true` when a draw begins and with `false` when it has ended.
pub static OBSERVER: std::sync::OnceLock<fn(bool)> = std::sync::OnceLock::new();

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let Some(f) = OBSERVER.get() else { return draw(dest) };
    f(true);
    let r = draw(dest);
    f(false);
    r
}

fn draw(dest: &mut [u8]) -> Result<(), Error> {
    SOURCE.with(|s| {
        let mut s = s.borrow_mut();
        let first = s.script.pop_front();
        let mut pos = 0;
        match first {
            Some(Draw::Fail) => {
                s.failures += 1;
                return Err(Error::UNSUPPORTED);
            }
            Some(Draw::Bytes(b)) => {
                pos = b.len().min(dest.len());
                dest[..pos].copy_from_slice(&b[..pos]);
            }
            None => {}
        }
        while pos < dest.len() {
            let mut c = s.counter;
            let w = splitmix(&mut c).to_le_bytes();
            s.counter = c;
            let n = (dest.len() - pos).min(8);
            dest[pos..pos + n].copy_from_slice(&w[..n]);
            pos += n;
        }
        let copy = dest.to_vec();
        s.log.push(copy);
        Ok(())
    })
}

pub fn getrandom_uninit(dest: &mut [core::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for b in dest.iter_mut() {
        b.write(0);
    }
    // SAFETY: every byte was just initialised.
    let init = unsafe { core::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    getrandom(init)?;
    Ok(init)
}

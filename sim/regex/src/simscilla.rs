//! Added for simscilla: regular expressions compiled before the simulated process starts.
//! A known pattern is answered by a clone (own matcher state) of the compiled expression;
//! nothing is remembered while a simulated run goes on, so a run depends on no other.

use core::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};
use std::{boxed::Box, string::String, vec::Vec};

use crate::{Error, Regex, RegexBuilder};

static KNOWN: AtomicPtr<Vec<(String, Regex)>> =
    AtomicPtr::new(core::ptr::null_mut());
static LOG: AtomicPtr<u8> = AtomicPtr::new(core::ptr::null_mut());
static LOG_CAP: AtomicUsize = AtomicUsize::new(0);

/// Write down the patterns compiled from now on: a byte count (8 bytes), then per pattern a
/// length (8 bytes) and the text.
///
/// # Safety
/// `at` must be null or valid for writes of `cap` bytes, zeroed.
pub unsafe fn log_to(at: *mut u8, cap: usize) {
    LOG_CAP.store(cap, Ordering::SeqCst);
    LOG.store(at, Ordering::SeqCst);
}

/// Compile these now.
pub fn preload(patterns: &[String]) {
    let mut v = Vec::new();
    for p in patterns {
        if let Ok(r) = RegexBuilder::new(p).build() {
            v.push((p.clone(), r));
        }
    }
    KNOWN.store(Box::into_raw(Box::new(v)), Ordering::SeqCst);
}

pub(crate) fn new(re: &str) -> Result<Regex, Error> {
    let k = KNOWN.load(Ordering::Relaxed);
    if !k.is_null() {
        if let Some(x) = unsafe { &*k }.iter().find(|x| x.0 == re) {
            return Ok(x.1.clone());
        }
    }
    let at = LOG.load(Ordering::Relaxed);
    if !at.is_null() {
        unsafe {
            let n = (at as *mut u64).read_unaligned() as usize;
            if 16 + n + re.len() <= LOG_CAP.load(Ordering::Relaxed) {
                let q = at.add(8 + n);
                (q as *mut u64).write_unaligned(re.len() as u64);
                core::ptr::copy_nonoverlapping(re.as_ptr(), q.add(8), re.len());
                (at as *mut u64).write_unaligned((n + 8 + re.len()) as u64);
            }
        }
    }
    RegexBuilder::new(re).build()
}

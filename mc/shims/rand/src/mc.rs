//! mc: controlled source of random outcomes (not part of rand).
//!
//! While a controller is installed on the current thread, every draw of `ThreadRng` and every
//! `sample_single` (the back end of `gen_range`, and through it of `shuffle`, `choose`, `sample_iter`)
//! is answered by it, so that a model checker can enumerate all outcomes.

use std::cell::RefCell;
use std::vec::Vec;

/// Script of choices: `script[..]` is replayed, then choice 0 is taken; `arity` records the number of
/// alternatives at each point.
#[derive(Default)]
pub struct Ctl {
    pub script: Vec<usize>,
    pub taken: Vec<usize>,
    pub arity: Vec<usize>,
    pub diverged: bool,
    pub limit: usize,
}

thread_local!(static CTL: RefCell<Option<Ctl>> = RefCell::new(None));

pub fn install(script: Vec<usize>, limit: usize) {
    CTL.with(|c| {
        *c.borrow_mut() = Some(Ctl { script: script, taken: Vec::new(), arity: Vec::new(), diverged: false, limit: limit })
    });
}

pub fn remove() -> Option<Ctl> {
    CTL.with(|c| c.borrow_mut().take())
}

/// Answer one choice with `n` alternatives; None if no controller is installed.
pub fn choose(n: usize) -> Option<usize> {
    let over = CTL.with(|c| match *c.borrow() {
        Some(ref c) => c.taken.len() >= c.limit,
        None => false,
    });
    if over {
        panic!("mc: too many random draws");
    }
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        let c = match *c {
            Some(ref mut c) => c,
            None => return None,
        };
        let i = c.taken.len();
        let v = if i < c.script.len() {
            if c.script[i] >= n {
                c.diverged = true;
                0
            } else {
                c.script[i]
            }
        } else {
            0
        };
        c.taken.push(v);
        c.arity.push(n);
        Some(v)
    })
}

pub fn word() -> Option<u64> {
    choose(3).map(|k| match k {
        0 => 0,
        1 => 0x8000_0000_8000_0000,
        _ => !0,
    })
}

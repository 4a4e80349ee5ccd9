//! Faults a harness can inject at this component's interface (per thread, off by default).

use crate::{EncodeError, ParseError};
use std::cell::RefCell;

#[derive(Debug, Clone, Default)]
pub struct Faults {
    /// Fail the next decodings with this message.
    pub parse: Option<String>,
    /// Fail the next encodings with this message.
    pub encode: Option<String>,
    /// Fail the type inference of the n-th instruction checked from now on.
    pub type_check: Option<(u64, String)>,
}

#[derive(Debug, Clone, Default)]
pub struct Seen {
    pub parsed: u64,
    pub encoded: u64,
    pub checked: u64,
}

thread_local! {
    static FAULTS: RefCell<(Faults, Seen)> = RefCell::new(Default::default());
}

pub fn set(f: Faults) {
    FAULTS.with(|s| *s.borrow_mut() = (f, Seen::default()));
}

pub fn take() -> Seen {
    FAULTS.with(|s| std::mem::take(&mut *s.borrow_mut()).1)
}

pub(crate) fn at_parse(_: &[u8]) -> Result<(), ParseError> {
    FAULTS.with(|s| {
        let s = &mut *s.borrow_mut();
        s.1.parsed += 1;
        match &s.0.parse {
            Some(m) => Err(ParseError { message: m.clone() }),
            None => Ok(()),
        }
    })
}

pub(crate) fn at_encode() -> Result<(), EncodeError> {
    FAULTS.with(|s| {
        let s = &mut *s.borrow_mut();
        s.1.encoded += 1;
        match &s.0.encode {
            Some(m) => Err(EncodeError { message: m.clone() }),
            None => Ok(()),
        }
    })
}

pub(crate) fn at_check() -> Option<String> {
    FAULTS.with(|s| {
        let s = &mut *s.borrow_mut();
        let n = s.1.checked;
        s.1.checked += 1;
        match &s.0.type_check {
            Some((k, m)) if *k == n => Some(m.clone()),
            _ => None,
        }
    })
}

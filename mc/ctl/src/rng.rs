//! Control of the random source (used by the patched `rand`).
use std::cell::{Cell, RefCell};

thread_local! {
    static FORCED: Cell<Option<u64>> = const { Cell::new(None) };
    static SCRIPT: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
    /// draws since the last `force` or `script`, with no lock taken in between
    static SINCE: Cell<u64> = const { Cell::new(0) };
}

/// A value given again and again could be refused for ever (sampling by rejection): after so many draws other values follow.
const PATIENCE: u64 = 64;

/// every draw made by this thread returns the value (None: draws are pseudo random again)
pub fn force(v: Option<u64>) {
    FORCED.with(|f| f.set(v));
    SINCE.with(|n| n.set(0));
    SCRIPT.with(|s| s.borrow_mut().clear());
}

/// the next draws of this thread return these values, the last one for ever
pub fn script(v: &[u64]) {
    FORCED.with(|f| f.set(v.last().copied()));
    SINCE.with(|n| n.set(0));
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.clear();
        s.extend(v.iter().rev());
    });
}

/// between draws something else has happened: nothing is being refused
pub fn calm() {
    SINCE.with(|n| n.set(0));
}

/// number of draws made by this thread
pub fn draws() -> u64 {
    DRAWS.with(|d| d.get())
}

pub fn next() -> Option<u64> {
    DRAWS.with(|d| d.set(d.get() + 1));
    let s = SCRIPT.with(|s| s.borrow_mut().pop());
    if s.is_some() {
        return s;
    }
    let n = SINCE.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    let f = FORCED.with(|f| f.get())?;
    Some(if n <= PATIENCE { f } else { f.wrapping_add((n - PATIENCE).wrapping_mul(0x9E37_79B9_7F4A_7C15)) })
}

/// what `force` has set in this thread
pub fn forced() -> Option<u64> {
    FORCED.with(|f| f.get())
}

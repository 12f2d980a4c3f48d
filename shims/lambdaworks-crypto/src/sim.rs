//! Simulation seam: every transcript operation is reported to the hook of the current thread, if
//! any. The hook may record, yield to another simulated node, or change a challenge.
use std::cell::{Cell, RefCell};

pub enum Event<'a> {
    New(u64),
    Append(u64, &'a [u8]),
    Challenge(u64, &'a mut [u8; 32]),
}
type Hook = Box<dyn FnMut(Event<'_>)>;

thread_local! {
    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
    static NEXT: Cell<u64> = Cell::new(0);
}
pub(crate) fn fresh_id() -> u64 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
pub(crate) fn emit(e: Event<'_>) {
    lambdaworks_math::sim::point("transcript");
    // Taken out while it runs, so that a hook which re-enters the transcript sees no hook.
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f(e);
        HOOK.with(|h| {
            let mut h = h.borrow_mut();
            if h.is_none() {
                *h = Some(f);
            }
        });
    }
}
/// Installs a hook on this thread and returns the previous one. Resets the id counter.
pub fn set_hook(h: Option<Hook>) -> Option<Hook> {
    NEXT.with(|n| n.set(0));
    HOOK.with(|c| std::mem::replace(&mut *c.borrow_mut(), h))
}

//! Simulation seam: the points at which a simulated session may lose the processor or die. Off
//! (one thread-local flag) unless a hook is installed on the thread.
use std::cell::{Cell, RefCell};

type Hook = Box<dyn FnMut(&'static str)>;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
pub fn set_point(h: Option<Hook>) {
    ON.with(|o| o.set(h.is_some()));
    HOOK.with(|c| *c.borrow_mut() = h);
}
#[inline]
pub fn point(what: &'static str) {
    if ON.with(|o| o.get()) {
        strike(what)
    }
}
#[cold]
fn strike(what: &'static str) {
    let h = HOOK.with(|c| c.borrow_mut().take());
    if let Some(mut f) = h {
        f(what);
        HOOK.with(|c| *c.borrow_mut() = Some(f));
    }
}

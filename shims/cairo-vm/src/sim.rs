//! Simulation seams of the virtual machine: a step budget (a run past it fails like an exhausted
//! run resource) and a fault that strikes at a chosen step.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The VM reports an error at this step.
    StepError,
    /// The trace is lost: `get_relocated_trace` fails.
    TraceLost,
    /// The process dies (panics) at this step.
    Crash,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Plan {
    pub step_limit: Option<usize>,
    pub fault: Option<(usize, Fault)>,
    /// no segment grows beyond this many cells: memory is exhausted
    pub memory_limit: Option<usize>,
}

/// What the last run really did, kept when its memory was relocated.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Run {
    /// pc, ap, fp before every step
    pub steps: Vec<(u64, u64, u64)>,
    /// little-endian values by address
    pub memory: Vec<Option<[u8; 32]>>,
    /// base and used length of the range check segment
    pub range_check: Option<(u64, u64)>,
    pub output: Option<(u64, u64)>,
}
thread_local! {
    static PLAN: RefCell<Plan> = RefCell::new(from_env());
    static RUN: RefCell<Option<Run>> = RefCell::new(None);
    static FIRED: RefCell<usize> = RefCell::new(0);
}
/// The plan of a process of its own, from SIM_VM="steps,cells,step of the fault,kind" (or "-").
fn from_env() -> Plan {
    let v = std::env::var("SIM_VM").unwrap_or_default();
    let mut it = v.split(',').map(|x| x.parse::<usize>().ok());
    let mut next = || it.next().flatten();
    Plan {
        step_limit: next(),
        memory_limit: next(),
        fault: match (next(), next()) {
            (Some(at), Some(0)) => Some((at, Fault::StepError)),
            (Some(at), Some(1)) => Some((at, Fault::TraceLost)),
            (Some(at), Some(2)) => Some((at, Fault::Crash)),
            _ => None,
        },
    }
}
pub fn set_plan(p: Plan) {
    PLAN.with(|c| *c.borrow_mut() = p);
    FIRED.with(|c| *c.borrow_mut() = 0);
    RUN.with(|c| *c.borrow_mut() = None);
}
pub fn plan() -> Plan {
    PLAN.with(|c| *c.borrow())
}
pub fn fired() -> usize {
    FIRED.with(|c| *c.borrow())
}
pub(crate) fn fire() {
    FIRED.with(|c| *c.borrow_mut() += 1)
}
pub fn last_run() -> Option<Run> {
    RUN.with(|c| c.borrow().clone())
}
pub(crate) fn record(r: Run) {
    RUN.with(|c| *c.borrow_mut() = Some(r))
}

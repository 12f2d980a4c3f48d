pub mod memory_errors {
    use crate::types::relocatable::Relocatable;
    use thiserror::Error;
    #[derive(Debug, Error, PartialEq, Eq)]
    pub enum MemoryError {
        #[error("Missing memory cells of the range check builtin")]
        MissingMemoryCells,
        #[error("Can't insert into segment {0:?}: unallocated")]
        UnallocatedSegment(Relocatable),
        #[error("Inconsistent memory assignment at address {0:?}")]
        InconsistentMemory(Relocatable),
        #[error("Range-check validation failed, number is out of valid range")]
        NumOutOfBounds,
        #[error("Range-check validation failed, encountered non-int value")]
        FoundNonInt,
        #[error("Gap in memory")]
        InsertGap,
    }
}
pub mod vm_errors {
    use super::memory_errors::MemoryError;
    use crate::types::errors::MathError;
    use crate::types::relocatable::Relocatable;
    use thiserror::Error;
    #[derive(Debug, Error)]
    pub enum VirtualMachineError {
        #[error("Invalid instruction encoding at {0:?}")]
        InvalidInstruction(Relocatable),
        #[error("Unknown value for memory cell {0:?}")]
        UnknownMemoryCell(Relocatable),
        #[error("Failed to compute or deduce operands")]
        FailedToComputeOperands,
        #[error("An ASSERT_EQ instruction failed")]
        DiffAssertValues,
        #[error("Call failed to write return-pc or return-fp")]
        CantWriteReturn,
        #[error("PC, AP or FP update is not a valid pointer")]
        BadRegisterUpdate,
        #[error("Unconstrained result where a value is needed")]
        UnconstrainedRes,
        #[error("Execution reached the end of the program without reaching the end pointer")]
        EndOfProgram,
        #[error("Out of steps")]
        UnfinishedExecution,
        #[error("Unknown hint: {0}")]
        UnknownHint(String),
        #[error("Couldn't find {0} builtin")]
        NoBuiltin(&'static str),
        #[error(transparent)]
        Memory(#[from] MemoryError),
        #[error(transparent)]
        Math(#[from] MathError),
        #[error(transparent)]
        Trace(#[from] super::trace_errors::TraceError),
        #[error("Simulated fault")]
        Simulated,
    }
}
pub mod trace_errors {
    use thiserror::Error;
    #[derive(Debug, Error, PartialEq, Eq)]
    pub enum TraceError {
        #[error("Trace is not enabled for this run")]
        TraceNotEnabled,
        #[error("Trace was not relocated")]
        TraceNotRelocated,
        #[error("No relocation found for execution segment")]
        NoRelocationFound,
    }
}
pub mod runner_errors {
    use super::memory_errors::MemoryError;
    use thiserror::Error;
    #[derive(Debug, Error)]
    pub enum RunnerError {
        #[error("Missing main()")]
        MissingMain,
        #[error("Invalid layout name {0}")]
        InvalidLayoutName(String),
        #[error("Builtin {0} not present in layout {1}")]
        NoBuiltinForInstance(String, String),
        #[error("Invalid stop pointer for {0}")]
        InvalidStopPointer(&'static str),
        #[error("No stop pointer for {0}")]
        NoStopPointer(&'static str),
        #[error(transparent)]
        Memory(#[from] MemoryError),
        #[error(transparent)]
        Math(#[from] crate::types::errors::MathError),
        #[error("runner was not initialised")]
        NotInitialised,
    }
}
pub mod cairo_run_errors {
    use super::{memory_errors::MemoryError, runner_errors::RunnerError, trace_errors::TraceError, vm_errors::VirtualMachineError};
    use crate::types::errors::program_errors::ProgramError;
    use thiserror::Error;
    #[derive(Debug, Error)]
    pub enum CairoRunError {
        #[error(transparent)]
        Program(#[from] ProgramError),
        #[error(transparent)]
        Runner(#[from] RunnerError),
        #[error(transparent)]
        VirtualMachine(#[from] VirtualMachineError),
        #[error(transparent)]
        Trace(#[from] TraceError),
        #[error(transparent)]
        MemoryError(#[from] MemoryError),
    }
}

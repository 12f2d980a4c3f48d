use crate::felt::Felt252;
use crate::hint_processor::hint_processor_definition::HintProcessor;
use crate::types::program::Program;
use crate::vm::errors::cairo_run_errors::CairoRunError;
use crate::vm::runners::cairo_runner::{CairoRunner, RunResources};
use crate::vm::trace::trace_entry::TraceEntry;
use crate::vm::vm_core::VirtualMachine;
use thiserror::Error;

pub struct CairoRunConfig<'a> {
    pub entrypoint: &'a str,
    pub trace_enabled: bool,
    pub relocate_mem: bool,
    pub layout: &'a str,
    pub proof_mode: bool,
    pub secure_run: Option<bool>,
}
impl<'a> Default for CairoRunConfig<'a> {
    fn default() -> Self {
        CairoRunConfig {
            entrypoint: "main",
            trace_enabled: false,
            relocate_mem: false,
            layout: "plain",
            proof_mode: false,
            secure_run: None,
        }
    }
}

pub fn cairo_run(
    program_content: &[u8],
    cfg: &CairoRunConfig,
    hint_executor: &mut dyn HintProcessor,
) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
    let program = Program::from_bytes(program_content, Some(cfg.entrypoint))?;
    let mut runner = CairoRunner::new(&program, cfg.layout, cfg.proof_mode)?;
    let mut vm = VirtualMachine::new(cfg.trace_enabled);
    let end = runner.initialize(&mut vm)?;
    let mut res = RunResources::default();
    runner.run_until_pc(end, &mut res, &mut vm, hint_executor)?;
    runner.end_run(false, false, &mut vm, hint_executor)?;
    vm.verify_auto_deductions()?;
    runner.read_return_values(&mut vm)?;
    if cfg.secure_run.unwrap_or(!cfg.proof_mode) {
        vm.verify_secure()?;
    }
    runner.relocate(&mut vm, cfg.relocate_mem)?;
    Ok((runner, vm))
}

#[derive(Debug, Error)]
#[error("Failed to encode trace at position {0}, serialize error: {1}")]
pub struct EncodeTraceError(pub usize, pub bincode::error::EncodeError);

pub fn write_encoded_trace(
    relocated_trace: &[TraceEntry],
    dest: &mut impl bincode::enc::write::Writer,
) -> Result<(), EncodeTraceError> {
    for (i, entry) in relocated_trace.iter().enumerate() {
        for v in [entry.ap, entry.fp, entry.pc] {
            dest.write(&(v as u64).to_le_bytes()).map_err(|e| EncodeTraceError(i, e))?;
        }
    }
    Ok(())
}
pub fn write_encoded_memory(
    relocated_memory: &[Option<Felt252>],
    dest: &mut impl bincode::enc::write::Writer,
) -> Result<(), EncodeTraceError> {
    for (i, cell) in relocated_memory.iter().enumerate() {
        if let Some(v) = cell {
            dest.write(&(i as u64).to_le_bytes()).map_err(|e| EncodeTraceError(i, e))?;
            dest.write(&v.to_le_bytes()).map_err(|e| EncodeTraceError(i, e))?;
        }
    }
    Ok(())
}

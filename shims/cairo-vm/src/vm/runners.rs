pub mod builtin_runner {
    use crate::types::relocatable::{MaybeRelocatable, Relocatable};

    #[derive(Debug, Clone)]
    pub struct RangeCheckBuiltinRunner {
        pub(crate) base: usize,
        pub(crate) stop_ptr: Option<usize>,
    }
    impl RangeCheckBuiltinRunner {
        pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
            (self.base, self.stop_ptr)
        }
        pub fn base(&self) -> usize {
            self.base
        }
    }
    #[derive(Debug, Clone)]
    pub struct OutputBuiltinRunner {
        pub(crate) base: usize,
        pub(crate) stop_ptr: Option<usize>,
    }
    #[derive(Debug, Clone)]
    pub enum BuiltinRunner {
        Output(OutputBuiltinRunner),
        RangeCheck(RangeCheckBuiltinRunner),
    }
    impl BuiltinRunner {
        pub fn name(&self) -> &'static str {
            match self {
                BuiltinRunner::Output(_) => "output_builtin",
                BuiltinRunner::RangeCheck(_) => "range_check_builtin",
            }
        }
        pub fn base(&self) -> usize {
            match self {
                BuiltinRunner::Output(b) => b.base,
                BuiltinRunner::RangeCheck(b) => b.base,
            }
        }
        pub(crate) fn is_range_check(&self) -> bool {
            matches!(self, BuiltinRunner::RangeCheck(_))
        }
        pub fn initial_stack(&self) -> Vec<MaybeRelocatable> {
            vec![MaybeRelocatable::from(Relocatable { segment_index: self.base() as isize, offset: 0 })]
        }
        pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
            match self {
                BuiltinRunner::Output(b) => (b.base, b.stop_ptr),
                BuiltinRunner::RangeCheck(b) => (b.base, b.stop_ptr),
            }
        }
        pub(crate) fn set_stop(&mut self, s: usize) {
            match self {
                BuiltinRunner::Output(b) => b.stop_ptr = Some(s),
                BuiltinRunner::RangeCheck(b) => b.stop_ptr = Some(s),
            }
        }
    }
}
pub mod cairo_runner {
    use super::builtin_runner::{BuiltinRunner, OutputBuiltinRunner, RangeCheckBuiltinRunner};
    use crate::felt::Felt252;
    use crate::hint_processor::hint_processor_definition::HintProcessor;
    use crate::serde::deserialize_program::BuiltinName;
    use crate::types::program::Program;
    use crate::types::relocatable::{MaybeRelocatable, Relocatable};
    use crate::vm::errors::cairo_run_errors::CairoRunError;
    use crate::vm::errors::memory_errors::MemoryError;
    use crate::vm::errors::runner_errors::RunnerError;
    use crate::vm::errors::trace_errors::TraceError;
    use crate::vm::errors::vm_errors::VirtualMachineError;
    use crate::vm::trace::trace_entry::TraceEntry;
    use crate::vm::vm_core::VirtualMachine;

    #[derive(Clone, Debug, Default)]
    pub struct RunResources {
        n_steps: Option<usize>,
    }
    impl RunResources {
        pub fn new(n_steps: usize) -> Self {
            Self { n_steps: Some(n_steps) }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum CairoArg {
        Single(MaybeRelocatable),
        Array(Vec<MaybeRelocatable>),
        Composed(Vec<CairoArg>),
    }
    impl From<MaybeRelocatable> for CairoArg {
        fn from(v: MaybeRelocatable) -> Self {
            CairoArg::Single(v)
        }
    }
    impl From<Vec<MaybeRelocatable>> for CairoArg {
        fn from(v: Vec<MaybeRelocatable>) -> Self {
            CairoArg::Array(v)
        }
    }
    #[derive(Debug)]
    pub struct CairoRunner {
        program: Program,
        layout: String,
        pub program_base: Option<Relocatable>,
        execution_base: Option<Relocatable>,
        pub relocated_memory: Vec<Option<Felt252>>,
    }
    const LAYOUTS: [&str; 11] = [
        "plain", "small", "dex", "recursive", "starknet", "starknet_with_keccak",
        "recursive_large_output", "all_cairo", "all_solidity", "dynamic", "perpetual",
    ];

    impl CairoRunner {
        pub fn new(program: &Program, layout: &str, _proof_mode: bool) -> Result<Self, RunnerError> {
            if !LAYOUTS.contains(&layout) {
                return Err(RunnerError::InvalidLayoutName(layout.to_string()));
            }
            Ok(Self {
                program: program.clone(),
                layout: layout.to_string(),
                program_base: None,
                execution_base: None,
                relocated_memory: vec![],
            })
        }
        pub fn get_program(&self) -> &Program {
            &self.program
        }
        pub fn get_program_builtins(&self) -> &Vec<BuiltinName> {
            &self.program.builtins
        }
        fn add_builtin(&self, vm: &mut VirtualMachine, b: BuiltinName) -> Result<(), RunnerError> {
            let r = match b {
                BuiltinName::output => BuiltinRunner::Output(OutputBuiltinRunner { base: 0, stop_ptr: None }),
                BuiltinName::range_check => BuiltinRunner::RangeCheck(RangeCheckBuiltinRunner { base: usize::MAX, stop_ptr: None }),
                other => return Err(RunnerError::NoBuiltinForInstance(other.name().into(), self.layout.clone())),
            };
            vm.builtins.push(r);
            Ok(())
        }
        fn initialize_segments(&mut self, vm: &mut VirtualMachine) {
            self.program_base = Some(vm.add_memory_segment());
            self.execution_base = Some(vm.add_memory_segment());
            for i in 0..vm.builtins.len() {
                let s = vm.add_memory_segment().segment_index as usize;
                match &mut vm.builtins[i] {
                    BuiltinRunner::Output(b) => b.base = s,
                    BuiltinRunner::RangeCheck(b) => b.base = s,
                }
            }
        }
        pub fn initialize(&mut self, vm: &mut VirtualMachine) -> Result<Relocatable, RunnerError> {
            let order = [BuiltinName::output, BuiltinName::range_check];
            for b in self.program.builtins.clone() {
                if self.layout == "plain" || !order.contains(&b) {
                    return Err(RunnerError::NoBuiltinForInstance(b.name().into(), self.layout.clone()));
                }
            }
            for b in order {
                if self.program.builtins.contains(&b) {
                    self.add_builtin(vm, b)?;
                }
            }
            self.initialize_segments(vm);
            let mut stack: Vec<MaybeRelocatable> = vm.builtins.iter().flat_map(|b| b.initial_stack()).collect();
            let main = self.program.main.ok_or(RunnerError::MissingMain)?;
            let return_fp = vm.add_memory_segment();
            stack.shrink_to_fit();
            self.initialize_function_entrypoint(vm, main, stack, return_fp.into())
        }
        pub fn initialize_function_runner_cairo_1(
            &mut self,
            vm: &mut VirtualMachine,
            program_builtins: &[BuiltinName],
        ) -> Result<(), RunnerError> {
            self.program.builtins = program_builtins.to_vec();
            for b in program_builtins {
                self.add_builtin(vm, *b)?;
            }
            self.initialize_segments(vm);
            Ok(())
        }
        fn initialize_function_entrypoint(
            &mut self,
            vm: &mut VirtualMachine,
            entrypoint: usize,
            mut stack: Vec<MaybeRelocatable>,
            return_fp: MaybeRelocatable,
        ) -> Result<Relocatable, RunnerError> {
            let end = vm.add_memory_segment();
            stack.push(return_fp);
            stack.push(end.into());
            let pb = self.program_base.ok_or(RunnerError::NotInitialised)?;
            let eb = self.execution_base.ok_or(RunnerError::NotInitialised)?;
            vm.load_data(pb, &self.program.data)?;
            vm.load_data(eb, &stack)?;
            vm.pc = (pb + entrypoint)?;
            vm.ap = (eb + stack.len())?;
            vm.fp = vm.ap;
            Ok(end)
        }
        pub fn run_until_pc(
            &mut self,
            end: Relocatable,
            res: &mut RunResources,
            vm: &mut VirtualMachine,
            hp: &mut dyn HintProcessor,
        ) -> Result<(), VirtualMachineError> {
            let pb = self.program_base.map(|p| p.segment_index).unwrap_or(0);
            while vm.pc != end {
                if let Some(n) = res.n_steps.as_mut() {
                    *n = n.checked_sub(1).ok_or(VirtualMachineError::UnfinishedExecution)?;
                }
                if vm.pc.segment_index == pb {
                    let off = vm.pc.offset;
                    hp.execute(vm, off, self.program.hints.get(&off))?;
                }
                vm.step()?;
            }
            Ok(())
        }
        pub fn end_run(
            &mut self,
            _disable_trace_padding: bool,
            _disable_finalize_all: bool,
            _vm: &mut VirtualMachine,
            _hp: &mut dyn HintProcessor,
        ) -> Result<(), VirtualMachineError> {
            Ok(())
        }
        pub fn read_return_values(&mut self, vm: &mut VirtualMachine) -> Result<(), RunnerError> {
            let mut p = vm.ap;
            for i in (0..vm.builtins.len()).rev() {
                let name = vm.builtins[i].name();
                p = p.offset_by(-1)?;
                let base = vm.builtins[i].base();
                let stop = match vm.get_value(p) {
                    Some(MaybeRelocatable::RelocatableValue(r)) => r,
                    _ => return Err(RunnerError::NoStopPointer(name)),
                };
                if stop.segment_index as usize != base || stop.offset != vm.mem[base].len() {
                    return Err(RunnerError::InvalidStopPointer(name));
                }
                vm.builtins[i].set_stop(stop.offset);
            }
            Ok(())
        }
        #[allow(clippy::too_many_arguments)]
        pub fn run_from_entrypoint(
            &mut self,
            entrypoint: usize,
            args: &[&CairoArg],
            run_resources: &mut RunResources,
            verify_secure: bool,
            _program_segment_size: Option<usize>,
            vm: &mut VirtualMachine,
            hint_processor: &mut dyn HintProcessor,
        ) -> Result<(), CairoRunError> {
            let mut stack = vec![];
            for a in args {
                match a {
                    CairoArg::Single(v) => stack.push(v.clone()),
                    CairoArg::Array(v) => {
                        let s = vm.add_memory_segment();
                        vm.load_data(s, v)?;
                        stack.push(s.into());
                    }
                    CairoArg::Composed(_) => return Err(MemoryError::InsertGap.into()),
                }
            }
            let end = self.initialize_function_entrypoint(vm, entrypoint, stack, MaybeRelocatable::from(0usize))?;
            self.run_until_pc(end, run_resources, vm, hint_processor)?;
            self.end_run(false, false, vm, hint_processor)?;
            if verify_secure {
                vm.verify_secure()?;
            }
            Ok(())
        }
        pub fn relocate(&mut self, vm: &mut VirtualMachine, relocate_mem: bool) -> Result<(), TraceError> {
            let bases = vm.bases();
            if relocate_mem {
                let mut out = vec![None];
                for s in &vm.mem {
                    for c in s {
                        out.push(c.as_ref().map(|v| vm.relocate_value(&bases, v)));
                    }
                }
                self.relocated_memory = out;
            }
            let at = |r: &Relocatable| bases.get(r.segment_index as usize).map(|b| b + r.offset).ok_or(TraceError::NoRelocationFound);
            let mut t = Vec::with_capacity(vm.trace.len());
            for (pc, ap, fp) in &vm.trace {
                t.push(TraceEntry { pc: at(pc)?, ap: at(ap)?, fp: at(fp)? });
            }
            let seg = |rc: bool| {
                vm.builtins.iter().find(|b| b.is_range_check() == rc).map(|b| (bases[b.base()] as u64, vm.mem[b.base()].len() as u64))
            };
            crate::sim::record(crate::sim::Run {
                steps: t.iter().map(|e| (e.pc as u64, e.ap as u64, e.fp as u64)).collect(),
                memory: self.relocated_memory.iter().map(|c| c.as_ref().map(|v| v.to_le_bytes())).collect(),
                range_check: seg(true),
                output: seg(false),
            });
            vm.relocated_trace = Some(t);
            Ok(())
        }
    }
}

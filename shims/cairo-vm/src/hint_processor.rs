pub mod hint_processor_definition {
    use crate::vm::errors::vm_errors::VirtualMachineError;
    use crate::vm::vm_core::VirtualMachine;
    pub trait HintProcessor {
        /// Runs the hints attached to this program offset. `code` are the hints of the program
        /// file, for processors which do not carry their own.
        fn execute(&mut self, vm: &mut VirtualMachine, pc: usize, code: Option<&Vec<String>>) -> Result<(), VirtualMachineError>;
    }
}
pub mod builtin_hint_processor {
    pub mod builtin_hint_processor_definition {
        use crate::hint_processor::hint_processor_definition::HintProcessor;
        use crate::vm::errors::vm_errors::VirtualMachineError;
        use crate::vm::vm_core::VirtualMachine;
        pub struct BuiltinHintProcessor {}
        impl BuiltinHintProcessor {
            pub fn new_empty() -> Self {
                Self {}
            }
        }
        impl HintProcessor for BuiltinHintProcessor {
            fn execute(&mut self, vm: &mut VirtualMachine, _pc: usize, code: Option<&Vec<String>>) -> Result<(), VirtualMachineError> {
                for c in code.into_iter().flatten() {
                    match c.as_str() {
                        "memory[ap] = segments.add()" => {
                            let s = vm.add_memory_segment();
                            let ap = vm.get_ap();
                            vm.insert_value(ap, s)?;
                        }
                        other => return Err(VirtualMachineError::UnknownHint(other.to_string())),
                    }
                }
                Ok(())
            }
        }
    }
}
pub mod cairo_1_hint_processor {
    pub mod hint_processor {
        use crate::felt::Felt252;
        use crate::hint_processor::hint_processor_definition::HintProcessor;
        use crate::types::relocatable::{MaybeRelocatable, Relocatable};
        use crate::vm::errors::vm_errors::VirtualMachineError;
        use crate::vm::vm_core::VirtualMachine;
        use cairo_lang_starknet::casm_contract_class::Hint;
        use serde_json::Value;
        use std::collections::HashMap;

        pub struct Cairo1HintProcessor {
            hints: HashMap<usize, Vec<Hint>>,
        }
        impl Cairo1HintProcessor {
            pub fn new(hints: &[(usize, Vec<Hint>)]) -> Self {
                Self { hints: hints.iter().cloned().collect() }
            }
        }
        fn bad(h: &Value) -> VirtualMachineError {
            VirtualMachineError::UnknownHint(h.to_string())
        }
        fn cell(vm: &VirtualMachine, c: &Value) -> Result<Relocatable, VirtualMachineError> {
            let off = c.get("offset").and_then(|o| o.as_i64()).ok_or_else(|| bad(c))?;
            let base = match c.get("register").and_then(|r| r.as_str()) {
                Some("AP") => vm.get_ap(),
                Some("FP") => vm.get_fp(),
                _ => return Err(bad(c)),
            };
            Ok(base.offset_by(off)?)
        }
        fn operand(vm: &VirtualMachine, o: &Value) -> Result<Felt252, VirtualMachineError> {
            if let Some(i) = o.get("Immediate").and_then(|i| i.as_str()) {
                return Felt252::from_str_any(i).ok_or_else(|| bad(o));
            }
            if let Some(d) = o.get("Deref") {
                let a = cell(vm, d)?;
                return match vm.get_value(a) {
                    Some(MaybeRelocatable::Int(x)) => Ok(x),
                    _ => Err(VirtualMachineError::UnknownMemoryCell(a)),
                };
            }
            Err(bad(o))
        }
        impl HintProcessor for Cairo1HintProcessor {
            fn execute(&mut self, vm: &mut VirtualMachine, pc: usize, _code: Option<&Vec<String>>) -> Result<(), VirtualMachineError> {
                let Some(hs) = self.hints.get(&pc) else { return Ok(()) };
                for h in hs {
                    if let Some(a) = h.get("AllocSegment") {
                        let s = vm.add_memory_segment();
                        let d = cell(vm, a.get("dst").ok_or_else(|| bad(h))?)?;
                        vm.insert_value(d, s)?;
                    } else if let Some((a, strict)) = h
                        .get("TestLessThanOrEqual")
                        .map(|a| (a, false))
                        .or_else(|| h.get("TestLessThan").map(|a| (a, true)))
                    {
                        let l = operand(vm, a.get("lhs").ok_or_else(|| bad(h))?)?;
                        let r = operand(vm, a.get("rhs").ok_or_else(|| bad(h))?)?;
                        let d = cell(vm, a.get("dst").ok_or_else(|| bad(h))?)?;
                        let v = if strict { l.cmp_repr(&r).is_lt() } else { l.cmp_repr(&r).is_le() };
                        vm.insert_value(d, MaybeRelocatable::from(v as usize))?;
                    } else {
                        return Err(bad(h));
                    }
                }
                Ok(())
            }
        }
    }
}

use crate::felt::Felt252;
use crate::sim;
use crate::types::errors::MathError;
use crate::types::relocatable::{MaybeRelocatable, Relocatable};
use crate::vm::errors::memory_errors::MemoryError;
use crate::vm::errors::trace_errors::TraceError;
use crate::vm::errors::vm_errors::VirtualMachineError;
use crate::vm::runners::builtin_runner::{BuiltinRunner, RangeCheckBuiltinRunner};
use crate::vm::trace::trace_entry::TraceEntry;

pub struct VirtualMachine {
    pub(crate) mem: Vec<Vec<Option<MaybeRelocatable>>>,
    pub(crate) builtins: Vec<BuiltinRunner>,
    pub(crate) pc: Relocatable,
    pub(crate) ap: Relocatable,
    pub(crate) fp: Relocatable,
    trace_enabled: bool,
    pub(crate) trace: Vec<(Relocatable, Relocatable, Relocatable)>,
    pub(crate) relocated_trace: Option<Vec<TraceEntry>>,
    pub current_step: usize,
}

const MAX_SEGMENT: usize = 1 << 26;

impl VirtualMachine {
    pub fn new(trace_enabled: bool) -> Self {
        let z = Relocatable { segment_index: 0, offset: 0 };
        Self {
            mem: vec![],
            builtins: vec![],
            pc: z,
            ap: z,
            fp: z,
            trace_enabled,
            trace: vec![],
            relocated_trace: None,
            current_step: 0,
        }
    }
    pub fn get_ap(&self) -> Relocatable {
        self.ap
    }
    pub fn get_fp(&self) -> Relocatable {
        self.fp
    }
    pub fn get_pc(&self) -> Relocatable {
        self.pc
    }
    pub fn add_memory_segment(&mut self) -> Relocatable {
        self.mem.push(vec![]);
        Relocatable { segment_index: self.mem.len() as isize - 1, offset: 0 }
    }
    pub fn get_value(&self, a: Relocatable) -> Option<MaybeRelocatable> {
        self.mem.get(a.segment_index as usize)?.get(a.offset)?.clone()
    }
    pub fn get_maybe(&self, a: &Relocatable) -> Option<MaybeRelocatable> {
        self.get_value(*a)
    }
    pub fn insert_value<T: Into<MaybeRelocatable>>(&mut self, a: Relocatable, v: T) -> Result<(), MemoryError> {
        let v = v.into();
        if self.builtins.iter().any(|b| b.is_range_check() && b.base() == a.segment_index as usize) {
            match &v {
                MaybeRelocatable::Int(x) if x.bits() <= 128 => {}
                MaybeRelocatable::Int(_) => return Err(MemoryError::NumOutOfBounds),
                _ => return Err(MemoryError::FoundNonInt),
            }
        }
        if a.offset >= sim::plan().memory_limit.unwrap_or(MAX_SEGMENT) {
            return Err(MemoryError::InsertGap);
        }
        let seg = self.mem.get_mut(a.segment_index as usize).ok_or(MemoryError::UnallocatedSegment(a))?;
        if seg.len() <= a.offset {
            seg.resize(a.offset + 1, None);
        }
        match &seg[a.offset] {
            None => seg[a.offset] = Some(v),
            Some(x) if *x == v => {}
            _ => return Err(MemoryError::InconsistentMemory(a)),
        }
        Ok(())
    }
    pub fn load_data(&mut self, ptr: Relocatable, data: &Vec<MaybeRelocatable>) -> Result<Relocatable, MemoryError> {
        for (i, d) in data.iter().enumerate() {
            self.insert_value(Relocatable { offset: ptr.offset + i, ..ptr }, d.clone())?;
        }
        Ok(Relocatable { offset: ptr.offset + data.len(), ..ptr })
    }
    pub fn get_segment_size(&self, index: usize) -> Option<usize> {
        self.mem.get(index).map(|s| s.len())
    }
    pub fn get_segment_used_size(&self, index: usize) -> Option<usize> {
        self.get_segment_size(index)
    }
    pub fn get_builtin_runners(&self) -> &Vec<BuiltinRunner> {
        &self.builtins
    }
    pub fn get_range_check_builtin(&self) -> Result<&RangeCheckBuiltinRunner, VirtualMachineError> {
        self.builtins
            .iter()
            .find_map(|b| match b {
                BuiltinRunner::RangeCheck(r) => Some(r),
                _ => None,
            })
            .ok_or(VirtualMachineError::NoBuiltin("range_check"))
    }
    pub fn get_relocated_trace(&self) -> Result<&Vec<TraceEntry>, TraceError> {
        if let Some((_, sim::Fault::TraceLost)) = sim::plan().fault {
            sim::fire();
            return Err(TraceError::TraceNotRelocated);
        }
        if !self.trace_enabled {
            return Err(TraceError::TraceNotEnabled);
        }
        self.relocated_trace.as_ref().ok_or(TraceError::TraceNotRelocated)
    }
    /// The range check segment must not have gaps.
    pub(crate) fn verify_secure(&self) -> Result<(), VirtualMachineError> {
        for b in &self.builtins {
            if b.is_range_check() && self.mem[b.base()].iter().any(|c| c.is_none()) {
                return Err(MemoryError::MissingMemoryCells.into());
            }
        }
        Ok(())
    }
    pub fn verify_auto_deductions(&self) -> Result<(), VirtualMachineError> {
        Ok(())
    }

    pub(crate) fn step(&mut self) -> Result<(), VirtualMachineError> {
        lambdaworks_math::sim::point("vm_step");
        let plan = sim::plan();
        if let Some(l) = plan.step_limit {
            if self.current_step >= l {
                return Err(VirtualMachineError::UnfinishedExecution);
            }
        }
        match plan.fault {
            Some((s, sim::Fault::StepError)) if s == self.current_step => {
                sim::fire();
                return Err(VirtualMachineError::Simulated);
            }
            Some((s, sim::Fault::Crash)) if s == self.current_step => {
                sim::fire();
                panic!("simulated crash of the virtual machine at step {s}");
            }
            _ => {}
        }
        let pc = self.pc;
        let enc = match self.get_value(pc) {
            Some(MaybeRelocatable::Int(x)) => x.to_u64().ok_or(VirtualMachineError::InvalidInstruction(pc))?,
            Some(_) => return Err(VirtualMachineError::InvalidInstruction(pc)),
            None => return Err(VirtualMachineError::UnknownMemoryCell(pc)),
        };
        let bad = || VirtualMachineError::InvalidInstruction(pc);
        if enc >> 63 != 0 {
            return Err(bad());
        }
        let off = |s: u32| ((enc >> s) & 0xffff) as i64 - (1 << 15);
        let (o0, o1, o2) = (off(0), off(16), off(32));
        let fl = |b: u32, n: u32| (enc >> (48 + b)) & ((1 << n) - 1);
        let (dst_reg, op0_reg, op1_src, res_l, pc_up, ap_up, opc) =
            (fl(0, 1), fl(1, 1), fl(2, 3), fl(5, 2), fl(7, 3), fl(10, 2), fl(12, 3));
        if ![0, 1, 2, 4].contains(&op1_src) || res_l == 3 || ![0, 1, 2, 4].contains(&pc_up) || ap_up == 3 || ![0, 1, 2, 4].contains(&opc) {
            return Err(bad());
        }
        let size: usize = if op1_src == 1 { 2 } else { 1 };
        let reg = |b: u64| if b == 0 { self.ap } else { self.fp };
        let dst_a = reg(dst_reg).offset_by(o0)?;
        let op0_a = reg(op0_reg).offset_by(o1)?;
        let mut dst = self.get_value(dst_a);
        let mut op0 = self.get_value(op0_a);
        let op1_a = match op1_src {
            0 => match &op0 {
                Some(MaybeRelocatable::RelocatableValue(r)) => r.offset_by(o2)?,
                _ => return Err(VirtualMachineError::UnknownMemoryCell(op0_a)),
            },
            1 if o2 == 1 => pc.offset_by(o2)?,
            1 => return Err(bad()),
            2 => self.fp.offset_by(o2)?,
            _ => self.ap.offset_by(o2)?,
        };
        let mut op1 = self.get_value(op1_a);
        let next = MaybeRelocatable::from(pc.offset_by(size as i64)?);
        let int = |m: &MaybeRelocatable| m.get_int_ref().cloned();
        let mul = |a: &MaybeRelocatable, b: &MaybeRelocatable| -> Result<MaybeRelocatable, MathError> {
            match (int(a), int(b)) {
                (Some(x), Some(y)) => Ok(MaybeRelocatable::Int(&x * &y)),
                _ => Err(MathError::RelocatableMul),
            }
        };
        // deductions
        if op0.is_none() {
            op0 = match (opc, &dst, &op1) {
                (1, _, _) => Some(next.clone()),
                (4, Some(d), Some(o)) if res_l == 1 => Some(d.sub(o)?),
                (4, Some(d), Some(o)) if res_l == 2 => match (int(d), int(o)) {
                    (Some(d), Some(o)) if !o.is_zero() => Some(MaybeRelocatable::Int(&d / &o)),
                    _ => None,
                },
                _ => None,
            };
        }
        if op1.is_none() {
            op1 = match (opc, &dst, &op0) {
                (4, Some(d), _) if res_l == 0 => Some(d.clone()),
                (4, Some(d), Some(o)) if res_l == 1 => Some(d.sub(o)?),
                (4, Some(d), Some(o)) if res_l == 2 => match (int(d), int(o)) {
                    (Some(d), Some(o)) if !o.is_zero() => Some(MaybeRelocatable::Int(&d / &o)),
                    _ => None,
                },
                _ => None,
            };
        }
        let (Some(op0), Some(op1)) = (op0, op1) else {
            return Err(VirtualMachineError::FailedToComputeOperands);
        };
        let res: Option<MaybeRelocatable> = if pc_up == 4 {
            None
        } else {
            Some(match res_l {
                0 => op1.clone(),
                1 => op0.add(&op1)?,
                _ => mul(&op0, &op1)?,
            })
        };
        if dst.is_none() {
            dst = match opc {
                4 => res.clone(),
                1 => Some(MaybeRelocatable::from(self.fp)),
                _ => None,
            };
        }
        let Some(dst) = dst else {
            return Err(VirtualMachineError::FailedToComputeOperands);
        };
        self.insert_value(op0_a, op0.clone())?;
        self.insert_value(op1_a, op1.clone())?;
        self.insert_value(dst_a, dst.clone())?;
        match opc {
            4 => {
                if res.as_ref() != Some(&dst) {
                    return Err(VirtualMachineError::DiffAssertValues);
                }
            }
            1 => {
                if op0 != next || dst != MaybeRelocatable::from(self.fp) {
                    return Err(VirtualMachineError::CantWriteReturn);
                }
            }
            _ => {}
        }
        if self.trace_enabled {
            self.trace.push((pc, self.ap, self.fp));
        }
        // register updates
        let ptr = |m: MaybeRelocatable| m.get_relocatable().ok_or(VirtualMachineError::BadRegisterUpdate);
        let here = MaybeRelocatable::from(pc);
        let new_fp = match opc {
            1 => self.ap.offset_by(2)?,
            2 => match &dst {
                MaybeRelocatable::RelocatableValue(r) => *r,
                MaybeRelocatable::Int(x) => self.fp.offset_by(
                    x.to_usize().filter(|x| *x < MAX_SEGMENT).ok_or(VirtualMachineError::BadRegisterUpdate)? as i64 - self.fp.offset as i64,
                )?,
            },
            _ => self.fp,
        };
        let ap_add = |d: &MaybeRelocatable| -> Result<Relocatable, VirtualMachineError> {
            ptr(MaybeRelocatable::from(self.ap).add(d)?)
        };
        let new_ap = if opc == 1 {
            self.ap.offset_by(2)?
        } else {
            match ap_up {
                0 => self.ap,
                1 => ap_add(res.as_ref().ok_or(VirtualMachineError::UnconstrainedRes)?)?,
                _ => self.ap.offset_by(1)?,
            }
        };
        let new_pc = match pc_up {
            0 => ptr(next)?,
            1 => ptr(res.ok_or(VirtualMachineError::UnconstrainedRes)?)?,
            2 => ptr(here.add(&res.ok_or(VirtualMachineError::UnconstrainedRes)?)?)?,
            _ => {
                let zero = matches!(&dst, MaybeRelocatable::Int(x) if x.is_zero());
                if zero {
                    ptr(next)?
                } else {
                    ptr(here.add(&op1)?)?
                }
            }
        };
        self.fp = new_fp;
        self.ap = new_ap;
        self.pc = new_pc;
        self.current_step += 1;
        Ok(())
    }

    pub(crate) fn bases(&self) -> Vec<usize> {
        let mut b = vec![];
        let mut acc = 1;
        for s in &self.mem {
            b.push(acc);
            acc += s.len();
        }
        b
    }
    pub(crate) fn relocate_value(&self, bases: &[usize], v: &MaybeRelocatable) -> Felt252 {
        match v {
            MaybeRelocatable::Int(x) => x.clone(),
            MaybeRelocatable::RelocatableValue(r) => Felt252::from(bases[r.segment_index as usize] + r.offset),
        }
    }
}

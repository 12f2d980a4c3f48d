pub mod relocatable {
    use crate::felt::Felt252;
    use crate::types::errors::MathError;
    use std::ops::Add;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Relocatable {
        pub segment_index: isize,
        pub offset: usize,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum MaybeRelocatable {
        RelocatableValue(Relocatable),
        Int(Felt252),
    }
    impl Add<usize> for Relocatable {
        type Output = Result<Relocatable, MathError>;
        fn add(self, o: usize) -> Self::Output {
            let offset = self.offset.checked_add(o).ok_or(MathError::OffsetExceeded)?;
            Ok(Relocatable { offset, ..self })
        }
    }
    impl Relocatable {
        pub fn offset_by(&self, d: i64) -> Result<Relocatable, MathError> {
            let o = self.offset as i128 + d as i128;
            if o < 0 || o > u32::MAX as i128 {
                return Err(MathError::OffsetExceeded);
            }
            Ok(Relocatable { segment_index: self.segment_index, offset: o as usize })
        }
    }
    impl From<(isize, usize)> for Relocatable {
        fn from(x: (isize, usize)) -> Self {
            Relocatable { segment_index: x.0, offset: x.1 }
        }
    }
    impl From<usize> for MaybeRelocatable {
        fn from(x: usize) -> Self {
            MaybeRelocatable::Int(Felt252::from(x))
        }
    }
    impl From<Felt252> for MaybeRelocatable {
        fn from(x: Felt252) -> Self {
            MaybeRelocatable::Int(x)
        }
    }
    impl From<Relocatable> for MaybeRelocatable {
        fn from(x: Relocatable) -> Self {
            MaybeRelocatable::RelocatableValue(x)
        }
    }
    impl From<&Relocatable> for MaybeRelocatable {
        fn from(x: &Relocatable) -> Self {
            MaybeRelocatable::RelocatableValue(*x)
        }
    }
    impl MaybeRelocatable {
        pub fn add(&self, o: &MaybeRelocatable) -> Result<MaybeRelocatable, MathError> {
            use MaybeRelocatable::*;
            match (self, o) {
                (Int(a), Int(b)) => Ok(Int(a + b)),
                (RelocatableValue(r), Int(b)) | (Int(b), RelocatableValue(r)) => {
                    let off = &Felt252::from(r.offset) + b;
                    let offset = off
                        .to_usize()
                        .filter(|x| *x <= u32::MAX as usize)
                        .ok_or(MathError::OffsetExceeded)?;
                    Ok(RelocatableValue(Relocatable { segment_index: r.segment_index, offset }))
                }
                _ => Err(MathError::RelocatableAdd),
            }
        }
        pub fn sub(&self, o: &MaybeRelocatable) -> Result<MaybeRelocatable, MathError> {
            use MaybeRelocatable::*;
            match (self, o) {
                (Int(a), Int(b)) => Ok(Int(a - b)),
                (RelocatableValue(_), Int(b)) => self.add(&Int(-b.clone())),
                (RelocatableValue(a), RelocatableValue(b)) if a.segment_index == b.segment_index => {
                    Ok(Int(&Felt252::from(a.offset) - &Felt252::from(b.offset)))
                }
                _ => Err(MathError::RelocatableSub),
            }
        }
        pub fn get_int_ref(&self) -> Option<&Felt252> {
            match self {
                MaybeRelocatable::Int(x) => Some(x),
                _ => None,
            }
        }
        pub fn get_relocatable(&self) -> Option<Relocatable> {
            match self {
                MaybeRelocatable::RelocatableValue(x) => Some(*x),
                _ => None,
            }
        }
    }
}

pub mod errors {
    use thiserror::Error;
    #[derive(Debug, Error, PartialEq, Eq, Clone)]
    pub enum MathError {
        #[error("offset exceeds the maximum")]
        OffsetExceeded,
        #[error("can't add two relocatable values")]
        RelocatableAdd,
        #[error("can't subtract these values")]
        RelocatableSub,
        #[error("can't multiply relocatable values")]
        RelocatableMul,
    }
    pub mod program_errors {
        use thiserror::Error;
        #[derive(Debug, Error)]
        pub enum ProgramError {
            #[error(transparent)]
            IO(#[from] std::io::Error),
            #[error(transparent)]
            Parse(#[from] serde_json::Error),
            #[error("Entrypoint {0} not found")]
            EntrypointNotFound(String),
            #[error("Couldn't parse prime from felt lib")]
            PrimeParse,
            #[error("Unexpected prime value {0}")]
            PrimeDiffers(String),
            #[error("Can't build program from const: {0}")]
            ConstWithoutValue(String),
        }
    }
}

pub mod program {
    use super::errors::program_errors::ProgramError;
    use crate::felt::Felt252;
    use crate::serde::deserialize_program::BuiltinName;
    use crate::types::relocatable::MaybeRelocatable;
    use cairo_lang_starknet::casm_contract_class::CasmContractClass;
    use serde::Deserialize;
    use std::collections::HashMap;

    pub const PRIME: &str = "0x800000000000011000000000000000000000000000000000000000000000001";

    #[derive(Clone, Debug, Default)]
    pub struct Program {
        pub(crate) data: Vec<MaybeRelocatable>,
        pub(crate) builtins: Vec<BuiltinName>,
        pub(crate) main: Option<usize>,
        pub(crate) hints: HashMap<usize, Vec<String>>,
    }
    #[derive(Deserialize)]
    struct RawHint {
        code: String,
    }
    #[derive(Deserialize)]
    struct RawIdentifier {
        pc: Option<usize>,
    }
    #[derive(Deserialize)]
    struct Raw {
        prime: String,
        builtins: Vec<BuiltinName>,
        data: Vec<String>,
        identifiers: HashMap<String, RawIdentifier>,
        hints: HashMap<String, Vec<RawHint>>,
    }
    impl Program {
        pub fn from_bytes(bytes: &[u8], entrypoint: Option<&str>) -> Result<Program, ProgramError> {
            let raw: Raw = serde_json::from_slice(bytes)?;
            if raw.prime.to_lowercase() != PRIME {
                return Err(ProgramError::PrimeDiffers(raw.prime));
            }
            let data = raw
                .data
                .iter()
                .map(|s| Felt252::from_str_any(s).map(MaybeRelocatable::Int).ok_or_else(|| ProgramError::ConstWithoutValue(s.clone())))
                .collect::<Result<Vec<_>, _>>()?;
            let main = match entrypoint {
                None => None,
                Some(e) => {
                    let id = raw
                        .identifiers
                        .get(&format!("__main__.{e}"))
                        .ok_or_else(|| ProgramError::EntrypointNotFound(e.to_string()))?;
                    id.pc
                }
            };
            let mut hints = HashMap::new();
            for (k, v) in raw.hints {
                let k = k.parse::<usize>().map_err(|_| ProgramError::ConstWithoutValue(k.clone()))?;
                hints.insert(k, v.into_iter().map(|h| h.code).collect());
            }
            Ok(Program { data, builtins: raw.builtins, main, hints })
        }
        pub fn data_len(&self) -> usize {
            self.data.len()
        }
        pub fn builtins_len(&self) -> usize {
            self.builtins.len()
        }
        pub fn iter_data(&self) -> impl Iterator<Item = &MaybeRelocatable> {
            self.data.iter()
        }
    }
    impl TryFrom<CasmContractClass> for Program {
        type Error = ProgramError;
        fn try_from(c: CasmContractClass) -> Result<Self, ProgramError> {
            let data = c
                .bytecode
                .iter()
                .map(|s| Felt252::from_str_any(s).map(MaybeRelocatable::Int).ok_or_else(|| ProgramError::ConstWithoutValue(s.clone())))
                .collect::<Result<Vec<_>, _>>()?;
            Ok(Program { data, ..Default::default() })
        }
    }
}

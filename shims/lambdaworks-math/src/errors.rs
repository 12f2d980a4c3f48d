use std::fmt;

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum ByteConversionError {
    FromBEBytesError,
    FromLEBytesError,
    InvalidValue,
    PointNotInSubgroup,
    ValueNotCompressed,
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum CreationError {
    InvalidHexString,
    EmptyString,
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum DeserializationError {
    InvalidAmountOfBytes,
    FieldFromBytesError,
    PointerSizeError,
}

impl From<ByteConversionError> for DeserializationError {
    fn from(error: ByteConversionError) -> Self {
        match error {
            ByteConversionError::FromBEBytesError | ByteConversionError::FromLEBytesError => {
                DeserializationError::FieldFromBytesError
            }
            _ => DeserializationError::FieldFromBytesError,
        }
    }
}

macro_rules! disp {
    ($($t:ty),*) => {$(
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) }
        }
        impl std::error::Error for $t {}
    )*};
}
disp!(ByteConversionError, CreationError, DeserializationError);

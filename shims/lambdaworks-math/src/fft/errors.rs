use crate::field::errors::FieldError;

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum FFTError {
    RootOfUnityError(u64),
    InputError(usize),
    OrderError(u64),
    DomainSizeError(usize),
}
impl std::fmt::Display for FFTError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for FFTError {}
impl From<FieldError> for FFTError {
    fn from(e: FieldError) -> Self {
        match e {
            FieldError::RootOfUnityError(o) => FFTError::RootOfUnityError(o),
            _ => FFTError::RootOfUnityError(0),
        }
    }
}

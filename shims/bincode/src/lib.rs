pub mod error {
    #[non_exhaustive]
    #[derive(Debug)]
    pub enum EncodeError {
        UnexpectedEnd,
        Other(&'static str),
        OtherString(String),
        Io { inner: std::io::Error, index: usize },
    }
    impl std::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for EncodeError {}
}
pub mod enc {
    pub mod write {
        use crate::error::EncodeError;
        pub trait Writer {
            fn write(&mut self, bytes: &[u8]) -> Result<(), EncodeError>;
        }
        impl<T: Writer> Writer for &mut T {
            fn write(&mut self, bytes: &[u8]) -> Result<(), EncodeError> {
                (**self).write(bytes)
            }
        }
    }
}

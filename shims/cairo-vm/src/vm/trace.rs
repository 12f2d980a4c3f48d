pub mod trace_entry {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct TraceEntry {
        pub pc: usize,
        pub ap: usize,
        pub fp: usize,
    }
}

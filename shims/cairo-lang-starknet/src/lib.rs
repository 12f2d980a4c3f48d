pub mod casm_contract_class {
    use serde::{Deserialize, Serialize};

    pub type Hint = serde_json::Value;

    #[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CasmContractClass {
        pub prime: String,
        pub compiler_version: String,
        pub bytecode: Vec<String>,
        pub hints: Vec<(usize, Vec<Hint>)>,
        #[serde(default)]
        pub pythonic_hints: Option<Vec<(usize, Vec<String>)>>,
        pub entry_points_by_type: CasmContractEntryPoints,
    }
    #[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CasmContractEntryPoints {
        #[serde(rename = "EXTERNAL")]
        pub external: Vec<CasmContractEntryPoint>,
        #[serde(rename = "L1_HANDLER")]
        pub l1_handler: Vec<CasmContractEntryPoint>,
        #[serde(rename = "CONSTRUCTOR")]
        pub constructor: Vec<CasmContractEntryPoint>,
    }
    #[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CasmContractEntryPoint {
        pub selector: String,
        pub offset: usize,
        pub builtins: Vec<String>,
    }
}

//! Stand-in for the `evmc-vm` crate (with the Tosca extensions); the original
//! is not available offline. Layouts follow shim/cpp/evmc/evmc.h.
include!("../../evmc-vm/src/common.rs");

#[derive(Debug)]
pub struct ExecutionResult {
    status_code: StatusCode,
    gas_left: i64,
    gas_refund: i64,
    output: Option<Vec<u8>>,
    create_address: Option<Address>,
}

impl ExecutionResult {
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<&[u8]>) -> Self {
        ExecutionResult { status_code, gas_left, gas_refund, output: output.map(|s| s.to_vec()), create_address: None }
    }
    pub fn output(&self) -> Option<&Vec<u8>> {
        self.output.as_ref()
    }
    fn into_output(self) -> Option<Box<[u8]>> {
        self.output.map(Vec::into_boxed_slice)
    }
    fn from_output(b: &[u8]) -> Option<Vec<u8>> {
        Some(b.to_vec())
    }
}

#[derive(Debug)]
pub struct StepResult {
    pub step_status_code: StepStatusCode,
    pub status_code: StatusCode,
    pub revision: Revision,
    pub pc: u64,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Vec<u8>>,
    pub stack: Vec<Uint256>,
    pub memory: Vec<u8>,
    pub last_call_return_data: Option<Vec<u8>>,
}

impl StepResult {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        step_status_code: StepStatusCode, status_code: StatusCode, revision: Revision, pc: u64, gas_left: i64,
        gas_refund: i64, output: Option<Vec<u8>>, stack: Vec<Uint256>, memory: Vec<u8>, last_call_return_data: Option<Vec<u8>>,
    ) -> Self {
        StepResult { step_status_code, status_code, revision, pc, gas_left, gas_refund, output, stack, memory, last_call_return_data }
    }
}

#[derive(Debug)]
pub struct ExecutionMessage {
    kind: MessageKind,
    flags: u32,
    depth: i32,
    gas: i64,
    recipient: Address,
    sender: Address,
    input: Option<Vec<u8>>,
    value: Uint256,
    create2_salt: Bytes32,
    code_address: Address,
    code: Option<Vec<u8>>,
    code_hash: Option<Uint256>,
}

impl ExecutionMessage {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        kind: MessageKind, flags: u32, depth: i32, gas: i64, recipient: Address, sender: Address, input: Option<&[u8]>,
        value: Uint256, create2_salt: Bytes32, code_address: Address, code: Option<&[u8]>, code_hash: Option<Uint256>,
    ) -> Self {
        ExecutionMessage {
            kind, flags, depth, gas, recipient, sender, input: input.map(|s| s.to_vec()), value, create2_salt, code_address,
            code: code.map(|s| s.to_vec()), code_hash,
        }
    }
    pub fn input(&self) -> Option<&Vec<u8>> {
        self.input.as_ref()
    }
    pub fn code(&self) -> Option<&Vec<u8>> {
        self.code.as_ref()
    }
}

impl From<&ffi::evmc_message> for ExecutionMessage {
    fn from(m: &ffi::evmc_message) -> Self {
        ExecutionMessage {
            kind: m.kind, flags: m.flags, depth: m.depth, gas: m.gas, recipient: m.recipient, sender: m.sender,
            input: unsafe { opt_slice(m.input_data, m.input_size) }.map(|s| s.to_vec()), value: m.value,
            create2_salt: m.create2_salt, code_address: m.code_address,
            code: unsafe { opt_slice(m.code, m.code_size) }.map(|s| s.to_vec()),
            code_hash: if m.code_hash.is_null() { None } else { Some(unsafe { *m.code_hash }) },
        }
    }
}

message_accessors!(ExecutionMessage);

//! Stand-in for the optimized fork of `evmc-vm` used by the `custom-evmc`
//! feature: messages and results borrow or own boxed slices.
include!("../../evmc-vm/src/common.rs");

#[derive(Debug)]
pub struct ExecutionResult {
    status_code: StatusCode,
    gas_left: i64,
    gas_refund: i64,
    output: Option<Box<[u8]>>,
    create_address: Option<Address>,
}

impl ExecutionResult {
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>) -> Self {
        ExecutionResult { status_code, gas_left, gas_refund, output, create_address: None }
    }
    pub fn output(&self) -> Option<&[u8]> {
        self.output.as_deref()
    }
    fn into_output(self) -> Option<Box<[u8]>> {
        self.output
    }
    fn from_output(b: &[u8]) -> Option<Box<[u8]>> {
        Some(Box::from(b))
    }
}

#[derive(Debug)]
pub struct StepResult {
    pub step_status_code: StepStatusCode,
    pub status_code: StatusCode,
    pub revision: Revision,
    pub pc: u64,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Box<[u8]>>,
    pub stack: Vec<Uint256>,
    pub memory: Vec<u8>,
    pub last_call_return_data: Option<Vec<u8>>,
}

impl StepResult {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        step_status_code: StepStatusCode, status_code: StatusCode, revision: Revision, pc: u64, gas_left: i64,
        gas_refund: i64, output: Option<Box<[u8]>>, stack: Vec<Uint256>, memory: Vec<u8>, last_call_return_data: Option<Vec<u8>>,
    ) -> Self {
        StepResult { step_status_code, status_code, revision, pc, gas_left, gas_refund, output, stack, memory, last_call_return_data }
    }
}

#[derive(Debug)]
pub struct ExecutionMessage<'a> {
    kind: MessageKind,
    flags: u32,
    depth: i32,
    gas: i64,
    recipient: Address,
    sender: Address,
    input: Option<&'a [u8]>,
    value: Uint256,
    create2_salt: Bytes32,
    code_address: Address,
    code: Option<&'a [u8]>,
    code_hash: Option<Uint256>,
}

impl<'a> ExecutionMessage<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        kind: MessageKind, flags: u32, depth: i32, gas: i64, recipient: Address, sender: Address, input: Option<&'a [u8]>,
        value: Uint256, create2_salt: Bytes32, code_address: Address, code: Option<&'a [u8]>, code_hash: Option<Uint256>,
    ) -> Self {
        ExecutionMessage { kind, flags, depth, gas, recipient, sender, input, value, create2_salt, code_address, code, code_hash }
    }
    pub fn input(&self) -> Option<&'a [u8]> {
        self.input
    }
    pub fn code(&self) -> Option<&'a [u8]> {
        self.code
    }
}

impl<'a> From<&'a ffi::evmc_message> for ExecutionMessage<'a> {
    fn from(m: &'a ffi::evmc_message) -> Self {
        ExecutionMessage {
            kind: m.kind, flags: m.flags, depth: m.depth, gas: m.gas, recipient: m.recipient, sender: m.sender,
            input: unsafe { opt_slice(m.input_data, m.input_size) }, value: m.value,
            create2_salt: m.create2_salt, code_address: m.code_address,
            code: unsafe { opt_slice(m.code, m.code_size) },
            code_hash: if m.code_hash.is_null() { None } else { Some(unsafe { *m.code_hash }) },
        }
    }
}

message_accessors!(ExecutionMessage<'_>);

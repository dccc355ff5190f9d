// Shared between the two variants of the crate.
#[allow(non_camel_case_types)]
pub mod ffi {
    pub const EVMC_ABI_VERSION: u32 = 11;
    pub type evmc_host_context = ::std::ffi::c_void;
    pub type evmc_capabilities_flagset = u32;

    #[repr(C)]
    #[derive(Debug, Copy, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
    pub struct evmc_bytes32 {
        pub bytes: [u8; 32],
    }
    pub type evmc_uint256be = evmc_bytes32;
    #[repr(C)]
    #[derive(Debug, Copy, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
    pub struct evmc_address {
        pub bytes: [u8; 20],
    }

    macro_rules! c_enum {
        ($name:ident: $repr:ident { $($v:ident = $n:expr),* $(,)? }) => {
            #[repr($repr)]
            #[derive(Debug, Copy, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
            pub enum $name { $($v = $n),* }
        };
    }
    c_enum!(evmc_call_kind: u32 { EVMC_CALL = 0, EVMC_DELEGATECALL = 1, EVMC_CALLCODE = 2, EVMC_CREATE = 3, EVMC_CREATE2 = 4 });
    c_enum!(evmc_flags: u32 { EVMC_STATIC = 1 });
    c_enum!(evmc_status_code: i32 {
        EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3, EVMC_INVALID_INSTRUCTION = 4,
        EVMC_UNDEFINED_INSTRUCTION = 5, EVMC_STACK_OVERFLOW = 6, EVMC_STACK_UNDERFLOW = 7, EVMC_BAD_JUMP_DESTINATION = 8,
        EVMC_INVALID_MEMORY_ACCESS = 9, EVMC_CALL_DEPTH_EXCEEDED = 10, EVMC_STATIC_MODE_VIOLATION = 11,
        EVMC_PRECOMPILE_FAILURE = 12, EVMC_CONTRACT_VALIDATION_FAILURE = 13, EVMC_ARGUMENT_OUT_OF_RANGE = 14,
        EVMC_WASM_UNREACHABLE_INSTRUCTION = 15, EVMC_WASM_TRAP = 16, EVMC_INSUFFICIENT_BALANCE = 17,
        EVMC_INTERNAL_ERROR = -1, EVMC_REJECTED = -2, EVMC_OUT_OF_MEMORY = -3,
    });
    c_enum!(evmc_storage_status: u32 {
        EVMC_STORAGE_ASSIGNED = 0, EVMC_STORAGE_ADDED = 1, EVMC_STORAGE_DELETED = 2, EVMC_STORAGE_MODIFIED = 3,
        EVMC_STORAGE_DELETED_ADDED = 4, EVMC_STORAGE_MODIFIED_DELETED = 5, EVMC_STORAGE_DELETED_RESTORED = 6,
        EVMC_STORAGE_ADDED_DELETED = 7, EVMC_STORAGE_MODIFIED_RESTORED = 8,
    });
    c_enum!(evmc_access_status: u32 { EVMC_ACCESS_COLD = 0, EVMC_ACCESS_WARM = 1 });
    c_enum!(evmc_revision: u32 {
        EVMC_FRONTIER = 0, EVMC_HOMESTEAD = 1, EVMC_TANGERINE_WHISTLE = 2, EVMC_SPURIOUS_DRAGON = 3, EVMC_BYZANTIUM = 4,
        EVMC_CONSTANTINOPLE = 5, EVMC_PETERSBURG = 6, EVMC_ISTANBUL = 7, EVMC_BERLIN = 8, EVMC_LONDON = 9,
        EVMC_PARIS = 10, EVMC_SHANGHAI = 11, EVMC_CANCUN = 12, EVMC_PRAGUE = 13,
    });
    c_enum!(evmc_capabilities: u32 { EVMC_CAPABILITY_EVM1 = 1, EVMC_CAPABILITY_EWASM = 2, EVMC_CAPABILITY_PRECOMPILES = 4 });
    c_enum!(evmc_set_option_result: u32 {
        EVMC_SET_OPTION_SUCCESS = 0, EVMC_SET_OPTION_INVALID_NAME = 1, EVMC_SET_OPTION_INVALID_VALUE = 2,
    });
    c_enum!(evmc_step_status_code: u32 {
        EVMC_STEP_RUNNING = 0, EVMC_STEP_STOPPED = 1, EVMC_STEP_RETURNED = 2, EVMC_STEP_REVERTED = 3, EVMC_STEP_FAILED = 4,
    });

    #[repr(C)]
    #[derive(Debug, Copy, Clone)]
    pub struct evmc_message {
        pub kind: evmc_call_kind,
        pub flags: u32,
        pub depth: i32,
        pub gas: i64,
        pub recipient: evmc_address,
        pub sender: evmc_address,
        pub input_data: *const u8,
        pub input_size: usize,
        pub value: evmc_uint256be,
        pub create2_salt: evmc_bytes32,
        pub code_address: evmc_address,
        pub code: *const u8,
        pub code_size: usize,
        pub code_hash: *const evmc_bytes32,
    }
    #[repr(C)]
    #[derive(Debug, Copy, Clone, Hash, PartialEq)]
    pub struct evmc_tx_initcode {
        pub hash: evmc_bytes32,
        pub code: *const u8,
        pub code_size: usize,
    }
    #[repr(C)]
    #[derive(Debug, Copy, Clone, Hash, PartialEq)]
    pub struct evmc_tx_context {
        pub tx_gas_price: evmc_uint256be,
        pub tx_origin: evmc_address,
        pub block_coinbase: evmc_address,
        pub block_number: i64,
        pub block_timestamp: i64,
        pub block_gas_limit: i64,
        pub block_prev_randao: evmc_uint256be,
        pub chain_id: evmc_uint256be,
        pub block_base_fee: evmc_uint256be,
        pub blob_base_fee: evmc_uint256be,
        pub blob_hashes: *const evmc_bytes32,
        pub blob_hashes_count: usize,
        pub initcodes: *const evmc_tx_initcode,
        pub initcodes_count: usize,
    }
    pub type evmc_release_result_fn = Option<unsafe extern "C" fn(*const evmc_result)>;
    #[repr(C)]
    #[derive(Debug, Copy, Clone)]
    pub struct evmc_result {
        pub status_code: evmc_status_code,
        pub gas_left: i64,
        pub gas_refund: i64,
        pub output_data: *const u8,
        pub output_size: usize,
        pub release: evmc_release_result_fn,
        pub create_address: evmc_address,
        pub padding: [u8; 4],
    }
    type Ctx = *mut evmc_host_context;
    #[repr(C)]
    pub struct evmc_host_interface {
        pub account_exists: unsafe extern "C" fn(Ctx, *const evmc_address) -> bool,
        pub get_storage: unsafe extern "C" fn(Ctx, *const evmc_address, *const evmc_bytes32) -> evmc_bytes32,
        pub set_storage:
            unsafe extern "C" fn(Ctx, *const evmc_address, *const evmc_bytes32, *const evmc_bytes32) -> evmc_storage_status,
        pub get_balance: unsafe extern "C" fn(Ctx, *const evmc_address) -> evmc_uint256be,
        pub get_code_size: unsafe extern "C" fn(Ctx, *const evmc_address) -> usize,
        pub get_code_hash: unsafe extern "C" fn(Ctx, *const evmc_address) -> evmc_bytes32,
        pub copy_code: unsafe extern "C" fn(Ctx, *const evmc_address, usize, *mut u8, usize) -> usize,
        pub selfdestruct: unsafe extern "C" fn(Ctx, *const evmc_address, *const evmc_address) -> bool,
        pub call: unsafe extern "C" fn(Ctx, *const evmc_message) -> evmc_result,
        pub get_tx_context: unsafe extern "C" fn(Ctx) -> evmc_tx_context,
        pub get_block_hash: unsafe extern "C" fn(Ctx, i64) -> evmc_bytes32,
        pub emit_log: unsafe extern "C" fn(Ctx, *const evmc_address, *const u8, usize, *const evmc_bytes32, usize),
        pub access_account: unsafe extern "C" fn(Ctx, *const evmc_address) -> evmc_access_status,
        pub access_storage: unsafe extern "C" fn(Ctx, *const evmc_address, *const evmc_bytes32) -> evmc_access_status,
        pub get_transient_storage: unsafe extern "C" fn(Ctx, *const evmc_address, *const evmc_bytes32) -> evmc_bytes32,
        pub set_transient_storage: unsafe extern "C" fn(Ctx, *const evmc_address, *const evmc_bytes32, *const evmc_bytes32),
    }
    #[repr(C)]
    pub struct evmc_vm {
        pub abi_version: ::std::ffi::c_int,
        pub name: *const ::std::ffi::c_char,
        pub version: *const ::std::ffi::c_char,
        pub destroy: Option<extern "C" fn(*mut evmc_vm)>,
        pub execute: Option<
            extern "C" fn(
                *mut evmc_vm, *const evmc_host_interface, Ctx, evmc_revision, *const evmc_message, *const u8, usize,
            ) -> evmc_result,
        >,
        pub get_capabilities: Option<extern "C" fn(*mut evmc_vm) -> evmc_capabilities_flagset>,
        pub set_option: Option<
            extern "C" fn(*mut evmc_vm, *const ::std::ffi::c_char, *const ::std::ffi::c_char) -> evmc_set_option_result,
        >,
    }
    #[repr(C)]
    #[derive(Debug, Copy, Clone)]
    pub struct evmc_step_result {
        pub step_status_code: evmc_step_status_code,
        pub status_code: evmc_status_code,
        pub revision: evmc_revision,
        pub pc: u64,
        pub gas_left: i64,
        pub gas_refund: i64,
        pub output_data: *const u8,
        pub output_size: usize,
        pub stack: *const evmc_bytes32,
        pub stack_size: usize,
        pub memory: *const u8,
        pub memory_size: usize,
        pub last_call_return_data: *const u8,
        pub last_call_return_data_size: usize,
        pub release: Option<unsafe extern "C" fn(*const evmc_step_result)>,
    }
    #[repr(C)]
    pub struct evmc_vm_steppable {
        pub vm: *mut evmc_vm,
        #[allow(clippy::type_complexity)]
        pub step_n: Option<
            extern "C" fn(
                *mut evmc_vm_steppable, *const evmc_host_interface, Ctx, evmc_revision, *const evmc_message, *const u8, usize,
                evmc_step_status_code, u64, i64, *mut evmc_bytes32, usize, *mut u8, usize, *mut u8, usize, i32,
            ) -> evmc_step_result,
        >,
        pub destroy: Option<extern "C" fn(*mut evmc_vm_steppable)>,
    }
}

pub type Address = ffi::evmc_address;
pub type Bytes32 = ffi::evmc_bytes32;
pub type Uint256 = ffi::evmc_uint256be;
pub type MessageKind = ffi::evmc_call_kind;
pub type MessageFlags = ffi::evmc_flags;
pub type StatusCode = ffi::evmc_status_code;
pub type StepStatusCode = ffi::evmc_step_status_code;
pub type StorageStatus = ffi::evmc_storage_status;
pub type AccessStatus = ffi::evmc_access_status;
pub type Revision = ffi::evmc_revision;
pub type ExecutionTxContext = ffi::evmc_tx_context;

#[derive(Debug)]
pub enum SetOptionError {
    InvalidKey,
    InvalidValue,
}

pub trait EvmcVm {
    fn init() -> Self;
    fn execute<'a>(
        &self, revision: Revision, code: &'a [u8], message: &'a ExecutionMessage,
        context: Option<&'a mut ExecutionContext<'a>>,
    ) -> ExecutionResult;
    fn set_option(&mut self, _key: &str, _value: &str) -> Result<(), SetOptionError> {
        Ok(())
    }
}

pub trait SteppableEvmcVm {
    #[allow(clippy::too_many_arguments)]
    fn step_n<'a>(
        &self, revision: Revision, code: &'a [u8], message: &'a ExecutionMessage,
        context: Option<&'a mut ExecutionContext<'a>>, step_status_code: StepStatusCode, pc: u64, gas_refund: i64,
        stack: &'a mut [Uint256], memory: &'a mut [u8], last_call_return_data: &'a mut [u8], steps: i32,
    ) -> StepResult;
}

macro_rules! container {
    ($name:ident, $raw:ty) => {
        #[repr(C)]
        pub struct $name<T: EvmcVm + Sized> {
            instance: $raw,
            vm: T,
        }
        impl<T: EvmcVm + Sized> $name<T> {
            pub fn new(instance: $raw) -> Box<Self> {
                Box::new(Self { instance, vm: T::init() })
            }
            /// # Safety
            /// `instance` must come from `into_ffi_pointer`.
            pub unsafe fn from_ffi_pointer(instance: *mut $raw) -> Box<Self> {
                Box::from_raw(instance as *mut Self)
            }
            /// # Safety
            /// always safe
            pub unsafe fn into_ffi_pointer(boxed: Box<Self>) -> *mut $raw {
                Box::into_raw(boxed) as *mut $raw
            }
            pub fn raw(&self) -> &$raw {
                &self.instance
            }
        }
        impl<T: EvmcVm + Sized> ::std::ops::Deref for $name<T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.vm
            }
        }
        impl<T: EvmcVm + Sized> ::std::ops::DerefMut for $name<T> {
            fn deref_mut(&mut self) -> &mut T {
                &mut self.vm
            }
        }
    };
}
container!(EvmcContainer, ffi::evmc_vm);
container!(SteppableEvmcContainer, ffi::evmc_vm_steppable);

unsafe fn opt_slice<'a>(p: *const u8, n: usize) -> Option<&'a [u8]> {
    if p.is_null() || n == 0 {
        None
    } else {
        Some(::std::slice::from_raw_parts(p, n))
    }
}

macro_rules! message_accessors {
    ($t:ty) => {
        impl $t {
            pub fn kind(&self) -> MessageKind {
                self.kind
            }
            pub fn flags(&self) -> u32 {
                self.flags
            }
            pub fn depth(&self) -> i32 {
                self.depth
            }
            pub fn gas(&self) -> i64 {
                self.gas
            }
            pub fn recipient(&self) -> &Address {
                &self.recipient
            }
            pub fn sender(&self) -> &Address {
                &self.sender
            }
            pub fn value(&self) -> &Uint256 {
                &self.value
            }
            pub fn create2_salt(&self) -> &Bytes32 {
                &self.create2_salt
            }
            pub fn code_address(&self) -> &Address {
                &self.code_address
            }
            pub fn code_hash(&self) -> Option<&Uint256> {
                self.code_hash.as_ref()
            }
        }
    };
}

impl ExecutionResult {
    pub fn status_code(&self) -> StatusCode {
        self.status_code
    }
    pub fn gas_left(&self) -> i64 {
        self.gas_left
    }
    pub fn gas_refund(&self) -> i64 {
        self.gas_refund
    }
    pub fn create_address(&self) -> Option<&Address> {
        self.create_address.as_ref()
    }
}

fn leak<T>(b: Box<[T]>) -> (*const T, usize) {
    let n = b.len();
    if n == 0 {
        return (::std::ptr::null(), 0);
    }
    (Box::into_raw(b) as *const T, n)
}

unsafe fn unleak<T>(p: *const T, n: usize) {
    if !p.is_null() {
        drop(Box::from_raw(::std::ptr::slice_from_raw_parts_mut(p as *mut T, n)));
    }
}

unsafe extern "C" fn release_result(r: *const ffi::evmc_result) {
    if let Some(r) = r.as_ref() {
        unleak(r.output_data, r.output_size);
    }
}

unsafe extern "C" fn release_step_result(r: *const ffi::evmc_step_result) {
    if let Some(r) = r.as_ref() {
        unleak(r.output_data, r.output_size);
        unleak(r.stack, r.stack_size);
        unleak(r.memory, r.memory_size);
        unleak(r.last_call_return_data, r.last_call_return_data_size);
    }
}

impl From<ExecutionResult> for ffi::evmc_result {
    fn from(v: ExecutionResult) -> Self {
        let (status_code, gas_left, gas_refund) = (v.status_code, v.gas_left, v.gas_refund);
        let create_address = v.create_address.unwrap_or(Address { bytes: [0; 20] });
        let (output_data, output_size) = v.into_output().map(leak).unwrap_or((::std::ptr::null(), 0));
        ffi::evmc_result {
            status_code, gas_left, gas_refund, output_data, output_size, release: Some(release_result), create_address,
            padding: [0; 4],
        }
    }
}

impl From<ffi::evmc_result> for ExecutionResult {
    fn from(r: ffi::evmc_result) -> Self {
        let res = ExecutionResult {
            status_code: r.status_code, gas_left: r.gas_left, gas_refund: r.gas_refund,
            output: unsafe { opt_slice(r.output_data, r.output_size) }.and_then(Self::from_output),
            create_address: Some(r.create_address),
        };
        if let Some(f) = r.release {
            unsafe { f(&r) };
        }
        res
    }
}

impl From<StepResult> for ffi::evmc_step_result {
    fn from(v: StepResult) -> Self {
        let (output_data, output_size) =
            v.output.map(|o| leak(Box::<[u8]>::from(&*o))).unwrap_or((::std::ptr::null(), 0));
        let (stack, stack_size) = leak(v.stack.into_boxed_slice());
        let (memory, memory_size) = leak(v.memory.into_boxed_slice());
        let (last_call_return_data, last_call_return_data_size) =
            v.last_call_return_data.map(|d| leak(d.into_boxed_slice())).unwrap_or((::std::ptr::null(), 0));
        ffi::evmc_step_result {
            step_status_code: v.step_status_code, status_code: v.status_code, revision: v.revision, pc: v.pc,
            gas_left: v.gas_left, gas_refund: v.gas_refund, output_data, output_size, stack, stack_size, memory, memory_size,
            last_call_return_data, last_call_return_data_size, release: Some(release_step_result),
        }
    }
}

pub struct ExecutionContext<'a> {
    host: &'a ffi::evmc_host_interface,
    context: *mut ffi::evmc_host_context,
    tx_context: ExecutionTxContext,
}

impl<'a> ExecutionContext<'a> {
    pub fn new(host: &'a ffi::evmc_host_interface, context: *mut ffi::evmc_host_context) -> Self {
        let tx_context = unsafe { (host.get_tx_context)(context) };
        ExecutionContext { host, context, tx_context }
    }
    pub fn get_tx_context(&mut self) -> &ExecutionTxContext {
        &self.tx_context
    }
    pub fn account_exists(&self, a: &Address) -> bool {
        unsafe { (self.host.account_exists)(self.context, a) }
    }
    pub fn get_storage(&self, a: &Address, k: &Bytes32) -> Bytes32 {
        unsafe { (self.host.get_storage)(self.context, a, k) }
    }
    pub fn set_storage(&mut self, a: &Address, k: &Bytes32, v: &Bytes32) -> StorageStatus {
        unsafe { (self.host.set_storage)(self.context, a, k, v) }
    }
    pub fn get_balance(&self, a: &Address) -> Uint256 {
        unsafe { (self.host.get_balance)(self.context, a) }
    }
    pub fn get_code_size(&self, a: &Address) -> usize {
        unsafe { (self.host.get_code_size)(self.context, a) }
    }
    pub fn get_code_hash(&self, a: &Address) -> Bytes32 {
        unsafe { (self.host.get_code_hash)(self.context, a) }
    }
    pub fn copy_code(&self, a: &Address, offset: usize, buffer: &mut [u8]) -> usize {
        unsafe { (self.host.copy_code)(self.context, a, offset, buffer.as_mut_ptr(), buffer.len()) }
    }
    pub fn selfdestruct(&mut self, a: &Address, b: &Address) -> bool {
        unsafe { (self.host.selfdestruct)(self.context, a, b) }
    }
    pub fn call(&mut self, m: &ExecutionMessage) -> ExecutionResult {
        let (input_data, input_size) = m.input().map(|s| (s.as_ptr(), s.len())).unwrap_or((::std::ptr::null(), 0));
        let (code, code_size) = m.code().map(|s| (s.as_ptr(), s.len())).unwrap_or((::std::ptr::null(), 0));
        let msg = ffi::evmc_message {
            kind: m.kind(), flags: m.flags(), depth: m.depth(), gas: m.gas(), recipient: *m.recipient(), sender: *m.sender(),
            input_data, input_size, value: *m.value(), create2_salt: *m.create2_salt(), code_address: *m.code_address(), code,
            code_size, code_hash: m.code_hash().map(|h| h as *const _).unwrap_or(::std::ptr::null()),
        };
        unsafe { (self.host.call)(self.context, &msg).into() }
    }
    pub fn get_block_hash(&self, num: i64) -> Bytes32 {
        unsafe { (self.host.get_block_hash)(self.context, num) }
    }
    pub fn emit_log(&mut self, a: &Address, data: &[u8], topics: &[Bytes32]) {
        unsafe { (self.host.emit_log)(self.context, a, data.as_ptr(), data.len(), topics.as_ptr(), topics.len()) }
    }
    pub fn access_account(&mut self, a: &Address) -> AccessStatus {
        unsafe { (self.host.access_account)(self.context, a) }
    }
    pub fn access_storage(&mut self, a: &Address, k: &Bytes32) -> AccessStatus {
        unsafe { (self.host.access_storage)(self.context, a, k) }
    }
    pub fn get_transient_storage(&self, a: &Address, k: &Bytes32) -> Bytes32 {
        unsafe { (self.host.get_transient_storage)(self.context, a, k) }
    }
    pub fn set_transient_storage(&mut self, a: &Address, k: &Bytes32, v: &Bytes32) {
        unsafe { (self.host.set_transient_storage)(self.context, a, k, v) }
    }
}

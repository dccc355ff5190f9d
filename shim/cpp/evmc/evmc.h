/* Stand-in for <evmc/evmc.h> (EVMC ABI 11 with the Tosca extensions used by
   Fantom-foundation/Tosca); the submodule is not available in this sandbox. */
#ifndef EVMC_H
#define EVMC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define EVMC_EXPORT __attribute__((visibility("default")))
#define EVMC_NOEXCEPT
enum { EVMC_ABI_VERSION = 11 };
typedef struct evmc_bytes32 { uint8_t bytes[32]; } evmc_bytes32;
typedef struct evmc_bytes32 evmc_uint256be;
typedef struct evmc_address { uint8_t bytes[20]; } evmc_address;
enum evmc_call_kind { EVMC_CALL = 0, EVMC_DELEGATECALL = 1, EVMC_CALLCODE = 2, EVMC_CREATE = 3, EVMC_CREATE2 = 4 };
enum evmc_flags { EVMC_STATIC = 1 };
#ifndef __cplusplus
typedef enum evmc_call_kind evmc_call_kind;
#endif
typedef struct evmc_message {
  enum evmc_call_kind kind;
  uint32_t flags;
  int32_t depth;
  int64_t gas;
  evmc_address recipient;
  evmc_address sender;
  const uint8_t* input_data;
  size_t input_size;
  evmc_uint256be value;
  evmc_bytes32 create2_salt;
  evmc_address code_address;
  const uint8_t* code;
  size_t code_size;
  const evmc_bytes32* code_hash;
} evmc_message;
typedef struct evmc_tx_initcode { evmc_bytes32 hash; const uint8_t* code; size_t code_size; } evmc_tx_initcode;
typedef struct evmc_tx_context {
  evmc_uint256be tx_gas_price;
  evmc_address tx_origin;
  evmc_address block_coinbase;
  int64_t block_number;
  int64_t block_timestamp;
  int64_t block_gas_limit;
  evmc_uint256be block_prev_randao;
  evmc_uint256be chain_id;
  evmc_uint256be block_base_fee;
  evmc_uint256be blob_base_fee;
  const evmc_bytes32* blob_hashes;
  size_t blob_hashes_count;
  const evmc_tx_initcode* initcodes;
  size_t initcodes_count;
} evmc_tx_context;
struct evmc_host_context;
typedef struct evmc_host_context evmc_host_context;
typedef struct evmc_vm evmc_vm;
typedef struct evmc_result evmc_result;
typedef evmc_tx_context (*evmc_get_tx_context_fn)(evmc_host_context*);
typedef evmc_bytes32 (*evmc_get_block_hash_fn)(evmc_host_context*, int64_t);
enum evmc_status_code {
  EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3,
  EVMC_INVALID_INSTRUCTION = 4, EVMC_UNDEFINED_INSTRUCTION = 5, EVMC_STACK_OVERFLOW = 6,
  EVMC_STACK_UNDERFLOW = 7, EVMC_BAD_JUMP_DESTINATION = 8, EVMC_INVALID_MEMORY_ACCESS = 9,
  EVMC_CALL_DEPTH_EXCEEDED = 10, EVMC_STATIC_MODE_VIOLATION = 11, EVMC_PRECOMPILE_FAILURE = 12,
  EVMC_CONTRACT_VALIDATION_FAILURE = 13, EVMC_ARGUMENT_OUT_OF_RANGE = 14,
  EVMC_WASM_UNREACHABLE_INSTRUCTION = 15, EVMC_WASM_TRAP = 16, EVMC_INSUFFICIENT_BALANCE = 17,
  EVMC_INTERNAL_ERROR = -1, EVMC_REJECTED = -2, EVMC_OUT_OF_MEMORY = -3
};
#ifndef __cplusplus
typedef enum evmc_status_code evmc_status_code;
#endif
typedef void (*evmc_release_result_fn)(const evmc_result*);
struct evmc_result {
  enum evmc_status_code status_code;
  int64_t gas_left;
  int64_t gas_refund;
  const uint8_t* output_data;
  size_t output_size;
  evmc_release_result_fn release;
  evmc_address create_address;
  uint8_t padding[4];
};
enum evmc_storage_status {
  EVMC_STORAGE_ASSIGNED = 0, EVMC_STORAGE_ADDED = 1, EVMC_STORAGE_DELETED = 2, EVMC_STORAGE_MODIFIED = 3,
  EVMC_STORAGE_DELETED_ADDED = 4, EVMC_STORAGE_MODIFIED_DELETED = 5, EVMC_STORAGE_DELETED_RESTORED = 6,
  EVMC_STORAGE_ADDED_DELETED = 7, EVMC_STORAGE_MODIFIED_RESTORED = 8
};
enum evmc_access_status { EVMC_ACCESS_COLD = 0, EVMC_ACCESS_WARM = 1 };
typedef bool (*evmc_account_exists_fn)(evmc_host_context*, const evmc_address*);
typedef evmc_bytes32 (*evmc_get_storage_fn)(evmc_host_context*, const evmc_address*, const evmc_bytes32*);
typedef evmc_bytes32 (*evmc_get_transient_storage_fn)(evmc_host_context*, const evmc_address*, const evmc_bytes32*);
typedef enum evmc_storage_status (*evmc_set_storage_fn)(evmc_host_context*, const evmc_address*, const evmc_bytes32*, const evmc_bytes32*);
typedef void (*evmc_set_transient_storage_fn)(evmc_host_context*, const evmc_address*, const evmc_bytes32*, const evmc_bytes32*);
typedef evmc_uint256be (*evmc_get_balance_fn)(evmc_host_context*, const evmc_address*);
typedef size_t (*evmc_get_code_size_fn)(evmc_host_context*, const evmc_address*);
typedef evmc_bytes32 (*evmc_get_code_hash_fn)(evmc_host_context*, const evmc_address*);
typedef size_t (*evmc_copy_code_fn)(evmc_host_context*, const evmc_address*, size_t, uint8_t*, size_t);
typedef bool (*evmc_selfdestruct_fn)(evmc_host_context*, const evmc_address*, const evmc_address*);
typedef void (*evmc_emit_log_fn)(evmc_host_context*, const evmc_address*, const uint8_t*, size_t, const evmc_bytes32[], size_t);
typedef enum evmc_access_status (*evmc_access_account_fn)(evmc_host_context*, const evmc_address*);
typedef enum evmc_access_status (*evmc_access_storage_fn)(evmc_host_context*, const evmc_address*, const evmc_bytes32*);
typedef evmc_result (*evmc_call_fn)(evmc_host_context*, const evmc_message*);
typedef struct evmc_host_interface {
  evmc_account_exists_fn account_exists;
  evmc_get_storage_fn get_storage;
  evmc_set_storage_fn set_storage;
  evmc_get_balance_fn get_balance;
  evmc_get_code_size_fn get_code_size;
  evmc_get_code_hash_fn get_code_hash;
  evmc_copy_code_fn copy_code;
  evmc_selfdestruct_fn selfdestruct;
  evmc_call_fn call;
  evmc_get_tx_context_fn get_tx_context;
  evmc_get_block_hash_fn get_block_hash;
  evmc_emit_log_fn emit_log;
  evmc_access_account_fn access_account;
  evmc_access_storage_fn access_storage;
  evmc_get_transient_storage_fn get_transient_storage;
  evmc_set_transient_storage_fn set_transient_storage;
} evmc_host_interface;
enum evmc_revision {
  EVMC_FRONTIER = 0, EVMC_HOMESTEAD = 1, EVMC_TANGERINE_WHISTLE = 2, EVMC_SPURIOUS_DRAGON = 3,
  EVMC_BYZANTIUM = 4, EVMC_CONSTANTINOPLE = 5, EVMC_PETERSBURG = 6, EVMC_ISTANBUL = 7, EVMC_BERLIN = 8,
  EVMC_LONDON = 9, EVMC_PARIS = 10, EVMC_SHANGHAI = 11, EVMC_CANCUN = 12, EVMC_PRAGUE = 13,
  EVMC_MAX_REVISION = EVMC_PRAGUE, EVMC_LATEST_STABLE_REVISION = EVMC_SHANGHAI
};
#ifndef __cplusplus
typedef enum evmc_revision evmc_revision;
typedef enum evmc_storage_status evmc_storage_status;
typedef enum evmc_access_status evmc_access_status;
#endif
enum evmc_capabilities { EVMC_CAPABILITY_EVM1 = 1, EVMC_CAPABILITY_EWASM = 2, EVMC_CAPABILITY_PRECOMPILES = 4 };
typedef uint32_t evmc_capabilities_flagset;
enum evmc_set_option_result { EVMC_SET_OPTION_SUCCESS = 0, EVMC_SET_OPTION_INVALID_NAME = 1, EVMC_SET_OPTION_INVALID_VALUE = 2 };
#ifndef __cplusplus
typedef enum evmc_set_option_result evmc_set_option_result;
#endif
typedef void (*evmc_destroy_fn)(evmc_vm*);
typedef enum evmc_set_option_result (*evmc_set_option_fn)(evmc_vm*, char const*, char const*);
typedef evmc_result (*evmc_execute_fn)(evmc_vm*, const evmc_host_interface*, evmc_host_context*, enum evmc_revision,
                                       const evmc_message*, uint8_t const*, size_t);
typedef evmc_capabilities_flagset (*evmc_get_capabilities_fn)(evmc_vm*);
struct evmc_vm {
  int abi_version;
  const char* name;
  const char* version;
  evmc_destroy_fn destroy;
  evmc_execute_fn execute;
  evmc_get_capabilities_fn get_capabilities;
  evmc_set_option_fn set_option;
};
enum evmc_step_status_code {
  EVMC_STEP_RUNNING = 0, EVMC_STEP_STOPPED = 1, EVMC_STEP_RETURNED = 2, EVMC_STEP_REVERTED = 3, EVMC_STEP_FAILED = 4
};
#ifndef __cplusplus
typedef enum evmc_step_status_code evmc_step_status_code;
#endif
typedef struct evmc_step_result evmc_step_result;
typedef void (*evmc_release_step_result_fn)(const evmc_step_result*);
struct evmc_step_result {
  enum evmc_step_status_code step_status_code;
  enum evmc_status_code status_code;
  enum evmc_revision revision;
  uint64_t pc;
  int64_t gas_left;
  int64_t gas_refund;
  const uint8_t* output_data;
  size_t output_size;
  const evmc_uint256be* stack;
  size_t stack_size;
  const uint8_t* memory;
  size_t memory_size;
  const uint8_t* last_call_return_data;
  size_t last_call_return_data_size;
  evmc_release_step_result_fn release;
};
typedef struct evmc_vm_steppable evmc_vm_steppable;
typedef evmc_step_result (*evmc_step_n_fn)(evmc_vm_steppable*, const evmc_host_interface*, evmc_host_context*,
                                           enum evmc_revision, const evmc_message*, uint8_t const*, size_t,
                                           enum evmc_step_status_code, uint64_t pc, int64_t gas_refunds,
                                           evmc_uint256be* stack, size_t stack_size, uint8_t* memory,
                                           size_t memory_size, uint8_t* last_call_return_data,
                                           size_t last_call_return_data_size, int32_t steps);
struct evmc_vm_steppable {
  evmc_vm* vm;
  evmc_step_n_fn step_n;
  void (*destroy)(evmc_vm_steppable*);
};
#ifdef __cplusplus
}
#endif
#endif

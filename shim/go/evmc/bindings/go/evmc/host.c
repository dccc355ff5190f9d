#include "_cgo_export.h"
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include "shim.h"

static void free_output(const struct evmc_result* r) { free((void*)r->output_data); }

static bool h_account_exists(evmc_host_context* c, const evmc_address* a) { return goAccountExists((uintptr_t)c, (void*)a); }
static evmc_bytes32 h_get_storage(evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k) { evmc_bytes32 r; goGetStorage((uintptr_t)c, (void*)a, (void*)k, &r); return r; }
static enum evmc_storage_status h_set_storage(evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { return (enum evmc_storage_status)goSetStorage((uintptr_t)c, (void*)a, (void*)k, (void*)v); }
static evmc_uint256be h_get_balance(evmc_host_context* c, const evmc_address* a) { evmc_bytes32 r; goGetBalance((uintptr_t)c, (void*)a, &r); return r; }
static size_t h_get_code_size(evmc_host_context* c, const evmc_address* a) { return (size_t)goGetCodeSize((uintptr_t)c, (void*)a); }
static evmc_bytes32 h_get_code_hash(evmc_host_context* c, const evmc_address* a) { evmc_bytes32 r; goGetCodeHash((uintptr_t)c, (void*)a, &r); return r; }
static size_t h_copy_code(evmc_host_context* c, const evmc_address* a, size_t o, uint8_t* b, size_t n) { return (size_t)goCopyCode((uintptr_t)c, (void*)a, o, b, n); }
static bool h_selfdestruct(evmc_host_context* c, const evmc_address* a, const evmc_address* b) { return goSelfdestruct((uintptr_t)c, (void*)a, (void*)b); }
static evmc_result h_call(evmc_host_context* c, const evmc_message* m) {
  evmc_result r;
  memset(&r, 0, sizeof r);
  goCall((uintptr_t)c, (void*)m, &r);
  r.release = free_output;
  return r;
}
static evmc_tx_context h_get_tx_context(evmc_host_context* c) { evmc_tx_context r; memset(&r, 0, sizeof r); goGetTxContext((uintptr_t)c, &r); return r; }
static evmc_bytes32 h_get_block_hash(evmc_host_context* c, int64_t n) { evmc_bytes32 r; goGetBlockHash((uintptr_t)c, n, &r); return r; }
static void h_emit_log(evmc_host_context* c, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t tn) { goEmitLog((uintptr_t)c, (void*)a, (void*)d, n, (void*)t, tn); }
static enum evmc_access_status h_access_account(evmc_host_context* c, const evmc_address* a) { return (enum evmc_access_status)goAccessAccount((uintptr_t)c, (void*)a); }
static enum evmc_access_status h_access_storage(evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k) { return (enum evmc_access_status)goAccessStorage((uintptr_t)c, (void*)a, (void*)k); }
static evmc_bytes32 h_get_transient(evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k) { evmc_bytes32 r; goGetTransient((uintptr_t)c, (void*)a, (void*)k, &r); return r; }
static void h_set_transient(evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { goSetTransient((uintptr_t)c, (void*)a, (void*)k, (void*)v); }

static const evmc_host_interface host = {
    h_account_exists, h_get_storage, h_set_storage, h_get_balance, h_get_code_size, h_get_code_hash, h_copy_code, h_selfdestruct,
    h_call, h_get_tx_context, h_get_block_hash, h_emit_log, h_access_account, h_access_storage, h_get_transient, h_set_transient};

void* shim_load(const char* lib, int steppable, char* err, size_t errlen) {
  void* h = dlopen(lib, RTLD_LAZY);
  if (!h) { strncpy(err, dlerror(), errlen - 1); return NULL; }
  const char* base = strrchr(lib, '/');
  base = base ? base + 1 : lib;
  if (strncmp(base, "lib", 3) == 0) base += 3;
  char name[128];
  strcpy(name, steppable ? "evmc_create_steppable_" : "evmc_create_");
  size_t n = strlen(name);
  while (*base && *base != '.' && *base != '-' && n < sizeof name - 1) name[n++] = *base++;
  name[n] = 0;
  void* (*create)(void) = (void* (*)(void))dlsym(h, name);
  if (!create) { strncpy(err, "create function not found", errlen - 1); return NULL; }
  return create();
}
evmc_result shim_execute(evmc_vm* vm, uintptr_t ctx, int rev, const evmc_message* msg, const uint8_t* code, size_t code_size) {
  return vm->execute(vm, &host, (evmc_host_context*)ctx, (enum evmc_revision)rev, msg, code, code_size);
}
evmc_step_result shim_step_n(evmc_vm_steppable* vm, uintptr_t ctx, int rev, const evmc_message* msg, const uint8_t* code, size_t code_size,
                             int status, uint64_t pc, int64_t refunds, void* stack, size_t stack_size, uint8_t* memory, size_t memory_size,
                             uint8_t* lcd, size_t lcd_size, int32_t steps) {
  return vm->step_n(vm, &host, (evmc_host_context*)ctx, (enum evmc_revision)rev, msg, code, code_size, (enum evmc_step_status_code)status, pc,
                    refunds, (evmc_uint256be*)stack, stack_size, memory, memory_size, lcd, lcd_size, steps);
}
void shim_destroy(evmc_vm* vm) { vm->destroy(vm); }
void shim_destroy_steppable(evmc_vm_steppable* vm) { vm->destroy(vm); }
int shim_set_option(evmc_vm* vm, const char* k, const char* v) { return vm->set_option ? (int)vm->set_option(vm, k, v) : EVMC_SET_OPTION_INVALID_NAME; }
void shim_release(evmc_result* r) { if (r->release) r->release(r); }
void shim_release_step(evmc_step_result* r) { if (r->release) r->release(r); }

#pragma once
#include <evmc/evmc.h>
void* shim_load(const char* lib, int steppable, char* err, size_t errlen);
evmc_result shim_execute(evmc_vm* vm, uintptr_t ctx, int rev, const evmc_message* msg, const uint8_t* code, size_t code_size);
evmc_step_result shim_step_n(evmc_vm_steppable* vm, uintptr_t ctx, int rev, const evmc_message* msg, const uint8_t* code, size_t code_size,
                             int status, uint64_t pc, int64_t refunds, void* stack, size_t stack_size, uint8_t* memory, size_t memory_size,
                             uint8_t* lcd, size_t lcd_size, int32_t steps);
void shim_destroy(evmc_vm* vm);
void shim_destroy_steppable(evmc_vm_steppable* vm);
int shim_set_option(evmc_vm* vm, const char* k, const char* v);
void shim_release(evmc_result* r);
void shim_release_step(evmc_step_result* r);

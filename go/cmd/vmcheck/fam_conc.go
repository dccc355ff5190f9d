package main

import (
	"os"
	"path/filepath"
	"time"

	"verif/engine"
)

func init() {
	checks["P15"] = check{"", runConcurrent}
	checks["P16"] = check{"", runLru}
	checks["P17"] = check{"", runMemory}
	checks["P25"] = check{"", runRegistries}
}

func concBin(name string) string { return filepath.Join(os.Getenv("VERIF_LIBS"), "conc", name) }

// runLru explores the histories and interleavings of the C++ LruCache.
func runLru(x *engine.Explorer) {
	limit := engine.Pick(x, 200*time.Second, 500*time.Second)
	x.External("LruCache", limit, concBin("lru_seq"), engine.Pick(x, "8", "9"), "8")
	x.External("LruCache with sanitizers", limit, concBin("lru_seq_asan"), engine.Pick(x, "5", "6"), "8")
	x.ExternalShards("LruCache", limit, 8, concBin("lru_conc"), x.Tier)
	x.ExternalShards("LruCache", limit, 8, concBin("lru_conc_shared"), x.Tier)
	x.Sample("thread 0: GetOrInsert 0; Get 1 || thread 1: InsertOrAssign 2; Clear - in every interleaving")
}

// runConcurrent explores the interleavings of concurrent executions on shared
// interpreter and processor instances.
func runConcurrent(x *engine.Explorer) {
	limit := engine.Pick(x, 280*time.Second, 600*time.Second)
	x.ExternalShards("evmzero", limit, 8, concBin("ez_conc"), x.Tier)
	x.ExternalShards("lfvm, floria", limit, 16, filepath.Join(os.Getenv("VERIF_LIBS"), "goconc"), "P15", x.Tier)
	x.Sample("lfvm: thread 0: hash of a shared word || thread 1: nested call of a hash - cold caches, in every interleaving")
}

// runRegistries explores the histories and interleavings of the registries.
func runRegistries(x *engine.Explorer) {
	x.ExternalShards("registries", engine.Pick(x, 280*time.Second, 600*time.Second), 8, filepath.Join(os.Getenv("VERIF_LIBS"), "goconc"), "P25", x.Tier)
	x.Sample(`thread 0: register "a"=1; get "A" || thread 1: register "A"=2; get "a" - in every interleaving`)
}

// runMemory explores the memory accesses of the native interpreters.
func runMemory(x *engine.Explorer) {
	libs := os.Getenv("VERIF_LIBS")
	limit := engine.Pick(x, 120*time.Second, 200*time.Second)
	run := func(vm, lib, name string) {
		x.ExternalShards(vm, limit, 8, filepath.Join(libs, "mem", "evm_mem"), lib, "evmc_create_"+name, "evmc_create_steppable_"+name, x.Tier)
	}
	run("evmzero", filepath.Join(libs, "mem", "libevmzero.so"), "evmzero")
	for _, v := range engine.Pick(x, []string{"performance", "inline"}, []string{"performance", "inline", "default"}) {
		run("evmrs "+v, filepath.Join(libs, "memrs", v, "libevmrs.so"), "evmrs")
	}
	x.Sample("code 7fabab: PUSH32 cut off by the end of the code, executed from every position")
}

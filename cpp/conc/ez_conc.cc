// Explores the interleavings of executions running concurrently on one evmzero
// instance; every execution must produce the result it produces alone.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <string>
#include <vector>

#include <evmc/evmc.h>

#include "rt.h"

extern "C" evmc_vm* evmc_create_evmzero() noexcept;

namespace {
using Bytes = std::vector<uint8_t>;
evmc_vm* vm;       // the one shared by all threads
evmc_vm* plain;    // without caches, only used sequentially

struct Outcome {
  int status = -1;
  int64_t gas = 0;
  Bytes out;
  bool operator==(const Outcome&) const = default;
};

Outcome Execute(evmc_vm* m, const Bytes& code, const evmc_bytes32* hash, const Bytes& input, int depth);

struct Ctx {
  evmc_vm* m;
  Bytes callee;
  evmc_bytes32 callee_hash;
  int depth;
};
thread_local Ctx* tls;  // the environment of the executing thread

Bytes Code(int kind, uint64_t nonce);
evmc_bytes32 HashOf(int kind, uint64_t nonce) {
  evmc_bytes32 h{};
  h.bytes[0] = uint8_t(kind + 1);
  memcpy(h.bytes + 8, &nonce, 8);
  h.bytes[31] = 7;
  return h;
}

evmc_host_interface Host() {
  evmc_host_interface h{};
  h.account_exists = [](evmc_host_context*, const evmc_address*) { return true; };
  h.get_storage = [](evmc_host_context*, const evmc_address*, const evmc_bytes32* k) { return *k; };
  h.set_storage = [](evmc_host_context*, const evmc_address*, const evmc_bytes32*, const evmc_bytes32*) { return EVMC_STORAGE_MODIFIED; };
  h.get_balance = [](evmc_host_context*, const evmc_address*) { return evmc_uint256be{}; };
  h.get_code_size = [](evmc_host_context*, const evmc_address*) { return size_t(3); };
  h.get_code_hash = [](evmc_host_context*, const evmc_address*) { return evmc_bytes32{}; };
  h.copy_code = [](evmc_host_context*, const evmc_address*, size_t, uint8_t*, size_t) { return size_t(0); };
  h.selfdestruct = [](evmc_host_context*, const evmc_address*, const evmc_address*) { return true; };
  h.access_account = [](evmc_host_context*, const evmc_address*) { return EVMC_ACCESS_WARM; };
  h.access_storage = [](evmc_host_context*, const evmc_address*, const evmc_bytes32*) { return EVMC_ACCESS_WARM; };
  h.get_tx_context = [](evmc_host_context*) { return evmc_tx_context{}; };
  h.get_block_hash = [](evmc_host_context*, int64_t) { return evmc_bytes32{}; };
  h.emit_log = [](evmc_host_context*, const evmc_address*, const uint8_t*, size_t, const evmc_bytes32*, size_t) {};
  h.call = [](evmc_host_context* c, const evmc_message* msg) {
    auto* x = reinterpret_cast<Ctx*>(c);
    Outcome o = Execute(x->m, x->callee, &x->callee_hash, Bytes(msg->input_data, msg->input_data + msg->input_size), msg->depth);
    evmc_result r{};
    r.status_code = evmc_status_code(o.status);
    r.gas_left = o.gas;
    if (!o.out.empty()) {
      auto* d = new uint8_t[o.out.size()];
      memcpy(d, o.out.data(), o.out.size());
      r.output_data = d;
      r.output_size = o.out.size();
    }
    r.release = [](const evmc_result* q) { delete[] q->output_data; };
    return r;
  };
  return h;
}
const evmc_host_interface host = Host();

Outcome Execute(evmc_vm* m, const Bytes& code, const evmc_bytes32* hash, const Bytes& input, int depth) {
  evmc_message msg{};
  msg.kind = EVMC_CALL;
  msg.depth = depth;
  msg.gas = 1000000;
  msg.input_data = input.data();
  msg.input_size = input.size();
  msg.code_hash = hash;
  Ctx c{m, {}, {}, depth};
  if (tls) {
    c.callee = tls->callee;
    c.callee_hash = tls->callee_hash;
  }
  evmc_result r = m->execute(m, &host, reinterpret_cast<evmc_host_context*>(&c), EVMC_LONDON, &msg, code.data(), code.size());
  Outcome o{int(r.status_code), r.gas_left, {}};
  if (r.output_size) o.out.assign(r.output_data, r.output_data + r.output_size);
  if (r.release) r.release(&r);
  return o;
}

void Push32(Bytes& b, uint64_t v) {
  b.push_back(0x7f);
  for (int i = 0; i < 24; i++) b.push_back(uint8_t(0xa0 + i));
  for (int i = 7; i >= 0; i--) b.push_back(uint8_t(v >> (8 * i)));
}
void Add(Bytes& b, std::initializer_list<int> l) {
  for (int x : l) b.push_back(uint8_t(x));
}

constexpr int kKinds = 7;
const char* kNames[kKinds] = {"hash of a shared 32 byte word", "hash of 64 shared bytes", "hash of a private word", "deep stack", "loop", "nested call of a hash", "jump into nowhere"};

Bytes Code(int kind, uint64_t nonce) {
  Bytes b;
  switch (kind) {
    case 0:  // keccak(nonce)
      Push32(b, nonce);
      Add(b, {0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0x20});
      break;
    case 1:  // keccak(nonce, 5)
      Push32(b, nonce);
      Add(b, {0x60, 0, 0x52, 0x60, 5, 0x60, 32, 0x52, 0x60, 64, 0x60, 0, 0x20});
      break;
    case 2:  // keccak(input word)
      Push32(b, nonce);
      Add(b, {0x60, 0, 0x35, 0x18, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0x20});
      break;
    case 3:  // input word summed up over a deep stack
      Push32(b, nonce);
      Add(b, {0x60, 0, 0x35});
      for (int i = 0; i < 60; i++) Add(b, {0x80, 0x60, 1, 0x01});
      for (int i = 0; i < 61; i++) b.push_back(i % 2 ? 0x01 : 0x18);
      break;
    case 4: {  // loop over jump destinations
      Push32(b, nonce);
      Add(b, {0x60, 0, 0x35, 0x60, 4});  // acc input n
      uint8_t top = uint8_t(b.size());
      Add(b, {0x5b, 0x90, 0x60, 3, 0x02, 0x90, 0x60, 1, 0x90, 0x03, 0x80, 0x60, top, 0x57, 0x50, 0x01});
      break;
    }
    case 5:  // call, result combined with own input after the call
      Push32(b, nonce);
      Add(b, {0x60, 0, 0x35, 0x60, 0, 0x52});
      Add(b, {0x60, 32, 0x60, 32, 0x60, 32, 0x60, 0, 0x60, 0, 0x60, 9, 0x61, 0x40, 0, 0xf1});  // CALL(in 0..32, out 32..64)
      Add(b, {0x60, 32, 0x51, 0x01, 0x60, 0, 0x51, 0x01, 0x01});
      break;
    default:  // fails
      Push32(b, nonce);
      Add(b, {0x60, 0, 0x35, 0x56});
  }
  Add(b, {0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3});
  return b;
}

struct Job {
  int kind;
  uint64_t nonce;
  int input;
  bool hashed;
};
Bytes Input(int i) {
  Bytes b(32, 0);
  b[31] = uint8_t(17 * i + 3);
  b[3] = uint8_t(i);
  return b;
}
Outcome RunJob(evmc_vm* m, const Job& j) {
  Bytes code = Code(j.kind, j.nonce);
  evmc_bytes32 h = HashOf(j.kind, j.nonce);
  Ctx c{m, Code(2, j.nonce), HashOf(2, j.nonce), 0};
  tls = &c;
  Outcome o = Execute(m, code, j.hashed ? &h : nullptr, Input(j.input), 0);
  tls = nullptr;
  return o;
}
std::string Hex(const Bytes& b) {
  std::string s;
  char t[3];
  for (auto x : b) {
    snprintf(t, 3, "%02x", x);
    s += t;
  }
  return s;
}

uint64_t next_nonce = 1;
struct State {
  std::vector<std::vector<Outcome>> got;
  std::vector<std::vector<Job>> jobs;
};
State* st;
}  // namespace

int main(int argc, char** argv) {
  rt::InstallCrashHandler();
  bool thorough = argc > 1 && std::string(argv[1]) == "thorough";
  int share = argc > 2 ? atoi(argv[2]) : 0, shares = argc > 3 ? atoi(argv[3]) : 1;
  vm = evmc_create_evmzero();
  plain = evmc_create_evmzero();
  plain->set_option(plain, "analysis_cache", "false");
  plain->set_option(plain, "sha3_cache", "false");
  int n = 0;
  rt::Stats stats;
  auto explore = [&](const std::string& fam, std::vector<std::vector<int>> kinds, bool warm, bool same, bool hashed, int preemptions) {
    if (n++ % shares != share) return true;
    std::string name = fam + (warm ? ", warm caches" : ", cold caches") + (same ? ", same codes" : ", different codes") + (hashed ? ":" : ", no code hash:");
    for (size_t t = 0; t < kinds.size(); t++) {
      name += t ? " ||" : "";
      for (size_t i = 0; i < kinds[t].size(); i++) name += (i ? "; " : " ") + std::string(kNames[kinds[t][i]]);
    }
    rt::Scenario s;
    s.name = name;
    s.setup = [&] {
      delete st;
      st = new State;
      std::vector<std::function<void()>> b;
      uint64_t base = next_nonce;
      next_nonce += 16;
      int input = 0;
      for (size_t t = 0; t < kinds.size(); t++) {
        std::vector<Job> js;
        for (int k : kinds[t]) js.push_back({k, same ? base : base + 1 + t, input++, hashed});
        st->jobs.push_back(js);
      }
      if (warm)
        for (auto& js : st->jobs)
          for (auto& j : js) RunJob(vm, j);
      st->got.resize(kinds.size());
      for (size_t t = 0; t < kinds.size(); t++) {
        st->got[t].reserve(8);
        auto* js = &st->jobs[t];
        auto* got = &st->got[t];
        b.push_back([js, got] {
          for (auto& j : *js) got->push_back(RunJob(vm, j));
        });
      }
      return b;
    };
    s.check = [&]() -> std::string {
      for (size_t t = 0; t < st->jobs.size(); t++)
        for (size_t i = 0; i < st->jobs[t].size(); i++) {
          // alone, without caches; and once more with the now filled caches
          for (int round = 0; round < 2; round++) {
            Outcome want = RunJob(plain, st->jobs[t][i]);
            Outcome got = round ? RunJob(vm, st->jobs[t][i]) : st->got[t][i];
            if (!(want == got))
              return "thread " + std::to_string(t) + (round ? ", repeated afterwards," : "") + " ends with status " + std::to_string(got.status) + ", gas " + std::to_string(got.gas) + ", output " + Hex(got.out) + "; alone it is status " +
                     std::to_string(want.status) + ", gas " + std::to_string(want.gas) + ", output " + Hex(want.out);
          }
        }
      return "";
    };
    return rt::Explore(s, {preemptions, -1}, stats);
  };
  auto all = [&]() {
    for (bool warm : {false, true})
      for (bool same : {true, false})
        for (bool hashed : {true, false}) {
          if (!hashed && !same) continue;
          for (int a = 0; a < kKinds; a++)
            for (int b = a; b < kKinds; b++)
              if (!explore("2 executions", {{a}, {b}}, warm, same, hashed, thorough ? 3 : 2)) return;
        }
    for (int a = 0; a < kKinds; a++)
      for (int b = 0; b < kKinds; b++)
        if (!explore("2 x 2 executions", {{a, b}, {b, a}}, false, true, true, thorough ? 2 : 1)) return;
    for (int a = 0; a < kKinds; a++)
      for (int b = a; b < kKinds; b++)
        for (int c = b; c < kKinds; c++)
          if (!explore("3 executions", {{a}, {b}, {c}}, false, true, true, thorough ? 2 : 1)) return;
  };
  all();
  // profiling instances are interpreters as well
  for (const char* mode : {"profiling", "profiling_external"}) {
    evmc_vm* shared = vm;
    vm = evmc_create_evmzero();
    vm->set_option(vm, mode, "true");
    bool more = true;
    for (int a = 0; a < kKinds && more; a++)
      for (int b = a; b < kKinds && more; b++) more = explore(std::string(mode) + " 2 executions", {{a}, {b}}, false, true, true, thorough ? 3 : 2);
    vm = shared;
  }
  rt::Count("evmzero", stats.schedules);
  printf("DONE\n");
  return 0;
}

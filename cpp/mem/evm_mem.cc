// Executes all instructions from all states of a bounded grid, and all programs
// up to a bounded length, on an EVMC implementation built with the address and
// undefined behaviour sanitizers. All buffers handed over have exactly the size
// announced, and everything handed out has to be released.
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <initializer_list>
#include <string>
#include <vector>

#include <evmc/evmc.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace {
using Bytes = std::vector<uint8_t>;
using Word = evmc_uint256be;

evmc_vm* vm;
evmc_vm_steppable* stepper;
bool thorough;
int share, shares;
std::string current;  // describes the running case
std::string family;
long count, transitions, turn;
volatile uint8_t sink;

std::string Hex(const uint8_t* p, size_t n) {
  std::string s;
  char b[3];
  for (size_t i = 0; i < n && i < 80; i++) snprintf(b, 3, "%02x", p[i]), s += b;
  if (n > 80) s += "... (" + std::to_string(n) + " bytes)";
  return s;
}

void Finding(const std::string& what) {
  static int reported;
  if (reported++ > 5) return;
  printf("FINDING %s|%s: %s\n", family.c_str(), current.c_str(), what.c_str());
  fflush(stdout);
}

std::string describe();  // of the running case
void OnDeath() {
  current = describe();
  Finding("memory error or undefined behaviour (see the log)");
}

// Reads a range handed to the host.
void Touch(const void* p, size_t n) {
  auto* b = static_cast<const uint8_t*>(p);
  if (n && __asan_region_is_poisoned(const_cast<void*>(p), n)) {
    current = describe();
    Finding("invalid range handed to the host");
  }
  for (size_t i = 0; i < n; i += 31) sink = b[i];
  if (n) sink = b[n - 1];
}

long outstanding;  // results of calls not yet released
size_t call_output;
evmc_status_code call_status = EVMC_SUCCESS;
int64_t call_gas = 5;

evmc_host_interface Host() {
  using C = evmc_host_context;
  using A = evmc_address;
  using B = evmc_bytes32;
  evmc_host_interface h{};
  h.account_exists = [](C*, const A* a) { Touch(a, sizeof *a); return (a->bytes[19] & 1) == 0; };
  h.get_storage = [](C*, const A* a, const B* k) { Touch(a, sizeof *a); Touch(k, sizeof *k); return *k; };
  h.set_storage = [](C*, const A* a, const B* k, const B* v) { Touch(a, sizeof *a); Touch(k, sizeof *k); Touch(v, sizeof *v); return EVMC_STORAGE_MODIFIED; };
  h.get_balance = [](C*, const A* a) { Touch(a, sizeof *a); Word w{}; w.bytes[30] = 1; return w; };
  h.get_code_size = [](C*, const A* a) { Touch(a, sizeof *a); return size_t(3); };
  h.get_code_hash = [](C*, const A* a) { Touch(a, sizeof *a); return B{}; };
  h.copy_code = [](C*, const A* a, size_t offset, uint8_t* buffer, size_t size) {
    Touch(a, sizeof *a);
    const size_t n = offset >= 3 ? 0 : std::min<size_t>(3 - offset, size);
    if (size) Touch(buffer, size);
    if (n) memset(buffer, 0xcc, n);
    return n;
  };
  h.selfdestruct = [](C*, const A* a, const A* b) { Touch(a, sizeof *a); Touch(b, sizeof *b); return true; };
  h.access_account = [](C*, const A* a) { Touch(a, sizeof *a); return a->bytes[19] & 2 ? EVMC_ACCESS_WARM : EVMC_ACCESS_COLD; };
  h.access_storage = [](C*, const A* a, const B* k) { Touch(a, sizeof *a); Touch(k, sizeof *k); return EVMC_ACCESS_COLD; };
  h.get_transient_storage = [](C*, const A* a, const B* k) { Touch(a, sizeof *a); Touch(k, sizeof *k); return *k; };
  h.set_transient_storage = [](C*, const A* a, const B* k, const B* v) { Touch(a, sizeof *a); Touch(k, sizeof *k); Touch(v, sizeof *v); };
  h.get_tx_context = [](C*) {
    static const B blobs[2] = {};
    evmc_tx_context t{};
    t.block_number = 1000;
    t.blob_hashes = blobs;
    t.blob_hashes_count = 2;
    return t;
  };
  h.get_block_hash = [](C*, int64_t) { return B{}; };
  h.emit_log = [](C*, const A* a, const uint8_t* d, size_t n, const B* t, size_t k) { Touch(a, sizeof *a); Touch(d, n); Touch(t, k * sizeof *t); };
  h.call = [](C*, const evmc_message* m) {
    Touch(m, sizeof *m);
    Touch(m->input_data, m->input_size);
    evmc_result r{};
    r.status_code = call_status;
    r.gas_left = std::min(call_gas, m->gas);
    outstanding++;
    if (call_output) {
      auto* d = static_cast<uint8_t*>(malloc(call_output));
      memset(d, 0xab, call_output);
      r.output_data = d;
      r.output_size = call_output;
    }
    r.release = [](const evmc_result* q) {
      outstanding--;
      free(const_cast<uint8_t*>(q->output_data));
    };
    return r;
  };
  return h;
}
const evmc_host_interface host = Host();

// A block of memory with exactly the given content.
struct Exact {
  uint8_t* p;
  size_t n;
  Exact(const void* d, size_t n) : p(n ? static_cast<uint8_t*>(malloc(n)) : nullptr), n(n) {
    if (n) memcpy(p, d, n);
  }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};

struct Case {
  Bytes code, input;
  int64_t gas = 100000;
  int revision = EVMC_CANCUN;
  bool is_static = false;
  bool create = false;
  // for steps
  bool step = false;
  uint64_t pc = 0;
  int32_t steps = 1;
  std::vector<Word> stack;
  Bytes memory, returned;
  int status = EVMC_STEP_RUNNING;
};
const Case* running;

std::string describe() {
  if (!running) return "nothing";
  const Case& c = *running;
  std::string s = c.step ? "step" : "execution";
  s += " of code " + Hex(c.code.data(), c.code.size()) + " at " + std::to_string(c.pc) + ", gas " + std::to_string(c.gas) + ", revision " + std::to_string(c.revision) + (c.is_static ? ", static" : "");
  s += ", input " + Hex(c.input.data(), c.input.size());
  if (c.step) {
    s += ", stack of " + std::to_string(c.stack.size()) + " with";
    for (size_t i = 0; i < c.stack.size() && i < 8; i++) s += " " + Hex(c.stack[c.stack.size() - 1 - i].bytes, 32);
    s += ", memory of " + std::to_string(c.memory.size()) + ", return data of " + std::to_string(c.returned.size());
  }
  return s + ", calls return " + std::to_string(call_output) + " bytes";
}

void Problem(const char* what) {
  current = describe();
  Finding(what);
}

void Check(const Case& c, int status, int64_t gas, const uint8_t* out, size_t size) {
  if (status == EVMC_INTERNAL_ERROR) Problem("internal error");
  if (size) Touch(out, size);
  (void)gas;
}

void RunOnce(const Case& c) {
  running = &c;
  count++;
  evmc_message m{};
  m.kind = c.create ? EVMC_CREATE : EVMC_CALL;
  m.flags = c.is_static ? EVMC_STATIC : 0;
  m.gas = c.gas;
  Exact input(c.input.data(), c.input.size()), code(c.code.data(), c.code.size());
  m.input_data = input.p;
  m.input_size = input.n;
  m.recipient.bytes[19] = 2;
  if (!c.step) {
    evmc_result r = vm->execute(vm, &host, nullptr, evmc_revision(c.revision), &m, code.p, code.n);
    Check(c, r.status_code, r.gas_left, r.output_data, r.output_size);
    if (r.release) r.release(&r);
    transitions++;
  } else {
    Exact stack(c.stack.data(), c.stack.size() * sizeof(Word)), mem(c.memory.data(), c.memory.size()), ret(c.returned.data(), c.returned.size());
    evmc_step_result r = stepper->step_n(stepper, &host, nullptr, evmc_revision(c.revision), &m, code.p, code.n, evmc_step_status_code(c.status), c.pc, 0,
                                         reinterpret_cast<Word*>(stack.p), c.stack.size(), mem.p, mem.n, ret.p, ret.n, c.steps);
    Check(c, r.status_code, r.gas_left, r.output_data, r.output_size);
    if (r.stack_size) Touch(r.stack, r.stack_size * sizeof(Word));
    if (r.stack_size > 1024) Problem("stack exceeds its limit");
    if (r.memory_size) Touch(r.memory, r.memory_size);
    if (r.last_call_return_data_size) Touch(r.last_call_return_data, r.last_call_return_data_size);
    if (r.release) r.release(&r);
    transitions += c.steps;
  }
  if (outstanding) {
    Problem("result of a call not released");
    outstanding = 0;
  }
  running = nullptr;
}

void Run(const Case& c) {
  RunOnce(c);
  if (count % 64) return;
  // nothing may stay allocated: repeat to account for pools and caches
  RunOnce(c);
  size_t before = __sanitizer_get_current_allocated_bytes();
  RunOnce(c);
  RunOnce(c);
  if (__sanitizer_get_current_allocated_bytes() != before) {
    // exclude growth of pools
    before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 8; i++) RunOnce(c);
    if (__sanitizer_get_current_allocated_bytes() >= before + 8) {
      running = &c;
      Problem("memory is never released");
      running = nullptr;
    }
  }
}

bool Mine() { return turn++ % shares == share; }

void Family(const char* name) {
  if (!family.empty()) printf("COUNT %s|%ld|%ld\n", family.c_str(), count, transitions);
  count = transitions = 0;
  family = name;
}

Word W(uint64_t v) {
  Word w{};
  for (int i = 0; i < 8; i++) w.bytes[31 - i] = uint8_t(v >> (8 * i));
  return w;
}
Word Ones() {
  Word w;
  memset(w.bytes, 0xff, 32);
  return w;
}
Word Bit(int b) {
  Word w{};
  w.bytes[31 - b / 8] = uint8_t(1 << (b % 8));
  return w;
}

int Pops(int op) {
  if (op >= 0x80 && op <= 0x8f) return op - 0x7f;
  if (op >= 0x90 && op <= 0x9f) return op - 0x8e;
  if (op >= 0xa0 && op <= 0xa4) return op - 0xa0 + 2;
  if (op >= 0x60 && op <= 0x7f) return 0;
  switch (op) {
    case 0x08: case 0x09: case 0x37: case 0x39: case 0x3e: case 0x5e: case 0xf0: return 3;
    case 0x3c: case 0xf5: return 4;
    case 0xf1: case 0xf2: return 7;
    case 0xf4: case 0xfa: return 6;
    case 0x15: case 0x19: case 0x31: case 0x35: case 0x3b: case 0x3f: case 0x40: case 0x49: case 0x50: case 0x51: case 0x54: case 0x56: case 0x5c: case 0xff: return 1;
    case 0x52: case 0x53: case 0x55: case 0x57: case 0x5d: case 0x20: case 0xf3: case 0xfd: return 2;
  }
  return op > 0 && op < 0x20 ? 2 : 0;
}

// Steps over every instruction from all states of a grid.
void Steps() {
  Family("single steps");
  const std::vector<Word> small = {W(0), W(1), W(32), W(33), W(0xffffffff), Bit(64), Ones()};
  const std::vector<Word> words = {W(0), W(1), W(2), W(31), W(32), W(33), W(64), W(0x1ffffffe0), W(0xffffffff), W(0x7fffffffffffffff), W(~0ull - 31), W(~0ull), Bit(64), Bit(255), Ones()};
  const std::vector<Word> tiny = {W(0), W(33), Bit(64), Ones()};
  std::vector<size_t> heights = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 18, 1007, 1008, 1022, 1023, 1024};
  for (int op = 0; op < 256; op++) {
    const int pops = Pops(op);
    for (int rev : {EVMC_ISTANBUL, EVMC_LONDON, EVMC_CANCUN})
      for (size_t h : heights)
        for (int mem : {0, 32, 64}) {
          if (!Mine()) continue;
          Case c;
          c.step = true;
          c.revision = rev;
          c.memory.assign(mem, 0x77);
          c.stack.assign(h, W(3));
          const int k = std::min<int>(pops, int(h));
          const bool wide = op >= 0x80 && op <= 0x9f;
          if (wide) {
            for (const Bytes& code : {Bytes{uint8_t(op)}, Bytes{uint8_t(op), 0}}) c.code = code, Run(c);
            continue;
          }
          // the words which are enumerated; the others stay
          std::vector<int> at;
          for (int i = 0; i < k; i++) at.push_back(i);
          if (pops >= 6 && k == pops) at = pops == 7 ? std::vector<int>{3, 4, 5, 6} : std::vector<int>{2, 3, 4, 5};
          if (at.size() > 4) at.resize(4);
          // all words where the arguments are all there is, fewer elsewhere
          const bool full = thorough || (h == size_t(pops) && (at.size() < 3 || mem == 32));
          const auto& al = at.size() > 3 ? full ? small : tiny : full ? words : at.size() > 2 ? tiny : small;
          std::vector<size_t> digit(at.size(), 0);
          for (;;) {
            for (size_t i = 0; i < at.size(); i++) c.stack[h - 1 - at[i]] = al[digit[i]];
            for (int variant = 0; variant < 4; variant++) {
              c.code = {uint8_t(op)};
              c.is_static = false;
              c.input.clear();
              c.returned.clear();
              c.gas = 100000;
              if (variant == 1) c.code.push_back(0x5b), c.input.assign(33, 0x11), c.returned.assign(33, 0x22);
              if (variant == 2) c.code.insert(c.code.end(), 31, 0x5b), c.input.assign(1, 0x11), c.returned.assign(1, 0x22), c.is_static = true;
              if (variant == 3) c.gas = 20, c.input.assign(32, 0x11), c.returned.assign(32, 0x22);
              call_output = variant * 16 + (variant > 1);
              Run(c);
            }
            size_t i = 0;
            while (i < digit.size() && ++digit[i] == al.size()) digit[i++] = 0;
            if (i == digit.size()) break;
          }
        }
  }
  Family("steps at any position");
  // every position in and beyond codes ending in incomplete instructions
  for (int op = 0; op < 256; op++)
    for (size_t pad = 0; pad < 36; pad++) {
      if (!Mine()) continue;
      for (int fill : {0x5b, 0x60, 0x7f}) {
        Case c;
        c.step = true;
        c.code = {uint8_t(op)};
        c.code.insert(c.code.end(), pad, uint8_t(fill));
        c.stack.assign(17, W(pad));
        for (uint64_t pc = 0; pc <= pad + 1; pc++)
          for (int steps : {1, 2, 40}) {
            c.pc = pc;
            c.steps = steps;
            Run(c);
          }
      }
    }
  Family("ended states");
  for (int status : {EVMC_STEP_STOPPED, EVMC_STEP_RETURNED, EVMC_STEP_REVERTED, EVMC_STEP_FAILED})
    for (int steps : {0, 1, 5})
      for (size_t n : {0, 1, 32, 33}) {
        if (!Mine()) continue;
        Case c;
        c.step = true;
        c.status = status;
        c.steps = steps;
        c.code.assign(n, 0x5b);
        c.memory.assign(n & ~31ull, 1);
        c.returned.assign(n, 2);
        c.stack.assign(n, W(1));
        Run(c);
      }
}

void Programs() {
  Family("raw codes");
  const Bytes al = {0x00, 0x01, 0x09, 0x0a, 0x20, 0x35, 0x37, 0x39, 0x3c, 0x3e, 0x51, 0x52, 0x53, 0x56, 0x57, 0x5a, 0x5b, 0x5e, 0x5f, 0x60, 0x62, 0x7f, 0x80, 0x8f, 0x90, 0xa2, 0xf1, 0xf3, 0xf5, 0xff, 0xfe, 0x0c};
  const int depth = thorough ? 4 : 3;
  Bytes prefix[] = {{}, {0x60, 1, 0x60, 2, 0x60, 1, 0x60, 32, 0x60, 0, 0x60, 33, 0x60, 1, 0x60, 5}};
  std::vector<size_t> d;
  for (int n = 0; n <= depth; n++) {
    d.assign(n, 0);
    for (;;) {
      if (Mine())
        for (const Bytes& p : prefix)
          for (int64_t gas : {25ll, 1000000ll}) {
            Case c;
            c.code = p;
            for (size_t i : d) c.code.push_back(al[i]);
            c.gas = gas;
            c.input.assign(n * 11, 0x33);
            c.create = n & 1;
            call_output = n * 16;
            Run(c);
          }
      int i = 0;
      while (i < n && ++d[i] == al.size()) d[i++] = 0;
      if (i == n) break;
    }
  }
  Family("truncated pushes");
  for (int op = 0x5f; op <= 0x7f; op++)
    for (int have = 0; have <= 33; have++)
      for (int before = 0; before < 4; before++) {
        if (!Mine()) continue;
        Case c;
        c.code.assign(before, 0x5b);
        c.code.push_back(uint8_t(op));
        for (int i = 0; i < have; i++) c.code.push_back(0x5b);
        Run(c);
        c.code.insert(c.code.end(), {0x60, uint8_t(before + 1 + have), 0x56});  // a jump to some position
        for (int to = 0; to < int(c.code.size()) + 2; to++) {
          Case j;
          j.code = {0x60, uint8_t(to + 3), 0x56};
          j.code.insert(j.code.end(), c.code.begin(), c.code.end() - 3);
          Run(j);
        }
      }
  Family("ranges of memory");
  // op with (memory offset, data offset, size) and what follows reads the memory
  const std::vector<uint64_t> offs = {0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 4096, 65535, 0xffffffff, 0x7fffffffffffffff, ~0ull - 32, ~0ull};
  auto push = [](Bytes& b, uint64_t v) {
    b.push_back(0x67);
    for (int i = 7; i >= 0; i--) b.push_back(uint8_t(v >> (8 * i)));
  };
  for (uint8_t op : {0x37, 0x39, 0x3e, 0x5e, 0x3c, 0x20, 0xf3, 0xfd, 0xa0, 0xf0, 0x51, 0x52, 0x53})
    for (uint64_t a : offs)
      for (uint64_t b : offs)
        for (uint64_t s : offs) {
          const int args = Pops(op);
          if (args < 3 && b != 0) continue;
          if (args < 2 && s != 0) continue;
          if (!Mine()) continue;
          for (size_t n : {0, 1, 32, 33, 64, 97}) {
            Case c;
            c.gas = 3000000;
            c.input.assign(n, 0x44);
            call_output = n;
            // returned data of a call
            c.code = {0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 6, 0x61, 1, 0, 0xf1, 0x50};
            push(c.code, s);
            if (args >= 3) push(c.code, b);
            push(c.code, a);
            if (args == 4) c.code.insert(c.code.end(), {0x60, 2});
            c.code.push_back(op);
            c.code.insert(c.code.end(), {0x5f, 0x51, 0x59, 0x5f, 0x20, 0x60, 31, 0x59, 0x03, 0x51});
            Run(c);
          }
        }
  Family("returned data of calls");
  for (uint8_t op : {0xf1, 0xf2, 0xf4, 0xfa})
    for (size_t n : {0, 1, 31, 32, 33, 64, 97})
      for (uint64_t in_off : {0ull, 1ull, 32ull, 4096ull, ~0ull})
        for (uint64_t in_size : {0ull, 1ull, 32ull, 33ull, 100ull})
          for (uint64_t out_off : {0ull, 1ull, 32ull, 4097ull, ~0ull})
            for (uint64_t out_size : {0ull, 1ull, 31ull, 32ull, 33ull, 65ull})
              for (int status : {EVMC_SUCCESS, EVMC_REVERT, EVMC_FAILURE, EVMC_OUT_OF_GAS}) {
                if (!Mine()) continue;
                Case c;
                c.gas = 3000000;
                call_output = n;
                call_status = evmc_status_code(status);
                push(c.code, out_size), push(c.code, out_off), push(c.code, in_size), push(c.code, in_off);
                if (op == 0xf1 || op == 0xf2) c.code.insert(c.code.end(), {0x60, 0});
                c.code.insert(c.code.end(), {0x60, 6, 0x61, 1, 0, op, 0x3d, 0x60, 0, 0x80, 0x3e, 0x59, 0x60, 0, 0xf3});
                Run(c);
                call_status = EVMC_SUCCESS;
              }
  Family("deep stacks");
  for (int n = 1015; n <= 1026; n++)
    for (int op = 0; op < 256; op++) {
      if (!Mine()) continue;
      Case c;
      c.gas = 1000000;
      for (int i = 0; i < n; i++) c.code.insert(c.code.end(), {0x60, 1});
      c.code.push_back(uint8_t(op));
      Run(c);
    }
}
}  // namespace

int main(int argc, char** argv) {
  // evm_mem LIBRARY CREATE CREATE_STEPPABLE TIER SHARE SHARES
  if (argc != 7) return 2;
  const char* opt = "detect_leaks=0:handle_abort=1:handle_sigill=1:alloc_dealloc_mismatch=1:quarantine_size_mb=64:detect_stack_use_after_return=1";
  if (!getenv("ASAN_OPTIONS") || strcmp(getenv("ASAN_OPTIONS"), opt)) {
    setenv("ASAN_OPTIONS", opt, 1);
    setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1", 1);
    execv("/proc/self/exe", argv);
  }
  void* lib = dlopen(argv[1], RTLD_NOW);
  if (!lib) {
    fprintf(stderr, "%s\n", dlerror());
    return 3;
  }
  __sanitizer_set_death_callback(OnDeath);
  vm = reinterpret_cast<evmc_vm* (*)()>(dlsym(lib, argv[2]))();
  stepper = reinterpret_cast<evmc_vm_steppable* (*)()>(dlsym(lib, argv[3]))();
  thorough = !strcmp(argv[4], "thorough");
  share = atoi(argv[5]);
  shares = atoi(argv[6]);
  Steps();
  Programs();
  Family("");
  stepper->destroy(stepper);
  vm->destroy(vm);
  printf("DONE\n");
}

#include "rt.h"

#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <new>

namespace rt {
namespace {

constexpr int kMax = 5;  // controlled threads, plus the controller (last)
constexpr int kCtl = kMax - 1;

// Handoff is invisible to the code under test: plain futexes.
struct Sem {
  std::atomic<int> v{0};
  void Post() {
    v.store(1, std::memory_order_seq_cst);
    syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }
  void Wait() {
    for (;;) {
      int one = 1;
      if (v.compare_exchange_strong(one, 0)) return;
      syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
  }
};

using Clock = uint32_t;
struct VC {
  Clock c[kMax];
  void Clear() { memset(c, 0, sizeof c); }
  void Join(const VC& o) {
    for (int i = 0; i < kMax; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

// A simple open addressing map from addresses to records, reset per execution.
template <typename T>
struct Map {
  struct Slot {
    uintptr_t key = 0;
    uint32_t gen = 0;
    T val;
  };
  std::vector<Slot> slots;
  uint32_t gen = 1;
  size_t used = 0;
  Map() : slots(1 << 12) {}
  void Reset() {
    gen++;
    used = 0;
  }
  static size_t H(uintptr_t k) { return (k * 0x9E3779B97F4A7C15ull) >> 20; }
  T* Find(uintptr_t k) {
    for (size_t i = H(k);; i++) {
      auto& s = slots[i & (slots.size() - 1)];
      if (s.gen != gen) return nullptr;
      if (s.key == k) return &s.val;
    }
  }
  T& At(uintptr_t k) {
    if (used * 2 > slots.size()) {
      std::vector<Slot> old = std::move(slots);
      slots = std::vector<Slot>(old.size() * 2);
      auto g = gen;
      gen = 1;
      used = 0;
      for (auto& s : old)
        if (s.gen == g) At(s.key) = s.val;
    }
    for (size_t i = H(k);; i++) {
      auto& s = slots[i & (slots.size() - 1)];
      if (s.gen != gen) {
        s.gen = gen;
        s.key = k;
        s.val = T{};
        used++;
        return s.val;
      }
      if (s.key == k) return s.val;
    }
  }
};

struct Cell {
  Clock r[kMax], w[kMax];
  uint8_t rm[kMax], wm[kMax];
  uint8_t freed;
};

struct Lock {
  VC vc, rvc;
  int owner = -1;
  int readers[kMax] = {};
  int depth = 0;
};
struct Cond {
  VC vc;
  int waiters[kMax] = {};
};

enum What { kRun, kLock, kRdLock, kCondWait, kOnce, kDone };

struct Thread {
  Sem sem;
  std::function<void()> body;
  VC vc;
  What what = kDone;
  uintptr_t on = 0;
  bool signalled = false;
  int spins = 0;
};

Thread threads[kMax];
int nthreads = 0;
std::atomic<bool> active{false};
bool tracking = false;  // allocations of setup and of the threads are tracked
Map<Cell> cells;
Map<Lock> locks;
Map<Cond> conds;
Map<VC> syncs;
VC fence;
thread_local int self = -1;
Sem controller;
std::string error;
std::string note;
long now = 0;
long points = 0, accesses = 0;

// choices of the current execution
struct Choice {
  int chosen, options, current;  // current: the running thread if enabled, or -1
  int opts[kMax];
};
std::vector<Choice> path;
size_t at = 0;
std::vector<void*>& pending_free() {
  static auto* v = new std::vector<void*>();
  return *v;
}
Map<size_t>& blocks() {
  static auto* m = new Map<size_t>();
  return *m;
}
int in_rt = 0;  // only touched by the running thread

void Fail(const std::string& e) {
  if (error.empty()) error = e;
}

bool Controlled() { return self >= 0 && active.load(std::memory_order_relaxed); }

bool LockFree(const Lock& l, int t) {
  if (l.owner >= 0) return false;
  for (int i = 0; i < kMax; i++)
    if (l.readers[i]) return false;
  (void)t;
  return true;
}

bool Enabled(int t) {
  auto& th = threads[t];
  switch (th.what) {
    case kRun:
      return true;
    case kLock:
      return LockFree(locks.At(th.on), t);
    case kRdLock:
    case kOnce:
      return locks.At(th.on).owner < 0;
    case kCondWait:
      return th.signalled;
    default:
      return false;
  }
}

// Picks the thread to run next; -1 if none is able to.
int PickNext(int current) {
  now++;
  points++;
  int opts[kMax], n = 0;
  bool cur_ok = current >= 0 && threads[current].what != kDone && Enabled(current);
  if (cur_ok && threads[current].spins > 50) {  // fairness: let others run
    bool other = false;
    for (int i = 0; i < nthreads; i++) other |= i != current && Enabled(i);
    if (other) {
      cur_ok = false;
      threads[current].spins = 0;
      for (int i = 0; i < nthreads; i++)
        if (i != current && Enabled(i)) opts[n++] = i;
      goto choose;
    }
    if (threads[current].spins > 100000) {
      Fail("livelock: a thread waits for a condition no other thread can establish");
      return -1;
    }
  }
  if (cur_ok) opts[n++] = current;
  for (int i = 0; i < nthreads; i++)
    if (i != current && Enabled(i)) opts[n++] = i;
choose:
  if (n == 0) return -1;
  if (n == 1) return opts[0];
  if (at < path.size()) {
    auto& c = path[at++];
    int k = c.chosen < n ? c.chosen : 0;
    c.options = n;
    c.current = cur_ok ? current : -1;
    for (int i = 0; i < n; i++) c.opts[i] = opts[i];
    return opts[k];
  }
  Choice c{0, n, cur_ok ? current : -1, {}};
  for (int i = 0; i < n; i++) c.opts[i] = opts[i];
  path.push_back(c);
  at++;
  return opts[0];
}

bool AllDone() {
  for (int i = 0; i < nthreads; i++)
    if (threads[i].what != kDone) return false;
  return true;
}

[[noreturn]] void Dead() {
  std::string who;
  for (int i = 0; i < nthreads; i++)
    if (threads[i].what != kDone) who += " " + std::to_string(i);
  Fail("deadlock: no thread is able to continue, blocked are threads" + who);
  printf("FINDING %s|%s; schedule:", note.c_str(), error.c_str());
  for (auto& c : path) printf(" %d", c.opts[c.chosen < c.options ? c.chosen : 0]);
  printf("\n");
  fflush(stdout);
  _exit(0);
}

// A scheduling point: the running thread (self) may be preempted.
void Point() {
  int me = self;
  int n = PickNext(me);
  if (n < 0) Dead();
  if (n != me) {
    threads[n].sem.Post();
    threads[me].sem.Wait();
  }
}

void Finish() {
  int me = self;
  threads[me].what = kDone;
  if (AllDone()) {
    active.store(false);
    controller.Post();
    return;
  }
  int n = PickNext(me);
  if (n < 0) Dead();
  threads[n].sem.Post();
}

void* Main(void* arg) {
  int id = int(reinterpret_cast<intptr_t>(arg));
  for (;;) {
    threads[id].sem.Wait();
    self = id;
    threads[id].body();
    Finish();
    self = -1;
  }
  return nullptr;
}

void Access(uintptr_t a, size_t n, bool write) {
  if (!Controlled() || in_rt) return;
  int t = self;
  accesses++;
  while (n > 0) {
    uintptr_t g = a >> 3;
    unsigned off = a & 7;
    size_t k = 8 - off < n ? 8 - off : n;
    uint8_t m = uint8_t(((1u << k) - 1) << off);
    auto& c = cells.At(g);
    if (c.freed & m) Fail("use after free: a thread accesses memory that was released before");
    for (int u = 0; u < kMax; u++) {
      if (u == t) continue;
      if ((c.wm[u] & m) && c.w[u] > threads[t].vc.c[u])
        Fail(std::string("data race: thread ") + std::to_string(t) + (write ? " writes" : " reads") + " memory written by thread " + std::to_string(u) + " without synchronization");
      if (write && (c.rm[u] & m) && c.r[u] > threads[t].vc.c[u])
        Fail(std::string("data race: thread ") + std::to_string(t) + " writes memory read by thread " + std::to_string(u) + " without synchronization");
    }
    Clock now_c = threads[t].vc.c[t];
    if (write) {
      c.wm[t] = c.w[t] == now_c ? c.wm[t] | m : m;
      c.w[t] = now_c;
    } else {
      c.rm[t] = c.r[t] == now_c ? c.rm[t] | m : m;
      c.r[t] = now_c;
    }
    a += k;
    n -= k;
  }
}

void Acquire(const VC& v) { threads[self].vc.Join(v); }
void Release(VC& v) {
  v.Join(threads[self].vc);
  threads[self].vc.c[self]++;
}

char crash_note[4096];
void OnCrash(int sig) {
  char buf[6000];
  int n = snprintf(buf, sizeof buf, "\nFINDING crash|%s: killed by signal %d (%s)\n", crash_note, sig, strsignal(sig));
  if (write(1, buf, size_t(n)) < 0) _exit(3);
  _exit(0);
}

void OnAlloc(void* p, size_t n) {
  if ((!Controlled() && !tracking) || in_rt || !p) return;
  in_rt++;
  blocks().At(reinterpret_cast<uintptr_t>(p)) = n;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3 && n; g++)
    if (auto* c = cells.Find(g)) *c = Cell{};
  in_rt--;
}

bool OnFree(void* p) {  // returns true if the block must be kept
  if (!Controlled() || in_rt || !p) return false;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  auto* n = blocks().Find(a);
  if (!n) return false;
  Access(a, *n < 4096 ? *n : 4096, true);
  in_rt++;
  if (*n == SIZE_MAX) {
    Fail("double free");
    in_rt--;
    return true;
  }
  size_t len = *n < 4096 ? *n : 4096;
  for (uintptr_t g = a >> 3; len && g <= (a + len - 1) >> 3; g++) {
    uint8_t m = 0xff;
    if (g == (a + len - 1) >> 3 && ((a + len) & 7)) m = uint8_t((1u << ((a + len) & 7)) - 1);
    cells.At(g).freed |= m;
  }
  *n = SIZE_MAX;
  pending_free().push_back(p);
  in_rt--;
  return true;
}

}  // namespace

long Now() { return now; }
void Note(const std::string& t) {
  note = t;
  snprintf(crash_note, sizeof crash_note, "%s", t.c_str());
}
void Finding(const std::string& key, const std::string& text) {
  printf("FINDING %s|%s\n", key.c_str(), text.c_str());
  fflush(stdout);
}
void Count(const std::string& family, long n) {
  printf("COUNT %s|%ld\n", family.c_str(), n);
  fflush(stdout);
}
void InstallCrashHandler() {
  for (int s : {SIGSEGV, SIGABRT, SIGTRAP, SIGILL, SIGBUS, SIGFPE}) signal(s, OnCrash);
}

bool Explore(const Scenario& s, const Options& o, Stats& st) {
  static bool started = false;
  if (!started) {
    started = true;
    for (int i = 0; i < kCtl; i++) {
      pthread_t t;
      pthread_create(&t, nullptr, Main, reinterpret_cast<void*>(intptr_t(i)));
      pthread_detach(t);
    }
  }
  Note(s.name);
  std::vector<int> prefix;
  path.clear();
  for (;;) {
    cells.Reset();
    locks.Reset();
    conds.Reset();
    syncs.Reset();
    blocks().Reset();
    tracking = true;
    auto bodies = s.setup();
    tracking = false;
    nthreads = int(bodies.size());
    fence.Clear();
    error.clear();
    for (int i = 0; i < nthreads; i++) {
      threads[i].body = bodies[size_t(i)];
      threads[i].vc.Clear();
      threads[i].vc.c[i] = 1;
      threads[i].what = kRun;
      threads[i].signalled = false;
      threads[i].spins = 0;
    }
    at = 0;
    long p0 = points;
    active.store(true);
    int first = PickNext(-1);
    threads[first].sem.Post();
    controller.Wait();
    for (void* p : pending_free()) free(p);
    pending_free().clear();
    st.schedules++;
    if (points - p0 > st.max_points) st.max_points = points - p0;
    st.points = points;
    st.accesses = accesses;
    std::string e = error;
    if (e.empty()) e = s.check();
    if (!e.empty()) {
      std::string sched;
      for (size_t i = 0; i < at && i < path.size(); i++) sched += " " + std::to_string(path[i].opts[path[i].chosen < path[i].options ? path[i].chosen : 0]);
      Finding(s.name, e + "; threads chosen at the scheduling points with a choice:" + sched);
      return false;
    }
    if (path.size() > at) path.resize(at);
    // next schedule
    if (o.max_schedules >= 0 && st.schedules >= o.max_schedules) {
      st.complete = false;
      return true;
    }
    bool more = false;
    while (!path.empty()) {
      size_t i = path.size() - 1;
      auto& c = path[i];
      int used = 0;
      for (size_t k = 0; k < i; k++)
        if (path[k].current >= 0 && path[k].chosen != 0) used++;
      int next = c.chosen + 1;
      if (next < c.options && (c.current < 0 || used + 1 <= o.preemptions)) {
        c.chosen = next;
        more = true;
        break;
      }
      path.pop_back();
    }
    if (!more) return true;
  }
}

}  // namespace rt

using namespace rt;

// ---- renamed pthread functions ----
extern "C" {

// A recursive mutex locked again by its owner only counts.
static bool Relock(pthread_mutex_t* m) {
  if (m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) return false;
  auto& l = locks.At(reinterpret_cast<uintptr_t>(m));
  if (l.owner != self) return false;
  l.depth++;
  return true;
}
static int LockIt(void* m) {
  if (!Controlled()) return 0;
  auto a = reinterpret_cast<uintptr_t>(m);
  threads[self].what = kLock;
  threads[self].on = a;
  Point();
  threads[self].what = kRun;
  auto& l = locks.At(a);
  l.owner = self;
  Acquire(l.vc);
  Acquire(l.rvc);
  return 0;
}
int rt_pthread_mutex_lock(pthread_mutex_t* m) { return Controlled() && Relock(m) ? 0 : LockIt(m); }
static int TryLock(void* m) {
  if (!Controlled()) return 0;
  Point();
  auto& l = locks.At(reinterpret_cast<uintptr_t>(m));
  if (!LockFree(l, self)) {
    threads[self].spins++;
    return 16;  // EBUSY
  }
  l.owner = self;
  Acquire(l.vc);
  Acquire(l.rvc);
  return 0;
}
int rt_pthread_mutex_trylock(pthread_mutex_t* m) { return Controlled() && Relock(m) ? 0 : TryLock(m); }
int rt_pthread_mutex_unlock(void* m) {
  if (!Controlled()) return 0;
  auto& l = locks.At(reinterpret_cast<uintptr_t>(m));
  if (l.owner != self) Fail("a mutex is unlocked by a thread not holding it");
  if (l.depth > 0) return l.depth--, 0;
  l.owner = -1;
  Release(l.vc);
  return 0;
}
int rt_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return LockIt(m); }
int rt_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!Controlled()) return 0;
  auto a = reinterpret_cast<uintptr_t>(m);
  threads[self].what = kRdLock;
  threads[self].on = a;
  Point();
  threads[self].what = kRun;
  auto& l = locks.At(a);
  l.readers[self]++;
  Acquire(l.vc);
  return 0;
}
int rt_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return TryLock(m); }
int rt_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!Controlled()) return 0;
  Point();
  auto& l = locks.At(reinterpret_cast<uintptr_t>(m));
  if (l.owner >= 0) {
    threads[self].spins++;
    return 16;
  }
  l.readers[self]++;
  Acquire(l.vc);
  return 0;
}
int rt_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!Controlled()) return 0;
  auto& l = locks.At(reinterpret_cast<uintptr_t>(m));
  if (l.owner == self) {
    l.owner = -1;
    Release(l.vc);
  } else if (l.readers[self] > 0) {
    l.readers[self]--;
    Release(l.rvc);
  } else {
    Fail("a lock is unlocked by a thread not holding it");
  }
  return 0;
}
int rt_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!Controlled()) return 0;
  auto& cd = conds.At(reinterpret_cast<uintptr_t>(c));
  cd.waiters[self] = 1;
  rt_pthread_mutex_unlock(m);
  threads[self].what = kCondWait;
  threads[self].on = reinterpret_cast<uintptr_t>(c);
  threads[self].signalled = false;
  Point();
  threads[self].what = kRun;
  conds.At(reinterpret_cast<uintptr_t>(c)).waiters[self] = 0;
  return rt_pthread_mutex_lock(m);
}
int rt_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!Controlled()) return 0;
  auto& cd = conds.At(reinterpret_cast<uintptr_t>(c));
  for (int i = 0; i < nthreads; i++)
    if (cd.waiters[i]) threads[i].signalled = true;
  return 0;
}
int rt_pthread_cond_signal(pthread_cond_t* c) {
  if (!Controlled()) return 0;
  auto& cd = conds.At(reinterpret_cast<uintptr_t>(c));
  for (int i = 0; i < nthreads; i++)
    if (cd.waiters[i] && !threads[i].signalled) {
      threads[i].signalled = true;
      break;
    }
  return 0;
}
int rt_pthread_mutex_init(pthread_mutex_t*, const void*) { return 0; }
int rt_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int rt_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int rt_pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int rt_pthread_once(int* o, void (*f)()) {
  if (!Controlled()) {
    if (!*o) *o = 2, f();
    return 0;
  }
  LockIt(o);
  if (!*o) *o = 2, f();
  rt_pthread_mutex_unlock(o);
  return 0;
}
// Initialization of function-local statics: 0 not started, 1 done.
int rt___cxa_guard_acquire(uint64_t* g) {
  auto b = reinterpret_cast<std::atomic<uint8_t>*>(g);
  if (!Controlled()) return b->load() ? 0 : 1;
  if (!b->load()) {
    LockIt(g);
    if (!b->load()) return 1;
    rt_pthread_mutex_unlock(g);
  }
  Acquire(syncs.At(reinterpret_cast<uintptr_t>(g)));
  return 0;
}
void rt___cxa_guard_release(uint64_t* g) {
  reinterpret_cast<std::atomic<uint8_t>*>(g)->store(1);
  if (!Controlled()) return;
  Release(syncs.At(reinterpret_cast<uintptr_t>(g)));
  rt_pthread_mutex_unlock(g);
}

// ---- instrumentation ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                               \
  void __tsan_read##N(void* a) { Access(uintptr_t(a), N, false); }                          \
  void __tsan_write##N(void* a) { Access(uintptr_t(a), N, true); }                          \
  void __tsan_unaligned_read##N(void* a) { Access(uintptr_t(a), N, false); }                \
  void __tsan_unaligned_write##N(void* a) { Access(uintptr_t(a), N, true); }                \
  void __tsan_volatile_read##N(void* a) { Access(uintptr_t(a), N, false); }                 \
  void __tsan_volatile_write##N(void* a) { Access(uintptr_t(a), N, true); }                 \
  void __tsan_read_write##N(void* a) { Access(uintptr_t(a), N, true); }                     \
  void __tsan_unaligned_read_write##N(void* a) { Access(uintptr_t(a), N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { Access(uintptr_t(a), n, false); }
void __tsan_write_range(void* a, size_t n) { Access(uintptr_t(a), n, true); }
void __tsan_vptr_update(void** a, void*) { Access(uintptr_t(a), 8, true); }
void __tsan_vptr_read(void** a) { Access(uintptr_t(a), 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  Access(uintptr_t(s), n, false);
  Access(uintptr_t(d), n, true);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  Access(uintptr_t(s), n, false);
  Access(uintptr_t(d), n, true);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  Access(uintptr_t(d), n, true);
  return memset(d, v, n);
}

static void Before(uintptr_t a, int mo, bool load, bool store) {
  if (!Controlled() || in_rt) return;
  Point();
  auto& v = syncs.At(a);
  bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (load && acq) Acquire(v);
  if (store) {
    if (!load) v.Clear();  // a plain store starts a new release sequence
    if (rel) Release(v);
  }
  if (load && !store) threads[self].spins++;
  else threads[self].spins = 0;
}
void __tsan_atomic_thread_fence(int) {
  if (!Controlled()) return;
  Point();
  Acquire(fence);
  Release(fence);
}
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T)                                                                                                        \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) { Before(uintptr_t(a), mo, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }        \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }        \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { Before(uintptr_t(a), mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { (void)fmo; Before(uintptr_t(a), mo, true, true); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (!ok && Controlled()) threads[self].spins++; return ok; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- allocation (objects under test have these renamed) ----
void* rt_malloc(size_t n) { void* p = malloc(n); OnAlloc(p, n); return p; }
void* rt_calloc(size_t k, size_t n) { void* p = calloc(k, n); OnAlloc(p, k * n); return p; }
void* rt_realloc(void* p, size_t n) {
  if (!Controlled()) return realloc(p, n);
  void* q = rt_malloc(n);
  if (p) {
    auto* old = blocks().Find(uintptr_t(p));
    size_t len = old && *old != SIZE_MAX ? *old : n;
    memcpy(q, p, len < n ? len : n);
    if (!OnFree(p)) free(p);
  }
  return q;
}
void rt_free(void* p) { if (!OnFree(p)) free(p); }
void* rt__Znwm(size_t n) { return rt_malloc(n ? n : 1); }
void* rt__Znam(size_t n) { return rt_malloc(n ? n : 1); }
void* rt__ZnwmSt11align_val_t(size_t n, size_t al) { void* p = nullptr; if (posix_memalign(&p, al < 8 ? 8 : al, n ? n : 1)) abort(); OnAlloc(p, n); return p; }
void* rt__ZnamSt11align_val_t(size_t n, size_t al) { return rt__ZnwmSt11align_val_t(n, al); }
void* rt__ZnwmRKSt9nothrow_t(size_t n, const void*) { return rt_malloc(n ? n : 1); }
void* rt__ZnamRKSt9nothrow_t(size_t n, const void*) { return rt_malloc(n ? n : 1); }
void rt__ZdlPv(void* p) { rt_free(p); }
void rt__ZdaPv(void* p) { rt_free(p); }
void rt__ZdlPvm(void* p, size_t) { rt_free(p); }
void rt__ZdaPvm(void* p, size_t) { rt_free(p); }
void rt__ZdlPvSt11align_val_t(void* p, size_t) { rt_free(p); }
void rt__ZdlPvmSt11align_val_t(void* p, size_t, size_t) { rt_free(p); }
void rt__ZdaPvSt11align_val_t(void* p, size_t) { rt_free(p); }
void rt__ZdaPvmSt11align_val_t(void* p, size_t, size_t) { rt_free(p); }
}

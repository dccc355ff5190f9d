// Exhaustive exploration of operation histories of the LruCache: every history
// up to the depth bound is replayed on the real cache and on reference models.
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <atomic>
#include <list>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "common/lru_cache.h"

namespace {

enum Kind { kGet, kIns, kGoi, kClear };
struct Op {
  Kind kind;
  int key;
};
std::string Str(const std::vector<Op>& h, size_t n) {
  static const char* names[] = {"Get", "InsertOrAssign", "GetOrInsert", "Clear"};
  std::string s;
  for (size_t i = 0; i < n; i++) s += std::string(i ? "; " : "") + names[h[i].kind] + (h[i].kind == kClear ? "" : " " + std::to_string(h[i].key));
  return s;
}

// The reference: a list ordered by recency. Whether overwriting a present key
// counts as a use is not specified; both variants are followed.
struct Model {
  bool assign_touches;
  size_t cap;
  std::vector<std::pair<int, int>> e;  // most recent first
  int Get(int k) {
    for (size_t i = 0; i < e.size(); i++)
      if (e[i].first == k) {
        auto x = e[i];
        e.erase(e.begin() + long(i));
        e.insert(e.begin(), x);
        return x.second;
      }
    return -1;
  }
  void Ins(int k, int v) {
    for (auto& x : e)
      if (x.first == k) {
        x.second = v;
        if (assign_touches) Get(k);
        return;
      }
    if (e.size() == cap) e.pop_back();
    e.insert(e.begin(), {k, v});
  }
};

struct CollidingHash {
  size_t operator()(int) const { return 42; }
  template <typename T>
  size_t operator()(const T&) const { return 42; }
};

template <typename V>
V Make(int v);
template <>
int Make<int>(int v) { return v; }
template <>
std::string Make<std::string>(int v) { return "a value longer than the small string buffer " + std::to_string(v); }
template <>
std::shared_ptr<int> Make<std::shared_ptr<int>>(int v) { return std::make_shared<int>(v); }
bool Same(int a, int v) { return a == v; }
bool Same(const std::string& a, int v) { return a == Make<std::string>(v); }
bool Same(const std::shared_ptr<int>& a, int v) { return a && *a == v; }

std::mutex out;
std::atomic<int> findings{0};
char current[64][512];
thread_local int slot = 0;

void OnCrash(int sig) {
  char buf[700];
  int n = snprintf(buf, sizeof buf, "\nFINDING crash|killed by signal %d while executing: %s\n", sig, current[slot]);
  if (write(1, buf, size_t(n)) < 0) _exit(3);
  _exit(0);
}
extern "C" void __asan_on_error() {
  printf("\nFINDING memory|memory error while executing: %s\n", current[slot]);
  fflush(stdout);
}

// Shared over all histories of one configuration: which variants still match.
struct Verdict {
  std::atomic<bool> dead[2] = {false, false};
  std::string why[2];
};

template <size_t Cap, typename V, typename H>
void Run(const std::string& fam, Verdict& vd, const std::vector<Op>& h) {
  tosca::LruCache<int, V, Cap, H> c;
  Model m[2] = {{false, Cap, {}}, {true, Cap, {}}};
  auto fail = [&](size_t i, int variant, const std::string& e) {
    std::lock_guard g(out);
    if (!vd.dead[variant]) {
      vd.why[variant] = Str(h, i + 1) + ": " + e;
      vd.dead[variant] = true;
    }
  };
  if (c.GetMaxSize() != Cap) {
    fail(0, 0, "the maximum size is not the capacity");
    fail(0, 1, "the maximum size is not the capacity");
  }
  for (size_t i = 0; i < h.size(); i++) {
    const Op& o = h[i];
    int v = int(i) + 100;
    std::optional<V> got;
    int made = 0;
    switch (o.kind) {
      case kGet:
        got = c.Get(o.key);
        break;
      case kIns:
        got = c.InsertOrAssign(o.key, Make<V>(v));
        break;
      case kGoi:
        got = c.GetOrInsert(o.key, [&] {
          made++;
          return Make<V>(v);
        });
        break;
      case kClear:
        c.Clear();
        break;
    }
    for (int x = 0; x < 2; x++) {
      if (vd.dead[x].load(std::memory_order_relaxed)) continue;
      int want = -1, want_made = 0;
      switch (o.kind) {
        case kGet:
          want = m[x].Get(o.key);
          break;
        case kIns:
          m[x].Ins(o.key, v);
          want = v;
          break;
        case kGoi:
          want = m[x].Get(o.key);
          if (want < 0) {
            want_made = 1;
            want = v;
            m[x].Ins(o.key, v);
          }
          break;
        case kClear:
          m[x].e.clear();
          continue;
      }
      if (want < 0 && got)
        fail(i, x, "returns a value for a key that is not (or no longer) among the " + std::to_string(Cap) + " most recently used ones");
      else if (want >= 0 && !got)
        fail(i, x, "does not find a key that is among the " + std::to_string(Cap) + " most recently used ones");
      else if (want >= 0 && !Same(*got, want))
        fail(i, x, "returns a value other than the one last stored under the key");
      else if (made != want_made)
        fail(i, x, "the value is created " + std::to_string(made) + " times instead of " + std::to_string(want_made));
    }
  }
  (void)fam;
}

void Report(const std::string& fam, Verdict& vd, long n) {
  printf("COUNT %s|%ld\n", fam.c_str(), n);
  if (vd.dead[0] && vd.dead[1]) {
    findings++;
    printf("FINDING %s|%s (and, if overwriting counted as a use, %s)\n", fam.c_str(), vd.why[0].c_str(), vd.why[1].c_str());
  }
  fflush(stdout);
}

template <size_t Cap, typename V, typename H>
void Histories(const std::string& fam, int keys, int depth, int threads) {
  Verdict vd;
  // all prefixes of two operations are distributed over the threads
  std::vector<std::vector<Op>> prefixes;
  auto expand = [&](const std::vector<Op>& p, auto&& f) {
    int used = 0;
    for (auto& o : p)
      if (o.kind != kClear && o.key + 1 > used) used = o.key + 1;
    for (int k = 0; k < keys && k <= used; k++)
      for (Kind kind : {kGet, kIns, kGoi}) f(Op{kind, k});
    f(Op{kClear, 0});
  };
  expand({}, [&](Op a) { expand({a}, [&](Op b) { expand({a, b}, [&](Op c) { prefixes.push_back({a, b, c}); }); }); });
  std::atomic<size_t> next{0};
  std::atomic<long> n{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; t++)
    ts.emplace_back([&, t] {
      slot = t;
      long mine = 0;
      auto rec = [&](auto&& self, std::vector<Op>& h) -> void {
        if (int(h.size()) >= depth) {
          mine++;
          memcpy(current[slot], fam.data(), fam.size() < 500 ? fam.size() + 1 : 500);
          Run<Cap, V, H>(fam, vd, h);
          return;
        }
        expand(h, [&](Op o) {
          h.push_back(o);
          self(self, h);
          h.pop_back();
        });
      };
      for (;;) {
        size_t i = next++;
        if (i >= prefixes.size() || (vd.dead[0] && vd.dead[1])) break;
        auto h = prefixes[i];
        rec(rec, h);
      }
      n += mine;
    });
  for (auto& t : ts) t.join();
  Report(fam, vd, n);
}

// Long histories: the cache is filled beyond its capacity with up to two
// accesses at every pair of points, and all keys are probed at the end.
template <size_t Cap>
void Long(const std::string& fam) {
  Verdict vd;
  long n = 0;
  int total = int(Cap) * 2 + 3;
  for (int p1 = 0; p1 <= total; p1++)
    for (int k1 = 0; k1 < total; k1++)
      for (Kind a : {kGet, kIns, kGoi})
        for (int rev = 0; rev < 2; rev++) {
          std::vector<Op> h;
          for (int i = 0; i < total; i++) {
            if (i == p1) h.push_back({a, k1});
            h.push_back({i % 3 == 2 ? kGoi : kIns, i});
          }
          if (p1 == total) h.push_back({a, k1});
          for (int i = 0; i < total; i++) h.push_back({kGet, rev ? total - 1 - i : i});
          h.push_back({kIns, total});
          for (int i = 0; i <= total; i++) h.push_back({kGet, i});
          h.push_back({kClear, 0});
          for (int i = 0; i < int(Cap) + 1; i++) h.push_back({kIns, i});
          for (int i = 0; i <= total; i++) h.push_back({kGet, i});
          Run<Cap, int, std::hash<int>>(fam, vd, h);
          n++;
        }
  Report(fam, vd, n);
}

}  // namespace

int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGABRT, SIGTRAP, SIGILL, SIGBUS, SIGFPE}) signal(s, OnCrash);
  int d = argc > 1 ? atoi(argv[1]) : 7, t = argc > 2 ? atoi(argv[2]) : 8;
  using std::hash;
  Histories<2, int, hash<int>>("histories capacity 2", 4, d, t);
  Histories<3, int, hash<int>>("histories capacity 3", 5, d, t);
  Histories<4, int, hash<int>>("histories capacity 4", 6, d - 1, t);
  Histories<2, int, CollidingHash>("histories capacity 2, colliding hashes", 4, d - 1, t);
  Histories<3, std::string, hash<int>>("histories capacity 3, string values", 5, d - 2, t);
  Histories<2, std::shared_ptr<int>, CollidingHash>("histories capacity 2, shared values", 4, d - 2, t);
  Long<2>("long histories capacity 2");
  Long<3>("long histories capacity 3");
  Long<5>("long histories capacity 5");
  Long<8>("long histories capacity 8");
  Long<16>("long histories capacity 16");
  Long<33>("long histories capacity 33");
  printf("DONE\n");
  return 0;
}

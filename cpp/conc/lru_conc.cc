// Explores the interleavings of concurrent operations on the LruCache and
// checks that every outcome is one of some sequential order of the operations.
#include <stdio.h>
#include <stdlib.h>

#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include "common/lru_cache.h"
#include "rt.h"

namespace {
enum Kind { kGet, kIns, kGoi, kClear };
struct Op {
  Kind kind;
  int key;
};
constexpr size_t kCap = 2;
// Values are plain numbers, or numbers on the heap (to see lifetime errors).
#ifdef SHARED_VALUES
using Value = std::shared_ptr<int>;
Value Make(int v) { return std::make_shared<int>(v); }
int Num(const Value& v) { return *v; }
#else
using Value = int;
Value Make(int v) { return v; }
int Num(Value v) { return v; }
#endif
using Cache = tosca::LruCache<int, Value, kCap>;

std::string Str(Op o) {
  static const char* names[] = {"Get", "InsertOrAssign", "GetOrInsert", "Clear"};
  return names[o.kind] + (o.kind == kClear ? std::string() : " " + std::to_string(o.key));
}

struct Model {
  std::vector<std::pair<int, int>> e;
  int Get(int k) {
    for (size_t i = 0; i < e.size(); i++)
      if (e[i].first == k) {
        auto x = e[i];
        e.erase(e.begin() + long(i));
        e.insert(e.begin(), x);
        return x.second;
      }
    return -1;
  }
  void Ins(int k, int v, bool touch) {
    for (auto& x : e)
      if (x.first == k) {
        x.second = v;
        if (touch) Get(k);
        return;
      }
    if (e.size() == kCap) e.pop_back();
    e.insert(e.begin(), {k, v});
  }
};

struct Done {
  Op op;
  int arg, result;
  long from, to;
  bool made;
};

struct Run {
  std::unique_ptr<Cache> cache;
  std::vector<std::vector<Done>> log;
  std::vector<int> probe;
  Model start;
};
Run* run;

int Exec(Cache& c, Op o, int arg, bool* made) {
  switch (o.kind) {
    case kGet: {
      auto v = c.Get(o.key);
      return v ? Num(*v) : -1;
    }
    case kIns:
      return Num(c.InsertOrAssign(o.key, Make(arg)));
    case kGoi:
      return Num(c.GetOrInsert(o.key, [&] {
        *made = true;
        return Make(arg);
      }));
    default:
      c.Clear();
      return 0;
  }
}

// The final probe: all keys are read, then two new ones are inserted and all
// are read again, in both directions.
std::vector<int> ProbeReal(Cache& c) {
  std::vector<int> r;
  for (int k = 0; k < 4; k++) {
    auto v = c.Get(k);
    r.push_back(v ? Num(*v) : -1);
  }
  c.InsertOrAssign(9, Make(900));
  for (int k = 3; k >= 0; k--) {
    auto v = c.Get(k);
    r.push_back(v ? Num(*v) : -1);
  }
  return r;
}
std::vector<int> ProbeModel(Model m) {
  std::vector<int> r;
  for (int k = 0; k < 4; k++) r.push_back(m.Get(k));
  m.Ins(9, 900, false);
  for (int k = 3; k >= 0; k--) r.push_back(m.Get(k));
  return r;
}

// Searches a sequential order, consistent with the real-time order, explaining
// all results. A GetOrInsert may take effect in two steps (lookup, insertion).
struct Search {
  const std::vector<std::vector<Done>>& log;
  const std::vector<int>& probe;
  bool touch;
  std::vector<size_t> pos;
  std::vector<bool> half;  // the lookup of a GetOrInsert took place
  bool Rec(Model m) {
    bool any = false;
    for (size_t t = 0; t < log.size(); t++) {
      if (pos[t] >= log[t].size()) continue;
      any = true;
      const Done& d = log[t][pos[t]];
      // an operation that ended before this one started has to precede it
      bool ok = true;
      for (size_t u = 0; u < log.size(); u++)
        if (u != t && pos[u] < log[u].size() && log[u][pos[u]].to < d.from) ok = false;
      if (!ok) continue;
      auto finish = [&](Model n) {
        pos[t]++;
        bool h = half[t];
        half[t] = false;
        bool r = Rec(std::move(n));
        half[t] = h;
        pos[t]--;
        return r;
      };
      Model n = m;
      switch (d.op.kind) {
        case kGet:
          if (n.Get(d.op.key) == d.result && finish(n)) return true;
          break;
        case kIns:
          n.Ins(d.op.key, d.arg, touch);
          if (d.result == d.arg && finish(n)) return true;
          break;
        case kClear:
          n.e.clear();
          if (finish(n)) return true;
          break;
        case kGoi:
          if (!half[t]) {
            int g = n.Get(d.op.key);
            if (g >= 0) {
              if (!d.made && g == d.result && finish(n)) return true;
            } else if (d.made) {
              half[t] = true;
              bool r = Rec(n);
              half[t] = false;
              if (r) return true;
            }
          } else {
            Model k = n;
            int g = k.Get(d.op.key);  // another thread was faster: its value may be kept
            if (g >= 0 && d.result == g && finish(k)) return true;
            n.Ins(d.op.key, d.arg, touch);
            if (d.result == d.arg && finish(n)) return true;
          }
          break;
      }
    }
    return !any && ProbeModel(m) == probe;
  }
};

bool dead[2];

std::string Check() {
  auto probe = ProbeReal(*run->cache);
  bool ok = false;
  for (int v = 0; v < 2; v++) {
    if (dead[v]) continue;
    Search s{run->log, probe, v == 1, std::vector<size_t>(run->log.size()), std::vector<bool>(run->log.size())};
    if (s.Rec(run->start))
      ok = true;
  }
  if (ok) return "";
  std::string r = "no sequential order of the operations explains the results:";
  for (size_t t = 0; t < run->log.size(); t++)
    for (auto& d : run->log[t]) r += " [thread " + std::to_string(t) + ": " + Str(d.op) + " = " + std::to_string(d.result) + "]";
  return r;
}

long Combos(const std::string& fam, const std::vector<int>& shape, const std::vector<Op>& alphabet, int preemptions, int share, int shares) {
  rt::Stats st;
  long n = 0;
  int total = 0;
  for (int s : shape) total += s;
  std::vector<size_t> idx(size_t(total), 0);
  for (;;) {
    // threads of the same length are interchangeable
    bool canonical = true;
    if (shape[0] == shape[1]) canonical = std::lexicographical_compare(idx.begin(), idx.begin() + shape[0], idx.begin() + shape[0], idx.begin() + 2 * shape[0]) || std::equal(idx.begin(), idx.begin() + shape[0], idx.begin() + shape[0]);
    if (canonical && int(n++ % shares) == share) {
      for (int fill = 0; fill <= 2; fill++) {
        std::vector<std::vector<Op>> prog;
        size_t at = 0;
        std::string name = fam + ", cache filled with " + std::to_string(fill) + ":";
        for (size_t t = 0; t < shape.size(); t++) {
          std::vector<Op> p;
          name += t ? " ||" : "";
          for (int i = 0; i < shape[t]; i++) {
            p.push_back(alphabet[idx[at++]]);
            name += (i ? "; " : " ") + Str(p.back());
          }
          prog.push_back(p);
        }
        rt::Scenario s;
        s.name = name;
        s.setup = [&] {
          delete run;
          run = new Run;
          run->cache = std::make_unique<Cache>();
          for (int i = 0; i < fill; i++) {
            run->cache->InsertOrAssign(i, Make(i + 1));
            run->start.Ins(i, i + 1, false);
          }
          run->log.resize(prog.size());
          std::vector<std::function<void()>> b;
          for (size_t t = 0; t < prog.size(); t++) {
            run->log[t].reserve(8);
            auto* p = &prog[t];
            auto* l = &run->log[t];
            auto* c = run->cache.get();
            b.push_back([t, p, l, c] {
              for (size_t i = 0; i < p->size(); i++) {
                bool made = false;
                long from = rt::Now();
                int arg = int(t) * 100 + 100 + int(i);
                int r = Exec(*c, (*p)[i], arg, &made);
                l->push_back({(*p)[i], arg, r, from, rt::Now(), made});
              }
            });
          }
          return b;
        };
        s.check = Check;
        if (!rt::Explore(s, {preemptions, -1}, st)) return -1;
      }
    }
    size_t i = 0;
    while (i < idx.size() && ++idx[i] == alphabet.size()) idx[i++] = 0;
    if (i == idx.size()) break;
  }
  rt::Count(fam, st.schedules);
  return st.schedules;
}
}  // namespace

int main(int argc, char** argv) {
  rt::InstallCrashHandler();
  bool thorough = argc > 1 && std::string(argv[1]) == "thorough";
  int share = argc > 2 ? atoi(argv[2]) : 0, shares = argc > 3 ? atoi(argv[3]) : 1;
  std::vector<Op> all = {{kGet, 0}, {kGet, 1}, {kGet, 2}, {kIns, 0}, {kIns, 1}, {kIns, 2}, {kGoi, 0}, {kGoi, 1}, {kGoi, 2}, {kClear, 0}};
  std::vector<Op> some = {{kGet, 0}, {kGet, 1}, {kIns, 0}, {kIns, 2}, {kGoi, 1}, {kGoi, 2}, {kClear, 0}};
  std::vector<Op> few = {{kGet, 0}, {kIns, 2}, {kGoi, 0}, {kGoi, 3}, {kClear, 0}};
#ifdef SHARED_VALUES
  Combos("2 threads, 1 operation each, shared values", {1, 1}, all, thorough ? 3 : 2, share, shares);
  Combos("2 threads, 2 operations each, shared values", {2, 2}, some, thorough ? 2 : 1, share, shares);
#else
  Combos("2 threads, 1 operation each", {1, 1}, all, 9, share, shares);
  Combos("2 threads, 2 operations each", {2, 2}, thorough ? all : some, 9, share, shares);
  Combos("3 threads, 1 operation each", {1, 1, 1}, all, thorough ? 9 : 2, share, shares);
  Combos("3 threads, 2, 1 and 1 operations", {2, 1, 1}, few, thorough ? 9 : 2, share, shares);
  if (thorough) Combos("3 threads, 2 operations each", {2, 2, 2}, few, 2, share, shares);
  if (thorough) Combos("2 threads, 3 operations each", {3, 3}, few, 9, share, shares);
#endif
  printf("DONE\n");
  return 0;
}

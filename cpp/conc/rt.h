// A controlled scheduler with happens-before race detection for C++ code
// compiled with clang -fsanitize=thread (instrumentation only; this runtime
// replaces the sanitizer's) and with its pthread symbols renamed to rt_*.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace rt {

struct Options {
  int preemptions = 2;
  long max_schedules = -1;
};

struct Stats {
  long schedules = 0, points = 0, max_points = 0, accesses = 0;
  bool complete = true;
};

// One scenario: setup creates the state and returns one body per thread; check
// is called after all bodies ended and returns a description of what is wrong.
struct Scenario {
  std::string name;
  std::function<std::vector<std::function<void()>>()> setup;
  std::function<std::string()> check;
};

// Explores all schedules of the scenario within the preemption bound. Reports
// the first violation and returns false then.
bool Explore(const Scenario& s, const Options& o, Stats& st);

// Reports a violation (machine readable, one line).
void Finding(const std::string& key, const std::string& text);
void Count(const std::string& family, long n);
// Note describes what is being executed (reported on crashes).
void Note(const std::string& text);
void InstallCrashHandler();
// Now is a counter advanced at every scheduling point (to order invocations and
// responses of operations).
long Now();

}  // namespace rt

// Controlled scheduler, race detector and schedule explorer (see DESIGN.md, "Schedules").
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Limits
{
  int bound = 2;               // deviations from the default schedule
  uint64_t maxExecutions = 0;  // 0: no limit
  double maxSeconds = 0;       // 0: no limit
  int part = 0, parts = 1;     // explores only every parts-th first deviation
  std::vector<uint8_t> replay; // run just this schedule
  bool doReplay = false;
};

struct Stats
{
  uint64_t executions = 0, steps = 0, states = 0, pruned = 0, maxDecisions = 0, maxThreads = 0;
  bool exhaustive = true;
  std::vector<std::pair<std::string, std::string>> outcomes; // distinct outcomes, each with a schedule
};

// The program returns its outcome
using Program = std::function<std::string()>;

// Explores all schedules within the limits. Prints "FAIL ..." and exits with status 9 at the first failure.
Stats explore(const Program& program, const Limits& limits);

// Parts of the harness that are not part of the program under test
void ignoreBegin();
void ignoreEnd();
struct Ignore
{
  Ignore() { ignoreBegin(); }
  ~Ignore() { ignoreEnd(); }
};

// An access by code that is not instrumented
void annotateRead(const void* p, size_t n);
void annotateWrite(const void* p, size_t n);

[[noreturn]] void fail(const std::string& what);
void setRandom(unsigned v);

} // namespace mc

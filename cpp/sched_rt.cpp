// Controlled scheduler, race detector and schedule explorer.
//
// The code under test is compiled with -fsanitize=thread, but its callbacks, the pthread functions, the allocator and
// some functions of libstdc++ come from here. All threads are fibers of one OS thread; a fiber can only be switched
// at a synchronisation operation. Accesses are checked with vector clocks (FastTrack, per byte), so that every
// conflicting pair of accesses that is not ordered by synchronisation is reported in any schedule where it occurs.
#include "sched_prelude.h"
#include "sched_rt.h"

#include <algorithm>
#include <array>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <future>
#include <link.h>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <random>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" void* __cxa_get_globals();
extern "C" char __libc_single_threaded;

namespace mc {

constexpr int MAXT = 16;
constexpr size_t STACK = 2u << 20, SLICE = 8u << 20;
constexpr size_t REGION = SLICE * MAXT;
constexpr size_t REDZONE = 32;

struct Cell // one byte of memory
{
  uint32_t gen;
  uint16_t wclk;
  uint8_t wtid;
  uint8_t anyRead;
  uint16_t rclk[MAXT];
};
static_assert(sizeof(Cell) == 40, "cell");

using VC = uint16_t[MAXT];

enum State : uint8_t { Ready, WantLock, WaitCond, WaitFutex, WaitJoin, WaitOnce, WantRead, WaitGuard, Done };

struct Thread
{
  void* sp = nullptr;
  State state = Done;
  const void* obj = nullptr; // what it is waiting for
  uint32_t futexVal = 0;
  bool woken = false;
  const void* condMutex = nullptr;
  bool timed = false, timedOut = false;
  VC vc;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* result = nullptr;
  bool joined = false, detached = false;
  uint64_t hash = 0;
  uint64_t writeVersion = 0;
  bool yielding = false;
  int spins = 0;
  int ignore = 0;
  int rt = 0; // g_rt while it is not running
  char* heapTop = nullptr; // bump allocator
  // C++ runtime state that is per OS thread
  char ehGlobals[16];
  void* onceCallable = nullptr;
  void (*onceCall)() = nullptr;
  char* tls = nullptr; // thread_local variables of the code under test while another thread runs
  std::vector<std::pair<void (*)(void*), void*>>* atExit = nullptr;
  // spin detection: (object, call site) -> (write version, switch count, repeats)
  struct Visit { uint64_t wv, sw; int n; };
  std::map<std::pair<const void*, const void*>, Visit>* visits = nullptr;
};

struct MutexState
{
  int owner = -1;
  int depth = 0;   // recursive
  int readers = 0; // shared
  VC vc{};
  VC readVc{}; // of those that had it shared
  uint64_t hash = 0;
};
struct AtomicState
{
  VC vc;
  uint64_t hash = 0;
};
struct CondState
{
  uint64_t hash = 0;
};
struct OnceState
{
  int state = 0; // 0 new, 1 running, 2 done
  VC vc;
};

static char* g_region = nullptr;
static Cell* g_cells = nullptr;
static uint8_t* g_alloc = nullptr; // 0 not allocated, 1 allocated, 2 freed
static uint32_t g_gen = 1;

// Static variables of the code under test
struct Globals
{
  char* base;
  size_t size;
  Cell* cells;
  char* initial; // their values after the warm-up, nullptr for read-only ones and the harness
};
static Globals g_globals[16];
static int g_nGlobals = 0;
struct TlsBlock { char* data; size_t size, initSize; const char* init; };
static TlsBlock g_tls[4];
static int g_nTls = 0;
static size_t g_tlsSize = 0;
static const char *g_runtimeLo = nullptr, *g_runtimeHi = nullptr; // code of libstdc++

static Thread T[MAXT];
static int g_n = 0;   // threads created in this execution
static int g_cur = -1;
static bool g_active = false; // inside an execution, on a fiber
static bool g_multi = false;  // other threads than the main one may run
static void* g_explorerSp = nullptr;
static uint64_t g_switches = 0, g_steps = 0;
static int g_rt = 0; // inside the runtime (its own allocations etc.)
static int64_t g_live = 0;
static bool g_warm = false; // allocate outside of the arenas

static std::unordered_map<const void*, MutexState>* g_mutexes;
static std::unordered_map<const void*, AtomicState>* g_atomics;
static std::unordered_map<const void*, CondState>* g_conds;
static std::unordered_map<const void*, OnceState>* g_onces;

struct Decision { uint8_t n, chosen; bool pruneAlts; };
static std::vector<Decision>* g_trace;
static const std::vector<uint8_t>* g_prefix;
static size_t g_prefixLen = 0;
struct StateHash { uint64_t h; };
static std::vector<uint64_t>* g_decisionState; // hash of the state at each decision
static std::vector<std::array<uint8_t, MAXT>>* g_decisionTids;

struct RT
{
  RT() { ++g_rt; }
  ~RT() { --g_rt; }
};

static inline uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
  return x;
}

void fail(const std::string& what)
{
  g_active = false;
  std::string s = "FAIL " + what + "\n";
  s += "SCHEDULE ";
  std::string schedule;
  for (auto& d : *g_trace) schedule += (schedule.empty() ? "" : ",") + std::to_string(d.chosen);
  s += schedule.empty() ? "-" : schedule;
  s += "\nTHREAD " + std::to_string(g_cur) + " of " + std::to_string(g_n) + "\n";
  fflush(stdout);
  (void)!write(1, s.data(), s.size());
  _exit(9);
}

static std::string where(const void* pc)
{
  Dl_info info;
  char buf[256];
  if (pc && dladdr(pc, &info) && info.dli_fname) {
    snprintf(buf, sizeof buf, "%s+0x%lx", info.dli_fname, (unsigned long)((const char*)pc - (const char*)info.dli_fbase - 1));
    return buf;
  }
  return "?";
}

static const char* stateName(State s)
{
  static const char* n[] = { "ready", "waiting for a mutex", "waiting on a condition variable", "waiting for a future",
                             "joining a thread", "waiting for call_once", "waiting for a shared lock",
                             "waiting for the initialisation of a static variable", "finished" };
  return n[s];
}

// ---------------------------------------------------------------- context switch
extern "C" void mc_switch(void** save, void* load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

static void saveTls(Thread& t)
{
  memcpy(t.ehGlobals, __cxa_get_globals(), 16);
  t.onceCallable = std::__once_callable;
  t.onceCall = std::__once_call;
  char* p = t.tls;
  for (int i = 0; p && i < g_nTls; i++, p += g_tls[i - 1].size) __builtin_memcpy(p, g_tls[i].data, g_tls[i].size);
}
static void loadTls(Thread& t)
{
  memcpy(__cxa_get_globals(), t.ehGlobals, 16);
  std::__once_callable = t.onceCallable;
  std::__once_call = t.onceCall;
  char* p = t.tls;
  for (int i = 0; p && i < g_nTls; i++, p += g_tls[i - 1].size) __builtin_memcpy(g_tls[i].data, p, g_tls[i].size);
}

static void switchTo(int next)
{
  if (next == g_cur) return;
  int prev = g_cur;
  saveTls(T[prev]);
  T[prev].rt = g_rt;
  g_rt = T[next].rt;
  g_cur = next;
  ++g_switches;
  T[next].spins = 0;
  loadTls(T[next]);
  mc_switch(&T[prev].sp, T[next].sp);
}

static void toExplorer()
{
  int prev = g_cur;
  g_active = false;
  g_cur = -1;
  g_rt = 0;
  mc_switch(&T[prev].sp, g_explorerSp);
}

static bool enabled(int i)
{
  Thread& t = T[i];
  switch (t.state) {
    case Ready: return true;
    case WantLock: { auto& m = (*g_mutexes)[t.obj]; return m.owner < 0 && m.readers == 0; }
    case WantRead: return (*g_mutexes)[t.obj].owner < 0;
    case WaitGuard: return ((const char*)t.obj)[1] == 0;
    case WaitCond: return false;
    case WaitFutex: return t.woken || *(volatile const uint32_t*)t.obj != t.futexVal;
    case WaitJoin: return T[(intptr_t)t.obj].state == Done;
    case WaitOnce: return (*g_onces)[t.obj].state != 1;
    case Done: return false;
  }
  return false;
}

static uint64_t stateHash()
{
  uint64_t h = 0;
  for (int i = 0; i < g_n; i++) h += mix(T[i].hash, i * 16 + T[i].state);
  return h;
}

static void deadlock()
{
  bool all = true;
  std::string s;
  for (int i = 0; i < g_n; i++) {
    if (T[i].state != Done) all = false;
    s += "\n  thread " + std::to_string(i) + ": " + stateName(T[i].state);
  }
  if (all) fail("internal: nothing to schedule");
  fail("deadlock: no thread can continue" + s);
}

// Picks the next thread to run. The state of the current one has been set by the caller.
static void schedule()
{
  RT rt;
  int order[MAXT], n = 0;
  Thread& me = T[g_cur];
  bool meEnabled = enabled(g_cur);
  if (meEnabled && !me.yielding) order[n++] = g_cur;
  for (int k = 1; k < g_n; k++) {
    int i = (g_cur + k) % g_n;
    if (enabled(i)) order[n++] = i;
  }
  if (n == 0 && meEnabled) {
    // only a spinning thread is left
    if (me.yielding && ++me.spins > 3000) fail("livelock: a thread spins forever, no other thread can continue");
    order[n++] = g_cur;
  }
  if (n == 0) { // nothing else can happen before a time limit passes
    for (int k = 0; k < g_n; k++) {
      int i = (g_cur + k) % g_n;
      if (T[i].state == WaitCond && T[i].timed) {
        T[i].state = WantLock;
        T[i].obj = T[i].condMutex;
        T[i].timedOut = true;
        if (enabled(i)) order[n++] = i;
      }
    }
  }
  if (n == 0) deadlock();
  me.yielding = false;
  if (++g_steps > 200000) fail("no termination within 200000 steps");
  int c = 0;
  if (n > 1) {
    size_t d = g_trace->size();
    if (d < g_prefixLen) {
      c = (*g_prefix)[d];
      if (c >= n) fail("internal: replay diverged at decision " + std::to_string(d));
    }
    g_trace->push_back({ (uint8_t)n, (uint8_t)c, false });
    if (d >= g_prefixLen) {
      g_decisionState->push_back(mix(stateHash(), g_cur));
      std::array<uint8_t, MAXT> a{};
      for (int i = 0; i < n; i++) a[i] = order[i];
      g_decisionTids->push_back(a);
    }
  }
  switchTo(order[c]);
}

// ---------------------------------------------------------------- clocks
static inline void join(VC& a, const VC& b)
{
  for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i];
}
static inline void tick() 
{
  if (++T[g_cur].vc[g_cur] == 65535) fail("internal: clock overflow");
}
static void op(uint64_t& objHash, int kind)
{
  Thread& t = T[g_cur];
  if (objHash == 0) objHash = mix(mix(t.hash, 77), g_cur);
  t.hash = mix(mix(t.hash, objHash), kind);
  objHash = t.hash;
}

static bool onFiber() { return g_active && g_rt == 0; }

static void race(const char* kind, const void* addr, int other, const void* pc, const char* otherKind)
{
  char buf[500];
  long off = (const char*)addr - g_region;
  if ((size_t)off >= REGION) {
    snprintf(buf, sizeof buf, "data race: %s by thread %d conflicts with %s by thread %d (static variable %s) at ", kind, g_cur, otherKind,
             other, where((const char*)addr + 1).c_str());
    fail(buf + where(pc));
  }
  snprintf(buf, sizeof buf, "data race: %s by thread %d conflicts with %s by thread %d (%s of thread %ld) at ", kind, g_cur, otherKind,
           other, (size_t)(off % SLICE) < STACK ? "stack" : "heap", off / (long)SLICE);
  fail(buf + where(pc));
}

static void raceCheck(Cell* cells, const void* addr, size_t size, bool write, const void* pc)
{
  Thread& t = T[g_cur];
  uint16_t myclk = t.vc[g_cur];
  for (size_t i = 0; i < size; i++) {
    Cell& c = cells[i];
    if (c.gen != g_gen) {
      c = Cell{};
      c.gen = g_gen;
    } else if (write ? c.wclk == myclk && c.wtid == g_cur && !c.anyRead : c.rclk[g_cur] == myclk) {
      continue; // nothing has changed since the last access
    }
    if (c.wclk && c.wtid != g_cur && c.wclk > t.vc[c.wtid])
      race(write ? "write" : "read", (const char*)addr + i, c.wtid, pc, "a write");
    if (write) {
      if (c.anyRead) {
        for (int k = 0; k < g_n; k++)
          if (k != g_cur && c.rclk[k] > t.vc[k]) race("write", (const char*)addr + i, k, pc, "a read");
        memset(c.rclk, 0, sizeof c.rclk);
        c.anyRead = 0;
      }
      c.wclk = myclk;
      c.wtid = g_cur;
    } else {
      c.rclk[g_cur] = myclk;
      c.anyRead = 1;
    }
  }
}

static inline void access(const void* addr, size_t size, bool write, const void* pc)
{
  if (g_n <= 1 || !g_active || g_rt || T[g_cur].ignore) return; // nothing to check before the first thread is created
  size_t off = (const char*)addr - g_region;
  if (off >= REGION) {
    if (write) T[g_cur].writeVersion++;
    if (!g_multi) return;
    for (int i = 0; i < g_nGlobals; i++) {
      size_t o = (const char*)addr - g_globals[i].base;
      if (o < g_globals[i].size && size <= g_globals[i].size - o) return raceCheck(g_globals[i].cells + o, addr, size, write, pc);
    }
    return;
  }
  size_t slice = off / SLICE, in = off % SLICE;
  if (in >= STACK) {
    bool fine = false;
    const uint8_t* state = g_alloc + off;
    switch (size) {
      case 1: fine = state[0] == 1; break;
      case 2: { uint16_t v; __builtin_memcpy(&v, state, 2); fine = v == 0x0101; break; }
      case 4: { uint32_t v; __builtin_memcpy(&v, state, 4); fine = v == 0x01010101u; break; }
      case 8: { uint64_t v; __builtin_memcpy(&v, state, 8); fine = v == 0x0101010101010101ull; break; }
    }
    for (size_t i = 0; !fine && i < size; i++) {
      if (g_alloc[off + i] != 1) {
        fail(std::string(g_alloc[off + i] == 2 ? "use after free: " : "out of bounds: ") + (write ? "write" : "read") + " by thread " +
             std::to_string(g_cur) + " at " + where(pc));
      }
    }
    if (write) T[g_cur].writeVersion++;
  } else if (write && (int)slice != g_cur) {
    T[g_cur].writeVersion++;
  }
  if (g_multi) raceCheck(g_cells + off, addr, size, write, pc);
}

void annotateRead(const void* p, size_t n) { access(p, n, false, __builtin_return_address(0)); }
void annotateWrite(const void* p, size_t n) { access(p, n, true, __builtin_return_address(0)); }
void ignoreBegin() { if (g_active) T[g_cur].ignore++; }
void ignoreEnd() { if (g_active) T[g_cur].ignore--; }

// ---------------------------------------------------------------- allocator
static void* arenaAlloc(size_t n)
{
  Thread& t = T[g_cur];
  size_t size = (n + 15) & ~size_t(15);
  char* p = t.heapTop + REDZONE;
  if (p + size + REDZONE > g_region + (g_cur + 1) * SLICE) fail("internal: out of arena memory");
  *(size_t*)(p - 16) = n;
  t.heapTop = p + size;
  memset(g_alloc + (p - g_region), 1, n);
  memset(p, 0xCD, n); // nothing may rely on fresh memory
  ++g_live;
  return p;
}

static void arenaFree(void* ptr, const void* pc)
{
  char* p = (char*)ptr;
  size_t off = p - g_region;
  if (g_alloc[off] != 1 && *(size_t*)(p - 16) != 0) fail(std::string("double or invalid free at ") + where(pc));
  size_t n = *(size_t*)(p - 16);
  if (g_active) {
    // libstdc++ itself is not instrumented, so that what orders its own accesses (the reference counts of the messages of
    // exceptions) is not known
    if (!((const char*)pc >= g_runtimeLo && (const char*)pc < g_runtimeHi)) access(p, n, true, pc);
    RT rt;
    if (g_multi)
    for (auto& m : *g_mutexes)
      if ((const char*)m.first >= p && (const char*)m.first < p + n && m.second.owner >= 0 && m.second.owner != g_cur)
        fail("a mutex is destroyed while locked by thread " + std::to_string(m.second.owner) + " at " + where(pc));
    for (int i = 0; g_multi && i < g_n; i++)
      if ((T[i].state == WantLock || T[i].state == WantRead || T[i].state == WaitCond || T[i].state == WaitFutex) && (const char*)T[i].obj >= p && (const char*)T[i].obj < p + n)
        fail("memory is freed while thread " + std::to_string(i) + " is " + stateName(T[i].state) + " in it, at " + where(pc));
  }
  memset(g_alloc + off, 2, n);
  --g_live;
}

// ---------------------------------------------------------------- threads
extern "C" void mc_fiber_entry();
asm(R"(
.text
.globl mc_fiber_entry
.type mc_fiber_entry,@function
mc_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call mc_fiber_main
  ud2
  .cfi_endproc
.size mc_fiber_entry,.-mc_fiber_entry
)");

static void prepareStack(int id)
{
  char* top = g_region + id * SLICE + STACK;
  void** sp = (void**)((uintptr_t)top & ~uintptr_t(63));
  *--sp = nullptr;
  *--sp = nullptr;
  // mc_switch pops six registers and returns to the entry, which calls with an aligned stack
  *--sp = (void*)mc_fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  T[id].sp = sp;
}

extern "C" void mc_fiber_main()
{
  Thread& t = T[g_cur];
  t.result = t.fn(t.arg);
  while (t.atExit && !t.atExit->empty()) {
    auto f = t.atExit->back();
    t.atExit->pop_back();
    f.first(f.second);
  }
  t.state = Done;
  uint64_t h = 0;
  op(h, 20);
  if (g_cur == 0) {
    toExplorer();
  } else {
    schedule();
  }
  abort();
}

static int newThread(void* (*fn)(void*), void* arg)
{
  if (g_n >= MAXT) fail("internal: too many threads");
  int id = g_n++;
  Thread& t = T[id];
  auto* visits = t.visits;
  auto* atExit = t.atExit;
  auto* tls = t.tls;
  t = Thread();
  t.atExit = atExit ? atExit : new std::vector<std::pair<void (*)(void*), void*>>;
  t.atExit->clear();
  t.tls = tls ? tls : (char*)malloc(g_tlsSize + 1);
  {
    char* p = t.tls;
    for (int i = 0; i < g_nTls; i++) {
      __builtin_memset(p, 0, g_tls[i].size);
      __builtin_memcpy(p, g_tls[i].init, g_tls[i].initSize);
      p += g_tls[i].size;
    }
  }
  t.visits = visits ? visits : new std::map<std::pair<const void*, const void*>, Thread::Visit>;
  t.visits->clear();
  memset(t.vc, 0, sizeof t.vc);
  memset(t.ehGlobals, 0, sizeof t.ehGlobals);
  t.state = Ready;
  t.fn = fn;
  t.arg = arg;
  t.hash = mix(12345, id);
  t.heapTop = g_region + id * SLICE + STACK;
  if (id > 0) {
    memcpy(t.vc, T[g_cur].vc, sizeof t.vc);
    t.hash = mix(T[g_cur].hash, id);
    T[g_cur].hash = mix(T[g_cur].hash, 99);
    tick();
    g_multi = true;
  }
  t.vc[id] = 1;
  prepareStack(id);
  return id;
}

// ---------------------------------------------------------------- synchronisation
static void spinCheck(const void* obj, const void* pc)
{
  Thread& t = T[g_cur];
  auto& v = (*t.visits)[{ obj, pc }];
  if (v.n > 0 && v.wv == t.writeVersion && v.sw == g_switches) {
    if (++v.n >= 3) {
      t.yielding = true;
      v.n = 1;
    }
  } else {
    v = { t.writeVersion, g_switches, 1 };
  }
}

static void lockMutex(const void* m, const void* pc)
{
  RT rt;
  Thread& t = T[g_cur];
  spinCheck(m, pc);
  auto& s = (*g_mutexes)[m];
  if (s.owner == g_cur) {
    if ((((const pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
      s.depth++;
      return;
    }
    fail("a mutex is locked again by the thread that holds it, at " + where(pc));
  }
  t.state = WantLock;
  t.obj = m;
  schedule();
  t.state = Ready;
  auto& s2 = (*g_mutexes)[m];
  s2.owner = g_cur;
  join(T[g_cur].vc, s2.vc);
  op(s2.hash, 1);
}

static void unlockMutex(const void* m, const void* pc)
{
  RT rt;
  auto& s = (*g_mutexes)[m];
  if (s.owner != g_cur) fail("a mutex is unlocked by a thread that does not hold it, at " + where(pc));
  if (s.depth > 0) {
    s.depth--;
    return;
  }
  s.owner = -1;
  memcpy(s.vc, T[g_cur].vc, sizeof s.vc);
  tick();
  op(s.hash, 2);
}

static void point()
{
  RT rt;
  T[g_cur].state = Ready;
  schedule();
}

static unsigned g_random = 1;
void setRandom(unsigned v) { g_random = v; }

// ---------------------------------------------------------------- exploration
static const Program* g_program;
static std::string* g_outcome;

static void* mainFiber(void*)
{
  std::string* out = nullptr;
  {
    std::string s;
    try {
      s = (*g_program)();
    } catch (const std::exception& e) {
      s = std::string("exception escaped: ") + e.what();
    } catch (...) {
      s = "exception escaped";
    }
    RT rt;
    out = new std::string(s);
  }
  g_outcome = out;
  return nullptr;
}

static void onSignal(int sig)
{
  if (!g_trace) _exit(8);
  fail(std::string("crash: signal ") + std::to_string(sig) + " (" + strsignal(sig) + ")");
}

static char* g_outerTls = nullptr;
static bool g_haveSnapshot = false;

static std::string runOnce(const std::vector<uint8_t>& prefix)
{
  g_gen++;
  g_n = 0;
  g_multi = false;
  g_switches = g_steps = 0;
  g_mutexes->clear();
  g_atomics->clear();
  g_conds->clear();
  g_onces->clear();
  g_trace->clear();
  g_decisionState->clear();
  g_decisionTids->clear();
  g_prefix = &prefix;
  g_prefixLen = prefix.size();
  for (int i = 0; i < g_nGlobals; i++) {
    auto& g = g_globals[i];
    for (size_t o = 0; g_haveSnapshot && g.initial && o < g.size; o += 4096) {
      size_t n = std::min<size_t>(4096, g.size - o);
      if (memcmp(g.base + o, g.initial + o, n)) __builtin_memcpy(g.base + o, g.initial + o, n);
    }
  }
  newThread(mainFiber, nullptr);
  g_cur = 0;
  g_active = true;
  Thread outer;
  outer.tls = g_outerTls;
  saveTls(outer);
  loadTls(T[0]);
  mc_switch(&g_explorerSp, T[0].sp);
  loadTls(outer);
  for (int i = 1; i < g_n; i++) {
    if (T[i].state != Done) fail("thread " + std::to_string(i) + " is still " + stateName(T[i].state) + " at the end");
  }
  // forget the allocations
  for (int i = 0; i < g_n; i++) {
    char* start = g_region + i * SLICE + STACK;
    memset(g_alloc + (start - g_region), 0, T[i].heapTop - start + REDZONE);
  }
  std::string s = *g_outcome;
  delete g_outcome;
  return s;
}

static int onModule(dl_phdr_info* info, size_t, void*)
{
  std::string name = info->dlpi_name ? info->dlpi_name : "";
  bool lib = name.find("/libstem.") != std::string::npos, exe = name.empty();
  bool runtime = name.find("/libstdc++.") != std::string::npos;
  if (!lib && !exe && !runtime) return 0;
  static bool exeSeen = false;
  if (exe) {
    if (exeSeen) return 0;
    exeSeen = true;
  }
  size_t relro = 0, relroEnd = 0;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    auto& h = info->dlpi_phdr[i];
    if (h.p_type == PT_GNU_RELRO) {
      relro = info->dlpi_addr + h.p_vaddr;
      relroEnd = (relro + h.p_memsz) & ~size_t(4095);
    }
  }
  for (int i = 0; i < info->dlpi_phnum; i++) {
    auto& h = info->dlpi_phdr[i];
    char* p = (char*)info->dlpi_addr + h.p_vaddr;
    if (runtime) {
      if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) {
        g_runtimeLo = p;
        g_runtimeHi = p + h.p_memsz;
      }
      continue;
    }
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W) && g_nGlobals < 16) {
      char* end = p + h.p_memsz;
      if ((size_t)p >= relro && (size_t)p < relroEnd) p = std::min(end, (char*)relroEnd);
      auto* cells = (Cell*)mmap(nullptr, (end - p) * sizeof(Cell) + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (cells == MAP_FAILED) abort();
      g_globals[g_nGlobals++] = { p, (size_t)(end - p), cells, lib ? (char*)1 : nullptr };
    }
    if (lib && h.p_type == PT_TLS && info->dlpi_tls_data && g_nTls < 4) {
      g_tls[g_nTls++] = { (char*)info->dlpi_tls_data, h.p_memsz, h.p_filesz, p };
      g_tlsSize += h.p_memsz;
    }
  }
  return 0;
}

static void findModules()
{
  if (g_nGlobals) return;
  dl_iterate_phdr(onModule, nullptr);
}

// Every execution starts with the same values of the static variables
static void snapshotGlobals()
{
  for (int i = 0; i < g_nGlobals; i++) {
    auto& g = g_globals[i];
    if (!g.initial) continue;
    if (g.initial == (char*)1) g.initial = (char*)malloc(g.size + 1);
    __builtin_memcpy(g.initial, g.base, g.size);
  }
}

Stats explore(const Program& program, const Limits& limits)
{
  Stats st;
  g_program = &program;
  g_trace = new std::vector<Decision>;
  g_decisionState = new std::vector<uint64_t>;
  g_decisionTids = new std::vector<std::array<uint8_t, MAXT>>;
  g_mutexes = new std::unordered_map<const void*, MutexState>;
  g_atomics = new std::unordered_map<const void*, AtomicState>;
  g_conds = new std::unordered_map<const void*, CondState>;
  g_onces = new std::unordered_map<const void*, OnceState>;
  __libc_single_threaded = 0;
  stack_t ss{};
  ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 16;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);

  auto t0 = std::chrono::steady_clock::now();
  // Lazily initialised state of the libraries must not end up in the arenas, so the first execution does not use them
  findModules();
  g_outerTls = (char*)malloc(g_tlsSize + 1);
  g_warm = true;
  runOnce({});
  g_warm = false;
  snapshotGlobals();
  g_haveSnapshot = true;
  std::map<std::string, std::string> outcomes;
  auto run = [&](const std::vector<uint8_t>& prefix) {
    auto s = runOnce(prefix);
    st.executions++;
    st.steps += g_steps;
    st.maxDecisions = std::max<uint64_t>(st.maxDecisions, g_trace->size());
    st.maxThreads = std::max<uint64_t>(st.maxThreads, g_n);
    if (!outcomes.count(s)) {
      std::string schedule;
      for (auto& d : *g_trace) schedule += (schedule.empty() ? "" : ",") + std::to_string(d.chosen);
      outcomes[s] = schedule.empty() ? "-" : schedule;
    }
  };

  if (limits.doReplay) {
    run(limits.replay);
    st.outcomes.assign(outcomes.begin(), outcomes.end());
    return st;
  }

  struct Task { std::vector<uint8_t> prefix; int cost; };
  std::vector<Task> stack;
  stack.push_back({ {}, 0 });
  // (state, thread chosen, deviations so far) that have been explored
  std::unordered_set<uint64_t> seen, states;
  uint64_t firstLevel = 0;
  bool root = true;
  while (!stack.empty()) {
    Task task = std::move(stack.back());
    stack.pop_back();
    run(task.prefix);
    size_t base = task.prefix.size();
    for (auto h : *g_decisionState) states.insert(h);
    if (task.cost < limits.bound) {
      auto trace = *g_trace;
      for (size_t i = base; i < trace.size(); i++) {
        for (int a = 1; a < trace[i].n; a++) {
          if (root && (firstLevel++ % limits.parts) != (uint64_t)limits.part) continue;
          int cost = task.cost + 1;
          uint64_t key = mix((*g_decisionState)[i - base], (*g_decisionTids)[i - base][a]);
          bool dup = false;
          for (int c = 1; c <= cost && !dup; c++) dup = seen.count(mix(key, c)) != 0;
          if (dup) {
            st.pruned++;
            continue;
          }
          seen.insert(mix(key, cost));
          Task child;
          child.prefix.reserve(i + 1);
          for (size_t k = 0; k < i; k++) child.prefix.push_back(trace[k].chosen);
          child.prefix.push_back(a);
          child.cost = cost;
          stack.push_back(std::move(child));
        }
      }
    }
    root = false;
    if (limits.maxExecutions && st.executions >= limits.maxExecutions && !stack.empty()) {
      st.exhaustive = false;
      break;
    }
    if (limits.maxSeconds && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limits.maxSeconds &&
        !stack.empty()) {
      st.exhaustive = false;
      break;
    }
  }
  st.states = states.size();
  st.outcomes.assign(outcomes.begin(), outcomes.end());
  return st;
}

static struct Init
{
  Init()
  {
    g_region = (char*)mmap((void*)0x200000000000, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_cells = (Cell*)mmap(nullptr, REGION * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_alloc = (uint8_t*)mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_region == MAP_FAILED || g_cells == MAP_FAILED || g_alloc == MAP_FAILED) abort();
  }
} g_init __attribute__((init_priority(101)));

} // namespace mc

using namespace mc;
#define PC __builtin_return_address(0)

// ---------------------------------------------------------------- allocation
void* operator new(size_t n)
{
  if (g_active && g_rt == 0 && !g_warm) return arenaAlloc(n ? n : 1);
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept
{
  if (!p) return;
  size_t off = (char*)p - g_region;
  if (off < REGION) arenaFree(p, PC);
  else free(p);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

extern "C" {

// ---------------------------------------------------------------- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define RW(N)                                                              \
  void __tsan_read##N(void* p) { access(p, N, false, PC); }                \
  void __tsan_write##N(void* p) { access(p, N, true, PC); }                \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }      \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }      \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }       \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }

static inline bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// Reports accesses to freed memory, and atomics that race with plain accesses are not distinguished
static void atomicAddr(const void* p, size_t n, const void* pc)
{
  size_t off = (const char*)p - g_region;
  if (off < REGION && off % SLICE >= STACK && g_alloc[off] != 1)
    fail(std::string(g_alloc[off] == 2 ? "use after free" : "out of bounds") + ": atomic access by thread " + std::to_string(g_cur) + " at " + where(pc));
  (void)n;
}

static void atomicSync(const void* p, int kind, int mo, const void* pc, bool changed)
{
  // kind: 0 load, 1 store, 2 read-modify-write
  RT rt;
  auto& s = (*g_atomics)[p];
  if (kind != 1 && acq(mo)) join(T[g_cur].vc, s.vc);
  if (kind == 1) {
    if (rel(mo)) { memcpy(s.vc, T[g_cur].vc, sizeof s.vc); tick(); }
    else memset(s.vc, 0, sizeof s.vc);
  } else if (kind == 2 && rel(mo)) {
    join(s.vc, T[g_cur].vc);
    tick();
  }
  op(s.hash, 3 + kind);
  if (changed) T[g_cur].writeVersion++;
  (void)pc;
}

static void atomicPoint(const void* p, size_t n, const void* pc)
{
  atomicAddr(p, n, pc);
  {
    RT rt;
    spinCheck(p, pc);
  }
  point();
  atomicAddr(p, n, pc);
}

#define ATOMIC(BITS, TYPE)                                                                                             \
  TYPE __tsan_atomic##BITS##_load(const volatile TYPE* p, int mo)                                                      \
  {                                                                                                                    \
    if (!onFiber()) return *p;                                                                                         \
    atomicPoint((const void*)p, sizeof *p, PC);                                                                        \
    atomicSync((const void*)p, 0, mo, PC, false);                                                                      \
    return *p;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##BITS##_store(volatile TYPE* p, TYPE v, int mo)                                                   \
  {                                                                                                                    \
    if (onFiber()) {                                                                                                   \
      atomicPoint((const void*)p, sizeof *p, PC);                                                                      \
      atomicSync((const void*)p, 1, mo, PC, *p != v);                                                                  \
    }                                                                                                                  \
    *p = v;                                                                                                            \
  }                                                                                                                    \
  static TYPE rmw##BITS(volatile TYPE* p, TYPE v, int mo, int what, const void* pc)                                    \
  {                                                                                                                    \
    bool fib = onFiber();                                                                                              \
    if (fib) atomicPoint((const void*)p, sizeof *p, pc);                                                               \
    TYPE old = *p, now = old;                                                                                          \
    switch (what) {                                                                                                    \
      case 0: now = v; break;                                                                                          \
      case 1: now = old + v; break;                                                                                    \
      case 2: now = old - v; break;                                                                                    \
      case 3: now = old & v; break;                                                                                    \
      case 4: now = old | v; break;                                                                                    \
      case 5: now = old ^ v; break;                                                                                    \
      case 6: now = ~(old & v); break;                                                                                 \
    }                                                                                                                  \
    if (fib) atomicSync((const void*)p, 2, mo, pc, now != old);                                                        \
    *p = now;                                                                                                          \
    return old;                                                                                                        \
  }                                                                                                                    \
  TYPE __tsan_atomic##BITS##_exchange(volatile TYPE* p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 0, PC); }         \
  TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE* p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 1, PC); }        \
  TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE* p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 2, PC); }        \
  TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE* p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 3, PC); }        \
  TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE* p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 4, PC); }         \
  TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE* p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 5, PC); }        \
  TYPE __tsan_atomic##BITS##_fetch_nand(volatile TYPE* p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 6, PC); }       \
  static int cas##BITS(volatile TYPE* p, TYPE* c, TYPE v, int mo, int fmo, const void* pc)                             \
  {                                                                                                                    \
    bool fib = onFiber();                                                                                              \
    if (fib) atomicPoint((const void*)p, sizeof *p, pc);                                                               \
    bool ok = *p == *c;                                                                                                \
    if (fib) atomicSync((const void*)p, ok ? 2 : 0, ok ? mo : fmo, pc, ok && *p != v);                                 \
    if (ok) *p = v;                                                                                                    \
    else *c = *p;                                                                                                      \
    return ok;                                                                                                         \
  }                                                                                                                    \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE* p, TYPE* c, TYPE v, int mo, int fmo)                \
  {                                                                                                                    \
    return cas##BITS(p, c, v, mo, fmo, PC);                                                                            \
  }                                                                                                                    \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE* p, TYPE* c, TYPE v, int mo, int fmo)                  \
  {                                                                                                                    \
    return cas##BITS(p, c, v, mo, fmo, PC);                                                                            \
  }                                                                                                                    \
  TYPE __tsan_atomic##BITS##_compare_exchange_val(volatile TYPE* p, TYPE c, TYPE v, int mo, int fmo)                   \
  {                                                                                                                    \
    cas##BITS(p, &c, v, mo, fmo, PC);                                                                                  \
    return c;                                                                                                          \
  }

ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- pthread
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (!onFiber()) return 0;
  RT rt;
  auto it = g_mutexes->find(m);
  if (it != g_mutexes->end()) {
    if (it->second.owner >= 0) fail("a locked mutex is destroyed at " + where(PC));
    g_mutexes->erase(it);
  }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  lockMutex(m, PC);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  {
    RT rt;
    spinCheck(m, PC);
  }
  point();
  RT rt;
  auto& s = (*g_mutexes)[m];
  if (s.owner == g_cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    s.depth++;
    return 0;
  }
  if (s.owner >= 0 || s.readers > 0) {
    op(s.hash, 7);
    return EBUSY;
  }
  s.owner = g_cur;
  join(T[g_cur].vc, s.vc);
  op(s.hash, 1);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  unlockMutex(m, PC);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { return pthread_mutex_destroy((pthread_mutex_t*)m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  RT rt;
  Thread& t = T[g_cur];
  spinCheck(m, PC);
  if ((*g_mutexes)[m].owner == g_cur) fail("a shared mutex is locked again by the thread that holds it, at " + where(PC));
  t.state = WantLock;
  t.obj = m;
  schedule();
  t.state = Ready;
  auto& s = (*g_mutexes)[m];
  s.owner = g_cur;
  join(t.vc, s.vc);
  join(t.vc, s.readVc);
  op(s.hash, 1);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  point();
  RT rt;
  auto& s = (*g_mutexes)[m];
  if (s.owner >= 0 || s.readers > 0) return EBUSY;
  s.owner = g_cur;
  join(T[g_cur].vc, s.vc);
  join(T[g_cur].vc, s.readVc);
  op(s.hash, 1);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  RT rt;
  Thread& t = T[g_cur];
  spinCheck(m, PC);
  t.state = WantRead;
  t.obj = m;
  schedule();
  t.state = Ready;
  auto& s = (*g_mutexes)[m];
  s.readers++;
  join(t.vc, s.vc);
  op(s.hash, 13);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  point();
  RT rt;
  auto& s = (*g_mutexes)[m];
  if (s.owner >= 0) return EBUSY;
  s.readers++;
  join(T[g_cur].vc, s.vc);
  op(s.hash, 13);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  if (!onFiber()) return 0;
  access(m, 1, false, PC);
  RT rt;
  auto& s = (*g_mutexes)[m];
  bool shared = s.owner != g_cur;
  if (!shared) s.owner = -1;
  else if (s.readers > 0) s.readers--;
  else fail("a shared mutex is unlocked by a thread that does not hold it, at " + where(PC));
  join(shared ? s.readVc : s.vc, T[g_cur].vc);
  tick();
  op(s.hash, 14);
  return 0;
}

// ---------------------------------------------------------------- static and thread_local variables
// The first byte of a guard tells that the initialisation is complete, the second that it is in progress
int __cxa_guard_acquire(uint64_t* g)
{
  char* b = (char*)g;
  if (!onFiber()) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  RT rt;
  Thread& t = T[g_cur];
  t.state = WaitGuard;
  t.obj = g;
  schedule();
  t.state = Ready;
  auto& s = (*g_atomics)[g];
  if (b[0]) {
    join(t.vc, s.vc);
    op(s.hash, 15);
    return 0;
  }
  b[1] = 1;
  op(s.hash, 16);
  return 1;
}
void __cxa_guard_release(uint64_t* g)
{
  char* b = (char*)g;
  b[1] = 0;
  b[0] = 1;
  if (!onFiber()) return;
  RT rt;
  T[g_cur].writeVersion++;
  auto& s = (*g_atomics)[g];
  join(s.vc, T[g_cur].vc);
  tick();
  op(s.hash, 17);
}
void __cxa_guard_abort(uint64_t* g)
{
  ((char*)g)[1] = 0;
  if (onFiber()) T[g_cur].writeVersion++;
}
int __cxa_thread_atexit(void (*f)(void*), void* arg, void*)
{
  if (onFiber()) {
    RT rt;
    T[g_cur].atExit->emplace_back(f, arg);
  }
  return 0;
}

int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t* c)
{
  if (!onFiber()) return 0;
  access(c, 1, true, PC);
  for (int i = 0; i < g_n; i++)
    if (T[i].state == WaitCond && T[i].obj == c) fail("a condition variable is destroyed while thread " + std::to_string(i) + " waits on it");
  RT rt;
  g_conds->erase(c);
  return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
  if (!onFiber()) abort();
  access(c, 1, false, PC);
  point();
  unlockMutex(m, PC);
  RT rt;
  Thread& t = T[g_cur];
  op((*g_conds)[c].hash, 8);
  t.state = WaitCond;
  t.obj = c;
  t.condMutex = m;
  t.timed = timed;
  t.timedOut = false;
  schedule(); // resumed with the mutex free, see notify
  t.state = Ready;
  t.timed = false;
  auto& s = (*g_mutexes)[m];
  s.owner = g_cur;
  join(T[g_cur].vc, s.vc);
  op(s.hash, 1);
  return t.timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c, m, true); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c, m, true); }
static void wake(int i)
{
  T[i].state = WantLock;
  T[i].obj = T[i].condMutex;
}
int pthread_cond_signal(pthread_cond_t* c)
{
  if (!onFiber()) return 0;
  access(c, 1, false, PC);
  point();
  access(c, 1, false, PC);
  RT rt;
  op((*g_conds)[c].hash, 9);
  for (int k = 1; k < g_n; k++) {
    int i = (g_cur + k) % g_n;
    if (T[i].state == WaitCond && T[i].obj == c) {
      wake(i);
      break;
    }
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if (!onFiber()) return 0;
  access(c, 1, false, PC);
  point();
  access(c, 1, false, PC);
  RT rt;
  op((*g_conds)[c].hash, 10);
  for (int i = 0; i < g_n; i++)
    if (T[i].state == WaitCond && T[i].obj == c) wake(i);
  return 0;
}
int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
  if (!onFiber()) abort();
  RT rt;
  int id = newThread(fn, arg);
  *th = (pthread_t)(id + 1000);
  return 0;
}
int pthread_join(pthread_t th, void** result)
{
  if (!onFiber()) abort();
  RT rt;
  int id = (int)th - 1000;
  Thread& t = T[g_cur];
  if (id <= 0 || id >= g_n || T[id].joined) fail("invalid thread is joined");
  t.state = WaitJoin;
  t.obj = (const void*)(intptr_t)id;
  schedule();
  t.state = Ready;
  T[id].joined = true;
  join(t.vc, T[id].vc);
  t.hash = mix(mix(t.hash, T[id].hash), 11);
  if (result) *result = T[id].result;
  bool others = false;
  for (int i = 1; i < g_n; i++)
    if (!T[i].joined) others = true;
  if (!others && g_cur == 0) g_multi = false; // everything so far happened before
  return 0;
}
int pthread_detach(pthread_t th)
{
  if (!onFiber()) abort();
  T[(int)th - 1000].detached = true;
  return 0;
}
pthread_t pthread_self()
{
  return g_cur >= 0 ? (pthread_t)(g_cur + 1000) : (pthread_t)999;
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield()
{
  if (!onFiber()) return 0;
  RT rt;
  T[g_cur].state = Ready;
  T[g_cur].yielding = true;
  bool other = false;
  for (int i = 0; i < g_n; i++)
    if (i != g_cur && enabled(i)) other = true;
  if (!other) T[g_cur].yielding = false;
  schedule();
  return 0;
}
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }

static std::unordered_map<pthread_once_t*, bool>* g_plainOnce;
int pthread_once(pthread_once_t* once, void (*fn)())
{
  if (!onFiber()) {
    RT rt;
    if (!g_plainOnce) g_plainOnce = new std::unordered_map<pthread_once_t*, bool>;
    if (!(*g_plainOnce)[once]) {
      (*g_plainOnce)[once] = true;
      fn();
    }
    return 0;
  }
  {
    RT rt;
    Thread& t = T[g_cur];
    if (g_plainOnce && g_plainOnce->count(once)) return 0;
    t.state = WaitOnce;
    t.obj = once;
    schedule();
    t.state = Ready;
    auto& s = (*g_onces)[once];
    if (s.state == 2 && g_warm && *once == PTHREAD_ONCE_INIT) s = OnceState(); // the memory has been used again
    if (s.state == 2) {
      join(t.vc, s.vc);
      return 0;
    }
    if (s.state == 0 && *once == 2) return 0;
    s.state = 1;
  }
  try {
    fn();
  } catch (...) {
    RT rt;
    (*g_onces)[once].state = 0;
    throw;
  }
  RT rt;
  auto& s = (*g_onces)[once];
  s.state = 2;
  if (g_warm) *once = 2; // what is static has not to be done again
  memcpy(s.vc, T[g_cur].vc, sizeof s.vc);
  tick();
  T[g_cur].hash = mix(T[g_cur].hash, 12);
  return 0;
}

// ---------------------------------------------------------------- memory functions
void* memcpy(void* d, const void* s, size_t n)
{
  void* r = d;
  if (g_active && g_rt == 0 && n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n)
{
  void* r = d;
  if (g_active && g_rt == 0 && n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  if (d <= s || (char*)d >= (char*)s + n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    d = (char*)d + n - 1;
    s = (char*)s + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* d, int v, size_t n)
{
  void* r = d;
  if (g_active && g_rt == 0 && n) access(d, n, true, PC);
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
} // extern "C"

// ---------------------------------------------------------------- libstdc++
namespace __gnu_cxx {
_Atomic_word __exchange_and_add(volatile _Atomic_word* p, int v) throw()
{
  _Atomic_word old = *p;
  if (onFiber()) {
    atomicAddr((const void*)p, 4, PC);
    atomicSync((const void*)p, 2, __ATOMIC_ACQ_REL, PC, false);
  }
  *p = old + v;
  return old;
}
// Taking another reference does not order anything (a weak ordering would do), giving one up does.
void __atomic_add(volatile _Atomic_word* p, int v) throw()
{
  if (onFiber()) {
    atomicAddr((const void*)p, 4, PC);
    atomicSync((const void*)p, 2, v > 0 ? __ATOMIC_RELAXED : __ATOMIC_ACQ_REL, PC, false);
  }
  *p += v;
}
} // namespace __gnu_cxx

namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool, chrono::seconds, chrono::nanoseconds)
{
  if (!onFiber()) abort();
  access(addr, 1, false, PC);
  RT rt;
  Thread& t = T[g_cur];
  t.state = WaitFutex;
  t.obj = addr;
  t.futexVal = val;
  t.woken = false;
  schedule();
  t.state = Ready;
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool h, chrono::seconds s, chrono::nanoseconds n)
{
  return _M_futex_wait_until(addr, val, h, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr)
{
  if (!onFiber()) return;
  atomicAddr(addr, 4, PC);
  point();
  // Waking up is not an access: the state may be gone already, which is fine for the real futex as well
  for (int i = 0; i < g_n; i++)
    if (T[i].state == WaitFutex && T[i].obj == addr) T[i].woken = true;
}
unsigned random_device::_M_getval() { return g_random; }
} // namespace std

template <typename F> static F real(const char* name)
{
  RT rt;
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) abort();
  return (F)p;
}
// The state of a stream: its buffer follows the 16 bytes of the istream
#define STREAM(p) do { access(p, 16, true, PC); access((const char*)(p) + 16, 8, true, PC); } while (0)
extern "C" {
void* _ZNSi4readEPcl(void* self, char* s, long n)
{
  static auto f = real<void* (*)(void*, char*, long)>("_ZNSi4readEPcl");
  STREAM(self);
  if (n > 0) access(s, n, true, PC);
  RT rt;
  return f(self, s, n);
}
void* _ZNSi5seekgElSt12_Ios_Seekdir(void* self, long off, int dir)
{
  static auto f = real<void* (*)(void*, long, int)>("_ZNSi5seekgElSt12_Ios_Seekdir");
  STREAM(self);
  RT rt;
  return f(self, off, dir);
}
void* _ZNSi5seekgESt4fposI11__mbstate_tE(void* self, long a, long b)
{
  static auto f = real<void* (*)(void*, long, long)>("_ZNSi5seekgESt4fposI11__mbstate_tE");
  STREAM(self);
  RT rt;
  return f(self, a, b);
}
int _ZNSi4peekEv(void* self)
{
  static auto f = real<int (*)(void*)>("_ZNSi4peekEv");
  STREAM(self);
  RT rt;
  return f(self);
}
int _ZNSi3getEv(void* self)
{
  static auto f = real<int (*)(void*)>("_ZNSi3getEv");
  STREAM(self);
  RT rt;
  return f(self);
}
void* _ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv(void* self)
{
  static auto f = real<void* (*)(void*)>("_ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv");
  access(self, 8, true, PC);
  RT rt;
  return f(self);
}
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void* x, void* p, void* header)
{
  static auto f = real<void (*)(bool, void*, void*, void*)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  access(x, 32, true, PC);
  access(p, 32, true, PC);
  access(header, 32, true, PC);
  RT rt;
  f(left, x, p, header);
}
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* header)
{
  static auto f = real<void* (*)(void*, void*)>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  access(z, 32, true, PC);
  access(header, 32, true, PC);
  RT rt;
  return f(z, header);
}
} // extern "C"

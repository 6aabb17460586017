// Small programs with known behaviour, to check the scheduler, the race detector and the explorer themselves.
#include "sched_rt.h"

#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <stdexcept>
#include <thread>
#include <vector>

using std::string;
static int g_plain = 0;
static std::mutex g_mutex;

static string racy()
{
  auto x = std::make_unique<int>(0);
  std::thread a([&] { ++*x; }), b([&] { ++*x; });
  a.join();
  b.join();
  return std::to_string(*x);
}
static string locked()
{
  auto x = std::make_unique<int>(0);
  std::mutex m;
  auto f = [&] { std::lock_guard<std::mutex> l(m); ++*x; };
  std::thread a(f), b(f);
  a.join();
  b.join();
  return std::to_string(*x);
}
static string globalRace()
{
  std::thread a([&] { ++g_plain; }), b([&] { ++g_plain; });
  a.join();
  b.join();
  return std::to_string(g_plain);
}
static string globalLocked()
{
  auto f = [&] { std::lock_guard<std::mutex> l(g_mutex); ++g_plain; };
  g_plain = 0;
  std::thread a(f), b(f);
  a.join();
  b.join();
  return std::to_string(g_plain);
}
static string lostUpdate() // no data race, but the sum depends on the schedule
{
  std::atomic<int> x{ 0 };
  auto f = [&] { int v = x.load(); x.store(v + 1); };
  std::thread a(f), b(f);
  a.join();
  b.join();
  return std::to_string(x.load());
}
static string relaxedPublish()
{
  auto data = std::make_unique<int>(0);
  std::atomic<bool> ready{ false };
  std::thread a([&] { *data = 1; ready.store(true, std::memory_order_relaxed); });
  int v = 1;
  if (ready.load(std::memory_order_relaxed)) v = *data;
  a.join();
  return std::to_string(v);
}
static string publish()
{
  auto data = std::make_unique<int>(0);
  std::atomic<bool> ready{ false };
  std::thread a([&] { *data = 1; ready.store(true, std::memory_order_release); });
  int v = 1;
  if (ready.load(std::memory_order_acquire)) v = *data;
  a.join();
  return std::to_string(v);
}
static string lockOrder()
{
  std::mutex m, n;
  std::thread a([&] { std::lock_guard<std::mutex> l(m); std::lock_guard<std::mutex> k(n); });
  {
    std::lock_guard<std::mutex> l(n);
    std::lock_guard<std::mutex> k(m);
  }
  a.join();
  return "ok";
}
static string lostWakeup()
{
  std::mutex m;
  std::condition_variable c;
  std::atomic<bool> flag{ false };
  std::thread a([&] { flag = true; c.notify_one(); }); // without the mutex: can fall between the check and the wait
  {
    std::unique_lock<std::mutex> l(m);
    if (!flag) c.wait(l);
  }
  a.join();
  return "ok";
}
static string goodWakeup()
{
  std::mutex m;
  std::condition_variable c;
  bool flag = false;
  std::thread a([&] { { std::lock_guard<std::mutex> l(m); flag = true; } c.notify_one(); });
  {
    std::unique_lock<std::mutex> l(m);
    while (!flag) c.wait(l);
  }
  a.join();
  return "ok";
}
static string timedWait() // nobody notifies: the time limit has to end it
{
  std::mutex m;
  std::condition_variable c;
  bool flag = false;
  std::thread a([&] { std::lock_guard<std::mutex> l(m); flag = true; });
  {
    std::unique_lock<std::mutex> l(m);
    while (!flag) c.wait_for(l, std::chrono::milliseconds(1));
  }
  a.join();
  return "ok";
}
static string useAfterFree()
{
  auto* p = new std::atomic<int>(0);
  std::thread a([=] { p->fetch_add(1); });
  if (p->load() == 1) {
    a.join();
    delete p;
  } else {
    delete p;
    a.join();
  }
  return "ok";
}
static string outOfBounds()
{
  volatile char* p = new char[10];
  std::thread a([=] { p[10] = 1; });
  a.join();
  delete[] p;
  return "ok";
}
static string spin()
{
  std::atomic<int> x{ 0 };
  std::thread a([&] { x = 1; });
  while (x != 1) std::this_thread::yield();
  a.join();
  return "ok";
}
static string spinForever()
{
  std::atomic<int> x{ 0 };
  std::thread a([&] { x = 1; });
  while (x != 2) {}
  a.join();
  return "ok";
}
static int once()
{
  static int x = [] { std::this_thread::yield(); return 42; }();
  return x;
}
static string staticGuard()
{
  int r[2];
  std::thread a([&] { r[0] = once(); }), b([&] { r[1] = once(); });
  a.join();
  b.join();
  return std::to_string(r[0] + r[1]);
}
static string sharedLock()
{
  std::shared_mutex m;
  auto x = std::make_unique<int>(0);
  std::thread a([&] { std::unique_lock<std::shared_mutex> l(m); ++*x; });
  std::thread b([&] { std::shared_lock<std::shared_mutex> l(m); volatile int y = *x; (void)y; });
  {
    std::shared_lock<std::shared_mutex> l(m);
    volatile int y = *x;
    (void)y;
  }
  a.join();
  b.join();
  return "ok";
}
static string sharedLockRace()
{
  std::shared_mutex m;
  auto x = std::make_unique<int>(0);
  auto f = [&] { std::shared_lock<std::shared_mutex> l(m); ++*x; };
  std::thread a(f), b(f);
  a.join();
  b.join();
  return "ok";
}
static string recursive()
{
  std::recursive_mutex m;
  int x = 0;
  auto f = [&] { std::lock_guard<std::recursive_mutex> l(m); std::lock_guard<std::recursive_mutex> k(m); ++x; };
  std::thread a(f), b(f);
  a.join();
  b.join();
  return std::to_string(x);
}
static string relock()
{
  std::mutex m;
  std::thread a([&] { std::lock_guard<std::mutex> l(m); std::lock_guard<std::mutex> k(m); });
  a.join();
  return "ok";
}
static string future()
{
  auto f = std::async(std::launch::async, [] { return 5; });
  std::promise<int> p;
  auto q = p.get_future();
  std::thread a([&] { p.set_value(6); });
  int v = f.get() + q.get();
  a.join();
  return std::to_string(v);
}
static string exceptions()
{
  string s[2];
  auto f = [](string* o, int i) {
    try {
      throw std::runtime_error("error " + std::to_string(i));
    } catch (const std::exception& e) {
      *o = e.what();
    }
  };
  std::thread a(f, &s[0], 0), b(f, &s[1], 1);
  a.join();
  b.join();
  return s[0] + " " + s[1];
}
static string escaped()
{
  std::exception_ptr e;
  std::thread a([&] {
    try {
      throw std::runtime_error("x");
    } catch (...) {
      e = std::current_exception();
    }
  });
  a.join();
  try {
    std::rethrow_exception(e);
  } catch (const std::exception& x) {
    return x.what();
  }
}
static string sharedPtr()
{
  auto p = std::make_shared<std::vector<int>>(3, 1);
  std::thread a([p] { volatile size_t n = p->size(); (void)n; });
  p.reset();
  a.join();
  return "ok";
}
static string mapRace()
{
  std::map<int, int> m;
  std::thread a([&] { m[1] = 1; }), b([&] { m[2] = 2; });
  a.join();
  b.join();
  return "ok";
}
static string stackRace()
{
  int x = 0;
  std::thread a([&] { x = 1; });
  volatile int y = x;
  (void)y;
  a.join();
  return "ok";
}
static string callOnce()
{
  std::once_flag f;
  int n = 0;
  auto g = [&] { std::call_once(f, [&] { ++n; }); };
  std::thread a(g), b(g);
  a.join();
  b.join();
  return std::to_string(n);
}
static string detachedWaiter()
{
  std::mutex* m = new std::mutex;
  std::thread a([=] { m->lock(); m->unlock(); });
  m->lock();
  m->unlock();
  a.join();
  delete m;
  return "ok";
}
static string threeSum() // needs two deviations: the last write of a wins over b and c only if both are suspended
{
  std::atomic<int> x{ 0 };
  auto f = [&](int k) { int v = x.load(); x.store(v + k); };
  std::thread a(f, 1), b(f, 2), c(f, 4);
  a.join();
  b.join();
  c.join();
  return std::to_string(x.load());
}

int main(int argc, char** argv)
{
  std::map<string, string (*)()> all{
    { "racy", racy }, { "locked", locked }, { "globalRace", globalRace }, { "globalLocked", globalLocked }, { "lostUpdate", lostUpdate },
    { "relaxedPublish", relaxedPublish }, { "publish", publish }, { "lockOrder", lockOrder }, { "lostWakeup", lostWakeup },
    { "goodWakeup", goodWakeup }, { "timedWait", timedWait }, { "useAfterFree", useAfterFree }, { "outOfBounds", outOfBounds },
    { "spin", spin }, { "spinForever", spinForever }, { "staticGuard", staticGuard }, { "sharedLock", sharedLock },
    { "sharedLockRace", sharedLockRace }, { "recursive", recursive }, { "relock", relock }, { "future", future },
    { "exceptions", exceptions }, { "escaped", escaped }, { "sharedPtr", sharedPtr }, { "mapRace", mapRace }, { "stackRace", stackRace },
    { "callOnce", callOnce }, { "detachedWaiter", detachedWaiter }, { "threeSum", threeSum } };
  if (argc < 3 || !all.count(argv[1])) return 2;
  mc::Limits l;
  l.bound = atoi(argv[2]);
  auto st = mc::explore(all[argv[1]], l);
  printf("OUTCOMES");
  for (auto& o : st.outcomes) printf(" [%s]", o.first.c_str());
  printf("\nschedules %lu\n", st.executions);
  fflush(stdout);
  _Exit(0);
}

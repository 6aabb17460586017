// MPI for ranks that are threads. Every operation synchronizes as much as the standard allows: a send completes when it
// has been received, and a collective operation when all ranks have called it. Messages of one sender with the same tag
// do not overtake each other. Any misuse (sizes that do not agree, different operations in a collective one) ends the program.
#include "mpi_ranks.h"
#include "mpi/bigmpi.h"
#include "mpi/mpi.h"

#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#ifdef MC_SCHED
#include "sched_rt.h"
#endif

namespace {

[[noreturn]] void misuse(const std::string& what)
{
#ifdef MC_SCHED
  mc::fail("MPI: " + what);
#else
  fprintf(stderr, "ERROR: MPI: %s\n", what.c_str());
  abort();
#endif
}

struct Message
{
  const void* data;
  size_t bytes;
  int tag;
  bool received = false;
};

struct Collective
{
  int arrived = 0, left = 0;
  const char* what = nullptr;
  int root = 0;
  std::vector<const void*> send;
  std::vector<size_t> bytes;
};

struct World
{
  explicit World(int n) : size(n), generation(n) {}
  int size;
  std::mutex mutex;
  std::condition_variable changed;
  std::map<std::pair<int, int>, std::vector<Message*>> messages; // by sender and receiver
  std::map<long, Collective> collectives;                        // by how many of them there were before
  std::vector<long> generation;
  int initialized = 0;
};

World* world = nullptr;

#ifdef MC_SCHED
using Guard = mc::Ignore;
#else
std::mutex guardMutex;
struct Guard
{
  Guard() { guardMutex.lock(); }
  ~Guard() { guardMutex.unlock(); }
};
#endif
std::map<pthread_t, int>* rankOf = nullptr; // the rank by its thread

// Only the thread that initialized MPI may call it
int thisRank()
{
  Guard guard;
  auto r = rankOf->find(pthread_self());
  if (r == rankOf->end()) misuse("called by another thread than the one of the rank");
  return r->second;
}

void startRank(int r)
{
  Guard guard;
  (*rankOf)[pthread_self()] = r;
}

size_t bytes(long long n, MPI_Datatype t)
{
  if (n < 0) misuse("negative count");
  return (size_t)n * (t & 0xFF);
}

void checkRank(int r, int rank)
{
  if (r < 0 || r >= world->size || r == rank) misuse("invalid rank " + std::to_string(r));
}

int doSend(const void* data, size_t n, int dest, int tag)
{
  const int rank = thisRank();
  checkRank(dest, rank);
  Message m{ data, n, tag };
  std::unique_lock<std::mutex> lock(world->mutex);
  world->messages[{ rank, dest }].push_back(&m);
  world->changed.notify_all();
  world->changed.wait(lock, [&]() { return m.received; });
  return MPI_SUCCESS;
}

int doRecv(void* data, size_t n, int source, int tag, MPI_Status* status)
{
  const int rank = thisRank();
  checkRank(source, rank);
  std::unique_lock<std::mutex> lock(world->mutex);
  auto& queue = world->messages[{ source, rank }];
  auto found = queue.end();
  world->changed.wait(lock, [&]() {
    for (found = queue.begin(); found != queue.end(); ++found)
      if (tag == MPI_ANY_TAG || (*found)->tag == tag) return true;
    return false;
  });
  Message* m = *found;
  queue.erase(found);
  if (m->bytes > n) misuse("message of " + std::to_string(m->bytes) + " bytes received into " + std::to_string(n));
  if (m->bytes) memcpy(data, m->data, m->bytes);
  if (status) *status = { source, m->tag, MPI_SUCCESS };
  m->received = true;
  world->changed.notify_all();
  return MPI_SUCCESS;
}

// Calls use(collective) once all ranks have called
template <typename F>
int collective(const char* what, int root, const void* data, size_t n, F use)
{
  const int rank = thisRank();
  std::unique_lock<std::mutex> lock(world->mutex);
  long g = world->generation[rank]++;
  Collective& c = world->collectives[g];
  if (!c.what) {
    c.what = what;
    c.root = root;
    c.send.resize(world->size);
    c.bytes.resize(world->size);
  }
  if (strcmp(c.what, what) || c.root != root) misuse(std::string("ranks call ") + what + " and " + c.what + " at the same time");
  c.send[rank] = data;
  c.bytes[rank] = n;
  c.arrived++;
  world->changed.notify_all();
  world->changed.wait(lock, [&]() { return c.arrived == world->size; });
  use(c);
  // The data of the others is used until all are done
  c.left++;
  world->changed.notify_all();
  world->changed.wait(lock, [&]() { return c.left >= world->size; });
  if (++c.left == 2 * world->size) world->collectives.erase(g);
  return MPI_SUCCESS;
}

int doGather(const char* what, int root, bool all, const void* send, size_t n, void* recv, const int* counts, const int* displs, int count,
             MPI_Datatype type)
{
  const int rank = thisRank();
  return collective(what, root, send, n, [&](Collective& c) {
    if (!all && rank != root) return;
    for (int i = 0; i < world->size; i++) {
      size_t want = bytes(counts ? counts[i] : count, type);
      if (c.bytes[i] != want) misuse(std::string(what) + " of " + std::to_string(c.bytes[i]) + " bytes into " + std::to_string(want));
      if (want) memcpy((char*)recv + (displs ? bytes(displs[i], type) : i * want), c.send[i], want);
    }
  });
}

} // namespace

int MPI_Init(int*, char***)
{
  const int rank = thisRank();
  std::unique_lock<std::mutex> lock(world->mutex);
  if (world->initialized & (1 << rank)) misuse("MPI_Init called twice");
  world->initialized |= 1 << rank;
  return MPI_SUCCESS;
}
int MPI_Initialized(int* flag)
{
  const int rank = thisRank();
  std::unique_lock<std::mutex> lock(world->mutex);
  *flag = !!(world->initialized & (1 << rank));
  return MPI_SUCCESS;
}
int MPI_Finalize()
{
  return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm, int* r)
{
  const int rank = thisRank();
  *r = rank;
  return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm, int* n)
{
  *n = world->size;
  return MPI_SUCCESS;
}
int MPI_Send(const void* d, int n, MPI_Datatype t, int dest, int tag, MPI_Comm)
{
  return doSend(d, bytes(n, t), dest, tag);
}
int MPI_Recv(void* d, int n, MPI_Datatype t, int source, int tag, MPI_Comm, MPI_Status* s)
{
  return doRecv(d, bytes(n, t), source, tag, s);
}
int MPIX_Send_x(const void* d, MPI_Count n, MPI_Datatype t, int dest, int tag, MPI_Comm)
{
  return doSend(d, bytes(n, t), dest, tag);
}
int MPIX_Recv_x(void* d, MPI_Count n, MPI_Datatype t, int source, int tag, MPI_Comm, MPI_Status* s)
{
  return doRecv(d, bytes(n, t), source, tag, s);
}
int MPI_Barrier(MPI_Comm)
{
  return collective("MPI_Barrier", 0, nullptr, 0, [](Collective&) {});
}
int MPI_Bcast(void* d, int n, MPI_Datatype t, int root, MPI_Comm)
{
  const int rank = thisRank();
  size_t size = bytes(n, t);
  return collective("MPI_Bcast", root, d, size, [&](Collective& c) {
    if (c.bytes[root] != size) misuse("MPI_Bcast of different sizes");
    if (rank != root && size) memcpy(d, c.send[root], size);
  });
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm)
{
  return doGather("MPI_Gather", root, false, s, bytes(n, t), r, nullptr, nullptr, rn, rt);
}
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int* counts, const int* displs, MPI_Datatype rt, int root, MPI_Comm)
{
  return doGather("MPI_Gatherv", root, false, s, bytes(n, t), r, counts, displs, 0, rt);
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm)
{
  return doGather("MPI_Allgather", 0, true, s, bytes(n, t), r, nullptr, nullptr, rn, rt);
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* counts, const int* displs, MPI_Datatype rt, MPI_Comm)
{
  return doGather("MPI_Allgatherv", 0, true, s, bytes(n, t), r, counts, displs, 0, rt);
}

namespace ranks {

void run(int size, const std::function<void(int)>& f)
{
  World w(size);
  world = &w;
  std::map<pthread_t, int> byThread;
  rankOf = &byThread;
  std::vector<std::thread> threads;
  for (int i = 1; i < size; i++) {
    threads.emplace_back([&f, i]() {
      startRank(i);
      f(i);
    });
  }
  startRank(0);
  f(0);
  for (auto& t : threads) t.join();
  world = nullptr;
}

} // namespace ranks

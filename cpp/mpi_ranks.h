// Ranks of an MPI program as threads of this process (see mpi/mpi.h).
#pragma once
#include <functional>

namespace ranks {
// Runs f(rank) for every rank and waits for all of them.
void run(int size, const std::function<void(int)>& f);
}

// Real threads under a scheduler of our own, with a race detector. Only in the program built for threads.
#pragma once
#include "value.h"
#include <functional>
#include <vector>

namespace sim {

int const MAX_THREADS = 4;

/** Run functions in threads of which one runs at a time.  It is changed at accesses the library makes, where the schedule says:
 *  {"first":thread,"points":[{"k":kind,"n":count,"to":thread},...]}: after that many events of that kind since the last change, go to
 *  another thread. Kinds: "a" any access or function entry, "s" one to static storage, to something another thread has used, or an atomic
 *  or lock, "i" a call to the simulated world, "l" a lock or static initialisation, "o" the start of an operation.
 */
void run_threads(std::vector<std::function<void ()>> const& fns, Value const& sched);
/// a place that the harness offers for a change of thread
void thread_point();

}

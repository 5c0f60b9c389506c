// A stateless model checker for real multithreaded C++ code.
//
// A scenario's body runs in a forked child under a scheduler that owns every thread: pthread
// mutexes, condition variables, thread creation and joining, once-initialisation, futexes, sleeping,
// yielding, clocks, epoll and (through -fsanitize=thread instrumentation, whose run-time entry
// points mc.cc provides) C++ atomics.  One thread runs at a time; before each such operation the
// scheduler chooses which thread goes on.  The explorer enumerates all choices whose cost (number
// of preemptions, spurious wake-ups, early time-outs, injected faults) is within a bound, in order
// of increasing cost.  Plain memory accesses are not scheduling points; instead every execution is
// checked for data races with vector clocks and for use of freed memory.
#ifndef VERIF_MC_MC_H_
#define VERIF_MC_MC_H_

#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Scenario {
  std::string name;
  std::function<void()> body;
  int quick_bound = 2;
  int thorough_bound = 3;
  bool spurious = true;    // explore spurious wake-ups of condition variables
  bool io_points = false;  // file operations are scheduling points
  bool races = true;       // data races are violations
  double weight = 1;       // share of the time budget
  std::function<void()> warmup;  // called once before the executions (in the parent, no threads)
};

// --- for scenario bodies ---
void point(const char* what = "user");            // explicit scheduling point
void idle();                                      // goes on when no other thread can, before time passes
int choose(int n, bool costs, const char* what);  // choice 0..n-1; 0 is the default
[[noreturn]] void fail(const std::string& message);
// A violation identified by `key`: if the key is a known finding it is recorded and the execution
// goes on, otherwise it is reported like any other.
void finding(const std::string& key, const std::string& message);
void outcome(const std::string& text);            // observed outcome of this execution
uint64_t now_ns();                                // virtual time
int thread_id();
bool replaying();
void trace(const std::string& text);              // shown when replaying
// Called for each file operation while io hooks are on; see Scenario::io_points.  `op` is the name
// of the call; returning a positive number makes it fail with that errno, a negative one lets a write
// write only half.
extern int (*io_fault)(const char* op, const char* path);
// Called when a thread is about to be made; returning nonzero makes that fail with that errno.
extern int (*create_fault)();
// `check` runs at the end of an exit() inside the body, after the destructors of all statics made after this call;
// the execution then ends successfully
void at_process_exit(void (*check)());
void quiet_exit();  // ends this execution successfully at once

int run(int argc, char** argv, std::vector<Scenario> scenarios);

}  // namespace mc

#define MC_CHECK(cond, msg)               \
  do {                                    \
    if (!(cond)) {                        \
      std::ostringstream mc_os;           \
      mc_os << msg << "   [" << #cond << ", line " << __LINE__ << "]"; \
      mc::fail(mc_os.str());              \
    }                                     \
  } while (0)

#endif  // VERIF_MC_MC_H_

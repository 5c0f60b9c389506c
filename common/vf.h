// Support for the sequential harnesses: enumeration of numbered cases, sharding over processes,
// replay of a single case, reporting.  A harness is a list of sections; a section walks through all
// its cases and runs those that `take()` says are this process's.
#ifndef VERIF_COMMON_VF_H_
#define VERIF_COMMON_VF_H_

#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

struct Violation {
  std::string key, message;
};

struct Section {
  const char* name;
  std::function<void()> body;
};

// --- state of this run ---
extern bool thorough;
extern unsigned seed;
extern uint64_t evaluations;   // cases executed
extern uint64_t transitions;   // operations executed on the real code
extern uint64_t histories;     // complete histories replayed against the real code
extern bool capped;            // a cap was hit: the section was not finished
extern std::string scratch;    // scratch directory of this process, removed at the end

// Next case: true if this process is to run it.
bool take();
// True on exactly one of the processes, for sections that cannot be split into cases (they call
// note() at each step instead).
bool single();
// Marks progress within a case (re-arms the watchdog).
void note();
void set_case_limit(unsigned seconds);
uint64_t case_index();

bool state(uint64_t hash);     // records a visited state; true if new
void outcome(uint64_t hash);   // records an observed outcome
void sample(const std::string& text);
void info(const std::string& text);  // goes into the evidence file

[[noreturn]] void fail(const std::string& message);
// A violation identified by `key`: if the key is listed as a known finding it is recorded and the
// enumeration continues, otherwise it is reported like any other.
void finding(const std::string& key, const std::string& message);
bool is_known(const std::string& key);

int run(int argc, char** argv, std::vector<Section> sections);

// --- helpers ---
uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL);
std::string show(const std::string& s);
template <typename C>
std::string show_bytes(const C& c) {
  return show(std::string(c.begin(), c.end()));
}

}  // namespace vf

#define VF_CHECK(cond, msg)                                          \
  do {                                                               \
    if (!(cond)) {                                                   \
      std::ostringstream vf_os;                                      \
      vf_os << msg << "   [" << #cond << ", line " << __LINE__ << "]"; \
      vf::fail(vf_os.str());                                         \
    }                                                                \
  } while (0)

#define VF_FINDING(key, cond, msg)                                   \
  do {                                                               \
    if (!(cond)) {                                                   \
      std::ostringstream vf_os;                                      \
      vf_os << msg << "   [" << #cond << ", line " << __LINE__ << "]"; \
      vf::finding(key, vf_os.str());                                 \
    }                                                                \
  } while (0)

#endif  // VERIF_COMMON_VF_H_

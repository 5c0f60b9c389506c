// C34: the profiler's report, for all short sequences of profiled scopes; each in a process of its own
// which ends by itself, under a virtual clock.
#define USE_PROFILING
#include <fcntl.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>

#include "maidsafe/common/profiler.h"

#include "common/child.h"
#include "common/profile_report.h"
#include "common/vf.h"

namespace {
bool g_virtual = false;
long long g_now = 0;
}  // unnamed namespace

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (g_virtual && id == CLOCK_REALTIME) {
    t->tv_sec = 1700000000 + g_now / 1000000000;
    t->tv_nsec = g_now % 1000000000;
    if (t->tv_nsec < 0) {
      t->tv_nsec += 1000000000;
      --t->tv_sec;
    }
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}

namespace {

using maidsafe::profile::ProfileEntry;
using report::Profiled;

struct Place {
  std::string file;
  int line;
  std::string function, shown;
};
void enter(const Place& p, long long nanos, Profiled* profiled) {
  {
    ProfileEntry e(p.file, p.line, p.function);
    g_now += nanos;
  }
  auto& c = (*profiled)[p.shown];
  ++c.count;
  c.nanos += nanos;
}

// What `body` profiles must be what its process reports at its end.
void check(const std::string& told, const std::function<void(Profiled*)>& body, bool durations = true) {
  const std::string out = vf::scratch + "/out";
  ++vf::histories;
  const auto r = vf::in_child(
      [&]() -> std::string {
        const int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        dup2(fd, 1);
        g_virtual = true;
        Profiled p;
        body(&p);
        std::ostringstream text;
        for (auto& e : p)
          text << e.first << "\n" << e.second.count << "\n" << e.second.nanos << "\n";
        return text.str();
      },
      true, 50);
  VF_CHECK(r.exited(), "the process " << r.how() << " after " << told);
  Profiled p;
  std::istringstream in(r.text);
  for (std::string name, count, nanos; std::getline(in, name) && std::getline(in, count) && std::getline(in, nanos);)
    p[name] = report::Counted{std::stoull(count), std::stoll(nanos)};
  std::ifstream f(out);
  const std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  unlink(out.c_str());
  for (auto& e : p)
    vf::transitions += e.second.count;
  const std::string w = report::wrong(text, p, durations);
  VF_CHECK(w.empty(), w << "  after " << told << ", the report is: " << text);
  vf::outcome(vf::hash_str(told));
}

std::vector<Place> places() {
  return {{"a.cc", 7, "void f()", "a.cc:7] void f()"}, {"a.cc", 70, "void f()", "a.cc:70] void f()"}, {"a.cc", 7, "void g()", "a.cc:7] void g()"}, {"/home/maidsafe/src/maidsafe/common/b.cc", 7, "void f()", "common/b.cc:7] void f()"}, {"maidsafe/b.cc", 12, "int N::h(int) const", "maidsafe/b.cc:12] int N::h(int) const"}, {"x\\maidsafe\\common\\b.cc", 8, "void f()", "common/b.cc:8] void f()"}, {"/src/c.cc", 7, "", "/src/c.cc:7] "}};
}

// All sequences of places and durations.
void sequences() {
  const auto all = places();
  const long long durations[] = {0, 1, 1500000001};
  const int kinds = 9, depth = vf::thorough ? 5 : 4;
  for (int length = 0; length <= depth; ++length) {
    int total = 1;
    for (int i = 0; i < length; ++i)
      total *= kinds;
    for (int c = 0; c < total; ++c) {
      if (!vf::take())
        continue;
      std::string told;
      int rest = c;
      for (int i = 0; i < length; ++i, rest /= kinds)
        told += all[static_cast<size_t>(rest % 3)].shown + " " + std::to_string(durations[rest % kinds / 3]) + ", ";
      check(told, [&](Profiled* p) {
        int r = c;
        for (int i = 0; i < length; ++i, r /= kinds)
          enter(all[static_cast<size_t>(r % 3)], durations[r % kinds / 3], p);
        if (length == 0)
          maidsafe::profile::Profiler::Instance();
      });
      if (c % 700 == 5)
        vf::sample(told);
    }
  }
  // pairs and triples of all places
  const int n = static_cast<int>(all.size());
  for (int c = 0; c < n * n * n; ++c) {
    if (!vf::take())
      continue;
    const int i[] = {c % n, c / n % n, c / n / n};
    std::string told;
    for (int x : i)
      told += all[static_cast<size_t>(x)].shown + ", ";
    check(told, [&](Profiled* p) {
      for (int x : i)
        enter(all[static_cast<size_t>(x)], 3 + x, p);
    });
  }
}

// Durations of all orders of magnitude, and clocks which are set back.
void durations() {
  const auto all = places();
  std::vector<long long> some;
  for (long long d = 1; d < 9000000000000000000ll / 10; d *= 10)
    for (long long x : {d - 1, d, d * 2 - 1})
      some.push_back(x);
  for (size_t i = 0; i < some.size(); ++i)
    for (size_t j = 0; j < some.size(); j += vf::thorough ? 1 : 5) {
      if (!vf::take())
        continue;
      check("durations of " + std::to_string(some[i]) + " and " + std::to_string(some[j]) + " ns", [&](Profiled* p) {
        enter(all[0], some[i], p);
        enter(all[1], some[j], p);
        enter(all[0], some[i] / 3, p);
      });
    }
  for (long long d : some) {
    if (d > 1600000000000000000ll || !vf::take())
      continue;
    check("a clock set back by " + std::to_string(d) + " ns", [&](Profiled* p) {
      enter(all[0], -d, p);
      enter(all[1], 5, p);
    }, false);
  }
  // files in unusual places
  for (const char* file : {"", "maidsafe", "/maidsafe", "src/maidsafe", "maidsafe/", "src/maidsafe/", "srcmaidsafe", "/a/maidsafe\\", "a\nb"}) {
    if (!vf::take())
      continue;
    const auto r = vf::in_child(
        [&]() -> std::string {
          const int fd = open("/dev/null", O_WRONLY);
          dup2(fd, 1);
          { ProfileEntry e(file, 1, "f"); }
          { ProfileEntry e(file, 1, "f"); }
          return "";
        },
        true, 50);
    VF_CHECK(r.exited(), "the process " << r.how() << " after a scope in file \"" << file << "\"");
    vf::outcome(vf::hash_str(file));
  }
}

int profiled_scope(int depth) {
  SCOPED_PROFILE
  g_now += 10;
  if (depth > 0)
    profiled_scope(depth - 1);
  return __LINE__ - 4;
}
// The macro; many places; many calls; several threads.
void others() {
  for (int depth = 0; depth < 6; ++depth) {
    if (!vf::take())
      continue;
    check("nested scopes", [&](Profiled* p) {
      const int line = profiled_scope(depth);
      std::string file = __FILE__;
      const size_t at = file.rfind("maidsafe");
      if (at != std::string::npos && at != 0)
        file = file.substr(at + 9);
      long long total = 0;
      for (int i = 0; i <= depth; ++i)
        total += 10 * (i + 1);
      (*p)[file + ":" + std::to_string(line) + "] int {anonymous}::profiled_scope(int)"] = report::Counted{static_cast<uint64_t>(depth) + 1, total};
    });
  }
  for (int many : {10, 100, 1000}) {
    if (!vf::take())
      continue;
    check(std::to_string(many) + " places", [&](Profiled* p) {
      for (int round = 0; round < 3; ++round)
        for (int i = 0; i < many; i += round + 1) {
          const Place x = {"f" + std::to_string(i * 7 % many) + ".cc", i, "f", "f" + std::to_string(i * 7 % many) + ".cc:" + std::to_string(i) + "] f"};
          enter(x, i * 31 % 17, p);
        }
    });
  }
  for (int many : {100, 20000}) {
    if (!vf::take())
      continue;
    check(std::to_string(many) + " calls", [&](Profiled* p) {
      for (int i = 0; i < many; ++i)
        enter(places()[static_cast<size_t>(i % 3)], i, p);
    });
  }
  for (int threads = 1; threads < 8; ++threads) {
    if (!vf::take())
      continue;
    check(std::to_string(threads) + " threads", [&](Profiled* p) {
      std::vector<std::thread> all;
      std::vector<Profiled> of(static_cast<size_t>(threads));
      for (int t = 0; t < threads; ++t)
        all.emplace_back([t] {
          for (int i = 0; i < 200; ++i)
            ProfileEntry e("t.cc", (i + t) % 3, "f");
        });
      for (auto& t : all)
        t.join();
      for (int t = 0; t < threads; ++t)
        for (int i = 0; i < 200; ++i) {
          auto& c = (*p)["t.cc:" + std::to_string((i + t) % 3) + "] f"];
          ++c.count;
        }
    });
  }
}

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"sequences", sequences}, {"durations", durations}, {"others", others}});
}

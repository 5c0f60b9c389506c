// C37: ranges locked and unlocked by several threads.
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <vector>

#include "maidsafe/common/authentication/detail/safe_allocators.h"

#include "mc/mc.h"

namespace {
const size_t kPage = 16;
struct Recorder {
  static std::mutex& mutex() {
    static std::mutex m;
    return m;
  }
  static std::set<size_t>& pages() {
    static std::set<size_t> p;
    return p;
  }
  bool Lock(const void* p, size_t n) {
    std::lock_guard<std::mutex> l(mutex());
    for (size_t k = 0; k < n; k += kPage)
      MC_CHECK(pages().insert((reinterpret_cast<size_t>(p) + k) / kPage).second, "a locked page is locked again");
    return true;
  }
  bool Unlock(const void* p, size_t n) {
    std::lock_guard<std::mutex> l(mutex());
    for (size_t k = 0; k < n; k += kPage)
      MC_CHECK(pages().erase((reinterpret_cast<size_t>(p) + k) / kPage) == 1, "a page is unlocked which is not locked");
    return true;
  }
  static void check(size_t at, size_t size) {
    std::lock_guard<std::mutex> l(mutex());
    for (size_t p = at / kPage; p <= (at + size - 1) / kPage; ++p)
      MC_CHECK(pages().count(p), "page " << p << " is not locked while in use");
  }
};
struct Range {
  size_t at, size;
};
void threads(const std::vector<std::vector<Range>>& work) {
  maidsafe::authentication::detail::LockedPageManagerBase<Recorder> manager(kPage);
  Recorder::pages();
  Recorder::mutex();
  std::vector<std::thread> ts;
  for (const auto& w : work)
    ts.emplace_back([&] {
      for (const auto& r : w) {
        manager.LockRange(reinterpret_cast<void*>(r.at), r.size);
        Recorder::check(r.at, r.size);
      }
      MC_CHECK(manager.GetLockedPageCount() > 0, "no page is counted");
      for (const auto& r : w) {
        Recorder::check(r.at, r.size);
        manager.UnlockRange(reinterpret_cast<void*>(r.at), r.size);
      }
    });
  for (auto& t : ts)
    t.join();
  MC_CHECK(Recorder::pages().empty(), "pages stay locked");
  MC_CHECK(manager.GetLockedPageCount() == 0, "pages stay counted");
  mc::outcome("done");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  auto s = [](const char* name, std::vector<std::vector<Range>> work, int q, int t) {
    mc::Scenario x;
    x.name = name;
    x.body = [=] { threads(work); };
    x.quick_bound = q;
    x.thorough_bound = t;
    return x;
  };
  return mc::run(argc, argv, {s("one page, two threads", {{{16, 4}}, {{20, 4}}}, 4, 7),
                              s("overlapping ranges", {{{16, 20}, {33, 2}}, {{32, 40}}}, 3, 6),
                              s("three threads", {{{16, 4}}, {{20, 4}}, {{16, 30}}}, 3, 5)});
}

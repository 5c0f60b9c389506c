// C03: threaded I/O services: every interleaving of posting, stopping and destroying.
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "asio/post.hpp"
#include "boost/asio/post.hpp"

#include "maidsafe/common/asio_service.h"

#include "mc/mc.h"

using maidsafe::AsioService;
using maidsafe::BoostAsioService;

namespace {

#define UNSEEN __attribute__((no_sanitize("thread"), noinline))

struct Board {
  int ran[16] = {};
  int order = 0;
};
UNSEEN void mark(Board& b, int i) { ++b.ran[i]; }
UNSEEN int ran(const Board& b, int i) { return b.ran[i]; }

template <typename S> struct Post;
template <> struct Post<AsioService> {
  template <typename F> static void go(AsioService& s, F f) { asio::post(s.service(), std::move(f)); }
};
template <> struct Post<BoostAsioService> {
  template <typename F> static void go(BoostAsioService& s, F f) { boost::asio::post(s.service(), std::move(f)); }
};

void all_ran(const Board& b, int n, const char* when) {
  for (int i = 0; i < n; ++i)
    MC_CHECK(ran(b, i) == 1, when << ", handler " << i << " of " << n << " has run " << ran(b, i) << " times");
}
// What stopping from one of the service's own threads does.
template <typename S>
std::string own_stop(S& s) {
  try {
    s.Stop();
    return "stopped";
  } catch (const maidsafe::maidsafe_error& e) {
    return e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::cannot_invoke_from_this_thread) ? "refused" : e.what();
  }
}

// Handlers posted, then stopped, then stopped again and destroyed.
template <typename S>
void stopped(size_t threads, int handlers, bool explicitly) {
  Board b;
  {
    S s(threads);
    MC_CHECK(s.ThreadCount() == threads, "ThreadCount is " << s.ThreadCount());
    for (int i = 0; i < handlers; ++i)
      Post<S>::go(s, [&b, i] { mark(b, i); });
    MC_CHECK(s.ThreadCount() == threads, "ThreadCount is " << s.ThreadCount());
    if (explicitly) {
      s.Stop();
      MC_CHECK(s.ThreadCount() == 0, "ThreadCount is " << s.ThreadCount() << " after Stop");
      all_ran(b, handlers, "after Stop");
      s.Stop();
      MC_CHECK(s.ThreadCount() == 0, "ThreadCount is " << s.ThreadCount() << " after Stop");
    }
  }
  all_ran(b, handlers, "after the destructor");
}

// Several threads stop the same service; for each of them the handlers posted before are done.
template <typename S>
void stoppers(size_t threads, int n, bool posting) {
  Board b;
  {
    S s(threads);
    Post<S>::go(s, [&b] { mark(b, 0); });
    Post<S>::go(s, [&b] { mark(b, 1); });
    std::vector<std::thread> others;
    for (int i = 1; i < n; ++i)
      others.emplace_back([&s, &b, i, posting] {
        if (posting)
          Post<S>::go(s, [&b, i] { mark(b, 1 + i); });
        s.Stop();
        all_ran(b, 2, "after Stop in another thread");
        MC_CHECK(ran(b, 1 + i) <= 1, "a handler has run twice");
        MC_CHECK(s.ThreadCount() == 0, "ThreadCount is " << s.ThreadCount() << " after Stop");
      });
    s.Stop();
    all_ran(b, 2, "after Stop");
    MC_CHECK(s.ThreadCount() == 0, "ThreadCount is " << s.ThreadCount() << " after Stop");
    for (auto& t : others)
      t.join();
    std::string late;
    for (int i = 1; i < n; ++i)
      late += static_cast<char>('0' + ran(b, 1 + i));
    mc::outcome(late);
  }
  all_ran(b, 2, "after the destructor");
}

// Another thread posts while this one stops: what was posted before Stop runs.
template <typename S>
void poster(size_t threads) {
  Board b;
  int posted = 0;
  {
    S s(threads);
    std::atomic<int> count{0};
    std::thread t([&] {
      for (int i = 0; i < 2; ++i) {
        Post<S>::go(s, [&b, i] { mark(b, i); });
        ++count;
      }
    });
    posted = count;
    s.Stop();
    all_ran(b, posted, "after Stop");
    t.join();
    MC_CHECK(ran(b, 0) <= 1 && ran(b, 1) <= 1, "a handler has run twice");
  }
  all_ran(b, posted, "after the destructor");
  mc::outcome(std::to_string(posted) + std::to_string(ran(b, 0)) + std::to_string(ran(b, 1)));
}

// A handler posts another one, all of which happens before Stop.
template <typename S>
void nested(size_t threads) {
  Board b;
  S s(threads);
  std::atomic<bool> done{false};
  std::mutex m;
  std::condition_variable c;
  Post<S>::go(s, [&] {
    mark(b, 0);
    Post<S>::go(s, [&] { mark(b, 1); });
    std::lock_guard<std::mutex> l(m);
    done = true;
    c.notify_one();
  });
  {
    std::unique_lock<std::mutex> l(m);
    c.wait(l, [&] { return done.load(); });
  }
  s.Stop();
  all_ran(b, 2, "after Stop");
}

// Stopped from its own thread: refused, running on, and stoppable from outside.
template <typename S>
void from_inside(size_t threads, bool waiting) {
  Board b;
  std::string said;
  {
    S s(threads);
    std::mutex m;
    std::condition_variable c;
    bool done = false;
    Post<S>::go(s, [&] {
      const std::string r = own_stop(s);
      mark(b, 0);
      Post<S>::go(s, [&b] { mark(b, 1); });
      std::lock_guard<std::mutex> l(m);
      said = r;
      done = true;
      c.notify_one();
    });
    if (waiting) {
      std::unique_lock<std::mutex> l(m);
      c.wait(l, [&] { return done; });
      MC_CHECK(said == "refused", "Stop from one of the service's threads: " << said);
      MC_CHECK(s.ThreadCount() == threads, "ThreadCount is " << s.ThreadCount() << " after a Stop which was refused");
      l.unlock();
      Post<S>::go(s, [&b] { mark(b, 2); });
      s.Stop();
      all_ran(b, 3, "after Stop");
    } else {
      s.Stop();
      all_ran(b, 1, "after Stop");
      MC_CHECK(said == "refused", "Stop from one of the service's threads: " << said);
    }
    MC_CHECK(s.ThreadCount() == 0, "ThreadCount is " << s.ThreadCount() << " after Stop");
  }
  mc::outcome(std::to_string(ran(b, 1)));
}

// Two services stop each other: each from the other's thread, which is allowed.
template <typename S>
void crossed() {
  Board b;
  {
    S s(1), t(1);
    Post<S>::go(s, [&] { mark(b, 0); });
    Post<S>::go(t, [&] {
      s.Stop();
      mark(b, 1);
      MC_CHECK(ran(b, 0) == 1, "a handler of the stopped service has not run");
    });
    t.Stop();
    all_ran(b, 2, "after both were stopped");
  }
}

// A service is stopped by a thread which is started after the service's threads have ended.
template <typename S>
void late_stopper() {
  S s(2);
  s.Stop();
  std::thread t([&] { MC_CHECK(own_stop(s) == "stopped", "a later thread cannot stop"); });
  t.join();
  S u(1);
  std::thread v([&] { MC_CHECK(own_stop(s) == "stopped", "a later thread cannot stop"); });
  v.join();
  Post<S>::go(u, [&s] { MC_CHECK(own_stop(s) == "stopped", "another service's thread cannot stop"); });
  u.Stop();
}

// Making one of the threads fails: the constructor throws, and nothing is left behind.
int creations_left = -1;
int create_fault() { return creations_left >= 0 && creations_left-- == 0 ? EAGAIN : 0; }
template <typename S>
void unmade(size_t threads) {
  mc::create_fault = create_fault;
  creations_left = mc::choose(static_cast<int>(threads), false, "creation");
  bool thrown = false;
  try {
    S s(threads);
  } catch (const std::exception&) {
    thrown = true;
  }
  MC_CHECK(thrown, "a service some of whose threads could not be made");
  creations_left = -1;
  stopped<S>(1, 1, true);
}

template <typename S>
void none() {
  bool refused = false;
  try {
    S s(0);
  } catch (const maidsafe::maidsafe_error& e) {
    refused = e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::invalid_argument);
  }
  MC_CHECK(refused, "a service without threads");
  stopped<S>(1, 1, true);
}

}  // unnamed namespace

template <typename S>
void add(std::vector<mc::Scenario>& all, const std::string& kind) {
  auto s = [&](const std::string& name, std::function<void()> body, int q, int t, double weight = 1) {
    mc::Scenario x;
    x.name = kind + ": " + name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    x.weight = weight;
    all.push_back(x);
  };
  s("no threads", [] { none<S>(); }, 1, 2);
  s("threads which cannot be made", [] { unmade<S>(3); }, 1, 2);
  s("one thread, stopped", [] { stopped<S>(1, 2, true); }, 3, 5);
  s("one thread, destroyed", [] { stopped<S>(1, 2, false); }, 3, 5);
  s("two threads, stopped", [] { stopped<S>(2, 3, true); }, 2, 3, 2);
  s("two threads, destroyed", [] { stopped<S>(2, 3, false); }, 2, 3, 2);
  s("three threads, stopped", [] { stopped<S>(3, 2, true); }, 1, 2);
  s("two stop one thread", [] { stoppers<S>(1, 2, false); }, 3, 4);
  s("three stop one thread", [] { stoppers<S>(1, 3, false); }, 2, 3, 3);
  s("two stop two threads", [] { stoppers<S>(2, 2, true); }, 2, 3, 5);
  s("posting at the same time", [] { poster<S>(1); }, 2, 3);
  s("posting at the same time, two threads", [] { poster<S>(2); }, 2, 3, 6);
  s("posting from a handler", [] { nested<S>(1); }, 2, 3);
  s("posting from a handler, two threads", [] { nested<S>(2); }, 2, 3, 4);
  s("stopped from inside", [] { from_inside<S>(1, true); }, 2, 3);
  s("stopped from inside, two threads", [] { from_inside<S>(2, true); }, 2, 3, 8);
  s("stopped from inside and outside", [] { from_inside<S>(1, false); }, 3, 4);
  s("stopped from inside and outside, two threads", [] { from_inside<S>(2, false); }, 2, 3, 4);
  s("stopped by another's thread", [] { crossed<S>(); }, 2, 3, 4);
  s("stopped by a later thread", [] { late_stopper<S>(); }, 2, 3, 4);
}

int main(int argc, char** argv) {
  std::vector<mc::Scenario> all;
  add<AsioService>(all, "asio");
  add<BoostAsioService>(all, "boost");
  return mc::run(argc, argv, all);
}

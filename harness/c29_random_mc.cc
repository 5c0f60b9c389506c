// C29: random helpers and the spin lock used by several threads.
#include <algorithm>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/utils.h"

#include "mc/mc.h"

using maidsafe::RandomAlphaNumericString;
using maidsafe::RandomBytes;
using maidsafe::RandomInt32;
using maidsafe::RandomString;
using maidsafe::RandomUint32;
using maidsafe::detail::set_random_number_generator_seed;
using maidsafe::detail::Spinlock;

namespace {

// Threads draw numbers: together they get those which one thread would get.
void numbers(int threads, bool is_signed) {
  auto draw = [=] { return is_signed ? static_cast<uint32_t>(RandomInt32()) : RandomUint32(); };
  set_random_number_generator_seed(7);
  std::vector<std::vector<uint32_t>> got(static_cast<size_t>(threads));
  std::vector<std::thread> t;
  for (int i = 1; i < threads; ++i)
    t.emplace_back([&got, i, draw] {
      for (int k = 0; k < 2; ++k)
        got[static_cast<size_t>(i)].push_back(draw());
    });
  for (int k = 0; k < 2; ++k)
    got[0].push_back(draw());
  for (auto& x : t)
    x.join();
  set_random_number_generator_seed(7);
  std::vector<uint32_t> want, all;
  for (int k = 0; k < 2 * threads; ++k)
    want.push_back(draw());
  for (auto& g : got) {
    size_t at = 0;
    for (uint32_t v : g) {
      while (at < want.size() && want[at] != v)
        ++at;
      MC_CHECK(at < want.size(), "a thread does not get the generator's numbers in their order");
      mc::outcome(std::to_string(at));
      all.push_back(v);
    }
  }
  std::sort(all.begin(), all.end());
  std::sort(want.begin(), want.end());
  MC_CHECK(all == want, "the threads do not get the generator's numbers");
}

bool alnum(const std::string& s) {
  return std::all_of(s.begin(), s.end(), [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); });
}
// Everything at once, for the first time in the process.
void first_use(int which) {
  auto use = [](int k) {
    switch (k % 5) {
      case 0: MC_CHECK(RandomString(3).size() == 3, "RandomString"); break;
      case 1: {
        const auto s = RandomAlphaNumericString(2, 4);
        MC_CHECK(s.size() >= 2 && s.size() <= 4 && alnum(s), "RandomAlphaNumericString");
        break;
      }
      case 2: RandomInt32(); break;
      case 3: MC_CHECK(RandomBytes(2, 2).size() == 2, "RandomBytes"); break;
      case 4: set_random_number_generator_seed(3); break;
    }
  };
  std::thread t([=] {
    use(which);
    use(which + 1);
  });
  use(which + 2);
  use(which);
  t.join();
}
void alphanumeric() {
  std::string a, b;
  std::thread t([&] { a = RandomAlphaNumericString(3); });
  b = RandomAlphaNumericString(3);
  t.join();
  MC_CHECK(a.size() == 3 && b.size() == 3 && alnum(a) && alnum(b), "RandomAlphaNumericString gives " << a << " and " << b);
}

// One holder at a time, who sees what the one before has done.
void spin(int threads, int rounds) {
  Spinlock lock;
  int value = 0, holders = 0;
  std::string order;
  auto work = [&](int id) {
    for (int k = 0; k < rounds; ++k) {
      std::lock_guard<Spinlock> l(lock);
      MC_CHECK(holders == 0, "two threads hold the lock");
      ++holders;
      const int v = value;
      mc::point("holding");
      value = v + 1;
      order += static_cast<char>('0' + id);
      --holders;
    }
  };
  std::vector<std::thread> t;
  for (int i = 1; i < threads; ++i)
    t.emplace_back([&work, i] { work(i); });
  work(0);
  for (auto& x : t)
    x.join();
  lock.lock();
  MC_CHECK(value == threads * rounds, "an update under the lock was lost");
  lock.unlock();
  mc::outcome(order);
}
// Handed back and forth together with data.
void ping_pong() {
  Spinlock lock;
  int turn = 0, value = 0;
  auto play = [&](int me) {
    for (int k = 0; k < 2; ++k)
      for (;;) {
        lock.lock();
        const bool mine = turn == me;
        if (mine) {
          MC_CHECK(value == 2 * k + me, "the value is " << value);
          ++value;
          turn = 1 - me;
        }
        lock.unlock();
        if (mine)
          break;
        std::this_thread::yield();
      }
  };
  std::thread t([&] { play(1); });
  play(0);
  t.join();
  MC_CHECK(value == 4, "the value is " << value);
}
// Destroyed by whoever gets it last.
void released() {
  struct Shared {
    Spinlock lock;
    int users = 2;
  };
  Shared* s = new Shared;
  auto leave = [](Shared* x) {
    x->lock.lock();
    const bool last = --x->users == 0;
    x->lock.unlock();
    return last;
  };
  std::thread t([&] { leave(s); });
  leave(s);
  t.join();
  MC_CHECK(s->users == 0, "a user was lost");
  delete s;
}

}  // unnamed namespace

int main(int argc, char** argv) {
  auto s = [](const std::string& name, std::function<void()> body, int q, int t) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    return x;
  };
  std::vector<mc::Scenario> all = {s("numbers of two threads", [] { numbers(2, false); }, 4, 6), s("signed numbers of two threads", [] { numbers(2, true); }, 3, 6),
                                   s("numbers of three threads", [] { numbers(3, false); }, 2, 4), s("alphanumeric", alphanumeric, 3, 6)};
  for (int k = 0; k < 5; ++k)
    all.push_back(s("first use, from " + std::to_string(k), [k] { first_use(k); }, 2, 5));
  all.push_back(s("spinning, two threads", [] { spin(2, 2); }, 4, 7));
  all.push_back(s("spinning, three threads", [] { spin(3, 1); }, 3, 5));
  all.push_back(s("spinning, three threads, twice", [] { spin(3, 2); }, 2, 4));
  all.push_back(s("spinning back and forth", ping_pong, 3, 5));
  all.push_back(s("the last user", released, 4, 6));
  return mc::run(argc, argv, all);
}

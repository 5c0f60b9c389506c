// C01: the active object, explored over all schedules up to a preemption bound.
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "maidsafe/common/active.h"

#include "mc/mc.h"

using maidsafe::Active;

namespace {

// What the tasks do is recorded here; every task is (sender, number).
struct Record {
  std::mutex m;
  std::vector<std::pair<int, int>> order;
  std::vector<int> threads;
  int running = 0;     // tasks in progress
  int clock = 0;       // stamps for real-time order
  bool closed = false;  // the destructor has returned
  std::vector<std::pair<std::pair<int, int>, std::pair<int, int>>> sends;  // task, (call, return)

  int stamp() {
    std::lock_guard<std::mutex> l(m);
    return ++clock;
  }
  void sent(int s, int n, int call, int ret) {
    std::lock_guard<std::mutex> l(m);
    sends.push_back({{s, n}, {call, ret}});
  }
  void begin(int s, int n) {
    std::lock_guard<std::mutex> l(m);
    MC_CHECK(!closed, "task " << s << "." << n << " runs after the destructor returned");
    MC_CHECK(running == 0, "task " << s << "." << n << " runs while another one does");
    ++running;
    for (auto& o : order)
      MC_CHECK(o != std::make_pair(s, n), "task " << s << "." << n << " runs twice");
    order.push_back({s, n});
    threads.push_back(mc::thread_id());
  }
  void end() {
    std::lock_guard<std::mutex> l(m);
    --running;
  }
  // after the destructor
  void check() {
    std::lock_guard<std::mutex> l(m);
    MC_CHECK(running == 0, "a task is still in progress after the destructor returned");
    for (int t : threads)
      MC_CHECK(t == threads[0] && t != mc::thread_id(), "tasks ran on different threads or on the caller's");
    auto pos = [&](std::pair<int, int> t) {
      for (size_t i = 0; i < order.size(); ++i)
        if (order[i] == t)
          return static_cast<int>(i);
      return -1;
    };
    for (auto& a : sends) {
      MC_CHECK(pos(a.first) >= 0, "task " << a.first.first << "." << a.first.second << " was never run");
      for (auto& b : sends)
        if (a.second.second < b.second.first)
          MC_CHECK(pos(a.first) < pos(b.first),
                   "task " << a.first.first << "." << a.first.second << " was sent before "
                           << b.first.first << "." << b.first.second << " but ran after it");
    }
    std::string s;
    for (auto& o : order)
      s += std::to_string(o.first) + "." + std::to_string(o.second) + " ";
    mc::outcome(s);
  }
};

struct Event {
  std::mutex m;
  std::condition_variable c;
  bool on = false;
  void set() {
    std::lock_guard<std::mutex> l(m);
    on = true;
    c.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    while (!on)
      c.wait(l);
  }
};

void send(Active& a, Record& r, int s, int n, std::function<void()> extra = nullptr) {
  int call = r.stamp();
  a.Send([&r, s, n, extra] {
    r.begin(s, n);
    if (extra)
      extra();
    r.end();
  });
  r.sent(s, n, call, r.stamp());
}

void senders() {  // two sending threads
  Record r;
  {
    Active a;
    std::thread t1([&] {
      send(a, r, 1, 1);
      send(a, r, 1, 2);
    });
    std::thread t2([&] { send(a, r, 2, 1); });
    t1.join();
    t2.join();
  }
  r.closed = true;
  r.check();
}

void one_sender() {
  Record r;
  {
    Active a;
    for (int i = 0; i < 3; ++i)
      send(a, r, 0, i);
  }
  r.closed = true;
  r.check();
}

void many_senders() {
  Record r;
  {
    Active a;
    std::vector<std::thread> t;
    for (int i = 1; i <= 3; ++i)
      t.emplace_back([&a, &r, i] { send(a, r, i, 1); });
    send(a, r, 0, 1);
    for (auto& x : t)
      x.join();
  }
  r.closed = true;
  r.check();
}

void idle() {  // nothing but the Send itself makes the task run
  Record r;
  {
    Active a;
    for (int i = 0; i < 2; ++i) {
      Event e;
      send(a, r, 0, i, [&] { e.set(); });
      e.wait();
    }
  }
  r.closed = true;
  r.check();
}

void idle_two() {  // two waiting senders
  Record r;
  {
    Active a;
    std::thread t([&] {
      Event e;
      send(a, r, 1, 0, [&] { e.set(); });
      e.wait();
    });
    Event e;
    send(a, r, 0, 0, [&] { e.set(); });
    e.wait();
    t.join();
  }
  r.closed = true;
  r.check();
}

void nested() {  // a task sends tasks, and these run
  Record r;
  {
    Active a;
    Event e;
    send(a, r, 0, 1, [&] {
      send(a, r, 5, 1);
      send(a, r, 5, 2, [&] { e.set(); });
    });
    send(a, r, 0, 2);
    e.wait();
  }
  r.closed = true;
  r.check();
}

void nested_at_end() {  // a task that sends while the object is being destroyed
  Record r;
  bool inner = false;
  {
    Active a;
    send(a, r, 0, 1, [&] {
      a.Send([&] {
        r.begin(6, 1);
        inner = true;
        r.end();
      });
    });
    send(a, r, 0, 2);
  }
  r.closed = true;
  r.check();
  mc::outcome(inner ? "inner" : "no inner");
}

void send_while_running() {  // a running task does not hold up senders
  Record r;
  {
    Active a;
    Event e;
    send(a, r, 0, 1, [&] { e.wait(); });
    send(a, r, 0, 2);
    e.set();
  }
  r.closed = true;
  r.check();
}

void pair() {  // two active objects that send to each other
  Record r1, r2;
  {
    Active a, b;
    Event e;
    send(a, r1, 0, 1, [&] { send(b, r2, 1, 1, [&] { send(a, r1, 2, 1, [&] { e.set(); }); }); });
    send(b, r2, 0, 1);
    e.wait();
  }
  r1.closed = r2.closed = true;
  r1.check();
  r2.check();
}

void empty() {
  Active a;
  Active b;
}

void ownership() {  // what a task holds is released, once, by the time the object is gone
  struct Counted {
    int* n;
    explicit Counted(int* p) : n(p) {}
    ~Counted() { ++*n; }
  };
  int deleted = 0, runs = 0;
  {
    Active a;
    for (int i = 0; i < 2; ++i) {
      std::shared_ptr<Counted> c = std::make_shared<Counted>(&deleted);
      a.Send([c, &runs] { ++runs; });
    }
  }
  MC_CHECK(runs == 2, runs << " of 2 tasks ran");
  MC_CHECK(deleted == 2, deleted << " of 2 task objects were released");
}

}  // unnamed namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> s;
  auto add = [&](const char* name, std::function<void()> f, int q, int t, double w = 1) {
    mc::Scenario x;
    x.name = name;
    x.body = f;
    x.quick_bound = q;
    x.thorough_bound = t;
    x.weight = w;
    s.push_back(x);
  };
  add("empty", empty, 2, 4);
  add("one_sender", one_sender, 2, 4);
  add("idle", idle, 3, 4);
  add("send_while_running", send_while_running, 3, 4);
  add("nested", nested, 2, 4);
  add("nested_at_end", nested_at_end, 2, 4);
  add("ownership", ownership, 3, 4);
  add("senders", senders, 2, 3, 3);
  add("idle_two", idle_two, 2, 3, 2);
  add("many_senders", many_senders, 1, 2, 2);
  add("pair", pair, 2, 3, 2);
  return mc::run(argc, argv, s);
}

// C02: histories of one thread, with elements of several kinds, against a deque.
#include <deque>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "maidsafe/common/safe_queue.h"

#include "common/vf.h"

namespace {

int alive = 0, until_failure = -1;
void may_fail() {
  if (until_failure >= 0 && until_failure-- == 0)
    throw std::runtime_error("element");
}
// Counts itself and may fail to be copied, moved or assigned.
struct Loud {
  int value;
  explicit Loud(int v = -1) : value(v) { ++alive; }
  Loud(const Loud& o) : value(o.value) {
    may_fail();
    ++alive;
  }
  Loud& operator=(const Loud& o) {
    may_fail();
    value = o.value;
    return *this;
  }
  ~Loud() { --alive; }
};
struct Movable {
  std::unique_ptr<int> p;
  explicit Movable(int v = -1) : p(new int(v)) { ++alive; }
  Movable(Movable&& o) : p(std::move(o.p)) { ++alive; }
  Movable& operator=(Movable&& o) {
    p = std::move(o.p);
    return *this;
  }
  ~Movable() { --alive; }
};
int number(const Loud& l) { return l.value; }
int number(const Movable& m) { return m.p ? *m.p : -2; }
int number(const std::string& s) { return static_cast<int>(s.size()); }
int number(int v) { return v; }
template <typename T> T element(int v) { return T(v); }
template <> std::string element<std::string>(int v) { return std::string(static_cast<size_t>(v), 'x'); }

// ops: 0 Push, 1 TryPop, 2 WaitAndPop (if there is an element), 3 Size and Empty
template <typename T>
void histories(const char* kind, int depth) {
  long total = 1;
  for (int i = 0; i < depth; ++i)
    total *= 4;
  for (long code = 0; code < total; ++code) {
    if (!vf::take())
      continue;
    {
      SafeQueue<T> q;
      std::deque<int> model;
      int next = 0;
      long c = code;
      uint64_t h = 0;
      for (int i = 0; i < depth; ++i, c /= 4) {
        T e = element<T>(50);
        switch (c % 4) {
          case 0:
            q.Push(element<T>(++next));
            model.push_back(next);
            break;
          case 1: {
            const bool ok = q.TryPop(e);
            VF_CHECK(ok == !model.empty(), kind << ": TryPop gives " << ok << " with " << model.size() << " elements");
            VF_CHECK(number(e) == (ok ? model.front() : 50), kind << ": TryPop sets " << number(e));
            if (ok)
              model.pop_front();
            break;
          }
          case 2:
            if (model.empty())
              break;
            q.WaitAndPop(e);
            VF_CHECK(number(e) == model.front(), kind << ": WaitAndPop sets " << number(e) << " instead of " << model.front());
            model.pop_front();
            break;
          default:
            VF_CHECK(q.Size() == model.size() && q.Empty() == model.empty(), kind << ": Size " << q.Size() << ", Empty " << q.Empty() << " with " << model.size() << " elements");
        }
        h = h * 31 + model.size();
        ++vf::transitions;
      }
      VF_CHECK(q.Size() == model.size(), kind << ": Size " << q.Size() << " with " << model.size() << " elements");
      vf::outcome(h);
    }
    VF_CHECK(alive == 0, kind << ": " << alive << " elements too many");
  }
}

// Copying the element fails, at each place: the operation throws, nothing is lost and nothing doubled.
void failing(int depth) {
  long total = 1;
  for (int i = 0; i < depth; ++i)
    total *= 3;
  for (int at = 0; at < 3; ++at)
    for (long code = 0; code < total; ++code)
      for (int step = 0; step < depth; ++step) {
        if (!vf::take())
          continue;
        {
          SafeQueue<Loud> q;
          std::deque<int> model;
          int next = 0;
          long c = code;
          for (int i = 0; i < depth; ++i, c /= 3) {
            Loud e(50);
            Loud pushed(next + 1);
            bool threw = false, ok = false;
            if (i == step)
              until_failure = at;
            try {
              switch (c % 3) {
                case 0: q.Push(pushed); break;
                case 1: ok = q.TryPop(e); break;
                case 2:
                  if (!model.empty())
                    q.WaitAndPop(e);
              }
            } catch (const std::runtime_error&) {
              threw = true;
            }
            until_failure = -1;
            if (c % 3 == 0) {
              ++next;
              if (!threw)
                model.push_back(next);
            } else if (!model.empty()) {
              VF_CHECK(threw ? e.value == 50 : e.value == model.front(), "popped " << e.value << (threw ? ", failing" : ""));
              VF_CHECK(c % 3 == 2 || threw || ok, "TryPop fails");
              if (!threw)
                model.pop_front();
            } else {
              VF_CHECK(!threw && !ok && e.value == 50, "popped from an empty queue");
            }
            VF_CHECK(q.Size() == model.size() && q.Empty() == model.empty(), "Size " << q.Size() << " with " << model.size() << " elements" << (threw ? " after a failure" : ""));
            ++vf::transitions;
          }
          Loud e(50);
          while (!model.empty()) {
            VF_CHECK(q.TryPop(e) && e.value == model.front(), "popped " << e.value << " instead of " << model.front());
            model.pop_front();
          }
          VF_CHECK(!q.TryPop(e), "an element too many");
        }
        VF_CHECK(alive == 0, alive << " elements too many");
        vf::outcome(static_cast<uint64_t>(code * 100 + at * 10 + step));
      }
}

// Many elements.
void many() {
  for (int n : {1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1000, 5000}) {
    if (!vf::take())
      continue;
    SafeQueue<int> q;
    for (int round = 0; round < 3; ++round) {
      for (int i = 0; i < n; ++i)
        q.Push(i);
      VF_CHECK(q.Size() == static_cast<size_t>(n) && !q.Empty(), "Size");
      for (int i = 0; i < n; ++i) {
        int e = -1;
        if (i % 2)
          q.WaitAndPop(e);
        else
          VF_CHECK(q.TryPop(e), "TryPop");
        VF_CHECK(e == i, "popped " << e << " instead of " << i);
        VF_CHECK(q.Size() == static_cast<size_t>(n - i - 1), "Size");
      }
      VF_CHECK(q.Empty(), "Empty");
    }
    vf::outcome(static_cast<uint64_t>(n));
  }
}

void ints() { histories<int>("int", vf::thorough ? 9 : 7); }
void strings() { histories<std::string>("string", vf::thorough ? 8 : 6); }
void movable() { histories<Movable>("movable", vf::thorough ? 8 : 6); }
void copied() { histories<Loud>("copied", vf::thorough ? 8 : 6); }
void failures() { failing(vf::thorough ? 6 : 5); }

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"ints", ints}, {"strings", strings}, {"movable", movable}, {"copied", copied}, {"failing", failures}, {"many", many}});
}

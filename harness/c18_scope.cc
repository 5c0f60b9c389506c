// C18: scope guards: every sequence of operations to a depth, left normally and by exception.
#include <stdexcept>
#include <string>
#include <vector>

#include "maidsafe/common/on_scope_exit.h"

#include "common/vf.h"

namespace {
using maidsafe::on_scope_exit;
struct Stop {};
std::string runs;  // what ran, in order
void plain_function() { runs += 'f'; }
struct Functor {
  char c;
  void operator()() const { runs += c; }
};

// What a guard is given: kinds of action
enum { kLambda, kFunction, kPointer, kFunctor, kNull, kRevert, kKinds };

template <typename T>
struct World {
  T value, other;
  std::vector<T> values;
};

struct Act {  // the model of an action: what it appends, or the value it restores
  char kind = 0;  // 0: none, 'r': restore, otherwise the letter
  int restore = 0;
};

template <typename T>
void sequences(const std::string& type, const std::vector<T>& values, int depth) {
  // operations: 0..5 SetAction(kind), 6 Release, 7 change the variable, 8 keep a revert action of the
  // present value, 9 set the kept action
  const int kOps = 10;
  long total = 1;
  for (int i = 0; i < depth; ++i)
    total *= kOps;
  for (int start = 0; start < kKinds; ++start)
    for (int thrown = 0; thrown < 2; ++thrown)
      for (long code = 0; code < total; ++code) {
        if (!vf::take())
          continue;
        runs.clear();
        T variable = values[0];
        int now = 0;
        Act act, kept;
        on_scope_exit::ExitAction kept_action;
        std::string history = type + " start " + std::to_string(start) + ":";
        auto model = [&](int kind) {
          switch (kind) {
            case kLambda: act = Act{'l', 0}; break;
            case kFunction: act = Act{'s', 0}; break;
            case kPointer: act = Act{'f', 0}; break;
            case kFunctor: act = Act{'o', 0}; break;
            case kNull: act = Act{}; break;
            case kRevert: act = Act{'r', now}; break;
          }
        };
        auto make = [&](int kind) -> on_scope_exit::ExitAction {
          switch (kind) {
            case kLambda: return [] { runs += 'l'; };
            case kFunction: return on_scope_exit::ExitAction([] { runs += 's'; });
            case kPointer: return &plain_function;
            case kFunctor: return Functor{'o'};
            case kRevert: return on_scope_exit::RevertValue(variable);
          }
          return nullptr;
        };
        auto drive = [&](on_scope_exit& guard) {
          model(start);
          long x = code;
          for (int i = 0; i < depth; ++i, x /= kOps) {
            int op = static_cast<int>(x % kOps);
            history += ' ' + std::to_string(op);
            ++vf::transitions;
            if (op < kKinds) {
              model(op);
              if (op == kNull)
                guard.SetAction();
              else
                guard.SetAction(make(op));
            } else if (op == 6) {
              guard.Release();
              act = Act{};
            } else if (op == 7) {
              now = (now + 1) % static_cast<int>(values.size());
              variable = values[static_cast<size_t>(now)];
            } else if (op == 8) {
              kept_action = on_scope_exit::RevertValue(variable);
              kept = Act{'r', now};
            } else {
              guard.SetAction(kept_action);
              act = kept;
            }
            VF_CHECK(runs.empty() && variable == values[static_cast<size_t>(now)], history << ": something ran before the end of the scope");
          }
          if (thrown)
            throw Stop();
        };
        bool caught = false;
        try {
          switch (start) {  // through the constructors for the types themselves
            case kLambda: {
              on_scope_exit guard([] { runs += 'l'; });
              drive(guard);
              break;
            }
            case kPointer: {
              on_scope_exit guard(&plain_function);
              drive(guard);
              break;
            }
            case kFunctor: {
              on_scope_exit guard(Functor{'o'});
              drive(guard);
              break;
            }
            case kNull: {
              on_scope_exit guard(make(kNull));
              drive(guard);
              break;
            }
            default: {
              on_scope_exit guard(make(start));
              drive(guard);
            }
          }
        } catch (const Stop&) {
          caught = true;
        }
        VF_CHECK(caught == (thrown == 1), history << ": the exception got lost");
        std::string want_runs(act.kind && act.kind != 'r' ? std::string(1, act.kind) : "");
        int want = act.kind == 'r' ? act.restore : now;
        VF_CHECK(runs == want_runs, history << (thrown ? ", left by exception" : "") << ": ran '" << runs << "', expected '" << want_runs << "'");
        VF_CHECK(variable == values[static_cast<size_t>(want)], history << (thrown ? ", left by exception" : "") << ": the variable does not have its value number " << want);
        vf::outcome(vf::hash_str(type + want_runs, static_cast<uint64_t>(want)));
        vf::state(vf::hash_str(type, static_cast<uint64_t>(act.kind) * 64 + static_cast<uint64_t>(act.restore * 8 + now)));
        ++vf::histories;
      }
  vf::sample(type + ": all sequences of " + std::to_string(depth) + " of 10 operations from 6 starts, left normally and by exception");
}

struct Big {
  int a;
  std::string b;
  bool operator==(const Big& o) const { return a == o.a && b == o.b; }
};
void histories() {
  int d = vf::thorough ? 5 : 4;
  sequences<int>("int", {1, 2, 3}, d);
  sequences<std::string>("string", {"one", "", std::string(100, 'x')}, d);
  sequences<std::vector<int>>("vector", {{}, {1, 2}, {1, 2, 3}}, vf::thorough ? 4 : 3);
  sequences<Big>("struct", {{1, "x"}, {1, "y"}, {2, ""}}, vf::thorough ? 4 : 3);
  sequences<bool>("bool", {false, true}, vf::thorough ? 4 : 3);
}

// An action whose n-th copy fails.
struct Fragile {
  static int copies, fail_at, ran;
  Fragile() {}
  Fragile(const Fragile&) {
    if (copies++ == fail_at)
      throw std::runtime_error("copy");
  }
  Fragile& operator=(const Fragile&) = default;
  void operator()() const { ++ran; }
  char big[64];  // not stored in place
};
int Fragile::copies, Fragile::fail_at, Fragile::ran;
void storing() {
  for (int fail = -1; fail < 6; ++fail) {
    if (!vf::take())
      continue;
    Fragile::copies = Fragile::ran = 0;
    Fragile::fail_at = fail;
    bool thrown = false, inside = false;
    try {
      on_scope_exit guard{Fragile()};
      inside = true;
      VF_CHECK(Fragile::ran == 0, "ran at once");
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    VF_CHECK(thrown != inside, "the exception of storing an action got lost");
    VF_CHECK(Fragile::ran == 1, "copy " << fail << " fails: the action ran " << Fragile::ran << " times");
    vf::outcome(static_cast<uint64_t>(thrown));
    // a failing replacement leaves the guard with the action it had
    for (int what = 0; what < 2; ++what) {
      Fragile::copies = Fragile::ran = 0;
      Fragile::fail_at = -1;
      on_scope_exit::ExitAction fragile{Fragile()};
      Fragile::copies = 0;
      Fragile::fail_at = fail;
      runs.clear();
      bool failed = false;
      {
        on_scope_exit guard(Functor{'o'});
        try {
          if (what)
            guard.SetAction(fragile);
          else
            guard.SetAction(on_scope_exit::ExitAction(fragile));
        } catch (const std::runtime_error&) {
          failed = true;
        }
      }
      VF_CHECK(failed ? runs == "o" && Fragile::ran == 0 : runs.empty() && Fragile::ran == 1,
               "replacing an action" << (failed ? " failed" : "") << ": ran '" << runs << "' and the new one " << Fragile::ran << " times");
    }
    ++vf::histories;
  }
  vf::sample("actions whose n-th copy fails, for n = 0..5");
}

void nested() {
  for (int mask = 0; mask < 64; ++mask) {
    if (!vf::take())
      continue;
    runs.clear();
    std::string want;
    try {
      on_scope_exit a(Functor{'a'});
      on_scope_exit b(Functor{'b'});
      on_scope_exit c(Functor{'c'});
      if (mask & 1)
        a.Release();
      if (mask & 2)
        b.Release();
      if (mask & 4)
        c.Release();
      if (mask & 8)
        a.SetAction(Functor{'A'});
      if (mask & 16)
        c.SetAction(Functor{'C'});
      if (mask & 32)
        throw Stop();
    } catch (const Stop&) {
    }
    if (mask & 16)
      want += 'C';
    else if (!(mask & 4))
      want += 'c';
    if (!(mask & 2))
      want += 'b';
    if (mask & 8)
      want += 'A';
    else if (!(mask & 1))
      want += 'a';
    VF_CHECK(runs == want, "three guards, mask " << mask << ": ran " << runs << ", expected " << want);
  }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"storing", storing}, {"nested", nested}, {"histories", histories}});
}

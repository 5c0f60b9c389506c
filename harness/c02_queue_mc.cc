// C02: every interleaving of producers and consumers of a SafeQueue is linearizable.
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/safe_queue.h"

#include "mc/mc.h"

namespace {

// The harness's own notes are made by one thread at a time and are not part of what is checked.
#define UNSEEN __attribute__((no_sanitize("thread"), noinline))

enum Kind { kPush, kTry, kWait, kSize, kEmpty };
struct Op {
  Kind kind;
  int value;   // pushed, popped, size, or emptiness
  bool ok;     // of TryPop
  int from, to;
};
struct History {
  Op ops[31];
  int count = 0, clock = 0;
};
UNSEEN int begin(History& h, Kind k, int v) {
  Op& o = h.ops[h.count];
  o.kind = k;
  o.value = v;
  o.ok = true;
  o.from = ++h.clock;
  o.to = 1 << 30;
  return h.count++;
}
UNSEEN void end(History& h, int at, int v, bool ok) {
  h.ops[at].value = v;
  h.ops[at].ok = ok;
  h.ops[at].to = ++h.clock;
}

// Is there a sequential order of the operations with these results?
UNSEEN bool linear(const History& h, unsigned done, std::vector<int> queue, std::set<std::pair<unsigned, std::vector<int>>>& tried) {
  if (done == (1u << h.count) - 1)
    return true;
  if (!tried.insert({done, queue}).second)
    return false;
  int first_end = 1 << 30;
  for (int i = 0; i < h.count; ++i)
    if (!(done >> i & 1) && h.ops[i].to < first_end)
      first_end = h.ops[i].to;
  for (int i = 0; i < h.count; ++i) {
    const Op& o = h.ops[i];
    if ((done >> i & 1) || o.from > first_end)
      continue;
    std::vector<int> q = queue;
    bool fits = false;
    switch (o.kind) {
      case kPush: q.push_back(o.value); fits = true; break;
      case kTry:
        if (!o.ok) {
          fits = q.empty();
          break;
        }
        [[fallthrough]];
      case kWait:
        fits = !q.empty() && q.front() == o.value;
        if (fits)
          q.erase(q.begin());
        break;
      case kSize: fits = static_cast<int>(q.size()) == o.value; break;
      case kEmpty: fits = (q.empty() ? 1 : 0) == o.value; break;
    }
    if (fits && linear(h, done | 1u << i, q, tried))
      return true;
  }
  return false;
}
UNSEEN std::string show(const History& h) {
  static const char* const names[] = {"Push", "TryPop", "WaitAndPop", "Size", "Empty"};
  std::string s;
  for (int i = 0; i < h.count; ++i) {
    const Op& o = h.ops[i];
    s += std::string(names[o.kind]) + "=" + (o.ok ? std::to_string(o.value) : "none") + "@" + std::to_string(o.from) + "-" + std::to_string(o.to) + " ";
  }
  return s;
}

// An element which can only be moved, and whose contents are elsewhere.
using Moved = std::unique_ptr<int>;
int number(const Moved& m) { return m ? *m : -1; }
Moved element(int v, Moved*) { return Moved(new int(v)); }
using Text = std::string;
int number(const Text& t) { return t.empty() ? -1 : std::stoi(t); }
Text element(int v, Text*) { return std::to_string(v) + std::string(30, ' '); }

template <typename T>
struct Run {
  SafeQueue<T> queue;
  History h;
  int next = 0;
  void push(int v) {
    const int at = begin(h, kPush, v);
    queue.Push(element(v, static_cast<T*>(nullptr)));
    end(h, at, v, true);
  }
  void try_pop() {
    T e = element(77, static_cast<T*>(nullptr));
    const int at = begin(h, kTry, 0);
    const bool ok = queue.TryPop(e);
    end(h, at, number(e), ok);
    MC_CHECK(ok || number(e) == 77, "a TryPop which fails changed its argument");
  }
  void wait_and_pop() {
    T e = element(77, static_cast<T*>(nullptr));
    const int at = begin(h, kWait, 0);
    queue.WaitAndPop(e);
    end(h, at, number(e), true);
  }
  void size() {
    const int at = begin(h, kSize, 0);
    end(h, at, static_cast<int>(queue.Size()), true);
  }
  void empty() {
    const int at = begin(h, kEmpty, 0);
    end(h, at, queue.Empty() ? 1 : 0, true);
  }
  void perform(const std::string& program, int base) {
    for (char c : program)
      switch (c) {
        case 'P': push(++base); break;
        case 'T': try_pop(); break;
        case 'W': wait_and_pop(); break;
        case 'S': size(); break;
        case 'E': empty(); break;
      }
  }
};

// Each program in a thread of its own; afterwards what is left is popped.
template <typename T>
void run(int loaded, const std::vector<std::string>& programs) {
  Run<T> r;
  for (int i = 0; i < loaded; ++i)
    r.push(90 + i);
  std::vector<std::thread> threads;
  for (size_t i = 1; i < programs.size(); ++i)
    threads.emplace_back([&, i] { r.perform(programs[i], static_cast<int>(i) * 10); });
  r.perform(programs[0], 0);
  for (auto& t : threads)
    t.join();
  r.size();
  for (;;) {
    r.try_pop();
    if (!r.h.ops[r.h.count - 1].ok)
      break;
  }
  r.empty();
  std::set<std::pair<unsigned, std::vector<int>>> tried;
  MC_CHECK(linear(r.h, 0, {}, tried), "no sequential order of " << show(r.h));
  std::string results;
  for (int i = 0; i < r.h.count; ++i)
    results += r.h.ops[i].ok ? std::to_string(r.h.ops[i].value) + "," : "-,";
  mc::outcome(results);
}

int count(const std::vector<std::string>& programs, char c) {
  int n = 0;
  for (auto& p : programs)
    for (char x : p)
      n += x == c;
  return n;
}

// All programs of `length` operations for `threads` threads, as far as every waiter is served.
template <typename T>
void all_programs(int threads, int length, const std::string& alphabet) {
  std::vector<std::vector<std::string>> all;
  std::vector<std::string> words = {""};
  for (int i = 0; i < length; ++i) {
    std::vector<std::string> more;
    for (auto& w : words)
      for (char c : alphabet)
        more.push_back(w + c);
    words = more;
  }
  const std::function<void(std::vector<std::string>, size_t)> add = [&](std::vector<std::string> p, size_t from) {
    if (static_cast<int>(p.size()) == threads) {
      if (count(p, 'P') >= 1)
        all.push_back(p);
      return;
    }
    for (size_t i = from; i < words.size(); ++i) {
      p.push_back(words[i]);
      add(p, i);
      p.pop_back();
    }
  };
  add({}, 0);
  const auto& p = all[static_cast<size_t>(mc::choose(static_cast<int>(all.size()), false, "program"))];
  // enough elements for all pops, or just for the waiting ones if there are no others
  int loaded = count(p, 'W') + count(p, 'T') - count(p, 'P');
  if (count(p, 'W') == 0)
    loaded = mc::choose(2, false, "loaded");
  // a waiter of the only thread which pushes must not wait for itself
  if (count(p, 'W') != 0) {
    bool self = false;
    for (auto& w : p)
      for (size_t i = 0; i < w.size(); ++i)
        if (w[i] == 'W' && w.find('P', i) != std::string::npos)
          self = true;
    if (self)
      loaded = count(p, 'W') + count(p, 'T');
  }
  run<T>(loaded > 0 ? loaded : 0, p);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> all;
  auto s = [&](const std::string& name, std::function<void()> body, int q, int t, double weight = 1) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    x.weight = weight;
    all.push_back(x);
  };
  using P = std::vector<std::string>;
  for (P p : {P{"P", "W"}, P{"P", "T"}, P{"PP", "WW"}, P{"PSP", "TET"}, P{"PPP", "WWW"}})
    s("moved: " + p[0] + "|" + p[1], [p] { run<Moved>(0, p); }, 6, 9);
  s("moved: PWP|WPW", [] { run<Moved>(1, {"PWP", "WPW"}); }, 4, 7);
  for (P p : {P{"PP", "W", "W"}, P{"P", "P", "WW"}, P{"PPP", "W", "WT"}, P{"PP", "PP", "WW"}, P{"P", "PT", "W"}, P{"PSP", "W", "W"}, P{"PPP", "WW", "W"}})
    s("moved: " + p[0] + "|" + p[1] + "|" + p[2], [p] { run<Moved>(p[1] == "PT" ? 1 : 0, p); }, 3, 5, 2);
  for (P p : {P{"PPP", "W", "W", "W"}, P{"PP", "W", "W", "P"}, P{"P", "P", "W", "W"}, P{"PP", "TP", "W", "W"}})
    s("moved: " + p[0] + "|" + p[1] + "|" + p[2] + "|" + p[3], [p] { run<Moved>(0, p); }, 2, 3, 3);
  s("text: PP|W|W", [] { run<Text>(0, {"PP", "W", "W"}); }, 3, 5);
  s("text: PP|TTW", [] { run<Text>(1, {"PP", "TTW"}); }, 3, 5);
  s("two threads, two operations", [] { all_programs<Moved>(2, 2, "PTWSE"); }, 3, 5, 6);
  s("three threads, one operation", [] { all_programs<Text>(3, 1, "PTWSE"); }, 3, 5, 3);
  s("two threads, three operations", [] { all_programs<Moved>(2, 3, "PTWS"); }, 2, 4, 6);
  s("three threads, two operations", [] { all_programs<Moved>(3, 2, "PTW"); }, 2, 3, 6);
  return mc::run(argc, argv, all);
}

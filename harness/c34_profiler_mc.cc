// C34: threads leave profiled scopes while the process ends: all interleavings.
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>

#include "maidsafe/common/profiler.h"

#include "common/profile_report.h"
#include "mc/mc.h"

namespace {

using maidsafe::profile::ProfileEntry;
using maidsafe::profile::Profiler;

report::Profiled g_profiled;
std::ostringstream* g_out = nullptr;
bool g_durations = true;

void judge() {
  const std::string w = report::wrong(g_out->str(), g_profiled, g_durations);
  if (!w.empty())
    mc::fail(w + ", the report is: " + g_out->str());
  std::string order;
  std::istringstream in(g_out->str());
  for (std::string l; std::getline(in, l);)
    if (l.find("] ") != std::string::npos)
      order += l[0];
  mc::outcome(order);
}
void begin() {
  g_out = new std::ostringstream;
  std::cout.rdbuf(g_out->rdbuf());
  g_profiled.clear();
  mc::at_process_exit(judge);
}
// `what`: places a to z; lasts as long as its position in the alphabet
void expect(const std::string& what) {
  for (char c : what) {
    auto& x = g_profiled[std::string(1, c) + ".cc:1] f"];
    ++x.count;
    x.nanos += c;
  }
}
void pass(const std::string& what) {
  for (char c : what)
    Profiler::Instance().AddEntry(ProfileEntry::Location(std::string(1, c) + ".cc", 1, "f"), std::chrono::nanoseconds(c));
}
void threads(std::vector<std::string> programs) {
  begin();
  for (auto& p : programs)
    expect(p);
  std::vector<std::thread> all;
  for (size_t i = 1; i < programs.size(); ++i)
    all.emplace_back([&programs, i] { pass(programs[i]); });
  pass(programs[0]);
  for (auto& t : all)
    t.join();
  exit(0);
}
// Real scopes; how long they last is the scheduler's time.
void scopes() {
  begin();
  g_durations = false;
  std::thread t([] {
    ProfileEntry e("a.cc", 1, "f");
    { ProfileEntry e2("b.cc", 1, "f"); }
  });
  { ProfileEntry e("a.cc", 1, "f"); }
  t.join();
  g_profiled = {{"a.cc:1] f", {2, 0}}, {"b.cc:1] f", {1, 0}}};
  exit(0);
}
// Another background thread leaves the scopes.
void from_another_active() {
  begin();
  expect("aab");
  {
    maidsafe::Active other;
    other.Send([] { pass("a"); });
    other.Send([] { pass("b"); });
    pass("a");
  }
  exit(0);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> all;
  auto s = [&](const std::string& name, std::function<void()> body, int q, int t, double weight = 1) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    x.weight = weight;
    x.spurious = false;
    all.push_back(x);
  };
  auto n = [&](std::vector<std::string> programs, int q, int t, double weight = 1) {
    std::string name;
    for (size_t i = 0; i < programs.size(); ++i)
      name += (i ? " | " : "") + programs[i];
    s(name, [=] { threads(programs); }, q, t, weight);
  };
  n({"a"}, 2, 4, 4);
  n({"aba"}, 1, 3);
  n({"a", "a"}, 2, 3, 6);
  n({"", "a"}, 2, 3);
  n({"ab", "ba"}, 1, 2, 3);
  n({"a", "b", "a"}, 1, 2, 2);
  n({"abca", "cab"}, 1, 2, 2);
  s("scopes", scopes, 1, 2, 2);
  s("scopes left by a background thread", from_another_active, 1, 2, 2);
  return mc::run(argc, argv, all);
}

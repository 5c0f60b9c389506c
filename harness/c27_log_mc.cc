// C27: threads which log while the background thread writes and the process ends.
#include <dirent.h>
#include <stdlib.h>
#include <sys/stat.h>

#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/log.h"

#include "common/scratch_dir.h"
#include "mc/mc.h"

// A stream is not to be written to by two threads at once.  Its functions live in the standard
// library, where the model checker sees no memory accesses.
#include <dlfcn.h>
#include <iostream>
#define UNSEEN __attribute__((no_sanitize("thread"), noinline))
static const void* g_in_use[16];
UNSEEN static bool enter_stream(const void* s) {
  int empty = -1;
  for (int i = 0; i < 16; ++i) {
    if (g_in_use[i] == s)
      return false;
    if (!g_in_use[i])
      empty = i;
  }
  if (empty >= 0)
    g_in_use[empty] = s;
  return true;
}
UNSEEN static void leave_stream(const void* s) {
  for (int i = 0; i < 16; ++i) {
    if (g_in_use[i] == s)
      g_in_use[i] = nullptr;
  }
}
extern "C" std::ostream& watched_write(std::ostream*, const char*, long) __asm__("_ZNSo5writeEPKcl");
extern "C" UNSEEN std::ostream& watched_write(std::ostream* s, const char* data, long n) {
  typedef std::ostream& (*Write)(std::ostream*, const char*, long);
  static const Write real = reinterpret_cast<Write>(dlsym(RTLD_NEXT, "_ZNSo5writeEPKcl"));
  if (s == &std::cout || s == &std::cerr || s == &std::clog)
    return real(s, data, n);
  if (!enter_stream(s))
    mc::fail("two threads write to the same log file at the same time");
  mc::point("writing to a stream");
  std::ostream& r = real(s, data, n);
  leave_stream(s);
  return r;
}

static const char g_file[] = "/b/vault/src/maidsafe/vault/x.cc";
static const char g_other_file[] = "/b/nfs/src/maidsafe/nfs/x.cc";

using maidsafe::log::Logging;

namespace {

std::string g_base, g_dir;
std::map<std::string, int> g_want;  // thread -> messages, in each log
bool g_nfs = false;

void judge();

void initialise(std::vector<std::string> args) {
  mc::at_process_exit(judge);
  g_dir = g_base + "/" + std::to_string(getpid());
  args.insert(args.begin(), "/bin/exe");
  args.push_back("--log_folder");
  args.push_back(g_dir);
  args.push_back("--log_config");
  args.push_back("/nonexistent");
  args.push_back("--log_no_console");
  std::vector<std::vector<char>> text;
  std::vector<char*> argv;
  for (auto& a : args) {
    text.emplace_back(a.begin(), a.end());
    text.back().push_back(0);
  }
  for (auto& t : text)
    argv.push_back(t.data());
  argv.push_back(nullptr);
  Logging::Instance().Initialise(static_cast<int>(args.size()), argv.data());
}

void log_vault(const std::string& who, int n) {
  maidsafe::log::detail::LogMessage(g_file, maidsafe::log::kInfo) = maidsafe::log::detail::OstreamBinder<void, void>() << ":1] " << who << " " << n;
}
void log_nfs(const std::string& who, int n) {
  maidsafe::log::detail::LogMessage(g_other_file, maidsafe::log::kInfo) = maidsafe::log::detail::OstreamBinder<void, void>() << ":1] " << who << " " << n;
}

// Reads with plain system calls, as streams may be in any state when the process ends.
std::string slurp(const std::string& path) {
  std::string out;
  if (FILE* f = fopen(path.c_str(), "r")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      out.append(b, n);
    fclose(f);
  }
  return out;
}

void check_log(const std::string& name, const std::string& log, const std::map<std::string, int>& want) {
  std::map<std::string, int> next;
  size_t at = 0;
  std::string order;
  while (at < log.size()) {
    const size_t end = log.find('\n', at);
    MC_CHECK(end != std::string::npos, "a cut message at the end of the " << name << " log");
    const std::string line = log.substr(at, end - at);
    at = end + 1;
    const size_t bracket = line.find("x.cc:1] ");
    MC_CHECK(line.compare(0, 2, "I ") == 0 && bracket != std::string::npos && line.find("x.cc", bracket + 1) == std::string::npos,
             "a damaged message in the " << name << " log: " << line);
    const std::string text = line.substr(bracket + 8);
    const size_t space = text.find(' ');
    const std::string who = text.substr(0, space);
    MC_CHECK(want.count(who), "an unexpected message in the " << name << " log: " << line);
    MC_CHECK(atoi(text.c_str() + space) == next[who], "message " << text << " in the " << name << " log is not in order");
    ++next[who];
    order += who;
  }
  for (auto& w : want)
    MC_CHECK(next[w.first] == w.second, "there are " << next[w.first] << " of " << w.second << " messages of " << w.first << " in the " << name << " log");
  mc::outcome(name + " " + order);
}

void judge() {
  std::map<std::string, std::string> logs;
  if (DIR* d = opendir(g_dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n.size() > 20)
        logs[n.substr(20)] = slurp(g_dir + "/" + n);
    }
    closedir(d);
  }
  vf::remove_tree(g_dir);
  std::map<std::string, int> vault, nfs;
  for (auto& w : g_want)
    (w.first[0] == 'n' ? nfs : vault)[w.first] = w.second;
  MC_CHECK(logs.count("vault.log") && logs.count("combined.log") && logs.count("nfs.log") && logs.size() == 3, "there are " << logs.size() << " logs");
  check_log("vault", logs["vault.log"], vault);
  check_log("nfs", logs["nfs.log"], nfs);
  check_log("combined", logs["combined.log"], g_want);
}

std::vector<std::string> args(bool async) {
  std::vector<std::string> a = {"--log_vault=v", "--log_nfs=v"};
  if (!async)
    a.push_back("--log_no_async");
  return a;
}

void two_threads(bool async, int each) {
  initialise(args(async));
  g_want = {{"a", each}, {"b", each}};
  std::thread t([=] {
    for (int i = 0; i < each; ++i)
      log_vault("a", i);
  });
  for (int i = 0; i < each; ++i)
    log_vault("b", i);
  t.join();
  exit(0);
}
void two_projects(bool async) {
  initialise(args(async));
  g_want = {{"a", 2}, {"n", 2}};
  std::thread t([=] {
    for (int i = 0; i < 2; ++i)
      log_vault("a", i);
  });
  for (int i = 0; i < 2; ++i)
    log_nfs("n", i);
  t.join();
  exit(0);
}
void three_threads(bool async) {
  initialise(args(async));
  g_want = {{"a", 1}, {"b", 1}, {"n", 1}};
  std::thread t([=] { log_vault("a", 0); }), u([=] { log_nfs("n", 0); });
  log_vault("b", 0);
  t.join();
  u.join();
  exit(0);
}
// The process ends right after the statements.
void at_the_end() {
  initialise(args(true));
  g_want = {{"a", 4}, {"n", 1}};
  for (int i = 0; i < 3; ++i)
    log_vault("a", i);
  log_nfs("n", 0);
  log_vault("a", 3);
  exit(0);
}
// A task of the background thread logs.
void from_the_background() {
  initialise(args(true));
  g_want = {{"a", 2}, {"b", 2}};
  log_vault("a", 0);
  std::thread t([] {
    log_vault("b", 0);
    Logging::Instance().Flush();
    log_vault("b", 1);
  });
  log_vault("a", 1);
  t.join();
  exit(0);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  vf::ScratchDir dir;
  g_base = dir.path;
  auto s = [](const char* name, std::function<void()> body, int q, int t) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    return x;
  };
  return mc::run(argc, argv,
                 {s("two threads, background", [] { two_threads(true, 2); }, 2, 3), s("two threads, synchronous", [] { two_threads(false, 2); }, 2, 4),
                  s("two projects, background", [] { two_projects(true); }, 2, 3), s("two projects, synchronous", [] { two_projects(false); }, 2, 4),
                  s("three threads, background", [] { three_threads(true); }, 2, 3), s("three threads, synchronous", [] { three_threads(false); }, 2, 4),
                  s("at the end", at_the_end, 3, 5), s("flushing", from_the_background, 2, 3)});
}

// C44: threads which log while the background thread writes and the process ends.
#include <dirent.h>
#include <stdlib.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/log.h"

#include "common/scratch_dir.h"
#include "mc/mc.h"

// Writing to the console is a step of its own.
#include <dlfcn.h>
#include <stdarg.h>
extern "C" int printf(const char* format, ...) {
  va_list l;
  va_start(l, format);
  mc::point("printing");
  const int n = vfprintf(stdout, format, l);
  va_end(l);
  return n;
}
extern "C" int __printf_chk(int, const char* format, ...) {
  va_list l;
  va_start(l, format);
  mc::point("printing");
  const int n = vfprintf(stdout, format, l);
  va_end(l);
  return n;
}
extern "C" size_t fwrite(const void* data, size_t size, size_t n, FILE* f) {
  typedef size_t (*Fn)(const void*, size_t, size_t, FILE*);
  static const Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "fwrite"));
  if (f == stdout)
    mc::point("printing");
  return real(data, size, n, f);
}
extern "C" int fputs(const char* text, FILE* f) {
  typedef int (*Fn)(const char*, FILE*);
  static const Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "fputs"));
  if (f == stdout)
    mc::point("printing");
  return real(text, f);
}
static const char g_file[] = "/b/vault/src/maidsafe/vault/x.cc";
static const char g_other_file[] = "/b/nfs/src/maidsafe/nfs/x.cc";

using maidsafe::log::Logging;

namespace {

std::string g_base, g_dir;
std::map<std::string, int> g_want;  // thread -> messages, in each log
bool g_nfs = false;

void judge();

void initialise(std::vector<std::string> args) {
  mc::at_process_exit(judge);
  g_dir = g_base + "/" + std::to_string(getpid());
  args.insert(args.begin(), "/bin/exe");
  args.push_back("--log_folder");
  args.push_back("");
  const int out = ::open((g_dir + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (out < 0 || ::dup2(out, 1) != 1)
    mc::fail("no output");
  args.push_back("--log_config");
  args.push_back("/nonexistent");
  std::vector<std::vector<char>> text;
  std::vector<char*> argv;
  for (auto& a : args) {
    text.emplace_back(a.begin(), a.end());
    text.back().push_back(0);
  }
  for (auto& t : text)
    argv.push_back(t.data());
  argv.push_back(nullptr);
  Logging::Instance().Initialise(static_cast<int>(args.size()), argv.data());
}

void log_vault(const std::string& who, int n) {
  maidsafe::log::detail::LogMessage(g_file, maidsafe::log::kInfo) = maidsafe::log::detail::OstreamBinder<void, void>() << ":1] " << who << " " << n;
}
void log_nfs(const std::string& who, int n) {
  maidsafe::log::detail::LogMessage(g_other_file, maidsafe::log::kInfo) = maidsafe::log::detail::OstreamBinder<void, void>() << ":1] " << who << " " << n;
}

// Reads with plain system calls, as streams may be in any state when the process ends.
std::string slurp(const std::string& path) {
  std::string out;
  if (FILE* f = fopen(path.c_str(), "r")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      out.append(b, n);
    fclose(f);
  }
  return out;
}

void check_log(const std::string& name, const std::string& log, const std::map<std::string, int>& want) {
  std::map<std::string, int> next;
  size_t at = 0;
  std::string order;
  while (at < log.size()) {
    const size_t end = log.find('\n', at);
    MC_CHECK(end != std::string::npos, "a cut message at the end of the " << name << " log");
    const std::string line = log.substr(at, end - at);
    at = end + 1;
    const size_t bracket = line.find("x.cc:1] ");
    MC_CHECK(line.compare(0, 2, "I ") == 0 && bracket != std::string::npos && line.find("x.cc", bracket + 1) == std::string::npos,
             "a damaged message in the " << name << " log: " << line);
    const std::string text = line.substr(bracket + 8);
    const size_t space = text.find(' ');
    const std::string who = text.substr(0, space);
    MC_CHECK(want.count(who), "an unexpected message in the " << name << " log: " << line);
    MC_CHECK(atoi(text.c_str() + space) == next[who], "message " << text << " in the " << name << " log is not in order");
    ++next[who];
    order += who;
  }
  for (auto& w : want)
    MC_CHECK(next[w.first] == w.second, "there are " << next[w.first] << " of " << w.second << " messages of " << w.first << " in the " << name << " log");
  mc::outcome(name + " " + order);
}

void judge() {
  const std::string shown = slurp(g_dir + ".out");
  ::unlink((g_dir + ".out").c_str());
  check_log("console", shown, g_want);
}

std::vector<std::string> args(bool async, int mode) {
  std::vector<std::string> a = {"--log_vault=v", "--log_nfs=v", "--log_colour_mode", std::to_string(mode)};
  if (!async)
    a.push_back("--log_no_async");
  return a;
}

void two_threads(bool async, int mode, int each) {
  initialise(args(async, mode));
  g_want = {{"a", each}, {"b", each}};
  std::thread t([=] {
    for (int i = 0; i < each; ++i)
      log_vault("a", i);
  });
  for (int i = 0; i < each; ++i)
    log_vault("b", i);
  t.join();
  exit(0);
}
void three_threads(bool async, int mode) {
  initialise(args(async, mode));
  g_want = {{"a", 1}, {"b", 1}, {"n", 1}};
  std::thread t([=] { log_vault("a", 0); }), u([=] { log_nfs("n", 0); });
  log_vault("b", 0);
  t.join();
  u.join();
  exit(0);
}
void at_the_end() {
  initialise(args(true, 1));
  g_want = {{"a", 4}, {"n", 1}};
  for (int i = 0; i < 3; ++i)
    log_vault("a", i);
  log_nfs("n", 0);
  log_vault("a", 3);
  exit(0);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  vf::ScratchDir dir;
  g_base = dir.path;
  auto s = [](const char* name, std::function<void()> body, int q, int t) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    return x;
  };
  return mc::run(argc, argv,
                 {s("two threads, synchronous", [] { two_threads(false, 1, 1); }, 2, 4), s("two threads, synchronous, no colour", [] { two_threads(false, 0, 1); }, 2, 4),
                  s("two threads, synchronous, full colour", [] { two_threads(false, 2, 1); }, 2, 4), s("two threads, background", [] { two_threads(true, 1, 2); }, 2, 3),
                  s("three threads, synchronous", [] { three_threads(false, 1); }, 2, 4), s("three threads, background", [] { three_threads(true, 2); }, 2, 3),
                  s("at the end", at_the_end, 3, 5)});
}

// C30: command lines, running processes, paths of other executables.
#include <grp.h>
#include <sys/stat.h>

#include <cstring>
#include <string>
#include <vector>

#include "boost/filesystem.hpp"

#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/process.h"

#include "common/child.h"
#include "common/fake_exe.h"
#include "common/limit_new.h"
#include "common/vf.h"

namespace {
namespace process = maidsafe::process;
namespace fs = boost::filesystem;

bool is_quoted(const std::string& s) { return s.size() >= 2 && s.front() == '"' && s.back() == '"'; }

std::string reference(const std::vector<std::string>& args) {
  if (args.empty())
    return "";
  std::string line = is_quoted(args[0]) ? args[0] : '"' + args[0] + '"';
  for (size_t i = 1; i < args.size(); ++i)
    if (!args[i].empty())
      line += ' ' + args[i];
  return line;
}
// white-space separated words, double quotes group
std::vector<std::string> split(const std::string& line) {
  std::vector<std::string> words;
  std::string word;
  bool in = false, any = false;
  for (char c : line) {
    if (c == '"') {
      in = !in;
      any = true;
    } else if (!in && c == ' ') {
      if (any)
        words.push_back(word);
      word.clear();
      any = false;
    } else {
      word += c;
      any = true;
    }
  }
  if (any)
    words.push_back(word);
  return words;
}
std::string show(const std::vector<std::string>& args) {
  std::string s = "{";
  for (const auto& a : args)
    s += (s.size() > 1 ? ", " : "") + vf::show(a);
  return s + "}";
}
void line(const std::vector<std::string>& args) {
  const std::string got = process::ConstructCommandLine(args), want_line = reference(args);
  VF_CHECK(got == want_line || (args.size() && got == want_line + ' '),  // a blank at the end separates nothing
           "command line of " << show(args) << " is " << vf::show(got));
  bool plain = true;
  for (size_t i = 0; i < args.size(); ++i)
    plain = plain && (i == 0 || args[i].find_first_of(" \"\t") == std::string::npos) &&
            (is_quoted(args[0]) || args[0].find('"') == std::string::npos) && !args[i].empty();
  if (plain) {
    auto want = args;
    if (!want.empty() && is_quoted(want[0]))
      want[0] = want[0].substr(1, want[0].size() - 2);
    VF_CHECK(split(got) == want, "splitting " << vf::show(got) << " gives " << show(split(got)));
  }
  ++vf::transitions;
  vf::outcome(vf::hash_str(want_line));
}
void lines() {
  const std::vector<std::string> first = {"a", "/usr/bin/x", "my exe", "\"quoted exe\"", "\"q\"", "", " ", "a\"b", "\"\"", "x.exe", "./-"};
  const std::vector<std::string> rest = {"a", "", "--opt=1", "two words", "\"quoted arg\"", " ", "x  y", "\"", "\\", "'s'", "\n", "*"};
  if (vf::single())
    line({});
  std::vector<std::string> args;
  const size_t depth = vf::thorough ? 5 : 4;
  std::function<void()> more = [&] {
    line(args);
    if (args.size() > depth)
      return;
    for (const auto& a : rest) {
      args.push_back(a);
      more();
      args.pop_back();
    }
  };
  for (const auto& f : first)
    for (const auto& r : rest) {
      args = {f};
      if (&r == &rest[0] && vf::single())
        line(args);
      args.push_back(r);
      if (vf::take())
        more();
    }
  // every byte in an argument, and long lists
  for (unsigned c = 1; c < 256; ++c) {
    if (!vf::take())
      continue;
    const std::string s(1, static_cast<char>(c));
    if (c != '"')
      line({s, "b"});
    line({"a", s});
    line({"a", s, s});
    line({"a", "x" + s + "y", "b"});
  }
  for (size_t n = 1; n < 300; ++n)
    if (vf::take()) {
      std::vector<std::string> many(n, std::string(n % 7, 'v'));
      many[0] = "exe";
      line(many);
    }
  if (vf::single())
    vf::sample("{\"my exe\", \"\", \"two words\"} -> \"my exe\" two words");
}

bool running(pid_t pid) { return process::IsRunning(pid); }
void wait_state(pid_t pid, int options) {
  siginfo_t info;
  VF_CHECK(waitid(P_PID, static_cast<id_t>(pid), &info, options | WNOWAIT) == 0, "waitid");
}
// every path through: running -> (stopped -> continued)* -> dead, not yet waited for -> gone
void lives() {
  if (!vf::single())
    return;
  VF_CHECK(process::GetProcessId() == static_cast<process::ProcessId>(getpid()), "own process id");
  VF_CHECK(running(getpid()) && running(getppid()), "this process is running");
  for (int stops = 0; stops < 3; ++stops)
    for (int end : {0, 1, int(SIGKILL), int(SIGTERM)}) {
      int p[2];
      VF_CHECK(pipe(p) == 0, "pipe");
      const pid_t pid = fork();
      if (pid == 0) {
        close(p[1]);
        char c;
        signal(SIGTERM, SIG_DFL);
        (void)!read(p[0], &c, 1);
        _exit(end);
      }
      close(p[0]);
      VF_CHECK(running(pid), "a child is running");
      for (int s = 0; s < stops; ++s) {
        kill(pid, SIGSTOP);
        wait_state(pid, WSTOPPED);
        VF_CHECK(running(pid), "a stopped child exists");
        kill(pid, SIGCONT);
        VF_CHECK(running(pid), "a continued child is running");
      }
      if (end > 1)
        kill(pid, end);
      close(p[1]);
      wait_state(pid, WEXITED);
      VF_CHECK(running(pid), "a child which was not waited for exists");
      int status;
      waitpid(pid, &status, 0);
      bool reused = false;  // unless the number is taken again at once
      struct stat st;
      reused = stat(("/proc/" + std::to_string(pid)).c_str(), &st) == 0;
      VF_CHECK(reused || !running(pid), "a child which was waited for does not exist");
      vf::transitions += 5 + 2 * stops;
      ++vf::histories;
    }
  // all numbers, compared with the list of processes
  auto exists = [](pid_t pid) {
    struct stat st;
    return stat(("/proc/" + std::to_string(pid)).c_str(), &st) == 0;
  };
  auto compare = [&](pid_t pid) {
    const bool before = exists(pid);
    std::string got;
    try {
      got = running(pid) ? "running" : "not running";
    } catch (const maidsafe::maidsafe_error&) {
      got = "error";
    }
    const bool after = exists(pid);
    if (before == after && before)
      VF_CHECK(got == "running" || got == "error", "process " << pid << " exists, but is " << got);
    if (before == after && !before)
      VF_CHECK(got == "not running", "process " << pid << " does not exist, but there is: " << got);
    ++vf::transitions;
  };
  for (pid_t pid = 1; pid < 40000; ++pid)
    compare(pid);
  for (pid_t pid : {4194303, 4194304, 4194305, 0x7fffffff})
    compare(pid);
  // a process of another user
  if (geteuid() == 0) {
    const pid_t parent = getpid();
    const auto r = vf::in_child([parent]() -> std::string {
      if (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0)
        return "skip";
      try {
        return running(parent) ? "running" : "not running";
      } catch (const maidsafe::maidsafe_error&) {
        return "error";
      }
    });
    VF_CHECK(r.exited() && (r.text == "skip" || r.text == "running" || r.text == "error"),
             "another user's process: " << r.text << " (" << r.how() << ")");
    vf::info("a process of another user is reported as: " + r.text);
  }
}

void others() {
  const std::vector<std::string> dirs = {"/", "/usr/bin/", "/a b/", "/x.y/", "/.hidden/", "/one/two/three/"};
  const std::vector<std::string> stems = {"exe", "a", "my exe", "-"};
  const std::vector<std::string> extensions = {"", ".exe", ".x", ".1"};
  const std::vector<std::string> names = {"vault", "b", "two words", "_"};
  for (const auto& d : dirs)
    for (const auto& s : stems)
      for (const auto& e : extensions) {
        if (!vf::take())
          continue;
        const auto r = vf::in_child([&]() -> std::string {
          std::string text;
          try {
            process::GetOtherExecutablePath("early");
            return "no error before the path is set";
          } catch (const maidsafe::maidsafe_error& error) {
            if (error.code() != maidsafe::make_error_code(maidsafe::CommonErrors::uninitialised))
              return "wrong error before the path is set";
          }
          vf::fake_exe().active = true;
          vf::fake_exe().answer = d + s + e;
          const char* const argv[] = {"given", nullptr};
          maidsafe::SetThisExecutablePath(argv);
          vf::fake_exe().active = false;
          for (const auto& n : names)
            text += process::GetOtherExecutablePath(n).string() + "|";
          return text;
        });
        std::string want;
        for (const auto& n : names)
          want += d + n + e + "|";
        VF_CHECK(r.exited() && r.text == want, "other executables of " << d + s + e << ": " << r.text << ", expected "
                                                                       << want << " (" << r.how() << ")");
        vf::transitions += names.size();
        ++vf::histories;
        vf::outcome(vf::hash_str(want));
      }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"lines", lines}, {"lives", lives}, {"others", others}});
}

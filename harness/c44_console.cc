// C44: what a process which logs shows on its console, a file or a terminal.  Each case runs in a process of its own and
// leaves it through exit().
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pty.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>

#include <fstream>
#include <algorithm>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "maidsafe/common/log.h"

#include "common/child.h"
#include "common/vf.h"

static const char* g_file = "";
#undef __FILE__
#define __FILE__ g_file

using maidsafe::log::Logging;

namespace {

typedef std::vector<std::string> Strings;

void log_at(int level, const char* file, const std::string& text) {
  g_file = file;
  switch (level) {
    case 0: LOG(kVerbose) << text; break;
    case 1: LOG(kInfo) << text; break;
    case 2: LOG(kSuccess) << text; break;
    case 3: LOG(kWarning) << text; break;
    case 4: LOG(kError) << text; break;
    case 5: LOG(kAlways) << text; break;
  }
}
const char* const kColours[] = {"6", nullptr, "2", "3", "1", nullptr};  // of the levels

struct Message {
  int level;
  std::string text;
};

void initialise(Strings all) {
  all.insert(all.begin(), "/bin/exe");
  all.push_back("--log_config");
  all.push_back("/nonexistent");
  std::vector<std::vector<char>> text;
  std::vector<char*> argv;
  for (auto& a : all) {
    text.emplace_back(a.begin(), a.end());
    text.back().push_back(0);
  }
  for (auto& t : text)
    argv.push_back(t.data());
  argv.push_back(nullptr);
  Logging::Instance().Initialise(static_cast<int>(all.size()), argv.data());
}

// The contents of the only log file, which is removed.
std::string logged(const std::string& dir, size_t& files) {
  std::string out;
  files = 0;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      if (e->d_name[0] == '.')
        continue;
      ++files;
      std::ifstream f(dir + "/" + e->d_name, std::ios::binary);
      std::ostringstream os;
      os << f.rdbuf();
      out += os.str();
      ::unlink((dir + "/" + e->d_name).c_str());
    }
    closedir(d);
    ::rmdir(dir.c_str());
  }
  return out;
}

// The entries of the log, as the messages split it: heading, and text with the end of line.
std::vector<std::pair<std::string, std::string>> entries(const std::string& log, const std::vector<Message>& messages, const std::string& where) {
  std::vector<std::pair<std::string, std::string>> out;
  size_t at = 0;
  for (auto& m : messages) {
    // level, thread, date and time
    size_t end = at;
    for (int blank = 0; blank < 3; ++blank) {
      end = log.find(' ', end);
      VF_CHECK(end != std::string::npos, where << ": the log file ends early");
      ++end;
    }
    end = log.find_first_not_of("0123456789:.", end);
    VF_CHECK(end != std::string::npos, where << ": the log file ends early");
    const size_t text = log.find("] ", end);
    VF_CHECK(text != std::string::npos && log.compare(text + 2, m.text.size() + 1, m.text + "\n") == 0,
             where << ": the log file does not hold " << vf::show(m.text.substr(0, 50)));
    out.emplace_back(log.substr(at, end - at), log.substr(end, text + 3 + m.text.size() - end));
    at = text + 3 + m.text.size();
  }
  VF_CHECK(at == log.size(), where << ": the log file holds more");
  return out;
}

enum class Kind { kFile, kTerminal, kFull };
const char* const kKinds[] = {"a file", "a terminal", "a full device"};

void check(Kind kind, int mode, bool async, const char* term, bool console, const std::vector<Message>& messages) {
  static int n = 0;
  const std::string dir = vf::scratch + "/c" + std::to_string(n++);
  std::ostringstream where_is;
  where_is << messages.size() << " messages, colour mode " << mode << (async ? "" : ", synchronous") << ", TERM " << (term ? term : "unset") << " on "
           << kKinds[static_cast<int>(kind)] << (console ? "" : ", console off");
  const std::string where = where_is.str();
  int master = -1, out = -1;
  if (kind == Kind::kTerminal) {
    termios raw;
    int slave;
    VF_CHECK(openpty(&master, &slave, nullptr, nullptr, nullptr) == 0, "no terminal");
    tcgetattr(slave, &raw);
    cfmakeraw(&raw);
    tcsetattr(slave, TCSANOW, &raw);
    out = slave;
  } else if (kind == Kind::kFile) {
    out = ::open((dir + ".out").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
  } else if (kind == Kind::kFull) {
    out = ::open("/dev/full", O_WRONLY);
  }
  std::string shown;
  pid_t reader = -1;
  if (kind == Kind::kTerminal) {  // a process which reads what is shown until nobody has the terminal any more
    reader = ::fork();
    VF_CHECK(reader >= 0, "no process");
    if (reader == 0) {
      ::close(out);
      const int to = ::open((dir + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      char b[4096];
      ssize_t n_read;
      while ((n_read = ::read(master, b, sizeof b)) > 0 || (n_read < 0 && errno == EINTR))
        if (n_read > 0 && ::write(to, b, static_cast<size_t>(n_read)) != n_read)
          ::_exit(1);
      ::_exit(0);
    }
    ::close(master);
  }
  auto r = vf::in_child(
      [&]() -> std::string {
        if (term)
          ::setenv("TERM", term, 1);
        else
          ::unsetenv("TERM");
        if (::dup2(out, 1) != 1)
          return "no output";
        Strings arguments = {"--log_colour_mode", std::to_string(mode), "--log_vault=V", "--log_folder", dir};
        if (!async)
          arguments.push_back("--log_no_async");
        if (!console)
          arguments.push_back("--log_no_console");
        initialise(arguments);
        for (auto& m : messages)
          log_at(m.level, "/x/vault/src/maidsafe/vault/f.cc", m.text);
        return "";
      },
      true, 20);
  if (out >= 0)
    ::close(out);
  if (reader > 0)
    while (::waitpid(reader, nullptr, 0) < 0 && errno == EINTR) {
    }
  VF_CHECK(r.exited() && r.text.empty(), where << ": the process " << r.how() << " " << r.text);
  if (kind == Kind::kFile || kind == Kind::kTerminal) {
    std::ifstream f(dir + ".out", std::ios::binary);
    std::ostringstream os;
    os << f.rdbuf();
    shown = os.str();
    ::unlink((dir + ".out").c_str());
  }
  size_t files;
  const std::string log = logged(dir, files);
  VF_CHECK(files == 1, where << ": there are " << files << " log files");
  const auto parts = entries(log, messages, where);
  std::string want;
  static const std::vector<std::string> coloured = {"xterm", "xterm-color", "xterm-256color", "screen", "linux", "cygwin"};
  const bool colours = kind == Kind::kTerminal && term && std::count(coloured.begin(), coloured.end(), term);
  for (size_t i = 0; console && i < messages.size(); ++i) {
    const char* colour = colours && mode != 0 ? kColours[messages[i].level] : nullptr;
    const std::string on = colour ? std::string("\033[0;3") + colour + "m" : std::string(), off = colour ? "\033[m" : "";
    want += on + parts[i].first + (mode == 1 ? off : "") + parts[i].second + (mode == 1 ? "" : off);
  }
  if (kind == Kind::kFile || kind == Kind::kTerminal)
    VF_CHECK(shown == want, where << ": shows " << vf::show(shown.substr(0, 400)) << " instead of " << vf::show(want.substr(0, 400)));
  vf::outcome(vf::hash_str(where + std::to_string(want.size())));
  vf::state(vf::hash_str(where));
  vf::transitions += messages.size();
  ++vf::histories;
}

const char* const kTerms[] = {"xterm", "xterm-color", "xterm-256color", "screen", "linux", "cygwin", "dumb", "", "xterm-mono", nullptr};

// Every kind of console, with all pairs of levels.
void consoles() {
  for (int kind = 0; kind < 3; ++kind)
    for (int mode = 0; mode < 3; ++mode)
      for (int async = 0; async < 2; ++async)
        for (auto* term : kTerms)
          for (int console = 0; console < 2; ++console) {
            if (!vf::take())
              continue;
            std::vector<Message> m;
            for (int a = 0; a < 6; ++a)
              for (int b = 0; b < 6; ++b) {
                m.push_back({a, "first"});
                m.push_back({b, "second"});
              }
            check(static_cast<Kind>(kind), mode, async != 0, term, console != 0, m);
          }
}

// Texts of all bytes and many sizes.
void texts() {
  for (int kind = 0; kind < 2; ++kind)
    for (int mode = 0; mode < 3; ++mode)
      for (int async = 0; async < 2; ++async) {
        for (int first = 0; first < 256; first += 16) {
          if (!vf::take())
            continue;
          std::vector<Message> m;
          for (int c = first; c < first + 16; ++c) {
            m.push_back({c % 6, std::string(1, static_cast<char>(c))});
            m.push_back({(c + 1) % 6, std::string("a") + static_cast<char>(c) + "b"});
            m.push_back({(c + 2) % 6, std::string(2, static_cast<char>(c))});
          }
          check(static_cast<Kind>(kind), mode, async != 0, "xterm", true, m);
        }
        for (size_t size : {0u, 1u, 10u, 1000u, 4095u, 4096u, 4097u, 10000u, 100000u}) {
          if (!vf::take())
            continue;
          check(static_cast<Kind>(kind), mode, async != 0, "xterm", true, {{3, std::string(size, 'x')}, {1, "%s%n%d"}, {0, std::string(size, '%')}});
        }
        for (int count : {0, 1, 2, 100, 1000}) {
          if (!vf::take())
            continue;
          std::vector<Message> m;
          for (int i = 0; i < count; ++i)
            m.push_back({i % 6, "message " + std::to_string(i)});
          check(static_cast<Kind>(kind), mode, async != 0, "linux", true, m);
        }
      }
}
}  // unnamed namespace

int main(int argc, char** argv) { return vf::run(argc, argv, {{"consoles", consoles}, {"texts", texts}}); }

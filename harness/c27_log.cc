// C27: what a process which logs leaves in its log files.  Each case runs in a process of its own and leaves it
// through exit().
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "maidsafe/common/log.h"

#include "common/child.h"
#include "common/vf.h"

static const char* g_file = "";
#undef __FILE__
#define __FILE__ g_file

using maidsafe::log::Logging;

namespace {
bool g_fixed_clock = false;
timespec g_now;
}  // namespace
extern "C" int clock_gettime(clockid_t id, timespec* ts) {
  if (id == CLOCK_REALTIME && g_fixed_clock) {
    *ts = g_now;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

namespace {

const std::vector<std::string> kProjects = {"api", "common", "crux", "drive", "encrypt", "launcher", "nfs", "passport", "routing", "vault",
                                            "vault_manager"};
const char kLetters[] = "VISWEA";
const std::vector<std::vector<std::string>> kSpellings = {{"v", "verbose", "kVerbose", "-1"}, {"i", "info", "kInfo", "0"},
                                                          {"s", "success", "kSuccess", "1"}, {"w", "warning", "kWarning", "2"},
                                                          {"e", "error", "kError", "3"},     {"a", "always", "kAlways", "4"}};

int g_line = 0;
// One statement for each level; returns its line.
template <typename T>
int log_at(int level, const char* file, const T& text) {
  g_file = file;
  switch (level) {
    case 0: g_line = __LINE__; LOG(kVerbose) << text; break;
    case 1: g_line = __LINE__; LOG(kInfo) << text; break;
    case 2: g_line = __LINE__; LOG(kSuccess) << text; break;
    case 3: g_line = __LINE__; LOG(kWarning) << text; break;
    case 4: g_line = __LINE__; LOG(kError) << text; break;
    case 5: g_line = __LINE__; LOG(kAlways) << text; break;
  }
  return g_line;
}

void remove_all(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      const std::string p = dir + "/" + n;
      if (unlink(p.c_str()) != 0)
        remove_all(p);
    }
    closedir(d);
    rmdir(dir.c_str());
  }
}
std::string slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::ostringstream os;
  os << f.rdbuf();
  return os.str();
}

// The log files of a folder by the part of the name behind the time: "combined", "vault", ...
std::map<std::string, std::string> files(const std::string& dir, const std::string& where) {
  std::map<std::string, std::string> out;
  static const std::regex form("\\d{4}-\\d\\d-\\d\\d_\\d\\d-\\d\\d-\\d\\d_(\\w+)\\.log");
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      std::smatch m;
      VF_CHECK(std::regex_match(n, m, form), where << ": unexpected file " << n);
      VF_CHECK(!out.count(m[1]), where << ": two files for " << m[1]);
      out[m[1]] = slurp(dir + "/" + n);
    }
    closedir(d);
  }
  return out;
}

struct Line {
  char level;
  std::string file, text, when;
  int line;
};
// Splits one entry off a log.
bool entry(const std::string& log, size_t& from, const std::string& text, Line& out, std::string& why) {
  static const std::regex head("^([A-Z]) ([0-9a-fx]+) (\\d{4}-\\d\\d-\\d\\d \\d\\d:\\d\\d:\\d\\d\\.\\d{9}) ([^:]*):(\\d+)\\] ");
  std::smatch m;
  const std::string start = log.substr(from, 400);
  if (!std::regex_search(start, m, head)) {
    why = "not the beginning of an entry: " + vf::show(start.substr(0, 100));
    return false;
  }
  out.level = m[1].str()[0];
  out.when = m[3];
  out.file = m[4];
  out.line = std::stoi(m[5]);
  from += static_cast<size_t>(m.length());
  if (log.compare(from, text.size(), text) != 0 || log.compare(from + text.size(), 1, "\n") != 0) {
    why = "not the text " + vf::show(text.substr(0, 60)) + " but " + vf::show(log.substr(from, std::min<size_t>(text.size() + 10, 100)));
    return false;
  }
  from += text.size() + 1;
  out.text = text;
  return true;
}

struct Message {
  int level;
  std::string project, path, file, text;
  int line;
};

struct Config {
  std::vector<std::string> args;
  std::string ini;  // contents of the configuration file
  bool keep_console = false;
  std::map<std::string, int> filter;  // project -> level
  std::vector<Message> before;        // logged before logging has been initialised
  std::string name() const {
    std::string s;
    if (!before.empty())
      s = std::to_string(before.size()) + " messages, then ";
    for (auto& a : args)
      s += a + " ";
    return s + (ini.empty() ? "" : "with the file " + vf::show(ini));
  }
};

std::string g_dir;  // of the current case
std::string new_dir() {
  static int n = 0;
  g_dir = vf::scratch + "/logs" + std::to_string(n++);
  return g_dir;
}

// Initialises logging in this (child) process.
void initialise(const Config& c, const std::string& folder) {
  std::vector<std::string> all = {"/bin/exe"};
  all.insert(all.end(), c.args.begin(), c.args.end());
  all.push_back("--log_folder");
  all.push_back(folder);
  all.push_back("--log_config");
  all.push_back(vf::scratch + "/config.ini");
  if (!c.keep_console)
    all.push_back("--log_no_console");
  {
    std::ofstream f(vf::scratch + "/config.ini", std::ios::trunc);
    f << c.ini;
  }
  std::vector<std::vector<char>> text;
  std::vector<char*> argv;
  for (auto& a : all) {
    text.emplace_back(a.begin(), a.end());
    text.back().push_back(0);
  }
  for (auto& t : text)
    argv.push_back(t.data());
  argv.push_back(nullptr);
  if (!freopen("/dev/null", "w", stdout))
    vf::fail("no /dev/null");
  Logging::Instance().Initialise(static_cast<int>(all.size()), argv.data());
}

// The files are to hold exactly the messages which pass the filter.
void judge(const Config& c, const std::vector<Message>& messages, const std::string& where, const std::string* when = nullptr) {
  auto got = files(g_dir, where);
  std::map<std::string, std::vector<const Message*>> want;
  for (auto& f : c.filter)
    want[f.first];
  if (c.filter.size() != 1)
    want["combined"];
  for (auto& m : messages) {
    auto f = c.filter.find(m.project);
    if (f == c.filter.end() || f->second > m.level)
      continue;
    want[m.project].push_back(&m);
    if (c.filter.size() != 1)
      want["combined"].push_back(&m);
  }
  for (auto& w : want) {
    VF_CHECK(got.count(w.first), where << ": there is no file for " << w.first);
    const std::string& log = got[w.first];
    size_t at = 0;
    int n = 0;
    for (auto* m : w.second) {
      Line l;
      std::string why;
      VF_CHECK(entry(log, at, m->text, l, why), where << ": message " << n << " of the " << w.first << " log: " << why);
      VF_CHECK(l.level == kLetters[m->level] && l.file == m->file && l.line == m->line,
               where << ": message " << n << " of the " << w.first << " log is headed " << l.level << " " << l.file << ":" << l.line << " instead of "
                     << kLetters[m->level] << " " << m->file << ":" << m->line);
      if (when)
        VF_CHECK(l.when == *when, where << ": the time is " << l.when << " instead of " << *when);
      ++n;
    }
    VF_CHECK(at == log.size(), where << ": the " << w.first << " log holds more: " << vf::show(log.substr(at, 100)));
    vf::transitions += static_cast<uint64_t>(n);
  }
  for (auto& g : got)
    VF_CHECK(want.count(g.first), where << ": unexpected log for " << g.first);
}

std::string path_of(const std::string& project) { return "/build/" + project + "/src/maidsafe/" + project + "/some_file.cc"; }

// Logs the messages in a child with this configuration and judges its files.
void check(const Config& c, std::vector<Message> messages, bool judge_them = true, const timespec* now = nullptr, const std::string* when = nullptr) {
  const std::string dir = new_dir();
  const std::string where = c.name();
  // the lines of the statements
  auto r = vf::in_child(
      [&]() -> std::string {
        if (now) {
          g_now = *now;
          g_fixed_clock = true;
        }
        for (auto& m : c.before)
          log_at(m.level, m.path.c_str(), m.text);
        initialise(c, dir);
        std::string lines;
        for (auto& m : messages)
          lines += std::to_string(log_at(m.level, m.path.c_str(), m.text)) + " ";
        return lines;
      },
      true, 20);
  VF_CHECK(r.exited(), where << ": the process " << r.how() << " " << r.text);
  std::istringstream is(r.text);
  for (auto& m : messages)
    is >> m.line;
  if (judge_them)
    judge(c, messages, where, when);
  remove_all(dir);
  vf::outcome(vf::hash_str(where));
  ++vf::histories;
}

std::vector<Message> everything() {
  std::vector<Message> out;
  for (auto& p : kProjects)
    for (int level = 0; level < 6; ++level)
      out.push_back({level, p, path_of(p), p + "/some_file.cc", p + " at " + std::to_string(level), 0});
  for (int level = 0; level < 6; ++level)
    out.push_back({level, "unknown", path_of("unknown"), "unknown/some_file.cc", "of an unknown project", 0});
  return out;
}

const std::vector<std::vector<std::string>> kModes = {{}, {"--log_no_async"}, {"--log_colour_mode", "0"}, {"--log_colour_mode", "2", "--log_no_async"}};

// One project at each level.
void one_project() {
  for (auto& p : kProjects)
    for (int level = 0; level < 6; ++level)
      for (size_t mode = 0; mode < (vf::thorough ? kModes.size() : 2); ++mode) {
        if (!vf::take())
          continue;
        Config c;
        c.args = kModes[mode];
        c.args.push_back("--log_" + p);
        c.args.push_back(kSpellings[static_cast<size_t>(level)][0]);
        c.filter[p] = level;
        check(c, everything());
      }
}
// Every spelling of a level, for all projects, on the command line and in the file.
void spellings() {
  for (size_t level = 0; level < 6; ++level)
    for (auto& s : kSpellings[level])
      for (int letters = 0; letters < 3; ++letters)
        for (int from_file = 0; from_file < 2; ++from_file)
          for (int all = 0; all < 2; ++all) {
            if (!vf::take())
              continue;
            std::string t = s;
            if (letters)
              for (size_t i = 0; i < t.size(); ++i)
                t[i] = static_cast<char>(letters == 1 || i % 2 == 0 ? toupper(t[i]) : tolower(t[i]));
            Config c;
            const std::string option = all ? "log_*" : "log_vault";
            if (from_file)
              c.ini = option + "=" + t + "\n";
            else
              c.args = {"--" + option + "=" + t};
            if (all)
              for (auto& p : kProjects)
                c.filter[p] = static_cast<int>(level);
            else
              c.filter["vault"] = static_cast<int>(level);
            check(c, everything());
          }
}
// Two projects and their levels.
void two_projects() {
  for (int a = 0; a < 6; ++a)
    for (int b = 0; b < 6; ++b)
      for (size_t mode = 0; mode < kModes.size(); ++mode) {
        if (!vf::take())
          continue;
        Config c;
        c.args = kModes[mode];
        c.args.push_back("--log_vault");
        c.args.push_back(kSpellings[static_cast<size_t>(a)][1]);
        c.args.push_back("--log_vault_manager");
        c.args.push_back(kSpellings[static_cast<size_t>(b)][2]);
        c.filter["vault"] = a;
        c.filter["vault_manager"] = b;
        check(c, everything());
      }
}
// No project at all, and a console.
void modes() {
  for (size_t mode = 0; mode < kModes.size(); ++mode)
    for (int console = 0; console < 2; ++console)
      for (int projects = 0; projects < 3; ++projects) {
        if (!vf::take())
          continue;
        Config c;
        c.args = kModes[mode];
        c.keep_console = console != 0;
        if (projects > 0) {
          c.args.push_back("--log_common=v");
          c.filter["common"] = 0;
        }
        if (projects > 1) {
          c.args.push_back("--log_nfs=e");
          c.filter["nfs"] = 4;
        }
        check(c, everything());
      }
}

// Where a statement is.
void paths() {
  struct Place {
    std::string path, project, file;
  };
  std::vector<Place> places;
  for (const std::string project : {"common", "vault", "vault_manager"})
    for (const std::string top : {"", "/", "/home/user/", "C:/work/", "../", "/home/maidsafe/", "/maidsafe/x/"})
      for (const std::string middle : {"src", "include"})
        for (const std::string rest : {project + "/a.cc", project + "/detail/b.h", std::string("x.cc"), project + "/tests/c_test.cc"})
          for (int back = 0; back < 2; ++back) {
            std::string p = top + project + "/" + middle + "/maidsafe/" + rest;
            if (back)
              std::replace(p.begin(), p.end(), '/', '\\');
            places.push_back({p, project, rest});
          }
  // without a project's directory they belong to common
  for (const std::string rest : {"common/a.cc", "vault/a.cc", "x.cc"})
    for (const std::string head : {"src/maidsafe/", "maidsafe/", "/maidsafe/", "include/maidsafe/"})
      places.push_back({head + rest, "common", rest});
  for (const std::string p : {"a.cc", "/x/y/a.cc"})
    places.push_back({p, "common", p});
  for (size_t from = 0; from < places.size(); from += 20) {
    if (!vf::take())
      continue;
    Config c;
    c.args = {"--log_common=v", "--log_vault=v", "--log_vault_manager=v"};
    c.filter = {{"common", 0}, {"vault", 0}, {"vault_manager", 0}};
    std::vector<Message> m;
    for (size_t i = from; i < std::min(from + 20, places.size()); ++i)
      for (int level = 0; level < 6; level += 5)
        m.push_back({level, places[i].project, places[i].path, places[i].file, places[i].path + "!", 0});
    check(c, m);
  }
}

// What is logged: every byte, every size.
void texts() {
  std::vector<std::string> all;
  for (int b = 0; b < 256; ++b)
    all.push_back("a" + std::string(1, static_cast<char>(b)) + "b");
  for (size_t n = 0; n < 300; ++n)
    all.push_back(std::string(n, static_cast<char>('a' + n % 26)));
  for (size_t n : {1000, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 300000})
    all.push_back(std::string(n, 'z'));
  for (int mode = 0; mode < 4; ++mode)
    for (size_t from = 0; from < all.size(); from += 50) {
      if (!vf::take())
        continue;
      Config c;
      c.args = kModes[static_cast<size_t>(mode)];
      c.args.push_back("--log_routing=I");
      c.args.push_back("--log_api=I");
      c.filter = {{"routing", 1}, {"api", 1}};
      std::vector<Message> m;
      for (size_t i = from; i < std::min(from + 50, all.size()); ++i)
        m.push_back({static_cast<int>(1 + i % 5), i % 3 ? "routing" : "api", path_of(i % 3 ? "routing" : "api"),
                     std::string(i % 3 ? "routing" : "api") + "/some_file.cc", all[i], 0});
      check(c, m);
    }
}

// The time is that of the statement, in UTC.
void times() {
  std::vector<std::pair<timespec, std::string>> list;
  auto add = [&](time_t s, long ns, const std::string& text) {
    char f[16];
    snprintf(f, sizeof f, ".%09ld", ns);
    list.push_back({timespec{s, ns}, text + f});
  };
  for (long ns : {0L, 1L, 9L, 10L, 99L, 100L, 999L, 1000L, 99999L, 100000L, 1000000L, 12345678L, 99999999L, 100000000L, 123456789L, 999999999L}) {
    add(1404219841, ns, "2014-07-01 13:04:01");
    add(951782400, ns, "2000-02-29 00:00:00");
    add(4102444799, ns, "2099-12-31 23:59:59");
    add(1420070399, ns, "2014-12-31 23:59:59");
  }
  for (auto& t : list) {
    if (!vf::take())
      continue;
    setenv("TZ", "Asia/Tokyo", 1);
    Config c;
    c.args = {"--log_vault=v", "--log_nfs=v", "--log_no_async"};
    c.filter = {{"vault", 0}, {"nfs", 0}};
    check(c, everything(), true, &t.first, &t.second);
  }
}

// Folders which exist, which do not, and which cannot be made.
void folders() {
  for (int kind = 0; kind < 6; ++kind)
    for (size_t mode = 0; mode < kModes.size(); ++mode) {
      if (!vf::take())
        continue;
      Config c;
      c.args = kModes[mode];
      c.args.push_back("--log_vault=v");
      c.args.push_back("--log_nfs=i");
      c.filter = {{"vault", 0}, {"nfs", 1}};
      const std::string base = new_dir();
      std::string folder = base;
      mkdir(base.c_str(), 0700);
      if (kind == 1)
        folder = base + "/deeper/than/that";
      if (kind == 2)
        std::ofstream(base + "/file") << "x", folder = base + "/file";
      if (kind == 3)
        std::ofstream(base + "/file") << "x", folder = base + "/file/below";
      if (kind == 4)
        folder = "";
      if (kind == 5)
        folder = base + "/with spaces and = signs";
      std::vector<Message> messages = everything();
      auto r = vf::in_child(
          [&]() -> std::string {
            if (chdir(base.c_str()) != 0)
              return "no folder";
            initialise(c, folder);
            std::string lines;
            for (auto& m : messages)
              lines += std::to_string(log_at(m.level, m.path.c_str(), m.text)) + " ";
            return lines;
          },
          true, 20);
      VF_CHECK(r.exited(), "folder " << folder << ": the process " << r.how() << " " << r.text);
      std::istringstream is(r.text);
      for (auto& m : messages)
        is >> m.line;
      if (kind == 0 || kind == 1 || kind == 5) {
        g_dir = folder;
        judge(c, messages, "folder " + folder);
      } else if (kind != 4) {
        VF_CHECK(slurp(base + "/file") == "x", "the file in the folder's place was changed");
      } else {
        VF_CHECK(rmdir(base.c_str()) == 0, "files were written without a folder");
      }
      remove_all(base);
      vf::outcome(static_cast<uint64_t>(kind));
    }
}

// Many messages up to the end of the process.
void counts() {
  for (size_t mode = 0; mode < kModes.size(); ++mode)
    for (int count : {0, 1, 2, 3, 10, 100, 1000, 5000}) {
      if (!vf::take())
        continue;
      Config c;
      c.args = kModes[mode];
      c.args.push_back("--log_vault=v");
      c.args.push_back("--log_nfs=v");
      c.filter = {{"vault", 0}, {"nfs", 0}};
      std::vector<Message> m;
      for (int i = 0; i < count; ++i)
        m.push_back({i % 6, i % 7 ? "vault" : "nfs", path_of(i % 7 ? "vault" : "nfs"), std::string(i % 7 ? "vault" : "nfs") + "/some_file.cc",
                     "message " + std::to_string(i) + std::string(static_cast<size_t>(i % 50), '.'), 0});
      check(c, m);
    }
}

// Messages before logging has been initialised go nowhere, and change nothing.
void early() {
  for (auto& p : kProjects)
    for (int level = 0; level < 6; ++level)
      for (int both = 0; both < 2; ++both)
        for (int many = 0; many < 2; ++many) {
          if (!vf::take())
            continue;
          Config c;
          c.args = kModes[static_cast<size_t>(both)];
          c.args.push_back("--log_" + p);
          c.args.push_back(kSpellings[static_cast<size_t>(level)][0]);
          c.filter[p] = level;
          if (both && p != "vault") {
            c.args.push_back("--log_vault");
            c.args.push_back(kSpellings[2][0]);
            c.filter["vault"] = 2;
          }
          if (many)
            c.before = everything();
          else
            c.before.push_back({level, p, path_of(p), p + "/some_file.cc", "early", 0});
          check(c, everything());
        }
}

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"one project", one_project}, {"spellings", spellings}, {"two projects", two_projects}, {"modes", modes},
                              {"paths", paths}, {"texts", texts}, {"times", times}, {"folders", folders}, {"counts", counts}, {"early", early}});
}

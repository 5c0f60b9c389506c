// C43: which arguments logging takes for itself, where it takes its settings from, and what it hands back.  Each case
// runs in a process of its own.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "maidsafe/common/config.h"
#include "maidsafe/common/log.h"

#include "common/child.h"
#include "common/vf.h"

using maidsafe::log::Logging;

namespace {

typedef std::vector<std::string> Strings;
const Strings kProjects = {"api", "common", "crux", "drive", "encrypt", "launcher", "nfs", "passport", "routing", "vault", "vault_manager"};

// The settings logging ends up with.
struct Settings {
  std::map<std::string, int> filter;
  bool console = true, async = true;
  int colour = 1;
  bool files = true;
  std::string text() const {
    std::ostringstream o;
    for (auto& f : filter)
      o << f.first << "=" << f.second << " ";
    o << (console ? "console " : "no console ") << (async ? "background " : "no background ") << "colour " << colour;
    return o.str();
  }
};

struct Group {
  Strings tokens;
  bool own;       // an option of logging
  int id;         // options with the same id exclude each other
  void (*effect)(Settings&);
};

const std::vector<Group>& groups() {
  static const std::vector<Group> g = {
      {{"--log_no_console"}, true, 1, [](Settings& s) { s.console = false; }},
      {{"--log_no_async"}, true, 2, [](Settings& s) { s.async = false; }},
      {{"--log_common", "I"}, true, 3, [](Settings& s) { s.filter["common"] = 0; }},
      {{"--log_common=verbose"}, true, 3, [](Settings& s) { s.filter["common"] = -1; }},
      {{"--log_vault_manager", "4"}, true, 4, [](Settings& s) { s.filter["vault_manager"] = 4; }},
      {{"--log_vault=kWarning"}, true, 5, [](Settings& s) { s.filter["vault"] = 2; }},
      {{"--log_colour_mode", "0"}, true, 6, [](Settings& s) { s.colour = 0; }},
      {{"--log_colour_mode=2"}, true, 6, [](Settings& s) { s.colour = 2; }},
      {{"file.txt"}, false, 0, nullptr},
      {{"--other"}, false, 0, nullptr},
      {{"--other=5"}, false, 0, nullptr},
      {{"--second", "value"}, false, 0, nullptr},
      {{"-x"}, false, 0, nullptr},
      {{"two words"}, false, 0, nullptr},
      {{"\xc3\xa9\xff"}, false, 0, nullptr},
      {{"a=b"}, false, 0, nullptr},
      {{"--logs"}, false, 0, nullptr},
      {{"--gtest_filter=*.X-Y:Z"}, false, 0, nullptr},
      {{"123"}, false, 0, nullptr},
  };
  return g;
}

std::string show(const Strings& s) {
  std::string out;
  for (auto& t : s)
    out += vf::show(t) + " ";
  return out;
}

std::vector<std::vector<char>> initialise(const Strings& arguments) {
  std::vector<std::vector<char>> text;
  std::vector<char*> argv;
  for (auto& a : arguments) {
    text.emplace_back(a.begin(), a.end());
    text.back().push_back(0);
  }
  for (auto& t : text)
    argv.push_back(t.data());
  argv.push_back(nullptr);
  auto out = Logging::Instance().Initialise(static_cast<int>(arguments.size()), argv.data());
  for (size_t i = 0; i < arguments.size(); ++i)
    if (std::string(text[i].data(), text[i].size() - 1) != arguments[i])
      return {};
  return out;
}

// Runs one command line with one configuration file ("-": none).
void run_case(const Strings& arguments, const std::string& ini, const Settings& want, const Strings& rest, bool twice) {
  static int n = 0;
  const std::string dir = vf::scratch + "/o" + std::to_string(n++);
  const std::string where = show(arguments) + (ini == "-" ? std::string() : "with the file " + vf::show(ini)) + (twice ? " (then again)" : "");
  auto r = vf::in_child(
      [&]() -> std::string {
        Strings all = {"/bin/exe"};
        all.insert(all.end(), arguments.begin(), arguments.end());
        all.push_back("--log_folder");
        all.push_back(dir);
        all.push_back("--log_config");
        all.push_back(dir + ".ini");
        if (ini != "-") {
          std::ofstream f((dir + ".ini").c_str(), std::ios::trunc);
          f << ini;
        }
        const auto out = initialise(all);
        Strings expected = {maidsafe::ThisExecutablePath().string()};
        expected.insert(expected.end(), rest.begin(), rest.end());
        std::string got;
        bool same = out.size() == expected.size();
        for (size_t i = 0; i < out.size(); ++i) {
          const std::string t(out[i].begin(), out[i].end());
          got += vf::show(t) + " ";
          same = same && t == expected[i] + '\0';
        }
        if (!same)
          return "handed back " + got + "instead of " + show(expected);
        Settings s;
        s.filter = Logging::Instance().Filter();
        s.console = Logging::Instance().LogToConsole();
        s.async = Logging::Instance().Async();
        s.colour = static_cast<int>(Logging::Instance().Colour());
        if (s.text() != want.text())
          return "is set to " + s.text() + " instead of " + want.text();
        if (twice) {
          const auto again = initialise({"/bin/exe", "--log_drive=I", "file", "--log_no_console", "--log_no_async", "--log_colour_mode=0"});
          if (!again.empty())
            return "the second initialisation hands back " + std::to_string(again.size()) + " arguments";
          Settings t;
          t.filter = Logging::Instance().Filter();
          t.console = Logging::Instance().LogToConsole();
          t.async = Logging::Instance().Async();
          t.colour = static_cast<int>(Logging::Instance().Colour());
          if (t.text() != want.text())
            return "the second initialisation makes it " + t.text();
        }
        // the log files are there at once
        size_t files = 0;
        if (DIR* d = opendir(dir.c_str())) {
          while (dirent* e = readdir(d))
            if (e->d_name[0] != '.') {
              ++files;
              ::unlink((dir + "/" + e->d_name).c_str());
            }
          closedir(d);
          ::rmdir(dir.c_str());
        }
        ::unlink((dir + ".ini").c_str());
        const size_t f = want.filter.size();
        if (files != f + (f == 1 ? 0 : 1))
          return "made " + std::to_string(files) + " log files";
        return "";
      },
      true, 20);
  VF_CHECK(r.exited() && r.text.empty(), where << ": " << (r.exited() ? r.text : "the process " + r.how() + " " + r.text));
  vf::outcome(vf::hash_str(want.text() + show(rest)));
  vf::state(vf::hash_str(want.text()));
  vf::transitions += 1 + arguments.size();
  ++vf::histories;
}

// Every setting from the command line, the file, both or neither.
void settings() {
  const char* levels[] = {"", "I", "E"};
  const int value[] = {0, 0, 3};
  const char* modes[] = {"", "0", "2"};
  const int mode[] = {1, 0, 2};
  for (int a = 0; a < 3; ++a)
    for (int b = 0; b < 3; ++b)
      for (int c = 0; c < 3; ++c)
        for (int d = 0; d < 3; ++d)
          for (int e = 0; e < 4; ++e)
            for (int f = 0; f < 4; ++f)
              for (int form = 0; form < 3; ++form) {
                if (!vf::take())
                  continue;
                Settings s;
                Strings arguments;
                std::string ini = form == 1 ? "# levels = all\n\n" : "";
                const std::string is = form == 1 ? " = " : "=";
                auto give = [&](const std::string& name, const std::string& v) {
                  if (form == 2) {
                    arguments.push_back("--" + name + "=" + v);
                  } else {
                    arguments.push_back("--" + name);
                    arguments.push_back(v);
                  }
                };
                if (a)
                  give("log_common", levels[a]);
                if (b)
                  ini += "log_common" + is + levels[b] + "\n";
                if (a || b)
                  s.filter["common"] = a ? value[a] : value[b];
                if (form == 2) {  // another project in the file only
                  ini += "log_vault=S\n";
                  s.filter["vault"] = 1;
                }
                if (c)
                  give("log_colour_mode", modes[c]);
                if (d)
                  ini += "log_colour_mode" + is + modes[d] + "\n";
                s.colour = c ? mode[c] : mode[d];
                if (e & 1)
                  arguments.push_back("--log_no_console");
                if (e & 2)
                  ini += "log_no_console" + is + "true\n";
                s.console = e == 0;
                if (f & 1)
                  arguments.push_back("--log_no_async");
                if (f & 2)
                  ini += "log_no_async" + is + "true\n";
                s.async = f == 0;
                run_case(arguments, ini, s, {}, false);
              }
}

// Help, and options which cannot be understood: logging stays off, says so, and the process goes on.
void refused() {
  struct Bad {
    Strings arguments;
    std::string ini;
    bool help;
  };
  std::vector<Bad> all = {
      {{"--log_colour_mode", "3"}, "-", false},       {{"--log_colour_mode=-2"}, "-", false},  {{"--log_colour_mode", "x"}, "-", false},
      {{"--log_colour_mode=99999999999"}, "-", false}, {{"--log_colour_mode="}, "-", false},    {{"--log_no_console=maybe"}, "-", false},
      {{}, "log_colour_mode=7\n", false},             {{}, "log_colour_mode=x\n", false},      {{}, "something=else\n", false},
      {{}, "no equals sign\n", false},                {{}, "log_no_async=perhaps\n", false},   {{"--help"}, "-", true},
      {{"-h"}, "-", true},                            {{"--help"}, "log_vault=V\n", true},
  };
  Strings around[] = {{}, {"--log_api=V"}, {"--log_api=V", "--log_no_async"}, {"--log_common", "V"}};
  for (auto& b : all)
    for (auto& before : around)
      for (auto& after : around) {
        if (!before.empty() && !after.empty())
          continue;
        if (b.ini.find("log_no_async") == 0 && before.size() + after.size() == 2 && (before.empty() ? after : before)[1] == "--log_no_async")
          continue;  // the file need not be asked
        if (!vf::take())
          continue;
        static int n = 0;
        const std::string dir = vf::scratch + "/r" + std::to_string(n++);
        Strings arguments = before;
        arguments.insert(arguments.end(), b.arguments.begin(), b.arguments.end());
        arguments.insert(arguments.end(), after.begin(), after.end());
        const std::string where = show(arguments) + (b.ini == "-" ? std::string() : "with the file " + vf::show(b.ini));
        auto r = vf::in_child(
            [&]() -> std::string {
              const int out = ::open((dir + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
              if (out < 0 || ::dup2(out, 1) != 1)
                return "no output";
              Strings all_of_them = {"/bin/exe", "file"};
              all_of_them.insert(all_of_them.end(), arguments.begin(), arguments.end());
              all_of_them.push_back("--log_folder");
              all_of_them.push_back(dir);
              all_of_them.push_back("--log_config");
              all_of_them.push_back(dir + ".ini");
              if (b.ini != "-") {
                std::ofstream f((dir + ".ini").c_str(), std::ios::trunc);
                f << b.ini;
              }
              const auto back = initialise(all_of_them);
              std::cout << std::flush;
              struct stat said;
              if (::stat((dir + ".out").c_str(), &said) != 0 || said.st_size == 0)
                return "nothing is said on the standard output";
              if (b.help) {
                const Strings expected = {maidsafe::ThisExecutablePath().string(), "file", "--help"};
                bool same = back.size() == expected.size();
                for (size_t i = 0; same && i < back.size(); ++i)
                  same = std::string(back[i].begin(), back[i].end()) == expected[i] + '\0';
                if (!same)
                  return "does not pass on the request for help";
              }
              if (!Logging::Instance().Filter().empty())
                return "messages would be logged";
              LOG(kError) << "an error";
              LOG(kAlways) << "whatever";
              struct stat now;
              std::cout << std::flush;
              ::fflush(stdout);
              if (::stat((dir + ".out").c_str(), &now) != 0 || now.st_size != said.st_size)
                return "a message was logged";
              if (::stat(dir.c_str(), &now) == 0)
                return "the folder of log files was made";
              ::unlink((dir + ".out").c_str());
              ::unlink((dir + ".ini").c_str());
              return "";
            },
            true, 20);
        VF_CHECK(r.exited() && r.text.empty(), where << ": " << (r.exited() ? r.text : "the process " + r.how() + " " + r.text));
        vf::outcome(vf::hash_str(where));
        vf::transitions += 3;
        ++vf::histories;
      }
}

// All sequences of arguments.
void sequences() {
  const auto& all = groups();
  const int longest = vf::thorough ? 4 : 3;
  std::vector<size_t> pick;
  std::function<void()> go = [&] {
    bool clash = false;
    for (size_t i = 0; i < pick.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        clash = clash || (all[pick[i]].id && all[pick[i]].id == all[pick[j]].id);
    if (clash)
      return;
    // a value given apart belongs to the option before it whatever it looks like, so nothing may come between
    if (vf::take()) {
      Strings arguments, rest;
      Settings s;
      for (size_t p : pick) {
        arguments.insert(arguments.end(), all[p].tokens.begin(), all[p].tokens.end());
        if (all[p].own)
          all[p].effect(s);
        else
          rest.insert(rest.end(), all[p].tokens.begin(), all[p].tokens.end());
      }
      run_case(arguments, "-", s, rest, pick.size() == 1);
    }
    if (static_cast<int>(pick.size()) == longest)
      return;
    for (size_t i = 0; i < all.size(); ++i) {
      pick.push_back(i);
      go();
      pick.pop_back();
    }
  };
  go();
}
}  // unnamed namespace

int main(int argc, char** argv) { return vf::run(argc, argv, {{"sequences", sequences}, {"settings", settings}, {"refused", refused}}); }

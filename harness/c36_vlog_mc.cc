// C36: threads which initialise the visualiser and make messages at the same time.
#include <dirent.h>
#include <netdb.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/log.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/visualiser_log.h"

#include "common/scratch_dir.h"
#include "mc/mc.h"

// There is no server, so that each message tries to reach it anew.
extern "C" int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**) { return EAI_NONAME; }

DEFINE_OSTREAMABLE_ENUM_VALUES(Persona, int32_t, (MaidNode)(DataGetter))
DEFINE_OSTREAMABLE_ENUM_VALUES(Action, uint64_t, (Put)(Get))

using maidsafe::log::Logging;
using Vlog = maidsafe::log::VisualiserLogMessage;

namespace {

std::string g_base, g_dir;
std::map<std::string, int> g_want;  // thread -> messages
std::string g_names;                // prefix and session

std::string slurp(const std::string& path) {
  std::string out;
  if (FILE* f = fopen(path.c_str(), "r")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      out.append(b, n);
    fclose(f);
  }
  return out;
}

void judge() {
  std::string log;
  int logs = 0;
  if (DIR* d = opendir(g_dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n.size() > 14 && n.substr(n.size() - 14) == "visualiser.log") {
        log = slurp(g_dir + "/" + n);
        ++logs;
      }
    }
    closedir(d);
  }
  vf::remove_tree(g_dir);
  MC_CHECK(logs == 1, "there are " << logs << " files");
  std::map<std::string, int> next;
  std::string order;
  for (size_t at = 0; at < log.size();) {
    const size_t end = log.find('\n', at);
    MC_CHECK(end != std::string::npos, "a cut message: " << log.substr(at));
    const std::string line = log.substr(at, end - at);
    at = end + 1;
    MC_CHECK(line.size() > 30 && line[4] == '-' && line[29] == ',', "a damaged message: " << line);
    const std::string rest = line.substr(30);
    MC_CHECK(rest.compare(0, g_names.size(), g_names) == 0, "a message with other names: " << line);
    const std::string text = rest.substr(g_names.size());
    const size_t last = text.rfind(',');
    MC_CHECK(last != std::string::npos, "a damaged message: " << line);
    const std::string who = text.substr(last + 1, 1);
    MC_CHECK(g_want.count(who), "an unexpected message: " << line);
    MC_CHECK(text.substr(last + 2) == std::to_string(next[who]), "message " << text << " is not in order");
    MC_CHECK(text.substr(0, last) == (who == "a" ? "Put" : "Get"), "an unexpected action: " << line);
    ++next[who];
    order += who;
  }
  for (auto& w : g_want)
    MC_CHECK(next[w.first] == w.second, "there are " << next[w.first] << " of " << w.second << " messages of " << w.first);
  mc::outcome(order);
}

void logging(bool async) {
  g_dir = g_base + "/" + std::to_string(getpid());
  mkdir(g_dir.c_str(), 0700);
  if (chdir(g_dir.c_str()) != 0)
    abort();
  mc::at_process_exit(judge);
  std::vector<std::string> args = {"/bin/exe", "--log_folder", g_dir, "--log_config", "/nonexistent", "--log_no_console"};
  if (!async)
    args.push_back("--log_no_async");
  std::vector<std::vector<char>> text;
  std::vector<char*> argv;
  for (auto& a : args) {
    text.emplace_back(a.begin(), a.end());
    text.back().push_back(0);
  }
  for (auto& t : text)
    argv.push_back(t.data());
  argv.push_back(nullptr);
  Logging::Instance().Initialise(static_cast<int>(args.size()), argv.data());
}
// True if this call was the first.
bool initialise(const std::string& who) {
  try {
    Logging::Instance().InitialiseVlog("vault " + who, "session " + who, "nobody", 1, "/dir " + who);
  } catch (const maidsafe::common_error& e) {
    MC_CHECK(e.code() == make_error_code(maidsafe::CommonErrors::already_initialised), "initialising failed with " << e.code().value());
    return false;
  }
  return true;
}
bool put(const std::string& who, int n) {
  try {
    if (who == "a")
      Vlog(Action::kPut, who + std::to_string(n));
    else
      Vlog(Action::kGet, who + std::to_string(n));
  } catch (const maidsafe::common_error& e) {
    MC_CHECK(e.code() == make_error_code(maidsafe::CommonErrors::unable_to_handle_request), "a message failed with " << e.code().value());
    return false;
  }
  return true;
}
std::string names(const std::string& who) { return "vault " + who + ",session " + who + ","; }

void both_initialise(bool async) {
  logging(async);
  bool first = false, b_put = false;
  std::thread t([&] { first = initialise("a"); });
  const bool second = initialise("b");
  MC_CHECK(Logging::Instance().VlogPrefix() == (second ? "vault b" : "vault a"), "the names are not those of the first");
  b_put = put("b", 0);
  t.join();
  MC_CHECK(first != second, (first ? "both calls succeeded" : "both calls failed"));
  MC_CHECK(b_put, "a message was refused after initialising");
  g_names = names(first ? "a" : "b");
  g_want = {{"b", 1}};
  exit(0);
}
void early_messages(bool async) {
  logging(async);
  int n = 0;
  std::thread t([&] {
    for (int i = 0; i < 2; ++i)
      n += put("a", n);
  });
  const bool first = initialise("b");
  const bool again = initialise("c");
  MC_CHECK(first && !again, "initialising once failed or twice succeeded");
  MC_CHECK(put("b", 0), "a message was refused after initialising");
  t.join();
  g_names = names("b");
  g_want = {{"b", 1}};
  if (n)
    g_want["a"] = n;
  exit(0);
}
void two_threads(bool async) {
  logging(async);
  initialise("x");
  g_names = names("x");
  g_want = {{"a", 2}, {"b", 2}};
  std::thread t([&] {
    put("a", 0);
    put("a", 1);
  });
  put("b", 0);
  put("b", 1);
  t.join();
  exit(0);
}
void at_the_end() {
  logging(true);
  initialise("x");
  g_names = names("x");
  g_want = {{"a", 3}};
  for (int i = 0; i < 3; ++i)
    put("a", i);
  exit(0);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  vf::ScratchDir dir;
  g_base = dir.path;
  auto s = [](const char* name, std::function<void()> body, int q, int t) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    return x;
  };
  return mc::run(argc, argv,
                 {s("both initialise", [] { both_initialise(true); }, 2, 3), s("both initialise, synchronous", [] { both_initialise(false); }, 2, 3),
                  s("early messages", [] { early_messages(true); }, 2, 3), s("early messages, synchronous", [] { early_messages(false); }, 2, 3),
                  s("two threads", [] { two_threads(true); }, 2, 3), s("two threads, synchronous", [] { two_threads(false); }, 2, 3), s("at the end", at_the_end, 2, 4)});
}

// C35: several threads set the path of this executable at once.
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"

#include "common/fake_exe.h"
#include "mc/mc.h"

namespace {
std::string path() {
  try {
    return maidsafe::ThisExecutablePath().string();
  } catch (const maidsafe::maidsafe_error&) {
    return "uninitialised";
  }
}
// every second thread with a wide name, where `wide`
void setters(int n, bool failing, int calls, bool wide) {
  vf::fake_exe().active = true;
  vf::fake_exe().error = failing ? ENOENT : 0;
  vf::fake_exe().answer = "/bin/the exe";
  MC_CHECK(path() == "uninitialised", "before the first call");
  std::vector<std::string> seen(n);
  std::vector<std::thread> threads;
  for (int t = 0; t < n; ++t)
    threads.emplace_back([&, t] {
      const std::string name = "/given/" + std::to_string(t);
      const char* const argv[] = {name.c_str(), nullptr};
      for (int c = 0; c < calls; ++c) {
        if (wide && t % 2) {
          const std::wstring wide_name(name.begin(), name.end());
          const wchar_t* const wide_argv[] = {wide_name.c_str(), nullptr};
          maidsafe::SetThisExecutablePath(wide_argv);
        } else {
          maidsafe::SetThisExecutablePath(argv);
        }
        const std::string now = path();
        MC_CHECK(seen[t].empty() || seen[t] == now, "the path changed from " << seen[t] << " to " << now);
        seen[t] = now;
        MC_CHECK(maidsafe::ThisExecutableDir().string() == now.substr(0, now.rfind('/')), "the directory of " << now);
      }
    });
  for (auto& t : threads)
    t.join();
  for (int t = 0; t < n; ++t)
    MC_CHECK(seen[t] == seen[0], "two readers saw " << seen[0] << " and " << seen[t]);
  MC_CHECK(path() == seen[0], "the path changed");
  if (failing)
    MC_CHECK(seen[0].find("/given/") == 0 && seen[0].size() == 8 && seen[0][7] < '0' + n, "path " << seen[0]);
  else
    MC_CHECK(seen[0] == "/bin/the exe", "path " << seen[0]);
  mc::outcome(seen[0]);
}
}  // unnamed namespace

int main(int argc, char** argv) {
  auto s = [](const char* name, int n, bool failing, int calls, bool wide, int q, int t) {
    mc::Scenario x;
    x.name = name;
    x.body = [=] { setters(n, failing, calls, wide); };
    x.quick_bound = q;
    x.thorough_bound = t;
    return x;
  };
  return mc::run(argc, argv, {s("two setters", 2, false, 1, false, 4, 8), s("two setters, no answer", 2, true, 2, false, 4, 8),
                              s("three setters, no answer", 3, true, 1, false, 3, 5),
                              s("narrow and wide names", 2, false, 2, true, 4, 8), s("narrow and wide names, no answer", 3, true, 1, true, 3, 5)});
}

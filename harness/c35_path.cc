// C35: the path of this executable, for every answer of the system and every history of calls.
#include <limits.h>

#include <string>
#include <vector>

#include "boost/filesystem.hpp"

#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"

#include "common/child.h"
#include "common/fake_exe.h"
#include "common/limit_new.h"
#include "common/vf.h"

namespace {
namespace fs = boost::filesystem;

struct Answer {
  int error;
  std::string link;
  bool unknown() const { return error != 0 || link.empty(); }
  bool too_long() const { return link.size() >= PATH_MAX; }
};
void answer(const Answer& a) {
  vf::fake_exe().active = true;
  vf::fake_exe().error = a.error;
  vf::fake_exe().answer = a.link;
}
std::string read_path(bool dir) {
  try {
    return (dir ? maidsafe::ThisExecutableDir() : maidsafe::ThisExecutablePath()).string();
  } catch (const maidsafe::maidsafe_error& e) {
    return e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::uninitialised) ? "!uninitialised" : "!other";
  }
}
__attribute__((noinline)) void soil() {  // what was on the stack before does not matter
  volatile char garbage[3 * PATH_MAX];
  for (volatile char& c : garbage)
    c = 'Z';
}
void set(const char* name) {
  const char* const argv[] = {name, nullptr};
  soil();
  maidsafe::SetThisExecutablePath(argv);
}
void set_wide(const char* name) {
  const std::string narrow(name);
  const std::wstring wide(narrow.begin(), narrow.end());
  const wchar_t* const argv[] = {wide.c_str(), nullptr};
  soil();
  maidsafe::SetThisExecutablePath(argv);
}
// reads as (path, dir)
std::string both() { return read_path(false) + "\n" + read_path(true); }
std::string want_both(const std::string& path) { return path + "\n" + fs::path(path).parent_path().string(); }

void one(const Answer& a, const std::string& name, bool no_cwd, bool wide = false) {
  const std::string gone = vf::scratch + "/gone";
  const auto r = vf::in_child([&]() -> std::string {
    if (both() != "!uninitialised\n!uninitialised")
      return "reading before the path is set gives: " + both();
    if (no_cwd) {
      boost::system::error_code ec;
      fs::create_directory(gone, ec);
      if (chdir(gone.c_str()) != 0 || rmdir(gone.c_str()) != 0)
        return "cannot prepare";
    }
    answer(a);
    wide ? set_wide(name.c_str()) : set(name.c_str());
    return both();
  });
  std::string own;
  if (no_cwd)
    own = name;
  else
    own = fs::absolute(name).string();
  std::string want = want_both(a.unknown() ? own : a.link);
  const bool good = r.text == want || (a.too_long() && (r.text == want_both(own))) ||
                    (no_cwd && own.empty() && r.text == "!uninitialised\n!uninitialised");
  VF_CHECK(r.exited() && good, (wide ? "wide name; " : "") << "the system answers " << (a.error ? "error " + std::to_string(a.error)
                                                               : std::to_string(a.link.size()) + " bytes " +
                                                                     vf::show(a.link.substr(0, 40)))
                                                   << ", the name is " << vf::show(name) << ": the path is "
                                                   << vf::show(r.text.substr(0, 200)) << " (" << r.how() << ")");
  ++vf::histories;
  vf::transitions += 5;
  vf::outcome(vf::hash_str(want));
}
void answers() {
  std::vector<Answer> all;
  for (int e : {ENOENT, EACCES, ENOMEM, EINVAL, EIO, ELOOP, ENAMETOOLONG, ENOTDIR, EFAULT})
    all.push_back({e, ""});
  all.push_back({0, ""});
  auto path = [](size_t n) {
    std::string s = "/";
    while (s.size() < n)
      s += s.size() % 100 == 50 ? '/' : static_cast<char>('a' + s.size() % 26);
    if (s.back() == '/')
      s.back() = 'x';
    return s;
  };
  for (size_t n = 1; n < 60; ++n)
    all.push_back({0, n == 1 ? "/" : path(n)});
  for (size_t n : {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4000, 4090})
    all.push_back({0, path(n)});
  for (size_t n = PATH_MAX - 4; n < PATH_MAX + 5; ++n)
    all.push_back({0, path(n)});
  all.push_back({0, path(3 * PATH_MAX)});
  for (const char* s : {"/a b/c", "/x/y (deleted)", "/\xc3\xa9/\xff", "/a//b", "/a/./b", "/a/../b"})
    all.push_back({0, s});
  for (const auto& a : all)
    for (const char* name : {"name", "./name", "rel/dir/name", "/abs/name", "two words", ""}) {
      if (vf::take())
        one(a, name, false);
      if ((a.unknown() || name[0] == 'n') && vf::take())
        one(a, name, true);
      if (name[0] != '.' && vf::take())
        one(a, name, false, true);
    }
  if (vf::single())
    vf::sample("answer of exactly PATH_MAX bytes: falls back on the given name");
}

// all histories of calls
void histories() {
  const std::vector<Answer> as = {{0, "/first/exe"}, {0, "/second/other"}, {ENOENT, ""}};
  const std::vector<std::string> names = {"x", "/given/y"};
  // set with each answer and name, the same with wide names for some, read the directory or the path
  const size_t sets = as.size() * names.size(), kinds = sets + 3 + 2;
  auto answer_of = [&](size_t op) -> const Answer& { return as[op < sets ? op / names.size() : op - sets]; };
  auto name_of = [&](size_t op) -> const std::string& { return names[op < sets ? op % names.size() : 1]; };
  const size_t depth = vf::thorough ? 5 : 4;
  std::vector<size_t> h;
  std::function<void()> more = [&] {
    if (h.size() == depth) {
      if (!vf::take())
        return;
      std::string want, path;
      for (size_t op : h) {
        if (op < kinds - 2) {
          const Answer& a = answer_of(op);
          if (path.empty())
            path = a.unknown() ? fs::absolute(name_of(op)).string() : a.link;
          want += "set\n";
        } else {
          want += (path.empty() ? "!uninitialised" : op == kinds - 1 ? path : fs::path(path).parent_path().string()) + "\n";
        }
      }
      const auto r = vf::in_child([&]() -> std::string {
        std::string got;
        for (size_t op : h) {
          if (op < kinds - 2) {
            answer(answer_of(op));
            op < sets ? set(name_of(op).c_str()) : set_wide(name_of(op).c_str());
            got += "set\n";
          } else {
            got += read_path(op == kinds - 2) + "\n";
          }
        }
        return got;
      });
      VF_CHECK(r.exited() && r.text == want, "history gave\n" << r.text << "expected\n" << want << r.how());
      ++vf::histories;
      vf::transitions += depth;
      vf::outcome(vf::hash_str(want));
      return;
    }
    for (size_t op = 0; op < kinds; ++op) {
      h.push_back(op);
      more();
      h.pop_back();
    }
  };
  more();
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"answers", answers}, {"histories", histories}});
}

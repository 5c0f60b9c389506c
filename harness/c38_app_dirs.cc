// C38: the application's directories, for every answer of the user data base and every environment.
#define APPLICATION_NAME Verified
#include <errno.h>
#include <pwd.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "maidsafe/common/application_support_directories.h"

#include "common/vf.h"

namespace {
struct Entry {
  bool exists = false;
  int error = 0;
  std::string dir;
  bool null_dir = false;
} the_user;
struct passwd the_passwd;
char the_name[] = "user", the_shell[] = "/bin/sh", the_empty[] = "", elsewhere[] = "/elsewhere";
std::string the_dir;

passwd* fill(uid_t uid, passwd* p) {
  memset(p, 0, sizeof *p);
  p->pw_name = the_name;
  p->pw_passwd = p->pw_gecos = the_empty;
  p->pw_shell = the_shell;
  p->pw_uid = uid;
  p->pw_gid = uid;
  if (uid != getuid()) {
    p->pw_dir = elsewhere;
    return p;
  }
  if (!the_user.exists)
    return nullptr;
  the_dir = the_user.dir;
  p->pw_dir = the_user.null_dir ? nullptr : const_cast<char*>(the_dir.c_str());
  return p;
}
}  // unnamed namespace

extern "C" struct passwd* getpwuid(uid_t uid) {
  if (!fill(uid, &the_passwd)) {
    errno = the_user.error;
    return nullptr;
  }
  return &the_passwd;
}
extern "C" int getpwuid_r(uid_t uid, struct passwd* p, char* buffer, size_t size, struct passwd** result) {
  *result = nullptr;
  if (!fill(uid, p))
    return the_user.error;
  if (p->pw_dir) {
    if (strlen(p->pw_dir) + 1 > size)
      return ERANGE;
    p->pw_dir = strcpy(buffer, p->pw_dir);
  }
  *result = p;
  return 0;
}

namespace {
using boost::filesystem::path;

// the environment's answer: not set, or a value
struct Env {
  bool set;
  std::string value;
};

void check(const Entry& user, const Env& env) {
  the_user = user;
  if (env.set)
    setenv("HOME", env.value.c_str(), 1);
  else
    unsetenv("HOME");
  std::string home;
  if (user.exists && !user.null_dir)
    home = user.dir.c_str();
  if (home.empty() && env.set)
    home = env.value.c_str();
  const std::string what = std::string("user ") + (!user.exists ? "unknown" : user.null_dir ? "without directory" : "with directory " + vf::show(user.dir)) +
                           ", HOME " + (env.set ? vf::show(env.value) : "not set");
  const path got_home = maidsafe::GetHomeDir();
  VF_CHECK(got_home.native() == home, what << ": the home directory is " << vf::show(got_home.native()) << " instead of " << vf::show(home));
  const path got = maidsafe::GetUserAppDir();
  if (home.empty()) {
    VF_CHECK(got.empty(), what << ": the user's application directory is " << vf::show(got.native()) << " although there is no home");
  } else {
    const std::string want = home + (home.back() == '/' ? "" : "/") + ".config/MaidSafe/Verified";
    VF_CHECK(got.native() == want, what << ": the user's application directory is " << vf::show(got.native()) << " instead of " << vf::show(want));
  }
  VF_CHECK(maidsafe::GetSystemAppSupportDir() == path("/opt/MaidSafe/sbin"), what << ": the system's is " << maidsafe::GetSystemAppSupportDir());
  VF_CHECK(maidsafe::GetAppInstallDir() == path("/usr/bin/"), what << ": the installation's is " << maidsafe::GetAppInstallDir());
  VF_CHECK(maidsafe::kCompanyName() == "MaidSafe" && maidsafe::kApplicationName() == "Verified", "names");
  vf::transitions += 6;
  vf::outcome(vf::hash_str(got_home.native()));
}

std::vector<std::string> directories() {
  std::vector<std::string> r = {"", "/", "//", "/home/user", "/home/user/", "/home/user//", "relative", "./x", "../x", ".", "..", "/home/a b", " ", "/home/\xc3\xa9",
                                "/x/./y", "/x/../y", "/nonexistent", "\\", "C:\\x", std::string("/") + std::string(4000, 'a'), std::string(300, '/'), "~", "$HOME", "\"/q\""};
  return r;
}

void answers() {
  std::vector<Entry> users;
  for (int e : {0, ENOENT, ESRCH, EBADF, EPERM, EINTR, EIO, EMFILE, ENFILE, ENOMEM, ERANGE}) {
    Entry u;
    u.error = e;
    users.push_back(u);
  }
  for (const auto& d : directories()) {
    Entry u;
    u.exists = true;
    u.dir = d;
    users.push_back(u);
  }
  Entry none;
  none.exists = none.null_dir = true;
  users.push_back(none);
  std::vector<Env> envs = {{false, ""}};
  for (const auto& d : directories())
    envs.push_back({true, d});
  for (const auto& u : users)
    for (const auto& e : envs)
      if (vf::take())
        check(u, e);
}

void bytes() {
  for (int b = 1; b < 256; ++b)
    for (int at = 0; at < 4; ++at)
      if (vf::take()) {
        std::string d = "/a/b";
        d[static_cast<size_t>(at)] = static_cast<char>(b);
        Entry u, nobody;
        u.exists = true;
        u.dir = d;
        check(u, {true, "/other"});
        check(nobody, {true, d});
      }
}

// one answer after the other: nothing is remembered
void histories() {
  const std::vector<std::string> dirs = {"", "/one", "/two"};
  std::vector<std::pair<Entry, Env>> situations;
  for (int u = 0; u < 4; ++u)
    for (int e = 0; e < 4; ++e) {
      Entry user;
      user.exists = u > 0;
      user.dir = u > 0 ? dirs[static_cast<size_t>(u - 1)] : "";
      situations.push_back({user, {e > 0, e > 0 ? dirs[static_cast<size_t>(e - 1)] : ""}});
    }
  for (const auto& a : situations)
    for (const auto& b : situations)
      for (const auto& c : situations)
        if (vf::take()) {
          check(a.first, a.second);
          check(b.first, b.second);
          check(c.first, c.second);
          ++vf::histories;
        }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"answers", answers}, {"bytes", bytes}, {"histories", histories}});
}

// C24: ReadFile and WriteFile with every single failing, short or racing system call; file names of
// data objects; paths taken from program options.
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <set>
#include <string>
#include <vector>

#include "boost/filesystem.hpp"

#include "maidsafe/common/utils.h"

#include "common/limit_new.h"
#include "common/vf.h"

namespace {
// --- faults ---
enum Kind { kNone, kFail, kShort, kShortThenFail, kTruncate, kGrow, kRemove };
struct Plan {
  bool armed = false;
  Kind kind = kNone;
  int at = -1, error = EIO;
  // state
  int ops = 0;
  bool failing = false;
  std::string path;
  size_t cut = 0;
} g;
bool g_busy = false;
std::set<int> g_fds;

void race() {
  g_busy = true;
  if (g.kind == kTruncate) {
    if (truncate(g.path.c_str(), static_cast<off_t>(g.cut))) {
    }
  } else if (g.kind == kGrow) {
    int fd = open(g.path.c_str(), O_WRONLY | O_APPEND);
    if (fd >= 0) {
      syscall(SYS_write, fd, "GROWN", 5);
      syscall(SYS_close, fd);
    }
  } else if (g.kind == kRemove) {
    unlink(g.path.c_str());
  }
  g_busy = false;
}
// One of the calls that touch the file: what should happen to it?
Kind step() {
  int n = g.ops++;
  if (g.failing)
    return kFail;
  if (n != g.at)
    return kNone;
  if (g.kind == kTruncate || g.kind == kGrow || g.kind == kRemove) {
    race();
    return kNone;
  }
  return g.kind;
}
bool ours(const char* path) { return g.armed && !g_busy && path && g.path == path; }
bool ours(int fd) { return g.armed && !g_busy && g_fds.count(fd); }

template <typename F>
F* real(const char* name) {
  return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
}
FILE* do_open(const char* path, const char* mode) {
  static auto f = real<FILE*(const char*, const char*)>("fopen");
  bool mine = ours(path);
  if (mine && step() == kFail) {
    errno = g.error;
    return nullptr;
  }
  FILE* r = f(path, mode);
  if (mine && r)
    g_fds.insert(fileno(r));
  return r;
}
ssize_t limited(int fd, const char* data, size_t n) {
  if (ours(fd))
    switch (step()) {
      case kFail:
        errno = g.error;
        return -1;
      case kShortThenFail:
        g.failing = true;
        n /= 2;
        break;
      case kShort:
        n = n > 1 ? n / 2 : n;
        break;
      default:
        break;
    }
  return syscall(SYS_write, fd, data, n);
}
}  // unnamed namespace

extern "C" {
FILE* vf_fopen(const char* p, const char* m) asm("fopen");
FILE* vf_fopen(const char* p, const char* m) { return do_open(p, m); }
FILE* vf_fopen64(const char* p, const char* m) asm("fopen64");
FILE* vf_fopen64(const char* p, const char* m) { return do_open(p, m); }
int fclose(FILE* f) {
  static auto r = real<int(FILE*)>("fclose");
  int fd = f ? fileno(f) : -1;
  bool mine = ours(fd);
  Kind k = mine ? step() : kNone;
  g_fds.erase(fd);
  int result = r(f);
  if (k == kFail) {
    errno = g.error;
    return EOF;
  }
  return result;
}
ssize_t read(int fd, void* data, size_t n) {
  if (ours(fd))
    switch (step()) {
      case kFail:
        errno = g.error;
        return -1;
      case kShort:
      case kShortThenFail:
        if (g.kind == kShortThenFail)
          g.failing = true;
        n = n > 1 ? n / 2 : n;
        break;
      default:
        break;
    }
  return syscall(SYS_read, fd, data, n);
}
ssize_t write(int fd, const void* data, size_t n) { return limited(fd, static_cast<const char*>(data), n); }
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!ours(fd))
    return syscall(SYS_writev, fd, v, n);
  std::string all;
  for (int i = 0; i < n; ++i)
    all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  return limited(fd, all.data(), all.size());
}
int statx(int dirfd, const char* path, int flags, unsigned mask, struct statx* s) {
  if (ours(path) && step() == kFail) {
    errno = g.error;
    return -1;
  }
  long r = syscall(SYS_statx, dirfd, path, flags, mask, s);
  return static_cast<int>(r);
}
}

namespace {
typedef std::vector<maidsafe::byte> Bytes;
Bytes bytes(size_t n, int salt = 0) {
  Bytes b(n);
  for (size_t i = 0; i < n; ++i)
    b[i] = static_cast<unsigned char>(i * 7 + i / 251 + salt);
  return b;
}
std::string show(const Bytes& b) { return std::to_string(b.size()) + " bytes"; }

// What is really there (by system calls only)
bool raw_read(const std::string& path, Bytes& out) {
  out.clear();
  long fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
  if (fd < 0)
    return false;
  static char buf[1 << 16];
  long n;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0)
    out.insert(out.end(), buf, buf + n);
  syscall(SYS_close, fd);
  return n == 0;
}
void raw_write(const std::string& path, const Bytes& b) {
  unlink(path.c_str());
  long fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  VF_CHECK(fd >= 0, "harness: cannot create " << path);
  size_t done = 0;
  while (done < b.size()) {
    long n = syscall(SYS_write, fd, b.data() + done, b.size() - done);
    VF_CHECK(n > 0, "harness: cannot write " << path);
    done += n;
  }
  syscall(SYS_close, fd);
}
void arm(const std::string& path, Kind kind, int at, int error, size_t cut) {
  g = Plan();
  g.path = path, g.kind = kind, g.at = at, g.error = error, g.cut = cut;
  g_fds.clear();
  g.armed = true;
}
void disarm() {
  g.armed = false;
  g_fds.clear();
}

struct Result {
  bool ok;
  Bytes data;
};
Result do_read(const std::string& path) {
  Result r{false, {}};
  try {
    auto e = maidsafe::ReadFile(boost::filesystem::path(path));
    r.ok = e.valid();
    if (r.ok)
      r.data = *e;
  } catch (const std::exception& x) {
    disarm();
    VF_CHECK(false, "ReadFile threw " << x.what());
  } catch (...) {
    disarm();
    VF_CHECK(false, "ReadFile threw");
  }
  ++vf::transitions;
  return r;
}
bool do_write(const std::string& path, const Bytes& b) {
  bool r = false;
  try {
    r = maidsafe::WriteFile(boost::filesystem::path(path), b);
  } catch (const std::exception& x) {
    disarm();
    VF_CHECK(false, "WriteFile threw " << x.what());
  } catch (...) {
    disarm();
    VF_CHECK(false, "WriteFile threw");
  }
  ++vf::transitions;
  return r;
}

const size_t kSizes[] = {0, 1, 2, 3, 100, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 300000, 1 << 20, (1 << 20) + 1, 5000001};

void reads() {
  const std::string path = vf::scratch + "/r";
  for (size_t size : kSizes) {
    if (!vf::take())
      continue;
    Bytes content = bytes(size);
    raw_write(path, content);
    arm(path, kNone, -1, 0, 0);
    Result clean = do_read(path);
    int ops = g.ops;
    disarm();
    VF_CHECK(clean.ok && clean.data == content, "a file of " << size << " bytes was read as " << (clean.ok ? show(clean.data) : "an error"));
    vf::outcome(size);
    for (int at = 0; at < ops; ++at)
      for (Kind kind : {kFail, kShort, kShortThenFail, kTruncate, kGrow, kRemove})
        for (int variant = 0; variant < (kind == kTruncate ? 4 : kind == kFail ? 3 : 1); ++variant) {
          raw_write(path, content);
          size_t cut = variant == 0 ? 0 : variant == 1 ? size / 2 : variant == 2 ? (size ? size - 1 : 0) : size + 10;
          arm(path, kind, at, variant == 0 ? EIO : variant == 1 ? EACCES : ENOENT, cut);
          Result r = do_read(path);
          disarm();
          ++vf::histories;
          if (!r.ok)
            continue;
          Bytes now;
          bool there = raw_read(path, now);
          VF_CHECK(r.data == content || (there && r.data == now),
                   "a file of " << size << " bytes was read as " << show(r.data) << " that were never in it, although call " << at << (kind == kFail ? " failed" : kind == kShort ? " was short" : kind == kShortThenFail ? " was short and the next failed" : kind == kTruncate ? " found the file truncated" : " raced with a change"));
        }
    vf::sample("reading " + std::to_string(size) + " bytes: " + std::to_string(ops) + " calls, each failing, short or racing with a change");
  }
  if (vf::take()) {
    unlink(path.c_str());
    VF_CHECK(!do_read(path).ok, "a file that is not there was read");
    mkdir((path + "d").c_str(), 0755);
    VF_CHECK(!do_read(path + "d").ok, "a directory was read");
    VF_CHECK(!do_read("").ok, "an empty path was read");
    VF_CHECK(!do_read(path + "/below").ok, "a path below nothing was read");
    VF_CHECK(!do_read(std::string(5000, 'a')).ok, "a path that is too long was read");
    if (!symlink("loop", (vf::scratch + "/loop").c_str()))
      VF_CHECK(!do_read(vf::scratch + "/loop").ok, "a loop of symbolic links was read");
    raw_write(path, bytes(1));
    VF_CHECK(!do_read(path + "/below").ok, "a path below a file was read");
    if (!symlink("r", (vf::scratch + "/link").c_str())) {
      Result l = do_read(vf::scratch + "/link");
      VF_CHECK(l.ok && l.data == bytes(1), "a symbolic link");
    }
    if (!truncate(path.c_str(), off_t(1) << 33))  // a sparse file that does not fit into memory (see limit_new.h)
      VF_CHECK(!do_read(path).ok, "a file of 8 GB was read");
    unlink(path.c_str());
  }
}

void writes() {
  const std::string path = vf::scratch + "/w";
  for (size_t size : kSizes)
    for (int before = 0; before < 4; ++before) {  // absent, shorter, longer, of the same size
      if (!vf::take())
        continue;
      Bytes content = bytes(size);
      Bytes old = bytes(before == 1 ? size / 2 : before == 2 ? size + 1000 : size, 100);
      auto prepare = [&] {
        if (before)
          raw_write(path, old);
        else
          unlink(path.c_str());
      };
      prepare();
      arm(path, kNone, -1, 0, 0);
      bool clean = do_write(path, content);
      int ops = g.ops;
      disarm();
      Bytes now;
      VF_CHECK(clean, "writing " << size << " bytes failed");
      VF_CHECK(raw_read(path, now) && now == content, "after writing " << size << " bytes over " << (before ? show(old) : "nothing") << " the file holds " << show(now));
      Result back = do_read(path);
      VF_CHECK(back.ok && back.data == content, "what was written is not read back");
      for (int at = 0; at < ops; ++at)
        for (Kind kind : {kFail, kShort, kShortThenFail})
          for (int error : {ENOSPC, EIO}) {
            prepare();
            arm(path, kind, at, error, 0);
            bool ok = do_write(path, content);
            bool failing = g.failing;
            disarm();
            ++vf::histories;
            bool there = raw_read(path, now);
            // a close that fails means the data may not be on the disk, whatever can be read now
            VF_CHECK(!ok || (there && now == content && kind != kFail), "WriteFile of " << size << " bytes reports success although call " << at << (kind == kFail ? " failed" : " was short") << " and the file holds " << show(now));
            if (kind == kShort)
              VF_CHECK(ok || !there || now != content || failing, "WriteFile reports a failure that did not happen");
          }
      // the file size limit reached at every byte (of small files)
      std::vector<size_t> limits;
      for (size_t l = 0; l < size && l < 130; ++l)
        limits.push_back(l);
      for (size_t l : {1000, 4095, 4096, 8191, 8192, 65535})
        if (l < size && l >= 130)
          limits.push_back(l);
      if (size > 130)
        limits.push_back(size - 1);
      for (size_t l : limits) {
        prepare();
        rlimit saved, limit;
        getrlimit(RLIMIT_FSIZE, &saved);
        limit = saved;
        limit.rlim_cur = l;
        setrlimit(RLIMIT_FSIZE, &limit);
        bool ok = do_write(path, content);
        setrlimit(RLIMIT_FSIZE, &saved);
        raw_read(path, now);
        VF_CHECK(!ok, "WriteFile of " << size << " bytes reports success when only " << l << " fit, and the file holds " << show(now));
        ++vf::histories;
      }
      unlink(path.c_str());
      vf::sample("writing " + std::to_string(size) + " bytes: " + std::to_string(ops) + " calls, each failing or short; " + std::to_string(limits.size()) + " size limits");
    }
  if (vf::take()) {
    unlink(path.c_str());
    for (size_t size : {1, 100, 8192, 100000})
      VF_CHECK(!do_write("/dev/full", bytes(size)), "writing " << size << " bytes to a full device reports success");
    VF_CHECK(!do_write("", bytes(3)), "writing to an empty path reports success");
    VF_CHECK(!do_write(path + "/below", bytes(3)), "writing below nothing reports success");
    mkdir((path + "d").c_str(), 0755);
    VF_CHECK(!do_write(path + "d", bytes(3)), "writing to a directory reports success");
    VF_CHECK(!do_write(path + "d/", bytes(3)), "writing to a directory reports success");
    VF_CHECK(!do_write("/", bytes(3)), "writing to the root directory reports success");
    VF_CHECK(!do_write(std::string(5000, 'a'), bytes(3)), "writing to a path that is too long reports success");
    if (!symlink("loopw", (vf::scratch + "/loopw").c_str()))
      VF_CHECK(!do_write(vf::scratch + "/loopw", bytes(3)), "writing to a loop of links reports success");
  }
}

// histories of writes, reads and removals
void histories() {
  std::vector<Bytes> contents{bytes(0), bytes(1, 5), bytes(9000, 9), bytes(8999, 11)};
  const int ops = 12, depth = vf::thorough ? 5 : 4;
  std::vector<int> h(depth);
  std::function<void(int)> go = [&](int d) {
    if (d == 2 && !vf::take())
      return;
    if (d < depth) {
      for (int o = 0; o < ops; ++o) {
        h[d] = o;
        go(d + 1);
      }
      return;
    }
    std::string p[2] = {vf::scratch + "/h0", vf::scratch + "/h1"};
    int model[2] = {-1, -1};
    unlink(p[0].c_str()), unlink(p[1].c_str());
    for (int o : h) {
      int f = o % 2, what = o / 2;
      if (what < 4) {
        VF_CHECK(do_write(p[f], contents[what]), "a write failed");
        model[f] = what;
      } else if (what == 4) {
        unlink(p[f].c_str());
        model[f] = -1;
      } else {
        rename(p[f].c_str(), p[1 - f].c_str());
        if (model[f] >= 0)
          model[1 - f] = model[f], model[f] = -1;
      }
      for (int i = 0; i < 2; ++i) {
        Result r = do_read(p[i]);
        VF_CHECK(r.ok == (model[i] >= 0) && (!r.ok || r.data == contents[model[i]]), "reading after a history of writes");
      }
    }
    vf::state(model[0] * 10 + model[1]);
    ++vf::histories;
  };
  go(0);
  vf::sample("all histories of " + std::to_string(depth) + " writes, removals and renames of two files");
}

// --- names of data objects ---
typedef maidsafe::Data::NameAndTypeId Name;
std::string hex(const std::string& s) {
  std::string out;
  for (unsigned char c : s) {
    out += "0123456789abcdef"[c / 16];
    out += "0123456789abcdef"[c % 16];
  }
  return out;
}
bool parse_name(const std::string& s, Name& n) {
  ++vf::transitions;
  try {
    n = maidsafe::detail::GetDataNameAndTypeId(boost::filesystem::path(s));
    return true;
  } catch (const std::exception&) {
    return false;
  }
}
void names() {
  std::vector<std::string> ids;
  for (int c = 0; c < 256; c += 1)
    ids.push_back(std::string(64, static_cast<char>(c)));
  for (int i = 0; i < 64; ++i) {
    std::string s(64, 0);
    s[i] = '\1';
    ids.push_back(s);
    s = std::string(64, '\xff');
    s[i] = '_';
    ids.push_back(s);
  }
  std::vector<unsigned> types{0, 1, 2, 9, 10, 99, 100, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
  for (auto& id : ids) {
    if (!vf::take())
      continue;
    for (unsigned t : types) {
      Name n{maidsafe::Identity(id), maidsafe::DataTypeId(t)};
      std::string f = maidsafe::detail::GetFileName(n).string();
      vf::outcome(vf::hash_str(f));
      VF_CHECK(f.find('/') == std::string::npos && f.size() < 255 && f.find(hex(id)) == 0, "file name " << f);
      Name back;
      VF_CHECK(parse_name(f, back) && back == n, "file name " << f << " does not map back to the name and type " << t);
      for (unsigned u : types)
        VF_CHECK(u == t || maidsafe::detail::GetFileName(Name(maidsafe::Identity(id), maidsafe::DataTypeId(u))).string() != f, "two objects with the file name " << f);
    }
  }
  vf::sample(std::to_string(ids.size()) + " names with 13 types");
  // changed file names: whatever is accepted must be the file name of what it is parsed to
  for (auto& id : {std::string(64, 0), std::string(64, '\x12'), std::string(64, '\xab')})
    for (unsigned t : {0u, 1u, 4294967295u}) {
      std::string f = maidsafe::detail::GetFileName(Name(maidsafe::Identity(id), maidsafe::DataTypeId(t))).string();
      auto check = [&](const std::string& s) {
        Name n;
        if (!parse_name(s, n))
          return;
        std::string canonical = maidsafe::detail::GetFileName(n).string();
        VF_CHECK(canonical == s, "the malformed file name " << vf::show(s) << " was accepted as that of " << canonical);
      };
      for (size_t i = 0; i <= f.size(); ++i) {
        if (!vf::take())
          continue;
        check(f.substr(0, i));
        check(f.substr(i));
        check(f.substr(0, i) + f);
        if (i < f.size())
          check(f.substr(0, i) + f.substr(i + 1));
        for (int c = 1; c < 256; ++c) {
          check(f.substr(0, i) + static_cast<char>(c) + f.substr(i));
          if (i < f.size())
            check(f.substr(0, i) + static_cast<char>(c) + f.substr(i + 1));
        }
      }
      if (!vf::take())
        continue;
      for (const char* suffix : {"", "_", "_ 1", "_+1", "_-1", "_01", "_1 ", "_1x", "_0x1", "_4294967296", "_4294967297", "_18446744073709551615", "_18446744073709551616", "_99999999999999999999999", "__1", "_1_1", "_1/", "/_1"})
        check(hex(id) + suffix);
      check(""), check("_"), check("_1"), check("1"), check("/"), check("a_1");
      for (size_t n = 0; n < 140; ++n)
        for (char c : {'0', '1', 'a', 'A', '_'}) {
          check(std::string(n, c));
          check(std::string(n, c) + "_1");
        }
    }
  if (vf::take()) {
    bool threw = false;
    try {
      maidsafe::detail::GetFileName(Name());
    } catch (const std::exception&) {
      threw = true;
    }
    VF_CHECK(threw, "a file name for an uninitialised name");
  }
  vf::sample("all single edits of 9 file names");
}

// --- paths from program options ---
void options() {
  namespace po = boost::program_options;
  namespace fs = boost::filesystem;
  for (int target = 0; target < 14; ++target)
    for (int dir = 0; dir < 2; ++dir)
      for (int create = 0; create < 2; ++create) {
        if (!vf::take())
          continue;
        fs::path base = vf::scratch + "/options";
        fs::remove_all(base);
        fs::create_directories(base / "dir" / "inner");
        raw_write((base / "file").string(), bytes(5));
        fs::create_symlink("dir", base / "dirlink");
        fs::create_symlink("file", base / "filelink");
        fs::create_symlink("nothing", base / "dangling");
        fs::create_symlink("looped", base / "looped");
        mkfifo((base / "fifo").c_str(), 0644);
        static const char* const names[] = {"", "dir", "file", "dirlink", "filelink", "looped", "fifo", "new", "new/deep/er", "file/below", "dir/inner", "dir/new", "", ""};
        fs::path path = base / names[target];
        bool given = target != 12;
        if (target == 13)
          path = fs::path();
        boost::system::error_code ec;
        bool was_dir = fs::is_directory(fs::status(path, ec)), was_file = fs::is_regular_file(fs::status(path, ec)), was = target < 12 && (was_dir || was_file || target == 6);
        po::variables_map map;
        if (given)
          map.insert(std::make_pair("option", po::variable_value(boost::any(path.string()), false)));
        map.insert(std::make_pair("other", po::variable_value(boost::any(base.string()), false)));
        fs::path got;
        try {
          got = maidsafe::GetPathFromProgramOptions("option", map, dir, create);
        } catch (const std::exception& e) {
          VF_CHECK(false, "GetPathFromProgramOptions(" << path << ") threw " << e.what());
        }
        ++vf::transitions;
        std::ostringstream at;
        at << path << (dir ? " as a directory" : " as a file") << (create ? ", to be created" : "") << " gives " << got;
        if (!given || path.empty()) {
          VF_CHECK(got.empty(), at.str());
          continue;
        }
        bool ok = dir ? was_dir : was_file;
        bool creatable = create && !was && (dir ? target == 7 || target == 8 || target == 11 : target == 7 || target == 11);
        VF_CHECK(got == ((ok || creatable) ? path : fs::path()), at.str());
        if (creatable)
          VF_CHECK(dir ? fs::is_directory(path) : (fs::is_regular_file(path) && fs::file_size(path) == 0), at.str() << " but it was not created");
        else if (!create && !was)
          VF_CHECK(!fs::exists(path, ec), at.str() << " and created it");
        Bytes b;
        VF_CHECK(raw_read((base / "file").string(), b) && b == bytes(5) && fs::is_directory(base / "dir" / "inner"), at.str() << " and changed another file");
        fs::remove_all(base);
      }
  vf::sample("14 targets as files and directories");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  signal(SIGXFSZ, SIG_IGN);
  return vf::run(argc, argv, {{"reads", reads}, {"writes", writes}, {"histories", histories}, {"names", names}, {"options", options}});
}

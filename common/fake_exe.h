// The answer to "which executable is this process running", under the harness's control.
#ifndef VERIF_COMMON_FAKE_EXE_H_
#define VERIF_COMMON_FAKE_EXE_H_

#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cstring>
#include <string>

namespace vf {
struct FakeExe {
  bool active = false;
  int error = 0;         // errno, if not 0
  std::string answer;    // what the link holds
  unsigned calls = 0;
};
inline FakeExe& fake_exe() {
  static FakeExe f;
  return f;
}
inline ssize_t fake_readlink(int dir, const char* path, char* buffer, size_t size) {
  FakeExe& f = fake_exe();
  if (f.active && strcmp(path, "/proc/self/exe") == 0) {
    ++f.calls;
    if (f.error) {
      errno = f.error;
      return -1;
    }
    const size_t n = std::min(size, f.answer.size());
    memcpy(buffer, f.answer.data(), n);
    return static_cast<ssize_t>(n);
  }
  return syscall(SYS_readlinkat, dir, path, buffer, size);
}
}  // namespace vf

extern "C" {
ssize_t vf_readlink(const char* path, char* buffer, size_t size) __asm__("readlink");
ssize_t vf_readlink(const char* path, char* buffer, size_t size) {
  return vf::fake_readlink(AT_FDCWD, path, buffer, size);
}
ssize_t vf_readlink_chk(const char* path, char* buffer, size_t size, size_t) __asm__("__readlink_chk");
ssize_t vf_readlink_chk(const char* path, char* buffer, size_t size, size_t) {
  return vf::fake_readlink(AT_FDCWD, path, buffer, size);
}
ssize_t vf_readlinkat(int dir, const char* path, char* buffer, size_t size) __asm__("readlinkat");
ssize_t vf_readlinkat(int dir, const char* path, char* buffer, size_t size) {
  return vf::fake_readlink(dir, path, buffer, size);
}
ssize_t vf_readlinkat_chk(int dir, const char* path, char* buffer, size_t size, size_t) __asm__("__readlinkat_chk");
ssize_t vf_readlinkat_chk(int dir, const char* path, char* buffer, size_t size, size_t) {
  return vf::fake_readlink(dir, path, buffer, size);
}
}
#endif  // VERIF_COMMON_FAKE_EXE_H_

// A scratch directory for harnesses which run under the scheduler.
#ifndef VERIF_COMMON_SCRATCH_DIR_H_
#define VERIF_COMMON_SCRATCH_DIR_H_

#include <dirent.h>
#include <stdlib.h>
#include <unistd.h>

#include <string>

namespace vf {
inline void remove_tree(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      const std::string p = dir + "/" + n;
      if (e->d_type == DT_DIR)
        remove_tree(p);
      else
        ::unlink(p.c_str());
    }
    closedir(d);
    ::rmdir(dir.c_str());
  }
}
struct ScratchDir {
  std::string path;
  pid_t owner = getpid();
  ScratchDir() {
    char t[] = "/dev/shm/vf-mc-XXXXXX";
    char u[] = "/tmp/vf-mc-XXXXXX";
    if (char* p = mkdtemp(t))
      path = p;
    else if (char* q = mkdtemp(u))
      path = q;
    else
      abort();
  }
  ~ScratchDir() {
    if (getpid() == owner)
      remove_tree(path);
  }
};
}  // namespace vf

#endif  // VERIF_COMMON_SCRATCH_DIR_H_

// Runs a function in a forked child (for code with process-wide state) and returns what it wrote.
#ifndef VERIF_COMMON_CHILD_H_
#define VERIF_COMMON_CHILD_H_

#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cerrno>
#include <exception>
#include <functional>
#include <string>

#include "common/vf.h"

namespace vf {
struct ChildResult {
  int status;        // as of waitpid
  std::string text;  // what the function returned
  bool exited(int code = 0) const { return WIFEXITED(status) && WEXITSTATUS(status) == code; }
  std::string how() const {
    if (WIFEXITED(status))
      return "exited with " + std::to_string(WEXITSTATUS(status));
    if (WIFSIGNALED(status))
      return "was killed by signal " + std::to_string(WTERMSIG(status));
    return "ended with status " + std::to_string(status);
  }
};

// `finish` true: the child leaves through exit() (destructors of statics run).
inline ChildResult in_child(const std::function<std::string()>& f, bool finish = false, unsigned limit_seconds = 60) {
  int p[2];
  if (pipe(p) != 0)
    fail("cannot make a pipe");
  const pid_t pid = fork();
  if (pid < 0)
    fail("cannot fork");
  if (pid == 0) {
    close(p[0]);
    alarm(limit_seconds);
    signal(SIGALRM, SIG_DFL);
    int code = 0;
    std::string text;
    try {
      text = f();
    } catch (const std::exception& e) {
      text = std::string("exception: ") + e.what();
      code = 66;
    } catch (...) {
      text = "exception";
      code = 67;
    }
    size_t done = 0;
    while (done < text.size()) {
      const ssize_t n = write(p[1], text.data() + done, text.size() - done);
      if (n < 0 && errno != EINTR)
        break;
      done += n > 0 ? static_cast<size_t>(n) : 0;
    }
    close(p[1]);
    if (finish)
      exit(code);
    _exit(code);
  }
  close(p[1]);
  ChildResult r{0, {}};
  char buffer[4096];
  for (;;) {
    const ssize_t n = read(p[0], buffer, sizeof(buffer));
    if (n > 0)
      r.text.append(buffer, static_cast<size_t>(n));
    else if (n == 0 || errno != EINTR)
      break;
  }
  close(p[0]);
  while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {
  }
  return r;
}
}  // namespace vf

#endif  // VERIF_COMMON_CHILD_H_

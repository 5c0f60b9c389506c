// A dialogue with one of the interactive tools: what it reads comes line by line from a list, and
// what it writes is cut where it asks for the next line.
#ifndef VERIF_COMMON_SESSION_H_
#define VERIF_COMMON_SESSION_H_

#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>

#include <functional>
#include <iostream>
#include <streambuf>
#include <string>
#include <vector>

#include "common/child.h"
#include "common/vf.h"

namespace vf {
// hands out one line at a time
class LineSource : public std::streambuf {
 public:
  LineSource(std::vector<std::string> lines, bool last_newline, std::function<void(size_t)> before)
      : lines_(std::move(lines)), last_newline_(last_newline), before_(std::move(before)) {}
  size_t asked_after_end = 0;

 protected:
  int_type underflow() override {
    if (next_ == lines_.size()) {
      if (asked_after_end == 0)
        before_(next_);
      if (++asked_after_end > 1000)
        _exit(99);  // asks for ever
      return traits_type::eof();
    }
    before_(next_);
    line_ = lines_[next_++];
    if (next_ != lines_.size() || last_newline_)
      line_ += '\n';
    setg(&line_[0], &line_[0], &line_[0] + line_.size());
    return line_.empty() ? underflow() : traits_type::to_int_type(line_[0]);
  }

 private:
  std::vector<std::string> lines_;
  bool last_newline_;
  std::function<void(size_t)> before_;
  size_t next_ = 0;
  std::string line_;
};

struct Dialogue {
  ChildResult child;
  bool returned = false;              // the tool's main function came back, or it left through exit()
  bool endless = false;               // kept on asking after the end of its input
  int code = 0;
  size_t lines_read = 0;
  std::vector<std::string> said;      // before it read line 0, 1, ..., and after the last one it read
  std::string after(size_t line) const { return line + 1 < said.size() ? said[line + 1] : ""; }
};

namespace session_detail {
struct State {
  std::string text;                   // what has been said, cut by '\1' (others are escaped)
  char* memory = nullptr;
  size_t size = 0;
  size_t cut_at = 0;
  size_t lines = 0;
  std::string cout_text;
};
inline std::string escape(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '\1' || c == '\2' || c == '\0') {
      r += '\2';
      r += static_cast<char>('0' + c);
    } else {
      r += c;
    }
  }
  return r;
}
// everything written with cout or printf, in order
class Teller : public std::streambuf {
 protected:
  int_type overflow(int_type c) override {
    if (!traits_type::eq_int_type(c, traits_type::eof()))
      fputc(c, stdout);
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    return static_cast<std::streamsize>(fwrite(s, 1, static_cast<size_t>(n), stdout));
  }
};
}  // namespace session_detail

// Runs `tool` in a process of its own with the given lines as its standard input.
inline Dialogue talk(const std::vector<std::string>& lines, const std::function<int()>& tool, bool last_newline = true, unsigned limit_seconds = 60) {
  int p[2];
  if (pipe(p) != 0)
    fail("cannot make a pipe");
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0)
    fail("cannot fork");
  if (pid == 0) {
    close(p[0]);
    alarm(limit_seconds);
    signal(SIGALRM, SIG_DFL);
    // a tool that goes on for ever without input is ended by its use of processor time
    const rlimit used = {5, 5};
    setrlimit(RLIMIT_CPU, &used);
    static session_detail::State s;
    static int out = p[1];
    static FILE* memory = open_memstream(&s.memory, &s.size);
    stdout = memory;
    static session_detail::Teller teller;
    std::cout.rdbuf(&teller);
    static LineSource* source = new LineSource(lines, last_newline, [](size_t) {
      fflush(memory);
      s.text += session_detail::escape(std::string(s.memory + s.cut_at, s.size - s.cut_at)) + '\1';
      s.cut_at = s.size;
      ++s.lines;
    });
    std::cin.rdbuf(source);
    std::cin.clear();
    // whatever way it ends normally: report
    static const auto report = [](char how, int code) {
      fflush(memory);
      s.text += session_detail::escape(std::string(s.memory + s.cut_at, s.size - s.cut_at));
      std::string all = std::string(1, how) + std::to_string(code) + '\1' + s.text;
      for (size_t done = 0; done < all.size();) {
        const ssize_t n = write(out, all.data() + done, all.size() - done);
        if (n <= 0 && errno != EINTR)
          break;
        done += n > 0 ? static_cast<size_t>(n) : 0;
      }
    };
    static bool reported = false;
    on_exit([](int code, void*) {
      if (!reported)
        report('E', code);
      _exit(code);
    }, nullptr);
    const int code = tool();  // an exception terminates the process, as it would the tool
    reported = true;
    report('R', code);
    _exit(code & 0xff);
  }
  close(p[1]);
  Dialogue d;
  std::string text;
  char buffer[65536];
  for (;;) {
    const ssize_t n = read(p[0], buffer, sizeof(buffer));
    if (n > 0)
      text.append(buffer, static_cast<size_t>(n));
    else if (n == 0 || errno != EINTR)
      break;
  }
  close(p[0]);
  d.child.status = 0;
  while (waitpid(pid, &d.child.status, 0) < 0 && errno == EINTR) {
  }
  d.endless = text.empty() && (d.child.exited(99) || (WIFSIGNALED(d.child.status) && (WTERMSIG(d.child.status) == SIGXCPU || WTERMSIG(d.child.status) == SIGKILL)));
  if (!text.empty() && WIFEXITED(d.child.status)) {
    d.returned = true;
    std::vector<std::string> parts(1);
    for (size_t i = 0; i < text.size(); ++i) {
      if (text[i] == '\1')
        parts.emplace_back();
      else if (text[i] == '\2' && i + 1 < text.size())
        parts.back() += static_cast<char>(text[++i] - '0');
      else
        parts.back() += text[i];
    }
    d.code = atoi(parts[0].c_str() + 1);
    d.said.assign(parts.begin() + 1, parts.end());
    d.lines_read = d.said.empty() ? 0 : d.said.size() - 1;
  }
  return d;
}
}  // namespace vf

#endif  // VERIF_COMMON_SESSION_H_

// C36: what a process which makes visualiser messages leaves in the visualiser's log file and sends to its server.
// Each case runs in a process of its own; the server is a thread of this one.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>

#include <climits>
#include <cstring>

#include <atomic>
#include <fstream>
#include <functional>
#include <future>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/log.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/visualiser_log.h"

#include "common/child.h"
#include "common/scratch_dir.h"
#include "common/vf.h"

using maidsafe::Identity;
using maidsafe::log::Logging;
using Vlog = maidsafe::log::VisualiserLogMessage;

DEFINE_OSTREAMABLE_ENUM_VALUES(Persona, int32_t, (MaidNode)(DataGetter)(CacheHandler)(X))
DEFINE_OSTREAMABLE_ENUM_VALUES(Action, uint64_t, (Put)(Get)(AccountTransfer)(IncrementReferenceCount))
DEFINE_OSTREAMABLE_ENUM_VALUES(Small, int8_t, (Left)(Right))
DEFINE_OSTREAMABLE_ENUM_VALUES(Wide, uint16_t, (Only))

namespace {
const timespec kNow = {1404219841, 12345678};
const char kTime[] = "2014-07-01 13:04:01.012345678";
bool g_fixed_clock = false;
}  // namespace
extern "C" int clock_gettime(clockid_t id, timespec* ts) {
  if (id == CLOCK_REALTIME && g_fixed_clock) {
    *ts = kNow;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
// The library writes requests in small parts, each of which would wait for the acknowledgement of the one before.
extern "C" int socket(int family, int type, int protocol) {
  const int fd = static_cast<int>(syscall(SYS_socket, family, type, protocol));
  const int one = 1;
  if (fd >= 0 && (family == AF_INET || family == AF_INET6))
    ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  return fd;
}

namespace {

std::string slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::ostringstream os;
  os << f.rdbuf();
  return os.str();
}

// --- the server ---
enum Answer { kOk, kNotFound, kLong, kInPieces, kHangUpAfter, kHangUpBefore, kAnswers };
const char* const kAnswerNames[] = {"200", "404", "a long page", "pieces", "200 and the end", "the end"};

struct Request {
  std::string method, path, type, host, body;
};
// Runs in a process of its own.
struct Server {
  int port = 0;
  int fd = -1;
  std::atomic<int>* answer = nullptr;  // in shared memory
  std::vector<Request> got;

  Server() {
    fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    if (fd < 0 || ::bind(fd, reinterpret_cast<sockaddr*>(&a), n) != 0 || ::listen(fd, 64) != 0 ||
        ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) != 0)
      vf::fail("cannot listen on the loopback");
    port = ntohs(a.sin_port);
    void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)
      vf::fail("no shared memory");
    answer = new (m) std::atomic<int>(kOk);
    const pid_t parent = getpid(), pid = fork();
    if (pid < 0)
      vf::fail("cannot fork");
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (getppid() != parent)
        _exit(0);
      alarm(0);
      for (int f = 0; f < 1000; ++f)
        if (f != fd)
          ::close(f);
      serve();
    }
    ::close(fd);
  }
  void serve() {
    for (;;) {
      const int c = ::accept(fd, nullptr, nullptr);
      if (c < 0)
        continue;
      std::string in;
      while (request(c, in)) {
      }
      ::close(c);
    }
  }
  static bool more(int c, std::string& in) {
    char b[65536];
    const ssize_t n = ::recv(c, b, sizeof b, 0);
    if (n <= 0)
      return false;
    in.append(b, static_cast<size_t>(n));
    return true;
  }
  bool request(int c, std::string& in) {
    size_t end;
    for (;;) {
      while (in.compare(0, 2, "\r\n") == 0)
        in.erase(0, 2);
      if ((end = in.find("\r\n\r\n")) != std::string::npos)
        break;
      if (!more(c, in))
        return false;
    }
    Request r;
    std::istringstream head(in.substr(0, end + 2));
    in.erase(0, end + 4);
    std::string version, line;
    std::getline(head, line);
    if (line.size() > 9 && line.substr(line.size() - 10) == " HTTP/1.1\r") {
      line.resize(line.size() - 10);
      const size_t space = line.find(' ');
      r.method = line.substr(0, space);
      r.path = space == std::string::npos ? "" : line.substr(space + 1);
    }
    auto say = [&](const std::string& s) {
      size_t done = 0;
      while (done < s.size()) {
        const ssize_t n = ::send(c, s.data() + done, s.size() - done, MSG_NOSIGNAL);
        if (n <= 0)
          return false;
        done += static_cast<size_t>(n);
      }
      return true;
    };
    if (r.method == "SYNC") {
      std::string all;
      for (auto& g : got)
        for (auto* f : {&g.method, &g.path, &g.type, &g.host, &g.body})
          all += std::to_string(f->size()) + " " + *f;
      got.clear();
      say(all);
      return false;
    }
    size_t length = 0;
    while (std::getline(head, line)) {
      if (!line.empty() && line.back() == '\r')
        line.pop_back();
      const size_t colon = line.find(':');
      if (colon == std::string::npos)
        continue;
      std::string name = line.substr(0, colon), value = line.substr(line.find_first_not_of(' ', colon + 1));
      for (auto& ch : name)
        ch = static_cast<char>(tolower(ch));
      if (name == "content-length")
        length = std::stoul(value);
      if (name == "content-type")
        r.type = value;
      if (name == "host")
        r.host = value;
    }
    while (in.size() < length)
      if (!more(c, in))
        return false;
    r.body = in.substr(0, length);
    in.erase(0, length);
    got.push_back(r);
    switch (answer->load()) {
      case kOk: return say("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
      case kNotFound: return say("HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\n\r\nnot found");
      case kLong: return say("HTTP/1.1 200 OK\r\nContent-Length: 20000\r\n\r\n" + std::string(20000, 'x'));
      case kInPieces: return say("HTTP/1") && say(".1 ") && say("20") && say("0 O") && say("K\r\nContent-Length: 0\r\n") && say("\r\n");
      case kHangUpAfter: say("HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"); return false;
      case kHangUpBefore: return false;
      case kAnswers: break;
    }
    return false;
  }
  // Everything which connected before was handled to its end.
  std::vector<Request> take() {
    const int c = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(static_cast<uint16_t>(port));
    const std::string sync = "SYNC / HTTP/1.1\r\n\r\n";
    if (::connect(c, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || ::send(c, sync.data(), sync.size(), MSG_NOSIGNAL) < 0)
      vf::fail("cannot reach the server");
    std::string all;
    while (more(c, all)) {
    }
    ::close(c);
    std::vector<Request> out;
    for (size_t i = 0; i < all.size();) {
      Request r;
      for (auto* f : {&r.method, &r.path, &r.type, &r.host, &r.body}) {
        const size_t space = all.find(' ', i), n = std::stoul(all.substr(i, space - i));
        *f = all.substr(space + 1, n);
        i = space + 1 + n;
      }
      out.push_back(r);
    }
    return out;
  }
  void set(Answer a) { answer->store(a); }
};
Server& server() {
  static Server* s = new Server;
  return *s;
}

// --- JSON: an object of strings ---
bool parse(const std::string& s, std::map<std::string, std::string>& out) {
  size_t i = 0;
  auto space = [&] {
    while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i])
      ++i;
  };
  auto text = [&](std::string& t) {
    if (i >= s.size() || s[i++] != '"')
      return false;
    while (i < s.size() && s[i] != '"') {
      const unsigned char c = static_cast<unsigned char>(s[i++]);
      if (c < 0x20)
        return false;
      if (c != '\\') {
        t += static_cast<char>(c);
        continue;
      }
      if (i >= s.size())
        return false;
      const char e = s[i++];
      const char* simple = strchr("\"\\/bfnrt", e);
      if (e && simple) {
        t += "\"\\/\b\f\n\r\t"[simple - "\"\\/bfnrt"];
      } else if (e == 'u') {
        unsigned v = 0;
        for (int k = 0; k < 4; ++k, ++i) {
          if (i >= s.size() || !isxdigit(static_cast<unsigned char>(s[i])))
            return false;
          v = v * 16 + static_cast<unsigned>(isdigit(static_cast<unsigned char>(s[i])) ? s[i] - '0' : tolower(s[i]) - 'a' + 10);
        }
        if (v < 0x80)
          t += static_cast<char>(v);
        else if (v < 0x800)
          t += static_cast<char>(0xc0 | (v >> 6)), t += static_cast<char>(0x80 | (v & 63));
        else
          t += static_cast<char>(0xe0 | (v >> 12)), t += static_cast<char>(0x80 | ((v >> 6) & 63)), t += static_cast<char>(0x80 | (v & 63));
      } else {
        return false;
      }
    }
    return i < s.size() && s[i++] == '"';
  };
  space();
  if (i >= s.size() || s[i++] != '{')
    return false;
  for (bool first = true;; first = false) {
    space();
    if (i < s.size() && s[i] == '}') {
      ++i;
      break;
    }
    if (!first && (i >= s.size() || s[i++] != ','))
      return false;
    space();
    std::string k, v;
    if (!text(k))
      return false;
    space();
    if (i >= s.size() || s[i++] != ':')
      return false;
    space();
    if (!text(v) || out.count(k))
      return false;
    out[k] = v;
  }
  space();
  return i == s.size();
}
std::string fields(const std::map<std::string, std::string>& m) {
  std::string s;
  for (auto& f : m)
    s += f.first + "=" + vf::show(f.second) + " ";
  return s;
}

std::string hex(const std::string& s) {
  std::string out;
  for (unsigned char c : s) {
    out += "0123456789abcdef"[c >> 4];
    out += "0123456789abcdef"[c & 15];
  }
  return out;
}
std::string in_request(const std::string& v) { return v.size() == 64 ? hex(v) : v; }
std::string in_file(const std::string& v) { return v.size() == 64 ? hex(v).substr(0, 6) + ".." + hex(v).substr(122) : v; }

// --- messages ---
struct Want {
  std::string persona_name, persona, action_name, action, one, two;
  bool has_persona = false;
  bool stopped = false;  // of another vault: not in the file
  std::string vault, session;
};
struct Step {
  std::function<void()> act;
  std::vector<Want> want;
  std::string name;
};
struct Setup {
  std::string prefix = "the vault", session = "the session", dir = "/log/me";
  std::vector<std::string> args;
  Answer answer = kOk;
  bool initialise = true;
  bool logging = true;  // has been initialised
};

Want want(const std::string& action_name, const std::string& action, const std::string& one, const std::string& two = "") {
  Want w;
  w.action_name = action_name;
  w.action = action;
  w.one = one;
  w.two = two;
  return w;
}
Want with(const std::string& persona_name, const std::string& persona, Want w) {
  w.has_persona = true;
  w.persona_name = persona_name;
  w.persona = persona;
  return w;
}

std::string g_dir;
void initialise_logging(const Setup& s) {
  g_fixed_clock = true;
  // without logging the file is written to the current folder
  if (mkdir(g_dir.c_str(), 0700) != 0 || chdir(g_dir.c_str()) != 0)
    vf::fail("no folder");
  if (!s.logging)
    return;
  std::vector<std::string> all = {"/bin/exe"};
  all.insert(all.end(), s.args.begin(), s.args.end());
  for (const std::string& a : {std::string("--log_folder"), g_dir, std::string("--log_config"), std::string("/nonexistent"), std::string("--log_no_console")})
    all.push_back(a);
  std::vector<std::vector<char>> text;
  std::vector<char*> argv;
  for (auto& a : all) {
    text.emplace_back(a.begin(), a.end());
    text.back().push_back(0);
  }
  for (auto& t : text)
    argv.push_back(t.data());
  argv.push_back(nullptr);
  Logging::Instance().Initialise(static_cast<int>(all.size()), argv.data());
}

// All tasks of the background thread are done.
void wait_for_background() {
  std::promise<void> p;
  Logging::Instance().Send([&p] { p.set_value(); });
  p.get_future().wait();
}

std::string log_file(const std::string& dir, const std::string& where) {
  std::string found;
  int n = 0;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string name = e->d_name;
      if (name.size() > 14 && name.substr(name.size() - 14) == "visualiser.log") {
        found = slurp(dir + "/" + name);
        ++n;
      }
    }
    closedir(d);
  }
  VF_CHECK(n <= 1, where << ": there are " << n << " files of the visualiser");
  return found;
}

std::string line_of(const Setup& s, const Want& w) {
  return std::string(kTime) + "," + s.prefix + "," + s.session + "," + (w.has_persona ? w.persona_name + "," : "") + w.action_name + "," + in_file(w.one) +
         (w.two.empty() ? "" : "," + in_file(w.two)) + "\n";
}
std::map<std::string, std::string> body_of(const Setup& s, const Want& w) {
  std::map<std::string, std::string> m = {{"ts", kTime},
                                          {"vaultId", w.stopped ? w.vault : s.prefix},
                                          {"sessionId", w.stopped ? w.session : s.session},
                                          {"actionId", w.action},
                                          {"valueOne", in_request(w.one)}};
  if (!w.two.empty())
    m["valueTwo"] = in_request(w.two);
  if (w.has_persona)
    m["personaId"] = w.persona;
  return m;
}

// Below `solid` single requests may get lost, but never two in a row.
void judge(const Setup& s, const std::vector<Want>& wants, const std::string& where, size_t solid = 0) {
  std::string file;
  for (auto& w : wants)
    if (!w.stopped)
      file += line_of(s, w);
  const std::string got = log_file(g_dir, where);
  size_t same = 0;
  while (same < got.size() && same < file.size() && got[same] == file[same])
    ++same;
  VF_CHECK(got == file, where << ": the file differs at byte " << same << ": " << vf::show(got.substr(same < 60 ? 0 : same - 60, 160)) << " instead of "
                              << vf::show(file.substr(same < 60 ? 0 : same - 60, 160)));
  const auto requests = server().take();
  if (solid == 0)
    VF_CHECK(requests.size() == wants.size(), where << ": the server got " << requests.size() << " of " << wants.size() << " requests");
  size_t at = 0;
  bool lost = false;
  auto lose = [&](size_t i) {
    VF_CHECK(at < solid && !lost, where << ": message " << at << " of " << wants.size() << " never reached the server (request " << i << " came next)");
    lost = true;
    ++at;
  };
  for (size_t i = 0; i < requests.size(); ++i) {
    auto& r = requests[i];
    VF_CHECK(r.method == "POST" && r.path == s.dir && r.type == "application/json" && r.host == "127.0.0.1:" + std::to_string(server().port),
             where << ": the head of a request: " << r.method << " " << r.path << " " << r.type << " " << r.host);
    std::map<std::string, std::string> m;
    VF_CHECK(parse(r.body, m), where << ": the body of request " << i << " is not a JSON object of strings: " << vf::show(r.body));
    while (solid > 0 && at < wants.size() && m != body_of(s, wants[at]))
      lose(i);
    VF_CHECK(at < wants.size(), where << ": an unexpected or repeated request: " << fields(m));
    VF_CHECK(m == body_of(s, wants[at]), where << ": request " << i << " has " << fields(m) << " instead of " << fields(body_of(s, wants[at])));
    lost = false;
    ++at;
  }
  while (at < wants.size())
    lose(requests.size());
  vf::transitions += wants.size();
  ++vf::histories;
}

const std::vector<std::vector<std::string>> kModes = {{}, {"--log_no_async"}, {"--log_common=v"}, {"--log_*=v", "--log_no_async"}};
void new_dir() {
  static int n = 0;
  g_dir = vf::scratch + "/logs" + std::to_string(n++);
}

void check(const Setup& s, const std::vector<Step>& steps, const std::string& where) {
  new_dir();
  server().set(s.answer);
  const int port = server().port;
  auto r = vf::in_child(
      [&]() -> std::string {
        initialise_logging(s);
        if (s.initialise)
          Logging::Instance().InitialiseVlog(s.prefix, s.session, "127.0.0.1", static_cast<uint16_t>(port), s.dir);
        for (auto& step : steps)
          try {
            step.act();
          } catch (const std::exception& e) {
            throw std::runtime_error(step.name + ": " + boost::diagnostic_information(e));
          }
        return "";
      },
      true, 20);
  VF_CHECK(r.exited(), where << ": the process " << r.how() << " " << r.text);
  std::vector<Want> wants;
  for (auto& step : steps)
    wants.insert(wants.end(), step.want.begin(), step.want.end());
  judge(s, wants, where);
  vf::remove_tree(g_dir);
  vf::outcome(vf::hash_str(where));
}

const Identity id(unsigned char first, int step = 1) {
  std::string s;
  for (int i = 0; i < 64; ++i)
    s += static_cast<char>(first + i * step);
  return Identity(s);
}
std::string bytes(const Identity& i) {
  const auto s = i.string();
  return std::string(s.begin(), s.end());
}

// Statements of every form with these values.
void all_forms(std::vector<Step>& out, const std::string& text, unsigned char n) {
  const std::string name = "the value " + vf::show(text);
  out.push_back({[text] { Vlog(Action::kPut, text); }, {want("Put", "0", text)}, name});
  const Identity i = id(n, n % 2 ? 1 : 7);
  out.push_back({[=] { Vlog(Action::kAccountTransfer, i, text); }, {want("AccountTransfer", "2", bytes(i), text)}, name});
  if (text.find('\0') == std::string::npos) {
    out.push_back({[=] { Vlog(Small::kRight, text.c_str()); }, {want("Right", "1", text)}, name});
    out.push_back({[=] {
                     std::string t = text;
                     Vlog(Wide::kOnly, i, &t[0]);
                   },
                   {want("Only", "0", bytes(i), text)}, name});
  }
}
std::vector<std::string> texts() {
  std::vector<std::string> all;
  for (int b = 0; b < 256; ++b)
    all.push_back(std::string(1, static_cast<char>(b)));
  const std::string special("\0\"\\/,:{}\n\r\t\x7f\x80\xff aZ&=%+", 21);
  for (char a : special)
    for (char b : special)
      all.push_back(std::string(1, a) + b);
  for (size_t n : {0, 3, 15, 16, 17, 62, 63, 64, 65, 66, 127, 128, 129, 500, 512, 513, 1000, 4095, 4096, 8192, 70000})
    all.push_back(std::string(n, 'v'));
  for (int b = 0; b < 256; ++b)
    all.push_back(std::string(64, static_cast<char>(b)));
  if (vf::thorough)
    for (int a = 0; a < 256; ++a)
      for (int b = 0; b < 256; ++b)
        all.push_back(std::string(1, static_cast<char>(a)) + static_cast<char>(b));
  return all;
}
void strings() {
  const auto all = texts();
  for (size_t mode = 0; mode < kModes.size(); ++mode)
    for (size_t from = 0; from < all.size(); from += 64) {
      if (!vf::take())
        continue;
      Setup s;
      s.args = kModes[mode];
      std::vector<Step> steps;
      for (size_t i = from; i < std::min(all.size(), from + 64); ++i)
        all_forms(steps, all[i], static_cast<unsigned char>(i));
      check(s, steps, "strings from " + std::to_string(from));
    }
}

// The names of the vault, the session and the path on the server.
void names() {
  for (int b = 0; b < 256; ++b)
    for (int which = 0; which < 2; ++which) {
      if (!vf::take())
        continue;
      Setup s;
      s.args = kModes[static_cast<size_t>(b) % kModes.size()];
      (which ? s.session : s.prefix) = "a" + std::string(1, static_cast<char>(b)) + "b";
      std::vector<Step> steps;
      all_forms(steps, "text", 1);
      check(s, steps, std::string(which ? "session " : "prefix ") + vf::show(which ? s.session : s.prefix));
    }
  for (size_t n : {0, 1, 63, 64, 65, 1000})
    for (int which = 0; which < 2; ++which)
      for (const std::string dir : {std::string("/"), std::string("/a/b?c=d"), "/very/" + std::string(300, 'x')}) {
        if (!vf::take())
          continue;
        Setup s;
        if (n > 0 || which == 0)
          (which ? s.session : s.prefix) = std::string(n, 's');
        s.dir = dir;
        std::vector<Step> steps;
        all_forms(steps, "text", 1);
        check(s, steps, std::to_string(n) + " characters of " + (which ? "session" : "prefix"));
      }
}

template <typename T>
void numbers_of(std::vector<Step>& out) {
  const T low = std::numeric_limits<T>::min(), high = std::numeric_limits<T>::max();
  for (T v : {low, static_cast<T>(low + 1), static_cast<T>(0), static_cast<T>(1), static_cast<T>(high / 2), static_cast<T>(high - 1), high}) {
    std::string text = v < T() ? "-" : "";  // to_string is what the library uses
    unsigned long long u = static_cast<unsigned long long>(v);
    if (v < T())
      u = 0 - u;
    std::string digits;
    do {
      digits.insert(digits.begin(), static_cast<char>('0' + u % 10));
      u /= 10;
    } while (u);
    text += digits;
    out.push_back({[v] { Vlog(Action::kGet, v); }, {want("Get", "1", text)}, "number"});
    out.push_back({[v] { Vlog(Persona::kDataGetter, Action::kGet, v); }, {with("DataGetter", "1", want("Get", "1", text))}, "number"});
    out.push_back({[v] { Vlog(Wide::kOnly, Small::kLeft, v); }, {with("Only", "0", want("Left", "0", text))}, "number"});
  }
}
void numbers() {
  for (auto& mode : kModes) {
    if (!vf::take())
      continue;
    std::vector<Step> steps;
    numbers_of<signed char>(steps);
    numbers_of<unsigned char>(steps);
    numbers_of<char>(steps);
    numbers_of<int16_t>(steps);
    numbers_of<uint16_t>(steps);
    numbers_of<int32_t>(steps);
    numbers_of<uint32_t>(steps);
    numbers_of<int64_t>(steps);
    numbers_of<uint64_t>(steps);
    numbers_of<long long>(steps);
    numbers_of<unsigned long long>(steps);
    Setup s;
    s.args = mode;
    check(s, steps, "numbers");
  }
}
void identities() {
  for (int first = 0; first < 256; first += 16) {
    if (!vf::take())
      continue;
    std::vector<Step> steps;
    for (int f = first; f < first + 16; ++f)
      for (int step : {0, 1, 3}) {
        const Identity i = id(static_cast<unsigned char>(f), step), j = id(static_cast<unsigned char>(~f), step);
        steps.push_back({[=] { Vlog(Persona::kMaidNode, Action::kPut, i); }, {with("MaidNode", "0", want("Put", "0", bytes(i)))}, "identity"});
        steps.push_back(
            {[=] { Vlog(Persona::kCacheHandler, Action::kPut, i, j); }, {with("CacheHandler", "2", want("Put", "0", bytes(i), bytes(j)))}, "identities"});
        steps.push_back({[=] { Vlog(Small::kLeft, Wide::kOnly, j, i); }, {with("Left", "0", want("Only", "0", bytes(j), bytes(i)))}, "identities"});
        steps.push_back({[=] { Vlog(Action::kIncrementReferenceCount, i); }, {want("IncrementReferenceCount", "3", bytes(i))}, "identity"});
        steps.push_back({[=] { Vlog(Action::kPut, i, j); }, {want("Put", "0", bytes(i), bytes(j))}, "identities"});
        steps.push_back({[=] { Vlog(Action::kPut, i, Identity()); }, {want("Put", "0", bytes(i))}, "identity"});
      }
    check(Setup(), steps, "identities from " + std::to_string(first));
  }
}

template <typename F>
Step throws(const std::string& name, maidsafe::CommonErrors error, F f) {
  const int code = make_error_code(error).value();
  return {[=] {
            bool thrown = false;
            try {
              f();
            } catch (const maidsafe::maidsafe_error& e) {
              VF_CHECK(e.code().value() == code, "throws " << e.code().value() << " instead of " << code);
              thrown = true;
            }
            if (!thrown)
              throw std::runtime_error("nothing is thrown");
          },
          {},
          name};
}

// Values that are no enumerators, and no identity; and every one which is.
void enumerations() {
  using E = maidsafe::CommonErrors;
  for (auto& mode : kModes) {
    if (!vf::take())
      continue;
    std::vector<Step> steps;
    const Identity i = id(1);
    const std::vector<std::string> actions = {"Put", "Get", "AccountTransfer", "IncrementReferenceCount"}, personas = {"MaidNode", "DataGetter", "CacheHandler", "X"};
    for (int p = 0; p < 4; ++p)
      for (uint64_t a = 0; a < 4; ++a) {
        const auto pe = static_cast<Persona>(p);
        const auto ae = static_cast<Action>(a);
        const Want w = with(personas[static_cast<size_t>(p)], std::to_string(p), want(actions[a], std::to_string(a), bytes(i)));
        steps.push_back({[=] { Vlog(pe, ae, i); }, {w}, "valid"});
      }
    for (int64_t v : {INT64_MIN, int64_t{-1}, int64_t{4}, int64_t{5}, int64_t{255}, int64_t{256}, int64_t{1} << 32, INT64_MAX}) {
      const auto a = static_cast<Action>(v);
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(a, i); }));
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(a, i, i); }));
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(a, 99); }));
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(a, "text"); }));
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(a, i, std::string("text")); }));
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(Persona::kMaidNode, a, i); }));
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(Persona::kMaidNode, a, 99); }));
    }
    for (int32_t v : {INT32_MIN, -1, 4, 5, 256, INT32_MAX}) {
      const auto p = static_cast<Persona>(v);
      steps.push_back(throws("invalid persona", E::invalid_argument, [=] { Vlog(p, Action::kGet, i); }));
      steps.push_back(throws("invalid persona", E::invalid_argument, [=] { Vlog(p, Action::kGet, i, i); }));
      steps.push_back(throws("invalid persona", E::invalid_argument, [=] { Vlog(p, Action::kGet, 99); }));
      steps.push_back(throws("invalid persona and action", E::invalid_argument, [=] { Vlog(p, static_cast<Action>(v), 99); }));
    }
    for (int v : {-128, -1, 2, 127}) {
      const auto e = static_cast<Small>(v);
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(e, i); }));
    }
    for (int v : {1, 2, 65535}) {
      const auto e = static_cast<Wide>(v);
      steps.push_back(throws("invalid action", E::invalid_argument, [=] { Vlog(e, i); }));
    }
    steps.push_back(throws("no identity", E::uninitialised, [] { Vlog(Action::kGet, Identity()); }));
    steps.push_back(throws("no identity", E::uninitialised, [] { Vlog(Action::kGet, Identity(), std::string("x")); }));
    steps.push_back(throws("no identity", E::uninitialised, [] { Vlog(Persona::kMaidNode, Action::kGet, Identity()); }));
    steps.push_back({[=] { Vlog(Action::kGet, 1); }, {want("Get", "1", "1")}, "the last"});
    Setup s;
    s.args = mode;
    check(s, steps, "enumerations");
  }
}

// The message which says that a vault has stopped.
void stopped() {
  for (int b = 0; b < 256; b += 8) {
    if (!vf::take())
      continue;
    std::vector<Step> steps;
    for (int c = b; c < b + 8; ++c)
      for (int which = 0; which < 3; ++which)
        for (int code : {0, 1, -1, INT_MAX, INT_MIN}) {
          std::string vault = "v", session = "s";
          if (which)
            (which == 1 ? vault : session) = "x" + std::string(1, static_cast<char>(c)) + "y";
          Want w = want("", "18", std::to_string(code));
          w.stopped = true;
          w.vault = vault;
          w.session = session;
          steps.push_back({[=] { Vlog::SendVaultStoppedMessage(vault, session, code); }, {w}, "stopped"});
        }
    check(Setup(), steps, "stopped vaults from byte " + std::to_string(b));
  }
}

// The library is built without VLOG: its arguments are not even evaluated.
void without() {
  if (!vf::take())
    return;
  int n = 0;
  std::vector<Step> steps = {{[&] { VLOG(Action::kGet, ++n); }, {}, "VLOG"}};
  check(Setup(), steps, "VLOG");
}

// All histories of initialising and using.
enum Op { kInit, kInitOther, kInitNoSession, kMessage, kPairMessage, kGetters, kInvalid, kStopped, kOps };
const char* const kOpNames[] = {"initialise", "initialise as another", "initialise without a session", "a message", "a message of a pair", "the getters",
                                "an invalid message", "a stopped vault"};
void history(const std::vector<int>& ops, size_t mode, const std::string& name) {
  using E = maidsafe::CommonErrors;
  Setup s;
  s.logging = mode < kModes.size();
  if (s.logging)
    s.args = kModes[mode];
  s.initialise = false;
  bool up = false;
  std::vector<Step> steps;
  const uint16_t port = static_cast<uint16_t>(server().port);
  for (size_t k = 0; k < ops.size(); ++k) {
    const std::string text = "m" + std::to_string(k);
    switch (ops[k]) {
      case kInit:
      case kInitOther:
      case kInitNoSession: {
        const std::string prefix = ops[k] == kInitOther ? "other" : "vault", session = ops[k] == kInitNoSession ? "" : ops[k] == kInitOther ? "s2" : "s1";
        const std::string dir = s.dir;
        auto f = [=] { Logging::Instance().InitialiseVlog(prefix, session, "127.0.0.1", port, dir); };
        if (up) {
          steps.push_back(throws(kOpNames[ops[k]], E::already_initialised, [=] { Logging::Instance().InitialiseVlog(prefix, session, "127.0.0.1", 1, "/no"); }));
        } else {
          steps.push_back({f, {}, kOpNames[ops[k]]});
          s.prefix = prefix;
          s.session = session;
          up = true;
        }
        break;
      }
      case kMessage:
      case kPairMessage: {
        const Identity i = id(static_cast<unsigned char>(k));
        const bool pair = ops[k] == kPairMessage;
        auto f = [=] { pair ? static_cast<void>(Vlog(Persona::kMaidNode, Action::kPut, i, i)) : static_cast<void>(Vlog(Action::kGet, text)); };
        const Want w = pair ? with("MaidNode", "0", want("Put", "0", bytes(i), bytes(i))) : want("Get", "1", text);
        if (up)
          steps.push_back({f, s.session.empty() ? std::vector<Want>() : std::vector<Want>{w}, kOpNames[ops[k]]});
        else
          steps.push_back(throws(kOpNames[ops[k]], E::unable_to_handle_request, f));
        break;
      }
      case kGetters:
        if (up) {
          const std::string prefix = s.prefix, session = s.session;
          steps.push_back({[=] {
                             if (Logging::Instance().VlogPrefix() != prefix || Logging::Instance().VlogSessionId() != session)
                               throw std::runtime_error("wrong names");
                           },
                           {},
                           kOpNames[ops[k]]});
        } else {
          steps.push_back(throws(kOpNames[ops[k]], E::unable_to_handle_request, [] { Logging::Instance().VlogPrefix(); }));
          steps.push_back(throws(kOpNames[ops[k]], E::unable_to_handle_request, [] { Logging::Instance().VlogSessionId(); }));
        }
        break;
      case kInvalid:
        steps.push_back(throws(kOpNames[ops[k]], up ? E::invalid_argument : E::unable_to_handle_request, [] { Vlog(static_cast<Action>(9), 1); }));
        break;
      case kStopped:
        if (!up)
          break;
        Want w = want("", "18", "7");
        w.stopped = true;
        w.vault = "gone";
        w.session = text;
        steps.push_back({[=] { Vlog::SendVaultStoppedMessage("gone", text, 7); }, {w}, kOpNames[ops[k]]});
        break;
    }
  }
  check(s, steps, name);
}
void histories() {
  const int depth = vf::thorough ? 5 : 4;
  std::vector<int> ops;
  std::function<void(const std::string&)> walk = [&](const std::string& name) {
    if (static_cast<int>(ops.size()) == depth) {
      if (vf::take())
        history(ops, vf::case_index() % (kModes.size() + 1), name);
      return;
    }
    for (int op = 0; op < kOps; ++op) {
      ops.push_back(op);
      walk(name + (name.empty() ? "" : ", ") + kOpNames[op]);
      ops.pop_back();
    }
  };
  walk("");
}

// Servers which answer badly, hang up, or come late.  What is under way when a server hangs up may be lost; whatever is sent
// afterwards is not.
void servers() {
  for (int a = 0; a < kAnswers; ++a)
    for (int b = 0; b < kAnswers; ++b)
      for (int n : {1, 2, 3, 5})
        for (size_t mode = 0; mode < kModes.size(); ++mode) {
          if (!vf::take())
            continue;
          Setup s;
          s.args = kModes[mode];
          const std::string where = std::string("a server which answers ") + kAnswerNames[a] + " and then " + kAnswerNames[b];
          new_dir();
          server().set(static_cast<Answer>(a));
          const int port = server().port;
          std::vector<Want> wants;
          for (int i = 0; i < 2 * n; ++i)
            wants.push_back(want("Get", "1", "m" + std::to_string(i)));
          auto r = vf::in_child(
              [&]() -> std::string {
                initialise_logging(s);
                Logging::Instance().InitialiseVlog(s.prefix, s.session, "127.0.0.1", static_cast<uint16_t>(port), s.dir);
                for (int i = 0; i < n; ++i)
                  Vlog(Action::kGet, "m" + std::to_string(i));
                wait_for_background();
                server().set(static_cast<Answer>(b));
                for (int i = n; i < 2 * n; ++i)
                  Vlog(Action::kGet, "m" + std::to_string(i));
                return "done";
              },
              true, 20);
          VF_CHECK(r.exited() && r.text == "done", where << ": the process " << r.how() << " " << r.text);
          judge(s, wants, where, b >= kHangUpAfter ? wants.size() : a >= kHangUpAfter ? static_cast<size_t>(n) + 1 : 0);
          vf::remove_tree(g_dir);
          vf::outcome(vf::hash_str(where));
        }
}
void late_server() {
  for (size_t mode = 0; mode < kModes.size(); ++mode)
    for (int before = 0; before < 4; ++before)
      for (int after = 0; after < 4; ++after) {
        if (!vf::take())
          continue;
        Setup s;
        s.args = kModes[mode];
        // a port where nobody listens yet
        const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t len = sizeof a;
        if (::bind(fd, reinterpret_cast<sockaddr*>(&a), len) != 0 || ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &len) != 0)
          vf::fail("no port");
        new_dir();
        auto r = vf::in_child(
            [&]() -> std::string {
              initialise_logging(s);
              Logging::Instance().InitialiseVlog(s.prefix, s.session, "127.0.0.1", ntohs(a.sin_port), s.dir);
              for (int i = 0; i < before; ++i)
                Vlog(Action::kGet, "early" + std::to_string(i));
              wait_for_background();
              ::listen(fd, 10);
              std::string got;
              std::thread serve([&] {
                const int c = ::accept(fd, nullptr, nullptr);
                std::string in;
                for (int i = 0; i < after; ++i) {
                  size_t end;
                  while ((end = in.find("}")) == std::string::npos)
                    if (!Server::more(c, in))
                      return;
                  got += in.substr(0, end + 1);
                  in.erase(0, end + 1);
                  const std::string ok = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
                  if (::send(c, ok.data(), ok.size(), MSG_NOSIGNAL) < 0)
                    return;
                }
              });
              for (int i = 0; i < after; ++i)
                Vlog(Action::kGet, "late" + std::to_string(i));
              wait_for_background();
              if (after)
                serve.join();
              else
                serve.detach();
              int count = 0;
              for (int i = 0; i < after; ++i)
                count += got.find("late" + std::to_string(i)) != std::string::npos;
              return std::to_string(count) + (got.find("early") == std::string::npos ? "" : " early");
            },
            false, 20);
        close(fd);
        const std::string where = "a late server";
        VF_CHECK(r.exited() && r.text == std::to_string(after), where << ": the process " << r.how() << ", the server got " << r.text << " instead of " << after);
        std::string file;
        for (int i = 0; i < before; ++i)
          file += line_of(s, want("Get", "1", "early" + std::to_string(i)));
        for (int i = 0; i < after; ++i)
          file += line_of(s, want("Get", "1", "late" + std::to_string(i)));
        VF_CHECK(log_file(g_dir, where) == file, where << ": the file is " << vf::show(log_file(g_dir, where)));
        vf::remove_tree(g_dir);
        vf::outcome(static_cast<uint64_t>(before * 10 + after));
        ++vf::histories;
      }
}

}  // unnamed namespace

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  return vf::run(argc, argv,
                 {{"strings", strings},
                  {"names", names},
                  {"numbers", numbers},
                  {"identities", identities},
                  {"enumerations", enumerations},
                  {"stopped vaults", stopped},
                  {"VLOG", without},
                  {"histories", histories},
                  {"servers", servers},
                  {"a late server", late_server}});
}

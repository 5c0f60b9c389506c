// C26: TCP connections and listeners, driven one handler at a time.
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "asio/io_service.hpp"
#include "asio/strand.hpp"

#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"

#include "common/fake_net.h"
#include "common/vf.h"

using maidsafe::tcp::ConnectionPtr;
using maidsafe::tcp::ListenerPtr;
using maidsafe::tcp::Message;
using maidsafe::tcp::Connection;
using maidsafe::tcp::Listener;

namespace {

std::string header(uint64_t n) {
  std::string s;
  for (int i = 3; i >= 0; --i)
    s += static_cast<char>(n >> (8 * i));
  return s;
}
std::string frame(const std::string& m) { return header(m.size()) + m; }
std::string text(const Message& m) { return std::string(m.begin(), m.end()); }
Message message(const std::string& s) { return Message(s.begin(), s.end()); }

struct Service {
  asio::io_service io;
  std::unique_ptr<asio::io_service::work> work{new asio::io_service::work(io)};
  asio::io_service::strand strand{io};
  void drain() {
    for (int i = 0; i < 100000; ++i)
      if (io.poll() == 0)
        return;
    vf::fail("the service never comes to rest");
  }
};

// One end under test.
struct End {
  std::vector<std::string> got;
  int closed = 0;
  bool late = false;  // something was delivered after the closed handler
  ConnectionPtr c;
  std::function<void(const std::string&)> on_message;
  std::function<void()> on_closed;
  void start() {
    c->Start(
        [this](Message m) {
          if (closed)
            late = true;
          got.push_back(text(m));
          if (on_message)
            on_message(got.back());
        },
        [this] {
          ++closed;
          if (on_closed)
            on_closed();
        });
  }
};

void pair(int fds[2]) {
  VF_CHECK(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds) == 0, "no socket pair");
}
ConnectionPtr connection(Service& s, int fd) {
  auto c = Connection::MakeShared(s.strand);
  c->Socket().assign(asio::ip::tcp::v4(), fd);
  return c;
}

// A connection whose peer is a plain socket.
struct Rig {
  Service s;
  End e;
  int peer = -1;
  std::string wire;  // what the peer has read
  bool peer_eof = false;
  Rig() {
    int fds[2];
    pair(fds);
    e.c = connection(s, fds[0]);
    peer = fds[1];
    ::fcntl(peer, F_SETFL, O_NONBLOCK);
  }
  ~Rig() {
    if (peer >= 0)
      ::close(peer);
  }
  void put(const std::string& bytes) {
    size_t done = 0;
    while (done < bytes.size()) {
      const ssize_t n = ::send(peer, bytes.data() + done, bytes.size() - done, MSG_NOSIGNAL);
      if (n < 0 && (errno == EPIPE || errno == ECONNRESET))
        return;
      if (n < 0 && errno == EAGAIN) {
        VF_CHECK(s.io.poll() > 0, "the connection does not read");
        continue;
      }
      VF_CHECK(n > 0, "the peer cannot write: " << strerror(errno));
      done += static_cast<size_t>(n);
    }
  }
  // Reads up to `limit` bytes.
  size_t read(size_t limit = static_cast<size_t>(-1)) {
    size_t total = 0;
    char buffer[4096];
    while (peer >= 0 && total < limit) {
      const ssize_t n = ::recv(peer, buffer, std::min(limit - total, sizeof buffer), 0);
      if (n == 0 || (n < 0 && errno != EAGAIN))
        peer_eof = true;
      if (n <= 0)
        break;
      wire.append(buffer, static_cast<size_t>(n));
      total += static_cast<size_t>(n);
    }
    return total;
  }
  void hang_up() {
    if (peer >= 0)
      ::close(peer);
    peer = -1;
  }
};

std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& m : v)
    s += (s.empty() ? "" : "|") + vf::show(m.size() > 20 ? m.substr(0, 20) + "..(" + std::to_string(m.size()) + ")" : m);
  return s;
}
void expect(const End& e, const std::vector<std::string>& want, int closed, const std::string& where) {
  VF_CHECK(e.got == want, where << ": delivered " << join(e.got) << " instead of " << join(want));
  VF_CHECK(e.closed == closed, where << ": the closed handler has run " << e.closed << " times instead of " << closed);
  VF_CHECK(!e.late, where << ": a message was delivered after the closed handler had run");
}

// The messages which are complete in a stream.
std::vector<std::string> complete(const std::string& stream, bool* bad = nullptr) {
  std::vector<std::string> out;
  size_t i = 0;
  while (stream.size() - i >= 4) {
    uint64_t n = 0;
    for (int k = 0; k < 4; ++k)
      n = n << 8 | static_cast<unsigned char>(stream[i + k]);
    if (n > Connection::MaxMessageSize()) {
      if (bad)
        *bad = true;
      break;
    }
    if (stream.size() - i - 4 < n)
      break;
    out.push_back(stream.substr(i + 4, n));
    i += 4 + n;
  }
  return out;
}

void segmentations() {
  const std::vector<std::vector<std::string>> streams = {
      {"a", "bc"}, {"a", "b", "c"}, {"abcdef"}, {std::string("\0\0\0\1", 4), std::string(1, '\0')}, {"a", "bc", "d"}};
  for (size_t k = 0; k < streams.size() - (vf::thorough ? 0 : 1); ++k) {
    std::string stream;
    for (auto& m : streams[k])
      stream += frame(m);
    for (uint32_t mask = 0; mask < (1u << (stream.size() - 1)); ++mask) {
      if (!vf::take())
        continue;
      Rig r;
      r.e.start();
      size_t from = 0;
      for (size_t i = 1; i <= stream.size(); ++i)
        if (i == stream.size() || (mask >> (i - 1) & 1)) {
          r.put(stream.substr(from, i - from));
          from = i;
          r.s.drain();
          expect(r.e, complete(stream.substr(0, i)), 0, "after byte " + std::to_string(i) + " of " + vf::show(stream));
          ++vf::transitions;
        }
      vf::outcome(mask);
    }
  }
}

void cuts() {
  std::string stream;
  for (auto& m : {std::string("a"), std::string("bcd"), std::string(300, 'x'), std::string("e")})
    stream += frame(m);
  enum How { kShut, kClose, kBothWays, kUnread, kHows };
  for (size_t cut = 0; cut <= stream.size(); ++cut)
    for (int how = 0; how < kHows; ++how)
      for (int polls = 0; polls < 8; ++polls)  // handlers run before the cut; 7: everything
        for (int late = 0; late < 2; ++late) {  // started before or after the peer wrote
          if (!vf::take())
            continue;
          Rig r;
          if (how == kUnread) {
            r.e.c->Send(message("unread"));
            r.s.drain();
          }
          if (!late)
            r.e.start();
          r.put(stream.substr(0, cut));
          if (late)
            r.e.start();
          for (int i = 0; i < polls && polls < 7; ++i)
            r.s.io.poll_one();
          if (polls == 7)
            r.s.drain();
          if (how == kShut)
            ::shutdown(r.peer, SHUT_WR);
          else if (how == kBothWays)
            ::shutdown(r.peer, SHUT_RDWR);
          else
            r.hang_up();
          r.s.drain();
          std::ostringstream os;
          os << "cut at " << cut << " in way " << how << " after " << polls << " handlers";
          expect(r.e, complete(stream.substr(0, cut)), 1, os.str());
          r.e.c->Close();
          r.s.drain();
          expect(r.e, complete(stream.substr(0, cut)), 1, os.str() + ", closed again");
          vf::outcome(cut);
          ++vf::transitions;
        }
}

void sizes() {
  const uint64_t max = Connection::MaxMessageSize();
  std::vector<uint64_t> announced = {1, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537, max - 1, max, max + 1, max + 2};
  for (int bit = 0; bit < 32; ++bit)
    for (int d = -1; d <= 1; ++d)
      announced.push_back(((uint64_t{1} << bit) + static_cast<uint64_t>(d)) & 0xffffffffu);
  announced.push_back(0xffffffffu);
  for (uint64_t n : announced)
    for (int before = 0; before < 2; ++before)
      for (int split = 0; split < 3; ++split) {
        if (n == 0 || !vf::take())
          continue;
        Rig r;
        r.e.start();
        std::vector<std::string> want;
        if (before) {
          r.put(frame("first"));
          want.push_back("first");
        }
        if (split == 1) {
          r.put(header(n).substr(0, 2));
          r.s.drain();
          r.put(header(n).substr(2));
        } else {
          r.put(header(n));
        }
        if (split != 2)
          r.s.drain();
        if (n > max) {
          r.put("following bytes");
          r.s.drain();
          expect(r.e, want, 1, "announced size " + std::to_string(n));
          r.put(frame("more"));
          r.s.drain();
          expect(r.e, want, 1, "announced size " + std::to_string(n) + " and more");
        } else {
          std::string m(static_cast<size_t>(n), '\0');
          for (size_t i = 0; i < m.size(); ++i)
            m[i] = static_cast<char>(i * 31 + (i >> 8));
          r.put(m.substr(0, m.size() - 1));
          r.s.drain();
          expect(r.e, want, 0, "one byte missing of " + std::to_string(n));
          r.put(m.substr(m.size() - 1));
          r.s.drain();
          want.push_back(m);
          expect(r.e, want, 0, "message of " + std::to_string(n));
          r.put(frame("next"));
          r.s.drain();
          want.push_back("next");
          expect(r.e, want, 0, "after a message of " + std::to_string(n));
        }
        vf::outcome(n);
      }
}

// Nothing announced beyond the maximum may be kept or allocated; the message of size zero is not specified: it may be
// ignored, delivered or closed upon, but what follows is not to be damaged.
void empty_message() {
  for (int before = 0; before < 2; ++before) {
    if (!vf::take())
      continue;
    Rig r;
    r.e.start();
    if (before)
      r.put(frame("first"));
    r.put(header(0) + frame("next"));
    r.s.drain();
    r.hang_up();
    r.s.drain();
    std::vector<std::string> got;
    for (auto& m : r.e.got)
      if (!m.empty())
        got.push_back(m);
    std::vector<std::string> all, cut;
    if (before)
      all.push_back("first"), cut.push_back("first");
    all.push_back("next");
    VF_CHECK(got == all || got == cut, "after an empty message: " << join(got));
    VF_CHECK(r.e.closed == 1 && !r.e.late, "closing after an empty message");
  }
}

template <typename F>
int code_of(F f, const std::error_category** category) {
  try {
    f();
  } catch (const maidsafe::maidsafe_error& e) {
    *category = &e.code().category();
    return e.code().value();
  }
  return 0;
}

void sending() {
  const size_t max = Connection::MaxMessageSize();
  // sizes one by one
  std::vector<size_t> list = {1, 2, 255, 256, 257, 65535, 65536, 65537, max - 1, max};
  for (size_t n = 3; n < 254; ++n)
    list.push_back(n);
  for (size_t n : list) {
    if (!vf::take())
      continue;
    Rig r;
    r.e.start();
    std::string m(n, '\0');
    for (size_t i = 0; i < n; ++i)
      m[i] = static_cast<char>(i * 7 + (i >> 8));
    r.e.c->Send(message(m));
    r.e.c->Send(message("x"));
    while (r.s.io.poll() + r.read() > 0)
      ++vf::transitions;
    VF_CHECK(r.wire == frame(m) + frame("x"), "the bytes of a message of " << n << " and of its successor are wrong");
    expect(r.e, {}, 0, "sending");
    vf::outcome(n);
  }
  // sizes which are refused, alone and between others
  for (size_t n : std::vector<size_t>{0, max + 1, max + 2, 2 * max, 16 * max})
    for (int state = 0; state < 4; ++state) {
      if (!vf::take())
        continue;
      Rig r;
      if (state > 0)
        r.e.start();
      r.e.c->Send(message("before"));
      if (state > 1)
        r.s.drain();
      if (state > 2) {
        r.e.c->Close();
        r.s.drain();
      }
      const std::error_category* category = nullptr;
      const int code = code_of([&] { r.e.c->Send(Message(n, 1)); }, &category);
      const auto want = n ? make_error_code(maidsafe::VaultManagerErrors::ipc_message_too_large)
                          : make_error_code(maidsafe::CommonErrors::outside_of_bounds);
      VF_CHECK(code == want.value() && category == &want.category(), "sending " << n << " bytes: code " << code);
      if (state < 3)
        r.e.c->Send(message("after"));
      r.s.drain();
      r.read();
      VF_CHECK(r.wire == frame("before") + (state < 3 ? frame("after") : ""), "bytes around a refused message: " << vf::show(r.wire));
      expect(r.e, {}, state == 3, "a refused message");
    }
}

// The peer reads slowly: every pattern of reads of three sizes, with buffers that hold little.
void slow_peer() {
  for (int pattern = 0; pattern < 729; ++pattern)
    for (int big = 0; big < 2; ++big) {
      if (!vf::take())
        continue;
      Rig r;
      int small = 1;
      ::setsockopt(r.e.c->Socket().native_handle(), SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
      r.e.start();
      std::string want;
      for (size_t i = 0; i < 4; ++i) {
        std::string m(i == static_cast<size_t>(big) ? 20011 : 3001 + i, static_cast<char>('a' + i));
        m[0] = '<';
        m.back() = '>';
        want += frame(m);
        r.e.c->Send(message(m));
      }
      for (int p = pattern, i = 0; i < 6; ++i, p /= 3) {
        r.s.io.poll();
        r.read(p % 3 == 0 ? 1 : p % 3 == 1 ? 2500 : 7000);
        VF_CHECK(want.compare(0, r.wire.size(), r.wire) == 0, "the bytes on the wire are wrong");
        ++vf::transitions;
      }
      if (pattern % 2) {  // messages arrive meanwhile
        r.put(frame("in"));
        r.s.drain();
      }
      while (r.s.io.poll() + r.read() > 0)
        ++vf::transitions;
      VF_CHECK(r.wire == want, "the bytes on the wire are wrong: " << r.wire.size() << " instead of " << want.size());
      expect(r.e, pattern % 2 ? std::vector<std::string>{"in"} : std::vector<std::string>{}, 0, "a slow peer");
      vf::outcome(pattern);
    }
}

// All histories of one connection.
enum Op { kStart, kSendA, kSendB, kClose, kPutMessage, kPutPart, kHangUp, kRun, kDrop, kOps };
const char* const kOpNames[] = {"Start", "Send a", "Send b", "Close", "peer sends", "peer sends a part", "peer hangs up", "run", "drop"};

void history(const std::vector<int>& ops, const std::string& name, int reaction) {
  Rig r;
  auto& e = r.e;
  bool started = false, closed = false, hung_up = false, dropped = false, sent_to_none = false;
  std::string incoming, outgoing;
  int n = 0;
  if (reaction == 1)  // answers each message
    e.on_message = [&](const std::string& m) {
      if (!dropped) {
        e.c->Send(message("re " + m));
        outgoing += frame("re " + m);
        if (hung_up)
          sent_to_none = true;
      }
    };
  if (reaction == 2)  // closes at each message
    e.on_message = [&](const std::string&) {
      if (!dropped) {
        e.c->Close();
        closed = true;
      }
    };
  if (reaction == 3) {  // does both, and closes again when closed
    e.on_message = [&](const std::string&) {
      if (!dropped) {
        e.c->Send(message("bye"));
        outgoing += frame("bye");
        e.c->Close();
        closed = true;
      }
    };
    e.on_closed = [&] {
      if (!dropped)
        e.c->Close();
    };
  }
  for (int op : ops) {
    ++vf::transitions;
    switch (op) {
      case kStart:
        e.start();
        started = true;
        break;
      case kSendA:
      case kSendB: {
        const std::string m = op == kSendA ? "a" : "bbb";
        e.c->Send(message(m));
        outgoing += frame(m);
        if (hung_up)
          sent_to_none = true;
        break;
      }
      case kClose:
        e.c->Close();
        closed = true;
        break;
      case kPutMessage: {
        const std::string m = "m" + std::to_string(n++);
        r.put(frame(m));
        incoming += frame(m);
        break;
      }
      case kPutPart:
        r.put(header(5) + "pa");
        incoming += header(5) + "pa";
        break;
      case kHangUp:
        // a peer which goes without having read everything resets the connection
        r.read();
        r.hang_up();
        hung_up = true;
        break;
      case kRun:
        r.s.io.poll_one();
        break;
      case kDrop:
        e.c.reset();
        dropped = true;
        break;
    }
    VF_CHECK(!e.late, name << ": a message was delivered after the closed handler had run");
    VF_CHECK(e.closed <= 1, name << ": the closed handler has run twice");
  }
  const std::string unread = outgoing;
  r.s.drain();
  r.read();
  VF_CHECK(!e.late, name << ": a message was delivered after the closed handler had run");
  bool bad = false;  // something too large is announced
  const auto want = complete(incoming, &bad);
  const bool self_closed = closed;
  if (bad && started)
    closed = true;
  if (!started)
    VF_CHECK(e.got.empty() && e.closed == 0, name << ": handlers were called without being set");
  else if ((!closed || (bad && !self_closed)) && !(hung_up && !outgoing.empty()))
    VF_CHECK(e.got == want, name << ": delivered " << join(e.got) << " instead of " << join(want));
  else
    VF_CHECK(e.got.size() <= want.size() && std::equal(e.got.begin(), e.got.end(), want.begin()),
             name << ": delivered " << join(e.got) << ", sent " << join(want));
  if (started)
    VF_CHECK(e.closed == (closed || hung_up), name << ": the closed handler has run " << e.closed << " times");
  if (!closed && !hung_up)
    VF_CHECK(r.wire == outgoing, name << ": the peer got " << vf::show(r.wire) << " instead of " << vf::show(outgoing));
  else
    VF_CHECK(outgoing.compare(0, r.wire.size(), r.wire) == 0, name << ": the peer got " << vf::show(r.wire) << " of " << vf::show(outgoing));
  if (closed && !hung_up)
    VF_CHECK(r.peer_eof, name << ": the peer does not see the end of a closed connection");
  vf::outcome(vf::hash_str(join(e.got) + "/" + r.wire + "/" + std::to_string(e.closed)));
  ++vf::histories;
}

void histories(int depth, int reaction) {
  std::vector<int> ops;
  std::function<void(std::string, bool, bool)> walk = [&](std::string name, bool gone, bool dropped) {
    if (!ops.empty() && (static_cast<int>(ops.size()) == depth || dropped) && vf::take())
      history(ops, name, reaction);
    if (static_cast<int>(ops.size()) == depth)
      return;
    for (int op = 0; op < kOps; ++op) {
      if (dropped && (op == kStart || op == kSendA || op == kSendB || op == kClose || op == kDrop))
        continue;
      if (gone && (op == kPutMessage || op == kPutPart || op == kHangUp))
        continue;
      if (reaction && op == kSendB)
        continue;
      ops.push_back(op);
      walk(name + (name.empty() ? "" : ", ") + kOpNames[op], gone || op == kHangUp,
           dropped || op == kDrop);
      ops.pop_back();
    }
  };
  walk("", false, false);
}

// Two connections of the library, linked.
void linked(int depth) {
  enum { kSend0, kSend1, kClose0, kClose1, kRunOne, kRunAll, kKinds };
  const char* const names[] = {"Send by A", "Send by B", "Close by A", "Close by B", "run", "run all"};
  std::vector<int> ops;
  std::function<void(std::string)> walk = [&](std::string name) {
    if (static_cast<int>(ops.size()) == depth) {
      if (!vf::take())
        return;
      Service s;
      End ends[2];
      int fds[2];
      pair(fds);
      std::vector<std::string> sent[2], arrived[2];
      bool closed[2] = {false, false};
      for (int i = 0; i < 2; ++i) {
        ends[i].c = connection(s, fds[i]);
        ends[i].start();
      }
      for (int op : ops) {
        ++vf::transitions;
        switch (op) {
          case kSend0:
          case kSend1: {
            const std::string m = (op == kSend0 ? "A" : "B") + std::string(sent[op].size() * 3 + 1, static_cast<char>('0' + sent[op].size()));
            ends[op].c->Send(message(m));
            sent[op].push_back(m);
            break;
          }
          case kClose0:
          case kClose1:
            ends[op - kClose0].c->Close();
            closed[op - kClose0] = true;
            break;
          case kRunOne:
            s.io.poll_one();
            break;
          case kRunAll:
            s.drain();
            if (!closed[0] && !closed[1])
              for (int i = 0; i < 2; ++i)
                expect(ends[i], sent[!i], 0, name);
            break;
        }
      }
      s.drain();
      for (int i = 0; i < 2; ++i) {
        if (!closed[0] && !closed[1]) {
          expect(ends[i], sent[!i], 0, name);
          continue;
        }
        const auto& got = ends[i].got;
        VF_CHECK(got.size() <= sent[!i].size() && std::equal(got.begin(), got.end(), sent[!i].begin()),
                 name << ": delivered " << join(got) << " of " << join(sent[!i]));
        VF_CHECK(ends[i].closed == 1, name << ": the closed handler has run " << ends[i].closed << " times");
        VF_CHECK(!ends[i].late, name << ": a message was delivered after the closed handler had run");
      }
      vf::outcome(vf::hash_str(join(ends[0].got) + "/" + join(ends[1].got)));
      ++vf::histories;
      return;
    }
    for (int op = 0; op < kKinds; ++op) {
      ops.push_back(op);
      walk(name + (name.empty() ? "" : ", ") + names[op]);
      ops.pop_back();
    }
  };
  walk("");
}

// --- listeners ---
struct Clients {
  std::vector<int> fds;
  ~Clients() {
    for (int fd : fds)
      if (fd >= 0)
        ::close(fd);
  }
};

void ports() {
  const int range = static_cast<int>(maidsafe::tcp::kMaxRangeAboveDefaultPort);
  auto free_port = [&](int desired, const std::set<int>& taken) {
    for (int p = desired; p <= desired + range && p <= 65535; ++p)
      if (!taken.count(p))
        return p;
    return -1;
  };
  for (int ip6 = 0; ip6 < 2; ++ip6)
    for (int desired : {1, 80, 5483, 65535 - range - 1, 65535 - range, 65530, 65534, 65535})
      for (int mask = 0; mask < 16; ++mask) {
        // which ports are taken: a run from the desired one, with gaps
        for (int run = 0; run <= range + 1; ++run) {
          if (!vf::take())
            continue;
          net::g_no_ip6 = !ip6;
          const int family = ip6 ? AF_INET6 : AF_INET;
          std::set<int> taken;
          Clients c;
          for (int k = 0; k < run; ++k) {
            const int p = desired + k;
            if (p > 65535 || (k < 4 && (mask >> k & 1)))
              continue;
            taken.insert(p);
            c.fds.push_back(net::occupy(family, p));
            VF_CHECK(c.fds.back() >= 0, "cannot occupy a port");
          }
          const int want = free_port(desired, taken);
          Service s;
          ListenerPtr l;
          int accepted = 0;
          const std::error_category* category = nullptr;
          const int code = code_of([&] { l = Listener::MakeShared(s.strand, [&](ConnectionPtr) { ++accepted; }, static_cast<maidsafe::tcp::Port>(desired)); },
                                   &category);
          if (want < 0) {
            const auto e = make_error_code(maidsafe::VaultManagerErrors::failed_to_listen);
            VF_CHECK(code == e.value() && category == &e.category(), "no port is free from " << desired << ": code " << code);
          } else {
            VF_CHECK(code == 0 && l && l->ListeningPort() == want, "listening from " << desired << ": port " << (l ? l->ListeningPort() : 0) << " instead of " << want);
            c.fds.push_back(net::connect_to(family, want));
            VF_CHECK(c.fds.back() >= 0, "nobody listens");
            s.drain();
            VF_CHECK(accepted == 1, "accepted " << accepted);
            l->StopListening();
            s.drain();
            VF_CHECK(net::connect_to(family, want) < 0, "somebody still listens");
          }
          vf::outcome(static_cast<uint64_t>(want));
          net::g_no_ip6 = false;
        }
      }
}

// A client of the library.
void connecting() {
  for (int ip6 = 0; ip6 < 2; ++ip6)
    for (int state = 0; state < 3; ++state) {
      if (!vf::take())
        continue;
      net::g_no_ip6 = !ip6;
      Service s;
      std::vector<std::unique_ptr<End>> servers;
      ListenerPtr l = Listener::MakeShared(s.strand, [&](ConnectionPtr c) {
        servers.emplace_back(new End);
        servers.back()->c = c;
        servers.back()->start();
      }, 5000);
      const auto port = l->ListeningPort();
      if (state == 1) {
        l->StopListening();
        s.drain();
      }
      End client;
      const std::error_category* category = nullptr;
      const int code = code_of([&] { client.c = Connection::MakeShared(s.strand, static_cast<maidsafe::tcp::Port>(state == 2 ? port + 1 : port)); }, &category);
      if (state) {
        const auto e = make_error_code(maidsafe::VaultManagerErrors::failed_to_connect);
        VF_CHECK(code == e.value() && category == &e.category(), "connecting where nobody listens: code " << code);
      } else {
        VF_CHECK(code == 0, "cannot connect: " << code);
        client.start();
        client.c->Send(message("hello"));
        s.drain();
        VF_CHECK(servers.size() == 1, "accepted " << servers.size());
        expect(*servers[0], {"hello"}, 0, "the server");
        servers[0]->c->Send(message("welcome"));
        s.drain();
        expect(client, {"welcome"}, 0, "the client");
        l->StopListening();
        s.drain();
        servers[0]->c->Send(message("still here"));
        client.c->Send(message("yes"));
        s.drain();
        expect(client, {"welcome", "still here"}, 0, "the client after the listener stopped");
        expect(*servers[0], {"hello", "yes"}, 0, "the server after the listener stopped");
        client.c->Close();
        s.drain();
        expect(client, {"welcome", "still here"}, 1, "the client");
        expect(*servers[0], {"hello", "yes"}, 1, "the server");
      }
      net::g_no_ip6 = false;
      vf::outcome(static_cast<uint64_t>(state));
    }
}

void listener_histories(int depth) {
  enum { kConnect, kClientGone, kAcceptFails, kRunOne, kRunAll, kStop, kDropIt, kKinds };
  const char* const names[] = {"connect", "client hangs up", "accepting fails", "run", "run all", "StopListening", "drop"};
  std::vector<int> ops;
  std::function<void(std::string, bool)> walk = [&](std::string name, bool dropped) {
    if (static_cast<int>(ops.size()) == depth) {
      if (!vf::take())
        return;
      Service s;
      Clients clients;
      std::vector<std::unique_ptr<End>> servers;
      bool stopped = false, surely_stopped = false;
      size_t connected = 0;
      ListenerPtr l = Listener::MakeShared(s.strand, [&](ConnectionPtr c) {
        VF_CHECK(!surely_stopped, name << ": accepted a connection after it had stopped");
        servers.emplace_back(new End);
        servers.back()->c = c;
        servers.back()->start();
      }, 7000);
      const int port = l->ListeningPort();
      for (int op : ops) {
        ++vf::transitions;
        switch (op) {
          case kConnect: {
            const int fd = net::connect_to(AF_INET6, port);
            VF_CHECK(stopped || fd >= 0, name << ": nobody listens");
            VF_CHECK(!surely_stopped || fd < 0, name << ": somebody listens");
            if (fd >= 0) {
              clients.fds.push_back(fd);
              const std::string hello = frame("client " + std::to_string(connected++));
              VF_CHECK(::send(fd, hello.data(), hello.size(), MSG_NOSIGNAL) == static_cast<ssize_t>(hello.size()), "cannot write");
            }
            break;
          }
          case kClientGone:
            if (!clients.fds.empty() && clients.fds.back() >= 0) {
              ::close(clients.fds.back());
              clients.fds.back() = -1;
            }
            break;
          case kAcceptFails:
            net::g_accept_error = EMFILE;
            break;
          case kRunOne:
            s.io.poll_one();
            break;
          case kRunAll:
            s.drain();
            if (stopped)
              surely_stopped = true;
            else
              VF_CHECK(servers.size() == connected, name << ": accepted " << servers.size() << " of " << connected);
            break;
          case kStop:
            l->StopListening();
            stopped = true;
            break;
          case kDropIt:
            l.reset();
            break;
        }
      }
      s.drain();
      VF_CHECK(stopped ? servers.size() <= connected : servers.size() == connected, name << ": accepted " << servers.size() << " of " << connected);
      for (size_t i = 0; i < servers.size(); ++i)
        expect(*servers[i], {"client " + std::to_string(i)}, clients.fds[i] < 0, name + ", connection " + std::to_string(i));
      if (stopped)
        VF_CHECK(net::connect_to(AF_INET6, port) < 0, name << ": somebody listens");
      net::g_accept_error = 0;
      vf::outcome(servers.size() * 2 + stopped);
      ++vf::histories;
      return;
    }
    for (int op = 0; op < kKinds; ++op) {
      if (dropped && (op == kStop || op == kDropIt))
        continue;
      ops.push_back(op);
      walk(name + (name.empty() ? "" : ", ") + names[op], dropped || op == kDropIt);
      ops.pop_back();
    }
  };
  walk("", false);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv,
                 {{"segmentations", segmentations},
                  {"cuts", cuts},
                  {"announced sizes", sizes},
                  {"an empty message", empty_message},
                  {"sending", sending},
                  {"a slow peer", slow_peer},
                  {"histories", [] { histories(vf::thorough ? 7 : 6, 0); }},
                  {"histories, answering", [] { histories(vf::thorough ? 8 : 6, 1); }},
                  {"histories, closing", [] { histories(vf::thorough ? 8 : 6, 2); }},
                  {"histories, answering and closing", [] { histories(vf::thorough ? 8 : 6, 3); }},
                  {"linked", [] { linked(vf::thorough ? 7 : 6); }},
                  {"ports", ports},
                  {"connecting", connecting},
                  {"listener histories", [] { listener_histories(vf::thorough ? 7 : 6); }}});
}

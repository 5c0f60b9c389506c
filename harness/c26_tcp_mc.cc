// C26: TCP connections and listeners whose service is run by two threads.
#include <fcntl.h>

#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "asio/io_service.hpp"
#include "asio/strand.hpp"

#include "maidsafe/common/error.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"

#include "common/fake_net.h"
#include "mc/mc.h"

using maidsafe::tcp::ConnectionPtr;
using maidsafe::tcp::ListenerPtr;
using maidsafe::tcp::Message;
using maidsafe::tcp::Connection;
using maidsafe::tcp::Listener;

namespace {

std::string frame(const std::string& m) {
  std::string s;
  for (int i = 3; i >= 0; --i)
    s += static_cast<char>(m.size() >> (8 * i));
  return s + m;
}
Message message(const std::string& s) { return Message(s.begin(), s.end()); }

struct Service {
  asio::io_service io;
  std::unique_ptr<asio::io_service::work> work{new asio::io_service::work(io)};
  asio::io_service::strand strand{io};
  std::vector<std::thread> threads;
  void run(int n) {
    for (int i = 0; i < n; ++i)
      threads.emplace_back([this] { io.run(); });
  }
  void join() {
    work.reset();
    for (auto& t : threads)
      t.join();
    threads.clear();
  }
};

// Not locked: the handlers of a connection are to be called one at a time.
struct End {
  std::vector<std::string> got;
  int closed = 0;
  ConnectionPtr c;
  std::function<void(const std::string&)> on_message;
  void start() {
    c->Start(
        [this](Message m) {
          MC_CHECK(!closed, "a message was delivered after the closed handler had run");
          got.push_back(std::string(m.begin(), m.end()));
          if (on_message)
            on_message(got.back());
        },
        [this] { MC_CHECK(++closed == 1, "the closed handler has run twice"); });
  }
  std::string all() const {
    std::string s;
    for (auto& m : got)
      s += m + " ";
    return s;
  }
};

ConnectionPtr connection(Service& s, int fd) {
  auto c = Connection::MakeShared(s.strand);
  c->Socket().assign(asio::ip::tcp::v4(), fd);
  return c;
}
struct Rig {
  Service s;
  End e;
  int peer;
  Rig() {
    int fds[2];
    MC_CHECK(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds) == 0, "no socket pair");
    e.c = connection(s, fds[0]);
    peer = fds[1];
    ::fcntl(peer, F_SETFL, O_NONBLOCK);
  }
  void put(const std::string& bytes) {
    mc::point("the peer writes");
    ::send(peer, bytes.data(), bytes.size(), MSG_NOSIGNAL);
  }
  std::string read() {
    std::string out;
    char b[1024];
    ssize_t n;
    while ((n = ::recv(peer, b, sizeof b, 0)) > 0)
      out.append(b, static_cast<size_t>(n));
    return out;
  }
  void hang_up() {
    mc::point("the peer hangs up");
    ::shutdown(peer, SHUT_WR);
  }
};
bool prefix(const std::string& a, const std::string& b) { return b.compare(0, a.size(), a) == 0; }

// The peer sends and hangs up.
void peer_hangs_up(int threads) {
  Rig r;
  r.e.start();
  r.s.run(threads);
  r.put(frame("a") + frame("b"));
  r.put(frame("c").substr(0, 3));
  r.put(frame("c").substr(3));
  r.hang_up();
  r.s.join();
  MC_CHECK(r.e.all() == "a b c ", "delivered " << r.e.all());
  MC_CHECK(r.e.closed == 1, "the closed handler has run " << r.e.closed << " times");
  mc::outcome(r.e.all());
}
// Everything is there before the threads start.
void all_at_once() {
  Rig r;
  r.put(frame("a") + frame("b") + frame("c"));
  r.hang_up();
  r.e.start();
  r.s.run(2);
  r.s.join();
  MC_CHECK(r.e.all() == "a b c ", "delivered " << r.e.all());
  MC_CHECK(r.e.closed == 1, "the closed handler has run " << r.e.closed << " times");
  mc::outcome(r.e.all());
}
// Closed while messages arrive and another thread sends.
void close_while_busy() {
  Rig r;
  r.e.start();
  r.s.run(2);
  std::thread sender([&] { r.e.c->Send(message("x")); });
  r.put(frame("a") + frame("b"));
  r.e.c->Close();
  sender.join();
  r.s.join();
  MC_CHECK(prefix(r.e.all(), "a b "), "delivered " << r.e.all());
  MC_CHECK(r.e.closed == 1, "the closed handler has run " << r.e.closed << " times");
  const std::string w = r.read();
  MC_CHECK(prefix(w, frame("x")), "on the wire");
  mc::outcome(r.e.all() + w);
}
void close_twice() {
  Rig r;
  r.e.start();
  r.s.run(2);
  std::thread other([&] { r.e.c->Close(); });
  r.put(frame("a"));
  r.hang_up();
  r.e.c->Close();
  other.join();
  r.s.join();
  MC_CHECK(prefix(r.e.all(), "a "), "delivered " << r.e.all());
  MC_CHECK(r.e.closed == 1, "the closed handler has run " << r.e.closed << " times");
  mc::outcome(r.e.all());
}
// Two threads send, and the receiver answers from its handler.
void senders() {
  Rig r;
  r.e.on_message = [&](const std::string& m) { r.e.c->Send(message("re " + m)); };
  r.e.start();
  r.s.run(2);
  std::thread sender([&] {
    r.e.c->Send(message("1"));
    r.e.c->Send(message("2"));
  });
  r.put(frame("a"));
  r.e.c->Send(message("3"));
  sender.join();
  // until everything has been sent
  std::string wire;
  for (int i = 0; i < 40 && wire.size() < 5 * 3 + 8; ++i) {
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    wire += r.read();
  }
  r.hang_up();
  r.s.join();
  wire += r.read();
  MC_CHECK(r.e.all() == "a ", "delivered " << r.e.all());
  MC_CHECK(r.e.closed == 1, "the closed handler has run " << r.e.closed << " times");
  std::string order, rest = wire;
  while (!rest.empty()) {
    bool found = false;
    for (const std::string m : {"1", "2", "3", "re a"})
      if (prefix(frame(m), rest)) {
        rest = rest.substr(4 + m.size());
        order += m.substr(0, 1);
        found = true;
        break;
      }
    MC_CHECK(found, "damaged bytes on the wire after " << order);
  }
  MC_CHECK(order.size() == 4 && order.find('1') < order.find('2') && order.find('3') != std::string::npos && order.find('r') != std::string::npos,
           "on the wire: " << order);
  mc::outcome(order);
}
// Two connections of the library.
void linked() {
  Service s;
  End a, b;
  int fds[2];
  MC_CHECK(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds) == 0, "no socket pair");
  a.c = connection(s, fds[0]);
  b.c = connection(s, fds[1]);
  a.start();
  b.on_message = [&](const std::string& m) {
    if (m == "2")
      b.c->Close();
  };
  b.start();
  s.run(2);
  a.c->Send(message("1"));
  b.c->Send(message("x"));
  a.c->Send(message("2"));
  s.join();
  MC_CHECK(b.all() == "1 2 ", "delivered " << b.all());
  MC_CHECK(prefix(a.all(), "x "), "delivered " << a.all());
  MC_CHECK(a.closed == 1 && b.closed == 1, "the closed handlers have run " << a.closed << " and " << b.closed << " times");
  mc::outcome(a.all());
}
// Nobody but the service keeps the connection.
void dropped() {
  Rig r;
  r.e.start();
  r.s.run(2);
  r.e.c->Send(message("x"));
  r.put(frame("a"));
  mc::point("drop");
  r.e.c.reset();
  r.hang_up();
  r.s.join();
  MC_CHECK(r.e.all() == "a ", "delivered " << r.e.all());
  MC_CHECK(r.e.closed == 1, "the closed handler has run " << r.e.closed << " times");
  MC_CHECK(prefix(r.read(), frame("x")), "on the wire");
}
// Started while it breaks.
void started_late() {
  Rig r;
  r.s.run(2);
  r.put(frame("a"));
  r.hang_up();
  ::shutdown(r.peer, SHUT_RDWR);
  r.e.c->Send(message("x"));
  r.e.start();
  r.s.join();
  MC_CHECK(prefix(r.e.all(), "a "), "delivered " << r.e.all());
  MC_CHECK(r.e.closed == 1, "the closed handler has run " << r.e.closed << " times");
  mc::outcome(r.e.all());
}
// A listener stopped while clients connect.
void listener(bool twice, bool drop) {
  Service s;
  struct {
    std::mutex m;
    std::vector<std::unique_ptr<End>> ends;
  } server;
  ListenerPtr l = Listener::MakeShared(s.strand, [&](ConnectionPtr c) {
    std::unique_ptr<End> e(new End);
    e->c = c;
    e->start();
    std::lock_guard<std::mutex> lock(server.m);
    server.ends.push_back(std::move(e));
  }, 7000);
  const int port = l->ListeningPort();
  s.run(2);
  int fd[2];
  for (int& f : fd) {
    mc::point("connect");
    f = net::connect_to(AF_INET6, port);
    MC_CHECK(f >= 0, "nobody listens");
    const std::string hello = frame("hello");
    ::send(f, hello.data(), hello.size(), MSG_NOSIGNAL);
    ::shutdown(f, SHUT_WR);
  }
  l->StopListening();
  std::thread other;
  if (twice)
    other = std::thread([l] { l->StopListening(); });
  if (drop)
    l.reset();
  if (twice)
    other.join();
  s.join();
  MC_CHECK(net::connect_to(AF_INET6, port) < 0, "somebody still listens");
  MC_CHECK(server.ends.size() <= 2, "accepted " << server.ends.size());
  for (auto& e : server.ends) {
    MC_CHECK(e->all() == "hello ", "delivered " << e->all());
    MC_CHECK(e->closed == 1, "the closed handler has run " << e->closed << " times");
  }
  mc::outcome(std::to_string(server.ends.size()));
}

}  // unnamed namespace

int main(int argc, char** argv) {
  auto s = [](const char* name, std::function<void()> body, int q = 2, int t = 3) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    x.spurious = false;
    return x;
  };
  return mc::run(argc, argv,
                 {s("the peer hangs up", [] { peer_hangs_up(2); }), s("one thread", [] { peer_hangs_up(1); }), s("all at once", all_at_once),
                  s("closed while busy", close_while_busy), s("closed twice", close_twice), s("two senders", senders), s("linked", linked),
                  s("dropped", dropped), s("started late", started_late), s("a listener stopped", [] { listener(false, true); }), s("a listener stopped twice", [] { listener(true, true); }),
                  s("a listener kept", [] { listener(true, false); })});
}

// A network inside the process: TCP sockets over the loopback addresses are replaced by Unix domain sockets with
// abstract names, so that ports are private to the process and every call can be made to fail.
// Include in exactly one source of a harness.
#ifndef VERIF_COMMON_FAKE_NET_H_
#define VERIF_COMMON_FAKE_NET_H_

#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

namespace net {
struct Fd {
  bool ours;
  int family;
  int local, remote;
};
inline Fd g_fds[4096];
inline int g_next_port = 40000;
inline bool g_no_ip6 = false;       // the kernel does not know IPv6
inline int g_accept_error = 0;      // what the next accept fails with
inline int g_accepts = 0;

inline socklen_t name_of(int family, int port, sockaddr_un* a) {
  memset(a, 0, sizeof(*a));
  a->sun_family = AF_UNIX;
  return static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 +
                                snprintf(a->sun_path + 1, sizeof(a->sun_path) - 1, "vfnet-%d-%d-%d", static_cast<int>(getpid()), family, port));
}
inline int port_of(const sockaddr* a) {
  return ntohs(a->sa_family == AF_INET6 ? reinterpret_cast<const sockaddr_in6*>(a)->sin6_port : reinterpret_cast<const sockaddr_in*>(a)->sin_port);
}
inline bool loopback(const sockaddr* a) {
  if (a->sa_family == AF_INET6)
    return IN6_IS_ADDR_LOOPBACK(&reinterpret_cast<const sockaddr_in6*>(a)->sin6_addr);
  return reinterpret_cast<const sockaddr_in*>(a)->sin_addr.s_addr == htonl(INADDR_LOOPBACK);
}
inline void fill(int family, int port, sockaddr* out, socklen_t* len) {
  if (!out || !len)
    return;
  sockaddr_storage s;
  memset(&s, 0, sizeof(s));
  socklen_t n;
  s.ss_family = static_cast<sa_family_t>(family);
  if (family == AF_INET6) {
    reinterpret_cast<sockaddr_in6*>(&s)->sin6_addr = in6addr_loopback;
    reinterpret_cast<sockaddr_in6*>(&s)->sin6_port = htons(static_cast<uint16_t>(port));
    n = sizeof(sockaddr_in6);
  } else {
    reinterpret_cast<sockaddr_in*>(&s)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    reinterpret_cast<sockaddr_in*>(&s)->sin_port = htons(static_cast<uint16_t>(port));
    n = sizeof(sockaddr_in);
  }
  memcpy(out, &s, *len < n ? *len : n);
  *len = n;
}
inline bool ours(int fd) { return fd >= 0 && fd < 4096 && g_fds[fd].ours; }
// A client that is not part of the library: -1 if the port does not listen.
inline int connect_to(int family, int port) {
  const int fd = static_cast<int>(::syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0));
  sockaddr_un a;
  const socklen_t n = name_of(family, port, &a);
  if (::syscall(SYS_connect, fd, &a, n) != 0) {
    ::syscall(SYS_close, fd);
    return -1;
  }
  return fd;
}
// Occupies a port.
inline int occupy(int family, int port) {
  const int fd = static_cast<int>(::syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0));
  sockaddr_un a;
  const socklen_t n = name_of(family, port, &a);
  if (::syscall(SYS_bind, fd, &a, n) != 0) {
    ::syscall(SYS_close, fd);
    return -1;
  }
  return fd;
}
}  // namespace net

extern "C" {
int socket(int family, int type, int protocol) __THROW {
  if (family != AF_INET && family != AF_INET6)
    return static_cast<int>(::syscall(SYS_socket, family, type, protocol));
  if (family == AF_INET6 && net::g_no_ip6) {
    errno = EAFNOSUPPORT;
    return -1;
  }
  const int fd = static_cast<int>(::syscall(SYS_socket, AF_UNIX, type, 0));
  if (fd >= 0 && fd < 4096)
    net::g_fds[fd] = net::Fd{true, family, 0, 0};
  return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t n) __THROW {
  if (!net::ours(fd))
    return static_cast<int>(::syscall(SYS_bind, fd, a, n));
  if (!net::loopback(a)) {
    errno = EADDRNOTAVAIL;
    return -1;
  }
  int port = net::port_of(a);
  sockaddr_un u;
  if (port) {
    const socklen_t m = net::name_of(a->sa_family, port, &u);
    if (::syscall(SYS_bind, fd, &u, m) != 0)
      return -1;
  } else {
    for (;;) {
      port = net::g_next_port++;
      const socklen_t m = net::name_of(a->sa_family, port, &u);
      if (::syscall(SYS_bind, fd, &u, m) == 0)
        break;
    }
  }
  net::g_fds[fd].local = port;
  return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (!net::ours(fd))
    return static_cast<int>(::syscall(SYS_connect, fd, a, n));
  sockaddr_un u;
  const int port = net::port_of(a);
  const socklen_t m = net::name_of(a->sa_family, port, &u);
  if (!net::loopback(a) || ::syscall(SYS_connect, fd, &u, m) != 0) {
    errno = ECONNREFUSED;
    return -1;
  }
  net::g_fds[fd].remote = port;
  net::g_fds[fd].local = 1;
  return 0;
}
static int net_accept(int fd, struct sockaddr* a, socklen_t* n, int flags) {
  if (!net::ours(fd))
    return static_cast<int>(::syscall(SYS_accept4, fd, a, n, flags));
  if (net::g_accept_error) {
    errno = net::g_accept_error;
    net::g_accept_error = 0;
    return -1;
  }
  const int got = static_cast<int>(::syscall(SYS_accept4, fd, nullptr, nullptr, flags));
  if (got >= 0 && got < 4096) {
    ++net::g_accepts;
    net::g_fds[got] = net::Fd{true, net::g_fds[fd].family, net::g_fds[fd].local, 1};
    net::fill(net::g_fds[fd].family, 1, a, n);
  }
  return got;
}
int accept(int fd, struct sockaddr* a, socklen_t* n) { return net_accept(fd, a, n, 0); }
int accept4(int fd, struct sockaddr* a, socklen_t* n, int flags) { return net_accept(fd, a, n, flags); }
int getsockname(int fd, struct sockaddr* a, socklen_t* n) __THROW {
  if (!net::ours(fd))
    return static_cast<int>(::syscall(SYS_getsockname, fd, a, n));
  net::fill(net::g_fds[fd].family, net::g_fds[fd].local, a, n);
  return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* n) __THROW {
  if (!net::ours(fd))
    return static_cast<int>(::syscall(SYS_getpeername, fd, a, n));
  if (!net::g_fds[fd].remote) {
    errno = ENOTCONN;
    return -1;
  }
  net::fill(net::g_fds[fd].family, net::g_fds[fd].remote, a, n);
  return 0;
}
int setsockopt(int fd, int level, int option, const void* value, socklen_t n) __THROW {
  if (net::ours(fd) && level != SOL_SOCKET)
    return 0;
  return static_cast<int>(::syscall(SYS_setsockopt, fd, level, option, value, n));
}
}

#endif  // VERIF_COMMON_FAKE_NET_H_

// C32: the clock under a virtual system time, and conversions between the two networking libraries.
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <limits>
#include <sstream>
#include <string>
#include <vector>

#include "maidsafe/common/clock.h"
#include "maidsafe/common/convert.h"

#include "common/limit_new.h"
#include "common/vf.h"

namespace {
timespec g_now{0, 0};
bool g_virtual = false;
}  // unnamed namespace

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (g_virtual && id == CLOCK_REALTIME) {
    *t = g_now;
    return 0;
  }
  if (g_virtual) {  // any other clock shows something else
    t->tv_sec = 12345;
    t->tv_nsec = 678;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, t));
}

namespace {
using maidsafe::Clock;
namespace convert = maidsafe::convert;
typedef __int128 i128;
const i128 kGiga = 1000000000;

static_assert(std::is_same<Clock::duration, std::chrono::nanoseconds>::value, "nanoseconds");

void instant(i128 ns) {  // since 1970
  const i128 lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
  if (ns < lo || ns > hi)
    return;
  const i128 want = ns >= 0 ? ns / kGiga : -((-ns) / kGiga);
  Clock::time_point p{Clock::duration(static_cast<int64_t>(ns))};
  const time_t got = Clock::to_time_t(p);
  VF_CHECK(got == static_cast<time_t>(want), "to_time_t of " << int64_t(ns) << " ns is " << got << ", expected "
                                                             << int64_t(want));
  vf::outcome(got);
  // the clock at this instant
  i128 s = ns / kGiga, f = ns % kGiga;
  if (f < 0) {
    f += kGiga;
    --s;
  }
  g_now.tv_sec = static_cast<time_t>(s);
  g_now.tv_nsec = static_cast<long>(f);
  if (s * kGiga < lo)
    return;  // the system clock itself overflows
  g_virtual = true;
  const Clock::time_point shown = Clock::now(), alias = maidsafe::common::Clock::now();
  g_virtual = false;
  VF_CHECK(shown == p && alias == p, "the clock shows " << shown.time_since_epoch().count() << " at " << int64_t(ns));
  vf::transitions += 2;
}
void second(i128 s) {
  const i128 lo = -(i128(std::numeric_limits<int64_t>::max()) / kGiga), hi = -lo;
  if (s < lo || s > hi)
    return;
  const Clock::time_point p = Clock::from_time_t(static_cast<time_t>(s));
  VF_CHECK(p.time_since_epoch().count() == s * kGiga, "from_time_t(" << int64_t(s) << ") is "
                                                                    << p.time_since_epoch().count());
  VF_CHECK(Clock::to_time_t(p) == s, "to_time_t does not undo from_time_t(" << int64_t(s) << ")");
  vf::transitions += 2;
}

void clocks() {
  std::vector<i128> seconds;
  for (i128 s = -5000; s <= 5000; ++s)
    seconds.push_back(s);
  for (int bit = 12; bit < 34; ++bit)
    for (int sign : {-1, 1})
      for (int d = -40; d <= 40; ++d)
        seconds.push_back(sign * (i128(1) << bit) + d);
  for (int d = 0; d < 300; ++d)
    for (int sign : {-1, 1})
      seconds.push_back(sign * (i128(9223372036) - d));
  for (int year = -290; year <= 290; ++year)
    for (int d = -2; d <= 2; ++d)
      seconds.push_back(i128(year) * 31556952 + d);
  std::vector<i128> parts;
  for (i128 p = 0; p < 1000; p += vf::thorough ? 1 : 37)
    for (i128 unit : {i128(1), i128(1000), i128(1000000)})
      parts.push_back(p * unit);
  for (i128 p : {1, 2, 499999999, 500000000, 500000001, 999999, 1000001, 999999998, 999999999, 900000000})
    parts.push_back(p);
  for (size_t k = 0; k < seconds.size(); ++k) {
    if (!vf::take())
      continue;
    second(seconds[k]);
    for (i128 p : parts) {
      instant(seconds[k] * kGiga + p);
      instant(seconds[k] * kGiga - p);
    }
  }
  if (vf::single()) {
    for (int64_t d = 0; d < 2000; ++d) {
      instant(i128(std::numeric_limits<int64_t>::max()) - d);
      instant(i128(std::numeric_limits<int64_t>::min()) + d);
    }
    vf::sample("to_time_t(-1 ns) = 0, to_time_t(-1000000001 ns) = -1");
  }
}

void v4(uint32_t n) {
  const asio::ip::address_v4 a(n);
  const boost::asio::ip::address_v4 b(n);
  VF_CHECK(convert::ToBoost(a) == b, "address " << a.to_string() << " became " << convert::ToBoost(a).to_string());
  VF_CHECK(convert::ToAsio(b) == a, "address " << b.to_string() << " became " << convert::ToAsio(b).to_string());
  const auto ga = convert::ToBoost(asio::ip::address(a));
  const auto gb = convert::ToAsio(boost::asio::ip::address(b));
  VF_CHECK(ga.is_v4() && ga.to_v4() == b, "general address " << a.to_string());
  VF_CHECK(gb.is_v4() && gb.to_v4() == a, "general address " << b.to_string());
  VF_CHECK(ga.to_string() == a.to_string(), "text of " << a.to_string());
  vf::transitions += 4;
}
void v6(const std::array<unsigned char, 16>& bytes, unsigned long scope) {
  asio::ip::address_v6::bytes_type ab;
  boost::asio::ip::address_v6::bytes_type bb;
  std::copy(bytes.begin(), bytes.end(), ab.begin());
  std::copy(bytes.begin(), bytes.end(), bb.begin());
  const asio::ip::address_v6 a(ab, scope);
  const boost::asio::ip::address_v6 b(bb, scope);
  VF_CHECK(convert::ToBoost(a) == b && convert::ToBoost(a).scope_id() == scope,
           "address " << a.to_string() << " became " << convert::ToBoost(a).to_string());
  VF_CHECK(convert::ToAsio(b) == a && convert::ToAsio(b).scope_id() == scope,
           "address " << b.to_string() << " became " << convert::ToAsio(b).to_string());
  const auto ga = convert::ToBoost(asio::ip::address(a));
  const auto gb = convert::ToAsio(boost::asio::ip::address(b));
  VF_CHECK(ga.is_v6() && ga.to_v6() == b, "general address " << a.to_string());
  VF_CHECK(gb.is_v6() && gb.to_v6() == a, "general address " << b.to_string());
  vf::transitions += 4;
  for (unsigned port : {0u, 1u, 255u, 256u, 32768u, 65535u}) {
    const auto e = convert::ToBoost(asio::ip::udp::endpoint(asio::ip::address(a), static_cast<unsigned short>(port)));
    VF_CHECK(e.port() == port && e.address().is_v6() && e.address().to_v6() == b, "end point of " << a.to_string());
    const auto f = convert::ToAsio(
        boost::asio::ip::udp::endpoint(boost::asio::ip::address(b), static_cast<unsigned short>(port)));
    VF_CHECK(f.port() == port && f.address().is_v6() && f.address().to_v6() == a, "end point of " << b.to_string());
    vf::transitions += 2;
  }
}
void addresses() {
  const unsigned char octets[] = {0, 1, 2, 10, 127, 128, 169, 192, 224, 254, 255};
  for (unsigned a : octets)
    for (unsigned b : octets) {
      if (!vf::take())
        continue;
      for (unsigned c : octets)
        for (unsigned d : octets)
          v4(a << 24 | b << 16 | c << 8 | d);
    }
  for (unsigned pos = 0; pos < 4; ++pos)
    if (vf::take())
      for (unsigned v = 0; v < 256; ++v)
        for (uint32_t rest : {0u, 0xffffffffu, 0x01020304u})
          v4((rest & ~(0xffu << 8 * pos)) | v << 8 * pos);
  for (uint32_t address : {0u, 0x7f000001u, 0x01020304u, 0xffffffffu, 0x0a000001u})
    if (vf::take()) {
      for (unsigned port = 0; port < 65536; ++port) {
        const asio::ip::udp::endpoint a(asio::ip::address(asio::ip::address_v4(address)), static_cast<unsigned short>(port));
        const boost::asio::ip::udp::endpoint b(boost::asio::ip::address(boost::asio::ip::address_v4(address)),
                                               static_cast<unsigned short>(port));
        VF_CHECK(convert::ToBoost(a) == b && convert::ToAsio(b) == a && convert::ToBoost(a).port() == port,
                 "end point " << b.address().to_string() << ":" << port);
        vf::transitions += 2;
      }
    }
  const unsigned long scopes[] = {0, 1, 2, 255, 256, 65536, 0x7fffffff, 0x80000000ul, 0xffffffffu};
  std::vector<std::array<unsigned char, 16>> bases;
  for (unsigned kind = 0; kind < 8; ++kind) {
    std::array<unsigned char, 16> b;
    b.fill(kind == 1 ? 0xff : 0);
    if (kind == 2)
      b[15] = 1;  // loopback
    if (kind == 3)
      b[0] = 0xfe, b[1] = 0x80, b[15] = 7;  // link local
    if (kind == 4)
      b[10] = b[11] = 0xff, b[12] = 127, b[15] = 1;  // v4 mapped
    if (kind == 5)
      for (unsigned i = 0; i < 16; ++i)
        b[i] = static_cast<unsigned char>(17 * i + 3);
    if (kind == 6)
      b[0] = 0xff, b[1] = 2, b[15] = 1;  // multicast
    if (kind == 7)
      b[12] = 1, b[13] = 2, b[14] = 3, b[15] = 4;  // v4 compatible
    bases.push_back(b);
  }
  for (const auto& base : bases)
    for (unsigned pos = 0; pos < 16; ++pos) {
      if (!vf::take())
        continue;
      for (unsigned v = 0; v < 256; ++v) {
        auto b = base;
        b[pos] = static_cast<unsigned char>(v);
        for (unsigned long scope : scopes)
          v6(b, scope);
      }
    }
  if (vf::single())
    vf::sample("fe80::7%256 port 65535 both ways");
}

void bytes_round(const std::string& s) {
  const std::vector<unsigned char> v = convert::ToByteVector(s);
  VF_CHECK(v.size() == s.size(), vf::show(s) << " became " << v.size() << " bytes");
  for (size_t i = 0; i < s.size(); ++i)
    VF_CHECK(v[i] == static_cast<unsigned char>(s[i]), "byte " << i << " of " << vf::show(s));
  VF_CHECK(convert::ToString(v) == s, "text and bytes are not inverse for " << vf::show(s));
  vf::transitions += 2;
}
void texts() {
  for (unsigned a = 0; a < 256; ++a) {
    if (!vf::take())
      continue;
    bytes_round(std::string(1, static_cast<char>(a)));
    for (unsigned b = 0; b < 256; ++b) {
      const char pair[] = {static_cast<char>(a), static_cast<char>(b)};
      bytes_round(std::string(pair, 2));
      for (char c : {'\0', 'a', '\xff', '\x80'})
        bytes_round(std::string(pair, 2) + c);
    }
  }
  if (vf::single()) {
    for (size_t n = 0; n < 2000; ++n) {
      std::string s;
      for (size_t i = 0; i < n; ++i)
        s += static_cast<char>(i * 7);
      bytes_round(s);
    }
    bytes_round(std::string(1 << 20, '\0'));
  }
}

void errors() {
  if (!vf::single())
    return;
  for (int v = -300; v < 2000; ++v) {
    for (const boost::system::error_category* c :
         {&boost::system::generic_category(), &boost::system::system_category()}) {
      const std::error_code e = convert::ToStd(boost::system::error_code(v, *c));
      VF_CHECK(e.value() == v && e.category() == std::generic_category(), "error " << v << " became " << e.value());
      VF_CHECK(static_cast<bool>(e) == (v != 0), "success and failure of error " << v);
      ++vf::transitions;
    }
  }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"clocks", clocks}, {"addresses", addresses}, {"texts", texts}, {"errors", errors}});
}

// C28: version strings, size units, time stamps and XOR, against exact arithmetic.
#include <sys/time.h>

#include <array>
#include <cctype>
#include <cmath>
#include <string>
#include <vector>

#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/utils.h"

#include "common/limit_new.h"
#include "common/vf.h"

namespace {
timeval g_now{0, 0};
bool g_virtual = false;
}  // unnamed namespace

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  if (g_virtual) {
    *tv = g_now;
  } else {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
  }
  return 0;
}

namespace {
typedef unsigned __int128 u128;

// --- versions: digits '.' digit '.' three digits, and a result that fits ---
int reference_version(const std::string& s) {
  size_t i = 0;
  u128 major = 0;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
    major = major * 10 + (s[i++] - '0');
    if (major > 1000000000)
      major = 1000000000;
  }
  if (i == 0 || s.size() - i != 6 || s[i] != '.' || s[i + 2] != '.')
    return -1;
  for (size_t k : {i + 1, i + 3, i + 4, i + 5})
    if (s[k] < '0' || s[k] > '9')
      return -1;
  u128 v = major * 10000 + u128(s[i + 1] - '0') * 1000 + (s[i + 3] - '0') * 100 + (s[i + 4] - '0') * 10 + (s[i + 5] - '0');
  return v > 0x7fffffff ? -1 : static_cast<int>(v);
}
void version(const std::string& s) {
  int got = 0, want = reference_version(s);
  try {
    got = maidsafe::VersionToInt(s);
  } catch (const std::exception& e) {
    VF_CHECK(false, "VersionToInt(" << vf::show(s) << ") threw " << e.what());
  }
  VF_CHECK(got == want, "VersionToInt(" << vf::show(s) << ") is " << got << ", expected " << want);
  ++vf::transitions;
  if (want >= 0)
    vf::outcome(want);
}
void versions() {
  VF_CHECK(maidsafe::kInvalidVersion == -1, "the invalid version");
  // every string of a length over an alphabet
  const std::string alphabet = "09.-+ x";
  std::function<void(std::string&, size_t)> all = [&](std::string& s, size_t n) {
    if (s.size() == n) {
      version(s);
      return;
    }
    for (char c : alphabet) {
      s.push_back(c);
      if (s.size() != 3 || vf::take())
        all(s, n);
      s.pop_back();
    }
  };
  for (size_t n = 0; n <= (vf::thorough ? 8 : 7); ++n) {
    if (n < 3 && !vf::take())
      continue;
    std::string s;
    all(s, n);
  }
  vf::sample("all strings over " + alphabet + " to length 7");
  // all well-formed ones with some majors
  std::vector<std::string> majors;
  for (int i = 0; i < 40; ++i)
    majors.push_back(std::to_string(i));
  for (const char* m : {"00", "007", "99", "100", "3276", "32767", "32768", "65535", "65536", "65537", "99999", "214747", "214748", "214749", "300000", "2147483647", "2147483648", "4294967296", "99999999999999999999999"})
    majors.push_back(m);
  for (auto& m : majors) {
    if (!vf::take())
      continue;
    for (int minor = 0; minor < 10; ++minor)
      for (int patch = 0; patch < 1000; ++patch) {
        char t[16];
        snprintf(t, sizeof t, ".%d.%03d", minor, patch);
        version(m + t);
      }
    vf::note();
  }
  vf::sample("59 majors x all minors x all patch levels");
  // single edits of well-formed ones
  for (const char* w : {"0.0.000", "1.2.345", "12.9.999", "9.0.100"})
    for (int c = 0; c < 256; ++c) {
      if (!vf::take())
        continue;
      std::string s(w);
      for (size_t i = 0; i <= s.size(); ++i) {
        std::string t(s);
        t.insert(i, 1, static_cast<char>(c));
        version(t);
        for (size_t j = 0; j < t.size(); ++j) {
          std::string u(t);
          u.erase(j, 1);
          version(u);
          u = t;
          u[j] = '.';
          version(u);
        }
      }
    }
}

// --- units ---
void unit(uint64_t num, bool binary) {
  std::string got = binary ? maidsafe::BytesToBinarySiUnits(num) : maidsafe::BytesToDecimalSiUnits(num);
  const u128 kilo = binary ? 1024 : 1000;
  static const char* const decimal_names[] = {"B", "kB", "MB", "GB", "TB", "PB", "EB"};
  static const char* const binary_names[] = {"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"};
  auto names = binary ? binary_names : decimal_names;
  ++vf::transitions;
  if (num < kilo) {
    VF_CHECK(got == std::to_string(num) + " B", num << " bytes are shown as " << got);
    return;
  }
  size_t level = 1;
  u128 divisor = kilo;
  while (level < 6 && u128(num) >= divisor * kilo - divisor / 2)
    divisor *= kilo, ++level;
  size_t space = got.find(' ');
  VF_CHECK(space != std::string::npos && got.substr(space + 1) == names[level], num << " bytes are shown as " << got << ", expected " << names[level]);
  std::string digits = got.substr(0, space);
  size_t dot = digits.find('.');
  VF_CHECK(dot != std::string::npos && dot >= 1 && digits.size() == dot + 3, num << " bytes are shown as " << got);
  digits.erase(dot, 1);
  for (char c : digits)
    VF_CHECK(c >= '0' && c <= '9', num << " bytes are shown as " << got);
  // |shown/100 - num/divisor| <= 0.005, with room for the rounding of the quotient
  u128 shown = 0;
  for (char c : digits)
    shown = shown * 10 + (c - '0');
  u128 a = shown * divisor, b = u128(num) * 100, diff = a > b ? a - b : b - a;
  VF_CHECK(diff * 2 <= divisor + divisor / 1000000000 + 1, num << " bytes are shown as " << got);
  VF_CHECK(dot == 1 || got[0] != '0', num << " bytes are shown as " << got);
}
void units() {
  // around every unit, half unit and multiple
  std::vector<uint64_t> centres{0, ~0ull, 1ull << 63, 9500000000000000000ull};
  for (int binary = 0; binary < 2; ++binary) {
    uint64_t d = 1;
    for (int level = 0; level < 7; ++level) {
      for (uint64_t k = 1; k <= 20; ++k)
        for (uint64_t m : {k, k * 50, k * 51 - 1, 999 * k / 20})
          if (u128(d) * m <= ~0ull) {
            centres.push_back(d * m);
            centres.push_back(d * m + d / 2);
            centres.push_back(d * m - d / 2);
            centres.push_back(d * m + d / 4);
            centres.push_back(d * m + d / 200);
            centres.push_back(d * m + d / 100 * 3);
          }
      for (uint64_t m : {511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025})
        if (u128(d) * m <= ~0ull)
          centres.push_back(d * m), centres.push_back(d * m - d / 2);
      if (level < 6)
        d *= binary ? 1024 : 1000;
    }
  }
  for (int s = 0; s < 64; ++s)
    centres.push_back(1ull << s);
  for (auto c : centres) {
    if (!vf::take())
      continue;
    for (int binary = 0; binary < 2; ++binary)
      for (int64_t o = -20; o <= 20; ++o)
        unit(c + o, binary);
  }
  vf::sample(std::to_string(centres.size()) + " boundaries, 41 values around each, both units");
  const uint64_t limit = vf::thorough ? 20000000 : 2200000;
  for (uint64_t from = 0; from < limit; from += 10000) {
    if (!vf::take())
      continue;
    for (uint64_t n = from; n < from + 10000; ++n)
      unit(n, false), unit(n, true);
    vf::note();
  }
  vf::sample("every number of bytes to " + std::to_string(limit));
}

// --- time stamps ---
// days since 1970-01-01 of a civil date (an independent calculation: counting)
int64_t day_number(int year, int month, int day) {
  static const int lengths[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  int64_t days = 0;
  for (int y = 1970; y < year; ++y)
    days += leap(y) ? 366 : 365;
  for (int m = 1; m < month; ++m)
    days += lengths[m - 1] + (m == 2 && leap(year));
  return days + day - 1;
}
void time_stamps() {
  const int64_t epoch = day_number(2000, 1, 1) * 86400;
  for (int year = 2000; year < 2120; ++year)
    for (int month = 1; month <= 12; ++month) {
      if (!vf::take())
        continue;
      for (int day : {1, 2, 28, 29, 30}) {
        if (month == 2 && day > 28)
          continue;
        int64_t start = day_number(year, month, day) * 86400;
        for (int64_t s : {0, 1, 59, 60, 3599, 3600, 43200, 86399})
          for (int us : {0, 1, 499, 500, 999, 1000, 1001, 500000, 999000, 999999}) {
            g_now.tv_sec = start + s;
            g_now.tv_usec = us;
            g_virtual = true;
            uint64_t stamp = maidsafe::GetTimeStamp();
            g_virtual = false;
            uint64_t want = static_cast<uint64_t>((start + s - epoch) * 1000 + us / 1000);
            VF_CHECK(stamp == want, "the time stamp of " << year << "-" << month << "-" << day << " second " << s << "." << us << " is " << stamp << ", expected " << want);
            auto t = maidsafe::TimeStampToPtime(stamp);
            VF_CHECK(t.date().year() == year && t.date().month() == month && t.date().day() == day && t.time_of_day().total_microseconds() == s * 1000000 + us / 1000 * 1000,
                     "time stamp " << stamp << " is shown as " << t);
            ++vf::transitions;
          }
      }
    }
  for (int year : {2000, 2038, 2100, 2400, 5000, 9998}) {
    if (!vf::take())
      continue;
    for (int month = 1; month <= 12; ++month)
      for (int64_t ms : {0ll, 1ll, 999ll, 86399999ll}) {
        auto t = maidsafe::TimeStampToPtime((day_number(year, month, 1) - day_number(2000, 1, 1)) * 86400000 + ms);
        VF_CHECK(t.date().year() == year && t.date().month() == month && t.date().day() == 1 && t.time_of_day().total_milliseconds() == ms, "time stamp in " << year << " is shown as " << t);
      }
  }
  vf::sample("five days of each month of 2000..2119, 80 times each");
}

// --- XOR ---
template <typename String>
void check_xor(const String& a, const String& b) {
  using maidsafe::operator^;
  ++vf::transitions;
  if (a.size() != b.size()) {
    bool threw = false;
    try {
      String c = a ^ b;
    } catch (const maidsafe::maidsafe_error&) {
      threw = true;
    }
    VF_CHECK(threw, "XOR of sizes " << a.size() << " and " << b.size() << " did not throw");
    return;
  }
  String c = a ^ b;
  VF_CHECK(c.size() == a.size(), "XOR has another size");
  for (size_t i = 0; i < a.size(); ++i)
    VF_CHECK(static_cast<unsigned char>(c[i]) == (static_cast<unsigned char>(a[i]) ^ static_cast<unsigned char>(b[i])), "XOR at position " << i << " of " << a.size());
  String d = c ^ b;
  VF_CHECK(d == a, "XOR is not its own inverse");
}
void xors() {
  for (int x = 0; x < 256; ++x) {
    if (!vf::take())
      continue;
    for (int y = 0; y < 256; ++y) {
      for (size_t n : {1, 2, 9})
        for (size_t at = 0; at < n; ++at) {
          std::string a(n, 'a'), b(n, 'b');
          a[at] = static_cast<char>(x), b[at] = static_cast<char>(y);
          check_xor(a, b);
          check_xor(std::vector<maidsafe::byte>(a.begin(), a.end()), std::vector<maidsafe::byte>(b.begin(), b.end()));
        }
      typedef maidsafe::detail::BoundedString<4, 4> B;
      std::string a("wxyz"), b("1234");
      a[x % 4] = static_cast<char>(x), b[x % 4] = static_cast<char>(y);
      B c = B(a) ^ B(b);
      for (size_t i = 0; i < 4; ++i)
        VF_CHECK(static_cast<unsigned char>(c.string()[i]) == static_cast<unsigned char>(a[i] ^ b[i]), "XOR of bounded strings");
      VF_CHECK((c ^ B(b)) == B(a), "XOR of bounded strings is not its own inverse");
      ++vf::transitions;
    }
  }
  for (size_t m = 0; m < 130; ++m) {
    if (!vf::take())
      continue;
    for (size_t n = 0; n < 130; ++n) {
      std::string a(m, 0), b(n, 0);
      for (size_t i = 0; i < m; ++i)
        a[i] = static_cast<char>(i * 7 + m);
      for (size_t i = 0; i < n; ++i)
        b[i] = static_cast<char>(i * 13 + n);
      a.shrink_to_fit(), b.shrink_to_fit();
      check_xor(a, b);
      check_xor(std::vector<maidsafe::byte>(a.begin(), a.end()), std::vector<maidsafe::byte>(b.begin(), b.end()));
    }
  }
  if (vf::take()) {
    typedef maidsafe::detail::BoundedString<4, 4> B;
    for (int k = 0; k < 3; ++k) {
      bool threw = false;
      try {
        (k == 0 ? B("abcd") : B()) ^ (k == 1 ? B("abcd") : B());
      } catch (const maidsafe::maidsafe_error&) {
        threw = true;
      }
      VF_CHECK(threw, "XOR of an uninitialised bounded string");
    }
  }
  vf::sample("all byte pairs at several positions; all sizes to 129 squared");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"versions", versions}, {"units", units}, {"time_stamps", time_stamps}, {"xors", xors}});
}

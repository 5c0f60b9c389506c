// C29: random helpers for all sizes and ranges.
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "maidsafe/common/utils.h"

#include "common/child.h"
#include "common/limit_new.h"
#include "common/vf.h"

using maidsafe::RandomAlphaNumericBytes;
using maidsafe::RandomAlphaNumericString;
using maidsafe::RandomBytes;
using maidsafe::RandomInt32;
using maidsafe::RandomString;
using maidsafe::RandomUint32;
using maidsafe::detail::set_random_number_generator_seed;

namespace {

std::string text(const std::string& s) { return s; }
std::string text(const std::vector<maidsafe::byte>& s) { return std::string(s.begin(), s.end()); }
bool alnum(const std::string& s) {
  return std::all_of(s.begin(), s.end(), [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); });
}

const char* const kNames[] = {"RandomString", "RandomBytes", "RandomAlphaNumericString", "RandomAlphaNumericBytes"};
std::string exact(int f, size_t n) {
  switch (f) {
    case 0: return text(RandomString(n));
    case 1: return text(RandomBytes(n));
    case 2: return text(RandomAlphaNumericString(n));
    default: return text(RandomAlphaNumericBytes(n));
  }
}
std::string ranged(int f, uint32_t a, uint32_t b) {
  switch (f) {
    case 0: return text(RandomString(a, b));
    case 1: return text(RandomBytes(a, b));
    case 2: return text(RandomAlphaNumericString(a, b));
    default: return text(RandomAlphaNumericBytes(a, b));
  }
}

void sizes() {
  std::vector<size_t> all;
  for (size_t n = 0; n <= (vf::thorough ? 5000 : 1000); ++n)
    all.push_back(n);
  for (size_t n : {4095, 4096, 4097, 65535, 65536, 65537, 1000000, 1 << 22})
    all.push_back(n);
  for (int f = 0; f < 4; ++f)
    for (size_t n : all) {
      if (!vf::take())
        continue;
      for (uint32_t seed = 0; seed < 3; ++seed) {
        set_random_number_generator_seed(seed);
        const std::string s = exact(f, n);
        VF_CHECK(s.size() == n, kNames[f] << " of " << n << " has " << s.size() << " bytes");
        VF_CHECK(f < 2 || alnum(s), kNames[f] << " of " << n << " is " << vf::show(s));
        set_random_number_generator_seed(seed);
        VF_CHECK(exact(f, n) == s, kNames[f] << " of " << n << " differs for the same seed");
        ++vf::transitions;
        vf::outcome(vf::hash_str(s));
      }
    }
}

// Every size of the range comes up, and no other.
void ranges() {
  const uint32_t kMax = ~uint32_t{0};
  std::vector<std::pair<uint32_t, uint32_t>> all;
  for (uint32_t a = 0; a <= 12; ++a)
    for (uint32_t b = a; b <= 12; ++b)
      all.push_back({a, b});
  for (uint32_t n : {100u, 255u, 256u, 257u, 1000u, 65535u, 65536u})
    for (uint32_t d = 0; d < 4; ++d)
      all.push_back({n, n + d});
  for (int f = 0; f < 4; ++f)
    for (auto& r : all) {
      if (!vf::take())
        continue;
      std::set<size_t> seen;
      const size_t span = r.second - r.first + 1;
      set_random_number_generator_seed(1);
      for (uint32_t k = 0; k < 2000 * span && (k < 50 || seen.size() < span); ++k) {
        const std::string s = ranged(f, r.first, r.second);
        VF_CHECK(s.size() >= r.first && s.size() <= r.second, kNames[f] << " of " << r.first << " to " << r.second << " has " << s.size() << " bytes");
        VF_CHECK(f < 2 || alnum(s), kNames[f] << " is " << vf::show(s));
        seen.insert(s.size());
        ++vf::transitions;
      }
      VF_CHECK(seen.size() == span, kNames[f] << " of " << r.first << " to " << r.second << " has only " << seen.size() << " sizes");
      vf::outcome(r.first * 1000 + r.second);
    }
  // ranges up to all numbers; an absurd size may be refused
  for (int f = 0; f < 4; ++f)
    for (auto& r : std::vector<std::pair<uint32_t, uint32_t>>{{0, kMax}, {1, kMax}, {0, kMax - 1}, {kMax, kMax}, {kMax - 1, kMax}, {kMax / 2, kMax / 2 + 1}}) {
      if (!vf::take())
        continue;
      auto c = vf::in_child(
          [&]() -> std::string {
            for (uint32_t seed = 0; seed < 20; ++seed) {
              set_random_number_generator_seed(seed);
              try {
                const std::string s = ranged(f, r.first, r.second);
                if (s.size() < r.first || s.size() > r.second)
                  return "has " + std::to_string(s.size()) + " bytes";
              } catch (const std::bad_alloc&) {
              } catch (const std::length_error&) {
              }
            }
            return "ok";
          },
          false, 60);
      VF_CHECK(c.exited() && c.text == "ok", kNames[f] << " of " << r.first << " to " << r.second << ": the process " << c.how() << " " << c.text);
      ++vf::transitions;
    }
}

// Every byte, and every letter, comes up; every bit of a number is as well set as clear.
void values() {
  for (int f = 0; f < 4; ++f)
    for (uint32_t seed = 0; seed < 4; ++seed) {
      if (!vf::take())
        continue;
      set_random_number_generator_seed(seed);
      std::set<char> seen;
      for (int i = 0; i < 4; ++i)
        for (char c : exact(f, 10000))
          seen.insert(c);
      VF_CHECK(seen.size() == (f < 2 ? 256u : 62u), kNames[f] << " has only " << seen.size() << " characters");
      vf::outcome(seen.size());
    }
  for (uint32_t seed = 0; seed < 4; ++seed) {
    if (!vf::take())
      continue;
    set_random_number_generator_seed(seed);
    uint32_t some = 0, all = ~0u, some_signed = 0, all_signed = ~0u;
    for (int i = 0; i < 1000; ++i) {
      const uint32_t u = RandomUint32();
      const int32_t n = RandomInt32();
      some |= u;
      all &= u;
      some_signed |= static_cast<uint32_t>(n);
      all_signed &= static_cast<uint32_t>(n);
    }
    VF_CHECK(some == ~0u && all == 0, "bits of RandomUint32 are stuck");
    VF_CHECK(some_signed == ~0u && all_signed == 0, "bits of RandomInt32 are stuck");
  }
}

// The same seed and the same calls: the same values, whatever came before.  All histories of calls.
void sequences() {
  const int depth = vf::thorough ? 5 : 4;
  const int kinds = 10;
  auto call = [](int k) -> std::string {
    if (k < 4)
      return exact(k, 5);
    if (k < 8)
      return ranged(k - 4, 1, 9);
    return std::to_string(k == 8 ? static_cast<int64_t>(RandomInt32()) : static_cast<int64_t>(RandomUint32()));
  };
  std::vector<int> ops;
  std::function<void()> walk = [&] {
    if (static_cast<int>(ops.size()) == depth) {
      if (!vf::take())
        return;
      std::string first[2];
      for (uint32_t seed : {0u, 1u, 0xffffffffu}) {
        for (auto& all : first) {
          all.clear();
          set_random_number_generator_seed(seed);
          for (int k : ops)
            all += call(k) + " ";
        }
        VF_CHECK(first[0] == first[1], "the same calls give other values for the seed " << seed);
      }
      vf::transitions += static_cast<uint64_t>(depth);
      ++vf::histories;
      vf::outcome(vf::hash_str(first[0]));
      return;
    }
    for (int k = 0; k < kinds; ++k) {
      ops.push_back(k);
      walk();
      ops.pop_back();
    }
  };
  walk();
}

// The published generator, for every seed of a range.
void small() {
  const uint32_t step = 1 << 14;
  auto rot = [](uint32_t x, int k) { return (x << k) | (x >> (32 - k)); };
  for (uint32_t part = 0; part < (vf::thorough ? 1024u : 128u); ++part) {
    if (!vf::take())
      continue;
    for (uint32_t i = 0; i < step; ++i) {
      const uint32_t seed = part % 2 ? ~(part / 2 * step + i) : (part / 2 * step + i) * (part % 4 ? 2654435761u : 1u);
      uint32_t a = 0xf1ea5eed, b = seed, c = seed, d = seed;
      auto next = [&] {
        const uint32_t e = a - rot(b, 27);
        a = b ^ rot(c, 17);
        b = c + d;
        c = d + e;
        d = e + a;
        return d;
      };
      for (int k = 0; k < 20; ++k)
        next();
      maidsafe::small_prng::RandomContext x;
      maidsafe::small_prng::Initialise(&x, seed);
      for (int k = 0; k < 8; ++k) {
        const uint32_t want = next(), got = maidsafe::small_prng::RandomValue(&x);
        VF_CHECK(got == want, "value " << k << " of the small generator for the seed " << seed << " is " << got << " instead of " << want);
      }
    }
    vf::transitions += step;
    vf::outcome(part);
  }
}

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"sizes", sizes}, {"ranges", ranges}, {"values", values}, {"sequences", sequences}, {"the small generator", small}});
}

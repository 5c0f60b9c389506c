// Reference implementations of SHA-1, SHA-2 (FIPS 180-4), HMAC and PBKDF2, for comparison.
#ifndef VERIF_COMMON_REF_SHA_H_
#define VERIF_COMMON_REF_SHA_H_

#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<uint64_t> Words;

inline const Words& primes() {
  static const Words p = [] {
    Words r;
    for (uint64_t n = 2; r.size() < 80; ++n) {
      bool prime = true;
      for (uint64_t d : r)
        prime = prime && n % d != 0;
      if (prime)
        r.push_back(n);
    }
    return r;
  }();
  return p;
}
// first 64 bits of the fractional part of the k-th root of n (k = 2 or 3), by bisection on integers
inline uint64_t root_bits(uint64_t n, int k) {
  typedef unsigned __int128 u128;
  // largest x with x^k <= n * 2^(64k); x < 2^68
  auto fits = [&](u128 x) {  // compares x^k with n << 64k using 32-bit limbs
    auto mul = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
      std::vector<uint64_t> r(a.size() + b.size(), 0);
      for (size_t i = 0; i < a.size(); ++i) {
        uint64_t carry = 0;
        for (size_t j = 0; j < b.size(); ++j) {
          uint64_t t = a[i] * b[j] + r[i + j] + carry;
          r[i + j] = t & 0xffffffffu;
          carry = t >> 32;
        }
        r[i + b.size()] += carry;
      }
      return r;
    };
    std::vector<uint64_t> v{static_cast<uint64_t>(x & 0xffffffffu), static_cast<uint64_t>((x >> 32) & 0xffffffffu),
                            static_cast<uint64_t>(x >> 64)};
    auto p = mul(v, v);
    if (k == 3)
      p = mul(p, v);
    std::vector<uint64_t> limit(p.size(), 0);
    limit[static_cast<size_t>(2 * k)] = n;
    for (size_t i = p.size(); i-- > 0;)
      if (p[i] != limit[i])
        return p[i] < limit[i];
    return true;
  };
  u128 lo = 0, hi = u128(1) << 69;
  while (hi - lo > 1) {
    u128 mid = (lo + hi) / 2;
    (fits(mid) ? lo : hi) = mid;
  }
  return static_cast<uint64_t>(lo);
}

template <typename W>
inline W rotr(W x, int n) {
  return (x >> n) | (x << (8 * sizeof(W) - n));
}

// W: uint32_t for SHA-224/256, uint64_t for SHA-384/512
template <typename W>
struct Sha2 {
  static const int kRounds = sizeof(W) == 4 ? 64 : 80;
  static const W* k() {
    static const std::vector<W> v = [] {
      std::vector<W> r;
      for (int i = 0; i < kRounds; ++i)
        r.push_back(static_cast<W>(root_bits(primes()[i], 3) >> (64 - 8 * sizeof(W))));
      return r;
    }();
    return v.data();
  }
  static void compress(W* h, const unsigned char* p) {
    W w[80];
    const int b = sizeof(W);
    for (int i = 0; i < 16; ++i) {
      w[i] = 0;
      for (int j = 0; j < b; ++j)
        w[i] = static_cast<W>(w[i] << 8 | p[i * b + j]);
    }
    const bool s = b == 4;
    for (int i = 16; i < kRounds; ++i) {
      const W x = w[i - 15], y = w[i - 2];
      const W s0 = s ? rotr(x, 7) ^ rotr(x, 18) ^ (x >> 3) : rotr(x, 1) ^ rotr(x, 8) ^ (x >> 7);
      const W s1 = s ? rotr(y, 17) ^ rotr(y, 19) ^ (y >> 10) : rotr(y, 19) ^ rotr(y, 61 % (8 * b)) ^ (y >> 6);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    W v[8];
    for (int i = 0; i < 8; ++i)
      v[i] = h[i];
    for (int i = 0; i < kRounds; ++i) {
      const W a = v[0], e = v[4];
      const W S1 = s ? rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25) : rotr(e, 14) ^ rotr(e, 18) ^ rotr(e, 41 % (8 * b));
      const W S0 = s ? rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22) : rotr(a, 28) ^ rotr(a, 34 % (8 * b)) ^ rotr(a, 39 % (8 * b));
      const W t1 = v[7] + S1 + ((e & v[5]) ^ (~e & v[6])) + k()[i] + w[i];
      const W t2 = S0 + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
      v[7] = v[6], v[6] = v[5], v[5] = v[4], v[4] = v[3] + t1;
      v[3] = v[2], v[2] = v[1], v[1] = v[0], v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i)
      h[i] += v[i];
  }
};
inline std::string padded(const std::string& m, size_t block, uint64_t before = 0) {
  std::string p = m + '\x80';
  while ((p.size() + block / 8) % block)
    p += '\0';
  const uint64_t bits = (m.size() + before) * 8;
  p += std::string(block / 8 - 8, '\0');
  for (int i = 7; i >= 0; --i)
    p += static_cast<char>(bits >> 8 * i);
  return p;
}
template <typename W>
std::string sha2(const std::string& m, const std::vector<W>& start, size_t size) {
  std::vector<W> h = start;
  const size_t block = 16 * sizeof(W);
  const std::string p = padded(m, block);
  for (size_t i = 0; i < p.size(); i += block)
    Sha2<W>::compress(h.data(), reinterpret_cast<const unsigned char*>(p.data()) + i);
  std::string out;
  for (W x : h)
    for (int i = static_cast<int>(sizeof(W)) - 1; i >= 0; --i)
      out += static_cast<char>(x >> 8 * i);
  return out.substr(0, size);
}
inline const std::vector<uint64_t>& start512() {
  static const std::vector<uint64_t> h = [] {
    std::vector<uint64_t> r;
    for (int i = 0; i < 8; ++i)
      r.push_back(root_bits(primes()[i], 2));
    return r;
  }();
  return h;
}
inline std::string sha512(const std::string& m) { return sha2<uint64_t>(m, start512(), 64); }
inline std::string sha384(const std::string& m) {
  static const std::vector<uint64_t> h = [] {
    std::vector<uint64_t> r;
    for (int i = 8; i < 16; ++i)
      r.push_back(root_bits(primes()[i], 2));
    return r;
  }();
  return sha2<uint64_t>(m, h, 48);
}
inline std::string sha256(const std::string& m) {
  static const std::vector<uint32_t> h = [] {
    std::vector<uint32_t> r;
    for (int i = 0; i < 8; ++i)
      r.push_back(static_cast<uint32_t>(root_bits(primes()[i], 2) >> 32));
    return r;
  }();
  return sha2<uint32_t>(m, h, 32);
}
inline std::string sha1(const std::string& m) {
  uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  const std::string p = padded(m, 64);
  auto rotl = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[80];
    for (int i = 0; i < 16; ++i) {
      w[i] = 0;
      for (int j = 0; j < 4; ++j)
        w[i] = w[i] << 8 | static_cast<unsigned char>(p[o + static_cast<size_t>(4 * i + j)]);
    }
    for (int i = 16; i < 80; ++i)
      w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; ++i) {
      const uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
      const uint32_t k = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6;
      const uint32_t t = rotl(a, 5) + f + e + k + w[i];
      e = d, d = c, c = rotl(b, 30), b = a, a = t;
    }
    h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
  }
  std::string out;
  for (uint32_t x : h)
    for (int i = 3; i >= 0; --i)
      out += static_cast<char>(x >> 8 * i);
  return out;
}
inline std::string to_hex(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    r += "0123456789abcdef"[c >> 4];
    r += "0123456789abcdef"[c & 15];
  }
  return r;
}
}  // namespace ref

#endif  // VERIF_COMMON_REF_SHA_H_

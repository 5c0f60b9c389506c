// C16: SipHash-2-4, every length, chunking, alignment and byte value within the bounds against a
// reference written from the paper (and checked against the published vectors).
#include <array>
#include <memory>
#include <string>
#include <vector>

#include "maidsafe/common/hash/algorithms/siphash.h"

#include "common/vf.h"

namespace {

using maidsafe::SipHash;
typedef std::array<maidsafe::byte, 16> Key;
typedef std::vector<unsigned char> Bytes;

uint64_t rotl(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }

uint64_t reference(const Key& key, const unsigned char* m, size_t n) {
  uint64_t k[2] = {0, 0};
  for (int i = 0; i < 16; ++i)
    k[i / 8] |= static_cast<uint64_t>(key[static_cast<size_t>(i)]) << (8 * (i % 8));
  uint64_t v[4] = {k[0] ^ 0x736f6d6570736575ULL, k[1] ^ 0x646f72616e646f6dULL, k[0] ^ 0x6c7967656e657261ULL,
                   k[1] ^ 0x7465646279746573ULL};
  auto round = [&] {
    v[0] += v[1]; v[2] += v[3]; v[1] = rotl(v[1], 13); v[3] = rotl(v[3], 16);
    v[1] ^= v[0]; v[3] ^= v[2]; v[0] = rotl(v[0], 32);
    v[2] += v[1]; v[0] += v[3]; v[1] = rotl(v[1], 17); v[3] = rotl(v[3], 21);
    v[1] ^= v[2]; v[3] ^= v[0]; v[2] = rotl(v[2], 32);
  };
  size_t words = n / 8 + 1;
  for (size_t w = 0; w < words; ++w) {
    uint64_t x = 0;
    for (size_t i = 0; i < 8; ++i)
      if (w * 8 + i < n)
        x |= static_cast<uint64_t>(m[w * 8 + i]) << (8 * i);
    if (w + 1 == words)
      x |= static_cast<uint64_t>(n & 255) << 56;
    v[3] ^= x;
    round(); round();
    v[0] ^= x;
  }
  v[2] ^= 255;
  for (int i = 0; i < 4; ++i)
    round();
  return v[0] ^ v[1] ^ v[2] ^ v[3];
}

Key key(int which) {
  Key k;
  for (size_t i = 0; i < 16; ++i)
    k[i] = static_cast<unsigned char>(which == 0 ? i : which == 1 ? 0 : which == 2 ? 255 : i * 37 + 150 + static_cast<size_t>(which));
  return k;
}

Bytes message(size_t n, int which) {
  Bytes m(n);
  for (size_t i = 0; i < n; ++i)
    m[i] = static_cast<unsigned char>(which == 0 ? i : which == 1 ? 0xff : which == 2 ? 0 : i * 101 + 7);
  return m;
}

std::string hex(uint64_t v) {
  char b[20];
  snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(v));
  return b;
}

// feeds `m` in the given chunks, each from an exactly sized buffer
uint64_t chunked(const Key& k, const Bytes& m, const std::vector<size_t>& chunks) {
  SipHash h(k);
  size_t at = 0;
  for (size_t c : chunks) {
    std::unique_ptr<unsigned char[]> part(new unsigned char[c ? c : 1]);
    std::copy(m.begin() + static_cast<long>(at), m.begin() + static_cast<long>(at + c), part.get());
    h.Update(part.get(), c);
    std::fill(part.get(), part.get() + c, 0xaa);
    at += c;
    ++vf::transitions;
  }
  return h.Finalize();
}

void check(const Key& k, const Bytes& m, const std::vector<size_t>& chunks) {
  uint64_t want = reference(k, m.data(), m.size());
  uint64_t got = chunked(k, m, chunks);
  vf::outcome(want);
  if (got != want) {
    std::string c;
    for (size_t x : chunks)
      c += std::to_string(x) + " ";
    vf::fail("SipHash of " + std::to_string(m.size()) + " bytes " + vf::show_bytes(m) + " in chunks " + c + "is " +
             hex(got) + " instead of " + hex(want));
  }
}

void vectors() {
  if (!vf::take())
    return;
  struct { size_t n; uint64_t v; } known[] = {{0, 0x726fdb47dd0e0e31ULL}, {1, 0x74f839c593dc67fdULL},
                                              {2, 0x0d6c8009d9a94f5aULL}, {15, 0xa129ca6149be45e5ULL}};
  for (auto& p : known) {
    Bytes m = message(p.n, 0);
    if (reference(key(0), m.data(), p.n) != p.v)
      vf::fail("the reference implementation itself is wrong");
    check(key(0), m, {p.n});
  }
}

void lengths() {
  for (size_t n = 0; n <= 600; ++n)
    for (int k = 0; k < 4; ++k)
      for (int p = 0; p < 4; ++p)
        if (vf::take())
          check(key(k), message(n, p), {n});
  for (size_t n : {1000u, 4096u, 65535u, 65536u, 65543u, 1000003u})
    if (vf::take())
      check(key(3), message(n, 3), {n});
  vf::sample("every length 0..600, 4 keys, 4 patterns");
}

void alignment() {
  for (size_t off = 0; off < 16; ++off)
    for (size_t n = 0; n <= 40; ++n)
      if (vf::take()) {
        Bytes m = message(n, 3);
        std::unique_ptr<unsigned char[]> buf(new unsigned char[off + n + 1]);
        std::copy(m.begin(), m.end(), buf.get() + off);
        SipHash h(key(3));
        h.Update(buf.get() + off, n);
        ++vf::transitions;
        uint64_t want = reference(key(3), m.data(), n);
        VF_CHECK(h.Finalize() == want, "offset " << off << ", length " << n << ": " << hex(h.Finalize()));
      }
}

void splits() {  // every way to cut a message into non-empty chunks
  size_t max = vf::thorough ? 20 : 15;
  for (size_t n = 0; n <= max; ++n)
    for (uint32_t cut = 0; cut < (n ? 1u << (n - 1) : 1u); ++cut)
      if (vf::take()) {
        std::vector<size_t> c;
        size_t last = 0;
        for (size_t i = 1; i < n; ++i)
          if (cut >> (i - 1) & 1) {
            c.push_back(i - last);
            last = i;
          }
        c.push_back(n - last);
        check(key(3), message(n, 3), c);
      }
  vf::sample("every division of messages of up to " + std::to_string(max) + " bytes into chunks");
}

void triples() {  // three chunks with sizes around every word boundary, empty ones included
  for (size_t a = 0; a <= 26; ++a)
    for (size_t b = 0; b <= 26; ++b)
      for (size_t c = 0; c <= 26; ++c)
        if (vf::take())
          check(key(3), message(a + b + c, 3), {a, b, c});
  for (size_t a : {0u, 1u, 7u, 8u, 9u, 250u, 255u, 256u, 257u})
    for (size_t b : {0u, 1u, 7u, 8u, 9u, 15u, 16u, 17u, 255u, 256u})
      for (size_t c : {0u, 1u, 3u, 8u, 255u, 512u})
        for (size_t d : {0u, 1u, 5u, 8u})
          if (vf::take())
            check(key(0), message(a + b + c + d, 3), {a, b, c, d});
  vf::sample("three chunks of 0..26 bytes each, four chunks around 256");
}

void values() {  // every byte value at every position, every key bit
  for (size_t n = 1; n <= 24; ++n)
    for (size_t i = 0; i < n; ++i)
      for (int v = 0; v < 256; ++v)
        if (vf::take()) {
          Bytes m = message(n, 2);
          m[i] = static_cast<unsigned char>(v);
          check(key(0), m, {n});
          if (v == 0x80 || v == 1)
            check(key(0), m, {i, n - i});
        }
  for (size_t i = 0; i < 16; ++i)
    for (int v = 0; v < 256; ++v)
      if (vf::take()) {
        Key k = key(1);
        k[i] = static_cast<unsigned char>(v);
        check(k, message(11, 3), {11});
      }
}

// Histories over two hashers: updates, finalising in between, copying and assigning.
void histories() {
  const size_t sizes[] = {0, 1, 3, 7, 8, 9};
  const int ops = 6 * 2 + 2 + 2;  // update A/B, finalise A/B, B = A, A = copy(B)
  const int depth = vf::thorough ? 5 : 4;
  uint64_t total = 1;
  for (int i = 0; i < depth; ++i)
    total *= ops;
  for (uint64_t h = 0; h < total; ++h)
    if (vf::take()) {
      Bytes text[2];
      SipHash a(key(3)), b(key(3));
      uint64_t x = h;
      unsigned char next = 1;
      auto same = [&](const SipHash& s, const Bytes& t, const char* which) {
        uint64_t want = reference(key(3), t.data(), t.size()), got = s.Finalize();
        VF_CHECK(got == want, "history " << h << ": hasher " << which << " after " << t.size() << " bytes gives "
                                         << hex(got) << " instead of " << hex(want));
      };
      for (int d = 0; d < depth; ++d) {
        int op = static_cast<int>(x % ops);
        x /= ops;
        ++vf::transitions;
        if (op < 12) {
          Bytes m(sizes[op % 6]);
          for (auto& c : m)
            c = next++;
          (op < 6 ? a : b).Update(m.data(), m.size());
          Bytes& t = text[op < 6 ? 0 : 1];
          t.insert(t.end(), m.begin(), m.end());
        } else if (op == 12) {
          same(a, text[0], "A");
        } else if (op == 13) {
          same(b, text[1], "B");
        } else if (op == 14) {
          b = a;
          text[1] = text[0];
        } else {
          SipHash c(b);
          a = std::move(c);
          text[0] = text[1];
        }
      }
      same(a, text[0], "A");
      same(b, text[1], "B");
      same(a, text[0], "A (again)");
      ++vf::histories;
      vf::state(vf::hash_str(std::string(text[0].begin(), text[0].end()) + "|" + std::string(text[1].begin(), text[1].end())));
    }
  vf::sample("all " + std::to_string(total) + " histories of " + std::to_string(depth) + " operations on two hashers");
}

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"vectors", vectors}, {"lengths", lengths}, {"alignment", alignment},
                              {"splits", splits}, {"triples", triples}, {"values", values},
                              {"histories", histories}});
}

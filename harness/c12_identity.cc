// C12: identities: creation from every size around the limit in every encoding, and the XOR metric.
#include <string>
#include <vector>

#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/utils.h"

#include "common/vf.h"

namespace {
using maidsafe::CommonErrors;
using maidsafe::Identity;
typedef std::vector<unsigned char> Bytes;

Bytes pattern(size_t n, unsigned seed) {
  Bytes b(n);
  for (auto& c : b) {
    seed = seed * 1664525u + 1013904223u;
    c = static_cast<unsigned char>(seed >> 24);
  }
  return b;
}

template <typename F>
bool throws(F f, CommonErrors code) {
  try {
    f();
  } catch (const maidsafe::common_error& e) {
    VF_CHECK(e.code() == maidsafe::make_error_code(code), "throws " << e.code().message());
    return true;
  }
  return false;
}

std::string bin(const Bytes& b) {
  std::string s;
  for (unsigned char c : b)
    for (int i = 7; i >= 0; --i)
      s += (c >> i & 1) ? '1' : '0';
  return s;
}

void created(const Identity& id, const Bytes& want, const char* how) {
  VF_CHECK(id.IsInitialised() && id.size() == 64 && Bytes(id.string()) == want,
           "identity made by " << how << " differs from its source " << vf::show_bytes(want));
  ++vf::transitions;
}

void sizes() {
  for (size_t n = 0; n <= 140; ++n)
    for (unsigned p = 0; p < 4; ++p)
      if (vf::take()) {
        Bytes b = p == 0 ? Bytes(n, 0) : p == 1 ? Bytes(n, 255) : pattern(n, p + static_cast<unsigned>(n));
        std::string s(b.begin(), b.end()), h = maidsafe::hex::Encode(b), b6 = maidsafe::base64::Encode(b), bi = bin(b);
        vf::outcome(n == 64);
        if (n == 64) {
          Identity id(b);
          created(id, b, "constructor from bytes");
          created(Identity(s), b, "constructor from a string");
          created(maidsafe::MakeIdentity(maidsafe::hex::String(h)), b, "hex");
          created(maidsafe::MakeIdentity(maidsafe::base64::String(b6)), b, "base64");
          created(maidsafe::MakeIdentity(maidsafe::binary::String(bi)), b, "binary");
          VF_CHECK(maidsafe::hex::Encode(id) == h, "hex encoding of an identity");
          VF_CHECK(maidsafe::base64::Encode(id) == b6, "base64 encoding of an identity");
          VF_CHECK(maidsafe::binary::Encode(id) == bi, "binary encoding of an identity: " << maidsafe::binary::Encode(id));
          vf::outcome(vf::hash_str(h));
        } else {
          vf::outcome(1000 + n);
          VF_CHECK(throws([&] { Identity x(b); }, CommonErrors::outside_of_bounds), "Identity from " << n << " bytes");
          VF_CHECK(throws([&] { Identity x(s); }, CommonErrors::outside_of_bounds), "Identity from string of " << n << " bytes");
          VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::hex::String(h)); }, CommonErrors::invalid_identity),
                   "MakeIdentity accepts hex of " << n << " bytes");
          VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::base64::String(b6)); }, CommonErrors::invalid_identity),
                   "MakeIdentity accepts base64 of " << n << " bytes");
          VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::binary::String(bi)); }, CommonErrors::invalid_identity),
                   "MakeIdentity accepts binary of " << n << " bytes");
        }
        vf::transitions += 8;
      }
  vf::sample("every size from 0 to 140 bytes, 4 patterns, 5 ways of creation");
}

// encodings one or more characters too short or too long, or with a wrong character
void encodings() {
  Bytes b = pattern(64, 9);
  std::string bi = bin(b), h = maidsafe::hex::Encode(b), b6 = maidsafe::base64::Encode(b);
  std::string longer = bin(pattern(80, 10));
  for (size_t n = 0; n <= 640; ++n)
    if (vf::take()) {
      std::string s = longer.substr(0, n);
      if (n == 512)
        created(maidsafe::MakeIdentity(maidsafe::binary::String(s)), pattern(80, 10).size() ? Bytes([&] {
                  Bytes x = pattern(80, 10);
                  x.resize(64);
                  return x;
                }()) : Bytes(),
                "binary");
      else
        VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::binary::String(s)); }, CommonErrors::invalid_identity),
                 "MakeIdentity accepts a binary string of " << n << " characters");
      ++vf::transitions;
      vf::outcome(n);
    }
  std::string hl = maidsafe::hex::Encode(pattern(80, 11)), bl = maidsafe::base64::Encode(pattern(81, 12));
  for (size_t n = 0; n <= hl.size(); ++n)
    if (vf::take()) {
      if (n != 128)
        VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::hex::String(hl.substr(0, n))); }, CommonErrors::invalid_identity),
                 "MakeIdentity accepts a hex string of " << n << " characters");
      if (n <= bl.size())
        VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::base64::String(bl.substr(0, n))); }, CommonErrors::invalid_identity),
                 "MakeIdentity accepts an unpadded base64 string of " << n << " characters");
      vf::transitions += 2;
      vf::outcome(2000 + n);
    }
  for (int c = 0; c < 256; ++c)
    for (size_t at : {0u, 1u, 7u, 8u, 63u, 64u, 84u, 85u, 86u, 87u, 127u, 128u, 504u, 511u})
      if (vf::take()) {
        char ch = static_cast<char>(c);
        std::string x = bi;
        x[at] = ch;
        bool ok = ch == '0' || ch == '1';
        VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::binary::String(x)); }, CommonErrors::invalid_identity) == !ok,
                 "binary string with character " << c << " at " << at);
        if (at < h.size()) {
          x = h;
          x[at] = ch;
          ok = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f');
          VF_CHECK(throws([&] { maidsafe::MakeIdentity(maidsafe::hex::String(x)); }, CommonErrors::invalid_identity) == !ok,
                   "hex string with character " << c << " at " << at);
        }
        if (at < b6.size()) {
          x = b6;
          x[at] = ch;
          ok = (isalnum(c) && c < 128) || ch == '+' || ch == '/';
          if (at == 86 || at == 87)  // b6 ends in two pads
            ok = at == 87 ? ch == '=' : (ok || ch == '=');
          bool refused = throws([&] { maidsafe::MakeIdentity(maidsafe::base64::String(x)); }, CommonErrors::invalid_identity);
          bool want = !ok || (at == 86 && ch != '=');  // 65 bytes
          VF_CHECK(refused == want, "base64 string with character " << c << " at " << at);
        }
        vf::transitions += 3;
      }
  if (vf::take()) {
    Identity none;
    VF_CHECK(!none.IsInitialised(), "a default-constructed identity is initialised");
    VF_CHECK(throws([&] { maidsafe::binary::Encode(none); }, CommonErrors::invalid_identity), "binary::Encode(uninitialised)");
    VF_CHECK(throws([&] { maidsafe::hex::Encode(none); }, CommonErrors::uninitialised), "hex::Encode(uninitialised)");
    VF_CHECK(throws([&] { maidsafe::base64::Encode(none); }, CommonErrors::uninitialised), "base64::Encode(uninitialised)");
    Identity id(pattern(64, 1));
    const Identity* v[2] = {&none, &id};
    for (int i = 0; i < 7; ++i) {
      VF_CHECK(throws([&] { maidsafe::CloserToTarget(*v[i & 1], *v[i >> 1 & 1], *v[i >> 2]); }, CommonErrors::invalid_identity),
               "CloserToTarget with an uninitialised argument, case " << i);
      if (i < 3)
        VF_CHECK(throws([&] { maidsafe::CommonLeadingBits(*v[i & 1], *v[i >> 1]); }, CommonErrors::invalid_identity),
                 "CommonLeadingBits with an uninitialised argument, case " << i);
    }
    Identity a = maidsafe::MakeIdentity(), b = maidsafe::MakeIdentity();
    VF_CHECK(a.IsInitialised() && a.size() == 64 && b.size() == 64 && a != b, "random identities");
  }
}

int leading(const Bytes& a, const Bytes& b) {
  int n = 0;
  for (size_t i = 0; i < a.size(); ++i)
    for (int k = 7; k >= 0; --k, ++n)
      if ((a[i] >> k & 1) != (b[i] >> k & 1))
        return n;
  return n;
}
bool closer(const Bytes& a, const Bytes& b, const Bytes& t) {
  Bytes x(64), y(64);
  for (size_t i = 0; i < 64; ++i) {
    x[i] = a[i] ^ t[i];
    y[i] = b[i] ^ t[i];
  }
  return x < y;
}

void common_bits() {  // every pair of byte values at every position
  for (size_t pos = 0; pos < 64; ++pos)
    for (int a = 0; a < 256; ++a)
      if (vf::take()) {
        Bytes base = pattern(64, static_cast<unsigned>(pos));
        Identity x(base), y(base);
        Bytes bx = base, by = base;
        for (size_t i = pos + 1; i < 64; ++i)
          by[i] = static_cast<unsigned char>(~by[i]), y[i] = by[i];
        bx[pos] = x[pos] = static_cast<unsigned char>(a);
        for (int b = 0; b < 256; ++b) {
          by[pos] = y[pos] = static_cast<unsigned char>(b);
          int want = leading(bx, by);
          ++vf::transitions;
          VF_CHECK(maidsafe::CommonLeadingBits(x, y) == want,
                   "CommonLeadingBits of identities that first differ at byte " << pos << " (" << a << ", " << b << ") is "
                       << maidsafe::CommonLeadingBits(x, y) << " instead of " << want);
          VF_CHECK(maidsafe::CommonLeadingBits(y, x) == want, "CommonLeadingBits is not symmetric");
          vf::outcome(static_cast<uint64_t>(3000 + want));
        }
      }
  vf::sample("all 65536 pairs of byte values at each of the 64 positions");
}

void metric_bytes() {
  for (size_t pos : {0u, 1u, 31u, 62u, 63u})
    for (int t : {0, 1, 0x0f, 0x55, 0x7f, 0x80, 0xaa, 0xff})
      for (int a = 0; a < 256; ++a)
        if (vf::take()) {
          Bytes base = pattern(64, static_cast<unsigned>(pos + 50)), bt = pattern(64, 77);
          bt[pos] = static_cast<unsigned char>(t);
          Identity x(base), y(base), target(bt);
          Bytes bx = base, by = base;
          bx[pos] = x[pos] = static_cast<unsigned char>(a);
          if (pos < 63) {
            by[63] = y[63] = static_cast<unsigned char>(by[63] ^ bt[63] ^ 0);
          }
          for (int b = 0; b < 256; ++b) {
            by[pos] = y[pos] = static_cast<unsigned char>(b);
            ++vf::transitions;
            VF_CHECK(maidsafe::CloserToTarget(x, y, target) == closer(bx, by, bt) &&
                         maidsafe::CloserToTarget(y, x, target) == closer(by, bx, bt),
                     "CloserToTarget of identities differing at byte " << pos << ": " << a << ", " << b << " towards " << t);
          }
        }
}

void metric_triples() {
  std::vector<Bytes> set;
  set.push_back(Bytes(64, 0));
  set.push_back(Bytes(64, 255));
  for (size_t pos : {0u, 1u, 32u, 62u, 63u})
    for (int v : {1, 0x7f, 0x80, 0xff}) {
      Bytes b(64, 0);
      b[pos] = static_cast<unsigned char>(v);
      set.push_back(b);
      for (auto& c : b)
        c = static_cast<unsigned char>(~c);
      set.push_back(b);
    }
  for (unsigned p = 0; p < (vf::thorough ? 40u : 12u); ++p)
    set.push_back(pattern(64, 500 + p));
  std::vector<Identity> ids;
  for (auto& b : set)
    ids.push_back(Identity(b));
  for (size_t i = 0; i < set.size(); ++i)
    for (size_t j = 0; j < set.size(); ++j)
      if (vf::take())
        for (size_t k = 0; k < set.size(); ++k) {
          ++vf::transitions;
          VF_CHECK(maidsafe::CloserToTarget(ids[i], ids[j], ids[k]) == closer(set[i], set[j], set[k]),
                   "CloserToTarget(" << i << ", " << j << ", " << k << ") of the boundary identities");
          VF_CHECK(maidsafe::CommonLeadingBits(ids[i], ids[j]) == leading(set[i], set[j]), "CommonLeadingBits " << i << ", " << j);
        }
  vf::sample("all triples of " + std::to_string(set.size()) + " boundary identities");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"sizes", sizes}, {"encodings", encodings}, {"common_bits", common_bits},
                              {"metric_bytes", metric_bytes}, {"metric_triples", metric_triples}});
}

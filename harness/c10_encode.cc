// C10 (hex) and C11 (base64): every input of the alphabets below against reference codecs written
// from the RFC.  Compiled twice, with -DPART=10 and -DPART=11.
#include <array>
#include <deque>
#include <string>
#include <vector>

#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/types.h"

#include "common/vf.h"

namespace {

#if PART == 10
namespace codec = maidsafe::hex;
std::string ref_encode(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    r += "0123456789abcdef"[c >> 4];
    r += "0123456789abcdef"[c & 15];
  }
  return r;
}
int digit(char c) {
  if (c >= '0' && c <= '9')
    return c - '0';
  if (c >= 'a' && c <= 'f')
    return c - 'a' + 10;
  return -1;
}
bool ref_decode(const std::string& s, std::string& out) {
  out.clear();
  if (s.size() % 2)
    return false;
  for (size_t i = 0; i < s.size(); i += 2) {
    if (digit(s[i]) < 0 || digit(s[i + 1]) < 0)
      return false;
    out += static_cast<char>(digit(s[i]) * 16 + digit(s[i + 1]));
  }
  return true;
}
const std::string kOdd("09afg`/:AFG@ x-\0\x7f\x80\xff", 19);
#else
namespace codec = maidsafe::base64;
const char* kAlpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string ref_encode(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = 0;
    size_t n = std::min<size_t>(3, s.size() - i);
    for (size_t k = 0; k < 3; ++k)
      v = v * 256 + (k < n ? static_cast<unsigned char>(s[i + k]) : 0);
    for (size_t k = 0; k < 4; ++k)
      r += k <= n ? kAlpha[(v >> (18 - 6 * k)) & 63] : '=';
  }
  return r;
}
int digit(char c) {
  for (int i = 0; i < 64; ++i)
    if (kAlpha[i] == c)
      return i;
  return -1;
}
bool ref_decode(const std::string& s, std::string& out) {
  out.clear();
  if (s.size() % 4)
    return false;
  size_t n = s.size();
  if (n && s[n - 1] == '=')
    --n;
  if (n && n != s.size() && s[n - 1] == '=')
    --n;
  unsigned v = 0, bits = 0;
  for (size_t i = 0; i < n; ++i) {
    if (digit(s[i]) < 0)
      return false;
    v = v * 64 + static_cast<unsigned>(digit(s[i]));
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      out += static_cast<char>((v >> bits) & 255);
    }
  }
  return true;
}
const std::string kOdd("AZaz09+/=-_ @[`{:\n.\0\x7f\x80\xff", 23);
#endif

std::string ref_substr(const std::string& e) {
  return e.size() <= 14 ? e : e.substr(0, 6) + ".." + e.substr(e.size() - 6);
}

template <typename F>
void must_throw(F f, const std::string& in, const char* what) {
  try {
    f();
  } catch (const maidsafe::common_error& e) {
    VF_CHECK(e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::invalid_conversion),
             what << " of " << vf::show(in) << " throws " << e.code().message() << " instead of invalid_conversion");
    return;
  }
  vf::fail(std::string(what) + " accepts malformed " + vf::show(in));
}

void check_decode(const std::string& in) {
  std::string want;
  bool ok = ref_decode(in, want);
  // an exactly sized heap copy, so that reading beyond it is seen
  std::string copy(in.data(), in.size());
  copy.shrink_to_fit();
  vf::transitions += 2;
  vf::outcome(ok ? vf::hash_str(want) : 1);
  if (ok) {
    std::string a = codec::DecodeToString(copy);
    VF_CHECK(a == want, "DecodeToString(" << vf::show(in) << ") = " << vf::show(a) << " instead of " << vf::show(want));
    auto b = codec::DecodeToBytes(copy);
    VF_CHECK(std::string(b.begin(), b.end()) == want, "DecodeToBytes(" << vf::show(in) << ") = " << vf::show_bytes(b));
  } else {
    must_throw([&] { codec::DecodeToString(copy); }, in, "DecodeToString");
    must_throw([&] { codec::DecodeToBytes(copy); }, in, "DecodeToBytes");
  }
}

void check_encode(const std::string& in, bool all = false) {
  std::string want = ref_encode(in);
  vf::transitions += 2;
  vf::outcome(vf::hash_str(want));
  std::string e = codec::Encode(in);
  VF_CHECK(e == want, "Encode(" << vf::show(in) << ") = " << vf::show(e) << " instead of " << vf::show(want));
  std::vector<unsigned char> v(in.begin(), in.end());
  e = codec::Encode(v);
  VF_CHECK(e == want, "Encode(bytes " << vf::show(in) << ") = " << vf::show(e) << " instead of " << vf::show(want));
  std::string back = codec::DecodeToString(e);
  VF_CHECK(back == in, "decoding the encoding of " << vf::show(in) << " gives " << vf::show(back));
  if (!all)
    return;
  vf::transitions += 6;
  auto bytes = codec::DecodeToBytes(e);
  VF_CHECK(bytes == v, "decoding the encoding of " << vf::show(in) << " gives " << vf::show_bytes(bytes));
  std::vector<char> c(in.begin(), in.end());
  VF_CHECK(codec::Encode(c) == want, "Encode(vector<char> " << vf::show(in) << ") differs");
  VF_CHECK(codec::Encode(std::deque<signed char>(in.begin(), in.end())) == want,
           "Encode(deque<signed char> " << vf::show(in) << ") differs");
  VF_CHECK(codec::Substr(in) == ref_substr(want), "Substr(" << vf::show(in) << ") = " << codec::Substr(in));
  VF_CHECK(codec::Substr(v) == ref_substr(want), "Substr(bytes " << vf::show(in) << ") = " << codec::Substr(v));
  using S = maidsafe::detail::BoundedString<0, static_cast<std::size_t>(-1), std::string>;
  using V = maidsafe::detail::BoundedString<0, static_cast<std::size_t>(-1), std::vector<maidsafe::byte>>;
  S bs(in);
  V bv(v);
  VF_CHECK(codec::Encode(bs) == want && codec::Encode(bv) == want, "Encode(BoundedString " << vf::show(in) << ") differs");
  VF_CHECK(codec::Substr(bs) == ref_substr(want) && codec::Substr(bv) == ref_substr(want),
           "Substr(BoundedString " << vf::show(in) << ") differs");
  if (in.size() == 64) {
    maidsafe::Identity id(in);
    VF_CHECK(codec::Encode(id) == want && codec::Substr(id) == ref_substr(want), "Encode(Identity) differs");
    std::array<unsigned char, 64> a;
    std::copy(v.begin(), v.end(), a.begin());
    VF_CHECK(codec::Encode(a) == want, "Encode(array) differs");
  }
  if (in.size() > 0) {
    maidsafe::NonEmptyString ne(in);
    VF_CHECK(codec::Encode(ne) == want, "Encode(NonEmptyString) differs");
  }
}

// calls f for every string of length n over `alphabet`
template <typename F>
void all_strings(const std::string& alphabet, size_t n, F f) {
  std::vector<size_t> i(n, 0);
  std::string s(n, alphabet[0]);
  for (;;) {
    f(s);
    size_t k = 0;
    while (k < n && ++i[k] == alphabet.size()) {
      i[k] = 0;
      s[k] = alphabet[0];
      ++k;
    }
    if (k == n)
      return;
    s[k] = alphabet[i[k]];
  }
}

std::string all_bytes() {
  std::string a;
  for (int i = 0; i < 256; ++i)
    a += static_cast<char>(i);
  return a;
}

void encode_short() {
  std::string a = all_bytes();
  for (size_t n = 0; n <= 2; ++n)
    all_strings(a, n, [&](const std::string& s) {
      if (vf::take())
        check_encode(s, true);
    });
  vf::sample("every byte string of 0 to 2 bytes, six container types");
  std::string few("\0\1\x0f\x10\x3f\x40\x7f\x80\xa5\xbf\xc0\xf0\xfe\xff", 14);
  for (unsigned x = 0; x < 256; ++x)
    for (char b : few)
      for (char c : few) {
        std::string w{static_cast<char>(x), b, c};
        for (int rot = 0; rot < 3; ++rot) {
          if (vf::take())
            check_encode(w, true);
          w = w.substr(1) + w[0];
        }
      }
  all_strings(std::string("\0\x7f\x80\xff", 4), 6, [&](const std::string& s) {
    if (vf::take())
      check_encode(s, true);
  });
  if (vf::thorough)
    all_strings(a, 3, [&](const std::string& s) {
      if (vf::take())
        check_encode(s);
    });
}

void encode_long() {
  for (size_t n = 0; n <= 300; ++n)
    for (unsigned p = 0; p < 8; ++p)
      if (vf::take()) {
        std::string s(n, 0);
        unsigned x = p * 2654435761u + static_cast<unsigned>(n);
        for (size_t i = 0; i < n; ++i) {
          x = x * 1664525u + 1013904223u;
          s[i] = static_cast<char>(p == 0 ? 0xff : p == 1 ? 0 : p == 2 ? i : x >> 24);
        }
        check_encode(s, true);
        check_decode(ref_encode(s));
      }
  for (size_t n : {1023u, 1024u, 65535u, 65536u, 100001u})
    if (vf::take())
      check_encode(std::string(n, static_cast<char>(n % 251)), true);
  vf::sample("8 patterns of every size from 0 to 300, and sizes up to 100001");
}

void decode_short() {
  std::string a = all_bytes();
  for (size_t n = 0; n <= (vf::thorough ? 3u : 2u); ++n)
    all_strings(a, n, [&](const std::string& s) {
      if (vf::take())
        check_decode(s);
    });
  for (size_t n = 3; n <= 4; ++n)
    all_strings(kOdd, n, [&](const std::string& s) {
      if (vf::take())
        check_decode(s);
    });
  std::string few = PART == 10 ? std::string("0fgF") : std::string("A/=-");
  for (size_t n = 5; n <= (vf::thorough ? 9u : 8u); ++n)
    all_strings(few, n, [&](const std::string& s) {
      if (vf::take())
        check_decode(s);
    });
  vf::sample("every string of 0 to 2 bytes; every string of 3 and 4 characters out of " + vf::show(kOdd) +
             "; every string of 5 to 8 characters out of " + vf::show(few));
}

void decode_damaged() {  // every single-character change of valid encodings
  for (size_t n : {1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 16u, 20u, 33u, 64u}) {
    std::string d(n, 0);
    for (size_t i = 0; i < n; ++i)
      d[i] = static_cast<char>(i * 89 + 200 + n);
    std::string e = ref_encode(d);
    for (size_t i = 0; i < e.size(); ++i)
      for (int c = 0; c < 256; ++c)
        if (vf::take()) {
          std::string x = e;
          x[i] = static_cast<char>(c);
          check_decode(x);
        }
    for (size_t i = 0; i <= e.size(); ++i)  // cut, and grown by one to three characters
      if (vf::take()) {
        check_decode(e.substr(0, i));
        check_decode(e.substr(i));
        for (const char* g : {"0", "A=", "\n", "===", "0a"})
          check_decode(e.substr(0, i) + g + e.substr(i));
      }
  }
  vf::sample("every single-character substitution, cut and small insertion of 12 valid encodings");
}

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"encode_short", encode_short},
                              {"encode_long", encode_long},
                              {"decode_short", decode_short},
                              {"decode_damaged", decode_damaged}});
}

// C21: symmetric encryption, compression, hashes and derived passwords.
#include <map>
#include <string>
#include <vector>

#include "maidsafe/common/crypto.h"

#include "common/limit_new.h"
#include "common/ref_sha.h"
#include "common/vf.h"

namespace {
using namespace maidsafe;
namespace crypto = maidsafe::crypto;
typedef std::string Text;

Text pattern(size_t n, unsigned kind) {
  Text s;
  uint32_t x = 12345 + kind;
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525 + 1013904223;
    s += kind == 0 ? '\0' : kind == 1 ? static_cast<char>(i * 7 + 1) : kind == 2 ? '\xff' : static_cast<char>(x >> 24);
  }
  return s;
}
template <typename B>
Text text(const B& b) {
  return Text(b.string().begin(), b.string().end());
}
crypto::AES256KeyAndIV key(unsigned kind) { return crypto::AES256KeyAndIV(pattern(48, kind + 3)); }

template <typename B, typename Tag>
Text text(const TaggedValue<B, Tag>& b) {
  return Text(b->string().begin(), b->string().end());
}
bool decrypts(const Text& cipher, const crypto::AES256KeyAndIV& k, Text* plain) {
  ++vf::transitions;
  try {
    *plain = text(crypto::SymmDecrypt(crypto::CipherText(NonEmptyString(cipher)), k));
    return true;
  } catch (const maidsafe_error&) {
    return false;
  }
}

void ciphers() {
  std::vector<size_t> sizes;
  for (size_t n = 1; n < 600; ++n)
    sizes.push_back(n);
  for (size_t around : {1024, 4096, 8192, 65536, 1 << 20})
    for (size_t n = around - 2; n <= around + 2; ++n)
      sizes.push_back(n);
  for (size_t n : sizes)
    for (unsigned kind = 0; kind < 4; ++kind) {
      if (!vf::take())
        continue;
      const Text plain = pattern(n, kind);
      const auto k = key(kind);
      const crypto::CipherText c = crypto::SymmEncrypt(crypto::PlainText(plain), k);
      const Text cipher = text(c);
      VF_CHECK(cipher.size() > n, "the cipher text of " << n << " bytes has " << cipher.size());
      VF_CHECK(n < 8 || cipher.find(plain) == Text::npos, "the cipher text of " << n << " bytes shows the plain text");
      Text back;
      VF_CHECK(decrypts(cipher, k, &back) && back == plain, "decrypting " << n << " bytes");
      VF_CHECK(text(crypto::SymmEncrypt(crypto::PlainText(plain), k)) == cipher, "encryption is not deterministic");
      Text other;
      VF_CHECK(!decrypts(cipher, key(kind + 1), &other) || other != plain, "another key decrypts " << n << " bytes");
      vf::outcome(vf::hash_str(cipher));
      vf::transitions += 2;
    }
  // every changed byte, every shortening and lengthening
  for (size_t n : {1, 2, 15, 16, 17, 31, 32, 33, 48, 100}) {
    const Text plain = pattern(n, 1);
    const auto k = key(0);
    const Text cipher = text(crypto::SymmEncrypt(crypto::PlainText(plain), k));
    for (size_t i = 0; i < cipher.size(); ++i) {
      if (!vf::take())
        continue;
      for (unsigned x = 1; x < 256; ++x) {
        Text c = cipher, p;
        c[i] = static_cast<char>(c[i] ^ x);
        VF_CHECK(!decrypts(c, k, &p), "changing byte " << i << " of a cipher text of " << c.size() << " is not noticed");
      }
      for (size_t j = i + 1; j < cipher.size(); ++j) {
        Text c = cipher, p;
        if (c[i] == c[j])
          continue;
        std::swap(c[i], c[j]);
        VF_CHECK(!decrypts(c, k, &p), "swapping bytes " << i << " and " << j << " is not noticed");
      }
      Text p;
      if (i > 0)
        VF_CHECK(!decrypts(cipher.substr(0, i), k, &p), "a cipher text cut to " << i << " bytes is not noticed");
      VF_CHECK(i == 0 || !decrypts(cipher.substr(i), k, &p), "a cipher text without its first " << i << " bytes");
      VF_CHECK(!decrypts(cipher + cipher.substr(0, i + 1), k, &p), "additional bytes are not noticed");
    }
  }
  // every changed byte of key and initialisation vector
  for (size_t i = 0; i < 48; ++i)
    for (unsigned x = 1; x < 256; x += vf::thorough ? 1 : 9) {
      if (!vf::take())
        continue;
      const Text plain = pattern(20, 1);
      Text k = pattern(48, 3), p;
      const Text cipher = text(crypto::SymmEncrypt(crypto::PlainText(plain), crypto::AES256KeyAndIV(k)));
      k[i] = static_cast<char>(k[i] ^ x);
      const crypto::AES256KeyAndIV other(k);
      VF_CHECK(!decrypts(cipher, other, &p), "changing byte " << i << " of key and vector is not noticed");
      VF_CHECK(text(crypto::SymmEncrypt(crypto::PlainText(plain), other)) != cipher, "byte " << i << " of the key is not used");
    }
  if (vf::single())
    vf::sample("swapping bytes 3 and 17 of a cipher text of 33 bytes: symmetric_decryption_error");
}

template <typename F>
std::error_code error_of(F f) {
  try {
    f();
    return std::error_code();
  } catch (const maidsafe_error& e) {
    return e.code();
  }
}
void arguments() {
  if (!vf::single())
    return;
  const auto uninitialised = make_error_code(CommonErrors::uninitialised);
  const auto invalid = make_error_code(CommonErrors::invalid_argument);
  const crypto::AES256KeyAndIV k = key(0), none;
  const crypto::PlainText data("data"), nothing;
  const crypto::CipherText cipher = crypto::SymmEncrypt(data, k), no_cipher;
  VF_CHECK(error_of([&] { crypto::SymmEncrypt(nothing, k); }) == uninitialised, "encrypting nothing");
  VF_CHECK(error_of([&] { crypto::SymmEncrypt(data, none); }) == uninitialised, "encrypting without key");
  VF_CHECK(error_of([&] { crypto::SymmDecrypt(no_cipher, k); }) == uninitialised, "decrypting nothing");
  VF_CHECK(error_of([&] { crypto::SymmDecrypt(cipher, none); }) == uninitialised, "decrypting without key");
  VF_CHECK(error_of([&] { crypto::Compress(nothing, 1); }) == uninitialised, "compressing nothing");
  VF_CHECK(error_of([&] { crypto::Uncompress(crypto::CompressedText()); }) == uninitialised, "uncompressing nothing");
  for (unsigned level = 0; level < 65536; ++level) {
    const auto e = error_of([&] { crypto::Compress(data, static_cast<uint16_t>(level)); });
    VF_CHECK(e == (level <= 9 ? std::error_code() : invalid), "compression level " << level << ": " << e.message());
  }
  VF_CHECK(error_of([&] { crypto::CreateSecurePassword(nothing, data, 1); }) == uninitialised, "no password");
  VF_CHECK(error_of([&] { crypto::CreateSecurePassword(data, nothing, 1); }) == uninitialised, "no salt");
  vf::transitions += 65544;
}

bool uncompresses(const Text& packed, Text* plain) {
  ++vf::transitions;
  try {
    *plain = text(crypto::Uncompress(crypto::CompressedText(NonEmptyString(packed))));
    return true;
  } catch (const maidsafe_error&) {
    return false;
  }
}
void pack(const Text& plain) {
  for (uint16_t level = 0; level <= crypto::kMaxCompressionLevel; ++level) {
    const Text packed = text(crypto::Compress(crypto::UncompressedText(plain), level));
    Text back;
    VF_CHECK(uncompresses(packed, &back), "uncompressing " << plain.size() << " bytes of level " << level << " fails");
    VF_CHECK(back == plain, "uncompressing " << plain.size() << " bytes of level " << level << " differs");
    vf::outcome(vf::hash_str(packed));
  }
}
void compression() {
  for (size_t n = 1; n <= (vf::thorough ? 12u : 9u); ++n)  // all strings over two characters
    for (size_t v = 0; v < (size_t(1) << n); ++v) {
      if (!vf::take())
        continue;
      Text s;
      for (size_t i = 0; i < n; ++i)
        s += v >> i & 1 ? 'b' : '\0';
      pack(s);
    }
  for (size_t n = 1; n < 400; ++n)
    for (unsigned kind = 0; kind < 4; ++kind)
      if (vf::take())
        pack(pattern(n, kind));
  for (size_t n : {1023, 1024, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1})
    for (unsigned kind = 0; kind < 4; ++kind)
      if (vf::take()) {
        vf::set_case_limit(120);
        pack(pattern(n, kind));
      }
  // damaged: an error or the original, never other text
  for (size_t n : {1, 5, 40, 300}) {
    for (uint16_t level : {0, 1, 9}) {
      const Text plain = pattern(n, 1), packed = text(crypto::Compress(crypto::UncompressedText(plain), level));
      for (size_t i = 0; i < packed.size(); ++i) {
        if (!vf::take())
          continue;
        Text p;
        for (unsigned x = 1; x < 256; ++x) {
          Text c = packed;
          c[i] = static_cast<char>(c[i] ^ x);
          VF_CHECK(!uncompresses(c, &p) || p == plain, "changing byte " << i << " of a compressed text of " << packed.size()
                                                                        << " bytes gives other text");
        }
        if (i > 0)
          VF_CHECK(!uncompresses(packed.substr(0, i), &p), "a compressed text of " << packed.size() << " bytes cut to " << i
                                                                                   << " is not noticed");
      }
    }
  }
  for (size_t n = 1; n < 40; ++n)
    if (vf::take()) {
      Text p;
      for (unsigned kind = 0; kind < 4; ++kind)
        VF_CHECK(!uncompresses(pattern(n, kind), &p), "text which was not compressed is uncompressed");
    }
}

template <typename H>
void hash(const Text& s, const Text& want, const char* name) {
  VF_CHECK(text(crypto::Hash<H>(s)) == want, name << " of " << s.size() << " bytes " << vf::show(s.substr(0, 40)));
  VF_CHECK(text(crypto::Hash<H>(std::vector<byte>(s.begin(), s.end()))) == want, name << " of a vector");
  if (!s.empty())
    VF_CHECK(text(crypto::Hash<H>(NonEmptyString(s))) == want, name << " of a bounded string");
  vf::transitions += 3;
  vf::outcome(vf::hash_str(want));
}
void hashes(const Text& s) {
  hash<crypto::SHA1>(s, ref::sha1(s), "SHA-1");
  hash<crypto::SHA256>(s, ref::sha256(s), "SHA-256");
  hash<crypto::SHA384>(s, ref::sha384(s), "SHA-384");
  hash<crypto::SHA512>(s, ref::sha512(s), "SHA-512");
}
void digests() {
  if (vf::single()) {  // the reference itself: FIPS 180 examples
    VF_CHECK(ref::to_hex(ref::sha1("abc")) == "a9993e364706816aba3e25717850c26c9cd0d89d", "reference SHA-1");
    VF_CHECK(ref::to_hex(ref::sha256("abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad",
             "reference SHA-256");
    VF_CHECK(ref::to_hex(ref::sha384("abc")) ==
                 "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7",
             "reference SHA-384");
    VF_CHECK(ref::to_hex(ref::sha512("abc")) ==
                 "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643c"
                 "e80e2a9ac94fa54ca49f",
             "reference SHA-512");
  }
  for (size_t n = 0; n < 700; ++n)
    for (unsigned kind = 0; kind < 4; ++kind)
      if (vf::take())
        hashes(pattern(n, kind));
  for (unsigned c = 0; c < 256; ++c)
    if (vf::take())
      for (unsigned d = 0; d < 256; d += 5)
        hashes(Text(1, static_cast<char>(c)) + static_cast<char>(d));
  if (vf::take())
    hashes(Text(1000000, 'a'));
}

void passwords() {
  struct Case {
    Text password, salt;
    uint32_t pin;
    Text label;
  };
  auto derive = [](const Case& c) {
    ++vf::transitions;
    vf::note();
    return text(crypto::CreateSecurePassword(NonEmptyString(c.password), crypto::Salt(c.salt), c.pin, c.label));
  };
  auto compare = [&](const Case& a, const Case& b, const char* what) {
    VF_CHECK(derive(a) != derive(b), "the derived password does not depend on " << what);
  };
  const std::vector<Text> texts = {"p", "password", Text("\0\0", 2), pattern(64, 1), pattern(128, 3), pattern(129, 1), pattern(300, 3)};
  const std::string label = crypto::kMaidSafeVersionLabel;
  for (const auto& p : texts)
    for (const auto& s : texts) {
      if (!vf::take())
        continue;
      const Case base{p, s, 1234, label};
      const Text d = derive(base);
      VF_CHECK(d.size() == 48 && derive(base) == d, "derived passwords are not deterministic");
      VF_CHECK(text(crypto::CreateSecurePassword(NonEmptyString(p), crypto::Salt(s), 1234)) == d, "the default label");
      vf::outcome(vf::hash_str(d));
      // every byte of password, salt and label (of some positions), every size by one
      for (size_t i = 0; i < p.size(); i += p.size() > 20 ? 13 : 1) {
        Case c = base;
        c.password[i] = static_cast<char>(c.password[i] ^ 1);
        compare(base, c, "a byte of the password");
      }
      for (size_t i = 0; i < s.size(); i += s.size() > 20 ? 13 : 1) {
        Case c = base;
        c.salt[i] = static_cast<char>(c.salt[i] ^ 1);
        compare(base, c, "a byte of the salt");
      }
      Case c = base;
      c.password += 'x';
      compare(base, c, "the size of the password");
      c = base;
      c.salt += 'x';
      compare(base, c, "the size of the salt");
    }
  for (size_t i = 0; i < label.size(); ++i)
    if (vf::take()) {
      Case c{"password", "salt", 7, label}, e = c;
      c.label[i] = static_cast<char>(c.label[i] ^ 1);
      compare(c, e, "a byte of the label");
      c.label = label.substr(0, i);
      compare(c, e, "the size of the label");
    }
  std::vector<uint32_t> pins = {0, 1, 2, 9, 10, 99, 100, 999, 1000, 4999, 5000, 9998, 9999};
  for (uint32_t base : {10000u, 65530u, 70000u, 0x7fff0000u, 0xfffe0000u})
    for (uint32_t d = 0; d < 4; ++d)
      pins.push_back(base + d * 3337);
  std::map<Text, uint32_t> seen;
  if (vf::single())
    for (uint32_t pin : pins) {
      const Text d = derive({"password", "salt", pin, label});
      const auto it = seen.insert({d, pin}).first;
      VF_CHECK(it->second % 10000 == pin % 10000, "pins " << it->second << " and " << pin << " derive the same password");
      VF_CHECK(derive({"password", "salt", pin, label}) == d, "derived passwords are not deterministic");
    }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"ciphers", ciphers}, {"arguments", arguments}, {"compression", compression},
                              {"digests", digests}, {"passwords", passwords}});
}

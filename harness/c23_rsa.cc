// C23: RSA encryption, signatures and keys; reads of signed files fail at every point.
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <cerrno>
#include <fstream>
#include <memory>
#include <string>
#include <vector>

#include "boost/filesystem.hpp"

#include "maidsafe/common/rsa.h"
#include "maidsafe/common/utils.h"
#include "maidsafe/common/serialisation/serialisation.h"

#include "common/limit_new.h"
#include "common/vf.h"

namespace {
struct Faults {
  bool armed = false;
  ino_t file = 0;
  int at = -1, error = 0, calls = 0;
  size_t most = 0;  // bytes per call, if not 0
} g;
// bytes to read, or -1 with errno
ssize_t plan(int fd, size_t n) {
  struct stat st;
  if (!g.armed || fstat(fd, &st) != 0 || st.st_ino != g.file)
    return static_cast<ssize_t>(n);
  if (g.calls++ == g.at) {
    errno = g.error;
    return -1;
  }
  return static_cast<ssize_t>(g.most ? std::min(n, g.most) : n);
}
}  // unnamed namespace
extern "C" {
ssize_t vf_read(int fd, void* p, size_t n) __asm__("read");
ssize_t vf_read(int fd, void* p, size_t n) {
  const ssize_t m = plan(fd, n);
  return m < 0 ? -1 : syscall(SYS_read, fd, p, static_cast<size_t>(m));
}
ssize_t vf_read_chk(int fd, void* p, size_t n, size_t) __asm__("__read_chk");
ssize_t vf_read_chk(int fd, void* p, size_t n, size_t) { return vf_read(fd, p, n); }
}

namespace {
using namespace maidsafe;
namespace rsa = maidsafe::rsa;
typedef std::string Text;

const rsa::Keys& keys(int which) {
  static std::unique_ptr<rsa::Keys> k[2];
  if (!k[which]) {
    k[which].reset(new rsa::Keys(rsa::GenerateKeyPair()));
    vf::note();
  }
  return *k[which];
}
Text pattern(size_t n, unsigned kind) {
  Text s;
  uint32_t x = 7 + kind;
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525 + 1013904223;
    s += kind == 0 ? '\0' : kind == 1 ? static_cast<char>(i * 7 + 1) : static_cast<char>(x >> 24);
  }
  return s;
}
template <typename B>
Text text(const B& b) {
  return Text(b.string().begin(), b.string().end());
}
template <typename F>
std::error_code error_of(F f) {
  try {
    f();
    return std::error_code();
  } catch (const maidsafe_error& e) {
    return e.code();
  }
}
bool decrypts(const Text& cipher, const rsa::PrivateKey& k, Text* plain) {
  ++vf::transitions;
  vf::note();
  try {
    *plain = text(rsa::Decrypt(rsa::CipherText(cipher), k));
    return true;
  } catch (const std::exception&) {
    return false;
  }
}
bool checks(const Text& data, const Text& signature, const rsa::PublicKey& k) {
  ++vf::transitions;
  try {
    return rsa::CheckSignature(rsa::PlainText(data), rsa::Signature(signature), k);
  } catch (const maidsafe_error&) {
    return false;
  }
}

void encryption() {
  std::vector<size_t> sizes;
  for (size_t n = 1; n < (vf::thorough ? 700u : 300u); ++n)
    sizes.push_back(n);
  for (size_t n : {1023, 1024, 4096, 65536, 1 << 20})
    sizes.push_back(n);
  for (size_t n : sizes) {
    if (!vf::take())
      continue;
    vf::set_case_limit(120);
    const Text plain = pattern(n, n % 3);
    const Text cipher = text(rsa::Encrypt(rsa::PlainText(plain), keys(0).public_key));
    Text got;
    VF_CHECK(decrypts(cipher, keys(0).private_key, &got) && got == plain, "decrypting " << n << " bytes");
    VF_CHECK(!decrypts(cipher, keys(1).private_key, &got) || got != plain, "another key decrypts " << n << " bytes");
    VF_CHECK(n < 8 || cipher.find(plain) == Text::npos, "the plain text shows");
    const Text again = text(rsa::Encrypt(rsa::PlainText(plain), keys(0).public_key));
    VF_CHECK(again != cipher, "encrypting twice gives the same cipher text");
    VF_CHECK(decrypts(again, keys(0).private_key, &got) && got == plain, "decrypting " << n << " bytes again");
    vf::transitions += 2;
    vf::outcome(vf::hash_str(plain));
  }
  // changed, cut and exchanged
  for (size_t n : {1, 20}) {
    if (vf::take())
      VF_CHECK(true, "");
    const Text plain = pattern(n, 2);
    const Text cipher = text(rsa::Encrypt(rsa::PlainText(plain), keys(0).public_key));
    for (size_t i = 0; i < cipher.size(); ++i) {
      if (!vf::take())
        continue;
      vf::set_case_limit(120);
      for (unsigned x = 1; x < 256; x += vf::thorough ? 1 : i < 8 || i + 262 > cipher.size() - 4 && i % 32 == 0 ? 23 : 85) {
        Text c = cipher, got;
        c[i] = static_cast<char>(c[i] ^ x);
        VF_CHECK(!decrypts(c, keys(0).private_key, &got) || got != plain, "changing byte " << i << " of a cipher text by " << x
                                                                                      << " does not matter");
      }
      Text got;
      if (i)
        VF_CHECK(!decrypts(cipher.substr(0, i), keys(0).private_key, &got), "a cipher text cut to " << i << " bytes");
    }
  }
}

void signatures() {
  const auto& k = keys(0);
  for (size_t n = 1; n < 300; n += n < 20 ? 1 : 13) {
    if (!vf::take())
      continue;
    vf::set_case_limit(120);
    const Text data = pattern(n, n % 3);
    const Text s = text(rsa::Sign(rsa::PlainText(data), k.private_key));
    VF_CHECK(s.size() == 256 && checks(data, s, k.public_key), "the signature of " << n << " bytes");
    VF_CHECK(!checks(data, s, keys(1).public_key), "another key accepts the signature of " << n << " bytes");
    for (size_t i = 0; i < n; ++i)
      for (unsigned x = 1; x < 256; x += vf::thorough ? 1 : 67) {
        Text d = data;
        d[i] = static_cast<char>(d[i] ^ x);
        VF_CHECK(!checks(d, s, k.public_key), "changing byte " << i << " of " << n << " is not noticed");
      }
    VF_CHECK(!checks(data + 'x', s, k.public_key) && (n == 1 || !checks(data.substr(0, n - 1), s, k.public_key)), "another size");
    const Text other = text(rsa::Sign(rsa::PlainText(data), keys(1).private_key));
    VF_CHECK(!checks(data, other, k.public_key) && checks(data, other, keys(1).public_key), "signatures of another key");
    vf::transitions += 2;
    vf::outcome(vf::hash_str(data));
  }
  const Text data = "signed data", s = text(rsa::Sign(rsa::PlainText(data), k.private_key));
  for (size_t i = 0; i < s.size(); ++i) {
    if (!vf::take())
      continue;
    for (unsigned x = 1; x < 256; x += vf::thorough ? 1 : 5) {
      Text c = s;
      c[i] = static_cast<char>(c[i] ^ x);
      VF_CHECK(!checks(data, c, k.public_key), "changing byte " << i << " of a signature is not noticed");
    }
  }
  for (unsigned fill : {0u, 1u, 255u})
    if (vf::take())
      VF_CHECK(!checks(data, Text(256, static_cast<char>(fill)), k.public_key), "a signature of bytes " << fill);
}

std::error_code check_file(const boost::filesystem::path& p, const Text& s, const rsa::PublicKey& k, bool* good) {
  ++vf::transitions;
  *good = false;
  try {
    *good = rsa::CheckFileSignature(p, rsa::Signature(s), k);
    return std::error_code();
  } catch (const maidsafe_error& e) {
    return e.code();
  }
}
void write(const boost::filesystem::path& p, const Text& s) {
  std::ofstream f(p.string(), std::ios::binary | std::ios::trunc);
  f << s;
}
void files() {
  const auto& k = keys(0);
  const boost::filesystem::path p = boost::filesystem::path(vf::scratch) / "signed";
  const auto invalid_file = make_error_code(AsymmErrors::invalid_file);
  bool good;
  for (size_t n : {0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 70000}) {
    if (!vf::take())
      continue;
    vf::set_case_limit(240);
    const Text data = pattern(n, 2);
    write(p, data);
    const Text s = text(rsa::SignFile(p, k.private_key));
    VF_CHECK(s.size() == 256 && !check_file(p, s, k.public_key, &good) && good, "the signature of a file of " << n);
    VF_CHECK(n == 0 || checks(data, s, k.public_key), "the signature of a file is one of its contents");
    if (n) {
      const Text d = text(rsa::Sign(rsa::PlainText(data), k.private_key));
      VF_CHECK(!check_file(p, d, k.public_key, &good) && good, "the signature of the contents is one of the file");
    }
    check_file(p, s, keys(1).public_key, &good);
    VF_CHECK(!good, "another key accepts the signature of a file");
    for (size_t i = 0; i < 256; i += 5) {
      Text c = s;
      c[i] = static_cast<char>(c[i] ^ (1 + i % 255));
      check_file(p, c, k.public_key, &good);
      VF_CHECK(!good, "changing byte " << i << " of the signature of a file is not noticed");
    }
    for (size_t i = 0; i < n; i += n < 200 ? 1 : 331) {
      Text c = data;
      c[i] = static_cast<char>(c[i] ^ 16);
      write(p, c);
      check_file(p, s, k.public_key, &good);
      VF_CHECK(!good, "changing byte " << i << " of a file is not noticed");
    }
    write(p, data + 'x');
    check_file(p, s, k.public_key, &good);
    VF_CHECK(!good, "a longer file is not noticed");
    if (n) {
      write(p, data.substr(0, n - 1));
      check_file(p, s, k.public_key, &good);
      VF_CHECK(!good, "a shorter file is not noticed");
    }
    // every read fails, or is short
    write(p, data);
    struct stat st;
    stat(p.c_str(), &st);
    g = Faults();
    g.file = st.st_ino;
    g.armed = true;
    check_file(p, s, k.public_key, &good);
    const int calls = g.calls;
    VF_CHECK(calls > 0, "the file is not read");
    for (int at = 0; at < calls; ++at)
      for (int error : {EIO, EINTR, ENOMEM}) {
        g.at = at;
        g.error = error;
        g.calls = 0;
        std::error_code e = check_file(p, s, k.public_key, &good);
        VF_CHECK(good ? error == EINTR : !!e || error == EINTR, "read " << at << " fails with " << error << ": the file counts as "
                                                                    << (good ? "signed" : "changed"));
        g.calls = 0;
        Text made;
        e = error_of([&] { made = text(rsa::SignFile(p, k.private_key)); });
        g.armed = false;
        VF_CHECK(e || (error == EINTR && check_file(p, made, k.public_key, &good) == std::error_code() && good),
                 "read " << at << " of " << n << " bytes fails with " << error << ", but there is a signature");
        g.armed = true;
        ++vf::transitions;
      }
    g.at = -1;
    for (size_t most : {1, 7, 4096})
      if (n <= 5000 || most > 1000) {
        g.most = most;
        check_file(p, s, k.public_key, &good);
        VF_CHECK(good, "the file is read in pieces of " << most);
        VF_CHECK(checks(n ? data : "x", text(rsa::SignFile(p, k.private_key)), k.public_key) == (n > 0), "signing in pieces");
      }
    g = Faults();
    boost::filesystem::remove(p);
    VF_CHECK(error_of([&] { rsa::SignFile(p, k.private_key); }) == invalid_file, "signing a missing file");
    VF_CHECK(check_file(p, s, k.public_key, &good) == invalid_file, "checking a missing file");
    vf::outcome(n);
  }
}

void encodings() {
  const auto& a = keys(0);
  const auto& b = keys(1);
  const Text priv = text(rsa::EncodeKey(a.private_key)), pub = text(rsa::EncodeKey(a.public_key));
  const Text data = "data", s = text(rsa::Sign(rsa::PlainText(data), a.private_key));
  if (vf::single()) {
    const rsa::PrivateKey p = rsa::DecodeKey(rsa::EncodedPrivateKey(priv));
    const rsa::PublicKey q = rsa::DecodeKey(rsa::EncodedPublicKey(pub));
    VF_CHECK(rsa::MatchingKeys(p, a.private_key) && rsa::MatchingKeys(q, a.public_key), "keys do not survive encoding");
    VF_CHECK(!rsa::MatchingKeys(p, b.private_key) && !rsa::MatchingKeys(q, b.public_key), "different keys match");
    VF_CHECK(rsa::ValidateKey(q) && rsa::ValidateKey(b.public_key) && !rsa::ValidateKey(rsa::PublicKey()), "validation");
    VF_CHECK(checks(data, text(rsa::Sign(rsa::PlainText(data), p)), q), "decoded keys sign");
    Text got;
    VF_CHECK(decrypts(text(rsa::Encrypt(rsa::PlainText(data), q)), p, &got) && got == data, "decoded keys encrypt");
    rsa::Keys copy(a), moved(std::move(copy)), assigned;
    assigned = moved;
    VF_CHECK(rsa::MatchingKeys(assigned.private_key, a.private_key) && rsa::MatchingKeys(moved.public_key, a.public_key), "copies");
    assigned = std::move(moved);
    VF_CHECK(rsa::MatchingKeys(assigned.public_key, a.public_key), "moved keys");
    rsa::Keys parsed = Parse<rsa::Keys>(Serialise(a));
    VF_CHECK(rsa::MatchingKeys(parsed.private_key, a.private_key) && rsa::MatchingKeys(parsed.public_key, a.public_key),
             "serialised keys");
    vf::transitions += 20;
  }
  // damaged
  for (size_t i = 0; i < pub.size(); ++i) {
    if (!vf::take())
      continue;
    for (unsigned x = 1; x < 256; ++x) {
      Text c = pub;
      c[i] = static_cast<char>(c[i] ^ x);
      try {
        const rsa::PublicKey k = rsa::DecodeKey(rsa::EncodedPublicKey(c));
        VF_CHECK(!rsa::MatchingKeys(k, a.public_key) || text(rsa::EncodeKey(k)) == pub, "a damaged public key matches");
        if (!rsa::MatchingKeys(k, a.public_key) && x % 16 == 1)
          VF_CHECK(!checks(data, s, k), "a public key damaged at " << i << " accepts a signature");
      } catch (const maidsafe_error&) {
      }
      ++vf::transitions;
    }
    vf::note();
    if (i > 1)
      VF_CHECK(error_of([&] { rsa::DecodeKey(rsa::EncodedPublicKey(pub.substr(0, i))); }) ==
                   make_error_code(AsymmErrors::invalid_public_key),
               "a public key cut to " << i << " bytes");
  }
  for (size_t i = 0; i < priv.size(); ++i) {
    if (!vf::take())
      continue;
    for (unsigned x = 1; x < 256; x += vf::thorough ? 1 : 7) {
      Text c = priv;
      c[i] = static_cast<char>(c[i] ^ x);
      try {
        const rsa::PrivateKey k = rsa::DecodeKey(rsa::EncodedPrivateKey(c));
        VF_CHECK(!rsa::MatchingKeys(k, a.private_key) || text(rsa::EncodeKey(k)) == priv, "a damaged private key matches");
      } catch (const maidsafe_error&) {
      }
      ++vf::transitions;
    }
    vf::note();
    if (i > 2)
      VF_CHECK(error_of([&] { rsa::DecodeKey(rsa::EncodedPrivateKey(priv.substr(0, i))); }) ==
                   make_error_code(AsymmErrors::invalid_private_key),
               "a private key cut to " << i << " bytes");
  }
}

void arguments() {
  if (!vf::single())
    return;
  const rsa::PrivateKey no_private;
  const rsa::PublicKey no_public;
  const rsa::PlainText data("data"), no_data;
  const rsa::Signature s = rsa::Sign(data, keys(0).private_key), no_signature;
  const boost::filesystem::path p = boost::filesystem::path(vf::scratch) / "file";
  write(p, "data");
  const auto uninitialised = make_error_code(CommonErrors::uninitialised);
  const auto bad_public = make_error_code(AsymmErrors::invalid_public_key);
  const auto bad_private = make_error_code(AsymmErrors::invalid_private_key);
  VF_CHECK(error_of([&] { rsa::Encrypt(data, no_public); }) == bad_public, "encrypting without key");
  VF_CHECK(error_of([&] { rsa::Encrypt(no_data, keys(0).public_key); }) == uninitialised, "encrypting nothing");
  VF_CHECK(error_of([&] { rsa::Decrypt(rsa::Encrypt(data, keys(0).public_key), no_private); }) == bad_private, "decrypting without key");
  VF_CHECK(!!error_of([&] { rsa::Decrypt(no_data, keys(0).private_key); }), "decrypting nothing");
  VF_CHECK(error_of([&] { rsa::Sign(data, no_private); }) == bad_private, "signing without key");
  VF_CHECK(error_of([&] { rsa::Sign(no_data, keys(0).private_key); }) == uninitialised, "signing nothing");
  VF_CHECK(!!error_of([&] { rsa::SignFile(p, no_private); }), "signing a file without key");
  VF_CHECK(error_of([&] { rsa::CheckSignature(data, s, no_public); }) == bad_public, "checking without key");
  VF_CHECK(error_of([&] { rsa::CheckSignature(no_data, s, keys(0).public_key); }) == uninitialised, "checking nothing");
  VF_CHECK(error_of([&] { rsa::CheckSignature(data, no_signature, keys(0).public_key); }) == uninitialised, "no signature");
  VF_CHECK(error_of([&] { rsa::CheckFileSignature(p, s, no_public); }) == bad_public, "checking a file without key");
  VF_CHECK(error_of([&] { rsa::CheckFileSignature(p, no_signature, keys(0).public_key); }) == uninitialised, "no signature");
  VF_CHECK(!!error_of([&] { rsa::EncodeKey(no_public); }) && !!error_of([&] { rsa::EncodeKey(no_private); }), "encoding no key");
  VF_CHECK(error_of([&] { rsa::DecodeKey(rsa::EncodedPublicKey()); }) == uninitialised, "decoding nothing");
  VF_CHECK(error_of([&] { rsa::DecodeKey(rsa::EncodedPrivateKey()); }) == uninitialised, "decoding nothing");
  vf::transitions += 16;
  // keys of other sizes never make a check misbehave
  for (unsigned bits : {512u, 1024u, 3072u, 4096u}) {
    CryptoPP::InvertibleRSAFunction f;
    f.GenerateRandomWithKeySize(crypto::random_number_generator(), bits);
    vf::note();
    const rsa::PublicKey q(f);
    bool good = false;
    VF_CHECK(!checks("data", text(s), q), "a key of " << bits << " bits accepts a signature");
    check_file(p, text(s), q, &good);
    VF_CHECK(!good, "a key of " << bits << " bits accepts the signature of a file");
    vf::note();
  }
  vf::sample("the signature of a file, checked with a key of 4096 bits: refused");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"arguments", arguments}, {"encryption", encryption}, {"signatures", signatures}, {"files", files},
                              {"encodings", encodings}});
}

// C22: secret sharing and information dispersal: all thresholds, all subsets of the parts.
#include <algorithm>
#include <numeric>
#include <string>
#include <vector>

#include "maidsafe/common/crypto.h"

#include "common/limit_new.h"
#include "common/vf.h"

namespace {
using namespace maidsafe;
namespace crypto = maidsafe::crypto;
using crypto::DataParts;
typedef std::string Text;

struct Method {
  const char* name;
  bool secret;
  DataParts split(int k, int n, const Text& data) const {
    return secret ? crypto::SecretShareData(k, n, crypto::PlainText(data)) : crypto::InfoDisperse(k, n, crypto::PlainText(data));
  }
  // false: an error
  bool join(const DataParts& parts, Text* data) const {
    ++vf::transitions;
    try {
      const crypto::PlainText p = secret ? crypto::SecretRecoverData(parts) : crypto::InfoRetrieve(parts);
      data->assign(p.string().begin(), p.string().end());
      return true;
    } catch (const std::exception&) {
      return false;
    }
  }
};
const Method kMethods[] = {{"secret sharing", true}, {"information dispersal", false}};

Text pattern(size_t n, unsigned kind) {
  Text s;
  uint32_t x = 99 + kind;
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525 + 1013904223;
    s += kind == 0 ? '\0' : kind == 1 ? static_cast<char>(i * 7 + 1) : kind == 2 ? '\x01' : static_cast<char>(x >> 24);
  }
  return s;
}
Text show(const std::vector<int>& which) {
  Text s = "{";
  for (int w : which)
    s += std::to_string(w) + " ";
  return s + "}";
}

void subsets(const Method& m, int k, int n, const Text& data, bool orders) {
  const DataParts parts = m.split(k, n, data);
  VF_CHECK(parts.size() == static_cast<size_t>(n), m.name << " " << k << " of " << n << " gives " << parts.size() << " parts");
  for (unsigned set = 1; set < (1u << n); ++set) {
    std::vector<int> which;
    for (int i = 0; i < n; ++i)
      if (set >> i & 1)
        which.push_back(i);
    if (!m.secret && static_cast<int>(which.size()) > k)
      continue;  // information dispersal needs exactly k parts
    const bool enough = static_cast<int>(which.size()) >= k;
    std::vector<std::vector<int>> sequences{which};
    if (orders && which.size() <= 4) {
      while (std::next_permutation(which.begin(), which.end()))
        sequences.push_back(which);
    } else {
      for (size_t r = 1; r < which.size(); ++r) {
        std::rotate(which.begin(), which.begin() + 1, which.end());
        sequences.push_back(which);
      }
      std::reverse(which.begin(), which.end());
      sequences.push_back(which);
    }
    for (const auto& w : sequences) {
      DataParts some;
      for (int i : w)
        some.push_back(parts[static_cast<size_t>(i)]);
      Text got;
      const bool done = m.join(some, &got);
      if (enough) {
        VF_CHECK(done, m.name << " " << k << " of " << n << ", " << data.size() << " bytes: recovery from " << show(w) << " fails");
        VF_CHECK(got == data, m.name << " " << k << " of " << n << ", " << data.size() << " bytes: recovery from " << show(w)
                                     << " gives " << got.size() << " bytes " << vf::show(got.substr(0, 20)));
      } else if (data.size() >= 8 && m.secret) {  // shorter secrets may be hit by chance
        VF_CHECK(!done || got != data, m.name << " " << k << " of " << n << ", " << data.size() << " bytes: too few parts "
                                              << show(w) << " give the data");
      }
    }
  }
  ++vf::histories;
  vf::outcome(vf::hash_str(data + std::to_string(k) + "/" + std::to_string(n) + m.name));
}
void thresholds() {
  const int most = vf::thorough ? 8 : 6;
  for (const auto& m : kMethods)
    for (int n = 3; n <= most; ++n)
      for (int k = 2; k <= n; ++k)
        for (size_t size : {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000})
          if (vf::take())
            subsets(m, k, n, pattern(size, n == 4 ? 0 : n == 5 ? 3 : 1), n <= 5);
}
void sizes() {
  for (const auto& m : kMethods)
    for (size_t size = 1; size <= 200; ++size)
      for (unsigned kind = 0; kind < 4; ++kind)
        for (auto kn : {std::make_pair(2, 3), std::make_pair(3, 3), std::make_pair(3, 4)})
          if (vf::take())
            subsets(m, kn.first, kn.second, pattern(size, kind), false);
  for (const auto& m : kMethods)
    for (size_t size : {4095, 4096, 4097, 65536, 1 << 20})
      if (vf::take()) {
        vf::set_case_limit(120);
        const auto data = pattern(size, 3);
        auto parts = m.split(3, 5, data);
        Text got;
        VF_CHECK(m.join(DataParts(parts.begin() + 1, parts.begin() + 4), &got) && got == data, m.name << " of " << size << " bytes");
        if (m.secret)
          VF_CHECK(m.join(parts, &got) && got == data, m.name << " of " << size << " bytes, all parts");
      }
  // many parts
  for (const auto& m : kMethods)
    for (auto kn : {std::make_pair(2, 20), std::make_pair(10, 20), std::make_pair(20, 20), std::make_pair(16, 100), std::make_pair(255, 256),
                    std::make_pair(3, 300)})
      if (vf::take()) {
        vf::set_case_limit(120);
        const auto data = pattern(101, 3);
        const auto parts = m.split(kn.first, kn.second, data);
        VF_CHECK(parts.size() == static_cast<size_t>(kn.second), "number of parts");
        for (int first : {0, (kn.second - kn.first) / 2, kn.second - kn.first}) {
          Text got;
          const DataParts some(parts.begin() + first, parts.begin() + first + kn.first);
          VF_CHECK(m.join(some, &got) && got == data, m.name << " " << kn.first << " of " << kn.second << " from " << first);
          VF_CHECK(!m.secret || !m.join(DataParts(some.begin(), some.end() - 1), &got) || got != data, m.name << " " << kn.first << " of "
                                                                                                << kn.second << ", one too few");
        }
      }
  if (vf::single())
    vf::sample("information dispersal 4 of 6 of 33 bytes, parts {5 0 3 2}");
}
void arguments() {
  if (!vf::single())
    return;
  for (const auto& m : kMethods) {
    for (int k = -3; k < 8; ++k)
      for (int n = -3; n < 8; ++n) {
        bool threw = false;
        try {
          m.split(k, n, "some data");
        } catch (const maidsafe_error& e) {
          threw = true;
          VF_CHECK(e.code() == make_error_code(CommonErrors::invalid_argument), m.name << " " << k << " of " << n << ": " << e.what());
        }
        VF_CHECK(threw == (k < 2 || n < 3 || k > n), m.name << " " << k << " of " << n << (threw ? " is rejected" : " is accepted"));
        ++vf::transitions;
      }
    bool threw = false;
    try {
      m.secret ? crypto::SecretShareData(2, 3, crypto::PlainText()) : crypto::InfoDisperse(2, 3, crypto::PlainText());
    } catch (const maidsafe_error&) {
      threw = true;
    }
    VF_CHECK(threw, m.name << " of uninitialised data");
    vf::note();
  }
}
// parts which are missing, too short, damaged, repeated or foreign
void damaged() {
  for (const auto& m : kMethods) {
    if (vf::take()) {
      Text got;
      VF_CHECK(!m.join({}, &got), m.name << ": recovery from no parts");
      VF_CHECK(!m.join({NonEmptyString()}, &got), m.name << ": recovery from an uninitialised part");
    }
    for (size_t size : {1, 8, 33})
      for (int k : {2, 3}) {
        const Text data = pattern(size, 3);
        DataParts parts = m.split(k, 4, data);
        parts.resize(static_cast<size_t>(k));
        const size_t length = parts[0].string().size();
        for (size_t p = 0; p < parts.size(); ++p)
          for (size_t cut = 1; cut < length + 3; ++cut) {  // a part of every size
            if (!vf::take())
              continue;
            Text bytes(parts[p].string().begin(), parts[p].string().end()), got;
            bytes.resize(cut, 'x');
            DataParts some = parts;
            some[p] = NonEmptyString(bytes);
            const bool done = m.join(some, &got);
            if (cut < length && cut > 4 && size >= 8 && m.secret)
              VF_CHECK(!done || got != data, m.name << ": a part cut to " << cut << " of " << length << " bytes gives the data");
          }
        for (size_t p = 0; p < parts.size(); ++p)
          for (size_t i = 0; i < length; ++i)
            for (unsigned x : {1u, 0x80u, 0xffu}) {
              if (!vf::take())
                continue;
              Text bytes(parts[p].string().begin(), parts[p].string().end()), got;
              bytes[i] = static_cast<char>(bytes[i] ^ x);
              DataParts some = parts;
              some[p] = NonEmptyString(bytes);
              m.join(some, &got);
            }
        if (vf::take()) {  // the same part again
          Text got;
          DataParts some = parts;
          some.push_back(parts[0]);
          m.join(some, &got);
          some[1] = parts[0];
          m.join(some, &got);
        }
      }
  }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"thresholds", thresholds}, {"sizes", sizes}, {"arguments", arguments}, {"damaged", damaged}});
}

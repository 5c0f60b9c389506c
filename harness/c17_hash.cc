// C17: what the structural hashing feeds to the algorithm, for every pair of values of small types.
#include <array>
#include <cstring>
#include <forward_list>
#include <initializer_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "boost/range/iterator_range.hpp"
#include "boost/utility/string_ref.hpp"

#include "maidsafe/common/types.h"
#include "maidsafe/common/hash/hash_algorithms.h"
#include "maidsafe/common/hash/hash_array.h"
#include "maidsafe/common/hash/hash_contiguous.h"
#include "maidsafe/common/hash/hash_forward_list.h"
#include "maidsafe/common/hash/hash_initializer_list.h"
#include "maidsafe/common/hash/hash_iterator_range.h"
#include "maidsafe/common/hash/hash_list.h"
#include "maidsafe/common/hash/hash_map.h"
#include "maidsafe/common/hash/hash_numeric.h"
#include "maidsafe/common/hash/hash_pair.h"
#include "maidsafe/common/hash/hash_set.h"
#include "maidsafe/common/hash/hash_string.h"
#include "maidsafe/common/hash/hash_string_ref.h"
#include "maidsafe/common/hash/hash_tuple.h"
#include "maidsafe/common/hash/hash_use_serialize.h"
#include "maidsafe/common/hash/hash_vector.h"
#include "maidsafe/common/hash/hash_wrappers.h"

#include "common/vf.h"

namespace maidsafe {
// An algorithm that keeps what it is given.
class Recorder : public maidsafe::detail::HashAlgorithmBase<Recorder> {
 public:
  Recorder() {}
  explicit Recorder(const std::array<byte, 16>&) {}
  void Update(const byte* in, std::uint64_t n) {
    data_.append(reinterpret_cast<const char*>(in), static_cast<size_t>(n));
  }
  std::string Finalize() const { return data_; }

 private:
  std::string data_;
};
}  // namespace maidsafe

namespace {
using maidsafe::byte;
using maidsafe::Recorder;

__attribute__((noinline)) void dirty(int c) {
  volatile char garbage[512];
  for (size_t i = 0; i < sizeof garbage; ++i)
    garbage[i] = static_cast<char>(c);
}
template <typename... T>
__attribute__((noinline)) std::string fed(int c, const T&... v) {
  dirty(c);
  Recorder r;
  r(v...);
  return r.Finalize();
}
template <typename... T>
__attribute__((noinline)) uint64_t sip(int c, byte key, const T&... v) {
  std::array<byte, 16> seed;
  seed.fill(key);
  dirty(c);
  maidsafe::SipHash h(seed);
  h(v...);
  return h.Finalize();
}

// All pairs of the values: the same is fed exactly for equal ones.
template <typename T, typename Equal>
void pairs(const std::string& type, const std::vector<T>& values, Equal equal) {
  maidsafe::SeededHash<maidsafe::SipHash> seeded, other;
  size_t differing = 0;
  for (size_t i = 0; i < values.size(); ++i) {
    if (!vf::take())
      continue;
    std::string a = fed(0, values[i]);
    uint64_t s = sip(0, 1, values[i]), t = sip(0xa5, 2, values[i]), z = seeded(values[i]);
    VF_CHECK(s != t, type << " value " << i << ": the same hash with different seeds");
    VF_CHECK(z == maidsafe::SeededHash<maidsafe::SipHash>(seeded)(values[i]) && z == seeded(values[i]), type << ": a copy of a seeded hash differs");
    differing += z != other(values[i]);
    std::unique_ptr<T> copy(new T(values[i]));
    for (int c : {0, 0xff, 0x5a}) {
      VF_CHECK(fed(c, *copy) == a && sip(c, 1, *copy) == s, type << " value " << i << ": a copy of it is hashed differently");
      VF_CHECK(fed(c, values[i]) == a, type << " value " << i << ": hashed differently another time");
    }
    vf::outcome(vf::hash_str(a));
    for (size_t j = 0; j < values.size(); ++j) {
      bool eq = equal(values[i], values[j]);
      std::string b = fed(0xff, values[j]);
      VF_CHECK((a == b) == eq, type << " values " << i << " and " << j << " are " << (eq ? "equal" : "different") << " but feed " << vf::show(a) << " and " << vf::show(b));
      VF_CHECK((sip(0x33, 1, values[j]) == s) == eq, type << " values " << i << " and " << j << ": SipHash");
      // followed by something, and in a sequence
      VF_CHECK((fed(1, values[i], values[j]) == fed(2, values[j], values[i])) == eq, type << " values " << i << " and " << j << " in a sequence");
      VF_CHECK(fed(1, values[i], values[j]) == a + b, type << " values " << i << ", " << j << ": a sequence does not feed each of its elements");
      vf::transitions += 6;
    }
    VF_CHECK(differing, type << ": two hash functions with random seeds agree");
  }
  vf::sample(type + ": all pairs of " + std::to_string(values.size()) + " values");
}
template <typename T>
void pairs(const std::string& type, const std::vector<T>& values) {
  pairs(type, values, [](const T& a, const T& b) { return a == b; });
}

template <typename C>
std::vector<C> sequences(const std::vector<typename C::value_type>& alphabet, size_t max) {
  std::vector<std::vector<typename C::value_type>> all{{}}, last{{}};
  for (size_t n = 1; n <= max; ++n) {
    std::vector<std::vector<typename C::value_type>> next;
    for (auto& p : last)
      for (auto& x : alphabet) {
        next.push_back(p);
        next.back().push_back(x);
      }
    all.insert(all.end(), next.begin(), next.end());
    last = next;
  }
  std::vector<C> out;
  for (auto& v : all)
    out.push_back(C(v.begin(), v.end()));
  return out;
}

void numbers() {
  pairs<bool>("bool", {false, true});
  pairs<char>("char", {0, 1, 'a', -1});
  pairs<int>("int", {0, 1, -1, 256, 65536, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
  pairs<uint64_t>("uint64", {0, 1, 1ull << 32, ~0ull});
  pairs<float>("float", {0.f, -0.f, 1.f, -1.f, 1.5f, std::numeric_limits<float>::min(), std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::denorm_min(), std::numeric_limits<float>::infinity()});
  pairs<double>("double", {0., -0., 1., -1., 1.5, std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::infinity(), 1e-300});
  pairs<wchar_t>("wchar_t", {0, 1, 0x100, 0x10000});
}
void long_doubles() {
  pairs<long double>("long double", {0.L, -0.L, 1.L, -1.L, 1.5L, 1e-300L, 3.L / 7, std::numeric_limits<long double>::denorm_min()});
  pairs<std::vector<long double>>("vector<long double>", {{}, {0.L}, {-0.L}, {1.L, 2.L}, {2.L, 1.L}});
}
void strings() {
  pairs("string", sequences<std::string>({'a', 'b', 0}, 5));
  pairs("vector<byte>", sequences<std::vector<byte>>({0, 1, 2}, 4));
  pairs("vector<int>", sequences<std::vector<int>>({0, 1, 256}, 4));
  pairs("wstring", sequences<std::wstring>({L'a', L'b', 0}, 3));
  pairs("list<int>", sequences<std::list<int>>({0, 1, 2}, 4));
  pairs("forward_list<char>", sequences<std::forward_list<char>>({0, 1, 2}, 4));
  pairs("set<int>", sequences<std::set<int>>({0, 1, 2, 3}, 3));
  pairs("vector<double>", sequences<std::vector<double>>({0., -0., 1.}, 3));
  pairs("vector<long>", sequences<std::vector<long>>({0, 1, 2, 3}, 3));
}
void nested() {
  auto s = sequences<std::string>({'a', 0}, 2);
  pairs("vector<string>", sequences<std::vector<std::string>>(s, 2));
  pairs("list<string>", sequences<std::list<std::string>>({"", "a", std::string(8, 0), std::string("\1\0\0\0\0\0\0\0", 8)}, 3));
  pairs("vector<vector<int>>", sequences<std::vector<std::vector<int>>>({{}, {0}, {1}, {0, 0}, {1, 0}}, 3));
  pairs("vector<list<char>>", sequences<std::vector<std::list<char>>>({{}, {0}, {1}, {0, 0}}, 3));
  std::vector<std::pair<std::string, std::string>> ps;
  std::vector<std::tuple<std::string, int, std::vector<char>>> ts;
  for (auto& a : s)
    for (auto& b : s) {
      ps.push_back({a, b});
      for (int i : {0, 1})
        ts.push_back(std::make_tuple(a, i, std::vector<char>(b.begin(), b.end())));
    }
  pairs("pair<string,string>", ps);
  pairs("tuple<string,int,vector<char>>", ts);
  pairs("vector<pair<string,string>>", sequences<std::vector<std::pair<std::string, std::string>>>({{"", ""}, {"a", ""}, {"", "a"}, {"aa", "a"}}, 2));
  pairs("pair<char,int>", std::vector<std::pair<char, int>>{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {'a', 256}});
  pairs("pair<int,int>", std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {1, 0}, {1, 1}});
  pairs("vector<pair<int,int>>", sequences<std::vector<std::pair<int, int>>>({{0, 0}, {0, 1}, {1, 0}}, 2));
  pairs("vector<pair<char,int>>", sequences<std::vector<std::pair<char, int>>>({{0, 0}, {0, 1}, {1, 0}}, 2));
  pairs("pair<double,int>", std::vector<std::pair<double, int>>{{0., 0}, {-0., 0}, {1, 0}, {1, 1}});
  pairs("array<char,3>", std::vector<std::array<char, 3>>{{{0, 0, 0}}, {{0, 0, 1}}, {{1, 0, 0}}, {{0, 1, 0}}});
  pairs("array<string,2>", std::vector<std::array<std::string, 2>>{{{"", ""}}, {{"a", ""}}, {{"", "a"}}, {{"a", "a"}}});
  std::vector<std::map<std::string, std::string>> ms;
  for (auto& a : {std::string(), std::string("a"), std::string("aa")})
    for (auto& b : {std::string(), std::string("a"), std::string("b")}) {
      ms.push_back({{a, b}});
      for (auto& c : {std::string("b"), std::string("c")})
        ms.push_back({{a, b}, {c, a}});
    }
  ms.push_back({});
  pairs("map<string,string>", ms);
  pairs("vector<map<int,int>>", std::vector<std::vector<std::map<int, int>>>{{}, {{}}, {{}, {}}, {{{1, 2}}}, {{{1, 2}}, {}}, {{}, {{1, 2}}}, {{{1, 2}, {2, 1}}}, {{{2, 1}}}});
}

// Equal sequences, wherever they are stored
void representations() {
  auto all = sequences<std::vector<char>>({0, 1, 'a'}, 5);
  for (auto& v : all) {
    if (!vf::take())
      continue;
    std::string want(v.begin(), v.end());
    size_t n = v.size();
    std::string len(reinterpret_cast<const char*>(&n), sizeof n);
    want += len;
    auto same = [&](const std::string& got, const char* what) {
      VF_CHECK(got == want, what << " of " << n << " characters feeds " << vf::show(got) << ", expected the elements and their number " << vf::show(want));
      ++vf::transitions;
    };
    std::vector<char> big(v);
    big.reserve(1000);
    same(fed(0, v), "vector");
    same(fed(0, big), "vector with capacity");
    same(fed(0, std::string(v.begin(), v.end())), "string");
    same(fed(0, std::list<char>(v.begin(), v.end())), "list");
    same(fed(0, std::forward_list<char>(v.begin(), v.end())), "forward_list");
    std::list<char> l(v.begin(), v.end());
    same(fed(0, boost::make_iterator_range(l.begin(), l.end())), "iterator_range over a list");
    same(fed(0, boost::make_iterator_range(v.begin(), v.end())), "iterator_range over a vector");
    same(fed(0, boost::make_iterator_range(v.data(), v.data() + n)), "iterator_range of pointers");
    for (size_t offset = 0; offset < 9; ++offset) {  // unaligned
      std::string s(offset, 'x');
      s.append(v.begin(), v.end());
      s += "yy";
      same(fed(0, boost::string_ref(s.data() + offset, n)), "string_ref");
      const char* p = s.data() + offset;
      same(fed(0, boost::make_iterator_range(p, p + n)), "iterator_range at an offset");
      VF_CHECK(sip(0, 1, boost::string_ref(s.data() + offset, n)) == sip(0, 1, v), "SipHash of a string_ref at offset " << offset);
    }
    if (n == 3) {
      std::array<char, 3> a{{v[0], v[1], v[2]}};
      char c[3] = {v[0], v[1], v[2]};
      same(fed(0, a), "array");
      same(fed(0, c), "char[3]");
      std::initializer_list<char> il = {v[0], v[1], v[2]};
      same(fed(0, il), "initializer_list");
    }
  }
  vf::sample("364 character sequences in 10 kinds of container and at 9 offsets");
}

// types that are hashed by their serialize, save and HashAppend functions
struct Serialized {
  static const bool use_serialize_for_hashing = true;
  std::string a;
  int b;
  std::vector<char> c;
  template <typename Archive>
  void serialize(Archive& archive) {
    archive(a, b, c);
  }
};
struct Saved {
  static const bool use_serialize_for_hashing = true;
  std::string a;
  int b;
  std::vector<char> c;
  template <typename Archive>
  void save(Archive& archive) const {
    archive(a, b, c);
  }
  template <typename Archive>
  void load(Archive& archive) {
    archive(a, b, c);
  }
};
struct Appended {
  std::string a;
  int b;
  std::vector<char> c;
  template <typename HashAlgorithm>
  void HashAppend(HashAlgorithm& hash) const {
    hash(a, b, c);
  }
};
void user_types() {
  for (auto& a : sequences<std::string>({'a', 0}, 3))
    for (int b : {0, 1, -1})
      for (auto& c : sequences<std::vector<char>>({'a', 0}, 2)) {
        if (!vf::take())
          continue;
        std::string want = fed(0, a, b, c);
        Serialized s{a, b, c};
        Saved v{a, b, c};
        Appended p{a, b, c};
        Recorder r1, r2, r3;
        r1(s);
        r2(v);
        r3(p);
        VF_CHECK(r1.Finalize() == want, "a type with serialize()");
        VF_CHECK(r2.Finalize() == want, "a type with save()");
        VF_CHECK(r3.Finalize() == want, "a type with HashAppend()");
        VF_CHECK(fed(0, std::vector<Appended>{p, p}).size() == 2 * want.size() + 8, "a vector of user types");
        vf::transitions += 4;
      }
}

// Elements of several bytes
template <typename T>
void wide(const std::string& type, const std::vector<T>& alphabet) {
  for (auto& v : sequences<std::vector<T>>(alphabet, 3)) {
    if (!vf::take())
      continue;
    std::string want;
    for (const T& x : v)
      want += fed(0, x);
    const size_t n = v.size();
    want.append(reinterpret_cast<const char*>(&n), sizeof n);
    const auto same = [&](const std::string& got, const char* what) {
      VF_CHECK(got == want, what << " of " << n << " " << type << " feeds " << vf::show(got) << ", expected the elements and their number " << vf::show(want));
      ++vf::transitions;
    };
    vf::outcome(vf::hash_str(want));
    same(fed(0, v), "vector");
    std::list<T> l(v.begin(), v.end());
    same(fed(0, l), "list");
    same(fed(0, std::forward_list<T>(v.begin(), v.end())), "forward_list");
    same(fed(0, boost::make_iterator_range(l.begin(), l.end())), "iterator_range over a list");
    same(fed(0, boost::make_iterator_range(v.begin(), v.end())), "iterator_range over a vector");
    same(fed(0, boost::make_iterator_range(v.data(), v.data() + n)), "iterator_range of pointers");
    if (n == 3) {
      std::array<T, 3> a{{v[0], v[1], v[2]}};
      T c[3] = {v[0], v[1], v[2]};
      same(fed(0, a), "array");
      same(fed(0, c), "C array");
      std::initializer_list<T> il = {v[0], v[1], v[2]};
      same(fed(0, il), "initializer_list");
    }
    if (n == 2) {
      T c[2] = {v[0], v[1]};
      same(fed(0, c), "C array");
      VF_CHECK(fed(0, std::make_pair(v[0], v[1])) == fed(0, v[0]) + fed(0, v[1]), "a pair of " << type << " feeds something else than its elements");
      VF_CHECK(fed(0, std::make_tuple(v[0], v[1])) == fed(0, v[0]) + fed(0, v[1]), "a tuple of " << type << " feeds something else than its elements");
    }
  }
}
void wide_elements() {
  wide<short>("short", {0, 1, 256, -1});
  wide<int>("int", {0, 1, 256, 0x1000000, -1});
  wide<uint64_t>("uint64_t", {0, 1, uint64_t(1) << 32, uint64_t(1) << 63});
  wide<char16_t>("char16_t", {0, 'a', 0x100});
  wide<double>("double", {0., 1., -1.5});
  wide<std::string>("string", {"", "a", "b"});
  wide<std::pair<int, int>>("pair<int,int>", {{0, 0}, {0, 1}, {1, 0}});
  wide<std::pair<char, int>>("pair<char,int>", {{0, 0}, {0, 1}, {1, 0}});
}

// What lies between the members does not count
template <typename T>
__attribute__((noinline)) T* placed(void* memory, int fill, size_t n, const T* from) {
  volatile unsigned char* p = static_cast<volatile unsigned char*>(memory);
  for (size_t i = 0; i < n * sizeof(T); ++i)
    p[i] = static_cast<unsigned char>(fill);
  asm volatile("" ::: "memory");
  T* t = static_cast<T*>(memory);
  for (size_t i = 0; i < n; ++i)
    new (t + i) T(from[i].first, from[i].second);  // member by member
  return t;
}
template <typename A, typename B>
void padding(const std::string& type, const std::vector<A>& as, const std::vector<B>& bs) {
  typedef std::pair<A, B> T;
  alignas(16) static unsigned char memory[3][4 * sizeof(T)];
  for (const A& a : as) {
    for (const B& b : bs) {
      if (!vf::take())
        continue;
      const T three[3] = {T(a, b), T(as[0], b), T(a, bs[0])};
      std::string first, first_range;
      uint64_t hash = 0;
      for (int fill : {0, 0xff, 0x5a, 1}) {
        T* t = placed(memory[fill & 1], fill, 3, three);
        const std::string got = fed(fill, t[0]), range = fed(fill, boost::make_iterator_range(t, t + 3)) + fed(fill, reinterpret_cast<T(&)[3]>(*t));
        const uint64_t h = sip(fill, 7, t[0]);
        if (fill == 0) {
          first = got;
          first_range = range;
          hash = h;
        }
        VF_CHECK(got == first && h == hash, type << ": bytes between the members are hashed");
        VF_CHECK(range == first_range, "a range of " << type << ": bytes between the members are hashed");
        ++vf::transitions;
      }
      vf::outcome(vf::hash_str(first));
    }
  }
}
void paddings() {
  padding<char, int>("pair<char,int>", {0, 1, 'a'}, {0, 1, -1});
  padding<int, char>("pair<int,char>", {0, 1, -1}, {0, 1, 'a'});
  padding<short, uint64_t>("pair<short,uint64_t>", {0, 1}, {0, 1});
  padding<bool, short>("pair<bool,short>", {false, true}, {0, 1, -1});
  padding<uint64_t, bool>("pair<uint64_t,bool>", {0, 1}, {false, true});
  padding<int, int>("pair<int,int>", {0, 1}, {0, 1});
  padding<char, std::pair<char, int>>("pair<char,pair<char,int>>", {0, 1}, {{0, 0}, {1, 1}});
}

// types with a version: it is fed however the value is passed
struct Base {
  std::string a;
  int b;
};
}  // unnamed namespace
namespace versions {
#define VERSIONED(NAME) struct NAME : Base { static const bool use_serialize_for_hashing = true; NAME(const std::string& a_in, int b_in) : Base{a_in, b_in} {}
VERSIONED(MemberSave)
  template <typename Archive> void save(Archive& archive, std::uint32_t version) const { archive(a, version, b); }
  template <typename Archive> void load(Archive& archive, std::uint32_t version) { archive(a, version, b); }
};
VERSIONED(MemberSerialize)
  template <typename Archive> void serialize(Archive& archive, std::uint32_t version) { archive(a, version, b); }
};
VERSIONED(FreeSave)};
template <typename Archive> void save(Archive& archive, const FreeSave& f, std::uint32_t version) { archive(f.a, version, f.b); }
template <typename Archive> void load(Archive& archive, FreeSave& f, std::uint32_t version) { archive(f.a, version, f.b); }
VERSIONED(FreeSerialize)};
template <typename Archive> void serialize(Archive& archive, FreeSerialize& f, std::uint32_t version) { archive(f.a, version, f.b); }
template <typename Archive> void serialize(Archive& archive, const FreeSerialize& f, std::uint32_t version) { archive(f.a, version, f.b); }
VERSIONED(PlainSave)
  template <typename Archive> void save(Archive& archive) const { archive(a, std::uint32_t(7), b); }
  template <typename Archive> void load(Archive& archive) { archive(a, b); }
};
VERSIONED(PlainFree)};
template <typename Archive> void save(Archive& archive, const PlainFree& f) { archive(f.a, std::uint32_t(7), f.b); }
template <typename Archive> void load(Archive& archive, PlainFree& f) { archive(f.a, f.b); }
}  // namespace versions
namespace maidsafe {
#define VERSION_7(NAME) template <> struct HashVersion<versions::NAME> : std::integral_constant<std::uint32_t, 7> {};
VERSION_7(MemberSave) VERSION_7(MemberSerialize) VERSION_7(FreeSave) VERSION_7(FreeSerialize)
}  // namespace maidsafe
namespace {
template <typename T>
T moved(T t) { return t; }
template <typename T, bool constants>
typename std::enable_if<constants>::type as_constant(const T& t, const std::string& want, const std::string& what) {
  Recorder r;
  r(t);
  VF_CHECK(r.Finalize() == want, what << " feeds something else as a constant");
  Recorder v;
  const std::vector<T> many(2, t);
  v(many);
  const size_t n = 2;
  VF_CHECK(v.Finalize() == want + want + std::string(reinterpret_cast<const char*>(&n), sizeof n), what << " feeds something else in a constant vector");
  Recorder m;
  m(std::move(t));
  VF_CHECK(m.Finalize() == want, what << " feeds something else as a constant moved from");
}
template <typename T, bool constants>
typename std::enable_if<!constants>::type as_constant(const T&, const std::string&, const std::string&) {}
template <typename T, bool constants>
void versioned(const std::string& what) {
  for (const char* a : {"", "a", "bb"}) {
    for (int b : {0, 1, -1}) {
      if (!vf::take())
        continue;
      const std::string want = fed(0, std::string(a), std::uint32_t(7), b);
      T t(a, b);
      Recorder lvalue, both;
      lvalue(t);
      VF_CHECK(lvalue.Finalize() == want, what << " feeds something else than its version and members");
      both & t & t;
      VF_CHECK(both.Finalize() == want + want, what << " twice feeds something else");
      std::vector<T> many(2, t);
      Recorder in_vector;
      in_vector(many);
      const size_t n = 2;
      VF_CHECK(in_vector.Finalize() == want + want + std::string(reinterpret_cast<const char*>(&n), sizeof n), what << " feeds something else in a vector");
      as_constant<T, constants>(t, want, what);
      ++vf::transitions;
      vf::outcome(vf::hash_str(what + want));
    }
  }
}
void version_numbers() {
  versioned<versions::MemberSave, true>("a type with save(archive, version)");
  versioned<versions::MemberSerialize, false>("a type with serialize(archive, version)");
  versioned<versions::FreeSave, true>("a type with a free save(archive, value, version)");
  versioned<versions::FreeSerialize, false>("a type with a free serialize(archive, value, version)");
  versioned<versions::PlainSave, true>("a type with save(archive)");
  versioned<versions::PlainFree, true>("a type with a free save(archive, value)");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"numbers", numbers}, {"strings", strings}, {"nested", nested}, {"representations", representations},
                              {"user_types", user_types}, {"long_double", long_doubles}, {"wide_elements", wide_elements}, {"padding", paddings}, {"versions", version_numbers}});
}

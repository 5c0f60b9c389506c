// C15: what was serialised parses to equal objects and nothing else; all truncations are rejected.
#include <algorithm>
#include <limits>
#include <map>
#include <string>
#include <tuple>
#include <vector>

#include "boost/optional.hpp"

#include "shim/flyweight_compat.h"

#include "cereal/types/utility.hpp"
#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/tagged_value.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"

#include "common/vf.h"

namespace {
using maidsafe::InputVectorStream;
using maidsafe::OutputVectorStream;
using maidsafe::Parse;
using maidsafe::Serialise;
using maidsafe::SerialisedData;

struct Tag;
typedef maidsafe::detail::BoundedString<1, 8> Bounded;
typedef maidsafe::TaggedValue<std::string, Tag> Tagged;

const uint64_t kSentinel = 0xdeadbeefcafef00dull;

// The values must all be different.
template <typename T>
void type(const std::string& name, const std::vector<T>& values) {
  auto eq = [](const T& a, const T& b) { return a == b; };
  std::vector<SerialisedData> alone;
  for (const T& v : values)
    alone.push_back(Serialise(v));
  for (size_t i = 0; i < values.size(); ++i) {
    if (!vf::take())
      continue;
    const T& v = values[i];
    std::string at = name + " value " + std::to_string(i);
    const SerialisedData& d = alone[i];
    T copy(v);
    VF_CHECK(Serialise(copy) == d && Serialise(v) == d, at << ": two equal objects have different serialised forms");
    for (size_t j = 0; j < values.size(); ++j)
      VF_CHECK(i == j || alone[j] != d, at << ": the same serialised form as value " << j);
    VF_CHECK(eq(Parse<T>(d), v), at << ": parsed to something different");
    T into(values[(i + 1) % values.size()]);
    Parse(d, into);
    VF_CHECK(eq(into, v), at << ": parsed over another value to something different");
    vf::outcome(vf::hash_str(std::string(d.begin(), d.end())));

    // nothing but the object is consumed
    {
      SerialisedData more(Serialise(v, kSentinel));
      T a(values[(i + 1) % values.size()]);
      uint64_t s = 0;
      Parse(more, a, s);
      VF_CHECK(eq(a, v) && s == kSentinel, at << " followed by a number");
      InputVectorStream in(more);
      T b = Parse<T>(in);
      s = 0;
      Parse(in, s);
      VF_CHECK(eq(b, v) && s == kSentinel, at << " followed by a number, parsed one after the other");
      VF_CHECK(in.rdbuf()->sgetc() == std::char_traits<char>::eof(), at << ": bytes are left over");
      VF_CHECK(more.size() == d.size() + 8 && std::equal(d.begin(), d.end(), more.begin()), at << ": serialised differently when followed by something");
    }
    // every truncation
    for (size_t n = 0; n < d.size(); ++n) {
      SerialisedData cut(d.begin(), d.begin() + n);
      cut.shrink_to_fit();
      bool threw = false;
      try {
        Parse<T>(cut);
      } catch (const std::exception&) {
        threw = true;
      }
      VF_CHECK(threw, at << ": the first " << n << " of " << d.size() << " bytes were parsed");
      threw = false;
      T target(v);
      try {
        Parse(cut, target);
      } catch (const std::exception&) {
        threw = true;
      }
      VF_CHECK(threw, at << ": the first " << n << " of " << d.size() << " bytes were parsed into an object");
      ++vf::transitions;
    }
    // the string flavour
    std::string s = maidsafe::ConvertToString(v);
    VF_CHECK(maidsafe::ConvertToString(copy) == s, at << ": two equal objects have different strings");
    VF_CHECK(eq(maidsafe::ConvertFromString<T>(s), v), at << ": converted from its string to something different");
    T from(values[(i + 1) % values.size()]);
    VF_CHECK(eq(maidsafe::ConvertFromString(s, from), v) && eq(from, v), at << ": converted from its string to something different");
    {
      std::string more = maidsafe::ConvertToString(v, kSentinel);
      T a(values[(i + 1) % values.size()]);
      uint64_t t = 0;
      maidsafe::ConvertFromString(more, a, t);
      VF_CHECK(eq(a, v) && t == kSentinel, at << " followed by a number, as strings");
      std::stringstream in(more);
      t = 0;
      T b = maidsafe::ConvertFromStream<T>(in);
      maidsafe::ConvertFromStream(in, t);
      VF_CHECK(eq(b, v) && t == kSentinel, at << " followed by a number, from a stream");
    }
    for (size_t n = 0; n < s.size(); ++n) {
      bool threw = false;
      try {
        maidsafe::ConvertFromString<T>(s.substr(0, n));
      } catch (const std::exception&) {
        threw = true;
      }
      VF_CHECK(threw, at << ": the first " << n << " of " << s.size() << " characters were converted");
      ++vf::transitions;
    }
    // two and three in one stream
    for (size_t j = 0; j < values.size(); ++j) {
      const T& w = values[j];
      OutputVectorStream out;
      SerialisedData first(Serialise(out, v));
      SerialisedData both(Serialise(out, w));
      VF_CHECK(first == d, at << ": serialised differently with a stream");
      InputVectorStream in(both);
      T a = Parse<T>(in);
      T b = Parse<T>(in);
      VF_CHECK(eq(a, v) && eq(b, w), at << " and " << j << " serialised one after the other");
      VF_CHECK(in.rdbuf()->sgetc() == std::char_traits<char>::eof(), at << " and " << j << ": bytes are left over");
      SerialisedData three(Serialise(v, w, v));
      T c(w), e(v), f(w);
      Parse(three, c, e, f);
      VF_CHECK(eq(c, v) && eq(e, w) && eq(f, v), at << " and " << j << ": three serialised together");
      std::stringstream io;
      maidsafe::ConvertToString(io, v);
      maidsafe::ConvertToString(io, w);
      T g = maidsafe::ConvertFromStream<T>(io);
      T h = maidsafe::ConvertFromStream<T>(io);
      VF_CHECK(eq(g, v) && eq(h, w), at << " and " << j << " converted one after the other");
      // a cut in the second leaves the first parsable
      if (i < 4 || j < 4)
        for (size_t n = d.size(); n < d.size() + alone[j].size() && n < both.size(); n += n < d.size() + 12 ? 1 : 7) {
          SerialisedData cut(both.begin(), both.begin() + n);
          cut.shrink_to_fit();
          InputVectorStream cin(cut);
          T k = Parse<T>(cin);
          VF_CHECK(eq(k, v), at << " in a stream cut later");
          bool threw = false;
          try {
            Parse<T>(cin);
          } catch (const std::exception&) {
            threw = true;
          }
          VF_CHECK(threw, at << " and " << j << ": a stream of the first " << n << " of " << both.size() << " bytes was parsed");
        }
      vf::transitions += 8;
    }
  }
  vf::sample(name + ": " + std::to_string(values.size()) + " values, all pairs, all truncations");
}

template <typename T>
std::vector<T> integers() {
  std::vector<T> v{0, 1, 2, 127, 128};
  for (T x : {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), static_cast<T>(-1), static_cast<T>(0x100), static_cast<T>(0x80000000), static_cast<T>(0x1234567890abcdef)})
    v.push_back(x);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
void numbers() {
  type<bool>("bool", std::vector<bool>{false, true});
  type<int8_t>("int8", integers<int8_t>());
  type<uint8_t>("uint8", integers<uint8_t>());
  type<int16_t>("int16", integers<int16_t>());
  type<uint16_t>("uint16", integers<uint16_t>());
  type<int32_t>("int32", integers<int32_t>());
  type<uint32_t>("uint32", integers<uint32_t>());
  type<int64_t>("int64", integers<int64_t>());
  type<uint64_t>("uint64", integers<uint64_t>());
  type<double>("double", {0., 1., -1.5, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min()});
  type<float>("float", {0.f, 1.f, -1.5f, 1e30f});
}

template <typename C>
std::vector<C> sequences(const std::vector<typename C::value_type>& alphabet, size_t max) {
  std::vector<C> all{C()}, last{C()};
  for (size_t n = 1; n <= max; ++n) {
    std::vector<C> next;
    for (auto& p : last)
      for (auto& x : alphabet) {
        next.push_back(p);
        next.back().push_back(x);
      }
    all.insert(all.end(), next.begin(), next.end());
    last = next;
  }
  return all;
}
void strings() {
  auto s = sequences<std::string>({'a', 0, '\xff'}, 3);
  for (size_t n : {7, 8, 15, 16, 17, 31, 255, 256, 257, 1000})
    s.push_back(std::string(n, 'x'));
  type("string", s);
  type("vector<byte>", sequences<std::vector<unsigned char>>({0, 1, 255}, 3));
  type("vector<int>", sequences<std::vector<int>>({0, 1, -1}, 3));
  type("vector<string>", sequences<std::vector<std::string>>({"", "a", std::string(2, 0), std::string("\1\0\0\0\0\0\0\0", 8)}, 3));
  type("vector<vector<byte>>", sequences<std::vector<std::vector<unsigned char>>>({{}, {0}, {1}, {0, 0}, {1, 2, 3}}, 2));
}
void maps() {
  std::vector<std::map<std::string, int>> m{{}, {{"", 0}}, {{"a", 0}}, {{"", 1}}, {{"a", 0}, {"b", 1}}, {{"a", 1}, {"b", 0}}, {{"", 0}, {"a", 1}, {"b", 2}}};
  type("map<string,int>", m);
  std::vector<std::map<int, std::vector<std::string>>> n{{}, {{0, {}}}, {{0, {""}}}, {{0, {"a", "b"}}}, {{0, {"a"}}, {1, {"b"}}}, {{-1, {}}, {1, {}}}};
  type("map<int,vector<string>>", n);
  std::vector<std::vector<std::map<std::string, int>>> v;
  v.push_back({});
  for (auto& a : m) {
    v.push_back({a});
    for (auto& b : m)
      v.push_back({a, b});
  }
  type("vector<map<string,int>>", v);
}
void optionals() {
  typedef boost::optional<std::string> O;
  type<O>("optional<string>", {O(), O(std::string()), O(std::string("a")), O(std::string(1, 0)), O(std::string(300, 'a'))});
  typedef boost::optional<uint32_t> U;
  type<U>("optional<uint32>", {U(), U(0u), U(1u), U(0xffffffffu)});
  type<std::vector<U>>("vector<optional<uint32>>", sequences<std::vector<U>>({U(), U(0u), U(1u)}, 3));
  type<std::map<std::string, O>>("map<string,optional<string>>", {{}, {{"", O()}}, {{"", O(std::string())}}, {{"a", O()}, {"b", O(std::string("b"))}}});
}
void paths() {
  typedef boost::filesystem::path P;
  type<P>("path", {P(), P("/"), P("a"), P("/a"), P("a/b"), P("a//b"), P("../a"), P("a/"), P(" "), P("\xc3\xa9"), P(std::string(300, 'x'))});
  type<std::vector<P>>("vector<path>", sequences<std::vector<P>>({P(), P("/"), P("a/b")}, 3));
}
template <typename A, typename V4, typename V6>
void addresses_of(const std::string& ns) {
  std::vector<A> v;
  for (unsigned long x : {0ul, 1ul, 0x7f000001ul, 0x7f000002ul, 0xfffffffful, 0x01020304ul, 0x04030201ul, 0xe0000001ul})
    v.push_back(A(V4(x)));
  for (const char* s : {"::", "::1", "::2", "fe80::1", "2001:db8::8:800:200c:417a", "102:304:506:708:90a:b0c:d0e:f10", "ff02::1", "::ffff:1.2.3.4", "::1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"})
    v.push_back(A::from_string(s));
  type<A>(ns + " address", v);
  std::vector<std::vector<A>> vv{{}};
  for (auto& a : v) {
    vv.push_back({a});
    vv.push_back({a, v[3]});
    vv.push_back({v[9], a});
  }
  std::sort(vv.begin(), vv.end());
  vv.erase(std::unique(vv.begin(), vv.end()), vv.end());
  type<std::vector<A>>("vector<" + ns + " address>", vv);
  // a length that is neither 4 nor 16
  SerialisedData d(Serialise(v[0]));
  for (int n = 0; n < 256; ++n) {
    if (!vf::take())
      continue;
    SerialisedData e(Serialise(v[12]));
    e[0] = static_cast<unsigned char>(n);
    if (n == 4 || n == 16)
      continue;
    bool threw = false;
    try {
      Parse<A>(e);
    } catch (const std::exception&) {
      threw = true;
    }
    VF_CHECK(threw, ns << " address of " << n << " bytes was accepted");
  }
}
void addresses() {
  addresses_of<asio::ip::address, asio::ip::address_v4, asio::ip::address_v6>("asio");
  addresses_of<boost::asio::ip::address, boost::asio::ip::address_v4, boost::asio::ip::address_v6>("boost::asio");
}
void maidsafe_types() {
  type<Bounded>("bounded string", {Bounded("a"), Bounded("b"), Bounded(std::string(1, 0)), Bounded("12345678"), Bounded("aa")});
  type<std::vector<Bounded>>("vector<bounded string>", {{}, {Bounded("a")}, {Bounded("a"), Bounded("bb")}, {Bounded("bb"), Bounded("a")}});
  type<Tagged>("tagged string", {Tagged(""), Tagged("a"), Tagged("b"), Tagged(std::string(300, 'a'))});
  std::vector<maidsafe::Identity> ids;
  for (char c : {'a', 'b', '\0', '\xff'})
    ids.push_back(maidsafe::Identity(std::string(64, c)));
  type<maidsafe::Identity>("identity", ids);
  type<std::map<maidsafe::Identity, Tagged>>("map<identity,tagged string>", {{}, {{ids[0], Tagged("x")}}, {{ids[0], Tagged("")}, {ids[1], Tagged("y")}}});
}

// flyweights: equal ones in a stream share their value
typedef boost::flyweight<std::string> Fly;
typedef boost::flyweight<std::vector<int>> FlyVector;
void flyweights() {
  type<Fly>("flyweight<string>", {Fly(""), Fly("a"), Fly("b"), Fly(std::string(40, 'c'))});
  type<FlyVector>("flyweight<vector<int>>", {FlyVector(std::vector<int>{}), FlyVector(std::vector<int>{1}), FlyVector(std::vector<int>{1, 2, 3})});
  type<std::vector<Fly>>("vector<flyweight<string>>", sequences<std::vector<Fly>>({Fly(""), Fly("a"), Fly("bc")}, 4));
  type<std::map<int, Fly>>("map<int,flyweight<string>>", {{}, {{0, Fly("a")}}, {{0, Fly("a")}, {1, Fly("a")}}, {{0, Fly("a")}, {1, Fly("b")}}});
  // flyweights of two types in one archive
  for (auto& a : sequences<std::vector<Fly>>({Fly(""), Fly("a")}, 2))
    for (auto& b : sequences<std::vector<FlyVector>>({FlyVector(std::vector<int>{}), FlyVector(std::vector<int>{7})}, 2)) {
      if (!vf::take())
        continue;
      auto d = Serialise(a, b, a, b);
      std::vector<Fly> a1, a2;
      std::vector<FlyVector> b1, b2;
      Parse(d, a1, b1, a2, b2);
      VF_CHECK(a1 == a && a2 == a && b1 == b && b2 == b, "flyweights of two types");
      for (size_t n = 0; n < d.size(); ++n) {
        bool threw = false;
        try {
          Parse(SerialisedData(d.begin(), d.begin() + n), a1, b1, a2, b2);
        } catch (const std::exception&) {
          threw = true;
        }
        VF_CHECK(threw, "flyweights: the first " << n << " of " << d.size() << " bytes were parsed");
      }
    }
}

// one after another, of all types
typedef std::tuple<uint8_t, std::string, std::vector<std::string>, std::map<std::string, int>, boost::optional<std::string>, boost::filesystem::path, asio::ip::address, Bounded> Record;
void streams() {
  std::vector<std::string> s{"", "a", std::string("\0\1\0", 3), std::string(20, 'z')};
  std::vector<boost::optional<std::string>> o{boost::none, std::string(), std::string("o")};
  std::vector<asio::ip::address> ad{asio::ip::address(), asio::ip::address::from_string("1.2.3.4"), asio::ip::address::from_string("fe80::3")};
  for (int number : {0, 1, 255})
    for (auto& str : s)
      for (auto& v : sequences<std::vector<std::string>>({"", "q"}, 2))
        for (auto& opt : o)
          for (auto& a : ad) {
            if (!vf::take())
              continue;
            uint8_t u = static_cast<uint8_t>(number);
            std::map<std::string, int> m{{str, number}};
            boost::filesystem::path p("/" + str);
            Bounded b(std::string(1 + number % 8, 'b'));
            auto d = Serialise(u, str, v, m, opt, p, a, b, kSentinel);
            uint8_t u1 = 9;
            std::string s1("junk");
            std::vector<std::string> v1{"junk"};
            std::map<std::string, int> m1{{"junk", 1}};
            boost::optional<std::string> o1(std::string("junk"));
            boost::filesystem::path p1("junk");
            asio::ip::address a1;
            Bounded b1("junk");
            uint64_t e1 = 0;
            Parse(d, u1, s1, v1, m1, o1, p1, a1, b1, e1);
            VF_CHECK(u1 == u && s1 == str && v1 == v && m1 == m && o1 == opt && p1 == p && a1 == a && b1 == b && e1 == kSentinel, "a record of all types");
            // one by one
            InputVectorStream in(d);
            VF_CHECK(Parse<uint8_t>(in) == u && Parse<std::string>(in) == str && (Parse<std::vector<std::string>>(in)) == v && (Parse<std::map<std::string, int>>(in)) == m &&
                         Parse<boost::optional<std::string>>(in) == opt && Parse<boost::filesystem::path>(in) == p && Parse<asio::ip::address>(in) == a && Parse<Bounded>(in) == b &&
                         Parse<uint64_t>(in) == kSentinel && in.rdbuf()->sgetc() == std::char_traits<char>::eof(),
                     "a record of all types parsed one by one");
            for (size_t n = 0; n < d.size(); ++n) {
              SerialisedData cut(d.begin(), d.begin() + n);
              cut.shrink_to_fit();
              bool threw = false;
              try {
                Parse(cut, u1, s1, v1, m1, o1, p1, a1, b1, e1);
              } catch (const std::exception&) {
                threw = true;
              }
              VF_CHECK(threw, "a record of all types: the first " << n << " of " << d.size() << " bytes were parsed");
              ++vf::transitions;
            }
          }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"numbers", numbers}, {"strings", strings}, {"maps", maps}, {"optionals", optionals}, {"paths", paths}, {"addresses", addresses},
                              {"maidsafe_types", maidsafe_types}, {"flyweights", flyweights}, {"streams", streams}});
}

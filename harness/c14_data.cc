// C14: immutable and mutable data over histories of copies, moves and parses, and damaged forms.
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "cryptopp/sha.h"

#include "cereal/types/memory.hpp"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"

#include "common/limit_new.h"
#include "common/vf.h"

namespace {
using maidsafe::Data;
using maidsafe::Identity;
using maidsafe::ImmutableData;
using maidsafe::MutableData;
using maidsafe::NonEmptyString;
using maidsafe::Parse;
using maidsafe::Serialise;
using maidsafe::SerialisedData;

std::string sha512(const std::string& s) {
  CryptoPP::SHA512 h;
  std::string out(64, 0);
  h.CalculateDigest(reinterpret_cast<unsigned char*>(&out[0]), reinterpret_cast<const unsigned char*>(s.data()), s.size());
  return out;
}
template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
bool throws_uninitialised(const std::function<void()>& f) {
  try {
    f();
  } catch (const maidsafe::maidsafe_error& e) {
    return e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::uninitialised);
  } catch (...) {
  }
  return false;
}

struct Model {
  bool init = false;
  std::string name, value;
};
std::string plain(const Identity& id) {
  auto s = id.string();
  return std::string(s.begin(), s.end());
}
std::string plain(const NonEmptyString& v) {
  auto s = v.string();
  return std::string(s.begin(), s.end());
}
template <typename T>
NonEmptyString text(const T& s) {
  return NonEmptyString(s);
}
Identity ident(const std::string& s) { return Identity(s); }

template <typename T>
T make(const std::string& name, const std::string& value);
template <>
ImmutableData make<ImmutableData>(const std::string&, const std::string& value) { return ImmutableData(text(value)); }
template <>
MutableData make<MutableData>(const std::string& name, const std::string& value) { return MutableData(ident(name), text(value)); }
template <typename T>
std::string name_of(const std::string& name, const std::string& value);
template <>
std::string name_of<ImmutableData>(const std::string&, const std::string& value) { return sha512(value); }
template <>
std::string name_of<MutableData>(const std::string& name, const std::string&) { return name; }
template <typename T>
unsigned id_of();
template <>
unsigned id_of<ImmutableData>() { return 0; }
template <>
unsigned id_of<MutableData>() { return 1; }

template <typename T>
void verify(const T& t, const Model& m, const std::string& at) {
  VF_CHECK(t.IsInitialised() == m.init, at << ": " << (m.init ? "uninitialised" : "initialised"));
  if (m.init) {
    VF_CHECK(plain(t.Name()) == m.name, at << ": wrong name");
    VF_CHECK(plain(t.Value()) == m.value, at << ": wrong value " << vf::show(plain(t.Value())));
    VF_CHECK(t.TypeId().data == id_of<T>(), at << ": wrong type");
    VF_CHECK(plain(t.NameAndType().name) == m.name && t.NameAndType().type_id.data == id_of<T>(), at << ": wrong name and type");
    const Data& d = t;
    VF_CHECK(d.IsInitialised() && plain(d.Name()) == m.name && d.TypeId().data == id_of<T>(), at << ": wrong through the base class");
  } else {
    VF_CHECK(throws_uninitialised([&] { t.Name(); }), at << ": Name of uninitialised");
    VF_CHECK(throws_uninitialised([&] { t.Value(); }), at << ": Value of uninitialised");
    VF_CHECK(throws_uninitialised([&] { t.TypeId(); }), at << ": TypeId of uninitialised");
    VF_CHECK(throws_uninitialised([&] { t.NameAndType(); }), at << ": NameAndType of uninitialised");
    VF_CHECK(throws([&] { Serialise(t); }), at << ": an uninitialised object was serialised");
  }
}

// --- histories ---
const std::string kNames[] = {std::string(64, 'n'), std::string(63, 'n') + "m"};
const std::string kValues[] = {"v", std::string(100, 'w')};
const int kObjects = 3;

template <typename T>
struct World {
  std::unique_ptr<T> t[kObjects];
  Model m[kObjects];
};
template <typename T>
struct Op {
  std::string name;
  std::function<void(World<T>&)> run;
};

template <typename T>
std::vector<Op<T>> operations() {
  std::vector<Op<T>> ops;
  static std::vector<SerialisedData> bad;
  if (bad.empty()) {
    SerialisedData a(Serialise(make<T>(kNames[0], kValues[0]))), b(Serialise(make<T>(kNames[1], kValues[1])));
    bad.push_back(SerialisedData(a.begin(), a.end() - 1));
    bad.push_back(SerialisedData(b.begin(), b.end() - 100));   // nothing of the value but its size
    bad.push_back(SerialisedData(b.begin(), b.end() - 50));    // the value cut
    bad.push_back(SerialisedData(b.begin(), b.begin() + (b.size() - 108)));  // only the name
    SerialisedData empty(b.begin(), b.end() - 108);
    empty.resize(empty.size() + 8);  // an empty value
    bad.push_back(empty);
  }
  auto add = [&](const std::string& n, std::function<void(World<T>&)> f) { ops.push_back(Op<T>{n, f}); };
  for (int i = 0; i < kObjects; ++i) {
    std::string o = "object " + std::to_string(i);
    add(o + " = default", [i](World<T>& w) { w.t[i].reset(new T); w.m[i] = Model(); });
    add(o + " = T()", [i](World<T>& w) { *w.t[i] = T(); w.m[i] = Model(); });
    for (int v = 0; v < 2; ++v)
      add(o + " = value " + std::to_string(v), [i, v](World<T>& w) {
        w.t[i].reset(new T(make<T>(kNames[v], kValues[v])));
        w.m[i].init = true;
        w.m[i].name = name_of<T>(kNames[v], kValues[v]);
        w.m[i].value = kValues[v];
      });
    for (int j = 0; j < kObjects; ++j) {
      std::string p = o + " and " + std::to_string(j);
      add("copy assign " + p, [i, j](World<T>& w) { *w.t[i] = *w.t[j]; w.m[i] = w.m[j]; });
      add("parse " + p, [i, j](World<T>& w) {
        if (!w.m[j].init)
          return;
        Parse(Serialise(*w.t[j]), *w.t[i]);
        w.m[i] = w.m[j];
      });
      if (i == j)
        continue;
      add("move assign " + p, [i, j](World<T>& w) { *w.t[i] = std::move(*w.t[j]); w.m[i] = w.m[j]; w.m[j] = Model(); });
      add("copy construct " + p, [i, j](World<T>& w) { w.t[i].reset(new T(*w.t[j])); w.m[i] = w.m[j]; });
      add("move construct " + p, [i, j](World<T>& w) { w.t[i].reset(new T(std::move(*w.t[j]))); w.m[i] = w.m[j]; w.m[j] = Model(); });
      add("swap " + p, [i, j](World<T>& w) { std::swap(*w.t[i], *w.t[j]); std::swap(w.m[i], w.m[j]); });
    }
    if (i == 0)
      for (size_t k = 0; k < bad.size(); ++k)
        add("parse damaged form " + std::to_string(k) + " into " + o, [i, k](World<T>& w) {
          bool threw = throws([&] { Parse(bad[k], *w.t[i]); });
          VF_CHECK(threw, "a damaged form was parsed");
          // the target either has not changed or holds nothing
          if (!w.t[i]->IsInitialised())
            w.m[i] = Model();
        });
  }
  return ops;
}

template <typename T>
void histories(const std::string& kind, int depth) {
  auto ops = operations<T>();
  std::vector<size_t> h(depth);
  std::function<void(int)> go = [&](int d) {
    if (d == 2 && !vf::take())
      return;
    if (d == depth) {
      World<T> w;
      std::string at = kind + ": ";
      for (auto& p : w.t)
        p.reset(new T);
      for (int v = 0; v < 2; ++v)
        for (auto& o : ops)
          if (o.name == "object " + std::to_string(v) + " = value " + std::to_string(v))
            o.run(w);
      for (int k = 0; k < depth; ++k) {
        at += (k ? ", " : "") + ops[h[k]].name;
        ops[h[k]].run(w);
        ++vf::transitions;
        if (k == depth - 1)
          for (int i = 0; i < kObjects; ++i)
            verify(*w.t[i], w.m[i], at + " (object " + std::to_string(i) + ")");
      }
      std::ostringstream s;
      for (auto& m : w.m)
        s << m.init << m.value.size() << m.name[0] << ";";
      vf::state(vf::hash_str(kind + s.str()));
      ++vf::histories;
      if ((vf::histories & 1023) == 0)
        vf::note();
      return;
    }
    for (size_t k = 0; k < ops.size(); ++k) {
      h[d] = k;
      go(d + 1);
    }
  };
  go(0);
  vf::sample(kind + ": all histories of " + std::to_string(depth) + " of " + std::to_string(ops.size()) + " operations on 3 objects");
}
void immutable_histories() {
  for (int d = 1; d <= (vf::thorough ? 4 : 3); ++d)
    if (d >= 2)
      histories<ImmutableData>("ImmutableData", d);
}
void mutable_histories() {
  for (int d = 2; d <= (vf::thorough ? 4 : 3); ++d)
    histories<MutableData>("MutableData", d);
}

// --- serialised forms ---
std::vector<std::string> contents() {
  std::vector<std::string> v;
  for (size_t n : {1, 2, 7, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 1000})
    v.push_back(std::string(n, 'x'));
  v.push_back(std::string(1, 0));
  v.push_back(std::string(64, '\xff'));
  v.push_back("a\0b"), v.push_back(std::string("a\0b", 3));
  return v;
}
template <typename T>
void check_same(const T& t, const Model& m, const std::string& at) { verify(t, m, at); }

template <typename T>
void forms(const std::string& kind) {
  for (auto& value : contents())
    for (auto& given : kNames) {
      if (!vf::take())
        continue;
      std::string at = kind + " of " + std::to_string(value.size()) + " bytes";
      T t(make<T>(given, value));
      Model m;
      m.init = true, m.name = name_of<T>(given, value), m.value = value;
      verify(t, m, at);
      vf::outcome(vf::hash_str(m.name + m.value));
      SerialisedData d(Serialise(t));
      VF_CHECK(Serialise(T(t)) == d, at << ": equal objects have different serialised forms");
      verify(Parse<T>(d), m, at + " parsed");
      {
        uint64_t s = 0;
        T u;
        Parse(Serialise(t, uint64_t(77)), u, s);
        verify(u, m, at + " parsed from a stream");
        VF_CHECK(s == 77, at << ": not exactly its own bytes were consumed");
      }
      for (size_t n = 0; n < d.size(); ++n)
        VF_CHECK(throws([&] { Parse<T>(SerialisedData(d.begin(), d.begin() + n)); }), at << ": the first " << n << " of " << d.size() << " bytes were accepted");
      // through the base class
      std::unique_ptr<Data> p(new T(t));
      SerialisedData dp(Serialise(p));
      auto q = Parse<std::unique_ptr<Data>>(dp);
      VF_CHECK(q && dynamic_cast<T*>(q.get()), at << ": another type through the base class");
      verify(*dynamic_cast<T*>(q.get()), m, at + " parsed through the base class");
      VF_CHECK(q->TypeId().data == id_of<T>(), at << ": type id through the base class");
      for (size_t n = 0; n < dp.size(); ++n)
        VF_CHECK(throws([&] { Parse<std::unique_ptr<Data>>(SerialisedData(dp.begin(), dp.begin() + n)); }), at << ": the first " << n << " of " << dp.size() << " bytes were accepted through the base class");
      // every byte changed
      bool immutable = id_of<T>() == 0;
      for (size_t i = 0; i < d.size(); ++i)
        for (int change : {1, 0x80, 0xff, 0x55}) {
          SerialisedData e(d);
          e[i] ^= change;
          T u;
          if (throws([&] { u = Parse<T>(e); }))
            continue;
          ++vf::transitions;
          VF_CHECK(!immutable, at << ": accepted with byte " << i << " changed");
          VF_CHECK(u.IsInitialised() && (plain(u.Name()) != m.name || plain(u.Value()) != m.value), at << ": parsed to the original with byte " << i << " changed");
          VF_CHECK(Serialise(u).size() <= e.size(), at << ": byte " << i << " changed");
          SerialisedData again(Serialise(u));
          VF_CHECK(std::equal(again.begin(), again.end(), e.begin()), at << ": with byte " << i << " changed it does not parse to what is there");
        }
      for (size_t i = 0; i < dp.size(); ++i)
        for (int change : {1, 0x80, 0xff}) {
          SerialisedData e(dp);
          e[i] ^= change;
          std::unique_ptr<Data> u;
          if (throws([&] { u = Parse<std::unique_ptr<Data>>(e); }) || !u)
            continue;
          ++vf::transitions;
          if (auto im = dynamic_cast<ImmutableData*>(u.get()))
            VF_CHECK(im->IsInitialised() && plain(im->Name()) == sha512(plain(im->Value())), at << ": a mismatched immutable object was accepted with byte " << i << " changed");
        }
      // into an object that holds something: afterwards it is intact or empty
      for (size_t n = 0; n < d.size(); ++n)
        for (int change : {0, 1}) {
          SerialisedData e(d.begin(), change ? d.end() : d.begin() + n);
          if (change)
            e[n] ^= 1;
          T u(make<T>(kNames[1], "previous"));
          if (!throws([&] { Parse(e, u); }))
            continue;
          VF_CHECK(!u.IsInitialised() || (plain(u.Name()) == name_of<T>(kNames[1], "previous") && plain(u.Value()) == "previous"),
                   at << ": after a failed parse (byte " << n << (change ? " changed" : " and the rest missing") << ") the target holds a mixture");
        }
    }
  vf::sample(kind + ": 18 values, all truncations and changed bytes");
}
void immutable_forms() { forms<ImmutableData>("ImmutableData"); }
void mutable_forms() { forms<MutableData>("MutableData"); }

// name and content that do not belong together
void forged() {
  auto c = contents();
  for (auto& a : c)
    for (auto& b : c) {
      if (!vf::take())
        continue;
      for (int kind = 0; kind < 3; ++kind) {
        std::string name = kind == 0 ? sha512(a) : kind == 1 ? sha512(sha512(a)) : sha512(a).substr(0, 63) + '?';
        SerialisedData d(Serialise(ident(name), text(b)));
        bool ok = !throws([&] { Parse<ImmutableData>(d); });
        VF_CHECK(ok == (name == sha512(b)), "an object named by the hash of " << a.size() << " bytes holding " << b.size() << " bytes");
        MutableData m(Parse<MutableData>(d));
        VF_CHECK(plain(m.Name()) == name && plain(m.Value()) == b, "mutable object of " << b.size() << " bytes");
        ++vf::transitions;
      }
    }
  if (vf::take()) {
    VF_CHECK(throws([] { ImmutableData x((NonEmptyString())); }), "ImmutableData of an uninitialised value");
    VF_CHECK(throws([] { MutableData x(Identity(), NonEmptyString("x")); }), "MutableData of an uninitialised name");
    VF_CHECK(throws([] { MutableData x(Identity(std::string(64, 'a')), NonEmptyString()); }), "MutableData of an uninitialised value");
    VF_CHECK(throws([] { Parse<ImmutableData>(Serialise(Identity(sha512("")), std::string())); }), "ImmutableData without value");
    VF_CHECK(throws([] { Parse<MutableData>(Serialise(Identity(sha512("")), std::string())); }), "MutableData without value");
  }
}

// Data::NameAndTypeId is ordered by name, then type
void names_and_types() {
  typedef Data::NameAndTypeId N;
  std::vector<std::pair<std::string, unsigned>> k;
  for (auto& n : {std::string(), std::string(64, 'a'), std::string(64, 'b'), std::string(63, 'a') + 'b', std::string(64, '\x80'), std::string(64, '\0')})
    for (unsigned t : {0u, 1u, 2u, 0xffffffffu})
      k.push_back({n, t});
  std::vector<N> v;
  for (auto& x : k)
    v.push_back(N(x.first.empty() ? Identity() : ident(x.first), maidsafe::DataTypeId(x.second)));
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j) {
      if (!vf::take())
        continue;
      N a(v[i]), b(v[j]);
      // uninitialised names come first, the others are ordered as bytes
      std::vector<unsigned char> x(k[i].first.begin(), k[i].first.end()), y(k[j].first.begin(), k[j].first.end());
      bool less = x != y ? x < y : k[i].second < k[j].second, equal = k[i] == k[j];
      VF_CHECK((a == b) == equal && (a != b) == !equal && (a < b) == less && (a > b) == (!less && !equal) && (a <= b) == (less || equal) && (a >= b) == !less, "comparison of names and types " << i << " and " << j);
      N c(std::move(a));
      VF_CHECK(c == v[i], "moved name and type");
      b = std::move(c);
      VF_CHECK(b == v[i], "move assigned name and type");
      N e;
      e = b;
      VF_CHECK(e == v[i] && b == v[i], "copied name and type");
      if (!k[i].first.empty()) {
        N p;
        auto d = Serialise(b);
        Parse(d, p);
        VF_CHECK(p == v[i], "parsed name and type");
        for (size_t n = 0; n < d.size(); ++n)
          VF_CHECK(throws([&] { N q; Parse(SerialisedData(d.begin(), d.begin() + n), q); }), "the first " << n << " bytes of a name and type were accepted");
      }
      ++vf::transitions;
    }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"immutable_histories", immutable_histories}, {"mutable_histories", mutable_histories}, {"immutable_forms", immutable_forms},
                              {"mutable_forms", mutable_forms}, {"forged", forged}, {"names_and_types", names_and_types}});
}

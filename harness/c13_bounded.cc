// C13: bounded strings and tagged values: every operation history to a depth against a model.
#include <boost/optional.hpp>
#include <sstream>
#include <string>
#include <vector>

#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/tagged_value.h"

#include "common/vf.h"

namespace {
using maidsafe::CommonErrors;
using maidsafe::detail::BoundedString;

template <typename F>
bool throws(F f, CommonErrors code) {
  try {
    f();
  } catch (const maidsafe::common_error& e) {
    VF_CHECK(e.code() == maidsafe::make_error_code(code), "throws " << e.code().message());
    return true;
  }
  return false;
}

typedef boost::optional<std::string> Model;

template <typename B>
Model look(const B& b) {
  if (!b.IsInitialised())
    return boost::none;
  auto& s = b.string();
  return std::string(s.begin(), s.end());
}

template <size_t lo, size_t hi, typename S>
void invariant(const BoundedString<lo, hi, S>& b, const char* who) {
  std::ostringstream printed;
  printed << b;
  std::string hex;
  if (b.IsInitialised()) {
    for (size_t i = 0; i < b.size(); ++i) {
      const unsigned char c = static_cast<unsigned char>(b[i]);
      hex += "0123456789abcdef"[c / 16];
      hex += "0123456789abcdef"[c % 16];
    }
    if (hex.size() > 14)
      hex = hex.substr(0, 6) + ".." + hex.substr(hex.size() - 6);
  } else {
    hex = "Invalid string";
  }
  VF_CHECK(printed.str() == hex, who << " is printed as " << printed.str() << " instead of " << hex);
  if (b.IsInitialised()) {
    VF_CHECK(b.size() >= lo && b.size() <= hi, who << " with bounds " << lo << ".." << hi << " reports itself initialised with a size of " << b.size());
    VF_CHECK(b.size() == b.string().size() && (b.size() == 0 || b.data() == b.string().data()), "size, data and string disagree");
  } else {
    VF_CHECK(throws([&] { b.string(); }, CommonErrors::uninitialised), "string() of an uninitialised value");
    VF_CHECK(throws([&] { b.size(); }, CommonErrors::uninitialised), "size() of an uninitialised value");
    VF_CHECK(throws([&] { b.data(); }, CommonErrors::uninitialised), "data() of an uninitialised value");
    VF_CHECK(throws([&] { b[0]; }, CommonErrors::uninitialised), "operator[] of an uninitialised value");
    auto c = b;
    VF_CHECK(throws([&] { c[0] = 'x'; }, CommonErrors::uninitialised), "operator[] of an uninitialised value");
  }
}

template <typename B>
void compare(const B& x, const B& y) {
  Model a = look(x), b = look(y);
  auto rank = [](const Model& m) { return m ? std::make_pair(1, *m) : std::make_pair(0, std::string()); };
  auto ra = rank(a), rb = rank(b);
  VF_CHECK((x == y) == (ra == rb) && (x != y) == (ra != rb) && (x < y) == (ra < rb) && (x > y) == (ra > rb) &&
               (x <= y) == (ra <= rb) && (x >= y) == (ra >= rb),
           "comparison of " << (a ? vf::show(*a) : "none") << " and " << (b ? vf::show(*b) : "none"));
}

template <typename S>
S make(const std::string& s) {
  return S(s.begin(), s.end());
}

std::string text(size_t n, int v) { return std::string(n, static_cast<char>('a' + v)); }

// Histories over a1, a2 (bounds LO..HI) and b (bounds inside those).
template <size_t LO, size_t HI, size_t BLO, size_t BHI, typename S>
struct World {
  typedef BoundedString<LO, HI, S> A;
  typedef BoundedString<BLO, BHI, S> B;
  A a1, a2;
  B b;
  Model m1, m2, mb;
  static const int kOps = 44;

  static bool in_a(size_t n) { return n >= LO && n <= HI; }
  static bool in_b(size_t n) { return n >= BLO && n <= BHI; }
  World() : m1(look(a1)), m2(look(a2)), mb(look(b)) {
    VF_CHECK(a1.IsInitialised() == (LO == 0) && b.IsInitialised() == (BLO == 0), "a default-constructed value's state");
  }

  bool step(int op) {
    const A old1(a1);
    std::string txt;
    if (op < 12) {  // construct and assign, sizes 0..5, twice with different contents
      size_t n = static_cast<size_t>(op % 6);
      txt = text(n, op / 6);
      bool refused = throws([&] { a1 = A(make<S>(txt)); }, CommonErrors::outside_of_bounds);
      VF_CHECK(refused == !in_a(n), "construction with size " << n << " is " << (refused ? "refused" : "accepted"));
      if (!refused)
        m1 = txt;
    } else if (op < 18) {
      size_t n = static_cast<size_t>(op - 12);
      txt = text(n, 2);
      bool refused = throws([&] { b = B(txt); }, CommonErrors::outside_of_bounds);
      VF_CHECK(refused == !in_b(n), "construction with size " << n << " is " << (refused ? "refused" : "accepted"));
      if (!refused)
        mb = txt;
    } else if (op < 24) {  // parse
      size_t n = static_cast<size_t>(op - 18);
      txt = text(n, 3);
      auto bytes = maidsafe::Serialise(make<S>(txt));
      bool refused = throws([&] { maidsafe::Parse(bytes, a1); }, CommonErrors::parsing_error);
      VF_CHECK(refused == !in_a(n), "parsing a value of size " << n << " is " << (refused ? "refused" : "accepted"));
      if (!refused)
        m1 = txt;
    } else {
      switch (op) {
        case 24: a1 = a2; m1 = m2; break;
        case 25: a2 = a1; m2 = m1; break;
        case 26: a1 = std::move(a2); m1 = m2; m2 = look(a2); break;
        case 27: a2 = std::move(a1); m2 = m1; m1 = look(a1); break;
        case 28: { A& alias = a1; a1 = alias; break; }
        case 29: { A& alias = a1; a1 = std::move(alias); m1 = look(a1); break; }
        case 30: a1 = b; m1 = mb; break;
        case 31: a1 = std::move(b); m1 = mb; mb = look(b); break;
        case 32: std::swap(a1, a2); std::swap(m1, m2); break;
        case 33: { A c(a1); VF_CHECK(look(c) == m1, "copy construction"); a2 = c; m2 = m1; break; }
        case 34: { A c(std::move(a1)); VF_CHECK(look(c) == m1, "move construction"); m1 = look(a1); a2 = std::move(c); m2 = look(a2);
                   VF_CHECK(!m2 || in_a(m2->size()), "moving"); break; }
        case 35: { A c(b); VF_CHECK(look(c) == mb, "construction from another type"); a2 = c; m2 = mb; break; }
        case 36: { A c(std::move(b)); VF_CHECK(look(c) == mb, "construction from another type"); mb = look(b); a1 = c; m1 = look(c); break; }
        case 37: a1 = A(); m1 = look(A()); break;
        case 38: if (m1 && !m1->empty()) { a1[0] = 'Z'; (*m1)[0] = 'Z'; } break;
        case 39: if (m1 && !m1->empty()) { A c(a1); c[0] = 'Y'; VF_CHECK(look(a1) == m1, "changing a copy changes the original"); } break;
        case 40: {  // truncated input
          auto bytes = maidsafe::Serialise(make<S>(text(2, 4)));
          bytes.pop_back();
          VF_CHECK(throws([&] { maidsafe::Parse(bytes, a1); }, CommonErrors::parsing_error), "truncated input is accepted");
          break;
        }
        case 41: {  // round trip
          if (!m1) {
            bool t = throws([&] { maidsafe::Serialise(a1); }, CommonErrors::uninitialised);
            VF_CHECK(t, "an uninitialised value can be serialised");
          } else {
            auto bytes = maidsafe::Serialise(a1);
            VF_CHECK(bytes == maidsafe::Serialise(make<S>(*m1)), "serialised form differs from that of the string");
            maidsafe::Parse(bytes, a2);
            m2 = m1;
          }
          break;
        }
        case 42: {
          std::ostringstream o;
          o << a1;
          VF_CHECK(o.str() == (m1 ? maidsafe::hex::Substr(*m1) : std::string("Invalid string")), "printed as " << o.str());
          break;
        }
        case 43: { auto* p = new A(std::move(a2)); VF_CHECK(look(*p) == m2, "move construction"); m2 = look(a2); delete p; break; }
        default: return false;
      }
    }
    (void)old1;
    VF_CHECK(look(a1) == m1, "after operation " << op << " the first value is " << (look(a1) ? vf::show(*look(a1)) : "none") << " instead of " << (m1 ? vf::show(*m1) : "none"));
    VF_CHECK(look(a2) == m2, "after operation " << op << " the second value is wrong");
    VF_CHECK(look(b) == mb, "after operation " << op << " the third value is wrong");
    invariant(a1, "value");
    invariant(a2, "value");
    invariant(b, "value");
    compare(a1, a2);
    compare(a2, a1);
    compare(a1, a1);
    return true;
  }
  std::string key() const {
    auto k = [](const Model& m) { return m ? "=" + *m : std::string("-"); };
    return k(m1) + "|" + k(m2) + "|" + k(mb);
  }
};

template <typename W>
void histories(int depth) {
  uint64_t total = 1;
  for (int i = 0; i < depth; ++i)
    total *= W::kOps;
  for (uint64_t h = 0; h < total; ++h)
    if (vf::take()) {
      W w;
      uint64_t x = h;
      for (int i = 0; i < depth; ++i) {
        w.step(static_cast<int>(x % W::kOps));
        x /= W::kOps;
        ++vf::transitions;
        vf::state(vf::hash_str(w.key()));
      }
      ++vf::histories;
    }
  vf::sample("all " + std::to_string(total) + " histories of " + std::to_string(depth) + " operations, e.g. construct, move out, copy, compare");
}

typedef std::vector<unsigned char> V;
int depth() { return vf::thorough ? 4 : 3; }
void h13s() { histories<World<1, 3, 2, 3, std::string>>(depth()); }
int less() { return vf::thorough ? 3 : 2; }
void h13v() { histories<World<1, 3, 2, 3, V>>(less()); }
void h02() { histories<World<0, 2, 1, 1, V>>(less()); }
void h22() { histories<World<2, 2, 2, 2, std::string>>(less()); }
void h22v() { histories<World<2, static_cast<size_t>(-1), 2, 4, V>>(less()); }
void h00() { histories<World<0, 0, 0, 0, std::string>>(2); }
void h05() { histories<World<0, 4, 0, 3, std::string>>(less()); }

void big() {  // longer than any small-string buffer
  for (size_t n = 0; n <= 80; ++n)
    if (vf::take()) {
      typedef BoundedString<20, 60, std::string> A;
      typedef BoundedString<20, 60> C;
      std::string s = text(n, 5);
      bool bad = n < 20 || n > 60;
      VF_CHECK(throws([&] { A a(s); }, CommonErrors::outside_of_bounds) == bad, "size " << n);
      VF_CHECK(throws([&] { C a(s); }, CommonErrors::outside_of_bounds) == bad, "size " << n);
      VF_CHECK(throws([&] { C a(make<V>(s)); }, CommonErrors::outside_of_bounds) == bad, "size " << n);
      if (!bad) {
        A a(s), b;
        b = std::move(a);
        invariant(a, "moved-from value");
        VF_CHECK(look(b) == Model(s), "moved value");
        C c{V(s.begin(), s.end())}, d(std::move(c));
        invariant(c, "moved-from value");
        VF_CHECK(look(d) == Model(s), "moved value");
      }
    }
}

void xor_() {
  for (int i = 0; i < 256; ++i)
    if (vf::take())
      for (int j = 0; j < 256; ++j) {
        typedef BoundedString<2, 2> F;
        typedef BoundedString<2, 2, std::string> G;
        V x{static_cast<unsigned char>(i), static_cast<unsigned char>(j)}, y{static_cast<unsigned char>(j), 0x5a};
        F r = F(x) ^ F(y);
        VF_CHECK(r.string()[0] == (i ^ j) && r.string()[1] == (j ^ 0x5a), "xor of " << i << "," << j);
        G q = G(std::string(x.begin(), x.end())) ^ G(std::string(y.begin(), y.end()));
        VF_CHECK(static_cast<unsigned char>(q.string()[0]) == (i ^ j), "xor of strings " << i << "," << j);
        ++vf::transitions;
        if (j == 0) {
          VF_CHECK(throws([&] { F() ^ F(x); }, CommonErrors::uninitialised), "xor with an uninitialised value");
          VF_CHECK(throws([&] { F(x) ^ F(); }, CommonErrors::uninitialised), "xor with an uninitialised value");
        }
      }
}

template <typename T>
void tagged(const std::vector<T>& values) {
  typedef maidsafe::TaggedValue<T, struct Tag> V_;
  for (const T& a : values)
    for (const T& b : values)
      if (vf::take()) {
        V_ x(a), y(b);
        VF_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) &&
                     (x <= y) == (a <= b) && (x >= y) == (a >= b),
                 "comparison of tagged values");
        V_ c(x), d;
        d = y;
        VF_CHECK(c.data == a && d.data == b && static_cast<T>(c) == a && *(c.operator->()) == a, "copies of tagged values");
        c.data = b;
        VF_CHECK(x.data == a, "changing a copy changes the original");
        V_ e(std::move(d));
        VF_CHECK(e.data == b && y.data == b, "moving tagged values");
        d = std::move(e);
        VF_CHECK(d.data == b, "move assignment of tagged values");
        x = y;
        VF_CHECK(x.data == b && y.data == b, "assignment of tagged values");
        std::swap(c, x);
        auto bytes = maidsafe::Serialise(y);
        VF_CHECK(bytes == maidsafe::Serialise(b), "serialised form of a tagged value");
        VF_CHECK(maidsafe::Parse<V_>(bytes) == y, "round trip of a tagged value");
        vf::transitions += 8;
      }
}
void tagged_all() {
  tagged<int>({-2147483647 - 1, -1, 0, 1, 2, 2147483647});
  tagged<std::string>({"", "a", "b", "ab", std::string("a\0", 2), std::string(100, 'x')});
  tagged<unsigned char>({0, 1, 127, 128, 255});
  tagged<uint64_t>({0, 1, ~0ull, 1ull << 63});
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"bounds_1_3_string", h13s}, {"bounds_1_3_bytes", h13v}, {"bounds_0_2", h02}, {"bounds_2_2", h22},
                              {"bounds_2_max", h22v}, {"bounds_0_0", h00}, {"bounds_0_4", h05}, {"big", big}, {"xor", xor_},
                              {"tagged_values", tagged_all}});
}

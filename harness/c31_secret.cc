// C31: secret input strings against a plain character buffer; obfuscation and derived passwords.
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "maidsafe/common/authentication/user_credential_utils.h"
#include "maidsafe/common/authentication/user_credentials.h"

#include "common/limit_new.h"
#include "common/vf.h"

namespace {
using namespace maidsafe;
namespace auth = maidsafe::authentication;
using auth::detail::SafeString;
using auth::detail::SecureInputString;
using auth::detail::SecureString;

struct Op {
  enum Kind { kInsertChar, kInsertText, kRemove, kClear, kFinalise } kind;
  size_t position, length;
  std::string text;
};
std::string show(const Op& o) {
  switch (o.kind) {
    case Op::kInsertChar:
    case Op::kInsertText:
      return "Insert(" + std::to_string(o.position) + ", " + vf::show(o.text) + ") ";
    case Op::kRemove:
      return "Remove(" + std::to_string(o.position) + ", " + std::to_string(o.length) + ") ";
    case Op::kClear:
      return "Clear ";
    default:
      return "Finalise ";
  }
}
std::string show(const std::vector<Op>& h) {
  std::string s;
  for (const auto& o : h)
    s += show(o);
  return s;
}

// What a secret input string should be: pieces at positions, or a final text.
struct Model {
  std::map<size_t, std::string> pieces;
  std::string text;
  bool final = false;

  bool contiguous() const { return pieces.empty() || (pieces.begin()->first == 0 && pieces.rbegin()->first + 1 == pieces.size()); }
  std::string joined() const {
    std::string s;
    for (const auto& p : pieces)
      s += p.second;
    return s;
  }
  void edit() {
    if (!final)
      return;
    pieces.clear();
    for (size_t i = 0; i < text.size(); ++i)
      pieces[i] = std::string(1, text[i]);
    text.clear();
    final = false;
  }
  void renumber(std::map<size_t, std::string>::iterator it, size_t position) {
    std::vector<std::string> tail;
    for (auto i = it; i != pieces.end(); ++i)
      tail.push_back(i->second);
    pieces.erase(it, pieces.end());
    for (const auto& t : tail)
      pieces[position++] = t;
  }
  std::string key() const {
    std::string s = final ? "F" + text : "E";
    for (const auto& p : pieces)
      s += std::to_string(p.first) + ":" + p.second + ";";
    return s;
  }
};

// Applies one operation to the model: "" or why it is to fail.
template <typename Predicate, size_t kSize>
std::string apply(Model& m, const Op& o) {
  switch (o.kind) {
    case Op::kInsertChar:
    case Op::kInsertText: {
      m.edit();
      auto it = m.pieces.find(o.position);
      if (it != m.pieces.end())
        m.renumber(it, o.position + 1);
      m.pieces[o.position] = o.text;
      return "";
    }
    case Op::kRemove: {
      m.edit();
      auto it = m.pieces.find(o.position);
      if (it == m.pieces.end() || o.length == 0)
        return "invalid_argument";
      if (static_cast<size_t>(std::distance(it, m.pieces.end())) < o.length)
        return "too long";
      for (size_t i = 0; i < o.length; ++i)
        it = m.pieces.erase(it);
      m.renumber(it, o.position);
      return "";
    }
    case Op::kClear:
      m = Model();
      return "";
    default: {
      if (m.final)
        return "";
      if (!m.contiguous())
        return "gap";
      if (!Predicate()(m.joined().size(), kSize))
        return "outside_of_bounds";
      m.text = m.joined();
      m.pieces.clear();
      m.final = true;
      return "";
    }
  }
}

template <typename String>
std::string apply_real(String& s, const Op& o) {
  try {
    switch (o.kind) {
      case Op::kInsertChar:
        s.Insert(o.position, o.text[0]);
        break;
      case Op::kInsertText:
        s.Insert(o.position, o.text);
        break;
      case Op::kRemove:
        if (o.length == 1)
          s.Remove(o.position);
        else
          s.Remove(o.position, o.length);
        break;
      case Op::kClear:
        s.Clear();
        break;
      default:
        s.Finalise();
    }
    return "";
  } catch (const maidsafe_error& e) {
    return e.code() == make_error_code(CommonErrors::outside_of_bounds)
               ? "outside_of_bounds"
               : e.code() == make_error_code(CommonErrors::invalid_argument) ? "invalid_argument" : "other";
  }
}

const char* const kPatterns[] = {"[a-z]", "[0-9]", "[ab1]", "."};
bool matches(const std::string& text, int pattern) {
  for (char c : text)
    if (!(pattern == 0 ? c >= 'a' && c <= 'z' : pattern == 1 ? c >= '0' && c <= '9'
                                                            : pattern == 2 ? c == 'a' || c == 'b' || c == '1' : true))
      return false;
  return true;
}
template <typename F>
bool throws_symmetric(F f) {
  try {
    f();
    return false;
  } catch (const maidsafe_error& e) {
    return e.code() == make_error_code(CommonErrors::symmetric_encryption_error);
  }
}

template <typename Predicate, size_t kSize, typename String>
void observe(const String& s, const Model& m, const std::function<std::string()>& where) {
  VF_CHECK(s.IsFinalised() == m.final && s.IsInitialised() == m.final, "finalised after " << where());
  const std::string text = m.final ? m.text : m.joined();
  if (m.final) {
    const SafeString got = s.string();
    VF_CHECK(std::string(got.begin(), got.end()) == text, "after " << where() << " the text is "
                                                                   << vf::show(std::string(got.begin(), got.end()))
                                                                   << ", expected " << vf::show(text));
    CryptoPP::SHA512 sha;
    std::string digest(64, '\0');
    sha.CalculateDigest(reinterpret_cast<CryptoPP::byte*>(&digest[0]),
                        reinterpret_cast<const CryptoPP::byte*>(text.data()), text.size());
    const SafeString hash = s.template Hash<crypto::SHA512>().string();
    VF_CHECK(std::string(hash.begin(), hash.end()) == digest, "hash after " << where());
    if (text.size() && text.size() < 19 && matches(text, 1)) {
      VF_CHECK(s.Value() == std::stoul(text), "value of " << text << " is " << s.Value());
    } else if (text.empty() || (matches(text.substr(0, 1), 0))) {
      bool threw = false;
      try {
        s.Value();
      } catch (const std::exception&) {
        threw = true;
      }
      VF_CHECK(threw, "there is a value of " << vf::show(text));
    }
  } else {
    VF_CHECK(throws_symmetric([&] { s.string(); }), "text can be read after " << where());
    VF_CHECK(throws_symmetric([&] { s.template Hash<crypto::SHA512>(); }), "hash can be read after " << where());
    VF_CHECK(throws_symmetric([&] { s.Value(); }), "value can be read after " << where());
  }
  for (int p = 0; p < 4; ++p) {
    const bool want = (m.final || m.contiguous()) && Predicate()(text.size(), kSize) && matches(text, p);
    VF_CHECK(s.IsValid(boost::regex(kPatterns[p])) == want,
             "after " << where() << " validation with " << kPatterns[p] << " is " << !want);
  }
}

// Returns false if the state is not defined any more (a removal failed half way).
template <typename Predicate, size_t kSize>
bool play(const std::vector<Op>& h, Model* end) {
  SecureInputString<Predicate, kSize, auth::detail::PasswordTag> s;
  Model m;
  for (size_t i = 0; i < h.size(); ++i) {
    const std::string want = apply<Predicate, kSize>(m, h[i]);
    const std::string got = apply_real(s, h[i]);
    const bool good = want == "gap" || want == "too long" ? got == "invalid_argument" : got == want;
    const bool either = want == "gap" && !Predicate()(m.joined().size(), kSize) && got == "outside_of_bounds";
    VF_CHECK(good || either, show(h) << ": step " << i << " gives " << (got.empty() ? "success" : got) << ", expected "
                                     << (want.empty() ? "success" : want));
    ++vf::transitions;
    if (want == "too long")
      return false;
  }
  observe<Predicate, kSize>(s, m, [&] { return show(h); });
  vf::outcome(vf::hash_str(m.key()));
  ++vf::histories;
  if (end)
    *end = m;
  return true;
}

std::vector<Op> few_ops() {
  return {{Op::kInsertChar, 0, 0, "a"}, {Op::kInsertChar, 1, 0, "a"}, {Op::kInsertChar, 2, 0, "b"},
          {Op::kInsertChar, 0, 0, "1"}, {Op::kInsertText, 1, 0, "2b"}, {Op::kRemove, 0, 1, ""},
          {Op::kRemove, 1, 1, ""},      {Op::kRemove, 0, 2, ""},      {Op::kClear, 0, 0, ""},
          {Op::kFinalise, 0, 0, ""}};
}
std::vector<Op> all_ops() {
  std::vector<Op> ops;
  for (size_t p : {0, 1, 2, 3})
    for (const char* t : {"a", "1"})
      ops.push_back({Op::kInsertChar, p, 0, t});
  for (const char* t : {"bc", "1b", "", "x"})
    for (size_t p : {0, 1})
      ops.push_back({Op::kInsertText, p, 0, t});
  ops.push_back({Op::kInsertText, 1, 0, std::string("\0\xff", 2)});
  for (size_t p : {0, 1, 2})
    for (size_t n : {0, 1, 2, 3})
      ops.push_back({Op::kRemove, p, n, ""});
  ops.push_back({Op::kClear, 0, 0, ""});
  ops.push_back({Op::kFinalise, 0, 0, ""});
  return ops;
}

template <typename Predicate, size_t kSize>
void histories(size_t depth) {
  const auto ops = few_ops();
  std::vector<Op> h;
  std::function<void()> more = [&] {
    if (h.size() >= 2 || vf::take()) {
      if (!play<Predicate, kSize>(h, nullptr))
        return;
    }
    if (h.size() == depth)
      return;
    for (const auto& o : ops) {
      h.push_back(o);
      if (h.size() != 2 || vf::take())
        more();
      h.pop_back();
    }
  };
  more();
}
void histories_any() { histories<std::greater_equal<size_t>, 1>(vf::thorough ? 5 : 4); }
void histories_two() { histories<std::equal_to<size_t>, 2>(vf::thorough ? 5 : 3); }
void histories_most() { histories<std::less_equal<size_t>, 2>(vf::thorough ? 4 : 3); }

// after failed and repeated finalising, which the model does not see: a few edits, then finalising
template <typename Predicate, size_t kSize>
void scarred(size_t depth) {
  const auto ops = few_ops();
  const Op a0{Op::kInsertChar, 0, 0, "a"}, b1{Op::kInsertChar, 1, 0, "b"}, c2{Op::kInsertChar, 2, 0, "c"}, remove{Op::kRemove, 0, 1, ""},
      none{Op::kRemove, 3, 1, ""}, clear{Op::kClear, 0, 0, ""}, done{Op::kFinalise, 0, 0, ""};
  const std::vector<std::vector<Op>> prefixes{{a0, c2, done},          {b1, done},        {a0, b1, c2, done},       {done},
                                              {a0, c2, done, done},    {a0, done, done},  {a0, done, b1, done},     {a0, done, c2, done},
                                              {a0, c2, done, clear},   {a0, b1, done, remove, done}, {a0, b1, done, clear, done}, {a0, b1, none, done, none}};
  for (const auto& prefix : prefixes) {
    std::vector<Op> h(prefix);
    std::function<void(size_t)> more = [&](size_t left) {
      h.push_back(done);
      if (vf::take())
        play<Predicate, kSize>(h, nullptr);
      h.pop_back();
      if (left)
        for (const auto& o : ops) {
          h.push_back(o);
          more(left - 1);
          h.pop_back();
        }
    };
    more(depth);
  }
}
void scarred_any() { scarred<std::greater_equal<size_t>, 1>(vf::thorough ? 3 : 2); }
void scarred_two() { scarred<std::equal_to<size_t>, 2>(vf::thorough ? 3 : 2); }

// every state within reach, left by every operation
template <typename Predicate, size_t kSize>
void states(size_t depth, size_t longest) {
  const auto ops = all_ops();
  std::map<std::string, std::vector<Op>> seen;
  std::vector<std::pair<Model, std::vector<Op>>> level{{Model(), {}}};
  seen[Model().key()] = {};
  for (size_t d = 0; d < depth; ++d) {
    std::vector<std::pair<Model, std::vector<Op>>> next;
    for (const auto& from : level) {
      const bool mine = vf::take();
      if (mine)
        vf::state(vf::hash_str(from.first.key()));
      for (const auto& o : ops) {
        auto h = from.second;
        h.push_back(o);
        if (mine)
          play<Predicate, kSize>(h, nullptr);
        Model m = from.first;
        if (apply<Predicate, kSize>(m, o) == "too long" || m.joined().size() + m.text.size() > longest)
          continue;
        if (seen.insert({m.key(), h}).second)
          next.push_back({m, h});
      }
    }
    level.swap(next);
  }
}
void states_any() { states<std::greater_equal<size_t>, 1>(vf::thorough ? 5 : 4, vf::thorough ? 4 : 3); }
void states_two() { states<std::equal_to<size_t>, 2>(vf::thorough ? 4 : 3, 3); }

// strings given at once, of every byte and many sizes, then edited
void constructed() {
  typedef SecureInputString<std::greater_equal<size_t>, 3, auth::detail::PasswordTag> Three;
  auto one = [](const std::string& text) {
    bool threw = false;
    try {
      Three s(text), safe(SafeString(text.begin(), text.end()));
      Model m;
      m.final = true;
      m.text = text;
      auto where = [&] { return "constructing from " + vf::show(text); };
      observe<std::greater_equal<size_t>, 3>(s, m, where);
      observe<std::greater_equal<size_t>, 3>(safe, m, where);
      s.Insert(text.size(), 'z');
      s.Remove(0);
      s.Finalise();
      m.text = text.substr(1) + "z";
      observe<std::greater_equal<size_t>, 3>(s, m, [&] { return "editing " + vf::show(text); });
    } catch (const maidsafe_error& e) {
      threw = true;
      VF_CHECK(e.code() == make_error_code(CommonErrors::outside_of_bounds), "error for " << vf::show(text));
    }
    VF_CHECK(threw == (text.size() < 3), "construction from " << vf::show(text) << (threw ? " fails" : " succeeds"));
    vf::transitions += 4;
    ++vf::histories;
  };
  for (unsigned c = 0; c < 256; ++c)
    if (vf::take()) {
      one(std::string(1, static_cast<char>(c)) + "bc");
      one("a" + std::string(1, static_cast<char>(c)) + "b");
      one("ab" + std::string(1, static_cast<char>(c)));
    }
  for (size_t n = 0; n < 40; ++n)
    if (vf::take()) {
      one(std::string(n, '7'));
      one(std::string(n, '\0'));
    }
  for (int k = 0; k < 600; ++k)  // secrets are kept under random phrases
    if (vf::take())
      one("abc");
  // the buffer by itself
  for (size_t n = 0; n < 60; ++n)
    if (vf::take()) {
      std::string text;
      SecureString s;
      for (size_t i = 0; i < n; ++i) {
        const std::string piece(i % 3, static_cast<char>('a' + i % 26));
        text += piece + static_cast<char>('0' + i % 10);
        s.Append(piece);
        s.Append(static_cast<char>('0' + i % 10));
      }
      s.Finalise();
      const SafeString got = s.string(), again = s.string();
      VF_CHECK(std::string(got.begin(), got.end()) == text && again == got, "text appended in pieces");
      s.Clear();
      s.Append(std::string("new"));
      s.Finalise();
      VF_CHECK(s.string() == "new", "text after Clear");
    }
}

auth::UserCredentials credentials(const std::string& keyword, const std::string& pin, const std::string& password) {
  auth::UserCredentials c;
  if (keyword != "-")
    c.keyword.reset(new auth::UserCredentials::Keyword(keyword));
  if (pin != "-")
    c.pin.reset(new auth::UserCredentials::Pin(pin));
  if (password != "-")
    c.password.reset(new auth::UserCredentials::Password(password));
  return c;
}
std::string mask(const auth::UserCredentials& c, const std::string& data) {
  const NonEmptyString result = auth::Obfuscate(c, NonEmptyString(data));
  return std::string(result.string().begin(), result.string().end());
}
// strings and hashes in a row
void joined() {
  const std::vector<std::string> texts = {"", "a", "b", "ab", std::string(1, '\0'), std::string(15, 'x'), std::string(16, 'y'), std::string(100, 'z'), std::string(4096, 'w')};
  for (const auto& x : texts)
    for (const auto& y : texts) {
      if (!vf::take())
        continue;
      const SafeString a(x.begin(), x.end()), b(y.begin(), y.end());
      const std::string sum = x + y;
      VF_CHECK((a + b) == SafeString(sum.begin(), sum.end()), vf::show(x) << " + " << vf::show(y));
      const auto hash = crypto::Hash<crypto::SHA512>(b);
      const auto h = hash.string();
      const std::string text(h.begin(), h.end());
      const auth::detail::SecureString::Hash named(SafeString(text.begin(), text.end()));
      const std::string before = text + x, after = x + text;
      VF_CHECK((named + a) == SafeString(before.begin(), before.end()), "the hash of " << vf::show(y) << " + " << vf::show(x));
      VF_CHECK((a + named) == SafeString(after.begin(), after.end()), vf::show(x) << " + the hash of " << vf::show(y));
      vf::transitions += 3;
    }
}
void sizes() {
  const auto a = credentials("keyword", "1234", "password");
  for (size_t n = 1; n < 330; n += 1) {
    if (!vf::take())
      continue;
    std::string data;
    for (size_t i = 0; i < n; ++i)
      data += static_cast<char>(i * 11 + n);
    const std::string hidden = mask(a, data);
    VF_CHECK(hidden.size() == n, "size of " << n << " obfuscated bytes is " << hidden.size());
    VF_CHECK(mask(a, hidden) == data, "obfuscating " << n << " bytes twice does not give them back");
    VF_CHECK(n < 4 || hidden != data, "obfuscation changes nothing");
    VF_CHECK(mask(a, data) == hidden, "obfuscation is not deterministic");
    vf::transitions += 3;
    vf::outcome(vf::hash_str(hidden));
  }
  for (size_t n : {1000, 4096, 65536})
    if (vf::take()) {
      std::string data(n, 'd');
      VF_CHECK(mask(a, mask(a, data)) == data, "obfuscating " << n << " bytes twice does not give them back");
    }
}
void dependence() {
  const std::vector<std::string> keywords = {"keyword", "keywore", "Keyword", "keywor", "k"};
  const std::vector<std::string> pins = {"1234", "1235", "0", "9", "11234"};
  const std::vector<std::string> passwords = {"password", "passwore", "assword", "p", "password1"};
  if (!vf::single())
    return;
  std::map<std::string, std::string> masks, derived;
  for (const auto& k : keywords)
    for (const auto& i : pins)
      for (const auto& p : passwords) {
        const auto c = credentials(k, i, p);
        const std::string who = k + "," + i + "," + p;
        const std::string m = mask(c, std::string(48, '\0'));
        VF_CHECK(masks.insert({m, who}).second, "the masks of " << who << " and " << masks[m] << " are the same");
        vf::note();
        ++vf::transitions;
      }
  for (const auto& i : pins)
    for (const auto& p : passwords) {
      std::string first;
      for (const char* k : {"keyword", "other", "-"}) {  // the keyword takes no part
        const auto s = auth::CreateSecurePassword(credentials(k, i, p));
        const std::string d(s->string().begin(), s->string().end());
        VF_CHECK(d.size() == 48 && (first.empty() || first == d), "the derived password is not deterministic");
        first = d;
        vf::note();
        ++vf::transitions;
      }
      VF_CHECK(derived.insert({first, i + "," + p}).second,
               "the passwords derived from " << i << "," << p << " and " << derived[first] << " are the same");
      VF_CHECK(masks.count(first) == 0, "a derived password is also a mask");
    }
  for (int missing = 1; missing < 8; ++missing) {
    const auto c = credentials(missing & 1 ? "-" : "k", missing & 2 ? "-" : "1", missing & 4 ? "-" : "p");
    bool obfuscated = true, made = true;
    try {
      auth::Obfuscate(c, NonEmptyString("data"));
    } catch (const maidsafe_error& e) {
      obfuscated = false;
      VF_CHECK(e.code() == make_error_code(CommonErrors::uninitialised), "error for missing credentials");
    }
    try {
      auth::CreateSecurePassword(c);
    } catch (const maidsafe_error& e) {
      made = false;
      VF_CHECK(e.code() == make_error_code(CommonErrors::uninitialised), "error for missing credentials");
    }
    VF_CHECK(!obfuscated, "obfuscation without all credentials");
    VF_CHECK(made == (missing == 1), "derived password with missing credentials " << missing);
    // credentials which move keep their values
    auto moved = credentials("k", "1", "p");
    const std::string before = mask(moved, "data");
    auth::UserCredentials to(std::move(moved)), then;
    VF_CHECK(!moved.keyword && !moved.pin && !moved.password && mask(to, "data") == before, "moving credentials");
    then = std::move(to);
    VF_CHECK(mask(then, "data") == before, "assigning credentials");
    vf::note();
  }
  vf::sample("125 triples of credentials give 125 masks");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"histories_any", histories_any}, {"histories_two", histories_two},
                              {"histories_most", histories_most}, {"scarred_any", scarred_any}, {"scarred_two", scarred_two}, {"states_any", states_any}, {"states_two", states_two},
                              {"constructed", constructed}, {"sizes", sizes}, {"joined", joined}, {"dependence", dependence}});
}

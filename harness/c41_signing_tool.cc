// C41: the tool that signs, encrypts and shares keys, for every dialogue of the listed bounds,
// against a model of the keys it holds and the files it changes.
#include <signal.h>
#include <sys/stat.h>
#include <termios.h>

#include <algorithm>
#include <cstdint>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#define main tool_main
#include "maidsafe/common/tools/signing_tool.cc"  // NOLINT
#undef main

#include "common/session.h"
#include "common/vf.h"

// The terminal: what it echoes becomes part of what the tool says
namespace {
bool echoes = true;
}
extern "C" int tcgetattr(int, struct termios* t) {
  memset(t, 0, sizeof *t);
  t->c_lflag = static_cast<tcflag_t>(ICANON | ISIG | (echoes ? ECHO : 0));
  return 0;
}
extern "C" int tcsetattr(int, int, const struct termios* t) {
  echoes = (t->c_lflag & ECHO) != 0;
  fputs(echoes ? "\x03+" : "\x03-", stdout);
  return 0;
}

namespace {
typedef std::vector<std::string> Lines;
namespace asymm = maidsafe::asymm;

std::string file(const std::string& name) { return vf::scratch + "/" + name; }
void write_file(const std::string& path, const std::string& bytes) {
  std::ofstream(path, std::ios::binary | std::ios::trunc) << bytes;
}
bool exists(const std::string& path) {
  struct stat s;
  return stat(path.c_str(), &s) == 0;
}
std::string read_file(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::ostringstream s;
  s << in.rdbuf();
  return s.str();
}

struct Pair {
  asymm::Keys keys;
  std::string priv, pub;  // as saved
};
Pair& key(int n) {
  static Pair pairs[3];
  Pair& p = pairs[n];
  if (p.priv.empty()) {
    p.keys = asymm::GenerateKeyPair();
    const auto priv = asymm::EncodeKey(p.keys.private_key).string();
    const auto pub = asymm::EncodeKey(p.keys.public_key).string();
    p.priv.assign(priv.begin(), priv.end());
    p.pub.assign(pub.begin(), pub.end());
  }
  write_file(file("priv" + std::to_string(n)), p.priv);
  write_file(file("pub" + std::to_string(n)), p.pub);
  return p;
}

int the_tool() {
  if (chdir(vf::scratch.c_str()) != 0)
    _exit(98);
  return tool_main();
}

// What the tool said after a line, without the terminal's changes and the names of files
std::string plain(std::string text, const Lines& names = Lines()) {
  for (size_t at; (at = text.find('\x03')) != std::string::npos;)
    text.erase(at, 2);
  for (const auto& name : names) {
    for (size_t at; (at = text.find(name)) != std::string::npos;)
      text.replace(at, name.size(), "?");
  }
  return text;
}

struct Model {
  int priv = 0, pub = 0;              // which key it holds
  bool has_p = false, has_q = false;  // saved keys
  int p = 0, q = 0;
  Lines layers;                       // passwords F is encrypted with
  bool has_sig = false;
  int sig_key = 0;
  Lines sig_layers;
};
// "open:what happened": reports of what was done must differ from those of what was not
enum Kind { kLoadPrivate, kLoadPublic, kSavePrivate, kSavePublic, kSign, kValidate, kEncrypt, kDecrypt, kSignIn, kGroup, kKinds };

struct Script {
  Lines lines;
  std::set<size_t> secret;
  Model m;
  struct Report {
    size_t line;
    Kind kind;
    bool done;
  };
  std::vector<Report> reports;
  std::vector<std::pair<size_t, Model>> done_at{{0, Model()}};

  void say(const std::string& l) { lines.push_back(l); }
  void password(const std::string& l) {
    secret.insert(lines.size());
    lines.push_back(l);
  }
  void did(Kind kind, bool done) {
    reports.push_back({lines.size() - 1, kind, done});
    done_at.push_back({lines.size(), m});
  }
  void load_private(int n) {
    say("4");
    say(n ? file("priv" + std::to_string(n)) : file("bad"));
    if (n)
      m.priv = n;
    did(kLoadPrivate, n != 0);
  }
  void load_public(int n) {
    say("5");
    say(n ? file("pub" + std::to_string(n)) : file("bad"));
    if (n)
      m.pub = n;
    did(kLoadPublic, n != 0);
  }
  void save_private() {
    say("2");
    say(file("P"));
    if (m.priv) {
      m.has_p = true;
      m.p = m.priv;
    }
    did(kSavePrivate, m.priv != 0);
  }
  void save_public() {
    say("3");
    say(file("Q"));
    if (m.pub) {
      m.has_q = true;
      m.q = m.pub;
    }
    did(kSavePublic, m.pub != 0);
  }
  void sign() {
    say("8");
    say(file("F"));
    if (m.priv) {
      m.has_sig = true;
      m.sig_key = m.priv;
      m.sig_layers = m.layers;
    }
    did(kSign, m.priv != 0);
  }
  void validate() {
    say("9");
    say(file("F"));
    did(kValidate, m.has_sig && m.pub && m.pub == m.sig_key && m.layers == m.sig_layers);
  }
  void encrypt(const std::string& p) {
    say("10");
    say(file("F"));
    password(p);
    password(p);
    m.layers.push_back(p);
    did(kEncrypt, true);
  }
  void decrypt(const std::string& p) {
    say("11");
    say(file("F"));
    password(p);
    password(p);
    const bool fits = !m.layers.empty() && m.layers.back() == p;
    if (fits)
      m.layers.pop_back();
    did(kDecrypt, fits);
  }
  void leave() { say("0"); }
  std::string text(size_t upto = SIZE_MAX) const {
    std::string s;
    upto = std::min(upto, lines.size());
    for (size_t i = upto > 30 ? upto - 30 : 0; i < upto; ++i)
      s += " | " + vf::show(lines[i]);
    return s;
  }
};

const char kContent[] = "what the file says";
const Lines& names() {
  static const Lines all = {file("priv1"), file("priv2"), file("pub1"), file("pub2"), file("bad"), file("P"), file("Q"), file("F")};
  return all;
}
void clean_up() {
  for (const char* name : {"P", "Q", "F", "F.sig", "bad", "0", "1", "2", "3", "8"})
    unlink(file(name).c_str());
  write_file(file("F"), kContent);
  write_file(file("bad"), "this is no key");
}
std::string bytes_of_key(const Script&, int n, bool priv) { return priv ? key(n).priv : key(n).pub; }

void check_terminal(const vf::Dialogue& d, const std::set<size_t>& secret, const std::string& text) {
  bool on = true;
  for (size_t i = 0; i < d.said.size(); ++i) {
    for (size_t at = 0; (at = d.said[i].find('\x03', at)) != std::string::npos; ++at)
      on = d.said[i][at + 1] == '+';
    const bool hidden = secret.count(i) != 0 && i < d.lines_read;
    VF_CHECK(hidden || on || i + 1 < d.said.size() || i < d.lines_read, "the terminal's echo is still off when the tool has ended" << text);
    if (i < d.lines_read && i + 1 < d.said.size())
      VF_CHECK(on == !hidden, "line " << i << " is " << (hidden ? "a password, and is shown while it is entered" : "not shown while it is entered")<< text);
  }
  VF_CHECK(on, "the terminal's echo is still off when the tool has ended" << text);
}

std::string report_of(const vf::Dialogue& d, const Script::Report& r) { return plain(d.after(r.line), names()); }

void check_reports(const Script& s, const vf::Dialogue& d);

vf::Dialogue check(const Script& s, bool reports = true) {
  const vf::Dialogue d = vf::talk(s.lines, the_tool);
  VF_CHECK(!d.endless, "the tool keeps on asking after the end of its input" << s.text());
  VF_CHECK(d.returned, "the tool " << d.child.how() << s.text());
  VF_CHECK(d.lines_read == s.lines.size(), "the tool ended after reading " << d.lines_read << " of " << s.lines.size() << " lines" << s.text());
  check_terminal(d, s.secret, s.text());
  if (reports)
    check_reports(s, d);
  vf::transitions += s.lines.size();
  ++vf::histories;
  return d;
}

void check_files(const Model& m, const std::string& text) {
  VF_CHECK(exists(file("P")) == m.has_p && (!m.has_p || read_file(file("P")) == key(m.p).priv), "the saved private key is not the one the tool held" << text);
  VF_CHECK(exists(file("Q")) == m.has_q && (!m.has_q || read_file(file("Q")) == key(m.q).pub), "the saved public key is not the one the tool held" << text);
  VF_CHECK(exists(file("F.sig")) == m.has_sig, (m.has_sig ? "there is no signature" : "there is a signature though nothing was signed") << text);
  if (m.layers.empty()) {
    VF_CHECK(read_file(file("F")) == kContent, "the file holds " << vf::show(read_file(file("F"))) << " instead of " << kContent << text);
  } else {
    std::map<std::string, int> times;
    bool twice = true;  // every password was used an even number of times
    for (const auto& l : m.layers)
      ++times[l];
    for (const auto& t : times)
      twice = twice && t.second % 2 == 0;
    const bool shows = read_file(file("F")).find("the file") != std::string::npos;
    if (shows && twice)
      VF_FINDING("encrypted-twice-with-the-same-password", !shows, "a file encrypted twice with the same password shows what it says" << text);
    else
      VF_CHECK(!shows, "the encrypted file shows what it says" << text);
  }
}

// What the reports look like when it is done
const std::string& success(Kind kind) {
  static std::string texts[kKinds];
  if (texts[kLoadPrivate].empty()) {
    key(1);
    clean_up();
    Script s;
    s.load_private(1);
    s.load_public(1);
    s.save_private();
    s.save_public();
    s.sign();
    s.validate();
    s.encrypt("abc");
    s.decrypt("abc");
    s.leave();
    const vf::Dialogue d = check(s, false);
    check_files(s.m, s.text());
    VF_CHECK(asymm::CheckFileSignature(file("F"), asymm::Signature(read_file(file("F.sig"))), key(1).keys.public_key), "the signature written is not valid");
    for (const auto& r : s.reports)
      texts[r.kind] = report_of(d, r);
  }
  return texts[kind];
}
// a report of success without the key's own bytes
bool same_report(Kind kind, std::string a, std::string b) {
  if (kind == kLoadPublic) {  // shows the key
    const auto strip = [](std::string& s) {
      std::string r, word;
      for (char c : s + " ") {
        if (isxdigit(static_cast<unsigned char>(c))) {
          word += c;
          continue;
        }
        if (word.size() < 100)
          r += word;
        word.clear();
        r += c;
      }
      s = r;
    };
    strip(a);
    strip(b);
  }
  return a == b;
}
void check_reports(const Script& s, const vf::Dialogue& d) {
  for (const auto& r : s.reports) {
    if (r.kind >= kSignIn)
      continue;
    const std::string said = report_of(d, r);
    const bool as_done = same_report(r.kind, said, success(r.kind));
    VF_CHECK(as_done == r.done, "line " << r.line << ": what was asked for can" << (r.done ? "" : "not") << " be done, but the tool says " << vf::show(said) << s.text(r.line + 1));
  }
}

// --- histories ---
typedef void (*Op)(Script&);
const Op kOps[] = {
    [](Script& s) { s.load_private(1); }, [](Script& s) { s.load_public(1); },
    [](Script& s) { s.load_private(2); }, [](Script& s) { s.load_public(2); },
    [](Script& s) { s.load_private(0); }, [](Script& s) { s.load_public(0); },
    [](Script& s) { s.sign(); },          [](Script& s) { s.validate(); },
    [](Script& s) { s.encrypt("abc"); },  [](Script& s) { s.encrypt("abd"); },
    [](Script& s) { s.decrypt("abc"); },  [](Script& s) { s.decrypt("abd"); },
    [](Script& s) { s.save_private(); },
};
const int kOpCount = sizeof(kOps) / sizeof(kOps[0]);

void histories() {
  const int depth = vf::thorough ? 4 : 3;
  int64_t count = 1;
  for (int i = 0; i < depth; ++i)
    count *= kOpCount;
  for (int64_t n = 0; n < count; ++n) {
    if (!vf::take())
      continue;
    key(1);
    key(2);
    success(kSign);
    clean_up();
    Script s;
    int64_t r = n;
    for (int i = 0; i < depth; ++i, r /= kOpCount) {
      kOps[r % kOpCount](s);
      vf::state(vf::hash_str(std::to_string(s.m.priv) + std::to_string(s.m.pub) + std::to_string(s.m.p) + std::to_string(s.m.sig_key) + std::to_string(s.m.layers.size()) +
                             (s.m.layers.empty() ? "" : s.m.layers.back())));
    }
    s.save_private();
    s.save_public();
    s.validate();
    s.sign();
    s.validate();
    const size_t before = s.m.layers.size();
    if (n % 2 == 0) {
      while (!s.m.layers.empty())
        s.decrypt(Lines(s.m.layers).back());
    }
    s.leave();
    check(s);
    check_files(s.m, s.text());
    if (s.m.has_sig && s.m.sig_layers == s.m.layers)
      VF_CHECK(asymm::CheckFileSignature(file("F"), asymm::Signature(read_file(file("F.sig"))), key(s.m.sig_key).keys.public_key), "the signature written is not valid" << s.text());
    vf::outcome(vf::hash_str(std::to_string(s.m.priv) + std::to_string(s.m.pub) + std::to_string(s.m.sig_key) + std::to_string(before)));
  }
}

void created() {
  for (int kind = 0; kind < (vf::thorough ? 24 : 8); ++kind) {
    if (!vf::take())
      continue;
    clean_up();
    for (const char* name : {"P2", "Q2"})
      unlink(file(name).c_str());
    Script s;
    const auto lines = [&s](std::initializer_list<std::string> all) {
      for (const auto& l : all)
        s.say(l);
    };
    if (kind & 1)
      lines({"1"});
    if (kind & 2)
      lines({"4", file("bad")});
    lines({"1", "2", file("P"), "3", file("Q"), "8", file("F"), "9", file("F")});
    const size_t validated = s.lines.size() - 1;
    if (kind & 4)
      lines({"1"});
    lines({"2", file("P2"), "3", file("Q2"), "0"});
    const vf::Dialogue d = check(s);
    VF_CHECK(plain(d.after(validated), names()) == success(kValidate), "a signature made with a created key is not valid with it");
    clean_up();
    // what has been saved can be loaded
    asymm::PrivateKey priv[2];
    asymm::PublicKey pub[2];
    const std::string suffix[2] = {"", "2"};
    write_file(file("P"), "");
    Script again;
    // (saved files were removed by clean_up: written again by a second dialogue)
    again.say("1");
    again.say("2");
    again.say(file("P"));
    again.say("3");
    again.say(file("Q"));
    again.say("4");
    again.say(file("P"));
    again.reports.push_back({again.lines.size() - 1, kLoadPrivate, true});
    again.say("5");
    again.say(file("Q"));
    again.reports.push_back({again.lines.size() - 1, kLoadPublic, true});
    again.say("8");
    again.say(file("F"));
    again.reports.push_back({again.lines.size() - 1, kSign, true});
    again.say("9");
    again.say(file("F"));
    again.reports.push_back({again.lines.size() - 1, kValidate, true});
    again.leave();
    check(again);
    int i = 0;
    for (const auto& name : suffix) {
      const std::string p = read_file(file("P" + name)), q = read_file(file("Q" + name));
      priv[i] = asymm::DecodeKey(asymm::EncodedPrivateKey(p));
      pub[i] = asymm::DecodeKey(asymm::EncodedPublicKey(q));
      VF_CHECK(asymm::ValidateKey(priv[i]) && asymm::ValidateKey(pub[i]), "saved keys are not valid");
      const asymm::PlainText text(std::string("text"));
      VF_CHECK(asymm::CheckSignature(text, asymm::Sign(text, priv[i]), pub[i]), "saved keys are not a pair");
      ++i;
    }
    VF_CHECK(!asymm::MatchingKeys(priv[0], priv[1]), "different dialogues create the same key");
    vf::outcome(static_cast<uint64_t>(kind));
  }
}

// --- encryption ---
std::string nth(const std::string& name, size_t n) { return file(name + std::to_string(n)); }

void contents() {
  std::vector<std::string> all;
  for (size_t n = 1; n <= (vf::thorough ? 300u : 70u); ++n)
    all.push_back(std::string(n, 'x'));
  for (size_t n : {255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1})
    all.push_back(std::string(n, 'y'));
  for (int c = 0; c < 256; ++c)
    all.push_back(std::string(1, static_cast<char>(c)));
  const size_t kAtOnce = 32;
  for (size_t start = 0; start < all.size(); start += kAtOnce) {
    if (!vf::take())
      continue;
    const size_t end = std::min(all.size(), start + kAtOnce);
    Script s;
    Lines files;
    for (size_t i = start; i < end; ++i) {
      write_file(nth("C", i), all[i]);
      files.push_back(nth("C", i));
      s.say("10");
      s.say(nth("C", i));
      s.password("a password");
      s.password("a password");
      if (i % 2 == 0)
        continue;
      s.say("11");
      s.say(nth("C", i));
      s.password("a password");
      s.password("a password");
    }
    s.leave();
    check(s);
    Script back;
    for (size_t i = start; i < end; ++i) {
      if (i % 2) {
        VF_CHECK(read_file(nth("C", i)) == all[i], "a file of " << all[i].size() << " bytes is different after it was encrypted and decrypted");
        continue;
      }
      VF_CHECK(all[i].size() < 8 || read_file(nth("C", i)).find(all[i].substr(0, 8)) == std::string::npos, "an encrypted file of " << all[i].size() << " bytes shows what it says");
      back.say("11");
      back.say(nth("C", i));
      back.password("a password");
      back.password("a password");
    }
    back.leave();
    check(back);
    for (size_t i = start; i < end; ++i) {
      VF_CHECK(read_file(nth("C", i)) == all[i], "a file of " << all[i].size() << " bytes is different after it was encrypted and decrypted by another run");
      unlink(nth("C", i).c_str());
      vf::outcome(vf::hash_str(all[i]));
    }
  }
}

// a file decrypts with its password, and with no other
void passwords() {
  Lines all = {"a", "b", "A", "aa", "a a", "a b", "a  a", "a\ta", "aa aa", "pass", "pass word", "pass words", "password", "pass word 2", "0", "1", "00", "0 0", "7up", "-1", "1e5",
               "0x10", "\"a\"", "a\"", "'a'", "a\\", "a'b", "~", "/", "..", "\xff", "\xfe", "\xc3\xa4", std::string(15, 'x'), std::string(16, 'x'), std::string(64, 'x'), std::string(65, 'x'),
               std::string(1000, 'x'), std::string(999, 'x'), std::string(999, 'x') + "y", "a very long sentence with quite a few words", "a very long sentence with quite a few worms"};
  for (int c = 33; c < 256; ++c)
    all.push_back(std::string(1, static_cast<char>(c)) + "|");
  for (size_t i = 0; i < all.size(); ++i) {
    if (!vf::take())
      continue;
    clean_up();
    Script s;
    s.encrypt(all[i]);
    for (const auto& other : all) {
      if (other != all[i])
        s.decrypt(other);
    }
    s.decrypt(all[i]);
    s.leave();
    check(s);
    check_files(s.m, s.text());
    vf::outcome(vf::hash_str(all[i]));
  }
}

// the password has to be entered twice: asked for again until both are the same
void repeated() {
  const int entries = vf::thorough ? 8 : 6;
  for (int n = 0; n < (1 << entries); ++n) {
    for (int decrypting = 0; decrypting < 2; ++decrypting) {
      if (!vf::take())
        continue;
      clean_up();
      Script s;
      if (decrypting)
        s.encrypt("two");
      s.say(decrypting ? "11" : "10");
      s.say(file("F"));
      bool same = false;
      std::string chosen;
      for (int i = 0; i + 1 < entries && !same; i += 2) {
        const std::string first = n >> i & 1 ? "one" : "two", second = n >> (i + 1) & 1 ? "one" : "two";
        s.password(first);
        s.password(second);
        chosen = first;
        same = first == second;
      }
      if (!same) {
        s.password("two");
        s.password("two");
        chosen = "two";
      }
      if (decrypting) {
        if (chosen == "two")
          s.m.layers.pop_back();
        s.did(kDecrypt, chosen == "two");
        if (!s.m.layers.empty())
          s.decrypt("two");
      } else {
        s.m.layers.push_back(chosen);
        s.did(kEncrypt, true);
        s.decrypt(chosen == "one" ? "two" : "one");
        s.decrypt(chosen);
      }
      s.leave();
      check(s);
      check_files(s.m, s.text());
      vf::outcome(static_cast<uint64_t>(n * 2 + decrypting));
    }
  }
}

void run_damaged(Kind kind, const std::vector<std::pair<std::string, std::string>>& all, const std::string& what) {
  // pairs of file and signature; none of them is to be taken
  const size_t kAtOnce = 48;
  for (size_t start = 0; start < all.size(); start += kAtOnce) {
    if (!vf::take())
      continue;
    key(1);
    const std::string good = success(kind);
    const size_t end = std::min(all.size(), start + kAtOnce);
    Script s;
    std::vector<std::pair<size_t, std::string>> at;
    if (kind == kValidate)
      s.load_public(1);
    for (size_t i = start; i < end; ++i) {
      const std::string name = nth("D", i);
      write_file(name, all[i].first);
      write_file(name + ".sig", all[i].second);
      s.say(kind == kValidate ? "9" : "11");
      s.say(name);
      if (kind == kDecrypt) {
        s.password("abc");
        s.password("abc");
      }
      at.push_back({s.lines.size() - 1, name});
    }
    s.leave();
    const vf::Dialogue d = check(s);
    for (size_t i = start; i < end; ++i) {
      const auto& a = at[i - start];
      VF_CHECK(plain(d.after(a.first), {a.second}) != good, what << " was changed, but the tool takes it: " << vf::show(all[i].first.substr(0, 300)) << " " << vf::show(all[i].second.substr(0, 300)));
      VF_CHECK(read_file(a.second) == all[i].first, "the file that was not decrypted has changed");
      unlink(a.second.c_str());
      unlink((a.second + ".sig").c_str());
      vf::outcome(vf::hash_str(all[i].first + all[i].second));
    }
  }
}
std::vector<std::string> damages(const std::string& s, int bits) {
  std::vector<std::string> all;
  for (size_t i = 0; i < s.size(); ++i) {
    for (int bit = 0; bit < bits; ++bit) {
      all.push_back(s);
      all.back()[i] = static_cast<char>(all.back()[i] ^ (1 << (bits == 1 ? static_cast<int>(i % 8) : bit)));
    }
    all.push_back(s.substr(0, i));
    if (i > 0)
      all.push_back(s.substr(i));
  }
  for (int c : {0, 1, 255})
    all.push_back(s + static_cast<char>(c));
  return all;
}

void damaged_files() {
  clean_up();
  Script s;
  s.encrypt("abc");
  s.leave();
  check(s, false);
  const std::string encrypted = read_file(file("F"));
  std::vector<std::pair<std::string, std::string>> all;
  for (const auto& d : damages(encrypted, 8))
    all.push_back({d, ""});
  all.push_back({kContent, ""});
  run_damaged(kDecrypt, all, "the encrypted file");
}

void damaged_signatures() {
  key(1);
  clean_up();
  Script s;
  s.load_private(1);
  s.sign();
  s.leave();
  check(s, false);
  // every process makes a signature of its own, but damages it in the same places
  const std::string signature = read_file(file("F.sig"));
  std::vector<std::pair<std::string, std::string>> all;
  for (const auto& d : damages(signature, vf::thorough ? 8 : 1))
    all.push_back({kContent, d});
  for (const auto& d : damages(kContent, 8))
    all.push_back({d, signature});
  run_damaged(kValidate, all, "the file or its signature");
}

// files that hold damaged keys are loaded as the keys they are, or reported and nothing changes
void damaged_keys() {
  for (int priv = 0; priv < 2; ++priv) {
    for (size_t i = 0; i < (priv ? 1250 : 300); i += (vf::thorough ? 1 : priv ? 17 : 5)) {
      for (int how = 0; how < 3; ++how) {
        if (!vf::take())
          continue;
        key(1);
        key(2);
        std::string bytes = priv ? key(1).priv : key(1).pub;
        const size_t size = bytes.size();
        if (i >= size)
          continue;
        if (how == 0)
          bytes[i] = static_cast<char>(bytes[i] ^ (1 << (i % 8)));
        else if (how == 1)
          bytes = bytes.substr(0, i);
        else
          bytes = bytes.substr(0, i) + bytes.substr(i + 1);
        clean_up();
        write_file(file("bad"), bytes);
        Script s;
        s.load_private(2);
        s.load_public(2);
        s.say(priv ? "4" : "5");
        s.say(file("bad"));
        const size_t line = s.lines.size() - 1;
        s.say("2");
        s.say(file("P"));
        s.say("3");
        s.say(file("Q"));
        s.leave();
        const vf::Dialogue d = check(s);
        const bool loaded = same_report(priv ? kLoadPrivate : kLoadPublic, plain(d.after(line), names()), success(priv ? kLoadPrivate : kLoadPublic));
        const std::string saved = read_file(file(priv ? "P" : "Q")), other = read_file(file(priv ? "Q" : "P"));
        VF_CHECK(other == (priv ? key(2).pub : key(2).priv), "loading one key changed the other");
        if (!loaded) {
          VF_CHECK(saved == (priv ? key(2).priv : key(2).pub), "a file that holds no valid key was reported, but changed the key");
        } else {
          VF_CHECK(!priv || bytes == key(1).priv || saved != key(2).priv, "a key is said to have been loaded, but was not");
          VF_CHECK(how != 1 || i + 1 >= size, "a key cut short is loaded");
          if (priv)
            VF_CHECK(asymm::ValidateKey(asymm::DecodeKey(asymm::EncodedPrivateKey(saved))), "an invalid private key was taken for a valid one");
        }
        vf::outcome(vf::hash_str(std::to_string(i) + (loaded ? "+" : "-") + std::to_string(how)));
      }
    }
  }
}

// --- what is entered ---
// choices that are none, empty answers: asked again, and passwords are never shown
void answers() {
  const Lines no_choice = {"", " ", "x", "?", "-", "y", "abc", "12", "13", "99", "-1", "-11", "2147483647", "\t", "\xff"};
  const Lines no_word = {"", " ", "\t ", "  "};
  for (size_t n = 0; n < no_choice.size() * no_word.size() * 64; ++n) {
    if (!vf::take())
      continue;
    const std::string choice = no_choice[n % no_choice.size()];
    const std::string word = no_word[n / no_choice.size() % no_word.size()];
    const size_t where = n / no_choice.size() / no_word.size();
    key(1);
    clean_up();
    Script s;
    const auto nothing = [&](size_t bit, bool secret) {
      if (where >> bit & 1)
        secret ? s.password(word) : s.say(word);
    };
    for (int encrypting = 1; encrypting >= 0; --encrypting) {
      if (where & 1)
        s.say(choice);
      s.say(encrypting ? "10" : "11");
      nothing(1, false);
      s.say(file("F"));
      nothing(2, true);
      s.password("secret");
      nothing(3, true);
      s.password(where & 16 ? "secrets" : "secret");
      if (where & 16) {
        nothing(2, true);
        s.password("secret");
        nothing(5, true);
        s.password("secret");
      }
      if (encrypting)
        s.m.layers.push_back("secret");
      else
        s.m.layers.pop_back();
      s.did(encrypting ? kEncrypt : kDecrypt, true);
      if (where & 32)
        s.say(choice);
    }
    s.load_private(1);
    s.leave();
    check(s);
    check_files(s.m, s.text());
    vf::outcome(n);
  }
}

// names of files may be anything
void file_names() {
  Lines all = {"a", "a b", "a  b", "two words.txt", "a\tb", "-x", "1", "a,b", "a'b", "a\"b", "a;b", "a&b", "a$b", "\xc3\xa4", "a.sig", std::string(200, 'n')};
  for (const auto& name : all) {
    if (!vf::take())
      continue;
    key(1);
    success(kSign);
    clean_up();
    mkdir(file("names").c_str(), 0777);
    const std::string path = file("names/" + name);
    write_file(path, kContent);
    Script s;
    std::vector<std::pair<size_t, Kind>> at;
    const auto did = [&](Kind kind) { at.push_back({s.lines.size() - 1, kind}); };
    s.load_private(1);
    s.load_public(1);
    s.say("8");
    s.say(path);
    did(kSign);
    s.say("9");
    s.say(path);
    did(kValidate);
    for (int i = 0; i < 2; ++i) {
      s.say(i ? "11" : "10");
      s.say(path);
      s.password("x");
      s.password("x");
      did(i ? kDecrypt : kEncrypt);
    }
    s.say("2");
    s.say(path);
    did(kSavePrivate);
    s.say("4");
    s.say(path);
    did(kLoadPrivate);
    s.leave();
    const vf::Dialogue d = check(s);
    for (const auto& a : at) {
      const std::string said = plain(d.after(a.first), {path});
      // (names may be shown in quotes, with escapes)
      VF_CHECK(said == success(a.second) || name.find_first_of("\"& $\t") != std::string::npos, "a file called " << vf::show(name) << ": the tool says " << vf::show(said));
    }
    VF_CHECK(read_file(path) == key(1).priv, "a key was not saved to " << vf::show(name));
    VF_CHECK(exists(path + ".sig"), "a file called " << vf::show(name) << " was not signed");
    VF_CHECK(unlink((path + ".sig").c_str()) == 0 && unlink(path.c_str()) == 0 && rmdir(file("names").c_str()) == 0, "files called " << vf::show(name) << " have been left");
    vf::outcome(vf::hash_str(name));
  }
}

// files that are not there, or not files: reported, and nothing changes
void no_files() {
  const Lines paths = {file("absent"), file("absent/x"), file("."), vf::scratch, file("empty"), file("F/x")};
  for (const auto& path : paths) {
    for (int command : {2, 3, 4, 5, 8, 9, 10, 11}) {
      for (int keys = 0; keys < 2; ++keys) {
        if ((command == 2 || command == 3) && (path == file("absent") || path == file("empty")))
          continue;
        if (command == 8 && path == file("empty"))
          continue;  // an empty file can be signed
        if (!vf::take())
          continue;
        key(1);
        clean_up();
        write_file(file("empty"), "");
        if (command == 9)
          write_file(file("empty.sig"), "");
        Script s;
        if (keys) {
          s.load_private(1);
          s.load_public(1);
        }
        s.say(std::to_string(command));
        s.say(path);
        if (command >= 10) {
          s.password("abc");
          s.password("abc");
        }
        const size_t line = s.lines.size() - 1;
        if (keys) {
          s.save_private();
          s.save_public();
          s.sign();
          s.validate();
        }
        s.encrypt("abc");
        s.decrypt("abc");
        s.leave();
        const vf::Dialogue d = check(s);
        check_files(s.m, s.text());
        const Kind kinds[12] = {kKinds, kKinds, kSavePrivate, kSavePublic, kLoadPrivate, kLoadPublic, kKinds, kKinds, kSign, kValidate, kEncrypt, kDecrypt};
        VF_CHECK(plain(d.after(line), {path}) != success(kinds[command]), "nothing can be done with " << path << ", but the tool says " << vf::show(d.after(line)) << s.text());
        VF_CHECK(read_file(file("empty")).empty() && !exists(file("absent")), "files have come up" << s.text());
        unlink(file("empty").c_str());
        unlink(file("empty.sig").c_str());
        vf::outcome(vf::hash_str(s.text()));
      }
    }
  }
}

// --- groups ---
const Lines kMembers = {"Ann", "Bob", "Carol Smith", "Dan"};
std::string secret_of(const std::string& name) { return "I am " + name; }

void remove_group() {
  for (const auto& m : kMembers)
    unlink((file("group-") + m + ".keyfile").c_str());
  unlink(file("group.pub").c_str());
}
void form_group(Script& s, int total, int needed) {
  s.say("6");
  s.say(std::to_string(total));
  s.say(std::to_string(needed));
  s.say(file("group-"));
  for (int i = 0; i < total; ++i) {
    s.say(kMembers[i]);
    s.password(secret_of(kMembers[i]));
    s.password(secret_of(kMembers[i]));
  }
  s.say(file("group.pub"));
}

// Who signs in how: member * 3 + (0 right, 1 wrong password, 2 unknown name first)
struct SignIn {
  Script s;
  size_t line = 0;
  bool possible = true, repeats = false;
};
SignIn sign_in(const std::vector<int>& who, int needed) {
  SignIn in;
  Script& s = in.s;
  s.say("7");
  s.say(std::to_string(who.size()));
  s.say(file("group-"));
  std::set<int> members;
  for (int w : who) {
    const int member = w / 3, how = w % 3;
    if (how == 2) {
      s.say("Mallory");
      s.password("I am Ann");
      s.password("I am Ann");
    }
    s.say(kMembers[member]);
    const std::string p = how == 1 ? secret_of(kMembers[member]) + "!" : secret_of(kMembers[member]);
    s.password(p);
    s.password(p);
    if (how == 1) {
      in.possible = false;
      break;
    }
    in.repeats |= !members.insert(member).second;
  }
  in.line = s.lines.size() - 1;
  if (static_cast<int>(members.size()) < needed)
    in.possible = false;
  return in;
}

void groups() {
  for (int total = 3; total <= 4; ++total) {
    for (int needed = 2; needed <= total; ++needed) {
      // formed in every process once, with the key the tool had loaded
      std::map<std::string, std::string> files;
      const auto form = [&] {
        if (!files.empty()) {
          for (const auto& f : files)
            write_file(f.first, f.second);
          return;
        }
        key(1);
        clean_up();
        Script s;
        s.load_private(1);
        s.load_public(1);
        form_group(s, total, needed);
        s.leave();
        check(s);
        VF_CHECK(read_file(file("group.pub")) == key(1).pub, "the group's public key is another one than had been loaded");
        for (int i = 0; i < total; ++i) {
          const std::string name = file("group-") + kMembers[i] + ".keyfile";
          VF_CHECK(exists(name), "there is no key file for " << kMembers[i]);
          files[name] = read_file(name);
          for (size_t at = 0; at + 16 <= key(1).priv.size(); at += 16)
            VF_CHECK(files[name].find(key(1).priv.substr(at, 16)) == std::string::npos, "a member's file shows the private key");
        }
      };
      for (int length = 1; length <= total; ++length) {
        int64_t count = 1;
        for (int i = 0; i < length; ++i)
          count *= total * 3;
        for (int64_t n = 0; n < count; ++n) {
          std::vector<int> who;
          int64_t r = n;
          int unusual = 0;
          for (int i = 0; i < length; ++i, r /= total * 3) {
            who.push_back(static_cast<int>(r % (total * 3)));
            unusual += who.back() % 3 != 0;
          }
          if (unusual > (total == 4 ? 0 : 1) + (vf::thorough ? 1 : 0))
            continue;
          if (!vf::take())
            continue;
          form();
          clean_up();
          SignIn in = sign_in(who, needed);
          if (in.repeats && in.possible)
            continue;  // enough members, but some of them twice: may work or not
          Script& s = in.s;
          const bool first = n % 2 == 0;  // the tool had another key before
          if (first) {
            Script before;
            key(2);
            before.load_private(2);
            before.load_public(2);
            std::set<size_t> secret;
            for (size_t l : s.secret)
              secret.insert(l + before.lines.size());
            in.line += before.lines.size();
            s.lines.insert(s.lines.begin(), before.lines.begin(), before.lines.end());
            s.secret = secret;
          }
          if (in.possible)
            s.say("2");  // the group's key is not to be saved
          s.say("8");
          s.say(file("F"));
          s.leave();
          check(s);
          const int by = in.possible ? 1 : first ? 2 : 0;
          VF_CHECK(exists(file("F.sig")) == (by != 0), (by ? "the key does not sign" : "a file was signed without enough members") << s.text());
          if (by)
            VF_CHECK(asymm::CheckFileSignature(file("F"), asymm::Signature(read_file(file("F.sig"))), key(by).keys.public_key),
                     "the file was not signed with the key the tool had to have: " << (by == 1 ? "the group's" : "that from before") << s.text());
          VF_CHECK(!exists(file("8")) && !exists(file("P")), "the group's private key was saved" << s.text());
          vf::outcome(vf::hash_str(std::to_string(total) + std::to_string(needed) + std::to_string(length) + "," + std::to_string(n)));
        }
      }
      remove_group();
    }
  }
}

// numbers that make no group, names used twice, files that cannot be written
void forming() {
  for (int total = -1; total <= 4; ++total) {
    for (int needed = -1; needed <= 5; ++needed) {
      for (int kind = 0; kind < 2; ++kind) {
        const bool possible = needed >= 2 && total >= needed;
        if (possible && total < 3)
          continue;  // too small for the way keys are shared
        if ((possible && total > 3) || !vf::take())
          continue;
        key(1);
        success(kSign);
        clean_up();
        remove_group();
        Script s;
        if (kind) {
          s.load_private(1);
          s.load_public(1);
        }
        s.say("6");
        s.say(std::to_string(total));
        s.say(std::to_string(needed));
        if (possible) {
          s.say(file("group-"));
          for (int i = 0; i < total; ++i) {
            if (i == 1) {
              for (const char* name : {"Ann", "x/y"}) {  // has been used; cannot be written
                s.say(name);
                s.password("another");
                s.password("another");
              }
            }
            s.say(kMembers[i]);
            s.password(secret_of(kMembers[i]));
            s.password(secret_of(kMembers[i]));
          }
          s.say(file("group.pub"));
        }
        s.sign();
        s.reports.pop_back();
        s.leave();
        check(s);
        VF_CHECK(exists(file("group.pub")) == possible, (possible ? "the group has no public key" : "a group of the impossible was made") << s.text());
        VF_CHECK(exists(file("group-Ann.keyfile")) == possible, (possible ? "a member has no file" : "a group of the impossible was made") << s.text());
        VF_CHECK(exists(file("F.sig")) == (possible || kind), "the key does not sign" << s.text());
        if (possible) {
          const asymm::PublicKey pub = asymm::DecodeKey(asymm::EncodedPublicKey(read_file(file("group.pub"))));
          std::vector<int> who;
          for (int i = 0; i < needed; ++i)
            who.push_back(i * 3);
          SignIn in = sign_in(who, needed);
          in.s.say("8");
          in.s.say(file("F"));
          in.s.leave();
          unlink(file("F.sig").c_str());
          check(in.s);
          VF_CHECK(exists(file("F.sig")) && asymm::CheckFileSignature(file("F"), asymm::Signature(read_file(file("F.sig"))), pub), "the group cannot sign" << s.text());
        }
        remove_group();
        vf::outcome(static_cast<uint64_t>((total + 1) * 20 + (needed + 1) * 2 + kind));
      }
    }
  }
}

// --- the end of the input, at every point: what was not asked for to the end is not done ---
void ends() {
  for (int which = 0; which < kOpCount * kOpCount; ++which) {
    Script whole;
    kOps[which % kOpCount](whole);
    if (which % kOpCount == 10)
      whole = Script(), whole.encrypt("abc"), whole.decrypt("abc");
    kOps[which / kOpCount](whole);
    for (size_t cut = 0; cut <= whole.lines.size(); ++cut) {
      for (int newline = 0; newline < 2; ++newline) {
        if (!vf::take())
          continue;
        key(1);
        key(2);
        clean_up();
        const Lines lines(whole.lines.begin(), whole.lines.begin() + static_cast<ptrdiff_t>(cut));
        std::string text;
        for (const auto& l : lines)
          text += " | " + vf::show(l);
        const vf::Dialogue d = vf::talk(lines, the_tool, newline != 0);
        VF_CHECK(!d.endless, "the tool keeps on asking after the end of its input" << text);
        VF_CHECK(d.returned, "the tool " << d.child.how() << " at the end of its input" << text);
        bool on = true;
        for (const auto& said : d.said) {
          for (size_t at = 0; (at = said.find('\x03', at)) != std::string::npos; ++at)
            on = said[at + 1] == '+';
        }
        VF_CHECK(on, "the terminal's echo is still off when the tool has ended" << text);
        Model expected;
        for (const auto& done : whole.done_at) {
          if (done.first <= cut)
            expected = done.second;
        }
        check_files(expected, " (end of input)" + text);
        vf::outcome(vf::hash_str(text));
        ++vf::histories;
        vf::transitions += cut + 1;
      }
    }
  }
}
void ends_of_groups() {
  for (int kind = 0; kind < 2; ++kind) {
    Script whole;
    key(1);
    whole.load_private(1);
    whole.load_public(1);
    form_group(whole, 3, 2);
    if (kind) {
      const SignIn in = sign_in({0, 3 + 2}, 2);
      whole.lines.insert(whole.lines.end(), in.s.lines.begin(), in.s.lines.end());
    }
    for (size_t cut = kind ? 18 : 0; cut <= whole.lines.size(); ++cut) {
      for (int newline = 0; newline < 2; ++newline) {
        if (!vf::take())
          continue;
        key(1);
        clean_up();
        remove_group();
        const Lines lines(whole.lines.begin(), whole.lines.begin() + static_cast<ptrdiff_t>(cut));
        const vf::Dialogue d = vf::talk(lines, the_tool, newline != 0);
        VF_CHECK(!d.endless, "the tool keeps on asking after the end of its input, line " << cut << " of a group");
        VF_CHECK(d.returned, "the tool " << d.child.how() << " at the end of its input, line " << cut << " of a group");
        VF_CHECK(exists(file("group.pub")) == (cut >= 18), "the group's public key is there at line " << cut);
        for (int i = 0; i < 3; ++i)
          VF_CHECK(exists(file("group-") + kMembers[i] + ".keyfile") == (cut >= 11u + static_cast<size_t>(i) * 3), "a member's file: " << kMembers[i] << " at line " << cut << "/" << newline);
        VF_CHECK(!exists(file("group-.keyfile")), "a member without a name has a file");
        remove_group();
        vf::outcome(cut * 4 + static_cast<size_t>(newline * 2 + kind));
      }
    }
  }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"histories", histories}, {"created", created}, {"contents", contents}, {"passwords", passwords}, {"repeated", repeated},
                              {"damaged files", damaged_files}, {"damaged signatures", damaged_signatures}, {"damaged keys", damaged_keys}, {"answers", answers},
                              {"file names", file_names}, {"no files", no_files}, {"groups", groups}, {"forming", forming}, {"ends", ends}, {"ends of groups", ends_of_groups}});
}

// C40: the tool that edits bootstrap files, for every dialogue of the listed bounds, against a model
// of the list it edits.
#include <signal.h>
#include <sys/resource.h>

#include <algorithm>
#include <cstdint>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#define main tool_main
#include "maidsafe/common/tools/bootstrap_file_tool.cc"  // NOLINT
#undef main

#include "common/limit_new.h"
#include "common/session.h"
#include "common/vf.h"

namespace {
typedef std::vector<std::string> List;

int the_tool() {
  char name[] = "bootstrap_file_tool", no_async[] = "--log_no_async";
  char* argv[] = {name, no_async, nullptr};
  return tool_main(2, argv);
}

std::string file(const std::string& name) { return vf::scratch + "/" + name; }
void write_file(const std::string& path, const std::string& bytes) {
  std::ofstream(path, std::ios::binary | std::ios::trunc) << bytes;
}
std::string read_file(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::ostringstream s;
  s << in.rdbuf();
  return s.str();
}

std::string serialised(const List& endpoints, const std::vector<int>* ports = nullptr) {
  maidsafe::detail::BootstrapCereal all;
  for (size_t i = 0; i < endpoints.size(); ++i) {
    all.bootstrap_contacts_.emplace_back();
    const size_t colon = endpoints[i].rfind(':');
    all.bootstrap_contacts_.back().ip_ = endpoints[i].substr(0, colon);
    all.bootstrap_contacts_.back().port_ = ports ? (*ports)[i] : atoi(endpoints[i].c_str() + colon + 1);
  }
  const maidsafe::SerialisedData s(maidsafe::Serialise(all));
  return std::string(s.begin(), s.end());
}

bool dotted(const std::string& s) {
  int octets = 0;
  for (size_t at = 0;;) {
    const size_t start = at;
    int value = 0;
    while (at < s.size() && s[at] >= '0' && s[at] <= '9' && at - start < 4)
      value = value * 10 + (s[at++] - '0');
    if (at == start || at - start > 3 || value > 255 || (at - start > 1 && s[start] == '0'))
      return false;
    ++octets;
    if (at == s.size())
      return octets == 4;
    if (s[at++] != '.')
      return false;
  }
}
// 1 valid, 0 invalid, -1 a matter of taste (leading zeros)
int valid_endpoint(const std::string& s) {
  const size_t colon = s.find(':');
  if (colon == std::string::npos)
    return 0;
  const std::string address = s.substr(0, colon), port = s.substr(colon + 1);
  if (port.empty())
    return 0;
  long value = 0;
  for (char c : port) {
    if (c < '0' || c > '9')
      return 0;
    value = std::min(value * 10 + (c - '0'), 1000000L);
  }
  if (value < 1025 || value > 65535)
    return 0;
  if (!dotted(address)) {
    // leading zeros in an octet: taste; anything else: wrong
    std::string trimmed;
    for (size_t i = 0; i < address.size(); ++i) {
      const bool start = i == 0 || address[i - 1] == '.' || (trimmed.empty() ? true : trimmed.back() == '.');
      if (address[i] == '0' && start && i + 1 < address.size() && address[i + 1] >= '0' && address[i + 1] <= '9')
        continue;
      trimmed += address[i];
    }
    return trimmed != address && dotted(trimmed) ? -1 : 0;
  }
  if (address == "0.0.0.0")
    return 0;
  return port[0] == '0' ? -1 : 1;
}

List endpoints_in(const std::string& text) {
  List found;
  for (size_t i = 0; i < text.size();) {
    if (!isdigit(static_cast<unsigned char>(text[i]))) {
      ++i;
      continue;
    }
    size_t end = i, dots = 0;
    while (end < text.size() && (isdigit(static_cast<unsigned char>(text[end])) || (text[end] == '.' && end + 1 < text.size() && isdigit(static_cast<unsigned char>(text[end + 1]))))) {
      dots += text[end] == '.';
      ++end;
    }
    if (dots == 3 && end < text.size() && text[end] == ':') {
      size_t stop = end + 1;
      while (stop < text.size() && isdigit(static_cast<unsigned char>(text[stop])))
        ++stop;
      if (stop > end + 1)
        found.push_back(text.substr(i, stop - i));
      end = stop;
    }
    i = end;
  }
  return found;
}
std::string show(const List& l) {
  std::string s = "[";
  for (const auto& e : l)
    s += (s.size() > 1 ? " " : "") + e;
  return s + "]";
}

// The dialogue as the model expects it
struct Script {
  List lines;
  List list;
  bool dirty = false;
  std::map<std::string, List> files;        // saved by the tool or good from the beginning
  std::vector<std::pair<size_t, List>> views;
  std::vector<size_t> failures;             // lines after which a failure is to be reported
  bool over = false;

  void view() {
    lines.push_back("6");
    views.push_back({lines.size() - 1, list});
  }
  void insert(const std::string& endpoint, bool front) {
    lines.push_back(front ? "2" : "3");
    lines.push_back(endpoint);
    list.insert(front ? list.begin() : list.end(), endpoint);
    dirty = true;
  }
  void remove(const std::string& endpoint) {
    lines.push_back("4");
    lines.push_back(endpoint);
    auto itr = std::find(list.begin(), list.end(), endpoint);
    if (itr != list.end()) {
      list.erase(itr);
      dirty = true;
    }
  }
  void save(const std::string& path) {
    lines.push_back("5");
    lines.push_back(path);
    files[path] = list;
    dirty = false;
  }
  void save_fails(const std::string& path) {
    lines.push_back("5");
    lines.push_back(path);
    failures.push_back(lines.size() - 1);
  }
  // the answer is given only if the tool has to ask
  void load(const std::string& path, const std::string& answer) {
    lines.push_back("1");
    lines.push_back(path);
    if (dirty) {
      lines.push_back(answer);
      if (answer != "y" && answer != "Y")
        return;
    }
    auto itr = files.find(path);
    if (itr == files.end() || itr->second.empty()) {
      failures.push_back(lines.size() - 1);
      return;
    }
    list = itr->second;
    dirty = false;
  }
  void leave(const std::string& answer) {
    lines.push_back("7");
    if (dirty) {
      lines.push_back(answer);
      if (answer != "y" && answer != "Y")
        return;
    }
    over = true;
  }
  std::string text(size_t upto = SIZE_MAX) const {
    std::string s;
    upto = std::min(upto, lines.size());
    for (size_t i = upto > 20 ? upto - 20 : 0; i < upto; ++i)
      s += " | " + vf::show(lines[i]);
    return s;
  }
};

vf::Dialogue check(const Script& s, const std::function<void()>& prepare = nullptr) {
  const vf::Dialogue d = vf::talk(s.lines, [&] {
    if (prepare)
      prepare();
    return the_tool();
  });
  VF_CHECK(!d.endless, "the tool keeps on asking after the end of its input" << s.text());
  VF_CHECK(d.returned, "the tool " << d.child.how() << s.text());
  VF_CHECK(d.code == 0, "the tool returned " << d.code << s.text());
  VF_CHECK(d.lines_read == s.lines.size(), "the tool ended after reading " << d.lines_read << " of " << s.lines.size() << " lines" << s.text());
  for (const auto& v : s.views) {
    const List shown = endpoints_in(d.after(v.first));
    VF_CHECK(shown == v.second, "after line " << v.first << " the tool shows " << show(shown) << " instead of " << show(v.second) << s.text(v.first + 1));
  }
  vf::transitions += s.lines.size();
  ++vf::histories;
  return d;
}

const char kA[] = "1.2.3.4:5555", kB[] = "255.10.0.9:65535";

// --- endpoint strings ---
// Each string is offered where an endpoint is asked for; rejected strings are asked for again.
void offer(const std::vector<std::string>& strings, int where) {
  Script s;
  const std::string fallback = "9.9.9.9:9999";
  for (const auto& string : strings) {
    const int valid = valid_endpoint(string);
    if (valid < 0)
      continue;
    vf::outcome(vf::hash_str(string));
    ++vf::evaluations;
    if (where == 2) {  // asked for an endpoint to be removed
      s.insert(fallback, true);
      if (valid == 1 && string != fallback)
        s.insert(string, true);
      s.lines.push_back("4");
      s.lines.push_back(string);
      const std::string removed = valid == 1 ? string : fallback;
      if (valid != 1)
        s.lines.push_back(fallback);
      s.list.erase(std::find(s.list.begin(), s.list.end(), removed));
      s.view();
      if (!s.list.empty())
        s.remove(fallback);
    } else {
      s.lines.push_back(where == 0 ? "2" : "3");
      s.lines.push_back(string);
      std::string accepted = string;
      if (valid != 1) {
        s.lines.push_back(fallback);
        accepted = fallback;
      }
      s.list.push_back(accepted);
      s.dirty = true;
      s.view();
      s.remove(accepted);
      s.view();
    }
  }
  s.leave("y");
  check(s);
  --vf::evaluations;  // the case itself has been counted
}
void offer_all(const std::vector<std::string>& strings) {
  const size_t kAtOnce = 60;
  for (int where = 0; where < 3; ++where) {
    for (size_t i = 0; i < strings.size(); i += kAtOnce) {
      if (vf::take())
        offer(std::vector<std::string>(strings.begin() + i, strings.begin() + std::min(strings.size(), i + kAtOnce)), where);
    }
  }
}

void all_ports() {
  std::vector<std::string> strings;
  for (int port = vf::thorough ? 0 : 900; port < (vf::thorough ? 140000 : 1200); ++port)
    strings.push_back("1.2.3.4:" + std::to_string(port));
  if (!vf::thorough) {
    for (int port = 65300; port < 66700; ++port)
      strings.push_back("1.2.3.4:" + std::to_string(port));
    for (int port = 2; port < 100000; port = port + 1 + port / 50)
      strings.push_back("1.2.3.4:" + std::to_string(port));
  }
  for (int bits = 16; bits < 70; ++bits) {  // around the limits of wider types
    for (int d = -2; d <= 2; ++d) {
      for (int add : {0, 80, 5555}) {
        const __int128 v = (static_cast<__int128>(1) << bits) + d + add;
        std::string digits;
        for (__int128 r = v; r != 0; r /= 10)
          digits.insert(digits.begin(), static_cast<char>('0' + static_cast<int>(r % 10)));
        strings.push_back("1.2.3.4:" + digits);
        strings.push_back("1.2.3.4:-" + digits);
      }
    }
  }
  for (int port = 1; port < 70000; port += 997)
    strings.push_back("1.2.3.4:-" + std::to_string(port));
  offer_all(strings);
}

void all_octets() {
  std::vector<std::string> strings;
  for (int position = 0; position < 4; ++position) {
    for (int others : {0, 1, 255}) {
      for (int octet = 0; octet < 600; octet += octet < 300 ? 1 : 7) {
        std::string s;
        for (int i = 0; i < 4; ++i)
          s += (i ? "." : "") + std::to_string(i == position ? octet : others);
        strings.push_back(s + ":5483");
      }
    }
  }
  for (int parts = 0; parts < 8; ++parts) {
    std::string s;
    for (int i = 0; i < parts; ++i)
      s += (i ? ".1" : "1");
    strings.push_back(s + ":5483");
    strings.push_back(s + ".:5483");
    strings.push_back("." + s + ":5483");
  }
  for (const char* s : {"", ":", "::1", "[::1]:5483", "localhost:5483", "0x7f.0.0.1:5483", "2130706433:5483", "127.1:5483", "::ffff:1.2.3.4:5483",
                        "1.2.3.4", "1.2.3.4:", ":5483", "1.2.3.4:5483:5483", "1.2.3.4::5483", "y", "6", "123456789", "12345678:", "1.2.3.4:0x1f00", "1.2.3.4:5e3",
                        "1.2.3.4:5483.0", "1.2.3.4:+5483", "1.2.3.4: 5483", "1.2.3.4:5483 ", " 1.2.3.4:5483", "1.2.3.4 :5483", "1.2.3.4:\t5483", "1.2.3.4:5483\r",
                        "1.2.3.4:5483abc", "1.2.3.4:80abc", "1.2.3.4,5483", "1.2.3.4;5483"})
    strings.push_back(s);
  offer_all(strings);
}

// all strings one edit away from a good one (two: thorough)
void edited() {
  std::set<std::string> all;
  const std::string bytes = ".:0129 -+aZ\r\t/;,\x7f\xff";
  std::vector<std::string> good = {"1.2.3.4:1025", "10.20.30.40:5483", "255.255.255.255:65535"};
  const auto edits = [&](const std::string& s, const std::string& with, std::set<std::string>& into) {
    for (size_t i = 0; i <= s.size(); ++i) {
      if (i < s.size())
        into.insert(s.substr(0, i) + s.substr(i + 1));
      for (char c : with) {
        into.insert(s.substr(0, i) + c + s.substr(i));
        if (i < s.size())
          into.insert(s.substr(0, i) + c + s.substr(i + 1));
      }
    }
  };
  std::string any;
  for (int c = 1; c < 256; ++c)
    if (c != '\n')
      any += static_cast<char>(c);
  for (const auto& g : good)
    edits(g, vf::thorough ? any : bytes, all);
  if (vf::thorough) {
    std::set<std::string> once;
    edits(good[0], bytes, once);
    for (const auto& s : once)
      edits(s, bytes, all);
  } else {
    edits(good[1], any, all);
  }
  offer_all(std::vector<std::string>(all.begin(), all.end()));
}

// --- histories ---
void clean_up() {
  for (const char* name : {"F", "G", "bad", "absent"})
    unlink(file(name).c_str());
}

typedef void (*Op)(Script&);
const Op kOps[] = {
    [](Script& s) { s.insert(kA, false); },
    [](Script& s) { s.insert(kA, true); },
    [](Script& s) { s.insert(kB, false); },
    [](Script& s) { s.insert(kB, true); },
    [](Script& s) { s.remove(kA); },
    [](Script& s) { s.remove(kB); },
    [](Script& s) { s.save(file("F")); },
    [](Script& s) { s.save(file("G")); },
    [](Script& s) { s.files.count(file("F")) ? s.load(file("F"), "y") : s.load(file("H"), "Y"); },
    [](Script& s) { s.files.count(file("G")) ? s.load(file("G"), "n") : s.load(file("H"), "n"); },
    [](Script& s) { s.load(file("bad"), "y"); },
    [](Script& s) { s.leave("n"); },
};
const int kOpCount = sizeof(kOps) / sizeof(kOps[0]);

void histories() {
  const int depth = vf::thorough ? 5 : 4;
  write_file(file("H"), serialised({kB, "6.6.6.6:6666", kA}));
  int64_t count = 1;
  for (int i = 0; i < depth; ++i)
    count *= kOpCount;
  for (int64_t n = 0; n < count; ++n) {
    if (!vf::take())
      continue;
    clean_up();
    write_file(file("bad"), "bad");
    Script s;
    s.files[file("H")] = {kB, "6.6.6.6:6666", kA};
    int64_t r = n;
    for (int i = 0; i < depth && !s.over; ++i, r /= kOpCount) {
      kOps[r % kOpCount](s);
      if (!s.over)
        s.view();
      vf::state(vf::hash_str(show(s.list) + (s.dirty ? "+" : "-") + show(s.files.count(file("F")) ? s.files[file("F")] : List{"?"}) +
                             show(s.files.count(file("G")) ? s.files[file("G")] : List{"?"})));
    }
    if (!s.over)
      s.leave("y");
    check(s);
    vf::outcome(vf::hash_str(show(s.list)));
  }
}

// Longer lists: removal takes the first of equal ones, order is kept through files
void long_lists() {
  const List names = {"1.1.1.1:1025", "2.2.2.2:2222", "3.3.3.3:3333"};
  for (int length = 0; length <= (vf::thorough ? 8 : 6); ++length) {
    int64_t count = 1;
    for (int i = 0; i < length; ++i)
      count *= 3;
    for (int64_t n = 0; n < count; ++n) {
      if (!vf::take())
        continue;
      clean_up();
      Script s;
      int64_t r = n;
      for (int i = 0; i < length; ++i, r /= 3)
        s.insert(names[r % 3], false);
      const List whole = s.list;
      s.view();
      s.save(file("F"));
      for (const auto& name : names) {
        s.remove(name);
        s.view();
        if (!whole.empty()) {
          s.load(file("F"), "Y");
          s.view();
        }
      }
      s.leave("y");
      check(s);
    }
  }
  for (int length : {63, 64, 65, 255, 256, 257, 1000}) {
    if (!vf::take())
      continue;
    clean_up();
    Script s;
    for (int i = 0; i < length; ++i)
      s.insert("10.0." + std::to_string(i / 256) + "." + std::to_string(i % 256) + ":" + std::to_string(2000 + i), i % 3 == 0);
    s.save(file("F"));
    s.remove(s.list[s.list.size() / 2]);
    s.view();
    s.load(file("F"), "y");
    s.view();
    s.leave("n");
    check(s);
  }
}

// Answers to "do you really wish to": only y and Y confirm
void answers() {
  List all;
  for (int c = 1; c < 256; ++c) {
    if (c != '\n')
      all.push_back(std::string(1, static_cast<char>(c)));
  }
  for (const char* s : {"", "yy", "yes", "Yes", "YES", " y", "y ", "Y\r", "ny", "yn", "no", "1", "7", "\"y\""})
    all.push_back(s);
  for (const auto& answer : all) {
    for (int what = 0; what < 4; ++what) {
      if (!vf::take())
        continue;
      clean_up();
      write_file(file("G"), serialised({kB}));
      Script s;
      s.files[file("G")] = {kB};
      if (what & 1) {
        s.insert(kA, true);
        s.save(file("F"));
        s.remove(kA);
      } else {
        s.insert(kA, false);
      }
      if (what & 2)
        s.leave(answer);
      else
        s.load(file("G"), answer);
      if (!s.over) {
        s.view();
        s.leave("n");
        if (!s.over) {
          s.view();
          s.leave("Y");
        }
      }
      check(s);
      vf::outcome(vf::hash_str(answer));
    }
  }
}

// What is entered as a choice and is none is asked for again
void choices() {
  List wrong = {"", "0", "8", "9", "-1", "-7", "10", "17", "66", "999999", "2147483647", "2147483648", "4294967297", "4294967302", "18446744073709551622", "-4294967290", "a", "x", "?", "load", "y", "1.2.3.4:5555:", "\xff"};
  wrong.erase(std::find(wrong.begin(), wrong.end(), "1.2.3.4:5555:"));
  for (size_t i = 0; i < wrong.size(); ++i) {
    for (size_t j = 0; j < wrong.size(); ++j) {
      if (!vf::take())
        continue;
      clean_up();
      Script s;
      s.lines.push_back(wrong[i]);
      s.insert(kA, false);
      s.lines.push_back(wrong[j]);
      s.view();
      s.lines.push_back(wrong[i]);
      s.lines.push_back(wrong[j]);
      s.save(file("F"));
      s.lines.push_back(wrong[j]);
      s.leave("-");
      check(s);
      VF_CHECK(read_file(file("F")) == serialised({kA}), "the saved file holds something else");
      vf::outcome(vf::hash_str(wrong[i] + "," + wrong[j]));
    }
  }
}

// Paths that cannot be are asked for again
void paths() {
  const List wrong_to_load = {file("none"), file("none/F"), file("."), vf::scratch, file("F/x"), "/dev/null"};
  const List wrong_to_save = {file("none/F"), file("none/none/F")};
  for (size_t n = 0; n < wrong_to_load.size() * wrong_to_load.size() * 2; ++n) {
    if (!vf::take())
      continue;
    clean_up();
    write_file(file("G"), serialised({kB, kA}));
    Script s;
    s.files[file("G")] = {kB, kA};
    if (n & 1) {
      s.insert(kA, false);
      s.save(file("F"));
    }
    s.lines.push_back("1");
    s.lines.push_back(wrong_to_load[n / 2 % wrong_to_load.size()]);
    s.lines.push_back(wrong_to_load[n / 2 / wrong_to_load.size()]);
    s.lines.push_back(file("G"));
    s.list = s.files[file("G")];
    s.view();
    s.insert(kA, false);
    s.lines.push_back("5");
    s.lines.push_back(wrong_to_save[n % 2]);
    s.lines.push_back(wrong_to_save[n / 2 % 2]);
    s.lines.push_back(file("F"));
    s.dirty = false;
    s.files[file("F")] = s.list;
    s.load(file("G"), "?");
    s.view();
    s.load(file("F"), "?");
    s.view();
    // what is saved already, over another file
    s.load(file("G"), "?");
    s.save(file("F"));
    s.load(file("F"), "?");
    s.view();
    s.leave("?");
    check(s);
  }
}

// --- files ---
// What the tool says after the line that loads or saves, with the path taken out
std::string report(const vf::Dialogue& d, size_t line) { return d.after(line); }

// Loads the given bytes over a list, saved or not: they are loaded as a whole, or it says that they
// are not and everything is as before.
void load_bytes(const std::string& bytes, bool dirty, bool absent = false) {
  clean_up();
  write_file(file("bad"), serialised({kB}));
  const auto dialogue = [&](Script& s) {
    s.insert(kA, false);
    s.insert("7.7.7.7:7777", false);
    s.save(file("G"));
    if (dirty)
      s.insert("8.8.8.8:8888", true);
  };
  // what success looks like
  static std::string success[2];
  if (success[dirty].empty()) {
    Script s;
    s.files[file("bad")] = {kB};
    dialogue(s);
    s.load(file("bad"), "y");
    const size_t line = s.lines.size() - 1;
    s.view();
    s.leave("?");
    success[dirty] = report(check(s), line);
  }
  write_file(file("bad"), bytes);

  // what it ought to contain
  bool parses = true, fine = true, taste = false;
  List expected;
  try {
    maidsafe::detail::BootstrapCereal parsed;
    maidsafe::Parse(maidsafe::SerialisedData(bytes.begin(), bytes.end()), parsed);
    for (const auto& c : parsed.bootstrap_contacts_) {
      if (!dotted(c.ip_) || c.port_ < 0 || c.port_ > 65535)
        fine = false;
      if (c.ip_ == "0.0.0.0" || c.port_ < 1025)
        taste = true;
      if (c.ip_.find('\0') != std::string::npos)
        return;  // what comes after a null character may count or not
      expected.push_back(c.ip_ + ":" + std::to_string(c.port_));
    }
  } catch (...) {
    parses = false;
  }
  const bool good = parses && fine && !expected.empty();

  const auto attempt = [&](bool loads, std::string& said) {
    Script s;
    dialogue(s);
    if (loads)
      s.files[file("bad")] = expected;
    s.load(file("bad"), "y");
    const size_t line = s.lines.size() - 1;
    s.view();
    if (loads && s.list.empty())
      vf::fail("nothing to load");
    s.leave("n");
    if (!s.over)
      s.leave("y");
    const vf::Dialogue d = vf::talk(s.lines, the_tool);
    VF_CHECK(d.returned && d.code == 0, "loading " << vf::show(bytes) << ": the tool " << d.child.how());
    said = report(d, line);
    return std::make_pair(endpoints_in(d.after(s.views[0].first)) == s.list && d.lines_read == s.lines.size(), endpoints_in(d.after(s.views[0].first)));
  };
  std::string said;
  std::pair<bool, List> result;
  if (good) {
    result = attempt(true, said);
    if (result.first) {
      VF_CHECK(said == success[dirty], "a file was loaded, but the tool says " << vf::show(said) << " for " << vf::show(bytes));
    } else {
      VF_CHECK(taste, "loading " << vf::show(bytes) << " leaves " << show(result.second) << " instead of " << show(expected));
    }
    vf::outcome(vf::hash_str(show(expected)));
  }
  if (!good || !result.first) {
    clean_up();
    write_file(file("bad"), bytes);
    result = attempt(false, said);
    VF_CHECK(result.first, "loading " << vf::show(bytes) << " ought to have changed nothing, but the list is now " << show(result.second) << " or the tool takes it as saved");
    VF_CHECK(said != success[dirty] || absent, "the tool says " << vf::show(said) << " about " << vf::show(bytes) << ", as if it had been loaded");
    vf::outcome(vf::hash_str(said));
  }
  vf::histories++;
}

void damaged() {
  const std::string one = serialised({"1.2.3.4:5555"}), two = serialised({"1.2.3.4:5555", "200.1.1.0:6000"});
  std::vector<std::string> all;
  for (size_t n = 0; n <= two.size(); ++n) {
    all.push_back(two.substr(0, n));
    if (n < two.size())
      all.push_back(two.substr(n));
  }
  for (size_t i = 0; i < two.size(); ++i) {
    for (int c = 0; c < 256; c += vf::thorough ? 1 : 17) {
      std::string s = two;
      s[i] = static_cast<char>(c);
      all.push_back(s);
    }
    for (int bit = 0; bit < 8; ++bit) {
      std::string s = two;
      s[i] = static_cast<char>(s[i] ^ (1 << bit));
      all.push_back(s);
    }
    all.push_back(two.substr(0, i) + std::string(1, '1') + two.substr(i));
    all.push_back(two.substr(0, i) + two.substr(i + 1));
  }
  all.push_back(two + two);
  all.push_back(two + "x");
  all.push_back(serialised({}));
  for (const auto& bytes : all) {
    for (int dirty = 0; dirty < 2; ++dirty) {
      if (vf::take())
        load_bytes(bytes, dirty != 0);
    }
  }
}

// files that parse and hold endpoints of all sorts: the first, the last or the only one
void contents() {
  const List addresses = {"1.2.3.4", "", "0.0.0.0", "256.1.1.1", "1.2.3", "1.2.3.4.5", "::1", "localhost", " 1.2.3.4", "1.2.3.4 ", "1.2.3.4:5555", "255.255.255.255", "-1.2.3.4", "a.b.c.d", std::string(300, '1')};
  const std::vector<int> ports = {5555, 0, 1, 80, 1024, 1025, 65535, 65536, 65537, 65536 + 5555, 131072 + 1025, -1, -5555, -65535, -60000, 2147483647, -2147483647 - 1, 2147483647 - 60000};
  for (const auto& address : addresses) {
    for (int port : ports) {
      for (int shape = 0; shape < 4; ++shape) {
        for (int dirty = 0; dirty < 2; ++dirty) {
          if (!vf::take())
            continue;
          List endpoints;
          std::vector<int> all_ports;
          const auto add = [&](const std::string& a, int p) {
            endpoints.push_back(a + ":1");
            all_ports.push_back(p);
          };
          if (shape == 2 || shape == 3)
            add("5.5.5.5", 5000);
          add(address, port);
          if (shape == 1 || shape == 3)
            add("6.6.6.6", 6000);
          load_bytes(serialised(endpoints, &all_ports), dirty != 0);
        }
      }
    }
  }
}

// saving fails: the tool says so, and what is not saved is not lost without asking
void failing_saves() {
  const int kinds = 400;
  for (int kind = -1; kind < kinds; ++kind) {
    for (int after = 0; after < 2; ++after) {
      clean_up();
      const size_t size = serialised({kA, kB}).size();
      if (kind >= static_cast<int>(size) || !vf::take())
        continue;
      Script good;
      good.insert(kA, false);
      good.insert(kB, false);
      good.save(file("F"));
      const size_t line = good.lines.size() - 1;
      good.leave("?");
      const vf::Dialogue success = check(good);
      clean_up();
      mkdir(file("D").c_str(), 0777);
      Script s;
      s.insert(kA, false);
      s.insert(kB, false);
      s.save_fails(kind < 0 ? file("D") : file("F"));
      if (after) {
        s.leave("n");
        s.view();
      }
      s.leave("y");
      const vf::Dialogue d = check(s, [kind] {
        if (kind < 0)
          return;
        signal(SIGXFSZ, SIG_IGN);
        const rlimit limit = {static_cast<rlim_t>(kind), static_cast<rlim_t>(kind)};
        setrlimit(RLIMIT_FSIZE, &limit);
      });
      std::string a = d.after(line), b = success.after(line);
      if (kind < 0) {
        const auto take_out = [](std::string& text, const std::string& path) {
          for (size_t at; (at = text.find(path)) != std::string::npos;)
            text.replace(at, path.size(), "?");
        };
        take_out(a, file("D"));
        take_out(b, file("F"));
      }
      VF_CHECK(a != b, "saving failed, but the tool says " << vf::show(a));
      vf::outcome(static_cast<uint64_t>(kind + 2));
    }
  }
}

// --- the end of the input, at every point ---
void ends() {
  const int depth = vf::thorough ? 3 : 2;
  int64_t count = 1;
  for (int i = 0; i < depth; ++i)
    count *= kOpCount;
  for (int64_t n = 0; n < count; ++n) {
    Script whole;
    whole.files[file("H")] = {kB, "6.6.6.6:6666", kA};
    int64_t r = n;
    for (int i = 0; i < depth && !whole.over; ++i, r /= kOpCount)
      kOps[r % kOpCount](whole);
    if (!whole.over) {
      whole.lines.insert(whole.lines.end(), {"", "8", "4", "wrong", "1.1.1.1:1"});
    }
    for (size_t cut = 0; cut <= whole.lines.size(); ++cut) {
      for (int newline = 0; newline < 2; ++newline) {
        if (!vf::take())
          continue;
        clean_up();
        write_file(file("H"), serialised({kB, "6.6.6.6:6666", kA}));
        write_file(file("bad"), "bad");
        const List lines(whole.lines.begin(), whole.lines.begin() + static_cast<ptrdiff_t>(cut));
        const vf::Dialogue d = vf::talk(lines, the_tool, newline != 0);
        std::string text;
        for (const auto& l : lines)
          text += " | " + vf::show(l);
        VF_CHECK(!d.endless, "the tool keeps on asking after the end of its input" << text);
        VF_CHECK(d.returned, "the tool " << d.child.how() << " at the end of its input" << text);
        vf::outcome(vf::hash_str(text));
        ++vf::histories;
        vf::transitions += cut + 1;
      }
    }
  }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"ports", all_ports}, {"octets", all_octets}, {"edits", edited}, {"histories", histories}, {"lists", long_lists},
                              {"answers", answers}, {"choices", choices}, {"paths", paths}, {"damaged", damaged}, {"contents", contents},
                              {"failing saves", failing_saves}, {"ends", ends}});
}

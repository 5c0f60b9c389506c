// C42: the tool that simulates attacks on a network, for every configuration and every sequence of
// identities of the listed bounds, against a model of the network.
#include <stdlib.h>
#include <sys/stat.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "maidsafe/common/identity.h"
#include "maidsafe/common/utils.h"

namespace c42 {
maidsafe::Identity next_identity();
inline int32_t next_number() { return 0; }
}  // namespace c42
namespace maidsafe {
inline Identity identity_of_the_harness() { return c42::next_identity(); }
inline int32_t number_of_the_harness() { return c42::next_number(); }
}  // namespace maidsafe

#define MakeIdentity identity_of_the_harness
#define RandomInt32 number_of_the_harness
#define main tool_main
#include "maidsafe/common/tools/address_space_tool.cc"  // NOLINT
#undef main
#undef MakeIdentity
#undef RandomInt32

#include "common/fake_exe.h"
#include "common/ref_sha.h"
#include "common/session.h"
#include "common/vf.h"

namespace {
typedef std::string Id;  // 64 bytes

struct Settings {
  unsigned iterations = 4, initial = 1000;
  double factor = 2.0;
  unsigned group = 11, majority = 7, bad_groups = 1, attempts = 1000000, leeway = 2, good_per_bad = 0;
  int algorithm = 2;
};
const char* const kAlgorithms[] = {"kClosest", "kHighest", "kLowest", "kMean", "kNone"};

std::string json(const Settings& s, unsigned leave_out = 0) {
  std::ostringstream o;
  int n = 0, field = 0;
  auto add = [&](const char* name, const std::string& value) {
    if (!((leave_out >> field++) & 1))
      o << (n++ ? ",\n" : "\n") << "        \"" << name << "\": " << value;
  };
  o << "{\n    \"config\": {";
  add("iterations", std::to_string(s.iterations));
  add("initial_good_count", std::to_string(s.initial));
  std::ostringstream f;
  f << s.factor;
  add("initial_factor", f.str().find('.') == std::string::npos ? f.str() + ".0" : f.str());
  add("group_size", std::to_string(s.group));
  add("majority_size", std::to_string(s.majority));
  add("bad_group_count", std::to_string(s.bad_groups));
  add("total_random_attempts", std::to_string(s.attempts));
  add("leeway", std::to_string(s.leeway));
  add("good_added_per_bad", std::to_string(s.good_per_bad));
  add("algorithm", std::to_string(s.algorithm));
  o << "\n    }\n}\n";
  return o.str();
}

// --- the identities that the tool makes: a list, ended by an exception ---
std::vector<Id> identities;
size_t drawn = 0;

uint64_t top_of(const Id& id) {
  uint64_t r = 0;
  for (size_t i = 0; i < 8; ++i)
    r = r << 8 | static_cast<unsigned char>(id[i]);
  return r;
}
int common_bits(const Id& a, const Id& b) {
  for (int bit = 0; bit < 512; ++bit) {
    if (((a[bit / 8] ^ b[bit / 8]) >> (7 - bit % 8)) & 1)
      return bit;
  }
  return 512;
}

struct Peer {
  Id id;
  bool good;
  uint64_t top;
};
struct Report {
  std::vector<double> network, linked;  // the numbers of the two lines
};
struct OutOfIdentities {};
struct TooBig {};  // more nodes than four groups: ranks count

class Network {
 public:
  explicit Network(const Settings& s) : s_(s) {}
  Report run() {
    Report r;
    add_node(true, true);
    for (unsigned i = 1; i < s_.initial; ++i)
      add_node(true, false);
    attempts_ = 0;
    size_t bad = 0, more_good = 0;
    for (std::vector<std::set<Id>> groups; groups.size() < s_.bad_groups;) {
      for (unsigned i = 0; i < s_.good_per_bad; ++i, ++more_good)
        add_node(true, false);
      add_node(false, false);
      ++bad;
      groups.clear();
      for (unsigned i = 0; i < 1024; ++i) {
        std::set<Id> group;
        if (!is_bad(point(i), group))
          continue;
        bool disjoint = true;
        for (const auto& other : groups) {
          for (const auto& id : group)
            disjoint = disjoint && !other.count(id);
        }
        if (disjoint)
          groups.push_back(group);
      }
    }
    const double population = static_cast<double>(nodes_.size());
    r.network = {static_cast<double>(s_.initial), static_cast<double>(s_.bad_groups), static_cast<double>(bad), static_cast<double>(more_good)};
    if (s_.algorithm != 4)
      r.network.push_back(static_cast<double>(attempts_) / (population - s_.initial));
    r.network.push_back(population);
    r.network.push_back(100.0 * static_cast<double>(bad) / population);
    if (s_.attempts != 0) {
      unsigned compromised = 0;
      for (unsigned i = 0; i < s_.attempts; ++i) {
        Id target = draw();
        unsigned links = 0;
        std::set<Id> group;
        while (links < s_.bad_groups && is_bad(target, group)) {
          ++links;
          target = ref::sha512(target);
        }
        compromised += links == s_.bad_groups;
      }
      r.linked = {static_cast<double>(compromised), static_cast<double>(s_.attempts)};
    }
    return r;
  }

 private:
  Id draw() {
    if (drawn == identities.size())
      throw OutOfIdentities();
    return identities[drawn++];
  }
  std::vector<Peer> closest(const Id& target, size_t n) const {
    // (the identities of this harness differ in their first eight bytes)
    std::vector<std::pair<uint64_t, size_t>> all;
    for (size_t i = 0; i < nodes_.size(); ++i)
      all.emplace_back(nodes_[i].top ^ top_of(target), i);
    n = std::min(n, all.size());
    std::partial_sort(all.begin(), all.begin() + static_cast<std::ptrdiff_t>(n), all.end());
    std::vector<Peer> r;
    for (size_t i = 0; i < n; ++i)
      r.push_back(nodes_[all[i].second]);
    return r;
  }
  int summary(const std::vector<int>& bits) const {
    switch (s_.algorithm) {
      case 1: return *std::max_element(bits.begin(), bits.end());
      case 2: return *std::min_element(bits.begin(), bits.end());
      default: {
        int sum = 0;
        for (int b : bits)
          sum += b;
        return sum / static_cast<int>(bits.size());
      }
    }
  }
  bool acceptable(const Id& id) const {
    if (s_.algorithm == 4)
      return true;
    const auto group = closest(id, s_.group);
    int of_group = 0, of_candidate = 0;
    if (s_.algorithm == 0) {
      of_group = group.size() > 1 ? common_bits(group[0].id, group[1].id) : 0;
      of_candidate = common_bits(group[0].id, id);
    } else {
      std::vector<int> inside, to_candidate;
      for (size_t i = 0; i < group.size(); ++i) {
        to_candidate.push_back(common_bits(group[i].id, id));
        for (size_t j = i + 1; j < group.size(); ++j)
          inside.push_back(common_bits(group[i].id, group[j].id));
      }
      of_group = inside.empty() ? 0 : summary(inside);
      of_candidate = summary(to_candidate);
    }
    return of_candidate < of_group + static_cast<int>(s_.leeway);
  }
  void add_node(bool good, bool first) {
    if (nodes_.size() > s_.group * 4)
      throw TooBig();
    for (;;) {
      const Id id = draw();
      ++attempts_;
      if (first || acceptable(id)) {
        nodes_.push_back(Peer{id, good, top_of(id)});
        return;
      }
    }
  }
  // whether a majority of the nodes closest to the target is bad
  bool is_bad(const Id& target, std::set<Id>& group) const {
    group.clear();
    unsigned bad = 0;
    const auto peers = closest(target, s_.group);
    for (const auto& p : peers)
      bad += !p.good;
    if (bad < s_.majority)
      return false;
    for (const auto& p : peers)
      group.insert(p.id);
    return true;
  }
  // i 1024ths of the greatest identity, i.e. i * (2^502 - 1)
  static Id point(unsigned i) {
    Id p(64, 0);
    if (i != 0) {
      p.assign(64, '\xff');
      const unsigned high = i - 1;  // i * 2^502 - i
      p[0] = static_cast<char>(high >> 2);
      p[1] = static_cast<char>(((high & 3) << 6) | 0x3f);
      const unsigned low = 0x10000 - i;
      p[62] = static_cast<char>(low >> 8);
      p[63] = static_cast<char>(low);
    }
    return p;
  }

  Settings s_;
  std::vector<Peer> nodes_;
  size_t attempts_ = 0;
};

std::vector<double> numbers_in(const std::string& line) {
  std::vector<double> r;
  for (size_t i = 0; i < line.size();) {
    if (!isdigit(static_cast<unsigned char>(line[i]))) {
      ++i;
      continue;
    }
    char* end = nullptr;
    r.push_back(strtod(line.c_str() + i, &end));
    i = static_cast<size_t>(end - line.c_str());
  }
  return r;
}
// without the codes for colours
std::string plain(const std::string& text) {
  std::string r;
  for (size_t i = 0; i < text.size(); ++i) {
    if (text[i] == '\x1b') {
      while (i < text.size() && text[i] != 'm')
        ++i;
      continue;
    }
    r += text[i];
  }
  return r;
}
std::string show(const std::vector<double>& v) {
  std::ostringstream o;
  for (double d : v)
    o << (o.tellp() ? " " : "") << d;
  return "(" + o.str() + ")";
}
bool same(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (std::fabs(a[i] - b[i]) > 1e-4 * std::max(1.0, std::fabs(b[i])))
      return false;
  }
  return true;
}

// the tool in a process of its own; its executable is in `dir`
struct Ran {
  vf::Dialogue d;
  std::string said;
};
Ran run_tool(const std::string& dir, const std::vector<std::string>& args) {
  Ran r;
  r.d = vf::talk({}, [&] {
    vf::fake_exe().active = true;
    vf::fake_exe().answer = dir + "/address_space_tool";
    static std::vector<std::string> all;
    all = {"address_space_tool", "--log_no_async"};
    all.insert(all.end(), args.begin(), args.end());
    static std::vector<char*> argv;
    for (auto& a : all)
      argv.push_back(&a[0]);
    argv.push_back(nullptr);
    drawn = 0;
    return tool_main(static_cast<int>(all.size()), argv.data());
  });
  for (const auto& s : r.d.said)
    r.said += s;
  r.said = plain(r.said);
  return r;
}
void write_file(const std::string& path, const std::string& text) { std::ofstream(path, std::ios::binary | std::ios::trunc) << text; }
bool exists(const std::string& path) {
  struct stat s;
  return stat(path.c_str(), &s) == 0;
}
std::string read_file(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::ostringstream s;
  s << in.rdbuf();
  return s.str();
}
std::string fresh_dir() {
  static int n = 0;
  const std::string dir = vf::scratch + "/d" + std::to_string(n++);
  mkdir(dir.c_str(), 0700);
  return dir;
}
std::string show(const Settings& s) {
  std::string j = json(s), r;
  for (char c : j) {
    if (c != '\n' && c != ' ')
      r += c;
  }
  return r;
}

std::vector<std::string> lines_starting(const std::string& text, const std::string& start) {
  std::vector<std::string> r;
  for (size_t at = text.find(start); at != std::string::npos; at = text.find(start, at + 1)) {
    const size_t end = text.find('\n', at);
    r.push_back(text.substr(at, end == std::string::npos ? end : end - at));
  }
  return r;
}
std::vector<std::string> lines_with(const std::string& text, const std::string& part) {
  std::vector<std::string> r;
  std::istringstream in(text);
  for (std::string line; std::getline(in, line);) {
    if (line.find(part) != std::string::npos)
      r.push_back(line);
  }
  return r;
}

// All iterations of a configuration, as far as the identities go
void simulate(Settings s) {
  std::vector<Report> expected;
  drawn = 0;
  Settings now(s);
  for (unsigned i = 0; i < s.iterations; ++i) {
    const size_t before = drawn;
    try {
      expected.push_back(Network(now).run());
    } catch (const OutOfIdentities&) {
      drawn = before;
    } catch (const TooBig&) {
      drawn = before;
    }
    if (expected.size() != i + 1)
      break;
    now.initial = static_cast<unsigned>(now.initial * now.factor);
  }
  if (expected.empty())
    return;
  s.iterations = static_cast<unsigned>(expected.size());
  vf::outcome(vf::hash_str(show(expected.back().network) + show(expected.back().linked)));
  const std::string dir = vf::scratch;
  write_file(dir + "/given.conf", json(s));
  const Ran r = run_tool(dir, {dir + "/given.conf"});
  VF_CHECK(r.d.returned, "the tool " << r.d.child.how() << " with " << show(s));
  VF_CHECK(r.d.code == 0, "the tool returned " << r.d.code << " with " << show(s) << " and said " << vf::show(r.said.substr(0, 600)));
  const auto networks = lines_with(r.said, "For a network of"), linked = lines_with(r.said, "linked random addresses");
  VF_CHECK(networks.size() == expected.size(), "the tool reports " << networks.size() << " instead of " << expected.size() << " networks with " << show(s));
  for (size_t i = 0; i < expected.size(); ++i) {
    VF_CHECK(same(numbers_in(networks[i]), expected[i].network),
             "network " << i << ": the tool says " << vf::show(networks[i]) << ", the numbers should be " << show(expected[i].network) << " with " << show(s));
    if (s.attempts != 0) {
      VF_CHECK(linked.size() == expected.size() && same(numbers_in(linked[i]), expected[i].linked),
               "network " << i << ": the tool says " << (linked.size() > i ? vf::show(linked[i]) : "nothing") << " about linked addresses, the numbers should be " << show(expected[i].linked)
                          << " with " << show(s));
    }
    ++vf::histories;
  }
  vf::transitions += drawn;
}

// 8 * `digits` identities, of which each eight begin with digits of `number` (three bits each)
void make_identities(unsigned number, unsigned digits, unsigned shift) {
  identities.clear();
  for (unsigned i = 0; i < 240; ++i) {
    Id id(64, '\x5a');
    const unsigned block = i % 12;
    unsigned top;
    if (block < digits)
      top = (number >> (3 * block)) & 7;
    else
      top = (i * 5 + i / 8 + shift) & 7;  // the rest: all over the place
    id[0] = static_cast<char>((top << 5) | ((i * 7 + shift * 3) & 0x1f));
    id[1] = static_cast<char>((i * 37 + shift) & 0xff);
    id[2] = static_cast<char>(i);  // all different
    identities.push_back(id);
  }
}

void simulations() {
  const unsigned digits = vf::thorough ? 3 : 2;
  for (int algorithm = 0; algorithm < 5; ++algorithm) {
    for (unsigned leeway : {1u, 2u, 3u, 5u}) {
      if (algorithm == 4 && leeway != 1)
        continue;
      for (unsigned group = 2; group <= 4; ++group) {
        for (unsigned majority = 1; majority <= group; ++majority) {
          for (unsigned bad = 1; bad <= 2; ++bad) {
            for (unsigned good_per_bad = 0; good_per_bad <= 1; ++good_per_bad) {
              for (unsigned more = 0; more <= 1; ++more) {
                for (unsigned number = 0; number < (1u << (3 * digits)); number += vf::thorough ? 3 : 13) {
                  if (!vf::take())
                    continue;
                  Settings s;
                  s.algorithm = algorithm;
                  s.leeway = leeway;
                  s.group = group;
                  s.majority = majority;
                  s.bad_groups = bad;
                  s.good_per_bad = good_per_bad;
                  s.initial = group + more;
                  s.iterations = 5;
                  s.factor = number % 2 ? 1.0 : 1.25;
                  s.attempts = number % 5 == 4 ? 0 : 6;
                  make_identities(number, digits, number / 8);
                  simulate(s);
                }
              }
            }
          }
        }
      }
    }
  }
}

// Identities that crowd in neighbouring 1024ths of all addresses, so that it matters which addresses are
// looked at
void crowds() {
  const unsigned cells[] = {0, 5, 6, 7, 600, 1023};
  const unsigned all = 6 * 6 * 6 * 6;
  for (unsigned majority = 1; majority <= 2; ++majority) {
    for (unsigned bad = 1; bad <= 3; ++bad) {
      for (unsigned number = 0; number < all; number += vf::thorough ? 1 : 5) {
        if (!vf::take())
          continue;
        Settings s;
        s.algorithm = 4;
        s.group = 2;
        s.majority = majority;
        s.bad_groups = bad;
        s.initial = 4;
        s.iterations = 1;
        s.attempts = 4;
        identities.clear();
        unsigned rest = number, salt = number;
        for (unsigned i = 0; i < 60; ++i) {
          unsigned cell = cells[(i + number) % 6];
          if (i >= 4 && i < 8) {
            cell = cells[rest % 6];
            rest /= 6;
          } else if (i < 4) {
            cell = i == 0 ? 4 : i == 1 ? 300 : 1022;
          } else {
            cell = i % 2 ? cell : (i * 97 + number) % 1024;
          }
          Id id(64, '\x33');
          salt = salt * 1103515245 + 12345;
          id[0] = static_cast<char>(cell >> 2);
          id[1] = static_cast<char>(((cell & 3) << 6) | (salt >> 26));
          id[2] = static_cast<char>(i);
          identities.push_back(id);
        }
        simulate(s);
      }
    }
  }
}

// --- the configuration ---
Settings small() {
  Settings s;
  s.iterations = 1;
  s.initial = 3;
  s.factor = 1.5;
  s.group = 2;
  s.majority = 1;
  s.attempts = 2;
  s.algorithm = 4;
  return s;
}
void check_shown(const std::string& said, const Settings& s, const std::string& context) {
  const std::pair<const char*, std::string> values[] = {
      {"iterations:", std::to_string(s.iterations)}, {"initial_good_count:", std::to_string(s.initial)}, {"initial_factor:", ""}, {"group_size:", std::to_string(s.group)},
      {"majority_size:", std::to_string(s.majority)}, {"bad_group_count:", std::to_string(s.bad_groups)}, {"total_random_attempts:", std::to_string(s.attempts)},
      {"leeway:", std::to_string(s.leeway)}, {"good_added_per_bad:", std::to_string(s.good_per_bad)}, {"algorithm:", kAlgorithms[s.algorithm]}};
  for (const auto& v : values) {
    const auto lines = lines_starting(said, v.first);
    VF_CHECK(!lines.empty(), "the tool does not show " << v.first << " " << context << ", it says " << vf::show(said.substr(0, 500)));
    std::string shown = lines[0].substr(strlen(v.first));
    shown.erase(0, shown.find_first_not_of(' '));
    if (v.second.empty())
      VF_CHECK(std::fabs(atof(shown.c_str()) - s.factor) < 1e-6, "the tool shows " << v.first << " " << shown << " " << context);
    else
      VF_CHECK(shown == v.second, "the tool shows " << v.first << " " << shown << " instead of " << v.second << " " << context);
  }
}

// Each subset of the values left out: they have their defaults.  The identities end at once, so that
// nothing is simulated.
void left_out() {
  for (unsigned set = 0; set < 1024; set += vf::thorough ? 1 : 3) {
    for (int where = 0; where < 2; ++where) {
      if (!vf::take())
        continue;
      identities.clear();
      Settings s;
      s.iterations = 3;
      s.initial = 17;
      s.factor = 1.5;
      s.group = 5;
      s.majority = 4;
      s.bad_groups = 2;
      s.attempts = 12;
      s.leeway = 7;
      s.good_per_bad = 6;
      s.algorithm = static_cast<int>(set % 5);
      const std::string dir = fresh_dir(), path = dir + (where ? "/other name" : "/address_space_tool.conf");
      write_file(path, json(s, set));
      const std::string before = read_file(path);
      const Ran r = run_tool(dir, where ? std::vector<std::string>{path} : std::vector<std::string>{});
      const Settings d;
      const unsigned bit[] = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512};
      if (set & bit[0]) s.iterations = d.iterations;
      if (set & bit[1]) s.initial = d.initial;
      if (set & bit[2]) s.factor = d.factor;
      if (set & bit[3]) s.group = d.group;
      if (set & bit[4]) s.majority = d.majority;
      if (set & bit[5]) s.bad_groups = d.bad_groups;
      if (set & bit[6]) s.attempts = d.attempts;
      if (set & bit[7]) s.leeway = d.leeway;
      if (set & bit[8]) s.good_per_bad = d.good_per_bad;
      if (set & bit[9]) s.algorithm = d.algorithm;
      VF_CHECK(r.d.returned, "the tool " << r.d.child.how() << " with values left out (" << set << ")");
      check_shown(r.said, s, "when the values " + std::to_string(set) + (where ? " are left out of the file given" : " are left out of its file"));
      VF_CHECK(read_file(path) == before, "the tool changed a configuration file");
      ++vf::histories;
      ++vf::transitions;
    }
  }
}

void files() {
  // no file: one with the defaults is written, which is read the next time
  if (vf::take()) {
    identities.clear();
    const std::string dir = fresh_dir(), path = dir + "/address_space_tool.conf";
    Ran r = run_tool(dir, {});
    VF_CHECK(r.d.returned, "the tool " << r.d.child.how() << " without a configuration file");
    check_shown(r.said, Settings(), "without a configuration file");
    VF_CHECK(exists(path), "the tool writes no configuration file");
    const std::string written = read_file(path);
    r = run_tool(dir, {});
    check_shown(r.said, Settings(), "with the file it has written");
    VF_CHECK(read_file(path) == written, "the tool changed the file it had written");
    // each value replaced by another one in that file: it is found under its name
    for (const auto& v : std::vector<std::pair<std::string, std::string>>{{"iterations", "9"}, {"group_size", "3"}, {"leeway", "8"}, {"algorithm", "4"}, {"total_random_attempts", "77"}}) {
      std::string changed = written;
      const size_t name = changed.find("\"" + v.first + "\"");
      VF_CHECK(name != std::string::npos, "the file the tool has written does not have the value of " << v.first);
      const size_t colon = changed.find(':', name), end = changed.find_first_of(",\n}", colon);
      changed.replace(colon + 1, end - colon - 1, " " + v.second);
      write_file(path, changed);
      Settings s;
      if (v.first == "iterations") s.iterations = 9;
      if (v.first == "group_size") s.group = 3;
      if (v.first == "leeway") s.leeway = 8;
      if (v.first == "algorithm") s.algorithm = 4;
      if (v.first == "total_random_attempts") s.attempts = 77;
      r = run_tool(dir, {});
      check_shown(r.said, s, "with another " + v.first + " in the file it has written");
    }
  }
  // every cut of a file: it is read as it is or refused, never something else
  const std::string whole = json(small());
  for (size_t cut = 0; cut <= whole.size(); cut += vf::thorough ? 1 : 4) {
    if (!vf::take())
      continue;
    make_identities(0, 1, 0);
    const std::string dir = fresh_dir(), path = dir + "/f";
    write_file(path, whole.substr(0, cut));
    const Ran r = run_tool(dir, {path});
    VF_CHECK(r.d.returned, "the tool " << r.d.child.how() << " with a file cut at " << cut);
    const bool complete = whole.find_last_of('}') < cut;
    VF_CHECK((r.d.code == 0) == complete, "the tool returned " << r.d.code << " with a file cut at " << cut << " of " << whole.size());
    if (!complete)
      VF_CHECK(r.said.find("Failed") != std::string::npos, "the tool reports no failure with a file cut at " << cut);
    ++vf::histories;
  }
  // what is no algorithm
  for (int algorithm : {-1, 5, 6, 255, 256, 100000}) {
    if (!vf::take())
      continue;
    make_identities(0, 1, 0);
    Settings s = small();
    s.algorithm = algorithm;
    const std::string path = fresh_dir() + "/f";
    write_file(path, json(s));
    const Ran r = run_tool(vf::scratch, {path});
    VF_CHECK(r.d.returned && r.d.code != 0 && r.said.find("Failed") != std::string::npos, "the tool " << r.d.child.how() << " with algorithm " << algorithm);
    ++vf::histories;
  }
  // the usage: asked for, or too many arguments
  for (const auto& args : std::vector<std::vector<std::string>>{{"-h"}, {"--help"}, {"a", "b"}, {"a", "-h"}}) {
    if (!vf::take())
      continue;
    identities.clear();
    const std::string dir = fresh_dir();
    const Ran r = run_tool(dir, args);
    VF_CHECK(r.d.returned && r.d.code != 0, "the tool " << r.d.child.how() << " when asked for help");
    VF_CHECK(r.said.find("address_space_tool.conf") != std::string::npos && r.said.find("iterations:") == std::string::npos, "the tool does not show its usage: " << vf::show(r.said.substr(0, 300)));
    VF_CHECK(!exists(dir + "/address_space_tool.conf"), "the tool writes a file when asked for help");
    ++vf::histories;
  }
}
}  // namespace

namespace c42 {
maidsafe::Identity next_identity() {
  if (drawn >= identities.size())
    throw std::runtime_error("no more identities");
  return maidsafe::Identity(identities[drawn++]);
}
}  // namespace c42

int main(int argc, char** argv) { return vf::run(argc, argv, {{"files", files}, {"left_out", left_out}, {"crowds", crowds}, {"simulations", simulations}}); }

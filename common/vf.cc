#include "common/vf.h"

#include <x86intrin.h>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <typeinfo>

#include <cxxabi.h>

namespace vf {

bool thorough = false;
unsigned seed = 1;
uint64_t evaluations = 0, transitions = 0, histories = 0;
bool capped = false;
std::string scratch;

namespace {

struct Shared {  // survives a crash of this process: read by the driver
  char section[96];
  uint64_t index;
};

Shared local_shared;
Shared* shared = &local_shared;
unsigned shard = 0, shards = 1;
bool only = false;
std::string only_section;
uint64_t only_index = 0;
uint64_t index_ = 0;
unsigned section_number = 0;
unsigned case_limit = 60, limit_scale = 1;
std::string out_path;
std::set<std::string> known_keys;
std::map<std::string, std::string> findings;
std::set<uint64_t> states, outcomes;
uint64_t state_count = 0, outcome_count = 0;
std::vector<std::string> samples, infos;
std::string current_section;
std::map<std::string, uint64_t> per_section;

std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

void write_out(const std::string& status, const std::string& key, const std::string& message) {
  if (out_path.empty())
    return;
  std::ofstream o(out_path + ".tmp", std::ios::trunc);
  o << "{\"status\":" << json(status) << ",\"key\":" << json(key) << ",\"message\":" << json(message)
    << ",\"section\":" << json(current_section) << ",\"index\":" << shared->index
    << ",\"evaluations\":" << evaluations << ",\"transitions\":" << transitions
    << ",\"histories\":" << histories << ",\"states\":" << states.size()
    << ",\"outcomes\":" << outcomes.size() << ",\"capped\":" << (capped ? "true" : "false")
    << ",\"per_section\":{";
  bool first = true;
  for (auto& p : per_section) {
    o << (first ? "" : ",") << json(p.first) << ":" << p.second;
    first = false;
  }
  o << "},\"findings\":{";
  first = true;
  for (auto& p : findings) {
    o << (first ? "" : ",") << json(p.first) << ":" << json(p.second);
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (auto& s : samples) {
    o << (first ? "" : ",") << json(s);
    first = false;
  }
  o << "],\"infos\":[";
  first = true;
  for (auto& s : infos) {
    o << (first ? "" : ",") << json(s);
    first = false;
  }
  o << "]}\n";
  o.close();
  rename((out_path + ".tmp").c_str(), out_path.c_str());
}

void on_alarm(int) {
  static const char m[] = "vf: case exceeded its time limit\n";
  if (write(2, m, sizeof m - 1)) {
  }
  _exit(99);
}

void arm() {
  // alarm() is a system call; now and then is enough for cheap cases (the clock may be virtual, so this
  // looks at the time stamp counter)
  static uint64_t last = 0;
  const uint64_t now = __rdtsc();
  if (now - last > 500000000 || case_limit < 10) {
    last = now;
    alarm(case_limit);
  }
}

void remove_scratch() {
  if (scratch.compare(0, 5, "/tmp/") == 0 && scratch.find("/vf.") != std::string::npos) {
    std::string cmd = "rm -rf -- '" + scratch + "'";
    if (system(cmd.c_str())) {
    }
  }
}

}  // unnamed namespace

bool take() {
  uint64_t i = index_++;
  bool mine = only ? (i == only_index) : (i % shards == shard);
  if (mine) {
    shared->index = i;
    ++evaluations;
    ++per_section[current_section];
    arm();
  }
  return mine;
}

bool single() {
  shared->index = 0;
  bool mine = only || (section_number % shards == shard);
  if (mine) {
    ++per_section[current_section];
    alarm(case_limit);
  }
  return mine;
}

void note() { arm(); }

void set_case_limit(unsigned seconds) {
  case_limit = seconds * limit_scale;
  alarm(case_limit);
}

uint64_t case_index() { return shared->index; }

bool state(uint64_t h) { return states.size() > 4000000 ? (capped = true, false) : states.insert(h).second; }
void outcome(uint64_t h) {
  if (outcomes.size() < 2000000)
    outcomes.insert(h);
}

void sample(const std::string& text) {
  // the first few of every section
  static std::map<std::string, int> count;
  if (count[current_section]++ < 2)
    samples.push_back(current_section + ": " + text);
}
void info(const std::string& text) { infos.push_back(text); }

void fail(const std::string& message) { throw Violation{"", message}; }

bool is_known(const std::string& key) { return known_keys.count(key) != 0; }

void finding(const std::string& key, const std::string& message) {
  if (is_known(key)) {
    findings.insert({key, message});
    return;
  }
  throw Violation{key, message};
}

uint64_t hash_str(const std::string& s, uint64_t h) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h ^ (h >> 29);
}

std::string show(const std::string& s) {
  std::string r = "\"";
  size_t n = 0;
  for (unsigned char c : s) {
    if (++n > 80) {
      r += "..(" + std::to_string(s.size()) + ")";
      break;
    }
    if (c < 32 || c > 126 || c == '"' || c == '\\') {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

int run(int argc, char** argv, std::vector<Section> sections) {
  std::string shared_path;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough")
      thorough = true;
    else if (a == "--seed")
      seed = static_cast<unsigned>(atoi(next().c_str()));
    else if (a == "--out")
      out_path = next();
    else if (a == "--shared")
      shared_path = next();
    else if (a == "--shard") {
      std::string s = next();
      sscanf(s.c_str(), "%u/%u", &shard, &shards);
    } else if (a == "--only") {
      std::string s = next();
      auto c = s.rfind(':');
      only = true;
      only_section = s.substr(0, c);
      only_index = strtoull(s.c_str() + c + 1, nullptr, 10);
    } else if (a == "--known") {
      known_keys.insert(next());
    } else if (a == "--limit-scale") {
      limit_scale = static_cast<unsigned>(atoi(next().c_str()));
      case_limit *= limit_scale;
    }
  }
  if (!shared_path.empty()) {
    int fd = open(shared_path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
      void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED)
        shared = static_cast<Shared*>(p);
      close(fd);
    }
  }
  std::string tmpl = std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/vf.XXXXXX";
  scratch = mkdtemp(&tmpl[0]);
  signal(SIGALRM, on_alarm);
  int rc = 0;
  for (auto& s : sections) {
    ++section_number;
    current_section = s.name;
    if (only && only_section != s.name)
      continue;
    strncpy(shared->section, s.name, sizeof shared->section - 1);
    shared->index = 0;
    index_ = 0;
    alarm(case_limit);
    std::string key, message;
    bool bad = false;
    try {
      s.body();
    } catch (const Violation& v) {
      bad = true;
      key = v.key;
      message = v.message;
    } catch (const std::exception& e) {
      bad = true;
      int st = 0;
      char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      message = std::string("unexpected exception ") + (n ? n : typeid(e).name()) + ": " + e.what();
    } catch (...) {
      bad = true;
      message = "unexpected exception of unknown type";
    }
    if (bad) {
      std::cerr << "vf: section " << s.name << " case " << shared->index << ": " << message << std::endl;
      write_out("violation", key, message);
      rc = 1;
      break;
    }
  }
  alarm(0);
  if (rc == 0)
    write_out("ok", "", "");
  remove_scratch();
  fflush(nullptr);
  _exit(rc);
}

}  // namespace vf

// Reads the profiler's report and compares it with what was profiled.
#ifndef VERIF_COMMON_PROFILE_REPORT_H_
#define VERIF_COMMON_PROFILE_REPORT_H_

#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace report {

struct Entry {
  std::string name, count, average, total;
};
struct Counted {
  uint64_t count;
  long long nanos;
};
typedef std::map<std::string, Counted> Profiled;

inline std::string trim(const std::string& s) {
  const size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline std::string seconds(long long nanos) {
  char b[64];
  snprintf(b, sizeof b, "%lld.%09lld s", nanos / 1000000000, nanos % 1000000000);
  return b;
}
inline std::string after(const std::string& line, const std::string& what) { return trim(line.substr(line.find(what) + what.size())); }

// Empty if the report is right, otherwise what is wrong with it.  `durations`: whether they can be printed as usual.
inline std::string wrong(const std::string& text, const Profiled& profiled, bool durations = true) {
  static const char* const titles[] = {"Sorted by name", "Sorted by call count", "Sorted by average duration", "Sorted by total duration"};
  std::vector<std::string> lines;
  std::istringstream in(text);
  for (std::string l; std::getline(in, l);)
    lines.push_back(l);
  size_t at = 0;
  for (int section = 0; section < 4; ++section) {
    while (at < lines.size() && trim(lines[at]) != titles[section])
      ++at;
    if (at == lines.size())
      return std::string("there is no section ") + titles[section];
    ++at;
    std::vector<Entry> entries;
    for (; at < lines.size(); ++at) {
      const std::string& l = lines[at];
      bool next = false;
      for (auto t : titles)
        next |= trim(l) == t;
      if (next)
        break;
      if (trim(l).empty() || l.find_first_not_of('=') == std::string::npos)
        continue;
      if (l.compare(0, 9, "  Called:") == 0) {
        if (entries.empty())
          return "a count without a name";
        entries.back().count = after(l, "Called:");
      } else if (l.compare(0, 19, "  Average duration:") == 0) {
        if (entries.empty())
          return "an average without a name";
        entries.back().average = after(l, "duration:");
      } else if (l.compare(0, 17, "  Total duration:") == 0) {
        if (entries.empty())
          return "a total without a name";
        entries.back().total = after(l, "duration:");
      } else {
        entries.push_back(Entry{l, "", "", ""});
      }
    }
    std::set<std::string> seen;
    const Counted* before = nullptr;
    std::string name_before;
    for (auto& e : entries) {
      const auto p = profiled.find(e.name);
      if (p == profiled.end())
        return std::string(titles[section]) + ": there is \"" + e.name + "\", which was not profiled";
      if (!seen.insert(e.name).second)
        return std::string(titles[section]) + ": \"" + e.name + "\" is there twice";
      const Counted& c = p->second;
      if (e.count != std::to_string(c.count) + " times")
        return std::string(titles[section]) + ": \"" + e.name + "\" was called " + e.count + ", not " + std::to_string(c.count);
      if (durations && e.total != seconds(c.nanos))
        return std::string(titles[section]) + ": \"" + e.name + "\" took " + e.total + ", not " + seconds(c.nanos);
      if (durations && e.average != seconds(c.nanos / static_cast<long long>(c.count)))
        return std::string(titles[section]) + ": \"" + e.name + "\" took " + e.average + " on average, not " + seconds(c.nanos / static_cast<long long>(c.count));
      if (before && (durations || section < 2)) {
        const bool right = section == 0   ? name_before < e.name
                           : section == 1 ? before->count >= c.count
                           : section == 2 ? before->nanos / static_cast<long long>(before->count) >= c.nanos / static_cast<long long>(c.count)
                                          : before->nanos >= c.nanos;
        if (!right)
          return std::string(titles[section]) + ": \"" + name_before + "\" is before \"" + e.name + "\"";
      }
      before = &c;
      name_before = e.name;
    }
    if (seen.size() != profiled.size())
      return std::string(titles[section]) + ": " + std::to_string(seen.size()) + " of " + std::to_string(profiled.size()) + " are there";
  }
  return "";
}

}  // namespace report

#endif  // VERIF_COMMON_PROFILE_REPORT_H_

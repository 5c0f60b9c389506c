// C37: pages with secrets are locked while in use, and secrets are wiped.
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>

#include <sys/mman.h>
#include <unistd.h>

#include "maidsafe/common/authentication/detail/safe_allocators.h"

#include "common/vf.h"

namespace {
// --- what the process gives back, and which of its pages are locked ---
const size_t kMaxBlocks = 4096;
struct Block {
  char* p;
  size_t n;
} g_blocks[kMaxBlocks];
size_t g_block_count = 0;
bool g_watching = false;
const char* g_leak = nullptr;
std::map<size_t, int>* g_pages = nullptr;  // locked by mlock
bool g_inside = false;
bool g_only_locked = false;  // all that is watched should be locked while it holds something
const unsigned char kSecret = 0xa7;

void watch(void* p, size_t n) {
  if (g_watching && !g_inside && n > 0 && g_block_count < kMaxBlocks)
    g_blocks[g_block_count++] = Block{static_cast<char*>(p), n};
}
// nodes of the page table hold addresses, in which the byte may occur by chance
bool holds_secret(const Block& b, size_t from, size_t to) {
  const size_t enough = b.n == 48 || b.n == 40 || b.n == 56 ? 7 : 1;
  size_t run = 0;
  for (size_t k = from; k < to; ++k)
    if ((run = static_cast<unsigned char>(b.p[k]) == kSecret ? run + 1 : 0) >= enough)
      return true;
  return false;
}
void unlocked(size_t from, size_t to) {
  if (!g_watching || g_inside || !g_only_locked)
    return;
  for (size_t i = 0; i < g_block_count; ++i) {
    const size_t at = reinterpret_cast<size_t>(g_blocks[i].p), end = at + g_blocks[i].n;
    if (at < to && from < end && holds_secret(g_blocks[i], std::max(at, from) - at, std::min(end, to) - at))
      g_leak = "a page was unlocked with a secret in it";
  }
}
void unwatch(void* p) {
  if (!g_watching || g_inside || p == nullptr)
    return;
  for (size_t i = 0; i < g_block_count; ++i)
    if (g_blocks[i].p == p) {
      const Block b = g_blocks[i];
      g_blocks[i] = g_blocks[--g_block_count];
      if (holds_secret(b, 0, b.n))
        g_leak = "memory was given back with a secret in it";
      return;
    }
}
}  // unnamed namespace

void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (p == nullptr)
    throw std::bad_alloc();
  watch(p, n);
  return p;
}
void operator delete(void* p) noexcept {
  unwatch(p);
  free(p);
}
void operator delete(void* p, size_t) noexcept {
  unwatch(p);
  free(p);
}

extern "C" int mlock(const void* p, size_t n) {
  if (g_pages) {
    g_inside = true;
    const size_t size = static_cast<size_t>(sysconf(_SC_PAGESIZE));
    for (size_t a = reinterpret_cast<size_t>(p); a < reinterpret_cast<size_t>(p) + n; a += size)
      ++(*g_pages)[a / size];
    g_inside = false;
  }
  return 0;
}
extern "C" int munlock(const void* p, size_t n) {
  if (g_pages) {
    g_inside = true;
    const size_t size = static_cast<size_t>(sysconf(_SC_PAGESIZE));
    g_inside = false;
    unlocked(reinterpret_cast<size_t>(p) / size * size, reinterpret_cast<size_t>(p) + n);
    g_inside = true;
    for (size_t a = reinterpret_cast<size_t>(p); a < reinterpret_cast<size_t>(p) + n; a += size)
      g_pages->erase(a / size);  // locks do not stack
    g_inside = false;
  }
  return 0;
}

namespace {
namespace detail = maidsafe::authentication::detail;

// --- the counting, over a small address space ---
struct Recorder {
  bool Lock(const void* p, size_t n) {
    calls().push_back({true, {reinterpret_cast<size_t>(p), n}});
    return true;
  }
  bool Unlock(const void* p, size_t n) {
    calls().push_back({false, {reinterpret_cast<size_t>(p), n}});
    return true;
  }
  typedef std::vector<std::pair<bool, std::pair<size_t, size_t>>> Calls;
  static Calls& calls() {
    static Calls c;
    return c;
  }
};
struct Range {
  size_t at, size;
};
void play(size_t page, const std::vector<Range>& ranges, const std::vector<int>& h) {  // n: lock n; -n-1: unlock n
  detail::LockedPageManagerBase<Recorder> manager(page);
  Recorder::calls().clear();
  std::map<size_t, int> counts;
  std::set<size_t> locked;
  auto show = [&] {
    std::string s = "pages of " + std::to_string(page) + ":";
    for (int o : h) {
      const Range& r = ranges[static_cast<size_t>(o < 0 ? -o - 1 : o)];
      s += std::string(o < 0 ? " unlock " : " lock ") + std::to_string(r.at) + "+" + std::to_string(r.size);
    }
    return s;
  };
  for (int o : h) {
    const Range& r = ranges[static_cast<size_t>(o < 0 ? -o - 1 : o)];
    const size_t before = Recorder::calls().size();
    std::set<size_t> want;
    if (r.size)
      for (size_t p = r.at / page; p <= (r.at + r.size - 1) / page; ++p) {
        if (o >= 0 ? counts[p]++ == 0 : --counts[p] == 0)
          want.insert(p);
      }
    if (o >= 0)
      manager.LockRange(reinterpret_cast<void*>(r.at), r.size);
    else
      manager.UnlockRange(reinterpret_cast<void*>(r.at), r.size);
    std::set<size_t> got;
    for (size_t c = before; c < Recorder::calls().size(); ++c) {
      const auto& call = Recorder::calls()[c];
      VF_CHECK(call.first == (o >= 0), show() << ": unexpected " << (call.first ? "lock" : "unlock"));
      VF_CHECK(call.second.first % page == 0 && call.second.second % page == 0 && call.second.second > 0,
               show() << ": call for " << call.second.first << "+" << call.second.second);
      for (size_t p = 0; p < call.second.second / page; ++p)
        VF_CHECK(got.insert(call.second.first / page + p).second, show() << ": page " << p << " twice");
    }
    VF_CHECK(got == want, show() << ": " << got.size() << " pages change, expected " << want.size());
    size_t n = 0;
    for (const auto& c : counts)
      n += c.second > 0;
    VF_CHECK(manager.GetLockedPageCount() == static_cast<int>(n), show() << ": " << manager.GetLockedPageCount()
                                                                        << " pages are counted, expected " << n);
    ++vf::transitions;
  }
  ++vf::histories;
}
void counting() {
  for (size_t page : {16, 4096}) {
    const std::vector<Range> ranges = {{page, 1},            {page, page},         {2 * page - 1, 1}, {2 * page - 1, 2},
                                       {page + 3, 2 * page}, {2 * page, 0},        {2 * page, page + 1},
                                       {page, 3 * page},     {3 * page + 5, page - 5}};
    const size_t depth = vf::thorough ? 7 : 6;
    std::vector<int> h;
    std::vector<int> outstanding(ranges.size(), 0);
    std::function<void()> more = [&] {
      if (h.size() == depth) {
        play(page, ranges, h);
        vf::outcome(vf::hash_str(std::string(reinterpret_cast<char*>(outstanding.data()), outstanding.size() * sizeof(int))));
        return;
      }
      for (size_t r = 0; r < ranges.size(); ++r) {
        h.push_back(static_cast<int>(r));
        ++outstanding[r];
        if (h.size() != 3 || vf::take())
          more();
        --outstanding[r];
        h.pop_back();
        if (outstanding[r]) {
          h.push_back(-static_cast<int>(r) - 1);
          --outstanding[r];
          if (h.size() != 3 || vf::take())
            more();
          ++outstanding[r];
          h.pop_back();
        }
      }
    };
    more();
  }
  if (vf::single()) {  // every range of a small space, alone
    for (size_t at = 64; at < 100; ++at)
      for (size_t size = 0; size < 70; ++size)
        play(16, {{at, size}}, {0, 0, -1, 0, -1, -1});
    vf::sample("pages of 16: lock 31+2 lock 16+1 unlock 31+2: unlocks page 2 only");
  }
}

// --- strings and vectors ---
template <typename Container>
size_t bytes_of(const Container& c) {
  return c.capacity() * sizeof(typename Container::value_type);
}
template <typename T, typename Traits, typename A>
size_t bytes_of(const std::basic_string<T, Traits, A>& c) {
  return (c.capacity() + 1) * sizeof(T);  // with the final 0
}
template <typename Container>
typename Container::value_type secret() {
  typename Container::value_type v;
  memset(&v, kSecret, sizeof(v));
  return v;
}
typedef std::vector<std::pair<size_t, size_t>> Buffers;
template <typename Container>
void add_buffer(Buffers& b, const Container& c) {
  const size_t p = reinterpret_cast<size_t>(c.data()), o = reinterpret_cast<size_t>(&c);
  if (bytes_of(c) && (p < o || p >= o + sizeof(c)))  // short strings have none
    b.push_back({p, bytes_of(c)});
}
void check_locked(const Buffers& buffers, const std::function<std::string()>& where) {
  const size_t size = static_cast<size_t>(sysconf(_SC_PAGESIZE));
  g_inside = true;
  std::set<size_t> want, got;
  for (const auto& b : buffers)
    for (size_t p = b.first / size; p <= (b.first + b.second - 1) / size; ++p)
      want.insert(p);
  for (const auto& p : *g_pages) {
    got.insert(p.first);
    VF_CHECK(p.second == 1, where() << ": a page was locked twice");
  }
  VF_CHECK(got == want, where() << ": " << got.size() << " pages are locked, " << want.size() << " hold secrets");
  g_inside = false;
}
template <typename Container>
void contain(const std::string& kind, bool locks) {
  typedef typename Container::value_type T;
  const std::vector<std::string> names = {"append 1",  "append 40",   "append 5000", "assign 100", "erase front", "resize 300",
                                          "clear",     "shrink",      "copy to b",   "move to b",  "swap",        "b = fresh 64",
                                          "reserve 900"};
  const size_t depth = vf::thorough ? 5 : 4;
  std::vector<size_t> h;
  std::function<void()> more = [&] {
    if (h.size() == depth) {
      std::map<size_t, int> pages;
      std::string at;
      at.reserve(500);
      auto where = [&] { return kind + ": " + at; };
      g_pages = &pages;
      g_block_count = 0;
      g_leak = nullptr;
      g_only_locked = locks;
      {
        Container a, b;
        for (size_t op : h) {
          at += names[op] + ", ";
          g_watching = true;
          switch (op) {
            case 0: a.push_back(secret<Container>()); break;
            case 1: a.insert(a.end(), 40, secret<Container>()); break;
            case 2: a.insert(a.end(), 5000, secret<Container>()); break;
            case 3: a.assign(100, secret<Container>()); break;
            case 4: if (!a.empty()) a.erase(a.begin()); break;
            case 5: a.resize(300, secret<Container>()); break;
            case 6: a.clear(); break;
            case 7: a.shrink_to_fit(); break;
            case 8: b = a; break;
            case 9: b = std::move(a); a.clear(); break;
            case 10: std::swap(a, b); break;
            case 11: b = Container(64, secret<Container>()); break;
            case 12: a.reserve(900); break;
          }
          g_watching = false;
          VF_CHECK(g_leak == nullptr, where() << g_leak);
          if (locks) {
            Buffers buffers;
            add_buffer(buffers, a);
            add_buffer(buffers, b);
            check_locked(buffers, where);
          }
          ++vf::transitions;
        }
        g_watching = true;
      }
      g_watching = false;
      at += "end";
      VF_CHECK(g_leak == nullptr, where() << ": " << g_leak);
      VF_CHECK(g_block_count == 0, where() << ": memory was not given back");
      if (locks)
        check_locked({}, where);
      g_only_locked = false;
      g_pages = nullptr;
      ++vf::histories;
      return;
    }
    for (size_t op = 0; op < names.size(); ++op) {
      h.push_back(op);
      if (h.size() != 2 || vf::take())
        more();
      h.pop_back();
    }
  };
  more();
}
template <typename T>
using Safe = detail::safe_allocator<T>;
template <typename T>
using Zero = detail::zero_after_free_allocator<T>;
void strings() {
  typedef std::basic_string<char, std::char_traits<char>, Safe<char>> SafeString;
  typedef std::basic_string<char, std::char_traits<char>, Zero<char>> ZeroString;
  contain<std::vector<char, Safe<char>>>("locked bytes", true);
  contain<std::vector<uint64_t, Safe<uint64_t>>>("locked words", true);
  contain<SafeString>("locked string", true);
  contain<std::vector<char, Zero<char>>>("zeroed bytes", false);
  contain<std::vector<uint32_t, Zero<uint32_t>>>("zeroed words", false);
  contain<ZeroString>("zeroed string", false);
}
// every size, on its own
void sizes() {
  for (size_t n = 1; n < 9000; n += n < 300 ? 1 : 61) {
    if (!vf::take())
      continue;
    std::map<size_t, int> pages;
    g_pages = &pages;
    g_block_count = 0;
    g_leak = nullptr;
    g_watching = true;
    Safe<char> a;
    Zero<char> z;
    char* p = a.allocate(n);
    g_watching = false;
    check_locked({{reinterpret_cast<size_t>(p), n}}, [&] { return "allocation of " + std::to_string(n); });
    g_watching = true;
    char* q = z.allocate(n);
    memset(p, kSecret, n);
    memset(q, kSecret, n);
    a.deallocate(p, n);
    z.deallocate(q, n);
    g_watching = false;
    VF_CHECK(g_leak == nullptr && g_block_count == 0, "allocation of " << n << ": " << g_leak);
    check_locked({}, [&] { return "release of " + std::to_string(n); });
    g_pages = nullptr;
    vf::transitions += 4;
  }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"counting", counting}, {"strings", strings}, {"sizes", sizes}});
}

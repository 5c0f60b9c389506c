// C07: the LRU cache and filter: every operation history to a depth, under a virtual clock, against
// a reference list.
#include <time.h>

#include <deque>
#include <string>
#include <vector>

static long long fake_ns = 0;
static bool use_fake = false;
#include <sys/syscall.h>
#include <unistd.h>
extern "C" int clock_gettime(clockid_t clk, struct timespec* ts) noexcept {
  if (!use_fake)
    return static_cast<int>(syscall(SYS_clock_gettime, clk, ts));
  ts->tv_sec = 5000 + fake_ns / 1000000000;
  ts->tv_nsec = fake_ns % 1000000000;
  return 0;
}

#include "maidsafe/common/containers/lru_cache.h"
#include "maidsafe/common/error.h"

#include "common/vf.h"

namespace {
using maidsafe::LruCache;
typedef std::chrono::nanoseconds ns;

struct Entry {
  int key;
  std::string value;
  long long born;
};
// least recently used first
struct Model {
  size_t capacity;
  long long ttl;
  std::deque<Entry> e;
  Model(size_t c, long long t) : capacity(c), ttl(t) {}
  int find(int k) const {
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].key == k)
        return static_cast<int>(i);
    return -1;
  }
  void add(int k, const std::string& v) {
    if (capacity == 0 || find(k) >= 0)
      return;
    if (e.size() == capacity)
      e.pop_front();
    while (ttl && !e.empty() && e.front().born + ttl < fake_ns)
      e.pop_front();
    e.push_back({k, v, fake_ns});
  }
  void use(int i) {
    Entry x = e[static_cast<size_t>(i)];
    e.erase(e.begin() + i);
    e.push_back(x);
  }
};

std::string key(int k) { return "a key that is longer than a small string " + std::to_string(k); }

std::string describe(const Model& m) {
  std::string s;
  for (auto& x : m.e)
    s += std::to_string(x.key) + "@" + std::to_string(x.born) + " ";
  return s;
}

template <typename C>
void same(const C& c, const Model& m, int keys, const std::string& history) {
  VF_CHECK(c.size() == m.e.size(), "after " << history << ": size " << c.size() << " instead of " << m.e.size() << " (" << describe(m) << ")");
  VF_CHECK(c.size() <= m.capacity, "after " << history << ": more than the capacity");
  for (int k = 0; k < keys; ++k)
    VF_CHECK(c.Check(key(k)) == (m.find(k) >= 0), "after " << history << ": key " << k << (m.find(k) >= 0 ? " is missing" : " is present"));
}

void note(const Model& m) {
  uint64_t h = m.capacity * 31 + static_cast<uint64_t>(m.ttl);
  for (auto& x : m.e)
    h = h * 1000003 + static_cast<uint64_t>(x.key) * 64 + static_cast<uint64_t>(std::min(fake_ns - x.born, m.ttl + 1));
  vf::state(h);
}

std::unique_ptr<LruCache<std::string, std::string>> make_cache(size_t cap, long long ttl) {
  typedef LruCache<std::string, std::string> C;
  if (ttl && cap == 1000)
    return std::unique_ptr<C>(new C(std::chrono::duration_cast<std::chrono::steady_clock::duration>(ns(ttl))));
  if (ttl)
    return std::unique_ptr<C>(new C(cap, std::chrono::duration_cast<std::chrono::steady_clock::duration>(ns(ttl))));
  return std::unique_ptr<C>(new C(cap));
}

// all histories of `depth` operations after those of `start`
void cache(size_t cap, long long ttl, int keys, int depth, const std::vector<int>& start = std::vector<int>()) {
  const int ops = keys * 3 + (ttl ? 2 : 1);  // without a time to live, time passing changes nothing
  uint64_t total = 1;
  for (int i = 0; i < depth; ++i)
    total *= static_cast<uint64_t>(ops);
  std::string history;
  for (uint64_t h = 0; h < total; ++h)
    if (vf::take()) {
      fake_ns = 0;
      auto c = make_cache(cap, ttl);
      Model m(cap == 1000 ? std::numeric_limits<size_t>::max() : cap, ttl);
      uint64_t x = h;
      history = "cache(" + std::to_string(cap) + "," + std::to_string(ttl) + ")";
      for (int d = -static_cast<int>(start.size()); d < depth; ++d) {
        int op = d < 0 ? start[start.size() - static_cast<size_t>(-d)] : static_cast<int>(x % static_cast<uint64_t>(ops)), k = op % keys;
        if (d >= 0)
          x /= static_cast<uint64_t>(ops);
        ++vf::transitions;
        if (op < keys) {
          std::string v = "a value that is longer than a small string " + std::to_string(d);
          history += " add" + std::to_string(k);
          c->Add(key(k), v);
          m.add(k, v);
        } else if (op < 2 * keys) {
          history += " get" + std::to_string(k);
          auto r = c->Get(key(k));
          int i = m.find(k);
          VF_CHECK(r.valid() == (i >= 0), history << (i >= 0 ? " fails" : " succeeds"));
          if (i >= 0) {
            VF_CHECK(*r == m.e[static_cast<size_t>(i)].value, history << " gives " << *r);
            m.use(i);
          } else {
            VF_CHECK(r.error().code() == maidsafe::make_error_code(maidsafe::CommonErrors::no_such_element), history << " gives the wrong error");
          }
        } else if (op < 3 * keys) {
          history += " delete" + std::to_string(k);
          c->Delete(key(k));
          int i = m.find(k);
          if (i >= 0)
            m.e.erase(m.e.begin() + i);
        } else {
          int t = op - 3 * keys;
          fake_ns += !ttl ? 1000000000000 : t == 0 ? 1 : ttl;
          history += !ttl ? " +1000s" : t == 0 ? " +1" : " +ttl";
        }
        same(*c, m, keys, history);
        note(m);
      }
      for (int k = 0; k < keys; ++k) {  // what is held, in the end
        auto r = c->Get(key(k));
        int i = m.find(k);
        VF_CHECK(r.valid() == (i >= 0) && (i < 0 || *r == m.e[static_cast<size_t>(i)].value), history << ": final value of key " << k);
      }
      ++vf::histories;
      vf::outcome(vf::hash_str(describe(m)));
    }
  vf::sample("capacity " + std::to_string(cap) + ", ttl " + std::to_string(ttl) + ": all " + std::to_string(total) +
             " histories of " + std::to_string(depth) + " operations; the last: " + history);
}

void filter(size_t cap, long long ttl, int keys, int depth) {
  const int ops = keys + (ttl ? 2 : 1);
  uint64_t total = 1;
  for (int i = 0; i < depth; ++i)
    total *= static_cast<uint64_t>(ops);
  typedef LruCache<std::string, void> C;
  for (uint64_t h = 0; h < total; ++h)
    if (vf::take()) {
      fake_ns = 0;
      std::unique_ptr<C> c(!ttl ? new C(cap) : cap == 1000 ? new C(ns(ttl)) : new C(cap, ns(ttl)));
      Model m(cap == 1000 ? std::numeric_limits<size_t>::max() : cap, ttl);
      uint64_t x = h;
      std::string history = "filter(" + std::to_string(cap) + "," + std::to_string(ttl) + ")";
      for (int d = 0; d < depth; ++d) {
        int op = static_cast<int>(x % static_cast<uint64_t>(ops));
        x /= static_cast<uint64_t>(ops);
        ++vf::transitions;
        if (op < keys) {
          history += " add" + std::to_string(op);
          c->Add(key(op));
          m.add(op, "");
        } else {
          fake_ns += !ttl ? 1000000000000 : op == keys ? 1 : ttl;
          history += !ttl ? " +1000s" : op == keys ? " +1" : " +ttl";
        }
        same(*c, m, keys, history);
        note(m);
      }
      ++vf::histories;
    }
  vf::sample("filter of capacity " + std::to_string(cap) + ", ttl " + std::to_string(ttl) + ": all histories of " +
             std::to_string(depth) + " operations");
}

void capacity_only() {
  use_fake = true;
  int d = vf::thorough ? 6 : 5;
  for (size_t cap : {1u, 2u, 3u})
    cache(cap, 0, 4, d);
  cache(2, 0, 3, vf::thorough ? 7 : 6);
  use_fake = false;
}
void time_to_live() {
  use_fake = true;
  int d = vf::thorough ? 6 : 5;
  cache(1000, 2, 3, d);
  cache(2, 2, 3, d);
  cache(3, 3, 4, vf::thorough ? 6 : 4);
  // a full cache in which time has passed between the entries: adds of keys 0 and 1 (and 2), +1 after
  // the first, and then everything
  cache(2, 2, 3, d, {0, 3 * 3, 1});
  cache(2, 2, 4, d - 1, {0, 3 * 4, 1, 4 + 0});
  cache(3, 3, 4, d - 1, {0, 3 * 4, 1, 3 * 4, 2});
  use_fake = false;
}
void filters() {
  use_fake = true;
  int d = vf::thorough ? 8 : 6;
  filter(1, 0, 3, d);
  filter(2, 0, 4, d);
  filter(3, 0, 5, d);
  filter(2, 2, 3, d);
  filter(1000, 3, 3, d);
  use_fake = false;
}
void zero() {
  use_fake = true;
  cache(0, 0, 2, 3);
  cache(0, 2, 2, 3);
  filter(0, 0, 2, 3);
  filter(0, 2, 2, 3);
  use_fake = false;
}
// long histories: a cache of realistic size walked through in a fixed pattern
void long_run() {
  use_fake = true;
  for (size_t cap : {5u, 50u, 200u})
    if (vf::take()) {
      fake_ns = 0;
      auto c = make_cache(cap, 0);
      Model m(cap, 0);
      unsigned x = 1;
      for (int i = 0; i < 4000; ++i) {
        x = x * 1664525u + 1013904223u;
        int k = static_cast<int>((x >> 16) % (cap * 2));
        ++vf::transitions;
        if (x >> 31) {
          c->Add(key(k), std::to_string(i));
          m.add(k, std::to_string(i));
        } else {
          auto r = c->Get(key(k));
          int j = m.find(k);
          VF_CHECK(r.valid() == (j >= 0) && (j < 0 || *r == m.e[static_cast<size_t>(j)].value), "long run, step " << i);
          if (j >= 0)
            m.use(j);
        }
        VF_CHECK(c->size() == m.e.size(), "long run, step " << i);
      }
    }
  use_fake = false;
}
// every capacity: filled, the oldest used, and two more
void capacities() {
  std::vector<size_t> all;
  for (size_t c = 1; c <= 1100; ++c)
    all.push_back(c);
  for (size_t c : {4096, 32767, 32768, 65535, 65536, 65537, 100000})
    all.push_back(c);
  for (size_t cap : all)
    if (vf::take()) {
      const int n = static_cast<int>(cap);
      auto c = make_cache(cap, 0);
      LruCache<std::string, void> f(cap);
      for (int i = 0; i < n; ++i) {
        c->Add(key(i), std::to_string(i));
        f.Add(key(i));
      }
      VF_CHECK(c->size() == cap && f.size() == cap, "capacity " << cap << ": " << c->size() << " and " << f.size() << " after adding as many");
      VF_CHECK(c->Get(key(0)).valid(), "capacity " << cap << ": the first is missing");
      c->Add(key(n), "n");
      f.Add(key(n));
      c->Add(key(n + 1), "n + 1");
      f.Add(key(n + 1));
      VF_CHECK(c->size() == cap && f.size() == cap, "capacity " << cap << ": " << c->size() << " and " << f.size() << " after two more");
      for (int i : {0, 1, 2, 3, n - 1, n, n + 1}) {
        if (i < 0 || i > n + 1)
          continue;
        // the filter does not count looking; the cache has moved its first entry to the end
        const bool in_filter = i >= 2, in_cache = cap == 1 ? i == n + 1 : cap == 2 ? i >= 2 : i == 0 || i >= 3;
        VF_CHECK(f.Check(key(i)) == in_filter, "capacity " << cap << ": entry " << i << " of the filter");
        VF_CHECK(c->Check(key(i)) == in_cache, "capacity " << cap << ": entry " << i << " of the cache");
      }
      vf::transitions += 2 * cap + 20;
    }
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"capacity", capacity_only}, {"time_to_live", time_to_live}, {"filter", filters},
                              {"long_run", long_run}, {"capacities", capacities}, {"capacity_0", zero}});
}

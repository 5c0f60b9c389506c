// C08 / C09 (-DPART): structured data versions against a reference model.  All reachable states of
// trees over a few names are explored breadth first; each transition runs on a fresh real object on
// which the history leading to the state was replayed.
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "maidsafe/common/error.h"
#include "maidsafe/common/data_types/structured_data_versions.h"
#include "maidsafe/common/data_types/structured_data_versions_cereal.h"
#include "maidsafe/common/serialisation/serialisation.h"

#include "common/vf.h"

namespace {
using maidsafe::CommonErrors;
using SDV = maidsafe::StructuredDataVersions;
using VN = SDV::VersionName;
typedef std::vector<VN> Branch;

// names in ascending order; an index of 0 is only valid for a root
struct NameSpec {
  uint64_t index;
  char c;
};
const NameSpec kUsual[] = {{0, 'a'}, {1, 'b'}, {1, 'c'}, {2, 'd'}, {3, 'e'}, {7, 'x'}};
// two versions that can only be roots, and one that is never put itself
const NameSpec kRoots[] = {{0, 'a'}, {0, 'b'}, {1, 'c'}, {2, 'd'}, {3, 'e'}, {0, 'x'}};
// versions that differ in their index only
const NameSpec kSameIds[] = {{0, 'a'}, {1, 'a'}, {2, 'a'}, {2, 'b'}, {3, 'b'}, {3, 'a'}};
const NameSpec* kNames = kUsual;
const int kNone = -1;
VN make_name(int n) {
  if (n == kNone)
    return VN();
  return VN(kNames[n].index, maidsafe::Identity(std::string(64, kNames[n].c)));
}
const VN& name(int n) {
  static std::map<const NameSpec*, std::vector<VN>> names;
  std::vector<VN>& all = names[kNames];
  if (all.empty())
    for (int i = -1; i < 6; ++i)
      all.push_back(make_name(i));
  return all[static_cast<size_t>(n + 1)];
}
std::string show(int n) {
  return n == kNone ? "none" : std::to_string(kNames[n].index) + "-" + kNames[n].c;
}
std::string show(const VN& v) {
  return v.id.IsInitialised() ? std::to_string(v.index) + "-" + static_cast<char>(v.id.string()[0]) : "none";
}
std::string show(const Branch& b) {
  std::string s;
  for (auto& v : b)
    s += (s.empty() ? "" : " ") + show(v);
  return "[" + s + "]";
}

struct Model {
  uint32_t maxv, maxb;
  std::map<int, int> par;  // every version with the parent it was put under
  int root = -2;           // -2: empty tree

  bool has(int n) const { return par.count(n) != 0; }
  std::vector<int> kids(int n) const {
    std::vector<int> k;
    for (auto& p : par)
      if (p.second == n && n != kNone)
        k.push_back(p.first);
    return k;
  }
  bool front(int n) const { return par.at(n) == kNone || !has(par.at(n)); }
  int front_of(int n) const {
    while (!front(n))
      n = par.at(n);
    return n;
  }
  std::vector<int> tips() const {  // highest first
    std::vector<int> t;
    for (auto& p : par)
      if (kids(p.first).empty())
        t.insert(t.begin(), p.first);
    return t;
  }
  int lowest_other_front(int except) const {
    for (auto& p : par)
      if (p.first != except && front(p.first))
        return p.first;
    return -2;
  }
  std::string key() const {
    std::string k = std::to_string(root) + ";";
    for (auto& p : par)
      k += std::to_string(p.first) + "<" + std::to_string(p.second) + " ";
    return k;
  }

  struct Result {
    std::string what;  // "none", "removed x", or the error
    std::string also;  // another permitted answer (that leaves the tree as it was)
  };
  // Inserting an index of 0 below an initialised parent is not specified except that it is refused
  // when there is a proper root.
  bool specified(int oldv, int newv) const {
    return kNames[newv].index != 0 || oldv == kNone || has(newv) || par.empty() ||
           (root >= 0 && par.at(root) == kNone);
  }
  Result put(int oldv, int newv) {
    const std::string kInvalid = "invalid_argument", kLimit = "cannot_exceed_limit";
    if (has(newv))
      return {par[newv] == oldv ? "none" : kInvalid, ""};
    bool is_root = oldv == kNone || par.empty() || kNames[newv].index == 0;
    if (is_root && root >= 0 && par[root] == kNone)
      return {kInvalid, ""};
    if (oldv == newv)
      return {kInvalid, ""};
    bool is_orphan = !is_root && !has(oldv);
    auto k = kids(newv);
    bool takes_root = std::count(k.begin(), k.end(), root) != 0;
    if (!is_root && !is_orphan && par[front_of(oldv)] == newv)
      return {kInvalid, ""};  // a cycle
    if (is_orphan && kNames[root].index == 0 && kNames[oldv].index == 0)
      return {kInvalid, ""};
    bool erase = false;
    if (par.size() == maxv) {
      if (takes_root || is_root)
        return {"removed " + show(newv), ""};
      erase = true;
    }
    bool grows = k.empty() && (is_root || is_orphan || !kids(oldv).empty());
    if (grows && tips().size() == maxb) {
      if (is_root)
        return {kLimit, "removed " + show(newv)};
      if (!kids(root).empty())
        return {kLimit, ""};
      erase = true;
    }
    par[newv] = oldv;
    if (is_root)
      root = newv;
    else if (takes_root)
      root = front_of(newv);
    else if (erase) {
      int gone = root;
      auto gk = kids(gone);
      int next = gk.empty() ? lowest_other_front(gone) : gk[0];
      par.erase(gone);
      root = next;
      return {"removed " + show(gone), ""};
    }
    return {"none", ""};
  }
  std::string tip_error(int n) const {
    if (!has(n))
      return "no_such_element";
    return kids(n).empty() ? "" : "invalid_argument";
  }
  std::string del(int n) {
    std::string e = tip_error(n);
    if (!e.empty())
      return e;
    for (;;) {
      int p = par[n];
      bool f = front(n);
      if (f && n == root)
        root = lowest_other_front(n);
      par.erase(n);
      if (f || !kids(p).empty())
        return "";
      n = p;
    }
  }
  Branch branch(int n) const {
    Branch b{name(n)};
    while (!front(n))
      b.push_back(name(n = par.at(n)));
    return b;
  }
};

template <typename F>
std::string run(F f) {
  try {
    return f();
  } catch (const maidsafe::maidsafe_error& e) {
    if (e.code() == make_error_code(CommonErrors::invalid_argument))
      return "invalid_argument";
    if (e.code() == make_error_code(CommonErrors::cannot_exceed_limit))
      return "cannot_exceed_limit";
    if (e.code() == make_error_code(CommonErrors::no_such_element))
      return "no_such_element";
    return "error " + e.code().message();
  } catch (const std::exception& e) {
    return std::string("exception ") + e.what();
  }
}

struct Op {
  int kind, a, b;  // 0: put(a, b); 1: delete b; 2: clear
};
std::string show(const Op& o) {
  return o.kind == 0 ? "Put(" + show(o.a) + "," + show(o.b) + ")" : o.kind == 1 ? "Delete(" + show(o.b) + ")" : "clear()";
}
std::string show(const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h)
    s += " " + show(o);
  return s;
}

// exactly the queries' answers that the model gives
void same(const SDV& v, const Model& m, const std::string& history) {
  Branch tips;
  for (int t : m.tips())
    tips.push_back(name(t));
  Branch got = v.Get();
  VF_CHECK(got == tips, history << ": the tips are " << show(got) << ", expected " << show(tips));
  VF_CHECK(v.max_versions() == m.maxv && v.max_branches() == m.maxb, history << ": limits");
  for (int n = kNone; n < 6; ++n) {
    std::string want = n == kNone ? "no_such_element" : m.tip_error(n);
    if (want.empty())
      want = show(m.branch(n));
    std::string is = run([&] { return show(v.GetBranch(name(n))); });
    VF_CHECK(is == want, history << ": GetBranch(" << show(n) << ") gives " << is << ", expected " << want);
  }
}
std::string bytes(const SDV& v) {
  auto s = v.Serialise();
  return std::string(s->string().begin(), s->string().end());
}

// applies one operation to both; checks the answer
void apply(SDV& v, Model& m, const Op& o, const std::string& history) {
  ++vf::transitions;
  std::string is, want, also;
  if (o.kind == 0) {
    is = run([&]() -> std::string {
      auto r = v.Put(name(o.a), name(o.b));
      return r ? "removed " + show(*r) : "none";
    });
    auto r = m.put(o.a, o.b);
    want = r.what;
    also = r.also;
  } else if (o.kind == 1) {
    is = run([&]() -> std::string {
      v.DeleteBranchUntilFork(name(o.b));
      return "";
    });
    want = m.del(o.b);
  } else {
    v.clear();
    m.par.clear();
    m.root = -2;
  }
  VF_CHECK(is == want || (!also.empty() && is == also), history << ": gives '" << is << "', expected '" << want << "'");
}

std::vector<Op> alphabet(int names) {
  std::vector<Op> ops;
  std::vector<int> olds{kNone};
  for (int n = 0; n < names; ++n)
    olds.push_back(n);
  olds.push_back(5);
  for (int o : olds)
    for (int n = 0; n < names; ++n)
      ops.push_back({0, o, n});
  for (int n = 0; n < names; ++n)
    ops.push_back({1, 0, n});
  ops.push_back({2, 0, 0});
  return ops;
}

struct State {
  Model m;
  std::vector<Op> history;
};
std::unique_ptr<SDV> build(const Model& limits, const std::vector<Op>& h) {
  std::unique_ptr<SDV> v(new SDV(limits.maxv, limits.maxb));
  for (auto& o : h)
    run([&]() -> std::string {
      if (o.kind == 0)
        v->Put(name(o.a), name(o.b));
      else if (o.kind == 1)
        v->DeleteBranchUntilFork(name(o.b));
      else
        v->clear();
      return "";
    });
  return v;
}

// All states reachable with `names` names under the limits.
std::vector<State> explore(uint32_t maxv, uint32_t maxb, int names, size_t depth, bool check) {
  auto ops = alphabet(names);
  Model start;
  start.maxv = maxv;
  start.maxb = maxb;
  std::map<std::string, std::string> seen;  // model state -> serialised form
  std::vector<State> all{{start, {}}};
  seen[start.key()] = bytes(*build(start, {}));
  for (size_t i = 0; i < all.size(); ++i) {
    vf::note();
    State s = all[i];
    if (s.history.size() >= depth)
      continue;
    for (auto& o : ops) {
      if (o.kind == 0 && !s.m.specified(o.a, o.b))
        continue;
      vf::note();
      std::vector<Op> h = s.history;
      h.push_back(o);
      std::string hs = "limits " + std::to_string(maxv) + "," + std::to_string(maxb) + ":" + show(h);
      auto v = build(s.m, s.history);
      std::string before = bytes(*v), key = s.m.key();
      Model m = s.m;
      if (check) {
        apply(*v, m, o, hs);
        same(*v, m, hs);
      } else {
        if (o.kind == 0)
          m.put(o.a, o.b);
        else if (o.kind == 1)
          m.del(o.b);
        else
          m.par.clear(), m.root = -2;
        v = build(s.m, h);
      }
      std::string now = bytes(*v);
      if (check && m.key() == key)
        VF_CHECK(now == before, hs << ": changed the tree");
      auto r = seen.insert({m.key(), now});
      if (r.second) {
        all.push_back({m, h});
        if (check) {
          vf::state(vf::hash_str(m.key(), maxv * 31 + maxb + (kNames[1].c == kUsual[1].c ? 0 : 1000 + kNames[1].index)));
          vf::outcome(vf::hash_str(now));
        }
      } else if (check) {
        VF_CHECK(r.first->second == now, hs << ": serialises differently from the same tree built in another order");
      }
      if (check)
        ++vf::histories;
    }
  }
  return all;
}

struct Limits {
  uint32_t v, b;
};
const Limits kLimits[] = {{100, 100}, {1, 1}, {2, 1}, {2, 2}, {3, 1}, {3, 2}, {3, 3}, {4, 1}, {4, 2}, {4, 3}, {100, 1}, {100, 2}, {100, 3}, {3, 100}};

void reachable(int names, size_t depth) {
  vf::set_case_limit(60);
  for (auto& l : kLimits)
    if (vf::take()) {
      auto all = explore(l.v, l.b, names, depth, true);
      vf::sample("limits " + std::to_string(l.v) + " versions, " + std::to_string(l.b) + " branches, " + std::to_string(names) +
                 " names: " + std::to_string(all.size()) + " reachable states, the last by" + show(all.back().history));
    }
}
void with(const NameSpec* names, void (*f)()) {
  kNames = names;
  f();
  kNames = kUsual;
}
#if PART == 8
void reachable4() { reachable(4, 100); }
void two_roots() {
  with(kRoots, reachable4);
}
void same_ids() {
  with(kSameIds, reachable4);
}
void reachable5() {
  if (vf::thorough)
    reachable(5, 100);
  else {
    vf::set_case_limit(60);
    for (auto& l : std::vector<Limits>{{100, 100}, {4, 2}, {5, 3}, {3, 2}, {100, 2}})
      if (vf::take())
        explore(l.v, l.b, 5, 3, true);
    vf::sample("5 names: all histories of 3 operations");
  }
}

// Every order of insertion of every tree of five versions gives the same tree.
void orders() {
  vf::set_case_limit(60);
  // parents[i] for versions 1..4 of {0-a,1-b,1-c,2-d,3-e}: any other version
  int n = 5;
  for (int code = 0; code < 625; ++code) {
    std::vector<int> par{kNone};
    int x = code;
    for (int i = 1; i < n; ++i, x /= 5)
      par.push_back(x % 5);
    bool tree = true;
    for (int i = 1; i < n && tree; ++i) {
      int k = i, steps = 0;
      while (k != 0 && steps <= n)
        k = par[static_cast<size_t>(k)], ++steps;
      tree = k == 0;
    }
    if (!tree || !vf::take())
      continue;
    std::vector<int> order{0, 1, 2, 3, 4};
    std::string want;
    do {
      SDV v(5, 5);
      Model m;
      m.maxv = m.maxb = 5;
      std::string h = "orders:";
      for (int i : order) {
        h += " Put(" + show(par[static_cast<size_t>(i)]) + "," + show(i) + ")";
        apply(v, m, {0, par[static_cast<size_t>(i)], i}, h);
      }
      same(v, m, h);
      if (want.empty())
        want = bytes(v);
      VF_CHECK(want == bytes(v), h << ": another tree than in another order");
      ++vf::histories;
    } while (std::next_permutation(order.begin(), order.end()));
  }
  vf::sample("all trees of 5 versions, all 120 orders of insertion");
}

void other() {
  if (!vf::take())
    return;
  for (uint32_t v : {0u, 1u, 5u})
    for (uint32_t b : {0u, 1u, 5u}) {
      std::string r = run([&]() -> std::string {
        SDV s(v, b);
        return "";
      });
      VF_CHECK((r == "") == (v && b) && (r == "" || r == "invalid_argument"), "limits " << v << "," << b << ": " << r);
    }
  SDV s(5, 5);
  for (int n = kNone; n < 6; ++n)
    VF_CHECK(run([&]() -> std::string {
               s.Put(name(n), VN(3, maidsafe::Identity()));
               return "";
             }) == "invalid_argument", "a version without an id was accepted");
  // ordering of names
  for (int a = kNone; a < 6; ++a)
    for (int b = kNone; b < 6; ++b) {
      auto& x = name(a);
      auto& y = name(b);
      auto kx = std::make_pair(x.index, x.id.IsInitialised() ? kNames[a].c : 0), ky = std::make_pair(y.index, y.id.IsInitialised() ? kNames[b].c : 0);
      VF_CHECK((x == y) == (kx == ky) && (x != y) == (kx != ky) && (x < y) == (kx < ky) && (x > y) == (kx > ky) &&
                   (x <= y) == (kx <= ky) && (x >= y) == (kx >= ky), show(a) << " and " << show(b));
    }
}
#else
SDV::serialised_type wrap(const std::string& s) {
  return SDV::serialised_type(maidsafe::NonEmptyString(s));
}
std::unique_ptr<SDV> parse(const std::string& s) {
  return std::unique_ptr<SDV>(new SDV(wrap(s)));
}

// every later operation behaves as the model says
void all_operations(const std::function<std::unique_ptr<SDV>()>& make, const Model& m, const std::vector<Op>& ops, const std::string& h) {
  for (auto& o : ops) {
    if (o.kind == 0 && !m.specified(o.a, o.b))
      continue;
    auto v = make();
    Model c = m;
    apply(*v, c, o, h + show(o));
    same(*v, c, h + show(o));
  }
}

void roundtrip() {
  vf::set_case_limit(60);
  auto ops = alphabet(4);
  for (auto& l : kLimits) {
    auto all = explore(l.v, l.b, 4, vf::thorough ? 100 : 4, false);
    for (auto& s : all) {
      if (!vf::take())
        continue;
      auto v = build(s.m, s.history);
      vf::state(vf::hash_str(s.m.key(), l.v * 31 + l.b));
      ++vf::histories;
      std::string b = bytes(*v), h = "limits " + std::to_string(l.v) + "," + std::to_string(l.b) + ":" + show(s.history);
      same(*v, s.m, h);
      auto p = parse(b);
      same(*p, s.m, h + " serialised and parsed:");
      VF_CHECK(bytes(*p) == b, h << ": the parsed tree serialises differently");
      all_operations([&] { return parse(b); }, s.m, ops, h + " serialised and parsed: ");
      SDV e(3, 3);
      e.Put(VN(), name(0));
      e = SDV(wrap(b));
      same(e, s.m, h + " assigned:");
      VF_CHECK(bytes(e) == b, h << ": the assigned tree serialises differently");
    }
    if (!all.empty())
      vf::sample("limits " + std::to_string(l.v) + "," + std::to_string(l.b) + ": " + std::to_string(all.size()) + " states, all operations after parsing");
  }
}

void swaps() {
  vf::set_case_limit(60);
  auto ops = alphabet(3);
  auto a = explore(3, 2, 3, vf::thorough ? 6 : 3, false), b = explore(100, 100, 3, vf::thorough ? 6 : 3, false);
  for (auto& s : a)
    for (auto& t : b) {
      if (!vf::take())
        continue;
      auto x = build(s.m, s.history), y = build(t.m, t.history);
      vf::state(vf::hash_str(s.m.key() + "|" + t.m.key()));
      ++vf::histories;
      std::string bx = bytes(*x), by = bytes(*y), h = "swap of" + show(s.history) + " and" + show(t.history) + ": ";
      using std::swap;
      swap(*x, *y);
      same(*x, t.m, h);
      same(*y, s.m, h);
      VF_CHECK(bytes(*x) == by && bytes(*y) == bx, h << "serialise differently");
      for (auto& o : ops) {
        if (t.m.specified(o.a, o.b) || o.kind) {
          auto p = build(s.m, s.history), q = build(t.m, t.history);
          swap(*p, *q);
          Model m = t.m;
          apply(*p, m, o, h + show(o));
          same(*p, m, h + show(o));
          same(*q, s.m, h + show(o) + " on the other");
        }
        if (s.m.specified(o.a, o.b) || o.kind) {
          auto p = build(s.m, s.history), q = build(t.m, t.history);
          swap(*p, *q);
          Model m = s.m;
          apply(*q, m, o, h + show(o));
          same(*q, m, h + show(o));
        }
      }
    }
  vf::sample("swapping every pair of " + std::to_string(a.size()) + " x " + std::to_string(b.size()) + " states, every operation on both afterwards");
}

void merging() {
  vf::set_case_limit(60);
  int names = 3;
  auto incoming = explore(100, 100, names, 4, false), target = explore(7, 7, names, 4, false);
  auto small = explore(2, 1, names, 4, false);
  incoming.insert(incoming.end(), small.begin(), small.end());
  for (auto& s : target)
    for (auto& t : incoming) {
      if (!vf::take())
        continue;
      auto x = build(s.m, s.history), y = build(t.m, t.history);
      std::string before = bytes(*x), h = "merging" + show(t.history) + " (limits " + std::to_string(t.m.maxv) + "," + std::to_string(t.m.maxb) + ") into" + show(s.history) + ": ";
      std::string r = run([&]() -> std::string {
        x->ApplySerialised(y->Serialise());
        return "";
      });
      ++vf::transitions;
      ++vf::histories;
      // the union of both
      bool valid = true;
      Model u = t.m;
      int roots = 0;
      for (auto& p : s.m.par) {
        auto f = u.par.insert(p);
        valid = valid && (f.second || f.first->second == p.second);
      }
      for (auto& p : u.par)
        roots += p.second == kNone;
      valid = valid && roots <= 1;
      for (auto& p : u.par) {  // no cycles
        int n = p.first, steps = 0;
        while (valid && u.par.count(n) && steps < 9)
          n = u.par[n], ++steps;
        valid = valid && steps < 9;
      }
      bool unclear = false;  // a parent of index 0 that cannot be the root, or two that would be
      std::set<int> zeros;
      for (auto& p : u.par) {
        unclear = unclear || (kNames[p.first].index == 0 && p.second != kNone);
        if (kNames[p.first].index == 0)
          zeros.insert(p.first);
        if (p.second != kNone && kNames[p.second].index == 0)
          zeros.insert(p.second);
      }
      unclear = unclear || zeros.size() > 1;
      bool fits = u.par.size() <= t.m.maxv && u.par.size() <= t.m.maxb;
      vf::outcome(vf::hash_str(r, u.par.size() * 8 + valid * 4 + fits * 2));
      if (r != "") {
        VF_CHECK(bytes(*x) == before, h << "failed with " << r << " and changed the tree");
        same(*x, s.m, h);
        VF_CHECK(!valid || !fits || unclear, h << "refused: " << r);
      } else if (valid && fits && !unclear) {
        same(*x, u, h);
      } else {
        VF_CHECK(valid || unclear || !fits, h << "accepted contradicting trees");
        VF_CHECK(x->max_versions() == t.m.maxv && x->max_branches() == t.m.maxb, h << "limits");
        auto tips = x->Get();
        std::set<VN> left;
        VF_CHECK(tips.size() <= t.m.maxb, h << "more branches than allowed");
        for (auto& tip : tips)
          for (auto& n : x->GetBranch(tip))
            left.insert(n);
        VF_CHECK(left.size() <= t.m.maxv, h << "more versions than allowed");
        VF_CHECK(bytes(*parse(bytes(*x))) == bytes(*x), h << "does not survive serialisation");
      }
    }
  vf::sample("merging every one of " + std::to_string(incoming.size()) + " trees into every one of " + std::to_string(target.size()));
}

bool usable(const std::string& in, const std::string& what) {
  std::unique_ptr<SDV> v;
  try {
    v = parse(in);
  } catch (const maidsafe::maidsafe_error&) {
    return false;
  } catch (const std::exception& e) {
    VF_CHECK(false, what << ": fails with " << e.what());
  }
  auto tips = v->Get();
  VF_CHECK(tips.size() <= v->max_branches(), what << ": accepted with too many branches");
  std::set<VN> left;
  for (auto& t : tips)
    for (auto& n : v->GetBranch(t))
      left.insert(n);
  VF_CHECK(left.size() <= v->max_versions(), what << ": accepted with too many versions");
  return true;
}
void truncated() {
  auto all = explore(100, 100, 4, 3, false);
  for (auto& s : all) {
    if (!vf::take())
      continue;
    std::string b = bytes(*build(s.m, s.history));
    for (size_t n = 1; n < b.size(); ++n)
      VF_CHECK(!usable(b.substr(0, n), "truncated"), "the first " << n << " of " << b.size() << " bytes of the tree built by" << show(s.history) << " are accepted");
    vf::transitions += b.size();
  }
  vf::sample("every proper prefix of the serialised form of " + std::to_string(all.size()) + " trees");
}
// every serialised structure of up to three branches of up to two names
void forged() {
  using maidsafe::detail::StructuredDataVersionsCereal;
  vf::set_case_limit(60);
  // a branch: absent parent (none, 0-a, 7-x), names (0..2 out of 3), forking count of the last name
  struct B {
    int parent;
    std::vector<int> names;
    int fork;
  };
  std::vector<B> shapes;
  std::vector<std::vector<int>> lists{{}, {0}, {1}, {2}, {0, 1}, {1, 2}, {1, 0}, {3}};
  for (int p : {-1, 0, 5})
    for (auto& l : lists)
      for (int f : {-1, 0, 1, 2, 3}) {
        if (l.empty() && f != -1)
          continue;
        shapes.push_back({p, l, f});
      }
  size_t n = shapes.size();
  auto one = [&](const std::vector<size_t>& ids, uint32_t maxv, uint32_t maxb) {
    StructuredDataVersionsCereal c;
    c.max_versions = maxv;
    c.max_branches = maxb;
    std::string what = "forged:";
    for (size_t id : ids) {
      auto& s = shapes[id];
      c.branches.emplace_back();
      auto& b = c.branches.back();
      if (s.parent >= 0)
        b.absent_parent = name(s.parent);
      what += " (parent " + show(s.parent) + ":";
      for (int x : s.names) {
        b.names.push_back(name(x));
        what += " " + show(x);
      }
      if (s.fork >= 0) {
        b.names.back().forking_child_count = static_cast<uint32_t>(s.fork);
        what += " forks " + std::to_string(s.fork);
      }
      what += ")";
    }
    auto d = maidsafe::Serialise(c);
    bool ok = usable(std::string(d.begin(), d.end()), what);
    vf::outcome(ok + 2 * ids.size());
    ++vf::transitions;
    for (size_t id : ids)
      VF_CHECK(!ok || !shapes[id].names.empty(), what << ": a branch without a version was accepted");
    VF_CHECK(!ok || (maxv && maxb), what << ": accepted with a limit of 0");
    std::multiset<int> versions;
    bool forks = false;
    int starts = 0;  // of trees without an absent parent
    for (size_t id : ids) {
      versions.insert(shapes[id].names.begin(), shapes[id].names.end());
      starts += shapes[id].parent < 0 && !forks;
      forks = forks || shapes[id].fork > 0;
    }
    VF_CHECK(!ok || starts <= 1, what << ": two roots were accepted");
    for (int x : versions)
      VF_CHECK(!ok || versions.count(x) == 1, what << ": accepted with a version twice");
  };
  for (size_t i = 0; i < n; ++i)
    if (vf::take()) {
      for (uint32_t v : {0u, 1u, 9u})
        for (uint32_t b : {0u, 1u, 9u})
          one({i}, v, b);
      for (size_t j = 0; j < n; ++j) {
        one({i, j}, 9, 9);
        one({i, j}, 2, 1);
        if (shapes[i].fork >= 2 || vf::thorough)
          for (size_t k = 0; k < n; ++k)
            one({i, j, k}, 9, 9);
      }
    }
  vf::sample("every serialised structure of one and two, and of three branches below a fork, of up to two of four names");
}
#endif
}  // unnamed namespace

int main(int argc, char** argv) {
#if PART == 8
  return vf::run(argc, argv, {{"states_4", reachable4}, {"two_roots", two_roots}, {"same_ids", same_ids}, {"orders", orders}, {"other", other}, {"states_5", reachable5}});
#else
  return vf::run(argc, argv, {{"roundtrip", roundtrip}, {"roundtrip_two_roots", [] { with(kRoots, roundtrip); }}, {"roundtrip_same_ids", [] { with(kSameIds, roundtrip); }}, {"swap", swaps}, {"swap_same_ids", [] { with(kSameIds, swaps); }}, {"merge", merging}, {"merge_two_roots", [] { with(kRoots, merging); }}, {"merge_same_ids", [] { with(kSameIds, merging); }}, {"truncated", truncated}, {"forged", forged}});
#endif
}

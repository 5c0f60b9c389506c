// C06: a DataBuffer whose disk fails, which is destroyed at any moment, or is given wrong limits.
#include <cerrno>

#include "common/buffer_story.h"

namespace {

using story::Story;
using story::Teller;
using maidsafe::DataBuffer;
using maidsafe::DiskUsage;
using maidsafe::MemoryUsage;

vf::ScratchDir* scratch;

// --- failing files
Teller* teller = nullptr;
int faults_left = 0, armed = 0, failing_from_now = 0;
thread_local int writing_file = 0;
bool making = false, fault_while_making = false;

UNSEEN int fault(const char* op, const char*) {
  if (op[0] == 'f' && op[1] == 'o')
    writing_file = op[6] == 'w';
  if (!armed)
    return 0;
  if (op[0] == 'f' && op[1] == 'c' && !writing_file)
    return 0;
  if (failing_from_now)
    return ENOSPC;
  if (faults_left == 0)
    return 0;
  const bool write = op[0] == 'w';
  const int kind = mc::choose(write ? 4 : 3, false, op);
  if (kind == 0)
    return 0;
  --faults_left;
  if (making)
    fault_while_making = true;
  else
    teller->fault();
  if (kind == 1)
    return EIO;
  failing_from_now = 1;
  return kind == 3 ? -1 : EIO;
}
UNSEEN void arm(int on) {
  armed = on;
  if (!on)
    failing_from_now = 0;
}

// All the clients' programs, with up to `faults` failing file operations; then nobody may be blocked, and
// nothing wrong is to be seen.
struct Clients {
  Teller t;
  int done = 0;
  std::vector<std::thread> threads;
  std::vector<std::string> programs;

  explicit Clients(const Story& s) : t(story::fresh_dir(*scratch)), programs(s.clients) { teller = &t; }
  UNSEEN void finished() { ++done; }
  UNSEEN bool all_done() const { return done == static_cast<int>(programs.size()); }
  void start() {
    for (auto& p : programs)
      threads.emplace_back([this, &p] {
        t.perform(p);
        finished();
      });
  }
  void release() {
    for (int i = 0; i < 6 && !all_done(); ++i)  // they wait like this, too
      mc::idle();
    arm(0);
    for (int round = 0; !all_done(); ++round) {
      MC_CHECK(round < 8, "an operation stays blocked");
      t.remove_if(15);
      mc::idle();
    }
    for (auto& x : threads)
      x.join();
  }
};

void with_faults(const Story& s, int faults, bool while_making, bool remove_directory, int refusals = 0) {
  mc::io_fault = fault;
  Clients c(s);
  c.t.may_refuse = refusals;
  faults_left = faults;
  if (while_making) {
    making = true;
    arm(1);
  }
  try {
    c.t.make(s);
  } catch (const std::exception&) {
    making = false;
    arm(0);
    MC_CHECK(fault_while_making, "the buffer cannot be made");
    mc::outcome("not made");
    return;
  }
  making = false;
  if (while_making && fault_while_making)
    arm(0);
  else
    arm(1);
  c.start();
  if (remove_directory) {
    mc::idle();
    mc::idle();
    c.t.fault();
    c.t.on_disk(true);
    c.t.remove_directory();
  }
  c.release();
  // what does it look like afterwards?
  for (int k = 0; k < story::key_count(); ++k)
    c.t.get(k);
  c.t.check_history();
  std::string r = c.t.results();
  std::thread more([&] {
    c.t.store(0, 1);
    mc::idle();
    c.t.get(0);
    c.t.remove(0);
    c.t.get(0);
    c.finished();
  });
  mc::idle();
  if (c.done == static_cast<int>(c.programs.size())) {  // waits for space
    c.t.remove_if(15);
    mc::idle();
  }
  more.join();
  c.t.check_history();
  if (c.t.faulty())
    MC_CHECK(c.t.reported(), "a file operation failed, and no operation has reported an error: " << r);
  c.t.may_refuse = 0;
  c.t.buffer.reset();
  MC_CHECK(!c.t.files().exists, "the buffer's directory is left behind");
  mc::outcome(r);
}
void programs_with_faults(int length, uint64_t memory, uint64_t disk, bool popping, const std::vector<std::string>& before, const std::vector<std::string>& operations, int faults, bool remove_directory, int refusals = 0) {
  Story s;
  s.memory = memory;
  s.disk = disk;
  s.popping = popping;
  std::string p;
  for (auto& b : before)
    p += b + " ";
  for (int i = 0; i < length; ++i)
    p += operations[static_cast<size_t>(mc::choose(static_cast<int>(operations.size()), false, "operation"))] + " ";
  s.clients = {p};
  with_faults(s, faults, false, remove_directory, refusals);
}

// --- destroyed at any moment
void destroyed(const Story& s, bool remove_root, int refusals) {
  Teller t(story::fresh_dir(*scratch));
  t.may_refuse = refusals;
  teller = &t;
  Story st = s;
  st.disk = s.disk;
  t.make(st, remove_root);
  for (auto& c : s.clients)
    t.perform(c);
  t.buffer.reset();
  const auto f = t.files();
  MC_CHECK(f.exists == !remove_root, "the buffer's directory is " << (remove_root ? "left behind" : "removed"));
  if (!remove_root)
    for (int v : t.on_disk(true))
      MC_CHECK(v >= 0, "a file left behind holds something which was never stored");
  if (!remove_root)
    t.remove_directory();
  mc::outcome(t.results() + std::to_string(f.count));
}
void destroy_programs(int length, uint64_t memory, uint64_t disk, bool popping, const std::vector<std::string>& operations) {
  Story s;
  s.memory = memory;
  s.disk = disk;
  s.popping = popping;
  std::string p;
  for (int i = 0; i < length; ++i)
    p += operations[static_cast<size_t>(mc::choose(static_cast<int>(operations.size()), false, "operation"))] + " ";
  s.clients = {p};
  destroyed(s, mc::choose(2, false, "remove the directory") == 0, 0);
}
// The constructor which makes its own directory.
void own_directory(const std::string& program) {
  const std::string temp = story::fresh_dir(*scratch) + "t";
  syscall(SYS_mkdirat, AT_FDCWD, temp.c_str(), 0700);
  setenv("TMPDIR", temp.c_str(), 1);
  {
    Teller t(temp);
    t.limit_set(false, 1000);
    t.buffer.reset(new DataBuffer(MemoryUsage(2), DiskUsage(4), [&](const DataBuffer::KeyType& k, const maidsafe::NonEmptyString& v) { t.popped(k, v); }));
    t.perform(program);
    mc::idle();
    t.check_history();
    t.buffer.reset();
    const auto f = t.files();
    MC_CHECK(f.count == 0, "something is left in the directory for temporary files");
    mc::outcome(t.results());
  }
  syscall(SYS_unlinkat, AT_FDCWD, temp.c_str(), AT_REMOVEDIR);
}

// --- limits
void made_with(int most) {
  const uint64_t memory = static_cast<uint64_t>(mc::choose(most, false, "memory")), disk = static_cast<uint64_t>(mc::choose(most, false, "disk"));
  Teller t(story::fresh_dir(*scratch));
  Story s;
  s.memory = memory;
  s.disk = disk;
  bool ok = true;
  try {
    t.make(s);
  } catch (const std::exception&) {
    ok = false;
  }
  MC_CHECK(ok == (memory <= disk), "a buffer with " << memory << " bytes of memory and " << disk << " on disk was " << (ok ? "" : "not ") << "made");
  if (!ok) {
    MC_CHECK(!t.files().exists, "a buffer which was not made leaves its directory behind");
  } else if (disk) {
    MC_CHECK(t.store(0, static_cast<int>(disk)), "a value which fills the disk cannot be stored");
    t.get(0);
    t.check_history();
  }
  mc::outcome(std::to_string(memory) + "/" + std::to_string(disk) + (ok ? " made" : " not made"));
}
void limits(int length) {
  Teller t(story::fresh_dir(*scratch));
  Story s;
  s.memory = 1;
  s.disk = 2;
  t.make(s);
  t.limit_set(false, 1000);
  uint64_t memory = 1, disk = 2;
  std::string told;
  for (int i = 0; i < length; ++i) {
    const bool of_memory = mc::choose(2, false, "which") == 1;
    const uint64_t n = static_cast<uint64_t>(mc::choose(4, false, "limit"));
    const bool right = of_memory ? n <= disk : memory <= n;
    told += (of_memory ? "m" : "d") + std::to_string(n) + (right ? " " : "! ");
    MC_CHECK(t.set_max(of_memory, n) == right, "setting a limit: " << told);
    if (right)
      (of_memory ? memory : disk) = n;
  }
  if (disk) {
    MC_CHECK(t.store(0, static_cast<int>(disk)), "a value which fills the disk cannot be stored: " << told);
    const int v = t.get(0);
    MC_CHECK(v >= 0, "the value cannot be read: " << told);
  }
  t.check_history();
  // one byte too many is turned away
  MC_CHECK(!t.store(1, static_cast<int>(disk) + 1), "a value bigger than the disk's maximum was stored: " << told);
  mc::outcome(told);
}
// Two threads set limits: it is as if one did first.
void limits_at_once(int each) {
  Teller t(story::fresh_dir(*scratch));
  Story s;
  s.memory = 1;
  s.disk = 2;
  t.make(s);
  struct Set {
    bool of_memory;
    uint64_t n;
    bool ok;
  };
  Set sets[2][2];
  for (auto& a : sets)
    for (int i = 0; i < each; ++i) {
      a[i].of_memory = mc::choose(2, false, "which") == 1;
      a[i].n = static_cast<uint64_t>(mc::choose(4, false, "limit"));
    }
  std::thread other([&] {
    for (int i = 0; i < each; ++i)
      sets[1][i].ok = t.set_max(sets[1][i].of_memory, sets[1][i].n);
  });
  for (int i = 0; i < each; ++i)
    sets[0][i].ok = t.set_max(sets[0][i].of_memory, sets[0][i].n);
  other.join();
  // then these tell what the limits are
  Set probes[4];
  for (int i = 0; i < 4; ++i) {
    probes[i].of_memory = i % 2 == 0;
    probes[i].n = i < 2 ? 2 : 3;
    probes[i].ok = t.set_max(probes[i].of_memory, probes[i].n);
  }
  bool possible = false;
  for (int order = 0; order < (each == 1 ? 2 : 6); ++order) {
    static const char* const orders2[] = {"0011", "0101", "0110", "1001", "1010", "1100"};
    static const char* const orders1[] = {"01", "10"};
    const char* o = each == 1 ? orders1[order] : orders2[order];
    uint64_t memory = 1, disk = 2;
    bool right = true;
    auto apply = [&](const Set& x) {
      const bool ok = x.of_memory ? x.n <= disk : memory <= x.n;
      right &= ok == x.ok;
      if (ok)
        (x.of_memory ? memory : disk) = x.n;
    };
    int at[2] = {0, 0};
    for (; *o; ++o)
      apply(sets[*o - '0'][at[*o - '0']++]);
    for (auto& p : probes)
      apply(p);
    possible |= right;
  }
  std::string told;
  for (auto& a : sets)
    for (int i = 0; i < each; ++i)
      told += (a[i].of_memory ? "m" : "d") + std::to_string(a[i].n) + (a[i].ok ? " " : "! ");
  for (auto& p : probes)
    told += (p.of_memory ? "m" : "d") + std::to_string(p.n) + (p.ok ? " " : "! ");
  MC_CHECK(possible, "no order of setting the limits gives: " << told);
  mc::outcome(told);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  vf::ScratchDir dir;
  scratch = &dir;
  std::vector<mc::Scenario> all;
  typedef std::vector<std::string> Ops;
  auto s = [&](const std::string& name, std::function<void()> body, int q, int t, double weight, bool io) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    x.weight = weight;
    x.io_points = io;
    x.spurious = false;
    all.push_back(x);
  };
  auto story_of = [](uint64_t memory, uint64_t disk, bool popping, Ops clients) {
    Story st;
    st.memory = memory;
    st.disk = disk;
    st.popping = popping;
    st.clients = clients;
    return st;
  };
  auto name_of = [](const Story& st) {
    std::string n = std::to_string(st.memory) + "/" + std::to_string(st.disk) + (st.popping ? " popping" : "") + ": ";
    for (size_t i = 0; i < st.clients.size(); ++i)
      n += (i ? " | " : "") + st.clients[i];
    return n;
  };
  auto f = [&](uint64_t memory, uint64_t disk, bool popping, Ops clients, int faults, int q, int t, double weight = 1) {
    const Story st = story_of(memory, disk, popping, clients);
    s(std::to_string(faults) + " faults, " + name_of(st), [=] { with_faults(st, faults, false, false); }, q, t, weight, true);
  };
  auto gone = [&](uint64_t memory, uint64_t disk, bool popping, Ops clients, int q, int t, double weight = 1) {
    const Story st = story_of(memory, disk, popping, clients);
    s("directory removed, " + name_of(st), [=] { with_faults(st, 0, false, true); }, q, t, weight, true);
  };
  auto d = [&](uint64_t memory, uint64_t disk, bool popping, Ops clients, bool remove, int q, int t, double weight = 1) {
    const Story st = story_of(memory, disk, popping, clients);
    s(std::string("destroyed") + (remove ? ", " : ", directory kept, ") + name_of(st), [=] { destroyed(st, remove, 0); }, q, t, weight, false);
  };
  auto dr = [&](uint64_t memory, uint64_t disk, Ops clients, bool remove, int q, int t, double weight = 1) {
    const Story st = story_of(memory, disk, true, clients);
    s(std::string("functor throws, destroyed") + (remove ? ", " : ", directory kept, ") + name_of(st), [=] { destroyed(st, remove, 2); }, q, t, weight, false);
  };
  s("faults while it is made", [=] { with_faults(story_of(2, 4, true, {"A2 ?A"}), 2, true, false); }, 0, 1, 1, true);
  f(2, 4, true, {"A2 ?A . ?A"}, 2, 1, 2);
  f(2, 8, false, {"A2 B2 . ?A -A ?A ?B"}, 2, 0, 1);
  f(2, 8, false, {"A3 ?A B4 ?B"}, 1, 1, 2, 4);
  f(2, 4, true, {"A3 B3 ?A ?B"}, 1, 1, 2, 4);
  f(2, 4, true, {"A2 B2 C2 . ?A ?B ?C"}, 2, 0, 1);
  f(2, 8, false, {"A3 ?A B4 ?B"}, 2, 0, 1);
  f(2, 4, true, {"A3 B3 ?A ?B"}, 2, 0, 1);
  f(2, 8, false, {"A2 B2", "?A ?A"}, 1, 1, 2, 4);
  f(2, 8, false, {"A2 B2", "?A -A ?A"}, 1, 1, 2, 4);
  f(2, 8, false, {"A2 A1 B2", "-* ?A"}, 1, 1, 2, 4);
  f(2, 4, true, {"A3 B3", "?A C1"}, 1, 1, 2, 6);
  // blocked ones must not stay blocked
  f(2, 4, false, {"A4", ". B3", ". . -A"}, 1, 0, 1, 1);
  f(2, 4, false, {"A4", ". B2 C2", ". . -A"}, 1, 0, 2);
  f(2, 4, false, {"A3", "B3", "C2 a1"}, 1, 0, 2);
  f(2, 4, false, {"A3", "B3", "C5"}, 1, 0, 2);
  s("1 faults, programs", [=] { programs_with_faults(2, 2, 4, true, {}, {"A1", "A2", "A3", "B2", "B4", "?A", "-A", "-*", "."}, 1, false); }, 0, 1, 2, true);
  s("1 faults, programs from a full disk", [=] { programs_with_faults(2, 2, 4, true, {"A2", "B2", "."}, {"A1", "A3", "C2", "?A", "-A", "-=B", "-*"}, 1, false); }, 0, 1, 2, true);
  s("1 faults, programs without handing over", [=] { programs_with_faults(3, 2, 8, false, {}, {"A2", "A4", "B2", "?A", "-A", "-*", "."}, 1, false); }, 0, 1, 3, true);
  s("2 faults, programs", [=] { programs_with_faults(3, 2, 5, true, {}, {"A2", "A3", "B2", "?A", "-A", "-*", "."}, 2, false); }, -1, 0, 5, true);
  // the pop functor fails
  auto refuse = [&](uint64_t memory, uint64_t disk, Ops clients, int refusals, int faults, int q, int t, double weight = 1) {
    const Story st = story_of(memory, disk, true, clients);
    s("functor throws" + std::string(faults ? ", a fault, " : ", ") + name_of(st), [=] { with_faults(st, faults, false, false, refusals); }, q, t, weight, true);
  };
  refuse(2, 2, {"A2 . B2 . C2 . ?A ?B ?C"}, 1, 0, 1, 2);
  refuse(2, 4, {"A2 B2 C2 . ?A ?B ?C"}, 2, 0, 1, 2);
  refuse(2, 4, {"A3 B3 C3 ?A ?B"}, 2, 0, 1, 2);
  refuse(2, 4, {"A3 B3", "C2 ?A"}, 1, 0, 1, 2);
  refuse(2, 4, {"A2 B2 C2 D2 A2"}, 1, 0, 1, 2);
  refuse(2, 4, {"A3 B3 ?A ?B"}, 1, 1, 0, 1);
  s("functor throws, programs", [=] { programs_with_faults(2, 2, 4, true, {"A2", "B2", "."}, {"A1", "A3", "C2", "?A", "-A", "-=B", "."}, 0, false, 2); }, 0, 1, 2, true);
  gone(2, 4, true, {"A2 . . B2 ?A ?B"}, 1, 2);
  gone(2, 4, true, {"A3 . . B3 ?A ?B"}, 1, 2);
  gone(2, 4, false, {"A4 B2 C2"}, 1, 2);
  gone(2, 8, false, {"A2 . . ?A -A"}, 1, 2);
  gone(2, 8, false, {"A2 . . -*"}, 1, 2);
  d(2, 4, true, {"A2"}, true, 2, 4);
  d(2, 4, true, {"A2 B2 C2"}, true, 1, 3);
  d(2, 4, false, {"A2 B2 C2"}, true, 2, 3);  // the writer is blocked
  d(2, 4, false, {"A4 B2"}, true, 2, 4);
  d(2, 4, false, {"A4 B1 C1 -B"}, false, 2, 3);
  d(2, 4, true, {"A3 B1"}, false, 2, 3);
  d(2, 4, true, {""}, true, 2, 5);
  dr(2, 2, {"A2 B2 C2"}, true, 2, 3);
  dr(2, 4, {"A2 B2 C2 D1"}, false, 1, 2);
  dr(2, 4, {"A3 B3 C1"}, true, 1, 3);
  s("destroyed, programs", [=] { destroy_programs(3, 2, 4, true, {"A1", "A3", "B2", "-A", "."}); }, 1, 2, 3, false);
  s("destroyed, programs without handing over", [=] { destroy_programs(2, 2, 6, false, {"A1", "A2", "A3", "B2", "-A", "-*", "."}); }, 1, 2, 3, false);
  s("directory of its own", [=] { own_directory("A2 B3 ?A"); }, 1, 2, 1, false);
  s("limits when made", [=] { made_with(5); }, 0, 1, 1, false);
  s("limits, 3", [=] { limits(3); }, 0, 0, 1, false);
  s("limits, 4", [=] { limits(4); }, -1, 0, 1, false);
  s("limits at once, 1 each", [=] { limits_at_once(1); }, 1, 3, 1, false);
  s("limits at once, 2 each", [=] { limits_at_once(2); }, -1, 2, 2, false);
  return mc::run(argc, argv, all);
}

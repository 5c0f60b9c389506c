// C05: limits, eviction and freeing of a DataBuffer.  Every Store has a thread of its own; after each
// operation all threads go as far as they can, and what is in memory, on disk, handed over and
// blocked is compared with the rules.
#include <deque>

#include "common/buffer_story.h"

namespace {

using story::Story;
using story::Teller;

vf::ScratchDir* scratch;

struct Run {
  int key = 0, size = 0, value = -1, done = 0, ok = 0;
  bool direct = false;
  std::thread thread;
};

// While set, files cannot be removed.
int stuck = 0;
UNSEEN int fault(const char* op, const char*) { return stuck != 0 && (strstr(op, "unlink") || strstr(op, "remove")) ? EACCES : 0; }

uint64_t unit = 1;  // bytes per unit of the sizes in the programs

class Driver {
 public:
  Driver(uint64_t memory, uint64_t disk, bool popping) : t_(story::fresh_dir(*scratch)), memory_(memory), disk_(disk), popping_(popping) {
    Story s;
    s.memory = memory;
    s.disk = disk;
    s.popping = popping;
    mc::io_fault = fault;
    t_.make(s);
    t_.limit_set(false, 1000 * unit);  // the limits are checked here
    for (int i = 0; i < 4; ++i)
      live_[i] = -1;
  }

  // A2 store; -A delete; -=A delete by predicate; -* delete everything; m3, d3 set a limit; !A, !=A delete
  // while files cannot be removed.
  // Returns false if the buffer is not to be used any more.
  bool step(const std::string& op) {
    const char c = op[0];
    told_ += op + " ";
    expected_pops_.clear();
    if (c == '-') {
      if (op[1] == '*') {
        MC_CHECK(t_.remove_if(15), "deleting everything failed, after " << told_);
        disk_order_.clear();
      } else if (op[1] == '=') {
        const int k = Teller::letter(op[2]);
        MC_CHECK(t_.remove_if(1 << k), "deleting by predicate failed, after " << told_);
        forget(k);
      } else {
        const int k = Teller::letter(op[1]);
        const bool ok = t_.remove(k);
        if (live_[k] >= 0 && !t_.handed_over(live_[k]))
          MC_CHECK(ok, "deleting a key which is held failed, after " << told_);
        forget(k);
      }
    } else if (c == '!') {
      const int k = Teller::letter(op[op.size() - 1]);
      const std::vector<int> files = t_.on_disk();
      const bool has_file = live_[k] >= 0 && std::find(files.begin(), files.end(), live_[k]) != files.end();
      if (has_file)
        t_.fault();
      Teller::note(&stuck, 1);
      const bool ok = op[1] == '=' ? t_.remove_if(1 << k) : t_.remove(k);
      Teller::note(&stuck, 0);
      if (has_file)
        MC_CHECK(!ok, "a Delete which could not remove the file reports nothing, after " << told_);
      else
        forget(k);
    } else if (c == 'm' || c == 'd') {
      const uint64_t n = static_cast<uint64_t>(op[1] - '0') * unit;
      const bool right = c == 'm' ? n <= disk_ : memory_ <= n;
      MC_CHECK(t_.set_max(c == 'm', n) == right, "setting a limit was " << (right ? "rejected" : "accepted") << ", after " << told_);
      if (right)
        (c == 'm' ? memory_ : disk_) = n;
    } else {
      const int k = Teller::letter(c), size = (op[1] - '0') * static_cast<int>(unit);
      runs_.emplace_back();
      Run* r = &runs_.back();
      r->key = k;
      r->size = size;
      const bool too_big = static_cast<uint64_t>(size) > disk_;
      if (popping_) {
        forget(k);
        if (!too_big) {
          uint64_t used = 0;
          for (int v : disk_order_)
            used += bytes(v);
          while (used + static_cast<uint64_t>(size) > disk_) {
            used -= bytes(disk_order_.front());
            expected_pops_.push_back(disk_order_.front());
            disk_order_.pop_front();
          }
          disk_order_.push_back(t_.history().values);
        }
      }
      r->thread = std::thread([this, r] {
        const bool ok = t_.store(r->key, r->size, &r->value);
        Teller::note(&r->ok, ok);
        Teller::note(&r->done, 1);
      });
      if (too_big) {
        mc::idle();
        MC_CHECK(done(*r), "storing a value bigger than the disk's maximum blocks, after " << told_);
        MC_CHECK(!r->ok, "a value bigger than the disk's maximum was stored, after " << told_);
        abandoned_ = true;
        return false;
      }
    }
    check();
    return true;
  }

  // Deletes everything until nothing is blocked, then everything must be free.
  void finish(bool look_into_memory) {
    if (look_into_memory && !abandoned_ && blocked() == 0 && !limits_lowered()) {
      t_.on_disk(true);
      uint64_t held = 0;
      for (int k = 0; k < 4; ++k) {
        const int v = t_.get(k);
        if (v >= 0)
          held += bytes(v);
      }
      MC_CHECK(held <= memory_, held << " bytes are held in memory, the maximum is " << memory_ << ", after " << told_);
      for (auto& r : runs_)
        r.thread.join();
      t_.buffer.reset();
      mc::outcome(told_ + t_.results());
      return;
    }
    if (!abandoned_) {
      for (size_t round = 0; blocked() != 0; ++round) {
        const size_t before = blocked();
        if (disk_ < 9)
          step("d9");
        step("-*");
        MC_CHECK(blocked() < before || round == 0, "Stores stay blocked although everything was deleted, after " << told_);
      }
      step("-*");
      const auto files = t_.on_disk();
      MC_CHECK(files.empty(), files.size() << " files are left after everything was deleted: " << told_);
      // all of the disk can be used
      step("A" + std::to_string(disk_ / unit));
      MC_CHECK(done(runs_.back()) && runs_.back().ok, "a value which fills the disk cannot be stored after everything was deleted: " << told_);
      if (popping_)
        step("B" + std::to_string(disk_ / unit));
    }
    t_.check_history();
    for (auto& r : runs_)
      r.thread.join();
    t_.buffer.reset();
    MC_CHECK(!t_.files().exists, "the directory is left behind, after " << told_);
    mc::outcome(told_ + t_.results());
  }

 private:
  UNSEEN static bool done(const Run& r) { return r.done != 0; }
  UNSEEN size_t blocked() const {
    size_t n = 0;
    for (auto& r : runs_)
      n += !done(r);
    return n;
  }
  uint64_t bytes(int v) const { return static_cast<uint64_t>(t_.history().sizes[v]); }
  bool limits_lowered() const { return told_.find('m') != std::string::npos || told_.find('d') != std::string::npos; }
  void forget(int k) {
    for (size_t i = 0; i < disk_order_.size(); ++i)
      if (key_of(disk_order_[i]) == k) {
        disk_order_.erase(disk_order_.begin() + static_cast<long>(i));
        return;
      }
  }
  int key_of(int v) const {
    for (auto& r : runs_)
      if (r.value == v)
        return r.key;
    return -1;
  }

  void check() {
    mc::idle();
    const std::vector<int> files = t_.on_disk();
    uint64_t on_disk = 0, pending = 0;
    bool pending_stuck = false;
    for (int v : files) {
      MC_CHECK(v >= 0, "a file holds no value which was stored, after " << told_);
      on_disk += bytes(v);
    }
    bool is_live[64] = {};
    std::vector<int> waiting;
    for (int k = 0; k < 4; ++k) {
      const int v = t_.get(k);
      live_[k] = v;
      if (v < 0)
        continue;
      is_live[v] = true;
      if (t_.handed_over(v))
        continue;
      bool stored = false;
      for (auto& r : runs_)
        stored |= r.value == v && done(r);
      if (std::find(files.begin(), files.end(), v) == files.end() && stored) {
        pending += bytes(v);
        waiting.push_back(v);
      }
    }
    for (int v : files)
      MC_CHECK(is_live[v], "value " << v << " is still on disk although it was replaced, deleted or handed over: " << told_);
    for (int v : waiting)
      pending_stuck |= on_disk + bytes(v) > disk_;
    MC_CHECK(on_disk <= std::max(disk_, on_disk_before_), on_disk << " bytes on disk, the maximum is " << disk_ << ", after " << told_);
    MC_CHECK(pending <= std::max(memory_, pending_before_), pending << " bytes in memory only, the maximum is " << memory_ << ", after " << told_);
    MC_CHECK(waiting.empty() || pending_stuck, "values wait in memory although they fit on the disk, after " << told_);
    on_disk_before_ = on_disk;
    pending_before_ = pending;
    for (auto& r : runs_) {
      if (done(r)) {
        MC_CHECK(r.ok, "a Store failed, after " << told_);
        continue;
      }
      MC_CHECK(!popping_, "a Store is blocked although values can be handed over, after " << told_);
      const uint64_t size = static_cast<uint64_t>(r.size);
      if (size > memory_)
        r.direct = true;
      if (r.direct)
        MC_CHECK(on_disk + size > disk_, "a Store of " << size << " bytes is blocked with " << on_disk << " of " << disk_ << " on disk, after " << told_);
      else
        MC_CHECK(pending + size > memory_, "a Store of " << size << " bytes is blocked with " << pending << " of " << memory_ << " waiting in memory, after " << told_);
    }
    // handed over
    std::vector<int> popped;
    const auto& h = t_.history();
    for (; ops_seen_ < h.count; ++ops_seen_)
      if (h.ops[ops_seen_].kind == story::kPop)
        popped.push_back(h.ops[ops_seen_].value);
    if (!popping_) {
      MC_CHECK(popped.empty(), "values were handed over to nobody");
    } else {
      MC_CHECK(popped == expected_pops_, "handed over: " << list(popped) << "expected: " << list(expected_pops_) << "after " << told_);
      std::vector<int> right(disk_order_.begin(), disk_order_.end()), have = files;
      std::sort(right.begin(), right.end());
      std::sort(have.begin(), have.end());
      MC_CHECK(right == have, "on disk: " << list(have) << "expected: " << list(right) << "after " << told_);
    }
    t_.check_history();
  }
  static std::string list(const std::vector<int>& v) {
    std::string s;
    for (int x : v)
      s += std::to_string(x) + " ";
    return s;
  }

  Teller t_;
  uint64_t memory_, disk_;
  bool popping_, abandoned_ = false;
  std::deque<Run> runs_;
  std::deque<int> disk_order_;
  std::vector<int> expected_pops_;
  int live_[4];
  int ops_seen_ = 0;
  uint64_t on_disk_before_ = 0, pending_before_ = 0;
  std::string told_;
};

void programs(int length, uint64_t memory, uint64_t disk, bool popping, const std::vector<std::string>& before, const std::vector<std::string>& operations, bool look, uint64_t bytes = 1) {
  unit = bytes;
  Driver d(memory * unit, disk * unit, popping);
  for (auto& op : before)
    d.step(op);
  for (int i = 0; i < length; ++i)
    if (!d.step(operations[static_cast<size_t>(mc::choose(static_cast<int>(operations.size()), false, "operation"))]))
      break;
  d.finish(look && mc::choose(2, false, "how to finish") == 1);
}

}  // unnamed namespace

int main(int argc, char** argv) {
  vf::ScratchDir dir;
  scratch = &dir;
  std::vector<mc::Scenario> all;
  typedef std::vector<std::string> Ops;
  auto s = [&](const std::string& name, int length, uint64_t memory, uint64_t disk, bool popping, Ops before, Ops ops, int q, int t, double weight = 1, bool look = true, uint64_t bytes = 1) {
    mc::Scenario x;
    x.name = name;
    x.body = [=] { programs(length, memory, disk, popping, before, ops, look, bytes); };
    x.quick_bound = q;
    x.thorough_bound = t;
    x.weight = weight;
    x.spurious = false;
    x.io_points = name.find("cannot be removed") != std::string::npos;
    all.push_back(x);
  };


  s("handing over, programs", 4, 2, 4, true, {}, {"A1", "A3", "B1", "B2", "-A", "-=B"}, 0, 0, 3);
  s("handing over, programs from a full disk", 3, 2, 4, true, {"A1", "B2", "a1"}, {"A1", "A3", "C2", "C5", "-A", "-=B", "-*", "m1", "m3", "d3", "d6"}, 0, 1, 3);
  s("handing over, two operations", 2, 2, 4, true, {}, {"A1", "A2", "A3", "B2", "B4", "-A", "-*"}, 2, 3, 5);
  s("handing over, one operation with a full disk", 1, 2, 4, true, {"A1", "B2", "a1"}, {"A2", "B1", "C2", "C3", "-B", "-=A"}, 2, 3, 4);
  s("blocking, programs", 4, 2, 4, false, {}, {"A1", "A4", "B2", "B3", "-A", "-=B"}, 0, 0, 3);
  s("blocking, programs from a full disk", 3, 2, 4, false, {"A2", "B2", "C2"}, {"A1", "a1", "a3", "a5", "-A", "-C", "-=B", "m1", "m3", "d5", "d3"}, 0, 1, 3);
  s("blocking, programs from blocked Stores", 3, 2, 4, false, {"A3", "B1", "C2", "a1"}, {"A2", "C1", "-A", "-C", "-=B", "m1", "m3", "d5", "d8"}, 0, 1, 3);
  s("blocking, two operations", 2, 2, 4, false, {}, {"A1", "A2", "A3", "B3", "-A", "-*"}, 2, 3, 5);
  s("blocking, one operation with blocked Stores", 1, 2, 4, false, {"A4", "B2", "C3"}, {"-A", "-B", "-=A", "-*", "d7", "d9", "m3", "a1"}, 2, 3, 4);
  s("no memory", 3, 0, 3, false, {}, {"A1", "A3", "B2", "-A", "-*", "d4", "m1"}, 0, 1, 2);
  s("memory as big as the disk", 3, 3, 3, true, {}, {"A1", "A3", "B2", "B1", "C2", "-A", "d4", "m2"}, 0, 1, 2);
  s("handing over, files that cannot be removed", 3, 2, 4, true, {"A1", "B2", "a1"}, {"A1", "B2", "C2", "!A", "!B", "!=B", "-B", "-=A"}, 0, 1, 2);
  s("blocking, files that cannot be removed", 3, 2, 4, false, {"A2", "B2", "C2"}, {"A1", "a2", "!A", "!C", "!=B", "-A", "-=B"}, 0, 1, 2);
  for (uint64_t bytes : {128}) {
    const std::string unit_is = ", units of " + std::to_string(bytes) + " bytes";
    s("handing over" + unit_is, 2, 2, 4, true, {"A1", "B2"}, {"A1", "A3", "B2", "C2", "-A", "-*"}, 0, 1, 1, true, bytes);
    s("blocking" + unit_is, 2, 2, 4, false, {"A2", "B2"}, {"A1", "a3", "C2", "-A", "-*", "d5"}, 0, 1, 1, true, bytes);
  }
  const Ops few = {"A1", "A2", "A4", "B2", "B3", "-A", "-=B", "-*"};
  s("handing over, other programs", 3, 2, 4, true, {}, {"A2", "A4", "B1", "B3", "C2", "-B", "-*"}, 0, 0, 2);
  s("blocking, other programs", 3, 2, 4, false, {}, {"A2", "A1", "B4", "B3", "C1", "-B", "-*"}, 0, 0, 2);
  s("handing over, longer programs", 5, 2, 4, true, {}, few, -1, 0, 6);
  s("blocking, longer programs", 5, 2, 4, false, {}, few, -1, 0, 6);
  s("blocking, longer programs from blocked Stores", 4, 2, 4, false, {"A3", "B1", "C2", "a1"}, {"a2", "A2", "C1", "-A", "-C", "-=B", "-*", "m1", "m3", "d5", "d8"}, -1, 0, 6);
  s("no memory, longer programs", 5, 0, 3, false, {}, {"A1", "A3", "B2", "-A", "-*", "d4", "m1"}, -1, 0, 3);
  return mc::run(argc, argv, all);
}

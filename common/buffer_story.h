// Stories about a DataBuffer under the scheduler, and the check that what was seen could have
// happened one operation at a time.
#ifndef VERIF_COMMON_BUFFER_STORY_H_
#define VERIF_COMMON_BUFFER_STORY_H_

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <functional>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/data_buffer.h"

#include "common/scratch_dir.h"
#include "mc/mc.h"

namespace story {

using maidsafe::DataBuffer;
using maidsafe::DataTypeId;
using maidsafe::DiskUsage;
using maidsafe::Identity;
using maidsafe::MemoryUsage;
using maidsafe::NonEmptyString;

// The notes of the harness are made by one thread at a time and are not part of what is checked.
#define UNSEEN __attribute__((no_sanitize("thread"), noinline))

enum Kind { kStore, kDelete, kDeleteAll, kGet, kPop };
const int kNever = 1 << 30;
struct Op {
  Kind kind;
  int key, value, size;  // value: number of the stored, popped or got value; -1 if it failed
  bool ok;
  bool plain;  // failed with "no such element"
  int from, to;
  int thread;
};
struct History {
  Op ops[128];
  int count = 0, clock = 0, values = 0;
  int sizes[64];
};

inline int key_count() { return 4; }
// Keys differ in name or in type.
inline DataBuffer::KeyType key(int k) { return DataBuffer::KeyType(Identity(std::string(64, k == 0 || k == 1 ? 'A' : k == 2 ? 'B' : 'C')), DataTypeId(k == 1 ? 2 : 1)); }
inline int key_number(const DataBuffer::KeyType& k) {
  for (int i = 0; i < key_count(); ++i)
    if (key(i).name == k.name && key(i).type_id == k.type_id)
      return i;
  return -1;
}
// Each value differs from all others of its story.
inline NonEmptyString value(int number, int size) {
  std::string s(static_cast<size_t>(size), static_cast<char>('a' + number % 26));
  s[0] = static_cast<char>('0' + number);
  return NonEmptyString(s);
}

struct Story {
  uint64_t memory = 2, disk = 4;
  bool popping = false;
  std::vector<std::string> clients;
  uint64_t unit = 1;  // bytes per unit of the sizes in the programs
};

class Teller {
 public:
  explicit Teller(const std::string& root) : dir_(root) {}

  UNSEEN int begin(Kind kind, int k, int v) {
    Op& o = h_.ops[h_.count];
    o.kind = kind;
    o.key = k;
    o.value = v;
    o.ok = o.plain = false;
    o.from = ++h_.clock;
    o.to = kNever;
    o.thread = mc::thread_id();
    return h_.count++;
  }
  UNSEEN void end(int at, int v, bool ok, bool plain = false) {
    h_.ops[at].plain = plain;
    h_.ops[at].value = v;
    h_.ops[at].ok = ok;
    h_.ops[at].to = ++h_.clock;
  }
  UNSEEN int new_value(int size) {
    h_.sizes[h_.values] = size;
    return h_.values++;
  }
  UNSEEN int number_of(const NonEmptyString& s) {
    for (int i = 0; i < h_.values; ++i)
      if (value(i, h_.sizes[i]) == s)
        return i;
    return -2;
  }
  UNSEEN const History& history() const { return h_; }

  // the buffer calls this
  UNSEEN void popped(const DataBuffer::KeyType& k, const NonEmptyString& s) {
    const int n = number_of(s), kn = key_number(k);
    MC_CHECK(n >= 0 && kn >= 0, "the pop functor got a key or value which was never stored: key " << kn << " value " << n);
    const int at = begin(kPop, kn, n);
    ++pops_;
    end(at, n, true);
    check_disk("in the pop functor");
    if (may_refuse && mc::choose(2, false, "functor")) {
      --may_refuse;
      fault();
      throw std::out_of_range("not now");
    }
  }
  int may_refuse = 0;  // how often the pop functor may throw

  void make(const Story& s, bool remove_root = true) {
    story_ = s;
    max_disk_ = s.disk;
    DataBuffer::PopFunctor f;
    if (s.popping)
      f = [this](const DataBuffer::KeyType& k, const NonEmptyString& v) { popped(k, v); };
    buffer.reset(new DataBuffer(MemoryUsage(s.memory), DiskUsage(s.disk), f, dir_, remove_root));
  }

  static bool no_element(const maidsafe::common_error& e) { return e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::no_such_element); }
  bool store(int k, int size, int* number = nullptr) {
    const int v = new_value(size);
    if (number)
      note(number, v);
    const NonEmptyString text = value(v, size);
    const int at = begin(kStore, k, v);
    if (static_cast<uint64_t>(size) > max_disk_)
      fault();  // such a Store stops the buffer
    bool ok = true;
    try {
      buffer->Store(key(k), text);
    } catch (const std::exception&) {
      ok = false;
    }
    end(at, v, ok);
    check_disk("after Store");
    return ok;
  }
  int get(int k) {
    const int at = begin(kGet, k, -1);
    int v = -1;
    bool plain = false;
    try {
      const NonEmptyString s = buffer->Get(key(k));
      v = number_of(s);
      MC_CHECK(v >= 0, "Get gave a value which was never stored, of " << s.string().size() << " bytes");
    } catch (const maidsafe::common_error& e) {
      plain = no_element(e);
    } catch (const std::exception&) {
    }
    end(at, v, v >= 0, plain);
    return v;
  }
  bool remove(int k) {
    const int at = begin(kDelete, k, -1);
    bool ok = true, plain = false;
    try {
      buffer->Delete(key(k));
    } catch (const maidsafe::common_error& e) {
      ok = false;
      plain = no_element(e);
    } catch (const std::exception&) {
      ok = false;
    }
    end(at, -1, ok, plain);
    return ok;
  }
  // deletes those of the keys whose bit is set
  bool remove_if(int keys) {
    int at[8];
    for (int k = 0; k < key_count(); ++k)
      if (keys >> k & 1)
        at[k] = begin(kDeleteAll, k, -1);
    bool ok = true;
    try {
      buffer->Delete([keys](const DataBuffer::KeyType& k) { return (keys >> key_number(k) & 1) != 0; });
    } catch (const std::exception&) {
      ok = false;
    }
    for (int k = 0; k < key_count(); ++k)
      if (keys >> k & 1)
        end(at[k], -1, ok);
    return ok;
  }
  bool set_max(bool memory, uint64_t n) {
    try {
      if (memory)
        buffer->SetMaxMemoryUsage(MemoryUsage(n));
      else
        buffer->SetMaxDiskUsage(DiskUsage(n));
      return true;
    } catch (const std::exception&) {
      return false;
    }
  }

  // Program of one client.  A2: store two bytes under key 0 (a: key 1, B: key 2, C: key 3);
  // ?A get; -A delete; -* delete all by predicate; -=A delete A by predicate; . wait for all others;
  // m3, d3 set a limit.
  void perform(const std::string& program) {
    for (size_t i = 0; i < program.size(); ++i) {
      const char c = program[i];
      if (c == ' ')
        continue;
      if (c == '.') {
        mc::idle();
      } else if (c == '?') {
        get(letter(program[++i]));
      } else if (c == '-' && program[i + 1] == '*') {
        ++i;
        remove_if(15);
      } else if (c == '-' && program[i + 1] == '=') {
        i += 2;
        remove_if(1 << letter(program[i]));
      } else if (c == '-') {
        remove(letter(program[++i]));
      } else if (c == 'm' || c == 'd') {
        const uint64_t n = static_cast<uint64_t>(program[++i] - '0') * story_.unit;
        limit_set(c == 'm', n);
        set_max(c == 'm', n);
      } else {
        const int k = letter(c);
        store(k, (program[++i] - '0') * static_cast<int>(story_.unit));
      }
    }
  }
  static int letter(char c) { return c == 'A' ? 0 : c == 'a' ? 1 : c == 'B' ? 2 : 3; }

  struct Files {
    uint64_t bytes = 0;
    int count = 0;
    bool exists = false;
  };
  // looks into the buffer's directory without the scheduler taking notice
  UNSEEN Files files() const {
    Files f;
    const int d = static_cast<int>(syscall(SYS_openat, AT_FDCWD, dir_.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC));
    if (d < 0)
      return f;
    f.exists = true;
    char buf[8192];
    for (;;) {
      const long n = syscall(SYS_getdents64, d, buf, sizeof buf);
      if (n <= 0)
        break;
      for (long at = 0; at < n;) {
        struct Entry {
          uint64_t ino;
          int64_t off;
          unsigned short len;
          unsigned char type;
          char name[1];
        };
        const Entry* e = reinterpret_cast<const Entry*>(buf + at);
        at += e->len;
        if (e->name[0] == '.')
          continue;
        struct stat st;
        if (syscall(SYS_newfstatat, d, e->name, &st, 0) == 0) {
          f.bytes += static_cast<uint64_t>(st.st_size);
          ++f.count;
        }
      }
    }
    syscall(SYS_close, d);
    return f;
  }
  UNSEEN static void note(int* where, int what) { *where = what; }
  // Numbers of the values which the files hold; -2 for a file which holds no stored value.  With
  // `remove`, the files are deleted.
  UNSEEN std::vector<int> on_disk(bool remove = false) {
    std::vector<int> found;
    const int d = static_cast<int>(syscall(SYS_openat, AT_FDCWD, dir_.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC));
    if (d < 0)
      return found;
    char buf[8192];
    for (;;) {
      const long n = syscall(SYS_getdents64, d, buf, sizeof buf);
      if (n <= 0)
        break;
      for (long at = 0; at < n;) {
        const char* name = buf + at + 19;
        at += *reinterpret_cast<const unsigned short*>(buf + at + 16);
        if (name[0] == '.')
          continue;
        std::string text;
        const int f = static_cast<int>(syscall(SYS_openat, d, name, O_RDONLY | O_CLOEXEC));
        if (f >= 0) {
          char part[1024];
          for (long size; (size = syscall(SYS_read, f, part, sizeof part)) > 0;)
            text.append(part, static_cast<size_t>(size));
          syscall(SYS_close, f);
        }
        found.push_back(!text.empty() ? number_of(NonEmptyString(text)) : -2);
        if (remove)
          syscall(SYS_unlinkat, d, name, 0);
      }
    }
    syscall(SYS_close, d);
    return found;
  }
  UNSEEN void remove_directory() { syscall(SYS_unlinkat, AT_FDCWD, dir_.c_str(), AT_REMOVEDIR); }
  UNSEEN void limit_set(bool memory, uint64_t n) {
    if (!memory && n > max_disk_)
      max_disk_ = n;
    if (!memory)
      lowered_ = true;
  }
  UNSEEN void check_disk(const char* when) {
    if (lowered_)
      return;
    const Files f = files();
    MC_CHECK(f.bytes <= max_disk_, when << " there are " << f.bytes << " bytes on disk, the maximum is " << max_disk_);
  }

  // --- one operation at a time?
  struct Step {
    int op, part;  // part of a Store: 0 removes the old value, 1 adds the new one
  };
  // The state of a key: -1 absent, n value n, 100 + n value n has been handed over.
  UNSEEN bool search(const std::vector<Op>& ops, uint64_t done, int state, std::set<std::pair<uint64_t, int>>& tried) const {
    const int n = static_cast<int>(ops.size());
    // bit 2 i: first part, bit 2 i + 1: all of it
    bool all = true;
    int first_end = kNever;
    for (int i = 0; i < n; ++i)
      if (!(done >> (2 * i + 1) & 1)) {
        all = false;
        if (ops[static_cast<size_t>(i)].to < first_end)
          first_end = ops[static_cast<size_t>(i)].to;
      }
    if (all)
      return true;
    if (!tried.insert({done, state}).second)
      return false;
    for (int i = 0; i < n; ++i) {
      const Op& o = ops[static_cast<size_t>(i)];
      if ((done >> (2 * i + 1) & 1) || o.from > first_end)
        continue;
      const uint64_t half = done | (1ull << (2 * i)), full = half | (1ull << (2 * i + 1));
      const bool gone = state >= 100, present = state >= 0 && !gone, may_fail = o.to > fault_at_;
      switch (o.kind) {
        case kStore:
          if (o.ok) {
            if (!(done >> (2 * i) & 1)) {
              if (search(ops, half, -1, tried))
                return true;
            } else if (search(ops, full, o.value, tried)) {
              return true;
            }
          } else {  // failed or is still going on: may have done the first part, or both
            if (!(done >> (2 * i) & 1) && search(ops, half, -1, tried))
              return true;
            if (search(ops, full, state, tried))
              return true;
            if ((done >> (2 * i) & 1) && search(ops, full, o.value, tried))
              return true;
          }
          break;
        case kDelete:
          if (o.ok) {
            if (search(ops, full, -1, tried))
              return true;
          } else if (!present || may_fail) {
            if (search(ops, full, -1, tried) || search(ops, full, state, tried))
              return true;
          }
          break;
        case kDeleteAll:
          if ((o.ok || may_fail) && search(ops, full, -1, tried))
            return true;
          if (!o.ok && may_fail && search(ops, full, state, tried))
            return true;
          break;
        case kGet:
          if (o.ok ? (state >= 0 && state % 100 == o.value) : (!present || may_fail))
            if (search(ops, full, state, tried))
              return true;
          break;
        case kPop:
          if (present && state == o.value && search(ops, full, 100 + o.value, tried))
            return true;
          break;
      }
    }
    return false;
  }
  UNSEEN std::string show(const std::vector<Op>& ops) const {
    static const char* const names[] = {"Store", "Delete", "DeleteIf", "Get", "Pop"};
    std::string s;
    for (const Op& o : ops)
      s += std::string(names[o.kind]) + "(" + std::to_string(o.value) + (o.ok ? "" : ", failed") + ")@" + std::to_string(o.from) + "-" + (o.to == kNever ? "" : std::to_string(o.to)) + "/T" + std::to_string(o.thread) + " ";
    return s;
  }
  UNSEEN void check_history() {
    for (int k = 0; k < key_count(); ++k) {
      std::vector<Op> ops;
      for (int i = 0; i < h_.count; ++i)
        if (h_.ops[i].key == k)
          ops.push_back(h_.ops[i]);
      if (ops.size() > 31)
        mc::fail("too many operations for the harness");
      std::set<std::pair<uint64_t, int>> tried;
      if (!search(ops, 0, -1, tried))
        mc::fail("nothing which happens one operation at a time gives, for key " + std::to_string(k) + ": " + show(ops));
    }
  }
  // Handed over oldest first: a before b if a was certainly on its way to the disk before b.
  UNSEEN void check_order() {
    std::vector<int> popped;
    for (int i = 0; i < h_.count; ++i)
      if (h_.ops[i].kind == kPop)
        popped.push_back(h_.ops[i].value);
    for (size_t x = 0; x < popped.size(); ++x)
      for (size_t y = x + 1; y < popped.size(); ++y) {
        const Op *later = nullptr, *earlier = nullptr;
        for (int i = 0; i < h_.count; ++i)
          if (h_.ops[i].kind == kStore) {
            if (h_.ops[i].value == popped[x])
              later = &h_.ops[i];
            if (h_.ops[i].value == popped[y])
              earlier = &h_.ops[i];
          }
        if (!later || !earlier)
          continue;
        const bool direct_earlier = static_cast<uint64_t>(h_.sizes[earlier->value]) > story_.memory, direct_later = static_cast<uint64_t>(h_.sizes[later->value]) > story_.memory;
        if (earlier->to < later->from && (direct_earlier || !direct_later))
          mc::fail("value " + std::to_string(popped[x]) + " was handed over before value " + std::to_string(popped[y]) + " which is older");
      }
  }
  UNSEEN std::string results() const {
    std::string s;
    for (int i = 0; i < h_.count; ++i)
      s += std::to_string(h_.ops[i].kind) + std::to_string(h_.ops[i].key) + (h_.ops[i].ok ? std::to_string(h_.ops[i].value) : "x") + " ";
    return s;
  }
  UNSEEN int pops() const { return pops_; }

  // What holds when nothing is going on: everything is somewhere, nothing else is, and all of it can be freed.
  void finish() {
    mc::idle();
    const Files before = files();
    check_disk("at the end");
    uint64_t live = 0, readable = 0;
    for (int k = 0; k < key_count(); ++k) {
      const int v = get(k);
      if (v >= 0) {
        ++readable;
        if (!handed_over(v))
          live += static_cast<uint64_t>(h_.sizes[v]);
      }
    }
    if (!limits_set_)
      MC_CHECK(live <= before.bytes + story_.memory, live << " bytes are held, " << before.bytes << " of them on disk, the most in memory is " << story_.memory);
    check_history();
    check_order();
    remove_if(15);
    mc::idle();
    const Files after = files();
    MC_CHECK(after.count == 0, after.count << " files of " << after.bytes << " bytes are left after everything was deleted");
    for (int k = 0; k < key_count(); ++k)
      MC_CHECK(get(k) < 0, "key " << k << " can be read after everything was deleted");
    // all of the disk can be used again
    if (!limits_set_ && max_disk_ < 10) {
      const int had = pops();
      MC_CHECK(store(0, static_cast<int>(max_disk_)), "a value which fills the disk cannot be stored after everything was deleted");
      mc::idle();
      MC_CHECK(pops() == had, "something was handed over after everything was deleted");
      MC_CHECK(get(0) >= 0, "a value which fills the disk cannot be read after everything else was deleted");
    }
    check_history();
    buffer.reset();
    MC_CHECK(!files().exists, "the buffer's directory is left behind");
    mc::outcome(results());
  }
  UNSEEN bool handed_over(int v) const {
    for (int i = 0; i < h_.count; ++i)
      if (h_.ops[i].kind == kPop && h_.ops[i].value == v)
        return true;
    return false;
  }

  void tell(const Story& s) {
    make(s);
    for (auto& c : s.clients)
      if (c.find('m') != std::string::npos || c.find('d') != std::string::npos)
        limits_set_ = true;
    std::vector<std::thread> threads;
    for (size_t i = 1; i < s.clients.size(); ++i)
      threads.emplace_back([this, &s, i] { perform(s.clients[i]); });
    perform(s.clients[0]);
    for (auto& t : threads)
      t.join();
    finish();
  }

  // From now on operations may fail.
  UNSEEN void fault() {
    if (fault_at_ == kNever)
      fault_at_ = h_.clock;
  }
  UNSEEN bool faulty() const { return fault_at_ != kNever; }
  // whether any operation which ended after the first fault reported something else than a missing element
  UNSEEN bool reported() const {
    for (int i = 0; i < h_.count; ++i)
      if (!h_.ops[i].ok && !h_.ops[i].plain && h_.ops[i].to != kNever && h_.ops[i].to > fault_at_)
        return true;
    return false;
  }

  std::unique_ptr<DataBuffer> buffer;

 private:
  int fault_at_ = kNever;
  std::string dir_;
  Story story_;
  History h_;
  uint64_t max_disk_ = 0;
  int pops_ = 0;
  bool lowered_ = false, limits_set_ = false;
};

// A directory of its own for each execution, which does not exist yet (process numbers are used again).
UNSEEN inline std::string fresh_dir(const vf::ScratchDir& scratch) {
  const std::string path = scratch.path + "/" + std::to_string(getpid());
  const int d = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC));
  if (d < 0)
    return path;
  char buf[8192];
  for (;;) {
    const long n = syscall(SYS_getdents64, d, buf, sizeof buf);
    if (n <= 0)
      break;
    for (long at = 0; at < n; at += *reinterpret_cast<const unsigned short*>(buf + at + 16))
      syscall(SYS_unlinkat, d, buf + at + 19, 0);
  }
  syscall(SYS_close, d);
  syscall(SYS_unlinkat, AT_FDCWD, path.c_str(), AT_REMOVEDIR);
  return path;
}

}  // namespace story

#endif  // VERIF_COMMON_BUFFER_STORY_H_

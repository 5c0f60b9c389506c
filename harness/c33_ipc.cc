// C33: items put into shared memory are read back unchanged until removed.
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include "maidsafe/common/ipc.h"

#include "common/child.h"
#include "common/vf.h"

// Shared memory is kept in files of this process's scratch directory, under the rules for the real one.
static bool shm_path(const char* name, char* path, size_t room) {
  const char* n = name[0] == '/' ? name + 1 : name;
  if (*n == 0 || strchr(n, '/') != nullptr || strlen(n) > 255 || strcmp(n, ".") == 0 || strcmp(n, "..") == 0) {
    errno = strlen(n) > 255 ? ENAMETOOLONG : EINVAL;
    return false;
  }
  snprintf(path, room, "%s/%s", vf::scratch.c_str(), n);
  return true;
}
extern "C" int shm_open(const char* name, int flags, mode_t mode) {
  char path[1024];
  return shm_path(name, path, sizeof path) ? open(path, flags | O_CLOEXEC | O_NOFOLLOW, mode) : -1;
}
extern "C" int shm_unlink(const char* name) {
  char path[1024];
  return shm_path(name, path, sizeof path) ? unlink(path) : -1;
}

namespace {

using maidsafe::ipc::CreateSharedMemory;
using maidsafe::ipc::ReadSharedMemory;
using maidsafe::ipc::RemoveSharedMemory;
typedef std::vector<std::string> Items;

std::string name(const std::string& n) { return "vf" + n; }

struct Removed {  // removes what a case has made
  std::vector<std::string> names;
  ~Removed() {
    for (auto& n : names)
      RemoveSharedMemory(n);
  }
};

bool create(const std::string& n, const Items& items) {
  try {
    ++vf::transitions;
    CreateSharedMemory(n, items);
    return true;
  } catch (const std::exception&) {
    return false;
  }
}
bool read(const std::string& n, int number, Items* items) {
  try {
    ++vf::transitions;
    *items = ReadSharedMemory(n, number);
    return true;
  } catch (const std::exception&) {
    return false;
  }
}
std::string show(const Items& items) {
  std::string s;
  for (auto& i : items)
    s += "\"" + vf::show(i.size() > 40 ? i.substr(0, 40) + "..." : i) + "\" ";
  return s + "(" + std::to_string(items.size()) + " items)";
}
// `stored`: what is there under that name, null if nothing
void check_read(const std::string& n, int number, const Items* stored, const std::string& told) {
  Items got;
  const bool ok = read(n, number, &got);
  if (stored == nullptr) {
    VF_CHECK(!ok, "reading a name which does not exist gave " << show(got) << "  after " << told);
  } else if (number > static_cast<int>(stored->size())) {
    VF_CHECK(!ok, "reading " << number << " items of " << stored->size() << " gave " << show(got) << "  after " << told);
  } else {
    VF_CHECK(ok, "reading " << number << " of " << show(*stored) << " failed, after " << told);
    VF_CHECK(got == Items(stored->begin(), stored->begin() + number), "reading " << number << " of " << show(*stored) << " gave " << show(got) << "  after " << told);
  }
}

void histories() {
  const Items lists[] = {{}, {"a"}, {"bc", ""}, {"d", "a", "e"}};
  const int kinds = 4, ops = 2 * (kinds + 1), depth = vf::thorough ? 5 : 4;
  int total = 1;
  for (int i = 0; i < depth; ++i)
    total *= ops;
  for (int h = 0; h < total; ++h) {
    if (!vf::take())
      continue;
    Removed removed;
    // one name is the beginning of the other
    const std::string names[] = {name("n"), name("nn")};
    removed.names = {names[0], names[1]};
    std::map<int, Items> there;
    std::string told;
    int rest = h;
    for (int i = 0; i < depth; ++i, rest /= ops) {
      const int op = rest % ops, n = op % 2, what = op / 2;
      if (what == kinds) {
        told += "remove " + std::to_string(n) + "; ";
        ++vf::transitions;
        RemoveSharedMemory(names[n]);
        there.erase(n);
      } else {
        told += "create " + std::to_string(n) + " " + std::to_string(what) + "; ";
        VF_CHECK(create(names[n], lists[what]), "creating failed: " << told);
        there[n] = lists[what];
      }
      for (int m = 0; m < 2; ++m) {
        const Items* s = there.count(m) ? &there[m] : nullptr;
        if (s == nullptr) {
          check_read(names[m], 1, s, told);
          check_read(names[m], 0, s, told);
        } else {
          for (int number = 0; number <= static_cast<int>(s->size()) + 1; ++number)
            check_read(names[m], number, s, told);
        }
      }
    }
    ++vf::histories;
    vf::outcome(vf::hash_str(told));
    if (h % 1000 == 7)
      vf::sample(told);
  }
}

void bytes() {
  // each byte, and each pair of bytes, in an item
  for (int a = 0; a < 256; ++a) {
    if (!vf::take())
      continue;
    Removed removed;
    const std::string n = name("bytes");
    removed.names = {n};
    Items items;
    items.push_back(std::string(1, static_cast<char>(a)));
    for (int b = 0; b < 256; ++b)
      items.push_back(std::string(1, static_cast<char>(a)) + static_cast<char>(b));
    VF_CHECK(create(n, items), "creating 257 items of two bytes failed");
    check_read(n, static_cast<int>(items.size()), &items, "creating items which start with byte " + std::to_string(a));
    vf::outcome(static_cast<uint64_t>(a));
  }
  // each byte in a name, which is not mistaken for another name
  for (int a = 0; a < 256; ++a) {
    if (!vf::take())
      continue;
    Removed removed;
    const std::string n = name(std::string("x") + static_cast<char>(a)), with_more = n + "y", without = name("x"), twin = name(std::string("x") + static_cast<char>(a ^ 0x20));
    removed.names = {n, with_more, without, twin};
    const Items items = {"this", std::string(1, static_cast<char>(a))}, other = {"other"};
    const std::string told = "creating a name with byte " + std::to_string(a);
    VF_CHECK(create(n, items), told << " failed");
    check_read(n, 2, &items, told);
    check_read(without, 1, nullptr, told);
    check_read(with_more, 1, nullptr, told);
    check_read(twin, 1, nullptr, told);
    VF_CHECK(create(twin, other), told << " and another failed");
    check_read(n, 2, &items, told);
    RemoveSharedMemory(twin);
    check_read(n, 2, &items, told);
    RemoveSharedMemory(n);
    check_read(n, 2, nullptr, told);
    vf::outcome(static_cast<uint64_t>(a) + 1000);
  }
}

// All sizes of an item and all numbers of items up to what does not fit any more.
void sizes() {
  const size_t step = vf::thorough ? 1 : 7;
  for (size_t size = 0; size < 34000; size += size < 300 || (size > 8100 && size < 8300) || (size > 16000 && size < 16500) ? 1 : step) {
    if (!vf::take())
      continue;
    Removed removed;
    const std::string n = name("size");
    removed.names = {n};
    Items items(1), got;
    items[0].resize(size);
    for (size_t i = 0; i < size; ++i)
      items[0][i] = static_cast<char>(i * 7 + i / 256);
    const bool ok = create(n, items);
    VF_CHECK(ok || size > 12000, "an item of " << size << " bytes does not fit");
    if (ok) {
      check_read(n, 1, &items, "creating an item of " + std::to_string(size) + " bytes");
    } else {
      VF_CHECK(!read(n, 1, &got) || got == items, "creating an item of " << size << " bytes failed, and reading gives " << show(got));
      const Items small = {"small"};
      VF_CHECK(create(n, small), "creating again after one which did not fit failed");
      check_read(n, 1, &small, "creating again after one which did not fit");
    }
    vf::outcome(ok);
  }
  for (int count = 0; count < 1200; count += count < 130 ? 1 : vf::thorough ? 3 : 23) {
    for (int size = 0; size < 40; size += 13) {
      if (!vf::take())
        continue;
      Removed removed;
      const std::string n = name("count");
      removed.names = {n};
      Items items;
      for (int i = 0; i < count; ++i)
        items.push_back(std::string(static_cast<size_t>(size), static_cast<char>(i)) + std::to_string(i));
      const bool ok = create(n, items);
      const std::string told = "creating " + std::to_string(count) + " items of " + std::to_string(size) + " bytes and their number";
      VF_CHECK(ok || count > 130, told << " failed");
      if (ok) {
        check_read(n, count, &items, told);
        check_read(n, count + 1, &items, told);
        check_read(n, count / 2, &items, told);
      } else {
        Items got;
        for (int number = 0; number <= count; number += 1 + count / 7)
          VF_CHECK(!read(n, number, &got) || got == Items(items.begin(), items.begin() + number), told << " failed, and reading " << number << " gives " << show(got));
      }
      vf::outcome(static_cast<uint64_t>(count * 2 + ok));
    }
  }
}

// Written and read by different processes; names of all lengths.
void processes() {
  for (int shape = 0; shape < 16; ++shape) {
    if (!vf::take())
      continue;
    Removed removed;
    const std::string n = name("process");
    removed.names = {n};
    Items items;
    for (int i = 0; i < shape; ++i)
      items.push_back(std::string(static_cast<size_t>(i * i), static_cast<char>('a' + i)));
    const auto r = vf::in_child([&]() -> std::string { return create(n, items) ? "made" : "failed"; });
    VF_CHECK(r.exited() && r.text == "made", "creating in another process " << r.how() << " " << r.text);
    check_read(n, shape, &items, "creating in another process");
    const auto r2 = vf::in_child([&]() -> std::string {
      Items got;
      if (!read(n, shape, &got))
        return "failed";
      return got == items ? "same" : "different";
    });
    VF_CHECK(r2.exited() && r2.text == "same", "reading in a third process " << r2.how() << " " << r2.text);
    const auto r3 = vf::in_child([&]() -> std::string {
      RemoveSharedMemory(n);
      return "removed";
    });
    VF_CHECK(r3.exited(), "removing in another process " << r3.how());
    check_read(n, 1, nullptr, "removing in another process");
    vf::outcome(static_cast<uint64_t>(shape));
  }
  for (size_t length = 1; length < 140; ++length) {
    if (!vf::take())
      continue;
    Removed removed;
    std::string n = name("") + std::string(140, 'l');
    n.resize(std::max(length, size_t(10)));
    removed.names = {n};
    const Items items = {"of a long name"};
    const bool ok = create(n, items);
    VF_CHECK(ok || length > 125, "a name of " << length << " bytes cannot be used");
    check_read(n, 1, ok ? &items : nullptr, "creating a name of " + std::to_string(length) + " bytes");
    RemoveSharedMemory(n);
    check_read(n, 1, nullptr, "removing a name of " + std::to_string(length) + " bytes");
    vf::outcome(length);
  }
  if (vf::take()) {  // numbers which are none
    Removed removed;
    const std::string n = name("numbers");
    removed.names = {n};
    const Items items = {"a", "b"};
    VF_CHECK(create(n, items), "creating failed");
    for (int number : {-1, -2147483647 - 1}) {
      Items got;
      VF_CHECK(!read(n, number, &got) || got.empty(), "reading " << number << " items gave " << show(got));
    }
    for (int number : {3, 4, 100, 2147483647})
      check_read(n, number, &items, "creating two items");
  }
}

}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"histories", histories}, {"bytes", bytes}, {"sizes", sizes}, {"processes", processes}});
}

// C04: what is stored in a DataBuffer can be read until it is deleted or handed over, whatever the
// interleaving of clients and the background writer.
#include "common/buffer_story.h"

namespace {

using story::Story;
using story::Teller;

vf::ScratchDir* scratch;

void tell(const Story& s) {
  Teller t(story::fresh_dir(*scratch));
  t.tell(s);
}

// All programs of one client with `length` operations.
void programs(int length, uint64_t memory, uint64_t disk, bool popping, const std::vector<std::string>& operations) {
  Story s;
  s.memory = memory;
  s.disk = disk;
  s.popping = popping;
  std::string p;
  for (int i = 0; i < length; ++i)
    p += operations[static_cast<size_t>(mc::choose(static_cast<int>(operations.size()), false, "operation"))] + " ";
  s.clients = {p};
  tell(s);
}
// All pairs of programs of two clients.
void pairs(int length, uint64_t memory, uint64_t disk, bool popping, const std::string& before, const std::vector<std::string>& operations) {
  Story s;
  s.memory = memory;
  s.disk = disk;
  s.popping = popping;
  std::string p[2];
  for (auto& x : p)
    for (int i = 0; i < length; ++i)
      x += operations[static_cast<size_t>(mc::choose(static_cast<int>(operations.size()), false, "operation"))] + " ";
  Teller t(story::fresh_dir(*scratch));
  t.make(s);
  t.perform(before);
  std::thread other([&] { t.perform(p[1]); });
  t.perform(p[0]);
  other.join();
  t.finish();
}

}  // unnamed namespace

int main(int argc, char** argv) {
  vf::ScratchDir dir;
  scratch = &dir;
  std::vector<mc::Scenario> all;
  auto s = [&](const std::string& name, std::function<void()> body, int q, int t, double weight = 1, bool io = false) {
    mc::Scenario x;
    x.name = name;
    x.body = body;
    x.quick_bound = q;
    x.thorough_bound = t;
    x.weight = weight;
    x.io_points = io;
    x.spurious = false;
    all.push_back(x);
  };
  auto n = [&](uint64_t memory, uint64_t disk, bool popping, std::vector<std::string> clients, int q, int t, double weight = 1, bool io = false) {
    std::string name = std::to_string(memory) + "/" + std::to_string(disk) + (popping ? " popping" : "") + (io ? " with files" : "") + ": ";
    for (size_t i = 0; i < clients.size(); ++i)
      name += (i ? " | " : "") + clients[i];
    Story st;
    st.memory = memory;
    st.disk = disk;
    st.popping = popping;
    st.clients = clients;
    s(name, [st] { tell(st); }, q, t, weight, io);
  };
  n(2, 4, true, {"A2 ?A"}, 2, 4);
  n(2, 4, true, {"A2 B2 C2 ?A ?B ?C"}, 1, 3);
  n(2, 8, false, {"A1 A2 ?A -A ?A A1 ?A"}, 1, 3);
  n(2, 8, false, {"A2 -A A1 B2 ?A ?B"}, 1, 3);
  n(2, 8, false, {"A2", "?A ?A"}, 2, 3, 4);
  n(2, 8, false, {"A2 B2", "?A -A ?A"}, 1, 2);
  n(2, 8, false, {"A2 A1 B2 ?A", "?A"}, 1, 3);
  n(2, 8, false, {"A2 ?A", "A1 ?A"}, 2, 3, 6);
  n(2, 8, false, {"A4 ?A", "A3 ?A"}, 1, 2);
  n(2, 8, false, {"A4 ?A", "A1 ?A"}, 1, 2);
  n(2, 8, false, {"A2 B2 ?A", "-=A ?A"}, 1, 3);
  n(2, 8, false, {"A2 a2", "?a -A ?A ?a"}, 1, 3);
  n(2, 8, true, {"A2 B2 ?A", "C2 ?C -*"}, 1, 2);
  n(2, 4, true, {"A2 B2 ?A", "C2 ?C ?B"}, 1, 2);
  n(2, 4, true, {"A3 B3", "?A ?B", "C1 ?C"}, 0, 1);
  n(2, 8, false, {"A3 -A", "?A ?A"}, 1, 2, 1, true);
  n(2, 8, false, {"A3 A4", "?A ?A"}, 1, 2, 1, true);
  n(2, 3, true, {"A3 B3", "?A ?B"}, 1, 2, 1, true);
  n(2, 8, false, {"A2 B2", "?A ?A"}, 1, 2, 1, true);
  // blocked until others delete
  n(2, 4, false, {"A4 B3 ?B", ". ?B . -A ?B"}, 1, 2);
  n(2, 4, false, {"A4 B3 ?B", ". ?B . -B -A ?B"}, 1, 2);
  n(2, 4, false, {"A4 B2 C2 ?B", ". ?B ?C . -B ?B . -A ?C"}, 1, 2);
  n(2, 4, false, {"A4 B2 a1", ". -B . ?a B1 ?B . -A ?B"}, 1, 2);
  n(2, 4, false, {"A4 B2 ?B B1 ?B", ". -A ?B"}, 1, 2);
  n(1, 4, false, {"A4 B3", ". B4 ?B", ". ?B . -A"}, 1, 2);
  n(1, 4, false, {"A4", ". B3 ?B", ". C2 ?C", ". ?B ?C . -A . -* . -*"}, 0, 1);
  const std::vector<std::string> few = {"A1", "A2", "B2", "?A", "-A", "."}, more = {"A1", "A3", "B2", "C1", "?A", "?B", "-A", "-=B", "-*"};
  s("programs of 3, roomy", [=] { programs(3, 2, 8, false, more); }, 0, 1, 4);
  s("programs of 4, popping", [=] { programs(4, 2, 3, true, {"A1", "A3", "B2", "?A", "-A", "."}); }, 0, 2, 4);
  s("programs of 4, roomy", [=] { programs(4, 2, 9, false, few); }, 0, 2, 4);
  s("programs of 2, roomy", [=] { programs(2, 2, 8, false, more); }, 1, 2, 4);
  s("pairs of 2, roomy", [=] { pairs(2, 2, 9, false, "", {"A1", "A3", "?A", "-A", "-*"}); }, 0, 1, 6);
  s("pairs of 2, few, roomy", [=] { pairs(2, 2, 9, false, "", {"A1", "?A", "-A"}); }, 1, 2, 6);
  s("pairs of 1, popping", [=] { pairs(1, 2, 4, true, "A2 B2 ", {"A1", "A3", "?A", "-A", "-*", "C2"}); }, 1, 2, 4);
  s("pairs of 1, after some", [=] { pairs(1, 2, 9, false, "A2 A1 B2 ", {"A1", "A3", "?A", "?B", "-A", "-=A", "C2"}); }, 1, 2, 4);
  return mc::run(argc, argv, all);
}

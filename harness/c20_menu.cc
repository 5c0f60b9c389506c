// C20: menus and typed input against a reference navigator.
#include <termios.h>

#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "cryptopp/sha.h"

#include "maidsafe/common/cli.h"
#include "maidsafe/common/menu.h"
#include "maidsafe/common/menu_item.h"

#include "common/vf.h"

namespace {
bool g_echo = true, g_terminal = true;
int g_echo_changes = 0;
}  // unnamed namespace

// The terminal
extern "C" int tcgetattr(int, struct termios* t) noexcept {
  if (!g_terminal) {
    errno = ENOTTY;
    return -1;
  }
  *t = termios();
  if (g_echo)
    t->c_lflag |= ECHO;
  return 0;
}
extern "C" int tcsetattr(int, int, const struct termios* t) noexcept {
  if (!g_terminal) {
    errno = ENOTTY;
    return -1;
  }
  bool e = (t->c_lflag & ECHO) != 0;
  g_echo_changes += e != g_echo;
  g_echo = e;
  return 0;
}

namespace {
// Lines of input; notes whether the terminal echoed when each was typed.
class Typed : public std::streambuf {
 public:
  explicit Typed(std::vector<std::string> lines) : lines_(std::move(lines)), next_(0) {}
  std::vector<bool> echoed;
  size_t used() const { return next_; }

 protected:
  int_type underflow() override {
    if (gptr() < egptr())
      return traits_type::to_int_type(*gptr());
    if (next_ == lines_.size())
      return traits_type::eof();
    echoed.push_back(g_echo);
    current_ = lines_[next_++] + "\n";
    setg(&current_[0], &current_[0], &current_[0] + current_.size());
    return traits_type::to_int_type(*gptr());
  }

 private:
  std::vector<std::string> lines_;
  size_t next_;
  std::string current_;
};

// What is printed
class Capture {
 public:
  Capture() : saved_(stdout), data_(nullptr), size_(0) { stdout = open_memstream(&data_, &size_); }
  ~Capture() {
    if (saved_)
      text();
  }
  std::string text() {
    fflush(stdout);
    std::string s(data_, size_);
    fclose(stdout);
    free(data_);
    stdout = saved_;
    saved_ = nullptr;
    return s;
  }

 private:
  FILE* saved_;
  char* data_;
  size_t size_;
};

const std::string kClear = "\x1B[2J\x1B[H";

struct Node {
  std::string name;
  int action = -1;  // -1 none, else its number; 1000+ throws
  int parent = -1;
  std::vector<int> children;
};
typedef std::vector<Node> Tree;  // node 0 is the top

// All ordered trees with n nodes below the top
void trees(int n, std::vector<Tree>& out) {
  // sequences of parents: node i hangs below a node on the rightmost path
  std::vector<int> parent(n + 1, -1);
  std::function<void(int)> go = [&](int i) {
    if (i > n) {
      Tree t(n + 1);
      for (int k = 0; k <= n; ++k) {
        t[k].name = k ? "item" + std::to_string(k) : "Main";
        t[k].parent = parent[k];
        if (k)
          t[parent[k]].children.push_back(k);
      }
      out.push_back(t);
      return;
    }
    for (int p = i - 1; p >= 0; p = parent[p]) {
      parent[i] = p;
      go(i + 1);
      if (p == 0)
        break;
    }
  };
  go(1);
}

std::vector<int> g_ran;
void build(const Tree& t, int node, maidsafe::Menu& menu, maidsafe::MenuItem* item) {
  for (int c : t[node].children) {
    int a = t[c].action;
    maidsafe::MenuItem::Functor f;
    if (a >= 2000)
      f = [a] {
        printf("<<%d>>\n", a);
        throw std::runtime_error("std");
      };
    else if (a >= 1000)
      f = [a] {
        printf("<<%d>>\n", a);
        BOOST_THROW_EXCEPTION(maidsafe::MakeError(maidsafe::CommonErrors::cannot_exceed_limit));
      };
    else if (a >= 0)
      f = [a] { printf("<<%d>>\n", a); };
    maidsafe::MenuItem* next = node ? item->AddChildItem(t[c].name, f) : menu.AddItem(t[c].name, f);
    VF_CHECK(next->kName_ == t[c].name && next->kParent_, "the item added");
    build(t, c, menu, next);
  }
}

// The integer at the start of the line
bool leading_int(const std::string& line, long long& value) {
  size_t i = 0;
  while (i < line.size() && isspace(static_cast<unsigned char>(line[i])))
    ++i;
  bool negative = false;
  if (i < line.size() && (line[i] == '-' || line[i] == '+'))
    negative = line[i++] == '-';
  if (i == line.size() || !isdigit(static_cast<unsigned char>(line[i])))
    return false;
  value = 0;
  while (i < line.size() && isdigit(static_cast<unsigned char>(line[i])) && value < (1ll << 40))
    value = value * 10 + (line[i++] - '0');
  if (negative)
    value = -value;
  return value >= -(1ll << 31) && value < (1ll << 31);
}

// What must happen: screens, actions and complaints in order
struct Expected {
  std::vector<std::string> events;
  int result;
  size_t lines_used;
  int current;
};
void screen(const Tree& t, int node, std::vector<std::string>& events) {
  std::string s = "screen " + t[node].name;
  for (size_t i = 0; i < t[node].children.size(); ++i)
    s += " | " + std::to_string(i + 1) + " " + t[t[node].children[i]].name;
  if (node)
    s += " | 99 Back to: " + t[t[node].parent].name;
  events.push_back(s);
}
Expected navigate(const Tree& t, int start, const std::vector<std::string>& lines) {
  Expected e;
  int at = start;
  bool show = true;
  size_t i = 0;
  e.result = 0;
  for (;; ++i) {
    if (show) {
      if (t[at].children.empty() && at)
        at = t[at].parent;
      screen(t, at, e.events);
      show = false;
    }
    if (i == lines.size()) {
      e.result = maidsafe::ErrorToInt(maidsafe::MakeError(maidsafe::CommonErrors::unknown));
      break;
    }
    long long v;
    if (!leading_int(lines[i], v)) {
      e.events.push_back("invalid");
      continue;
    }
    if (v == 0) {
      ++i;
      break;
    }
    if (v == 99 && at) {
      at = t[at].parent;
    } else if (v >= 1 && v <= static_cast<long long>(t[at].children.size())) {
      at = t[at].children[v - 1];
    } else {
      e.events.push_back("invalid");
      continue;
    }
    if (t[at].action >= 0)
      e.events.push_back("action " + std::to_string(t[at].action));
    if (t[at].action >= 1000) {
      e.result = maidsafe::ErrorToInt(maidsafe::MakeError(t[at].action >= 2000 ? maidsafe::CommonErrors::unknown : maidsafe::CommonErrors::cannot_exceed_limit));
      ++i;
      break;
    }
    show = true;
  }
  e.lines_used = i;
  e.current = at;
  return e;
}
std::vector<std::string> parse_output(const std::string& text, const std::string& prompt) {
  std::vector<std::string> events;
  size_t at = 0;
  std::string line;
  auto flush = [&](std::string l) {
    while (l.compare(0, prompt.size(), prompt) == 0)
      l.erase(0, prompt.size());
    if (l.empty())
      return;
    if (l.compare(0, 2, "<<") == 0)
      events.push_back("action " + l.substr(2, l.size() - 4));
    else if (l.find("Invalid choice") != std::string::npos)
      events.push_back("invalid");
    else if (!events.empty() && events.back() == "screen")
      events.back() += " " + l;  // its name
    else if (isdigit(static_cast<unsigned char>(l[0])) && !events.empty() && events.back().compare(0, 6, "screen") == 0) {
      size_t d = 0;
      while (isdigit(static_cast<unsigned char>(l[d])))
        ++d;
      size_t n = l.find_first_not_of(' ', d);
      events.back() += " | " + l.substr(0, d) + " " + l.substr(n == std::string::npos ? l.size() : n);
    }
  };
  while (at < text.size()) {
    if (text.compare(at, kClear.size(), kClear) == 0) {
      flush(line);
      line.clear();
      events.push_back("screen");
      at += kClear.size();
    } else if (text[at] == '\n') {
      flush(line);
      line.clear();
      ++at;
    } else {
      line += text[at++];
    }
  }
  flush(line);
  return events;
}
std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v)
    s += (s.empty() ? "" : "; ") + x;
  return s;
}

void run(const Tree& t, const std::vector<std::string>& lines, const std::vector<std::string>& again) {
  const std::string prompt = "@@ ";
  maidsafe::Menu menu(t[0].name, prompt);
  build(t, 0, menu, nullptr);
  int start = 0;
  for (auto* input : {&lines, &again}) {
    if (input == &again && again.empty())
      break;
    Expected e = navigate(t, start, *input);
    Typed typed(*input);
    std::streambuf* saved = std::cin.rdbuf(&typed);
    Capture capture;
    int result = menu.Run();
    std::string text = capture.text();
    std::cin.rdbuf(saved);
    auto events = parse_output(text, prompt);
    std::string at = "menu of " + std::to_string(t.size() - 1) + " items, input " + join(*input) + ": ";
    VF_CHECK(result == e.result, at << "result " << result << ", expected " << e.result);
    VF_CHECK(events == e.events, at << "happened: " << join(events) << "; expected: " << join(e.events));
    VF_CHECK(typed.used() == e.lines_used, at << typed.used() << " lines were read");
    VF_CHECK(g_echo, at << "the terminal does not echo any more");
    VF_CHECK(text.size() >= prompt.size(), at << "no prompt");
    vf::transitions += input->size();
    vf::state(vf::hash_str(e.events.back() + std::to_string(t.size())));
    vf::outcome(vf::hash_str(join(e.events)));
    start = e.current;
  }
  ++vf::histories;
}

void menus() {
  std::vector<Tree> all;
  for (int n = 0; n <= 4; ++n)
    trees(n, all);
  const std::vector<std::string> tokens{"0", "1", "2", "3", "99", "x", "-1", "", "4"};
  const size_t depth = vf::thorough ? 5 : 4;
  for (size_t which = 0; which < all.size(); ++which)
    for (int actions = 0; actions < 2; ++actions) {
      Tree t = all[which];
      for (size_t k = 1; k < t.size(); ++k)
        t[k].action = actions == 0 ? static_cast<int>(k) : k % 2 ? -1 : static_cast<int>(k);
      std::vector<std::string> lines;
      std::function<void()> go = [&] {
        if (lines.size() == 1 && !vf::take())
          return;
        if (!lines.empty()) {
          run(t, lines, {"99", "1", "0"});
          vf::note();
        }
        if (lines.size() == depth || (!lines.empty() && lines.back() == "0"))
          return;
        for (auto& x : tokens) {
          lines.push_back(x);
          go();
          lines.pop_back();
        }
      };
      go();
    }
  vf::sample(std::to_string(all.size()) + " trees x 9 kinds of line to depth " + std::to_string(depth) + ", then a second run");
}
void wide_menus() {
  for (int n : {9, 10, 11, 12, 98, 99, 100, 120})
    for (int below = 0; below < 2; ++below) {
      Tree t(1);
      t[0].name = "Main";
      int parent = 0;
      if (below) {
        Node s;
        s.name = "Sub", s.parent = 0;
        t.push_back(s);
        t[0].children.push_back(1);
        parent = 1;
      }
      for (int i = 0; i < n; ++i) {
        Node c;
        c.name = "child " + std::to_string(i), c.parent = parent, c.action = i;
        t.push_back(c);
        t[parent].children.push_back(static_cast<int>(t.size()) - 1);
      }
      for (int choice = 0; choice <= n + 2; ++choice) {
        if (!vf::take())
          continue;
        if (below && choice == 99)
          continue;
        std::vector<std::string> lines;
        if (below)
          lines.push_back("1");
        lines.push_back(std::to_string(choice));
        run(t, lines, {});
        lines.push_back("0");
        run(t, lines, {});
      }
    }
  vf::sample("menus of 9..120 items, every number");
}
// every spelling of a choice
void spellings() {
  std::vector<Tree> all;
  trees(3, all);
  for (auto& t : all)
    for (size_t k = 1; k < t.size(); ++k)
      t[k].action = static_cast<int>(k);
  const std::string alphabet = "0129- +ax.";
  std::string s;
  std::function<void()> go = [&] {
    if (vf::take())
      for (auto& t : all) {
        run(t, {s, "1"}, {});
        run(t, {"1", s, "0"}, {});
      }
    if (s.size() == 3)
      return;
    for (char c : alphabet) {
      s.push_back(c);
      go();
      s.pop_back();
    }
  };
  go();
  for (const char* x : {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "99999999999999999999", "18446744073709551617", "1e1", "0x1", "\t1", "1\t", "1\r", "99 ", "099", "00"}) {
    if (vf::take())
      for (auto& t : all)
        run(t, {x, "1", x, "0"}, {});
  }
  vf::sample("every line over " + alphabet + " to length 3 in 5 trees");
}
// actions that throw
void throwing() {
  std::vector<Tree> all;
  trees(3, all);
  for (auto& base : all)
    for (int k = 1; k <= 3; ++k)
      for (int kind : {1000, 2000})
        for (auto& lines : std::vector<std::vector<std::string>>{{"1", "1", "1", "2", "0"}, {"2", "1", "99", "1", "0"}, {"1", "99", "2", "2", "0"}, {"3", "2", "1", "0"}}) {
          if (!vf::take())
            continue;
          Tree t(base);
          for (int i = 1; i <= 3; ++i)
            t[i].action = i == k ? kind + k : i;
          run(t, lines, {});
        }
  vf::sample("one throwing action in each place");
}
// names that are refused
void names() {
  auto refused = [](const std::function<void()>& f) {
    try {
      f();
    } catch (const maidsafe::maidsafe_error&) {
      return true;
    }
    return false;
  };
  for (int deep = 0; deep < 2; ++deep)
    for (int shape = 0; shape < 31; ++shape) {
      // number of items, and which of them have items of their own
      int n = 0, own = shape;
      while (own >= 1 << n)
        own -= 1 << n++;
      if (!vf::take())
        continue;
      maidsafe::Menu menu("Main", "@@ ");
      maidsafe::MenuItem* sub = deep ? menu.AddItem("Sub") : nullptr;
      auto add = [&](const std::string& s) { return deep ? sub->AddChildItem(s) : menu.AddItem(s); };
      Tree t(1);
      t[0].name = "Main";
      int parent = 0;
      if (deep) {
        Node s;
        s.name = "Sub", s.parent = 0;
        t.push_back(s);
        t[0].children.push_back(1);
        parent = 1;
      }
      for (int i = 0; i < n; ++i) {
        maidsafe::MenuItem* added = add("name" + std::to_string(i));
        if (own >> i & 1)
          added->AddChildItem("name0")->AddChildItem("name1");
        Node c;
        c.name = "name" + std::to_string(i), c.parent = parent;
        t.push_back(c);
        t[parent].children.push_back(static_cast<int>(t.size()) - 1);
        VF_CHECK(refused([&] { add(""); }), "an empty name was accepted");
        for (int k = 0; k <= i; ++k)
          VF_CHECK(refused([&] { add("name" + std::to_string(k)); }), "a name was accepted twice");
      }
      std::vector<std::string> lines{deep ? "1" : "77", "0"};
      Expected e = navigate(t, 0, lines);
      Typed typed(lines);
      std::streambuf* saved = std::cin.rdbuf(&typed);
      Capture capture;
      menu.Run();
      auto events = parse_output(capture.text(), "@@ ");
      std::cin.rdbuf(saved);
      VF_CHECK(events == e.events, "after refused names: " << join(events) << "; expected: " << join(e.events));
    }
  if (vf::take()) {
    VF_CHECK(refused([] { maidsafe::Menu m(""); }), "a menu without a name");
    VF_CHECK(refused([] { maidsafe::MenuItem m("", [] {}); }), "an item without a name");
    maidsafe::Menu menu("Main");
    auto a = menu.AddItem("a"), b = menu.AddItem("b");
    a->AddChildItem("b")->AddChildItem("Main");
    b->AddChildItem("b");
    VF_CHECK(!a->HasNoChildren() && a->kParent_ == b->kParent_ && a->Child(0)->kParent_ == a && a->Child(0)->kName_ == "b", "the same name in different menus");
  }
}

// --- typed input ---
template <typename T>
void get(const std::string& line, bool ok, const T& want) {
  for (int terminal = 0; terminal < 2; ++terminal)
    for (int echo = 0; echo < 2; ++echo) {
      g_terminal = terminal;
      g_echo = true;
      Typed typed({line, "next"});
      std::streambuf* saved = std::cin.rdbuf(&typed);
      bool threw = false;
      T got{};
      Capture capture;
      maidsafe::CLI cli("?> ");
      try {
        got = cli.Get<T>("the message", echo);
      } catch (const maidsafe::maidsafe_error&) {
        threw = true;
      }
      std::string text = capture.text();
      std::cin.rdbuf(saved);
      VF_CHECK(threw == !ok && (!ok || got == want), "the line " << vf::show(line) << " was " << (threw ? "rejected" : "taken as something else"));
      VF_CHECK(typed.used() == 1, "more than a line was read");
      if (terminal)
        VF_CHECK(g_echo && typed.echoed[0] == (echo != 0), "echo while typing " << typed.echoed[0] << ", afterwards " << g_echo);
      VF_CHECK(text.find("the message") == 0 && text.size() > 6 && text.compare(text.size() - 3, 3, "?> ") == 0 && text.find("?> ") < text.size() - 3, "printed " << vf::show(text) << ", without a prompt before and after");
      ++vf::transitions;
    }
  g_terminal = true;
}
std::string first_word(const std::string& s) {
  size_t i = 0;
  while (i < s.size() && isspace(static_cast<unsigned char>(s[i])))
    ++i;
  size_t j = i;
  while (j < s.size() && !isspace(static_cast<unsigned char>(s[j])))
    ++j;
  return s.substr(i, j - i);
}
void typed_input() {
  const std::string alphabet = "019-+ ax\t.";
  std::string s;
  std::function<void()> go = [&] {
    if (vf::take()) {
      long long v = 0;
      bool ok = leading_int(s, v);
      get<int>(s, ok, static_cast<int>(v));
      bool small = ok && v >= -32768 && v < 32768;
      get<int16_t>(s, small, static_cast<int16_t>(v));
      std::string w = first_word(s);
      get<std::string>(s, !w.empty(), w);
      get<char>(s, !w.empty(), w.empty() ? 0 : w[0]);
    }
    if (s.size() == (vf::thorough ? 5 : 4))
      return;
    for (char c : alphabet) {
      s.push_back(c);
      go();
      s.pop_back();
    }
  };
  go();
  for (const char* x : {"2147483647", "-2147483648", "2147483648", "-2147483649", "32767", "32768", "-32768", "-32769", "99999999999", "12 34"}) {
    if (!vf::take())
      continue;
    long long v = 0;
    bool ok = leading_int(x, v);
    get<int>(x, ok, static_cast<int>(v));
    get<int16_t>(x, ok && v >= -32768 && v < 32768, static_cast<int16_t>(v));
  }
  if (vf::take()) {  // the end of input
    for (int echo = 0; echo < 2; ++echo) {
      Typed typed({});
      std::streambuf* saved = std::cin.rdbuf(&typed);
      Capture capture;
      bool threw = false;
      try {
        maidsafe::CLI().Get<std::string>("x", echo);
      } catch (const maidsafe::maidsafe_error&) {
        threw = true;
      }
      capture.text();
      std::cin.rdbuf(saved);
      VF_CHECK(threw && g_echo, "the end of input");
    }
  }
  vf::sample("every line over 10 characters to length 4 as int, int16, string and char, with and without echo");
}
std::string sha512(const std::string& s) {
  CryptoPP::SHA512 h;
  std::string out(64, 0);
  h.CalculateDigest(reinterpret_cast<unsigned char*>(&out[0]), reinterpret_cast<const unsigned char*>(s.data()), s.size());
  return out;
}
void passwords() {
  const std::vector<std::string> words{"a", "b", "ab"};
  std::vector<std::string> lines;
  std::function<void()> go = [&] {
    if (vf::take())
      for (int repeat = 0; repeat < 2; ++repeat) {
        size_t used = 0;
        bool ok = false;
        std::string want;
        if (repeat) {
          while (used + 1 < lines.size() && !ok) {
            ok = lines[used] == lines[used + 1];
            want = lines[used];
            used += 2;
          }
          if (!ok)
            used = lines.size();
        } else if (!lines.empty()) {
          ok = true, used = 1, want = lines[0];
        }
        Typed typed(lines);
        std::streambuf* saved = std::cin.rdbuf(&typed);
        Capture capture;
        bool threw = false;
        std::string got;
        try {
          auto h = maidsafe::CLI().GetPassword(repeat);
          got.assign(h.begin(), h.end());
        } catch (const maidsafe::maidsafe_error&) {
          threw = true;
        }
        capture.text();
        std::cin.rdbuf(saved);
        VF_CHECK(threw == !ok && typed.used() == used, "passwords " << join(lines) << ": " << typed.used() << " lines were used");
        VF_CHECK(!ok || got == sha512(want), "passwords " << join(lines) << ": not the hash of the password");
        VF_CHECK(g_echo, "no echo after a password");
        for (bool e : typed.echoed)
          VF_CHECK(!e, "a password was shown");
        ++vf::transitions;
      }
    if (lines.size() == 6)
      return;
    for (auto& w : words) {
      lines.push_back(w);
      go();
      lines.pop_back();
    }
  };
  go();
  vf::sample("every six lines of three passwords");
}
void tokens() {
  const std::string alphabet = "ab -\t\"";
  std::string s;
  maidsafe::CLI cli;
  std::function<void()> go = [&] {
    if (vf::take()) {
      std::vector<std::string> want;
      std::string all = "--" + s, word;
      for (char c : all + " ")
        if (c == ' ') {
          if (!word.empty())
            want.push_back(word);
          word.clear();
        } else {
          word += c;
        }
      auto got = cli.TokeniseLine(s);
      VF_CHECK(got == want, "the line " << vf::show(s) << " is split into " << join(got));
      ++vf::transitions;
    }
    if (s.size() == (vf::thorough ? 7 : 6))
      return;
    for (char c : alphabet) {
      s.push_back(c);
      go();
      s.pop_back();
    }
  };
  go();
  vf::sample("every line over 6 characters to length 6");
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"menus", menus}, {"wide_menus", wide_menus}, {"spellings", spellings}, {"throwing", throwing}, {"names", names}, {"typed_input", typed_input}, {"passwords", passwords}, {"tokens", tokens}});
}

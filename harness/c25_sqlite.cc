// C25: transactions of the SQLite wrapper: all short histories of two connections against a reference map,
// every way a second connection can wait for the first, a crash and a failure at every file operation.
#include <fcntl.h>
#include <signal.h>
#include <sqlite3.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <cerrno>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "boost/filesystem.hpp"

#include "maidsafe/common/error.h"
#include "maidsafe/common/sqlite3_wrapper.h"

#include "common/child.h"
#include "common/vf.h"

namespace sql = maidsafe::sqlite;

namespace {
// --- sleeping is virtual: each sleep calls this instead ---
std::function<void()> g_on_sleep;
int g_sleeps = 0;
bool g_in_sleep = false;
void slept() {
  ++g_sleeps;
  if (g_on_sleep && !g_in_sleep) {
    g_in_sleep = true;
    g_on_sleep();
    g_in_sleep = false;
  }
}
}  // namespace

extern "C" {
int nanosleep(const struct timespec*, struct timespec*) {
  slept();
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) {
  slept();
  return 0;
}
int usleep(useconds_t) {
  slept();
  return 0;
}
}

namespace {
// --- crashes and failures of SQLite's file operations ---
enum Mode { kCount, kDieBefore, kDieTorn, kDieAfter, kFailEio, kFailFull, kShortWrite };
const char* const kModes[] = {"count", "dies before", "dies in the middle of", "dies after", "fails (EIO) at", "fails (ENOSPC) at",
                              "writes short at"};
struct {
  bool armed = false;
  Mode mode = kCount;
  int at = -1, ops = 0;
  size_t cut = 0;
  bool fails() const { return mode >= kFailEio; }
} g;

ssize_t (*real_pwrite)(int, const void*, size_t, off_t);
ssize_t (*real_write)(int, const void*, size_t);
int (*real_ftruncate)(int, off_t);
int (*real_unlink)(const char*);
int (*real_open)(const char*, int, ...);
int (*real_fallocate)(int, off_t, off_t);

enum Step { kGo, kTorn, kFail, kShort };
// One operation that changes a file.
Step before() {
  if (!g.armed)
    return kGo;
  if (g.ops++ != g.at)
    return kGo;
  switch (g.mode) {
    case kDieBefore:
      _exit(77);
    case kDieTorn:
      return kTorn;
    case kFailEio:
      errno = EIO;
      return kFail;
    case kFailFull:
      errno = ENOSPC;
      return kFail;
    case kShortWrite:
      return kShort;
    default:
      return kGo;
  }
}
void after() {
  if (g.armed && g.mode == kDieAfter && g.ops - 1 == g.at)
    _exit(77);
}
template <typename F>
ssize_t writing(size_t n, F f) {
  const Step s = before();
  if (s == kFail)
    return -1;
  if (s == kTorn) {
    f(n * g.cut / 8);
    _exit(77);
  }
  if (s == kShort) {
    const size_t part = n * g.cut / 8;
    ssize_t done = f(part);
    return done;
  }
  const ssize_t r = f(n);
  after();
  return r;
}
ssize_t my_pwrite(int fd, const void* b, size_t n, off_t at) {
  return writing(n, [&](size_t m) { return real_pwrite(fd, b, m, at); });
}
ssize_t my_write(int fd, const void* b, size_t n) {
  return writing(n, [&](size_t m) { return real_write(fd, b, m); });
}
int my_ftruncate(int fd, off_t n) {
  const Step s = before();
  if (s == kFail)
    return -1;
  if (s == kTorn)
    _exit(77);
  const int r = real_ftruncate(fd, n);
  after();
  return r;
}
int my_unlink(const char* p) {
  const Step s = before();
  if (s == kFail)
    return -1;
  if (s == kTorn)
    _exit(77);
  const int r = real_unlink(p);
  after();
  return r;
}
int my_open(const char* p, int flags, int mode) {
  if (!(flags & O_CREAT))
    return real_open(p, flags, mode);
  const Step s = before();
  if (s == kFail)
    return -1;
  if (s == kTorn)
    _exit(77);
  const int r = real_open(p, flags, mode);
  after();
  return r;
}
void hook() {
  static bool done = false;
  if (done)
    return;
  done = true;
  sqlite3_initialize();
  sqlite3_vfs* v = sqlite3_vfs_find(nullptr);
  auto set = [&](const char* name, auto* mine, auto*& old) {
    auto p = v->xGetSystemCall(v, name);
    if (!p)
      return;
    old = reinterpret_cast<std::remove_reference_t<decltype(old)>>(p);
    v->xSetSystemCall(v, name, reinterpret_cast<sqlite3_syscall_ptr>(mine));
  };
  set("pwrite", &my_pwrite, real_pwrite);
  set("pwrite64", &my_pwrite, real_pwrite);
  set("write", &my_write, real_write);
  set("ftruncate", &my_ftruncate, real_ftruncate);
  set("unlink", &my_unlink, real_unlink);
  real_open = reinterpret_cast<int (*)(const char*, int, ...)>(v->xGetSystemCall(v, "open"));
  v->xSetSystemCall(v, "open", reinterpret_cast<sqlite3_syscall_ptr>(&my_open));
}

// --- files ---
int g_files = 0;
std::string fresh() {
  hook();
  return vf::scratch + "/db" + std::to_string(getpid()) + "_" + std::to_string(g_files++);
}
void wipe(const std::string& path) {
  for (const char* tail : {"", "-wal", "-shm", "-journal"})
    unlink((path + tail).c_str());
}
struct File {
  std::string path = fresh();
  ~File() { wipe(path); }
};

using Map = std::map<std::string, std::string>;
const char kTable[] = "CREATE TABLE IF NOT EXISTS t (k TEXT PRIMARY KEY, v BLOB NOT NULL)";

void run(sql::Database& db, const std::string& query) {
  sql::Statement s(db, query);
  s.Step();
}
void put(sql::Database& db, const std::string& k, const std::string& v) {
  sql::Statement s(db, "INSERT OR REPLACE INTO t VALUES (?, ?)");
  s.BindText(1, k);
  s.BindBlob(2, maidsafe::SerialisedData(v.begin(), v.end()));
  if (s.Step() != sql::StepResult::kSqliteDone)
    vf::fail("an insertion returned a row");
}
void del(sql::Database& db, const std::string& k) {
  sql::Statement s(db, "DELETE FROM t WHERE k = ?");
  s.BindText(1, k);
  s.Step();
}
Map all(sql::Database& db) {
  Map m;
  sql::Statement s(db, "SELECT k, v FROM t ORDER BY k");
  while (s.Step() == sql::StepResult::kSqliteRow) {
    const auto v = s.ColumnBlob(1);
    m[s.ColumnText(0)] = std::string(v.begin(), v.end());
  }
  return m;
}
std::string text(const Map& m) {
  std::string s = "{";
  for (auto& e : m)
    s += e.first + "=" + (e.second.size() > 12 ? e.second.substr(0, 8) + "...(" + std::to_string(e.second.size()) + ")" : e.second) + " ";
  return s + "}";
}
std::string why(const std::exception& e) {
  if (auto* m = dynamic_cast<const maidsafe::maidsafe_error*>(&e))
    return m->code().message();
  return e.what();
}
// The contents as a new process would find them, read with SQLite itself from a copy of the files.
Map stored(const std::string& path) {
  const std::string copy = fresh();
  for (const char* tail : {"", "-wal", "-journal"}) {
    std::ifstream in(path + tail, std::ios::binary);
    if (!in)
      continue;
    std::ofstream out(copy + tail, std::ios::binary);
    out << in.rdbuf();
  }
  Map m;
  sqlite3* db = nullptr;
  std::string trouble;
  if (sqlite3_open_v2(copy.c_str(), &db, SQLITE_OPEN_READWRITE, nullptr) == SQLITE_OK) {
    sqlite3_stmt* s = nullptr;
    if (sqlite3_prepare_v2(db, "SELECT k, v FROM t", -1, &s, nullptr) == SQLITE_OK) {
      int r;
      while ((r = sqlite3_step(s)) == SQLITE_ROW)
        m[std::string(reinterpret_cast<const char*>(sqlite3_column_text(s, 0)))] =
            std::string(static_cast<const char*>(sqlite3_column_blob(s, 1)), sqlite3_column_bytes(s, 1));
      if (r != SQLITE_DONE)
        trouble = sqlite3_errmsg(db);
    } else if (std::string(sqlite3_errmsg(db)).find("no such table") == std::string::npos) {
      trouble = sqlite3_errmsg(db);
    }
    sqlite3_finalize(s);
  }
  sqlite3_close(db);
  wipe(copy);
  if (!trouble.empty())
    m["trouble"] = trouble;
  return m;
}

// A transaction in memory filled with `fill` beforehand, so that nothing is read without being set.
struct Txn {
  alignas(sql::Transaction) unsigned char space[sizeof(sql::Transaction)];
  sql::Transaction* t = nullptr;
  Txn(sql::Database& db, int fill) {
    memset(space, fill, sizeof(space));
    __asm__ volatile("" : : "r"(space) : "memory");
    t = new (space) sql::Transaction(db);
  }
  ~Txn() { t->~Transaction(); }
  void Commit() { t->Commit(); }
};
const auto kCreate = sql::Mode::kReadWriteCreate;

// ------------------------------------------------------------------ histories of two connections
struct World {
  File file;
  std::unique_ptr<sql::Database> db[2];
  std::unique_ptr<Txn> txn[2];
  Map committed, pending[2];
  int value = 0;
  int fill = 0;
  std::string story;
  World() {
    for (auto& d : db)
      d.reset(new sql::Database(file.path, kCreate));
    run(*db[0], kTable);
  }
  ~World() {
    for (auto& t : txn)
      t.reset();
    for (auto& d : db)
      d.reset();
  }
  const Map& seen(int c) const { return txn[c] ? pending[c] : committed; }
};
enum Op { kBegin, kPutA, kPutB, kDelA, kCommit, kCommitTwice, kAbandon, kFailing, kCheckPoint, kReopen, kOps };
const char* const kNames[] = {"begin", "put a", "put b", "delete a", "commit", "commit twice", "abandon", "failing", "check point", "reopen"};

void check(World& w) {
  for (int c = 0; c < 2; ++c) {
    Map m = all(*w.db[c]);
    VF_CHECK(m == w.seen(c), w.story << ": connection " << c << " sees " << text(m) << " instead of " << text(w.seen(c)));
  }
}
// false: not applicable here
bool apply(World& w, int op, int c) {
  const int other = 1 - c;
  w.story += std::string(w.story.empty() ? "" : ", ") + kNames[op] + " on " + std::to_string(c);
  auto throws = [&](const char* what, const std::function<void()>& f) {
    try {
      f();
    } catch (const std::exception&) {
      return;
    }
    vf::fail(w.story + ": " + what + " did not throw");
  };
  try {
    switch (op) {
      case kBegin:
        if (w.txn[c])
          return false;
        if (w.txn[other]) {
          throws("beginning while another connection has a transaction", [&] { Txn t(*w.db[c], 0xff); });
          break;
        }
        w.txn[c].reset(new Txn(*w.db[c], (w.fill = ~w.fill) & 0xff));
        w.pending[c] = w.committed;
        break;
      case kPutA:
      case kPutB: {
        const std::string k(op == kPutA ? "a" : "b"), v("v" + std::to_string(++w.value));
        if (!w.txn[c] && w.txn[other]) {
          throws("writing while another connection has a transaction", [&] { put(*w.db[c], k, v); });
          break;
        }
        put(*w.db[c], k, v);
        (w.txn[c] ? w.pending[c] : w.committed)[k] = v;
        break;
      }
      case kDelA:
        if (!w.txn[c])
          return false;
        del(*w.db[c], "a");
        w.pending[c].erase("a");
        break;
      case kCommit:
        if (!w.txn[c])
          return false;
        w.txn[c]->Commit();
        w.committed = w.pending[c];
        {
          Map m = stored(w.file.path);  // even before the transaction is destroyed
          VF_CHECK(m == w.committed, w.story << ": stored is " << text(m) << " instead of " << text(w.committed));
        }
        w.txn[c].reset();
        break;
      case kCommitTwice: {
        if (!w.txn[c])
          return false;
        w.txn[c]->Commit();
        w.committed = w.pending[c];
        throws("a second commit", [&] { w.txn[c]->Commit(); });
        w.txn[c].reset();
        break;
      }
      case kAbandon:
        if (!w.txn[c])
          return false;
        w.txn[c].reset();
        break;
      case kFailing:  // a statement that fails inside a transaction, which is then abandoned as the exception passes
        if (!w.txn[c])
          return false;
        throws("a null value", [&] {
          struct Passing {
            decltype(w.txn[c])& txn;
            ~Passing() { txn.reset(); }
          } passing{w.txn[c]};
          put(*w.db[c], "z", "z");
          run(*w.db[c], "INSERT INTO t VALUES ('y', NULL)");
        });
        w.txn[c].reset();
        break;
      case kCheckPoint:
        w.db[c]->CheckPoint();  // may do nothing while the other connection is busy
        break;
      case kReopen:
        w.txn[c].reset();
        w.db[c].reset();
        w.db[c].reset(new sql::Database(w.file.path, sql::Mode::kReadWrite));
        break;
    }
  } catch (const std::exception& e) {
    vf::fail(w.story + ": threw " + why(e));
  }
  check(w);
  ++vf::transitions;
  return true;
}
bool replay(const std::vector<std::pair<int, int>>& h) {
  World w;
  for (auto& s : h)
    if (!apply(w, s.first, s.second))
      return false;
  w.txn[0].reset();
  w.txn[1].reset();
  check(w);
  Map m = stored(w.file.path);
  VF_CHECK(m == w.committed, w.story << ": stored is " << text(m) << " instead of " << text(w.committed));
  uint64_t key = vf::hash_str(text(w.committed));
  vf::state(key);
  for (int c = 0; c < 2; ++c) {  // both can go on
    Txn t(*w.db[c], 0xff);
    put(*w.db[c], "end", std::to_string(c));
    t.Commit();
  }
  w.committed["end"] = "1";
  w.db[0].reset();
  w.db[1].reset();
  Map n = stored(w.file.path);
  VF_CHECK(n == w.committed, w.story << ": finally stored is " << text(n) << " instead of " << text(w.committed));
  ++vf::histories;
  return true;
}
// connection states: whether each has a transaction (enough to know which steps apply)
void walk(std::vector<std::pair<int, int>>& h, bool t0, bool t1, int depth) {
  if (depth == 0) {
    if (vf::take() && !replay(h))
      vf::fail("the enumeration offered a step that does not apply");
    return;
  }
  for (int c = 0; c < (h.empty() ? 1 : 2); ++c)  // the first step is on connection 0 (they are alike)
    for (int op = 0; op < kOps; ++op) {
      const bool mine = c ? t1 : t0, theirs = c ? t0 : t1;
      bool next = mine;
      if (op == kBegin) {
        if (mine)
          continue;
        next = !theirs;
      } else if (op == kDelA || op == kCommit || op == kCommitTwice || op == kAbandon || op == kFailing) {
        if (!mine)
          continue;
        next = op == kDelA;
      } else if (op == kReopen) {
        next = false;
      }
      h.emplace_back(op, c);
      walk(h, c ? t0 : next, c ? next : t1, depth - 1);
      h.pop_back();
    }
}
void histories() {
  vf::set_case_limit(60);
  std::vector<std::pair<int, int>> h;
  const int depth = vf::thorough ? 5 : 4;
  for (int d = 1; d <= depth; ++d)
    walk(h, false, false, d);
  vf::sample("all histories of up to " + std::to_string(depth) + " of ten operations on two connections");
}

// ------------------------------------------------------------------ waiting
void waiting() {
  vf::set_case_limit(60);
  // connection 1 begins while 0 holds a transaction, which ends at the n-th sleep
  for (int n = 1; n <= (vf::thorough ? 400 : 100); ++n)
    for (int end = 0; end < 3; ++end) {
      if (!vf::take())
        continue;
      World w;
      std::unique_ptr<Txn> first(new Txn(*w.db[0], 0xff));
      put(*w.db[0], "a", "first");
      bool ended = false;
      int left = n;
      g_on_sleep = [&] {
        if (--left)
          return;
        if (end == 0)
          first->Commit();
        first.reset();
        if (end == 2)
          w.db[0].reset();
        ended = true;
      };
      try {
        Txn second(*w.db[1], 0xff);
        VF_CHECK(ended, "a transaction began while another was open");
        g_on_sleep = nullptr;
        Map m = all(*w.db[1]);
        VF_CHECK(m == (end == 0 ? Map{{"a", "first"}} : Map{}), "after waiting " << n << " times the contents are " << text(m));
        put(*w.db[1], "b", "second");
        second.Commit();
      } catch (const std::exception& e) {
        vf::fail("waiting for a transaction that ended after " + std::to_string(n) + " sleeps threw " + why(e));
      }
      g_on_sleep = nullptr;
      Map want{{"b", "second"}};
      if (end == 0)
        want["a"] = "first";
      Map m = stored(w.file.path);
      VF_CHECK(m == want, "after both transactions the contents are " << text(m));
      ++vf::transitions;
    }
  // without write-ahead log a commit has to wait for readers
  for (int n = 1; n <= (vf::thorough ? 400 : 100); ++n)
    for (int end = 0; end < 2; ++end) {
      if (!vf::take())
        continue;
      File f;
      sql::Database one(f.path, kCreate);
      run(one, "PRAGMA journal_mode = DELETE");
      run(one, kTable);
      put(one, "a", "0");
      put(one, "b", "0");
      sql::Database two(f.path, kCreate);
      run(two, "PRAGMA journal_mode = DELETE");
      std::unique_ptr<sql::Statement> reader(new sql::Statement(two, "SELECT v FROM t"));
      VF_CHECK(reader->Step() == sql::StepResult::kSqliteRow, "no row");
      int left = n;
      g_on_sleep = [&] {
        if (--left)
          return;
        if (end == 0)
          reader->Reset();
        else
          reader.reset();
      };
      try {
        Txn t(one, 0xff);
        put(one, "a", "1");
        t.Commit();
        VF_CHECK(left <= 0, "the commit did not wait");
      } catch (const std::exception& e) {
        vf::fail("a commit with a reader that ended after " + std::to_string(n) + " sleeps threw " + why(e));
      }
      g_on_sleep = nullptr;
      reader.reset();
      Map m = all(two);
      VF_CHECK(m == (Map{{"a", "1"}, {"b", "0"}}), "after the commit the contents are " << text(m));
      ++vf::transitions;
    }
  // a reader that never ends: the commit fails and nothing of it stays
  for (int fill : {0, 0xff})
    if (vf::take()) {
      File f;
      sql::Database one(f.path, kCreate);
      run(one, "PRAGMA journal_mode = DELETE");
      run(one, kTable);
      put(one, "a", "0");
      sql::Database two(f.path, kCreate);
      run(two, "PRAGMA journal_mode = DELETE");
      std::unique_ptr<sql::Statement> reader(new sql::Statement(two, "SELECT v FROM t"));
      reader->Step();
      bool threw = false;
      {
        Txn t(one, fill);
        put(one, "a", "1");
        try {
          t.Commit();
        } catch (const std::exception&) {
          threw = true;
        }
      }
      VF_CHECK(threw, "a commit succeeded despite a reader");
      reader.reset();
      Map m = all(two), n = all(one);
      VF_CHECK(m == (Map{{"a", "0"}}) && n == m, "after a failed commit the contents are " << text(m) << text(n));
      Txn t(one, fill);
      put(one, "a", "2");
      t.Commit();
      m = all(two);
      VF_CHECK(m == (Map{{"a", "2"}}), "after another commit the contents are " << text(m));
      ++vf::transitions;
    }
}

// ------------------------------------------------------------------ crashes and failures
// A story of transactions; the marks say how far it got.
struct Story {
  std::string path;
  std::vector<Map> states;  // contents after each commit
  std::function<void(char)> mark;
  int spill = 0;
  bool wal = true;
  bool stop_on_error = false;
  size_t big = 3000;
  std::string problem;

  Map now;
  void txn(sql::Database& db, bool commit, const std::function<void(Map&)>& f) {
    Map next = now;
    bool done = false;
    try {
      Txn t(db, 0xff);
      f(next);
      if (commit) {
        mark('c');  // from here on it may be there
        t.Commit();
        mark('d');  // from here on it must be there
        done = true;
      }
    } catch (const std::exception&) {
      if (!stop_on_error)
        throw;
      if (commit && !done)
        mark('x');  // it must not be there
    }
    if (done)
      now = next;
  }
  void go() {
    std::unique_ptr<sql::Database> db;
    auto open = [&] {
      db.reset();
      db.reset(new sql::Database(path, kCreate));
      if (!wal)
        run(*db, "PRAGMA journal_mode = DELETE");
      if (spill)
        run(*db, "PRAGMA cache_size = " + std::to_string(spill));
    };
    try {
      open();
      mark('o');
      run(*db, kTable);
      mark('t');
    } catch (const std::exception&) {
      if (!stop_on_error)
        throw;
      return;
    }
    auto set = [&](Map& m, const std::string& k, const std::string& v) {
      put(*db, k, v);
      m[k] = v;
    };
    txn(*db, true, [&](Map& m) {
      set(m, "a", "1");
      set(m, "b", "1");
    });
    check(*db);
    txn(*db, true, [&](Map& m) {
      set(m, "a", "2");
      set(m, "c", std::string(big, 'c'));
      del(*db, "b");
      m.erase("b");
    });
    check(*db);
    txn(*db, false, [&](Map& m) {
      set(m, "a", "abandoned");
      set(m, "e", std::string(big, 'e'));
    });
    check(*db);
    if (wal)
      db->CheckPoint();
    check(*db);
    txn(*db, true, [&](Map& m) {
      set(m, "a", "3");
      set(m, "d", "3");
    });
    check(*db);
    try {
      open();
    } catch (const std::exception&) {
      if (!stop_on_error)
        throw;
      return;
    }
    txn(*db, true, [&](Map& m) {
      set(m, "a", "4");
      del(*db, "c");
      m.erase("c");
    });
    check(*db);
  }
  // With failures: the same connection sees what was committed, and can go on.
  void check(sql::Database& db) {
    if (!stop_on_error)
      return;
    try {
      Map m = all(db);
      if (m != now && problem.empty())
        problem = "the connection sees " + text(m) + " instead of " + text(now);
    } catch (const std::exception& e) {
      if (g.ops <= g.at && problem.empty())
        problem = "reading threw " + why(e);
    }
  }
};
struct Variant {
  const char* name;
  bool wal;
  int spill;
  size_t big;
};
const Variant kVariants[] = {{"write-ahead log", true, 0, 3000},
                             {"write-ahead log, small cache", true, 2, 60000},
                             {"roll-back journal", false, 0, 3000},
                             {"roll-back journal, small cache", false, 2, 60000}};
Story story(const Variant& v, const std::string& path) {
  Story s;
  s.path = path;
  s.wal = v.wal;
  s.spill = v.spill;
  s.big = v.big;
  s.mark = [](char) {};
  return s;
}
// All contents after each commit, without any fault, and the number of file operations.
std::vector<Map> expected(const Variant& v, int* ops) {
  File f;
  std::vector<Map> states(1);
  Story s = story(v, f.path);
  Map* now = &s.now;
  g.armed = true;
  g.mode = kCount;
  g.ops = 0;
  bool pending = false;
  s.mark = [&](char c) { pending = c == 'd'; };
  // `now` is set after the mark: follow it from the outside
  struct Tracker : Story {};
  auto last = *now;
  s.mark = [&](char) {
    if (*now != last) {
      states.push_back(*now);
      last = *now;
    }
  };
  s.go();
  if (*now != last)
    states.push_back(*now);
  g.armed = false;
  *ops = g.ops;
  return states;
}
void crashes() {
  vf::set_case_limit(60);
  for (auto& v : kVariants) {
    int ops = 0;
    const std::vector<Map> states = expected(v, &ops);
    if (states.size() != 5)
      vf::fail(std::string(v.name) + ": without any fault there were " + std::to_string(states.size() - 1) + " commits");
    vf::info(std::string(v.name) + ": " + std::to_string(ops) + " file operations");
    for (int at = 0; at < ops; ++at)
      for (Mode mode : {kDieBefore, kDieTorn, kDieAfter})
        for (size_t cut : mode == kDieTorn ? (vf::thorough ? std::vector<size_t>{1, 2, 3, 4, 5, 6, 7} : std::vector<size_t>{1, 4, 7})
                                           : std::vector<size_t>{0}) {
          if (!vf::take())
            continue;
          File f;
          const std::string what = std::string(v.name) + ": a process that " + kModes[mode] + " file operation " + std::to_string(at) +
                                   (mode == kDieTorn ? " (after " + std::to_string(cut) + "/8)" : "");
          int p[2];
          if (pipe(p) != 0)
            vf::fail("no pipe");
          const pid_t pid = fork();
          if (pid == 0) {
            alarm(60);
            Story s = story(v, f.path);
            s.mark = [&](char c) {
              if (write(p[1], &c, 1) != 1)
                _exit(3);
            };
            g.armed = true;
            g.mode = mode;
            g.at = at;
            g.cut = cut;
            g.ops = 0;
            try {
              s.go();
            } catch (const std::exception& e) {
              _exit(66);
            }
            _exit(0);
          }
          close(p[1]);
          std::string marks;
          char c;
          while (read(p[0], &c, 1) == 1)
            marks += c;
          close(p[0]);
          int status = 0;
          waitpid(pid, &status, 0);
          VF_CHECK(WIFEXITED(status) && (WEXITSTATUS(status) == 77 || WEXITSTATUS(status) == 0), what << " ended with status " << status);
          size_t must = 0, may = 0;
          for (char m : marks) {
            must += m == 'd';
            may += m == 'c';
          }
          Map got = stored(f.path), mine;
          VF_CHECK(got == states[must] || got == states[may], what << ": after " << must << " commits (" << marks << ") stored is " << text(got));
          try {  // the wrapper finds the same, and can go on
            sql::Database db(f.path, kCreate);
            run(db, kTable);
            mine = all(db);
            {
              Txn t(db, 0xff);
              put(db, "after", "crash");
              t.Commit();
            }
            Map want = got;
            want["after"] = "crash";
            Map then = all(db);
            VF_CHECK(then == want, what << ": later the contents are " << text(then));
          } catch (const std::exception& e) {
            vf::fail(what + ": opening it again threw " + why(e));
          }
          VF_CHECK(mine == got, what << ": the wrapper finds " << text(mine) << " instead of " << text(got));
          vf::outcome(vf::hash_str(marks + text(got)));
          ++vf::histories;
          vf::transitions += marks.size();
        }
  }
}
void failures() {
  vf::set_case_limit(60);
  for (auto& v : kVariants) {
    int ops = 0;
    expected(v, &ops);
    for (int at = 0; at < ops; ++at)
      for (Mode mode : {kFailEio, kFailFull, kShortWrite})
        for (size_t cut : mode == kShortWrite ? std::vector<size_t>{0, 4} : std::vector<size_t>{0}) {
          if (!vf::take())
            continue;
          File f;
          const std::string what = std::string(v.name) + ": a process that " + kModes[mode] + " file operation " + std::to_string(at);
          Story s = story(v, f.path);
          s.stop_on_error = true;
          std::string marks;
          s.mark = [&](char c) { marks += c; };
          g.armed = true;
          g.mode = mode;
          g.at = at;
          g.cut = cut;
          g.ops = 0;
          try {
            s.go();
          } catch (const std::exception& e) {
            s.problem = std::string("unexpected exception ") + why(e);
          }
          g.armed = false;
          VF_CHECK(s.problem.empty(), what << " (" << marks << "): " << s.problem);
          Map got = stored(f.path);
          VF_CHECK(got == s.now, what << " (" << marks << "): stored is " << text(got) << " instead of " << text(s.now));
          vf::outcome(vf::hash_str(marks + text(got)));
          ++vf::histories;
          vf::transitions += marks.size();
        }
  }
}

// ------------------------------------------------------------------ values
template <typename F>
std::string thrown(F f) {
  try {
    f();
  } catch (const maidsafe::maidsafe_error& e) {
    return e.code().message();
  } catch (const std::exception& e) {
    return std::string("other: ") + e.what();
  }
  return "";
}
void round_trip(sql::Database& db, const std::string& value, bool blob_too = true) {
  const maidsafe::SerialisedData blob(value.begin(), value.end());
  {
    sql::Statement s(db, "INSERT INTO u VALUES (?, ?)");
    {
      std::string copy(value);  // gone (and overwritten) before the statement runs
      s.BindText(1, copy);
      for (auto& c : copy)
        c = '#';
      maidsafe::SerialisedData bytes(blob);
      if (blob_too)
        s.BindBlob(2, bytes);
      else
        s.BindBlob(2, maidsafe::SerialisedData());
      for (auto& c : bytes)
        c = '#';
    }
    VF_CHECK(s.Step() == sql::StepResult::kSqliteDone, "an insertion returned a row");
  }
  sql::Statement s(db, "SELECT a, b, typeof(a), typeof(b), length(CAST(a AS BLOB)), length(b) FROM u");
  VF_CHECK(s.Step() == sql::StepResult::kSqliteRow, "nothing was inserted");
  const std::string a = s.ColumnText(0);
  const auto b = s.ColumnBlob(1);
  VF_CHECK(a == value, "text " << vf::show(value.substr(0, 100)) << " of " << value.size() << " bytes is read as " << vf::show(a.substr(0, 100)) << " of "
                               << a.size());
  if (blob_too)
    VF_CHECK(b == blob, "a blob of " << value.size() << " bytes, " << vf::show(value.substr(0, 100)) << ", is read differently");
  VF_CHECK(s.ColumnText(2) == "text" && s.ColumnText(3) == "blob", "values of " << value.size() << " bytes are stored as " << s.ColumnText(2) << " and "
                                                                                << s.ColumnText(3));
  VF_CHECK(s.ColumnText(4) == std::to_string(value.size()), "text of " << value.size() << " bytes has length " << s.ColumnText(4));
  VF_CHECK(s.Step() == sql::StepResult::kSqliteDone, "more than one row");
  {
    sql::Statement d(db, "DELETE FROM u");
    d.Step();
  }
  ++vf::transitions;
  vf::state(vf::hash_str(value));
}
struct Values {
  File f;
  sql::Database db{f.path, kCreate};
  Values() {
    run(db, "PRAGMA journal_mode = MEMORY");
    run(db, "CREATE TABLE u (a TEXT NOT NULL, b BLOB NOT NULL)");
  }
};
void values() {
  vf::set_case_limit(60);
  {  // all strings over some bytes
    const std::string alphabet("\0a'\xff\xc3\x80%?", 8);
    const int len = vf::thorough ? 5 : 4;
    std::unique_ptr<Values> v;
    std::function<void(std::string)> each = [&](std::string s) {
      if (vf::take()) {
        if (!v)
          v.reset(new Values);
        round_trip(v->db, s);
      }
      if (s.size() < static_cast<size_t>(len))
        for (char c : alphabet)
          each(s + c);
    };
    each("");
    for (int i = 0; i < 65536; i += vf::thorough ? 1 : 7)
      if (vf::take()) {
        if (!v)
          v.reset(new Values);
        round_trip(v->db, std::string{static_cast<char>(i >> 8), static_cast<char>(i)});
      }
    for (int n : {100, 999, 1000, 1001, 4000, 4095, 4096, 4097, 65535, 65536, 1000000, 3000000})
      if (vf::take()) {
        if (!v)
          v.reset(new Values);
        std::string s;
        for (int i = 0; i < n; ++i)
          s += static_cast<char>(i * 31 + i / 256);
        round_trip(v->db, s);
      }
    for (int n = 0; n < (vf::thorough ? 3000 : 600); ++n)
      if (vf::take()) {
        if (!v)
          v.reset(new Values);
        round_trip(v->db, std::string(n, static_cast<char>(n)));
      }
  }
  if (vf::take()) {  // an empty blob with and without storage; nulls
    Values v;
    maidsafe::SerialisedData reserved;
    reserved.reserve(10);
    for (auto* blob : {&reserved}) {
      sql::Statement s(v.db, "INSERT INTO u VALUES ('x', ?)");
      s.BindBlob(1, *blob);
      s.Step();
    }
    sql::Statement s(v.db, "SELECT NULL, NULL, b, typeof(b) FROM u");
    VF_CHECK(s.Step() == sql::StepResult::kSqliteRow, "no row");
    VF_CHECK(s.ColumnText(0).empty() && s.ColumnBlob(1).empty(), "a null value is not empty");
    VF_CHECK(s.ColumnBlob(2).empty() && s.ColumnText(3) == "blob", "an empty blob is read differently");
  }
  // histories of one statement: bind, step, reset, read
  const int depth = vf::thorough ? 7 : 6;
  std::unique_ptr<Values> v;
  std::vector<int> h;
  std::function<void()> each = [&] {
    if (static_cast<int>(h.size()) == depth) {
      if (!vf::take())
        return;
      if (!v)
        v.reset(new Values);
      run(v->db, "DELETE FROM u");
      std::vector<std::pair<std::string, std::string>> want;
      std::string story;
      {
        sql::Statement s(v->db, "INSERT INTO u VALUES (?, ?)");
        std::string a, b;
        bool has_a = false, has_b = false, done = false;
        int n = 0;
        for (int op : h) {
          story += "asrx"[op];
          ++n;
          if (op == 0 || op == 1) {
            const std::string value = std::string(op ? "B" : "A") + std::to_string(n);
            const std::string err = thrown([&] {
              if (op)
                s.BindBlob(2, maidsafe::SerialisedData(value.begin(), value.end()));
              else
                s.BindText(1, value);
            });
            VF_CHECK(err.empty() == !done, story << ": binding " << (done ? "a statement that was run did not throw" : "threw " + err));
            if (!done) {
              (op ? b : a) = value;
              (op ? has_b : has_a) = true;
            }
          } else if (op == 2) {
            const std::string err = thrown([&] {
              auto r = s.Step();
              VF_CHECK(r == sql::StepResult::kSqliteDone, story << ": a row");
            });
            // a finished statement that is stepped again starts again
            const bool good = has_a && has_b;
            VF_CHECK(err.empty() == good, story << ": a step " << (good ? "threw " + err : "did not throw"));
            if (good)
              want.emplace_back(a, b);
            done = good;
            if (!good)
              thrown([&] { s.Reset(); });  // may report the failed step again
          } else {
            const std::string err = thrown([&] { s.Reset(); });
            VF_CHECK(err.empty(), story << ": a reset threw " << err);
            done = false;
          }
        }
      }
      std::vector<std::pair<std::string, std::string>> got;
      sql::Statement r(v->db, "SELECT a, b FROM u ORDER BY rowid");
      while (r.Step() == sql::StepResult::kSqliteRow) {
        auto x = r.ColumnBlob(1);
        got.emplace_back(r.ColumnText(0), std::string(x.begin(), x.end()));
      }
      VF_CHECK(got == want, story << ": " << got.size() << " rows instead of " << want.size() << " or other values");
      ++vf::histories;
      vf::transitions += h.size();
      return;
    }
    for (int op = 0; op < 4; ++op) {
      h.push_back(op);
      each();
      h.pop_back();
    }
  };
  each();
}

// ------------------------------------------------------------------ errors
void errors() {
  vf::set_case_limit(60);
  const sql::Mode modes[] = {sql::Mode::kReadOnly, sql::Mode::kReadWrite, sql::Mode::kReadWriteCreate};
  for (int m = 0; m < 3; ++m) {
    if (vf::take()) {  // absent
      File f;
      const std::string err = thrown([&] { sql::Database db(f.path, modes[m]); });
      VF_CHECK(err.empty() == (m == 2), "opening an absent data base in mode " << m << " gave '" << err << "'");
      VF_CHECK((access(f.path.c_str(), F_OK) == 0) == (m == 2), "a data base was created in mode " << m);
      if (m != 2)
        VF_CHECK(err == maidsafe::make_error_code(maidsafe::CommonErrors::db_not_present).message(), "an absent data base is reported as " << err);
      // nothing stays behind
      thrown([&] { sql::Database db(vf::scratch, modes[m]); });
      const auto used = sqlite3_memory_used();
      for (int i = 0; i < 20; ++i) {
        const std::string e2 = thrown([&] { sql::Database db(vf::scratch + "/none/db", modes[m]); });
        VF_CHECK(e2 == maidsafe::make_error_code(maidsafe::CommonErrors::db_not_present).message(), "a data base in no folder is reported as " << e2);
        const std::string e3 = thrown([&] { sql::Database db(vf::scratch, modes[m]); });
        VF_CHECK(!e3.empty(), "a folder can be opened as a data base");
      }
      VF_CHECK(sqlite3_memory_used() == used, "each failure to open a data base keeps " << (sqlite3_memory_used() - used) / 40 << " bytes");
      ++vf::transitions;
    }
    if (vf::take()) {  // not a data base
      for (const char* content : {"this is not a data base, is it? ", "S"}) {
        File f;
        {
          std::ofstream out(f.path);
          for (int i = 0; i < 200; ++i)
            out << content;
        }
        auto attempt = [&] {
          int thrown_times = 0;
          std::unique_ptr<sql::Database> db;
          thrown_times += !thrown([&] { db.reset(new sql::Database(f.path, modes[m])); }).empty();
          if (db) {
            thrown_times += !thrown([&] {
                               sql::Transaction t(*db);
                               run(*db, kTable);
                               t.Commit();
                             }).empty();
            thrown([&] {
              sql::Statement s(*db, "SELECT * FROM t");
              s.Step();
            });
          }
          VF_CHECK(thrown_times, "using a file that is no data base in mode " << m << " was not reported");
        };
        attempt();
        const auto used = sqlite3_memory_used();
        for (int i = 0; i < 5; ++i)
          attempt();
        VF_CHECK(sqlite3_memory_used() == used, "each use of a file that is no data base keeps " << (sqlite3_memory_used() - used) / 5 << " bytes");
      }
      ++vf::transitions;
    }
    if (vf::take()) {  // present
      File f;
      {
        sql::Database db(f.path, kCreate);
        run(db, kTable);
        put(db, "a", "1");
      }
      auto attempt = [&] {
        sql::Database db(f.path, modes[m]);
        Map c = all(db);
        VF_CHECK(c == (Map{{"a", "1"}}), "mode " << m << " reads " << text(c));
        const std::string err = thrown([&] { put(db, "a", "1"); });
        VF_CHECK(err.empty() == (m != 0), "writing in mode " << m << " gave '" << err << "'");
        VF_CHECK(db.InsertLimit() == 250000 || db.InsertLimit() == 32766 || db.InsertLimit() == 999, "the insert limit is " << db.InsertLimit());
        std::string q = "SELECT ?";
        for (int i = 1; i < db.InsertLimit() && i < 1000000; ++i)
          q += ",?";
        // (as many columns as parameters need not be allowed: use a list)
        std::string list = "SELECT 1 WHERE 1 IN (" + q.substr(7) + ")", longer = "SELECT 1 WHERE 1 IN (" + q.substr(7) + ",?)";
        VF_CHECK(thrown([&] { sql::Statement s(db, list); }).empty(), "as many values as the insert limit are refused");
        VF_CHECK(!thrown([&] { sql::Statement s(db, longer); }).empty(), "more values than the insert limit are accepted");
      };
      attempt();
      const auto used = sqlite3_memory_used();
      for (int i = 0; i < 3; ++i)
        attempt();
      VF_CHECK(sqlite3_memory_used() == used, "each use in mode " << m << " keeps " << (sqlite3_memory_used() - used) / 3 << " bytes");
      Map c = stored(f.path);
      VF_CHECK(c == (Map{{"a", "1"}}), "stored is " << text(c));
      ++vf::transitions;
    }
  }
  // wrong statements and bindings
  struct {
    const char* query;
    bool prepares;
  } const queries[] = {{"", true}, {"SELECT", false}, {"SELECT * FROM nothing", false}, {"SELECT 1", true}, {"SELEC 1", false}, {"SELECT ?", true}};
  for (auto& q : queries)
    for (int index : {-1, 0, 1, 2, 100000000}) {
      if (!vf::take())
        continue;
      File f;
      sql::Database db(f.path, kCreate);
      const auto used = [&] {
        thrown([&] { sql::Statement s(db, q.query); });
        return sqlite3_memory_used();
      }();
      const std::string err = thrown([&] {
        sql::Statement s(db, q.query);
        const bool fits = index == 1 && std::string(q.query) == "SELECT ?";
        VF_CHECK(thrown([&] { s.BindText(index, "x"); }).empty() == fits, "binding text " << index << " of '" << q.query << "'");
        VF_CHECK(thrown([&] { s.BindBlob(index, maidsafe::SerialisedData(3)); }).empty() == fits, "binding blob " << index << " of '" << q.query << "'");
        if (std::string(q.query) == "SELECT ?") {
          s.Step();
          VF_CHECK(s.ColumnText(5).empty() && s.ColumnBlob(-1).empty(), "a column that does not exist has a value");
        }
      });
      VF_CHECK(err.empty() == q.prepares, "preparing '" << q.query << "' gave '" << err << "'");
      (void)used;
      ++vf::transitions;
    }
  // a transaction inside a transaction on the same connection is refused and the outer one goes on
  for (int end = 0; end < 2; ++end)
    if (vf::take()) {
      File f;
      sql::Database db(f.path, kCreate);
      run(db, kTable);
      {
        Txn outer(db, 0xff);
        put(db, "a", "1");
        VF_CHECK(!thrown([&] { Txn inner(db, 0xff); }).empty(), "a transaction began inside another");
        Map m = all(db);
        VF_CHECK(m == (Map{{"a", "1"}}), "the outer transaction lost its changes");
        put(db, "b", "1");
        if (end)
          outer.Commit();
      }
      Map m = stored(f.path), want;
      if (end)
        want = Map{{"a", "1"}, {"b", "1"}};
      VF_CHECK(m == want, "stored is " << text(m));
      ++vf::transitions;
    }
}
}  // namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"errors", errors}, {"values", values}, {"waiting", waiting}, {"crashes", crashes}, {"failures", failures},
                              {"histories", histories}});
}

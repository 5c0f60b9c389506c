"""Which harnesses decide which property."""
import json, os
import vbuild

S = "src/maidsafe/common/"
MC = [("mc/mc.cc", "fast")]
_here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for _l in open(os.path.join(_here, "properties.jsonl")):
    _d = json.loads(_l)
    TITLES[_d["id"]] = _d["title"]


def src(*names):
    return [S + n + ".cc" for n in names]


CORE = vbuild.BASE  # what most of the library needs


class Job:
    kind = "seq"
    shards = 8

    def __init__(self, name, harness, sources, variant, libs=(), cflags=(), ldflags=(), extra=(), shards=8):
        self.name, self.harness, self.sources, self.variant = name, list(harness), list(sources), variant
        self.libs, self.cflags, self.ldflags, self.extra, self.shards = (
            list(libs), list(cflags), list(ldflags), list(extra), shards)


class Seq(Job):
    def __init__(self, name, harness, sources, variant="san", **kw):
        super().__init__(name, ["common/vf.cc"] + list(harness), sources, variant, **kw)


class Mc(Job):
    kind = "mc"

    def __init__(self, name, harness, sources, variant="mc", q=25, t=1500, **kw):
        super().__init__(name, harness, sources, variant, extra=MC, **kw)
        self.budget_q, self.budget_t = q, t


class Check:
    def __init__(self, prop, level, technique, note, jobs, rule="", assumptions=()):
        self.prop, self.level, self.technique, self.note, self.jobs = prop, level, technique, note, jobs
        self.rule, self.assumptions, self.title = rule, list(assumptions), TITLES[prop]
        CHECKS[prop] = self


CHECKS = {}
NOT_APPLICABLE = {}

SCHED = ("sequentially consistent memory plus a happens-before race detector (a race-free execution has no "
         "weaker behaviour); boost and libstdc++ code that is not instrumented is trusted")
STATELESS = "stateless model checking of the real code: all schedules up to a deviation bound, with race detection"

Check("C01", "model_checking", STATELESS,
      "Exhaustive over all schedules of 11 small drivers (up to 4 threads and 4 tasks) up to the deviation bound "
      "reported in the evidence; preemptions, spurious wake-ups and time-outs each cost one deviation.",
      [Mc("c01", ["harness/c01_active.cc"], src("active"), q=20)], assumptions=[SCHED])

ENUM = "bounded-exhaustive enumeration of inputs of the real code against a reference implementation (small-scope model checking)"
Check("C10", "exploration", ENUM,
      "Exhaustive over the stated alphabets and lengths; memory errors are seen by AddressSanitizer.",
      [Seq("c10", ["harness/c10_encode.cc"], CORE, cflags=["-DPART=10"])],
      rule="every input of the listed alphabets and lengths once; non-trivial: distinct results of the reference codec")
Check("C11", "exploration", ENUM,
      "Exhaustive over the stated alphabets and lengths; memory errors are seen by AddressSanitizer.",
      [Seq("c11", ["harness/c10_encode.cc"], CORE, cflags=["-DPART=11"])],
      rule="every input of the listed alphabets and lengths once; non-trivial: distinct results of the reference codec")
Check("C16", "exploration", ENUM,
      "Every length to 600, every chunking of messages to 15 bytes, every three chunks of 0..26 bytes, every byte value "
      "to 24 bytes and every history of 4 operations on two hashers; the reference is checked against published vectors.",
      [Seq("c16", ["harness/c16_siphash.cc"], CORE + src("hash/algorithms/siphash"))],
      rule="every input of the listed bounds once; non-trivial: distinct reference hashes")
HIST = "bounded-exhaustive exploration of operation histories of the real code against a reference model"
Check("C12", "exploration", ENUM,
      "Every creation size to 140 bytes in every encoding, all 65536 byte pairs at all 64 positions, all triples of a boundary set.",
      [Seq("c12", ["harness/c12_identity.cc"], CORE)],
      rule="every input of the listed bounds once; non-trivial: distinct sizes, encodings and common-bit counts")
Check("C13", "model_checking", HIST,
      "All histories of 3 (thorough: 4) of 44 operations on three objects, for five pairs of bounds and two string types.",
      [Seq("c13", ["harness/c13_bounded.cc"], CORE)])
Check("C07", "model_checking", HIST,
      "All histories of 4-8 operations (see samples) on 3-5 keys for capacities 0-3 and with a virtual clock around the time to live.",
      [Seq("c07", ["harness/c07_lru.cc"], CORE)], assumptions=["the steady clock is read through clock_gettime"])
STATES = "explicit-state model checking: every reachable state of a reference model, each transition replayed on the real code"
SDVS = CORE + src("data_types/structured_data_versions", "data_types/immutable_data")
Check("C08", "model_checking", STATES,
      "All reachable trees over four names for 14 pairs of limits (five names to depth 3; thorough: all reachable), every "
      "Put, deletion, clear and query in each; all insertion orders of all trees of five versions.",
      [Seq("c08", ["harness/c08_versions.cc"], SDVS, cflags=["-DPART=8"])])
Check("C09", "model_checking", STATES,
      "Every state of trees over 3-4 names within depth 4: parsed, swapped with and merged into every other, followed by every "
      "operation; every truncation, and every forged structure of up to three branches.",
      [Seq("c09", ["harness/c08_versions.cc"], SDVS, cflags=["-DPART=9"])])
Check("C18", "model_checking", HIST,
      "All sequences of 3-4 (thorough 4-5) of ten operations from six kinds of initial action for five value types, left normally and by "
      "exception; every failing copy of an action.",
      [Seq("c18", ["harness/c18_scope.cc"], CORE)])
Check("C19", "exploration", ENUM,
      "All error codes and all pairs of them; all integers within 300 of each multiple of 100000, the ends of the range and a "
      "grid (thorough: all within +-2000000).",
      [Seq("c19", ["harness/c19_errors.cc"], CORE)],
      rule="every error code, pair and integer of the listed ranges once; non-trivial: distinct integers of codes")
Check("C17", "exploration", ENUM,
      "All pairs of values of 35 types (strings over 3 characters to length 5, nested containers to 3 elements), all containers and "
      "storage offsets; what is fed to the algorithm is recorded and compared.",
      [Seq("c17", ["harness/c17_hash.cc"], CORE + src("hash/algorithms/siphash"))],
      rule="every pair of values of the listed types; non-trivial: distinct byte sequences fed to the algorithm")
Check("C15", "exploration", ENUM,
      "All values, pairs and truncations for about 35 types (sequences over small alphabets to length 3-4), and records of eight types.",
      [Seq("c15", ["harness/c15_serialise.cc"], CORE, cflags=["-O0"])],
      rule="every value, pair and truncation of the listed types; non-trivial: distinct serialised forms",
      assumptions=["shim/cereal/types/boost_optional.hpp stands in for the one of MaidSafe's own cereal"])
Check("C14", "model_checking", HIST,
      "All histories of 2-3 (thorough 4) of 59 operations on three objects of each kind; 18 values with every truncation and changed byte, "
      "also through the base class; every pairing of 18 names with 18 values.",
      [Seq("c14", ["harness/c14_data.cc"], CORE + src("data_types/immutable_data", "data_types/mutable_data"))])
Check("C28", "exploration", ENUM,
      "All version strings over seven characters to length 7 (thorough 8), all minor and patch levels of 59 majors, all single edits of four; "
      "all byte counts to 2.2 million and around every boundary; 80 instants on 5 days of each month of 2000-2119; all byte pairs.",
      [Seq("c28", ["harness/c28_helpers.cc"], CORE)],
      rule="every input of the listed bounds once; non-trivial: distinct valid versions")
FAULTS = "exhaustive single-fault exploration of the real code with interposed system calls, plus bounded-exhaustive operation histories"
Check("C24", "model_checking", FAULTS,
      "Every call of a read or write of 19 sizes failing, short or racing with a change of the file, every file size limit to 130 bytes; "
      "all histories of 4 (thorough 5) operations on two files; 384 names x 13 types, all single edits of 9 file names.",
      [Seq("c24", ["harness/c24_files.cc"], CORE)],
      assumptions=["file input and output reaches the kernel through statx, fopen, read, write, writev and fclose"])
Check("C20", "model_checking", STATES,
      "All 23 menu trees of up to four items, with and without actions, driven by all sequences of 4 (thorough 5) of nine kinds of line and a second run; "
      "every number in menus of up to 120 items; all lines over ten characters to length 3-4; all sequences of six passwords.",
      [Seq("c20", ["harness/c20_menu.cc"], CORE + src("menu", "menu_item", "cli"))])
Check("C32", "exploration", ENUM,
      "13000 whole seconds around every boundary with 91 (thorough 3010) offsets either side, under a virtual clock; all addresses over 11 octets, all bytes at "
      "all positions of 8 IPv6 addresses with 9 scopes, all ports of five addresses; all byte pairs.",
      [Seq("c32", ["harness/c32_convert.cc"], CORE + src("clock"))],
      rule="every input of the listed bounds once; non-trivial: distinct calendar seconds",
      assumptions=["the system clock is read through clock_gettime(CLOCK_REALTIME)"])
Check("C29", "model_checking", STATELESS + "; and " + ENUM,
      "All interleavings of two or three threads with two to four (thorough four to seven) preemptions over fourteen stories of the generator and the spin lock; all sizes to 1000 "
      "(thorough 5000), all ranges within 0..12 and around 32-bit boundaries, all histories of four (thorough five) of ten calls for three seeds, 2 (thorough 16) million seeds of the small generator.",
      [Mc("c29mc", ["harness/c29_random_mc.cc"], CORE, q=15),
       Seq("c29", ["harness/c29_random.cc"], CORE)],
      assumptions=[SCHED])
Check("C30", "exploration", ENUM,
      "All lists of up to five (thorough six) of 12 arguments after 11 names of executables, every byte; every life of a child process "
      "(stopped, dead, gone) and all ids to 40000; 96 executables' paths with four names.",
      [Seq("c30", ["harness/c30_process.cc"], CORE + src("process"))],
      rule="every input of the listed bounds once; non-trivial: distinct command lines",
      assumptions=["the executable's path is read with readlink on /proc/self/exe"])
Check("C35", "model_checking", STATELESS + "; and exhaustive exploration of the answers of the system call and of call histories",
      "All schedules of two and three setters up to the deviation bound in the evidence; about 100 answers of readlink (errors, every short "
      "length, all lengths around PATH_MAX) with six names; all histories of four (thorough five) calls.",
      [Mc("c35mc", ["harness/c35_path_mc.cc"], CORE, q=10), Seq("c35", ["harness/c35_path.cc"], CORE)],
      assumptions=[SCHED, "the executable's path is read with readlink on /proc/self/exe"])
Check("C31", "model_checking", STATES + " and all short histories",
      "All histories of 3-4 (thorough 4-5) of ten edits for three kinds of bounds; every state within 3-4 (thorough 4-5) steps of 31 edits, "
      "left by each of them; every byte; all data sizes to 330 bytes; 125 triples of credentials.",
      [Seq("c31", ["harness/c31_secret.cc"], CORE + src("authentication/detail/secure_string", "authentication/user_credential_utils"))])
Check("C36", "model_checking", HIST + "; and " + STATELESS,
      "Each case a process of its own with a real server: all bytes in each field, boundary sizes and numbers, all enumerators and their neighbours, all histories of four (thorough five) of "
      "eight steps, six kinds of servers; all interleavings of two threads with up to two (thorough three) preemptions, with and without logging.",
      [Mc("c36mc", ["harness/c36_vlog_mc.cc"], CORE + src("visualiser_log"), variant="mclog", q=15),
       Mc("c36mcnolog", ["harness/c36_vlog_mc.cc"], CORE + src("visualiser_log"), q=10),
       Seq("c36", ["harness/c36_vlog.cc"], CORE + src("visualiser_log"), variant="logsan"),
       Seq("c36nolog", ["harness/c36_vlog.cc"], CORE + src("visualiser_log"))],
      assumptions=[SCHED])
Check("C37", "model_checking", STATELESS + "; and " + HIST,
      "All schedules of two and three threads up to the deviation bound in the evidence; all histories of six (thorough seven) locks and unlocks of nine "
      "ranges; all histories of four (thorough five) of 13 operations on six containers.",
      [Mc("c37mc", ["harness/c37_locked_mc.cc"], [], q=8),
       Seq("c37", ["harness/c37_locked.cc"], src("authentication/detail/secure_string") + CORE, variant="fast")],
      assumptions=[SCHED, "pages are locked through mlock and munlock"])
Check("C21", "exploration", ENUM,
      "All sizes to 600 bytes and around powers of two; every changed byte, every pair of swapped bytes and every cut of cipher texts of ten sizes, "
      "every byte of the key; all levels, all strings over two characters to nine bytes; all message sizes to 700 bytes against reference SHA.",
      [Seq("c21", ["harness/c21_crypto.cc"], CORE)],
      rule="every input of the listed bounds once; non-trivial: distinct cipher texts, compressed texts, digests and passwords")
Check("C22", "exploration", ENUM,
      "All thresholds of 3-6 (thorough 3-8) parts, all subsets of them, all orders of the smaller ones, 24 sizes; all sizes to 200 for three "
      "thresholds; parts cut to every size, every byte damaged, repeated and missing.",
      [Seq("c22", ["harness/c22_shares.cc"], CORE)],
      rule="every input of the listed bounds once; non-trivial: distinct data, thresholds and methods")
Check("C23", "exploration", FAULTS,
      "All sizes to 300 (thorough 700) bytes; every byte of cipher texts, signatures, signed data and encoded keys changed in several (thorough: all) "
      "ways, every cut; every read of files of 12 sizes failing or short; uninitialised keys and keys of other sizes.",
      [Seq("c23", ["harness/c23_rsa.cc"], CORE + src("rsa"))],
      rule="every input of the listed bounds once; non-trivial: distinct data",
      assumptions=["two key pairs, made at the start of each run, stand for all", "files are read through read()"])
Check("C25", "model_checking", "exhaustive exploration of operation histories, crash points and single faults of the real code against a reference map",
      "All histories of four (thorough five) of ten operations on two connections; a story of five transactions in four journal modes killed before, in and "
      "after each file operation, and with each of them failing or short; waiting that ends at every sleep up to 100 (thorough 400); all strings over eight bytes to 4-5.",
      [Seq("c25", ["harness/c25_sqlite.cc"], CORE + src("sqlite3_wrapper"))],
      assumptions=["SQLite reaches files through its table of system calls; a crash is one of the process: the operating system goes on"])
Check("C26", "model_checking", HIST + "; and " + STATELESS,
      "All segmentations and cuts of short streams, all size headers around the boundaries, all histories of six (thorough seven or eight) steps of one connection, of two linked "
      "ones and of a listener, one handler at a time; all interleavings of two service threads with up to two (thorough three) preemptions over twelve stories, over a simulated network.",
      [Mc("c26mc", ["harness/c26_tcp_mc.cc"], CORE + src("tcp/connection", "tcp/listener"), q=20),
       Seq("c26", ["harness/c26_tcp.cc"], CORE + src("tcp/connection", "tcp/listener"))],
      assumptions=[SCHED])
Check("C27", "model_checking", HIST + "; and " + STATELESS,
      "Each case a process of its own: all pairs of configured and message level, spellings, paths, bytes and sizes, folders; all interleavings of two or three logging threads with "
      "the background writer and the end of the process, with up to two or three (thorough up to five) preemptions.",
      [Mc("c27mc", ["harness/c27_log_mc.cc"], CORE, variant="mclog", q=20),
       Seq("c27", ["harness/c27_log.cc"], CORE, variant="logsan")],
      assumptions=[SCHED])
Check("C02", "model_checking", STATELESS + " with a search for a sequential order; and " + HIST,
      "All interleavings, with up to two to six (thorough three to nine) preemptions, of 19 stories of two to four threads; of all programs of two threads with two and three operations and of three "
      "threads with one and two (two or three preemptions, thorough three to five); all histories of six or seven (thorough eight or nine) operations for four kinds of elements, and with each copy failing.",
      [Mc("c02mc", ["harness/c02_queue_mc.cc"], [], q=35),
       Seq("c02", ["harness/c02_queue.cc"], [])],
      assumptions=[SCHED])
Check("C03", "model_checking", STATELESS,
      "All interleavings, with up to one to three (thorough two to five) preemptions, of 20 stories of one to three service threads and up to three others, with standalone and Boost asio; "
      "each of three threads failing to be made.",
      [Mc("c03mc", ["harness/c03_service_mc.cc"], CORE, q=70)],
      assumptions=[SCHED])
Check("C04", "model_checking", STATELESS, "All interleavings with the background writer, with up to one or two (thorough up to four) preemptions, of 26 stories of one to four clients, of all programs of two and all pairs of programs of one and two operations (three and four operations without preemptions, thorough with one or two), with limits of a few bytes; each history is searched for a sequential order.",
      [Mc("c04mc", ["harness/c04_buffer_mc.cc"], CORE + src("data_buffer"), q=100)],
      assumptions=[SCHED])
Check("C05", "model_checking", STATELESS, "All programs of three or four (thorough five) operations, from empty, full and blocked buffers, each Store in a thread of its own; all interleavings, with two (thorough three) preemptions, of one and two operations; after each operation, what is on disk, in memory, handed over and blocked is compared with the rules.",
      [Mc("c05mc", ["harness/c05_buffer_mc.cc"], CORE + src("data_buffer"), q=100)],
      assumptions=[SCHED])
Check("C06", "model_checking", STATELESS + "; " + FAULTS, "Each file operation failing once, or from then on, or half done, alone and in pairs, in 13 stories and all programs of two or three operations; the directory removed; destruction after all programs of two or three operations with up to one or two (thorough three) preemptions; all limits at construction, all sequences of three or four limits, and two threads setting them.",
      [Mc("c06mc", ["harness/c06_buffer_mc.cc"], CORE + src("data_buffer"), q=100)],
      assumptions=[SCHED])
Check("C33", "exploration", ENUM + "; " + HIST,
      "All histories of four (thorough five) creations and removals of two names with four lists of items, everything read after each step; all bytes and pairs of bytes in items, all bytes and lengths of names; all sizes (in steps) and numbers "
      "of items up to what does not fit; three processes.",
      [Seq("c33", ["harness/c33_ipc.cc"], CORE + src("ipc"))],
      rule="every history and input of the listed bounds once; non-trivial: distinct histories, sizes and names")
Check("C34", "model_checking", STATELESS + "; and " + ENUM,
      "All interleavings, with up to one or two (thorough two to four) preemptions, of one to three threads leaving scopes and the end of the process; all sequences of up to four (thorough five) scopes over three places and three durations, "
      "all triples of seven places, durations of all orders of magnitude, clocks set back, nested scopes, 1000 places and 20000 calls, each in a process of its own.",
      [Mc("c34mc", ["harness/c34_profiler_mc.cc"], CORE + src("profiler"), q=50),
       Seq("c34", ["harness/c34_profiler.cc"], CORE + src("profiler"))],
      assumptions=[SCHED])
Check("C38", "exploration", ENUM,
      "All pairs of 36 answers of the user data base and 25 values of HOME, all bytes in either, all histories of three of 16 situations.",
      [Seq("c38", ["harness/c38_app_dirs.cc"], CORE)],
      rule="every situation and history of the listed bounds once; non-trivial: distinct home directories",
      assumptions=["the user data base is asked with getpwuid or getpwuid_r"])
Check("C39", "exploration", ENUM,
      "All values of 8 and 16 bit enumerations, 3000 (thorough 70000) values at each boundary and 300 around each power of two of wider ones, for 15 enumerations.",
      [Seq("c39", ["harness/c39_enums.cc"], [])],
      rule="every value of the listed enumerations and ranges once; non-trivial: distinct texts")
Check("C40", "model_checking", HIST + "; " + FAULTS,
      "All dialogues of 4 (thorough 5) of 12 commands with the list viewed after each; ports, octets and strings one edit away from an endpoint at each prompt; all truncations and byte changes of a file; all file size limits; the input ending after every line of all dialogues of 2 (3) commands.",
      [Seq("c40", ["harness/c40_bootstrap_tool.cc"], CORE, variant="plain")],
      assumptions=["endpoints with leading zeros may be taken or refused", "files with unspecified addresses or ports below 1025 may be taken or refused, as a whole"])
Check("C41", "model_checking", HIST,
      "All dialogues of 3 (thorough 4) of 13 commands over two key pairs and two passwords, with everything saved, signed and validated at the end; all bits and cuts of a file, its signature and its encryption; 265 passwords against each other; "
      "all ways to answer with nothing or different passwords; all ways for up to three (four) members to sign in; the input ending after every line.",
      [Seq("c41", ["harness/c41_signing_tool.cc"], CORE + src("rsa"), variant="plain")],
      assumptions=["two key pairs, made at the start of each run, stand for all", "names and passwords do not begin or end with blanks"])
Check("C42", "model_checking", HIST,
      "All sequences of identities of a family (two, thorough four, free digits), under five algorithms, four leeways, groups of 2 to 4, all majorities, one or two bad groups, with and without good nodes between the bad ones; "
      "all subsets of values left out of a file, in both places; every cut of a file; the file the tool writes itself.",
      [Seq("c42", ["harness/c42_address_space.cc"], CORE, variant="plain")],
      assumptions=["networks of at most four groups: in bigger ones the ranks count, which depend on how nodes are kept in order", "groups of at least two nodes, networks of at least a group"])
Check("C43", "model_checking", HIST,
      "Each case a process of its own: all command lines of up to three (thorough four) of 19 arguments; every setting from the command line, the file, both or neither.",
      [Seq("c43", ["harness/c43_options.cc"], CORE, variant="logsan")])
Check("C44", "model_checking", HIST + "; and " + STATELESS,
      "Each case a process of its own: all pairs of levels on three kinds of console (file, terminal, full device) for ten terminals, in all modes; all bytes and many sizes; all interleavings of two or three "
      "logging threads with the background writer, with two or three (thorough three or four) preemptions.",
      [Mc("c44mc", ["harness/c44_console_mc.cc"], CORE, variant="mclog", q=20),
       Seq("c44", ["harness/c44_console.cc"], CORE, variant="logsan")],
      assumptions=[SCHED])

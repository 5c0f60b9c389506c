"""Builds harnesses from /repo's working tree.  Objects are cached in /verif/.build, keyed by the
contents of everything they were built from (never by time stamps)."""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
SRC = "src/maidsafe/common/"

DEFS = """-DAPPLICATION_VERSION_MAJOR=0 -DAPPLICATION_VERSION_MINOR=0 -DAPPLICATION_VERSION_PATCH=0
-DTARGET_PLATFORM=Linux -DTARGET_ARCHITECTURE=x86_64 -DTESTING
-DASIO_HAS_MOVE -DBOOST_ASIO_HAS_MOVE -DASIO_HAS_STD_ARRAY -DBOOST_ASIO_HAS_STD_ARRAY
-DASIO_HAS_STD_ATOMIC -DBOOST_ASIO_HAS_STD_ATOMIC -DASIO_HAS_STD_SHARED_PTR
-DBOOST_ASIO_HAS_STD_SHARED_PTR -DASIO_HAS_STD_CHRONO -DBOOST_ASIO_HAS_STD_CHRONO
-DASIO_HAS_STD_SYSTEM_ERROR -DBOOST_ASIO_HAS_STD_SYSTEM_ERROR
-DASIO_HAS_VARIADIC_TEMPLATES -DBOOST_ASIO_HAS_VARIADIC_TEMPLATES
-DBOOST_FILESYSTEM_NO_DEPRECATED -DBOOST_FILESYSTEM_VERSION=3 -DBOOST_THREAD_VERSION=4
-DBOOST_RESULT_OF_USE_DECLTYPE -D_FILE_OFFSET_BITS=64 -DHAVE_PTHREAD -DMAIDSAFE_LINUX
-DASIO_STANDALONE -DCOMPANY_NAME=MaidSafe -DNDEBUG""".split()
COMMON = ["-std=c++17", "-w", "-g1", "-pthread", "-fPIC"]
# sanitizers that report memory errors and the undefined behaviour no correct program relies on
SAN = ["-fsanitize=address", "-fsanitize=bounds,null,return,integer-divide-by-zero,unreachable",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    "san": dict(cflags=["-O1", "-DUSE_LOGGING=0"] + SAN, ldflags=SAN),
    "plain": dict(cflags=["-O1", "-DUSE_LOGGING=0"], ldflags=[]),
    "fast": dict(cflags=["-O2", "-DUSE_LOGGING=0"], ldflags=[]),
    # instrumented for the scheduler in mc/ (which provides the __tsan_* entry points itself)
    "mc": dict(cflags=["-O1", "-DUSE_LOGGING=0", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                       "-fno-builtin-memcpy"], ldflags=[]),
    "logsan": dict(cflags=["-O1", "-DUSE_LOGGING=1"] + SAN, ldflags=SAN),
    "log": dict(cflags=["-O1", "-DUSE_LOGGING=1"], ldflags=[]),
    "mclog": dict(cflags=["-O1", "-DUSE_LOGGING=1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                          "-fno-builtin-memcpy"], ldflags=[]),
    "prof": dict(cflags=["-O1", "-DUSE_LOGGING=0", "-DUSE_PROFILING"], ldflags=[]),
}
INC = ["-I" + VERIF + "/shim", "-I" + VERIF, "-I" + REPO + "/include", "-I" + REPO + "/src"]
FORCED = ["-include", "memory", "-include", "cassert", "-include", "thread", "-include", "atomic"]
PER_FILE = {  # what the library's own super-project supplied to single files
    SRC + "utils.cc": ["-include", "asio/io_service.hpp"],
    SRC + "rsa.cc": ["-include", VERIF + "/shim/rsa_compat.h"],
}
LIBS = ["-lboost_thread", "-lboost_filesystem", "-lboost_program_options", "-lboost_regex",
        "-lboost_chrono", "-lboost_date_time", "-lboost_locale", "-lboost_system",
        "-lcryptopp", "-lsqlite3", "-lpthread", "-ldl", "-lrt"]

BASE = [SRC + f for f in """active.cc clock.cc config.cc crypto.cc encode.cc error.cc
error_categories.cc identity.cc log.cc utils.cc data_types/data.cc""".split()]
# library sources at the time of writing; any other .cc found in these folders is built as well
KNOWN_DIRS = ["", "authentication/", "authentication/detail/", "containers/", "data_types/", "hash/",
              "hash/algorithms/", "serialisation/", "serialisation/types/", "tcp/"]
KNOWN = set(SRC + f for f in """active.cc cli.cc clock.cc config.cc crypto.cc data_buffer.cc encode.cc
error.cc error_categories.cc identity.cc ipc.cc log.cc menu.cc menu_item.cc process.cc profiler.cc
rsa.cc sqlite3_wrapper.cc test.cc utils.cc visualiser_log.cc authentication/user_credential_utils.cc
authentication/detail/secure_string.cc data_types/data.cc data_types/immutable_data.cc
data_types/mutable_data.cc data_types/structured_data_versions.cc hash/algorithms/siphash.cc
tcp/connection.cc tcp/listener.cc""".split())


class BuildError(Exception):
    pass


_hash_cache, _lock = {}, threading.Lock()


def file_hash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "absent"
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    with _lock:
        if key in _hash_cache:
            return _hash_cache[key]
    h = hashlib.sha256(open(path, "rb").read()).hexdigest()
    with _lock:
        _hash_cache[key] = h
    return h


def new_sources():
    found = []
    for d in KNOWN_DIRS:
        full = os.path.join(REPO, SRC + d)
        if os.path.isdir(full):
            for f in sorted(os.listdir(full)):
                rel = SRC + d + f
                if f.endswith(".cc") and rel not in KNOWN:
                    found.append(rel)
    return found


def parse_deps(path):
    text = open(path).read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    return sorted(set(os.path.normpath(d) for d in deps
                      if d.startswith(REPO) or d.startswith(VERIF)))


def compile_one(src, variant, extra=(), cxx="g++"):
    """Returns (object path, compiled?)."""
    rel = src
    full = src if os.path.isabs(src) else os.path.join(REPO, src)
    cmd = ([cxx] + COMMON + VARIANTS[variant]["cflags"] + DEFS + INC + FORCED +
           PER_FILE.get(rel, []) + list(extra))
    if full.startswith(VERIF + "/mc/"):  # the scheduler itself: plain system headers
        cmd = [cxx] + COMMON + VARIANTS[variant]["cflags"] + ["-I" + VERIF]
    key = hashlib.sha256("\0".join([full] + cmd).encode()).hexdigest()[:20]
    base = os.path.join(OUT, variant, os.path.basename(full).replace(".cc", "") + "-" + key)
    obj, meta, dep = base + ".o", base + ".json", base + ".d"
    try:
        old = json.load(open(meta))
        if os.path.exists(obj) and all(file_hash(p) == h for p, h in old.items()):
            return obj, False
    except (OSError, ValueError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    run = lambda c: subprocess.run(c + ["-MD", "-MF", dep, "-c", full, "-o", tmp],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = run(cmd)
    if r.returncode != 0:  # the library itself is built as C++11/14
        r2 = run(["-std=c++14" if c == "-std=c++17" else c for c in cmd])
        if r2.returncode != 0:
            raise BuildError("cannot compile %s (%s):\n%s" % (rel, variant, r.stdout[-6000:]))
    json.dump({p: file_hash(p) for p in parse_deps(dep)}, open(meta, "w"))
    os.rename(tmp, obj)
    os.unlink(dep)
    return obj, True


def build(name, harness, sources, variant, extra_objs=(), libs=(), cflags=(), ldflags=(), jobs=8):
    """Builds one harness executable; returns its path.  `harness`: files under /verif; `sources`:
    files of /repo; `extra_objs`: (file under /verif, variant) compiled as they are."""
    work = [(os.path.join(VERIF, h), variant, cflags, True) for h in harness]
    work += [(s, variant, (), True) for s in sources]
    work += [(os.path.join(VERIF, f), v, (), True) for f, v in extra_objs]
    work += [(s, variant, (), False) for s in new_sources()]
    objs, errors = {}, []

    def one(item):
        try:
            return item, compile_one(item[0], item[1], item[2])[0]
        except BuildError as e:
            return item, e
    with cf.ThreadPoolExecutor(jobs) as ex:
        for item, res in ex.map(one, work):
            if isinstance(res, BuildError):
                if item[3]:
                    errors.append(res)
            else:
                objs[item[0]] = res
    if errors:
        raise errors[0]
    own = [objs[w[0]] for w in work if not w[0].startswith("src/")]
    lib = [objs[w[0]] for w in work if w[0].startswith("src/") and w[0] in objs]
    link = (["g++"] + VARIANTS[variant]["ldflags"] + ["-pthread"] + own + ["-Wl,--start-group"] + lib +
            ["-Wl,--end-group"] + list(ldflags) + list(libs) + LIBS)
    stamp = hashlib.sha256(("\0".join(link) + "".join(file_hash(o) for o in own + lib)).encode())
    exe = os.path.join(OUT, "bin", name)
    stamp_file = exe + ".stamp"
    if (os.path.exists(exe) and os.path.exists(stamp_file) and
            open(stamp_file).read() == stamp.hexdigest()):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    # archive semantics for the library: only what is needed is linked
    ar = exe + ".a"
    if os.path.exists(ar):
        os.unlink(ar)
    if lib:
        subprocess.run(["ar", "rcs", ar] + lib, check=True)
    link = (["g++"] + VARIANTS[variant]["ldflags"] + ["-pthread"] + own + ([ar] if lib else []) +
            list(ldflags) + list(libs) + LIBS + ["-o", exe + ".tmp"])
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("cannot link %s:\n%s" % (name, r.stdout[-6000:]))
    os.rename(exe + ".tmp", exe)
    if os.path.exists(ar):
        os.unlink(ar)
    open(stamp_file, "w").write(stamp.hexdigest())
    return exe

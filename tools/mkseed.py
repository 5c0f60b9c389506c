#!/usr/bin/env python3
"""Makes or re-checks a planted bug:  mkseed.py make SPEC.py | check ID... | demo ID
A SPEC.py defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text or None), sources, flags,
libs, script (bash text used instead of the standard demo.sh).  The patch is applied to /repo only while it is checked."""
import json, os, shutil, subprocess, sys, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
sys.path.insert(0, V + "/lib")
import vbuild

TEMPLATE = r'''#!/bin/bash
# Exit 0: the property holds in the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -r -- "$work"' EXIT
flags=(-std=c++17 -w -O1 -g1 -pthread -fPIC -DUSE_LOGGING=@LOG@ @DEFS@ -include memory -include cassert -include thread -include atomic
  -I"$here" -I"$here/shim" -I"$repo/include" -I"$repo/src" @FLAGS@)
cd "$work" || exit 2
n=0
build() {  # source, more flags...
  local s="$1"; shift
  g++ "${flags[@]}" "$@" -c "$s" -o "$work/$n.o" || touch "$work/failed"
}
build "$here/demo.cc" & n=1
for s in @SOURCES@; do
  more=()
  [ "$s" = utils ] && more=(-include asio/io_service.hpp)
  [ "$s" = rsa ] && more=(-include "$here/shim/rsa_compat.h")
  build "$repo/src/maidsafe/common/$s.cc" "${more[@]}" & n=$((n + 1))
  while [ "$(jobs -rp | wc -l)" -ge 8 ]; do wait -n; done
done
wait
[ -e "$work/failed" ] && { echo "does not compile"; exit 2; }
g++ -pthread @FLAGS@ *.o -o demo @LIBS@ || exit 2
mkdir scratch && cd scratch && timeout @LIMIT@ ../demo
status=$?
echo "demo: exit $status"
exit $status
'''
LIBS = " ".join(vbuild.LIBS)
CORE = "active clock config crypto encode error error_categories identity log utils data_types/data".split()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"


def make(spec_file):
    spec = {"CORE": CORE}
    exec(open(spec_file).read(), spec)
    d = os.path.join(V, "seeded", spec["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    clean()
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    if spec.get("demo"):
        open(d + "/demo.cc", "w").write(spec["demo"])
    script = spec.get("script") or TEMPLATE
    for k, v in dict(DEFS=" ".join("'%s'" % x for x in vbuild.DEFS), SOURCES=" ".join(spec.get("sources", CORE)),
                     FLAGS=spec.get("flags", ""), LIBS=LIBS, LIMIT=str(spec.get("limit", 100)), LOG=str(spec.get("log", 0))).items():
        script = script.replace("@%s@" % k, v)
    open(d + "/demo.sh", "w").write(script)
    os.chmod(d + "/demo.sh", 0o755)
    if any(s in " ".join(spec.get("sources", CORE)) for s in ("rsa", "data_types", "identity", "utils", "tcp")) or spec.get("shim"):
        shutil.copytree(V + "/shim", d + "/shim")
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    check(spec["id"])


def check(i):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean()
    good = sh("bash %s/demo.sh" % d, cwd=R)
    if good.returncode:
        print(i, "DEMO FAILS ON THE UNCHANGED TREE", good.stdout[-1500:])
        return
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        assert a.returncode == 0, a.stdout
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
        passed = set(json.load(open("/tmp/seed_t.json"))["passed"])
        bad = sh("bash %s/demo.sh" % d, cwd=R)
        c = sh("%s/bin/check %s" % (V, prop))
        caught = c.returncode == 1 and ("VIOLATION property=" + prop) in c.stdout
        print(i, prop, "build", b.returncode, "tests", len(passed), "demo", bad.returncode, "CAUGHT" if caught else "MISSED (%d)" % c.returncode)
        print("   demo:", bad.stdout.strip()[-300:].replace("\n", " | "))
        print("   check:", " | ".join(c.stdout.strip().split("\n")[:3])[:500])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")


if sys.argv[1] == "make":
    for f in sys.argv[2:]:
        make(f)
elif sys.argv[1] == "check":
    for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
        check(i)

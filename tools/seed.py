#!/usr/bin/env python3
"""Makes and re-confirms planted bugs.

  seed.py make SPEC.py     SPEC defines id, prop, needs, breaks, edits [(file, old, new)...], demo (C++ source),
                           or demo_sh and files {name: text} of its own
  seed.py confirm ID...    demo passes on /repo's HEAD, fails with the patch, patched tree builds and its tests pass
  seed.py catch ID...      run the property's quick check against a patched scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
DEMO_SH = r'''#!/bin/bash
# Builds the library from the current directory's sources with a stand-in for camp and runs demo.cpp.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/inc/umpire" "$w/o"
sed -E -e 's/#cmakedefine (UMPIRE_ENABLE_(LOGGING|FILE_RESOURCE|IPC_SHARED_MEMORY)@EXTRA@)( .*)?$/#define \1/' \
    -e 's/#cmakedefine ([A-Za-z_0-9]+).*/\/* no \1 *\//' -e 's/@Umpire_VERSION_[A-Z]+@/0/' -e 's/@[A-Za-z_0-9]+@//' \
    "$root/src/umpire/config.hpp.in" > "$w/inc/umpire/config.hpp"
inc="-I$here/camp -I$w/inc -I$root/src -I$root/src/tpl -I$root/src/umpire/interface/c_fortran"
find "$root/src/umpire" -name '*.cpp' | grep -vE 'Cuda|Hip|Sycl|OpenMPTarget|Numa|/numa|Device|device_allocator|sqlite|/python/' > "$w/srcs"
echo "$here/demo.cpp" >> "$w/srcs"
export w inc
xargs -P 8 -I{} bash -c 's={}; g++ -std=c++14 -O1 -g -w @FLAGS@ $inc -c "$s" -o "$w/o/$(echo "$s" | md5sum | cut -c1-16).o" || exit 255' < "$w/srcs" > "$w/log" 2>&1 || { tail -5 "$w/log"; exit 90; }
gcc -O1 -w -I"$root/src/tpl" -c "$root/src/tpl/umpire/judy/judy.c" -o "$w/o/judy.o" || exit 90
g++ -g @FLAGS@ "$w"/o/*.o -lfmt -ldl -lpthread -lrt -o "$w/demo" || exit 90
cd "$w" && export TMPDIR="$w"
timeout 200 "$w/demo" > "$w/out" 2>&1
rc=$?
tail -3 "$w/out"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seedtree-", dir="/tmp")
    sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % (d, d))
    return d


def tests(d):
    r = sh("cmake -S /opt/vp/umpire -B {0}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DUMPIRE_ROOT={0} && ninja -C {0}/_build && "
           "ctest --test-dir {0}/_build -j8 --timeout 300".format(d), env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
    return r.returncode == 0, r.stdout[-1500:]


def demo(d, sid):
    t = tempfile.mkdtemp(prefix="seeddemo-", dir="/tmp")
    try:
        sh("cp -r %s/. %s && rm -f %s/*.diff %s/meta.json" % (os.path.join(SEED, sid), t, t, t))
        r = sh("bash %s/demo.sh" % t, cwd=d)
        return r.returncode, r.stdout[-600:]
    finally:
        shutil.rmtree(t)


def confirm(sid):
    d = copy()
    try:
        rc0, o0 = demo(d, sid)
        a = sh("git apply %s" % os.path.join(SEED, sid, "patch.diff"), cwd=d)
        ok, out = tests(d)
        rc1, o1 = demo(d, sid)
        good = rc0 == 0 and a.returncode == 0 and ok and rc1 not in (0, 90)
        print("%s %s: clean demo %d, apply %d, tests %s, patched demo %d %s" % ("OK  " if good else "BAD ", sid, rc0, a.returncode, ok, rc1, o1.strip()[-150:].replace("\n", " | ")))
        if not good:
            print(o0[-500:], a.stdout[-500:], "" if ok else out)
        return good
    finally:
        shutil.rmtree(d)


def catch(sid, props=None, tier="quick"):
    d = copy()
    try:
        a = sh("git apply %s" % os.path.join(SEED, sid, "patch.diff"), cwd=d)
        if a.returncode:
            print("BAD  %s does not apply: %s" % (sid, a.stdout[-400:]))
            return
        for prop in props or [json.load(open(os.path.join(SEED, sid, "meta.json")))["property"]]:
            r = sh("python3 check.py %s --tier %s" % (prop, tier), cwd=V, env=dict(os.environ, VERIF_REPO=d))
            lines = [l for l in r.stdout.splitlines() if l.startswith(("violated", "VIOLATION", "no answer")) or " held" in l]
            print("%s %s by %s rc=%d: %s" % ("CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED", sid, prop, r.returncode, " ".join(lines)[:160]))
    finally:
        shutil.rmtree(d)


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = copy()
    try:
        for f, old, new in g["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        o = os.path.join(SEED, g["id"])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(sh("git diff", cwd=d).stdout)
    finally:
        shutil.rmtree(d)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    for name, text in g.get("files", {"demo.cpp": g.get("demo")}).items():
        open(os.path.join(o, name), "w").write(text)
    open(os.path.join(o, "demo.sh"), "w").write(g.get("demo_sh", DEMO_SH).replace("@FLAGS@", g.get("flags", "")).replace("@EXTRA@", ""))
    shutil.copytree(os.path.join(V, "camp"), os.path.join(o, "camp"), dirs_exist_ok=True)
    return g["id"]


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for a in args:
            i = make(a)
            if confirm(i):
                catch(i)
    elif cmd == "confirm":
        for a in args or sorted(os.listdir(SEED)):
            confirm(a)
    else:
        for a in args or sorted(os.listdir(SEED)):
            catch(a)

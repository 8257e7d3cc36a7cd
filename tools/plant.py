"""Creates seeded/<id>/ from a planted change: plant(id, property, file, [(old, new)...], needs, breaks, demo, data=bool).

Confirms that the demo passes on /repo and fails with the change, that only
lines of the original repository are changed, and shows what the check says."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIG = "be22a22"
DEMO_SH = """#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d /tmp/fisx-demo-XXXXXX)" || exit 3
trap 'find "$tmp" -delete' EXIT
ls "$repo"/src/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++11 -O0 -w -I "$0"/src -c {} -o "$1"/$(basename {}).o' "$repo" "$tmp" || exit 3
g++ -std=c++11 -O0 -w -pthread -I "$repo"/src "$here"/demo.cpp "$tmp"/*.o -o "$tmp"/demo || exit 3
%scd "$tmp" && timeout 250 ./demo%s
"""
DEMO_PY = """#!/bin/bash
# Builds the Python binding from the sources in the current directory and runs the demonstration with it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d /tmp/fisx-demo-XXXXXX)" || exit 3
trap 'find "$tmp" -delete' EXIT
py=/opt/fisx/venv/bin/python
mkdir "$tmp"/r && tar -C "$repo" --exclude=./_build --exclude=./.git --exclude=./python/cython/_fisx.pyx --exclude=./python/cython/_fisx.cpp -cf - . | tar -C "$tmp"/r -xf - || exit 3
cd "$tmp"/r || exit 3
unset LC_CTYPE LC_MESSAGES FISX_DATA_DIR FISX_DOC_DIR WITH_CYTHON PYTHONPATH
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 CFLAGS="-O0 -w"
$py setup.py build --build-base b --build-lib b/lib --build-temp b/temp > "$tmp"/log 2>&1 || { tail -5 "$tmp"/log; exit 3; }
FISX_REPO="$repo" python3 "$here"/gendata.py "$tmp"/data || exit 3
cd "$tmp" && PYTHONPATH="$tmp"/r/b/lib timeout 200 $py "$here"/demo.py
"""
HEAD = """#include <iostream>
#include <cmath>
#include <cstdlib>
#include <stdexcept>
#include <fstream>
#include <sstream>
#include <algorithm>
#include "fisx_elements.h"
#include "fisx_xrf.h"
#include "fisx_math.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
using namespace fisx;
static int bad = 0;
static void check(bool ok, const std::string &what) { if (!ok) { std::cout << "FAILED: " << what << std::endl; bad = 1; } }
static bool near(double a, double b, double rel = 1e-9) { return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b)) / 2 + 1e-300; }
"""


def plant(pid, prop, file, edits, needs, breaks, demo, data=False, check=True, flags="-O0", py=False):
    d = os.path.join(V, "seeded", pid)
    tmp = tempfile.mkdtemp(prefix="fisxplant-")
    try:
        wt = os.path.join(tmp, "repo")
        shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns("_build"))
        if isinstance(file, str):
            edits = {file: edits}
        else:
            edits = dict(zip(file, edits))
        for f, es in edits.items():
            p = os.path.join(wt, f)
            s = open(p).read()
            for old, new in es:
                if s.count(old) != 1:
                    print(pid, "pattern found", s.count(old), "times:", old)
                    return False
                s = s.replace(old, new)
            open(p, "w").write(s)
        patch = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE).stdout
        if not patch:
            print(pid, "empty patch")
            return False
        # removed lines have to be original ones
        for f in edits:
            fixed = set()
            out = subprocess.run(["git", "blame", "-s", ORIG + "..HEAD", f], cwd="/repo", stdout=subprocess.PIPE).stdout.decode(errors="replace").splitlines()
            for n, l in enumerate(out, 1):
                if not l.startswith("^"):
                    fixed.add(n)
            n = 0
            hit = []
            for l in subprocess.run(["git", "diff", "-U0", f], cwd=wt, stdout=subprocess.PIPE).stdout.decode(errors="replace").splitlines():
                if l.startswith("@@"):
                    n = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if n in fixed:
                        hit.append(n)
                    n += 1
            if hit:
                print(pid, "WARNING touches lines added by fixes:", hit)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(patch)
        open(os.path.join(d, "demo.py" if py else "demo.cpp"), "w").write(demo if py else HEAD + demo)
        pre = ""
        if data or py:
            shutil.copy(os.path.join(V, "lib", "gendata.py"), d)
            pre = 'FISX_REPO="$repo" PYTHONDONTWRITEBYTECODE=1 python3 "$here"/gendata.py "$tmp"/data || exit 3\n'
        sh = os.path.join(d, "demo.sh")
        open(sh, "w").write(DEMO_PY if py else (DEMO_SH % (pre, " data" if data else "")).replace("-O0", flags))
        os.chmod(sh, 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", sh], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(["bash", sh], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        good = a.returncode == 0 and b.returncode not in (0, 3)
        print(pid, "demo: unchanged", a.returncode, "changed", b.returncode, b.stdout.decode(errors="replace").strip()[:300].replace("\n", " | "))
        if not good:
            print(a.stdout.decode(errors="replace")[-2000:], b.stdout.decode(errors="replace")[-1500:])
            return False
        if check:
            m = json.load(open(os.path.join(V, "MANIFEST.json")))
            cmds = [c["quick_cmd"] for c in m["checks"] if c["property"] == prop]
            if not cmds:
                print(pid, "no check yet for", prop)
                return True
            r = subprocess.run(cmds[0], shell=True, cwd=V, env=dict(os.environ, FISX_REPO=wt, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace").strip()
            print(pid, prop, "CAUGHT" if r.returncode == 1 else "MISSED (%d)" % r.returncode, "|", o.splitlines()[0][:300] if o else "")
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

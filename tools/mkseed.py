#!/usr/bin/env python3
"""mkseed.py SPEC.py...: write /verif/seeded/<id>/ from a spec that calls seed(id, prop, needs, breaks, edits, demo).
edits: [(file under /repo/stingraykit, old text, new text)]; demo: body of a C++ program using CHECK(condition)."""
import os, sys, json, subprocess, difflib, re
REPO = "/repo"
SH = '''#!/bin/bash
# exit 0 when the behaviour is right; builds and runs demo.cpp against /repo in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
F="-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 -DHAVE_POSIX_THREADS=1 -DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 -DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Error -DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1"
g++ $F -std=gnu++14 -pthread -g -fno-strict-aliasing @CFLAGS@ -w -I/repo "$here/demo.cpp" -o "$d/demo" /repo/_build/lib/libstingraykit.a -Wl,--start-group -licuuc -licui18n -licudata -Wl,--end-group -lpthread -lrt || exit 2
cd "$d" && timeout @TIME@ ./demo
'''
HEAD = '''#include <atomic>
#include <chrono>
#include <thread>
#include <ctime>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("FAILED line %d: %s\\n", __LINE__, #__VA_ARGS__); std::_Exit(1); } } while (0)
'''
def seed(id, prop, needs, breaks, edits, demo, includes="", time=60, cflags=""):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        p = "stingraykit/" + f
        s = files.setdefault(p, [open(f"{REPO}/{p}").read(), None])
        cur = s[1] if s[1] is not None else s[0]
        n = cur.count(old)
        assert n == 1, f"{id}: {f}: {n} matches of {old!r}"
        s[1] = cur.replace(old, new)
    diff = ""
    for p, (a, b) in files.items():
        diff += f"diff --git a/{p} b/{p}\n" + "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
    open(d + "/patch.diff", "w").write(diff)
    r = subprocess.run(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    assert r.returncode == 0, (id, r.stderr)
    inc = "".join(f"#include <stingraykit/{x}>\n" for x in includes.split())
    body = demo if "int main(" in demo else "int main()\n{\n" + demo.strip("\n") + "\n\treturn 0;\n}\n"
    open(d + "/demo.cpp", "w").write(HEAD + inc + "using namespace stingray;\n" + body)
    open(d + "/demo.sh", "w").write(SH.replace("@TIME@", str(time)).replace("@CFLAGS@", cflags))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, "exec"))

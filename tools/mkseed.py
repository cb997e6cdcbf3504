#!/usr/bin/env python3
"""mkseed.py SPEC.py  - author planted bugs.  A spec is python text with
   seeds = [dict(id=, prop=, edits=[(file, old, new)], srcs=[...], demo=C++ text, needs=, breaks=)]
Writes seeded/<id>/, then validates in /repo: patch applies, builds, stable tests
pass, demo fails with / passes without, and runs the property's check."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SYM_REPO", "/repo")   # a scratch copy: build and stable tests are then left to vcheck
SH = r'''#!/bin/bash
# run with cwd at the repository root: exit 0 iff the behaviour is right
set -e
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir "$T/inc"; cp libhelfem/include/*.h "$T/inc/"; cp libhelfemqc/include/*.h "$T/inc/" 2>/dev/null || true
sed 's/${LIBHELFEM_VERSION}/demo/' libhelfem/include/helfem.source.h > "$T/inc/helfem.h"
g++-14 -std=gnu++23 -O1 -w -I"$D" -I"$T/inc" -Ilibhelfem/src -Isrc -Isrc/general -isystem /usr/include/eigen3 "$D/demo.cpp" %s -o "$T/demo" %s
cd "$T"; timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["seeds"]:
        if only and s["id"] not in only:
            continue
        assert not sh("git -C %s status --porcelain -uno" % R).stdout, "dirty " + R
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, old, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run("git -C %s diff" % R, shell=True, stdout=subprocess.PIPE).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(SH % (" ".join(s["srcs"]), s.get("libs", "")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for n, t in s.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            if R == "/repo":
                b = sh("bash /opt/vp/build.sh")
                sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                res = json.load(open("/tmp/seedtest.json"))
            else:
                b, res = sh("true"), dict(failed=[])
            demo1 = sh("bash %s/demo.sh" % d, cwd=R)
            chk = sh("python3-vt check.py %s --tier quick" % s["prop"], cwd=V)
        finally:
            sh("git -C %s checkout -- ." % R)
        demo0 = sh("bash %s/demo.sh" % d, cwd=R)
        caught = chk.returncode == 1 and b"VIOLATION property=%s" % s["prop"].encode() in chk.stdout
        ok = b.returncode == 0 and not res["failed"] and demo1.returncode != 0 and demo0.returncode == 0
        print("%-14s %s build=%d failed=%d demo(bug)=%d demo(clean)=%d  %s" % (s["id"], s["prop"], b.returncode, len(res["failed"]), demo1.returncode, demo0.returncode, "CAUGHT" if caught else "MISSED rc=%d" % chk.returncode))
        if not ok:
            print("  INVALID", b.stdout[-500:] if b.returncode else "", demo1.stdout[-300:], demo0.stdout[-800:])
        elif not caught:
            print(chk.stdout.decode()[-600:])
        elif "-v" in os.environ.get("SEEDV", ""):
            print(chk.stdout.decode()[-600:])
    if R == "/repo":
        sh("bash /opt/vp/build.sh")


main()

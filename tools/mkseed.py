#!/usr/bin/env python3
"""Make and validate planted changes.  Usage: mkseed.py SPEC.py [ids...]; the spec calls seed(...).
Works in /tmp/seedwt, a copy of /repo laid over /repo in a private mount namespace."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
SH = """#!/bin/bash
# exit 0: behaves as promised; nonzero: does not.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export HUIRA_LOG_DIR=$t HOME=$t SCRATCH=$t
g++ -std=c++20 -w -O1 %(flags)s -I"$here" -Iinclude -Ithird_party -Iapps "$here/demo.cpp" -o "$t/demo" %(libs)s || exit 2
cd "$t" && timeout 200 ./demo
"""
PRE = "#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n"
HEAD = """#define REQUIRE(c) do { if (!(c)) { std::printf("FAILED: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def inns(c): return sh(f"unshare -Urm bash -c 'mount --bind {WT} /repo && cd /repo && {c}'")
want = sys.argv[2:]
BASE = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
def seed(id, prop, edits, needs, breaks, demo, libs="", flags="", extra=()):
    if want and id not in want: return
    if isinstance(edits, tuple): edits = [edits]
    sh(f"rsync -a --delete --exclude _build /repo/ {WT}/ && git -C {WT} checkout -q -- ." if shutil.which("rsync") else f"cd {WT} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .")
    for f, old, new in edits:
        p = f"{WT}/{f}"; s = open(p).read()
        if s.count(old) != 1: print(f"{id}: anchor occurs {s.count(old)} times in {f}"); return
        open(p, "w").write(s.replace(old, new))
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    patch = sh(f"git -C {WT} diff").stdout; open(f"{d}/patch.diff", "w").write(patch)
    # changed lines must be original ones
    for f, _, _ in edits:
        orig = sh(f"git -C /repo show 5e79997:{f}").stdout.splitlines()
        rem = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        miss = [l for l in rem if l not in orig]
        if f in patch and miss and len(edits) == 1: print(f"{id}: NOT ORIGINAL LINES: {miss}"); return
    open(f"{d}/demo.cpp", "w").write(PRE + HEAD + demo); open(f"{d}/demo.sh", "w").write(SH % dict(flags=flags, libs=libs)); os.chmod(f"{d}/demo.sh", 0o755)
    for name, src in extra: (shutil.copytree(src, f"{d}/{name}", dirs_exist_ok=True) if os.path.isdir(src) else shutil.copy(src, f"{d}/{name}"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    r = inns("bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/so.json 2>&1 | grep passed, | tail -1")
    res = r.stdout.strip() or "BUILD FAILED"
    bad = inns(f"{d}/demo.sh")
    good = sh(f"cd /repo && {d}/demo.sh")
    ok = res.startswith("68 passed, 0") and good.returncode == 0 and bad.returncode not in (0, 2)
    print(f"{id} [{prop}] tests: {res}; demo clean={good.returncode} patched={bad.returncode} {'OK' if ok else 'REJECT'}")
    if not ok: print(good.stdout[-1500:], "\n--\n", bad.stdout[-1500:])
    else:
        c = sh(f"python3 {V}/vrun.py {prop} --tier quick --repo {WT}")
        print("   check:", "CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else f"MISSED rc={c.returncode}", c.stdout.strip().splitlines()[-1:] )
        sys.stdout.flush()
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))

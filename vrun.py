#!/usr/bin/env python3
"""Runs the check of one property: builds its monitors against /repo's working tree, runs them,
judges what they observed, writes evidence/<id>.json.

  vrun.py Cnn [--tier quick|thorough] [--repo DIR] [--keep]

exit 0: held on everything observed (KNOWN-FINDING lines possible); exit 1: VIOLATION line printed;
exit 2: the check itself failed (build error, harness error, nothing observed)."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from units import UNITS, RULES, LEVEL_NOTES  # noqa: E402

LIBS = {
    "embree": ["-lembree4"], "assimp": ["-lassimp"], "fits": ["-lcfitsio"], "fft": ["-lfftw3f"],
    "jpeg": ["-lturbojpeg", "-ljpeg"], "png": ["-lpng"], "tbb": ["-ltbb"], "tiff": ["-ltiff"], "z": ["-lz"],
}
SAN = {
    "asan": ["clang++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asan-O0": ["clang++", "-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "ubsan": ["clang++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "ubsan-O0": ["clang++", "-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["clang++", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["clang++", "-O2", "-g1"],
    "gcc": ["g++", "-O0", "-g1"],
}

def sha_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        for d, _, fs in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode()); h.update(b"\0")
                with open(q, "rb") as fh: h.update(fh.read())
    return h.hexdigest()

def build(unit, repo, bdir, treehash):
    srcs = [os.path.join(VERIF, "harness", s) for s in unit["src"]]
    cmd = list(SAN[unit["san"]]) + ["-std=c++20", "-w", "-I" + os.path.join(repo, "include"), "-I" + os.path.join(VERIF, "cspice"),
           "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(repo, "third_party"), "-I" + os.path.join(repo, "third_party", "tclap"), "-I" + os.path.join(repo, "apps"),
           '-DHUIRA_DEFAULT_DATA_DIR="%s/data"' % repo, '-DHUIRA_VERSION="0"', "-DHUIRA_VERIF_MONITOR=1", '-DVH_REPO="%s"' % repo]
    cmd += unit.get("flags", [])
    link = [x for l in unit.get("libs", []) for x in LIBS[l]] + ["-lpthread"]
    key = hashlib.sha256((treehash + sha_tree(srcs) + json.dumps(cmd + link + unit["src"])).encode()).hexdigest()[:24]
    exe = os.path.join(bdir, unit["name"] + "-" + key)
    if os.path.exists(exe):
        return exe, None
    tmpd = tempfile.mkdtemp(dir=bdir)
    try:
        objs = [os.path.join(tmpd, "%d.o" % i) for i in range(len(srcs))]
        def one(i):
            return subprocess.run(cmd + ["-c", srcs[i], "-o", objs[i]], capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, range(len(srcs))):
                if r.returncode: return None, r.stderr
        r = subprocess.run([cmd[0]] + [c for c in cmd if c.startswith("-fsanitize")] + ["-g1"] + objs + ["-o", exe + ".tmp"] + link, capture_output=True, text=True)
        if r.returncode: return None, "LINK: " + r.stderr
        os.rename(exe + ".tmp", exe)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    return exe, None

def norm_fn(f):
    f = re.sub(r"<.*>", "", f); f = re.sub(r"\(.*", "", f)
    return f.strip().split("::")[-1] if f else "?"

def crash_key(err, repo):
    """A stable key for a sanitizer report or fatal signal: kind and innermost library function."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m: kind = "asan:" + m.group(2)
    m2 = re.search(r"([^\s:]+):\d+:\d+: runtime error: (.*)", err)
    if m2 and (not m or err.find(m2.group(0)) < err.find(m.group(0))):
        kind = "ubsan:" + re.sub(r"-?[\d.]+(e[+-]?\d+)?|0x[0-9a-f]+|'[^']*'|inf|nan", "#", m2.group(2))[:60].strip()
    if "WARNING: ThreadSanitizer" in err:
        m3 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err); kind = "tsan:" + m3.group(1).strip()
    if kind is None: kind = "crash"
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/[^\s:]+):\d+", err) if "ThreadSanitizer" not in err else re.findall(r"#\d+ (.+?) (/[^\s:]+):\d+", err)
    inc = os.path.join(os.path.realpath(repo), "include")
    fn = next((norm_fn(f) for f, p in frames if os.path.realpath(p).startswith(inc)), None)
    if fn is None and frames: fn = norm_fn(frames[0][0])
    return kind + ":" + (fn or "?")

def run_unit(unit, exe, tier, seed, rdir, repo):
    sd = tempfile.mkdtemp(prefix="vh-", dir=rdir)
    env = dict(os.environ)
    for k in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"): env.pop(k, None)
    out, cur = os.path.join(sd, "out.json"), os.path.join(sd, "cur")
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VH_OUT=out, VH_CUR=cur, VH_SCRATCH=sd, HUIRA_LOG_DIR=sd, LC_ALL="C",
        ASAN_OPTIONS="abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:handle_segv=2:handle_abort=2:handle_sigfpe=2:handle_sigbus=2:handle_sigill=2:detect_stack_use_after_return=0:symbolize=1",
        UBSAN_OPTIONS="print_stacktrace=1:symbolize=1",
        TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0:handle_segv=2:handle_abort=2:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(VERIF, "tools", "tsan.supp"))
    env.update(unit.get("env", {}))
    timeout = unit.get("timeout", 400 if tier == "quick" else 2400)
    errp = os.path.join(sd, "err.txt")
    t0 = time.time()
    try:
        with open(errp, "wb") as ef, open(os.path.join(sd, "stdout.txt"), "wb") as of:
            r = subprocess.run([exe] + unit.get("args", []), cwd=sd, env=env, stdout=of, stderr=ef, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    with open(errp, "rb") as f: err = f.read(4 << 20).decode("utf-8", "replace")
    res = None
    if os.path.exists(out):
        try: res = json.load(open(out))
        except ValueError: res = None
    case, binp = "", None
    if os.path.exists(cur):
        b = open(cur, "rb").read()
        case = b[:4096].split(b"\0")[0].decode("utf-8", "replace")
        ln = int.from_bytes(b[4096:4104], "little")
        binp = b[4104:4104 + ln]
    shutil.rmtree(sd, ignore_errors=True)
    return dict(unit=unit["name"], rc=rc, err=err, res=res, case=case, bin=binp, wall=time.time() - t0)

def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop: known[m.group(2)] = m.group(3).strip()
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=None)
    ap.add_argument("--repo", default="/repo"); ap.add_argument("--unit", default=None)
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    repo = os.path.realpath(a.repo)
    t0 = time.time()
    bdir = os.path.join(VERIF, "build"); os.makedirs(bdir, exist_ok=True)
    edir = os.path.join(VERIF, "evidence"); os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    rdir = tempfile.mkdtemp(prefix="run-" + prop + "-", dir=bdir)
    units = [u for u in UNITS[prop] if tier in u.get("tiers", ("quick", "thorough")) and (not a.unit or u["name"] == a.unit)]
    treehash = sha_tree([os.path.join(repo, "include"), os.path.join(repo, "third_party"), os.path.join(repo, "apps"), os.path.join(VERIF, "cspice"), os.path.join(VERIF, "harness", "tbbdouble")] + sorted(os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".hpp")))
    with ThreadPoolExecutor(4) as ex:
        built = list(ex.map(lambda u: build(u, repo, bdir, treehash), units))
    # drop stale binaries
    for f in os.listdir(bdir):
        q = os.path.join(bdir, f)
        if os.path.isfile(q) and time.time() - os.path.getmtime(q) > 6 * 3600: os.unlink(q)
    errors, viol = [], []
    evals = dist = 0
    counters, samples, walls = {}, [], {}
    runs = []
    for u, (exe, e) in zip(units, built):
        if exe is None:
            if u.get("build_is_observation") and e.startswith("LINK:"):
                viol.append(("%s:does-not-build" % u["name"], e[-1500:], "", None)); evals += 1; continue
            errors.append("build of %s failed:\n%s" % (u["name"], e[:3000])); continue
        for rep in range(u.get("repeat", {}).get(tier, 1)):
            runs.append((u, exe, seed + 1000003 * rep))
    par = 1 if any(u.get("alone") for u in units) else 6
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(lambda t: (t[0], t[1], t[2], run_unit(t[0], t[1], tier, t[2], rdir, repo)), runs))
    for u, exe, sd, r in results:
        if r["rc"] == 97 or r["rc"] == "timeout":
            r2 = run_unit(u, exe, tier, sd, rdir, repo)  # re-run once before reporting a hang
            if r2["rc"] == 97: viol.append(("hang:" + u["name"], "case exceeded its CPU budget twice: " + r2["case"], r2["case"], r2["bin"])); r = r2
            elif r2["rc"] == "timeout": errors.append("unit %s timed out (inconclusive)" % u["name"]); continue
            else: r = r2
        walls[u["name"]] = round(walls.get(u["name"], 0) + r["wall"], 1)
        before = len(viol)
        if "WARNING: ThreadSanitizer" in r["err"]:
            for block in re.split(r"(?m)^=+\n", r["err"]):
                if "WARNING: ThreadSanitizer" in block:
                    viol.append((crash_key(block, repo), block[:3000], r["case"], None))
        elif r["rc"] not in (0, 97):
            san = re.search(r"ERROR: \w+Sanitizer", r["err"]) or "runtime error:" in r["err"]
            if san or (isinstance(r["rc"], int) and (r["rc"] < 0 or r["rc"] in (134, 139))):
                if r["rc"] == -9: errors.append("unit %s was killed (memory?)" % u["name"]); continue
                viol.append((crash_key(r["err"], repo), r["err"][:4000], r["case"], r["bin"]))
            else:
                errors.append("unit %s exited %s: %s" % (u["name"], r["rc"], r["err"][-1500:])); continue
        if r["res"] is None:
            if len(viol) == before: errors.append("unit %s exited %s and wrote no result: %s" % (u["name"], r["rc"], r["err"][-500:]))
            continue
        evals += r["res"]["evaluations"]; dist += r["res"]["distinct"]
        for k, v in r["res"]["counters"].items(): counters[k] = counters.get(k, 0) + v
        samples += r["res"]["samples"]
        for v in r["res"]["violations"]: viol.append((v["key"], "%s (x%d)" % (v["detail"], v["count"]), r["case"], None))
        need = u.get("min_evals", 1)
        if r["res"]["evaluations"] < need: errors.append("unit %s observed %d evaluations, fewer than %d" % (u["name"], r["res"]["evaluations"], need))
    shutil.rmtree(rdir, ignore_errors=True)
    known = load_known(prop)
    new, seen = {}, {}
    for k, d, c, b in viol:
        (seen if k in known else new).setdefault(k, (d, c, b))
    for k, txt in known.items():
        if k in seen: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, txt, k))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=dist, rule=RULES.get(prop, ""), samples=(samples[:16] or ["(none)"]), observed=counters, unit_wall_s=walls),
              assumptions=[LEVEL_NOTES.get(prop, "")], wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(os.path.join(edir, prop + ".json"), "w"), indent=1)
    if new:
        for k, (d, c, b) in sorted(new.items()):
            name = re.sub(r"[^\w.-]+", "_", k)[:80]
            rp = os.path.join(edir, "replay", "%s-%s.json" % (prop, name))
            rec = dict(property=prop, key=k, detail=d, case=c, seed=seed, tier=tier, replay="VERIF_SEED=%d python3 vrun.py %s --tier %s" % (seed, prop, tier))
            if b: rec["input_hex"] = b[:65536].hex()
            json.dump(rec, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  key=%s\n  %s\n  case: %s" % (k, d[:600].replace("\n", "\n    "), c[:300]))
        for e in errors: print("ERROR:", e, file=sys.stderr)
        return 1
    if errors:
        for e in errors: print("ERROR:", e, file=sys.stderr)
        return 2
    if evals == 0:
        print("ERROR: nothing was observed", file=sys.stderr); return 2
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, evals, dist, time.time() - t0))
    return 0

sys.exit(main())

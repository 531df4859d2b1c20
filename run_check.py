#!/usr/bin/env python3
"""Builds and runs the check of one property: run_check.py C01 [--tier quick|thorough] [--seed N].

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: error of the check itself.
"""
import argparse, array, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
RT = os.path.join(REPO, "runtime", "src")
TO = os.path.join(REPO, "runtime", "test", "test_object")
COMMON = "-std=c++17 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -Wno-everything"
FLAVORS = {
    # quick runs of checks with many generated objects compile three times faster without optimisation
    "asan0": ("clang++", COMMON + " -O0 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all"),
    "asan": ("clang++", COMMON + " -O1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all"),
    "tsan0": ("clang++", COMMON + " -O0 -fsanitize=thread"),
    "tsan": ("clang++", COMMON + " -O1 -fsanitize=thread"),
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:hard_rss_limit_mb=3500:allocator_may_return_null=0:"
                    "max_allocation_size_mb=3000:detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=1:"
                    "quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1",
}
CASE_LIMIT_S = 100      # a single case (normally milliseconds) may take that long before it is re-run alone
TOTAL_LIMIT_S = 3000


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


VARIANTS = {
    "": "",
    # forces the 32-bit cache implementation of the bit streams on this 64-bit machine
    "32": " -DZSERIO_RUNTIME_ARCH_H_INC -DZSERIO_RUNTIME_32BIT",
}


def unusable(cid, cfg, cxx, flags):
    """the harness does not build: reports the documented uses (probes) which do not compile although everything around them does"""
    bad = []
    for name, text in cfg.get("probes", {}).items():
        with tempfile.TemporaryDirectory(prefix="verif_probe_") as d:
            src = os.path.join(d, "probe.cpp")
            with open(src, "w") as f:
                f.write(text + "\n")

            def compiles(use):
                r = subprocess.run("%s %s -fsyntax-only %s %s" % (cxx, flags, "-DUSE" if use else "", src), shell=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return r.returncode == 0, r.stdout
            ok, out = compiles(True)
            if not ok and compiles(False)[0]:
                bad.append((name, text, out))
    if not bad:
        return
    odir = os.path.join(VERIF, "out", "replay")
    os.makedirs(odir, exist_ok=True)
    ev = {"property": cid, "tier": "quick", "seed": 0, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": len(cfg["probes"]), "distinct_nontrivial": len(cfg["probes"]),
                       "rule": "documented uses which have to compile; nothing else was run because the harness does not build",
                       "samples": list(cfg["probes"])}, "assumptions": [], "wall_s": 0, "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i, (name, text, out) in enumerate(bad):
        rp = os.path.join(odir, "%s-%d.json" % (cid, i))
        with open(rp, "w") as f:
            json.dump({"property": cid, "key": "unusable/" + name, "program": text, "compiler": out[-4000:]}, f, indent=1)
        err = [ln for ln in out.splitlines() if "error" in ln]
        print("  unusable/%s: does not compile: %s" % (name, (err or [""])[0][:300]))
        print("VIOLATION property=%s replay=%s" % (cid, rp))
    sys.stdout.flush()
    sys.exit(1)


def build(cid, cfg, variant, thorough):
    """returns the path of the harness binary"""
    flavor = cfg.get("flavor", "asan")
    if cfg.get("fast_build") and not thorough:
        flavor += "0"
    cxx, flags = FLAVORS[flavor]
    flags += VARIANTS[variant] + " " + cfg.get("cxxflags", "")
    bdir = os.path.join(BUILD, flavor + variant)
    os.makedirs(bdir, exist_ok=True)
    lines = ["cxx = %s" % cxx,
             "flags = %s -I%s -I%s -I%s" % (flags, os.path.join(VERIF, "harness"), RT,
                                            os.path.join(REPO, "runtime", "test")),
             "rule cc", "  command = $cxx $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule ld", "  command = $cxx $flags $in -o $out $libs"]
    objs = []

    def add(src, obj):
        lines.append("build %s: cc %s" % (esc(obj), esc(src)))
        objs.append(obj)

    for s in sorted(glob.glob(os.path.join(RT, "zserio", "**", "*.cpp"), recursive=True)):
        add(s, "rt_" + os.path.relpath(s, RT).replace("/", "_") + ".o")
    for spec in cfg.get("objects", []):          # e.g. std:Walker* or pmr:*
        alloc, pat = spec.split(":")
        for s in sorted(glob.glob(os.path.join(TO, alloc + "_allocator", pat + ".cpp"))):
            o = "to_%s_%s.o" % (alloc, os.path.basename(s))
            if o not in objs:
                add(s, o)
    for s in ["vh_main.cpp"] + cfg["src"]:
        add(os.path.join(VERIF, "harness", s), "h_" + s.replace("/", "_") + ".o")
    exe = "check_" + cid
    lines.append("build %s: ld %s" % (exe, " ".join(esc(o) for o in objs)))
    lines.append("  libs = %s -lpthread -ldl" % cfg.get("libs", ""))
    nf = os.path.join(bdir, "build_%s.ninja" % cid)
    with open(nf, "w") as f:
        f.write("builddir = %s\n" % esc(os.path.join(bdir, "log_" + cid)) + "\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-C", bdir, "-f", nf, "-j", str(os.cpu_count() or 8), exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [ln for ln in r.stdout.splitlines() if re.search(r"error:|undefined reference|undefined symbol", ln)]
        unusable(cid, cfg, cxx, "%s -I%s -I%s" % (flags, os.path.join(VERIF, "harness"), RT))
        print("\n".join(errs[:25]) or r.stdout[-4000:])
        die("harness does not build against the current tree")
    return os.path.join(bdir, exe)


def parse_crash(text, rc):
    """short stable key of a crash + excerpt"""
    m = re.search(r"SUMMARY: \w+Sanitizer: (\S+)", text)
    kind = None
    if m:
        kind = m.group(1)
    if "runtime error:" in text:
        m2 = re.search(r"runtime error: (.{0,200})", text)
        kind = "ubsan:" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'|-?\d[\d.e+]*", "", m2.group(1)))[:60]
    if kind is None:
        if "hard rss limit" in text:
            kind = "memory-limit"
        elif "Assertion" in text:
            kind = "glibcxx-assertion"
        elif "terminate called" in text or "libc++abi: terminating" in text:
            kind = "terminate"
        elif rc < 0:
            kind = "signal-" + signal.Signals(-rc).name
        else:
            kind = "exit-%d" % rc
    return kind.strip("-"), text[-5000:] if len(text) < 9000 else text[:5000] + "\n...\n" + text[-3000:]


def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(112)
        sec = b[:96].split(b"\0")[0].decode("latin1")
        idx = int.from_bytes(b[96:104], "little")
        cnt = int.from_bytes(b[104:112], "little")
        return sec, idx, cnt
    except OSError:
        return "", 0, 0


class Runner:
    def __init__(self, exe, seed, thorough, workers, tmp, wrapper, cfg):
        self.exe, self.seed, self.thorough, self.workers, self.tmp = exe, seed, thorough, workers, tmp
        self.wrapper = wrapper
        self.env = dict(os.environ, **SAN_ENV)
        self.env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
        if cfg.get("asan_extra"):
            self.env["ASAN_OPTIONS"] += ":" + cfg["asan_extra"]
        self.env["LC_ALL"] = "C.UTF-8"
        self.env["TMPDIR"] = tmp

    def start(self, w, skips, only=None):
        tag = "w%d" % w
        sdir = os.path.join(self.tmp, "scratch_" + tag)
        shutil.rmtree(sdir, ignore_errors=True)
        os.makedirs(sdir)
        cmd = self.wrapper + [self.exe, "--seed", str(self.seed), "--worker", str(w), "--workers", str(self.workers),
                              "--out", os.path.join(self.tmp, tag + ".json"),
                              "--progress", os.path.join(self.tmp, tag + ".prog"), "--scratch", sdir]
        if self.thorough:
            cmd.append("--thorough")
        for s in skips:
            cmd += ["--skip", "%s:%d" % s]
        if only:
            cmd += ["--only", "%s:%d" % only]
        for ext in (".json", ".json.distinct", ".prog"):
            try:
                os.unlink(os.path.join(self.tmp, tag + ext))
            except OSError:
                pass
        err = open(os.path.join(self.tmp, tag + ".err"), "wb")
        p = subprocess.Popen(cmd, stdout=err, stderr=err, cwd=sdir, env=self.env, start_new_session=True)
        err.close()
        return {"p": p, "w": w, "skips": skips, "last": None, "t": time.monotonic(), "tag": tag, "only": only,
                "hung": False}

    def kill(self, r):
        try:
            os.killpg(r["p"].pid, signal.SIGKILL)
        except OSError:
            pass
        r["p"].wait()

    def poll(self, r):
        """None while running, else exit code; sets hung"""
        rc = r["p"].poll()
        if rc is not None:
            return rc
        prog = read_progress(os.path.join(self.tmp, r["tag"] + ".prog"))
        now = time.monotonic()
        if prog != r["last"]:
            r["last"], r["t"] = prog, now
        elif now - r["t"] > CASE_LIMIT_S:
            self.kill(r)
            r["hung"] = True
            return -9
        return None

    def err(self, r):
        with open(os.path.join(self.tmp, r["tag"] + ".err"), "rb") as f:
            return f.read().decode("utf8", "replace")

    def wait(self, r):
        while True:
            rc = self.poll(r)
            if rc is not None:
                return rc
            time.sleep(0.05)


def load_known(cid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == cid:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    cid = a.id
    cfg = CHECKS[cid]
    thorough = a.tier == "thorough"
    t0 = time.monotonic()
    exes = [(v, build(cid, cfg, v, thorough)) for v in cfg.get("variants", [""])]
    if a.build_only:
        return 0
    t_build = time.monotonic() - t0
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % cid)
    if os.geteuid() == 0:
        os.chmod(tmp, 0o755)
    try:
        return run(cid, cfg, a, exes, thorough, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_variant(cfg, a, exe, variant, thorough, tmp, wrapper, viol, inconclusive, agg):
    prefix = variant + ":" if variant else ""
    rn = Runner(exe, a.seed, thorough, a.workers, tmp, wrapper, cfg)
    incidents = {w: 0 for w in range(a.workers)}
    running = [rn.start(w, []) for w in range(a.workers)]
    results = []

    def add(section, oracle, idx, detail, count=1):
        k = prefix + section + "/" + oracle
        if k in viol:
            viol[k]["count"] += count
        else:
            viol[k] = {"section": section, "oracle": oracle, "idx": idx, "detail": detail, "count": count, "exe": exe}

    while running:
        time.sleep(0.05)
        nxt = []
        for r in running:
            rc = rn.poll(r)
            if rc is None:
                nxt.append(r)
                continue
            jf = os.path.join(tmp, r["tag"] + ".json")
            if rc == 0 and os.path.exists(jf):
                results.append(r["tag"])
                continue
            sec, idx, _ = read_progress(os.path.join(tmp, r["tag"] + ".prog"))
            text = rn.err(r)
            if rc == 3 or not sec:
                print(text[-3000:])
                die("harness failed to start (rc=%d)" % rc)
            incidents[r["w"]] += 1
            if r["hung"] or (rc == -9 and "Sanitizer" not in text):
                # hang, or killed from outside (memory guard): re-run the case alone before calling it a violation
                r2 = rn.start(100 + r["w"], [], (sec, idx))
                rc2 = rn.wait(r2)
                if r2["hung"]:
                    add(sec, "hang", idx, "case did not finish within %d s, twice" % CASE_LIMIT_S)
                elif rc2 == -9:
                    add(sec, "crash:killed-out-of-memory", idx, "process killed twice in this case")
                elif rc2 != 0:
                    kind, text2 = parse_crash(rn.err(r2), rc2)
                    add(sec, "crash:" + kind, idx, text2)
                else:
                    inconclusive.append("%s%s:%d %s once" % (prefix, sec, idx, "slow" if r["hung"] else "killed"))
            else:
                kind, text2 = parse_crash(text, rc)
                add(sec, "crash:" + kind, idx, text2)
            if incidents[r["w"]] < 4:
                nxt.append(rn.start(r["w"], r["skips"] + [(sec, idx)]))
        running = nxt

    for tag in sorted(results):
        d = json.load(open(os.path.join(tmp, tag + ".json")))
        agg["evaluations"] += d["evaluations"]
        for k, v in d["counters"].items():
            agg["counters"][prefix + k] = agg["counters"].get(prefix + k, 0) + v
        for k, v in d["cases"].items():
            agg["cases"][prefix + k] = agg["cases"].get(prefix + k, 0) + v
        agg["samples"] += [prefix + s for s in d["samples"]]
        arr = array.array("Q")
        with open(os.path.join(tmp, tag + ".json.distinct"), "rb") as f:
            arr.frombytes(f.read())
        agg["distinct"].update(arr)
        for v in d["violations"]:
            add(v["section"], v["oracle"], v["idx"], v["detail"], v["count"])


def run(cid, cfg, a, exes, thorough, tmp, t0, t_build):
    wrapper = []
    if cfg.get("flavor") == "tsan" and shutil.which("setarch"):
        if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            wrapper = ["setarch", "-R"]
    viol = {}       # key -> dict
    inconclusive = []
    agg = {"evaluations": 0, "distinct": set(), "counters": {}, "cases": {}, "samples": []}
    for variant, exe in exes:
        run_variant(cfg, a, exe, variant, thorough, tmp, wrapper, viol, inconclusive, agg)
    evaluations, distinct = agg["evaluations"], agg["distinct"]
    counters, cases, samples = agg["counters"], agg["cases"], agg["samples"]
    exe = exes[0][1]

    known = load_known(cid)
    seen_known = set()
    bad = []
    for k, v in sorted(viol.items()):
        hit = [kn for kn in known if kn[0] == k]
        if hit:
            seen_known.add(hit[0])
        else:
            bad.append((k, v))
    for kn in known:
        if kn in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (cid, kn[1]))
        else:
            print("note: listed finding %s was not reproduced by this run" % kn[0])

    # monitors must have observed something
    for name in cfg.get("must_observe", []):
        if not bad and counters.get(name, 0) == 0:
            die("monitor observed no event '%s'" % name)
    if not bad and evaluations == 0:
        die("no oracle evaluation happened")

    odir = os.path.join(VERIF, "out", "replay")
    os.makedirs(odir, exist_ok=True)
    vlines = []
    for i, (k, v) in enumerate(bad):
        rp = os.path.join(odir, "%s-%d.json" % (cid, i))
        with open(rp, "w") as f:
            json.dump({"property": cid, "key": k, "seed": a.seed, "tier": a.tier, "section": v["section"],
                       "case": v["idx"], "count": v["count"], "detail": v["detail"],
                       "replay_cmd": "%s --seed %d %s--only %s:%d" % (v["exe"], a.seed, "--thorough " if thorough else "",
                                                                     v["section"], v["idx"])}, f, indent=1)
        vlines.append((rp, k, v))

    by_section = {}
    for s in samples:
        by_section.setdefault(s.split("#")[0], []).append(s)
    picked = [v[0] for v in by_section.values()][:40]
    ev = {"property": cid, "tier": a.tier, "seed": a.seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
                       "samples": picked or ["(no sample recorded)"], "cases_per_section": cases,
                       "events": counters, "inconclusive": inconclusive,
                       "known_findings_reproduced": [kn[0] for kn in seen_known]},
          "assumptions": cfg.get("assumptions", []) + [
              "held on the executions listed, under ASan+UBSan instrumentation" if cfg.get("flavor", "asan") == "asan"
              else "held on the executions listed, under ThreadSanitizer"],
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%s tier=%s seed=%d build=%.1fs total=%.1fs cases=%d evaluations=%d distinct=%d violations=%d%s" % (
        cid, a.tier, a.seed, t_build, time.monotonic() - t0, sum(cases.values()), evaluations, len(distinct), len(bad),
        " inconclusive=%s" % inconclusive if inconclusive else ""))
    for rp, k, v in vlines:
        print("  %s case %d (x%d): %s" % (k, v["idx"], v["count"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (cid, rp))
    sys.stdout.flush()
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py <ID> [--tier quick|thorough] [--seed N]     run the check of one property
  check.py <ID> --replay FILE                          re-run the cases of a replay file
  check.py --list                                      list the checks

A check compiles its monitor (harness/*.cpp) against the headers and sources of /repo's working
tree, with sanitizers, runs it in shards, and turns what the oracles, sanitizers, assertions and the
watchdog observed into a verdict:
  exit 0  held on everything explored (listed known findings are printed)
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  no verdict (harness does not compile, too little observed, resources ran out)
"""
import sys, os, re, json, subprocess, time, shutil, signal, glob
import concurrent.futures as cf
import resource

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
LIBSRC = ["OpaqueTickCounter.cpp", "PerTypeStorage.cpp", "TimerCalibrator.cpp", "reg_ode_solvers.cpp"]

COMMON = ["-std=gnu++14", "-w", "-g1", "-pthread", "-I" + REPO + "/include", "-I" + HARNESS,
          "-I" + REPO + "/include/ode_num_int"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
FLAVOURS = {
    # with the project's own assertions on, as the project builds for its tests
    "dbg": ["g++", "-O1", "-D_DEBUG", "-DVF_DBG=1", "-D_GLIBCXX_ASSERTIONS"] + SAN,
    # the assertions compiled out, as in a release build: nothing but the sanitizers stands in the way
    "rel": ["g++", "-O2", "-DNDEBUG"] + SAN,
    # no sanitizer: for valgrind (uninitialised values) and for cheap long runs
    "plain": ["g++", "-O1", "-D_DEBUG", "-DVF_PLAIN=1"],
    "tsan": ["clang++", "-O1", "-DVF_TSAN=1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
ENV_SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=0:strict_init_order=1:hard_rss_limit_mb=2600:max_allocation_size_mb=2000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=79:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
}

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NCPU = max(2, min(8, os.cpu_count() or 2))
HANG_S = 45
DEADLINE = {"quick": 720, "thorough": 6 * 3600}
MAX_CRASHES = 4


def log(*a):
    print(*a, flush=True)


def compile_flavour(pid, cfg, flavour, bdir):
    exe = os.path.join(bdir, flavour, "monitor")
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    fl = FLAVOURS[flavour]
    srcs = [os.path.join(HARNESS, s) for s in cfg["src"]]
    if cfg.get("lib", True):
        srcs += [os.path.join(REPO, "src", s) for s in LIBSRC]
    objs, cmds = [], []
    for s in srcs:
        o = os.path.join(bdir, flavour, os.path.basename(s) + ".o")
        objs.append(o)
        cmds.append(fl[:1] + fl[1:] + COMMON + cfg.get("flags", []) + ["-c", s, "-o", o])
    return exe, objs, cmds, fl[:1] + fl[1:] + ["-pthread"] + objs + ["-o", exe] + cfg.get("libs", [])


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def build(pid, cfg, bdir, flavours):
    exes = {}
    todo, links = [], []
    for f in flavours:
        exe, objs, cmds, link = compile_flavour(pid, cfg, f, bdir)
        exes[f] = exe
        todo += cmds
        links.append(link)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for stage in (todo, links):
            for cmd, (rc, out) in zip(stage, ex.map(run_cmd, stage)):
                if rc:
                    log("no verdict: the monitor does not compile against this tree")
                    log(" ".join(cmd))
                    log(out[-6000:])
                    sys.exit(2)
    return exes


def crash_key(section, rc, err):
    """A stable name for what ended the process."""
    def where(txt):
        m = re.search(r"#\d+ 0x[0-9a-f]+ in .*?((?:include/ode_num_int|src)/[\w/.]+):(\d+)", txt)
        return "@" + os.path.basename(m.group(1)) if m else ""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
        if kind == "SEGV" and "address points to the zero page" in err:
            kind = "null-dereference"
        return "%s/asan-%s%s" % (section, kind, where(err[m.start():]))
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "%s/tsan-%s%s" % (section, m.group(1).strip().replace(" ", "-"), where(err[m.start():]))
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Invalid free|Mismatched free|Jump to)", err)
    if m:
        w = re.search(r"\((\w+\.(?:h|cpp)):\d+\)", "\n".join(x for x in err[m.start():].splitlines() if not re.search(r"\((stl_|basic_string|regex|c25_|common\.h|jobs\.h)", x)))
        return "%s/memcheck-%s%s" % (section, m.group(1).replace(" ", "-"), "@" + w.group(1) if w else "")
    m = re.search(r"([\w/.-]+):\d+:\d+: runtime error: (.*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(2))[:80]
        return "%s/ubsan-%s@%s" % (section, msg, os.path.basename(m.group(1)))
    m = re.search(r"([\w/.-]+):\d+: .*Assertion `(.*)' failed", err)
    if m:
        return "%s/assert-%s@%s" % (section, m.group(2)[:100], os.path.basename(m.group(1)))
    m = re.search(r"terminate called.*", err)
    if m:
        return "%s/terminate" % section
    return "%s/died-rc%d" % (section, rc)


def read_progress(path):
    try:
        with open(path) as f:
            s = f.readline().split()
        return (s[0], int(s[1])) if len(s) == 2 else None
    except Exception:
        return None


class ShardResult:
    def __init__(self):
        self.violations = []     # dicts: section,index,key,detail,input,flavour
        self.summaries = []
        self.inconclusive = []


STATE = dict(end=None, hang_confirmed=False)


def wait_watch(p, prog, hang):
    last, t0 = None, time.time()
    while True:
        try:
            return p.wait(timeout=0.5)
        except subprocess.TimeoutExpired:
            pass
        if STATE["end"] and time.time() > STATE["end"]:
            p.send_signal(signal.SIGKILL)
            p.wait()
            return "deadline"
        cur = read_progress(prog)
        if cur != last:
            last, t0 = cur, time.time()
        elif time.time() - t0 > hang:
            p.send_signal(signal.SIGKILL)
            p.wait()
            return None


def launch(exe, wrapper, args, odir):
    env = dict(os.environ)
    env.update(ENV_SAN)
    err = open(os.path.join(odir, "stderr"), "w")
    out = open(os.path.join(odir, "stdout"), "w")
    def limits():
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return subprocess.Popen(wrapper + [exe] + args, stdout=out, stderr=err, env=env, cwd=odir, preexec_fn=limits)


def run_shard(exe, flavour, wrapper, seed, tier, shard, nshards, odir, scale, only=None, hang=HANG_S):
    res = ShardResult()
    resume = None
    crashes = 0
    while True:
        os.makedirs(odir, exist_ok=True)
        sub = os.path.join(odir, "r%d" % crashes)
        os.makedirs(sub, exist_ok=True)
        args = ["--seed", str(seed), "--tier", tier, "--out", sub, "--shard", str(shard), str(nshards), "--scale", str(scale)]
        if only:
            args += ["--only", only[0], str(only[1])]
        if resume:
            args += ["--resume", resume[0], str(resume[1])]
        p = launch(exe, wrapper, args, sub)
        rc = wait_watch(p, os.path.join(sub, "progress"), hang)
        prog = read_progress(os.path.join(sub, "progress"))
        vf = os.path.join(sub, "violations.jsonl")
        if os.path.exists(vf):
            for line in open(vf, errors="replace"):
                try:
                    v = json.loads(line)
                except ValueError:
                    continue
                v["flavour"] = flavour
                res.violations.append(v)
        sf = os.path.join(sub, "summary.json")
        if rc == "deadline":
            res.inconclusive.append("the time of the check ran out")
            return res
        if rc is not None and os.path.exists(sf):
            try:
                s = json.load(open(sf))
            except ValueError:
                s = None
            if s is not None:
                res.summaries.append(s)
                if rc in (0, 1):
                    return res
        err = open(os.path.join(sub, "stderr"), errors="replace").read()
        if rc is None:
            if only:
                res.violations.append(dict(section=only[0], index=only[1], key=only[0] + "/hang", flavour=flavour,
                                           detail="no progress within %d s, twice" % hang, input=""))
                return res
            if prog is None:
                res.inconclusive.append("hung before the first case")
                return res
            if STATE["hang_confirmed"]:
                return res
            # a hang is only believed when the case, run alone, hangs again
            again = run_shard(exe, flavour, wrapper, seed, tier, 0, 1, sub + "-again", scale, only=prog, hang=hang * 1.3)
            res.violations += again.violations
            if again.violations:
                STATE["hang_confirmed"] = True
                return res
            if not again.violations:
                res.inconclusive.append("case %s#%d stalled once, but not when run alone" % prog)
        elif rc in (-9, -15):
            res.inconclusive.append("the monitor was killed (signal %d)" % -rc)
            return res
        elif prog is None:
            # before any case: startup
            res.violations.append(dict(section="startup", index=0, key=crash_key("startup", rc, err), flavour=flavour,
                                       detail=err[-4000:], input=""))
            return res
        else:
            res.violations.append(dict(section=prog[0], index=prog[1], key=crash_key(prog[0], rc, err),
                                       flavour=flavour, detail=err[:6000], input="(see replay)"))
            if only:
                return res
        crashes += 1
        if crashes >= MAX_CRASHES or only:
            return res
        resume = prog


def load_known():
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return known


def main():
    argv = sys.argv[1:]
    if not argv or argv[0] == "--list":
        for k, v in sorted(CHECKS.items()):
            log(k, v["src"])
        return 0
    pid = argv[0]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale, replay, keep = 1.0, None, False
    k = 1
    while k < len(argv):
        if argv[k] == "--tier":
            tier = argv[k + 1]; k += 2
        elif argv[k] == "--seed":
            seed = int(argv[k + 1]); k += 2
        elif argv[k] == "--scale":
            scale = float(argv[k + 1]); k += 2
        elif argv[k] == "--replay":
            replay = argv[k + 1]; k += 2
        elif argv[k] == "--keep":
            keep = True; k += 1
        else:
            log("unknown option", argv[k]); return 2
    t0 = time.time()
    tag = os.environ.get("VF_BUILD_TAG", "")
    bdir = os.path.join(VERIF, "build", pid + tag)
    if os.path.isdir(bdir):
        shutil.rmtree(bdir)
    os.makedirs(bdir)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    runs = cfg.get("runs") or [dict(flavour="dbg", scale=1.0), dict(flavour="rel", scale=0.5)]
    runs = [r for r in runs if tier in r.get("tiers", ("quick", "thorough"))]
    exes = build(pid, cfg, bdir, sorted(set(r["flavour"] for r in runs)))
    tb = time.time() - t0
    STATE["end"] = t0 + DEADLINE.get(tier, 720)

    if replay:
        spec = json.load(open(replay))
        bad = 0
        for c in spec["cases"]:
            exe = exes.get(c["flavour"]) or list(exes.values())[0]
            r = run_shard(exe, c["flavour"], [], spec["seed"], spec["tier"], 0, 1,
                          os.path.join(bdir, "replay-%s-%d" % (c["section"].replace("/", "_"), c["index"])),
                          spec.get("scale", 1.0) * c.get("scale", 1.0), only=(c["section"], c["index"]))
            for v in r.violations:
                bad += 1
                log("reproduced:", v["key"], "\n ", v["detail"], "\n  input:", v["input"])
        return 1 if bad else 0

    jobs = []
    nsh = NCPU
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in runs:
            n = r.get("shards", nsh)
            wrapper = r.get("wrapper", [])
            for s in range(n):
                od = os.path.join(bdir, "%s-%s-%d" % (r["flavour"], "w" if wrapper else "n", s))
                sc = scale * r.get("scale", 1.0)
                jobs.append((r, s, ex.submit(run_shard, exes[r["flavour"]], r["flavour"], wrapper, seed, tier, s, n, od, sc)))
    viols, incon = [], []
    evals, counters, minimum, distinct, samples, assumptions, rule = 0, {}, {}, set(), [], [], ""
    sections = {}
    perflav = {}
    for r, s, f in jobs:
        res = f.result()
        for v in res.violations:
            v["scale"] = r.get("scale", 1.0)
        viols += res.violations
        incon += res.inconclusive
        for sm in res.summaries:
            evals += sm["evaluations"]
            perflav[r["flavour"]] = perflav.get(r["flavour"], 0) + sm["evaluations"]
            distinct.update(sm["distinct"])
            for kk, vv in sm["counters"].items():
                counters[kk] = counters.get(kk, 0) + vv
            for kk, vv in sm["sections"].items():
                sections[kk] = sections.get(kk, 0) + vv
            minimum.update(sm["minimum"])
            if s == 0:
                samples += sm["samples"]
            assumptions = sm["assumptions"] or assumptions
            rule = sm["rule"] or rule

    known = load_known().get(pid, [])
    hit, fresh = {}, []
    for v in viols:
        for key, desc in known:
            if v["key"] == key:
                hit[key] = desc
                break
        else:
            fresh.append(v)
    for key, desc in known:
        if key in hit:
            log("KNOWN-FINDING: property=%s %s [%s]" % (pid, desc, key))

    short = [(c, counters.get(c, 0), m) for c, m in sorted(minimum.items()) if counters.get(c, 0) < m * scale]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": rule,
            "samples": samples[:6], "observed": counters, "cases_per_section": sections,
            "cases_per_build": perflav, "build_s": round(tb, 1),
            "known_findings_observed": sorted(hit),
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not keep and not fresh:
        shutil.rmtree(bdir, ignore_errors=True)

    if fresh:
        rp = os.path.join(VERIF, "replays", "%s-seed%d-%s.json" % (pid, seed, tier))
        keys = {}
        for v in fresh:
            keys.setdefault(v["key"], []).append(v)
        cases = [dict(section=v[0]["section"], index=v[0]["index"], flavour=v[0]["flavour"], key=kk, scale=v[0]["scale"],
                      detail=v[0]["detail"], input=v[0]["input"], times=len(v)) for kk, v in keys.items()]
        json.dump(dict(property=pid, seed=seed, tier=tier, scale=scale, how="python3 check.py %s --replay %s" % (pid, rp),
                       cases=cases), open(rp, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        for c in cases[:12]:
            log("  [%s, x%d] %s#%d\n    %s\n    input: %s" % (c["flavour"], c["times"], c["key"], c["index"],
                                                             c["detail"][:700].replace("\n", "\n    "), c["input"][:500]))
        return 1
    if incon:
        log("no verdict:", "; ".join(incon[:5]))
        return 2
    if short:
        log("no verdict: too little observed:", short)
        return 2
    if evals == 0:
        log("no verdict: nothing ran")
        return 2
    log("held: property=%s tier=%s seed=%d cases=%d distinct-nontrivial=%d build=%.0fs wall=%.0fs" %
        (pid, tier, seed, evals, len(distinct), tb, time.time() - t0))
    log("observed:", json.dumps(counters))
    return 0


if __name__ == "__main__":
    sys.exit(main())

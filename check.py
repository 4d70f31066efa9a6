#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working
tree, drives them under sanitizers, judges what their monitors reported, and
writes evidence/<id>.json.

  check.py C01 [--tier quick|thorough]      run a check
  check.py --replay FILE                    re-run one recorded violation

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Anything else: the check itself failed (build error, nothing observed, ...)."""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess
import sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
NPROC = os.cpu_count() or 4

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
# generous: a case takes milliseconds
STALL = 60
STALL_RERUN = 100
# once a violation was seen the others get this long to finish
GRACE = {"quick": 45, "thorough": 300}
FOUND = []
KNOWN, SPEC, PID = [], {}, None


def concerns(key):
    """Which reports concern this property: its own keys, those of others that
    contradict its statement as well, and anything that brings the process
    down."""
    m = re.match(r"^([A-Z]\d{2,3})\.", key)
    return (not m or m.group(1) == PID
            or bool(re.match(SPEC.get("also", "$^"), key)))


def known_for(f):
    return next((k for k in KNOWN if k["property"] == PID and k["key"] == f["key"]
                 and k["case"] == f["case"]), None)


def note_found(f):
    if not FOUND and concerns(f["key"]) and not known_for(f):
        FOUND.append(time.time())


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for top in ("lager", "example", "resources"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_pkg = {}


def pkg(kind, name):
    k = (kind, name)
    if k not in _pkg:
        _pkg[k] = sh(["pkg-config", "--" + kind, name]).stdout.split()
    return _pkg[k]


class BuildError(Exception):
    pass


def gen_includes():
    inc = os.path.join(BUILD, "inc", "lager")
    os.makedirs(inc, exist_ok=True)
    p = os.path.join(inc, "resources_path.hpp")
    txt = ('#pragma once\nnamespace lager {\ninline const char* resources_path()'
           ' { return "%s"; }\n}\n' % os.path.join(REPO, "resources"))
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p, "w") as f:
            f.write(txt)
    return os.path.join(BUILD, "inc")


def build_part(pid, part, th):
    """Compile one harness binary (its sources in parallel)."""
    bdir = os.path.join(BUILD, pid, part["name"])
    os.makedirs(bdir, exist_ok=True)
    san = part.get("san", "asan")
    cxx = part.get("cxx", "g++")
    flags = (["-std=" + part.get("std", "c++17"), part.get("opt", "-O1"), "-g1",
              "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
              "-pthread", "-I" + REPO, "-I" + os.path.join(BUILD, "inc"),
              "-I" + os.path.join(HERE, "harness")]
             + SAN[san] + part.get("flags", []))
    for p in part.get("pkgs", []):
        flags += pkg("cflags", p)
    libs = list(part.get("libs", []))
    for p in part.get("pkgs", []):
        libs += pkg("libs", p)
    exe = os.path.join(bdir, "run")
    h = hashlib.sha256(th.encode())
    h.update(repr((cxx, flags, libs, part["srcs"], part.get("moc"))).encode())
    for d, _, files in sorted(os.walk(os.path.join(HERE, "harness"))):
        for f in sorted(files):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    stamp = os.path.join(bdir, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) \
            and open(stamp).read() == h.hexdigest():
        return exe
    if os.path.exists(stamp):
        os.remove(stamp)
    for m in part.get("moc", []):
        src = os.path.join(HERE, "harness", m)
        dst = os.path.join(bdir, os.path.splitext(m)[0] + ".moc")
        moc = shutil.which("moc") or "/usr/lib/qt5/bin/moc"
        r = sh([moc, src, "-o", dst, "-I" + REPO])
        if r.returncode:
            raise BuildError("moc %s:\n%s" % (m, r.stdout[-3000:]))
    if part.get("moc"):
        flags = flags + ["-I" + bdir]

    jobs = []
    for s in part["srcs"]:
        defs = []
        if isinstance(s, tuple):
            s, defs = s[0], list(s[1])
        o = os.path.join(bdir, os.path.basename(s) + "_" +
                         hashlib.md5(repr(defs).encode()).hexdigest()[:6] + ".o")
        src = s if os.path.isabs(s) else os.path.join(HERE, "harness", s)
        jobs.append(([cxx, "-c", src, "-o", o] + flags + defs, o))

    def one(j):
        r = sh(j[0])
        return r.returncode, r.stdout, j

    with POOL_LOCK:
        pass
    res = list(COMPILE_POOL.map(one, jobs))
    for rc, so, j in res:
        if rc:
            raise BuildError(" ".join(j[0]) + "\n" + so[-6000:])
    r = sh([cxx, "-o", exe] + [j[1] for j in jobs] + flags + libs)
    if r.returncode:
        raise BuildError("link:\n" + r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return exe


import threading
POOL_LOCK = threading.Lock()
COMPILE_POOL = ThreadPoolExecutor(NPROC)


def run_env(part, scratch):
    env = dict(os.environ)
    leaks = 1 if part.get("leaks") else 0
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=66:detect_leaks=%d:"
                           "detect_stack_use_after_return=1:"
                           "allocator_may_return_null=1:handle_abort=1" % leaks)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:second_deadlock_stack=1:"
                           "history_size=4:suppressions=" +
                           os.path.join(HERE, "harness", "tsan.supp"))
    env["LSAN_OPTIONS"] = "suppressions=" + os.path.join(
        HERE, "harness", "lsan.supp") + ":print_suppressions=0"
    env["QT_QPA_PLATFORM"] = "offscreen"
    env["SDL_VIDEODRIVER"] = "dummy"
    env["SDL_AUDIODRIVER"] = "dummy"
    env["XDG_RUNTIME_DIR"] = scratch
    env["HOME"] = scratch
    env["TMPDIR"] = scratch
    env["VP_SCRATCH"] = scratch
    env["VP_TIER"] = TIER
    env.update(part.get("env", {}))
    return env


def crash_key(text, rc):
    if "LeakSanitizer has encountered a fatal error" in text:
        return "tool:lsan", "LeakSanitizer cannot run here"
    m = re.search(r"Assertion [`'](.*)' failed", text)
    if m:
        return "assert", m.group(1)[:300]
    m = re.search(r"terminate called.*\n?(.*what.*)?", text)
    if m:
        return "terminate", m.group(0)[:300]
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w-]+)(.*)", text)
    if m:
        kind = m.group(2)
        if m.group(1) == "UndefinedBehavior":
            r = re.search(r"runtime error: (.*)", text)
            return "ubsan", (r.group(1) if r else m.group(0))
        loc = m.group(3).strip()
        return "%s:%s" % (m.group(1).lower(), kind), m.group(0)[:300] + " " + loc[:0]
    m = re.search(r"runtime error: (.*)", text)
    if m:
        return "ubsan", m.group(1)[:300]
    m = re.search(r"Assertion [`'](.*)' failed", text)
    if m:
        return "assert", m.group(1)[:300]
    m = re.search(r"terminate called.*\n?(.*what.*)?", text)
    if m:
        return "terminate", m.group(0)[:300]
    if rc < 0:
        return "signal:%d" % -rc, "killed by signal %d" % -rc
    return "exit:%d" % rc, text[-300:]


class Shard:
    """One process over cases start, start+step, ... < end; restarted after
    the case that crashed or hung."""

    def __init__(self, pid, part, exe, idx, n, cases, seed, scratch):
        self.part, self.exe, self.idx, self.n = part, exe, idx, n
        self.seed, self.cases = seed, cases
        base = os.path.join(OUT, pid, "%s.%d.%d" % (part["name"], seed, idx))
        self.base = base
        self.outf, self.status, self.errf = base + ".jsonl", base + ".status", base + ".err"
        for f in (self.outf, self.status, self.errf, self.outf + ".sigs"):
            if os.path.exists(f):
                os.remove(f)
        self.fails = []      # (key, msg, case, trace, detail)
        self.notes = []
        self.scratch = os.path.join(scratch, "%s.%d.%d" % (part["name"], seed, idx))
        os.makedirs(self.scratch, exist_ok=True)
        self.pos = 0
        self.completed = False

    def cmd(self, start, end, step, extra=()):
        pre = list(self.part.get("wrap", []))
        return pre + [self.exe, "--seed", str(self.seed), "--start", str(start), "--end",
                str(end), "--step", str(step), "--out", self.outf, "--status",
                self.status] + list(extra)

    def read_status(self):
        try:
            return open(self.status).read().strip()
        except OSError:
            return ""

    def poll_fails(self):
        if FOUND or not os.path.exists(self.outf):
            return
        with open(self.outf, errors="replace") as f:
            f.seek(self.pos)
            while True:
                line = f.readline()
                if not line.endswith("\n"):
                    break
                self.pos = f.tell()
                if '"type":"fail"' in line:
                    try:
                        note_found(json.loads(line))
                    except ValueError:
                        pass

    def run_once(self, cmd, stall):
        if os.path.exists(self.status):
            os.remove(self.status)
        with open(self.errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL,
                                 cwd=self.scratch, env=run_env(self.part, self.scratch),
                                 start_new_session=True)
            last, t_last = None, time.time()
            while True:
                try:
                    rc = p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                st = self.read_status()
                now = time.time()
                if st != last:
                    last, t_last = st, now
                self.poll_fails()
                late = now > DEADLINE or (FOUND and now > FOUND[0] + GRACE[TIER])
                if now - t_last > stall or late:
                    rc = "deadline" if late else "hang"
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        with open(self.errf, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - 200000))
            text = f.read().decode(errors="replace")
        return rc, text

    def run(self):
        start = self.idx
        probes = ["--probes"] if self.idx == 0 and self.part.get("probes") else []
        stall = self.part.get("stall", STALL)
        for attempt in range(6):
            if start >= self.cases and not probes:
                return
            rc, text = self.run_once(self.cmd(start, self.cases, self.n, probes), stall)
            if rc == 0:
                self.completed = True
                return
            if rc == "deadline":
                self.notes.append("stopped at case %s: %s" % (
                    self.read_status(), "a violation was found"
                    if FOUND else "overall time limit"))
                return
            st = self.read_status()
            case, nxt = None, None
            if st.startswith("probe "):
                case = "probe:" + st[6:].strip()
                nxt = start
            elif st == "done":
                case = "end"        # e.g. leak report at exit
                nxt = self.cases
            elif st.isdigit():
                case, nxt = st, int(st) + self.n
            else:
                case, nxt = "start", self.cases
            if rc == "hang":
                key, msg = "hang", "no progress for %d s in case %s" % (stall, case)
                ok = True if FOUND else self.confirm_hang(case)
                if ok is None:
                    self.notes.append("case %s stalled once, finished when re-run" % case)
                    start, probes = nxt, []
                    continue
            else:
                key, msg = crash_key(text, rc)
            if key == "tool:lsan":
                self.notes.append(msg)
                self.completed = True
                return
            if key == "exit:3" or (case == "start" and key.startswith("exit:")):
                raise RuntimeError("harness failed to start: " + text[-1500:])
            self.fails.append(dict(key=key, msg=msg, case=case, detail=text[-6000:]))
            note_found(self.fails[-1])
            if FOUND and key == "hang":
                return
            start, probes = nxt, []
        self.notes.append("gave up after repeated crashes")

    def confirm_hang(self, case):
        """Re-run the stalled case alone: a violation only if it stalls again."""
        if case.startswith("probe:"):
            cmd = self.cmd(0, 0, 1, ["--probe", case[6:]])
        elif case.isdigit():
            cmd = self.cmd(int(case), int(case) + 1, 1)
        else:
            return True
        rc, text = self.run_once(cmd, self.part.get("stall_rerun", STALL_RERUN))
        return True if rc == "hang" else None

    def collect(self):
        stats = dict(evaluations=0, counters={}, samples=[])
        if os.path.exists(self.outf):
            for line in open(self.outf, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["type"] == "fail":
                    self.fails.append(d)
                elif d["type"] == "stats":
                    stats["evaluations"] += d["evaluations"]
                    for k, v in d["counters"].items():
                        stats["counters"][k] = stats["counters"].get(k, 0) + v
                    stats["samples"] += d["samples"]
        sigs = set()
        sf = self.outf + ".sigs"
        if os.path.exists(sf):
            b = open(sf, "rb").read()
            sigs = set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
        return stats, sigs


def load_known():
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) case=(\S+) (.*)", line)
            if m:
                known.append(dict(zip(("property", "key", "case", "what"), m.groups())))
    return known


def main():
    global TIER, DEADLINE, KNOWN, SPEC, PID
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--part")
    a = ap.parse_args()
    import props
    TIER = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    DEADLINE = t0 + (780 if TIER == "quick" else 3 * 3600)
    if a.replay:
        d = json.load(open(a.replay))
        a.pid, a.seed = d["property"], d["seed"]
    pid = a.pid
    spec = props.PROPS[pid]
    KNOWN, SPEC, PID = load_known(), spec, pid
    gen_includes()
    th = tree_hash()
    parts = [p for p in spec["parts"] if not a.part or p["name"] == a.part]
    # what does not compile leaves the check without an answer, unless what does
    # compile finds a violation
    def attempt(p):
        try:
            return build_part(pid, p, th)
        except BuildError as e:
            return e

    with ThreadPoolExecutor(len(parts)) as ex:
        exes = list(ex.map(attempt, parts))
    unbuilt = [(p["name"], e) for p, e in zip(parts, exes) if isinstance(e, BuildError)]
    for name, e in unbuilt:
        print("build of the harness failed (%s):\n%s" % (name, e))
    parts = [p for p, e in zip(parts, exes) if not isinstance(e, BuildError)]
    exes = [e for e in exes if not isinstance(e, BuildError)]
    if not parts or (unbuilt and a.build_only):
        return 4
    t_build = time.time() - t0
    log("built %s in %.1fs" % (pid, t_build))
    if a.build_only:
        return 0
    odir = os.path.join(OUT, pid)
    scratch = os.path.join(OUT, pid, "scratch.%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    if a.replay:
        part = [p for p in parts if p["name"] == d["part"]][0]
        exe = exes[parts.index(part)]
        args = [exe, "--seed", str(a.seed), "--verbose"]
        c = d["case"]
        if c.startswith("probe:"):
            args += ["--probe", c[6:]]
        elif c.isdigit():
            args += ["--start", c, "--end", str(int(c) + 1)]
        else:
            args += ["--start", str(d["shard"][0]), "--end", str(d["cases"]),
                     "--step", str(d["shard"][1])]
        return subprocess.run(args, env=run_env(part, scratch), cwd=scratch).returncode

    seeds = [a.seed]
    if TIER == "thorough":
        seeds = [a.seed + 1000003 * i for i in range(spec.get("thorough_seeds", 2))]
    shards = []
    for part, exe in zip(parts, exes):
        n = part.get("shards", NPROC)
        cases = part["cases"][0 if TIER == "quick" else 1]
        cases = max(n, int(cases * a.scale))
        for seed in seeds:
            for i in range(n):
                shards.append(Shard(pid, part, exe, i, n, cases, seed, scratch))
    width = min([p.get("width", NPROC) for p in parts])
    err = None
    with ThreadPoolExecutor(width) as ex:
        futs = [ex.submit(s.run) for s in shards]
        for f in futs:
            try:
                f.result()
            except RuntimeError as e:
                err = e
    if err:
        print("harness error:", err)
        return 5
    subprocess.run(["rm", "-rf", scratch])

    evals, counters, samples, allsigs, notes, fails = 0, {}, [], set(), [], []
    per_part = {}
    for s in shards:
        st, sigs = s.collect()
        evals += st["evaluations"]
        per_part.setdefault(s.part["name"], [0, set()])
        per_part[s.part["name"]][0] += st["evaluations"]
        per_part[s.part["name"]][1] |= sigs
        for k, v in st["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += [(s.part["name"] + " " + x) for x in st["samples"][:1]]
        notes += s.notes
        for f in s.fails:
            f["part"], f["seed"] = s.part["name"], s.seed
            f["shard"], f["cases"] = (s.idx, s.n), s.cases
            fails.append(f)
    distinct = sum(len(v[1]) for v in per_part.values())

    mine, other = [], {}
    for f in fails:
        if not concerns(f["key"]):
            other[f["key"]] = other.get(f["key"], 0) + 1
        else:
            mine.append(f)
    hits, bad = {}, {}
    for f in mine:
        k = known_for(f)
        if k:
            hits[k["key"]] = k
        else:
            bad.setdefault(f["key"], []).append(f)
    for k in hits.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(OUT, pid, "replay")
    os.makedirs(rdir, exist_ok=True)
    for key, fs in sorted(bad.items()):
        f = fs[0]
        rp = os.path.join(rdir, re.sub(r"[^\w.-]", "_", key) + ".json")
        d = dict(property=pid, part=f["part"], seed=f["seed"], case=f["case"], key=key,
                 msg=f.get("msg"), trace=f.get("trace"), detail=f.get("detail"),
                 shard=f["shard"], cases=f["cases"], occurrences=len(fs),
                 how="python3 check.py --replay " + rp)
        json.dump(d, open(rp, "w"), indent=1)
        print("  %s: %s (part %s, case %s, %d occurrence(s))"
              % (key, (f.get("msg") or "")[:400], f["part"], f["case"], len(fs)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=distinct, rule=spec["rule"],
               samples=samples[:4], observed=counters,
               parts={p["name"]: dict(sanitizer=p.get("san", "asan"),
                                      std=p.get("std", "c++17"),
                                      cases=per_part[p["name"]][0],
                                      distinct=len(per_part[p["name"]][1]))
                      for p in parts},
               seeds=seeds, build_s=round(t_build, 1))
    if other:
        cov["reports_for_other_properties"] = other
    if notes:
        cov["notes"] = sorted(set(notes))[:20]
    ev = dict(property=pid, tier=TIER, seed=a.seed, level=spec.get("level", "exploration"),
              coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(wall, 1), violations=len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if bad:
        return 1
    if unbuilt:
        print("inconclusive: not built: " + ", ".join(n for n, _ in unbuilt))
        return 4
    # inconclusive: nothing (or not enough) observed
    short = []
    if evals < spec.get("min_evals", 8):
        short.append("only %d evaluations" % evals)
    for k, v in spec.get("floors", {}).items():
        if counters.get(k, 0) < v * min(1.0, a.scale):
            short.append("observed %s=%d < %d" % (k, counters.get(k, 0), v))
    if not a.part and short:
        print("inconclusive: " + "; ".join(short))
        return 6
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.0fs"
          % (pid, TIER, evals, distinct, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())

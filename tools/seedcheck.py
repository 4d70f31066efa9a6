#!/usr/bin/env python3
"""Development aid: verifies planted bugs and runs checks against them.

  seedcheck.py ID... [--no-tests] [--no-checks] [--props C01,C02]

Works on a scratch copy of /repo under /tmp; prints one line per bug."""
import argparse, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-checks", action="store_true")
ap.add_argument("--props")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(here, "seeded")))


def run(cmd, cwd, timeout=900, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout")


stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = os.path.join(here, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    patch = os.path.join(d, "patch.diff")
    res = []
    # demo on the clean tree, from elsewhere
    demo = "/tmp/seeddemo.%d" % os.getpid()
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    # the tests build from /repo itself, so the patch is applied there
    if subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode:
        sys.exit("/repo is not clean")
    r = run(["bash", demo + "/demo.sh"], "/repo", 300)
    res.append("demo-clean=%d" % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
    r = run(["git", "-C", "/repo", "apply", patch], "/repo")
    if r.returncode:
        print(i, "does not apply", r.stdout)
        continue
    try:
        r = run(["bash", demo + "/demo.sh"], "/repo", 300)
        res.append("demo-bug=%d" % r.returncode)
        if r.returncode == 0 or "error:" in r.stdout:
            print(r.stdout[-1500:])
        if not a.no_tests:
            r = run(["bash", "/opt/vp/build.sh"], "/repo")
            res.append("build=%d" % r.returncode)
            run(["bash", "/opt/vp/test.sh", "/tmp/seed.json"], "/repo")
            lost = stable - set(json.load(open("/tmp/seed.json"))["passed"])
            res.append("tests-lost=%d" % len(lost))
            if lost:
                print(sorted(lost)[:8])
        if not a.no_checks:
            for p in (a.props.split(",") if a.props else [meta["property"]]):
                r = run([sys.executable, os.path.join(here, "check.py"), p], here)
                keys = [l.split(":")[0].strip() for l in r.stdout.splitlines() if l.startswith("  ")]
                res.append("%s:rc=%d%s" % (p, r.returncode, keys if keys else ""))
                if r.returncode not in (0, 1):
                    print(r.stdout[-2500:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        shutil.rmtree(demo, ignore_errors=True)
    print("SEED", i, " ".join(res), flush=True)

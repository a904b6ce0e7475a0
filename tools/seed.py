#!/usr/bin/env python3
"""seed.py ID [--no-tests] [--checks C04,C05] [--budget N]: judges one planted bug in a scratch copy of /repo bound over
/repo in a private mount namespace: it applies, builds, passes the stable tests, its demo passes without and fails with
it, and which checks catch it."""
import argparse, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("--no-tests", action="store_true"); ap.add_argument("--no-demo", action="store_true"); ap.add_argument("--checks"); ap.add_argument("--budget")
ap.add_argument("--patch"); ap.add_argument("--seed")
a = ap.parse_args()
d = os.path.join(HERE, "seeded", a.id)
patch = a.patch or os.path.join(d, "patch.diff")
tmp = tempfile.mkdtemp(prefix="seed-%s-" % a.id)
def ns(cmd, **k):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && . /opt/vp/env.sh && cd /repo && %s" % (tmp, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    shutil.copytree("/repo", tmp + "/repo", symlinks=True)
    if not a.no_demo:
        shutil.copytree(d, tmp + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = ns("timeout 300 bash %s/demo/demo.sh" % tmp)
        print("demo unpatched:", r.returncode, "ok" if r.returncode == 0 else "BAD\n" + r.stdout[-3000:])
    r = subprocess.run(["git", "-C", tmp + "/repo", "apply", os.path.abspath(patch)], stderr=subprocess.PIPE, text=True)
    if r.returncode: sys.exit("does not apply: " + r.stderr)
    r = ns("go build ./... && go vet ./internal/... ./pkg/... ./cmd/... 2>&1 | head -0")
    if r.returncode: sys.exit("does not build: " + r.stdout)
    if not a.no_demo:
        r = ns("timeout 300 bash %s/demo/demo.sh" % tmp)
        print("demo patched:", r.returncode, "ok" if r.returncode != 0 else "BAD (passes)", r.stdout[-700:])
    if not a.no_tests:
        ns("bash /opt/vp/test.sh %s/out.json" % tmp)
        o = json.load(open(tmp + "/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        miss = sorted(set(b["stable"]) - set(o["passed"]))
        print("stable tests:", "ok" if not miss else "BROKEN %s" % miss[:5])
    checks = a.checks.split(",") if a.checks else ([json.load(open(d + "/meta.json"))["property"]] if os.path.exists(d + "/meta.json") else [])
    for c in checks:
        r = ns("cd %s && python3 check.py %s %s %s" % (HERE, c, "--budget " + a.budget if a.budget else "", "--seed " + a.seed if a.seed else ""))
        print("check", c, "exit", r.returncode, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "NO ANSWER"))
        print("\n".join(l[:600] for l in r.stdout.splitlines()[:6]))
finally:
    shutil.rmtree(tmp, ignore_errors=True)

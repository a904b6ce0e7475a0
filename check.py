#!/usr/bin/env python3
"""Runs the generated-input search for one property against /repo's working tree.

  check.py <property> --tier quick|thorough     exit 0 held, 1 VIOLATION, 2 no answer
  check.py <property> --replay FILE             re-runs one recorded case
"""
import argparse, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

MOD = "internal/verifx"


def goenv(extra=()):
    env = dict(os.environ)
    p = "/opt/veriftools/go1.27.3/bin"
    env["PATH"] = p + ":" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(env):
        if k.startswith("VX_"):
            del env[k]
    env.update(dict(extra))
    return env


def overlay(work):
    rep = {}
    base = os.path.join(HERE, "harness")
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                rep[os.path.join(REPO, MOD, os.path.relpath(p, base))] = p
    o = os.path.join(work, "overlay.json")
    with open(o, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return o


def fail(msg):
    print("NO-ANSWER:", msg, file=sys.stderr)
    sys.exit(2)


def build(pkg, race, work):
    out = os.path.join(work, "race.test" if race else "plain.test")
    cmd = ["go", "test", "-vet=off", "-overlay", overlay(work), "-c", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + MOD + "/" + pkg)
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        fail("harness does not build:\n" + r.stdout[-4000:])
    return out


def build_bins(work):
    bins = os.path.join(work, "bin")
    os.makedirs(bins, exist_ok=True)
    r = subprocess.run(["go", "build", "-race", "-o", bins, "./cmd/..."], cwd=REPO, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        fail("services do not build:\n" + r.stdout[-4000:])
    return bins


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)
    except Exception:
        pass


class Shard:
    def __init__(self, binary, test, work, name, env, timeout):
        self.binary = binary
        self.out = os.path.join(work, name + ".json")
        self.log = os.path.join(work, name + ".log")
        cwd = os.path.join(work, name + ".d")
        os.makedirs(cwd, exist_ok=True)
        e = goenv({"VX_OUT": self.out, "GORACE": "halt_on_error=1 exitcode=66", **env})
        self.f = open(self.log, "w")
        self.p = subprocess.Popen([binary, "-test.run", "^Test%s$" % test, "-test.timeout", "0"],
                                  cwd=cwd, env=e, stdout=self.f, stderr=subprocess.STDOUT, start_new_session=True,
                                  preexec_fn=die_with_parent)
        self.end = time.time() + timeout
        self.timed_out = False

    def hashes(self):
        try:
            b = open(self.out + ".nt", "rb").read()
        except OSError:
            return set()
        return {b[i:i + 8] for i in range(0, len(b), 8)}

    def wait(self):
        try:
            self.p.wait(max(1, self.end - time.time()))
        except subprocess.TimeoutExpired:
            self.timed_out = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.f.close()
        return self

    def report(self):
        try:
            return json.load(open(self.out))
        except Exception:
            return {}

    def logtail(self, n=6000):
        try:
            s = open(self.log, errors="replace").read()
        except OSError:
            return ""
        return s[:n] if len(s) > n else s

    def crash(self):
        """A violation dict if the process died in a way that is the code's doing, else None."""
        rc = self.p.returncode
        rep = self.report()
        if rep.get("violations"):
            return None
        if rc == 0 and rep.get("done"):
            return None
        if self.timed_out:
            return None
        log = open(self.log, errors="replace").read()
        if rc is not None and rc < 0 and rc in (-9, -15):
            return None
        if "cannot allocate memory" in log or "out of memory" in log:
            return None
        try:
            cur = json.load(open(self.out + ".cur"))
        except Exception:
            return None
        why = "process died (exit %s)" % rc
        for key in ("WARNING: DATA RACE", "fatal error:", "panic:", "FATAL", "fatal"):
            i = log.find(key)
            if i >= 0:
                why = log[i:i + 1800]
                break
        else:
            why += ": " + log[-800:]
        return {"sub": cur["sub"], "case": cur["case"], "message": why, "shrunk": False}


def shrink_crash(binary, test, work, v, env, budget):
    """Shrinks a case whose failure kills the process, by re-running it in fresh processes."""
    ops = v["case"].get("Ops") if isinstance(v["case"], dict) else None
    if not isinstance(ops, list) or budget <= 0:
        return v
    end = time.time() + budget
    n = [0]

    def fails(case):
        f = os.path.join(work, "shrink.case")
        json.dump({"sub": v["sub"], "case": case}, open(f, "w"))
        n[0] += 1
        name = "shrink%d" % n[0]
        s = Shard(binary, test, work, name, {**env, "VX_REPLAY": f, "VX_REPLAY_TRIES": "3"}, 40).wait()
        c = s.crash()
        if c:
            return c["message"]
        vs = s.report().get("violations")
        return vs[0]["message"] if vs else None

    cur = dict(v["case"])
    size = (len(ops) + 1) // 2
    while size >= 1 and time.time() < end:
        i, progressed = 0, False
        while i < len(cur["Ops"]) and time.time() < end:
            cand = dict(cur)
            cand["Ops"] = cur["Ops"][:i] + cur["Ops"][i + size:]
            m = fails(cand) if cand["Ops"] else None
            if m:
                cur, progressed = cand, True
                v = {**v, "case": cur, "message": m, "shrunk": True}
            else:
                i += size
        if size == 1 and not progressed:
            break
        size = max(1, size // 2) if size > 1 else (1 if progressed else 0)
    return v


def load_known(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                sig, _, what = rest.partition(" :: ")
                out.append((sig.strip(), what.strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--budget", type=float, help="seconds of search per shard")
    ap.add_argument("--sub")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    c = CHECKS.get(a.prop) or fail("unknown property " + a.prop)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    rc = 2
    try:
        rc = run(a, c, tier, seed, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def run(a, c, tier, seed, work, t0):
    prop = a.prop
    test = prop
    budget = a.budget or c[tier]
    shards = c.get("shards", 4)
    env = {"VX_SEED": str(seed), "VX_TIER": tier, "VX_BUDGET_MS": str(int(budget * 1000)),
           "VX_REPO": REPO, "VX_VERIF": HERE, "VX_KNOWN": "\n".join(s for s, _ in load_known(prop))}
    if a.sub:
        env["VX_SUB"] = a.sub
    if c.get("bins"):
        env["VX_BINS"] = build_bins(work)
    # with the race detector a history takes about six times as long: half of the shards go without it
    plain = build(c["pkg"], False, work)
    race = build(c["pkg"], True, work) if c.get("race") else plain
    binaries = [race if i % 2 == 0 else plain for i in range(shards)]

    violations, incomplete = [], []
    reports, distinct = [], set()

    def collect(s, what):
        s.wait()
        rep = s.report()
        if rep:
            reports.append(rep)
            distinct.update(s.hashes())
        for v in rep.get("violations") or []:
            violations.append(v)
        v = s.crash()
        if v:
            if tier and not a.replay:
                v = shrink_crash(s.binary, test, work, v, {k: x for k, x in env.items()}, 60)
            violations.append(v)
        elif not rep.get("violations") and not rep.get("done"):
            incomplete.append("%s: exit %s timed_out=%s\n%s" % (what, s.p.returncode, s.timed_out, s.logtail()))

    if a.replay:
        f = os.path.abspath(a.replay)
        s = Shard(race, test, work, "replay", {**env, "VX_REPLAY": f, "VX_REPLAY_TRIES": "50"}, 300)
        collect(s, "replay")
    else:
        for i, f in enumerate(sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.json")))):
            s = Shard(race, test, work, "corpus%d" % i, {**env, "VX_REPLAY": f, "VX_REPLAY_TRIES": "3"}, 240)
            collect(s, "corpus " + f)
            if violations:
                break
        if not violations:
            ss = [Shard(binaries[i], test, work, "shard%d" % i, {**env, "VX_SHARD": str(i)}, budget * 3 + 240)
                  for i in range(shards)]
            for i, s in enumerate(ss):
                collect(s, "shard %d" % i)

    ev, nt, labels, per_sub, rules, samples = 0, len(distinct), {}, {}, {}, []
    for r in reports:
        ev += r.get("evaluations", 0)
        rules.update(r.get("rules") or {})
        for k, n in (r.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + n
        for k, (x, y) in (r.get("per_sub") or {}).items():
            p = per_sub.setdefault(k, [0, 0])
            p[0] += x
            p[1] += y
        for s in r.get("samples") or []:
            if sum(1 for q in samples if q["sub"] == s["sub"]) < 2:
                samples.append(s)

    known = load_known(prop)
    new, seen_known = [], []
    for v in violations:
        k = next(((s, w) for s, w in known if s and s in v["message"]), None)
        if k:
            seen_known.append(k)
        else:
            new.append(v)
    for sig, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": "; ".join("%s: %s" % (k, rules[k]) for k in sorted(rules)) or c["technique"],
            "samples": samples[:12],
            "per_check": {k: {"evaluations": x, "nontrivial": y} for k, (x, y) in sorted(per_sub.items())},
            "labels": dict(sorted(labels.items())),
            "shards": shards, "race_detector": "every other shard" if c.get("race") else False,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for v in new[:3]:
            blob = json.dumps({"property": prop, **v}, indent=1)
            path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                f.write(blob)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  check %s: %s" % (v["sub"], v["message"][:1500]))
            case = json.dumps(v["case"])
            print("  case: %s" % (case if len(case) < 3000 else case[:3000] + "..."))
        return 1
    if incomplete:
        print("NO-ANSWER: " + "\n".join(incomplete), file=sys.stderr)
        return 2
    if a.replay:
        print("replay held")
        return 0
    print("OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs" % (prop, tier, ev, nt, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Runs the checks.

  run.py check ID        decide property ID (VERIF_SEED, VERIF_TIER)
  run.py replay FILE     run one recorded violation again
  run.py setup           build every check once, to warm up the build cache

Exit status: 0 the property held, 1 it is broken (with a VIOLATION line),
2 the check itself could not give an answer.
"""
import base64
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import spec  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
SHARDS = {"quick": 4, "thorough": 8}
TIMEOUT = 820
# The local time zones of the processes: without daylight saving time, with it beginning at
# midnight, east of Greenwich with half an hour, and with daylight saving time of half an hour.
ZONES = ["Etc/GMT+5", "America/Sao_Paulo", "Asia/Kolkata", "Australia/Lord_Howe"]
# What the test binary exits with when it gives up on a case; see pbt.go.
ABORTS = {86: "does not terminate", 87: "allocates without bounds", 88: "never finishes"}


class CheckError(Exception):
    pass


def environment():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = env.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off",
               GOWORK="off", TZ=ZONES[0], LC_ALL="C.UTF-8")
    for name in list(env):
        if name.startswith("RAPID_") or name.startswith("PBT_") and name != "PBT_SCALE":
            del env[name]
    return env


def go(args, env):
    p = subprocess.run(["go"] + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise CheckError("go %s failed:\n%s" % (" ".join(args), p.stdout))


def build(prop, scratch, env):
    """Builds the check (and the tools it runs) from the current trees."""
    binary = os.path.join(scratch, "check.test")
    go(["test", "-c", "-vet=off", "-o", binary, "./" + prop["package"]], env)
    for name, path in prop.get("tools", {}).items():
        out = os.path.join(scratch, os.path.basename(path))
        go(["build", "-o", out, path], env)
        env[name] = out
    env["PBT_REPO"] = REPO
    return binary


def known_findings(pid):
    """{key: text} of the listed findings of a property."""
    found = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                found[m.group(2)] = m.group(3)
    return found


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))


def run_binary(binary, pattern, seed, scratch, name, env, extra=(), deadline=None, zone=ZONES[0]):
    """Runs the test binary in a directory of its own."""
    work = os.path.join(scratch, name)
    os.makedirs(work)
    env = dict(env, PBT_OUT=os.path.join(work, "stats.json"), TMPDIR=work, TZ=zone)
    cmd = [binary, "-test.run", pattern, "-test.timeout", "0", "-test.v",
           "-rapid.seed=%d" % seed, "-rapid.shrinktime=15s"] + list(extra)
    left = max(5, (deadline or time.time() + TIMEOUT) - time.time())
    try:
        p = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, text=True, errors="replace", timeout=left,
                           preexec_fn=limits)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    stats = {}
    try:
        with open(env["PBT_OUT"]) as f:
            stats = json.load(f)
    except (OSError, ValueError):
        pass
    fails = []
    base = os.path.join(work, "testdata", "rapid")
    for d, _, files in sorted(os.walk(base)):
        for f in sorted(files):
            with open(os.path.join(d, f), errors="replace") as fh:
                fails.append((os.path.relpath(d, base).split(os.sep)[0], fh.read()))
    shutil.rmtree(work, ignore_errors=True)
    return dict(rc=rc, out=out, stats=stats, fails=fails, seed=seed, zone=zone)


def fatal(r):
    """Whether this is the Go runtime giving up on the code under test."""
    return r["rc"] == 2 and re.search(r"^(fatal error|runtime: goroutine stack exceeds|panic)", r["out"], re.M) \
        and "out of memory" not in r["out"] and "cannot allocate" not in r["out"]


def running_test(out):
    m = re.findall(r"^=== RUN\s+(\S+)", out, re.M)
    return m[-1] if m else ""


def write_replay(pid, test, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, test.split("_", 1)[-1] or "all"))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")
    return path


def violation(pid, test, r, kind, failfile=None):
    rec = dict(property=pid, test=test, kind=kind, seed=r["seed"], zone=r["zone"], tier=os.environ.get("VERIF_TIER", "quick"),
               failfile=failfile, output=r["out"][-20000:])
    path = write_replay(pid, test, rec)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()


def tail_of(out, n=60):
    lines = [l for l in out.splitlines() if not re.match(r"\s*(=== RUN|--- PASS)", l) and "[rapid] OK" not in l]
    return "\n".join(lines[:n])


def judge(prop, r, binary, scratch, env, deadline, label):
    """Returns None if the run was fine, or reports the violation and returns True."""
    pid = prop["id"]
    if r["rc"] == 0:
        return None
    if r["rc"] == 1 and r["fails"]:
        test, failfile = r["fails"][0]
        print(tail_of(r["out"]))
        violation(pid, test, r, "failfile", failfile)
        return True
    if r["rc"] in ABORTS or fatal(r):
        # Make sure of it: the same seed again, without minimizing failures.
        test = running_test(r["out"])
        again = run_binary(binary, "^%s$" % test, r["seed"], scratch, label + "-again", env,
                           ["-rapid.shrinktime=0s"], deadline, r["zone"])
        if again["rc"] == 1 and again["fails"]:
            print(tail_of(again["out"]))
            violation(pid, again["fails"][0][0], again, "failfile", again["fails"][0][1])
            return True
        if again["rc"] == r["rc"] and (again["rc"] in ABORTS or fatal(again)):
            print(again["out"][-6000:])
            print("%s: %s" % (test, ABORTS.get(again["rc"], "the program died")))
            violation(pid, test, again, "seed")
            return True
        raise CheckError("a run ended with %s, but then with %s:\n%s\n%s" % (
            r["rc"], again["rc"], r["out"][-3000:], again["out"][-3000:]))
    raise CheckError("the test binary ended with %s:\n%s" % (r["rc"], r["out"][-6000:]))


def merge(runs):
    tests = {}
    for r in runs:
        for t in r["stats"].get("tests") or []:
            m = tests.setdefault(t["test"], dict(rule=t["rule"], evaluations=0, nontrivial=0, hashes=set(), labels={}, samples=[]))
            m["evaluations"] += t["evaluations"]
            m["nontrivial"] += t["nontrivial"]
            raw = base64.b64decode(t["hashes"] or "")
            m["hashes"].update(raw[i:i + 8] for i in range(0, len(raw), 8))
            for k, v in (t["labels"] or {}).items():
                m["labels"][k] = m["labels"].get(k, 0) + v
            m["samples"] += (t["samples"] or [])[:3]
    return tests


def write_evidence(prop, tier, seed, runs, wall, violations):
    tests = merge(runs)
    coverage = dict(
        evaluations=sum(t["evaluations"] for t in tests.values()),
        distinct_nontrivial=sum(len(t["hashes"]) for t in tests.values()),
        rule=" | ".join("%s: %s" % (n, t["rule"]) for n, t in sorted(tests.items())) or "no test finished",
        samples=[dict(test=n, case=s) for n, t in sorted(tests.items()) for s in t["samples"][:4]] or ["none"],
        per_test={n: dict(evaluations=t["evaluations"], nontrivial=t["nontrivial"],
                          distinct_nontrivial=len(t["hashes"]), classes=dict(sorted(t["labels"].items())))
                  for n, t in sorted(tests.items())},
        processes=len(runs))
    ev = dict(property=prop["id"], tier=tier, seed=seed, level=prop.get("level", "exploration"), coverage=coverage,
              assumptions=prop.get("assumptions", []), wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop["id"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return coverage


def check(pid):
    prop = spec.by_id(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SHARDS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    deadline = start + (TIMEOUT if tier == "quick" else 6 * 3600)
    scratch = tempfile.mkdtemp(prefix="disko-pbt-")
    try:
        env = environment()
        env["VERIF_TIER"] = tier
        findings = known_findings(pid)
        env["PBT_KNOWN"] = ",".join(sorted(findings))
        binary = build(prop, scratch, env)
        n = SHARDS[tier]
        # rapid takes 0 to mean "any seed".
        seeds = [((seed * 1000003 + i * 7919) % (1 << 62)) + 1 for i in range(n)]
        with ThreadPoolExecutor(n) as pool:
            runs = list(pool.map(lambda i: run_binary(
                binary, "^Test%s_" % pid, seeds[i], scratch, "run%d" % i, env, (), deadline,
                ZONES[i % len(ZONES)]), range(n)))
        broken = False
        for i, r in enumerate(runs):
            if judge(prop, r, binary, scratch, env, deadline, "run%d" % i):
                broken = True
                break
        cov = write_evidence(prop, tier, seed, runs, time.time() - start, int(broken))
        if broken:
            return 1
        if cov["distinct_nontrivial"] == 0:
            raise CheckError("no non-trivial case was generated")
        seen = {k for r in runs for k in r["stats"].get("known") or []}
        for key, text in sorted(findings.items()):
            if key in seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
        print("%s held on %d cases (%d distinct and non-trivial) in %.1f s" % (
            pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - start))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = spec.by_id(rec["property"])
    scratch = tempfile.mkdtemp(prefix="disko-pbt-")
    try:
        env = environment()
        env["VERIF_TIER"] = rec["tier"]
        env["PBT_KNOWN"] = ",".join(sorted(known_findings(prop["id"])))
        binary = build(prop, scratch, env)
        extra = ["-rapid.nofailfile"]
        if rec["kind"] == "failfile":
            ff = os.path.join(scratch, "case.fail")
            with open(ff, "w") as f:
                f.write(rec["failfile"])
            env["PBT_SCALE"] = "0"  # only the recorded case counts
            extra.append("-rapid.failfile=" + ff)
        r = run_binary(binary, "^%s$" % rec["test"], rec["seed"], scratch, "replay", env, extra,
                       zone=rec.get("zone", ZONES[0]))
        print(r["out"][-20000:])
        if r["rc"] == 0:
            print("the recorded case passes")
            return 0
        if r["rc"] == 1 or r["rc"] in ABORTS or fatal(r):
            print("VIOLATION property=%s replay=%s" % (prop["id"], os.path.abspath(path)))
            return 1
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    env = environment()
    scratch = tempfile.mkdtemp(prefix="disko-pbt-")
    try:
        for pkg in sorted({p["package"] for p in spec.PROPERTIES if p.get("package")}):
            go(["test", "-c", "-vet=off", "-o", os.path.join(scratch, pkg + ".test"), "./" + pkg], env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    try:
        if sys.argv[1:2] == ["check"] and len(sys.argv) == 3:
            return check(sys.argv[2])
        if sys.argv[1:2] == ["replay"] and len(sys.argv) == 3:
            return replay(sys.argv[2])
        if sys.argv[1:] == ["setup"]:
            return setup()
    except CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 2
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main())

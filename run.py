#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py <ID>

Builds the monitors against /repo's current working tree in a scratch
directory, runs them and turns what they observed into an exit status:
0 held, 1 violated (with a VIOLATION line), 2 no verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
EVID = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known-findings.txt")

with open(os.path.join(VERIF, "checks.json")) as f:
    CHECKS = json.load(f)


def env_go():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GOFLAGS="-mod=mod", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    for k in ("QDR_ENDPOINT", "GODEBUG", "GOEXPERIMENT"):
        e.pop(k, None)
    return e


def fail(msg):
    print(msg, flush=True)
    sys.exit(2)


def build(tmp, cfg):
    """Builds everything the check runs. Returns the paths by name."""
    env = env_go()
    procs, out = [], {}
    src = os.path.join(tmp, "src")

    def go(name, args, cwd):
        out[name] = os.path.join(tmp, name)
        procs.append((name, subprocess.Popen(
            ["go"] + args[:1] + (["-c"] if args[0] == "test" else []) + ["-o", out[name]] + args[1:],
            cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))

    # a copy, so that -mod=mod cannot touch committed files
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    gomod = os.path.join(src, "go.mod")
    with open(gomod) as f:
        s = f.read()
    with open(gomod, "w") as f:
        f.write(s.replace("=> /repo", "=> " + REPO))
    race = ["-race"] if cfg.get("race") else []
    go("check.test", ["test"] + race + ["-vet=off", "./" + cfg["pkg"]], src)
    for tool in cfg.get("tools", []):
        if tool == "vanflow-tool":
            mod = os.path.join(tmp, "tool.mod")
            shutil.copy(os.path.join(REPO, "go.mod"), mod)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "tool.sum"))
            trace = ["-race"] if cfg.get("toolrace") else []
            go("vanflow-tool", ["build", "-modfile=" + mod] + trace + ["./cmd/vanflow-tool"], REPO)
        elif tool == "vancap":
            mod = os.path.join(tmp, "cap.mod")
            shutil.copy(os.path.join(REPO, "vancap/go.mod"), mod)
            shutil.copy(os.path.join(REPO, "vancap/go.sum"), os.path.join(tmp, "cap.sum"))
            trace = ["-race"] if cfg.get("toolrace") else []
            go("vancap", ["build", "-modfile=" + mod] + trace + ["."], os.path.join(REPO, "vancap"))
    bad = False
    for name, p in procs:
        o = p.communicate()[0]
        if p.returncode != 0:
            bad = True
            print("build of %s failed:\n%s" % (name, o.decode(errors="replace")), flush=True)
    if bad:
        fail("INCONCLUSIVE: build failed")
    return out


def setup():
    """Builds every check once, to see that all of it builds offline."""
    pkgs = sorted({(c["pkg"], bool(c.get("race"))) for c in CHECKS.values()})
    tools = sorted({t for c in CHECKS.values() for t in c.get("tools", [])})
    for i, (pkg, race) in enumerate(pkgs):
        tmp = tempfile.mkdtemp(prefix="vf-setup-")
        try:
            build(tmp, {"pkg": pkg, "race": race, "tools": tools if i == 0 else []})
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print("built", len(pkgs), "check packages")
    sys.exit(0)


RACE = re.compile(r"WARNING: DATA RACE\n(.*?)\n={18}", re.S)


def norm_race(block):
    """The stack pair without addresses and line numbers."""
    fr = re.findall(r"^  (\S+\(.*?\))$", block, re.M)
    return "|".join(f for f in fr if "vanflow" in f)[:600]


def main():
    if sys.argv[1:] == ["setup"]:
        setup()
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        fail("usage: run.py ID; known: " + " ".join(sorted(CHECKS)))
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    evfile = os.path.join(EVID, pid + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    status = 2
    try:
        status = run(pid, cfg, tier, seed, tmp, evfile, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(status)


def run(pid, cfg, tier, seed, tmp, evfile, t0):
    bins = build(tmp, cfg)
    limit = 840 - (time.time() - t0) if tier != "thorough" else 4 * 3600
    env = env_go()
    work = os.path.join(tmp, "work")
    os.makedirs(work)
    env.update(VERIF_SEED=seed, VERIF_TIER=tier, VF_EVIDENCE=EVID, VF_KNOWN=KNOWN,
               VF_WORK=work, VF_BIN=tmp, VF_REPO=REPO, TMPDIR=work,
               GOTRACEBACK="all",
               GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=%s/race" % tmp)
    logp = os.path.join(tmp, "log")
    with open(logp, "wb") as log:
        p = subprocess.Popen([bins["check.test"], "-test.run", "^Test%s$" % pid,
                              "-test.timeout", "0", "-test.count", "1"],
                             cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        timedout = False
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            timedout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        rc = p.wait()
    with open(logp, errors="replace") as f:
        log = f.read()

    def report(kind, detail, key=""):
        path = os.path.join(EVID, "replay", pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": int(seed), "tier": tier, "kind": kind,
                       "witness": detail[:200000],
                       "replay": "cd /verif && VERIF_SEED=%s VERIF_TIER=%s python3 run.py %s" % (seed, tier, pid)},
                      f, indent=1)
        if not os.path.exists(evfile):
            write_fallback(pid, tier, seed, evfile, t0, kind)
        print(kind + "\n" + detail[:6000])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1

    m = re.search(r"^VIOLATION property=%s replay=\S+$" % pid, log, re.M)
    shown = [l for l in log.splitlines()
             if re.match(r"(HELD|INCONCLUSIVE|KNOWN-FINDING|VIOLATION|case )", l)]
    if m:
        i = log.rfind("\ncase ", 0, m.start())
        i = log.rfind("case ", 0, m.start()) if i < 0 else i
        print(log[i:m.end()].strip()[-8000:], flush=True)
        if not os.path.exists(evfile):
            write_fallback(pid, tier, seed, evfile, t0, "violation")
        return 1

    # data races seen by the race detector, in the check's process or in a tool's
    races = {}
    for name in sorted(os.listdir(tmp)):
        if name.startswith("race"):
            with open(os.path.join(tmp, name), errors="replace") as f:
                for b in RACE.findall(f.read()):
                    if "github.com/c-kruse/vanflow" in b or "cmd/vanflow-tool" in b or "\n  main." in b:
                        races.setdefault(norm_race(b), b)
    if races:
        return report("%d distinct data races" % len(races), "\n\n".join(races.values()))

    # a crash inside, or because of, the code under test
    c = re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV)", log, re.M)
    if rc != 0 and c and not timedout:
        tail = log[max(0, c.start() - 500):]
        g = re.search(r"^goroutine \d+ .*?(?=\n\n|\Z)", log[c.start():], re.M | re.S)
        who = g.group(0) if g else ""
        if re.search(r"deadlock|all goroutines are asleep|blocked goroutines", log[c.start():c.start() + 300]):
            who = tail
        if "github.com/c-kruse/vanflow" in who:
            return report("crash of the process", tail)
        print(tail[:8000])
        return 2
    if timedout:
        print(log[-4000:])
        print("INCONCLUSIVE property=%s: timed out" % pid)
        return 2
    for l in shown:
        print(l[:2000])
    if rc != 0 or not os.path.exists(evfile) or "HELD property=%s" % pid not in log:
        if not shown:
            print(log[-6000:])
        print("no verdict (rc=%s)" % rc)
        return 2
    sys.stdout.flush()
    return 0


def write_fallback(pid, tier, seed, evfile, t0, what):
    with open(evfile, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
                   "coverage": {"evaluations": 0, "distinct_nontrivial": 0,
                                "rule": "the run ended early: " + what, "samples": []},
                   "wall_s": time.time() - t0, "violations": 1}, f, indent=1)


main()

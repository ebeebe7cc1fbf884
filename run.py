#!/usr/bin/env python3
"""Runs one check: builds the harness against /repo's working tree, runs it, judges how it ended.

usage: run.py ID      exit 0 held, 1 VIOLATION, 2 the check itself could not run
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
# id -> (package, build options, run time limit quick/thorough in s)
CHECKS = {}
def chk(ids, pkg, race=False, asan=False, level="exploration", vlimit=None, prog=None, limit=(600, 7200)):
    for i in ids.split():
        CHECKS[i] = dict(pkg=pkg, race=race, asan=asan, level=level, vlimit=vlimit, limit=limit)
chk("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12", "cachechk")
chk("C11", "racechk", race=True)
chk("R01 R03", "redischk")
chk("R02 R05 R06 R07 R08", "redischk", level="fault_enumeration")
chk("R04", "redischk", race=True)
chk("D01 D03 D04 D05 D06 D07", "decchk")
chk("D02", "decchk", asan=True)
chk("D08", "decchk", level="fault_enumeration")
chk("X01 X02 X04 X06 X09 X10 X11", "replchk")
chk("X03", "replchk", race=True, level="fault_enumeration")
chk("X08", "isochk", race=True)
chk("X05 X07", "replchk", level="fault_enumeration")

def goenv():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    e = dict(x.split("=", 1) for x in out.decode("utf8", "replace").split("\0") if "=" in x)
    e["GOFLAGS"] = "-mod=mod"
    e["GOTOOLCHAIN"] = "local"
    e["GOPROXY"] = "off"
    e["GOWORK"] = "off"
    e["CGO_ENABLED"] = "1"
    return e

def die(msg):
    print(msg)
    sys.exit(2)

def build(env, tmp, c):
    mod = os.path.join(tmp, "go.mod")
    with open(os.path.join(VERIF, "harness/go.mod")) as f:
        open(mod, "w").write(f.read())
    shutil.copy(os.path.join(VERIF, "harness/go.sum"), os.path.join(tmp, "go.sum"))
    exe = os.path.join(tmp, "check.test")
    log = ""
    for tags in (["-tags", "verif"], []):
        cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + mod, "-o", exe] + tags
        if c["race"]:
            cmd.append("-race")
        if c["asan"]:
            cmd.append("-asan")
        p = subprocess.run(cmd + ["./" + c["pkg"]], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
        if p.returncode == 0 and os.path.exists(exe):
            return exe, bool(tags)
        log += p.stdout + p.stderr
        # a hook that no longer fits the tree: observe without it
    die("the harness does not build against /repo:\n" + log)

def report(prop, what, detail, env):
    d = env["VERIF_REPLAYS"]
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-seed%s.json" % (prop, env["VERIF_TIER"], env["VERIF_SEED"]))
    json.dump(dict(property=prop, seed=env["VERIF_SEED"], tier=env["VERIF_TIER"], what=what, detail=detail,
                   rerun="VERIF_SEED=%s VERIF_TIER=%s python3 /verif/run.py %s" % (env["VERIF_SEED"], env["VERIF_TIER"], prop)),
              open(path, "w"), indent=1)
    ev = os.path.join(env["VERIF_EVIDENCE"], prop + ".json")
    os.makedirs(env["VERIF_EVIDENCE"], exist_ok=True)
    if not os.path.exists(ev) or os.path.getmtime(ev) < START:
        json.dump(dict(property=prop, tier=env["VERIF_TIER"], seed=int(env["VERIF_SEED"]), level=env["VERIF_LEVEL"],
                       coverage=dict(evaluations=1, distinct_nontrivial=0, rule="the run ended abnormally: " + what, samples=[what]),
                       wall_s=round(time.time() - START, 3), violations=1), open(ev, "w"), indent=1)
    print(what)
    print(detail[-4000:])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.exit(1)

START = time.time()

def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        die("usage: run.py ID, one of " + " ".join(CHECKS))
    prop = sys.argv[1]
    c = CHECKS[prop]
    env = goenv()
    tier = os.environ.get("VERIF_TIER", "quick")
    env["VERIF_TIER"] = tier if tier in ("quick", "thorough") else "quick"
    env["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1") or "1"
    env["VERIF_PROP"] = prop
    env["VERIF_LEVEL"] = c["level"]
    env["VERIF_EVIDENCE"] = os.path.join(VERIF, "evidence")
    env["VERIF_REPLAYS"] = os.path.join(VERIF, "replays")
    env["VERIF_REPO"] = REPO
    env["VERIF_HARNESS"] = os.path.join(VERIF, "harness")
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        exe, hooked = build(env, tmp, c)
        env["VERIF_HOOKED"] = "1" if hooked else ""
        env["VERIF_TMP"] = os.path.join(tmp, "work")
        env["VERIF_PROGRESS"] = os.path.join(tmp, "progress")
        os.mkdir(env["VERIF_TMP"])
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=67:abort_on_error=0"
        env["GOTRACEBACK"] = "single"
        outp = os.path.join(tmp, "out")
        limit = c["limit"][1 if tier == "thorough" else 0]
        with open(outp, "wb") as out:
            p = subprocess.Popen([exe, "-test.run", "^TestCheck$", "-test.timeout", "0"], cwd=env["VERIF_TMP"], env=env,
                                 stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
            timed_out = False
            try:
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                timed_out = True
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        text = open(outp, "rb").read().decode("utf8", "replace")
        try:
            current = open(env["VERIF_PROGRESS"], "rb").read().decode("utf8", "replace")
        except OSError:
            current = ""
        sys.stdout.write(text[-6000:])
        if re.search(r"^VIOLATION property=%s " % prop, text, re.M) and rc == 1:
            sys.exit(1)
        if rc == 0 and re.search(r"^HELD property=%s " % prop, text, re.M):
            sys.exit(0)
        if not current:
            die("the harness did not start (exit %s)" % rc)
        if timed_out:
            # every step has a watchdog of its own that reports a hang; this is only slow
            die("the check ran out of time at: " + current)
        if rc == 66 or "WARNING: DATA RACE" in text:
            i = text.find("WARNING: DATA RACE")
            # the two accesses, not where the goroutines came from
            if "liujiangwei/xxcache" in re.split(r"^Goroutine \d+ ", text[i:], maxsplit=1, flags=re.M)[0]:
                report(prop, "data race", current + "\n" + text[i:i + 12000], env)
        if rc == 67 or "ERROR: AddressSanitizer" in text:
            i = text.find("ERROR: AddressSanitizer")
            report(prop, "sanitizer report", current + "\n" + text[i:i + 12000], env)
        m = re.search(r"^(panic: |fatal error: |runtime: goroutine stack exceeds)", text, re.M)
        if m:
            trace = text[m.start():]
            first = trace.split("\n\n")
            blame = "\n\n".join(first[:3])
            if "liujiangwei/xxcache" in blame or trace.startswith("fatal error: concurrent map") or "goroutine stack exceeds" in trace[:300]:
                report(prop, "crash: " + trace.split("\n")[0], current + "\n" + trace[:12000], env)
            die("the harness crashed")
        if rc is not None and rc < 0:
            # killed by a signal: a crash in native code, or out of memory
            report(prop, "the process was ended by signal %d" % -rc, current + "\n" + text[-4000:], env)
        if rc in (1, 2) and "--- FAIL" not in text:
            # os.Exit somewhere below (log.Fatal)
            report(prop, "the code under test ended the process (exit status %d)" % rc, current + "\n" + text[-4000:], env)
        die("the check ended with %s and no verdict" % rc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    main()

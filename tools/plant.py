#!/usr/bin/env python3
"""Planted bugs: make a patch, confirm it in a scratch copy, run the checks on it.

  plant.py confirm [ID...]      builds, stable tests, demo without and with the patch
  plant.py catch [--props C01,C02] [ID...]   which checks report it (in /repo, undone after)
"""
import json, os, re, shutil, subprocess, sys, time
BASE = "274025a"
SEED = "/verif/seeded"
SCR = "/tmp/plant/repo"
ENV = dict(os.environ)


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    if not os.path.isdir(SCR):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .", SCR)


def original_lines(patch):
    """Removed lines of the patch must be lines of the original repository."""
    bad, n, f, ln = [], 0, None, 0
    blame = {}
    for l in open(patch).read().split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
            out = sh(f"git blame -s {BASE}^..HEAD -- {f} || git blame -s -- {f}", "/repo")[1]
            out = sh(f"git blame -s -- {f}", "/repo")[1]
            blame[f] = [x.split()[0] for x in out.rstrip("\n").split("\n")]
        elif l.startswith("+++"):
            pass
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif f and l.startswith("-"):
            n += 1
            c = blame[f][ln]
            mine = sh(f"git merge-base --is-ancestor {c.lstrip('^')} {BASE}", "/repo")[0] != 0
            if mine:
                bad.append((f, ln + 1))
            ln += 1
        elif f and l.startswith(" "):
            ln += 1
    return n, bad


def tests(cwd):
    env = dict(ENV)
    cmd = f""". /opt/vp/env.sh; export CARGO_TARGET_DIR={cwd}/target
logs={cwd}/target/vp-logs; rm -rf $logs; mkdir -p $logs
timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > $logs/default.log 2>&1
timeout 200 cargo test --workspace --no-fail-fast --offline --lib --features lz_pure -- --test-threads 8 compression::lz_pure:: > $logs/lz_pure.log 2>&1
python3 /opt/vp/results.py {cwd}/target/out.json "cargo:$logs/*.log" """
    sh(cmd, cwd, env)
    got = json.load(open(f"{cwd}/target/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return got, base


def passed(got, base):
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "stable", "tests", "pass"):
                if k in x:
                    return names(x[k])
            return {k for k, v in x.items() if v in ("passed", "pass", True, "ok")}
        return set(x)
    return names(base) - names(got)


def demo(d, cwd):
    t = time.time()
    env = dict(ENV)
    tmp = f"/tmp/plant/demo-{os.path.basename(d)}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for n in os.listdir(d):
        if not n.endswith((".diff", ".patch")) and n != "meta.json":
            shutil.copy(os.path.join(d, n), tmp)
    try:
        rc, out = sh(f"bash {tmp}/demo.sh", cwd, env, 300)
    except subprocess.TimeoutExpired:
        rc, out = -9, "timeout"
    shutil.rmtree(tmp, ignore_errors=True)
    return rc, out, time.time() - t


def confirm(i):
    d = f"{SEED}/{i}"
    scratch()
    n, bad = original_lines(f"{d}/patch.diff")
    msgs = []
    if n == 0 or bad:
        msgs.append(f"removed lines {n}, not original {bad}")
    rc, out, t = demo(d, SCR)
    if rc != 0:
        msgs.append(f"demo on clean tree: {rc}\n{out[-1500:]}")
    rc, o = sh(f"git apply {d}/patch.diff", SCR)
    if rc:
        return [f"does not apply {o}"]
    try:
        got, base = tests(SCR)
        miss = passed(got, base)
        if miss:
            msgs.append(f"tests fail: {sorted(miss)[:8]} of {len(miss)}")
            log = open(f"{SCR}/target/vp-logs/default.log").read()
            m = re.search(r"^error.*?(?=\n\n)", log, re.S | re.M)
            if m: msgs.append(m.group(0)[:1500])
        rc, out, t2 = demo(d, SCR)
        if rc == 0:
            msgs.append("demo passes with the bug\n" + out[-800:])
        elif "error: could not compile" in out:
            msgs.append("demo does not compile\n" + out[-1500:])
        else:
            print(f"   demo with bug: rc {rc}: " + " | ".join(out.strip().split("\n")[-3:])[-300:])
    finally:
        sh("git checkout -q -- .", SCR)
    print(f"   {t:.0f}s/{t2:.0f}s demo")
    return msgs


def catch(i, props):
    d = f"{SEED}/{i}"
    own = json.load(open(f"{d}/meta.json"))["property"]
    man = json.load(open("/verif/MANIFEST.json"))
    checks = {}
    for c in man["checks"]:
        checks[c["property"]] = c
    assert sh("git status --porcelain", "/repo")[1].strip() == "", "repo dirty"
    rc, o = sh(f"git apply {d}/patch.diff", "/repo")
    if rc:
        return print("does not apply", o)
    try:
        for p in props or [own]:
            c = checks[p]
            cmd = c["quick_cmd"]
            if isinstance(cmd, dict):
                cmd = cmd["cmd"]
            t = time.time()
            env = dict(ENV, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            try:
                rc, out = sh(cmd, "/verif", env, 900)
            except subprocess.TimeoutExpired:
                rc, out = -9, ""
            v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
            tag = "CAUGHT" if rc == 1 and any(f"property={p} " in l for l in v) else ("quiet" if rc == 0 else f"rc={rc}")
            print(f"   {i} by {p}: {tag} {time.time()-t:.0f}s {'(own)' if p == own else ''} {' '.join(v)[:120]}", flush=True)
            if rc not in (0, 1):
                print(out[-1500:])
    finally:
        sh("git checkout -q -- .", "/repo")


def main():
    a = sys.argv[1:]
    mode = a.pop(0)
    props = None
    if a and a[0] == "--props":
        a.pop(0)
        props = a.pop(0)
        props = [f"C{k:02}" for k in range(1, 26)] if props == "all" else props.split(",")
    ids = a or sorted(os.listdir(SEED))
    for i in ids:
        print(i, flush=True)
        if mode == "confirm":
            m = confirm(i)
            print("   OK" if not m else "   BAD " + "\n       ".join(m), flush=True)
        else:
            catch(i, props)


main()

#!/usr/bin/env python3
"""Run the monitors of one property: run.py <property> [--tier T] [--seed N] [--replay FILE]

Exit 0: held on everything observed. Exit 1: a VIOLATION line. Anything else: no verdict.
"""

import fcntl
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
HOST = "x86_64-unknown-linux-gnu"
SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
# CPU seconds a single case may take, far beyond any case of the unchanged tree.
HANG_CPU = 60
# Seconds without CPU use and with all threads asleep that count as blocked.
HANG_SLEEP = 45


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def fail(message, code=2):
    log("error:", message)
    sys.exit(code)


def environment():
    env = dict(os.environ)
    env.update(
        HOME="/root",
        CARGO_HOME="/root/.cargo",
        RUSTUP_HOME="/root/.rustup",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_TERM_COLOR="never",
        CARGO_NET_OFFLINE="true",
        RUST_BACKTRACE="0",
        ZV_CODECS=os.path.join(VERIF, "py", "codecs.py"),
    )
    env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    return env


# Builds of the harness with the library's current source.
VARIANTS = {
    "native": dict(features="native", dir="t"),
    "pure": dict(features="pure", dir="pure"),
    # AddressSanitizer in Rust code and in the C codecs that are built from source.
    "asan": dict(features="native,plain", dir="asan", asan=True),
    "asan_pure": dict(features="pure,plain", dir="asan_pure", asan=True),
    "purest": dict(features="purest", dir="purest"),
    "miri": dict(features="purest,plain", dir="miri", miri=True),
}


def build(variant, env):
    """Build a variant and return its command."""
    v = VARIANTS[variant]
    target = os.path.join(BUILD, v["dir"])
    os.makedirs(target, exist_ok=True)
    env = dict(env, CARGO_TARGET_DIR=target)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
           "--no-default-features", "--features", v["features"]]
    out = os.path.join(target, "debug", "zv")
    if v.get("miri"):
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        cmd = ["cargo", "miri", "run", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
               "--no-default-features", "--features", v["features"], "--"]
        return cmd, env
    if v.get("asan"):
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
        env["CC"] = "clang"
        env["CFLAGS"] = "-fsanitize=address -fno-omit-frame-pointer -g1"
        env["CRATE_CC_NO_DEFAULTS"] = ""
        cmd += ["--target", HOST]
        out = os.path.join(target, HOST, "debug", "zv")
    with open(os.path.join(target, ".zv-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            fail("building the harness (%s) failed:\n%s" % (variant, r.stdout[-6000:]))
    return [out], env


def cpu_ticks(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return sum(int(x) for x in s[11:15])
    except (OSError, IndexError):
        return 0


def children(pid):
    try:
        with open("/proc/%d/task/%d/children" % (pid, pid)) as f:
            return [int(x) for x in f.read().split()]
    except OSError:
        return []


def all_asleep(pid):
    """Whether all threads of a process and its children are sleeping."""
    try:
        for p in [pid] + children(pid):
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/stat" % (p, t)) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] != "S":
                        return False
        return True
    except (OSError, IndexError):
        return False


class Shard:
    def __init__(self, cmd, env, scratch, label, limits=True):
        self.cmd, self.env, self.scratch, self.label = cmd, env, scratch, label
        os.makedirs(scratch, exist_ok=True)
        self.out = os.path.join(scratch, "report.json")
        self.err = open(os.path.join(scratch, "stderr"), "wb")
        self.progress = os.path.join(scratch, "progress")
        self.limits = limits
        self.verdict = None
        self.index = None
        self.index_ticks = 0
        self.ticks = 0
        self.active = time.monotonic()
        self.proc = subprocess.Popen(cmd + ["--scratch", scratch, "--out", self.out], env=env,
                                     stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def current(self):
        try:
            with open(self.progress) as f:
                return int(f.read())
        except (OSError, ValueError):
            return None

    def poll(self):
        """Whether the shard is done."""
        if self.proc.poll() is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            return True
        now = time.monotonic()
        pid = self.proc.pid
        t = cpu_ticks(pid) + sum(cpu_ticks(c) for c in children(pid))
        i = self.current()
        if i != self.index:
            self.index, self.index_ticks, self.ticks, self.active = i, t, t, now
            return False
        if t > self.ticks + 1 or not all_asleep(pid):
            self.ticks, self.active = t, now
        if not self.limits or i is None:
            return False
        hz = os.sysconf("SC_CLK_TCK")
        if (t - self.index_ticks) / hz > HANG_CPU:
            self.verdict = "does not terminate: one case used more than %d seconds of CPU time" % HANG_CPU
        elif now - self.active > HANG_SLEEP:
            self.verdict = "blocks: all threads of the case were asleep for %d seconds" % HANG_SLEEP
        if self.verdict:
            self.kill()
            return True
        return False

    def stderr(self):
        self.err.flush()
        with open(self.err.name, "rb") as f:
            return f.read().decode(errors="replace")


def merge(total, rep):
    total["evaluations"] += rep["evaluations"]
    total["distinct"].update(rep["distinct"])
    for k, n in rep["counters"].items():
        if k == "ms":
            continue
        total["counters"][k] = total["counters"].get(k, 0) + n
    for k, v in rep["sets"].items():
        total["sets"].setdefault(k, set()).update(v)
    total["samples"] += rep["samples"]
    total["violations"] += rep["violations"]
    for k in rep["known"]:
        e = total["known"].setdefault(k["id"], [0, k["message"]])
        e[0] += k["count"]
    total["inconclusive"] += rep["inconclusive"]


def scratch_base():
    shm = "/dev/shm"
    try:
        s = os.statvfs(shm)
        if os.access(shm, os.W_OK) and s.f_bavail * s.f_frsize > 2 << 30:
            return shm
    except OSError:
        pass
    return None


def run_shards(total, shards, deadline):
    """Wait for shards; merge their reports."""
    pending = list(shards)
    while pending:
        for s in list(pending):
            if s.poll():
                pending.remove(s)
                finish(total, s)
        if pending and time.monotonic() > deadline:
            for s in pending:
                s.kill()
                total["errors"].append("%s did not finish in time (case %s)" % (s.label, s.index))
            break
        time.sleep(0.05)


def died(total, s, message):
    i = s.current()
    total["violations"].append({
        "message": message,
        "case": {"property": total["property"], "seed": total["seed"], "index": i, "build": s.label},
        "output": s.stderr()[-3000:],
    })


def finish(total, s):
    rc = s.proc.returncode
    total["builds"].add(s.label)
    if s.verdict:
        died(total, s, "the case " + s.verdict)
        return
    err = s.stderr()
    asan = "ERROR: AddressSanitizer" in err or "ERROR: LeakSanitizer" in err
    if asan and "out of memory" not in err and "allocation-size-too-big" not in err:
        line = next((x for x in err.splitlines() if "Sanitizer" in x), "")
        died(total, s, "AddressSanitizer: " + line)
        return
    if "Undefined Behavior" in err and "miri" in s.label:
        line = next((x for x in err.splitlines() if "Undefined Behavior" in x), "")
        died(total, s, "Miri: " + line)
        return
    if rc < 0 and -rc in SIGNALS:
        died(total, s, "the process died of signal %d (%s)" % (-rc, signal.Signals(-rc).name))
        return
    if rc != 0:
        total["errors"].append("%s exited with status %d: %s" % (s.label, rc, err[-2000:]))
        return
    try:
        with open(s.out) as f:
            rep = json.load(f)
    except (OSError, ValueError) as e:
        total["errors"].append("%s left no report: %s" % (s.label, e))
        return
    for v in rep["violations"]:
        v["case"]["build"] = s.label
    merge(total, rep)


def known_findings(prop):
    found = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            # <id> property=<id> <what fails>; "fixed:" lines suppress nothing.
            if not line.strip() or line.startswith("#") or line.startswith("fixed:"):
                continue
            ident, p, text = line.rstrip("\n").split(" ", 2)
            if p == "property=" + prop:
                found[ident] = text
    return found


def main():
    args = sys.argv[1:]
    if not args or args[0] not in CHECKS:
        fail("usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]")
    prop = args[0]
    check = CHECKS[prop]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default

    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    env = environment()
    start = time.monotonic()
    total = dict(property=prop, seed=seed, evaluations=0, distinct=set(), counters={}, sets={}, samples=[],
                 violations=[], known={}, inconclusive=[], errors=[], builds=set())
    replay = None
    if "--replay" in args:
        with open(opt("--replay", None)) as f:
            replay = json.load(f)
        seed = replay["case"]["seed"]

    stages = check.get(tier, check["quick"])
    commands = {v: build(v, env) for v in dict.fromkeys(s["build"] for s in stages)}
    built = time.monotonic() - start
    scratch = tempfile.mkdtemp(prefix="zv-%s-" % prop, dir=scratch_base())
    exchange = os.path.join(scratch, "exchange")
    os.mkdir(exchange)

    def interrupted(signum, frame):
        raise SystemExit(3)

    signal.signal(signal.SIGTERM, interrupted)
    shards = []
    try:
        # Stages with the same number run at the same time.
        for group in sorted({s.get("group", 0) for s in stages}):
            shards = []
            for n, st in enumerate(stages):
                if st.get("group", 0) != group:
                    continue
                cmd, benv = commands[st["build"]]
                k = st.get("shards", 8)
                if replay:
                    # The stages of an exchange need each other.
                    if "stage" not in st and replay["case"].get("build", st["build"]) != st["build"]:
                        continue
                    k = 1
                for i in range(k):
                    c = cmd + [prop, "--tier", tier, "--seed", str(seed), "--shard", str(i), "--shards", str(k), "--exchange", exchange]
                    for o in ("count", "secs", "stage"):
                        if o in st:
                            c += ["--" + o, str(st[o])]
                    if replay:
                        c += ["--only", str(replay["case"]["index"]), "-v"]
                    shards.append(Shard(c, benv, os.path.join(scratch, "%d-%d" % (n, i)), st["build"], limits=st["build"] != "miri"))
            limit = st.get("limit", 700 if tier == "quick" else 3600)
            run_shards(total, shards, time.monotonic() + limit)
        if replay:
            log(*[s.stderr() for s in shards])
    finally:
        for s in shards:
            if s.proc.poll() is None:
                s.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(prop)
    for ident in list(total["known"]):
        if ident not in known:
            n, message = total["known"].pop(ident)
            total["violations"].append({"message": message, "case": {"property": prop, "seed": seed}})

    # What must have been observed for the run to mean anything.
    missing = [k for k in check.get("observe", []) if not (total["counters"].get(k) or total["sets"].get(k))]
    if not replay:
        if total["evaluations"] == 0:
            missing.append("evaluations")
        if missing and not total["violations"]:
            total["errors"].append("not observed: " + ", ".join(missing))
        coverage = {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": len(total["distinct"]),
            "rule": check["rule"],
            "samples": total["samples"][:8],
            "builds": sorted(total["builds"]),
            "observed": total["counters"],
            "distinct_seen": {k: len(v) for k, v in total["sets"].items()},
        }
        if total["inconclusive"]:
            coverage["inconclusive"] = total["inconclusive"][:20]
        if total["errors"]:
            coverage["errors"] = [e[:500] for e in total["errors"]]
        if total["known"]:
            coverage["known_findings_seen"] = {k: n for k, (n, _) in total["known"].items()}
        evidence = {
            "property": prop,
            "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed,
            "level": check["level"],
            "coverage": coverage,
            "assumptions": check.get("assumptions", []),
            "wall_s": round(time.monotonic() - start, 2),
            "violations": len(total["violations"]),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
        os.replace(path + ".tmp", path)

    log("%s: %d evaluations, %d distinct cases, built in %.1f s, %.1f s in all" % (
        prop, total["evaluations"], len(total["distinct"]), built, time.monotonic() - start))
    # A finding is listed by what fails, whether or not this run met it.
    for ident, text in known.items():
        seen = total["known"].get(ident, (0, ""))[0]
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, text, seen))
    if total["violations"]:
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        for n, v in enumerate(total["violations"][:10]):
            p = os.path.join(out, "%s-%d.json" % (prop, n))
            with open(p, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            log("  " + v["message"][:600])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    if total["errors"]:
        for e in total["errors"]:
            log("error:", e)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()

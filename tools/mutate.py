#!/usr/bin/env python3
"""Small changes at every place of the library's source: which do the checks miss?

  mutate.py list                   print the changes
  mutate.py run WORKERS OUT [FILTER]   try them in scratch copies under /tmp/mut
  mutate.py custom WORKERS OUT FILE    try the changes listed in FILE (Python: BUGS = [(property, name, [(file, old,
                                       new), ...]), ...]) against the check of their property, in all its builds

A change counts if it builds and passes the stable tests. Results go to OUT, one JSON line each.
"""
import json, os, re, shutil, subprocess, sys, time
from multiprocessing import Process, Queue

ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
FILES = ["src/chunk.rs", "src/data_type.rs", "src/lib.rs", "src/ndarray.rs", "src/storage.rs",
         "src/compression/bzip.rs", "src/compression/gzip.rs", "src/compression/lz.rs", "src/compression/lz_pure.rs",
         "src/compression/mod.rs", "src/compression/raw.rs", "src/compression/xz.rs", "src/store/filesystem.rs"]
FIRST = {
    "src/chunk.rs": "C01 C02 C15 C18 C16 C20 C05",
    "src/data_type.rs": "C05 C08 C20 C09 C02 C01",
    "src/lib.rs": "C06 C07 C08 C03 C09 C10 C13 C04",
    "src/ndarray.rs": "C04 C07 C15 C16 C20 C06 C05",
    "src/storage.rs": "C11 C15 C12 C14 C16 C10 C09 C22 C13 C03 C01",
    "src/compression": "C02 C23 C01 C08 C18 C16",
    "src/store/filesystem.rs": "C22 C13 C21 C12 C16 C17 C19 C14 C11",
}
ALL = ["C%02d" % i for i in range(1, 26)]

SUBST = [
    (r"==", ["!="]), (r"!=", ["=="]), (r"(?<=[\w)\]] )<(?= )", ["<=", ">="]), (r"(?<=[\w)\]] )>(?= )", [">=", "<="]),
    (r"<=", ["<", ">"]), (r"(?<![-=])>=", [">", "<"]), (r"&&", ["||"]), (r"\|\|(?= )(?<! \(\|\|)", ["&&"]),
    (r"(?<= )\+(?= )", ["-", "*"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/", "+"]), (r"(?<= )/(?= )", ["*"]),
    (r"(?<= )%(?= )", ["/"]), (r"\+=", ["="]), (r"-=", ["="]), (r"\*=", ["="]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
    (r"(?<![\w.\"])([2-9]|[1-9]\d+)(?![\w.])", ["INC", "DEC"]),
    (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\bany\(", ["all("]), (r"\ball\(", ["any("]),
    (r"\bBigEndian\b", ["LittleEndian"]), (r"\bLittleEndian\b", ["BigEndian"]), (r"Endian::Big\b", ["Endian::Little"]),
    (r"Endian::Little\b", ["Endian::Big"]), (r"\bRowMajor\b", ["ColumnMajor"]), (r"\bColumnMajor\b", ["RowMajor"]),
    (r"\.read_exact\(", [".read("]), (r"\.write_all\(", [".write("]), (r"!(?=[a-z(])", [""]), (r"(?<=if )(?=[a-z(])(?!let)", ["!"]),
    (r"\.rev\(\)", [""]), (r"\.take\(\d+\)", [""]), (r"\.skip\(\d+\)", [""]), (r"\.filter\((?:[^()]|\([^()]*\))*\)", [""]),
    (r"saturating_", ["wrapping_"]), (r"checked_(\w+)\(([^()]*)\)\?", ["CHK"]), (r"\bfloor\b", ["ceil"]), (r"\bceil\b", ["floor"]),
    (r"\bstarts_with\b", ["ends_with"]), (r"\bends_with\b", ["starts_with"]), (r"\bSome\(([^()]*)\)(?!.*=>)", ["None"]),
    (r"as u64\b", ["as u32 as u64"]), (r"as usize\b", ["as u8 as usize"]), (r"as u32\b", ["as u16 as u32"]),
    (r"NotFound\b", ["Other"]), (r"AlreadyExists\b", ["Other"]), (r"LOCK_EX|lock_exclusive", ["lock_shared"]), (r"lock_shared", ["lock_exclusive"]),
    (r"\.truncate\(true\)", [""]), (r"\.create\(true\)", [""]), (r"\bcreate_dir_all\b", ["create_dir"]), (r"\bremove_dir\b", ["remove_dir_all"]),
    (r"BE\b", ["LE"]), (r"\.flush\(\)\?", [""]), (r"\.unwrap_or\(", [".unwrap_or_default(); let _ = ("]),
    (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\.clear\(\)", [".len()"]), (r"\.trim_end_matches\('/'\)", [""]),
    (r"\.trim_start_matches\('/'\)", [""]), (r"\bpush\b", ["insert_0"]), (r"b\"[^\"]*\"", ["STR"]), (r"(?<!b)\"[^\"{}]+\"", ["STR"]),
    (r"#\[serde\([^\n]*\)\]", [""]), (r"\.\.=", [".."]), (r"\bFirst\b", ["Last"]), (r"\.into_iter\(\)", [".into_iter().skip(1)"]),
    (r"\.iter\(\)", [".iter().skip(1)"]), (r"\.unwrap_or_else\(", [".UNW("]), (r"\bu8\b", ["i8"]), (r"\bi8\b", ["u8"]),
    (r"\bu16\b", ["u32"]), (r"\bu32\b", ["u64"]), (r"\bu64\b", ["u32"]), (r"\bi64\b", ["i32"]), (r"\bf64\b", ["f32"]),
]


def blank(src):
    """The source with comments and cfg(test) modules blanked; strings kept."""
    s = re.sub(r"//[^\n]*|'\"'|\"(?:\\\\.|[^\"\\\\])*\"",
               lambda m: m.group(0) if m.group(0)[0] == '"' else " " * len(m.group(0)), src)
    for m in re.finditer(r"#\[cfg\(test\)\]\s*(pub(\(crate\))? )?mod \w+ \{", s):
        i, d = m.end(), 1
        while d and i < len(s):
            d += {"{": 1, "}": -1}.get(s[i], 0)
            i += 1
        s = s[:m.start()] + re.sub(r"[^\n]", " ", s[m.start():i]) + s[i:]
    return s


def mutants():
    seen = set()
    for f in FILES:
        src = open(os.path.join(ROOT, "base", f)).read()
        s = blank(src)
        out = []
        for pat, reps in SUBST:
            for m in re.finditer(pat, s):
                a, b = m.span()
                text = m.group(0)
                line = s[s.rfind("\n", 0, a) + 1: (s + "\n").find("\n", b)]
                if re.match(r"\s*(use |pub use |pub mod |mod |extern )", line):
                    continue
                for r in reps:
                    if r == "INC":
                        r = str(int(text) + 1)
                    elif r == "DEC":
                        r = str(int(text) - 1)
                    elif r == "STR":
                        r = text[:-2] + ("x" if text[-2] != "x" else "y") + '"'
                    elif r == "CHK":
                        r = "wrapping_%s(%s)" % (m.group(1), m.group(2))
                    elif r in ("insert_0", ".UNW("):
                        continue
                    out.append((a, b, r))
        # Statements.
        stack, start = [], 0
        i = 0
        while i < len(s):
            c = s[i]
            if c == '"':
                j = i + 1
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                i = j + 1
                continue
            if c == "'" and re.match(r"'(\\.|[^\\'])'", s[i:i + 4]):
                i += len(re.match(r"'(\\.|[^\\'])'", s[i:i + 4]).group(0))
                continue
            if c in "({[":
                stack.append((c, start))
                start = i + 1
            elif c in ")}]":
                c0, st0 = stack.pop()
                if c == "}":
                    body = s[st0:i + 1]
                    t = body.strip()
                    # blocks: if / for / while statements deleted
                    if re.match(r"(if|for|while) ", t) and stack and stack[-1][0] == "{":
                        out.append((st0 + len(body) - len(body.lstrip()), i + 1, ""))
                    start = i + 1
                    # else-branch keeps the statement open, good enough
                else:
                    start = st0
            elif c == ";" and stack and stack[-1][0] == "{":
                st = s[start:i + 1]
                t = st.strip()
                a = start + len(st) - len(st.lstrip())
                if t and not re.match(r"(let|use|const|fn|type|pub|static|return|mod|impl|#)\b", t) and len(t) > 1:
                    out.append((a, i + 1, ""))
                    if t.endswith("?;"):
                        out.append((a, i + 1, "let _ = " + t[:-2] + ";"))
                if re.match(r"return Err", t):
                    out.append((a, i + 1, ""))
                start = i + 1
            elif c == "," and stack and stack[-1][0] == "{":
                start = i + 1
            i += 1
        for a, b, r in sorted(set(out)):
            if (f, a, b, r) in seen or src[a:b] == r:
                continue
            seen.add((f, a, b, r))
            ln = src.count("\n", 0, a) + 1
            yield dict(file=f, line=ln, a=a, b=b, old=src[a:b], new=r, id="%s:%d:%d:%s" % (f[4:], ln, a, r[:12]))


# Nothing but the worker's directory, a private /tmp and /dev/shm can be written.
JAIL = """mount --make-rprivate / && mount --bind $W $W &&
mount --bind / / && mount -o remount,ro,bind / && mount -t tmpfs none /dev/shm && mkdir -p /dev/shm/keep && mount --bind $W /dev/shm/keep &&
mount -t tmpfs none /tmp && mkdir -p $W && mount --bind /dev/shm/keep $W && cd "$D" && exec bash -c "$C" """


def sh(cmd, cwd, timeout, env=None):
    w = re.match(ROOT + r"/w\d+", cwd).group(0)
    env = dict(env or os.environ, W=w, D=cwd, C=cmd)
    cmd, cwd = "unshare -m bash -c '%s'" % JAIL.replace("\n", " ").strip(), "/"
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, env=env, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def setup(k, full=False):
    w = "%s/w%d" % (ROOT, k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    shutil.rmtree(w + "/repo/src")
    shutil.copytree(ROOT + "/base/src", w + "/repo/src")
    os.makedirs(w + "/verif")
    for n in ("run.py", "known_findings.txt", "MANIFEST.json", "properties.jsonl", "harness", "py", "tools", "build"):
        subprocess.check_call(["cp", "-a", "/verif/" + n, w + "/verif/" + n])
    p = w + "/verif/harness/Cargo.toml"
    t = open(p).read().replace('"/repo"', '"%s/repo"' % w)
    open(p, "w").write(t)
    if full:
        return w
    # Only the plain build, where that decides anything.
    with open(w + "/verif/tools/checks.py", "a") as f:
        f.write("""
for c in CHECKS.values():
    if not any("stage" in s for s in c["quick"]):
        c["quick"] = [s for s in c["quick"] if s["build"] == "native"]
""")
    return w


def order(f):
    first = next(v for k, v in FIRST.items() if f.startswith(k)).split()
    return first + [p for p in ALL if p not in first and p != "C23"]


def stable(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x:
                return stable(x[k])
        return {k for k, v in x.items() if v in ("passed", "pass", True, "ok")}
    return set(x)


def evaluate(w, m, base):
    edits = m.get("edits") or [(m["file"], None, None)]
    new = {}
    for f, old, rep in edits:
        src = new.get(f) or open(os.path.join(ROOT, "base", f)).read()
        if old is None:
            new[f] = src[:m["a"]] + m["new"] + src[m["b"]:]
        elif src.count(old) != 1:
            return dict(m, result="edit", message="%d matches of %r" % (src.count(old), old))
        else:
            new[f] = src.replace(old, rep)
    for f in new:
        open(os.path.join(w, "repo", f), "w").write(new[f])
    try:
        pre = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/repo/target; " % w
        feat = " --features lz_pure" if "lz_pure" in m["file"] else ""
        rc, out = sh(pre + "cargo check --offline" + feat, w + "/repo", 300)
        if rc:
            return dict(m, result="no build", message=out[-1500:] if "edits" in m else "")
        logs = w + "/repo/target/vp-logs"
        cmd = pre + """rm -rf {l}; mkdir -p {l}
timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {l}/default.log 2>&1
timeout 300 cargo test --workspace --no-fail-fast --offline --lib --features lz_pure -- --test-threads 8 compression::lz_pure:: > {l}/lz_pure.log 2>&1
python3 /opt/vp/results.py {w}/out.json "cargo:{l}/*.log" """.format(l=logs, w=w)
        sh(cmd, w + "/repo", 900)
        try:
            got = json.load(open(w + "/out.json"))
        except (OSError, ValueError):
            return dict(m, result="tests fail")
        if stable(base) - stable(got):
            return dict(m, result="tests fail", message=sorted(stable(base) - stable(got))[:5])
        notes = []
        for p in (m["check"].split() if "edits" in m else order(m["file"])):
            t = time.time()
            rc, out = sh("VERIF_TIER=quick VERIF_SEED=1 python3 run.py %s" % p, w + "/verif", 1200)
            if rc == 1:
                v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
                return dict(m, result="caught", by=p, message=(out[-600:] if not v else ""), notes=notes)
            if rc != 0:
                if "building the harness" in out:
                    return dict(m, result="harness does not build", message=out[-600:])
                notes.append("%s rc %s %s" % (p, rc, out[-300:]))
        return dict(m, result="SURVIVED", notes=notes)
    finally:
        for f in new:
            shutil.copy(os.path.join(ROOT, "base", f), os.path.join(w, "repo", f))


def worker(k, todo, done, full):
    w = setup(k, full)
    base = json.load(open("/opt/vp/BASELINE.json"))
    while True:
        m = todo.get()
        if m is None:
            break
        t = time.time()
        try:
            r = evaluate(w, m, base)
        except Exception as e:  # noqa: BLE001
            r = dict(m, result="error", message=repr(e))
        done.put(dict(r, secs=round(time.time() - t)))
    shutil.rmtree(w, ignore_errors=True)
    done.put(None)


def main():
    shutil.rmtree(ROOT + "/base", ignore_errors=True)
    shutil.copytree("/repo/src", ROOT + "/base/src")
    ms = list(mutants())
    if sys.argv[1] == "list":
        for m in ms:
            print(m["id"], repr(m["old"][:60]), "->", repr(m["new"][:60]))
        print(len(ms))
        return
    n, path = int(sys.argv[2]), sys.argv[3]
    if sys.argv[1] == "custom":
        bugs = {}
        exec(open(sys.argv[4]).read(), bugs)
        ms = [dict(id="%s-%s" % (p.split()[0], n), file=e[0][0], check=p, edits=e) for p, n, e in bugs["BUGS"]]
    elif len(sys.argv) > 4:
        ms = [m for m in ms if re.search(sys.argv[4], m["id"])]
    have = set()
    if os.path.exists(path):
        have = {json.loads(l)["id"] for l in open(path)}
    ms = [m for m in ms if m["id"] not in have]
    todo, done = Queue(), Queue()
    for m in ms:
        todo.put(m)
    for _ in range(n):
        todo.put(None)
    ps = [Process(target=worker, args=(k, todo, done, sys.argv[1] == "custom")) for k in range(n)]
    for p in ps:
        p.start()
    left = n
    with open(path, "a") as f:
        while left:
            r = done.get()
            if r is None:
                left -= 1
                continue
            f.write(json.dumps(r) + "\n")
            f.flush()


main()

#!/usr/bin/env python3
"""Decides one property:  check.py ID quick|thorough   or   check.py ID --replay FILE

1. builds the TLC module overrides and the harness against /repo's working tree;
2. checks the models registered for the property (spec/mc/ID*.TIER.cfg) with TLC and
   collects the behaviours they emit;
3. replays those behaviours, and random sessions, on the real library, recording what
   comes back;
4. validates every recorded session against spec/CurvesTrace.tla with TLC.

Exit 0: held on everything explored.  1: VIOLATION line.  2: the check could not decide.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar",
                f"{V}/build/classes"])
HARNESS = f"{V}/harness/target/debug/harness"
RELEASE = f"{V}/harness/target/release/harness"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

# random sessions per run (quick), and per batch (thorough)
QUICK = {"default": 4000, "C03": 5000, "C07": 3000, "C13": 3000, "C27": 2500, "C28": 2500,
         "C14": 16000, "C15": 16000, "C16": 14000, "C20": 12000, "C21": 10000, "C23": 14000}
THOROUGH_SECONDS = 420
BATCH = 5000
CHUNK = 10000


class CannotDecide(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(f"{REPO}/src/**/*", recursive=True)) + [f"{REPO}/Cargo.toml", f"{V}/harness/Cargo.toml"]
    files += sorted(glob.glob(f"{V}/harness/src/*.rs")) + glob.glob(f"{REPO}/build.rs")
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    os.makedirs(f"{V}/build/classes", exist_ok=True)
    with open(f"{V}/build/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = sorted(glob.glob(f"{V}/java/*.java"))
        h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
        stamp = f"{V}/build/classes.stamp"
        if not (os.path.exists(stamp) and open(stamp).read() == h and glob.glob(f"{V}/build/classes/*.class")):
            r = run(["javac", "-nowarn", "-cp", TLA, "-d", f"{V}/build/classes"] + src)
            if r.returncode:
                raise CannotDecide("javac failed:\n" + r.stdout[-3000:])
            open(stamp, "w").write(h)
        # By content, not by time stamps: a tree restored from elsewhere may carry any.
        h = repo_hash()
        stamp = f"{V}/build/harness.stamp"
        if os.path.exists(HARNESS) and os.path.exists(RELEASE) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        if os.path.exists(stamp):
            os.remove(stamp)
        env = dict(os.environ, CARGO_TARGET_DIR=f"{V}/harness/target", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
        env.pop("RUSTFLAGS", None)
        if os.path.isdir(f"{V}/harness/target"):
            for profile in ([], ["--release"]):
                run(["cargo", "clean", "--offline", "-p", "bsplines", "-p", "harness"] + profile, cwd=f"{V}/harness", env=env)
        # with debug assertions and overflow checks, as in tests, and without, as in use
        for profile in ([], ["--release"]):
            r = run(["cargo", "build", "--offline", "--quiet"] + profile, cwd=f"{V}/harness", env=env)
            if r.returncode:
                raise CannotDecide("the harness does not build against the library:\n" + r.stdout[-4000:])
        open(stamp, "w").write(h)


def workdir(pid):
    d = f"{V}/work/{pid}-{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in glob.glob(f"{V}/spec/*.tla") + glob.glob(f"{V}/spec/mc/*"):
        shutil.copy(f, d)
    return d


def tlc(d, module, cfg, name, props=(), timeout=600, heap="6g"):
    """Runs TLC.  Returns (code, text).  TLC is stopped shortly after its first error:
    its workers do not always terminate by themselves then."""
    out = f"{d}/{name}.out"
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}"] + list(props) + \
          ["-cp", TLA, "tlc2.TLC", "-workers", "8", "-config", cfg, "-metadir", f"{d}/{name}.meta",
           "-noGenerateSpecTE", "-lncheck", "final", module]
    with open(out, "w") as o:
        p = subprocess.Popen(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT)
        t0 = time.time()
        err = None
        while True:
            try:
                p.wait(0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            if err is None and re.search(r"^Error:", open(out).read(), re.M):
                err = time.time()
            if (err and time.time() - err > 20) or time.time() - t0 > timeout:
                p.kill()
                p.wait()
                break
    shutil.rmtree(f"{d}/{name}.meta", ignore_errors=True)
    text = open(out).read()
    if err is None and re.search(r"^Error:", text, re.M):
        err = time.time()
    code = p.returncode
    if err is None and code != 0:
        raise CannotDecide(f"TLC on {module} ended with {code}:\n" + text[-3000:])
    return (code, text, err is not None)


def counts(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# ------------------------------------------------------------------ models ----
def models(pid, tier):
    def of(t):
        return sorted(glob.glob(f"{V}/spec/mc/{pid}.*{t}.cfg") + glob.glob(f"{V}/spec/mc/ALL.*{t}.cfg"))
    q, t = of("quick"), of("thorough")
    if tier == "quick":
        return q
    names = {os.path.basename(f)[:-len("thorough.cfg")] for f in t}
    return t + [f for f in q if os.path.basename(f)[:-len("quick.cfg")] not in names]


def check_model(d, cfg, cov):
    name = os.path.basename(cfg)[:-4]
    module = re.search(r"\\\* MODULE (\w+)", open(cfg).read()).group(1)
    emit = f"{d}/{name}.scripts"
    t0 = time.time()
    code, text, err = tlc(d, f"{module}.tla", os.path.basename(cfg), name, [f"-Demit.file={emit}"])
    if err or code:
        raise CannotDecide(f"the model {name} does not have its properties:\n" + text[-4000:])
    g, n = counts(text)
    lines = sorted(set(open(emit).read().split("\n")) - {""}) if os.path.exists(emit) else []
    open(emit, "w").write("".join(l + "\n" for l in lines))
    cov["models"].append({"model": name, "module": module, "states": n, "transitions": g,
                          "behaviours_emitted": len(lines), "seconds": round(time.time() - t0, 1)})
    cov["states"] += n
    cov["transitions"] += g
    return emit if lines else None


def chunks(f):
    """Files of at most CHUNK of the behaviours in f."""
    if f is None:
        return []
    lines = open(f).read().split("\n")[:-1]
    os.remove(f)
    parts = [f"{f}.{j}" for j in range(0, len(lines), CHUNK)]
    for j, p in enumerate(parts):
        open(p, "w").write("".join(l + "\n" for l in lines[j * CHUNK:(j + 1) * CHUNK]))
    return parts


# ----------------------------------------------------------------- library ----
def harness(pid, args, out, binary=None):
    """Runs the harness; a call that does not come back is a violation found."""
    hang = out + ".hang"
    p = run([binary or HARNESS] + args + ["--profile", pid, "--out", out])
    if p.returncode == 0:
        return None
    if p.returncode == 3 and os.path.exists(hang):
        return {"bad": f'<<"{pid}", "does-not-return">>', "event": open(hang).read().strip(), "session": [json.loads(open(hang).read())]}
    if p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
        return {"bad": f'<<"{pid}", "process-died-{-p.returncode}">>', "event": p.stdout[-500:], "session": []}
    raise CannotDecide(f"the harness ended with {p.returncode}:\n" + p.stdout[-3000:])


CFG = """SPECIFICATION Spec
VIEW View
INVARIANT Conforms
ALIAS Alias
CHECK_DEADLOCK FALSE
CONSTANT Props = {"%s"}
"""


def validate(d, pid, trace, name, cov, timeout=800):
    """None, or the first violation: session prefix, clause."""
    lines = [l for l in open(trace).read().split("\n") if l]
    if not lines:
        return None
    cfg = f"{d}/{name}.cfg"
    open(cfg, "w").write(CFG % pid)
    code, text, err = tlc(d, "CurvesTrace.tla", os.path.basename(cfg), name, [f"-Dtrace.file={trace}"], timeout)
    g, n = counts(text)
    if not err and code == 0:
        events = sum(len(json.loads(l)) for l in lines)
        if n < events + len(lines):
            raise CannotDecide(f"TLC took {n} states for {events} events of {len(lines)} sessions")
        cov["states"] += n
        cov["transitions"] += g
        cov["traces_validated_against_impl"] += len(lines)
        cov["events_validated"] += events
        return None
    sids, idx = re.findall(r"sid = (\d+)", text), re.findall(r"/\\ i = (\d+)", text)
    if not sids:
        raise CannotDecide("TLC failed on the recorded sessions:\n" + text[-4000:])
    sid, i = int(sids[-1]), int(idx[-1])
    session = json.loads(lines[sid - 1])
    if "Invariant Conforms is violated" in text:
        bad = re.findall(r"bad = (.*)", text)[-1]
    else:
        if re.search(r"OutOfMemory|StackOverflow|GC overhead", text):
            raise CannotDecide("TLC ran out of memory:\n" + text[-2000:])
        # The specification has no value for what was recorded: the event after the last state
        i = min(i + 1, len(session))
        bad = f'<<"{pid}", "no-meaning">> ' + " ".join(text[text.find("Error:"):].split())[:300]
    return {"bad": bad, "session": session[:i], "event": json.dumps(session[i - 1])[:1500], "line": sid - 1}


def known():
    f = f"{V}/known_findings.txt"
    ks = []
    for l in open(f).read().split("\n") if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) match=(.*?) -- (.*)", l)
        if m:
            ks.append(m.groups())
    return ks


def validate_all(d, pid, trace, name, cov):
    """As validate, stepping over the listed findings."""
    while True:
        v = validate(d, pid, trace, name, cov)
        if v is None or "line" not in v:
            return v
        ev = json.dumps(v["session"][-1])
        hit = [k for k in known() if k[0] == pid and all(x in ev + v["bad"] for x in k[1].split(" & "))]
        if not hit:
            return v
        if hit[0][2] not in cov["known"]:
            cov["known"].append(hit[0][2])
            log(f"KNOWN-FINDING: property={pid} {hit[0][2]}")
        lines = [l for l in open(trace).read().split("\n") if l]
        del lines[v["line"]]
        open(trace, "w").write("".join(l + "\n" for l in lines))


def note(trace, cov, sample):
    """What the recorded sessions consist of."""
    ops = cov["operations"]
    for j, l in enumerate(open(trace)):
        s = json.loads(l)
        cov["distinct"].add(hashlib.md5(l.encode()).digest()[:8])
        for e in s:
            if "qs" in e:
                for q in e["qs"]:
                    k = f"{e['op']}:{q.get('res', '?')}"
                    ops[k] = ops.get(k, 0) + 1
            else:
                k = f"{e['op']}:{e.get('res', '')}" + (":" + e["err"]["kind"] if e.get("res") == "err" and "err" in e else "")
                ops[k] = ops.get(k, 0) + 1
        if j in sample and len(cov["samples"]) < 6:
            cov["samples"].append([{k: v for k, v in e.items() if k != "post"} for e in s][:6])


def report(pid, v):
    os.makedirs(f"{V}/replays", exist_ok=True)
    f = f"{V}/replays/{pid}-{int(time.time() * 1000)}.json"
    json.dump({"property": pid, "clause": v["bad"], "session": v["session"],
               "release": v.get("release", False)}, open(f, "w"))
    log(f"clause: {v['bad']}")
    log(f"event:  {v['event'][:1500]}")
    log(f"VIOLATION property={pid} replay={f}")


def evidence(pid, tier, cov, t0, violations):
    os.makedirs(f"{V}/evidence", exist_ok=True)
    c = {k: v for k, v in cov.items() if k not in ("distinct", "known")}
    c["distinct_sessions"] = len(cov["distinct"])
    json.dump({"property": pid, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": c,
               "assumptions": ["the compiler, TLC, the JSON codec and the exact-rational module override are right",
                               "numeric agreement is judged within the rounding bounds stated in DESIGN.md"],
               "wall_s": round(time.time() - t0, 1), "violations": violations},
              open(f"{V}/evidence/{pid}.json", "w"), indent=1)


def replay(pid, f):
    build()
    d = workdir(pid)
    try:
        j = json.load(open(f))
        s = j["session"]
        open(f"{d}/s", "w").write(json.dumps(s) + "\n")
        cov = new_cov()
        v = harness(pid, ["replay", "--scripts", f"{d}/s"], f"{d}/t", RELEASE if j.get("release") else HARNESS) or validate(d, pid, f"{d}/t", "replay", cov)
        if v:
            log(f"clause: {v['bad']}")
            log(f"VIOLATION property={pid} replay={f}")
        return 1 if v else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def new_cov():
    return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
            "models": [], "operations": {}, "samples": [], "distinct": set(), "known": [], "random_sessions": 0,
            "model_behaviours_replayed": 0}


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    if tier == "--replay":
        return replay(pid, sys.argv[3])
    t0 = time.time()
    build()
    d = workdir(pid)
    cov = new_cov()
    n = 0

    def trace(args, label, binary=HARNESS):
        """Records sessions and validates them."""
        nonlocal n
        n += 1
        f = f"{d}/t{n}"
        v = harness(pid, args, f, binary)
        if v and binary == RELEASE:
            v["release"] = True
        if v is None:
            note(f, cov, {7, 100, 500})
            k = sum(1 for _ in open(f))
            cov["random_sessions" if label == "random" else "model_behaviours_replayed"] += k
            v = validate_all(d, pid, f, f"v{n}", cov)
            if v and binary == RELEASE:
                v["release"] = True
        for g in glob.glob(f + "*"):
            os.remove(g)
        return v

    try:
        v = None
        # the cheapest way to a verdict first: random sessions, then the models' behaviours
        size = QUICK.get(pid, QUICK["default"])
        v = trace(["gen", "--seed", str(SEED), "--sessions", str(size)], "random")
        if v is None:
            v = trace(["gen", "--seed", str(SEED + 500009), "--sessions", str(size // 4)], "random", RELEASE)
        if v is None:
            for cfg in models(pid, tier):
                s = check_model(d, cfg, cov)
                for part in chunks(s):
                    v = v or trace(["replay", "--scripts", part], "model")
                    os.remove(part)
                if v:
                    break
        batch = 0
        while v is None and tier == "thorough" and time.time() - t0 < THOROUGH_SECONDS:
            batch += 1
            v = trace(["gen", "--seed", str(SEED * 1000003 + batch), "--sessions", str(BATCH)], "random",
                      RELEASE if batch % 3 == 0 else HARNESS)
        evidence(pid, tier, cov, t0, 1 if v else 0)
        if v:
            report(pid, v)
            return 1
        log(f"{pid}: held on {cov['traces_validated_against_impl']} sessions ({cov['events_validated']} events), "
            f"{cov['states']} states, {time.time() - t0:.0f} s")
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CannotDecide as e:
        log(f"cannot decide: {e}")
        sys.exit(2)

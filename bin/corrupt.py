#!/usr/bin/env python3
"""Tests the judge: corrupt.py SESSIONS SEED ID...

Records random sessions of the properties named, changes one recorded *output* in each
and counts the sessions the specification rejects, per operation and field.  A field that is
never missed is judged.  Not a check of the library: it tells which outputs no clause looks at.
"""
import json, os, random, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C

IN = {"op", "s", "l", "r", "d", "p", "u", "x", "n", "i", "k", "cmp", "api", "fixed", "pen", "t", "U", "Q", "A", "B",
      "cl", "cr", "nl", "nr", "mp", "times", "raw", "kind", "a", "b", "seg", "c"}
OUT = {"new": ("res", "err", "post"), "split": ("res", "err", "post"), "reverse": ("res", "err", "post"),
       "deriv": ("res", "err", "post"), "insert": ("res", "err", "post"), "merge": ("res", "err", "post"),
       "lsq": ("res", "err", "post"), "interp": ("res", "err", "post"), "manual": ("res", "err", "post"),
       "rebuild": ("res", "err", "post"), "edit": ("res", "err"), "eval": ("qs.res", "qs.v", "qs.err"),
       "find": ("qs.res", "qs.idx"), "basis": ("qs.res", "qs.vs"), "interpolate": ("res", "P", "err"),
       "fit": ("res", "P", "err"), "params": ("res", "t", "segs"), "knotgen": ("res", "pout", "UK", "err"),
       "cq": "deg seg dim maxd kmax pmax count pseg kseg pdim empty counts pts".split(),
       "pq": "dim count empty pts mat seg rev put head tail mid headmut tailmut midmut par parseg con conseg".split(),
       "kq": "deg seg maxd inner_count domain_count segs lens inner inner_at domain_at domains mults sorted clamped normed uniform own".split(),
       "kmap": "UK copy bare kept".split(), "twin": ("outs",), "pair": "IA IB TA TB PA PB changed copies".split()}


def leaves(x, path):
    """Paths of the values that can be changed without changing the type."""
    if isinstance(x, dict):
        return [q for k, v in x.items() for q in leaves(v, path + [k])]
    if isinstance(x, list):
        return [q for k, v in enumerate(x) for q in leaves(v, path + [k])] + ([path] if x and path else [])
    return [path]


def change(x, rnd):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    if isinstance(x, list):
        return x[:-1] if len(x) == 1 or rnd.random() < .5 else x[1:] + x[:1] if x[1:] + x[:1] != x else x[:-1]
    if x.startswith("#"):
        f = float(x[1:])
        if f != f or abs(f) == float("inf"):
            return "#1.0"
        return "#" + repr(f + rnd.choice([1, -1]) * (0.01 + 0.01 * abs(f)))
    if x in ("ok", "err", "panic"):
        return rnd.choice([y for y in ("err", "panic") if y != x]) if x == "ok" else "panic" if x == "err" else "err"
    return x + "X"


def targets(s):
    out = {}
    for j, e in enumerate(s):
        for f in OUT.get(e["op"], ()):
            if f.startswith("qs."):
                for n, q in enumerate(e["qs"]):
                    if f[3:] in q:
                        out.setdefault((e["op"], f), []).extend(leaves(q[f[3:]], [j, "qs", n, f[3:]]))
            elif f == "post" and "post" in e:
                for n, q in enumerate(e["post"]):
                    for g in ("UK", "PK"):
                        for k, m in enumerate(q["c"][g]):
                            key = (e["op"], f"post.{g}[{'0' if k == 0 else 'k'}]")
                            out.setdefault(key, []).extend(leaves(m, [j, "post", n, "c", g, k]))
            elif f in e:
                out.setdefault((e["op"], f), []).extend(leaves(e[f], [j, f]))
    return out


def corrupt(s, rnd):
    t = targets(s)
    if not any(t.values()):
        return None
    key = rnd.choice(sorted(k for k in t if t[k]))
    path = rnd.choice(t[key])
    x = s
    for k in path[:-1]:
        x = x[k]
    old = x[path[-1]]
    x[path[-1]] = change(old, rnd)
    return (key, path, old, x[path[-1]])


def main():
    size, seed, ids = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    C.build()
    rnd = random.Random(seed)
    total = {}
    d = C.workdir("corrupt")
    try:
        for pid in ids:
            f = f"{d}/t"
            assert C.harness(pid, ["gen", "--seed", str(seed), "--sessions", str(size)], f) is None
            ss = [json.loads(l) for l in open(f)]
            what = [corrupt(s, rnd) for s in ss]
            todo = [j for j, w in enumerate(what) if w]
            caught = set()
            props = '"' + '", "'.join(f"C{i:02}" for i in range(1, 29)) + '"' if os.environ.get("ALL") else f'"{pid}"'
            open(f"{d}/x.cfg", "w").write(C.CFG % "?".replace("?", props[1:-1]))
            rounds = 0
            while todo and rounds < 60:
                rounds += 1
                open(f, "w").write("".join(json.dumps(ss[j]) + "\n" for j in todo))
                out = f"{d}/out"
                os.system(f"cd {d} && java -XX:+UseParallelGC -Xmx8g -Xss64m -Dtrace.file={f} -Djava.io.tmpdir={d} -cp {C.TLA} "
                          f"tlc2.TLC -workers 8 -continue -config x.cfg -metadir {d}/meta -noGenerateSpecTE -lncheck final "
                          f"CurvesTrace.tla > {out} 2>&1; rm -rf {d}/meta")
                text = open(out).read()
                new = set()
                for part in re.split(r"^Error: Invariant Conforms is violated", text, flags=re.M)[1:]:
                    new.add(todo[int(re.findall(r"sid = (\d+)", part.split("Error:")[0] if "Error: The behavior" not in part else part)[0]) - 1])
                done = "Model checking completed" in text or "states left on queue" in text and " 0 states left" in text
                fatal = not re.search(r"\b0 states left on queue", text)
                if fatal:
                    s = re.findall(r"sid = (\d+)", text)
                    if not s:
                        print(text[-2000:]); break
                    new.add(todo[int(s[-1]) - 1])
                caught |= new
                todo = [j for j in todo if j not in new]
                if not fatal:
                    break
            for j, w in enumerate(what):
                if w:
                    t = total.setdefault((pid, ) + w[0], [0, 0, []])
                    t[0] += 1
                    t[1] += j in caught
                    if j not in caught and len(t[2]) < 3:
                        t[2].append((w[1:], {k: v for k, v in ss[j][w[1][0]].items() if k not in ("post", "qs")} if os.environ.get("SHOW") else ""))
            print(pid, "changed", sum(1 for w in what if w), "rejected", len(caught), f"({rounds} runs)", flush=True)
            for k, (n, c, ex) in sorted(total.items()):
                if k[0] == pid and c < n:
                    print(f"  {k[1]}.{k[2]}: {c} of {n} rejected", *[str(e)[:300] for e in ex], sep="\n      ", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()

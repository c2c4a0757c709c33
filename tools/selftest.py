#!/usr/bin/env python3
"""Do the trace specifications reject corrupted recordings?

  tools/selftest.py PROP [seed]

Runs a quick check; every trace it validates is validated once more with one field of every recorded case changed,
and the share of changed cases that the specification rejects is printed per kind of row, operation and field.  A field
that is compared and yet never rejected is a hole in the specification (a conjunct that does not bind, say)."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common
import importlib.util

CODES = ["ok", "dom", "neg", "pos", "range", "prec", "under", "ns", "nvs", "stl", "uninit", "throw", "rej"]
R = random.Random(7)

def change(v):
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + R.choice([1, -1, 2])
    if isinstance(v, str):
        if v in CODES: return R.choice([c for c in CODES[:7] + ["rej"] if c != v])
        return v + "x"
    if isinstance(v, list):
        if v and all(isinstance(a, int) for a in v) and v[0] in (-1, 0, 1):
            if v[0] == 0 or len(v) < 2: return R.choice([[1, 1], [-1, 1], [1, 7]])
            k = R.choice(["neg", "one", "zero"])
            if k == "neg": return [-v[0]] + v[1:]
            if k == "zero": return [0]
            w = list(v); w[1] = w[1] ^ 1
            while len(w) > 1 and w[-1] == 0: w.pop()
            return w if len(w) > 1 else [0]
        if v:
            i = R.randrange(len(v)); w = list(v); w[i] = change(w[i]); return w
    return v

def describe(c, j):
    return "%d%s" % (j, "" )

ORIG = common.Ctx.tlc
def tlc(self, module, cfg, env=None, **kw):
    r = ORIG(self, module, cfg, env=env, **kw)
    if not (env and "TRACE" in env) or module.startswith("MC_"): return r
    rows = [json.loads(l) for l in open(env["TRACE"])]
    where = {}
    if "POOLS" in env: POOLS = [json.loads(l) for l in open(env["POOLS"])]
    for n, x in enumerate(rows, 1):
        if module == "MachineTrace":
            i = R.randrange(len(x["h"])); c = x["h"][i]; j = R.choice([2, 3, 4]); old = c[j]
            if j == 4: v = R.randrange(len(old)); c[4] = old[:v] + [change(old[v])] + old[v + 1:]
            elif old != "-": c[j] = change(old)
            if c[j] != old: where[n, i + 1] = ("step", POOLS[x["pool"] - 1]["steps"][c[0] - 1]["a"], j)
        elif "c" in x and isinstance(x["c"], list) and x["c"] and isinstance(x["c"][0], list):
            for i, c in enumerate(x["c"], 1):
                js = [j for j in range(len(c)) if c[j] != "-" and (j >= 2 or len(c) <= 2)]
                if not js or ("Types" in module and i > 1): continue
                j = R.choice(js); old = c[j]; c[j] = change(old)
                if c[j] == old: continue
                where[n, i] = (x.get("k", "?"), x.get("op", x.get("p", "-")), j)
        else:
            keys = [k for k in x if k not in ("k", "op", "n", "T", "U", "pp", "w", "src", "id") and isinstance(x[k], (int, str))]
            if keys:
                k = R.choice(keys); x[k] = change(x[k]); where[n, 0] = (x.get("k", "?"), x.get("op", "-"), k)
    p = env["TRACE"] + ".bad"
    with open(p, "w") as f:
        for x in rows: f.write(json.dumps(x, separators=(",", ":")) + "\n")
    e2 = dict(env); e2["TRACE"] = p
    b = ORIG(self, module, cfg, env=e2, **{**kw, "name": (kw.get("name") or module) + "-bad"})
    st = collections.defaultdict(lambda: [0, 0])
    for (n, i), w in where.items():
        st[w][1] += 1
        rej = b.rejected.get(n)
        if rej is not None and (i == 0 or not rej or i in rej): st[w][0] += 1
    print("== %s %s%s" % (module, kw.get("name"), "" if b.ok else "  TLC ERROR " + b.error()[:300]))
    for w, (a, t) in sorted(st.items(), key=str):
        if a < t: print("   %-8s %-8s field %-4s %5d of %5d rejected%s" % (*w, a, t, "   <<<" if a == 0 else ""))
    return r
common.Ctx.tlc = tlc
spec = importlib.util.spec_from_file_location("check", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"))
os.environ["VERIF_SEED"] = sys.argv[2] if len(sys.argv) > 2 else "1"
sys.argv = ["check.py", sys.argv[1], "quick"]
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
if hasattr(m, "main"): sys.exit(m.main())

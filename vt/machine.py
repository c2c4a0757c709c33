"""Histories of safe variables: behaviours generated from SafeMachine are replayed on the real library and what happens is
validated against SafeMachine step by step."""
import json, random, re
from .common import *
from .types_ import *
from .rows import zint, tla_set, support, run_exe, how_ended
from . import models

CPPB = {k: v[0] for k, v in BUILTIN.items()}
OPS = {"+": "op_add"}
ARITH_S = ["+", "-", "*", "/", "%"]
SHIFT_S = ["<<", ">>"]
BITS_S = ["&", "|", "^"]
CMP_S = ["<", "<=", ">", ">=", "==", "!="]
Z = models.z

def pool_type(r, pp, signed64):
    """a safe type whose range contains 0 and more than one value"""
    while True:
        t = rnd_safe(r, pp)
        if not (t.lo <= 0 <= t.hi and t.lo < t.hi): continue
        if signed64 and t.hi > (1 << 63) - 1: continue
        return t

FOCUS = {"C07": ["cmp"] * 8 + ["cmpb"] * 8 + ["ccmp"] * 6, "C09": [], "C10": ["not"] * 3, "C17": ["in"] * 12 + ["trip"] * 8}
def make_pool(r, pp, prop, nv=5, nsteps=150):
    small = pp == "a"
    T = [pool_type(r, pp, small) for _ in range(nv - 1)]
    T.append(T[0])
    V = range(nv)
    bs = MAIN if pp != "a" else [b for b in MAIN if b not in ("ul", "ull")]
    ops = ARITH_S + BITS_S + ([] if pp == "a" else SHIFT_S)
    if prop == "C09": ops = ["+", "/"] + SHIFT_S * 4
    if prop == "C10": ops = ["+", "-"] + BITS_S * 3
    cand = []
    def s(a, op="", i=0, j=0, k=0, n="", op2="", l=0): cand.append(dict(a=a, op=op, i=i + 1, j=j + 1, k=k + 1, n=n, op2=op2, l=l + 1))
    def one(kind):
        i, j, k, op, b = r.choice(V), r.choice(V), r.choice(V), r.choice(ops), r.choice(bs)
        if kind in ("setb", "get"): s(kind, i=i, n=r.choice(MAIN + ["wc", "c16", "c32"]))
        elif kind in ("set", "ctor"): s(kind, i=i, j=j)
        elif kind == "swap": s(kind, i=0, j=nv - 1)
        elif kind == "asg": s(kind, op, i, j)
        elif kind == "asgb": s(kind, op, i, n=b)
        elif kind == "bin": s(kind, op, i, j, k)
        elif kind in ("binb", "bbin"): s(kind, op, i, k=k, n=b)
        elif kind == "un": s(kind, r.choice(["++x", "--x", "x++", "x--"]), i)
        elif kind == "neg": s(kind, i=i, k=k)
        elif kind == "not": s(kind, i=i, k=k)
        elif kind == "cmp": s(kind, r.choice(CMP_S), i, j)
        elif kind == "in": s(kind, i=i)
        elif kind == "cmpb": s(kind, r.choice(CMP_S), i, n=b)
        elif kind == "trip": s(kind, i=i, k=k)
        elif kind in ("chain", "ccmp"): s(kind, op, i, j, k, op2=r.choice(ops if kind == "chain" else CMP_S), l=r.choice(V))
    mix = ["setb"] * 5 + ["set"] * 3 + ["ctor", "swap", "not", "get", "cmp", "neg"] + ["asg"] * 5 + ["asgb"] * 6 + \
          ["bin"] * 6 + ["binb"] * 4 + ["bbin"] * 2 + ["un"] * 4 + ["in"] * 3 + ["cmpb", "trip"] + \
          (["chain"] * 4 + ["ccmp"] if pp != "a" else []) + FOCUS.get(prop, [])
    if pp == "a": mix = [k for k in mix if k != "ccmp"]
    for v in V:                      # every variable can be set to anything, stepped and read
        for b in (["l", "ul"]): s("setb", i=v, n=b)
        for o in ("++x", "--x"): s("un", o, v)
        s("in", i=v)
    while len(cand) < nsteps: one(r.choice(mix))
    return dict(pp="c" if pp.startswith("c") else pp, ppn=pp, w=[int(x) for x in pp[1:].split("-")] if pp.startswith("c") else [],
                T=T, steps=cand)

def tjson(t): return dict(n=t.name, s=int(t.s), b=t.b, lo=Z(t.lo), hi=Z(t.hi), sf=int(t.safe))
def pool_json(p): return json.dumps(dict(pp=p["pp"], w=p["w"], T=[tjson(t) for t in p["T"]], steps=p["steps"]))

def step_cpp(st):
    i, j, k = ("p.v%d" % (st[x] - 1) for x in "ijk")
    n = "static_cast<%s>(a.z)" % CPPB[st["n"]] if st["n"] else ""
    op = st["op"]
    a = st["a"]
    if a == "setb": return "%s = %s;" % (i, n)
    if a == "set": return "%s = %s;" % (i, j)
    if a == "ctor": return "{ decltype(%s) t(%s); %s = std::move(t); }" % (i, j, i)
    if a == "swap": return "std::swap(%s, %s);" % (i, j)
    if a == "asg": return "%s %s= %s;" % (i, op, j)
    if a == "asgb": return "%s %s= %s;" % (i, op, n)
    if a == "bin": return "%s = %s %s %s;" % (k, i, op, j)
    if a == "binb": return "%s = %s %s %s;" % (k, i, op, n)
    if a == "bbin": return "%s = %s %s %s;" % (k, n, op, i)
    if a == "un": return "return raw(%s);" % (op.replace("x", i))
    if a == "neg": return "%s = -%s;" % (k, i)
    if a == "not": return "%s = ~%s;" % (k, i)
    if a == "get": return "return static_cast<vt::i128>(static_cast<%s>(%s));" % (CPPB[st["n"]], i)
    if a == "cmp": return "return static_cast<bool>(%s %s %s);" % (i, op, j)
    if a == "cmpb": return "return static_cast<bool>(%s %s %s);" % (i, op, n)
    if a == "chain": return "%s = (%s %s %s) %s p.v%d;" % (k, i, op, j, st["op2"], st["l"] - 1)
    if a == "ccmp": return "return static_cast<bool>((%s %s %s) %s p.v%d);" % (i, op, j, st["op2"], st["l"] - 1)
    if a == "trip": return "std::stringstream s; s << %s; s >> %s;" % (i, k)
    if a == "in": return "std::istringstream s(a.x); s >> %s;" % i

def executor(p):
    """C++ program: reads histories of (step, argument), writes what happened"""
    o = ['#include "vt.hpp"', '#include "vt_machine.hpp"', "using namespace vt;", "struct pool {"]
    for i, t in enumerate(p["T"]): o.append("  %s v%d{static_cast<%s>(0)};" % (t.cpp, i, "%s::value_type" % t.cpp if 0 else "signed char"))
    o.append("  void get(i128 * r) const { %s }" % " ".join("r[%d] = raw(v%d);" % (i, i) for i in range(len(p["T"]))))
    o.append("};")
    o.append("typedef i128 (*step)(pool & p, const arg & a);")
    for i, s in enumerate(p["steps"]): o.append("static i128 s%d(pool & p, const arg & a){ %s return 0; }" % (i + 1, step_cpp(s)))
    o.append("static const step table[] = {0, %s};" % ", ".join("s%d" % (i + 1) for i in range(len(p["steps"]))))
    o.append("static pool * cur; static arg cura; static int curs;")
    o.append("static i128 go(i128, i128){ return table[curs](*cur, cura); }")
    o.append("""void body(){
  std::ifstream in(std::string(getenv("VT_STIM")));
  run_histories(in, []{ delete cur; cur = new pool; }, [](int s, const arg & a){ curs = s; cura = a; return run(go, 0, 0); },
    [](i128 * r){ cur->get(r); }, %d);
}""" % len(p["T"]))
    return "\n".join(o) + "\n"

def generate(ctx, pools, behaviours, depth):
    pf = ctx.path("pools.ndjson")
    with open(pf, "w") as f: f.write("\n".join(pool_json(p) for p in pools) + "\n")
    cfg = "CONSTANTS\n ArchBits <- LP64\n Behaviours = %d\n Depth = %d\n Seed = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % (
        behaviours, depth, ctx.seed % 1000)
    r = ctx.tlc("MachineGen", cfg, env={"POOLS": pf}, name="gen")
    if not r.ok: raise CheckError("generation of behaviours failed: " + r.error())
    h = {}
    for l in r.lines:
        if not l.startswith("GEN "): continue
        _, p, b, n, s, k, arg = l.split(" ", 6)
        h.setdefault((int(p), int(b)), {})[int(n)] = (int(s), k, [int(x) for x in re.findall(r"-?\d+", arg)])
    ctx.cov["states"] += r.distinct; ctx.cov["transitions"] += r.generated
    return pf, {k: [v[i] for i in range(len(v))] for k, v in h.items()}, r

def histories(ctx):
    r = random.Random("machine %s %d" % (ctx.prop, ctx.seed))
    npool = 96 if ctx.thorough else 40 if ctx.prop in ('C03', 'C04') else 16
    pps = ["n", "c8-16-32-64-64", "n"] if ctx.prop == "C09" else ["n", "a", "c8-16-32-64-64", "n", "a"]
    pools = [make_pool(r, pps[i % len(pps)], ctx.prop) for i in range(npool)]
    pf, beh, gen = generate(ctx, pools, 60 if ctx.thorough else 30, 60 if ctx.thorough else 40)
    ctx.log("%d behaviours generated from the specification" % len(beh))
    obj = support(ctx)
    jobs = []
    for i, p in enumerate(pools):
        src = ctx.path("pool%d.cpp" % i)
        with open(src, "w") as f: f.write(executor(p))
        jobs.append((src, ctx.path("pool%d.exe" % i), [obj]))
    res = ctx.compile_many(jobs)
    ctx.cov["programs_compiled"] += len(jobs)
    for (src, exe, _), p in zip(jobs, pools):
        rc, err = res[exe]
        if rc:
            e = [l for l in err.splitlines() if "error:" in l][:2]
            ctx.violation("a program that must compile does not: " + " | ".join(e)[:600], {"source": open(src).read(), "stderr": err[-3000:]})
    trace = ctx.path("hist.ndjson")
    steps = failed = 0
    keys = []
    with open(trace, "w") as out:
        for pi in range(npool):
            exe = jobs[pi][1]
            if res[exe][0]: continue
            stim = ctx.path("stim%d.txt" % pi)
            ks = sorted(k for k in beh if k[0] == pi + 1)
            with open(stim, "w") as f:
                for k in ks:
                    f.write("H\n")
                    for s, _, a in beh[k]:
                        t = pools[pi]["steps"][s - 1]["a"] == "in"
                        f.write("S %d %s %d %s\n" % (s, "x" if t else "z", len(a) if t else 1, " ".join(map(str, a)) if t else zint(a)))
            o = ctx.path("out%d.ndjson" % pi)
            rc, err = run_exe([exe, o, str(ctx.seed), "1"], dict(os.environ, VT_STIM=stim))
            if rc == 3: raise CheckError("replay of pool %d cannot write" % pi)
            if rc:
                ctx.violation("the program replaying histories of pool %d %s: %s" % (pi + 1, how_ended(rc), err[-300:]),
                              {"types": [t.cpp for t in pools[pi]["T"]], "program": jobs[pi][0]})
                continue
            lines = open(o).read().split("\n")[:-1]
            if len(lines) != len(ks): raise CheckError("replay of pool %d incomplete" % pi)
            for k, l in zip(ks, lines):
                rec = json.loads(l)
                if len(rec) != len(beh[k]): raise CheckError("history incomplete")
                h = [[s, a, c[0], c[1], c[2]] for (s, _, a), c in zip(beh[k], rec)]
                steps += len(h); failed += sum(c[2] != "ok" for c in h)
                out.write(json.dumps(dict(pool=pi + 1, init=[[0]] * len(pools[pi]["T"]), h=h)) + "\n")
                keys.append((pi, h))
    ctx.log("%d histories replayed, %d steps, %d of them failed" % (len(keys), steps, failed))
    cfg = "CONSTANTS\n ArchBits <- LP64\n Prop = \"%s\"\n KnownDeviations = %s\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % (
        ctx.prop, tla_set({k["id"] for k in known_findings(ctx.prop)}))
    v = ctx.tlc("MachineTrace", cfg, env={"TRACE": trace, "POOLS": pf}, name="machine", heap="8g")
    if not v.ok: raise CheckError("TLC failed on the recorded histories: " + v.error())
    if v.distinct != steps + len(keys): raise CheckError("TLC visited %d states, expected %d" % (v.distinct, steps + len(keys)))
    ctx.cov["states"] += v.distinct; ctx.cov["transitions"] += v.generated
    ctx.cov["traces_validated_against_impl"] += len(keys); ctx.cov["evaluations"] += steps
    ctx.part("histories", module="MachineTrace", histories=len(keys), steps=steps, failed_steps=failed, pools=npool,
             steps_per_kind={a: sum(pools[pi]["steps"][c[0] - 1]["a"] == a for pi, h in keys for c in h)
                             for a in sorted({s["a"] for p in pools for s in p["steps"]})}, tlc_wall_s=round(v.wall, 1))
    bad = []
    for l in v.lines:
        if l.startswith("REJ "):
            _, a, b = l.split(" ", 2)
            bad.append((int(a), int(b.strip("{}"))))
    for hi, n in sorted(bad)[:40]:
        pi, h = keys[hi - 1]
        p, c = pools[pi], h[n - 1]
        before = h[n - 2][4] if n > 1 else [[0]] * len(p["T"])
        ctx.violation(describe_step(p, p["steps"][c[0] - 1], c, before),
                      {"types": [t.cpp for t in p["T"]], "history": [dict(step=p["steps"][x[0] - 1], arg=x[1], outcome=x[2],
                       after=[zint(y) for y in x[4]]) for x in h[:n]]})
    for pi, h in keys[:: max(1, len(keys) // 3)][:3]:
        ctx.samples.append("; ".join(describe_step(pools[pi], pools[pi]["steps"][c[0] - 1], c, None) for c in h[:4]))

def describe_step(p, s, c, before):
    arg = "".join(map(chr, c[1])) if s["a"] == "in" else zint(c[1])
    t = step_cpp(s).replace("p.v", "v").replace("a.z", str(arg)).replace("a.x", repr(arg))
    d = "policy %s: %s -> %s, values %s" % (p["ppn"], t, c[2], [zint(y) for y in c[4]])
    if before is not None:
        d += " after %s; types %s" % ([zint(y) for y in before], ", ".join("%s[%d..%d]" % (t.name, t.lo, t.hi) for t in p["T"]))
    return d

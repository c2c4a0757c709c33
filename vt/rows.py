"""Compile and run rows (one C++ statement each) and validate what they record with TLC."""
import json, os, subprocess, concurrent.futures as cf
from .common import *

def _tu(stmts, pre):
    # a row per function keeps the compiler linear
    s = ['#include "vt.hpp"', pre, "using namespace vt;"]
    for i, st in enumerate(stmts): s.append("static void r%d(){ %s }" % (i, st))
    s.append("void body(){")
    s += ["  r%d();" % i for i in range(len(stmts))]
    s.append("}")
    return "\n".join(s) + "\n"

def support(ctx, flags=None):
    o = ctx.path("vt.o")
    if not os.path.exists(o):
        r = sh([CXX] + (flags or CXXFLAGS) + ["-c", os.path.join(HARN, "vt.cpp"), "-o", o])
        if r.returncode:
            raise CheckError("harness support does not compile against /repo:\n" + r.stderr[-3000:])
    return o

def find_uncompilable(ctx, stmts, pre, flags, limit=3):
    """rows that do not compile on their own"""
    bad = []
    def one(i):
        src = ctx.path("solo%d.cpp" % i)
        with open(src, "w") as f: f.write(_tu([stmts[i]], pre))
        r = sh([CXX] + flags + ["-fsyntax-only", src])
        os.unlink(src)
        return i, r.returncode, r.stderr
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for i, rc, err in ex.map(one, range(len(stmts))):
            if rc: bad.append((i, err))
    return bad

def run_rows(ctx, stmts, name, budget, pre="", flags=None, shards=None, must_compile=True):
    """Returns path of the ndjson trace. Rows that do not compile are violations (the same programs compile
    on a library that has the property)."""
    flags = flags or CXXFLAGS
    obj = support(ctx, flags)
    shards = shards or max(NPROC, min(len(stmts) // 60 + 1, 8 * NPROC))
    groups = [stmts[i::shards] for i in range(shards)]
    groups = [g for g in groups if g]
    jobs = []
    for i, g in enumerate(groups):
        src = ctx.path("%s%d.cpp" % (name, i))
        with open(src, "w") as f: f.write(_tu(g, pre))
        jobs.append((src, ctx.path("%s%d.exe" % (name, i)), [obj]))
    res = ctx.compile_many(jobs, flags=flags)
    exes = []
    for (src, exe, _), g in zip(jobs, groups):
        rc, err = res[exe]
        if rc == 0: exes.append(exe); continue
        bad = find_uncompilable(ctx, g, pre, flags)
        if not bad: raise CheckError("shard does not compile although each row does:\n" + err[-2000:])
        for i, e in bad:
            first = [l for l in e.splitlines() if "error:" in l][:2]
            ctx.violation("a program that must compile does not: %s :: %s" % (g[i], " | ".join(first)),
                          {"row": g[i], "stderr": e[-3000:]})
        good = [s for i, s in enumerate(g) if i not in {b[0] for b in bad}]
        if good:
            with open(src, "w") as f: f.write(_tu(good, pre))
            r = sh([CXX] + flags + [src, obj, "-o", exe])
            if r.returncode: raise CheckError("shard does not compile after removing bad rows:\n" + r.stderr[-2000:])
            exes.append(exe)
    ctx.cov["programs_compiled"] += len(stmts)
    out = ctx.path(name + ".ndjson")
    record(ctx, exes, out, budget)
    return out, exes

def run_exe(cmd, env=None, timeout=200):
    """(how it ended, stderr): 0, a negative signal, an exit code or "no end"; a failure has to repeat"""
    for _ in range(2):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=env)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = "no end", ""
        if rc == 0: break
    return rc, err
def how_ended(rc): return "does not end" if rc == "no end" else "is ended by signal %d" % -rc if rc < 0 else "exits with %d" % rc

def record(ctx, exes, out, budget):
    """the recorders guard every evaluation; one which dies all the same (or does not end) shows a violation"""
    def one(x):
        p = x + ".ndjson"
        return (x, p) + run_exe([x, p, str(ctx.seed), str(budget)])
    with cf.ThreadPoolExecutor(NPROC) as ex, open(out, "wb") as o:
        for x, p, rc, err in ex.map(one, exes):
            if rc == 3: raise CheckError("recorder %s cannot write" % x)
            if rc: ctx.violation("a recorded program %s: %s" % (how_ended(rc), err[-300:]), {"program": x + ".cpp"})
            if os.path.exists(p):
                with open(p, "rb") as f:
                    for l in f:
                        if rc and not l.endswith(b"}\n"): break
                        o.write(l)
                os.unlink(p)

def tla_set(xs): return "{" + ", ".join('"%s"' % x for x in sorted(xs)) + "}"

CHUNK = 24 << 20
def validate(ctx, trace, module, consts, name, exes=None, budget=0, describe=None, heap="8g", max_report=40):
    """Validate a recorded trace; rejected evaluations that a second recording repeats are violations."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        if ctx.violations: return [], None
        raise CheckError("empty trace " + name)
    kf = {k["id"]: k for k in known_findings(ctx.prop)}
    cfg = "CONSTANTS\n ArchBits <- LP64\n"
    cs = dict(consts); cs["KnownDeviations"] = tla_set(kf)
    for k, v in cs.items(): cfg += " %s = %s\n" % (k, v)
    cfg += "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
    calls = [0]
    def one(tr, nm, k):
        r = ctx.tlc(module, cfg, env={"TRACE": tr}, name=nm, heap=heap)
        if not r.ok and "Attempted to" in r.out:
            # a recording the specification gives no meaning to: find the rows
            if k == 1:
                r.ok = True; r.distinct, r.generated = 2, 2; r.rejected = {1: []}
                r.lines = ["WHY 1 outside what the specification admits at all"]
                return r
            calls[0] += 1
            if calls[0] > 60: raise CheckError("TLC failed on %s: %s" % (nm, r.error()))
            L = open(tr).readlines(); m = len(L) // 2; tot = None
            for j, (a, b) in enumerate(((0, m), (m, len(L)))):
                with open("%s.h%d" % (tr, j), "w") as f: f.writelines(L[a:b])
                x = one("%s.h%d" % (tr, j), nm + "h", b - a)
                os.remove("%s.h%d" % (tr, j))
                if tot is None: tot = x
                else:
                    tot.rejected.update({p + a: q for p, q in x.rejected.items()})
                    tot.lines += [re.sub(r"^(WHY|REJ|CAN) (\d+)", lambda g: "%s %d" % (g.group(1), int(g.group(2)) + a), l) for l in x.lines]
                    tot.distinct += x.distinct; tot.generated += x.generated; tot.wall += x.wall
                if len(tot.rejected) >= 3 and j == 0:      # enough to report
                    tot.distinct += 2 * (b and len(L) - m); break
            return tot
        if not r.ok: raise CheckError("TLC failed on %s: %s" % (nm, r.error()))
        if r.distinct != 2 * k: raise CheckError("TLC visited %d states, expected %d" % (r.distinct, 2 * k))
        return r
    def go(tr, nm):
        """large traces are validated in pieces"""
        if os.path.getsize(tr) < CHUNK: return one(tr, nm, n)
        total, part, k, base, i = None, None, 0, 0, 0
        def end():
            nonlocal total
            part.close()
            r = one(tr + ".part", "%s-%d" % (nm, i), k)
            r.rejected = {a + base: b for a, b in r.rejected.items()}
            if total is None: total = r
            else:
                total.rejected.update(r.rejected); total.lines += r.lines; total.wall += r.wall
                total.distinct += r.distinct; total.generated += r.generated
        with open(tr) as f:
            for l in f:
                if part is None: part = open(tr + ".part", "w")
                part.write(l); k += 1
                if part.tell() >= CHUNK:
                    end(); base += k; k = 0; part = None; i += 1
        if k: end()
        return total
    r = go(trace, name)
    rows = None
    evals = 0
    with open(trace) as f:
        rows = [json.loads(l) for l in f]
    for x in rows: evals += max(1, len(x.get("c", [])))
    ctx.cov["states"] += r.distinct; ctx.cov["transitions"] += r.generated - n
    ctx.cov["traces_validated_against_impl"] += n
    ctx.cov["evaluations"] += evals
    ctx.part(name, module=module, rows=n, evaluations=evals, tlc_wall_s=round(r.wall, 1))
    why = {}
    devs = {}
    for l in r.lines:
        if l.startswith("WHY "):
            _, k, w = l.split(" ", 2)
            why[int(k)] = w
        if l.startswith("DEV "):
            _, d, row, cnt = l.split()
            devs[d] = devs.get(d, 0) + int(cnt)
    for d, c in sorted(devs.items()):
        ctx.known.append("%s: %s" % (d, kf[d]["what"]))
    if r.rejected:
        if exes:
            t2 = trace + ".again"
            record(ctx, exes, t2, budget)
            if open(t2, "rb").read() != open(trace, "rb").read():
                r2 = go(t2, name + "-again")
                both = {k: [i for i in v if i in r2.rejected[k]] for k, v in r.rejected.items() if k in r2.rejected}
                r.rejected = {k: v for k, v in both.items() if v or not r.rejected[k]}
                if not r.rejected: raise CheckError("rejections did not repeat on %s" % name)
        for k, v in sorted(r.rejected.items())[:max_report]:
            x = rows[k - 1]
            for i in (v[:2] if v else [0]):
                try: what = describe(x, i)
                except Exception: what = "%s rejected case %d" % (json.dumps(x)[:300], i)
                ctx.violation((why[k] + ": " if k in why else "") + what,
                              {"row": {a: b for a, b in x.items() if a != "c"}, "case": x["c"][i - 1] if i and "c" in x else None})
    for x in rows[:: max(1, len(rows) // 4)][:4]:
        if "c" in x and x["c"]:
            ctx.samples.append((describe or (lambda x, i: json.dumps(x)[:200]))(x, 1 + len(x["c"]) // 2))
    return rows, r

def zint(a):
    v = 0
    for l in reversed(a[1:]): v = (v << 15) | l
    return -v if a[0] < 0 else v

def tdesc(t):
    return "%s%s%d[%d..%d]" % ("safe " if t["sf"] else "", "i" if t["s"] else "u", t["b"], zint(t["lo"]), zint(t["hi"]))

def describe_bin(x, i):
    c = x["c"][i - 1]
    return "policy %s: (%s)%d %s (%s)%d -> %s%s%s  result type %s" % (
        x["pp"], tdesc(x["T"]), zint(c[0]), x["op"], tdesc(x["U"]), zint(c[1]), c[2],
        " %d" % zint(c[3]) if c[2] == "ok" else "", "" if c[4] == "-" else " via handler " + c[4], tdesc(x["R"]))

def describe_const(x, i):
    c = x["c"][i - 1]
    return "policy %s: %s %s (%s)%d%s in constant expression -> %s%s; at run time -> %s %d" % (
        x["pp"], x["k"], x["op"], tdesc(x["T"]), zint(c[0]), " , (%s)%d" % (tdesc(x["U"]), zint(c[1])) if "U" in x else "",
        c[2], " %d" % zint(c[3]) if c[2] == "ok" else "", c[6], zint(c[7])) + "  type " + tdesc(x["R"])

def describe_any(x, i):
    if x["k"] == "bin": return describe_bin(x, i)
    c = x["c"][i - 1] if i else None
    if not c: return json.dumps({k: v for k, v in x.items() if k != "c"})
    if x["k"] == "asg":
        return "policy %s: (%s)%d %s (%s)%d -> %s, target then %d  (operation in %s)" % (
            x["pp"], tdesc(x["T"]), zint(c[0]), x["op"], tdesc(x["U"]), zint(c[1]), c[2], zint(c[5]), tdesc(x["R"]))
    if x["k"] == "conv":
        return "%s of (%s)%d to %s -> %s%s, target before %d, afterwards %d" % (
            x["op"], tdesc(x["T"]), zint(c[0]), tdesc(x["R"]), c[2], " %d" % zint(c[3]) if c[2] == "ok" else "", zint(c[1]), zint(c[5]))
    if x["k"] == "un":
        return "policy %s: %s (%s)%d -> %s%s, operand then %d  (operation in %s)" % (
            x["pp"], x["op"], tdesc(x["T"]), zint(c[0]), c[2], " %d" % zint(c[3]) if c[2] == "ok" else "", zint(c[5]), tdesc(x["R"]))
    return json.dumps(x)[:400]

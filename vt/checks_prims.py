"""C11 C12 C13 C19: the building blocks."""
import random
from .common import *
from .rows import *
from .types_ import *

PRE = '#include "vt_prims.hpp"'
TYPES = [BUILTIN[n][0] for n in MAIN]
PR = ["add", "sub", "mul", "div", "mod", "neg", "shl", "shr", "and", "or", "xor", "not"]
ASSUME = ["LP64, two's complement, g++ 13 at -O0 -fwrapv", "the recorder (harness/vt_prims.hpp) reports faithfully"]

def prims(r, thorough):
    st = []
    for t in TYPES:
        for p in PR: st.append("prim<pr_%s,%s>();" % (p, t))
    step = 1 if thorough else 3
    for t in ("signed char", "unsigned char"):
        for p in PR:
            if p in ("and", "or", "xor") and not thorough: continue
            if p in ("neg", "not"): st.append("prim_all<pr_%s,%s>(0,1);" % (p, t))
            elif thorough:
                st += ["prim_all<pr_%s,%s>(%d,8);" % (p, t, a) for a in range(8)]
            else: st.append("prim_all<pr_%s,%s>(%d,%d);" % (p, t, r.randrange(step), step))
    for a in TYPES:
        for b in TYPES: st.append("cast<%s,%s>();" % (a, b))
    return st

EX = ["add", "sub", "mul", "div", "mod", "neg", "shl", "shr", "and", "or", "xor", "not", "lt", "le", "gt", "ge", "eq", "ne"]
def exts(r, thorough):
    st = ["extop<ex_%s,%s>();" % (o, t) for o in EX for t in
          (TYPES if thorough else ["signed char", "unsigned char", "short", "int", "unsigned int", "long", "unsigned long"])]
    for t in ("signed char", "unsigned char"):
        for o in EX:
            if thorough: st += ["extop_all<ex_%s,%s>(%d,16);" % (o, t, a) for a in range(16)]
            elif o in ("shl", "shr", "mod", "div", "mul"): st.append("extop_all<ex_%s,%s>(%d,12);" % (o, t, r.randrange(12)))
    return st

IV = ["add", "sub", "mul", "div", "mod", "shl", "shr", "or", "and"]
IP = ["lt", "gt", "le", "ge", "int", "inc", "exc", "incp", "excp"]
def ivls(r, thorough):
    st = []
    for t in TYPES:
        if thorough or t not in ("char", "long long", "unsigned long long"):
            b = "sn::checked_result<%s>" % t
            for o in IV: st.append("ivl_op<iv_%s,%s,%s>(true);" % (o, t, b))
            for o in IP: st.append("ivl_pred<ip_%s,%s,%s>(true);" % (o, t, b))
    for t in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"):
        for o in IV: st.append("ivl_op<iv_%s,%s,%s>(false);" % (o, t, t))
    for t in TYPES:
        for o in IP + ["eq", "ne"]: st.append("ivl_pred<ip_%s,%s,%s>(false);" % (o, t, t))
    return st

def utils(r, thorough):
    names = TYPES if thorough else [BUILTIN[n][0] for n in CORE]
    st = ["scmp<sc_%s,%s,%s>();" % (o, a, b) for o in ("lt", "gt", "le", "ge", "eq", "ne") for a in names for b in names]
    st += ["utils<%s>();" % t for t in TYPES] + ["picks<%s>();" % t for t in TYPES]
    edge = []
    for b in (7, 8, 15, 16, 31, 32, 63):
        for d in (-2, -1, 0, 1): edge += [(1 << b) + d, -(1 << b) + d]
    for sg in (1, 0):
        L, H = tlo(sg, 64), thi(sg, 64)
        rs = [(min(x, y), max(x, y)) for x in edge for y in (0, x, 1, -1) if L <= x <= H and L <= y <= H]
        rs += [rnd_range(r, bool(sg)) for _ in range(300 if thorough else 100)]
        for lo, hi in sorted(set(rs)):
            for how in ("stored", "range"):
                nm = "signed" if sg else "unsigned"
                c = "sn::utility::%s_stored_type<%s,%s>" % (nm, lit(lo), lit(hi)) if how == "stored" else \
                    "vt::base<sn::safe_%s_range<%s,%s>>" % (nm, lit(lo), lit(hi))
                st.append("stored<%s>(%d,(i128)%s,(i128)%s);" % (c, sg, lit(lo), lit(hi)))
    return st

GEN = {"C11": prims, "C12": exts, "C13": ivls, "C19": utils}

def ext_s(k, v): return str(zint(v)) if k == "ok" else k
def describe(x, i):
    c = x["c"][i - 1]
    R = x.get("R")
    if x["k"] == "prim": return "checked %s<%s>(%d, %d) -> %s %d" % (x["op"], tdesc(R), zint(c[0]), zint(c[1]), c[2], zint(c[3]))
    if x["k"] == "cast": return "checked::cast<%s>((%s)%d) -> %s %d" % (tdesc(R), tdesc(x["T"]), zint(c[0]), c[2], zint(c[3]))
    if x["k"] == "ext": return "checked_result<%s>: %s %s %s -> %s %d" % (
        tdesc(R), ext_s(c[0], c[1]), x["op"], ext_s(c[2], c[3]), c[4], zint(c[5]))
    if x["k"] in ("ivl", "ivp"): return "interval<%s%s>: [%d,%d] %s [%d,%d] -> %s %d .. %s %d" % (
        "checked " if x["ck"] else "", tdesc(R), zint(c[0]), zint(c[1]), x["op"], zint(c[2]), zint(c[3]), c[4], zint(c[5]), c[6], zint(c[7]))
    if x["k"] == "scmp": return "safe_compare (%s)%d %s (%s)%d -> %s %d" % (
        tdesc(x["T"]), zint(c[0]), x["op"], tdesc(x["U"]), zint(c[1]), c[2], zint(c[3]))
    if x["k"] == "stored": return "type selected to store [%d..%d] is %s" % (zint(c[0]), zint(c[1]), tdesc(R))
    return "%s<%s>(%d, %d) -> %s %d" % (x["op"], tdesc(R), zint(c[0]), zint(c[1]), c[2], zint(c[3]))

def blocks(ctx):
    r = random.Random("%s %d" % (ctx.prop, ctx.seed))
    ctx.assumptions += ASSUME
    st = GEN[ctx.prop](r, ctx.thorough)
    budget = {"C11": 150, "C12": 60, "C13": 150, "C19": 60}[ctx.prop] * (3 if ctx.thorough else 1)
    ctx.log("%d rows" % len(st))
    tr, ex = run_rows(ctx, st, "blocks", budget, pre=PRE)
    ctx.log("recorded")
    validate(ctx, tr, "PrimsTrace", {"Prop": '"%s"' % ctx.prop}, "blocks", ex, budget, describe)

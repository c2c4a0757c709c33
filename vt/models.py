"""Exhaustive checks of the specification itself on toy machines."""
import json, random
from .common import *

TOY = "CONSTANTS\n ArchBits <- ToyArch\n"
def run_model(ctx, module, consts, invs, name=None, init="Init", nxt="Next", props=(), head=TOY, constraint=None, timeout=840, extra=()):
    cfg = head + "".join(" %s\n" % c for c in consts) + "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt)
    if invs: cfg += "INVARIANTS " + " ".join(invs) + "\n"
    if props: cfg += "PROPERTIES " + " ".join(props) + "\n"
    if constraint: cfg += "CONSTRAINT %s\n" % constraint
    r = ctx.tlc(module, cfg, name=name or module, timeout=timeout, extra=extra)
    if not r.ok: raise CheckError("the specification violates its own properties (%s): %s" % (module, r.error()))
    ctx.cov["states"] += r.distinct; ctx.cov["transitions"] += r.generated
    ctx.part(name or module, module=module, consts=list(consts), invariants=list(invs) + list(props), states=r.distinct,
             transitions=r.generated, exhaustive=True, tlc_wall_s=round(r.wall, 1))
    ctx.log("%s: %d states, %.1fs" % (name or module, r.distinct, r.wall))
    return r

def promotion(ctx):
    run_model(ctx, "MC_Promotion", ["Points <- " + ("ToyPoints" if ctx.thorough else "QuickPoints")],
              ["RangeOK", "AutoOK", "NativeOK", "CppOK", "OpsOK", "CmpOKs"])
def checked(ctx):
    run_model(ctx, "MC_Checked", ["MaxBits = %d" % (6 if ctx.thorough else 4)],
              ["Justified", "Codes", "DivMod", "Bitwise", "Conversions"])
def extint(ctx):
    run_model(ctx, "MC_ExtInt", ["ToyBits = %d" % (5 if ctx.thorough else 3), "Far = %d" % (48 if ctx.thorough else 12)],
              ["CmpSound", "Trichotomy", "Exact", "SumDir", "SignLaw", "Commute", "UnknownStays", "ShiftInverse"])
def interval(ctx):
    run_model(ctx, "MC_Interval", ["M = %d" % (8 if ctx.thorough else 4)], ["Reached", "Preds", "Sets"])

def z(x):
    m, l = abs(x), []
    while m: l.append(m & 32767); m >>= 15
    return [0] if x == 0 else [1 if x > 0 else -1] + l
def zint_model(ctx):
    """ZInt.tla, ZInt.java and Python's integers agree"""
    r = random.Random("zint %d" % ctx.seed)
    def rnd():
        b = r.choice([3, 8, 14, 15, 16, 29, 30, 31, 45, 60, 63, 64, 65, 90, 128])
        x = r.choice([r.getrandbits(b), (1 << b) - r.randrange(3), (1 << b) + r.randrange(3), r.randrange(4)])
        return -x if r.random() < .5 else x
    def q(a, b):
        v = abs(a) // abs(b)
        return -v if (a < 0) != (b < 0) else v
    F = {"add": lambda a, b, k: a + b, "sub": lambda a, b, k: a - b, "mul": lambda a, b, k: a * b,
         "quot": lambda a, b, k: q(a, b), "rem": lambda a, b, k: a - b * q(a, b), "and": lambda a, b, k: a & b,
         "or": lambda a, b, k: a | b, "xor": lambda a, b, k: a ^ b, "not": lambda a, b, k: ~a,
         "shl": lambda a, b, k: a << k, "shr": lambda a, b, k: a >> k, "low": lambda a, b, k: a & ((1 << k) - 1),
         "pow2": lambda a, b, k: 1 << k, "cmp": lambda a, b, k: (a > b) - (a < b), "bits": lambda a, b, k: abs(a).bit_length(),
         "neg": lambda a, b, k: -a, "min": lambda a, b, k: min(a, b), "max": lambda a, b, k: max(a, b), "abs": lambda a, b, k: abs(a)}
    n = 400 if ctx.thorough else 25
    tr = ctx.path("zint.ndjson")
    with open(tr, "w") as f:
        for op, fn in F.items():
            c = []
            for _ in range(n):
                a, b, k = rnd(), rnd(), r.randrange(0, 131)
                if r.random() < .15: b = a
                if op in ("quot", "rem") and b == 0: b = 1
                c.append([z(a), z(b), k, z(fn(a, b, k))])
            f.write(json.dumps({"op": op, "c": c}) + "\n")
    for ov in (True, False):
        nm = "zint-" + ("java" if ov else "pure")
        x = ctx.tlc("MC_ZInt", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tr}, override=ov, name=nm)
        if not x.ok or x.rejected: raise CheckError("%s disagrees with the oracle: %s %s" % (nm, x.rejected, x.error()[:500]))
        ctx.cov["states"] += x.distinct
        ctx.part(nm, module="MC_ZInt", evaluations=n * len(F), tlc_wall_s=round(x.wall, 1))

def machine(ctx):
    for pp in ("n", "a", "c") if ctx.thorough or ctx.prop == "C03" else ("c",):
        run_model(ctx, "MC_SafeMachine", ['Pp = "%s"' % pp, "NV = %d" % (3 if ctx.thorough else 2)], ["InV"],
                  name="MC_SafeMachine-" + pp)
def trap(ctx):
    run_model(ctx, "MC_Trap", ["Points <- " + ("ToyPoints" if ctx.thorough else "QuickPoints")],
              ["BinOK", "AsgsOK", "CmpsOK", "ConvsOK", "UnsOK"])

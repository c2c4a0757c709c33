"""C16: the operators in constant expressions."""
import random
from .common import *
from .rows import *
from .types_ import *
from .ops import *
from .checks_ops import policies

PRE = '#include "vt_cx.hpp"'
EPS = [EP, EP, "sn::strict_exception_policy"]
SYM = {"op_add": "+", "op_sub": "-", "op_mul": "*", "op_div": "/", "op_mod": "%", "op_shl": "<<", "op_shr": ">>", "as_": ""}
LIMITS = [v for b in (8, 16, 32, 64) for s in (True, False) for v in {tlo(s, b), thi(s, b)}]

def clit(x, cpp): return "(%s)%s" % (cpp, lit(x)) if cpp != "bool" else str(x)
def cppbase(t): return "bool" if t is BOOL else BUILTIN[t.name][0]

def inside(r, T):
    k = r.randrange(6)
    if k == 0: return T.lo
    if k == 1: return T.hi
    if k == 2:
        c = [x for x in (0, 1, -1) if T.lo <= x <= T.hi]
        if c: return r.choice(c)
    return rnd_point(r, T.lo, T.hi)

def pairs(r, op, T, U, n):
    """operand pairs, half of them aimed at a limit of some type"""
    out = {(T.lo, U.lo), (T.hi, U.hi), (T.lo, U.hi), (T.hi, U.lo)}
    if T.lo <= 0 <= T.hi: out.add((0, inside(r, U)))
    if U.lo <= 0 <= U.hi: out.add((inside(r, T), 0))
    tries = 0
    while len(out) < n and tries < 200:
        tries += 1
        t, u = inside(r, T), inside(r, U)
        if r.random() < .7:
            L = r.choice(LIMITS + [T.lo, T.hi]) + r.choice([-1, 0, 1])
            o = op[3:]
            if o == "add": u = L - t
            elif o == "sub": u = t - L
            elif o == "mul" and t: u = L // t + r.choice([0, 1])
            elif o == "shl" and t > 0: u = max(0, abs(L).bit_length() - t.bit_length() + r.choice([-1, 0, 1]))
            elif o == "shl" or o == "shr": u = r.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, -1])
            elif o in ("lt", "le", "gt", "ge", "eq", "ne"): u = t + r.choice([-1, 0, 1])
            elif o in ("div", "mod"): u = r.choice([-1, 1, 0, 2, t])
        if T.lo <= t <= T.hi and U.lo <= u <= U.hi: out.add((t, u))
    return sorted(out)

def wrap(decl, pp, ats):
    # members of cxrow emit the row when the object goes away
    return '{ %s x("%s"); %s }' % (decl, pp, " ".join(ats))

def rows(r, f):
    st = []
    pps = policies(r, 2)
    def safe_t(pp, ep):
        while True:
            t = rnd_safe(r, pp, ep)
            if fits_policy(pp, t): return t
    def operand(pp, ep):
        while True:
            t = builtin(r.choice(MAIN)) if r.random() < .25 else rnd_safe(r, pp, ep)
            if fits_policy(pp, t): return t
    def bin_(op, T, U, pp, n=9):
        st.append(wrap("cbin<%s,%s,%s>" % (op, T.cpp, U.cpp), pp,
                       ["x.at<%s,%s>();" % (clit(t, cppbase(T)), clit(u, cppbase(U))) for t, u in pairs(r, op, T, U, n)]))
    def asg_(op, T, U, pp, n=8):
        st.append(wrap("casg<%s,%s,%s>" % (ASG[op], T.cpp, U.cpp), pp,
                       ["x.at<%s,%s>();" % (clit(t, cppbase(T)), clit(u, cppbase(U))) for t, u in pairs(r, op, T, U, n)]))
    allops = ARITH + SHIFT + BITS + CMP
    for pp in ("n", "a"):
        for a in MAIN:
            for b in MAIN:
                ep = r.choice(EPS)
                k = r.randrange(3)
                T = builtin(a) if k == 1 else safe(a, pp, ep)
                U = builtin(b) if k == 2 else safe(b, pp, ep)
                for op in r.sample(ARITH, 2) + r.sample(SHIFT + BITS, 1) + r.sample(CMP, 1): bin_(op, T, U, pp)
    for _ in range(int(150 * f)):
        pp, ep = r.choice(pps), r.choice(EPS)
        T, U = safe_t(pp, ep), operand(pp, ep)
        if r.random() < .5: T, U = U, T
        for op in r.sample(allops, 4): bin_(op, T, U, pp)
    for _ in range(int(70 * f)):
        pp, ep = r.choice(pps), r.choice(EPS)
        while True:
            T, U = safe_t(pp, ep), operand(pp, ep)
            if T.lo <= 0 <= T.hi and U.lo <= 0 <= U.hi: break
        if r.random() < .1 and not pp.startswith("c"): T, U = builtin(r.choice(CORE)), T
        for op in r.sample(ARITH + SHIFT + BITS, 4): asg_(op, T, U, pp)
    for pp in pps:
        for T in [safe(a, pp, r.choice(EPS)) for a in MAIN] + [safe_t(pp, r.choice(EPS)) for _ in range(int(14 * f))]:
            if not fits_policy(pp, T): continue
            vs = sorted({T.lo, T.hi, min(T.lo + 1, T.hi), max(T.hi - 1, T.lo)} | {inside(r, T) for _ in range(4)})
            step = has_int(pp) and T.lo < T.hi and T.lo < (1 << 62) and T.hi > -(1 << 62)
            for op in UNARY + (STEPS if step else []):
                st.append(wrap("cun<%s,%s>" % (op, T.cpp), pp, ["x.at<%s>();" % clit(v, cppbase(T)) for v in vs]))
    n = 0
    while n < 260 * f:
        pp, ep = r.choice(["n", "a", "c8-16-32-64-64"]), r.choice(EPS)
        D = safe_t(pp, ep)
        S = safe_t(r.choice(["n", "a"]), r.choice(EPS)) if r.random() < .6 else BOOL if r.random() < .06 else builtin(r.choice(MAIN + CHARS))
        forms = ["f_ctor", "f_imp", "f_set"]
        if r.random() < .35: D, S, forms = builtin(r.choice(MAIN + CHARS)), D, ["f_cast", "f_imp"]
        if not overlap(S, D): continue
        n += 1
        vs = {x for b in (D.lo, D.hi) for x in (b - 1, b, b + 1)} | {S.lo, S.hi, inside(r, S), inside(r, S)}
        form = r.choice(forms)
        st.append(wrap("cconv<%s,%s,%s>" % (form, D.cpp, S.cpp), pp,
                       ["x.at<%s>();" % clit(v, cppbase(S)) for v in sorted(vs) if S.lo <= v <= S.hi]))
    return st

def constants(ctx):
    r = random.Random("const %d" % ctx.seed)
    ctx.assumptions += ["the compiler (g++ 13, -std=c++14) decides correctly what a constant expression is",
                        "an expression is tried as a non-type template argument: not constant means the overload is not chosen"]
    st = rows(r, 6 if ctx.thorough else 1.5)
    ctx.log("%d operations, %d expressions" % (len(st), sum(s.count("x.at<") for s in st)))
    tr, ex = run_rows(ctx, st, "const", 0, pre=PRE)
    ctx.log("recorded")
    validate(ctx, tr, "OpsTrace", {"Prop": '"C16"'}, "const", ex, 0, describe_const)

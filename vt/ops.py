"""Rows for the operator conformance checks."""
import random
from .types_ import *

ARITH = ["op_add", "op_sub", "op_mul", "op_div", "op_mod"]
SHIFT = ["op_shl", "op_shr"]
BITS = ["op_and", "op_or", "op_xor"]
CMP = ["op_lt", "op_le", "op_gt", "op_ge", "op_eq", "op_ne"]
ASG = {o: "as_" + o[3:] for o in ARITH + SHIFT + BITS}

def row(op, T, U, pp): return 'bin<%s,%s,%s>("%s");' % (op, T.cpp, U.cpp, pp)

def fits_policy(pp, *ts):
    """cpp<> policies are only meaningful for operands that exist on the emulated machine"""
    if not pp.startswith("c"): return True
    w = max(int(x) for x in pp[1:].split("-"))
    return all(t.b <= w for t in ts)

def matrix(r, ops, pps, forms_sample, names=MAIN):
    """every pair of built-in types, as (safe, safe) and sampled (safe, built-in), (built-in, safe)"""
    out = []
    for pp in pps:
        for a in names:
            for b in names:
                forms = [(safe(a, pp), safe(b, pp))]
                if r.random() < forms_sample: forms.append((safe(a, pp), builtin(b)))
                if r.random() < forms_sample: forms.append((builtin(a), safe(b, pp)))
                for T, U in forms:
                    if not fits_policy(pp, T, U): continue
                    for op in ops: out.append(row(op, T, U, pp))
    return out

def ranged(r, ops, pps, n):
    """random declared ranges"""
    out = []
    for _ in range(int(n)):
        pp = r.choice(pps)
        while True:
            T, U = rnd_operand(r, pp), rnd_operand(r, pp)
            if (T.safe or U.safe) and fits_policy(pp, T, U): break
        for op in ops: out.append(row(op, T, U, pp))
    return out

UNARY = ["un_neg", "un_pos", "un_not"]
STEPS = ["un_preinc", "un_predec", "un_postinc", "un_postdec"]

def asg_row(op, T, U, pp): return 'asg<%s,%s,%s>("%s");' % (ASG[op], T.cpp, U.cpp, pp)
def un_row(op, T, pp): return 'un<%s,%s>("%s");' % (op, T.cpp, pp)

def asg_matrix(r, ops, pps, sample, names=MAIN):
    out = []
    for pp in pps:
        for a in names:
            for b in names:
                for T, U in ((safe(a, pp), safe(b, pp)), (safe(a, pp), builtin(b)), (builtin(a), safe(b, pp))):
                    if not fits_policy(pp, T, U) or r.random() >= sample: continue
                    for op in ops: out.append(asg_row(op, T, U, pp))
    return out

def with_zero(r, pp, big=False):
    """a safe type whose range contains 0 (so that no compound assignment is statically impossible)"""
    while True:
        T = rnd_safe(r, pp)
        if T.lo <= 0 <= T.hi and fits_policy(pp, T): return T

def asg_ranged(r, ops, pps, n):
    out = []
    for _ in range(int(n)):
        pp = r.choice(pps)
        T = with_zero(r, pp)
        while True:
            U = with_zero(r, pp) if r.random() < .7 else builtin(r.choice(MAIN))
            if fits_policy(pp, U): break
        if r.random() < .15:
            T, U = builtin(r.choice(CORE)), with_zero(r, pp)
            if not fits_policy(pp, T): continue
        for op in ops: out.append(asg_row(op, T, U, pp))
    return out

def has_int(pp):
    """does the emulated machine have the type of the constant 1 in ++x"""
    return not pp.startswith("c") or "32" in pp[1:].split("-")

def un_matrix(r, ops, pps, n):
    out = []
    for pp in pps:
        for a in MAIN:
            T = safe(a, pp)
            if fits_policy(pp, T): out += [un_row(op, T, pp) for op in ops if has_int(pp) or op not in STEPS]
        for _ in range(int(n)):
            T = rnd_safe(r, pp)
            # a step whose result can never be stored (one-value ranges, ranges above every signed type) does not compile
            step = has_int(pp) and T.lo < T.hi and T.lo < (1 << 62) and T.hi > -(1 << 62)
            if fits_policy(pp, T): out += [un_row(op, T, pp) for op in ops if step or op not in STEPS]
    return out

# ---------------------------------------------------------------- conversions
CHARS = ["wc", "c16", "c32"]
def overlap(a, b): return max(a.lo, b.lo) <= min(a.hi, b.hi)
def conv_rows(S, D, pp):
    """every way to convert S to D; conversions of ranges without a common value do not compile by design"""
    if not overlap(S, D): return []
    forms = ["ctor", "set", "imp"] if D.safe else ["cast_", "imp"]
    return ['%s<%s,%s>("%s");' % (f, D.cpp, S.cpp, pp) for f in forms]

def conv_matrix(r, names=MAIN + CHARS):
    out = []
    for a in names:
        for b in names:
            pp = r.choice(["n", "a"])
            out += conv_rows(builtin(a), safe(b, pp), pp) + conv_rows(safe(a, pp), builtin(b), pp)
            out += conv_rows(safe(a, pp), safe(b, r.choice(["n", "a"])), pp)
        out += conv_rows(BOOL, safe(a, "n"), "n") + conv_rows(safe(a, "a"), BOOL, "a")
    return out

def conv_ranged(r, n):
    out = []
    pps = ["n", "a", "c8-16-32-64-64"]
    while len(out) < n:
        pp = r.choice(pps)
        D = rnd_safe(r, r.choice(pps))
        S = rnd_safe(r, pp) if r.random() < .6 else BOOL if r.random() < .05 else builtin(r.choice(MAIN + CHARS))
        if r.random() < .3 and D.lo < D.hi:
            # source range next to the destination's
            d = r.choice([-1, 0, 1]); e = r.choice([-1, 0, 1])
            sg = r.random() < .6
            lo, hi = D.lo + d, D.hi + e
            if tlo(sg, 64) <= lo <= hi <= thi(sg, 64): S = rng_type(lo, hi, sg, pp)
        out += conv_rows(S, D, pp)
        out += conv_rows(D, builtin(r.choice(MAIN + CHARS)), pp)
    return out

def around_zero(r, ops, pps, names):
    """divisors and factors whose ranges just include or exclude zero"""
    out = []
    for pp in pps:
        for n in names:
            T = safe(n, pp)
            for lo, hi in ((-8, -1), (1, 7), (-1, -1), (0, 5), (-5, 0), (-1, 0), (-128, -1)):
                U = rng_type(lo, hi, lo < 0 or r.random() < .5, pp)
                if fits_policy(pp, T, U): out += [row(op, T, U, pp) for op in ops]
    return out

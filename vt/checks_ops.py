"""C01 C02 C05 C06 C07 C09 C10: the operators."""
import random
from .common import *
from .rows import *
from .ops import *

CPPS = [k for k in POLICY if k.startswith("c")]
ASSUME = ["LP64, two's complement, g++ 13 at -O0 -fwrapv (a wrapped result is a wrong value, not undefined behaviour)",
          "the recorder (harness/vt.hpp) reports types, operands and outcomes faithfully",
          "ZInt.java agrees with ZInt.tla (checked by MC_ZInt in the C11 check)"]

def policies(r, k=2):
    return ["n", "a"] + r.sample(CPPS, k)

def rows_for(prop, r, thorough):
    f = 4 if thorough else {"C03": 1.2, "C04": 1.3, "C06": 1}.get(prop, 1.6)
    pp = policies(r, 3 if thorough else 2)
    al = ["n", "a"]
    st = []
    if prop in ("C01", "C02"):
        st += matrix(r, ARITH, ["n", "a"], .25 * f) + matrix(r, ARITH, pp[2:], 0, CORE)
        st += ranged(r, ARITH, pp, 170 * f)
        st += asg_matrix(r, ARITH, pp, .06 * f) + asg_ranged(r, ARITH, pp, 45 * f)
        st += un_matrix(r, UNARY[:2] + STEPS, pp, 20 * f)
        st += around_zero(r, ["op_div", "op_mod", "op_mul"], ["n", r.choice(["a", pp[2]])], CORE)
        if prop == "C02":
            st += matrix(r, SHIFT, al, 0, CORE) + ranged(r, SHIFT, pp, 60 * f)
    elif prop in ("C03", "C04"):
        st += asg_matrix(r, ARITH + SHIFT + BITS, pp, .07 * f) + asg_ranged(r, ARITH + SHIFT + BITS, pp, 70 * f)
        st += un_matrix(r, STEPS, pp, 30 * f)
        st += conv_ranged(r, 600 * f)
    elif prop == "C05":
        st += ranged(r, ARITH + SHIFT + BITS, pp, 280 * f)
        st += un_matrix(r, UNARY, pp, 30 * f)
        st += nested(r, pp, 500 * f)
    elif prop == "C06":
        st += matrix(r, ARITH + SHIFT + BITS, ["n"], 1, MAIN + ["wc", "c16", "c32"])
        st += matrix(r, ARITH + BITS, ["a"], .5)
        st += ranged(r, ARITH, ["a"], 170 * f) + ranged(r, ARITH + SHIFT + BITS, pp, 30 * f)
        cs = CPPS if thorough else pp[2:] + [r.choice(CPPS)]
        st += matrix(r, ["op_add", "op_div", "op_shl", "op_and"], sorted(set(cs)), 0, CORE)
        st += un_matrix(r, ["un_neg", "un_not"], ["n", "a"] + sorted(set(cs)), 20 * f)
    elif prop == "C07":
        st += matrix(r, CMP, al, .4 * f) + matrix(r, CMP, pp[2:], 0, CORE)
        st += ranged(r, CMP, pp, 330 * f)
    elif prop == "C08":
        st += conv_matrix(r) + conv_ranged(r, 900 * f)
    elif prop == "C09":
        st += matrix(r, SHIFT, al, 1) + matrix(r, SHIFT, pp[2:], .3, CORE)
        st += ranged(r, SHIFT, pp, 500 * f)
        st += asg_matrix(r, SHIFT, pp, .12 * f) + asg_ranged(r, SHIFT, pp, 120 * f)
    elif prop == "C10":
        st += matrix(r, BITS, al, .6) + matrix(r, BITS, pp[2:], 0, CORE)
        st += ranged(r, BITS, pp, 330 * f)
        st += asg_matrix(r, BITS, pp, .08 * f) + asg_ranged(r, BITS, pp, 80 * f)
        st += un_matrix(r, ["un_not"], pp, 60 * f)
    return st

class Ex:
    def __init__(self, cpp): self.cpp = cpp
CXXOP = {"op_add": "+", "op_sub": "-", "op_mul": "*", "op_div": "/", "op_mod": "%", "op_shl": "<<", "op_shr": ">>",
         "op_and": "&", "op_or": "|", "op_xor": "^"}
def nested(r, pps, n):
    """operators whose operands have the types of other expressions"""
    out = []
    ops = ARITH * 2 + SHIFT + BITS
    def expr(pp, depth):
        if depth == 0:
            while True:
                t = rnd_safe(r, pp)
                if fits_policy(pp, t): return t.cpp
        return "decltype(std::declval<%s>() %s std::declval<%s>())" % (
            expr(pp, depth - 1), CXXOP[r.choice(ops)], expr(pp, r.randrange(depth)))
    for _ in range(int(n)):
        pp = r.choice(pps)
        op = r.choice(ops)
        out.append(row(op, Ex(expr(pp, r.choice([1, 1, 2]))), Ex(expr(pp, r.choice([0, 0, 1]))), pp))
    return out

def operators(ctx):
    r = random.Random("%s %d" % (ctx.prop, ctx.seed))
    ctx.assumptions += ASSUME
    st = rows_for(ctx.prop, r, ctx.thorough)
    budget = {"C06": 4}.get(ctx.prop, 120 if ctx.thorough else 40)
    ctx.log("%d operator instantiations" % len(st))
    tr, ex = run_rows(ctx, st, "ops", budget)
    ctx.log("recorded")
    validate(ctx, tr, "OpsTrace", {"Prop": '"%s"' % ctx.prop}, "ops", ex, budget, describe_any)

"""C14: errors and handlers."""
import random
from .common import *
from .rows import *
from .types_ import *
from .ops import *

LOG = "vt::logging"
PRE = '#include "vt_dispatch.hpp"'
PREDEF = {"loose": "sn::loose_exception_policy", "strict": "sn::strict_exception_policy", "default": "sn::default_exception_policy"}

def rows(r, f):
    st = []
    pps = ["n", "a", "c8-16-32-64-64"]
    def pick(pp, ep, zero=False):
        while True:
            t = rnd_safe(r, pp, ep)
            if fits_policy(pp, t) and (not zero or (t.lo <= 0 <= t.hi)): return t
    def other(pp, ep, zero=False): return builtin(r.choice(MAIN)) if r.random() < .3 else pick(pp, ep, zero)
    for pp in ("n", "a"):
        for a in CORE:
            for b in CORE:
                for op in ARITH + SHIFT:
                    if r.random() < .3 * f:
                        st.append('dbin<%s,%s,%s>("log","%s");' % (op, safe(a, pp, LOG).cpp, safe(b, pp, LOG).cpp, pp))
    for _ in range(120 * f):
        pp = r.choice(pps)
        T, U = pick(pp, LOG), other(pp, LOG)
        if not fits_policy(pp, U): continue
        if r.random() < .5: T, U = U, T
        for op in ARITH + SHIFT + BITS + [r.choice(CMP)]: st.append('dbin<%s,%s,%s>("log","%s");' % (op, T.cpp, U.cpp, pp))
    for _ in range(60 * f):
        pp = r.choice(pps)
        T, U = pick(pp, LOG, True), other(pp, LOG, True)
        if not fits_policy(pp, U): continue
        for op in ARITH + SHIFT + BITS: st.append('dasg<%s,%s,%s>("log","%s");' % (ASG[op], T.cpp, U.cpp, pp))
        if T.lo < T.hi and T.lo < (1 << 62):
            for op in STEPS + ["un_neg"]: st.append('dun<%s,%s>("log","%s");' % (op, T.cpp, pp))
    for p, ep in list(PREDEF.items()) + [("log", LOG)]:
        for _ in range(40 * f):
            pp = r.choice(pps)
            T, U = pick(pp, ep), other(pp, ep)
            if not fits_policy(pp, U): continue
            for op in r.sample(ARITH, 2) + SHIFT:
                st.append('dbin<%s,%s,%s>("%s","%s");' % (op, T.cpp, U.cpp, p, pp))
            S = other(pp, ep)
            if overlap(S, T):
                st.append('dconv<%s,%s>("ctor","%s","%s");' % (T.cpp, S.cpp, p, pp))
                st.append('dset<%s,%s>("%s","%s");' % (T.cpp, S.cpp, p, pp))
            B = builtin(r.choice(MAIN))
            if overlap(B, T): st.append('dcast<%s,%s>("%s","%s");' % (B.cpp, T.cpp, p, pp))
        for n in r.sample(MAIN, 4):
            st.append('dflt<%s>("%s");' % (safe(n, r.choice(["n", "a"]), ep).cpp, p))
        st.append('disp<%s>("%s");' % (ep, p))
    st.append('dflt<sn::safe<int,sn::native,sn::loose_trap_policy>>("loose_trap");')
    st.append('disp_ignored<sn::loose_trap_policy>("loose_trap");')
    for _ in range(40 * f): st.append("din<%s>();" % pick(r.choice(pps), LOG).cpp)
    return st

def errors(ctx):
    """the error codes, across translation units, with and without optimization"""
    for flags, nm in ((CXXFLAGS, "O0"), ([("-O2" if x == "-O0" else x) for x in CXXFLAGS], "O2")):
        o = ctx.path("other-%s.o" % nm)
        e = sh([CXX] + flags + ["-c", os.path.join(HARN, "vt_other.cpp"), "-o", o])
        if e.returncode:
            ctx.violation("a program using the error codes in two translation units does not compile", {"stderr": e.stderr[-3000:]}); return
        src, exe = ctx.path("err-%s.cpp" % nm), ctx.path("err-%s.exe" % nm)
        with open(src, "w") as f: f.write('#include "vt.hpp"\n#include "vt_errors.hpp"\nvoid body(){ vt::errors(); }\n')
        e = sh([CXX] + flags + [src, o, support(ctx), "-o", exe])
        if e.returncode:
            ctx.violation("a program using the error codes in two translation units does not link", {"stderr": e.stderr[-3000:]}); return
        tr = ctx.path("err-%s.ndjson" % nm)
        record(ctx, [exe], tr, 1)
        validate(ctx, tr, "DispatchTrace", {"Prop": '"C14"'}, "errors-" + nm, [exe], 1, describe)

def dispatch(ctx):
    r = random.Random("dispatch %d" % ctx.seed)
    ctx.assumptions += ["handlers that return: what the library goes on with after an error is not judged, only what is delivered",
                        "the recorder (harness/vt_dispatch.hpp) reports faithfully"]
    errors(ctx)
    st = rows(r, 4 if ctx.thorough else 1)
    ctx.log("%d rows" % len(st))
    b = 60 if ctx.thorough else 25
    tr, ex = run_rows(ctx, st, "dispatch", b, PRE)
    validate(ctx, tr, "DispatchTrace", {"Prop": '"C14"'}, "dispatch", ex, b, describe)

def describe(x, i):
    c = x["c"][i - 1] if i else None
    if x["k"] in ("lbin", "lasg", "lun", "lconv", "pbin", "pconv") and c:
        return "%s %s policy %s/%s: (%s)%d %s -> %s %s  result type %s" % (x["k"], x["op"], x["p"], x["pp"], tdesc(x["T"]), zint(c[0]),
            "(%s)%d" % (tdesc(x["U"]), zint(c[1])) if "U" in x else "", c[2], c[3], tdesc(x["R"]))
    return "%s %s" % (json.dumps({k: v for k, v in x.items() if k != "c"})[:300], c)

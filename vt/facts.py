"""C18 literals, C20 what safe types say about themselves."""
import concurrent.futures as cf, json, random
from .common import *
from .rows import *
from .types_ import *
from .ops import *
from .checks_ops import policies, ASSUME
from . import constant
from .machine import tjson
Z = lambda x: tjson(Ty("", True, 64, x, x, True, "l"))["lo"]

PRE = '#include "vt_types.hpp"'
def i128(v): return "(vt::i128)%s" % lit(v)

def program(ctx, codes):
    """does each program compile (on its own)"""
    def one(x):
        i, c = x
        src = ctx.path("prog%d.cpp" % i)
        with open(src, "w") as f:
            f.write("#include \"vt.hpp\"\nusing namespace vt;\n" + c + "\n")
        r = sh([CXX] + CXXFLAGS + ["-fsyntax-only", src], timeout=600)
        os.unlink(src)
        return r.returncode == 0
    with cf.ThreadPoolExecutor(NPROC) as ex: return list(ex.map(one, enumerate(codes)))

def describe_fact(x, i):
    return json.dumps({k: (zint(v) if isinstance(v, list) and k in ("v", "l", "h", "min", "max", "lowest", "base") and v and v[0] in (-1, 0, 1) else v)
                       for k, v in x.items() if k not in ("c",)})[:600]

# ---------------------------------------------------------------- literals
EDGE = sorted({x for b in (7, 8, 15, 16, 31, 32, 63, 64) for d in (-1, 0, 1) for x in ((1 << b) + d, -(1 << b) + d)} | set(range(-3, 4)))

def lit_rows(r, f):
    st = []
    vals = [(v, s) for v in EDGE for s in (True, False) if tlo(s, 64) <= v <= thi(s, 64)]
    vals += [(lambda l: (l.lo, l.s))(rnd_literal(r)) for _ in range(60 * f)]
    for v, s in vals:
        form = r.choice(["plain", "plain", "policy", "make"])
        if form == "plain": c = literal(v, s).cpp
        elif form == "policy": c = literal(v, s, r.choice(["n", "a", "c8-16-32-64-64"])).cpp
        else:
            # make_safe_literal deduces signedness from the type of the constant
            e = [n for n in ("i", "l", "ll", "ui", "ul", "ull") if BUILTIN[n][1] == s and tlo(s, BUILTIN[n][2]) <= v <= thi(s, BUILTIN[n][2])]
            p, ep = r.choice([("void", "void"), ("sn::native", EP)])
            c = "decltype(make_safe_literal(%s,%s,%s))" % ("(%s)%s" % (BUILTIN[r.choice(e)][0], lit(v)), p, ep)
            if "," in ep: continue
        L = literal(v, s)
        acts = ["x.get<%s>();" % BUILTIN[n][0] for n in MAIN + CHARS if builtin(n).lo <= v <= builtin(n).hi]
        acts.append("x.pos<%s>();" % c)
        if tlo(s, L.b) <= -v <= thi(s, L.b): acts.append("x.neg<%s>();" % c)
        if tlo(s, L.b) <= ~v <= thi(s, L.b): acts.append("x.inv<%s>();" % c)
        st.append('{ typedef %s L; lit<L> x("%s",%d,%s); %s }' % (c, form, s, i128(v), " ".join(acts).replace(c, "L")))
    return st

def lit_exprs(r, f):
    st, cx = [], []
    pps = policies(r, 2)
    def T_(pp, zero=False):
        while True:
            t = rnd_safe(r, pp) if r.random() < .8 else safe(r.choice(CORE), pp)
            if fits_policy(pp, t) and (not zero or t.lo <= 0 <= t.hi): return t
    def L_(pp):
        while True:
            k = r.random()
            l = rnd_literal(r, None if k < .6 else pp)
            if k > .9 or r.random() < .3: l = literal(r.choice([0, 1, 2, 3, 5, 7, 8, 31, 32, 63, 100]), r.random() < .5, None if k < .6 else pp)
            if fits_policy(pp, l): return l
    allops = ARITH * 2 + SHIFT * 2 + BITS + CMP
    for _ in range(420 * f):
        pp = r.choice(pps)
        L = L_(pp)
        k = r.random()
        if k < .25 and L.plain: L = literal(L.lo, L.s, pp); O = literal(rnd_literal(r).lo, True) if False else L_(pp)
        elif k < .35 and not L.plain: O = builtin(r.choice(MAIN))
        else: O = T_(pp)
        if not fits_policy(pp, O): continue
        T, U = (L, O) if r.random() < .5 else (O, L)
        for op in set(r.sample(allops, 4)):
            st.append(row(op, T, U, pp))
            if r.random() < .2:
                base = lambda t: "decltype(%s)" % "0" if False else BUILTIN[t.name][0]
                cx.append(constant.wrap("cbin<%s,%s,%s>" % (op, T.cpp, U.cpp), pp,
                    ["x.at<%s,%s>();" % (constant.clit(t, base(T)), constant.clit(u, base(U))) for t, u in constant.pairs(r, op, T, U, 5)]))
    for _ in range(90 * f):
        pp = r.choice(pps)
        T, L = T_(pp, True), L_(pp)
        for op in r.sample(ARITH + SHIFT + BITS, 3):
            # keep results storable
            if op in ("op_add", "op_sub", "op_or", "op_xor") and T.hi - T.lo < abs(L.lo): continue
            if op in ("op_or", "op_xor", "op_and") and T.lo >= 0 and L.lo < 0: continue
            if op in ("op_add",) and not (T.lo <= L.lo + T.hi and L.lo + T.lo <= T.hi): continue
            if op in ("op_sub",) and not (T.lo <= T.hi - L.lo and T.lo - L.lo <= T.hi): continue
            if op in ("op_or", "op_xor") and abs(L.lo) > T.hi: continue
            st.append(asg_row(op, T, L, pp))
    for _ in range(120 * f):
        pp = r.choice(pps)
        D, L = T_(pp), L_(pp)
        if r.random() < .5: L = literal(r.choice([D.lo, D.hi, rnd_point(r, D.lo, D.hi)]), D.lo < 0 or D.s, None)
        if r.random() < .15 and not D.s and L.lo >= 0: L = literal(-1 - L.lo // 2, True, None)
        if D.lo <= L.lo <= D.hi or (L.lo < 0 and not D.s): st.append('%s<%s,%s>("%s");' % (r.choice(["ctor", "set", "imp"]), D.cpp, L.cpp, pp))
    return st, cx

def literals(ctx):
    r = random.Random("literals %d" % ctx.seed)
    ctx.assumptions += ASSUME
    f = 6 if ctx.thorough else 1
    tr, ex = run_rows(ctx, lit_rows(r, f), "lit", 0, pre=PRE)
    # programs which must not compile, and neighbours which must
    progs, info = [], []
    for _ in range(60 if ctx.thorough else 20):
        B = builtin(r.choice(["sc", "uc", "s", "us", "i", "ui"]))
        v = r.choice([B.lo - 1, B.lo, B.hi, B.hi + 1])
        s = v < 0 or r.random() < .6
        progs.append("%s f(){ return %s(); }" % (B.cpp, literal(v, s).cpp)); info.append({"k": "litconv", "v": Z(v), "D": tjson(B)})
    for i in range(120 if ctx.thorough else 36):
        while True:
            D = rnd_safe(r, r.choice(["n", "a", "c8-16-32-64-64"]))
            v = [D.lo - 1, D.hi + 1, D.lo, D.hi, r.choice([D.hi + r.randrange(1, 1000), D.lo - r.randrange(1, 1000), 2 * D.hi, D.hi + (1 << 8), D.hi + (1 << 16), D.lo + (1 << 32)])][i % 5 if i % 5 in (0, 1) else r.randrange(5)]
            s = v < 0 or r.random() < .6
            if tlo(s, 64) <= v <= thi(s, 64): break
        L = literal(v, s, r.choice([None, "n", "a"])).cpp
        progs.append(r.choice(["%s f(){ return %s(); }", "%s f(){ return %s(); }", "void f(){ typedef %s D; typedef %s L; D d((L())); }",
                               "void f(){ typedef %s D; typedef %s L; D d{L()}; }", "typedef %s D; typedef %s L; void f(D & d){ d = L(); }"]) % (D.cpp, L))
        info.append({"k": "litconv", "v": Z(v), "D": tjson(D)})
    for v, s in [(-128, True), (127, True), (-32768, True), (-(1 << 31), True), (5, False), (0, False)]:
        L = literal(v, s)
        progs.append("auto f(){ return -%s(); }" % L.cpp)
        info.append({"k": "litun", "op": "neg", "sg": int(s), "v": Z(v), "r": {"s": s, "b": L.b}})
    ok = program(ctx, progs)
    with open(tr, "a") as f_:
        for x, o in zip(info, ok):
            x["acc"] = int(o); f_.write(json.dumps(x) + "\n")
    ctx.cov["programs_compiled"] += len(progs)
    validate(ctx, tr, "TypesTrace", {}, "lit", None, 0, describe_fact)
    ctx.log("literals validated")
    st, cx = lit_exprs(r, f)
    b = 60 if ctx.thorough else 30
    tr, ex = run_rows(ctx, st, "litops", b)
    validate(ctx, tr, "OpsTrace", {"Prop": '"C18"'}, "litops", ex, b, describe_any)
    tr, ex = run_rows(ctx, cx, "litconst", 0, pre=constant.PRE)
    validate(ctx, tr, "OpsTrace", {"Prop": '"C16"'}, "litconst", ex, 0, describe_const)
    ctx.log("literal expressions validated")

# ---------------------------------------------------------------- traits
PNAMES = {"n": "sn::native", "a": "sn::automatic", "c1": "sn::cpp<8,16,32,64,64>", "c2": "sn::cpp<8,16,32,32,64>"}
ENAMES = {"thr": "vt::throwing", "strict": "sn::strict_exception_policy", "loose": "sn::loose_exception_policy", "strap": "sn::strict_trap_policy"}
def trait_rows(r, f):
    st = []
    for n in MAIN + CHARS:
        for pp in ("n", "a", "c8-16-32-64-64"):
            t = safe(n, pp, r.choice([EP, "sn::strict_exception_policy"]))
            st.append('traits<%s,%s>("safe",%s,%s,"%s");' % (t.cpp, BUILTIN[n][0], i128(t.lo), i128(t.hi), pp))
    for _ in range(250 * f):
        pp = r.choice(["n", "a", "c8-16-32-64-64"])
        t = rnd_safe(r, pp)
        form = "range" if "_range<" in t.cpp else "safe" if t.cpp.startswith("sn::safe<") else "base"
        st.append('traits<%s,%s>("%s",%s,%s,"%s");' % (t.cpp, BUILTIN[t.name][0], form, i128(t.lo), i128(t.hi), pp))
    for p in PNAMES.values():
        for e in ENAMES.values():
            st.append('policies<sn::safe<int,%s,%s>,%s,%s>("safe");' % (p, e, p, e))
            st.append('policies<sn::safe_unsigned_range<1,9,%s,%s>,%s,%s>("range");' % (p, e, p, e))
            st.append('policies<sn::safe_signed_literal<1,%s,%s>,%s,%s>("literal");' % (p, e, p, e))
            st.append('policies<decltype(std::declval<sn::safe<int,%s,%s>>() %s %s),%s,%s>("expression");' % (
                p, e, r.choice(["&", "|"]), r.choice(["1", "sn::safe_unsigned_literal<3>()", "std::declval<sn::safe<char,%s,%s>>()" % (p, e)]), p, e))
    for e in ("sn::default_exception_policy",):
        st.append('policies<sn::safe<int>,sn::native,%s>("safe");' % e)
        st.append('policies<sn::safe<long,sn::automatic>,sn::automatic,%s>("safe");' % e)
        st.append('policies<sn::safe_signed_range<1,2>,sn::native,%s>("range");' % e)
        st.append('policies<sn::safe_unsigned_range<1,2>,sn::native,%s>("range");' % e)
    st.append('policies<sn::safe_signed_literal<1>,void,void>("literal");')
    st.append('policies<sn::safe_unsigned_literal<1>,void,void>("literal");')
    return st

MIXOPS = ["a + b", "a - b", "a * b", "a / b", "a % b", "a << b", "a >> b", "a & b", "a | b", "a ^ b",
          "a < b", "a <= b", "a > b", "a >= b", "a == b", "a != b", "a += b", "a -= b", "a *= b", "a /= b", "a %= b", "a <<= b", "a >>= b",
          "a &= b", "a |= b", "a ^= b"]
def mixes(r, n):
    progs, info = [], []
    es = ["thr", "strict", "loose"]
    def operand(p, e, const, k=None):
        b = r.choice(["int", "unsigned char", "long", "short"])
        if p == "-" and e == "-":
            if r.random() < .5: return b
            return "sn::safe_signed_literal<%d>" % r.choice([1, 2, 3])
        pv, ev = PNAMES.get(p, "void"), ENAMES.get(e, "void")
        if p == "-" or e == "-": return "sn::safe_signed_literal<2,%s,%s>" % (pv, ev)
        return "sn::safe<%s,%s,%s>" % (b, pv, ev) if r.random() < .6 else "sn::safe_signed_range<-5,100,%s,%s>" % (pv, ev)
    ops = MIXOPS * (n // len(MIXOPS) + 1)
    r.shuffle(ops)
    for op in ops[:n]:
        asg = op[-3] == "=" and op[2] not in "<>=!" or "<<=" in op or ">>=" in op
        p1, e1 = r.choice(list(PNAMES)), r.choice(es)
        k = r.random()
        if k < .3: p2, e2 = p1, e1
        elif k < .5: p2, e2 = r.choice(list(PNAMES)), e1
        elif k < .7: p2, e2 = p1, r.choice(es)
        elif k < .8: p2, e2 = "-", "-"
        elif k < .9: p2, e2 = r.choice([("-", e1), (p1, "-"), ("-", r.choice(es)), (r.choice(list(PNAMES)), "-")])
        else: p2, e2 = r.choice(list(PNAMES)), r.choice(es)
        x, y = (p1, e1), (p2, e2)
        if not asg and r.random() < .5: x, y = y, x
        if not asg and r.random() < .12:                 # literals without policies need a partner which has them
            x, y = ("-", "-"), ("-", "-")
            tx, ty = "sn::safe_signed_literal<7>", r.choice(["int", "sn::safe_unsigned_literal<2>"])
            if r.random() < .5: tx, ty = ty, tx
            info.append({"k": "mix", "op": op, "x": dict(p="-", e="-"), "y": dict(p="-", e="-")})
        else:
            tx, ty = operand(*x, asg), operand(*y, False)
            if asg and "literal" in tx: tx = "sn::safe<int,%s,%s>" % (PNAMES[p1], ENAMES[e1])
            info.append({"k": "mix", "op": op, "x": dict(p=x[0], e=x[1]), "y": dict(p=y[0], e=y[1])})
        progs.append("void f(%s%s & a, const %s & b){ (void)(%s); }" % ("" if asg else "const ", tx, ty, op))
    # construction and assignment are not expressions: any policies may meet there
    for _ in range(n // 5):
        x, y = [(r.choice(list(PNAMES)), r.choice(es)) for _ in range(2)]
        tx = "sn::safe<%s,%s,%s>" % (r.choice(["int", "long", "unsigned short"]), PNAMES[x[0]], ENAMES[x[1]])
        ty = "sn::safe<%s,%s,%s>" % (r.choice(["int", "long", "unsigned short"]), PNAMES[y[0]], ENAMES[y[1]])
        info.append({"k": "move", "op": r.choice(["ctor", "set", "init"]), "x": list(x), "y": list(y)})
        progs.append({"ctor": "void f(const %s & b){ %s a(b); (void)a; }" % (ty, tx), "set": "void f(%s & a, const %s & b){ a = b; }" % (tx, ty),
                      "init": "void f(const %s & b){ %s a = b; (void)a; }" % (ty, tx)}[info[-1]["op"]])
    return progs, info

def traits(ctx):
    r = random.Random("traits %d" % ctx.seed)
    ctx.assumptions += ["LP64, libstdc++ 13", "whether two operands may meet is asked of the compiler with one program each"]
    f = 8 if ctx.thorough else 1
    tr, ex = run_rows(ctx, trait_rows(r, f), "traits", 0, pre=PRE)
    progs, info = mixes(r, 520 if ctx.thorough else 104)
    ok = program(ctx, progs)
    ctx.log("%d programs mixing policies, %d accepted" % (len(progs), sum(ok)))
    with open(tr, "a") as o:
        for x, a, p in zip(info, ok, progs):
            x["acc"] = int(a); x["src"] = p; o.write(json.dumps(x) + "\n")
    ctx.cov["programs_compiled"] += len(progs)
    validate(ctx, tr, "TypesTrace", {}, "traits", None, 0, describe_fact)

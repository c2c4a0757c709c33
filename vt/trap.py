"""C15: what the compiler accepts under trap policies against what the specification says can fail."""
import concurrent.futures as cf, json, random, re
from .common import *
from .types_ import *
from .rows import *
from .ops import *
from .checks_ops import policies, CPPS

CASE = {"bin": "(void)(a %s b);", "asg": "a %s b;"}
UNX = {"un_neg": "(void)(-a);", "un_pos": "(void)(+a);", "un_not": "(void)(~a);", "un_preinc": "++a;", "un_predec": "--a;",
       "un_postinc": "a++;", "un_postdec": "a--;"}
TXT = {"op_add": "+", "op_sub": "-", "op_mul": "*", "op_div": "/", "op_mod": "%", "op_shl": "<<", "op_shr": ">>", "op_and": "&",
       "op_or": "|", "op_xor": "^", "op_lt": "<", "op_le": "<=", "op_gt": ">", "op_ge": ">=", "op_eq": "==", "op_ne": "!="}

class Case:
    """one operation: how to record it and how to offer it to the compiler"""
    def __init__(s, kind, op, pp, T, U): s.kind, s.op, s.pp, s.T, s.U = kind, op, pp, T, U
    def row(s, i):
        if s.kind == "bin": r = row(s.op, s.T, s.U, s.pp)
        elif s.kind == "asg": r = asg_row(s.op, s.T, s.U, s.pp)
        elif s.kind == "un": r = un_row(s.op, s.T, s.pp)
        else: r = '%s<%s,%s>("%s");' % (s.op, s.U.cpp, s.T.cpp, s.pp)
        return "label=%d; %s" % (i, r)
    def function(s, i, pol):
        t = s.T.cpp.replace(EP, pol)
        u = s.U.cpp.replace(EP, pol) if s.U else ""
        if s.kind == "bin": return "void f%d(const %s & a, const %s & b){ (void)(a %s b); }" % (i, t, u, TXT[s.op])
        if s.kind == "asg": return "void f%d(%s & a, const %s & b){ a %s= b; }" % (i, t, u, TXT[s.op])
        if s.kind == "un": return "void f%d(%s & a){ %s }" % (i, t, UNX[s.op])
        if s.op == "ctor": b = "const %s d(a); (void)d;" % u
        elif s.op == "set": return "void f%d(%s & d, const %s & a){ d = a; }" % (i, u, t)
        elif s.op == "cast_": b = "(void)static_cast<%s>(a);" % u
        else: b = "const %s d = a; (void)d;" % u
        return "void f%d(const %s & a){ %s }" % (i, t, b)

HEAD = """#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <iostream>
namespace sn = boost::safe_numerics;
template<int N> struct trap { constexpr trap() = default; };
template<int N> using TP = sn::exception_policy<trap<N>, trap<N>, trap<N>, trap<N>>;
template<int N> using LP = sn::exception_policy<trap<N>, sn::ignore_exception, sn::ignore_exception, sn::ignore_exception>;
"""
SENT = 9999999
SENTINEL = "void sentinel(const sn::safe<int,sn::native,%s> & a){ (void)(a + a); }" % ("TP<%d>" % SENT)

def compile_batch(ctx, items, tag):
    """items: (number, function text). Returns the set of numbers the compiler refuses."""
    src = ctx.path("acc-%s.cpp" % tag)
    with open(src, "w") as f: f.write(HEAD + "\n".join(t for _, t in items) + "\n" + SENTINEL + "\n")
    # failing and not failing operations instantiate the same things, so unused functions are compiled as well
    r = sh([CXX] + CXXFLAGS + ["-fmax-errors=0", "-fsyntax-only", src], timeout=600)
    bad, other = set(), False
    for l in r.stderr.splitlines():
        if ": error: " not in l and ": fatal error: " not in l: continue
        m = re.search(r"no match for call to .*\btrap<(\d+)>", l)
        if m: bad.add(int(m.group(1)))
        else: other = True
    nums = {i for i, _ in items}
    if SENT not in bad or other or not (bad - {SENT} <= nums):
        if len(items) == 1:
            # refused for another reason than a trap, unless nothing but the sentinel was found
            return nums if other or r.returncode < 0 or r.returncode > 1 else bad & nums
        h = len(items) // 2                      # something unusual: look at smaller parts
        return compile_batch(ctx, items[:h], tag) | compile_batch(ctx, items[h:], tag)
    return bad & nums

def compile_all(ctx, items, name):
    k = max(NPROC, min(len(items) // 60 + 1, 8 * NPROC))
    g = [x for x in (items[i::k] for i in range(k)) if x]
    bad = set()
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for b in ex.map(lambda x: compile_batch(ctx, x[1], "%s%d" % (name, x[0])), enumerate(g)): bad |= b
    return bad

# ---------------------------------------------------------------- generation
def edge_pair(r, op, pp):
    """two ranges whose extreme result is just inside or just outside a limit of a result type"""
    b = r.choice([32, 32, 64, 8, 16]) if pp != "n" else r.choice([32, 32, 64])
    if pp == "a": b = r.choice([64, 64, 64, 32])
    s = r.random() < .7
    L, H = tlo(s, b), thi(s, b)
    d = r.choice([-1, 0, 0, 1, 1, 2])
    wide = b == 64
    def mk(lo, hi):
        lo, hi = min(lo, hi), max(lo, hi)
        sg = s or lo < 0
        if not (tlo(sg, 64) <= lo and hi <= thi(sg, 64)): return None
        if wide or r.random() < .3: return base_range(("l" if sg else "ul"), lo, hi, pp) if b == 64 else rng_type(lo, hi, sg, pp)
        return rng_type(lo, hi, sg, pp)
    x = rnd_point(r, 0, H)
    top = r.random() < .6 or not s
    if op == "op_add":
        e = H + d if top else L - d
        a = x if top else -x
        t, u = a, e - a
    elif op == "op_sub":
        e = H + d if top else L - d
        a = x if top else -x
        t, u = a, a - e
    elif op == "op_mul":
        x = r.choice([2, 3, 5, 7, 10, 16, 255, 257, 1000, 65536, 65537, rnd_point(r, 1, H) or 1])
        t, u = x, (H // x) + r.choice([0, 0, 1])
        if s and r.random() < .4:
            t, u = r.choice([(-x, (-L) // x + r.choice([0, 1])), (x, L // x - r.choice([-1, 0, 1])), (-x, -(H // x) - r.choice([0, 1]))])
    elif op == "op_div":
        t, u = L if s else x, r.choice([-1, 1, 0, -2, 2])
    elif op == "op_mod":
        t, u = x, r.choice([0, 1, -1, 2, 7])
    elif op == "op_shl":
        x = max(1, x)
        t, u = x, max(0, (b - 1 if s else b) - x.bit_length() + r.choice([-1, 0, 0, 1]))
    else:
        t, u = x, b + r.choice([-2, -1, 0, 1])
    if not s: t, u = max(t, 0), max(u, 0)
    def around(v):
        k = r.random()
        if k < .25: return v, v
        z = r.choice([0, 0, v // 2, -abs(v) // 3, 1])
        if not s: z = abs(z)
        return v, z
    return mk(*around(t)), mk(*around(u))

def edges(r, ops, pps, n):
    out = []
    while len(out) < n:
        pp, op = r.choice(pps), r.choice(ops)
        T, U = edge_pair(r, op, pp)
        if T is None or U is None or not fits_policy(pp, T, U): continue
        out.append(Case("bin", op, pp, T, U))
    return out

def small(r, pp):
    while True:
        lo = r.choice([0, 0, 1, -1, -3, -100, r.randint(-300, 100)])
        hi = r.choice([0, 1, 2, 3, 7, 31, 100, r.randint(0, 70000)])
        if lo <= hi: return rng_type(lo, hi, lo < 0 or r.random() < .5, pp)

def asgs(r, pps, n):
    out = []
    while len(out) < n:
        pp, op = r.choice(pps), r.choice(ARITH + SHIFT + BITS)
        T = with_zero(r, pp) if r.random() < .5 else small(r, pp)
        U = small(r, pp)
        if r.random() < .3:
            a, b = r.choice([(0, 1), (-1, 1), (0, 0), (0, 2), (1, 1), (1, 5), (-5, -1)])
            U = rng_type(a, b, a < 0 or r.random() < .5, pp)
        # a result which can never be stored does not compile under any policy
        if not (T.lo <= 0 <= T.hi and (U.lo <= 0 <= U.hi or op in ("op_div", "op_mod"))): continue
        if fits_policy(pp, T, U): out.append(Case("asg", op, pp, T, U))
    return out

def conv_cases(r, n):
    pps = ["n", "a", "c8-16-32-64-64"]
    out = []
    while len(out) < n:
        pp = r.choice(pps)
        D = rnd_safe(r, r.choice(pps))
        S = rnd_safe(r, pp) if r.random() < .6 else builtin(r.choice(MAIN + CHARS))
        if r.random() < .5 and D.lo < D.hi:
            sg = r.random() < .6
            lo, hi = D.lo + r.choice([-1, 0, 0, 1]), D.hi + r.choice([-1, 0, 0, 1])
            if tlo(sg, 64) <= lo <= hi <= thi(sg, 64): S = rng_type(lo, hi, sg, pp)
        if not S.safe and not D.safe: continue
        if overlap(S, D): out.append(Case("conv", r.choice(["ctor", "set", "imp"]), pp, S, D))
        B = builtin(r.choice(MAIN + CHARS))
        if r.random() < .5 and overlap(D, B): out.append(Case("conv", r.choice(["cast_", "imp"]), pp, D, B))
    return out

def cases(r, thorough):
    f = 5 if thorough else 1
    pps = policies(r, 3 if thorough else 2)
    out = edges(r, ARITH * 2 + SHIFT, pps, 900 * f)
    def safe_pair(pp, gen):
        while True:
            T, U = gen(r, pp), gen(r, pp)
            if (T.safe or U.safe) and fits_policy(pp, T, U): return T, U
    for _ in range(200 * f):
        pp = r.choice(pps)
        T, U = safe_pair(pp, rnd_operand)
        for op in r.sample(ARITH + SHIFT + BITS + CMP, 5): out.append(Case("bin", op, pp, T, U))
    for _ in range(110 * f):
        pp = r.choice(pps)
        T, U = safe_pair(pp, small)
        for op in r.sample(ARITH + SHIFT + BITS + CMP, 5): out.append(Case("bin", op, pp, T, U))
    for pp in pps[:2]:                               # whole types
        for a in CORE:
            for b in CORE:
                T, U = safe(a, pp), safe(b, pp)
                for op in r.sample(ARITH + SHIFT + BITS + CMP, 2): out.append(Case("bin", op, pp, T, U))
    out += asgs(r, pps, 350 * f)
    for _ in range(70 * f):
        pp = r.choice(pps)
        T = r.choice([rnd_safe, small])(r, pp)
        if not fits_policy(pp, T): continue
        for op in UNARY: out.append(Case("un", op, pp, T, None))
        if has_int(pp) and T.lo < T.hi and T.lo < (1 << 62) and T.hi > -(1 << 62): out.append(Case("un", r.choice(STEPS), pp, T, None))
    out += conv_cases(r, 400 * f)
    out += with_literals(r, pps, 110 * f)
    return out

def with_literals(r, pps, n):
    """a literal is an operand whose range is its value"""
    out = []
    while len(out) < n:
        pp = r.choice(pps)
        op = r.choice(ARITH * 2 + SHIFT * 2 + BITS + CMP)
        if r.random() < .5:
            T, U = edge_pair(r, op, pp) if op in ARITH + SHIFT else (rnd_safe(r, pp), rnd_safe(r, pp))
            if T is None or U is None: continue
        else: T, U = r.choice([small, rnd_safe])(r, pp), small(r, pp)
        plain = r.random() < .6
        lit_ = lambda t: literal(r.choice([t.lo, t.hi]), t.s, None if plain else pp)
        if r.random() < .6: U = lit_(U)
        else: T = lit_(T)
        if fits_policy(pp, T, U): out.append(Case("bin", op, pp, T, U))
        if r.random() < .15 and op in ARITH + SHIFT + BITS:
            T = small(r, pp)
            L = literal(r.choice([0, 1, 2, 3]), r.random() < .5, None if plain else pp)
            if T.lo <= 0 <= T.hi and fits_policy(pp, T, L): out.append(Case("asg", op, pp, T, L))
        if r.random() < .15:
            D = rnd_safe(r, pp)
            L = literal(r.choice([D.lo, D.hi]), D.lo < 0 or D.s, None if plain else pp)
            out.append(Case("conv", r.choice(["ctor", "set", "imp"]), pp, L, D))
    return out

def fixed(ctx, r):
    """other uses of a safe type, and real predefined policies; each compiled on its own"""
    out = []
    for t in r.sample(MAIN, 4):
        c = BUILTIN[t][0]
        for pol, ep in (("acc", "sn::strict_trap_policy"), ("loose", "sn::loose_trap_policy")):
            T = "sn::safe<%s,sn::native,%s>" % (c, ep)
            for op, code in (("default", "void f(){ %s x; (void)x; }" % T), ("input", "void f(%s & x){ std::cin >> x; }" % T),
                             ("output", "void f(const %s & x){ std::cout << x; }" % T),
                             ("copy", "void f(%s & x, const %s & y){ %s z(y); x = z; }" % (T, T, T))):
                out.append((op, pol, code))
    return out

def solo(ctx, code, i):
    src = ctx.path("solo-%d.cpp" % i)
    with open(src, "w") as f: f.write(HEAD + code + "\n")
    r = sh([CXX] + CXXFLAGS + ["-fsyntax-only", src], timeout=600)
    os.unlink(src)
    return r.returncode == 0

def describe_trap(x, i):
    if x["k"] == "fix": return "%s under %s" % (x["op"], x["acc"])
    t = {k: v for k, v in x.items() if k != "c"}
    s = "policy %s: (%s) %s" % (x["pp"], tdesc(x["T"]), x["op"])
    if "U" in x: s += " (%s)" % tdesc(x["U"])
    s += " %s (%s)" % ("to" if x["k"] == "conv" else "operation in", tdesc(x["R"]))
    s += " -- compiles under a policy which traps everything: %s, arithmetic errors only: %s" % (
        ("no", "yes")[x["acc"]] if x["acc"] < 2 else "not asked", ("no", "yes", "not asked")[x["loose"]])
    if x["c"]:
        c = x["c"][0]
        s += "; at run time %d, %d gave %s" % (zint(c[0]), zint(c[1]), c[2])
    return s

def trap(ctx):
    r = random.Random("trap %d" % ctx.seed)
    ctx.assumptions += ["a diagnostic names the trap handler (unique per operation) the compiler had to instantiate; operations the batch refuses for any "
                        "other reason are compiled on their own", "operations are also recorded under a throwing policy; a failing evaluation shows that they can fail"]
    cs = cases(r, ctx.thorough)
    ctx.log("%d operations" % len(cs))
    budget = 40 if ctx.thorough else 16
    tr, ex = run_rows(ctx, [c.row(i) for i, c in enumerate(cs)], "trap", budget)
    ctx.log("recorded")
    refused = compile_all(ctx, [(i, c.function(i, "TP<%d>" % i)) for i, c in enumerate(cs)], "s")
    lo = [i for i, c in enumerate(cs) if c.op in SHIFT or r.random() < .2]
    lrefused = compile_all(ctx, [(i, cs[i].function(i, "LP<%d>" % i)) for i in lo], "l")
    ctx.log("compiled: %d of %d refused, %d of %d when only arithmetic errors trap" % (len(refused), len(cs), len(lrefused), len(lo)))
    # the predefined policies, each program on its own
    own = r.sample(range(len(cs)), 160 if ctx.thorough else 56)
    fx = fixed(ctx, r)
    jobs = [(cs[i].function(0, p), (i, k)) for i in own for k, p in (("acc", "sn::strict_trap_policy"), ("loose", "sn::loose_trap_policy"))]
    jobs += [(code, (op, pol)) for op, pol, code in fx]
    with cf.ThreadPoolExecutor(NPROC) as e:
        ok = dict(zip(range(len(jobs)), e.map(lambda j: solo(ctx, j[1][0], j[0]), enumerate(jobs))))
    ctx.cov["programs_compiled"] += len(cs) + len(lo) + len(jobs)
    ctx.log("predefined policies compiled")
    lo = set(lo)
    real = {}
    for n, (_, key) in enumerate(jobs):
        if isinstance(key[0], int): real.setdefault(key[0], {})[key[1]] = int(ok[n])
    out = ctx.path("trapacc.ndjson")
    with open(tr) as f, open(out, "w") as o:
        for l in f:
            x = json.loads(l)
            i = x["id"]
            x["c"] = [c for c in x["c"] if c[2] != "ok"]
            x["acc"] = int(i not in refused)
            x["loose"] = 2 if i not in lo else int(i not in lrefused)
            o.write(json.dumps(x, separators=(",", ":")) + "\n")
            if i in real:
                x.update(acc=real[i]["acc"], loose=real[i]["loose"])
                o.write(json.dumps(x, separators=(",", ":")) + "\n")
        for n, (_, key) in enumerate(jobs):
            if not isinstance(key[0], int):
                x = {"k": "fix", "op": key[0], "c": [], "acc": 2, "loose": 2, "id": -1}
                x[key[1]] = int(ok[n])
                o.write(json.dumps(x, separators=(",", ":")) + "\n")
    _, res = validate(ctx, out, "TrapTrace", {}, "trap", None, 0, describe_trap)
    cnt = {}
    for l in res.lines if res else []:
        if l.startswith("CAN "): cnt[l[4:]] = cnt.get(l[4:], 0) + 1
    ctx.part("answers", **cnt)
    ctx.log("specification says: %s" % cnt)

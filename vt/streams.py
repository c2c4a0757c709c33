"""C17: stream input and output."""
import random
from .common import *
from .rows import *
from .types_ import *
from . import models

PRE = '#include "vt_streams.hpp"'
def stream_types(r, n):
    ts = [safe(x, pp) for x in MAIN + ["wc"] for pp in ("n", "a")]
    for _ in range(n):
        t = rnd_safe(r, r.choice(["n", "a", "c8-16-32-64-64"]))
        ts.append(t)
    return ts
def toy(ctx):
    models.run_model(ctx, "MC_Streams", ["MaxLen = %d" % (6 if ctx.thorough else 5)], ["Faithful", "FaithfulBases", "Nested", "Canonical", "Accepted", "Decided"])
    models.run_model(ctx, "MC_Reader", ["MaxTok = %d" % (4 if ctx.thorough else 3)], ["Held", "Answers", "Returned"])
def literals(r, n):
    out = []
    for _ in range(n):
        sg = r.random() < .5
        b = r.choice([8, 16, 32, 64])
        v = rnd_point(r, tlo(sg, b), thi(sg, b))
        out.append("sn::safe_%s_literal<%s,sn::native,vt::throwing>" % ("signed" if sg else "unsigned", lit(v)))
    return out
def streams(ctx):
    r = random.Random("streams %d" % ctx.seed)
    ctx.assumptions += ["classic locale, libstdc++ 13", "the recorder (harness/vt_streams.hpp) reports faithfully"]
    st = []
    for t in stream_types(r, 500 if ctx.thorough else 120):
        for c in ("char", "wchar_t"):
            if c == "wchar_t" and r.random() < .5: continue
            for f in "drlixot":
                if f == "d" or r.random() < .3: st.append('sout<%s,%s>("%s");' % (t.cpp, c, f))
            st.append('sin<%s,%s>("d");' % (t.cpp, c))
            if r.random() < .4: st.append('sin<%s,%s>("e");' % (t.cpp, c))
            if r.random() < .3: st.append('sin<%s,%s>("%s");' % (t.cpp, c, r.choice("xo")))
            if r.random() < .5: st.append('seq<%s,%s>("%s");' % (t.cpp, c, r.choice("de")))
            if r.random() < .3: st.append('ivout<%s,%s>();' % (t.cpp, c))
            if r.random() < .2: st.append('rvout<%s,%s>();' % (t.cpp, c))
            if r.random() < .5: st.append("trip<%s,%s>();" % (t.cpp, c))
    for n in MAIN:
        if n in ("c", "wc"): continue               # written as characters
        st += ["ivout<%s,%s>();" % (BUILTIN[n][0], c) for c in ("char", "wchar_t")]
    tr, ex = run_rows(ctx, st, "streams", 60 if ctx.thorough else 30, PRE)
    validate(ctx, tr, "StreamsTrace", {"Prop": '"C17"'}, "streams", ex, 60 if ctx.thorough else 30, describe)

def describe(x, i):
    c = x["c"][i - 1]
    t = tdesc(x["R"])
    s = lambda a: repr("".join(chr(k & 0x10ffff) for k in a))
    if x["k"] == "sout": return "writing %d of type %s (format %s) gives %s, %s" % (zint(c[0]), t, x["f"], s(c[1]), c[2])
    if x["k"] == "ivout": return "an interval of %s [%d, %d] is written as %s, %s" % (t, zint(c[0]), zint(c[1]), s(c[2]), c[3])
    if x["k"] == "rvout": return "%d with the range of its type %s is written as %s, %s" % (zint(c[0]), t, s(c[1]), c[2])
    if x["k"] == "seq": return "reading %s%s again and again into %s: %s" % (s(c[0]), " (stream failed before)" if c[1] else "", t,
        "; ".join("%s -> %d at %d%s" % (k[1], zint(k[2]), k[3], " failed" if k[4] else "") for k in c[2]))
    if x["k"] == "sin": return "reading%s %s into %s holding %d -> %s, then %d, %d characters consumed, fail %d" % ({"x": " hexadecimal", "o": " octal"}.get(x["f"], ""), s(c[0]), t, zint(c[1]), c[2], zint(c[3]), c[4], c[5])
    return "writing %s of type %s and reading back -> %s %s" % ([zint(k) for k in c[0]], t, c[1], [zint(k) for k in c[2]])

"""Operand types the generators draw from, and random declared ranges."""
import random

# name -> (C++ spelling, signed, bits)
BUILTIN = {
    "sc": ("signed char", True, 8), "uc": ("unsigned char", False, 8), "c": ("char", True, 8),
    "s": ("short", True, 16), "us": ("unsigned short", False, 16), "i": ("int", True, 32),
    "ui": ("unsigned int", False, 32), "l": ("long", True, 64), "ul": ("unsigned long", False, 64),
    "ll": ("long long", True, 64), "ull": ("unsigned long long", False, 64),
    "wc": ("wchar_t", True, 32), "c16": ("char16_t", False, 16), "c32": ("char32_t", False, 32),
}
MAIN = ["sc", "uc", "c", "s", "us", "i", "ui", "l", "ul", "ll", "ull"]
CORE = ["sc", "uc", "s", "us", "i", "ui", "l", "ul"]
POLICY = {"n": "sn::native", "a": "sn::automatic",
          "c8-16-16-32-64": "sn::cpp<8,16,16,32,64>", "c8-16-32-64-64": "sn::cpp<8,16,32,64,64>",
          "c8-8-16-16-32": "sn::cpp<8,8,16,16,32>", "c8-16-32-32-64": "sn::cpp<8,16,32,32,64>",
          "c8-16-64-64-64": "sn::cpp<8,16,64,64,64>", "c8-8-8-16-32": "sn::cpp<8,8,8,16,32>"}
EP = "vt::throwing"

def tlo(s, b): return -(1 << (b - 1)) if s else 0
def thi(s, b): return (1 << (b - 1)) - 1 if s else (1 << b) - 1

def lit(x):
    """C++ spelling of an integer constant of any 64-bit value."""
    if x == -(1 << 63): return "(-9223372036854775807LL-1)"
    if x > (1 << 63) - 1: return "%dULL" % x
    return "%dLL" % x if x >= 0 else "(%dLL)" % x

class Ty:
    def __init__(self, cpp, s, b, lo, hi, safe, name): 
        self.cpp, self.s, self.b, self.lo, self.hi, self.safe, self.name = cpp, s, b, lo, hi, safe, name

def builtin(n):
    c, s, b = BUILTIN[n]
    return Ty(c, s, b, tlo(s, b), thi(s, b), False, n)

BOOL = Ty("bool", False, 8, 0, 1, False, "b")

def safe(n, pp, ep=EP):
    c, s, b = BUILTIN[n]
    return Ty("sn::safe<%s,%s,%s>" % (c, POLICY[pp], ep), s, b, tlo(s, b), thi(s, b), True, n)

def sig(x): return max(1, (~x if x < 0 else x).bit_length())
def stored(lo, hi, signed):
    need = (max(sig(lo), sig(hi)) + 1) if signed else sig(hi)
    for w in (8, 16, 32, 64):
        if need <= w: return w

def rng_type(lo, hi, signed, pp, ep=EP):
    w = stored(lo, hi, signed)
    nm = {(True, 8): "sc", (True, 16): "s", (True, 32): "i", (True, 64): "l",
          (False, 8): "uc", (False, 16): "us", (False, 32): "ui", (False, 64): "ul"}[(signed, w)]
    c = "sn::safe_%s_range<%s,%s,%s,%s>" % ("signed" if signed else "unsigned", lit(lo), lit(hi), POLICY[pp], ep)
    return Ty(c, signed, w, lo, hi, True, nm)

def base_range(n, lo, hi, pp, ep=EP):
    """safe_base with an explicit underlying type wider than necessary"""
    c, s, b = BUILTIN[n]
    return Ty("sn::safe_base<%s,(%s)%s,(%s)%s,%s,%s>" % (c, c, lit(lo), c, lit(hi), POLICY[pp], ep), s, b, lo, hi, True, n)

def rnd_point(r, lo, hi):
    """log-uniform-ish point of [lo,hi] with a taste for edges"""
    k = r.randrange(8)
    if k == 0: return lo
    if k == 1: return hi
    if k == 2 and lo <= 0 <= hi: return r.choice([x for x in (-2, -1, 0, 1, 2) if lo <= x <= hi])
    if k == 3:
        c = [e for b in (7, 8, 15, 16, 31, 32, 63) for d in (-1, 0, 1) for e in ((1 << b) + d, -(1 << b) + d) if lo <= e <= hi]
        if c: return r.choice(c)
    b = r.randrange(1, 65)
    x = r.getrandbits(b)
    if r.random() < .5: x = -x
    if lo <= x <= hi: return x
    return r.randint(lo, hi)

def rnd_range(r, signed, bits=None):
    """a random range, biased towards small ones and ones with special end points"""
    bits = bits or r.choice([4, 6, 8, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64])
    L, H = tlo(signed, bits), thi(signed, bits)
    if r.random() < .1:                                  # just excludes or just includes 0
        e, d = (L, r.choice([-1, -1, -2, 0])) if signed and r.random() < .6 else (H, r.choice([1, 1, 2, 0]))
        e = r.choice([e, d, rnd_point(r, min(d, e), max(d, e))])
        return min(d, e), max(d, e)
    a, b = rnd_point(r, L, H), rnd_point(r, L, H)
    if r.random() < .15: b = a
    return min(a, b), max(a, b)

def rnd_safe(r, pp, ep=EP):
    k = r.random()
    if k < .25: return safe(r.choice(MAIN), pp, ep)
    signed = r.random() < .6
    lo, hi = rnd_range(r, signed)
    if k < .85: return rng_type(lo, hi, signed, pp, ep)
    n = r.choice(["i", "l", "s", "ll"] if signed else ["ui", "ul", "us", "ull"])
    c, s, b = BUILTIN[n]
    return base_range(n, max(lo, tlo(s, b)) if max(lo, tlo(s, b)) <= min(hi, thi(s, b)) else 0,
                      max(min(hi, thi(s, b)), max(lo, tlo(s, b))) if max(lo, tlo(s, b)) <= min(hi, thi(s, b)) else 0, pp, ep)

def rnd_operand(r, pp, ep=EP):
    return builtin(r.choice(MAIN)) if r.random() < .25 else rnd_safe(r, pp, ep)

def literal(v, signed, pp=None, ep=EP):
    """a literal of value v, plain (no policies of its own) unless pp is given"""
    w = stored(v, v, signed)
    nm = {(True, 8): "sc", (True, 16): "s", (True, 32): "i", (True, 64): "l",
          (False, 8): "uc", (False, 16): "us", (False, 32): "ui", (False, 64): "ul"}[(signed, w)]
    c = "sn::safe_%s_literal<%s%s>" % ("signed" if signed else "unsigned", lit(v), ",%s,%s" % (POLICY[pp], ep) if pp else "")
    t = Ty(c, signed, w, v, v, True, nm)
    t.plain = pp is None
    return t

def rnd_literal(r, pp=None, ep=EP):
    sg = r.random() < .6
    b = r.choice([4, 8, 8, 9, 16, 17, 32, 33, 64])
    return literal(rnd_point(r, tlo(sg, b), thi(sg, b)), sg, pp, ep)

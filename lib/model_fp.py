"""Reference model of the fingerprints."""
import ctypes, ctypes.util, math, os, re, struct
from fractions import Fraction
from model import *

def fid(name):
    f = 0
    for c in name.encode(): f = (f << 8) + c
    return f
def fname(f):
    s = b""
    while f: s = bytes([f & 255]) + s; f >>= 8
    return s.decode("latin-1")

class FP:
    NAME = ""; LETTERS = ""
    def __init__(self, m, r): self.m = m; self.r = r; self.init()
    def init(self): pass
    def letters(self): return [ord(c) for c in self.LETTERS]
    def call(self, c):
        fn = getattr(self, c, None); key = self.NAME + "." + c
        def f(r):
            self.m.fpcalls[key] = self.m.fpcalls.get(key, 0) + 1
            if fn is None: return UNIMP
            return fn(r)
        return f
    def moves(self, c): return False
    def activate(self):
        for c in self.LETTERS: self.r.bind(ord(c), self.call(c), self.moves(c))
    # results the language does not fix exactly: take the observed one if it is acceptable
    def approx(self, r, mine, valid, what, exact=False):
        if self.m.iter_depth:
            if not exact: raise Domain("inexact result inside k")
            r.push(mine); return
        v = self.m.obs.choose_value(self.m, r, valid, what)
        r.push(mine if v is None else v)

def big(n, what, lim=5000):
    if abs(n) > lim: raise Domain("huge " + what)
    return n
def text(b): return b
def check0(b):
    if 0 in b: raise Domain("NUL inside a string")
    return b

class BOOL(FP):
    NAME = "BOOL"; LETTERS = "ANOX"
    def A(self, r): a = r.pop(); b = r.pop(); r.push(b & a)
    def O(self, r): a = r.pop(); b = r.pop(); r.push(b | a)
    def X(self, r): a = r.pop(); b = r.pop(); r.push(b ^ a)
    def N(self, r): r.push(~r.pop())

def shl(a, n):
    if n >= 64: return 0
    if n >= 0: return a << n
    return a >> min(-n, 63)
class BITW(BOOL):
    NAME = "BITW"; LETTERS = "ALNORX"
    def L(self, r): n = r.pop(); a = r.pop(); r.push(shl(a, n))
    def R(self, r): n = r.pop(); a = r.pop(); r.push(shl(a, -n))

class BASE(FP):
    NAME = "BASE"; LETTERS = "BHINO"
    D32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"
    MAPS = {36: "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ",
            58: "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",
            64: "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
            85: "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"}
    def show(self, n, base):
        if base < 0 or base >= 1 << 32: raise Domain("odd base")
        if base <= 1:
            if n > 20000: raise Domain("long unary number")
            return "0" * max(n, 0) + " "
        s = "-" if n < 0 else ""; n = abs(n); d = []
        while True:
            d.append(n % base); n //= base
            if n == 0: break
        d.reverse()
        m = self.D32 if base <= 32 else self.MAPS.get(base)
        return s + ("".join(m[x] for x in d) if m else ",".join(str(x) for x in d)) + " "
    def out(self, n, b): self.m.out += self.show(n, b).encode()
    def B(self, r): self.out(r.pop(), 2)
    def O(self, r): self.out(r.pop(), 8)
    def H(self, r): self.out(r.pop(), 16)
    def N(self, r): b = r.pop(); a = r.pop(); self.out(a, b)
    def I(self, r):
        base = r.pop()
        if base < 0 or base >= 1 << 32: raise Domain("odd base")
        m = self.m
        while m.inpos < len(m.stdin) and isspace(m.stdin[m.inpos]): m.inpos += 1
        w = bytearray()
        while m.inpos < len(m.stdin) and not isspace(m.stdin[m.inpos]): w.append(m.stdin[m.inpos]); m.inpos += 1
        if not w or m.inpos >= len(m.stdin): m.eof_hit = True
        if base <= 1: n = len(w)
        elif base <= 32:
            n = 0
            for c in bytes(w).upper().decode("latin-1"):
                k = self.D32.find(c)
                if k < 0 or k >= base: break
                n = n * base + k
        else: n = 0
        r.push(n)

class CPLI(FP):
    NAME = "CPLI"; LETTERS = "ADMOSV"
    def popc(self, r): i = r.pop(); return r.pop(), i
    def A(self, r): b = self.popc(r); a = self.popc(r); r.push(a[0] + b[0]); r.push(a[1] + b[1])
    def S(self, r): b = self.popc(r); a = self.popc(r); r.push(a[0] - b[0]); r.push(a[1] - b[1])
    def M(self, r):
        b = self.popc(r); a = self.popc(r)
        r.push(a[0] * b[0] - a[1] * b[1]); r.push(a[0] * b[1] + a[1] * b[0])
    def D(self, r):
        b = self.popc(r); a = self.popc(r)
        n = b[0] ** 2 + b[1] ** 2
        if n == 0:
            if self.m.iter_depth: raise Domain("complex division by zero in k")
            vals = [self.m.obs.choose_value(self.m, r, lambda x: True, "complex quotient", k) or 0 for k in (2, 1)]
            r.push(vals[0]); r.push(vals[1])
            return
        out = []
        for num, mag, k in ((a[0]*b[0] + a[1]*b[1], abs(a[0]*b[0]) + abs(a[1]*b[1]), 2),
                            (a[1]*b[0] - a[0]*b[1], abs(a[1]*b[0]) + abs(a[0]*b[1]), 1)):
            ex = Fraction(num, n); tol = Fraction(1, 2) + Fraction(mag, n) * Fraction(1, 1 << 49)
            if abs(ex) > (1 << 62): raise Domain("complex quotient out of range")
            mine = int(ex + Fraction(1, 2)) if ex >= 0 else -int(-ex + Fraction(1, 2))
            if self.m.iter_depth: raise Domain("complex quotient inside k")
            v = self.m.obs.choose_value(self.m, r, lambda x: abs(x - ex) <= tol, "complex quotient (%s)" % ex, k)
            out.append(mine if v is None else v)
        r.push(out[0]); r.push(out[1])
    def O(self, r):
        a, b = self.popc(r)
        if b == 0: s = "%d " % a
        elif a == 0: s = "%di " % b
        else: s = "%d%+di " % (a, b)
        self.m.out += s.encode()
    def V(self, r):
        a, b = self.popc(r)
        x = Fraction(a * a + b * b)
        mine = math.isqrt(a * a + b * b)
        if (a*a + b*b) - mine * mine > mine: mine += 1
        tol = 0.5 + mine * 2.0 ** -50
        if mine > 1 << 62: raise Domain("magnitude out of range")
        lo = mine - tol - .5; hi = mine + tol + .5
        self.approx(r, mine, lambda v: v >= 0 and (v == mine if mine < 1 << 45 else lo <= v <= hi), "complex magnitude (%d)" % mine, mine < 1 << 45)

class DBUG(FP):
    NAME = "DBUG"; LETTERS = "ABDEW"
    def A(self, r): r.uni.dbg.add_break(r.popvec())
    def W(self, r): r.uni.dbg.add_watch(r.popvec())
    def B(self, r): r.uni.dbg.swbreak(r)
    def D(self, r): r.uni.setmode(r.uni.cfg.mode & ~MODE_DEBUG)
    def E(self, r): r.uni.setmode(r.uni.cfg.mode | MODE_DEBUG)

class DIRF(FP):
    NAME = "DIRF"; LETTERS = "CMR"
    def call(self, c):
        f = FP.call(self, c)
        def g(r):
            if not r.uni.cfg.filesystem: return NOTAVAIL
            return f(r)
        return g
    def name(self, r):
        b = r.popstr()
        if len(b) > 200: raise Domain("long directory name")
        return b
    def C(self, r):
        p = self.m.fpath(self.name(r))
        if p is None or (p not in self.m.dirs and p != ""): return UNSPEC
        self.m.cwd = p
    def M(self, r):
        b = self.name(r)
        if b.split(b"\0")[0].rstrip(b"/").split(b"/")[-1] in (b".", b".."): raise Domain("making . or ..")
        p = self.m.fpath(b.rstrip(b"/") if b.strip(b"/") else b)
        if p is None: return UNSPEC
        if p in self.m.dirs or p == "": return None     # it exists already
        if p in self.m.files: return UNSPEC
        if "/" in p and p.rsplit("/", 1)[0] not in self.m.dirs: return UNSPEC
        self.m.dirs.add(p)
    def R(self, r):
        b = self.name(r)
        p = self.m.fpath(b)
        if p is None or (p not in self.m.dirs and p != ""): return UNSPEC
        if p == "" or p == self.m.cwd or self.m.cwd.startswith(p + "/"): raise Domain("removing the working directory")
        if b.rstrip(b"/").endswith(b"."): raise Domain("removing . or ..")
        if any(q.startswith(p + "/") for q in list(self.m.dirs) + list(self.m.files)): return UNSPEC
        self.m.dirs.discard(p)

class FING(FP):
    NAME = "FING"; LETTERS = "XYZ"
    def letter(self, r):
        a = r.pop()
        if 0 <= a <= 25: a += 65
        return a if 65 <= a <= 90 else None
    @staticmethod
    def reflect(r): r.reflect()
    def take(self, r, a):
        return r.sem[a].pop() if r.sem.get(a) else (self.reflect, False)
    def X(self, r):
        r.fing_used = True
        a = self.letter(r)
        if a is None: return UNSPEC
        b = self.letter(r)
        if b is None: return UNSPEC
        sa = self.take(r, a); sb = self.take(r, b)
        r.sem.setdefault(a, []).append(sb); r.sem.setdefault(b, []).append(sa)
    def Y(self, r):
        r.fing_used = True
        a = self.letter(r)
        if a is None: return UNSPEC
        if r.sem.get(a): r.sem[a].pop()
    def Z(self, r):
        r.fing_used = True
        d = self.letter(r)
        if d is None: return UNSPEC
        s = self.letter(r)
        if s is None: return UNSPEC
        sem = r.sem[s][-1] if r.sem.get(s) else (self.reflect, False)
        r.sem.setdefault(d, []).append(sem)

class FISH(FP):
    NAME = "FISH"; LETTERS = "CDFHILMNORSTUV"
    def init(self):
        self.up = True; self.cache = (1,)
        self.r.watch.append(self.changed)
    def changed(self, d):
        if vget(d, 0) != 0 and vget(d, 1) == 0: self.cache = d
    def moves(self, c): return c in "UO"
    def C(self, r):
        if not r.pop(): r.next()
    def D(self, r):
        if r.ss.sel < len(r.ss.st) - 1: r.ss.sel += 1
        else: return UNSPEC
    def I(self, r):
        if r.ss.sel > 0: r.ss.sel -= 1
        else: return UNSPEC
    def F(self, r):
        if vget(r.delta, 1) == 0:
            d = (0, 1) if self.up else (0, -1)
            self.up = not self.up
            r.setdelta(d)
        else: r.setdelta(self.cache)
    def mirror(self, r, f):
        x, y = vget(r.delta, 0), vget(r.delta, 1)
        x, y = f(x, y)
        r.setdelta(trim((s64(x), s64(y)) + tuple(r.delta[2:])))
    def H(self, r): self.mirror(r, lambda x, y: (x, -y))
    def V(self, r): self.mirror(r, lambda x, y: (-x, y))
    def M(self, r): self.mirror(r, lambda x, y: (-y, -x))
    def N(self, r): self.mirror(r, lambda x, y: (y, x))
    def all(self, r):
        return [r.pop() for _ in range(len(r.top))]       # topmost first
    def L(self, r):
        t = self.all(r)
        if t:
            for x in t[-2::-1]: r.push(x)
            r.push(t[-1])
    def R(self, r):
        t = self.all(r)
        if t:
            r.push(t[0])
            for x in t[:0:-1]: r.push(x)
    def S(self, r):
        for x in self.all(r): r.push(x)
    def T(self, r):
        x = r.pop(); y = r.pop(); z = r.pop()
        r.push(x); r.push(z); r.push(y)
    def U(self, r): r.uni.setmode(r.uni.cfg.mode | MODE_DIVE)
    def O(self, r): r.uni.setmode(r.uni.cfg.mode & ~MODE_DIVE)

class FIXP(FP):
    NAME = "FIXP"; LETTERS = "ABCDIJNOPQRSTUVX"
    def A(self, r): a = r.pop(); b = r.pop(); r.push(b & a)
    def O(self, r): a = r.pop(); b = r.pop(); r.push(b | a)
    def X(self, r): a = r.pop(); b = r.pop(); r.push(b ^ a)
    def N(self, r): r.push(-r.pop())
    def V(self, r): r.push(abs(r.pop()))
    def S(self, r): n = r.pop(); r.push((n > 0) - (n < 0))
    def D(self, r):
        n = r.pop()
        lo, hi = min(0, n), max(0, n)
        if self.m.iter_depth: raise Domain("random number inside k")
        v = self.m.obs.choose_value(self.m, r, lambda x: lo <= x <= hi, "random number up to %d" % n)
        if v is not None and 0 < abs(n) < 8: self.m.obs.chose(r, "FIXP D of %d" % n, abs(n) + 1, v - lo)
        r.push(0 if v is None else v)
    def any(self, r, what):
        if self.m.iter_depth: raise Domain("undefined value inside k")
        v = self.m.obs.choose_value(self.m, r, lambda x: True, what)
        r.push(0 if v is None else v)
    def trig(self, r, y, err, what):
        """y: exact result as a double; err: its possible error."""
        if not math.isfinite(y) or abs(y) * 10000 > 9e18: return self.any(r, what)
        y *= 10000; err = err * 10000 + abs(y) * 1e-14 + 1e-7
        n = int(math.floor(abs(y) + .5)) * (1 if y >= 0 else -1)
        self.approx(r, n, lambda v: abs(v - y) <= .5 + err, "%s (%.6f)" % (what, y))
    def deg(self, r):
        x = r.pop() / 10000.0 * math.pi / 180.0
        return x, abs(x) * 5e-16
    def C(self, r): x, e = self.deg(r); self.trig(r, math.cos(x), e * abs(math.sin(x)) + e * e, "cosine")
    def I(self, r): x, e = self.deg(r); self.trig(r, math.sin(x), e * abs(math.cos(x)) + e * e, "sine")
    def T(self, r):
        x, e = self.deg(r); t = math.tan(x)
        self.trig(r, t, e * (1 + t * t) * 2, "tangent")
    def inv(self, r, f, what):
        x = r.pop() / 10000.0
        try: y = f(x)
        except ValueError: return self.any(r, what)
        self.trig(r, y * 180.0 / math.pi, 0, what)
    def B(self, r): self.inv(r, math.acos, "arc cosine")
    def J(self, r): self.inv(r, math.asin, "arc sine")
    def U(self, r): self.inv(r, math.atan, "arc tangent")
    def P(self, r):
        n = r.pop(); y = n * math.pi
        if abs(y) > 9.2e18: return self.any(r, "multiple of pi")
        self.approx(r, int(y), lambda v: v == int(y) if abs(y) < 1e9 else abs(v - y) <= 1 + abs(y) * 1e-15, "multiple of pi", abs(y) < 1e9)
    def Q(self, r):
        n = r.pop()
        if n < 0: return self.any(r, "root of a negative number")
        mine = int(math.sqrt(n))
        r.push(mine) if n < 1 << 52 else self.approx(r, mine, lambda v: abs(v - math.isqrt(n)) <= 1, "square root")
    def R(self, r):
        b = r.pop(); a = r.pop()
        try: y = math.pow(a, b)
        except OverflowError: return self.any(r, "overflowing power")
        except ValueError: return self.any(r, "undefined power")
        if math.isnan(y) or abs(y) > 9.2e18: return self.any(r, "overflowing power")
        self.approx(r, int(y), lambda v: v == int(y) if abs(y) < 1 << 50 else abs(v - y) <= abs(y) * 1e-14, "power", abs(y) < 1 << 50)

libm = ctypes.CDLL(ctypes.util.find_library("m") or "libm.so.6")
def lm(name, n, single):
    f = getattr(libm, name + ("f" if single else "")); t = ctypes.c_float if single else ctypes.c_double
    f.restype = t; f.argtypes = [t] * n
    return f
class FPx(FP):
    LETTERS = "ABCDEFGHIKLMNPQRSTVXY"; SINGLE = False
    def tof(self, s):
        s &= M64
        return struct.unpack("<f", struct.pack("<I", s & 0xffffffff))[0] if self.SINGLE else struct.unpack("<d", struct.pack("<Q", s))[0]
    def ofr(self, f):
        if self.SINGLE: return struct.unpack("<I", struct.pack("<f", f))[0]
        return s64(struct.unpack("<Q", struct.pack("<d", f))[0])
    def nanbits(self, v):
        v &= M64
        return (v >> 32) == 0 and (v & 0x7fffffff) > 0x7f800000 if self.SINGLE else (v & ((1 << 63) - 1)) > 0x7ff0000000000000
    def rnd(self, x):
        """Round an exact double result to the type."""
        if not self.SINGLE or math.isinf(x) or math.isnan(x): return x
        return ctypes.c_float(x).value
    def res(self, r, f, what, ulps=0):
        if math.isnan(f):
            if self.m.iter_depth: raise Domain("NaN inside k")
            v = self.m.obs.choose_value(self.m, r, self.nanbits, what + " (a NaN)")
            r.push(0 if v is None else v)
            return
        mine = self.ofr(f)
        if ulps == 0 or math.isinf(f): r.push(mine)
        else: self.approx(r, mine, lambda v: abs(v - mine) <= ulps and (v >> 32 == 0 or not self.SINGLE), "%s (%r)" % (what, f))
    def two(self, r): b = self.tof(r.pop()); a = self.tof(r.pop()); return a, b
    def fn(self, r, name, ulps=0): self.res(r, lm(name, 1, self.SINGLE)(self.tof(r.pop())), name, ulps)
    def arith(self, r, op):
        a, b = self.two(r)
        t = ctypes.c_float if self.SINGLE else ctypes.c_double
        # doubles are exact enough for single-precision + - * / (innocuous double rounding)
        try: x = op(a, b)
        except ZeroDivisionError:
            x = math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
        except OverflowError: raise Domain("overflow in the model")
        self.res(r, t(x).value, "arithmetic")
    def A(self, r): self.arith(r, lambda a, b: a + b)
    def S(self, r): self.arith(r, lambda a, b: a - b)
    def M(self, r): self.arith(r, lambda a, b: a * b)
    def D(self, r): self.arith(r, lambda a, b: a / b)
    def B(self, r): self.fn(r, "sin", 2)
    def C(self, r): self.fn(r, "cos", 2)
    def E(self, r): self.fn(r, "asin", 2)
    def G(self, r): self.fn(r, "atan", 2)
    def H(self, r): self.fn(r, "acos", 2)
    def K(self, r): self.fn(r, "log", 2)
    def L(self, r): self.fn(r, "log10", 2)
    def T(self, r): self.fn(r, "tan", 2)
    def X(self, r): self.fn(r, "exp", 2)
    def Q(self, r): self.fn(r, "sqrt")
    def V(self, r): self.fn(r, "fabs")
    def N(self, r):
        f = self.tof(r.pop())
        self.res(r, -f, "negation")
    def Y(self, r):
        x, y = self.two(r)
        self.res(r, lm("pow", 2, self.SINGLE)(x, y), "pow", 2)
    def F(self, r):
        n = r.pop()
        if not self.SINGLE: return self.res(r, float(n), "conversion")
        # correctly rounded to single (not through double)
        if n == 0: return self.res(r, 0.0, "conversion")
        a = abs(n); e = max(0, a.bit_length() - 24); q, rem = divmod(a, 1 << e); half = (1 << e) >> 1
        if rem > half or (rem == half and e and q & 1): q += 1
        self.res(r, math.copysign(math.ldexp(q, e), n), "conversion")
    def I(self, r):
        f = self.tof(r.pop())
        if not math.isfinite(f) or not -9.3e18 < f < 9.2e18:
            if self.m.iter_depth: raise Domain("conversion out of range inside k")
            v = self.m.obs.choose_value(self.m, r, lambda x: True, "out of range conversion")
            r.push(0 if v is None else v)
        else: r.push(int(f))
    def P(self, r):
        f = self.tof(r.pop())
        if math.isnan(f):
            raise Domain("printing a NaN")
        self.m.out += ("%.6f " % f).encode()
    def R(self, r):
        s = r.popstr().split(b"\0")[0]
        m = re.match(rb"[ \t\n\v\f\r]*([-+]?(?:(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?|0[xX]|inf|nan))", s, re.I)
        if m is None: return UNSPEC
        if re.match(rb"[ \t\n\v\f\r]*[-+]?(0[xX]|inf|nan)", s, re.I): raise Domain("special number text")
        f = float(m.group(1))
        try: f = ctypes.c_float(f).value if self.SINGLE else f
        except OverflowError: f = math.copysign(math.inf, f)
        self.res(r, f, "number text")
class FPSP(FPx): NAME = "FPSP"; SINGLE = True
class FPDP(FPx): NAME = "FPDP"

class FPRT(FP):
    NAME = "FPRT"; LETTERS = "DFILS"
    libc = ctypes.CDLL(None)
    def fmt(self, fmt, conv, length, arg):
        """None: the format does not fit."""
        out = b""; i = 0; found = 0
        while i < len(fmt):
            if fmt[i:i+1] != b"%": out += fmt[i:i+1]; i += 1; continue
            if fmt[i+1:i+2] == b"%": out += b"%%"; i += 2; continue
            m = re.compile(rb"%([-+ #0]*)([0-9.]*)([hlLqjzt]*)(.?)", re.S).match(fmt, i)
            if m.group(2) and len(m.group(2)) > 8 or found or not m.group(4) or m.group(4) not in conv: return None
            found += 1
            if m.group(2).count(b".") > 1: raise Domain("odd precision")
            out += b"%" + m.group(1) + m.group(2) + length + m.group(4)
            i = m.end()
        if 0 in out: raise Domain("NUL in format")
        buf = ctypes.create_string_buffer(1024)
        n = self.libc.snprintf(buf, ctypes.c_size_t(1024), ctypes.c_char_p(out), arg)
        if n < 0: return None
        return buf.value
    def put(self, r, s):
        if s is None: return UNSPEC
        r.pushstr(s)
    F_ = [b"a", b"A", b"e", b"E", b"f", b"F", b"g", b"G"]; I_ = [b"d", b"i", b"o", b"u", b"x", b"X"]
    def D(self, r):
        n = r.pop(); f = r.popstr()
        x = struct.unpack("<d", struct.pack("<q", n))[0]
        if math.isnan(x): raise Domain("formatting a NaN")
        return self.put(r, self.fmt(f, self.F_, b"", ctypes.c_double(x)))
    def F(self, r):
        n = r.pop(); f = r.popstr()
        x = struct.unpack("<f", struct.pack("<I", n & 0xffffffff))[0]
        if math.isnan(x): raise Domain("formatting a NaN")
        return self.put(r, self.fmt(f, self.F_, b"", ctypes.c_double(x)))
    def I(self, r):
        n = r.pop(); f = r.popstr()
        return self.put(r, self.fmt(f, self.I_, b"ll", ctypes.c_longlong(n)))
    def L(self, r):
        l = r.pop(); h = r.pop(); f = r.popstr()
        return self.put(r, self.fmt(f, self.I_, b"ll", ctypes.c_longlong(s64((h << 32) | (l & 0xffffffff)))))
    def S(self, r):
        s = r.popstr(); f = r.popstr()
        return self.put(r, self.fmt(f, [b"s"], b"", ctypes.c_char_p(s.split(b"\0")[0])))

def roll(r, u):
    n = abs(u)
    if u == INT_MIN64: return UNSPEC
    big(n, "roll")
    t = [r.pop() for _ in range(n + 1)]        # topmost first
    if u < 0:
        r.push(t[0])
        for x in t[:0:-1]: r.push(x)
    else:
        for x in t[-2::-1]: r.push(x)
        r.push(t[-1])
def pick(r, u):
    if u < 0: return UNSPEC
    r.push(r.top.get(u + 1))
class FRTH(FP):
    NAME = "FRTH"; LETTERS = "DLOPR"
    def D(self, r): r.push(len(r.top))
    def L(self, r): return roll(r, r.pop())
    def O(self, r): b = r.pop(); a = r.pop(); r.push(a); r.push(b); r.push(a)
    def P(self, r): return pick(r, r.pop())
    def R(self, r): c = r.pop(); b = r.pop(); a = r.pop(); r.push(b); r.push(c); r.push(a)

class HRTI(FP):
    NAME = "HRTI"; LETTERS = "EGMST"
    def init(self): self.mark = None
    def E(self, r): self.mark = None
    def M(self, r):
        if self.m.iter_depth: raise Domain("clock inside k")
        self.mark = self.m.obs.window(r, "mono") or (-10**18, 10**18)
    def G(self, r): r.push(1)
    def S(self, r):
        w = None if self.m.iter_depth else self.m.obs.window(r, "wall")
        if w and w[1] - w[0] < 900000: ok = lambda x: 0 <= x < 1000000 and (x - w[0] + 1) % 1000000 <= w[1] - w[0] + 2
        else: ok = lambda x: 0 <= x < 1000000
        v = self.m.obs.choose_value(self.m, r, ok, "microseconds")
        r.push(0 if v is None else v)
    def T(self, r):
        if self.mark is None: return UNSPEC
        w = None if self.m.iter_depth else self.m.obs.window(r, "mono")
        lo, hi = (w[0] - self.mark[1], w[1] - self.mark[0]) if w else (0, 0)
        v = self.m.obs.choose_value(self.m, r, lambda x: max(0, lo - 1) <= x <= hi + 1, "time since the mark")
        r.push(0 if v is None else v)

class IIPC(FP):
    NAME = "IIPC"; LETTERS = "ADGILP"
    def init(self): self.sage = None
    def A(self, r):
        if r.parent is None: return UNSPEC
        r.push(r.parent.id)
    def D(self, r):
        if self.sage is None: self.sage = r.top.ops; return BLOCK
        if r.top.ops == self.sage: return BLOCK
        self.sage = None
    def find(self, r, i):
        for o in r.uni.runners:
            if o.id == i: return o
        return None
    def G(self, r):
        o = self.find(r, r.pop())
        if o is None: return UNSPEC
        r.push(o.pop())
    def I(self, r): r.push(r.id)
    def L(self, r):
        o = self.find(r, r.pop())
        if o is None: return UNSPEC
        r.push(o.top.peek())
    def P(self, r):
        i = r.pop(); v = r.pop(); o = self.find(r, i)
        if o is None: return UNSPEC
        o.push(v)

class JSTR(FP):
    NAME = "JSTR"; LETTERS = "GP"
    def args(self, r):
        n = r.pop(); va = r.popvec(); vd = r.popvec()
        if n > 3000: raise Domain("huge count")
        return n, vadd(va, r.storage), vd
    def G(self, r):
        n, p, d = self.args(r)
        r.push(0)
        for _ in range(n): r.push(r.uni.field.get(p)); p = vadd(p, d)
    def P(self, r):
        n, p, d = self.args(r)
        for _ in range(n): self.m.bigcheck(p); r.uni.field.put(p, r.pop()); p = vadd(p, d)

class MODE(FP):
    NAME = "MODE"; LETTERS = "HIQS"
    def tog(self, r, b):
        self.m.features.add("mode%x" % b)
        r.uni.setmode(r.uni.cfg.mode ^ b)
    def H(self, r): self.tog(r, MODE_HOVER)
    def I(self, r): self.tog(r, MODE_INVERT)
    def Q(self, r): self.tog(r, MODE_QUEUE)
    def S(self, r): self.tog(r, MODE_SWITCH)

def axis(n, v): return trim([0] * n + [v])
class NFUN(FP):
    NAME = "NFUN"; LETTERS = "ABCDHILMRVXYZ"
    B = None
    def go(self, r, n, v):
        r.setdelta(axis(n, v))
        if r.uni.dims < n + 1:
            if n > 40: raise Domain("very many dimensions")
            r.uni.dims = n + 1
    def A(self, r): self.go(r, 3, -1)
    def V(self, r): self.go(r, 3, 1)
    def I(self, r): self.go(r, 3, 1 if r.pop() == 0 else -1)
    def H(self, r): self.go(r, 4, -1 if r.uni.cfg.inverthl else 1)
    def L(self, r): self.go(r, 4, 1 if r.uni.cfg.inverthl else -1)
    def M(self, r): self.go(r, 4, 1 if r.pop() == 0 else -1)
    def C(self, r): self.go(r, 5, -1)
    def D(self, r): self.go(r, 5, 1)
    def R(self, r): self.go(r, 5, 1 if r.pop() == 0 else -1)
    def num(self, r):
        n = r.pop()
        return n if 0 <= n < 65536 else None
    def X(self, r):
        n = self.num(r)
        if n is None: return UNSPEC
        self.go(r, n, 1 if r.pop() == 0 else -1)
    def Y(self, r):
        n = self.num(r)
        if n is None: return UNSPEC
        self.go(r, n, -1)
    def Z(self, r):
        n = self.num(r)
        if n is None: return UNSPEC
        self.go(r, n, 1)

class ORTH(FP):
    NAME = "ORTH"; LETTERS = "AEGOPSVWXYZ"
    def A(self, r): a = r.pop(); b = r.pop(); r.push(b & a)
    def O(self, r): a = r.pop(); b = r.pop(); r.push(b | a)
    def E(self, r): a = r.pop(); b = r.pop(); r.push(b ^ a)
    def G(self, r): x = r.pop(); y = r.pop(); r.push(r.uni.field.get((x, y)))
    def P(self, r):
        x = r.pop(); y = r.pop(); i = r.pop()
        self.m.bigcheck((x, y)); r.uni.field.put((x, y), i)
    def S(self, r): self.m.out += r.popstr() + b"\n"
    def sub(self, v, i, x):
        v = list(v) + [0] * 2; v[i] = x
        return trim(v)
    def V(self, r): r.setdelta(self.sub(r.delta, 0, r.pop()))
    def W(self, r): r.setdelta(self.sub(r.delta, 1, r.pop()))
    def X(self, r): r.pos = self.sub(r.pos, 0, r.pop())
    def Y(self, r): r.pos = self.sub(r.pos, 1, r.pop())
    def Z(self, r):
        if r.pop() == 0: r.next()

class PERL(FP):
    NAME = "PERL"; LETTERS = "EIS"
    def S(self, r): r.push(1)
    def run(self, r):
        if not r.uni.cfg.execute: return None
        code = r.popstr()
        if 0 in code: raise Domain("NUL in perl code")
        return self.m.perl(code)
    def E(self, r):
        e = self.run(r)
        if e is None: return UNSPEC
        r.pushstr(str(e).encode())
    def I(self, r):
        e = self.run(r)
        if e is None: return UNSPEC
        r.push(e)

class REFC(FP):
    NAME = "REFC"; LETTERS = "DR"
    def R(self, r):
        v = r.popvec()
        used = self.m.refs
        x = self.m.obs.choose_value(self.m, r, lambda x: x not in used, "reference number")
        if x is None: x = 0
        used[x] = v; r.push(x)
    def D(self, r):
        x = r.pop()
        if x in self.m.refs: r.pushvec(self.m.refs[x])

class STRN(FP):
    NAME = "STRN"; LETTERS = "ACDFGILMNPRSV"
    def A(self, r): u = r.popstr(); b = r.popstr(); r.pushstr(u + b)
    def C(self, r):
        u = r.popstr(); b = r.popstr()
        s = (u > b) - (u < b)
        if self.m.iter_depth and s: raise Domain("string comparison inside k")
        self.approx(r, s, lambda v: (v > 0) - (v < 0) == s, "string comparison (%d)" % s, s == 0)
    def D(self, r): self.m.out += r.popstr()
    def F(self, r):
        u = r.popstr(); b = r.popstr(); n = u.find(b)
        if n >= 0: r.pushstr(u[n:])
        else: r.push(0)
    def G(self, r):
        p = vadd(r.popvec(), r.storage); s = bytearray(); f = r.uni.field
        if f.max(0) - vget(p, 0) > 20000: raise Domain("far away string")
        while f.get(p) and vget(p, 0) <= f.max(0): s.append(f.get(p) & 255); p = vadd(p, (1,))
        if f.get(p): return UNSPEC
        r.pushstr(bytes(s))
    def I(self, r):
        m = self.m
        k = m.stdin.find(b"\n", m.inpos)
        if k < 0: s = m.stdin[m.inpos:]; m.inpos = len(m.stdin)
        else: s = m.stdin[m.inpos:k]; m.inpos = k + 1
        r.pushstr(s)
    def L(self, r):
        n = r.pop()
        if n < 0: return UNSPEC
        r.pushstr(r.popstr()[:n])
    def M(self, r):
        n = r.pop(); s = r.pop()
        if n < 0 or s < 0: return UNSPEC
        t = r.popstr()
        if s > len(t): return UNSPEC
        r.pushstr(t[s:s+n])
    def N(self, r): s = r.popstr(); r.pushstr(s); r.push(len(s))
    def P(self, r):
        p = vadd(r.popvec(), r.storage); self.m.bigcheck(p); s = r.popstr()
        for c in s: r.uni.field.put(p, s8(c)); p = vadd(p, (1,))
        r.uni.field.put(p, 0)
    def R(self, r):
        n = r.pop()
        if n < 0: return UNSPEC
        s = r.popstr()
        r.pushstr(s[len(s) - min(n, len(s)):])
    def S(self, r): r.pushstr(b"%d" % r.pop())
    def V(self, r):
        s = r.popstr()
        m = re.match(rb"[ \t\n\v\f\r]*([-+]?[0-9]+)", s)
        if not m: return UNSPEC
        n = int(m.group(1))
        if not -(1 << 63) <= n < 1 << 63: return UNSPEC
        r.push(n)

class SUBR(FP):
    NAME = "SUBR"; LETTERS = "ACJOR"
    def init(self): self.rel = False
    def A(self, r): self.rel = False
    def O(self, r): self.rel = True
    def C(self, r):
        n = r.pop(); va = r.popvec()
        if n > 3000: raise Domain("huge count")
        t = [r.pop() for _ in range(n)]
        r.pushvec(r.pos); r.pushvec(r.delta)
        for x in reversed(t): r.push(x)
        if self.rel: va = vadd(va, r.pos)
        self.to(r, va)
    def to(self, r, va):
        self.m.bigcheck(va)
        r.pos = vadd(va, (-1,)); r.setdelta((1,))
    def J(self, r):
        va = r.popvec()
        if self.rel: va = vadd(va, r.pos)
        self.to(r, va)
    def R(self, r):
        n = r.pop()
        if n > 3000: raise Domain("huge count")
        t = [r.pop() for _ in range(n)]
        vd = r.popvec(); va = r.popvec()
        for x in reversed(t): r.push(x)
        self.m.bigcheck(va); r.pos = va; r.setdelta(vd)

class TOYS(FP):
    NAME = "TOYS"; LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    def A(self, r):
        n = r.pop(); a = r.pop()
        if n > 3000: raise Domain("huge count")
        for _ in range(n): r.push(a)
    def B(self, r): b = r.pop(); a = r.pop(); r.push(a + b); r.push(a - b)
    def D(self, r): r.push(r.pop() - 1)
    def I(self, r): r.push(r.pop() + 1)
    def E(self, r):
        s = 0
        while len(r.top): s = s64(s + r.pop())
        r.push(s)
    def P(self, r):
        s = 1
        while len(r.top): s = s64(s * r.pop())
        r.push(s)
    def N(self, r): r.push(1 if r.pop() == 0 else 0)
    def H(self, r): b = r.pop(); a = r.pop(); r.push(shl(a, b))
    # blocks
    def last(self, size):
        """Offset of the far corner, or None for an empty block."""
        size = trim(size) or (0,)
        if any(s == 0 for s in size): return None
        return tuple(s - 1 if s > 0 else s + 1 for s in size)
    def cells(self, a, b):
        """All points from a to b, the first axis varying fastest."""
        n = max(len(a), len(b)); vol = 1
        for i in range(n): vol *= abs(vget(b, i) - vget(a, i)) + 1
        if vol > 20000: raise Domain("huge block")
        pts = [()]
        for i in reversed(range(n)):
            lo, hi = vget(a, i), vget(b, i)
            rng = range(lo, hi + 1) if hi >= lo else range(lo, hi - 1, -1)
            pts = [(x,) + p for p in pts for x in rng]
        return pts
    def copy(self, r, src, size, dest, low, move):
        self.m.bigcheck(src); self.m.bigcheck(dest); self.m.bigcheck(size)
        e = self.last(size)
        if e is None: return
        f = r.uni.field; z = (0,) * len(e)
        for p in (self.cells(z, e) if low else self.cells(e, z)):
            f.put(vadd(dest, p), f.get(vadd(src, p)))
            if move: f.put(vadd(src, p), 32)
    def blk(self, r, low, move):
        d = r.popvec(); s = r.popvec(); src = r.popvec()
        self.copy(r, src, s, d, low, move)
    def C(self, r): self.blk(r, True, False)
    def K(self, r): self.blk(r, False, False)
    def M(self, r): self.blk(r, True, True)
    def V(self, r): self.blk(r, False, True)
    def F(self, r):
        d = r.popvec(); e = self.last(r.popvec()); self.m.bigcheck(d)
        if e is not None:
            for p in self.cells((0,) * len(e), e): r.uni.field.put(vadd(d, p), r.pop())
    def S(self, r):
        d = r.popvec(); e = self.last(r.popvec()); i = r.pop(); self.m.bigcheck(d)
        if e is not None:
            for p in self.cells((0,) * len(e), e): r.uni.field.put(vadd(d, p), i)
    def G(self, r):
        s = r.popvec(); e = self.last(r.popvec())
        if e is not None:
            for p in self.cells(e, (0,) * len(e)): r.push(r.uni.field.get(vadd(s, p)))
    def shift(self, r, ax):
        n = r.pop()
        if n == 0: return
        f = r.uni.field
        if f.max(ax) - f.min(ax) > 20000: raise Domain("long row")
        self.m.bigcheck((n,))
        lo, hi = f.min(ax), f.max(ax)
        src = [0, 0]; src[ax] = lo; src[1-ax] = vget(r.pos, 1-ax)
        dst = list(src); dst[ax] = lo + n
        size = [1, 1]; size[ax] = hi - lo + 1
        self.copy(r, tuple(src), tuple(size), tuple(dst), n < 0, True)
    def J(self, r): self.shift(r, 1)
    def O(self, r): self.shift(r, 0)
    def L(self, r):
        x, y = vget(r.delta, 0), vget(r.delta, 1)
        r.push(r.uni.field.get(vadd(r.pos, trim((y, s64(-x)) + tuple(r.delta[2:])))))
    def R(self, r):
        x, y = vget(r.delta, 0), vget(r.delta, 1)
        r.push(r.uni.field.get(vadd(r.pos, trim((s64(-y), x) + tuple(r.delta[2:])))))
    def Q(self, r):
        v = r.pop()
        p = vadd(r.pos, vneg(r.delta)); self.m.bigcheck(p)
        r.uni.field.put(p, v)
    def T(self, r):
        n = r.pop(); d = r.pop()
        if not 0 <= n < r.uni.dims: return UNSPEC
        r.setdelta(axis(n, 1 if d == 0 else -1))
    def U(self, r):
        k = min(r.uni.dims, 3)
        ch = [axis(a, s) for a in range(k) for s in (1, -1)]
        d = self.m.obs.choose_delta(self.m, r, ch, "TOYS U")
        r.uni.field.put(r.pos, ord("><v^hl"[ch.index(d)]))
        r.setdelta(d)
    def W(self, r):
        v = r.popvec(); x = r.pop(); c = r.uni.field.get(v)
        if c < x:
            r.push(x); r.pushvec(v)
            return BLOCK
        if c > x: r.reflect()
    def X(self, r): r.pos = vadd(r.pos, (1,))
    def Y(self, r):
        if r.uni.dims < 2: return UNSPEC
        r.pos = vadd(r.pos, (0, 1))
    def Z(self, r):
        if r.uni.dims < 3: return UNSPEC
        r.pos = vadd(r.pos, (0, 0, 1))

class MVRS(FP):
    NAME = "MVRS"; LETTERS = "BCFGJNP"
    def find(self, r):
        name = r.popstr()
        for u in self.m.universes:
            if u.cfg.name.encode("latin-1") == name: return u
        self.m.features.add("no such universe")
        return None
    def enter(self, r, u):
        self.m.features.add("transfer" if u is not r.uni else "transfer to the same universe")
        if u is not r.uni: self.m.transfers += 1
        r.uni = u
    def B(self, r):
        dim = r.pop(); lng = r.pop(); flags = r.pop(); name = r.popstr().decode("latin-1")
        if dim == 0: dim = r.uni.dims
        if flags & 0x1ff or dim < 0 or lng not in (0, 1, 2): return UNSPEC
        if dim > 12: raise Domain("many dimensions")
        if flags & MODE_DEBUG: raise Domain("debugger")
        mode = flags & (MODE_HOVER | MODE_INVERT | MODE_QUEUE | MODE_SWITCH | MODE_DIVE) if flags else r.uni.cfg.mode
        c = Config(dims=dim, standard={0: r.uni.cfg.standard, 1: 93, 2: 98}[lng], mode=mode)
        for k in ("concurrent", "execute", "filesystem"): setattr(c, k, getattr(r.uni.cfg, k))
        c.name = self.m.unique_name(name)
        self.m.features.add("universe created")
        Universe(self.m, c)
    def C(self, r): r.push(len(self.m.universes))
    def N(self, r): r.pushstr(r.uni.cfg.name.encode("latin-1"))
    def G(self, r):
        delta = r.popvec(3); pos = r.popvec(3); u = self.find(r)
        if u is None: return UNSPEC
        self.enter(r, u)
        r.pos = trim(pos); r.setdelta(delta)
    def J(self, r):
        u = self.find(r)
        if u is None: return UNSPEC
        self.enter(r, u)
    def F(self, r):
        size = r.popvec(); src = r.popvec(3); dest = r.popvec(); u = self.find(r)
        if u is None: return UNSPEC
        self.copy(u.field, src, size, r.uni.field, dest)
    def P(self, r):
        size = r.popvec(); src = r.popvec(); dest = r.popvec(3); u = self.find(r)
        if u is None: return UNSPEC
        self.copy(r.uni.field, src, size, u.field, dest)
    def copy(self, a, src, size, b, dest):
        """The size is the offset of the last cell copied."""
        n = 1
        for x in size:
            n *= abs(x) + 1
            if n > 3000: raise Domain("large copy")
        self.m.work(n); self.m.features.add("space copied")
        import itertools
        for p in itertools.product(*[range(0, x + 1) if x >= 0 else range(0, x - 1, -1) for x in reversed(size)]):
            o = tuple(reversed(p)); d = vadd(dest, o)
            self.m.bigcheck(d)
            b.put(d, a.get(vadd(src, o)))

class Dynamic(FP):
    """Instructions for library code that act on its caller."""
    NAME = "dynamicf"; LETTERS = "BDEFGKLMNOPQRSX"
    def init(self): self.c = self.r.uni.creator
    def B(self, r): c = self.c; c.reflect(); c.next(); c.reflect()
    def D(self, r): self.c.setdelta(r.popvec())
    def E(self, r): r.push(len(r.top))
    def F(self, r): self.c.next()
    def G(self, r): r.push(self.c.uni.field.get(r.popvec()))
    def K(self, r): return pick(r, r.pop())
    def L(self, r): self.c.pos = r.popvec()
    def M(self, r): r.push(self.c.uni.cfg.mode >> 12)
    def N(self, r): r.push(self.c.uni.field.get(vadd(self.c.pos, self.c.delta)))
    def O(self, r): return roll(r, r.pop())
    def P(self, r): v = r.popvec(); self.m.bigcheck(v); self.c.uni.field.put(v, r.pop())
    def Q(self, r):
        c = self.c
        for v in (c.pos, c.delta, c.storage):
            for i in range(c.uni.dims): c.push(vget(v, i))
    def R(self, r): self.c.reflect()
    def S(self, r): self.c.storage = r.popvec()
    def X(self, r): self.c.stopped = True; r.stopped = True

class FungeLib:
    """A fingerprint kept as a funge-lib file."""
    def __init__(self, m, r, name, data):
        import loaders
        self.m = m; self.r = r; self.name = name
        cfg = Config(name="/fing/" + name, standard=98, fingerprints=[fid("dynamicf")])
        cfg.mode |= r.uni.cfg.mode & MODE_DEBUG
        for k in ("concurrent", "execute", "filesystem"): setattr(cfg, k, getattr(r.uni.cfg, k))
        self.u = Universe(m, cfg); self.u.creator = r
        loaders.fl(self.u, data)
    def letters(self): return list(self.u.planes)
    def activate(self):
        for c in self.u.planes: self.r.bind(c, self.call(c))
    def call(self, c):
        key = self.name + "." + chr(c)
        def f(r):
            m = self.m
            m.fpcalls[key] = m.fpcalls.get(key, 0) + 1
            m.features.add("library-call")
            m.libdepth += 1
            if m.libdepth > 20: raise Domain("deep library calls")
            before = LIBSPEC[self.name].get(chr(c)) if self.name in LIBSPEC else None
            snap = (list(r.top.v), len(m.out), r.pos, r.delta, r.storage) if before else None
            n = m.new_runner(self.u, trim((0, 0, c - 65)), (1,), share=r)
            m.add_runner(n)
            m.run_universe(self.u)
            if not self.u.running: raise Domain("library universe stopped by q")
            r.ss.setmode(r.uni.cfg.mode)
            m.libdepth -= 1
            if before: check_lib(m, r, self.name, chr(c), before, snap)
        return f

# What the shipped libraries are documented to do, stated independently of their code.
def check_lib(m, r, lib, c, spec, snap):
    st, outlen, pos, delta, storage = snap
    if r.uni.cfg.mode & (MODE_INVERT | MODE_QUEUE): return
    out = bytes(m.out[outlen:])
    want = spec(list(st), (pos, delta, storage))
    if want is None: return
    wst, wout, wdelta = want
    m.libchecks += 1
    if wst != r.top.v: raise Mismatch("%s %s on stack %s left %s, expected %s" % (lib, c, st[-8:], r.top.v[-8:], wst[-8:]))
    if wout is not None and wout != out: raise Mismatch("%s %s on stack %s printed %r, expected %r" % (lib, c, st[-8:], out, wout))
    if r.delta != wdelta: raise Mismatch("%s %s left delta %s, expected %s" % (lib, c, r.delta, wdelta))
def _pop(st): return st.pop() if st else 0
def _lit(n):
    def f(st, ip): return st + [n], b"", ip[1]
    return f
LIBSPEC = {
    "ROMA": {c: _lit(n) for c, n in zip("IVXLCDM", (1, 5, 10, 50, 100, 500, 1000))},
    "NULL": {},
}
def _null(st, ip): return st, b"", vneg(ip[1])
for _c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ": LIBSPEC["NULL"][_c] = _null
def _roma_p(st, ip):
    n = _pop(st)
    if n <= 0: return st, b"0 ", ip[1]
    out = b"M" * (n // 1000) if n < 10**8 else None
    if out is None: return None
    n %= 1000
    for v, t in ((900, b"CM"), (500, b"D"), (400, b"CD"), (100, b"C"), (90, b"XC"), (50, b"L"), (40, b"XL"), (10, b"X"), (9, b"IX"), (5, b"V"), (4, b"IV"), (1, b"I")):
        while n >= v: out += t; n -= v
    return st, out + b" ", ip[1]
LIBSPEC["ROMA"]["P"] = _roma_p
def _modu(kind):
    def f(st, ip):
        b = _pop(st); a = _pop(st)
        if max(abs(a), abs(b)) > 1 << 61: return None       # the library's own arithmetic wraps there
        if b == 0: v = 0
        elif kind == "M":           # the quotient is rounded down as CCBI does: one less whenever it is negative
            q = cdiv(a, b)
            v = a - b * (q - 1 if q < 0 else q)
        elif kind == "U": v = a % abs(b)
        else: v = cmod(a, b)
        return st + [s64(v)], b"", ip[1]
    return f
LIBSPEC["MODU"] = {k: _modu(k) for k in "MUR"}
def _term(kind):
    def f(st, ip):
        E = b"\x1b["
        if kind in "CHLS": return st, E + {"C": b"2J", "H": b"1;1H", "L": b"0K", "S": b"0J"}[kind], ip[1]
        if kind == "G":
            y = _pop(st); x = _pop(st)
            return st, None, ip[1]
        n = _pop(st)
        return st, E + (b"%d" % abs(n)) + (b"A" if (n > 0) == (kind == "U") else b"B"), ip[1]
    return f
LIBSPEC["TERM"] = {k: _term(k) for k in "CHLSGUD"}

BUILTIN = {fid(c.NAME): c for c in (BASE, BITW, BOOL, CPLI, DBUG, DIRF, FING, FISH, FIXP, FPDP, FPRT, FPSP, FRTH, HRTI, IIPC,
                                    JSTR, MODE, MVRS, NFUN, ORTH, PERL, REFC, STRN, SUBR, TOYS)}

def make(m, r, f):
    f &= M64
    name = fname(f)
    if name in m.fing: return FungeLib(m, r, name, m.fing[name])
    if f == fid("dynamicf"): return Dynamic(m, r) if r.uni.creator is not None else None
    if name == "LONG": raise Domain("LONG is not built here")
    if "/" in name or "\0" in name: raise Domain("path in a fingerprint name")
    c = BUILTIN.get(f)
    return c(m, r) if c else None

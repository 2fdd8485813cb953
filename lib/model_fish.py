"""Reference model of ><> and *><>.  Cells of the stacks are IEEE double bit patterns."""
import math, struct, time
from model import *

def bits(f): return s64(struct.unpack("<Q", struct.pack("<d", f))[0])
def dbl(n): return struct.unpack("<d", struct.pack("<Q", n & M64))[0]
def pushval(m, r, f, st=None):
    if math.isnan(f): raise Domain("NaN in ><>")
    (r.ss.top if st is None else st).push(bits(f))
def toint(f):
    if math.isnan(f) or not -9.2e18 < f < 9.2e18: raise Domain("><> value out of the integer range")
    return int(f)

def error(m, r, err):
    if err == UNIMP and r.uni.cfg.mode & MODE_DIVE:
        r.next(); return
    m.features.add("smells-fishy")
    m.err.append(("fishy",))
    r.uni.kill(1)

class Smell(Exception): pass

class Fish:
    def __init__(self, m, r):
        self.m = m; self.r = r; self.regs = [None]; self.file = None; self.path = None
        self.up = True; self.cache = (1,)
    # stack access
    def need(self, n, st=None):
        st = self.r.ss.top if st is None else st
        if len(st) < n: raise Smell()
    def pop(self, st=None): return dbl((self.r.ss.top if st is None else st).pop())
    def push(self, f, st=None): pushval(self.m, self.r, f, st)
    def two(self):
        self.need(2); x = self.pop(); y = self.pop()
        return y, x
    def vec(self, st=None):
        n = self.r.uni.dims
        v = trim(reversed([toint(self.pop(st)) for _ in range(n)]))
        self.m.bigcheck(v)
        return v
    # movement
    def go(self, x, y): self.r.setdelta((x, y))
    def turn(self, f):
        x, y = vget(self.r.delta, 0), vget(self.r.delta, 1)
        self.r.setdelta(f(x, y))
    def random(self):
        ch = [trim([0] * a + [s]) for a in range(self.r.uni.dims) for s in (1, -1)]
        self.r.setdelta(self.m.obs.choose_delta(self.m, self.r, ch, "x"))
    def skip(self): self.r.next()
    def cond(self):
        self.need(1)
        if self.pop() == 0: self.r.next()
    def jump(self):
        self.need(self.r.uni.dims)
        self.r.pos = self.vec()
        self.m.features.add("fish-jump")
    # arithmetic
    def arith(self, f):
        y, x = self.two()
        try: z = f(y, x)
        except OverflowError: z = math.inf if (y > 0) == (x > 0) else -math.inf
        self.push(z)
    def div(self):
        y, x = self.two()
        if x == 0: return UNSPEC
        self.push(y / x)
    def mod(self):
        y, x = self.two()
        y, x = toint(y), toint(x)
        if x == 0: return UNSPEC
        self.push(float(cmod(y, x)))
    def cmp(self, f):
        y, x = self.two(); self.push(1.0 if f(y, x) else 0.0)
    # stack
    def dup(self): self.need(1); x = self.pop(); self.push(x); self.push(x)
    def drop(self): self.need(1); self.pop()
    def swap(self): y, x = self.two(); self.push(x); self.push(y)
    def swap3(self):
        self.need(3); x = self.pop(); y = self.pop(); z = self.pop()
        self.push(x); self.push(z); self.push(y)
    def length(self): self.push(float(len(self.r.ss.top)))
    def rearrange(self, f):
        s = self.r.ss.top
        if s.v: s.v[:] = f(s.v)
    def newstack(self):
        self.need(1)
        f = self.pop()
        if f <= -1: raise Domain("negative number of values for [")
        n = toint(f)
        self.r.ss.insert(0, self.r.uni.cfg.mode)
        self.need(n, self.r.ss.second)
        t = [self.pop(self.r.ss.second) for _ in range(n)]
        for x in reversed(t): self.push(x)
        self.regs.append(None)
        self.m.features.add("fish-newstack")
    def endstack(self):
        if not self.r.ss.has_second(): return UNSPEC
        t = list(self.r.ss.top.v)
        for x in t: self.r.ss.second.push(x)
        self.r.ss.drop()
        self.regs.pop()
        if not self.regs: self.regs.append(None)
    # input and output
    def outch(self):
        self.need(1); self.m.out.append(toint(self.pop()) & 0xff)
    def outnum(self):
        self.need(1); x = self.pop()
        if math.isfinite(x) and abs(x) < 9.2e18 and x == int(x): self.m.out += b"%d" % int(x)
        else: self.m.out += b"%g" % x
    def inp(self):
        if self.path is None: c = self.m.getc()
        elif self.file is None or not self.file: c = -1
        else: c = self.file.pop(0)
        self.push(float(c))
    # the rest
    def reg(self):
        if self.regs[-1] is not None:
            self.push(self.regs[-1]); self.regs[-1] = None
        else:
            self.need(1); self.regs[-1] = self.pop()
        self.m.features.add("fish-register")
    def get(self):
        self.need(self.r.uni.dims)
        self.push(float(self.r.uni.field.get(self.vec())))
    def put(self):
        self.need(self.r.uni.dims + 1)
        v = self.vec(); self.r.uni.field.put(v, toint(self.pop()))
    def end(self): self.r.stopped = True
    def string(self, q): self.r.state = q
    # *><>
    def fisherman(self):
        self.m.features.add("fisherman")
        if vget(self.r.delta, 1) == 0:
            up = self.up; self.up = not up
            self.go(0, 1 if up else -1)
        else: self.r.setdelta(self.cache)
    def changed(self, d):
        if vget(d, 0) != 0 and vget(d, 1) == 0: self.cache = d
    def call(self):
        r = self.r
        r.ss.insert(1, r.uni.cfg.mode)
        for i in range(r.uni.dims): self.push(float(vget(r.pos, i)), r.ss.second)
        self.need(r.uni.dims)
        r.pos = self.vec()
        self.m.features.add("call")
    def ret(self):
        r = self.r
        if not r.ss.has_second(): return UNSPEC
        self.need(r.uni.dims, r.ss.second)
        r.pos = self.vec(r.ss.second)
        r.ss.remove(1)
        self.m.features.add("return")
    def dive(self): self.r.uni.setmode(self.r.uni.cfg.mode | MODE_DIVE); self.m.features.add("dive")
    def rise(self): self.r.uni.setmode(self.r.uni.cfg.mode & ~MODE_DIVE)
    def inc(self):
        if self.r.ss.sel == 0: return UNSPEC
        self.r.ss.sel -= 1
    def dec(self):
        if self.r.ss.sel >= len(self.r.ss.st) - 1: return UNSPEC
        self.r.ss.sel += 1
    def fileop(self):
        if not self.r.uni.cfg.filesystem: return NOTAVAIL
        m = self.m
        self.need(1)
        f = self.pop()
        if f <= -1: raise Domain("negative length for F")
        n = toint(f)
        self.need(n)
        if n > 20000: raise Domain("huge file")
        b = bytes(toint(self.pop()) & 0xff for _ in range(n))
        if self.path is None:
            self.path = b[::-1]
            d = m.readfile(self.path) if self.path else None
            self.file = bytearray(d) if d is not None else None
            m.features.add("file-open")
        else:
            m.writefile(self.path, b) if self.path else None
            self.path = None; self.file = None
            m.features.add("file-write")
    def sleep(self):
        self.need(1); x = self.pop()
        if x < 0 or x > 10: raise Domain("sleep")
        m = self.m
        w = m.obs.window(self.r, "mono")
        if w is not None and not x * 1e5 - 2000 <= w[1] - w[0] <= x * 1e5 + 8e6:
            raise M.Mismatch("S slept %d us for %s" % (w[1] - w[0], x))
        m.features.add("sleep")
    def clock(self, which):
        m = self.m; ok = set()
        for t in m.obs.seconds(self.r): ok.add(bits(float(getattr(time.gmtime(t), which))))
        v = m.obs.choose_value(m, self.r, lambda x: x in ok, which)
        self.r.ss.top.push(0 if v is None else v)

def bind(m, r, star):
    F = r.fish = Fish(m, r)
    r.handler = "fish"
    def B(c, fn, move=False):
        def g(r):
            try: return fn()
            except Smell: return UNSPEC
        r.bind(ord(c), g, move)
    r.bind(32, lambda r: SKIP)
    for n in range(16): B("%x" % n, lambda n=n: F.push(float(n)))
    B(">", lambda: F.go(1, 0), True); B("<", lambda: F.go(-1, 0), True)
    B("v", lambda: F.go(0, 1), True); B("^", lambda: F.go(0, -1), True)
    B("\\", lambda: F.turn(lambda x, y: (y, x)), True); B("/", lambda: F.turn(lambda x, y: (-y, -x)), True)
    B("|", lambda: F.turn(lambda x, y: (-x, y)), True); B("_", lambda: F.turn(lambda x, y: (x, -y)), True)
    B("#", lambda: F.turn(lambda x, y: (-x, -y)), True)
    B("x", F.random); B("!", F.skip); B("?", F.cond); B(".", F.jump)
    B("+", lambda: F.arith(lambda y, x: y + x)); B("-", lambda: F.arith(lambda y, x: y - x)); B("*", lambda: F.arith(lambda y, x: y * x))
    B(",", F.div); B("%", F.mod)
    B("=", lambda: F.cmp(lambda y, x: y == x)); B(")", lambda: F.cmp(lambda y, x: y > x)); B("(", lambda: F.cmp(lambda y, x: y < x))
    B("'", lambda: F.string(39)); B('"', lambda: F.string(34))
    B(":", F.dup); B("~", F.drop); B("$", F.swap); B("@", F.swap3); B("l", F.length)
    B("{", lambda: F.rearrange(lambda v: v[1:] + v[:1])); B("}", lambda: F.rearrange(lambda v: v[-1:] + v[:-1]))
    B("r", lambda: F.rearrange(lambda v: v[::-1])); B("[", F.newstack); B("]", F.endstack)
    B("o", F.outch); B("n", F.outnum); B("i", F.inp)
    B("&", F.reg); B("g", F.get); B("p", F.put); B(";", F.end)
    if star:
        r.watch.append(F.changed)
        B("`", F.fisherman, True); B("C", F.call); B("R", F.ret); B("u", F.dive, True); B("O", F.rise, True)
        B("I", F.inc); B("D", F.dec); B("F", F.fileop); B("S", F.sleep)
        B("h", lambda: F.clock("tm_hour")); B("m", lambda: F.clock("tm_min")); B("s", lambda: F.clock("tm_sec"))

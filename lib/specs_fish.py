"""Generators for ><>, *><> and the FISH fingerprint."""
import random
from engine import Case
from gen import *
from check_base import Spec
from specs_core import RULE, case, dec, used, feat

FISHCH = bytes(c for c in range(33, 127) if c not in (34, 39))

class FG:
    """><> tokens."""
    def __init__(self, rng, star=False): self.rng = rng; self.star = star
    def lit(self): return b"%x" % self.rng.randint(0, 15)
    def num(self, v=None):
        r = self.rng
        if v is None:
            x = r.random()
            if x < .6: return self.lit()
            if x < .75: return self.lit() + self.lit() + b","if r.random() < .9 else b"13,"
            if x < .9: v = r.randint(-300, 3000)
            else: v = r.choice((1 << 31, 1 << 32, -(1 << 31) - 1, (1 << 53) + 1, 10 ** 12 + 7, 255, 256, -1, 65536 + 65, 1000000, 99999999))
        if v < 0: return b"0" + self.num(-v) + b"-"
        if v < 16: return b"%x" % v
        if v in (34, 39): return b"'\"'" if v == 34 else b'"\'"'
        if 33 <= v < 127 and r.random() < .6: return b"'" + bytes([v]) + b"'" if v != 39 else b'"\'"'
        q, m = divmod(v, 16)
        return self.num(q) + b"f1+*" + (b"%x+" % m if m else b"")
    def arith(self):
        r = self.rng; op = bytes([r.choice(b"+-*,%=)(+-*")])
        if op in b",%" and r.random() < .95:
            d = r.choice((1, 2, 3, 4, 7, 10, 15, 16, -1, -2, -3, 100))
            return self.num() + self.num(d) + op
        if r.random() < .8: return self.num() + (self.num() if r.random() < .85 else b":") + op
        return op
    def push(self): return self.num()
    def near(self):
        """Values that differ by next to nothing, compared."""
        r = self.rng; x = r.random(); op = bytes([r.choice(b"===)(-")])
        a = r.randint(1, 15); b = r.choice((3, 7, 10, 11, 13, 15)); c = r.randint(1, 15)
        if x < .3: s = b"%x%s,:%s*%x" % (a, self.num(b), self.num(b), a) + op
        elif x < .6: s = self.num(a) + self.num(b) + b"," + self.num(c) + self.num(b) + b",+" + self.num(a + c) + self.num(b) + b","+ op
        elif x < .75: s = self.num(a) + self.num(b) + b"," + b":1" + b"f1+,f1+," * r.randint(1, 8) + r.choice((b"+", b"-")) + op
        elif x < .9: s = b"%xff*f*:*:*%x,:1" % (a, r.randint(1, 15)) + r.choice((b"+", b"-")) + op
        else: s = self.num(a) + self.num(b) + b":@,@@*" + op
        return s + r.choice((b"n", b"", b"n"))
    def stack(self):
        r = self.rng; op = r.choice(b":~$@lr{}:$@{}")
        pre = b"".join(self.num() for _ in range({58: 1, 126: 1, 36: 2, 64: 3}.get(op, 0))) if r.random() < .7 else b""
        return pre + bytes([op])
    def nest(self):
        r = self.rng; k = r.randint(0, 4)
        s = b"".join(self.num() for _ in range(k)) + b"%x[" % r.choice((k, k, k, max(0, k - 1), min(k, 1)))
        s += b"".join(self.stream(r.randint(0, 4), {"push": 2, "stack": 2, "reg": 2, "outn": 1, "lenout": 1}))
        if r.random() < .85: s += b"]"
        return s
    def unnest(self): return b"]"
    def reg(self):
        r = self.rng
        return r.choice((self.num() + b"&", self.num() + b"&", b"&", self.num() + b"&" + self.num() + b"&"))
    def string(self):
        r = self.rng; q = r.choice((b"'", b'"')); o = b'"' if q == b"'" else b"'"
        s = bytes(r.choice(FISHCH + b"    " + o) for _ in range(r.randint(0, 8)))
        return q + s + q
    def outn(self): return (self.num() if self.rng.random() < .7 else b"") + b"n"
    def outc(self): return (self.num(self.rng.choice((10, 65, 97, 127, 200, 256 + 66, 0, 255))) if self.rng.random() < .8 else b"") + b"o"
    def lenout(self): return b"ln"
    def inp(self): return b"i" + self.rng.choice((b"", b"n", b"o", b":n", b":1+?!n"))
    def pos(self, far=.2):
        r = self.rng
        if r.random() < far: return [r.randint(-20, 120), r.randint(-6, 20)]
        return [r.randint(0, 40), r.randint(0, 8)]
    def vec(self, v): return b"".join(self.num(x) for x in v)
    def get(self): return self.vec(self.pos()) + b"g"
    def put(self): return self.num(self.rng.choice((32, 65, 66, 48, 0, -1, 300, 1000))) + self.vec(self.pos()) + b"p"
    def putget(self):
        v = self.vec(self.pos()); return self.num() + v + b"p" + v + b"g"
    def cond(self):
        r = self.rng
        return self.num(r.choice((0, 0, 1, -1, 5))) + b"?" + r.choice((self.lit(), b"l", b"!", b" ", bytes([r.choice(b"rl0")]))) + self.lit()
    def tramp(self): return b"!" + bytes([self.rng.choice(FISHCH)])
    def space(self): return b" " * self.rng.randint(1, 3)
    # *><>
    def clock(self): return bytes([self.rng.choice(b"hms")])
    def sleep(self): return self.rng.choice((b"0S", b"01-0*S", b"1f,S" if self.rng.random() < .05 else b"0S", b"1f1+f*,S"))
    def select(self):
        r = self.rng; k = r.randint(1, 3)
        s = b"".join(self.num() for _ in range(k)) + b"%x[" % r.randint(0, k)
        s += b"D" + b"".join(self.stream(r.randint(0, 3), {"push": 2, "outn": 1, "reg": .3, "lenout": 1})) + b"l?n"
        if r.random() < .85: s += b"I"
        return s
    def dive(self):
        r = self.rng
        return b"u" + bytes(r.choice(b"0123456789abcdef+-*n:~$@lor.gp!?&[]CRFSIDhms{}ABEGHJKLMNPQ") for _ in range(r.randint(0, 10))) + b"O"
    def fileop(self):
        r = self.rng; n = r.choice((b"f.txt", b"g", b"in.dat", b"no/dir", b"in.dat"))
        s = b'"' + n + b'"' + b"%xF" % len(n)
        s += b"".join(r.choice((b"i", b"in", b"io")) for _ in range(r.randint(0, 5)))
        if r.random() < .7:
            b = bytes(r.choice(FISHCH) for _ in range(r.randint(0, 9)))
            s += b'"' + b + b'"' + b"%xF" % len(b)
        return s
    def stream(self, n, prof):
        names = list(prof); w = [prof[k] for k in names]
        return [getattr(self, k)() for k in self.rng.choices(names, w, k=n)]

FP = {"near": .7, "push": 4, "arith": 5, "stack": 4, "nest": 2, "unnest": .15, "reg": 1.5, "string": 1.5, "outn": 2, "outc": 1, "lenout": .7, "inp": 1.2,
      "get": .8, "put": .8, "putget": .8, "cond": 1.5, "tramp": .7, "space": .4}
SP = dict(FP, clock=.4, sleep=.2, select=2, dive=2, fileop=1.2)

def with_jumps(rng, g, toks):
    """A single row in which jumps lead over junk (padding keeps the positions known)."""
    out = b""
    for t in toks:
        out += t
        if rng.random() < .3:
            k = rng.randint(0, 6); pad = 16
            target = len(out) + pad + k           # the IP moves on one step after the jump
            code = g.num(target - 1) + b"0."
            if len(code) > pad or target > 3000: continue
            out += code + b" " * (pad - len(code)) + bytes(rng.choice(FISHCH) for _ in range(k))
    return out

def fish_args(rng, star):
    if rng.random() < .5: return ["-std=" + ("sfish" if star else "fish")], rng.choice(("p.txt", "prog"))
    return [], "p.sf" if star else "p.fish"

def fish_inputs(rng): return bytes(rng.choice(b"0123456789 abc\n\xff\x00") for _ in range(rng.choice((0, 1, 3, 10))))

def fish_grid(rng, star):
    alpha = rng.choice((b"<>^v\\/|_#xxnl0123", b"<>^v\\/|_#0123:+$@lr{}n!?", b"/\\|_#0123456789+*:", b"0123456789abcdef<>^v?!.:l"))
    if star: alpha += rng.choice((b"``", b"``uO", b"uOIDCR", b"hmsuO`"))
    w = rng.randint(3, 20); h = rng.randint(2, 7)
    rows = grid(rng, w, h, alpha, rng.choice((.15, .3, .6)))
    rows[0] = b"1234567890ab"[:max(1, w - 1)] + b"v" if rng.random() < .7 else rows[0]
    return b"\n".join(rows) + b"\n"

def subroutines(rng, g):
    """Main code in row 0 calling rows below, which may call further down."""
    n = rng.randint(1, 4); rows = []
    for k in range(n + 1):
        toks = g.stream(rng.randint(1, 6), {"push": 3, "arith": 1.5, "stack": 1, "outn": 2, "reg": .5, "lenout": 1, "dive": .4, "nest": .3})
        for _ in range(rng.randint(1, 2)):
            if k < n: toks.insert(rng.randint(0, len(toks)), g.num(9) + g.num(rng.randint(k + 1, n)) + b"C")
        toks = b"".join(toks)
        rows.append(toks + b";" if k == 0 else b" " * 10 + toks + (b"R" if rng.random() < .95 else b"RR"))
    return b"\n".join(rows) + b"\n"

def fish_dice(rng, a, n):
    w = rng.randint(3, 9)
    return case(a, n, b"\n".join(b"x" * w for _ in range(rng.randint(2, 5))) + b"\n", steps=rng.choice((100, 300)))

def fish_case(rng, star):
    a, n = fish_args(rng, star)
    if rng.random() < .015: return fish_dice(rng, a, n)
    g = FG(rng, star); prof = SP if star else FP
    if rng.random() < .06: a = ["-fno-filesystem"] + a
    files = {"in.dat": b"line one\n42\n\xe9\x00z"} if star else {}
    x = rng.random()
    if x < .2: t = fish_grid(rng, star)
    elif x < .4: t = with_jumps(rng, g, g.stream(rng.randint(3, 20), prof)) + b";\n" + b"abc\n"
    elif star and x < .6: t = subroutines(rng, g)
    else:
        toks = g.stream(rng.randint(5, 40), prof)
        st = rng.choice(("row", "snake", "col", "west", "up"))
        if star and any(b"u" in k for k in toks): st = rng.choice(("row", "col", "west", "up"))
        lines = arrange(rng, toks, (st,), rng.choice((b";", b";", b";", b"~~~~;", b"A", b"0.")))
        t = b"\n".join(lines) + b"\n"
    return case(a, n, t, stdin=fish_inputs(rng), files=files, steps=700)

def c23(rng, i): return fish_case(rng, False)
def c24(rng, i):
    if rng.random() < .55: return fish_case(rng, True)
    # the FISH fingerprint in Befunge
    dims = rng.choice((2, 2, 2, 3)); a, n = std_args(rng, dims)
    g = TG(rng, dims); g.bigf = .4
    toks = []
    if rng.random() < .25: a = ["-lFISH"] + a
    else: toks.append(b'"HSIF"4(')
    letters = b"CDFHILMNRSTVLRSTC"
    if rng.random() < .6:
        for _ in range(rng.randint(4, 25)):
            x = rng.random()
            if x < .5: toks.append(b"".join(g.num() for _ in range(rng.randint(0, 4))) + bytes([rng.choice(b"LRSTLRST")]))
            elif x < .65: toks.append(b"".join(g.num() for _ in range(rng.randint(0, 3))) + g.small(0, 3) + b"{" + b"D" + g.num() + rng.choice((b"", b".", b":", b"L")) + rng.choice((b"I", b"I", b"")))
            elif x < .75: toks.append(rng.choice((b"0C" + bytes([rng.choice(PRINT)]), b"1Cz")))
            elif x < .85: toks.append(b"U" + bytes(rng.choice(b"0123+-:$.,nzt@q\"") for _ in range(rng.randint(0, 6))) + b"O")
            else: toks += g.stream(1, {"push": 1, "arith": 1, "stack": 1, "block": 1, "out": 1, "putget": .5})
        lines = arrange(rng, toks, ("row", "snake", "fly") if not any(b"U" in t for t in toks) else ("row", "fly"))
        t = b"\n".join(lines) + b"\n" + b"z\n"
        return case(a, n, t, steps=900)
    head = b"".join(toks)
    w = rng.randint(8, 25); h = rng.randint(2, 8)
    rows = grid(rng, w, h, b"FHVMNFHVMNC0123:<>^v#[]" + rng.choice((b"", b"UO", b"FF")), rng.choice((.15, .3, .5)))
    rows[0] = head + b"v" + rows[0]
    k = len(head)
    rows[1] = rows[1][:k].ljust(k) + b">" + rows[1][k:]
    return case(a, n, b"\n".join(rows) + b"\n", steps=400)

def fishops(k):
    return lambda v: sum(v.model.ops.values()) >= k
SPECS = {
    "C23": Spec("C23", c23, RULE % "8 ><> instructions executed", 6000, 120000, fishops(8)),
    "C24": Spec("C24", c24, RULE % "8 instructions executed with the fingerprint or dialect in force", 6000, 120000, fishops(8)),
}
for s in SPECS.values():
    s.nontrivial = (lambda f: lambda case, v: v.obs.matched >= 5 and f(v))(s.nontrivial)

"""Generators for the debugger."""
import re
import engine, specs_core, specs_fish, specs_fp
from engine import Case
from model import trim
from gen import *
from check_base import Spec
from specs_core import RULE, case

def vec_text(rng, dims, lim, spread=1, trimmed=.2):
    v = [rng.randint(-spread, lim[k] + spread) if k < len(lim) else rng.randint(-1, 1) for k in range(dims)]
    if rng.random() < trimmed: v = v[:rng.randint(1, dims)]
    sep = rng.choice((b", ", b",", b" , ", b","))
    return b"(" + sep.join(b"%d" % x for x in v) + b")"

def command(rng, dims, lim, style, spots=()):
    """One command line."""
    V = lambda **k: vec_text(rng, dims, lim, **k)
    if rng.random() < style["go"]:
        return rng.choice((b"step", b"stp", b"s", b"s", b"s") if rng.random() < style["step"] else (b"run", b"r", b"continue", b"con", b"c"))
    if style["calm"]: x = rng.choice((5, 15, 20, 25, 30, 40, 45, 55, 61, 65, 72, 75, 80, 94.5))
    else: x = rng.random() * 100
    def spot():
        """Where something may happen."""
        if spots and rng.random() < .6: return b"(" + b",".join(b"%d" % v for v in rng.choice(spots)) + b")"
        if rng.random() < .6: return b"(%d)" % rng.randint(0, lim[0])
        return V(spread=0)
    if x < 10: return rng.choice((b"peek", b"p", b"p %d" % rng.randint(0, 4), b"p %d %d" % (rng.randint(0, 4), rng.randint(0, 3)), b"peek 1 0"))
    if x < 18: return rng.choice((b"delta", b"dir", b"d"))
    if x < 23: return b"storage"
    if x < 28: return rng.choice((b"position", b"pos"))
    if x < 36: return rng.choice((b"thread", b"t", b"t %d" % rng.randint(0, 4), b"thread %d" % rng.randint(0, 2)))
    if x < 43: return rng.choice((b"backtrace", b"bt"))
    if x < 51: return rng.choice((b"break ", b"bp ")) + spot()
    if x < 59: return rng.choice((b"watch ", b"wp ")) + (spot() if rng.random() < .8 else V())
    if x < 62: return rng.choice((b"break", b"bp", b"watch", b"wp"))
    if x < 69: return b"read " + V()
    if x < 73: return rng.choice((b"get", b"g", b"list", b"l"))
    if x < 77: return rng.choice((b"list ", b"l ")) + vec_text(rng, 2, (3, 2), 0, 0)
    if x < 83:
        s = rng.choice((b"get ", b"g ")) + V()
        if rng.random() < .6: s += b" " + vec_text(rng, rng.choice((2, 2, 3)), (4, 2, 1), rng.choice((0, 0, 1)), .1)
        if rng.random() < .5: s += b" " + rng.choice((b"(0,1)", b"(1,0)", b"(0, 2)", b"(2, 1)", b"(1)", b"(1, 2)", b"(2,2)", b"(-1,0)", b"(0, 5)"))
        return s
    if x < 88: return b"setpos " + V(spread=0)
    if x < 93: return b"setdelta " + rng.choice((b"(1)", b"(1, 0)", b"(-1)", b"(0,1)", b"(0, -1)", b"(2)", b"(1, 1)", b"(0)") if dims > 1 else (b"(1)", b"(-1)", b"(2)"))
    if x < 94: return rng.choice((b"quit", b"q"))
    if x < 95: return rng.choice((b"universe", b"u"))
    if x < 97: return rng.choice((b"", b"  ", b"help", b"5", b"stepp", b"S"))
    return rng.choice((b"break (1,", b"setpos (", b"watch x", b"get (2, 1", b"p 99", b"p 1 9", b"t 77", b"read", b"list (1,1,1)", b"  s  ", b"\tpos", b"break (0, 0)",
                       b"watch (0)", b"setdelta (0,0)", b"step 5", b"run x"))

def commands(rng, dims, lim, n, spots=()):
    style = {"go": rng.choice((.4, .6, .75, .9)), "step": rng.choice((.5, .8, .95, 1)), "calm": rng.random() < .35}
    out = []
    for _ in range(n):
        out.append(command(rng, dims, lim, style, spots))
        if rng.random() < .03: out.append(rng.choice((b"12", b"x", b"-5 a")))
    return b"\n".join(out) + (b"\n" if rng.random() < .85 else b"")

def extent(text):
    rows = text.split(b"\n")
    return (max(1, min(70, max(len(r) for r in rows))), max(1, min(20, len(rows) - 1)), 1)

DP = {"push": 4, "arith": 2, "stack": 1.5, "outnum": 1, "outch": .7, "put": 2.5, "get": .8, "string": .5, "storage": .6, "balanced": .8, "block": .5, "iterate": .5,
      "inp": .5, "tramp": .3, "skipsec": .3, "space": .3, "noop": .4, "fetch": .4, "store": .6, "jump": .2, "clear": .2, "dbg": 3, "split": .5, "bad": .4, "turn": .2}
class DG(TG):
    def dbg(self):
        r = self.rng; x = r.random()
        if x < .3: return self.vec([r.randint(0, 40)] + [0] * (self.dims - 1) if r.random() < .6 else self.coord(0)) + b"A"
        if x < .6: return self.vec(r.choice(self.spots) if self.spots and r.random() < .5 else self.coord(0)) + b"W"
        if x < .8: return b"B"
        return r.choice((b"E", b"E", b"D"))
    def spot(self):
        if not self.spots or self.rng.random() < .4: self.spots.append(self.coord(0))
        return self.rng.choice(self.spots)
    def put(self): return self.num() + self.vec(self.spot()) + b"p"
    def split(self): return self.rng.choice((b"t", b"t", b"#zt"))
    def bad(self): return self.rng.choice((b"A", b"C", b"Q", b"4(", b"r", b"\x80", b"}" , b"0("))
    def turn(self): return b"r#zr"

def c25(rng, i):
    n = rng.choice((0, 1, 3, 8, 15, 25, 40, 60, 100, 160))
    if rng.random() < .4:
        p = rng.choice(("C01", "C02", "C04", "C05", "C06", "C07", "C12", "C23", "C24", "C21"))
        spec = specs_fish.SPECS if p in ("C23", "C24") else specs_fp.SPECS if p == "C21" else specs_core.SPECS
        c = spec[p].generate(rng, i)
        if c is None: return None
        text = max(c.files.values(), key=len, default=b"")
        dims = 1 if text.count(b"\n") <= 1 else 2
        c.args = ["-g"] + c.args
        c.stdin = commands(rng, dims, extent(text)[:dims], n)
        c.steps = min(c.steps, rng.choice((60, 150, 300)))
        c.tags.add("borrowed")
        return c
    dims = rng.choice((1, 2, 2, 2, 3))
    a, name = std_args(rng, dims)
    g = DG(rng, dims); g.bigf = .2
    g.area = (30, 6, 2); g.spots = []
    toks = g.stream(rng.randint(3, 25), DP)
    if rng.random() < .8: toks = [b'"GUBD"4('] + toks
    x = rng.random()
    if x < .8: a = ["-g"] + a
    elif b"4(" in toks[0]: toks.insert(rng.randint(1, len(toks)), b"E")
    t = program(rng, toks, dims, end=rng.choice((b"@", b"@", b"q", b"")))
    ex = extent(t)
    more = [rng.choice(("x", "two words", "-g"))] if rng.random() < .2 else []
    return case(a, name, t, steps=rng.choice((60, 150, 300)), stdin=commands(rng, dims, ex[:dims], n, g.spots), more=more)

VEC = re.compile(rb"\((-?\d+(?:, -?\d+)*)?\)")
def canonical(b):
    """Vectors are the same however many zeros end them."""
    def f(m):
        v = trim(int(x) for x in m.group(1).split(b", ")) if m.group(1) else ()
        return b"(" + b", ".join(b"%d" % x for x in v) + b")"
    return VEC.sub(f, b)
def out_check(m, res):
    a, b = canonical(res.out), canonical(bytes(m.out))
    if a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        k = max(0, a.rfind(b"\n", 0, max(0, k - 60)))
        raise engine.Mismatch("standard output, from character %d: %s\n  expected %s" % (k, engine.brief(a[k:], 300), engine.brief(b[k:], 300)))
def judge(case, res): return engine.judge(case, res, out_check=out_check)

def nontrivial(c, v):
    f = v.model.features
    return v.obs.matched >= 4 and "debug-ticks" in f and sum(1 for x in f if x.startswith("cmd-")) >= 2

SPECS = {"C25": Spec("C25", c25, RULE % "4 instructions executed in the debugger and 2 kinds of commands given", 5000, 120000, nontrivial, judge=judge)}

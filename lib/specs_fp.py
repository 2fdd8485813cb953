"""Generators for the fingerprints."""
import os, random, struct
import build, engine, threads, specs_thr
import model as M
from engine import Case
from gen import *
from check_base import Spec
from specs_core import RULE, case, dec, used, feat, gauntlet, toks_trim
import model_fp

def loadtok(name, rng=None):
    """Code that loads (or, with ), unloads) a fingerprint: the id pushed last character first."""
    if rng is not None and rng.random() < .3:
        return b"".join(b"'" + c.encode() for c in reversed(name)) + b"%d" % len(name)
    return b'"' + name[::-1].encode() + b'"' + b"%x" % len(name)

def fbits(x, single):
    if single: return struct.unpack("<I", struct.pack("<f", x))[0]
    return struct.unpack("<q", struct.pack("<d", x))[0]

FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 10.0, 100.0, 1e-3, 0.1, -0.1, 1.5, 2.5, -2.5, 1e10, 1e-10, 1e30, -1e30, 1e38, 1e-40,
          3.14159265358979, 2.718281828, 0.7853981633974483, float("inf"), float("-inf"), 16777216.0, 16777217.0, 9007199254740993.0]

class G(TG):
    """Argument generators; x_FING_C returns code that pushes arguments and runs the instruction."""
    WORDS = [b"", b"a", b"abc", b"hello", b"x y", b"abcabc", b"bca", b"AbC", b"0", b"12", b"-7", b"+3", b" 42", b"99999999999999999999", b"1e3",
             b"7x", b"--1", b"a,b", b"ab", b"b", b"%d", b"~", b"zzzz", b"%", b"\\n", b"tab", b"longer text with words", b"3.25", b"-0.5", b".5", b"1e400"]
    def pstr(self, s):
        """Push s as a NUL terminated string (first character on top)."""
        r = self.rng
        plain = all(33 <= c <= 126 and c != 34 for c in s.replace(b" ", b"_")) and b"  " not in s
        if plain and r.random() < .9: return b'0"' + s[::-1] + b'"' if s else b"0"
        return b"0" + b"".join(num98(c) for c in reversed(s))
    def word(self):
        r = self.rng
        if r.random() < .6: return r.choice(self.WORDS)
        return bytes(r.choice(b"abcxyz ABC019-+.,%!") for _ in range(r.randint(0, 9)))
    def str(self):
        if self.rng.random() < .06: return self.pstr(bytes(self.rng.choice((200, 128, 255, 10, 9, 27, 65, 32)) for _ in range(self.rng.randint(1, 5))))
        return self.pstr(self.word())
    def idx(self): return self.num(self.rng.choice((0, 1, 2, 3, 4, 5, 7, 20, -1, -3, 1, 2)) if self.rng.random() < .93 else value(self.rng, .8))
    def anyv(self): return self.num(value(self.rng, .6))
    def smallv(self): return self.num(self.rng.randint(-12, 40))
    def pt(self, spread=.2): return self.vec(self.coord(spread))
    def fl(self, single):
        r = self.rng; x = r.random()
        if x < .35: f = r.choice(FLOATS)
        elif x < .6: f = r.uniform(-10, 10)
        elif x < .7: f = float(r.randint(-1000, 1000))
        elif x < .8: f = r.uniform(-1, 1) * 10.0 ** r.randint(-30, 30)
        else:
            b = r.getrandbits(32 if single else 64)
            if not single and b >> 63: b -= 1 << 64
            return self.num(b)
        try: return self.num(fbits(f, single))
        except OverflowError: return self.num(fbits(1.0, single))

    def call(self, fp, c):
        """Arguments and the instruction (arguments, letter)."""
        f = getattr(self, "x_" + fp, None)
        a = f(c) if f else None
        if a is None: a = b"".join(self.anyv() for _ in range(self.rng.randint(0, 3)))
        if self.rng.random() < .05: a = b""
        return a
    def x_BOOL(self, c): return self.anyv() + self.anyv()
    def x_BITW(self, c):
        if c in "LR": return self.anyv() + self.num(self.rng.choice((0, 1, 2, 7, 31, 32, 33, 62, 63, 64, 65, 100, -1, -5, -63, -64, -100, 1 << 32, -(1 << 63))))
        return self.anyv() + self.anyv()
    def x_FIXP(self, c):
        r = self.rng
        if c in "CITBJU": return self.num(r.choice((0, 10000, 5000, -10000, 450000, 900000, 300000, 1800000, 3600000, -450000, r.randint(-10000, 10000), r.randint(-4000000, 4000000))) if r.random() < .85 else value(r, .9))
        if c == "R": return self.num(r.choice((0, 1, 2, 3, 10, -2, -3, r.randint(-50, 50)))) + self.num(r.choice((0, 1, 2, 3, 5, 10, -1, -2, r.randint(0, 25))))
        if c == "D": return self.num(r.choice((0, 1, 2, 3, 10, -1, -5, 1000)) if r.random() < .8 else value(r, .9))
        return self.anyv() + self.anyv()
    def x_CPLI(self, c):
        if self.rng.random() < .7: return b"".join(self.smallv() for _ in range(4))
        return b"".join(self.num(self.rng.randint(-10**6, 10**6)) for _ in range(4)) if self.rng.random() < .6 else b"".join(self.anyv() for _ in range(4))
    def fpx(self, c, single):
        r = self.rng
        if c == "F": return self.anyv()
        if c == "R":
            return self.pstr(r.choice((b"1.5", b"-2", b"abc", b"", b" 3.25x", b"1e10", b"1e-400", b"1e400", b".5", b"5.", b"-", b"+.e", b"12e", b"0.1", b"123456789.123456789", b"%.3f" % r.uniform(-99, 99))))
        if c in "ASMDY": return self.fl(single) + self.fl(single)
        return self.fl(single)
    def x_FPSP(self, c): return self.fpx(c, True)
    def x_FPDP(self, c): return self.fpx(c, False)
    def x_STRN(self, c):
        r = self.rng
        if c in "ACF":
            if c == "F" and r.random() < .6:
                w = self.word(); k = r.randint(0, len(w)); return self.pstr(w[k:k + r.randint(0, 4)]) + self.pstr(w)
            if c == "C" and r.random() < .4: w = self.pstr(self.word()); return w + w
            return self.str() + self.str()
        if c == "G": return self.pt(.1)
        if c == "P": return self.str() + self.pt(.1)
        if c == "I": return b""
        if c in "LR": return self.str() + self.idx()
        if c == "M": return self.str() + self.idx() + self.idx()
        if c == "S": return self.anyv()
        if c == "V":
            return self.pstr(r.choice((b"12", b"-7", b"+3", b" 42", b"99999999999999999999", b"9223372036854775807", b"-9223372036854775808", b"9223372036854775808", b"x1", b"", b"7x", b"--1", b"- 1", b"%d" % r.randint(-10**9, 10**9))))
        return self.str()
    def x_BASE(self, c):
        r = self.rng
        if c == "I": return self.num(r.choice((0, 1, 2, 8, 10, 16, 32, 33, 36, 7)))
        v = self.anyv()
        if c == "N":
            b = r.choice((1, 2, 3, 7, 8, 10, 16, 31, 32, 33, 36, 58, 60, 64, 85, 100, 256, 1000, 0, r.randint(2, 90)))
            return (v if b > 1 else self.num(r.randint(-3, 60))) + self.num(b)
        return v
    def x_JSTR(self, c):
        r = self.rng
        d = [r.choice((0, 1, -1, 2, r.randint(-3, 3))) for _ in range(self.dims)]
        n = r.choice((0, 1, 2, 3, 5, 8, -1))
        s = b"".join(self.num(r.choice((65, 66, 48, 32, 300, -1, 0))) for _ in range(max(n, 0))) if c == "P" else b""
        return s + self.vec(d) + self.pt(.1) + self.num(n)
    def x_FPRT(self, c):
        r = self.rng; conv = {"D": "feEgGaAF", "F": "feEgGaAF", "I": "dioxXu", "L": "dioxXu", "S": "s"}[c]
        fl = r.choice(("", "", "-", "+", " ", "#", "0", "-+", "05"[:1])); w = r.choice(("", "", "5", "12", "1", "20")); p = r.choice(("", "", ".2", ".0", ".", ".10"))
        cv = r.choice(conv) if r.random() < .85 else r.choice("dsfxncp%q*")
        f = r.choice(("", "", "v=", "<", "100%% ")) + "%" + fl + w + p + r.choice(("", "", "l", "h")) + cv + r.choice(("", ">", " end", "%%", "%d"[:r.choice((0, 0, 0, 2))]))
        f = f.encode()
        if r.random() < .04: f = r.choice((b"", b"plain", b"%", b"%5", b"%%", b"%s%s", b"%n", b"%*d"))
        if c == "S": return self.pstr(f) + self.str()
        if c == "D": return self.pstr(f) + self.fl(False)
        if c == "F": return self.pstr(f) + self.fl(True)
        if c == "L": return self.pstr(f) + self.num(r.choice((0, -1, 1, 5))) + self.num(r.choice((0, 1, -1, 77, 1 << 31, (1 << 32) - 1)))
        return self.pstr(f) + self.anyv()
    def x_FRTH(self, c):
        n = self.rng.randint(0, 5)
        s = b"".join(self.num(big=.1) for _ in range(n))
        if c in "LP": s += self.num(self.rng.choice((0, 1, 2, 3, 4, -1, -2, -4, 9, 30, -9, -(1 << 63), -1 - (1 << 40))))
        return s
    def x_ORTH(self, c):
        r = self.rng
        if c in "AOE": return self.anyv() + self.anyv()
        if c == "G": return self.num(r.randint(-3, 12)) + self.num(r.randint(-3, 40))
        if c == "P": return self.num(r.choice((65, 48, 32, 300, -7, 0))) + self.num(r.randint(-3, 30) + 10) + self.num(r.randint(-3, 40))
        if c == "S": return self.str()
        if c == "V": return self.num(r.choice((1, 1, 2, -1, 0)))
        if c == "W": return self.num(r.choice((0, 0, 0, 1)))
        if c == "Z": return self.num(r.choice((0, 0, 1, -1)))
        return None
    def x_PERL(self, c): return self.pstr(self.rng.choice((b"1+1", b"print 'x'", b"$x=`ls`", b"a\\b", b"exit 3", b"''", b"\"q\"", b"2;3", b"$(id)", b"'", b"", b"x\ny"))) if c != "S" else b""
    def x_REFC(self, c): return self.pt(.4) + (b"" if self.rng.random() < .5 else b"R") if c == "R" else (self.pt(.4) + b"R" if self.rng.random() < .7 else self.idx())
    def x_DIRF(self, c): return self.pstr(self.rng.choice((b"d", b"e", b"d/e", b"..", b"d/..", b".", b"", b"nope", b"f.txt", b"d/", b"../cwd", b"e/f/g", b"x y", b"n" * 60, b"./d")))
    def x_TOYS(self, c):
        r = self.rng
        def size(): return self.vec([r.choice((0, 1, 1, 2, 2, 3, 4, 5, -1, -2, -3)) if k < 2 or self.dims < 3 else r.choice((1, 1, 1, 2, 0)) for k in range(self.dims)])
        if c == "A": return self.num() + self.num(r.choice((0, 1, 2, 5, 12, -1)))
        if c in "CKMV":
            a = self.coord(.1)
            b = [x + r.randint(-4, 4) for x in a] if r.random() < .7 else self.coord(.1)
            return self.vec(a) + size() + self.vec(b)
        if c == "F":
            return b"".join(self.num(r.choice((65, 66, 32, 99, 300))) for _ in range(r.randint(0, 8))) + size() + self.pt(.1)
        if c == "S": return self.num(r.choice((65, 32, 46, -9))) + size() + self.pt(.1)
        if c == "G": return size() + self.pt(.1)
        if c in "JO": return self.num(r.choice((0, 1, 2, 3, -1, -2, 5)))
        if c == "H": return self.anyv() + self.num(r.choice((0, 1, 3, 31, 63, 64, -1, -5, -63, -64, 200)))
        if c in "EP": return b"".join(self.num(big=.2) for _ in range(r.randint(0, 6)))
        if c == "T": return self.num(r.choice((0, 0, 1))) + self.num(r.choice((0, 0, 0, 1, 2, 3, -1)))
        if c == "W":
            # the awaited cell: equal, smaller or greater
            v = self.coord(0); k = r.choice((0, 0, -1, 1))
            x = r.choice((65, 66))
            return self.num(x + (k if k < 0 or r.random() < .5 else 1)) + self.vec(v) + b"p" + self.num(x) + self.vec(v)
        if c == "Q": return self.num(r.choice((32, 122, 65, 300)))
        return None
    def x_ROMA(self, c): return self.num(self.rng.choice((0, 1, 4, 9, 14, 40, 90, 399, 400, 944, 999, 1000, 1994, 3999, 4000, 12345, -1, -5, self.rng.randint(1, 3999)))) if c == "P" else b""
    def x_MODU(self, c):
        r = self.rng
        return self.num(r.choice((0, 1, 5, 7, 10, -1, -5, -7, -10, 100, r.randint(-200, 200)))) + self.num(r.choice((0, 1, 2, 3, 5, 7, -1, -2, -3, -5, 10, r.randint(-40, 40))))
    def x_TERM(self, c): return b"".join(self.num(self.rng.choice((0, 1, 2, 5, 9, 10, 12, 79, 100, -1, -3))) for _ in range({"G": 2, "U": 1, "D": 1}.get(c, 0)))
    def x_FISH(self, c): return b"".join(self.num(big=.1) for _ in range(self.rng.randint(0, 5)))
    def x_MODE(self, c): return b"".join(self.num(big=.1) for _ in range(self.rng.randint(0, 3)))
    def x_HRTI(self, c): return b""
    def x_FING(self, c):
        r = self.rng
        def L(): return self.num(r.choice((r.randint(0, 25), 65 + r.randint(0, 25), r.randint(0, 25), -1, 26, 64, 91)) if r.random() < .9 else value(r))
        return b"".join(L() for _ in range({"X": 2, "Y": 1, "Z": 2}[c]))
    def x_NFUN(self, c):
        r = self.rng
        if c in "XYZ": return self.num(r.choice((0, 1))) + self.num(r.choice((0, 0, 1, 2, 3, 4, 5, -1, 7)))
        return self.num(r.choice((0, 1)))

LETTERS = {n: model_fp.BUILTIN[model_fp.fid(n)].LETTERS for n in ("BASE", "BITW", "BOOL", "CPLI", "DIRF", "FISH", "FIXP", "FPDP", "FPRT", "FPSP",
           "FRTH", "HRTI", "IIPC", "JSTR", "MODE", "NFUN", "ORTH", "PERL", "REFC", "STRN", "SUBR", "TOYS", "FING", "DBUG")}
LETTERS.update(ROMA="IVXLCDMP", MODU="MRU", TERM="CDGHLSU", NULL="ABCDEFGHIJKLMNOPQRSTUVWXYZ")

def after(rng):
    """What happens to the results."""
    return rng.choice((b"", b"", b"", b".", b"..", b"$", b"n", b":.", b","))

# Instructions that change the flow cannot stand in straight code.
FLOWING = {"TOYS": "JOTUWXYZ", "ORTH": "VWXYZ", "FISH": "CFHMNV", "SUBR": "ACJOR", "IIPC": "D", "MODE": "HS", "NFUN": "ABCDHILMRVXYZ", "TERM": "", "PERL": "", "BASE": "", "DIRF": ""}

def fpcase(rng, names, steps=1200, profile=None, dimset=(1, 2, 2, 2, 3), stdin=b"", straight=.6, letters=None, pre=None, files=None, dirs=(), maxcalls=9, opts=()):
    dims = rng.choice(dimset)
    a, n = std_args(rng, dims)
    a = list(opts) + a
    name = rng.choice(names)
    g = G(rng, dims); g.bigf = .35
    ls = letters or LETTERS[name]
    head = loadtok(name, rng) + b"(" + rng.choice((b"$$", b"$$", b"$$", b"", b"n"))
    if rng.random() < .08: a = ["-l" + name] + a; head = b""
    flow = FLOWING.get(name, "")
    if (rng.random() < straight) or dims == 1:
        toks = [head]
        if pre: toks += pre(g)
        for _ in range(rng.randint(1, maxcalls)):
            c = rng.choice(ls)
            if c in flow and rng.random() < .9: continue
            toks.append(g.call(name, c) + c.encode()); toks.append(after(rng))
            if rng.random() < .12: toks.append(g.stream(1, {"push": 3, "stack": 2, "arith": 1, "block": .5, "putget": .5, "storage": .4})[0])
            if rng.random() < .06: toks.append(g.num(rng.choice((0, 1, 2, 3))) + b"k" + c.encode())
        t = program(rng, toks, dims, data=rng.random() < .8)
        return case(a, n, t, steps=steps, stdin=stdin, files=files or {}, dirs=dirs)
    if flow and rng.random() < .2:
        # flow instructions met on a flying delta
        toks = [head] + (pre(g) if pre else [])
        for _ in range(rng.randint(1, maxcalls)):
            c = rng.choice(ls); toks.append(g.call(name, c) + c.encode()); toks.append(after(rng))
        while sum(map(len, toks)) > 110: toks.pop()
        return case(a, n, lay_line(rng, toks, dims, noise=NOISE), steps=steps, stdin=stdin, files=files or {}, dirs=dirs)
    tests = [(head + (b"".join(pre(g)) if pre else b"") + b"".join(g.num(big=.1) for _ in range(rng.randint(0, 2))), 122, b"")]
    for _ in range(rng.randint(1, maxcalls)):
        c = rng.choice(ls)
        tests.append((g.call(name, c), ord(c), after(rng)))
    rows = gauntlet(tests)
    if name in FLOWING and any(ch in FLOWING[name] for ch in ls):
        # somewhere for wandering IPs to go
        W = max(map(len, rows))
        rows = [r + b" " * (W - len(r)) for r in rows]
        rows += area_lines(rng, W, rng.randint(1, 4), .1)
    t = b"\n".join(rows) + b"\n"
    if dims == 3: t += b"\x0c" + b"\n".join(area_lines(rng, 30, 3)) + b"\n"
    return case(a, n, t, steps=steps, stdin=stdin, files=files or {}, dirs=dirs)

def calls(n, *names):
    def p(v): return sum(c for k, c in v.model.fpcalls.items() if k.split(".")[0] in names) >= n
    return p

def fixp_dice(rng):
    a, n = std_args(rng, 2); toks = [b'"PXIF"4($$']
    k = rng.choice((b"1", b"2", b"3", b"5", b"03-", b"04-", b"7"))
    toks += [k + b"D"] * rng.randint(20, 60)
    return case(a, n, b"\n".join(lay_snake(toks, 70)) + b"\n", steps=500)
def toys_dice(rng):
    dims = rng.choice((1, 2, 2, 3, 3)); a, n = std_args(rng, dims); w = rng.randint(9, 40); head = b'"SYOT"4($$'
    row = b"U" * (w + len(head))
    if dims == 1: return case(a, n, head + row + b"\n", steps=200)
    pl = lambda: b"\n".join(row for _ in range(rng.randint(5, 20)))
    t = head + pl()
    if dims == 3: t += b"\f" + pl() + b"\f" + pl()
    return case(a, n, t + b"\n", steps=200)

def c16(rng, i):
    if rng.random() < .02: return fixp_dice(rng)
    return fpcase(rng, ("BOOL", "BITW", "FIXP", "FIXP", "CPLI"))
def c17(rng, i): return fpcase(rng, ("FPSP", "FPDP"), dimset=(1, 2, 2), maxcalls=6, steps=2500)
def c18(rng, i):
    stdin = b"".join(rng.choice((b"1010 ", b"ff\n", b"ZZ ", b"hello world\n", b"  17\n", b"-5 ", b"\n", b"12", b"\x80\xff ", b"0x1F ", b"9 ")) for _ in range(rng.randint(0, 8)))
    name = rng.choice(("STRN", "STRN", "BASE", "JSTR", "FPRT", "ROMA"))
    return fpcase(rng, (name,), stdin=stdin, steps=2000)
def c20(rng, i):
    x = rng.random()
    if rng.random() < .02: return toys_dice(rng)
    ls = "CKMVCKMVFSGABDEHILNPQR" if x < .6 else LETTERS["TOYS"]
    return fpcase(rng, ("TOYS",), letters=ls, steps=900, straight=.65, dimset=(1, 2, 2, 2, 2, 3))

# ---- C19
def subr_case(rng):
    dims = rng.choice((1, 2, 2, 3)); a, n = std_args(rng, dims); g = G(rng, dims); g.bigf = .2
    head = loadtok("SUBR", rng) + b"($$"
    if dims == 1 or rng.random() < .4:
        # call within the line: the routine stands behind a jump
        body = g.tokens(rng.randint(1, 4), {"push": 2, "arith": 2, "stack": 1, "out": 1}) + g.num(rng.choice((0, 1, 2))) + b"R"
        rel = rng.random() < .4
        pre = head + (b"O" if rel else b"")
        k = rng.randint(0, 3)
        args = b"".join(g.small() for _ in range(k))
        for off in range(10, 60):
            # C at position c; routine at address t
            stub = pre + args
            t_addr = len(stub) + off
            ad = lambda v: g_vec(v, dims)
            code = stub + ad(t_addr) + b"%d" % rng.choice((k, k, 0)) + b"C"
            if rel:
                c_at = len(code)          # roughly: solve for the relative address
                code2 = stub + ad(t_addr - c_at) + b"%d" % k + b"C"
                code = code2; t_addr2 = (len(code2) - 1) + (t_addr - c_at)
            else: t_addr2 = t_addr
            rest = g.tokens(1, {"push": 2, "out": 1}) + b"."
            line = code + rest + b"@"
            if len(line) <= t_addr2:
                line = line + b" " * (t_addr2 - len(line)) + body
                break
        else: line = pre + body + b"@"
        return case(a, n, line + b"\n" + (b"z\n" if dims > 1 else b""), steps=400)
    # routines on the rows below
    rows = []; nr = rng.randint(1, 4); calls_ = []
    cur = bytearray(head)
    for _ in range(rng.randint(1, 6)):
        k = rng.choice((0, 0, 1, 2, 3)); r_ = rng.randint(1, nr)
        op = rng.choice((b"C", b"C", b"C", b"J"))
        cur += b"".join(g.small() for _ in range(k))
        x = rng.choice((0, 0, 1, 2))
        cur += g_vec2(x, r_, dims) + (b"%d" % k if op == b"C" else b"") + op
        if rng.random() < .5: cur += b"."
        if rng.random() < .1: cur += rng.choice((b"O", b"A"))
    rows.append(bytes(cur) + b"@")
    for _ in range(nr):
        s = b"zz" + g.tokens(rng.randint(0, 4), {"push": 2, "arith": 1, "stack": 1, "out": 1})
        if rng.random() < .25: s += g_vec2(0, rng.randint(1, nr), dims) + b"0C"
        s += g.num(rng.choice((0, 0, 1, 2, 3, -1))) + rng.choice((b"R", b"R", b"R", b"@", b""))
        rows.append(s)
    return case(a, n, b"\n".join(rows) + b"\n" + (b"\x0c z\n" if dims == 3 else b""), steps=600)
def g_vec(v, dims):
    """A vector on the first axis with constant code length for each magnitude class."""
    s = (b"0" if v < 0 else b"") + b"%x" % (abs(v) // 16) + b"f1+*" + b"%x+" % (abs(v) % 16) + (b"-" if v < 0 else b"")
    if abs(v) >= 256: s = num98(v)
    return s + b"0" * (dims - 1)
def g_vec2(x, y, dims): return b"%x%x" % (x, y) + b"0" * (dims - 2)

def c19(rng, i):
    x = rng.random()
    if x < .25: return subr_case(rng)
    if x < .45:
        files = {"f.txt": b"1 2\n"}; dirs = [d for d in ("d", "e", "d/e") if rng.random() < .5]
        if "d/e" in dirs and "d" not in dirs: dirs.insert(0, "d")
        return fpcase(rng, ("DIRF",), files=files, dirs=dirs, steps=600)
    name = rng.choice(("FRTH", "FRTH", "REFC", "ORTH", "ORTH", "HRTI", "PERL", "TERM", "MODU", "MODU", "NULL"))
    return fpcase(rng, (name,), steps=1500 if name in ("TERM", "MODU") else 800)

# ---- C15
NAMES15 = ["BOOL", "BITW", "ROMA", "ROMA", "NULL", "FRTH", "STRN", "ORTH", "TOYS", "FIXP", "MODU", "BASE", "REFC", "CPLI", "SUBR", "FPRT", "FISH", "HRTI", "FPSP",
           "FPDP", "JSTR", "MODE", "DIRF", "PERL", "NFUN", "IIPC", "TERM", "DBUG"]
SAFE15 = {"BOOL": "ANOX", "BITW": "ALNORX", "ROMA": "IVXLCDM", "NULL": "ABC", "FRTH": "DOR", "ORTH": "AEGO", "TOYS": "ABDINQPE", "FIXP": "ANOVXS", "CPLI": "ASM",
          "BASE": "BHO", "REFC": "D", "STRN": "N", "IIPC": "I", "MODU": "R", "HRTI": "GM"}
def c15(rng, i):
    dims = rng.choice((2, 2, 2, 2, 3)); a, n = std_args(rng, dims)
    g = G(rng, dims); g.bigf = .1
    for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 3))): a = ["-l" + rng.choice(NAMES15 + ["XXXX", "ROM", "ROMAN"])] + a
    pool = rng.sample(sorted(SAFE15), rng.randint(2, 4)) if rng.random() < .7 else rng.sample(NAMES15, rng.randint(2, 4))
    letters = "".join(SAFE15.get(p, LETTERS[p]) for p in pool) + "AB"
    tests = []
    fing = rng.random() < .45
    if fing: tests.append((loadtok("FING") , 40, b"$$"))
    for _ in range(rng.randint(4, 14)):
        x = rng.random(); nm = rng.choice(pool)
        if x < .33: tests.append((loadtok(nm, rng), 40, rng.choice((b"$$", b"$$", b"", b"..")) ))
        elif x < .5: tests.append((loadtok(nm, rng), 41, b""))
        elif x < .56:
            w = rng.choice((b'"YYXX"4', b'0', b'"A"1', b'"DABC"4', b'01-', b'"AMORX"5', b'"ORPL"4', b'"OMAR"4', b"b", b'"amor"4'))
            tests.append((w, rng.choice(b"()"), b"n"))
        elif x < .66 and fing:
            c = rng.choice("XYZ"); k = 1 if c == "Y" else 2
            args = b"".join(g.num(rng.choice((ord(rng.choice(letters)), ord(rng.choice(letters)) - 65, rng.randint(0, 30)))) for _ in range(k))
            tests.append((args, ord(c), b""))
        elif x < .69: tests.append((b"", 116, b""))
        else:
            c = rng.choice(letters)
            tests.append((g.num(rng.randint(0, 9)) + g.num(rng.randint(1, 9)) if rng.random() < .7 else b"", ord(c), rng.choice((b"", b".", b"z"))))
    rows = gauntlet(tests)
    t = b"\n".join(rows) + b"\n"
    if dims == 3: t += b"\x0c z\n"
    return case(a, n, t, steps=900, stdin=b"1 2 3\n")

# ---- C21
P21 = {"push": 5, "stack": 3, "arith": 3, "block": 3, "out": 1.5, "get": .5, "string": .5, "iterate": .6, "clear": .3}
def c21(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3)); a, n = std_args(rng, dims)
    g = G(rng, dims); g.bigf = .15
    head = loadtok("MODE", rng) + b"(" + rng.choice((b"$$", b"$$", b"n"))
    if rng.random() < .15: a = ["-lMODE"] + a; head = b""
    x = rng.random()
    if x < .6:
        toks = [head]; ls = rng.choice(("IQ", "IQ", "I", "Q", "IQS", "IQSH", "S"))
        for _ in range(rng.randint(2, 9)):
            toks += g.stream(rng.randint(0, 4), P21)
            toks.append(rng.choice(ls).encode())
            if rng.random() < .08: toks.append(b"t")
            if "H" in ls and rng.random() < .3: toks.append(b"H")
        t = program(rng, toks, dims)
        return case(a, n, t, steps=900)
    if x < .8 and dims >= 2:
        # switch and hover in a grid
        al = b"[]{}()SSHHr" + b"<>^v" + b"0123:+" + b"IQ" + b"tz_|#?w"
        t = grid_program(rng, dims, al, rng.choice((.2, .4, .7)), w=rng.randint(12, 30))
        lines = t.split(b"\n"); lines[0] = head + lines[0][len(head):]
        return case(a, n, b"\n".join(lines), steps=400)
    tests = [(head + b"".join(g.small() for _ in range(2)), 122, b"")]
    for _ in range(rng.randint(2, 9)):
        c = rng.choice("IQSHIQS[]{}()u:\\tn$+") if dims > 1 else rng.choice("IQS{}")
        tests.append((b"".join(g.small(0, 4) for _ in range(rng.randint(0, 3))), ord(c), rng.choice((b"", b".", b""))))
    if dims == 1: t = b"".join(p + bytes([c]) + q for p, c, q in tests) + b"@\n"
    else: t = b"\n".join(gauntlet(tests)) + b"\n" + (b"\x0c z\n" if dims == 3 else b"")
    return case(a, n, t, steps=500)

# ---- C22
def c22(rng, i):
    x = rng.random()
    if x < .35:
        # auto-dimensioned text of four dimensions
        cubes = []
        for _ in range(rng.randint(1, 3)):
            cubes.append(b"\x0c".join(b"\n".join(grid(rng, rng.randint(2, 14), rng.randint(1, 4), b"<>^v0123:+gpx?[]r#_|hlm;\\", .5)) + b"\n" for _ in range(rng.randint(1, 3))))
        t = b"\x0b".join(cubes)
        if rng.random() < .6:
            g = G(rng, 4); g.area = (12, 4, 2); g.bigf = .2
            head = b"".join(g.stream(rng.randint(1, 8), {"push": 2, "put": 2, "get": 3, "putget": 3, "store": .5, "block": 1, "stack": 1}))
            if rng.random() < .4: head += g.vec([rng.choice((0, 1, -1)) for _ in range(4)]) + b"x"
            t = head + b"@\n" + t + (b"" if len(cubes) > 1 else b"\x0bz")
        return case([], "p.b98", t, steps=400)
    dims = rng.choice((1, 2, 2, 3)); a, n = std_args(rng, dims)
    g = G(rng, dims); g.bigf = .15
    name = "NFUN"
    head = loadtok(name, rng) + b"($$"
    if rng.random() < .3: a = ["-lNFUN"] + a; head = b""
    if x < .6 and dims >= 2:
        # wander: put instructions on the other axes at run time
        toks = [head]
        t = program(rng, toks, dims, end=b"", styles=("row",), data=False)
        al = LETTERS["NFUN"].encode() * 2 + b"<>^v0123rz#"
        body = grid_program(rng, dims, al, rng.choice((.3, .6)), w=rng.randint(8, 24))
        lines = body.split(b"\n"); lines[0] = head + lines[0]
        return case(a, n, b"\n".join(lines), steps=400)
    if dims >= 2:
        tests = [(head, 122, b"")]
        for _ in range(rng.randint(2, 9)):
            c = rng.choice("XYZXYZIMRVLHABCD" + "gpu{}y") if rng.random() < .85 else rng.choice("zr")
            pre = g.call(name, c) if c in LETTERS[name] else b"".join(g.small(0, 3) for _ in range(rng.randint(0, 6)))
            if c == "y": pre += g.num(rng.choice((7, 0, 9, 10, 12)))
            if c in "{}u": pre += g.small(0, 2)
            tests.append((pre, ord(c), after(rng)))
        t = b"\n".join(gauntlet(tests)) + b"\n" + (b"\x0c z\n" if dims == 3 else b"")
        return case(a, n, t, steps=500)
    toks = [head] + [g.call(name, c) + c.encode() for c in rng.choices(LETTERS[name], k=rng.randint(1, 4))]
    return case(a, n, b"".join(toks) + b"..@\n", steps=300)

# ---- C27
def judge27(case, res):
    if "meet" not in case.tags: return engine.judge(case, res)
    m = M.Model(None, case.stdin, case.files, case.dirs); rec = specs_thr.Recorder(); m.case = case
    rec.matched = len(res.light); rec.tolerated = 0; rec.chosen = {}; m.obs = rec
    for t in res.light: m.ops[t[1]] = m.ops.get(t[1], 0) + 1
    return threads.judge(case, res, rec, m)

def nt27(case, v): return "meet" in case.tags and v.kind == "ok" and v.obs.matched >= 5 or "meet" not in case.tags and nt(2, "IIPC")(case, v)

def c27(rng, i):
    if rng.random() < .12: return threads.meet(rng, rng.choice(("pool", "pool", "chain")))
    dims = rng.choice((1, 2, 2, 2, 3)); a, n = std_args(rng, dims)
    g = G(rng, dims); g.bigf = .1
    head = loadtok("IIPC", rng) + b"(" + rng.choice((b"$$", b"$$", b"n", b""))
    if rng.random() < .2: a = ["-lIIPC"] + a; head = b""
    ids = lambda: g.num(rng.choice((0, 0, 1, 1, 2, 3, 4, -1, 9)))
    x = rng.random()
    def op():
        c = rng.choice("ADGILPGLP")
        if c in "GL": s = ids() + c.encode()
        elif c == "P": s = g.num(rng.randint(0, 99)) + ids() + b"P"
        else: s = c.encode()
        return s
    if x < .45:
        toks = [head] + [g.push() for _ in range(rng.randint(0, 4))]
        for _ in range(rng.randint(3, 14)):
            toks.append(op() if rng.random() < .6 else rng.choice((b"t", b"#@t", b".", b":", b"z", b"$", b"1", b"0{", b"tr#@", b"n")))
        t = program(rng, toks, dims, end=rng.choice((b"@", b"", b"@")))
        return case(a, n, t, steps=500)
    if x < .75:
        al = b"ttADDGGILLPP0011234:.$zr#" + (b"<>^v<>^v[]|_" if dims > 1 else b"<>_") + b"@"
        t = grid_program(rng, dims, al, rng.choice((.3, .5, .8)), w=rng.randint(14, 30))
        lines = t.split(b"\n"); lines[0] = head + lines[0][len(head):]
        return case(a, n, b"\n".join(lines), steps=400)
    # parent and child on rows of their own: one waits, the other gives
    if dims == 1: dims = 2; a = [o for o in a if not o.startswith("-std")]; n = "p.b98"
    g = G(rng, dims)
    child = b"".join(rng.choice((b"D", b"z", b".", b"zz", g.num(5) + b"0P", b"A.", b"I.", b"0G.", b"0L.", g.num(3) + b"1P", b"1G.")) for _ in range(rng.randint(2, 10)))
    parent = b"".join(rng.choice((b"D", b"z", b"zzz", g.num(7) + b"1P", g.num(8) + b"2P", b"1L.", b"1G.", b"I.", b"A.", b"2L.", b"9", b"$")) for _ in range(rng.randint(2, 12)))
    # t: the child goes west into the # over which it flies back to v
    head2 = head + b"#vt"
    rows = [head2 + parent + b"@", b" " * (len(head) + 1) + b">" + child + b"@"]
    if rng.random() < .4: rows[0] = head + b"#vtt" + parent + b"@"
    t = b"\n".join(rows) + b"\n" + (b"\x0c z\n" if dims == 3 else b"")
    return case(a, n, t, steps=500)

# ---- C31: the shipped libraries, and the check's own (harness/fing), copied into the instrumented build's fing directory
_libs = {}
def libs():
    if not _libs:
        d = os.path.join(build.HARNESS, "fing")
        for f in sorted(os.listdir(d)):
            _libs[f[:-3]] = "".join(l[1] for l in open(os.path.join(d, f)).read().split("\n") if len(l) == 2 and l[0] == "=")
    return _libs
def c31(rng, i):
    if rng.random() < .3: return fpcase(rng, ("ROMA", "ROMA", "MODU", "MODU", "MODU", "TERM", "NULL"), steps=2500, maxcalls=8)
    name = "VLIB" if rng.random() < .6 else rng.choice(sorted(libs()))
    dims = rng.choice((1, 2, 2, 3)); a, n = std_args(rng, dims); g = G(rng, dims); g.bigf = .2
    ls = libs()[name]
    head = loadtok(name, rng) + b"(" + rng.choice((b"$$", b""))
    if rng.random() < .1: a = ["-l" + name] + a; head = b""
    if rng.random() < .1: head += loadtok("MODE") + b"($$" + rng.choice((b"I", b"Q", b"IQ"))
    def args(c):
        if c in "DLS" and rng.random() < .5: return g.vec([rng.choice((1, 1, 2, 5)), 0, 0][:dims])
        return b"".join(g.num(rng.choice((0, 1, 2, 3, 7, -1, 40)), big=.1) for _ in range(rng.randint(0, 4)))
    if dims > 1 and rng.random() < .5:
        tests = [(head, 122, b"")]
        for _ in range(rng.randint(1, 7)):
            c = rng.choice(ls + ls + "HJ") if rng.random() < .9 else rng.choice("t()k")
            tests.append((args(c), ord(c), after(rng)))
        t = b"\n".join(gauntlet(tests)) + b"\n" + (b"\x0c z\n" if dims == 3 else b"")
    else:
        toks = [head]
        for _ in range(rng.randint(1, 7)):
            c = rng.choice(ls); toks.append(args(c) + c.encode()); toks.append(after(rng))
            if rng.random() < .15: toks.append(g.stream(1, {"block": 1, "putget": 1, "push": 1, "store": 1})[0])
            if rng.random() < .1: toks.append(b"t")
            if rng.random() < .1: toks.append(g.num(2) + b"k" + rng.choice(ls).encode())
        t = program(rng, toks, dims)
    return case(a, n, t, steps=900)
VLIB = {"A": ":+@", "B": "B@", "D": "D@", "E": "E@", "F": "F@", "G": "G@", "K": "K@", "L": "L@", "M": "M@", "N": "N@", "O": "O@", "P": "P@",
        "Q": "Q@", "R": "R@", "S": "S@", "X": "X@", "C": "aa*.@", "I": "1+.2.v\n      @", "T": "t@", "U": "0g,@", "V": "'Q00p00g@", "W": "1{2}@", "Y": "#@t1@"}

def nt(n, *names): return dec(calls(n, *names))
SPECS = {
    "C15": Spec("C15", c15, RULE % "2 loads or unloads executed", 5000, 100000, dec(used("()", 2))),
    "C16": Spec("C16", c16, RULE % "one instruction of the four fingerprints executed", 5000, 100000, nt(1, "BOOL", "BITW", "FIXP", "CPLI")),
    "C17": Spec("C17", c17, RULE % "one floating-point instruction executed", 5000, 100000, nt(1, "FPSP", "FPDP")),
    "C18": Spec("C18", c18, RULE % "one text instruction executed", 5000, 100000, nt(1, "STRN", "BASE", "JSTR", "FPRT", "ROMA")),
    "C19": Spec("C19", c19, RULE % "one instruction of these fingerprints executed", 5000, 100000, nt(1, "FRTH", "SUBR", "REFC", "ORTH", "HRTI", "DIRF", "PERL", "TERM", "MODU", "NULL")),
    "C20": Spec("C20", c20, RULE % "one TOYS instruction executed", 5000, 100000, nt(1, "TOYS")),
    "C21": Spec("C21", c21, RULE % "one mode toggled", 5000, 100000, nt(1, "MODE")),
    "C22": Spec("C22", c22, RULE % "10 instructions in a universe of more than three dimensions, or one NFUN instruction", 5000, 100000,
                dec(lambda v: calls(1, "NFUN")(v) or v.model.universes and v.model.universes[0].dims > 3 and v.obs.matched >= 10)),
    "C27": Spec("C27", c27, RULE % "2 IIPC instructions executed" + " With native threads: numbers that IPs put on and take from one stack are conserved; sleepers wake.", 5000, 100000, nt27, judge27),
    "C31": Spec("C31", c31, RULE % "one library instruction called", 5000, 100000, dec(feat("library-call"))),
}

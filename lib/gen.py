"""Building blocks for generated programs: values, instruction tokens, layouts."""
import random
from engine import Case

SPECIAL = [0, 1, -1, 2, -2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 34, 48, 57, 63, 64, 65, 79, 80, 81, 92, 97, 99, 100, 126,
           127, 128, 129, 255, 256, 257, -10, -127, -128, -129, -255, -256, -257, 1000, 9999, 10000, 10001, 32767, 32768,
           65535, 65536, -32768, -65536, 99999, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, -(1 << 31), -(1 << 31) - 1,
           (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32), -(1 << 32) - 5, (1 << 33) + 5, (1 << 40) + 7, (1 << 52) + 1,
           (1 << 53) + 1, (1 << 62), (1 << 62) - 1, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, -(1 << 62),
           3037000500, -3037000500, 1 << 24, (1 << 24) + 1]
BIG = [v for v in SPECIAL if abs(v) > 255]

def value(rng, big=0.35):
    x = rng.random()
    if x < big * 0.6: return rng.choice(SPECIAL)
    if x < big: return rng.getrandbits(64) - (1 << 63) if rng.random() < .5 else rng.getrandbits(rng.randint(8, 62)) * rng.choice((1, -1))
    if x < big + 0.15: return rng.randint(-20, -1)
    if x < big + 0.35: return rng.randint(10, 300)
    return rng.randint(0, 15)

def num98(v, rng=None):
    """Code that pushes v (Funge-98)."""
    if rng is not None and 33 <= v <= 126 and rng.random() < .5: return b"'" + bytes([v])
    if v < 0:
        if v == -(1 << 63): return b"8" + b"f1+*" * 15        # 8 * 16^15 wraps to the least value
        return b"0" + num98(-v) + b"-"
    if v < 16: return b"%x" % v
    if v < 127 and v > 32 and v != 59: return b"'" + bytes([v])
    if v < 226 and v // 15 <= 15:
        q, r = divmod(v, 15)
        if r == 0: return b"f%x*" % q
    q, r = divmod(v, 16)
    return num98(q) + b"f1+*" + (b"%x+" % r if r else b"")

def num93(v):
    """Code that pushes v (digits only)."""
    if v < 0: return b"0" + num93(-v) + b"-"
    if v < 10: return b"%d" % v
    q, r = divmod(v, 9)
    return num93(q) + b"9*" + (b"%d+" % r if r else b"")

PRINT = bytes(c for c in range(33, 127))
STRCH = bytes(c for c in range(33, 127) if c not in (34,))

class TG:
    """Generates instruction tokens (byte strings) in IP order."""
    def __init__(self, rng, dims=2, std=98, area=(30, 8, 3), char=False):
        self.rng = rng; self.dims = dims; self.std = std; self.area = area; self.nvars = 0; self.bigf = 1.0
    def num(self, v=None, big=.35):
        if v is None: v = value(self.rng, big * self.bigf if self.std >= 98 else big * .4)
        if self.std < 98:
            return num93(max(-10**6, min(10**6, v)))
        return num98(v, self.rng)
    def small(self, a=0, b=9): return self.num(self.rng.randint(a, b))
    def coord(self, spread=.2):
        r = self.rng; out = []
        for k in range(self.dims):
            m = self.area[k] if k < 3 else 2
            if r.random() < spread: out.append(r.randint(-12, m + 20))
            else: out.append(r.randint(0, m))
        return out
    def vec(self, v): return b"".join(self.num(x) for x in v)
    # classes
    def arith(self):
        r = self.rng; op = r.choice(b"+-*/%!`+-*/%`")
        s = b""
        x = r.random()
        if x < .55:
            a = value(r); b = value(r)
            if r.random() < .1: b = a
            if r.random() < .15: b = r.choice((0, 1, -1, 2))
            s = self.num(a) + self.num(b)
        elif x < .8: s = self.num()
        return s + bytes([op])
    def stack(self):
        r = self.rng; x = r.random()
        if x < .3: return b":"
        if x < .6: return b"\\"
        if x < .85: return b"$"
        return b"n" if self.std >= 98 and r.random() < .5 else b"\\"
    def push(self): return self.num()
    def hexdigit(self): return bytes([self.rng.choice(b"0123456789abcdef" if self.std >= 98 else b"0123456789")])
    def out(self): return self.rng.choice((b".", b".", b",", b":.", b":,"))
    def outnum(self): return self.num() + b"."
    def outch(self): return self.num(self.rng.choice((10, 13, 0, 9, 65, 97, 127, 128, 200, 255, 256 + 65, -1, self.rng.randint(0, 255)))) + b","
    def inp(self): return self.rng.choice((b"&", b"~"))
    def get(self): return self.vec(self.coord()) + b"g"
    def put(self): return self.num() + self.vec(self.coord()) + b"p"
    def putsp(self): return self.num(32) + self.vec(self.coord(.5)) + b"p"
    def putget(self):
        c = self.vec(self.coord(.5)); return self.num() + c + b"p" + c + b"g"
    def farput(self):
        r = self.rng
        c = [r.choice((0, 1, r.randint(-100, 200), r.randint(-3000, 3000))) for _ in range(self.dims)]
        c = self.vec(c)
        s = self.num(r.choice((32, 33, 64, 100))) + c + b"p"
        if r.random() < .7: s += c + b"g"
        if r.random() < .5: s += self.num(32) + c + b"p"
        return s
    def fetch(self):
        c = self.rng.choice(PRINT) if self.rng.random() < .8 else self.rng.choice((1, 32, 127, 128, 200, 255, 9))
        return b"'" + bytes([c])
    def store(self): return self.num() + b"s" + bytes([self.rng.choice(PRINT)])
    def string(self):
        r = self.rng; n = r.randint(0, 12); s = bytearray()
        for _ in range(n):
            x = r.random()
            if x < .25: s += b" " * r.randint(1, 4)
            elif x < .32: s += bytes([r.choice((92, 92, 39, 59, 64, 9, 1, 127, 128, 255, 200))])
            else: s.append(r.choice(STRCH))
        if s.endswith(b"\\") : s += b"n"
        return b'"' + bytes(s) + b'"'
    def cstring(self):
        r = self.rng; s = bytearray()
        for _ in range(r.randint(0, 10)):
            if r.random() < .45: s += b"\\" + bytes([r.choice(b"0abtnvfre\\\"'qxA1 ")])
            elif r.random() < .2: s += b" " * r.randint(1, 3)
            else: s.append(r.choice(STRCH))
        k = len(s) - len(bytes(s).rstrip(b"\\"))
        if k % 2: s += b"n"
        return b'"' + bytes(s) + b'"'
    def skipsec(self):
        r = self.rng
        return b";" + bytes(r.choice(PRINT.replace(b";", b"")) for _ in range(r.randint(0, 6))) + b";"
    def space(self): return b" " * self.rng.randint(1, 4)
    def tramp(self): return b"#" + bytes([self.rng.choice(PRINT)])
    def noop(self): return b"z"
    def jump(self):
        r = self.rng; n = r.randint(0, 6)
        junk = bytes(r.choice(PRINT.replace(b";", b"")) for _ in range(n))
        return self.num(n) + b"j" + junk
    def branch0(self):
        """Branches taken so that execution goes on."""
        r = self.rng
        if self.dims == 1 or r.random() < .5: return b"0_"
        v = r.randint(-3, 3)
        return self.num(v) + self.num(v) + b"w"
    def cmp(self):
        if self.dims == 1: return b"1!_"
        v = value(self.rng); return self.num(v) + self.num(v) + b"w"
    def negjump(self):
        # jump back over itself to a trampoline that leads on:  #A <n> j ... the loop is bounded by the step limit
        return b"0" + b"1-" + b"jz" if self.rng.random() < .2 else b"z"
    def bigstore(self): return self.num(value(self.rng, .8)) + b"s" + bytes([self.rng.choice(PRINT)])
    def fetchput(self):
        """Fetch a cell that was stored a moment ago (whole cell values)."""
        r = self.rng
        # s stores into the next cell, which ' later fetches when the line is walked again; here: store then step back
        return self.num(value(r, .7)) + b"s" + b"z"
    def storage(self): return self.num(self.rng.choice((0, 1, 2, -1))) + self.rng.choice((b"{", b"{", b"}"))
    def clear(self): return b"n"
    def balanced(self):
        r = self.rng; n = r.randint(0, 5)
        return b"".join(self.num() for _ in range(n)) + self.num(n) + b"{" + self.num(n) + b"}"
    def iterate(self):
        r = self.rng; x = r.random(); n = r.choice((0, 1, 2, 3, 4, 7, -1, -3, 12, 0))
        gap = r.choice((b"", b"", b"", b"  ", b";ab;", b" ;x; ;y; "))
        if x < .3: body = bytes([r.choice(b"+-*:$\\!`z")])
        elif x < .45: body = bytes([r.choice(b"0123456789abcdef")])
        elif x < .55: body = bytes([r.choice(b".,")])
        elif x < .65: body = b"'" + bytes([r.choice(PRINT)])
        elif x < .72: body = b"n"
        elif x < .8: body = b"#" + bytes(r.choice(b"0123:+z") for _ in range(6)); n = r.randint(0, 5)
        elif x < .85: body = b"s" + bytes([r.choice(PRINT)])
        elif x < .9: return self.num(r.randint(0, 3)) + self.num(n) + b"k" + gap + b"j" + b"zzzzzzzzzz"
        elif x < .95:
            return b"".join(self.num(r.randint(0, 3)) for _ in range(r.randint(1, 4))) + self.num(r.randint(0, 3)) + b"kk" + bytes([r.choice(b"1z+:")]) + b"zz"
        else: body = b"g"
        return self.num(n) + b"k" + gap + body
    def block(self):
        """Stack-stack operations."""
        r = self.rng; x = r.random()
        n = r.choice((0, 1, 2, 3, 4, 5, -1, -2, -3, 9))
        pre = b"".join(self.num(big=.1) for _ in range(r.randint(0, 4)))
        if x < .35: return pre + self.num(n) + b"{"
        if x < .65: return pre + self.num(n) + b"}"
        if x < .9: return pre + self.num(n) + b"u"
        return pre + self.num(n) + b"{" + self.tokens(r.randint(0, 3), BLK) + self.num(r.choice((n, n, 0, 1))) + b"}"
    def tokens(self, n, prof): return b"".join(self.stream(n, prof))
    def stream(self, n, prof):
        names = list(prof); w = [prof[k] for k in names]
        return [getattr(self, k)() for k in self.rng.choices(names, w, k=n)]

BLK = {"push": 3, "stack": 2, "arith": 1, "get": 1, "put": 1, "out": 1, "block": 1}

def area_lines(rng, w, h, density=.5):
    """Data rows placed under the program."""
    out = []
    for _ in range(h):
        out.append(bytes(rng.choice(PRINT) if rng.random() < density else 32 for _ in range(rng.randint(0, w))))
    return out

def lay_row(toks, end=b"@"): return [b"".join(toks) + end]

def lay_snake(toks, width, end=b"@"):
    """Rows read alternately eastwards and westwards; tokens are never split."""
    rows = []; cur = bytearray()
    toks = list(toks) + [end]
    lines = []
    for t in toks:
        if len(cur) + len(t) > width and cur: lines.append(bytes(cur)); cur = bytearray()
        cur += t
    lines.append(bytes(cur))
    W = max(max(len(l) for l in lines), width)
    out = []
    for k, l in enumerate(lines):
        last = k == len(lines) - 1
        l = l + b" " * (W - len(l))
        if k % 2 == 0: out.append((b">" if k else b" ") + l + (b"v" if not last else b" "))
        else: out.append((b"v" if not last else b" ") + l[::-1] + b"<")
    return out

def lay_col(toks, end=b"@"):
    return [b"v"] + [bytes([c]) for c in b"".join(toks) + end]

def lay_west(toks, end=b"@"):
    return [b"<" + (b"".join(toks) + end)[::-1]]

def lay_up(toks, end=b"@"):
    return [b"^"] + [bytes([c]) for c in (b"".join(toks) + end)[::-1]]

def lay_fly(rng, toks, end=b"@"):
    """Body placed along a flying delta."""
    dx = rng.choice((0, 1, 2, 3, 1, 2)); dy = rng.choice((1, 2, 1))
    head = num98(dx) + num98(dy) + b"x"
    body = b"".join(toks) + end
    cells = {}
    for i, c in enumerate(head): cells[(i, 0)] = c
    x, y = len(head) - 1, 0
    for c in body:
        x += dx; y += dy
        cells[(x, y)] = c
    return grid_lines(cells)

def lay_line(rng, toks, dims, end=b"@", noise=b""):
    """Text whose body lies along a random delta with components in every dimension; noise fills the rest thinly."""
    body = b"".join(toks) + end
    for _ in range(40):
        d = [rng.choice((0, 1, 2, 1, 3)), rng.choice((0, 1, 2, 1)), rng.choice((0, 1, 1, 1, 2))][:dims]
        if any(d[1:] if dims > 1 else d): break
    head = b"".join(num98(x) for x in d) + b"x"
    cells = {}
    for i, c in enumerate(head): cells[(i,) + (0,) * (dims - 1)] = c
    p = [len(head) - 1] + [0] * (dims - 1)
    for c in body:
        p = [a + b for a, b in zip(p, d)]
        cells[tuple(p)] = c
    top = [max(q[k] for q in cells) for k in range(dims)] + [0] * (3 - dims)
    planes = []; thin = min(.12, 400 / ((top[0] + 1) * (top[1] + 1) * (top[2] + 1)))
    for z in range(top[2] + 1):
        rows = []
        for y in range(top[1] + 1):
            row = bytearray()
            for x in range(top[0] + 1):
                q = (x, y, z)[:dims]
                row.append(cells.get(q) or (rng.choice(noise) if noise and rng.random() < thin else 32))
            rows.append(bytes(row.rstrip()))
        planes.append(b"\n".join(rows) + b"\n")
    return b"\x0c".join(planes)

NOISE = b"zzz@@r0123:$+"

def grid_lines(cells):
    if not cells: return [b""]
    rows = []
    h = max(y for x, y in cells) + 1
    for y in range(h):
        xs = {x: c for (x, yy), c in cells.items() if yy == y}
        n = max(xs) + 1 if xs else 0
        rows.append(bytes(xs.get(x, 32) for x in range(n)))
    return rows

def arrange(rng, toks, styles=("row", "snake", "col", "west", "up", "fly"), end=b"@"):
    st = rng.choice(styles)
    total = sum(len(t) for t in toks)
    if st == "row": return lay_row(toks, end)
    if st == "snake": return lay_snake(toks, rng.randint(12, 60), end)
    if st == "col": return lay_col(toks, end)
    if st == "west": return lay_west(toks, end)
    if st == "up": return lay_up(toks, end)
    if st == "fly":
        if total > 400: return lay_row(toks, end)
        return lay_fly(rng, toks, end)
    raise ValueError(st)

def program(rng, toks, dims=2, std=98, data=True, styles=None, end=b"@", area=(30, 6), nl=b"\n"):
    """Text of a program executing the tokens, with a data area below (2 dimensions and more)."""
    if dims == 1:
        st = rng.choice(("row", "west"))
        return (lay_row if st == "row" else lay_west)(toks, end)[0] + nl
    if dims >= 3 and (styles is None or "fly" in styles) and rng.random() < .35 and sum(map(len, toks)) < 120:
        return lay_line(rng, toks, dims, end, NOISE if rng.random() < .7 else b"")
    if styles is None: styles = ("row", "row", "snake", "col", "west", "up", "fly") if std >= 98 else ("row", "snake", "col", "west", "up")
    lines = arrange(rng, toks, styles, end)
    if data: lines = lines + area_lines(rng, area[0], rng.randint(1, area[1]))
    if len(lines) == 1: lines.append(b"z")
    text = nl.join(lines) + nl
    if dims >= 3:
        planes = [text]
        for _ in range(rng.randint(0, 2)): planes.append(nl.join(area_lines(rng, area[0], rng.randint(1, area[1]))) + nl)
        text = b"\x0c".join(planes)
    return text

def std_args(rng, dims, std=98, auto=True):
    """(args, file name) selecting the dialect."""
    if std == 98:
        if dims == 2 and auto and rng.random() < .5: return [], rng.choice(("p.b98", "prog", "a.txt"))
        return ["-std=" + {1: "une98", 2: "be98", 3: "tre98"}[dims]], "p.b98"
    return ["-std=" + {1: "une93", 2: "be93"}[dims]], "p.bf"

def grid(rng, w, h, alphabet, density=.6):
    """Random grid; alphabet: bytes, repeated characters weigh more."""
    rows = []
    for _ in range(h):
        rows.append(bytes(rng.choice(alphabet) if rng.random() < density else 32 for _ in range(w)))
    return rows

def grid_program(rng, dims, alphabet, density=None, w=None, h=None, nl=b"\n"):
    density = density if density is not None else rng.choice((.2, .4, .7, .95))
    w = w or rng.randint(2, 24); h = 1 if dims == 1 else (h or rng.randint(1, 8))
    planes = []
    for _ in range(1 if dims < 3 else rng.randint(1, 4)):
        planes.append(nl.join(grid(rng, w, h, alphabet, density)) + nl)
    text = b"\x0c".join(planes)
    if not text.strip(): text = b"1" + text
    return text

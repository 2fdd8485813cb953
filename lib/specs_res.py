"""Resources: a program that comes back to the state it was in before holds no more memory, files and threads than before."""
import collections, random
import engine, model as M
from engine import Case, Verdict
from gen import *
from check_base import Spec
import specs_fp, specs_fish
from specs_fp import LETTERS, FLOWING, loadtok

ROUNDS = 400; NATIVE_ROUNDS = 150

class Again(Exception): pass

def freeze(x, deep=0):
    if x is None or isinstance(x, (int, str, bytes, float, bool)): return x
    if isinstance(x, bytearray): return bytes(x)
    if isinstance(x, (list, tuple, collections.deque)): return tuple(freeze(y, deep + 1) for y in x)
    if isinstance(x, (set, frozenset)): return tuple(sorted(map(repr, x)))
    if isinstance(x, dict): return tuple((repr(k), freeze(v, deep + 1)) for k, v in x.items())
    if isinstance(x, (M.Model, M.Runner, M.Universe)) or callable(x) or deep > 4: return type(x).__name__
    if hasattr(x, "__dict__"): return tuple((k, freeze(v, deep + 1)) for k, v in vars(x).items())
    return type(x).__name__

def stacks(r): return tuple(tuple(s.v) for s in r.ss.st), r.ss.sel

class Rounds:
    """Takes the place of the observer: the model's state whenever IP 0 is at the origin."""
    def __init__(self, want): self.want = want; self.n = 0; self.seen = []; self.at = []; self.matched = 0; self.tolerated = 0; self.chosen = {}
    def step(self, m, r, i):
        self.n += 1
        if self.n > 30000: raise M.Domain("long program")
        if r.id != 0 or M.vget(r.pos, 0) or M.vget(r.pos, 1): return
        if len(m.universes) > 20 or m.count > 3000: raise M.Domain("many")
        self.seen.append((tuple((stacks(q), q.pos, q.delta, q.storage, q.state, q.prev, tuple(q.loaded), freeze(q.fish),
                                 tuple((k, len(v)) for k, v in sorted(q.sem.items())), tuple((f, freeze({k: v for k, v in vars(a).items() if k not in ("m", "r")}))
                                 for f, a in sorted(q.avail.items()))) for q in r.uni.runners),
                          tuple(sorted(r.uni.field.c.items())) , tuple(sorted(m.files.items())), tuple(sorted(m.dirs)), len(m.refs), r.uni.cfg.mode,
                          len(m.universes), m.inpos, m.cwd))
        self.at.append(self.n)
        if len(self.seen) >= self.want: raise Again()
    @property
    def res(self): raise M.Domain("the answer of a command")
    def more(self): return False
    def peek(self, r): return None
    def seconds(self, r): raise M.Domain("clock")
    def window(self, r, c): raise M.Domain("clock")
    def choose_delta(self, *a): raise M.Domain("random")
    def choose_value(self, *a): raise M.Domain("unpredictable")
    def clock_item(self, *a): raise M.Domain("clock")

def rounds(case, want=7):
    m = M.Model(None, case.stdin, case.files, case.dirs)
    rec = Rounds(want); m.obs = rec; m.fing = engine.fing_files(); m.case = case
    c = engine.parse_args(case.args, case.env)
    u = engine.load_universe(m, c, case.files)
    r = m.new_runner(u, (0,), (1,)); m.add_runner(r)
    try: m.run_universe(u)
    except Again: return m, rec
    except RecursionError: pass
    return m, None

def same(rec):
    """In the same state again, and again: after the first few rounds nothing new happens."""
    return rec is not None and all(s == rec.seen[2] for s in rec.seen[3:])

def files_io(rng, g):
    n = rng.choice((b"a", b"b.x", b"new"))
    name = b'0"' + n[::-1] + b'"'
    if rng.random() < .5:
        return g.vec([rng.randint(1, 5), rng.randint(1, 3)][:g.dims] + [1] * (g.dims - 2)) + g.vec([rng.randint(0, 20) for _ in range(g.dims)]) + g.num(rng.choice((0, 1))) + name + b"o"
    return g.vec([rng.randint(0, 30), 20] + [0] * (g.dims - 2)) + g.num(rng.choice((0, 1))) + name + b"i"

def fp_tokens(rng, g, name):
    """Load a fingerprint, use it, unload it."""
    out = [loadtok(name, rng) + b"("] * rng.choice((1, 1, 1, 2))
    for _ in range(rng.randint(0, 5)):
        c = rng.choice(LETTERS[name])
        if c in FLOWING.get(name, "") and rng.random() < .9 or name == "REFC" and c == "R" or name == "HRTI": continue
        out.append(b"n" + g.call(name, c) + c.encode())
    if rng.random() < .95: out += [b"n" + loadtok(name, rng) + b")"] * (len(out) and rng.choice((1, 1, 1, 2)))
    return out

NAMES = [n for n in LETTERS if n not in ("DBUG",)]
CORE = {"arith": 3, "stack": 2, "push": 2, "out": 1, "get": 2, "putget": 1, "string": 3, "iterate": 2, "balanced": 3, "block": 1, "space": 1, "cmp": 1,
        "fetch": 1, "store": 1, "putsp": .7, "put": .7, "skipsec": 1, "jump": 1}
SIMPLE = [n for n in NAMES if n not in ("MVRS", "REFC", "HRTI", "ROMA", "MODU", "NULL", "TERM", "PERL", "IIPC")]
SHARED_UNIVERSES = ("ROMA", "MODU", "NULL", "TERM")

def kid(rng, g, name=None, loads=True):
    """What a new IP does: down a column."""
    s = b""
    for _ in range(rng.randint(0, 4)):
        x = rng.random()
        if name and x < .4: 
            c = rng.choice(LETTERS[name])
            if c not in FLOWING.get(name, ""): s += g.call(name, c) + c.encode()
        elif x < .6: s += g.balanced()
        elif x < .8: s += g.stream(1, {"push": 2, "stack": 1, "arith": 1, "block": 1, "clear": 1})[0]
        elif x < .9 and loads:
            f = rng.choice(SIMPLE)
            s += b"".join(t.replace(b"n", b"", 1) if t[:1] == b"n" and rng.random() < .5 else t for t in fp_tokens(rng, g, f))
        else: s += b'"' + bytes(rng.choice(b"abcXYZ") for _ in range(rng.randint(1, 20))) + b'"'
    return s + b"@"

def c35(rng, i):
    x = rng.random()
    if x < .12: return fish(rng)
    dims = rng.choice((1, 2, 2, 2, 2, 3)) if x < .8 else 2
    native = x >= .9
    std = 98
    a, n = std_args(rng, dims)
    g = specs_fp.G(rng, dims); g.bigf = .25
    toks = []; kids = []; names = []; tags = set()
    libs = []
    if rng.random() < .3:
        # there all the time
        f = rng.choice([q for q in NAMES if q not in ("REFC", "HRTI", "MVRS")]); a = ["-l" + f] + a; libs.append(f)
    body = []
    for _ in range(rng.randint(1, 7)):
        y = rng.random()
        if y < .33 and not native:
            f = rng.choice(NAMES)
            body += fp_tokens(rng, g, f); names.append(f)
        elif y < (.75 if native else .5) and dims >= 2: body.append("split")
        elif y < .57 and not native: body.append(files_io(rng, g)); tags.add("files")
        elif y < .62 and not native: body.append(b'0"' + rng.choice((b"eurt", b"eslaf", b"olleh ohce"))+ b'"=')
        elif y < .7 and not native: body.append(g.num(rng.choice((0, 1, 2, 15, 16, 23, 30))) + b"y")
        elif y < .72: body.append(b"r" if rng.random() < .3 else b'"ZZZZ"4)#r')
        elif y < .74 and dims == 1: body.append(b"#@t")
        else: body.append(g.stream(1, CORE)[0])
        if rng.random() < .7: body.append(b"n")
    if any(f in SHARED_UNIVERSES for f in names + libs) and "split" in body: return None      # every IP has universes of its own, kept to the end
    for attempt in range(3):
        c = lay35(rng, g, a, n, dims, body, libs, tags | set(names) | set(libs) | ({"native"} if native else set()))
        if c is not None and settle(c): return c
        # something in it keeps it from coming back: try with less
        if len(body) < 2: return None
        body = [t for t in body if rng.random() < .6]
    return None

def lay35(rng, g, a, n, dims, body, libs, tags):
    row = bytearray(b"z"); cols = {}
    for t in body:
        if t == "split":
            row += b"#v"; cols[len(row) - 1] = kid(rng, g, libs[0] if libs else None); row += b"t"; tags.add("split")
        else: row += t
    row += b"n"
    if "native" in tags: row += b"'@f*kz"; a = ["-fthreads=native"] + a
    h = max(map(len, cols.values()), default=0)
    if len(row) > 400 or h > 60: return None
    rows = [bytearray(row)] + [bytearray(b" " * len(row)) for _ in range(h)]
    for c, s in cols.items():
        for k, ch in enumerate(s): rows[1 + k][c] = ch
    t = b"\n".join(bytes(r).rstrip(b" ") if k else bytes(r) for k, r in enumerate(rows)) + b"\n"
    if dims == 1 and b"\n" in t.rstrip(b"\n"): return None
    return Case(a + [n], {n: t, "a": b"text\nof two lines\n", "b.x": b"\x00\xff 1\n"}, b"", 4000000,
                opts=["heap=%d" % (NATIVE_ROUNDS if "native" in tags else ROUNDS)] + (["settle=600"] if "native" in tags else []), tags=tags)

def fishnum(n):
    return b"%x" % n if n < 16 else b"%x%x*%x+" % (15, n // 15, n % 15)

def fish(rng):
    star = rng.random() < .5
    g = specs_fish.FG(rng, star)
    names = [k for k in ("arith", "push", "stack", "nest", "reg", "string", "near") if hasattr(g, k)]
    body = [getattr(g, rng.choice(names))() for _ in range(rng.randint(1, 8))]
    n = "p.sf" if star else "p.fish"
    if star:
        # a file is opened, read from, and closed when it is written
        for _ in range(rng.choice((0, 1, 1, 2))):
            f = rng.choice((b"a", b"a", b"b.x", b"new", b"d/x", b"x" * 40))
            s = bytes(rng.choice(b"abc \xe9") for _ in range(rng.randint(0, 15)))
            body.append(b"'" + f + b"'" + fishnum(len(f)) + b"F" + b"i" * rng.randint(0, 4) + b"'" + s + b"'" + fishnum(len(s)) + b"F")
    for attempt in range(3):
        # at the end of the row a loop empties the stack
        s = b">" + b"".join(body)
        t = s + b">l?v\n" + b" " * len(s) + b"^~ <\n"
        c = Case([n], {n: t, "a": b"text\nof two lines\n", "b.x": b"\x00\xff 1\n"}, b"", 4000000, opts=["heap=%d" % ROUNDS], tags=["fish"] + (["fish-file"] if b"F" in s else []))
        if settle(c): return c
        body = [t for t in body if rng.random() < .6]
    return None

why = collections.Counter()
def settle(c):
    try: m, rec = rounds(c)
    except (M.Domain, engine.CliError) as e: why["%s" % e] += 1; return None
    if not same(rec): why["ended" if rec is None else "not same"] += 1; return None
    if rec.at[-1] - rec.at[-2] > 1200: why["long"] += 1; return None
    # rounds of some length take fewer of them
    return c

def median(v): return sorted(v)[len(v) // 2]
def growth(h, f, parts=((.12, .36), (.44, .68), (.76, 1))):
    n = len(h); v = [f(h[int(n * a):int(n * b)]) for a, b in parts]
    return v[1] - v[0], v[2] - v[1]

def judge35(case, res):
    m = M.Model(None, case.stdin, case.files, case.dirs)
    rec = Rounds(1); rec.matched = len(res.heap)
    def V(kind, msg=""): return Verdict(kind, msg, m, rec, res)
    if res.status[0] in ("sanitizer", "signal", "memory"):
        return V("violation", "abnormal end: %s\n%s" % (res.status, res.err[:1500].decode("latin-1")))
    n = len(res.heap)
    rec.matched = n
    if n < 100: return V("domain", "few rounds" if n else "no rounds")
    m.features |= {"native" if "native" in case.tags else "single"} | {t for t in case.tags if len(t) == 4 or t in ("fish", "fish-file", "split", "files")}
    def grows(what):
        # (a case reduced after it failed may be another program)
        return V("violation", what) if "libraries" in case.tags or settle(case) else V("domain", "not the same state")
    native = "native" in case.tags
    span = n * .32
    quiet = [r for r in res.heap if r[4]]
    for what, k, slack, rows in (("bytes of memory", 0, 2500 if native else 256, quiet), ("open files", 1, 3, res.heap), ("threads", 2, 8 if native else 3, res.heap)):
        if len(rows) < 60: continue
        a, b = growth(rows, lambda part: (min if native else median)([r[k] for r in part]))
        if a > slack and b > slack and b > a / 4:
            return grows("the program is in the same state in every round, but keeps more and more %s: about %.1f in every round (round 50: %d, the %dth: %d)" % (
                what, (a + b) / 2 / span, res.heap[50][k], n, res.heap[-1][k]))
    # address space: what ended threads leave behind (8 MB each); a quarantine and arenas of the sanitizer are smaller
    a, b = growth([r[3] * 4 // 1024 for r in res.heap], min)
    if a > 200 and b > 200:
        return grows("the program is in the same state in every round, but keeps more and more address space: about %.1f MB in every round" % ((a + b) / 2 / span))
    return V("ok")

def nt35(case, v): return v.kind == "ok" and v.obs.matched >= 100
R35 = "Generated programs that the model finds in the same state (IPs, stacks, bindings, private state, fungespace, files) round after round, run " \
      "for %d rounds: live heap bytes, open files, threads and address space, noted in every round, must not keep growing.  Non-trivial: 100 rounds measured." % ROUNDS

def libraries(ctx):
    """The known finding: each new IP has universes of its own for fingerprints written in Funge, which outlive it."""
    import build, check
    c = Case(["-lROMA", "p.b98"], {"p.b98": b"z#@t\n"}, b"", 4000000, opts=["heap=100"], tags=["libraries"])
    v = engine.decide(check.server(build.build("asan")), c, judge35)
    if v.res is not None and v.res.heap: ctx.total.extra["threads_left_by_100_IPs_with_ROMA"] = v.res.heap[-1][2] - v.res.heap[0][2]
    if v.kind == "violation": ctx.violation(v.msg, dict(c.to_json(), case="IPs with a fingerprint written in Funge end"))

SPECS = {"C35": Spec("C35", c35, R35, 1500, 40000, nt35, judge35, extra_run=libraries)}

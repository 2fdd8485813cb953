"""Native threads: workloads whose meaning does not depend on the schedule, run under ThreadSanitizer with perturbed schedules."""
import collections, random
import engine, model as M
from engine import Case, Verdict
from gen import *
from check_base import Spec
import specs_core, threads

SKIPS = (32, 9, 59, 10, 11, 12, 13)

class Recorder:
    """Takes the place of the observer: notes what each IP does instead of comparing."""
    def __init__(self): self.seq = collections.defaultdict(list); self.n = 0; self.chosen = {}; self.limit = 20000
    def step(self, m, r, i):
        self.n += 1
        if self.n > self.limit: raise M.Domain("long program")
        if i in SKIPS and r.state is None: return
        st = r.ss.st; top = st[-1]
        self.seq[r.id].append((i, r.pos, (len(st), len(top), top.get(1), top.get(2), top.get(3))))
    def more(self): return False
    def choose_delta(self, *a): raise M.Domain("random")
    def choose_value(self, *a): raise M.Domain("unpredictable")
    def clock_item(self, *a): raise M.Domain("clock")

class Layout:
    """A tree of IPs: each has a row of its own; a split sends the new IP down its own column."""
    def __init__(self, rng, dims=2): self.rng = rng; self.cells = {}; self.y = 0; self.count = 0; self.sites = 0
    def put(self, x, y, b):
        for k, c in enumerate(b): self.cells[(x + k, y)] = c
    def block(self, x, y, toks, depth, end):
        """Row at (x, y); returns the next free row."""
        rng = self.rng; self.count += 1
        self.put(x, y, b">"); x += 1
        kids = []
        for t in toks:
            if t == "split":
                self.put(x, y, b"#vt"); kids.append(x + 1); x += 3
            elif t == "split2":              # the parent goes on westwards of the split, too: the child is sent down at once
                self.put(x, y, b"#v2kz" b"t"); kids.append(x + 1); x += 6
            else: self.put(x, y, t); x += len(t)
        self.put(x, y, end)
        y += 1
        for cx in reversed(kids):
            y0 = y
            for yy in range(kids and self.toprow(cx, y), y0): self.cells.setdefault((cx, yy), 32)
            y = self.block(cx, y0, self.gen(depth + 1), depth + 1, self.ends())
        return y
    def toprow(self, cx, y): return y

def lines_of(cells):
    return b"\n".join(grid_lines(cells)) + b"\n"

LIBS = {"BOOL": b"ANOX", "BITW": b"ANOX", "FIXP": b"ANOSXV", "CPLI": b"ASMOV", "FPSP": b"ADFIMNSV", "FPDP": b"ADFIMNSV", "FRTH": b"DLO", "MODU": b"MUR",
        "ROMA": b"CDILMVX", "BASE": b"BOHN", "STRN": b"ADNRSC", "JSTR": b"", "NULL": b"AZ", "REFC": b"R"}
def fp_token(rng, g, fp):
    """An instruction of a fingerprint loaded at the start, with operands."""
    c = bytes([rng.choice(LIBS[fp])])
    if fp == "STRN":
        s = lambda: b'0"' + bytes(rng.choice(b"abcxyz019") for _ in range(rng.randint(0, 4))) + b'"'
        if c == b"S": return g.num(rng.randint(-999, 999)) + b"Sn"
        return s() + (s() if c in b"AC" else b"") + c + rng.choice((b"n", b".n", b"n"))
    if fp == "BASE" and c == b"N": return g.num(rng.randint(0, 9999)) + g.num(rng.randint(2, 30)) + b"N"
    if fp == "FIXP" or fp == "FPSP" and c == b"I": return g.num(rng.randint(0, 9999)) + g.num(rng.randint(1, 999)) + c
    return b"".join(g.num(rng.choice((rng.randint(-20, 20), rng.randint(0, 9999)))) for _ in range(rng.randint(2, 4))) + c + rng.choice((b"n", b"", b"$"))

def thr_tokens(rng, g, lay, depth, shared, maxip):
    out = []
    n = rng.randint(2, 14)
    for _ in range(n):
        x = rng.random()
        if lay.fps and rng.random() < .35: out.append(fp_token(rng, g, rng.choice(lay.fps)))
        elif x < .18 and lay.count + lay.sites < maxip and depth < 4: lay.sites += 1; out.append("split")
        elif x < .34: out.append(g.num(rng.randint(-300, 300)) + b".")
        elif x < .5:
            lay.puts += 1
            if shared and rng.random() < .5: out.append(g.num(rng.randint(33, 126)) + g.num(rng.randint(0, 3)) + g.num(60) + b"p")
            else: out.append(g.num(rng.choice((33, 65, 300, -7, 1 << 40, rng.randint(33, 99999)))) + g.num(10 + lay.puts % 80) + g.num(62 + lay.puts // 80) + b"p")
        elif x < .6:
            out.append(g.num(rng.randint(0, 3)) + g.num(60) + b"g$" if shared else g.num(rng.randint(0, 3)) + g.num(59) + b"g")
        elif x < .66: out.append(g.num(rng.randint(1, 9)) + b"k" + rng.choice((b"1", b":", b"$", b".", b"z")))
        elif x < .72: out.append(g.balanced())
        elif x < .78: out.append(g.string())
        elif x < .84: out.append(b"0y$n" if False else g.num(rng.randint(1, 6)) + b"y$")
        elif x < .9: out += [g.arith()]
        else: out.append(rng.choice((b"z", b":", b"\\", b"n", b"1", b"'a", b"  ")))
    return out

def build(rng, shared, maxip, endf, first_end=None, fps=()):
    g = TG(rng, 2, 98); g.bigf = .2
    lay = Layout(rng); lay.puts = 0; lay.fps = fps
    lay.gen = lambda d: thr_tokens(rng, g, lay, d, shared, maxip)
    lay.ends = endf
    toks = lay.gen(0)
    if "split" not in toks: toks[rng.randint(0, len(toks)):0] = ["split"] * rng.randint(1, 3)
    y = lay.block(0, 0, toks, 0, first_end or endf())
    w = max(x for x, _ in lay.cells)
    if y > 55: return None
    lay.put(0, 59, b"AbC~"); lay.put(0, 60, b"wxyz")
    # walls: nothing the program writes changes the bounds
    for x in (0, max(w, 130) + 1): lay.cells[(x, 90)] = 35
    return lay

def c13(rng, i):
    x = rng.random()
    if rng.random() < .2: return threads.meet(rng)
    pert = "perturb=%d" % rng.choice((0, rng.randint(1, 10**6), rng.randint(1, 10**6)))
    if x < .12:
        # one IP only: the threading mode must make no difference
        p = rng.choice(("C01", "C02", "C04", "C05", "C06", "C07", "C11", "C30"))
        c = specs_core.SPECS[p].generate(rng, i)
        if any(b"t" in d for d in c.files.values()): return None
        c.args = ["-fthreads=native"] + c.args; c.tags.add("single")
        return c
    if x < .24:
        # q against IPs that never end
        code = rng.choice((0, 1, 7, 77, 200, 255, 256, 300, -1))
        g = TG(rng, 2)
        q = g.num(code) + b"q"
        used = [0]; readers = rng.random() < .4; letters = readers and rng.random() < .5
        # instructions written in Funge keep further universes busy
        libs = rng.choice(([], [], ["ROMA"], ["MODU"], ["ROMA", "MODU"], ["NULL"]))
        def end():
            if rng.random() < .4: used[0] += 1; return q
            if readers and rng.random() < .6: return rng.choice((b">~$<", b">&$<", b">~:,<") + ((b">In<", b">In<") if letters else ()))
            if libs and rng.random() < .7: return {"ROMA": b">D$<", "MODU": b">53M$<", "NULL": b">zA<"}[rng.choice(libs)]
            return rng.choice((b">zz:$<", b">1$z<", b"@", b">:$<"))
        mine = rng.random() < .5
        lay = build(rng, True, rng.choice((3, 6, 10)), end, first_end=q if mine else None)
        if lay is None: return None
        if not mine and not used[0]:
            lay = build(rng, False, 4, lambda: b">:$<", first_end=g.num(rng.randint(20, 60)) + b"k" + b"z" + q)
            if lay is None: return None
        args = ["-fthreads=native"] + ["-l" + f for f in libs] + ["p.b98"]; opts = ["light=1", "maxlog=100", pert]; stdin = b""
        if readers:
            # standard input stays open: those who read wait
            if letters: args[:0] = ["-lSTRN"]
            opts.append("open=1"); stdin = b"".join(rng.choice((b"12 ", b"abc\n", b"7x", b"\n", b" -5 ")) for _ in range(rng.choice((0, 0, 3, 30))))
        return Case(args, {"p.b98": lines_of(lay.cells)}, stdin, 3000000, opts=opts, tags=["quit:%d" % (code & 255)])
    shared = x < .6
    fps = [rng.choice([f for f in LIBS if LIBS[f]])] if rng.random() < .5 else []
    if fps and rng.random() < .3: fps.append(rng.choice([f for f in LIBS if LIBS[f]]))
    lay = build(rng, shared, rng.choice((2, 3, 5, 8, 16, 30)), lambda: b"@", fps=fps)
    if lay is None: return None
    if fps:
        c = Case(["-fthreads=native"] + ["-l" + f for f in fps] + ["p.b98"], {"p.b98": lines_of(lay.cells)}, b"", 150000, opts=["light=1", pert],
                 tags=["tree", "fingerprints"] + (["shared"] if shared else []))
        # an instruction that reflects sends its IP back over its splits: keep the programs that stay small
        try: m, rec, u = run_model(c, 4000)
        except M.Domain: return None
        return c if len(rec.seq) <= 60 and not any(e[0] == 113 for q in rec.seq.values() for e in q) else None
    tags = ["tree"] + (["shared"] if shared else [])
    return Case(["-fthreads=native", "p.b98"], {"p.b98": lines_of(lay.cells)}, b"", 150000, opts=["light=1", pert], tags=tags)

def run_model(case, limit=20000, wrote=None):
    m = M.Model(None, case.stdin, case.files, case.dirs)
    rec = Recorder(); rec.limit = limit; m.obs = rec; m.fing = engine.fing_files(); m.case = case
    c = engine.parse_args(case.args, case.env)
    u = engine.load_universe(m, c, case.files)
    if wrote is not None: u.field.watch.append(lambda p, v: wrote[M.trim(p)].add(v))
    r = m.new_runner(u, (0,), (1,)); m.add_runner(r); m.run_universe(u)
    return m, rec, u

def judge13(case, res):
    if "single" in case.tags: return engine.judge(case, res)
    m = M.Model(None, case.stdin, case.files, case.dirs)
    rec = Recorder(); m.obs = rec; m.fing = engine.fing_files(); m.case = case
    rec.matched = len(res.light); rec.tolerated = 0
    wrote = collections.defaultdict(set)
    def V(kind, msg=""): return Verdict(kind, msg, m, rec, res)
    for t in res.light: m.ops[t[1]] = m.ops.get(t[1], 0) + 1
    if "meet" in case.tags: return threads.judge(case, res, rec, m)
    if res.status[0] == "limit" and "quit:" in str(case.tags): return V("domain", "step limit")
    if res.status[0] == "hang": return V("violation", "the process does not end")
    if res.status[0] in ("signal", "sanitizer", "memory"):
        return V("violation", "abnormal end: %s\n%s" % (res.status, "\n".join(res.err.decode("latin-1").splitlines()[:40])))
    q = next((t for t in case.tags if t.startswith("quit:")), None)
    ids = {}
    for t in res.light: ids.setdefault(t[0], []).append((t[1], t[2], t[3]))
    if sorted(ids) and sorted(ids)[-1] >= 10**6: return V("violation", "IP id %d" % sorted(ids)[-1])
    m.features.add("ips-%d" % min(len(ids), 30))
    if q is not None:
        m.features.add("quit")
        if res.status != ("exit", int(q[5:])): return V("violation", "%s, expected exit code %s" % (res.status, q[5:]))
        return V("ok")
    try:
        c = engine.parse_args(case.args, case.env)
        u = engine.load_universe(m, c, case.files)
        u.field.watch.append(lambda p, v: wrote[M.trim(p)].add(v))
        r = m.new_runner(u, (0,), (1,)); m.add_runner(r); m.run_universe(u)
    except M.Domain as e:
        return V("domain", str(e))
    if res.status != ("exit", 0): return V("violation", "%s, expected exit code 0" % (res.status,))
    shared = "shared" in case.tags
    strip = (lambda e: e[:2]) if shared else (lambda e: e)
    def clean(seq): return tuple(strip(e) for e in seq if e[0] not in SKIPS)
    want = collections.Counter(tuple(strip(e) for e in s if e[0] not in SKIPS) for s in rec.seq.values())
    got = collections.Counter(clean(s) for s in ids.values())
    if sorted(ids) != list(range(len(rec.seq))): return V("violation", "IP ids %s, expected 0..%d" % (sorted(ids), len(rec.seq) - 1))
    if want != got:
        a = list((got - want).elements()); b = list((want - got).elements())
        # name the first point where an unexpected history leaves the closest expected one
        best = ""
        for s in a[:1]:
            k, e = max(((next((j for j in range(min(len(s), len(w))) if s[j] != w[j]), min(len(s), len(w))), w) for w in b), default=(0, ()))
            best = "an IP does %s after %d steps, expected %s" % (s[k:k+2], k, e[k:k+2])
        return V("violation", "IPs do not execute their own sequences: %d unexpected, %d missing; %s" % (len(a), len(b), best))
    m.features.add("shared" if shared else "private")
    if sorted(res.out) != sorted(bytes(m.out)) : return V("violation", "output lost or duplicated: %r, expected the characters of %r" % (res.out[:300], bytes(m.out[:300])))
    d = res.finals.get(0) if len(res.finals) == 1 else next((f for f in res.finals.values() if f.hi[1] >= 90), None)     # not a fingerprint's
    if d is not None:
        for i in range(2):
            if (d.lo[i], d.hi[i]) != (u.field.min(i), u.field.max(i)): return V("violation", "final bounds %s %s" % (d.lo, d.hi))
        for p in set(d.cells or ()) | set(u.field.c if d.cells is not None else ()):
            a = d.cells.get(p, 32)
            ok = wrote.get(p) or {u.field.c.get(p, 32)}
            if a not in ok: return V("violation", "final cell %s holds %d, written were %s" % (p, a, sorted(ok)[:9]))
    else: return V("violation", "no final fungespace")
    return V("ok")

def nt13(case, v): return v.kind == "ok" and ("meet" in case.tags and v.obs.matched >= 5 or "single" in case.tags and v.obs.matched >= 5 or v.obs.matched >= 20)
R13 = "Generated programs run with -fthreads=native on the ThreadSanitizer build under perturbed schedules: any race report, hang or abnormal end is a " \
      "violation; the multiset of per-IP instruction histories (position, instruction, stack), the ids, the output characters, the final fungespace " \
      "and the exit code are compared with the model.  Non-trivial: 20 steps compared."
SPECS = {"C13": Spec("C13", c13, R13, 3000, 60000, nt13, judge13, variant="tsan")}

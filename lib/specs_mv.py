"""Generators and oracle for several universes (multiverse files, MVRS)."""
import random
import engine
from engine import Case, Observer, Mismatch, CliError, parse_args, parse_fmv, load_universe
from model import *
from gen import *
from check_base import Spec
from specs_core import RULE, case

class MultiObserver(Observer):
    """Universes are known by their names."""
    def uni_of(self, u, o):
        if self.res.unis.get(o) != u.cfg.name: return False
        self.map[u.index] = o
        return True

def make_driver(turns):
    def driver(m, c, obs):
        def load(d):
            u = load_universe(m, d, None)
            n = m.unique_name(u.cfg.name) if sum(1 for x in m.universes if x.cfg.name == u.cfg.name) > 1 else None
            if n: u.cfg.name = n
            m.add_runner(m.new_runner(u, (0,), (1,)))
        if c.name.endswith(".fmv"): parse_fmv(m, c, load)
        else: load(c)
        m.outs = {}; mark = [0]
        def next_universe(live):
            while True:
                if obs.p >= obs.n:
                    if obs.res.limit: raise TraceEnd()
                    return live[0]
                o = obs.t[obs.p]
                u = next((u for u in live if u.cfg.name == obs.res.unis.get(o.uni)), None)
                if u is not None: return u
                if o.inst in Observer.SKIPPABLE: obs.p += 1; continue
                raise Mismatch("an instruction is executed in %r, where no IP is left: %r" % (obs.res.unis.get(o.uni), o))
        def after(u):
            m.outs.setdefault(u.index, bytearray()).extend(m.out[mark[0]:]); mark[0] = len(m.out)
        if not turns:
            # Nothing connects the universes: each one's own history decides
            full = obs.t; m.cut = False; total = 0
            for u in list(m.universes):
                obs.t = [o for o in full if obs.res.unis.get(o.uni) == u.cfg.name]; obs.p = 0; obs.n = len(obs.t); mark[0] = len(m.out)
                try:
                    m.run_universe(u); after(u)
                    while obs.p < obs.n and obs.t[obs.p].inst in Observer.SKIPPABLE: obs.p += 1
                    if obs.p < obs.n: raise Mismatch("universe %r should have ended but goes on with %r" % (u.cfg.name, obs.t[obs.p]))
                except TraceEnd:
                    m.cut = True
                total += obs.n
            if total != len(full): raise Mismatch("instructions are executed in universes that were not asked for")
            obs.t = full; obs.p = obs.n = len(full)
            if m.cut:
                obs.map.clear()
                raise TraceEnd()
            return m.universes[0].exitcode & 255 if m.universes else 0
        m.run_all(next_universe, after)
        return m.universes[0].exitcode & 255 if m.universes else 0
    return driver
TOGETHER, APART = make_driver(True), make_driver(False)

def merge_ok(parts, out, partial):
    """Is out an interleaving of the parts?"""
    parts = [bytes(p) for p in parts if p]
    if sum(map(len, parts)) != len(out): return False
    if sorted(b"".join(parts)) != sorted(out): return False
    states = {tuple(0 for _ in parts)}
    for ch in out:
        nxt = set()
        for s in states:
            for k, p in enumerate(parts):
                if s[k] < len(p) and p[s[k]] == ch: nxt.add(s[:k] + (s[k]+1,) + s[k+1:])
        if not nxt: return False
        if len(nxt) > 4000: return True
        states = nxt
    return True

def free_out(m, res):
    outs = getattr(m, "outs", {})
    if getattr(m, "cut", False): return       # what was under way when the run was cut short is not known
    if not merge_ok(outs.values(), res.out, False):
        raise Mismatch("standard output %s is not an interleaving of %s" % (engine.brief(res.out), [engine.brief(bytes(o)) for o in outs.values()]))

def judge_races(case, res):
    """Universes that use each other while all of them run: whatever the order, no race, no hang, no crash."""
    m = Model(None, case.stdin, case.files, case.dirs)
    class Seen: matched = len(res.light); tolerated = 0; map = {}
    for t in res.light: m.ops[t[1]] = m.ops.get(t[1], 0) + 1
    m.features.add("races")
    def V(kind, msg=""): return engine.Verdict(kind, msg, m, Seen, res)
    if res.status[0] == "hang":
        # An IP that meets no instruction spins for ever; what must not happen is that nobody acts any more
        if res.cpu > .4 * (res.t1 - res.t0): return V("domain", "an IP spins in empty space")
        return V("violation", "the process neither acts nor ends (%.1f s of processor time in %.1f s)" % (res.cpu, res.t1 - res.t0))
    if res.status[0] in ("signal", "sanitizer"):
        return V("violation", "abnormal end: %s\n%s" % (res.status, "\n".join(res.err.decode("latin-1").splitlines()[:40])))
    if res.status[0] == "memory": return V("domain", "memory")
    return V("ok")

def judge(case, res):
    if "tsan" in case.tags: return judge_races(case, res)
    if res.lost: return engine.Verdict("domain", "the order of the universes was lost", res=res)
    if "free" in case.tags:
        if any(o.inst == 116 for o in res.trace): return engine.Verdict("domain", "IP ids are drawn from all universes", res=res)
        return engine.judge(case, res, driver=APART, observer=MultiObserver, out_check=free_out)
    return engine.judge(case, res, driver=TOGETHER, observer=MultiObserver)

# --------------------------------------------------------------------------------------------------------------

NAMES = ["a.b98", "b.b98", "c", "d.txt", "long-name.b98"]
def rev(name): return b'0"' + name.encode("latin-1")[::-1] + b'"'

class MG(TG):
    """Tokens that also use the other universes."""
    def setup(self, names, sizes, here):
        self.names = names; self.sizes = sizes; self.here = here
        self.made = ["w", "x1", "w.1", "w.2", self.names[0] + ".1"]
    def target(self):
        r = self.rng; x = r.random()
        if x < .8: return r.choice(self.names)
        if x < .95: return r.choice(self.made)
        return r.choice(("", "nowhere", self.names[0] + " ", "A.B98"))
    def jump_to(self):
        return rev(self.target()) + b"J"
    def go_to(self):
        r = self.rng
        w, h = self.sizes
        pos = (r.choice((0, 0, r.randint(0, w))), r.randint(0, h - 1), 0 if r.random() < .97 else r.randint(-1, 1))
        delta = r.choice(((1, 0, 0), (1, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (2, 0, 0), (1, 1, 0)))
        return rev(self.target()) + self.vec(pos) + self.vec(delta) + b"G"
    def build(self):
        r = self.rng
        flags = r.choice((0, 0, 0, 0, 0x2000, 0x8000, 0x4000, 0x200, 1, 0x40000, -512, 0x1ff))
        lng = r.choice((0, 0, 1, 2, 2, 3, -1)); dim = r.choice((0, 0, 1, 2, 3, -1, 4))
        return rev(r.choice(self.made[:2] + [self.names[0]])) + self.num(flags) + self.num(lng) + self.num(dim) + b"B"
    def count(self): return b"C" + self.rng.choice((b".", b"", b"."))
    def name(self): return b"N" + self.rng.choice((b",,,$", b",:.", b"n", b"J", b""))
    def pull(self):
        r = self.rng
        size = [r.choice((0, 0, 1, 2, 5, r.randint(-3, 20))) for _ in range(self.dims)]
        src = [r.randint(-2, self.sizes[0]), r.randint(-1, self.sizes[1]), 0]
        dest = self.coord()
        return rev(self.target()) + self.vec(dest) + self.vec(src) + self.vec(size) + b"F"
    def poke(self):
        r = self.rng
        size = [r.choice((0, 0, 1, 2, 5, r.randint(-3, 20))) for _ in range(self.dims)]
        src = self.coord()
        dest = [r.randint(-2, self.sizes[0]), r.randint(-1, self.sizes[1]), 0]
        return rev(self.target()) + self.vec(dest) + self.vec(src) + self.vec(size) + b"P"
    def settle(self):
        """Make a universe, copy code into it and go there."""
        r = self.rng; n = "w%d" % r.randint(0, 3)
        code = bytes(r.choice(b"1234:+.,$<>C.zr@Nn") for _ in range(r.randint(1, 8))) + r.choice((b"@", b"@", b"", b"@"))
        y = self.sizes[1] + 3
        # the flags are the mode its IPs will have
        out = rev(n) + self.num(r.choice((0, 0, 0x2000, 0x4000, 0x8000, 0x10000, 0xa000, 0xc000))) + b"00B"
        for k, ch in enumerate(code): out += self.num(ch) + self.vec([k, y] + [0] * (self.dims - 2)) + b"p"
        out += rev(n) + self.vec((0, 0, 0)) + self.vec([0, y] + [0] * (self.dims - 2)) + self.vec([len(code)] + [0] * (self.dims - 1)) + b"P"
        return out + rev(n) + self.vec((0, 0, 0)) + self.vec((1, 0, 0)) + b"G"
    def mode(self): return b'"EDOM"4($$' + self.rng.choice((b"I", b"Q", b"IQ", b"H", b"S", b"QQ"))
    def thread(self): return b"t"
    def quit(self): return self.num(self.rng.randint(0, 300)) + b"q"
    def sysinfo(self):
        r = self.rng
        return self.num(r.choice((8, 7, 10, 11, 12, 16, 17, 18, 19, 22, 23, r.randint(1, 30)))) + b"y."
    def dice(self): return b"?"

PM = {"push": 3, "arith": 1.5, "stack": 1, "outnum": 2, "outch": .5, "put": .6, "get": .8, "string": .4, "storage": .4, "balanced": .3,
      "jump_to": 1.6, "go_to": 2.2, "build": .8, "count": .6, "name": .7, "pull": .8, "poke": .9, "settle": .45, "mode": .12, "thread": .35,
      "quit": .12, "sysinfo": .4, "dice": .05, "inp": .2, "tramp": .2, "store": .2}
PI = {"push": 3, "arith": 2, "stack": 1, "outnum": 2, "outch": .5, "put": .8, "get": .8, "string": .4, "storage": .4, "balanced": .3,
      "tramp": .2, "store": .3, "branch0": .3, "block": .3, "dice": .1, "quit": .05}

def rows_of(g, rng, n, prof, width=55):
    rows = []
    for _ in range(n):
        row = b""
        for t in g.stream(rng.randint(1, 7), prof):
            if len(row) + len(t) > width: break
            row += t
        row += rng.choice((b"@", b"@", b"", b"v", b"q", b"@"))
        rows.append(row)
    return rows

def universe_text(rng, names, here, dims, mvrs=True, prof=None):
    g = MG(rng, dims); g.bigf = .3
    g.setup(names, (30, 6), here)
    g.area = (30, 8, 1)
    h = rng.randint(1, 6)
    rows = rows_of(g, rng, h, prof or (PM if mvrs else PI))
    if mvrs and rng.random() < .95: rows[0] = b'"SRVM"4(' + rows[0]
    if len(rows) == 1: rows.append(b"z")
    return b"\n".join(rows) + b"\n"

def other_text(rng, ext):
    """A universe of another dialect, on its own."""
    if ext == ".bf":
        g = TG(rng, 2, 93, (20, 8, 0))
        toks = [t for t in g.stream(rng.randint(3, 20), {"push": 3, "arith": 2, "stack": 1, "outnum": 1, "get": .5, "put": .5}) if len(t) < 50][:14]
        return b"\n".join(lay_snake(toks, 60)[:25]) + b"\n"
    body = b"".join(bytes([rng.choice(b"0123456789abcdef+-*:$~n~}{rlo")]) for _ in range(rng.randint(3, 25)))
    return body.replace(b"~", b"") + b";\n"

def c26(rng, i):
    free = rng.random() < .25
    races = not free and rng.random() < .2
    k = rng.choice((1, 2, 2, 2, 3, 3, 4)) if not free else rng.choice((2, 2, 3))
    names = rng.sample(NAMES, k)
    files = {}; lines = []
    args = []
    dims = 2
    if rng.random() < .2: args.append("-std=be98")
    elif rng.random() < .12: args.append("-std=tre98"); dims = 3
    if rng.random() < .1: args.append(rng.choice(("-fno-concurrent", "-fstrings=c", "-ftopo=lahey", "-lMVRS")))
    for n in names:
        if free: files[n] = universe_text(rng, names, n, dims, False)
        else: files[n] = universe_text(rng, names, n, dims, rng.random() < .92)
        a = [rng.choice((b"x", b"arg", b"-q", b"\xe9")) for _ in range(rng.choice((0, 0, 1, 2)))]
        lines.append(b" ".join([n.encode()] + a))
    if rng.random() < .2: lines.append(rng.choice(lines))          # the same file twice
    if dims == 2 and not args and rng.random() < .3:
        ext = rng.choice((".bf", ".fish"))
        files["o" + ext] = other_text(rng, ext); lines.insert(rng.randint(0, len(lines)), b"o" + ext.encode())
        names = names + ["o" + ext]
    if rng.random() < .2: lines.insert(rng.randint(0, len(lines)), b"")
    if races: opts = ["light=1", "maxlog=300", "perturb=%d" % rng.randint(1, 1 << 20)]
    else: opts = ["perturb=%d" % rng.randint(1, 1 << 20)] if free else ["baton=%d" % rng.randint(1, 1 << 30)]
    stdin = b"" if free else bytes(rng.choice(b"12 ab\n9") for _ in range(rng.randint(0, 12)))
    more = [rng.choice(("one", "-two", ""))] if rng.random() < .2 else []
    tags = ["free"] if free else ["tsan"] if races else []
    if len(lines) == 1 and rng.random() < .6:
        return Case(args + [names[0]] + more, files, stdin, steps=400, opts=opts, tags=tags)
    files["m.fmv"] = b"\n".join(lines) + rng.choice((b"\n", b"", b"\n\n"))
    return Case(args + ["m.fmv"] + more, files, stdin, steps=500, opts=opts, tags=tags)

def c26_nontrivial(case, v):
    if "tsan" in case.tags: return v.kind == "ok" and v.obs.matched >= 20
    if v.obs.matched < 12: return False
    if "free" in case.tags: return len(v.obs.map) > 1
    return v.model.transfers > 0 or len(v.obs.map) > 1

SPECS = {
    "C26": Spec("C26", c26, RULE % "12 instructions with a transfer or several universes acting", 5000, 120000, c26_nontrivial, judge=judge, also=("tsan",)),
}

"""Reference model of the documented behaviour, executed in lock step with an observed run.

The model is an independent interpreter written from the language definitions (Befunge-93/98, the ><> family, the
fingerprints' documents).  Before each instruction it executes it announces the machine state; the observer (check.py)
compares that with the next event recorded from the real interpreter.  Only where the language leaves a choice (the ?
instruction, clocks, reference ids) does it look at the recorded run, and then it validates the choice.
"""
import time

NONE, SKIP, BLOCK, UNIMP, NOTAVAIL, UNSPEC = range(6)
M64 = (1 << 64) - 1
MODE_DEBUG, MODE_HOVER, MODE_INVERT, MODE_QUEUE, MODE_SWITCH, MODE_DIVE = 0x400, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000
INT_MIN64 = -(1 << 63)

class Domain(Exception):
    """The program left the domain the model decides (not a violation, not a pass)."""
class TraceEnd(Exception):
    """The observed run was stopped by the step limit here."""
class Mismatch(Exception):
    """Observed behaviour differs from the specified one."""

def s64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x
def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x
def s8(x):
    x &= 0xff
    return x - 256 if x >> 7 else x
def trim(v):
    v = tuple(v); n = len(v)
    while n > 0 and v[n-1] == 0: n -= 1
    return v[:n]
def vget(v, i): return v[i] if i < len(v) else 0
def vadd(a, b):
    n = max(len(a), len(b))
    return trim(s64(vget(a, i) + vget(b, i)) for i in range(n))
def vneg(a): return trim(s64(-x) for x in a)
def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def cmod(a, b): return a - b * cdiv(a, b)

class Stack:
    __slots__ = ("v", "mode", "ops")
    def __init__(self, v=(), mode=0): self.v = list(v); self.mode = mode; self.ops = 0
    def push(self, x):
        x = s64(x); self.ops += 1
        if self.mode & MODE_INVERT: self.v.insert(0, x)
        else: self.v.append(x)
        if len(self.v) > 200000: raise Domain("stack size")
    def pop(self):
        self.ops += 1
        if not self.v: return 0
        if self.mode & MODE_QUEUE: return self.v.pop(0)
        return self.v.pop()
    def peek(self):
        if not self.v: return 0
        return self.v[0] if self.mode & MODE_QUEUE else self.v[-1]
    def get(self, p):
        if p < 1 or p > len(self.v): return 0
        return self.v[p-1] if self.mode & MODE_QUEUE else self.v[-p]
    def clear(self): self.v.clear(); self.ops += 1
    def __len__(self): return len(self.v)

class StackStack:
    def __init__(self): self.st = [Stack()]; self.sel = 0
    def copy(self):
        n = StackStack(); n.sel = self.sel
        n.st = [Stack(s.v) for s in self.st]
        return n
    def at(self, x): return self.st[-1-x]
    @property
    def top(self): return self.st[-1-self.sel]
    @property
    def second(self): return self.st[-2-self.sel]
    def has_second(self): return self.sel + 1 < len(self.st)
    def insert(self, where, mode):
        """A new stack `where` places below the top of the selected one (0: on top of it)."""
        self.st.insert(len(self.st) - where - self.sel, Stack(mode=mode))
    def remove(self, where=0):
        del self.st[len(self.st) - 1 - where - self.sel]
    def drop(self):
        self.remove(0)
        if self.sel > 0 and self.sel >= len(self.st): self.sel -= 1
    def setmode(self, m):
        for s in self.st: s.mode = m

class Field:
    def __init__(self, char=False):
        self.c = {}; self.lo = {}; self.hi = {}; self.char = char; self.nd = 0; self.watch = []
    def get(self, p):
        p = trim(p)
        return self.c.get(p, 32)
    def put(self, p, v, raw=False):
        p = trim(p)
        self.nd = max(self.nd, len(p), 1)
        for w in self.watch: w(p, v)
        if v == 32:
            self.c.pop(p, None)
            if not self.c:
                for i in range(self.nd): self.hi[i] = self.lo[i] = 0
                return
            for i in range(self.nd):
                if self.hi.get(i, 0) == vget(p, i):
                    self.hi[i] = max((vget(q, i) for q in self.c), default=0)
                if self.lo.get(i, 0) == vget(p, i):
                    self.lo[i] = min((vget(q, i) for q in self.c), default=0)
        else:
            for i in range(self.nd):
                x = vget(p, i)
                if self.hi.get(i, 0) < x: self.hi[i] = x
                if self.lo.get(i, 0) > x: self.lo[i] = x
            self.c[p] = s8(v) if self.char else s64(v)
    def min(self, i): return self.lo.get(i, 0)
    def max(self, i): return self.hi.get(i, 0)

    def parse(self, start, data, dims, binary=False):
        """Load bytes; returns the size read (as the documentation of the i instruction has it)."""
        start = list(start); n = max(4, len(start))
        start += [0] * (n - len(start))
        v = list(start); mx = list(start)
        last = 0; i = 0; L = len(data)
        def inc(d):
            v[d] += 1
            mx[d] = max(mx[d], v[d])
        def reset(d):
            mx[d] = max(mx[d], v[d]); v[d] = start[d]
        while i < L:
            c = data[i]; i += 1
            if c in (10, 13) and not binary:
                if c == 13 and i < L and data[i] == 10: i += 1
                if last not in (12, 11):
                    inc(1); reset(0)
            elif c == 12 and not binary:
                if dims == 0 or dims >= 3:
                    reset(0); reset(1); inc(2); last = 12
            elif c == 11 and not binary:
                if dims == 0 or dims >= 3:
                    reset(0); reset(1); reset(2); inc(3); last = 11
            else:
                if c != 32: self.put(v, c)
                inc(0); last = c
        if v[0] != start[0]: inc(1)        # the last line had no line end
        return [a - b for a, b in zip(mx, start)]

class Config:
    def __init__(self, **kw):
        self.name = ""; self.args = []; self.env = []; self.fingerprints = []; self.dims = 0; self.standard = 98
        self.topo = "lahey"; self.strings = "sgml"; self.char = False; self.native = False; self.mode = 0
        self.concurrent = self.execute = self.filesystem = self.fingerprint = True
        self.inverthl = False
        self.__dict__.update(kw)
    def copy(self):
        c = Config(); c.__dict__.update(self.__dict__)
        for k in ("args", "env", "fingerprints"): setattr(c, k, list(getattr(self, k)))
        return c

class Universe:
    def __init__(self, m, cfg):
        self.m = m; self.cfg = cfg; self.field = Field(cfg.char); self.runners = []; self.running = True
        self.exitcode = 0; self.planes = []; self.creator = None; self.index = len(m.universes)
        m.universes.append(self)
        self.dims = cfg.dims
        import model_dbg
        self.dbg = model_dbg.Dbg(m, self)
    def load_text(self, data):
        self.field.parse((0,), data, self.cfg.dims)
        if self.dims == 0: self.dims = self.field.nd
    def kill(self, code):
        if self.running: self.exitcode = code
        self.running = False
        for r in self.runners: r.stopped = True
    def setmode(self, mode):
        self.cfg.mode = mode
        for r in self.runners: r.ss.setmode(mode)

class Runner:
    def __init__(self, m, uni, pos, delta):
        self.m = m; self.uni = uni; self.id = m.next_id(); self.ss = StackStack()
        self.pos = trim(pos); self.delta = trim(delta); self.storage = ()
        self.stopped = False; self.parent = None
        self.sem = {}; self.state = None; self.prev = 0     # state: None = normal, else the closing quote
        self.loaded = []; self.avail = {}; self.handler = "none"
        self.fish = None; self.basedims = 0; self.std = 0; self.watch = []; self.fing_used = False
    @property
    def top(self): return self.ss.top
    def pop(self): return self.ss.top.pop()
    def push(self, x): self.ss.top.push(x)
    def bind(self, i, fn, move=False):
        self.sem.setdefault(i, []).append((fn, move))
    def popstr(self):
        s = bytearray()
        while True:
            c = self.pop()
            if c == 0: return bytes(s)
            s.append(c & 0xff)
    def pushstr(self, b):
        self.push(0)
        for c in reversed(b): self.push(s8(c))
    def popvec(self, n=None, stack=None):
        n = self.uni.dims if n is None else n
        st = self.ss.top if stack is None else stack
        return trim(reversed([st.pop() for _ in range(n)]))
    def pushvec(self, v, stack=None):
        st = self.ss.top if stack is None else stack
        for i in range(self.uni.dims): st.push(vget(v, i))
    def reflect(self): self.delta = vneg(self.delta)
    def setdelta(self, v):
        self.delta = vadd(self.delta, v) if self.uni.cfg.mode & MODE_HOVER else trim(v)
        for f in self.watch: f(self.delta)
    def infield(self, pos):
        f = self.uni.field
        for i in range(self.uni.dims):
            x = vget(pos, i)
            if x < f.min(i) or x > f.max(i): return False
        return True
    def next(self):
        if self.stopped: return
        self.pos = vadd(self.pos, self.delta)
        if self.uni.cfg.topo == "torus":
            p = list(self.pos) + [0, 0]
            if not (0 <= p[0] < 80 and 0 <= p[1] < 25): self.m.features.add("torus-wrap")
            p[0] = self.m.torus(p[0], 80); p[1] = self.m.torus(p[1], 25)
            self.pos = trim(p)
        elif not self.infield(self.pos):
            self.m.features.add("wrap")
            if len(self.delta) > 1 and sum(1 for x in self.delta if x) > 1 or any(abs(x) > 1 for x in self.delta):
                self.m.features.add("fly-wrap")
            if any(abs(x) > 1 << 40 for x in self.delta): raise Domain("huge delta")
            back = vadd(self.pos, vneg(self.delta))
            if not self.delta or not self.infield(back):
                return
            f = self.uni.field; n = None
            for i in range(self.uni.dims):
                d = vget(self.delta, i); x = vget(self.pos, i)
                if d == 0: continue
                k = (x - f.min(i)) // d if d > 0 else (f.max(i) - x) // -d
                n = k if n is None else min(n, k)
            if n is None: raise Domain("delta outside the universe's dimensions")
            if n > 100000: raise Domain("long way round")
            self.pos = trim(s64(vget(self.pos, i) - n * vget(self.delta, i))
                            for i in range(max(len(self.pos), len(self.delta))))

FISH_LIKE = (-1, -2)

class Model:
    def __init__(self, observer=None, stdin=b"", files=None, dirs=()):
        self.universes = []; self.count = 0; self.out = bytearray(); self.err = []; self.obs = observer
        self.stdin = stdin; self.inpos = 0
        self.files = dict(files or {}); self.dirs = set(dirs); self.cwd = ""
        self.events = []; self.ops = {}; self.budget = 200000
        self.features = set()
        self.fpcalls = {}; self.fing = {}; self.refs = {}; self.libdepth = 0; self.libchecks = 0; self.sysidx = 0
        self.eof_hit = False
        self.transfers = 0; self.dbg_intro = False
        self.iter_depth = 0         # inside k: choices made several times in one tick cannot be observed

    def next_id(self):
        self.count += 1
        return self.count - 1
    def torus(self, x, n):
        if x >= n: return 0
        if x < 0: return n - 1
        return x
    def work(self, n=1):
        self.budget -= n
        if self.budget < 0: raise Domain("too much work in the model")

    # -- set-up -------------------------------------------------------------------------------------------------
    def new_runner(self, uni, pos, delta, share=None):
        r = Runner(self, uni, pos, delta)
        if share is not None: r.ss = share.ss; r.parent = share
        self.load_base(r, uni.cfg.standard, uni.dims)
        if uni.cfg.standard >= 98:
            for f in uni.cfg.fingerprints: self.load_fp(r, f)
        r.ss.setmode(uni.cfg.mode)
        return r
    def load_base(self, r, std, d):
        r.std = std; r.basedims = d
        if std in FISH_LIKE:
            import model_fish
            model_fish.bind(self, r, std == -2)
            return
        if d < 1: raise Domain("no dimensions")
        B = r.bind
        for c, (name, move) in UNE93.items(): B(ord(c), getattr(self, "i_" + name), move)
        r.handler = "funge"
        if std >= 98:
            for c, (name, move) in UNE98.items(): B(ord(c), getattr(self, "i_" + name), move)
        if d >= 2:
            for c, (name, move) in BE93.items(): B(ord(c), getattr(self, "i_" + name), move)
            if std >= 98:
                for c, (name, move) in BE98.items(): B(ord(c), getattr(self, "i_" + name), move)
        if d >= 3 and std >= 98:
            for c, (name, move) in TRE98.items(): B(ord(c), getattr(self, "i_" + name), move)
    def add_runner(self, r):
        r.ss.setmode(r.uni.cfg.mode)
        r.uni.runners.append(r)
    def clone(self, r):
        n = Runner(self, r.uni, r.pos, r.delta)
        n.ss = r.ss.copy(); n.storage = r.storage; n.stopped = r.stopped; n.parent = r
        if r.fing_used: raise Domain("splitting an IP whose instructions were rebound")
        self.load_base(n, r.std, r.basedims)
        for f in r.loaded: self.load_fp(n, f)
        n.reflect(); n.next()
        return n

    # -- fingerprints -------------------------------------------------------------------------------------------
    def load_fp(self, r, fid):
        import model_fp
        if fid not in r.avail:
            inst = model_fp.make(self, r, fid)
            if inst is None: return False
            r.avail[fid] = inst
        inst = r.avail[fid]
        r.loaded.append(fid)
        inst.activate()
        return True
    def unload_fp(self, r, fid):
        if fid not in r.loaded: return False
        inst = r.avail[fid]
        for i in inst.letters(): 
            if r.sem.get(i): r.sem[i].pop()
        for k in range(len(r.loaded)-1, -1, -1):
            if r.loaded[k] == fid:
                del r.loaded[k]; break
        return True

    # -- execution ----------------------------------------------------------------------------------------------
    def is_skip(self, r, i):
        """Would executing i take zero time (for the observer: such events are optional)?"""
        if r.state is None:
            return i in (32, 9, 59)
        return r.uni.cfg.strings == "sgml" and isspace(i) and isspace(r.prev)
    def tick(self, r):
        while True:
            self.work()
            r.uni.dbg.tick(r)
            if r.stopped: return
            i = r.uni.field.get(r.pos)
            if self.obs: self.obs.step(self, r, i)
            err = self.execute(r, i)
            if err in (UNIMP, NOTAVAIL, UNSPEC):
                r.uni.dbg.trap(r)
                self.handle(r, err)
                return
            if err in (NONE, SKIP): r.next()
            if err != SKIP: return
    def handle(self, r, err):
        self.features.add("error")
        if r.handler == "funge":
            if err == UNIMP:
                self.err.append(("unimp", r.uni.field.get(r.pos), r.pos))
            r.reflect(); r.next()
        elif r.handler == "fish":
            import model_fish
            model_fish.error(self, r, err)
        else:
            r.next()
    def execute(self, r, i):
        self.work()
        if r.state is not None: return self.exec_string(r, i)
        b = r.sem.get(i)
        if not b: return UNIMP
        fn, move = b[-1]
        if r.uni.cfg.mode & MODE_DIVE and not move: return SKIP
        self.ops[i] = self.ops.get(i, 0) + 1
        return fn(r) or NONE
    def exec_string(self, r, i):
        if i == r.state:
            r.prev = 0; r.state = None
            return NONE
        st = r.uni.cfg.strings
        self.features.add("string-" + st)
        if st == "multispace": self.spush(r, i)
        elif st == "sgml":
            if not isspace(i) or not isspace(r.prev):
                self.spush(r, i); r.prev = i
            else: return SKIP
        else:
            if i == 92:
                r.next()
                c = r.uni.field.get(r.pos)
                self.spush(r, ESC.get(c, c))
            else: self.spush(r, i)
        return NONE
    def spush(self, r, x):
        if r.fish is not None:
            import model_fish
            model_fish.pushval(self, r, float(x))
        else: r.push(x)

    def unique_name(self, name):
        used = {u.cfg.name for u in self.universes}
        a = 1; n = name
        while n in used: n = "%s.%d" % (name, a); a += 1
        return n
    def run_all(self, next_universe, after):
        """Several universes, each at its own pace: next_universe() tells which one acts."""
        while True:
            for u in self.universes:
                while u.runners and u.runners[0].stopped: u.dbg.end(u.runners.pop(0))
            live = [u for u in self.universes if u.running and u.runners]
            if not live: return
            u = next_universe(live)
            r = u.runners[0]
            self.tick(r)
            u.runners.pop(0)
            if r.uni is u:
                if not r.stopped: u.runners.append(r)
                else: u.dbg.end(r)
            else:
                u.dbg.end(r)
                if not r.uni.running: r.stopped = True
                self.add_runner(r)
            after(u)
    def run_universe(self, uni):
        """Cooperative scheduling: the IP at the head of the list acts, then goes to the back."""
        while uni.runners:
            r = uni.runners[0]
            if not r.stopped: self.tick(r)
            uni.runners.pop(0)
            if r.uni is uni and not r.stopped: uni.runners.append(r)
            else: uni.dbg.end(r)

    # -- Unefunge-93 --------------------------------------------------------------------------------------------
    def i_skip(self, r): return SKIP
    def i_west(self, r): r.setdelta((-1,))
    def i_east(self, r): r.setdelta((1,))
    def i_stop(self, r): r.stopped = True
    def i_tramp(self, r): r.next()
    def i_if(self, r): r.setdelta((1,) if r.pop() == 0 else (-1,))
    def i_goaway(self, r):
        d = r.uni.dims
        choices = []
        for a in range(d):
            for s in (1, -1):
                choices.append(trim([0] * a + [s]))
        r.setdelta(self.obs.choose_delta(self, r, choices))
    def i_not(self, r): r.push(1 if r.pop() == 0 else 0)
    def i_rem(self, r):
        a = r.pop(); b = r.pop()
        r.push(0 if a == 0 else cmod(b, a))
    def i_mul(self, r): a = r.pop(); b = r.pop(); r.push(a * b)
    def i_add(self, r): a = r.pop(); b = r.pop(); r.push(a + b)
    def i_sub(self, r): a = r.pop(); b = r.pop(); r.push(b - a)
    def i_div(self, r):
        a = r.pop(); b = r.pop()
        r.push(0 if a == 0 else cdiv(b, a))
    def i_gt(self, r): a = r.pop(); b = r.pop(); r.push(1 if b > a else 0)
    def i_pop(self, r): r.pop()
    def i_dup(self, r): x = r.pop(); r.push(x); r.push(x)
    def i_swap(self, r): a = r.pop(); b = r.pop(); r.push(a); r.push(b)
    def getc(self):
        if self.inpos >= len(self.stdin): return -1
        self.inpos += 1
        return self.stdin[self.inpos-1]
    def i_numin(self, r):
        self.features.add("numin")
        c = self.getc()
        while c != -1 and not 48 <= c <= 57: c = self.getc()
        if c == -1: return UNSPEC
        n = 0
        while 48 <= c <= 57:
            n = s64(n * 10 + c - 48); c = self.getc()
        if c != -1: self.inpos -= 1
        r.push(n)
    def i_charin(self, r):
        self.features.add("charin")
        c = self.getc()
        if c == 13: c = self.getc()
        if c == -1: return UNSPEC
        r.push(c)
    def i_string(self, r): r.state = 34
    def i_charout(self, r): self.out.append(r.pop() & 0xff)
    def i_numout(self, r): self.out += b"%d " % r.pop()
    def i_get(self, r):
        v = r.popvec()
        r.push(r.uni.field.get(vadd(v, r.storage)))
    def i_put(self, r):
        v = r.popvec()
        self.bigcheck(vadd(v, r.storage))
        r.uni.field.put(vadd(v, r.storage), r.pop())
    def bigcheck(self, v):
        for x in v:
            if abs(x) > 1 << 40: raise Domain("huge coordinate")

    # -- Befunge-93 ---------------------------------------------------------------------------------------------
    def i_north(self, r): r.setdelta((0, -1))
    def i_south(self, r): r.setdelta((0, 1))
    def i_vif(self, r): r.setdelta((0, 1) if r.pop() == 0 else (0, -1))

    # -- Unefunge-98 --------------------------------------------------------------------------------------------
    def i_noop(self, r): pass
    def i_jumpover(self, r):
        n = 0
        while True:
            r.next(); n += 1
            if n > 5000: raise Domain("unmatched ;")
            if r.uni.field.get(r.pos) == 59: return SKIP
    def i_jump(self, r):
        j = r.pop()
        if abs(j) > 20000: raise Domain("huge jump")
        if j < 0: r.reflect()
        for _ in range(abs(j)): r.next()
        if j < 0: r.reflect()
    def i_reflect(self, r): r.reflect()
    def i_absolute(self, r): r.setdelta(r.popvec())
    def i_iterate(self, r):
        self.features.add("iterate")
        f = r.uni.field; home = r.pos; n = 0
        r.next()
        while True:
            c = f.get(r.pos)
            if c == 32: r.next()
            elif c == 59:
                while True:
                    r.next(); n += 1
                    if n > 5000: raise Domain("unmatched ; in k")
                    if f.get(r.pos) == 59: break
                r.next()
            else: break
            n += 1
            if n > 5000: raise Domain("no target for k")
        target = r.pos; r.pos = home
        k = r.pop()
        if k > 3000: raise Domain("huge iteration")
        self.iter_depth += 1
        for _ in range(k):
            e = self.execute(r, c)
            if e in (UNIMP, NOTAVAIL, UNSPEC): r.reflect()
        self.iter_depth -= 1
        if k == 0: r.pos = target
    def i_quit(self, r):
        r.uni.kill(r.pop())
    def i_thread(self, r):
        if not r.uni.cfg.concurrent: return NOTAVAIL
        self.features.add("split")
        if len(r.uni.runners) > 200: raise Domain("too many IPs")
        self.add_runner(self.clone(r))
    def i_clear(self, r): r.top.clear()
    def chk_n(self, n):
        if abs(n) > 5000: raise Domain("huge count")
    def i_under(self, r):
        if not r.ss.has_second(): return UNSPEC
        n = r.pop(); self.chk_n(n)
        if n > 0:
            for _ in range(n): r.top.push(r.ss.second.pop())
        else:
            for _ in range(-n): r.ss.second.push(r.top.pop())
    def i_begin(self, r):
        n = r.pop(); self.chk_n(n)
        r.ss.insert(0, r.uni.cfg.mode)
        if n > 0:
            t = [r.ss.second.pop() for _ in range(n)]
            for x in reversed(t): r.top.push(x)
        else:
            for _ in range(-n): r.ss.second.push(0)
        r.pushvec(r.storage, r.ss.second)
        r.storage = vadd(r.pos, r.delta)
        if r.uni.cfg.mode & MODE_SWITCH: r.uni.field.put(r.pos, ord("}"))
    def i_end(self, r):
        ret = NONE
        if r.ss.has_second():
            n = r.pop(); self.chk_n(n)
            r.storage = r.popvec(stack=r.ss.second)
            if n > 0:
                t = [r.top.pop() for _ in range(n)]
                for x in reversed(t): r.ss.second.push(x)
            else:
                for _ in range(-n): r.ss.second.pop()
            r.ss.drop()
        else: ret = UNSPEC
        if r.uni.cfg.mode & MODE_SWITCH: r.uni.field.put(r.pos, ord("{"))
        return ret
    # files: names are relative to the scratch directory
    def fpath(self, b):
        b = b.split(b"\0")[0]
        s = b.decode("latin-1")
        if s.startswith("/"): raise Domain("absolute path")
        parts = [p for p in self.cwd.split("/") if p]
        for k, p in enumerate(s.split("/")):
            if p == "": continue
            if parts and "/".join(parts) not in self.dirs: return None
            if p == ".": continue
            if p == "..":
                if not parts: raise Domain("escape from scratch")
                parts.pop(); continue
            parts.append(p)
        if s == "": return None
        if s.endswith("/") and "/".join(parts) not in self.dirs: return None
        return "/".join(parts)
    def readfile(self, b):
        p = self.fpath(b)
        if p is None: return None
        if p in self.dirs or p == "": raise Domain("reading a directory")
        return self.files.get(p)
    def writefile(self, b, data):
        p = self.fpath(b)
        if p is None or p in self.dirs or p == "" or (p.rsplit("/", 1)[0] not in self.dirs and "/" in p): return False
        if len(p.rsplit("/", 1)[-1]) > 255: return False
        self.files[p] = data
        return True
    def i_filein(self, r):
        if not r.uni.cfg.filesystem: return NOTAVAIL
        self.features.add("filein")
        name = r.popstr(); flags = r.pop(); va = r.popvec(); at = vadd(va, r.storage)
        self.bigcheck(at)
        data = self.readfile(name)
        if data is None: return UNSPEC
        vb = r.uni.field.parse(at, data, r.uni.dims, bool(flags & 1))
        r.pushvec(vb); r.pushvec(va)
    def i_fileout(self, r):
        if not r.uni.cfg.filesystem: return NOTAVAIL
        self.features.add("fileout")
        name = r.popstr(); flags = r.pop(); va = vadd(r.popvec(), r.storage); vb = r.popvec()
        self.bigcheck(va); self.bigcheck(vb)
        data = self.dump(r.uni.field, va, vb, text=bool(flags & 1), dims=r.uni.dims)
        if not self.writefile(name, data): return UNSPEC
    def dump(self, f, va, vb, text, dims):
        x0, y0 = vget(va, 0), vget(va, 1); w, h = vget(vb, 0), vget(vb, 1)
        rest = tuple(va[2:])
        if any(vget(vb, i) not in (0, 1) for i in range(2, len(vb))): raise Domain("output of more than two dimensions")
        if w < 0 or h < 0: raise Domain("negative size")
        if not trim(vb): return b""
        if w == 0 or (h == 0 and dims > 1): raise Domain("empty box")
        if w * max(h, 1) > 200000: raise Domain("large output")
        out = bytearray()
        for y in range(y0, y0 + max(h, 1)):
            row = bytes(f.get((x, y) + rest) & 0xff for x in range(x0, x0 + w))
            full = [f.get((x, y) + rest) for x in range(x0, x0 + w)]
            if text:
                n = w
                while n > 0 and full[n-1] == 32: n -= 1
                row = row[:n]
            out += row + b"\n"
        return bytes(out)
    def i_exec(self, r):
        if not r.uni.cfg.execute: return NOTAVAIL
        cmd = r.popstr()
        r.push(self.system(cmd))
    def system(self, cmd):
        cmd = cmd.split(b"\0")[0]
        self.events.append(("system", cmd.decode("latin-1"), len(self.out)))
        return (sum(cmd) % 200) << 8
    def perl(self, code):
        """Perl must be handed exactly this code; the answer comes from the recording stand-in."""
        import shlex
        ev = [e[3] for e in self.obs.res.events if e[1] == "system"]
        k = sum(1 for e in self.events if e[0] == "system")
        if k >= len(ev):
            if self.obs.res.limit and not self.obs.more(): return 0
            raise Mismatch("perl was not run")
        cmd = ev[k]
        try: argv = shlex.split(cmd)
        except ValueError: raise Mismatch("perl command is not well quoted: %r" % cmd)
        if argv[:2] != ["perl", "-e"] or len(argv) != 3 or code.decode("latin-1") not in argv[2]:
            raise Mismatch("perl code %r was run as %r" % (code, cmd))
        if argv[2] != "exit(eval{%s})" % code.decode("latin-1"): raise Domain("another way to run perl")
        self.events.append(("system", cmd, len(self.out)))
        return sum(cmd.encode("latin-1")) % 200
    def i_fetch(self, r):
        r.next(); r.push(r.uni.field.get(r.pos))
    def i_store(self, r):
        r.next(); r.uni.field.put(r.pos, r.pop())
    def popid(self, r):
        n = r.pop()
        if n > 100: raise Domain("huge fingerprint id length")
        f = 0
        for _ in range(n): f = ((f << 8) + r.pop()) & M64
        return f
    def i_load(self, r):
        ret = NONE
        self.features.add("load")
        if r.uni.cfg.fingerprint:
            f = self.popid(r)
            if self.load_fp(r, f):
                r.push(f); r.push(1)
            else: ret = UNSPEC
        else: ret = NOTAVAIL
        if r.uni.cfg.mode & MODE_SWITCH: r.uni.field.put(r.pos, ord(")"))
        return ret
    def i_unload(self, r):
        ret = NONE
        self.features.add("unload")
        if r.uni.cfg.fingerprint:
            if not self.unload_fp(r, self.popid(r)): ret = UNSPEC
        else: ret = NOTAVAIL
        if r.uni.cfg.mode & MODE_SWITCH: r.uni.field.put(r.pos, ord("("))
        return ret
    def sysinfo(self, r):
        """The items of y, topmost last; time and date come from the observed run and are validated there."""
        u = r.uni; s = u.dims; out = [0, 0]
        f = u.field
        def string(b):
            out.append(0); out.extend(s8(c) for c in reversed(b))
        for e in reversed(u.cfg.env): string(e)
        out += [0, 0]
        for a in reversed(u.cfg.args): string(a)
        for k in range(len(r.ss.st), 1, -1): out.append(len(r.ss.at(k-1)))
        out.append(len(r.top))
        out.append(len(r.ss.st))
        out += ["time", "date"]
        out += [f.max(i) - f.min(i) for i in range(s)]
        out += [f.min(i) for i in range(s)]
        for v in (r.storage, r.delta, r.pos): out += [vget(v, i) for i in range(s)]
        out += [0, r.id, s, ord("/"), 1, 1, 0x464e2b2b, 8]
        out.append(16 | (1 if u.cfg.concurrent else 0) | (8 if u.cfg.execute else 0) | (6 if u.cfg.filesystem else 0))
        return out
    def i_sysinfo(self, r):
        self.features.add("sysinfo")
        if r.uni.cfg.mode & (MODE_INVERT | MODE_QUEUE) or r.ss.sel: raise Domain("y under modes")
        n = r.pop()
        items = self.sysinfo(r)
        L = len(items)
        hint = None
        for k in range(L):
            if items[k] in ("time", "date"):
                idx = L - k          # 1 = topmost
                if n <= 0 or n == idx:
                    items[k] = self.obs.clock_item(self, r, items[k], idx if n <= 0 else 1)
                else: items[k] = 0
        if n <= 0:
            for x in items: r.push(x)
        else:
            if n <= L: val = items[L-n]
            else: val = r.top.get(n - L)
            r.push(val)

    # -- Befunge-98 / Trefunge-98 -------------------------------------------------------------------------------
    def i_left(self, r):
        d = r.delta; x, y = vget(d, 0), vget(d, 1)
        r.delta = trim((y, s64(-x)) + tuple(d[2:]))
        if r.uni.cfg.mode & MODE_SWITCH: r.uni.field.put(r.pos, ord("]"))
    def i_right(self, r):
        d = r.delta; x, y = vget(d, 0), vget(d, 1)
        r.delta = trim((s64(-y), x) + tuple(d[2:]))
        if r.uni.cfg.mode & MODE_SWITCH: r.uni.field.put(r.pos, ord("["))
    def i_compare(self, r):
        b = r.pop(); a = r.pop()
        d = r.delta; x, y = vget(d, 0), vget(d, 1)
        if a < b: r.delta = trim((y, s64(-x)) + tuple(d[2:]))
        elif a > b: r.delta = trim((s64(-y), x) + tuple(d[2:]))
    def i_high(self, r): r.setdelta((0, 0, -1 if r.uni.cfg.inverthl else 1))
    def i_low(self, r): r.setdelta((0, 0, 1 if r.uni.cfg.inverthl else -1))
    def i_zif(self, r): r.setdelta((0, 0, 1) if r.pop() == 0 else (0, 0, -1))

def isspace(i): return i == 32 or 9 <= i <= 13

ESC = {ord("0"): 0, ord("a"): 7, ord("b"): 8, ord("t"): 9, ord("n"): 10, ord("v"): 11, ord("f"): 12, ord("r"): 13,
       ord("e"): 27}

def _lit(n):
    def f(self, r): r.push(n)
    return f
for _i in range(16): setattr(Model, "i_lit%x" % _i, _lit(_i))

UNE93 = {" ": ("skip", 0), "\t": ("skip", 0), "<": ("west", 1), ">": ("east", 1), "@": ("stop", 0), "#": ("tramp", 0),
         "_": ("if", 0), "?": ("goaway", 0), "!": ("not", 0), "%": ("rem", 0), "*": ("mul", 0), "+": ("add", 0),
         "-": ("sub", 0), "/": ("div", 0), "`": ("gt", 0), "$": ("pop", 0), ":": ("dup", 0), "\\": ("swap", 0),
         "&": ("numin", 0), "~": ("charin", 0), '"': ("string", 0), ".": ("numout", 0), ",": ("charout", 0),
         "g": ("get", 0), "p": ("put", 0)}
for _i in range(10): UNE93["%d" % _i] = ("lit%x" % _i, 0)
UNE98 = {"y": ("sysinfo", 0), "z": ("noop", 0), ";": ("jumpover", 0), "j": ("jump", 0), "r": ("reflect", 1),
         "x": ("absolute", 0), "k": ("iterate", 0), "q": ("quit", 0), "t": ("thread", 0), "n": ("clear", 0),
         "u": ("under", 0), "{": ("begin", 0), "}": ("end", 0), "i": ("filein", 0), "o": ("fileout", 0),
         "=": ("exec", 0), "'": ("fetch", 0), "s": ("store", 0), "(": ("load", 0), ")": ("unload", 0)}
for _i in range(10, 16): UNE98["%x" % _i] = ("lit%x" % _i, 0)
BE93 = {"^": ("north", 1), "v": ("south", 1), "|": ("vif", 0)}
BE98 = {"[": ("left", 0), "]": ("right", 0), "w": ("compare", 0)}
TRE98 = {"h": ("high", 1), "l": ("low", 1), "m": ("zif", 0)}

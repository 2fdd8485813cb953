"""Runs generated programs on the instrumented interpreter and decides each execution against the model."""
import hashlib, json, multiprocessing, os, random, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner
from model import *
import model as M

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")

# --------------------------------------------------------------------------------------------------------------
# Command line as documented in doc/man.md

class CliError(Exception):
    def __init__(self, code): self.code = code

OPTS = {"-fconcurrent": ("concurrent", True), "-fno-concurrent": ("concurrent", False),
        "-fexecute": ("execute", True), "-fno-execute": ("execute", False),
        "-ffilesystem": ("filesystem", True), "-fno-filesystem": ("filesystem", False),
        "-finvert-hl": ("inverthl", True)}
STDS = {"une93": (1, 93), "une98": (1, 98), "be93": (2, 93), "be98": (2, 98), "tre98": (3, 98), "fish": (2, -1),
        "sfish": (2, -2)}
EINVAL, EIO = 22, 5

def parse_args(args, env=()):
    c = Config(standard=0); a = 0
    while a < len(args) and args[a].startswith("-"):
        o = args[a]; a += 1
        if o.startswith("-std="):
            v = o[5:]
            if v not in STDS: raise CliError(EINVAL)
            c.dims, c.standard = STDS[v]
            if c.standard == 93: c.topo, c.strings, c.char = "torus", "multispace", True
            elif c.standard < 0: c.topo, c.strings, c.char = "lahey", "multispace", False
            else: c.topo, c.strings, c.char = "lahey", "sgml", False
        elif o in OPTS: setattr(c, *OPTS[o])
        elif o.startswith("-ftopo="):
            if o[7:] not in ("torus", "lahey"): raise CliError(EINVAL)
            c.topo = o[7:]
        elif o.startswith("-fstrings="):
            if o[10:] not in ("multispace", "sgml", "c"): raise CliError(EINVAL)
            c.strings = o[10:]
        elif o.startswith("-fcells="):
            if o[8:] not in ("char", "int"): raise CliError(EINVAL)
            c.char = o[8:] == "char"
        elif o.startswith("-fthreads="):
            if o[10:] not in ("native", "funge"): raise CliError(EINVAL)
            c.native = o[10:] == "native"
        elif o.startswith("-l"):
            f = 0
            for ch in o[2:].encode("latin-1"): f = ((f << 8) + M.s8(ch)) & M.M64
            c.fingerprints.append(f)
        elif o == "-g": c.mode |= M.MODE_DEBUG
    if a >= len(args) or args[a] == "": raise CliError(EINVAL)
    c.name = args[a]
    c.args = [x.encode("latin-1") for x in args[a:]]
    c.env = [e.encode("latin-1") for e in env]
    return c

def auto_standard(c):
    ext = os.path.splitext(c.name)[1]
    if c.standard == 0:
        if ext == ".bf": c.standard = 93
        elif ext == ".fish": c.dims, c.standard, c.strings = 2, -1, "multispace"
        elif ext == ".sf": c.dims, c.standard, c.strings = 2, -2, "multispace"
        else: c.standard = 98
    return ext

def parse_fmv(m, c, load):
    """One universe per line: file (relative to the list) and arguments."""
    data = m.readfile(c.name.encode("latin-1"))
    if data is None: raise CliError(EIO)
    for line in data.split(b"\n"):
        w = line.split()
        if not w: continue
        d = c.copy()
        name = w[0].decode("latin-1")
        d.name = name if name.startswith("/") else os.path.join(os.path.dirname(c.name), name)
        d.args += w[1:]
        load(d)

def load_universe(m, c, files):
    """Create the universe for config c (file name in c.name)."""
    ext = auto_standard(c)
    data = m.readfile(c.name.encode("latin-1"))
    if ext == ".beq": c.fingerprints.append(0x4e46554e)
    if data is None: raise CliError(EIO)
    if ext == ".beq":
        import loaders
        u = Universe(m, c); loaders.beq(u, data)
    elif ext == ".fl":
        import loaders
        u = Universe(m, c); loaders.fl(u, data)
    else:
        u = Universe(m, c); u.load_text(data)
    return u

# --------------------------------------------------------------------------------------------------------------

class Case:
    """One execution: command line, files, standard input."""
    def __init__(self, args, files, stdin=b"", steps=300, env=(), dirs=(), tags=(), opts=(), note=""):
        self.args = list(args); self.files = dict(files); self.stdin = stdin; self.steps = steps
        self.env = list(env); self.dirs = list(dirs); self.tags = set(tags); self.opts = list(opts); self.note = note
    def key(self):
        h = hashlib.sha256(repr((self.args, sorted(self.files.items()), self.stdin, self.steps, self.env, self.dirs,
                                 self.opts)).encode())
        return h.hexdigest()[:16]
    def to_json(self):
        return {"args": self.args, "files": {k: v.decode("latin-1") for k, v in self.files.items()},
                "stdin": self.stdin.decode("latin-1"), "steps": self.steps, "env": self.env, "dirs": self.dirs,
                "tags": sorted(self.tags), "opts": self.opts, "note": self.note}
    @staticmethod
    def from_json(j):
        return Case(j["args"], {k: v.encode("latin-1") for k, v in j["files"].items()}, j["stdin"].encode("latin-1"),
                    j["steps"], j["env"], j["dirs"], j["tags"], j.get("opts", ()), j.get("note", ""))

class Observer:
    """Compares the model's announced states with the recorded events, in order."""
    SKIPPABLE = (32, 9, 59, 10, 11, 12, 13)
    def __init__(self, res):
        self.res = res; self.t = res.trace; self.p = 0; self.n = len(self.t)
        self.map = {}; self.matched = 0; self.tolerated = 0; self.chosen = {}; self.draws = {}
    def uni_of(self, u, o):
        """Is observed universe index o the model's universe u?  Binds on first use (and checks the loaded space)."""
        if u.index in self.map: return self.map[u.index] == o
        if o in self.map.values(): return False
        self.map[u.index] = o
        d = self.res.inits.get(o)
        if d is not None: compare_field(u, d, "space when first entered")
        return True
    def step(self, m, r, i):
        while True:
            if self.p >= self.n:
                if self.res.limit: raise TraceEnd()
                if m.is_skip(r, i): return
                raise Mismatch("the run ended (%s) but should go on with %s" % (self.res.status, show(m, r, i)))
            o = self.t[self.p]
            why = self.differs(m, r, i, o)
            if why is None:
                self.p += 1; self.matched += 1
                if self.res.limit and self.p == self.n: raise TraceEnd()   # stopped before acting
                return
            if m.is_skip(r, i):
                self.tolerated += 1
                return
            if o.id == r.id and o.inst in self.SKIPPABLE and o.inst != i:
                self.p += 1; self.tolerated += 1
                continue
            raise Mismatch("step %d: %s\n  expected %s\n  observed %r\n  previous %r" % (
                self.p, why, show(m, r, i), o, self.t[self.p-1] if self.p else None))
    def differs(self, m, r, i, o):
        if o.id != r.id: return "wrong IP acts"
        if o.pos != r.pos: return "position"
        if o.inst != i: return "instruction read"
        if o.delta != r.delta: return "delta"
        if o.storage != r.storage: return "storage offset"
        st = r.ss.st
        if o.nstacks != len(st): return "number of stacks"
        for k in range(min(len(st), 10)):
            s = st[-1-k]
            if o.sizes[k] != len(s): return "size of stack %d" % k
            v = s.v[::-1] if not s.mode & M.MODE_QUEUE else s.v
            if o.stacks[k] != v[:48]: return "contents of stack %d" % k
        if o.sel != r.ss.sel: return "selected stack"
        if (o.mode ^ r.uni.cfg.mode) & ~M.MODE_DEBUG: return "mode flags"
        if not self.uni_of(r.uni, o.uni): return "universe"
        return None
    def more(self): return self.p < self.n
    def peek(self, r):
        """Next recorded event of this IP after the current position."""
        for k in range(self.p, self.n):
            if self.t[k].id == r.id: return self.t[k]
        return None
    def chose(self, r, what, n, k):
        """r's instruction had the outcome k of n equally likely ones: the whole check's counts are examined at its end."""
        def count(label, k):
            key = "choice:%s:%d:%d" % (label, n, k)
            self.chosen[key] = self.chosen.get(key, 0) + 1
        h = self.draws.setdefault((what, n), {}).setdefault(r.id, [])
        count(what, k)
        count(what + ", since the one before" if h else what + ", first", (k - h[-1]) % n if h else k)
        for lag in (1, 2):
            if len(h) >= lag:
                key = "pair:%s:%d:%d" % (what + (", after" if lag == 1 else ", two after"), n, h[-lag] * n + k)
                self.chosen[key] = self.chosen.get(key, 0) + 1
        o = self.draws[what, n][min(self.draws[what, n])]
        if o is not h and len(o) > len(h): count(what + ", against another IP", (k - o[len(h)]) % n)
        h.append(k)
    def window(self, r, clock):
        """Microseconds on a clock ("wall", "mono") between which the current instruction of r acted."""
        now = next((o for o in reversed(self.t[:self.p]) if o.id == r.id), None); nxt = self.peek(r)
        if now is None or nxt is None: return None
        return getattr(now, clock), getattr(nxt, clock)
    def choose_delta(self, m, r, choices, what="?"):
        if m.iter_depth: raise Domain("random direction inside k")
        if r.uni.cfg.mode & M.MODE_DEBUG and b"set" in m.stdin: raise Domain("random direction that the debugger may replace")
        o = self.peek(r)
        if o is None and r.uni.cfg.mode & M.MODE_DEBUG: raise Domain("unobserved choice shown by the debugger")
        if o is None: return choices[0]
        for n, c in enumerate(choices):
            d = vadd(r.delta, c) if r.uni.cfg.mode & M.MODE_HOVER else c
            if d == o.delta:
                self.chose(r, what, len(choices), n)
                return c
        raise Mismatch("random direction gave delta %s, not one of %s" % (o.delta, choices))
    def choose_value(self, m, r, valid, what, idx=1):
        """The value the interpreter left at stack position idx (1 = top) of IP r; valid(v) must accept it."""
        if m.iter_depth: raise Domain("unpredictable value inside k")
        o = self.peek(r)
        if o is None and r.uni.cfg.mode & M.MODE_DEBUG: raise Domain("unobserved choice shown by the debugger")
        if o is None: return None
        k = o.sel if o.sel >= 0 else 0
        if len(r.uni.runners) > 1 and any(c.startswith("IIPC.") for c in m.fpcalls): raise Domain("unpredictable value shared through IIPC")
        if k < len(o.stacks) and bool(r.top.mode & M.MODE_INVERT) != bool(o.mode & M.MODE_QUEUE):
            idx = o.sizes[k] - idx + 1
        if k < len(o.stacks) and 48 < idx <= o.sizes[k]: raise Domain("value deep in the stack")
        if k >= len(o.stacks) or not 1 <= idx <= len(o.stacks[k]): raise Mismatch("%s was not pushed" % what)
        v = o.stacks[k][idx-1]
        if not valid(v): raise Mismatch("%s: %d is not possible" % (what, v))
        return v
    def seconds(self, r):
        """Seconds that time() may have returned to the current instruction (it may lag by a few ms)."""
        w = self.window(r, "wall")
        if w is None: return range(int(self.res.t0) - 1, int(self.res.t1) + 2)
        return range((w[0] - 20000) // 1000000, (w[1] + 1000) // 1000000 + 1)
    def clock_item(self, m, r, which, idx):
        ok = set()
        for t in self.seconds(r):
            g = time.gmtime(t)
            ok.add((g.tm_hour << 16) + (g.tm_min << 8) + g.tm_sec if which == "time" else
                   ((g.tm_year - 1900) << 16) + (g.tm_mon << 8) + g.tm_mday)
        v = self.choose_value(m, r, lambda x: x in ok, "y " + which, idx)
        return 0 if v is None else v

def show(m, r, i):
    return "u%d ip%d %r(%d) pos=%s delta=%s storage=%s mode=%x sel=%d stacks=%s%s" % (
        r.uni.index, r.id, chr(i) if 32 <= i < 127 else ".", i, r.pos, r.delta, r.storage, r.uni.cfg.mode, r.ss.sel,
        [s.v[::-1][:48] for s in reversed(r.ss.st)], " (in string)" if r.state is not None else "")

def compare_field(u, d, what):
    f = u.field
    if d.dims != u.dims: raise Mismatch("%s: %d dimensions, expected %d" % (what, d.dims, u.dims))
    for i in range(max(d.nd, len(f.lo), len(f.hi))):
        lo = d.lo[i] if i < d.nd else 0
        hi = d.hi[i] if i < d.nd else 0
        if (lo, hi) != (f.min(i), f.max(i)):
            raise Mismatch("%s: bounds of dimension %d are %d..%d, expected %d..%d" % (what, i, lo, hi, f.min(i), f.max(i)))
    if d.cells is not None and d.cells != f.c:
        for p in sorted(set(d.cells) | set(f.c)):
            a, b = d.cells.get(p, 32), f.c.get(p, 32)
            if a != b:
                if b != 32 and any(vget(p, i) != 0 for i in range(d.nd, len(p))): continue
                raise Mismatch("%s: cell %s holds %d, expected %d" % (what, p, a, b))

_fing = None
def fing_files():
    global _fing
    if _fing is None:
        _fing = {}
        for d in (os.path.join(build.HARNESS, "fing"), os.path.join(build.REPO, "fing")):
            for f in sorted(os.listdir(d)):
                if f.endswith(".fl"): _fing[f[:-3]] = open(os.path.join(d, f), "rb").read()
    return _fing

class Verdict:
    def __init__(self, kind, msg="", model=None, obs=None, res=None):
        self.kind = kind; self.msg = msg; self.model = model; self.obs = obs; self.res = res

def brief(b, n=200):
    return repr(b[:n]) + ("..." if len(b) > n else "")

def judge(case, res, setup=None, final=True, driver=None, observer=None, out_check=None):
    """Decide one recorded execution.  kind: ok | violation | domain."""
    m = Model(None, case.stdin, case.files, case.dirs)
    obs = (observer or Observer)(res)
    m.obs = obs
    m.fing = fing_files()
    m.case = case
    try:
        ended = True
        try:
            code = None
            try:
                c = parse_args(case.args, case.env)
                u = load_universe(m, c, case.files) if not driver else None
            except CliError as e:
                code = e.code
            if code is None and driver:
                try: code = driver(m, c, obs)
                except CliError as e:
                    if m.universes and res.status == ("exit", e.code): raise Domain("a universe cannot be opened")
                    code = e.code
            elif code is None:
                if setup: setup(m, u)
                r = m.new_runner(u, (0,), (1,))
                m.add_runner(r)
                m.run_universe(u)
                code = u.exitcode & 255
        except TraceEnd:
            ended = False
        except RecursionError:
            raise Domain("deep recursion")
        if res.status[0] == "memory": raise Mismatch("the interpreter uses more than 2.5 GB of memory")
        if res.status[0] == "hang":
            if ended: raise Mismatch("the interpreter hangs; it should have ended with exit code %d" % code)
            raise Mismatch("the interpreter hangs after %d steps" % obs.n)
        if res.status[0] in ("signal", "sanitizer"):
            raise Mismatch("abnormal end: %s" % (res.status,))
        if ended:
            while obs.p < obs.n and obs.t[obs.p].inst in Observer.SKIPPABLE: obs.p += 1
            if obs.p < obs.n:
                raise Mismatch("execution should have ended but goes on with %r\n  previous %r" % (
                    obs.t[obs.p], obs.t[obs.p-1] if obs.p else None))
            if res.status != ("exit", code):
                raise Mismatch("exit status %s, expected exit code %d" % (res.status, code))
        elif res.status[0] != "limit":
            raise Mismatch("abnormal end: %s" % (res.status,))
        if out_check: out_check(m, res)
        elif bytes(m.out) != res.out:
            raise Mismatch("standard output %s\n  expected        %s" % (brief(res.out), brief(bytes(m.out))))
        if not getattr(m, "cut", False): check_stderr(m, res)
        for u in m.universes:
            o = obs.map.get(u.index)
            if o is not None and o in res.finals: compare_field(u, res.finals[o], "final space of universe %d" % u.index)
        for e in res.events:
            if e[2]: raise Mismatch("attempt to touch %r outside the working directory (%s)" % (e[3], e[1]))
        sysev = [e[3] for e in res.events if e[1] in ("system", "popen", "exec", "fork")]
        exp = [e[1] for e in m.events if e[0] == "system"]
        if sysev != exp: raise Mismatch("external commands run: %r, expected %r" % (sysev, exp))
        written = [int(e[4]) for e in res.events if e[1] == "system" and len(e) > 4]
        exp = [e[2] for e in m.events if e[0] == "system"]
        if not out_check and written != exp and -1 not in written:
            raise Mismatch("when commands ran, %r bytes of output had been written, expected %r" % (written, exp))
        if res.files is not None:
            want = dict(m.files)
            for d in m.dirs: want[d + "/"] = None
            for k in sorted(set(want) | set(res.files)):
                if want.get(k, b"?none") != res.files.get(k, b"?none"):
                    raise Mismatch("file %r is %s, expected %s" % (k, brief(res.files[k] or b"<dir>") if k in res.files else "absent",
                                                                 brief(want[k] or b"<dir or empty>") if k in want else "absent"))
        return Verdict("ok", "", m, obs, res)
    except Domain as e:
        return Verdict("domain", str(e), m, obs, res)
    except Mismatch as e:
        why = str(e)
        if res.status[0] in ("signal", "sanitizer", "memory"): why += "\n  standard error: " + res.err[:700].decode(errors="replace")
        return Verdict("violation", why, m, obs, res)

def check_stderr(m, res):
    """Unimplemented instructions are reported, once each, with value and position."""
    import re
    seen = []
    for mm in re.finditer(rb"Unimplemented instruction (-?\d+) '.*?' at \(([-0-9, ]*)\)", res.err, re.S):
        pos = trim(int(x) for x in mm.group(2).split(b",") if x.strip())
        seen.append((int(mm.group(1)), pos))
    want = [(s32(e[1]), e[2]) for e in m.err if e[0] == "unimp"]
    if getattr(m, "complaints", False) and not res.err: raise Mismatch("malformed numbers in the file were not reported")
    fishy = sum(1 for e in m.err if e[0] == "fishy")
    if res.err.count(b"something smells fishy...") != fishy:
        raise Mismatch("'something smells fishy...' reported %d times, expected %d" % (res.err.count(b"something smells fishy..."), fishy))
    if m.universes and m.universes[0].cfg.standard >= 93 and [(s32(v), p) for v, p in seen] != want:
        raise Mismatch("reported unimplemented instructions %r, expected %r" % (seen[:5], want[:5]))

# --------------------------------------------------------------------------------------------------------------

def run_case(server, case, timeout=1.2):
    return server.run(case.args, case.files, case.stdin, case.steps, timeout, case.env, case.opts, case.dirs)

class TooSlow(BaseException): pass
def too_slow(*_): raise TooSlow()

def decide(server, case, judge_fn=judge):
    def limited(res):
        """The model itself may need astronomic time for what the interpreter cut short."""
        signal.signal(signal.SIGALRM, too_slow); signal.setitimer(signal.ITIMER_REAL, 60)
        try: return judge_fn(case, res)
        except TooSlow: return Verdict("domain", "the model is too slow", None, None, res)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    res = run_case(server, case)
    v = limited(res)
    if v.kind == "violation" and res.status[0] == "hang":
        res = run_case(server, case, timeout=40.0)      # a loaded machine is not a hang
        v = limited(res)
    if v.kind == "violation" and any(o.startswith("settle=") for o in case.opts):
        # nor is one that keeps threads from ending in time
        slow = Case.from_json(case.to_json()); slow.opts.append("settle=20000")
        res = run_case(server, slow, timeout=60.0)
        v = limited(res)
    return v

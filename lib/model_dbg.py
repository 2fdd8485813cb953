"""The debugger as documented in doc/defunge.md and doc/DBUG.md."""
from model import *

MAX_BACKTRACE = 10
START, RUN, STEP, BREAK, END = range(5)
WS = b" \t\n\v\f\r"

class Line:
    """A command line, read like an istringstream."""
    def __init__(self, data): self.d = data; self.p = 0; self.fail = False
    def ws(self):
        while self.p < len(self.d) and self.d[self.p] in WS: self.p += 1
    def char(self):
        if self.fail: return -1
        self.ws()
        if self.p >= len(self.d): self.fail = True; return -1
        self.p += 1
        return self.d[self.p-1]
    def word(self):
        self.ws(); q = self.p
        while self.p < len(self.d) and self.d[self.p] not in WS: self.p += 1
        return self.d[q:self.p]
    def num(self, n):
        if self.fail: return n
        self.ws()
        if self.p >= len(self.d): self.fail = True; return n
        q = self.p
        while self.p < len(self.d) and 48 <= self.d[self.p] <= 57: self.p += 1
        if q == self.p or self.p - q > 17: raise Domain("odd number in a debugger command")
        return int(self.d[q:self.p])
    def vec(self):
        c = self.char()
        if self.fail: return None
        if c != 40:
            self.p -= 1
            return None
        out = []; v = 0; neg = False
        n = self.char()
        if not self.fail: c = n
        while not self.fail and c != 41:
            if 48 <= c <= 57: v = s64(v * 10 + c - 48)
            elif c == 44: out.append(-v if neg else v); v = 0; neg = False
            elif v == 0 and c == 45: neg = True
            else: self.p -= 1; break
            n = self.char()
            if not self.fail: c = n
        out.append(-v if neg else v)
        if any(abs(x) > 1 << 40 for x in out): raise Domain("huge coordinate")
        return trim(tuple(out))

class Thread:
    def __init__(self, r): self.r = r; self.bt = []; self.state = START

class Dbg:
    """The debugger of one universe."""
    def __init__(self, m, u):
        self.m = m; self.u = u; self.breaks = set(); self.watches = set(); self.threads = {}; self.last = 0
        self.shown = set()
    def p(self, s): self.m.out += s if isinstance(s, (bytes, bytearray)) else s.encode("latin-1")
    @staticmethod
    def v(v): return "(" + ", ".join(map(str, v)) + ")"
    def cell(self, pos): return bytes([self.u.field.get(pos) & 255])
    def on(self): return bool(self.u.cfg.mode & MODE_DEBUG)

    def intro(self):
        if self.m.dbg_intro: return
        self.m.dbg_intro = True
        self.p(b"Funge++ Debugger\n" + b"".join(a + b" " for a in self.u.cfg.args) + b"\n")
    def tick(self, r):
        if not self.on(): return
        self.m.features.add("debug-ticks")
        self.intro()
        t = self.threads.get(r.id)
        if t is None or t.state == END:
            t = self.threads[r.id] = Thread(r)
            self.p("New IP %d\n" % r.id)
        self.last = r.id
        if r.pos in self.breaks:
            self.m.features.add("stopped-at-breakpoint")
            self.p("Breakpoint %s\n" % self.v(r.pos)); t.state = BREAK
        if len(t.bt) >= MAX_BACKTRACE: t.bt.pop()
        t.bt.insert(0, r.pos)
        self.prompt(r)
    def swbreak(self, r):
        if not self.on(): return
        self.m.features.add("stopped-by-B")
        self.intro()
        self.p("Software Breakpoint %s\n" % self.v(r.pos))
        self.stop(r)
    def trap(self, r):
        if not self.on(): return
        self.m.features.add("trapped")
        self.intro()
        self.p("Exception Trapped %s\n" % self.v(r.pos))
        self.stop(r)
    def stop(self, r):
        if r.id not in self.threads: raise Domain("the IP is new to the debugger")
        self.threads[r.id].state = BREAK
        self.prompt(r)
    def written(self, pos, val):
        pos = trim(pos)
        if not self.on() or pos not in self.watches: return
        self.m.features.add("stopped-at-watchpoint")
        t = self.threads.get(self.last)
        here = t is not None and t.state != END
        if here: t.state = BREAK; self.intro()
        old = self.u.field.get(pos)
        self.p(b"Watchpoint %s\nOld value = (%d) \"%c\"\nNew value = (%d) \"%c\"\n" % (self.v(pos).encode(), old, old & 255, val, val & 255))
        if here: self.prompt(t.r)
    def add_break(self, v): self.breaks.add(trim(v)); self.m.features.add("breakpoint")
    def add_watch(self, v):
        if not self.watches: self.u.field.watch.append(self.written)
        self.watches.add(trim(v)); self.m.features.add("watchpoint")
    def end(self, r):
        t = self.threads.get(r.id)
        if t is not None: t.state = END; t.r = None

    def print_ip(self, r):
        self.p(b"%d: %s \"%s\"\n" % (r.id, self.v(r.pos).encode(), bytes([r.uni.field.get(r.pos) & 255])))
    def prompt(self, r):
        if self.threads[r.id].state == RUN: return
        self.r = r
        self.print_ip(r)
        while True:
            self.p(b"\x1b[33m(defunge)\x1b[0m ")
            self.m.work()
            data = self.m.stdin
            if self.m.inpos >= len(data): line = b"quit"; self.m.features.add("end-of-commands")
            else:
                e = data.find(b"\n", self.m.inpos)
                if e < 0: e = len(data)
                line = data[self.m.inpos:e]; self.m.inpos = min(e + 1, len(data))
            if b"\0" in line: raise Domain("NUL in a command")
            s = Line(line)
            c = self.NAMES.get(s.word().decode("latin-1"))
            if c is None: continue
            self.m.features.add("cmd-" + c)
            if getattr(self, "c_" + c)(s): return
    NAMES = {}
    for _n, _a in (("run", "run r continue con c"), ("quit", "quit q"), ("step", "step stp s"), ("peek", "peek p"), ("delta", "delta dir d"),
                   ("storage", "storage"), ("position", "position pos"), ("thread", "thread t"), ("backtrace", "backtrace bt"),
                   ("setdelta", "setdelta"), ("setpos", "setpos"), ("get", "get g"), ("list", "list l"), ("break", "break bp"),
                   ("watch", "watch wp"), ("read", "read"), ("universe", "universe u")):
        for _x in _a.split(): NAMES[_x] = _n
    def c_run(self, s): self.threads[self.r.id].state = RUN; return True
    def c_step(self, s): self.threads[self.r.id].state = STEP; return True
    def c_quit(self, s):
        for u in self.m.universes: u.kill(1)
        return True
    def c_peek(self, s):
        st = self.r.ss.st; c = s.num(0)
        if c == 0:
            for j in range(len(st)):
                k = st[-1-j]
                self.p("[%d] " % j + "".join("%d " % k.get(i) for i in range(len(k), 0, -1)) + "\n")
        else:
            k = s.num(0)
            if k >= len(st): self.p("Error\n")
            else: self.p("%d\n" % st[-1-k].get(c))
    def c_delta(self, s): self.p("Delta %s\n" % self.v(self.r.delta))
    def c_storage(self, s): self.p("Storage %s\n" % self.v(self.r.storage))
    def c_position(self, s): self.print_ip(self.r)
    def c_thread(self, s):
        n = s.num(self.r.id)
        if n in self.threads and self.threads[n].state != END:
            if self.r is not self.threads[n].r: self.m.features.add("switched-ip")
            self.r = self.threads[n].r
        for n in sorted(self.threads):
            t = self.threads[n]
            if t.state == END: self.p("  %d: end\n" % n); continue
            self.p("* " if n == self.r.id else "  ")
            self.print_ip(t.r)
    def c_backtrace(self, s):
        self.p("Backtrace\n")
        for i, b in enumerate(self.threads[self.r.id].bt): self.p(b"#%d  %s \"%s\"\n" % (i, self.v(b).encode(), self.cell(b)))
    def c_setdelta(self, s):
        self.r.setdelta(s.vec() or ()); self.p("Delta %s\n" % self.v(self.r.delta))
    def c_setpos(self, s):
        self.r.pos = s.vec() or (); self.print_ip(self.r)
    def c_get(self, s):
        v = s.vec()
        if v is None: v = self.r.pos
        self.area(s, v)
    def c_list(self, s): self.area(s, self.r.pos)
    def area(self, s, v):
        size = s.vec(); dim = s.vec()
        self.field(v, (3, 3) if size is None else size, (0, 1) if dim is None else dim)
    def c_break(self, s):
        v = s.vec()
        if v is not None: self.add_break(v)
        for b in sorted(self.breaks, key=self.order): self.p("Breakpoint %s\n" % self.v(b))
    def c_watch(self, s):
        v = s.vec()
        if v is not None: self.add_watch(v)
        for b in sorted(self.watches, key=self.order): self.p("Watchpoint %s\n" % self.v(b))
    @staticmethod
    def order(v): return tuple(reversed(tuple(v) + (0,) * (12 - len(v))))
    def c_read(self, s):
        v = s.vec() or (); i = self.u.field.get(v)
        self.p(b"Value = (%d) \"%c\"\n" % (i, i & 255))
    def c_universe(self, s):
        if len(self.m.universes) > 1 or s.word() not in (b"", self.u.cfg.name.encode("latin-1")): raise Domain("another universe")
        t = self.threads.get(self.last)
        if len(s.d[:s.p].split()) > 1 and t is not None: self.r = t.r
        if self.r is None: raise Domain("no IP")
        self.p(b"* " + self.u.cfg.name.encode("latin-1") + b"\n")
    def field(self, center, size, dim):
        g = lambda v, d: v[d] if d < len(v) else 0
        d0, d1 = g(dim, 0), g(dim, 1)
        n = max(2, self.u.dims)
        if not (0 <= d0 < n and 0 <= d1 < n) or d0 == d1:
            self.p("Error\n"); return
        if abs(g(size, d0)) > 40 or abs(g(size, d1)) > 40: raise Domain("large area")
        pos = list(center) + [0] * (12 - len(center))
        here = [t.r.pos for t in self.threads.values() if t.state != END]
        c0, c1 = pos[d0], pos[d1]
        for y in range(c1 - g(size, d1), c1 + g(size, d1) + 1):
            row = list(range(c0 - g(size, d0), c0 + g(size, d0) + 1))
            for x in row:
                pos[d0] = x; pos[d1] = y
                p = trim(tuple(pos)); s = b""
                if p in here: s += b"\x1b[43;1m"
                if p in self.breaks: s += b"\x1b[41;1m"
                if p in self.watches: s += b"\x1b[34;1m"
                if p == trim(center): s += b"\x1b[4m"
                if p == self.r.pos: s += b"\x1b[42;1m"
                self.p(s + self.cell(p) + (b"\x1b[0m" if s else b""))
            if row: self.p(b"\n")

"""Client of the instrumented interpreter's fork server: runs one program, returns everything observed."""
import os, re, shutil, subprocess, tempfile, time, atexit, signal

ENV_BASE = {"TZ": "UTC", "LC_ALL": "C",
            "ASAN_OPTIONS": "detect_leaks=0:exitcode=86:allocator_may_return_null=0:max_allocation_size_mb=1024:"
                            "detect_stack_use_after_return=0:handle_abort=1:handle_sigfpe=1:quarantine_size_mb=16",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
            "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_signal_unsafe=0:die_after_fork=0:second_deadlock_stack=1",
            "PATH": "/usr/bin:/bin"}

def scratch_root():
    for d in (os.environ.get("VERIF_TMP"), "/dev/shm", "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK | os.X_OK): return d
    return None

def clear_dir(path):
    """Remove the contents of a scratch directory (which this module created)."""
    for e in os.scandir(path):
        if e.is_dir(follow_symlinks=False): shutil.rmtree(e.path, ignore_errors=True)
        else: os.unlink(e.path)

class Step:
    __slots__ = ("uni", "id", "inst", "pos", "delta", "storage", "mode", "nstacks", "sel", "stacks", "sizes", "light",
                 "wall", "mono")
    def __repr__(self):
        c = chr(self.inst) if 32 <= self.inst < 127 else "."
        return "u%d ip%d %r(%d) pos=%s delta=%s storage=%s mode=%x sel=%s stacks=%s" % (
            self.uni, self.id, c, self.inst, self.pos, self.delta, self.storage, self.mode, self.sel,
            [s for s in self.stacks])

def trim(v):
    v = tuple(v)
    n = len(v)
    while n > 0 and v[n-1] == 0: n -= 1
    return v[:n]

def parse_step(t):
    """S uni id inst | pos | delta | storage | mode nstacks sel wall mono | (size cells..)*"""
    s = Step()
    s.uni = t[0]; s.id = t[1]; s.inst = t[2]
    i = 3
    n = t[i]; s.pos = trim(t[i+1:i+1+n]); i += 1+n
    n = t[i]; s.delta = trim(t[i+1:i+1+n]); i += 1+n
    n = t[i]; s.storage = trim(t[i+1:i+1+n]); i += 1+n
    s.mode = t[i]; s.nstacks = t[i+1]; s.sel = t[i+2]; s.wall = t[i+3]; s.mono = t[i+4]; i += 5
    s.stacks = []; s.sizes = []
    for k in range(min(s.nstacks, 10)):
        sz = t[i]; m = min(sz, 48)
        s.sizes.append(sz); s.stacks.append(t[i+1:i+1+m]); i += 1+m
    return s

class FieldDump:
    __slots__ = ("uni", "dims", "nd", "lo", "hi", "cells")
    def __init__(self, t):
        self.uni, self.dims, self.nd = t[0], t[1], t[2]
        i = 3
        self.lo = []; self.hi = []
        for k in range(self.nd):
            self.lo.append(t[i]); self.hi.append(t[i+1]); i += 2
        n = t[i]; i += 1
        if n < 0: self.cells = None
        else:
            self.cells = {}
            for k in range(n):
                self.cells[trim(t[i:i+self.nd])] = t[i+self.nd]
                i += self.nd+1

class Result:
    """What one execution did.  status: ('exit', code) | ('limit',) | ('signal', n) | ('hang',) | ('sanitizer', text)"""
    __slots__ = ("status", "out", "err", "trace", "unis", "inits", "finals", "events", "limit", "raw", "t0", "t1", "maxrss", "cpu", "light", "lost",
                 "files", "heap")

class Server:
    def __init__(self, exe):
        self.exe = exe
        root = scratch_root()
        self.dir = tempfile.mkdtemp(prefix="fpp-", dir=root)
        os.chmod(self.dir, 0o755)
        self.job = os.path.join(self.dir, "j")
        os.mkdir(self.job); os.chmod(self.job, 0o777)
        self.cwd = os.path.join(self.job, "cwd")
        self.proc = None
        self.start()
        atexit.register(self.close)

    def start(self):
        env = dict(ENV_BASE)
        self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                     cwd=self.dir, start_new_session=True)

    def close(self):
        if self.proc:
            try:
                self.proc.stdin.close(); self.proc.wait(timeout=2)
            except Exception:
                try: self.proc.kill()
                except Exception: pass
            self.proc = None
        if self.dir and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

    def run(self, args, files=None, stdin=b"", steps=300, timeout=10.0, env=None, opts=(), dirs=(), keep_files=True):
        """args: argument list; files: name -> bytes placed in the working directory."""
        clear_dir(self.job)
        os.mkdir(self.cwd); os.chmod(self.cwd, 0o777)
        for d in dirs:
            p = os.path.join(os.fsencode(self.cwd), d.encode("latin-1"))
            os.makedirs(p, exist_ok=True); os.chmod(p, 0o777)
        for n, b in (files or {}).items():
            p = os.path.join(os.fsencode(self.cwd), n.encode("latin-1"))
            with open(p, "wb") as f: f.write(b)
            os.chmod(p, 0o666)
        with open(os.path.join(self.job, "stdin"), "wb") as f: f.write(stdin)
        parts = ["steps=%d" % steps] + list(opts) + ["--"] + list(args) + ["--env"] + list(env or [])
        with open(os.path.join(self.job, "job"), "wb") as f:
            f.write(b"\0".join(p if isinstance(p, bytes) else p.encode("latin-1") for p in parts) + b"\0")
        r = Result()
        r.t0 = time.time()
        try:
            self.proc.stdin.write(b"%d %s\n" % (int(timeout*1000), self.job.encode())); self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = b""
        r.t1 = time.time()
        if not line:
            self.start()
            raise RuntimeError("fork server died")
        timed, status, rss, cpu = map(int, line.split())
        def rd(n, limit=40 << 20):
            try:
                with open(os.path.join(self.job, n), "rb") as f: return f.read(limit)
            except FileNotFoundError: return b""
        r.out = rd("out"); r.err = rd("err"); r.maxrss = rss; r.cpu = cpu / 1000.0
        r.limit = False
        r.raw = rd("trace")
        self._parse(r, any(o == "light=1" for o in opts))
        code = os.waitstatus_to_exitcode(status)
        serr = r.err
        if timed == 2: r.status = ("memory",)
        elif timed: r.status = ("hang",)
        elif code == 77 and r.limit: r.status = ("limit",)
        elif code in (86, 66) and (b"Sanitizer" in serr or b"runtime error:" in serr):
            m = re.search(rb"(ERROR|WARNING): \w+Sanitizer[^\n]*|[^\n]*runtime error:[^\n]*", serr)
            r.status = ("sanitizer", m.group(0).decode(errors="replace") if m else "sanitizer report")
        elif code < 0: r.status = ("signal", -code)
        else: r.status = ("exit", code)
        r.files = None
        if keep_files:
            r.files = {}
            bcwd = os.fsencode(self.cwd)
            for root, ds, fs in os.walk(bcwd):
                rel = os.path.relpath(root, bcwd)
                def name(f): return os.path.normpath(os.path.join(rel, f)).decode("latin-1")
                for d in ds: r.files[name(d) + "/"] = None
                for f in fs:
                    try:
                        with open(os.path.join(root, f), "rb") as fh: r.files[name(f)] = fh.read(1 << 20)
                    except OSError: r.files[name(f)] = b"?unreadable"
        return r

    def _parse(self, r, light):
        r.trace = []; r.unis = {}; r.inits = {}; r.finals = {}; r.events = []; r.light = []; r.lost = False; r.heap = []
        for line in r.raw.split(b"\n"):
            if not line: continue
            k = line[:1]
            try:
                if k == b"S":
                    if light:
                        t = [int(x) for x in line[2:].split()]
                        r.light.append((t[0], t[1], trim(t[3:3+t[2]]), tuple(t[3+t[2]:])))
                    else:
                        r.trace.append(parse_step([int(x) for x in line[2:].split()]))
                elif k in (b"I", b"F"):
                    d = FieldDump([int(x) for x in line[2:].split()])
                    (r.inits if k == b"I" else r.finals)[d.uni] = d
                elif k == b"U":
                    t = line.split()
                    r.unis[int(t[1])] = bytes.fromhex(t[2][1:].decode()).decode("latin-1")
                elif k == b"E":
                    t = line.split()
                    r.events.append((len(r.trace), t[1].decode(), int(t[2])) +
                                    tuple(bytes.fromhex(x[1:].decode()).decode("latin-1") for x in t[3:]))
                elif k == b"L": r.limit = True
                elif k == b"H": r.heap.append(tuple(int(x) for x in line[2:].split()))
                elif k == b"X": r.lost = True
            except (ValueError, IndexError):
                pass  # a line cut short by a crash

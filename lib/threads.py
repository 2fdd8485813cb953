"""Programs for native threads whose IPs meet: IIPC, MODE and NFUN.  The oracles are conservation, progress and parity."""
import re
import engine, model as M
from engine import Case, Verdict
from gen import *

class Sheet:
    """IP 0 goes along row 0 and splits off its children, whose blocks are placed below one another."""
    def __init__(self, rng): self.rng = rng; self.cells = {}; self.g = TG(rng, 2, 98); self.g.bigf = 0
    def put(self, x, y, b):
        for k, c in enumerate(b): self.cells[(x + k, y)] = c
    def num(self, n): return self.g.num(n)
    def lay(self, prefix, tail, blocks):
        """blocks: lists of rows; the IP arrives at the first character of the first row from above."""
        x = 0; self.put(0, 0, prefix); x = len(prefix); at = []
        for _ in blocks: self.put(x, 0, b"#vt"); at.append(x + 1); x += 3
        for k, r in enumerate(tail): self.put(x, k, r)
        y = len(tail)
        for cx, rows in sorted(zip(at, blocks), reverse=True):
            for k, r in enumerate(rows): self.put(cx, y + k, r)
            y += len(rows)
        w = max(p[0] for p in self.cells)
        self.put(0, 90, b"#"); self.put(w + 1, 90, b"#"); self.put(0, 80, b"AbCdEfGhIjKlMnOp")
        return b"\n".join(grid_lines(self.cells)) + b"\n"
    def loop(self, body, after):
        """Repeats body until it leaves 0, then goes on with after."""
        return [b">" + body + b"v", b"^" + b" " * len(body) + b"_" + after]
    def drain(self, after):
        """Takes numbers from IP 0's stack and prints them until it takes a 0."""
        return [b">AG::v", b"^  . _" + after]
    def forever(self, body): return [b">" + body + b"v", b"^" + b" " * len(body) + b"<"]
    def flag(self, j): return b"1" + self.num(j) + self.num(80) + b"p"
    def flags(self, n): return b"0" + b"".join(self.num(j) + self.num(80) + b"g1-+" for j in range(n))

def pert(rng): return "perturb=%d" % rng.choice((0, rng.randint(1, 10**6), rng.randint(1, 10**6)))

def case(rng, text, tags, libs, steps=400000):
    return Case(["-std=be98", "-fthreads=native"] + ["-l" + l for l in libs] + ["p.b98"], {"p.b98": text}, b"", steps,
                opts=["light=1", "maxlog=60", pert(rng)], tags=["meet"] + tags)

def pool(rng):
    """Children put distinct numbers on IP 0's stack and take them from it: each is printed once."""
    s = Sheet(rng); n = rng.randint(1, 6); code = rng.choice((0, 5, 77, 255)); blocks = []; values = []; kinds = []
    pre = [k + 900 for k in range(rng.choice((0, 0, 5, 20)))]
    for j in range(n):
        kind = rng.choice(("put", "put", "take", "look", "mix")); kinds.append(kind)
        if kind == "put":
            vs = [(j + 1) * 100 + k for k in range(rng.randint(1, 12))]; values += vs
            blocks.append([b">" + b"".join(s.num(v) + b"AP" + rng.choice((b"", b"z", b"AL$")) for v in vs) + s.flag(j) + b"@"])
        elif kind == "take": blocks.append(s.drain(s.flag(j) + b"@"))
        elif kind == "look": blocks.append([b">" + b"AL$z" * rng.randint(1, 12) + s.flag(j) + b"@"])
        else:
            vs = [(j + 1) * 100 + k for k in range(rng.randint(1, 8))]; values += vs
            blocks.append([b">" + b"".join(s.num(v) + b"AP" + rng.choice((b"AG.", b"AG.AG.", b"")) for v in vs) + s.flag(j) + b"@"])
    drain = s.drain(b"n" + s.num(code) + b"q")
    wait = s.loop(s.flags(n), b"")
    blocks.append(wait[:1] + [wait[1] + b"v", b" " * (len(wait[1])) + drain[0], b" " * len(wait[1]) + drain[1]])
    # IP 0 prints whatever it has, or only goes round
    tail = s.forever(rng.choice((b".z", b".", b"zz")))
    prefix = b"".join(s.num(v) for v in pre)
    order = list(range(len(blocks) - 1)); blocks = [blocks[k] for k in order] + blocks[-1:]
    return case(rng, s.lay(prefix, tail, blocks), ["code:%d" % code, "pool:%s" % ",".join(map(str, pre + values))], ["IIPC"])

def chain(rng):
    """Each child sleeps until woken, then wakes the next; the last one ends the program with the value it was woken with."""
    s = Sheet(rng); n = rng.randint(1, 6); code = rng.choice((3, 77, 200, 255, 300))
    wake = lambda j: s.forever(s.num(code) + s.num(j) + b"P")
    # ids run from 1 in the order of the splits
    blocks = []
    for j in range(1, n + 1):
        if j == n: blocks.append([b">n" + b"D" * rng.randint(1, 3) + b"q"])
        else:
            w = wake(j + 1); blocks.append([b">nD" + w[0], b"   " + w[1]])
    return case(rng, s.lay(b"", wake(1), blocks), ["woken"], ["IIPC"])

def parity(rng):
    """Children toggle a mode; the number of toggles decides which way a bracket turns."""
    s = Sheet(rng); n = rng.randint(2, 6); total = 0; blocks = []
    for j in range(n):
        k = rng.randint(1, 30); total += k
        blocks.append([b">" + b"S" * k + s.flag(j) + b"@"])
    # executing a bracket rewrites it in that mode
    wait = s.loop(s.flags(n), b"]")
    west = len(wait[1]) - 1
    top = [wait[0].ljust(west + 1), wait[1], b" " * west + b">7q"]; wait = []
    blocks.append(top + wait)
    return case(rng, s.lay(b"", [b"@"], blocks), ["code:7", "toggles:%d" % total], ["MODE"])

def storm(rng):
    """IPs toggle modes, move blocks and look at each other; only that the interpreter survives is decided."""
    s = Sheet(rng); n = rng.randint(1, 6); blocks = []
    for j in range(n):
        t = []
        for _ in range(rng.randint(3, 40)):
            t.append(rng.choice((b"I", b"Q", b"S", b"1{", b"2{", b"1}", b"0}", b"3", b":", b"\\", b"$", b"1u", b"02-{", b"0yn", b"z", b"n",
                                 b"AG", b"AL", b"5AP", b"%dG" % rng.randint(0, n), b"4%dP" % rng.randint(0, n), b"%dL" % rng.randint(0, n), b"ff*k:", b"aka")))
        blocks.append([b">" + b"".join(t) + rng.choice((b"@", b"@", b"3q"))])
    return case(rng, s.lay(b"", [b"".join(rng.choice((b"1", b"{", b"}", b":", b"I", b"Q", b"z")) for _ in range(20)) + b"@"], blocks), ["storm"], ["MODE", "IIPC"], steps=30000)

def rise(rng):
    """Children raise the number of dimensions: it never falls below what one has asked for."""
    s = Sheet(rng); n = rng.randint(1, 7); dims = [rng.randint(3, 9) for _ in range(n)]
    blocks = [[b">" + b"z" * rng.randint(0, 9) + b"n" + s.num(d - 1) + b"Z" + b"7yf1+*" + s.num(d) + b"+aa*+." + b"@"] for d in dims]
    return case(rng, s.lay(b"", [b"z" * rng.randint(0, 20) + b"@"], blocks), ["rise:%d" % n], ["NFUN"])

def meet(rng, kinds=None):
    return {"pool": pool, "chain": chain, "parity": parity, "storm": storm, "rise": rise}[kinds or rng.choice(("pool", "pool", "chain", "parity", "storm", "rise"))](rng)

def judge(case, res, rec, m):
    def V(kind, msg=""): return Verdict(kind, msg, m, rec, res)
    tags = dict(t.partition(":")[::2] for t in case.tags)
    if "storm" in tags and (res.status[0] == "memory" or b"std::length_error" in res.err or b"std::bad_alloc" in res.err or b"allocation-size-too-big" in res.err
                            or b"out of memory: allocator" in res.err and b"data race" not in res.err and b"use-after" not in res.err):
        return V("domain", "a block of an enormous size")
    if res.status[0] in ("signal", "sanitizer", "memory"):
        return V("violation", "abnormal end: %s\n%s" % (res.status, "\n".join(res.err.decode("latin-1").splitlines()[:40])))
    for k in tags:
        if k in ("pool", "storm", "rise"): m.features.add("meet-" + k)
    if "storm" in tags: return V("ok")
    if res.status[0] == "limit": return V("domain", "step limit")
    if res.status[0] == "hang": return V("violation", "the process does not end")
    code = int(tags.get("code", 0))
    if "woken" in tags: return V("ok") if res.status[0] == "exit" else V("violation", str(res.status))
    if res.status != ("exit", code): return V("violation", "%s, expected exit code %d" % (res.status, code))
    if "pool" in tags:
        want = sorted(int(v) for v in tags["pool"].split(",") if v)
        # a number is printed in one piece, its space may come later
        got = sorted(int(v) for v in re.findall(rb"0|\d\d\d", res.out.replace(b" ", b"")) if v != b"0")
        if got != want: return V("violation", "numbers put on and taken from IP 0's stack: missing %s, unexpected %s" % (
            sorted(set(want) - set(got))[:9], [v for v in got if v not in want or got.count(v) > 1][:9]))
    if "toggles" in tags:
        d = res.finals.get(0)
        if d is None or d.cells is None: return V("domain", "no final fungespace")
        odd = any(c == 91 for c in d.cells.values())
        if odd != bool(int(tags["toggles"]) % 2): return V("violation", "after %s toggles a bracket is executed %s switching" % (tags["toggles"], "with" if odd else "without"))
    if "rise" in tags:
        # each prints 16 times the number of dimensions plus its own wish
        n = [int(v) - 100 for v in re.findall(rb"\d\d\d", res.out.replace(b" ", b""))]
        if len(n) != int(tags["rise"]) or any(v // 16 < v % 16 or v // 16 > 9 for v in n):
            return V("violation", "numbers of dimensions and wishes: %s" % [divmod(v, 16) for v in n])
    return V("ok")

"""BeQunge and funge-lib program files, as the model reads them."""
import re
from model import *

def number(s):
    """A decimal number that fits in a cell (a CR may follow), or None."""
    x = re.match(rb"-?[0-9]+(?=\r|\Z)", s)
    if not x: return None
    n = int(x.group(0))
    return n if -2**63 <= n < 2**63 else None

def beq(u, data):
    lines = data.split(b"\n"); k = 0; dims = 0; f = u.field
    while k < len(lines):
        line = lines[k]; k += 1
        n = 0; origin = {}; dim = 0
        for c in line.split(b","):
            cmd = c.split(b" ")
            if len(cmd) < 2: continue
            def num(s, lo=-2**63, hi=2**63):
                x = number(s)
                if x is not None and lo <= x <= hi: return x
                u.m.features.add("malformed-number"); u.m.complaints = True
            if cmd[0] == b"Dimensions":
                x = num(cmd[1], 0, 65536)
                if x is not None and dims == 0: dims = x
            elif cmd[0] == b"Lines":
                x = num(cmd[1], 0)
                if x is not None: n = x
            elif cmd[0] == b"Origin":
                o = cmd[1].split(b":")
                for dim, x in enumerate(o):
                    x = num(x)
                    if x is not None: origin[dim] = x
                dim = len(o)
            elif cmd[0] == b"Coord":
                for x in cmd[1].split(b":"):
                    x = num(x) if x else None
                    if x is not None: origin[dim] = x
                    dim += 1
        if n > 100000: raise Domain("BeQunge lines")
        nd = max(list(origin) + [1]) + 1
        o = [origin.get(i, 0) for i in range(nd)]
        for j in range(n):
            if k >= len(lines): break
            p = list(o); p[1] += j
            for ch in lines[k]:
                f.put(p, ch); p[0] += 1
            k += 1
    if u.dims == 0: u.dims = dims or f.nd

def fl(u, data):
    z = 0; y = 0
    for line in data.split(b"\n"):
        if len(line) == 2 and line[:1] == b"=" and b"A" <= line[1:] <= b"Z":
            z = line[1] - 65; y = 0
            u.planes.append(line[1])
            continue
        for x, ch in enumerate(line): u.field.put((x, y, z), ch)
        y += 1
    if u.dims == 0: u.dims = 3

"""Generators for loading, file input and output, capabilities, the command line and memory safety."""
import os, random, re
import engine
from engine import Case
from gen import *
from check_base import Spec
from specs_core import RULE, case, gauntlet, dec, used, feat
import specs_core, model as M

def rcells(rng, n, extra=b""):
    return bytes(rng.choice(PRINT) if rng.random() < .6 else rng.choice((32, 32, 9, 1, 0, 127, 128, 160, 200, 255) + tuple(extra)) for _ in range(n))

def rtext(rng, dims=3, lines=None, seps=None):
    """Text with every mixture of line ends, form feeds, vertical tabs and blanks."""
    out = bytearray()
    seps = seps or rng.choice(([b"\n"], [b"\r\n"], [b"\r"], [b"\n", b"\r\n", b"\r"], [b"\n", b"\r", b"\n\r", b"\r\r\n"],
                               [b"\n", b"\x0c", b"\x0c\n"], [b"\n", b"\x0c", b"\x0b", b"\x0c\r\n", b"\x0b\n"], [b"\n", b"\n\n"]))
    for k in range(lines if lines is not None else rng.choice((1, 1, 2, 3, 5, 9))):
        x = rng.random()
        if x < .15: l = b""
        elif x < .3: l = b" " * rng.randint(1, 6) + rcells(rng, rng.randint(0, 4))
        elif x < .4: l = rcells(rng, rng.randint(60, 160))
        else: l = rcells(rng, rng.randint(0, 14))
        if rng.random() < .2: l += b" " * rng.randint(1, 5)
        out += l
        out += rng.choice(seps)
    if rng.random() < .4:
        while out and out[-1] in (10, 11, 12, 13): out.pop()
    return bytes(out)

def rbeq(rng):
    dims = rng.choice((1, 2, 2, 3, 3, 4, 5))
    L = []
    hdr = [b"Version 1", b"Dimensions %d" % dims]
    if rng.random() < .2: hdr = hdr[:1]
    if rng.random() < .2: hdr.reverse()
    sepd = b"," if rng.random() < .5 else b"\n"
    L.append(sepd.join(hdr))
    def org(n):
        return b":".join(b"%d" % rng.choice((0, 0, 0, 1, 2, rng.randint(-4, 9))) for _ in range(n))
    for _ in range(rng.randint(1, 4)):
        n = rng.randint(0, 4)
        parts = []
        if rng.random() < .8: parts.append(b"Origin " + org(rng.randint(1, dims + 1)))
        if rng.random() < .3: parts.append(b"Coord " + b":".join(rng.choice((b"", b"1", b"-2", b"0")) for _ in range(rng.randint(1, 2))))
        parts.append(b"Lines %d" % n)
        if rng.random() < .3: rng.shuffle(parts)
        L.append(b",".join(parts))
        for _ in range(n): L.append(rcells(rng, rng.randint(0, 12)).replace(b"\n", b" "))
    t = b"\n".join(L)
    if rng.random() < .15:
        # numbers that are none
        k = [x for x in re.finditer(rb"(?<=[ :])-?[0-9]+", t)]
        if k:
            x = rng.choice(k)
            bad = rng.choice((b"", b"x", b"1x", b"x1", b"+1", b"--1", b"-", b"0x1", b"1.5", b"9223372036854775808", b"-9223372036854775809", b"1\r", b"-1", b"65537"))
            t = t[:x.start()] + bad + t[x.end():]
    return t + (b"\n" if rng.random() < .7 else b"")

def rfl(rng):
    L = []
    for _ in range(rng.randint(0, 2)): L.append(rcells(rng, rng.randint(0, 8)))
    for _ in range(rng.randint(1, 5)):
        L.append(b"=" + bytes([rng.choice(b"ABCKXYZ")]))
        for _ in range(rng.randint(0, 4)):
            L.append(rcells(rng, rng.randint(0, 10)) if rng.random() < .8 else rng.choice((b"=a", b"=AB", b"=", b" =A", b"=1")))
    return b"\n".join(L) + (b"\n" if rng.random() < .7 else b"")

def walk(rng):
    """An opening that keeps an IP busy reading what was loaded."""
    return rng.choice((b"", b"", b'"', b"zz", b"1.", b"'", b"#", b">"))

def c08(rng, i):
    x = rng.random()
    if x < .6:
        std = rng.choice(("auto", "auto", "une98", "be98", "tre98", "be98", "une93", "be93"))
        a = [] if std == "auto" else ["-std=" + std]
        if rng.random() < .2: a.append("-fcells=" + rng.choice(("char", "int")))
        t = walk(rng) + rtext(rng)
        if not t.strip(b" \r\n\x0b\x0c"): t = b"@" + t
        name = rng.choice(("p.b98", "p.txt", "prog", "a.b.c", "x.bf", "f.fungelib", "p.BEQ"))
        return case(a, name, t, steps=rng.choice((1, 40)), stdin=b"1")
    if x < .82:
        a = [] if rng.random() < .7 else ["-std=" + rng.choice(("be98", "tre98", "une98"))]
        return case(a, "p.beq", rbeq(rng), steps=rng.choice((1, 40)), stdin=b"1")
    a = [] if rng.random() < .7 else ["-std=" + rng.choice(("tre98", "be98"))]
    return case(a, "p.fl", rfl(rng), steps=rng.choice((1, 40)), stdin=b"1")

def nt08(case_, v): return v.res.inits and (v.obs.map or v.kind == "ok")

# ---- C09
NAMES = ("f", "g.txt", "out", "d/h", "no/x", "d", "a b", "f.f", "deep/er/n")
def fname(rng, write=False):
    return rng.choice(NAMES if rng.random() < .5 else (NAMES[:4]))
def sname(g, n):
    """Code pushing a 0-terminated string."""
    b = n if isinstance(n, bytes) else n.encode("latin-1")
    return b'0"' + b[::-1] + b'"'
def c09(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3))
    a, n = std_args(rng, dims)
    g = TG(rng, dims); g.bigf = .3
    files = {}
    for nm in rng.sample(NAMES[:4], rng.randint(1, 3)):
        x = rng.random()
        files[nm] = rtext(rng) if x < .7 else (b"" if x < .8 else rcells(rng, rng.randint(0, 40), (10, 13, 11, 12)))
    dirs = ["d"] if rng.random() < .9 or "d/h" in files else []
    def at():
        v = [rng.choice((0, 1, -3, rng.randint(-8, 12), rng.randint(5, 40)))] + [rng.choice((2, 3, 5, rng.randint(-4, 12))) for _ in range(dims - 1)]
        if dims == 3 and rng.random() < .6: v[2] = rng.choice((0, 1))
        if dims == 1: v[0] += rng.choice((0, 150, 300))
        return v
    toks = []
    last = None
    for _ in range(rng.randint(1, 7)):
        x = rng.random()
        if x < .38:
            fl = rng.choice((0, 0, 0, 1, 1, 2, 3, 255, -1, 256, 1 << 33))
            nm = fname(rng)
            toks.append(g.vec(at()) + g.num(fl) + sname(g, nm) + b"i")
            if rng.random() < .2: last = nm
        elif x < .72:
            fl = rng.choice((0, 0, 0, 1, 1, 1, 2, 3, -1, 1 << 32))
            sz = [rng.randint(1, 30), rng.randint(1, 8), 1][:dims]
            if rng.random() < .5: sz = [rng.randint(1, 8), rng.randint(1, 4), 1][:dims]
            if rng.random() < .08: sz = [0] * dims
            nm = fname(rng, True)
            toks.append(g.vec(sz) + g.vec(at()) + g.num(fl) + sname(g, nm) + b"o")
            if rng.random() < .6:          # and read it back elsewhere
                toks.append(g.vec(at()) + g.num(rng.choice((0, 0, 1))) + sname(g, nm) + b"i")
        else:
            toks += g.stream(rng.randint(1, 3), {"put": 3, "putget": 2, "get": 2, "push": 1, "storage": 1.5, "farput": .5, "bigstore": .5})
    if rng.random() < .08: a = ["-fno-filesystem"] + a
    t = program(rng, toks, dims, styles=("row", "row", "snake", "col") if dims > 1 else None, end=rng.choice((b"@", b"@", b"#@")))
    return case(a, n, t, steps=900, files=files, dirs=dirs)

# ---- C14
CAPS = ("-fno-filesystem", "-fno-execute", "-fno-concurrent")
def load(name): return b'"' + name[::-1] + b'"4('
def c14(rng, i):
    args = []
    for c in CAPS:
        x = rng.random()
        if x < .6: args.append(c)
        elif x < .7: args += [c.replace("no-", ""), c]
        elif x < .8: args += [c, c.replace("no-", "")]
    rng.shuffle(args)
    dims = rng.choice((1, 2, 2, 2, 3))
    a, n = std_args(rng, dims)
    g = TG(rng, dims)
    files = {"f": b"abc\ndef\n", "x.b98": b"1.@"}
    def attempt():
        x = rng.random()
        v = lambda: g.vec([rng.randint(0, 9), rng.randint(12, 20), 0][:dims])
        nm = rng.choice((b"f", b"new", b"d", b"d/n", b"no/n"))
        if x < .16: return v() + g.small(0, 1) + sname(g, nm) + b"i"
        if x < .34: return g.vec([rng.randint(1, 5), rng.randint(1, 3), 1][:dims]) + v() + g.small(0, 1) + sname(g, nm) + b"o"
        if x < .46: return sname(g, rng.choice((b"ls", b"rm f", b"true", b"echo hi"))) + b"="
        if x < .58: return b"t"
        if x < .76: return load(b"DIRF") + sname(g, nm) + bytes([rng.choice(b"CMR")])
        if x < .88: return load(b"PERL") + rng.choice((b"", b"S")) + sname(g, rng.choice((b"1+1", b"exit(3)", b"7"))) + rng.choice((b"E", b"I"))
        if x < .91: return load(b"LIBU") + bytes([rng.choice(b"SIOTXMY")])
        if x < .95: return g.num(rng.choice((1, 0))) + b"y" + b"."
        return rng.choice((b"2k", b"1k", b"0k")) + rng.choice((b"t", b"=", b"i", b"o"))
    if rng.random() < .12:
        # the ><> family has its own file instructions
        al = b'"\'<>^v' + b"FFrlo;:a0123" + b"IFI"
        t = b'0"f"' + rng.choice((b"'f'F", b"\"f\"1F", b"1'f'1F", b"\"new\"3F12;")) + b"l3FlF;"
        return case(args, "p.sf", t, steps=200, files=files, dirs=["d"])
    toks = []
    for _ in range(rng.randint(1, 6)):
        toks.append(attempt())
        toks += g.stream(rng.randint(0, 2), {"push": 2, "put": 1, "stack": 1})
    if dims > 1 and rng.random() < .6:
        tests = []
        for k in toks:
            k = k.rstrip(b".")
            tests.append((k[:-1], k[-1], b""))
        t = b"\n".join(gauntlet(tests)) + b"\n"
    else: t = program(rng, toks, dims)
    return case(args + a, n, t, steps=900, files=files, dirs=["d"])
def nt14(case_, v):
    return v.obs.matched >= 5 and sum(v.model.ops.get(ord(c), 0) for c in "io=tyCMREFI") > 0

# ---- C28
def c28(rng, i):
    good = ["-std=be98", "-std=une98", "-std=tre98", "-std=be93", "-std=une93", "-fconcurrent", "-fno-concurrent", "-fexecute", "-fno-execute",
            "-ffilesystem", "-fno-filesystem", "-ftopo=torus", "-ftopo=lahey", "-fstrings=multispace", "-fstrings=sgml", "-fstrings=c",
            "-fcells=char", "-fcells=int", "-fthreads=funge", "-finvert-hl", "-lBOOL", "-lMODU", "-lORTH", "-lSTRN", "-lXXXX", "-l"]
    bad = ["-std=", "-std=be99", "-std=BE98", "-std=be981", "-std=be9", "-ftopo=", "-ftopo=flat", "-ftopo=toru", "-fstrings=", "-fstrings=C", "-fstrings=sgmll",
           "-fcells=", "-fcells=short", "-fthreads=", "-fthreads=posix", "-std=fishy", "-fcells=in"]
    args = [rng.choice(good) for _ in range(rng.randint(0, 6))]
    if rng.random() < .15: args.insert(rng.randint(0, len(args)), rng.choice(bad))
    if rng.random() < .12: args.insert(rng.randint(0, len(args)), rng.choice(("-std=fish", "-std=sfish")))
    std = [x for x in args if x.startswith("-std=")]
    last = std[-1] if std else ""
    dims = 1 if "une" in last else 3 if "tre" in last else 2
    s98 = "93" not in last and "fish" not in last
    g = TG(rng, dims, 98 if s98 else 93)
    name = rng.choice(("p.b98", "p", "p.txt", "a b.b98", "x.y.z", "p.bf", "-"[1:] + "q.b98", "p.fish", "p.sf")) if rng.random() < .85 else "p.bf"
    if not std and name == "p.bf": s98 = False; g = TG(rng, 2, 93)
    x = rng.random()
    toks = g.stream(rng.randint(0, 6), {"push": 3, "stack": 1, "arith": 1, "outnum": 1})
    end = b"@"
    if s98 and name[-3:] not in ("ish", ".sf"):
        if x < .6: end = g.num(rng.choice((0, 1, 2, 5, 22, 77, 86, 255, 256, 257, -1, -256, 300, 1 << 32, (1 << 32) + 7, -(1 << 63), rng.randint(0, 255)))) + b"q"
        if rng.random() < .4: toks.append(b"1y.1-" + b"y" * rng.randint(0, 1))
        if rng.random() < .4: toks.append(b"fy." if rng.random() < .5 else b"0y" + b"." * rng.randint(0, 60))
        if rng.random() < .15: toks.append(b"t")
    elif name[-3:] in ("ish", ".sf") and not std or "fish" in last:
        toks = [bytes([rng.choice(b"0123456789abcdefnnoo+-:l")]) for _ in range(rng.randint(1, 9))]; end = b";"
    t = toks_row(toks, end) if dims == 1 else b"".join(toks) + end + b"\n"
    if not s98: t = t[:79].rstrip(b"\n") + b"@\n" if len(t) > 79 else t
    more = [rng.choice(("a", "-std=une93", "-fno-execute", "hello world", "", "-", "--", "x" * 40, "\xe9", "-g")) for _ in range(rng.choice((0, 0, 1, 2, 4)))]
    env = ["%s=%s" % (rng.choice(("A", "PATH", "X")), rng.choice(("", "1", "a b=c"))) for _ in range(rng.choice((0, 1, 2)))]
    files = {name: t}
    y = rng.random()
    fn = [name]
    if y < .06: fn = [rng.choice(("missing.b98", "no/such.bf", "p.b99", "missing.beq", "missing.fl", "missing.fmv", "missing.fish"))]
    elif y < .1: fn = []; more = []
    elif y < .13: fn = [""]
    return Case(args + fn + more, files, stdin=rng.choice((b"", b"12")), steps=500, env=env)
def toks_row(toks, end): return b"".join(toks) + end + b"\n"
def nt28(case_, v): return True

# ---- C29
SEED = {"b98": b"0123456789abcdefghijklmnopqrstuvwxyz+-*/%!`<>^v_|?[]{}()#@:;\\$.,&~\"'=ABCDEFGHIJKLMNOPQRSTUVWXYZ \n",
        "fish": b"<>^v/\\|_#x!?.0123456789abcdef+-*,%=)(\"':~$@}{rl[]oi&gp;n \n",
        "sf": b"<>^v/\\|_#x!?.0123456789abcdef+-*,%=)(\"':~$@}{rl[]oi&gp;nIFCRLDSOu`hmsHMST \n"}
FPS = [b"BASE", b"BITW", b"BOOL", b"CPLI", b"DBUG", b"DIRF", b"FING", b"FISH", b"FIXP", b"FPDP", b"FPRT", b"FPSP", b"FRTH", b"HRTI", b"IIPC", b"JSTR",
       b"MODE", b"MODU", b"MVRS", b"NFUN", b"NULL", b"ORTH", b"PERL", b"REFC", b"ROMA", b"STRN", b"SUBR", b"TERM", b"TOYS"]
def c29(rng, i):
    x = rng.random()
    args = []
    if rng.random() < .4: args.append("-fstrings=" + rng.choice(("multispace", "sgml", "c")))
    if rng.random() < .2: args.append("-fcells=char")
    if rng.random() < .2: args.append("-ftopo=torus")
    if rng.random() < .1: args.append("-finvert-hl")
    stdin = rcells(rng, rng.randint(0, 30), (10, 13)) if rng.random() < .5 else specs_core.inputs(rng)
    def grid_(al, dens=None):
        w = rng.randint(3, 40); h = rng.randint(1, 12)
        t = b"\n".join(bytes(rng.choice(al) if rng.random() < (dens or .8) else 32 for _ in range(w)) for _ in range(h))
        if rng.random() < .2: t = t.replace(b"\n", b"\x0c", 1)
        return t
    if x < .12:        # any bytes at all, as any kind of file
        name = rng.choice(("p.b98", "p.bf", "p.beq", "p.fl", "p.fish", "p.sf", "p.fmv"))
        t = rcells(rng, rng.randint(0, 200), (10, 10, 10, 13, 11, 12, 44, 58)) if rng.random() < .5 else bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 200)))
        return Case(args + [name], {name: t}, stdin, steps=300)
    if x < .2:         # nearly well-formed BeQunge and funge-lib
        t = bytearray(rng.choice((rbeq, rfl))(rng))
        for _ in range(rng.randint(0, 6)):
            if t: t[rng.randrange(len(t))] = rng.choice(b"0123456789-:, \n" + b"\xff\x00=A")
        if rng.random() < .4: t = t.replace(b"Dimensions ", b"Dimensions %d" % rng.choice((9, 0, -1, 64, 10**10)), 1)
        return Case(args + [rng.choice(("p.beq", "p.fl"))][:1], {"p.beq": bytes(t), "p.fl": bytes(t)}, stdin, steps=300)
    if x < .45:        # a fingerprint hammered
        fps = rng.sample(FPS, rng.choice((1, 1, 2, 3)))
        args += ["-l" + f.decode() for f in fps]
        dims = rng.choice((1, 2, 2, 3))
        args.append("-std=" + {1: "une98", 2: "be98", 3: "tre98"}[dims])
        g = TG(rng, dims)
        toks = []
        for _ in range(rng.randint(5, 25)):
            y = rng.random()
            if y < .45: toks.append(bytes([rng.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ")]))
            elif y < .7: toks.append(g.push())
            elif y < .8: toks.append(g.small(0, 20))
            elif y < .9: toks.append(g.string())
            else: toks += g.stream(1, {"stack": 1, "block": 1, "put": 1, "fetch": 1, "iterate": 1, "store": 1})
        if rng.random() < .15: toks.insert(rng.randint(0, len(toks)), b"t")
        t = program(rng, toks, dims, end=rng.choice((b"@", b"r", b"")))
        return Case(args + ["p.b98", "arg"], {"p.b98": t, "f": b"data\n"}, stdin, steps=400, env=["A=b"])
    if x < .6:         # ><> family
        ext = rng.choice(("fish", "sf", "sf"))
        t = grid_(SEED[ext])
        return Case([a for a in args if "topo" not in a] + ["p." + ext], {"p." + ext: t, "f": b"text"}, stdin, steps=400)
    if x < .72 :       # random befunge-98 soup with fingerprints preloaded
        fps = rng.sample(FPS, rng.choice((0, 0, 2, 6)))
        args += ["-l" + f.decode() for f in fps]
        if rng.random() < .5: args.append("-std=" + rng.choice(("une98", "be98", "tre98", "be93", "une93")))
        return Case(args + ["p.b98"], {"p.b98": grid_(SEED["b98"]), "f": b"x"}, stdin, steps=400)
    # cross-fire: the generators of the other properties, under foreign options
    import specs_fish, specs_fp
    specs = {**specs_core.SPECS, **specs_fp.SPECS, **specs_fish.SPECS}
    p = rng.choice(sorted(specs))
    c = specs[p].generate(rng, i)
    if c is None: return None
    extra = list(args)
    rng.shuffle(extra)
    c.args = extra[:2] + c.args
    files = dict(c.files)
    for nme in list(files):
        d = bytearray(files[nme])
        for _ in range(rng.choice((0, 1, 2, 8))):
            if d: d[rng.randrange(len(d))] = rng.choice(SEED["b98"])
        files[nme] = bytes(d)
    c.files = files
    return c

RESOURCE = ("bad_alloc", "length_error", "allocation-size-too-big", "out of memory", "requested allocation size", "out-of-memory", "std::filesystem", "max_size")
def judge29(case_, res):
    """Only the way the run ended is judged."""
    class O: matched = len(res.trace); tolerated = 0
    m = M.Model(None)
    for s in res.trace: m.ops[s.inst] = m.ops.get(s.inst, 0) + 1
    k = res.status[0]
    err = res.err.decode("latin-1")
    if k in ("exit", "limit"): return engine.Verdict("ok", "", m, O, res)
    if k == "memory" or any(r in err for r in RESOURCE): return engine.Verdict("domain", "asks for more memory than there is", m, O, res)
    if k == "hang": return engine.Verdict("domain", "one instruction runs for very long", m, O, res)
    return engine.Verdict("violation", "abnormal end: %s\n%s" % (res.status, "\n".join(err.splitlines()[:14])), m, O, res)
def nt29(case_, v): return True

R29 = "Hostile generated programs, files, input and options run on the ASan+UBSan build; every way of ending other than an exit code or the " \
      "step limit is a violation, except running out of memory.  Distinct by program, input and options; non-trivial: every run."
R08 = "Generated files of every format and line-end mixture are loaded by the ASan+UBSan build; the whole fungespace, bounds and dimensions after " \
      "loading are compared with an independent loader, then execution in lock step.  Non-trivial: the loaded space was compared."
R28 = "Generated command lines run on the ASan+UBSan build; which program runs, under which options, with which arguments (seen through y), " \
      "and the exit status are compared with a model of the documented contract.  Non-trivial: every run, distinct by command line and program."
SPECS = {
    "C08": Spec("C08", c08, R08, 8000, 120000, nt08),
    "C09": Spec("C09", c09, RULE % "one i or o executed", 6000, 100000, dec(feat("filein", "fileout"))),
    "C14": Spec("C14", c14, RULE % "one capability exercised", 6000, 100000, nt14),
    "C28": Spec("C28", c28, R28, 6000, 100000, nt28),
    "C29": Spec("C29", c29, R29, 6000, 150000, nt29, judge29),
}

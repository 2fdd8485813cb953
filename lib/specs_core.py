"""Generators for the properties of the core language."""
import random
from engine import Case
from gen import *
from check_base import Spec

RULE = "Generated programs run on the ASan+UBSan build; every instruction's machine state (IP, delta, storage offset, " \
       "stacks, instruction) is compared with an independent model, plus output, exit code, files, fungespace and bounds. " \
       "Non-trivial: at least %s; distinct by program, input and options."

def case(args, name, text, **kw):
    return Case(list(args) + [name] + list(kw.pop("more", [])), {name: text, **kw.pop("files", {})}, **kw)

def pick_std(rng, w98=.8):
    if rng.random() < w98:
        dims = rng.choice((1, 2, 2, 2, 2, 3)); std = 98
    else:
        dims = rng.choice((1, 2, 2)); std = 93
    a, n = std_args(rng, dims, std)
    return dims, std, a, n

# ---- C01
P01 = {"push": 4, "arith": 10, "stack": 4, "hexdigit": 1, "outnum": .6, "out": .4}
def c01(rng, i):
    dims, std, a, n = pick_std(rng, .8)
    g = TG(rng, dims, std)
    toks = g.stream(rng.randint(10, 60), P01)
    if rng.random() < .15:          # deep stacks
        toks = [b"".join(g.push() for _ in range(rng.randint(30, 80)))] + toks
    if rng.random() < .3:            # underflow
        toks = [b"n"] + [bytes([rng.choice(b"+-*/%!`:\\$")]) for _ in range(rng.randint(1, 5))] + toks if std == 98 else \
            [bytes([rng.choice(b"+-*/%!`:\\$")]) for _ in range(rng.randint(1, 5))] + toks
    if std == 93:
        t = program(rng, toks, dims, std, data=False, styles=("snake",)) if dims == 2 else toks_trim(toks, 78)
        if dims == 2:
            # the torus is 80x25: keep the program inside it
            toks2 = []; tot = 0
            for k in toks:
                if len(k) > 60: continue
                tot += len(k)
                if tot > 900: break
                toks2.append(k)
            t = b"\n".join(lay_snake(toks2, 70)[:25]) + b"\n"
    else: t = program(rng, toks, dims, std, data=rng.random() < .3)
    return case(a, n, t, steps=1500)
def toks_trim(toks, n):
    out = b""
    for k in toks:
        if len(out) + len(k) > n: break
        out += k
    return out + b"@\n"

# ---- C02
def dice(rng):
    """Wandering over a field of ?, which is a choice in every step."""
    dims = rng.choice((1, 2, 2, 3, 3, 4)); a, n = std_args(rng, dims) if dims < 4 else ([], "p.b98")
    if dims == 2 and rng.random() < .3: a, n = rng.choice(((["-std=be93"], "p.txt"), ([], "p.bf")))
    w = rng.randint(3, 9)
    plane = lambda: b"\n".join(b"?" * w for _ in range(1 if dims == 1 else rng.randint(2, 5)))
    cube = lambda: plane() if dims < 3 else b"\f".join(plane() for _ in range(rng.randint(2, 3)))
    t = cube() if dims < 4 else b"\v".join(cube() for _ in range(2))
    if rng.random() < .4 and "93" not in str(a) and n != "p.bf": t = b"t" * rng.choice((1, 1, 2)) + t[2:]
    return case(a, n, t + b"\n", steps=rng.choice((100, 300)))
FLOW2 = b"<>^v<>^v_|?[]wrx#j;" + b"<>^v[]r"
def c02(rng, i):
    x = rng.random()
    if x < .02: return dice(rng)
    dims = rng.choice((1, 2, 2, 2, 3, 3))
    flow = {1: b"<><>_r#j;?<x", 2: FLOW2, 3: FLOW2 + b"hlmhlm" * 2}[dims]
    a, n = std_args(rng, dims)
    if rng.random() < .12 and dims < 3:
        a, n = std_args(rng, dims, 93); flow = {1: b"<>_#?<>", 2: b"<>^v_|?#<>^v"}[dims]
        if rng.random() < .3: a = a + ["-ftopo=lahey"]
    elif rng.random() < .08: a = a + ["-ftopo=torus"]
    if dims == 3 and rng.random() < .3: a = ["-finvert-hl"] + a
    if x < .5:
        extra = b"0123456789" if "93" in " ".join(a) else b"0123456789abcdfz:\\!`+-$"
        # sparse flow instructions among harmless ones
        k = rng.choice((1, 2, 4))
        t = grid_program(rng, dims, flow * k + extra, rng.choice((.05, .15, .3, .6, .9)))
        if rng.random() < .4: t = b"\n" * rng.randint(1, 3) + t if dims >= 2 else t
        return case(a, n, t, steps=rng.choice((150, 400)))
    if x < .8:
        # a flying delta over a random field: reversible wrapping
        g = TG(rng, dims)
        d = [rng.choice((0, 1, -1, 2, -2, 3, -3, 5, -7, 11, rng.randint(-30, 30))) for _ in range(dims)]
        if "93" in " ".join(a): return c02(rng, i)
        t = grid_program(rng, dims, b"zz0123:+!" + flow if rng.random() < .4 else b"zzzzzr01#", rng.choice((.1, .3, .6)),
                         w=rng.randint(8, 40), h=rng.randint(2, 9))
        head = g.vec(d) + b"x"
        lines = t.split(b"\n"); lines[0] = head + lines[0][len(head):]
        t = b"\n".join(lines)
        return case(a, n, t, steps=400)
    g = TG(rng, dims, 93 if "93" in " ".join(a) else 98)
    if g.std == 93:
        toks = g.stream(rng.randint(3, 12), {"push": 2, "tramp": 3, "arith": 1, "space": 1})
        t = b"\n".join(lay_snake(toks, 60)[:25]) + b"\n" if dims == 2 else toks_trim(toks, 78)
    else:
        toks = g.stream(rng.randint(8, 40), {"push": 2, "tramp": 3, "jump": 4, "skipsec": 3, "space": 2, "noop": 1, "branch0": 2, "negjump": 1, "cmp": 1})
        t = program(rng, toks, dims, 98)
    return case(a, n, t, steps=500)

# ---- C03
def c03(rng, i):
    combo = rng.choice(("une93", "be93", "une98", "be98", "tre98", "be93", "bf", "auto", "be98", "opts", "opts"))
    args = []; name = "p.b98"; dims = 2; std = 98
    if combo in ("une93", "une98"): args = ["-std=" + combo]; dims = 1; std = int(combo[-2:])
    elif combo in ("be93", "be98"): args = ["-std=" + combo]; std = int(combo[-2:])
    elif combo == "tre98": args = ["-std=tre98"]; dims = 3
    elif combo == "bf": name = "p.bf"; std = 93
    elif combo == "auto": dims = rng.choice((1, 2, 3))
    else:
        args = ["-std=" + rng.choice(("une93", "be93", "be93", "be98", "une98", "tre98"))]
        std = int(args[0][-2:]); dims = {"u": 1, "b": 2, "t": 3}[args[0][5]]
    if combo == "opts" or rng.random() < .15:
        if rng.random() < .5: args.append("-ftopo=" + rng.choice(("torus", "lahey")))
        if rng.random() < .5: args.append("-fcells=" + rng.choice(("char", "int")))
        if rng.random() < .5: args.append("-fstrings=" + rng.choice(("multispace", "sgml", "c")))
        if rng.random() < .2: rng.shuffle(args)
    g = TG(rng, dims, std)
    x = rng.random()
    if x < .55:
        tests = []
        for _ in range(rng.randint(4, 11)):
            c = rng.choice(PRINT) if rng.random() < .8 else rng.choice((1, 2, 7, 27, 128, 160, 195, 255, 0))
            if rng.random() < .3: c = rng.choice(b"hlm[]wxjkst;'{}unyzq()io=rabcdef~&")
            pre = b"".join(g.small() for _ in range(rng.randint(0, 3)))
            tests.append((pre, c, b""))
        if dims == 1:
            t = b"".join(p + b"#@" + bytes([c]) for p, c, q in tests) + b"@"
            if combo != "auto": t = t[:78]
        else: t = b"\n".join(gauntlet(tests))
        if dims == 3: t += b"\n\x0c" + b"\n".join(grid(rng, 20, 4, b"hlm @v^<>1", .4))
        t += b"\n"
        return case(args, name, t, steps=400, stdin=b"42 x\n")
    if x < .8:
        # torus against lahey edges: programs larger or smaller than 80x25
        w = rng.choice((10, 40, 79, 80, 81, 100)); h = 1 if dims == 1 else rng.choice((1, 3, 24, 25, 26, 30))
        flow = b"<>^v" if dims > 1 else b"<>"
        t = grid_program(rng, dims, flow + b"0123456789:+#!" + (b"_|" if dims > 1 else b"_"), rng.choice((.02, .05, .1)), w=w, h=h)
        lines = t.split(b"\n")
        lines[0] = rng.choice((b"<", b"^" if dims > 1 else b"<", b"v" if dims > 1 else b"<", b">")) + lines[0][1:]
        return case(args, name, b"\n".join(lines), steps=400)
    # cell size: values that do not fit 8 bits through p, g, s and '
    toks = []
    for _ in range(rng.randint(3, 10)):
        v = rng.choice((127, 128, 255, 256, 300, -1, -128, -129, 65536 + 65, 1000, 32 + 256))
        c = [rng.randint(0, 5), rng.randint(3, 8)][:dims] + [0] * (dims - 2)
        toks.append(g.num(v) + g.vec(c) + b"p" + g.vec(c) + b"g" + b".")
        if rng.random() < .4: toks.append(g.string())
    if std == 93: t = b"\n".join(lay_snake(toks, 72)[:25]) + b"\n" if dims == 2 else toks_trim(toks, 78)
    else: t = program(rng, toks, dims, std, styles=("row", "snake"))
    return case(args, name, t, steps=800)

def gauntlet(tests, collect=True):
    """Rows testing instructions one after the other, going on whether or not an instruction reflects."""
    rows = []
    for k, (pre, c, post) in enumerate(tests):
        body = (b">" if k else b" ") + pre + b"#v" + bytes([c]) + post + b"v"
        W = len(body)
        rows.append(body)
        rows.append(b"v" + b"<" * (W - 1))
    rows.append(b"@")
    return rows

# ---- C04
def c04(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3)); std = 98
    if rng.random() < .2 and dims < 3: std = 93
    a, n = std_args(rng, dims, std)
    style = "multispace" if std == 93 else "sgml"
    if rng.random() < .5:
        style = rng.choice(("multispace", "sgml", "c")); a = a + ["-fstrings=" + style]
    g = TG(rng, dims, std)
    prof = {"string": 6, "push": 1, "space": .5}
    if style == "c": prof["cstring"] = 8
    if std == 98: prof.update({"fetch": 3, "store": 2, "arith": 1, "bigstore": 1.5, "fetchput": 1.5})
    toks = g.stream(rng.randint(3, 16), prof)
    x = rng.random()
    if x < .15:
        # strings that cross the edge
        t = b"".join(toks)
        cut = rng.randint(0, len(t))
        t = t[cut:] + b" " * rng.randint(0, 5) + t[:cut]
        return case(a, n, t + b"\n" + (b"z\n" if dims > 1 else b""), steps=300)
    if std == 93: t = b"\n".join(lay_snake(toks, 72)[:25]) + b"\n" if dims == 2 else toks_trim(toks, 78)
    else: t = program(rng, toks, dims, std)
    return case(a, n, t, steps=900)

# ---- C05
P05 = {"put": 5, "get": 5, "putget": 4, "putsp": 3, "farput": 4, "push": 1, "stack": .5, "storage": 1, "store": 1, "fetchput": 1}
def c05(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3)); std = 98
    a, n = std_args(rng, dims)
    g = TG(rng, dims)
    x = rng.random()
    if x < .6:
        toks = g.stream(rng.randint(5, 40), P05)
        t = program(rng, toks, dims)
        return case(a, n, t, steps=1500)
    if x < .85:
        # code written at run time, executed on the way round; bounds growing and shrinking move the wrap point
        toks = g.stream(rng.randint(3, 12), P05)
        total = sum(map(len, toks))
        for _ in range(rng.randint(2, 10)):
            c = rng.choice(b"+-:\\$.z1234abcr<>#" )
            p = [rng.choice((rng.randint(0, 60), rng.randint(total, total + 60), -rng.randint(1, 20)))] + ([rng.choice((0, 0, 0, rng.randint(-3, 4)))] if dims > 1 else []) + [0] * (dims - 2)
            toks.append(g.num(c) + g.vec(p) + b"p")
        rng.shuffle(toks)
        end = rng.choice((b"", b"", b"r", b"@"))
        t = program(rng, toks, dims, styles=("row", "row", "west", "fly"), end=end)
        return case(a, n, t, steps=900)
    # self-modifying random grids
    t = grid_program(rng, dims, b"0123456789abcdef:+-\\pgpg" + (b"<>^v" if dims > 1 else b"<>") + b"'s", .8)
    return case(a, n, t, steps=500)

# ---- C06
def c06(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3))
    a, n = std_args(rng, dims)
    g = TG(rng, dims)
    g.bigf = .1
    x = rng.random()
    if x < .75:
        toks = []
        for _ in range(rng.randint(3, 14)):
            toks += g.stream(rng.randint(0, 4), {"push": 3, "stack": 1, "string": .3})
            toks.append(g.iterate())
        if rng.random() < .06: toks.append(g.small() + g.small() + g.small(0, 3) + g.small(0, 4) + b"k" + rng.choice((b"q", b"@", b"t")))
        t = program(rng, toks, dims)
        return case(a, n, t, steps=900, stdin=b"1 2 3\n")
    if x < .9:
        # moving or failing instructions under k, in a grid
        t = grid_program(rng, dims, b"kkkkk0123456789[]r#j;'\"tx{}u" + (b"<>^v|w" if dims > 1 else b"<>") + b"_:$+A@", rng.choice((.6, .9)))
        return case(a, n, t, steps=250)
    rows = []
    tests = []
    for _ in range(rng.randint(2, 6)):
        tests.append((g.small() + g.small(0, 4), 107, bytes([rng.choice(b"r}uAi(BC~&<>[]t#;z")])))
    t = b"\n".join(gauntlet(tests)) + b"\n" if dims > 1 else b"".join(p + b"k" + q for p, c, q in tests) + b"@\n"
    return case(a, n, t, steps=300)

# ---- C07
def c07(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3))
    a, n = std_args(rng, dims)
    g = TG(rng, dims)
    x = rng.random()
    if x < .8:
        toks = g.stream(rng.randint(6, 40), {"push": 3, "block": 8, "stack": 1, "putget": .7, "get": .5, "arith": .5, "clear": .3, "balanced": 2})
        t = program(rng, toks, dims, data=rng.random() < .5)
        return case(a, n, t, steps=1500)
    tests = []
    for _ in range(rng.randint(2, 8)):
        tests.append((b"".join(g.push() for _ in range(rng.randint(0, 3))) + g.num(rng.choice((0, 1, 2, 3, -1, -2, 6))), rng.choice(b"}u{}u"), b""))
    if dims == 1: t = b"".join(p + bytes([c]) for p, c, q in tests) + b"@\n"
    else: t = b"\n".join(gauntlet(tests)) + b"\n"
    return case(a, n, t, steps=400)

# ---- C10
def c10(rng, i):
    dims = rng.choice((1, 2, 2, 3))
    a, n = std_args(rng, dims)
    for o in ("-fno-concurrent", "-fno-execute", "-fno-filesystem"):
        if rng.random() < .25: a = [o] + a
    g = TG(rng, dims)
    toks = g.stream(rng.randint(0, 8), {"push": 4, "block": 2, "putget": 1, "farput": 1, "store": .4})
    if rng.random() < .25: toks = [b"t" if rng.random() < .5 else b"tt"] + toks
    for _ in range(rng.randint(1, 4)):
        toks.append(g.num(rng.choice((0, 0, -1, rng.randint(1, 20), rng.randint(1, 70), rng.randint(20, 200), -(1 << 40), 1 << 33, (1 << 32) + 1 + rng.randint(0, 20)))) + b"y")
        if rng.random() < .6: toks.append(b"n")
        toks += g.stream(rng.randint(0, 2), {"push": 3, "block": 1, "putget": 1})
    env = ["%s=%s" % (rng.choice(("A", "HOME", "X1", "LONGNAME")), "v" * rng.randint(0, 9)) for _ in range(rng.choice((0, 0, 1, 3)))]
    more = [rng.choice(("a", "bc", "-x", "hello world", "0", "")) for _ in range(rng.choice((0, 0, 1, 2, 3)))]
    styles = ("row", "snake", "col", "west", "fly")
    t = program(rng, toks, dims, styles=styles)
    return case(a, n, t, steps=800, env=env, more=more)

# ---- C11
def inputs(rng):
    out = b""
    for _ in range(rng.randint(0, 8)):
        out += rng.choice((b"%d" % rng.randint(0, 99999), b" ", b"\n", b"\r\n", b"\r", b"abc", b"-5", b"12a34", b"\xff\x80", b"\x00", b"9223372036854775807",
                           b"99999999999", b"007", b".", b"+3", b"\t", b"\n\n", b"-", b"4294967296"))
    return out
def c11(rng, i):
    dims, std, a, n = pick_std(rng, .8)
    g = TG(rng, dims, std)
    toks = g.stream(rng.randint(4, 40), {"push": 2, "outnum": 5, "outch": 5, "inp": 5, "out": 2, "stack": 1, "string": .5})
    inp = inputs(rng)
    if rng.random() < .25:
        tests = []
        for _ in range(rng.randint(2, 10)):
            tests.append((b"", rng.choice(b"&~"), rng.choice((b"", b".", b","))))
        if dims == 1: t = b"".join(b"#@" + bytes([c]) + q for p, c, q in tests)[:78] + b"@\n"
        else: t = b"\n".join(gauntlet(tests)) + b"\n"
    elif std == 93: t = b"\n".join(lay_snake([k for k in toks if len(k) < 60], 72)[:25]) + b"\n" if dims == 2 else toks_trim(toks, 78)
    else:
        if rng.random() < .2: toks.insert(0, b"t")
        t = program(rng, toks, dims, std)
    return case(a, n, t, steps=900, stdin=inp)

# ---- C12
CONC = b"tttt<>^v<>^v[]r_|#@0123:+.,gp'\\$kz;q"
def c12(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3))
    a, n = std_args(rng, dims)
    x = rng.random()
    if rng.random() < .06: a = ["-fno-concurrent"] + a
    if x < .5:
        alpha = rng.choice((b"t<>^v[]r#0123:+.zz", CONC, b"tt<>^v@@:.1zz", b"t<>^v_|:1+.sz'g p{}u()"))
        if dims == 1: alpha = bytes(c for c in alpha if c not in b"^v[]|")
        t = grid_program(rng, dims, alpha, rng.choice((.15, .3, .5, .8)))
        return case(a, n, t, steps=rng.choice((200, 500)), stdin=b"5 6 7 8")
    if x < .8:
        # several IPs running the same straight code in opposite directions, sharing cells and output
        g = TG(rng, dims)
        toks = [g.push() for _ in range(rng.randint(0, 4))]
        for _ in range(rng.randint(1, 4)):
            toks += g.stream(rng.randint(0, 5), {"push": 2, "putget": 2, "outnum": 2, "stack": 1, "block": 1, "store": .5, "string": .5, "iterate": .3, "space": .5})
            toks.append(rng.choice((b"t", b"t", b"#@t", b"2kt", b"tr#@")))
        toks += g.stream(rng.randint(0, 6), {"push": 2, "putget": 2, "outnum": 2, "get": 1})
        end = rng.choice((b"@", b"@", g.num(rng.choice((0, 1, 7, 255, 256, -1))) + b"q", b""))
        t = program(rng, toks, dims, end=end)
        return case(a, n, t, steps=700)
    g = TG(rng, dims)
    # race between q of one IP and output of others
    toks = [b"t"] + g.stream(rng.randint(0, 6), {"push": 2, "outnum": 2, "noop": 2}) + [g.num(rng.choice((0, 3, 300, -1))) + rng.choice((b"q", b"@", b"q", b"t"))]
    toks += g.stream(rng.randint(1, 5), {"push": 2, "outnum": 3})
    t = program(rng, toks, dims, end=rng.choice((b"@", b"q", b"")))
    return case(a, n, t, steps=400)

# ---- C30
def c30(rng, i):
    dims = rng.choice((1, 2, 2, 2, 3)); std = rng.choice((98, 98, 98, 93))
    if std == 93 and dims == 3: dims = 2
    a, n = std_args(rng, dims, std)
    if std == 98:
        for o in ("-fno-concurrent", "-fno-execute", "-fno-filesystem"):
            if rng.random() < .2: a = [o] + a
    g = TG(rng, dims, std)
    fails98 = [(b"", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"), (b"", b"}u"), (b"1234(", b""), (b'"XYXY"4', b"()"), (b"", b"~&"), (b'0"none"', b"i"), (b'0"no/file"', b"o"),
               (b'0"ls"', b"="), (b"", b"t"), (b"", b"\x01\x02\x7f\x80\xfe\x1b\x00"), (b"0", b"()"), (b"12k", b"A"), (b"02-3k", b"BC"), (b"3k", b"}"), (b"0k", b"A")]
    fails93 = [(b"", b"ABCDEFabcdefghijklmnopqrstuwxyz{}[]();='" if dims == 2 else b"^v|ABCabcxyz[]{}"), (b"", b"~&"), (b"", b"\x01\x7f\xff")]
    tests = []
    for _ in range(rng.randint(1, 9)):
        p, cs = rng.choice(fails98 if std == 98 else fails93)
        if not cs: continue
        tests.append((p, rng.choice(cs), rng.choice((b"", b"1.", b"z"))))
    if rng.random() < .3:
        alpha = (b"<>^v" if dims > 1 else b"<>") + b"ABCDEFZ}u)~&01" + (b"t[]r" if std == 98 else b"")
        t = grid_program(rng, dims, alpha, rng.choice((.2, .4, .7)))
    elif dims == 1:
        t = b"".join(p + bytes([c]) + q for p, c, q in tests)[:70] + b"@\n"
    else:
        t = b"\n".join(gauntlet(tests)[:25 if std == 93 else 99]) + b"\n"
        if std == 98 and rng.random() < .3: t = b"t" + t[1:]
    return case(a, n, t, steps=400, stdin=rng.choice((b"", b"", b"7", b"a")))

def dec(pred=None, k=5):
    def f(case, v): return v.obs.matched >= k and (pred is None or pred(v))
    return f
def used(chars, n=1):
    s = [ord(c) for c in chars]
    return lambda v: sum(v.model.ops.get(c, 0) for c in s) >= n
def feat(*names): return lambda v: any(x in v.model.features for x in names)

SPECS = {
    "C01": Spec("C01", c01, RULE % "3 arithmetic or stack instructions executed", 6000, 120000, dec(used("+-*/%!`:\\$n", 3))),
    "C02": Spec("C02", c02, RULE % "3 flow instructions executed or the edge crossed", 6000, 120000, dec(lambda v: used("<>^v_|?[]wrx#jhlm;", 3)(v) or feat("wrap", "torus-wrap")(v))),
    "C03": Spec("C03", c03, RULE % "5 instructions executed under the chosen dialect and options", 6000, 100000, dec()),
    "C04": Spec("C04", c04, RULE % "one string, fetch or store executed", 6000, 100000, dec(used("\"'s"))),
    "C05": Spec("C05", c05, RULE % "2 reads or writes of fungespace", 6000, 100000, dec(used("gp's", 2))),
    "C06": Spec("C06", c06, RULE % "one iterate executed", 6000, 100000, dec(used("k"))),
    "C07": Spec("C07", c07, RULE % "2 stack-stack instructions executed", 6000, 100000, dec(used("{}u", 2))),
    "C10": Spec("C10", c10, RULE % "one y executed", 4000, 80000, dec(used("y"))),
    "C11": Spec("C11", c11, RULE % "2 input or output instructions executed", 6000, 100000, dec(used(".,&~", 2))),
    "C12": Spec("C12", c12, RULE % "one IP split", 5000, 100000, dec(feat("split"))),
    "C30": Spec("C30", c30, RULE % "one failing instruction", 6000, 100000, dec(feat("error"))),
}

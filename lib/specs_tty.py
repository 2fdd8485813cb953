"""Generators and oracle for C33: standard input is a terminal."""
import engine, random
from engine import Case
from gen import *
from check_base import Spec
from specs_core import RULE, case, pick_std, toks_trim, gauntlet
from specs_fish import FG, fish_args
import model as M

def typed(rng):
    """What is typed: printable characters and line ends, more than any program reads."""
    out = b""
    for _ in range(rng.randint(0, 15)):
        out += rng.choice((b"1", b"42 ", b"x", b"abc", b" ", b"\n", b"-7 ", b"9223372036854775807 ", b"\xe9", b"0 0", b"\n\n", b"~~", b"\xff"))
    return out + b"7 3\n" * rng.randint(0, 10) + b"5 " * 1200

def c33(rng, i):
    x = rng.random(); pty = "pty=%d" % rng.choice((1, rng.randint(2, 10 ** 6)))
    if x < .15:
        # two or more native threads reading
        k = rng.randint(1, 12); code = b"".join(rng.choice((b"~$", b"&$", b"~$z")) for _ in range(k))
        t = b"t" + code + rng.choice((b"@", b"@", b"q")) + code + b"\n"           # the second IP goes west, through the end of the line
        return case(["-std=be98", "-fthreads=native"], "p.b98", t, stdin=typed(rng), steps=20000,
                    opts=[pty, "light=1", "perturb=%d" % rng.randint(1, 10 ** 6)], tags=("native",))
    if x < .4:
        a, n = fish_args(rng, rng.random() < .4); g = FG(rng, "sf" in str(a) + n)
        toks = g.stream(rng.randint(3, 20), {"push": 2, "inp": 6, "outn": 2, "outc": 1, "stack": 1, "cond": .5})
        if rng.random() < .2: toks.append(b"A")
        return case(a, n, b"".join(toks) + b";\n", stdin=typed(rng), steps=600, opts=[pty])
    dims, std, a, n = pick_std(rng, .8); g = TG(rng, dims, std)
    toks = g.stream(rng.randint(3, 25), {"push": 2, "outnum": 2, "outch": 2, "inp": 7, "stack": 1})
    if std == 98 and rng.random() < .25:
        # the settings are changed by a command
        for _ in range(rng.randint(1, 3)): toks.insert(rng.randint(0, len(toks)), b'0"ytts"=' + rng.choice((b"", b"$")))
    if rng.random() < .2: toks = toks[:4] + [b"~" if rng.random() < .5 else b"&", b"q"]
    if std == 93: t = b"\n".join(lay_snake([k for k in toks if len(k) < 60], 72)[:25]) + b"\n" if dims == 2 else toks_trim(toks, 78)
    else:
        if rng.random() < .2: toks.insert(0, b"t")
        t = program(rng, toks, dims, std)
    return case(a, n, t, stdin=typed(rng), steps=600, opts=[pty])

class Watch:
    """Stands for the observer of runs whose steps are not compared."""
    def __init__(self, res): self.matched = len(res.light); self.tolerated = 0; self.chosen = {}

def judge(case, res, **kw):
    native = "native" in case.tags
    if res.status == ("exit", 95): return engine.Verdict("domain", "no terminal here", None, Watch(res), res)
    if native:
        v = engine.Verdict("ok", "", None, Watch(res), res)
        t = case.files["p.b98"].rstrip().replace(b"q", b"@").split(b"@")
        if len(t) != 2 or b" " in t[0] or t[0][:1] != b"t": return engine.Verdict("domain", "another program", None, Watch(res), res)
        if res.status[0] != "exit" or (res.status[1] and b"q" not in case.files["p.b98"]):
            v.kind = "violation"; v.msg = "native threads reading from a terminal: %s" % (res.status,)
    else:
        v = engine.judge(case, res, **kw)
        if v.model is not None and v.model.inpos >= len(v.model.stdin): return engine.Verdict("domain", "everything typed was read", v.model, v.obs, res)
    if v.kind != "violation":
        if any(e[1] == "termios-end" for e in res.events): v.kind = "violation"; v.msg = "the terminal's settings differ after the end"
        elif not native and any(e[1] == "termios-step" for e in res.events):
            v.kind = "violation"; v.msg = "the terminal's settings differ while the interpreter is not waiting for input"
    return v

def nontrivial(case, v):
    return v.obs.matched >= 5 and (v.model is None or any(v.model.ops.get(ord(c), 0) for c in "&~i"))

# ---- C34: output is written in order and in time
def dialog(rng):
    """The program asks with ? and reads a key, which is typed once the ? can be seen."""
    keys = b""; fish = rng.random() < .3; toks = []
    def say(b): return b"".join((b'"' + bytes([c]) + b'"o') if fish else b"'" + bytes([c]) + b"," for c in b)
    for _ in range(rng.randint(1, 8)):
        for _ in range(rng.randint(0, 5)): toks.append(say(bytes([rng.choice(b"abcXYZ.:-+ ")])) if rng.random() < .7 else b"%d" % rng.randint(0, 9) + (b"n" if fish else b"."))
        if rng.random() < .2: toks.append(b"ao" if fish else b"a,")
        if fish or rng.random() < .6:
            toks += [say(b"?"), b"i" if fish else b"~"]; keys += bytes([rng.choice(b"0123456789abcxyz ,\n")])
        else:
            n = b"%d" % rng.choice((0, 7, 42, rng.randint(0, 10 ** 6)))
            toks += [say(b"?") for _ in range(len(n) + 1)] + [b"&"]; keys += n + b" "
        toks.append(rng.choice((b"n", b"o", b"$" if not fish else b"~", b":n" if fish else b":.")) if fish else rng.choice((b".", b",", b"$", b":.")))
    if fish: return case(["-std=fish"], "p.fish", b"".join(toks) + b";\n", stdin=keys, steps=2000, opts=["pty=1", "prompt=1"])
    dims = rng.choice((1, 2, 2)); a, n = std_args(rng, dims)
    if dims == 1: t = b"".join(toks) + b"@\n"
    else: t = b"\n".join(lay_snake(toks, 70)) + b"\n"
    return case(a, n, t, stdin=keys, steps=2000, opts=["pty=1", "prompt=1"])

def chorus(rng):
    """Native threads: the second IP goes west, through the end of the line; each prints letters of its own."""
    k = rng.randint(5, 40)
    out = lambda s: b"".join(b"'" + bytes([c]) + b"," for c in s)
    back = lambda s: b"".join(b"," + bytes([c]) + b"'" for c in reversed(s))
    a = bytes(rng.choice(b"abcdefgh") for _ in range(k)); b = bytes(rng.choice(b"ABCDEFGH") for _ in range(k))
    t = b"t" + out(a) + b"@" + back(b) + b"\n"
    return case(["-std=be98", "-fthreads=native"], "p.b98", t, steps=20000, opts=["light=1", "perturb=%d" % rng.randint(1, 10 ** 6)],
                tags=("native",), note=(a + b"/" + b).decode())

def c34(rng, i):
    x = rng.random()
    if x < .3: return dialog(rng)
    if x < .4: return chorus(rng)
    dims, std, a, n = pick_std(rng, 1); g = TG(rng, dims, std)
    if x < .75:
        toks = [] if rng.random() < .5 else [b'"LREP"4($$']
        for _ in range(rng.randint(1, 7)):
            toks += g.stream(rng.randint(0, 4), {"push": 1, "outnum": 3, "outch": 3})
            cmd = rng.choice((b"ls", b"echo hi", b"x", b"true"))
            if toks[:1] == [b'"LREP"4($$'] and rng.random() < .4: toks.append(b'0"' + cmd[::-1] + b'"' + rng.choice((b"I", b"I.", b"E,")))
            else: toks.append(b'0"' + cmd[::-1] + b'"=' + rng.choice((b"", b".", b"$")))
        return case(a, n, program(rng, toks, dims, std), steps=1500)
    toks = g.stream(rng.randint(1, 10), {"push": 1, "outnum": 3, "outch": 3})
    if rng.random() < .6: toks.append(g.num() + b":" + rng.choice((b"f", b"ff*", b"aaa**", b"ff*9*")) + b"k" + rng.choice((b".", b",")))
    toks += g.stream(rng.randint(1, 6), {"push": 1, "outnum": 3, "outch": 3})
    toks.append(rng.choice((b"@", b"q", b"3q", b"~", b"0", b"t@")))
    return case(a, n, program(rng, toks, dims, std), steps=1500)

def judge34(case, res, **kw):
    if res.status == ("exit", 95): return engine.Verdict("domain", "no terminal here", None, Watch(res), res)
    if "native" in case.tags:
        v = engine.Verdict("ok", "", None, Watch(res), res); a, b = case.note.encode().split(b"/")
        mine = lambda s: bytes(c for c in res.out if c in s)
        if res.status != ("exit", 0): v.kind = "violation"; v.msg = "native threads printing: %s" % (res.status,)
        elif b"," + bytes([a[0]]) not in b"," + case.files["p.b98"][2:] or len(res.out) < 2: v.kind = "domain"; v.msg = "another program"
        elif (mine(b"abcdefgh"), mine(b"ABCDEFGH")) != (a, b) or len(res.out) != len(a + b):
            v.kind = "violation"; v.msg = "native threads printed %r, which is not made of %r and %r" % (res.out, a, b)
        return v
    return engine.judge(case, res, **kw)

SPECS = {
    "C34": Spec("C34", c34, RULE % "one output instruction executed" + " The monitor records how much output is there when a command runs; on a "
                "pseudo-terminal keys are typed only after the question for them can be seen; letters printed by native threads must keep each IP's order.",
                2500, 40000, lambda c, v: v.obs.matched >= 5 and (v.model is None or any(v.model.ops.get(ord(x), 0) for x in ".,no")),
                judge=judge34, tq=25, tt=400),
    "C33": Spec("C33", c33, RULE % "one input instruction executed" + " Standard input is a pseudo-terminal on which keys are typed at once or "
                "one by one, without line ends; its settings are compared before each instruction and after the end.", 2000, 30000,
                nontrivial, judge=judge, tq=25, tt=400),
}

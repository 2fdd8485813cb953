#!/usr/bin/env python3
"""check.py <property>            run the property's check (VERIF_SEED, VERIF_TIER)
   check.py replay <file>         run one recorded case again and show the verdict
"""
import hashlib, importlib, json, math, multiprocessing, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine, runner
from check_base import Spec

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")

def known_findings(prop):
    try:
        with open(KNOWN) as f: d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d["findings"] if k["property"] == prop and k.get("status") == "known"]

_srv = {}
def server(exe):
    if exe not in _srv: _srv[exe] = runner.Server(exe)
    return _srv[exe]

class Outcome:
    """Aggregated result of a chunk of cases."""
    def __init__(self):
        self.evals = 0; self.keys = set(); self.domain = {}; self.viol = []; self.samples = []; self.steps = 0
        self.ops = {}; self.feat = {}; self.errors = []; self.status = {}; self.nontrivial = 0; self.extra = {}
        self.tolerated = 0
    def merge(self, o):
        self.evals += o.evals; self.keys |= o.keys; self.viol += o.viol; self.steps += o.steps
        self.samples += o.samples[:2]; self.errors += o.errors; self.tolerated += o.tolerated
        for a, b in ((self.domain, o.domain), (self.ops, o.ops), (self.feat, o.feat), (self.status, o.status), (self.extra, o.extra)):
            for k, v in b.items(): a[k] = a.get(k, 0) + v

def variant_of(spec, case):
    return next((v for v in spec.also if v in case.tags), spec.variant)

def record(out, case, v, spec):
    """Account for one judged case."""
    out.evals += 1
    st = v.res.status[0] if v.res is not None else "?"
    out.status[st] = out.status.get(st, 0) + 1
    if v.kind == "violation":
        out.viol.append((case, v.msg)); return
    if v.obs is not None:
        out.steps += v.obs.matched; out.tolerated += v.obs.tolerated
        for k, n in getattr(v.obs, "chosen", {}).items(): out.extra[k] = out.extra.get(k, 0) + n
    if v.model is not None:
        for i, n in v.model.ops.items(): out.ops[i] = out.ops.get(i, 0) + n
        for f in v.model.features: out.feat[f] = out.feat.get(f, 0) + 1
    if v.kind == "domain":
        k = v.msg.split(":")[0][:60]
        out.domain[k] = out.domain.get(k, 0) + 1
        if v.obs is None or v.obs.matched < 5: return
    nt = spec.nontrivial(case, v) if spec.nontrivial else v.obs.matched >= 5
    if nt:
        out.keys.add(case.key())
        if len(out.samples) < 2 and v.kind == "ok":
            j = case.to_json(); j["steps_checked"] = v.obs.matched; j["status"] = list(v.res.status)
            j["stdout"] = v.res.out[:120].decode("latin-1")
            out.samples.append(j)

def chunk(args):
    modname, prop, seed, start, count, exes, deadline = args
    try:
        mod = importlib.import_module(modname)
        spec = mod.SPECS[prop]
        out = Outcome()
        for i in range(start, start + count):
            if time.time() > deadline: break
            rng = random.Random("%s/%s/%d" % (prop, seed, i))
            case = spec.generate(rng, i)
            if case is None: continue
            v = engine.decide(server(exes[variant_of(spec, case)]), case, spec.judge)
            record(out, case, v, spec)
            if len(out.viol) >= 2: break
        return out
    except Exception:
        out = Outcome(); out.errors.append(traceback.format_exc())
        return out

def unlikely(count, expected):
    """Far below the expected count, materially (by 30%) and beyond chance (Poisson tail under 1e-12)."""
    if count >= .7 * expected: return False
    # log of the largest term of the tail, times the number of terms
    tail = count * math.log(expected) - expected - math.lgamma(count + 1) + math.log(count + 1)
    return tail < math.log(1e-12)

def uneven(rows):
    """Rows of counts of equally likely outcomes: together further from even than chance allows (chi-squared test, 7.5 standard
    deviations), and by 5% or more somewhere."""
    chi = df = 0; most = 0
    for r in rows:
        e = sum(r) / len(r)
        if e < 50: continue
        chi += sum((c - e) ** 2 for c in r) / e; df += len(r) - 1
        most = max(most, max(abs(c - e) for c in r) / e)
    if not df or most < .05: return False
    # Wilson and Hilferty's normal approximation
    return ((chi / df) ** (1 / 3) - (1 - 2 / (9 * df))) / math.sqrt(2 / (9 * df)) > 7.5

def distributions(total):
    """How often each outcome of each random choice was observed (moved out of total.extra into one entry)."""
    d = {}
    for k in [k for k in total.extra if k.startswith("choice:")]:
        _, what, n, i = k.split(":")
        d.setdefault((what, int(n)), [0] * int(n))[int(i)] += total.extra.pop(k)
    d = {"%s (%d choices)" % k: v for k, v in sorted(d.items())}
    if d: total.extra["random_choices_observed"] = d
    pairs = {}
    for k in [k for k in total.extra if k.startswith("pair:")]:
        _, what, n, i = k.split(":")
        n = int(n); pairs.setdefault((what, n), [[0] * n for _ in range(n)])[int(i) // n][int(i) % n] += total.extra.pop(k)
    pairs = {"%s each of %d outcomes" % k: v for k, v in sorted(pairs.items())}
    if pairs: total.extra["pairs_of_random_choices_observed"] = {k: sum(map(sum, v)) for k, v in pairs.items()}
    return d, pairs

def shrink(spec, exe, case, budget=25.0):
    """Reduce a failing case (cells to spaces, lines dropped, shorter input) while it still fails."""
    srv = server(exe)
    t_end = time.time() + budget
    def fails(c):
        try:
            res = engine.run_case(srv, c, timeout=6.0)
            return spec.judge(c, res).kind == "violation"
        except Exception:
            return False
    best = case
    def with_files(files): 
        return engine.Case(best.args, files, best.stdin, best.steps, best.env, best.dirs, best.tags, best.opts, best.note)
    for name in list(best.files):
        data = best.files[name]
        n = max(1, len(data) // 2)
        while n >= 1 and time.time() < t_end:
            i = 0
            while i < len(data) and time.time() < t_end:
                seg = data[i:i+n]
                rep = bytes(b if b in (10, 11, 12, 13) else 32 for b in seg)
                if rep != seg:
                    d2 = data[:i] + rep + data[i+n:]
                    f = dict(best.files); f[name] = d2
                    c2 = with_files(f)
                    if fails(c2): best = c2; data = d2
                i += n
            n //= 2
        d2 = b"\n".join(l.rstrip(b" ") for l in data.split(b"\n"))
        f = dict(best.files); f[name] = d2
        c2 = with_files(f)
        if d2 != data and fails(c2): best = c2
    return best

class Ctx:
    """Handed to extra_run."""
    def __init__(self, prop, tier, seed, total, deadline):
        self.prop = prop; self.tier = tier; self.seed = seed; self.total = total; self.deadline = deadline
        self.violations = []       # (message, json)
    def violation(self, msg, data): self.violations.append((msg, data))

def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); seed = os.environ.get("VERIF_SEED", "1")
    if tier not in ("quick", "thorough"): tier = "quick"
    import specs
    modname, spec = specs.find(prop)
    exes = {v: build.build(v) for v in (spec.variant,) + spec.also}
    t_build = time.time() - t0
    total = Outcome()
    count = spec.quick if tier == "quick" else spec.thorough
    limit = spec.tq if tier == "quick" else spec.tt
    deadline = time.time() + limit
    workers = 2 * (os.cpu_count() or 4)
    if count and spec.generate:
        per = max(1, min(60, count // (workers * 4)))
        jobs = [(modname, prop, seed, i, min(per, count - i), exes, deadline) for i in range(0, count, per)]
        with multiprocessing.Pool(workers) as pool:
            for o in pool.imap_unordered(chunk, jobs):
                total.merge(o)
                if len(total.viol) >= 3 or total.errors:
                    pool.terminate(); break
    dist, pairs = distributions(total)
    ctx = Ctx(prop, tier, seed, total, deadline)
    if spec.extra_run and not total.viol and not total.errors:
        spec.extra_run(ctx)
    for what, counts in dist.items():
        if unlikely(min(counts), sum(counts) / len(counts)) or uneven([counts]):
            ctx.violation("the %d outcomes of %s occurred %s times: they are not equally likely" % (len(counts), what, counts),
                          {"case": "distribution of " + what, "counts": counts})
    for what, rows in pairs.items():
        if uneven(rows):
            ctx.violation("the outcomes of %s occurred %s times: the choices are not independent" % (what, rows),
                          {"case": "pairs of " + what, "counts": rows})
    if total.errors:
        sys.stderr.write(total.errors[0])
    known = known_findings(prop)
    unlisted = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, (case, msg) in enumerate(total.viol[:3]):
        c2 = shrink(spec, exes[variant_of(spec, case)], case) if n == 0 else case
        v = engine.decide(server(exes[variant_of(spec, c2)]), c2, spec.judge)
        if v.kind == "violation": msg = v.msg
        else: c2 = case
        j = c2.to_json(); j["property"] = prop; j["message"] = msg
        unlisted.append((msg, j))
    for msg, j in ctx.violations:
        j = dict(j); j["property"] = prop; j["message"] = msg
        unlisted.append((msg, j))
    nviol = 0
    shown_known = set()
    for msg, j in unlisted:
        k = next((k for k in known if finding_matches(k, msg, j)), None)
        if k is not None: shown_known.add(k["id"]); continue
        path = os.path.join(rdir, "%s-%d.json" % (prop, nviol))
        with open(path, "w") as f: json.dump(j, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + msg.replace("\n", "\n  ")[:1500])
        for n, d in (j.get("files") or {}).items(): print("  %s: %s  args=%s" % (n, repr(d)[:600], j.get("args")))
        nviol += 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = {"property": prop, "tier": tier, "seed": int(seed) if seed.lstrip("-").isdigit() else 0, "level": "exploration",
          "coverage": {"evaluations": total.evals, "distinct_nontrivial": len(total.keys), "rule": spec.rule,
                       "samples": total.samples[:6], "steps_compared": total.steps, "run_endings": total.status,
                       "instructions_executed": {(chr(k) if 32 < k < 127 else str(k)): v for k, v in sorted(total.ops.items(), key=lambda x: -x[1])[:120]},
                       "situations_reached": total.feat, "left_the_decided_domain": total.domain,
                       "zero_time_events_tolerated": total.tolerated, **total.extra},
          "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol,
          "build_s": round(t_build, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d distinct non-trivial, %d steps compared, %d out of domain, %d violations, %.1fs" % (
        prop, tier, total.evals, len(total.keys), total.steps, sum(total.domain.values()), nviol, time.time() - t0))
    if nviol: return 1
    if total.errors: return 2
    return 0

def finding_matches(k, msg, j):
    m = k.get("match", {})
    if "files" in m and m["files"] != j.get("files"): return False
    if "args" in m and m["args"] != j.get("args"): return False
    if "case" in m and m["case"] != j.get("case"): return False
    return bool(m)

def replay(path):
    with open(path) as f: j = json.load(f)
    import specs
    modname, spec = specs.find(j["property"])
    if "args" not in j:
        print(json.dumps(j, indent=1)[:4000]); return 0
    c = engine.Case.from_json(j)
    exe = build.build(variant_of(spec, c))
    srv = server(exe)
    res = engine.run_case(srv, c)
    v = spec.judge(c, res)
    print(v.kind, v.msg); print("status", res.status); print("out", res.out[:2000]); print("err", res.err[:3000].decode(errors="replace"))
    return 1 if v.kind == "violation" else 0

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    try:
        rc = run(sys.argv[1])
    except build.BuildError as e:
        print("cannot build the tree: %s" % e); rc = 2
    sys.stdout.flush()
    sys.exit(rc)

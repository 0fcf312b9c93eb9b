#!/usr/bin/env python3
"""Decides one property of the library against the TLA+ specification.

  check.py C07                 quick or thorough by VERIF_TIER, seeded by VERIF_SEED
  check.py replay FILE         runs one recorded program again and validates it
  check.py setup               builds the driver once, runs one short trace

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not be carried out.
"""
import collections, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "lib"))
from plan import PLAN, MODELS, GENS                      # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = max(1, min(8, os.cpu_count() or 1))


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ scratch

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.d, name)


def goenv():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/goenv.sh && env -0"], capture_output=True, text=True)
    if out.returncode == 0:
        for kv in out.stdout.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k.startswith("GO") or k == "PATH":
                    env[k] = v
    else:
        env["GOFLAGS"], env["GOPROXY"] = "-mod=mod", "off"
    env["CGO_ENABLED"] = "0"
    return env


def build(sc):
    """builds the driver against /repo's working tree, in the scratch directory"""
    src = sc.path("driver")
    shutil.copytree(os.path.join(ROOT, "driver"), src)
    exe = sc.path("drv")
    r = subprocess.run(["go", "build", "-o", exe, "."], cwd=src, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise Undecided("the driver does not build against /repo:\n" + (r.stdout + r.stderr)[-3000:])
    return exe


# ---------------------------------------------------------------------- TLC

def tlc(sc, module, cfg, env=None, heap="2g", args=(), timeout=800, workers=1):
    meta = tempfile.mkdtemp(dir=sc.d)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return -9, ((x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*\{(.*?)\}\s*>>', re.S)
CL = re.compile(r'<<\s*"(C\d\d)",\s*"([^"]*)"\s*>>', re.S)
CNT = re.compile(r'<<\s*"COUNTS",\s*(\d+),\s*(\d+),\s*(\d+),\s*(\d+)\s*>>')


def validate(sc, trace):
    """returns (counts, rejects) or raises Undecided"""
    with open(trace) as f:
        many = len((json.loads(f.readline() or "{}")).get("ids", [])) > 7
    rc, out = tlc(sc, "Trace.tla", "Trace_many.cfg" if many else "Trace.cfg", {"TRACE": trace})
    m = CNT.search(out)
    rej = []
    for r in REJ.finditer(out):
        rej.append((int(r[1]), int(r[2]), r[3], sorted(set(CL.findall(r[4])))))
    if rc != 0 or not m:
        x = Undecided("TLC on %s: rc %s\n%s" % (trace, rc, out[-2500:]))
        x.rej = rej
        raise x
    return tuple(int(x) for x in m.groups()), rej


def split_trace(path):
    """events by program, in order"""
    out = collections.OrderedDict()
    with open(path) as f:
        for l in f:
            m = re.match(r'\{"p":(-?\d+),', l)
            out.setdefault(int(m[1]) if m else json.loads(l)["p"], []).append(l)
    return out


def validate_robust(sc, trace):
    """like validate, but isolates the programs TLC cannot evaluate"""
    try:
        c, r = validate(sc, trace)
        return c, r, []
    except Undecided as x:
        progs = split_trace(trace)
        if len(progs) <= 1:
            # what was rejected before TLC gave up stays rejected
            return (0, 0, 0, 0), getattr(x, "rej", []), [(list(progs)[:1], str(x)[-1500:])]
        ids = list(progs)
        tot, rej, und = [0, 0, 0, 0], [], []
        for k, part in enumerate((ids[:len(ids) // 2], ids[len(ids) // 2:])):
            t = "%s.%d" % (trace, k)
            with open(t, "w") as f:
                for p in part:
                    f.writelines(progs[p])
            c, r, u = validate_robust(sc, t)
            os.unlink(t)
            tot = [a + b for a, b in zip(tot, c)]
            rej += r
            und += u
        return tuple(tot), rej, und


# ------------------------------------------------------------------- driver

def drive(sc, exe, args, base, sync=False):
    """runs the driver; a fatal crash of the library becomes a last event 'hang'"""
    trace, progs = base + ".trace", base + ".progs"
    mk = base + ".marker"
    r = None
    if not sync:
        r = subprocess.run([exe, *args, "-out", trace, "-progs", progs], capture_output=True, text=True, timeout=800)
        if r.returncode == 0:
            return trace, progs, 0
        if r.returncode == 3:
            raise Undecided("driver: " + r.stderr[-2000:])
    # crashed: again in sync mode, so that everything up to the crash is kept;
    # programs with concurrent calls run in sync mode to begin with, since
    # their crash need not come again
    r = subprocess.run([exe, *args, "-out", trace, "-progs", progs, "-marker", mk], capture_output=True, text=True, timeout=800)
    if r.returncode == 0:
        return trace, progs, 0
    if r.returncode == 3 or not os.path.exists(mk):
        raise Undecided("driver: " + r.stderr[-2000:])
    ev = json.loads(open(mk).read())
    ev["st"], ev["msg"] = "hang", "fatal: " + r.stderr.strip().split("\n")[0][:300]
    lines = open(trace).read().split("\n")
    good = []
    for l in lines:
        try:
            json.loads(l)
            good.append(l)
        except ValueError:
            pass
    with open(trace, "w") as f:
        f.write("\n".join(good + [json.dumps(ev)]) + "\n")
    return trace, progs, 1


def read_progs(path):
    out = {}
    try:
        with open(path) as f:
            for l in f:
                try:
                    p = json.loads(l)
                    out[p["p"]] = p
                except ValueError:
                    pass
    except FileNotFoundError:
        pass
    return out


class Batch:
    """what one chunk of scenarios showed"""

    def __init__(self):
        self.counts = [0, 0, 0, 0]
        self.progs = 0
        self.rej = []          # (program, i, op, clauses, events of the program)
        self.und = []
        self.ops = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.crashes = 0


def digest(batch, trace, rejects, progs):
    ev = split_trace(trace)
    batch.progs += len(ev)
    for p, lines in ev.items():
        kinds = []
        for l in lines:
            e = json.loads(l)
            for r in e["res"]:
                kinds.append("C" + r["k"] if r["t"] == "c" else "%s%dx%d" % (r["k"], r["r"], r["c"]))
            if e["op"] in ("begin", "mk", "var"):
                continue
            batch.ops[e["op"]] += 1
            batch.sigs.add((e["op"], e["s"] if e["op"] in ("conv", "cmp") else "", e["st"],
                            tuple(kinds[a - 1] for a in e["a"] if 0 < a <= len(kinds))))
    for p, i, op, cl in rejects:
        batch.rej.append((progs.get(p), i, op, cl, [json.loads(l) for l in ev.get(p, [])]))
    for p in list(ev)[:1]:
        calls = [json.loads(l) for l in ev[p] if '"op":"begin"' not in l and '"op":"mk"' not in l]
        if calls:
            e = calls[len(calls) // 2]
            batch.samples.append({"program": p, "call": e["op"], "operands": e["a"], "args": [e["n"], e["v"], e["m"], e["s"]],
                                  "outcome": e["st"], "returned": json.dumps(e["res"] or e["q"])[:400]})


def chunk(job):
    sc, exe, kind, args, name = job
    b = Batch()
    base = sc.path(name)
    try:
        trace, progs, crash = drive(sc, exe, args, base)
        b.crashes += crash
        c, rej, und = validate_robust(sc, trace)
        b.counts = list(c)
        b.und += und
        P = read_progs(progs)
        if crash or not P:
            P.update(regenerate(sc, exe, kind, args, base))
        digest(b, trace, rej, P)
    except (Undecided, subprocess.TimeoutExpired) as x:
        b.und.append(([name], str(x)[-1500:]))
    for suffix in (".trace", ".progs", ".marker"):
        if os.path.exists(base + suffix):
            os.unlink(base + suffix)
    return kind, b


def par_chunk(job):
    """programs of a family, with calls made from several goroutines at once"""
    sc, exe, kind, args, name, seed = job
    b = Batch()
    base = sc.path("par-" + name)
    src = base + ".in"
    try:
        drive(sc, exe, args, base + "-alone")
        os.rename(base + "-alone.progs", src)
        trace, progs, crash = drive(sc, exe, ["par", "-in", src, "-seed", str(seed)], base, sync=True)
        b.crashes += crash
        c, rej, und = validate_robust(sc, trace)
        b.counts = list(c)
        b.und += und
        P = read_progs(progs)
        digest(b, trace, rej, P)
    except (Undecided, subprocess.TimeoutExpired) as x:
        b.und.append(([name], str(x)[-1500:]))
    for f in (base + "-alone.trace", base + "-alone.marker", src, base + ".trace", base + ".progs", base + ".marker"):
        if os.path.exists(f):
            os.unlink(f)
    return "concurrent:" + kind, b


def regenerate(sc, exe, kind, args, base):
    """after a crash: the program of the crash, rebuilt from its trace"""
    out = {}
    for p, lines in split_trace(base + ".trace").items():
        evs = [json.loads(l) for l in lines]
        out[p] = {"p": p, "events": evs}
    return out


# ------------------------------------------------------- confirming a reject

def run_programs(sc, exe, programs, tag):
    src = sc.path(tag + ".in")
    with open(src, "w") as f:
        for p in programs:
            f.write(json.dumps(p) + "\n")
    sync = any(s.get("op") == "par" for p in programs for s in p.get("steps", []))
    trace, _, _ = drive(sc, exe, ["run", "-in", src], sc.path(tag), sync)
    return trace


def rejected(sc, exe, programs, tag, prop):
    """for each program, the set of (op, clause) of this property it breaks"""
    ps = []
    for k, p in enumerate(programs):
        q = dict(p)
        q["p"] = k
        ps.append(q)
    trace = run_programs(sc, exe, ps, tag)
    _, rej, _ = validate_robust(sc, trace)
    out = [set() for _ in programs]
    for p, i, op, cl in rej:
        if 0 <= p < len(out):
            out[p] |= {(op, c[1]) for c in cl if c[0] == prop}
    return out


def shrink(sc, exe, prog, prop, want):
    """drop steps while the same disagreement remains"""
    cur = prog
    for rnd in range(6):
        n = len(cur["steps"])
        cand = []
        for size in {max(1, n // 2), max(1, n // 4), 1}:
            for a in range(0, n, size):
                q = dict(cur)
                q["steps"] = cur["steps"][:a] + cur["steps"][a + size:]
                if q["steps"]:
                    cand.append(q)
        if not cand:
            break
        got = rejected(sc, exe, cand, "shrink", prop)
        ok = [c for c, g in zip(cand, got) if want & g]
        if not ok:
            break
        cur = min(ok, key=lambda c: len(c["steps"]))
    return cur


def confirm(sc, exe, prop, prog, i, op, cl, events):
    """returns a replay record; None when the disagreement was an overloaded machine"""
    want = {(op, c[1]) for c in cl if c[0] == prop}
    rec = {"property": prop, "op": op, "clauses": sorted(c[1] for c in cl if c[0] == prop),
           "step": i, "event": next((e for e in events if e["i"] == i), None)}
    if not prog or "steps" not in prog:
        rec["trace"] = events
        rec["reproduced"] = "not replayed"
        return rec
    rec["program"] = prog
    try:
        got = rejected(sc, exe, [prog] * 20, "confirm", prop)
        hits = sum(1 for g in got if g)
        rec["reproduced"] = "%d of 20" % hits
        if hits == 0:
            if any("no answer" == c[1] for c in cl):
                return None
            rec["trace"] = events
        if hits >= 15:
            try:
                rec["program"] = shrink(sc, exe, prog, prop, want)
            except (Undecided, subprocess.TimeoutExpired):
                pass
    except (Undecided, subprocess.TimeoutExpired) as x:
        rec["reproduced"] = "undecided: " + str(x)[:300]
        rec["trace"] = events
    return rec


# ------------------------------------------------------------ known findings

def known():
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(C\d\d) op=(\S+) clause="([^"]*)" call=(\S+) (.*)', l.strip())
            if m:
                out.append({"property": m[1], "op": m[2], "clause": m[3], "call": m[4], "what": m[5]})
    return out


def signature(events, i):
    """kinds and shapes of the operands of event i"""
    kinds = []
    for e in events:
        if e["i"] == i:
            return ",".join([e["s"]] * bool(e["s"]) + [kinds[a - 1] for a in e["a"] if 0 < a <= len(kinds)])
        for r in e["res"]:
            kinds.append("C(%s%s%s)" % (r["l"]["k"], r["s"], r["rr"]["k"]) if r["t"] == "c" else "%s%dx%d" % (r["k"], r["r"], r["c"]))
    return ""


# --------------------------------------------------------------------- check

STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def model(job):
    """exhaustive check of one model of the design"""
    sc, name, tier = job
    m = MODELS[name]
    cfg = m["cfg"] if tier == "quick" else m.get("thorough_cfg", m["cfg"])
    rc, out = tlc(sc, m["module"], cfg, heap=m.get("heap", "4g"), workers=m.get("workers", 2), timeout=m.get("timeout", 700))
    s = STATS.findall(out)
    gen, dis = (int(x.replace(",", "")) for x in s[-1]) if s else (0, 0)
    if m.get("expect") == "violation":      # a design with a planted defect: TLC must object
        rc = 0 if rc in (12, 13) else 99 if rc == 0 else rc
    if rc == -9:
        return name, cfg, 0, gen, dis, "not finished"
    return name, cfg, rc, gen, dis, "" if rc == 0 else out[-3000:]


def behaviours(sc, exe, prop, tier, seed, gens):
    """programs that TLC generated from the specification"""
    jobs = []
    for name in gens:
        g = GENS[name]
        for k in range(g["jobs"][tier]):
            jobs.append((sc, exe, name, g, seed * 1000 + k, g["num"][tier]))
    return jobs


def gen_chunk(job):
    sc, exe, name, g, seed, num = job
    b = Batch()
    base = sc.path("gen-%s-%d" % (name, seed))
    src = base + ".in"
    try:
        rc, out = tlc(sc, g["module"], g["cfg"], {"GEN_OUT": src}, args=["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(seed)], timeout=700)
        if not os.path.exists(src) or rc not in (0,):
            raise Undecided("TLC generating %s: rc %s\n%s" % (name, rc, out[-1500:]))
        trace, progs, crash = drive(sc, exe, ["run", "-in", src], base)
        b.crashes += crash
        c, rej, und = validate_robust(sc, trace)
        b.counts = list(c)
        b.und += und
        digest(b, trace, rej, read_progs(progs))
    except (Undecided, subprocess.TimeoutExpired) as x:
        b.und.append(([name], str(x)[-1500:]))
    for suffix in (".in", ".trace", ".progs", ".marker"):
        if os.path.exists(base + suffix):
            os.unlink(base + suffix)
    return "tlc:" + name, b


def enum_chunk(job):
    """a slice of an exhaustively enumerated family of programs"""
    sc, exe, fam, part, parts, deep = job
    b = Batch()
    base = sc.path("enum-%s-%d" % (fam, part))
    src = base + ".in"
    try:
        rc, out = tlc(sc, "Enum.tla", "Enum.cfg", {"GEN_OUT": src, "FAM": fam, "SLICE": str(part), "NSLICE": str(parts), "DEEP": "1" if deep else "0"}, timeout=700)
        if rc != 0 or not os.path.exists(src):
            raise Undecided("TLC enumerating %s: rc %s\n%s" % (fam, rc, out[-1500:]))
        trace, progs, crash = drive(sc, exe, ["run", "-in", src], base)
        b.crashes += crash
        c, rej, und = validate_robust(sc, trace)
        b.counts = list(c)
        b.und += und
        P = read_progs(src)
        P.update(read_progs(progs))
        digest(b, trace, rej, P)
    except (Undecided, subprocess.TimeoutExpired) as x:
        b.und.append(([fam], str(x)[-1500:]))
    for suffix in (".in", ".trace", ".progs", ".marker"):
        if os.path.exists(base + suffix):
            os.unlink(base + suffix)
    return "enum:" + fam, b


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    with Scratch() as sc:
        exe = build(sc)
        jobs = []
        per = plan.get("chunk", 250)
        for fam, n in plan["families"].items():
            n = n if tier == "quick" else n * plan.get("deep", 12)
            for a in range(0, n, per):
                b = min(n, a + per)
                jobs.append((sc, exe, fam, ["gen", "-fam", fam, "-seed", str(seed), "-range", "%d:%d" % (a, b)], "%s-%d" % (fam, a)))
            n = n // 8 if fam != "env" else 0     # programs with many variables
            for a in range(0, n, per // 2):
                b = min(n, a + per // 2)
                jobs.append((sc, exe, fam + ", many variables", ["gen", "-many", "-fam", fam, "-seed", str(seed), "-range", "%d:%d" % (a, b)], "%s-many-%d" % (fam, a)))
        # long jobs first, families interleaved
        models = plan.get("models", [])
        with ThreadPoolExecutor(WORKERS) as ex:
            mf = [ex.submit(model, (sc, m, tier)) for m in models]
            gf = [ex.submit(gen_chunk, j) for j in behaviours(sc, exe, prop, tier, seed, plan.get("gens", []))]
            parts = 8 if tier == "quick" else 24
            ef = [ex.submit(enum_chunk, (sc, exe, f, k, parts, tier == "thorough")) for f in plan.get("enum", []) for k in range(parts)]
            pf = []
            for fam, n in plan.get("par", {}).items():
                n = n if tier == "quick" else n * plan.get("deep", 12)
                pf += [ex.submit(par_chunk, (sc, exe, fam, ["gen", "-fam", fam, "-seed", str(seed + 7), "-range", "%d:%d" % (a, min(n, a + per))],
                                             "%s-%d" % (fam, a), seed)) for a in range(0, n, per)]
            cf = [ex.submit(chunk, j) for j in jobs]
            for fam, n in plan.get("par", {}).items():
                n = (n if tier == "quick" else n * plan.get("deep", 12)) // 8
                pf += [ex.submit(par_chunk, (sc, exe, fam + ", many variables", ["gen", "-many", "-fam", fam, "-seed", str(seed + 7), "-range", "%d:%d" % (a, min(n, a + per // 2))],
                                             "%s-many-%d" % (fam, a), seed)) for a in range(0, n, per // 2)]
            models = [f.result() for f in mf]
            got = [f.result() for f in gf + ef + pf] + [f.result() for f in cf]

        total, progs, ops, sigs = [0, 0, 0, 0], 0, collections.Counter(), set()
        per_fam, und, cand, samples, other = collections.Counter(), [], [], [], collections.Counter()
        for fam, b in got:
            total = [x + y for x, y in zip(total, b.counts)]
            progs += b.progs
            per_fam[fam] += b.progs
            ops.update(b.ops)
            sigs |= b.sigs
            und += b.und
            if len(samples) < 4:
                samples += b.samples[:1]
            for r in b.rej:
                mine = [c for c in r[3] if c[0] == prop]
                if mine:
                    cand.append(r)
                else:
                    other.update(c[0] for c in r[3])

        # findings that are recorded, and the rest
        kn = known()
        kept, seen_known = [], {}
        for r in cand:
            sig = signature(r[4], r[1])
            hit = None
            for c in r[3]:
                if c[0] != prop:
                    continue
                hit = next((k for k in kn if k["property"] == prop and k["op"] == r[2] and k["clause"] == c[1]
                            and k["call"] == sig), None)
                if hit is None:
                    break
            if hit:
                seen_known[hit["what"]] = True
            else:
                kept.append(r)
        for k in kn:
            if k["property"] == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

        violations = []
        bykey = collections.OrderedDict()
        for r in kept:
            bykey.setdefault((r[2], tuple(c[1] for c in r[3] if c[0] == prop)), []).append(r)
        for key, rs in list(bykey.items())[:4]:
            for r in sorted(rs, key=lambda r: len(r[4]))[:3]:
                rec = confirm(sc, exe, prop, *r)
                if rec:
                    violations.append(rec)
                    break
        wall = time.time() - t0
        bad_models = [m for m in models if m[2] != 0]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
            "coverage": {
                "states": sum(m[4] for m in models) + total[0] + len(got),
                "transitions": sum(m[3] for m in models) + total[0],
                "traces_validated_against_impl": progs,
                "samples": samples[:4],
                "calls_recorded": sum(ops.values()),
                "calls_answered": total[1], "calls_refused": total[2],
                "distinct_call_signatures": len(sigs),
                "programs_per_family": dict(per_fam),
                "calls_per_operation": dict(ops.most_common()),
                "models": [{"model": m[0], "cfg": m[1], "generated": m[3], "distinct": m[4],
                            "outcome": m[5] if m[2] == 0 and m[5] else "holds" if m[2] == 0 and "expect" not in MODELS[m[0]] else "defect found" if m[2] == 0 else "error"} for m in models],
                "disagreements": {"this property": len(cand), "other properties": dict(other)},
                "undecided": len(und),
            },
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed %d: %d programs, %d events (%d answered, %d refused), %d models, %.0f s"
              % (prop, tier, seed, progs, total[0], total[1], total[2], len(models), wall))
        for v in violations:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s: %s (reproduced %s)" % (v["op"], ", ".join(v["clauses"]), v["reproduced"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if violations:
            return 1
        if bad_models:
            print("MODEL ERROR in %s\n%s" % (bad_models[0][0], bad_models[0][5]))
            return 2
        if und:
            print("undecided: %d chunk(s) or program(s); first: %s" % (len(und), und[0][1][-1200:]))
            if len(und) > max(3, progs // 200) or progs == 0:
                return 2
        return 0


def replay(path):
    rec = json.load(open(path))
    if "program" not in rec:
        print(json.dumps(rec, indent=1)[:4000])
        return 1
    with Scratch() as sc:
        exe = build(sc)
        got = rejected(sc, exe, [rec["program"]] * 20, "replay", rec["property"])
        hits = [g for g in got if g]
        print("%d of 20 runs disagree with the specification: %s" % (len(hits), sorted(hits[0]) if hits else ""))
        return 1 if hits else 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        with Scratch() as sc:
            exe = build(sc)
            kind, b = chunk((sc, exe, "chain", ["gen", "-fam", "chain", "-seed", "1", "-range", "0:20"], "setup"))
            print("setup: driver built, %d programs validated, %d disagreements" % (b.progs, len(b.rej)))
            return 2 if b.und else 0
    if len(sys.argv) == 2 and sys.argv[1] in PLAN:
        return check(sys.argv[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Undecided as x:
        print("undecided:", x)
        sys.exit(2)

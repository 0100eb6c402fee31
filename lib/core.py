"""Running a check: jobs over the engine, obligations in z3, replay, evidence."""
import itertools, json, multiprocessing, os, random, re, sys, threading, time, traceback
import vf, real

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
EVID = os.environ.get("VF_EVIDENCE", os.path.join(vf.VERIF, "evidence"))

class Job:
    """One symbolic run: `obligations(z3, res)` yields (name, z3 term of the violation, kind);
    `replay(codes)` returns None or a reason why the real program breaks the property."""
    def __init__(self, name, part, spec, obligations, replay, cost=1.0, witness=None, describe=None, wall=None):
        self.name, self.part, self.spec = name, part, spec
        self.obligations, self.replay, self.cost = obligations, replay, cost
        self.witness, self.describe, self.wall = witness, describe, wall

JOBSLIST = []

class Query:
    """A violation term, or a search procedure of its own (CEGIS)."""

def solve_term(z, res, term, limit_ms=60000, models=3, care=None):
    """(verdict, list of codes, seconds, queries)"""
    s = z.SolverFor("QF_FD"); s.set("timeout", limit_ms)
    s.add(res.guard(z, res.d["care"]))
    s.add(term)
    out, t0, q = [], time.time(), 0
    while len(out) < models:
        r = s.check(); q += 1
        if r == z.unsat:
            return ("violated" if out else "holds"), out, time.time() - t0, q
        if r != z.sat:
            return ("violated" if out else "unknown"), out, time.time() - t0, q
        c = res.decode(s.model(), z)
        out.append(c)
        s.add(z.Not(z.And(*[res.code(z, n, c[n]) for n in res.order])))
    return "violated", out, time.time() - t0, q

# --------------------------------------------------------------------- agreement of the executor with the real program
VALIDATE = set()
TIMES = re.compile(r"\d+\.\d{4}")

def norm_lines(ls):
    return sorted(TIMES.sub("T", l.replace("\a", "").replace("\x01", "")).rstrip("\n") for l in ls)

def predict(res, seed):
    """What the symbolic run says the program prints for one input."""
    r = random.Random(seed)
    for _ in range(200):
        codes = {f["name"]: r.randrange(f["n"]) for f in res.d["fields"]}
        b = res.bits(codes)
        if res.ev(res.d["care"], b):
            break
    else:
        return None
    if res.ev(res.d["live"], b) or any(res.ev(v["g"], b) for v in res.d["violations"]):
        return None
    out = {}
    for st, d in res.d["streams"].items():
        if d.get("over"):
            return None
        ls = []
        for t, g in d["lines"]:
            if res.ev(g, b):
                ls += t.rstrip("\x01").rstrip("\n").split("\n") if "\n" in t else [t]
        out[st] = norm_lines(ls)
    code = [e["code"] for e in res.d["exits"] if res.ev(e["g"], b)]
    return codes, out, code[0] if code else None

def run_env(spec, codes):
    num = lambda x: x if isinstance(x, int) else x["t"][codes[x["f"]]]
    env, pre = {}, None
    if "rand" in spec or "randfill" in spec:
        env.update({"VF_RAND": " ".join(str(num(x)) for x in spec.get("rand", [])), "VF_FILL": " ".join(map(str, spec.get("randfill", [])))})
        pre = real.shim("rand", real.RAND)
    if "trigger" in spec:
        t = spec["trigger"]
        env.update({"VF_TEXT": t["text"], "VF_N": str(num(t["n"])), "VF_BY": str(num(t["by"]) / 1000)})
        pre = real.shim("clock", real.CLOCK)
    if "clock" in spec:
        env.update({"VF_AT": str(num(spec["clock"]["at"])), "VF_BY": str(num(spec["clock"]["by"]) / 1000)})
        pre = real.shim("clock", real.CLOCK)
    return env, pre

def agrees(j, pred, kind="o0"):
    """None: not comparable; True; or the difference."""
    codes, out, code = pred
    spec = j.spec
    fs = {k: (None if v is None else vf.seg_text(v, codes)) for k, v in spec.get("files", {}).items()}
    for n, w in spec.get("openfail", {}).items():
        if codes[w["f"]] in w["codes"]:
            fs[n] = None
    env, pre = run_env(spec, codes)
    r = real.run(j.part, kind, argv_of(spec, codes), fs, stdin=vf.seg_text(spec.get("stdin", ""), codes), env=env, preload=pre, timeout=20)
    if not r.ok or r.timeout:
        return None
    if r.rc != code:
        return "exit status %s, predicted %s" % (r.rc, code)
    for st, ls in out.items():
        if st == "stdout":
            t = r.out
        elif st.startswith("file:") and "/" not in st:
            t = r.files.get(st[5:], "")
        else:
            continue
        a = t.split("\n")
        if a and a[-1] == "":
            a.pop()
        a = norm_lines(a)
        if [x for x in a if x] != [x for x in ls if x]:
            d = [x for x in set(a) ^ set(ls)][:4]
            return "%s differs: %s" % (st, d or "number of equal lines")
    return True

def work(i):
    import z3 as z
    j = JOBSLIST[i]
    o = {"i": i, "name": j.name, "queries": 0, "solver_s": 0.0, "obl": [], "err": "", "cand": [], "wit": 0, "witnesses": []}
    t0 = time.time()
    try:
        res = vf.run_engine(j.part, j.spec, j.wall)
        o["engine_s"] = res.wall
        if not res.d:
            o["err"] = res.err or "no result"
            return o
        d = res.d
        o["stats"], o["functions"], o["srclines"], o["stopped"] = d["stats"], d["functions"], d["srclines"], d["stopped"]
        nv = d["nvars"]
        space = 1
        for f in d["fields"]:
            space *= f["n"]
        o["space"] = space
        if d["stopped"]:
            o["left"] = True
        if i in VALIDATE:
            o["pred"] = predict(res, SEED * 1009 + i)
        s = z.SolverFor("QF_FD"); s.add(res.guard(z, d["care"]))
        if s.check() != z.sat:
            o["err"] = "empty input space"; return o
        for ob in j.obligations(z, res):
            name, term = ob[0], ob[1]
            if callable(term):
                v, codes, sec, q = term()
            else:
                v, codes, sec, q = solve_term(z, res, term)
            o["queries"] += q; o["solver_s"] += sec
            o["obl"].append((name, v))
            for c in codes:
                o["cand"].append((name, c))
        if j.witness:
            for name, term in j.witness(z, res):
                s = z.SolverFor("QF_FD"); s.set("timeout", 20000)
                s.add(res.guard(z, d["care"])); s.add(term)
                r = s.check(); o["queries"] += 1
                o["witnesses"].append((name, r == z.sat))
    except vf.BuildError:
        raise
    except Exception:
        o["err"] = traceback.format_exc()[-1500:]
    o["wall"] = time.time() - t0
    return o

def known(prop):
    p = os.path.join(vf.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):].strip())
    return out

def run_check(prop, jobs, level_note="", budget=None, bounds="", extra=None):
    """Decide the jobs; returns the exit code."""
    global JOBSLIST
    t0 = time.time()
    budget = budget or (780 if THOROUGH else 600)
    JOBSLIST = jobs
    VALIDATE.clear(); VALIDATE.update(random.Random(SEED).sample(range(len(jobs)), min(len(jobs), 100 if THOROUGH else 24)))
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": 0, "violations": 0,
          "assumptions": [], "coverage": {}}
    done, notes, viol = [], [], []
    unrepro = 0
    try:
        for part in sorted({j.part for j in jobs}):
            vf.program(part)
        built = True
    except vf.BuildError as e:
        notes.append(str(e)); built = False
        print("UNDECIDED: the code could not be translated: %s" % str(e)[-300:])
    tried = {}
    agreed, disagreed = 0, []
    if built and jobs:
        # the real programs are needed to compare a few runs; build them meanwhile
        th = threading.Thread(target=lambda: [real.binary(p, "o0") for p in sorted({j.part for j in jobs})], daemon=True)
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(vf.JOBS)
        it = pool.imap_unordered(work, order)
        th.start()
        n = 0
        while n < len(order):
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                o = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            n += 1
            done.append(o)
            j = jobs[o["i"]]
            for name, codes in o["cand"]:
                key = (name, o["name"])
                if tried.get(key, 0) >= 4 or sum(tried.values()) > 60 or viol or time.time() - t0 > min(budget + 150, 790):
                    continue
                tried[key] = tried.get(key, 0) + 1
                try:
                    why = j.replay(name, codes)
                except Exception:
                    why = None
                    notes.append("replay failed: " + traceback.format_exc()[-600:])
                if why:
                    viol.append((o["name"], name, codes, why, j))
                else:
                    unrepro += 1
                    notes.append("not reproduced on the real program: %s / %s / %s" % (o["name"], name, json.dumps(codes)))
            if viol:
                break
        pool.terminate(); pool.join()
        th.join()
        for o in done:
            if o.get("pred") and not viol and time.time() - t0 < budget + 60:
                try:
                    a = agrees(jobs[o["i"]], o["pred"])
                except Exception:
                    a = None
                if a is True:
                    agreed += 1
                elif a:
                    disagreed.append("%s %s: %s" % (o["name"], json.dumps(o["pred"][0]), a))
        notes += ["executor and real program disagree: " + x[:400] for x in disagreed[:8]]
    path = None
    if viol:
        jn, name, codes, why, j = viol[0]
        path = os.path.join(EVID, "replay-%s.json" % prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        rec = {"property": prop, "job": jn, "obligation": name, "codes": codes, "observed": why,
               "program": j.part, "argv": argv_of(j.spec, codes),
               "files": {k: (None if v is None else vf.seg_text(v, codes)) for k, v in j.spec.get("files", {}).items()}}
        if "stdin" in j.spec:
            rec["stdin"] = vf.seg_text(j.spec["stdin"], codes)
        json.dump(rec, open(path, "w"), indent=1)
    good = [o for o in done if not o["err"]]
    funcs, lines = set(), set()
    for o in good:
        funcs.update(f for f in o.get("functions", [])); lines.update(o.get("srclines", []))
    obl = [x for o in good for x in o["obl"]]
    cov = ev["coverage"]
    cov["states"] = sum(o["space"] for o in good)
    cov["transitions"] = sum(o["stats"]["exec"] for o in good)
    cov["traces_validated_against_impl"] = agreed + len(viol)
    cov["validation_disagreements"] = len(disagreed)
    cov["candidates_replayed"] = sum(tried.values())
    cov["symbolic_runs"] = len(good)
    cov["runs_planned"] = len(jobs)
    cov["runs_cut_short"] = [o["name"] for o in good if o.get("left")]
    cov["runs_not_finished"] = [jobs[i].name for i in order if i not in {o["i"] for o in done}]
    cov["runs_not_decided"] = [[o["name"], o["err"][-300:]] for o in done if o["err"]]
    cov["obligations"] = len(obl)
    cov["discharged"] = sum(1 for x in obl if x[1] == "holds")
    cov["undecided_obligations"] = sum(1 for x in obl if x[1] == "unknown")
    cov["queries"] = sum(o["queries"] for o in done)
    cov["solver_seconds"] = round(sum(o["solver_s"] for o in done), 2)
    cov["engine_seconds"] = round(sum(o.get("engine_s", 0) for o in done), 2)
    cov["witnesses_reached"] = sum(1 for o in good for w in o["witnesses"] if w[1])
    cov["witnesses_missed"] = [[o["name"], w[0]] for o in good for w in o["witnesses"] if not w[1]]
    cov["not_reproduced"] = unrepro
    cov["functions_encoded"] = sorted(f for f in funcs if keepfn(f))
    cov["source_lines_executed"] = summarise(lines)
    cov["bounds"] = bounds
    cov["samples"] = samples(jobs, good)
    cov["rule"] = ("states = inputs decided symbolically (product of the field sizes of the finished runs); transitions = "
                   "IR instructions executed on guarded values")
    ev["assumptions"] = ASSUME
    ev["notes"] = notes[:40]
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d symbolic runs, %d inputs, %d obligations, %d discharged, %d undecided, %d not reproduced, %d/%d runs agree with the real program, %.1fs"
          % (prop, len(good), len(jobs), cov["states"], len(obl), cov["discharged"], cov["undecided_obligations"], unrepro, agreed, agreed + len(disagreed), ev["wall_s"]))
    for o, x in [(o, x) for o in good for x in o["obl"] if x[1] == "unknown"]:
        print("  undecided in run %s: %s" % (o["name"], x[0]))
    for e in cov["runs_not_decided"][:5]:
        print("  undecided run %s: %s" % (e[0], e[1].strip().split("\n")[-1]))
    if viol:
        jn, name, codes, why, j = viol[0]
        ks = known(prop)
        text = "%s: %s" % (jn, why)
        for k in ks:
            if k in text:
                print("KNOWN-FINDING: property=%s %s" % (prop, k)); return 0
        print("  %s / %s: %s" % (jn, name, why))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0

ASSUME = [
    "clang 18 -O1 LLVM IR of /repo's sources means what the program means; the executor in /verif/engine implements it",
    "standard streams, files, clock and rand() follow /verif/model and the executor's intrinsics",
    "allocation never fails; one thread",
]

def keepfn(f):
    return not (f.startswith("_ZNSt") or f.startswith("_ZNKSt") or f.startswith("_ZSt") or f.startswith("_ZN9__gnu")
                or f.startswith("_ZNK9__gnu") or f.startswith("_ZN2vf") or f.startswith("__vf"))

def summarise(lines):
    by = {}
    for l in lines:
        f, n = l.rsplit(":", 1)
        by.setdefault(os.path.basename(f), set()).add(n)
    return {k: len(v) for k, v in sorted(by.items())}

def argv_of(spec, codes):
    out = []
    for a in spec["argv"]:
        if isinstance(a, dict) and "when" in a:
            if codes[a["when"]["f"]] not in a["when"]["codes"]:
                continue
            a = a["v"]
        out.append(vf.seg_text(a, codes))
    return out

def samples(jobs, good):
    out = []
    r = random.Random(SEED)
    for o in r.sample(good, min(3, len(good))):
        j = jobs[o["i"]]
        codes = {f["name"]: r.randrange(f["n"]) for f in j.spec["fields"]}
        out.append({"run": j.name, "argv": argv_of(j.spec, codes),
                    "files": {k: (None if v is None else vf.seg_text(v, codes)[:1500]) for k, v in j.spec.get("files", {}).items()}})
    return out

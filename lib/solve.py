"""Solver runs (src and bitvec): obligations over the symbolic outputs, and concrete judges for replay."""
import itertools, os, re, time
import vf, real, core, formula as F

MODES = {  # name: (program, arguments, lazy)
    "nc": ("src", ["-solvenc"], 0), "nc-vsids": ("src", ["-solvenc", "-vsids"], 0),
    "nc-pos": ("src", ["-solvenc", "-vsids_pos"], 0), "nc-lazy": ("src", ["-solvenc", "-lazy"], 1),
    "wl": ("src", ["-solvenc", "-wl"], 0), "wl-pos": ("src", ["-solvenc", "-wl", "-vsids_pos"], 0),
    "wl-lazy": ("src", ["-solvenc", "-wl", "-lazy"], 1),
    "ch": ("src", ["-solvech"], 0), "ch-lazy": ("src", ["-solvech", "-lazy"], 1),
    "bv": ("bitvec", ["-solvenc"], 2), "bv-vsids": ("bitvec", ["-solvenc", "-vsids"], 0),
}
SRC = [m for m in MODES if MODES[m][0] == "src"]
BV = [m for m in MODES if MODES[m][0] == "bitvec"]

def V(t):
    return t.replace("\a", "")

class Ctx:
    def __init__(self, z, res):
        self.z, self.res = z, res
        self.by = {}
        for t, g in res.lines("stdout"):
            self.by.setdefault(V(t).rstrip("\x01").rstrip("\n") if t.startswith("The model:") else V(t).rstrip("\x01"), []).append(g)
        self.care, self.live = res.d["care"], res.d["live"]
    def text(self, t):
        gs = self.by.get(t)
        if not gs:
            return self.z.BoolVal(False)
        return self.z.Or(*[self.res.guard(self.z, g) for g in gs])
    def twice(self, t):
        gs = [self.res.guard(self.z, g) for g in self.by.get(t, [])]
        return [self.z.And(a, b) for a, b in itertools.combinations(gs[:12], 2)]
    def g(self, g):
        return self.res.guard(self.z, g)
    def derived(self, n):
        return self.g(self.res.d["derived"][n])
    def ub(self):
        vs = self.res.d["violations"]
        return self.z.Or(*[self.g(v["g"]) for v in vs]) if vs else self.z.BoolVal(False)

class Solve:
    """One shape in one mode."""
    def __init__(self, name, mode, form, opts=(), pre=None, spec=None, verbose=False, sym_opts=None):
        self.name, self.mode, self.form = "%s/%s%s" % (name, mode, "".join(" " + str(o) for o in opts)), mode, form
        self.part, self.args, self.lazy = MODES[mode]
        self.opts = list(opts)
        argv = ["Solver"] + self.args + self.opts + (["-verbose"] if verbose else []) + ["-file", "in"]
        self.spec = {"fields": list(form.fields), "argv": argv, "files": {"in": form.seg()},
                     "budget": 400000000, "time": 90, "mem": 2500}
        T = lambda t: ["text", "stdout", t]
        P = lambda t: ["prefix", "stdout", t]
        normal = ["exit", 0]
        verdicts = ["or", T("SAT"), T("UNSAT")]
        L = lambda t: ["line", "stdout", t]
        cor, inc = L("Verifying model ... model is CORRECT"), L("Verifying model ... model is INCORRECT")
        self.spec["derived"] = [
            ["sat-no-model", ["and", T("SAT"), ["not", P("The model:")]]],
            ["no-counters", ["and", verdicts, ["not", P("Decisions   : ")]]],
            ["not-one-verdict", ["and", ["care"], ["not", ["live"]], ["or", ["not", verdicts], ["and", T("SAT"), T("UNSAT")], T("TIMEOUT")]]],
            ["check-line", ["and", T("SAT"), ["not", ["live"]], ["or", ["and", cor, inc], ["and", ["not", cor], ["not", inc]]]]],
            ["check-without-model", ["and", ["not", T("SAT")], ["or", cor, inc]]],
            ["correct", cor], ["incorrect", inc],
            ["bad-status", ["and", ["care"], ["not", ["live"]], ["not", normal]]],
        ]
        self.spec.update(spec or {})
        if getattr(form, "exclude", None):
            self.spec["exclude"] = form.exclude
        self.spec["blocks"] = ["The model: ", "Decisions   : "]
        if verbose:
            self.spec["blocks"] = ["Learned a clause: ", "Decisions   : ", "The model: "]
        self.cost = 1.0
    def job(self, obls, judge, cost=None, witness=True, wall=None):
        cx = {}
        def ctx(z, res):
            if id(res) not in cx:
                cx.clear(); cx[id(res)] = Ctx(z, res)
            return cx[id(res)]
        def ob(z, res):
            c = ctx(z, res)
            for f in obls:
                yield from f(self, c)
        def wit(z, res):
            c = ctx(z, res)
            return [("answers SAT", c.text("SAT")), ("answers UNSAT", c.text("UNSAT"))]
        return core.Job(self.name, self.part, self.spec, ob, lambda name, codes: judge(self, name, codes),
                        cost if cost is not None else self.cost, wit if witness else None, wall=wall)

# --------------------------------------------------------------------- obligations
def model_line(part, l):
    """(variable, values) of a printed model line; the bit-vector solver prints the set of values left."""
    k = re.match(r"^(\d+)=(-?\d+)$", l)
    if not k:
        return None
    if part == "bitvec":
        n = len(k[2])
        return int(k[1]), tuple(i for i in range(n) if k[2][n - 1 - i] == "1")
    return int(k[1]), (int(k[2]),)

def models_of(s, c):
    """Printed models: {sorted tuple of (var, values): guards}."""
    out = {}
    for t, gs in c.by.items():
        if not t.startswith("The model:"):
            continue
        m = []
        for l in t.split("\n")[1:]:
            k = model_line(s.part, l)
            if not k:
                break
            m.append(k)
        out.setdefault(tuple(sorted(m)), []).extend(gs)
    return out

def well_formed(s, m, doms):
    """The printed lines name existing variables, once each, with values of their domains."""
    d = dict(m)
    if len(d) != len(m) or any(not (1 <= v <= len(doms) and xs and all(0 <= a < doms[v - 1] for a in xs)) for v, xs in m):
        return False
    return s.lazy == 1 or len(d) == len(doms) and (s.lazy or all(len(xs) == 1 for xs in d.values()))

def false_under(s, c, m):
    """z3 term: the printed values do not make the formula true.  For the lazy heuristics of src: no
    model agrees with them; for the bit-vector solver: some choice among the printed values is no model."""
    z, doms, n, d = c.z, s.form.doms, len(s.form.doms), dict(m)
    if s.lazy == 1:
        free = [v for v in range(1, n + 1) if v not in d]
        size = 1
        for v in free:
            size *= doms[v - 1]
        if size > 81:
            return None
        ts = []
        for x in itertools.product(*[range(doms[v - 1]) for v in free]):
            e = {v: xs[0] for v, xs in d.items()}; e.update(zip(free, x))
            ts.append(z.Not(s.form.sat_under(z, c.res, lambda v, a: z.BoolVal(e[v] == a))))
        return z.And(*ts)
    if all(len(xs) == 1 for xs in d.values()):
        return z.Not(s.form.sat_under(z, c.res, lambda v, a: z.BoolVal(d[v][0] == a)))
    mv, cons = s.form.assignment(z, "c")
    return z.And(cons, *[z.Or(*[mv(v, a) for a in xs]) for v, xs in d.items()], z.Not(s.form.sat_under(z, c.res, mv)))

def o_model(s, c):
    """SAT answers come with a satisfying assignment (lazy heuristics: with part of one)."""
    z, doms, n = c.z, s.form.doms, len(s.form.doms)
    ms = models_of(s, c)
    yield "SAT without a model", c.derived("sat-no-model")
    def search():
        t0, q, out = time.time(), 0, []
        unknown = False
        for m, gs in ms.items():
            G = z.Or(*[c.g(g) for g in gs])
            if not well_formed(s, m, doms):
                term = G
            else:
                f = false_under(s, c, m)
                term = None if f is None else z.And(G, f)
            if term is not None:
                r, codes, sec, k = core.solve_term(z, c.res, term, models=2)
            else:
                r, codes, sec, k = cegis(s, c, G, {(v, xs[0]): z.BoolVal(True) for v, xs in m})
            q += k
            if r == "violated":
                out += codes
            unknown |= r == "unknown"
            if len(out) > 3:
                break
        return ("violated" if out else "unknown" if unknown else "holds"), out, time.time() - t0, q
    yield "model", search
    yield "ub", c.ub()

def cegis(s, c, claim, val, limit=60):
    """Inputs under which `claim` holds but no model agrees with the printed values."""
    z, res, t0, q = c.z, c.res, time.time(), 0
    A = z.SolverFor("QF_FD"); A.add(res.guard(z, c.care)); A.add(claim)
    mv, cons = s.form.assignment(z)
    B = z.SolverFor("QF_FD"); B.add(res.guard(z, c.care)); B.add(cons)
    B.add(s.form.sat_under(z, res, mv))
    for (v, a), g in val.items():
        B.add(z.Implies(g, mv(v, a)))
    while time.time() - t0 < limit:
        A.set("timeout", 30000)
        r = A.check(); q += 1
        if r == z.unsat:
            return "holds", [], time.time() - t0, q
        if r != z.sat:
            break
        codes = res.decode(A.model(), z)
        B.push()
        for n in res.order:
            B.add(res.code(z, n, codes[n]))
        B.set("timeout", 30000)
        r2 = B.check(); q += 1
        if r2 == z.unsat:
            return "violated", [codes], time.time() - t0, q
        if r2 != z.sat:
            B.pop(); break
        m = B.model()
        asg = {v: next(a for a in range(s.form.doms[v - 1]) if z.is_true(m.eval(mv(v, a)))) for v in range(1, len(s.form.doms) + 1)}
        B.pop()
        fixed = lambda v, a: z.BoolVal(asg[v] == a)
        ok = [s.form.sat_under(z, res, fixed)] + [z.Not(val[v, a]) for (v, a) in val if asg[v] != a]
        A.add(z.Not(z.And(*ok)))
    return "unknown", [], time.time() - t0, q

def o_unsat(s, c):
    z = c.z
    mv, cons = s.form.assignment(z)
    yield "unsat", z.And(c.text("UNSAT"), cons, s.form.sat_under(z, c.res, mv))
    yield "ub", c.ub()

def o_verdict(s, c):
    """The verdict agrees with satisfiability."""
    yield from o_unsat(s, c)
    z = c.z
    yield "sat", (lambda: cegis(s, c, c.text("SAT"), {}))

def o_answer(s, c):
    """Exactly one verdict, SAT or UNSAT, and a normal end."""
    z = c.z
    yield "one-verdict", c.derived("not-one-verdict")
    yield "exit-status", c.derived("bad-status")
    if c.live != 1:
        yield "unfinished", (lambda: unfinished(s, c))
    yield "ub", c.ub()

def unfinished(s, c):
    v, codes, sec, q = core.solve_term(c.z, c.res, c.g(c.res.d["spin"]), models=2)
    return ("unknown" if v == "violated" else v), codes, sec, q

def o_check(s, c):
    """The self-check line says CORRECT exactly when the printed values make every clause true."""
    z = c.z
    cor, inc = c.derived("correct"), c.derived("incorrect")
    yield "check-line", c.derived("check-line")
    yield "no-check-without-model", c.derived("check-without-model")
    yield "ub", c.ub()
    if s.lazy:
        yield "incorrect", inc
    def search():
        t0, q, out = time.time(), 0, []
        for m, gs in models_of(s, c).items():
            G = z.Or(*[c.g(g) for g in gs])
            f = false_under(s, c, m) if well_formed(s, m, s.form.doms) else z.BoolVal(True)
            if f is None:
                r, codes, sec, k = cegis(s, c, z.And(G, cor), {(v, xs[0]): z.BoolVal(True) for v, xs in m})
                q += k; out += codes
                if r == "unknown":
                    return "unknown", out, time.time() - t0, q
                continue
            # CORRECT although the values are no model; INCORRECT although they are one
            if s.lazy == 2:
                terms = [z.And(G, cor, f)]
                if all(len(xs) == 1 for _, xs in m):
                    terms.append(z.And(G, inc, z.Not(f)))
            else:
                terms = [z.And(G, cor, f), z.And(G, inc, z.Not(f))]
            for t in terms:
                r, codes, sec, k = core.solve_term(z, c.res, t, models=1)
                q += k; out += codes
                if r == "unknown":
                    return "unknown", out, time.time() - t0, q
            if len(out) > 3:
                break
        return ("violated" if out else "holds"), out, time.time() - t0, q
    yield "check-truth", search

def o_mem(s, c):
    for i, v in enumerate(c.res.d["violations"]):
        yield "%s at %s" % (v["kind"], v["loc"]), c.g(v["g"])
    if not c.res.d["violations"]:
        yield "no fault", c.z.BoolVal(False)
    ab = [c.g(e["g"]) for e in c.res.d["exits"] if e["how"] not in ("exit", "return")]
    if ab:
        yield "abnormal end", c.z.Or(*ab)

STAT = re.compile(r"^(Decisions|Units|Backtracks|Entails|Variables|Clauses|Restarts) *: (-?\d+)$")
KEYS = ("Decisions", "Units", "Backtracks", "Entails", "Variables", "Clauses", "Restarts")
def stats_blocks(c):
    """{tuple of counters (None: not printed or twice): guards}"""
    out = {}
    for t, gs in c.by.items():
        if not t.startswith("Decisions   : "):
            continue
        d = {}
        for l in t.split("\n"):
            m = STAT.match(l)
            if m:
                d.setdefault(m[1], []).append(int(m[2]))
        out.setdefault(tuple(d[k][0] if len(d.get(k, [])) == 1 else None for k in KEYS), []).extend(gs)
    return out

def threshold(s):
    k = 0
    for i, o in enumerate(s.opts):
        if o in ("-restart", "-restarts"):
            k = int(s.opts[i + 1])
    return k

def stats_ok(s, t, n, m, k):
    if None in t or min(t) < 0:
        return "counters %s" % dict(zip(KEYS, t))
    d = dict(zip(KEYS, t))
    if d["Variables"] != n:
        return "%d variables reported, %d declared" % (d["Variables"], n)
    learned = 0 if s.mode.startswith("ch") else d["Backtracks"]
    if d["Clauses"] != m + learned:
        return "%d clauses reported, %d in the input and %d learned" % (d["Clauses"], m, learned)
    if d["Restarts"] != (d["Backtracks"] // k if k else 0):
        return "%d restarts reported for %d backtracks, threshold %d" % (d["Restarts"], d["Backtracks"], k)
    return None

def o_stats(s, c):
    z = c.z
    st = stats_blocks(c)
    yield "counters printed", c.derived("no-counters")
    n, m, k = len(s.form.doms), len(s.form.clauses), threshold(s)
    bad = [c.g(g) for t, gs in st.items() if stats_ok(s, t, n, m, k) for g in gs]
    yield "counters", z.Or(*bad) if bad else z.BoolVal(False)
    yield "ub", c.ub()

LOGGED = {"Decisions": r"(?:^|\t|\n)Decision: ", "Entails": r"(?:^|\t|\n)Entailment\.\.\. ", "Backtracks": r"(?:^|\n)# of backtracks so far: "}
def o_counts(s, c):
    """With -verbose: the counters agree with the log."""
    z = c.z
    st = stats_blocks(c)
    for key, pat in LOGGED.items():
        if key == "Backtracks" and s.mode.startswith("ch") or s.part == "bitvec" and key == "Entails":
            continue
        ev = [(len(re.findall(pat, t)), c.g(g)) for t, l in c.by.items() if re.search(pat, t) for g in l]
        bad = []
        vals = {}
        for t, gs in st.items():
            v = t[KEYS.index(key)]
            vals.setdefault(v, []).extend(c.g(g) for g in gs)
        for v, gs in vals.items():
            if v is None:
                bad += gs; continue
            eq = z.PbEq([(x, n) for n, x in ev], v) if ev else z.BoolVal(v == 0)
            bad.append(z.And(z.Or(*gs), z.Not(eq)))
        yield key + " logged", z.Or(*bad) if bad else z.BoolVal(False)
    yield "ub", c.ub()

def learned_blocks(c):
    out = []
    for t, gs in c.by.items():
        if t.startswith("Learned a clause: \n") or t.startswith("Learned a clause:\n"):
            lits, ok = [], True
            for l in t.split("\n")[1:]:
                l = l.strip()
                if not l:
                    continue
                m = re.match(r"^(\d+)(!?=)(-?\d+)$", l)
                if not m:
                    ok = False; break
                lits.append((int(m[1]), m[2], m[3]))
            if ok:
                out.append((lits, gs))
    return out

def lit_vals(s, l):
    """Values of the variable under which a printed literal is true (bit sets in the bit-vector solver)."""
    v, op, txt = l
    d = s.form.doms[v - 1] if 1 <= v <= len(s.form.doms) else 0
    if s.part == "bitvec":
        n = len(txt)
        on = [i for i in range(d) if i < n and txt[n - 1 - i] == "1"]
        return on if op == "=" else [a for a in range(d) if a not in on]
    a = int(txt)
    return [x for x in range(d) if (x == a) == (op == "=")]

def o_learn(s, c):
    z = c.z
    mv, cons = s.form.assignment(z)
    bad = []
    for lits, gs in learned_blocks(c):
        tr = [mv(l[0], a) for l in lits for a in lit_vals(s, l)]
        bad.append(z.And(z.Or(*[c.g(g) for g in gs]), z.Not(z.Or(*tr) if tr else z.BoolVal(False))))
    if bad:
        yield "learned clause implied", z.And(cons, s.form.sat_under(z, c.res, mv), z.Or(*bad))
    yield "ub", c.ub()

# --------------------------------------------------------------------- judges (the real program)
def concrete(s, codes, extra_env=None):
    argv = core.argv_of(s.spec, codes)
    text = vf.seg_text(s.spec["files"]["in"], codes)
    return argv, text

def runs(s, codes, kinds=("o0", "o3"), timeout=20, **kw):
    argv, text = concrete(s, codes)
    doms, cl = real.parse_mv(text)
    for k in kinds:
        r = real.run(s.part, k, argv, {"in": text}, timeout=timeout, **kw)
        if r.ok:
            yield k, r, doms, cl

def truth(doms, cl):
    return F.find_model(doms, cl)

def out_model(s, out):
    ls, m = out.replace("\a", "").split("\n"), []
    if "The model: " in ls:
        for l in ls[ls.index("The model: ") + 1:]:
            k = model_line(s.part, l)
            if not k:
                break
            m.append(k)
    return m

def model_false(s, m, doms, cl):
    """Why the printed values are not what was promised, or None."""
    if not well_formed(s, m, doms):
        return "malformed or incomplete model %s" % (m,)
    d = dict(m)
    if s.lazy == 1:
        if F.find_model(doms, cl, {v: xs[0] for v, xs in d.items()}) is None:
            return "no model agrees with the printed values %s" % (m,)
        return None
    for c in cl:  # a clause false under some choice among the printed values
        ch = {}
        ok = False
        for v, sg, a in c:
            ch.setdefault(v, set(d[v]))
            ch[v] = {x for x in ch[v] if (x == a) != bool(sg)}
        if all(ch.values()):
            return "the printed values %s do not satisfy the clause %s" % (m, " ".join(F.lit_text(l) for l in c))
    return None

def j_model(s, name, codes):
    for k, r, doms, cl in runs(s, codes):
        if r.timeout or r.rc is None:
            continue
        a = real.answer(r.out)
        if a.verdict == "SAT":
            w = model_false(s, out_model(s, r.out), doms, cl)
            if w:
                return "%s build: SAT but %s" % (k, w)

def j_unsat(s, name, codes):
    for k, r, doms, cl in runs(s, codes):
        if not r.timeout and real.answer(r.out).verdict == "UNSAT":
            m = truth(doms, cl)
            if m:
                return "%s build: UNSAT but %s is a model" % (k, m)

def j_verdict(s, name, codes):
    for k, r, doms, cl in runs(s, codes):
        if r.timeout:
            continue
        v, m = real.answer(r.out).verdict, truth(doms, cl)
        if v == "UNSAT" and m:
            return "%s build: UNSAT but %s is a model" % (k, m)
        if v == "SAT" and not m:
            return "%s build: SAT but there is no model" % k

def j_answer(s, name, codes):
    for k, r, doms, cl in runs(s, codes, timeout=15):
        if r.timeout:
            return "%s build: no answer within 15 s on a formula of %d variables and %d clauses" % (k, len(doms), len(cl))
        if r.rc != 0:
            return "%s build: ended with status %s" % (k, r.rc)
        a = real.answer(r.out)
        if set(a.verdicts) not in ({"SAT"}, {"UNSAT"}):
            return "%s build: verdicts printed: %s" % (k, a.verdicts)

def j_check(s, name, codes):
    for k, r, doms, cl in runs(s, codes):
        if r.timeout:
            continue
        a = real.answer(r.out)
        if a.verdict != "SAT":
            if a.check and r.rc == 0:
                return "%s build: self-check printed without a SAT answer" % k
            continue
        if r.rc == 0 and len(a.check) != 1:
            return "%s build: self-check lines: %s" % (k, a.check)
        if not a.check:
            continue
        m = out_model(s, r.out)
        w = model_false(s, m, doms, cl)
        if a.check[0] == "CORRECT" and w:
            return "%s build: says CORRECT but %s" % (k, w)
        if a.check[0] != "CORRECT" and not w and (s.lazy != 2 or all(len(x) == 1 for _, x in m)):
            return "%s build: says the model %s is %s" % (k, m, a.check[0])

def memory_fault(s, codes, files=None, argv=None, part=None, **kw):
    if argv is None:
        argv, text = concrete(s, codes)
        files, part = {"in": text}, s.part
    r = real.run(part, "asan", argv, files, timeout=30, **kw)
    if r.ok and not r.timeout and r.rc is not None:
        if r.rc in (98, 99) or "AddressSanitizer" in r.err or "runtime error" in r.err:
            l = [x for x in r.err.split("\n") if "ERROR: AddressSanitizer" in x or "runtime error" in x or "SUMMARY" in x]
            return "sanitizers: " + (l[0] if l else r.err[-200:])
        if r.rc < 0:
            return "sanitizer build killed by signal %d" % -r.rc
    r = real.run(part, "o0", argv, files, timeout=120, valgrind=True, **kw)
    if r.ok and r.rc == 97:
        l = [x for x in r.err.split("\n") if x.startswith("==")][:6]
        return "valgrind: " + " ".join(re.sub(r"^==\d+==\s*", "", x) for x in l)[:300]
    for k in ("o0", "o3"):
        r = real.run(part, k, argv, files, timeout=20, **kw)
        if r.ok and r.rc is not None and r.rc < 0:
            return "%s build killed by signal %d" % (k, -r.rc)

def j_mem(s, name, codes):
    return memory_fault(s, codes)

def j_stats(s, name, codes):
    for k, r, doms, cl in runs(s, codes):
        if r.timeout:
            continue
        a = real.answer(r.out)
        if a.verdict in ("SAT", "UNSAT"):
            w = stats_ok(s, tuple(a.stats.get(x) for x in KEYS), len(doms), len(cl), threshold(s))
            if w:
                return "%s build: %s" % (k, w)

def j_counts(s, name, codes):
    for k, r, doms, cl in runs(s, codes):
        if r.timeout:
            continue
        a = real.answer(r.out)
        if a.verdict not in ("SAT", "UNSAT"):
            continue
        for key, pat in LOGGED.items():
            if key == "Backtracks" and s.mode.startswith("ch") or s.part == "bitvec" and key == "Entails":
                continue
            n = len(re.findall(pat, r.out))
            if key in a.stats and a.stats[key] != n:
                return "%s build: %s : %d, but %d in the log" % (k, key, a.stats[key], n)

def j_learn(s, name, codes):
    for k, r, doms, cl in runs(s, codes):
        for b in re.findall(r"Learned a clause: *\n((?:.+\n)*)", r.out):
            allowed = {}
            bad = False
            for l in b.split("\n"):
                m = re.match(r"^(\d+)(!?=)(-?\d+)$", l.strip())
                if m:
                    allowed.setdefault(int(m[1]), set()).update(lit_vals(s, (int(m[1]), m[2], m[3])))
            rest = [cl_ for cl_ in cl]
            extra = [[(v, 0, a)] for v, xs in allowed.items() for a in xs]
            m = F.find_model(doms, rest + extra)
            if m:
                return "%s build: learned clause {%s} is false in the model %s" % (k, b.replace("\n", " ").strip(), m)

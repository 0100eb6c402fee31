"""Time limits, formatting of the input, options, failures: what surrounds the search."""
import random, re
import vf, real, core, conv, solve, formula as F, shapes as S
from core import SEED, THOROUGH

B = 1000 * SEED + 50

def flat(c):
    return c.z.Or(*c) if c else c

# --------------------------------------------------------------------- C07: the time limit
JUMP = [0, 4, 9, 9.5, 10.5, 30, 5000000]
LIMIT = 10

def timed(name, mode, f, kind, opts=("-time", str(LIMIT)), jumps=JUMP, cost=1.0):
    """The clock jumps by a symbolic amount, once the n-th decision is logged ("log") or at the n-th reading."""
    limit = LIMIT if opts else 3600000
    by = f.field(len(jumps))
    at = f.field(6)
    if kind == "log":
        ns = [1, 2, 3, 4, 6, 9]
        spec = {"trigger": {"text": "Decision: ", "n": {"f": at, "t": ns}, "by": {"f": by, "t": [int(j * 1000) for j in jumps]}}}
    else:
        ns = [1, 2, 3, 5, 9, 17]
        spec = {"clock": {"at": {"f": at, "t": ns}, "by": {"f": by, "t": [int(j * 1000) for j in jumps]}}}
    s = solve.Solve(name, mode, f, opts=opts, verbose=kind == "log", spec=spec)
    s.spec["blocks"] = ["The model: ", "Learned a clause: ", "Decisions   : "]
    T = lambda t: ["text", "stdout", t]
    s.spec["derived"] = s.spec["derived"] + [
        ["timed-bad", ["and", ["care"], ["not", ["live"]], ["or", ["not", ["or", T("SAT"), T("UNSAT"), T("TIMEOUT")]],
                                                          ["and", T("SAT"), T("UNSAT")], ["and", T("SAT"), T("TIMEOUT")], ["and", T("TIMEOUT"), T("UNSAT")]]]],
        ["timeout", T("TIMEOUT")], ["timeout-model", ["and", T("TIMEOUT"), ["prefix", "stdout", "The model:"]]]]
    early = [i for i, j in enumerate(jumps) if j < limit]
    late = [i for i, j in enumerate(jumps) if j > limit]
    def o(s, c):
        z, res = c.z, c.res
        yield "one verdict", c.derived("timed-bad")
        yield "exit-status", c.derived("bad-status")
        yield "no model with a timeout", c.derived("timeout-model")
        yield "unfinished", (lambda: solve.unfinished(s, c))
        yield "timeout within the limit", z.And(c.derived("timeout"), z.Or(*[res.code(z, by, i) for i in early]))
        if kind == "log" and late:
            over = z.Or(*[res.code(z, by, i) for i in late])
            bad = []
            for t, gs in solve.stats_blocks(c).items():
                for i, n in enumerate(ns):
                    if t[0] is not None and t[0] > n + 1:
                        bad.append(z.And(z.Or(*[c.g(g) for g in gs]), res.code(z, at, i)))
            yield "search after the limit", z.And(over, z.Or(*bad)) if bad else z.BoolVal(False)
        yield from solve.o_model(s, c)
        mv, cons = s.form.assignment(z)
        yield "unsat", z.And(c.text("UNSAT"), z.Not(c.derived("timeout")), cons, s.form.sat_under(z, res, mv))
    def env(codes):
        if kind == "log":
            return {"VF_TEXT": "Decision: ", "VF_N": str(ns[codes[at]]), "VF_BY": str(jumps[codes[by]])}
        return {"VF_AT": str(ns[codes[at]]), "VF_BY": str(jumps[codes[by]])}
    def judge(s, name, codes):
        e = env(codes)
        w = "clock jumps by %s s %s, limit %d s" % (e["VF_BY"], "after decision " + e["VF_N"] if kind == "log" else "at reading " + e["VF_AT"], limit)
        for k, r, doms, cl in solve.runs(s, codes, env=e, preload=real.shim("clock", real.CLOCK), timeout=15):
            if r.timeout:
                return "%s build: no answer within 15 s; %s" % (k, w)
            if r.rc != 0:
                return "%s build: ended with status %s; %s" % (k, r.rc, w)
            a = real.answer(r.out)
            vs = set(a.verdicts)
            if len(vs) != 1:
                return "%s build: verdicts %s; %s" % (k, a.verdicts, w)
            v, by_ = a.verdict, jumps[codes[by]]
            if v == "TIMEOUT" and by_ < limit:
                return "%s build: TIMEOUT; %s" % (k, w)
            if v == "TIMEOUT" and "The model:" in r.out:
                return "%s build: TIMEOUT with a model; %s" % (k, w)
            if kind == "log" and by_ > limit and a.stats.get("Decisions", 0) > ns[codes[at]] + 1:
                return "%s build: %d decisions; %s" % (k, a.stats["Decisions"], w)
            m = solve.truth(doms, cl)
            if v == "UNSAT" and m:
                return "%s build: UNSAT but %s is a model; %s" % (k, m, w)
            if v == "SAT":
                x = solve.model_false(s, solve.out_model(s, r.out), doms, cl)
                if x:
                    return "%s build: SAT but %s; %s" % (k, x, w)
    j = s.job([o], judge, cost=cost, witness=False)
    j.witness = lambda z, res: [("answers TIMEOUT", solve.Ctx(z, res).derived("timeout"))] if late else []
    return j

def timeouts():
    out = []
    for m in solve.SRC + solve.BV:
        for i, (d, w, b) in enumerate([([2] * 6, 3, 5), ([3] * 5, 3, 5), ([3] * 8, 3, 3), ([2, 3, 5, 4, 2], [2, 3, 4], 5)] * (1 if not THOROUGH else 5)):
            out.append(timed("timed%d" % i, m, S.critical(B + i, d, w, b, neg=.4), "log", cost=2))
            out.append(timed("timed%d readings" % i, m, S.critical(B + 40 + i, d, w, b + 2, neg=.5), "clock", cost=1))
        out.append(timed("php5", m, S.pigeons(5, 4, 2, B), "log", cost=2))
        out.append(timed("no limit given", m, S.critical(B + 90, [3] * 5, 3, 4), "clock", opts=(), jumps=[0, 3500, 100, 30], cost=.6))
        out.append(timed("far limit", m, S.critical(B + 91, [3] * 5, 3, 4), "clock", opts=("-time", "5000000"), jumps=[0, 10000, 4999990], cost=.6))
    return out

# --------------------------------------------------------------------- C08: formatting
def relabel(seg, sub):
    """Replace texts of a segment."""
    if isinstance(seg, str):
        return sub(seg)
    if isinstance(seg, list):
        return [relabel(s, sub) for s in seg]
    return {"f": seg["f"], "t": [relabel(s, sub) for s in seg["t"]]}

def formatted(name, mode, f, seg, cost=1.0, opts=()):
    s = solve.Solve(name, mode, f, opts=opts)
    s.spec["fields"] = f.fields
    s.spec["files"]["in"] = seg
    def o(s, c):
        yield from solve.o_answer(s, c)
        yield from (x for x in solve.o_model(s, c) if x[0] != "ub")
        yield from (x for x in solve.o_unsat(s, c) if x[0] != "ub")
        yield from (x for x in solve.o_stats(s, c) if x[0] != "ub")
    def judge(s, name, codes):
        return (solve.j_answer(s, name, codes) or solve.j_model(s, name, codes) or solve.j_unsat(s, name, codes) or solve.j_stats(s, name, codes))
    return s.job([o], judge, cost=cost)

def split(seg):
    """The flat list with newlines as elements of their own."""
    out = []
    def add(x):
        if isinstance(x, list):
            for y in x:
                add(y)
        elif isinstance(x, str):
            for p in re.findall(r"\n|[^\n]+", x):
                out.append(p)
        else:
            out.append(x)
    add(seg)
    return out

def formatting():
    out = []
    DOMS = [[2, 3], [3, 3, 2], [2] * 5, [1, 4, 2, 3], [12, 2, 11], [3] * 4]
    for k in range(6 if not THOROUGH else 36):
        for q, m in enumerate(solve.SRC + solve.BV):
            r = random.Random(B + 31 * k + q)
            f = S.units(DOMS[(k + q) % 6], B + 200 + k, 4, extra=3)
            f.head = "p mvcnf" if k % 2 else "p cnf"
            out.append(formatted("dressed%d" % k, m, f, conv.dress(f.seg(), f, r, 8)))
    for q, m in enumerate(solve.SRC + solve.BV):
        r = random.Random(B + q)
        # line ends: every line plain or with a carriage return, the last one possibly cut
        f = S.units(DOMS[q % 6], B + 230 + q, 4, extra=2)
        cr = f.field(2)
        seg = split(f.seg())
        last = f.field(2)
        e = [{"f": cr, "t": ["\n", "\r\n"]} if x == "\n" else x for x in seg[:-1]] + [{"f": cr, "t": ["", "\r"]}, {"f": last, "t": ["\n", ""]}]
        out.append(formatted("line ends", m, f, e))
        # the same with comments and blank lines between
        f = S.units(DOMS[(q + 1) % 6], B + 260 + q, 3, extra=2)
        cr, some = f.field(2), f.field(2)
        nl = {"f": cr, "t": ["\n", "\r\n"]}
        e, n = [], 0
        for x in split(f.seg()):
            e.append(nl if x == "\n" else x)
            if x == "\n":
                n += 1
                if n % 3 == q % 3:
                    e.append({"f": some, "t": [["c 1=0 2!=1 0", nl], nl]} if False else {"f": some, "t": ["c 1=0 2!=1 0", "  \t"]}); e.append(nl)
        out.append(formatted("line ends and comments", m, f, e))
        # one kind of separator throughout
        f = S.units(DOMS[(q + 2) % 6], B + 290 + q, 4, extra=2)
        sp, ld = f.field(4), f.field(3)
        kinds = {"f": sp, "t": [" ", "\t", "  ", " \t"]}
        e, start = [], False
        for x in split(f.seg()):
            if start and not (isinstance(x, str) and x[0] in "pdc\n"):
                e.append({"f": ld, "t": ["", " ", "\t"]})
            start = x == "\n"
            if isinstance(x, dict):
                e += [{"f": x["f"], "t": [s.rstrip(" ") for s in x["t"]]}, kinds]
            elif x[0] not in "pdc\n" and x.endswith(" "):
                e += [x.rstrip(" "), kinds]
            else:
                e.append(x)
        out.append(formatted("separators", m, f, e))
        # lines longer than any buffer, made of spaces, of repetitions, of literals, of comment text
        f = F.Formula([2, 2, 3])
        for w in ([2, 2] if not THOROUGH else [2, 3, 2]):
            f.clauses.append([f.choice([[l] for l in F.all_lits(f.doms)[::2]]) for _ in range(w)])
        pad = f.field(4)
        seg = f.seg()
        out.append(formatted("long spaces", m, f, seg[:-1] + [{"f": pad, "t": ["", " " * 70000, " " * 4100, "\t" * 255]}, seg[-1]] + [{"f": pad, "t": ["", "c " + "x" * 70000 + " 0\n", "c\n" * 3, ""]}]))
        f = F.Formula([2, 3, 2])
        f.clauses.append([f.choice([[l] for l in F.all_lits(f.doms)]), f.choice([[(1, 1, 0)] * n + [(2, 0, 1)] for n in (1, 2, 700, 20000)])])
        f.clauses.append([f.choice([[l] for l in F.all_lits(f.doms)]) for _ in range(2)])
        out.append(formatted("repetitions", m, f, f.seg()))
        f = S.longrow([2] * 40, 230 if m in solve.BV else 300, 4, B + 3, ncl=2, neg=.3) if False else S.longrow([9] * 30, 230, 5, B + 3, ncl=2, neg=0)
        f.clauses += [[(v, 0, 0)] for v in range(1, 4)]
        out.append(formatted("many literals", m, f, f.seg()))
    return out

# --------------------------------------------------------------------- C09: options
def at_code(z, res, g, name, c):
    """The guard with field `name` set to its alternative c."""
    t = res.guard(z, g)
    f, zv = res.fields[name], res.z3vars(z)
    return z.substitute(t, *[(zv[f["lo"] + b], z.BoolVal(bool((c >> (f["bits"] - 1 - b)) & 1))) for b in range(f["bits"])])

class Same:
    """Alternatives of one field do not change the given lines of a stream."""
    def __init__(self, name, part, spec, field, n, keep, stream="stdout", files=None, norm=None):
        self.name, self.part, self.spec, self.field, self.n, self.keep, self.stream = name, part, spec, field, n, keep, stream
        self.norm = norm or (lambda x: x)
    def table(self, z, res):
        by = {}
        for t, g in res.lines(self.stream):
            t = t.replace("\a", "").rstrip("\x01")
            k = self.keep(t)
            if k is not None:
                by.setdefault(k, []).append(g)
        return by
    def obligations(self, z, res):
        by = self.table(z, res)
        zv, f = res.z3vars(z), res.fields[self.field]
        care = [at_code(z, res, res.d["care"], self.field, c) for c in range(self.n)]
        for c in range(1, self.n):
            diff = []
            for t, gs in by.items():
                a = z.Or(*[at_code(z, res, g, self.field, 0) for g in gs])
                b = z.Or(*[at_code(z, res, g, self.field, c) for g in gs])
                diff.append(z.Xor(a, b))
            def ask(diff=diff, c=c):
                import time
                t0 = time.time()
                s = z.SolverFor("QF_FD"); s.set("timeout", 60000)
                s.add(care[0], care[c], z.Or(*diff)); r = s.check()
                if r == z.unsat:
                    return "holds", [], time.time() - t0, 1
                if r != z.sat:
                    return "unknown", [], time.time() - t0, 1
                codes = res.decode(s.model(), z); codes[self.field] = c
                return "violated", [codes], time.time() - t0, 1
            yield "same output for alternative %d" % c, ask
        yield "unfinished", (lambda: conv.unfinished(z, res))
        bad = [res.guard(z, e["g"]) for e in res.d["exits"] if e["code"] != 0 or e["how"] not in ("exit", "return")]
        yield "ends normally", z.Or(*bad) if bad else z.BoolVal(False)
    def one(self, kind, codes):
        argv = core.argv_of(self.spec, codes)
        fs = {k: vf.seg_text(v, codes) for k, v in self.spec["files"].items()}
        env, pre = {}, None
        if "rand" in self.spec:
            env = {"VF_RAND": " ".join(str(r["t"][codes[r["f"]]]) for r in self.spec["rand"]), "VF_FILL": " ".join(map(str, self.spec["randfill"]))}
            pre = real.shim("rand", real.RAND)
        r = real.run(self.part, kind, argv, fs, env=env, preload=pre, timeout=15)
        if not r.ok:
            return None
        if r.timeout or r.rc != 0:
            return ["ended with status %s" % r.rc], argv
        text = r.out if self.stream == "stdout" else r.files.get(self.stream[5:], "no file")
        text = text.replace("\a", "")
        if "The model: \n" in text:
            i = text.index("The model: \n")
            ls = text[:i].split("\n") + [text[i:]] + text[i:].split("\n")[1:]
        else:
            ls = text.split("\n")
        return sorted({self.keep(l) for l in ls} - {None}), argv
    def judge(self, name, codes):
        for kind in ("o0", "o3"):
            base = dict(codes); base[self.field] = 0
            a, b = self.one(kind, base), self.one(kind, codes)
            if a and b and (a[0] != b[0] or "status" in str(a[0][:1])):
                return "%s build: %s gives %s, %s gives %s" % (kind, " ".join(a[1]), a[0][:12], " ".join(b[1]), b[0][:12])
    def job(self, cost=1.0):
        return core.Job(self.name, self.part, self.spec, self.obligations, self.judge, cost)

def results(t):
    """Verdict and counters; the model as one block."""
    if t in ("SAT", "UNSAT", "TIMEOUT") or solve.STAT.match(t):
        return t
    if t.startswith("The model:"):
        m = []
        for l in t.split("\n")[1:]:
            k = re.match(r"^(\d+)=(-?\d+)$", l)
            if not k:
                break
            m.append(l)
        return "model " + " ".join(sorted(m))

def alternatives(f, lists):
    """argv elements selected by one field; the lists may have different lengths."""
    k = f.field(len(lists))
    n = max(map(len, lists))
    out = []
    for i in range(n):
        have = [c for c, l in enumerate(lists) if i < len(l)]
        seg = {"f": k, "t": [l[i] if i < len(l) else "" for l in lists]}
        out.append({"when": {"f": k, "codes": have}, "v": [seg]} if len(have) < len(lists) else [seg])
    return k, out

def options():
    out = []
    def solver(name, part, first, lists, f, cost=1.0, keep=results):
        k, args = alternatives(f, lists)
        spec = {"fields": f.fields, "argv": ["Solver", first] + args, "files": {"in": f.seg()}, "budget": 400000000, "time": 40, "mem": 2500,
                "blocks": ["The model: "]}
        out.append(Same(name, part, spec, k, len(lists), keep).job(cost))
    IN = ["-file", "in"]
    shape = lambda i, b=6: S.critical(B + 300 + i, [[2] * 5, [3] * 4, [2, 3, 4, 2], [3] * 5][i % 4], 3, b, neg=.4)
    REAL = [("src", m) for m in solve.SRC] + [("bitvec", m) for m in solve.BV]
    for i, (part, m) in enumerate(REAL):
        o = solve.MODES[m][1]
        first, rest = o[0], o[1:]
        nc = first == "-solvenc"
        keep = results
        # the log changes nothing
        solver("verbose/" + m, part, first, [rest + IN, rest + ["-verbose"] + IN, IN + rest + ["-verbose"]], shape(i), 2, keep)
        # order of the options; the sizes given on the command line
        sizes = ["-var", "5", "-clause", "40"]
        solver("order/" + m, part, first, [rest + ["-time", "1000"] + IN, IN + ["-time", "1000"] + rest, ["-time", "1000"] + IN + rest,
               IN + sizes + rest[::-1], sizes[2:] + rest[::-1] + sizes[:2] + IN], shape(i + 1), 1, keep)
        if nc:
            rs = lambda w, k: [w, str(k)]
            solver("restart names/" + m, part, first, [rest + rs("-restart", 2) + IN, rest + rs("-restarts", 2) + IN, rs("-restarts", 2) + IN + rest,
                   IN + rest + rs("-restart", 2)], shape(i + 2), 1, keep)
            solver("restart 0/" + m, part, first, [rest + IN, rest + rs("-restart", 0) + IN, rest + rs("-restarts", 0) + IN], shape(i + 3), 1, keep)
            solver("restart never reached/" + m, part, first, [rest + IN, rest + rs("-restart", 100000) + IN], shape(i + 2), 1, keep)
        else:
            pass
    # generator and converters: order
    for b, sat, dr in (("0", "1", "0"), ("1", "1", "0"), ("0", "0", "0"), ("1", "0", "0"), ("1", "1", "1"), ("1", "0", "1"), ("0", "0", "1")):
        r = random.Random(B + int(b) + 2 * int(sat) + 4 * int(dr) - 2)
        f = F.Formula([2])
        pairs = [["-var", "3"], ["-clause", "3"], ["-clausesize", "2"], ["-domain", "3"], ["-bool", b], ["-sat", sat], ["-file", "out"]]
        if dr == "1":
            pairs.append(["-drand", "1"])
        # a list and its reverse: every two options in both orders
        lists = []
        for _ in range(4):
            r.shuffle(pairs); lists.append([x for p in pairs for x in p]); lists.append([x for p in pairs[::-1] for x in p])
        # what is left out has the documented default
        lists.append([x for p in pairs if p[0] != "-sat" or p[1] != "1" for x in p])
        if dr == "0":
            lists.append([x for p in pairs for x in p] + ["-drand", "0"])
        k, args = alternatives(f, lists)
        ds = []
        for i in range(7):
            ds.append({"f": f.field(4), "t": [0, 1, 2, 3]})
        spec = {"fields": f.fields, "argv": ["Solver", "-genben"] + args, "files": {}, "rand": ds, "randfill": [r.randrange(1000) for _ in range(97)],
                "budget": 400000000, "time": 40, "mem": 2500}
        out.append(Same("generator order/%s%s%s" % (b, sat, dr), "src", spec, k, len(lists), lambda t: t, "file:out").job())
        f = F.Formula([2])
        pairs = [["-var", "3"], ["-clause", "2"], ["-bool", b], ["-file", "out"]]
        dflt = [["-clausesize", "3"], ["-domain", "10"], ["-sat", "1"], ["-drand", "0"]]
        lists = [[x for p in pairs for x in p], [x for p in pairs + dflt for x in p], [x for p in dflt[1:] + pairs for x in p], [x for p in dflt[:1] + pairs for x in p]]
        k, args = alternatives(f, lists)
        ds = [{"f": f.field(4), "t": [0, 1, 5, 8]} for i in range(7)]
        spec = {"fields": f.fields, "argv": ["Solver", "-genben"] + args, "files": {}, "rand": ds, "randfill": [r.randrange(1000) for _ in range(97)],
                "budget": 400000000, "time": 40, "mem": 2500}
        out.append(Same("generator defaults/" + b, "src", spec, k, len(lists), lambda t: t, "file:out").job())
    for c in ("-b2f", "-linenc", "-quadenc"):
        f = conv.bool_full(2, [2, 1]) if c == "-b2f" else F.full([2, 3], [2, 1])
        k, args = alternatives(f, [["-file", "in", "-model", "out"], ["-model", "out", "-file", "in"]])
        spec = {"fields": f.fields, "argv": ["Solver", c] + args, "files": {"in": f.seg()}, "budget": 400000000, "time": 40, "mem": 2500}
        out.append(Same("converter order/" + c, "src", spec, k, 2, lambda t: t, "file:out").job())
    return out

# --------------------------------------------------------------------- C22: failures
class Fail:
    def __init__(self, name, part, spec, when, want, cost=.5):
        """when(codes) selects the inputs that must fail; want: 'error' or 'menu'."""
        self.name, self.part, self.spec, self.when, self.want, self.cost = name, part, spec, when, want, cost
        T = lambda t: ["text", "stdout", t]
        spec.update({"budget": 200000000, "time": 30, "mem": 2000})
        spec["derived"] = [
            ["verdict", ["or", T("SAT"), T("UNSAT"), T("TIMEOUT")]],
            ["model", ["prefix", "stdout", "The model:"]],
            ["says error", ["or", ["line", "stdout", "**** ERROR ****"], ["linestart", "stderr", "**** ERROR ****"], ["linestart", "stdout", "**** ERROR"], ["linestart", "stdout", "Error"],
                            ["linestart", "stderr", ""]]],
            ["exit0", ["exit", 0]]]
    def obligations(self, z, res):
        g = lambda n: res.guard(z, res.d["derived"][n])
        W = self.when(z, res)
        done = z.Not(res.guard(z, res.d["live"]))
        yield "unfinished", (lambda: conv.unfinished(z, res))
        ab = [res.guard(z, e["g"]) for e in res.d["exits"] if e["how"] not in ("exit", "return")]
        yield "crash", z.Or(*ab) if ab else z.BoolVal(False)
        if res.d["violations"]:
            yield "ub", z.Or(*[res.guard(z, v["g"]) for v in res.d["violations"]])
        if self.want == "error":
            yield "verdict on failure", z.And(W, z.Or(g("verdict"), g("model")))
            yield "status on failure", z.And(W, done, g("exit0"))
            yield "message on failure", z.And(W, done, z.Not(g("says error")))
            # and otherwise it does not fail
            yield "failure without a cause", z.And(z.Not(W), done, z.Not(g("exit0")))
    def judge(self, name, codes):
        argv = core.argv_of(self.spec, codes)
        fs = {k: (None if v is None else vf.seg_text(v, codes)) for k, v in self.spec["files"].items()}
        bad = self.absent(codes)
        if bad and "in" in fs and self.missing:
            fs["in"] = None
        stdin = vf.seg_text(self.spec.get("stdin", ""), codes)
        for k in ("o0", "o3"):
            r = real.run(self.part, k, argv, fs, stdin=stdin, timeout=10)
            if not r.ok:
                continue
            if r.timeout:
                return "%s build: %s with input %r does not end" % (k, " ".join(argv), stdin)
            if r.rc < 0:
                return "%s build: %s with input %r killed by signal %d" % (k, " ".join(argv), stdin, -r.rc)
            if self.want != "error":
                continue
            if not bad:
                if r.rc != 0:
                    return "%s build: %s failed with status %d without a cause" % (k, " ".join(argv), r.rc)
                continue
            a = real.answer(r.out)
            if a.verdicts or "The model:" in r.out:
                return "%s build: %s answers although its input is no good: %s" % (k, " ".join(argv), a.verdicts)
            if r.rc == 0:
                return "%s build: %s reports success although its input is no good" % (k, " ".join(argv))
            if "error" not in r.out.lower() and not r.err:
                return "%s build: %s says nothing about the failure" % (k, " ".join(argv))
        if self.want != "error" or name == "ub":
            return solve.memory_fault(self, codes, files=fs, argv=argv, part=self.part, stdin=stdin)
    missing = False
    def job(self):
        return core.Job(self.name, self.part, self.spec, self.obligations, self.judge, self.cost)

def failures():
    out = []
    # an input that cannot be opened
    for m in solve.SRC + solve.BV:
        part, args, _ = solve.MODES[m]
        f = S.units([2, 3], B + 5, 4)
        e = f.field(2)
        x = Fail("no input/" + m, part, {"fields": f.fields, "argv": ["Solver"] + args + ["-file", "in"], "files": {"in": f.seg()},
                 "openfail": {"in": {"f": e, "codes": [1]}}}, lambda z, res, e=e: res.code(z, e, 1), "error")
        x.missing, x.absent = True, lambda codes, e=e: codes[e] == 1
        out.append(x.job())
    for c in ("-b2f", "-linenc", "-quadenc"):
        f = conv.bool_full(2, [2, 1]) if c == "-b2f" else F.full([2, 3], [2, 1])
        e = f.field(2)
        x = Fail("no input/" + c, "src", {"fields": f.fields, "argv": ["Solver", c, "-file", "in", "-model", "out"], "files": {"in": f.seg()},
                 "openfail": {"in": {"f": e, "codes": [1]}}}, lambda z, res, e=e: res.code(z, e, 1), "error")
        x.missing, x.absent = True, lambda codes, e=e: codes[e] == 1
        out.append(x.job())
        f = conv.bool_full(2, [2, 1]) if c == "-b2f" else F.full([2, 3], [2, 1])
        e = f.field(2)
        spec = {"fields": f.fields, "argv": ["Solver", c, "-file", "in", "-model", [{"f": e, "t": ["out", "/nonexistent/out"]}]], "files": {"in": f.seg()}}
        x = Fail("no output/" + c, "src", spec, lambda z, res, e=e: res.code(z, e, 1), "error")
        x.absent = lambda codes, e=e: codes[e] == 1
        out.append(x.job())
    # domains the bit-vector solver cannot hold
    for m in solve.BV:
        for k, (base, at) in enumerate((([2, 3], 1), ([64, 2, 5], 1), ([2, 3, 5], 3), ([64, 2, 64, 3], 2), ([64, 5, 5], 2))):
            f = S.units(base, B + 6 + k, 4)
            d = f.field(6)
            sizes = [base[at - 1], 64, 65, 66, 100, 200]
            line = "d %d %d\n" % (at, base[at - 1])
            seg = f.seg()
            assert line in seg
            seg = [[{"f": d, "t": ["d %d %d\n" % (at, n) for n in sizes]}] if x == line else x for x in seg]
            x = Fail("domains%d/%s" % (k, m), "bitvec", {"fields": f.fields, "argv": ["Solver"] + solve.MODES[m][1] + ["-file", "in"], "files": {"in": seg}},
                     lambda z, res, d=d: z.Or(*[res.code(z, d, i) for i in (2, 3, 4, 5)]), "error")
            x.absent = lambda codes, d=d: codes[d] > 1
            out.append(x.job())
    # the menu
    for part in ("src", "bitvec"):
        for k, argv in enumerate((["Solver", "-help"], ["Solver"], ["Solver", "-unknown"])):
            f = F.Formula([2])
            alts = ["\n", "0", "1", "2", "3", "4", "5", "6", "7", "x", "-", " "]
            ch = [{"f": f.field(len(alts)), "t": alts} for _ in range(3 if not THOROUGH else 4)]
            ch += [{"f": f.field(4), "t": ["", "\n", "99999999999", "5\n5\n0\n"]}]
            x = Fail("menu/%s%d" % (part, k), part, {"fields": f.fields, "argv": argv, "files": {}, "stdin": ch}, lambda z, res: z.BoolVal(False), "menu")
            x.absent = lambda codes: False
            out.append(x.job())
    return out

"""The converters (-b2f, -linenc, -quadenc) and the generator (-genben)."""
import itertools, random, re
import vf, real, core, formula as F, shapes as S
from core import SEED, THOROUGH

# --------------------------------------------------------------------- Boolean input
class Bool(F.Formula):
    """A Boolean DIMACS text; variable v true is written v, false -v.  Literal (v, s, 1)."""
    def __init__(self, n, clauses=None, head="p cnf"):
        F.Formula.__init__(self, [2] * n, clauses, head)
    def clause_seg(self, c):
        out = []
        tx = lambda l: "%d" % (l[0] if l[1] else -l[0])
        for t in c:
            if len(t) == 2:
                ts = [" ".join(tx(l) for l in a) for a in t[1]]
                w = max(map(len, ts)) + 1
                out.append({"f": t[0], "t": [x.ljust(w) for x in ts]})
            else:
                out.append(tx(t) + " ")
        return out + ["0\n"]
    def seg(self):
        s = ["%s %d %d\n" % (self.head, len(self.doms), len(self.clauses))]
        for c in self.clauses:
            s += self.clause_seg(c)
        return s

def bool_full(n, widths, absent=True):
    f = Bool(n)
    ls = [(v, s, 1) for v in range(1, n + 1) for s in (1, 0)]
    for w in widths:
        f.clauses.append([f.choice([[l] for l in ls] + ([[]] if absent and i else [])) for i in range(w)])
    return f

def bool_skeleton(seed, n, ncl, width, nsym):
    r = random.Random(seed)
    f = Bool(n)
    cl = []
    for _ in range(ncl):
        w = width if isinstance(width, int) else r.choice(width)
        cl.append([(v, r.randint(0, 1), 1) for v in r.sample(range(1, n + 1), min(w, n))])
    pos = [(i, j) for i in range(ncl) for j in range(len(cl[i]))]
    r.shuffle(pos)
    for i, c in enumerate(cl):
        ts = []
        for j, l in enumerate(c):
            if (i, j) in set(pos[:nsym]):
                ts.append(f.choice([[l], [(r.randint(1, n), r.randint(0, 1), 1)]]))
            else:
                ts.append(l)
        f.clauses.append(ts)
    return f

# --------------------------------------------------------------------- formatting of the input
def dress(seg, f, r, n):
    """Spread n formatting choices over a text: separators, blank lines, comments."""
    flat = []
    def add(x):
        if isinstance(x, list):
            for y in x:
                add(y)
        else:
            flat.append(x)
    add(seg)
    spots = []
    for i, x in enumerate(flat):
        if isinstance(x, str) and x.endswith("\n"):
            spots.append((i, "line"))
        else:
            if i:
                spots.append((i, "gap"))
            e = x["t"] if isinstance(x, dict) else [x]
            if all(isinstance(s, str) and (s.endswith(" ") or s == "") for s in e):
                spots.append((i, "sep")); spots.append((i, "sep"))
    r.shuffle(spots)
    pick = dict(spots[:n])
    out = []
    for i, x in enumerate(flat):
        out.append(x)
        if i in pick:
            if pick[i] == "sep":
                # another separator in place of the spaces
                y = out.pop()
                cut = lambda s: s.rstrip(" ")
                out.append({"f": y["f"], "t": [cut(s) for s in y["t"]]} if isinstance(y, dict) else cut(y))
                alts = r.choice([[" ", "\t"], [" ", "\t"], [" ", "\t\t"], [" ", "\t "], [" ", " \t"], [" ", "   "]])
            elif pick[i] == "line":
                alts = r.choice([["", "c a comment: 1=0 2!=1 0\n"], ["", "\n"], ["", "c\n"], ["", " \t\n"], ["", "c p cnf 9 9\n"]])
            else:
                alts = r.choice([["", " "], ["", "\t"], ["", "  \t"]])
            out.append({"f": f.field(2), "t": alts})
    return out

# --------------------------------------------------------------------- the output file
class Out:
    def __init__(self, z, res, stream="file:out"):
        self.z, self.res = z, res
        st = res.d["streams"].get(stream)
        self.care = res.d["care"]
        self.rows = [(t.rstrip("\x01"), g, t.endswith("\x01")) for t, g in (st["lines"] if st else [])]
    def g(self, g):
        return self.z.BoolVal(True) if g == self.care else self.res.guard(self.z, g)

def clause_tokens(t):
    return t.split()

def read_bool(t):
    """Integers of a Boolean clause line, or None."""
    ws = t.split()
    if not ws or ws[-1] != "0" or any(not re.match(r"^-?[1-9]\d*$", w) for w in ws[:-1]):
        return None
    return [int(w) for w in ws[:-1]]

def read_mv(t):
    ws = t.split()
    if not ws or ws[-1] != "0":
        return None
    out = []
    for w in ws[:-1]:
        m = re.match(r"^([1-9]\d*)(!?=)(\d+)$", w)
        if not m:
            return None
        out.append((int(m[1]), 1 if m[2] == "=" else 0, int(m[3])))
    return out

def read_quad(t):
    """[-]v=d tokens; a trailing 0 may be missing."""
    ws = t.split()
    if ws and ws[-1] == "0":
        ws = ws[:-1]
    out = []
    for w in ws:
        m = re.match(r"^(-?)([1-9]\d*)=(\d+)$", w)
        if not m:
            return None
        out.append((int(m[2]), 0 if m[1] else 1, int(m[3])))
    return out

def is_header(t):
    return re.match(r"^p\s+(cnf|mvcnf)\s+(-?\d+)\s+(-?\d+)\s*$", t)

def finished(c):
    z, res = c.z, c.res
    gs = [res.guard(z, e["g"]) for e in res.d["exits"] if e["code"] == 0 and e["how"] in ("exit", "return")]
    return z.Or(*gs) if gs else z.BoolVal(False)

def count_is(z, gs, term_of):
    """Term: the number of true guards is not the claimed one; gs: (guard is whole, term)."""
    base = sum(1 for w, _ in gs if w)
    rest = [t for w, t in gs if not w]
    def differs(n):
        if not rest:
            return z.BoolVal(n != base)
        if n < base or n > base + len(rest):
            return z.BoolVal(True)
        return z.Not(z.PbEq([(t, 1) for t in rest], n - base))
    return differs

def contents(z, res, form):
    """For each input clause: its literals as a set, or {set: condition} when it has free positions."""
    out = []
    for c in form.clauses:
        free = [t for t in c if len(t) == 2]
        base = [t for t in c if len(t) != 2]
        if not free:
            out.append(frozenset(base)); continue
        m = {}
        for pick in itertools.product(*[range(len(t[1])) for t in free]):
            k = frozenset(base + [l for t, i in zip(free, pick) for l in t[1][i]])
            m.setdefault(k, []).append(z.And(*[res.code(z, t[0], i) for t, i in zip(free, pick)]))
        out.append({k: z.Or(*x) for k, x in m.items()})
    return out

def other_clauses(z, res, wanted, rows):
    """The output's clauses (literals, whole, guard) are not exactly the wanted ones, each as often."""
    import collections
    fixed, free = collections.Counter(), {}
    for w in wanted:
        if isinstance(w, frozenset):
            fixed[w] += 1
        else:
            for k, t in w.items():
                free.setdefault(k, []).append(t)
    whole, part = collections.Counter(), {}
    for ls, w, G in rows:
        k = frozenset(ls)
        if w:
            whole[k] += 1
        else:
            part.setdefault(k, []).append(G)
    bad = []
    for k in set(fixed) | set(free) | set(whole) | set(part):
        a, b = free.get(k, []), part.get(k, [])
        # fixed + sum(a) == whole + sum(b)
        n = whole[k] - fixed[k] + len(b)
        ts = [(t, 1) for t in a] + [(z.Not(t), 1) for t in b]
        if not ts:
            if n:
                return z.BoolVal(True)
        elif n < 0 or n > len(ts):
            return z.BoolVal(True)
        else:
            bad.append(z.Not(z.PbEq(ts, n)))
    return z.Or(*bad) if bad else z.BoolVal(False)

class Conv:
    """-b2f, -linenc or -quadenc of one shape."""
    def __init__(self, kind, name, form, seg=None, argv=None, spec=None):
        self.kind, self.form, self.name = kind, form, "%s %s" % (kind, name)
        self.part = "src"
        self.spec = {"fields": list(form.fields), "argv": argv or ["Solver", "-" + kind, "-file", "in", "-model", "out"],
                     "files": {"in": seg if seg is not None else form.seg()}, "budget": 400000000, "time": 40, "mem": 2500}
        self.spec.update(spec or {})
    def job(self, mem=False, cost=1.0):
        return core.Job(self.name, self.part, self.spec, (self.memory if mem else self.obligations),
                        (self.jmem if mem else self.judge), cost)
    # layout of the Boolean variables
    def atoms(self):
        """(variable, value) -> literal over Boolean variables, auxiliary definitions, total number."""
        idx, aux, at = {}, {}, 1
        for v, d in enumerate(self.form.doms, 1):
            if self.kind == "linenc" and d <= 2:
                idx[v, 1] = at; idx[v, 0] = -at; at += 1
                if d == 1:
                    idx[v, 0] = -(at - 1); idx.pop((v, 1))
                continue
            for a in range(d):
                idx[v, a] = at + a
            for j in range(d - 1):
                aux[at + d + j] = (v, j)      # some value up to j
            at += 2 * d - 1
        return idx, aux, at - 1
    def obligations(self, z, res):
        o = Out(z, res)
        form = self.form
        done = finished(o)
        care = res.guard(z, res.d["care"])
        yield "ends normally", z.And(z.Not(res.guard(z, res.d["live"])), z.Not(done))
        if res.d["live"] != 1:
            yield "unfinished", (lambda: unfinished(z, res))
        N = len(form.doms)
        bad, heads, doml, cls = [], [], [], []
        for i, (t, g, cut) in enumerate(o.rows):
            whole = g == o.care
            G = o.g(g)
            if t.strip() == "" or t[0] == "c":
                if self.kind != "b2f":
                    bad.append(G)
                continue
            if t[0] == "p":
                m = is_header(t)
                if not m:
                    bad.append(G)
                else:
                    heads.append((i, int(m[2]), int(m[3]), whole, G))
                continue
            if t[0] == "d" and self.kind == "b2f":
                m = re.match(r"^d\s+(\d+)\s+(\d+)\s*$", t)
                if not m:
                    bad.append(G)
                else:
                    doml.append((i, int(m[1]), int(m[2]), whole, G))
                continue
            c = {"b2f": read_mv, "linenc": read_bool, "quadenc": read_quad}[self.kind](t)
            if c is None or cut:
                bad.append(G)
            else:
                cls.append((i, c, whole, G))
        # header
        hg = [(w, G) for _, _, _, w, G in heads]
        bad.append(count_is(z, hg, None)(1))
        first = {}
        for i, a, b, w, G in heads:
            for j, x in [(c[0], c[3]) for c in cls] + [(d[0], d[4]) for d in doml]:
                if j > i:
                    continue
                if j < i and not w:
                    bad.append(z.And(x, G))
                elif j < i:
                    bad.append(x)
        idx, aux, total = self.atoms()
        want = {"b2f": N, "linenc": total, "quadenc": sum(form.doms)}[self.kind]
        diff = count_is(z, [(c[2], c[3]) for c in cls], None)
        for i, a, b, w, G in heads:
            bad.append(z.And(G, z.Or(z.BoolVal(a != want), diff(b))))
        if self.kind == "b2f":
            of = {}
            for _, x, d, w, G in doml:
                of.setdefault(x, []).append((w, G))
            for v in range(1, N + 1):
                bad.append(count_is(z, of.get(v, []), None)(1))
            most, firstcl = 0, min([c[0] for c in cls], default=1 << 60)
            for k, (i, x, d, w, G) in enumerate(doml):
                if not (1 <= x <= N) or d != 2:
                    bad.append(G)
                if most > x:
                    bad += [z.And(G, G2) for j, y, e, w2, G2 in doml[:k] if y > x]
                most = max(most, x)
                if firstcl < i:
                    bad += [z.And(G, G2) for j, c, w2, G2 in cls if j < i]
        yield "form of the output", z.And(done, z.Or(*bad))
        # meaning
        if self.kind == "b2f":
            x = {v: z.Bool("x%d" % v) for v in range(1, N + 1)}
            val = lambda v, a: x[v] if a == 1 else z.Not(x[v]) if a == 0 else z.BoolVal(False)
            lit = lambda l: z.BoolVal(False) if not 1 <= l[0] <= N else val(l[0], l[2]) if l[1] else z.Not(val(l[0], l[2]))
            outsat = z.And(*[z.Or(z.Not(G), *[lit(l) for l in c]) for _, c, w, G in cls])
            insat = form.sat_under(z, res, lambda v, a: val(v, a))
            yield "same models", z.And(done, z.Xor(insat, outsat))
            ins = contents(z, res, form)
            flip = lambda c: [(v, 1, a if s else 1 - a) for v, s, a in c]
            turn = lambda c: [(v, s, 1 - a) for v, s, a in c]
            ins = [frozenset(flip(c)) if isinstance(c, frozenset) else {frozenset(flip(k)): t for k, t in c.items()} for c in ins]
            rows = [(flip(c), w, G) for _, c, w, G in cls]
            yield "other clauses", z.And(done, other_clauses(z, res, ins, rows), other_clauses(z, res, ins, [(turn(c), w, G) for c, w, G in rows]))
        elif self.kind == "quadenc":
            x = {(v, a): z.Bool("x%d_%d" % (v, a)) for v in range(1, N + 1) for a in range(form.doms[v - 1])}
            lit = lambda l: x.get((l[0], l[2]), z.BoolVal(False)) if l[1] else z.Not(x.get((l[0], l[2]), z.BoolVal(True)))
            outsat = z.And(*[z.Or(z.Not(G), *[lit(l) for l in c]) for _, c, w, G in cls])
            one = z.And(*[z.And(z.Or(*[x[v, a] for a in range(d)]),
                                *[z.Or(z.Not(x[v, a]), z.Not(x[v, b])) for a in range(d) for b in range(a + 1, d)])
                          for v, d in enumerate(form.doms, 1)])
            insat = form.sat_under(z, res, lambda v, a: x.get((v, a), z.BoolVal(False)))
            yield "same models", z.And(done, z.Xor(outsat, z.And(one, insat)))
            yield "other clauses", z.And(done, other_clauses(z, res, contents(z, res, form) + self.domain_clauses(), [(c, w, G) for _, c, w, G in cls]))
        else:
            xs = [None] + [z.Bool("x%d" % i) for i in range(1, total + 1)]
            blit = lambda k: z.BoolVal(False) if abs(k) > total else xs[k] if k > 0 else z.Not(xs[-k])
            outsat = z.And(*[z.Or(z.Not(G), *[blit(k) for k in c]) for _, c, w, G in cls])
            val = lambda v, a: blit(idx[v, a]) if (v, a) in idx else z.BoolVal(False)
            insat = form.sat_under(z, res, val)
            one = []
            for v, d in enumerate(form.doms, 1):
                ys = [val(v, a) for a in range(d)]
                one += [z.Or(*ys)] + [z.Or(z.Not(p), z.Not(q)) for p, q in itertools.combinations(ys, 2)]
            one = z.And(*one)
            yield "models of the output are models", z.And(done, outsat, z.Not(z.And(one, insat)))
            defs = z.And(*[xs[k] == z.Or(*[val(v, i) for i in range(j + 1)]) for k, (v, j) in aux.items()]) if aux else z.BoolVal(True)
            yield "models are kept", z.And(done, one, insat, defs, z.Not(outsat))
        if res.d["violations"]:
            yield "ub", z.Or(*[res.guard(z, v["g"]) for v in res.d["violations"]])
    def domain_clauses(self):
        return [frozenset((v, 1, a) for a in range(d)) for v, d in enumerate(self.form.doms, 1)] + \
               [frozenset(((v, 0, a), (v, 0, b))) for v, d in enumerate(self.form.doms, 1) for a in range(d) for b in range(a)]
    def memory(self, z, res):
        vs = res.d["violations"]
        for v in vs:
            yield "%s at %s" % (v["kind"], v["loc"]), res.guard(z, v["g"])
        if not vs:
            yield "no fault", z.BoolVal(False)
    # --- the real program
    def jmem(self, name, codes):
        import solve
        return solve.memory_fault(self, codes, files={"in": vf.seg_text(self.spec["files"]["in"], codes)},
                                  argv=core.argv_of(self.spec, codes), part="src")
    def judge(self, name, codes):
        argv = core.argv_of(self.spec, codes)
        text = vf.seg_text(self.spec["files"]["in"], codes)
        for k in ("o0", "o3"):
            r = real.run("src", k, argv, {"in": text}, timeout=20)
            if not r.ok:
                continue
            if r.timeout:
                return "%s build: does not end within 20 s" % k
            if r.rc != 0:
                return "%s build: ended with status %s" % (k, r.rc)
            w = self.wrong(r.files.get("out"), codes)
            if w:
                return "%s build: %s" % (k, w)
    def wrong(self, out, codes):
        """What is wrong with an actual output file, or None."""
        import z3 as z
        if out is None:
            return "no output file"
        form, N = self.form, len(self.form.doms)
        heads, doml, cls = [], [], []
        for t in out.split("\n")[:-1]:
            if t.strip() == "" or t[0] == "c":
                if self.kind != "b2f":
                    return "unexpected line %r" % t
                continue
            if t[0] == "p":
                m = is_header(t)
                if not m or heads or doml or cls:
                    return "problem line %r" % t
                heads.append((int(m[2]), int(m[3])))
            elif t[0] == "d" and self.kind == "b2f":
                m = re.match(r"^d\s+(\d+)\s+(\d+)\s*$", t)
                if not m or cls:
                    return "domain line %r" % t
                doml.append((int(m[1]), int(m[2])))
            else:
                c = {"b2f": read_mv, "linenc": read_bool, "quadenc": read_quad}[self.kind](t)
                if c is None:
                    return "clause line %r" % t
                cls.append(c)
        if not out.endswith("\n"):
            return "last line cut"
        if len(heads) != 1:
            return "%d problem lines" % len(heads)
        idx, aux, total = self.atoms()
        want = {"b2f": N, "linenc": total, "quadenc": sum(form.doms)}[self.kind]
        if heads[0] != (want, len(cls)):
            return "the problem line promises %s, the output has %d variables and %d clauses" % (heads[0], want, len(cls))
        if self.kind == "b2f" and doml != [(v, 2) for v in range(1, N + 1)]:
            return "domain lines %s for %d variables" % (doml, N)
        cin = form.concrete(codes)
        s = z.Solver()
        mv = {(v, a): z.Bool("m%d_%d" % (v, a)) for v in range(1, N + 1) for a in range(form.doms[v - 1])}
        one = z.And(*[z.PbEq([(mv[v, a], 1) for a in range(d)], 1) for v, d in enumerate(form.doms, 1)])
        lit = lambda l: z.BoolVal(False) if (l[0], l[2]) not in mv else mv[l[0], l[2]]
        sl = lambda l: lit(l) if l[1] else z.Not(lit(l))
        ins = z.And(one, *[z.Or(*[sl(l) for l in c]) for c in cin])
        if self.kind == "b2f":
            outs = z.And(one, *[z.Or(*[sl(l) for l in c]) for c in cls])
            s.add(z.Xor(ins, outs))
            if s.check() == z.sat:
                return "not the same models: %s became %s" % (cin, cls)
            key = lambda cs, t=0: sorted(sorted({(v, a ^ t if p else 1 - a ^ t) for v, p, a in c}) for c in cs)
            if key(cin) not in (key(cls), key(cls, 1)):
                return "other clauses: %s became %s" % (cin, cls)
        elif self.kind == "quadenc":
            outs = z.And(*[z.Or(*[sl(l) for l in c]) for c in cls])
            s.add(z.Xor(ins, outs))
            if s.check() == z.sat:
                return "not the same models"
            key = lambda cs: sorted(sorted(set(c)) for c in cs)
            if key(cls) != key(cin + [list(c) for c in self.domain_clauses()]):
                return "other clauses than the input's and the domains': %s became %s" % (cin, cls)
        else:
            xs = [None] + [z.Bool("x%d" % i) for i in range(1, total + 1)]
            if any(abs(k) > total for c in cls for k in c):
                return "variable beyond the problem line"
            outs = [z.Or(*[xs[k] if k > 0 else z.Not(xs[-k]) for k in c]) for c in cls]
            link = [mv[v, a] == (xs[k] if k > 0 else z.Not(xs[-k])) for (v, a), k in idx.items()]
            s.add(*outs, *link, z.Not(ins))
            if s.check() == z.sat:
                return "a model of the output is no model of the input"
            # every model of the input extends: at most 500 models, else a sample by the solver
            e = z.Solver(); e.add(ins)
            t = z.Solver(); t.add(*outs, *link)
            n = 0
            while n < 500 and e.check() == z.sat:
                m = e.model(); n += 1
                b = [mv[q] if z.is_true(m.eval(mv[q], model_completion=True)) else z.Not(mv[q]) for q in mv]
                if t.check(*b) != z.sat:
                    return "a model of the input is lost: %s" % [q for q in mv if z.is_true(m.eval(mv[q]))]
                e.add(z.Not(z.And(*b)))
        return None

# --------------------------------------------------------------------- generator
class Gen:
    def __init__(self, name, n, m, w, dom=2, sat=1, drand=0, boolean=False, draws=10, vals=None, fill=None, order=None, seed=1):
        self.n, self.m, self.w, self.dom, self.sat, self.drand, self.boolean = n, m, w, dom, sat, drand, boolean
        self.name, self.part = "genben " + name, "src"
        r = random.Random(SEED * 77 + seed)
        self.fields, self.rand = [], []
        for i in range(draws):
            vs = list(vals) if vals else sorted(r.sample(range(0, 60), 4))
            self.fields.append({"name": "r%d" % i, "n": len(vs)})
            self.rand.append({"f": "r%d" % i, "t": vs})
        self.fill = fill or [r.randrange(0, 1000) for _ in range(97)]
        opts = [["-var", str(n)], ["-clause", str(m)], ["-clausesize", str(w)], ["-sat", str(sat)], ["-domain", str(dom)],
                ["-drand", str(drand)], ["-bool", "0" if boolean else "1"], ["-file", "out"]]
        r.shuffle(opts)
        self.spec = {"fields": self.fields, "argv": ["Solver", "-genben"] + [x for o in opts for x in o],
                     "files": {}, "rand": self.rand, "randfill": self.fill, "budget": 400000000, "time": 40, "mem": 2500}
    def job(self, mem=False, cost=1.0):
        return core.Job(self.name, self.part, self.spec, (self.memory if mem else self.obligations),
                        (self.jmem if mem else self.judge), cost)
    def obligations(self, z, res):
        o = Out(z, res)
        done = finished(o)
        n, m, w = self.n, self.m, self.w
        yield "ends normally", z.And(z.Not(res.guard(z, res.d["live"])), z.Not(done))
        if res.d["live"] != 1:
            yield "unfinished", (lambda: unfinished(z, res))
        bad, heads, doml, cls = [], [], [], []
        for i, (t, g, cut) in enumerate(o.rows):
            whole, G = g == o.care, o.g(g)
            if t.startswith("p"):
                h = is_header(t)
                if not h or (int(h[2]), int(h[3])) != (n, m):
                    bad.append(G)
                heads.append((i, whole, G))
            elif t.startswith("d") and not self.boolean:
                k = re.match(r"^d\s+(\d+)\s+(\d+)\s*$", t)
                if not k or not 1 <= int(k[1]) <= n or not (1 <= int(k[2]) <= self.dom if self.drand else int(k[2]) == self.dom):
                    bad.append(G)
                else:
                    doml.append((i, int(k[1]), int(k[2]), whole, G))
            else:
                c = self.read(t)
                if c is None or cut:
                    bad.append(G)
                else:
                    cls.append((i, c, whole, G))
        bad.append(count_is(z, [(a, b) for _, a, b in heads], None)(1))
        bad.append(count_is(z, [(c[2], c[3]) for c in cls], None)(m))
        if not self.boolean:
            of, uses = {}, {}
            for x in doml:
                of.setdefault(x[1], []).append((x[3], x[4]))
            for v in range(1, n + 1):
                bad.append(count_is(z, of.get(v, []), None)(1))
            for j, c, _, H in cls:
                for l in c:
                    uses.setdefault(l[0], []).append((l[2], H))
            most, firstcl = 0, min([c[0] for c in cls], default=1 << 60)
            for k, (i, v, d, wh, G) in enumerate(doml):
                if most > v:
                    bad += [z.And(G, H) for j, u, e, _, H in doml[:k] if u > v]
                most = max(most, v)
                if firstcl < i:
                    bad += [z.And(G, H) for j, c, _, H in cls if j < i]
                bad += [z.And(G, H) for j, _, H in heads if j > i]
                # literals within the domain
                bad += [z.And(G, H) for a, H in uses.get(v, []) if not a < d]
        for i, wh, G in heads:
            bad += [z.And(G, H) for j, c, _, H in cls if j < i]
        yield "form of the output", z.And(done, z.Or(*bad))
        if self.sat:
            # no assignment satisfies the printed clauses
            def lost():
                import time
                t0, q = time.time(), 0
                A = z.SolverFor("QF_FD"); A.add(res.guard(z, res.d["care"]), done)
                Bs = z.SolverFor("QF_FD"); Bs.add(res.guard(z, res.d["care"]), done)
                top = {}
                for _, x, d, _, _ in doml:
                    top[x] = max(d, top.get(x, 1))
                # variables without clauses do not matter; equal lines that are always written count once
                rows, seen = [], set()
                for _, c, whole, G in cls:
                    if whole and tuple(c) in seen:
                        continue
                    if whole:
                        seen.add(tuple(c))
                    rows.append((c, whole, G))
                used = sorted({l[0] for c, _, _ in rows for l in c})
                top = {v: 2 if self.boolean else top.get(v, 1) for v in used}
                # in a large domain, of the values no clause names the least stands for all
                vals = {v: set() for v in used}
                for c, _, _ in rows:
                    for l in c:
                        if 0 <= l[2] < top[l[0]]:
                            vals[l[0]].add(l[2])
                for v in used:
                    vals[v] = list(range(top[v])) if top[v] < 2000 else sorted(vals[v] | set([a for a in range(min(top[v], len(vals[v]) + 1)) if a not in vals[v]][:1]))
                mv = {(v, a): z.Bool("a%d_%d" % (v, a)) for v in used for a in vals[v]}
                for v in used:
                    xs = [mv[v, a] for a in vals[v]]
                    Bs.add(z.Or(*xs))
                    if len(xs) < 12:
                        Bs.add(*[z.Or(z.Not(x), z.Not(y)) for x, y in itertools.combinations(xs, 2)])
                    else:
                        Bs.add(z.AtMost(*xs, 1))
                for c, whole, G in rows:
                    Bs.add(z.Or(*([] if whole else [z.Not(G)]), *[mv.get((l[0], l[2]), z.BoolVal(False)) for l in c]))
                for _, v, d, _, G in doml:
                    if v in top:
                        Bs.add(*[z.Or(z.Not(G), z.Not(mv[v, a])) for a in vals[v] if a >= d])
                # a model at hand: the literals that stand first (or second, ...) in all clauses never contradict each other
                for p in range(self.w):
                    at = {}
                    for c, whole, G in rows:
                        at.setdefault(c[p][0], {}).setdefault(c[p][2], []).append(z.BoolVal(True) if whole else G)
                    clash = []
                    for v, by in at.items():
                        P = {a: z.Or(*gs) for a, gs in by.items()}
                        clash += [z.And(x, y) for x, y in itertools.combinations(P.values(), 2)]
                        clash += [z.And(P[a], G) for _, u, d, _, G in doml if u == v for a in P if a >= d]
                    if len(clash) > 20000:
                        break
                    A.push(); A.add(z.Or(*clash)); A.set("timeout", 8000); r = A.check(); q += 1; A.pop()
                    if r == z.unsat:
                        return "holds", [], time.time() - t0, q
                    if p > 4:
                        break
                while time.time() - t0 < (40 if not THOROUGH else 300):
                    A.set("timeout", 30000); r = A.check(); q += 1
                    if r == z.unsat:
                        return "holds", [], time.time() - t0, q
                    if r != z.sat:
                        break
                    codes = res.decode(A.model(), z)
                    Bs.push(); Bs.set("timeout", 30000)
                    for f in res.order:
                        Bs.add(res.code(z, f, codes[f]))
                    r = Bs.check(); q += 1
                    m = Bs.model() if r == z.sat else None
                    Bs.pop()
                    if r == z.unsat:
                        return "violated", [codes], time.time() - t0, q
                    if r != z.sat:
                        break
                    asg = {v: next(a for a in vals[v] if z.is_true(m.eval(mv[v, a]))) for v in used}
                    ok = [z.Not(G) for c, _, G in rows if not any(asg[l[0]] == l[2] for l in c)]
                    ok += [z.Not(G) for _, v, d, _, G in doml if v in top and asg[v] >= d]
                    A.add(z.Not(z.And(*ok)))
                return "unknown", [], time.time() - t0, q
            yield "satisfiable", lost
        if res.d["violations"]:
            yield "ub", z.Or(*[res.guard(z, v["g"]) for v in res.d["violations"]])
    memory = Conv.memory
    def read(self, t):
        """A clause line as literals, or None when malformed, of the wrong size or repetitive."""
        if self.boolean:
            c = read_bool(t)
            if c is None or len(c) != self.w or len({abs(k) for k in c}) != len(c) or any(abs(k) > self.n for k in c):
                return None
            return [(abs(k), 1, 1 if k > 0 else 0) for k in c]
        c = read_mv(t)
        if c is None or len(c) != self.w or len({l[0] for l in c}) != len(c) or any(l[0] > self.n for l in c):
            return None
        return c
    def draws(self, codes):
        ns = [r["t"][codes[r["f"]]] for r in self.rand]
        return {"VF_RAND": " ".join(map(str, ns)), "VF_FILL": " ".join(map(str, self.fill))}
    def jmem(self, name, codes):
        import solve
        env = self.draws(codes)
        # the interposed rand() does not load under the address sanitizer's rules, so link it in order
        return solve.memory_fault(self, codes, files={}, argv=self.spec["argv"], part="src", env=env,
                                  preload=real.shim("rand", real.RAND))
    def judge(self, name, codes):
        for k in ("o0", "o3"):
            r = real.run("src", k, self.spec["argv"], {}, env=self.draws(codes), preload=real.shim("rand", real.RAND), timeout=15)
            if not r.ok:
                continue
            if r.timeout:
                return "%s build: no output within 15 s for the draws %s" % (k, self.draws(codes)["VF_RAND"])
            if r.rc != 0:
                return "%s build: ended with status %s" % (k, r.rc)
            w = self.wrong(r.files.get("out"))
            if w:
                return "%s build, draws %s: %s" % (k, self.draws(codes)["VF_RAND"], w)
    def wrong(self, out):
        if out is None:
            return "no output file"
        ls = out.split("\n")
        if ls.pop() != "":
            return "last line cut"
        h = is_header(ls[0]) if ls else None
        if not h or (int(h[2]), int(h[3])) != (self.n, self.m):
            return "problem line %r" % (ls[:1],)
        ls, doms = ls[1:], [2] * self.n
        if not self.boolean:
            for v in range(1, self.n + 1):
                k = re.match(r"^d\s+(\d+)\s+(\d+)\s*$", ls[v - 1]) if v <= len(ls) else None
                if not k or int(k[1]) != v or not (1 <= int(k[2]) <= self.dom if self.drand else int(k[2]) == self.dom):
                    return "domain line of variable %d: %r" % (v, ls[v - 1:v])
                doms[v - 1] = int(k[2])
            ls = ls[self.n:]
        cls = []
        for t in ls:
            c = self.read(t)
            if c is None or any(l[2] >= doms[l[0] - 1] for l in c):
                return "clause line %r" % t
            cls.append(c)
        if len(cls) != self.m:
            return "%d clauses instead of %d" % (len(cls), self.m)
        if self.sat and not S.satisfiable(doms, cls):
            return "asked for a satisfiable problem, wrote an unsatisfiable one: %s" % cls
        return None

def unfinished(z, res):
    v, codes, sec, q = core.solve_term(z, res, res.guard(z, res.d["spin"]), models=2)
    return ("unknown" if v == "violated" else v), codes, sec, q

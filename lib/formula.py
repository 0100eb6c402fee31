"""Symbolic many-valued formulas: shapes, text, and their meaning (independent of /repo's code)."""
import itertools, random

def lit_text(l):
    return "%d%s%d" % (l[0], "=" if l[1] else "!=", l[2])

class Formula:
    """doms: domain size of variables 1..n.  clauses: lists of terms; a term is a literal
    (var, positive, value) or a choice (field, [alternative, ...]) whose alternatives are
    lists of literals."""
    def __init__(self, doms, clauses=None, head="p cnf"):
        self.doms, self.clauses, self.fields, self.head = list(doms), clauses or [], [], head
        self.comments = []
    def field(self, n, name=None):
        name = name or "f%d" % len(self.fields)
        self.fields.append({"name": name, "n": n})
        return name
    def choice(self, alts):
        return (self.field(len(alts)), [list(a) if isinstance(a, list) else [a] for a in alts])
    # --- text
    def clause_seg(self, c):
        out = []
        for t in c:
            if len(t) == 2:
                ts = [" ".join(lit_text(l) for l in a) for a in t[1]]
                w = max(map(len, ts)) + 1
                out.append({"f": t[0], "t": [x.ljust(w) for x in ts]})
            else:
                out.append(lit_text(t) + " ")
        return out + ["0\n"]
    def seg(self):
        s = ["c\n" if 0 else "", "%s %d %d\n" % (self.head, len(self.doms), len(self.clauses))]
        s += ["d %d %d\n" % (i + 1, d) for i, d in enumerate(self.doms)]
        for c in self.clauses:
            s += self.clause_seg(c)
        return [x for x in s if x]
    # --- concrete meaning
    def concrete(self, codes):
        """Clauses as lists of literals under chosen alternatives."""
        out = []
        for c in self.clauses:
            ls = []
            for t in c:
                ls += t[1][codes[t[0]]] if len(t) == 2 else [t]
            out.append(ls)
        return out
    # --- symbolic meaning: z3 terms over the field codes of an engine result
    def sat_under(self, z, res, val):
        """val(var, value) -> z3 Bool: the formula is satisfied by that assignment."""
        lit = lambda l: val(l[0], l[2]) if l[1] else z.Not(val(l[0], l[2]))
        cs, seen = [], set()
        for c in self.clauses:
            if all(len(t) == 3 for t in c):
                if tuple(c) in seen:
                    continue
                seen.add(tuple(c))
            ds = []
            for t in c:
                if len(t) == 2:
                    for k, a in enumerate(t[1]):
                        if a:
                            ds.append(z.And(res.code(z, t[0], k), z.Or(*[lit(l) for l in a])))
                else:
                    ds.append(lit(t))
            cs.append(z.Or(*ds) if ds else z.BoolVal(False))
        return z.And(*cs) if cs else z.BoolVal(True)
    def assignment(self, z, tag="m"):
        """Fresh total assignment: (val function, constraint)."""
        x = {(v, a): z.Bool("%s_%d_%d" % (tag, v, a)) for v in range(1, len(self.doms) + 1) for a in range(self.doms[v - 1])}
        cons = []
        for v in range(1, len(self.doms) + 1):
            xs = [x[v, a] for a in range(self.doms[v - 1])]
            if len(xs) > 40:
                cons.append(z.PbEq([(a, 1) for a in xs], 1))
                continue
            cons.append(z.Or(*xs))
            cons += [z.Or(z.Not(p), z.Not(q)) for p, q in itertools.combinations(xs, 2)]
        return (lambda v, a: x.get((v, a), z.BoolVal(False))), z.And(*cons)

def satisfies(clauses, m):
    return all(any((m[v] == a) == bool(s) for v, s, a in c) for c in clauses)

def holds(clauses, m):
    return all(any((m[v] == a) == bool(s) for v, s, a in c) for c in clauses)

def find_model(doms, clauses, partial=None):
    """A model of concrete clauses, or None; partial: {var: value} to extend.  A model found is checked again by evaluation."""
    import z3 as z
    s = z.SolverFor("QF_FD"); s.set("timeout", 60000)
    x = {(v, a): z.Bool("t%d_%d" % (v, a)) for v, d in enumerate(doms, 1) for a in range(d)}
    for v, d in enumerate(doms, 1):
        s.add(z.PbEq([(x[v, a], 1) for a in range(d)], 1))
    lit = lambda l: x.get((l[0], l[2]), z.BoolVal(False)) if l[1] else z.Not(x.get((l[0], l[2]), z.BoolVal(False)))
    for c in clauses:
        s.add(z.Or(*[lit(l) for l in c]))
    for v, a in (partial or {}).items():
        if (v, a) not in x:
            return None
        s.add(x[v, a])
    r = s.check()
    if r == z.unsat:
        return None
    if r != z.sat:
        raise RuntimeError("no decision on a concrete formula")
    m = s.model()
    m = {v: next(a for a in range(d) if z.is_true(m.eval(x[v, a]))) for v, d in enumerate(doms, 1)}
    assert holds(clauses, m)
    return m

def all_lits(doms, neg=True):
    return [(v, s, a) for v in range(1, len(doms) + 1) for s in ((1, 0) if neg else (1,)) for a in range(doms[v - 1])]

def full(doms, widths, neg=True, absent=False, unsym=()):
    """Every literal position ranges over every literal."""
    f = Formula(doms)
    ls = all_lits(doms, neg)
    for w in widths:
        f.clauses.append([f.choice([[l] for l in ls] + ([[]] if absent and i else [])) for i in range(w)])
    return f

def skeleton(seed, doms, ncl, width, nsym, alts=2, neg=0.4, twist=None):
    """Random clauses in which nsym literal positions range over `alts` literals."""
    r = random.Random(seed)
    f = Formula(doms)
    def rl(avoid=()):
        while True:
            v = r.randint(1, len(doms))
            if v in avoid and len(avoid) < len(doms):
                continue
            return (v, 0 if r.random() < neg else 1, r.randrange(doms[v - 1]))
    cl = []
    for i in range(ncl):
        c = []
        for j in range(width if isinstance(width, int) else r.choice(width)):
            c.append(rl([l[0] for l in c]))
        cl.append(c)
    pos = [(i, j) for i in range(ncl) for j in range(len(cl[i]))]
    r.shuffle(pos)
    sym = set(pos[:nsym])
    for i, c in enumerate(cl):
        ts = []
        for j, l in enumerate(c):
            if (i, j) in sym:
                a = [[l]]
                while len(a) < alts:
                    x = [rl([m[0] for k, m in enumerate(c) if k != j])] if r.random() < .7 else [(l[0], 1 - l[1], l[2])]
                    if x not in a:
                        a.append(x)
                ts.append(f.choice(a))
            else:
                ts.append(l)
        f.clauses.append(ts)
    return f

"""Shapes of input: which formulas the symbolic runs range over."""
import random
import formula as F, vf

def satisfiable(doms, clauses):
    """With z3, for choosing shapes only."""
    import z3 as z
    s = z.Solver()
    x = {(v, a): z.Bool("s%d_%d" % (v, a)) for v in range(1, len(doms) + 1) for a in range(doms[v - 1])}
    for v in range(1, len(doms) + 1):
        s.add(z.PbEq([(x[v, a], 1) for a in range(doms[v - 1])], 1))
    for c in clauses:
        s.add(z.Or(*[x[v, a] if p else z.Not(x[v, a]) for v, p, a in c]))
    return s.check() == z.sat

def rlit(r, doms, avoid=(), neg=.4):
    while True:
        v = r.randint(1, len(doms))
        if v in avoid and len(set(avoid)) < len(doms):
            continue
        return (v, 0 if r.random() < neg else 1, r.randrange(doms[v - 1]))

def rclause(r, doms, w, neg=.4):
    c = []
    for _ in range(w if isinstance(w, int) else r.choice(w)):
        c.append(rlit(r, doms, [l[0] for l in c], neg))
    return c

def symbolise(f, r, cl, nsym, alts, neg=.4, pos=None):
    """Make nsym literal positions of the clauses range over `alts` literals."""
    doms = f.doms
    if pos is None:
        pos = [(i, j) for i in range(len(cl)) for j in range(len(cl[i]))]
        r.shuffle(pos)
    sym = set(pos[:nsym])
    for i, c in enumerate(cl):
        ts = []
        for j, l in enumerate(c):
            if (i, j) in sym:
                a = [[l]]
                while len(a) < alts:
                    x = [rlit(r, doms, [m[0] for k, m in enumerate(c) if k != j], neg)] if r.random() < .6 else [(l[0], 1 - l[1], l[2])]
                    if x not in a:
                        a.append(x)
                ts.append(f.choice(a))
            else:
                ts.append(l)
        f.clauses.append(ts)
    return f

def critical(seed, doms, width, nsym, alts=2, neg=.4, less=1, front=False):
    """Random clauses up to the point where the conjunction becomes unsatisfiable, with symbolic
    literals; so that both answers, and long searches, occur."""
    r = random.Random(seed)
    cl = []
    while True:
        for _ in range(max(1, len(doms) // 4)):
            cl.append(rclause(r, doms, width, neg))
        if len(cl) > len(doms) and not satisfiable(doms, cl):
            break
    for _ in range(less):
        cl.pop(r.randrange(len(cl)))
    if not front:
        r.shuffle(cl)
    return symbolise(F.Formula(doms), r, cl, nsym, alts, neg)

def pigeons(n, holes, nsym, seed=1, drop=0):
    """n pigeons with `holes` holes as many-valued variables; nsym literals symbolic."""
    r = random.Random(seed)
    cl = [[(i, 0, h), (j, 0, h)] for h in range(holes) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    for _ in range(drop):
        cl.pop(r.randrange(len(cl)))
    return symbolise(F.Formula([holes] * n), r, cl, nsym, 2)

def longrow(doms, w, nsym, seed=1, ncl=6, neg=.2):
    """Long clauses."""
    r = random.Random(seed)
    cl = []
    for _ in range(ncl):
        ls = []
        while len(ls) < w:
            l = rlit(r, doms, (), neg)
            if l not in ls:
                ls.append(l)
        cl.append(ls)
    return symbolise(F.Formula(doms), r, cl, nsym, 2)

def units(doms, seed, nsym, neg=.5, extra=2):
    """Unit clauses and short chains."""
    r = random.Random(seed)
    cl = [rclause(r, doms, [1, 2, 2, 3], neg) for _ in range(len(doms) + extra)]
    return symbolise(F.Formula(doms), r, cl, nsym, 2, neg)

def odd(doms, widths, neg=True):
    """Positions may be left out: empty clauses, repeated literals and tautologies included."""
    f = F.Formula(doms)
    ls = F.all_lits(doms, neg)
    for w in widths:
        f.clauses.append([f.choice([[l] for l in ls] + [[]]) for i in range(w)])
    return f

def loose(seed, doms, width, nsym, neg=.5, less=2):
    """As critical, but a clause may hold several literals over one variable, tautologies included."""
    r = random.Random(seed)
    cl = []
    while True:
        for _ in range(max(1, len(doms) // 3)):
            cl.append([rlit(r, doms, (), neg) for _ in range(width if isinstance(width, int) else r.choice(width))])
        if len(cl) > len(doms) and not satisfiable(doms, cl):
            break
    for _ in range(less):
        cl.pop(r.randrange(len(cl)))
    r.shuffle(cl)
    f, pos = F.Formula(doms), [(i, j) for i in range(len(cl)) for j in range(len(cl[i]))]
    r.shuffle(pos)
    for i, c in enumerate(cl):
        f.clauses.append([f.choice([[l], [rlit(r, doms, (), neg)]]) if (i, j) in pos[:nsym] else l for j, l in enumerate(c)])
    return f

def padded(seed, doms, width, nsym, pad, before=True):
    """A critical formula whose clauses carry `pad` literals that unit clauses make false."""
    r = random.Random(seed)
    f = critical(seed, doms, width, nsym, neg=.5)
    n = len(doms)
    f.doms = f.doms + [2 if k % 3 else 3 for k in range(pad)]
    vs = range(n + 1, n + pad + 1)
    cl = []
    for c in f.clauses:
        p = [(v, 1, 1) for v in vs]
        at = pad if before is True else 0 if before is False else r.randrange(pad)
        cl.append(p[:at] + list(c) + p[at:])
    u = [[(v, 1, 0)] if v % 2 else [(v, 0, 1)] for v in vs]
    f.clauses = u + cl
    return f

def crowd(seed, doms, n, extra=4):
    """More clauses, or variables, than 16 bits count: n clauses over a few variables, or n variables fixed by units."""
    r = random.Random(seed)
    f = F.Formula(doms)
    k = len(doms)
    f.clauses = [[(v, 1, doms[v - 1] - 1)] if r.random() < .5 or doms[v - 1] > 2 else [(v, 0, 0)] for v in range(1, k - 3)]
    vs = list(range(max(1, k - 3), k + 1))
    lits = [(v, s, a) for v in vs for s in (1, 0) for a in range(min(4, doms[v - 1]))]
    def cl(w):
        return [r.choice(lits) for _ in range(w)]
    for i in range(n):
        f.clauses.append([(vs[0], 1, 0), (vs[-1], 0, 0)] if i % 3 else [(vs[1], 1, 1), (vs[0], 0, 1), (vs[-1], 1, 1)])
    for i in range(extra):
        c = cl(2)
        f.clauses.append([f.choice([[c[0]], [r.choice(lits)]]), c[1]])
    if n:
        f.clauses.append([(vs[0], 0, 0), (vs[-1], 0, 1)])
    return f

def hated(seed, n, extra=5):
    """Two variables each of whose values is ruled out by n clauses more than it satisfies, and that any model still needs."""
    r = random.Random(seed)
    D = [2, 2, 2, 3, 2]
    f = F.Formula(D)
    for i in range(n):
        f.clauses.append([(1, 0, i % 2), (2, 0, i % 2), (3, 1, 1)])
    def lit():
        v = r.choice((3, 3, 4, 5))
        return (v, r.randrange(2), r.randrange(D[v - 1]))
    for _ in range(extra):
        f.clauses.append([f.choice([[lit()], [lit()]]), lit()])
    f.clauses.append([f.choice([[(3, 1, 0)], [lit()]]), f.choice([[(3, 1, 0)], [(4, 1, 2)]])])
    return f

def longline(seed, doms, n, extra=6):
    """A clause written on one line of more than 16 bits' worth of characters, its last literals symbolic."""
    r = random.Random(seed)
    f = F.Formula(doms + [2])
    v = len(doms) + 1
    f.clauses = [[(v, 1, 0)]]
    core = [rlit(r, doms) for _ in range(2)]
    f.clauses.append([(v, 1, 1)] * n + [f.choice([[l], [rlit(r, doms)]]) for l in core])
    for _ in range(extra):
        c = rclause(r, doms, 2)
        f.clauses.append([f.choice([[c[0]], [rlit(r, doms)]]), c[1]])
    return f

def levels(seed, n, core, width, nsym, links=4):
    """n variables that every heuristic prefers, so that the clauses of a critical core, some of them tied to
    those variables, come into play n decisions deep."""
    r = random.Random(seed)
    f = critical(seed, core, width, nsym, neg=.5)
    p = n // 2 + len(core) + n      # first of the variables that only fill the clauses of the preferred ones
    f.doms = [2 + (i % 5 == 0) for i in range(n)] + f.doms + [3] * (n // 2)
    def shift(t):
        return (t[0] + n,) + t[1:] if len(t) == 3 else (t[0], [[shift(l) for l in a] for a in t[1]])
    cl = [[shift(t) for t in c] for c in f.clauses]
    fill = [[(v, 1, 1), (p - (v * 9 + k) // 3 % (n // 2), 1, (v * 9 + k) % 3)] for v in range(1, n + 1) for k in range(9)]
    for k in range(links):
        cl[r.randrange(len(cl))].append((r.choice([1, 2, n // 2, n - 1, n]), 0, 1))
    f.clauses = fill + cl
    return f

def behind(seed, n, doms, width, nsym):
    """A search at the edge behind n facts."""
    f = critical(seed, doms, width, nsym)
    k = len(doms)
    f.doms = list(doms) + [2] * n
    f.clauses = [[(k + 1 + a, 1, 0)] for a in range(n)] + f.clauses
    return f

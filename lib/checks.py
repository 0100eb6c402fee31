"""What each check runs: property id -> jobs."""
import random
import core, formula as F, shapes as S, solve, vf
from core import SEED, THOROUGH

B = 1000 * SEED

def small():
    yield "full22", F.full([2, 2], [2, 2, 2]), 6
    yield "full33", F.full([3, 3], [1, 2, 2]), 8
    if THOROUGH:
        yield "full222", F.full([2, 2, 2], [2, 2, 2]), 20
        yield "full24", F.full([2, 4], [2, 2, 1]), 20
        yield "full322", F.full([3, 2, 2], [1, 2, 2]), 20

def oddities():
    yield "odd", S.odd([2, 3], [2, 2, 1]), 6
    yield "odd3", S.odd([1, 2, 3], [2, 2]), 4
    yield "long-and-short", S.odd([2, 2], [3, 1, 1]), 4
    yield "none", F.Formula([3, 1, 2]), .2
    yield "none1", F.Formula([1]), .2

CRIT = [([2] * 6, 3, 12), ([3] * 5, 3, 12), ([4] * 4, 3, 12), ([2, 3, 5, 4, 2], [2, 3, 4], 10), ([3] * 7, [2, 3], 10),
        ([2] * 9, 3, 9), ([3, 2, 4, 3, 2, 2], 3, 10), ([5] * 4, [2, 3], 10)]
MID = [([2] * 12, 3, 8), ([3] * 8, 3, 8), ([2, 3, 4, 2, 3, 5, 2, 3], [2, 3], 8), ([4] * 10, 3, 5), ([10] * 6, [3, 4], 5),
       ([2] * 20, 3, 4), ([3] * 14, 3, 4), ([7, 2, 2, 9, 3, 3, 2], [2, 3], 6)]
BIG = [([2] * 40, 3, 3), ([3] * 20, 3, 3), ([2] * 30, 2, 6), ([64, 64, 3, 2], [2], 4)]

def crit(n=1, only=None):
    for k in range(n):
        for i, (d, w, b) in enumerate(CRIT):
            if only is None or i in only:
                yield "crit%d.%d" % (i, k), S.critical(B + 10 * k + i, d, w, b, less=1 + 2 * (k % 2), neg=(.4, .3, .5, .6)[k % 4]), 2.5

def mid(n=1):
    for k in range(n):
        for i, (d, w, b) in enumerate(MID):
            yield "mid%d.%d" % (i, k), S.critical(B + 100 + 10 * k + i, d, w, b, less=2 + k % 3, neg=(.4, .2, .5)[k % 3]), .6

def big(n=1):
    for k in range(n):
        for i, (d, w, b) in enumerate(BIG):
            yield "big%d.%d" % (i, k), S.critical(B + 300 + 10 * k + i, d, w, b, less=3, neg=.4 if i else .5), 1.2
    yield "php5", S.pigeons(5, 4, 5, B), .6
    yield "php4", S.pigeons(4, 3, 8, B), .6
    yield "php6", S.pigeons(6, 5, 3, B), 1.5

def wide():
    yield "longrow", S.longrow([5, 6, 7], 14, 8, B), .3
    yield "longrow1", S.longrow([2] * 30, 25, 6, B, ncl=40, neg=.5), .3
    yield "units", S.units([3] * 7, B + 7, 10), .3
    yield "units1", S.units([4, 3, 2, 2, 3, 4], B + 8, 10, neg=.8), .3
    yield "many", S.units([3] * 70, B + 5, 6, neg=.9), .3
    yield "dom64", S.critical(B + 9, [64, 20, 12, 10], [3, 4], 5, neg=.05), .3
    yield "dom63", S.units([63, 2, 64, 33, 5], B + 3, 8, neg=.6, extra=3), .3

def huge():
    """Beyond the bit-vector solver's domains."""
    yield "dom100", S.units([100, 65, 3, 2, 130], B + 4, 8, neg=.6, extra=3), .3
    yield "php7", S.pigeons(7, 6, 2, B), 6
    yield "dom300", S.units([300, 257, 260, 3], B + 3, 5, neg=.7, extra=3), .3
    yield "dom1000", S.units([1000, 2], B + 3, 4, neg=.7, extra=3), .2
    yield "long300", S.longrow([200, 150], 300, 4, B, ncl=12, neg=.1), 1.2

def large():
    """Sizes: long clauses, many variables, many clauses, large domains, long searches."""
    yield "long70", S.longrow([3] * 60, 70, 5, B + 1, ncl=60, neg=.5), .7
    yield "long140", S.longrow([2] * 100, 140, 5, B + 2, ncl=50, neg=.5), 1.2
    yield "vars300", S.critical(B + 1, [2] * 300, 2, 5, less=4, neg=.5), .3
    yield "vars140", S.critical(B + 2, [3] * 140, [2, 3], 4, less=6, neg=.8), .5
    yield "dom64s", S.units([64, 63, 64, 3], B + 3, 6, neg=.7, extra=3), .2
    yield "long110", S.longrow([64, 60], 110, 4, B + 4, ncl=12, neg=.1), .3
    yield "clauses1000", S.longrow([3] * 12, 9, 5, B + 5, ncl=1000, neg=.7), .6
    yield "levels300", S.levels(B + 5, 300, [2] * 12, 3, 3), 3
    yield "levels280", S.levels(B + 6, 280, [3] * 6, [2, 3], 3), 3
    yield "deep50", S.critical(B + 5, [2] * 50, 3, 3, less=1, neg=.5), 2
    yield "deep80", S.critical(B + 6, [2] * 80, 3, 1, less=1, neg=.5), 20
    yield "deep24", S.critical(B + 7, [3] * 24, 3, 2, less=1, neg=.5), 5

def pads():
    """Clauses in which many literals are false before the search begins."""
    for i, (p, b) in enumerate([(70, True), (140, None), (270, True), (66, False)]):
        yield "padded%d" % p, S.padded(B + 650 + i, [2, 3, 2, 4], [2, 3], 6, p, b), .5

def crowds(dom):
    """More than 16 bits count."""
    yield "clauses70000", S.crowd(B + 1, [2, 3, 2, 2], 70000, 5), 9
    yield "line80000", S.longline(B + 4, [2, 3, 2, 4], 20000), 6
    if dom:
        yield "facts33000", S.behind(B + 6, 32800, [2, 2, 3, 2, 3], 3, 4), 20
    yield "hated3000", S.hated(B + 5, 3000), 1
    yield "vars66000", S.crowd(B + 2, [2] * 66000, 0, 2), 25
    if dom:
        yield "dom70000", S.crowd(B + 3, [70000, 2, 3, 2], 0, 4), 6

LOOSE = [([2, 2, 2, 2, 4, 4], [3, 4, 5], 8), ([3, 3, 4, 3], [2, 3, 4], 8), ([3] * 6, [3, 4], 7), ([4, 5, 3, 2], [4, 5], 7), ([2] * 7, [3, 4], 7), ([2, 3, 4, 5, 6, 2, 3], [3, 4, 5], 5)]
def loose(n=1):
    for k in range(n):
        for i, (d, w, b) in enumerate(LOOSE):
            yield "loose%d.%d" % (i, k), S.loose(B + 600 + 10 * k + i, d, w, b, neg=(.5, .6, .3, .7)[k % 4], less=1 + 2 * (k % 2)), 1.5

def all_shapes(k=1):
    yield from large(); yield from pads(); yield from loose(k); yield from small(); yield from oddities(); yield from crit(k); yield from mid(k); yield from big(1); yield from wide()

def jobs_for(modes, shapes, obls, judge, opts=(), verbose=False, spec=None):
    out = []
    for n, f, c in shapes:
        for m in modes:
            s = solve.Solve(n, m, f, opts=opts, verbose=verbose, spec=spec)
            if THOROUGH:
                s.spec["time"] = 150
            out.append(s.job(obls, judge, cost=c * (2 if verbose else 1)))
    return out

K = 4 if THOROUGH else 1
NCM = [m for m in solve.SRC if not m.startswith("ch")]

def restarted(modes, obls, judge, verbose=False, small=False):
    """The clause-learning modes with restarts."""
    out = []
    for k in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4, 6, 9):
        sh = []
        for i, (d, w, b) in enumerate(CRIT):
            if (i + k) % 3 == 0 or THOROUGH:
                sh.append(("again%d" % i, S.critical(B + 400 + 10 * k + i, d, w, min(b, 5 if verbose else 9), less=1, neg=(.4, .5, .6)[k % 3]), 2))
        for i, (d, w, b) in enumerate(MID):
            if (i + k) % 4 == 0 or THOROUGH:
                sh.append(("again-mid%d" % i, S.critical(B + 450 + 10 * k + i, d, w, min(b, 3 if verbose else 5), less=2, neg=.4), .6))
        if k == 1 and not small:
            sh.append(("again-full22", F.full([2, 2], [2, 2, 2]), 6))
            sh.append(("again-deep70", S.critical(B + 6, [2] * 70, 3, 1, less=1, neg=.5), 20))
        if k == 2 and not small:
            sh.append(("again-levels", S.levels(B + 5, 300, [2] * 12, 3, 3), 3))
        out += jobs_for(modes, sh, obls, judge, opts=["-restarts", str(k)], verbose=verbose)
    if not small:
        out += jobs_for(modes, [("again-deep80", S.critical(B + 6, [2] * 80, 3, 1, less=1, neg=.5), 20)], obls, judge, opts=["-restarts", "100"], verbose=verbose)
    return out

def logged(modes, obls, judge):
    """With the log on."""
    sh = [("log-full", F.full([2, 2], [2, 2]), 3), ("log-odd", S.odd([2, 3], [2, 1]), 1)]
    for i, (d, w, b) in enumerate(CRIT):
        if i % 3 == 1 or THOROUGH:
            sh.append(("log%d" % i, S.critical(B + 480 + i, d, w, 5, less=1, neg=.4), 1))
    return jobs_for(modes, sh, obls, judge, verbose=True)

def wholly(modes, obls, judge, n=1):
    """Everything a claim about every run of a solver is decided on."""
    out = jobs_for(modes, list(all_shapes(n)) + (list(huge()) if modes == solve.SRC else []), obls, judge)
    out += jobs_for([m for m in modes if m in solve.SRC], crowds(True), obls, judge) + jobs_for([m for m in modes if m in solve.BV], crowds(False), obls, judge)
    return out + restarted([m for m in modes if m in NCM or m in solve.BV], obls, judge) + logged(modes, obls, judge)

def c01():
    return wholly(solve.SRC, [solve.o_model], solve.j_model, K)
def c02():
    return wholly(solve.SRC, [solve.o_unsat], solve.j_unsat, K)
def c03():
    return wholly(solve.SRC, [solve.o_answer], solve.j_answer, K)
def c04():
    out = []
    def both(s, name, codes):
        return solve.j_verdict(s, name, codes) or solve.j_model(s, name, codes) or solve.j_answer(s, name, codes) or solve.j_stats(s, name, codes)
    for k in (1, 2, 3, 5) if not THOROUGH else (1, 2, 3, 4, 5, 7, 10, 20):
        sh = list(crit(K, None if THOROUGH else {(k + i) % 8 for i in (0, 3, 6)})) + list(mid(K)) + list(big(1))
        if k == 1:
            sh += [x for x in small()][:1]
        out += jobs_for(NCM, sh, [solve.o_model, solve.o_unsat, solve.o_answer, solve.o_stats], both, opts=["-restart", str(k)])
    return out + restarted(NCM, [solve.o_model, solve.o_unsat, solve.o_answer, solve.o_stats], both)
def c05():
    return wholly(solve.SRC, [solve.o_mem], solve.j_mem, K)
def c06():
    return wholly(solve.SRC + solve.BV, [solve.o_check], solve.j_check, K)
def c16():
    return wholly(solve.BV, [solve.o_model], solve.j_model, 3 * K)
def c17():
    return wholly(solve.BV, [solve.o_unsat], solve.j_unsat, 3 * K)

def c18():
    return wholly(solve.BV, [solve.o_answer], solve.j_answer, 3 * K)
def c19():
    return wholly(solve.BV, [solve.o_mem], solve.j_mem, 3 * K)

def little():
    """For runs with the log on."""
    yield from small()
    yield from oddities()
    yield from crit(K)
    for i, (d, w, b) in enumerate(MID):
        yield "log%d" % i, S.critical(B + 700 + i, d, w, 3, less=2, neg=.4), .6

def c20():
    return jobs_for(NCM + solve.BV, list(little()) + [("php4", S.pigeons(4, 3, 6, B), 1)], [solve.o_learn], solve.j_learn, verbose=True) \
        + restarted(NCM + solve.BV, [solve.o_learn], solve.j_learn, verbose=True, small=True)

def tiny():
    yield "full22", F.full([2, 2], [2, 2]), 3
    yield "odd", S.odd([2, 3], [2, 1]), 1
    for k in range(K):
        for i, (d, w, b) in enumerate(CRIT):
            yield "count%d.%d" % (i, k), S.critical(B + 800 + 10 * k + i, d, w, 6, less=1 + k, neg=(.4, .6, .2, .5)[k % 4]), 1
    for i, (d, w, b) in enumerate(MID):
        yield "count-mid%d" % i, S.critical(B + 900 + i, d, w, 3, less=2, neg=.4), .6

def c21():
    def both(s, name, codes):
        return solve.j_stats(s, name, codes) or solve.j_counts(s, name, codes)
    a = jobs_for(solve.SRC + solve.BV, list(all_shapes(K)), [solve.o_stats], solve.j_stats)
    a += jobs_for(solve.SRC, crowds(True), [solve.o_stats], solve.j_stats) + jobs_for(solve.BV, crowds(False), [solve.o_stats], solve.j_stats)
    a += restarted(NCM + solve.BV, [solve.o_stats], solve.j_stats)
    a += restarted(NCM + solve.BV, [solve.o_stats, solve.o_counts], both, verbose=True, small=True)
    return a + jobs_for(solve.SRC + solve.BV, list(tiny()), [solve.o_counts], both, verbose=True)

import frontend
def c07():
    return frontend.timeouts()
def c08():
    return frontend.formatting()
def c09():
    return frontend.options()
def c22():
    return frontend.failures()

# --------------------------------------------------------------------- converters and generator
import conv

def b2f_jobs(mem=False):
    out = []
    def add(n, f, c=1.0, seg=None):
        out.append(conv.Conv("b2f", n, f, seg).job(mem, c))
    add("full", conv.bool_full(3, [2, 2, 1]), 3)
    add("full4", conv.bool_full(4, [3, 2]), 3)
    # empty clauses, repeated and complementary literals
    f = conv.Bool(3)
    for w in (1, 2, 1):
        f.clauses.append([f.choice([[(v, s, 1)] for v in (1, 2, 3) for s in (1, 0)] + [[]]) for _ in range(w)])
    f.clauses.append([(3, 1, 1)])
    add("odd", f, 1)
    add("mvcnf", conv.Bool(2, [[(1, 1, 1)], [(2, 0, 1), (1, 0, 1)]], head="p cnf"), .1)
    for k in range(6 if not THOROUGH else 40):
        r = random.Random(B + k)
        n = [5, 9, 12, 30, 101, 7][k % 6]
        f = conv.bool_skeleton(B + 20 + k, n, [8, 14, 20, 30, 40, 3][k % 6], [1, 2, 3], 8)
        add("skeleton%d" % k, f)
        f = conv.bool_skeleton(B + 40 + k, n, [4, 6, 8, 10, 12, 3][k % 6], [1, 2, 3], 4)
        seg = conv.dress(f.seg(), f, r, 7)
        add("dressed%d" % k, f, 1, seg)
    # sizes
    for k, (n, m, w, b) in enumerate([(300, 420, [1, 2, 3], 4), (90, 10, 70, 4), (4, 1300, [1, 2, 3], 4), (1100, 30, [1, 2], 3), (1, 2, 1, 2), (260, 3, 250, 2)]):
        add("size%d" % k, conv.bool_skeleton(B + 70 + k, n, m, w, b), 2)
    for k, (n, m, w, b) in enumerate([(66000, 4, 2, 2), (5, 70000, [1, 2], 2)]):
        add("crowd%d" % k, conv.bool_skeleton(B + 80 + k, n, m, w, b), 9)
    f = conv.bool_skeleton(B + 85, 4, 4, [1, 2], 4)
    f.clauses.insert(2, [(1, 0, 1)] * 12000 + [(2, 1, 1)] * 12000 + f.clauses[0])
    add("line80000", f, 6)
    # no clauses at all
    for n, k in (("none", 3), ("none1", 1)):
        f = conv.Bool(k)
        add(n, f, .2, conv.dress(f.seg(), f, random.Random(B + 59), 2))
    # a declared variable that occurs in no clause
    f = conv.bool_skeleton(B + 60, 4, 5, [2, 3], 6); f.doms = [2] * 7
    add("unused", f)
    return out

def mv_shapes(kind):
    D = [[2, 3], [3, 3], [4, 2], [1, 3], [5], [2, 2, 2]]
    for k, d in enumerate(D):
        yield "full%s" % d, F.full(d, [2, 2] if len(d) > 1 else [2, 1, 1]), 2
    D = [[3, 4, 2, 5], [2, 2, 3], [10, 12], [1, 1, 2, 4], [6, 3, 1, 2, 7], [20], [3] * 10, [2] * 9, [11, 2, 3, 100], [2, 3] * 5 + [12, 13, 11], [12] * 14]
    for k, d in enumerate(D if not THOROUGH else D * 5):
        yield "units%d" % k, S.units(d, B + k, 8, extra=4), .6
    yield "odd", S.odd([3, 2], [2, 1]), 1
    # sizes
    yield "long", S.longrow([4] * 20, 60, 4, B + 20, ncl=8), 2
    yield "many", S.longrow([3] * 6, 5, 4, B + 21, ncl=700), 2
    yield "variables", S.units([2] * 130, B + 22, 4), 2
    yield "variables3", S.units([3, 2, 1, 4] * 30, B + 23, 4), 2
    yield "ones", S.units([1, 1, 1], B + 24, 4), .3
    yield "one", S.units([1], B + 25, 1), .3
    yield "domain", S.units([300, 3, 120] if kind == "linenc" else [300, 3, 90], B + 26, 4, extra=4), 4
    yield "wide", S.longrow([130] if kind == "linenc" else [40], 38, 4, B + 27, ncl=3), 2
    yield "crowd", S.crowd(B + 28, [2, 3, 2, 2], 70000, 3), 9
    yield "crowd1", S.crowd(B + 29, [2] * 34000, 0, 2), 25
    yield "line80000", S.longline(B + 32, [2, 3, 2, 4], 20000), 6
    for k in range(4 if not THOROUGH else 20):
        yield "loose%d" % k, S.loose(B + 30 + k, [[3, 4, 2, 5], [2, 2, 3, 3], [10, 2, 12], [1, 6, 1, 4]][k % 4], [1, 2, 3, 4], 8), 1

def mv_conv(kind, mem=False):
    out = []
    for n, f, c in mv_shapes(kind):
        if kind == "quadenc" and n.startswith("units") and max(f.doms) > 40:
            f.doms = [min(d, 30) for d in f.doms]
            f = S.units(f.doms, B + 3, 8, extra=4)
        out.append(conv.Conv(kind, n, f).job(mem, c))
    for n, d in (("none", [3, 2]), ("none1", [1]), ("none2", [2, 1, 4, 2]), ("none3", [12])):
        f = F.Formula(d, head="p mvcnf" if n == "none2" else "p cnf")
        out.append(conv.Conv(kind, n, f, conv.dress(f.seg(), f, random.Random(B + 590), 3)).job(mem, .3))
    for k in range(6 if not THOROUGH else 40):
        r = random.Random(B + 500 + k)
        d = [[2, 3], [4], [3, 1, 2], [3, 3, 2], [2, 2], [5, 12]][k % 6]
        f = S.units(d, B + 600 + k, 4, extra=3)
        f.head = "p mvcnf" if k % 2 else "p cnf"
        out.append(conv.Conv(kind, "dressed%d" % k, f, conv.dress(f.seg(), f, r, 7)).job(mem, 1))
    return out

def gen_jobs(boolean, mem=False):
    out = []
    def add(*a, **k):
        c = k.pop("cost", 1)
        out.append(conv.Gen(*a, boolean=boolean, seed=len(out), **k).job(mem, c))
    small = [0, 1, 2, 3]
    add("2x2", 2, 2, 2, vals=small, draws=10)
    add("3x3", 3, 3, 2, dom=3, vals=small, draws=11, cost=3)
    add("3x2 large draws", 3, 2, 3, dom=3, draws=9, vals=[0, 7, 2147483646, 2147483647])
    add("1x1", 1, 1, 1, vals=small, draws=6)
    add("sat 0", 3, 3, 2, sat=0, vals=small, draws=9)
    add("5x8", 5, 8, 3, dom=3, draws=8, cost=4)
    add("10x30", 10, 30, 3, dom=10, draws=10)
    add("4x4 wide", 4, 4, 4, dom=2, draws=9)
    add("12x40", 12, 40, 5, dom=5, draws=9, sat=1)
    # short clauses: every one of them must agree with the planted solution
    add("unit clauses", 3, 30, 1, dom=3, vals=small, draws=9)
    add("unit clauses 2", 2, 70, 1, dom=2, draws=6, vals=small)
    add("dense", 3, 60, 2, dom=2, vals=small, draws=8)
    add("dense 3", 3, 120, 3, dom=3, vals=small, draws=6)
    add("0 clauses", 3, 0, 2, vals=small, draws=4)
    # sizes
    add("60x300", 60, 300, 12, dom=1000, draws=3, cost=3)
    add("200x60", 200, 60, 3, dom=3, draws=4, cost=2)
    add("wide", 60, 10, 50, dom=3, draws=3, cost=2)
    add("wider", 400, 2, 300, dom=3, draws=2, cost=3, fill=random.Random(B).sample(range(100000), 4001))
    add("300x1200", 300, 1200, 2, dom=2, draws=2, cost=3)
    add("3x70000", 3, 70000, 1, dom=2, draws=2, cost=9)
    big = random.Random(B + 1)
    add("70000x40", 70000, 40, 2, dom=2, draws=2, cost=9, vals=[0, 1, 65536, 69999],
        fill=[big.choice((big.randrange(200000), big.randrange(200000), 65535, 32767)) for _ in range(4001)])
    if not boolean:
        add("drand 100x200", 100, 200, 4, dom=300, drand=1, draws=3, cost=3)
        add("drand 2x2", 2, 2, 2, dom=3, drand=1, vals=small, draws=10)
        add("drand 3x4", 3, 4, 2, dom=4, drand=1, draws=10, vals=small)
        add("drand 6x9", 6, 9, 3, dom=5, drand=1, draws=10)
        add("domain 1", 3, 3, 2, dom=1, draws=6, vals=small)
        add("domain 70000", 3, 3, 2, dom=70000, draws=4, vals=[0, 65536, 69999, 140001])
        add("domain 100", 4, 6, 2, dom=100, draws=8, vals=[0, 99, 100, 199])
    if THOROUGH:
        for k in range(30):
            add("t%d" % k, 3 + k % 5, 2 + k % 7, 2 + k % 2, dom=2 + k % 4, draws=12, drand=k % 2 if not boolean else 0, cost=3)
    return out

def c10():
    return b2f_jobs()
def c11():
    return mv_conv("linenc")
def c12():
    return mv_conv("quadenc")
def c13():
    return gen_jobs(False)
def c14():
    return gen_jobs(True)
def c15():
    return b2f_jobs(True) + mv_conv("linenc", True) + mv_conv("quadenc", True) + gen_jobs(False, True) + gen_jobs(True, True)

# --------------------------------------------------------------------- everything at once (for surveys of planted changes)
def every(modes, n=1):
    def judge(s, name, codes):
        for j in (solve.j_answer, solve.j_model, solve.j_unsat, solve.j_check, solve.j_stats):
            w = j(s, name, codes)
            if w:
                return j.__name__[2:] + ": " + w
        if "ub" in name or " at " in name or "abnormal" in name:
            w = solve.j_mem(s, name, codes)
            return w and "memory: " + w
    obls = [solve.o_answer, solve.o_model, solve.o_unsat, solve.o_check, solve.o_stats, solve.o_mem]
    return jobs_for(modes, list(all_shapes(n)) + (list(huge()) if modes == solve.SRC else []), obls, judge)
def tagged(tag):
    js = globals()[tag]()
    for j in js:
        j.name = tag + ":" + j.name
    return js
def xsrc():
    return every(solve.SRC) + [j for t in ("c04", "c20", "c21", "c07") for j in tagged(t) if j.part == "src"]
def xbv():
    return every(solve.BV, 3) + [j for t in ("c20", "c21", "c07", "c08", "c09", "c22") for j in tagged(t) if j.part == "bitvec"]
def xfront():
    return [j for t in ("c07", "c08", "c09", "c22", "c13", "c14") for j in tagged(t) if j.part == "src"]
def xconv():
    return [j for t in ("c10", "c11", "c12", "c13", "c14", "c15", "c09", "c22") for j in tagged(t) if j.part == "src"]

"""Independent judge for demonstrations: brute force over small formulas.  python3 judge.py KIND ARGS; exit 0 when all is as it should be."""
import itertools, os, random, re, subprocess, sys, tempfile
SRC, BIT = "/repo/_build/root/Solver", "/repo/_build/bitvec/Solver"
if not os.path.exists(SRC) and not os.path.exists(BIT):
    SRC, BIT = os.path.abspath("_build/root/Solver"), os.path.abspath("_build/bitvec/Solver")
SRC, BIT = os.environ.get("J_SRC", SRC), os.environ.get("J_BIT", BIT)
class Bad(Exception):
    pass
def parse(text):
    doms, cls = {}, []
    for l in text.split("\n"):
        l = l.strip()
        if not l or l[0] in "cp":
            continue
        if l[0] == "d":
            a = l.split(); doms[int(a[1])] = int(a[2]); continue
        c = []
        for w in l.split():
            m = re.match(r"^(\d+)\s*(=|!=|!)\s*(\d+)$", w)
            if m:
                c.append((int(m[1]), m[2] == "=", int(m[3])))
        cls.append(c)
    return doms, cls
def true(c, m):
    return any((m[v] == x) == e for v, e, x in c)
def models(doms, cls):
    vs = sorted(doms)
    for t in itertools.product(*[range(doms[v]) for v in vs]):
        m = dict(zip(vs, t))
        if all(true(c, m) for c in cls):
            yield m
def show(doms, cls):
    o = ["p cnf %d %d" % (len(doms), len(cls))] + ["d %d %d" % (v, doms[v]) for v in sorted(doms)]
    for c in cls:
        o.append(" ".join(["%d%s%d" % (v, "=" if e else "!=", x) for v, e, x in c] + ["0"]))
    return "\n".join(o) + "\n"
def run(cmd, cwd=None, limit=int(os.environ.get("J_LIMIT", "10")), stdin=None):
    try:
        q = subprocess.run(cmd, cwd=cwd, capture_output=True, timeout=limit, stdin=subprocess.DEVNULL if stdin is None else None, input=stdin)
    except subprocess.TimeoutExpired:
        raise Bad("no end: " + " ".join(cmd))
    return q.returncode, q.stdout.decode("latin-1").replace("\a", ""), q.stderr.decode("latin-1")
def answer(out):
    ls = [l.strip() for l in out.split("\n")]
    v = {x for x in ls if x in ("SAT", "UNSAT", "TIMEOUT")}
    if len(v) != 1:
        raise Bad("verdicts: %s" % sorted(v))
    return v.pop()
def model(out, doms, bit):
    m = {}
    if "The model:" not in out:
        raise Bad("no model")
    for l in out.split("The model:")[1].split("\n"):
        k = re.match(r"^(\d+)=(\d+)$", l.strip())
        if k:
            v = int(k[1])
            s = {i for i in range(len(k[2])) if k[2][len(k[2]) - 1 - i] == "1"} if bit else {int(k[2])}
            if v in m or v not in doms or not s or any(x >= doms[v] for x in s):
                raise Bad("model line " + l)
            m[v] = s
    return m
def need(cls, doms, m):
    """does every completion of the partial set-valued m satisfy (some = False) / some completion (some = True)"""
    return models({v: doms[v] for v in doms}, cls)
def solve(text, opts, bit=False, check="vms"):
    """v: verdict, m: model, s: self-check line, e: ends normally"""
    doms, cls = parse(text)
    with tempfile.TemporaryDirectory() as d:
        open(os.path.join(d, "in"), "w").write(text)
        rc, out, _ = run([BIT if bit else SRC, *opts, "-file", "in"], cwd=d)
    if rc:
        raise Bad("status %d" % rc)
    a = answer(out)
    has = next(models(doms, cls), None) is not None
    if "v" in check and a != ("SAT" if has else "UNSAT"):
        raise Bad("answers %s, models: %s" % (a, has))
    cor, inc = "model is CORRECT" in out, "model is INCORRECT" in out
    if a != "SAT":
        if cor or inc:
            raise Bad("self-check without model")
        return
    m = model(out, doms, bit)
    lazy = "-lazy" in opts
    if not lazy and set(m) != set(doms):
        raise Bad("variables without value")
    if bit:
        ok = all(any(all((x == y) == e for y in m.get(v, range(doms[v]))) for v, e, x in c)
                 or all(any((p[v] == x) == e for v, e, x in c) for p in
                        (dict(zip(sorted({v for v, _, _ in c}), t)) for t in itertools.product(*[sorted(m.get(v, range(doms[v]))) for v in sorted({v for v, _, _ in c})])))
                 for c in cls)
    else:
        ok = any(all(mm[v] in m[v] for v in m) for mm in models(doms, cls)) if lazy else all(true(c, {v: min(m[v]) for v in m}) for c in cls)
    if "m" in check and not ok:
        raise Bad("the model printed is none")
    if "s" in check and (cor == inc or cor != ok):
        raise Bad("self-check says %s, model is %s" % (cor, ok))
def learned(text, opts, bit=False):
    doms, cls = parse(text)
    with tempfile.TemporaryDirectory() as d:
        open(os.path.join(d, "in"), "w").write(text)
        rc, out, _ = run([BIT if bit else SRC, *opts, "-verbose", "-file", "in"], cwd=d)
    ms = list(models(doms, cls))
    for part in out.split("Learned a clause: \n")[1:]:
        c = []
        for l in part.split("\n"):
            k = re.match(r"^(\d+)(!?=|!)(\d+)\s*$", l)
            if not k:
                if bit and not l.strip() and not c:
                    continue
                break
            if bit:
                c += [(int(k[1]), True, i) for i in range(len(k[3])) if k[3][len(k[3]) - 1 - i] == "1"]
            else:
                c.append((int(k[1]), k[2] == "=", int(k[3])))
        for m in ms:
            if not true(c, m):
                raise Bad("learned %s, but %s is a model" % (c, m))
def counters(text, opts, bit=False):
    doms, cls = parse(text)
    with tempfile.TemporaryDirectory() as d:
        open(os.path.join(d, "in"), "w").write(text)
        rc, out, _ = run([BIT if bit else SRC, *opts, "-verbose", "-file", "in"], cwd=d)
    g = {k: int(re.search(r"^%s\s*: (-?\d+)$" % k, out, re.M)[1]) for k in ("Decisions", "Units", "Backtracks", "Entails", "Variables", "Clauses", "Restarts")}
    dec, lrn, ent = (len(re.findall(p, out, re.M)) for p in (r"^(?:.*\t)?Decision: ", r"^(?:.*\t)?Learned a clause", r"^(?:.*\t)?Entailment\.\.\."))
    bts = len(re.findall(r"^We are backtracking", out, re.M))
    w = {"Decisions": dec, "Variables": len(doms), "Clauses": len(cls) + lrn}
    if "-solvech" not in opts:
        w["Backtracks"] = bts
        r = int(opts[opts.index("-restarts") + 1]) if "-restarts" in opts else 0
        w["Restarts"] = bts // r if r else 0
    if not any(x == 1 for x in doms.values()) and not bit:
        w["Entails"] = ent
    for k in w:
        if g[k] != w[k]:
            raise Bad("%s: %d, should be %d" % (k, g[k], w[k]))
    if min(g.values()) < 0:
        raise Bad("negative counter")
def formula(r, maxd=4, maxv=6, neg=None):
    n = r.randint(2, maxv)
    doms = {v: r.choice([2, 2, 3, 3, 4, 1, 5][:3 + maxd]) if maxd > 1 else 2 for v in range(1, n + 1)}
    doms = {v: min(x, maxd) for v, x in doms.items()}
    neg = r.choice([0.2, 0.5, 0.7]) if neg is None else neg
    k = r.choice([2, 2, 3, 3, 4])
    cls = []
    for _ in range(r.randint(2, int(n * (4.5 if k > 2 else 2.5)) + 2)):
        c = []
        for _ in range(r.choice([k, k, k, k, k - 1, k + 1])):
            v = r.randint(1, n)
            c.append((v, r.random() >= neg, r.randrange(doms[v])))
        if len(c):
            cls.append(c)
    return show(doms, cls)
CHECK = {"solve": solve, "learned": learned, "counters": counters,
         "verdict": lambda t, o, b: solve(t, o, b, "v"), "self": lambda t, o, b: solve(t, o, b, "s"), "ends": lambda t, o, b: solve(t, o, b, "")}
def main():
    kind, prog = sys.argv[1], sys.argv[2]
    files = [a for a in sys.argv[3:] if a.endswith(".fin")]
    opts = [a for a in sys.argv[3:] if not a.endswith(".fin")]
    bad = 0
    for f in files:
        try:
            CHECK[kind](open(f).read(), opts, prog == "bit")
        except Bad as e:
            print("%s %s: %s" % (os.path.basename(f), " ".join(opts), e)); bad = 1
    sys.exit(bad)
if __name__ == "__main__":
    main()

"""python3 tools/plant.py SPEC.py [ID ...]: make /verif/seeded/<id> from a list of changes; see the specs for the fields.
Works on a scratch copy: the change must compile, pass the tests and fail its demonstration, which the unchanged tree passes."""
import json, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "tools/demo"))
import mutants, judge
def edit(d, changes):
    for f, old, new, *nth in changes:
        p = os.path.join(d, f); t = open(p).read()
        k = t.count(old)
        if k == 0 or k > 1 and not nth:
            raise SystemExit("%s: %d matches of %r" % (f, k, old))
        if nth:
            parts = t.split(old); n = nth[0]
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        else:
            t = t.replace(old, new)
        open(p, "w").write(t)
def copy():
    d = tempfile.mkdtemp(prefix="mut-")
    for p in ("src", "bitvec"):
        shutil.copytree("/repo/" + p, os.path.join(d, p), ignore=shutil.ignore_patterns("*.o", "Solver", "debug*"))
    return d
def build(d, part):
    return mutants.build(d, part, os.path.join(d, "_build/root" if part == "src" else "_build/bitvec"), ["-O3"])
def patch(d, changes, out):
    t = ""
    for f in sorted({c[0] for c in changes}):
        q = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, os.path.join(d, f)], capture_output=True, text=True)
        t += q.stdout
    open(out, "w").write(t)
def find(kind, opts, bit, gen, n, seed, skip="-"):
    r = random.Random(seed); got = []
    for i in range(n):
        t = gen(r)
        try:
            judge.CHECK[kind](t, opts, bit)
        except judge.Bad as e:
            if skip in str(e):
                continue
            got.append((len(t), t, str(e)))
            if len(got) >= 8:
                break
    return sorted(got)[:2]
def one(s):
    part = "bitvec" if s["edits"][0][0].startswith("bitvec") else "src"
    d = copy()
    out = os.path.join(V, "seeded", s["id"])
    try:
        edit(d, s["edits"])
        if not build(d, part):
            return "does not compile"
        if part == "src" and not mutants.tests(d):
            return "the tests see it"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        patch(d, s["edits"], os.path.join(out, "patch.diff"))
        if "demo" in s:
            for n, t in s.get("files", {}).items():
                open(os.path.join(out, n), "w").write(t)
            demo = s["demo"]
            if "judge.py" in demo:
                shutil.copy(os.path.join(V, "tools/demo/judge.py"), out)
        else:
            judge.SRC, judge.BIT = os.path.join(d, "_build/root/Solver"), os.path.join(d, "_build/bitvec/Solver")
            got = []
            for opts in s["opts"] if isinstance(s["opts"], list) else [s["opts"]]:
                got = find(s["kind"], opts.split(), part == "bitvec", s.get("gen") or (lambda r: judge.formula(r, **s.get("genargs", {}))), s.get("n", 4000), 1, s.get("skip", "-"))
                if got:
                    break
            if not got:
                shutil.rmtree(out)
                return "no failing input found"
            demo = 'd=$(cd "$(dirname "$0")" && pwd)\n'
            for k, (_, t, e) in enumerate(got):
                open(os.path.join(out, "case%d.fin" % k), "w").write(t)
            demo += 'exec python3 "$d/judge.py" %s %s %s "$d"/case*.fin\n' % (s["kind"], "bit" if part == "bitvec" else "src", opts)
            shutil.copy(os.path.join(V, "tools/demo/judge.py"), out)
        open(os.path.join(out, "demo.sh"), "w").write("#!/bin/bash\n" + demo)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        e = dict(os.environ, J_SRC=os.path.join(d, "_build/root/Solver"), J_BIT=os.path.join(d, "_build/bitvec/Solver"), REPO=d)
        a = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300)
        b = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300, env=e)
        if a.returncode or not b.returncode:
            return "demo: %d %s / %d" % (a.returncode, a.stdout[-300:] + a.stderr[-300:], b.returncode)
        r = "planted; demo says %s" % b.stdout[:160].strip()
        if os.environ.get("CHECK", "1") == "1":
            ev = dict(os.environ, VF_REPO=d, VF_EVIDENCE=os.path.join(d, "ev"), VERIF_SEED="1")
            q = subprocess.run(["python3-vt", os.path.join(V, "lib/check.py"), s["property"]], cwd=V, env=ev, capture_output=True, text=True, timeout=1000)
            r += " | CHECK %d %s" % (q.returncode, q.stdout.strip().split("\n")[-1][-200:])
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        print(s["id"], s["property"], "::", one(s), flush=True)
if __name__ == "__main__":
    main()

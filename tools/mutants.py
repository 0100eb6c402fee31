"""python3 tools/mutants.py OUT.jsonl [N] [SEED] [FILE ...]: survey of small random changes of /repo's sources that compile and pass
the tests: which of them does a union of all checks see?  Scratch copies only."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = [("<=", ["<"]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), ("<", ["<=", ">"]), (">", [">=", "<"]), ("&&", ["||"]), ("||", ["&&"]),
       ("++", ["--"]), ("--", ["++"]), ("+", ["-"]), ("-", ["+"])]
def sites(text):
    """(line number, new line)"""
    ls = text.split("\n")
    incomment = False
    for i, l in enumerate(ls):
        s = l.strip()
        if "/*" in s:
            incomment = "*/" not in s; continue
        if incomment:
            incomment = "*/" not in s; continue
        if not s or s.startswith("//") or s.startswith("#") or "LOG" in s and "cout" in s or s.startswith("cout"):
            continue
        code = l.split("//")[0]
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+\+|--|->|<<|>>|<|>|\+|-", code):
            for a, bs in REL:
                if m[0] == a:
                    for b in bs:
                        yield i, code[:m.start()] + b + code[m.end():]
        for m in re.finditer(r"(?<![\w.'\"])\d+(?![\w.'\"])", code):
            n = int(m[0])
            for k in {n + 1, n - 1 if n else 1}:
                yield i, code[:m.start()] + str(k) + code[m.end():]
        for a, b in (("true", "false"), ("false", "true"), ("push_front", "push_back"), ("push_back", "push_front"), ("break", "continue"),
                     ("level", "LEVEL"), ("LEVEL", "level"), ("WATCHED[0]", "WATCHED[1]"), ("WATCHED[1]", "WATCHED[0]"), ("watched1", "watched2"), ("watched2", "watched1"),
                     ("ATOMRECPOS", "ATOMRECNEG"), ("ATOMRECNEG", "ATOMRECPOS"), ("else", ""), ("POS", "NEG"), ("NEG", "POS"), (".VAL", ".VAR"), ("lit_val", "lit_var"), ("val", "var"), ("var", "val"),
                     ("front()", "back()"), ("clause_num", "atom_num"), ("! ", ""), ("!", "")):
            for m in re.finditer(re.escape(a), code):
                if a.isalpha() and (code[m.start() - 1:m.start()].isalnum() or code[m.end():m.end() + 1].isalnum() or code[m.end():m.end() + 1] == "_" or code[m.start() - 1:m.start()] == "_"):
                    continue
                if a == "!" and code[m.end():m.end() + 1] == "=":
                    continue
                yield i, code[:m.start()] + b + code[m.end():]
        # a conjunct dropped
        for m in re.finditer(r"(&&|\|\|)\s*([^&|()]|\([^()]*\))+?(?=\)|&&|\|\||;)", code):
            yield i, code[:m.start()] + code[m.end():]
        # a statement dropped
        if re.match(r"^\s*[\w\[\]\(\)\->., *+!=:]+;\s*$", code) and not re.match(r"^\s*(int|bool|return|char|double|string|vector|Clause|Literal|Variable|FILE|ifstream|ofstream)\b", code):
            yield i, re.match(r"^\s*", code)[0] + ";"
        if re.match(r"^\s*if\s*\(.*\)\s*\{?\s*$", code):
            k = code.index("(")
            yield i, code[:k] + "(!" + code[k:].rstrip().rstrip("{").rstrip() + ")" + (" {" if code.rstrip().endswith("{") else "")
            yield i, code[:k] + "(true || " + code[k:].rstrip().rstrip("{").rstrip() + ")" + (" {" if code.rstrip().endswith("{") else "")
KIND = {"Formula.cc": "XSRC", "Clause.cc": "XSRC", "Variable.cc": "XSRC", "SolveFinite.cc": "XSRC", "Literal.h": "XSRC", "Global.cc": "XFRONT", "Main.cc": "XFRONT",
        "Boolean2Finite.cc": "XCONV", "LinearEncode.cc": "XCONV", "QuadraticEncode.cc": "XCONV", "GenBenFunc.cc": "XCONV"}
def build(d, part, out, flags):
    os.makedirs(out, exist_ok=True)
    fs = sorted(f for f in os.listdir(os.path.join(d, part)) if f.endswith(".cc"))
    cmd = ["g++", "-w", *flags, *[os.path.join(d, part, f) for f in fs], "-o", os.path.join(out, "Solver")]
    return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
def tests(d):
    """Run the repository's tests on the copy d; True: all stable ones pass."""
    r = os.path.join(d, "run")
    shutil.rmtree(r, ignore_errors=True)
    if not build(d, "src", os.path.join(r, "src"), ["-O1"]):
        return None
    for f in ("simple.txt", "simple_sat.txt"):
        shutil.copy(os.path.join("/repo", f), r)
    for x in ("benchmarks", "tests", "example_SAT", "example_UNSAT"):
        os.symlink("/repo/" + x, os.path.join(r, x))
    for md in (["-solvenc"], ["-solvenc", "-wl"], ["-solvenc", "-vsids_pos"], ["-solvech"], ["-solvenc", "-vsids"]):
        for f, w in (("example_SAT", "SAT"), ("example_UNSAT", "UNSAT"), ("benchmarks/Pigeonhole/instances/pgn4", "UNSAT"), ("benchmarks/Pigeonhole/instances/pgn5", "UNSAT"),
                     ("benchmarks/Nqueens/instances/5queens", "SAT"), ("benchmarks/Nqueens/instances/8queens", "SAT"), ("tests/SAT/uf20-01000.fin", "SAT")):
            try:
                q = subprocess.run([os.path.join(r, "src/Solver"), *md, "-file", f], cwd=r, capture_output=True, timeout=5, errors="replace")
            except subprocess.TimeoutExpired:
                return False
            if q.returncode or w not in q.stdout.replace("\a", "").split("\n") or (w == "SAT" and "INCORRECT" in q.stdout):
                return False
    o = subprocess.run(["/usr/bin/python3", "/opt/vp/run_tests.py", os.path.join(r, "src")], capture_output=True, text=True).stdout
    shutil.rmtree(r, ignore_errors=True)
    bad = [l for l in o.split("\n") if l.startswith("FAIL")]
    return o.count("PASS ") >= 184 and not bad
def survey(mu, jobs):
    f, i, new, old = mu
    part, base = f.split("/")
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        for p in ("src", "bitvec"):
            shutil.copytree("/repo/" + p, os.path.join(d, p), ignore=shutil.ignore_patterns("*.o", "Solver", "debug*"))
        p = os.path.join(d, f)
        ls = open(p).read().split("\n"); ls[i] = new
        open(p, "w").write("\n".join(ls))
        if part == "src":
            t = tests(d)
        else:
            t = build(d, "bitvec", os.path.join(d, "o"), ["-O1"]) or None
        if not t:
            return "no build" if t is None else "tests"
        k = KIND[base] if part == "src" else "XBV"
        e = dict(os.environ, VF_REPO=d, VF_EVIDENCE=os.path.join(d, "ev"), VF_JOBS=str(jobs), VERIF_SEED="1")
        try:
            r = subprocess.run(["python3-vt", os.path.join(V, "lib/check.py"), k], cwd=V, env=e, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return "check timeout"
        ev = {}
        try:
            ev = json.load(open(os.path.join(d, "ev", k + ".json")))
        except Exception:
            pass
        return {"rc": r.returncode, "out": r.stdout[-700:], "err": r.stderr[-300:], "wall": ev.get("wall_s"), "unrepro": ev.get("coverage", {}).get("not_reproduced"),
                "undecided": ev.get("coverage", {}).get("undecided_obligations"), "notes": [n[:300] for n in ev.get("notes", [])[:2]]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or ["src/" + f for f in KIND] + ["bitvec/" + f for f in ("Formula.cc", "Clause.cc", "Variable.cc", "SolveFinite.cc", "Global.cc", "Main.cc")]
    mus = []
    for f in files:
        t = open("/repo/" + f).read(); ls = t.split("\n")
        seen = set()
        for i, new in sites(t):
            if new.strip() != ls[i].split("//")[0].strip() and (i, new) not in seen:
                seen.add((i, new)); mus.append((f, i, new, ls[i]))
    random.Random(seed).shuffle(mus)
    print(len(mus), "changes in all")
    done = set()
    if os.path.exists(out):
        done = {(x["file"], x["line"] - 1, x["new"]) for x in map(json.loads, open(out))}
    mus = [m for m in mus[:n] if (m[0], m[1], m[2].strip()) not in done]
    lock = threading.Lock()
    par = int(os.environ.get("PAR", 3))
    def one(m):
        r = survey(m, max(1, 8 // par + 1))
        with lock, open(out, "a") as fo:
            fo.write(json.dumps({"file": m[0], "line": m[1] + 1, "old": m[3].strip(), "new": m[2].strip(), "result": r}) + "\n")
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, mus))
if __name__ == "__main__":
    main()

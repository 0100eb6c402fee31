"""Building blocks: the symbolic executor, bitcode of /repo, engine runs, guards in z3."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, atexit, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin/"
JOBS = int(os.environ.get("VF_JOBS", 0)) or min(8, os.cpu_count() or 1)

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def engine():
    """Path of the executor; compiled from /verif/engine if it is not there yet."""
    src = [os.path.join(VERIF, "engine", f) for f in ("bdd.h", "intrinsics.h", "symex.cpp")]
    d = _digest(src)
    exe, stamp = os.path.join(BUILD, "symex"), os.path.join(BUILD, "symex.sha")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    fl = subprocess.check_output([LLVM + "llvm-config", "--cxxflags"], text=True).split()
    fl = [f for f in fl if not f.startswith("-std=") and f != "-fno-exceptions"]
    ld = subprocess.check_output([LLVM + "llvm-config", "--ldflags"], text=True).split()
    tmp = exe + ".%d" % os.getpid()
    subprocess.run(["clang++-18", "-O2", "-std=c++17", *fl, "-fno-rtti", src[2], "-o", tmp, *ld, "-lLLVM-18"],
                   check=True)
    os.replace(tmp, exe)
    open(stamp, "w").write(d)
    return exe

MODEL = os.path.join(VERIF, "model")
BCFLAGS = ["-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-gno-column-info", "-emit-llvm", "-c",
           "-include", MODEL + "/include/vf_config.h", "-U_FORTIFY_SOURCE", "-D__NO_INLINE__",
           "-isystem", MODEL + "/include", "-w"]

class BuildError(Exception):
    pass

def sources(part):
    d = os.path.join(REPO, part)
    fs = sorted(f for f in os.listdir(d) if f.endswith((".cc", ".cpp", ".cxx")))
    return d, fs

_prog = {}
_lock = threading.Lock()
def program(part):
    """Bitcode of /repo/<part> (src or bitvec) linked with the stream model, from the working tree."""
    with _lock:
        if part in _prog:
            return _prog[part]
        d, fs = sources(part)
        out = os.path.join(scratch(), "bc-" + part)
        os.makedirs(out, exist_ok=True)
        jobs = []
        for f in [os.path.join(d, f) for f in fs] + [MODEL + "/models.cpp"]:
            o = os.path.join(out, os.path.basename(f) + ".bc")
            jobs.append((f, o, subprocess.Popen(["clang++-18", *BCFLAGS, f, "-o", o], cwd=d,
                                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for f, o, p in jobs:
            t, _ = p.communicate()
            if p.returncode:
                raise BuildError("clang failed on %s:\n%s" % (f, t[-2000:]))
        al, pr = os.path.join(out, "all.bx"), os.path.join(out, "prog.bx")
        for cmd in ([LLVM + "llvm-link", *[o for _, o, _ in jobs], "-o", al], [engine(), "--prepare", al, pr]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError(" ".join(cmd[:2]) + ": " + r.stdout[-2000:])
        _prog[part] = pr
        return pr

class Res:
    """Result of one engine run: guarded outputs over the input fields."""
    def __init__(self, spec, d, err, wall):
        self.spec, self.d, self.err, self.wall = spec, d, err, wall
        if d:
            self.nodes = {n[0]: (n[1], n[2], n[3]) for n in d["nodes"]}
            self.fields = {f["name"]: f for f in d["fields"]}
            self.order = [f["name"] for f in d["fields"]]
            self._z = {}
    # --- concrete evaluation
    def bits(self, codes):
        out = []
        for n in self.order:
            f = self.fields[n]
            out += [(codes[n] >> (f["bits"] - 1 - b)) & 1 for b in range(f["bits"])]
        return out
    def ev(self, g, bits):
        neg, i = g & 1, g >> 1
        while i:
            v, hi, lo = self.nodes[i]
            c = hi if bits[v] else lo
            neg ^= c & 1; i = c >> 1
        return not neg
    # --- z3
    def z3vars(self, z):
        if not hasattr(self, "zv"):
            self.zv = [z.Bool("b%d" % i) for i in range(self.d["nvars"])]
        return self.zv
    def guard(self, z, g):
        """The guard as a z3 term; one definition per BDD node so that terms share."""
        zv = self.z3vars(z)
        def node(i):
            if i == 0:
                return z.BoolVal(True)
            t = self._z.get(i)
            return t
        stack = [g >> 1]
        while stack:
            i = stack[-1]
            if i == 0 or i in self._z:
                stack.pop(); continue
            v, hi, lo = self.nodes[i]
            todo = [c >> 1 for c in (hi, lo) if c >> 1 and (c >> 1) not in self._z]
            if todo:
                stack += todo; continue
            h, l = node(hi >> 1), node(lo >> 1)
            h = z.Not(h) if hi & 1 else h
            l = z.Not(l) if lo & 1 else l
            self._z[i] = z.If(zv[v], h, l)
            stack.pop()
        t = node(g >> 1)
        return z.Not(t) if g & 1 else t
    def code(self, z, name, c):
        """Field `name` takes alternative c."""
        zv, f = self.z3vars(z), self.fields[name]
        ls = []
        for b in range(f["bits"]):
            x = zv[f["lo"] + b]
            ls.append(x if (c >> (f["bits"] - 1 - b)) & 1 else z.Not(x))
        return z.And(*ls) if ls else z.BoolVal(True)
    def decode(self, model, z):
        zv, out = self.z3vars(z), {}
        for n in self.order:
            f, c = self.fields[n], 0
            for b in range(f["bits"]):
                c = c * 2 + (1 if z.is_true(model.eval(zv[f["lo"] + b], model_completion=True)) else 0)
            out[n] = c
        return out
    def lines(self, stream):
        s = self.d["streams"].get(stream)
        return s["lines"] if s else []

def run_engine(part, spec, wall=None):
    exe, prog = engine(), program(part)
    fd, sp = tempfile.mkstemp(suffix=".json", dir=scratch()); os.close(fd)
    op = sp[:-5] + ".out"
    t0 = time.time()
    with open(sp, "w") as f:
        json.dump(spec, f)
    err, d = "", None
    try:
        r = subprocess.run([exe, prog, sp, op], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           timeout=wall or (spec.get("time", 60) * 2 + 30), errors="replace")
        err = r.stderr[-2000:]
        if os.path.exists(op):
            try:
                d = json.load(open(op))
            except ValueError as e:
                err += " bad output: %s" % e
        if r.returncode:
            err = "engine exit %d: %s" % (r.returncode, err); d = None
    except subprocess.TimeoutExpired:
        err = "engine timeout"
    for p in (sp, op):
        if os.path.exists(p):
            os.unlink(p)
    return Res(spec, d, err, time.time() - t0)

def seg_text(seg, codes):
    """Concrete text of a segment under chosen field alternatives."""
    if isinstance(seg, str):
        return seg
    if isinstance(seg, list):
        return "".join(seg_text(s, codes) for s in seg)
    return seg_text(seg["t"][codes[seg["f"]]], codes)

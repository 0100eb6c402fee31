"""The real programs, built from /repo's working tree in scratch, for replaying counterexamples."""
import os, re, shutil, signal, subprocess, tempfile, threading
import vf

KINDS = {"o3": ["g++", "-O3", "-w"], "o0": ["g++", "-O0", "-g", "-w"],
         "asan": ["g++", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                  "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]}
_built = {}
_lock = threading.RLock()

def binary(part, kind):
    with _lock:         # also called by the thread that builds ahead of time
        return build(part, kind)

def build(part, kind):
    k = (part, kind)
    if k in _built:
        return _built[k]
    d, fs = vf.sources(part)
    out = os.path.join(vf.scratch(), "real-%s-%s" % k)
    os.makedirs(out, exist_ok=True)
    ps = [subprocess.Popen([*KINDS[kind], "-c", os.path.join(d, f), "-o", os.path.join(out, f + ".o")], cwd=d,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for f in fs]
    ok = all([p.wait() == 0 for p in ps])
    exe = os.path.join(out, "Solver")
    if ok:
        ok = subprocess.run([*KINDS[kind], *[os.path.join(out, f + ".o") for f in fs], "-o", exe],
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    _built[k] = exe if ok else None
    return _built[k]

CLOCK = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
/* the clock jumps by VF_BY seconds once VF_TEXT was printed VF_N times (stdout is a file) */
static double now(void) {
  const char *n = getenv("VF_N"), *by = getenv("VF_BY"), *tx = getenv("VF_TEXT"), *at = getenv("VF_AT");
  static char *buf; static int jumped, readings; double t = 1000000.0;
  if (at && by) return t + (readings++ >= atoi(at) ? atof(by) : 0);
  if (!n || !by || !tx) return t;
  if (!jumped) {
    fflush(0);
    int fd = open("/proc/self/fd/1", O_RDONLY);
    if (!buf) buf = malloc(1 << 24);
    ssize_t k = fd < 0 ? 0 : pread(fd, buf, (1 << 24) - 1, 0); if (k < 0) k = 0;
    if (fd >= 0) close(fd);
    buf[k] = 0; int c = 0; for (char *p = buf; (p = strstr(p, tx)); p += strlen(tx)) c++;
    if (c >= atoi(n)) jumped = 1;
  }
  return t + (jumped ? atof(by) : 0);
}
int gettimeofday(struct timeval *tv, void *z) { double t = now(); tv->tv_sec = (long)t; tv->tv_usec = (long)((t - (long)t) * 1e6); return 0; }
time_t time(time_t *p) { time_t t = (time_t)now(); if (p) *p = t; return t; }
clock_t clock(void) { return (clock_t)(now() * 1e6); }
int clock_gettime(clockid_t c, struct timespec *ts) { double t = now(); ts->tv_sec = (long)t; ts->tv_nsec = (long)((t - (long)t) * 1e9); return 0; }
'''
RAND = r'''
#include <stdio.h>
#include <stdlib.h>
/* rand() returns the numbers listed in VF_RAND, then those of VF_FILL round and round */
static long nth(const char *s, int k, int *n) { *n = 0; long r = 0; while (s && *s) { char *e; long v = strtol(s, &e, 10); if (e == s) break; if ((*n)++ == k) r = v; s = *e ? e + 1 : e; } return r; }
static int at;
int rand(void) {
  int n, k = at++; long v = nth(getenv("VF_RAND"), k, &n);
  if (k < n) return (int)v;
  int m; nth(getenv("VF_FILL"), 0, &m); if (!m) return 0;
  return (int)nth(getenv("VF_FILL"), (k - n) % m, &m);
}
long random(void) { return rand(); }
void srand(unsigned s) { (void)s; }
void srandom(unsigned s) { (void)s; }
'''
_shims = {}
def shim(name, text):
  with _lock:
    if name not in _shims:
        so = os.path.join(vf.scratch(), name + ".so")
        c = so[:-3] + ".c"
        open(c, "w").write(text)
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", c, "-o", so], check=True)
        _shims[name] = so
    return _shims[name]

def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))

class Run:
    pass

def run(part, kind, argv, files=None, stdin="", env=None, timeout=20, valgrind=False, preload=None, absent=()):
    """Run the real program in a fresh directory; every file it writes stays there."""
    exe = binary(part, kind)
    r = Run(); r.ok = exe is not None
    if not r.ok:
        return r
    d = tempfile.mkdtemp(prefix="run-", dir=vf.scratch())
    try:
        for n, t in (files or {}).items():
            if t is None:
                continue
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        e = {"PATH": os.environ.get("PATH", ""), "LANG": "C.UTF-8",
             "ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:exitcode=99",
             "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98"}
        e.update(env or {})
        if preload:
            e["LD_PRELOAD"] = preload
        cmd = [exe] + argv[1:]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=97", "--leak-check=no"] + cmd
        so, se, si = (os.path.join(d, x) for x in (".out", ".err", ".in"))
        open(si, "w").write(stdin)
        with open(so, "wb") as fo, open(se, "wb") as fe, open(si, "rb") as fi:
            p = subprocess.Popen(cmd, cwd=d, stdin=fi, stdout=fo, stderr=fe, env=e, start_new_session=True,
                                 preexec_fn=limit)
            try:
                r.rc = p.wait(timeout); r.timeout = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); r.rc = None; r.timeout = True
        def rd(x):
            with open(x, "rb") as f:
                return f.read(1 << 24).decode("latin-1")
        r.out, r.err = rd(so), rd(se)
        r.files = {n: rd(os.path.join(d, n)) for n in os.listdir(d) if n[0] != "."}
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

# --- reading the solver's output
class Answer:
    pass
def answer(out):
    a = Answer()
    ls = out.replace("\a", "").split("\n")
    a.verdicts = [l for l in ls if l in ("SAT", "UNSAT", "TIMEOUT")]
    a.verdict = a.verdicts[0] if a.verdicts and len(set(a.verdicts)) == 1 else None
    a.stats = {}
    for l in ls:
        m = re.match(r"^(Decisions|Units|Backtracks|Entails|Variables|Clauses|Restarts) *: (-?\d+)$", l)
        if m:
            a.stats[m[1]] = int(m[2])
    a.model = []
    if "The model: " in ls:
        for l in ls[ls.index("The model: ") + 1:]:
            m = re.match(r"^(\d+)=(-?\d+)$", l)
            if not m:
                break
            a.model.append((int(m[1]), int(m[2])))
    a.check = [l.split("model is ")[1] for l in ls if "model is " in l]
    a.decisions = sum(1 for l in ls if l.startswith("Decision:") or "\tDecision:" in l)
    return a

def parse_mv(text):
    """Reading of an extended DIMACS text by the README's rules, independent of the program."""
    doms, cl = {}, []
    for l in text.replace("\r", " ").split("\n"):
        t = l.split()
        if not t or t[0][0] in "cp":
            continue
        if t[0] == "d":
            doms[int(t[1])] = int(t[2]); continue
        c = []
        for w in t:
            if w == "0":
                break
            v, a = w.split("!=") if "!=" in w else w.split("=")
            c.append((int(v), 0 if "!=" in w else 1, int(a)))
        cl.append(c)
    return [doms[i + 1] for i in range(len(doms))], cl

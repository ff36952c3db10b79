"""Abstract-interpretation engine: drives Frama-C/EVA over /repo's current source.

Every entry point `<PROP>_<name>` of harness/*.c is one analysis: the functions it
calls are taken from /repo's working tree (closure over the symbols they need), put
in the abstract environment the harness describes, and interpreted over abstract
values.  An analysis passes if EVA proves every obligation (memory access, libc
precondition, `check` clause) and every abstract case that entered reaches the end.
Because every configuration of the abstract domains is sound, an alarm counts only
if no configuration of the ladder discharges it.
"""
import threading, os, re, subprocess, shutil, tempfile, time, json, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
NM = "/usr/lib/llvm-18/bin/llvm-nm"
FRAMAC = "/usr/bin/frama-c"
SHARE = "/usr/share/frama-c/libc"
CPP = ("-I%s/models -I%s/include -std=c99 -D_GNU_SOURCE -w -DPAGE_SIZE=4096"
       " -Wno-builtin-macro-redefined -U__COUNTER__")

class Broken(Exception):
    """the analysis itself could not be carried out (never a verdict)"""

def srcs():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".c")]
    # crc32_impl.c style includes are compiled by the Makefile as well: keep all of src/*/*.c
    return sorted(out)

class SymTab:
    """which repo file defines / needs which symbol (from the compiled units)"""
    def __init__(self, tmp):
        self.defs, self.needs, self.failed = {}, {}, []
        files = srcs()
        if len(files) < 60:
            raise Broken("only %d source files under %s/src" % (len(files), REPO))
        def one(f):
            o = os.path.join(tmp, f.replace("/", "_") + ".bc")
            r = subprocess.run([CLANG, "-c", "-emit-llvm", "-O0", "-w", "-std=c99", "-D_GNU_SOURCE", f, "-o", o],
                               stdin=subprocess.DEVNULL, capture_output=True, text=True)
            if r.returncode: return f, None, r.stderr
            n = subprocess.run([NM, o], capture_output=True, text=True).stdout
            d, u = set(), set()
            for l in n.splitlines():
                p = l.split()
                if len(p) == 2 and p[0] == "U": u.add(p[1])
                elif len(p) == 3 and p[1] in "TDBRCVW": d.add(p[2])
            return f, d, u
        with cf.ThreadPoolExecutor(8) as ex:
            for f, d, u in ex.map(one, files):
                if d is None:
                    raise Broken("does not compile: %s: %s" % (f, u[:500]))
                for s in d: self.defs.setdefault(s, f)
                self.needs[f] = u
    def closure(self, names):
        todo = [self.defs[n] for n in names if n in self.defs]
        seen = set()
        while todo:
            f = todo.pop()
            if f in seen: continue
            seen.add(f)
            todo += [self.defs[n] for n in self.needs[f] if n in self.defs]
        return sorted(seen)

ENTRY = re.compile(r"^void\s+((C\d\d)_\w+)\s*\(void\)", re.M)

def entries(prop=None):
    """[(harness file, entry name, options)]"""
    out = []
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if not f.endswith(".c"): continue
        p = os.path.join(hd, f)
        txt = open(p).read()
        fileopts = re.findall(r"^// file-opts: (.*)$", txt, re.M)
        for m in ENTRY.finditer(txt):
            if prop and m.group(2) != prop: continue
            before = txt[:m.start()].rstrip().splitlines()
            opts = {}
            for line in list(reversed(before)):
                k = re.match(r"// (\w+): (.*)$", line.strip())
                if not k: break
                opts[k.group(1)] = k.group(2).strip()
            if fileopts:
                opts["opts"] = (fileopts[0] + " " + opts.get("opts", "")).strip()
            out.append((p, m.group(1), opts))
    return out

BASE = ["-machdep", "gcc_x86_64", "-eva", "-eva-no-alloc-returns-null", "-eva-alloc-builtin", "fresh",
        "-eva-split-return", "full", "-eva-alloc-functions", "malloc,calloc,realloc,vf_malloc,vf_calloc,vf_realloc",
        "-no-warn-signed-overflow", "-eva-print-callstacks", "-eva-msg-key=-final-states,-initial-state",
        "-eva-no-results", "-eva-split-limit", "300", "-eva-unroll-recursive-calls", "40", "-eva-ilevel", "260", "-no-warn-left-shift-negative", "-no-warn-right-shift-negative",
        "-kernel-warn-key", "annot-error=active"]
LADDER = [
    ["-eva-slevel", "60000", "-eva-auto-loop-unroll", "300"],
    ["-eva-slevel", "60000", "-eva-auto-loop-unroll", "1200", "-eva-domains", "equality,symbolic-locations",
     "-eva-plevel", "4000"],
    ["-eva-slevel", "60000", "-eva-auto-loop-unroll", "1200", "-eva-domains", "equality,symbolic-locations,octagon,bitwise",
     "-eva-plevel", "4000", "-eva-subdivide-non-linear", "20"],
]

START = time.time()
DEADLINE = [float("inf")]      # run.py sets it for the quick tier
FOUND = []                     # entries with violations so far

COARSE = ["-eva-slevel", "1500", "-eva-auto-loop-unroll", "20"]

def parse_vals(s):
    """EVA value list -> list of (set | (lo,hi) | None)"""
    res = []
    for m in re.finditer(r"\{\{.*?\}\}|\{[^}]*\}|\[[^\]]*\](?:,\d+%\d+)?|[^,\s][^,]*", s):
        t = m.group(0).strip()
        if not t: continue
        if re.fullmatch(r"\{[-\d;\s]*\}", t):
            res.append(frozenset(int(x) for x in re.findall(r"-?\d+", t)))
        elif re.match(r"\[", t):
            k = re.match(r"\[\s*(-?\d+|--)\.\.\s*(-?\d+|--)\]", t)
            if k:
                lo = float("-inf") if k.group(1) == "--" else int(k.group(1))
                hi = float("inf") if k.group(2) == "--" else int(k.group(2))
                res.append((lo, hi))
            else: res.append(None)
        elif re.fullmatch(r"-?\d+", t): res.append(frozenset([int(t)]))
        else: res.append(None)
    return res

def covers(end, beg):
    """is every case of tuple `beg` inside some tuple of `end`?"""
    def inside(v, w):
        if w is None or v is None: return True
        if isinstance(v, frozenset):
            if isinstance(w, frozenset): return v <= w
            return all(w[0] <= x <= w[1] for x in v)
        if isinstance(w, tuple): return w[0] <= v[0] and v[1] <= w[1]
        return set(range(v[0], v[1] + 1)) <= w if v[1] - v[0] < 5000 else False
    return any(len(e) == len(beg) and all(inside(v, w) for v, w in zip(beg, e)) for e in end)

class Run:
    pass

_needs = {}
_needs_lock = threading.Lock()
def harness_needs(harness, cppargs, tmp):
    """symbols the compiled harness leaves undefined (so: what it really calls)"""
    with _needs_lock:
        if harness in _needs: return _needs[harness]
        o = os.path.join(tmp, os.path.basename(harness) + ".bc")
        p = subprocess.run([CLANG, "-c", "-emit-llvm", "-O0", "-nostdinc", "-I" + SHARE, "-D__FC_MACHDEP_X86_64", "-ffreestanding", "-Wno-implicit-function-declaration", "-Wno-int-conversion",
                            "-include", os.path.join(VERIF, "models", "rename.h")]
                           + cppargs.split() + [harness, "-o", o], capture_output=True, text=True, stdin=subprocess.DEVNULL)
        if p.returncode:
            _needs[harness] = "harness does not compile: " + " | ".join(l for l in p.stderr.splitlines() if "error" in l)[:600]
        else:
            n = subprocess.run([NM, "-u", o], capture_output=True, text=True).stdout
            _needs[harness] = set(l.split()[-1] for l in n.splitlines() if l.strip())
        return _needs[harness]

def engine_opts(opts, files):
    """the entry's Eva options; precision hints that name functions the sources no longer have are dropped"""
    out = opts.get("opts", "").split()
    txt = None
    for i, o in enumerate(out):
        if o != "-eva-slevel-function" or i + 1 >= len(out): continue
        if txt is None: txt = "".join(open(f, errors="replace").read() for f in files)
        keep = [x for x in out[i + 1].split(",") if re.search(r"\b%s\s*\([^;{}]*\)\s*\{" % re.escape(x.split(":")[0]), txt)]
        out[i + 1] = ",".join(keep)
        if not keep: out[i] = None; out[i + 1] = None
    return [o.replace('""', "") for o in out if o is not None]

def run_one(symtab, harness, entry, opts, cfg, tier, timeout, tmp):
    r = Run(); r.entry = entry; r.harness = harness; r.cfg = cfg
    r.alarms = []; r.broken = None; r.timeout = False
    defs = " -DVF_THOROUGH" if tier == "thorough" else ""
    cppargs = CPP % (VERIF, REPO) + defs
    ids = harness_needs(harness, cppargs, tmp)
    if isinstance(ids, str):
        r.broken = ids; return r
    files = symtab.closure(ids)
    # a repo unit that the harness includes textually is not linked a second time
    inc = set(re.findall(r'^#include "(?:\.\./)*(?:repo/)?(src/[\w/]+\.c)"', open(harness).read(), re.M))
    files = [f for f in files if os.path.relpath(f, REPO) not in inc]
    models = [os.path.join(VERIF, "models", m) for m in sorted(os.listdir(os.path.join(VERIF, "models"))) if m.endswith(".c")]
    ren = "-include " + os.path.join(VERIF, "models", "rename.h")
    per = ",".join("%s:%s" % (f, ren) for f in files + [harness])
    cmd = [FRAMAC] + BASE + cfg + ["-cpp-extra-args=" + cppargs, "-cpp-extra-args-per-file=" + per,
           "-main", entry] + engine_opts(opts, files + [harness]) + files + models + [harness]
    wd = tempfile.mkdtemp(dir=tmp)
    t0 = time.time()
    try:
        p = subprocess.run(["timeout", "-k", "5", str(int(timeout))] + cmd, cwd=wd, stdin=subprocess.DEVNULL,
                           capture_output=True, text=True, env=dict(os.environ, TMPDIR=wd))
        out = p.stdout + p.stderr
        r.timeout = p.returncode in (124, 137)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    r.wall = time.time() - t0
    r.out = out; r.cmd = cmd; r.files = files
    if r.timeout:
        # what was refuted for certain before time ran out
        txt = re.split(r"\n(?=\[)", out)
        r.refuted = {clean(b) for b in txt if b.startswith("[eva:alarm]") and "got status invalid" in b}
        return r
    if p.returncode or "User Error" in out or "[eva] done for function" not in out:
        tail = [l for l in out.splitlines() if "rror" in l or "abort" in l] or out.splitlines()[-5:]
        r.broken = "frama-c: " + " | ".join(tail[:6]); return r
    if "[kernel:annot-error]" in out or "Ignoring annotation" in out or "is ignored" in out:
        i = out.find("[kernel:annot-error]"); i = i if i >= 0 else out.find("gnor") - 200
        r.broken = "harness annotation not understood: " + " ".join(out[i:i + 300].split()); return r
    # blocks of messages
    blocks, cur = [], None
    for l in out.splitlines():
        if l.startswith("["):
            cur = [l]; blocks.append(cur)
        elif cur is not None: cur.append(l)
    r.begin, r.end, r.missing, r.specs = [], [], set(), set()
    for b in blocks:
        txt = "\n".join(b)
        m = re.match(r"\[eva\] .*?Frama_C_show_each_(BEGIN|END)\w*:?\s*(.*)", txt, re.S)
        if m:
            v = parse_vals(" ".join(re.sub(r"(?s)\s*stack:.*", "", m.group(2)).split()))
            (r.begin if m.group(1) == "BEGIN" else r.end).append(v)
            continue
        if "[eva:alarm]" in b[0]:
            r.alarms.append(clean(txt)); continue
        m = re.search(r"[Nn]either code nor (?:explicit )?specification for function (\w+)", " ".join(txt.split()))
        if m: r.missing.add(m.group(1))
        m = re.search(r"using specification for function (\w+)", " ".join(txt.split()))
        if m: r.specs.add(m.group(1))
        if "missing-libc" in b[0] or "ACSL" in b[0] : pass
    g = lambda rx, d=0: int(re.search(rx, out).group(1)) if re.search(rx, out) else d
    r.functions = g(r"(\d+) functions? analyzed")
    r.statements = g(r"(\d+) statements? reached")
    m = re.search(r"Assertions\s+(\d+) valid\s+(\d+) unknown\s+(\d+) invalid", out)
    r.asserts = tuple(map(int, m.groups())) if m else (0, 0, 0)
    m = re.search(r"Preconditions\s+(\d+) valid\s+(\d+) unknown\s+(\d+) invalid", out)
    r.precond = tuple(map(int, m.groups())) if m else (0, 0, 0)
    if not r.begin:
        r.broken = "entry shows no abstract case"; return r
    r.lost = [b for b in r.begin if not covers(r.end, b)]
    return r

def clean(txt):
    t = " ".join(txt.split())
    t = re.sub(r"^\[eva:alarm\]\s*", "", t)
    t = t.replace(REPO + "/", "")
    return t

def show(v):
    o = []
    for x in v:
        if isinstance(x, frozenset): o.append("{" + ";".join(map(str, sorted(x))) + "}")
        elif x is None: o.append("?")
        else: o.append("[%s..%s]" % x)
    return "(" + ", ".join(o) + ")"

def decide(*a):
    res = decide1(*a)
    if res[0] == "violation": FOUND.append(a[2])
    return res

def decide1(symtab, harness, entry, opts, tier, tmp):
    """returns (status, run, problems): status in pass/violation/broken"""
    best = None; tried = []
    tmo = int(opts.get("timeout", "120" if tier == "quick" else "900"))
    base_fail = None; refuted = None; last = None
    for i, cfg in enumerate(LADDER):
        left = DEADLINE[0] - time.time()
        if left < 10 or (FOUND and time.time() - START > 240):
            if best and (FOUND or left >= 10): break
            r = Run(); r.entry = entry; r.harness = harness
            return "broken", r, ["not analysed: " + ("time budget used up" if left < 10 else "violation already found elsewhere")]
        if i > 0 and opts.get("ladder") == str(i): break
        r = run_one(symtab, harness, entry, opts, cfg, tier, min(tmo, left), tmp)
        tried.append(("cfg%d" % i, "timeout" if r.timeout else r.broken or len(r.alarms)))
        if r.timeout:
            refuted = r.refuted if refuted is None else refuted & r.refuted
            last = r
            continue
        if r.broken:
            return "broken", r, [r.broken]
        probs = list(r.alarms)
        if opts.get("only"):     # the entry decides these checks; the other obligations on its way belong to other entries
            probs = [x for x in probs if re.search("'(%s)'" % opts["only"], x)]
        for b in r.lost:
            probs.append("no return: the abstract case %s of %s does not reach the end (non-termination or certain failure)" % (show(b), entry))
        unk = sorted(m for m in r.missing | r.specs if not m.startswith("Frama_C_"))
        if not probs:
            if unk:
                pass
            r.tried = tried; r.unmodelled = unk
            if os.environ.get("VERIF_SPECS"): print("SPECS", entry, sorted(r.specs), file=__import__("sys").stderr)
            return "pass", r, []
        if unk:
            base_fail = ("broken", r, ["call to unmodelled function(s) %s; unproved: %s" % (", ".join(unk), probs[0])])
            continue
        if best is None or len(probs) < len(best[1]): best = (r, probs)
    if base_fail and not best: return base_fail
    if best is None:
        if refuted and len(tried) == len(LADDER):     # refuted under every configuration, though none finished
            r = last; r.tried = tried; r.begin = r.end = []; r.functions = r.statements = 0; r.asserts = r.precond = (0, 0, 0)
            return ("broken" if opts.get("soft") else "violation"), r, sorted(refuted)
        # too slow everywhere: a coarse configuration still converges if some case provably never gets to the
        # end, i.e. the slowness is an endless loop
        r = run_one(symtab, harness, entry, opts, COARSE, tier, max(5, min(60, DEADLINE[0] - time.time())), tmp)
        if not r.timeout and not r.broken and r.lost and not r.missing and not [m for m in r.specs if not m.startswith("Frama_C_")]:
            r.tried = tried + [("coarse", "no return")]
            return "violation", r, ["no return: the abstract case %s of %s does not reach the end (non-termination or certain failure)" % (show(b), entry) for b in r.lost]
        if not r.timeout and not r.broken and not r.lost and not r.alarms:      # every configuration is sound
            r.tried = tried + [("coarse", 0)]; r.unmodelled = sorted(m for m in r.missing | r.specs if not m.startswith("Frama_C_"))
            return "pass", r, []
        r = Run(); r.entry = entry; r.harness = harness
        return "broken", r, ["no configuration finished within %d s" % tmo]
    best[0].tried = tried
    if opts.get("soft") == "refuted":     # coarse abstraction: only what fails in every abstract state counts
        sure = [x for x in best[1] if "got status invalid" in x]
        if sure: return "violation", best[0], sure
    if opts.get("soft"):     # a deliberately coarse strengthening of other entries: it can prove, but not refute
        return "broken", best[0], ["not proved in the coarse abstraction: " + best[1][0]]
    return "violation", best[0], best[1]


def touches(symtab, harness, entry, changed, tmp):
    if any(c.startswith("include") for c in changed): return True
    ids = harness_needs(harness, CPP % (VERIF, REPO), tmp)
    if isinstance(ids, str): return True
    body = open(harness).read()
    if any(c in body for c in changed): return True
    m = re.search(r"^void\s+%s\s*\(void\)(.*?)^}" % entry, body, re.M | re.S)
    # functions the entry names directly or through static helpers of the harness
    names, todo, seen = set(), [m.group(1) if m else body], set()
    while todo:
        t = todo.pop()
        for w in set(re.findall(r"\w+", t)) - seen:
            seen.add(w)
            if w in symtab.defs: names.add(w)
            k = re.search(r"^[^\n]*\b%s\b[^\n;]*\)\s*\{(.*?)^}" % re.escape(w), body, re.M | re.S)
            if k: todo.append(k.group(1))
            k = re.search(r"^[^\n]*\b%s\b[^\n;]*\)\s*\{([^\n]*)\}\s*$" % re.escape(w), body, re.M)
            if k: todo.append(k.group(1))
            k = re.search(r"^#define %s\b(.*)$" % re.escape(w), body, re.M)
            if k: todo.append(k.group(1))
    files = [os.path.relpath(f, REPO) for f in symtab.closure(names or ids)]
    for f in list(files):     # units included textually
        files += [os.path.normpath(os.path.join(os.path.dirname(f), i)) for i in re.findall(r'#include "([^"]+\.c)"', open(os.path.join(REPO, f)).read())]
    return not names or any(c in files for c in changed)

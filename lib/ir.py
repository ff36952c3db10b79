"""Effect and provenance analysis over the LLVM IR of all units of /repo.

Every unit is compiled to IR (registers instead of scalar locals); a flow-insensitive
inclusion-based points-to analysis with function summaries computes, per function, which
objects it may write: its parameters' objects (depth 0), what is reachable from them
(depth 1), the objects behind its variable arguments, and static storage.
"""
import os, re, subprocess, concurrent.futures as cf
import eva

OPT = "/usr/lib/llvm-18/bin/opt"
NAME = re.compile(r'%(?:"[^"]*"|[-\w.$]+)')
GLOB = re.compile(r'@(?:"[^"]*"|[-\w.$]+)')

class Fn:
    def __init__(s, unit, name, exported):
        s.unit, s.name, s.exported = unit, name, exported
        s.params, s.instrs, s.variadic = [], [], False
        s.calls = []          # (callee or None, line)
        s.writes = {}         # node -> (where)
        s.ret = set(); s.content = {}
    @property
    def key(s): return s.name if s.exported else s.unit + ":" + s.name

def split_args(t):
    out, d, cur, q = [], 0, "", False
    for c in t:
        if c == '"': q = not q
        if not q:
            if c in "([{<": d += 1
            elif c in ")]}>": d -= 1
            elif c == "," and d == 0:
                out.append(cur.strip()); cur = ""; continue
        cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def unit_ir(path, extra=()):
    c = subprocess.run([eva.CLANG, "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-gline-tables-only",
                        "-fno-discard-value-names", "-w", "-std=c99", "-D_GNU_SOURCE", *extra, path, "-o", "-"],
                       stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if c.returncode: raise eva.Broken("does not compile to IR: %s: %s" % (path, c.stderr[:400]))
    o = subprocess.run([OPT, "-S", "-passes=sroa"], input=c.stdout, capture_output=True, text=True)
    if o.returncode: raise eva.Broken("opt: %s: %s" % (path, o.stderr[:400]))
    return o.stdout

class Program:
    def __init__(self, headers=True):
        self.fns, self.globals, self.consts, self.ncalls, self.nstores = {}, {}, set(), 0, 0
        self.unknown = set()
        units = [(os.path.relpath(f, eva.REPO), f, ()) for f in eva.srcs()]
        # the crc implementation is compiled three times under two names: the includers carry it
        if headers:
            units.append(("include (instantiated)", os.path.join(eva.VERIF, "probe", "headers.c"),
                          ("-I" + os.path.join(eva.REPO, "include"), "-DPAGE_SIZE=4096", "-Xclang", "-femit-all-decls")))
        with cf.ThreadPoolExecutor(8) as ex:
            for (rel, f, x), ir in zip(units, ex.map(lambda u: unit_ir(u[1], u[2]), units)):
                self.parse(rel, ir)
        self.units = len(units)
        if len(self.fns) < 120: raise eva.Broken("only %d functions found in the IR" % len(self.fns))
        self.solve()

    def parse(self, unit, ir):
        lines = ir.splitlines(); locs = {}
        for l in lines:
            m = re.match(r"(!\d+) = !DILocation\(line: (\d+)", l)
            if m: locs[m.group(1)] = m.group(2)
        fn = None; pend = None
        for l in lines:
            m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*?)\b(global|constant)\b', l)
            if m and fn is None:
                n, pre = m.group(1)[1:].strip('"'), m.group(2)
                k = unit + ":" + n if re.search(r"\b(internal|private)\b", pre) else n
                if m.group(3) == "constant": self.consts.add(k)
                elif "external" in pre.split(): self.globals[k] = "external"
                else: self.globals[k] = unit
                continue
            if l.startswith("define "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                fn = Fn(unit, m.group(1).strip('"'), not re.search(r"\binternal\b|\blinkonce", l.split("@")[0]))
                depth, i = 1, m.end()
                while depth:
                    depth += {"(": 1, ")": -1}.get(l[i], 0); i += 1
                for a in split_args(l[m.end():i - 1]):
                    if a == "...": fn.variadic = True; continue
                    nm = NAME.findall(a)
                    fn.params.append((nm[-1] if nm else None, a.startswith("ptr")))
                continue
            if fn is None: continue
            if l.startswith("}"):
                # the same external function in several units (crc32_impl.c / crc32.c): keep both, joined by name
                k = fn.key
                if k in self.fns: k = fn.unit + "::" + k
                self.fns[k] = fn; fn.k = k
                fn = None; continue
            t = l.strip()
            if pend is not None:
                pend += " " + t
                if "]" in t: t, pend = pend, None
                else: continue
            if re.match(r"switch .*\[$", t): pend = t; continue
            m = re.search(r"!dbg (!\d+)", t)
            line = locs.get(m.group(1), "?") if m else "?"
            t = re.sub(r",? *(![\w.]+ !\d+)", "", t)
            if t and not t.endswith(":") and not t.startswith(";"): fn.instrs.append((t, line))
        return

    # ---- points-to ---------------------------------------------------------
    # nodes: ('P',i,d) ('VA',1) ('O',site) ('G',key) ('F',key)
    def gkey(self, fn, n):
        n = n[1:].strip('"')
        k = fn.unit + ":" + n
        return k if (k in self.globals or k in self.consts) else n
    def fkey(self, fn, n):
        n = n[1:].strip('"')
        for k in (fn.unit + ":" + n, fn.unit + "::" + n, n):
            if k in self.fns: return k
        return None
    def val(self, fn, env, s):
        r = set()
        s = re.sub(r'\b(align|dereferenceable|dereferenceable_or_null)\s*\(?\d+\)?', '', s)
        for n in NAME.findall(s): r |= env.get(n, set())
        for g in GLOB.findall(s):
            fk = self.fkey(fn, g)
            if fk: r.add(("F", fk)); continue
            k = self.gkey(fn, g)
            if k in self.globals: r.add(("G", k))
        return r
    def load(self, fn, nodes):
        r = set()
        for n in nodes:
            if n[0] == "P": r.add(("P", n[1], 1))
            elif n[0] == "VA": r.add(n)
            elif n[0] == "G": r.add(("G", n[1]))
            r |= fn.content.get(n, set())
        return r
    def close(self, fn, nodes):
        r = set(self.load(fn, nodes)); todo = list(r)
        while todo:
            for m in self.load(fn, {todo.pop()}):
                if m not in r: r.add(m); todo.append(m)
        return r
    def w(self, fn, nodes, where):
        for n in nodes:
            if n[0] in "PGV" and n not in fn.writes:
                fn.writes[n] = where; self.changed = True
    def store(self, fn, dst, vals):
        for d in dst:
            if d[0] == "F": continue
            c = fn.content.setdefault(d, set())
            if not vals <= c: c |= vals; self.changed = True

    WR = {  # written pointer arguments of library functions
        "memcpy": [0], "memmove": [0], "memset": [0], "mempcpy": [0], "strcpy": [0], "strncpy": [0], "stpcpy": [0], "strcat": [0], "strncat": [0], "bzero": [0],
        "explicit_bzero": [0], "sprintf": [0], "snprintf": [0], "vsnprintf": [0], "vsprintf": [0], "read": [1], "pread": [1], "recv": [1], "fgets": [0], "getline": [0, 1], "fread": [0],
        "qsort": [0], "free": [0], "realloc": [0], "stat": [1], "lstat": [1], "fstat": [1], "pipe": [0], "pipe2": [0], "nanosleep": [1], "gettimeofday": [0], "clock_gettime": [1],
        "localtime_r": [1], "gmtime_r": [1], "time": [0], "glob": [3], "globfree": [0], "waitpid": [1], "wait": [0], "posix_spawn": [0], "posix_spawnp": [0],
        "posix_spawn_file_actions_init": [0], "posix_spawn_file_actions_destroy": [0], "posix_spawn_file_actions_addclose": [0], "posix_spawn_file_actions_adddup2": [0],
        "mkdtemp": [0], "mktemp": [0], "mkstemp": [0], "strtok": [0], "strtok_r": [0, 2], "strsep": [0], "strtol": [1], "strtoul": [1], "strtoll": [1], "strtoull": [1], "getcwd": [0],
        "realpath": [1], "strerror_r": [1], "munmap": [0], "swab": [1], "memfrob": [0], "strfry": [0], "basename": [0], "dirname": [0], "sscanf": [], "strfdup": []}
    RET0 = {"memcpy", "memmove", "memset", "mempcpy", "strcpy", "strncpy", "stpcpy", "strcat", "strncat", "strchr", "strrchr", "strstr", "strcasestr", "memchr", "memrchr", "memmem",
            "strchrnul", "strpbrk", "fgets", "rawmemchr", "index", "rindex", "mkdtemp", "basename", "dirname", "strtok", "getcwd"}
    FRESH = {"malloc", "calloc", "realloc", "strdup", "strndup", "mmap", "alloca", "reallocarray", "aligned_alloc"}
    PURE = {"strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "bcmp", "strspn", "strcspn", "open", "close", "write", "pwrite", "lseek", "mkdir", "rmdir",
            "unlink", "exit", "_exit", "abort", "fork", "setsid", "dup", "dup2", "getdtablesize", "rand", "random", "strerror", "__errno_location", "mprotect", "munmap", "bsearch",
            "toupper", "tolower", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace", "isxdigit", "atoi", "atol", "atoll", "fcntl", "access", "sysconf", "__assert_fail", "printf", "fprintf", "puts", "__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc", "getpid", "umask"}

    def call(self, fn, env, res, t, line, site):
        m = re.search(r"\bcall\b", t)
        body = t[m.end():]
        # callee: last @name or %name directly before the argument list's '('
        cm = re.search(r'(@(?:"[^"]*"|[-\w.$]+)|%(?:"[^"]*"|[-\w.$]+))\((?!\.\.\.\))', body)
        if not cm: return
        callee = cm.group(1)
        depth, i = 1, cm.end()
        while depth and i < len(body):
            depth += {"(": 1, ")": -1}.get(body[i], 0); i += 1
        args = split_args(body[cm.end():i - 1])
        pts = [self.val(fn, env, a) if a.startswith("ptr") or "inttoptr" in a or a.startswith("i64") or a.startswith("{") or a.startswith("[") else set() for a in args]
        where = "%s:%s in %s" % (fn.unit, line, fn.name)
        out = set()
        if callee[0] == "%":
            if site not in self.seen: fn.calls.append((None, line))
            targets = [n[1] for n in env.get(callee, set()) if n[0] == "F"]
        else:
            name = callee[1:].strip('"')
            fk = self.fkey(fn, callee)
            if site not in self.seen: fn.calls.append((fk or name, line))
            if not fk:
                base = re.sub(r"^llvm\.(\w+).*$", r"\1", name) if name.startswith("llvm.") else name
                base = {"__memcpy_chk": "memcpy", "__isoc99_sscanf": "sscanf"}.get(base, base)
                if name.startswith("llvm.va_start"):
                    self.store(fn, pts[0], {("VA", 1)})
                elif name.startswith("llvm.va_copy"):
                    self.store(fn, pts[0], self.load(fn, pts[1])); self.w(fn, pts[0], where)
                elif name.startswith("llvm."):
                    if base in ("memcpy", "memmove"):
                        self.w(fn, pts[0], where + " (copy)"); self.store(fn, pts[0], self.load(fn, pts[1]))
                    elif base == "memset": self.w(fn, pts[0], where + " (memset)")
                    elif base in ("va", "lifetime", "dbg", "stacksave", "stackrestore", "expect", "abs", "umin", "umax", "smin", "smax", "bswap", "ctpop", "fshl", "fshr", "objectsize", "trap"): pass
                else:
                    for k in self.WR.get(base, []):
                        if k < len(pts): self.w(fn, pts[k], where + " (%s)" % base)
                    # (a copy through the library function is opaque data, a structure assignment carries pointers)
                    if base in self.RET0 and pts: out |= pts[0]
                    if base == "bsearch" and len(pts) > 1: out |= pts[1]
                    if base in self.FRESH:
                        out.add(("O", site))
                        if base == "realloc" and pts: self.store(fn, {("O", site)}, self.load(fn, pts[0]))
                    if base not in self.WR and base not in self.RET0 and base not in self.FRESH and base not in self.PURE: self.unknown.add(name)
                if res is not None: self.bind(env, res, out)
                return
            targets = [fk]
        for tk in targets:
            g = self.fns[tk]
            extra = set()
            if g.variadic:
                for a in pts[len(g.params):]: extra |= a
            def inst(n):
                if n[0] == "P":
                    if n[1] >= len(pts): return set()
                    return pts[n[1]] if n[2] == 0 else self.close(fn, pts[n[1]])
                if n[0] == "VA": return extra | self.close(fn, extra)
                if n[0] == "O": return {("O", site + "/" + n[1]) if site.count("/") < 2 else ("O", site)}
                return {n}
            for n, wh in list(g.writes.items()):
                if n[0] == "G": self.w(fn, {n}, wh)
                else: self.w(fn, inst(n), wh if n[0] != "G" else wh)
            for d, vals in list(g.content.items()):
                if d[0] == "O" and d not in g.ret and not any(d in v for v in g.content.values()): continue
                vs = set()
                for v in vals: vs |= inst(v)
                if vs: self.store(fn, inst(d), vs)
            for n in g.ret: out |= inst(n)
        if res is not None: self.bind(env, res, out)

    def bind(self, env, res, v):
        o = env.get(res)
        if o is None: env[res] = set(v); self.changed |= bool(v)
        elif not v <= o: o |= v; self.changed = True

    def step(self, fn):
        env = fn.__dict__.setdefault("env", {})
        if not env:
            for i, (n, isptr) in enumerate(fn.params):
                if n: env[n] = {("P", i, 0)} if isptr else set()
        for idx, (t, line) in enumerate(fn.instrs):
            site = "%s#%d" % (fn.k, idx)
            m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = (.*)', t)
            res, body = (m.group(1), m.group(2)) if m else (None, t)
            op = body.split(" ", 1)[0]
            if op in ("tail", "musttail", "notail"): op = "call"
            where = "%s:%s in %s" % (fn.unit, line, fn.name)
            if op == "alloca": self.bind(env, res, {("O", site)})
            elif op == "load":
                a = split_args(body[4:].replace("volatile", ""))
                if a[0].startswith(("ptr", "{", "[", "%", "<")): self.bind(env, res, self.load(fn, self.val(fn, env, a[1])))
            elif op == "store":
                a = split_args(body[5:].replace("volatile", ""))
                dst = self.val(fn, env, a[1])
                if site not in self.seen: self.nstores += 1
                self.w(fn, dst, where)
                v = self.val(fn, env, a[0]) if a[0].startswith(("ptr", "{", "[", "%", "<")) else set()
                if v: self.store(fn, dst, v)
            elif op in ("atomicrmw", "cmpxchg"):
                a = split_args(body)
                self.w(fn, self.val(fn, env, a[0]), where)
            elif op == "getelementptr":
                a = split_args(body[len(op):])
                self.bind(env, res, self.val(fn, env, a[1]))
            elif op == "call":
                if site not in self.seen: self.ncalls += 1
                self.call(fn, env, res, body, line, site)
            elif op in ("phi", "select", "bitcast", "inttoptr", "ptrtoint", "insertvalue", "extractvalue", "add", "sub", "and", "or", "xor", "freeze", "addrspacecast", "zext", "sext", "trunc"):
                self.bind(env, res, self.val(fn, env, body))
            elif op == "ret":
                v = self.val(fn, env, body)
                if not v <= fn.ret: fn.ret |= v; self.changed = True
            self.seen.add(site)

    def solve(self):
        self.seen = set()
        for _ in range(60):
            self.changed = False
            for fn in self.fns.values(): self.step(fn)
            if not self.changed: return
        raise eva.Broken("points-to analysis does not converge")

    def reach(self, root):
        """call-graph closure: {function key or library name: path from root}"""
        seen = {root: [root]}; todo = [root]
        while todo:
            k = todo.pop(0)
            if k not in self.fns: continue
            f = self.fns[k]
            for c, line in f.calls:
                if c and c not in seen:
                    seen[c] = seen[k] + ["%s (%s:%s)" % (c, f.unit, line)]; todo.append(c)
        return seen

_prog = None
def program():
    global _prog
    if _prog is None: _prog = Program()
    return _prog

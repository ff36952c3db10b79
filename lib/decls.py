"""C36 and the macro half of C22: what the public headers declare against what the units define.
Decided by the compiler's type checker (witness translation units) and from its syntax tree and IR."""
import os, re, json, subprocess, tempfile, shutil, concurrent.futures as cf
import eva

NOT_BUILT_IN = {"tlist_getbalance": "-DTLIST_TEST"}      # documented: "not built-in by default"
INC = lambda: os.path.join(eva.REPO, "include")
def headers(): return sorted(f for f in os.listdir(INC()) if f.endswith(".h"))

def cc(src, *args, lang="c"):
    r = subprocess.run([eva.CLANG, "-x", lang, "-I" + INC(), *args, "-"], input=src, capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr.replace(eva.REPO + "/", "").replace("\n\n", "\n")
def first_error(err):
    for l in err.splitlines():
        if "error:" in l: return " ".join(l.split())
    return err[:200]

_D = None
def declared():
    """name -> (header, kind, line) of every external function or object the public headers declare"""
    global _D
    if _D is not None: return _D
    hs = [h for h in headers() if h != "stdio-repl.h"]
    src = "#include <stdlib.h>\n#include <string.h>\n" + "".join('#include "%s"\n' % h for h in hs)
    rc, out, err = cc(src, "-std=c99", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json")
    if rc: raise eva.Broken("public headers do not compile together: " + first_error(err))
    ast = json.loads(out); res = {}; cur = [None]
    def see(l):
        if not isinstance(l, dict): return
        for k in ("spellingLoc", "expansionLoc"):
            if k in l: see(l[k])
        if "file" in l: cur[0] = l["file"]
    def walk(n, top):
        see(n.get("loc", {})); here = cur[0]
        r = n.get("range", {})
        see(r.get("begin", {})); see(r.get("end", {}))
        if top and n.get("kind") in ("FunctionDecl", "VarDecl") and n.get("storageClass") != "static" and not n.get("isImplicit") and here and os.path.realpath(os.path.dirname(here)) == os.path.realpath(INC()):
            body = any(c.get("kind") == "CompoundStmt" for c in n.get("inner", []))
            if not body and not n.get("inline"): res.setdefault(n["name"], (os.path.basename(here), n["kind"], n.get("loc", {}).get("line", 0), set()))[3].add(os.path.basename(here))
        for c in n.get("inner", []): walk(c, n.get("kind") == "TranslationUnitDecl" or n.get("kind") == "LinkageSpecDecl")
    walk(ast, False)
    if len(res) < 80: raise eva.Broken("only %d declarations found in the public headers" % len(res))
    _D = res
    return res

_U = None
def units():
    """[(unit, defined symbols, needed symbols)] from the compiled units"""
    global _U
    if _U is not None: return _U
    tmp = tempfile.mkdtemp(prefix="vf_decl_")
    try:
        def one(f):
            o = os.path.join(tmp, f.replace("/", "_") + ".o")
            r = subprocess.run([eva.CLANG, "-c", "-w", "-std=c99", "-Os", "-I" + INC(), f, "-o", o], capture_output=True, text=True)
            if r.returncode:      # the Makefile's own flags come from the environment: retry as the other analyses do
                r = subprocess.run([eva.CLANG, "-c", "-w", "-std=c99", "-D_GNU_SOURCE", "-I" + INC(), f, "-o", o], capture_output=True, text=True)
            if r.returncode: raise eva.Broken("does not compile: %s: %s" % (f, first_error(r.stderr)))
            n = subprocess.run([eva.NM, o], capture_output=True, text=True).stdout
            d, u = set(), set()
            for l in n.splitlines():
                q = l.split()
                if len(q) == 2 and q[0] in "Uw": u.add(q[1])
                elif len(q) == 3 and q[1] in "TDBRCVW": d.add(q[2])
            return os.path.relpath(f, eva.REPO), d, u
        with cf.ThreadPoolExecutor(8) as ex: _U = list(ex.map(one, eva.srcs()))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return _U

def definitions_match():
    d = declared(); v, undecided, n = [], [], 0
    def one(u):
        rel, defs, _ = u
        mine = sorted(x for x in defs if x in d)
        txt = open(os.path.join(eva.REPO, rel), errors="replace").read()
        opt = [o for x, o in NOT_BUILT_IN.items() if x in d and re.search(r"\b%s\b" % x, txt)]
        mine += [x for x in NOT_BUILT_IN if x in d and re.search(r"\b%s\b" % x, txt)]
        if not mine: return 0, [], []
        hs = sorted(set(h for x in mine for h in d[x][3]))
        src = '#include "%s"\n' % os.path.join(eva.REPO, rel) + "".join('#include "%s"\n' % h for h in hs)
        bad = "conflict"
        for std in ("-std=c99", "-std=gnu99"):
            rc, _, err = cc(src, std, "-w", "-fsyntax-only", "-ferror-limit=0", *opt)
            if not rc: return len(mine), [], []
            errs = [" ".join(l.split()) for l in err.splitlines() if "error:" in l]
            conf = [e for e in errs if re.search(r"conflicting types|with a different type|redeclared|follows non-static|non-static declaration|redefinition of '[^']*' as different", e)
                    and re.search(r"'(%s)'" % "|".join(map(re.escape, mine)), e)]
            if conf: return len(mine), ["%s: definition and public declaration differ: %s" % (rel, e) for e in conf], []
        return len(mine), [], ["%s: not comparable: %s" % (rel, errs[0] if errs else err[:100])]
    with cf.ThreadPoolExecutor(8) as ex:
        for a, b, c in ex.map(one, units()): n += a; v += b; undecided += c
    if n < 80: raise eva.Broken("only %d definitions compared" % n)
    return v, {"instances": n, "undecided_units": undecided, "text": "each unit, followed by the public headers that declare what it defines, must type-check: a definition whose type differs from the declaration its callers compile against is rejected"}

def callers_match():
    """what a unit calls or reads must be declared to it as the header says, too"""
    d = declared(); v, n = [], 0; undecided = []
    def one(u):
        rel, defs, needs = u
        uses = sorted(x for x in needs if x in d)
        if not uses: return 0, [], []
        hs = sorted(set(h for x in uses for h in d[x][3]))
        src = '#include "%s"\n' % os.path.join(eva.REPO, rel) + "".join('#include "%s"\n' % h for h in hs)
        for std in ("-std=c99", "-std=gnu99"):
            rc, _, err = cc(src, std, "-w", "-fsyntax-only", "-ferror-limit=0")
            if not rc: return len(uses), [], []
            errs = [" ".join(l.split()) for l in err.splitlines() if "error:" in l]
            conf = [e for e in errs if re.search(r"conflicting types|with a different type|undeclared function", e) and re.search(r"'(%s)'" % "|".join(map(re.escape, uses)), e)]
            if conf: return len(uses), ["%s: uses a function under another type than the public one: %s" % (rel, e) for e in conf], []
        return len(uses), [], ["%s: not comparable: %s" % (rel, errs[0] if errs else err[:100])]
    with cf.ThreadPoolExecutor(8) as ex:
        for a, b, c in ex.map(one, units()): n += a; v += b; undecided += c
    return v, {"instances": n, "undecided_units": undecided, "text": "the same for the library functions each unit calls (a private or implicit declaration that differs is rejected)"}

def no_implicit_declarations():
    """under the Makefile's own flags"""
    def one(f):
        rc, _, err = cc('#include "%s"\n' % f, "-std=c99", "-Wno-everything", "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-Werror=incompatible-function-pointer-types", "-fsyntax-only")
        return [" ".join(l.split()) for l in err.splitlines() if "error:" in l] if rc else []
    v = []
    fs = eva.srcs()
    with cf.ThreadPoolExecutor(8) as ex:
        for e in ex.map(one, fs): v += e
    return v, {"instances": len(fs), "text": "no unit calls a function it has no declaration of, or mixes integers and pointers or unrelated pointer types, under the Makefile's dialect"}

def libc_symbols():
    out = set()
    for l in ("/lib/x86_64-linux-gnu/libc.so.6", "/usr/lib/x86_64-linux-gnu/libc.so.6"):
        if os.path.exists(l):
            t = subprocess.run([eva.NM, "-D", "--defined-only", l], capture_output=True, text=True).stdout
            out = set(x.split()[-1].split("@")[0] for x in t.splitlines() if x.strip()); break
    a = "/usr/lib/x86_64-linux-gnu/libc_nonshared.a"
    if os.path.exists(a):
        t = subprocess.run([eva.NM, "--defined-only", a], capture_output=True, text=True).stdout
        out |= set(x.split()[-1] for x in t.splitlines() if len(x.split()) == 3)
    if len(out) < 1000: raise eva.Broken("cannot list the C library's symbols")
    return out

def defined_once():
    d = declared(); us = units(); where = {}; v = []; libc = libc_symbols()
    for rel, defs, _ in us:
        for s in defs: where.setdefault(s, []).append(rel)
    for s, (h, kind, line, _) in sorted(d.items()):
        w = where.get(s, [])
        if not w and s in NOT_BUILT_IN: continue
        if not w: v.append("include/%s declares %s, which no unit defines" % (h, s))
    for s, w in sorted(where.items()):
        if len(w) > 1: v.append("%s is defined in %s" % (s, " and ".join(w)))
    n = 0
    for rel, defs, needs in us:
        for s in sorted(needs):
            n += 1
            if s not in where and s not in libc and not s.startswith(("_GLOBAL_OFFSET", "__stack_chk", "llvm.")): v.append("%s needs %s, which neither the library nor the C library defines" % (rel, s))
    return v, {"instances": len(d) + len(where) + n, "declared": len(d), "defined": len(where), "references": n,
               "text": "every declared function/object has exactly one defining unit, no external name is defined twice, every reference resolves within library + C library"}

def headers_stand_alone():
    hs = headers(); v = []; jobs = []
    for h in hs:
        for std in ("-std=c99", "-std=gnu99", "-std=gnu11"):
            jobs.append((std, [h, h]))
    plain = [h for h in hs if h != "stdio-repl.h"]
    for a in plain:
        for b in plain:
            if a < b: jobs += [("-std=c99", [a, b]), ("-std=c99", [b, a])]
    for a in plain: jobs.append(("-std=c99", [a, "stdio-repl.h"]))
    jobs += [("-std=c99", plain), ("-std=c99", plain[::-1])]
    def one(j):
        std, l = j
        rc, _, err = cc("".join('#include "%s"\n' % h for h in l) + "int main(void) { return 0; }\n", std, "-w", "-fsyntax-only")
        return rc, l, std, err
    seen = set()
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, l, std, err in ex.map(one, jobs):
            if rc and first_error(err) not in seen:
                seen.add(first_error(err)); v.append("#include of %s (%s) does not compile: %s" % (", ".join(l[:4]), std, first_error(err)))
    return v, {"instances": len(jobs), "headers": len(hs), "text": "each public header compiles on its own, twice, under three dialects, and next to each other public header in either order"}

GOOD = ['ulz_printf("%d%s%c%x%lu%%", 1, "a", 66, 2u, 3ul);', 'ulz_fprintf(1, "%p%s%li", (void*)0, "a", 4l);', 'ulz_snprintf(b, sizeof b, "%u%s%zu", 1u, "x", sizeof b);']
BAD = ['ulz_printf("%s", 1);', 'ulz_printf("%d");', 'ulz_printf("%d", 1ul);', 'ulz_printf("%s%d", "a", "b");', 'ulz_fprintf(1, "%s", 5);', 'ulz_fprintf(1, "%d%d", 5);', 'ulz_fprintf(2, "%s", b[0]);',
       'ulz_snprintf(b, 4, "%s", 5);', 'ulz_snprintf(b, 4, "%d %s", 5);', 'ulz_snprintf(b, 4, "%lu", 5);']
def formats_checked():
    v = []; pre = '#include "format.h"\nchar b[9];\nvoid f(void) { %s }\n'
    for s in GOOD:
        rc, _, err = cc(pre % s, "-std=c99", "-Wformat", "-Werror=format", "-Werror=format-extra-args", "-fsyntax-only")
        if rc: v.append("include/format.h: the compiler rejects the correct call %s: %s" % (s, first_error(err)))
    for s in BAD:
        rc, _, err = cc(pre % s, "-std=c99", "-Wformat", "-Werror=format", "-Werror=format-insufficient-args", "-fsyntax-only")
        if not rc: v.append("include/format.h: the mismatching call %s is not diagnosed" % s)
    return v, {"instances": len(GOOD) + len(BAD), "text": "compile-fail witnesses: calls whose arguments do not fit the format are diagnosed (-Wformat), fitting ones are not"}

CXX = ["format.h", "optparser.h", "sblist.h", "stringptr.h", "stringptrlist.h", "strlib.h"]
def cxx_linkage():
    v, n = [], 0; d = declared()
    for h in CXX:
        if not os.path.exists(os.path.join(INC(), h)): continue
        names = sorted(x for x in d if h in d[x][3] and d[x][1] == "FunctionDecl")
        src = '#include "%s"\n' % h + "".join("void *vf_%d = (void*)&%s;\n" % (i, x) for i, x in enumerate(names))
        rc, out, err = cc(src, "-std=c++17", "-w", "-fpermissive", "-S", "-emit-llvm", "-o", "-", lang="c++")
        if rc: v.append("include/%s has an extern \"C\" block but does not compile as C++: %s" % (h, first_error(err))); continue
        for x in names:
            n += 1
            if not re.search(r"@%s\b" % re.escape(x), out): v.append("include/%s: %s has C++ linkage in C++ programs, so that they do not link" % (h, x))
    if n < 40: raise eva.Broken("only %d functions in the C++-ready headers" % n)
    return v, {"instances": n, "text": "in a C++ unit, every function of the headers with an extern \"C\" block is referenced by its C name"}

REPL = r'''
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include "stdio-repl.h"
int any(void);
void t_printf(int a) { printf("x%d", a); }
void t_printf0(void) { printf("x"); }
void t_fprintf_out(int a) { fprintf(stdout, "x%d", a); }
void t_fprintf_err(int a) { fprintf(stderr, "x%d", a); }
void t_dprintf(int fd, int a) { dprintf(fd, "x%d", a); }
void t_snprintf(char *b, size_t n, int a) { snprintf(b, n, "x%d", a); }
void t_vsnprintf(char *b, size_t n, va_list a) { vsnprintf(b, n, "x%d", a); }
void t_perror(const char *s) { perror(s); }
void t_puts(const char *s) { puts(s); }
void t_ulz_dprintf(int fd, int a) { ulz_dprintf(fd, "x%d", a); }
void t_log_perror(const char *s) { log_perror(s); }
void t_log_putspace(int fd) { log_putspace(fd); }
'''
EXPECT = {"t_printf": ("ulz_printf", {}), "t_printf0": ("ulz_printf", {}), "t_fprintf_out": ("ulz_fprintf", {0: "1"}), "t_fprintf_err": ("ulz_fprintf", {0: "2"}), "t_dprintf": ("ulz_fprintf", {0: "%0"}),
          "t_snprintf": ("ulz_snprintf", {0: "%0", 1: "%1"}), "t_vsnprintf": ("ulz_vsnprintf", {0: "%0", 1: "%1"}), "t_perror": ("log_puterror", {0: "2", 1: "%0"}), "t_puts": (("log_putc", "log_put"), {0: "1"}),
          "t_ulz_dprintf": ("ulz_fprintf", {0: "%0"}), "t_log_perror": ("log_puterror", {0: "2", 1: "%0"}), "t_log_putspace": ("log_puts", {0: "%0"})}
def replacement_macros():
    import ir
    rc, out, err = cc(REPL, "-std=c99", "-w", "-O1", "-fno-inline", "-fdiscard-value-names", "-S", "-emit-llvm", "-o", "-")
    if rc: return ["include/stdio-repl.h: the replaced calls do not compile: " + first_error(err)], {"instances": 1, "text": "witness unit"}
    v, n = [], 0
    lits = dict(re.findall(r'^(@[\w.]+) = private unnamed_addr constant \[\d+ x i8\] c("[^\n]*?"), align', out, re.M))
    for f, (want, args) in EXPECT.items():
        m = re.search(r"define [^\n]*@%s\(.*?\n}" % f, out, re.S); n += 1
        calls = re.findall(r"call [^\n]*?@([\w.]+)\(([^\n]*)\)", m.group(0)) if m else []
        calls = [c for c in calls if not c[0].startswith("llvm.")]
        hit = [c for c in calls if c[0] in (want if isinstance(want, tuple) else (want,))]
        other = [c[0] for c in calls if not c[0].startswith(("log_", "ulz_"))]
        if not hit or other: v.append("include/stdio-repl.h, logger.h, format.h: %s calls %s instead of %s" % (f[2:], ", ".join(c[0] for c in calls) or "nothing", want)); continue
        av = [a.split()[-1] for a in ir.split_args(hit[0][1])]
        for k, a in enumerate(av):      # literals of different text never share an address
            q = re.search(r"%s = select i1 icmp (eq|ne) \(ptr (@[\w.]+), ptr (@[\w.]+)\), i32 (-?\d+), i32 (-?\d+)" % re.escape(a), m.group(0))
            if q and lits.get(q.group(2), 0) != lits.get(q.group(3), 0): av[k] = q.group(5 if q.group(1) == "eq" else 4)
        if f == "t_puts" and hit[0][0] == "log_putc" and not any(c[0] == "log_putln" and c[1].split()[-1] == "1" for c in calls[1:]):
            v.append("include/stdio-repl.h: puts writes no newline behind the text")
        for i, w in args.items():
            if i >= len(av) or av[i] != w: v.append("include/stdio-repl.h, logger.h, format.h: %s passes %s as argument %d of %s, not %s" % (f[2:], av[i] if i < len(av) else "nothing", i, hit[0][0], w))
    return v, {"instances": n, "text": "IR of a witness unit: each replaced stdio name calls the ulz_/log_ function, with descriptor 1 for stdout, 2 for stderr"}

def _deps(path, text=None):
    """units named by the RcB2 DEP pragmas a preprocessed source sees; (unit paths, patterns that match nothing)"""
    import glob
    r = subprocess.run([eva.CLANG, "-E", "-std=c99", "-w", "-I" + INC()] + ([path] if text is None else ["-x", "c", "-"]), input=text, capture_output=True, text=True)
    if r.returncode: raise eva.Broken("does not preprocess: %s: %s" % (path, first_error(r.stderr)))
    cur, out, none = None, set(), set()
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m: cur = m.group(1); continue
        m = re.match(r"\s*#\s*pragma\s+RcB2?\s+DEP\s+(.*)", l)
        if not m: continue
        for g in re.findall(r'"([^"]*)"', m.group(1)):
            hit = glob.glob(os.path.join(os.path.dirname(cur), g))
            if not hit: none.add("%s: %s" % (os.path.basename(cur), g))
            out |= {os.path.realpath(h) for h in hit}
    return out, none
TEMPLATE_HEADERS = {"crc32_impl.h"}      # the implementation half of crc32.h and crc32c.h, which carry the pragmas
def dependencies_closed():
    """a program built from a public header's units and the units those name links"""
    us = {os.path.realpath(os.path.join(eva.REPO, r)): (d, n) for r, d, n in units()}
    lib = {}
    for f, (d, _) in us.items():
        for s in d: lib.setdefault(s, []).append(os.path.relpath(f, os.path.realpath(eva.REPO)))
    with cf.ThreadPoolExecutor(8) as ex: dep = dict(zip(us, ex.map(_deps, us)))
    v, n, nh = set(), 0, 0
    for h in headers():
        roots, none = _deps(h, '#include "%s"\n' % h)
        cl, work = set(), list(roots); nh += 1
        while work:
            f = work.pop()
            if f in cl: continue
            cl.add(f)
            if f in dep: work += dep[f][0]; none |= dep[f][1]
            else: v.add("include/%s: names %s, which is not a unit of the library" % (h, os.path.relpath(f, os.path.realpath(eva.REPO))))
        for x in none: v.add("include/%s: the dependency pattern matches no file" % x)
        have = {}
        for f in cl & set(us):
            for s in us[f][0]: have.setdefault(s, []).append(f)
        for s, fs in have.items():
            if len(fs) > 1: v.add("include/%s: its dependencies define %s %d times" % (h, s, len(fs)))
        for f in sorted(cl & set(us)):
            for s in sorted(us[f][1]):
                n += 1
                if s in lib and s not in have: v.add("include/%s: its dependency %s needs %s of %s, which nothing names" % (h, os.path.relpath(f, os.path.realpath(eva.REPO)), s, ", ".join(lib[s])))
        if h in TEMPLATE_HEADERS: continue
        for s, (_, _, _, hs) in declared().items():
            if h in hs and s not in NOT_BUILT_IN:
                n += 1
                if s not in have: v.add("include/%s: declares %s, but its dependencies do not define it (%s does)" % (h, s, ", ".join(lib.get(s, ["no unit"]))))
    if n < 1000 or nh < 20: raise eva.Broken("only %d references in %d headers followed" % (n, nh))
    return sorted(v), {"instances": n, "headers": nh, "text": "transitive closure of the RcB2 DEP pragmas from every public header: each declared function and each reference of a unit in the closure to a library symbol is defined in it exactly once"}

"""Effect, provenance and call-graph rules (C20, C21, C22)."""
import ir, eva
_R = {}
def rule(prop):
    def d(f): _R.setdefault(prop, []).append((f.__name__, f)); return f
    return d
def for_property(prop): return _R.get(prop, [])

# library functions that keep (or change) state shared by the whole process
HIDDEN = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "initstate", "setstate", "localtime", "gmtime", "ctime", "asctime", "strerror",
          "strsignal", "setlocale", "localeconv", "setenv", "putenv", "unsetenv", "clearenv", "tmpnam", "tempnam", "mktemp", "readdir", "gethostbyname", "getservbyname", "inet_ntoa",
          "getopt", "getopt_long", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "getlogin", "ttyname", "ptsname", "umask", "chdir", "fchdir", "alarm", "ualarm", "setitimer", "signal", "sigaction",
          "atexit", "l64a", "ecvt", "fcvt", "hcreate", "hsearch", "crypt", "dirname", "wcstombs", "mblen", "mbtowc", "wctomb", "lgamma", "qsort_r_global", "fgets", "gets", "getchar", "getline",
          "getdelim", "fread", "scanf", "fscanf", "printf", "puts", "putchar", "perror", "fprintf", "fputs", "fputc", "putc", "fwrite", "fflush", "setvbuf", "setbuf", "ungetc", "fgetc", "getc", "tzset", "nice", "setrlimit", "sethostname", "setgid", "setuid", "exit", "_exit"}
ALLOWED_CALLS = {"ulz_mkdtemp": {"rand"}, "mktempdir": {"rand"}, "read_stdin_line": {"fgets", "getline", "getdelim", "getchar", "fgetc", "getc", "fread"},
                 "log_puterror": {"strerror"}, "daemonize": {"exit", "_exit", "umask", "chdir"}}
STREAMS = {"stdin": {"read_stdin_line"}}
def is_table_init(name): return name.endswith("InitTables")

@rule("C20")
def no_static_storage_written():
    p = ir.program(); v = []; n = 0
    for f in p.fns.values():
        if not f.exported: continue
        n += 1
        for node, where in sorted(f.writes.items(), key=str):
            if node[0] != "G": continue
            g = node[1]
            if p.globals.get(g) == "external": continue    # stdin and the like: judged by the call rule
            if is_table_init(f.name) and "crc32" in f.unit and "crc32" in where: continue
            v.append("%s: %s writes static storage '%s'" % (where, f.name, g.split(":")[-1]))
    return v, {"instances": n, "functions": len(p.fns), "units": p.units, "stores": p.nstores, "writable_globals": sorted(p.globals),
               "text": "no exported function may write an object of static storage duration, directly or through any callee (points-to closure); the CRC tables only from *InitTables"}

@rule("C20")
def no_hidden_state_calls():
    p = ir.program(); v = []; n = 0
    for k, f in p.fns.items():
        if not f.exported: continue
        for c, path in p.reach(k).items():
            n += 1
            if c in HIDDEN and c not in p.fns and c not in ALLOWED_CALLS.get(f.name, ()):
                v.append("%s: %s reaches %s, which keeps process-wide state: %s" % (f.unit, f.name, c, " -> ".join(path)))
    return v, {"instances": n, "text": "call-graph closure of every exported function contains no library call with hidden shared state, except the documented ones"}

@rule("C20")
def addresses_of_statics_not_handed_out():
    p = ir.program(); v = []; n = 0
    for k, f in p.fns.items():
        if not f.exported: continue
        n += 1
        for node in f.ret:
            if node[0] == "G" and p.globals.get(node[1]) != "external":
                v.append("%s: %s returns the address of the writable static '%s'" % (f.unit, f.name, node[1].split(":")[-1]))
    return v, {"instances": n, "text": "no exported function returns a pointer to writable static storage"}

# read-only arguments: name -> parameter numbers; d0: only the object itself, not what it points to
RO = {
 "stringptr_hash": [0], "stringptr_here": [0, 2], "stringptr_contains": [0, 1], "stringptr_copy": [0], "stringptr_eq": [0, 1], "stringptr_strdup": [0], "stringptr_rchr": [0],
 "stringptr_format": [0], "stringptr_fromfile": [0], "stringptr_tofile": [0, 1], "stringptr_fromchar": [0], "stringptr_concat": [0, "VA"],
 "stringptrlist_add_strdup": [1], "stringptr_splits": [1], "stringptr_replace": [1, 2], "stringptrlist_find": [0, 1], "stringptrlist_contains": [0, 1],
 "stringptrlist_tostring": [0], "stringptrlist_tostring_dos": [0], "stringptrlist_tofile": [0, 1], "stringptrlist_fromfile": [1],
 "getFileExt": [0], "getFileModTime": [0], "getfilesize": [0], "mktempdir": [0], "getfilename": [0], "normalizepath_cstr": [0], "filelist_search": [1, 2],
 "fileparser_open": [1], "ulz_vsnprintf": [2], "ulz_snprintf": [2], "ulz_printf": [0], "ulz_fprintf": [1],
 "hashlist_add": ["d0:2"], "hashlist_get": [0], "hashlist_bucket_next": [0], "hashlist_next": [0],
 "iniparser_file_as_section": [0], "iniparser_get_section": [0, 1], "iniparser_get_next_section": [0, 1, 2], "iniparser_getvalue": [0, 1, 2], "iniparser_getvalue_at": [0, 1, 2],
 "iniparser_count_sections": [0], "kv_find": [0, 1], "log_puts": [1], "log_put": ["VA"], "log_putc": [1], "log_puterror": [1],
 "md5_update": [1], "md5_end": [0], "md5str": [1], "sha512_update": [1], "CRC32_Update": [1], "CRC32C_Update": [1],
 "op_init": [2], "op_get": [0, 1], "op_hasflag": [0, 1], "op_printall": [0], "process_open": [1],
 "sblist_add": ["d0:1"], "sblist_addi": ["d0:1"], "sblist_set": ["d0:1"], "sblist_insert": ["d0:1"], "sblist_get": [0], "sblist_item_from_index": [0], "sblist_bsearch": [0, 1], "sblist_bsearch_r": [0, 1, 3],
 "sblist_insert_sorted": ["d0:1"], "sblist_insert_sorted_r": ["d0:1", "d0:3"],
 "containsChar": [0], "hexval": [0], "raw2hex": [1], "hex2raw": [0], "isAlpha": [0], "isNumber": [0], "isLetter": [0], "isUpper": [0], "isLower": [0], "strtoint": [0], "strtoint64": [0],
 "strdup_n": [0], "strstr_uc": [0, 1], "strstar": [0, 1], "strends": [0, 1], "findword": [0, 1], "ipv4fromstring": [0], "stringfromipv4": [0], "isnumericipv4": [0],
 "base64enc": [1], "base64dec": [1], "base64enc_str": [1], "rc4": [1, 3], "mspassed": [0], "timespec_diff": [0, 1],
 "tlist_getsize": [0], "tlist_get": [0], "tlist_insert": ["d0:2"], "tlist_append": ["d0:1"], "tlist_getbalance": [0],
 "probe_tglist_add": ["d0:1"], "probe_tglist_insert": ["d0:1"], "probe_tgilist_insert": ["d0:1"],
 "probe_bmap_find": ["d0:1"], "probe_bmap_insert": ["d0:2"], "probe_hbmap_insert": ["d0:2"], "probe_hbmap_find": ["d0:1"],
}
@rule("C21")
def read_only_arguments():
    p = ir.program(); v = []; n = 0; absent = []
    for name, args in sorted(RO.items()):
        fs = [f for f in p.fns.values() if f.name == name and f.exported]
        if not fs: absent.append(name); continue
        for f in fs:
            for a in args:
                n += 1
                if a == "VA": bad = [("VA", 1)]
                elif isinstance(a, str): bad = [("P", int(a[3:]), 0)]
                else: bad = [("P", a, 0), ("P", a, 1)]
                for b in bad:
                    if b in f.writes:
                        v.append("%s: writes through read-only argument %s of %s%s" % (f.writes[b], a if a == "VA" else "%d" % b[1], name, " (what it points to)" if b[-1] and a != "VA" else ""))
    if len(absent) > 12: raise eva.Broken("functions not found: " + " ".join(absent))
    return v, {"instances": n, "functions": len(p.fns), "units": p.units, "stores": p.nstores, "calls": p.ncalls, "library_calls_assumed_read_only": sorted(p.unknown),
               "absent": absent, "text": "no store, copy, free or library call in the function or any callee has a destination whose points-to set contains the argument's object"}

STDIO_HEAP = {"malloc", "calloc", "realloc", "free", "strdup", "strndup", "asprintf", "vasprintf", "reallocarray", "aligned_alloc", "posix_memalign", "mmap", "sbrk", "brk",
         "printf", "fprintf", "vprintf", "vfprintf", "dprintf", "vdprintf", "sprintf", "snprintf", "vsprintf", "vsnprintf", "puts", "fputs", "fputc", "putc", "putchar", "fwrite", "fflush", "perror",
         "fopen", "fdopen", "fclose", "open_memstream", "fmemopen", "setvbuf", "fileno", "putchar_unlocked", "fputs_unlocked", "fwrite_unlocked", "fputc_unlocked", "getline", "fgets", "psignal", "syslog", "err", "warn", "stpncpy_alloc"}
@rule("C22")
def no_stdio_no_heap():
    p = ir.program(); v = []; n = 0; roots = []
    for k, f in p.fns.items():
        if not f.exported or not (f.unit.startswith(("src/format/", "src/logger/")) or f.name in ("op_printall", "timestamp")): continue
        roots.append(f.name)
        for c, path in p.reach(k).items():
            n += 1
            if c in STDIO_HEAP and c not in p.fns:
                v.append("%s: %s reaches %s: %s" % (f.unit, f.name, c, " -> ".join(path)))
        for kk in p.reach(k):
            if kk in p.fns and any(c is None for c, _ in p.fns[kk].calls):
                v.append("%s: %s reaches a call through a pointer in %s, which nothing bounds" % (f.unit, f.name, kk))
    if len(roots) < 10: raise eva.Broken("only %d formatting/logging functions found" % len(roots))
    return v, {"instances": n, "roots": sorted(roots), "text": "call-graph closure of every formatting and logging function contains no stdio or allocator function and no unresolved call"}

import decls
for _p, _f in (("C36", decls.definitions_match), ("C36", decls.callers_match), ("C36", decls.no_implicit_declarations), ("C36", decls.defined_once), ("C36", decls.headers_stand_alone), ("C36", decls.formats_checked), ("C36", decls.cxx_linkage), ("C37", decls.dependencies_closed),
               ("C22", decls.replacement_macros)): rule(_p)(_f)

#!/usr/bin/env python3
"""Self-test: run checks against edited scratch copies of /repo.
usage: mutate.py mutants.txt [name-substring ...]   (files under tools/)
Format of an edit file: records
  === name PROP[,PROP..] [expect]        expect: bug (default) | same
  file: path
  <<<<
  old text
  ====
  new text
  >>>>
(several file: blocks per record are possible)"""
import sys, os, re, shutil, subprocess, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(p):
    recs, cur, f, mode = [], None, None, None
    for l in open(p):
        if mode is None:
            if l.startswith("=== "):
                w = l.split(); cur = {"name": w[1], "props": w[2].split(","), "expect": w[3] if len(w) > 3 else "bug", "edits": []}; recs.append(cur)
            elif l.startswith("file: "): f = l[6:].strip()
            elif l.startswith("<<<<"): mode = "old"; old, new = "", ""
        elif mode == "old":
            if l.startswith("===="): mode = "new"
            else: old += l
        elif mode == "new":
            if l.startswith(">>>>"): mode = None; cur["edits"].append((f, old, new))
            else: new += l
    return recs
def prep(r, d):
    subprocess.run("git -C /repo archive HEAD src include | tar x -C " + d, shell=True, check=True)
    for f, old, new in r["edits"]:
        p = os.path.join(d, f); s = open(p).read() if os.path.exists(p) else ""
        if old.strip() == "":
            s += new
        else:
            o, n = old, new
            if s.count(o) != 1: o, n = old.rstrip("\n"), new.rstrip("\n")
            if s.count(o) != 1: return "edit of %s matches %d times" % (f, s.count(o))
            s = s.replace(o, n)
        open(p, "w").write(s)
def run(cmd, env):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)
    out = p.stdout.readlines() if False else []
    import threading
    err = []
    t = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True); t.start()
    for l in p.stdout:
        out.append(l)
        if l.startswith("VIOLATION"): break
    try: p.wait(20)
    except subprocess.TimeoutExpired: pass
    try: os.killpg(p.pid, 9)
    except ProcessLookupError: pass
    p.wait(); t.join(5)
    class Q: pass
    q = Q(); q.returncode = 1 if any(l.startswith("VIOLATION") for l in out) else p.returncode
    q.stdout = "".join(out); q.stderr = (err or [""])[0]
    return q
def one(r):
    d = tempfile.mkdtemp(prefix="mut_")
    out = []
    try:
        e = prep(r, d)
        if e: return [(r["name"], "-", "BADEDIT " + e)]
        for p in r["props"]:
            q = run([sys.executable, V + "/run.py", p],
                               env=dict(os.environ, VERIF_REPO=d, TMPDIR=d, VERIF_FIRST="1", VERIF_EVIDENCE=d, VERIF_ONLYFILES=",".join(f for f,_,_ in r["edits"]) if not os.environ.get("FULL") else "", VERIF_JOBS=os.environ.get("VERIF_JOBS", "2")))
            st = {0: "quiet", 1: "VIOLATION"}.get(q.returncode, "BROKEN %d" % q.returncode)
            und = q.stdout.count("UNDECIDED")
            first = (q.stdout.strip().splitlines() or [q.stderr[-300:]])[0]
            good = (r["expect"] == "bug") == (q.returncode == 1) and q.returncode < 2 and not (r["expect"] == "same" and und)
            out.append((r["name"], p, ("ok   " if good else "FAIL ") + st + (" undecided=%d" % und if und else ""), first[:260] if not good or os.environ.get("V") else ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out
def main():
    recs = load(sys.argv[1])
    if len(sys.argv) > 2: recs = [r for r in recs if any(a in r["name"] or a in r["props"] for a in sys.argv[2:])]
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_PAR", "4"))) as ex:
        for o in ex.map(one, recs):
            for x in o: print(*x, flush=True)
main()

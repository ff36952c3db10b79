#!/usr/bin/env python3
"""run.py <PROPERTY-ID>: decide one property of /repo's working tree by static analysis."""
import sys, os, json, time, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import eva
try: import rules
except ImportError: rules = None

EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(eva.VERIF, "evidence"))

def known():
    p = os.path.join(eva.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                parts = [x.strip() for x in l[len("finding:"):].split("|")]
                d = dict(x.split("=", 1) for x in parts if "=" in x)
                out.append(d)
    return out

def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if tier == "quick": eva.DEADLINE[0] = t0 + float(os.environ.get("VERIF_BUDGET", "780"))
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    viol, broken, undecided, ev_entries = [], [], [], []
    rule_ev = []
    try:
        ents = eva.entries(prop)
        if tier == "quick": ents = [e for e in ents if e[2].get("tier") != "thorough"]
        if only: ents = [e for e in ents if only in e[1]]
        if ents:
            st = eva.SymTab(tmp)
            ch = os.environ.get("VERIF_ONLYFILES")     # self-test only: entries that interpret these files
            if ch: ents = [x for x in ents if eva.touches(st, x[0], x[1], ch.split(","), tmp)]
            with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
                futs = [ex.submit(eva.decide, st, h, e, o, tier, tmp) for h, e, o in ents]
                fmap = dict(zip(futs, ents))
                for f in (cf.as_completed(futs) if os.environ.get("VERIF_FIRST") else futs):
                    h, e, o = fmap[f]
                    s, r, probs = f.result()
                    if s == "broken": undecided += ["%s: %s" % (e, p) for p in probs]
                    if s == "violation" and os.environ.get("VERIF_FIRST"):   # self-test only: stop at the first one
                        print("%s: %s\nVIOLATION property=%s replay=-" % (e, probs[0], prop), flush=True); os._exit(1)
                    if s == "violation": viol += [{"where": e, "what": p} for p in probs]
                    if s != "broken":
                        ev_entries.append({"entry": e, "functions": r.functions, "statements": r.statements,
                            "obligations_valid": r.asserts[0] + r.precond[0],
                            "obligations_open": len(probs), "abstract_cases": len(r.begin),
                            "domains": "cfg%d" % eva.LADDER.index(r.cfg) if r.cfg in eva.LADDER else "coarse", "wall_s": round(r.wall, 1),
                            "repo_units": [os.path.relpath(x, eva.REPO) for x in r.files]})
                    if os.environ.get("VERIF_VERBOSE"):
                        print(e, s, getattr(r, "tried", ""), "%.1fs" % getattr(r, "wall", 0), file=sys.stderr)
                        for p in probs[:int(os.environ.get("VERIF_MAXP", "6"))]: print("   ", p[:600], file=sys.stderr)
        if rules and not only or (rules and only and not ents):
            for name, fn in rules.for_property(prop):
                try:
                    v, info = fn()
                    viol += [{"where": name, "what": x} for x in v]
                    rule_ev.append(dict(rule=name, **info))
                except eva.Broken as x:
                    broken.append("%s: %s" % (name, x))
    except eva.Broken as x:
        broken.append(str(x))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not ev_entries and not rule_ev and not broken and not viol:
        broken += undecided or ["nothing to analyse for " + prop]
    # known findings
    kf = [k for k in known() if k.get("property") == prop]
    fresh, hits = [], []
    for v in viol:
        m = [k for k in kf if k.get("where") == v["where"] and k.get("match", "\0") in v["what"]]
        (hits if m else fresh).append((v, m))
    for v, m in hits:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["where"], m[0].get("what", v["what"])))
    os.makedirs(EVD, exist_ok=True)
    obl = sum(e["obligations_valid"] + e["obligations_open"] for e in ev_entries) + sum(r.get("instances", 0) for r in rule_ev)
    rule_bad = sum(1 for v in viol if any(v["where"] == r["rule"] for r in rule_ev))
    dis = sum(e["obligations_valid"] for e in ev_entries) + sum(r.get("instances", 0) for r in rule_ev) - rule_bad
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh),
          "coverage": {"explanation": "Static analysis of /repo's current source. EVA entries: abstract interpretation of the "
              "listed repo units from the listed entry points; an obligation is a memory access, library precondition or check "
              "clause that had to be proved for all abstract values. Rules: data-flow/effect rules over the LLVM IR of every unit.",
              "obligations": obl, "discharged": dis,
              "abstract_cases": sum(e["abstract_cases"] for e in ev_entries),
              "functions_interpreted": sum(e["functions"] for e in ev_entries),
              "statements_reached": sum(e["statements"] for e in ev_entries),
              "entries": ev_entries, "rules": rule_ev,
              "undecided": undecided, "errors": broken},
          "assumptions": ["see DESIGN.md section Assumptions"]}
    json.dump(ev, open(os.path.join(EVD, prop + ".json"), "w"), indent=1)
    rp = os.path.join(EVD, prop + ".replay.txt")
    if fresh:
        with open(rp, "w") as f:
            f.write("property %s: static analysis of %s reports\n\n" % (prop, eva.REPO))
            for v, _ in fresh: f.write("%s\n    %s\n" % (v["where"], v["what"]))
            f.write("\nre-run: cd /verif && VERIF_VERBOSE=1 python3 run.py %s\n" % prop)
        if not os.environ.get("VERIF_VERBOSE"):
            for v, _ in fresh[:20]: print("%s: %s" % (v["where"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if os.path.exists(rp): os.unlink(rp)
    if broken:
        for b in broken: print("ANALYSIS-BROKEN %s: %s" % (prop, b))
        sys.exit(2)
    for u in undecided: print("UNDECIDED %s: %s (not part of what was explored)" % (prop, u))
    print("OK property=%s obligations=%d discharged=%d entries=%d rules=%d %.1fs" % (prop, obl, dis, len(ev_entries), len(rule_ev), time.time() - t0))

if __name__ == "__main__":
    main()

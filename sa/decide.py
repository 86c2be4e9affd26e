"""Decision of one property: runs the comparison on the functions it rests on, writes evidence, reports."""
import json
import os
import time

from .compare import DEF, Diff
from .engine import Engine
from .props import CONSTS, FUNCS
from .terms import T, show

BUDGET = {"quick": 420, "thorough": 780}


def known_findings(here, pid):
    out = []
    try:
        with open(os.path.join(here, "known-findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding: property=" + pid + " "):
                    out.append(l[len("finding: property=" + pid + " "):].split(" :: "))
    except FileNotFoundError:
        pass
    return out


def facts_text(d, n=6):
    out = []
    for a, v in list(d.facts[0].items())[:n]:
        out.append(("" if v else "not ") + show(a, 5))
    return out


def run(pid, tier, root, here):
    t0 = time.time()
    E = Engine(root, fast=tier == "quick", deadline=t0 + BUDGET.get(tier, 420))
    funcs = FUNCS[pid]
    missing = [f for f in funcs if f not in E.ws.funcs]
    if missing or not E.wa.funcs:
        print("ANALYSIS-BROKEN: not found:", missing)
        return 2
    rs = E.run(funcs)
    viol, und = [], []
    for f in funcs:
        r = rs[f]
        ds = [d for d in r.diffs if d.level == DEF and concerns(pid, f, d)]
        if r.status == "differs":
            for d in ds:
                viol.append((f, r, d))
        elif r.status in ("undecided", "gone"):
            und.append({"function": f, "reason": r.note[:300]})
    cd, nconst = E.constants(CONSTS.get(pid, ()))
    for c, ds in cd.items():
        for d in ds:
            if d.level == DEF:
                viol.append((c, None, d))
    # report
    known = known_findings(here, pid)
    fresh = []
    lines = []
    for f, r, d in viol:
        k = [x for x in known if x[0] == f and all(y in d.text() for y in x[1:-1])]
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0][-1]))
        else:
            fresh.append((f, r, d))
    same = [f for f in funcs if rs[f].status in ("same", "compensated")]
    edir = os.path.join(here, "evidence")
    os.makedirs(edir, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Source of %s/oups is parsed; each function the property rests on is abstractly interpreted over all its paths into a "
                           "guarded summary (conditions, result, exceptions, ordered effects) in a normal form modulo naming, factoring, "
                           "statement order and algebraic identities; each summary is compared path pair by path pair with that of the reviewed "
                           "reference; changed functions are also compared edit by edit (differing statements under the context both sides share). "
                           "A definite difference in a construct both sides use is reported; nothing is executed." % root,
            "obligations": len(funcs) + nconst, "discharged": len(same) + nconst - len(cd),
            "functions": {f: {"status": rs[f].status, "file": os.path.relpath(rs[f].file, root) if rs[f].file else "", "line": rs[f].line,
                              "paths": rs[f].npaths_a, "effects": rs[f].nev, "leaves_compared": rs[f].leaves, "note": rs[f].note[:200]}
                          for f in funcs},
            "paths_analysed": sum(rs[f].npaths_a for f in funcs), "effects_analysed": sum(rs[f].nev for f in funcs),
            "module_values": nconst, "undecided": und,
            "changed_functions": sorted(E.changed), "new_functions": sorted(E.new_funcs())[:50],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"construct": f, "what": d.what, "file": os.path.relpath(r.file, root) if r else "", "line": r.line if r else 0, "difference": d.text()[:2000]}
                       for f, r, d in fresh],
    }
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("property=%s tier=%s functions=%d paths=%d same=%d undecided=%d wall=%.1fs" % (
        pid, tier, len(funcs), ev["coverage"]["paths_analysed"], len(same), len(und), time.time() - t0))
    if not fresh:
        return 0
    rp = os.path.join(edir, pid + "-report.txt")
    with open(rp, "w") as f:
        for q, r, d in fresh:
            f.write("%s (%s:%s): %s\n" % (q, r.file if r else "", r.line if r else "", d.what))
            for a, s, w in d.loci:
                f.write("   %s\n      analysed : %s\n      reference: %s\n" % (w, show(a, 12) if isinstance(a, T) else a, show(s, 12) if isinstance(s, T) else s))
            f.write("   on the path where\n")
            for x in facts_text(d, 20):
                f.write("      %s\n" % x)
    for q, r, d in fresh[:8]:
        print("  %s:%s %s: %s" % (r.file if r else "", r.line if r else "", q, d.text()[:400]))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def concerns(pid, f, d):
    return True

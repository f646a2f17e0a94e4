"""Common driver: runs the rule of one property, writes its evidence and verdict."""
import json, os, sys, time, traceback
from facts import VERIF, AnalysisError
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.json")

class Result:
    def __init__(s, prop, rule, minimum, level="other"):
        s.prop, s.rule, s.minimum, s.level = prop, rule, minimum, level
        s.obl = []; s.assumptions = []; s.scope = {}; s.errors = []
    def ob(s, key, where, ok, detail=""):
        """one obligation: a stable key, the construct it is about, verdict"""
        s.obl.append({"key": key, "where": where, "ok": bool(ok), "detail": detail if not ok else ""})
        return ok
    def err(s, msg):
        """a construct the rule could not decide: no verdict unless something else is violated"""
        s.errors.append(msg)
    def assume(s, *t): s.assumptions += t
    def count(s, name, n=1): s.scope[name] = s.scope.get(name, 0) + n

def known(prop):
    if not os.path.exists(KNOWN): return {}
    return {e["key"]: e for e in json.load(open(KNOWN))["findings"] if e["property"] == prop}

def main(prop, fn, tier):
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        res = fn(tier, seed)
        n = len(res.obl)
        if n + len(res.errors) < res.minimum: raise AnalysisError("only %d obligations found, at least %d expected: the analysed constructs vanished" % (n, res.minimum))
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); print("ANALYSIS-ERROR property=%s internal error" % prop); return 2
    kn = known(prop)
    bad = [o for o in res.obl if not o["ok"]]
    new = []; seen = set()
    for o in bad:
        if o["key"] in kn:
            if o["key"] not in seen:
                seen.add(o["key"]); print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[o["key"]]["what"], o["where"]))
        else: new.append(o)
    replay = os.path.join(ev, prop + ".violations.json")
    if os.path.exists(replay): os.remove(replay)
    for o in new[:20]:
        print("  violated: %s\n     at %s\n     %s" % (o["key"], o["where"], o["detail"]))
    if new:
        json.dump({"property": prop, "rule": res.rule, "violations": new}, open(replay, "w"), indent=1)
    okc = sum(o["ok"] for o in res.obl)
    print("property=%s rule: %s" % (prop, res.rule))
    print("  analysed: %s" % ", ".join("%s=%s" % kv for kv in sorted(res.scope.items())))
    print("  obligations=%d discharged=%d known=%d violated=%d wall=%.1fs" % (n, okc, len(bad) - len(new), len(new), time.time() - t0))
    cov = {"obligations": n, "discharged": okc, "known_findings": sorted(seen), "analysed": res.scope,
           "rule": res.rule, "explanation": res.rule, "violation_list": [{"key": o["key"], "where": o["where"], "detail": o["detail"]} for o in new], "obligation_list": [{"key": o["key"], "where": o["where"], "ok": o["ok"]} for o in res.obl][:400]}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": res.level, "coverage": cov,
               "wall_s": round(time.time() - t0, 2), "violations": len(new),
               "assumptions": res.assumptions}, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, replay)); return 1
    if res.errors:
        for e in res.errors[:10]: print("  undecided: " + e)
        print("ANALYSIS-ERROR property=%s %s" % (prop, res.errors[0])); return 2
    print("HELD property=%s" % prop); return 0

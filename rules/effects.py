"""Independence of material evaluations: effect analysis (who writes what) and interpretation of evaluation histories."""
import re
import facts, flow
from facts import AnalysisError, where, walk
from flow import I, show
from report import Result
RULES = {}
TUS = ["gsMaterialMatrix%s_" % x for x in ("BaseDim", "Base", "Linear", "Nonlinear2dComp", "Nonlinear2dIncomp", "Nonlinear3dComp", "Nonlinear3dIncomp", "Composite", "TFT", "Container", "Eval", "Integrate")]
WR = ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "++", "--", "p++", "p--")
THREAD = ("mine",)
MUTATOR = re.compile(r"(set|add|remove|insert|emplace|push|pop|clear|erase|swap|reset|resize|conservative|assign|update|copy|load|store|exchange|fetch|noalias|fill|give|compute|transposeInPlace|adjointInPlace|normalize$)")
CLASSES = re.compile(r"gsMaterialMatrix(Base|BaseDim|Linear|Nonlinear|Composite|TFT|EvalSingle\w*|IntegrateSingle\w*|Eval|Integrate)$")
ROOT = re.compile(r"eval3D_\w+$|\w+_into$|_?eval\w*$")

class Scan:
    """writes of one function body to memory that other evaluations can see"""
    def __init__(s, tu, fn):
        s.tu = tu; s.fn = fn; s.loc = {}; s.hits = []; s.nwr = 0; s.calls = []
        s.par = {p["i"]: p["t"] for p in fn["p"]}
        if fn.get("body"):
            for x in walk(fn["body"]):
                if x.get("k") == "decl":
                    for v in x["v"]: s.decl(v)
            for x in walk(fn["body"]): s.node(x)
    def decl(s, v):
        t = v["t"].rstrip()
        if v.get("st"):
            if not t.startswith("const ") and "const" not in t.split("*")[-1]: s.hits.append((v["l"], "static variable %s" % v["n"])); s.loc[v["i"]] = "static"
            return
        if ("init" in v) and (t.endswith("&") or t.endswith("*") or re.search(r"gsAs(Matrix|Vector)|Eigen::(Map|Block|Ref)|Block<|Map<", t)):
            s.loc[v["i"]] = s.root(v["init"])
        else: s.loc[v["i"]] = None
    def root(s, x):
        """None: private to this evaluation, otherwise a description of the shared object"""
        n = 0
        while isinstance(x, dict) and n < 60:
            n += 1; k = x.get("k")
            if k == "v":
                if "g" in x: return "global " + str(x["g"])
                if x["i"] in s.loc: return s.loc[x["i"]]
                return None                                # a parameter: the caller decides
            if k == "this": return "the object itself"
            if k == "m":
                if "g" in x: return "static member " + str(x["n"])
                if x["b"].get("k") == "this": return "member " + x["n"]
                x = x["b"]; continue
            if k == "o" and x["a"]: x = x["a"][0]; continue
            if k == "cast": x = x["a"][0]; continue
            if k == "c":
                if x["n"] in THREAD: return None
                g = s.tu.byid.get(x.get("f"))
                if g is not None and not g.get("rt", "&").rstrip().endswith(("&", "*")): return None   # a new value
                if "o" in x: x = x["o"]; continue
                if x["n"] in ("give", "move", "forward", "ref", "as_const", "const_cast") and x["a"]: x = x["a"][0]; continue
                return None
            if k == "ctor" and len(x["a"]) == 1: x = x["a"][0]; continue
            return None
        return None
    def node(s, x):
        k = x.get("k")
        if k == "o" and x["o"] in WR:
            s.nwr += 1; r = s.root(x["a"][0])
            if r: s.hits.append((x.get("l"), "assigns " + r))
        elif k == "o" and x["o"] == "<<" and "ov" in x:
            r = s.root(x["a"][0])
            if r and not r.startswith("global"): s.hits.append((x.get("l"), "fills " + r))
        elif k == "delete":
            r = s.root(x["a"][0])
            if r: s.hits.append((x.get("l"), "deletes " + r))
        elif k == "c":
            s.calls.append(x)
            if "o" in x and not x.get("cst") and x["n"] not in THREAD and not x["n"].startswith("operator"):
                r = s.root(x["o"])
                if r and x.get("f") not in s.tu.byid and MUTATOR.match(x["n"]): s.hits.append((x.get("l"), "calls %s() on %s" % (x["n"], r)))
            for i in x.get("rp", []):
                if i < len(x["a"]):
                    r = s.root(x["a"][i])
                    if r: s.hits.append((x.get("l"), "passes %s to %s() for writing" % (r, x["n"])))

def scan_tu(tus):
    """{(class, function, what): where} over all functions reachable from an evaluation; and the number of functions"""
    tu = facts.load(tus); byname = {}
    for f in tu.functions: byname.setdefault(f["n"], []).append(f)
    cls = lambda f: (f.get("cls") or "").split("::")[-1].split("<")[0]
    todo = [f for f in tu.functions if CLASSES.match(cls(f)) and ROOT.match(f["n"]) and not f.get("sta")]
    seen = {f["id"]: f for f in todo}; hits = {}; nwr = 0; memo = {}
    def writes(g, stack):
        """whether g writes its object"""
        if g["id"] not in memo:
            memo[g["id"]] = False; sc = Scan(tu, g)
            memo[g["id"]] = bool(sc.hits) or any(writes(tu.byid[x["f"]], stack) for x in sc.calls if x.get("f") in tu.byid and x.get("o", {}).get("k") == "this")
        return memo[g["id"]]
    while todo:
        f = todo.pop(); sc = Scan(tu, f); nwr += sc.nwr
        for h in sc.hits: hits.setdefault(("%s::%s" % (cls(f), f["n"]), h[1]), "%s:%s" % (f["file"], h[0]))
        for x in sc.calls:
            g = tu.byid.get(x.get("f")); o = x.get("o")
            if g is None: continue
            if o is not None and o.get("k") != "this" and not sc.root(o): continue
            if o is not None and o.get("k") != "this" and not x.get("cst"):      # a modifier of an object the material shares
                if writes(g, ()): hits.setdefault(("%s::%s" % (cls(f), f["n"]), "calls %s() on %s" % (g["n"], sc.root(o))), "%s:%s" % (f["file"], x.get("l")))
                continue
            for h in [g] + ([k for k in byname[g["n"]] if len(k["p"]) == len(g["p"]) and CLASSES.match(cls(k))] if x.get("vt") else []):
                if h["id"] not in seen: seen[h["id"]] = h; todo.append(h)
    return hits, len(seen), nwr
def job(t):
    try: return scan_tu(t) + (None,)
    except AnalysisError as e: return {}, 0, 0, str(e)
def effects(res):
    import multiprocessing
    units = ["gsMaterialMatrixBaseDim_+" + t for t in TUS[2:9]] + ["gsMaterialMatrixEval_", "gsMaterialMatrixIntegrate_"]
    facts.extract(units)
    allh = {}; n = 0
    with multiprocessing.Pool(4) as pool:
        for h, k, w, e in pool.imap(job, units):
            if e: raise AnalysisError(e)
            n += k; allh.update(h); res.count("functions reachable from evaluations", k); res.count("assignments inspected", w)
    for (f, what), wh in sorted(allh.items()): res.ob("%s %s" % (f, what), wh, False, "%s %s, which other evaluations of the same material see" % (f, what))
    res.ob("evaluations write only locals, results and per-thread data", "%d functions" % n, n > 50, "only %d functions found" % n)

def s25(tier, seed):
    import materials
    res = materials.rule("S25", "history", "an evaluation of a material depends on nothing that other evaluations of the same object leave behind: histories of two evaluations are interpreted, and no function reachable from an evaluation writes shared memory", 300)(tier, seed)
    effects(res)
    res.assume("effect analysis: data obtained through .mine() belongs to the calling thread; objects passed by reference belong to the caller")
    return res
RULES["S25"] = s25

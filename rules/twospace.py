"""The two discretisations of the error estimator: every operation acts on its own space, settings reach both."""
import facts, flow
from facts import AnalysisError, where
from flow import I, show
from field import DomainError
from protocol import feasible, leaves, ctors
from report import Result
TU = "gsThinShellAssemblerDWR_"
CLS = "gismo::gsThinShellAssemblerDWR"
THIS = ("this",)
READ = {"matrix", "rhs", "massMatrix", "numDofs", "getMapper", "materials", "getBasis", "geometry", "status"}   # observe the last assembly
DERIVE = {"constructSolution", "constructMultiPatch", "constructDisplacement", "constructSolutionVector", "deformationNorm", "projectL2", "constructStress", "boundaryForce", "getArea", "options", "assembler"}  # do not change it
STORED = {"m_matrix": "matrix", "m_mass": "massMatrix", "m_p": "rhs"}

def H(l): return ("m", THIS, "#" + l)
def start(l): return ("start", l)
def app(n, a, h): return ("after", n, a, h)
def acc(n, a, h): return ("of", n, a, h)

class Two(flow.PhiMixin, flow.Walker):
    """the assemblers of the two spaces are opaque machines: a call that may change one appends to its history"""
    def __init__(s, tu):
        super().__init__(tu, inline=lambda f: (f.get("cls") or "").startswith(CLS))
    def which(s, o):
        while o is not None and o[0] in ("deref", "addr"): o = o[1]
        if o is not None and o[0] == "mem" and o[1] == THIS and o[2] in ("m_assemblerL", "m_assemblerH"): return o[2][-1]
        if o is not None and o[0] == "new" : return s.made.get(o)
        return None
    def default(s, key):
        if key[0] == "m" and key[2] in ("#L", "#H"): return start(key[2][1])
        return super().default(key)
    def binop(s, o, a, b, x):
        # a status is either the success or not
        if o in ("==", "!=") and a[0] == "int" and b[0] != "int": a, b = b, a
        return super().binop(o, a, b, x)
    def special(s, x, obj, args, st):
        n = x["n"]
        if n == "make_pair" and len(args) == 2: return ("pair", args[0], args[1])
        l = s.which(obj) if "o" in x else None
        if l is None: return None
        h = s.read(H(l), st)
        if n == "homogenizeDirichlet" or n not in READ | DERIVE:
            h = app(n, args, h); s.store(H(l), h, st, x["l"])
            for i in x.get("rp", []) if not n.startswith("set") else ():
                k = s.lval(x["a"][i], st, True) if i < len(x["a"]) else None
                if k is not None: s.store(k, ("out", h, i), st, x["l"])
            return acc("result", (), h)
        v = acc(n, args, h)
        for i in x.get("rp", []):
            k = s.lval(x["a"][i], st, True) if i < len(x["a"]) else None
            if k is not None: s.store(k, ("out", v, i), st, x["l"])
        return v
    def x_m(s, x, st):
        v = super().x_m(x, st)
        if v[0] == "mem" and v[2] in ("first", "second") and v[1][0] == "pair": return v[1][1 if v[2] == "first" else 2]
        return v

def arg(f, i): return ("var", f["p"][i]["n"], "p%d" % i)
def vals(t): return {u for u in leaves(t) if u != ("noreturn",)}
def strip(t):
    while (t[0] == "ctor" and len(t[2]) == 1) or t[0] in ("deref", "addr"): t = t[2][0] if t[0] == "ctor" else t[1]
    return t

# public operation -> (operation of the assembler, members that take its results)
SYS = {"assemble": ("assemble", ("m_matrix", "m_p")), "assembleMass": ("assembleMass", ("m_mass",)), "assembleMatrix": (("assemble", "assembleMatrix"), ("m_matrix",)), "assemblePrimal": (("assemble", "assembleVector"), ("m_p",))}
BOTH = ("setOptions", "setPointLoads", "setFoundation", "setPressure", "updateBCs", "setUndeformed", "homogenizeDirichlet")
OWN = {"setPointLoads": "m_pLoads", "setUndeformed": "m_patches", "updateBCs": "m_bcs"}
ONE = ("setBasis", "setSpaceBasis")
GET = {"matrix": "m_matrix", "mass": "m_mass", "primal": "m_p", "dual": "m_d"}
FWD = {"numDofs": "numDofs", "options": "options", "assembler": "assembler", "getMapper": "getMapper", "constructSolution": "constructSolution", "constructMultiPatch": "constructMultiPatch",
       "constructDisplacement": "constructDisplacement", "constructSolutionVector": "constructSolutionVector", "projectL2_": "projectL2", "updateMultiPatch": "updateMultiPatch"}
STATE = [p + l for l in "LH" for p in ("m_matrix", "m_mass", "m_p", "m_d")]

def run(tu, f):
    w = Two(tu); rets = [(st, v) for st, v in w.run(f) if feasible(st.guards)]
    if not rets: raise DomainError("raises an error on every path")
    return w, rets
def member(w, st, n): return {strip(u) for u in vals(w.read(("m", THIS, n), st))}
def unchanged(w, st, names):
    for n in names:
        if n.startswith("#"): old, what = start(n[1]), "the assembler of the %s space is changed" % SP[n[1]]
        else: old, what = ("mem", THIS, n), "%s is changed" % n
        if member(w, st, n) != {old}: return what
    return None
SP = {"L": "coarse", "H": "enriched"}

def check_sys(tu, f, base, l):
    op, mems = SYS[base]; n = len(f["p"])
    if isinstance(op, tuple): op = op[n]
    w, rets = run(tu, f); h = app(op, tuple(arg(f, i) for i in range(n)), start(l))
    for st, v in rets:
        for u in member(w, st, "#" + l):
            if u[:2] != h[:2] or u[3] != h[3] or u[2][:n] != h[2]: return "assembles by %s instead of %s" % (show(u)[:100], show(h)[:100])
            h = u
        for m in mems:
            want = acc(STORED[m], (), h); got = member(w, st, m + l)
            if got != {want}: return "%s is %s instead of what was assembled" % (m + l, "/".join(show(u)[:100] for u in got))
        if v is None or not {strip(u) for u in vals(v)} <= {acc("result", (), h), I(0)}: return "the status is not that of the assembly"
        c = unchanged(w, st, [x for x in STATE if x not in [m + l for m in mems]] + ["#" + ("H" if l == "L" else "L")])
        if c: return c
    return None

def check_both(tu, f):
    w, rets = run(tu, f); n = f["n"]; a = tuple(arg(f, i) for i in range(len(f["p"])))
    for st, v in rets:
        for l in "LH":
            if member(w, st, "#" + l) != {app(n, a, start(l))}: return "the assembler of the %s space is not given the setting" % SP[l]
        if n in OWN and member(w, st, OWN[n]) != {a[0]}: return "the estimator keeps its old %s" % OWN[n]
        c = unchanged(w, st, STATE + [x for x in OWN.values() if OWN.get(n) != x])
        if c: return c
    return None

def check_one(tu, f, base, l):
    w, rets = run(tu, f); a = tuple(arg(f, i) for i in range(len(f["p"])))
    for st, v in rets:
        if member(w, st, "#" + l) != {app(base, a, start(l))}: return "the %s space is not given the setting" % SP[l]
        c = unchanged(w, st, ["#" + ("H" if l == "L" else "L")])
        if c: return c
    return None

def check_get(tu, f, m):
    w, rets = run(tu, f)
    for st, v in rets:
        if {strip(u) for u in vals(v)} != {("mem", THIS, m)}: return "returns %s" % show(v)[:80]
        c = unchanged(w, st, STATE + ["#L", "#H"])
        if c: return c
    return None

def check_fwd(tu, f, n, l):
    w, rets = run(tu, f); a = tuple(arg(f, i) for i in range(len(f["p"]))); pure = n in READ | DERIVE
    want = acc(n, a, start(l)) if pure else acc("result", (), app(n, a, start(l)))
    outs = [i for i, p in enumerate(f["p"]) if p["t"].rstrip().endswith("&") and not p["t"].startswith("const ")]
    for st, v in rets:
        if v is not None and f["rt"] != "void" and {strip(u) for u in vals(v)} != {want}: return "returns %s instead of %s of the %s space" % (show(v)[:80], n, SP[l])
        for i in outs:
            o = st.env.get(f["p"][i]["i"]); o = o if o is not None else arg(f, i)
            ok = {("out", want if pure else want[3], i)} | ({acc(n, a[:i], start(l))} if pure else set())
            if not {strip(u) for u in vals(o)} <= ok: return "%s is %s instead of that of the %s space" % (f["p"][i]["n"], show(o)[:80], SP[l])
        c = unchanged(w, st, STATE + ["#" + ("H" if l == "L" else "L")] + (["#" + l] if pure else []))
        if c: return c
    return None

def check_ctor(tu, f):
    ps = {p["n"]: i for i, p in enumerate(f["p"])}
    mp = [i for i, p in enumerate(f["p"]) if "gsMultiPatch" in p["t"]]; mb = [i for i, p in enumerate(f["p"]) if "gsMultiBasis" in p["t"]]
    rest = [i for i in range(len(f["p"])) if i not in mp + mb]
    if len(mp) != 1 or len(mb) != 2: raise AnalysisError("constructor " + where(f))
    w = Two(tu); w.made = {}
    for st, v in w.run(f):
        if not feasible(st.guards): continue
        for l, b in zip("LH", mb):
            for o in member(w, st, "m_assembler" + l):
                while o[0] in ("addr", "deref"): o = o[1]
                if o[0] != "new" or "gsThinShellAssembler<" not in o[1]: return "the assembler of the %s space is %s" % (SP[l], show(o)[:80])
                got = [show(strip(u)) for u in o[2]]
                want = [show(arg(f, i)) for i in mp + [b] + rest]
                ok = len(got) == len(want) and all(g == q or q in g for g, q in zip(got, want))
                if not ok: return "the assembler of the %s space is made from (%s)" % (SP[l], ", ".join(got)[:160])
        if member(w, st, "m_bcs") != {arg(f, rest[0])}: return "the boundary conditions of the estimator are %s" % show(w.read(("m", THIS, "m_bcs"), st))[:80]
    return None

def s29(tier, seed):
    res = Result("S29", "the two assemblers as opaque machines with a history: every operation of the estimator, interpreted, must apply the operation it is named after to its own machine, store that machine's result in its own member and leave the other machine and all other results as they were; settings reach both machines and the estimator's own copy", 150)
    tu = facts.load(TU)
    fs = [f for f in tu.functions if f.get("cls") == CLS and f.get("body") and f["acc"] == "public"]
    for f in sorted(fs, key=lambda f: (f["l"], f["cargs"], f["n"])):
        n, l = f["n"], f["n"][-1:]; fam = {("3", "true"): "shell", ("3", "false"): "membrane", ("2", "false"): "planar"}[(f["cargs"][0], f["cargs"][2])]
        fn = None
        if f["kind"] == "ctor":
            if f["p"] and not f.get("ck"): fn = lambda: check_ctor(tu, f)
        elif n in BOTH: fn = lambda: check_both(tu, f)
        elif l in "LH" and n[:-1] in SYS: fn = lambda: check_sys(tu, f, n[:-1], l)
        elif l in "LH" and n[:-1] in ONE: fn = lambda: check_one(tu, f, n[:-1], l)
        elif l in "LH" and n[:-1] in GET and not f["p"]: fn = lambda: check_get(tu, f, GET[n[:-1]] + l)
        elif l in "LH" and n[:-1] in FWD: fn = lambda: check_fwd(tu, f, FWD[n[:-1]], l)
        if fn is None: continue
        res.count("operations")
        try: c = fn()
        except DomainError as e: c = str(e)
        res.ob("%s %s(%s)" % (fam, n, ",".join(p["n"] or p["t"] for p in f["p"])), where(f), not c, c)
    res.assume("what the operations of one assembler compute is the subject of S01-S03 and S17-S23")
    return res
RULES = {"S29": s29}

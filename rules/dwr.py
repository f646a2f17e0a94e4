"""The dual problem of the error estimator: the dual load of every goal is the derivative of the goal functional."""
import re
import facts, flow, denote
from facts import AnalysisError, where
from flow import I, show
from field import N, M, Rng, Retry, DomainError
from matdom import V, isM, Oob, lift
from denote import Ctx, Den, E0, Unsupported
from protocol import DofWalker, Model, feasible, goals
from report import Result
import protocol
DWR_TU = "gsThinShellAssemblerDWR_"
CLS = "gismo::gsThinShellAssemblerDWR"

class DwrWalker(flow.PhiMixin, DofWalker):
    """expressions stay terms; loops over points and degrees of freedom run on a Model"""
    def __init__(s, tu, rng, model, goal, comp):
        super().__init__(tu, rng, model, inline=lambda f: (f.get("cls") or "") == CLS)
        s.members.update({"m_goalFunction": I(goal), "m_component": I(comp)})
        s.rec = []; s.setup = []; s.used = set(); s.nb = 1
    def cast(s, t, v, x): return v
    def decl(s, v, st):
        super().decl(v, st)
        t = v["t"]
        if "gsExprEvaluator<" in t and "::" not in t.split(">")[-1]: st.env[v["i"]] = ("ev", s.asmof(st.env.get(v["i"])))
    def asmof(s, t):
        for u in flow.subterms(t):
            if u and u[0] == "asm": return u
    # a local copy of a multipatch whose coefficients are changed
    def lval(s, x, st, soft=False):
        if x.get("k") == "c" and x.get("n") == "coefs" and x.get("o") is not None:
            o = x["o"]
            if o.get("k") == "c" and o.get("n") == "patch" and o.get("o") is not None:
                b = s.lval(o["o"], st, True)
                if b is not None: return ("coefs", b, s.ii(s.expr(o["a"][0], st)))
        return super().lval(x, st, soft)
    def read(s, key, st):
        if key[0] == "coefs":
            v = s.read(key[1], st)
            if v[0] == "mp": return dict(v[2]).get(key[2], ("coefsof", v[1], key[2]))
            return ("coefsof", v, key[2])
        return super().read(key, st)
    def store(s, key, v, st, line, *a):
        if key[0] == "coefs":
            if key[1][0] not in ("v",): raise DomainError("%s: changes the coefficients of a geometry that is not its own" % s.place())
            old = s.read(key[1], st)
            if old[0] != "mp": old = ("mp", old, ())
            d = dict(old[2]); d[key[2]] = v
            return super().store(key[1], ("mp", old[1], tuple(sorted(d.items()))), st, line)
        return super().store(key, v, st, line, *a)
    def hasspace(s, t): return any(u == ("space",) for u in flow.subterms(t))
    def take(s, kind, dom, expr):
        s.rec.append((kind, dom, expr, s.place())); return len(s.rec) - 1
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o is not None and o[0] == "mem" and o[1] == ("this",) and o[2] in ("m_assemblerL", "m_assemblerH"):
            if n == "assembler": return ("asm", o[2][-1])
            if n == "materials": return ("materials", o[2][-1])
            if n == "numDofs": return I(s.model.nfree)
            if n in ("options", "hasGroup", "getGroup"): return ("opaque", n)
        if n == "hasGroup": return I(1)
        if n in ("sn", "usn") and obj is None and s.model.d == 2: raise DomainError("%s: asks for the surface normal of a planar geometry, which raises an error" % s.place())
        if o == ("sym", "bnds") and n in ("size", "empty"): return I(s.nb if n == "size" else not s.nb)
        if n == "nPatches" and o is not None and o[0] in ("sym", "mp", "mem"): return I(s.model.NP)
        if n == "coefs" and o is not None and o[0] == "call" and o[1] == "patch":
            k = s.ii(o[3][0]); b = s.strip(o[2])
            return dict(b[2]).get(k, ("coefsof", b[1], k)) if b[0] == "mp" else ("coefsof", b, k)
        if o is not None and o[0] == "asm":
            if n == "getMap": return ("call", "getMap", None, args, ())
            if n == "getCoeff": return ("call", "getCoeff", None, args, ())
            if n in ("trialSpace", "testSpace", "getSpace"): s.used.add(o[1]); return ("space",)
            if n in ("cleanUp", "setOptions", "initSystem", "initVector", "setIntegrationElements"):
                if n.startswith("init"): s.rec = [r for r in s.rec if r[0] not in ("dom", "bdr")]
                return ("void",)
            if n == "assemble":
                for a in args: s.take("dom", None, a)
                return ("void",)
            if n == "assembleBdr":
                for a in args[1:]: s.take("bdr", args[0], a)
                return ("void",)
            if n == "numDofs": return I(s.model.nfree)
            if n == "rhs": return ("rhs", o[1], tuple(i for i, r in enumerate(s.rec)))
        if o is not None and o[0] == "ev":
            if n == "eval":
                pt = lift(args[1])
                if pt is None: raise AnalysisError("point not understood at " + s.place())
                i = s.take("pt", s.model.key(pt), args[0])
                p = s.ii(args[2]) if len(args) > 2 else 0
                if p != 0: raise DomainError("%s: evaluated on patch %d" % (s.place(), p))
                if not s.hasspace(args[0]): return V(M.col([s.rng("value", i)]))
                k = len(s.model.acts[0])
                return V(M.col([s.rng("value", i, f, c) for c in range(s.model.d) for f in range(k)]))
            if n == "integral": return V(M.col([s.rng("value", s.take("dom", None, args[0]))]))
            if n == "integralBdr": return V(M.col([s.rng("value", s.take("bdr", args[1], args[0]))]))
        if o == ("space",):
            if n == "setup":
                s.setup.append(args); return ("void",)
            if n in ("source",): return ("basisset", False)
        return super().leaf_(x, obj, args, st)

class DenG(Den):
    def spaceof(s, t): return "left" if t == ("space",) else super().spaceof(t)
    def ev_(s, t, T, S):
        if t == ("space",): return s.jet(t, T, S)["val"].T()
        if isM(t): return t[1]
        if t[0] == "call" and t[1] == "uv" and t[2] is None:
            i, n = (a[1] for a in t[3])
            if not 0 <= i < n: raise DomainError("unit vector %d of %d" % (i, n))
            return M.col([int(k == i) for k in range(n)])
        return super().ev_(t, T, S)
    def constfun(s, ca, f):
        m = lift(ca[0])
        if m is None: raise Unsupported("constant function " + show(f)[:100])
        return M.col(list(m.a))
    def f_getCoeff(s, t, o, a, T, S):
        f = a[0]
        while f[0] in ("addr", "deref"): f = f[1]
        if s.x.cfgof(f) == "primal":
            d, u = s.x.map_jet("def", "left"), s.x.map_jet("ori", "left")
            return d["val"] - u["val"]
        return super().f_getCoeff(t, o, a, T, S)
    def material(s, ty, ca, rest, f):
        out = re.search(r"MaterialOutput::(\w+)", ty)
        if not out: raise Unsupported("material output of " + ty)
        out = out.group(1); pw = "gsMaterialMatrixEval" in ty
        strip = lambda z: strip(z[1]) if z[0] in ("addr", "deref") else z
        geo = [s.x.cfgof(strip(z)) for z in (ca[1:-1] if pw else ca[1:])]
        if geo not in (["def"], ["ori", "def"]): raise DomainError("%s is evaluated on the configurations %s" % (out, geo))
        if pw:
            z = lift(ca[-1])
            if z is None or len(z.a) != 1 or not z.a[0].zero(): raise DomainError("%s is evaluated away from the mid-surface" % out)
        k = "pw" if pw else "int"; r = s.x.rng
        dirv = s.x.dirfun
        def A(n): return M.zero(3, 3) if s.x.nobend and n in ("B", "D") else r.sym(3, k, n)
        if out in ("StretchTransform", "PStressTransform"): return r.mat(9, 1, out)
        if out in ("MatrixA", "MatrixB", "MatrixC", "MatrixD"):
            if pw and out in ("MatrixB", "MatrixC"): raise Unsupported("pointwise " + out)
            return A({"MatrixC": "B"}.get(out, out[-1])).reshape(9, 1)
        if out in ("VectorN", "VectorM", "PStress"):
            if out == "PStress" and not pw: raise Unsupported("integrated principal stress")
            v = r.vec(2 if out == "PStress" else 3, k, out)
            if dirv is None: return v
            em, ef = s.voigt(dirv, "left")
            if pw: dS = A("D") * ef if out == "VectorM" else A("A") * em
            else: dS = A("A") * em + A("B") * ef if out == "VectorN" else A("B") * em + A("D") * ef
            if out == "PStress":
                dS = r.mat(9, 1, "PStressTransform").reshape(3, 3) * dS
                dS = M.col(list(dS.a[:2]))
            return v + dS.scale(denote.eps(E0))
        raise Unsupported("material output " + out)

def find(tu, name, fam, types):
    fs = [f for f in tu.functions if f["n"] == name and f.get("cls") == CLS and tuple(f["cargs"][i] for i in (0, 2)) == fam and f.get("body") and len(f["p"]) == len(types) and all(a in p["t"] for a, p in zip(types, f["p"]))]
    if len(fs) != 1: raise AnalysisError("%d functions %s(%s) of %s" % (len(fs), name, ",".join(types), fam))
    return fs[0]

PATCHES = ("mem", ("this",), "m_patches")
def cfg(t):
    while t[0] in ("addr", "deref") or (t[0] == "ctor" and len(t[2]) == 1): t = t[1] if t[0] != "ctor" else t[2][0]
    if t == PATCHES: return "ori"
    if t == ("sym", "deformed"): return "def"
    if t == ("sym", "primal"): return "primal"
    if t[0] == "mp" and cfg(t[1]) == "ori":
        ok = len(t[2]) == Model.NP
        for k, c in t[2]:
            ok = ok and c[0] == "op" and c[1] == "+" and {(u[0], cfg(u[1]), u[2]) for u in c[2] if u[0] == "coefsof"} == {("coefsof", "ori", k), ("coefsof", "primal", k)}
        if ok: return "def"
    return show(t)

def interpret(tu, f, goal, comp, dim, rng, npts=2):
    """walker and state after the call, and what it returns"""
    m = Model(dim, rng); w = DwrWalker(tu, rng, m, goal, comp); args = []; dual = f["n"] != "computeGoal"
    geo = ["primal", "deformed"] if dual else ["deformed"]
    for i, p in enumerate(f["p"]):
        t = p["t"]
        if "vector" in t: args.append(("sym", "bnds"))
        elif "gsMultiPatch" in t: args.append(("sym", geo.pop(0)))
        elif "gsMatrix" in t: args.append(V(M(2, npts, [rng("pt", k) for k in range(2 * npts)])))
        else: raise AnalysisError("parameter %s of %s" % (p["n"], where(f)))
    rets = w.run(f, args)
    rets = [(st, v) for st, v in rets if feasible(st.guards)]
    if not rets: raise DomainError("an error is raised on every path")
    if len(rets) != 1: raise AnalysisError("%s: %d exits" % (where(f), len(rets)))
    return (w,) + rets[0]

GEO = ("gsMultiPatch",)
KINDS = {"domain": (), "boundary": ("vector",), "points": ("gsMatrix",)}
PLANAR = ("Displacement", "Stretch", "PStrain", "PStress", "MembraneStrain", "MembraneStress")
def comps(goal, dim): return ((0, 1) if goal == "PStress" or dim == 2 else (0, 1, 2)) + (9,)
def unwrap(v):
    while v[0] == "ctor" and len(v[2]) == 1: v = v[2][0]
    return v
def single(v, f):
    """the value on the paths without an exception"""
    l = {unwrap(u) for u in protocol.leaves(v, ())}
    if len(l) != 1: raise AnalysisError("%s: the result was not followed (%s)" % (where(f), show(v)[:120]))
    return l.pop()

def pieces(w, kind, ix):
    """{domain of integration or point: expressions}"""
    out = {}
    for i in ix:
        k, dom, e, site = w.rec[i]
        want = {"domain": "dom", "boundary": "bdr", "points": "pt"}[kind]
        if k != want: raise DomainError("%s: %s instead of %s" % (site, {"dom": "integrated over the domain", "bdr": "integrated over a boundary", "pt": "evaluated at points"}[k], kind))
        if k == "bdr" and unwrap(dom) != ("sym", "bnds"): raise DomainError("%s: integrated over %s" % (site, show(dom)[:60]))
        out.setdefault(dom, []).append(e)
    return out

def goalform(tu, f, kind, gv, comp, dim, rng, npts=2):
    w, st, v = interpret(tu, f, gv, comp, dim, rng, npts)
    v = lift(single(v, f))
    if v is None or len(v.a) != 1: raise AnalysisError("%s: the value was not followed" % where(f))
    r = v.a[0]
    for i in range(len(w.rec)): r = r - rng("value", i)
    if not r.zero(): raise DomainError("the goal is not the sum of its %d contributions" % len(w.rec))
    return pieces(w, kind, range(len(w.rec)))

def dualform(tu, f, kind, gv, comp, dim, rng, npts=2):
    w, st, v = interpret(tu, f, gv, comp, dim, rng, npts)
    if single(v, f) != I(0): raise DomainError("the status is %s" % show(v)[:60])
    lev = f["n"][-1]
    for l in "LH":
        z = w.read(("m", ("this",), "m_d" + l), st)
        if l != lev:
            if z != ("mem", ("this",), "m_d" + l): raise DomainError("the dual vector of the other space is changed")
            continue
        got = single(z, f)
    if kind != "points":
        if got[0] != "rhs": raise DomainError("the dual vector is not the assembled one (%s)" % show(got)[:60])
        if got[1] != lev: raise DomainError("assembled on the other space")
        return pieces(w, kind, got[2])
    if w.used - {lev}: raise DomainError("evaluated on the other space")
    if got[0] == "rhs" and not got[2]:                      # a vector that was only initialised
        if got[1] != lev: raise DomainError("the vector of the other space is returned")
        got = V(M.col([N.of(0)] * w.model.nfree))
    if not isM(got): raise AnalysisError("%s: the dual vector was not followed (%s)" % (where(f), show(got)[:80]))
    m = w.model; exp = [N.of(0)] * m.nfree
    for i in range(len(w.rec)):
        for c in range(m.d):
            for k in m.acts[0]:
                g = m.g[(k, 0, c)]
                if m.free(g): exp[g] = exp[g] + rng("value", i, m.acts[0].index(k), c)
    if len(got[1].a) != m.nfree: raise DomainError("the dual vector has %d entries for %d degrees of freedom" % (len(got[1].a), m.nfree))
    for g, (a, b) in enumerate(zip(got[1].a, exp)):
        if not (a - b).zero(): raise DomainError("the entry of degree of freedom %s is not the sum over the points of the derivative in its direction" % protocol.dofname(m, g))
    return pieces(w, kind, range(len(w.rec)))

def value(forms, kind, dim, seed, dirv):
    """{domain: value of the form in the direction of the test function}"""
    c = Ctx(seed, dim, cfg); c.dirfun = dirv
    out = {}
    d = DenG(c, "bdr" if kind == "boundary" else "dom")
    for k, es in forms.items():
        s = N.of(0)
        for e in es:
            v = d.ev(e, "v", "0")
            if not v.isscal(): raise DomainError("%s is not a number but %dx%d" % ("the goal" if dirv else "the dual load", v.r, v.c))
            s = s + v.a[0]
        out[k] = s
    return out

def compare(goal, dual, kind, dim, seed):
    for sd in range(8):
        try: a = value(goal, kind, dim, (seed, sd), "v"); b = value(dual, kind, dim, (seed, sd), None); break
        except Retry: continue
    else: raise AnalysisError("no sample")
    if set(a) != set(b): return "the dual load and the goal are taken at different places"
    for k in a:
        if not (a[k].coef(E0) - b[k].drop(E0)).zero(): return "the dual load is not the derivative of the goal"
    return None

def s28(tier, seed):
    res = Result("S28", "the dual load, recovered by dataflow from every public entry point, == the derivative of the functional that computeGoal evaluates, in the direction of the test function; point contributions reach the right degrees of freedom", 200)
    tu = facts.load(DWR_TU)
    gs = [(n, v) for n, v in goals(tu) if n not in ("Modal", "Buckling")]
    for fam in (("3", "true"), ("3", "false"), ("2", "false")):
        dim = int(fam[0]); name = {("3", "true"): "shell", ("3", "false"): "membrane", ("2", "false"): "planar"}[fam]
        for kind, first in KINDS.items():
            gf = find(tu, "computeGoal", fam, first + GEO)
            duals = {(lev, n): find(tu, "assembleDual" + lev, fam, first + GEO * n) for lev in "LH" for n in (1, 2)}
            if dim == 2:
                # one question first: can the functions be evaluated at all
                bad = False
                for f in [gf] + list(duals.values()):
                    try: interpret(tu, f, dict(gs)["Displacement"], 0, dim, Rng((seed, kind))); c = None
                    except (DomainError, Oob) as e: c = str(e); bad = True
                    res.ob("planar %s(%s) can be evaluated" % (f["n"], ", ".join([kind] + ["geometry"] * (len(f["p"]) - len(first)))), where(f), not c, c)
                if bad: continue
            for goal, gv in gs:
                if dim == 2 and goal not in PLANAR: continue
                for comp in comps(goal, dim):
                    rng = Rng((seed, fam, kind, goal, comp))
                    cn = "norm" if comp == 9 else "component %d" % comp
                    try: G = goalform(tu, gf, kind, gv, comp, dim, rng); ge = None
                    except (DomainError, Oob) as e: ge = str(e)
                    res.count("goals")
                    for lev, n in (("L", 1), ("H", 2)) + ((("L", 2), ("H", 1)) if comp == 0 or tier == "thorough" else ()):
                        df = duals[(lev, n)]
                        key = "%s %s %s, %s, %s space, %s" % (name, goal, cn, kind, {"L": "coarse", "H": "enriched"}[lev], "at a solution" if n == 1 else "at a deformed geometry")
                        c = ge
                        if not c:
                            try: c = compare(G, dualform(tu, df, kind, gv, comp, dim, rng), kind, dim, seed)
                            except (DomainError, Oob) as e: c = str(e)
                        if kind == "points" and not c and comp == 0:
                            for k in (1, 0):
                                try:
                                    g1 = goalform(tu, gf, kind, gv, comp, dim, rng, k); d1 = dualform(tu, df, kind, gv, comp, dim, rng, k)
                                    if k == 0 and (g1 or d1): raise DomainError("something is evaluated although no points are given")
                                    c = c or compare(g1, d1, kind, dim, seed)
                                except (DomainError, Oob) as e: c = "with %d points: %s" % (k, e)
                        res.count("identity tests"); res.ob(key, where(df), not c, c)
    res.assume("the principal directions are held fixed in the goals that use them", "the membrane stress at the mid-surface responds to the membrane strain with matrix A, the flexural one to the flexural strain with matrix D", "resultants respond with A, B, C, D")
    return res
RULES = {"S28": s28}

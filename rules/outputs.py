"""Rules about what is reported to the user: stress output fields."""
from fractions import Fraction
import re
import facts, flow
from facts import AnalysisError, where
from field import N, M, Rng, Retry, DomainError
from matdom import MatWalker, V, isM, Oob, lift
from objdom import ObjWalker
from denote import Ctx, Den, normal, unormal, Unsupported
from flow import I, show
from report import Result
RULES = {}
def rule(i):
    def f(g): RULES[i] = g; return g
    return f
half = N.of(Fraction(1, 2))
ROWS = {"PStress": 2, "PStressN": 2, "PStressM": 2, "PCauchyStressN": 2, "PCauchyStressM": 2, "PStressDir": 9, "StretchDir": 9, "TensionField": 1, "Thickness": 1, "Density": 1,
        "MatrixA": 9, "MatrixB": 9, "MatrixC": 9, "MatrixD": 9}

def cart(j, con):
    """Voigt transformation of tensor components in the co/contravariant basis to the local Cartesian basis"""
    d = j["d1"].r; a1, a2 = j["d1"], j["d2"]
    e1 = a1.normalized(); e2 = (a2 - e1.scale(a2.dot(e1))).normalized()
    if con:
        J = j.jac(); q = J * (J.T() * J).inverse()
        a1, a2 = M(d, 1, [q[i, 0] for i in range(d)]), M(d, 1, [q[i, 1] for i in range(d)])
    return M.rows([[p.dot(a1) * a1.dot(q), p.dot(a2) * a2.dot(q), p.dot(a1) * a2.dot(q) + p.dot(a2) * a1.dot(q)] for p, q in ((e1, e1), (e2, e2), (e1, e2))])

class OCtx(Ctx):
    """jets of both configurations at one point of one patch; the boundary direction is the first parameter line, so |a1| is a square"""
    def __init__(s, seed, dim): super().__init__(seed, dim, lambda t: t[1] if t[0] == "sym" else "geo:" + show(t)); s.dirfun = None
    def tau(s, side): return [N.of(1), N.of(0)]
    def mat(s, kind, out, ori, dfm, z):
        return s.rng.vec(ROWS.get(out, 3), "material", kind, out, ori, dfm, z)

class ODen(Den):
    def f_getVariable(s, t, o, a, T, S): return s.f_getCoeff(t, o, a, T, S)
    def material(s, ty, ca, rest, f):
        m = re.search(r"MaterialOutput::(\w+)|,\s*([A-Za-z]\w+)\s*>", ty)
        if not m: raise Unsupported("material output of " + ty)
        kind = "integral" if "Integrate" in ty else "value"
        a = list(ca); strip = lambda z: z[1] if z[0] == "addr" else z
        if strip(a[0]) != ("sym", "materials"): raise DomainError("evaluates other materials than those of the field: " + show(a[0])[:80])
        geo = [s.x.cfgof(strip(z)) for z in a[1:] if not isM(z)]; z = [z[1] for z in a[1:] if isM(z)]
        if len(geo) == 1: geo = ["the geometry of the material"] + geo
        if len(geo) != 2: raise Unsupported("material evaluator " + show(f)[:100])
        if kind == "value" and not (len(z) == 1 and z[0].r * z[0].c == 1): raise Unsupported("heights of " + show(f)[:100])
        return s.x.mat(kind, m.group(1) or m.group(2), geo[0], geo[1], z[0].a[0].base() if z else None)
    def f_cartcov(s, t, o, a, T, S): return cart(s.jet(a[0], T, S), False)
    def f_cartcon(s, t, o, a, T, S): return cart(s.jet(a[0], T, S), True)
    def f_cartcovinv(s, t, o, a, T, S): return cart(s.jet(a[0], T, S), False).inverse()
    def f_cartconinv(s, t, o, a, T, S): return cart(s.jet(a[0], T, S), True).inverse()
    def ev_(s, t, T, S):
        if isM(t): return t[1]
        return super().ev_(t, T, S)

class OutWalker(MatWalker):
    K, PATCH = 2, 5
    def __init__(s, tu, seed, dim):
        rng = Rng(seed); s.seed = seed; s.dim = dim
        super().__init__(tu, rng, leaf=lambda w, x, o, a, st: s.leaf_(x, o, a, st))
        s.u = rng.mat(2, s.K, "u"); s.cx = {}; s.neval = 0
    def may_inline(s, fn):
        if fn["file"].endswith("gsThinShellUtils.h") or "gsMaterialMatrix" in fn["file"]: return False
        return super().may_inline(fn)
    def at(s, k, p):
        if (k, p) not in s.cx: s.cx[k, p] = OCtx((s.seed, k, p), s.dim)
        return s.cx[k, p]
    def leaf_(s, x, obj, args, st):
        if obj is None: return None
        o = obj
        while o[0] in ("deref", "addr"): o = o[1]
        n = x["n"]
        if o[0] == "ctor" and "gsExprEvaluator" in o[1] and n == "eval":
            u = lift(args[1]); p = s.int_(args[2]) if len(args) > 2 else 0
            if u is None or p is None: raise AnalysisError("evaluation at an unknown point, " + s.place())
            k = [k for k in range(s.K) if u.r == 2 and u.c == 1 and all((u.a[i] - s.u[i, k]).zero() for i in range(2))]
            if not k: raise DomainError("%s: evaluated at a point that was not asked for" % s.place())
            s.neval += 1
            try: return V(ODen(s.at(k[0], p)).ev(args[0]))
            except DomainError as e: raise DomainError("%s: %s" % (s.place(), e))
        if o in (("sym", "ori"), ("sym", "def")):
            if n in ("targetDim", "geoDim"): return I(s.dim)
            if n in ("nPieces", "nPatches"): return I(7)
        return None

def definition(c, name):
    """what the stress type means at the point of c; None: not available"""
    d = Den(c); o, f = c.map_jet("ori", "left"), c.map_jet("def", "left")
    m = lambda out, kind="value": c.mat(kind, out, "ori", "def", 0 if kind == "value" else None)
    S = {"membrane": ("def", "value", "CauchyStressN"), "flexural": ("def", "value", "CauchyStressM"), "membrane_PK2": ("ori", "value", "StressN"), "flexural_PK2": ("ori", "value", "StressM"),
         "membrane_force": ("def", "integral", "CauchyVectorN"), "flexural_moment": ("def", "integral", "CauchyVectorM"), "membrane_force_PK2": ("ori", "integral", "VectorN"), "flexural_moment_PK2": ("ori", "integral", "VectorM")}
    def stress(n): return cart(o if S[n][0] == "ori" else f, False) * m(S[n][2], S[n][1])
    mises = lambda v: (v.a[0] * v.a[0] + v.a[1] * v.a[1] - v.a[0] * v.a[1] + v.a[2] * v.a[2] * 3).sqrt()
    if name == "displacement": return f["val"] - o["val"]
    if name in S: return stress(name)
    if name == "von_mises": a, b = stress("membrane_PK2"), stress("flexural_PK2"); return M.col([mises(a + b), mises(a - b)])
    if name == "von_mises_membrane": return M.col([mises(stress("membrane_PK2"))])
    if name == "von_mises_flexural": return M.col([mises(stress("flexural_PK2"))])
    if name == "membrane_strain":
        g = lambda j: M.col([j["d1"].dot(j["d1"]), j["d2"].dot(j["d2"]), j["d1"].dot(j["d2"])])
        return cart(o, True) * (g(f) - g(o)).scale(half)
    if name == "flexural_strain":
        b = lambda j: M.col([unormal(j).dot(j[q]) for q in ("d11", "d22", "d12")])
        return cart(o, True) * (b(o) - b(f))
    P = {"principal_membrane_strain": "PStrainN", "principal_flexural_strain": "PStrainM", "principal_stretch": "Stretch", "principal_stress": "PStress", "principal_stress_membrane": "PCauchyStressN",
         "principal_stress_flexural": "PCauchyStressM", "tension_field": "TensionField"}
    if name in P: return m(P[name])
    q = re.match(r"principal_(stretch|stress)_dir([123])$", name)
    if q:
        v = m("StretchDir" if q.group(1) == "stretch" else "PStressDir"); i = int(q.group(2)) - 1
        return M.col(v.a[3 * i:3 * i + 3])
    return None
NONE = {"total"}            # announced as not implemented
BENDING = {"flexural_strain"}

@rule("S24")
def s24(tier, seed):
    t = facts.load("gsThinShellAssembler_")
    res = Result("S24", "for every stress type the output field evaluates the definition of that type at each requested point of its own patch, for the geometries and materials it was built with, in the announced number of rows", 55)
    one = lambda n: next(iter(f for f in t.find(n, "gsShellStressFunction")), None)
    ctors = [f for f in t.functions if f.get("kind") == "ctor" and (f.get("cls") or "").endswith("gsShellStressFunction") and len(f["p"]) == 5]
    ev, td = one("eval_into"), one("targetDim")
    if len(ctors) != 1 or ev is None or td is None: raise AnalysisError("gsShellStressFunction: constructor, eval_into or targetDim not found")
    types = t.enum("stress_type::type")
    ori, dfm, mats = ("sym", "ori"), ("sym", "def"), ("sym", "materials")
    for dim in (3, 2):
        for name, val in sorted(types.items(), key=lambda kv: kv[1]):
            if name in NONE or (dim == 2 and name in BENDING): continue
            key = "%s (%s)" % (name, "surface" if dim == 3 else "planar")
            try:
                msg = None; done = 0; k = 0
                while done < (2 if tier == "quick" else 6):
                    k += 1
                    if k > 4000: raise AnalysisError("no admissible sample for " + key)
                    try:
                        msg = one_type(t, ctors[0], ev, td, dim, name, val, (seed, key, k), (ori, dfm, mats)); done += 1
                        res.count("evaluations")
                    except Retry: continue
                    if msg: break
            except (Oob, DomainError) as e: msg = str(e)
            except AnalysisError as e: res.err("%s: %s" % (key, e)); continue
            res.ob(key, where(ev), not msg, msg or "")
    # the fields of an assembler
    import weakform
    for fam in weakform.FAM:
        for ty, off in ((["gsFunctionSet", "gsFunctionSet", "gsPiecewiseFunction", "type"], 1), (["gsFunctionSet", "gsPiecewiseFunction", "type"], 0)):
            f = weakform.method(t, "constructStress", fam, ty)
            key = "%s constructStress(%d geometries)" % (weakform.NAME[fam], off + 1)
            try: msg = fields(t, f, off, ctors[0])
            except (Oob, DomainError) as e: msg = str(e)
            except AnalysisError as e: res.err("%s: %s" % (key, e)); continue
            res.count("functions"); res.ob(key, where(f), not msg, msg or "")
    res.assume("outputs of the material evaluators mean what they are named after (separate properties)", "the expression evaluator evaluates an expression at the given point of the given patch")
    return res

def one_type(t, ctor, ev, td, dim, name, val, seed, syms):
    w = OutWalker(t, seed, dim); ori, dfm, mats = syms
    r = w.run(ctor, [ori, dfm, mats, I(w.PATCH), I(val)])
    if len(r) != 1: raise AnalysisError("constructor of the stress field")
    st0 = r[0][0]; st0.env = {}; st0.alias = {}
    d = w.run(td, [], st=st0.copy()); n = w.int_(d[0][1]) if len(d) == 1 and d[0][1] is not None else None
    if n is None: raise AnalysisError("target dimension not understood")
    want = [definition(w.at(k, w.PATCH), name) for k in range(w.K)]
    if want[0] is None: raise AnalysisError("stress type %s is unknown to this check" % name)
    if n != want[0].r: return "announces %d components, the quantity has %d" % (n, want[0].r)
    r = w.run(ev, [V(w.u), V(w.garbage(2, 7))], st=st0)
    if not r: return "raises an error"
    st = r[0][0] if len(r) == 1 else w.mergelist(r, ())[0]
    v = st.env.get(ev["p"][1]["i"])
    if v is None or not isM(v): raise AnalysisError("result not determined: %s %s" % (show(v)[:120] if v else v, w.notes[:2]))
    v = v[1]
    if (v.r, v.c) != (n, w.K): return "result is %dx%d instead of %dx%d" % (v.r, v.c, n, w.K)
    for k in range(w.K):
        for i in range(n):
            if not (v[i, k] - want[k].a[i]).zero(): return "component %d of point %d is not that of the quantity on the patch, geometries and materials of the field" % (i, k)
    return None

class FieldWalker(ObjWalker):
    NP = 3
    def may_inline(s, fn): return "ThinShell" in fn["file"] and super().may_inline(fn)
    def mleaf(s, x, obj, args, st):
        n = x["n"]
        if obj is None: return None
        o = obj
        while o[0] in ("deref", "addr"): o = o[1]
        if n in ("nPatches", "nPieces", "nBases") and o in (("patches",), ("sym", "original"), ("sym", "deformed")): return I(s.NP)
        if o[0] == "pieces" or (o[0] == "vec" and n in ("addPiecePointer", "addPiece")):
            if n == "clear" or n.startswith("addPiece"):
                key = s.lval(x["o"], st, True)
                if key is None: raise AnalysisError("result not understood at " + s.place())
                v = () if n == "clear" else (o[1] + (args[0],))
                s.store(key, ("pieces", v), st, x["l"], "upd"); return ("void",)
        return None

def fields(t, f, off, ctor):
    w = FieldWalker(t, Rng("fields")); mats = ("sym", "materials"); pat = ("patches",)
    w.members["m_patches"] = pat; w.members["m_materialMatrices"] = mats; w.members["m_defpatches"] = ("sym", "other")
    o, d = ("sym", "original"), ("sym", "deformed"); ty = ("sym", "type")
    old = ("addr", ("sym", "old piece"))
    r = w.run(f, ([o] if off else []) + [d, ("pieces", (old,)), ty])
    if len(r) != 1: raise AnalysisError("constructStress not understood")
    st = r[0][0]; v = st.env.get(f["p"][off + 1]["i"])
    if v is None or v[0] != "pieces": raise AnalysisError("result not understood: " + show(v)[:100])
    want = o if off else pat
    if old in v[1]: return "earlier pieces stay in the result"
    if len(v[1]) != w.NP: return "%d pieces for %d patches" % (len(v[1]), w.NP)
    # members of a field by the order of the constructor's arguments
    ref = FieldWalker(t, Rng("ref"))
    for p, q in enumerate(v[1]):
        b = q[1] if q[0] == "addr" else q
        if b[0] != "obj": raise AnalysisError("piece not understood: " + show(q)[:100])
        got = {k[2]: x for k, x in st.heap.items() if k[0] == "m" and k[1] == b}
        rr = ref.run(ctor, [want, d, mats, I(p), ty], this=("obj", 0, "ref", ctor.get("cid")))
        exp = {k[2]: x for k, x in rr[0][0].heap.items() if k[0] == "m" and k[1] == ("obj", 0, "ref", ctor.get("cid"))}
        norm = lambda x: x[1] if x[0] in ("addr", "deref") else x
        for k in exp:
            if norm(got.get(k, ("missing",))) != norm(exp[k]): return "piece %d: %s is %s instead of %s" % (p, k, show(got.get(k, ("missing",)))[:60], show(exp[k])[:60])
    return None

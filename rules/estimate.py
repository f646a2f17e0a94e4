"""The error estimates: residual and eigenvalue defect weighted with the difference of the two dual solutions."""
import re
import facts, flow, denote
from facts import AnalysisError, where
from flow import I, show
from field import N, M, Rng, Retry, DomainError, P
from matdom import V, isM, Oob, lift
from denote import Ctx, Den, E0, E1, E2, Unsupported, unormal, normal, eps
from protocol import SeqMixin, Model, feasible, retrying, goals
from dwr import DwrWalker, DWR_TU, CLS, PATCHES, unwrap
from report import Result
import protocol

BOX = {0: [((0, 0), (4, 8)), ((4, 0), (8, 8))], 1: [((0, 0), (8, 4)), ((0, 4), (4, 8)), ((4, 4), (8, 8))]}    # elements of the patches
PTS = {"A": (1, (6, 6)), "B": (0, (1, 3)), "C": (1, (3, 4)), "D": (0, (4, 2)), "E": (0, (8, 8)), "F": (1, (0, 0)), "G": (1, (8, 3))}       # loads: patch and parameter values (C and D lie on an edge, E, F, G on the boundary)
PARAM = {"A": 1, "B": 0, "C": 0, "D": 1, "E": 1, "F": 1, "G": 0}
ELS = [(p, k) for p in BOX for k in range(len(BOX[p]))]
def inside(b, q): return all(l <= x <= u for l, u, x in zip(b[0], b[1], q))

class EModel(Model):
    def inv(s, p, pt):
        for t, (q, v) in PTS.items():
            if not PARAM[t] and s.key(pt) == s.key(s.phys[t]): return M.col(list(v)) if p == q else M.col([N.of(7), N.of(1)])
        raise AnalysisError("inversion of an unknown point")

class EstWalker(SeqMixin, DwrWalker):
    def __init__(s, tu, rng, dim, loads, goal=0, par=0):
        s.par = par; m = EModel(dim, rng); super().__init__(tu, rng, m, goal, 9)
        m.phys = {t: M.col([rng("point", t, k) for k in range(dim)]) for t in PTS}
        s.loads = {t: {"patch": I(PTS[t][0]), "parametric": I(PARAM[t]), "value": V(M.col([rng("load", t, k) for k in range(dim)])),
                       "point": V(M.col(list(PTS[t][1])) if PARAM[t] else m.phys[t])} for t in loads}
        s.members.update({"m_foundInd": I(0), "m_pressInd": I(0), "m_parametricForce": I(par)})
        s.members["m_pLoads"] = ("loads", tuple(loads))
    def small(s, x):
        v = int(x.base()); v = v - P if v > P // 2 else v
        if abs(v) > 64: raise AnalysisError("comparison of a general number at " + s.place())
        return v
    def x_op(s, x, st):
        if x["o"] in ("&&", "||") and x.get("ov"): return s.binop(x["o"], s.expr(x["a"][0], st), s.expr(x["a"][1], st), x)
        return super().x_op(x, st)
    def unop(s, o, a, x):
        if o == "!" and isM(a) and not a[1].isscal(): return V(a[1].map(lambda z: N.of(int(z.zero()))))
        return super().unop(o, a, x)
    def binop(s, o, a, b, x):
        if a[0] == "dit" and b[0] == "dit" and o in ("<", "!=", "==", ">", "<=", ">=", "-"):
            if a[1] != b[1]: raise DomainError("%s: iterators of different patches" % s.place())
            r = a[2] - b[2]; return I({"<": r < 0, "!=": r != 0, "==": r == 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0, "-": r}[o])
        if a[0] == "dit" and o in ("+", "-") and s.int_(b) is not None: return ("dit", a[1], a[2] + s.int_(b) * (1 if o == "+" else -1))
        if o in ("<", "<=", ">", ">=", "==", "!=", "&&", "||") and (isM(a) or isM(b)):
            p, q = lift(a), lift(b)
            if p is not None and q is not None and not (p.isscal() and q.isscal()):
                if p.isscal(): p = M(q.r, q.c, [p.a[0]] * (q.r * q.c))
                if q.isscal(): q = M(p.r, p.c, [q.a[0]] * (p.r * p.c))
                if (p.r, p.c) != (q.r, q.c): raise DomainError("%s: comparison of %dx%d with %dx%d" % (s.place(), p.r, p.c, q.r, q.c))
                f = {"<": lambda u, v: u < v, "<=": lambda u, v: u <= v, ">": lambda u, v: u > v, ">=": lambda u, v: u >= v, "==": lambda u, v: u == v, "!=": lambda u, v: u != v, "&&": lambda u, v: bool(u and v), "||": lambda u, v: bool(u or v)}[o]
                return V(M(p.r, p.c, [N.of(int(f(s.small(u), s.small(v)))) for u, v in zip(p.a, q.a)]))
            if p is not None and q is not None and o in ("<", "<=", ">", ">="):
                u, v = s.small(p.a[0]), s.small(q.a[0]); return I({"<": u < v, "<=": u <= v, ">": u > v, ">=": u >= v}[o])
        return super().binop(o, a, b, x)
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o is not None and isM(o) and n in ("any", "all"):
            r = [s.small(z) != 0 for z in o[1].a]; return I(any(r) if n == "any" else all(r))
        if o is not None and isM(o) and n == "array": return o
        if o is not None and o[0] == "mem" and o[1] == ("this",) and o[2] in ("m_assemblerL", "m_assemblerH"):
            if n in ("getBasis", "basis"): return ("basisset", False)
            if n == "materials": return ("materials", o[2][-1])
        if o is not None and o[0] == "materials":
            if n == "size": return I(s.model.NP)
            if n == "piece": return ("material", s.ii(args[0]))
        if o is not None and o[0] == "basis" and n == "domain": return ("dompatch", o[1])
        if o is not None and o[0] == "dompatch":
            if n == "beginAll": return ("dit", o[1], 0)
            if n == "endAll": return ("dit", o[1], len(BOX[o[1]]))
            if n == "numElements": return I(len(BOX[o[1]]))
        if o is not None and o[0] == "dit" and n in ("lowerCorner", "upperCorner"):
            if not 0 <= o[2] < len(BOX[o[1]]): raise Oob("%s: element iterator past the end" % s.place())
            return V(M.col(list(BOX[o[1]][o[2]][n == "upperCorner"])))
        if o is not None and o[0] == "mem" and o[2] == "m_bcs" and n == "get": return ("bcs", args[0])
        if o == PATCHES and n in ("patch", "piece"): return ("geom", s.ii(args[0]))
        if o is not None and o[0] == "sym" and n in ("patch", "piece"): return ("fieldpatch", o[1], s.ii(args[0]))
        if o is not None and o[0] == "fieldpatch":
            if n in ("eval_into", "eval"):
                pt = lift(args[0]); v = V(s.point(o[1], o[2], pt))
                return s.out(x, 1, v, st) if n == "eval_into" else v
            if n == "coefs": return ("coefsof", ("sym", o[1]), o[2])
        if o is not None and o[0] == "asm":
            if n == "getBdrFunction": return ("call", "getBdrFunction", None, args, ())
        if o is not None and o[0] == "ev":
            if n == "integralElWise": s.last = s.take("el", None, args[0]); return V(M.scal(s.rng("value", s.last)))
            if n == "elementwise":
                if getattr(s, "last", None) is None: raise DomainError("%s: no element-wise integral was computed" % s.place())
                return ("vec", tuple(V(M.scal(s.rng("element", s.last, i))) for i in range(len(ELS))))
            if n == "integralBdrBc": return V(M.scal(s.rng("value", s.take("bc", args[0], args[1]))))
            if n in ("options", "setSwitch", "setInt"): return ("opaque", n)
            if n == "writeParaview": return ("void",)
            if n == "integral": return V(M.scal(s.rng("value", s.take("dom", None, args[0]))))
        if o == ("opaque", "options"): return ("void",)
        if n == "add" and o is not None and args and s.strip(args[0])[0] == "material":
            k = s.lval(x["o"], st, True)
            if k is None or k[0] != "v": raise DomainError("%s: changes the materials of the assembler" % s.place())
            old = s.read(k, st); old = old[1] if old[0] == "own" else ()
            s.store(k, ("own", old + (s.strip(args[0])[1],)), st, x["l"]); return ("void",)
        if n == "homogenizeDirichlet": return ("void",)
        if n == "numLoads": return I(len(o[1]))
        if n == "empty" and o == ("sym", "filename"): return I(1)
        return super().leaf_(x, obj, args, st)
    def point(s, name, p, pt): return M.col([s.rng("field", name, p, s.model.key(pt), c) for c in range(s.model.d)])

FIELDS = {"dualL": "zL", "dualH": "zH", "primal": "up", "other": "z"}
class DenE(Den):
    """coefficients that are fields of the space; material tensors per configuration"""
    def __init__(s, c, kind):
        super().__init__(c, kind)
    def ev_(s, t, T, S):
        if isM(t): return t[1]
        if t[0] == "sym" and t[1].startswith("ev"): return M.scal(s.x.rng("eigenvalue", t[1]))
        f = s.x.fields(t)
        if f: return s.x.fjet(f, "left")["val"]
        return super().ev_(t, T, S)
    def f_getCoeff(s, t, o, a, T, S):
        f = s.x.fields(t)
        if f: return s.x.fjet(f, "left")["val"]
        b = a[0]
        while b[0] in ("addr", "deref"): b = b[1]
        if b == ("mem", ("this",), "m_forceFun"):
            if len(a) > 1 and s.mapof(a[1]) != ("ori", "left"): raise DomainError("the body force is not evaluated on the undeformed geometry")
            return force(s.x, len(a) < 2)
        return super().f_getCoeff(t, o, a, T, S)
    def f_getBdrFunction(s, t, o, a, T, S):
        if len(a) < 1 or s.mapof(a[0]) != ("ori", "left"): raise DomainError("the boundary force is not evaluated on the undeformed geometry")
        return M.col([s.x.rng("neumann", k) for k in range(s.x.dim)])
    def f_var2(s, t, o, a, T, S):
        if len(a) == 3: return s._var2(a[0], a[1], a[2], T, S)        # of two fields: a column
        return super().f_var2(t, o, a, T, S)
    def material(s, ty, ca, rest, f):
        out = re.search(r"MaterialOutput::(\w+)", ty)
        if not out or "gsMaterialMatrixIntegrate" not in ty: raise Unsupported("material output of " + ty)
        strip = lambda z: strip(z[1]) if z[0] in ("addr", "deref") else z
        geo = [s.x.cfgof(strip(z)) for z in ca[1:]]; out = out.group(1)
        c = strip(ca[0])
        if c[0] == "own" and c[1] != tuple(range(Model.NP)): raise DomainError("the materials are those of patches %s" % (c[1],))
        if geo not in (["def"], ["ori"], ["ori", "def"]): raise DomainError("%s is evaluated on %s" % (out, geo))
        return tensor(s.x, out, geo[-1])
def tensor(x, out, g):
    if out in ("MatrixA", "MatrixB", "MatrixC", "MatrixD"): return x.rng.sym(3, "mat", {"MatrixC": "B"}.get(out, out[-1]), g).reshape(9, 1)
    if out in ("VectorN", "VectorM"): return x.rng.vec(3, out, g) if g == "def" else M.zero(3, 1)
    if out == "Density": return M.scal(x.rng("density"))
    raise Unsupported("material output " + out)
def force(c, par): return M.col([c.rng("parametric force" if par else "force", k) for k in range(c.dim)])

def cfg(t):
    while t[0] in ("addr", "deref"): t = t[1]
    if t == PATCHES: return "ori"
    if t == ("sym", "deformed"): return "def"
    return show(t)
def fields(t):
    if t[0] == "call" and t[1] == "getCoeff" and t[3]:
        b = t[3][0]
        while b[0] in ("addr", "deref"): b = b[1]
        if b[0] == "sym" and b[1] in FIELDS: return FIELDS[b[1]]
    return None

def context(seed, dim, par=0):
    c = Ctx(seed, dim, cfg, fields=fields); c.dirfun = None; c.par = par
    a, b = c.fjet("zH", "left"), c.fjet("zL", "left")
    c.jc[("z", "left")] = a.plus(b, N.of(-1))
    return c

# ------------------------------------------------------------------------------------------------ the definitions
def strains(c, g, fn, bend):
    """first variation of membrane and bending strain of the configuration g in direction fn (Voigt, shear doubled)"""
    j, h = c.map_jet(g, "left"), c.fjet(fn, "left")
    em = M.col([j["d1"].dot(h["d1"]), j["d2"].dot(h["d2"]), j["d1"].dot(h["d2"]) + j["d2"].dot(h["d1"])])
    if not bend: return em, M.zero(3, 1)
    n = unormal(j); dn = unormal(j.plus(h, eps(E1))).map(lambda x: x.coef(E1))
    q = [h[z].dot(n) + j[z].dot(dn) for z in ("d11", "d22", "d12")]
    return em, M.col([-q[0], -q[1], -(q[2] * 2)])
def second(c, g, f1, f2):
    """second variation of both strains in the directions f1, f2"""
    j, h, k = c.map_jet(g, "left"), c.fjet(f1, "left"), c.fjet(f2, "left")
    em = M.col([h["d1"].dot(k["d1"]), h["d2"].dot(k["d2"]), h["d1"].dot(k["d2"]) + h["d2"].dot(k["d1"])])
    v = j.plus(h, eps(E1)).plus(k, eps(E2)); n = unormal(v)
    q = [n.dot(v[z]).coef(E1).coef(E2) for z in ("d11", "d22", "d12")]
    return em, M.col([-q[0], -q[1], -(q[2] * 2)])
def stiff(c, g, f1, f2, geometric):
    A, B, D = (tensor(c, "Matrix" + k, g).reshape(3, 3) for k in "ABD")
    m1, b1 = strains(c, g, f1, True); m2, b2 = strains(c, g, f2, True)
    r = m1.dot(A * m2 + B * b2) + b1.dot(B * m2 + D * b2)
    if geometric:
        m, b = second(c, g, f1, f2); r = r + m.dot(tensor(c, "VectorN", g)) + b.dot(tensor(c, "VectorM", g))
    return r
def meas(c):
    j = c.map_jet("ori", "left")
    return j.jac().det() if c.dim == 2 else normal(j).norm2().sqrt()
def residual(c, dim, bend, nl):
    d = DenE(c, "dom"); z = c.fjet("z", "left")["val"]
    r = z.dot(force(c, c.par))
    if nl:
        em, ef = strains(c, "def", "z", bend); r = r - em.dot(tensor(c, "VectorN", "def"))
        if bend: r = r - ef.dot(tensor(c, "VectorM", "def"))
    return r
def modal(c):
    u, z = c.fjet("up", "left")["val"], c.fjet("z", "left")["val"]; rho = tensor(c, "Density", "ori").a[0]
    lam, dl = ev(c, "evPrimalL"), ev(c, "evDualH") - ev(c, "evDualL")
    return stiff(c, "ori", "up", "z", False) - lam * rho * u.dot(z) + dl * rho * u.dot(u)
def buckling(c):
    lam, dl = ev(c, "evPrimalL"), ev(c, "evDualH") - ev(c, "evDualL")
    geo = lambda a, b: stiff(c, "def", a, b, True) - stiff(c, "ori", a, b, False)
    return stiff(c, "ori", "up", "z", False) - lam * geo("up", "z") + dl * geo("up", "up")
def ev(c, n): return c.rng("eigenvalue", n)

# ------------------------------------------------------------------------------------------------ the code
def interpret(tu, f, rng, dim, loads, withloads, goal=0, par=0):
    w = EstWalker(tu, rng, dim, loads, goal, par); args = []
    geo = [p["n"] for p in f["p"] if "gsMultiPatch" in p["t"]]
    order = ["dualL", "dualH"] + {2: [], 3: ["deformed"], 4: ["primal", "deformed"]}[len(geo)] if "Eig" not in f["n"] else ["dualL", "dualH", "primal"] + (["deformed"] if len(geo) == 4 else [])
    if f["n"] == "matrixNorm": order = ["primal", "other", "deformed"]
    evs = ["evPrimalL", "evDualL", "evDualH"]; nb = 0
    for p in f["p"]:
        t = p["t"].replace("const ", "").strip()
        if "gsMultiPatch" in t: args.append(("sym", order.pop(0)))
        elif t.startswith(("double", "T", "real_t", "long double")): args.append(V(M.scal(rng("evs", evs[0])))); evs.pop(0)
        elif t == "bool": args.append(I(withloads if nb == 0 and "Eig" not in f["n"] else 0)); nb += 1
        elif "string" in t: args.append(("sym", "filename"))
        else: args.append(I(1000))
    rets = [(st, v) for st, v in w.run(f, args) if feasible(st.guards)]
    if len(rets) != 1: raise DomainError("raises an error" if not rets else "%d exits" % len(rets))
    return (w,) + rets[0]

def scal(v, what):
    m = lift(unwrap(v)) if v is not None else None
    if m is None or len(m.a) != 1: raise AnalysisError("%s was not followed: %s" % (what, show(v)[:120] if v else v))
    return m.a[0]

def loadvalue(w, t):
    p, q = PTS[t]; pt = M.col(list(q))
    return (w.point("dualH", p, pt) - w.point("dualL", p, pt)).dot(w.loads[t]["value"][1])

def density(w, i, dim, seed, want, kind="dom", evsym=None):
    """does record i integrate what it should, with the measure of the undeformed geometry"""
    for sd in range(12):
        try:
            c = context((seed, sd), dim, w.par)
            d = DenE(c, kind); e = subst(w.rec[i][2], {w.rng("evs", n).base(): ev(c, n) for n in ("evPrimalL", "evDualL", "evDualH")})
            v = d.ev(e, "v", "0")
            if not v.isscal(): raise DomainError("the integrand is %dx%d" % (v.r, v.c))
            x = want(c); break
        except Retry: continue
    else: raise AnalysisError("no sample")
    return (v.a[0] - x).zero()
def subst(t, mp):
    if isM(t):
        if t[1].isscal() and mp:
            return V(M.scal(lin(t[1].a[0], mp)))
        return t
    if isinstance(t, tuple): return tuple(subst(u, mp) for u in t)
    return t
def lin(x, mp):
    if x.base() in mp: return mp[x.base()]
    ks = list(mp); 
    for a in ks:
        for b in ks:
            if a != b and N.of(a) - N.of(b) == x: return mp[a] - mp[b]
    return x

FAMS = {("3", "true"): "shell", ("3", "false"): "membrane", ("2", "false"): "planar"}
def find(tu, name, fam, ngeo):
    fs = [f for f in tu.functions if f["n"] == name and f.get("cls") == CLS and tuple(f["cargs"][i] for i in (0, 2)) == fam and f.get("body") and sum("gsMultiPatch" in p["t"] for p in f["p"]) == ngeo]
    if len(fs) != 1: raise AnalysisError("%d functions %s of %s" % (len(fs), name, fam))
    return fs[0]
NEUMANN = ("bcs", ("str", "Neumann"))

def check(tu, f, fam, nl, elementwise, squared, loads, withloads, seed, par=0):
    dim = int(fam[0]); bend = fam == ("3", "true"); what = "error"
    def go(rng):
        w, st, v = interpret(tu, f, rng, dim, loads, withloads, par=par)
        err = scal(w.read(("m", ("this",), "m_error"), st), "the error")
        dens = lambda c: (lambda r: r * r if squared else r)(residual(c, dim, bend, nl)) * meas(c)
        doms = [i for i, r in enumerate(w.rec) if r[0] == ("el" if elementwise else "dom")]
        bcs = [i for i, r in enumerate(w.rec) if r[0] == "bc"]
        rest = [i for i in range(len(w.rec)) if i not in doms + bcs]
        if rest: return "%s: an integral of another kind" % w.rec[rest[0]][3]
        if len(doms) != 1: return "%d domain integrals" % len(doms)
        if not density(w, doms[0], dim, seed, dens): return "%s: the integrand is not the %sresidual of the problem in the direction of the difference of the dual solutions" % (w.rec[doms[0]][3], "square of the " if squared else "")
        P_ = N.of(0)
        for t in loads if withloads else (): P_ = P_ + loadvalue(w, t)
        exp = rng("value", doms[0]) + P_
        if not squared and not elementwise:
            for i in bcs:
                if unwrap(w.rec[i][1]) != NEUMANN: return "%s: integrates over %s" % (w.rec[i][3], show(w.rec[i][1])[:60])
                if not density(w, i, dim, seed, lambda c: c.fjet("z", "left")["val"].dot(M.col([c.rng("neumann", k) for k in range(dim)])) * tang(c), "bdr"): return "%s: the boundary integrand is not the work of the boundary force" % w.rec[i][3]
            if withloads and len(bcs) != 1: return "%d integrals over the Neumann boundaries" % len(bcs)
        for i in bcs:                         # without loads whether the Neumann boundary counts is left open
            exp = exp + rng("value", i) if (err - exp - rng("value", i)).zero() or (withloads and not squared) else exp
        if not (err - exp).zero():
            if (err - exp + P_).zero() or not loads: return "the error is not the sum of its integrals"
            return "the error is not the sum of its integrals and the work of the point loads"
        if not elementwise:
            if not (scal(v, "the result") - err).zero(): return "returns something else than error()"
            return None
        el = w.read(("m", ("this",), "m_errors"), st)
        if w.seq(el) is None or w.seq(unwrap(v)) is None: raise AnalysisError("the errors of the elements were not followed: %s" % show(el)[:100])
        if len(w.seq(el)) != len(ELS): return "%d values for %d elements" % (len(w.seq(el)), len(ELS))
        if w.seq(unwrap(v)) != w.seq(el): return "returns something else than errors()"
        own = []
        for i, e in enumerate(w.seq(el)):
            own.append(scal(e, "the error of an element") - rng("element", doms[0], i))
        tot = N.of(0)
        for x in own: tot = tot + x
        if not (tot - P_).zero(): return "the elements do not share the whole work of the point loads"
        for i, (p, k) in enumerate(ELS):
            if not own[i].zero() and not any(PTS[t][0] == p and inside(BOX[p][k], PTS[t][1]) for t in loads): return "element %d of patch %d takes part of a load that does not act on it" % (k, p)
        return None
    return retrying(go, seed)
def tang(c):
    j = c.map_jet("ori", "left"); t = c.tau("left")
    return (j["d1"].scale(t[0]) + j["d2"].scale(t[1])).norm2().sqrt()

def check_eig(tu, f, elementwise, seed):
    def go(rng):
        w, st, v = interpret(tu, f, rng, 3, (), 0)
        err = scal(w.read(("m", ("this",), "m_error"), st), "the error")
        if len(w.rec) != 1 or w.rec[0][0] != ("el" if elementwise else "dom"): return "%d integrals" % len(w.rec)
        want = buckling if sum("gsMultiPatch" in p["t"] for p in f["p"]) == 4 else modal
        if not density(w, 0, 3, seed, lambda c: want(c) * meas(c)): return "%s: the integrand is not K(u,z) - lambda B(u,z) + (lambda_H - lambda_L) B(u,u) with z the difference of the dual solutions" % w.rec[0][3]
        if not (err - rng("value", 0) + rng("evs", "evDualH") - rng("evs", "evDualL")).zero(): return "the error is not the integral minus the difference of the eigenvalues"
        if not elementwise:
            return None if (scal(v, "the result") - err).zero() else "returns something else than error()"
        for e in w.seq(w.read(("m", ("this",), "m_errors"), st)), w.seq(unwrap(v)):
            if e is None or len(e) != len(ELS): return "the errors of the elements are not returned"
            for i, x in enumerate(e):
                if not (scal(x, "error of an element") - rng("element", 0, i)).zero(): return "element %d does not have its own integral" % i
        return None
    return retrying(go, seed)

def check_norm(tu, f, buckles, seed):
    def geo(c): return stiff(c, "def", "up", "z", True) - stiff(c, "ori", "up", "z", False)
    def mass(c): return tensor(c, "Density", "ori").a[0] * c.fjet("up", "left")["val"].dot(c.fjet("z", "left")["val"])
    def go(rng):
        w, st, v = interpret(tu, f, rng, 3, (), 0, dict(goals(tu))["Buckling" if buckles else "Modal"])
        if len(w.rec) != 1 or w.rec[0][0] != "dom": return "%d integrals" % len(w.rec)
        if not density(w, 0, 3, seed, lambda c: (geo if buckles else mass)(c) * meas(c)): return "%s: the integrand is not that of the %s of the two fields" % (w.rec[0][3], "geometric stiffness (tangent on the deformed minus that on the undeformed geometry)" if buckles else "mass matrix")
        return None if (scal(v, "the result") - rng("value", 0)).zero() else "returns something else than its integral"
    return retrying(go, seed)

def s30(tier, seed):
    res = Result("S30", "the estimate, recovered by dataflow from every public entry point, == residual (or eigenvalue defect) in the direction zH - zL, as rational functions of the jets; point loads are interpreted on a model of two patches with edges and corners", 60)
    tu = facts.load(DWR_TU)
    def ob(key, f, fn):
        res.count("identity tests")
        try: c = fn()
        except (DomainError, Oob) as e: c = str(e)
        res.ob(key, where(f), not c, c)
    for fam, name in FAMS.items():
        for nl in (0, 1):
            for el in (0, 1):
                for sq in (0, 1):
                    f = find(tu, "compute%sError%s" % ("Squared" if sq else "", "Elements" if el else ""), fam, 2 + nl)
                    for loads, wl in (((), 1), ((), 0)) if sq else (((), 1), (("A",), 1), (("B",), 1), (("C",), 1), (("D",), 1), (("E",), 1), (("F",), 1), (("G",), 1), (("B", "C"), 1), (("D", "A", "C"), 1), (("A", "B"), 0)):
                        key = "%s %s %s%s, %s, loads %s" % (name, "nonlinear" if nl else "linear", "squared " if sq else "", "element errors" if el else "error", "with loads" if wl else "without loads", ",".join(loads) or "none")
                        ob(key, f, lambda: check(tu, f, fam, nl, el, sq, loads, wl, seed))
                    key = "%s %s %s%s, force given in the parametric domain" % (name, "nonlinear" if nl else "linear", "squared " if sq else "", "element errors" if el else "error")
                    ob(key, f, lambda: check(tu, f, fam, nl, el, sq, (), 1, seed, 1))
    for ng, nm in ((3, "modal"), (4, "buckling")):
        for el in (0, 1):
            f = find(tu, "computeErrorEig" + ("Elements" if el else ""), ("3", "true"), ng)
            ob("%s eigenvalue %s" % (nm, "element errors" if el else "error"), f, lambda: check_eig(tu, f, el, seed))
    for ng, nm in ((2, "modal"), (3, "buckling")):
        f = find(tu, "matrixNorm", ("3", "true"), ng)
        ob("%s matrix norm" % nm, f, lambda: check_norm(tu, f, ng == 3, seed))
    res.assume("the estimate is that of problems without pressure and elastic foundation", "element-wise and squared estimates are those of problems without Neumann conditions")
    return res
RULES = {"S30": s30}

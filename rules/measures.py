"""Reported measures: area, displacement norm, energy, interface errors, principal stretches and stresses."""
import re
from fractions import Fraction
import flow, wf
from facts import AnalysisError, where
from flow import I, show, subterms
from field import N, M, Retry, DomainError
from matdom import V, isM, Oob, lift
from denote import Ctx, Den, Unsupported, E1, eps, unormal, normal
from protocol import SeqMixin, DofWalker, Model, retrying, feasible
from weakform import FAM, NAME, tu, seeds
from report import Result
THIS = ("this",)
ASM = ("mem", THIS, "m_assembler")
PATCHES = ("mem", THIS, "m_patches")
HALF = N.of(Fraction(1, 2))

def unwrap(t):
    while t[0] in ("addr", "deref") or (t[0] == "ctor" and len(t[2]) == 1): t = t[1] if t[0] != "ctor" else t[2][0]
    return t

class MW(SeqMixin, DofWalker):
    """one evaluator: what it integrates or evaluates, and what becomes of the value"""
    def __init__(s, tu, rng, d):
        super().__init__(tu, rng, Model(d, rng), inline=lambda f: (f.get("cls") or "").startswith("gismo::gsThinShellAssembler") and f["n"] not in ("_getOptions", "_initialize"))
        s.rec = []; s.cur = None; s.sq = {}
    def decl(s, v, st):
        super().decl(v, st)
        if "gsExprEvaluator<" in v["t"]: st.env[v["i"]] = ("ev",); s.cur = None
    def val(s, i): return V(M.scal(s.rng("value", i)))
    def take(s, kind, dom, e): s.rec.append((kind, dom, e, s.place())); s.cur = s.val(len(s.rec) - 1); return s.cur
    def root(s, v):
        """square roots are symbols that know their square"""
        m = lift(v)
        if m is None or not m.isscal(): raise AnalysisError("%s: root of %s" % (s.place(), show(v)[:60]))
        r = s.rng("root", str(m.a[0].base())); s.sq[r.base()] = m.a[0]; return V(M.scal(r))
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o == ASM:
            if n in ("getMap", "getCoeff"): return ("call", n, None, args, ())
            if n in ("cleanUp", "setOptions", "setIntegrationElements"): return ("void",)
            raise AnalysisError("%s: %s of the assembler not understood" % (s.place(), n))
        if o is not None and o[0] == "mem" and o[2] == "m_options": return I(1) if n == "hasGroup" else ("opaque", n)
        if n in ("_getOptions", "_initialize"): return ("void",)
        if o == PATCHES and n in ("interfaces", "topology"): return ("allinterfaces",) if n == "interfaces" else PATCHES
        if o == ("ev",):
            if n == "integral": return s.take("int", None, args[0])
            if n in ("integralInterface", "maxInterface"): return s.take(n, args[1] if len(args) > 1 else ("own",), args[0])
            if n == "calcSqrt":
                if s.cur is None: raise DomainError("%s: nothing was computed" % s.place())
                s.cur = s.root(s.cur); return ("void",)
            if n == "value":
                if s.cur is None: raise DomainError("%s: nothing was computed" % s.place())
                return s.cur
            if n == "eval":
                pt = lift(args[1])
                if pt is None: raise AnalysisError("%s: point not understood" % s.place())
                if len(args) > 2 and s.int_(args[2]) != 0: raise DomainError("%s: a point of patch %s is evaluated" % (s.place(), show(args[2])))
                return V(s.output(args[0], pt))
            if n in ("options",): return ("opaque", n)
        if o is None and n in ("pow", "sqrt") and (n == "sqrt" or args[1] in (("num", Fraction(1, 2)),) or isM(args[1]) and args[1][1].isscal() and (args[1][1].a[0] - HALF).zero()): return s.root(args[0])
        return super().leaf_(x, obj, args, st)
    def output(s, e, pt):
        t = unwrap(e)
        if t[0] == "call" and t[1] == "getCoeff": t = unwrap(t[3][0]) if t[3][0][0] != "ctor" else t[3][0]
        if t[0] != "ctor" or "gsMaterialMatrixEval" not in t[1]: raise AnalysisError("%s: evaluates %s" % (s.place(), show(e)[:80]))
        out = re.search(r"MaterialOutput::(\w+)", t[1]).group(1); a = [unwrap(y) for y in t[2]]
        geo = [show(g) for g in a[1:-1]]; z = lift(a[-1])
        if z is None: raise AnalysisError("%s: height not understood" % s.place())
        if not z.isscal(): raise DomainError("%s: evaluated at %dx%d heights" % (s.place(), z.r, z.c))
        key = ("out", out, show(a[0]), tuple(geo), str(z.a[0].base()), s.model.key(pt))
        return M.col([s.rng(key, k) for k in range(3 if "Stretch" in out else 2)])

def cfg(t):
    t = unwrap(t)
    if t == PATCHES: return "ori"
    if t[0] == "sym": return "def"
    return show(t)
class DenM(Den):
    def f_fform(s, t, o, a, T, S): j = s.jet(a[0], T, S).jac(); return j.T() * j
    def f_fform2nd(s, t, o, a, T, S):
        j = s.jet(a[0], T, S); n = unormal(j); q = [n.dot(j[k]) for k in ("d11", "d22", "d12")]
        return M(2, 2, [q[0], q[2], q[2], q[1]])
    def f_shapeop(s, t, o, a, T, S): return s.f_fform(t, o, a, T, S).inverse() * s.f_fform2nd(t, o, a, T, S)
    def u_abs(s, x): return M.scal((x.a[0] * x.a[0]).sqrt())      # the root is a canonical one, so that a missing abs shows
    def u_sqr(s, x): return x * x
    def call(s, t, T, S):
        if t[1] == "pow" and len(t[3]) == 2 and t[3][1] == I(2): x = s.ev(t[3][0], T, S); return x * x
        return super().call(t, T, S)

def meas(c, g, kind="dom"): return DenM(c, kind).f_meas(None, None, (("call", "getMap", None, (("sym", "x") if g == "def" else PATCHES,), ()),), "v", "w").a[0]
def ujet(c): return c.fjet("def", "left").plus(c.fjet("ori", "left"), N.of(-1))
def energy(c, d):
    """half of the work of the stress resultants on the variation of the strains in direction of the displacement"""
    j, u = c.map_jet("def", "left"), ujet(c)
    em = M.col([j["d1"].dot(u["d1"]), j["d2"].dot(u["d2"]), j["d1"].dot(u["d2"]) + j["d2"].dot(u["d1"])])
    r = em.dot(tensor(c, "VectorN"))
    if d == 3:
        n = unormal(j); dn = unormal(j.plus(u, eps(E1))).map(lambda x: x.coef(E1))
        q = [u[z].dot(n) + j[z].dot(dn) for z in ("d11", "d22", "d12")]
        r = r + M.col([-q[0], -q[1], -(q[2] * 2)]).dot(tensor(c, "VectorM"))
    return r * HALF
def tensor(c, out): return c.rng.vec(3, "resultant", out)
class DenE(DenM):
    def f_getCoeff(s, t, o, a, T, S):
        x = a[0]
        while x[0] in ("addr", "deref"): x = x[1]
        out = re.search(r"MaterialOutput::(VectorN|VectorM)", x[1]) if x[0] == "ctor" else None
        if out: return tensor(s.x, out.group(1))
        return super().f_getCoeff(t, o, a, T, S)

def same(w, i, want, d, seed, kind="dom", samples=1):
    """is integrand i one of the wanted functions"""
    n = 0
    for k in range(60):
        try:
            c = Ctx("%s/%d" % (seed, k), d, cfg); c.dirfun = None
            v = DenE(c, kind).ev(w.rec[i][2], "v", "0")
            if not v.isscal(): raise DomainError("%s: the integrand is %dx%d" % (w.rec[i][3], v.r, v.c))
            if not any((v.a[0] - y).zero() for y in want(c)): return False
            n += 1
            if n == samples: return True
        except Retry: continue
    raise AnalysisError("no sample")

def one(t, name, fam, n):
    r = [f for f in t.functions if f.get("cls") == "gismo::gsThinShellAssembler" and f["n"] == name and f.get("cargs") == [fam[0], "double", fam[1]] and f.get("body") and len(f["p"]) == n and f["acc"] == "public"]
    if len(r) != 1: raise AnalysisError("%s of %s: %d definitions" % (name, NAME[fam], len(r)))
    return r[0]
def run(t, f, d, rng, args):
    w = MW(t, rng, d); r = [(st, v) for st, v in w.run(f, args) if feasible(st.guards)]
    if len(r) != 1: raise DomainError("raises an error" if not r else "%d exits" % len(r))
    return w, r[0][1]
def scal(w, v):
    m = lift(unwrap(v)) if v is not None else None
    if m is None or not m.isscal(): raise AnalysisError("the result was not followed: %s" % (show(v)[:100] if v else v))
    return m.a[0]
def square(w, x): return w.sq.get(x.base(), x * x)

def area(t, f, d, seed, rng):
    w, v = run(t, f, d, rng, [("sym", "geometry")])
    if len(w.rec) != 1 or w.rec[0][0] != "int": return "%d integrals" % len(w.rec)
    if not same(w, 0, lambda c: [meas(c, "def")], d, seed): return "%s: the integrand is not the area element of the geometry" % w.rec[0][3]
    return None if (scal(w, v) - rng("value", 0)).zero() else "returns something else than the area"
def norm(t, f, d, seed, rng):
    w, v = run(t, f, d, rng, [("sym", "deformed")])
    if any(r[0] != "int" for r in w.rec): return "an integral of another kind"
    x = square(w, scal(w, v)); uu = lambda c: ujet(c)["val"].norm2()
    # the area elements of the two configurations are both accepted: the documentation does not tell them apart
    q = [i for i in range(len(w.rec)) if same(w, i, lambda c: [uu(c) * meas(c, g) for g in ("ori", "def")], d, seed)]
    a = [i for i in range(len(w.rec)) if same(w, i, lambda c: [meas(c, g) for g in ("ori", "def")], d, seed)]
    for i in q:
        for j in a:
            if (x * rng("value", j) - rng("value", i)).zero(): return None
    return "the result is not the root of the integral of the squared displacement divided by the area"
def elastic(t, f, d, seed, rng):
    w, v = run(t, f, d, rng, [("sym", "deformed")])
    if len(w.rec) != 1: return "%d integrals" % len(w.rec)
    bend = f["cargs"][2] == "true"
    if not same(w, 0, lambda c: [energy(c, d if bend else 2) * meas(c, "ori")], d, seed): return "%s: the integrand is not half the work of the stress resultants on the strains of the displacement" % w.rec[0][3]
    return None if (scal(w, v) - rng("value", 0)).zero() else "returns something else than its integral"

def sides(c, fn): return fn(c.map_jet("def", "left")), fn(c.map_jet("def", "right"))
def shape(j):
    n = unormal(j); q = [n.dot(j[k]) for k in ("d11", "d22", "d12")]; J = j.jac()
    return (J.T() * J).inverse() * M(2, 2, [q[0], q[2], q[2], q[1]])
def vecjump(fn): return lambda c: (lambda p: (p[0] - p[1]).norm2())(sides(c, fn))
def numjump(fn): return lambda c: (lambda p: (p[0] - p[1]) * (p[0] - p[1]))(sides(c, fn))
IFC = {"interfaceErrorC0": (vecjump(lambda j: j["val"]), "integralInterface", 2), "interfaceErrorG1": (vecjump(unormal), "integralInterface", 3), "interfaceErrorNormal": (vecjump(unormal), "maxInterface", 3),
       "interfaceErrorGaussCurvature": (numjump(lambda j: shape(j).det()), "maxInterface", 3), "interfaceErrorMeanCurvature": (numjump(lambda j: shape(j).trace()), "maxInterface", 3)}
def interface(t, f, d, seed, rng):
    jump, kind, _ = IFC[f["n"]]; given = len(f["p"]) == 2
    w, v = run(t, f, d, rng, [("sym", "deformed"), ("sym", "given interfaces")][:len(f["p"])])
    if len(w.rec) != 1 or w.rec[0][0] != kind: return "%s instead of one %s" % (", ".join(r[0] for r in w.rec) or "nothing", kind)
    dom = unwrap(w.rec[0][1])
    if dom != (("sym", "given interfaces") if given else ("allinterfaces",)): return "%s: taken over %s" % (w.rec[0][3], show(dom)[:60])
    x = scal(w, v)
    if kind == "integralInterface":
        want = lambda c: [jump(c)] + [jump(c) * meas(c, g, "bdr") for g in ("def", "ori")]      # per parameter or per length
        if not same(w, 0, want, d, seed, "ifc"): return "%s: the integrand is not the square of the jump" % w.rec[0][3]
        return None if (square(w, x) - rng("value", 0)).zero() else "returns something else than the root of the integral"
    q = HALF * HALF if "Mean" in f["n"] else N.of(1)
    if not same(w, 0, lambda c: [jump(c).sqrt(), (jump(c) * q).sqrt()], d, seed, "ifc", 4): return "%s: not the absolute value of the jump" % w.rec[0][3]
    return None if (x - rng("value", 0)).zero() else "returns something else than the maximum"

def principal(t, f, d, seed, rng):
    out = "Stretch" if f["n"].endswith("Stretches") else "PStress"; n = 3 if out == "Stretch" else 2
    u = rng.mat(2, 3, "points"); z = rng("height")
    w, v = run(t, f, d, rng, [V(u), ("sym", "deformed"), V(M.scal(z))])
    m = lift(unwrap(v)) if v is not None else None
    if m is None: raise AnalysisError("the result was not followed: %s" % (show(v)[:100] if v else v))
    if (m.r, m.c) != (n, 3): return "the result for 3 points is %dx%d instead of %dx3" % (m.r, m.c, n)
    for k in range(3):
        pt = M.col([u[0, k], u[1, k]]); ok = False
        for geo in (("sym(deformed)",), ("m_patches", "sym(deformed)")):
            key = ("out", out, "m_materialMatrices", geo, str(z.base()), w.model.key(pt))
            ok = ok or all((m[i, k] - rng(key, i)).zero() for i in range(n))
        if not ok: return "column %d is not the %s of the deformed geometry in point %d at the given height" % (k, out, k)
    return None

def s32(tier, seed):
    res = Result("S32", "each measure is recovered by dataflow: the integrand as a rational function of the jets of both configurations (both sides of an interface), the set it is integrated over, and the value returned", 30)
    t = tu()
    def ob(key, f, fn, d):
        for sd in seeds(tier, seed):
            res.count("identity tests")
            try: c = retrying(lambda rng: fn(t, f, d, (seed, sd), rng), sd)
            except (DomainError, Oob) as e: c = str(e)
            if c: break
        res.ob(key, where(f), not c, c)
    for fam in FAM:
        d = int(fam[0]); nm = NAME[fam]
        for name, fn, n in (("getArea", area, 1), ("getDisplacementNorm", norm, 1), ("getElasticEnergy", elastic, 1)):
            f = one(t, name, fam, n); res.count("functions"); ob("%s %s" % (nm, name), f, fn, d)
        for name in IFC:
            if d < IFC[name][2]: continue
            for n in (1, 2):
                f = one(t, name, fam, n); res.count("functions"); ob("%s %s%s" % (nm, name, " of given interfaces" if n == 2 else ""), f, interface, d)
        for name in ("computePrincipalStretches", "computePrincipalStresses"):
            f = one(t, name, fam, 3); res.count("functions"); ob("%s %s" % (nm, name), f, principal, d)
    res.assume("gsExprEvaluator integrates, maximises and evaluates the expression it is given", "fform and fform2nd are the fundamental forms")
    return res
RULES = {"S32": s32}

"""Denotation of weak-form expression terms.

Each expression term is mapped to a small matrix over field.N as a function of a
test function v, a trial function w and the 2-jets of the undeformed and the
deformed surface at one point.  The deformed surface carries an infinitesimal
e0*dw, so the coefficient of e0 is the exact Gateaux derivative.  The meaning of
each expression name is its mathematical definition (normal variations are
*defined* as derivatives of the normal); that the expression classes implement
these definitions is a separate property."""
import re
from fractions import Fraction
from field import N, M, Rng, eps, Retry, DomainError, P, isqr
from facts import AnalysisError
from flow import show, I

E0, E1, E2 = 0, 1, 2     # infinitesimals: configuration, first and second variation

class Unsupported(AnalysisError): pass

ORDER = ("val", "d1", "d2", "d11", "d22", "d12")

class Jet:
    def __init__(s, d): s.d = d
    def __getitem__(s, k): return s.d[k]
    def plus(s, o, k): return Jet({q: s.d[q] + o.d[q].scale(k) for q in ORDER})
    def jac(s):
        a, b = s.d["d1"], s.d["d2"]
        return M(a.r, 2, [x for i in range(a.r) for x in (a.a[i], b.a[i])])

def normal(j): return j["d1"].cross(j["d2"])
def unormal(j): return normal(j).normalized()

class Ctx:
    """one sample: random jets, functions and material tangents"""
    def __init__(s, seed, dim, cfgof, undeformed=False, alias=None, fields=None):
        s.rng = Rng(seed); s.dim = dim; s.cfgof = cfgof; s.undef = undeformed
        s.jc = {}; s.used = set(); s.dirfun = "w"; s.where = "dom"
        s.alias = alias or {}
        s.fields = fields
        s.asg = None; s.holds = None
        s.nobend = False            # membrane: no coupling of the forces to the curvature
        s.zerofun = None            # predicate on coefficient names that are zero
        s.override = {}             # (output, def cfg) -> function(den) giving its value
        s.planar = False            # all jets lie in the plane z=0
    def fjet(s, name, side):
        k = (name, side)
        if k not in s.jc:
            if name == "0": s.jc[k] = Jet({q: M.zero(s.dim, 1) for q in ORDER}); return s.jc[k]
            if name.startswith("one:"):   # the constant function: every derivative vanishes
                z = {q: M.zero(s.dim, 1) for q in ORDER}; z["val"] = s.rng.vec(s.dim, "jet", name, side)
                s.jc[k] = Jet(z); return s.jc[k]
            for salt in range(1000):
                j = Jet({q: s.rng.vec(s.dim, "jet", name, side, q, salt) for q in ORDER})
                if s.planar and s.dim == 3:
                    for q in ORDER: j.d[q] = M.col([j.d[q].a[0], j.d[q].a[1], 0])
                tau = s.tau(side)
                tv = j["d1"].scale(tau[0]) + j["d2"].scale(tau[1])
                if not isqr(tv.norm2().base()): continue
                if s.dim == 3 and not isqr(normal(j).norm2().base()): continue
                if s.dim == 2 or s.planar:
                    if not isqr((j["d1"].a[0] * j["d2"].a[1] - j["d1"].a[1] * j["d2"].a[0]).base()): continue
                break
            s.jc[k] = j
        return s.jc[k]
    def map_jet(s, cfg, side):
        if cfg == "ori" or (cfg == "def" and s.undef == "frozen"):
            return s.fjet("ori", side)
        if cfg == "def":
            b = s.fjet("ori" if s.undef else "def", side)
            if s.dirfun is None: return b
            return b.plus(s.fjet(s.dirfun, side), eps(E0))
        return s.fjet(cfg, side)
    def tau(s, side): return [s.rng("tau", side, 0), s.rng("tau", side, 1)]

class Den:
    def __init__(s, ctx, kind="dom"):
        s.x = ctx; s.kind = kind; s.n = 0; s.memo = {}

    # ---- recognisers
    def mapof(s, t):
        """(cfg, side) if t denotes a geometry map"""
        if t[0] == "call" and t[1] == "getMap": return (s.x.cfgof(t[3][0]), "left")
        if t[0] == "call" and t[1] in ("left", "right") and t[2] is not None:
            m = s.mapof(t[2])
            return (m[0], t[1]) if m else None
        return None
    def spaceof(s, t):
        if t[0] == "call" and t[1] in ("trialSpace", "getSpace", "testSpace"): return "left"
        if t[0] == "call" and t[1] in ("left", "right") and t[2] is not None:
            return t[1] if s.spaceof(t[2]) else None
        return None
    def solof(s, t):
        """(field name, side) if t denotes a discrete solution field"""
        if t[0] == "call" and t[1] == "getSolution": return (s.x.cfgof(t[3][1]) if len(t[3]) > 1 else "sol", "left")
        if t[0] == "call" and t[1] in ("left", "right") and t[2] is not None:
            m = s.solof(t[2])
            return (m[0], t[1]) if m else None
        if s.x.fields:
            f = s.x.fields(t)
            if f: return (f, "left")
        return None

    def jet(s, t, T, S):
        """2-jet of a map, space or solution term (T row function, S column function)"""
        m = s.mapof(t)
        if m: return s.x.map_jet(*m)
        sp = s.spaceof(t)
        if sp: return s.x.fjet(T, sp)
        so = s.solof(t)
        if so: return s.x.fjet(so[0], so[1])
        raise Unsupported("not a map, space or field: " + show(t)[:200])

    # ---- evaluation; T, S names of the functions standing for rows and columns
    def ev(s, t, T="v", S="w"):
        k = (id(t), T, S)
        r = s.memo.get(k)
        if r is None: r = s.memo[k] = (s.ev_(t, T, S), t)
        return r[0]
    def ev_(s, t, T, S):
        s.n += 1
        k = t[0]
        if k in ("int", "num"): return M.scal(Fraction(t[1]))
        if k == "mem" or k == "var" or k == "deref" or k == "global":
            if s.x.fields and s.x.fields(t): return s.jet(t, T, S)["val"]
            return M.scal(s.x.rng("scal", show(t)))
        if k == "op": return s.op(t, T, S)
        if k == "call": return s.call(t, T, S)
        if k == "ctor":
            if len(t[2]) == 1: return s.ev(t[2][0], T, S)
        if k == "phi":
            if s.x.asg is None: raise Unsupported("conditional expression: " + show(t)[:200])
            return s.ev(t[2] if s.x.holds(t[1]) else t[3], T, S)
        raise Unsupported("expression: " + show(t)[:200])

    def op(s, t, T, S):
        o, a = t[1], t[2]
        if len(a) == 1:
            if o == "u-": return -s.ev(a[0], T, S)
            if o == "u+": return s.ev(a[0], T, S)
            raise Unsupported("operator " + o)
        if o in "+-*/%" and len(o) == 1:
            if o == "*" and s.spaceof(a[0]):
                x = s.ev(a[0], T, S)
            else: x = s.ev(a[0], T, S)
            y = s.ev(a[1], T, S)
            if o == "+": return x + y
            if o == "-": return x - y
            if o == "*": return x * y
            if o == "%":
                if (x.r, x.c) != (y.r, y.c): raise DomainError("contraction of %dx%d with %dx%d" % (x.r, x.c, y.r, y.c))
                return M.scal(x.dot(y))
            if o == "/":
                if not y.isscal(): raise DomainError("division by a matrix")
                return x.scale(y.a[0].inv())
        if o == "[]" or o == "()":
            b = s.ev(a[0], T, S)
            idx = []
            for z in a[1:]:
                if z[0] != "int": raise Unsupported("symbolic index " + show(t)[:100])
                idx.append(z[1])
            return M.scal(b[idx[0], idx[1]] if len(idx) == 2 else b.at(idx[0]))
        raise Unsupported("operator %s in %s" % (o, show(t)[:100]))

    def call(s, t, T, S):
        n, obj, args = t[1], t[2], t[3]
        m = getattr(s, "f_" + n, None)
        if m is not None: return m(t, obj, args, T, S)
        if obj is not None and not args:
            m = getattr(s, "u_" + n, None)
            if m is not None: return m(s.ev(obj, T, S))
        if obj is None and len(args) == 1:
            m = getattr(s, "u_" + n, None)
            if m is not None: return m(s.ev(args[0], T, S))
        raise Unsupported("unknown expression %s in %s" % (n, show(t)[:160]))

    # ---- leaves
    def f_getMap(s, t, o, a, T, S): return s.jet(t, T, S)["val"]
    def f_trialSpace(s, t, o, a, T, S): return s.jet(t, T, S)["val"].T()
    f_getSpace = f_testSpace = f_trialSpace
    def f_getSolution(s, t, o, a, T, S): return s.jet(t, T, S)["val"]
    def f_left(s, t, o, a, T, S):
        if s.spaceof(t): return s.jet(t, T, S)["val"].T()
        if s.mapof(t) or s.solof(t): return s.jet(t, T, S)["val"]
        raise Unsupported(show(t)[:160])
    f_right = f_left
    def u_tr(s, x): return x.T()
    def f_tr(s, t, o, a, T, S): return s.ev(o if o is not None else a[0], S, T).T()
    def f_symmetrize(s, t, o, a, T, S):
        x = o if o is not None else a[0]
        return s.ev(x, T, S) + s.ev(x, S, T).T()
    def f_jac(s, t, o, a, T, S): return s.jet(a[0], T, S).jac()
    def f_grad(s, t, o, a, T, S): return s.jet(a[0], T, S).jac().T() if False else s.jet(a[0], T, S).jac()
    def u_val(s, x): return M.scal(x.a[0])
    def u_cwisetr(s, x): return x.T()
    def u_inv(s, x): return x.inverse()
    def u_sqNorm(s, x): return M.scal(x.norm2())
    def u_norm(s, x): return M.scal(x.norm2().sqrt())
    def u_normalized(s, x): return x.normalized()
    def u_trace(s, x): return M.scal(x.trace())
    def u_det(s, x): return M.scal(x.det())
    def u_asDiag(s, x):
        n = max(x.r, x.c)
        return M(n, n, [x.a[i] if i == j else N.of(0) for i in range(n) for j in range(n)])
    def u_flat(s, x):
        if x.r != 2 or x.c != 2: raise DomainError("flat of %dx%d" % (x.r, x.c))
        return M.row([x[0, 0], x[1, 1], x[0, 1] + x[1, 0]])
    def u_max(s, x):
        return M.scal(s.x.rng("max", x.key()))
    def u_abs(s, x): return M.scal(s.x.rng("abs", x.key()))
    def f_reshape(s, t, o, a, T, S):
        x = o if o is not None else a[0]
        r = a if o is not None else a[1:]
        return s.ev(x, T, S).reshape(r[0][1], r[1][1])
    def f_rowSum(s, t, o, a, T, S):
        """sum over the column functions: the column function is replaced by the sum of all of them"""
        x = o if o is not None else a[0]
        if x[0] == "call" and x[1] == "trialSpace":        # of a space itself: the sum over the components
            r = N.of(0)
            for y in s.ev(x, T, S).a: r = r + y
            return M.scal(r)
        return s.ev(x, T, "sum:1")
    # ---- geometry
    def f_sn(s, t, o, a, T, S): return normal(s.jet(a[0], T, S))
    def f_usn(s, t, o, a, T, S): return unormal(s.jet(a[0], T, S))
    def tang(s, t, T, S, fn=None):
        m = s.mapof(t)
        if not m: raise Unsupported("tangent of " + show(t)[:80])
        tau = s.x.tau(m[1]); j = s.x.map_jet(*m)
        return j, j["d1"].scale(tau[0]) + j["d2"].scale(tau[1])
    def f_tv(s, t, o, a, T, S): return s.tang(a[0], T, S)[1]
    def f_unv(s, t, o, a, T, S):
        j, tv = s.tang(a[0], T, S)
        if s.x.dim == 2: return M.col([tv.a[1], -tv.a[0]]).normalized()
        return tv.normalized().cross(unormal(j))
    def f_nv(s, t, o, a, T, S):
        j, tv = s.tang(a[0], T, S)
        return s.f_unv(t, o, a, T, S).scale(tv.norm2().sqrt())
    def f_meas(s, t, o, a, T, S):
        if s.kind == "dom":
            j = s.jet(a[0], T, S)
            if s.x.dim == 2: return M.scal(j.jac().det())
            return M.scal(normal(j).norm2().sqrt())
        return M.scal(s.tang(a[0], T, S)[1].norm2().sqrt())
    def f_getReal(s, t, o, a, T, S):
        if len(a) == 1 and a[0][0] == "str": return M.scal(s.x.rng("option", a[0][1]))
        raise Unsupported("option: " + show(t)[:80])
    f_askReal = lambda s, t, o, a, T, S: s.f_getReal(t, o, a[:1], T, S)
    def f_area(s, t, o, a, T, S): return s.opaque_map("area", a[0], 1)
    def opaque_map(s, name, mt, r, c=1, sym=False):
        m = s.mapof(mt)
        if not m: raise Unsupported("%s of %s" % (name, show(mt)[:80]))
        cfg, side = m
        if cfg == "def" and s.x.undef: cfg = "ori"; dd = True
        else: dd = cfg == "def"
        v = s.x.rng.mat(r, c, name, cfg, side)
        if dd and s.x.dirfun is not None: v = v + s.x.rng.mat(r, c, "d" + name, side, s.x.dirfun).scale(eps(E0))
        return v
    def f_cartcov(s, t, o, a, T, S): return s.opaque_map("cartcov", a[0], 3, 3)
    def f_cartcon(s, t, o, a, T, S): return s.opaque_map("cartcon", a[0], 3, 3)
    def f_getElement(s, t, o, a, T, S): raise Unsupported("bare getElement")
    # ---- variations of the normals, defined by differentiation
    def _mj(s, t):
        m = s.mapof(t)
        if not m: raise Unsupported("not a map: " + show(t)[:80])
        return s.x.map_jet(*m), m[1]
    def f_var1(s, t, o, a, T, S):
        g, _ = s._mj(a[1]); h = s.jet(a[0], T, S)
        return unormal(g.plus(h, eps(E1))).map(lambda x: x.coef(E1)).T()
    def _var2(s, u, v, G, T, S):
        g, _ = s._mj(G)
        j = g.plus(s.jet(u, T, S), eps(E1)).plus(s.jet(v, S, T), eps(E2))
        return unormal(j).map(lambda x: x.coef(E1).coef(E2))
    def f_var2(s, t, o, a, T, S):
        d = s._var2(a[0], a[1], a[2], T, S)
        if len(a) == 4: return s.ev(a[3], T, S) * d
        return d.T()
    f_var2dot = f_var2
    def f_var2deriv2(s, t, o, a, T, S):
        d = s._var2(a[0], a[1], a[2], T, S); g, _ = s._mj(a[2])
        f = s.ev(a[3], T, S)
        c = M.col([d.dot(g["d11"]), d.dot(g["d22"]), d.dot(g["d12"]) * 2])
        return f * c
    def _on(s, j, tau):
        tv = j["d1"].scale(tau[0]) + j["d2"].scale(tau[1])
        return tv.normalized().cross(unormal(j))
    def f_ovar1(s, t, o, a, T, S):
        g, side = s._mj(a[1]); h = s.jet(a[0], T, S)
        return s._on(g.plus(h, eps(E1)), s.x.tau(side)).map(lambda x: x.coef(E1)).T()
    def f_ovar2(s, t, o, a, T, S):
        g, side = s._mj(a[2])
        j = g.plus(s.jet(a[0], T, S), eps(E1)).plus(s.jet(a[1], S, T), eps(E2))
        d = s._on(j, s.x.tau(side)).map(lambda x: x.coef(E1).coef(E2))
        return s.ev(a[3], T, S) * d
    # ---- second derivatives
    def f_deriv2(s, t, o, a, T, S):
        j = s.jet(a[0], T, S)
        if len(a) == 1:    # rows: 11, 22, 12; columns: components
            return M(3, j["d11"].r, list(j["d11"].a) + list(j["d22"].a) + list(j["d12"].a))
        n = s.ev(a[1], T, S)
        if n.r != 1: raise DomainError("deriv2 needs a row vector")
        return M.row([n.dot(j[q]) for q in ("d11", "d22", "d12")])
    def f_flatdot(s, t, o, a, T, S):
        A, B, C = (s.ev(x, T, S) for x in a)
        g = A.T() * B.T()
        return M.scal(g[0, 0] * C.at(0) + (g[0, 1] + g[1, 0]) * C.at(2) + g[1, 1] * C.at(1))
    def f_flatdot2(s, t, o, a, T, S):
        A, B, C = (s.ev(x, T, S) for x in a)
        q = A * B
        return M.scal(C.at(0) * q.at(0) + C.at(1) * q.at(1) + C.at(2) * q.at(2) * 2)

    # ---- coefficient functions
    def f_getBdrFunction(s, t, o, a, T, S):
        if not a: return s.x.rng.vec(s.x.dim, "bdrfun")
        return s.funat("bdrfun", a[0], s.x.dim)
    def funat(s, name, mt, r):
        m = s.mapof(mt)
        cfg, side = m
        if cfg == "def" and s.x.undef: cfg = "ori"; dd = True
        else: dd = cfg == "def"
        v = s.x.rng.vec(r, name, cfg, side)
        if dd and s.x.dirfun is not None:
            v = v + s.x.rng.mat(r, s.x.dim, "grad", name, side) * s.x.fjet(s.x.dirfun, side)["val"].scale(eps(E0))
        return v
    def f_getCoeff(s, t, o, a, T, S):
        f = a[0]
        while f[0] in ("addr", "deref") and f[1][0] in ("ctor", "new"): f = f[1]
        if f[0] in ("ctor", "new"):
            ty, ca = f[1], f[2]
            if "gsFunctionExpr" in ty:
                vals = []
                for z in ca:
                    if z[0] != "str": break
                    vals.append(self_num(z[1]))
                if vals and all(v is not None for v in vals): return M.col(vals)
                return s.x.rng.vec(len(vals), "fexpr", show(f))
            if "gsMaterialMatrixIntegrate" in ty or "gsMaterialMatrixEval" in ty: return s.material(ty, ca, a[1:], f)
            if "gsConstantFunction" in ty:
                return s.constfun(ca, f)
        name = show(f)
        if s.x.zerofun and s.x.zerofun(name): return M.zero(s.x.dim, 1)
        if len(a) > 1: return s.funat("fun:" + name, a[1], s.x.dim)
        return s.x.rng.vec(s.x.dim, "fun:" + name)
    def constfun(s, ca, f):
        return s.x.rng.vec(s.x.dim, "constfun", show(ca[0]))
    def voigt(s, fn, side):
        """first variation of membrane and bending strain in direction fn (Voigt, shear doubled)"""
        g = s.x.map_jet("def", side); h = s.x.fjet(fn, side)
        drop = lambda m: m.map(lambda x: x.drop(E0))
        g = Jet({q: drop(g[q]) for q in ORDER})
        em = M.col([g["d1"].dot(h["d1"]), g["d2"].dot(h["d2"]), g["d1"].dot(h["d2"]) + g["d2"].dot(h["d1"])])
        if s.x.dim == 2: return em, M.zero(3, 1)
        n = unormal(g); dn = unormal(g.plus(h, eps(E1))).map(lambda x: x.coef(E1))
        q = [h[z].dot(n) + g[z].dot(dn) for z in ("d11", "d22", "d12")]
        return em, M.col([-q[0], -q[1], q[2] * (P - 2)])
    def material(s, ty, ca, rest, f):
        m = re.search(r"MaterialOutput::(\w+)|,\s*([A-Za-z]\w+)\s*>", ty)
        if not m: raise Unsupported("material output of " + ty)
        out = m.group(1) or m.group(2)
        strip = lambda z: z[1] if z[0] == "addr" else z
        cfgs = [s.x.cfgof(strip(z)) for z in ca[1:3]]
        if len(cfgs) == 1: cfgs = cfgs + ["def"]
        if len(cfgs) < 2: raise Unsupported("material without configurations: " + show(f)[:100])
        side = "left"
        key = ("mat", "materials", tuple(show(z) for z in ca[3:]))   # which container: the configuration rule
        o_, d_ = cfgs
        dyn = d_ == "def"
        if d_ == "def" and s.x.undef: d_ = "ori"
        if (out, d_) in s.x.override and o_ == "ori": return s.x.override[(out, d_)](s, base_of(s, key, o_))
        base = lambda q, sym=False: M.zero(3, 3) if s.x.nobend and q in ("B", "D") else (s.x.rng.sym(3, key, q, o_, d_) if sym else s.x.rng.mat(3, 3, key, q, o_, d_))
        mats = {"MatrixA": "A", "MatrixB": "B", "MatrixC": "B", "MatrixD": "D"}
        if out in mats:
            v = base(mats[out], True).reshape(9, 1)
            if dyn and s.x.dirfun is not None: v = v + s.x.rng.sym(3, "d" + mats[out], key, s.x.dirfun).reshape(9, 1).scale(eps(E0))
            return v
        if out == "VectorM" and s.x.nobend: return M.zero(3, 1)
        if out in ("VectorN", "VectorM"):
            v = s.x.rng.vec(3, key, out, o_, d_) if o_ != d_ else M.zero(3, 1)
            if dyn and o_ == "ori" and s.x.dirfun is not None:
                em, ef = s.voigt(s.x.dirfun, side)
                X, Y = ("A", "B") if out == "VectorN" else ("B", "D")
                v = v + (base(X, True) * em + base(Y, True) * ef).scale(eps(E0))
            return v
        if out in ("Density", "Thickness"):
            return M.scal(s.x.rng(key, out, o_))
        r = {"PStressN": 3, "PStressM": 3, "PStrainN": 3, "PStrainM": 3}.get(out, 3)
        if out in ("Stretch",): r = 3
        if out in ("StretchDir",): r = 9
        v = s.x.rng.vec(r, key, out, o_, d_)
        if dyn and s.x.dirfun is not None: v = v + s.x.rng.vec(r, "d", key, out, s.x.dirfun).scale(eps(E0))
        return v

def base_of(s, key, o_):
    return lambda q, d: M.zero(3, 3) if s.x.nobend and q in ("B", "D") else s.x.rng.sym(3, key, q, o_, d)

def self_num(z):
    try: return Fraction(z.strip())
    except ValueError: return None

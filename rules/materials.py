"""Constitutive laws: stress, tangent and derived quantities are those of the named law."""
import re, time
from fractions import Fraction
import facts, flow
from facts import AnalysisError, where
from flow import show, I
import field
from field import N, M, P, Rng, Retry, DomainError, eps, isqr
from matdom import MatWalker, V, isM, Oob, lift, shape_of_type, isnum
import matsample as ms
from report import Result

flow_MAXD = 40
BASE = "gsMaterialMatrixBaseDim_"
UNITS = {"lin": BASE + "+gsMaterialMatrixLinear_"}
for d in "23":
    for c in ("Comp", "Incomp"): UNITS[d + c] = BASE + "+gsMaterialMatrixNonlinear%sd%s_" % (d, c)

class NoConv(Exception): pass

def drop31(v):
    """a value left behind by a perturbed evaluation"""
    return V(M(v[1].r, v[1].c, [x.drop(31) for x in v[1].a])) if isM(v) else v

def targs(t):
    """template arguments of a type"""
    out = [""]; d = 0
    for ch in t[t.index("<") + 1:t.rindex(">")]:
        d += (ch == "<") - (ch == ">")
        if ch == "," and not d: out.append("")
        else: out[-1] += ch
    return [q.strip() for q in out]

class MW(MatWalker):
    """walks an evaluation routine of a material; everything it reads from outside is a leaf of the sample"""
    def __init__(s, tu, smp, cid, options=None):
        s.smp = smp; s.options = options or {}
        super().__init__(tu, smp.rng, leaf=lambda *a: s.leaf_(*a))
        s.cid = cid
        dim = smp.dim
        r = [r for r in tu.records if r["q"].endswith("gsMaterialMatrixBaseDimData") and r["cargs"][:1] == [str(dim)]]
        if not r: raise AnalysisError("per-thread data record vanished")
        s.data = ("obj", "data", None, r[0]["id"])
        s.members["m_patches"] = ("sym", "ori"); s.members["m_defpatches"] = ("sym", "def")
        s.members["m_thickness"] = ("sym", "thickness"); s.members["m_density"] = ("sym", "density")
        s.members["m_pars"] = ("vec", tuple(("sym", "par%d" % i) for i in range(len(smp.par[0]))))
        s.members["m_data"] = ("sym", "threaded"); s.members["m_options"] = ("sym", "options")
        s.use(smp)
        s.eig = {}; s.ovr = {}
        if not hasattr(tu, "byname_"):
            tu.byname_ = {}
            for f in tu.functions: tu.byname_.setdefault(f["n"], []).append(f)
        s.byname = tu.byname_
    def use(s, smp):
        s.smp = smp
        s.pt = {tuple(smp.u[i, k].base() for i in range(2)): k for k in range(smp.K)}
        s.px = {tuple(v.base() for v in smp.x["ori"][k].a): k for k in range(smp.K)}
    def x_c(s, x, st):
        """virtual call on the object itself: the body of the most derived class"""
        fn = s.tu.byid.get(x.get("f"))
        o = x.get("o")
        if fn is not None and o is not None and o.get("k") == "this" and not x.get("qualcall") and s.this == ("this",):
            g = s.override(fn)
            if g is not None and g is not fn:
                x = dict(x); x["f"] = g["id"]
        return super().x_c(x, st)
    def override(s, fn):
        key = fn["id"]
        if key not in s.ovr:
            s.ovr[key] = None
            for r in s.recs(s.cid):
                c = [f for f in s.byname.get(fn["n"], ()) if f.get("cid") == r["id"] and [p["t"] for p in f["p"]] == [p["t"] for p in fn["p"]] and f.get("targs") == fn.get("targs")]
                if any(f is fn for f in c): break
                if c: s.ovr[key] = c[0]; break
        return s.ovr[key]
    # ------------------------------------------------------------ leaves
    def may_inline(s, fn):
        if fn["n"] in s.noinline or s.depth >= flow_MAXD or any(f is fn for f in s.stack): return False
        return True
    def default(s, key):
        if key[0] == "m" and key[1][0] == "obj":
            v = s.members.get((key[1], key[2]))
            if v is not None: return v
            t = s.fieldtype(key)
            if key[2] in ("first", "second") and len(key[1]) > 2 and "pair<" in str(key[1][2]):
                q = targs(key[1][2]); t = q[key[2] == "second"] if len(q) == 2 else None
            if t:
                sh = shape_of_type(t)
                if sh: return V(s.memo(key, tuple(q if q > 0 else (1 if sh == (-1, 1) and q == 1 else 0) for q in sh)))
                if t.split()[-1] in ("double", "real_t", "T") or t == "double": return V(s.memo(key, (1, 1)))
        return super().default(key)
    def memo(s, key, sh):
        if key not in s.fieldgarbage: s.fieldgarbage[key] = s.garbage(*sh, why="member")
        return s.fieldgarbage[key]
    def ltype(s, key):
        if key[0] == "m" and key[1] == ("this",): return None
        return super().ltype(key)
    def binop(s, o, a, b, x):
        if o in ("==", "!=") and (a == ("null",) or b == ("null",)):
            y = b if a == ("null",) else a
            if y[0] in ("sym", "piece", "obj"): return I(o == "!=")
        if o == "*":                       # relative tolerance: a quantity times a tiny constant
            for p, q in ((a, b), (b, a)):
                if isnum(p) and 0 < abs(Fraction(p[1])) <= Fraction(1, 10 ** 9) and isM(q): return ("tinyv", q)
        if o in ("<", ">", "<=", ">=") and (a[0] == "tinyv") != (b[0] == "tinyv"):
            y = lift(b if a[0] == "tinyv" else a)
            if y is not None and y.isscal() and (y.a[0].zero() or y.a[0].base()):
                less = y.a[0].zero()       # the other side is below the tolerance
                return I(less == ((o in ("<", "<=")) == (b[0] == "tinyv")))
        return super().binop(o, a, b, x)
    def truthy(s, v): return v
    def x_ctor(s, x, st):
        t = x["t"]
        if "gsMapData<" in t or "SelfAdjointEigenSolver" in t or "EigenSolver<" in t or t.replace("const ", "").startswith("std::pair<"):
            a = tuple(s.expr(y, st) for y in x["a"])
            if len(a) == 1 and a[0][0] == "obj": return s.copyobj(a[0], st) if "pair" in t else a[0]
            s.uid += 1; ob = ("obj", s.uid, t)
            if "pair" in t and len(a) == 2:
                st.heap[("m", ob, "first")] = a[0]; st.heap[("m", ob, "second")] = a[1]
            return ob
        fn = s.tu.byid.get(x.get("f"))
        if fn is not None and fn.get("cid") in s.functors():
            a = tuple(s.expr(y, st) for y in x["a"]); s.uid += 1; ob = ("obj", s.uid, None, fn["cid"])
            s.do_inline(fn, a, x["a"], ob, st); return ob
        return super().x_ctor(x, st)
    def functors(s):
        """classes of the unit that wrap an evaluation as a function (derivatives of them are exact here)"""
        if not hasattr(s.tu, "functors_"):
            s.tu.functors_ = {f["cid"]: f for f in s.tu.functions if f["n"] == "eval_into" and f.get("cid") and len(f["p"]) == 2 and not (f.get("cls") or "").split("<")[0].split("::")[-1].startswith("gs")}
        return s.tu.functors_
    def derive(s, ob, u, st):
        """rows 3*component+direction, as gsFunction::deriv_into lays them out"""
        fn = s.functors()[ob[3]]; cols = []
        for k in range(u.c):
            ds = []
            for d in range(u.r):
                e = M(u.r, 1, [u[i, k] + (eps(31) if i == d else 0) for i in range(u.r)])
                rets = s.enter(fn, [V(e), V(s.garbage(0, 0))], ob, st.copy())
                v = rets[0][0].env.get(fn["p"][1]["i"]) if len(rets) == 1 else None
                if v is None or not isM(v): return None
                heap = rets[0][0].heap
                ds.append([x.coef(31) for x in v[1].a])
            cols.append([ds[d][c] for c in range(len(ds[0])) for d in range(u.r)])
        st.heap.clear(); st.heap.update({k: drop31(v) for k, v in heap.items()})      # what the evaluations leave behind
        return M(len(cols[0]), u.c, [c[i] for i in range(len(cols[0])) for c in cols])
    def copyobj(s, ob, st):
        s.uid += 1; n = ("obj", s.uid) + ob[2:]
        for (k, v) in [(k, v) for k, v in st.heap.items() if k[0] == "m" and k[1] == ob]: st.heap[("m", n, k[2])] = v
        return n
    def assign(s, key, v, st, x):
        if v[0] == "obj" and len(v) > 2 and v[2] and "pair" in str(v[2]): return s.copyobj(v, st)
        return super().assign(key, v, st, x)
    def decl(s, v, st):
        t = v["t"]
        if "init" not in v and ("gsMapData<" in t or "EigenSolver<" in t or t.startswith("std::pair<")):
            s.uid += 1; st.env[v["i"]] = ("obj", s.uid, t); st.alias.pop(v["i"], None); return
        super().decl(v, st)
        if v["i"] in st.env and isinstance(st.env[v["i"]], tuple) and st.env[v["i"]][0] == "uninit" and t.split()[-1] in ("double",):
            st.env[v["i"]] = V(s.garbage(1, 1))
    def geocol(s, g, patch, pts):
        """indices of the sample points, None for a point the caller did not ask for"""
        out = []
        for c in range(pts.c):
            k = s.pt.get(tuple(pts[i, c].base() for i in range(pts.r)))
            if patch != s.smp.patch: k = None
            out.append(k)
        return out
    def leaf_(s, w, x, obj, args, st):
        n = x["n"]; S = s.smp
        if n == "mine" and obj is not None: return s.data
        if n == "isnan" or n == "isinf": return I(0)
        if n == "gsAllCloseRelativeToMax": return s.close(args)
        if n == "epsilon" and obj is None: return ("num", Fraction(1, 2 ** 52))
        if n == "lessthan" or n == "almostEqual":
            if n == "lessthan" and len(args) == 2: return s.binop("<", args[0], args[1], x)
        if obj is None: return None
        if obj[0] == "deref": obj = obj[1]
        if obj[0] == "addr": obj = obj[1]
        if obj == ("this",) and x.get("vt") and x.get("o", {}).get("k") != "this" and not x.get("qualcall"):
            f = s.tu.byid.get(x.get("f")); g = s.override(f) if f is not None else None
            if f is None: g = resolve(s, s.cid, n, lambda h: len(h["p"]) == len(x["a"]) and all((isM(a) and not a[1].isscal()) == ("gsMatrix" in p["t"] or "gsVector" in p["t"]) for a, p in zip(args, h["p"]) if isM(a)))
            if g is not None: return s.do_inline(g, args, x["a"], ("this",), st)
        if obj[0] == "obj" and len(obj) > 3 and obj[3] in s.functors() and n == "deriv_into" and isM(args[0]):
            key = s.lval(x["a"][1], st, True); v = s.derive(obj, args[0][1], st)
            if key is None or v is None: return None
            s.store(key, V(v), st, x["l"], "upd"); return ("void",)
        if obj[0] == "sym":
            if n in ("piece", "function"):
                return ("piece", obj[1], s.int_(args[0]))
            if obj[1] == "options" and n in ("getInt", "getReal", "getSwitch", "askInt", "askReal", "askSwitch"):
                key = args[0][1] if args[0][0] == "str" else None
                if key in s.options: return s.options[key]
                return None
            if n in ("get", "operator->", "operator*"): return obj
        if obj[0] == "piece":
            kind, patch = obj[1], obj[2]
            if n == "computeMap" and kind in ("ori", "def"): return s.map(kind, patch, args[0], st)
            if n == "eval_into" and isM(args[0]):
                key = s.lval(x["a"][1], st, True)
                if key is None: return None
                s.store(key, V(s.field(kind, patch, args[0][1])), st, x["l"], "upd"); return ("void",)
            if n == "eval" and isM(args[0]): return V(s.field(kind, patch, args[0][1]))
        if obj[0] == "obj" and len(obj) > 2 and obj[2] and "gsMapData" in obj[2]:
            ks = st.heap.get(("m", obj, "#ks")); k = s.int_(args[0]) if args else None
            if ks is None or k is None: return None
            if not 0 <= k < len(ks[2]): raise Oob("%s: point %d of %d" % (s.place(), k, len(ks[2])))
            g, kk = ks[1], ks[2][k]
            fl = st.heap.get(("m", obj, "#fl"), I(0))[1]
            if n == "jacobian": return V(s.geo(g, kk, "J", fl))
            if n == "deriv2": return V(s.geo(g, kk, "H", fl))
            if n == "normal": return V(s.geo(g, kk, "N", fl))
            if n == "measure": return None
        if obj[0] == "obj" and len(obj) > 2 and obj[2] and "EigenSolver" in obj[2]:
            if n == "compute" and isM(args[0]):
                st.heap[("m", obj, "#A")] = args[0]; return obj
            if n in ("eigenvalues", "eigenvectors"):
                A = st.heap.get(("m", obj, "#A"))
                if A is None: return None
                return V(s.eigen(A[1], n == "eigenvectors"))
        return None
    def close(s, args):
        a, b = lift(args[0]), lift(args[1])
        if a is None or b is None: return None
        return I((a - b).iszero())
    # ---- geometry
    def geo(s, g, k, what, fl):
        S = s.smp; d = S.dim
        need = {"J": 2 | 8 | 16 | 32 | 64 | 2048 | 4096 | 128 | 256 | 512, "H": 128 | 256 | 512, "N": 2048, "V": 0xffff}[what]
        if k is None or not fl & need: return s.garbage(*{"J": (d, 2), "H": (3 * d, 1), "N": (3, 1), "V": (d, 1)}[what], why="geo")
        q = S.geo[g][k]
        if what == "J": return q.J
        if what == "H": return M.col([q.h[i].a[c] for c in range(d) for i in range(3)])
        if what == "N": return q.cross if d == 3 else s.garbage(2, 1, "geo")
        if what == "V": return S.x[g][k]
    def map(s, g, patch, ob, st):
        if ob[0] == "addr": ob = ob[1]
        pts = st.heap.get(("m", ob, "points")); fl = st.heap.get(("m", ob, "flags"))
        if pts is None or not isM(pts): raise AnalysisError("computeMap on unknown points at " + s.place())
        f = s.int_(fl) if fl else 0
        if f is None: raise AnalysisError("computeMap with unknown flags at " + s.place())
        ks = s.geocol(g, patch, pts[1])
        st.heap[("m", ob, "#ks")] = ("ks", g, tuple(ks)); st.heap[("m", ob, "#fl")] = I(f)
        cat = lambda what: s.hcat([s.geo(g, k, what, f) for k in ks])
        vals = [V(cat("V"))]
        d = s.smp.dim
        if f & 0x1ffe:
            vals.append(V(s.hcat([s.geo(g, k, "J", f).T().reshape(2 * d, 1) for k in ks])))
            if f & (128 | 256 | 512): vals.append(V(cat("H")))
        st.heap[("m", ob, "values")] = ("vec", tuple(vals))
        if f & 2048: st.heap[("m", ob, "normals")] = V(cat("N"))
        return ("void",)
    def hcat(s, ms_):
        r = ms_[0].r
        return M(r, len(ms_), [m.a[i] for i in range(r) for m in ms_])
    def field(s, kind, patch, pts):
        S = s.smp; out = []
        if kind in ("ori", "def"):
            ks = s.geocol(kind, patch, pts); return s.hcat([s.geo(kind, k, "V", 0xffff) for k in ks])
        for c in range(pts.c):
            k = s.px.get(tuple(pts[i, c].base() for i in range(pts.r)))
            if k is None or patch != S.patch: out.append(s.garbage(1, 1, "field").a[0]); continue
            out.append(S.T[k] if kind == "thickness" else S.rho[k] if kind == "density" else S.par[k][int(kind[3:])])
        return M.row(out)
    # ---- spectral decomposition of a symmetric 3x3 matrix with a zero eigenvalue
    def eigen(s, A, vectors):
        key = (tuple(tuple(sorted(x.c.items())) for x in A.a), vectors)
        if key in s.eig: return s.eig[key]
        if A.r != 3 or A.c != 3: raise AnalysisError("eigenvalues of a %dx%d matrix" % (A.r, A.c))
        if not A.det().zero(): raise Retry("no zero eigenvalue")
        if not (A - A.T()).iszero(): raise DomainError("%s: eigenvalues of a non-symmetric matrix" % s.place())
        h = A.trace() * N.of(Fraction(1, 2)); disc = h * h - minors(A)
        q = disc.sqrt() if not disc.zero() else disc
        ev = M.col([N.of(0), h - q, h + q])
        if not vectors: r = ev
        else:
            v0 = s.nullvec(A, N.of(0))
            if disc.zero(): vs = [v0] + s.plane(v0)
            else: vs = [v0, s.nullvec(A, h - q), s.nullvec(A, h + q)]
            r = M(3, 3, [vs[j].a[i] for i in range(3) for j in range(3)])
        s.eig[key] = r; return r
    def plane(s, n):
        """some orthonormal pair orthogonal to n"""
        for t in range(60):
            a = M.col([1, t, t * t + 3]); v = a - n.scale(a.dot(n))
            if v.norm2().base() and isqr(v.norm2().base()):
                v = v.normalized(); return [v, n.cross(v)]
        raise Retry("no frame")
    def nullvec(s, A, l):
        B = A - M.eye(3).scale(l)
        rows = [M(3, 1, [B[i, j] for j in range(3)]) for i in range(3)]
        for i, j in ((0, 1), (0, 2), (1, 2)):
            v = rows[i].cross(rows[j])
            if v.norm2().base(): return v.normalized()
        raise Retry("degenerate eigenvector")
    def method(s, n, obj, args, x, st):
        if isM(obj):
            if n == "reshaped": n = "reshape"
            if n == "maxCoeff":
                m = obj[1]
                nz = [v for v in m.a if not v.zero()]
                return V(nz[-1] if nz else N.of(0))
            if n == "template": return obj
        return super().method(n, obj, args, x, st)
    def absn(s, z):
        if z.base() == 0: return z
        return super().absn(z)
    def compare(s, o, p, q, a, b):
        r = super().compare(o, p, q, a, b)
        if r is None and o in ("<", ">", "<=", ">="):
            d = p - q
            if d.base() == 0: return None
            return {"<": not isqr(d.base()), ">": isqr(d.base()), "<=": not isqr(d.base()), ">=": isqr(d.base())}[o]
        return r

def evaluate(tu, smp, cid, fn, args, **kw):
    w = MW(tu, smp, cid, **kw)
    rets = w.run(fn, args)
    if not rets: return w, None
    if len(rets) > 1:
        st, v = w.mergelist(rets, ())
    else: v = rets[0][1]
    return w, v

# ------------------------------------------------------------------------------------------
# definitions of what each evaluation routine returns, per point k and level j
def voigt(m): return [m[0, 0], m[1, 1], m[0, 1]]
class Def:
    def __init__(s, smp, log): s.s, s.log = smp, log
    def linC(s, k):
        E, nu = s.s.par[k][:2]; mu = E / (N.of(2) * (N.of(1) + nu)); la = E * nu / ((N.of(1) + nu) * (N.of(1) - nu * 2))
        c = la * mu * 2 / (la + mu * 2); A = s.s.ori[k].A.inverse()
        return lambda i, j, a, b: c * A[i, j] * A[a, b] + mu * (A[i, a] * A[j, b] + A[i, b] * A[j, a])
    def linstrain(s, k, j, kind):
        o, d = s.s.ori[k], s.s.dfm[k]; h = N.of(Fraction(1, 2))
        if kind == "N": return (d.A - o.A).scale(h)
        if kind == "M": return o.B - d.B if s.s.dim == 3 else M.zero(2, 2)
        return (s.s.G("def", k, j) - s.s.G("ori", k, j)).scale(h)
    def stress(s, k, j, kind="G"):
        if s.s.law: return s.s.stress(k, j, s.log)
        C = s.linC(k); E = s.linstrain(k, j, kind)
        return [sum((C(a, b, c, d) * E[c, d] for c in range(2) for d in range(2)), N.of(0)) for a, b in ms.VOIGT]
    def matrix(s, k, j):
        if s.s.law: t = s.s.tangent(k, j, s.log)
        else:
            C = s.linC(k); t = M.rows([[C(*a, *b) for b in ms.VOIGT] for a in ms.VOIGT])
        return [t[i, l] for l in range(3) for i in range(3)]
    def dmatrix(s, k, j):
        """half the derivative of the matrix to the strain (11, 22, twice 12), per entry of the matrix"""
        if s.s.law is None: return [N.of(0)] * 27
        G, C = s.s.G("ori", k, j), s.s.G("def", k, j); e = eps(30); h = e * N.of(Fraction(1, 2)); out = []
        for D in ([[e, 0], [0, 0]], [[0, 0], [0, e]], [[0, h], [h, 0]]):
            X = C + M.rows(D); t = ms.tangent(s.s.law, G, X, G.det() / X.det(), s.s.par[k], s.log)
            out.append([t[i, l].coef(30) for l in range(3) for i in range(3)])
        return [out[d][c] for c in range(9) for d in range(3)]
    def c33(s, k, j): return s.s.c33(k, j, s.log)
    def detF(s, k, j):
        if s.s.law is None: return [s.s.J02(k, j).sqrt()]
        if not s.s.law.comp: return [N.of(1)]
        return [(s.s.J02(k, j) * s.c33(k, j)).sqrt()]
    def cauchy(s, k, j, kind="G"):
        d = s.detF(k, j)[0]; return [x / d for x in s.stress(k, j, kind)]
    def strain(s, k, j):
        e = s.linstrain(k, j, "G"); return [e[0, 0], e[1, 1], e[0, 1] + e[1, 0]]
    def deformation(s, k, j):
        C = s.s.G("def", k, j); return [C[0, 0], C[1, 0], 0, C[0, 1], C[1, 1], 0, 0, 0, s.c33(k, j)]
    def tensor(s, k, j, comp, basis):
        """3x3 tensor with the given in-plane components in a basis of the undeformed body"""
        f = s.s.frame("ori", k, s.s.height(k, j))
        if basis == "con": f = f.inverse().T()
        B = M.zero(3, 3)
        for a in range(2):
            for b in range(2):
                u = M(3, 1, [f[i, a] for i in range(3)]); v = M(1, 3, [f[i, b] for i in range(3)])
                B = B + (u * v).scale(comp[a, b])
        return B
    def normal(s, k, j):
        f = s.s.frame("ori", k, N.of(0)); return M(3, 1, [f[i, 2] for i in range(3)])
    def stretchtensor(s, k, j): return s.tensor(k, j, s.s.G("def", k, j), "con")
    def stresstensor(s, k, j, S): return s.tensor(k, j, M.rows([[S[0], S[2]], [S[2], S[1]]]), "cov")

def minors(A):
    """sum of the principal 2x2 minors"""
    return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0] + A[0, 0] * A[2, 2] - A[0, 2] * A[2, 0] + A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1]
def eigok(vals, B):
    """the two values are the non-zero eigenvalues of B (symmetric functions)"""
    t, m = B.trace(), minors(B); return vals[0] + vals[1] == t and vals[0] * vals[1] == m
def dirok(cols, B):
    """two orthonormal eigenvectors of B in its plane"""
    for v in cols:
        if not v.norm2() == N.of(1): return False
        w = B * v
        if not w.cross(v).iszero(): return False
        if (w.iszero()): return False
    return cols[0].dot(cols[1]).zero()

# checkers: (Def, k, j, column values, kind) -> None if right, text otherwise
def eq(want):
    def f(d, k, j, got, kind):
        w = want(d, k, j, kind)
        if len(w) != len(got): return "has %d rows instead of %d" % (len(got), len(w))
        bad = [i for i in range(len(w)) if not got[i] == N.of(w[i])]
        return None if not bad else "component(s) %s differ from the definition" % bad
    return f
def c_pstretch(d, k, j, got, kind):
    if len(got) != 3: return "has %d rows" % len(got)
    if not eigok([got[0] * got[0], got[1] * got[1]], d.stretchtensor(k, j)): return "in-plane principal stretches are not those of the deformation"
    return None if got[2] * got[2] == d.c33(k, j) else "thickness stretch differs from the plane-stress solution"
def c_pstretchdir(d, k, j, got, kind):
    if len(got) != 9: return "has %d rows" % len(got)
    c = [M.col(got[3 * i:3 * i + 3]) for i in range(3)]
    if not dirok(c[:2], d.stretchtensor(k, j)): return "not the in-plane principal stretch directions"
    return None if (c[2] - d.normal(k, j)).iszero() else "third direction is not the unit normal"
def c_pstress(cauchy):
    def f(d, k, j, got, kind):
        if len(got) != 2: return "has %d rows" % len(got)
        B = d.stresstensor(k, j, d.cauchy(k, j, kind) if cauchy else d.stress(k, j, kind))
        return None if eigok(got, B) else "not the principal values of the stress"
    return f
def c_pstressdir(d, k, j, got, kind):
    if len(got) != 9: return "has %d rows" % len(got)
    c = [M.col(got[3 * i:3 * i + 3]) for i in range(3)]
    return None if dirok(c[:2], d.stresstensor(k, j, d.stress(k, j, kind))) else "not the in-plane principal stress directions"
def c_pstrain(d, k, j, got, kind):
    if len(got) != 3: return "has %d rows" % len(got)
    return None if eigok(got[:2], d.tensor(k, j, d.linstrain(k, j, "G"), "con")) else "not the principal values of the strain"

def voigtT(b1, b2):
    """T with (E11,E22,2E12 in the frame b2) * T = (E11,E22,2E12 against the vectors of b1)"""
    c = lambda B, i: M(3, 1, [B[r, i] for r in range(3)])
    g = [[c(b2, i).dot(c(b1, j)) for j in range(2)] for i in range(2)]
    out = []
    for (i, j) in ms.VOIGT:          # unit entry of the row vector
        E = M.zero(2, 2)
        if i == j: E.a[i * 2 + i] = N.of(1)
        else: E.a[1] = E.a[2] = N.of(Fraction(1, 2))
        q = lambda a, b: sum((E[r, t] * g[r][a] * g[t][b] for r in range(2) for t in range(2)), N.of(0))
        out.append([q(0, 0), q(1, 1), q(0, 1) * 2])
    return M.rows(out)
def c_transform(b1, b2):
    def f(d, k, j, got, kind):
        if len(got) != 9: return "has %d rows" % len(got)
        fr = d.s.frame("ori", k, d.s.height(k, j))
        B = {"cart": M.eye(3), "cov": fr, "con": fr.inverse().T()}
        T = M(3, 3, [got[c * 3 + r] for r in range(3) for c in range(3)])
        if b2 != "spec": return None if (T - voigtT(B[b1], B[b2])).iszero() else "not the transformation between the two bases of this point"
        # principal frame: the deformation measured in it is diagonal; the sign and order of the directions are free
        Cs = d.stretchtensor(k, j)
        h = Cs.trace() * N.of(Fraction(1, 2)); q = (h * h - minors(Cs)).sqrt()
        want = B[b1].T() * Cs * B[b1]; want = [want[0, 0], want[1, 1], want[0, 1] * 2]
        for l in ((h - q, h + q), (h + q, h - q)):
            r = M.row([l[0], l[1], 0]) * T
            if all(r.a[i] == want[i] for i in range(3)): return None
        return "does not transform the principal stretches to this basis"
    return f

def signpair(B):
    """signs of the smaller and the larger in-plane principal value"""
    h = B.trace() * N.of(Fraction(1, 2)); q = (h * h - minors(B)).sqrt()
    return isqr((h - q).base()), isqr((h + q).base())
def c_tension(mode):
    def f(d, k, j, got, kind):
        E = signpair(d.tensor(k, j, d.linstrain(k, j, "G"), "con")); S = signpair(d.stresstensor(k, j, d.stress(k, j, "G")))
        taut = (E if mode == 0 else S)[0]; slack = not (S if mode == 1 else E)[1]
        want = 1 if taut else -1 if slack else 0
        return None if len(got) == 1 and got[0] == N.of(want) else "the state is %s and not reported so" % {1: "taut", 0: "wrinkled", -1: "slack"}[want]
    return f

SPEC = {
 "eval3D_spec2cov": c_transform("cov", "spec"), "eval3D_spec2con": c_transform("con", "spec"), "eval3D_cov2cart": c_transform("cart", "cov"), "eval3D_con2cart": c_transform("cart", "con"),
 "eval3D_stress": eq(lambda d, k, j, o: d.stress(k, j, o)), "eval3D_vector": eq(lambda d, k, j, o: d.stress(k, j, o)),
 "eval3D_dmatrix": eq(lambda d, k, j, o: d.dmatrix(k, j)),
 "eval3D_matrix": eq(lambda d, k, j, o: d.matrix(k, j)),
 "eval3D_CauchyStress": eq(lambda d, k, j, o: d.cauchy(k, j, o)), "eval3D_CauchyVector": eq(lambda d, k, j, o: d.cauchy(k, j, o)),
 "eval3D_detF": eq(lambda d, k, j, o: d.detF(k, j)), "eval3D_strain": eq(lambda d, k, j, o: d.strain(k, j)),
 "eval3D_deformation": eq(lambda d, k, j, o: d.deformation(k, j)),
 "eval3D_pstretch": c_pstretch, "eval3D_pstretchDir": c_pstretchdir, "eval3D_pstress": c_pstress(False), "eval3D_CauchyPStress": c_pstress(True),
 "eval3D_pstressDir": c_pstressdir, "eval3D_pstrain": c_pstrain,
}

# ------------------------------------------------------------------------------------------
# driver
import multiprocessing, traceback
class Mat:
    """one instantiated material class of a unit"""
    def __init__(s, tu, r):
        s.tu, s.r, s.id = tu, r, r["id"]
        s.dim = int(r["cargs"][0]); s.lin = r["q"].endswith("gsMaterialMatrixLinear")
        if s.lin: s.law, s.imp, s.name = None, "", "SvK linear %dd" % s.dim
        else:
            mat, imp = r["cargs"][4].split("::")[-1], r["cargs"][5].split("::")[-1]
            s.law = ms.Law(mat, r["cargs"][3] == "true"); s.imp = imp
            s.name = "%s %s %s %dd" % (mat, "compressible" if s.law.comp else "incompressible", imp, s.dim)
    comp = property(lambda s: bool(s.law and s.law.comp))
def classes(tu):
    out = [Mat(tu, r) for r in tu.records if r["q"].split("::")[-1] in ("gsMaterialMatrixNonlinear", "gsMaterialMatrixLinear")]
    return sorted((m for m in out if not (m.law and m.law.mat == "SvK")), key=lambda m: m.name)
def resolve(w, cid, name, pred):
    """the member function a virtual call of that name reaches"""
    for r in w.recs(cid):
        c = [f for f in w.byname.get(name, ()) if f.get("cid") == r["id"] and pred(f)]
        if len(c) == 1: return c[0]
        if c: raise AnalysisError("%s is ambiguous in %s" % (name, r["q"]))
    raise AnalysisError("no %s in %s" % (name, w.recs(cid)[0]["q"]))
def atpoints(f): return len(f["p"]) >= 3 and "gsMatrix" in f["p"][1]["t"] and "gsMatrix" in f["p"][2]["t"]
def atC(f): return len(f["p"]) >= 4 and "gsMatrix" in f["p"][0]["t"] and "gsVector" in f["p"][2]["t"]
def into(f): return len(f["p"]) == 3 and "gsMatrix" in f["p"][1]["t"] and "gsMatrix" in f["p"][2]["t"]

def value(w, rets, what):
    """the value the walk ends with on its only feasible path"""
    if not rets:
        t = [e for e in w.events if e.kind == "throw"]
        raise DomainError("%s raises an error%s" % (what, " at line %s" % t[-1].line if t else ""))
    v = rets[0][1] if len(rets) == 1 else w.mergelist(rets, ())[1]
    if not isM(v): raise AnalysisError("%s: value not determined: %s %s" % (what, show(v)[:200] if v else v, w.notes[:2]))
    return v[1]

class Case:
    """one evaluation routine of one class in one sample state -> verdict"""
    def __init__(s, mat, tier, seed): s.mat, s.tier, s.seed = mat, tier, seed
    def sample(s, state, K, Z, t, **kw):
        m = s.mat
        mm_ = 0 if state != "generic" or not m.comp else (2 if s.tier == "quick" else 3)
        return ms.Sample((s.seed, t), m.dim, m.law, K=K, Z=Z, m=mm_, aligned=True, state=state, **kw)
    def attempts(s, what, once, n=60):
        """once(t) -> (where, message or None); square roots of non-squares restart with another sample"""
        for t in range(n):
            try: return once(t)
            except Retry: continue
            except (Oob, DomainError) as e: return None, str(e)
        field.PSEUDO[0] = True      # no sample is admissible: does the plane-stress iteration ever settle?
        try: once(0)
        except DomainError as e:
            if "raises an error" in str(e): return None, str(e) + " for every sampled state"
        except Retry: pass
        finally: field.PSEUDO[0] = False
        raise AnalysisError("%s: no admissible sample" % what)
    def points(s, name, checker, state="generic", K=2, Z=2, out=0, kind="G", options=None, salt=0):
        m = s.mat
        def once(t):
            smp = s.sample(state, K, Z, t + 1000 * salt)
            w = MW(m.tu, smp, m.id, options)
            fn = resolve(w, m.id, name, atpoints); s.fn = fn
            v = value(w, w.run(fn, [I(smp.patch), V(smp.u), V(smp.z), I(out)]), name)
            if v.c != K * Z: return fn, "returns %d columns for %d points at %d levels" % (v.c, K, Z)
            D = Def(smp, w.log)
            for j in range(Z):
                for k in range(K):
                    e = checker(D, k, j, [v[i, j * K + k] for i in range(v.r)], kind)
                    if e: return fn, "at point %d, level %d (column %d): %s" % (k, j, j * K + k, e)
            return fn, None
        fn, msg = s.attempts(m.name + " " + name, once)
        return fn or s.fn, msg
    def history(s, pre, name, checker, mode, out=0, kind="G"):
        """a second evaluation of the same object, after the object was evaluated elsewhere: only the second state matters"""
        m = s.mat; K = Z = 2
        if m.comp: Z = 1
        def once(t):
            smp = s.sample("generic", K, Z, t)
            if mode == "another deformation of the same patch":
                q = s.sample("generic", K, Z, t); c = smp.rng("scale")
                q.dfm[:] = [ms.Jet3(g.J.scale(c), [v.scale(c * c) for v in g.h]) for g in q.dfm]
            else:
                q = ms.Sample((s.seed, t, "earlier"), m.dim, m.law, K=K, Z=Z, m=smp.m, aligned=True, at=(smp.u, smp.z)); q.patch = 0
            w = MW(m.tu, q, m.id)
            fn0 = resolve(w, m.id, pre, atpoints)
            fn = resolve(w, m.id, name, atpoints); s.fn = fn
            rets = w.run(fn0, [I(q.patch), V(q.u), V(q.z), I(out)])
            if not rets: raise DomainError("%s raises an error" % pre)
            st = rets[0][0] if len(rets) == 1 else w.mergelist(rets, ())[0]
            st.env.clear(); st.alias.clear(); st.guards = ()
            w.use(smp)
            v = value(w, w.run(fn, [I(smp.patch), V(smp.u), V(smp.z), I(out)], st=st), name)
            if v.c != K * Z: return fn, "after %s for %s: returns %d columns for %d points at %d levels" % (pre, mode, v.c, K, Z)
            D = Def(smp, w.log)
            for j in range(Z):
                for k in range(K):
                    e = checker(D, k, j, [v[i, j * K + k] for i in range(v.r)], kind)
                    if e: return fn, "after %s for %s, at point %d, level %d: %s" % (pre, mode, k, j, e)
            return fn, None
        fn, msg = s.attempts(m.name + " " + name, once)
        return fn or s.fn, msg
    def atC(s, name, checker, out=0, kind="G", z0=False):
        """evaluation at a given deformation tensor, one point; the deformed surface must not matter"""
        m = s.mat
        def once(t):
            smp = s.sample("generic", 1, 1, t, z0=z0)
            C = smp.G("def", 0, 0); D = None
            other = ms.Sample((s.seed, t, "other"), m.dim, m.law, K=1, Z=1, aligned=False)
            keep = smp.dfm[0]
            w = MW(m.tu, smp, m.id); D = Def(smp, w.log)
            fn = resolve(w, m.id, name, atC); s.fn = fn
            smp.dfm[0] = other.dfm[0]
            v = value(w, w.run(fn, [V(M.col([C[0, 0], C[1, 1], C[0, 1]])), I(smp.patch), V(smp.u), V(smp.z.a[0]), I(out)]), name)
            smp.dfm[0] = keep; smp.lines.clear()
            if v.c != 1: return fn, "returns %d columns for one point" % v.c
            e = checker(D, 0, 0, [v[i, 0] for i in range(v.r)], kind)
            return fn, e
        fn, msg = s.attempts(m.name + " " + name, once)
        return fn or s.fn, msg
    def into(s, name, checker, K=3):
        m = s.mat
        def once(t):
            smp = s.sample("generic", K, 1, t, z0=True)
            w = MW(m.tu, smp, m.id)
            fn = resolve(w, m.id, name, into); s.fn = fn
            rets = w.run(fn, [I(smp.patch), V(smp.u), V(w.garbage(2, 5))])
            if not rets: raise DomainError("raises an error")
            st = rets[0][0]; v = st.env.get(fn["p"][2]["i"])
            if len(rets) != 1 or v is None or not isM(v): raise AnalysisError("%s: result not determined" % name)
            v = v[1]
            if v.c != K: return fn, "returns %d columns for %d points" % (v.c, K)
            D = Def(smp, w.log)
            for k in range(K):
                e = checker(D, k, 0, [v[i, k] for i in range(v.r)], "G")
                if e: return fn, "at point %d: %s" % (k, e)
            return fn, None
        fn, msg = s.attempts(m.name + " " + name, once)
        return fn or s.fn, msg

# what is evaluated for which property; each entry: (label, function of a Case)
LIN_KINDS = {"eval3D_stress": {"Generic": "G", "Stress": "G", "StressN": "N", "StressM": "M"}, "eval3D_vector": {"VectorN": "N", "VectorM": "M"},
             "eval3D_CauchyStress": {"Generic": "G", "CauchyStressN": "N", "CauchyStressM": "M"}, "eval3D_CauchyVector": {"CauchyVectorN": "N", "CauchyVectorM": "M"},
             "eval3D_pstress": {"Generic": "G", "PStress": "G", "PStressN": "N", "PStressM": "M"}, "eval3D_CauchyPStress": {"PCauchyStressN": "N", "PCauchyStressM": "M"}, "eval3D_pstressDir": {"Generic": "G"}}
def entries(prop, mat, tier):
    E = mat.tu.enum("MaterialOutput"); out = []
    thorough = tier == "thorough"
    def add(label, f): out.append((label, f))
    def pts(name, spec=None, **kw):
        sp = spec or SPEC[name]; lab = name + "".join(" %s=%s" % (a, b) for a, b in kw.items() if a not in ("kind", "out"))
        if mat.lin and name in LIN_KINDS:
            for o, kind in LIN_KINDS[name].items():
                if kind == "M" and mat.dim == 2: continue
                add("%s(%s)" % (lab, o), lambda c, o=o, kind=kind: c.points(name, sp, out=E[o], kind=kind, **kw))
        else: add(lab, lambda c: c.points(name, sp, **kw))
    def states(name):
        pts(name, K=3, Z=2) if not mat.comp or thorough else pts(name, K=2, Z=2)
        pts(name, K=1, Z=2)
        pts(name, state="reference", K=2, Z=1)
        if mat.lin: return
        if not mat.comp or mat.law.mat in ("OG", "MR"): pts(name, state="equal", K=2, Z=1)
        if mat.dim == 2 and not mat.comp: pts(name, state="trace2", K=2, Z=1)
    if prop == "stress":
        states("eval3D_stress"); pts("eval3D_vector", K=2, Z=1)
    if prop == "tangent":
        states("eval3D_matrix")
        if not mat.comp: pts("eval3D_dmatrix", K=2, Z=2)
    if prop == "C":
        if mat.lin:
            add("eval3D_matrix_C", lambda c: c.atC("eval3D_matrix_C", SPEC["eval3D_matrix"]))
            add("eval3D_vector_C", lambda c: c.atC("eval3D_vector_C", SPEC["eval3D_vector"], out=E["VectorN"], kind="N", z0=True))
        else:
            for n in ("matrix", "stress", "vector"): add("eval3D_%s_C" % n, lambda c, n=n: c.atC("eval3D_%s_C" % n, SPEC["eval3D_" + n]))
    if prop == "derived":
        for n in SPEC:
            if n in ("eval3D_stress", "eval3D_vector", "eval3D_matrix", "eval3D_dmatrix"): continue
            if n == "eval3D_pstretchDir" and mat.lin: pass
            pts(n, K=2, Z=1 if mat.lin and "pstress" in n.lower() else 2)
        if mat.lin or mat.imp == "Analytical" or thorough:
            for mode in range(3):
                for q in range(4): add("eval3D_tensionfield mode %d sample %d" % (mode, q), lambda c, mode=mode, q=q: c.points("eval3D_tensionfield", c_tension(mode), K=2, Z=1, options={"TensionField": I(mode)}, salt=q))
    if prop == "history":
        modes = ["another patch"] + ([] if mat.comp else ["another deformation of the same patch"])
        both = ("eval3D_stress", "eval3D_matrix")
        ns = [n for n in SPEC if n != "eval3D_dmatrix"] if not mat.comp and (thorough or mat.lin or mat.imp == "Analytical") else list(both)
        for mode in modes:
            for n in ns:
                for pre in [n] + [x for x in both if x != n and (n in both or thorough)]:
                    add("%s after %s for %s" % (n, pre, mode), lambda c, n=n, pre=pre, mode=mode: c.history(pre, n, SPEC[n], mode))
    if prop == "data":
        add("density_into", lambda c: c.into("density_into", eq(lambda d, k, j, o: [d.s.rho[k] * d.s.T[k]])))
        add("thickness_into", lambda c: c.into("thickness_into", eq(lambda d, k, j, o: [d.s.T[k]])))
        add("parameters_into", lambda c: c.into("parameters_into", eq(lambda d, k, j, o: d.s.par[k])))
        if mat.comp: add("pstretch_into", lambda c: c.into("pstretch_into", c_pstretch)); add("pstretchDir_into", lambda c: c.into("pstretchDir_into", c_pstretchdir))
    return out

def job(a):
    """all entries of some classes of one unit; runs in its own process"""
    unit, part, prop, tier, seed = a
    try:
        tu = facts.load(UNITS[unit]); out = []
        cs = classes(tu)
        for mat in cs[part[0]::part[1]]:
            for label, f in entries(prop, mat, tier):
                c = Case(mat, tier, seed); t = time.time()
                try: fn, msg = f(c)
                except AnalysisError as e: out.append(("%s: %s" % (mat.name, label), "", None, str(e), 0)); continue
                out.append(("%s: %s" % (mat.name, label), where(fn), msg is None, msg or "", round(time.time() - t, 2)))
        return len(cs[part[0]::part[1]]), out, None
    except AnalysisError as e: return 0, [], str(e)
    except Exception: return 0, [], "internal error: " + traceback.format_exc()[-1500:]

def rule(pid, prop, title, minimum, units=None):
    def f(tier, seed):
        us = units or list(UNITS)
        facts.extract([UNITS[u] for u in us])
        jobs = [(u, (i, n), prop, tier, seed) for u in us for n in [1 if u == "lin" else 3] for i in range(n)]
        res = Result(pid, title, minimum)
        with multiprocessing.Pool(8) as pool:
            for n, out, err in pool.imap(job, jobs):
                if err: raise AnalysisError(err)
                res.count("material classes", n)
                for key, wh, ok, msg, t in out:
                    if ok is None: res.err("%s: %s" % (key, msg))
                    else: res.ob(key, wh, ok, msg)
                    res.count("evaluations")
        res.assume("identity of two terms is decided by value numbering in a field of 2^61 elements with nilpotent infinitesimals (probability of a wrong identity below 2^-50)",
                   "numbers are exact: rounding, tolerances and conditioning are outside the rule", "G+Smo core (gsMapData, gsFunctionSet::eval, Eigen) behaves as documented",
                   "compressible laws: states within a power series (order %d) of an exactly solvable plane-stress state" % (2 if tier == "quick" else 3))
        return res
    return f
RULES = {
 "S08": rule("S08", "stress", "the stress a material returns is twice the derivative of its stored energy at that point, level and deformation", 100),
 "S09": rule("S09", "tangent", "the material matrix is the derivative of the stress with respect to the strain (plane stress condensed)", 90),
 "S10": rule("S10", "C", "evaluation at a given deformation tensor agrees with evaluation at a deformed surface having that tensor", 80),
 "S11": rule("S11", "derived", "derived outputs (principal values and directions, Cauchy stress, volume ratio, strain, deformation) are those of the stress and deformation", 300),
 "S12": rule("S12", "data", "density, thickness, parameters and mid-surface stretches are evaluated at the requested points of the requested patch", 100),
}

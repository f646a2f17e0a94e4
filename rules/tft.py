"""Tension-field material: the response per state (taut, wrinkled, slack) of every point, and the tangent of the wrinkled state."""
import facts
from facts import AnalysisError, where
from flow import I, show
from field import N, M, Retry, DomainError, eps
from matdom import V, isM, Oob, lift
import matsample as ms
from materials import MW, value, resolve, atpoints
from report import Result
RULES = {}
UNIT = "gsMaterialMatrixBaseDim_+gsMaterialMatrixTFT_"
ROWS = {"eval3D_matrix": 9, "eval3D_stress": 3, "eval3D_vector": 3, "eval3D_strain": 3, "eval3D_CauchyStress": 3, "eval3D_CauchyVector": 3, "eval3D_pstress": 2, "eval3D_CauchyPStress": 2, "eval3D_pstrain": 3,
        "eval3D_tensionfield": 1, "eval3D_detF": 1, "eval3D_dmatrix": 27, "eval3D_pstretch": 3, "eval3D_pstretchDir": 9}
DATA = {"density_into": 1, "thickness_into": 1, "parameters_into": 2}

def nv(c, s): return M.col([c * c, s * s, c * s * 2]), M.col([-(s * c), s * c, c * c - s * s])
def gamma(c, s, C, S):
    n1, _ = nv(c, s); return -(n1.dot(S)) / n1.dot(C * n1)
def resid(c, s, C, S):
    n1, n2 = nv(c, s); return n2.dot(S) + gamma(c, s, C, S) * n2.dot(C * n1)
def wstress(c, s, C, S):
    n1, _ = nv(c, s); return S + (C * n1).scale(gamma(c, s, C, S))
def wstrain(c, s, C, S, E):
    n1, _ = nv(c, s); return E + n1.scale(gamma(c, s, C, S))

class Model:
    """underlying material as a table of independent values per output, deformed geometry, point and level"""
    def __init__(s, smp, states):
        s.smp, s.R, s.states, s.val, s.trig = smp, smp.rng, states, {}, {}
    def sym(s, *k): return s.R("tft", *k)
    def angle(s, k, j, g):
        t = s.sym("t", k, j, g); d = (N.of(1) + t * t).inv(); th = s.sym("theta", k, j, g)
        s.trig[th.base()] = ((N.of(1) - t * t) * d, t * 2 * d); return th
    def C(s, k, j, g):
        m = [[s.sym("C", k, j, g, min(a, b), max(a, b)) for b in range(3)] for a in range(3)]; return M.rows(m)
    def S(s, k, j, g):
        """a stress for which the angle is the wrinkling angle"""
        c, q = s.trig[s.angle(k, j, g).base()]; C = s.C(k, j, g); v = [s.sym("S", k, j, g, 0), s.sym("S", k, j, g, 1)]
        f = lambda x: resid(c, q, C, M.col(v + [x])); f0 = f(N.of(0)); f1 = f(N.of(1))
        return M.col(v + [-f0 / (f1 - f0)])
    def dC(s, k, j, g):
        """half the derivative of C to the strain, symmetric in all indices"""
        d = lambda *i: s.sym("dC", k, j, g, *sorted(i))
        return [M.rows([[d(a, b, i) for b in range(3)] for a in range(3)]) for i in range(3)]
    def get(s, name, k, j, g, out):
        if name == "eval3D_vector": name = "eval3D_stress"
        if name == "eval3D_CauchyVector": name = "eval3D_CauchyStress"
        if name == "eval3D_tensionfield": return [N.of(s.states[g][k][j])]
        mem = {"eval3D_matrix": ("MatrixA", "Generic"), "eval3D_dmatrix": ("MatrixA", "Generic"), "eval3D_stress": ("VectorN", "StressN"), "eval3D_CauchyStress": ("CauchyVectorN", "CauchyStressN")}.get(name)
        if mem:
            if out not in mem: return [s.sym(name, out, k, j, g, i) for i in range(ROWS[name])]
            if name == "eval3D_matrix": C = s.C(k, j, g); return [C[a, b] for b in range(3) for a in range(3)]
            if name == "eval3D_stress": return list(s.S(k, j, g).a)
            if name == "eval3D_dmatrix": return [D[a, b] for D in s.dC(k, j, g) for b in range(3) for a in range(3)]
            out = "N"
        if name in ("eval3D_strain", "eval3D_pstrain", "eval3D_detF"): out = ""
        return [s.sym(name, out, k, j, g, i) for i in range(ROWS[name])]

class TW(MW):
    def __init__(s, tu, smp, cid, model, options):
        super().__init__(tu, smp, cid, options)
        s.md = model; s.mat = ("sym", "mat"); s.members["m_materialMat"] = s.mat; s.members["m_defpatches0"] = ("sym", "explicit")
        s.outs = {v: k for k, v in tu.enum("MaterialOutput").items()}; s.mutated = []
        s.zt = {smp.z[j, k].base(): (j, k) for j in range(smp.Z) for k in range(smp.K)}
        s.memoN = {}
    def defm(s, obj, st):
        g = st.heap.get(("m", obj, "#def")); return "def" if g is None else g[1] if g[0] == "sym" else None
    def leaf_(s, w, x, obj, args, st):
        n = x["n"]
        if obj is not None and obj[0] == "deref": obj = obj[1]
        if n in ("__builtin_nanf", "__builtin_nan", "nan", "quiet_NaN"): return V(s.md.sym("NaN"))
        if n in ("cos", "sin") and len(args) == 1 and isM(args[0]) and args[0][1].isscal():
            t = args[0][1].a[0]; p = s.md.trig.get(t.base())
            if p is None:                      # the angle of nothing: an arbitrary point of the circle
                q = s.md.sym("circle", t.base()); d = (N.of(1) + q * q).inv(); p = s.md.trig[t.base()] = ((N.of(1) - q * q) * d, q * 2 * d)
            return V(p[n == "sin"])
        if n == "eval_theta" and all(isM(a) for a in args[:3]): return V(s.theta([a[1] for a in args[:3]]))
        if obj == s.mat or (obj is not None and obj[0] == "obj" and len(obj) > 2 and obj[2] == "matclone"):
            if n in ("get", "operator->", "operator*"): return obj
            if n == "getDeformed": return ("sym", s.defm(obj, st))
            if n == "clone":
                s.uid += 1; o = ("obj", s.uid, "matclone"); st.heap[("m", o, "#def")] = ("sym", s.defm(obj, st)); return o
            if n == "setDeformed":
                a = args[0][1] if args[0][0] == "addr" else args[0]
                st.heap[("m", obj, "#def")] = a if a[0] == "sym" else ("sym", "?"); return ("void",)
            if n in ROWS and len(args) >= 3: return V(s.table(n, args, s.defm(obj, st)))
            if n in DATA:
                key = s.lval(x["a"][2], st, True)
                if key is None or not isM(args[1]): return None
                s.store(key, V(s.data_(n, args)), st, x["l"], "upd"); return ("void",)
        return super().leaf_(w, x, obj, args, st)
    def data_(s, n, args):
        u = args[1][1]; p = s.int_(args[0]); cols = []
        for c in range(u.c):
            k = s.pt.get(tuple(u[i, c].base() for i in range(2))) if p == s.smp.patch else None
            cols.append([s.md.sym(n, k, i) for i in range(DATA[n])])
        return M(DATA[n], u.c, [cols[c][i] for i in range(DATA[n]) for c in range(u.c)])
    def table(s, n, args, g):
        """columns j*u.cols()+k; a level that does not belong to its point gives an unrelated value"""
        u, z = args[1][1], lift(args[2]); p = s.int_(args[0]); o = s.int_(args[3]) if len(args) > 3 else None
        out = s.outs.get(o) if o is not None else "Generic"      # omitted: the default of the declaration
        cols = []
        if z.r != 0 and z.c < u.c: raise Oob("%s: levels for %d of %d points" % (s.place(), z.c, u.c))
        for j in range(z.r):
            for k in range(u.c):
                kk = s.pt.get(tuple(u[i, k].base() for i in range(2))) if p == s.smp.patch else None
                jk = s.zt.get(z[j, k].base())
                if kk is None or jk is None or jk[1] != kk or g not in ("def", "explicit"): cols.append([s.md.sym("stray", n, out, str((p, kk, jk, g)), i) for i in range(ROWS[n])])
                else: cols.append(s.md.get(n, kk, jk[0], g, out))
        return M(ROWS[n], len(cols), [c[i] for i in range(ROWS[n]) for c in cols])
    def theta(s, a):
        C, S, E = a; out = []
        ncol = C.c
        def same(m, c, want, n):
            return m.r * m.c >= n and [m[i, c] for i in range(m.r)] == want if m.r == n else False
        for c in range(ncol):
            hit = None
            for k in range(s.smp.K):
                for j in range(s.smp.Z):
                    g = "def"; md = s.md
                    want = [md.get("eval3D_matrix", k, j, g, "MatrixA"), md.get("eval3D_stress", k, j, g, "VectorN"), md.get("eval3D_strain", k, j, g, "")]
                    if all(m.r == len(w_) and all(m[i, c] == w_[i] for i in range(m.r)) for m, w_ in zip((C, S, E), want)): hit = md.angle(k, j, g)
            out.append(hit if hit is not None else s.md.sym("notheta", s.place(), c))
        return M.row(out)

def want(md, name, k, j, out, mult, explicit, linear):
    """definition of what the tension-field material returns at a point; None: not checked"""
    st = md.states["explicit" if explicit else "def"][k][j]; g = "def"
    get = lambda n, o="": md.get(n, k, j, g, o)
    if name == "eval3D_tensionfield": return [N.of(st)]
    if name in ("eval3D_pstress", "eval3D_pstrain"): v = get(name, out); return v if st != -1 else [x * mult for x in v]
    if name in ("eval3D_theta", "eval3D_gamma"):
        if st != 0: return [md.sym("NaN")]
        th = md.angle(k, j, g); c, s = md.trig[th.base()]
        return [th] if name == "eval3D_theta" else [gamma(c, s, md.C(k, j, g), md.S(k, j, g))]
    base = {"eval3D_matrix": ("eval3D_matrix", "MatrixA"), "eval3D_stress": ("eval3D_stress", "VectorN"), "eval3D_vector": ("eval3D_stress", "VectorN"), "eval3D_strain": ("eval3D_strain", ""), "eval3D_CauchyStress": ("eval3D_CauchyStress", "CauchyStressN")}[name]
    v = get(*base)
    if st == 1: return v
    if st == -1: return [x * mult for x in v]
    th = md.angle(k, j, g); c, s = md.trig[th.base()]; C, S = md.C(k, j, g), md.S(k, j, g)
    if name == "eval3D_strain": return list(wstrain(c, s, C, S, M.col(v)).a)
    if name in ("eval3D_stress", "eval3D_vector"): return list(wstress(c, s, C, S).a)
    if name == "eval3D_CauchyStress":
        d = get("eval3D_detF")[0]; return [x / d for x in wstress(c, s, C, S).a]
    # tangent: derivative of the wrinkled stress to the strain, the angle following f = 0
    cols = []; e = eps(0)
    dC = [m.scale(N.of(2)) for m in md.dC(k, j, g)] if not linear else [M.zero(3, 3)] * 3
    for d in range(3):
        S1 = S + M.col([C[i, d] for i in range(3)]).scale(e); C1 = C + dC[d].scale(e)
        a = resid(c, s, C1, S1).coef(0); b = resid(c - s * e, s + c * e, C, S).coef(0); dt = -(a / b) * e
        cols.append([x.coef(0) for x in wstress(c - s * dt, s + c * dt, C1, S1).a])
    return [x for col in cols for x in col]

def check(res, tu, r, tier, seed):
    dim = int(r["cargs"][0]); linear = r["cargs"][2] == "true"; lab = "TFT %dd %s" % (dim, "linear" if linear else "nonlinear")
    E = tu.enum("MaterialOutput")
    names = ["eval3D_matrix", "eval3D_vector", "eval3D_stress", "eval3D_CauchyStress", "eval3D_strain", "eval3D_pstress", "eval3D_pstrain", "eval3D_tensionfield", "eval3D_theta", "eval3D_gamma"]
    for name in names:
        for explicit in (False, True):
            for K, Z, rot in ((3, 1, 0), (2, 2, 1), (1, 2, 2), (3, 2, 0)):
                key = "%s %s%s %d points %d levels" % (lab, name, " explicit" if explicit else "", K, Z); fn = None
                for t in range(60):
                    try:
                        smp = ms.Sample((seed, t, "tft"), dim, None, K=K, Z=Z, aligned=True)
                        st3 = (1, 0, -1)
                        states = {"def": [[st3[(k + j + rot) % 3] for j in range(Z)] for k in range(K)], "explicit": [[st3[(k + j + rot + 1) % 3] for j in range(Z)] for k in range(K)]}
                        md = Model(smp, states); mult = md.sym("slack")
                        for k in range(K):
                            for j in range(Z): md.angle(k, j, "def")
                        w = TW(tu, smp, r["id"], md, {"SlackMultiplier": V(mult), "Explicit": I(explicit)})
                        fn = resolve(w, r["id"], name, atpoints)
                        # incompressible or not is the underlying material's business: its volume ratio is the given one
                        rets = w.run(fn, [I(smp.patch), V(smp.u), V(smp.z), I(E["Generic"] if name not in ("eval3D_pstress",) else E["PStressN"])])
                        v = value(w, rets, name); msg = None
                        if v.c != K * Z: msg = "returns %d columns for %d points at %d levels" % (v.c, K, Z)
                        for k in range(K):
                            for j in range(Z):
                                if msg: break
                                q = want(md, name, k, j, "PStressN", mult, explicit, linear); got = [v[i, j * K + k] for i in range(v.r)]
                                if len(q) != len(got): msg = "has %d rows instead of %d" % (len(got), len(q))
                                elif not all(a == b for a, b in zip(got, q)):
                                    msg = "at point %d, level %d, which is %s: not the %s of that state" % (k, j, {1: "taut", 0: "wrinkled", -1: "slack"}[states["explicit" if explicit else "def"][k][j]], name[7:])
                        if w.defm(w.mat, rets[0][0]) != "def": msg = "leaves the underlying material on another deformed geometry"
                        break
                    except Retry: continue
                    except (Oob, DomainError) as e: msg = str(e); break
                else: raise AnalysisError(key + ": no admissible sample")
                res.ob(key, where(fn), msg is None, msg or ""); res.count("evaluations")
    # forwarded outputs
    for name in ("eval3D_pstretch", "eval3D_pstretchDir", "eval3D_CauchyPStress"):
        smp = ms.Sample((seed, name, "tft"), dim, None, K=2, Z=2, aligned=True); md = Model(smp, {"def": [[1, 1]] * 2})
        w = TW(tu, smp, r["id"], md, {}); fn = resolve(w, r["id"], name, atpoints)
        try:
            v = value(w, w.run(fn, [I(smp.patch), V(smp.u), V(smp.z), I(E["PCauchyStressN"])]), name)
            ok = v.c == 4 and all([v[i, j * 2 + k] for i in range(v.r)] == md.get(name, k, j, "def", "PCauchyStressN" if "Cauchy" in name else "Generic") for k in range(2) for j in range(2))
            res.ob("%s %s" % (lab, name), where(fn), ok, "not the value of the underlying material")
        except (Oob, DomainError) as e: res.ob("%s %s" % (lab, name), where(fn), False, str(e))
    for name in ("density_into", "thickness_into"):
        smp = ms.Sample((seed, name, "tft"), dim, None, K=2, Z=1, aligned=True); md = Model(smp, {"def": [[1]] * 2})
        w = TW(tu, smp, r["id"], md, {}); fn = resolve(w, r["id"], name, lambda f: len(f["p"]) == 3)
        rets = w.run(fn, [I(smp.patch), V(smp.u), V(w.garbage(2, 5))])
        v = rets[0][0].env.get(fn["p"][2]["i"]) if len(rets) == 1 else None
        res.ob("%s %s" % (lab, name), where(fn), v is not None and isM(v) and v[1].r == 1 and v[1].c == 2 and all(v[1][0, k] == md.sym(name, k, 0) for k in range(2)), "not the value of the underlying material")

def objective(res, tu, seed):
    """the equation the wrinkling angle is computed from"""
    fs = [f for f in tu.functions if f["n"] == "eval_into" and (f.get("cls") or "").split("<")[0].endswith("objective")]
    if not fs: raise AnalysisError("the equation of the wrinkling angle (objective::eval_into) was not found")
    for fn in fs[:1]:
        smp = ms.Sample((seed, "obj"), 2, None, K=2, Z=1, aligned=True); md = Model(smp, {})
        w = TW(tu, smp, fn["cid"], md, {})
        C = M.rows([[md.sym("C", min(a, b), max(a, b)) for b in range(3)] for a in range(3)]); S = M.col([md.sym("S", i) for i in range(3)])
        w.members["m_C"] = V(C); w.members["m_S"] = V(S)
        th = [md.angle(k, 0, "def") for k in range(3)]
        rets = w.run(fn, [V(M.row(th)), V(w.garbage(2, 5))])
        v = rets[0][0].env.get(fn["p"][1]["i"]) if len(rets) == 1 else None
        if v is None or not isM(v): raise AnalysisError("objective: result not determined")
        ok = v[1].r == 1 and v[1].c == 3 and all(v[1][0, k] == resid(*md.trig[th[k].base()], C, S) for k in range(3))
        res.ob("wrinkling angle: shear of the wrinkled stress in the wrinkling frame vanishes", where(fn), ok, "the function whose root is the angle is not n1.(S + gamma C n1).n2")

def s26(tier, seed):
    facts.extract([UNIT]); tu = facts.load(UNIT)
    res = Result("S26", "tension-field material: per point and level the response is that of its state (taut: underlying material, slack: scaled, wrinkled: uniaxial stress along the wrinkles with its consistent tangent)", 150)
    rs = sorted((r for r in tu.records if r["q"].split("::")[-1] == "gsMaterialMatrixTFT" and len(r["cargs"]) == 3), key=lambda r: r["cargs"])
    if len(rs) < 4: raise AnalysisError("tension-field material: %d instantiations instead of 4" % len(rs))
    for r in rs: check(res, tu, r, tier, seed); res.count("material classes")
    objective(res, tu, seed)
    res.assume("the angle returned by eval_theta is a root of the checked equation (root finding is numerical, outside the rule)", "the derivative of the material matrix delivered by the underlying material is symmetric in all indices (hyperelastic)",
               "identity of two terms is decided by value numbering in a field of 2^61 elements with nilpotent infinitesimals", "G+Smo core behaves as documented")
    return res
RULES["S26"] = s26

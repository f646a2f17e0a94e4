"""Material evaluators: through-thickness integration, dispatch of outputs, construction of the pieces."""
from fractions import Fraction
import facts, flow
from facts import AnalysisError, where
from flow import show, I
from field import N, M, Rng, Retry, DomainError
from matdom import MatWalker, V, isM, Oob, lift, shape_of_type
from objdom import ObjWalker, NullUse
from report import Result

VEC, CAU, MAT, PST = "eval3D_vector", "eval3D_CauchyVector", "eval3D_matrix", "eval3D_pstress"
# output -> (routine of the material, rows, moment of the thickness integral, moment when the routine returns
#            the coefficient of a field that is constant (N, A..D) or proportional to the height (M))
INTEGRATE = {"VectorN": (VEC, 3, 0, 0), "VectorM": (VEC, 3, 1, 2), "CauchyVectorN": (CAU, 3, 0, 0), "CauchyVectorM": (CAU, 3, 1, 2),
             "MatrixA": (MAT, 9, 0, 0), "MatrixB": (MAT, 9, 1, 1), "MatrixC": (MAT, 9, 1, 1), "MatrixD": (MAT, 9, 2, 2),
             "PStressN": (PST, 2, 0, 0), "PStressM": (PST, 2, 1, 2)}
ROWS = {VEC: 3, CAU: 3, MAT: 9, PST: 2, "eval3D_CauchyPStress": 2, "eval3D_pstretch": 3, "eval3D_pstretchDir": 9, "eval3D_pstressDir": 9,
        "eval3D_pstrain": 3, "eval3D_strain": 3, "eval3D_stress": 3, "eval3D_CauchyStress": 3, "eval3D_pstretchTransform": 9,
        "eval3D_pstressTransform": 9, "eval3D_spec2cov": 9, "eval3D_spec2con": 9, "eval3D_cov2cart": 9, "eval3D_con2cart": 9,
        "eval3D_tensionfield": 1, "eval3D_theta": 1, "eval3D_gamma": 1, "eval3D_deformation": 9,
        "thickness_into": 1, "density_into": 1, "parameters_into": 5, "stretch_into": 3, "stretchDir_into": 9}
EVAL = {"Generic": VEC, "VectorN": VEC, "VectorM": VEC, "CauchyVectorN": CAU, "CauchyVectorM": CAU, "MatrixA": MAT, "MatrixB": MAT,
        "MatrixC": MAT, "MatrixD": MAT, "PStress": PST, "PStressN": PST, "PStressM": PST, "PCauchyStressN": "eval3D_CauchyPStress",
        "PCauchyStressM": "eval3D_CauchyPStress", "PStressDir": "eval3D_pstressDir", "PStrainN": "eval3D_pstrain", "PStrainM": "eval3D_pstrain",
        "Stretch": "eval3D_pstretch", "StretchDir": "eval3D_pstretchDir", "TensionField": "eval3D_tensionfield", "Theta": "eval3D_theta",
        "Gamma": "eval3D_gamma", "Strain": "eval3D_strain", "StrainN": "eval3D_strain", "StrainM": "eval3D_strain", "Stress": "eval3D_stress",
        "StressN": "eval3D_stress", "StressM": "eval3D_stress", "CauchyStress": "eval3D_CauchyStress", "CauchyStressN": "eval3D_CauchyStress",
        "CauchyStressM": "eval3D_CauchyStress", "Spec2CovTransform": "eval3D_spec2cov", "Spec2ConTransform": "eval3D_spec2con",
        "Cov2CartTransform": "eval3D_cov2cart", "Con2CartTransform": "eval3D_con2cart", "StretchTransform": "eval3D_pstretchTransform",
        "PStressTransform": "eval3D_pstressTransform", "Thickness": "thickness_into", "Parameters": "parameters_into",
        "Deformation": "eval3D_deformation", "Density": "density_into"}
STATUS = ("NotIntegrated", "Integrated", "Constant", "Linear")
half = N.of(Fraction(1, 2))

class EW(MatWalker):
    K, NG, Z, PATCH = 3, 4, 2, 5
    def __init__(s, tu, rng, status=None, vecstatus=None):
        super().__init__(tu, rng, leaf=lambda *a: s.leaf_(*a))
        s.status = status; s.vecstatus = vecstatus
        s.u = rng.mat(2, s.K, "u"); s.T = rng.mat(1, s.K, "T"); s.z = rng.mat(s.Z, 1, "z")
        s.members["m_materialMat"] = ("sym", "mat"); s.members["m_pIndex"] = I(s.PATCH); s.members["m_z"] = V(s.z)
        s.calls = []; s.bad = []
    def value(s, name, out, k, z, i):
        """entry i of a material routine at point k and (dimensionless) height z"""
        r = lambda *a: s.rng("f", name, out, i, k, *a)
        if s.status == "Linear": return r(0) + z * s.T[0, k] * r(1)
        if s.status == "Constant": return r(0)
        return r(z.base())
    def x_ctor(s, x, st):
        if "gsGaussRule" in x["t"]: return s.gauss(tuple(s.expr(y, st) for y in x["a"]))
        return super().x_ctor(x, st)
    def gauss(s, a):
        n = s.int_(a[0]) if a else None
        if n is None: raise AnalysisError("Gauss rule with an unknown number of points at " + s.place())
        return ("gauss", n)
    def check(s, args, what):
        if s.int_(args[0]) != s.PATCH: s.bad.append("%s is called for another patch (%s)" % (what, s.place()))
        u = lift(args[1])
        if u is None: raise AnalysisError("%s at unknown points, %s" % (what, s.place()))
        return u
    def cols(s, u, what):
        out = []
        for c in range(u.c):
            k = [k for k in range(s.K) if all((u[i, c] - s.u[i, k]).zero() for i in range(2))] if u.r == 2 else []
            if not k: s.bad.append("%s at points that were not asked for (%s)" % (what, s.place())); k = [0]
            out.append(k[0])
        return out
    def leaf_(s, w, x, obj, args, st):
        n = x["n"]
        if obj is None: return None
        if obj[0] == "deref": obj = obj[1]
        if obj[0] == "gauss" and n == "mapTo":
            lo, hi = lift(args[0]).a[0], lift(args[1]).a[0]; q = obj[1]
            nd = M.row([(lo + hi) * half + (hi - lo) * half * s.rng("xi", q, j) for j in range(q)])
            wt = M.col([(hi - lo) * half * s.rng("om", q, j) for j in range(q)])
            for a, v in ((x["a"][2], nd), (x["a"][3], wt)):
                key = s.lval(a, st, True)
                if key is None: raise AnalysisError("Gauss nodes at " + s.place())
                s.store(key, V(v), st, x["l"], "upd")
            return ("void",)
        if obj == ("sym", "opt"):
            if n in ("askInt", "getInt") and args[0] == ("str", "NumGauss"): return I(s.NG)
            return None
        if obj == ("sym", "mat"):
            if n == "isMatIntegrated": return I(STATUS.index(s.status))
            if n == "isVecIntegrated": return I(STATUS.index(s.vecstatus or s.status))
            if n == "options": return ("sym", "opt")
            if n == "numParameters": return I(ROWS["parameters_into"])
            if n.endswith("_into") and n in ROWS:
                u = s.check(args, n); ks = s.cols(u, n); r = ROWS[n]; s.calls.append((n, None))
                v = M(r, u.c, [s.T[0, k] if n == "thickness_into" else s.rng("f", n, i, k) for i in range(r) for k in ks])
                key = s.lval(x["a"][2], st, True)
                s.store(key, V(v), st, x["l"], "upd"); return ("void",)
            if n in ROWS:
                u = s.check(args, n); ks = s.cols(u, n); Z = lift(args[2])
                if Z is None: raise AnalysisError("%s at unknown heights, %s" % (n, s.place()))
                if Z.c != u.c: s.bad.append("%s: %d points but heights for %d (%s)" % (n, u.c, Z.c, s.place())); return V(s.garbage(ROWS[n], Z.r * u.c))
                out = s.int_(args[3]) if len(args) > 3 else None
                s.calls.append((n, out))
                return V(M(ROWS[n], Z.r * u.c, [s.value(n, out, k, Z[j, c], i) for i in range(ROWS[n]) for j in range(Z.r) for c, k in enumerate(ks)]))
        return None
    def binop(s, o, a, b, x):
        if o in ("==", "!=") and (a == ("null",) or b == ("null",)):
            y = b if a == ("null",) else a
            if y[0] in ("sym", "addr"): return I(o == "!=")
        return super().binop(o, a, b, x)

def singles(tu, cls):
    e = tu.enum("MaterialOutput"); inv = {v: k for k, v in e.items()}
    out = {}
    for f in tu.find("eval_into", cls):
        a = f["cargs"][1]
        n = a.split("::")[-1]
        n = inv.get(int(n), n) if n.lstrip("-").isdigit() else n
        out[n] = (f, [g for g in tu.find("targetDim", cls) if g["cargs"] == f["cargs"]])
    return out, e

def runinto(w, fn):
    rets = w.run(fn, [V(w.u), V(w.garbage(2, 7))])
    if not rets: raise DomainError("raises an error")
    st = rets[0][0] if len(rets) == 1 else w.mergelist(rets, ())[0]
    v = st.env.get(fn["p"][1]["i"])
    if v is None or not isM(v): raise AnalysisError("%s: result not determined: %s %s" % (where(fn), show(v)[:120] if v else v, w.notes[:2]))
    return v[1]

def dim_of(tu, rng, fs):
    w = EW(tu, rng, "NotIntegrated")
    if len(fs) != 1: return None
    r = w.run(fs[0], [])
    if not r: return None
    return w.int_(r[0][1])

def moment(w, name, out, rows, m, mc):
    """definition of the thickness integral of the field the material describes"""
    res = []
    for i in range(rows):
        for k in range(w.K):
            T = w.T[0, k]
            if w.status == "Integrated": v = w.value(name, out, k, N.of(0), i)
            elif w.status == "NotIntegrated":
                v = N.of(0)
                for j in range(w.NG):
                    xi = w.rng("xi", w.NG, j) * half
                    h = N.of(1)
                    for _ in range(m): h = h * xi * T
                    v = v + w.rng("om", w.NG, j) * half * T * h * w.value(name, out, k, xi, i)
            elif w.status == "Constant":
                v = w.value(name, out, k, N.of(0), i) * poly(T, mc)
            else:
                v = w.rng("f", name, out, i, k, 0) * poly(T, m) + w.rng("f", name, out, i, k, 1) * poly(T, m + 1)
            res.append(v)
    return M(rows, w.K, res)
def poly(T, m):
    """integral of x^m over [-T/2, T/2]"""
    if m % 2: return N.of(0)
    r = N.of(Fraction(2, m + 1))
    for _ in range(m + 1): r = r * T * half
    return r

def guarded(res, key, wh, f):
    """run one obligation; an out-of-range access or size mismatch is a violation, an unknown construct is undecided"""
    try: msg = f()
    except (Oob, DomainError) as e: msg = str(e)
    except AnalysisError as e: res.err("%s: %s" % (key, e)); return
    except Retry as e: res.err("%s: no admissible sample (%s)" % (key, e)); return
    res.ob(key, wh, msg is None, msg or "")

def s13(tier, seed):
    res = Result("S13", "the integrated outputs are the thickness moments (N,A:0  M,B,C:1  D:2) of the field the material describes, for each way a material may describe it", 40)
    tu = facts.load("gsMaterialMatrixIntegrate_")
    fs, e = singles(tu, "gsMaterialMatrixIntegrateSingle")
    if list(tu.enum("MatIntegration")) and any(tu.enum("MatIntegration").get(s) != i for i, s in enumerate(STATUS)): raise AnalysisError("integration statuses changed")
    for out, (name, rows, m, mc) in INTEGRATE.items():
        if out not in fs: res.err("no integrated evaluator for " + out); continue
        fn, dims = fs[out]
        for stt in STATUS:
            def go():
                for t in range(2 if tier == "quick" else 8):
                    w = EW(tu, Rng((seed, out, stt, t)), stt); v = runinto(w, fn)
                    res.count("evaluations")
                    if w.bad: return w.bad[0]
                    want = moment(w, name, e[out], rows, m, mc)
                    if (v.r, v.c) != (want.r, want.c): return "result is %dx%d instead of %dx%d" % (v.r, v.c, want.r, want.c)
                    if not (v - want).iszero(): return "not the moment of order %d of %s over the thickness (calls %s)" % (m, name, sorted({c[0] for c in w.calls}))
            guarded(res, "%s, material %s" % (out, stt), where(fn), go)
        guarded(res, "%s target dimension" % out, where(dims[0]) if dims else where(fn), lambda: None if dim_of(tu, Rng(seed), dims) == rows else "target dimension is not %d" % rows)
    if "Density" in fs:
        fn, dims = fs["Density"]
        def go():
            w = EW(tu, Rng((seed, "rho")), "NotIntegrated"); v = runinto(w, fn)
            if w.bad: return w.bad[0]
            return None if (v - M(1, w.K, [w.rng("f", "density_into", 0, k) for k in range(w.K)])).iszero() else "not the surface density"
        guarded(res, "Density", where(fn), go)
    # which description each material declares
    decl(res)
    res.assume("a material that declares Constant returns, for M-type outputs, the coefficient of a stress proportional to the height (linear material: separate property)",
               "nodes and weights of the Gauss rule are those of the library (uninterpreted)")
    return res

EXPECT = [("gsMaterialMatrixLinear_", "gsMaterialMatrixLinear", "Constant"), ("gsMaterialMatrixNonlinear3dIncomp_", "gsMaterialMatrixNonlinear", "NotIntegrated"),
          ("gsMaterialMatrixNonlinear3dComp_", "gsMaterialMatrixNonlinear", "NotIntegrated"), ("gsMaterialMatrixNonlinear2dComp_", "gsMaterialMatrixNonlinear", "NotIntegrated"),
          ("gsMaterialMatrixNonlinear2dIncomp_", "gsMaterialMatrixNonlinear", "NotIntegrated"), ("gsMaterialMatrixTFT_", "gsMaterialMatrixTFT", "Linear"),
          ("gsMaterialMatrixComposite_", "gsMaterialMatrixComposite", "Integrated")]
def decl(res):
    tus = facts.load(*[t for t, _, _ in EXPECT])
    for tu, (tn, cls, want) in zip(tus, EXPECT):
        for m in ("isMatIntegrated", "isVecIntegrated"):
            for f in tu.find(m, cls):
                w = flow.Walker(tu); r = w.run(f, [])
                v = r[0][1] if len(r) == 1 else None
                key = "%s<%s> %s" % (cls, ",".join(f.get("cargs", [])), m)
                if v is None or v[0] != "int": res.err(key + " not determined"); continue
                res.ob(key, where(f), v[1] == STATUS.index(want), "declares %s, its evaluation routines are %s" % (STATUS[v[1]] if 0 <= v[1] < 4 else v[1], want))

def s14(tier, seed):
    res = Result("S14", "each evaluator of a material calls the routine of its own output, on its own patch, at the requested points and all its levels, and announces the number of rows it returns", 60)
    tu = facts.load("gsMaterialMatrixEval_")
    fs, e = singles(tu, "gsMaterialMatrixEvalSingle")
    for out, name in EVAL.items():
        if out not in fs: continue
        fn, dims = fs[out]; rows = ROWS[name]
        def go():
            for t in range(2 if tier == "quick" else 8):
                w = EW(tu, Rng((seed, out, t)), "NotIntegrated"); v = runinto(w, fn); res.count("evaluations")
                if w.bad: return w.bad[0]
                o = {c[1] for c in w.calls if c[0] == name and c[1] is not None}
                if not any(c[0] == name for c in w.calls): return "calls %s instead of %s" % (sorted({c[0] for c in w.calls}), name)
                if o and o != {e[out]}: return "asks %s for another output" % name
                code = e[out] if o else None
                if name.endswith("_into"): want = M(rows, w.K, [w.T[0, k] if name == "thickness_into" else w.rng("f", name, i, k) for i in range(rows) for k in range(w.K)])
                else: want = M(rows, w.Z * w.K, [w.value(name, code, k, w.z[j, 0], i) for i in range(rows) for j in range(w.Z) for k in range(w.K)])
                if (v.r, v.c) != (want.r, want.c) or not (v - want).iszero(): return "does not return %s at the requested points and levels" % name
        guarded(res, "evaluate %s" % out, where(fn), go)
        guarded(res, "%s target dimension" % out, where(dims[0]) if dims else where(fn), lambda: None if dim_of(tu, Rng(seed), dims) == rows else "announces %s rows, returns %d" % (dim_of(tu, Rng(seed), dims), rows))
    return res

# ------------------------------------------------------------------ construction
class PW(ObjWalker):
    NP = 3
    def mleaf(s, x, obj, args, st):
        n = x["n"]
        if obj is None: return None
        o = obj
        while o[0] == "deref": o = o[1]
        if o[0] == "sym" and o[1] in ("und", "def") and n == "nPieces": return I(s.NP)
        if o[0] in ("sym", "clone") and o[1] not in ("und", "def"):
            if n in ("setDeformed", "setUndeformed") and len(args) == 1:
                s.store(("m", o, n), args[0], st, x["l"]); return ("void",)
            if n in ("initialized", "hasDeformed", "hasUndeformed"): return I(1)
            if n == "clone": return ("addr", ("clone", o))
        if n == "assert": return ("void",)
        return None

def pieces(tu, rng, fn, kind, two, zempty):
    """run one constructor on three patches; returns a complaint or None"""
    w = PW(tu, rng); st = flow.St()
    this = w.newobj(fn["cls"], fn["cid"]); pts = []
    z = M(0, 0, []) if zempty else rng.mat(2, 1, "z")
    mats = [("sym", "mat%d" % p) for p in range(w.NP)]
    cont = None
    args = []
    for p in fn["p"]:
        t = p["t"]
        if "gsMaterialMatrixContainer" in t:
            cont = w.newobj("gismo::gsMaterialMatrixContainer", [r["id"] for r in tu.records if r["q"].endswith("::gsMaterialMatrixContainer")][0])
            st.heap[("m", cont, "m_container")] = ("vec", tuple(("addr", m) for m in mats)); args.append(cont)
        elif "gsMaterialMatrixBase" in t: args.append(("addr", mats[0])); mats = [mats[0]] * w.NP
        elif "gsFunctionSet" in t: pts.append(p); args.append(None)
        elif "gsMatrix" in t: args.append(V(z))
        else: raise AnalysisError("constructor parameter %s at %s" % (t, where(fn)))
    k = iter((("addr", ("sym", "und")), ("addr", ("sym", "def"))) if two else (("addr", ("sym", "def")),))
    args = [next(k) if a is None else a for a in args]
    r = w.run(fn, args, this=this, st=st)
    if not r: return "always raises an error"
    st = r[0][0] if len(r) == 1 else w.mergelist(r, ())[0]
    v = w.read(("m", this, "m_pieces"), st)
    if v[0] != "vec": raise AnalysisError("pieces not determined: %s" % show(v)[:200])
    if len(v[1]) != w.NP: return "makes %d evaluators for %d patches" % (len(v[1]), w.NP)
    news = {}
    for p, q in enumerate(v[1]):
        if q == ("null",): return "patch %d has no evaluator" % p
        if q[0] != "addr" or q[1][0] != "obj": raise AnalysisError("piece %d not determined: %s" % (p, show(q)[:200]))
        o = q[1]
        if o in news: return "patches %d and %d share one evaluator" % (news[o], p)
        news[o] = p
        get = lambda n: w.read(("m", o, n), st)
        if w.int_(get("m_pIndex")) is None: raise AnalysisError("patch of piece %d: %s" % (p, show(get("m_pIndex"))))
        if w.int_(get("m_pIndex")) != p: return "the evaluator of patch %d evaluates patch %d" % (p, w.int_(get("m_pIndex")))
        m = get("m_materialMat")
        if m != ("addr", mats[p]): return "the evaluator of patch %d uses the material %s" % (p, show(m)[:80])
        d, u = w.read(("m", mats[p], "setDeformed"), st), w.read(("m", mats[p], "setUndeformed"), st)
        if d != ("addr", ("sym", "def")): return "the material of patch %d is evaluated on another deformed configuration (%s)" % (p, show(d)[:60])
        if two and u != ("addr", ("sym", "und")): return "the material of patch %d is evaluated on another undeformed configuration (%s)" % (p, show(u)[:60])
        if not two and u[0] != "mem": return "the undeformed configuration of the material of patch %d is replaced" % p
        if kind == "Eval":
            mz = get("m_z")
            if not isM(mz): raise AnalysisError("levels of piece %d: %s" % (p, show(mz)[:100]))
            want = M(1, 1, [N.of(0)]) if zempty else z
            if (mz[1].r, mz[1].c) != (want.r, want.c) or not (mz[1] - want).iszero(): return "the evaluator of patch %d has other levels" % p
    made = sum(1 for i in w.inlined if i["n"].endswith("Single"))
    if made != w.NP: return "%d evaluators are allocated for %d patches" % (made, w.NP)
    return None

def s15(tier, seed):
    res = Result("S15", "an evaluator has one piece per patch, holding that patch's index, that patch's material set to the configurations passed, and the levels passed; a material container keeps what is put in it", 60)
    for kind in ("Integrate", "Eval"):
        tu = facts.load("gsMaterialMatrix%s_+gsMaterialMatrixContainer_" % kind); cls = "gsMaterialMatrix" + kind
        for fn in tu.find(cls, cls):
            nf = sum("gsFunctionSet" in p["t"] for p in fn["p"])
            if nf == 0: continue
            src = "container" if "Container" in fn["p"][0]["t"] else "unique pointer" if "unique_ptr" in fn["p"][0]["t"] else "material"
            for ze in (0,):
                key = "%s<%s>(%s, %s)%s" % (cls, fn["cargs"][1].split("::")[-1], src, "undeformed, deformed" if nf == 2 else "deformed", " without levels" if ze else "")
                def go():
                    try: return pieces(tu, Rng((seed, key)), fn, kind, nf == 2, ze)
                    except NullUse as e: return str(e)
                guarded(res, key, where(fn), go); res.count("constructors")
    container(res, seed)
    res.assume("smart pointers of the library do not change the pointer they wrap")
    return res

def container(res, seed):
    tu = facts.load("gsMaterialMatrixContainer_"); cls = "gsMaterialMatrixContainer"
    rec = [r["id"] for r in tu.records if r["q"].endswith("::" + cls)]
    if not rec: raise AnalysisError("no class " + cls)
    A, B, X = ("sym", "matA"), ("sym", "matB"), ("sym", "matX")
    for f in tu.find("add", cls) + tu.find("set", cls):
        t = f["p"][-1]["t"]
        byref = t.rstrip().endswith("&") and "ptr" not in t
        def go():
            w = PW(tu, Rng((seed, "cont"))); st = flow.St(); o = w.newobj(f["cls"], rec[0]); key = ("m", o, "m_container")
            st.heap[key] = ("vec", (("addr", A), ("addr", B)))
            r = w.run(f, [X if byref else ("addr", X)] if f["n"] == "add" else [I(1), X if byref else ("addr", X)], this=o, st=st)
            if not r: return "raises an error"
            v = w.read(key, r[0][0]); n = ("addr", ("clone", X)) if byref else ("addr", X)
            want = ("vec", (("addr", A), ("addr", B), n)) if f["n"] == "add" else ("vec", (("addr", A), n))
            return None if v == want else "the container holds %s" % show(v)[:150]
        guarded(res, "container %s(%s)" % (f["n"], t), where(f), go)
    for f in tu.find("piece", cls):
        def go():
            w = PW(tu, Rng((seed, "cont"))); st = flow.St(); o = w.newobj(f["cls"], rec[0])
            st.heap[("m", o, "m_container")] = ("vec", (("addr", A), ("addr", B)))
            for i, m in enumerate((A, B)):
                r = w.run(f, [I(i)], this=o, st=st.copy())
                if not r or r[0][1] != ("addr", m): return "piece(%d) is %s" % (i, show(r[0][1])[:100] if r else "an error")
        guarded(res, "container piece", where(f), go)
    for f in tu.find("size", cls):
        def go():
            w = PW(tu, Rng((seed, "cont"))); st = flow.St(); o = w.newobj(f["cls"], rec[0])
            st.heap[("m", o, "m_container")] = ("vec", (("addr", A), ("addr", B)))
            r = w.run(f, [], this=o, st=st)
            return None if r and w.int_(r[0][1]) == 2 else "size of a container of two is %s" % (show(r[0][1]) if r else "an error")
        guarded(res, "container size", where(f), go)

RULES = {"S13": s13, "S14": s14, "S15": s15}

# ------------------------------------------------------------------ configuration typestate
EVALUATOR = ("gismo::gsMaterialMatrixIntegrate<", "gismo::gsMaterialMatrixEval<")
USES = {"assemble", "assembleBdr", "assembleIfc", "assembleInterface", "integral", "integralElWise", "integralBdr", "integralBdrElWise",
        "integralBdrBc", "integralInterface", "eval", "evalBdr", "evalIfc", "eval_into", "max", "min", "maxInterface", "writeParaview", "testEval"}
class CW(flow.Walker):
    """emits an event where an evaluator is constructed: from there on its materials are set to its configuration"""
    def __init__(s, tu, effect):
        super().__init__(tu); s.effect = effect; s.noinline |= {"_getOptions", "_defaultOptions", "_initialize", "constructSolution", "constructDisplacement", "constructMultiPatch"}
    def may_inline(s, fn):
        if fn["file"].endswith("gsThinShellUtils.h") or fn["n"].startswith("gsMaterialMatrix"): return False
        return super().may_inline(fn)
    def named(s, val, v):
        if val[0] == "ctor" and val[1].startswith("gismo::gsMaterialMatrixContainer") and all(a[0] == "int" or (a[0] == "call" and a[1] in ("size", "nPieces", "nPatches")) for a in val[2]):
            return ("lcont", v["i"])
        return val
    def ctor(s, t, a, x, st):
        r = super().ctor(t, a, x, st)
        if t.startswith(EVALUATOR) and len(a) > 1: s.emit("mat", r, st, x["l"])
        return r

def config(w, t):
    """(container root, undeformed, deformed) of an evaluator term"""
    a = list(t[2])
    if "Eval<" in t[1]: a = a[:-1]
    fs = a[1:]
    if not 1 <= len(fs) <= 2: raise AnalysisError("evaluator with %d arguments" % len(t[2]))
    return root(w, a[0]), (fs[0] if len(fs) == 2 else None), fs[-1]
def root(w, c):
    """containers that are not local share the materials of the assembler; a local container has materials of its own
    unless something is put into it by pointer"""
    while c[0] in ("deref", "addr", "loopout", "loopvar"): c = c[3] if c[0].startswith("loop") else c[1]
    if c[0] == "lcont":
        for e in w.events:
            if e.kind == "call" and e.term[1] in ("add", "set") and e.term[2] is not None and any(x == c for x in flow.subterms(e.term[2])):
                a = e.term[3][-1]
                if a[0] != "deref" and not any(x[0] == "call" and x[1] == "clone" for x in subterms_(a)): return "the materials of the assembler"
        return c
    return "the materials of the assembler"
def subterms_(t): return [x for x in flow.subterms(t) if x and isinstance(x[0], str)]

def filled(res, f, w):
    """a local container that evaluators use holds the material of every patch, in order"""
    used = {}
    for e in w.events:
        if e.kind == "mat":
            c = e.term[2][0]
            while c[0] in ("deref", "addr", "loopout", "loopvar"): c = c[3] if c[0].startswith("loop") else c[1]
            if c[0] == "lcont": used.setdefault(c, e)
    for c, e0 in used.items():
        ok = False; why = "nothing is put into it"
        for e in w.events:
            if e.kind == "call" and e.term[1] in ("add", "set") and e.term[2] is not None and any(x == c for x in flow.subterms(e.term[2])):
                lp = [(g, flow.loop_range(w, g)) for g, b in e.guards if g[0] == "loop"]
                pc = [x for x in subterms_(e.term[3][-1]) if x[0] == "call" and x[1] == "piece" and len(x[3]) == 1]
                ok = len(lp) == 1 and bool(lp[0][1]) and lp[0][1][2] and bool(pc) and pc[0][3][0][0] == "loopvar" and pc[0][3][0][1] == lp[0][0][1] and (e.term[1] == "add" or e.term[3][0] == pc[0][3][0])
                why = "line %d does not copy the material of every patch to its own place" % e.line
                if not ok: break
        res.ob("materials of %s in %s" % (c[1] if False else "a local container", label(f)), "%s:%d" % (e0.fn["file"], e0.line), ok, why)

def contradict(g1, g2):
    d = dict(g2)
    return any(a in d and d[a] != b for a, b in g1)

def s16(tier, seed):
    res = Result("S16", "at each use, the material objects behind an evaluator are set to the configuration that evaluator was made for (typestate of the shared material: the last evaluator made on it decides)", 60)
    for tn, tu in zip(UNITS16, facts.load(*UNITS16)):
        effect = set()
        def has(f):
            for x in facts.walk(f["body"]):
                if x.get("k") == "ctor" and x.get("t", "").startswith(EVALUATOR) and len(x["a"]) > 1: return True
            return False
        fs = [f for f in tu.functions if f.get("body") and not f["n"].startswith("gsMaterialMatrix")]
        direct = [f for f in fs if has(f)]
        names = {f["n"] for f in direct}
        grew = True
        byid = {f["id"]: f for f in fs if "id" in f}
        calls = {id(f): {x.get("n") for x in facts.walk(f["body"]) if x.get("k") == "c"} for f in fs}
        while grew:
            grew = False
            for f in fs:
                if f["n"] not in names and calls[id(f)] & names: names.add(f["n"]); grew = True
        for f in direct:
            if not f.get("cls", "").startswith("gismo::gs"): continue
            w = CW(tu, names); w.run(f)
            filled(res, f, w)
            uses = mats = 0
            cur = []
            for e in w.events:
                if e.kind == "mat": cur.append((e, config(w, e.term))); mats += 1; continue
                if e.kind != "call": continue
                n = e.term[1]
                if n in names and n not in USES: cur.append((e, None)); continue
                if n not in USES: continue
                evs = {}
                for a in e.term[3]:
                    for t in subterms_(a):
                        if t[0] == "ctor" and t[1].startswith(EVALUATOR) and len(t[2]) > 1: evs[t] = config(w, t)
                if not evs: continue
                uses += 1
                for t, (rt, un, de) in evs.items():
                    bad = None
                    for m, c in reversed(cur):
                        if contradict(m.guards, e.guards): continue
                        if c is None: bad = "%s (line %d) may set another configuration" % (m.term[1], m.line)
                        elif c[0] == rt and (c[2] != de or (un is not None and c[1] is not None and c[1] != un)):
                            bad = "the materials were set to (%s) by the evaluator made at line %d" % (", ".join(show(z) for z in c[1:] if z), m.line)
                        if bad or set(m.guards) <= set(e.guards): break
                    key = "%s %s" % (label(f), t[1].split("MaterialOutput::")[-1].rstrip(">"))
                    res.ob("%s at %s in %s" % (t[1].split("::")[-1].rstrip("> "), n, label(f)) + " #%d" % uses, "%s:%d %s" % (e.fn["file"], e.line, label(f)), bad is None, "made for %s but %s" % (show(de), bad) if bad else "")
            res.count("functions"); res.count("uses", uses); res.count("evaluators", mats)
    res.assume("a material keeps one configuration, set by the evaluator constructor (S15)")
    return res
UNITS16 = ("gsThinShellAssembler_", "gsThinShellAssemblerDWR_")
def label(f): return "%s<%s>::%s(%s)" % (f["cls"].split("::")[-1], ",".join(f.get("cargs", [])), f["n"], ", ".join(p["n"] for p in f["p"]))
RULES["S16"] = s16

"""Weak-form properties of the shell assembler, decided by algebraic value numbering of the
integrands (see sa/denote.py)."""
from fractions import Fraction
import facts, flow, wf
from facts import AnalysisError, where
from flow import show, subterms, I
from field import N, M, Retry, eps
from denote import Ctx, Den, Unsupported, E0, Jet, ORDER
from report import Result

CLS = "gsThinShellAssembler"
FAM = [("2", "false"), ("3", "false"), ("3", "true")]
NAME = {("2", "false"): "planar", ("3", "false"): "membrane", ("3", "true"): "shell"}
Z = N.of(0)

def tu(): return facts.load("gsThinShellAssembler_")

def method(t, name, fam, types, cls=CLS):
    """the public member of this class with these parameter type fragments"""
    r = []
    for f in t.find(name, cls, [fam[0], "double", fam[1]]):
        if len(f["p"]) == len(types) and all(x in p["t"] for x, p in zip(types, f["p"])) and f["acc"] == "public": r.append(f)
    if len(r) != 1: raise AnalysisError("%s<%s>::%s(%s): %d definitions found" % (cls, ",".join(fam), name, ",".join(types), len(r)))
    return r[0]

def has(t, x): return any(y == x for y in subterms(t))

def cfg_resolver(roles=None, ori=("mem", ("this",), "m_patches")):
    """geometry term -> configuration name.  roles: parameter name -> configuration"""
    roles = roles or {}
    def f(t):
        while t[0] in ("addr", "deref"): t = t[1]
        if t == ori: return "ori"
        if t[0] == "var" and t[1] in roles: return roles[t[1]]
        # a displaced copy of the undeformed geometry
        for n, c in roles.items():
            if any(y[0] == "var" and len(y) > 1 and y[1] == n for y in subterms(t) if y): return c
        return "geo:" + show(t)
    return f

def sample(fn, seed, dim, cfgof, **kw):
    for k in range(60):
        ctx = Ctx("%s/%d" % (seed, k), dim, cfgof)
        for a, b in kw.items(): setattr(ctx, a, b)
        try: return fn(ctx)
        except Retry: continue
    raise AnalysisError("no admissible sample")

def sites(ints, dom):
    return sorted({i.site() for i in ints if i.dom == dom})

def names_true(names): return "+".join(n for n, b in names if b) or "none"

def penalty(dom): return dom.startswith("ifc:") or "Weak" in dom

def seeds(tier, seed): return [seed * 100 + i for i in range(2 if tier == "quick" else 8)]

def sysforms(t, fam):
    mf = method(t, "assembleMatrix", fam, ["gsFunctionSet"]); vf = method(t, "assembleVector", fam, ["gsFunctionSet", "bool"])
    K, wk = wf.integrals(t, mf); R, wr = wf.integrals(t, vf)
    roles = {mf["p"][0]["n"]: "def", vf["p"][0]["n"]: "def"}
    return mf, vf, K, R, roles

# ------------------------------------------------------------------ tangents
def tangent(tier, seed, prop, want, minimum, what):
    t = tu(); res = Result(prop, what, minimum)
    for fam in FAM:
        mf, vf, K, R, roles = sysforms(t, fam)
        res.count("functions", 2); res.count("integrals", len(K) + len(R))
        cfg = cfg_resolver(roles)
        for asg, names in wf.assignments(wf.free_atoms(K, R)):
            for sd in seeds(tier, seed):
                k, r = sample(lambda c: (wf.evaluate(K, c, asg), wf.evaluate(R, c, asg)), sd, int(fam[0]), cfg, nobend=fam[1] == "false")
                for d in sorted(set(k) | set(r)):
                    if not want(d): continue
                    kk = k.get(d, (Z, Z)); rr = r.get(d, (Z, Z))
                    a = kk[0].drop(E0); b = rr[1].coef(E0)
                    key = "%s %s [%s]" % (NAME[fam], d, names_true(names))
                    wh = "%s <-> %s" % (", ".join(sites(K, d)) or where(mf), ", ".join(sites(R, d)) or where(vf))
                    ok = (a + b).zero() and kk[1].zero() and rr[0].zero()
                    if all(o["key"] != key or not o["ok"] for o in res.obl) or not ok:
                        if not any(o["key"] == key and not o["ok"] for o in res.obl):
                            res.obl = [o for o in res.obl if o["key"] != key]
                            res.ob(key, wh, ok, "the assembled matrix is not minus the derivative of the assembled vector" if kk[1].zero() and rr[0].zero() else "matrix pass assembles a vector or vice versa")
                    res.count("identity tests")
    res.assume("normal-variation, flat-dot and second-derivative expressions mean the derivatives they are named after (decided by a separate property)",
               "dN = A dE + B dK, dM = B dE + D dK with symmetric A,B,D (material tangents; separate properties)",
               "stiffness-scaled penalty factors are held constant",
               "polynomial identity decided over GF(p), p~2^61, one-sided error below 2^-50 per test")
    return res

def w01(tier, seed):
    return tangent(tier, seed, "S01", lambda d: not penalty(d), 10,
        "the interior and load part of the assembled matrix is minus the Gateaux derivative of the assembled vector (identity of the two integrands as polynomials in jets of geometry, test and trial function)")
def w02(tier, seed):
    return tangent(tier, seed, "S02", penalty, 8,
        "each weak boundary/interface penalty matrix is minus the Gateaux derivative of the penalty vector on the same boundary/interface set")

# ------------------------------------------------------------------ linear system
def w03(tier, seed):
    t = tu(); res = Result("S03", "linear assembly == nonlinear assembly evaluated at zero displacement (matrix without follower-load stiffness, vector with all loads)", 20)
    for fam in FAM:
        mf, vf, K, R, roles = sysforms(t, fam)
        lf = method(t, "assemble", fam, [])
        L, _ = wf.integrals(t, lf)
        res.count("functions", 3); res.count("integrals", len(K) + len(R) + len(L))
        cfg = cfg_resolver(roles)
        bad = {}
        for asg, names in wf.assignments(wf.free_atoms(K, R, L)):
            for sd in seeds(tier, seed):
                k, r, l = sample(lambda c: (wf.evaluate(K, c, asg), wf.evaluate(R, c, asg), wf.evaluate(L, c, asg)), sd, int(fam[0]), cfg, undef=True, nobend=fam[1] == "false")
                # follower pressure: its stiffness is not part of the linear system
                kp = sample(lambda c: wf.evaluate(K, c, asg), sd, int(fam[0]), cfg, undef=True, nobend=fam[1] == "false", zerofun=lambda n: "m_pressFun" in n)
                for d in sorted(set(k) | set(r) | set(l)):
                    key = "%s %s [%s]" % (NAME[fam], d, names_true(names))
                    la, lv = (x.drop(E0) for x in l.get(d, (Z, Z)))
                    okm = (la - kp.get(d, (Z, Z))[0].drop(E0)).zero(); okv = (lv - r.get(d, (Z, Z))[1].drop(E0)).zero()
                    res.count("identity tests", 2)
                    for nm, ok, o in (("matrix", okm, K), ("vector", okv, R)):
                        kk = key + " " + nm
                        wh = "%s <-> %s" % (", ".join(sites(L, d)) or where(lf), ", ".join(sites(o, d)) or where(mf if nm == "matrix" else vf))
                        bad.setdefault(kk, [True, wh])
                        if not ok: bad[kk][0] = False
        for kk, (ok, wh) in bad.items():
            res.ob(kk, wh, ok, "linear %s differs from the nonlinear one at the undeformed state" % kk.split()[-1])
    res.assume("the undeformed configuration is stress free", "membrane and planar: no membrane-bending coupling")
    return res

# ------------------------------------------------------------------ overloads
def w04(tier, seed):
    t = tu(); res = Result("S04", "all entry points that assemble the same operator denote the same bilinear/linear form", 30)
    for fam in FAM:
        dim = int(fam[0]); nb = fam[1] == "false"
        mf, vf, K, R, roles = sysforms(t, fam)
        def compare(key, f, ints, ref, roles2, part="both", sel=None, **kw):
            """ints (of f) must equal ref, both as forms"""
            res.count("functions"); res.count("integrals", len(ints))
            cf = cfg_resolver({**roles, **roles2}); ok = True; why = ""
            for asg, names in wf.assignments(wf.free_atoms(ints, ref), sel):
                for sd in seeds(tier, seed):
                    a, b = sample(lambda c: (wf.evaluate(ints, c, asg), wf.evaluate(ref, c, asg)), sd, dim, cf, nobend=nb, **kw)
                    for d in set(a) | set(b):
                        res.count("identity tests", 2)
                        x, y = a.get(d, (Z, Z)), b.get(d, (Z, Z))
                        if part in ("both", "mat") and not (x[0].drop(E0) - y[0].drop(E0)).zero(): ok = False; why = "matrix on %s differs (%s)" % (d, names_true(names))
                        if part in ("both", "vec") and not (x[1].drop(E0) - y[1].drop(E0)).zero(): ok = False; why = "vector on %s differs (%s)" % (d, names_true(names))
            res.ob("%s %s" % (NAME[fam], key), where(f), ok, why)
        m2 = lambda n, ty: method(t, n, fam, ty)
        def par(f, i): return f["p"][i]["n"]
        # combined assembly
        for ty, nm in (("gsFunctionSet", "geometry"), ("gsMatrix", "vector")):
            f = m2("assemble", [ty, "bool", "bool"])
            for on in (1, 0):
                I_, _ = wf.integrals(t, f, args=[None, flow.I(on)])
                compare("assemble(%s,%s matrix)" % (nm, "with" if on else "without"), f, I_, K + R if on else R, {par(f, 0): "def"})
        f = m2("assembleMatrix", ["gsMatrix"]); I_, _ = wf.integrals(t, f)
        compare("assembleMatrix(vector)", f, I_, K, {par(f, 0): "def"})
        f = m2("assembleVector", ["gsMatrix", "bool"]); I_, _ = wf.integrals(t, f)
        compare("assembleVector(vector)", f, I_, R, {par(f, 0): "def"})
        # single contributions
        press = lambda ints: [i for i in ints if any("m_pressFun" in show(x) for x in i.exprs)]
        found = lambda ints: [i for i in ints if any("m_foundFun" in show(x) for x in i.exprs)]
        on = lambda a: True if show(a) in ("m_pressInd", "m_foundInd") else None
        if dim == 3:
            Lv, _ = wf.integrals(t, m2("assemble", []))
            sub = lambda ints, nm, key: [wf.Integral(i.kind, i.dom, tuple(replace(x, ("deref", ("mem", ("this",), key)), nm) for x in i.exprs), i.guards, i.ev) for i in ints]
            f = m2("assemblePressureVector", ["gsFunctionSet"]); I_, _ = wf.integrals(t, f)
            compare("assemblePressureVector(geometry)", f, I_, press(R), {par(f, 0): "def"}, sel=on)
            f = m2("assembleFoundationVector", ["gsFunctionSet"]); I_, _ = wf.integrals(t, f)
            compare("assembleFoundationVector(geometry)", f, I_, found(R), {par(f, 0): "def"}, sel=on)
            f = m2("assembleFoundation", []); I_, _ = wf.integrals(t, f)
            compare("assembleFoundation()", f, I_, found(K), {}, sel=on)
            for n, ref, ty in (("assemblePressureMatrix", press(K), ["gsFunction<", "gsFunctionSet"]), ("assemblePressureVector", press(R), ["gsFunction<", "gsFunctionSet"]), ("assembleFoundationVector", found(R), ["gsFunction<", "gsFunctionSet"]),
                               ("assemblePressureVector", [i for i in press(Lv)], ["gsFunction<"])):
                f = m2(n, ty); I_, _ = wf.integrals(t, f)
                key = "m_foundFun" if "Foundation" in n else "m_pressFun"
                compare("%s(function%s)" % (n, ",geometry" if len(ty) > 1 else ""), f, sub2(I_, ("var", par(f, 0), "p0"), ("deref", ("mem", ("this",), key))), ref, {par(f, 1): "def"} if len(ty) > 1 else {}, sel=on)
            for n, ref, ty in (("assemblePressureMatrix", press(K), ["const double", "gsFunctionSet"]), ("assemblePressureVector", press(R), ["const double", "gsFunctionSet"]), ("assemblePressureVector", press(Lv), ["const double"])):
                f = m2(n, ty); I_, _ = wf.integrals(t, f)
                compare("%s(value%s)" % (n, ",geometry" if len(ty) > 1 else ""), f, I_, subconst(ref, par(f, 0)), {par(f, 1): "def"} if len(ty) > 1 else {}, sel=on)
        # mixed-integration-point tangent
        if fam == ("3", "true"):
            f = m2("assembleMatrix", ["gsFunctionSet", "gsFunctionSet", "gsMatrix"]); I_, _ = wf.integrals(t, f)
            rl = {par(f, 0): "def", par(f, 1): "prev", par(f, 2): "du"}
            def extrap(out):
                X, Y = ("A", "B") if out == "VectorN" else ("B", "D")
                def g(den, base):
                    h = den.x.fjet("du", "left"); j = den.x.fjet("prev", "left")
                    em, ef = strains(j, h)
                    key = None
                    v = den.x.rng.vec(3, ("mat", "materials", ()), out, "ori", "prev")
                    return v + base(X, "prev") * em + base(Y, "prev") * ef
                return g
            compare("assembleMatrix(geometry,previous,update)", f, I_, K, rl, override={("VectorN", "def"): extrap("VectorN"), ("VectorM", "def"): extrap("VectorM")})
            f2 = m2("assembleMatrix", ["gsMatrix", "gsMatrix"]); I2, _ = wf.integrals(t, f2)
            a, b = ("var", par(f2, 0), "p0"), ("var", par(f2, 1), "p1")
            def cf2(t_):
                while t_[0] in ("addr", "deref") or (t_[0] == "ctor" and len(t_[2]) == 1): t_ = t_[1] if t_[0] != "ctor" else t_[2][0]
                if t_ == ("mem", ("this",), "m_patches"): return "ori"
                if t_[0] == "op" and t_[1] == "-" and t_[2] == (a, b): return "du"
                if has(t_, a) and not has(t_, b): return "def"
                if has(t_, b) and not has(t_, a): return "prev"
                return cfg_resolver(rl)(t_)
            ok = True
            for asg, names in wf.assignments(wf.free_atoms(I_, I2)):
                for sd in seeds(tier, seed):
                    x, y = sample(lambda c: (wf.evaluate(I_, c, asg), wf.evaluate(I2, c, asg)), sd, 3, cf2)
                    for d in set(x) | set(y):
                        res.count("identity tests")
                        if not (x.get(d, (Z, Z))[0].drop(E0) - y.get(d, (Z, Z))[0].drop(E0)).zero(): ok = False
            res.ob("shell assembleMatrix(vector,previous vector)", where(f2), ok, "differs from the geometry overload with update = solution - previous")
    return res

def strains(g, h):
    from denote import unormal, eps, E1
    em = M.col([g["d1"].dot(h["d1"]), g["d2"].dot(h["d2"]), g["d1"].dot(h["d2"]) + g["d2"].dot(h["d1"])])
    n = unormal(g); dn = unormal(g.plus(h, eps(E1))).map(lambda x: x.coef(E1))
    q = [h[z].dot(n) + g[z].dot(dn) for z in ("d11", "d22", "d12")]
    return em, M.col([-q[0], -q[1], q[2] * (-2)])

def replace(t, a, b):
    if t == a: return b
    if isinstance(t, tuple): return tuple(replace(x, a, b) for x in t)
    return t
def sub2(ints, a, b):
    return [wf.Integral(i.kind, i.dom, tuple(replace(x, a, b) for x in i.exprs), i.guards, i.ev) for i in ints]
def subconst(ints, pname):
    """stored pressure function -> constant function of the parameter"""
    c = ("ctor", "gsConstantFunction", (("var", pname, "p0"),))
    return sub2(ints, ("deref", ("mem", ("this",), "m_pressFun")), c)

# ------------------------------------------------------------------ families
def w06(tier, seed):
    t = tu(); res = Result("S06", "membrane forms == shell forms with the bending stiffness removed; planar forms == membrane forms of a surface that stays in the plane", 8)
    forms = {fam: sysforms(t, fam) for fam in FAM}
    lin = {fam: wf.integrals(t, method(t, "assemble", fam, []))[0] for fam in FAM}
    for hi, lo in ((("3", "true"), ("3", "false")), (("3", "false"), ("2", "false"))):
        planar = lo[0] == "2"
        for nm, A, B in (("matrix", forms[hi][2], forms[lo][2]), ("vector", forms[hi][3], forms[lo][3]), ("linear", lin[hi], lin[lo])):
            cf = cfg_resolver({**forms[hi][4], **forms[lo][4]})
            res.count("functions", 2); res.count("integrals", len(A) + len(B))
            if planar:   # transverse loads and rotations do not exist in the plane
                sel = lambda a: False if show(a) in ("m_foundInd", "m_pressInd") else None
            else: sel = None
            out = {}
            for asg, names in wf.assignments(wf.free_atoms(A, B), sel):
                for sd in seeds(tier, seed):
                    def both(c):
                        c.nobend = True; c.planar = planar
                        a = wf.evaluate(A, c, asg)
                        c2 = c
                        if planar:
                            c2 = Ctx(c.rng.seed, 2, cf); c2.nobend = True
                            c2.rng = c.rng
                            for (n, s), j in list(c.jc.items()):
                                c2.jc[(n, s)] = Jet({q: M.col(j[q].a[:2]) for q in ORDER})
                        return a, wf.evaluate(B, c2, asg)
                    a, b = sample(both, sd, int(hi[0]), cf)
                    for d in sorted(set(a) | set(b)):
                        if planar and ("Weak Clamped" in d or "m_weakC1" in d): continue
                        for q, w_ in ((0, "matrix"), (1, "vector")):
                            res.count("identity tests")
                            x, y = a.get(d, (Z, Z))[q].drop(E0), b.get(d, (Z, Z))[q].drop(E0)
                            if x.zero() and y.zero(): continue
                            k = "%s/%s %s %s %s" % (NAME[hi], NAME[lo], nm, d, w_)
                            out.setdefault(k, [True, sites(A, d) + sites(B, d)])
                            if not (x - y).zero(): out[k][0] = False
            for k, (ok, s) in out.items(): res.ob(k, ", ".join(s), ok, "the two families assemble different forms")
    return res

# ------------------------------------------------------------------ reaction force
def w05(tier, seed):
    t = tu(); res = Result("S05", "the boundary reaction integrand == internal-force part of the nonlinear residual", 5)
    for fam in FAM:
        mf, vf, K, R, roles = sysforms(t, fam)
        f = method(t, "boundaryForce", fam, ["gsFunctionSet", "std::vector"])
        B, w = wf.integrals(t, f)
        if not B: raise AnalysisError("boundaryForce assembles nothing")
        roles = {**roles, f["p"][0]["n"]: "def"}
        res.count("functions", 2); res.count("integrals", len(B) + len(R)); ok = True
        sel = lambda a: False if show(a) in ("m_foundInd", "m_pressInd") else None
        for asg, names in wf.assignments(wf.free_atoms(B, R), sel):
            asg = {a: (True if a[0] == "dyn" else b) for a, b in asg.items()}
            for sd in seeds(tier, seed):
                b, r = sample(lambda c: (wf.evaluate(B, c, asg), wf.evaluate(R, c, asg)), sd, int(fam[0]), cfg_resolver(roles), nobend=fam[1] == "false", zerofun=lambda n: True)
                res.count("identity tests")
                if not (b.get("dom", (Z, Z))[1].drop(E0) - r.get("dom", (Z, Z))[1].drop(E0)).zero(): ok = False
        res.ob("%s boundaryForce" % NAME[fam], ", ".join(sites(B, "dom")) + " <-> " + ", ".join(sites(R, "dom")), ok, "the reaction force is not the internal force of the residual")
    # which entries are summed: every control point of every requested side once, each component into its own slot
    import protocol
    for g in t.functions:
        if g["n"] == "boundaryForce" and g.get("body") and (g.get("cls") or "").endswith("gsThinShellAssembler") and len(g["p"]) == 2:
            res.count("functions")
            protocol.obl(res, "%s::boundaryForce(%s) sums the control points of the sides" % (protocol.tag(g), "sides" if "vector" in g["p"][1]["t"] else "side"), g, lambda: protocol.reaction(t, g, seed))
    return res

# ------------------------------------------------------------------ absolute forms: virtual work and penalty energies
C_ = lambda n, o, *a: ("call", n, o, tuple(a), ())
ORI = C_("getMap", None, ("mem", ("this",), "m_patches"))
COEF = lambda f, *m: C_("getCoeff", None, ("deref", ("mem", ("this",), f)), *m)
def mm(out, de): return ("ctor", "gismo::gsMaterialMatrixIntegrate<double, gismo::MaterialOutput::%s>" % out, (("mem", ("this",), "m_materialMatrices"), ("addr", ("mem", ("this",), "m_patches")), ("addr", de)))
NEUMANN = "bdr:m_bcs.get('Neumann')"
def base0(j): return Jet({q: j[q].map(lambda x: x.drop(E0)) for q in ORDER})

def virtual_work(c, de, on, dim):
    """external minus internal virtual work per unit parametric area / boundary length, by definition"""
    from denote import Den, unormal
    den = Den(c, "dom"); dd = C_("getMap", None, de)
    v = c.fjet("v", "left"); g = base0(c.map_jet("def", "left")); o = c.fjet("ori", "left")
    meas = den.f_meas(None, None, (ORI,), "v", "w").a[0]
    f = den.ev(COEF("m_forceFun") if on("m_parametricForce") else COEF("m_forceFun", ORI))
    s = f.dot(v["val"])
    em, ef = den.voigt("v", "left")
    S0, S1 = den.ev(C_("getCoeff", None, mm("VectorN", de))), den.ev(C_("getCoeff", None, mm("VectorM", de)))
    s = s - S0.dot(em) - S1.dot(ef)
    if dim == 3 and on("m_pressInd"): s = s + den.ev(COEF("m_pressFun", ORI)).a[0] * unormal(g).dot(v["val"])
    if dim == 3 and on("m_foundInd"):
        k = den.ev(COEF("m_foundFun", ORI)); u = g["val"] - o["val"]
        for i in range(3): s = s - k.a[i] * u.a[i] * v["val"].a[i]
    out = {"dom": s * meas}
    den = Den(c, "bdr")
    out[NEUMANN] = den.ev(C_("getBdrFunction", None, ORI)).dot(v["val"]) * den.f_meas(None, None, (ORI,), "v", "w").a[0]
    return out

def penalty_work(c, de, dim):
    """minus the derivative of the penalty energies in the direction v"""
    from denote import Den, unormal, eps, E1
    out = {}
    def stiff(den, X):
        return C_("val", C_("max", C_("reshape", None, ("op", "*", (("op", "*", (C_("inv", C_("cartcon", None, ORI)), C_("reshape", None, C_("getCoeff", None, mm(X, de)), I(3), I(3)))), C_("cartcov", None, ORI))), I(9), I(1))))
    def coef(den, option, X, h): return den.ev(C_("getReal", ("mem", ("this",), "m_options"), ("str", option))).a[0] * den.ev(stiff(den, X)).a[0].drop(E0) / h
    half = N.of(Fraction(1, 2))
    for kind, dom in (("bdr", "bdr:m_bcs.get('Weak Dirichlet')"), ("bdr", "bdr:m_bcs.get('Weak Clamped')"), ("ifc", "ifc:m_weakC0"), ("ifc", "ifc:m_weakC1")):
        if dim == 2 and ("Clamped" in dom or "C1" in dom): continue
        den = Den(c, kind); meas = den.f_meas(None, None, (ORI,), "v", "w").a[0]
        sides = ("left", "right") if kind == "ifc" else ("left",)
        o = {s: c.fjet("ori", s) for s in sides}; g = {s: base0(c.map_jet("def", s)).plus(c.fjet("v", s), eps(E1)) for s in sides}
        u = {s: g[s]["val"] - o[s]["val"] for s in sides}
        area = [den.f_area(None, None, (C_(s, ORI),) if kind == "ifc" else (ORI,), "v", "w").a[0] for s in sides]
        h = area[0] if kind == "bdr" else (area[0] + area[1]) * half
        if dim == 3:
            n = {s: unormal(g[s]) for s in sides}; N0 = {s: unormal(o[s]) for s in sides}
            nu = {s: den._on(g[s], c.tau(s)) for s in sides}; nu0 = {s: den._on(o[s], c.tau(s)) for s in sides}
        if "Dirichlet" in dom:
            d = u["left"] - den.ev(C_("getBdrFunction", None, ORI)); W = coef(den, "WeakDirichlet", "MatrixA", h) * d.dot(d)
        elif "Clamped" in dom:
            d = n["left"].dot(nu0["left"]) - N0["left"].dot(nu0["left"]); W = coef(den, "WeakClamped", "MatrixD", h) * d * d
        elif "C0" in dom:
            d = u["left"] - u["right"]; W = coef(den, "IfcPenalty", "MatrixA", h) * d.dot(d)
        else:
            W = N.of(0)
            for a, b in (("left", "right"), ("right", "left")):
                for x, x0 in ((n, N0), (nu, nu0)):
                    d = x[a].dot(n[b]) - x0[a].dot(N0[b]); W = W + d * d
            W = W * coef(den, "IfcPenalty", "MatrixD", h)
        out[dom] = (W * half * meas).coef(E1) * N.of(-1)
    return out

def absolute(prop, text, oracle, want, minimum):
    def rule(tier, seed):
        t = tu(); res = Result(prop, text, minimum)
        for fam in FAM:
            mf, vf, K, R, roles = sysforms(t, fam); dim = int(fam[0]); de = ("var", vf["p"][0]["n"], "p0")
            res.count("functions"); res.count("integrals", len(R)); bad = {}
            for asg, names in wf.assignments(wf.free_atoms(R)):
                flags = {show(a): b for a, b in asg.items()}
                on = lambda n: flags.get(n, False)
                for sd in seeds(tier, seed):
                    def both(c):
                        c.dirfun = None
                        return wf.evaluate(R, c, asg), oracle(c, de, on, dim)
                    r, w_ = sample(both, sd, dim, cfg_resolver(roles), nobend=fam[1] == "false")
                    for d in sorted(set(r) | set(w_)):
                        if not want(d): continue
                        key = "%s %s [%s]" % (NAME[fam], d, names_true(names) if d == "dom" else "")
                        res.count("identity tests")
                        bad.setdefault(key, [True, ", ".join(sites(R, d)) or where(vf)])
                        if not (r.get(d, (Z, Z))[1].drop(E0) - w_.get(d, Z)).zero(): bad[key][0] = False
            for k, (ok, wh) in bad.items(): res.ob(k, wh, ok, "the assembled vector is not %s" % ("the virtual work of the loads minus that of the internal forces" if prop == "S17" else "minus the gradient of the penalty energy"))
        return res
    return rule
w17 = absolute("S17", "the assembled residual integrand == body force + pressure along the current normal - foundation - stress resultants x strain variations (per undeformed area), + boundary traction", lambda c, de, on, dim: virtual_work(c, de, on, dim), lambda d: not penalty(d), 10)
w18 = absolute("S18", "each assembled penalty vector == minus the derivative of (penalty x stiffness / element size) / 2 x squared violation of the condition", lambda c, de, on, dim: penalty_work(c, de, dim), penalty, 10)

def with_exprs(rule, classes):
    """a weak form is only as good as the expression classes it is written in"""
    def f(tier, seed):
        import exprs
        res = rule(tier, seed)
        exprs.obligations(res, tier, seed, lambda c, k: c[:-5] in classes, ("gsThinShellAssembler_",))
        return res
    return f
RULES = {"S01": with_exprs(w01, ("var1", "var2dot", "var2deriv2dot", "deriv2", "deriv2dot", "flatdot", "flatdot2")), "S02": with_exprs(w02, ("var1", "var2dot", "ovar1", "ovar2dot")), "S03": w03, "S04": w04, "S05": w05, "S06": w06, "S17": with_exprs(w17, ("var1", "deriv2")), "S18": with_exprs(w18, ("var1", "ovar1"))}

"""Samples and definitions for the constitutive laws.

A sample assigns field elements to everything a material evaluation reads: jets of the
undeformed and the deformed mid-surface at the evaluation points, thickness, density,
parameters, through-thickness coordinates.  The quantities the evaluation has to return
are *defined* here from the stored-energy function and the Kirchhoff-Love kinematics
(formal differentiation with nilpotents); nothing of the code under analysis is used.

Plane stress of a compressible law is an implicit condition; the sample is built as
(state in which 1/J0^2 solves it exactly) + (arbitrary nilpotent perturbation of order m),
so that the solution is a truncated power series which any quadratically convergent
iteration reaches exactly, whatever its form."""
from fractions import Fraction
from field import N, M, P, Rng, Retry, eps, isqr
from facts import AnalysisError

DB = (20, 21)          # infinitesimals used by the definitions
def mpow(a, e): return a.powq(e)

def orth(rng, n, *key):
    """random orthogonal matrix (Cayley transform)"""
    for salt in range(50):
        if n == 2:
            a = rng("cay", *key, salt); S = M.rows([[0, a], [-a, 0]])
        else:
            a, b, c = (rng("cay", *key, salt, i) for i in range(3)); S = M.rows([[0, a, b], [-a, 0, c], [-b, -c, 0]])
        I = M.eye(n)
        d = (I + S).det()
        if d.base(): return (I - S) * (I + S).inverse()
    raise AnalysisError("no frame")

class Law:
    """stored energy Psi(C, C33) of the 3D continuum; par = parameter values"""
    def __init__(s, mat, comp): s.mat, s.comp = mat, comp
    npar = property(lambda s: {"NH": 2, "NH_ext": 2, "MR": 3, "OG": 8, "SvK": 2}[s.mat])
    def psi(s, G, C, c33, p, log):
        """G, C: 2x2 covariant metrics of the undeformed / deformed body"""
        E, nu = p[0], p[1]
        mu = E / (N.of(2) * (N.of(1) + nu))
        B = G.inverse() * C
        tr = B.trace(); d = C.det() / G.det()
        I1 = tr + c33; I2 = d + tr * c33; J2 = d * c33
        J = lambda e: mpow(J2, Fraction(e) / 2) if s.comp else N.of(1)
        vol = N.of(0)
        if s.comp:
            K = E / (N.of(3) * (N.of(1) - nu * 2))
            lnJ2 = log(J2)
            vol = K * (J2 - 1 - lnJ2) * N.of(Fraction(1, 4))
        h = N.of(Fraction(1, 2))
        if s.mat == "NH": return mu * h * (J(Fraction(-2, 3)) * I1 - 3) + vol
        if s.mat == "MR":
            c2 = mu / (p[2] + 1); c1 = p[2] * c2
            return c1 * h * (J(Fraction(-2, 3)) * I1 - 3) + c2 * h * (J(Fraction(-4, 3)) * I2 - 3) + vol
        if s.mat == "NH_ext":
            lam = E * nu / ((N.of(1) + nu) * (N.of(1) - nu * 2))
            return mu * h * (I1 - 3 - lnJ2) + lam * N.of(Fraction(1, 4)) * (J2 - 1 - lnJ2)
        if s.mat == "OG":
            t = vol
            for q in range((len(p) - 2) // 2):
                m, a = p[2 + 2 * q], p[3 + 2 * q]
                al = smallint(a)
                t = t + m * a.inv() * (J(Fraction(-al, 3)) * (trpow(B, al // 2) + mpow(c33, Fraction(al, 2))) - 3)
            return t
        raise AnalysisError("no energy for " + s.mat)

def smallint(n):
    b = n.base()
    return b if b < 1000 else b - P
def trpow(B, m):
    """tr(B^m), B 2x2"""
    A = B if m >= 0 else B.inverse(); R = M.eye(2)
    for _ in range(abs(m)): R = R * A
    return R.trace()

VOIGT = ((0, 0), (1, 1), (0, 1))
def bump(C, ij, e):
    a = list(C.a); i, j = ij
    a[i * 2 + j] = a[i * 2 + j] + e
    if i != j: a[j * 2 + i] = a[j * 2 + i] + e
    return M(2, 2, a)
HALF = Fraction(1, 2)
def w(ij): return N.of(2 if ij[0] == ij[1] else 1)       # d/dC -> 2 d/dC, off-diagonal bumped twice

def reduced(law, G, p, log):
    """strain energy as a function of the in-plane metric for incompressible laws"""
    def W(C):
        c33 = (C.det() / G.det()).inv()
        return law.psi(G, C, c33, p, log)
    return W

def stress(law, G, C, c33, p, log):
    if law.comp:
        f = lambda X, y: law.psi(G, X, y, p, log)
    else:
        W = reduced(law, G, p, log); f = lambda X, y: W(X)
    return [(f(bump(C, ij, eps(20)), c33).coef(20)) * w(ij) for ij in VOIGT]
def s33(law, G, C, c33, p, log): return law.psi(G, C, c33 + eps(20), p, log).coef(20) * 2

def tangent(law, G, C, c33, p, log):
    """3x3 (11,22,12): derivative of the stress with respect to the Green-Lagrange strain, plane stress"""
    if not law.comp:
        W = reduced(law, G, p, log)
        return M.rows([[W(bump(bump(C, a, eps(20)), b, eps(21))).coef(20).coef(21) * w(a) * w(b) for b in VOIGT] for a in VOIGT])
    f = lambda X, y: law.psi(G, X, y, p, log)
    D = [[f(bump(bump(C, a, eps(20)), b, eps(21)), c33).coef(20).coef(21) * w(a) * w(b) for b in VOIGT] for a in VOIGT]
    v = [f(bump(C, a, eps(20)), c33 + eps(21)).coef(20).coef(21) * w(a) * 2 for a in VOIGT]
    q = f(C, c33 + eps(20) + eps(21)).coef(20).coef(21) * 4
    qi = q.inv()
    return M.rows([[D[i][j] - v[i] * v[j] * qi for j in range(3)] for i in range(3)])

def solve33(law, G, C, p, log, c0):
    """plane-stress thickness metric as a power series"""
    c = c0
    for _ in range(12):
        f = law.psi(G, C, c + eps(20) + eps(21), p, log)
        r = f.coef(20).drop(21); d = f.coef(20).coef(21)
        if r.zero(): return c
        c = c - r / d
    raise AnalysisError("the sample does not define a plane-stress state")

class Sample:
    """K points, Z levels; dim 2/3; law or None (linear); m = perturbation order; aligned = principal frame known"""
    def __init__(s, seed, dim, law, K=2, Z=2, m=0, aligned=False, patch=1, state="generic", z0=False, at=None):
        s.dim, s.law, s.K, s.Z, s.m, s.aligned, s.patch, s.state, s.z0 = dim, law, K, Z, m, aligned, patch, state, z0
        s.lines = {}; s.h = N.of(0); s.at = at
        for i in range(m): s.h = s.h + eps(i)
        for salt in range(4000):
            s.rng = Rng((seed, dim, law.mat if law else "lin", law.comp if law else None, K, Z, aligned, state, salt))
            try:
                s.build(); break
            except Retry: continue
        else: raise AnalysisError("no admissible sample")
    # -------------------------------------------------------------- construction
    def build(s):
        R = s.rng; K, Z, d = s.K, s.Z, s.dim
        s.u = R.mat(2, K, "u"); s.z = M.zero(Z, K) if s.z0 else R.mat(Z, K, "z")
        if s.at: s.u, s.z = s.at
        s.T = [R("T", k) for k in range(K)]; s.rho = [R("rho", k) for k in range(K)]
        s.x = {g: [R.vec(d, "x", g, k) for k in range(K)] for g in ("ori", "def")}
        s.par = [s.params(k) for k in range(K)]
        s.ori = []; s.dfm = []
        for k in range(K):
            o, t = s.jets(k)
            s.ori.append(o); s.dfm.append(t)
        s.geo = {"ori": s.ori, "def": s.dfm}
        # admissibility of square roots
        for k in range(K):
            for g in (s.ori[k], s.dfm[k]):
                if not isqr(g.A.det().base()): raise Retry("area")
            for j in range(Z):
                for g in ("ori", "def"):
                    q = s.G(g, k, j).det()
                    if not q.base() or not isqr(q.base()): raise Retry("det")
    def params(s, k):
        R = s.rng; n = s.law.npar if s.law else 2
        p = [R("par", k, i) for i in range(n)]
        if s.law and s.law.mat == "OG":
            for q, al in enumerate((4, -2, 6)): p[3 + 2 * q] = N.of(al)
        return p
    def levels(s, k):
        """in-plane stretches (square roots of eigenvalues) at each level in the base state, admissible for the law"""
        R = s.rng; law = s.law; out = []
        if s.state == "trace2":
            t = R("l", k); d = (N.of(1) + t * t).inv(); c, q = (N.of(1) - t * t) * d, t * 2 * d
            return [(c - q, c + q)] * s.Z
        for j in range(s.Z if s.dim == 3 and s.state == "generic" else 1):
            if s.state == "equal":
                a = R("l", k); out.append((a, a))
                if law and law.comp and law.mat == "MR": s.par[k][2] = -(a * a)
                continue
            if not (law and law.comp):
                out.append((R("l", k, j, 0), R("l", k, j, 1))); continue
            if law.mat == "NH_ext":
                a = R("l", k, j); out.append((a, a.inv())); continue
            if law.mat == "OG":
                out.append((R("l", k, j, 0), R("l", k, j, 1))); continue
            c = R("c33", k, j); c = c * c
            if law.mat == "NH": sm = c * 2
            else:
                r = s.par[k][2]; sm = (c.inv() * c.inv() * 2 - r * 2) / (N.of(1) - r / c)
            q = sm * sm * N.of(Fraction(1, 4)) - c.inv()
            q = q.sqrt(); h = sm * HALF
            a, b = h + q, h - q
            if not (isqr(a.base()) and isqr(b.base())): raise Retry("stretch")
            out.append((a.sqrt(), b.sqrt()))
        if law and law.comp and law.mat == "OG":
            # two levels: two shear parameters are determined by the plane-stress condition
            p = s.par[k]; rows = []; rhs = []
            for (a, b) in out:
                c = (a * b).inv(); cs = []
                for q in range(3):
                    al = smallint(p[3 + 2 * q]); f = lambda x: mpow(x * x, Fraction(al, 2))
                    cs.append(f(c) - (f(a) + f(b) + f(c)) * N.of(Fraction(1, 3)))
                rows.append(cs)
            if len(rows) == 1: p[2] = -(rows[0][1] * p[4] + rows[0][2] * p[6]) / rows[0][0]
            else:
                A = M.rows([[r[0], r[1]] for r in rows]); b = M.col([-(r[2] * p[6]) for r in rows]); x = A.inverse() * b
                p[2], p[4] = x.a
        return out if s.state == "generic" else out * s.Z
    def jets(s, k):
        R = s.rng; d = s.dim
        if not s.aligned:
            o = Jet3(R.mat(d, 2, "a", k), [R.vec(d, "a", k, q) for q in range(3)])
            t = Jet3(R.mat(d, 2, "b", k), [R.vec(d, "b", k, q) for q in range(3)])
            return o, t
        L = R.mat(2, 2, "L", k); lv = s.levels(k)
        E, F = orth(R, d, "E", k), orth(R, d, "F", k)
        e = M(d, 2, [E[i, j] for i in range(d) for j in range(2)]); f = M(d, 2, [F[i, j] for i in range(d) for j in range(2)])
        D = lambda v: M.rows([[v[0], 0], [0, v[1]]])
        if s.state in ("reference", "equal", "trace2"):
            if s.state == "reference" and d == 3:
                o = Jet3(R.mat(3, 2, "a", k), [R.vec(3, "a", k, q) for q in range(3)]); Q = F
                return o, Jet3(Q * o.J, [Q * v for v in o.h])
            if s.state == "reference": lv = [(N.of(1), N.of(1))]
            o = Jet3(e * L, [e * R.vec(2, "a", k, q) for q in range(3)])
            return o, Jet3(f * D(lv[0]) * L, [f * R.vec(2, "b", k, q) for q in range(3)])
        if d == 2:
            o = Jet3(e * L, [R.vec(2, "a", k, q) for q in range(3)]); t = Jet3(f * D(lv[0]) * L, [R.vec(2, "b", k, q) for q in range(3)])
        else:
            sg = lambda Q: M(3, 1, [Q[i, 2] for i in range(3)]).scale(Q.det())
            to = [R("to", k, i) for i in range(2)]
            zz = [s.z[j, k] * s.T[k] for j in range(s.Z)]
            lam = []; ls = []
            for i in range(2):
                if s.Z == 1:
                    sg_ = R("ts", k, i); l = lv[0][i] * (N.of(1) - zz[0] * to[i]) / (N.of(1) - zz[0] * sg_); lam.append(l); ls.append(l * sg_)
                else:
                    r = [lv[j][i] * (N.of(1) - zz[j] * to[i]) for j in range(2)]
                    b = (r[0] - r[1]) / (zz[1] - zz[0]); a = r[0] + zz[0] * b
                    lam.append(a); ls.append(b)
            Bo = L.T() * D(to) * L; Bd = L.T() * D([lam[i] * ls[i] for i in range(2)]) * L
            def curved(fr, A, B, tag):
                det = A.det(); J = fr[0] * A; nn = fr[1]   # unit normal times sign of the orientation
                n = M(3, 1, [J[i, 0] for i in range(3)]).cross(M(3, 1, [J[i, 1] for i in range(3)])).normalized()
                h = []
                for q, (i, j) in enumerate(((0, 0), (1, 1), (0, 1))):
                    h.append(J * R.vec(2, tag, k, q) + n.scale(B[i, j]))
                return Jet3(J, h)
            o = curved((e, sg(E)), L, Bo, "ho"); t = curved((f, sg(F)), D(lam) * L, Bd, "hd")
        if s.m:
            t = Jet3(t.J + R.mat(d, 2, "pJ", k).scale(s.h), [v + R.vec(d, "pH", k, q).scale(s.h) for q, v in enumerate(t.h)])
        return o, t
    # -------------------------------------------------------------- definitions
    def height(s, k, j): return s.z[j, k] * s.T[k]
    def frame(s, g, k, zz):
        """covariant basis (3x3) at height zz"""
        q = s.geo[g][k]
        if s.dim == 2: return M(3, 3, [q.J[0, 0], q.J[0, 1], 0, q.J[1, 0], q.J[1, 1], 0, 0, 0, 1]).map(N.of)
        n = q.n; nc = q.ncov
        c = q.J + nc.scale(zz)
        return M(3, 3, [v for i in range(3) for v in (c[i, 0], c[i, 1], n.a[i])])
    def G(s, g, k, j):
        f = s.frame(g, k, s.height(k, j)); m = f.T() * f
        return M(2, 2, [m[0, 0], m[0, 1], m[1, 0], m[1, 1]])
    def J02(s, k, j): return s.G("def", k, j).det() / s.G("ori", k, j).det()
    def c33(s, k, j, log):
        if not (s.law and s.law.comp): return s.J02(k, j).inv()
        key = (k, j)
        if key not in s.lines: s.lines[key] = solve33(s.law, s.G("ori", k, j), s.G("def", k, j), s.par[k], log, s.J02(k, j).inv())
        return s.lines[key]
    def stress(s, k, j, log): return stress(s.law, s.G("ori", k, j), s.G("def", k, j), s.c33(k, j, log), s.par[k], log)
    def tangent(s, k, j, log): return tangent(s.law, s.G("ori", k, j), s.G("def", k, j), s.c33(k, j, log), s.par[k], log)

class Jet3:
    """first and second derivatives (11,22,12) of a surface parametrisation"""
    def __init__(s, J, h):
        s.J, s.h = J, h; s.A = J.T() * J
    @property
    def cross(s):
        J = s.J; return M(3, 1, [J[i, 0] for i in range(3)]).cross(M(3, 1, [J[i, 1] for i in range(3)]))
    @property
    def n(s):
        if not hasattr(s, "_n"): s._n = s.cross.normalized()
        return s._n
    @property
    def B(s):
        b = [v.dot(s.n) for v in s.h]; return M(2, 2, [b[0], b[2], b[2], b[1]])
    @property
    def ncov(s): return (s.J * (s.A.inverse() * s.B)).scale(N.of(-1))

"""Sums of function sets, and the helper that runs a whole goal-oriented error estimation."""
import facts, flow
from facts import AnalysisError, where
from flow import I, show
from field import N, M, Rng, Retry, DomainError
from matdom import V, isM, lift, Oob, MatWalker
from protocol import SeqMixin, retrying, obl
from report import Result
THIS = ("this",)

class Base(MatWalker):
    def __init__(s, tu, rng, **kw):
        super().__init__(tu, rng, leaf=lambda w, x, o, a, st: s.leaf_(x, o, a, st), **kw)
    def strip(s, o):
        while o is not None and o[0] in ("deref", "addr"): o = o[1]
        return o
    def ii(s, t):
        n = s.int_(t)
        if n is None: raise AnalysisError("index not understood at %s: %s" % (s.place(), show(t)[:80]))
        return n
    def out(s, x, i, val, st):
        key = s.lval(x["a"][i], st, True)
        if key is None: raise AnalysisError("result argument not understood at " + s.place())
        s.store(key, val, st, x["l"], "upd"); return ("void",)
    def leaf_(s, x, o, a, st):
        if x["n"] in ("min", "max") and len(a) == 2:
            v = [s.int_(s.strip(z)) for z in a]
            if None not in v: return V(M.scal(N.of(min(v) if x["n"] == "min" else max(v))))
        return None
class HW(SeqMixin, Base): pass

def one(t, cls, name, n, ok=lambda f: True):
    r = [f for f in t.functions if f.get("cls") == cls and f["n"] == name and f.get("body") is not None and len(f["p"]) == n and ok(f)]
    if len(r) != 1: raise AnalysisError("%s::%s: %d definitions" % (cls, name, len(r)))
    return r[0]
def exits(w, f, args, st=None):
    r = w.run(f, args, **({"st": st} if st is not None else {}))
    if not r: raise DomainError("an error is raised on every path")
    if len(r) != 1: raise AnalysisError("%s: %d exits" % (where(f), len(r)))
    return r[0]

# ------------------------------------------------------------------------------------------------ S33
SUM, PIECE = "gismo::gsFunctionSum", "gismo::gsFunctionPieceSum"
class SumW(HW):
    """n summands with np pieces; support intervals are given"""
    def __init__(s, tu, rng, n, np, supp):
        super().__init__(tu, rng, inline=lambda f: f.get("cls") in (SUM, PIECE)); s.n = n; s.np = np; s.supp = supp; s.members.update({"m_pieces": ("vec", ()), "m_functions": ("vec", ())})
    DIM = 2; ROWS = {"eval": 3, "deriv": 6, "deriv2": 9}
    def value(s, what, p, k, u):
        return M(s.ROWS[what], u.c, [s.rng(what, p, k, i, j, u.col_key(j) if hasattr(u, "col_key") else str(u[0, j].base())) for i in range(s.ROWS[what]) for j in range(u.c)])
    def ctor(s, t, a, x, st):
        if t.replace("gismo::", "").startswith("gsFunctionPieceSum<") and len(a) == 2: return ("piece", s.strip(a[0]), s.ii(a[1]))
        if t.replace("gismo::", "").startswith("gsFunctionPieceSum<") and len(a) == 1 and a[0][0] == "piece": return a[0]
        return super().ctor(t, a, x, st)
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o == ("sum",):
            if n == "func":
                i = s.ii(args[0])
                if not 0 <= i < s.n: raise Oob("%s: summand %d of %d" % (s.place(), i, s.n))
                return ("addr", ("fn", i))
            if n == "funcSize": return I(s.n)
            if n in ("nPieces", "size"): return I(s.np)
            if n in ("domainDim", "targetDim"): return ("dim", n, 0)
        if o is not None and o[0] == "fn":
            if n in ("piece", "function"): return ("fnp", o[1], s.ii(args[0]))
            if n == "nPieces": return I(s.np)
            if n in ("domainDim", "targetDim"): return ("dim", n, o[1])
            raise AnalysisError("%s: %s of a summand" % (s.place(), n))
        if o is not None and o[0] == "fnp":
            if n == "support":
                q = s.supp(o[1], o[2]); return V(M(len(q), 2, [N.of(z) for r in q for z in r]))
            if n in ("domainDim", "targetDim"): return ("dim", n, o[1])
            u = lift(args[0]) if args else None
            if u is None: raise AnalysisError("%s: points not understood" % s.place())
            for nm in ("eval", "deriv", "deriv2"):
                if n == nm + "_into": return s.out(x, 1, V(s.value(nm, o[1], o[2], u)), st)
                if n == nm: return V(s.value(nm, o[1], o[2], u))
            if n == "evalAllDers_into":
                k = s.ii(args[1])
                return s.out(x, 2, ("vec", tuple(V(s.value(nm, o[1], o[2], u)) for nm in ("eval", "deriv", "deriv2")[:k + 1])), st)
            raise AnalysisError("%s: %s of a piece of a summand" % (s.place(), n))
        return super().leaf_(x, obj, args, st)
    def binop(s, o, a, b, x):
        if a[0] == "dim" and b[0] == "dim" and o in ("==", "!=") and a[1] == b[1]: return I(o == "==")
        return super().binop(o, a, b, x)

SUPPS = [lambda p, k: ((0, 1), (0, 1)), lambda p, k: ((p, 10 - p), (-p, 5 + p)), lambda p, k: ((-3 * p * (p == 1) + k, 7 + 4 * (p == 1)), (-2 + 5 * (p == 2), 3 + 9 * (p == 2))), lambda p, k: ((p * p - 3 * p, 1 + k + p % 2), (4 - p, 6 + p * (2 - p)))]
def s33(tier, seed):
    res = Result("S33", "constructors and evaluation routines of a sum of function sets are interpreted for 1 to 4 summands and 1 to 3 pieces with free values: every piece keeps its own index and every result is the sum over all summands of that piece", 60)
    t = facts.load("extra_tu")
    C = lambda k: one(t, SUM, "gsFunctionSum", k, lambda f: k != 1 or "vector" in f["p"][0]["t"])
    P0 = one(t, PIECE, "gsFunctionPieceSum", 2)
    for n in range(1, 5):
        for np in range(1, 4):
            fns = tuple(("addr", ("fn", i)) for i in range(n))
            def built(f, args):
                def go(rng):
                    w = SumW(t, rng, n, np, SUPPS[0]); st, _ = exits(w, f, args)
                    get = lambda m: w.strip(w.read(("m", THIS, m), st))
                    if get("m_functions") != ("vec", fns): return "the list of summands is %s" % show(get("m_functions"))[:80]
                    if w.int_(get("m_size")) != n: return "the number of summands is %s" % show(get("m_size"))
                    want = tuple(("piece", THIS, k) for k in range(np))
                    if get("m_pieces") != ("vec", want): return "the pieces are %s" % show(get("m_pieces"))[:120]
                    for nm, arg in (("piece", True), ("func", True), ("nPieces", False), ("size", False), ("funcSize", False), ("domainDim", False), ("targetDim", False)):
                        g = one(t, SUM, nm, 1 if arg else 0)
                        for k in range(np if nm == "piece" else n) if arg else (None,):
                            v = w.strip(exits(w, g, [I(k)] if arg else [], st.copy())[1])
                            ok = v == ("piece", THIS, k) if nm == "piece" else v == ("fn", k) if nm == "func" else w.int_(v) == (n if nm == "funcSize" else np) if "Dim" not in nm else v[:2] == ("dim", nm)
                            if not ok: return "%s(%s) is %s" % (nm, "" if k is None else k, show(v)[:80])
                    return None
                return retrying(go, (seed, n, np))
            res.count("constructions")
            obl(res, "sum of %d over %d pieces, constructed from a list" % (n, np), C(1), lambda: built(C(1), [("vec", fns)]))
            if n == 2: obl(res, "sum of 2 over %d pieces, constructed from two" % np, C(2), lambda: built(C(2), list(fns)))
            for k in range(np):
                def evaluated(f, nm, der):
                    def go(rng):
                        w = SumW(t, rng, n, np, SUPPS[0]); w.members.update({"m_geom": ("addr", ("sum",)), "m_index": I(k)}); st = flow.St()
                        u = rng.mat(2, 3, "u"); ks = [p["i"] for p in f["p"]]
                        junk = V(rng.mat(2, 5, "junk")) if nm != "evalAllDers" else ("vec", (V(rng.mat(1, 1, "junk")),))
                        args = [V(u)] + ([I(der)] if nm == "evalAllDers" else []) + [junk]
                        st, _ = exits(w, f, args)
                        v = st.env.get(ks[-1])
                        if v is None: return "nothing is returned"
                        v = w.strip(v)
                        names = [nm] if nm != "evalAllDers" else ["eval", "deriv", "deriv2"][:der + 1]
                        got = [lift(v)] if nm != "evalAllDers" else [lift(z) for z in (w.seq(v) or ())]
                        if len(got) != len(names): return "%d results for derivatives up to order %d" % (len(got), der)
                        for q, g in zip(names, got):
                            if g is None: raise AnalysisError("%s: the result was not followed (%s)" % (where(f), show(v)[:100]))
                            want = w.value(q, 0, k, u)
                            for p in range(1, n): want = want + w.value(q, p, k, u)
                            if (g.r, g.c) != (want.r, want.c) or not all((x - y).zero() for x, y in zip(g.a, want.a)): return "the %s is not the sum over the %d summands" % ({"eval": "value", "deriv": "first derivative", "deriv2": "second derivative"}[q], n)
                        return None
                    return retrying(go, (seed, n, k))
                for nm in ("eval", "deriv", "deriv2"):
                    f = one(t, PIECE, nm + "_into", 2); res.count("evaluations"); obl(res, "%s of piece %d of %d, %d summands" % (nm, k, np, n), f, lambda: evaluated(f, nm, None))
                f = one(t, PIECE, "evalAllDers_into", 3)
                for der in range(3): res.count("evaluations"); obl(res, "derivatives up to order %d of piece %d of %d, %d summands" % (der, k, np, n), f, lambda: evaluated(f, "evalAllDers", der))
                for j, sp in enumerate(SUPPS):
                    def support():
                        def go(rng):
                            w = SumW(t, rng, n, np, sp); st, _ = exits(w, P0, [("addr", ("sum",)), I(k)])
                            if w.int_(w.read(("m", THIS, "m_index"), st)) != k or w.strip(w.read(("m", THIS, "m_geom"), st)) != ("sum",): return "the piece is not number %d of the sum it was made for" % k
                            v = lift(w.strip(exits(w, one(t, PIECE, "support", 0), [], st.copy())[1]))
                            if v is None: raise AnalysisError("support not followed")
                            want = [z for d in range(2) for z in (min(sp(p, k)[d][0] for p in range(n)), max(sp(p, k)[d][1] for p in range(n)))]
                            return None if (v.r, v.c) == (2, 2) and all((a - N.of(b)).zero() for a, b in zip(v.a, want)) else "the support does not enclose exactly those of the summands"
                        return retrying(go, (seed, n, k))
                    res.count("supports"); obl(res, "support %d of piece %d of %d, %d summands" % (j, k, np, n), P0, support)
    res.assume("the summands have the same number of pieces and the same dimensions (asserted by the constructor)")
    return res

# ------------------------------------------------------------------------------------------------ S34
HELP = "gismo::gsThinShellDWRHelper"
class EstW(HW):
    """the estimator seen through its interface: matrices, dual loads, fields; one linear solver"""
    ND = {"L": 2, "H": 3}
    def __init__(s, tu, rng):
        super().__init__(tu, rng, inline=lambda f: f.get("cls") == HELP); s.n = 0
        s.members["m_assembler"] = ("addr", ("est",))
    def slot(s, name, st, new=None):
        k = ("m", ("est",), name)
        if new is not None: st.heap[k] = new
        return st.heap.get(k)
    def vec(s, n, *key): return M.col([s.rng(*key, i) for i in range(n)])
    def decl(s, v, st):
        super().decl(v, st)
        if "gsSparseSolver<" in v["t"] and "Ptr" in v["t"] or "unique_ptr<" in v["t"] and "gsSparseSolver" in v["t"]: st.env[v["i"]] = ("solver",)
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None; a = [s.strip(z) for z in args]
        if n == "get" and "gsSparseSolver" in x.get("q", "") + str(x.get("rt", "")): return ("solver",)
        if o is not None and o[0] in ("solver", "ctor") and "olver" in str(o) and n in ("compute", "factorize", "analyzePattern", "solve"):
            if n in ("compute", "factorize"): s.slot("factor", st, a[0]); return ("solver",)
            if n == "solve":
                m = s.slot("factor", st); r = lift(a[0])
                if m is None: raise DomainError("%s: solves without a matrix" % s.place())
                if r is None: raise AnalysisError("%s: right-hand side not understood: %s" % (s.place(), show(a[0])[:80]))
                if m[0] != "mat": raise AnalysisError("%s: matrix not understood: %s" % (s.place(), show(m)[:80]))
                if r.r != s.ND[m[1]]: raise DomainError("%s: the right-hand side has %d entries for a matrix of size %d" % (s.place(), r.r, s.ND[m[1]]))
                return V(s.vec(s.ND[m[1]], "solution", m, tuple(str(z.base()) for z in r.a)))
            return ("void",)
        if o == ("est",):
            lev = n[-1] if n[-1] in "LH" else None
            if n in ("numDofsL", "numDofsH"): return I(s.ND[lev])
            if n in ("assembleMatrixL", "assembleMatrixH"): s.slot("K" + lev, st, ("mat", lev) + tuple(a)); return I(0)
            if n in ("matrixL", "matrixH"): return s.slot("K" + lev, st) or ("mat", lev, "earlier")
            if n in ("assembleDualL", "assembleDualH"):
                b = tuple("points" if isM(z) else z for z in a)
                s.slot("d" + lev, st, V(s.vec(s.ND[lev], "dual", lev, b))); return I(0)
            if n in ("dualL", "dualH"):
                r = s.slot("d" + lev, st)
                return r if r is not None else V(s.vec(s.ND[lev], "dual", lev, "earlier"))
            if n in ("constructMultiPatchL", "constructMultiPatchH") or n in ("constructSolutionL", "constructSolutionH"):
                r = lift(a[0]); r = ("field" if "Multi" in n else "deformed", lev, tuple(str(z.base()) for z in r.a) if r is not None else a[0])
                return s.out(x, 1, r, st) if len(args) == 2 else r
            if n in ("computeError", "computeErrorElements", "computeSquaredErrorElements"):
                s.n += 1; key = ("value", n, tuple(a[:4]))
                if n == "computeError": return V(M.scal(s.rng(key)))
                return ("vec", tuple(V(M.scal(s.rng(key, i))) for i in range(4)))
            raise AnalysisError("%s: %s of the estimator not understood" % (s.place(), n))
        if n == "abs" and len(a) == 1 and lift(a[0]) is not None: v = lift(a[0]).a[0]; return V((v * v).sqrt())
        return super().leaf_(x, obj, args, st)

def scenario(t, rng, npts, nbnd, interior, loads, short):
    w = EstW(t, rng); D, U, B = ("sym", "deformed"), ("sym", "primal"), ("vec", tuple(("sym", "side %d" % k) for k in range(nbnd)))
    full = one(t, HELP, "computeError", short or 10)
    pts = V(rng.mat(2, npts, "points") if npts else M(0, 0, []))
    rest = [("str", "file"), I(1000), I(0), I(0)]
    st, _ = exits(w, full, ([D, U, I(loads)] + rest)[:short] if short else [D, U, B, pts, I(interior), I(loads)] + rest)
    z = {}
    for lev in "LH":
        r = [N.of(0)] * w.ND[lev]
        for on, b in ((interior, (U, D)), (nbnd, (B, U, D)), (npts, ("points", U, D))):
            if on: r = [x + y for x, y in zip(r, w.vec(w.ND[lev], "dual", lev, b).a)]
        s = w.vec(w.ND[lev], "solution", ("mat", lev, D), tuple(str(q.base()) for q in r))
        z[lev] = ("field", lev, tuple(str(q.base()) for q in s.a))
    E = lambda n: ("value", n, (z["L"], z["H"], D, I(loads)))
    get = lambda m: w.strip(w.read(("m", THIS, m), st))
    tot = rng(E("computeError")); got = lift(get("m_error"))
    if got is None: raise AnalysisError("the error was not followed: %s" % show(get("m_error"))[:100])
    if not (got.a[0] - tot).zero(): return "the error is not the estimate for the dual solutions of the requested goals on the two spaces"
    el, sq = ([rng(E(n), i) for i in range(4)] for n in ("computeErrorElements", "computeSquaredErrorElements"))
    ab = lambda x: (x * x).sqrt()
    def compare(name, norm, want):
        f = one(t, HELP, name, 1); v = w.seq(w.strip(exits(w, f, [I(norm)], st.copy())[1]))
        if v is None or any(lift(q) is None for q in v): raise AnalysisError("%s: the result was not followed" % where(f))
        return None if len(v) == 4 and all((lift(q).a[0] - y).zero() for q, y in zip(v, want)) else "%s(%s) are not the element errors of this estimation%s" % (name, "true" if norm else "false", " relative to the error" if norm else "")
    return compare("errors", 0, el) or compare("errors", 1, [ab(e) / ab(tot) for e in el]) or compare("absErrors", 0, [ab(e) for e in el]) or compare("absErrors", 1, [ab(e) / ab(tot) for e in el]) or compare("sqErrors", 0, sq) or compare("sqErrors", 1, [ab(e) / (tot * tot) for e in sq])

def s34(tier, seed):
    res = Result("S34", "the helper is interpreted over free matrices, dual loads and estimates: the dual solution of each space solves the matrix of that space at the deformed configuration for the sum of the requested dual loads; the estimates are taken for exactly these", 24)
    t = facts.load("extra_tu"); f = one(t, HELP, "computeError", 10)
    for npts in (0, 1, 3):
        for nbnd in (0, 1, 2):
            for interior in (0, 1):
                for loads in (0, 1):
                    if not (npts or nbnd or interior): continue
                    res.count("scenarios")
                    obl(res, "%d points, %d sides, %s interior, %s loads" % (npts, nbnd, "with" if interior else "no", "with" if loads else "no"), f, lambda: retrying(lambda rng: scenario(t, rng, npts, nbnd, interior, loads, None), (seed, npts, nbnd, interior, loads)))
    for short in (3, 7):
        for loads in (0, 1):
            g = one(t, HELP, "computeError", short); res.count("scenarios")
            obl(res, "short form with %d parameters, %s loads" % (short, "with" if loads else "no"), g, lambda: retrying(lambda rng: scenario(t, rng, 0, 0, 1, loads, short), (seed, short, loads)))
    res.assume("the linear solver solves the system with the matrix it was given last")
    return res
RULES = {"S33": s33, "S34": s34}

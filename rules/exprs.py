"""The expression classes of the weak forms implement the derivatives they are named after."""
import re
import facts, flow
from facts import AnalysisError, where
from flow import show, I
from field import N, M, P, Rng, Retry, DomainError, eps, isqr
from denote import Jet, ORDER, unormal, normal
from matdom import MatWalker, V, isM, Oob, shape_of_type
from report import Result
from fractions import Fraction

A, K, D = 2, 2, 3          # active functions, evaluation points, space dimension
E1, E2 = 1, 2
TUS = ("gsThinShellAssembler_", "gsThinShellAssemblerDWR_", "extra_tu")

class Sample:
    """random jets of the geometry, the basis functions and a field at K points"""
    def __init__(s, seed, side):
        s.rng = Rng(seed); s.side = side
        d, sg = side
        s.tau = [0, 0]; s.tau[1 - d] = 1
        s.g = []; s.on = []; s.f = []; s.f2 = []; s.b = []
        for k in range(K):
            for salt in range(400):
                j = Jet({q: s.rng.vec(D, "g", k, q, salt) for q in ORDER})
                n = normal(j)
                if isqr(n.norm2().base()) and isqr(j["d1"].norm2().base()) and isqr(j["d2"].norm2().base()): break
            s.g.append(j)
            J = j.jac(); met = J.T() * J; ci = met.inverse()
            con = J * M.col([ci[0, d], ci[1, d]])
            s.on.append(con.scale(N.of(sg)))
            s.f.append(Jet({q: s.rng.vec(D, "f", k, q) for q in ORDER}))
            s.f2.append(Jet({q: s.rng.vec(D, "f2", k, q) for q in ORDER}))
            s.b.append([Jet({q: M.col([s.rng("b", k, a, q)]) for q in ORDER}) for a in range(A)])
    def basis(s, k, a, c):
        """the vector function e_c * basis_a"""
        return Jet({q: M.col([s.b[k][a][q].a[0] if i == c else 0 for i in range(D)]) for q in ORDER})
    def cat(s, f): return M(len(f(0)), K, [x for row in zip(*[f(k) for k in range(K)]) for x in row])
    def geo(s, i, src="g"):
        J = {"g": s.g, "f": s.f, "f2": s.f2}[src]
        if i == 0: return s.cat(lambda k: J[k]["val"].a)
        if i == 1: return s.cat(lambda k: [J[k][q].a[c] for c in range(D) for q in ("d1", "d2")])
        return s.cat(lambda k: [J[k][q].a[c] for c in range(D) for q in ("d11", "d22", "d12")])
    def spc(s, i):
        if i == 0: return s.cat(lambda k: [s.b[k][a]["val"].a[0] for a in range(A)])
        if i == 1: return s.cat(lambda k: [s.b[k][a][q].a[0] for a in range(A) for q in ("d1", "d2")])
        return s.cat(lambda k: [s.b[k][a][q].a[0] for a in range(A) for q in ("d11", "d22", "d12")])
    def tangent(s, k): return normal(s.g[k]).cross(s.on[k])

FL = {"VALUE": 1, "DERIV": 2, "DERIV2": 128, "ACTIVE": 1024, "NORMAL": 2048, "ONORMAL": 4096}
def maxder(f): return 2 if f & (128 | 256 | 512) else 1 if f & (2 | 8 | 16 | 32 | 64 | 2048 | 4096) else 0 if f & 1 else -1

class XW(MatWalker):
    def __init__(s, tu, smp, roles, coef, card):
        s.smp = smp; s.roles = roles; s.coef = coef; s.card = card; s.used = set()
        super().__init__(tu, smp.rng, leaf=lambda *a: s.leaf_(*a))
        for r in ("u", "v", "G", "A", "B", "C", "Ef"):
            s.members["_" + r] = ("sym", r)
            s.members[(("fd", r), "values")] = ("vals", r)
            s.members[(("fd", r), "dim")] = ("dim", r)
            s.members[(("fd", r), "flags")] = I(0)
            s.members[(("dim", r), "first")] = I(2); s.members[(("dim", r), "second")] = I(3)
            s.members[(("fd", r), "normals")] = lambda r=r: s.use(r, "NORMAL", V(s.smp.cat(lambda k: normal(s.smp.g[k]).a)))
            s.members[(("fd", r), "outNormals")] = lambda r=r: s.use(r, "ONORMAL", V(s.smp.cat(lambda k: s.smp.on[k].a)))
            s.members[(("fd", r), "actives")] = ("actives", r)
    def default(s, key):
        if key[0] == "m" and s.members.get(key[2]) is None and s.members.get((key[1], key[2])) is None:
            t = s.fieldtype(key); sh = shape_of_type(t) if t and "*" not in t and "&" not in t else None
            if sh and min(sh) < 0:         # a member nothing was assigned to: empty
                if key not in s.fieldgarbage: s.fieldgarbage[key] = V(s.garbage(*[max(q, 0) for q in sh], why="member"))
                return s.fieldgarbage[key]
        return super().default(key)
    def use(s, r, what, val): s.used.add((r, what)); return val
    def fld(s, r): return s.smp.f2 if r == "v" else s.smp.f
    def kind(s, r): return s.roles.get(r, "")
    def leafindex(s, base, op, idx):
        if base[0] == "vals":
            i = s.int_(idx[0]); r = base[1]
            if i is None: return None
            s.used.add((r, i))
            k = s.kind(r)
            if "gsGeometryMap" in k: return V(s.smp.geo(i))
            if "gsFeVariable" in k: return V(s.smp.geo(i, "f2" if r == "v" else "f"))
            if "gsFeSpace" in k: return V(s.smp.spc(i))
        return None
    def x_ctor(s, x, st):
        fn = s.tu.byid.get(x.get("f"))
        if fn is not None and fn["file"].endswith("gsThinShellUtils.h"):
            a = tuple(s.expr(y, st) for y in x["a"])
            s.uid += 1; this = ("obj", s.uid, x["t"], fn.get("cid"))
            s.do_inline(fn, a, [], this, st)
            return this
        return super().x_ctor(x, st)
    def leaf_(s, w, x, obj, args, st):
        n = x["n"]
        if obj is None:
            return None
        if obj[0] == "sym":
            r = obj[1]; k = s.kind(r)
            if n == "data": return ("fd", r)
            if n in ("source", "space", "derived"): return obj
            if n in ("domainDim", "parDim"): return I(2)
            if n in ("dim", "targetDim"): return I(D)
            if n in ("cardinality", "cardinality_impl"):
                if r in s.card: return I(s.card[r])
                if "gsFeSpace" in k: s.used.add((r, "ACTIVE")); return I(A * D)
                return I(1)
            if n == "cols": return I(s.coef[r][1]) if r in s.coef else I(D)
            if n == "rows": return I(s.coef[r][0]) if r in s.coef else I(1)
            if n == "eval":
                kk = w.int_(args[0])
                if r in s.coef and kk is not None: return V(s.coef[r][2](kk))
                if "gsFe" in k and kk is not None: return V(s.fld(r)[kk]["val"])
                return None
            if n == "parse":
                f = 0
                if "gsGeometryMap" in k: f = FL["VALUE"]
                elif k.startswith("expr:"): return s.sub(r, st)
                else: f = FL["VALUE"] | FL["ACTIVE"]
                s.flag(r, f, st); return ("void",)
            if n in ("rowVar", "colVar"): return ("call", n, obj, (), ())
            if n == "isAcross": return I(0)
        if obj[0] == "fd":
            kk = w.int_(args[0]) if args else None
            r = obj[1]
            if n == "normal" and kk is not None: s.used.add((r, "NORMAL")); return V(normal(s.smp.g[kk]))
            if n == "outNormal" and kk is not None: s.used.add((r, "ONORMAL")); return V(s.smp.on[kk])
            if n == "jacobian" and kk is not None: s.used.add((r, 1)); return V(s.smp.g[kk].jac())
        if obj[0] == "actives":
            if n == "cols": return I(1)
            if n == "rows": s.used.add((obj[1], "ACTIVE")); return I(A)
        t = obj[1] if obj[0] == "ctor" else (obj[1] if obj[0] == "call" else "")
        arg = (obj[2] if obj[0] == "ctor" else obj[3] if obj[0] == "call" else ())
        if arg and arg[0][0] == "sym" and n in ("eval", "parse"):
            r = arg[0][1]; kk = w.int_(args[0]) if n == "eval" else None
            if "tangent_expr" in t or t == "tv":
                if n == "parse": s.flag(r, FL["NORMAL"] | FL["ONORMAL"], st); return ("void",)
                s.used |= {(r, "NORMAL"), (r, "ONORMAL")}; return V(s.smp.tangent(kk))
            if "grad_expr" in t or t == "grad":
                if n == "parse": s.flag(r, FL["DERIV"] | FL["ACTIVE"], st); return ("void",)
                s.used.add((r, 1)); return V(s.fld(r)[kk].jac())
            if "hess_expr" in t or t == "hess":
                if n == "parse": s.flag(r, FL["DERIV2"] | FL["ACTIVE"] | FL["VALUE"], st); return ("void",)
                s.used.add((r, 2)); j = s.fld(r)[kk]
                return V(M(D, 3, [j[q].a[c] for c in range(D) for q in ("d11", "d22", "d12")]))
        return None
    def sub(s, r, st): s.flag(r, 1 << 30, st); return ("void",)
    def flag(s, r, f, st):
        key = ("m", ("fd", r), "flags"); old = s.read(key, st)
        st.heap[key] = I(old[1] | f) if old[0] == "int" else old

# ------------------------------------------------------------------ definitions
def var1(smp, k, h): return unormal(smp.g[k].plus(h, eps(E1))).map(lambda x: x.coef(E1))
def var2(smp, k, h, q): return unormal(smp.g[k].plus(h, eps(E1)).plus(q, eps(E2))).map(lambda x: x.coef(E1).coef(E2))
def tang(smp, j):
    d, sg = smp.side
    t0 = smp.tangent_sign
    return (j["d2"] if d == 0 else j["d1"]).scale(N.of(t0))
def tvec(smp, k, *hs):
    j = smp.g[k]
    for e, h in hs: j = j.plus(h, eps(e))
    # sign of the tangent with respect to the parametric direction
    d, sg = smp.side
    t = smp.tangent(k); a = smp.g[k]["d2" if d == 0 else "d1"]
    s = 1 if (t - a).iszero() else -1
    if s < 0 and not (t + a).iszero(): raise AnalysisError("tangent is not parametric")
    return (j["d2"] if d == 0 else j["d1"]).scale(N.of(s)).normalized(), unormal(j)
def onv(smp, k, *hs):
    t, n = tvec(smp, k, *hs); return t.cross(n)

def functions(smp, k):
    """row order of a vector-valued space"""
    return [smp.basis(k, a, c) for c in range(D) for a in range(A)]

def want(cls, roles, smp, k, coef):
    ku = roles.get("u", "")
    if cls in ("var1_expr", "tvar1_expr", "ovar1_expr"):
        def one(h):
            if cls == "var1_expr": return var1(smp, k, h)
            if cls == "tvar1_expr": return tvec(smp, k, (E1, h))[0].map(lambda x: x.coef(E1))
            return onv(smp, k, (E1, h)).map(lambda x: x.coef(E1))
        if "gsFeSpace" in ku: return stack([one(h).T() for h in functions(smp, k)])
        return one(smp.f[k]).T()
    if cls in ("var2dot_expr", "var2deriv2dot_expr", "ovar2dot_expr"):
        cr = "C" if cls == "ovar2dot_expr" else "Ef"
        c = coef[cr][2](k); F = functions(smp, k); out = []
        if "gsFeSpace" not in ku: F = [smp.f[k]]
        for h in F:
            row = []
            for q in F:
                if cls == "ovar2dot_expr": v = onv(smp, k, (E1, h), (E2, q)).map(lambda x: x.coef(E1).coef(E2)); row.append(M.row(c.a).dot(v))
                else:
                    v = var2(smp, k, h, q)
                    if cls == "var2dot_expr": row.append((c * v).a[0])
                    else:
                        g = smp.g[k]; row.append((c * M.col([g["d11"].dot(v), g["d22"].dot(v), g["d12"].dot(v) * 2])).a[0])
            out.append(row)
        return M.rows(out)
    if cls == "var2_expr":
        return var2(smp, k, smp.f[k], smp.f2[k])
    if cls == "deriv2_expr":
        j = smp.g[k] if "gsGeometryMap" in ku else smp.f[k]
        if "gsFeSpace" not in ku: return M(3, D, list(j["d11"].a) + list(j["d22"].a) + list(j["d12"].a))
        blocks = [M(3, D, list(h["d11"].a) + list(h["d22"].a) + list(h["d12"].a)) for h in functions(smp, k)]
        return M(3, D * len(blocks), [b[i, j] for i in range(3) for b in blocks for j in range(D)])
    if cls == "deriv2dot_expr":
        v = coef["v"][2](k)
        if "gsFeSpace" in ku:
            return stack([M.row([v.T().dot(h[q]) if v.r != 1 else M.row(v.a).dot(h[q]) for q in ("d11", "d22", "d12")]) for h in functions(smp, k)])
        j = smp.g[k] if "gsGeometryMap" in ku else smp.f[k]
        H = M(D, 3, [j[q].a[c] for c in range(D) for q in ("d11", "d22", "d12")])
        return v * H
    if cls == "flatdot_expr":
        Am = coef["A"][2](k); C = coef["C"][2](k); n = A * D; c = coef["A"][1]; r = coef["A"][0]
        blk = [M(r, c, [Am[i, b * c + j] for i in range(r) for j in range(c)]) for b in range(n)]
        out = []
        for p in blk:
            row = []
            for q in blk:
                g = p.T() * q
                row.append(g[0, 0] * C.at(0) + g[1, 1] * C.at(1) + (g[0, 1] + g[1, 0]) * C.at(2))
            out.append(row)
        return M.rows(out)
    if cls == "flatdot2_expr":
        Am = coef["A"][2](k); Bm = coef["B"][2](k); C = coef["C"][2](k); n = A * D
        out = []
        for i in range(n):
            b = M(3, D, [Am[r, i * D + j] for r in range(3) for j in range(D)])
            row = []
            for j in range(n):
                q = b * M(D, 1, [Bm[r, j] for r in range(D)])
                row.append(C.at(0) * q.at(0) + C.at(1) * q.at(1) + C.at(2) * q.at(2) * 2)
            out.append(row)
        return M.rows(out)
    if cls in ("cartcov_expr", "cartcon_expr", "cartcovinv_expr", "cartconinv_expr"):
        g = smp.g[k]; a1, a2 = g["d1"], g["d2"]
        e1 = a1.normalized(); e2 = (a2 - e1.scale(a2.dot(e1))).normalized()
        if "con" in cls:
            J = g.jac(); ci = (J.T() * J).inverse(); q = J * ci
            a1, a2 = M(3, 1, [q[i, 0] for i in range(3)]), M(3, 1, [q[i, 1] for i in range(3)])
        o = []
        for p, q in ((e1, e1), (e2, e2), (e1, e2)):
            o.append([p.dot(a1) * a1.dot(q), p.dot(a2) * a2.dot(q), p.dot(a1) * a2.dot(q) + p.dot(a2) * a1.dot(q)])
        m = M.rows(o)
        return m.inverse() if "inv" in cls else m
    if cls == "unitVec_expr": return None
    return None

def stack(rows): return M(len(rows), rows[0].c, [x for r in rows for x in r.a])

COEF = {"var2dot_expr": {"Ef": (1, 3)}, "var2deriv2dot_expr": {"Ef": (1, 3)}, "ovar2dot_expr": {"C": (1, 3)}, "deriv2dot_expr": {"v": (1, 3)},
        "flatdot_expr": {"A": (D, 2), "B": (2, D), "C": (1, 3)}, "flatdot2_expr": {"A": (3, D), "B": (D, 1), "C": (1, 3)}}
CLASSES = ("var1_expr", "var2dot_expr", "var2deriv2dot_expr", "var2_expr", "tvar1_expr", "ovar1_expr", "ovar2dot_expr", "deriv2dot_expr", "deriv2_expr",
           "flatdot_expr", "flatdot2_expr", "cartcov_expr", "cartcon_expr", "cartcovinv_expr", "cartconinv_expr")
ROLES = {"var1_expr": "u", "tvar1_expr": "u", "ovar1_expr": "u", "var2dot_expr": "uvE", "var2deriv2dot_expr": "uvE", "ovar2dot_expr": "uvC", "var2_expr": "uv",
         "deriv2dot_expr": "uv", "deriv2_expr": "u", "flatdot_expr": "ABC", "flatdot2_expr": "ABC"}

def short(c): return re.sub(r"gismo::(expr::)?", "", c).replace("<double>", "")

def coef_of(cls, roles, smp):
    out = {}
    for r, (m, n) in COEF.get(cls, {}).items():
        if r == "v" and "gsFeSpace" in roles.get("vspace", ""): pass
        if cls in ("flatdot_expr", "flatdot2_expr") and r in ("A", "B"):
            cols = n * A * D
            if cls == "flatdot_expr" and r == "B":
                def f(k, m=m, n=n):
                    a = smp.rng.mat(D, 2 * A * D, "cA", k)
                    return M(m, n * A * D, [a[j, b * 2 + i] for i in range(m) for b in range(A * D) for j in range(n)])
                out[r] = (m, n, f); continue
            out[r] = (m, n, lambda k, m=m, cols=cols, r=r: smp.rng.mat(m, cols, "c" + r, k)); continue
        out[r] = (m, n, lambda k, m=m, n=n, r=r: smp.rng.mat(m, n, "c" + r, k))
    return out

def instances(tus=TUS):
    seen = {}
    for tn in tus:
        t = facts.load(tn)
        for cls in CLASSES:
            for f in t.find("eval", cls):
                if not f["file"].endswith("gsThinShellUtils.h"): continue
                roles = {"G": "gsGeometryMap"}
                for r, c in zip(ROLES.get(cls, ""), f["cargs"]):
                    r = "Ef" if r == "E" else r
                    roles[r] = c if r in ("u",) or (r == "v" and cls != "deriv2dot_expr") else "expr:" + c
                key = (cls, roles.get("u", ""), roles.get("v", "") if cls != "deriv2dot_expr" else "")
                if key not in seen: seen[key] = (t, f, roles)
    return seen

def obligations(res, tier, seed, only=None, tus=TUS):
    inst = instances(tus)
    for (cls, ku, kv), (t, f, roles) in sorted(inst.items(), key=lambda z: z[0]):
        if only and not only(cls, ku): continue
        lab = cls[:-5] + ("(%s)" % short(ku) if ku else "")
        res.count("expression classes")
        sides = [(0, 1), (0, -1), (1, 1), (1, -1)] if cls in ("tvar1_expr", "ovar1_expr", "ovar2dot_expr") else [(0, 1)]
        ok = True; why = ""; used = {}
        for side in sides:
            for k in range(K):
                for att in range(40):
                    try:
                        smp = Sample("%s/%s/%d" % (seed, side, att), side)
                        coef = coef_of(cls, roles, smp)
                        card = {r: A * D for r in coef if r in ("A", "B")}
                        w = XW(t, smp, roles, coef, card)
                        rets = w.run(f, [I(k)])
                        val = rets[-1][1] if len(rets) == 1 else w.mergelist(rets, ())[1]
                        exp = want(cls, roles, smp, k, coef)
                        break
                    except Retry: continue
                    except (Oob, DomainError) as e: val = None; exp = None; ok = False; why = str(e); break
                else: raise AnalysisError("no admissible sample for " + lab)
                if exp is None and ok: continue
                if not ok: break
                used.update(dict.fromkeys(w.used))
                res.count("identity tests")
                if not isM(val):
                    raise AnalysisError("cannot determine the value of %s: %s %s" % (lab, show(val)[:200], w.notes[:3]))
                v = val[1]
                if (v.r, v.c) != (exp.r, exp.c): ok = False; why = "result is %dx%d, expected %dx%d" % (v.r, v.c, exp.r, exp.c)
                elif not (v - exp).iszero():
                    ok = False; bad = [(i, j) for i in range(v.r) for j in range(v.c) if not (v[i, j] - exp[i, j]).zero()]
                    why = "entries %s differ from the defined derivative (side %s, point %d)" % (bad[:6], side, k)
                if not ok: break
            if not ok: break
        res.ob(lab, where(f), ok, why)
        flags(res, t, f, cls, roles, lab, used)
        vars_(res, t, f, cls, roles, lab)

def flags(res, t, f, cls, roles, lab, used):
    pf = [g for g in t.find("parse", cls) if g["cargs"] == f["cargs"]]
    if not pf: return
    smp = Sample("flags", (0, 1)); coef = coef_of(cls, roles, smp)
    w = XW(t, smp, roles, coef, {})
    rets = w.run(pf[0])
    st = rets[-1][0] if len(rets) == 1 else w.mergelist(rets, ())[0]
    miss = []
    for (r, what) in used:
        fl = w.read(("m", ("fd", r), "flags"), st)
        if fl[0] != "int": raise AnalysisError("flags of %s in %s not constant" % (r, lab))
        fl = fl[1]
        if isinstance(what, int):
            if maxder(fl) < what: miss.append("derivatives of order %d of %s" % (what, r))
        elif not fl & FL[what]: miss.append("%s of %s" % (what.lower(), r))
    for r in coef:
        if not w.read(("m", ("fd", r), "flags"), st)[1] & 1 << 30: miss.append("evaluation of the argument " + r)
    res.ob(lab + " requests what it reads", where(pf[0]), not miss, "not requested before evaluation: " + ", ".join(miss))

def vars_(res, t, f, cls, roles, lab):
    """which argument the rows and columns of the result belong to"""
    exp = {"var2dot_expr": ("u", "v"), "var2deriv2dot_expr": ("u", "v"), "ovar2dot_expr": ("u", "v"), "var1_expr": ("u", None), "ovar1_expr": ("u", None), "tvar1_expr": ("u", None),
           "flatdot_expr": ("A", "B"), "flatdot2_expr": ("A", "B"), "deriv2_expr": ("u", "u")}.get(cls)
    if not exp: return
    for n, r in (("rowVar", exp[0]), ("colVar", exp[1])):
        g = [q for q in t.find(n, cls) if q["cargs"] == f["cargs"]]
        if not g or r is None: continue
        w = XW(t, Sample("v", (0, 1)), roles, {}, {}); rets = w.run(g[0]); v = rets[-1][1]
        s = [y for y in flow.subterms(v) if y and y[0] == "sym"]
        res.ob(lab + " " + n, where(g[0]), bool(s) and s[0][1] == r, "belongs to %s, expected %s" % (show(v)[:60], r))

def e07(tier, seed):
    res = Result("S07", "value of each expression class == the derivative (of surface normal, tangent, boundary normal, second derivative, basis change) it stands for; the data it reads is requested", 30)
    for sd in ([seed] if tier == "quick" else range(seed, seed + 4)):
        r2 = Result("S07", "", 0)
        obligations(r2, tier, sd)
        merge(res, r2)
    return res

def merge(res, r2):
    have = {o["key"]: o for o in res.obl}
    for o in r2.obl:
        if o["key"] not in have: res.obl.append(o)
        elif not o["ok"] and have[o["key"]]["ok"]: res.obl[res.obl.index(have[o["key"]])] = o
    for a, b in r2.scope.items(): res.count(a, b)

RULES = {"S07": e07}

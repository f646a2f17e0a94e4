"""Rules about the discrete system: point loads and masses, reconstruction of solutions, status, settings."""
import itertools
import facts, flow, report
from facts import AnalysisError, where
from field import N, M, Rng, Retry, DomainError
from matdom import MatWalker, V, isM, Oob, lift
from flow import I, show
from report import Result
ASM_TU = "gsThinShellAssembler_"
RULES = {}
def rule(i):
    def f(g): RULES[i] = g; return g
    return f

class Model:
    """a small discretisation: 2 patches with 3 functions, d components, some eliminated and one shared degree of freedom per component"""
    NP, NB = 2, 3
    SIDES = {(0, 1): (0, 1), (0, 2): (2,), (0, 3): (0, 2), (1, 1): (0,), (1, 2): (1, 2), (1, 4): (0, 1)}   # functions of a side
    def __init__(s, d, rng, mapped=False, constrained=True):
        s.d, s.rng, s.mapped = d, rng, mapped
        s.g = {}; keys = []
        if mapped: s.NB = 5                                # functions of the whole domain; the numbering does not depend on the patch
        for c in range(d):
            for p in range(1 if mapped else s.NP):
                for i in range(s.NB):
                    if (p, i) == (1, 0): continue
                    keys.append((i, p, c))
        fixed = {(1, 0, c) for c in range(d)} | {(3, 0, 0) if mapped else (2, 1, 0)} | ({(0, 0, d - 1)} if d > 1 else set())
        if not constrained: fixed = set()
        free = [k for k in keys if k not in fixed]; fix = [k for k in keys if k in fixed]
        free = free[::2] + free[1::2]                     # numbering without structure
        s.nfree = len(free); s.nfix = len(fix)
        for n, k in enumerate(free + fix): s.g[k] = n
        if mapped:
            for (i, p, c) in keys: s.g[(i, 1, c)] = s.g[(i, 0, c)]
        else:
            for c in range(d): s.g[(0, 1, c)] = s.g[(2, 0, c)]
        s.acts = {0: (0, 2), 1: (1, 2)} if not mapped else {0: (0, 3), 1: (1, 4)}    # functions that do not vanish at a point of patch p
    def patchsize(s, p):
        if not 0 <= p < s.NP: raise Oob("patch %d of %d" % (p, s.NP))
        return s.NB if not s.mapped or p == s.NP - 1 else 0
    def free(s, g): return g < s.nfree
    def shared(s, g): return len({(i, p) for (i, p, c), h in s.g.items() if h == g}) > 1
    def key(s, m): return tuple(str(a.c) + str(a.base()) for a in m.a)
    def value(s, p, pt, k, kind="val"): return s.rng("basis", kind, p, s.key(pt), k)
    def inv(s, p, pt): return M.col([s.rng("inv", p, s.key(pt), k) for k in range(2)])

class DofWalker(MatWalker):
    """interprets code that talks to degree-of-freedom mappers and bases on a Model"""
    mapped = False
    def __init__(s, tu, rng, model, **kw):
        s.model = model
        super().__init__(tu, rng, leaf=lambda w, x, o, a, st: s.leaf_(x, o, a, st), **kw)
    def x_cast(s, x, st):
        v = s.expr(x["a"][0], st)
        if x.get("ck") == "CXXDynamicCastExpr":
            want = "gsMappedBasis" in x["t"]
            if "gsMappedBasis" in x["t"] or "gsMultiBasis" in x["t"]: return v if want == s.mapped else ("null",)
            raise AnalysisError("cast to %s at %s" % (x["t"], s.place()))
        return s.cast(x["t"], v, x)
    def cond(s, c):
        if c[0] == "basisset" or (c[0] == "mem" and c[2] == "m_spaceBasis"): return I(1)
        return super().cond(c)
    def out(s, x, i, val, st):
        key = s.lval(x["a"][i], st, True)
        if key is None: raise AnalysisError("result argument not understood at " + s.place())
        s.store(key, val, st, x["l"], "upd"); return ("void",)
    def ii(s, t):
        n = s.int_(t)
        if n is None: raise AnalysisError("index not understood at %s: %s" % (s.place(), show(t)[:80]))
        return n
    def dof(s, i, p, c):
        k = (i, p, c)
        if k not in s.model.g: raise Oob("%s: degree of freedom (function %d, patch %d, component %d) does not exist" % ((s.place(),) + k))
        return s.model.g[k]
    def strip(s, o):
        while o is not None and o[0] in ("deref", "addr"): o = o[1]
        return o
    def leaf_(s, x, obj, args, st):
        n = x["n"]; m = s.model; q = x.get("q", "")
        if obj is None:
            if n == "give" and len(args) == 1: return args[0]
            return None
        o = s.strip(obj)
        if "gsPointLoads" in q:
            if n == "numLoads": return I(len(o[1]))
            return None
        if n == "trialSpace": return ("space",)
        if n == "mapper" and o == ("space",): return ("mapper",)
        if n == "dim" and o == ("space",): return I(m.d)
        if o == ("mapper",):
            if n == "localToGlobal":
                a = lift(args[0])
                if a is None: raise AnalysisError("active functions not understood at " + s.place())
                p = s.ii(args[1]); c = s.ii(args[3]) if len(args) > 3 else 0
                return s.out(x, 2, V(M.col([N.of(s.dof(s.ii(V(a.a[k])), p, c)) for k in range(a.r)])), st)
            if n in ("is_free_index", "is_boundary_index"): return I(m.free(s.ii(args[0])) == (n == "is_free_index"))
            if n == "is_coupled_index": return I(m.shared(s.ii(args[0])))
            if n in ("index", "is_free", "is_boundary", "bindex", "is_coupled"):
                a = [s.ii(t) for t in args] + [0, 0]; g = s.dof(a[0], a[1], a[2])
                if n == "index": return I(g)
                if n == "bindex": return I(g - m.nfree)
                if n == "is_coupled": return I(m.shared(g))
                return I(m.free(g) == (n == "is_free"))
            if n == "global_to_bindex": return I(s.ii(args[0]) - m.nfree)
            if n == "freeSize": return I(m.nfree)
            if n == "boundarySize": return I(m.nfix)
            if n == "size": return I(m.nfree + m.nfix)
            if n == "patchSize": return I(m.patchsize(s.ii(args[0])))
            if n in ("mapSize",): return I(m.NB * (1 if m.mapped else m.NP) * m.d)
            if n == "numPatches": return I(m.NP)
            return None
        if o[0] == "basisset":
            if n == "basis" or n == "piece": return ("basis", s.ii(args[0]))
            if n == "front": return ("basis", 0)
            if n in ("nBases", "nPieces"): return I(m.NP)
            if n == "active_into": return s.active(s.ii(args[0]), args[1], x, 2, st)
            if n == "eval_into": return s.evalb(s.ii(args[0]), args[1], x, 2, st)
            return None
        if o[0] == "basis":
            if n in ("basis", "piece"): return o                     # a single basis is its own piece
            if n == "active_into": return s.active(o[1], args[0], x, 1, st)
            if n == "eval_into": return s.evalb(o[1], args[0], x, 1, st)
            return None
        if o == ("patches",):
            if n in ("nPatches", "nPieces"): return I(m.NP)
            if n in ("patch", "piece"): return ("geom", s.ii(args[0]))
            return None
        if o[0] == "geom":
            if n == "invertPoints":
                pt = lift(args[0])
                if pt is None: raise AnalysisError("point not understood at " + s.place())
                return s.out(x, 1, V(m.inv(o[1], pt)), st)
        return None
    def active(s, p, pt, x, i, st):
        if lift(pt) is None: raise AnalysisError("point not understood at " + s.place())
        return s.out(x, i, V(M.col([N.of(k) for k in s.model.acts[p]])), st)
    def evalb(s, p, pt, x, i, st):
        pt = lift(pt)
        if pt is None: raise AnalysisError("point not understood at " + s.place())
        return s.out(x, i, V(M.col([s.model.value(p, pt, k) for k in s.model.acts[p]])), st)
    def leafindex(s, base, op, idx):
        if base[0] == "loads":
            i = s.ii(idx[0])
            if not 0 <= i < len(base[1]): raise Oob("%s: load %d of %d" % (s.place(), i, len(base[1])))
            return ("load", base[1][i])
        if base[0] == "basisset" and op == "[]": return ("basis", s.ii(idx[0]))
        return None
    def default(s, key):
        if key[0] == "m" and key[1][0] == "load":
            l = s.loads[key[1][1]]
            if key[2] in l: return l[key[2]]
        if key[0] == "m" and key[1] == ("this",) and key[2] == "m_mapper": return ("mapper",)
        return super().default(key)

class SeqMixin:
    """std containers and iterators over known contents"""
    KINDS = {"set": ("unordered_set", "set"), "mset": ("unordered_multiset", "multiset"), "vec": ("vector", "deque", "list")}
    def seqkind(s, t):
        t = t.replace("const ", "").replace("std::", "").lstrip(":")
        h = t.split("<")[0].split("::")[-1]
        for k, v in s.KINDS.items():
            if h in v: return k
    def blank(s, t):
        """value of an element of a container of type t before anything is put into it"""
        inner = t[t.find("<") + 1:]; depth = 0; out = ""
        for ch in inner:
            if depth == 0 and ch in ",>": break
            depth += (ch == "<") - (ch == ">"); out += ch
        k = s.seqkind(out.strip())
        return (k, ()) if k else I(0)
    def seq(s, t):
        while t and t[0] in ("deref", "addr"): t = t[1]
        if t and t[0] in s.KINDS and len(t) == 2: return t[1]
        return None
    def ctor(s, t, a, x, st):
        k = s.seqkind(t)
        if len(a) == 1 and a[0][0] == "it" and "terator" in t: return a[0]
        if k:
            if not a: return (k, ())
            if len(a) == 1 and s.seq(a[0]) is not None: return a[0]
            if len(a) == 1 and a[0][0] == "il": return s.fill_(k, a[0][1:])
            n = s.int_(a[0])
            if n is not None and k == "vec": return (k, ((a[1] if len(a) > 1 else s.blank(t)),) * n)
            if len(a) >= 2 and a[0][0] == "it" and a[1][0] == "it": return s.fill_(k, a[0][1][a[0][2]:a[1][2]])
        return super().ctor(t, a, x, st)
    def decl(s, v, st):
        super().decl(v, st)
        if s.seqkind(v["t"]) and v["i"] in st.env and st.env[v["i"]][0] == "uninit": st.env[v["i"]] = (s.seqkind(v["t"]), ())
    def assign(s, key, v, st, x):
        w = v
        while w[0] == "ctor" and len(w[2]) == 1 and "initializer_list" in w[1]: w = w[2][0]
        if w[0] == "il":
            old = s.read(key, st)
            if s.seq(old) is not None: return s.fill_(old[0], w[1:])
        return super().assign(key, v, st, x)
    def norm(s, v):
        n = s.int_(v); return I(n) if n is not None else v
    def fill_(s, k, vs):
        r = ()
        for v in vs: r = s.added(k, r, v)
        return (k, r)
    def added(s, k, r, v):
        v = s.norm(v)
        return r if k == "set" and v in r else r + (v,)
    def x_op(s, x, st):
        if x["o"] in ("u*", "->"):
            v = s.expr(x["a"][0], st)
            if v[0] == "it": return s.itelem(v, st)
            if x["o"] == "->": return v
            return v[1] if v[0] == "addr" else ("deref", v)
        return super().x_op(x, st)
    def itelem(s, v, st=None):
        if st is not None and len(v) > 3: v = ("it", s.seq(s.read(v[3], st)) or v[1], v[2])
        if not 0 <= v[2] < len(v[1]): raise Oob("%s: iterator past the end" % s.place())
        return v[1][v[2]]
    def binop(s, o, a, b, x):
        if a[0] == "it":
            if b[0] == "it" and o in ("==", "!=", "<", "<=", ">", ">=", "-"):
                r = a[2] - b[2]; return I({"==": r == 0, "!=": r != 0, "<": r < 0, "<=": r <= 0, ">": r > 0, ">=": r >= 0, "-": r}[o])
            n = s.int_(b)
            if n is not None and o in ("+", "-"): return a[:2] + (a[2] + (n if o == "+" else -n),) + a[3:]
        return super().binop(o, a, b, x)
    def leafindex(s, base, op, idx):
        if base[0] == "vec" and len(base) == 2:
            i = s.ii(idx[0])
            if not 0 <= i < len(base[1]): raise Oob("%s: element %d of %d" % (s.place(), i, len(base[1])))
            return base[1][i]
        return super().leafindex(base, op, idx)
    def update(s, base, op, idx, val):
        if base[0] == "vec" and len(base) == 2:
            i = s.ii(idx[0])
            if not 0 <= i < len(base[1]): raise Oob("%s: element %d of %d" % (s.place(), i, len(base[1])))
            return ("vec", base[1][:i] + (val,) + base[1][i + 1:])
        return super().update(base, op, idx, val)
    def lval(s, x, st, soft=False):
        if x["k"] == "c" and "o" in x and x["n"] in ("at", "front", "back"):
            b = s.lval(x["o"], st, True)
            if b is not None:
                v = s.seq(s.read(b, st))
                if v is not None: return ("e", "[]", b, (s.norm(s.expr(x["a"][0], st)) if x["n"] == "at" else I(0 if x["n"] == "front" else len(v) - 1),))
        if x["k"] == "o" and x["o"] == "u*":
            b = s.expr(x["a"][0], st)
            if b[0] == "it" and len(b) > 3: return ("e", "[]", b[3], (I(b[2]),))
            if b[0] == "it": raise AnalysisError("%s: written through an iterator into an unknown container" % s.place())
        return super().lval(x, st, soft)
    def itkey(s, x, st):
        k = s.lval(x["o"], st, True) if "o" in x else None
        return (k,) if k is not None else ()
    def seqcall(s, x, o, args, st):
        n = x["n"]
        if n in ("begin", "cbegin"): return ("it", o[1], 0) + s.itkey(x, st)
        if n in ("end", "cend"): return ("it", o[1], len(o[1])) + s.itkey(x, st)
        if n == "size": return I(len(o[1]))
        if n == "empty": return I(not o[1])
        if n in ("at", "front", "back") and o[0] == "vec": return s.leafindex(o, "[]", args if n == "at" else (I(0 if n == "front" else len(o[1]) - 1),))
        if n in ("count", "find"):
            v = s.norm(args[0]); c = [i for i, y in enumerate(o[1]) if y == v]
            return I(len(c)) if n == "count" else ("it", o[1], c[0] if c else len(o[1]))
        new = None
        if n in ("insert", "push_back", "emplace_back", "emplace") and len(args) == 1 and args[0][0] != "il": new = (o[0], s.added(o[0], o[1], args[0]))
        elif n == "emplace_back" and len(args) > 1 and x.get("ca"): new = (o[0], s.added(o[0], o[1], s.ctor(x["ca"][0], args, x, st)))
        elif n == "insert" and len(args) == 2 and args[0][0] == "it" and args[1][0] == "it" and o[0] != "vec":
            new = s.fill_(o[0], o[1] + args[0][1][args[0][2]:args[1][2]])
        elif n == "insert" and len(args) == 3 and all(a[0] == "it" for a in args): new = (o[0], o[1][:args[0][2]] + args[1][1][args[1][2]:args[2][2]] + o[1][args[0][2]:])
        elif n == "clear": new = (o[0], ())
        elif n in ("reserve", "rehash", "shrink_to_fit"): return ("void",)
        elif n == "resize" and o[0] == "vec": k = s.ii(args[0]); new = ("vec", o[1][:k] + ((args[1] if len(args) > 1 else s.blank("vector<" + x.get("et", "") + ">")),) * (k - len(o[1])))
        if new is None:
            if n in ("insert", "push_back", "emplace_back", "emplace", "erase", "resize", "assign", "swap", "pop_back"): raise AnalysisError("%s of a container not understood at %s" % (n, s.place()))
            return None
        key = s.lval(x["o"], st, True)
        if key is None: raise AnalysisError("%s of an unknown container at %s" % (n, s.place()))
        s.store(key, new, st, x["l"], "upd"); return ("void",)
    def leaf_(s, x, obj, args, st):
        o = s.strip(obj) if obj is not None else None
        if o is not None and s.seq(o) is not None:
            r = s.seqcall(x, o, args, st)
            if r is not None: return r
        return super().leaf_(x, obj, args, st)

class ReactWalker(SeqMixin, DofWalker):
    """which entries of the internal force a reaction sums up"""
    def __init__(s, tu, rng, model, free):
        super().__init__(tu, rng, model, inline=lambda f: (f.get("cls") or "").startswith("gismo::gsThinShellAssembler"))
        s.cons, s.free_ = model, free; s.isset = False
        s.members.update({"m_patches": ("patches",), "m_spaceBasis": ("addr", ("basisset", False)), "m_basis": ("basisset", False)})
    def ctor(s, t, a, x, st):
        if "gsBoundaryConditions" in t: return a[0] if len(a) == 1 else ("bcs", ())
        return super().ctor(t, a, x, st)
    def decl(s, v, st):
        super().decl(v, st)
        if "gsBoundaryConditions" in v["t"] and st.env.get(v["i"], ("uninit",))[0] == "uninit": st.env[v["i"]] = ("bcs", ())
        if "gsExprAssembler" in v["t"]: st.env[v["i"]] = ("asm",)
    def default(s, key):
        if key[0] == "m" and key[1][0] == "side" and key[2] in ("patch", "m_index"): return I(key[1][1 if key[2] == "patch" else 2])
        return super().default(key)
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o is not None and o[0] == "side":
            if n == "side": return ("boxside", o[2])
            if n in ("index",): return I(o[2])
        if n == "getSpace": return ("space",)
        if o == ("space",):
            if n == "setup":
                b = args[0]
                while b[0] in ("deref", "addr", "ctor"): b = b[2][0] if b[0] == "ctor" and len(b[2]) == 1 else (b[1] if b[0] != "ctor" else ("bcs", ()))
                s.isset = True
                if b == ("bcs", ()): s.model = s.free_
                elif b == ("mem", ("this",), "m_bcs"): s.model = s.cons
                else: raise AnalysisError("%s: boundary conditions not understood (%s)" % (s.place(), show(b)[:60]))
                if len(args) > 2 and args[2] != ("mem", ("this",), "m_continuity"): raise DomainError("%s: the space is set up for another continuity (%s)" % (s.place(), show(args[2])[:40]))
                return ("void",)
            if n == "source": return ("basisset", False)
            if n == "mapper" and not s.isset: raise DomainError("%s: the numbering is used before the space is set up" % s.place())
        if o == ("asm",) or (o is not None and o[0] == "mem" and "ssembler" in str(o[-1])):
            if n in ("initSystem", "initVector", "setIntegrationElements", "assemble", "setOptions", "cleanUp"): return ("void",)
            if n == "rhs":
                if not s.isset: raise DomainError("%s: no system" % s.place())
                return V(M.col([s.rng("internal force", g) for g in range(s.model.nfree)]))
            if n in ("getMap", "getCoeff"): return ("opaque", n)
        if o is not None and o[0] == "basis" and n in ("boundary", "boundaryOffset"):
            if n == "boundaryOffset" and s.ii(args[1]) != 0: raise DomainError("%s: functions away from the side are selected" % s.place())
            sd = args[0]
            while sd[0] in ("ctor", "deref", "addr"): sd = sd[2][0] if sd[0] == "ctor" else sd[1]
            k = sd[2] if sd[0] == "side" else (sd[1] if sd[0] == "boxside" else s.int_(sd))
            if (o[1], k) not in s.model.SIDES: raise Oob("%s: side %s of patch %s was not requested" % (s.place(), k, o[1]))
            return V(M.col([N.of(i) for i in s.model.SIDES[(o[1], k)]]))
        return super().leaf_(x, obj, args, st)

def reaction(tu, f, seed):
    """interprets the selection and summation of a reaction; returns a message or None"""
    d = dim_of(f)
    for sel in (((0, 1),), ((1, 2), (0, 3)), ((0, 1), (0, 3)), ((1, 4), (1, 4)), ((0, 2), (1, 1)), ((0, 1), (1, 4), (0, 2))):
        def go(rng):
            m, fr = Model(d, rng), Model(d, rng, constrained=False)
            w = ReactWalker(tu, rng, m, fr)
            sides = tuple(("side",) + k for k in sel)
            vec = "vector" in f["p"][1]["t"]
            if not vec and len(sel) > 1: return None
            rets = w.run(f, [("sym", "deformed"), ("vec", sides) if vec else sides[0]])
            if not rets: raise DomainError("an error is raised on every path")
            if len(rets) != 1: raise AnalysisError("%s: %d exits" % (where(f), len(rets)))
            v = rets[0][1]
            while v is not None and v[0] == "ctor" and len(v[2]) == 1: v = v[2][0]
            if lift(v) is None: raise AnalysisError("%s: the result was not followed (%s)" % (where(f), show(v)[:100]))
            r = lift(v)
            if r.r * r.c != d: return "the result has %d entries instead of %d" % (r.r * r.c, d)
            for c in range(d):
                gs = {fr.g[(i, p, c)] for p, k in sel for i in fr.SIDES[(p, k)]}
                e = r.a[c]
                for g in sorted(gs): e = e - rng("internal force", g)
                if not e.zero(): return "component %d for the sides %s is not the sum of the internal forces of the %d distinct control points of these sides" % (c, ", ".join("%d of patch %d" % (k, p) for p, k in sel), len(gs))
            return None
        r = retrying(go, seed)
        if r: return r
    return None

def mkload(rng, tag, patch, param, n, d):
    return {"patch": I(patch), "parametric": I(param), "value": V(M.col([rng("value", tag, k) for k in range(n)])),
            "point": V(M.col([rng("point", tag, k) for k in range(2 if param else d)]))}

def cls_functions(tu, cls, name):
    return [f for f in tu.functions if f["n"] == name and f["cls"] == cls and f.get("body")]
def tag(f): return "%s<%s>" % (f["cls"].split("::")[-1], ",".join(f.get("cargs", [])))
def dim_of(f): return int(f["cargs"][0])

def retrying(fn, seed, n=8):
    for k in range(n):
        try: return fn(Rng((seed, k)))
        except Retry: continue
    raise AnalysisError("no generic sample found")

def loadset(w, rng, names, kind):
    """the point loads ('rhs') or point masses ('mass') of a walker"""
    m = w.model
    tab = {"A": (1, 1), "B": (0, 0), "C": (1, 0), "D": (0, 1)}
    w.loads = {t: mkload(rng, t, *tab[t], m.d if kind == "rhs" else 1, m.d) for t in names}
    w.members.update({"m_pLoads": ("loads", names if kind == "rhs" else ()), "m_pMass": ("loads", names if kind == "mass" else ()),
                      "m_patches": ("patches",), "m_spaceBasis": ("addr", ("basisset", m.mapped)), "m_basis": ("basisset", False)})
def loadsum(w, names, kind, start):
    """start plus, for every load, value times basis function (times basis function) at the point of application"""
    m = w.model; d = m.d; exp = list(start.a); n = start.c
    for t in names:
        l = w.loads[t]; p = l["patch"][1]; pt = l["point"][1] if l["parametric"][1] else m.inv(p, l["point"][1]); v = l["value"][1]
        for c in range(d):
            for k in m.acts[p]:
                g = m.g[(k, p, c)]
                if not m.free(g): continue
                if kind == "rhs": exp[g] = exp[g] + m.value(p, pt, k) * v.a[c]; continue
                for k2 in m.acts[p]:
                    g2 = m.g[(k2, p, c)]
                    if m.free(g2): exp[g * n + g2] = exp[g * n + g2] + m.value(p, pt, k) * m.value(p, pt, k2) * v.a[0]
    return M(start.r, start.c, exp)
def dofname(m, g): return next("(function %d, patch %d, component %d)" % k for k, h in m.g.items() if h == g)

def obl(res, key, f, fn):
    try: msg = fn()
    except (Oob, DomainError) as e: msg = str(e)
    except AnalysisError as e: res.err("%s: %s" % (key, e)); return
    res.ob(key, where(f), msg is None, msg or "")

# ------------------------------------------------------------------------------------------------ S19
CLS = "gismo::gsThinShellAssembler"
class SysWalker(flow.PhiMixin, flow.Walker):
    """follows the state of the linear system through one public call"""
    ASM = ("assemble", "assembleBdr", "assembleIfc", "assembleRhsBdr", "assembleLhsRhsBc", "assembleJacobian", "assembleJacobianIfc", "initSystem", "initVector", "initMatrix", "clearRhs", "clearMatrix")
    def __init__(s, tu, nloads=None, rhs=None, fail=None, prefix="gismo::gsThinShellAssembler", const=None):
        super().__init__(tu, inline=lambda f: (f.get("cls") or "").startswith(prefix), noinline=("_initialize", "constructSolution", "constructDisplacement", "constructMultiPatch"), const_members=const)
        s.nloads, s.rhs, s.fail = nloads, rhs, fail
        s.nstat = 0
    def sysmem(s, o): return o is not None and o[0] == "mem" and o[2] == "m_assembler"
    def special(s, x, obj, args, st):
        n = x["n"]; R = ("m", s.this, "m_rhs")
        o = obj
        if n == "numLoads" and s.nloads is not None and o == ("mem", ("this",), "m_pLoads"): return I(s.nloads)
        if n == "rhs" and s.sysmem(o): return ("sysrhs", len(s.events))
        if s.rhs is not None and "o" in x and x["o"].get("k") == "m" and x["o"]["n"] == "m_rhs":
            v = s.read(R, st)
            if n in ("size", "rows", "cols"): return I(0 if v == ("empty",) else 7)
            if n in ("resize", "clear", "setZero"): st.heap[R] = ("empty",) if n != "setZero" else ("zeroed", v); return ("void",)
        fn = s.tu.byid.get(x.get("f"))
        if s.fail is not None and "ThinShellAssemblerStatus" in x.get("rt", ""): pass
        return None
    def default(s, key):
        if key == ("m", ("this",), "m_rhs") and s.rhs is not None: return s.rhs
        return super().default(key)

def known(c, b, exc):
    """does guard (c, b) hold? None if open"""
    if c[0] == "exc": return (c[1] in exc) == b
    if c[0] == "int": return bool(c[1]) == b
    if "nonempty" in exc:
        e = wf.empties(c)
        if e is not None: return (not e) == b
    if c[0] == "phi":
        l = {bool(z[1]) if z[0] == "int" else None for z in leaves(c, exc)}
        if len(l) == 1 and None not in l: return l.pop() == b
    return None
def leaves(t, exc=()):
    """values of a term over all branches; of the try blocks only those in exc raise"""
    if isinstance(t, tuple) and t and t[0] == "phi":
        k = [known(c, b, exc) for c, b in t[1]]
        if False in k: return leaves(t[3], exc)
        if None not in k: return leaves(t[2], exc)
        return leaves(t[2], exc) | leaves(t[3], exc)
    if isinstance(t, tuple) and t and t[0] == "maybe": return leaves(t[2], exc)
    return {t}

def feasible(guards, exc=()):
    return not any(known(c, b, exc) is False for c, b in guards)
def publics(tu, cls=CLS):
    out = [f for f in tu.functions if f.get("cls") == cls and f.get("body") and f["acc"] == "public" and "ThinShellAssemblerStatus" in f.get("rt", "") and f["n"] != "status"]
    return sorted(out, key=lambda f: (f["l"], f["cargs"]))
def sig(f): return "%s::%s(%s)" % (tag(f), f["n"], ",".join(p["n"] or p["t"].split("<")[0].split("::")[-1] for p in f["p"]))

class VecWalker(flow.PhiMixin, DofWalker):
    """one public call down to the system vector of the expression assembler, on a Model, with known point loads; the
    system vector is the sum of the contributions assembled on the path, paths are joined affinely (random interpretation)"""
    SYS = ("m", ("system",), "vector")
    def __init__(s, tu, rng, model, names):
        super().__init__(tu, rng, model, inline=lambda f: (f.get("cls") or "").startswith("gismo::gsThinShellAssembler"), noinline=("_initialize", "constructSolution", "constructDisplacement", "constructMultiPatch"))
        s.mapped = model.mapped; s.n = 0
        loadset(s, rng, names, "rhs")
        s.members[(("system",), "vector")] = V(s.R("before"))
    def R(s, k): return M.col([s.rng("system vector", k, i) for i in range(s.model.nfree)])
    def phi(s, cond, a, b):
        k = [known(c, v, ()) for c, v in cond]
        if False in k: return b
        if None not in k: return a
        if isM(a) and isM(b) and (a[1].r, a[1].c) == (b[1].r, b[1].c) == (s.model.nfree, 1):
            l = M(1, 1, [s.rng("join", show(cond, -9))])
            return V(b[1] + M(a[1].r, 1, [(x - y) * l.a[0] for x, y in zip(a[1].a, b[1].a)]))
        return super().phi(cond, a, b)
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o == ("mem", ("this",), "m_assembler"):
            if n in SysWalker.ASM:
                s.n += 1; old = s.read(s.SYS, st)[1]
                st.heap[s.SYS] = V(s.R(s.n) if n in ("initSystem", "initVector", "clearRhs") else old + s.R(s.n)); return ("void",)
            if n in ("rhs", "giveRhs"): return s.read(s.SYS, st)
        if o == ("mem", ("this",), "m_pLoads") and n == "numLoads": return I(len(s.members["m_pLoads"][1]))
        return super().leaf_(x, obj, args, st)

def rhs_after(tu, f, names, old, mapped, seed, args):
    """interprets the public call f and then rhs()"""
    acc = [g for g in cls_functions(tu, CLS, "rhs") if g["cargs"] == f["cargs"] and not g["p"] and g.get("acc") == "public"]
    if not acc: raise AnalysisError("no public rhs()")
    def go(rng):
        m = Model(dim_of(f), rng, mapped); w = VecWalker(tu, rng, m, names)
        stored = M.col([rng("earlier", i) for i in range(m.nfree)]) if old else M.zero(0, 0)
        w.members["m_rhs"] = V(stored); before = V(w.R("before"))
        rets = w.run(f, args); n = 0
        for st, v in rets:
            if not feasible(st.guards): continue
            got = st.heap.get(("m", ("this",), "m_rhs"), V(stored)); sysv = w.read(w.SYS, st)
            for l in leaves(got):
                n += 1
                if not isM(l): raise AnalysisError("%s: the right-hand side was not followed (%s)" % (where(f), show(l)[:100]))
                if not isM(sysv): raise AnalysisError("%s: the system vector was not followed (%s)" % (where(f), show(sysv)[:100]))
                if sysv == before and l == V(stored): continue                  # nothing assembled, nothing changed
                exp = loadsum(w, names, "rhs", sysv[1])
                st2 = st.copy(); st2.guards = (); st2.heap[("m", ("this",), "m_rhs")] = l
                rr = w.run(acc[0], st=st2)
                if len(rr) != 1: raise AnalysisError("%s: %d exits" % (where(acc[0]), len(rr)))
                r = lift(rr[0][1])
                if r is None: raise AnalysisError("%s: the returned right-hand side was not followed (%s)" % (where(acc[0]), show(rr[0][1])[:100]))
                if (r.r, r.c) != (exp.r, exp.c): return "the right-hand side has size %dx%d" % (r.r, r.c)
                bad = [i for i, (a, b) in enumerate(zip(r.a, exp.a)) if not (a - b).zero()]
                if not bad: continue
                same = lambda e: all((a - b).zero() for a, b in zip(r.a, e.a))
                if old and same(stored): return "the right-hand side of an earlier assembly is returned"
                if names and same(sysv[1]): return "the point loads are not added to the right-hand side"
                if names and same(loadsum(w, names, "rhs", exp)): return "the point loads are added more than once"
                if len(bad) == m.nfree: return "the right-hand side is not the complete vector assembled by this call plus the point loads"
                return "the entry of degree of freedom %s is not the assembled one plus the sum over the loads of value times basis function at the point of application" % dofname(m, bad[0])
        return None if n else "no normal exit"
    return retrying(go, seed)

def boolargs(f):
    """argument lists with every combination of the boolean parameters"""
    ks = [i for i, p in enumerate(f["p"]) if p["t"].replace("const ", "").strip() in ("bool", "_Bool")]
    for bits in itertools.product((0, 1), repeat=len(ks)):
        a = [None] * len(f["p"])
        for i, b in zip(ks, bits): a[i] = I(b)
        yield a
@rule("S19")
def s19(tier, seed):
    res = Result("S19", "every vector-assembling call is interpreted on a symbolic discretisation; the right-hand side returned afterwards == the system vector of that call + sum of point load value times basis function in the free degrees of freedom", 20)
    tu = facts.load(ASM_TU)
    for f in publics(tu):
        n = f["n"]
        if "Matrix" in n or "Mass" in n or n == "assembleFoundation": continue
        acc = n not in ("assemble", "assembleVector")
        for names, old, mapped in [("ABCD", 1, 0), ("", 0, 0), ("", 1, 0)] + ([] if acc else [("ABCD", 0, 0), ("ABCD", 0, 1), ("ABCD", 1, 1)]):
            key = "%s: right-hand side with %s, %s, %s basis" % (sig(f), "point loads" if names else "no point loads", "an earlier one stored" if old else "none stored", "mapped" if mapped else "multi")
            for args in boolargs(f):
                kk = key + "".join(", %s=%d" % (p["n"], a[1]) for p, a in zip(f["p"], args) if a)
                res.count("interpretations"); obl(res, kk, f, lambda: rhs_after(tu, f, tuple(names), old, bool(mapped), seed, args))
    return res

# ------------------------------------------------------------------------------------------------ S20: mass
import re, wf, weakform
class MassWalker(DofWalker):
    """assembleMass down to the system matrix and vector of the expression assembler"""
    def __init__(s, tu, rng, model, npm):
        n = model.nfree
        s.K = M(n, n, [rng("K", i, j) for i in range(n) for j in range(n)]); s.R = M.col([rng("R", i) for i in range(n)])
        super().__init__(tu, rng, model, inline=lambda f: (f.get("cls") or "").startswith("gismo::gsThinShellAssembler"))
        s.npm = npm; s.done = 0; s.mapped = model.mapped
        loadset(s, rng, npm, "mass"); s.PM = loadsum(s, npm, "mass", M.zero(n, n))
    def ctor(s, t, a, x, st):
        if "gsSparseMatrix" in t:
            if len(a) == 1 and isM(a[0]): return a[0]
            ii = [s.int_(z) for z in a]
            if len(ii) == 2 and None not in ii: return V(M.zero(*ii))
            if not ii: return V(M.zero(0, 0))
        return super().ctor(t, a, x, st)
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o == ("mem", ("this",), "m_assembler"):
            if n in ("assemble", "assembleBdr", "assembleIfc"): s.done += 1; return ("void",)
            if n in ("initSystem", "initMatrix"): s.done = 0; return ("void",)
            if n in ("matrix", "giveMatrix"): return V(s.K if s.done else M.zero(s.K.r, s.K.c))
            if n in ("rhs", "giveRhs"): return V(s.R if s.done else M.zero(s.R.r, 1))
        if o == ("mem", ("this",), "m_pMass") and n == "numLoads": return I(len(s.npm))
        if isM(o) if o is not None else False:
            if n in ("makeCompressed", "reserve", "uncompress", "prune", "reservePerColumn", "finalize"): return ("void",)
            if n == "addTo":
                key = s.lval(x["o"], st, True); i, j = s.ii(args[0]), s.ii(args[1]); v = lift(args[2])
                if key is None or v is None: raise AnalysisError("%s: entry not understood" % s.place())
                s.store(key, s.update(o, "()", (I(i), I(j)), V(o[1][i, j] + v.a[0])), st, x["l"], "upd"); return ("void",)
        return super().leaf_(x, obj, args, st)

def run_mass(tu, f, lumped, npm, seed, mapped=False):
    def go(rng):
        m = Model(dim_of(f), rng, mapped); w = MassWalker(tu, rng, m, npm)
        w.members.update({"m_mass": V(M(2, 2, [rng("old", i) for i in range(4)]))})
        rets = w.run(f, [I(lumped)])
        if lumped: exp = M(m.nfree, m.nfree, [w.R.a[i] if i == j else N.of(0) for i in range(m.nfree) for j in range(m.nfree)])
        else: exp = w.K + w.PM
        n = 0
        for st, v in rets:
            if not feasible(st.guards): continue
            for l in leaves(st.heap.get(("m", ("this",), "m_mass"))):
                n += 1
                if not isM(l): raise AnalysisError("%s: the mass matrix was not followed (%s)" % (where(f), show(l)[:80]))
                if (l[1].r, l[1].c) != (exp.r, exp.c): return "the mass matrix has size %dx%d" % (l[1].r, l[1].c)
                if any(not (a - b).zero() for a, b in zip(l[1].a, exp.a)):
                    return "the mass matrix is not the diagonal of the assembled row sums" if lumped else "the mass matrix is not the assembled matrix plus the point masses, once each"
        if not n: return "no normal exit"
        return None
    return retrying(go, seed)

def mass_form(tu, f, fam, lumped, tier, seed):
    from denote import Den, E0
    I_, w = wf.integrals(tu, f, args=[I(lumped)])
    if not I_: return "nothing is assembled"
    rho = ("ctor", "gismo::gsMaterialMatrixIntegrate<double, gismo::MaterialOutput::Density>", (("mem", ("this",), "m_materialMatrices"), ("addr", ("mem", ("this",), "m_patches"))))
    Z = N.of(0)
    for asg, names in wf.assignments(wf.free_atoms(I_)):
        for sd in weakform.seeds(tier, seed):
            def both(c):
                r = wf.evaluate(I_, c, asg); den = Den(c, "dom")
                d = den.ev(weakform.C_("getCoeff", None, rho)).a[0] * den.f_meas(None, None, (weakform.ORI,), "v", "w").a[0]
                v, u = c.fjet("v", "left")["val"], c.fjet("w", "left")["val"]
                if lumped:
                    t = N.of(0)
                    for y in v.a: t = t + y
                    return r, (Z, d * t)
                return r, (d * v.dot(u), Z)
            r, e = weakform.sample(both, sd, int(fam[0]), weakform.cfg_resolver(), nobend=fam[1] == "false")
            if set(r) - {"dom"}: return "something is assembled on %s" % ", ".join(set(r) - {"dom"})
            g = r.get("dom", (Z, Z))
            for a, b, nm in zip(g, e, ("matrix", "vector")):
                if not (a.drop(E0) - b).zero(): return "the assembled %s is not that of the %s mass (density times undeformed area)" % (nm, "row-sum" if lumped else "consistent")
    return None

@rule("S20")
def s20(tier, seed):
    res = Result("S20", "integrand of assembleMass == density x test x trial x undeformed area (or its row sum); the stored matrix == assembled matrix + point masses; point masses interpreted on a symbolic discretisation", 15)
    tu = facts.load(ASM_TU)
    for fam in weakform.FAM:
        f = weakform.method(tu, "assembleMass", fam, ["bool"])
        for lumped in (0, 1):
            res.count("functions"); nm = "lumped" if lumped else "consistent"
            obl(res, "%s %s mass integrand" % (tag(f), nm), f, lambda: mass_form(tu, f, fam, lumped, tier, seed))
            for npm, mapped in (("", 0),) if lumped else (("", 0), ("ABCD", 0), ("ABCD", 1)):
                res.count("interpretations")
                obl(res, "%s %s mass matrix%s" % (tag(f), nm, " with point masses, %s basis" % ("mapped" if mapped else "multi") if npm else ""), f, lambda: run_mass(tu, f, lumped, tuple(npm), seed, bool(mapped)))
    td = facts.load("gsThinShellAssemblerDWR_")
    for f in sorted(cls_functions(td, "gismo::gsThinShellAssemblerDWR", "assembleMassL") + cls_functions(td, "gismo::gsThinShellAssemblerDWR", "assembleMassH"), key=lambda f: (f["n"], f["cargs"])):
        obl(res, "%s::%s" % (tag(f), f["n"]), f, lambda: dwr_mass(td, f))
    res.assume("the expression assembler puts matrix expressions in matrix() and vector expressions in rhs()")
    return res

def dwr_mass(tu, f):
    s = f["n"][-1]; w = flow.Walker(tu, inline=lambda g: (g.get("cls") or "").startswith("gismo::gsThinShellAssemblerDWR"))
    A = ("deref", ("mem", ("this",), "m_assembler" + s))
    rets = w.run(f)
    cs = [e for e in w.events if e.kind == "call" and e.term[1] == "assembleMass"]
    if not cs: return "no mass matrix is assembled"
    if any(e.term[2] not in (A, A[1]) for e in cs): return "the mass matrix is assembled in the other space"
    if any(e.term[3] != (("var", f["p"][0]["n"], "p0"),) for e in cs): return "the lumping flag is not passed on"
    for st, v in rets:
        if not feasible(st.guards): continue
        for l in leaves(st.heap.get(("m", ("this",), "m_mass" + s), ("mem", ("this",), "m_mass" + s))):
            if not (l[0] == "call" and l[1] == "massMatrix" and l[2] in (A, A[1])): return "the stored mass matrix is %s" % show(l)[:80]
    return None

# ------------------------------------------------------------------------------------------------ S21: status
DWR = "gismo::gsThinShellAssemblerDWR"
class StatWalker(SysWalker):
    """the k-th call that reports a status reports a failure (k None: none does)"""
    def __init__(s, tu, k=None, prefix="gismo::gsThinShellAssembler", const=None):
        super().__init__(tu, prefix=prefix, const=const); s.k = k; s.calls = []
    def special(s, x, obj, args, st):
        r = super().special(x, obj, args, st)
        if r is not None: return r
        if x.get("q", "").endswith("gsThinShellAssemblerBase") and x["n"].startswith("assemble") and x["n"] != "assembler":
            s.calls.append((x["n"], x["l"])); s.emit("call", ("call", x["n"], obj, args, ()), st, x["l"], x)
            return I(1 if len(s.calls) - 1 == s.k else 0)
        return None

STAT = {I(0): "Success", I(1): "AssemblyError", I(2): "DimensionError"}
def bools(f):
    """argument vectors with every flag fixed"""
    ix = [i for i, p in enumerate(f["p"]) if p["t"].replace("const", "").strip() == "bool"]
    for bits in itertools.product((1, 0), repeat=len(ix)):
        a = [None] * len(f["p"])
        for i, b in zip(ix, bits): a[i] = I(b)
        yield a, ",".join("%s=%d" % (f["p"][i]["n"], b) for i, b in zip(ix, bits))

def status_of(tu, f, args, k=None, prefix="gismo::gsThinShellAssembler", member=True, const=None):
    """(number of assembling calls, number of status calls, message)"""
    pr = lambda z: "/".join(sorted(STAT.get(t, show(t)[:60]) for t in z))
    S = ("m", ("this",), "m_status")
    w = StatWalker(tu, k, prefix, const); rets = w.run(f, args)
    asm = [e for e in w.events if e.kind == "call" and e.term[2] is not None and e.term[2] != ("this",) and e.term[1] in ("assemble", "assembleBdr", "assembleIfc", "assembleJacobian", "assembleJacobianIfc") and e.term[3] and not e.extra.get("q", "").endswith("gsThinShellAssemblerBase")]
    def vals(exc):
        v, s = set(), set()
        for st, r in rets:
            if not feasible(st.guards, exc): continue
            v |= leaves(r, exc); s |= leaves(st.heap.get(S, ("mem", ("this",), "m_status")), exc)
        return v - {("noreturn",)}, s
    v, s = vals(("nonempty",))
    n = len(asm), len(w.calls)
    if k is not None:
        if I(0) in v or any(t[0] != "int" for t in v): return n + ("a failure of %s (line %d) is reported as %s" % (w.calls[k] + (pr(v),)),)
        return n + (None,)
    for e in asm:
        if not e.intry and member: return n + ("%s:%d: assembles outside of any handler, a failure leaves the old status" % (e.fn["file"], e.line),)
    if v and v != {I(0)} and (asm or w.calls): return n + ("a successful assembly returns %s" % pr(v),)
    if asm and member and v != s: return n + ("returns %s while status() reports %s" % (pr(v), pr(s)),)
    for u in sorted({u for e in asm for u in e.intry[-1:]}):
        v, s = vals((u, "nonempty"))
        if not v: continue
        if I(0) in v or any(t[0] != "int" for t in v): return n + ("a failed assembly returns %s" % pr(v),)
        if member and v != s: return n + ("after a failure returns %s while status() reports %s" % (pr(v), pr(s)),)
    return n + (None,)

def goals(tu):
    e = [e for e in tu.enums if e["q"].endswith("GoalFunction")]
    if not e: raise AnalysisError("enumeration of the goal functions not found")
    return [(k, v) for k, v in e[0]["vals"]]

@rule("S21")
def s21(tier, seed):
    res = Result("S21", "status typestate: returned status == stored status == success without and failure with a raised exception, for every try block; failures of inner calls are thrown or returned", 60)
    tu = facts.load(ASM_TU); td = facts.load("gsThinShellAssemblerDWR_")
    comps = (0, 1, 2, 9)
    for t, c, member in ((tu, CLS, True), (td, DWR, False)):
        for f in publics(t, c):
            consts = [(None, "")]
            if "Dual" in f["n"]: consts = [({"m_goalFunction": I(v), "m_component": I(k)}, " %s/%d" % (n, k)) for n, v in goals(t) for k in comps]
            for cst, cn in consts:
                for a, nm in bools(f):
                    def go(k=None):
                        r = status_of(t, f, a, k, c, member, cst)
                        res.count("assembling calls", r[0]); res.count("walks")
                        if k is None: go.n = r[1]
                        return r[2]
                    go.n = 0
                    key = "%s%s%s" % (sig(f), " " + nm if nm else "", cn)
                    obl(res, key, f, go)
                    for k in range(go.n): obl(res, "%s inner call %d fails" % (key, k + 1), f, lambda: go(k))
    for f in ctors(tu, CLS): obl(res, "%s status before the first assembly" % sig(f), f, lambda: ctor_status(tu, f))
    return res

def ctors(tu, cls): return sorted((f for f in tu.functions if f.get("cls") == cls and f["kind"] == "ctor" and f.get("body") and not f.get("ck")), key=lambda f: (f["l"], f["cargs"]))
def ctor_status(tu, f):
    w = SysWalker(tu); out = set()
    for st, v in w.run(f):
        out |= leaves(st.heap.get(("m", ("this",), "m_status"), ("uninit",)))
    return None if out == {I(0)} else "a new assembler reports the status %s" % "/".join(STAT.get(t, t[0]) for t in out)

# ------------------------------------------------------------------------------------------------ S22: settings
IFC = ("m_strongC0", "m_weakC0", "m_strongC1", "m_weakC1", "m_uncoupled")
OWNER = {"m_pLoads": ("setPointLoads",), "m_pMass": ("setPointMass",), "m_foundFun": ("setFoundation",), "m_foundInd": ("setFoundation",), "m_pressFun": ("setPressure",), "m_pressInd": ("setPressure",),
         "m_bcs": ("updateBCs",), "m_patches": ("setGeometry", "setUndeformed"), "m_basis": ("setBasis",), "m_spaceBasis": ("setSpaceBasis", "setBasis"), "m_options": ("setOptions",),
         "m_forceFun": (), "m_parametricForce": (), "m_materialMatrices": (), **{m: ("add" + m[2].upper() + m[3:], "initInterfaces") for m in IFC}}
EFFECT = {"setPointLoads": ("m_pLoads",), "setPointMass": ("m_pMass",), "setFoundation": ("m_foundFun", "m_foundInd"), "setPressure": ("m_pressFun", "m_pressInd"), "updateBCs": ("m_bcs",),
          "setGeometry": ("m_patches",), "setUndeformed": ("m_patches",), "setBasis": ("m_basis",), "setSpaceBasis": ("m_spaceBasis",), **{"add" + m[2].upper() + m[3:]: (m,) for m in IFC}}
MUTATORS = ("clear", "push_back", "insert", "erase", "remove", "resize", "swap", "update", "pop_back", "emplace_back", "assign", "reset", "addPatch", "addPiece", "scale", "translate", "rotate", "degreeElevate", "degreeIncrease", "uniformRefine", "computeTopology", "fixOrientation", "clearTopology", "toggleOrientation")
def mutator(n): return n in MUTATORS or any(n.startswith(p) and n[len(p):len(p) + 1].isupper() for p in ("set", "add", "remove", "clear", "update", "refine", "uniform"))

class FrameWalker(flow.Walker):
    def __init__(s, tu, prefix=("gismo::gsThinShellAssembler",)):
        super().__init__(tu, inline=lambda f: (f.get("cls") or "") in prefix)
        s.noinline = {"give"}
    def special(s, x, obj, args, st):
        if x["n"] in ("give", "move") and obj is None and len(args) == 1 and args[0][0] == "var": return args[0]
        return None
    def binop(s, o, a, b, x):
        if o in ("==", "!=") and ("addr", ("this",)) in (a, b) and any(t[0] == "addr" and t[1][0] == "var" for t in (a, b)): return I(o == "!=")      # a different object
        return super().binop(o, a, b, x)
def member_writes(w):
    """(member, where, how)"""
    for e in w.events:
        if e.kind == "set":
            k = e.term
            while k[0] == "e": k = k[2]
            if k[0] == "m" and k[1] == ("this",): yield k[2], e, "assigned"
        elif e.kind == "call" and isinstance(e.extra, dict):
            o = e.term[2]
            while o is not None and o[0] in ("deref", "addr"): o = o[1]
            if o is not None and o[0] == "mem" and o[1] == ("this",) and mutator(e.term[1]) and not e.extra.get("cst"): yield o[2], e, "changed by %s()" % e.term[1]
            if e.term[1] in ("give", "move", "swap") and e.term[2] is None:
                for a in e.term[3]:
                    while a[0] in ("deref", "addr"): a = a[1]
                    if a[0] == "mem" and a[1] == ("this",): yield a[2], e, "given away"

def frame(tu, f):
    w = FrameWalker(tu); w.run(f)
    for m, e, how in member_writes(w):
        if m in OWNER and f["n"] not in OWNER[m]: return "%s is %s at %s:%d" % (m, how, e.fn["file"], e.line)
    return None
def effect(tu, f, members):
    w = FrameWalker(tu); rets = w.run(f)
    if not rets: return "no normal exit"
    for st, v in rets:
        for m in members:
            ls = leaves(st.heap.get(("m", ("this",), m), ("mem", ("this",), m)))
            for l in ls:
                a = l
                while a[0] in ("addr", "deref") or a[0] == "ctor" and len(a[2]) == 1: a = a[1] if a[0] != "ctor" else a[2][0]
                if m.endswith("Ind"):
                    if l != I(1): return "%s is %s after the call" % (m, show(l)[:60])
                elif a != ("var", f["p"][0]["n"], "p0"): return "%s is %s after the call, not the argument" % (m, show(l)[:60])
    return None
def copies(tu, f, fields):
    w = FrameWalker(tu); rets = w.run(f); o = ("var", f["p"][0]["n"], "p0")
    if not rets: return {"": "no normal exit"}
    out = {}
    for m in fields:
        for st, v in rets:
            for l in leaves(st.heap.get(("m", ("this",), m), ("mem", ("this",), m))):
                while l[0] == "call" and l[1] in ("give", "move") and len(l[3]) == 1: l = l[3][0]
                if l == ("mem", o, m): continue
                out[m] = "%s becomes %s instead of the member of the source" % (m, show(l)[:60])
    return out

@rule("S22")
def s22(tier, seed):
    res = Result("S22", "effect analysis: settings are written by their own setter only (transitively, including mutating calls); every setter stores its argument; copy and move transfer every data member", 100)
    tu = facts.load(ASM_TU); exempt = ("operator=", "options", "assembler")
    fs = [f for f in tu.functions if f.get("cls") == CLS and f.get("body") and f["acc"] == "public" and f["kind"] == "fn" and f["n"] not in exempt]
    for f in sorted(fs, key=lambda f: (f["l"], f["cargs"])):
        res.count("functions"); obl(res, "%s keeps all other settings" % sig(f), f, lambda: frame(tu, f))
        if f["n"] in EFFECT and f["p"]: obl(res, "%s stores its argument" % sig(f), f, lambda: effect(tu, f, EFFECT[f["n"]]))
    for f in tu.functions:
        if f.get("cls") != CLS or f.get("ck") not in ("copy", "move", "copyasg", "moveasg") or not f.get("body"): continue
        r = [r for r in tu.records if r["id"] == f["cid"]]
        if not r: raise AnalysisError("class of %s not found" % sig(f))
        bad = copies(tu, f, [x["n"] for x in r[0]["fields"]])
        for x in r[0]["fields"]:
            res.count("members"); res.ob("%s<%s> %s transfers %s" % (f["cls"].split("::")[-1], ",".join(f["cargs"]), f["ck"], x["n"]), where(f), x["n"] not in bad and "" not in bad, bad.get(x["n"], bad.get("", "")))
    return res

# ------------------------------------------------------------------------------------------------ S23: vectors and geometries
class SolWalker(DofWalker):
    """conversions between coefficient vectors and geometries"""
    FIX = ("m", ("this",), "<fixed part of the space>")
    def __init__(s, tu, rng, model):
        super().__init__(tu, rng, model, inline=lambda f: (f.get("cls") or "").startswith("gismo::gsThinShellAssembler"))
        m = model; s.mapped = m.mapped
        s.dd = M.col([rng("dirichlet", i) for i in range(m.nfix)])
        s.geo = tuple(V(M(s.np(p), m.d, [rng("geometry", p, i) for i in range(s.np(p) * m.d)])) for p in range(m.NP))
        s.members.update({"m_ddofs": V(s.dd), "m_patches": ("vec", s.geo), "m_spaceBasis": ("addr", ("basisset", s.mapped)), "m_basis": ("basisset", False), s.FIX[2]: V(M.col([rng("stale", i) for i in range(m.nfix)]))})
    def np(s, p): return 3 if not s.model.mapped else 2 + p
    def lval(s, x, st, soft=False):
        if x["k"] == "c" and "o" in x:
            if x["n"] == "fixedPart": return s.FIX
            if x["n"] == "coefs":
                b = s.lval(x["o"], st, True)
                if b is not None: return b
            if x["n"] == "coef":
                b = s.lval(x["o"], st, True)
                if b is not None: return ("e", "()" if len(x["a"]) == 2 else "row", b, tuple(s.expr(y, st) for y in x["a"]))
            if x["n"] in ("patch", "piece"):
                b = s.lval(x["o"], st, True)
                if b is not None: return ("e", "patch", b, (s.expr(x["a"][0], st),))
        return super().lval(x, st, soft)
    def field(s, vec, fix):
        """coefficients of the patches for a vector of free values and one of prescribed ones"""
        m = s.model; get = lambda g: vec.a[g] if m.free(g) else fix.a[g - m.nfree]
        if vec.r * vec.c != m.nfree: raise DomainError("%s: a vector with %d entries for %d degrees of freedom" % (s.place(), vec.r * vec.c, m.nfree))
        if not m.mapped: return [M(m.NB, m.d, [get(m.g[(i, p, c)]) for i in range(m.NB) for c in range(m.d)]) for p in range(m.NP)]
        return s.export(M(m.NB, m.d, [get(m.g[(i, 0, c)]) for i in range(m.NB) for c in range(m.d)]))
    def export(s, cc):
        return [M(s.np(p), cc.r, [s.rng("export", p, i, j) for i in range(s.np(p)) for j in range(cc.r)]) * cc for p in range(s.model.NP)]
    def ctor(s, t, a, x, st):
        if "gsMultiPatch" in t:
            if not a: return ("vec", ())
            if len(a) == 1: return a[0]
        return super().ctor(t, a, x, st)
    def decl(s, v, st):
        super().decl(v, st)
        if "gsMultiPatch" in v["t"] and v["i"] in st.env and st.env[v["i"]][0] == "uninit": st.env[v["i"]] = ("vec", ())
    def x_v(s, x, st):
        v = super().x_v(x, st)
        return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == "deref" and v[1][0] == "vec" else v
    def leaf_(s, x, obj, args, st):
        n = x["n"]; m = s.model; o = s.strip(obj) if obj is not None else None
        if o == ("space",) and n == "setup":
            a = [show(t) for t in args]
            if len(args) > 1 and args[1] not in (I(100), I(101), I(102)): raise AnalysisError("%s: Dirichlet values %s" % (s.place(), a[1]))
            if args[0] != ("mem", ("this",), "m_bcs") or len(args) > 2 and args[2] != ("mem", ("this",), "m_continuity"): raise DomainError("%s: the space is set up for other boundary conditions or continuity (%s)" % (s.place(), ", ".join(a)[:80]))
            st.heap[s.FIX] = V(M.zero(m.nfix, 1)) if args[1] == s.hom else V(s.dd); return ("void",)
        if o == ("space",) and n == "fixedPart": return s.read(s.FIX, st)
        if n == "getSolution": return ("sol", args[1])
        if o is not None and o[0] == "sol":
            v = lift(o[1])
            if v is None: raise AnalysisError("%s: solution vector not understood (%s)" % (s.place(), show(o[1])[:60]))
            f = lift(s.read(s.FIX, st))
            if n == "extract":
                if isinstance(args[0], tuple) and args[0][0] == "vec" and len(args) == 1: return s.out(x, 0, ("vec", tuple(V(c) for c in s.field(v, f))), st)
                return s.out(x, 0, V(s.field(v, f)[s.ii(args[1]) if len(args) > 1 else 0]), st)
            if n == "extractFull": return s.out(x, 0, V(M.col(list(v.a) + list(f.a))), st)
        if o is not None and o[0] == "basisset":
            if n == "size": return I(m.NB if o[1] else m.NB * m.NP)
            if n == "global_coef_to_local_coef": return s.out(x, 1, ("local", args[0]), st)
            if n == "exportToPatches":
                c = args[0]
                while c[0] == "ctor" and len(c[2]) == 1: c = c[2][0]
                if c[0] != "local" or lift(c[1]) is None: raise AnalysisError("%s: coefficients not understood" % s.place())
                return ("vec", tuple(V(c) for c in s.export(lift(c[1]))))
        if o is not None and o[0] == "basis" and n == "makeGeometry":
            if lift(args[0]) is None: raise AnalysisError("%s: coefficients not understood" % s.place())
            return ("geo", o[1], args[0])
        if o is not None and o[0] == "vec":
            if n in ("nPatches", "nPieces", "size"): return I(len(o[1]))
            if n in ("patch", "piece"): return s.index(o, "[]", args)
            if n == "addPatch":
                g = args[0]
                while g[0] in ("ctor", "addr", "deref"): g = g[2][0] if g[0] == "ctor" else g[1]
                if g[0] == "geo":
                    if g[1] != len(o[1]): raise DomainError("%s: patch %d is built with the basis of patch %d" % (s.place(), len(o[1]), g[1]))
                    g = g[2]
                if lift(g) is None: raise AnalysisError("%s: patch not understood" % s.place())
                key = s.lval(x["o"], st, True)
                s.store(key, ("vec", o[1] + (V(lift(g)),)), st, x["l"], "upd"); return I(len(o[1]))
            if n in ("clear",):
                s.store(s.lval(x["o"], st, True), ("vec", ()), st, x["l"], "upd"); return ("void",)
        if isM(o) and n in ("coefs",): return o
        if isM(o) and n == "coef" and "gsGeometry" in x.get("q", ""):
            i = s.ii(args[0])
            if len(args) == 1: return s.index(o, "row", args)
            return s.index(o, "()", args)
        return super().leaf_(x, obj, args, st)

def hom_value(tu):
    return I(100)      # dirichlet::homogeneous in the core library

def reconstruct(tu, f, mapped, seed):
    d = dim_of(f); n = f["n"]; np_ = len(f["p"])
    def go(rng):
        m = Model(d, rng, mapped); w = SolWalker(tu, rng, m); w.hom = HOM
        vec = M.col([rng("u", i) for i in range(m.nfree)])
        full = [rng("full", i) for i in range(m.nfree + m.nfix)]
        if n == "constructSolutionVector":
            if mapped: args = None
            args = [("vec", tuple(V(M(m.NB, d, [full[m.g[(i, p, c)]] for i in range(m.NB) for c in range(d)])) for p in range(m.NP)))]
        else: args = [V(vec), ("vec", ())][:np_]
        rets = w.run(f, args)
        if not rets: raise DomainError("an error is raised on every path")
        if len(rets) != 1: raise AnalysisError("%s: %d exits" % (where(f), len(rets)))
        st, v = rets[0]
        got = st.env.get(f["p"][1]["i"]) if np_ == 2 else v
        while got is not None and got[0] in ("ctor", "deref", "addr"): got = got[2][0] if got[0] == "ctor" else got[1]
        if n == "constructSolutionVector": exp = [M.col(full[:m.nfree])]; got = ("vec", (got,))
        elif n == "fullSolutionVector": exp = [M.col(list(vec.a) + list(w.dd.a))]; got = ("vec", (got,))
        else:
            exp = w.field(vec, w.dd)
            if "Solution" in n: exp = [a + g[1] for a, g in zip(exp, w.geo)]
        if got is None or got[0] != "vec" or any(not isM(g) for g in got[1]): raise AnalysisError("%s: the result was not followed (%s)" % (where(f), show(got)[:80] if got else got))
        if len(got[1]) != len(exp): return "%d patches instead of %d" % (len(got[1]), len(exp))
        for p, (a, b) in enumerate(zip(got[1], exp)):
            if (a[1].r, a[1].c) != (b.r, b.c): return "part %d has size %dx%d instead of %dx%d" % (p, a[1].r, a[1].c, b.r, b.c)
            for i in range(b.r):
                for j in range(b.c):
                    if not (a[1][i, j] - b[i, j]).zero(): return "entry (%d,%d) of part %d is not the one of the discrete field" % (i, j, p)
        return None
    return retrying(go, seed)
HOM = None
@rule("S23")
def s23(tier, seed):
    global HOM
    res = Result("S23", "conversions between solution vectors and geometries interpreted on a symbolic discretisation with shared and prescribed degrees of freedom, for tensor-product and mapped bases", 30)
    tu = facts.load(ASM_TU); HOM = hom_value(tu)
    names = ("constructMultiPatch", "constructDisplacement", "constructSolution", "constructSolutionVector", "fullSolutionVector")
    for f in sorted((f for f in tu.functions if f.get("cls") == CLS and f.get("body") and f["n"] in names), key=lambda f: (f["l"], f["cargs"])):
        for mapped in (False, True):
            if mapped and f["n"] == "constructSolutionVector": continue      # needs the inverse of the export
            res.count("interpretations")
            obl(res, "%s %s basis" % (sig(f), "mapped" if mapped else "multi"), f, lambda: reconstruct(tu, f, mapped, seed))
    return res

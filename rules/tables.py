"""What a material is made of: constructors, setters and copies, the option-based factory and the XML reader and writer,
followed through their own code on objects with identity (functions are opaque symbols, XML trees are concrete trees)."""
import re
import facts, flow
from facts import AnalysisError, where
from flow import show, I
from field import N, M, Rng, DomainError
from matdom import V, Oob
from objdom import ObjWalker, NullUse
from report import Result

UNIT = "gsMaterialMatrixTFT_+gsMaterialMatrixLinear_+gsMaterialMatrixNonlinear2dComp_+gsMaterialMatrixNonlinear3dComp_+gsMaterialMatrixNonlinear2dIncomp_+gsMaterialMatrixNonlinear3dIncomp_+gsMaterialMatrixXml_+extra_tu"
BASE = "gismo::gsMaterialMatrixBase"
STR = "basic_string"
FIELDS = ("m_patches", "m_defpatches", "m_thickness", "m_density", "m_pars")
def tname(r): return r["q"] + ("<" + ", ".join(r["cargs"]) + ">" if r["cargs"] else "")
def A(n): return ("addr", ("sym", n))

class Give(Exception): pass

class FW(ObjWalker):
    """objects, strings and XML trees"""
    def __init__(s, tu, rng, dim=3):
        super().__init__(tu, rng); s.this = None; s.dim = dim; s.xml = []; s.opts = {}
        s.rec = {r["id"]: r for r in tu.records}; s.warned = 0
        s.meth = {}
        for f in tu.functions: s.meth.setdefault((f.get("cid"), f["n"]), []).append(f)
        s.ovr = {}
        for r in tu.records:
            for m in r["methods"]:
                s.ovr.setdefault(r["id"], {})[m["id"]] = set(m.get("ovr", ()))
    # ------------------------------------------------ dynamic dispatch
    def isa(s, o, t):
        """is the object of the class named t (or derived from it)"""
        return any(tname(r) == t for r in s.recs(o[3]))
    def target(s, o, fid):
        """overrider of the virtual function fid in the dynamic class of o"""
        want = {fid}
        best = fid
        for r in reversed(s.recs(o[3])):
            for mid, ov in s.ovr.get(r["id"], {}).items():
                if ov & want or mid in want:
                    if mid not in want or r["id"] == o[3]: best = mid
                    want.add(mid)
        return s.tu.byid.get(best)
    def special(s, x, obj, args, st):
        if obj is not None and obj[0] == "obj" and x.get("vt") and not x.get("qualcall"):
            f = s.target(obj, x.get("f"))
            if f is not None: return s.do_inline(f, args, x["a"], obj, st)
        return super().special(x, obj, args, st)
    # ------------------------------------------------ values
    def cast(s, t, v, x):
        if x.get("ck") == "CXXDynamicCastExpr":
            t = t.replace("const ", "").strip().rstrip("*").strip()
            if v == ("null",): return v
            if v[0] == "addr" and v[1][0] == "obj": return v if s.isa(v[1], t) else ("null",)
            if v[0] == "addr" and v[1][0] == "sym" and "gsFunction" in t: return v
            raise AnalysisError("dynamic_cast of %s at %s" % (show(v)[:80], s.place()))
        return super().cast(t, v, x)
    def x_cast(s, x, st): return s.cast(x["t"], s.expr(x["a"][0], st), x)
    def x_ctor(s, x, st):
        t = x["t"].replace("const ", "")
        if STR in t.split("<")[0] or t.startswith("std::string"):
            a = tuple(s.expr(y, st) for y in x["a"])
            return a[0] if a else ("str", "")
        if "gsFunctionExpr" in t.split("<")[0]:
            a = tuple(s.expr(y, st) for y in x["a"])
            return a[0] if a else ("emptyfun",)
        if "gsOptionList" in t or "gsGeometry" in t: return ("opaque", t)
        fn = s.tu.byid.get(x.get("f"))
        rec = [r for r in s.tu.records if tname(r) == t]
        if rec and t.startswith("gismo::gsMaterialMatrix"):
            a = tuple(s.expr(y, st) for y in x["a"])
            if fn is not None and not (len(a) == 1 and a[0][0] == "obj"): return s.construct(fn, x, a, st)
            if len(a) == 1 and a[0][0] == "obj": return s.copyof(a[0], rec[0], fn, x, st)
            if not a: raise AnalysisError("default constructor of %s without a definition" % t)
        return super().x_ctor(x, st)
    def x_new(s, x, st):
        v = super().x_new(x, st)
        while v[0] == "addr" and v[1][0] == "new": v = v[1]
        if v[0] == "new" and len(v[2]) == 1 and v[2][0][0] in ("obj", "deref"):
            src = v[2][0]
            while src[0] in ("deref", "addr"): src = src[1]
            t = v[1].replace("const ", "").rstrip("*").strip()
            rec = [r for r in s.tu.records if tname(r) == t]
            if rec and src[0] == "obj": return ("addr", s.copyof(src, rec[0], None, x, st))
        return v
    def copyof(s, src, rec, fn, x, st):
        o = s.newobj(rec["q"], rec["id"])
        s.copyinto(o, src, rec, x, st)
        return o
    def copyinto(s, o, src, rec, x, st, assign=False):
        """copy construction or assignment: the user's function, or base by base and member by member"""
        nm = "operator=" if assign else rec["q"].split("::")[-1]
        own = [f for f in s.tu.functions if f.get("cid") == rec["id"] and f["n"] == nm and len(f["p"]) == 1 and f["p"][0]["t"] == "const %s &" % tname(rec)]
        if own: s.do_inline(own[0], (src,), [], o, st); return
        for b in rec["bases"]:
            br = [r for r in s.tu.records if tname(r) == b]
            if not br: raise AnalysisError("base class %s not found" % b)
            s.copyinto(o, src, br[0], x, st, assign)
        for f in rec["fields"]:
            s.store(("m", o, f["n"]), s.read(("m", src, f["n"]), st), st, x.get("l", 0))
    def baseinit(s, ini, this, st):
        n = ini["e"]; f2 = s.tu.byid.get(n.get("f"))
        a = tuple(s.expr(y, st) for y in n["a"])
        if f2 is not None:
            if s.do_inline(f2, a, n["a"], this, st) == ("noreturn",): raise DomainError("the constructor of %s raises an error (%s)" % (ini["base"], s.place()))
        elif len(a) == 1 and a[0][0] == "obj": s.copyinto(this, a[0], [r for r in s.tu.records if tname(r) == ini["base"]][0], n, st)
        elif a or ini["base"].startswith("gismo::gsMaterialMatrix"): raise AnalysisError("base class constructor of %s at %s" % (ini["base"], s.place()))
    def binop(s, o, a, b, x):
        if a[0] == "str" and b[0] == "str":
            if o == "+": return ("str", a[1] + b[1])
            if o in ("==", "!="): return I((a[1] == b[1]) == (o == "=="))
        if o in ("==", "!="):
            for p, q in ((a, b), (b, a)):
                if p in (("null",), ("int", 0)) and q[0] in ("xnode", "xattr"): return I(o == "!=")
                if p == ("int", 0) and q == ("null",): return I(o == "==")
                if p == ("int", 0) and q[0] == "addr": return I(o == "!=")
                if p[0] == q[0] == "addr" and p[1][0] in ("obj", "sym") and q[1][0] in ("obj", "sym") and p[1] != q[1]: return I(o == "!=")
        return super().binop(o, a, b, x)
    def unop(s, o, a, x):
        if o == "!" and a[0] in ("xnode", "xattr"): return I(0)
        return super().unop(o, a, x)
    def truth(s, t):
        if t[0] in ("xnode", "xattr", "addr"): return I(1)
        if t == ("null",): return I(0)
        return super().truth(t)
    def loopcond(s, c): return s.truth(c)
    def branch(s, c, t, e, st, rets, loop, line):
        return super().branch(s.truth(c), t, e, st, rets, loop, line)
    # ------------------------------------------------ library calls
    def node(s, name):
        s.xml.append(dict(name=name, attrs=[], kids=[], fun=None)); return ("xnode", len(s.xml) - 1)
    def mleaf(s, x, obj, args, st):
        n = x["n"]; q = x.get("q", "")
        if obj is None:
            if n in ("strcmp",) and args[0][0] == "str" and args[1][0] == "str": return I(args[0][1] != args[1][1])
            if n in ("atoi", "stoi") and args[0][0] == "str": return I(int(args[0][1]))
            if n in ("to_string",):
                i = s.int_(args[0])
                if i is not None: return ("str", str(i))
            if n == "makeNode": return s.node(args[0][1])
            if n == "makeAttribute":
                v = args[1]; i = s.int_(v) if v[0] != "str" else None
                return ("xattr", args[0][1], ("str", str(i)) if i is not None else v)
            if n == "putFunctionToXml":
                k = s.node("Function"); d = s.xml[k[1]]; f = args[0]
                if f[0] == "addr": f = f[1]
                i = s.int_(args[2])
                if i is None: raise AnalysisError("function index at " + s.place())
                d["fun"] = f; d["attrs"].append(("index", ("str", str(i)))); return k
            if n == "get_into" and len(args) == 2 and args[0][0] == "xnode" and "gsFunctionExpr" in str(x.get("ca", "")):
                f = s.xml[args[0][1]]["fun"]
                if f is None: raise DomainError("a function is read from a node that holds none (%s)" % s.place())
                key = s.lval(x["a"][1], st, True)
                s.store(key, f, st, x["l"], "upd"); return ("void",)
            if n == "get_into" and args[0] == ("null",): raise NullUse("a function is read from a node that does not exist (%s)" % s.place())
            return None
        o = obj
        while o[0] == "deref": o = o[1]
        if o == ("null",): raise NullUse("%s called through a null pointer (%s)" % (n, s.place()))
        if o[0] == "str":
            if n in ("c_str", "data", "str"): return o
            if n == "compare" and args[0][0] == "str": return I((o[1] > args[0][1]) - (o[1] < args[0][1]))
            if n in ("empty",): return I(not o[1])
            if n in ("size", "length"): return I(len(o[1]))
        if o[0] == "xattr":
            if n == "value": return o[2]
            if n == "name": return ("str", o[1])
        if o[0] == "xnode":
            d = s.xml[o[1]]
            nm = args[0][1] if args and args[0][0] == "str" else None
            if n == "name": return ("str", d["name"])
            if n == "append_attribute": d["attrs"].append((args[0][1], args[0][2])); return ("void",)
            if n in ("append_node", "insert_node"): d["kids"].append(args[-1][1]); s.xml[args[-1][1]]["up"] = o[1]; return ("void",)
            if n == "first_attribute":
                for a, v in d["attrs"]:
                    if nm is None or a == nm: return ("xattr", a, v)
                return ("null",)
            if n == "first_node":
                for k in d["kids"]:
                    if nm is None or s.xml[k]["name"] == nm: return ("xnode", k)
                return ("null",)
            if n == "next_sibling":
                ks = s.xml[d["up"]]["kids"]
                for k in ks[ks.index(o[1]) + 1:]:
                    if nm is None or s.xml[k]["name"] == nm: return ("xnode", k)
                return ("null",)
        if o == ("sym", "options") and n in ("askInt", "askSwitch", "getInt", "getSwitch") and args[0][0] == "str":
            if args[0][1] not in s.opts: raise AnalysisError("option %s is read at %s" % (args[0][1], s.place()))
            v = s.opts[args[0][1]]
            if v is None: return args[1]
            return I(v)
        if o[0] == "sym":
            if n == "targetDim": return I(s.dim)
            if n == "clone": return ("addr", o)
        if o == ("emptyfun",) and n == "clone": return ("addr", o)
        if n in ("addInt", "addReal", "addSwitch", "addString", "setInt", "setReal", "setSwitch", "update"): return ("void",)
        return None
    def field(s, o, f, st): return s.read(("m", o, f), st)
    def x_op(s, x, st):
        if x["o"] == "=":
            l = s.expr(x["a"][0], st)
            if l[0] == "lv" and l[1] == "d" and len(l) == 3: l = l[2]      # a reference to an object
            if l[0] == "obj" and s.rec.get(l[3], {}).get("q", "").startswith("gismo::gsMaterialMatrix"):
                v = s.expr(x["a"][1], st)
                if v[0] == "lv" and v[1] == "d" and len(v) == 3: v = v[2]
                if v[0] == "obj": s.copyinto(l, v, s.rec[l[3]], x, st, True); return l
        return super().x_op(x, st)
    def callm(s, o, name, args, st, pred=None):
        """public call of a member function, as the dynamic class resolves it; raises Give if it does not return"""
        for r in s.recs(o[3]):
            fs = [f for f in s.meth.get((r["id"], name), ()) if len(f["p"]) == len(args) and (pred is None or pred(f))]
            if fs: return s.callf(o, fs[0], args, st)
        raise AnalysisError("no member function %s/%d of %s" % (name, len(args), o[2]))
    def callf(s, o, f, args, st):
        g = s.target(o, f["id"]) or f
        r = s.do_inline(g, tuple(args), [{}] * 0, o, st)
        if r == ("noreturn",): raise Give("%s raises an error" % f["n"])
        return r
    def observe(s, o, st):
        d = {}
        for n in ("Undeformed", "Deformed", "Thickness", "Density"):
            d[n] = s.callm(o, "get" + n, (), st)
            d["has" + n] = s.int_(s.callm(o, "has" + n, (), st))
        k = s.int_(s.callm(o, "numParameters", (), st))
        if k is None: raise AnalysisError("number of parameters not determined")
        d["Parameters"] = tuple(s.callm(o, "getParameter", (I(i),), st) for i in range(k))
        return d

def expected(mp=None, de=None, t=None, rho=None, pars=()):
    d = {}
    for n, v in (("Undeformed", mp), ("Deformed", de), ("Thickness", t), ("Density", rho)):
        d[n] = A(v) if v else ("null",); d["has" + n] = int(bool(v))
    d["Parameters"] = tuple(A(q) for q in pars)
    return d
def differ(got, want):
    for k in want:
        if got[k] != want[k]: return "%s is %s, expected %s" % (k, show(got[k]) if isinstance(got[k], tuple) and got[k] and isinstance(got[k][0], str) else got[k], want[k])
    return None
def classes(tu, names=("gsMaterialMatrixLinear", "gsMaterialMatrixNonlinear")):
    return [r for r in tu.records if r["q"].split("::")[-1] in names and any(f.get("cid") == r["id"] and f["kind"] == "ctor" for f in tu.functions)]
def label(r): return r["q"].split("::")[-1].replace("gsMaterialMatrix", "") + "<" + ", ".join(a.split("::")[-1] for a in r["cargs"] if a != "double") + ">"
def dimof(r): return int(r["cargs"][0])
def is_copy(r, f): return len(f["p"]) == 1 and tname(r) in f["p"][0]["t"]
PARS = ("E", "nu", "p2", "p3", "p4", "p5")
def npars(r):
    law = r["cargs"][4].split("::")[-1] if len(r["cargs"]) > 4 else "SvK"
    return {"MR": 3, "OG": 6}.get(law, 2), law

def ctorargs(r, f):
    """(arguments, expected observation) of a constructor from the kinds of its parameters"""
    sets = [i for i, p in enumerate(f["p"]) if "std::vector" not in p["t"]]
    vec = [i for i, p in enumerate(f["p"]) if "std::vector" in p["t"]]
    if any("gsFunctionSet" not in p["t"] for p in f["p"]): return None
    if vec:
        before = [i for i in sets if i < vec[0]]; after = [i for i in sets if i > vec[0]]
        roles = {i: n for i, n in zip(before, ("mp", "t") if len(before) == 2 else ("t",))}
        if after: roles[after[0]] = "rho"
    else:
        roles = dict(enumerate(("mp", "t", "E", "nu", "rho")[:len(sets)]))
    n = npars(r)[0]
    args = [("vec", tuple(A(q) for q in PARS[:n])) if i in vec else A(roles[i]) if f["p"][i]["t"].rstrip().endswith("*") else ("sym", roles[i]) for i in range(len(f["p"]))]
    has = set(roles.values())
    pars = PARS[:n] if vec else tuple(q for q in ("E", "nu") if q in has)
    return args, expected("mp" if "mp" in has else None, None, "t" if "t" in has else None, "rho" if "rho" in has else None, pars)

def make(w, r, st, rho=True, n=None):
    """an object of the class with everything set, through its setters"""
    f = [f for f in w.tu.functions if f.get("cid") == r["id"] and f["kind"] == "ctor" and not f["p"]]
    o = w.newobj(r["q"], r["id"])
    if not f: raise AnalysisError("no default constructor of " + label(r))
    w.do_inline(f[0], (), [], o, st)
    ref = lambda g: g["p"][-1]["t"].rstrip().endswith("&") and "gsFunctionSet" in g["p"][-1]["t"] and "ptr" not in g["p"][-1]["t"]
    w.callm(o, "setThickness", (("sym", "t"),), st, ref)
    if rho: w.callm(o, "setDensity", (("sym", "rho"),), st, ref)
    n = npars(r)[0] if n is None else n
    for i in range(n): w.callm(o, "setParameter", (I(i), ("sym", PARS[i])), st, ref)
    ptr = lambda g: g["p"][0]["t"].rstrip().endswith("*")
    w.callm(o, "setUndeformed", (A("mp"),), st, ptr); w.callm(o, "setDeformed", (A("de"),), st, ptr)
    return o
FULL = lambda r, rho=True: expected("mp", "de", "t", "rho" if rho else None, PARS[:npars(r)[0]])

def guard(res, key, loc, fn):
    c = run_(fn); res.ob(key, loc, not c, c)
def run_(fn):
    try: return fn()
    except (NullUse, Oob, DomainError, Give) as e: return str(e)

def construction(res, tu, seed):
    for r in classes(tu):
        for f in [f for f in tu.functions if f.get("cid") == r["id"] and f["kind"] == "ctor"]:
            if is_copy(r, f): continue
            ca = ctorargs(r, f)
            if ca is None: raise AnalysisError("constructor with other parameters at " + where(f))
            def go():
                w = FW(tu, Rng(seed), dimof(r)); st = flow.St(); o = w.newobj(r["q"], r["id"])
                if w.do_inline(f, tuple(ca[0]), [], o, st) == ("noreturn",): return "the constructor raises an error"
                return differ(w.observe(o, st), ca[1])
            guard(res, "%s constructed from (%s)" % (label(r), ", ".join(show(a) if a[0] != "vec" else "pars" for a in ca[0])), where(f), go); res.count("constructors")

SLOTS = {"YoungsModulus": lambda i: 0, "PoissonsRatio": lambda i: 1, "Ratio": lambda i: 2, "Mu": lambda i: 2 + 2 * i, "Alpha": lambda i: 3 + 2 * i}
def laws_with(n): return {"Ratio": ("MR",), "Mu": ("OG",), "Alpha": ("OG",)}.get(n)
def setters(res, tu, seed):
    for r in classes(tu):
        law = npars(r)[1]
        w0 = FW(tu, Rng(seed), dimof(r))
        chain = w0.recs(r["id"]); done = set()
        for n in ("Thickness", "Density", "Undeformed", "Deformed", "Parameters", "Parameter") + tuple(SLOTS):
            for c in chain:
                for f in w0.meth.get((c["id"], "set" + n), ()):
                    dummy = w0.newobj(r["q"], r["id"]); g = w0.target(dummy, f["id"]) or f
                    if g["id"] in done: continue
                    done.add(g["id"])
                    last = f["p"][-1]["t"]; byref = last.rstrip().endswith("&") and "ptr" not in last
                    idx = len(f["p"]) == 2
                    need = laws_with(n)
                    for i in ((0, 1) if idx and n in SLOTS else (1, 0) if idx else (None,)):
                        def go():
                            w = FW(tu, Rng(seed), dimof(r)); st = flow.St(); o = make(w, r, st)
                            want = FULL(r)
                            if n == "Parameters":
                                v = ("vec", (A("x"), A("y"), A("z"))); want["Parameters"] = v[1]
                            else:
                                v = ("sym", "x") if byref else A("x")
                                if n in SLOTS or n == "Parameter":
                                    k = i if n == "Parameter" else SLOTS[n](i)
                                    p = list(want["Parameters"])
                                    if k < len(p): p[k] = A("x")
                                    want["Parameters"] = tuple(p)
                                else: want[n] = A("x")
                            try: w.callf(o, f, ((I(i),) if idx else ()) + (v,), st)
                            except Give as e:
                                return str(e) if need is None or law in need else None
                            if need is not None and law not in need: return None
                            c = differ(w.observe(o, st), want)
                            if c: return c
                            if n in SLOTS:
                                got = w.callm(o, "get" + n, (I(i),) if idx else (), st)
                                if got != A("x"): return "get%s does not return what was set" % n
                        guard(res, "%s: set%s(%s%s)" % (label(r), n, "%d, " % i if idx else "", "reference" if byref else "pointer"), where(f), go); res.count("setters")

def everything(w, o, st):
    return {(c["q"].split("::")[-1], f["n"]): w.read(("m", o, f["n"]), st) for c in w.recs(o[3]) for f in c["fields"] if f["n"] != "m_data"}
def copies(res, tu, seed):
    for r in classes(tu, ("gsMaterialMatrixLinear", "gsMaterialMatrixNonlinear", "gsMaterialMatrixTFT")):
        loc = "%s:%s %s" % (r["file"], r["l"], label(r))
        def start():
            w = FW(tu, Rng(seed), dimof(r)); st = flow.St()
            o = w.newobj(r["q"], r["id"])
            for k, f in everything(w, o, st).items(): w.store(("m", o, k[1]), ("vec", (A("q0"), A("q1"))) if k[1] == "m_pars" else A("of_" + k[1]), st, 0)
            return w, st, o, everything(w, o, st)
        def same(w, st, o, want, what):
            if o[0] == "addr": o = o[1]
            if o[0] != "obj": raise AnalysisError("%s of %s: %s" % (what, label(r), show(o)[:100]))
            if o[3] != r["id"]: return "%s has the class %s" % (what, w.rec[o[3]]["q"])
            got = everything(w, o, st)
            for k in want:
                if got.get(k) != want[k]: return "%s of a material: %s is %s instead of %s" % (what, k[1], show(got.get(k))[:80], show(want[k])[:80])
        def cc():
            w, st, o, want = start(); n = w.newobj(r["q"], r["id"]); w.copyinto(n, o, r, {"a": [{}]}, st); return same(w, st, n, want, "the copy")
        def asg():
            w, st, o, want = start(); n = w.newobj(r["q"], r["id"]); w.copyinto(n, o, r, {"a": [{}]}, st, True); return same(w, st, n, want, "the assigned copy")
        def cl():
            w, st, o, want = start()
            return same(w, st, w.callm(o, "clone_impl", (), st), want, "the clone")
        guard(res, "copy construction of " + label(r), loc, cc)
        guard(res, "assignment of " + label(r), loc, asg)
        guard(res, "clone of " + label(r), loc, cl); res.count("copies", 3)

def factory(res, tu, seed):
    mats = tu.enum("Material"); imps = tu.enum("Implementation")
    fs = tu.find("getMaterialMatrix")
    if not fs: raise AnalysisError("getMaterialMatrix is not instantiated")
    avail = {(tuple(r["cargs"][:1]), r["cargs"][3] == "true", r["cargs"][4].split("::")[-1], r["cargs"][5].split("::")[-1]): r for r in classes(tu, ("gsMaterialMatrixNonlinear",))}
    for f in fs:
        d = f["ta"][0]; withrho = len(f["p"]) == 5
        for m, mv in list(mats.items()) + [("SvK", None)]:
            for imp, iv in list(imps.items()) + ([("Analytical", None)] if mv is None or m == "NH" else []):
                for comp in (0, 1) + ((None,) if mv is None else ()):
                    n = 6 if m == "OG" else 3 if m == "MR" else 2
                    def go():
                        w = FW(tu, Rng(seed), int(d)); st = flow.St()
                        w.opts = {"Material": mv, "Compressibility": comp, "Implementation": iv}
                        args = [("sym", "mp"), ("sym", "t"), ("vec", tuple(A(q) for q in PARS[:n]))] + ([("sym", "rho")] if withrho else []) + [("sym", "options")]
                        rets = w.run(f, args, st=st)
                        ok = m == "SvK" and imp != "Composite" or ((d,), bool(comp), m, imp) in avail
                        if not rets: return "raises an error for an available material" if ok else None
                        if len(rets) != 1: raise AnalysisError("%d results of the factory" % len(rets))
                        st, v = rets[0]
                        if v == ("null",): return "returns nothing for an available material" if ok else None
                        if not ok: return "returns a material for an unavailable combination"
                        if v[0] != "addr" or v[1][0] != "obj": raise AnalysisError("result of the factory: " + show(v)[:100])
                        o = v[1]; r = w.rec[o[3]]; q = r["q"].split("::")[-1]
                        if m == "SvK":
                            if q != "gsMaterialMatrixLinear" or r["cargs"][0] != d: return "returns a " + label(r)
                        else:
                            have = ((r["cargs"][0],), r["cargs"][3] == "true", r["cargs"][4].split("::")[-1], r["cargs"][5].split("::")[-1]) if q == "gsMaterialMatrixNonlinear" else None
                            if have != ((d,), bool(comp), m, imp): return "returns a " + label(r)
                        return differ(w.observe(o, st), expected("mp", None, "t", "rho" if withrho else None, PARS[:n]))
                    guard(res, "getMaterialMatrix<%s>(%s%s%s%s)" % (d, m + " ", imp + " ", {0: "incompressible", 1: "compressible", None: "default"}[comp], ", density" if withrho else ""), where(f), go); res.count("factory cases")

def xml(res, tu, seed):
    put = [f for f in tu.find("put", "gsXml") if f["cargs"][0] == BASE + "<double>"]
    get = [f for f in tu.find("get", "gsXml") if f["cargs"][0] == BASE + "<double>"]
    if len(put) != 1 or len(get) != 1: raise AnalysisError("XML reader or writer of the material base class not found")
    known = {f["cargs"][0] for f in tu.find("put", "gsXml")} - {BASE + "<double>"}
    cl = [r for r in classes(tu) if tname(r) in known]
    if len(cl) < len(known): raise AnalysisError("material classes with XML support not found")
    types = {}
    for r in cl:
        for tft in (False, True):
            for rho in (True, False):
                def go():
                    w = FW(tu, Rng(seed), dimof(r)); st = flow.St()
                    o = make(w, r, st, rho)
                    top = o
                    if tft:
                        lin = "true" if r["q"].endswith("Linear") else "false"
                        tr = [q for q in tu.records if q["q"].endswith("gsMaterialMatrixTFT") and q["cargs"][0] == r["cargs"][0] and q["cargs"][2] == lin][0]
                        top = w.newobj(tr["q"], tr["id"])
                        f = [f for f in tu.functions if f.get("cid") == tr["id"] and f["kind"] == "ctor" and len(f["p"]) == 1 and "shared_ptr" in f["p"][0]["t"]][0]
                        w.do_inline(f, (("addr", o),), [], top, st)
                    rets = w.run(put[0], [top, ("sym", "data")], st=st)
                    if len(rets) != 1: return "the material cannot be written"
                    st2, node = rets[0]
                    if node[0] != "xnode": return "the material is not written (%s)" % show(node)[:60]
                    ty = dict(w.xml[node[1]]["attrs"]).get("type")
                    if not tft and rho:
                        if ty in types: return "written with the type %s of %s" % (ty[1] if ty else None, types[ty])
                        types[ty] = label(r)
                    rets = w.run(get[0], [node], st=st2)
                    if len(rets) != 1: return "what was written cannot be read"
                    st3, v = rets[0]
                    if v == ("null",): return "what was written (type %s) is not recognised" % (ty[1] if ty else None)
                    if v[0] != "addr" or v[1][0] != "obj": raise AnalysisError("result of reading: " + show(v)[:100])
                    back = v[1]
                    if tft:
                        if back[3] != top[3]: return "read back as " + label(w.rec[back[3]])
                        back = w.read(("m", back, "m_materialMat"), st3)
                        if back[0] != "addr" or back[1][0] != "obj": raise AnalysisError("material of the tension field: " + show(back)[:100])
                        back = back[1]
                    if back[3] != r["id"]: return "read back as " + label(w.rec[back[3]])
                    if back in (o, top): raise AnalysisError("reading returns the written object")
                    return differ(w.observe(back, st3), expected(None, None, "t", "rho" if rho else None, PARS[:npars(r)[0]]))
                guard(res, "%s%s%s written and read" % ("tension field of " if tft else "", label(r), "" if rho else " without density"), where(put[0]), go); res.count("round trips")

def s27(tier, seed):
    res = Result("S27", "constructors, setters, copies, the option-based factory and the XML writer and reader followed on objects with identity: the material that results has the class and exactly the data that were asked for", 400)
    tu = facts.load(UNIT)
    construction(res, tu, seed); setters(res, tu, seed); copies(res, tu, seed); factory(res, tu, seed); xml(res, tu, seed)
    res.assume("smart pointers and clones of functions are the functions they wrap", "a function written to XML and read from the same node is the same function")
    return res
RULES = {"S27": s27}

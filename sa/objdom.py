"""Object domain on top of the matrix domain: objects with identity, std::vector values of known
length, smart pointers (transparent) and constructors, so that a class can be followed through its
construction by constant propagation over its own code."""
import flow
from flow import I, show
from facts import AnalysisError
from field import DomainError
from matdom import MatWalker, V, isM, Oob

SMART = ("shared_ptr", "unique_ptr", "std::shared_ptr", "std::unique_ptr")
class NullUse(Exception): pass

class ObjWalker(MatWalker):
    def __init__(s, tu, rng, **kw):
        super().__init__(tu, rng, leaf=lambda w, x, o, a, st: s.leaf_(x, o, a, st), **kw)
        s.nobj = 0
    def newobj(s, t, cid): s.nobj += 1; return ("obj", s.nobj, t, cid)
    def fieldtype(s, key):
        if key[0] == "m" and key[1][0] == "obj": return super().fieldtype(key)
        return super().fieldtype(key)
    def default(s, key):
        if key[0] == "m" and key[1][0] == "obj":
            t = s.fieldtype(key)
            if t and "std::vector" in t.split("<")[0]: return ("vec", ())
        return super().default(key)
    def construct(s, fn, node, args, st):
        o = s.newobj(fn["cls"], fn.get("cid"))
        r = s.do_inline(fn, args, node["a"], o, st)
        if r == ("noreturn",): raise DomainError("the constructor of %s raises an error (%s)" % (fn["cls"], s.place()))
        return o
    def skipclass(s, t): return False
    def x_ctor(s, x, st):
        fn = s.tu.byid.get(x.get("f"))
        t = x["t"]
        if any(t.startswith(q) for q in SMART):
            a = tuple(s.expr(y, st) for y in x["a"])
            return a[0] if a else ("null",)
        if t.startswith("std::vector"):
            a = tuple(s.expr(y, st) for y in x["a"])
            if not a: return ("vec", ())
            if len(a) == 1 and a[0][0] == "vec": return a[0]
            n = s.int_(a[0])
            if n is not None and len(a) <= 2: return ("vec", ((a[1] if len(a) > 1 else ("null",)),) * n)
        if fn is not None and not s.skipclass(t) and s.may_inline(fn):
            a = tuple(s.expr(y, st) for y in x["a"])
            if len(a) == 1 and a[0][0] == "obj" and a[0][2] == fn["cls"] and len(fn["p"]) == 1: return a[0]
            return s.construct(fn, x, a, st)
        return super().x_ctor(x, st)
    def x_new(s, x, st):
        if len(x["a"]) == 1 and x["a"][0].get("k") == "ctor":
            v = s.expr(x["a"][0], st)
            if v[0] == "obj": return ("addr", v)
            if v[0] == "ctor": return ("addr", ("new", v[1], v[2]))
        return super().x_new(x, st)
    def binop(s, o, a, b, x):
        if o in ("==", "!="):
            for p, q in ((a, b), (b, a)):
                if p == ("null",):
                    if q == ("null",): return I(o == "==")
                    if q[0] in ("addr", "obj"): return I(o == "!=")
                if p[0] == "addr" and q[0] == "addr" and p == q: return I(o == "==")
        return super().binop(o, a, b, x)
    def unop(s, o, a, x):
        if o == "!" and a == ("null",): return I(1)
        if o == "!" and a[0] == "addr": return I(0)
        return super().unop(o, a, x)
    def leaf_(s, x, obj, args, st):
        n = x["n"]
        if obj is not None and obj[0] == "deref":
            if obj[1] == ("null",): raise NullUse("%s called through a null pointer (%s)" % (n, s.place()))
        r = s.mleaf(x, obj, args, st)
        if r is not None: return r
        if obj is None:
            if n in ("make_shared", "make_shared_not_owned", "make_unique", "shared_ptr", "give", "move") and len(args) == 1: return args[0]
            return None
        if obj[0] == "vec":
            if n == "size": return I(len(obj[1]))
            if n == "empty": return I(not obj[1])
            if n in ("at", "front", "back"):
                i = s.int_(args[0]) if n == "at" else (0 if n == "front" else len(obj[1]) - 1)
                if i is None: return None
                if not 0 <= i < len(obj[1]): raise Oob("%s: element %d of %d" % (s.place(), i, len(obj[1])))
                return obj[1][i]
            if n in ("resize", "push_back", "emplace_back", "clear", "reserve", "assign"):
                key = s.lval(x["o"], st, True)
                if key is None: raise AnalysisError("%s of an unknown vector at %s" % (n, s.place()))
                v = obj[1]
                if n == "reserve": return ("void",)
                if n == "clear": v = ()
                elif n in ("push_back", "emplace_back"): v = v + (args[0],)
                elif n == "resize":
                    k = s.int_(args[0])
                    if k is None: raise AnalysisError("resize to an unknown length at " + s.place())
                    v = v[:k] + ((args[1] if len(args) > 1 else ("null",)),) * (k - len(v))
                else: return None
                s.store(key, ("vec", v), st, x["l"], "upd"); return ("void",)
        if n in ("get", "release") and not args:
            o = obj
            while o[0] == "deref": o = o[1]
            if o == ("null",): return o
            if o[0] in ("obj", "clone", "sym"): return ("addr", o)
        return None
    def mleaf(s, x, obj, args, st): return None

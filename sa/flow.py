"""Forward dataflow over the resolved AST in a *term domain* (value numbering with
inlining).  A function body is mapped to an ordered list of guarded effects
(opaque calls, member stores, throws, returns) whose operands are terms over the
function's inputs; locals, references, helper functions and lambdas disappear, so
renaming, extracting helpers or reordering independent statements does not change
the result.  No path is enumerated by a solver: joins build phi terms."""
import re
from fractions import Fraction
from facts import AnalysisError

MAXD = 14

def I(n): return ("int", int(n))
TRUE, FALSE = ("int", 1), ("int", 0)

class St:
    __slots__ = ("env", "heap", "guards", "alias")
    def __init__(s, env=None, heap=None, guards=(), alias=None):
        s.env = env or {}; s.heap = heap or {}; s.guards = guards; s.alias = alias or {}
    def copy(s): return St(dict(s.env), dict(s.heap), s.guards, dict(s.alias))

class Event:
    __slots__ = ("kind", "term", "guards", "line", "fn", "extra", "seq", "intry")
    def __init__(s, kind, term, guards, line, fn, extra=None, intry=()):
        s.kind, s.term, s.guards, s.line, s.fn, s.extra, s.intry = kind, term, guards, line, fn, extra, intry
    def __repr__(s): return "<%s@%s %s if %s>" % (s.kind, s.line, show(s.term), [(show(g), b) for g, b in s.guards])

def show(t, d=0):
    if not isinstance(t, tuple): return str(t)
    if not t: return "()"
    if d > 12: return "…"
    k = t[0]
    S = lambda x: show(x, d + 1)
    if k in ("int", "num"): return str(t[1])
    if k == "M": return "[%dx%d]" % (t[1].r, t[1].c)
    if not isinstance(k, str): return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    if k == "str": return repr(t[1])
    if k == "var": return t[1]
    if k == "this": return "this"
    if k == "mem": return (S(t[1]) + "." if t[1] != ("this",) else "") + t[2]
    if k == "call":
        return (S(t[2]) + "." if t[2] is not None else "") + t[1] + (("<%s>" % ",".join(map(str, t[4]))) if len(t) > 4 and t[4] and t[2] is None and False else "") + "(" + ", ".join(map(S, t[3])) + ")"
    if k == "op":
        if t[1] in ("()",): return S(t[2][0]) + "(" + ", ".join(map(S, t[2][1:])) + ")"
        if t[1] == "[]": return S(t[2][0]) + "[" + S(t[2][1]) + "]"
        if len(t[2]) == 1: return t[1].lstrip("u") + S(t[2][0])
        return "(" + (" %s " % t[1]).join(map(S, t[2])) + ")"
    if k == "ctor": return t[1].replace("gismo::", "") + "{" + ", ".join(map(S, t[2])) + "}"
    if k == "addr": return "&" + S(t[1])
    if k == "deref": return "*" + S(t[1])
    if k == "phi": return "phi(%s ? %s : %s)" % (";".join(("" if b else "!") + S(c) for c, b in t[1]), S(t[2]), S(t[3]))
    return "%s(%s)" % (k, ", ".join(S(x) if isinstance(x, tuple) else str(x) for x in t[1:]))

def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)

def loop_range(w, g):
    """('loop',u,hdr) -> (lo, hi, whole) for counting loops / iterator loops / range-for.
    whole: starts at the beginning, unit step, runs up to the end"""
    if g[0] != "loop": return None
    u, hdr = g[1], g[2]
    if hdr[0] == "range": return (None, hdr[1], True)
    c = hdr[1]; neg = False
    while c[0] == "op" and c[1] == "!": c = c[2][0]; neg = not neg
    if c[0] != "op" or c[1] not in ("==", "<", ">"): return (None, None, False)
    a, b = c[2]
    if a[0] != "loopvar" and b[0] == "loopvar": a, b = b, a
    if a[0] != "loopvar": return (None, None, False)
    if c[1] == "==" and not neg: return (None, None, False)
    if c[1] in ("<", ">") and neg: return (None, None, False)
    step = w.loopstep.get(u, {}).get(a[2])
    unit = step == ("op", "+", (a, ("int", 1)))
    lo = a[3]
    start = lo == ("int", 0) or (isinstance(lo, tuple) and lo[0] == "call" and lo[1] in ("begin", "cbegin")) or (isinstance(lo, tuple) and lo[0] == "ctor" and "begin" in show(lo))
    end = (b[0] == "call" and b[1] in ("rows", "cols", "size", "end", "cend", "nPatches", "numLoads", "nPieces")) or (b[0] == "ctor" and "end" in show(b)) or b[0] in ("int", "mem")
    return (lo, b, bool(unit and start and end))

class Dead(Exception): pass

def _isint(t): return isinstance(t, tuple) and t[0] == "int"

def arrdims(t):
    """dimensions of a fixed-size array type"""
    import re
    m = re.search(r"((\[\d+\])+)\s*$", t)
    if m: return [int(k) for k in re.findall(r"\d+", m.group(1))]
    m = re.match(r"^(?:const )?(?:std::)?array<.*, (\d+)(?:UL)?>$", t.strip())
    return [int(m.group(1))] if m and t.count("array<") == 1 else []

class Walker:
    """domain hooks may be overridden by subclasses"""
    def __init__(self, tu, inline=None, noinline=(), const_members=None, max_unroll=64):
        self.tu = tu; self.events = []; self.depth = 0; self.noinline = set(noinline)
        self.inline_pred = inline
        self.uid = 0; self.stack = []; self.inlined = []; self.const_members = const_members or {}
        self.max_unroll = max_unroll
        self.try_stack = ()
        self.notes = []; self.loopstep = {}

    # -------------------------------------------------------------- entry
    def run(self, fn, args=None, this=("this",), st=None):
        """walk fn; returns [(state,value)] of the paths that return normally"""
        st = st or St()
        bind = []
        for i, p in enumerate(fn["p"]):
            v = args[i] if args is not None and i < len(args) and args[i] is not None else ("var", p["n"] or ("arg%d" % i), "p%d" % i)
            bind.append(v)
        return self.enter(fn, bind, this, st)

    def enter(self, fn, vals, this, st, keys=None):
        self.stack.append(fn); saved = getattr(self, "this", None); self.this = this
        for i, p in enumerate(fn["p"]):
            if keys and keys[i] is not None: st.alias[p["i"]] = keys[i]; st.env.pop(p["i"], None)
            else: st.env[p["i"]] = vals[i] if i < len(vals) else ("var", p["n"], p["i"]); st.alias.pop(p["i"], None)
        rets = []
        try:
            for ini in fn.get("inits", []):
                if ini.get("deleg"):
                    n = ini["e"]; f2 = self.tu.byid.get(n.get("f"))
                    if f2 is None: raise AnalysisError("delegation to an unknown constructor in %s:%s" % (fn["file"], fn["l"]))
                    self.do_inline(f2, tuple(self.expr(y, st) for y in n["a"]), n["a"], this, st)
                elif ini.get("base"): self.baseinit(ini, this, st)
                elif "m" in ini and ini["w"]:
                    v = self.expr(ini["e"], st); self.store(("m", this, ini["m"]), v, st, ini["e"].get("l", fn["l"]))
            out = self.stmt(fn["body"], st, rets, None)
            if out is not None: rets.append((out, None))
        finally:
            self.stack.pop(); self.this = saved
        return rets

    def baseinit(self, ini, this, st): pass

    def emit(self, kind, term, st, line, extra=None):
        e = Event(kind, term, st.guards, line, self.stack[-1] if self.stack else None, extra, self.try_stack); e.seq = len(self.events)
        self.events.append(e); return e

    # -------------------------------------------------------------- statements
    # returns the state that falls through, or None
    def stmt(self, s, st, rets, loop):
        if s is None: return st
        k = s["k"]
        if k == "{}":
            for x in s["s"]:
                st = self.stmt(x, st, rets, loop)
                if st is None: return None
            return st
        if k == "decl":
            for v in s["v"]:
                (self.static if v.get("st") else self.decl)(v, st)
                if st.env.get(v["i"]) == ("noreturn",): return None
            return st
        if k == "ret":
            v = self.expr(s["e"], st) if s["e"] else None
            if v == ("noreturn",): return None
            self.emit("ret", v, st, s["l"], len(self.stack))
            rets.append((st, v)); return None
        if k == "if":
            return self.branch(self.expr(s["c"], st), s["t"], s["e"], st, rets, loop, s["l"])
        if k == "break":
            if loop is not None: loop["brk"].append(st)
            return None
        if k == "continue":
            if loop is not None: loop["cont"].append(st)
            return None
        if k in ("for", "while", "do", "rfor"): return self.loop(s, st, rets, loop)
        if k == "switch": return self.switch(s, st, rets, loop)
        if k in ("case", "default"): return self.stmt(s["s"], st, rets, loop)
        if k == "try": return self.trycatch(s, st, rets, loop)
        if k in ("nop", "?s"): return st
        # expression statement
        if k == "throw":
            self.expr(s, st); return None
        r = self.expr(s, st)
        if r == ("noreturn",): return None
        return st

    def decl(self, v, st):
        if "init" in v:
            t = v["t"]
            if t.rstrip().endswith("&") and not t.rstrip().endswith("&&"):
                key = self.lval(v["init"], st, soft=True)
                if key is not None:
                    st.alias[v["i"]] = key; return
            st.alias.pop(v["i"], None)
            val = self.expr(v["init"], st)
            dims = arrdims(v["t"])
            if dims: val = self.arr(dims, val, v)
            st.env[v["i"]] = self.named(val, v)
        else:
            dims = arrdims(v["t"])
            st.env[v["i"]] = self.arr(dims, None, v) if dims else ("uninit", v["t"], v["n"])

    def static(self, v, st):
        """a static local keeps its value between calls and is initialised by the first one"""
        key = ("g", "static " + v["n"], v["i"])
        if key not in st.heap:
            self.decl(v, st)
            if v["i"] not in st.env: return
            val = st.env[v["i"]]
            if "init" not in v and isinstance(val, tuple) and val[0] == "uninit" and re.fullmatch(r"(unsigned )?(bool|int|long|short|double|float|index_t|size_t|real_t|T)", v["t"]): val = I(0)
            st.heap[key] = val
        st.env.pop(v["i"], None); st.alias[v["i"]] = key

    def arr(self, dims, val, v):
        """a fixed-size array as a known sequence; missing initialisers are zero"""
        if val is not None and val[0] == "il" and len(val) == 2 and val[1][0] == "il" and len(dims) == 1: val = val[1]
        if val is not None and val[0] not in ("il", "uninit"): return val
        if not dims: return val if val is not None else ("uninit", v["t"].split("[")[0], v["n"])
        n = dims[0]; el = list(val[1:]) if val is not None and val[0] == "il" else []
        if len(el) > n: return val
        rest = [None if val is None or val[0] == "uninit" else ("il",)] * (n - len(el))
        out = []
        for e in el + rest:
            if len(dims) > 1: out.append(self.arr(dims[1:], e, v))
            elif e is None: out.append(("uninit", v["t"].split("[")[0], v["n"]))
            else: out.append(I(0) if e == ("il",) else e)
        return ("vec", tuple(out))

    def named(self, val, v): return val

    def branch(self, c, t, e, st, rets, loop, line):
        c = self.cond(c)
        if _isint(c):
            return self.stmt(t if c[1] else e, st, rets, loop)
        a, b = st.copy(), st
        g = st.guards
        a.guards = g + ((c, True),); b.guards = g + ((c, False),)
        n0 = len(rets); th0 = self.nthrow()
        a2 = self.stmt(t, a, rets, loop)
        athrew = a2 is None and len(rets) == n0 and self.nthrow() > th0
        n1 = len(rets); th1 = self.nthrow()
        b2 = self.stmt(e, b, rets, loop)
        bthrew = b2 is None and len(rets) == n1 and self.nthrow() > th1
        if a2 is None and b2 is None: return None
        if a2 is None:
            if athrew: b2.guards = g + tuple(b2.guards[len(g) + 1:])
            return b2
        if b2 is None:
            if bthrew: a2.guards = g + tuple(a2.guards[len(g) + 1:])
            return a2
        return self.merge(a2, b2, g, ((c, True),))

    def nthrow(self): return sum(1 for e in self.events if e.kind == "throw")

    def merge(self, a, b, g, cond):
        r = St({}, {}, g, {})
        for name in ("env", "heap", "alias"):
            A, B, R = getattr(a, name), getattr(b, name), getattr(r, name)
            for k in A.keys() | B.keys():
                if name == "alias":
                    if A.get(k) == B.get(k) and k in A: R[k] = A[k]
                    elif k in A and k not in B: R[k] = A[k]
                    elif k in B and k not in A: R[k] = B[k]
                    continue
                va = A[k] if k in A else (self.default(k) if name == "heap" else None)
                vb = B[k] if k in B else (self.default(k) if name == "heap" else None)
                if va is None: R[k] = vb
                elif vb is None: R[k] = va
                elif va == vb: R[k] = va
                else: R[k] = self.phi(cond, va, vb)
        return r

    def phi(self, cond, a, b): return ("phi", cond, a, b)

    def cond(self, c):
        """value of a condition"""
        if c[0] == "null": return I(0)
        if c[0] == "addr": return I(1)
        return c

    def rejoin(self, st, a, b, g, cond):
        """st becomes the join of a and b"""
        st.guards = g
        if all(getattr(a, n) == getattr(st, n) and getattr(b, n) == getattr(st, n) for n in ("env", "heap", "alias")): return
        r = self.merge(a, b, g, cond)
        st.env, st.heap, st.alias = r.env, r.heap, r.alias

    def mergelist(self, lst, g):
        """join of several (state,value)"""
        base = len(g)
        exc = lambda p: any(c[0] == "exc" for c, b in p[0].guards[base:])
        lst = [p for p in lst if exc(p)] + [p for p in lst if not exc(p)]       # the guard of a handler is narrower than that of its block
        st, v = lst[-1]
        for s2, v2 in reversed(lst[:-1]):
            cond = tuple(s2.guards[base:]) or ((("unk",), True),)
            st = self.merge(s2, st, g, cond)
            v = v2 if v2 == v else (v if v2 is None else v2 if v is None else self.phi(cond, v2, v))
        st.guards = g
        return st, v

    def assigned(self, node):
        from facts import walk
        ids = set(); mems = set()
        for x in walk(node):
            k = x.get("k")
            if k == "o" and x["o"] in ("=", "+=", "-=", "*=", "/=", "++", "--", "p++", "p--", "%=", "<<", "&=", "|="):
                y = x["a"][0]
                while isinstance(y, dict) and y.get("k") in ("o", "c", "m"):
                    if y["k"] == "o": y = y["a"][0]
                    elif y["k"] == "c":
                        if "o" not in y: break
                        y = y["o"]
                    else:
                        if y["b"].get("k") == "this": mems.add(y["n"]); break
                        y = y["b"]
                if isinstance(y, dict) and y.get("k") == "v": ids.add(y["i"])
            elif k == "c":
                for i in x.get("rp", []):
                    if i < len(x["a"]) and x["a"][i].get("k") == "v": ids.add(x["a"][i]["i"])
                if "o" in x and not x.get("cst") and isinstance(x["o"], dict) and x["o"].get("k") == "v": ids.add(x["o"]["i"])
            elif k == "decl":
                for v in x["v"]: ids.discard(v["i"])
        return ids, mems

    def loop(self, s, st, rets, outer):
        k = s["k"]
        if k == "for" and s["i"]:
            st = self.stmt(s["i"], st, rets, outer)
        # do { } while(0)
        if k == "do":
            c0 = s["c"]
            if c0["k"] == "int" and c0["v"] == 0:
                lp = {"brk": [], "cont": []}
                g = st.guards
                r = self.stmt(s["b"], st, rets, lp)
                lst = [(x, None) for x in lp["brk"] + lp["cont"]] + ([(r, None)] if r is not None else [])
                if not lst: return None
                return lst[0][0] if len(lst) == 1 else self.mergelist(lst, g)[0]
        # constant trip count: unroll
        if k == "for" and s["c"] is not None:
            n = 0; cur = st; ok = True; snapshot = None
            trial = self.trip(s, st)
            if trial is not None:
                g = st.guards; broke = []
                for _ in range(trial):
                    lp = {"brk": [], "cont": []}
                    r = self.stmt(s["b"], cur, rets, lp)
                    broke += lp["brk"]
                    lst = [(x, None) for x in lp["cont"]] + ([(r, None)] if r is not None else [])
                    if not lst: cur = None; break
                    cur = lst[0][0] if len(lst) == 1 else self.mergelist(lst, cur.guards if len(lst) == 1 else g)[0]
                    if s["n"]: self.expr(s["n"], cur)
                lst = [(x, None) for x in broke] + ([(cur, None)] if cur is not None else [])
                if not lst: return None
                return lst[0][0] if len(lst) == 1 else self.mergelist(lst, g)[0]
        if k == "rfor":
            r = self.overseq(s, st, rets, outer)
            if r is not False: return r
        elif s["c"] is not None:
            r = self.stepwise(s, st, rets, outer)
            if r is not False: return r
        return self.symloop(s, st, rets, outer)

    def seq(self, t):
        while t and t[0] in ("deref", "addr"): t = t[1]
        return t[1] if t and t[0] == "vec" and len(t) == 2 and isinstance(t[1], tuple) else None
    def seqelem(self, s, v): return v
    def once(self, s, cur, rets, broke, g):
        lp = {"brk": [], "cont": []}
        r = self.stmt(s["b"], cur, rets, lp)
        broke += lp["brk"]
        lst = [(x, None) for x in lp["cont"]] + ([(r, None)] if r is not None else [])
        if not lst: return None
        return lst[0][0] if len(lst) == 1 else self.mergelist(lst, g)[0]
    def joined(self, broke, cur, g):
        lst = [(x, None) for x in broke] + ([(cur, None)] if cur is not None else [])
        if not lst: return None
        return lst[0][0] if len(lst) == 1 else self.mergelist(lst, g)[0]
    def overseq(self, s, st, rets, outer):
        """range-for over a sequence of known length"""
        t = self.expr(s["r"], st); it = self.seq(t)
        while t[0] in ("deref", "addr") or t[0] == "ctor" and "initializer_list" in str(t[1]) and len(t[2]) == 1: t = t[2][0] if t[0] == "ctor" else t[1]
        if it is None and t[0] == "il": it = t[1:]
        if it is None: return False
        cur = st; broke = []; g = st.guards
        t = s["v"].get("t", "").strip(); key = None
        if t.endswith("&") and not t.startswith("const "): key = self.lval(s["r"], st, True)
        for i, v in enumerate(it):
            cur.env[s["v"]["i"]] = self.seqelem(s, v); cur.alias.pop(s["v"]["i"], None)
            if key is not None: cur.env.pop(s["v"]["i"], None); cur.alias[s["v"]["i"]] = ("e", "[]", key, (I(i),))
            cur = self.once(s, cur, rets, broke, g)
            if cur is None: break
        return self.joined(broke, cur, g)
    def stepwise(self, s, st, rets, outer):
        """a loop whose condition folds to a constant before every iteration"""
        if s["k"] != "do":
            t = st.copy(); ev = len(self.events); c = self.loopcond(self.expr(s["c"], t)); del self.events[ev:]
            if not _isint(c): return False
        back = st.copy(); ev = len(self.events); nr = len(rets); ob = {k: len(v) for k, v in outer.items()} if outer else {}
        cur = st; broke = []; g = st.guards; first = s["k"] == "do"
        for _ in range(min(self.max_unroll, 400) + 1):
            if not first:
                c = self.loopcond(self.expr(s["c"], cur))
                if not _isint(c): break
                if not c[1]: return self.joined(broke, cur, g)
            first = False
            cur = self.once(s, cur, rets, broke, g)
            if cur is None: return self.joined(broke, cur, g)
            if s["k"] == "for" and s["n"]: self.expr(s["n"], cur)
        del self.events[ev:]; del rets[nr:]
        for k, n in ob.items(): del outer[k][n:]
        st.env, st.heap, st.guards, st.alias = back.env, back.heap, back.guards, back.alias
        return False

    def loopcond(self, c): return c
    def trip(self, s, st):
        """number of iterations of a for-loop with constant bounds, by folding the header only"""
        ids, mems = self.assigned(s["b"])
        hdr_ids, _ = self.assigned({"x": [s["n"]]})
        if not hdr_ids or (hdr_ids & ids): return None
        t = st.copy(); ev = len(self.events); n = 0
        while n <= self.max_unroll:
            c = self.loopcond(self.expr(s["c"], t))
            if not _isint(c): del self.events[ev:]; return None
            if not c[1]: del self.events[ev:]; return n
            if s["n"]: self.expr(s["n"], t)
            n += 1
        del self.events[ev:]
        return None

    def symloop(self, s, st, rets, outer):
        self.uid += 1; u = self.uid
        k = s["k"]
        pre = st.copy()
        ids, mems = self.assigned({"x": [s["b"], s.get("n"), s.get("c")]})
        for i in ids:
            if i in st.env: st.env[i] = ("loopvar", u, i, pre.env[i] if not isinstance(pre.env.get(i), tuple) or True else None)
        for m in mems:
            key = ("m", self.this, m)
            st.heap[key] = ("loopmem", u, m)
        g = st.guards
        if k == "rfor":
            rng = self.expr(s["r"], st)
            hdr = ("range", rng)
            st.env[s["v"]["i"]] = ("elem", rng, u)
            st.alias.pop(s["v"]["i"], None)
        else:
            hdr = ("loopcond", self.expr(s["c"], st) if s["c"] is not None else TRUE)
        st.guards = g + ((("loop", u, hdr), True),)
        lp = {"brk": [], "cont": []}
        r = self.stmt(s["b"], st, rets, lp)
        lst = [x for x in lp["cont"] + lp["brk"]] + ([r] if r is not None else [])
        last = r if r is not None else (lst[-1] if lst else None)
        if last is not None and k == "for" and s["n"]:
            self.expr(s["n"], last)
        out = pre
        out.guards = g
        self.loopstep[u] = {i: (last.env.get(i) if last is not None else None) for i in ids}
        for i in ids:
            if i in out.env:
                fin = last.env.get(i) if last is not None else None
                out.env[i] = ("loopout", u, i, pre.env[i], fin)
        heapkeys = set()
        for x in lst: heapkeys |= set(x.heap.keys())
        for hk in heapkeys:
            fin = last.heap.get(hk) if last is not None else None
            if pre.heap.get(hk) != fin:
                out.heap[hk] = ("loopout", u, hk, pre.heap.get(hk, self.default(hk)), fin)
        return out

    def switch(self, s, st, rets, outer):
        c = self.expr(s["c"], st)
        items = []  # (labels or None, stmt)
        def flat(x, labels):
            if x["k"] == "case":
                v = self.expr(x["v"], st)
                return flat(x["s"], labels + [v]) if x["s"] else [(labels + [v], None)]
            if x["k"] == "default":
                return flat(x["s"], labels + ["default"]) if x["s"] else [(labels + ["default"], None)]
            return [(labels, x)]
        body = s["b"]["s"] if s["b"]["k"] == "{}" else [s["b"]]
        for x in body: items += flat(x, [])
        allv = [l for ls, _ in items for l in ls if l != "default"]
        starts = [(i, ls) for i, (ls, _) in enumerate(items) if ls]
        outs = []; g = st.guards
        hasdef = any("default" in ls for _, ls in starts)
        taken = None
        if _isint(c):
            for i, ls in starts:
                if c in ls: taken = i
            if taken is None:
                for i, ls in starts:
                    if "default" in ls: taken = i
            if taken is None: return st
            starts = [(taken, [c])]; hasdef = True
        for i, ls in starts:
            a = st.copy()
            if taken is None:
                a.guards = g + ((("case", c, tuple(sorted(map(str, ls)))), True),)
                vals = [l for l in ls if l != "default"]
                if "default" in ls: a.guards = g + ((("casedef", c, tuple(sorted(show(v) for v in allv))), True),)
                elif len(vals) == 1: a.guards = g + ((("op", "==", (c, vals[0])), True),)
            lp = {"brk": [], "cont": outer["cont"] if outer else []}
            cur = a
            for ls2, x in items[i:]:
                if x is None: continue
                cur = self.stmt(x, cur, rets, lp)
                if cur is None: break
            outs += lp["brk"]
            if cur is not None: outs.append(cur)
        if not hasdef:
            b = st.copy(); outs.append(b)
        if not outs: return None
        if len(outs) == 1: outs[0].guards = g; return outs[0]
        return self.mergelist([(o, None) for o in outs], g)[0]

    def trycatch(self, s, st, rets, loop):
        self.uid += 1; u = self.uid
        pre = st.copy(); g = st.guards
        ev0 = len(self.events)
        saved = self.try_stack; self.try_stack = saved + (u,)
        r = self.stmt(s["b"], st, rets, loop)
        self.try_stack = saved
        outs = [(r, None)] if r is not None else []
        for h in s["h"]:
            a = pre.copy()
            # members written in the try block are unknown in the handler
            for e in self.events[ev0:]:
                if e.kind == "set" and e.term[0] == "m": a.heap[e.term] = ("maybe", u, a.heap.get(e.term, self.default(e.term)))
            a.guards = g + ((("exc", u, h["t"]), True),)
            a2 = self.stmt(h["b"], a, rets, loop)
            if a2 is not None: outs.insert(0, (a2, None))
        if not outs: return None
        if len(outs) == 1: outs[0][0].guards = g; return outs[0][0]
        return self.mergelist(outs, g)[0]

    # -------------------------------------------------------------- lvalues
    def default(self, key):
        if key[0] == "m":
            if key[1] == ("this",) and key[2] in self.const_members: return self.const_members[key[2]]
            return ("mem", key[1], key[2])
        if key[0] == "e": return ("op", key[1], (self.default(key[2]) if isinstance(key[2], tuple) and key[2] and key[2][0] in ("m", "e", "v", "g") else key[2],) + key[3])
        if key[0] == "v": return ("var", key[2], key[1])
        if key[0] == "g": return ("global", key[1])
        return ("lv",) + key

    def read(self, key, st):
        if key[0] == "v":
            if key[1] in st.alias: return self.read(st.alias[key[1]], st)
            return st.env.get(key[1], ("var", key[2], key[1]))
        if key in st.heap: return st.heap[key]
        if key[0] == "e":
            base = self.read(key[2], st)
            return self.index(base, key[1], key[3])
        return self.default(key)

    def index(self, base, op, idx):
        if base[0] == "vec" and len(base) == 2 and isinstance(base[1], tuple) and len(idx) == 1 and _isint(idx[0]) and 0 <= idx[0][1] < len(base[1]): return base[1][idx[0][1]]
        return ("op", op, (base,) + idx)

    def store(self, key, val, st, line, op="="):
        if key[0] == "v":
            if key[1] in st.alias: return self.store(st.alias[key[1]], val, st, line, op)
            st.env[key[1]] = val; return
        if key[0] == "e":
            root = key
            base = self.read(key[2], st)
            self.emit("set", key, st, line, val)
            self.store(key[2], self.update(base, key[1], key[3], val), st, line, "upd"); return
        st.heap[key] = val
        if op != "upd": self.emit("set", key, st, line, val)

    def update(self, base, op, idx, val):
        if base[0] == "vec" and len(base) == 2 and isinstance(base[1], tuple) and len(idx) == 1 and _isint(idx[0]) and 0 <= idx[0][1] < len(base[1]):
            i = idx[0][1]; return ("vec", base[1][:i] + (val,) + base[1][i + 1:])
        return ("upd", base, op, idx, val)

    def lval(self, x, st, soft=False):
        k = x["k"]
        if k == "v":
            if "g" in x: return ("g", x["g"])
            if x["i"] in st.alias: return st.alias[x["i"]]
            return ("v", x["i"], x["n"])
        if k == "m":
            if "meth" in x: return None
            if "g" in x: return ("g", x["g"])
            if x["b"]["k"] == "this": return ("m", self.this, x["n"])
            b = self.expr(x["b"], st)
            if b[0] == "addr": b = b[1]
            return ("m", b, x["n"])
        if k == "o" and x["o"] in ("()", "[]"):
            b = self.lval(x["a"][0], st, True)
            if b is None: return None
            return ("e", x["o"], b, tuple(self.expr(y, st) for y in x["a"][1:]))
        if k == "o" and x["o"] == "u*":
            b = self.expr(x["a"][0], st)
            if b[0] == "addr":
                return self.term2key(b[1])
            return ("d", b)
        if k == "c" and "o" in x and x["n"] in ("col", "row", "at", "block", "topRows", "leftCols", "rightCols", "bottomRows", "middleCols", "segment", "head", "tail", "noalias", "reshapeCol", "reshape", "transpose", "diagonal", "middleRows", "topLeftCorner", "asDiagonal", "back", "front", "array", "asVector", "insert", "coeffRef"):
            b = self.lval(x["o"], st, True)
            if b is None: return None
            if x["n"] in ("noalias", "array"): return b
            return ("e", x["n"], b, tuple(self.expr(y, st) for y in x["a"]) + tuple(("str", z) for z in x.get("ta", [])))
        if k == "cast": return self.lval(x["a"][0], st, soft)
        if k == "o" and x["o"] == "?:":
            c = self.cond(self.expr(x["a"][0], st))
            if c is not None and c[0] == "int": return self.lval(x["a"][1 if c[1] else 2], st, soft)
        return None

    def term2key(self, t):
        if t[0] == "mem": return ("m", t[1], t[2])
        return ("d", t)

    # -------------------------------------------------------------- expressions
    def expr(self, x, st):
        k = x["k"]
        m = getattr(self, "x_" + {"o": "op", "?": "unk"}.get(k, k), None)
        if m is None: return ("opaque", k)
        return m(x, st)
    def x_int(self, x, st): return ("int", x["v"])
    def x_flt(self, x, st):
        f = Fraction(x["v"]) if "e" not in x["v"].lower() else Fraction(x["v"])
        return ("int", int(f)) if f.denominator == 1 else ("num", f)
    def x_str(self, x, st): return ("str", x["v"])
    def x_null(self, x, st): return ("null",)
    def x_nullptr(self, x, st): return ("null",)
    def x_this(self, x, st): return ("addr", self.this)
    def x_sizeof(self, x, st): return ("opaque", "sizeof")
    def x_zero(self, x, st): return I(0)
    def x_fn(self, x, st): return ("fn", x["n"], x["q"])
    def x_unk(self, x, st):
        a = tuple(self.expr(y, st) for y in x["a"])
        return ("opaque", x["cls"]) + a
    def x_il(self, x, st): return ("il",) + tuple(self.expr(y, st) for y in x["a"])
    def x_cast(self, x, st):
        v = self.expr(x["a"][0], st)
        if x.get("ck") == "CXXDynamicCastExpr" and "*" in x["t"]: return ("dyn", x["t"], v)      # null, or the same object
        return self.cast(x["t"], v, x)
    def cast(self, t, v, x): return v
    def x_v(self, x, st):
        if "g" in x:
            return self.read(("g", x["g"]), st)
        return self.read(("v", x["i"], x["n"]), st)
    def x_m(self, x, st):
        if "g" in x: return self.read(("g", x["g"]), st)
        if x["b"]["k"] == "this": return self.read(("m", self.this, x["n"]), st)
        b = self.expr(x["b"], st)
        if b[0] == "addr": b = b[1]
        return self.read(("m", b, x["n"]), st)
    def x_lam(self, x, st): return ("lam", id(x), x, st.env, st.alias, self.this) if False else self._lam(x, st)
    def _lam(self, x, st):
        self.uid += 1
        self.lams = getattr(self, "lams", {})
        self.lams[self.uid] = (x, st)
        return ("lam", self.uid)
    def x_throw(self, x, st):
        a = tuple(self.expr(y, st) for y in x["a"])
        self.emit("throw", ("throw",) + a, st, x["l"]); return ("noreturn",)
    def x_new(self, x, st):
        a = tuple(self.expr(y, st) for y in x["a"])
        if len(a) == 1 and a[0][0] == "ctor": return ("addr", ("new", a[0][1], a[0][2]))
        return ("addr", ("new", x["t"], a))
    def x_delete(self, x, st):
        a = self.expr(x["a"][0], st); self.emit("delete", a, st, x["l"]); return ("void",)
    def x_ctor(self, x, st):
        a = tuple(self.expr(y, st) for y in x["a"])
        return self.ctor(x["t"], a, x, st)
    def ctor(self, t, a, x, st):
        if "basic_string" in t and len(a) == 1: return a[0]
        return ("ctor", t, a)

    def truth(self, t): return t

    def x_op(self, x, st):
        o = x["o"]; A = x["a"]
        if o in ("&&", "||"):
            a = self.cond(self.expr(A[0], st))
            if _isint(a):
                if o == "&&": return self.cond(self.expr(A[1], st)) if a[1] else FALSE
                return TRUE if a[1] else self.cond(self.expr(A[1], st))
            g = st.guards; s1 = st.copy()
            s1.guards = g + ((a, o == "&&"),)
            b = self.cond(self.expr(A[1], s1))
            self.rejoin(st, s1, st.copy(), g, ((a, o == "&&"),))
            if _isint(b):
                if o == "&&": return a if b[1] else FALSE
                return TRUE if b[1] else a
            return ("op", o, (a, b))
        if o == "?:":
            c = self.cond(self.expr(A[0], st))
            if _isint(c): return self.expr(A[1] if c[1] else A[2], st)
            g = st.guards; s1, s2 = st.copy(), st.copy()
            s1.guards = g + ((c, True),); a = self.expr(A[1], s1)
            s2.guards = g + ((c, False),); b = self.expr(A[2], s2)
            self.rejoin(st, s1, s2, g, ((c, True),))
            if a == b: return a
            return self.phi(((c, True),), a, b)
        if o == "=":
            v = self.expr(A[1], st)
            key = self.lval(A[0], st)
            if key is None:
                l = self.expr(A[0], st); self.emit("store", l, st, x["l"], v); return v
            v = self.assign(key, v, st, x)
            self.store(key, v, st, x["l"]); return v
        if o in ("+=", "-=", "*=", "/=", "%=", "|=", "&="):
            v = self.expr(A[1], st)
            key = self.lval(A[0], st)
            if key is None:
                l = self.expr(A[0], st); self.emit("store", l, st, x["l"], self.binop(o[0], l, v, x)); return v
            old = self.read(key, st)
            n = self.binop(o[:-1], old, v, x)
            self.store(key, n, st, x["l"], o); return n
        if o in ("++", "--", "p++", "p--"):
            key = self.lval(A[0], st)
            if key is None: self.expr(A[0], st); return ("opaque", o)
            old = self.read(key, st); n = self.binop("+" if "+" in o else "-", old, I(1), x)
            self.store(key, n, st, x["l"]); return old if o[0] == "p" else n
        if o == "()" and "ov" in x:
            f = self.expr(A[0], st)
            args = tuple(self.expr(y, st) for y in A[1:])
            if f[0] == "lam": return self.call_lambda(f, args, A[1:], st)
            key = self.lval(A[0], st, True)
            if key is not None:
                ek = ("e", "()", key, args)
                if ek in st.heap: return st.heap[ek]
            return self.index(f, "()", args)
        if o == "[]":
            f = self.expr(A[0], st); i = self.expr(A[1], st)
            return self.index(f, "[]", (i,))
        if o == "u&":
            v = self.expr(A[0], st); return v[1] if v[0] == "deref" else ("addr", v)
        if o == "u*":
            v = self.expr(A[0], st); return v[1] if v[0] == "addr" else ("deref", v)
        if o == "->" and len(A) == 1:
            v = self.expr(A[0], st); return v
        if len(A) == 1:
            return self.unop(o, self.expr(A[0], st), x)
        if o == ",":
            a = self.expr(A[0], st); b = self.expr(A[1], st)
            if "ov" in x: return self.comma(a, b, x, st)
            return b
        if o == "<<" and "ov" in x:
            a = self.expr(A[0], st); b = self.expr(A[1], st); return self.shl(A[0], a, b, x, st)
        a = self.expr(A[0], st); b = self.expr(A[1], st)
        if "f" in x and x["f"] in self.tu.byid and self.may_inline(self.tu.byid[x["f"]]):
            pass
        return self.binop(o, a, b, x)

    def comma(self, a, b, x, st): return ("op", ",", (a, b))
    def shl(self, node, a, b, x, st): return ("op", "<<", (a, b))
    def assign(self, key, v, st, x): return v

    def unop(self, o, a, x):
        if o == "!":
            if _isint(a): return I(not a[1])
            if _isint(self.cond(a)): return I(not self.cond(a)[1])
            if a[0] == "op" and a[1] == "!": return a[2][0]
            return ("op", "!", (a,))
        if o == "u-":
            if _isint(a): return I(-a[1])
            if a[0] == "num": return ("num", -a[1])
        if o == "u+": return a
        return ("op", o, (a,))

    def binop(self, o, a, b, x):
        if o in ("==", "!=") and "null" in (a[0], b[0]):
            if b[0] == "null": a, b = b, a
            if b[0] in ("null", "addr") or b == I(0): return I((b[0] != "addr") == (o == "=="))
        na = a[1] if a[0] in ("int", "num") else None; nb = b[1] if b[0] in ("int", "num") else None
        if na is not None and nb is not None:
            try:
                if o == "+": return self.numt(na + nb)
                if o == "-": return self.numt(na - nb)
                if o == "*": return self.numt(na * nb)
                if o == "/":
                    if x.get("intdiv"): return I(int(na / nb))
                    return self.numt(Fraction(na) / Fraction(nb))
                if o == "%": return I(na - nb * int(na / nb))
                if o == "==": return I(na == nb)
                if o == "!=": return I(na != nb)
                if o == "<": return I(na < nb)
                if o == ">": return I(na > nb)
                if o == "<=": return I(na <= nb)
                if o == ">=": return I(na >= nb)
                if o == "|": return I(na | nb)
                if o == "&": return I(na & nb)
            except ZeroDivisionError: pass
        if o == "!=": return self.unop("!", self.binop("==", a, b, x), x)
        if o == "==" and b[0] in ("int", "num", "null") and a[0] not in ("int", "num", "null"): pass
        elif o == "==" and a[0] in ("int", "num", "null"): a, b = b, a
        return ("op", o, (a, b))
    def numt(self, v):
        if isinstance(v, Fraction) and v.denominator == 1: v = int(v)
        return ("int", v) if isinstance(v, int) else ("num", v)

    # -------------------------------------------------------------- calls
    def may_inline(self, fn):
        if fn["n"] in self.noinline: return False
        if self.depth >= MAXD: return False
        if any(f is fn for f in self.stack): return False
        if self.inline_pred is not None: return self.inline_pred(fn)
        return True

    def call_lambda(self, f, args, nodes, st):
        x, cst = self.lams[f[1]]
        fake = {"n": "<lambda>", "p": x["p"], "body": x["body"], "file": self.stack[-1]["file"] if self.stack else "", "l": x["l"], "cls": self.stack[-1].get("cls", "") if self.stack else ""}
        for k2, v in cst.env.items(): st.env.setdefault(k2, v)
        return self.do_inline(fake, args, nodes, self.this, st)

    def do_inline(self, fn, args, nodes, this, st):
        keys = []
        for i, p in enumerate(fn["p"]):
            kk = None
            if i < len(nodes) and p["t"].rstrip().endswith("&") and not p["t"].startswith("const "):
                kk = self.lval(nodes[i], st, True)
            keys.append(kk)
        # evaluate defaults
        vals = list(args)
        while len(vals) < len(fn["p"]): vals.append(("defarg", fn["n"], fn["p"][len(vals)]["n"]))
        g = st.guards
        saved = self.this
        self.depth += 1
        try:
            rets = self.enter(fn, vals, this, st.copy(), keys)
        finally:
            self.depth -= 1
        self.this = saved
        if not rets: return ("noreturn",)
        if len(rets) == 1: s2, v = rets[0]
        else: s2, v = self.mergelist(rets, g)
        st.env.clear(); st.env.update(s2.env); st.heap.clear(); st.heap.update(s2.heap); st.alias.clear(); st.alias.update(s2.alias); st.guards = g
        self.inlined.append(fn)
        return v if v is not None else ("void",)

    def x_c(self, x, st):
        if "cx" in x:
            f = self.expr(x["cx"], st); args = tuple(self.expr(y, st) for y in x["a"])
            if f[0] == "lam": return self.call_lambda(f, args, x["a"], st)
            t = ("call", "?ptr", f, args, ())
            self.emit("call", t, st, x["l"], x); return t
        if x["n"] == "swap" and not x.get("ar") and len(x["a"]) + ("o" in x) == 2 and x.get("f") not in self.tu.byid:
            ns = ([x["o"]] if "o" in x else []) + list(x["a"]); ks = [self.lval(y, st, True) for y in ns]
            if all(k is not None and k[0] in ("v", "m", "e") for k in ks):
                va, vb = (self.expr(y, st) for y in ns)
                self.store(ks[0], vb, st, x["l"]); self.store(ks[1], va, st, x["l"]); return ("void",)
        obj = None
        if "o" in x:
            obj = self.expr(x["o"], st)
            if obj[0] == "addr": obj = obj[1]
            elif x.get("ar"): obj = ("deref", obj) if obj[0] not in ("deref",) else obj
        args = tuple(self.expr(y, st) for y in x["a"])
        r = self.special(x, obj, args, st)
        if r is not None: return r
        fn = self.tu.byid.get(x.get("f"))
        if fn is not None and self.may_inline(fn):
            this = obj if obj is not None else self.this
            r = self.do_inline(fn, args, x["a"], this, st)
            return r
        t = ("call", x["n"], obj, args, tuple(x.get("ta", ())))
        e = self.emit("call", t, st, x["l"], x)
        for i in x.get("rp", []):
            if i < len(x["a"]):
                key = self.lval(x["a"][i], st, True)
                if key is not None and key[0] in ("v", "m", "e"):
                    self.outarg(key, t, i, st, x)
        return t
    def outarg(self, key, t, i, st, x):
        self.store(key, ("out", t, i), st, x["l"], "upd")
    def special(self, x, obj, args, st): return None

class PhiMixin:
    """comparisons and logic distribute over the branches of a value"""
    def binop(s, o, a, b, x):
        if a[0] == "phi" and b[0] == "int": return ("phi", a[1], s.binop(o, a[2], b, x), s.binop(o, a[3], b, x))
        if b[0] == "phi" and a[0] == "int": return ("phi", b[1], s.binop(o, a, b[2], x), s.binop(o, a, b[3], x))
        return super().binop(o, a, b, x)
    def unop(s, o, a, x):
        if a[0] == "phi": return ("phi", a[1], s.unop(o, a[2], x), s.unop(o, a[3], x))
        return super().unop(o, a, x)

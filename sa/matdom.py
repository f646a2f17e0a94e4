"""Matrix value numbering: the term domain of flow.Walker refined by hashing every
arithmetic term into field.N (random interpretation).  A term whose leaves are known
is represented by its hash (a small matrix over GF(p)[e]); equal hashes mean equal
polynomials/algebraic expressions.  Eigen's vocabulary is given its definition here;
structural sizes (dimension, number of active functions, number of points) are fixed
by the client, everything else stays symbolic.

Signs: sign(x) is the quadratic character, a homomorphism under which square roots
are positive; comparisons that are not decided by it stay opaque."""
import re
from fractions import Fraction
import flow
from flow import show, I, TRUE, FALSE
from field import N, M, P, Rng, Retry, DomainError, isqr
from facts import AnalysisError

class Oob(Exception): pass

def V(m): return ("M", m if isinstance(m, M) else M.scal(m))
def isM(t): return isinstance(t, tuple) and len(t) == 2 and t[0] == "M"
def isnum(t): return isinstance(t, tuple) and t[0] in ("int", "num")
def lift(t):
    if isM(t): return t[1]
    if isnum(t): return M.scal(Fraction(t[1]))
    if isinstance(t, tuple) and t[0] == "ctor" and len(t[2]) == 1: return lift(t[2][0])
    return None
SMALL = 1 << 24
def small(n):
    """small integer value of a field element, or None"""
    if any(k for k in n.c): return None
    b = n.base()
    if b < SMALL: return b
    if P - b < SMALL: return b - P
    return None
def sgn(n):
    b = n.base()
    if b == 0: return 0 if n.zero() else None
    return 1 if isqr(b) else -1

FIXED = re.compile(r"gs(?:Matrix|Vector)<[^<>,]*, *(\d+)(?:, *(\d+))?")
EIG = re.compile(r"Matrix<double, (-?\d+), (-?\d+)")
VIEW = re.compile(r"gsAs(Const)?(Matrix|Vector)|Eigen::(Map|Block|Transpose|Ref)\b|Eigen::internal")

def shape_of_type(t):
    """(r,c) if statically known"""
    t = t.replace("const ", "").replace("&", "").strip()
    m = re.match(r"(?:gismo::)?gsMatrix<double(?:, *(-?\d+))?(?:, *(-?\d+))?", t)
    if m:
        r, c = (int(x) if x else -1 for x in m.groups()); return (r, c)
    m = re.match(r"(?:gismo::)?gsVector3d<", t)
    if m: return (3, 1)
    m = re.match(r"(?:gismo::)?gsVector<double(?:, *(-?\d+))?", t)
    if m: return (int(m.group(1)) if m.group(1) else -1, 1)
    m = re.search(r"Matrix<double, (-?\d+), (-?\d+)", t)
    if m and ("Matrix<double" in t[:30] or t.startswith("gsEigen::Matrix")): return (int(m.group(1)), int(m.group(2)))
    return None

class MatWalker(flow.Walker):
    def __init__(self, tu, rng, leaf=None, decide=None, members=None, **kw):
        kw.setdefault("max_unroll", 4000)
        super().__init__(tu, **kw)
        self.rng = rng; self.leaf = leaf; self.decide = decide; self.members = members or {}
        self.fieldgarbage = {}; self.reccache = {}; self.fresh = 0; self.oob = []; self.line = None; self.dimerr = []

    # ---------------------------------------------------------------- helpers
    def garbage(self, r, c, why="uninit"):
        self.fresh += 1
        return M(r, c, [self.rng("garbage", why, self.fresh, i, j) for i in range(r) for j in range(c)])
    def place(self): return "%s:%s" % (self.stack[-1]["file"] if self.stack else "?", self.line)
    def int_(self, t):
        if isinstance(t, tuple):
            if t[0] == "int": return t[1]
            if isM(t) and t[1].isscal(): return small(t[1].a[0])
            if t[0] == "ctor" and len(t[2]) == 1: return self.int_(t[2][0])
        return None
    def default(self, key):
        if key[0] == "m":
            v = self.members.get((key[1], key[2]))
            if v is None and key[1] == ("this",): v = self.members.get(key[2])
            if callable(v): v = v()
            if v is not None: return v
            t = self.fieldtype(key)
            if t:
                sh = shape_of_type(t)
                if sh and sh[0] > 0 and sh[1] > 0:
                    if key not in self.fieldgarbage: self.fieldgarbage[key] = V(self.garbage(*sh, why="member"))
                    return self.fieldgarbage[key]
        return super().default(key)
    def fieldtype(self, key):
        """declared type of a data member of an object whose class is known"""
        if key[0] != "m": return None
        base = key[1]
        if base == ("this",) or base[0] == "obj":
            fn = self.stack[0] if base == ("this",) and self.stack else None
            cid = fn.get("cid") if fn else None
            if base[0] == "obj" and len(base) > 3: cid = base[3]
            if cid is None: return None
            for r in self.recs(cid):
                for f in r["fields"]:
                    if f["n"] == key[2]: return f["t"].replace("const ", "")
        return None
    def recs(self, cid):
        if cid in self.reccache: return self.reccache[cid]
        byname = {}
        for r in self.tu.records: byname.setdefault(r["q"] + ("<" + ", ".join(r["cargs"]) + ">" if r["cargs"] else ""), r)
        out = []; todo = [r for r in self.tu.records if r["id"] == cid]
        while todo:
            r = todo.pop(0); out.append(r)
            todo += [byname[b] for b in r["bases"] if b in byname]
        self.reccache[cid] = out; return out
    def ltype(self, key): return self.fieldtype(key)
    def expr(self, x, st):
        if "l" in x: self.line = x["l"]
        return super().expr(x, st)

    # ---------------------------------------------------------------- parts
    def part(self, m, op, idx, ta=()):
        """value of a sub-object, None if not understood"""
        ii = [self.int_(t) for t in idx]
        if any(v is None for v in ii): return None
        R, C = m.r, m.c
        sel = self.cells(m, op, ii, ta)
        if sel is None: return None
        rows, cols, cells = sel
        for (i, j) in cells:
            if not (0 <= i < R and 0 <= j < C): raise Oob("%s: %s(%s) of a %dx%d matrix" % (self.place(), op, ",".join(map(str, ii)), R, C))
        return M(rows, cols, [m.a[i * C + j] for i, j in cells])
    def cells(self, m, op, ii, ta=()):
        """(rows, cols, row-major list of cells)"""
        R, C = m.r, m.c
        blk = lambda i, j, r, c: (r, c, [(a, b) for a in range(i, i + r) for b in range(j, j + c)])
        t = [int(z) for z in ta if str(z).lstrip("-").isdigit()]
        if op in ("()", "coeff", "coeffRef", "insert", "at") and len(ii) == 2: return 1, 1, [(ii[0], ii[1])]
        if op in ("()", "[]", "at", "coeff", "coeffRef") and len(ii) == 1:
            k = ii[0]
            if op != "at" and R != 1 and C != 1 and self.strict1:
                pass
            if C == 1: return 1, 1, [(k, 0)]
            if R == 1: return 1, 1, [(0, k)]
            if k >= R * C: return 1, 1, [(R, C)]
            return 1, 1, [(k % R, k // R)]
        if op in ("col",) and len(ii) == 1: return blk(0, ii[0], R, 1)
        if op == "col3d" and len(ii) == 1: return blk(0, ii[0], 3, 1)
        if op == "row" and len(ii) == 1: return blk(ii[0], 0, 1, C)
        if op == "block":
            if len(ii) == 4: return blk(*ii)
            if len(ii) == 2 and len(t) >= 2: return blk(ii[0], ii[1], t[0], t[1])
        n1 = ii[0] if len(ii) == 1 else (t[0] if t and not ii else None)
        if op == "topRows" and n1 is not None: return blk(0, 0, n1, C)
        if op == "bottomRows" and n1 is not None: return blk(R - n1, 0, n1, C)
        if op == "leftCols" and n1 is not None: return blk(0, 0, R, n1)
        if op == "rightCols" and n1 is not None: return blk(0, C - n1, R, n1)
        if op == "middleCols" and len(ii) == 2: return blk(0, ii[0], R, ii[1])
        if op == "middleRows" and len(ii) == 2: return blk(ii[0], 0, ii[1], C)
        if op == "head" and n1 is not None: return blk(0, 0, n1, 1) if C == 1 else blk(0, 0, 1, n1)
        if op == "tail" and n1 is not None: return blk(R - n1, 0, n1, 1) if C == 1 else blk(0, C - n1, 1, n1)
        if op == "segment" and len(ii) == 2: return blk(ii[0], 0, ii[1], 1) if C == 1 else blk(0, ii[0], 1, ii[1])
        if op == "topLeftCorner" and len(ii) == 2: return blk(0, 0, *ii)
        if op == "reshapeCol" and len(ii) == 3:
            k, n, q = ii
            if n * q != R: raise DomainError("%s: column of length %d viewed as %dx%d" % (self.place(), R, n, q))
            return n, q, [(j * n + i, k) for i in range(n) for j in range(q)]
        if op == "reshape" and len(ii) == 2:
            n, q = ii
            if n * q != R * C: raise DomainError("%s: %dx%d viewed as %dx%d" % (self.place(), R, C, n, q))
            f = lambda k: (k % R, k // R)
            return n, q, [f(j * n + i) for i in range(n) for j in range(q)]
        if op in ("asVector",) and not ii: return R * C, 1, [(k % R, k // R) for k in range(R * C)]
        if op == "transpose" and not ii: return C, R, [(j, i) for i in range(C) for j in range(R)]
        if op == "diagonal" and not ii: return min(R, C), 1, [(i, i) for i in range(min(R, C))]
        return None
    strict1 = False

    def index(self, base, op, idx):
        if isM(base):
            r = self.part(base[1], op, [i for i in idx if not (isinstance(i, tuple) and i[0] == "str")], [i[1] for i in idx if isinstance(i, tuple) and i[0] == "str"])
            if r is not None: return V(r)
        if base[0] == "vec":
            i = self.int_(idx[0]) if idx else None
            if i is not None:
                if 0 <= i < len(base[1]): return base[1][i]
                raise Oob("%s: element %d of %d" % (self.place(), i, len(base[1])))
        r = self.leafindex(base, op, idx)
        if r is not None: return r
        return super().index(base, op, idx)
    def leafindex(self, base, op, idx): return None

    def update(self, base, op, idx, val):
        ii = [i for i in idx if not (isinstance(i, tuple) and i[0] == "str")]
        ta = [i[1] for i in idx if isinstance(i, tuple) and i[0] == "str"]
        if base[0] == "vec":
            i = self.int_(ii[0])
            if i is not None and 0 <= i < len(base[1]): return ("vec", base[1][:i] + (val,) + base[1][i + 1:])
        if base[0] == "uninit":
            s = shape_of_type(base[1])
            if s and s[0] > 0 and s[1] > 0: base = V(self.garbage(*s))
        if op == "transpose" and not ii and lift(val) is not None: return V(lift(val).T())   # resizes
        if isM(base):
            m = base[1]; jj = [self.int_(t) for t in ii]; v = lift(val)
            if v is not None and all(j is not None for j in jj):
                s = self.cells(m, op, jj, ta)
                if s is not None:
                    r, c, cells = s
                    for (i, j) in cells:
                        if not (0 <= i < m.r and 0 <= j < m.c): raise Oob("%s: %s(%s) of a %dx%d matrix" % (self.place(), op, ",".join(map(str, jj)), m.r, m.c))
                    if (v.r, v.c) != (r, c):
                        if (v.c, v.r) == (r, c) and (r == 1 or c == 1): v = v.T()   # Eigen: vectors are transposed silently
                        elif v.isscal(): v = M(r, c, [v.a[0]] * (r * c))
                        else: raise DomainError("%s: %dx%d assigned to a %dx%d part" % (self.place(), v.r, v.c, r, c))
                    a = list(m.a)
                    for (i, j), x in zip(cells, v.a): a[i * m.c + j] = x
                    return V(M(m.r, m.c, a))
            self.note_lost("store to part %s(%s)" % (op, show(ii)))
            return ("lost", self.place())
        return super().update(base, op, idx, val)
    def note_lost(self, why): self.notes.append("%s: %s" % (self.place(), why))

    # ---------------------------------------------------------------- declarations
    def decl(self, v, st):
        t = v["t"]
        if "init" in v and VIEW.search(t) and not t.rstrip().endswith("&"):
            n = v["init"]
            while n.get("k") in ("ctor", "cast") and len(n.get("a", [])) == 1: n = n["a"][0]
            key = self.lval(n, st, True)
            if key is not None:
                st.alias[v["i"]] = key; st.env.pop(v["i"], None); return
        super().decl(v, st)
        if v["i"] in st.env:
            val = st.env[v["i"]]
            if isM(val) and "init" in v: st.env[v["i"]] = self.fit(val, t)
            elif isinstance(val, tuple) and val[0] == "uninit":
                s = shape_of_type(t)
                if s:
                    r, c = (x if x > 0 else 0 for x in s)
                    st.env[v["i"]] = V(self.garbage(r, c))
    def fit(self, val, t):
        """conversion to a declared matrix type: a row initialising a column vector is transposed"""
        s = shape_of_type(t)
        if s and s[1] == 1 and val[1].r == 1 and val[1].c != 1: return V(val[1].T())
        return val
    def ctor(self, t, a, x, st):
        s = shape_of_type(t)
        if s:
            if not a: return V(self.garbage(*(q if q > 0 else 0 for q in s)))
            if len(a) == 1:
                v = lift(a[0])
                if isM(a[0]): return self.fit(a[0], t)
                if v is None and a[0][0] != "int": return a[0] if a[0][0] in ("call", "mem", "op", "phi", "lost", "out", "var") else ("ctor", t, a)
                n = self.int_(a[0])
                if n is not None and s[1] == 1 and s[0] < 0: return V(self.garbage(n, 1))
            ii = [self.int_(z) for z in a]
            if len(a) == 2 and s == (-1, -1) and all(z is not None for z in ii): return V(self.garbage(*ii))
            if s[1] == 1 and s[0] == len(a) and all(lift(z) is not None for z in a): return V(M.col([lift(z).a[0] for z in a]))
        if VIEW.search(t) and len(a) == 1: return a[0]
        if "initializer_list" in t and len(a) == 1: return a[0]
        if len(a) == 1 and isM(a[0]) and ("Eigen" in t or "gsMatrix" in t or "gsVector" in t): return a[0]
        return super().ctor(t, a, x, st)

    def assign(self, key, v, st, x):
        if isM(v):
            # fixed-size or vector destination
            old = self.read(key, st)
            if isM(old) and key[0] in ("v", "m") and old[1].c == 1 and old[1].r == v[1].c and v[1].r == 1 and old[1].r > 1: return V(v[1].T())
            t = self.ltype(key)
            if t: return self.fit(v, t)
        return v

    # ---------------------------------------------------------------- arithmetic
    def unop(self, o, a, x):
        if o == "u-" and isM(a): return V(-a[1])
        if o == "u+" : return a
        if o == "!" and isM(a):
            n = self.int_(a)
            if n is not None: return I(not n)
        return super().unop(o, a, x)
    def binop(self, o, a, b, x):
        if isnum(a) and isnum(b): return super().binop(o, a, b, x)
        if (isM(a) or isM(b)):
            p, q = lift(a), lift(b)
            if p is not None and q is not None:
                try:
                    if o == "+":
                        if p.isscal() != q.isscal() and (p.r * p.c) != 0:   # array op scalar
                            if q.isscal(): return V(p.map(lambda z: z + q.a[0]))
                            return V(q.map(lambda z: z + p.a[0]))
                        return V(p + q)
                    if o == "-":
                        if q.isscal() and not p.isscal(): return V(p.map(lambda z: z - q.a[0]))
                        return V(p - q)
                    if o == "*": return V(p * q)
                    if o == "/":
                        if not q.isscal(): return V(M(p.r, p.c, [y * z.inv() for y, z in zip(p.a, q.a)]))
                        return V(p.scale(q.a[0].inv()))
                except DomainError as e:
                    raise DomainError("%s: %s" % (self.place(), e))
                if o in ("<", ">", "<=", ">=", "==", "!=") and p.isscal() and q.isscal():
                    r = self.compare(o, p.a[0], q.a[0], a, b)
                    if r is not None: return I(r)
                    t = ("op", o, (a, b))
                    if o == "!=": return ("op", "!", (("op", "==", (a, b)),))
                    if self.decide:
                        r = self.decide(t)
                        if r is not None: return I(r)
                    return t
        r = super().binop(o, a, b, x)
        if self.decide and r[0] == "op" and r[1] in ("<", ">", "<=", ">=", "==", "!"):
            neg = r[1] == "!"; y = r[2][0] if neg else r
            d = self.decide(y)
            if d is not None: return I(d != neg)
        return r
    def compare(self, o, p, q, a, b):
        d = p - q
        if d.zero(): return {"<": 0, ">": 0, "<=": 1, ">=": 1, "==": 1, "!=": 0}[o]
        if o in ("==", "!="): return None if d.base() == 0 else {"==": 0, "!=": 1}[o]
        sp, sq = small(p), small(q)
        fa = Fraction(a[1]) if isnum(a) else (Fraction(sp) if sp is not None else None)
        fb = Fraction(b[1]) if isnum(b) else (Fraction(sq) if sq is not None else None)
        if fa is not None and fb is not None: return {"<": fa < fb, ">": fa > fb, "<=": fa <= fb, ">=": fa >= fb}[o]
        if (fa == 0 or fb == 0):
            s = sgn(d)
            if s is not None: return {"<": s < 0, ">": s > 0, "<=": s < 0, ">=": s > 0}[o]
        # a generic magnitude is not below a tolerance
        if fb is not None and 0 < fb <= Fraction(1, 1000) and self.isabs(a): return {"<": 0, ">": 1, "<=": 0, ">=": 1}[o]
        if fa is not None and 0 < fa <= Fraction(1, 1000) and self.isabs(b): return {"<": 1, ">": 0, "<=": 1, ">=": 0}[o]
        return None
    def isabs(self, t): return True

    # ---------------------------------------------------------------- calls
    MUT = {"setZero", "setOnes", "setConstant", "setIdentity", "resize", "conservativeResize", "normalize", "transposeInPlace", "swap", "fill"}
    def special(self, x, obj, args, st):
        n = x["n"]
        if self.leaf is not None:
            r = self.leaf(self, x, obj, args, st)
            if r is not None: return r
        if "o" in x and n in self.MUT:
            r = self.mutate(n, x, obj, args, st)
            if r is not None: return r
        if obj is not None:
            r = self.method(n, obj, args, x, st)
            if r is not None: return r
        else:
            r = self.func(n, args, x, st)
            if r is not None: return r
        return None
    def mutate(self, n, x, obj, args, st):
        node = x["o"]
        colwise = False
        if node.get("k") == "c" and node["n"] in ("colwise", "array", "noalias"):
            colwise = node["n"] == "colwise"; node = node["o"]
        key = self.lval(node, st, True)
        if key is None: return None
        old = self.read(key, st)
        m = old[1] if isM(old) else None
        ii = [self.int_(t) for t in args]
        new = None
        if n in ("setZero", "setOnes", "setConstant", "setIdentity", "fill"):
            cst = {"setZero": 0, "setOnes": 1}.get(n)
            val = N.of(cst) if cst is not None else None
            dims = ii
            if n in ("setConstant", "fill"):
                v = lift(args[-1]); dims = ii[:-1]
                if v is None: self.store(key, ("lost", self.place()), st, x["l"], "upd"); return ("void",)
                val = v.a[0]
            if len(dims) == 2 and None not in dims: r, c = dims
            elif len(dims) == 1 and None not in dims: r, c = dims[0], 1
            elif not dims and m is not None: r, c = m.r, m.c
            elif not dims and old[0] == "uninit" and shape_of_type(old[1]): r, c = shape_of_type(old[1])
            else: return None
            new = M.eye(r) if n == "setIdentity" else M(r, c, [val] * (r * c))
        elif n in ("resize", "conservativeResize"):
            if None in ii: return None
            r, c = ii if len(ii) == 2 else (ii[0], 1)
            if old[0] == "vec" or (old[0] in ("ctor",) and "vector" in str(old[1])): return None
            if m is not None and m.r * m.c == r * c and n == "resize": new = m.reshape(r, c)
            else:
                new = self.garbage(r, c, "resize")
                if n == "conservativeResize" and m is not None:
                    a = list(new.a)
                    for i in range(min(r, m.r)):
                        for j in range(min(c, m.c)): a[i * c + j] = m[i, j]
                    new = M(r, c, a)
        elif n == "normalize" and m is not None:
            if colwise: new = M(m.r, m.c, [x_ for x_ in self.colnorm(m).a])
            else: new = m.normalized()
        elif n == "transposeInPlace" and m is not None: new = m.T()
        if new is None: return None
        self.store(key, V(new), st, x["l"], "upd"); return ("void",)
    def colnorm(self, m):
        cs = [M(m.r, 1, [m[i, j] for i in range(m.r)]).normalized() for j in range(m.c)]
        return M(m.r, m.c, [cs[j].a[i] for i in range(m.r) for j in range(m.c)])

    def method(self, n, obj, args, x, st):
        if obj[0] == "vec":
            if n == "size": return I(len(obj[1]))
            if n in ("at",): return self.index(obj, "[]", args)
            if n == "front": return obj[1][0]
            if n == "back": return obj[1][-1]
        if obj[0] == "ctor" and len(obj[2]) == 1 and isM(obj[2][0]): obj = obj[2][0]
        if not isM(obj):
            if isnum(obj) and n in ("value", "eval", "norm"): return obj
            return None
        m = obj[1]
        ta = x.get("ta", ())
        if n in ("rows",): return I(m.r)
        if n in ("cols",): return I(m.c)
        if n == "size": return I(m.r * m.c)
        if n in ("noalias", "eval", "derived", "matrix", "array", "cast", "asRowVector", "finished", "real", "selfadjointView", "matrixBase"): return obj
        if n in ("col", "row", "at", "block", "topRows", "leftCols", "rightCols", "bottomRows", "middleCols", "middleRows", "segment", "head", "tail", "reshapeCol", "reshape", "transpose", "diagonal", "asVector", "col3d", "topLeftCorner", "coeff", "coeffRef", "insert"):
            r = self.part(m, n, list(args), ta)
            return V(r) if r is not None else None
        if n == "adjoint": return V(m.T())
        if n == "asDiagonal":
            k = max(m.r, m.c); return V(M(k, k, [m.a[i] if i == j else N.of(0) for i in range(k) for j in range(k)]))
        if n in ("normalized",): return V(m.normalized())
        if n == "norm": return V(m.norm2().sqrt())
        if n == "squaredNorm": return V(m.norm2())
        if n == "determinant": return V(m.det())
        if n in ("inverse", "cramerInverse"):
            if m.r != m.c: raise DomainError("%s: inverse of %dx%d" % (self.place(), m.r, m.c))
            return V(m.inverse())
        if n == "trace": return V(m.trace())
        if n == "value":
            if not m.isscal(): raise DomainError("%s: value() of a %dx%d matrix" % (self.place(), m.r, m.c))
            return V(m.a[0])
        if n == "sum":
            t = N.of(0)
            for y in m.a: t = t + y
            return V(t)
        if n == "prod":
            t = N.of(1)
            for y in m.a: t = t * y
            return V(t)
        if n == "mean" :
            t = N.of(0)
            for y in m.a: t = t + y
            return V(t * N.of(Fraction(1, len(m.a))))
        if n in ("dot", "cross", "cwiseProduct", "cwiseQuotient"):
            o = lift(args[0])
            if o is None: return None
            if m.r * m.c != o.r * o.c: raise Oob("%s: %s of a %dx%d and a %dx%d matrix" % (self.place(), n, m.r, m.c, o.r, o.c))
            if n == "dot": return V(m.dot(o))
            if n == "cross": return V(m.cross(o))
            if n == "cwiseProduct": return V(M(m.r, m.c, [p * q for p, q in zip(m.a, o.a)]))
            return V(M(m.r, m.c, [p * q.inv() for p, q in zip(m.a, o.a)]))
        if n in ("cwiseSqrt", "sqrt"): return V(m.map(lambda z: z.sqrt()))
        if n in ("cwiseAbs2", "square"): return V(m.map(lambda z: z * z))
        if n in ("cwiseInverse",): return V(m.map(lambda z: z.inv()))
        if n in ("cwiseAbs", "abs"): return V(m.map(self.absn))
        if n in ("kron",):
            o = lift(args[0])
            if o is not None: return V(M(m.r * o.r, m.c * o.c, [m[i // o.r, j // o.c] * o[i % o.r, j % o.c] for i in range(m.r * o.r) for j in range(m.c * o.c)]))
        if n in ("replicate",):
            a, b = (self.int_(z) for z in args)
            return V(M(m.r * a, m.c * b, [m[i % m.r, j % m.c] for i in range(m.r * a) for j in range(m.c * b)]))
        if n == "blockDiag":
            k = self.int_(args[0])
            return V(M(m.r * k, m.c * k, [m[i % m.r, j % m.c] if i // m.r == j // m.c else N.of(0) for i in range(m.r * k) for j in range(m.c * k)]))
        if n in ("colwise", "rowwise"): return (n, m)
        if n in ("size",): return I(m.r * m.c)
        if n == "isApprox": return None
        return None
    def absn(self, z):
        s = sgn(z)
        if s is None: raise Retry("sign")
        return z if s >= 0 else -z
    def func(self, n, args, x, st):
        if n in ("Zero", "Ones", "Identity", "Constant", "UnitX"):
            s = EIG.search(" ".join(x.get("ca", [])) or "") or EIG.search(x.get("q", ""))
            ii = [self.int_(z) for z in args]
            sh = (int(s.group(1)), int(s.group(2))) if s else None
            val = {"Zero": N.of(0), "Ones": N.of(1)}.get(n)
            dims = ii
            if n == "Constant":
                dims = ii[:-1]; v = lift(args[-1])
                if v is None: return None
                val = v.a[0]
            if len(dims) == 2: sh = tuple(dims)
            elif len(dims) == 1: sh = (dims[0], 1)
            if sh is None or sh[0] is None or sh[0] < 0 or sh[1] < 0: return None
            return V(M.eye(sh[0])) if n == "Identity" else V(M(sh[0], sh[1], [val] * (sh[0] * sh[1])))
        if n in ("sqrt", "pow", "abs", "fabs", "log", "exp", "max", "min", "cast", "sqr", "cbrt") or n == "absval":
            v = [lift(a) for a in args]
            if not v or any(z is None or not z.isscal() for z in v):
                return None
            if all(isnum(a) for a in args):
                f = [Fraction(a[1]) for a in args]
                if n in ("abs", "fabs"): return self.numt(abs(f[0]))
                if n == "pow" and f[1].denominator == 1 and (f[0] != 0 or f[1] >= 0): return self.numt(f[0] ** int(f[1]))
                if n == "max": return self.numt(max(f))
                if n == "min": return self.numt(min(f))
            a = v[0].a[0]
            if n == "sqrt": return V(a.sqrt())
            if n in ("abs", "fabs", "absval"): return V(self.absn(a))
            if n == "pow":
                e = args[1]
                if isnum(e): return V(a.powq(Fraction(e[1])))
                es = small(v[1].a[0])
                if es is not None: return V(a.powq(es))
                r = self.ratexp(v[1].a[0])
                if r is not None: return V(a.powq(r))
                return None
            if n == "log": return V(self.log(a))
            if n == "exp": return V(self.exp(a))
            return None
        if n == "give" or n == "move" or n == "forward": return args[0]
        return None
    def ratexp(self, n):
        """small rational represented by a field element"""
        b = n.base()
        for d in range(1, 40):
            y = b * d % P
            if y < 4000: return Fraction(y, d)
            if P - y < 4000: return Fraction(y - P, d)
        return None
    def log(self, a):
        if not isqr(a.base()) or a.base() == 0: raise Retry("log")
        x = a.nil() * pow(a.base(), -1, P); r = self.rng("log", a.base()) if a.base() != 1 else N.of(0)
        t = N.of(1); k = 0
        while True:
            t = t * x; k += 1
            if not t.c: break
            r = r + t * N.of(Fraction((-1) ** (k + 1), k))
        return r
    def exp(self, a):
        b = self.rng("exp", a.base()) if a.base() else N.of(1)
        b = b * b; r = N.of(1); t = N.of(1); k = 0
        while True:
            k += 1; t = t * a.nil() * N.of(Fraction(1, k))
            if not t.c: break
            r = r + t
        return b * r

    # comma initialiser  m << a, b, c;
    def shl(self, node, a, b, x, st):
        key = self.lval(node, st, True)
        if key is not None and (isM(a) or a[0] == "uninit"):
            return ("comma", key, a, (b,))
        return super().shl(node, a, b, x, st)
    def comma(self, a, b, x, st):
        if a[0] == "comma": return ("comma", a[1], a[2], a[3] + (b,))
        return super().comma(a, b, x, st)
    def stmt(self, s, st, rets, loop):
        if s is not None and s.get("k") == "o" and s["o"] in (",", "<<"):
            r = self.expr(s, st)
            if r[0] == "comma": self.fill(r, st, s["l"])
            return st
        return super().stmt(s, st, rets, loop)
    def fill(self, r, st, line):
        key, old, vals = r[1], r[2], r[3]
        m = old[1] if isM(old) else None
        vs = [lift(v) for v in vals]
        if m is None or any(v is None for v in vs): self.store(key, ("lost", self.place()), st, line, "upd"); return
        a = [None] * (m.r * m.c); i = j = 0; h = 0
        for v in vs:
            if j >= m.c: i += h; j = 0
            h = v.r
            for p in range(v.r):
                for q in range(v.c):
                    if i + p >= m.r or j + q >= m.c: raise Oob("%s: comma initialiser overflows a %dx%d matrix" % (self.place(), m.r, m.c))
                    a[(i + p) * m.c + j + q] = v[p, q]
            j += v.c
        if any(z is None for z in a): raise DomainError("%s: comma initialiser does not fill a %dx%d matrix" % (self.place(), m.r, m.c))
        self.store(key, V(M(m.r, m.c, a)), st, line, "upd")

"""Exact arithmetic used for value numbering: GF(p) extended by nilpotent
infinitesimals (e_i^2 = 0), so that formal derivatives are exact, and small
matrices over it.  p is a safe prime = 3 mod 4: the quadratic residues form a
group of prime order q=(p-1)/2 in which square roots and rational powers are
well defined ("positive" numbers)."""
import random, hashlib
from fractions import Fraction

def _is_prime(n):
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % a == 0: return n == a
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def _safe(start):
    p = start
    while not (p % 4 == 3 and _is_prime(p) and _is_prime((p - 1) // 2)): p += 2
    return p
P = _safe(2305843009213693953 + 2)   # first safe prime above 2^61
Q = (P - 1) // 2

class Retry(Exception): """a sampled value is not in the domain of an operation"""
class DomainError(Exception): pass

def isqr(a): return a % P == 0 or pow(a, Q, P) == 1

PSEUDO = [False]     # take |a| under fractional powers of non-residues instead of asking for another sample

class N:
    __slots__ = ("c",)
    def __init__(s, c): s.c = c
    @staticmethod
    def of(v):
        if isinstance(v, N): return v
        if isinstance(v, Fraction): return N({0: v.numerator * pow(v.denominator, -1, P) % P}) if v else N({})
        v = int(v) % P
        return N({0: v} if v else {})
    def __add__(a, b):
        b = N.of(b); r = dict(a.c)
        for k, v in b.c.items():
            w = (r.get(k, 0) + v) % P
            if w: r[k] = w
            else: r.pop(k, None)
        return N(r)
    __radd__ = __add__
    def __neg__(a): return N({k: P - v for k, v in a.c.items()})
    def __sub__(a, b): return a + (-N.of(b))
    def __rsub__(a, b): return N.of(b) + (-a)
    def __mul__(a, b):
        b = N.of(b); r = {}
        for k, v in a.c.items():
            for l, w in b.c.items():
                if k & l: continue
                m = k | l
                r[m] = (r.get(m, 0) + v * w) % P
        return N({k: v for k, v in r.items() if v})
    __rmul__ = __mul__
    def base(a): return a.c.get(0, 0)
    def nil(a): return N({k: v for k, v in a.c.items() if k})
    def inv(a):
        a0 = a.base()
        if not a0: raise Retry("division by zero")
        i = pow(a0, -1, P); x = a.nil() * (P - i)   # 1/(a0(1-x)), x=-nil/a0
        r = N.of(1); t = N.of(1)
        while True:
            t = t * x
            if not t.c: break
            r = r + t
        return r * i
    def __truediv__(a, b): return a * N.of(b).inv()
    def __rtruediv__(a, b): return N.of(b) * a.inv()
    def __eq__(a, b): return isinstance(b, (N, int, Fraction)) and a.c == N.of(b).c
    def __hash__(a): return hash(tuple(sorted(a.c.items())))
    def zero(a): return not a.c
    def powq(a, e):
        """a**e, e rational, a positive (quadratic residue)"""
        e = Fraction(e)
        if e.denominator == 1 and e >= 0:
            r = N.of(1)
            for _ in range(int(e)): r = r * a
            return r
        if e.denominator == 1: return a.powq(-e).inv()
        a0 = a.base()
        if not a0 or not isqr(a0) and not PSEUDO[0]: raise Retry("power of a non-residue")
        if not isqr(a0): a0 = P - a0; a = -a      # P = 3 mod 4: one of a, -a is a square
        b = pow(a0, e.numerator * pow(e.denominator, -1, Q) % Q, P)
        x = a.nil() * pow(a0, -1, P)    # (a0)^e (1+x)^e
        r = N.of(1); t = N.of(1); k = 0
        while True:
            t = t * x * N.of((e - k) / (k + 1)); k += 1
            if not t.c: break
            r = r + t
        return r * b
    def sqrt(a): return a.powq(Fraction(1, 2))
    def coef(a, bit):
        """coefficient of e_bit (as an element not containing it)"""
        return N({k & ~(1 << bit): v for k, v in a.c.items() if k >> bit & 1})
    def drop(a, bit): return N({k: v for k, v in a.c.items() if not k >> bit & 1})
    def __repr__(a): return "N(%s)" % a.c

def eps(bit): return N({1 << bit: 1})

# ---------------------------------------------------------------- matrices
class M:
    __slots__ = ("r", "c", "a")
    def __init__(s, r, c, a): s.r, s.c, s.a = r, c, a     # row-major list
    @staticmethod
    def rows(rows): return M(len(rows), len(rows[0]), [N.of(x) for q in rows for x in q])
    @staticmethod
    def scal(v): return M(1, 1, [N.of(v)])
    @staticmethod
    def col(v): return M(len(v), 1, [N.of(x) for x in v])
    @staticmethod
    def row(v): return M(1, len(v), [N.of(x) for x in v])
    @staticmethod
    def zero(r, c): return M(r, c, [N.of(0)] * (r * c))
    @staticmethod
    def eye(n): return M(n, n, [N.of(int(i == j)) for i in range(n) for j in range(n)])
    def __getitem__(s, ij): return s.a[ij[0] * s.c + ij[1]]
    def at(s, k): return s.a[k] if s.c == 1 or s.r == 1 else s.a[(k % s.r) * s.c + k // s.r]   # column-major
    def isscal(s): return s.r == 1 and s.c == 1
    def T(s): return M(s.c, s.r, [s.a[i * s.c + j] for j in range(s.c) for i in range(s.r)])
    def map(s, f): return M(s.r, s.c, [f(x) for x in s.a])
    def __add__(s, o):
        if (s.r, s.c) != (o.r, o.c): raise DomainError("shape mismatch %dx%d + %dx%d" % (s.r, s.c, o.r, o.c))
        return M(s.r, s.c, [x + y for x, y in zip(s.a, o.a)])
    def __neg__(s): return s.map(lambda x: -x)
    def __sub__(s, o): return s + (-o)
    def scale(s, k): return s.map(lambda x: x * k)
    def __mul__(s, o):
        if s.isscal(): return o.scale(s.a[0])
        if o.isscal(): return s.scale(o.a[0])
        if s.c != o.r: raise DomainError("shape mismatch %dx%d * %dx%d" % (s.r, s.c, o.r, o.c))
        out = []
        for i in range(s.r):
            for j in range(o.c):
                t = N.of(0)
                for k in range(s.c): t = t + s.a[i * s.c + k] * o.a[k * o.c + j]
                out.append(t)
        return M(s.r, o.c, out)
    def dot(s, o):
        t = N.of(0)
        for x, y in zip(s.a, o.a): t = t + x * y
        return t
    def norm2(s): return s.dot(s)
    def cross(s, o):
        a, b = s.a, o.a
        v = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        return M(s.r, s.c, v)
    def normalized(s):
        return s.scale(s.norm2().sqrt().inv())
    def det(s):
        n = s.r
        if n == 1: return s.a[0]
        if n == 2: return s.a[0] * s.a[3] - s.a[1] * s.a[2]
        t = N.of(0)
        for j in range(n):
            if s.a[j].zero(): continue
            mnr = M(n - 1, n - 1, [s.a[i * n + k] for i in range(1, n) for k in range(n) if k != j])
            d = s.a[j] * mnr.det()
            t = t + d if j % 2 == 0 else t - d
        return t
    def inverse(s):
        n = s.r; d = s.det().inv(); out = []
        if n == 1: return M(1, 1, [d])
        for i in range(n):
            for j in range(n):
                mnr = M(n - 1, n - 1, [s.a[a * n + b] for a in range(n) if a != j for b in range(n) if b != i])
                m = mnr.det() * d
                out.append(m if (i + j) % 2 == 0 else -m)
        return M(n, n, out)
    def reshape(s, r, c):
        """column-major reshape"""
        cm = [s.a[i * s.c + j] for j in range(s.c) for i in range(s.r)]
        if r * c != len(cm): raise DomainError("reshape %dx%d to %dx%d" % (s.r, s.c, r, c))
        return M(r, c, [cm[j * r + i] for i in range(r) for j in range(c)])
    def trace(s):
        t = N.of(0)
        for i in range(s.r): t = t + s.a[i * s.c + i]
        return t
    def iszero(s): return all(x.zero() for x in s.a)
    def __eq__(s, o): return isinstance(o, M) and (s.r, s.c) == (o.r, o.c) and all(x == y for x, y in zip(s.a, o.a))
    def __hash__(s): return hash((s.r, s.c, tuple(s.a)))
    def key(s): return (s.r, s.c) + tuple(x.base() for x in s.a)

class Rng:
    """deterministic symbol table: same key -> same random element"""
    def __init__(s, seed): s.seed = seed; s.t = {}
    def __call__(s, *key):
        k = repr(key)
        if k not in s.t:
            h = hashlib.sha256(("%s|%s" % (s.seed, k)).encode()).digest()
            s.t[k] = int.from_bytes(h, "big") % P
        return N.of(s.t[k])
    def pos(s, *key):
        x = s(*key); return x * x
    def vec(s, n, *key): return M.col([s(*key, i) for i in range(n)])
    def mat(s, r, c, *key): return M(r, c, [s(*key, i, j) for i in range(r) for j in range(c)])
    def sym(s, n, *key): return M(n, n, [s(*key, min(i, j), max(i, j)) for i in range(n) for j in range(n)])

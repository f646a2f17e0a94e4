"""Extraction of the assembled weak forms (domain / boundary / interface integrals)
and their evaluation as bilinear / linear forms."""
import flow, itertools
from flow import show, subterms
from facts import AnalysisError, where
from field import Retry, DomainError, N
from denote import Ctx, Den, Unsupported, E0

def in_utils(fn): return fn["file"].endswith("gsThinShellUtils.h")
ASM = {"assemble": "dom", "assembleBdr": "bdr", "assembleIfc": "ifc", "assembleInterface": "ifc"}

class WFWalker(flow.PhiMixin, flow.Walker):
    def __init__(self, tu, noinline=("_getOptions", "_defaultOptions", "_initialize", "constructSolution", "constructDisplacement", "constructMultiPatch"), **kw):
        super().__init__(tu, **kw)
        self.noinline |= set(noinline)
    def may_inline(self, fn):
        if in_utils(fn): return False
        return super().may_inline(fn)

class OptWalker(WFWalker):
    """follows the reading of the options too, so that coefficients are options and not copies of them"""
    def __init__(s, tu, **k):
        super().__init__(tu, **k); s.noinline -= {"_getOptions"}

class Integral:
    def __init__(s, kind, dom, exprs, guards, ev):
        s.kind, s.dom, s.exprs, s.guards, s.ev = kind, dom, exprs, guards, ev
    def site(s): return "%s:%d" % (s.ev.fn["file"], s.ev.line)

def is_asm(e):
    t = e.term
    return e.kind == "call" and t[1] in ASM and t[2] is not None and t[2] != ("this",) and t[3] and e.extra is not None

def empties(t):
    """True if the condition says that a container is empty, False if non-empty, None otherwise"""
    if t[0] == "op" and t[1] in ("==", ">", "<", "!=", ">=", "<="):
        a, b = t[2]
        if a[0] == "call" and a[1] in ("size", "nPatches", "numInterfaces") and b[0] == "int":
            return {"==": b[1] == 0, "!=": b[1] != 0, ">": False, ">=": False, "<": True, "<=": True}[t[1]]
    if t[0] == "call" and t[1] == "empty": return True
    if t[0] == "call" and t[1] in ("size",): return False
    if t[0] == "op" and t[1] == "!":
        r = empties(t[2][0]); return None if r is None else not r
    return None

def norm_guard(g, b):
    """-> (atom term, polarity) with negations stripped"""
    while g[0] == "op" and g[1] == "!": g, b = g[2][0], not b
    if g[0] == "op" and g[1] == "!=" : g, b = ("op", "==", g[2]), not b
    return g, b

def integrals(tu, fn, args=None, const=None, noinline=(), asm=None, walker=None):
    w = (walker or OptWalker)(tu, const_members=const or {})
    w.noinline |= set(noinline)
    w.run(fn, args)
    out = []
    for e in w.events:
        if not is_asm(e): continue
        if asm is not None and not asm(e.term[2]): continue
        kind = ASM[e.term[1]]; a = e.term[3]
        dom = "dom" if kind == "dom" else show(a[0])
        if kind == "dom" and e.term[1] == "assemble" and not a: continue
        out.append(Integral(kind, dom if kind == "dom" else kind + ":" + dom, a if kind == "dom" else a[1:], e.guards, e))
    return out, w

def atoms(ints):
    s = {}
    for i in ints:
        for g, b in i.guards:
            for a in _atoms(g): s[a] = 1
        for x in i.exprs:
            for t in subterms(x):
                if t and t[0] == "phi":
                    for g, b in t[1]:
                        for a in _atoms(g): s[a] = 1
    return list(s)

def _atoms(g):
    if g[0] == "int": return []
    if g[0] == "phi": return [y for c, b in g[1] for y in _atoms(c)] + _atoms(g[2]) + _atoms(g[3])
    if g[0] == "op" and g[1] in ("&&", "||"): return _atoms(g[2][0]) + _atoms(g[2][1])
    if g[0] == "op" and g[1] == "!": return _atoms(g[2][0])
    if g[0] == "op" and g[1] == "!=": return _atoms(("op", "==", g[2]))
    return [g]

def ev_guard(g, asg):
    if g[0] == "int": return bool(g[1])
    if g[0] == "phi": return ev_guard(g[2] if all(ev_guard(c, asg) == b for c, b in g[1]) else g[3], asg)
    if g[0] == "op" and g[1] == "&&": return ev_guard(g[2][0], asg) and ev_guard(g[2][1], asg)
    if g[0] == "op" and g[1] == "||": return ev_guard(g[2][0], asg) or ev_guard(g[2][1], asg)
    if g[0] == "op" and g[1] == "!": return not ev_guard(g[2][0], asg)
    if g[0] == "op" and g[1] == "!=": return not ev_guard(("op", "==", g[2]), asg)
    return asg[g]

def free_atoms(*lists):
    ats = []
    for l in lists:
        for a in atoms(l):
            if a not in ats: ats.append(a)
    return ats

def assignments(ats, fixed=None):
    """truth assignments of the guard atoms; container atoms are fixed to non-empty (an integral over an
    empty set is zero whatever its guard), loops are entered"""
    var = []; base = {}
    for a in ats:
        e = empties(a)
        if fixed is not None and fixed(a) is not None: base[a] = fixed(a)
        elif a[0] == "loop": base[a] = True
        elif e is not None: base[a] = not e
        elif a[0] == "exc": base[a] = False
        else: var.append(a)
    if len(var) > 8: raise AnalysisError("too many independent switches: %d" % len(var))
    for bits in itertools.product((True, False), repeat=len(var)):
        d = dict(base); d.update(zip(var, bits)); yield d, [(show(a), b) for a, b in zip(var, bits)]

def evaluate(ints, ctx, asg, T="v", S="w"):
    """{integration domain: [matrix value, vector value]} summed over the active integrals"""
    out = {}; dens = {}
    ctx.asg = asg; ctx.holds = lambda conds: all(ev_guard(g, asg) == b for g, b in conds)
    for i in ints:
        if not all(ev_guard(g, asg) == b for g, b in i.guards): continue
        d = dens.setdefault(i.kind, Den(ctx, i.kind))
        mv, vv = out.get(i.dom, (N.of(0), N.of(0)))
        for x in i.exprs:
            try:
                full = d.ev(x, T, S); part = d.ev(x, T, "0")
            except DomainError as e:
                raise Unsupported("%s: %s" % (i.site(), e))
            if not full.isscal(): raise Unsupported("%s: integrand is not scalar-valued (%dx%d)" % (i.site(), full.r, full.c))
            mv = mv + (full.a[0] - part.a[0]); vv = vv + part.a[0]
        out[i.dom] = (mv, vv)
    return out

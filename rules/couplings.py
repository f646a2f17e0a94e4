"""Interface couplings and options: which interface is treated how, and which option scales which weak condition."""
import itertools
import facts, flow, wf
from facts import AnalysisError, where
from flow import I, show, subterms
from field import DomainError
from matdom import Oob
from protocol import DofWalker, SeqMixin, retrying, obl, publics, sig, tag, Model
from weakform import FAM, NAME, CLS, penalty, tu
from report import Result
RULES = {}
THIS = ("this",)
SETTERS = {"addStrongC0": "m_strongC0", "addStrongC1": "m_strongC1", "addWeakC0": "m_weakC0", "addWeakC1": "m_weakC1", "addUncoupled": "m_uncoupled"}
OPTION = {"Weak Dirichlet": "WeakDirichlet", "Weak Clamped": "WeakClamped", "m_weakC0": "IfcPenalty", "m_weakC1": "IfcPenalty"}

class IfcWalker(SeqMixin, DofWalker):
    """interfaces are opaque distinct objects; the topology is a known list of them"""
    def __init__(s, tu, rng, n, default):
        super().__init__(tu, rng, Model(2, rng), inline=lambda f: (f.get("cls") or "").startswith("gismo::gsThinShellAssembler") and f["n"] not in ("_initialize", "_defaultOptions"))
        s.topo = ("vec", tuple(("ifc", k) for k in range(n))); s.dflt = default
        s.members.update({m: ("vec", ()) for m in list(SETTERS.values()) + ["m_unassigned", "m_inPlane", "m_outPlane"]})
    def alg(s, name, args, st):
        """standard algorithms over iterators"""
        if args[0][0] != "it" or args[1][0] != "it": return None
        seq = args[0][1]; i, j = args[0][2], args[1][2]
        if name in ("find", "count"): hit = [k for k in range(i, j) if s.norm(seq[k]) == s.norm(args[2])]
        else:
            hit = []
            for k in range(i, j):
                r = s.call_lambda(args[2], (seq[k],), (), st) if args[2][0] == "lam" else None
                n = s.int_(r) if r is not None else None
                if n is None: return None
                if n: hit.append(k)
        if name in ("find", "find_if"): return ("it", seq, hit[0] if hit else j)
        if name in ("count", "count_if"): return I(len(hit))
        return I({"any_of": bool(hit), "none_of": not hit, "all_of": len(hit) == j - i}[name])
    def binop(s, o, a, b, x):
        a, b = s.strip(a), s.strip(b)
        if a[0] == "ifc" and b[0] == "ifc" and o in ("==", "!="): return I((a == b) == (o == "=="))
        return super().binop(o, a, b, x)
    def leaf_(s, x, obj, args, st):
        n = x["n"]; o = s.strip(obj) if obj is not None else None
        if o is None:
            if n in ("find", "count", "find_if", "count_if", "any_of", "none_of", "all_of") and len(args) == 3:
                r = s.alg(n, args, st)
                if r is not None: return r
            if n in ("begin", "cbegin", "end", "cend") and len(args) == 1 and s.seq(args[0]) is not None: return ("it", s.seq(args[0]), 0 if "begin" in n else len(s.seq(args[0])))
            if n in ("next", "prev") and args and args[0][0] == "it": return ("it", args[0][1], args[0][2] + (1 if n == "next" else -1) * (s.ii(args[1]) if len(args) > 1 else 1))
            if n == "distance" and len(args) == 2 and args[0][0] == "it": return I(args[1][2] - args[0][2])
        else:
            if o in (("mem", THIS, "m_patches"), ("topology",)):
                if n == "topology": return ("topology",)
                if n in ("iBegin", "iEnd"): return ("it", s.topo[1], 0 if n == "iBegin" else len(s.topo[1]))
                if n == "interfaces" and not args: return s.topo
                if n == "nInterfaces": return I(len(s.topo[1]))
                if n == "bInterface": return s.leafindex(s.topo, "[]", args)
                if n in ("nPatches", "nBoxes"): return I(2)
            if o == ("mem", THIS, "m_options"):
                if n in ("getInt", "askInt") and args[0] == ("str", "IfcDefault"): return I(s.dflt)
                if n in ("getInt", "askInt") and args[0] == ("str", "Continuity"): return I(-1)
                if n in ("getReal", "askReal", "getString", "getSwitch"): return ("sym", "option", args[0])
        return super().leaf_(x, obj, args, st)

def one(t, name, fam, cls="gismo::gsThinShellAssembler"):
    r = [f for f in t.functions if f.get("cls") == cls and f["n"] == name and f.get("cargs") == [fam[0], "double", fam[1]] and f.get("body")]
    if len(r) != 1: raise AnalysisError("%s<%s>::%s: %d definitions" % (CLS, ",".join(fam), name, len(r)))
    return r[0]

def scenario(t, fam, assigned, n, default, order, calls):
    """assigned: setter -> interface numbers; returns a message or None"""
    def go(rng):
        w = IfcWalker(t, rng, n, default); st = flow.St()
        def call(f, args):
            nonlocal st
            r = w.run(f, args, st=st)
            if not r: raise DomainError("%s raises an error on every path" % f["n"])
            if len(r) != 1: raise AnalysisError("%s: %d exits" % (where(f), len(r)))
            st = r[0][0]
        for nm in order: call(one(t, nm, fam), [("vec", tuple(("ifc", k) for k in assigned[nm]))])
        for _ in range(calls): call(one(t, "initInterfaces", fam), [])
        have = {}
        for nm, m in SETTERS.items():
            v = w.read(("m", THIS, m), st)
            while v[0] in ("addr", "deref"): v = v[1]
            if v[0] != "vec": raise AnalysisError("%s: contents of %s not followed (%s)" % (where(one(t, "initInterfaces", fam)), m, show(v)[:80]))
            have[nm] = [e[1] for e in v[1]]
        taken = {k for l in assigned.values() for k in l}; free = [k for k in range(n) if k not in taken]
        for nm in SETTERS:
            want = list(assigned[nm]) + (free if calls and {"addWeakC0": 0, "addWeakC1": 1}.get(nm) == default else [])
            if sorted(have[nm]) != sorted(want): return "with the assignment %s and default coupling %d, the interfaces treated as %s are %s instead of %s" % ({a[3:]: b for a, b in assigned.items() if b}, default, nm[3:], sorted(have[nm]), sorted(want))
        return None
    return retrying(go, "couplings")

def scenarios(tier):
    names = list(SETTERS); empty = {m: () for m in names}
    out = [("all assigned differently", {m: (i,) for i, m in enumerate(names)}, 5), ("one free beside each", {m: (2 * i,) for i, m in enumerate(names)}, 10), ("none assigned", empty, 3), ("no interfaces", empty, 0)]
    for i, m in enumerate(names): out.append(("only " + m[3:], dict(empty, **{m: (0, 2)}), 4))
    out.append(("last ones", dict(empty, **{m: (2 + i,) for i, m in enumerate(names)}), 7))
    if tier != "quick":
        for asg in itertools.product(range(6), repeat=3): out.append(("assignment %s" % (asg,), {m: tuple(k for k in range(3) if asg[k] == i) for i, m in enumerate(names)}, 3))
    return out

def isopt(y): return y and y[0] == "call" and y[2] is not None and show(y[2]).split("->")[-1].split(".")[-1].strip("()") == "m_options" and y[1].startswith(("get", "ask"))

def marks(t): return {y[1] for y in subterms(t) if y and y[0] == "str"} or {y[2] for y in subterms(t) if y and y[0] == "mem"}
def container(a):
    """the container an emptiness test asks about"""
    if a[0] == "op" and a[1] == "!": return container(a[2][0])
    return marks(a[2][0] if a[0] == "op" else a)

def alone(ints, i):
    """is integral i reached whenever its own set is not empty, whatever else is empty? -> message or None"""
    own = marks(i.ev.term[3][0]) if i.kind != "dom" else set()
    ats = wf.free_atoms(ints)
    full = lambda a: None
    only = lambda a: None if wf.empties(a) is None else (not wf.empties(a) if container(a) & own else wf.empties(a))
    lone = {tuple(sorted(n)): d for d, n in wf.assignments(ats, only)}
    for d, n in wf.assignments(ats, full):
        e = lone.get(tuple(sorted(n)))
        if e is None: raise AnalysisError("%s: switches differ" % i.site())
        x, y = (all(wf.ev_guard(g, q) == b for g, b in i.guards) for q in (d, e))
        if x != y: return "%s: the integral is %s when other sets are empty (%s)" % (i.site(), "left out" if x else "only assembled", ", ".join(show(a)[:60] for a in ats if wf.empties(a) is not None))
    return None

def s31(tier, seed):
    t = tu(); res = Result("S31", "initInterfaces interpreted over assignments of interfaces to couplings: assigned interfaces stay where they are, the others get the default coupling exactly once; the coefficient of every weak condition assembled through any public entry point is the option of that condition, read during that assembly; no integral over one set of sides depends on another set being empty", 60)
    for fam in FAM:
        f = one(t, "initInterfaces", fam); res.count("functions", 1 + len(SETTERS))
        names = list(SETTERS)
        for label, asg, n in scenarios(tier):
            for default in (-1, 0, 1):
                for calls in (0, 1, 2):
                    if calls == 0 and default: continue
                    for order in (names, names[::-1]) if calls == 1 else (names,):
                        res.count("scenarios")
                        obl(res, "%s %s, default %d, %d call(s)%s" % (NAME[fam], label, default, calls, "" if order == names else ", reverse order"), f, lambda: scenario(t, fam, asg, n, default, order, calls))
        cop = optcopies(t, fam)
        for g in publics(t):
            if g.get("cargs") != [fam[0], "double", fam[1]] or not g["n"].startswith("assemble"): continue
            ints, w = wf.integrals(t, g)
            bad = {}
            for i in ints: res.count("integrals"); bad.setdefault(i.dom, []).extend(filter(None, [alone(ints, i)]))
            for i in ints:
                if not penalty(i.dom): continue
                want = next((o for k, o in OPTION.items() if k in i.dom), None)
                if want is None: raise AnalysisError("%s: weak condition %s not known" % (i.site(), i.dom))
                res.count("penalty integrals")
                got = set(); stale = set()
                for x in i.exprs:
                    for y in subterms(x):
                        if isopt(y): got.add(y[3][0][1] if y[3] and y[3][0][0] == "str" else show(y))
                        if y and y[0] == "mem" and y[1] == THIS and y[2] in cop: stale.add(y[2])
                b = bad.setdefault(i.dom, [])
                if stale: b.append("%s: scaled with the copy %s of an option, which was not read in this assembly" % (i.site(), ", ".join(sorted(stale))))
                elif got != {want}: b.append("%s: scaled with %s instead of the option '%s'" % (i.site(), ", ".join("'%s'" % o for o in sorted(got)) or "no option", want))
            for dom, b in bad.items(): res.ob("%s %s" % (sig(g), dom), where(g), not b, "; ".join(sorted(set(b))[:3]))
    res.assume("two interfaces of the topology are different objects for operator==", "gsOptionList returns the value last set")
    return res

def optcopies(t, fam):
    w = wf.OptWalker(t); f = one(t, "_getOptions", fam); r = w.run(f); out = set()
    for st, v in r:
        for k in list(st.heap):
            if isinstance(k, tuple) and k[0] == "m" and k[1] == THIS and any(isopt(y) for y in subterms(w.read(k, st))): out.add(k[2])
    return out
RULES["S31"] = s31

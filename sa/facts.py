"""Builds the extractor, runs it over /repo's current sources, loads the facts.

Nothing of /repo is executed: the extractor only parses and type-checks."""
import json, os, subprocess, sys, hashlib, glob, concurrent.futures, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KL_REPO", "/repo")
CORE = "/opt/gismo-core"
CACHE = os.path.join(VERIF, ".cache")

class AnalysisError(Exception):
    """the analysis could not be carried out (exit 2: neither held nor violated)"""

def _sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    key = _sha([src])
    out = os.path.join(CACHE, "kl-extract-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    lib = None
    for c in ("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1"):
        if os.path.exists(c): lib = c; break
    if lib is None: raise AnalysisError("libclang-cpp 18 not found")
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp, lib,
           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise AnalysisError("extractor build failed:\n" + r.stderr[-2000:])
    os.replace(tmp, out)
    return out

def flags():
    # the module is reached as <gsKLShell/...>: a private include dir points at REPO
    inc = os.path.join(CACHE, "inc-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    os.makedirs(inc, exist_ok=True)
    ln = os.path.join(inc, "gsKLShell")
    if not os.path.islink(ln):
        try: os.symlink(REPO, ln)
        except FileExistsError: pass
    return ["-std=c++11", "-fPIC", "-Dgismo_EXPORTS", "-I" + CORE + "/src", "-I" + CORE + "/external",
            "-I" + os.path.join(VERIF, "include"), "-I" + inc, "-I" + CORE + "/optional", "-w", "-fno-color-diagnostics",
            "-resource-dir=/usr/lib/llvm-18/lib/clang/18"]

ALL = ["gsKLShell_", "gsMaterialMatrixBase_", "gsMaterialMatrixBaseDim_", "gsMaterialMatrixComposite_",
       "gsMaterialMatrixContainer_", "gsMaterialMatrixEval_", "gsMaterialMatrixIntegrate_", "gsMaterialMatrixLinear_",
       "gsMaterialMatrixNonlinear2dComp_", "gsMaterialMatrixNonlinear2dIncomp_", "gsMaterialMatrixNonlinear3dComp_",
       "gsMaterialMatrixNonlinear3dIncomp_", "gsMaterialMatrixTFT_", "gsMaterialMatrixXml_", "gsThinShellAssemblerDWR_",
       "gsThinShellAssembler_", "extra_tu"]

def _srcfile(tu):
    if "+" in tu:   # several library sources seen as one unit
        txt = "".join('#include "%s"\n' % _srcfile(x) for x in tu.split("+"))
        out = os.path.join(CACHE, hashlib.sha256((REPO + tu).encode()).hexdigest()[:12] + "_unit.cpp")
        for x in tu.split("+"):
            if not os.path.exists(_srcfile(x)): raise AnalysisError("translation unit vanished: " + x)
        tmp = out + ".%d" % os.getpid(); open(tmp, "w").write(txt); os.replace(tmp, out)
        return out
    if tu == "extra_tu": return os.path.join(VERIF, "tool", "extra_tu.cpp")
    return os.path.join(REPO, "src", tu + ".cpp")

def extract(tus):
    tool = build_tool()
    hdrs = [p for p in glob.glob(REPO + "/src/*") if os.path.isfile(p)] + glob.glob(REPO + "/gsKLShell.h")
    key = _sha(hdrs + [os.path.join(VERIF, "tool", "extra_tu.cpp")], tool)
    d = os.path.join(CACHE, "facts-" + key)
    os.makedirs(d, exist_ok=True)
    fl = flags()
    def one(tu):
        out = os.path.join(d, tu + ".json")
        if os.path.exists(out): return tu, out, ""
        src = _srcfile(tu)
        if not os.path.exists(src): raise AnalysisError("translation unit vanished: " + src)
        r = subprocess.run([tool, REPO, out, src, "--"] + fl, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise AnalysisError("cannot parse %s:\n%s" % (src, r.stderr[-3000:]))
        return tu, out, r.stderr
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return {tu: out for tu, out, _ in ex.map(one, tus)}

class TU:
    def __init__(self, name, path):
        d = json.load(open(path))
        self.name = name
        self.functions = d["functions"]; self.records = d["records"]; self.enums = d["enums"]
        self.byid = {f["id"]: f for f in self.functions}
        for f in self.functions: f["tu"] = self
    def find(self, n=None, cls=None, cargs=None, file=None, pred=None):
        r = []
        for f in self.functions:
            if n is not None and f["n"] != n: continue
            if cls is not None and f.get("cls", "").split("::")[-1] != cls: continue
            if cargs is not None and f.get("cargs", [])[:len(cargs)] != list(cargs): continue
            if file is not None and not f["file"].endswith(file): continue
            if pred is not None and not pred(f): continue
            r.append(f)
        return r
    def rec(self, cls, cargs=None):
        return [r for r in self.records if r["q"].split("::")[-1] == cls and (cargs is None or r["cargs"][:len(cargs)] == list(cargs))]
    def enum(self, q):
        for e in self.enums:
            if e["q"].split("::")[-1] == q or e["q"].endswith("::" + q): return dict(e["vals"])
        raise AnalysisError("enum vanished: " + q)

_loaded = {}
def load(*tus):
    todo = [t for t in tus if t not in _loaded]
    if todo:
        for tu, p in extract(todo).items(): _loaded[tu] = TU(tu, p)
    return [_loaded[t] for t in tus] if len(tus) != 1 else _loaded[tus[0]]

def where(f, line=None):
    return "%s:%s %s%s" % (f["file"], line or f["l"], (f.get("cls", "").split("::")[-1] + "::") if f.get("cls") else "", f["n"])

def walk(node):
    """all AST nodes below (and including) node"""
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))

if __name__ == "__main__":
    if "--build" in sys.argv: print(build_tool())

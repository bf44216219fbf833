"""The compiled part of the JIT importer (PyTorch-only C++), built from the tree under test.

The sources are those /repo's build compiles; the build tree's own library is used
when it was made from exactly these sources, otherwise they are compiled into a
git-ignored folder of /verif.
"""
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import types

from .env import REPO, VERIF

HARNESS = "/opt/vp/harness/native"
CSRC = ["projects/jit_ir_common/csrc/jit_ir_importer", "projects/pt1/python/torch_mlir/csrc/jit_ir_importer"]
UNITS = ["class_annotator", "class_annotator_pybind", "get_registered_ops", "import_options_pybind"]


def _files(repo):
    out = []
    for d in CSRC:
        out += sorted(glob.glob(f"{repo}/{d}/*"))
    out += sorted(glob.glob(f"{repo}/projects/pt1/python/torch_mlir/_torch_mlir_custom_op_example/*.cpp"))
    return out + sorted(glob.glob(f"{HARNESS}/*"))


def source_hash(repo=REPO):
    m = hashlib.sha256()
    for f in _files(repo):
        m.update(open(f, "rb").read())
    return m.hexdigest()


def prebuilt(repo, rel):
    try:
        h = open(f"{repo}/build/native/hash").read().split()[0]
    except OSError:
        return None
    p = f"{repo}/build/python_packages/torch_mlir/torch_mlir/{rel}"
    return p if h == source_hash(repo) and os.path.exists(p) else None


def torch_dir():
    return os.path.dirname(importlib.util.find_spec("torch").origin)


def flags(repo):
    t = torch_dir()
    import sysconfig

    return ["-std=c++20", "-O1", "-fPIC", "-fvisibility=hidden", "-w", "-D_GLIBCXX_USE_CXX11_ABI=1",
            "-DTORCH_API_INCLUDE_EXTENSION_H", f"-I{repo}/projects/jit_ir_common/csrc",
            f"-I{repo}/projects/pt1/python/torch_mlir/csrc/jit_ir_importer", "-isystem", f"{t}/include", "-isystem",
            f"{t}/include/torch/csrc/api/include", "-isystem", sysconfig.get_paths()["include"]]


def ldflags():
    t = torch_dir()
    return ["-shared", f"-L{t}/lib", f"-Wl,-rpath,{t}/lib", "-ltorch_python", "-ltorch", "-ltorch_cpu", "-lc10"]


def _src(repo, unit):
    for d in CSRC:
        p = f"{repo}/{d}/{unit}.cpp"
        if os.path.exists(p):
            return p
    return f"{HARNESS}/{unit}.cpp"


def build(out, sources, repo=REPO, extra=()):
    """compile every source to an object in parallel, link; raises with the compiler's message"""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    procs = []
    for s in sources:
        o = f"{out}.{os.path.basename(s)}.{os.getpid()}.o"
        procs.append((s, o, subprocess.Popen(["g++", *flags(repo), *extra, "-c", "-o", o, s],
                                             stderr=subprocess.PIPE, text=True)))
    objs, err = [], []
    for s, o, p in procs:
        e = p.communicate()[1]
        if p.returncode:
            err.append(e[-2000:])
        objs.append(o)
    if not err:
        tmp = f"{out}.{os.getpid()}"
        r = subprocess.run(["g++", "-o", tmp, *objs, *ldflags()], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            err.append(r.stderr[-2000:])
        else:
            os.rename(tmp, out)
    for o in objs:
        if os.path.exists(o):
            os.remove(o)
    if err:
        raise RuntimeError("cannot compile: " + "\n".join(err))
    return out


def jit_importer_so(repo=REPO):
    p = prebuilt(repo, "_mlir_libs/_jit_ir_importer.so")
    if p:
        return p
    out = f"{VERIF}/.build/{source_hash(repo)[:16]}/_jit_ir_importer.so"
    if not os.path.exists(out):
        build(out, [_src(repo, u) for u in UNITS] + [f"{HARNESS}/init_partial.cpp"], repo)
    return out


def load_jit_importer(repo=REPO, path=None):
    """make torch_mlir._mlir_libs._jit_ir_importer the real extension"""
    import torch  # noqa: F401  (its libraries first)

    name = "torch_mlir._mlir_libs._jit_ir_importer"
    path = path or jit_importer_so(repo)
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_loader(name, loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    sys.modules[name] = m
    return m


# ---------------------------------------------------------------- with the stand-in for MLIR's C API
CPP = f"{VERIF}/mc/cpp"


def full_importer_so(repo=REPO):
    """the whole importer extension (ModuleBuilder included), compiled against mc/cpp"""
    sources = [f for d in CSRC for f in sorted(glob.glob(f"{repo}/{d}/*.cpp"))] + [f"{CPP}/capi.cpp"]
    m = hashlib.sha256()
    for f in sources + sorted(x for d in CSRC for x in glob.glob(f"{repo}/{d}/*.h")) + \
            sorted(glob.glob(f"{repo}/include/torch-mlir-c/*.h")) + sorted(glob.glob(f"{CPP}/**/*.h", recursive=True)):
        m.update(f.rsplit("/", 1)[1].encode() + open(f, "rb").read())
    out = f"{VERIF}/.build/full-{m.hexdigest()[:16]}/_jit_ir_importer.so"
    if not os.path.exists(out):
        build(out, sources, repo, [f"-I{CPP}", f"-I{repo}/include", "-O0"])
    return out


def load_full_importer(repo=REPO):
    """make torch_mlir._mlir_libs._jit_ir_importer the whole extension (mc.fakemlir must be installed)"""
    return load_jit_importer(repo, full_importer_so(repo))


def stub_jit_importer():
    """a placeholder for checks that only need the modules which import it to load"""
    name = "torch_mlir._mlir_libs._jit_ir_importer"
    if name in sys.modules:
        return

    class Absent:
        def __init__(self, *a, **k):
            raise RuntimeError("not available in this check")

    m = types.ModuleType(name)
    m.ClassAnnotator = m.ImportOptions = m.ModuleBuilder = Absent
    m.get_registered_ops = lambda: (_ for _ in ()).throw(RuntimeError("not available in this check"))
    m.__all__ = ["ClassAnnotator", "ImportOptions", "ModuleBuilder", "get_registered_ops"]
    sys.modules[name] = m

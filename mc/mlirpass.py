"""The compiler passes of the repository, compiled against the stand-in for MLIR in mc/mlir, and run on modules.

A module travels as JSON: an operation is {"n": name, "o": operand ids, "r": [[id, type]], "a": {name: attribute text},
"g": regions}.  `Server` runs passes; `Exec` executes what they leave with mc.jitir.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import struct
import subprocess

from . import fakemlir as F
from . import mlirgen
from .env import REPO, VERIF

MLIR = f"{VERIF}/mc/mlir"
D = "lib/Dialect/Torch"
SOURCES = [f"{D}/IR/{x}.cpp" for x in ("TorchTypes", "TorchDialect", "TorchOps", "UtilsForODSGenerated")] + \
    [f"{D}/Utils/{x}.cpp" for x in ("Utils", "TorchUpstream")]
GROUPS = {  # sources beside SOURCES, and how to make their passes
    "decompose": ([f"{D}/Transforms/DecomposeComplexOps.cpp"], [
        ("decompose", "auto l = strings(o, \"legal\"); pm.addNestedPass<func::FuncOp>(Torch::createDecomposeComplexOpsPass(l));")]),
    "canonicalize": ([], [("canonicalize", "pm.addPass(createCanonicalizerPass());"), ("cse", "pm.addPass(createCSEPass());")]),
}


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build(groups, repo=REPO):
    """the server for these groups of passes, built from the tree; raises RuntimeError with the compiler's words"""
    root = f"{VERIF}/.build/mlir"
    heads = sorted(f for d in ("include", "lib") for r, _, fs in os.walk(f"{repo}/{d}") for f in
                   (os.path.join(r, x) for x in fs) if f.endswith((".h", ".td")))
    mine = sorted(glob.glob(f"{MLIR}/**/*", recursive=True)) + [f"{VERIF}/mc/mlirgen.py"]
    m = hashlib.sha256()
    for f in heads:
        m.update(os.path.relpath(f, repo).encode() + _read(f))
    for f in mine:
        if os.path.isfile(f) and not f.endswith(".cpp"):
            m.update(os.path.relpath(f, VERIF).encode() + _read(f))
    # the forwarding headers depend on what the sources include
    inc = sorted({l.strip() for f in glob.glob(f"{repo}/lib/**/*.cpp", recursive=True) for l in _read(f).split(b"\n")
                  if l.startswith(b"#include")})
    m.update(b"\n".join(inc))
    common = m.hexdigest()[:16]
    gen = f"{root}/{common}"
    if not os.path.exists(f"{gen}/core.pch"):
        tmp = f"{gen}.{os.getpid()}"
        os.makedirs(tmp)
        mlirgen.generate(repo, tmp)
        src = [p for d in ("include", "lib/Dialect/Torch", "lib/Conversion/TorchOnnxToTorch", "lib/Conversion/Utils")
               for r, _, fs in os.walk(f"{repo}/{d}") for p in (os.path.join(r, f) for f in fs) if p.endswith((".h", ".cpp"))]
        mlirgen.forward(tmp, src)
        with open(f"{tmp}/pch.h", "w") as f:
            f.write('#include "core.h"\n' + "".join(f'#include "torch-mlir/Dialect/Torch/IR/Torch{x}.h"\n'
                                                     for x in ("Dialect", "Types", "Ops")))
        try:
            os.rename(tmp, gen)
        except OSError:
            subprocess.run(["rm", "-rf", tmp])
        _cc(["-x", "c++-header", f"{gen}/pch.h", "-o", f"{gen}/core.pch.{os.getpid()}"], gen, repo)
        os.rename(f"{gen}/core.pch.{os.getpid()}", f"{gen}/core.pch")
    regs = "".join(f'  passes["{n}"] = [](OpPassManager &pm, const Opts &o) {{ {c} }};\n' for g in groups for n, c in GROUPS[g][1])
    incl = "".join(f'#include "{i}"\n' for g in groups for i in (GROUPS[g][2] if len(GROUPS[g]) > 2 else []))
    inc_text = incl + "using namespace torch;\nstatic void registerPasses(MLIRContext &ctx) {\n" + regs + "}\n"
    units = [f"{repo}/{s}" for s in SOURCES + [s for g in groups for s in GROUPS[g][0]]] + sorted(glob.glob(f"{gen}/*.cpp")) + \
        [f"{MLIR}/{x}.cpp" for x in ("core", "rewrite", "driver")]
    objs, todo = [], []
    for u in units:
        h = hashlib.sha256(_read(u) + (inc_text.encode() if u.endswith("/driver.cpp") else b"")).hexdigest()[:16]
        o = f"{gen}/{os.path.basename(u)[:-4]}.{h}.o"
        objs.append(o)
        if not os.path.exists(o):
            todo.append((u, o))
    exe = f"{gen}/server-{hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]}"
    if not os.path.exists(exe):
        pid = os.getpid()
        os.makedirs(f"{gen}/i{pid}", exist_ok=True)
        with open(f"{gen}/i{pid}/passes.inc", "w") as f:
            f.write(inc_text)

        def one(uo):
            u, o = uo
            _cc(["-include-pch", f"{gen}/core.pch", f"-I{gen}/i{pid}", f"-I{os.path.dirname(u)}", "-c", u, "-o", f"{o}.{pid}"], gen, repo)
            os.rename(f"{o}.{pid}", o)
        todo.sort(key=lambda x: -os.path.getsize(x[0]))
        with concurrent.futures.ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
            list(ex.map(one, todo))
        r = subprocess.run(["clang++", *objs, "-o", f"{exe}.{pid}", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
                           stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise RuntimeError("cannot link: " + r.stderr[-2000:])
        os.rename(f"{exe}.{pid}", exe)
    return exe


def _cc(args, gen, repo):
    r = subprocess.run(["clang++", "-std=c++17", "-O0", "-w", "-ferror-limit=5", f"-I{MLIR}", f"-I{gen}/inc", f"-I{repo}/include",
                        f"-I{repo}/{D}/Transforms", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18", *args],
                       stderr=subprocess.PIPE, text=True, timeout=600)
    if r.returncode:
        raise RuntimeError("cannot compile: " + r.stderr[:2000])


class Server:
    def __init__(self, exe):
        self.exe, self.p, self.owner = exe, None, None

    def ask(self, req):
        """the reply; a server that dies leaves {'crash': ...}"""
        if self.p is None or self.owner != os.getpid() or self.p.poll() is not None:
            self.owner = os.getpid()
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            l = ""
        if not l:
            rc = self.p.wait()
            self.p = None
            return {"ok": False, "crash": f"the process ends with {'no answer after 60 s' if rc == -14 else f'signal {-rc}'}",
                    "failed": "?", "diags": [], "fired": {}}
        r = json.loads(l)
        if isinstance(r, dict) and "error" in r:
            raise ValueError(r["error"])
        return r

    def run(self, ops, pipeline, **kw):
        return self.ask(dict(ops=ops, pipeline=pipeline, **kw))


# ---------------------------------------------------------------- building modules
def q(s):
    return json.dumps(s)


def f64(x):
    return "0fx%016X : f64" % struct.unpack("<Q", struct.pack("<d", x))[0]


def i64(x):
    return f"{int(x)} : i64"


class B:
    """builds the block of a function"""

    def __init__(self):
        self.n, self.ops, self.args, self.types, self.consts = 0, [], [], {}, {}

    def new(self, t):
        self.types[self.n] = t
        self.n += 1
        return self.n - 1

    def arg(self, t):
        v = self.new(t)
        self.args.append([v, t])
        return v

    def op(self, n, o, rt, a=None):
        rs = [[self.new(t), t] for t in rt]
        d = {"n": n, "o": list(o), "r": rs}
        if a:
            d["a"] = a
        self.ops.append(d)
        return [r[0] for r in rs]

    def const(self, v):
        k = (type(v).__name__, repr(v))
        if k in self.consts:
            return self.consts[k]
        if v is None:
            r = self.op("torch.constant.none", [], ["!torch.none"])
        elif isinstance(v, bool):
            r = self.op("torch.constant.bool", [], ["!torch.bool"], {"value": "true" if v else "false"})
        elif isinstance(v, int):
            r = self.op("torch.constant.int", [], ["!torch.int"], {"value": i64(v)})
        elif isinstance(v, float):
            r = self.op("torch.constant.float", [], ["!torch.float"], {"value": f64(v)})
        elif isinstance(v, str):
            r = self.op("torch.constant.str", [], ["!torch.str"], {"value": q(v)})
        else:
            raise TypeError(type(v))
        self.consts[k] = r[0]
        return r[0]

    def func(self, name, results, **attrs):
        ins = ", ".join(t for _, t in self.args)
        outs = ", ".join(self.types[r] for r in results)
        ops = self.ops + [{"n": "func.return", "o": list(results), "r": []}]
        return {"n": "func.func", "o": [], "r": [], "a": {"sym_name": q(name), "function_type": f"type ({ins}) -> ({outs})", **attrs},
                "g": [[{"args": self.args, "ops": ops}]]}


# ---------------------------------------------------------------- executing modules
class Val:
    __slots__ = ("type",)

    def __init__(self, t):
        self.type = t


class Att:
    def __init__(self, value, type=None, data=None):
        self.value, self._type, self.data = value, type, data

    @property
    def type(self):
        return self._type


class Obj:
    pass


_types = {}


def ptype(s):
    t = _types.get(s)
    if t is None:
        if s.startswith("("):  # a function
            t = F.FunctionType.__new__(F.FunctionType)
            t.asm = s
        else:
            t = F.Type.parse(s, context())
        _types[s] = t
    return t


_ctx = None


def context():
    global _ctx
    if _ctx is None:
        _ctx = F.Context()
    return _ctx


def pattr(s):
    import numpy as np

    if s in ("true", "false"):
        return Att(s == "true", F.IntegerType.get_signless(1, context()))
    if s[0] == '"':
        return Att(unquote(s))
    if s[0] == "@":
        return Att(s[1:].strip('"'))
    if s.startswith("0fx"):
        h, t = s[3:].split(" : ")
        f = {"f64": lambda: struct.unpack("<d", struct.pack("<Q", int(h, 16)))[0],
             "f32": lambda: struct.unpack("<f", struct.pack("<I", int(h, 16)))[0]}.get(t)
        return Att(f() if f else int(h, 16), ptype(t))
    if s.startswith(("dense<", "splat<", "resource<")):
        body, t = s.split("> : ", 1)
        kind, body = body.split("<", 1)
        if kind == "resource":
            body = body.split(",", 1)[1].strip()
        ty = ptype(t)
        n = 1
        for d in ty.dims:
            n *= d
        import torch

        from . import interp as I
        dt = I.DT[str(ty.element_type)]
        raw = elements(body, kind, n, dt)
        return Att(None, ty, np.frombuffer(raw, dtype=np.uint8))
    if s[0].isdigit() or s[0] == "-":
        v, _, t = s.partition(" : ")
        return Att(int(v), ptype(t) if t else None)
    return Att(s)


def elements(body, kind, n, dt):
    """the bytes of a dense attribute whose elements are given as hexadecimal numbers"""
    size = dt.itemsize
    xs = [x for x in body.replace(",", " ").split() if x]
    out = bytearray()
    for x in xs:
        if dt.is_complex:
            for h in x.strip("()").split("|"):
                out += int(h, 16).to_bytes(size // 2, "little")
        else:
            out += int(x, 16).to_bytes(max(size, 1), "little")
    if kind == "splat":
        out = out * n
    return bytes(out)


def unquote(s):
    assert s[0] == '"' and s[-1] == '"'
    out, i, s = bytearray(), 0, s[1:-1].encode()
    while i < len(s):
        if s[i] == 92:
            if s[i + 1] in (92, 34):
                out.append(s[i + 1])
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(s[i])
            i += 1
    return out.decode("utf-8", "replace")


def load_block(b, env):
    blk = Obj()
    blk.arguments, blk._ops = [], []
    for i, t in b["args"]:
        env[i] = v = Val(ptype(t))
        blk.arguments.append(v)
    for o in b["ops"]:
        blk._ops.append(load_op(o, env))
    return blk


def load_op(o, env):
    op = Obj()
    op.name = o["n"]
    op._operands = [env[i] for i in o["o"]]
    op.attributes = {k: pattr(v) for k, v in o.get("a", {}).items()}
    op._regions = []
    for g in o.get("g", []):
        r = Obj()
        r._blocks = [load_block(b, dict(env)) for b in g]
        op._regions.append(r)
    op._results = []
    for i, t in o["r"]:
        env[i] = v = Val(ptype(t))
        op._results.append(v)
    return op


def load_module(ops):
    m = Obj()
    m.operation = m
    m.body = Obj()
    env = {}
    m.body._ops = [load_op(o, env) for o in ops]
    return m


def walk(ops):
    for o in ops:
        yield o
        for g in o.get("g", []):
            for b in g:
                yield from walk(b["ops"])


def make_exec():
    import torch

    from . import jitir
    from .interp import InterpError

    class Exec(jitir.Jit):
        def __init__(self, ops, step_limit=100000, hooks=None):
            self.syms, self.steps, self.step_limit, self.hooks = {}, 0, step_limit, hooks or {}
            self.ops_run, self.events, self.env, self.objects = 0, [], {}, []
            self.symbols, self.onnx_exec, self.loop_limit, self.bind_checked = None, None, 10000, 0
            for o in load_module(ops).body._ops:
                s = o.attributes.get("sym_name")
                if s is not None:
                    if s.value in self.syms:
                        raise InterpError(f"duplicate symbol {s.value}")
                    self.syms[s.value] = o
            self.funcs = self.syms

        def op(self, op, a, env):
            n = op.name
            if n == "torch.runtime.assert":
                if a[0] is not True:
                    raise InterpError("an assertion fails: " + op.attributes["message"].value)
                return []
            if n in ("torch.aten.remainder.int", "torch.aten.floordiv.int") and a[1] == 0:
                raise jitir.Raised("division by zero")  # takes the process with it
            if n in ("torch.copy.to_vtensor", "torch.copy.to_tensor"):
                return [a[0].clone()]
            if n == "torch.overwrite.tensor.contents":
                if a[0].shape != a[1].shape or a[0].dtype != a[1].dtype:
                    raise InterpError("overwrite with another shape or type")
                a[1].copy_(a[0])
                return []
            if n == "torch.aten.convolution" and a[7] == [] and a[6] is False:
                a = a[:7] + [[0] * len(a[3])] + a[8:]  # the padding of an output that is not computed that way
            # a value tensor has no strides: those PyTorch's results happen to have are not what the program means
            return [r.contiguous() if type(r) is torch.Tensor and r.layout == torch.strided else r
                    for r in super().op(op, a, env)]

        def call(self, fname, args, check_args=True):
            b = self.syms[fname]._regions[0]._blocks[0]
            if len(args) != len(b.arguments):
                raise InterpError(f"{fname}: {len(args)} arguments for {len(b.arguments)} parameters")
            env = {}
            for i, (a, v) in enumerate(zip(b.arguments, args)):
                jitir.check_type(v, a.type, f"argument {i} of {fname}")
                env[a] = v
            return self.block(b, env)

    return Exec

"""Executes the IR built by the real importers (on mc.fakemlir) on concrete tensors.

Every op of the torch dialect that mirrors a PyTorch operator is executed by
calling that operator; so what is judged is the MEANING of the imported
program.  Every declared result type is checked against the run-time value.
"""
import numpy as np
import torch

from . import fakemlir as F

DT = {
    "f16": torch.float16, "bf16": torch.bfloat16, "f32": torch.float32, "f64": torch.float64,
    "ui8": torch.uint8, "si8": torch.int8, "si16": torch.int16, "si32": torch.int32,
    "si64": torch.int64, "i1": torch.bool, "complex<f16>": torch.complex32,
    "complex<f32>": torch.complex64, "complex<f64>": torch.complex128,
    "ui16": torch.uint16, "ui32": torch.uint32, "ui64": torch.uint64,
    "f8E5M2": torch.float8_e5m2, "f8E4M3FN": torch.float8_e4m3fn,
    "f8E5M2FNUZ": torch.float8_e5m2fnuz, "f8E4M3FNUZ": torch.float8_e4m3fnuz,
    "!torch.qint8": torch.qint8, "!torch.quint8": torch.quint8,
}
if hasattr(torch, "float8_e8m0fnu"):
    DT["f8E8M0FNU"] = torch.float8_e8m0fnu
if hasattr(torch, "float4_e2m1fn_x2"):
    DT["f4E2M1FN"] = torch.float4_e2m1fn_x2

# c10::ScalarType numbering of the torch dialect (TorchUpstream.h), which is what
# a dtype operand of a torch.aten op means.  (PyTorch's own numbers agree up to 26.)
INT_TO_DTYPE = {
    0: torch.uint8, 1: torch.int8, 2: torch.int16, 3: torch.int32, 4: torch.int64,
    5: torch.float16, 6: torch.float32, 7: torch.float64, 8: torch.complex32,
    9: torch.complex64, 10: torch.complex128, 11: torch.bool, 12: torch.qint8,
    13: torch.quint8, 14: torch.qint32, 15: torch.bfloat16, 23: torch.float8_e5m2,
    24: torch.float8_e4m3fn, 25: torch.float8_e5m2fnuz, 26: torch.float8_e4m3fnuz,
}
if hasattr(torch, "float8_e8m0fnu"):
    INT_TO_DTYPE[28] = torch.float8_e8m0fnu
if hasattr(torch, "float4_e2m1fn_x2"):
    INT_TO_DTYPE[29] = torch.float4_e2m1fn_x2


class InterpError(Exception):
    pass


class TypeSoundness(InterpError):
    pass


def literal_tensor(attr, dtype=None):
    """Decode a Dense*ElementsAttr to a torch tensor (bit exact)."""
    d = np.ascontiguousarray(attr.data)
    td = DT[str(attr._type.element_type)] if dtype is None else dtype
    if d.size == 0:
        return torch.empty(list(attr._type.dims), dtype=td)
    return torch.frombuffer(bytearray(d.tobytes()), dtype=td).reshape(list(attr._type.dims)).clone()


def check_type(v, t, where=""):
    if not isinstance(t, F.TorchType):
        raise TypeSoundness(f"{where}: non-torch type {t}")
    k = t.kind

    def bad(m=""):
        raise TypeSoundness(f"{where}: value {short(v)} does not inhabit {t} {m}")

    if k in ("vtensor", "tensor"):
        if not isinstance(v, torch.Tensor):
            bad()
        if t.dims is not None:
            if v.dim() != len(t.dims):
                bad("rank")
            for a, b in zip(v.shape, t.dims):
                if b is not None and a != b:
                    bad("size")
        if t.dtype is not None and DT[str(t.dtype)] != v.dtype:
            bad(f"dtype {v.dtype}")
        if t.encoding is not None:
            if v.layout == torch.strided:
                bad("encoding on dense")
        return
    if k == "list":
        if not isinstance(v, (list, tuple)):
            bad()
        for x in v:
            check_type(x, t.elem, where)
        return
    if k == "optional":
        if v is not None:
            check_type(v, t.elem, where)
        return
    if k == "tuple":
        if not isinstance(v, tuple) or len(v) != len(t.elems):
            bad()
        for x, e in zip(v, t.elems):
            check_type(x, e, where)
        return
    ok = {
        "int": lambda: type(v) is int,
        "float": lambda: type(v) is float,
        "bool": lambda: type(v) is bool,
        "number": lambda: type(v) in (int, float),
        "str": lambda: isinstance(v, str),
        "none": lambda: v is None,
        "Device": lambda: isinstance(v, torch.device),
        "any": lambda: True,
        "Generator": lambda: True,
    }.get(k)
    if ok is None or not ok():
        bad()


def short(v):
    if isinstance(v, torch.Tensor):
        try:
            return f"tensor{tuple(v.shape)}:{str(v.dtype)[6:]}={v.flatten()[:6].tolist()}"
        except Exception:
            return f"tensor{tuple(v.shape)}:{v.dtype}"
    return f"{type(v).__name__}:{v!r}"[:160]


def resolve(name):
    """'torch.aten.add.Tensor' -> OpOverload"""
    parts = name.split(".")
    if parts[0] != "torch" or len(parts) < 3:
        raise InterpError(f"not a torch op: {name}")
    ns, op = parts[1], parts[2]
    ov = ".".join(parts[3:]) or "default"
    try:
        return getattr(getattr(getattr(torch.ops, ns), op), ov)
    except (AttributeError, RuntimeError) as e:
        raise InterpError(f"unknown op {name}: {e}")


class Interp:
    def __init__(self, module, symbols=None, hooks=None, onnx_exec=None, loop_limit=10000):
        self.m = module.operation
        self.funcs = {}
        for o in module.body._ops:
            n = F._sym(o)
            if n is not None:
                if n in self.funcs:
                    raise InterpError(f"duplicate symbol {n}")
                self.funcs[n] = o
        self.symbols = symbols
        self.hooks = hooks or {}
        self.onnx_exec = onnx_exec
        self.ops_run = 0
        self.loop_limit = loop_limit
        self.bind_checked = 0
        self.events = []

    def call(self, fname, args, check_args=True):
        f = self.funcs.get(fname)
        if f is None:
            raise InterpError(f"no function {fname}; have {list(self.funcs)}")
        b = f._regions[0]._blocks[0]
        if len(args) != len(b.arguments):
            raise InterpError(f"{fname}: {len(args)} args for {len(b.arguments)} params")
        env = {}
        for i, (a, v) in enumerate(zip(b.arguments, args)):
            if check_args:
                check_type(v, a.type, f"arg {i} of {fname}")
            env[a] = v
        return self.block(b, env)

    def block(self, b, env):
        for op in b._ops:
            if op.name == "func.return":
                return [env[v] for v in op._operands]
            if op.name == "torch.prim.Loop.condition":
                return [env[v] for v in op._operands]
            res = self.op(op, [env[v] for v in op._operands], env)
            if len(res) != len(op._results):
                raise InterpError(f"{op.name}: {len(res)} results, declared {len(op._results)}")
            for v, r in zip(op._results, res):
                if not isinstance(v.type, F.TorchType) and op.name.startswith("x."):
                    pass
                else:
                    check_type(r, v.type, op.name)
                env[v] = r
        raise InterpError("block without terminator")

    def op(self, op, a, env):
        self.ops_run += 1
        n = op.name
        at = op.attributes
        if n in self.hooks:
            return self.hooks[n](self, op, a)
        if n == "torch.operator":
            name = at["name"].value
            if name.startswith("onnx."):
                return self.onnx_exec(self, op, name, a, env)
            return self.torch_op(name, a)
        if n.startswith("torch.constant."):
            k = n.rsplit(".", 1)[1]
            if k == "none":
                return [None]
            v = at["value"]
            if k == "int":
                if v._type.width != 64:
                    raise InterpError("constant.int width")
                return [int(v.value)]
            if k == "bool":
                return [bool(v.value)]
            if k == "float":
                if str(v._type) != "f64":
                    raise InterpError("constant.float width")
                return [float(v.value)]
            if k == "str":
                return [v.value]
            if k == "device":
                return [torch.device(v.value)]
            if k == "number":
                return [v.value]
        if n == "torch.vtensor.literal":
            v = at["value"]
            rt = op._results[0].type
            if str(v._type.element_type) != str(rt.dtype):
                raise TypeSoundness(f"literal element type {v._type} vs {rt}")
            return [literal_tensor(v)]
        if n == "torch.prim.ListConstruct":
            return [list(a)]
        if n == "torch.prim.ListUnpack":
            return list(a[0])
        if n == "torch.prim.NumToTensor.Scalar":
            t = op._results[0].type
            return [torch.tensor(a[0], dtype=DT[str(t.dtype)] if t.dtype is not None else None)]
        if n == "torch.copy.to_vtensor" or n == "torch.copy.to_tensor":
            return [a[0].clone()]
        if n == "torch.overwrite.tensor.contents":
            value, dst = a
            if value.shape != dst.shape or value.dtype != dst.dtype:
                raise InterpError(f"overwrite {short(dst)} with {short(value)}")
            dst.copy_(value)
            return []
        if n == "torch.derefine":
            return [a[0]]
        if n == "torch.tensor_static_info_cast":
            return [a[0]]
        if n == "torch.prim.Loop":
            maxit, cond, carry = a[0], a[1], list(a[2:])
            it = 0
            body = op._regions[0]._blocks[0]
            while cond and it < maxit:
                if it > self.loop_limit:
                    raise InterpError("loop limit")
                e = dict(env)
                vals = [it] + carry
                if len(vals) != len(body.arguments):
                    raise InterpError("loop arity")
                for ba, v in zip(body.arguments, vals):
                    check_type(v, ba.type, "loop arg")
                    e[ba] = v
                r = self.block(body, e)
                cond, carry = r[0], r[1:]
                it += 1
            return carry
        if n == "func.call":
            r = self.call(at["callee"].value, a)
            return r
        if n == "torch.symbolic_int":
            name = at["symbol_name"].value
            if self.symbols is None:
                return [0]
            if name not in self.symbols:
                raise InterpError(f"unknown symbol {name}")
            v = self.symbols[name]
            lo, hi = at["min_val"].value, at["max_val"].value
            self.events.append(("sym", name, lo, hi))
            if not lo <= v <= hi:
                raise TypeSoundness(f"symbol {name}={v} outside declared [{lo},{hi}]")
            return [v]
        if n == "torch.bind_symbolic_shape":
            m = at["shape_expressions"].value
            if len(a) - 1 != m.n_symbols:
                raise InterpError("bind_symbolic_shape arity")
            if self.symbols is not None:
                sh = [e.eval(a[1:]) for e in m.results]
                self.bind_checked += 1
                if list(a[0].shape) != sh:
                    raise TypeSoundness(f"bind_symbolic_shape says {sh} for {short(a[0])}")
            return []
        if n.startswith("torch."):
            return self.torch_op(n, a)
        raise InterpError(f"cannot execute {n}")

    def torch_op(self, n, a):
        if n == "torch.aten.remainder.float":
            return [a[0] % a[1]]  # TorchScript's runtime rounds these two differently
        if n == "torch.aten.floordiv.float":
            return [a[0] // a[1]]
        f = resolve(n)
        sch = f._schema
        if len(a) != len(sch.arguments):
            raise InterpError(f"{n}: {len(a)} operands for schema {sch}")
        pos, kw = [], {}
        for v, arg in zip(a, sch.arguments):
            if type(v) is int and "ScalarType" in str(arg.real_type):
                if v not in INT_TO_DTYPE:
                    raise TypeSoundness(f"{n}: {arg.name}={v} is not a ScalarType")
                v = INT_TO_DTYPE[v]
            if arg.kwarg_only:
                kw[arg.name] = v
            else:
                pos.append(v)
        r = f(*pos, **kw)
        if len(sch.returns) == 0:
            return []
        if len(sch.returns) == 1:
            return [r]
        return list(r)


def same(a, b, rtol=0.0, atol=0.0):
    """structural equality; exact (NaN == NaN) unless a tolerance is given"""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.numel() == 0:
            return True
        if a.layout != torch.strided or b.layout != torch.strided:
            a, b = a.to_dense(), b.to_dense()
        if str(a.dtype).startswith("torch.float8") or str(a.dtype).startswith("torch.float4"):
            return bool((a.contiguous().view(torch.uint8) == b.contiguous().view(torch.uint8)).all())
        if a.is_quantized:
            a, b = a.int_repr(), b.int_repr()
        if rtol == 0 and atol == 0:
            if a.dtype in (torch.complex32,):
                a, b = torch.view_as_real(a), torch.view_as_real(b)
            eq = (a == b) | ((a != a) & (b != b))
            return bool(eq.all())
        if a.is_floating_point() or a.is_complex():
            if a.dtype in (torch.complex32,):
                a, b = torch.view_as_real(a), torch.view_as_real(b)
            return bool(torch.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        return bool((a == b).all())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if type(a) != type(b):
        return False
    if isinstance(a, float):
        if a != a and b != b:
            return True
        if rtol or atol:
            return a == b or abs(a - b) <= atol + rtol * abs(b)
    return a == b

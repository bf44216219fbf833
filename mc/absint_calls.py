"""Enumeration of operator calls for the abstract interpretation library.

Every operator with a library function gets a set of base calls (the arguments its own tests
use, or, where it has none, the first ones PyTorch accepts out of a fixed list). The calls
explored are all those which differ from a base call in at most `width` parameters, each
taken from a finite domain given by the parameter's type.
"""
import inspect
import itertools
import json
import os
import pickle
import resource
import signal

import torch

from . import absint as A
from .core import VERIF

DTYPES = [torch.bool, torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.bfloat16,
          torch.float16, torch.float32, torch.float64, torch.complex64, torch.complex128]


class T:
    """a tensor argument"""

    __slots__ = ("shape", "dtype", "stride")

    def __init__(self, shape, dtype=torch.float32, stride=None):
        self.shape, self.dtype, self.stride = tuple(shape), dtype, stride

    def __repr__(self):
        return f"{str(self.dtype)[6:]}{list(self.shape)}" + (f"@{list(self.stride)}" if self.stride else "")

    def __eq__(self, o):
        return isinstance(o, T) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def make(self, device):
        if self.stride is not None:
            return torch.empty_strided(self.shape, self.stride, dtype=self.dtype, device=device)
        t = torch.empty(self.shape, dtype=self.dtype, device=device)
        if device != "meta":
            t = t.view(torch.uint8).fill_(1) if "float4" in str(self.dtype) else t.fill_(1)
        return t


def show(x):
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(show(y) for y in x) + "]"
    if isinstance(x, (torch.dtype, torch.layout, torch.memory_format)):
        return str(x)[6:]
    return repr(x)


def limit_memory():
    """a call that allocates without bound fails instead of taking the machine's memory"""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, hard))


def quiet():
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 2)
    os.close(n)


class Oracle:
    """runs operators on the CPU in a process of its own: some calls take theirs with them"""

    def __init__(self):
        self.pid = None
        self.owner = None

    def ask(self, op, call, device):
        if self.owner != os.getpid():
            self._start()
        try:
            pickle.dump((op.name, call, device), self.w)
            self.w.flush()
            return pickle.load(self.r)
        except (EOFError, OSError, pickle.UnpicklingError):
            self._reap()
            return ("raise", "crashed")

    def _reap(self):
        for f in (self.w, self.r):
            try:
                f.close()
            except OSError:
                pass
        os.waitpid(self.pid, 0)
        self.owner = None

    def _start(self):
        a, b = os.pipe(), os.pipe()
        self.owner = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                quiet()
                limit_memory()
                r, w = os.fdopen(a[0], "rb"), os.fdopen(b[1], "wb")
                while True:
                    name, call, device = pickle.load(r)
                    signal.setitimer(signal.ITIMER_REAL, 20)  # ends this process
                    pickle.dump(_by_name[name].run_op(call, device), w)
                    w.flush()
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except BaseException:
                pass
            os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.pid = pid
        self.w, self.r = os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")


# operators whose inference of shapes divides by zero, or never ends
UNSAFE = {"aten〇scaled_dot_product_attention", "aten〇to〇prim_Device"}
_oracle = Oracle()
_by_name = {}


class Op:
    def __init__(self, name, funcs, invs):
        self.name = name
        p = name.split("〇")
        self.title = ".".join(p)
        self.op = None
        try:
            self.op = getattr(getattr(getattr(torch.ops, p[0]), p[1]), p[2] if len(p) > 2 else "default")
        except AttributeError:
            pass
        self.f = {k: funcs.get(f"{name}〡{k}") for k in ("shape", "dtype")}
        self.inv_by = {k: [i for i in invs.get(f"{name}〡{k}", []) if not i.is_expected_to_raise_exception()]
                       for k in ("shape", "dtype")}
        self.inv = self.inv_by["shape"] + self.inv_by["dtype"]
        self.errinv = [i for k in ("shape", "dtype") for i in invs.get(f"{name}〡{k}", [])
                       if i.is_expected_to_raise_exception()]
        self.params = []  # (name, type, kwarg_only, default or None, has default)
        if self.op is not None:
            for a in self.op._schema.arguments:
                t = str(getattr(a, "real_type", a.type))
                d = a.default_value
                if t == "Optional[ScalarType]" or t == "ScalarType":
                    d = d
                self.params.append((a.name, t, a.kwarg_only, d, a.has_default_value()))
            self.mutable = self.op._schema.is_mutable
        else:
            f = self.f["shape"] or self.f["dtype"]
            for q in inspect.signature(f).parameters.values():
                n, t = q.name, str(q.annotation)
                if n.endswith("_rank_dtype"):
                    n, t = n[:-11], t.replace("typing.Tuple[int, int]", "Tensor")
                self.params.append((n, t, False, q.default, q.default is not q.empty))
            self.mutable = False
        # in a shape function a tensor is a list of ints: its type comes from the operator

    def sig(self, kind):
        return list(inspect.signature(self.f[kind]).parameters.values())

    # -- calls
    def from_invocation(self, inv):
        """-> (call, device) or None"""
        dev = ["meta"]

        def tr(x):
            if type(x).__name__ == "TensorOfShape":
                if str(x.device) != "meta":
                    dev[0] = "cpu"
                return T(x.shape, x.dtype, x.stride)
            if isinstance(x, (list, tuple)):
                return [tr(y) for y in x]
            return x

        vals = {}
        for (n, *_), v in zip(self.params, inv.args):
            vals[n] = tr(v)
        for n, v in inv.kwargs.items():
            vals[n] = tr(v)
        call = []
        for n, t, kw, d, hd in self.params:
            if n in vals:
                call.append(vals[n])
            elif hd:
                call.append(self.default(t, d))
            else:
                return None
        return tuple(call), dev[0]

    @staticmethod
    def default(t, d):
        if "ScalarType" in t and isinstance(d, int):
            return next(x for x in DTYPES if A.dtype_code(x) == d)
        if "MemoryFormat" in t and isinstance(d, int):
            return [torch.contiguous_format, torch.preserve_format, torch.channels_last][d]
        if isinstance(d, (list, tuple)):
            return list(d)
        return d

    def fn_args(self, kind, call):
        """arguments for the library function, in order"""
        ps = self.sig(kind)
        out = []
        for p, v in zip(ps, call):
            out.append(self._conv(v, kind, p.annotation))
        return out

    def _conv(self, v, kind, ann):
        if isinstance(v, T):
            return list(v.shape) if kind == "shape" else (len(v.shape), v.dtype)
        if isinstance(v, (list, tuple)):
            return [self._conv(x, kind, None) for x in v]
        if isinstance(v, int) and not isinstance(v, bool) and ann is not None and ann in (float, "float") or \
                (isinstance(v, int) and not isinstance(v, bool) and str(ann) == "typing.Optional[float]"):
            return float(v)
        return v

    def run_fn(self, kind, call):
        """('ok', value) or ('raise', text)"""
        try:
            r = self.f[kind](*self.fn_args(kind, call))
        except RecursionError:
            raise
        except Exception as e:
            return ("raise", f"{type(e).__name__}: {e}"[:120])
        return ("ok", A.wild(A.to_lib(r)))

    def run_lib(self, lib, kind, call):
        try:
            r = lib(f"__torch_mlir_{kind}_fn.{self.title}", *A.to_lib(self.fn_args(kind, call)))
        except Exception as e:
            return ("raise", f"{type(e).__name__}: {e}"[:120])
        return ("ok", A.wild(r))

    def run_op(self, call, device):
        """('ok', [(shape, dtype code) ...nested]) or ('raise', text)"""
        if device == "cpu" or self.name in UNSAFE and not device.endswith("!"):
            return _oracle.ask(self, call, device + "!")
        device = device.rstrip("!")

        def tr(x):
            if isinstance(x, T):
                return x.make(device)
            if isinstance(x, (list, tuple)):
                return [tr(y) for y in x]
            return x

        args, kw = [], {}
        try:
            for (n, t, k, d, hd), v in zip(self.params, call):
                v = tr(v)
                if "Device" in t and v is None and not any(isinstance(x, T) for x in call):
                    v = torch.device(device)
                if k:
                    kw[n] = v
                else:
                    args.append(v)
            r = self.op(*args, **kw)
        except Exception as e:
            return ("raise", f"{type(e).__name__}: {e}"[:160])
        return ("ok", self._res(r))

    def _res(self, r):
        if isinstance(r, torch.Tensor):
            return (tuple(r.shape), r.dtype)
        if isinstance(r, (list, tuple)):
            return [self._res(x) for x in r]
        return ("value", type(r).__name__)


def defined(o, call):
    """False for calls outside the operator's contract that PyTorch does not check"""
    a = {n: v for (n, *_), v in zip(o.params, call)}
    n = o.name
    if "conv" in n and n != "aten〇conv_tbc":  # no channels: PyTorch returns early, with other extents
        return not any(isinstance(v, T) and len(v.shape) > 1 and 0 in v.shape[:2] for v in call)
    if n in ("aten〇batch_norm", "aten〇instance_norm"):
        return len(a["input"].shape) >= 2
    if n in ("quantized_decomposed〇quantize_per_channel", "quantized_decomposed〇dequantize_per_channel"):
        s, k = a["input"].shape, a["axis"]
        return -len(s) <= k < len(s) and all(t is None or t.shape == (s[k],) for t in (a["scales"], a["zero_points"]))
    if n == "aten〇repeat_interleave〇Tensor":
        return a["output_size"] in (None, a["repeats"].shape[0] if a["repeats"].shape else 1)
    if n == "aten〇to〇prim_Device":  # PyTorch reads the element type, though none is given
        return not (a["device"] is None and a["dtype"] is None and a["copy"])
    if n == "aten〇rrelu_with_noise_backward":
        return a["noise"].shape == a["self"].shape == a["grad_output"].shape
    return True


def expected(kind, res, op=None):
    """what the library function should return for the operator's result"""
    if isinstance(res, list):
        if kind == "dtype" and op is not None and [str(r.type) for r in op.op._schema.returns] == ["List[Tensor]"]:
            # a list of tensors: (rank, dtype) of each
            return [(len(x[0]), A.dtype_code(x[1])) for x in res]
        return [expected(kind, x) for x in res]
    if res[0] == "value":
        return None
    return list(res[0]) if kind == "shape" else A.dtype_code(res[1])


def matches(got, exp):
    """library result (tuples for several results) against expected()"""
    if got == "?":
        return isinstance(exp, int)
    if exp is None:
        return True  # no tensor here
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)) or len(got) != len(exp):
            return False
        return all(matches(g, e) for g, e in zip(got, exp))
    return got == exp and isinstance(got, bool) == isinstance(exp, bool)


# ---------------------------------------------------------------- domains
SHAPES = [(), (1,), (2,), (3,), (0,), (2, 3), (1, 3), (2, 1), (3, 3), (0, 3), (2, 3, 4), (1, 2, 1), (2, 2, 3, 4),
          (1, 3, 5, 5), (1, 2, 3, 4, 5)]
INTS = [-3, -2, -1, 0, 1, 2, 3]
LISTS = [[], [0], [1], [-1], [2], [0, 1], [1, 0], [-1, -2], [2, 3], [1, 1], [0, 0], [2, -1], [1, 1, 1], [2, 3, 4],
         [0, 2, 1]]
STRS = ["none", "tanh", "sum", "prod", "mean", "amax", "amin", "floor", "trunc", "ij", "xy", "bilinear", "nearest",
        "constant", "reflect", "replicate", "circular", "bicubic", "linear"]


def near_shapes(s):
    out = [s]
    for i in range(len(s)):
        for v in (0, 1, 2, s[i] + 1):
            out.append(s[:i] + (v,) + s[i + 1:])
        out.append(s[:i] + s[i + 1:])
    out += [(1,) + s, (2,) + s, s + (1,), s + (3,)]
    return out


def near_list(l):
    out = [l]
    for i in range(len(l)):
        for v in (-1, 0, 1, 2, l[i] + 1 if isinstance(l[i], int) else 1):
            out.append(l[:i] + [v] + l[i + 1:])
        out.append(l[:i] + l[i + 1:])
    out.append(l + [1])
    if l:
        out.append(l + [l[-1]])
    return out


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        k = show(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def domain(t, v, kind, name=""):
    """alternatives for a parameter of schema type t whose base value is v"""
    opt = t.startswith("Optional[")
    b = t[9:-1] if opt else t
    out = []
    if b == "Tensor":
        if v is None:
            out = [T((2,)), T((2, 3)), T((3,))] if kind == "shape" else [T((2,), d) for d in DTYPES]
        elif kind == "shape":
            out = [T(s, v.dtype) for s in uniq(near_shapes(v.shape) + SHAPES)]
        else:
            out = [T(s, d) for s in uniq([v.shape, ()]) for d in DTYPES] + \
                [T(s, v.dtype) for s in ((1,), (2, 3), (2, 3, 4))]
    elif name in ("reduction", "mode") and b == "int":
        out = [0, 1, 2]
    elif b in ("int", "SymInt"):
        out = INTS + ([v - 1, v + 1] if isinstance(v, int) else []) if kind == "shape" else [0, 1]
    elif b in ("bool",):
        out = [False, True]
    elif b == "float":
        out = [0.0, 0.5, 1.0, 2.0, -0.5] if kind == "shape" else [0.5, 1.0]
    elif b in ("number", "Scalar"):
        out = [-1, 0, 1, 2, 3, 0.5, 2.5, -1.5] if kind == "shape" else [1, 0.5]
    elif b == "List[int]":
        out = (near_list(v) if isinstance(v, list) else []) + LISTS if kind == "shape" else [[0], [1]]
    elif b == "List[bool]":
        out = [list(x) for x in itertools.product([False, True], repeat=len(v or []))]
    elif b == "List[float]":
        out = [[1.0], [2.0], [0.5], [1.0, 2.0], [2.5, 0.5]]
    elif b == "ScalarType":
        out = DTYPES if kind == "dtype" else [torch.float32, torch.int64]
    elif b == "str":
        out = STRS
    elif b == "List[Tensor]" and isinstance(v, list) and v:
        if kind == "shape":
            out = [v[:1], v + v[:1]] + [v[:i] + [y] + v[i + 1:] for i, x in enumerate(v) if isinstance(x, T)
                                        for y in domain("Tensor", x, kind)]
        else:
            out = [v[:i] + [y] + v[i + 1:] for i, x in enumerate(v) if isinstance(x, T)
                   for y in domain("Tensor", x, kind)] + [v[:1]]
    elif b == "List[Optional[Tensor]]" and isinstance(v, list) and v:
        out = [[None] + v, v + [None]] + [v[:i] + [y] + v[i + 1:] for i, x in enumerate(v) if isinstance(x, T)
                                          for y in domain("Tensor", x, kind)[:8]]
    if opt:
        out = [None] + out
    return uniq([v] + out)


FILL = {
    "Tensor": [T((2, 3)), T((2, 3, 4)), T((3,)), T(()), T((2, 3), torch.int64), T((1, 2, 4, 4)), T((3, 3)),
               T((1, 2, 4, 4, 4)), T((2, 3), torch.bool)],
    "int": [1, 0, 2], "bool": [False], "float": [1.0, 0.5], "number": [1, 0.5], "List[int]": [[1], [2, 2], [0], [2, 3], [0, 1], []],
    "ScalarType": [torch.float32, torch.int64], "str": ["none", "nearest", "floor"], "List[Tensor]": [[T((2, 3)), T((2, 3))], [T((2, 3), torch.int64)]],
    "List[Optional[Tensor]]": [[T((2,), torch.int64)]], "Device": [torch.device("cpu")],
    "MemoryFormat": [torch.contiguous_format], "List[bool]": [[True, True, True]], "Layout": [torch.strided],
    "List[float]": [[2.0, 2.0]],
}


f32, i64 = torch.float32, torch.int64
# base calls of operators whose functions have no tests and whose arguments are particular
SEEDS = {
    "torchvision.roi_align": [((T((1, 2, 6, 6)), T((3, 5)), 1.0, 2, 3, 1, False), "meta")],
    "torchvision.roi_pool": [((T((1, 2, 6, 6)), T((3, 5)), 1.0, 2, 3), "meta")],
    "torchvision.nms": [((T((1, 4)), T((1,)), 0.5), "cpu")],
    "aten.quantize_per_channel": [((T((2, 3)), T((2,), torch.float64), T((2,), i64), 0, torch.qint8), "cpu")],
    "aten.grid_sampler": [((T((1, 2, 4, 5)), T((1, 3, 2, 2)), 0, 0, False), "meta"),
                          ((T((1, 2, 4, 5, 3)), T((1, 3, 2, 2, 3)), 0, 0, False), "meta")],
    "aten.__interpolate.size_list_scale_list": [((T((1, 2, 4, 5)), [3, 7], None, "nearest", None, None, False), "meta"),
                                                ((T((1, 2, 4, 5)), None, [2.0, 1.5], "nearest", None, None, False), "meta")],
    "aten._int_mm": [((T((17, 8), torch.int8), T((8, 16), torch.int8)), "meta")],
    "aten.repeat_interleave.Tensor": [((T((3,), i64), None), "cpu"), ((T((3,), i64), 3), "cpu")],
    "aten.max_unpool2d": [((T((1, 2, 2, 2)), T((1, 2, 2, 2), i64), [4, 4]), "cpu")],
    "aten.max_unpool3d": [((T((1, 2, 2, 2, 2)), T((1, 2, 2, 2, 2), i64), [4, 4, 4], [2, 2, 2], [0, 0, 0]), "cpu")],
    "aten.imag": [((T((2, 3), torch.complex64),), "meta")],
    "aten.view_as_complex": [((T((2, 3, 2)),), "meta")],
    "aten.conv_tbc": [((T((5, 2, 3)), T((3, 3, 4)), T((4,)), 0), "cpu")],
    "aten.batch_norm": [((T((2, 3, 4)), T((3,)), T((3,)), T((3,)), T((3,)), False, 0.1, 1e-5, False), "meta"),
                        ((T((2, 3, 4)), None, None, None, None, True, 0.1, 1e-5, False), "meta")],
    "aten.instance_norm": [((T((2, 3, 4)), T((3,)), T((3,)), None, None, True, 0.1, 1e-5, False), "meta"),
                           ((T((2, 3, 4)), None, None, T((3,)), T((3,)), False, 0.1, 1e-5, False), "meta")],
    "aten.replication_pad2d": [((T((2, 3, 4)), [1, 2, 0, 1]), "meta"), ((T((1, 2, 3, 4)), [0, 0, 1, 1]), "meta")],
    "aten.replication_pad3d": [((T((2, 3, 4, 2)), [1, 2, 0, 1, 1, 0]), "meta"),
                               ((T((1, 2, 3, 4, 2)), [0, 0, 1, 1, 0, 1]), "meta")],
    "quantized_decomposed.quantize_per_channel": [
        ((T((2, 3)), T((2,), torch.float32), T((2,), torch.int32), 0, -128, 127, torch.int8), "cpu")],
    "quantized_decomposed.dequantize_per_channel": [
        ((T((2, 3), torch.int8), T((2,), torch.float32), T((2,), torch.int32), 0, -128, 127, torch.int8, None), "cpu")],
}


PLAIN = [torch.float32, torch.int64, torch.bool]


def plainness(x):
    if isinstance(x, T):
        return PLAIN.index(x.dtype) if x.dtype in PLAIN else len(PLAIN)
    return sum(map(plainness, x)) if isinstance(x, (list, tuple)) else 0


BASES = os.path.join(VERIF, "data", "absint_bases.json")
MOST = 12
_frozen = None


def enc(x):
    """a call as JSON"""
    if isinstance(x, T):
        return {"T": [list(x.shape), str(x.dtype)[6:], list(x.stride) if x.stride else None]}
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, (torch.dtype, torch.layout, torch.memory_format)):
        return {"torch": str(x)[6:]}
    if isinstance(x, torch.device):
        return {"device": str(x)}
    if isinstance(x, complex):
        return {"complex": [x.real, x.imag]}
    assert x is None or isinstance(x, (bool, int, float, str)), x
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        (k, v), = x.items()
        if k == "T":
            return T(v[0], getattr(torch, v[1]), v[2])
        return getattr(torch, v) if k == "torch" else torch.device(v) if k == "device" else complex(*v)
    return x


def bases(o, limit):
    """base calls of an operator, with the device they run on

    Those of the operators the library had when this was written are kept in a file, so that the calls
    explored do not depend on the tests beside the library's functions."""
    global _frozen
    if _frozen is None:
        try:
            _frozen = json.load(open(BASES))
        except FileNotFoundError:
            _frozen = {}
    k = _frozen.get(o.name)
    if k is not None and o.op is not None and all(len(c) == len(o.params) for c, _ in k):
        return [(tuple(dec(c)), dev) for c, dev in k[:limit]]
    return find_bases(o, limit)


def find_bases(o, limit):
    out, seen = [], set()
    cands = [c for c in (o.from_invocation(i) for i in o.inv_by["shape"]) if c]
    # the tests of the dtype functions come in an order that differs from run to run
    cands += sorted((c for c in (o.from_invocation(i) for i in o.inv_by["dtype"]) if c),
                    key=lambda c: (plainness(c[0]), show(c[0]), c[1]))
    cands += SEEDS.get(o.title, [])

    def sig(c):  # calls of the same form teach little that is new
        return show([("T", len(x.shape)) if isinstance(x, T) else
                     ("L", len(x)) if isinstance(x, list) else type(x).__name__ for x in c])

    late = []
    for c, dev in cands:
        k = sig(c)
        if k not in seen and len(out) < limit:
            # one that PyTorch really executes, if there is any
            if o.op is None or o.run_op(c, "cpu")[0] == "ok":
                seen.add(k)
                out.append((c, dev))
            else:
                late.append((c, dev))
    for c, dev in late:
        k = sig(c)
        if k not in seen and len(out) < limit:
            seen.add(k)
            out.append((c, dev))
    if not out and o.op is not None:
        doms = []
        for n, t, kw, d, hd in o.params:
            if hd:
                doms.append([o.default(t, d)])
            elif t.startswith("Optional["):
                doms.append([None] + FILL.get(t[9:-1], [])[:2])
            else:
                doms.append(FILL.get(t, [None]))
        tried = 0
        for c in itertools.product(*doms):
            tried += 1
            if tried > 4000 or len(out) >= min(limit, 3):
                break
            for dev in ("meta", "cpu"):
                r = o.run_op(c, dev)
                if r[0] == "ok":
                    k = sig(c)
                    if k not in seen:
                        seen.add(k)
                        out.append((c, dev))
                    break
                if "Meta" not in r[1] and "meta" not in r[1]:
                    break
    return out


def calls(o, kind, base, width):
    """every call within `width` parameters of the base, each once, the base first"""
    seen = set()
    doms = [domain(t, v, kind, n) for (n, t, *_), v in zip(o.params, base)]
    idx = [i for i, d in enumerate(doms) if len(d) > 1]
    for w in range(width + 1):
        for ps in itertools.combinations(idx, w):
            for vs in itertools.product(*[doms[p][1:] for p in ps]):
                c = list(base)
                for p, v in zip(ps, vs):
                    c[p] = v
                k = show(c)
                if k not in seen:
                    seen.add(k)
                    yield tuple(c), k
    if kind == "dtype":
        tens = [i for i, v in enumerate(base) if isinstance(v, T) or
                (isinstance(v, list) and v and isinstance(v[0], T))]
        if len(tens) > 1:  # all floating tensors of one type, then one parameter changed
            for d in DTYPES:
                c = list(base)
                for i in tens:
                    def f(x):
                        return T(x.shape, d, x.stride) if isinstance(x, T) and x.dtype.is_floating_point else x
                    c[i] = [f(x) for x in c[i]] if isinstance(c[i], list) else f(c[i])
                ds = [domain(t, v, kind, n) for (n, t, *_), v in zip(o.params, c)]
                for ps in [()] + [(i,) for i in idx]:
                    for vs in itertools.product(*[ds[p][1:] for p in ps]):
                        e = list(c)
                        for p, v in zip(ps, vs):
                            e[p] = v
                        k = show(e)
                        if k not in seen:
                            seen.add(k)
                            yield tuple(e), k


def operators(funcs, invs):
    import torch.ao.quantization.fx._decomposed  # noqa: F401  registers its operators

    names = []
    for k in funcs:
        n = k[:k.index("〡")]
        if n not in names:
            names.append(n)
    out = []
    for n in names:
        if f"{n}〡shape" in funcs or f"{n}〡dtype" in funcs:
            out.append(Op(n, funcs, invs))
            _by_name[n] = out[-1]
    return out

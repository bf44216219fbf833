"""Modules with one call of an operator, and the judgement of what a pass leaves of them.

The operator is executed by PyTorch on concrete tensors; the module the pass leaves is executed too.  Both happen in
a process of their own, because some calls take theirs with them.
"""
import math
import os
import pickle
import signal

import torch

from . import absint as A
from . import absint_calls as C
from . import mlirpass as M
from .interp import DT, InterpError, TypeSoundness, short

T = C.T
ASM = {v: k for k, v in reversed(list(DT.items()))}
MEMORY = {torch.contiguous_format: 0, torch.preserve_format: 1, torch.channels_last: 2}


class Skip(Exception):
    pass


def ttype(shape, dtype, dyn=False):
    if dtype not in ASM:
        raise Skip(f"element type {dtype}")
    dims = ",".join("?" if dyn and d > 1 else str(d) for d in shape)
    return f"!torch.vtensor<[{dims}],{ASM[dtype]}>"


def operand(b, t, v, dyn, tensors, lit=None):
    opt = t.startswith("Optional[")
    k = t[9:-1] if opt else t
    if isinstance(v, T):
        if v.stride is not None:
            raise Skip("strides")
        tensors.append(v)
        if lit is not None:
            return literal(b, lit[len(tensors) - 1])
        return b.arg(ttype(v.shape, v.dtype, dyn))
    if v is None:
        return b.const(None)
    if isinstance(v, list):
        if k in ("List[Tensor]", "List[Optional[Tensor]]"):
            xs = [operand(b, "Optional[Tensor]", x, dyn, tensors, lit) for x in v]
            ts = {b.types[x] for x in xs}
            e = "optional<vtensor>" if k == "List[Optional[Tensor]]" else next(iter(ts))[7:] if len(ts) == 1 else "vtensor"
            return b.op("torch.prim.ListConstruct", xs, [f"!torch.list<{e}>"])[0]
        e = {"List[int]": "int", "List[float]": "float", "List[bool]": "bool", "List[SymInt]": "int"}.get(k)
        if e is None:
            raise Skip(f"a {k}")
        xs = [b.const(float(x) if e == "float" else x) for x in v]
        return b.op("torch.prim.ListConstruct", xs, [f"!torch.list<{e}>"])[0]
    if k == "ScalarType" or isinstance(v, torch.dtype):
        return b.const(A.dtype_code(v) if isinstance(v, torch.dtype) else v)
    if isinstance(v, torch.layout):
        if v != torch.strided:
            raise Skip("layout")
        return b.const(0)
    if isinstance(v, torch.memory_format):
        return b.const(MEMORY[v])
    if isinstance(v, torch.device):
        if v.type != "cpu":
            raise Skip("another device")
        return b.op("torch.constant.device", [], ["!torch.Device"], {"value": M.q(str(v))})[0]
    if k in ("List[int]", "List[float]", "List[bool]"):
        raise Skip("a number for a list")
    if k == "float" and isinstance(v, int) and not isinstance(v, bool):
        v = float(v)
    if k in ("int", "bool", "float", "number", "Scalar", "str", "SymInt"):
        if isinstance(v, complex):
            raise Skip("complex number")
        if k == "int" and isinstance(v, bool):
            v = int(v)
        return b.const(v)
    raise Skip(f"a {t}")


def literal_data(t):
    size = t.element_size()
    raw = t.contiguous().reshape(-1).view(torch.uint8).numpy().tobytes() if t.numel() else b""
    xs = ["%0*X" % (2 * size, int.from_bytes(raw[i:i + size], "little")) for i in range(0, len(raw), size)]
    return [str(int(x, 16)) for x in xs] if t.dtype == torch.bool else xs


def literal(b, t):
    if t.is_complex() or t.dtype not in ASM:
        raise Skip("a literal of this element type")
    ty = ttype(t.shape, t.dtype)
    if t.numel() > 1024 and not bool((t == t.flatten()[0]).all()):
        raise Skip("a large literal")
    if t.numel() > 1024:
        one = literal_data(t.flatten()[:1])
        return b.op("torch.vtensor.literal", [], [ty], {"value": f"splat<{one[0]}> : tensor<{'x'.join(map(str, t.shape))}x{ASM[t.dtype]}>"})[0]
    xs = literal_data(t)
    kind = "splat" if len(set(xs)) == 1 else "dense"
    shape = "x".join(str(d) for d in t.shape) + ("x" if t.dim() else "")
    a = f"{kind}<{','.join(xs[:1] if kind == 'splat' else xs)}> : tensor<{shape}{ASM[t.dtype]}>"
    return b.op("torch.vtensor.literal", [], [ty], {"value": a})[0]


def result_type(t, r, dyn):
    if isinstance(r, torch.Tensor):
        return ttype(r.shape, r.dtype, dyn)
    if isinstance(r, bool):
        return "!torch.bool"
    if isinstance(r, int):
        return "!torch.int"
    if isinstance(r, float):
        return "!torch.float"
    if isinstance(r, (list, tuple)):
        ts = {result_type(t, x, dyn) for x in r}
        if len(ts) == 1:
            return f"!torch.list<{next(iter(ts))[7:]}>"
        if all(x.startswith("!torch.vtensor") for x in ts) and ts:
            return "!torch.list<vtensor>"
    raise Skip(f"a result of type {type(r).__name__}")


def module(o, call, results, dyn=False, lit=None):
    """-> (function, the tensors that are its arguments)"""
    b, tensors = M.B(), []
    xs = [operand(b, t, v, dyn, tensors, lit) for (_, t, *_), v in zip(o.params, call)]
    rets = o.op._schema.returns
    rts = [result_type(str(r.type), v, dyn) for r, v in zip(rets, results)]
    rs = b.op("torch." + o.title, xs, rts)
    return b.func("main", rs), tensors


# ------------------------------------------------------------------ concrete values
def fill(t, k, i):
    """a tensor of the shape and type of t: the i-th argument under the k-th assignment of values"""
    if isinstance(k, tuple):  # all its elements alike
        v = fill(t, k[1], i)
        return torch.full_like(v, v.flatten()[-1]) if v.numel() else v
    n = 1
    for d in t.shape:
        n *= d
    ix = torch.arange(n, dtype=torch.int64) + 3 * i
    d = t.dtype
    if d == torch.bool:
        v = [ix * 7 % 3 == 1, ix * 5 % 2 == 0, torch.ones(n, dtype=torch.bool)][k % 3]
    elif d.is_floating_point or d.is_complex:
        s = ix * ix * 5 + ix * 7 + 3 + i
        if k == 0:
            v = (s % 23 - 11).double() / 4 + (s % 3).double() / 16
        elif k == 1:
            v = (s % 19 + 1).double() / 8
        elif k == 2:
            v = (s % 41 - 20).double() * 3
        else:
            v = torch.tensor([0.0, float("inf"), 1.0, float("nan"), -0.0, -float("inf"), -1.5, 0.5], dtype=torch.float64)[s % 8]
        if d.is_complex:
            v = torch.complex(v, v.flip(0) * 0.5 + 0.25) if n else v
    else:
        v = [(ix * 5 + 2) % 7 - 3, ix * 3 % 2, (ix * 13 + 5) % 90 - 40][k % 3]
        if k == 3:
            v = ix * 0
        if d == torch.uint8:
            v = v % 5 if k < 2 else v % 200
    v = v.to(d).reshape(t.shape)
    if t.stride is not None:
        w = torch.empty_strided(t.shape, t.stride, dtype=d)
        w.copy_(v)
        v = w
    return v


def concrete(o, call, k):
    i = [0]

    def tr(x):
        if isinstance(x, T):
            i[0] += 1
            return fill(x, k, i[0] - 1)
        if isinstance(x, list):
            return [tr(y) for y in x]
        return x

    return [tr(v) for v in call]


def run_op(o, vals):
    args, kw = [], {}
    for (n, t, k, d, hd), v in zip(o.params, vals):
        if "Device" in t and v is None and not any(isinstance(x, torch.Tensor) for x in vals):
            v = torch.device("cpu")
        if isinstance(v, torch.Tensor):
            v = v.clone() if v.is_contiguous() else v
        if k:
            kw[n] = v
        else:
            args.append(v)
    r = o.op(*args, **kw)
    return [r] if len(o.op._schema.returns) == 1 else list(r)


def flat(x):
    return [x] if isinstance(x, T) else [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else []


def tensors_of(vals):
    out = []
    for v in vals:
        if isinstance(v, torch.Tensor):
            out.append(v)
        elif isinstance(v, list):
            out += tensors_of(v)
    return out


TOL = {torch.float16: (2e-2, 2e-2), torch.bfloat16: (1e-1, 1e-1), torch.float32: (1e-3, 1e-4), torch.float64: (1e-3, 1e-4),
       torch.complex64: (1e-3, 1e-4), torch.complex128: (1e-3, 1e-4)}


def close(a, b, values=True):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, values) for x, y in zip(a, b))
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if not values or a.numel() == 0:
            return True
        if a.dtype in TOL:
            r, t = TOL[a.dtype]
            x, y = a.to(torch.complex128 if a.is_complex() else torch.float64), b.to(torch.complex128 if a.is_complex() else torch.float64)
            return torch.allclose(x, y, rtol=r, atol=t, equal_nan=True)
        return bool(torch.equal(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return not values or a == b or abs(a - b) <= 1e-6 * max(1, abs(a)) or a != a and b != b
    return a == b or not values


def valueless(o):
    """results that are not a function of the arguments"""
    n = o.name.split("〇")[1]
    return torch.Tag.nondeterministic_seeded in o.op.tags or "empty" in n or "rand" in n or n in ("dropout", "bernoulli", "normal", "uniform")


class Judge:
    """eager(o, call) and execute(...) in another process"""

    def __init__(self, fills=(0, 1)):
        self.fills, self.owner = fills, None

    def start(self):
        a, b = os.pipe(), os.pipe()
        self.owner = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                C.quiet()
                C.limit_memory()
                r, w = os.fdopen(a[0], "rb"), os.fdopen(b[1], "wb")
                serve(r, w)
            except BaseException:
                pass
            os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.pid, self.w, self.r = pid, os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")

    def ask(self, *req):
        if self.owner != os.getpid():
            self.start()
        try:
            pickle.dump(req, self.w)
            self.w.flush()
            return pickle.load(self.r)
        except (EOFError, OSError, pickle.UnpicklingError):
            for f in (self.w, self.r):
                try:
                    f.close()
                except OSError:
                    pass
            os.waitpid(self.pid, 0)
            self.owner = None
            return None

    def eager(self, name, call, specs):
        """a function per spec: False and True are static and dynamic extents, anything else the assignment of values
        that makes the tensors literals; None for a call that PyTorch does not execute"""
        return self.ask("eager", name, call, specs, self.fills)

    def execute(self, ops, spec=False):
        """None if what is left does what the operator does, else what differs"""
        r = self.ask("execute", ops, spec)
        return "the execution takes the process with it" if r is None else r[0]


def serve(r, w):
    Exec = M.make_exec()
    state, plain = {}, []
    while True:
        req = pickle.load(r)
        signal.setitimer(signal.ITIMER_REAL, 20)
        if req[0] == "eager":
            _, name, call, specs, fills = req
            o = C._by_name[name]
            state, rep = {}, None
            if sum(math.prod(t.shape) for t in flat(call)) > 1 << 17:  # large tensors: one assignment, no literals
                fills, specs = fills[:1], tuple(x if isinstance(x, bool) else None for x in specs)
            for k in [*fills, *(x for x in specs if not isinstance(x, bool) and x is not None)]:
                vals = concrete(o, call, k)
                ins = [t.clone() for t in tensors_of(vals)]
                try:
                    torch.manual_seed(0)
                    res = run_op(o, vals)
                except Exception:
                    continue
                state[k] = (ins, res, valueless(o))
            plain = [k for k in fills if k in state]
            if plain:
                sigs = {tuple((tuple(x.shape), x.dtype) if isinstance(x, torch.Tensor) else None for x in state[k][1]) for k in plain}
                if len(sigs) > 1:  # the shapes depend on the values
                    plain = plain[:1]
                rep = []
                for x in specs:
                    try:
                        if isinstance(x, bool):
                            rep.append(module(o, call, state[plain[0]][1], x)[0])
                        else:
                            rep.append(module(o, call, state[x][1], lit=state[x][0])[0] if x in state and state[x][0] else None)
                    except Skip as e:
                        if isinstance(x, bool):
                            rep = str(e)
                            break
                        rep.append(None)
        else:
            rep = (None,)
            spec = req[2]
            try:
                ex = Exec(req[1])
                for k in plain if isinstance(spec, bool) else [spec]:
                    ins, want, vless = state[k]
                    got = ex.call("main", [t.clone() for t in ins] if isinstance(spec, bool) else [])
                    if len(got) != len(want) or not all(close(g, x, not vless) for g, x in zip(got, want)):
                        rep = (f"on ({', '.join(map(short, ins))}): {', '.join(map(short, got))} instead of {', '.join(map(short, want))}",)
                        break
            except (InterpError, TypeSoundness) as e:
                rep = (f"{type(e).__name__}: {e}",)
            except NotImplementedError as e:  # PyTorch lacks the operator for these element types
                rep = (None, str(e)[:200])
            except Exception as e:
                if "NotImplementedError" in str(e):
                    rep = (None, str(e)[:200])
                else:
                    rep = (f"the program left raises {type(e).__name__}: {str(e)[:300]}",)
        pickle.dump(rep, w)
        w.flush()
        signal.setitimer(signal.ITIMER_REAL, 0)

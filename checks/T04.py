"""T04: element type promotion in the compiler is PyTorch's.

The compiler's promotion (lib/Dialect/Torch/Utils/TorchUpstream.cpp, compiled here from the
tree under test) and the promotion the library's own tests use (library_generator) are
evaluated on every list of up to three operands, each a Python scalar, a rank-zero tensor or
a ranked tensor of every element type the compiler can represent, against torch.result_type
(pairs), a three-operand elementwise operator (triples of tensors) and an explicit model of
PyTorch's rule that is itself compared with both on all of them.
"""
import itertools

from mc import absint as A
from mc import env
from mc import upstream as U
from mc.core import Violation

env.install_fake_mlir()
torch = env.quiet_torch()

ID = "T04"
LEVEL = "model_checking"
RULE = ("state = a list of operand kinds (scalar / rank zero / ranked) x element types; transition = "
        "one more operand; every list is promoted by the compiled code and by PyTorch")

NORMAL = ["bool", "uint8", "int8", "int16", "int32", "int64", "bfloat16", "float16", "float32", "float64",
          "complex32", "complex64", "complex128"]
SMALL = ["float8_e5m2", "float8_e4m3fn", "float8_e5m2fnuz", "float8_e4m3fnuz", "float8_e8m0fnu",
         "float4_e2m1fn_x2"]
NAMES = dict(uint8="Byte", int8="Char", int16="Short", int32="Int", int64="Long", float16="Half", float32="Float",
             float64="Double", complex32="ComplexHalf", complex64="ComplexFloat", complex128="ComplexDouble",
             bool="Bool", bfloat16="BFloat16", **{n: n[0].upper() + n[1:] for n in SMALL})
_P = None
CODE = {}
DT = {}


def setup():
    global _P
    _P = U.Promotion()
    for n, c in NAMES.items():
        CODE[n] = _P.lib.mc_scalar_type(c.encode())
        DT[n] = getattr(torch, n)
    return _P


def letters(small=True):
    out = [(None, "int64"), (None, "float64")]
    for n in NORMAL + (SMALL if small else []):
        out += [(0, n), (1, n)]
    return out


def value(l):
    r, n = l
    if r is None:
        return 2 if n == "int64" else 2.5
    return torch.empty([1] * r, dtype=DT[n], device="meta")


# ---------------------------------------------------------------- PyTorch's rule, as a model
ORDER = ["bool", "uint8", "int8", "int16", "int32", "int64", "float16", "float32", "float64"]


def lub(a, b):
    if a is None or b is None:
        return a or b
    if a == b:
        return a
    if a in SMALL or b in SMALL:
        raise TypeError("no promotion")
    cplx = [x for x in (a, b) if x.startswith("complex")]
    if cplx:
        w = max({"complex32": 16, "complex64": 32, "complex128": 64}.get(x) or
                {"float16": 16, "bfloat16": 32, "float32": 32, "float64": 64}.get(x, 0) for x in (a, b))
        return {16: "complex32", 32: "complex64", 64: "complex128"}[w]
    if "bfloat16" in (a, b):
        o = b if a == "bfloat16" else a
        return {"float16": "float32", "float32": "float32", "float64": "float64"}.get(o, "bfloat16")
    if {a, b} == {"uint8", "int8"}:
        return "int16"
    return max(a, b, key=ORDER.index)


def cat(n):
    return 3 if n.startswith("complex") else 2 if n.startswith(("float", "bfloat")) else 0 if n == "bool" else 1


def combine(hi, lo):
    if hi is None or lo is None:
        return hi or lo
    ch, cl = cat(hi), cat(lo)
    if ch == 3:
        return hi
    if ch == 2:
        if cl == 3:
            r = {"float16": "complex32", "float32": "complex64", "float64": "complex128", "bfloat16": "bcomplex32"}
            if hi not in r:
                raise TypeError("no complex type")
            return r[hi]
        return hi
    if ch == 0 or cl >= 2:
        return lub(hi, lo)
    return hi


def model(ls):
    st = {None: None, 0: None, 1: None}
    only = all(r is None for r, _ in ls)
    for r, n in ls:
        if r is None and not only:
            n = {"float64": "float32"}.get(n, n)
        st[r] = lub(st[r], n)
    return combine(st[1], combine(st[0], st[None]))


def torch_answer(ls):
    """what PyTorch itself gives, or None where this cannot be asked directly; raises if it refuses"""
    if len(ls) == 1:
        return ls[0][1]
    if all(r is None for r, _ in ls):
        return None
    if len(ls) == 2:
        return str(torch.result_type(value(ls[0]), value(ls[1]))).split(".")[1]
    if len(ls) > 3 or any(r is None or n in SMALL for r, n in ls):
        return None
    return str(torch.addcmul(*[value(l) for l in ls]).dtype).split(".")[1]


def one(ls):
    """-> 1 judged, 0 refused by PyTorch or not representable"""
    try:
        m = model(ls)
    except TypeError:
        m = "refused"
    try:
        t = torch_answer(ls)
    except (RuntimeError, TypeError):
        t = "refused"
    if t is not None and len(ls) < 3 and t != m:
        raise AssertionError(f"the model of PyTorch's rule is wrong on {ls}: {m}, PyTorch says {t}")
    if t is not None and t != "refused" and t != m:
        raise AssertionError(f"the model of PyTorch's rule is wrong on {ls}: {m}, PyTorch says {t}")
    want = m
    if want == "refused" or want not in CODE:
        return 0
    got = _P([r for r, _ in ls], [CODE[n] for _, n in ls])
    if got != CODE[want]:
        names = {v: k for k, v in CODE.items()}
        raise Violation(f"compiler:{ls}", f"promotion of {ls} is {names.get(got, got)} in the compiler, {want} in PyTorch")
    if any(n in SMALL for _, n in ls):
        return 1  # the library's own promotion creates random data, which these types do not support
    g = pylib().promote_dtypes([r for r, _ in ls], [DT[n] for _, n in ls])
    if g != DT[want]:
        raise Violation(f"library:{ls}", f"promotion of {ls} is {g} in the library's own tests, {want} in PyTorch "
                        "and in the compiler")
    return 1


_lg = None


def pylib():
    global _lg
    if _lg is None:
        import importlib

        from mc import native

        native.stub_jit_importer()
        _lg = importlib.import_module(A.PKG + ".library_generator")
    return _lg


def block(first):
    """every list that starts with these operands"""
    n = 0
    fails = {}
    for ls in [tuple(first)] + ([tuple(first) + (l,) for l in letters()] if len(first) == 2 else []):
        try:
            n += one(ls)
        except Violation as v:
            fails.setdefault(v.key, v.msg)
    if fails:
        k = sorted(fails)[0]
        raise Violation(k, f"{fails[k]} (and {len(fails) - 1} more)")
    return n


def constants(_):
    """numberings shared between the Python importer, the compiled header and PyTorch"""
    import importlib

    fxi = importlib.import_module("torch_mlir.extras.fx_importer")
    for dt, c in fxi.TORCH_DTYPE_TO_INT.items():
        n = str(dt).split(".")[1]
        if n not in NAMES:
            raise Violation(f"dtype:{n}", f"the importer numbers {n}, which the compiler has no name for")
        if c != CODE[n]:
            raise Violation(f"dtype:{n}", f"{n} is {c} in the importer and {CODE[n]} in the compiler")
    for n in NORMAL + SMALL[:4]:
        if A.dtype_code(DT[n]) != CODE[n]:
            raise Violation(f"code:{n}", f"{n} is {CODE[n]} in the compiler, {A.dtype_code(DT[n])} in PyTorch")
    from torch.nn import _reduction

    for s in ("none", "mean", "sum"):
        if _P.lib.mc_loss(s.encode()) != _reduction.get_enum(s):
            raise Violation(f"reduction:{s}", f"{s} is {_P.lib.mc_loss(s.encode())} in the compiler, "
                            f"{_reduction.get_enum(s)} in PyTorch")
    red = {s: _P.lib.mc_reduction(s.encode()) for s in ("max", "amax", "mean", "min", "amin", "sum", "prod")}
    if red["max"] != red["amax"] or red["min"] != red["amin"] or \
            len({red[s] for s in ("max", "mean", "min", "sum", "prod")}) != 5 or -1 in red.values():
        raise Violation("reductions", f"kinds of reduction: {red}")
    return len(fxi.TORCH_DTYPE_TO_INT)


def run(ck):
    setup()
    L = letters()
    ck.run_cases([0], constants, lambda c: "numbering of element types and reductions", parallel=False)
    ck.run_cases([(a,) for a in L], block, repr, parallel=False)
    n = sum(i or 0 for i in ck.run_cases(list(itertools.product(L, repeat=2)), block, repr, chunk=20))
    if ck.thorough:
        # ranks above one, and lists of four operands (against the model, which the shorter lists validate)
        n += sum(i or 0 for i in ck.run_cases(list(itertools.product(letters(False), repeat=3)), block4, repr, chunk=50))
    ck.n_states_extra = len(L) + len(L) ** 2 + len(L) ** 3
    ck.transitions = ck.n_states_extra
    ck.extra["promotions_compared"] = n
    ck.sample("rank-0 complex128 with ranked float32: complex64")


def block4(first):
    fails = {}
    n = 0
    for l in letters(False):
        try:
            n += one(first + (l,))
        except Violation as v:
            fails.setdefault(v.key, v.msg)
    if fails:
        k = sorted(fails)[0]
        raise Violation(k, f"{fails[k]} (and {len(fails) - 1} more)")
    return n


def replay(ck, case_):
    setup()
    try:
        (block if case_ else constants)(tuple(tuple(x) for x in case_) if case_ else 0)
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

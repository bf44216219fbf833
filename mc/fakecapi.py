"""What mc/cpp/capi.cpp calls: MLIR's C API in terms of mc.fakemlir.

A null handle is None. Where MLIR would follow a null pointer, `Crash` is raised.
"""
import numpy as np

from . import fakemlir as F

ARENA = []
DIAGNOSTICS = []
TERMINATORS = ("func.return", "torch.prim.Loop.condition", "torch.prim.If.yield", "torch.class_type_terminator",
               "torch.nn_module_terminator")


class Crash(Exception):
    """the real library would follow a null pointer or fail an assertion"""


def reset():
    ARENA.clear()
    DIAGNOSTICS.clear()


def need(*xs):
    for x in xs:
        if x is None:
            raise Crash("a null handle is used")


# ---------------------------------------------------------------- contexts, locations
def registered(ctx, name):
    return F.is_registered_op(name)


def register_torch(ctx):
    ctx._dialects.add("torch")


_ctx = [None]


def context_of(x):
    need(x)
    if isinstance(x, F.Location):
        _ctx[0] = x.context
        return x.context
    c = getattr(x, "context", None) if not isinstance(x, F.Attribute) else None
    return c or _ctx[0]


def loc_unknown(c):
    need(c)
    _ctx[0] = c
    return F.Location.unknown(c)


def loc_file(c, f, l, k):
    return F.Location.file(f, l, k, c)


def loc_callsite(a, b):
    need(a, b)
    return F.Location.callsite(a, [b])


def loc_name(c, n, child):
    return F.Location.name(n, child, c)


class Diagnostic:
    def __init__(self, loc, msg):
        self.loc, self.msg = loc, msg

    def __str__(self):
        return self.msg


def diagnostic(loc, msg):
    d = Diagnostic(loc, msg)
    DIAGNOSTICS.append(d)
    return d


def text(x):
    need(x)
    return str(x)


# ---------------------------------------------------------------- modules, operations
def module(loc):
    return F.Module.create(loc)


def module_body(m):
    return m.body


def module_op(m):
    return m.operation


def operation(name, loc, results, operands, attrs, regions):
    need(loc, *results, *operands, *[v for _, v in attrs], *regions)
    if len({n for n, _ in attrs}) != len(attrs):
        raise Crash(f"{name}: an attribute given twice")
    op = F.Operation._make(name, results, operands, dict(attrs), 0, loc)
    for r in regions:
        if r._op is not None:
            raise Crash(f"{name}: a region owned by another operation")
        r._op = op
        op._regions.append(r)
    return op


def destroy(op):
    need(op)


def region():
    return F.Region(None)


def region_of(op, i):
    need(op)
    if not 0 <= i < len(op._regions):
        raise Crash(f"{op.name} has no region {i}")
    return op._regions[i]


def n_regions(op):
    return len(op._regions)


def n_results(op):
    need(op)
    return len(op._results)


def n_operands(op):
    need(op)
    return len(op._operands)


def result_of(op, i):
    need(op)
    if not 0 <= i < len(op._results):
        raise Crash(f"{op.name} has no result {i}")
    return op._results[i]


def operand_of(op, i):
    need(op)
    return op._operands[i]


def block_of(op):
    need(op)
    return op._block


def set_attr(op, name, attr):
    need(op, attr)
    op.attributes[name] = attr


def get_attr(op, name):
    need(op)
    return op.attributes.get(name)


def append_block(r, b):
    need(r, b)
    if b._region is not None:
        raise Crash("a block owned by another region")
    b._region = r
    r._blocks.append(b)


def first_block(r):
    need(r)
    return r._blocks[0] if r._blocks else None


def block(types, locs):
    need(*types, *locs)
    b = F.Block()
    for t, l in zip(types, locs):
        b.arguments.append(F.BlockArgument(t, b, len(b.arguments), l))
    return b


def first_op(b):
    need(b)
    return b._ops[0] if b._ops else None


def terminator(b):
    need(b)
    return b._ops[-1] if b._ops and b._ops[-1].name in TERMINATORS else None


def insert_before(b, ref, op):
    need(b, op)
    if op._block is not None:
        raise Crash(f"{op.name}: inserted twice")
    if ref is None:
        b._ops.append(op)
    else:
        if ref._block is not b:
            raise Crash(f"{op.name}: inserted before an operation of another block")
        b._ops.insert(b._ops.index(ref), op)
    op._block = b


def n_args(b):
    need(b)
    return len(b.arguments)


def arg_of(b, i):
    need(b)
    return b.arguments[i]


def type_of(v):
    need(v)
    return v.type


def owner_of(v):
    need(v)
    if not isinstance(v, F.OpResult):
        raise Crash("the value is not a result")
    return v.owner


def is_result(v):
    return isinstance(v, F.OpResult)


# ---------------------------------------------------------------- types
def type(c, asm):  # noqa: A001
    return F.Type.parse(asm, c)


def complex_type(t):
    need(t)
    return F.ComplexType.get(t)


def function_type(c, a, b):
    need(c, *a, *b)
    return F.FunctionType.get(a, b, c)


def n_ins(t):
    return len(t.ins)


def n_outs(t):
    return len(t.outs)


def in_type(t, i):
    return t.ins[i]


def out_type(t, i):
    return t.outs[i]


def ranked(loc, dims, elem, enc):
    need(loc, elem)
    if isinstance(elem, F.TorchType):
        return None  # not an element type of the builtin tensors
    return F.RankedTensorType.get([d if d >= 0 else None for d in dims], elem, enc, loc)


SIMPLE = dict(Bool="bool", String="str", None_="none", Int="int", Float="float", LinearParams="LinearParams",
              QInt8="qint8", QUInt8="quint8", QInt16="qint16", Number="number", Generator="Generator", Device="Device",
              Any="any")


def simple(c, n):
    need(c)
    return F.Type.parse("!torch." + SIMPLE.get(n, SIMPLE.get(n + "_")), c)


def nn_module(c, name):
    return F.Type.parse(f'!torch.nn.Module<"{name}">', c)


def _in(t):
    s = str(t)
    return s[7:] if s.startswith("!torch.") else s


def wrap(kind, t):
    need(t)
    return F.Type.parse(f"!torch.{kind}<{_in(t)}>", t.context or _ctx[0])


def dict_type(k, v):
    need(k, v)
    return F.Type.parse(f"!torch.dict<{_in(k)}, {_in(v)}>", k.context or _ctx[0])


def many(c, kind, ts):
    need(c, *ts)
    return F.Type.parse(f"!torch.{kind}<{', '.join(map(_in, ts))}>", c)


def tensor(c, kind, dims, dt):
    need(c)
    if dims is None and dt is None:
        return F.Type.parse(f"!torch.{kind}", c)
    d = "*" if dims is None else "[" + ",".join("?" if x == -1 else str(x) for x in dims) + "]"
    if dims is not None and any(x < -1 for x in dims):
        raise Crash(f"sizes {dims}")
    return F.Type.parse(f"!torch.{kind}<{d},{dt if dt is not None else 'unk'}>", c)


def tensor_of(kind, attr):
    need(attr)
    t = attr._type
    return tensor(_ctx[0], kind, [d if d is not None else -1 for d in t.dims], t.element_type)


def subtype(s, t):
    """Torch::isValidSubtype"""
    need(s, t)
    if str(s) == str(t):
        return True
    k, sk = getattr(t, "kind", ""), getattr(s, "kind", "")
    if sk == "union":
        return all(subtype(x, t) for x in s.elems)
    if k == "any":
        return True
    if k == "number":
        return sk in ("int", "float")
    if k == "optional":
        return subtype(s, t.elem) or sk == "none"
    if k == "union":
        return any(subtype(s, x) for x in t.elems)
    if k == "tuple":
        return sk == "tuple" and len(s.elems) == len(t.elems) and all(map(subtype, s.elems, t.elems))
    if k in ("tensor", "vtensor") and sk in ("tensor", "vtensor"):
        if k != sk:
            return False
        if t.dtype is not None and (s.dtype is None or str(s.dtype) != str(t.dtype)):
            return False
        if t.dims is not None:
            return s.dims is not None and len(s.dims) == len(t.dims) and \
                all(b is None or a == b for a, b in zip(s.dims, t.dims))
        return True
    return False


def adjust(b, before, v, t, refine):
    """Torch::adjustStaticInformation"""
    need(b, v, t)
    s = v.type
    if str(s) == str(t):
        return v
    sk, k = getattr(s, "kind", ""), getattr(t, "kind", "")
    name = None
    if sk == k and k in ("tensor", "vtensor"):
        name = "torch.tensor_static_info_cast"
    elif subtype(s, t):
        if refine:
            return v
        name = "torch.derefine"
    elif subtype(t, s):
        name = "torch.prim.unchecked_cast"
    if name is None:
        return None
    op = F.Operation._make(name, [t], [v], {}, 0, v.location if v.location is not None else F.Location.unknown(_ctx[0]))
    insert_before(b, before, op)
    return op._results[0]


# ---------------------------------------------------------------- attributes
def string_attr(c, s):
    need(c)
    return F.StringAttr.get(s, c)


def bool_attr(c, v):
    return F.BoolAttr.get(v, c)


def integer_attr(t, v):
    need(t)
    return F.IntegerAttr.get(t, v)


def float_attr(t, v):
    need(t)
    return F.FloatAttr._mk(t, v)


def unit_attr(c):
    return F.UnitAttr.get(c)


def type_attr(t):
    need(t)
    return F.TypeAttr.get(t)


def symbol_attr(c, s):
    return F.FlatSymbolRefAttr.get(s, c)


def array_attr(c, items):
    need(c, *items)
    return F.ArrayAttr.get(items, c)


def dict_attr(c, items):
    need(c, *[v for _, v in items])
    return F.DictAttr.get(dict(items), c)


DENSE = dict(Bool=("i1", np.int32), UInt8=("ui8", np.uint8), Int8=("si8", np.int8), UInt16=("ui16", np.uint16),
             Int16=("si16", np.int16), UInt32=("ui32", np.uint32), Int32=("si32", np.int32), UInt64=("ui64", np.uint64),
             Int64=("si64", np.int64), Float=("f32", np.float32), Double=("f64", np.float64), BFloat16=("bf16", np.uint16),
             Float16=("f16", np.uint16))


def dense(kind, t, n, data):
    need(t)
    el = str(t.element_type)
    a = F.DenseElementsAttr()
    a._type = t
    total = int(np.prod(t.dims, dtype=np.int64)) if t.dims else 1
    if kind == "Raw":
        npd = np.dtype(F.NP_OF[el])
        arr = np.frombuffer(data, npd)
        n = len(arr)
    else:
        e, npd = DENSE[kind]
        ok = el == e or (e[0] in "su" and e[1:2] in "iI" and el == e[1:])
        if not ok:
            raise Crash(f"{kind} elements for the element type {el}")
        arr = np.frombuffer(data, npd)
        if kind == "Bool":
            arr = arr != 0
        else:
            arr = arr.view(F.NP_OF[el])
    if n != total and n != 1:
        raise Crash(f"{n} elements for {t}")
    a.data = arr.reshape(t.dims).copy() if n == total else np.full(t.dims, arr[0])
    a.is_splat = n == 1
    return a

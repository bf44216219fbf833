"""J03: every TorchScript type, constant and operator maps to the one that denotes it.

  type   every type expression to depth two, and static tensor types, under every import option,
         against a mapping written here
  const  every constant from a pool (numbers, strings, devices, nested lists and tuples, tensors of
         every element type, shape and memory layout), alone, repeated, and inside branches and loops
  op     every operator schema PyTorch registers: the operation's name, operands and results
  trace  traced functions (static types) executed on the traced and on other inputs
"""
import itertools
import math
import re

from mc import env, jitir as J

torch = env.quiet_torch()
from mc import fakecapi as C, fakemlir as F
from mc.core import Violation
from mc.interp import InterpError, TypeSoundness, literal_tensor, same, short

ID = "J03"
LEVEL = "model_checking"
RULE = ("state = (type, constant or operator schema, placement, import options); transition = one import by the C++ "
        "importer, compared with the model mapping or with TorchScript's own execution")
OPTS = [(v, i) for v in (False, True) for i in (False, True)]

# ---------------------------------------------------------------- the mapping
DTYPE = {torch.uint8: "ui8", torch.int8: "si8", torch.int16: "si16", torch.int32: "si32", torch.int64: "si64",
         torch.bool: "i1", torch.float64: "f64", torch.float32: "f32", torch.bfloat16: "bf16", torch.float16: "f16",
         torch.qint8: "!torch.qint8", torch.quint8: "!torch.quint8", torch.complex32: "complex<f16>",
         torch.complex64: "complex<f32>", torch.complex128: "complex<f64>"}
SIMPLE = {"IntType": "!torch.int", "FloatType": "!torch.float", "BoolType": "!torch.bool", "NumberType": "!torch.number",
          "StringType": "!torch.str", "NoneType": "!torch.none", "AnyType": "!torch.any", "DeviceObjType": "!torch.Device",
          "GeneratorType": "!torch.Generator"}


class Unmapped(Exception):
    """no type of the torch dialect denotes it"""


def tensor_type(opts, dtype=None, sizes=None):
    k = "!torch.vtensor" if opts[0] else "!torch.tensor"
    if opts[1] or (dtype is None and sizes is None):
        return k
    if dtype is not None and dtype not in DTYPE:
        raise Unmapped(dtype)
    s = "*" if sizes is None else "[" + ",".join("?" if x is None else str(x) for x in sizes) + "]"
    return f"{k}<{s},{DTYPE[dtype] if dtype is not None else 'unk'}>"


def inner(t):
    """how a type is written inside another torch type"""
    return t[len("!torch."):] if t.startswith("!torch.") else t


def mapped(t, opts):
    k = t.kind()
    if k == "TensorType":
        return tensor_type(opts, t.dtype(), t.sizes() if t.sizes() is not None else (t.symbolic_sizes() and [
            x if x >= 0 else None for x in t.symbolic_sizes()] if t.dim() is not None else None))
    if k in SIMPLE:
        return SIMPLE[k]
    if k == "OptionalType":
        return f"!torch.optional<{inner(mapped(t.getElementType(), opts))}>"
    if k == "ListType":
        return f"!torch.list<{inner(mapped(t.getElementType(), opts))}>"
    if k == "DictType":
        return f"!torch.dict<{inner(mapped(t.getKeyType(), opts))}, {inner(mapped(t.getValueType(), opts))}>"
    if k == "TupleType":
        return "!torch.tuple<" + ", ".join(inner(mapped(x, opts)) for x in t.elements()) + ">"
    if k == "UnionType":
        return "!torch.union<" + ", ".join(inner(mapped(x, opts)) for x in t.containedTypes()) + ">"
    if k == "ClassType":
        if t.qualified_name() == "__torch__.torch.classes.quantized.LinearPackedParamsBase":
            return "!torch.LinearParams"
        if ".classes." in t.qualified_name():
            raise Unmapped(t)
        return f'!torch.nn.Module<"{t.qualified_name()}">'
    raise Unmapped(t)


def expected(t, opts):
    try:
        return mapped(t, opts)
    except Unmapped:
        return None


def attempt(fns, opts, bad):
    """the imported module, or None when the importer refuses"""
    try:
        m = J.import_functions(fns, J.options(*opts))
    except J.ImportFailed:
        return None
    except C.Crash as e:
        bad("crash", f"the importer would crash: {e}")
    return m


def checked(m, bad):
    try:
        J.verify(m)
    except F.MLIRError as e:
        bad("invalid", f"invalid IR: {e}\n{m}"[:2000])


# ---------------------------------------------------------------- types
BASES = ["Tensor", "int", "float", "bool", "str", "Device", "number", "Any", "complex", "Generator", "NoneType", "Storage",
         "__torch__.torch.classes.quantized.LinearPackedParamsBase"]
KEYS = ["int", "str", "float", "bool", "Tensor", "complex"]


def type_pool(deep):
    """TorchScript types as values"""
    T = {"Tensor": torch._C.TensorType.get(), "int": torch._C.IntType.get(), "float": torch._C.FloatType.get(),
         "bool": torch._C.BoolType.get(), "str": torch._C.StringType.get(), "Device": torch._C.DeviceObjType.get(),
         "number": torch._C.NumberType.get(), "Any": torch._C.AnyType.get(), "complex": torch._C.ComplexType.get(),
         "None": torch._C.NoneType.get(), "Stream": torch._C.StreamObjType.get()}
    lp = [s for s in torch._C._jit_get_schemas_for_operator("quantized::linear_unpack") if "Linear" in str(s)]
    if lp:
        T["LinearParams"] = lp[0].arguments[0].type
    gen = [a.type for s in torch._C._jit_get_schemas_for_operator("aten::normal_") for a in s.arguments if a.name == "generator"]
    T["Generator?"] = gen[0]

    def grow(level):
        out = {}
        for n, t in level.items():
            if t.kind() not in ("AnyType", "NoneType", "OptionalType"):
                out[f"Optional[{n}]"] = torch._C.OptionalType(t)
            out[f"List[{n}]"] = torch._C.ListType(t)
            for k in ("int", "str", "float", "bool", "Tensor", "complex"):
                if k in ("int", "str") or n in ("Tensor", "int"):
                    out[f"Dict[{k},{n}]"] = torch._C.DictType(T[k], t)
            out[f"Tuple[{n}]"] = torch._C.TupleType([t])
            out[f"Tuple[{n},int]"] = torch._C.TupleType([t, T["int"]])
            out[f"Tuple[Tensor,{n},{n}]"] = torch._C.TupleType([T["Tensor"], t, t])
        return out

    one = grow(T)
    one["Tuple[]"] = torch._C.TupleType([])
    for a, b in itertools.combinations([x for x in T if x not in ("Any", "None", "number")], 2):
        one[f"Union[{a},{b}]"] = torch._C.UnionType([T[a], T[b]])
    one["Union[int,str,List[Tensor]]"] = torch._C.UnionType([T["int"], T["str"], torch._C.ListType(T["Tensor"])])
    one["Union[Dict[str,Tensor],Tensor]"] = torch._C.UnionType([torch._C.DictType(T["str"], T["Tensor"]), T["Tensor"]])
    two = grow(one)
    pool = {**T, **one, **two}
    if deep:
        pool.update(grow(two))
    return pool


POOL = {}


def pool(deep):
    if deep not in POOL:
        POOL[deep] = type_pool(deep)
    return POOL[deep]


def type_case(name, deep, opts):
    t = pool(deep)[name]
    tag = f"{name}:{'value' if opts[0] else 'ref'}{'-noshape' if opts[1] else ''}"

    def bad(what, msg):
        raise Violation(f"type-{what}:{tag}", f"type {name}, options {opts}: {msg}")

    g = torch._C.Graph()
    v = g.addInput()
    v.setType(t)
    g.registerOutput(v)
    f = torch._C._create_function_from_graph("k", g)
    want = expected(f.schema.arguments[0].type, opts)
    m = attempt([f], opts, bad)
    if m is None:
        if want is not None:
            bad("refused", f"refused; {want} denotes it")
        return 1
    checked(m, bad)
    got = str(m.body._ops[0].attributes["function_type"].value)
    if want is None:
        bad("mapped", f"imported as {got}, though the torch dialect has no such type")
    if got != f"({want}) -> ({want})":
        bad("wrong", f"imported as {got}, not {want}")
    return 1


STATIC_DT = {"Float": torch.float32, "Double": torch.float64, "Long": torch.int64, "Int": torch.int32, "Half": torch.float16,
             "BFloat16": torch.bfloat16, "Bool": torch.bool, "Byte": torch.uint8, "Char": torch.int8, "Short": torch.int16,
             "ComplexFloat": torch.complex64, "ComplexDouble": torch.complex128, "QInt8": torch.qint8, "QUInt8": torch.quint8,
             "ComplexHalf": torch.complex32, "QInt32": torch.qint32, "Tensor": None, "Float8_e5m2": torch.float8_e5m2,
             "UInt16": torch.uint16}
STATIC_SZ = [None, (), (0,), (1,), (2, 3), (None,), (2, None), (None, None, 4), (None, 2, None, 1), (2 ** 31, 2)]


def static_case(dt, sz, opts):
    """a value inside a graph that carries a static type"""
    tag = f"{dt}{sz}:{opts}"

    def bad(what, msg):
        raise Violation(f"static-{what}:{tag}", f"{dt} of sizes {sz}, options {opts}: {msg}")

    if (sz is None) != (dt == "Tensor"):
        return 0  # TorchScript's parser has no such type
    text = dt if sz is None else f"{dt}({', '.join('*' if x is None else str(x) for x in sz)})"
    try:
        g = torch._C.parse_ir(f"graph(%x : Tensor):\n  %y : {text} = aten::relu(%x)\n  return (%y)\n")
    except RuntimeError:
        return 0
    f = torch._C._create_function_from_graph("k", g)
    try:
        want = tensor_type(opts, STATIC_DT[dt], sz)
    except Unmapped:
        want = None
    m = attempt([f], opts, bad)
    if m is None:
        if want is not None:
            bad("refused", f"refused; {want} denotes it")
        return 1
    checked(m, bad)
    got = str(m.body._ops[0]._regions[0]._blocks[0]._ops[0]._results[0].type)
    if got != want:
        bad("wrong", f"imported as {got}, not {want}")
    return 1


# ---------------------------------------------------------------- constants
def layouts(base):
    """the same values in different memory layouts"""
    out = {"plain": base}
    if base.numel() and not base.is_quantized:
        out["sliced"] = torch.stack([torch.zeros_like(base), base])[1]
        if base.dim() >= 2:
            out["transposed"] = base.transpose(0, 1).contiguous().transpose(0, 1)
            out["strided"] = torch.cat([base, base], -1)[..., :base.shape[-1]]
        if base.dim() == 4:
            out["channels_last"] = base.contiguous(memory_format=torch.channels_last)
        if base.dim() == 1:
            out["expanded"] = base[:1].expand(3)
            out["step"] = torch.stack([base, base], 1).reshape(-1)[::2]
        if base.is_floating_point() and base.dtype in (torch.float32, torch.float64):
            out["grad"] = base.clone().requires_grad_()
            out["neg"] = torch._neg_view(-base)
            out["negstep"] = torch._neg_view(torch.stack([-base, base], -1))[..., 0]
        if base.is_complex():
            out["conj"] = base.conj()
            out["imag"] = base.conj().imag
    return out


VALUES = {
    torch.bool: [True, False, True, True, False, False, True, False],
    torch.uint8: [0, 255, 128, 1, 127, 3, 4, 5], torch.int8: [0, -128, 127, -1, 1, 3, 4, 5],
    torch.int16: [0, -2 ** 15, 2 ** 15 - 1, -1, 1, 2, 3, 4], torch.int32: [0, -2 ** 31, 2 ** 31 - 1, -1, 1, 256, 65536, 7],
    torch.int64: [0, -2 ** 63, 2 ** 63 - 1, -1, 1, 2 ** 32, 256, 2 ** 53 + 1],
}
FLOATS = [0.0, -0.0, math.inf, -math.inf, math.nan, 1.5, -2.25, 1e-40]
SHAPES = [(), (1,), (8,), (2, 4), (2, 1, 4), (1, 2, 2, 2), (0,), (2, 0), (4,)]
DTYPES = [torch.bool, torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.float16, torch.bfloat16,
          torch.float32, torch.float64, torch.complex64, torch.complex128, torch.complex32, torch.float8_e5m2,
          torch.float8_e4m3fn, torch.uint16, torch.uint32, torch.uint64, torch.qint8, torch.quint8, torch.qint32]
# element types the importer has a representation of
NEEDED = {torch.bool, torch.uint8, torch.int8, torch.int32, torch.int64, torch.float16, torch.bfloat16, torch.float32,
          torch.float64, torch.qint8, torch.quint8}


def base_tensor(dt, shape):
    n = math.prod(shape)
    if dt in (torch.qint8, torch.quint8, torch.qint32):
        v = torch.tensor([-3.0, 0.0, 1.5, 2.0, 60.0, -1.0, 0.5, 9.0])[:n].reshape(shape)
        return torch.quantize_per_tensor(v, 0.25, 7, dt)
    if dt in VALUES:
        return torch.tensor(VALUES[dt][:n], dtype=dt).reshape(shape)
    if dt.is_complex:
        return torch.tensor([complex(a, b) for a, b in zip(FLOATS[:n], reversed(FLOATS[-n:] if n else []))],
                            dtype=torch.complex128).to(dt).reshape(shape)
    if dt.is_floating_point:
        return torch.tensor(FLOATS[:n], dtype=torch.float64).to(dt).reshape(shape)
    return torch.tensor([abs(x) for x in VALUES[torch.int16][:n]], dtype=torch.int64).to(dt).reshape(shape)


TENSORS = None


def tensor_names():
    """(dtype index, shape index, layout)"""
    out = []
    for i, dt in enumerate(DTYPES):
        for j, s in enumerate(SHAPES):
            try:
                b = base_tensor(dt, s)
                ls = list(layouts(b))
            except Exception:
                ls = ["plain"]
            out += [(i, j, l) for l in ls]
    return out


def scalars():
    T = torch.tensor
    return {
        "i0": 0, "i1": 1, "im": -1, "imax": 2 ** 63 - 1, "imin": -2 ** 63, "ibig": 2 ** 53 + 1,
        "f0": 0.0, "fm0": -0.0, "f1": 1.0, "fthird": 1 / 3, "ftiny": 5e-324, "fmax": 1.7976931348623157e308, "finf": math.inf,
        "fninf": -math.inf, "fnan": math.nan, "s": "x", "s0": "", "sodd": "é\"\\\n%s\t", "snul": "a\0b", "true": True,
        "false": False, "none": None, "cpu": torch.device("cpu"), "cuda1": torch.device("cuda:1"), "meta": torch.device("meta"),
        "cplx": 2 + 3j, "dtype": torch.float32, "dict": {"a": 1},
        "li": [1, 2, 1, -2 ** 63], "lf": [0.0, -0.0, 0.5, math.inf], "lb": [True, False, True], "ls": ["x", "", "x"],
        "lt": [T([1.5]), T([2, 3])], "lli": [[1], [2, 3]], "t": (1, 2.5), "t0": (), "tmix": (True, 1, 1.0, "1", None),
        "tzero": (0.0, -0.0, 0, False), "tt": (T([1.0]), (T([[2]]), 3)), "tl": (1, [2, 3], [2, 3]), "tn": (None, None),
        "lcplx": [1j], "ltup": [(1, "a"), (2, "b")], "same": None, "tdev": (1, torch.device("cpu")),
        "tq": (torch.quantize_per_tensor(T([1.0, 2.0]), 0.5, 1, torch.qint8), 2),
    }


MAY_REFUSE = {"cplx", "dict", "lcplx", "tdev", "dtype"}
PLACES = ["alone", "twice", "branch", "loop"]


def const_value(key):
    if isinstance(key, str):
        if key == "same":
            t = torch.tensor([4.0])
            return [t, t]
        return scalars()[key]
    i, j, l = key
    return layouts(base_tensor(DTYPES[i], SHAPES[j]))[l]


def type_equal(a, b):
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        if a.is_quantized != b.is_quantized:
            return False
        if a.is_quantized and (a.dtype != b.dtype or a.q_scale() != b.q_scale() or a.q_zero_point() != b.q_zero_point()):
            return False
        if not same(a.detach(), b.detach()):
            return False
        if a.is_floating_point():  # the sign of zero
            return bool((torch.signbit(a.detach()) == torch.signbit(b.detach())).logical_or(a != a).all())
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(map(type_equal, a, b))
    if type(a) is float and type(b) is float:
        return str(a) == str(b)
    return type(a) is type(b) and a == b


def const_graph(v, place):
    g = torch._C.Graph()
    c = g.insertConstant(v)
    if place == "alone":
        g.registerOutput(c)
        return g
    n = g.insertNode(g.create("prim::TupleConstruct", [c, c, g.insertConstant(v)], 1))
    o = n.output()
    o.setType(torch._C.TupleType([x.type() for x in n.inputs()]))
    g.registerOutput(o)
    return g


def const_case(key, place, opts):
    name = key if isinstance(key, str) else f"{str(DTYPES[key[0]])[6:]}{list(SHAPES[key[1]])}.{key[2]}"
    tag = f"{name}:{place}:{'value' if opts[0] else 'ref'}{'-noshape' if opts[1] else ''}"

    def bad(what, msg):
        raise Violation(f"const-{what}:{tag}", f"constant {name} ({place}): {msg}")

    try:
        v = const_value(key)
    except Exception:
        if isinstance(key, str):
            raise
        return 0
    if place in ("alone", "twice"):
        try:
            g = const_graph(v, place)
            f = torch._C._create_function_from_graph("k", g)
        except Exception:
            return 0  # PyTorch has no such constant
        runs = [()]
    else:
        # a constant inside a nested block: freeze a module that holds it
        f, runs = frozen(v, place)
        if f is None:
            return 0
    refusable = name in MAY_REFUSE or not isinstance(key, str) and DTYPES[key[0]] not in NEEDED
    m = attempt([f], opts, bad)
    if m is None:
        if not refusable:
            bad("refused", "the importer refuses")
        return 1
    checked(m, bad)
    try:
        it = J.Jit(m)
        n = 0
        for a in runs:
            exp = f(*a)
            got = it.call("k", list(a))
            if len(got) != 1 or not type_equal(got[0], exp):
                bad("wrong", f"called with {a} it is {[short(x) for x in got]}, in TorchScript {short(exp)}\n{m}"[:900])
            n += 1
    except (InterpError, TypeSoundness) as e:
        bad("exec", f"{e}\n{m}"[:1200])
    # the value itself, should TorchScript have changed it
    if place == "alone" and not (isinstance(v, torch.Tensor) and v.is_quantized) and not type_equal(got[0], v):
        if type_equal(f(), v):
            bad("value", f"it is {short(got[0])}, not {short(v)}")
    return n


def frozen(v, place):
    """a function 'k' whose constant sits in a nested block"""
    g = torch._C.Graph()
    if place == "branch":
        b = g.addInput()
        b.setType(torch._C.BoolType.get())
        n = g.insertNode(g.create("prim::If", [b], 0))
        blocks = [n.addBlock(), n.addBlock()]
        outs = []
        try:
            for blk in blocks:
                with g.insert_point_guard(blk.returnNode()):
                    outs.append(g.insertConstant(v))
                blk.registerOutput(outs[-1])
        except Exception:
            return None, None
        o = n.addOutput()
        o.setType(outs[0].type())
        g.registerOutput(o)
        return torch._C._create_function_from_graph("k", g), [(True,), (False,)]
    n_in = g.addInput()
    n_in.setType(torch._C.IntType.get())
    try:
        init = g.insertConstant(v)
    except Exception:
        return None, None
    t = g.insertConstant(True)
    node = g.insertNode(g.create("prim::Loop", [n_in, t, init], 0))
    blk = node.addBlock()
    blk.addInputToBlock().setType(torch._C.IntType.get())
    blk.addInputToBlock().setType(init.type())
    with g.insert_point_guard(blk.returnNode()):
        c = g.insertConstant(v)
        t2 = g.insertConstant(True)
    blk.registerOutput(t2)
    blk.registerOutput(c)
    o = node.addOutput()
    o.setType(init.type())
    g.registerOutput(o)
    return torch._C._create_function_from_graph("k", g), [(0,), (2,)]


# ---------------------------------------------------------------- operators
SCHEMAS = []


def schemas():
    if not SCHEMAS:
        SCHEMAS.extend(sorted(torch._C._jit_get_all_schemas(), key=str))
    return SCHEMAS


VARS = [("t", "Tensor"), ("t", "int")]


def has_var(t):
    return "VarType" in t.kind() or any(has_var(x) for x in t.containedTypes()) if t.kind() != "InterfaceType" else False


def subst(t, by):
    k = t.kind()
    if k == "VarType":
        return by
    if not has_var(t):
        return t
    if k == "OptionalType":
        return torch._C.OptionalType(subst(t.getElementType(), by))
    if k == "ListType":
        return torch._C.ListType(subst(t.getElementType(), by))
    if k == "DictType":
        return torch._C.DictType(subst(t.getKeyType(), by), subst(t.getValueType(), by))
    if k == "TupleType":
        return torch._C.TupleType([subst(x, by) for x in t.elements()])
    return t


def op_case(text, opts):
    s = BY_TEXT[text]
    tag = f"{s.name}.{s.overload_name}:{'value' if opts[0] else 'ref'}"

    def bad(what, msg):
        raise Violation(f"op-{what}:{tag}", f"{text[:200]}: {msg}")

    n_done = 0
    for by in (torch._C.TensorType.get(), torch._C.IntType.get()) if any(has_var(a.type) for a in s.arguments) else (None,):
        g = torch._C.Graph()
        ins = []
        for a in s.arguments:
            v = g.addInput()
            v.setType(subst(a.type, by) if by is not None else a.type)
            ins.append(v)
        # the operands in an order of their own, so that a permutation shows
        n = g.create(s.name, ins, len(s.returns))
        for o, r in zip(n.outputs(), s.returns):
            o.setType(subst(r.type, by) if by is not None else r.type)
        g.insertNode(n)
        for o in n.outputs():
            g.registerOutput(o)
        if n.schema() == "(no schema)":
            continue
        # PyTorch may resolve the operands to another overload
        q = BY_TEXT.get(n.schema()) or [x for x in torch._C._jit_get_schemas_for_operator(s.name) if str(x) == n.schema()][0]
        f = torch._C._create_function_from_graph("k", g)
        ta = [expected(a.type, opts) for a in f.schema.arguments]
        tr = [expected(o.type(), opts) for o in n.outputs()]
        m = attempt([f], opts, bad)
        if m is None:
            if None not in ta + tr:
                bad("refused", "the importer refuses")
            n_done += 1
            continue
        if None in ta + tr:
            bad("mapped", f"imported, though {ta} {tr} has no counterpart")
        mutates = any(a.alias_info is not None and a.alias_info.is_write for a in q.arguments)
        if not (opts[0] and mutates):
            checked(m, bad)
        fo = m.body._ops[0]
        blk = fo._regions[0]._blocks[0]
        op = blk._ops[0]
        ns, rest = q.name.split("::")
        full = f"{ns}.{rest}" + (f".{q.overload_name}" if q.overload_name else "")
        if "torch." + full in F.ODS:
            if op.name != "torch." + full:
                bad("name", f"imported as {op.name}")
        elif op.name != "torch.operator" or op.attributes["name"].value != full:
            bad("name", f"imported as {op.name} {op.attributes}, which is not an opaque {full}")
        if op._operands != list(blk.arguments) or len(op._operands) != len(s.arguments):
            bad("operands", f"the operands are {[blk.arguments.index(v) if v in blk.arguments else '?' for v in op._operands]}")
        if [str(v.type) for v in op._operands] != ta:
            bad("types", f"operands typed {[str(v.type) for v in op._operands]}, not {ta}")
        if [str(v.type) for v in op._results] != tr:
            bad("types", f"results typed {[str(v.type) for v in op._results]}, not {tr}")
        ret = blk._ops[-1]
        if len(s.returns) != 1 and ret._operands != list(op._results):
            bad("results", "the results are returned in another order")
        if len(blk._ops) != 2 or op._regions or set(op.attributes) - {"name"}:
            bad("extra", f"{m}"[:800])
        n_done += 1
    return n_done


BY_TEXT = {}


def load_schemas():
    for s in schemas():
        BY_TEXT.setdefault(str(s), s)


# ---------------------------------------------------------------- traces
def traced():
    import torch.nn.functional as N
    x, y = torch.tensor([[1.5, -2.0, 0.0], [0.25, 3.0, -1.0]]), torch.tensor([2.0, -1.0, 4.0])
    k = torch.tensor([[1, 2, 3], [4, 5, 6]])
    s = torch.tensor(2.5)
    x2, y2 = torch.tensor([[0.5, 9.0, -4.0], [8.0, -0.5, 2.0]]), torch.tensor([5.0, 0.5, -3.0])
    return {
        "relu": (lambda a: a.relu(), (x,), (x2,)),
        "add": (lambda a, b: a + b * 2, (x, y), (x2, y2)),
        "scalar": (lambda a, b: a * b + 1, (x, s), (x2, torch.tensor(-1.0))),
        "int": (lambda a: a // 2 + a % 3, (k,), (k * 7 - 9,)),
        "mixed": (lambda a, b: a + b, (k, x), (k + 1, x2)),
        "mm": (lambda a, b: a @ b.t(), (x, x2), (x2, x)),
        "cat": (lambda a, b: torch.cat([a, b, a], 0), (x, x2), (x2, x)),
        "split": (lambda a: a.split(1, 1), (x,), (x2,)),
        "chunk": (lambda a: a.chunk(2, 1)[1] + 1, (x,), (x2,)),
        "unbind": (lambda a: a.unbind(0), (x,), (x2,)),
        "view": (lambda a: a.view(3, 2).t().reshape(-1), (x,), (x2,)),
        "size": (lambda a: a.view(a.size(1), a.size(0)), (x,), (x2,)),
        "index": (lambda a: a[1:, [2, 0]], (x,), (x2,)),
        "mask": (lambda a: a[a > 0].sum(), (x,), (x * 3 - 0.5,)),
        "setitem": (lambda a: setitem(a.clone()), (x,), (x2,)),
        "inplace": (lambda a: a.clone().add_(1).mul_(2), (x,), (x2,)),
        "literal": (lambda a: a + torch.tensor([[1.0, -0.0, 5.0]]), (x,), (x2,)),
        "zeros": (lambda a: torch.zeros(2, 3) + a + torch.arange(3), (x,), (x2,)),
        "to": (lambda a: a.to(torch.int32).to(torch.float64), (x,), (x2,)),
        "softmax": (lambda a: N.softmax(a, -1), (x,), (x2,)),
        "layernorm": (lambda a, b: N.layer_norm(a, [3], b, None, 1e-5), (x, y), (x2, y2)),
        "linear": (lambda a, b: N.linear(a, b, None), (x, x2), (x2, x)),
        "where": (lambda a, b: torch.where(a > b, a, b), (x, y), (x2, y2)),
        "max": (lambda a: a.max(1), (x,), (x2,)),
        "topk": (lambda a: a.topk(2, 1), (x,), (x2,)),
        "item": (lambda a: a * 3.5 - 2, (x,), (x2,)),
        "dict": (lambda a: {"x": a, "y": a + 1}["y"], (x,), (x2,)),
        "nest": (lambda a: (a, (a + 1, [a * 2, a])), (x,), (x2,)),
        "rank0": (lambda a: a.sum() * a.mean(), (x,), (x2,)),
        "none": (lambda a: torch.clamp(a, min=None, max=1.0), (x,), (x2,)),
        "empty": (lambda a: a[:, 0:0].sum(0), (x,), (x2,)),
        "bool": (lambda a: (a > 0) & (a < 2), (x,), (x2,)),
        "conv": (lambda a: N.conv2d(a.view(1, 1, 2, 3), torch.ones(1, 1, 2, 2), None, 1, 1), (x,), (x2,)),
        "pool": (lambda a: N.max_pool2d(a.view(1, 1, 2, 3), 2, 1), (x,), (x2,)),
        "einsum": (lambda a, b: torch.einsum("ij,j->i", a, b), (x, y), (x2, y2)),
    }


def setitem(a):
    a[0] = 7.0
    a[:, 1] = a[:, 2]
    return a


def trace_case(name, opts, strict):
    fn, ex, other = traced()[name]
    tag = f"{name}:{opts}"

    def bad(what, msg):
        raise Violation(f"trace-{what}:{tag}", f"trace {name}, options {opts}: {msg}")

    f = torch.jit.trace(fn, ex, strict=False, check_trace=False)
    mutating = name in ("setitem", "inplace") or any("aten::" in l and re.search(r"aten::\w+_\(", l) for l in str(f.graph).splitlines())
    if opts[0] and mutating:
        return 0
    m = attempt([f], opts, bad)
    if m is None:
        bad("refused", "the importer refuses")
    checked(m, bad)
    it = J.Jit(m)
    nm = [o for o in m.body._ops if o.name == "func.func"][-1]
    n = 0
    for args in (ex, other):
        exp = f(*args)
        try:
            got = it.call(F._sym(nm), [a.clone() for a in args])
        except (InterpError, TypeSoundness, J.Raised) as e:
            bad("exec", f"{e}\n{m}"[:1500])
        if len(got) != 1 or not same(got[0], exp if not isinstance(exp, torch.Tensor) else exp, 1e-6, 1e-6):
            bad("wrong", f"{short(got)} instead of {short(exp)}\n{m}"[:1500])
        n += 1
    return n


# ---------------------------------------------------------------- driver
def case(c):
    return {"runs": {"type": type_case, "static": static_case, "const": const_case, "op": op_case,
                     "trace": trace_case}[c[0]](*c[1:])}


def run(ck):
    J.load()
    load_schemas()
    cases = [("type", n, ck.thorough, o) for n in pool(ck.thorough) for o in OPTS]
    cases += [("static", d, s, o) for d in STATIC_DT for s in STATIC_SZ for o in OPTS]
    n_types = len(cases)
    names = list(scalars()) + tensor_names()
    for i, n in enumerate(names):
        for p in PLACES:
            full = ck.thorough or isinstance(n, str) or p == "alone"
            if full or i % 5 == 0:
                cases += [("const", n, p, o) for o in OPTS if full or o in ((False, False), (True, True))]
    n_consts = len(cases) - n_types
    cases += [("op", t, o) for t in BY_TEXT for o in (((False, False), (True, False)) if not ck.thorough else OPTS)]
    n_ops = len(cases) - n_types - n_consts
    cases += [("trace", n, o, False) for n in traced() for o in OPTS]
    infos = ck.run_cases(cases, case, keyfn=lambda c: c, chunk=32)
    by = {}
    for c, i in zip(cases, infos):
        if i:
            by[c[0]] = by.get(c[0], 0) + i["runs"]
    ck.transitions = sum(by.values())
    ck.extra.update(types=n_types, constants=n_consts, operators=len(BY_TEXT), judged=by)
    for k, least in (("type", 500), ("static", 300), ("const", 1000), ("op", 6000), ("trace", 100)):
        if by.get(k, 0) < least:
            ck.violation(f"few:{k}", f"only {by.get(k, 0)} {k} cases could be judged")
    ck.sample(f"types: {', '.join(list(pool(ck.thorough))[:12])} ...")
    ck.sample(f"schema: {list(BY_TEXT)[1000]}")
    ck.assumptions += ["MLIR's C API is replaced by a Python model of it (mc/fakecapi.py)",
                       "which operators have operations of their own is read from the ODS files"]


def replay(ck, data):
    J.load()
    load_schemas()

    def tup(x):
        return tuple(map(tup, x)) if isinstance(x, list) else x
    print(case(tup(data)))
    return 0

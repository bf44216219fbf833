"""Importing ONNX models with the real importer and executing the imported IR.

Leaf operators (`torch.operator "onnx.X"`) are executed by onnx.reference on a
single-node model rebuilt from the operator's operands and attributes at the
opset version the enclosing function records; If/Loop/Scan/SequenceMap regions
are executed natively.  Every declared result type is checked against the
run-time value.
"""
import numpy as np
import onnx
from onnx import helper as H
from onnx import TensorProto as TP
from onnx.reference import ReferenceEvaluator

from . import fakemlir as F
from .interp import InterpError, TypeSoundness

NPD = {
    "f16": np.float16, "f32": np.float32, "f64": np.float64, "ui8": np.uint8, "si8": np.int8,
    "ui16": np.uint16, "si16": np.int16, "ui32": np.uint32, "si32": np.int32, "ui64": np.uint64,
    "si64": np.int64, "i1": np.bool_, "complex<f32>": np.complex64, "complex<f64>": np.complex128,
}
ELEM = {
    "f32": TP.FLOAT, "ui8": TP.UINT8, "si8": TP.INT8, "ui16": TP.UINT16, "si16": TP.INT16,
    "si32": TP.INT32, "si64": TP.INT64, "i1": TP.BOOL, "f16": TP.FLOAT16, "f64": TP.DOUBLE,
    "ui32": TP.UINT32, "ui64": TP.UINT64, "complex<f32>": TP.COMPLEX64,
    "complex<f64>": TP.COMPLEX128, "bf16": TP.BFLOAT16, "f8E4M3FN": TP.FLOAT8E4M3FN,
    "f8E4M3FNUZ": TP.FLOAT8E4M3FNUZ, "f8E5M2": TP.FLOAT8E5M2, "f8E5M2FNUZ": TP.FLOAT8E5M2FNUZ,
    "ui4": TP.UINT4, "si4": TP.INT4,
}


class Unsupported(Exception):
    """The oracle (onnx.reference) cannot execute this; says nothing about the importer."""


def infer(model):
    return onnx.shape_inference.infer_shapes(model, data_prop=True)


def import_model(model, config=None, verify=True):
    from torch_mlir import ir
    from torch_mlir.dialects import torch as td
    from torch_mlir.extras import onnx_importer as oi

    ctx = ir.Context()
    td.register_dialect(ctx)
    mi = oi.ModelInfo(model, config=config) if config is not None else oi.ModelInfo(model)
    m = mi.create_module(context=ctx).operation
    oi.NodeImporter.define_function(mi.main_graph, m).import_all()
    if verify:
        m.verify()
    return m


def expand_all():
    from torch_mlir.extras import onnx_importer as oi

    c = oi.Config()
    c.function_expansion_allowlists_by_domain = None
    return c


def attr_to_tensor(a, name="t"):
    """Dense(Resource)ElementsAttr -> TensorProto with the same bytes"""
    st = a._type
    t = onnx.TensorProto()
    t.name = name
    t.data_type = ELEM[str(st.element_type)]
    t.dims.extend(int(d) for d in st.dims)
    if isinstance(a, F.DenseResourceElementsAttr):
        t.raw_data = a.raw
    else:
        d = np.ascontiguousarray(a.data)
        if d.dtype.itemsize > 1 and d.dtype.byteorder == ">":
            d = d.astype(d.dtype.newbyteorder("<"))
        t.raw_data = d.tobytes()
    return t


def _short(v):
    if isinstance(v, np.ndarray):
        return f"{v.dtype}{list(v.shape)}={v.reshape(-1)[:6].tolist()}"
    return repr(v)[:150]


def check_type(v, t, where):
    def bad(m):
        raise TypeSoundness(f"{where}: value {_short(v)} does not inhabit {t} ({m})")

    if t.kind == "none":
        if v is not None:
            bad("none")
    elif t.kind in ("vtensor", "tensor"):
        if v is None:
            bad("none")
        v = np.asarray(v)
        if t.dims is not None:
            if v.ndim != len(t.dims):
                bad("rank")
            if any(b is not None and a != b for a, b in zip(v.shape, t.dims)):
                bad("size")
        if t.dtype is not None:
            e = NPD.get(str(t.dtype))
            if e is not None and v.dtype != e:
                bad("element type")
    elif t.kind == "list":
        if not isinstance(v, (list, tuple)):
            bad("list")
        for x in v:
            check_type(x, t.elem, where)
    elif t.kind == "optional":
        if v is not None:
            check_type(v, t.elem, where)
    else:
        bad("kind")


GRAPH_ATTRS = {  # alphabetical: region i belongs to the i-th of them
    "If": ["else_branch", "then_branch"], "Loop": ["body"], "Scan": ["body"],
    "SequenceMap": ["body"],
}
_EV = {}


def attr_protos(at):
    out = []
    for k, a in sorted(at.items()):
        if not k.startswith("torch.onnx."):
            continue
        n = k[len("torch.onnx."):]
        p = onnx.AttributeProto()
        p.name = n
        AT = onnx.AttributeProto
        if isinstance(a, F.FloatAttr):
            p.type, p.f = AT.FLOAT, a.value
            if str(a._type) != "f32":
                raise InterpError(f"attribute {n}: {a._type}")
        elif isinstance(a, F.IntegerAttr):
            p.type, p.i = AT.INT, a.value
            if str(a._type) != "si64":
                raise InterpError(f"attribute {n}: {a._type}")
        elif isinstance(a, F.StringAttr):
            p.type = AT.STRING
            p.s = a.value if isinstance(a.value, bytes) else a.value.encode()
        elif isinstance(a, (F.DenseElementsAttr, F.DenseResourceElementsAttr)):
            p.type = AT.TENSOR
            p.t.CopyFrom(attr_to_tensor(a, n))
        elif isinstance(a, F.ArrayAttr):
            its = list(a.items)
            if its and isinstance(its[0], F.FloatAttr):
                p.type = AT.FLOATS
                p.floats.extend(x.value for x in its)
            elif its and isinstance(its[0], F.StringAttr):
                p.type = AT.STRINGS
                p.strings.extend(x.value if isinstance(x.value, bytes) else x.value.encode()
                                 for x in its)
            elif its and isinstance(its[0], (F.DenseElementsAttr, F.DenseResourceElementsAttr)):
                p.type = AT.TENSORS
                for x in its:
                    p.tensors.add().CopyFrom(attr_to_tensor(x))
            else:
                p.type = AT.INTS
                p.ints.extend(x.value for x in its)
        else:
            raise InterpError(f"attribute {n}: {type(a)}")
        out.append(p)
    return out


class OInterp:
    def __init__(self, module, check=True, extra=None, domains=None):
        self.funcs = {}
        for o in module._regions[0]._blocks[0]._ops:
            n = F._sym(o)
            if n in self.funcs:
                raise InterpError(f"duplicate symbol {n}")
            self.funcs[n] = o
        self.check = check
        self.extra = extra or {}
        self.domains = domains or {}
        self.ops_run = 0
        self.expanded = 0

    def call(self, name, args):
        f = self.funcs[name]
        b = f._regions[0]._blocks[0]
        if len(args) != len(b.arguments):
            raise InterpError(f"{name}: {len(args)} arguments for {len(b.arguments)}")
        env = {}
        for v, a in zip(args, b.arguments):
            if self.check:
                check_type(v, a.type, f"argument of {name}")
            env[a] = v
        ver = f.attributes.get("torch.onnx_meta.opset_version")
        return self.block(b, env, ver.value if ver is not None else None)

    def block(self, b, env, opset):
        for op in b._ops:
            if op.name in ("func.return", "torch.operator_terminator"):
                return [env[v] for v in op._operands]
            r = self.op(op, [env[v] for v in op._operands], env, opset)
            if len(r) != len(op._results):
                raise InterpError(f"{op.name}: {len(r)} results, {len(op._results)} declared")
            for v, x in zip(op._results, r):
                if v.type.kind == "none":
                    x = None  # an omitted result
                if self.check:
                    w = op.attributes.get("name")
                    check_type(x, v.type, w.value if w is not None else op.name)
                env[v] = x
        raise InterpError("no terminator")

    def region(self, op, i, args, env, opset):
        b = op._regions[i]._blocks[0]
        if len(args) != len(b.arguments):
            raise InterpError(f"region takes {len(b.arguments)}, given {len(args)}")
        e = dict(env)
        for a, v in zip(b.arguments, args):
            if self.check:
                check_type(v, a.type, "region argument")
            e[a] = v
        return self.block(b, e, opset)

    def op(self, op, a, env, opset):
        self.ops_run += 1
        if op.name == "torch.constant.none":
            return [None]
        if op.name == "func.call":
            self.expanded += 1
            return self.call(op.attributes["callee"].value, a)
        if op.name != "torch.operator":
            raise InterpError(f"unexpected op {op.name}")
        name = op.attributes["name"].value
        if not name.startswith("onnx."):
            raise InterpError(f"operator {name}")
        t = name[5:]
        if t in self.extra:
            return self.extra[t](self, op, a, env)
        if t in GRAPH_ATTRS and len(op._regions) != len(GRAPH_ATTRS[t]):
            raise InterpError(f"{t} with {len(op._regions)} regions")
        if t == "If":
            return self.region(op, 1 if bool(np.asarray(a[0]).reshape(-1)[0]) else 0, [], env, opset)
        if t == "Loop":
            return self.loop(op, a, env, opset)
        if t == "Scan":
            return self.scan(op, a, env, opset)
        if t == "SequenceMap":
            outs = [[] for _ in op._results]
            for i, x in enumerate(a[0]):
                extra = [(y[i] if isinstance(y, (list, tuple)) else y) for y in a[1:]]
                for o, v in zip(outs, self.region(op, 0, [x, *extra], env, opset)):
                    o.append(v)
            return outs
        if op._regions:
            raise InterpError(f"regions on {t}")
        return self.leaf(op, t, a, opset)

    def leaf(self, op, t, a, opset):
        protos = attr_protos(op.attributes)
        nout = len(op._results)
        dom = self.domains.get(t, "")
        key = (t, opset, tuple(x is None for x in a), nout, dom,
               tuple(p.SerializeToString() for p in protos))
        ev = _EV.get(key)
        if ev is None:
            ins = ["" if x is None else f"i{k}" for k, x in enumerate(a)]
            while ins and ins[-1] == "":
                ins.pop()
            outs = [f"o{k}" for k in range(nout)]
            n = H.make_node(t, ins, outs, domain=dom)
            n.attribute.extend(protos)
            g = H.make_graph([n], "g", [onnx.ValueInfoProto(name=i) for i in ins if i],
                             [onnx.ValueInfoProto(name=o) for o in outs])
            m = H.make_model(g, opset_imports=[H.make_opsetid("", opset or 1)]
                             + ([H.make_opsetid(dom, 1)] if dom else []))
            try:
                ev = ReferenceEvaluator(m)
            except Exception as e:
                raise Unsupported(f"{t}: {e}")
            _EV[key] = ev
        try:
            return list(ev.run(None, {f"i{k}": x for k, x in enumerate(a) if x is not None}))
        except Exception as e:
            raise Unsupported(f"{t}: {type(e).__name__}: {e}")

    def loop(self, op, a, env, opset):
        m, cond, carry = a[0], a[1], list(a[2:])
        n_carry = len(carry)
        maxi = None if m is None else int(np.asarray(m).reshape(-1)[0])
        go = True if cond is None else bool(np.asarray(cond).reshape(-1)[0])
        scans = [[] for _ in range(len(op._results) - n_carry)]
        i = 0
        while go and (maxi is None or i < maxi):
            if i > 1000:
                raise InterpError("loop bound")
            mshape = op._regions[0]._blocks[0].arguments[0].type.dims
            it = np.array(i, dtype=np.int64).reshape([1] * len(mshape or []))
            cshape = op._regions[0]._blocks[0].arguments[1].type.dims
            r = self.region(op, 0, [it, np.array(True).reshape([1] * len(cshape or [])), *carry],
                            env, opset)
            go = bool(np.asarray(r[0]).reshape(-1)[0])
            carry = r[1:1 + n_carry]
            for s, v in zip(scans, r[1 + n_carry:]):
                s.append(np.asarray(v))
            i += 1
        out = list(carry)
        for k, s in enumerate(scans):
            if s:
                out.append(np.stack(s))
            else:
                t = op._regions[0]._blocks[0]._ops[-1]._operands[1 + n_carry + k].type
                out.append(np.zeros([0] + [d or 0 for d in t.dims], NPD[str(t.dtype)]))
        return out

    def scan(self, op, a, env, opset):
        at = op.attributes
        n = at["torch.onnx.num_scan_inputs"].value
        ints = lambda k, d: ([x.value for x in at[k].items] if k in at else d)
        state, ins = list(a[:len(a) - n]), list(a[len(a) - n:])
        n_out = len(op._results) - len(state)
        ia = ints("torch.onnx.scan_input_axes", [0] * n)
        idr = ints("torch.onnx.scan_input_directions", [0] * n)
        oa = ints("torch.onnx.scan_output_axes", [0] * n_out)
        od = ints("torch.onnx.scan_output_directions", [0] * n_out)
        T = ins[0].shape[ia[0]]
        outs = [[] for _ in range(n_out)]
        for t in range(T):
            xs = [np.take(x, T - 1 - t if d else t, axis=ax) for x, ax, d in zip(ins, ia, idr)]
            r = self.region(op, 0, state + xs, env, opset)
            state = r[:len(state)]
            for o, v in zip(outs, r[len(state):]):
                o.append(v)
        res = []
        for o, ax, d in zip(outs, oa, od):
            res.append(np.stack(o[::-1] if d else o, axis=ax))
        return state + res


def same(a, b, exact=True):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(same(x, y, exact) for x, y in zip(a, b)))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "fc":
        if exact:
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.allclose(a, b, rtol=1e-3, atol=1e-5, equal_nan=True))
    return bool(np.array_equal(a, b))


def reference(model):
    try:
        return ReferenceEvaluator(model)
    except Exception as e:
        raise Unsupported(str(e))


# -- free-term semantics: every operator is an uninterpreted function -----------
def canon_tensor(t):
    """(element type, dims, bytes) of a TensorProto"""
    if t.HasField("raw_data"):
        raw = t.raw_data
    else:
        a = onnx.numpy_helper.to_array(t)
        raw = a.tobytes()
    return ("tensor", t.data_type, tuple(t.dims), bytes(raw))


def canon_attr(p):
    import struct

    AT = onnx.AttributeProto
    f = lambda x: struct.pack("<f", x)
    v = {
        AT.FLOAT: lambda: f(p.f), AT.INT: lambda: p.i, AT.STRING: lambda: bytes(p.s),
        AT.TENSOR: lambda: canon_tensor(p.t), AT.FLOATS: lambda: tuple(f(x) for x in p.floats),
        AT.INTS: lambda: tuple(p.ints), AT.STRINGS: lambda: tuple(bytes(s) for s in p.strings),
        AT.TENSORS: lambda: tuple(canon_tensor(t) for t in p.tensors),
    }[p.type]()
    k = "list" if p.type in (AT.FLOATS, AT.INTS, AT.STRINGS, AT.TENSORS) and not v else p.type
    return (p.name, k, v)  # an empty list has no element kind in the IR


class TermInterp(OInterp):
    """Executes imported IR over the free term algebra."""

    def __init__(self, module):
        super().__init__(module, check=False)
        self.types = {}  # term -> set of declared types

    def leaf(self, op, t, a, opset):
        at = tuple(sorted((canon_attr(p) for p in attr_protos(op.attributes)), key=repr))
        a = list(a)
        while a and a[-1] is None:
            a.pop()
        out = [("op", t, opset, tuple(a), at, i) for i in range(len(op._results))]
        for v, r in zip(op._results, out):
            self.types.setdefault(r, set()).add(str(v.type))
        return out


def term_eval(model, args=None):
    """The same semantics computed directly from the ModelProto."""
    g = model.graph
    opset = {o.domain: o.version for o in model.opset_import}.get("")
    env, types = {"": None}, {}
    inits = {t.name for t in g.initializer}
    ins = [i.name for i in g.input if i.name not in inits]
    const = lambda t: ("op", "Constant", opset, (), (("value", onnx.AttributeProto.TENSOR, canon_tensor(t)),), 0)
    for k, n in enumerate(ins):
        env[n] = ("in", k)
    for t in g.initializer:
        env[t.name] = const(t)
    for n in g.node:
        a = [env[x] for x in n.input]
        while a and a[-1] is None:
            a.pop()
        at = tuple(sorted((canon_attr(p) for p in n.attribute), key=repr))
        for i, o in enumerate(n.output):
            if o:
                env[o] = ("op", n.op_type, opset, tuple(a), at, i)
    for v in list(g.value_info) + list(g.output):
        if v.name in env and v.type.HasField("tensor_type"):
            types[env[v.name]] = type_str(v.type)
    return [env[o.name] for o in g.output], types, len(ins)


IR_ELEM = {v: k for k, v in ELEM.items()}


def type_str(tp):
    """Independent rendering of a TypeProto as the torch type it must become; None = must be rejected."""
    k = tp.WhichOneof("value")
    if k == "tensor_type":
        tt = tp.tensor_type
        e = "!torch.str" if tt.elem_type == TP.STRING else IR_ELEM.get(tt.elem_type)
        if e is None:
            return None
        if not tt.HasField("shape"):
            return f"!torch.vtensor<*,{e}>"
        return "!torch.vtensor<[%s],%s>" % (
            ",".join(str(d.dim_value) if d.HasField("dim_value") else "?" for d in tt.shape.dim), e)
    if k in ("sequence_type", "optional_type"):
        e = getattr(tp, k).elem_type
        ek = e.WhichOneof("value")
        if k == "sequence_type" and ek != "tensor_type":
            return None
        if k == "optional_type" and ek not in ("tensor_type", "sequence_type"):
            return None
        s = type_str(e)
        if s is None:
            return None
        return ("!torch.list<%s>" if k == "sequence_type" else "!torch.optional<%s>") % s[len("!torch."):]
    return None


# -- an evaluator of ModelProtos with control flow as the ONNX standard defines it -----
class ProtoEval:
    def __init__(self, model):
        self.m = model
        self.opset = {o.domain: o.version for o in model.opset_import}.get("", 1)

    def run(self, feeds):
        return self.graph(self.m.graph, dict(feeds), {})

    def graph(self, g, args, outer):
        env = dict(outer)
        for t in g.initializer:
            env[t.name] = onnx.numpy_helper.to_array(t)
        env.update(args)
        for n in g.node:
            r = self.node(n, [env[i] if i else None for i in n.input], env)
            for o, v in zip(n.output, r):
                if o:
                    env[o] = v
        return [env[o.name] for o in g.output]

    def sub(self, g, vals, env):
        assert len(g.input) == len(vals)
        return self.graph(g, {i.name: v for i, v in zip(g.input, vals)}, env)

    def node(self, n, a, env):
        at = {x.name: x for x in n.attribute}
        t = n.op_type
        if t == "If":
            return self.sub(at["then_branch" if bool(np.asarray(a[0]).reshape(-1)[0]) else "else_branch"].g, [], env)
        if t == "Loop":
            g = at["body"].g
            carry = list(a[2:])
            n_scan = len(g.output) - 1 - len(carry)
            scans = [[] for _ in range(n_scan)]
            i, go = 0, a[1] is None or bool(np.asarray(a[1]).reshape(-1)[0])
            while go and (a[0] is None or i < int(a[0])):
                r = self.sub(g, [np.array(i, np.int64), np.array(True), *carry], env)
                go = bool(np.asarray(r[0]).reshape(-1)[0])
                carry = r[1:1 + len(carry)]
                for s, v in zip(scans, r[1 + len(carry):]):
                    s.append(v)
                i += 1
                assert i < 1000
            outs = []
            for s, o in zip(scans, g.output[1 + len(carry):]):
                tt = o.type.tensor_type
                outs.append(np.stack(s) if s else np.zeros(
                    [0] + [d.dim_value for d in tt.shape.dim], H.tensor_dtype_to_np_dtype(tt.elem_type)))
            return carry + outs
        if t == "Scan":
            g = at["body"].g
            k = at["num_scan_inputs"].i
            state, ins = list(a[:len(a) - k]), list(a[len(a) - k:])
            no = len(g.output) - len(state)
            L = lambda nm, d: list(at[nm].ints) if nm in at else d
            ia, idr = L("scan_input_axes", [0] * k), L("scan_input_directions", [0] * k)
            oa, od = L("scan_output_axes", [0] * no), L("scan_output_directions", [0] * no)
            T = ins[0].shape[ia[0]]
            outs = [[] for _ in range(no)]
            for s in range(T):
                xs = [np.take(x, T - 1 - s if d else s, axis=ax) for x, ax, d in zip(ins, ia, idr)]
                r = self.sub(g, state + xs, env)
                state = r[:len(state)]
                for o, v in zip(outs, r[len(state):]):
                    o.append(v)
            return state + [np.stack(o[::-1] if d else o, axis=ax) for o, ax, d in zip(outs, oa, od)]
        if t == "SequenceMap":
            outs = None
            for i, x in enumerate(a[0]):
                r = self.sub(at["body"].g, [x] + [y[i] if isinstance(y, list) else y for y in a[1:]], env)
                outs = outs or [[] for _ in r]
                for o, v in zip(outs, r):
                    o.append(v)
            return outs
        key = ("p", n.op_type, n.domain, self.opset, tuple(x is None for x in a), len(n.output),
               tuple(sorted(x.SerializeToString() for x in n.attribute)))
        ev = _EV.get(key)
        if ev is None:
            n2 = onnx.NodeProto()
            n2.CopyFrom(n)
            del n2.input[:]
            del n2.output[:]
            n2.input.extend("" if x is None else f"i{k}" for k, x in enumerate(a))
            n2.output.extend(f"o{k}" for k in range(len(n.output)))
            g = H.make_graph([n2], "g", [onnx.ValueInfoProto(name=i) for i in n2.input if i],
                             [onnx.ValueInfoProto(name=o) for o in n2.output])
            try:
                ev = ReferenceEvaluator(H.make_model(g, opset_imports=list(self.m.opset_import)))
            except Exception as e:
                raise Unsupported(f"{t}: {e}")
            _EV[key] = ev
        try:
            return ev.run(None, {f"i{k}": x for k, x in enumerate(a) if x is not None})
        except Exception as e:
            raise Unsupported(f"{t}: {type(e).__name__}: {e}")

"""O05: ONNX value types become the torch types they denote.

Every TypeProto over (element type x dimension vector x rank, unknown rank),
wrapped in every nesting of sequence/optional/map/sparse/opaque to depth 3, at
every position a type can be written (graph input, graph output, node result,
subgraph result, loop-body argument), plus every ordered pair of types of one
family in one model (the importer caches types).  A type with no torch
counterpart must be rejected, never replaced by another one.
"""
import itertools

from mc import env

env.install_fake_mlir()
import onnx
from onnx import TensorProto as TP
from onnx import helper as H

from mc import onnxlib as O
from mc.core import Violation

ID = "O05"
LEVEL = "model_checking"
RULE = ("state = a value type (or ordered pair of types) of the bounded family; transition = writing it at "
        "one position of a model and importing that model with the real importer")

DIMS = [0, 1, 2, 7, 2 ** 31, 2 ** 62, "N", "M", None]
ELEMS = sorted(set(TP.DataType.values()) - {0}) + [77]


def tensor(e, dims):
    """dims None = unknown rank"""
    t = onnx.TypeProto()
    t.tensor_type.elem_type = e
    if dims is not None:
        t.tensor_type.shape.SetInParent()
        for d in dims:
            x = t.tensor_type.shape.dim.add()
            if isinstance(d, int):
                x.dim_value = d
            elif d is not None:
                x.dim_param = d
    return t


def wrap(kind, t):
    w = onnx.TypeProto()
    if kind in ("sequence_type", "optional_type"):
        getattr(w, kind).elem_type.CopyFrom(t)
    elif kind == "map_type":
        w.map_type.key_type = TP.INT64
        w.map_type.value_type.CopyFrom(t)
    elif kind == "sparse":
        w.sparse_tensor_type.elem_type = t.tensor_type.elem_type
        if t.tensor_type.HasField("shape"):
            w.sparse_tensor_type.shape.CopyFrom(t.tensor_type.shape)
    return w


def build(spec):
    if spec[0] == "t":
        return tensor(spec[1], spec[2])
    if spec[0] == "seqempty":
        w = onnx.TypeProto()
        w.sequence_type.SetInParent()
        return w
    if spec[0] == "optempty":
        w = onnx.TypeProto()
        w.optional_type.SetInParent()
        return w
    return wrap(spec[0], build(spec[1]))


POS = ["input", "output", "result", "sub_result", "sub_arg", "unused_result"]
F1 = tensor(TP.FLOAT, [2])
I64, B0 = tensor(TP.INT64, []), tensor(TP.BOOL, [])


def vi(n, t):
    v = onnx.ValueInfoProto()
    v.name = n
    v.type.CopyFrom(t)
    return v


def model(types, pos):
    """a model holding types[i] at position pos; -> (model, where) """
    k = range(len(types))
    nodes, ins, outs, infos = [], [vi("x", F1)], [vi("y", F1)], []
    N = lambda op, i, o, **a: H.make_node(op, i, o, domain="test.dom", **a)
    if pos == "input":
        ins += [vi(f"v{i}", types[i]) for i in k]
        nodes.append(N("Op", ["x"] + [f"v{i}" for i in k], ["y"]))
    elif pos == "output":
        outs = [vi(f"v{i}", types[i]) for i in k]
        nodes += [N("Op", ["x"], [f"v{i}"]) for i in k]
    elif pos in ("result", "unused_result"):
        infos += [vi(f"v{i}", types[i]) for i in k]
        nodes.append(N("Op", ["x"], [f"v{i}" for i in k]))
        nodes.append(N("Use", [f"v{i}" for i in k] if pos == "result" else ["x"], ["y"]))
    elif pos == "sub_result":
        mk = lambda b: H.make_graph([N("Op", ["x"], [f"{b}{i}"]) for i in k], b, [],
                                    [vi(f"{b}{i}", types[i]) for i in k])
        ins.append(vi("c", B0))
        infos += [vi(f"v{i}", types[i]) for i in k]
        nodes.append(H.make_node("If", ["c"], [f"v{i}" for i in k], then_branch=mk("p"), else_branch=mk("q")))
        nodes.append(N("Use", [f"v{i}" for i in k], ["y"]))
    elif pos == "sub_arg":
        ins += [vi("n", I64), vi("c", B0)] + [vi(f"v{i}", types[i]) for i in k]
        infos += [vi(f"r{i}", types[i]) for i in k]
        b = H.make_graph([N("Op", ["ci"], ["co"])] + [N("Op", [f"a{i}"], [f"b{i}"]) for i in k], "body",
                         [vi("it", I64), vi("ci", B0)] + [vi(f"a{i}", types[i]) for i in k],
                         [vi("co", B0)] + [vi(f"b{i}", types[i]) for i in k])
        nodes.append(H.make_node("Loop", ["n", "c"] + [f"v{i}" for i in k], [f"r{i}" for i in k], body=b))
        nodes.append(N("Use", [f"r{i}" for i in k], ["y"]))
    g = H.make_graph(nodes, "g", ins, outs, value_info=infos)
    return H.make_model(g, opset_imports=[H.make_opsetid("", 17), H.make_opsetid("test.dom", 1)])


def opnamed(op):
    at = op.attributes
    return at["name"].value if "name" in at.keys() else ""


def walk(block):
    for op in block.operations:
        op = getattr(op, "operation", op)
        yield op
        for r in op.regions:
            for b in r.blocks:
                yield from walk(b)


def found(m, pos, n):
    """every list of n types the IR carries at the position"""
    f = list(m.regions[0].blocks[0].operations)[0].operation
    blk = f.regions[0].blocks[0]
    ftype = f.attributes["function_type"].value
    ops = list(walk(blk))
    S = lambda vs: [str(v) for v in vs]
    T = lambda vs: [str(v.type) for v in vs]
    if pos == "input":
        return [S(ftype.inputs)[1:], T(blk.arguments)[1:]]
    if pos == "output":
        ret = [o for o in ops if o.name == "func.return"][0]
        return [S(ftype.results), T(ret.operands), [str(o.results[0].type) for o in ops
                                                    if len(o.results) and opnamed(o) == "test.dom.Op"] or None]
    prod = [o for o in ops if len(o.results) and opnamed(o).endswith("Op")]
    use = [o for o in ops if opnamed(o).endswith("Use")]
    if pos in ("result", "unused_result"):
        r = [T(prod[0].results)]
        return r + [T(use[0].operands)] if pos == "result" else r
    if pos == "sub_result":
        o = [x for x in ops if x.name == "torch.operator" and len(x.regions)][0]
        r = [T(o.results), T(use[0].operands)]
        for reg in o.regions:
            bl = reg.blocks[0]
            t = list(bl.operations)[-1]
            r.append(T(getattr(t, "operation", t).operands))
        return r
    o = [x for x in ops if x.name == "torch.operator" and len(x.regions)][0]
    bl = o.regions[0].blocks[0]
    t = list(bl.operations)[-1]
    return [T(o.results), T(o.operands)[2:], T(bl.arguments)[2:],
            T(getattr(t, "operation", t).operands)[1:], T(use[0].operands)]


def one(types, pos):
    m = model(types, pos)
    want = [O.type_str(t) for t in types]
    key = f"{pos}:{[str(t).split() for t in types]}"
    try:
        mod = O.import_model(m)
    except Exception as e:
        if None in want:
            if not isinstance(e, (Exception,)):
                raise
            return "rejected"
        raise Violation(f"import:{key}", f"{want} at {pos}: {type(e).__name__}: {e}")
    if None in want:
        raise Violation(f"accepted:{key}", f"a type with no torch counterpart was accepted at {pos}: {types}\n{mod}")
    for got in found(mod, pos, len(types)):
        if got is not None and got != want:
            raise Violation(f"type:{key}", f"{pos}: IR has {got}, model says {want}\n{mod}")
    return "ok"


def case(c):
    kind, x = c
    n = {"ok": 0, "rejected": 0}
    if kind == "one":
        for p in POS:
            n[one([build(x)], p)] += 1
    else:
        for y in pairfam():
            for p in ("input", "sub_arg", "result"):
                n[one([build(x), build(y)], p)] += 1
    return n


def shapes(r, dims):
    return [list(d) for d in itertools.product(dims, repeat=r)]


def family(thorough):
    sp = [("t", e, s) for e in ELEMS for s in [None, [], [2], ["N"], [None], [0], [2, None], [3, 0, "N"]]]
    for r in (1, 2) + ((3,) if thorough else ()):
        for s in shapes(r, DIMS):
            sp += [("t", e, s) for e in (TP.FLOAT, TP.BOOL)]
    if not thorough:
        sp += [("t", TP.INT64, s) for s in shapes(3, [0, 2, "N", None])]
    sp += [("t", TP.FLOAT, s) for s in shapes(4, [1, "N", None])]
    leaf = [("t", e, s) for e in ([TP.FLOAT, TP.INT64, TP.BOOL, TP.BFLOAT16, TP.FLOAT8E5M2, TP.STRING, TP.COMPLEX64,
                                   77, 0] if not thorough else ELEMS + [0])
            for s in (None, [], [2], ["N"], [None], [0], [2, None, "N"])]
    sp += [x for x in leaf if x[1] == 0]
    W = ["sequence_type", "optional_type", "map_type"]
    d1 = [(w, x) for w in W + ["sparse"] for x in leaf]
    few = [x for x in leaf if x[1] in (TP.FLOAT, TP.BOOL, 77)]
    d2 = [(w, (v, x)) for w in W for v in W + ["sparse"] for x in (leaf if thorough else few)]
    d3 = [(w, (v, (u, x))) for w in W for v in W for u in W + ["sparse"] for x in few]
    empt = [("seqempty",), ("optempty",)]
    return sp + d1 + d2 + d3 + empt + [(w, e) for w in W for e in empt]


def pairfam():
    ts = [("t", e, s) for e in (TP.FLOAT, TP.INT64) for s in (None, [], [2], ["N"], [1], [2, 1], [0])]
    return (ts + [("sequence_type", x) for x in ts[:5]] + [("optional_type", x) for x in ts[:5]]
            + [("optional_type", ("sequence_type", x)) for x in ts[:4]] + [("t", TP.INT32, [2]), ("t", TP.UINT8, [2]),
                                                                        ("t", TP.INT8, [2]), ("t", TP.BOOL, [2])])


def run(ck):
    cs = [("one", x) for x in family(ck.thorough)] + [("pair", x) for x in pairfam()]
    infos = ck.run_cases(cs, case, chunk=8, keyfn=repr)
    tot = {"ok": 0, "rejected": 0}
    for c, i in zip(cs, infos):
        ck.state(repr(c))
        for k in tot:
            tot[k] += (i or {}).get(k, 0)
    ck.transitions = sum(tot.values())
    ck.traces = sum(tot.values())
    ck.extra.update(typed_imports=tot["ok"], rejected_imports=tot["rejected"], positions=len(POS))
    ck.sample({"type": "optional(sequence(tensor<float,[2,?,N]>)) at every position"})
    ck.assumptions += ["negative dimension values are invalid ONNX and not explored",
                       "MLIR bindings replaced by an executable stand-in (mc/fakemlir.py)"]


def replay(ck, c):
    try:
        case((c[0], c[1]))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

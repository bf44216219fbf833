"""O02: ONNX tensor data is embedded bit for bit.

Every element type x every storage form (raw bytes, each typed field) x shapes x
every position (initializer, initialized input, Constant value, tensor
attribute, tensor-list attribute, constants of subgraphs), with all bit patterns
of 8- and 16-bit types and boundary patterns of the wider ones; every ordered
pair of tensors under clashing names.  The reference is ONNX's own decoding.
"""
import itertools

from mc import env

env.install_fake_mlir()
import numpy as np
import onnx
from onnx import TensorProto as TP
from onnx import helper as H

from mc import onnxlib as O
from mc import fakemlir as F
from mc.core import Violation

ID = "O02"
LEVEL = "model_checking"
RULE = ("state = (element type, storage form, shape, bit patterns); transition = placing the tensor at "
        "one position of a model (or a second tensor beside it) and importing the model")

BITS = {TP.FLOAT: 32, TP.UINT8: 8, TP.INT8: 8, TP.UINT16: 16, TP.INT16: 16, TP.INT32: 32, TP.INT64: 64,
        TP.BOOL: 8, TP.FLOAT16: 16, TP.DOUBLE: 64, TP.UINT32: 32, TP.UINT64: 64, TP.COMPLEX64: 64,
        TP.COMPLEX128: 128, TP.BFLOAT16: 16, TP.FLOAT8E4M3FN: 8, TP.FLOAT8E4M3FNUZ: 8,
        TP.FLOAT8E5M2: 8, TP.FLOAT8E5M2FNUZ: 8, TP.UINT4: 4, TP.INT4: 4}
NAME = {v: k for k, v in TP.DataType.items()}
# element types whose typed field the importer supports today; the others must either be exact or be rejected
ACCEPT_TYPED = {TP.FLOAT, TP.BOOL, TP.UINT8, TP.INT8, TP.INT16, TP.INT32, TP.INT64, TP.DOUBLE, TP.UINT32,
                TP.UINT64}


def patterns(et):
    """bit patterns (little-endian byte strings, one per element)"""
    b = BITS[et]
    if et == TP.BOOL:
        return [bytes([0]), bytes([1])]
    if b <= 16:
        n = max(1, b // 8)
        return [i.to_bytes(n, "little") for i in range(2 ** b)]
    n = b // 8
    vals = {0, 1, 2, 255, 256, 2 ** (b - 1), 2 ** (b - 1) - 1, 2 ** b - 1, 2 ** b - 2, 0x0102030405060708 % 2 ** b}
    if et in (TP.FLOAT, TP.COMPLEX64):
        vals |= {0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 0x7fc12345, 0x80000000,
                 0x00000001, 0x007fffff, 0x7f7fffff, 0x3dcccccd}
    if et in (TP.DOUBLE, TP.COMPLEX128):
        vals |= {0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000,
                 0xfff8000000012345, 0x8000000000000000, 1, 0x7fefffffffffffff, 0x3fb999999999999a}
    if et == TP.COMPLEX64:
        v32 = sorted(v % 2 ** 32 for v in vals)
        return [a.to_bytes(4, "little") + c.to_bytes(4, "little") for a, c in zip(v32, v32[::-1])]
    if et == TP.COMPLEX128:
        v64 = sorted(v % 2 ** 64 for v in vals)
        return [a.to_bytes(8, "little") + c.to_bytes(8, "little") for a, c in zip(v64, v64[::-1])]
    vs = [v.to_bytes(n, "little") for v in sorted(vals)]
    vs += [(1 << i).to_bytes(n, "little") for i in range(b)]
    if et == TP.FLOAT:  # signalling NaNs are not preserved by ONNX's own typed field
        vs = [v for v in vs if not ((int.from_bytes(v, "little") & 0x7f800000) == 0x7f800000
                                    and int.from_bytes(v, "little") & 0x7fffff
                                    and not int.from_bytes(v, "little") & 0x400000)]
    return vs


def pack4(vals):
    out = bytearray()
    for i in range(0, len(vals), 2):
        out.append((vals[i] & 15) | ((vals[i + 1] & 15) << 4 if i + 1 < len(vals) else 0))
    return bytes(out)


def make(et, pats, shape, storage, name="t"):
    t = onnx.TensorProto()
    t.name, t.data_type = name, et
    t.dims.extend(shape)
    n = int(np.prod(shape)) if shape else 1
    pats = [pats[i % len(pats)] for i in range(n)]
    if et in (TP.UINT4, TP.INT4):
        raw = pack4([p[0] for p in pats])
    else:
        raw = b"".join(pats)
    if storage == "raw":
        t.raw_data = raw
        return t, raw
    dt = {TP.FLOAT: "<f4", TP.DOUBLE: "<f8", TP.INT64: "<i8", TP.UINT64: "<u8", TP.INT32: "<i4", TP.UINT32: "<u4",
          TP.INT16: "<i2", TP.UINT16: "<u2", TP.INT8: "i1", TP.UINT8: "u1", TP.BOOL: "u1", TP.FLOAT16: "<u2",
          TP.BFLOAT16: "<u2", TP.COMPLEX64: "<f4", TP.COMPLEX128: "<f8"}.get(et, "u1")
    vals = np.frombuffer(raw, dt).tolist()
    if et in (TP.FLOAT, TP.COMPLEX64):
        t.float_data.extend(vals)
    elif et in (TP.DOUBLE, TP.COMPLEX128):
        t.double_data.extend(vals)
    elif et == TP.INT64:
        t.int64_data.extend(vals)
    elif et in (TP.UINT32, TP.UINT64):
        t.uint64_data.extend(vals)
    else:
        t.int32_data.extend(vals)
    return t, raw


def tinfo(name, t):
    return H.make_tensor_value_info(name, t.data_type, list(t.dims))


POS = ["init", "init_input", "constant", "attr", "attrs", "sub_const", "sub_init", "loop_const"]


def model(t, pos):
    """a model holding t at `pos`; its IR attribute is the only one of interest"""
    x = H.make_tensor_value_info("x", TP.FLOAT, [2])
    b = H.make_tensor_value_info("b", TP.BOOL, [])
    out = tinfo("y", t)
    t2 = onnx.TensorProto()
    t2.CopyFrom(t)
    if pos in ("init", "init_input"):
        t2.name = "t"
        n = H.make_node("Identity", ["t"], ["y"])
        ins = [x] + ([tinfo("t", t)] if pos == "init_input" else [])
        g = H.make_graph([n], "g", ins, [out], initializer=[t2])
    elif pos == "constant":
        g = H.make_graph([H.make_node("Constant", [], ["t"], value=t2), H.make_node("Identity", ["t"], ["y"])],
                         "g", [x], [out], value_info=[tinfo("t", t)])
    elif pos in ("attr", "attrs"):
        n = H.make_node("ConstantOfShape", ["x"], ["y"])
        a = onnx.AttributeProto()
        a.name = "value"
        if pos == "attr":
            a.type = a.TENSOR
            a.t.CopyFrom(t2)
        else:
            a.type = a.TENSORS
            a.tensors.extend([H.make_tensor("z", TP.FLOAT, [1], [9.0]), t2])
        n.attribute.append(a)
        g = H.make_graph([n], "g", [x], [H.make_tensor_value_info("y", TP.FLOAT, ["n"])])
    else:
        t2.name = "t"
        inits = [t2] if pos == "sub_init" else []
        cn = [] if pos == "sub_init" else [H.make_node("Constant", [], ["t"], value=t2)]
        if pos == "loop_const":
            body = H.make_graph(
                cn + [H.make_node("Identity", ["t"], ["r"]), H.make_node("Identity", ["c"], ["c2"])], "body",
                [H.make_tensor_value_info("i", TP.INT64, []), H.make_tensor_value_info("c", TP.BOOL, []),
                 tinfo("v", t)],
                [H.make_tensor_value_info("c2", TP.BOOL, []), tinfo("r", t)], value_info=[tinfo("t", t)])
            n = H.make_node("Loop", ["m", "b", "v0"], ["y"], body=body)
            g = H.make_graph([n], "g", [H.make_tensor_value_info("m", TP.INT64, []), b, tinfo("v0", t)], [out])
        else:
            mk = lambda nm, r: H.make_graph(
                [H.make_node("Constant", [], ["t" if r is t2 else "u"], value=r)] * (r is not t2 or not inits)
                + [H.make_node("Identity", ["t" if r is t2 else "u"], [nm])], nm + "g", [],
                [tinfo(nm, t)], initializer=inits if r is t2 else [],
                value_info=[] if inits and r is t2 else [tinfo("t" if r is t2 else "u", r)])
            other = onnx.TensorProto()
            other.CopyFrom(t2)
            n = H.make_node("If", ["b"], ["y"], then_branch=mk("p", t2), else_branch=H.make_graph(
                [H.make_node("Identity", ["v0"], ["q"])], "qg", [], [tinfo("q", t)]))
            g = H.make_graph([n], "g", [b, tinfo("v0", t)], [out])
    return H.make_model(g, opset_imports=[H.make_opsetid("", 13)])


def ops_of(op):
    for r in op._regions:
        for b in r._blocks:
            for o in b._ops:
                yield o
                yield from ops_of(o)


def embedded(mod):
    """every tensor attribute of the module: [(op, attribute, result type or None)]"""
    out = []
    for o in ops_of(mod):
        for k in list(o.attributes.keys()) if hasattr(o.attributes, "keys") else []:
            a = o.attributes[k]
            its = a.items if isinstance(a, F.ArrayAttr) else [a]
            for x in its:
                if isinstance(x, (F.DenseElementsAttr, F.DenseResourceElementsAttr)):
                    out.append((o, x, k))
    return out


def raw_of(a):
    if isinstance(a, F.DenseResourceElementsAttr):
        return a.raw
    return np.ascontiguousarray(a.data).tobytes()


def expect(m, checks, key, may_reject):
    """checks: list of (elem type, shape, raw) that must be embedded, in program order"""
    try:
        mod = O.import_model(m)
    except Exception as e:
        if may_reject:
            return 0
        raise Violation(f"rejected:{key}", f"{type(e).__name__}: {e}")
    em = embedded(mod)
    have = []
    for o, a, k in em:
        st = a._type
        have.append((str(st.element_type), tuple(int(d) for d in st.dims), raw_of(a)))
        nm = o.attributes["name"].value
        if nm == "onnx.Constant":
            rt = str(o._results[0].type)
            w = "!torch.vtensor<[%s],%s>" % (",".join(map(str, st.dims)), st.element_type)
            if rt != w:
                raise Violation(f"type:{key}", f"constant of {st} declared {rt}")
    want = [(O.IR_ELEM[et], tuple(sh), raw) for et, sh, raw in checks]
    if have != want:
        for h, w in itertools.zip_longest(have, want):
            if h != w:
                raise Violation(f"data:{key}", f"embedded {str(h)[:300]}\nexpected {str(w)[:300]}")
    return 1


def shapes_for(et, n):
    return [(n,), (1, n), (n, 1)]


def case_data(c):
    et, storage, pos = c
    pats = patterns(et)
    k = 0
    may = et not in ACCEPT_TYPED if storage == "typed" else False
    shapes = [(), (1,), (0,), (2, 3), (3, 0, 2), (1, 1, 1), (2, 1, 2, 2), (5,)] + shapes_for(et, len(pats))
    # every single value as a rank-0 tensor and as a splat of 3 (narrow types: all 2^8)
    acc = 0
    for sh in shapes:
        t, raw = make(et, pats, sh, storage)
        chk = [(et, sh, raw)]
        if pos == "attrs":
            chk = [(TP.FLOAT, (1,), np.float32(9).tobytes())] + chk
        m = model(t, pos)
        before = m.SerializeToString(deterministic=True)
        acc += expect(m, chk, f"{NAME[et]}:{storage}:{pos}:{sh}", may)
        k += 1
    if pos in ("init", "constant"):
        single = pats if len(pats) <= 512 else pats[::257] + pats[-3:]
        for p in single:
            for sh in ((), (3,)):
                t, raw = make(et, [p], sh, storage)
                acc += expect(model(t, pos), [(et, sh, raw)], f"{NAME[et]}:{storage}:{pos}:{sh}:{p.hex()}", may)
                k += 1
    return k, acc


PAIR_NAMES = ["t", "a/b", "a_b", "a.b", "1", "_1", "", " ", "\u00e9", "onnx.Constant"]


def case_pair(c):
    """two tensors of equal type and different data under clashing names"""
    n1, st1, st2 = c
    k = 0
    for n2 in PAIR_NAMES:
        for shape in ((2,), ()):
            a, ra = make(TP.FLOAT, [b"\0\0\x80\x3f", b"\0\0\0\x40"], shape, st1)
            b, rb = make(TP.FLOAT, [b"\0\0\x80\xbf", b"\0\0\0\xc0"], shape, st2)
            # as Constants the tensors' own names are independent of the value names
            a.name, b.name = n1, n2
            nodes = [H.make_node("Constant", [], ["p"], value=a), H.make_node("Constant", [], ["q"], value=b),
                     H.make_node("Sub", ["p", "q"], ["y"])]
            g = H.make_graph(nodes, "g", [], [tinfo("y", a)], value_info=[tinfo("p", a), tinfo("q", b)])
            m = H.make_model(g, opset_imports=[H.make_opsetid("", 13)])
            expect(m, [(TP.FLOAT, shape, ra), (TP.FLOAT, shape, rb)], f"pair:{n1}:{n2}:{st1}{st2}", False)
            got = O.OInterp(O.import_model(m)).call("g", [])
            want = np.frombuffer(ra, "<f4") - np.frombuffer(rb, "<f4")
            if not np.array_equal(np.asarray(got[0]).reshape(-1), want):
                raise Violation(f"pair:{n1}:{n2}:{st1}{st2}", f"computes {got}, expected {want}")
            k += 1
            if n1 and n2 and n1 != n2:
                g = H.make_graph([H.make_node("Sub", [n1, n2], ["yy"])], "g", [], [tinfo("yy", a)], initializer=[a, b])
                m = H.make_model(g, opset_imports=[H.make_opsetid("", 13)])
                expect(m, [(TP.FLOAT, shape, ra), (TP.FLOAT, shape, rb)], f"pairi:{n1}:{n2}:{st1}{st2}", False)
                k += 1
    return k, k


BAD = ["string", "undefined", "bad_type", "external", "short_raw", "long_raw", "typed_short", "typed_long", "segment"]


def case_bad(c):
    """tensors that cannot be represented must be rejected, wherever they are"""
    kind, pos = c
    t = H.make_tensor("t", TP.FLOAT, [3], [1., 2., 3.])
    if kind == "string":
        t = H.make_tensor("t", TP.STRING, [2], [b"a", b"b"])
    elif kind == "undefined":
        t.data_type = 0
    elif kind == "bad_type":
        t.data_type = 99
    elif kind == "external":
        t = H.make_tensor("t", TP.FLOAT, [3], [1., 2., 3.])
        t.ClearField("float_data")
        t.data_location = TP.EXTERNAL
        e = t.external_data.add()
        e.key, e.value = "location", "w.bin"
    elif kind in ("short_raw", "long_raw"):
        t.ClearField("float_data")
        t.raw_data = b"\0" * (8 if kind == "short_raw" else 16)
    elif kind == "typed_short":
        del t.float_data[-1]
    elif kind == "typed_long":
        t.float_data.append(4.0)
    elif kind == "segment":
        return 0, 0
    m = model(t, pos)
    try:
        mod = O.import_model(m)
        for o, a, k in embedded(mod):
            a.data  # the blob must match its type (MLIR verifies this when it is used)
    except Exception:
        return 1, 1
    raise Violation(f"accepted:{kind}:{pos}", f"a tensor with {kind} data is accepted\n{mod}")


def dispatch(c):
    return {"data": case_data, "pair": case_pair, "bad": case_bad}[c[0]](c[1])


def run(ck):
    cs = [("data", (et, st, p)) for et in BITS for st in ("raw", "typed") for p in POS]
    cs += [("pair", (n, a, b)) for n in PAIR_NAMES for a in ("raw", "typed") for b in ("raw", "typed")]
    cs += [("bad", (k, p)) for k in BAD for p in POS]
    infos = ck.run_cases(cs, dispatch, chunk=2)
    acc = {}
    for (k, x), i in zip(cs, infos):
        n, a = i or (0, 0)
        ck.transitions += n
        ck.traces += max(0, n - 1)
        ck.n_states_extra += n
        if k == "data":
            key = f"{NAME[x[0]]}/{x[1]}"
            acc[key] = acc.get(key, 0) + a
    ck.extra["imports_accepted_by_type_and_storage"] = acc
    ck.sample({"data": "FLOAT16 raw, all 65536 patterns, as initializer of shape [65536]"})
    ck.assumptions += ["expected bytes are the ONNX raw encoding of the same values",
                       "attribute constructors of MLIR are recorded byte for byte by a stand-in"]


def replay(ck, case_):
    def tup(x):
        return tuple(tup(i) for i in x) if isinstance(x, list) else x

    try:
        dispatch((case_[0], tup(case_[1])))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

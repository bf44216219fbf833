"""O01: an imported ONNX model is the model.

A: every graph of <= 2 (thorough: 3) nodes over every operand wiring (including
   omitted operands and outputs) with operators as uninterpreted functions;
B: every attribute kind x extreme values; C: every arrangement of inputs and
   initializers; D: names; E: model metadata; F: the ONNX standard's operator
   examples, executed and compared with the expected values.
"""
import itertools
import math

from mc import env

env.install_fake_mlir()
import numpy as np
import onnx
from onnx import TensorProto as TP
from onnx import helper as H

from mc import onnxlib as O
from mc.core import Violation
from mc.interp import InterpError, TypeSoundness

ID = "O01"
LEVEL = "model_checking"
RULE = ("state = a model prefix (graph built so far), transition = appending one node form with one "
        "operand wiring; each complete model is imported by the real importer and executed")


def vi(name, k, et=TP.FLOAT):
    return H.make_tensor_value_info(name, et, [k])


def compare(m, key, cfg=None):
    before = m.SerializeToString(deterministic=True)
    try:
        mod = O.import_model(m, cfg)
    except Exception as e:
        raise Violation(f"import:{key}", f"{type(e).__name__}: {e}")
    if m.SerializeToString(deterministic=True) != before:
        raise Violation(f"modified:{key}", "the importer changed the model")
    exp, types, nin = O.term_eval(m)
    f = [o for o in mod._regions[0]._blocks[0]._ops]
    if len(f) != 1:
        raise Violation(f"functions:{key}", f"{len(f)} functions")
    it = O.TermInterp(mod)
    try:
        got = it.call(m.graph.name, [("in", k) for k in range(nin)])
    except InterpError as e:
        raise Violation(f"run:{key}", f"{e}\n{mod}")
    if got != exp:
        raise Violation(f"outputs:{key}", f"got {got}\nexpected {exp}\n{mod}")
    for t, s in it.types.items():
        w = types.get(t)
        if w is not None and s != {w}:
            raise Violation(f"types:{key}", f"{t} declared {s}, model says {w}\n{mod}")
    ft = f[0]
    ins = [str(a.type) for a in ft._regions[0]._blocks[0].arguments]
    inits = {t.name for t in m.graph.initializer}
    wi = [O.type_str(i.type) for i in m.graph.input if i.name not in inits]
    if ins != wi:
        raise Violation(f"inputs:{key}", f"function takes {ins}, model takes {wi}")
    return True


# -- A: graphs -----------------------------------------------------------------
OUT_FORMS = [("a",), ("a", "b"), ("", "b"), ("a", "", "c"), ("a", "b", "c"), ("", "", "c")]


def node_forms(pool, nmax, outs):
    for n in range(nmax + 1):
        for ops in itertools.product(pool, repeat=n):
            for o in outs:
                yield ops, o


def build(forms, rets):
    nodes, infos, k = [], [], 5
    for i, (ops, o) in enumerate(forms):
        names = [f"n{i}{x}" if x else "" for x in o]
        nodes.append(H.make_node("LSTM", list(ops), names, name=f"node{i}", hidden_size=i + 1))
        for x in names:
            if x:
                k += 1
                infos.append((x, k))
    kd = dict(infos)
    g = H.make_graph(
        nodes, "g", [vi("x", 2), vi("y", 3)],
        [vi(r, kd.get(r, {"x": 2, "y": 3, "w": 4}.get(r))) for r in rets],
        initializer=[H.make_tensor("w", TP.FLOAT, [4], [1., 2., 3., 4.])],
        value_info=[vi(x, k) for x, k in infos if x not in rets])
    return H.make_model(g, opset_imports=[H.make_opsetid("", 14)])


def case_graphs(c):
    forms1, outs, nmax = c
    pool = ["x", "y", "w", ""]
    n = 0
    names1 = [f"n0{x}" for x in forms1[1] if x]
    for ops in (o for k in range(nmax + 1) for o in itertools.product(pool + names1, repeat=k)):
        for o in outs:
            forms = [forms1, (ops, o)]
            allv = names1 + [f"n1{x}" for x in o if x]
            m = build(forms, allv[::-1] + ["x", "w", allv[0]])
            # a value may be returned more than once only under distinct names in ONNX: keep it unique
            del m.graph.output[-1]
            compare(m, f"graph:{forms}")
            n += 1
    return n


def case_graphs3(c):
    forms = list(c)
    pool = ["x", "w", ""]
    n = 0
    names = [f"n{i}{x}" for i, f in enumerate(forms) for x in f[1] if x]
    for ops in itertools.product(pool + names, repeat=2):
        m = build(forms + [(ops, ("a",))], ["n2a", names[-1]])
        compare(m, f"graph3:{forms + [(ops, 'a')]}")
        n += 1
    return n


# -- B: attributes -----------------------------------------------------------
def attr_values():
    def f(x):
        a = onnx.AttributeProto()
        a.type, a.f = a.FLOAT, x
        return a

    def i(x):
        a = onnx.AttributeProto()
        a.type, a.i = a.INT, x
        return a

    def s(x):
        a = onnx.AttributeProto()
        a.type, a.s = a.STRING, x
        return a

    def t(x):
        a = onnx.AttributeProto()
        a.type = a.TENSOR
        a.t.CopyFrom(x)
        return a

    def lst(kind, field, xs):
        a = onnx.AttributeProto()
        a.type = kind
        getattr(a, field).extend(xs)
        return a

    AT = onnx.AttributeProto
    fs = [0.0, -0.0, 1.0, -1.5, 0.1, 3.4028234663852886e38, 1.401298464324817e-45, math.inf, -math.inf,
          math.nan, 16777217.0]
    is_ = [0, 1, -1, 2**31 - 1, 2**31, -2**31 - 1, 2**63 - 1, -2**63, 2**53 + 1]
    ss = [b"", b"a", b"NOTSET", b"SAME_UPPER", "\u00e9\u4e16".encode(), b"with \"quotes\" \\ and \n", b"\t"]
    out = [(f"f{x!r}", f(x)) for x in fs] + [(f"i{x}", i(x)) for x in is_] + [(f"s{x!r}", s(x)) for x in ss]
    for n in range(4):
        out.append((f"fs{n}", lst(AT.FLOATS, "floats", fs[3:3 + n])))
        out.append((f"is{n}", lst(AT.INTS, "ints", is_[2:2 + n])))
        out.append((f"ss{n}", lst(AT.STRINGS, "strings", ss[1:1 + n])))
    out.append(("fs_all", lst(AT.FLOATS, "floats", fs)))
    out.append(("is_all", lst(AT.INTS, "ints", is_)))
    out.append(("ss_all", lst(AT.STRINGS, "strings", ss)))
    for et, a in [(TP.FLOAT, np.float32([1.5, -2])), (TP.INT64, np.int64([[1, -2**40]])),
                  (TP.BOOL, np.array([True, False, True])), (TP.FLOAT, np.float32(3.5)),
                  (TP.UINT8, np.uint8([[0], [255]])), (TP.DOUBLE, np.float64([])), ]:
        raw = onnx.numpy_helper.from_array(a, "t")
        typed = H.make_tensor("t", et, a.shape, a.reshape(-1).tolist())
        out.append((f"t_raw{et}{a.shape}", t(raw)))
        out.append((f"t_typed{et}{a.shape}", t(typed)))
    out.append(("ts", lst(AT.TENSORS, "tensors", [H.make_tensor("a", TP.INT32, [2], [1, 2]),
                                                 H.make_tensor("b", TP.FLOAT, [], [2.0])])))
    return out


def case_attr(c):
    vals = dict(attr_values())
    n = 0
    first = c
    for second in [None] + list(vals):
        attrs = []
        for name, v in (("alpha", first), ("beta", second)):
            if v is None:
                continue
            a = onnx.AttributeProto()
            a.CopyFrom(vals[v])
            a.name = name
            attrs.append(a)
        for order in itertools.permutations(attrs):
            node = H.make_node("Gemm", ["x", "x"], ["y"])
            node.attribute.extend(order)
            g = H.make_graph([node], "g", [vi("x", 2)], [vi("y", 2)])
            compare(H.make_model(g, opset_imports=[H.make_opsetid("", 13)]), f"attr:{first},{second}")
            n += 1
    return n


ATTR_NAMES = ["name", "value", "torch.onnx.x", "a.b", "A", "default", "then", "\u00e9", "x" * 100, "_"]
OP_TYPES = ["Add", "Constant_", "If_", "Loop_", "MeanVarianceNorm", "Relu", "ai.custom", "\u00e9"]


def case_attrname(n):
    a = H.make_attribute(n, 7)
    b = H.make_attribute("value_int", 8)
    node = H.make_node("Gemm", ["x"], ["y"])
    node.attribute.extend([a, b])
    g = H.make_graph([node], "g", [vi("x", 2)], [vi("y", 2)])
    compare(H.make_model(g, opset_imports=[H.make_opsetid("", 13)]), f"attrname:{n}")
    return 1


def case_const(c):
    """Constant in each of its attribute forms, its value used, returned or unused"""
    form, use = c
    mk = {
        "value": lambda: {"value": H.make_tensor("c", TP.FLOAT, [2], [1., 2.])},
        "value_unnamed": lambda: {"value": H.make_tensor("", TP.FLOAT, [2], [1., 2.])},
        "value_clash": lambda: {"value": H.make_tensor("x", TP.FLOAT, [2], [1., 2.])},
        "value_float": lambda: {"value_float": 2.5},
        "value_floats": lambda: {"value_floats": [2.5, -1.0]},
        "value_int": lambda: {"value_int": -3},
        "value_ints": lambda: {"value_ints": [3, 4]},
        "value_string": lambda: {"value_string": "abc"},
    }[form]()
    nodes = [H.make_node("Constant", [], ["c"], **mk)]
    rets = []
    if "use" in use:
        nodes.append(H.make_node("Gemm", ["c", "x", "c"], ["y"]))
        rets.append("y")
    if "ret" in use:
        rets.append("c")
    if "two" in use:
        nodes.insert(0, H.make_node("Constant", [], ["d"], value=H.make_tensor("c", TP.FLOAT, [2], [7., 8.])))
        nodes.append(H.make_node("Gemm", ["d", "c"], ["z"]))
        rets.append("z")
    rets.append("x")
    ty = {"value_int": TP.INT64, "value_ints": TP.INT64, "value_string": TP.STRING}.get(form, TP.FLOAT)
    g = H.make_graph(nodes, "g", [vi("x", 2)],
                     [vi(r, 2, ty if r == "c" else TP.FLOAT) for r in rets],
                     value_info=[] if "c" in rets else [vi("c", 2, ty)])
    compare(H.make_model(g, opset_imports=[H.make_opsetid("", 13)]), f"const:{c}")
    return 1


# -- C: inputs and initializers -------------------------------------------------
def case_inputs(c):
    """inputs: ordered list of names; inits: ordered subset (may also be inputs)"""
    n = 0
    names = ["a", "b", "c", "d"]
    for k in range(4):
        for ins in itertools.permutations(names, k):
            for inits in itertools.permutations(names, c):
                avail = [x for x in names if x in ins or x in inits]
                size = {x: i + 2 for i, x in enumerate(names)}
                nodes = [H.make_node("Sum", avail, ["s"]), H.make_node("Max", avail[::-1] + ["s"], ["t"])]
                g = H.make_graph(
                    nodes, "g", [vi(x, size[x]) for x in ins], [vi("t", 9)] + [vi(x, size[x]) for x in avail],
                    initializer=[H.make_tensor(x, TP.FLOAT, [size[x]], [float(i)] * size[x])
                                 for i, x in enumerate(inits)], value_info=[vi("s", 8)])
                compare(H.make_model(g, opset_imports=[H.make_opsetid("", 13)]), f"inputs:{ins}:{inits}")
                n += 1
    return n


# -- D: names -------------------------------------------------------------------
NAMES = ["x", "0", "1", "a.b", "a/b", "a_b", "a:0", "\u00e9\u4e16", "%0", "none", "onnx.Constant", " ", "None",
         "self", "g", "x" * 200]


def case_names(c):
    n0 = c
    k = 0
    for n1 in NAMES:
        for n2 in NAMES:
            if len({n0, n1, n2}) != 3:
                continue
            nodes = [H.make_node("Sub", [n0, n1], [n2], name=n0)]
            g = H.make_graph(nodes, "g", [vi(n0, 2)], [vi(n2, 4)],
                             initializer=[H.make_tensor(n1, TP.FLOAT, [3], [1., 2., 3.])])
            compare(H.make_model(g, opset_imports=[H.make_opsetid("", 13)]), f"names:{(n0, n1, n2)}")
            nodes = [H.make_node("Sub", [n0, n0], [n1], name=n2), H.make_node("Sub", [n1, n0], [n2], name=n2)]
            g = H.make_graph(nodes, "g", [vi(n0, 2)], [vi(n2, 4), vi(n1, 3)])
            compare(H.make_model(g, opset_imports=[H.make_opsetid("", 13)]), f"names2:{(n0, n1, n2)}")
            k += 2
    return k


# -- E: metadata ------------------------------------------------------------------
def case_meta(c):
    opsets, irv, prod = c
    node = H.make_node("Relu", ["x"], ["y"], domain=opsets[0][0])
    g = H.make_graph([node], "main graph", [vi("x", 2)], [vi("y", 2)])
    m = H.make_model(g, opset_imports=[H.make_opsetid(*o) for o in opsets])
    m.ir_version = irv
    m.producer_name, m.producer_version = prod
    mod = O.import_model(m)
    f = mod._regions[0]._blocks[0]._ops[0]
    at = f.attributes
    P = "torch.onnx_meta."
    got = {k[len(P):]: v for k, v in [(k, at[k]) for k in at.keys()] if k.startswith(P)} \
        if hasattr(at, "keys") else None
    exp = {}
    d = dict(opsets)
    want = (d.get("", None), {k: v for k, v in d.items() if k})
    ver = got.pop("opset_version", None)
    vers = got.pop("opset_versions", None)
    ver = ver.value if ver is not None else None
    vers = {k: v.value for k, v in vers.d.items()} if vers is not None else {}
    have = (ver, vers)
    if have != want:
        raise Violation(f"opset:{c}", f"records {have}, model has {want}")
    if got["ir_version"].value != irv:
        raise Violation(f"ir_version:{c}", f"{got['ir_version']}")
    pn = (got["producer_name"].value, got["producer_version"].value)
    if pn != tuple(prod):
        raise Violation(f"producer:{c}", f"{pn}")
    return 1


# -- F: the operator examples of the ONNX standard ----------------------------------
SKIP = {  # not functions of their inputs, or the example's own types are wrong
    "test_bernoulli": "random", "test_bernoulli_double": "random", "test_bernoulli_seed": "random",
    "test_training_dropout": "random", "test_bernoulli_expanded": "random",
    "test_bernoulli_double_expanded": "random", "test_bernoulli_seed_expanded": "random", "test_loop13_seq": "declares seq of rank 0",
    "test_loop16_seq_none": "declares seq of rank 0", "test_scan_sum": "Scan-8 form",
}
_CASES = None


def corpus():
    global _CASES
    if _CASES is None:
        import onnx.backend.test.case.node as cn

        _CASES = {c.name: c for c in cn.collect_testcases(None)}
    return _CASES


def num(x):
    return onnx.numpy_helper.to_array(x) if isinstance(x, onnx.TensorProto) else x


def case_corpus(name):
    c = corpus()[name]
    m = c.model
    r = {"oracle": 0, "rejected": 0, "ops": 0}
    try:
        mi = O.infer(m)
    except Exception:
        return r
    try:
        mod = O.import_model(mi)
    except Exception as e:
        if type(e).__name__ == "OnnxImportError":
            r["rejected"] = 1
            return r
        raise Violation(f"import:{name}", f"{type(e).__name__}: {e}")
    for ins, outs in c.data_sets:
        it = O.OInterp(mod)
        args = [num(x) for x in ins]
        try:
            got = it.call(m.graph.name, args)
        except O.Unsupported:
            continue
        except InterpError as e:
            raise Violation(f"run:{name}", f"{type(e).__name__}: {e}\n{mod}")
        except TypeSoundness as e:
            raise Violation(f"types:{name}", f"{e}\n{mod}")
        exp = [num(x) for x in outs]
        if not O.same(got, exp, False):
            try:  # what the reference implementation of the original model yields
                exp = O.reference(m).run(None, dict(zip([i.name for i in m.graph.input], args)))
            except Exception:
                continue
            if not O.same(got, exp, False):
                raise Violation(f"values:{name}", f"got {got}\nexpected {exp}\n{mod}")
        r["oracle"] += 1
        r["ops"] += it.ops_run
    return r


REJECTABLE = {"test_if_opt", "test_ai_onnx_ml_label_encoder_tensor_mapping"}


def dispatch(c):
    kind, x = c
    return {"graphs": case_graphs, "graphs3": case_graphs3, "attr": case_attr, "attrname": case_attrname,
            "const": case_const, "inputs": case_inputs, "names": case_names, "meta": case_meta,
            "corpus": case_corpus}[kind](x)


def run(ck):
    pool = ["x", "y", "w", ""]
    nmax = 3 if ck.thorough else 2
    outs = OUT_FORMS
    cs = [("graphs", (f, outs, nmax)) for f in node_forms(pool, nmax, outs)]
    if ck.thorough:
        small = list(node_forms(["x", "w", ""], 2, [("a",), ("a", "b"), ("", "b")]))
        for f1 in small:
            n1 = [f"n0{x}" for x in f1[1] if x]
            for f2 in node_forms(["x", ""] + n1, 2, [("a",), ("", "b")]):
                cs.append(("graphs3", (f1, f2)))
    cs += [("attr", v) for v, _ in attr_values()]
    cs += [("attrname", n) for n in ATTR_NAMES]
    cs += [("const", (f, u)) for f in ("value", "value_unnamed", "value_clash", "value_float", "value_floats",
                                      "value_int", "value_ints", "value_string")
           for u in ("", "use", "ret", "use,ret", "two", "use,two", "ret,two", "use,ret,two")]
    cs += [("inputs", k) for k in range(4)]
    cs += [("names", n) for n in NAMES]
    vers = [1, 6, 9, 13, 17, 22]
    doms = ["", "ai.onnx.ml", "com.microsoft"]
    for k in (1, 2, 3):
        for ds in itertools.permutations(doms, k):
            for vs in itertools.product(vers if k < 3 else vers[::2], repeat=k):
                cs.append(("meta", (tuple(zip(ds, vs)), 8, ("p", "1.0"))))
    for irv in (1, 3, 7, 10):
        for prod in (("", ""), ("pytorch", "2.1"), ("a b", "\u00e9")):
            cs.append(("meta", ((("", 17),), irv, prod)))
    names = sorted(corpus())
    cs += [("corpus", n) for n in names if n not in SKIP and not n.endswith("_expanded_ver18")]
    infos = ck.run_cases(cs, dispatch, chunk=6)
    tot = {}
    for (k, x), i in zip(cs, infos):
        n = i if isinstance(i, int) else 1
        tot[k] = tot.get(k, 0) + (n or 0)
        if k != "corpus":
            ck.n_states_extra += (n or 0)
            ck.transitions += 2 * (n or 0)
            ck.traces += max(0, (n or 0) - 1)
        else:
            ck.state(x)
            ck.transitions += (i or {}).get("ops", 0)
    ck.extra["models_by_family"] = tot
    ran = sum(1 for (k, _), i in zip(cs, infos) if k == "corpus" and i and i["oracle"])
    rej = [x for (k, x), i in zip(cs, infos) if k == "corpus" and i and i["rejected"]]
    ck.extra["corpus_executed"] = ran
    ck.extra["corpus_rejected"] = rej
    for x in rej:
        if x not in REJECTABLE:
            ck.violation(f"rejected:{x}", f"standard operator example {x} is rejected by the importer", x)
    ck.sample({"graph": "LSTM(x, '', w) -> n0a, '', n0c; LSTM(n0c, y) -> n1a"})
    ck.assumptions += ["leaf operators have the meaning onnx.reference gives them at the recorded opset",
                       "MLIR bindings replaced by an executable stand-in (mc/fakemlir.py)"]


def replay(ck, case_):
    def tup(x):
        return tuple(tup(i) for i in x) if isinstance(x, list) else x

    try:
        dispatch((case_[0], tup(case_[1])))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

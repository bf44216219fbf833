"""O03: expanding ONNX functions does not change what a model computes.

Every operator example of the ONNX standard under every expansion configuration
(default, expand everything, expand exactly this operator, everything but this
operator, inside a subgraph), and every sequence of calls of function operators
differing in attributes, operand types, shapes, omitted operands or operator-set
version within one module.
"""
import itertools

from mc import env

env.install_fake_mlir()
import numpy as np
import onnx
from onnx import TensorProto as TP
from onnx import helper as H

from mc import onnxlib as O
from mc.core import Violation
from mc.interp import InterpError
from checks.O01 import corpus, num, SKIP

ID = "O03"
LEVEL = "model_checking"
RULE = ("state = the set of functions expanded so far in a module (calls already imported); transition = "
        "one more call of a function operator in one form; every model is imported and executed")


def cfg(allow=None, deny=None):
    from torch_mlir.extras import onnx_importer as oi

    c = oi.Config()
    c.function_expansion_allowlists_by_domain = allow
    if deny is not None:
        c.function_expansion_denylists_by_domain = deny
    return c


BASE_DENY = {"CastLike", "Range"}


def has_function(op_type, version):
    try:
        s = onnx.defs.get_schema(op_type, max_inclusive_version=version, domain="")
    except Exception:
        return False
    return any(v <= version for v in s.function_opset_versions) or any(
        v <= version for v in s.context_dependent_function_opset_versions)


def op_names(mod, fname):
    """operators and calls reachable from the main function: (operator names, number of calls)"""
    names, calls = set(), 0

    def walk(op):
        nonlocal calls
        for r in op._regions:
            for b in r._blocks:
                for o in b._ops:
                    if o.name == "torch.operator":
                        names.add(o.attributes["name"].value[5:])
                    elif o.name == "func.call":
                        calls += 1
                    walk(o)

    for o in mod._regions[0]._blocks[0]._ops:
        if o.attributes["sym_name"].value == fname:
            walk(o)
    return names, calls


def run_model(mi, mod, args, exp, key, extra=""):
    it = O.OInterp(mod)
    try:
        got = it.call(mi.graph.name, args)
    except O.Unsupported:
        return None
    except InterpError as e:
        raise Violation(f"run:{key}", f"{type(e).__name__}: {e}\n{extra}{str(mod)[:3000]}")
    if not O.same(got, exp, False):
        raise Violation(f"values:{key}", f"got {got}\nexpected {exp}\n{extra}{str(mod)[:3000]}")
    return it


def in_subgraph(m):
    """the same model, computed in the taken branch of an If from outer values"""
    g = m.graph
    used = {i.name for i in g.input} | {n for x in g.node for n in list(x.input) + list(x.output)}
    if any(x.op_type in ("If", "Loop", "Scan", "SequenceMap") for x in g.node) or g.initializer:
        return None
    if any(o.type.WhichOneof("value") != "tensor_type" for o in g.output):
        return None
    if {o.name for o in g.output} & {i.name for i in g.input}:
        return None
    mk = lambda cond: H.make_graph(
        list(g.node) if cond else [H.make_node("Undef", [], [o.name + "_e"], domain="") for o in g.output],
        "then" if cond else "els", [], list(g.output) if cond else
        [H.make_value_info(o.name + "_e", o.type) for o in g.output], value_info=list(g.value_info) if cond else [])
    els = mk(False)
    del els.node[:]
    for o in g.output:
        tt = o.type.tensor_type
        shape = [d.dim_value if d.HasField("dim_value") else 1 for d in tt.shape.dim]
        els.node.append(H.make_node("ConstantOfShape", [f"__s{len(shape)}_{o.name}"], [o.name + "_e"]))
    node = H.make_node("If", ["__c"], [o.name + "_o" for o in g.output], then_branch=mk(True), else_branch=els)
    consts = [H.make_tensor(f"__s{len(o.type.tensor_type.shape.dim)}_{o.name}", TP.INT64,
                            [len(o.type.tensor_type.shape.dim)],
                            [d.dim_value if d.HasField("dim_value") else 1 for d in o.type.tensor_type.shape.dim])
              for o in g.output]
    g2 = H.make_graph([node], g.name, [H.make_tensor_value_info("__c", TP.BOOL, [])] + list(g.input),
                      [H.make_value_info(o.name + "_o", o.type) for o in g.output], initializer=consts)
    m2 = onnx.ModelProto()
    m2.CopyFrom(m)
    m2.graph.CopyFrom(g2)
    return m2


def case_corpus(name):
    c = corpus()[name]
    m = c.model
    r = dict(runs=0, expanded=0, unsupported=0, nested=0)
    try:
        mi = O.infer(m)
    except Exception:
        return r
    version = {o.domain: o.version for o in m.opset_import}.get("", 1)
    ops = {n.op_type for n in m.graph.node if n.domain == ""}
    fops = {o for o in ops if has_function(o, version)}
    modes = [("all", cfg(None)), ("none", cfg({}))]
    if fops:
        modes += [("only", cfg({"": set(fops)}, {})), ("but", cfg(None, {"": BASE_DENY | fops})),
                  ("only_other_domain", cfg({"other": set(fops)})), ("deny_wins", cfg({"": set(fops)}, {"": set(fops)}))]
    for mode, cf in modes:
        if "Range" in fops and mode == "only":
            continue  # ONNX's own shape inference fails inside this function body
        if "CastLike" in fops and mode == "only":
            continue
        try:
            mod = O.import_model(mi, cf)
        except Exception as e:
            if type(e).__name__ == "OnnxImportError":
                continue
            raise Violation(f"import:{mode}:{name}", f"{type(e).__name__}: {e}")
        names, calls = op_names(mod, m.graph.name)
        if mode in ("all", "only"):
            left = {o for o in names if has_function(o, version)} - (BASE_DENY if mode == "all" else set())
            if mode == "only":
                left &= fops
            if left:
                raise Violation(f"config:{mode}:{name}", f"{left} not expanded\n{mod}")
        elif calls and not (mode == "but" and any(has_function(n.op_type, version) and n.op_type not in fops
                                                  for n in m.graph.node)):
            raise Violation(f"config:{mode}:{name}", f"{calls} calls although nothing is to be expanded\n{mod}")
        for ins, outs in c.data_sets:
            args, exp = [num(x) for x in ins], [num(x) for x in outs]
            try:
                it = run_model(mi, mod, args, exp, f"{mode}:{name}")
            except Violation:
                try:
                    exp2 = O.reference(m).run(None, dict(zip([i.name for i in m.graph.input], args)))
                except Exception:
                    continue
                it = run_model(mi, mod, args, exp2, f"{mode}:{name}")
            if it is None:
                r["unsupported"] += 1
                continue
            r["runs"] += 1
            r["expanded"] += it.expanded
    if fops - BASE_DENY:
        m2 = in_subgraph(m)
        if m2 is not None:
            try:
                mi2 = O.infer(m2)
            except Exception:
                return r
            args = [np.array(True)] + [num(x) for x in c.data_sets[0][0]]
            mod = O.import_model(mi2, cfg(None))
            it = run_model(mi2, mod, args, [num(x) for x in c.data_sets[0][1]], f"nested:{name}")
            if it is not None:
                r["nested"] += 1
                if not it.expanded:
                    raise Violation(f"nested:{name}", f"{fops} not expanded in a subgraph")
    return r


# -- sequences of calls --------------------------------------------------------------
def variants():
    """(op, operands, outputs, attributes) over inputs a:f[2,3], b:f[3,2], d:f64[2,3], v:f[2], n:f["n",3], k:i64[]"""
    V = []

    def add(op, ins, nout=1, **attrs):
        V.append((op, tuple(ins), nout, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in attrs.items()))))

    for x in ("a", "b", "d", "n"):
        add("Elu", [x])
    for al in (0.5, 2.0):
        add("Elu", ["a"], alpha=al)
        add("Celu", ["a"], alpha=al)
        add("ThresholdedRelu", ["a"], alpha=al)
    for lo in ("", "lo"):
        for hi in ("", "hi"):
            add("Clip", ["a", lo, hi])
    add("Clip", ["a"])
    add("Clip", ["b", "lo", "hi"])
    for ax in (0, 1, -1):
        add("Softmax", ["a"], axis=ax)
        add("LogSoftmax", ["a"], axis=ax)
    add("Softmax", ["a"])
    add("Softmax", ["b"], axis=0)
    add("Softmax", ["n"], axis=0)
    for ax in ([0], [1], [0, 1]):
        add("MeanVarianceNormalization", ["a"], axes=ax)
    for kd in (0, 1):
        add("ReduceL2", ["a", "ax1"], keepdims=kd)
    add("ReduceL2", ["a"])
    add("ReduceL1", ["a", "ax1"])
    add("ReduceSumSquare", ["a", "ax0"])
    for ap in ("none", "tanh"):
        add("Gelu", ["a"], approximate=ap)
    for sx in (0, 1):
        add("Shrink", ["a"], lambd=0.5 * sx, bias=1.0)
    add("Shrink", ["a"], lambd=0.5, bias=1.0)
    add("LayerNormalization", ["a", "s3"], axis=-1)
    add("LayerNormalization", ["a", "s3", "s3"], axis=-1)
    add("LayerNormalization", ["a", "s3", "", ][:2], axis=-1, epsilon=0.5)
    add("LayerNormalization", ["a", "s3"], 3, axis=-1)
    add("HardSigmoid", ["a"], alpha=0.3)
    add("HardSigmoid", ["a"], beta=0.3)
    add("HardSigmoid", ["a"])
    add("LeakyRelu", ["a"], alpha=0.25)
    add("LeakyRelu", ["a"])
    add("PRelu", ["a", "s3"])
    add("PRelu", ["a", "c1"])
    add("GreaterOrEqual", ["a", "a2"])
    add("GreaterOrEqual", ["a2", "a"])
    add("LessOrEqual", ["a", "a2"])
    add("Softplus", ["a"])
    add("Selu", ["a"], gamma=2.0)
    add("Selu", ["a"], alpha=2.0)
    add("Selu", ["a"], alpha=2.0, gamma=2.0)
    add("DynamicQuantizeLinear", ["a"], 3)
    add("HannWindow", ["k"])
    add("HannWindow", ["k"], periodic=0)
    add("HammingWindow", ["k"])
    add("HannWindow", ["k"], output_datatype=11)
    add("SoftmaxCrossEntropyLoss", ["a", "lab"])
    add("SoftmaxCrossEntropyLoss", ["a", "lab"], reduction="sum")
    add("SoftmaxCrossEntropyLoss", ["a", "lab", "s3"], reduction="sum")
    add("SoftmaxCrossEntropyLoss", ["a", "lab"], 2, reduction="none")
    add("NegativeLogLikelihoodLoss", ["a", "lab"], reduction="none")
    add("NegativeLogLikelihoodLoss", ["a", "lab"], ignore_index=1)
    add("NegativeLogLikelihoodLoss", ["a", "lab"])
    return V


INPUTS = {
    "a": (TP.FLOAT, [2, 3], np.float32([[1.5, -2.25, 0.3], [-0.1, 4.0, -3.5]])),
    "a2": (TP.FLOAT, [2, 3], np.float32([[1.5, 2.25, 0.1], [0.1, 4.0, 3.5]])),
    "b": (TP.FLOAT, [3, 2], np.float32([[1.5, -2.25], [0.3, -0.1], [4.0, -3.5]])),
    "d": (TP.DOUBLE, [2, 3], np.float64([[1.5, -2.25, 0.3], [-0.1, 4.0, -3.5]])),
    "n": (TP.FLOAT, ["n", 3], np.float32([[1.5, -2.25, 0.3], [-0.1, 4.0, -3.5]])),
    "lo": (TP.FLOAT, [], np.float32(-1)), "hi": (TP.FLOAT, [], np.float32(1)),
    "s3": (TP.FLOAT, [3], np.float32([0.5, 2.0, -1.0])), "c1": (TP.FLOAT, [1], np.float32([0.125])),
    "ax0": (TP.INT64, [1], np.int64([0])), "ax1": (TP.INT64, [1], np.int64([1])),
    "k": (TP.INT64, [], np.int64(5)), "lab": (TP.INT64, [2], np.int64([1, 2])),
}


def seq_model(vs, opset):
    nodes, outs = [], []
    for i, (op, ins, nout, attrs) in enumerate(vs):
        o = [f"y{i}_{j}" for j in range(nout)]
        ins = list(ins)
        nodes.append(H.make_node(op, ins, o, name=f"call{i}", **dict(attrs)))
        outs += o
    used = [x for x in INPUTS if any(x in n.input for n in nodes)]
    consts = [x for x in used if x.startswith("ax")]
    g = H.make_graph(nodes, "g", [H.make_tensor_value_info(x, *INPUTS[x][:2]) for x in used if x not in consts],
                     [onnx.ValueInfoProto(name=o) for o in outs],
                     initializer=[onnx.numpy_helper.from_array(INPUTS[x][2], x) for x in consts])
    m = H.make_model(g, opset_imports=[H.make_opsetid("", opset)])
    mi = O.infer(m)
    return m, mi, [x for x in used if x not in consts]


_REF = {}


def ref_of(v, opset):
    k = (v, opset)
    if k not in _REF:
        _REF[k] = None
        m, mi, ins = seq_model([v], opset)
        try:
            onnx.checker.check_model(mi)
            if all(o.type.WhichOneof("value") for o in mi.graph.output):
                _REF[k] = O.reference(mi).run(None, {x: INPUTS[x][2] for x in ins})
        except Exception:  # no such operator form at this version, or no reference implementation
            pass
    return _REF[k]


def case_seq(c):
    vs, opset = c
    refs = [ref_of(v, opset) for v in vs]
    if any(r is None for r in refs):
        return 0
    m, mi, ins = seq_model(vs, opset)
    try:
        mod = O.import_model(mi, cfg(None))
    except Exception as e:
        raise Violation(f"import:{c}", f"{type(e).__name__}: {e}")
    it = run_model(mi, mod, [INPUTS[x][2] for x in ins], [y for r in refs for y in r], f"{c}")
    return 0 if it is None else 1


def case_opset(v):
    """one call form at every operator-set version"""
    n = 0
    for ver in range(9, 23):
        n += case_seq(((v,), ver)) or 0
        n += case_seq(((v, v), ver)) or 0
    return n


def dispatch(c):
    return {"corpus": case_corpus, "seq": lambda x: sum(case_seq(y) for y in x), "opset": case_opset}[c[0]](c[1])


def run(ck):
    V = variants()
    cs = [("corpus", n) for n in sorted(corpus()) if n not in SKIP and not n.startswith("test_bernoulli")]
    for a in V:
        cs.append(("seq", [((a, b), 18) for b in V]))
        if ck.thorough:
            cs.append(("seq", [((a, b), 20) for b in V]))
            for b in V:
                cs.append(("seq", [((a, b, x), 18) for x in V]))
    cs += [("opset", v) for v in V]
    infos = ck.run_cases(cs, dispatch, chunk=4)
    tot = dict(runs=0, expanded=0, unsupported=0, nested=0)
    seqs = 0
    for (k, x), i in zip(cs, infos):
        if k == "corpus":
            for f in tot:
                tot[f] += (i or {}).get(f, 0)
            ck.state(x)
        else:
            n = i or 0
            seqs += n
            ck.n_states_extra += n
            ck.traces += max(0, n - 1)
            ck.transitions += 2 * n
    ck.transitions += tot["runs"]
    ck.extra.update({f"corpus_{k}": v for k, v in tot.items()})
    ck.extra["call_sequences_executed"] = seqs
    if tot["expanded"] < 500 or seqs < 1500:
        ck.violation("vacuous", f"almost nothing was expanded: {tot}, {seqs}")
    ck.sample(repr(V[5]))
    ck.assumptions += ["leaf operators have the meaning onnx.reference gives them; function bodies come from "
                       "the onnx package, the reference result from its direct implementation of the operator"]


def replay(ck, case_):
    def tup(x):
        return tuple(tup(i) for i in x) if isinstance(x, list) else x

    try:
        dispatch((case_[0], tup(case_[1])))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

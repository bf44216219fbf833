"""D01: a graph imported by the Dynamo FX importer computes what the graph computes.

Every program over the operator alphabet of F01 (all argument forms), all wirings to
the depth bound, all forms of results, all element types as inputs and as literals,
and histories of imports; imported by the real importer, executed, and compared with
PyTorch's own execution of the graph.  A graph may be rejected only if it is outside
the subset the importer documents.
"""
import itertools

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from torch._subclasses.fake_tensor import FakeTensor

from mc import fakemlir, fxlib
from mc.core import Violation
from mc.interp import DT, Interp, same, short
from checks.F01 import CORE, IDX, LET, name, programs

ID = "D01"
LEVEL = "model_checking"
RULE = ("state = an operator graph (letters + wiring, result form); transition = appending one operator application; "
        "every graph is imported by the real importer and the IR executed against PyTorch")
A = torch.ops.aten
# the element types of the subset: whatever the torch dialect's type text can name here
SUPPORTED = {torch.float16, torch.bfloat16, torch.float32, torch.float64, torch.uint8, torch.int8, torch.int16, torch.int32,
             torch.int64, torch.bool, torch.qint8, torch.quint8, torch.complex64, torch.complex128}


class Prog(fxlib.Prog):
    """constants are inputs: the subset has no get_attr"""

    def const(self, t):
        n = self.inp(f"c{len(self.args)}", t, "X")
        first = next(iter(self.g.nodes))
        # keep the placeholders in front
        last_ph = [x for x in self.g.nodes if x.op == "placeholder" and x is not n]
        if last_ph:
            last_ph[-1].append(n)
        else:
            first.prepend(n)
        return n

    def inp(self, nm, v, t):
        n = super().inp(nm, v, t)
        if t == "X":
            self.pool["X"].pop()
        return n


def rejected_ok(g):
    """is the graph outside the documented subset?"""
    for n in g.nodes:
        if n.op not in ("placeholder", "call_function", "output"):
            return True
        if n.op == "output":
            if not isinstance(n.args[0], (tuple, list)) or not all(isinstance(a, torch.fx.Node) for a in n.args[0]):
                return True
            continue
        val = n.meta.get("val")
        vals = val if isinstance(val, (list, tuple)) else [val]
        if not all(isinstance(v, FakeTensor) and v.dtype in SUPPORTED and all(isinstance(s, int) for s in v.shape) for v in vals):
            return True
        if n.op != "call_function" or not isinstance(n.target, torch._ops.OpOverload):
            continue
        s = n.target._schema
        nm = s.name.replace("::", ".") + (f".{s.overload_name}" if s.overload_name else "")
        if not fakemlir.is_registered_op(f"torch.{nm}"):
            return True
        if any(not isinstance(r.type, torch.TensorType) for r in s.returns):
            return True
        for i, p in enumerate(s.arguments):
            a = n.args[i] if i < len(n.args) else n.kwargs.get(p.name, p.default_value if p.has_default_value() else None)
            t = p.type
            if isinstance(t, torch.OptionalType):
                t = t.getElementType()
            if isinstance(t, torch.TensorType) and not isinstance(a, torch.fx.Node) and a is not None:
                return True
            if isinstance(t, torch.ListType) and isinstance(t.getElementType(), torch.NumberType):
                return True
            if isinstance(t, torch.NumberType) and isinstance(a, bool):
                return True  # the dialect's scalar type does not include !torch.bool
            if isinstance(a, (complex, tuple)):
                return True
            if isinstance(a, torch.dtype) and a not in SUPPORTED:
                return True
    return False


def import_(g, fn):
    from torch_mlir._dynamo_fx_importer import import_fx_graph_as_func

    m = import_fx_graph_as_func(g, fn)
    if fakemlir._cur("ctx") is not None:
        raise Violation("context", "the context stays entered")
    return m


def check(gm, args, key, fn="forward", rt=None):
    try:
        m = import_(gm.graph, fn)
    except Violation:
        raise
    except Exception as e:
        if rejected_ok(gm.graph):
            return "rejected"
        raise Violation(f"rejects:{key}", f"a graph of the supported subset is rejected: {type(e).__name__}: {e}\n{gm.graph}")
    if rejected_ok(gm.graph):
        pass  # a more generous importer is fine as long as the meaning is right
    try:
        m.operation.verify()
    except Exception as e:
        if rejected_ok(gm.graph):
            return "invalid"
        raise Violation(f"invalid:{key}", f"the imported program does not verify: {e}\n{m}")
    exp = fxlib.run_ref(gm, args)
    try:
        got = Interp(m).call(fn, args)
    except Exception as e:
        if rejected_ok(gm.graph) and isinstance(e, (RuntimeError, TypeError, AssertionError)):
            return "invalid"
        raise Violation(f"executes:{key}", f"the imported program cannot be executed: {type(e).__name__}: {e}\n{m}")
    if not same(got, exp):
        raise Violation(f"value:{key}", f"the imported program returns {[short(x) for x in got]}, the graph returns "
                        f"{[short(x) for x in exp]}\n{m}")
    return "equal"


STAT = None


def case_prog(c):
    _, prog = c
    p = Prog()
    outs = []
    for li, w in prog:
        outs += p.step(LET[li], w)
    return check(p.finish(tuple(outs)), p.args, name(prog))


FORMS = {
    "tuple1": lambda n, ph: (n[0],), "list1": lambda n, ph: [n[-1]], "dup": lambda n, ph: (n[0], n[0]),
    "swap": lambda n, ph: (n[-1], n[0]), "ph": lambda n, ph: (ph[1], n[0], ph[0]), "only_ph": lambda n, ph: (ph[2],),
    "phs": lambda n, ph: [ph[0], ph[3], ph[0]], "empty": lambda n, ph: (), "none": lambda n, ph: (None, n[0]),
    "single": lambda n, ph: n[0], "scalar": lambda n, ph: (n[0], 3), "nested": lambda n, ph: ((n[0],), n[-1]),
}


def case_out(c):
    _, prog, form, fn = c
    p = Prog()
    nodes = []
    for li, w in prog:
        nodes += p.step(LET[li], w)
    ph = [n for n in p.g.nodes if n.op == "placeholder"]
    return check(p.finish(FORMS[form](nodes, ph)), p.args, f"{name(prog)} out={form}", fn)


DTYPES = [d for d in vars(torch).values() if isinstance(d, torch.dtype)]


def case_dtype(c):
    """inputs of every element type, passed through; and dtype literals"""
    _, how, dn, shape = c
    d = getattr(torch, dn)
    p = Prog()
    if dn.startswith("q"):  # no fake tensors of quantized types
        return "impossible"
    if how == "lit":
        n = p.call(A._to_copy.default, (p.pool["F"][0],), {"dtype": d})
    else:
        if dn.startswith(("bits", "int1", "int2", "int3", "int4", "int5", "int6", "int7", "uint1", "uint2", "uint3",
                            "uint4", "uint5", "uint6", "uint7", "float4")) and dn not in ("int16", "int32", "int64", "uint16",
                                                                                          "uint32", "uint64"):
            return "impossible"
        else:
            v = torch.ones(shape).to(d)
        n = p.inp("v", v, "X")
    return check(p.finish((n,)), p.args, f"{how} {dn} {shape}")


def case_literal(c):
    """literals of every kind in every kind of parameter"""
    _, which = c
    p = Prog()
    a = p.pool["F"][0]
    cpu = torch.device("cpu")
    L = {
        "int_min": (A.add.Scalar, (a, -2 ** 63), {}), "int_max": (A.add.Scalar, (a, 2 ** 63 - 1), {}),
        "nan": (A.full.default, ([2], float("nan")), {}), "inf": (A.full.default, ([2], float("-inf")), {}),
        "neg0": (A.copysign.Scalar, (a, -0.0), {}), "tiny": (A.full.default, ([2], 5e-324), {"dtype": torch.float64}),
        "true": (A.full.default, ([2], True), {}), "false": (A.full.default, ([2], False), {}),
        "int1": (A.full.default, ([2], 1), {}), "float1": (A.full.default, ([2], 1.0), {}),
        "dev": (A.zeros.default, ([2],), {"device": cpu}), "pin": (A.zeros.default, ([2],), {"pin_memory": False}),
        "strided": (A.zeros.default, ([2],), {"layout": torch.strided}), "nolist": (A.zeros.default, ([],), {}),
        "cf": (A.clone.default, (a,), {"memory_format": torch.contiguous_format}),
        "pf": (A.clone.default, (a,), {"memory_format": torch.preserve_format}),
        "flip": (A.flip.default, (a, [-1, 0]), {}), "bools": (A.any.dim, (a, 1, True), {}),
        "fl": (A.upsample_nearest2d.vec, (p.const(torch.arange(4.0).reshape(1, 1, 2, 2)), None, [2.0, 1.5]), {}),
        "optlist": (A.index.Tensor, (a, [None, p.const(torch.tensor([2, 0]))]), {}),
        "str": (A.div.Tensor_mode, (a, p.pool["F"][1]), {"rounding_mode": "floor"}),
        "strnone": (A.div.Tensor_mode, (a, p.pool["F"][1]), {"rounding_mode": None}),
        "unicode": None,
    }
    if L[which] is None:
        return "impossible"
    t, args, kw = L[which]
    n = p.call(t, args, kw)
    return check(p.finish((n,)), p.args, f"literal {which}")


def case_enum(c):
    """the number an enumerated literal is imported as is the one PyTorch's operators take"""
    _, kind, nm = c
    p = Prog()
    v = getattr(torch, nm)
    a = p.pool["F"][0]
    if kind == "layout":
        n = p.call(A.zeros.default, ([2, 3],), {"layout": torch.strided})
        n.kwargs = {"layout": v}
    else:
        x = p.const(torch.ones([1, 2, 3, 4] if v is not torch.channels_last_3d else [1, 2, 3, 4, 5]))
        n = p.call(A.clone.default, (x,), {"memory_format": v})
    p.g.output((n,))
    try:
        m = import_(p.g, "f")
    except Violation:
        raise
    except Exception as e:
        return "rejected"
    b = next(o for o in m.body._ops if o.name == "func.func")._regions[0]._blocks[0]
    op = next(o for o in b._ops if o.name in ("torch.aten.zeros", "torch.aten.clone"))
    arg = op._operands[2 if kind == "layout" else 1].owner
    k = int(arg.attributes["value"].value)
    # PyTorch's numbering, obtained from PyTorch by passing the number
    if kind == "layout":
        try:
            got = A.zeros.default([4, 4], layout=k).layout
        except Exception:
            got = None
        if got != v and not (nm in ("sparse_bsr", "sparse_bsc") and got is None and
                             k == {"sparse_bsr": 5, "sparse_bsc": 6}[nm]):
            raise Violation(f"enum:{nm}", f"torch.{nm} is imported as the number {k}, which means {got}")
    else:
        want = {"contiguous_format": 0, "preserve_format": 1, "channels_last": 2, "channels_last_3d": 3}[nm]
        if k != want:
            raise Violation(f"enum:{nm}", f"torch.{nm} is imported as the number {k}")
    return "equal"


def case_bad(c):
    """graphs outside the subset are rejected, never imported as something else"""
    _, what = c
    p = Prog()
    a = p.pool["F"][0]
    if what == "no_val":
        n = p.call(A.neg.default, (a,))
        del n.meta["val"]
    elif what == "real_val":
        n = p.call(A.neg.default, (a,))
        n.meta["val"] = torch.ones(2, 3)
    elif what == "int_val":
        n = p.call(A.neg.default, (a,))
        n.meta["val"] = 3
    elif what == "get_attr":
        n = fxlib.Prog.const(p, torch.ones(2))
    elif what == "method":
        n = p.g.call_method("neg", (a,))
        n.meta["val"] = a.meta["val"]
    elif what == "module":
        p.root.m = torch.nn.ReLU()
        n = p.g.call_module("m", (a,))
        n.meta["val"] = a.meta["val"]
    elif what == "python_fn":
        n = p.g.call_function(torch.neg, (a,))
        n.meta["val"] = a.meta["val"]
    elif what == "packet":
        n = p.g.call_function(A.neg, (a,))
        n.meta["val"] = a.meta["val"]
    elif what == "operator_add":
        import operator

        n = p.g.call_function(operator.add, (a, a))
        n.meta["val"] = a.meta["val"]
    elif what == "list_return":
        n = p.call(A.split.Tensor, (a, 2, 1))
        n = p.get(n, 1)
    elif what == "int_return":
        n = p.g.call_function(A.size.int, (a, 0))
        n.meta["val"] = a.meta["val"]
    elif what == "unregistered":
        n = p.call(A.nextafter.default, (a, a))
    elif what == "missing":
        n = p.g.call_function(A.add.Tensor, (a,))
        n.meta["val"] = a.meta["val"]
    elif what == "symbolic":
        n = p.call(A.neg.default, (a,))
        from torch.fx.experimental.symbolic_shapes import ShapeEnv
        from torch._subclasses.fake_tensor import FakeTensorMode

        fm = FakeTensorMode(shape_env=ShapeEnv())
        from torch.fx.experimental.symbolic_shapes import DimDynamic, StatelessSymbolicContext

        n.meta["val"] = fm.from_tensor(torch.ones(2, 3), symbolic_context=StatelessSymbolicContext([DimDynamic.DYNAMIC] * 2))
    elif what == "complex":
        n = p.g.call_function(A.add.Scalar, (a, 1j))
        n.meta["val"] = a.meta["val"]
    p.g.output((n,))
    try:
        m = import_(p.g, "f")
    except Violation:
        raise
    except Exception:
        return "rejected"
    try:
        m.operation.verify()
    except Exception:
        return "invalid"
    raise Violation(f"accepts:{what}", f"a graph with {what} is imported\n{m}")


def case_hist(c):
    """histories of imports (failing ones included): each gives what it gives alone"""
    _, hist = c
    mods = []
    for k, (prog, form) in enumerate(hist):
        p = Prog()
        nodes = []
        for li, w in prog:
            nodes += p.step(LET[li], w)
        ph = [n for n in p.g.nodes if n.op == "placeholder"]
        gm = p.finish(FORMS[form](nodes, ph))
        try:
            mods.append((f"f{k % 2}", gm, p.args, import_(gm.graph, f"f{k % 2}")))
        except Violation:
            raise
        except Exception:
            if not rejected_ok(gm.graph):
                raise
    for fn, gm, args, m in mods:
        if not same(Interp(m).call(fn, args), fxlib.run_ref(gm, args)):
            raise Violation(f"history:{hist}", f"history {hist}: {fn} returns other values")
    return "equal"


def dispatch(c):
    return {"prog": case_prog, "out": case_out, "dtype": case_dtype, "lit": case_literal, "enum": case_enum,
            "bad": case_bad, "hist": case_hist}[c[0]](c)


def run(ck):
    global CORE
    n = [i for i in range(len(LET))]
    CORE = [i for i in CORE if LET[i].name not in ("split",)]
    d1 = [("prog", p) for p in programs(1, n, n, True)]
    if ck.thorough:
        d2 = [("prog", p) for p in programs(2, n, n, False)]
        d3 = [("prog", p) for p in programs(3, CORE, CORE, True)]
    else:
        d2 = [("prog", p) for p in sorted(set(list(programs(2, CORE[:5], n, False)) + list(programs(2, n, CORE[-4:], False))))]
        d3 = [("prog", p) for p in programs(3, CORE[:4], CORE, False)]
    cases = d1 + d2 + d3
    for _, p in cases:
        for k in range(1, len(p) + 1):
            ck.state(p[:k])
            ck.transitions += 1
    base = [((IDX["add"], (0, 1)),), ((IDX["sort"], (1,)),), ((IDX["max_dim"], (0,)), (IDX["neg"], (1,))),
            ((IDX["neg"], (0,)), (IDX["abs_i"], (0,)), (IDX["gt"], (2, 0)))]
    rest = [("out", b, f, fn) for b in base for f in FORMS for fn in ("forward", "g_1")]
    names = sorted({str(d)[6:] for d in DTYPES})
    rest += [("dtype", h, d, s) for h in ("lit", "in") for d in names for s in ((2, 3), (), (0, 2), (1,)) if h == "in" or s == ()]
    rest += [("lit", w) for w in ("int_min", "int_max", "nan", "inf", "neg0", "tiny", "true", "false", "int1", "float1", "dev",
                                  "pin", "strided", "nolist", "cf", "pf", "flip", "bools", "fl", "optlist", "str", "strnone")]
    rest += [("enum", "layout", l) for l in ("strided", "sparse_coo", "sparse_csr", "sparse_csc", "sparse_bsr", "sparse_bsc")]
    rest += [("enum", "mf", l) for l in ("contiguous_format", "preserve_format", "channels_last", "channels_last_3d")]
    rest += [("bad", w) for w in ("no_val", "real_val", "int_val", "get_attr", "method", "module", "python_fn", "packet",
                                  "operator_add", "list_return", "int_return", "unregistered", "missing", "symbolic", "complex")]
    H = 3 if ck.thorough else 2
    hp = [(base[0], "tuple1"), (base[1], "swap"), (base[2], "ph"), (base[0], "single"), (base[3], "list1")]
    rest += [("hist", h) for k in range(2, H + 1) for h in itertools.product(hp, repeat=k)]
    infos = ck.run_cases(cases + rest, dispatch, chunk=40)
    for c in rest:
        ck.state(c)
    ck.transitions += len(rest)
    import collections

    st = collections.Counter(i for i in infos if i)
    ck.extra.update({f"graphs_{k}": v for k, v in sorted(st.items())})
    ck.sample({"graph": name(d2[len(d2) // 2][1])})
    ck.sample({"layout literal": "sparse_csc"})

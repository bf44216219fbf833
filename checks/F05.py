"""F05: strided-storage reads are rewritten exactly, or rejected.

Enumerates base layouts x chains of view/copy operators x every as_strided
request (size, stride, offset) in a box, in four graph shapes; rewrites the real
graph and executes it against torch.as_strided on the same storage.
"""
import itertools

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from torch._subclasses.fake_tensor import FakeTensorMode

from mc.core import Violation
from mc import fxlib
from mc.interp import Interp, same, short

ID = "F05"
LEVEL = "model_checking"
RULE = ("state = (base layout, chain of view/copy operators); transition = one as_strided request "
        "applied in that state, rewritten by the real code and executed against PyTorch")
A = torch.ops.aten

# (shape, strides, storage offset, storage size, dtype)
BASES = {
    "v6": ((6,), (1,), 0, 6), "v4+2": ((4,), (1,), 2, 6), "m23": ((2, 3), (3, 1), 0, 6),
    "m23T": ((2, 3), (1, 2), 0, 6), "m23+1": ((2, 3), (3, 1), 1, 8), "c223": ((2, 2, 3), (6, 3, 1), 0, 12),
    "perm": ((2, 3, 2), (2, 4, 1), 0, 12), "nhwc": ((2, 2, 2, 1), (4, 1, 2, 2), 0, 8),
    "nhwc1": ((2, 1, 2, 2), (4, 1, 2, 1), 0, 8), "nhwc1b": ((1, 2, 2, 2), (8, 1, 4, 2), 0, 8),
    "gap": ((2, 2), (3, 1), 0, 6), "step": ((3,), (2,), 0, 6), "bcast": ((2, 3), (0, 1), 0, 3),
    "overlap": ((2, 3), (1, 1), 0, 4), "scalar": ((), (), 0, 1), "scalar+1": ((), (), 1, 2),
    "empty": ((0, 2), (2, 1), 0, 2), "one": ((1, 3), (7, 1), 0, 3), "one2": ((3, 1), (1, 1), 0, 3),
}

T = torch


def chains():
    return {
        "": [],
        "t": [("t", lambda x: (A.t.default, (x,)), 2)],
        "T": [("permute", lambda x: (A.permute.default, (x, [2, 0, 1])), 3)],
        "slice": [("slice", lambda x: (A.slice.Tensor, (x, 0, 1, 9, 1)), 1)],
        "slice2": [("slice", lambda x: (A.slice.Tensor, (x, 0, 0, 9, 2)), 1)],
        "slice_last": [("slice", lambda x: (A.slice.Tensor, (x, -1, 1, 9, 1)), 1)],
        "select": [("select", lambda x: (A.select.int, (x, 0, 1)), 1)],
        "unsq": [("unsq", lambda x: (A.unsqueeze.default, (x, 0)), 0)],
        "expand": [("unsq", lambda x: (A.unsqueeze.default, (x, 0)), 0),
                   ("expand", lambda x: (A.expand.default, (x, [2, -1])), -2)],
        "view": [("view", lambda x: (A.view.default, (x, [-1])), 0)],
        "alias": [("alias", lambda x: (A.alias.default, (x,)), 0)],
        "detach": [("detach", lambda x: (A.detach.default, (x,)), 0)],
        "clone": [("clone", lambda x: (A.clone.default, (x,)), 0)],
        "contig": [("clone", lambda x: (A.clone.default, (x,), {"memory_format": T.contiguous_format}), 0)],
        "neg": [("neg", lambda x: (A.neg.default, (x,)), 0)],
        "cast": [("cast", lambda x: (A._to_copy.default, (x,), {"dtype": T.float64}), 0)],
        "strided": [("as_strided", lambda x: (A.as_strided.default, (x, [2], [1], 1)), 0)],
        "strided_t": [("as_strided", lambda x: (A.as_strided.default, (x, [2, 2], [1, 2])), 0)],
        "viewdt": [("view.dtype", lambda x: (A.view.dtype, (x, T.int32)), 0)],
        "viewdt8": [("view.dtype", lambda x: (A.view.dtype, (x, T.int16)), 0)],
        "viewdt64": [("view.dtype", lambda x: (A.view.dtype, (x, T.int64)), 0)],
        "slice_t": [("slice", lambda x: (A.slice.Tensor, (x, 0, 1, 9, 1)), 1),
                    ("t", lambda x: (A.t.default, (x,)), 2)],
        "clone_t": [("clone", lambda x: (A.clone.default, (x,)), 0),
                    ("t", lambda x: (A.t.default, (x,)), 2)],
        "t_clone": [("t", lambda x: (A.t.default, (x,)), 2),
                    ("clone", lambda x: (A.clone.default, (x,), {"memory_format": T.contiguous_format}), 0)],
        "t_neg_sel": [("t", lambda x: (A.t.default, (x,)), 2),
                      ("neg", lambda x: (A.neg.default, (x,)), 0),
                      ("select", lambda x: (A.select.int, (x, 0, 1)), 1)],
        "strided_slice": [("as_strided", lambda x: (A.as_strided.default, (x, [3], [1], 0)), 0),
                          ("slice", lambda x: (A.slice.Tensor, (x, 0, 1, 9, 1)), 1)],
        "split": [("split", lambda x: (A.split.Tensor, (x, 1)), 1), ("get", 1, 0)],
        "unbind": [("unbind", lambda x: (A.unbind.int, (x,)), 1), ("get", 1, 0)],
    }


CPLX = {
    "real": [("view_as_real", lambda x: (A.view_as_real.default, (x,)), 0)],
    "conj": [("conj", lambda x: (A._conj.default, (x,)), 0)],
    "conj_real": [("conj", lambda x: (A._conj.default, (x,)), 0),
                  ("real", lambda x: (A.real.default, (x,)), 0)],
    "imag": [("imag", lambda x: (A.imag.default, (x,)), 0)],
    "": [],
}


def real_base(spec, dtype=torch.float32):
    shape, strides, off, n = spec
    if dtype.is_complex:
        st = torch.complex(torch.arange(1, n + 1).float(), torch.arange(1, n + 1).float() * 10)
    else:
        st = (torch.arange(1, n + 1) * 1.5).to(dtype)
    return torch.as_strided(st, shape, strides, off)


def requests(level):
    if level == 0:
        szs, strs, offs = [(), (0,), (2,), (3,), (2, 2), (1, 3)], [0, 1, 2, 3], [None, 0, 1]
    else:
        dims = [0, 1, 2, 3]
        strs = [0, 1, 2, 3, 4] if level == 2 else [0, 1, 2, 3]
        offs = [None, 0, 1, 2, 3, 5] if level == 2 else [None, 0, 1]
        szs = [()] + [(a,) for a in dims]
        szs += [(a, b) for a in (dims if level == 2 else [1, 2, 3]) for b in dims]
    for sz in szs:
        for st in itertools.product(strs, repeat=len(sz)):
            for o in offs:
                yield sz, st, o
    for st in itertools.permutations([1, 2, 4], 3):
        for o in offs:
            yield (2, 2, 2), st, o
    for st in ((4, 1, 2, 1), (4, 4, 2, 1), (8, 1, 4, 2)):
        yield (2, 1, 2, 2), st, None


class Builder:
    def __init__(self, spec, dtype, chain, const=False):
        self.fm = FakeTensorMode(allow_non_fake_inputs=False)
        self.spec, self.dtype, self.chain, self.const = spec, dtype, chain, const
        self.x = real_base(spec, dtype)
        with self.fm:
            sh, st, off, n = spec
            self.fx = torch.empty(n, dtype=dtype).as_strided(sh, st, off)

    def start(self):
        g = torch.fx.Graph()
        root = torch.nn.Module()
        if self.const:
            root.register_buffer("buf", self.x)
            n = g.get_attr("buf")
        else:
            n = g.placeholder("x")
        n.meta["val"] = self.fx
        cur = n
        for step in self.chain:
            if step[0] == "get":
                cur = self.getitem(g, cur, step[1])
                continue
            r = step[1](cur)
            cur = self.call(g, r[0], r[1], r[2] if len(r) > 2 else {})
        return g, root, cur

    def call(self, g, target, args, kw=None):
        n = g.call_function(target, args, kw or {})
        with self.fm:
            n.meta["val"] = target(*[a.meta["val"] if isinstance(a, torch.fx.Node) else a for a in args],
                                   **(kw or {}))
        return n

    def getitem(self, g, n, i):
        import operator

        r = g.call_function(operator.getitem, (n, i))
        r.meta["val"] = n.meta["val"][i]
        return r

    def strided(self, g, n, sz, st, o, form):
        if form == "kw":
            kw = {"size": list(sz), "stride": list(st)}
            if o is not None:
                kw["storage_offset"] = o
            node = g.call_function(A.as_strided.default, (n,), kw)
            with self.fm:
                node.meta["val"] = torch.as_strided(n.meta["val"], sz, st, o)
            return node
        args = (n, list(sz), list(st)) + (() if o is None and form != "none" else (o,))
        return self.call(g, A.as_strided.default, args)


def dense(spec):
    sh, st, off, n = spec
    k = 1
    for s in sh:
        k *= s
    addrs = {0}
    for a, b in zip(sh, st):
        addrs = {x + i * b for x in addrs for i in range(a)}
    return len(addrs) == k and addrs == set(range(k)) and k > 0


def addresses(sz, st, o):
    if 0 in sz:
        return set()
    ad = {o}
    for a, b in zip(sz, st):
        ad = {x + i * b for x in ad for i in range(a)}
    return ad


def rewritten(b, sz, st, o, form="pos", shape="single"):
    """Build, rewrite, execute.  -> ('ok', exp, got) | ('rejected',) | None (not a program)"""
    from torch_mlir.extras.fx_as_strided import rewrite_as_strided

    try:
        g, root, cur = b.start()
        a = b.strided(g, cur, sz, st, o, form)
        outs = (a,)
        if shape == "nested":
            outs = (a, b.call(g, A.as_strided.default, (a, [2], [1])))
        elif shape == "nested_view":
            t = b.call(g, A.alias.default, (a,))
            outs = (b.call(g, A.as_strided.default, (t, [2], [1], 0)), a)
        elif shape == "sibling":
            outs = (b.call(g, A.as_strided.default, (cur, [1], [1])), a, a)
        elif shape == "used":
            outs = (b.call(g, A.neg.default, (a,)), cur)
        names = [n.name for n in outs]
        metas = [n.meta["val"] for n in outs]
        g.output(outs)
        gm = torch.fx.GraphModule(root, g)
        exp = [t.clone().contiguous() for t in (gm() if b.const else gm(b.x))]
    except Exception:
        return None
    before = b.x.clone()
    try:
        changed = rewrite_as_strided(gm.graph)
    except ValueError:
        return ("rejected",)
    gm.recompile()
    where = f"{b.spec}/{[s[0] for s in b.chain]}/{(sz, st, o)}/{form}/{shape}"
    if changed is not True:
        raise Violation(f"rewrite:{where}", f"returned {changed}")
    if any(n.target == A.as_strided.default for n in gm.graph.nodes):
        raise Violation(f"rewrite:{where}", "left an as_strided behind")
    o2 = list(gm.graph.nodes)[-1].args[0]
    if [n.name for n in o2] != names:
        raise Violation(f"rewrite:{where}", f"output names {[n.name for n in o2]} != {names}")
    for n, m in zip(o2, metas):
        v = n.meta["val"]
        if tuple(v.shape) != tuple(m.shape) or v.dtype != m.dtype:
            raise Violation(f"rewrite:{where}", f"metadata {v.shape} {v.dtype} != {m.shape} {m.dtype}")
    got = gm() if b.const else gm(b.x)
    if not same(list(got), exp):
        raise Violation(f"rewrite:{where}", f"{[short(t) for t in got]} != {[short(t) for t in exp]}\n{gm.graph}")
    if not torch.equal(b.x, before):
        raise Violation(f"rewrite:{where}", "changed the base")
    return ("ok", gm, exp)


def case_group(c):
    base, ch, full, dt = c
    chain = (CPLX if dt.is_complex else chains())[ch]
    spec = BASES[base]
    b = Builder(spec, dt, chain)
    try:
        g, root, cur = b.start()
    except Exception:
        return (0, 0, 0)
    ok = rej = 0
    src_off = cur.meta["val"].storage_offset()
    k = 1
    for s in spec[0]:
        k *= s
    plain = ch in ("", "t", "T", "slice", "slice2", "slice_last", "select", "unsq", "expand", "view", "alias",
                   "detach", "slice_t")
    for sz, st, o in requests(full):
        r = rewritten(b, sz, st, o)
        if r is None:
            continue
        if r[0] == "ok":
            ok += 1
        else:
            rej += 1
            oo = src_off if o is None else o
            ad = addresses(sz, st, oo)
            if plain and dense(spec) and all(spec[2] <= x < spec[2] + k for x in ad):
                raise Violation(f"reject:{base}/{ch}/{(sz, st, o)}",
                                f"a dense base {spec}, request {(sz, st, o)} within it, rejected")
    return (1, ok, rej)


SHAPES = ["single", "nested", "nested_view", "sibling", "used"]
FORMS = ["pos", "none", "kw"]


def case_graph(c):
    """Graph shapes x argument forms, then imported and interpreted."""
    from torch_mlir import fx

    base, ch, const, shape, form = c
    b = Builder(BASES[base], torch.float32, chains()[ch], const)
    n = 0
    for sz, st, o in [((2, 2), (1, 2), None), ((2, 2), (1, 2), 1), ((3,), (1,), None), ((3,), (0,), 0),
                      ((), (), 1), ((0, 2), (1, 1), None), ((2, 1, 2), (1, 1, 1), 0)]:
        r = rewritten(b, sz, st, o, form, shape)
        if r is None or r[0] != "ok":
            continue
        n += 1
        # the same program, un-rewritten, through the importer
        g, root, cur = b.start()
        a = b.strided(g, cur, sz, st, o, form)
        outs = (a,)
        if shape == "nested":
            outs = (a, b.call(g, A.as_strided.default, (a, [2], [1])))
        elif shape == "nested_view":
            t = b.call(g, A.alias.default, (a,))
            outs = (b.call(g, A.as_strided.default, (t, [2], [1], 0)), a)
        elif shape == "sibling":
            outs = (b.call(g, A.as_strided.default, (cur, [1], [1])), a, a)
        elif shape == "used":
            outs = (b.call(g, A.neg.default, (a,)), cur)
        g.output(outs)
        gm = torch.fx.GraphModule(root, g)
        from torch.fx.passes.shape_prop import _extract_tensor_metadata

        for nd in g.nodes:
            if isinstance(nd.meta.get("val"), torch.Tensor) and form != "none":
                nd.meta["tensor_meta"] = _extract_tensor_metadata(nd.meta["val"])
        m = fx.stateless_fx_import(gm)
        m.operation.verify()
        got = Interp(m).call("main", [] if const else [b.x])
        if not same(list(got), r[2]):
            raise Violation(f"import:{c}/{(sz, st, o)}", f"{[short(t) for t in got]} != {[short(t) for t in r[2]]}\n{m}")
    return n


class M(torch.nn.Module):
    def __init__(self, k):
        super().__init__()
        self.k = k
        self.register_buffer("b", torch.arange(12.0).reshape(3, 4))
        self.p = torch.nn.Parameter(torch.arange(6.0).reshape(2, 3) * 0.5)

    def forward(self, x):
        k = self.k
        if k == 0:
            return torch.as_strided(x, (2, 2), (1, 2))
        if k == 1:
            return torch.as_strided(x.t(), (2, 2), (1, 2), 1), x + 1
        if k == 2:
            return torch.as_strided(self.b, (2, 3), (4, 1), 1) + torch.as_strided(x, (2, 3), (0, 1), 0)
        if k == 3:
            return torch.as_strided(self.p, (3, 2), (1, 3))
        if k == 4:
            self.b.add_(1)
            return torch.as_strided(self.b, (2, 2), (1, 4), 2) * 2
        if k == 5:
            y = x * 2
            self.b.copy_(torch.as_strided(y, (3, 4), (1, 1), 0))
            return y
        if k == 6:
            x.add_(1)
            return torch.as_strided(x, (3, 2), (1, 3)), x.t()
        if k == 7:
            y = torch.as_strided(x, (3, 2), (1, 3))
            return torch.as_strided(y, (2, 2), (1, 1), 1), y, torch.as_strided(y.t(), (2,), (2,))
        if k == 8:
            y = (x * 3).t()
            z = torch.as_strided(y, (2, 2), (2, 1), 1)
            return z, z, torch.as_strided(x, (1,), (1,), 5)
        if k == 9:
            return torch.as_strided(x.unfold(1, 2, 1), (2, 2), (1, 1), 1)


def case_export(c):
    from torch_mlir import fx

    k, entry, mut = c
    m = M(k)
    x = torch.arange(6.0).reshape(2, 3) + 0.25
    ref = M(k)
    xr = x.clone()
    exp = ref(xr)
    exp = list(exp) if isinstance(exp, tuple) else [exp]
    exp = [t.detach().clone() for t in exp]
    if k in (4, 5, 6):
        return case_mut(k, m, x, ref, xr, exp) if entry == "eai" else None
    from torch_mlir.extras.fx_importer import FxImporter

    prog = torch.export.export(m, (x.clone(),), strict=False)
    if entry == "eai":
        mod = fx.export_and_import(m, x.clone())
    else:
        from torch_mlir import ir
        from torch_mlir.dialects import torch as torch_d

        ctx = ir.Context()
        torch_d.register_dialect(ctx)
        imp = FxImporter(context=ctx)
        if entry == "frozen":
            imp.import_frozen_program(prog)
        else:
            imp.import_program(prog)
        mod = imp.module
    mod.operation.verify()
    fn = [op for op in mod.body.operations][-1].attributes["sym_name"].value
    got = Interp(mod).call(fn, [x.clone()])
    if not same(list(got), exp):
        raise Violation(f"export:{c}", f"{[short(t) for t in got]} != {[short(t) for t in exp]}\n{mod}")
    return 1


def case_mut(k, m, x, ref, xr, exp):
    """Programs which also mutate a buffer or an input."""
    from torch_mlir import fx, ir
    from torch_mlir.extras.fx_importer import FxImporterHooks

    class Hooks(FxImporterHooks):
        def store_produced_value(self, gni, py_value, produced_ir_value, info):
            ir.Operation.create("x.store", operands=[produced_ir_value],
                                attributes={"name": ir.StringAttr.get(info.input_spec.target)})

    prog = torch.export.export(m, (x.clone(),), strict=False)
    mod = fx.export_and_import(prog, experimental_support_mutation=True, hooks=Hooks())
    mod.operation.verify()
    stored = {}

    def store(it, op, a):
        stored[op.attributes["name"].value] = a[0].clone()
        return []

    xi = x.clone()
    got = Interp(mod, hooks={"x.store": store}).call("main", [xi])
    if not same(list(got), exp) or not same(xi, xr) or not same(stored.get("b", M(k).b), ref.b):
        raise Violation(f"export-mut:{k}", f"{[short(t) for t in got]} != {[short(t) for t in exp]}\n{mod}")
    return 1


FN = {"grp": case_group, "graph": case_graph, "exp": case_export}


def run_case(c):
    return FN[c[0]](c[1:])


def run(ck):
    th = ck.thorough

    def lv(b, ch):
        if th:
            return 2
        if ch == "":
            return 2 if b in ("m23", "nhwc1", "gap") else 1
        return 0

    cases = []
    for b in BASES:
        for ch in chains():
            cases.append(("grp", b, ch, lv(b, ch), torch.float32))
        for ch in CPLX:
            cases.append(("grp", b, ch, int(th), torch.complex64))
        cases.append(("grp", b, "", int(th), torch.int64))
    for b in ("m23", "m23T", "v6", "c223", "m23+1", "nhwc1"):
        for ch in ("", "t", "slice", "clone", "strided", "neg") if not th else chains():
            for const in (False, True):
                for shape in SHAPES:
                    for form in FORMS:
                        cases.append(("graph", b, ch, const, shape, form))
    for k in range(10):
        for entry in ("program", "frozen", "eai"):
            cases.append(("exp", k, entry, 0))
    infos = ck.run_cases(cases, run_case, keyfn=repr, chunk=2,
                         nontrivial=lambda c, i: i not in (None, 0, (0, 0, 0)))
    grp = [i for c, i in zip(cases, infos) if c[0] == "grp" and i]
    ck.n_states_extra = sum(1 for i in grp if i[0]) + len(cases) - len([c for c in cases if c[0] == "grp"])
    ck.transitions = sum(i[1] + i[2] for i in grp) + sum(i or 0 for c, i in zip(cases, infos) if c[0] == "graph")
    ck.traces = ck.transitions
    ck.extra.update(requests_rewritten=sum(i[1] for i in grp), requests_rejected=sum(i[2] for i in grp))
    ck.sample("base (2,3)/(1,2), chain [slice, t], as_strided((2,2),(1,2),None)")
    ck.assumptions += ["FakeTensor metadata is what PyTorch computes for the operators of the chain"]


def replay(ck, c):
    print("cases are tuples; rerun with the case printed in the message")
    return 1

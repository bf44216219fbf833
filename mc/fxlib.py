"""Alphabet and builders for small FX programs used by several checks."""
import itertools

import torch
from torch._subclasses.fake_tensor import FakeTensorMode
import operator

A = torch.ops.aten
SH = (2, 3)


def _inputs():
    F0 = torch.tensor([[1.5, -2.25, 0.5], [3.0, -0.75, 4.5]])
    F1 = torch.tensor([[0.5, 2.0, -1.25], [0.25, 3.5, -4.0]])
    I0 = torch.tensor([[3, -5, 2], [7, 1, -4]])
    B0 = torch.tensor([[True, False, True], [False, False, True]])
    return {"F": [F0, F1], "I": [I0], "B": [B0]}


class L:
    """A letter: operand types, target, argument templates, result types.

    `P(i)` in args/kwargs stands for operand i.  outs is a list of (getitem
    index or None, type).
    """

    def __init__(self, name, ins, target, args, kwargs=None, outs="F", core=False):
        self.name, self.ins, self.target, self.args = name, ins, target, args
        self.kwargs, self.core = kwargs or {}, core
        self.outs = [(None, outs)] if isinstance(outs, str) else outs


class P:
    def __init__(self, i):
        self.i = i


def _sub(t, ops):
    if isinstance(t, P):
        return ops[t.i]
    if isinstance(t, list):
        return [_sub(x, ops) for x in t]
    if isinstance(t, tuple):
        return tuple(_sub(x, ops) for x in t)
    return t


def letters():
    a, b, c = P(0), P(1), P(2)
    F, I, B = "F", "I", "B"
    X = "X"  # an opaque tensor: may be returned, never used as operand
    f32, f64, i64, i32, bl = torch.float32, torch.float64, torch.int64, torch.int32, torch.bool
    Ls = [
        # (Tensor, Tensor, *, alpha) in all argument forms
        L("add", "FF", A.add.Tensor, (a, b), core=True),
        L("add_alpha", "FF", A.add.Tensor, (a, b), {"alpha": 2}),
        L("add_alpha_f", "FF", A.add.Tensor, (a, b), {"alpha": 0.5}),
        L("sub", "FF", A.sub.Tensor, (a, b), core=True),
        L("sub_alpha", "FF", A.sub.Tensor, (a, b), {"alpha": 3}),
        L("rsub", "F", A.rsub.Scalar, (a, 2.5, 3)),
        # Tensor overloads called with python scalars (AOT autograd form)
        L("add_T_int", "F", A.add.Tensor, (a, 2)),
        L("add_T_float", "F", A.add.Tensor, (a, -1.5)),
        L("add_T_alpha", "F", A.add.Tensor, (a, 2), {"alpha": 3}),
        L("sub_T_int", "F", A.sub.Tensor, (a, 7)),
        L("sub_T_alpha", "F", A.sub.Tensor, (a, 1.5), {"alpha": 2}),
        L("mul_T_float", "F", A.mul.Tensor, (a, 0.5)),
        L("div_T_int", "F", A.div.Tensor, (a, 4)),
        L("divmode_T", "F", A.div.Tensor_mode, (a, 2.0), {"rounding_mode": "floor"}),
        L("eq_T", "F", A.eq.Tensor, (a, 0.5), outs=B),
        L("ne_T", "I", A.ne.Tensor, (a, 2), outs=B),
        L("lt_T", "F", A.lt.Tensor, (a, 1), outs=B),
        L("gt_T", "I", A.gt.Tensor, (a, 1), outs=B),
        L("le_T", "F", A.le.Tensor, (a, 0.5), outs=B),
        L("ge_T", "F", A.ge.Tensor, (a, 0.5), outs=B),
        L("rem_T", "F", A.remainder.Tensor, (a, 2.0)),
        L("fmod_T", "F", A.fmod.Tensor, (a, 2.0)),
        L("pow_T", "F", A.pow.Tensor_Scalar, (a, 2)),
        L("pow_TT", "FF", A.pow.Tensor_Tensor, (a, b)),
        L("fdiv_T", "I", A.floor_divide.default, (a, 2), outs=I),
        # genuine scalar overloads
        L("add_S", "F", A.add.Scalar, (a, 2.5)),
        L("add_S2", "I", A.add.Scalar, (a, 2, 3), outs=I),
        L("mul_S_bool", "F", A.mul.Scalar, (a, True)),
        L("mul_S", "I", A.mul.Scalar, (a, -3), outs=I),
        L("div_S", "F", A.div.Scalar, (a, 3)),
        L("gt_S", "F", A.gt.Scalar, (a, 0), outs=B),
        L("le_S", "I", A.le.Scalar, (a, 2), outs=B),
        L("clamp", "F", A.clamp.default, (a, -1.0, 2)),
        L("clamp_none", "F", A.clamp.default, (a, None, 1.0)),
        L("clamp_kw", "F", A.clamp.default, (a,), {"min": -0.5}),
        L("clamp_kw_max", "F", A.clamp.default, (a,), {"max": 0.5}),
        L("leaky", "F", A.leaky_relu.default, (a, 0.2)),
        L("leaky_def", "F", A.leaky_relu.default, (a,)),
        L("elu", "F", A.elu.default, (a, 0.5, 2, 3.0)),
        L("hardtanh", "F", A.hardtanh.default, (a, -1.0, 2.0)),
        L("threshold", "F", A.threshold.default, (a, 1.0, -7.0)),
        # strings
        L("div_floor", "FF", A.div.Tensor_mode, (a, b), {"rounding_mode": "floor"}),
        L("div_trunc", "FF", A.div.Tensor_mode, (a, b), {"rounding_mode": "trunc"}),
        L("div_none", "FF", A.div.Tensor_mode, (a, b), {"rounding_mode": None}),
        L("gelu_tanh", "F", A.gelu.default, (a,), {"approximate": "tanh"}),
        L("gelu", "F", A.gelu.default, (a,)),
        # int lists / optional int lists / bools / optional dtype
        L("sum", "F", A.sum.dim_IntList, (a, [1], True), outs=X),
        L("sum_none", "F", A.sum.dim_IntList, (a, None), outs=X),
        L("sum_dt", "F", A.sum.dim_IntList, (a, [0, 1]), {"dtype": f64}, outs=X),
        L("sum_empty", "F", A.sum.dim_IntList, (a, []), outs=X),
        L("mean", "F", A.mean.dim, (a, [0], False), outs=X),
        L("mean_neg", "F", A.mean.dim, (a, [-1], True), outs=X),
        L("amax", "F", A.amax.default, (a, [1], True), outs=X),
        L("var", "F", A.var.correction, (a, [1]), {"correction": 0, "keepdim": True}, outs=X),
        L("var_def", "F", A.var.correction, (a,), outs=X),
        L("std", "F", A.std.correction, (a, [0]), {"correction": 1}, outs=X),
        L("view", "F", A.view.default, (a, [3, 2]), outs=X),
        L("view_m1", "F", A.view.default, (a, [-1]), outs=X),
        L("permute", "F", A.permute.default, (a, [1, 0]), outs=X),
        L("permute_id", "F", A.permute.default, (a, [0, 1])),
        L("transpose", "F", A.transpose.int, (a, 0, 1), outs=X),
        L("flip", "F", A.flip.default, (a, [0, 1])),
        L("roll", "F", A.roll.default, (a, [1, 2], [0, 1])),
        L("roll_def", "F", A.roll.default, (a, [2])),
        L("slice", "F", A.slice.Tensor, (a, 1, 0, 2), outs=X),
        L("slice_step", "F", A.slice.Tensor, (a, 1, 0, 9223372036854775807, 2), outs=X),
        L("slice_def", "F", A.slice.Tensor, (a, 1, 1), outs=X),
        L("slice_none", "F", A.slice.Tensor, (a, 0, None, -1), outs=X),
        L("select", "F", A.select.int, (a, 0, 1), outs=X),
        L("expand", "F", A.expand.default, (a, [2, 2, 3]), outs=X),
        L("unsqueeze", "F", A.unsqueeze.default, (a, -1), outs=X),
        L("repeat", "F", A.repeat.default, (a, [2, 1]), outs=X),
        L("cumsum", "F", A.cumsum.default, (a, 1)),
        L("cumsum_dt", "F", A.cumsum.default, (a, 0), {"dtype": f64}, outs=X),
        L("softmax", "F", A._softmax.default, (a, 1, False)),
        L("logsm", "F", A._log_softmax.default, (a, -1, False)),
        L("tril", "F", A.tril.default, (a, -1)),
        L("triu_def", "F", A.triu.default, (a,)),
        L("all", "B", A.all.dims, (a, [1], True), outs=X),
        L("any", "B", A.any.dim, (a, 0), outs=X),
        L("argmax", "F", A.argmax.default, (a, 1, True), outs=X),
        L("argmax_none", "F", A.argmax.default, (a,), outs=X),
        L("cpad", "F", A.constant_pad_nd.default, (a, [1, 0, 2, 1], 1.5), outs=X),
        L("cpad_int", "F", A.constant_pad_nd.default, (a, [1, 1]), outs=X),
        # dtype / device / layout / memory format / creation
        L("to_f64", "F", A._to_copy.default, (a,), {"dtype": f64}, outs=X),
        L("to_i32", "F", A._to_copy.default, (a,), {"dtype": i32}, outs=X),
        L("to_bool", "F", A._to_copy.default, (a,), {"dtype": bl}, outs=B),
        L("to_f32", "I", A._to_copy.default, (a,), {"dtype": f32}),
        L("to_i64", "B", A._to_copy.default, (a,), {"dtype": i64}, outs=I),
        L("to_dev", "F", A._to_copy.default, (a,), {"device": torch.device("cpu")}),
        L("to_half", "F", A._to_copy.default, (a,), {"dtype": torch.float16}, outs=X),
        L("to_bf16", "F", A._to_copy.default, (a,), {"dtype": torch.bfloat16}, outs=X),
        L("convet", "I", torch.ops.prims.convert_element_type.default, (a, f32)),
        L("clone_cf", "F", A.clone.default, (a,), {"memory_format": torch.contiguous_format}),
        L("clone_pf", "F", A.clone.default, (a,), {"memory_format": torch.preserve_format}),
        L("clone", "F", A.clone.default, (a,)),
        L("zeros", "", A.zeros.default, ([2, 3],),
          {"dtype": f32, "layout": torch.strided, "device": torch.device("cpu"), "pin_memory": False}),
        L("full", "", A.full.default, ([2, 3], 2.5), {"dtype": f32}),
        L("full_i", "", A.full.default, ([2, 3], 7), {"dtype": i64}, outs=I),
        L("full_b", "", A.full.default, ([2, 3], True), {"dtype": bl}, outs=B),
        L("full_like", "F", A.full_like.default, (a, 3), {"pin_memory": False}),
        L("ones_like", "I", A.ones_like.default, (a,), {"dtype": f32}),
        L("arange", "", A.arange.start_step, (1, 10, 3), {"dtype": i64, "pin_memory": False}, outs=X),
        L("arange_f", "", A.arange.start_step, (0.0, 1.0, 0.25), outs=X),
        L("scalar_t", "", A.scalar_tensor.default, (-2.5,), {"dtype": f64}, outs=X),
        L("new_ones", "F", A.new_ones.default, (a, [2, 3]), {"dtype": i64}, outs=I),
        # lists of tensors; lists of optional tensors
        L("cat", "FF", A.cat.default, ([a, b], 1), outs=X),
        L("cat_def", "FF", A.cat.default, ([a, b],), outs=X),
        L("cat3", "FFF", A.cat.default, ([a, b, c, a], -1), outs=X),
        L("stack", "FF", A.stack.default, ([a, b], 2), outs=X),
        L("stack_i", "II", A.stack.default, ([a, b],), outs=X),
        L("index", "FI", A.index.Tensor, (a, [None, torch.tensor([2, 0])]), outs=X),
        L("index_b", "FB", A.index.Tensor, (a, [torch.tensor([1, 0, 1])]), outs=X),
        L("index2", "F", A.index.Tensor, (a, [torch.tensor([1, 0]), torch.tensor([2, 0])]), outs=X),
        L("index_put", "FF", A.index_put.default,
          (a, [torch.tensor([1]), None], torch.tensor([9.0])), outs=F),
        L("index_put_acc", "F", A.index_put.default,
          (a, [torch.tensor([1, 1])], torch.tensor(2.0), True), outs=F),
        L("meshgrid_l", "F", A.broadcast_tensors.default, ([a, a],),
          outs=[(0, F), (1, F)]),
        # multi-result with getitem in all orders
        L("max_dim", "F", A.max.dim, (a, 1, True), outs=[(1, X), (0, X)], core=True),
        L("min_dim_neg", "F", A.min.dim, (a, -1), outs=[(0, X), (1, X)]),
        L("topk", "F", A.topk.default, (a, 2, 1, False, True), outs=[(0, X), (1, X)]),
        L("sort", "F", A.sort.default, (a, 1, True), outs=[(0, F), (1, I)], core=True),
        L("sort_r", "F", A.sort.default, (a,), outs=[(1, I), (0, F)]),
        L("layernorm", "F", A.native_layer_norm.default,
          (a, [3], torch.tensor([1.0, 2.0, 3.0]), None, 1e-5), outs=[(0, F), (2, X)]),
        L("var_mean", "F", A.var_mean.correction, (a, [1]), {"correction": 1}, outs=[(1, X), (0, X)]),
        L("aminmax", "F", A.aminmax.default, (a,), {"dim": 1}, outs=[(0, X), (1, X)]),
        L("frexp", "F", A.frexp.Tensor, (a,), outs=[(0, F), (1, X)]),
        # list results
        L("split", "F", A.split.Tensor, (a, 2, 1), outs=[(1, X), (0, X)], core=True),
        L("split_def", "F", A.split.Tensor, (a, 1), outs=[(0, X), (1, X)]),
        L("split_ws", "F", A.split_with_sizes.default, (a, [1, 2], 1), outs=[(0, X), (1, X)]),
        L("unbind", "F", A.unbind.int, (a, 1), outs=[(2, X), (0, X), (2, X)]),
        L("chunk", "F", A.chunk.default, (a, 3, 1), outs=[(1, X), (2, X), (0, X)]),
        # dtype-changing / logical / select
        L("where", "BFF", A.where.self, (a, b, c), core=True),
        L("logand", "BB", A.logical_and.default, (a, b), outs=B),
        L("bitnot", "B", A.bitwise_not.default, (a,), outs=B),
        L("neg", "F", A.neg.default, (a,), core=True),
        L("abs_i", "I", A.abs.default, (a,), outs=I, core=True),
        L("gt", "FF", A.gt.Tensor, (a, b), outs=B, core=True),
        L("gather", "F", A.gather.default, (a, 1, torch.tensor([[0, 2], [1, 1]])), outs=X),
        L("scatter", "FF", A.scatter.src, (a, 1, torch.tensor([[0], [2]]), b)),
        L("scatter_v", "F", A.scatter.value, (a, 1, torch.tensor([[0], [2]]), 4.5)),
        L("scatter_red", "F", A.scatter_reduce.two,
          (a, 1, torch.tensor([[0, 0], [1, 1]]), torch.tensor([[1.0, 2.0], [3.0, 4.0]]), "sum"),
          {"include_self": False}),
        L("lerp", "FF", A.lerp.Scalar, (a, b, 0.25)),
        L("addcmul", "FFF", A.addcmul.default, (a, b, c), {"value": 2}),
        L("addmm", "F", A.addmm.default,
          (torch.tensor([1.0, 2.0]), a, torch.tensor([[1.0, 0.0], [0.0, 1.0], [2.0, 1.0]])),
          {"beta": 2, "alpha": 0.5}, outs=X),
        L("mm", "F", A.mm.default, (a, torch.tensor([[1.0, 0.0], [0.0, 1.0], [2.0, 1.0]])), outs=X),
        # several optional-kind args at once
        L("conv", "F", A.convolution.default,
          (torch.arange(12.0).reshape(1, 2, 6), torch.arange(12.0).reshape(3, 2, 2), None,
           [2], [1], [1], False, [0], 1), outs=X),
        L("conv_T", "F", A.convolution.default,
          (torch.arange(12.0).reshape(1, 2, 6), torch.arange(12.0).reshape(2, 3, 2),
           torch.tensor([1.0, 2.0, 3.0]), [2], [1], [1], True, [1], 1), outs=X),
        L("maxpool", "F", A.max_pool2d_with_indices.default,
          (torch.arange(16.0).reshape(1, 1, 4, 4), [2, 2], [1, 2], [1, 0], [1, 1], True),
          outs=[(0, X), (1, X)]),
        L("avgpool", "F", A.avg_pool2d.default,
          (torch.arange(16.0).reshape(1, 1, 4, 4), [2, 2], [1, 1], [1, 1], True, False, 3), outs=X),
        L("avgpool_def", "F", A.avg_pool2d.default,
          (torch.arange(16.0).reshape(1, 1, 4, 4), [2, 2]), outs=X),
        L("upsample", "F", A.upsample_nearest2d.vec,
          (torch.arange(4.0).reshape(1, 1, 2, 2), None, [2.0, 1.5]), outs=X),
        L("upsample_sz", "F", A.upsample_bilinear2d.vec,
          (torch.arange(4.0).reshape(1, 1, 2, 2), [3, 4], True, None), outs=X),
        L("grid", "F", A.grid_sampler_2d.default,
          (torch.arange(4.0).reshape(1, 1, 2, 2), torch.zeros(1, 1, 1, 2), 0, 0, True), outs=X),
        L("embedding", "F", A.embedding.default,
          (torch.arange(8.0).reshape(4, 2), torch.tensor([[3, 1]])), outs=X),
        L("embedding_pad", "F", A.embedding.default,
          (torch.arange(8.0).reshape(4, 2), torch.tensor([[3, 1]]), 1), outs=X),
        L("bucketize", "F", A.bucketize.Tensor, (a, torch.tensor([0.0, 1.0])),
          {"out_int32": False, "right": True}, outs=X),
        L("isclose", "FF", A.isclose.default, (a, b, 0.5, 0.1, True), outs=B),
        L("nan_to_num", "F", A.nan_to_num.default, (a, 0.0, None, -1.0)),
        L("bernoulli0", "F", A.bernoulli.p, (a, 0.0)),
        L("cdist", "FF", A._cdist_forward.default, (a, b, 2.0, None), outs=X),
        # multiple results, with an op outside the dialect (generic torch.operator)
        L("logit", "F", A.logit.default, (a, 0.25)),
        L("hypot", "FF", A.hypot.default, (a, b)),
        L("unflatten", "F", A.unflatten.int, (a, 1, [3, 1]), outs=X),
        L("movedim", "F", A.movedim.intlist, (a, [0], [1]), outs=X),
        L("heaviside", "FF", A.heaviside.default, (a, b)),
        L("addr", "F", A.addr.default, (a, torch.tensor([1.0, 2.0]), torch.tensor([1.0, 2.0, 3.0])),
          {"alpha": 2}),
        L("nextafter", "FF", A.nextafter.default, (a, b)),
        L("copysign", "FF", A.copysign.Tensor, (a, b)),
        L("xlogy_ss", "F", A.xlogy.Scalar_Self, (2.5, a)),
        L("rot90", "F", A.rot90.default, (a, 1, [0, 1]), outs=X),
        L("diff", "F", A.diff.default, (a, 1, 1, None, None), outs=X),
        L("trapz", "F", A.trapezoid.dx, (a,), {"dx": 2, "dim": 1}, outs=X),
    ]
    names = [l.name for l in Ls]
    assert len(set(names)) == len(names)
    return [l for l in Ls]


class Prog:
    """Builds an fx.GraphModule from a list of (letter, operand picks)."""

    def __init__(self, meta="val"):
        self.meta = meta
        self.fm = FakeTensorMode(allow_non_fake_inputs=False)
        self.g = torch.fx.Graph()
        self.root = torch.nn.Module()
        self.pool = {"F": [], "I": [], "B": [], "X": []}
        self.args = []
        self.n = 0
        for t, vals in _inputs().items():
            for k, v in enumerate(vals):
                self.inp(f"{t.lower()}{k}", v, t)

    def inp(self, name, v, t):
        n = self.g.placeholder(name)
        self._meta(n, self.fm.from_tensor(v))
        self.args.append(v)
        self.pool[t].append(n)
        return n

    def _meta(self, n, val):
        n.meta["val"] = val
        if self.meta == "tensor_meta" and isinstance(val, torch.Tensor):
            from torch.fx.passes.shape_prop import _extract_tensor_metadata

            n.meta["tensor_meta"] = _extract_tensor_metadata(val)

    def const(self, t):
        nm = f"_c{self.n}"
        self.n += 1
        setattr(self.root, nm, t)
        n = self.g.get_attr(nm)
        self._meta(n, self.fm.from_tensor(t))
        return n

    def call(self, target, args, kwargs=None):
        kwargs = kwargs or {}
        lift = lambda x: self.const(x) if isinstance(x, torch.Tensor) else x
        args = torch.utils._pytree.tree_map(lift, args)
        kwargs = torch.utils._pytree.tree_map(lift, kwargs)
        n = self.g.call_function(target, args, kwargs)
        v = lambda x: x.meta["val"] if isinstance(x, torch.fx.Node) else x
        with self.fm:
            val = eager(target, torch.fx.node.map_aggregate(args, v),
                        torch.fx.node.map_aggregate(kwargs, v))
        self._meta(n, val)
        return n

    def get(self, n, i):
        r = self.g.call_function(operator.getitem, (n, i))
        self._meta(r, n.meta["val"][i])
        return r

    def step(self, letter, picks):
        ops = [self.pool[t][k] for t, k in zip(letter.ins, picks)]
        n = self.call(letter.target, _sub(letter.args, ops), _sub_kw(letter.kwargs, ops))
        new = []
        for idx, t in letter.outs:
            o = n if idx is None else self.get(n, idx)
            self.pool[t].append(o)
            new.append(o)
        return new

    def finish(self, outs):
        self.g.output(outs)
        gm = torch.fx.GraphModule(self.root, self.g)
        return gm


def _sub_kw(kw, ops):
    return {k: _sub(v, ops) for k, v in kw.items()}


def eager(target, args, kwargs):
    """Tensor overloads called with python scalars mean the Scalar overload."""
    try:
        return target(*args, **kwargs)
    except RuntimeError as e:
        if "Expected a value of type 'Tensor'" in str(e):
            return target.overloadpacket(*args, **kwargs)
        raise


class Ref(torch.fx.Interpreter):
    def call_function(self, target, args, kwargs):
        return eager(target, args, kwargs)


def run_ref(gm, args):
    """Executes the FX graph itself (torch.fx.Interpreter semantics)."""
    with torch.no_grad():
        r = Ref(gm).run(*[a.clone() if isinstance(a, torch.Tensor) else a for a in args])
    return list(r) if isinstance(r, (list, tuple)) else [r]

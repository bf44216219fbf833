"""F07: control flow, custom mutating operators and nested graphs.

(loop)  every while_loop program over an alphabet of carried values, conditions,
        bodies, captured values and result uses is exported, imported (both
        program entry points) and executed for several trip counts;
(hist)  every sequence of imports of loop programs into one module (entry point,
        function name, release of the source program, second importer) under an
        adversarial allocator: every function must keep computing its program;
(auto)  every call form of mutating custom operators in functionalized graphs;
(flex)  every combination of score/mask functions and options of attention.
"""
import copy
import gc
import itertools
import operator

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from checks.F03 import AdversarialIds
from mc import fakemlir as F
from mc.core import Violation
from mc.interp import Interp, InterpError, same, short
from torch._higher_order_ops.while_loop import while_loop
from torch.utils._pytree import tree_leaves

ID = "F07"
LEVEL = "model_checking"
RULE = ("state = a loop program / an import history prefix / a call form; transition = one loop "
        "construct or one import; every state is imported by the real importer and executed")

# -- loops ---------------------------------------------------------------------
CARRY = {
    "iT": ("i", "x"), "Ti": ("x", "i"), "T": ("x",), "iTT": ("i", "x", "y"), "TiT": ("y", "i", "x"),
}
COND = {
    "lt": lambda c, s, e: c["i"] < 3,
    "never": lambda c, s, e: c["i"] < -5,
    "sum": lambda c, s, e: c["x"].sum() < 40,
    "cap": lambda c, s, e: c["x"].sum() < s.p.sum() * 8 + e["z"].sum(),
    "both": lambda c, s, e: torch.logical_and(c["i"] < 4, c["x"].amax() < 30),
}
BODY = {
    "inc": lambda c, s, e: {"x": c["x"] + 2.5},
    "sq": lambda c, s, e: {"x": c["x"] * c["x"] + 1},
    "cap": lambda c, s, e: {"x": c["x"] * 2 + s.p + e["z"].abs()},
    "buf": lambda c, s, e: {"x": c["x"] + s.b + s.p + s.k},
    "swap": lambda c, s, e: {"x": c.get("y", c["x"]) + 3, "y": c["x"] - 1},
    "useI": lambda c, s, e: {"x": c["x"] + c["i"] * 2 + 1},
    "nested": None,
}
RES = {
    "all": lambda r: tuple(r),
    "rev": lambda r: tuple(reversed(r)),
    "last": lambda r: (r[-1] * 1,),
    "use": lambda r: (r[0] + 1, r[-1], r[0]),
}


def nested_body(c, s, e):
    j, y = while_loop(lambda j, y: j < 2, lambda j, y: (j + 1, y * 1.5 + 1),
                      (c["i"] * 0, c["x"]))
    return {"x": y + 1}


class Loop(torch.nn.Module):
    def __init__(self, carry, cond, body, res, py_int=False):
        super().__init__()
        self.p = torch.nn.Parameter(torch.tensor([0.5, 2.0]), requires_grad=False)
        self.register_buffer("b", torch.tensor([3.0, 1.0]))
        self.k = torch.tensor([7.0, 1.0])
        self.cfg = (carry, cond, body, res)

    def one(self, x, y, cond, body):
        names = CARRY[self.cfg[0]]
        e = {"z": y - 1}
        bf = nested_body if body == "nested" else BODY[body]

        def cf(*vs):
            return COND[cond](dict(zip(names, vs)), self, e)

        def bd(*vs):
            c = dict(zip(names, vs))
            n = bf(c, self, e)
            return tuple(c["i"] + 1 if k == "i" else (n.get(k, c[k] * 1)) for k in names)

        init = {"i": torch.tensor(0), "x": x, "y": y}
        return while_loop(cf, bd, tuple(init[k] for k in names))

    def forward(self, x, y):
        _, cond, body, res = self.cfg
        if "+" in body:
            a, b = body.split("+")
            r = self.one(x, y, cond, a)
            xs = r[CARRY[self.cfg[0]].index("x")]
            r2 = self.one(xs, y, cond, b)
            return RES[res](r2) + (xs * 2,)
        return RES[res](self.one(x, y, cond, body))


class LoopInt(torch.nn.Module):
    """carries a Python integer"""

    def __init__(self, cfg):
        super().__init__()
        self.n, self.m = cfg
        self.p = torch.nn.Parameter(torch.tensor([0.5, 2.0]), requires_grad=False)

    def forward(self, x, y):
        r = while_loop(lambda i, x: i < self.n, lambda i, x: (i + self.m, x * 2 + self.p),
                       (0, x))
        return (r[1],)


INPUTS = [
    (torch.tensor([1.0, -1.0]), torch.tensor([2.0, 0.5])),
    (torch.tensor([100.0, 3.0]), torch.tensor([1.0, 1.0])),   # data-dependent loops run 0 times
    (torch.tensor([-3.5, 0.25]), torch.tensor([-8.0, 4.0])),
]


def case_loop(c):
    from torch_mlir import fx

    kind, cfg, entry = c
    m = LoopInt(cfg) if kind == "loopint" else Loop(*cfg)
    with torch.no_grad():
        try:
            ep = torch.export.export(m, INPUTS[0])
        except Exception as e:
            return "source:" + type(e).__name__
        want = [tree_leaves(m(*i)) for i in INPUTS]
    try:
        mod = fx.export_and_import(ep, experimental_support_mutation=entry == "program",
                                   decomposition_table={} if "nested" in str(cfg) else None)
    except RuntimeError as e:
        if "FunctionalTensor" in str(e):
            return "source:decomposition"  # PyTorch's run_decompositions fails
        raise
    mod.operation.verify()
    it = Interp(mod)
    for i, w in zip(INPUTS, want):
        got = it.call("main", [t.clone() for t in i])
        if not same(got, w):
            raise Violation(f"loop:{cfg}/{entry}",
                            f"inputs {[short(t) for t in i]}: got {[short(g) for g in got]}, "
                            f"program computes {[short(g) for g in w]}")
    return "ok"


# -- histories -------------------------------------------------------------------
class HP(torch.nn.Module):
    def __init__(self, k):
        super().__init__()
        self.k = k

    def forward(self, x):
        if self.k == 0:
            return while_loop(lambda x: x.sum() < 30, lambda x: (x * 2,), (x,))[0]
        if self.k == 1:
            return while_loop(lambda x: x.sum() < 50, lambda x: (x + 7,), (x,))[0]
        y = while_loop(lambda x: x.sum() < 9, lambda x: (x + 3,), (x,))[0]
        return while_loop(lambda x: x.sum() < 90, lambda x: (x * 3,), (y,))[0] + 1


HX = torch.tensor([1.0, 2.0])
_EPS = {}


def eps(k):
    if k not in _EPS:
        with torch.no_grad():
            _EPS[k] = (torch.export.export(HP(k), (HX,)).run_decompositions(), HP(k)(HX))
    ep, w = _EPS[k]
    return copy.deepcopy(ep), w


H_ENTRY = ["program", "frozen", "module"]
H_NAME = ["f", "while_loop_body_graph_0"]


def h_alphabet(progs):
    return [(p, e, n) for p in progs for e in H_ENTRY for n in H_NAME] + ["newimp", "drop"]


def case_hist(c):
    _, steps = c
    from torch_mlir import ir
    from torch_mlir.dialects import torch as torch_d
    from torch_mlir.extras import fx_importer as fi

    fi.id = AdversarialIds()
    try:
        ctx = ir.Context()
        torch_d.register_dialect(ctx)
        imp = fi.FxImporter(context=ctx)
        keep, want = [], []
        dropping = "drop" in steps
        for n, st in enumerate(steps):
            if st == "newimp":
                imp = fi.FxImporter(module=imp.module)
                continue
            if st == "drop":
                keep.clear()
                gc.collect()
                continue
            p, entry, name = st
            if name == "f":
                name = f"f{n}"
            ep, w = eps(p)
            before = {F._sym(o) for o in imp.module.body._ops}
            if entry == "program":
                op = imp.import_program(ep, func_name=name)
            elif entry == "frozen":
                op = imp.import_frozen_program(ep, func_name=name)
            else:
                op = imp.import_graph_module(ep.graph_module, func_name=name)
            if not dropping:
                keep.append(ep)
            del ep
            got_name = F._sym(op.operation)
            if name not in before and got_name != name:
                raise Violation(f"hist:{steps}", f"function asked to be {name} is {got_name}")
            want.append((op, w))
        mod = imp.module
        mod.operation.verify()
        it = Interp(mod)
        seen = set()
        for op, w in want:
            nm = F._sym(op.operation)
            if nm in seen:
                raise Violation(f"hist:{steps}", f"two imports share the name {nm}")
            seen.add(nm)
            got = it.call(nm, [HX.clone()])
            if not same(got, [w]):
                raise Violation(f"hist:{steps}",
                                f"{nm}: {[short(g) for g in got]}, its program computes {short(w)}")
        return len(want)
    finally:
        del fi.id


# -- custom operators --------------------------------------------------------------
LIB = torch.library.Library("mcf07", "DEF")
SCHEMAS = {
    "r0": "(Tensor(a!) x) -> ()",
    "r1": "(Tensor(a!) x) -> Tensor",
    "r2": "(Tensor x, Tensor(a!) y, int k, Tensor(b!) z, float s=2.0) -> (Tensor, Tensor)",
    "late": "(Tensor x, int[] k, Tensor(a!) y, *, bool f=True, str? n=None) -> ()",
    "two": "(Tensor(a!) x, Tensor(b!) y) -> Tensor",
}


def impl_r0(x):
    return ((), (x + 1,))


def impl_r1(x):
    return ((x * 2 + 0.5,), (x * 2,))


def impl_r2(x, y, k, z, s):
    return ((x + z, y - 1), (y + x * k, z * s))


def impl_late(x, k, y, f, n):
    return ((), (y + x * sum(k) + (1 if f else 2) + (10 if n == "a" else 0),))


def impl_two(x, y):
    return ((x - y,), (x * 3, y * 5))


IMPL = {"r0": impl_r0, "r1": impl_r1, "r2": impl_r2, "late": impl_late, "two": impl_two}
for _n, _s in SCHEMAS.items():
    LIB.define(_n + _s)

CALLS = [("r0", dict(x=t)) for t in "xy"] + [("r1", dict(x=t)) for t in "xyz"]
CALLS += [("r2", dict(x=a, y=b, k=k, z=c, s=s)) for a, b, c in itertools.permutations("xyz")
          for k, s in ((3, 2.0), (-1, 0.5))]
CALLS += [("late", dict(x=a, k=k, y=b, f=f, n=n)) for a, b in itertools.permutations("xyz", 2)
          for k in ([2], [1, 4]) for f in (True, False) for n in (None, "a")]
CALLS += [("two", dict(x=a, y=b)) for a, b in itertools.permutations("xyz", 2)]
TVAL = {"x": torch.tensor([1.0, -2.0]), "y": torch.tensor([3.0, 0.25]), "z": torch.tensor([-7.0, 5.0])}


def auto_hook(it, op, a):
    name = op.attributes["name"].value
    short_name = name.split(".")[-1]
    if not name.startswith("torch.mcf07."):
        return it.torch_op(name, a)
    sch = getattr(torch.ops.mcf07, short_name).default._schema
    if len(a) != len(sch.arguments):
        raise InterpError(f"{name}: {len(a)} operands")
    ret, mut = IMPL[short_name](*a)
    r = list(ret) + list(mut)
    if len(op._results) != len(r):
        raise InterpError(f"{name}: {len(op._results)} results instead of {len(r)}")
    return r


def case_auto(c):
    _, calls, sel = c
    from torch._subclasses.fake_tensor import FakeTensorMode
    from torch_mlir import ir
    from torch_mlir.dialects import torch as torch_d
    from torch_mlir.extras.fx_importer import FxImporter

    fm = FakeTensorMode()
    g = torch.fx.Graph()
    env_, vals = {}, {}
    for n, v in TVAL.items():
        env_[n] = g.placeholder(n)
        env_[n].meta["val"] = fm.from_tensor(v)
        vals[n] = v
    outs, wants = [], []
    for opn, args in calls:
        args = dict(args)
        ov = getattr(torch.ops.mcf07, opn).default
        kw = {k: env_[v] if v in ("x", "y", "z") and k not in ("n",) else v for k, v in args.items()}
        node = g.call_function(torch.ops.higher_order.auto_functionalized, (ov,), kw)
        cv = {k: vals[v] if v in ("x", "y", "z") and k not in ("n",) else v for k, v in args.items()}
        ret, mut = IMPL[opn](*[cv[a.name] for a in ov._schema.arguments])
        fake = [fm.from_tensor(t) for t in (*ret, *mut)]
        node.meta["val"] = tuple(([None] if not ret else []) + fake)
        base = 0 if ret else 1
        gets = []
        for i, (f, t) in enumerate(zip(fake, (*ret, *mut))):
            gi = g.call_function(operator.getitem, (node, base + i))
            gi.meta["val"] = f
            gets.append((gi, t))
        outs += gets[:len(ret)]
        # later calls see the mutated versions
        mutated = [a.name for a in ov._schema.arguments
                   if a.alias_info is not None and a.alias_info.is_write]
        for nm, (gi, t) in zip(mutated, gets[len(ret):]):
            env_[args[nm]], vals[args[nm]] = gi, t
    fin = outs + [(env_[n], vals[n]) for n in "xyz"]
    if sel == "rev":
        fin = fin[::-1]
    g.output([f[0] for f in fin])
    gm = torch.fx.GraphModule({}, g)
    ctx = ir.Context()
    torch_d.register_dialect(ctx)
    imp = FxImporter(context=ctx)
    imp.import_graph_module(gm)
    imp.module.operation.verify()
    got = Interp(imp.module, hooks={"torch.operator": auto_hook}).call(
        "main", [v.clone() for v in TVAL.values()])
    if not same(got, [f[1] for f in fin]):
        raise Violation(f"auto:{calls}/{sel}",
                        f"{[short(x) for x in got]} instead of {[short(f[1]) for f in fin]}")
    return "ok"


# -- attention ------------------------------------------------------------------------
SCORE = {
    "none": None,
    "tanh": lambda s, b, h, i, j: torch.tanh(s),
    "pos": lambda s, b, h, i, j: s + (i - j) * 0.5 + h,
    "batch": lambda s, b, h, i, j: s * (b + 1),
}
MASK = {
    "none": None,
    "causal": lambda b, h, i, j: i >= j,
    "head": lambda b, h, i, j: (j + h) < 3,
}
SCALE = [None, 1.0, 0.25, 2]
HEADS = [(1, 2, 2), (2, 2, 1)]


class Flex(torch.nn.Module):
    def __init__(self, score, mask, scale, lse, heads, twice=False):
        super().__init__()
        self.c = (score, mask, scale, lse, heads)
        self.twice = twice

    def forward(self, q, k, v):
        from torch.nn.attention.flex_attention import AuxRequest, create_block_mask, flex_attention

        score, mask, scale, lse, heads = self.c
        bm = None
        if MASK[mask] is not None:
            bm = create_block_mask(MASK[mask], B=None, H=None if mask == "causal" else heads[1],
                                   Q_LEN=q.shape[2], KV_LEN=k.shape[2], device="cpu")
        r = flex_attention(q, k, v, score_mod=SCORE[score], block_mask=bm, scale=scale,
                           enable_gqa=heads[1] != heads[2],
                           return_aux=AuxRequest(lse=True) if lse else None)
        r = (r[0], r[1].lse) if lse else (r,)
        if self.twice:
            r2 = flex_attention(q, k, r[0] if heads[1] == heads[2] else v,
                                score_mod=lambda s, b, h, i, j: s * 2 - j)
            r = r + (r2,)
        return r


def ref_flex(q, k, v, score, mask, scale):
    B, H, L, E = q.shape
    G = H // k.shape[1]
    sc = (1.0 / E ** 0.5) if scale is None else scale
    out = torch.zeros(B, H, L, v.shape[3])
    lse = torch.zeros(B, H, L)
    mx = torch.zeros(B, H, L)
    t = lambda n: torch.tensor(n, dtype=torch.int32)
    for b in range(B):
        for h in range(H):
            for i in range(L):
                row = []
                for j in range(k.shape[2]):
                    s = (q[b, h, i] * k[b, h // G, j]).sum() * sc
                    if score is not None:
                        s = score(s, t(b), t(h), t(i), t(j))
                    if mask is not None and not bool(mask(t(b), t(h), t(i), t(j))):
                        s = torch.tensor(float("-inf"))
                    row.append(s)
                row = torch.stack(row)
                lse[b, h, i] = torch.logsumexp(row, 0)
                mx[b, h, i] = row.max()
                if row.max() != float("-inf"):
                    out[b, h, i] = torch.softmax(row, 0) @ v[b, h // G]
    return out, lse, mx


def flex_hook(it, op, a):
    q, k, v, scale, want_lse, want_max = a
    fn = lambda nm: None if nm not in op.attributes else (
        lambda *x: it.call(op.attributes[nm].value, list(x))[0])
    it.events.append((scale, want_lse, want_max))
    o, l, m = ref_flex(q, k, v, fn("score_mod_fn"), fn("mask_mod_fn"), scale)
    ln2 = 0.6931471805599453  # the higher-order operator's log-sum-exp is in base 2
    r = [o, l / ln2, m / ln2]
    if not want_lse:
        r[1] = torch.full_like(l, float("nan"))
    if not want_max:
        r[2] = torch.full_like(m, float("nan"))
    return r[:len(op._results)]


def case_flex(c):
    from torch_mlir import fx

    _, cfg, entry, twice = c
    score, mask, scale, lse, (B, H, Hk) = cfg
    g = torch.Generator().manual_seed(3)
    q, k, v = (torch.randn(B, H, 3, 2, generator=g), torch.randn(B, Hk, 4, 2, generator=g),
               torch.randn(B, Hk, 4, 2, generator=g))
    if twice:
        k, v = k[:, :, :3], v[:, :, :3]
    m = Flex(*cfg, twice=twice)
    o, l, _ = ref_flex(q, k, v, SCORE[score], MASK[mask], scale)
    want = [o, l] if lse else [o]
    if twice:
        want.append(ref_flex(q, k, o if H == Hk else v, lambda s, b, h, i, j: s * 2 - j, None, None)[0])
    try:
        ep = torch.export.export(m, (q, k, v))
    except Exception as e:
        return "source:" + type(e).__name__
    mod = fx.export_and_import(ep, experimental_support_mutation=entry == "program")
    mod.operation.verify()
    it = Interp(mod, hooks={"torch.hop_flex_attention": flex_hook})
    got = it.call("main", [q, k, v])
    if not same(got, want, rtol=1e-4, atol=1e-5):
        raise Violation(f"flex:{cfg}/{entry}/{twice}",
                        f"{[short(x) for x in got]} instead of {[short(x) for x in want]}")
    return "ok"


def case_flex_capture(c):
    """captured tensors have no operand in the imported op: must be rejected"""
    from torch_mlir import fx

    _, where = c
    from torch.nn.attention.flex_attention import create_block_mask, flex_attention

    class M(torch.nn.Module):
        def __init__(s):
            super().__init__()
            s.register_buffer("w", torch.tensor([1.0, 2.0]))

        def forward(s, q, k, v):
            if where == "score":
                return flex_attention(q, k, v, score_mod=lambda sc, b, h, i, j: sc * s.w[h])
            bm = create_block_mask(lambda b, h, i, j: i * s.w[1] >= j, None, None, 3, 4, device="cpu")
            return flex_attention(q, k, v, block_mask=bm)

    q, k, v = torch.randn(1, 2, 3, 2), torch.randn(1, 2, 4, 2), torch.randn(1, 2, 4, 2)
    try:
        ep = torch.export.export(M(), (q, k, v))
    except Exception as e:
        return "source:" + type(e).__name__
    try:
        mod = fx.export_and_import(ep, decomposition_table={})
    except NotImplementedError:
        return "rejected"
    except RuntimeError as e:
        if "FunctionalTensor" in str(e):
            return "source:decomposition"
        raise
    n = [o for o in mod.body._ops if len(o._regions[0]._blocks[0].arguments) == 6]
    if n:
        raise Violation(f"flexcap:{where}", "captured tensor silently lost")
    return "ok"


FN = {"loop": case_loop, "loopint": case_loop, "hist": case_hist, "auto": case_auto,
      "flex": case_flex, "flexcap": case_flex_capture}


def case(c):
    return FN[c[0]](c)


def run(ck):
    loops = []
    bodies = list(BODY) + ["inc+cap", "buf+sq", "swap+inc"]
    if ck.thorough:
        bodies = list(BODY) + [f"{a}+{b}" for a in BODY for b in BODY if "nested" not in (a, b)]
    for ca, co, bo, re in itertools.product(CARRY, COND, bodies, RES):
        has_i = "i" in CARRY[ca]
        if not has_i and (co in ("lt", "never", "both") or "useI" in bo or "nested" in bo):
            continue
        if co in ("sum", "cap") and ("swap" in bo):
            continue  # need not terminate
        if not ck.thorough:
            # every pair of alphabet letters, results rotated over the cells
            k = (list(CARRY).index(ca) + list(COND).index(co) + bodies.index(bo)) % len(RES)
            if list(RES).index(re) != k or (bo in ("sq", "useI", "buf+sq") and ca not in ("iT", "T")):
                continue
        for en in ("program", "frozen"):
            if not ck.thorough and (en == "frozen") != ((list(COND).index(co) + bodies.index(bo)) % 2 == 0):
                continue
            loops.append(("loop", (ca, co, bo, re), en))
    loops += [("loopint", (n, m), en) for n in (0, 3, 4) for m in (1, 2) for en in ("program", "frozen")]
    hist = []
    al = h_alphabet([0, 1])
    al2 = h_alphabet([0, 1, 2]) if ck.thorough else al
    for d in (1, 2):
        for s in itertools.product(al2 if d == 1 or ck.thorough else h_alphabet([0]) + [(1, "program", "f")],
                                   repeat=d):
            hist.append(("hist", s))
    if ck.thorough:
        hist += [("hist", s) for s in itertools.product(al, repeat=3)]
    else:
        al3 = [(0, "program", "f"), (1, "program", "f"), (1, "frozen", "while_loop_body_graph_0"),
               (0, "module", "f"), (2, "module", "f"), "newimp", "drop"]
        hist += [("hist", s) for s in itertools.product(al3, repeat=3)]
    hist = [h for h in hist if any(isinstance(x, tuple) for x in h[1])]
    auto = [("auto", (cl,), sel) for cl in CALLS for sel in ("fwd", "rev")]
    pair = [("r0", dict(x="x")), ("r1", dict(x="x")), ("r2", dict(x="y", y="x", k=2, z="z", s=3.0)),
            ("late", dict(x="x", k=[2], y="z", f=False, n=None)), ("two", dict(x="z", y="x"))]
    auto += [("auto", s, "fwd") for s in itertools.product(pair, repeat=2)]
    auto += [("auto", s, "fwd") for s in itertools.product(pair, repeat=3)] if ck.thorough else []
    flex = []
    for n, (sc, ma, sl, ls, he) in enumerate(itertools.product(SCORE, MASK, SCALE, (False, True), HEADS)):
        if not ck.thorough and n % 4 != (n // 16) % 4:
            continue
        flex.append(("flex", (sc, ma, sl, ls, he), ("program", "frozen")[n % 2], False))
    flex += [("flex", (sc, ma, None, False, HEADS[0]), "program", True) for sc in SCORE for ma in MASK]
    flex += [("flexcap", w) for w in ("score", "mask")]
    cases = loops + hist + auto + flex
    for c in cases:
        ck.state(c)
        if c[0] == "hist":
            for k in range(1, len(c[1])):
                ck.state(("hist", c[1][:k]))
    ck.transitions += len(cases)
    infos = ck.run_cases(cases, case, chunk=3, nontrivial=lambda c, i: not str(i).startswith("source:"))
    cnt = {}
    for c, i in zip(cases, infos):
        k = f"{c[0]}:{i}" if isinstance(i, str) else c[0]
        cnt[k] = cnt.get(k, 0) + 1
    ck.extra["cases_by_outcome"] = cnt
    ck.sample({"loop": loops[0], "history": hist[-1][1], "attention": flex[0]})
    ck.assumptions.append(
        "while_loop and flex_attention are given the meaning of their documentation; the imported "
        "attention op is executed by a scalar reference implementation")


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def replay(ck, c):
    try:
        if c[0] == "auto":
            c = (c[0], [(a, b) for a, b in c[1]], c[2])
            print(case_auto(c))
        else:
            print(case(tup(c)))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

"""F01: an imported FX program computes what the source program computes.

Explicit enumeration of all FX programs over an alphabet of ~170 operator
applications (every argument form of the schemas), up to a depth and over all
operand wirings; of all output forms; and of the public entry points over a
module/argument-structure space.  Oracle: the FX graph / module run by PyTorch.
"""
import itertools

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from mc.core import Violation
from mc import fxlib
from mc.interp import Interp, same, short

ID = "F01"
LEVEL = "model_checking"
RULE = ("state = a program prefix (letters + wiring); transition = appending one operator "
        "application; every maximal trace is built as a real torch.fx program, imported by the "
        "real importer, and the imported IR executed")

LET = fxlib.letters()
IDX = {l.name: i for i, l in enumerate(LET)}
CORE = [i for i, l in enumerate(LET) if l.core]
POOL0 = {"F": 2, "I": 1, "B": 1}


def wirings(letter, sizes, fresh=None, full=True):
    """all operand picks; if fresh: at least one pick is a fresh value"""
    doms = []
    for t in letter.ins:
        doms.append(range(sizes.get(t, 0)))
    out = list(itertools.product(*doms))
    if fresh is not None:
        out = [w for w in out if any(k in fresh[t] for t, k in zip(letter.ins, w))]
        if not full:
            # one representative per operand position receiving the newest value
            rep = []
            for pos, t in enumerate(letter.ins):
                for w in reversed(out):
                    if w[pos] in fresh[t]:
                        rep.append(w)
                        break
            out = sorted(set(rep))
    return out


def grow(sizes, letter):
    s = dict(sizes)
    fresh = {"F": [], "I": [], "B": [], "X": []}
    for _, t in letter.outs:
        if t != "X":
            fresh[t].append(s[t])
            s[t] += 1
    return s, fresh


def programs(seqs_depth, first, rest, full):
    """all programs of exactly the given depth; letter i+1 consumes a value of letter i
    unless it (or its predecessor) offers none"""
    def rec(d, sizes, fresh, acc):
        if d == seqs_depth:
            yield tuple(acc)
            return
        for li in (first if d == 0 else rest):
            l = LET[li]
            ws = wirings(l, sizes, fresh if d else None, full)
            for w in ws:
                s, f = grow(sizes, l)
                yield from rec(d + 1, s, f, acc + [(li, w)])
    yield from rec(0, POOL0, None, [])


def name(prog):
    return "; ".join(f"{LET[l].name}{list(w)}" for l, w in prog)


def check_gm(gm, args, key, func="main", **kw):
    from torch_mlir import fx

    exp = fxlib.run_ref(gm, args)
    m = fx.stateless_fx_import(gm, **kw)
    try:
        m.operation.verify()
    except Exception as e:
        raise Violation(f"invalid:{key}", f"imported program does not verify: {e}\n{m}")
    got = Interp(m).call(func, args)
    if not same(got, exp):
        raise Violation(
            f"value:{key}",
            f"imported program returns {[short(x) for x in got]}, source returns "
            f"{[short(x) for x in exp]}\n{m}")
    return m


def case_prog(c):
    kind, prog, meta = c
    p = fxlib.Prog(meta)
    outs = []
    for li, w in prog:
        outs += p.step(LET[li], w)
    gm = p.finish(tuple(outs))
    check_gm(gm, p.args, name(prog))
    return len(prog)


# -- output forms ------------------------------------------------------------
def out_forms(nodes, ph):
    n = nodes
    forms = {
        "single": n[0], "tuple1": (n[0],), "list": [n[-1]], "dup": (n[0], n[0]),
        "swap": (n[-1], n[0]), "ph": (ph[1], n[0], ph[0]), "none": (None, n[0]),
        "none_last": (n[0], None), "scalars": (n[0], 3, True, -2.5, False, 0),
        "only_ph": (ph[2],), "empty": (), "unused": (ph[0], ph[3]),
    }
    return forms


def case_out(c):
    _, prog, form, fname = c
    p = fxlib.Prog("val")
    nodes = []
    for li, w in prog:
        nodes += p.step(LET[li], w)
    ph = [n for n in p.g.nodes if n.op == "placeholder"]
    gm = p.finish(out_forms(nodes, ph)[form])
    check_gm(gm, p.args, f"{name(prog)} out={form}", func=fname, model_name=fname)
    return len(prog)


# -- public entry points over module structure -------------------------------
class Base(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([[1.0, -2.0, 0.5], [0.25, 3.0, -1.0]]))
        self.register_buffer("b", torch.tensor([10.0, 20.0, 30.0]))
        self.register_buffer("np_", torch.tensor([[7, 8, 9]]), persistent=False)
        self.register_buffer("bm", torch.tensor([[True, False, True], [False, True, True]]))
        self.k = torch.tensor([0.5, 1.5, 2.5])


class M1(Base):
    """parameter, buffer, lifted constant, all used"""
    def forward(self, x):
        return x * self.w + self.b - self.k


class M2(Base):
    """mask buffer used, several uses in permuted order"""
    def forward(self, x, y):
        z = torch.where(self.bm, x, y)
        return y - z, self.w, z * self.w


class M3(Base):
    """nested python containers in and out, unused input"""
    def forward(self, d, t):
        a, (b, c) = d["q"], t
        return {"o": a - b, "p": [c, a * self.b]}, (b, 3, None)


class M4(Base):
    """None / scalar / string inputs, keyword argument"""
    def forward(self, x, flag=None, s=2, *, mode="floor", other=None):
        if other is not None:
            x = x - other
        if flag is not None:
            x = x * 100
        return torch.div(x, s, rounding_mode=mode)


class M5(Base):
    """list-result and multi-result ops"""
    def forward(self, x):
        a, b, c = x.unbind(1)
        v, i = x.max(1)
        s = torch.split(x, 2, 1)
        return c, a - b, i, v, s[1], s[0] @ torch.ones(2, 2)


class M6(Base):
    """shared submodule and returned parameter/buffer"""
    def __init__(self):
        super().__init__()
        self.l = torch.nn.Linear(3, 2)
        with torch.no_grad():
            self.l.weight.copy_(torch.tensor([[1.0, 2, 3], [4, 5, 6]]))
            self.l.bias.copy_(torch.tensor([0.5, -0.5]))
        self.seq = torch.nn.Sequential(self.l, torch.nn.ReLU())

    def forward(self, x):
        return self.l(x), self.seq(x - 2), self.b, self.b


class M7(Base):
    """list valued in-place looking code that functionalizes"""
    def forward(self, x):
        y = x.clone()
        y[0] = 5.0
        y[:, 1] += self.b[1]
        y.mul_(2)
        return y, x


class M8(Base):
    """decomposed ops"""
    def forward(self, x):
        return (torch.nn.functional.layer_norm(x, (3,), self.b, self.k),
                torch.nn.functional.silu(x), torch.addcdiv(x, x, x + 10, value=2.0),
                torch.nn.functional.gelu(x), torch.var_mean(x, 1))


class M9(Base):
    """dtype mix"""
    def forward(self, x, i, h):
        return i // 2, i / 2, x.to(torch.float64) + h, h.bool(), (i > 2).to(torch.int32), i % 3


X = torch.tensor([[1.5, -2.25, 0.5], [3.0, -0.75, 4.5]])
Y = torch.tensor([[0.5, 2.0, -1.25], [0.25, 3.5, -4.0]])
I = torch.tensor([[3, -5, 2], [7, 1, -4]])
MODS = {
    "M1": (M1, [((X,), {})]),
    "M2": (M2, [((X, Y), {}), ((Y, X), {})]),
    "M3": (M3, [(({"q": X, "r": Y}, (Y, X)), {})]),
    "M4": (M4, [((X,), {}), ((X, None, 3), {}), ((X, 1, 2), {"mode": "trunc"}),
                ((X,), {"other": Y}), ((X, None), {"mode": None}), ((X,), {"s": 2.5})]),
    "M5": (M5, [((X,), {})]),
    "M6": (M6, [((X,), {})]),
    "M7": (M7, [((X,), {})]),
    "M8": (M8, [((X,), {})]),
    "M9": (M9, [((X, I, Y.half()), {})]),
}


def user_tensors(a):
    return [x for x in torch.utils._pytree.tree_leaves(a) if isinstance(x, torch.Tensor)]


def flat_expected(r):
    return torch.utils._pytree.tree_leaves(r, is_leaf=lambda x: x is None)


def case_entry(c):
    _, mname, ai, mutation, decomp, how, func = c
    from torch_mlir import fx

    cls, argsets = MODS[mname]
    mod = cls().eval()
    args, kwargs = argsets[ai]
    with torch.no_grad():
        exp = flat_expected(mod(*args, **kwargs))
    kw = {}
    if decomp == "none":
        kw["decomposition_table"] = {}
    elif decomp == "core":
        kw["decomposition_table"] = torch.export.default_decompositions()
    kw["experimental_support_mutation"] = mutation
    if func != "main":
        kw["func_name"] = func
    if how == "program":
        f = torch.export.export(mod, args, kwargs)
        m = fx.export_and_import(f, **kw)
    elif how == "strict":
        m = fx.export_and_import(mod, *args, strict=True, **kw, **kwargs)
    else:
        m = fx.export_and_import(mod, *args, **kw, **kwargs)
    key = f"{mname}/{ai}/mut={mutation}/{decomp}/{how}/{func}"
    m.operation.verify()
    ins = user_tensors(args) + user_tensors(kwargs)
    before = [t.clone() for t in ins]
    it = Interp(m)
    params = it.funcs[func]._regions[0]._blocks[0].arguments
    # non-tensor user inputs may or may not be kept as (unused) parameters
    leaves = torch.utils._pytree.tree_leaves((args, kwargs), is_leaf=lambda x: x is None)
    vals = ins if len(params) == len(ins) else leaves
    got = it.call(func, vals)
    if not same(got, exp, 1e-5, 1e-6):
        raise Violation(f"entry:{key}", f"got {[short(x) for x in got]} expected "
                        f"{[short(x) for x in exp]}\n{m}")
    if not same(ins, before):
        raise Violation(f"entry-mutates:{key}", "a non-mutating program changed its inputs")
    return 1


# -- several programs in one importer -----------------------------------------
def case_multi(c):
    """A history of imports into one importer: every function keeps its own meaning."""
    _, hist = c
    from torch_mlir import fx, ir
    from torch_mlir.extras.fx_importer import FxImporter
    from torch_mlir.dialects import torch as torch_d

    ctx = ir.Context()
    torch_d.register_dialect(ctx)
    imp = FxImporter(context=ctx)
    want = {}
    for n, (mname, mutation) in enumerate(hist):
        cls, argsets = MODS[mname]
        args, kwargs = argsets[0]
        mod = cls().eval()
        with torch.no_grad():
            mod.b.add_(n)  # each instance holds different state
            if hasattr(mod, "w"):
                mod.w.mul_(n + 1)
            exp = [x.clone() if isinstance(x, torch.Tensor) else x
                   for x in flat_expected(mod(*args, **kwargs))]
        fn = f"f{n}"
        m = fx.export_and_import(mod, *args, fx_importer=imp, func_name=fn,
                                 experimental_support_mutation=mutation)
        want[fn] = (args, kwargs, exp)
    m.operation.verify()
    it = Interp(m)
    for fn, (args, kwargs, exp) in want.items():
        got = it.call(fn, user_tensors(args))
        if not same(got, exp, 1e-5, 1e-6):
            raise Violation(f"multi:{hist}", f"{fn}: got {[short(x) for x in got]} expected "
                            f"{[short(x) for x in exp]}\n{m}")
    return len(hist)


def run(ck):
    n = range(len(LET))
    # depth 1: every letter x every wiring x both metadata styles
    d1 = [("prog", p, m) for p in programs(1, n, n, True) for m in ("val", "tensor_meta")]
    # depth 2: one of the two letters is core (quick) / all pairs (thorough)
    if ck.thorough:
        d2 = [("prog", p, "val") for p in programs(2, n, n, False)]
        d3 = [("prog", p, "val") for p in programs(3, CORE, CORE, True)]
    else:
        pr = list(programs(2, CORE, n, False)) + list(programs(2, n, CORE, False))
        d2 = [("prog", p, "val") for p in sorted(set(pr))]
        d3 = [("prog", p, "val") for p in programs(3, CORE, CORE, False)]
    progs = d1 + d2 + d3
    for _, p, m in progs:
        for k in range(1, len(p) + 1):
            ck.state((p[:k], m))
            ck.transitions += 1
    ck.run_cases(progs, case_prog, lambda c: ("prog", name(c[1]), c[2]), chunk=40)
    ck.sample({"program": name(d3[len(d3) // 2][1]), "meta": "val"})
    ck.extra["programs_by_depth"] = [len(d1), len(d2), len(d3)]

    outs = []
    base = [((IDX["add"], (0, 1)),), ((IDX["sort"], (1,)),), ((IDX["split"], (0,)),),
            ((IDX["max_dim"], (0,)), (IDX["neg"], (1,)))]
    for prog in base:
        for form in ["single", "tuple1", "list", "dup", "swap", "ph", "none", "none_last",
                     "scalars", "only_ph", "empty", "unused"]:
            for fname in ("main", "forward_2"):
                outs.append(("out", prog, form, fname))
    ck.run_cases(outs, case_out, lambda c: (name(c[1]), c[2], c[3]))
    ck.transitions += len(outs)
    for c in outs:
        ck.state(c)

    ent = []
    for mname, (cls, argsets) in MODS.items():
        for ai in range(len(argsets)):
            for mutation in (False, True):
                for decomp in ("default", "none", "core"):
                    for how in ("module", "program", "strict"):
                        for func in ("main", "g1"):
                            if mname == "M7" and decomp == "none":
                                continue  # not functionalized: outside the importer's contract
                            if func == "g1" and (decomp != "default" or how == "strict"):
                                continue
                            if how == "strict" and not ck.thorough and decomp != "default":
                                continue
                            ent.append(("entry", mname, ai, mutation, decomp, how, func))
    ck.run_cases(ent, case_entry, chunk=2)
    ck.sample({"entry point case": ent[len(ent) // 3]})
    ms = ["M1", "M2", "M5", "M6"] if ck.thorough else ["M1", "M2", "M6"]
    hists = [("multi", h) for d in ((2, 3) if ck.thorough else (2,))
             for h in itertools.product([(m, b) for m in ms for b in (False, True)], repeat=d)]
    if ck.thorough:
        hists = [h for h in hists if len(h[1]) == 2 or all(b for _, b in h[1]) or not any(b for _, b in h[1])]
    ck.run_cases(hists, case_multi, chunk=2)
    for c in ent + hists:
        ck.state(c)
    ck.transitions += len(ent) + sum(len(hh[1]) for hh in hists)
    ck.assumptions += [
        "the MLIR Python bindings are replaced by an executable stand-in (mc/fakemlir.py)",
        "operator semantics are PyTorch's own (torch.ops); non-determinism is excluded",
    ]


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def replay(ck, case):
    c = _tup(case)
    fn = {"prog": case_prog, "out": case_out, "entry": case_entry, "multi": case_multi}[c[0]]
    try:
        fn(c)
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    print("no longer fails")
    return 0

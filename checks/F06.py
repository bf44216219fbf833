"""F06: symbolic sizes and scalars are imported exactly.

(a) every program of up to 2 (3) scalar operations over symbolic ints (sizes,
    data-dependent), symbolic floats and literals, imported and executed for
    several input sizes/values; result and its use by a tensor op compared;
(b) every shape expression tree over two dynamic dimensions up to a depth, and
    every dynamic-dimension constraint form, imported with symbolic shape
    expressions; every declared shape relation and range is evaluated against
    the actual sizes for every size in the range.
"""
import itertools
import operator as op

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from torch._subclasses.fake_tensor import FakeTensorMode
from torch.fx.experimental.symbolic_shapes import ShapeEnv, DimDynamic, StatelessSymbolicContext

from mc.core import Violation
from mc.interp import Interp, same, short, TypeSoundness

ID = "F06"
LEVEL = "model_checking"
RULE = ("state = a scalar/shape expression over symbolic sizes; transition = one operation appended; "
        "each is imported and executed for every enumerated size assignment")
A = torch.ops.aten

BIN = {"add": op.add, "sub": op.sub, "mul": op.mul, "floordiv": op.floordiv, "mod": op.mod,
       "truediv": op.truediv, "lt": op.lt, "le": op.le, "gt": op.gt, "ge": op.ge, "eq": op.eq, "ne": op.ne}
CMP = ("lt", "le", "gt", "ge", "eq", "ne")
SYM = ["a", "b", "n", "i", "f", "g"]
LIT = {"3": 3, "-2": -2, "2.5": 2.5, "-0.5": -0.5}
INPUTS = [((2, 3), -5, 1.5, -0.75), ((4, 2), 3, -2.25, 2.5), ((7, 5), 7, 5.0, 3.0), ((3, 3), 3, 3.0, 2.5)]


class SymProg:
    def __init__(self):
        self.se = ShapeEnv()
        self.fm = FakeTensorMode(shape_env=self.se, allow_non_fake_inputs=False)
        self.g = torch.fx.Graph()
        x = torch.zeros(5, 7)
        ctx = StatelessSymbolicContext(dynamic_sizes=[DimDynamic.DYNAMIC] * 2)
        self.x = self.ph("x", self.fm.from_tensor(x, symbolic_context=ctx))
        st = StatelessSymbolicContext(dynamic_sizes=[])
        self.zi = self.ph("zi", self.fm.from_tensor(torch.tensor(3), symbolic_context=st))
        self.zf = self.ph("zf", self.fm.from_tensor(torch.tensor(1.5, dtype=torch.float64), symbolic_context=st))
        self.zg = self.ph("zg", self.fm.from_tensor(torch.tensor(1.5, dtype=torch.float32), symbolic_context=st))
        self.v = {
            "a": lambda: self.call(A.sym_size.int, self.x, 0),
            "b": lambda: self.call(A.sym_size.int, self.x, 1),
            "n": lambda: self.call(A.sym_numel.default, self.x),
            "i": lambda: self.call(A._local_scalar_dense.default, self.zi),
            "f": lambda: self.call(A._local_scalar_dense.default, self.zf),
            "g": lambda: self.call(A._local_scalar_dense.default, self.zg),
            "h": lambda: self.call(A._local_scalar_dense.default, self.ph("zh", self.fm.from_tensor(
                torch.tensor(True), symbolic_context=st))),
        }
        self.made = {}

    def ph(self, name, val):
        n = self.g.placeholder(name)
        n.meta["val"] = val
        return n

    def call(self, t, *args):
        n = self.g.call_function(t, args)
        v = [a.meta["val"] if isinstance(a, torch.fx.Node) else a for a in args]
        with self.fm:
            n.meta["val"] = t(*v)
        return n

    def operand(self, k):
        if k in LIT:
            return LIT[k]
        if k not in self.made:
            self.made[k] = self.v[k]()
        return self.made[k]

    def expr(self, e):
        if isinstance(e, str):
            return self.operand(e)
        if e[0] == "neg":
            return self.call(op.neg, self.expr(e[1]))
        return self.call(BIN[e[0]], self.expr(e[1]), self.expr(e[2]))


def ev(e, env_):
    if isinstance(e, str):
        return LIT[e] if e in LIT else env_[e]
    if e[0] == "neg":
        return -ev(e[1], env_)
    return BIN[e[0]](ev(e[1], env_), ev(e[2], env_))


def is_float(e):
    if isinstance(e, str):
        return e in ("f", "g", "2.5", "-0.5")
    if e[0] == "truediv":
        return True
    return any(is_float(x) for x in e[1:])


def must_accept(e):
    """Integer arithmetic over all ops and float arithmetic over + - * / and comparisons."""
    if isinstance(e, str):
        return True
    if e[0] in ("floordiv", "mod") and is_float(e):
        return False
    if e[0] in CMP and False:
        return False
    return all(must_accept(x) for x in e[1:])


def show(e):
    return e if isinstance(e, str) else f"{e[0]}({', '.join(map(show, e[1:]))})"


def case_scalar(e):
    from torch_mlir import fx

    key = show(e)
    try:
        p = SymProg()
        r = p.expr(e)
        isb = e == "h" or not isinstance(e, str) and e[0] in CMP
        outs = [r]
        if not isb:
            outs.append(p.call(A.mul.Scalar, p.zf, r))
            if not is_float(e):
                outs.append(p.call(A.add.Scalar, p.zi, r))
        outs.append(r)  # returned twice
        p.g.output(tuple(outs))
        gm = torch.fx.GraphModule(torch.nn.Module(), p.g)
    except Exception as ex:
        return ("noprog", f"{type(ex).__name__}: {ex}"[:80])
    try:
        m = fx.stateless_fx_import(gm)
        m.operation.verify()
        text = str(m)
        m = fx.stateless_fx_import(gm)  # importing leaves the program importable
        m.operation.verify()
        if str(m) != text:
            raise Violation(f"reimport:{key}", f"second import differs:\n{text}\n{m}")
    except Violation:
        raise
    except Exception as ex:
        if must_accept(e):
            raise Violation(f"scalar-rejected:{key}", f"{type(ex).__name__}: {ex}")
        return ("rejected", f"{type(ex).__name__}: {ex}"[:80])
    for sh, i, f, g in INPUTS:
        x = torch.zeros(sh)
        args = [x, torch.tensor(i), torch.tensor(f, dtype=torch.float64), torch.tensor(g)]
        if e == "h":
            args.append(torch.tensor(i > 0))
        envv = {"h": i > 0, "a": sh[0], "b": sh[1], "n": sh[0] * sh[1], "i": i, "f": f, "g": g}
        try:
            want = ev(e, envv)
        except ZeroDivisionError:
            continue
        exp = [want]
        if not isb:
            exp.append(torch.ops.aten.mul.Scalar(args[2], want))
            if not is_float(e):
                exp.append(torch.ops.aten.add.Scalar(args[1], want))
        exp.append(want)
        try:
            got = Interp(m).call("main", args)
        except TypeSoundness as t:
            raise Violation(f"scalar-type:{key}", f"{envv}: {t}\n{m}")
        if not same(got, exp):
            raise Violation(f"scalar:{key}", f"{envv}: {[short(t) for t in got]} != {[short(t) for t in exp]}\n{m}")
    return ("ok", None)


# ---------------------------------------------------------------- shapes

SHAPE_ATOMS = ["s", "t", "1", "2", "3"]


def shape_exprs(depth, ops=("add", "sub", "mul", "pow2", "pow3", "floordiv", "mod")):
    if depth == 0:
        return list(SHAPE_ATOMS)
    prev = shape_exprs(depth - 1, ops)
    out = list(prev) if depth > 1 else list(SHAPE_ATOMS)
    right = SHAPE_ATOMS if depth > 1 else prev
    for o in ops:
        for l in prev:
            if o.startswith("pow"):
                out.append((o, l))
                continue
            for r in right:
                out.append((o, l, r))
    seen, res = set(), []
    for e in out:
        if e not in seen:
            seen.add(e)
            res.append(e)
    return res


def sev(e, s, t):
    if isinstance(e, str):
        return {"s": s, "t": t}.get(e) if e in "st" else int(e)
    if e[0] == "pow2":
        return sev(e[1], s, t) * sev(e[1], s, t)
    if e[0] == "pow3":
        return sev(e[1], s, t) * sev(e[1], s, t) * sev(e[1], s, t)
    return BIN[e[0]](sev(e[1], s, t), sev(e[2], s, t))


def has_sym(e):
    return e in ("s", "t") if isinstance(e, str) else any(has_sym(x) for x in e[1:])


def polynomial(e):
    return isinstance(e, str) or e[0] not in ("floordiv", "mod") and all(polynomial(x) for x in e[1:])


class ShapeM(torch.nn.Module):
    def __init__(self, e):
        super().__init__()
        self.e = e

    def forward(self, x, y):
        n = sev(self.e, x.shape[0], y.shape[1])
        a, b = x.shape[0], y.shape[1]
        # the same expression next to the bare sizes, in both orders
        return torch.full((n, 2), 1.5), torch.full((n, a, b), 1), torch.full((n, b, a), 1), x + 1


SIZES = [(4, 5), (5, 4), (7, 9), (9, 6)]


def case_shape(e):
    from torch_mlir import fx
    from torch.export import Dim

    key = show(e)
    ss = SIZES
    try:
        if any(not 0 < sev(e, *s) < 5000 for s in ss):
            return ("noprog", "size range")
    except ZeroDivisionError:
        return ("noprog", "zero")
    s, t = Dim("s", min=4, max=9), Dim("t", min=4, max=9)
    try:
        prog = torch.export.export(ShapeM(e), (torch.zeros(7, 3), torch.zeros(2, 9)),
                                   dynamic_shapes={"x": {0: s}, "y": {1: t}}, strict=False)
    except Exception as ex:
        return ("noprog", f"{type(ex).__name__}: {ex}"[:80])
    try:
        m = fx.export_and_import(prog, import_symbolic_shape_expressions=True)
        m.operation.verify()
    except Exception as ex:
        if polynomial(e):
            raise Violation(f"shape-rejected:{key}", f"{type(ex).__name__}: {ex}")
        return ("rejected", str(ex)[:80])
    syms = input_symbols(prog)
    n = 0
    for a, b in SIZES:
        x, y = torch.zeros(a, 3), torch.zeros(2, b)
        n += run_shapes(key, m, [x, y], syms)
        got = LAST[0]
        want = sev(e, a, b)
        if tuple(got[0].shape) != (want, 2):
            raise Violation(f"shape:{key}", f"({a},{b}): result shape {tuple(got[0].shape)}, not {(want, 2)}")
    check_ranges(key, m, {"s": (4, 9), "t": (4, 9)}, syms)
    return ("ok", n)


LAST = [None]


def input_symbols(prog):
    """[(input position, dim, expr string)] of every dynamic input dimension."""
    out = []
    i = 0
    from torch.export.graph_signature import InputKind

    specs = {sp.arg.name: sp for sp in prog.graph_signature.input_specs}
    for nd in prog.graph.nodes:
        if nd.op != "placeholder" or specs[nd.name].kind != InputKind.USER_INPUT:
            continue
        v = nd.meta["val"]
        if isinstance(v, torch.Tensor):
            for d, sz in enumerate(v.shape):
                if isinstance(sz, torch.SymInt):
                    out.append((i, d, sz.node.expr))
        i += 1
    return out


def symbol_values(syms, args):
    """Solve the input dimensions for the plain symbols; evaluate the derived ones."""
    import sympy

    val = {}
    for i, d, e in syms:
        if isinstance(e, sympy.Symbol):
            val[e] = args[i].shape[d]
    for i, d, e in syms:
        if not isinstance(e, sympy.Symbol):
            fs = list(e.free_symbols)
            if len(fs) == 1 and fs[0] not in val:
                sol = sympy.solve(sympy.Eq(e, args[i].shape[d]), fs[0])
                val[fs[0]] = int(sol[0])
    return val


class SymTable(dict):
    """symbol name (or derived expression) -> value"""

    def __init__(self, val):
        super().__init__()
        self.val = val

    def __contains__(self, k):
        try:
            self[k]
            return True
        except Exception:
            return False

    def __missing__(self, k):
        import sympy

        e = sympy.sympify(k, locals={str(s): s for s in self.val})
        r = int(e.subs(self.val))
        self[k] = r
        return r


def run_shapes(key, m, args, syms):
    it = Interp(m, symbols=SymTable(symbol_values(syms, args)))
    try:
        LAST[0] = it.call("main", args)
    except TypeSoundness as t:
        raise Violation(f"shape:{key}", f"{[tuple(a.shape) for a in args]}: {t}\n{m}")
    if it.bind_checked == 0 and syms:
        raise Violation(f"shape:{key}", f"no shape relation declared although inputs are dynamic\n{m}")
    return it.bind_checked


def check_ranges(key, m, want, syms):
    """The declared range of the symbol of input dim == the Dim's range."""
    decl = {}
    f = [o for o in m.body.operations][-1]
    for o in f.regions[0].blocks[0].operations:
        if o.operation.name == "torch.symbolic_int":
            at = o.operation.attributes
            decl[at["symbol_name"].value] = (at["min_val"].value, at["max_val"].value)
    for (i, d, e), (nm, rng) in zip(syms, want.items()):
        if str(e) not in decl:
            raise Violation(f"range:{key}", f"symbol {e} of dim {nm} not declared\n{m}")
        if decl[str(e)] != rng:
            raise Violation(f"range:{key}", f"dim {nm} declared {decl[str(e)]}, exported as {rng}")


class DimM(torch.nn.Module):
    def __init__(self, k):
        super().__init__()
        self.k = k
        self.register_buffer("b", torch.arange(3.0))

    def forward(self, x, y):
        k = self.k
        if k == 0:
            return torch.cat([x, x], 0), y.t()
        if k == 1:
            return x[1:], y.reshape(-1), x.sum()
        if k == 2:
            return (x.unsqueeze(0).expand(4, -1, -1), y * y.size(0))
        if k == 3:
            return x.flatten(), torch.nn.functional.pad(y, (1, 2)), x.size(0) * 2 + y.size(1)
        if k == 4:
            return (x + self.b, torch.arange(y.size(1)), x.new_zeros(y.size(0), x.size(0)))
        if k == 5:
            return torch.cat([x.flatten(), y.flatten()]), x.repeat(2, 3)
        if k == 6:
            return x[: x.size(0) - 2], y[:, 1:-1]
        if k == 7:
            return x.split(1)[0] if False else torch.topk(x, 2)
        if k == 8:
            return x[::2], y


# constraint forms: (dynamic spec builder, sizes of x (?,3), y (2,?))
def forms():
    from torch.export import Dim

    n = lambda lo=None, hi=None: Dim("n", **{k: v for k, v in (("min", lo), ("max", hi)) if v is not None})
    m = lambda lo=None, hi=None: Dim("m", **{k: v for k, v in (("min", lo), ("max", hi)) if v is not None})
    MX = 2 ** 63 - 1
    f = {}
    for lo, hi in ((3, 10), (4, 7), (3, 100000), (5, 5 + 1), (2, 64), (4, 4096)):
        f[f"x0[{lo},{hi}]"] = (lambda lo=lo, hi=hi: {"x": {0: n(lo, hi)}, "y": None}, {"n": (lo, hi)}, lambda k, lo=lo, hi=hi: (min(max(lo, k + 3), hi), 5))
    f["x0,y1"] = (lambda: {"x": {0: n(3, 9)}, "y": {1: m(4, 11)}}, {"n": (3, 9), "m": (4, 11)}, lambda k: (3 + k, 4 + 2 * k))
    f["y1"] = (lambda: {"x": None, "y": {1: m(4, 8)}}, {"m": (4, 8)}, lambda k: (6, 4 + k))
    f["same"] = (lambda: (lambda d: {"x": {0: d}, "y": {1: d}})(n(4, 9)), None, lambda k: (4 + k, 4 + k))
    f["y=2x"] = (lambda: (lambda d: {"x": {0: d}, "y": {1: 2 * d}})(n(3, 9)), None, lambda k: (3 + k, 6 + 2 * k))
    f["y=x+1"] = (lambda: (lambda d: {"x": {0: d}, "y": {1: d + 1}})(n(3, 9)), None, lambda k: (3 + k, 4 + k))
    f["y=x-1"] = (lambda: (lambda d: {"x": {0: d}, "y": {1: d - 1}})(n(5, 9)), None, lambda k: (5 + k, 4 + k))
    f["x=3y+1"] = (lambda: (lambda d: {"x": {0: 3 * d + 1}, "y": {1: d}})(n(4, 9)), None, lambda k: (13 + 3 * k, 4 + k))
    f["static"] = (lambda: None, {}, lambda k: (6, 5))
    f["unbounded"] = (lambda: {"x": {0: n(3)}, "y": {1: m(4)}}, {"n": (3, None), "m": (4, None)}, lambda k: (3 + k, 5 + k))
    f["auto"] = (lambda: {"x": {0: torch.export.Dim.AUTO}, "y": {1: torch.export.Dim.AUTO}}, None, lambda k: (4 + k, 5 + k))
    return f


def case_dims(c):
    from torch_mlir import fx

    k, form, mut = c
    build, want, size = forms()[form]
    key = f"dims:{k}/{form}/{mut}"
    a, b = size(2)
    ex = (torch.randn(a, 3, generator=torch.Generator().manual_seed(0)), torch.ones(2, b))
    try:
        prog = torch.export.export(DimM(k), ex, dynamic_shapes=build(), strict=False)
    except Exception as e:
        return ("noprog", f"{type(e).__name__}"[:80])
    try:
        m = fx.export_and_import(prog, import_symbolic_shape_expressions=True,
                                 experimental_support_mutation=mut)
        m.operation.verify()
    except NotImplementedError as e:
        return ("rejected", str(e)[:80])
    m2 = fx.export_and_import(prog, experimental_support_mutation=mut)
    for o in m2.body.operations:
        if o.operation.name == "func.func" and any(
                p.operation.name in ("torch.symbolic_int", "torch.bind_symbolic_shape")
                for p in o.regions[0].blocks[0].operations):
            raise Violation(key, "symbolic shape ops imported although not requested")
    syms = input_symbols(prog)
    n = 0
    for j in range(4):
        a, b = size(j)
        x, y = torch.arange(a * 3.0).reshape(a, 3), torch.arange(2.0 * b).reshape(2, b)
        try:
            exp = DimM(k)(x.clone(), y.clone())
        except Exception:
            continue
        n += run_shapes(key, m, [x.clone(), y.clone()], syms)
        exp = list(exp) if isinstance(exp, (tuple, list)) else [exp]
        if not same(LAST[0], exp):
            raise Violation(key, f"sizes {(a, b)}: {[short(t) for t in LAST[0]]} != {[short(t) for t in exp]}\n{m}")
    if want is not None:
        w = {kk: (lo, 2 ** 63 - 1 if hi is None else hi) for kk, (lo, hi) in want.items()}
        check_ranges(key, m, w, syms)
    return ("ok", n)


FN = {"scalar": case_scalar, "shape": case_shape, "dims": case_dims}


def run_case(c):
    return FN[c[0]](c[1])


def scalar_cases(th):
    ops = list(BIN)
    atoms = SYM + list(LIT)
    out = [("scalar", a) for a in SYM + ["h"]]
    d1 = [(o, l, r) for o in ops for l in atoms for r in atoms if not (l in LIT and r in LIT)]
    d1 += [("neg", a) for a in SYM]
    out += [("scalar", e) for e in d1]
    inner = [e for e in d1 if e[0] not in CMP and (th or (e[0] == "neg" or (e[1] in ("a", "i", "f", "3") and e[2] in ("a", "f", "b", "2.5"))))]
    rs = atoms if th else ["b", "-2", "f"]
    for e in inner:
        for o in ops:
            for r in rs:
                out.append(("scalar", (o, e, r)))
                if r not in LIT or th:
                    out.append(("scalar", (o, r, e)))
        out.append(("scalar", ("neg", e)))
    return out


def run(ck):
    cs = scalar_cases(ck.thorough)
    d = [e for e in shape_exprs(2) if has_sym(e)]
    if not ck.thorough:
        d = [e for j, e in enumerate(d) if isinstance(e, str) or isinstance(e[1], str) and (len(e) < 3 or isinstance(e[2], str))
             or (e[0] in ("add", "mul", "mod", "sub") and e[1][0] in ("add", "mul", "pow2", "mod", "sub") and e[-1] in ("s", "t", "2")
                 and e[1][1] != "1" and e[1][-1] not in ("1", "3"))]
    cs += [("shape", e) for e in d]
    cs += [("dims", (k, f, mu)) for k in range(9) for f in forms() for mu in (False, True)]
    infos = ck.run_cases(cs, run_case, keyfn=repr, chunk=8,
                         nontrivial=lambda c, i: i is not None and i[0] == "ok")
    tally = {}
    why = {}
    for c, i in zip(cs, infos):
        if i:
            k = f"{c[0]}_{i[0]}"
            tally[k] = tally.get(k, 0) + 1
            if i[0] != "ok":
                why.setdefault(c[0], {}).setdefault(i[1], []).append(c[1])
    ck.extra.update(tally)
    ck.n_states_extra = len(cs)
    ck.transitions = len(cs) * len(INPUTS)
    ck.extra["not_imported"] = {k: {w: len(v) for w, v in d.items()} for k, d in why.items()}
    ck.sample(show(cs[700][1]))
    for k in ("scalar_ok", "shape_ok", "dims_ok"):
        if not ck.violations and not ck.extra.get(k):
            ck.violation(f"vacuous:{k}", "nothing of this kind was importable")
    ck.assumptions += ["torch.export decides which expressions are programs"]


def replay(ck, c):
    return 1

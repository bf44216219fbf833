"""F03: tensors captured by a program are embedded bit for bit, in every history.

(a) every (dtype, shape/layout, value pattern, import route) combination;
    8- and 16-bit types with ALL bit patterns;
(b) every history (up to a depth) of imports into ONE importer, with tensors
    created, shared, aliased and released in between, under an adversarial
    allocator that reuses the identity of a released object immediately.
"""
import gc
import itertools
import weakref

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
import numpy as np

from mc.core import Violation
from mc.interp import Interp, same, short, literal_tensor

ID = "F03"
LEVEL = "model_checking"
RULE = ("state = history of import/create/share/release steps on one importer (or one literal "
        "configuration); transition = one step")

INT_EDGE = {
    torch.uint8: None, torch.int8: None, torch.int16: None,
    torch.int32: [0, 1, -1, 2**31 - 1, -2**31, 2**24 + 1, 123456789],
    torch.int64: [0, 1, -1, 2**63 - 1, -2**63, 2**53 + 1, -(2**53 + 1), 2**62 + 3],
}
F_EDGE = {
    torch.float32: [0x00000000, 0x80000000, 0x3F800000, 0x7F7FFFFF, 0x00000001, 0x807FFFFF,
                    0x7F800000, 0xFF800000, 0x7FC00000, 0x3DCCCCCD, 0x00800000, 0x4B800001],
    torch.float64: [0x0, 0x8000000000000000, 0x3FF0000000000000, 0x7FEFFFFFFFFFFFFF, 0x1,
                    0x800FFFFFFFFFFFFF, 0x7FF0000000000000, 0xFFF0000000000000,
                    0x7FF8000000000000, 0x3FB999999999999A, 0x4340000000000001],
}
D = torch
MUST = [D.uint8, D.int8, D.int16, D.int32, D.int64, D.float16, D.float32, D.float64, D.bool,
        D.bfloat16, D.complex64, D.complex128, D.float8_e5m2, D.float8_e4m3fn,
        D.float8_e5m2fnuz, D.float8_e4m3fnuz]
MAY = [D.complex32, D.uint16, D.uint32, D.uint64, D.float8_e8m0fnu, D.float4_e2m1fn_x2]


def pattern(dt):
    """1-d tensor with the interesting (or all) bit patterns of dt"""
    if dt == D.bool:
        return torch.tensor([True, False, True, True, False, False])
    size = torch.empty((), dtype=dt).element_size()
    if dt.is_complex and dt != D.complex32:
        base = torch.float32 if dt == D.complex64 else torch.float64
        b = pattern(base)
        return torch.complex(b, b.flip(0))
    if size == 1:
        return torch.arange(256, dtype=torch.int32).to(torch.uint8).view(dt)
    if size == 2:
        return torch.from_numpy(np.arange(65536, dtype=np.uint16).view(np.int16).copy()).view(dt)
    if dt in F_EDGE:
        it = np.uint32 if size == 4 else np.uint64
        st = np.int32 if size == 4 else np.int64
        return torch.from_numpy(np.array(F_EDGE[dt], dtype=it).view(st).copy()).view(dt)
    if dt in INT_EDGE:
        return torch.tensor(INT_EDGE[dt], dtype=dt)
    return torch.from_numpy(np.array([1, 2, 3, 250] * 16, dtype=np.uint8)).view(dt)


def shapes(p):
    """name -> tensor built from the pattern"""
    n = p.numel()
    two = p[: (n // 2) * 2]
    out = {
        "1d": p, "2d": two.reshape(2, -1), "2dT": two.reshape(2, -1).t(), "slice": p[1::2],
        "neg_off": p[2:], "expand": p[1:2].expand(3, 1) if n > 1 else p, "1x1": p[1:2].reshape(1, 1),
        "one": p[:1], "last": p[-1:], "scalar": p[1].reshape(()), "empty": p[:0],
        "e03": p[:0].reshape(0, 3), "e20": p[:0].reshape(2, 0), "131": p[:3].reshape(1, 3, 1) if n >= 3 else p,
        "col": two.reshape(2, -1)[:, 1], "3d_perm": p[: (n // 6) * 6].reshape(1, -1, 3).permute(2, 0, 1)
        if n >= 6 else p, "bcast0": p[:1].expand(4) if n else p,
    }
    if n >= 16:
        out["chl"] = p[:16].reshape(1, 2, 2, 4).contiguous(memory_format=torch.channels_last) \
            if p.dtype not in (D.float4_e2m1fn_x2,) else p
    return out


ROUTES = ["attr", "frozen_buffer", "program_buffer", "np_buffer", "parameter", "constant",
          "list", "output"]


class Holder(torch.nn.Module):
    def __init__(self, t, route):
        super().__init__()
        self.route = route
        if route == "parameter":
            self.t = torch.nn.Parameter(t, requires_grad=False)
        elif route in ("frozen_buffer", "program_buffer"):
            self.register_buffer("t", t)
        elif route == "np_buffer":
            self.register_buffer("t", t, persistent=False)
        else:
            self.t = t

    def forward(self, x):
        return x + 1, self.t, self.t


def bits_equal(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype in (D.float8_e8m0fnu, D.float4_e2m1fn_x2, D.complex32, D.uint16, D.uint32, D.uint64):
        return a.contiguous().numpy_force if False else bool(
            (a.contiguous().view(torch.uint8) == b.contiguous().view(torch.uint8)).all()
        ) if a.dim() else same(a.reshape(1).view(torch.uint8), b.reshape(1).view(torch.uint8))
    a, b = a.resolve_conj().contiguous(), b.resolve_conj().contiguous()
    if a.dtype.is_complex:
        a, b = torch.view_as_real(a), torch.view_as_real(b)
    if str(a.dtype).startswith("torch.float8"):
        fa, fb = a.float(), b.float()
        nan = (fa != fa) & (fb != fb)
        ua, ub = a.reshape(-1).view(torch.uint8), b.reshape(-1).view(torch.uint8)
        return bool(((ua == ub) | nan.reshape(-1)).all())
    if a.is_floating_point():
        it = {2: torch.int16, 4: torch.int32, 8: torch.int64}[a.element_size()]
        nan = ((a != a) & (b != b)).reshape(-1)
        return bool(((a.reshape(-1).view(it) == b.reshape(-1).view(it)) | nan).all())
    return bool((a == b).all())


def import_route(t, route):
    """-> list of tensors the imported program holds for t"""
    from torch_mlir import fx
    from mc.fxlib import Prog

    x = torch.tensor([1.0, 2.0])
    if route in ("attr", "list", "output"):
        from torch._subclasses.fake_tensor import FakeTensorMode

        g, root = torch.fx.Graph(), torch.nn.Module()
        root.c = t
        fm = FakeTensorMode()
        xn = g.placeholder("x")
        xn.meta["val"] = fm.from_tensor(x)
        n = g.get_attr("c")
        n.meta["val"] = fm.from_tensor(t)
        if route == "attr":
            o = g.call_function(torch.ops.aten.clone.default, (n,))
            o.meta["val"] = n.meta["val"]
            g.output((o, n))
        elif route == "list":
            o = g.call_function(torch.ops.aten.stack.default, ([n, n],))
            with fm:
                o.meta["val"] = torch.ops.aten.stack.default([n.meta["val"]] * 2)
            g.output((o,))
        else:
            g.output((n,))
        m = fx.stateless_fx_import(torch.fx.GraphModule(root, g))
        m.operation.verify()
        r = Interp(m).call("main", [x])
        return [r[0][0], r[0][1]] if route == "list" else r
    mod = Holder(t, route)
    m = fx.export_and_import(mod, x, experimental_support_mutation=route in
                             ("program_buffer", "np_buffer"), decomposition_table={})
    m.operation.verify()
    return Interp(m).call("main", [x])[1:]


def no_op_support(dt, route):
    """routes that need an operator torch does not implement for the dtype"""
    return False


def case_lit(c):
    _, dts, shape, route = c
    dt = getattr(torch, dts)
    t = shapes(pattern(dt))[shape]
    must = dt in MUST
    try:
        got = import_route(t, route)
    except Violation:
        raise
    except Exception as e:
        if not must:
            return "rejected"
        import traceback

        raise Violation(f"rejected:{dts}/{shape}/{route}",
                        f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    for g in got:
        if not bits_equal(g, t):
            raise Violation(f"literal:{dts}/{shape}/{route}",
                            f"imported literal {short(g)} differs from {short(t)}")
    return "exact"


# -- histories -----------------------------------------------------------------
class AdversarialIds:
    """A legal id(): unique among live objects, reusing dead identities at once."""

    def __init__(self):
        self.m = {}
        self.n = 1000
        self.reused = 0

    def __call__(self, o):
        k = id(o)
        e = self.m.get(k)
        if e is not None and e[0]() is o:
            return e[1]
        try:
            wr = weakref.ref(o)
        except TypeError:
            return k
        free = None
        live = {x[1] for x in self.m.values() if x[0]() is not None}
        for kk, x in list(self.m.items()):
            if x[0]() is None and x[1] not in live:
                free = x[1]
                del self.m[kk]
                self.reused += 1
                break
        if free is None:
            free = self.n
            self.n += 1
        self.m[k] = (wr, free)
        return free


STEPS = ["f32", "bool", "bool2", "share", "view", "i64x1", "drop"]


class HMod(torch.nn.Module):
    def __init__(self, ts):
        super().__init__()
        for i, t in enumerate(ts):
            self.register_buffer(f"t{i}", t)
        self.n = len(ts)

    def forward(self, x):
        return tuple(getattr(self, f"t{i}") for i in range(self.n)) + (x + 1,)


def case_hist(c):
    _, steps, mutation = c
    from torch_mlir import fx, ir
    from torch_mlir.extras import fx_importer as fi
    from torch_mlir.dialects import torch as torch_d

    ids = AdversarialIds()
    fi.id = ids  # shadows the builtin in that module only
    try:
        ctx = ir.Context()
        torch_d.register_dialect(ctx)
        imp = fi.FxImporter(context=ctx)
        want, keep, module = {}, [], None
        x = torch.tensor([1.0, 2.0])
        for n, st in enumerate(steps):
            if st == "drop":
                keep.clear()
                gc.collect()
                continue
            v = float(n + 1)
            if st == "f32":
                ts = [torch.tensor([v, -v])]
            elif st == "bool":
                ts = [torch.tensor([n % 2 == 0, n % 2 == 1, True])]
            elif st == "bool2":
                ts = [torch.tensor([True, False]), torch.tensor([False, n % 2 == 0])]
            elif st == "i64x1":
                ts = [torch.tensor([n + 5]), torch.tensor(n + 7)]
            elif st == "share":
                ts = [keep[-1]] if keep else [torch.tensor([v * 10, v])]
            elif st == "view":
                b = keep[-1] if keep else torch.tensor([v * 10, v])
                ts = [b.reshape(-1).flip(0), b.reshape(-1)[1:], b]
            want[f"f{n}"] = [t.clone() for t in ts]
            mod = HMod(ts)
            module = fx.export_and_import(mod, x, fx_importer=imp, func_name=f"f{n}",
                                          experimental_support_mutation=mutation,
                                          decomposition_table={})
            keep.append(ts[0])
            del mod, ts
        if module is None:
            return 0
        module.operation.verify()
        it = Interp(module)
        for fn, exp in want.items():
            got = it.call(fn, [x])[:-1]
            if not same(got, exp):
                raise Violation(
                    f"history:{'>'.join(steps)}/mut={mutation}",
                    f"{fn} embeds {[short(g) for g in got]} instead of {[short(e) for e in exp]}")
        return ids.reused
    finally:
        del fi.id


def run(ck):
    lits = []
    names = [str(d)[6:] for d in MUST + MAY]
    sh = list(shapes(pattern(D.float32)).keys()) + ["chl"]
    for dn in names:
        s = shapes(pattern(getattr(torch, dn)))
        for k in s:
            for r in ROUTES:
                dt = getattr(torch, dn)
                if r == "list" and dt.itemsize == 1 and "float8" in dn:
                    continue  # torch.stack is not implemented for float8 on CPU
                if not ck.thorough and r in ("np_buffer", "program_buffer", "parameter") and (
                        k not in ("1d", "2dT", "scalar", "empty", "1x1")):
                    continue
                lits.append(("lit", dn, k, r))
    info = ck.run_cases(lits, case_lit, chunk=8)
    ck.extra["literal_configurations_exact"] = sum(1 for i in info if i == "exact")
    ck.extra["literal_configurations_rejected"] = sum(1 for i in info if i == "rejected")
    depth = 4 if ck.thorough else 3
    hist = []
    for d in range(1, depth + 1):
        for s in itertools.product(STEPS, repeat=d):
            if s[0] == "drop" or any(a == b == "drop" for a, b in zip(s, s[1:])):
                continue
            for mu in ((False, True) if d <= 2 or ck.thorough else (False,)):
                hist.append(("hist", s, mu))
    for h_ in hist:
        for k in range(1, len(h_[1]) + 1):
            ck.state((h_[1][:k], h_[2]))
            ck.transitions += 1
    for l in lits:
        ck.state(l)
    ck.transitions += len(lits)
    info = ck.run_cases(hist, case_hist, chunk=4)
    ck.extra["histories_with_identity_reuse"] = sum(1 for i in info if i)
    ck.sample({"history": hist[-1][1]})
    ck.sample({"literal": lits[len(lits) // 2]})
    ck.assumptions.append("NaN payloads are not compared (they pass through Python floats)")


def replay(ck, case):
    fn = case_lit if case[0] == "lit" else case_hist
    try:
        fn((case[0], tuple(case[1]) if isinstance(case[1], list) else case[1], *case[2:]))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

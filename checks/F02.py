"""F02: mutation of inputs and buffers survives import.

Enumerates every statement sequence up to a depth over an alphabet of in-place
updates of two inputs and two buffers (interleaved with reads), exports it,
imports it with mutation support, executes the imported IR and compares
outputs, final input contents and stored buffer contents with eager PyTorch.
"""
import itertools

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from mc.core import Violation
from mc.interp import Interp, same, short

ID = "F02"
LEVEL = "model_checking"
RULE = ("state = a sequence of in-place statements (with the return form); transition = one "
        "statement; every sequence is exported, imported and executed")

ST = [
    ("x0.add_(1)", lambda s, e: e["x0"].add_(1)),
    ("x0.mul_(x1)", lambda s, e: e["x0"].mul_(e["x1"])),
    ("x0.copy_(x1)", lambda s, e: e["x0"].copy_(e["x1"])),
    ("x1.copy_(x0)", lambda s, e: e["x1"].copy_(e["x0"])),
    ("x1.sub_(b0)", lambda s, e: e["x1"].sub_(s.b0)),
    ("b0.add_(x0)", lambda s, e: s.b0.add_(e["x0"])),
    ("b0.copy_(x1)", lambda s, e: s.b0.copy_(e["x1"])),
    ("b1.mul_(2)", lambda s, e: s.b1.mul_(2)),
    ("b1.copy_(b0)", lambda s, e: s.b1.copy_(s.b0)),
    ("x0.copy_(b1)", lambda s, e: e["x0"].copy_(s.b1)),
    ("t=x0+b0", lambda s, e: e.__setitem__("t", e["x0"] + s.b0)),
    ("x1[0]=t", lambda s, e: e["x1"].__getitem__(0).copy_(e["t"][1])),
    ("n.add_(x1)", lambda s, e: s.n.add_(e["x1"])),
    ("c.add_(1)", lambda s, e: s.c.add_(1)),
]
RET = {
    "t": lambda s, e: (e["t"] * 2,),
    "x0": lambda s, e: (e["x0"] * 1.0, e["t"]),
    "bufs": lambda s, e: (s.b0 + s.b1, e["x1"] - 1, s.c + 0),
    "t,t": lambda s, e: (e["t"] * 3, e["t"], 5),
}


class Mod(torch.nn.Module):
    def __init__(self, seq, ret):
        super().__init__()
        self.seq, self.ret = seq, ret
        self.register_buffer("b0", torch.tensor([[1.0, 2.0], [3.0, 4.0]]))
        self.register_buffer("b1", torch.tensor([[-1.0, 0.5], [2.0, 8.0]]))
        self.register_buffer("c", torch.tensor(4))
        self.register_buffer("n", torch.tensor([[0.25, 0.5], [0.75, 1.5]]), persistent=False)
        self.w = torch.nn.Parameter(torch.tensor([[2.0, 1.0], [1.0, 2.0]]))

    def forward(self, x0, x1):
        e = {"x0": x0, "x1": x1, "t": x0 * self.w}
        for i in self.seq:
            ST[i][1](self, e)
        return RET[self.ret](self, e)


X0 = torch.tensor([[0.5, -1.5], [2.5, 7.0]])
X1 = torch.tensor([[3.0, 0.25], [-4.0, 1.0]])
BUFS = ("b0", "b1", "c", "n")


def name(c):
    return "; ".join(ST[i][0] for i in c[0]) + f" -> {c[1]}"


def case(c):
    from torch_mlir import fx, ir
    from torch_mlir.extras.fx_importer import FxImporter, FxImporterHooks
    from torch_mlir.dialects import torch as torch_d

    seq, ret = c
    ref = Mod(seq, ret)
    rx = [X0.clone(), X1.clone()]
    with torch.no_grad():
        exp = list(ref(*rx))
    exp = [x.clone() if isinstance(x, torch.Tensor) else x for x in exp]

    class Hooks(FxImporterHooks):
        def store_produced_value(self, gni, py_value, produced_ir_value, info):
            ir.Operation.create(
                "x.store", operands=[produced_ir_value],
                attributes={"name": ir.StringAttr.get(info.input_spec.target)})

    mod = Mod(seq, ret)
    prog = torch.export.export(mod, (X0.clone(), X1.clone()), strict=False)
    from torch._export.verifier import SpecViolationError

    try:
        m = fx.export_and_import(prog, experimental_support_mutation=True, hooks=Hooks())
    except SpecViolationError:
        return -1  # PyTorch itself cannot represent this program (checked by its verifier)
    m.operation.verify()
    state = {}

    def store(it, op, a):
        nm = op.attributes["name"].value
        if nm in state:
            raise Violation(f"double-store:{name(c)}", f"buffer {nm} stored twice\n{m}")
        state[nm] = a[0].clone()
        return []

    gx = [X0.clone(), X1.clone()]
    got = Interp(m, hooks={"x.store": store}).call("main", gx)
    if not same(got, exp):
        raise Violation(f"outputs:{name(c)}", f"got {[short(x) for x in got]} expected "
                        f"{[short(x) for x in exp]}\n{m}")
    for n, a, b in zip(("x0", "x1"), gx, rx):
        if not same(a, b):
            raise Violation(f"input:{name(c)}", f"final {n} is {short(a)}, expected {short(b)}\n{m}")
    for b in BUFS:
        init = getattr(Mod(seq, ret), b)
        fin = getattr(ref, b)
        have = state.get(b, init)
        if not same(have, fin):
            raise Violation(f"buffer:{name(c)}", f"final {b} is {short(have)}, expected "
                            f"{short(fin)}\n{m}")
    return len(state)


def cases(thorough):
    n = range(len(ST))
    out = []
    for d in ((1, 2, 3) if thorough else (1, 2)):
        for s in itertools.product(n, repeat=d):
            for r in (RET if d < 3 else ("bufs",)):
                if not thorough and d == 2 and r not in ("bufs", "t"):
                    continue
                out.append((s, r))
    if not thorough:
        core = [0, 2, 3, 5, 8]
        out += [(s, "bufs") for s in itertools.product(core, repeat=3)]
    return out


def run(ck):
    cs = cases(ck.thorough)
    for s, r in cs:
        for k in range(len(s) + 1):
            ck.state((s[:k], r if k == len(s) else None))
        ck.transitions += len(s)
    info = ck.run_cases(cs, case, name, chunk=4)
    ck.extra["programs_with_buffer_stores"] = sum(1 for i in info if i and i > 0)
    ck.extra["programs_rejected_by_torch_export"] = sum(1 for i in info if i == -1)
    ck.traces -= ck.extra["programs_rejected_by_torch_export"]
    ck.sample(name(cs[len(cs) // 2]))
    ck.assumptions.append("MLIR bindings replaced by an executable stand-in (mc/fakemlir.py)")


def replay(ck, case_):
    try:
        case((tuple(case_[0]), case_[1]))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

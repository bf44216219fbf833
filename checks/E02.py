"""E02: a trace holds what each call took and returned, whatever happens later.

Histories: every sequence (to the bound) of calls into a stateful program - calls
that return fresh values, views, their input, the program's own state, nested
containers, calls into submodules, calls that update inputs or state in place -
and of updates by the caller to its own tensors and to results it got back.  For
each, the recorded golden trace is compared with an independent recording made by
deep-copying at the time of each call, and is replayed through the native and
TorchScript configurations, which must return the same trace and leave the golden
one alone.
"""
import copy
import itertools

from mc import env

env.install_fake_mlir()

torch = env.quiet_torch()
from typing import Dict, List, Tuple

from mc.core import Violation

ID = "E02"
LEVEL = "model_checking"
RULE = ("state = a history of calls and caller updates; transition = one call recorded by the real tracer (and "
        "replayed by a real configuration), compared with a deep-copying recorder")


class Sub(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.register_buffer("acc", torch.tensor([0.5, 1.5]))

    def forward(self, x):
        self.acc.add_(x)
        return self.acc

    @torch.jit.export
    def peek(self):
        return self.acc[:1]


class Deep(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.inner = Sub()

    def forward(self, x):
        return self.inner(x) * 2


class P(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.register_buffer("buf", torch.tensor([1.0, 2.0]))
        self.sub = Sub()
        self.deep = Deep()
        self.count = 0

    def forward(self, x):
        return x * 2 + self.buf

    @torch.jit.export
    def state(self, x):
        self.buf.add_(x)
        return self.buf

    @torch.jit.export
    def inplace(self, x):
        x.add_(1)
        return x

    @torch.jit.export
    def view(self, x):
        return x[:1]

    @torch.jit.export
    def mixed(self, x):
        self.buf.mul_(2)
        return x, [self.buf, x + 1]

    @torch.jit.export
    def dic(self, x) -> Dict[str, torch.Tensor]:
        self.buf.sub_(1)
        return {"a": self.buf, "b": x}

    @torch.jit.export
    def ints(self, n: int):
        self.count += n
        return self.count

    @torch.jit.export
    def lists(self, xs: List[torch.Tensor]):
        xs[0].add_(1)
        xs.append(xs[0])
        return xs

    @torch.jit.export
    def tup(self, t: Tuple[torch.Tensor, int]):
        t[0].mul_(2)
        return t

    @torch.jit.export
    def dct(self, d: Dict[str, torch.Tensor]):
        d["n"] = d["k"].add_(1)
        return d

    @torch.jit.export
    def strs(self, s: str, f: float):
        return s + "!", f * 2

    @torch.jit.export
    def two(self, x, y):
        x.add_(y)
        return y, x


# letters: (method path, args), args from the caller's tensors A, B, the last result R, or literals
CALLS = {
    "forward(A)": ("forward", ("A",)), "state(A)": ("state", ("A",)), "inplace(A)": ("inplace", ("A",)),
    "view(A)": ("view", ("A",)), "mixed(B)": ("mixed", ("B",)), "dic(A)": ("dic", ("A",)), "ints": ("ints", (3,)),
    "lists": ("lists", (["A", "B"],)), "tup": ("tup", (("A", 1),)), "dct": ("dct", ({"k": "B"},)),
    "strs": ("strs", ("x", 1.5)), "two(A,B)": ("two", ("A", "B")), "sub(A)": ("sub.forward", ("A",)),
    "sub.peek": ("sub.peek", ()), "deep(A)": ("deep.forward", ("A",)), "deep.inner(B)": ("deep.inner.forward", ("B",)),
}
# only for the recording (a replay from the trace cannot know that two arguments, or an
# argument and the program's state, were one tensor)
ALIASED = {"two(A,A)": ("two", ("A", "A")), "inplace(R)": ("inplace", ("R",)), "state(R)": ("state", ("R",))}
UPDATES = {"A+=": "A", "B*=": "B"}
UPDATES_R = {"R+=": "R"}


def resolve(v, env_):
    if isinstance(v, str) and v in env_:
        return env_[v]
    if isinstance(v, tuple):
        return tuple(resolve(x, env_) for x in v)
    if isinstance(v, list):
        return [resolve(x, env_) for x in v]
    if isinstance(v, dict):
        return {k: resolve(x, env_) for k, x in v.items()}
    return v


def first_tensor(v):
    if isinstance(v, torch.Tensor):
        return v
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, (list, tuple)):
        for x in v:
            t = first_tensor(x)
            if t is not None:
                return t
    return None


def invoker(hist, log=None, copy_result=True):
    """the test's invoker; log: an independent recording"""

    def go(module, tu):
        e = {"A": torch.tensor([1.0, -1.0]), "B": torch.tensor([3.0, 0.25]), "R": torch.tensor([7.0, 7.0])}
        for letter in hist:
            if letter in UPDATES:
                e[UPDATES[letter]].mul_(3).add_(1)
                continue
            if letter in UPDATES_R:
                e["R"].mul_(5).add_(1)
                continue
            path, args = CALLS.get(letter) or ALIASED[letter]
            args = resolve(args, e)
            f = module
            for part in path.split("."):
                f = getattr(f, part)
            if log is not None:
                before = copy.deepcopy(list(args))
            r = f(*args)
            if log is not None:
                log.append((path, before, copy.deepcopy(r) if copy_result else r))
            t = first_tensor(r)
            if t is not None and t.shape == (2,):
                e["R"] = t

    return go


def eq(a, b):
    if isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if isinstance(b, (tuple, list)):
        return isinstance(a, tuple) == isinstance(b, tuple) and isinstance(a, (tuple, list)) and len(a) == len(
            b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(eq(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b


def as_list(trace):
    return [(i.symbol, list(i.inputs), i.output) for i in trace]


def diff(got, want):
    if len(got) != len(want):
        return f"{len(got)} items, {len(want)} calls made"
    for i, (g, w) in enumerate(zip(got, want)):
        for what, x, y in zip(("symbol", "inputs", "output"), g, w):
            if not eq(x, y):
                return f"item {i} ({w[0]}): {what} {x}, at the time of the call {y}"
    return None


class Item:
    def __init__(self, symbol, inputs, output):
        self.symbol, self.inputs, self.output = symbol, inputs, output


def alias_recording(hist):
    """The golden trace given the recorded defect golden-alias: outputs are not copied."""
    log = []
    invoker(hist, log, copy_result=False)(P(), None)
    return log


def alias_replay(golden, script):
    """A configuration given the recorded defect replay-alias: inputs and outputs are not copied.

    -> (the trace it returns, the golden trace afterwards)"""
    g = [Item(i.symbol, copy.deepcopy(i.inputs), copy.deepcopy(i.output)) for i in golden]
    m = torch.jit.script(P()) if script else P()
    out = []
    for i in g:
        f = m
        for part in i.symbol.split("."):
            f = getattr(f, part)
        out.append(Item(i.symbol, i.inputs, f(*i.inputs)))
    return out, g


def case_history(c):
    from torch_mlir_e2e_test.configs.native_torch import NativeTorchTestConfig
    from torch_mlir_e2e_test.configs.torchscript import TorchScriptTestConfig
    from torch_mlir_e2e_test.framework import Test, TestUtils, clone_trace, generate_golden_trace
    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport
    from torch_mlir_e2e_test.framework import TestResult, compile_and_run_test

    hist, configs = c
    key = " ".join(hist)
    kn = set()
    want = []
    p = P()
    invoker(hist, want)(p, None)
    test = Test("t", P, invoker(hist), 100)
    golden = generate_golden_trace(test)
    d = diff(as_list(golden), want)
    if d:
        want = alias_recording(hist)
        if diff(as_list(golden), want):
            raise Violation(f"golden:{key}", f"history {key}: golden trace {d}")
        kn.add("golden-alias")
    cl = clone_trace(golden)
    d = diff(as_list(cl), want)
    if d:
        raise Violation(f"clone:{key}", f"history {key}: copy of the golden trace: {d}")
    # nothing of a copy is shared with the original
    for i in cl:
        for t in tensors((i.inputs, i.output)):
            t.fill_(99.0)
    if not kn:
        d = diff(as_list(golden), want)
        if d:
            raise Violation(f"clone:{key}", f"history {key}: a copied trace shares memory with its source: {d}")
    n = len(want)
    for cname in configs:
        cfg = {"native": NativeTorchTestConfig, "script": TorchScriptTestConfig}[cname]()
        art = cfg.compile(P())
        if kn:
            golden = generate_golden_trace(test)
            want = [(i.symbol, copy.deepcopy(i.inputs), copy.deepcopy(i.output)) for i in golden]
        ref, ref_golden = alias_replay(golden, cname == "script")
        try:
            got = cfg.run(art, golden)
        except Exception as ex:
            if cname == "native" and isinstance(ex, AttributeError) and any("." in CALLS[x][0] for x in hist if x in CALLS):
                kn.add("native-submodule")
                continue
            raise Violation(f"{cname}:{key}", f"history {key}: {cname} configuration: {type(ex).__name__}: {ex}")
        d = diff(as_list(got), want)
        dg = diff(as_list(golden), want)
        if (d or dg) and not diff(as_list(got), as_list(ref)) and not diff(as_list(golden), as_list(ref_golden)):
            kn.add("replay-alias")
            continue
        if d:
            raise Violation(f"{cname}:{key}", f"history {key}: trace returned by the {cname} configuration: {d}")
        if dg:
            raise Violation(f"{cname}-golden:{key}", f"history {key}: running the {cname} configuration changed the "
                            f"golden trace: {dg}")
        n += len(want)
        if kn:
            continue
        r = compile_and_run_test(test, cfg)
        if r.compilation_error or r.runtime_error:
            raise Violation(f"{cname}:{key}", f"history {key}: {r.compilation_error or r.runtime_error}")
        for nm, tr in (("golden trace", r.golden_trace), ("trace", r.trace)):
            d = diff(as_list(tr), want)
            if d:
                raise Violation(f"{cname}:{key}", f"history {key}: {nm} in the test result of {cname}: {d}")
        if SingleTestReport(r, ErrorContext.empty()).failed:
            raise Violation(f"{cname}:{key}", f"history {key}: {cname}: identical program reported as failed")
        n += 2 * len(want)
    return n, tuple(kn)


def tensors(v):
    if isinstance(v, torch.Tensor):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from tensors(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from tensors(x)


def case_random(c):
    """The inputs a test draws do not depend on what ran before it."""
    from torch_mlir_e2e_test.framework import Test, TestUtils, generate_golden_trace

    draws, pre = c

    def inv(m, tu):
        for d in draws:
            m.forward({"rand": lambda: tu.rand(2), "lohi": lambda: tu.rand(3, 2, low=-2.0, high=-1.0),
                       "randint": lambda: tu.randint(4, high=3), "lohi_i": lambda: tu.randint(2, 2, low=5, high=7),
                       "i32": lambda: tu.randint(3, dtype=torch.int32), "nans": lambda: tu.nans(2)}[d]())

    class M(torch.nn.Module):
        def forward(self, x):
            return x

    t = Test("t", M, inv, 100)
    torch.manual_seed(12345)
    ref = generate_golden_trace(t)
    torch.manual_seed(777)
    for _ in range(pre):
        torch.rand(3)
    got = generate_golden_trace(t)
    for i, (a, b) in enumerate(zip(ref, got)):
        if not torch.equal(torch.nan_to_num(a.inputs[0].double()), torch.nan_to_num(b.inputs[0].double())):
            raise Violation(f"seed:{draws}", f"draws {draws}: input {i} depends on the generator's earlier state")
    for d, it in zip(draws, got):
        x = it.inputs[0]
        ok = {"rand": lambda: x.shape == (2,) and (0 <= x).all() and (x < 1).all() and x.dtype == torch.float32,
              "lohi": lambda: x.shape == (3, 2) and (-2 <= x).all() and (x < -1).all(),
              "randint": lambda: x.shape == (4,) and (0 <= x).all() and (x < 3).all() and x.dtype == torch.int64,
              "lohi_i": lambda: x.shape == (2, 2) and (5 <= x).all() and (x < 7).all(),
              "i32": lambda: x.dtype == torch.int32 and x.shape == (3,), "nans": lambda: torch.isnan(x).all()}[d]()
        if not ok:
            raise Violation(f"draw:{d}", f"{d} drew {x}")
    return len(draws), ()


KNOWN = {"golden-alias": "the golden trace does not copy a call's output",
         "replay-alias": "the native and TorchScript configurations do not copy inputs and outputs",
         "native-submodule": "the native configuration cannot replay calls into submodules"}


def dispatch(c):
    return case_history(c[1]) if c[0] == "h" else case_random(c[1])


def run(ck):
    main_l = list(CALLS) + list(UPDATES)
    all_l = main_l + list(ALIASED) + list(UPDATES_R)
    cases = []
    for n in range(0, 4 if not ck.thorough else 5):
        core = main_l if n <= 3 else main_l[:6] + ["sub(A)", "A+="]
        full = all_l if n <= 3 else []
        for hst in itertools.product(full or core, repeat=n):
            replayable = all(x in main_l for x in hst)
            cf = ()
            if replayable:
                cf = ("native", "script") if n <= (2 if not ck.thorough else 3) else ("native",)
            cases.append(("h", (hst, cf)))
    draws = ["rand", "lohi", "randint", "lohi_i", "i32", "nans"]
    for n in (1, 2, 3):
        for d in itertools.product(draws, repeat=n):
            for pre in (0, 1, 5):
                cases.append(("r", (d, pre)))
    infos = ck.run_cases(cases, dispatch)
    for k in sorted({k for i in infos if i for k in i[1]}):
        ck.violation(k, KNOWN[k])
    ck.transitions = sum(i[0] for i in infos if i)
    ck.extra["histories"] = sum(c[0] == "h" for c in cases)
    ck.extra["replayed_through_configs"] = sum(len(c[1][1]) for c in cases if c[0] == "h")
    ck.extra["letters"] = len(all_l)
    ck.sample({"history": cases[300][1][0]})
    ck.sample({"history": cases[5000][1][0]})

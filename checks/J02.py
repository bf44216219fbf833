"""J02: an imported module holds the object graph TorchScript holds, and stays in step with it.

Three enumerations, each against TorchScript's own execution of the same scripted module:
  graph  every ordered pair of attribute values from a pool (numbers, strings, tensors, containers,
         parameters, submodules, shared or not) in two layouts, and every value in two instances of
         one class and in one instance held twice; every attribute is read, mutated and read again
  hist   every sequence of method calls up to a depth on modules whose methods link, unlink and mutate
         shared state, with the import made at every point of the sequence
  ann    every sequence up to a depth of annotator calls against a model of it: which attributes and
         methods are private, which arguments carry which type bound
"""
import io
import itertools
import linecache
import math

import torch

from mc import fakecapi as C, fakemlir as F, jitir as J
from mc.core import Violation
from mc.interp import InterpError, TypeSoundness, same, short

ID = "J02"
LEVEL = "model_checking"
RULE = ("state = (module, calls made so far on it or annotator calls made on its class); transition = one method call, "
        "one mutation of an attribute or one annotator call, on the imported module and in TorchScript")

HEAD = '''import torch
from torch import nn
from typing import *
class NT(NamedTuple):
    t: torch.Tensor
    n: int
class Leaf(nn.Module):
    n: int
    def __init__(self, t):
        super().__init__()
        self.t = t
        self.n = 0
    def forward(self):
        return self.t * 2 + self.n
    @torch.jit.export
    def mut(self):
        self.n += 1
        self.t.add_(1)
class Par(nn.Module):
    k: float
    def __init__(self, k):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([k, 2.0]), requires_grad=False)
        self.register_buffer("b", torch.tensor([3, 4]))
        self.k = k
    def forward(self):
        return self.w * self.k + self.b
    @torch.jit.export
    def mut(self):
        self.b.mul_(2)
        self.w.sub_(1.0)
        self.k = self.k * 2.0
class Ro(nn.Module):
    def __init__(self, l, t):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([5.0, 2.0]))
        self.register_buffer("b", torch.tensor([3, 4]))
        self.t = t
        self.l = l
    def forward(self):
        return self.w * self.t + self.b
class Up(nn.Module):
    def __init__(self, l, p):
        super().__init__()
        self.l = l
        self.p = p
    def forward(self):
        return self.l() + self.p()
    @torch.jit.export
    def mut(self):
        self.l.mut()
        self.p.mut()
class Opt(nn.Module):
    def __init__(self, v):
        super().__init__()
        self.l = v
    def forward(self):
        if self.l is not None:
            return self.l()
        else:
            return torch.zeros(1)
    @torch.jit.export
    def mut(self):
        if self.l is not None:
            self.l.mut()
'''


class Cells:
    """the objects which several attributes may share"""

    def __init__(self, ns):
        self.ns, self.made = ns, {}

    def __getattr__(self, k):
        if k not in self.made:
            self.made[k] = getattr(self, "make_" + k)()
        return self.made[k]

    def make_t0(self):
        return torch.tensor([1.5, -2.0])

    def make_t1(self):
        return torch.tensor([3.0, 4.0])

    def make_view(self):
        return self.t0.view(1, 2)

    def make_par(self):
        return torch.nn.Parameter(self.t0, requires_grad=False)

    def make_l0(self):
        return self.ns["Leaf"](self.t0)

    def make_l1(self):
        return self.ns["Leaf"](self.t1)

    def make_r(self):
        return self.ns["Ro"](None, self.t1)

    def make_p(self):
        return self.ns["Par"](0.5)


# name: (annotation or None, value, reading, mutation or None, tensors held)
POOL = {
    "int": ("int", lambda c: 1, "{}", "{0} = {0} + 1", ""),
    "zero": ("int", lambda c: 0, "{}", "{0} = {0} - 1", ""),
    "big": ("int", lambda c: -2 ** 63, "{}", None, ""),
    "true": ("bool", lambda c: True, "{}", "{0} = not {0}", ""),
    "false": ("bool", lambda c: False, "{}", "{0} = not {0}", ""),
    "one": ("float", lambda c: 1.0, "{}", "{0} = {0} * 2", ""),
    "pzero": ("float", lambda c: 0.0, "{}", None, ""),
    "nzero": ("float", lambda c: -0.0, "{}", None, ""),
    "nan": ("float", lambda c: math.nan, "{}", None, ""),
    "ninf": ("float", lambda c: -math.inf, "{}", None, ""),
    "tiny": ("float", lambda c: 5e-324, "{}", None, ""),
    "str": ("str", lambda c: "x", "{}", "{0} = {0} + '!'", ""),
    "empty_str": ("str", lambda c: "", "{}", "{0} = {0} + '?'", ""),
    "odd_str": ("str", lambda c: "é\"\\\n%\t", "{}", None, ""),
    "none": ("None", lambda c: None, "{}", None, ""),
    "opt_none": ("Optional[int]", lambda c: None, "{}", "{} = 4", ""),
    "opt_int": ("Optional[int]", lambda c: 7, "{}", "{} = None", ""),
    "opt_t": ("Optional[torch.Tensor]", lambda c: c.t0, "{}", "{} = None", "t0"),
    "opt_tn": ("Optional[torch.Tensor]", lambda c: None, "{}", "{} = torch.ones(2)", ""),
    "union": ("Union[int, str]", lambda c: "u", "{}", "{} = 5", ""),
    "t0": (None, lambda c: c.t0, "{}", "{}.add_(1)", "t0"),
    "t1": (None, lambda c: c.t1, "{}", "{}.mul_(3)", "t1"),
    "view": (None, lambda c: c.view, "{}", "{}.sub_(1)", "view"),
    "par": (None, lambda c: c.par, "{}", "{}.add_(2)", "par"),
    "buf": (None, lambda c: c.t1, "{}", "{}.sub_(1)", "t1"),
    "long": (None, lambda c: torch.tensor([[1], [2 ** 40]]), "{}", "{}.neg_()", ""),
    "boolt": (None, lambda c: torch.tensor([True, False]), "{}", "{}.logical_not_()", ""),
    "scalart": (None, lambda c: torch.tensor(2.5, dtype=torch.float64), "{}", "{}.add_(1)", ""),
    "emptyt": (None, lambda c: torch.empty(0, 3), "{}", None, ""),
    "strided": (None, lambda c: torch.arange(6.).reshape(2, 3).t(), "{}", "{}[0].add_(1)", ""),
    "half": (None, lambda c: torch.tensor([1.5, -0.0, math.inf], dtype=torch.float16), "{}", "{}.add_(1)", ""),
    "qt": (None, lambda c: torch.quantize_per_tensor(torch.tensor([1.0, -2.0]), 0.5, 3, torch.qint8), "{}.int_repr()", None, ""),
    "qc": (None, lambda c: torch.quantize_per_channel(torch.ones(2, 2), torch.ones(2), torch.zeros(2), 0, torch.qint8),
           "{}.int_repr()", None, ""),
    "ints": ("List[int]", lambda c: [1, 2], "{}", "{}.append(3)", ""),
    "no_ints": ("List[int]", lambda c: [], "{}", "{}.append(3)", ""),
    "floats": ("List[float]", lambda c: [0.0, -0.0], "{}", "{}.pop()", ""),
    "bools": ("List[bool]", lambda c: [True, False, True], "{}", "{}.reverse()", ""),
    "strs": ("List[str]", lambda c: ["x", "", "x"], "{}", "{}[0] = 'q'", ""),
    "tensors": ("List[torch.Tensor]", lambda c: [c.t0, c.t1, c.t0], "{}", "{}[0].add_(1)", "t0 t1"),
    "tlist": ("List[torch.Tensor]", lambda c: [c.t1], "{}", "{0}.append({0}[0])", "t1"),
    "no_ts": ("List[torch.Tensor]", lambda c: [], "{}", "{}.append(torch.ones(1))", ""),
    "opts": ("List[Optional[int]]", lambda c: [None, 3], "{}", "{}.append(None)", ""),
    "nested": ("List[List[int]]", lambda c: [[1], [], [1]], "{}", "{}[0].append(5)", ""),
    "tnest": ("List[List[torch.Tensor]]", lambda c: [[c.t0], [c.t0]], "{}", "{}[1].clear()", "t0"),
    "ltup": ("List[Tuple[int, str]]", lambda c: [(1, "x"), (2, "y")], "{}", "{}.append((3, 'z'))", ""),
    "dict": ("Dict[str, int]", lambda c: {"b": 2, "a": 1}, "{}", "{}['c'] = 3", ""),
    "no_dict": ("Dict[str, int]", lambda c: {}, "{}", "{}['c'] = 3", ""),
    "idict": ("Dict[int, float]", lambda c: {3: -0.0, 1: 0.0}, "{}", "{}[1] = 2.0", ""),
    "tdict": ("Dict[str, torch.Tensor]", lambda c: {"x": c.t0, "y": c.t1}, "{}", "{}['x'].add_(1)", "t0 t1"),
    "ldict": ("Dict[str, List[int]]", lambda c: {"x": [1], "y": [1]}, "{}", "{}['x'].append(4)", ""),
    "tup": ("Tuple[int, torch.Tensor]", lambda c: (1, c.t0), "{}", "{}[1].add_(1)", "t0"),
    "tupl": ("Tuple[int, List[int]]", lambda c: (1, [2]), "{}", "{}[1].append(7)", ""),
    "tupd": ("Tuple[str, Dict[str, torch.Tensor]]", lambda c: ("x", {"k": c.t1}), "{}", "{}[1]['k'].add_(1)", "t1"),
    "tup1": ("Tuple[float]", lambda c: (-0.0,), "{}", "{} = (1.0,)", ""),
    "tup1p": ("Tuple[float]", lambda c: (0.0,), "{}", "{} = (1.0,)", ""),
    "tupt": ("Tuple[Tuple[int, int], bool]", lambda c: ((1, 2), True), "{}", "{} = ((3, 4), False)", ""),
    "tupo": ("Tuple[Optional[int], Optional[str]]", lambda c: (None, "s"), "{}", "{} = (1, None)", ""),
    "ntup": ("NT", lambda c: c.ns["NT"](c.t0, 3), "({0}.t, {0}.n)", "{}.t.add_(1)", "t0"),
    "ro": (None, lambda c: c.ns["Ro"](None, c.t0), "{}()", None, "t0"),
    "ro2": (None, lambda c: torch.nn.ModuleList([c.r, c.ns["Ro"](c.r, c.t0), c.ns["Ro"](c.r, c.t1)]),
            "[m() for m in {}]", None, "t0 t1"),
    "leaf0": (None, lambda c: c.l0, "{}()", "{}.mut()", "t0"),
    "leaf1": (None, lambda c: c.l1, "{}()", "{}.mut()", "t1"),
    "pmod": (None, lambda c: c.p, "{}()", "{}.mut()", ""),
    "up": (None, lambda c: c.ns["Up"](c.l0, c.p), "{}()", "{}.mut()", "t0"),
    "mlist": (None, lambda c: torch.nn.ModuleList([c.l0, c.l1, c.l0]), "[m() for m in {}]", "{}[0].mut()", "t0 t1"),
    "mdict": (None, lambda c: torch.nn.ModuleDict({"x": c.l1, "y": c.p}), "({0}['x'](), {0}['y']())", "{}['y'].mut()", "t1"),
    "seq": (None, lambda c: torch.nn.Sequential(torch.nn.ReLU(), torch.nn.Flatten(0)), "{}(torch.ones(1, 2))", None, ""),
    "optm": (None, lambda c: c.ns["Opt"](c.l0), "{}()", "{}.mut()", "t0"),
    "optn": (None, lambda c: c.ns["Opt"](None), "{}()", "{}.mut()", ""),
    "device": (None, lambda c: torch.device("cpu"), "{}", None, ""),
    "complex": (None, lambda c: 1 + 2j, "{}", None, ""),
}
MUTABLE_MODULES = {"leaf0", "leaf1", "pmod", "up", "mlist", "mdict", "seq", "optm"}
MAY_REFUSE = {"qc", "device", "complex"}
SHARE = [("t0", "view"), ("t0", "par"), ("view", "par")]
LAYOUTS = {
    "flat": ('''class Root(nn.Module):
{A}{B}    def __init__(self, v, w):
        super().__init__()
        self.a = v
        self.b = w
    def forward(self):
        return ({RA}, {RB})
    @torch.jit.export
    def mut(self):
        {MA}
    @torch.jit.export
    def mutb(self):
        {MB}
''', "self.a", "self.b"),
    "child": ('''class Kid(nn.Module):
{B}    def __init__(self, w):
        super().__init__()
        self.b = w
    def forward(self):
        return {RK}
    @torch.jit.export
    def mut(self):
        {MK}
class Root(nn.Module):
{A}    def __init__(self, v, w):
        super().__init__()
        self.k = Kid(w)
        self.a = v
    def forward(self):
        return ({RA}, self.k())
    @torch.jit.export
    def mut(self):
        {MA}
    @torch.jit.export
    def mutb(self):
        self.k.mut()
''', "self.a", "self.k.b"),
    "twins": ('''class Kid(nn.Module):
{B}    def __init__(self, w):
        super().__init__()
        self.b = w
    def forward(self):
        return {RK}
    @torch.jit.export
    def mut(self):
        {MK}
class Root(nn.Module):
    def __init__(self, v, w):
        super().__init__()
        self.k = Kid(v)
        self.l = Kid(w)
        self.m = self.k
    def forward(self):
        return (self.k(), self.l(), self.m())
    @torch.jit.export
    def mut(self):
        self.k.mut()
    @torch.jit.export
    def mutb(self):
        self.m.mut()
        self.l.mut()
''', "", ""),
}

HIST = {
    # lists and tensors of one module
    "links": ('''class Root(nn.Module):
    a: List[int]
    b: List[int]
    n: int
    def __init__(self):
        super().__init__()
        self.a = [1, 2]
        self.b = [3]
        self.n = 0
        self.t = torch.tensor([1.0, 2.0])
        self.u = torch.tensor([3.0, 4.0])
    def forward(self):
        return (self.a, self.b, self.n, self.t, self.u)
    @torch.jit.export
    def link(self):
        self.b = self.a
    @torch.jit.export
    def fresh(self):
        self.a = [self.n]
    @torch.jit.export
    def grow(self):
        self.a.append(self.n)
        self.n += 1
    @torch.jit.export
    def tlink(self):
        self.u = self.t
    @torch.jit.export
    def tview(self):
        self.t = self.u[0:1]
    @torch.jit.export
    def tadd(self):
        self.t.add_(1)
    @torch.jit.export
    def swap(self):
        t = self.t
        self.t = self.u
        self.u = t
    @torch.jit.export
    def fail(self):
        self.n = 10
        if len(self.a) > 2:
            raise ValueError("too long")
        self.n = -10
''', ["link", "fresh", "grow", "tlink", "tview", "tadd", "swap", "fail"]),
    # containers of containers and of tensors
    "deep": ('''class Root(nn.Module):
    d: Dict[str, List[int]]
    l: List[List[int]]
    p: Tuple[int, List[int]]
    o: Optional[List[int]]
    ts: List[torch.Tensor]
    def __init__(self):
        super().__init__()
        self.d = {"x": [1]}
        self.l = [[2], [3]]
        self.p = (0, [5])
        self.o = None
        self.ts = [torch.tensor([1.0])]
    def forward(self):
        return (self.d, self.l, self.p, self.o, self.ts)
    @torch.jit.export
    def put(self):
        self.d["y"] = self.l[0]
    @torch.jit.export
    def tup(self):
        self.p = (len(self.l), self.l[-1])
    @torch.jit.export
    def opt(self):
        self.o = self.p[1]
    @torch.jit.export
    def more(self):
        o = self.o
        if o is not None:
            o.append(len(self.d))
        else:
            self.o = [9]
    @torch.jit.export
    def grow(self):
        self.l.append(self.d["x"])
    @torch.jit.export
    def poke(self):
        self.l[0].append(7)
        self.p[1].append(8)
    @torch.jit.export
    def same(self):
        self.ts.append(self.ts[0])
    @torch.jit.export
    def tadd(self):
        self.ts[-1].add_(1)
''', ["put", "tup", "opt", "more", "grow", "poke", "same", "tadd"]),
    # state in a shared submodule, methods calling methods
    "mods": ('''class Leaf2(nn.Module):
    n: int
    l: List[int]
    def __init__(self):
        super().__init__()
        self.n = 0
        self.l = [0]
        self.register_buffer("t", torch.zeros(2))
    def forward(self, k: int):
        self.n += k
        return self.t + self.n
    @torch.jit.export
    def give(self):
        return self.l
    @torch.jit.export
    def take(self, l: List[int]):
        self.l = l
class Mid(nn.Module):
    def __init__(self, leaf):
        super().__init__()
        self.leaf = leaf
        self.own = Leaf2()
    def forward(self, k: int):
        return self.leaf(k) + self.own(2 * k)
class Root(nn.Module):
    q: List[int]
    def __init__(self):
        super().__init__()
        l = Leaf2()
        self.x = Mid(l)
        self.y = Mid(l)
        self.z = nn.ModuleList([Leaf2(), l])
        self.q = []
    def forward(self):
        return (self.x.leaf.n, self.y.leaf.n, self.x.own.n, self.y.own.n, self.z[0].n, self.z[1].n, self.x.leaf.l,
                self.y.own.l, self.z[0].l, self.z[1].l, self.q, self.x.leaf.t, self.y.leaf.t, self.x.own.t)
    @torch.jit.export
    def step(self):
        self.q.append(int(self.x(1)[0]))
    @torch.jit.export
    def stepy(self):
        self.y(3)
    @torch.jit.export
    def pass_(self):
        self.z[0].take(self.x.leaf.give())
    @torch.jit.export
    def keep(self):
        self.q = self.z[0].give()
    @torch.jit.export
    def loop(self):
        for i, m in enumerate(self.z):
            m(i + 1)
            m.l.append(i)
    @torch.jit.export
    def buf(self):
        self.z[1].t.add_(1)
    @torch.jit.export
    def rebind(self):
        self.x.leaf.t = self.x.leaf.t + 1
''', ["step", "stepy", "pass_", "keep", "loop", "buf", "rebind"]),
}

ANN = '''class G(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.zeros(2)
    def forward(self, x):
        return x + self.w
class K(nn.Module):
    n: int
    def __init__(self):
        super().__init__()
        self.n = 3
        self.g = G()
    def forward(self, x, y: int):
        return self.g(x) + y
    @torch.jit.export
    def other(self, x, z):
        return x - z
class Root(nn.Module):
    s: str
    def __init__(self):
        super().__init__()
        self.s = "s"
        self.a = K()
        self.b = K()
        self.g = G()
        self.l = nn.ModuleList([G()])
    def forward(self, x):
        return self.a(x, 1) + self.b(x, 2) + self.g(x)
    @torch.jit.export
    def two(self, x, y):
        return self.a.other(x, y)
'''


def module(src, *args_of, key=[0]):
    """the scripted Root of a source text"""
    key[0] += 1
    name = f"<j02 {key[0]}>"
    src = HEAD + src
    linecache.cache[name] = (len(src), None, src.splitlines(True), name)
    ns = {"__name__": "j02"}
    try:
        exec(compile(src, name, "exec"), ns)
        c = Cells(ns)
        m = ns["Root"](*[f(c) for f in args_of])
        # a compilation unit of its own, as all modules scripted in a process share one
        buf = io.BytesIO()
        torch.jit.save(torch.jit.script(m), buf)
        buf.seek(0)
        return torch.jit.load(buf)
    finally:
        del linecache.cache[name]


def freeze(v):
    """a copy which later changes do not reach"""
    if isinstance(v, torch.Tensor):
        return v.clone()
    if isinstance(v, (list, tuple)):
        r = [freeze(x) for x in v]
        return r if isinstance(v, list) else tuple(r)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    return v


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(map(equal, a, b))
    if type(a) is float and type(b) is float:
        return str(a) == str(b)
    if type(a) is not type(b) and not isinstance(a, torch.Tensor):
        return False
    return same(a, b)


def run_ts(m, method):
    try:
        return True, getattr(m, method)()
    except Exception as e:
        return False, type(e).__name__


def tensors(v, out):
    if isinstance(v, torch.Tensor):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            tensors(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            tensors(x, out)
    return out


def aliased(m):
    """do two different tensors of the module's attributes share storage?"""
    ts = []
    for _, sub in itertools.chain([("", m)], m.named_modules()):
        names = [x for x in sub._c._type()._attributes()] if hasattr(sub._c._type(), "_attributes") else []
        for x in names or attribute_names(sub):
            v = getattr(sub, x, None)
            if not isinstance(v, torch.nn.Module):
                tensors(v, ts)
    by = {}
    for t in ts:
        by.setdefault(t.untyped_storage().data_ptr() if t.numel() else id(t), {})[id(t)] = t
    return any(len(x) > 1 for x in by.values())


def attribute_names(sub):
    c = sub._c
    return [n for n, _ in torch._C.ParameterDict(c).items()] + [n for n, _ in torch._C.BufferDict(c).items()] + \
        ["a", "b", "t", "u", "ts", "d", "l", "p", "o", "q", "n"]


def importer(m, opts, bad, annotator=None, refusable=False):
    try:
        mod = J.import_module(m, annotator, J.options(*opts))
    except J.ImportFailed as e:
        if refusable:
            return None
        bad("import", f"the importer refuses: {e}")
    except C.Crash as e:
        bad("crash", f"the importer would crash: {e}")
    try:
        J.verify(mod)
    except F.MLIRError as e:
        bad("invalid", f"invalid IR: {e}\n{mod}"[:2500])
    return mod


def machine(mod, bad):
    try:
        it = J.Jit(mod)
    except (InterpError, TypeSoundness) as e:
        bad("exec", f"the object graph cannot be built: {e}\n{mod}"[:2500])
    roots = it.root()
    if len(roots) != 1 or not roots[0].cls.endswith(".Root"):
        bad("root", f"objects nothing holds: {roots}")
    return it, roots[0]


def call(it, root, method, bad):
    it.steps = 0
    try:
        r = it.call_method(root, method, [])
        return True, r[0] if r else None
    except J.Raised as e:
        return False, str(e)
    except TypeSoundness as e:
        bad("type", f"{method}: {e}")
    except InterpError as e:
        bad("exec", f"{method}: {e}")


def step(m, it, root, method, bad, where):
    """one call on both sides"""
    a = run_ts(m, method) if m is not None else None
    b = call(it, root, method, bad)
    return a, b


# ---------------------------------------------------------------- graphs
def graph_source(layout, la, lb, mutate=True):
    text, ea, eb = LAYOUTS[layout]
    ta, _, ra, ma, _ = POOL[la]
    tb, _, rb, mb, _ = POOL[lb]

    def ann(n, t):
        return "" if t is None else f"    {n}: {t}\n"

    kid = "self.b"
    if not mutate:
        ma = mb = None
    return text.format(A=ann("a", ta), B=ann("b", tb), RA=ra.format(ea), RB=rb.format(eb), RK=rb.format(kid),
                       MA=ma.format(ea) if ma else "pass", MB=mb.format(eb) if mb else "pass",
                       MK=mb.format(kid) if mb else "pass")


def graph(layout, la, lb, opts):
    tag = f"{layout}/{la},{lb}:{'value' if opts[0] else 'ref'}"
    src = graph_source(layout, la, lb, not opts[0])

    def bad(what, msg):
        raise Violation(f"{what}:{tag}", f"{tag}: {msg}")

    m = module(src, POOL[la][1], POOL[lb][1])
    held = set(POOL[la][4].split()) | set(POOL[lb][4].split())
    alias = any(a in held and b in held for a, b in SHARE)
    refusable = alias or la in MAY_REFUSE or lb in MAY_REFUSE
    mod = importer(m, opts, bad, refusable=refusable)
    if mod is None:
        return {"runs": 0, "refused": 1}
    if alias:
        bad("alias", "two tensors which share storage are imported as if they did not")
    it, root = machine(mod, bad)
    runs = 0
    for method in ("forward",) if opts[0] else ("forward", "mut", "forward", "mutb", "forward", "mut", "forward"):
        ok, exp = run_ts(m, method)
        done, got = call(it, root, method, bad)
        if ok != done:
            bad("outcome", f"{method}: TorchScript {'returns' if ok else 'raises'} {exp}; imported: {got}")
        if ok and method == "forward" and not equal(got, exp):
            bad("state", f"after {runs} calls the imported module holds {short(got)}, TorchScript's {short(exp)}")
        runs += 1
    return {"runs": runs, "ops": it.ops_run}


# ---------------------------------------------------------------- histories
def hist(design, seq):
    src, _ = HIST[design]
    tag = f"{design}/{'.'.join(seq)}"
    m = module(src)
    live = []  # (imported at, machine, root)
    runs = 0

    def bad(what, msg):
        raise Violation(f"{what}:{tag}", f"{tag}: {msg}")

    for i in range(len(seq) + 1):
        ok, exp = run_ts(m, "forward")
        al = aliased(m)
        mod = importer(m, (False, False), bad, refusable=al)
        if mod is not None:
            if al:
                bad("alias", f"step {i}: two tensors which share storage are imported as if they did not")
            live.append((i, *machine(mod, bad)))
        for at, it, root in live:
            done, got = call(it, root, "forward", bad)
            if not done or not equal(got, exp):
                bad("state", f"imported after {at} calls, after {i} it holds {short(got)}, TorchScript's module {short(exp)}")
            runs += 1
        if i == len(seq):
            break
        ok, exp = run_ts(m, seq[i])
        for at, it, root in live:
            done, got = call(it, root, seq[i], bad)
            if ok != done:
                bad("outcome", f"imported after {at} calls, call {i + 1}: TorchScript {'returns' if ok else 'raises'} {exp}; "
                               f"imported: {got}")
            runs += 1
    return {"runs": runs, "ops": sum(it.ops_run for _, it, _ in live), "machines": len(live)}


# ---------------------------------------------------------------- annotations
AUTO = ["training", "_is_full_backward_hook"]


class AnnModel:
    CLASSES = {c: (a + AUTO, m) for c, (a, m) in {"Root": ("s a b g l".split(), ["forward", "two"]), "K": (["n", "g"], ["forward", "other"]),
               "G": (["w"], ["forward"]), "ModuleList": (["0"], ["__len__"])}.items()}
    KIDS = {("Root", "a"): "K", ("Root", "b"): "K", ("Root", "g"): "G", ("Root", "l"): "ModuleList", ("K", "g"): "G",
            ("ModuleList", "0"): "G"}
    ARITY = {("Root", "forward"): 2, ("Root", "two"): 3, ("K", "forward"): 3, ("K", "other"): 3, ("G", "forward"): 2,
             ("ModuleList", "__len__"): 1}

    def __init__(self):
        self.exported = {(c, x): True for c, (a, m) in self.CLASSES.items() for x in a + m}
        self.args = {}

    def walk(self, path, c="Root"):
        for p in path:
            c = self.KIDS.get((c, p))
            if c is None:
                raise KeyError
        return c

    def none(self, c):
        for x in self.CLASSES[c][0] + self.CLASSES[c][1]:
            self.exported[c, x] = False
        for (p, a), k in self.KIDS.items():
            if p == c:
                self.none(k)

    def do(self, op):
        """False when the call must fail"""
        kind, path, *rest = op
        if kind == "none":
            self.none(self.walk(path))
            return True
        if not path:
            return False
        try:
            c = self.walk(path[:-1])
        except KeyError:
            return False
        if kind == "path":
            if (c, path[-1]) not in self.exported:
                return False
            self.exported[c, path[-1]] = True
            return True
        if self.ARITY.get((c, path[-1])) != len(rest[0]):
            return False
        self.args[c, path[-1]] = rest[0]
        return True


f32, i64, b8 = torch.float32, torch.int64, torch.bool
ANN_OPS = [("none", ()), ("none", ("a",)), ("none", ("a", "g"))] + \
    [("path", tuple(p.split("."))) for p in ("forward", "two", "s", "a", "a.forward", "b.other", "b.n", "a.g", "g.forward",
                                              "b.g.w", "l.0.forward", "l.0")] + \
    [("path", ()), ("path", ("nope",)), ("path", ("s", "x")), ("path", ("a", "nope")), ("path", ("nope", "forward"))] + \
    [("args", ("forward",), (None, ((2, -1), f32, True))), ("args", ("forward",), (None, ((), i64, False))),
     ("args", ("forward",), (None, None)), ("args", ("forward",), (None, (None, f32, True))),
     ("args", ("two",), (None, ((3,), b8, False), ((-1, -1, 4), torch.float16, True))),
     ("args", ("a", "other"), (None, ((0,), torch.uint8, True), None)),
     ("args", ("b", "forward"), (None, ((5,), f32, True), None)), ("args", ("a", "g", "forward"), (None, ((1,), None, True))),
     ("args", ("g", "forward"), (None, ((7, 7), torch.float64, False))),
     ("args", ("forward",), (None,)), ("args", (), (None,)), ("args", ("nope",), (None,)), ("args", ("s",), (None,)),
     ("args", ("s", "forward"), (None,))]
MLIR_DT = {f32: "f32", i64: "si64", b8: "i1", torch.float16: "f16", torch.float64: "f64", torch.uint8: "ui8"}
SCRIPTED = {}


def scripted_ann():
    if "m" not in SCRIPTED:
        SCRIPTED["m"] = module(ANN)
    return SCRIPTED["m"]


def ann(seq, opts):
    m = scripted_ann()
    a, model = J.load().ClassAnnotator(), AnnModel()
    tag = f"ann/{'.'.join(str(i) for i in seq)}"
    root_t = m._c._type()

    def bad(what, msg):
        raise Violation(f"{what}:{tag}", f"annotator calls {[ANN_OPS[i] for i in seq]}: {msg}")

    def at(path):
        c = m
        for p in path:
            c = getattr(c, p)
        return c._c._type()

    for i in seq:
        op = ANN_OPS[i]
        want = model.do(op)
        try:
            if op[0] == "none":
                a.exportNone(at(op[1]))
            elif op[0] == "path":
                a.exportPath(root_t, list(op[1]))
            else:
                a.annotateArgs(root_t, list(op[1]), [None if x is None else (None if x[0] is None else list(x[0]), x[1], x[2])
                                                     for x in op[2]])
            ok = True
        except Exception as e:
            ok = False
        if ok != want:
            bad("accepts", f"{op} {'is accepted' if ok else 'is refused'}")
    mod = importer(m, opts, bad, a)
    if mod.operation.attributes["torch.debug_module_name"].value != "Root":
        bad("name", f"debug name {mod.operation.attributes['torch.debug_module_name']}")
    seen = set()
    for o in mod.body._ops:
        if o.name == "torch.class_type":
            c = F._sym(o).split(".")[-1]
            for x in o._regions[0]._blocks[0]._ops[:-1]:
                n = x.attributes["name"].value
                got = x.attributes.get("isPrivate") is None
                if got != model.exported[c, n]:
                    bad("private", f"{n} of {c} is {'exported' if got else 'private'}")
                seen.add((c, n))
                if x.name == "torch.method":
                    f = [y for y in mod.body._ops if y.name == "func.func" and F._sym(y) == x.attributes["function"].value][0]
                    args = model.args.get((c, n), [None] * model.ARITY[c, n])
                    attrs = f.attributes.get("arg_attrs")
                    got = [dict(y.items) if hasattr(y, "items") and not callable(y.items) else y for y in attrs.items] \
                        if attrs is not None else [{}] * len(args)
                    got = [str(y["torch.type_bound"].value) if "torch.type_bound" in y else None for y in got]
                    exp = []
                    for y in args:
                        if y is None or y[0] is None or y[1] is None:
                            exp.append(None)
                        else:
                            d = ",".join("?" if k == -1 else str(k) for k in y[0])
                            exp.append(f"!torch.{'v' if y[2] else ''}tensor<[{d}],{MLIR_DT[y[1]]}>")
                    if got != exp:
                        bad("bound", f"the arguments of {c}.{n} are bounded by {got}, not {exp}")
    if seen != set(model.exported):
        bad("members", f"{sorted(seen ^ set(model.exported))}")
    return {"runs": len(seq) + 1, "ops": 0}


def case(c):
    kind = c[0]
    if kind == "graph":
        return graph(*c[1:])
    if kind == "hist":
        return hist(*c[1:])
    return ann(*c[1:])


def run(ck):
    J.load()
    names = list(POOL)
    cases = []
    for a, b in itertools.product(names, repeat=2):
        cases.append(("graph", "flat", a, b, (False, False)))
        if ck.thorough or (names.index(a) + names.index(b)) % 2 == 0:
            cases.append(("graph", "child", a, b, (False, False)))
        if (ck.thorough or (names.index(a) + names.index(b)) % 3 == 0) and \
                not MUTABLE_MODULES & {a, b}:
            cases.append(("graph", "flat", a, b, (True, False)))
    cases += [("graph", "twins", a, a, (v, i)) for a in names for v in (False, True) for i in (False, True)
              if not (v and a in MUTABLE_MODULES)]
    n_graph = len(cases)
    for d, (_, methods) in HIST.items():
        for k in range(0, (4 if ck.thorough else 3) + 1):
            if k == (4 if ck.thorough else 3) or k == 0:
                cases += [("hist", d, s) for s in itertools.product(methods, repeat=k)]
    n_hist = len(cases) - n_graph
    for k in range(0, 4 if ck.thorough else 3):
        cases += [("ann", s, (False, False)) for s in itertools.product(range(len(ANN_OPS)), repeat=k)]
    if not ck.thorough:
        some = [0, 3, 7, 8, 10, 15, 18, 20, 24, 26, 27]
        cases += [("ann", s, (False, False)) for s in itertools.product(some, repeat=3)]
    cases += [("ann", (s,), (v, i)) for s in range(len(ANN_OPS)) for v in (False, True) for i in (False, True)]
    infos = ck.run_cases(cases, case, keyfn=lambda c: c, chunk=12)
    infos = [i for i in infos if i]
    runs = sum(i["runs"] for i in infos)
    ck.transitions = runs + len(cases)
    ck.n_states_extra = runs
    ck.extra.update(graphs=n_graph, histories=n_hist, annotator_sequences=len(cases) - n_graph - n_hist, calls=runs,
                    refused=sum(i.get("refused", 0) for i in infos), imports_along_histories=sum(i.get("machines", 0) for i in infos),
                    operations_executed=sum(i.get("ops", 0) for i in infos))
    ck.sample("graph flat/tupl,ints:\n" + graph_source("flat", "tupl", "ints"))
    ck.sample(f"pool: {' '.join(names)}")
    ck.assumptions += ["MLIR's C API is replaced by a Python model of it (mc/fakecapi.py)",
                       "PyTorch operators are executed by PyTorch itself",
                       "a module may be refused only if two of its tensors share storage, or it holds a device, a complex "
                       "number or a per-channel quantized tensor"]


def replay(ck, data):
    def tup(x):
        return tuple(map(tup, x)) if isinstance(x, list) else x
    print(case(tup(data)))
    return 0


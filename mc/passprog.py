"""Small programs over numbers, containers, branches and loops, and the judgement of what a pass leaves of them.

A program is a function in the JSON form mlirpass reads.  It is executed before and after the pass on every
assignment of the given values to its arguments.
"""
import copy
import itertools
import signal

import torch

from . import mlirpass as M
from .interp import InterpError, TypeSoundness, short

INF, NAN = float("inf"), float("nan")
DOMAIN = {
    "int": [-7, -2, -1, 0, 1, 2, 3, 2**53 + 1, -2**62 - 1],
    "float": [-2.5, -1.0, -0.5, 0.0, 0.5, 2.0, 3.0, INF, NAN, 1e300],
    "bool": [False, True],
    "number": [-7, 0, 2, 2**53 + 1, -2.5, 0.5, 3.0, NAN],
    "str": ["", "a", "cpu", "ab"],
    "List[int]": [[], [0], [1, 2], [2, 1, 2]],
    "List[t]": [[], [0], [1, 2], [2, 1, 2]],
    "List[bool]": [[], [True], [True, False], [False, False]],
    "List[str]": [[], ["a"], ["ab", "cpu"]],
    "Optional[int]": [None, -2, -1, 0, 1, 2],
    "Dict[str, t]": [{}, {"a": 1}, {"ab": 2, "a": 3}],
    "t": [0, None],
}
SMALL = [-2, -1, 0, 1, 2, 5]
MLIR = {"int": "int", "float": "float", "bool": "bool", "number": "number", "str": "str", "List[int]": "list<int>", "List[t]": "list<int>",
        "List[bool]": "list<bool>", "List[str]": "list<str>", "Optional[int]": "optional<int>", "Dict[str, t]": "dict<str, int>",
        "t": "optional<int>", "t1": "optional<int>", "t2": "optional<int>"}
DOMAIN["t1"] = DOMAIN["t2"] = DOMAIN["t"]


class PB(M.B):
    def __init__(self):
        super().__init__()
        self.doms = []

    def input(self, t, values):
        self.doms.append(values)
        return self.arg("!torch." + t if not t.startswith("!") else t)

    def one(self, n, xs, t, a=None):
        return self.op("torch." + n, xs, ["!torch." + t], a)[0]

    def do(self, n, xs):
        self.op("torch." + n, xs, [])

    def nest(self, types, body, end):
        """a region of one block: body(arguments) -> the operands of its terminator"""
        ops, consts = self.ops, dict(self.consts)
        self.ops = []
        args = [self.new("!torch." + t) for t in types]
        self.op("torch." + end, body(*args), [])
        block = {"args": [[a, self.types[a]] for a in args], "ops": self.ops}
        self.ops, self.consts = ops, consts
        return [block]

    def If(self, c, types, then, els):
        regions = [self.nest([], then, "prim.If.yield"), self.nest([], els, "prim.If.yield")]
        rs = self.op("torch.prim.If", [c], ["!torch." + t for t in types])
        self.ops[-1]["g"] = regions
        return rs

    def Loop(self, n, c, inits, types, body):
        """body(i, *carried) -> [condition, *carried]"""
        region = self.nest(["int", *types], body, "prim.Loop.condition")
        rs = self.op("torch.prim.Loop", [n, c, *inits], ["!torch." + t for t in types])
        self.ops[-1]["g"] = [region]
        return rs

    def value(self, t, v):
        """v as constants"""
        if isinstance(v, list):
            e = MLIR[t][5:-1]
            return self.one("prim.ListConstruct", [self.const(x) for x in v], f"list<{e}>")
        if isinstance(v, dict):
            return self.one("prim.DictConstruct", [*map(self.const, v), *map(self.const, v.values())], MLIR[t])
        c = self.const(v)
        if MLIR[t].startswith("optional"):
            return self.one("derefine", [c], MLIR[t])
        return c

    def finish(self, results):
        return [self.func("main", results)], self.doms


def assignments(doms, limit=None):
    r = itertools.product(*doms)
    return itertools.islice(r, limit) if limit else r


_Exec = None


def loaded(ops):
    """f(arguments) -> (results, arguments afterwards); raises what the program raises"""
    global _Exec
    if _Exec is None:
        _Exec = M.make_exec()
    ex = _Exec(ops)

    def f(args):
        args = [x if isinstance(x, (int, float, str, bool)) or x is None else copy.deepcopy(x) for x in args]
        r = ex.call("main", args), args
        return copy.deepcopy(r)

    return f


def alike(a, b):
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        return a.shape == b.shape and a.dtype == b.dtype and torch.equal(torch.nan_to_num(a) if a.is_floating_point() else a,
                                                                         torch.nan_to_num(b) if b.is_floating_point() else b)
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or a != a and b != b
    return a == b


class Runner:
    """judge(program) against the pass pipelines"""

    def __init__(self, exe, modes):
        self.S, self.modes, self.fired, self.executed, self.rejected = M.Server(exe), modes, {}, 0, {}

    def judge(self, ops, doms):
        """-> [(mode, text)]"""
        from .passcheck import explain

        ins, want = [], []
        f = loaded(ops)
        for a in assignments(doms):
            try:
                w = f(a)
            except (TypeSoundness, InterpError) as e:
                raise ValueError(f"a malformed program: {e}")
            except Exception as e:
                self.rejected[type(e).__name__] = self.rejected.get(type(e).__name__, 0) + 1
                continue
            ins.append(a)
            want.append(w)
        bad, seen = [], {}
        for name, pipeline, order in self.modes:
            r = self.S.run(ops, pipeline, order=order)
            for p, n in r["fired"].items():
                self.fired[p] = self.fired.get(p, 0) + n
            if not r["ok"]:
                bad.append((name, explain(r)))
                continue
            if r["ops"] == ops:
                continue
            k = repr(r["ops"])
            if k not in seen:
                seen[k] = self.compare(r["ops"], ins, want)
            if seen[k]:
                bad.append((name, seen[k]))
        return bad

    def compare(self, ops, ins, want):
        f = loaded(ops)
        for a, w in zip(ins, want):
            self.executed += 1
            try:
                g = f(a)
            except Exception as e:
                return f"on ({', '.join(map(short, a))}): {type(e).__name__}: {str(e)[:200]}"
            if not alike(g, w):
                return f"on ({', '.join(map(short, a))}): {g} instead of {w}"


# ------------------------------------------------------------------ one operator
def partitions(types):
    """how each argument is given: 'c' a constant, 'v' a function argument, an index: the same value as that argument"""
    def go(i, acc):
        if i == len(types):
            yield tuple(acc)
            return
        for m in ("c", "v", *(j for j in range(i) if types[j] == types[i] and acc[j] == "v")):
            yield from go(i + 1, acc + [m])
    return go(0, [])


def operator_programs(name, params, result):
    """[(text, program)] of one operator of numbers, strings and lists"""
    kinds = [t if t in DOMAIN else None for t in params]
    if None in kinds:
        return
    dom = DOMAIN
    if name == "aten.mul.left_t" or len(params) > 2:
        dom = {**DOMAIN, "int": SMALL}
    for mask in partitions(params):
        consts = [dom[t] if m == "c" else [None] for t, m in zip(kinds, mask)]
        for cs in itertools.product(*consts):
            b, xs = PB(), []
            for t, m, c in zip(kinds, mask, cs):
                if m == "c":
                    xs.append(b.value(t, c))
                elif m == "v":
                    xs.append(b.input(MLIR[t], dom[t]))
                else:
                    xs.append(xs[m])
            r = b.op("torch." + name, xs, [result] if result else [])
            yield (f"{name}({', '.join(repr(c) if m == 'c' else f'argument {i if m == chr(118) else m}' for i, (m, c) in enumerate(zip(mask, cs)))})",
                   b.finish(r + ([] if r else xs[:1])))


# ------------------------------------------------------------------ lists
INTS = [-1, 0, 3]


def list_statements():
    """name -> f(b, state): state has the list L, an equal list M, numbers x and c, and the results R"""
    def read(n, xs, t):
        def f(b, s):
            s["R"].append(b.one(n, xs(b, s), t))
        return f

    S = {}
    for c in (0, 1, -1, 2):
        S[f"read L[{c}]"] = read("aten.__getitem__.t", lambda b, s, c=c: [s["L"], b.const(c)], "int")
    S["read len(L)"] = read("aten.len.t", lambda b, s: [s["L"]], "int")
    S["read L == M"] = read("aten.eq.int_list", lambda b, s: [s["L"], s["M"]], "bool")
    S["read x in L"] = read("aten.__contains__.int_list", lambda b, s: [s["L"], s["x"]], "bool")
    S["read 5 in L"] = read("aten.__contains__.int_list", lambda b, s: [s["L"], b.const(5)], "bool")
    S["read 7 in L"] = read("aten.__contains__.int_list", lambda b, s: [s["L"], b.const(7)], "bool")
    S["read min(L)"] = read("prim.min.self_int", lambda b, s: [s["L"]], "int")
    S["read zeros(L)"] = read("aten.zeros", lambda b, s: [s["L"], b.const(4), b.const(None), b.const(None), b.const(None)], "vtensor<*,si64>")
    S["read len(L + M)"] = read("aten.len.t", lambda b, s: [b.one("aten.add.t", [s["L"], s["M"]], "list<int>")], "int")
    for lo, hi, st in ((1, None, 1), (None, -1, 1), (None, None, 2), (-1, 9, 1)):
        def sl(b, s, a=(lo, hi, st)):
            r = b.one("aten.slice.t", [s["L"], *map(b.const, a)], "list<int>")
            s["R"] += [r, b.one("aten.len.t", [r], "int")]
        S[f"slice L[{lo}:{hi}:{st}]"] = sl

    def unpack(b, s):
        s["R"] += b.op("torch.prim.ListUnpack", [s["L"]], ["!torch.int"] * 2)
    S["unpack L"] = unpack
    S["append x"] = lambda b, s: b.one("aten.append.t", [s["L"], s["x"]], "list<int>")
    S["append 7"] = lambda b, s: b.one("aten.append.t", [s["L"], b.const(7)], "list<int>")
    S["L[0] = 7"] = lambda b, s: b.one("aten._set_item.t", [s["L"], b.const(0), b.const(7)], "list<int>")
    S["L[-1] = x"] = lambda b, s: b.one("aten._set_item.t", [s["L"], b.const(-1), s["x"]], "list<int>")
    S["insert 7"] = lambda b, s: b.do("aten.insert.t", [s["L"], b.const(0), b.const(7)])
    S["sort L"] = lambda b, s: b.do("aten.sort.int", [s["L"], b.const(False)])
    S["sort L down"] = lambda b, s: b.do("aten.sort.int", [s["L"], b.const(True)])
    S["M[0] = 7"] = lambda b, s: b.one("aten._set_item.t", [s["M"], b.const(0), b.const(7)], "list<int>")

    def branch(b, s):
        b.If(s["flag"], [], lambda: (b.one("aten.append.t", [s["L"], b.const(7)], "list<int>"), [])[1], lambda: [])
    S["if flag: append 7"] = branch

    def loop(b, s):
        b.Loop(b.const(2), b.const(True), [], [], lambda i: (b.one("aten.append.t", [s["L"], i], "list<int>"), [b.const(True)])[1])
    S["for i in 0, 1: append i"] = loop

    def alias(b, s):
        r = b.If(s["flag"], ["list<int>"], lambda: [s["L"]], lambda: [s["M"]])[0]
        b.one("aten.append.t", [r, b.const(7)], "list<int>")
    S["append 7 to L or M"] = alias

    def held(b, s):
        h = b.one("prim.ListConstruct", [s["L"], s["M"]], "list<list<int>>")
        r = b.one("aten.__getitem__.t", [h, b.const(0)], "list<int>")
        b.one("aten.append.t", [r, b.const(7)], "list<int>")
    S["append 7 to [L, M][0]"] = held

    def tup(b, s):
        h = b.one("prim.TupleConstruct", [s["L"], s["x"]], "tuple<list<int>, int>")
        r = b.one("prim.TupleIndex", [h, b.const(0)], "list<int>")
        b.one("aten._set_item.t", [r, b.const(0), b.const(7)], "list<int>")
    S["(L, x)[0][0] = 7"] = tup
    return S


READS = ("read", "slice", "unpack")


def list_programs(depth, starts=("x 5", "5 3")):
    S = list_statements()
    names = list(S)
    for start in starts:
        for n in range(1, depth + 1):
            for seq in itertools.product(names, repeat=n):
                if not seq[-1].startswith(READS) and n > 1 and not any(s.startswith(READS) for s in seq):
                    continue
                yield f"L = [{start}]; " + "; ".join(seq), lambda seq=seq, start=start: list_program(S, seq, start)


def list_program(S, seq, start):
    b = PB()
    s = {"x": b.input("int", INTS), "flag": None, "R": []}
    if any("flag" in q or " or M" in q for q in seq):
        s["flag"] = b.input("bool", [False, True])
    els = [s["x"] if e == "x" else b.const(int(e)) for e in start.split()]
    s["L"] = b.one("prim.ListConstruct", els, "list<int>")
    s["M"] = b.one("prim.ListConstruct", els, "list<int>")
    for q in seq:
        S[q](b, s)
    return b.finish(s["R"] + [s["L"], s["M"]] if not s["R"] or seq[0][0] == "s" else s["R"])


# ------------------------------------------------------------------ dictionaries, tuples and optional values
def dict_programs(depth):
    S = {}
    for k in "ab":
        S[f"D[{k}] = 7"] = lambda b, s, k=k: b.do("aten._set_item.str", [s["D"], b.const(k), b.const(7)])
        S[f"read D[{k}]"] = lambda b, s, k=k: s["R"].append(b.one("aten.__getitem__.Dict_str", [s["D"], b.const(k)], "int"))
    for k in "abc":
        S[f"read {k} in D"] = lambda b, s, k=k: s["R"].append(b.one("aten.__contains__.str", [s["D"], b.const(k)], "bool"))
    S["D[c] = x"] = lambda b, s: b.do("aten._set_item.str", [s["D"], b.const("c"), s["x"]])
    S["D[k] = x"] = lambda b, s: b.do("aten._set_item.str", [s["D"], s["k"], s["x"]])
    S["read k in D"] = lambda b, s: s["R"].append(b.one("aten.__contains__.str", [s["D"], s["k"]], "bool"))
    S["del D[b]"] = lambda b, s: b.do("aten.Delete.Dict_str", [s["D"], b.const("b")])
    S["keys"] = lambda b, s: s["R"].append(b.one("aten.len.t", [b.one("aten.keys.str", [s["D"]], "list<str>")], "int"))

    def prog(keys, seq):
        b = PB()
        s = {"x": b.input("int", [-1, 3]), "k": b.input("str", ["a", "c"]), "R": []}
        ks = [b.const(k) if k != "k" else s["k"] for k in keys]
        s["D"] = b.one("prim.DictConstruct", ks + [s["x"], b.const(5)][:len(ks)], "dict<str, int>")
        for q in seq:
            S[q](b, s)
        return b.finish(s["R"])

    for keys in ("ab", "kb", "ak", "aa"):
        for n in range(1, depth + 1):
            for seq in itertools.product(S, repeat=n):
                yield f"D = {{{', '.join(keys)}}}; " + "; ".join(seq), lambda keys=keys, seq=seq: prog(keys, seq)


# ------------------------------------------------------------------ branches
def conditions():
    """name -> f(b, s)"""
    C = {
        "True": lambda b, s: b.const(True),
        "False": lambda b, s: b.const(False),
        "f": lambda b, s: s["f"],
        "not f": lambda b, s: b.one("aten.__not__", [s["f"]], "bool"),
        "x == x": lambda b, s: b.one("aten.eq.int", [s["x"], s["x"]], "bool"),
        "x != x": lambda b, s: b.one("aten.ne.int", [s["x"], s["x"]], "bool"),
        "x > 0": lambda b, s: b.one("aten.gt.int", [s["x"], b.const(0)], "bool"),
        "o is None": lambda b, s: b.one("aten.__is__", [s["o"], b.const(None)], "bool"),
        "o is not None": lambda b, s: b.one("aten.__isnot__", [s["o"], b.const(None)], "bool"),
        "derefined x is None": lambda b, s: b.one("aten.__is__", [b.one("derefine", [s["x"]], "optional<int>"), b.const(None)], "bool"),
        "derefined None is None": lambda b, s: b.one("aten.__is__", [b.one("derefine", [b.const(None)], "optional<int>"), b.const(None)], "bool"),
        "derefined x is not None": lambda b, s: b.one("aten.__isnot__", [b.one("derefine", [s["x"]], "optional<int>"), b.const(None)], "bool"),
        "f or f": lambda b, s: b.one("aten.__or__.bool", [s["f"], s["f"]], "bool"),
        "f or True": lambda b, s: b.one("aten.__or__.bool", [s["f"], b.const(True)], "bool"),
        "f == True": lambda b, s: b.one("aten.eq.bool", [s["f"], b.const(True)], "bool"),
        "f != False": lambda b, s: b.one("aten.ne.bool", [s["f"], b.const(False)], "bool"),
        "bool(x)": lambda b, s: b.one("aten.Bool.int", [s["x"]], "bool"),
    }
    return C


def yields():
    return {
        "x": lambda b, s: s["x"],
        "y": lambda b, s: s["y"],
        "5": lambda b, s: b.const(5),
        "x + 1": lambda b, s: b.one("aten.add.int", [s["x"], b.const(1)], "int"),
        "append to L": lambda b, s: (b.one("aten.append.t", [s["L"], s["x"]], "list<int>"), b.const(5))[1],
        "o": lambda b, s: b.If(b.one("aten.__is__", [s["o"], b.const(None)], "bool"), ["int"], lambda: [b.const(9)],
                               lambda: [b.one("prim.unchecked_cast", [s["o"]], "int")])[0],
        "raise": lambda b, s: (b.do("prim.RaiseException", [b.const("no"), b.const(None)]), b.one("prim.Uninitialized", [], "int"))[1],
    }


def state(b):
    s = {"x": b.input("int", [-1, 0, 2]), "y": b.input("int", [1]), "f": b.input("bool", [False, True]), "o": b.input("optional<int>", [None, 4])}
    s["L"] = b.one("prim.ListConstruct", [s["y"]], "list<int>")
    return s


def if_programs(nested):
    C, Y = conditions(), yields()

    def prog(c, t, e, use, inner):
        b = PB()
        s = state(b)
        cond = C[c](b, s)
        side = lambda k: lambda: [Y[k](b, s), Y["x"](b, s)]
        then = side(t)
        if inner:
            ci, ti, ei = inner

            def then():
                r = b.If(C[ci](b, s), ["int"], lambda: [Y[ti](b, s)], lambda: [Y[ei](b, s)])
                return [r[0], Y[t](b, s)]
        rs = b.If(cond, ["int", "int"], then, side(e))
        if use == "first":
            rs = rs[:1]
        elif use == "second":
            rs = rs[1:]
        elif use == "none":
            rs = []
        return b.finish(rs + [b.one("aten.len.t", [s["L"]], "int")])

    for c in C:
        for t in Y:
            for e in Y:
                for use in ("both", "first", "second", "none"):
                    yield f"if {c}: {t} else: {e} ({use})", lambda a=(c, t, e, use, None): prog(*a)
    if nested:
        for c in C:
            for ci in C:
                for t, e, ti, ei in itertools.product(("x", "5", "append to L"), repeat=4):
                    yield f"if {c}: (if {ci}: {ti} else: {ei}), {t} else: {e}", lambda a=(c, t, e, "both", (ci, ti, ei)): prog(*a)


def loop_programs(full):
    C = conditions()
    N = {"0": lambda b, s: b.const(0), "1": lambda b, s: b.const(1), "3": lambda b, s: b.const(3), "x": lambda b, s: s["x"],
         "len(L)": lambda b, s: b.one("aten.len.t", [s["L"]], "int"),
         "range length": lambda b, s: b.one("aten.__range_length", [b.const(0), b.const(5), b.const(2)], "int")}
    U = {"same": lambda b, s, i, u, v: [u, v],
         "swap": lambda b, s, i, u, v: [v, u],
         "u + i": lambda b, s, i, u, v: [b.one("aten.add.int", [u, i], "int"), v],
         "5, x": lambda b, s, i, u, v: [b.const(5), s["x"]],
         "append": lambda b, s, i, u, v: (b.one("aten.append.t", [s["L"], i], "list<int>"), [b.one("aten.len.t", [s["L"]], "int"), v])[1],
         "derived": lambda b, s, i, u, v: [b.one("aten.__derive_index", [i, b.const(1), b.const(2)], "int"), u],
         "branch": lambda b, s, i, u, v: b.If(s["f"], ["int", "int"], lambda: [v, i], lambda: [u, v]),
         "read": lambda b, s, i, u, v: [b.one("aten.__getitem__.t", [s["L"], b.const(0)], "int"), b.one("aten.add.int", [b.const(2), b.const(3)], "int")]}
    K = {"True": lambda b, s, i: b.const(True), "False": lambda b, s, i: b.const(False), "f": lambda b, s, i: s["f"],
         "i < 1": lambda b, s, i: b.one("aten.lt.int", [i, b.const(1)], "bool")}

    def prog(n, c, k, u, after):
        b = PB()
        s = state(b)

        def body(i, *uv):
            r = U[u](b, s, i, *uv)
            return [K[k](b, s, i), *r]

        rs = b.Loop(N[n](b, s), C[c](b, s), [s["x"], s["y"]], ["int", "int"], body)
        if after:
            b.one("aten.append.t", [s["L"], b.const(8)], "list<int>")
        return b.finish(rs + [b.one("aten.len.t", [s["L"]], "int")])

    for n in N:
        for c in C if full else ("True", "False", "f", "x == x", "x > 0"):
            for k in K:
                for u in U:
                    for after in (False, True):
                        yield f"for {n} while {c}, {k}: {u}{'; append' if after else ''}", lambda a=(n, c, k, u, after): prog(*a)


# ------------------------------------------------------------------ mutable tensors
def tensor_programs(depth):
    V, W = "!torch.vtensor<[2],f32>", "!torch.tensor<[2],f32>"
    S = {}

    def read(b, s):
        s["v"].append(b.op("torch.copy.to_vtensor", [s["t"][-1]], [V])[0])

    def read0(b, s):
        s["v"].append(b.op("torch.copy.to_vtensor", [s["t"][0]], [V])[0])

    def add(b, s):
        s["v"].append(b.op("torch.aten.add.Tensor", [s["v"][-1], s["v"][0], b.const(1)], [V])[0])

    def write(b, s):
        b.op("torch.overwrite.tensor.contents", [s["v"][-1], s["t"][-1]], [])

    def write0(b, s):
        b.op("torch.overwrite.tensor.contents", [s["v"][-1], s["t"][0]], [])

    def new(b, s):
        s["t"].append(b.op("torch.copy.to_tensor", [s["v"][-1]], [W])[0])

    def item(b, s):
        r = b.op("torch.aten.size.int", [s["v"][-1], b.const(0)], ["!torch.int"])[0]
        s["R"].append(r)

    S = {"v = t": read, "v = t0": read0, "v = v + v0": add, "t := v": write, "t0 := v": write0, "t = copy of v": new, "size": item}

    def prog(seq):
        b = PB()
        x = torch.tensor([1.0, -2.0])
        s = {"v": [b.input(V, [x])], "t": [b.input(W, [x * 3])], "R": []}
        for q in seq:
            S[q](b, s)
        return b.finish(s["R"] + s["v"] + [b.op("torch.copy.to_vtensor", [t], [V])[0] for t in s["t"]])

    for n in range(1, depth + 1):
        for seq in itertools.product(S, repeat=n):
            yield "; ".join(seq), lambda seq=seq: prog(seq)


# ------------------------------------------------------------------ the operators
RESULT = {"number": "!torch.number", "t": "!torch.int", "List[t]": "!torch.list<int>", "Tensor": "!torch.vtensor"}
LEFT_OUT = {"prim.unchecked_cast": "narrows a type", "prim.TupleIndex": "has an operand of tuple type", "prim.TupleUnpack": "has an operand of tuple type",
            "prim.Uninitialized": "has no value", "aten.device.with_index": "has a device as its result", "prim.NumToTensor.Scalar": "is covered with tensors",
            "aten.sort.int": "is covered with the lists"}


def scalar_operators(flags):
    """[(name, parameter types, result type)] of the operators with a folder or patterns that take no tensors"""
    schemas = {}
    for s in torch._C._jit_get_all_schemas():
        n = s.name.replace("::", ".") + ("." + s.overload_name if s.overload_name else "")
        schemas.setdefault(n, s)
    for full, (fold, canon, _) in sorted(flags.items()):
        n = full[6:]
        s = schemas.get(n)
        if s is None or not (fold or canon) or n in LEFT_OUT or len(s.returns) != 1:
            continue
        ps = [str(a.type) for a in s.arguments]
        if any(p not in DOMAIN for p in ps):
            continue
        r = str(s.returns[0].type)
        yield n, ps, RESULT.get(r) or "!torch." + MLIR[r]


# ------------------------------------------------------------------ arithmetic
def int_programs(consts):
    """f(g(..), ..) of the operators on integers, over x, y and the constants"""
    two = {"add.int": "int", "sub.int": "int", "mul.int": "int", "floordiv.int": "int", "remainder.int": "int", "eq.int": "bool", "ne.int": "bool",
           "lt.int": "bool", "le.int": "bool", "gt.int": "bool", "ge.int": "bool", "div.int": "float"}
    inner = ["add.int", "sub.int", "mul.int", "floordiv.int", "remainder.int", "neg.int", "size", "Int.bool"]
    leaves = ["x", "y", *consts]

    def leaf(b, s, v):
        return s[v] if isinstance(v, str) else b.const(v)

    def prog(outer, side, i, l, r, other):
        b = PB()
        s = {"x": b.input("int", [-5, -1, 0, 3]), "y": b.input("int", [-2, 1, 4])}
        if i == "neg.int":
            v = b.one("aten.neg.int", [leaf(b, s, l)], "int")
        elif i == "size":
            v = b.one("aten.len.t", [b.one("prim.ListConstruct", [leaf(b, s, l)], "list<int>")], "int")
        elif i == "Int.bool":
            v = b.one("aten.Int.bool", [b.one("aten.gt.int", [leaf(b, s, l), leaf(b, s, r)], "bool")], "int")
        else:
            v = b.one("aten." + i, [leaf(b, s, l), leaf(b, s, r)], "int")
        o = v if other == "same" else leaf(b, s, other)
        xs = [v, o] if side == 0 else [o, v]
        if outer in ("max", "min"):
            w = b.one(f"prim.{outer}.int", xs, "int")
        else:
            w = b.one("aten." + outer, xs, two[outer])
        return b.finish([w] if l != "y" else [w, v])

    for outer in (*two, "max", "min"):
        for side in (0, 1):
            for i in inner:
                for l in leaves:
                    for r in leaves if i not in ("neg.int", "size") else ["x"]:
                        for other in (*leaves, "same"):
                            yield f"{outer}{side} of {i}({l}, {r}) and {other}", lambda a=(outer, side, i, l, r, other): prog(*a)

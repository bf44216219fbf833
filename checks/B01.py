"""B01: the reference backend hands over and brings back exactly the values.

The real invoker and conversions run against an execution engine which does what
compiled code does at the ABI: it reads arguments through memref descriptors and
calls the registered result callbacks through their C address with the C types the
compiled function declares.  Enumerated: every dtype x shape x memory layout of an
argument; every list of result types to length 3 (4); modules of several functions
with different signatures x call histories; nested values for the conversions.
"""
import copy
import ctypes
import itertools
import math

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
import numpy as np

from mc.core import Violation
from mc.fakeruntime import MEMREF, SCALAR

ID = "B01"
LEVEL = "model_checking"
RULE = ("state = (module signatures, call history, argument dtype/shape/layout); transition = one invocation through "
        "the real invoker on an ABI-accurate engine, values compared with those the code received and returned")

MR = ["mr" + t for t in MEMREF]
SC = [t for t in ("i1", "i8", "i64", "f32", "f64")]


def special(tok):
    if tok.startswith("mr"):
        k = tok[2:]
        dt = MEMREF[k]
        if k == "i1":
            v = [True, False, True, True, False, False]
        elif k[0] == "i":
            ii = np.iinfo(dt)
            v = [0, 1, -1, ii.min, ii.max, 7]
        elif k[0] == "f":
            fi = np.finfo(dt)
            v = [0.0, -0.0, math.inf, math.nan, float(fi.max), -1.5]
        else:
            v = [0, 1 + 2j, -1j, complex(math.inf, 1), complex(1, math.nan), 3]
        return np.array(v, dtype=dt)
    return {"i1": [True, False], "i8": [0, 1, -1, 127, -128], "i64": [0, -1, 2 ** 31 - 1, 2 ** 31, -(2 ** 31) - 1, 2 ** 40,
                                                                       2 ** 63 - 1, -(2 ** 63)],
            "f32": [0.0, 1.5, -0.0, math.inf, -math.inf, math.nan, float(np.float32(1e-45))],
            "f64": [0.0, 1.1, 1e300, 5e-324, math.inf, -math.inf, math.nan, -2.5]}[tok]


def same(a, b):
    """bit-exact equality of a produced value and the value the code returned"""
    if isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
                and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes())
    if isinstance(a, np.ndarray):
        return False
    if isinstance(b, float) and b != b:
        return isinstance(a, float) and a != a
    if isinstance(b, bool) or isinstance(b, int):
        return isinstance(a, (bool, int)) and int(a) == int(b)
    return isinstance(a, float) and a == b and math.copysign(1, a) == math.copysign(1, b)


KNOWN = {"int64-result": "a 64-bit integer result of the reference backend is cut off to 32 bits",
         "multi-return-types": "in a reference backend module whose functions return different types, results are read with "
                               "the types of another function"}
HIT = set()


def ok_result(tok, o, w):
    """o is what the code returned; a cut off 64-bit integer is the recorded defect"""
    if same(o, w):
        return True
    if tok == "i64" and same(o, ctypes.c_int(w).value):
        HIT.add("int64-result")
        return True
    return False


def misread(res, last, out, want):
    """out is what becomes of results of types `res` when they are read with the types `last`
    (out is None: the call failed)"""
    bad = any(a[:2] != "mr" and b[:2] == "mr" for a, b in zip(res, last))
    if out is None:
        return bad
    if bad or len(out) != min(len(res), len(last)):
        return False
    for a, b, o, w in zip(res, last, out, want):
        if a[:2] != "mr":
            if not ok_result(a, o, w):
                return False
        elif b[:2] != "mr":
            if not isinstance(o, ctypes._Pointer):
                return False
        elif a == b:
            if not same(o, w):
                return False
        elif not (isinstance(o, np.ndarray) and o.dtype == MEMREF[b[2:]] and o.shape == w.shape):
            return False
    return True


# ---------------------------------------------------------------- modules
def mk_module(funcs):
    """funcs: name -> (argument tokens, fn(list of arrays) -> [(token, value)], possible result signatures)"""
    from torch_mlir import ir
    from torch_mlir.dialects import func as func_d

    ctx = ir.Context()
    with ctx, ir.Location.unknown():
        m = ir.Module.create()
        with ir.InsertionPoint(m.body):
            ty = ir.FunctionType.get([], [])
            cbs = []
            for name, (args, fn, sigs) in funcs.items():
                f = func_d.FuncOp(name, ty)
                for s in sigs:
                    c = "refbackend_consume_func_return" + "".join("_" + t for t in s)
                    if c not in cbs:
                        cbs.append(c)
            for c in sorted(cbs):  # std::map order
                func_d.FuncOp(c, ty, visibility="private")
    M = Mod(m)
    M.code = {k: v[1] for k, v in funcs.items()}
    M.args = {k: v[0] for k, v in funcs.items()}
    return M


class Mod:
    """A module together with the code it was compiled to."""

    def __init__(self, m):
        self.m = m
        self.live = []

    def __getattr__(self, n):
        return getattr(self.__dict__["m"], n)

    def __str__(self):
        return str(self.m)

    def signature(self, name):
        return self.args[name]


def load(M):
    from torch_mlir_e2e_test.linalg_on_tensors_backends.refbackend import RefBackendLinalgOnTensorsBackend

    return RefBackendLinalgOnTensorsBackend().load(M)


# ---------------------------------------------------------------- arguments
def shapes(thorough):
    out = [(), (1,), (3,), (0,), (2, 3), (3, 2), (1, 4), (0, 2), (2, 0), (2, 1, 3), (2, 3, 2), (1, 1, 1)]
    return out + [(2, 2, 2, 2), (5, 1, 2, 1), (2, 0, 3), (17,), (2, 1, 2, 1, 2)] if thorough else out + [(2, 1, 2, 2)]


def layouts(shape, dt, kind):
    """an array of that shape, dtype and memory layout, with distinguishable contents"""
    n = int(np.prod(shape)) if shape else 1

    def vals(k):
        base = np.arange(k) % 5 + 1
        return (base % 2 == 1) if dt == np.bool_ else (base * (1 - 2j) if np.dtype(dt).kind == "c" else base).astype(dt)

    if kind == "contiguous":
        return vals(n).reshape(shape).astype(dt)
    if kind == "transposed":
        return vals(n).reshape(shape[::-1]).astype(dt).T
    if kind == "offset":
        return np.concatenate([vals(3), vals(n)]).astype(dt)[3:3 + n].reshape(shape)
    if kind == "strided":
        big = vals(int(np.prod([2 * s + 1 for s in shape]))).reshape([2 * s + 1 for s in shape]).astype(dt)
        return np.asarray(big[tuple(slice(1, 1 + 2 * s, 2) for s in shape)])
    if kind == "reversed":
        return np.asarray(vals(n).reshape(shape).astype(dt)[tuple(slice(None, None, -1) for s in shape)])
    if kind == "broadcast":
        return np.broadcast_to(vals(1).reshape(()).astype(dt), shape)
    if kind == "fortran":
        return np.asfortranarray(vals(n).reshape(shape).astype(dt))
    raise AssertionError(kind)


LAYOUTS = ["contiguous", "transposed", "offset", "strided", "reversed", "broadcast", "fortran"]


def case_args(c):
    """each argument arrives unchanged, and an echoed one comes back unchanged"""
    toks, shape, kind = c
    arrs = [layouts(shape, MEMREF[t], kind) for t in toks]
    seen = []

    def fn(ins):
        seen.append([a.copy() for a in ins])
        return [("mr" + t, np.ascontiguousarray(a).reshape(a.shape)) for t, a in zip(toks, ins)]

    M = mk_module({"f": (list(toks), fn, [["mr" + t for t in toks]])})
    inv = load(M)
    keep = [np.array(a) for a in arrs]
    out = getattr(inv, "f")(*arrs)
    out = out if len(toks) > 1 else (out,)
    what = f"args:{','.join(toks)} {shape} {kind}"
    if len(seen) != 1:
        raise Violation(f"calls:{what}", f"{what}: the code ran {len(seen)} times")
    for a, s, o, k in zip(arrs, seen[0], out, keep):
        if not same(s, k):
            raise Violation(f"received:{kind}", f"{what}: passed {k.tolist()}, the code received {s.tolist()}")
        if not same(np.asarray(o), k):
            raise Violation(f"echo:{kind}", f"{what}: returned {k.tolist()}, the caller received {np.asarray(o)!r}")
        if not same(np.asarray(a), k):
            raise Violation(f"changed:{kind}", f"{what}: the caller's array changed")
    if not isinstance(out, tuple) or len(out) != len(toks):
        raise Violation(f"count:{what}", f"{what}: {len(out)} results")
    return 1


def case_torch_args(c):
    """the same through the conversions, from and to tensors"""
    from torch_mlir_e2e_test.configs import utils as U

    tok, shape, kind = c
    dt = MEMREF[tok]
    a = np.asarray(layouts(shape, dt, kind))
    if any(s < 0 for s in a.strides):
        return 0
    t = torch.from_numpy(np.array(a, copy=True, order="K") if kind == "broadcast" else a)
    if kind == "broadcast":
        t = torch.from_numpy(layouts((), dt, "contiguous").reshape(())).expand(shape)

    def fn(ins):
        return [("mr" + tok, np.ascontiguousarray(ins[0]).reshape(ins[0].shape))]

    inv = load(mk_module({"f": ([tok], fn, [["mr" + tok]])}))
    before = t.clone()
    out = U.recursively_convert_from_numpy(inv.f(*U.recursively_convert_to_numpy([t])))
    if not torch.is_tensor(out) or out.dtype != before.dtype or out.shape != before.shape or not torch.equal(out, before):
        raise Violation(f"torch:{kind}", f"tensor {tok} {shape} {kind}: {before.tolist()} came back as {out!r}")
    return 1


# ---------------------------------------------------------------- results
def result_for(tok, i, pick):
    v = special(tok)
    if tok.startswith("mr"):
        return [v, v.reshape(2, 3)[::-1].copy(), v[:1].reshape(()), v[:0], v.reshape(3, 2).T[:, 1:]][(i + pick) % 5]
    return v[(i + pick) % len(v)]


def take():
    r = sorted(HIT)
    HIT.clear()
    return r


def case_results(c):
    toks, picks = c
    inv = None
    res = {}

    def fn(ins):
        return [(t, v) for t, v in zip(toks, res["v"])]

    M = mk_module({"main": ([], fn, [toks])})
    inv = load(M)
    for p in picks:
        res["v"] = [result_for(t, i, p) for i, t in enumerate(toks)]
        want = [np.array(v) if isinstance(v, np.ndarray) else v for v in res["v"]]
        out = inv.main()
        out = out if len(toks) > 1 else (out,)
        if not isinstance(out, tuple) or len(out) != len(toks):
            raise Violation(f"count:{toks}", f"results {toks}: received {out!r}")
        for i, (o, w) in enumerate(zip(out, want)):
            if not ok_result(toks[i], o, w):
                raise Violation(f"result:{toks[i]}", f"results {toks}: #{i} is {w!r}, received {o!r}")
    return len(picks), take()


# ---------------------------------------------------------------- histories
def funcs_of(sigs):
    """one function per signature: returns values derived from a counter and its arguments"""
    state = {"n": 0, "log": []}
    out = {}
    names = ["f", "g", "h"]
    for name, (args, res) in zip(names, sigs):
        def fn(ins, name=name, res=res):
            state["n"] += 1
            n = state["n"]
            vals = []
            for i, t in enumerate(res):
                if t.startswith("mr"):
                    base = ins[0].astype(MEMREF[t[2:]]) if ins else np.zeros((2,), MEMREF[t[2:]])
                    vals.append((t, (base + (n + i)).astype(MEMREF[t[2:]]) if t != "mri1" else
                                 np.full((2,), (n + i) % 2 == 0)))
                elif t == "i1":
                    vals.append((t, (n + i) % 2 == 0))
                elif t == "i64":
                    vals.append((t, 2 ** 33 + n + i))
                elif t == "i8":
                    vals.append((t, -n - i))
                else:
                    vals.append((t, n + i + 0.25))
            state["log"].append([np.array(v) if isinstance(v, np.ndarray) else v for _, v in vals])
            return vals
        out[name] = (args, fn, [res])
    return out, state


SIGS = [([], ["f64"]), (["f32"], ["mrf32"]), (["f32", "i64"], ["mrf32", "i64"]), (["i64"], ["i64", "mrf32"]),
        (["f64"], ["f64", "i1"]), ([], ["mri1", "f32"]), (["i64"], ["mri64", "mrf64", "f64"]), (["f32"], ["i8"]),
        (["f16"], ["mrf16", "mrf16"]), ([], ["i64"])]
ARG = {"f32": lambda k: np.array([1.5, k], np.float32), "f64": lambda k: np.array([2.5, k], np.float64),
       "i64": lambda k: np.array([k, 3], np.int64), "f16": lambda k: np.array([k, 0.5], np.float16)}


def case_history(c):
    """a module of several functions, all call sequences; earlier results stay what they were"""
    sigs, hist = c
    funcs, state = funcs_of([SIGS[i] for i in sigs])
    inv = load(mk_module(funcs))
    got, want = [], []
    names = list(funcs)
    last = max((SIGS[i][1] for i in sigs), key=lambda r: "".join("_" + t for t in r))
    for step, k in enumerate(hist):
        name = names[k]
        args = [ARG[a](step) for a in funcs[name][0]]
        saved = [a.copy() for a in args]
        res = SIGS[sigs[k]][1]
        try:
            out = getattr(inv, name)(*args)
        except AssertionError:
            if res == last:
                raise
            out = None
        else:
            if isinstance(out, tuple) and len(out) < 2:
                raise Violation(f"single:{sigs}", f"history {hist}: step {step} gave {out!r}")
            out = out if isinstance(out, tuple) else (out,)
        if len(state["log"]) != step + 1:
            raise Violation(f"history:{sigs}", f"history {hist} of {[SIGS[i] for i in sigs]}: step {step} ran "
                            f"{len(state['log']) - step} functions")
        w = state["log"][step]
        if out is None or len(out) != len(res) or not all(ok_result(t, a, b) for t, a, b in zip(res, out, w)):
            if res == last or not misread(res, last, out, w):
                raise Violation(f"history:{sigs}", f"history {hist} of {[SIGS[i] for i in sigs]}: step {step} gave {out!r}, "
                                f"the code returned {w!r}")
            HIT.add("multi-return-types")
        else:
            got.append(out)
            want.append([copy.copy(o) for o in out])
        for j in range(len(got)):
            if len(got[j]) != len(want[j]) or not all(same(o, w) for o, w in zip(got[j], want[j])):
                raise Violation(f"history:{sigs}", f"history {hist} of {[SIGS[i] for i in sigs]}: after step {step}, "
                                f"the result {want[j]!r} of an earlier call has become {got[j]!r}")
        for a, s in zip(args, saved):
            if not same(a, s):
                raise Violation(f"argchange:{sigs}", f"history {hist}: an argument changed")
    return len(hist), take()


def case_failures(c):
    """a failing call neither breaks nor leaks into later ones"""
    hist = c
    mode = {"m": None}

    def f(ins):
        if mode["m"] == "raise":
            raise RuntimeError("trap")
        return [("i64", 55), ("mrf32", ins[0] * 2)]

    def g(ins):
        if mode["m"] == "raise":
            raise RuntimeError("trap")
        return [("i64", 77), ("mrf32", ins[0] * 3)]

    inv = load(mk_module({"f": (["f32"], f, [["i64", "mrf32"]]), "g": (["f32"], g, [["i64", "mrf32"]])}))
    x = np.array([1.0, 2.0], np.float32)
    for step, (name, what) in enumerate(hist):
        mode["m"] = what
        arg = x + step if what != "dtype" else (x + step).astype(np.uint16)
        try:
            out = getattr(inv, name)(arg) if what != "unknown" else getattr(inv, "nosuch")(arg)
            ok = True
        except Exception:
            ok = False
        if what is not None:
            if ok:
                raise Violation(f"fail:{what}", f"history {hist}: step {step} ({what}) returned {out!r}")
            continue
        if not ok:
            raise Violation(f"after:{hist[:step]}", f"history {hist}: step {step} failed after earlier failures")
        w = (x + step) * (2 if name == "f" else 3)
        if not same(out[1], w) or out[0] != (55 if name == "f" else 77):
            raise Violation(f"after:{hist[:step]}", f"history {hist}: step {step} gave {out!r}, expected {w!r}")
    return len(hist)


def case_unsupported(c):
    kind, v = c
    if kind == "result":
        try:
            inv = load(mk_module({"main": ([], lambda ins: [], [[v]])}))
        except Exception:
            return 1
        raise Violation(f"unsupported:{v}", f"a module that returns {v}, which has no counterpart, loads")
    a = np.zeros((2,), dtype=v)
    hit = []

    def fn(ins):
        hit.append(1)
        return [("mrf32", np.zeros((1,), np.float32))]

    inv = load(mk_module({"main": (["f32"], fn, [["mrf32"]])}))
    try:
        inv.main(a)
    except Exception:
        if not hit:
            return 1
    raise Violation(f"unsupported:{v}", f"an argument of dtype {v} is passed to the code")


# ---------------------------------------------------------------- conversions
def trees(depth, leaves):
    if depth == 0:
        return list(leaves)
    sub = trees(depth - 1, leaves)
    out = list(leaves)
    small = sub[:6] if depth > 1 else sub
    for k in ("T", "L"):
        out.append((k, ()))
        out += [(k, (a,)) for a in sub]
        out += [(k, p) for p in itertools.product(small, repeat=2)]
    out.append(("D", ()))
    out += [("D", (("x", a),)) for a in sub]
    out += [("D", (("x", a), ("y", b))) for a, b in itertools.product(small, repeat=2)]
    return out


LEAVES = [("t", torch.float32), ("t", torch.int64), ("f",), ("i",), ("b",), ("s",), ("t0", torch.float64), ("tt", torch.float32),
          ("te", torch.bool), ("t", torch.complex64), ("t", torch.uint8), ("t", torch.float16)]


def build(v):
    k = v[0]
    if k == "t":
        return torch.arange(1, 4).to(v[1])
    if k == "t0":
        return torch.tensor(2.5, dtype=v[1])
    if k == "tt":
        return torch.arange(6.0).reshape(2, 3).t()
    if k == "te":
        return torch.zeros((0, 2), dtype=v[1])
    if k in "fibs" and len(k) == 1:
        return {"f": 1.5, "i": -(2 ** 40), "b": True, "s": "str"}[k]
    if k == "T":
        return tuple(build(x) for x in v[1])
    if k == "L":
        return [build(x) for x in v[1]]
    return {a: build(b) for a, b in v[1]}


def eq(a, b, conv):
    """does a correspond to b under the conversion (conv: 'np' tensors became arrays; 't' tensors are tensors)"""
    if torch.is_tensor(b):
        if conv == "np":
            return isinstance(a, np.ndarray) and tuple(a.shape) == tuple(b.shape) and a.dtype == b.numpy().dtype and a.tolist() == b.tolist()
        return torch.is_tensor(a) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(eq(x, y, conv) for x, y in zip(a, b))
    if isinstance(b, dict):
        return list(a) == list(b) and all(eq(a[k], b[k], conv) for k in b)
    return a == b


def case_convert(v):
    from torch_mlir_e2e_test.configs import utils as U

    x = build(v)
    n = U.recursively_convert_to_numpy(x)
    if not eq(n, x, "np"):
        raise Violation(f"tonumpy:{v}", f"{x!r} converts to {n!r}")
    y = U.recursively_convert_from_numpy(n)
    if not eq(y, x, "t"):
        raise Violation(f"fromnumpy:{v}", f"{x!r} converts to {n!r} and back to {y!r}")
    return 1


def case_convert_bad(c):
    from torch_mlir_e2e_test.configs import utils as U

    kind, wrap, d = c
    v = {"none": None, "set": {1}, "object": object(), "complex": 1j, "bytes": b"x", "type": int}[kind]
    x = {"plain": v, "tuple": (1, v), "list": [v], "dict": {"k": v}}[wrap]
    fn = U.recursively_convert_to_numpy if d == "to" else U.recursively_convert_from_numpy
    try:
        r = fn(x)
    except Exception:
        return 1
    raise Violation(f"convert:{kind}", f"{x!r} is silently converted ({d}) to {r!r}")


def dispatch(c):
    return {"a": case_args, "ta": case_torch_args, "r": case_results, "h": case_history, "f": case_failures,
            "u": case_unsupported, "c": case_convert, "cb": case_convert_bad}[c[0]](c[1])


def run(ck):
    cases = []
    for tok in MEMREF:
        for shape in shapes(ck.thorough):
            for kind in LAYOUTS:
                cases.append(("a", ((tok,), shape, kind)))
                cases.append(("ta", (tok, shape, kind)))
    for a, b in itertools.product(MEMREF, repeat=2):
        for shape, kind in (((2, 3), "contiguous"), ((2, 3), "strided"), ((), "contiguous")):
            cases.append(("a", ((a, b), shape, kind)))
    few = list(MEMREF)[1:3] + ["i1", "i64"]
    for t in itertools.product(few, repeat=3):
        cases.append(("a", (t, (2, 2), "transposed")))
    toks = MR + SC
    for t in toks:
        cases.append(("r", ((t,), tuple(range(40)))))
    for t in itertools.product(toks, repeat=2):
        cases.append(("r", (t, (0, 1, 2, 3) if not ck.thorough else tuple(range(10)))))
    for t in itertools.product(toks, repeat=3):
        cases.append(("r", (t, (0, 3) if not ck.thorough else (0, 1, 2, 3, 4))))
    for t in itertools.product(["mrf32", "mri64", "i64", "f64", "i1"] if ck.thorough else ["mrf32", "i64", "f64"], repeat=4):
        cases.append(("r", (t, (0, 1))))
    for t in [("mrf32",) * 9, ("i64", "mrf32") * 5, ("f32", "f64", "i1", "i8", "i64", "mrf16", "mri1", "mrc64")]:
        cases.append(("r", (t, tuple(range(6)))))
    H = 4 if ck.thorough else 3
    for pair in itertools.product(range(len(SIGS)), repeat=2):
        for h in range(1, H + 1):
            for hist in itertools.product(range(2), repeat=h):
                cases.append(("h", (pair, hist)))
    for tr in itertools.permutations(range(len(SIGS)), 3) if ck.thorough else itertools.combinations(range(len(SIGS)), 3):
        for hist in itertools.permutations(range(3)):
            cases.append(("h", (tr, hist)))
        cases.append(("h", (tr, (0, 1, 2, 1, 0, 2))))
    ops = [(n, w) for n in "fg" for w in (None, "raise", "dtype", "unknown")]
    for h in range(1, 5 if ck.thorough else 4):
        for hist in itertools.product(ops, repeat=h):
            if hist[-1][1] is None:
                cases.append(("f", hist))
    for t in ("i2", "i32", "i16", "f16", "bf16", "mrbf16", "mri2", "mrf8", "index", "mrindex", "mr", "c32"):
        cases.append(("u", ("result", t)))
    for d in ("uint16", "uint32", "uint64", "S3", "U2", "M8[s]", "m8[s]", "O", "V4"):
        cases.append(("u", ("arg", d)))
    for v in trees(2, LEAVES) + (trees(3, LEAVES[:4]) if ck.thorough else []):
        cases.append(("c", v))
    for kind in ("none", "set", "object", "complex", "bytes", "type"):
        for w in ("plain", "tuple", "list", "dict"):
            for d in ("to", "from"):
                cases.append(("cb", (kind, w, d)))
    infos = ck.run_cases(cases, dispatch)
    ck.n_states_extra = len(cases)
    ck.transitions = sum((i[0] if isinstance(i, tuple) else i) or 0 for i in infos)
    for k in sorted({k for i in infos if isinstance(i, tuple) for k in i[1]}):
        ck.violation(k, KNOWN[k])
    ck.sample({"results": ["i64", "mrf32"], "value": [2 ** 40, "[0.0, -0.0, inf]"]})
    ck.sample({"functions": [SIGS[1], SIGS[2]], "history": ["f", "g", "f"]})

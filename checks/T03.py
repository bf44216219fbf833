"""T03: the library compiled into the passes computes what its Python source computes.

The shipped text is read and executed operation by operation. Every function of either side
exists on the other with the corresponding signature, and every enumerated call (accepted
by PyTorch or not) ends the same way on both: same value, or both raise.
"""
import inspect
import itertools
import sys
import typing

from mc import absint as A
from mc import absint_check as K
from mc import env  # noqa: F401
from mc.core import Violation

ID = "T03"
LEVEL = "model_checking"
RULE = "state = (function, call); every call within the width of a base call is executed on both sides"


def mlir_type(t):
    """the dialect type of a Python annotation"""
    if t is int:
        return "!torch.int"
    if t is float:
        return "!torch.float"
    if t is bool:
        return "!torch.bool"
    if t is str:
        return "!torch.str"
    if t is type(None):
        return "!torch.none"
    s = str(t)
    if s.endswith("torch.device'>") or "Device" in s or s.endswith(".device"):
        return "!torch.Device"
    o, a = typing.get_origin(t), typing.get_args(t)
    if o is list or t is list:
        return f"!torch.list<{mlir_type(a[0])[7:]}>"
    if o is tuple:
        return f"!torch.tuple<{', '.join(mlir_type(x)[7:] for x in a)}>"
    if o is typing.Union:
        rest = [x for x in a if x is not type(None)]
        inner = "!torch.number" if set(rest) == {int, float, complex} else mlir_type(rest[0]) if len(rest) == 1 else "?"
        return f"!torch.optional<{inner[7:]}>" if len(rest) < len(a) else inner
    if "Any" in s:
        return "!torch.any"
    return "?" + s


def run(ck):
    funcs, invs = A.load_python()
    import torch

    from mc import absint_calls as C
    from mc import upstream

    torch.set_num_threads(1)
    promote = upstream.Promotion()
    # both sides promote the way the compiler does: T04 compares that with PyTorch
    mod = sys.modules[A.PKG + ".abstract_interp_lib_gen"]
    by_code = {}
    for d in {v for v in vars(torch).values() if isinstance(v, torch.dtype)}:
        try:
            by_code[A.dtype_code(d)] = d
        except KeyError:
            pass
    mod.promote_dtypes = lambda ranks, dtypes: by_code.get(c := promote(ranks, A.to_lib(dtypes)), c)
    try:
        lib = A.Library(promote=promote)
    except (A.BadLibrary, ValueError, IndexError, KeyError, SyntaxError) as e:
        ck.violation("library", f"the shipped library is not well-formed: {type(e).__name__}: {e}")
        return
    # -- the same functions, the same signatures
    names = {A.lib_name(n): n for n in funcs}
    for ln in lib.fn:
        if ln.startswith("__torch_mlir_") and ln not in names:
            ck.violation(f"extra:{ln}", f"{ln} is shipped but has no Python source")
    for ln, n in names.items():
        ck.count(("sig", n))
        if ln not in lib.fn:
            ck.violation(f"absent:{ln}", f"{n} is not in the shipped library")
            continue
        want, ret = [], None
        sg = inspect.signature(funcs[n])
        for p in sg.parameters.values():
            want.append(mlir_type(p.annotation))
        ret = mlir_type(sg.return_annotation)
        got, gret = lib.sig[ln]
        if any(w.startswith("?") or "?" in w for w in want + [ret]):
            ck.extra["signatures_not_compared"] = ck.extra.get("signatures_not_compared", 0) + 1
            continue
        if got != want or gret != ret:
            ck.violation(f"signature:{ln}", f"{ln}: shipped as ({', '.join(got)}) -> {gret}, the source says ({', '.join(want)}) -> {ret}")
    # -- the same outcome for every call
    ops = C.operators(funcs, invs)
    width, limit = 2, (4 if ck.thorough else 1)
    cap = 10 ** 9 if ck.thorough else 20000
    cases, basis, none = [], {}, []
    for o in ops:
        b = basis[o.name] = C.bases(o, limit)
        if not b:
            none.append(o.title)
        for kind in ("shape", "dtype"):
            if o.f[kind] is None or A.lib_name(f"{o.name}〡{kind}") not in lib.fn:
                continue
            # the calls of the function's own tests, expected errors included
            cases.append((o.name, kind, -1, 0, 0, 1))
            for j, (base, dev) in enumerate(b):
                w = width
                while w > 1 and K.estimate(C, o, kind, base, w) > cap:
                    w -= 1
                n = 1 + K.estimate(C, o, kind, base, w) // 4000
                cases += [(o.name, kind, j, w, i, n) for i in range(n)]

    def calls_of(o, kind, j, w, i, n):
        if j < 0:
            for inv in o.inv + o.errinv:
                c = o.from_invocation(inv)
                if c:
                    yield c[0], C.show(c[0])
            return
        for k, x in enumerate(C.calls(o, kind, basis[o.name][j][0], w)):
            if k % n == i:
                yield x

    def one(case):
        name, kind, j, w, i, n = case
        o = C._by_name[name]
        tot = ok = 0
        bad = []
        for c, key in calls_of(o, kind, j, w, i, n):
            tot += 1
            p = o.run_fn(kind, c)
            l = o.run_lib(lib, kind, c)
            if p[0] == l[0] and (p[0] == "raise" or K.same(p[1], l[1])):
                ok += p[0] == "ok"
                continue
            bad.append((key, p, l))
        return tot, ok, bad

    infos = ck.run_cases(cases, one, chunk=8, nontrivial=lambda c, i: i[0] > 0)
    tot = ok = 0
    for case, i in zip(cases, infos):
        if i is None:
            continue
        tot += i[0]
        ok += i[1]
        for key, p, l in i[2][:3]:
            t = C._by_name[case[0]].title
            ck.violation(f"{case[1]} {t}({key})", f"{case[1]} function of {t}, arguments {key}: the Python source {p}, the shipped library {l}")
    ck.n_states_extra += tot
    ck.transitions += 2 * tot
    ck.traces += tot
    ck.extra.update(functions=len(names), calls=tot, calls_returning=ok, helpers=len(lib.fn) - len(names), without_base_call=none)
    ck.sample(f"{len(names)} functions, {len(lib.fn) - len(names)} helpers of the shipped library executed")
    ck.assumptions += [
        "the reader of the shipped text gives each operation of the torch dialect its TorchScript meaning",
        "messages of failed assertions are not compared",
        "type promotion on both sides is the compiler's (see T04)",
    ]

"""Library functions against the operators: the exploration shared by T01 and T02."""
import hashlib
import json
import os

from . import absint as A
from . import upstream as U
from .core import VERIF

DATA = os.path.join(VERIF, "data", "absint_known.json")
PER_CASE = 1500


def digest(*parts):
    return hashlib.sha1("|".join(map(repr, parts)).encode()).hexdigest()[:8]


def load_known():
    try:
        d = json.load(open(DATA))
    except FileNotFoundError:
        return {"shape": {}, "dtype": {}}
    return {k: {o: {c: set(x[c][j:j + 8] for j in range(0, len(x[c]), 8)) for c in ("wrong", "declined")}
                for o, x in v.items()} for k, v in d.items()}


def estimate(C, o, kind, base, width):
    ns = [len(C.domain(t, v, kind, n)) - 1 for (n, t, *_), v in zip(o.params, base)]
    s1 = sum(ns)
    e = 1 + s1
    if width > 1:
        e += (s1 * s1 - sum(n * n for n in ns)) // 2
    if width > 2:
        e += sum(ns[i] * ns[j] * ns[k] for i in range(len(ns)) for j in range(i) for k in range(j))
    return e


def judge(C, o, kind, call, dev, lib=None):
    """(did PyTorch accept the call, None or (got, expected))"""
    r = o.run_op(call, dev)
    if r[0] != "ok":
        return False, None
    exp = C.expected(kind, r[1], o)
    g = o.run_fn(kind, call)
    if lib is not None and not (kind == "dtype" and nameless(exp)):
        s = o.run_lib(lib, kind, call)
        if s != g and not (s[0] == g[0] and (s[0] == "raise" or same(s[1], g[1]))):
            # the library the compiler uses differs from its source: it is what counts, unless it is right
            if not (s[0] == "ok" and C.matches(s[1], exp)):
                g = s
    if g[0] == "ok" and C.matches(g[1], exp):
        return True, None
    if not C.defined(o, call):
        return False, None
    if dev == "meta":
        # the inference of PyTorch itself is sometimes off: the execution has to agree
        r2 = o.run_op(call, "cpu")
        if r2[0] != "ok":
            return False, None
        exp2 = C.expected(kind, r2[1], o)
        if exp2 != exp or g[0] == "ok" and C.matches(g[1], exp2):
            return False, None
        exp = exp2
    return True, (g, exp)


def nameless(exp):
    """the result has an element type the compiler has no name for (bfloat16 with a complex number)"""
    return exp == 46 or isinstance(exp, list) and any(nameless(x) for x in exp)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def explore(ck, kind, plan):
    """plan(estimate by width) -> (width, limit of base calls)"""
    funcs, invs = A.load_python()
    import torch

    from . import absint_calls as C

    torch.set_num_threads(1)
    try:
        lib = A.Library(promote=U.Promotion())
    except (A.BadLibrary, ValueError, IndexError, KeyError, SyntaxError) as e:
        ck.violation("library", f"the compiled library is not well-formed: {type(e).__name__}: {e}")
        return
    ops = C.operators(funcs, invs)
    cases, no_base, no_op = [], [], []
    with_fn = [o for o in ops if o.f[kind] is not None]
    basis = {}
    for o in with_fn:
        if o.op is None:
            no_op.append(o.title)
            continue
        b = basis[o.name] = C.bases(o, plan["bases"])
        if not b:
            no_base.append(o.title)
        for j, (base, dev) in enumerate(b):
            w = plan["width"]
            while w < plan.get("max_width", w) and estimate(C, o, kind, base, w + 1) <= plan["wide_if"]:
                w += 1
            while w > 1 and estimate(C, o, kind, base, w) > plan.get("narrow_if", 10 ** 9):
                w -= 1
            n = 1 + estimate(C, o, kind, base, w) // PER_CASE
            cases += [(o.name, j, w, i, n) for i in range(n)]
    missing = [f"{o.title}" for o in with_fn if o.op is None and not hasattr(o.f[kind], "_not_present_in_registry")]
    for m in missing:
        ck.violation(f"no-operator:{m}", f"{m} has a library function and PyTorch has no such operator")

    parent = os.getpid()

    def run(case):
        name, j, w, i, n = case
        C.limit_memory()
        if os.getpid() != parent:  # PyTorch's warnings, a line per call
            C.quiet()
        o = C._by_name[name]
        base, dev = basis[name][j]
        shipped = lib if o.f[kind] is not None and A.lib_name(f"{name}〡{kind}") in lib.fn else None
        tot = acc = 0
        bad = []
        for k, (c, key) in enumerate(C.calls(o, kind, base, w)):
            if k % n != i:
                continue
            tot += 1
            a, b = judge(C, o, kind, c, dev, shipped)
            acc += a
            if b:
                bad.append((key,) + b)
        return tot, acc, bad

    infos = ck.run_cases(cases, run, chunk=4, nontrivial=lambda c, i: i[1] > 0)
    known = load_known()[kind]
    tot = acc = 0
    wrong, declined, accepted = {}, {}, {}
    for (name, *_), i in zip(cases, infos):
        if i is None:
            continue
        t = C._by_name[name].title
        tot += i[0]
        acc += i[1]
        accepted[t] = accepted.get(t, 0) + i[1]
        for key, g, e in i[2]:
            if g[0] == "ok":
                wrong.setdefault(t, {})[key] = (g[1], e)
            else:
                declined.setdefault(t, {})[key] = (g[1], e)
    if os.environ.get("MC_RECORD"):
        _record(kind, wrong, declined)
        known = load_known()[kind]
    n_known = n_decl = 0
    for t, w in wrong.items():
        for key, (g, e) in w.items():
            if digest(key, g, e) in known.get(t, {}).get("wrong", ()):
                n_known += 1
                ck.violation(f"wrong:{t}", "a recorded wrong result")  # listed: prints the finding
            else:
                ck.violation(f"{t}({key})", f"{t}({key[1:-1]}): the {kind} function gives {g}, PyTorch {e}")
    for t, d in declined.items():
        for key, (g, e) in d.items():
            if digest(key) in known.get(t, {}).get("declined", ()):
                n_decl += 1
            else:
                ck.violation(f"{t}({key}) declined", f"{t}({key[1:-1]}): the {kind} function raises {g}, PyTorch gives {e}")
    ck.n_states_extra += tot
    ck.transitions += acc
    ck.traces += acc
    ck.extra.update(functions=len(with_fn), calls=tot, accepted_by_pytorch=acc,
                    functions_judged_on_accepted_calls=sum(1 for v in accepted.values() if v),
                    known_wrong_calls=n_known, unsupported_calls=n_decl,
                    without_base_call=no_base, without_operator=no_op)
    ck.sample(f"{len(basis)} operators x base calls, width {plan['width']}")
    for t in list(wrong)[:2]:
        k = next(iter(wrong[t]))
        ck.sample(f"{t}({k[1:-1]}) -> {wrong[t][k]}")
    return accepted


def _record(kind, wrong, declined):
    """development only: add the current deviations to the data file"""
    old = json.load(open(DATA)) if os.path.exists(DATA) else {"shape": {}, "dtype": {}}
    k = old[kind]
    for cat, src in (("wrong", wrong), ("declined", declined)):
        for t, m in src.items():
            e = k.setdefault(t, {"wrong": "", "declined": ""})
            s = {e[cat][j:j + 8] for j in range(0, len(e[cat]), 8)}
            for key, (g, ex) in m.items():
                s.add(digest(key, g, ex) if cat == "wrong" else digest(key))
            e[cat] = "".join(sorted(s))
            if m:
                key = next(iter(m))
                e.setdefault("example_" + cat, f"{t}({key[1:-1]}): {m[key][0]}; PyTorch: {m[key][1]}"[:300])
    os.makedirs(os.path.dirname(DATA), exist_ok=True)
    json.dump(old, open(DATA, "w"), indent=0, sort_keys=True)

"""E01: a test passes only if everything its calls took and returned matches the golden trace.

Pairs: every ordered pair (golden value, produced value) of a bounded universe of
values - all leaves of every supported kind with their special values, all
containers over representative leaves to depth 2 - is judged by the real
ValueReport/SingleTestReport and by an independent definition of "matches".
Traces: every pair of short traces over an alphabet of calls, at every position
and length combination, errors included.
"""
import itertools
import math

from mc import env

torch = env.quiet_torch()
from mc.core import Violation

ID = "E01"
LEVEL = "model_checking"
RULE = ("state = a (golden, produced) pair of values or traces of the bounded universe; transition = judging it "
        "with the real report classes; compared with an independent definition of a match")

INF, NAN = math.inf, math.nan


# ---------------------------------------------------------------- the universe
def leaves(thorough):
    f = [0.0, -0.0, 1.0, 1.0 + 1e-7, 1.00003, 1.0003, -1.0003, 1.01, -1.0, -1.0 - 1e-7, -1.01, 2.5, -2.5, 1e-9, 3e-9, -1e-9, 1e30, -1e30,
         INF, -INF, NAN, 1e5, 1.001e5]
    i = [0, 1, -1, 2, 1000, 1001, 2 ** 40, 2 ** 40 + 1, -(2 ** 63), True, False]
    s = ["", "a", "b", "1"]
    out = [("f", x) for x in f] + [("i", x) for x in i] + [("s", x) for x in s]
    dts = ["float32", "float64", "float16", "bfloat16", "int64", "int32", "int8", "uint8", "bool", "complex64"]
    data = {
        "float": [[1.0, 2.0], [1.0, 2.2], [1.0, 2.0005], [1.0, 2.006], [1.0, -2.006], [1.0, 3e-7], [2.0, 1.0], [1.0, -2.0], [1.0, NAN], [NAN, NAN], [1.0, INF], [1.0, -INF],
                  [1.0, 0.0], [1.0, 1e-3], [100.0, 101.0], [100.0, 100.0], [-100.0, -101.0], [-100.0, -100.0]],
        "int": [[1, 2], [1, 3], [2, 1], [0, 2], [100, 101], [100, 100]],
        "bool": [[True, False], [False, True], [True, True]],
        "complex": [[1 + 2j, 0j], [1 - 2j, 0j], [1 + 2j, 1j], [1 + 0j, 0j]],
    }
    for d in dts:
        dt = getattr(torch, d)
        k = "complex" if dt.is_complex else "float" if dt.is_floating_point else "bool" if dt == torch.bool else "int"
        for v in data[k]:
            out.append(("t", d, (2,), tuple(v)))
        v = data[k][0]
        for shape, vals in (((), v[:1]), ((1,), v[:1]), ((2, 1), v), ((1, 2), v), ((0,), []), ((0, 2), []),
                            ((2, 0), []), ((4,), v + v), ((2, 2), v + v)):
            out.append(("t", d, shape, tuple(vals)))
    return out


def containers(thorough):
    """trees of depth <= 2 over few leaves"""
    base = [("f", 1.0), ("f", -2.0), ("f", -3.0), ("i", 1), ("i", 2), ("s", "a"), ("t", "float32", (2,), (1.0, 2.0)),
            ("t", "float32", (2,), (1.0, 3.0)), ("t", "int64", (2,), (1, 2))]
    small = [base[i] for i in ((0, 1, 3, 6, 7) if not thorough else range(9))]
    d1 = []
    for k in ("T", "L"):
        d1.append((k,))
        for a in base:
            d1.append((k, a))
        for a, b in itertools.product(small, repeat=2):
            d1.append((k, a, b))
        for abc in itertools.product(small[:3], repeat=3):
            d1.append((k,) + abc)
    for keys in (("x",), ("y",), ("x", "y"), ("y", "x")):
        for vals in itertools.product(small, repeat=len(keys)):
            d1.append(("D", keys, vals))
    d1.append(("D", (), ()))
    inner = [("T", base[0]), ("T", base[0], base[6]), ("L", base[0], base[6]), ("L", base[6]), ("L", base[7]),
             ("T", base[0], base[7]), ("D", ("x",), (base[6],)), ("D", ("x",), (base[7],)), base[6], base[7], base[0]]
    d2 = []
    for k in ("T", "L"):
        for a in inner[:8]:
            d2.append((k, a))
        for a, b in itertools.product(inner, repeat=2):
            d2.append((k, a, b))
    for a in inner:
        d2.append(("D", ("x",), (a,)))
        d2.append(("D", ("x", "y"), (a, base[6])))
        d2.append(("D", ("x", "y"), (base[6], a)))
    return d1 + d2


def make(v):
    k = v[0]
    if k in "fis":
        return v[1]
    if k == "t":
        return torch.tensor(list(v[3]), dtype=getattr(torch, v[1])).reshape(v[2])
    if k == "T":
        return tuple(make(x) for x in v[1:])
    if k == "L":
        return [make(x) for x in v[1:]]
    if k == "D":
        return {a: make(b) for a, b in zip(v[1], v[2])}
    if k == "none":
        return None
    raise AssertionError(k)


def unwrap(v):
    while v[0] == "T" and len(v) == 2:
        v = v[1]
    return v


def near(a, b, rtol, atol):
    """True / False / None (within a factor of the tolerance: not judged)"""
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        if a == b:
            return True
    elif math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    elif math.isinf(a) or math.isinf(b) or a == b:
        return a == b
    tol = atol + rtol * abs(b)
    d = abs(a - b)
    if d <= tol / 2:
        return True
    if d > tol * 2:
        return False
    return None


def join(rs):
    rs = list(rs)
    if any(r is False for r in rs):
        return False
    return None if any(r is None for r in rs) else True


def match(v, g):
    """Does the produced value match the golden one?  None: not judged."""
    if nest(v) != nest(g) and max(nest(v), nest(g)) > 1:
        return None  # a one-element tuple and its element are the same result: only judged one layer deep
    if (v[0] == "T" and len(v) == 2) != (g[0] == "T" and len(g) == 2):
        return match(unwrap(v), unwrap(g))
    if v[0] != g[0]:
        return False
    k = g[0]
    if k == "f":
        if g[1] != 0 and v[1] != 0 or v[1] == g[1]:
            return near(v[1], g[1], 1e-4, 0)
        return False if abs(v[1] - g[1]) > 1e-6 or v[1] != v[1] else None
    if k == "i":
        if isinstance(v[1], bool) != isinstance(g[1], bool):
            return None if v[1] == g[1] else False
        return v[1] == g[1]
    if k == "s":
        return v[1] == g[1]
    if k == "t":
        if v[1] != g[1] or v[2] != g[2]:
            return False
        return join(near(a, b, 1e-3, 1e-7) for a, b in zip(make(v).flatten().tolist(), make(g).flatten().tolist()))
    if k in ("T", "L"):
        return len(v) == len(g) and join(match(a, b) for a, b in zip(v[1:], g[1:]))
    if k == "D":
        if sorted(v[1]) != sorted(g[1]):
            return False
        a, b = dict(zip(v[1], v[2])), dict(zip(g[1], g[2]))
        return join(match(a[x], b[x]) for x in a)
    raise AssertionError(k)


def nest(v):
    n = 0
    while v[0] == "T" and len(v) == 2:
        v, n = v[1], n + 1
    return n


# ---------------------------------------------------------------- known findings
class Crash(Exception):
    pass


def known(v, g):
    """What the verdict is, given the recorded defect of scalar float comparison
    (known_findings.json, golden-float): the difference is divided by the golden value itself."""
    if (v[0] == "T" and len(v) == 2) != (g[0] == "T" and len(g) == 2):
        return known(unwrap(v), unwrap(g))
    if v[0] != g[0]:
        return False
    if g[0] == "f":
        if g[1] == 0:
            raise Crash
        r = abs(v[1] - g[1]) / g[1]
        return None if 0.5e-4 < r < 2e-4 else not r > 1e-4
    if g[0] in ("T", "L"):
        return len(v) == len(g) and join([known(a, b) for a, b in zip(v[1:], g[1:])])
    if g[0] == "D":
        a, b = dict(zip(v[1], v[2])), dict(zip(g[1], g[2]))
        return sorted(a) == sorted(b) and join([known(a[x], b[x]) for x in a])
    return match(v, g)


def affected(g):
    """does the golden value hold a float the defect concerns?"""
    if g[0] == "f":
        return not (g[1] > 0 and g[1] < INF)
    kids = g[1:] if g[0] in ("T", "L") else g[2] if g[0] == "D" else ()
    return any(affected(x) for x in kids)


def is_known(v, g, got):
    """got: True (passed) / False / an exception"""
    if not (affected(g) or affected(v)):
        return False
    try:
        w = known(v, g)
    except Crash:
        return isinstance(got, ZeroDivisionError)
    return w is not None and got is w


# ---------------------------------------------------------------- value pairs
U = None


def case_values(gi):
    """one golden value against every value of the universe"""
    from torch_mlir_e2e_test.framework import TestResult, TraceItem
    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport

    g = U[gi]
    G = make(g)
    n = judged = eq = kn = 0
    bad = []
    for v in U:
        want = match(v, g)
        n += 1
        try:
            r = SingleTestReport(
                TestResult("t", None, None, [TraceItem("forward", [], make(v))], [TraceItem("forward", [], G)]),
                ErrorContext.empty())
            got = not r.failed
            if r.failed and not r.error_str().strip():
                raise Violation(f"nomsg:{show(g)}", f"golden {show(g)} value {show(v)}: failure without explanation")
        except Violation:
            raise
        except Exception as e:
            if is_known(v, g, e):
                kn += 1
                continue
            raise Violation(f"crash:{show(g)}", f"golden {show(g)}, value {show(v)}: {type(e).__name__}: {e}")
        if want is None:
            continue
        judged += 1
        eq += want
        if got != want:
            if is_known(v, g, got):
                kn += 1
            else:
                bad.append((v, got))
    if bad:
        v, got = bad[0]
        raise Violation(f"verdict:{show(g)}",
                        f"golden {show(g)}, value {show(v)}: reported {'passed' if got else 'failed'} "
                        f"({len(bad)} such values)")
    return n, judged, eq, ("golden-float",) if kn else ()


def show(v):
    k = v[0]
    if k in "fis":
        return repr(v[1])
    if k == "t":
        return f"{v[1]}{list(v[2])}{list(v[3])}"
    if k == "D":
        return "{" + ", ".join(f"{a}: {show(b)}" for a, b in zip(v[1], v[2])) + "}"
    s = ", ".join(show(x) for x in v[1:])
    return f"[{s}]" if k == "L" else f"({s},)" if k == "T" else k


# ---------------------------------------------------------------- traces
T1, T2 = ("t", "float32", (2,), (1.0, 2.0)), ("t", "float32", (2,), (1.0, 3.0))
CALLS = [("forward", (T1,), T1), ("forward", (T2,), T1), ("forward", (T1,), T2), ("sub.forward", (T1,), T1),
         ("forward", (T1, T2), T1), ("forward", (T1, T1), T1), ("forward", (), T1), ("forward", (T1,), ("T", T1, T1)),
         ("forward", (("f", -1.5),), ("f", -2.5)), ("forward", (("f", -1.5),), ("f", -2.0))]
ERRS = [(None, None), ("boom", None), (None, "boom")]


def mk_item(c):
    from torch_mlir_e2e_test.framework import TraceItem

    return TraceItem(c[0], [make(x) for x in c[1]], make(c[2]))


def case_traces(gt):
    """one golden trace (tuple of call indices) against every trace of the same bound"""
    from torch_mlir_e2e_test.framework import TestResult
    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport

    n = 0
    bad = []
    kn = set()
    for tr in TRACES:
        want = len(tr) == len(gt)
        kf = True  # the verdict on the common part, given the recorded defects
        for a, b in zip(tr, gt):
            x, y = CALLS[a], CALLS[b]
            want = want and x[0] == y[0] and len(x[1]) == len(y[1]) and match(x[2], y[2]) is True and all(
                match(p, q) is True for p, q in zip(x[1], y[1]))
            kf = kf and x[0] == y[0] and len(x[1]) == len(y[1]) and known(x[2], y[2]) is True and all(
                known(p, q) is True for p, q in zip(x[1], y[1]))
        try:
            r = SingleTestReport(TestResult("t", None, None, [mk_item(CALLS[a]) for a in tr],
                                            [mk_item(CALLS[a]) for a in gt]), ErrorContext.empty())
            got = not r.failed
            if r.failed and not r.error_str().strip():
                raise Violation(f"nomsg:{gt}", f"golden {gt} trace {tr}: failure without explanation")
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"crash:{gt}", f"golden trace {gt}, trace {tr}: {type(e).__name__}: {e}")
        n += 1
        if got != want:
            if got and kf and len(tr) != len(gt):
                kn.add("trace-length")
            elif got and kf and any(affected(v) for a in gt for v in (*CALLS[a][1], CALLS[a][2])):
                kn.add("golden-float")
            else:
                bad.append((tr, got))
    if bad:
        tr, got = bad[0]
        raise Violation(f"trace:{gt}", f"golden trace of calls {gt}, produced trace {tr}: reported "
                        f"{'passed' if got else 'failed'} ({len(bad)} such traces)")
    return n, n, 1, tuple(kn)


def case_errors(c):
    from torch_mlir_e2e_test.framework import TestResult
    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport

    ce, re = c
    r = SingleTestReport(TestResult("t", ce, re, None, None), ErrorContext.empty())
    if not r.failed:
        raise Violation(f"error:{c}", f"compilation error {ce!r}, runtime error {re!r}: reported passed")
    if (ce if ce is not None else re) not in r.error_str():
        raise Violation(f"error:{c}", f"the report does not show the error {c}: {r.error_str()!r}")
    return 1, 1, 0


def case_unsupported(g):
    """A golden value of a kind the framework cannot compare is never a pass."""
    from torch_mlir_e2e_test.framework import TestResult, TraceItem
    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport

    G = {"None": None, "object": object(), "tuple_None": (1, None), "set": {1}}[g]
    r = SingleTestReport(TestResult("t", None, None, [TraceItem("forward", [], G)], [TraceItem("forward", [], G)]),
                         ErrorContext.empty())
    if not r.failed:
        raise Violation(f"unsupported:{g}", f"golden value {G!r}: reported passed")
    return 1, 1, 0


def case_position(c):
    """One difference at one position of a long value or trace is always found."""
    from torch_mlir_e2e_test.framework import TestResult, TraceItem
    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport

    kind, n, pos, delta = c

    def build(at):
        if kind == "trace":
            return [TraceItem(f"f{i}", [torch.ones(1)], torch.full((2,), i + (delta if i == at else 0.0)))
                    for i in range(n)]
        if kind == "input":
            return [TraceItem("f", [torch.full((2,), i + (delta if i == at else 0.0)) for i in range(n)], 1)]
        if kind in ("tuple", "list"):
            v = [torch.full((2,), i + (delta if i == at else 0.0)) for i in range(n)]
            out = tuple(v) if kind == "tuple" else v
        elif kind == "floats":
            out = [float(i + 1) + (delta if i == at else 0.0) for i in range(n)]
        elif kind == "dict":
            out = {f"k{i}": float(i + 1) + (delta if i == at else 0.0) for i in range(n)}
        else:
            t = (torch.arange(n) % 7).to(getattr(torch, kind))
            if at is not None:
                t[at] = (t[at] + delta).to(t.dtype)
            out = t.reshape({24: (2, 3, 4), 60: (5, 4, 3)}.get(n, (n,)))
        return [TraceItem("f", [], out)]

    for a, b, want in ((None, None, True), (pos, None, False), (None, pos, False), (pos, pos, True)):
        r = SingleTestReport(TestResult("t", None, None, build(a), build(b)), ErrorContext.empty())
        if r.failed == want:
            raise Violation(f"position:{kind}/{n}", f"{kind} of {n}: difference {delta} at {pos} in "
                            f"({'value' if a is not None else ''} {'golden' if b is not None else ''}): "
                            f"reported {'failed' if r.failed else 'passed'}")
    return 4, 4, 2


def positions(thorough):
    for kind in ("trace", "input", "tuple", "list", "floats", "dict"):
        for n in range(1, 13 if thorough else 8):
            for pos in range(n):
                for d in (0.5, -0.5):
                    yield kind, n, pos, d
    for kind in ("float32", "float64", "float16", "bfloat16", "int64", "int8", "complex64"):
        for n in (1, 24, 60, 4096):
            for pos in range(n) if n < 100 else (0, 1, 999, 1000, 1001, 2047, 4095):
                for d in (1, -1, 3):
                    yield kind, n, pos, d


KNOWN = {"golden-float": "golden float that is negative, zero or not finite: not compared, or ZeroDivisionError",
         "trace-length": "a produced trace that is a proper prefix or extension of the golden trace is reported as passed"}


def dispatch(c):
    return {"p": case_position, "v": case_values, "t": case_traces, "e": case_errors, "u": case_unsupported}[c[0]](c[1])


def run(ck):
    global U, TRACES
    U = leaves(ck.thorough) + containers(ck.thorough)
    TRACES = [()] + [(a,) for a in range(len(CALLS))] + list(itertools.product(range(len(CALLS)), repeat=2))
    if ck.thorough:
        TRACES += list(itertools.product(range(6), repeat=3))
    cases = [("v", i) for i in range(len(U))] + [("t", t) for t in TRACES]
    cases += [("e", c) for c in ((("boom", None)), (None, "boom"), ("", None), (None, ""), ("x", "y"))]
    cases += [("u", c) for c in ("None", "object", "tuple_None", "set")]
    cases += [("p", c) for c in positions(ck.thorough)]
    infos = ck.run_cases(cases, dispatch)
    for k in sorted({k for i in infos if i and len(i) > 3 for k in i[3]}):
        ck.violation(k, KNOWN[k])
    ck.n_states_extra = sum(i[0] for i in infos if i)
    ck.transitions = ck.n_states_extra
    ck.extra["judged_pairs"] = sum(i[1] for i in infos if i)
    ck.extra["matching_pairs"] = sum(i[2] for i in infos if i)
    ck.extra["values"] = len(U)
    ck.extra["traces"] = len(TRACES)
    ck.sample({"golden": show(U[7]), "value": show(U[4]), "match": match(U[4], U[7])})
    ck.sample({"golden_trace": TRACES[12], "calls": [str(CALLS[i]) for i in TRACES[12]]})

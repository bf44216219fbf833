"""Operator calls through the repository's passes: the exploration shared by C01 and C02."""
import hashlib
import json
import os

from . import env, mlirpass as M
from .core import VERIF

DATA = os.path.join(VERIF, "data", "pass_known.json")


def digest(*parts):
    return hashlib.sha1("|".join(map(repr, parts)).encode()).hexdigest()[:8]


def load_known(pid):
    try:
        d = json.load(open(DATA)).get(pid, {})
    except FileNotFoundError:
        return {}
    return {o: set(x["wrong"][j:j + 8] for j in range(0, len(x["wrong"]), 8)) for o, x in d.items()}


def record(pid, bad):
    """development only: add the current deviations to the data file"""
    old = json.load(open(DATA)) if os.path.exists(DATA) else {}
    k = old.setdefault(pid, {})
    for (t, mode, key), text in bad.items():
        e = k.setdefault(t, {"wrong": "", "example": f"{t}{key}, {mode}: {text}"[:300]})
        s = {e["wrong"][j:j + 8] for j in range(0, len(e["wrong"]), 8)}
        s.add(digest(mode, key))
        e["wrong"] = "".join(sorted(s))
    json.dump(old, open(DATA, "w"), indent=0, sort_keys=True)


def explain(r):
    return "crash: " + r["crash"] if "crash" in r else f"{r.get('failed', 'invalid')}: {'; '.join(r['diags'])[:300]}"


def judge(S, J, o, call, modes):
    """modes: [(name, spec, pipeline, greedy order)] -> ([(mode, text)] or None, fired)"""
    specs = tuple(dict.fromkeys(m[1] for m in modes))
    fs = J.eager(o.name, call, specs)
    if fs is None or isinstance(fs, str):
        return None, {}
    bad, fired, done = [], {}, {}
    for name, d, pipeline, order in modes:
        f = fs[specs.index(d)]
        if f is None:
            continue
        r = S.run([f], pipeline, order=order)
        for p, n in r["fired"].items():
            fired[p] = fired.get(p, 0) + n
        if not r["ok"]:
            bad.append((name, explain(r)))
            continue
        if not r["fired"]:
            continue
        k = json.dumps([d if not isinstance(d, bool) else 0, r["ops"]])
        if k not in done:
            done[k] = J.execute(r["ops"], d)
        if done[k]:
            bad.append((name, done[k]))
    return bad, fired


def explore(ck, todo, C, modes_of, width, bases, per_case, exe, kinds=("shape", "dtype")):
    """every call of every operator of todo -> {(operator, mode, call): text}, patterns fired"""
    from . import passcalls as P

    basis, cases = {}, []
    for o in todo:
        for j, (base, dev) in enumerate(C.bases(o, bases)):
            basis[o.name, j] = base
            for kind in kinds:
                n = sum(1 for _ in C.calls(o, kind, base, width))
                k = 1 + n // per_case
                cases += [(o.name, kind, j, i, k) for i in range(k)]
    S, J = M.Server(exe), P.Judge()
    parent = os.getpid()

    def one(case):
        name, kind, j, i, k = case
        if os.getpid() != parent:
            C.quiet()
        o = C._by_name[name]
        tot = acc = runs = 0
        bad, fired = [], {}
        for x, (c, key) in enumerate(C.calls(o, kind, basis[name, j], width)):
            if x % k != i or not C.defined(o, c):
                continue
            tot += 1
            ms = modes_of(kind)
            b, f = judge(S, J, o, c, ms)
            if b is None:
                continue
            acc += 1
            runs += len(ms)
            for p, n in f.items():
                fired[p] = fired.get(p, 0) + n
            bad += [(mode, key, text) for mode, text in b]
        return tot, acc, runs, bad, fired

    infos = ck.run_cases(cases, one, chunk=1, nontrivial=lambda c, i: i[1] > 0)
    tot = acc = runs = 0
    fired, wrong = {}, {}
    for (name, *_), i in zip(cases, infos):
        if i is None:
            continue
        t = C._by_name[name].title
        tot += i[0]
        acc += i[1]
        runs += i[2]
        for p, n in i[4].items():
            fired[p] = fired.get(p, 0) + n
        for mode, key, text in i[3]:
            wrong.setdefault((t, mode, key), text)
    ck.n_states_extra += tot
    ck.transitions += runs
    ck.traces += acc
    for k, v in dict(operators=len(todo), calls=tot, accepted_by_pytorch=acc, pass_runs=runs).items():
        ck.extra[k] = ck.extra.get(k, 0) + v
    ck.sample(f"{len(todo)} operators, {len(cases)} parts, width {width}")
    return wrong, fired


def report(ck, pid, wrong):
    if os.environ.get("MC_RECORD"):
        record(pid, wrong)
    known = load_known(pid)
    n = 0
    for (t, mode, key), text in wrong.items():
        if digest(mode, key) in known.get(t, ()):
            n += 1
            ck.violation(f"wrong:{t}", "a recorded wrong result")
        else:
            ck.violation(f"{t}/{mode}({key})", f"{t}{key}, {mode}: {text}", {"op": t, "mode": mode, "call": key})
    ck.extra["known_wrong"] = n

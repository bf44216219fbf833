"""C02: canonicalization keeps what a program computes.

The folders, canonicalization patterns and memory effects of lib/Dialect/Torch/IR/TorchOps.cpp are compiled on mc/mlir.
Two families of functions go through them: one call of an operator on tensors (constants, constants of one value, or
arguments of static or dynamic extents), judged by PyTorch's execution of the operator; and small programs over
numbers, lists, dictionaries, branches, loops and mutable tensors, judged by their own execution before the pass.
"""
import json
import os

from mc import env, mlirpass as M

ID = "C02"
LEVEL = "model_checking"
RULE = "state = a function of one operator call or a small program; every state is canonicalized by the compiled folders and patterns and executed"
K = ["canonicalize"]
CALLS = [("static", False, K, 1), ("literals", 0, K, 1), ("splats", ("s", 0), K, 1), ("other splats", ("s", 1), K, 1)]
DYNAMIC = [("dynamic", True, K, 1)]
OTHER = [("static, other order", False, K, 0), ("literals, other order", 0, K, 0)]
PLAIN = [("canonicalize", K, 1)]
CSE = PLAIN + [("cse", ["cse", "canonicalize", "cse"], 1)]
FULL = CSE + [("canonicalize, other order", K, 0)]


def setup():
    env.install_fake_mlir()
    from mc import absint as A, absint_calls as C

    exe = M.build(["decompose", "canonicalize"], env.REPO)
    funcs, invs = A.load_python()
    return exe, C.operators(funcs, invs), C


def families(exe, thorough):
    """name -> (modes, programs)"""
    from mc import passprog as P

    flags = json.load(open(os.path.join(os.path.dirname(exe), "ops.json")))
    t = thorough
    return {
        "scalars": (FULL if t else PLAIN, lambda: ((x, (lambda p=p: p)) for n, ps, r in P.scalar_operators(flags) for x, p in P.operator_programs(n, ps, r))),
        "lists": (CSE, lambda: P.list_programs(2)),
        "long lists": (PLAIN, lambda: P.list_programs(3, ("x 5", "5 3") if t else ("x 5",))),
        "dictionaries": (FULL if t else CSE, lambda: P.dict_programs(3 if t else 2)),
        "branches": (FULL if t else CSE, lambda: P.if_programs(t)),
        "loops": (FULL if t else CSE, lambda: P.loop_programs(t)),
        "mutable tensors": (FULL if t else CSE, lambda: P.tensor_programs(6 if t else 5)),
        "integers": (CSE if t else PLAIN, lambda: P.int_programs([0, 1, 2, -3] if t else [0, 2])),
    }


def run(ck):
    exe, ops, C = setup()
    from mc import passcheck as P

    t = ck.tier == "thorough"
    todo = [o for o in ops if o.op is not None and not o.mutable]
    flags = json.load(open(os.path.join(os.path.dirname(exe), "ops.json")))
    deep = [o for o in todo if any(flags.get("torch." + o.title, ()))]
    modes = CALLS + (OTHER if t else [])
    wrong, fired = P.explore(ck, deep, C, lambda kind: modes + (DYNAMIC if kind == "shape" else []), 1, 3, 60, exe)
    rest = [o for o in todo if o not in deep]
    w, f = P.explore(ck, rest, C, lambda kind: CALLS[:2] + DYNAMIC, 0, 3, 60, exe, ("shape",))
    wrong.update(w)
    programs(ck, exe, wrong)
    P.report(ck, ID, wrong)
    ck.extra["patterns_fired"] = len(fired)
    ck.assumptions += [
        "the folders and patterns are compiled against mc/mlir, a small implementation of the MLIR classes they use; its greedy driver visits "
        "operations in either direction until nothing changes",
        "PyTorch's CPU kernels execute the operators; tensor results agree within a tolerance of the element type, everything else exactly",
        "calls differ from a base call (the library's test invocations) in at most one parameter; operators without a folder, pattern or verifier "
        "only see their base calls",
        "programs that raise are not judged",
    ]


def programs(ck, exe, wrong):
    from mc import passprog as P

    fams = families(exe, ck.tier == "thorough")
    n = {"integers": 24, "long lists": 24, "branches": 12, "loops": 16}
    cases = [(f, i, n.get(f, 4)) for f in fams for i in range(n.get(f, 4))]

    def one(case):
        f, i, k = case
        modes, gen = fams[f]
        R = P.Runner(exe, modes)
        tot, bad = 0, []
        for j, (text, make) in enumerate(gen()):
            if j % k != i:
                continue
            tot += 1
            bad += [(mode, text, x) for mode, x in R.judge(*make())]
        return tot, R.executed, len(modes), bad, R.fired

    infos = ck.run_cases(cases, one, chunk=1, nontrivial=lambda c, i: i[0] > 0)
    count = {}
    for (f, i, k), r in zip(cases, infos):
        if r is None:
            continue
        count[f] = count.get(f, 0) + r[0]
        ck.n_states_extra += r[0]
        ck.transitions += r[0] * r[2]
        ck.traces += r[1]
        for mode, text, x in r[3]:
            wrong[f, mode, text] = x
    ck.extra["programs"] = count
    ck.sample("programs: " + ", ".join(f"{n} {f}" for f, n in count.items()))


def replay(ck, data):
    exe, ops, C = setup()
    from mc import passcalls, passcheck as P, passprog

    fams = families(exe, True)
    if data["op"] in fams:
        R = passprog.Runner(exe, [m for m in FULL if m[0] == data["mode"]])
        for text, make in fams[data["op"]][1]():
            if text == data["call"]:
                for mode, x in R.judge(*make()):
                    ck.violation(f"{data['op']}/{mode}({text})", x, data)
        return
    S, J = M.Server(exe), passcalls.Judge()
    for o in ops:
        if o.title == data["op"]:
            for kind in ("shape", "dtype"):
                for base, dev in C.bases(o, 3):
                    for c, key in C.calls(o, kind, base, 1):
                        if key == data["call"]:
                            b, _ = P.judge(S, J, o, c, [m for m in CALLS + DYNAMIC + OTHER if m[0] == data["mode"]])
                            for mode, text in b or ():
                                ck.violation(f"{o.title}/{mode}({key})", f"{o.title}{key}, {mode}: {text}", data)
                            return

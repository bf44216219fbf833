"""C01: decomposing an operator keeps what it computes.

Every call within the width of an operator's base calls, with static and with dynamic extents, is put into a
function; the repository's own decomposition pass (compiled against mc/mlir) runs on it, and PyTorch executes the
operator and what the pass left.
"""
from mc import env, mlirpass as M

ID = "C01"
LEVEL = "model_checking"
RULE = "state = a function calling one operator; every state is decomposed by the compiled pass and executed beside the operator"
D = ["decompose"]
QUICK = [("static", False, D, 1), ("dynamic", True, D, 1)]
THOROUGH = QUICK + [("static, other order", False, D, 0), ("dynamic, other order", True, D, 0),
                    ("static, canonical", False, ["canonicalize", "decompose", "canonicalize"], 1),
                    ("dynamic, canonical", True, ["canonicalize", "decompose", "canonicalize"], 1)]


def setup():
    env.install_fake_mlir()
    from mc import absint as A, absint_calls as C

    exe = M.build(["decompose", "canonicalize"], env.REPO)
    b = M.B()
    r = M.Server(exe).run([b.func("main", [])], ["decompose"], patterns=True)
    funcs, invs = A.load_python()
    return exe, r["patterns"], C.operators(funcs, invs), C


def run(ck):
    exe, patterns, ops, C = setup()
    from mc import passcheck as P

    roots = set(patterns.values())
    todo = [o for o in ops if "torch." + o.title in roots and o.op is not None and not o.mutable]

    def modes(kind):
        return THOROUGH if ck.thorough else QUICK if kind == "shape" else QUICK[:1]

    wrong, fired = P.explore(ck, todo, C, modes, 1, 3, 60, exe)
    legal(ck, exe, patterns, todo, C)
    P.report(ck, ID, wrong)
    ck.extra["patterns"] = len(patterns)
    ck.extra["patterns_fired"] = len([p for p in fired if p in patterns])
    ck.extra["never_fired"] = sorted(p for p in patterns if p not in fired)
    ck.extra["evaluations"] = ck.extra["pass_runs"]
    ck.assumptions += [
        "the pass is compiled against mc/mlir, a small implementation of the MLIR classes it uses; its greedy driver visits "
        "operations in either direction until nothing changes",
        "PyTorch's CPU kernels execute both sides, on two assignments of values; results agree within a tolerance of the element type",
        "calls differ from a base call (the library's test invocations) in at most one parameter",
        "calls PyTorch rejects, and results that depend on a random number, are not judged by value",
    ]


def legal(ck, exe, patterns, todo, C):
    """an operator a backend declares legal is left"""
    from mc import passcalls as P

    S, J = M.Server(exe), P.Judge()
    n = 0
    for o in todo:
        for base, dev in C.bases(o, 1):
            fs = J.eager(o.name, base, (False,))
            if fs is None or isinstance(fs, str):
                continue
            n += 1
            r = S.run([fs[0]], [{"pass": "decompose", "legal": [o.title]}])
            hit = [p for p in r["fired"] if patterns.get(p) == "torch." + o.title]
            if hit or not r["ok"]:
                ck.violation(f"legal:{o.title}", f"{o.title} declared legal is decomposed all the same: {hit or P_explain(r)}")
    ck.transitions += n
    ck.extra["declared_legal"] = n


def P_explain(r):
    from mc import passcheck

    return passcheck.explain(r)


def replay(ck, data):
    exe, patterns, ops, C = setup()
    from mc import passcalls, passcheck as P

    S, J = M.Server(exe), passcalls.Judge()
    for o in ops:
        if o.title == data["op"]:
            for kind in ("shape", "dtype"):
                for base, dev in C.bases(o, 3):
                    for c, key in C.calls(o, kind, base, 1):
                        if key == data["call"]:
                            b, _ = P.judge(S, J, o, c, [m for m in THOROUGH if m[0] == data["mode"]])
                            for mode, text in b or ():
                                ck.violation(f"{o.title}/{mode}({key})", f"{o.title}{key}, {mode}: {text}")
                            return

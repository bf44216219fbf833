"""O04: control-flow bodies of ONNX models import faithfully.

Every program of one control-flow operator (If, Loop in all condition/trip-count
forms, Scan, SequenceMap) over every body of <= 2 statements, every nesting of
two (thorough: three) of them, with bodies reading values of every enclosing
level, local constants and initializers, function operators, and with local
names unique or shared between sibling bodies; each executed for every condition
and trip count.
"""
import itertools

from mc import env

env.install_fake_mlir()
import numpy as np
import onnx
from onnx import TensorProto as TP
from onnx import helper as H

from mc import onnxlib as O
from mc.core import Violation
from mc.interp import InterpError

ID = "O04"
LEVEL = "model_checking"
RULE = ("state = (program, condition, trip count); transition = one statement or region executed; every "
        "program is imported by the real importer and executed against an evaluator of the model")

SH = [2]
X = np.float32([1.5, -2.0])
Y = np.float32([0.25, 3.0])
LEAF = [("add", "x", "last"), ("sub", "last", "x"), ("sub", "outer", "last"), ("sub", "arg", "outer"),
        ("const",), ("init",), ("mvn", "last"), ("mvn", "outer"), ("cval",), ("late",)]
KINDS = ["If", "IfR", "Loop", "LoopM", "LoopC", "LoopS", "Scan", "Scan2", "SeqMap"]


def f(name, shape=SH, et=TP.FLOAT):
    return H.make_tensor_value_info(name, et, shape)


class Gen:
    def __init__(self, shared):
        self.shared, self.n = shared, 0

    def name(self, base, path):
        # shared: siblings reuse one another's local names; nesting levels stay distinct (SSA)
        if self.shared:
            k = sum(1 for _ in path)
            self.cnt[k] = self.cnt.get(k, 0) + 1
            return f"{base}{k}_{self.cnt[k]}"
        self.n += 1
        return f"{base}_{self.n}"

    def body(self, stmts, scope, path, outs):
        """-> (nodes, initializers, result name); scope: dict(x, outer, arg, last)"""
        nodes, inits = [], []
        if self.shared:
            saved = dict(getattr(self, "cnt", {}))
            k = len(path)
            self.cnt = {a: b for a, b in saved.items() if a < k}
        sc = dict(scope)
        for st in stmts:
            r = self.name("v", path)
            if st[0] in ("add", "sub"):
                nodes.append(H.make_node("Add" if st[0] == "add" else "Sub", [sc[st[1]], sc[st[2]]], [r]))
            elif st[0] == "const":
                c = self.name("c", path)
                nodes.append(H.make_node("Constant", [], [c], value=H.make_tensor("k", TP.FLOAT, SH, [10. + len(path), -1.])))
                nodes.append(H.make_node("Mul", [sc["last"], c], [r]))
            elif st[0] == "cval":
                c = self.name("c", path)
                nodes.append(H.make_node("Constant", [], [c], value_floats=[0.5, 7.0 + len(path)]))
                nodes.append(H.make_node("Sub", [c, sc["last"]], [r]))
            elif st[0] == "init":
                c = self.name("w", path)
                inits.append(H.make_tensor(c, TP.FLOAT, SH, [3. + len(path), 0.5]))
                nodes.append(H.make_node("Sub", [c, sc["last"]], [r]))
            elif st[0] == "mvn":
                nodes.append(H.make_node("MeanVarianceNormalization", [sc[st[1]]], [r], axes=[0]))
            elif st[0] == "late":
                # a value named like one which the enclosing graph defines only later
                nodes.append(H.make_node("Neg", [sc["last"]], ["late"] if path and not self.late else [r]))
                if path and not self.late:
                    r = "late"
                    self.late = True
            elif st[0] == "ctl":
                n2, i2, r = self.ctl(st[1], st[2:], sc, path)
                nodes += n2
                inits += i2
            sc["last"] = r
        res = sc["last"]
        if self.shared:
            cur = self.cnt
            self.cnt = {**saved}
            if outs is None:
                self.cnt = cur
        return nodes, inits, res

    def close(self, stmts, sc, path, gname, ins, pre=(), post=None):
        nodes, inits, res = self.body(stmts, sc, path, True)
        out = self.name("o", path) if not self.shared else f"o{len(path)}"
        nodes = list(pre) + nodes + [H.make_node("Identity", [res], [out])]
        outs = [f(out)]
        if post:
            n, o = post(res)
            nodes += n
            outs = o(outs)
        return H.make_graph(nodes, gname, ins, outs, initializer=inits)

    def ctl(self, kind, bodies, sc, path):
        depth = len(path)
        sc = dict(sc)
        inner = dict(sc, outer=sc["last"], arg=sc["last"])
        r = self.name("r", path)
        u = f"{depth}" if self.shared else self.name("u", path)
        if kind in ("If", "IfR"):
            t = self.close(bodies[0], inner, path + ("t",), "tg", [])
            e = self.close(bodies[1 % len(bodies)], inner, path + ("e",), "eg", [])
            n = H.make_node("If", [f"b{min(depth, 1)}"], [r])
            at = [H.make_attribute("then_branch", t), H.make_attribute("else_branch", e)]
            n.attribute.extend(at if kind == "If" else at[::-1])
            return [n], [], r
        if kind.startswith("Loop"):
            a = f"la{u}"
            ci, co, it = f"ci{u}", f"co{u}", f"it{u}"
            pre = []
            if kind == "LoopC":  # stop by condition: x-independent, after two iterations
                pre = [H.make_node("Constant", [], [f"lim{u}"], value_int=1),
                       H.make_node("Less", [it, f"lim{u}"], [co])]
            else:
                pre = [H.make_node("Identity", [ci], [co])]
            ins = [f(it, [], TP.INT64), f(ci, [], TP.BOOL), f(a)]
            isc = dict(inner, arg=a, last=a)

            def post(res):
                if kind != "LoopS":
                    return [], lambda o: [f(co, [], TP.BOOL)] + o
                return ([H.make_node("Cast", [it], [f"itf{u}"], to=TP.FLOAT),
                         H.make_node("Add", [res, f"itf{u}"], [f"so{u}"])],
                        lambda o: [f(co, [], TP.BOOL)] + o + [f(f"so{u}")])

            g = self.close(bodies[0], isc, path + ("l",), "lg", ins, pre, post)
            m = "" if kind == "LoopC" else f"m{min(depth, 1)}"
            c = "" if kind in ("LoopM",) else f"b{min(depth, 1)}"
            if kind == "LoopC":
                c = "true"
            outs = [r] + ([f"{r}_s"] if kind == "LoopS" else [])
            nodes = [H.make_node("Loop", [m, c, sc["last"]], outs, body=g)]
            if kind == "LoopS":
                rr = self.name("r", path)
                nodes += [H.make_node("ReduceSum", [f"{r}_s", "ax0"], [f"{r}_q"], keepdims=0),
                          H.make_node("Sub", [r, f"{r}_q"], [rr])]
                r = rr
            return nodes, [], r
        if kind.startswith("Scan"):
            a, s = f"sa{u}", f"ss{u}"
            isc = dict(inner, arg=s, last=a)
            so = f"sso{u}"

            def post(res):
                return [H.make_node("Sub", [res, s], [so])], lambda o: o + [f(so)]

            g = self.close(bodies[0], isc, path + ("s",), "sg", [f(a), f(s)], (), post)
            kw = dict(scan_input_directions=[1], scan_output_directions=[1]) if kind == "Scan2" else {}
            if kind == "Scan2":
                kw["scan_output_axes"] = [1]
            rr = self.name("r", path)
            return [H.make_node("Scan", [sc["last"], "xs"], [r, f"{r}_s"], body=g, num_scan_inputs=1, **kw),
                    H.make_node("ReduceMax", [f"{r}_s"], [f"{r}_q"], keepdims=0,
                                axes=[1 if kind == "Scan2" else 0]),
                    H.make_node("Sub", [r, f"{r}_q"], [rr])], [], rr
        if kind == "SeqMap":
            e, e2 = f"qe{u}", f"qf{u}"
            isc = dict(inner, arg=e2, last=e)
            g = self.close(bodies[0], isc, path + ("q",), "qg", [f(e), f(e2)])
            q, z = self.name("q", path), self.name("z", path)
            return [H.make_node("SequenceConstruct", [sc["last"], sc["x"]], [q]),
                    H.make_node("SequenceMap", [q, sc["x"]], [z], body=g),
                    H.make_node("SequenceAt", [z, "one"], [r])], [], r
        raise AssertionError(kind)


def build(spec, shared):
    g = Gen(shared)
    g.cnt, g.late = {}, False
    nodes, inits, res = g.body(spec, dict(x="x", outer="y", arg="y", last="y"), (), None)
    nodes.append(H.make_node("Identity", [res], ["out"]))
    outs = [f("out")]
    if g.late:
        nodes.append(H.make_node("Add", ["x", "out"], ["late"]))
        nodes.append(H.make_node("Neg", ["late"], ["out2"]))
        outs.append(f("out2"))
    used = {i for n in nodes for i in n.input} | set(inner_inputs(nodes))
    ins = [v for v in (f("x"), f("y"), f("b0", [], TP.BOOL), f("b1", [], TP.BOOL), f("m0", [], TP.INT64),
                       f("m1", [], TP.INT64), f("xs", [3, 2])) if v.name in used or v.name in "xy"]
    consts = [H.make_tensor("true", TP.BOOL, [], [True]), H.make_tensor("ax0", TP.INT64, [1], [0]),
              H.make_tensor("one", TP.INT64, [], [1])]
    gr = H.make_graph(nodes, "main", ins, outs, initializer=inits + [c for c in consts if c.name in used])
    return H.make_model(gr, opset_imports=[H.make_opsetid("", 17)]), [v.name for v in ins]


def inner_inputs(nodes):
    for n in nodes:
        for a in n.attribute:
            if a.type == a.GRAPH:
                for k in a.g.node:
                    yield from k.input
                yield from inner_inputs(a.g.node)


XS = np.float32([[1, 2], [3, -4], [0.5, 8]])


def inputs(names):
    dom = {"b0": [True, False], "b1": [True, False], "m0": [0, 1, 3], "m1": [0, 2]}
    keys = [n for n in names if n in dom]
    for vs in itertools.product(*[dom[k] for k in keys]):
        d = {"x": X, "y": Y, "xs": XS}
        for k, v in zip(keys, vs):
            d[k] = np.array(v) if k[0] == "b" else np.array(v, dtype=np.int64)
        yield {n: d[n] for n in names}


def case(c):
    from torch_mlir.extras import onnx_importer as oi

    spec, shared, expand = c
    m, names = build(spec, shared)
    key = f"{'shared' if shared else 'unique'}:{spec}"
    try:
        onnx.checker.check_model(m)
        mi = O.infer(m)
    except Exception as e:
        return {"bad": f"{type(e).__name__}: {str(e)[:200]}", "n": 0, "ops": 0}
    ref = O.ProtoEval(m)
    before = mi.SerializeToString(deterministic=True)
    try:
        mod = O.import_model(mi, O.expand_all() if expand else None)
    except Exception as e:
        if expand and "SeqMap" in repr(spec):
            # as a function, SequenceMap's body cannot refer to values outside of it
            return {"bad": "SequenceMap with captured values cannot be expanded", "n": 0, "ops": 0}
        raise Violation(f"import:{key}", f"{type(e).__name__}: {e}")
    if mi.SerializeToString(deterministic=True) != before:
        raise Violation(f"modified:{key}", "the importer changed the model")
    n = ops = 0
    for d in inputs(names):
        try:
            exp = ref.run(d)
        except O.Unsupported as e:
            return {"bad": f"reference: {str(e)[:100]}", "n": n, "ops": ops}
        it = O.OInterp(mod)
        try:
            got = it.call("main", list(d.values()))
        except O.Unsupported as e:
            return {"bad": f"leaf: {str(e)[:100]}", "n": n, "ops": ops}
        except InterpError as e:
            raise Violation(f"run:{key}", f"{type(e).__name__}: {e}\n{str(mod)[:3000]}")
        if not O.same(got, exp, False):
            raise Violation(f"values:{key}", f"inputs {d}: got {got}, expected {exp}\n{str(mod)[:3000]}")
        n += 1
        ops += it.ops_run
    return {"bad": None, "n": n, "ops": ops}


def specs(thorough):
    L = LEAF
    bodies1 = [(a,) for a in L]
    bodies2 = [(a, b) for a in L for b in L]
    out = []
    for k in KINDS:
        for b in bodies1 + bodies2:
            if k in ("If", "IfR"):
                for e in (bodies1 if thorough or len(b) == 1 else bodies1[1:8:3]):
                    out.append((("ctl", k, b, e),))
            else:
                out.append((("ctl", k, b),))
    inner = [L[i] for i in (0, 2, 3, 5, 7)] if not thorough else L
    for k1 in KINDS:
        for k2 in KINDS:
            for a in inner:
                c2 = ("ctl", k2, (a,), (L[2],)) if k2.startswith("If") else ("ctl", k2, (a,))
                for b in ((c2,), (L[4], c2), (c2, L[3]), (L[1], c2, L[2])):
                    c1 = ("ctl", k1, b, (L[5],)) if k1.startswith("If") else ("ctl", k1, b)
                    out.append((c1,))
                    out.append((L[0], c1, c1 if thorough else L[2]))
            # two control-flow operators beside one another
            s1 = ("ctl", k1, (L[2], L[5]), (L[1],)) if k1.startswith("If") else ("ctl", k1, (L[2], L[5]))
            s2 = ("ctl", k2, (L[3], L[4]), (L[9],)) if k2.startswith("If") else ("ctl", k2, (L[3], L[9]))
            out += [(s1, s2), (L[6], s1, s2), (s2, L[0], s1)]
    if thorough:
        for ks in itertools.product(KINDS, repeat=3):
            for a in (L[2], L[3], L[5]):
                def wrap(k, b):
                    return ("ctl", k, b, (L[2],)) if k.startswith("If") else ("ctl", k, b)
                out.append((wrap(ks[0], (L[1], wrap(ks[1], (wrap(ks[2], (a, L[2])), L[2])))),))
    return out


def run(ck):
    cs = []
    for s in specs(ck.thorough):
        for shared in (False, True):
            cs.append((s, shared, False))
    cs += [(s, sh, True) for s, sh, _ in cs[::(1 if ck.thorough else 7)]]
    infos = ck.run_cases(cs, case, chunk=8)
    bad = {}
    for c, i in zip(cs, infos):
        if i is None:
            continue
        if i["bad"]:
            bad.setdefault(i["bad"], []).append(c)
        ck.n_states_extra += i["n"]
        ck.transitions += i["ops"]
    ck.extra["programs_rejected_by_onnx_itself"] = sum(map(len, bad.values()))
    ck.extra["rejection_reasons"] = {k: len(v) for k, v in sorted(bad.items(), key=lambda kv: -len(kv[1]))[:5]}
    if ck.extra["programs_rejected_by_onnx_itself"] > len(cs) // 5:
        ck.violation("vacuous", f"{bad}")
    ck.sample(repr(cs[len(cs) // 2]))
    ck.assumptions += ["leaf operators have the meaning onnx.reference gives them at the recorded opset; control flow is evaluated "
                       "directly from the model as the ONNX standard defines it"]


def replay(ck, case_):
    def tup(x):
        return tuple(tup(i) for i in x) if isinstance(x, list) else x

    try:
        case(tup(case_))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

"""D02: a user's TorchDynamo backend sees canonical graphs, and the compiled program returns
what the original does.

The adapter's real compiler function is obtained by running the adapter up to AOT
autograd; on it, every form of result x every behaviour of the user's callable, and all
histories of several compiled graphs.  Then whole programs through torch.compile:
every operator application of the alphabet, and histories of calls with mutation,
recompilation, graph breaks and training steps.
"""
import itertools

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
import torch._dynamo
import torch._dynamo.backends.common as common

from mc import fxlib
from mc.core import Violation
from mc.interp import same, short

ID = "D02"
LEVEL = "model_checking"
RULE = ("state = (form of the graph's result, behaviour of the user's callable) or a history of calls; transition = one "
        "call of the compiled program, compared with the original program")
A = torch.ops.aten


class Captured(Exception):
    pass


def fw_compiler(user):
    """the function the adapter gives AOT autograd"""
    from torch_mlir.dynamo import make_simple_dynamo_backend

    be = make_simple_dynamo_backend(user)
    old = common.aot_module_simplified

    def grab(gm, inputs, **kw):
        e = Captured()
        e.kw = kw
        raise e

    common.aot_module_simplified = grab
    try:
        g = torch.fx.Graph()
        x = g.placeholder("x")
        g.output((x,))
        be(torch.fx.GraphModule(torch.nn.Module(), g), [torch.ones(2)])
    except Captured as e:
        return e.kw["fw_compiler"]
    finally:
        common.aot_module_simplified = old
    raise AssertionError("AOT autograd is not used")


# ---------------------------------------------------------------- graphs and users
FORMS = {
    "node": lambda n, m, x: n, "ph": lambda n, m, x: x, "none": lambda n, m, x: None,
    "t0": lambda n, m, x: (), "l0": lambda n, m, x: [],
    "t1": lambda n, m, x: (n,), "l1": lambda n, m, x: [n], "t1n": lambda n, m, x: (None,), "l1n": lambda n, m, x: [None],
    "t1x": lambda n, m, x: (x,), "l1x": lambda n, m, x: [x], "t1s": lambda n, m, x: (3,), "l1s": lambda n, m, x: [2.5],
    "t2": lambda n, m, x: (n, m), "l2": lambda n, m, x: [n, m], "t2d": lambda n, m, x: (n, n), "l2d": lambda n, m, x: [m, m],
    "t2n": lambda n, m, x: (None, n), "l2n": lambda n, m, x: [n, None], "t3": lambda n, m, x: (n, x, m),
    "l3": lambda n, m, x: [m, n, x], "l3s": lambda n, m, x: [m, 7, None], "l4": lambda n, m, x: [n, m, n, x],
    "tl": lambda n, m, x: ([n], m), "lt": lambda n, m, x: [(n,), [m]],
}


def graph(form, k=0):
    g = torch.fx.Graph()
    x = g.placeholder("x")
    n = g.call_function(A.add.Tensor, (x, x), {"alpha": 2 + k})
    m = g.call_function(A.mul.Scalar, (n, -1.5 - k))
    g.output(FORMS[form](n, m, x))
    return torch.fx.GraphModule(torch.nn.Module(), g)


def canonical(gm, what):
    out = [n for n in gm.graph.nodes if n.op == "output"]
    if len(out) != 1 or len(out[0].args) != 1:
        raise Violation(f"graph:{what}", f"{what}: the user's graph has results {[o.args for o in out]}")
    a = out[0].args[0]
    if isinstance(a, list) or isinstance(a, tuple) and len(a) == 1:
        raise Violation(f"canonical:{what}", f"{what}: the user's graph returns {a!r} ({type(a).__name__})")
    for n in gm.graph.nodes:
        if isinstance(n.target, torch._ops.OpOverload):
            raise Violation(f"overload:{what}", f"{what}: the user's graph calls the overload {n.target}")
    gm.graph.lint()


def u_forward(gm, ex):
    return gm.forward


def u_module(gm, ex):
    return gm


def u_interp(gm, ex):
    it = torch.fx.Interpreter(gm)
    return lambda *a: it.run(*a)


def u_regen(gm, ex):
    return torch.fx.GraphModule(gm, gm.graph)


def u_script(gm, ex):
    return torch.jit.script(gm)


def u_lists(gm, ex):
    """multiple results come back as a list, as a runtime may do"""
    def f(*a):
        r = gm(*a)
        return list(r) if isinstance(r, tuple) and len(r) != 1 else r
    return f


def u_late(gm, ex):
    """the user's callable is built at the first call"""
    memo = []

    def f(*a):
        if not memo:
            memo.append(torch.fx.GraphModule(gm, gm.graph))
        return memo[0](*a)
    return f


USERS = {"forward": u_forward, "module": u_module, "interp": u_interp, "regen": u_regen, "script": u_script, "lists": u_lists,
         "late": u_late}


def eq(a, b):
    if torch.is_tensor(b):
        return torch.is_tensor(a) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if isinstance(b, (list, tuple)):
        kind = list if isinstance(b, list) else tuple
        return isinstance(a, kind) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def call(c, *args):
    return c(list(args)) if getattr(c, "_boxed_call", False) else c(*args)


def case_form(c):
    _, form, user = c
    what = f"result {form}, user {user}"
    seen = []

    def ub(gm, ex):
        seen.append((gm, ex))
        canonical(gm, what)
        return USERS[user](gm, ex)

    comp = fw_compiler(ub)
    gm = graph(form)
    x = torch.tensor([1.5, -2.0])
    want = gm(x)
    f = comp(gm, [x])
    if len(seen) != 1 or len(seen[0][1]) != 1 or seen[0][1][0] is not x:
        raise Violation(f"calls:{what}", f"{what}: the user's backend was called with {seen}")
    for k in range(3):
        y = x + k
        want = graph(form)(y)
        got = call(f, y)
        if user == "lists" and isinstance(want, tuple) and len(want) != 1 and isinstance(got, list):
            got = tuple(got)
        if not eq(got, want):
            raise Violation(f"result:{what}", f"{what}: call {k} returns {got!r}, the graph returns {want!r}")
    if len(seen) != 1:
        raise Violation(f"calls:{what}", f"{what}: compiled again by a call")
    return 4


def case_several(c):
    """several graphs of one backend, compiled and called in any order"""
    _, forms, order, user = c
    what = f"graphs {forms}, calls {order}, user {user}"
    comp = fw_compiler(lambda gm, ex: USERS[user](gm, ex))
    fs = {}
    for step, k in enumerate(order):
        x = torch.tensor([1.0 + step])
        if k not in fs:
            fs[k] = comp(graph(forms[k], k), [x])
        got = call(fs[k], x)
        want = graph(forms[k], k)(x)
        if not eq(got, want):
            raise Violation(f"several:{forms}", f"{what}: step {step} returns {got!r}, the graph returns {want!r}")
    return len(order)


def case_failing(c):
    """a failing user backend or callable leaves later compilations as they are"""
    _, where, form = c
    n = [0]

    def ub(gm, ex):
        n[0] += 1
        if where == "compile" and n[0] == 1:
            raise KeyError("user")

        def f(*a):
            if where == "call" and n[0] == 1:
                raise KeyError("user")
            return gm(*a)
        return f

    comp = fw_compiler(ub)
    x = torch.ones(2)
    try:
        call(comp(graph(form), [x]), x)
    except Exception as e:
        if "user" not in str(e):
            raise
    else:
        raise Violation(f"swallowed:{where}", f"the user's failure ({where}) is swallowed")
    got = call(comp(graph(form), [x]), x)
    if not eq(got, graph(form)(x)):
        raise Violation(f"failing:{where}", f"after a failure ({where}), form {form}: {got!r}")
    return 2


# ---------------------------------------------------------------- whole programs
DECOMPOSED = {"_adaptive_avg_pool2d", "dot", "_native_batch_norm_legit_functional", "native_group_norm",
              "embedding_dense_backward", "native_layer_norm_backward", "slice_backward", "select_backward",
              "mse_loss_backward", "native_group_norm_backward", "sigmoid_backward", "_native_batch_norm_legit", "squeeze",
              "_scaled_dot_product_flash_attention_for_cpu", "_native_batch_norm_legit_no_training"}


class Backend:
    def __init__(self, user, what):
        from torch_mlir.dynamo import make_simple_dynamo_backend

        self.n = 0

        def ub(gm, ex):
            self.n += 1
            canonical(gm, what)
            for n in gm.graph.nodes:
                if isinstance(n.target, torch._ops.OpOverloadPacket) and str(n.target).startswith("aten.") \
                        and n.target.__name__ in DECOMPOSED:
                    raise Violation(f"decomposed:{n.target.__name__}", f"{what}: {n.target} reaches the user's backend")
            return USERS[user](gm, ex)

        self.backend = make_simple_dynamo_backend(ub)


def close(a, b):
    if torch.is_tensor(b):
        return (torch.is_tensor(a) and a.dtype == b.dtype and a.shape == b.shape
                and torch.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True) if b.dtype.is_floating_point or b.dtype.is_complex
                else eq(a, b))
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return type(a) is type(b) and list(a) == list(b) and all(close(a[k], b[k]) for k in b)
    if isinstance(b, float):
        return isinstance(a, float) and (a == b or abs(a - b) < 1e-5)
    return type(a) is type(b) and a == b


def case_letter(c):
    """one operator application, compiled"""
    _, li, user = c
    from checks.F01 import LET, POOL0, wirings

    l = LET[li]
    w = wirings(l, POOL0)[-1]
    p = fxlib.Prog()
    outs = p.step(l, w)
    gm = p.finish(tuple(outs))
    what = f"{l.name}, user {user}"
    torch._dynamo.reset()
    b = Backend(user, what)
    try:
        want = gm(*p.args)
    except Exception:
        return "traced_form_only"  # what only AOT autograd writes cannot be called
    try:
        got = torch.compile(gm, backend=b.backend, fullgraph=True)(*p.args)
    except Violation:
        raise
    except Exception as e:
        if isinstance(e.__cause__ or e, Violation):
            raise
        if b.n == 0:
            return "untraceable"  # rejected by PyTorch before the backend is asked
        for x in (e, e.__cause__, getattr(e, "inner_exception", None)):
            if isinstance(x, Violation):
                raise x
        raise Violation(f"fails:{l.name}", f"{what}: {type(e).__name__}: {e}")
    if not b.n:
        return "folded"
    if not close(got, want):
        raise Violation(f"value:{l.name}", f"{what}: {[short(x) for x in got]}, eager {[short(x) for x in want]}")
    return "equal"


class Net(torch.nn.Module):
    def __init__(self, parts):
        super().__init__()
        torch.manual_seed(3)
        self.parts = parts
        self.lin = torch.nn.Linear(4, 4)
        self.bn = torch.nn.BatchNorm1d(4)
        self.ln = torch.nn.LayerNorm(4)
        self.gn = torch.nn.GroupNorm(2, 4)
        self.emb = torch.nn.Embedding(5, 4)
        self.register_buffer("count", torch.zeros(()))

    def forward(self, x):
        y = x
        for p in self.parts:
            y = getattr(self, "p_" + p)(y)
        return y

    def p_lin(self, x):
        return self.lin(x)

    def p_bn(self, x):
        return self.bn(x)

    def p_ln(self, x):
        return self.ln(x)

    def p_gn(self, x):
        return self.gn(x)

    def p_emb(self, x):
        return x + self.emb(torch.arange(x.shape[0]) % 5)

    def p_sig(self, x):
        return torch.sigmoid(x)

    def p_slice(self, x):
        return torch.cat([x[:, 1:], x[:, :1] * 2], 1)

    def p_select(self, x):
        return x * x[:, 0].unsqueeze(1)

    def p_count(self, x):
        self.count.add_(1)
        return x + self.count

    def p_inplace(self, x):
        y = x * 1
        y.add_(0.5)
        return y

    def p_squeeze(self, x):
        return x.unsqueeze(1).squeeze(1).squeeze()

    def p_break(self, x):
        torch._dynamo.graph_break()
        return x + 1

    def p_std(self, x):
        return x / (x.std(1, keepdim=True) + 1)

    def p_dot(self, x):
        return x * torch.dot(x[0], x[0])

    def p_attn(self, x):
        q = x.reshape(1, 1, *x.shape)
        return torch.nn.functional.scaled_dot_product_attention(q, q, q).reshape(x.shape)

    def p_pool(self, x):
        z = x.reshape(1, 1, *x.shape)
        return x + torch.nn.functional.adaptive_avg_pool2d(z, (1, 1)).reshape(1, 1)

    def p_up(self, x):
        z = x.reshape(1, 1, *x.shape)
        return torch.nn.functional.interpolate(z, scale_factor=2.0, mode="bilinear").reshape(2 * x.shape[0], -1)[:x.shape[0], :4]


PARTS = ["lin", "bn", "ln", "gn", "emb", "sig", "slice", "select", "count", "inplace", "squeeze", "break", "std", "dot", "attn",
         "pool", "up"]


KNOWN = {"sdpa-gradient": "wrong gradients of scaled dot product attention"}


def case_net(c):
    """a history of evaluations and training steps, compiled and eager side by side"""
    _, parts, hist, user = c
    what = f"net {parts}, history {hist}, user {user}"
    torch._dynamo.reset()
    ref, net = Net(parts).double(), Net(parts).double()  # away from rounding noise
    b = Backend(user, what)
    f = torch.compile(net, backend=b.backend)
    try:
        for step, h in enumerate(hist):
            n, mode, grad = {"e": (3, False, False), "E": (5, False, False), "t": (3, True, True), "T": (5, True, True),
                             "g": (3, False, True)}[h]
            ref.train(mode), net.train(mode)
            x = (torch.arange(n * 4, dtype=torch.float64) ** 2).sin().reshape(n, 4) * 1.5 + 0.25 * step
            if grad:
                xs = [x.clone().requires_grad_() for _ in range(2)]
                r, g = ref(xs[0]), f(xs[1])
                for m, o in ((ref, r), (net, g)):
                    m.zero_grad()
                    torch.nn.functional.mse_loss(o, torch.ones_like(o)).backward()
                if "attn" in parts and close(g, r) and not close(xs[1].grad, xs[0].grad):
                    return "sdpa-gradient"
                if not close(xs[1].grad, xs[0].grad):
                    raise Violation(f"grad:{parts}", f"{what}: step {step}, gradient {xs[1].grad.tolist()}, eager "
                                    f"{xs[0].grad.tolist()}")
                for (nm, p), (_, q) in zip(ref.named_parameters(), net.named_parameters()):
                    if (p.grad is None) != (q.grad is None) or p.grad is not None and not close(q.grad, p.grad):
                        raise Violation(f"grad:{parts}", f"{what}: step {step}, gradient of {nm}")
                    with torch.no_grad():
                        if p.grad is not None:
                            p -= 0.1 * p.grad
                            q -= 0.1 * q.grad
            else:
                with torch.no_grad():
                    r, g = ref(x), f(x)
            if not close(g, r):
                raise Violation(f"net:{parts}", f"{what}: step {step} returns {g.tolist()}, eager {r.tolist()}")
            for (nm, p), (_, q) in zip(ref.named_buffers(), net.named_buffers()):
                if not close(q, p):
                    raise Violation(f"buffer:{parts}", f"{what}: step {step}: {nm} is {q.tolist()}, eager {p.tolist()}")
    except Violation:
        raise
    except Exception as e:
        for x in (e, e.__cause__, getattr(e, "inner_exception", None)):
            if isinstance(x, Violation):
                raise x
        raise Violation(f"netfails:{parts}", f"{what}: {type(e).__name__}: {str(e)[:600]}")
    if not b.n:
        raise Violation(f"unused:{parts}", f"{what}: the backend is never asked")
    return len(hist)


STRUCT = {
    "tensor": lambda x: x + 1, "t1": lambda x: (x + 1,), "l1": lambda x: [x + 1], "t2": lambda x: (x + 1, x * 2),
    "l2": lambda x: [x * 2, x + 1], "dict": lambda x: {"b": x + 1, "a": x * 2}, "d1": lambda x: {"k": x + 1},
    "nest": lambda x: ([x + 1], {"k": (x * 2,)}), "none": lambda x: (None, x + 1), "scalar": lambda x: (x + 1, 3, "s", True),
    "input": lambda x: (x, x + 1), "same": lambda x: (lambda y: (y, y))(x + 1), "views": lambda x: (lambda y: (y, y[0], y.t()))(x + 1),
    "alias": lambda x: x.t(), "mut": lambda x: x.add_(1), "mut2": lambda x: (x.mul_(2), x + 1), "empty": lambda x: (),
    "onlyscalar": lambda x: 3, "item": lambda x: x.sum().item() + 1, "shape": lambda x: x.shape[0], "inthere": lambda x: x * x.shape[1],
    "cond": lambda x: x + 1 if x.shape[0] > 2 else x - 1,
}


def case_struct(c):
    _, nm, shapes, user = c
    what = f"result structure {nm}, shapes {shapes}, user {user}"
    torch._dynamo.reset()
    b = Backend(user, what)
    f = torch.compile(STRUCT[nm], backend=b.backend)
    try:
        for s in shapes:
            x = torch.arange(float(s[0] * s[1])).reshape(s)
            y = x.clone()
            want, got = STRUCT[nm](x), f(y)
            if not close(got, want) or not eq(y, x):
                raise Violation(f"struct:{nm}", f"{what}: {got!r} (input then {y!r}), eager {want!r} (input then {x!r})")
            if nm == "same" and (got[0] is got[1]) != (want[0] is want[1]):
                raise Violation(f"struct:{nm}", f"{what}: identity of results")
    except Violation:
        raise
    except Exception as e:
        for z in (e, e.__cause__, getattr(e, "inner_exception", None)):
            if isinstance(z, Violation):
                raise z
        raise Violation(f"structfails:{nm}", f"{what}: {type(e).__name__}: {str(e)[:600]}")
    return len(shapes)


def dispatch(c):
    return {"form": case_form, "several": case_several, "failing": case_failing, "letter": case_letter, "net": case_net,
            "struct": case_struct}[c[0]](c)


def run(ck):
    from checks.F01 import LET

    cases = []
    nested = ("tl", "lt")
    for f in FORMS:
        for u in USERS:
            if u == "script":
                continue
            cases.append(("form", f, u))
    few = [f for f in FORMS if f not in nested] if ck.thorough else ["node", "t1", "l1", "t2", "l2", "l3", "none"]
    for fs in itertools.product(few, repeat=2):
        for order in ((0, 1), (0, 1, 0), (1, 0, 1, 0)):
            for u in ("module", "interp", "late"):
                cases.append(("several", fs, order, u))
    for fs in itertools.product(few[:7], repeat=3):
        for order in itertools.permutations(range(3)):
            cases.append(("several", fs, order + order[:2], "late"))
    for w in ("compile", "call"):
        for f in FORMS:
            cases.append(("failing", w, f))
    users = ("module", "interp") if ck.thorough else ("module",)
    slow = []
    for i in range(len(LET)):
        for u in users:
            slow.append(("letter", i, u))
    H = ["e", "ee", "eE", "t", "tt", "te", "et", "tT", "ge"]
    for p in PARTS:
        for h in (H if ck.thorough else ["eEe", "tte"]):
            slow.append(("net", (p,), h, "interp"))
    for ps in itertools.permutations(PARTS, 2) if ck.thorough else [("lin", "bn"), ("count", "break"), ("ln", "gn"), ("break", "bn"),
                                                                  ("inplace", "sig"), ("emb", "attn"), ("lin", "break")]:
        slow.append(("net", ps, "te", "module"))
    S = [((3, 2),), ((3, 2), (3, 2)), ((3, 2), (2, 3), (3, 2)), ((1, 4), (4, 1))]
    for nm in STRUCT:
        for s in S if ck.thorough else S[2:3]:
            for u in ("module", "interp", "lists") if ck.thorough else ("module",):
                slow.append(("struct", nm, s, u))
    infos = ck.run_cases(slow, dispatch, chunk=4)
    infos += ck.run_cases(cases, dispatch)
    ck.n_states_extra = len(cases) + len(slow)
    ck.transitions = sum(i if isinstance(i, int) else 1 for i in infos)
    import collections

    for k in sorted(KNOWN):
        if k in infos:
            ck.violation(k, KNOWN[k])
    ck.extra.update({f"letters_{k}": v for k, v in collections.Counter(i for i in infos if isinstance(i, str)).items()})
    ck.sample({"graphs": ["l1", "t2"], "calls": [1, 0, 1, 0]})
    ck.sample({"net": ["count", "break"], "history": "te"})

"""J01: an imported TorchScript function computes what TorchScript computes.

All programs over a statement alphabet (arithmetic on every scalar type, lists, dictionaries,
tuples, optionals, strings, tensors with aliasing and in-place updates, calls) placed in every
control-flow template (branches, all loop forms, break/continue, early returns, nesting) are
compiled by TorchScript, imported by torch-mlir's own C++ importer, verified, and executed on
every input; TorchScript executes the same programs.
"""
import itertools

from mc import env, jitir as J

torch = env.quiet_torch()
from mc import fakecapi as C, fakemlir as F
from mc.core import Violation
from mc.interp import InterpError, TypeSoundness, same, short

ID = "J01"
LEVEL = "model_checking"
RULE = ("state = (program, import option, input); transition = one import of the program by the C++ importer or one "
        "execution of the imported IR compared with TorchScript's")

PRE = '''
def g(x: Tensor, k: int) -> Tensor:
    return x * k - 1.0

def h(p: Optional[int], q: float = 2.5) -> Tuple[float, Optional[int]]:
    if p is None:
        return q, p
    return q + p, p + 1

def w(v: List[int], a: int) -> int:
    v.append(a)
    return len(v)

def f(x: Tensor, n: int, b: bool):
    a = n
    r = 0.5
    s = "a"
    ys = [1, n]
    d: Dict[str, int] = {"k": n}
    o: Optional[int] = None
    t = (n, 1.5)
    zs = [x, x + 1.0]
    al = ys
    c = 0
'''
POST = '''
    return x, a, r, s, b, ys, d, o, t, zs, al, c
'''
LETTERS = {
    # integers
    "inc": "a = a + 1", "mulsub": "a = a * 2 - n", "floordiv": "a = a // 2", "mod": "a = a % 3", "neg": "a = -a",
    "pow": "r = float(a ** 2)", "shift": "a = (a << 2) >> 1", "bits": "a = (a & 6) | (a ^ 1)", "inv": "a = ~a",
    "divzero": "a = 7 // n", "minmax": "a = min(a, 2) + max(a, n)", "abs": "a = abs(a - 3)", "toint": "a = int(r)",
    "b2i": "a = int(b)", "iadd": "a += 2",
    # floats
    "tofloat": "r = float(a) / 2", "radd": "r = r + a", "rmul": "r = r * 1e300", "rneg": "r = -r", "rdiv": "r = 1 / (r + 1)",
    "rfloor": "r = r // 0.4", "rmod": "r = r % 0.3", "nan": "r = float('nan')", "inf": "r = float('-inf')",
    "ceil": "a = math.ceil(r * 3) + math.floor(r)", "rround": "r = round(r * 7)", "cmp": "b = r < a",
    # booleans
    "gt": "b = a > 2", "not": "b = not b", "andor": "b = a == n and r < 1.0 or b", "ne": "b = a != n", "le": "b = 0 <= a <= 2",
    "ifexp": "a = 5 if b else a", "is": "b = o is None",
    # strings
    "scat": "s = s + 'b\\n'", "fmt": "s = '{}-{}'.format(a, s)", "sin": "b = 'b' in s", "slen": "a = len(s)",
    "scmp": "b = s == 'a'", "sint": "s = str(a)",
    # lists
    "append": "ys.append(a)", "setitem": "ys[0] = a", "getitem": "a = ys[-1]", "range": "a = ys[n]", "lcat": "ys = [a] + ys",
    "slice": "ys = ys[1:]", "comp": "ys = [i * 2 + n for i in ys]", "lpop": "a = ys.pop()", "llen": "a = len(ys)",
    "insert": "ys.insert(1, a)", "del": "del ys[0]", "extend": "ys.extend([a, a])", "clear": "ys.clear()",
    "lcopy": "ys = ys.copy()", "lmul": "ys = ys * 2", "in": "b = a in ys", "empty": "ys = []", "rev": "ys.reverse()",
    "swap": "ys[0], ys[1] = ys[1], ys[0]", "stride": "ys = ys[::2]", "aug": "ys[0] += a", "unpack": "a, a2 = ys",
    "argmax": "a = max(ys)", "sort": "ys.sort()", "alias": "al = ys",
    # dictionaries
    "dset": "d['j'] = a", "dget": "a = d['k']", "dmiss": "a = d['j']", "din": "b = 'j' in d", "ddel": "del d['k']",
    "dnew": "d = {'j': a, 'k': n, 's': 3}", "dlen": "a = len(d)", "diter": "for k in d.keys():\n    a = a + d[k]",
    "ditems": "for k, v in d.items():\n    s = s + k\n    a = v", "dpop": "a = d.pop('k')", "dgetd": "a = d.get('j', 9)",
    "dcomp": "d = {str(i): i for i in ys}",
    # optionals, tuples
    "oset": "o = a", "onone": "o = None", "ouse": "if o is not None:\n    a = a + o", "oelse": "a = o if o is not None else -1",
    "assert": "assert o is not None\na = o + 1", "oin": "q, o = h(o)\nr = q", "hdef": "q, o = h(p=a, q=r)\nr = q",
    "tset": "t = (a, r)", "tget": "a = t[0]", "tun": "a, r = t", "tnest": "u = ((a, s), b)\ns = u[0][1]\na = u[0][0]",
    "oreturn": "ol: List[Optional[int]] = [None, a, o]\nif ol[2] is None:\n    a = len(ol)",
    # tensors
    "xadd": "x = x + 1", "xmul": "x = x * a", "xadd_": "x.add_(1)", "xset": "x[0] = r", "xsel": "x = x[0]", "xidx": "x[1:, 0].zero_()",
    "xview": "x = x.reshape([-1])", "xsize": "a = x.size(0)", "item": "a = int(x.sum().item())", "xbool": "b = bool((x > 0).any())",
    "xcat": "x = torch.cat(zs)", "zapp": "zs.append(x)", "zget": "x = zs[0]", "zmut": "zs[0].mul_(2)", "xg": "x = g(x, a)",
    "xalias": "y = x\ny.add_(x)", "xnew": "x = torch.zeros([2, a + 1])", "xtens": "x = torch.tensor([a, n])",
    "xshape": "ys = x.shape", "xint": "x = torch.full([2], a, dtype=torch.int64)", "xchunk": "u, v = x.chunk(2)\nx = v - u",
    "xdtype": "x = x.to(torch.float64)", "xdim": "a = x.dim() + x.numel()", "xmax": "m, i = x.max(0)\nx = m\nzs.append(i)",
    "xwhere": "x = torch.where(x > 1, x, x * 2)", "xlist": "x = x[:, [1, 0]]", "xnone": "x = x.unsqueeze(0)[:, None]",
    "xmean": "x = x.mean(0, keepdim=True)", "xdev": "x = torch.ones([1], device=x.device)",
    # calls, errors
    "wcall": "a = w(ys, a)", "wtmp": "a = w([a], 3)", "raise": "raise RuntimeError('no')", "assertb": "assert a < 3, 'big'",
}
CORE = ["inc", "radd", "not", "scat", "append", "setitem", "lcat", "lpop", "dset", "dmiss", "oset", "ouse", "tset", "tun",
        "xadd", "xadd_", "zapp", "zmut", "alias", "wcall", "xsel", "xview"]


def ind(code, k):
    return "".join("    " * k + l + "\n" for l in code.split("\n"))


TEMPLATES = {
    "seq": (2, "{0}\n{1}"),
    "if": (1, "if b:\n    {0}"),
    "ifelse": (2, "if a > 1:\n    {0}\nelse:\n    {1}"),
    "elif": (2, "if b and n > 1:\n    {0}\nelif b:\n    {1}\nelse:\n    a = 9"),
    "for": (1, "for i in range(n):\n    {0}"),
    "forif": (2, "for i in range(n):\n    if i == 1:\n        {0}\n    else:\n        {1}"),
    "forseq": (2, "for i in range(1, n + 1):\n    {0}\n    c = c + i\n    {1}"),
    "step": (1, "for i in range(4, 0, -2):\n    {0}\n    c = c + i"),
    "while": (1, "while c < n:\n    c += 1\n    {0}"),
    "whilecond": (2, "while c < 3 and not b:\n    c += 1\n    {0}\n{1}"),
    "break": (2, "for i in range(3):\n    {0}\n    if i >= n:\n        break\n    {1}\n    c += 1"),
    "continue": (2, "for i in range(3):\n    if b and i == n:\n        {0}\n        continue\n    {1}\n    c += 1"),
    "foreach": (1, "for v in [3, n, 2]:\n    c += v\n    {0}"),
    "enum": (1, "for i, v in enumerate([n, 2]):\n    c += v * i\n    {0}"),
    "zip": (1, "for u, v in zip([n, 2], [a, 1]):\n    c += u - v\n    {0}"),
    "fort": (1, "for z in zs:\n    c += z.dim()\n    {0}"),
    "nested": (2, "for i in range(n):\n    {0}\n    for j in range(i):\n        c += j + i\n        {1}"),
    "whilefor": (1, "while c < n:\n    c += 1\n    for i in range(c):\n        {0}\n        if i == 1:\n            break"),
    "earlyret": (2, "if b:\n    {0}\n    return x, a, r, s, b, ys, d, o, t, zs, al, c\n{1}"),
    "loopret": (2, "for i in range(n):\n    {0}\n    if i == 1:\n        return x, a, r, s, b, ys, d, o, t, zs, al, i\n    {1}"),
    "retelse": (1, "if n == 1:\n    {0}\nelse:\n    return x, n, r, s, b, ys, d, o, t, zs, al, c\na = a + 10"),
    "ifif": (2, "if b:\n    if a > 1:\n        {0}\n    c = 7\nelse:\n    c = 8\n{1}"),
    "unroll": (1, "for k in (1, a):\n    {0}\n    c += k"),
    "try_dead": (1, "if False:\n    {0}\nc = 3"),
}


def render(tmpl, letters):
    body = TEMPLATES[tmpl][1]
    out = []
    for line in body.split("\n"):
        st = line.strip()
        k = (len(line) - len(line.lstrip())) // 4
        if st in ("{0}", "{1}"):
            out.append(ind(LETTERS[letters[int(st[1])]], k + 1))
        else:
            out.append(ind(st, k + 1))
    return PRE + "".join(out) + POST


# programs whose parameters and results have every other type
SPECIAL = {
    "optional_tensor": '''
def f(x: Tensor, n: int, b: bool):
    y: Optional[Tensor] = None
    if b:
        y = x
    if n > 0 and y is None:
        y = x + 1
    z = torch.conv1d(x.unsqueeze(0), torch.ones([3, 2, 1]), y.sum().expand([3]) if y is not None else None)
    if y is not None:
        z = z + y.sum()
    return z, y
''',
    "union": '''
def k(u: Union[int, str], v: Union[int, str, None]) -> Tuple[Union[int, str], bool]:
    return u, v is None

def f(x: Tensor, n: int, b: bool):
    u: Union[int, str] = "s"
    if b:
        u = n
    return k(u, "z"), k(3, None), k(n, u)
''',
    "tensor_union": '''
def k(u: Union[Tensor, int], l: List[Tensor]) -> Tuple[Union[Tensor, int], Tensor]:
    return u, l[0]

def f(x: Tensor, n: int, b: bool):
    u: Union[Tensor, int] = n
    if b:
        u = x
    return k(u, [x, x * 2]), k(x, [x + 1])
''',
    "any": '''
def f(x: Tensor, n: int, b: bool):
    y: List[Any] = [1, "a", 2.5]
    return len(y)
''',
    "none_result": '''
def k(x: Tensor) -> None:
    x.add_(1)

def f(x: Tensor, n: int, b: bool):
    k(x)
    if b:
        k(x)
    return x
''',
    "noresult": '''
def f(x: Tensor, n: int, b: bool):
    x.add_(n)
''',
    "emptytuple": '''
def k(x: Tensor) -> Tuple[()]:
    return ()

def f(x: Tensor, n: int, b: bool):
    t = k(x)
    return x, t
''',
    "number": '''
def f(x: Tensor, n: int, b: bool):
    s = x.sum().item()
    if b:
        s = n
    return x * s, torch.add(x, 1, alpha=s)
''',
    "scalar_const": '''
def f(x: Tensor, n: int, b: bool):
    return x + 9223372036854775807, x * 1e-320, x == -0.0, 1.7976931348623157e308, -9223372036854775807, 0.1, -0.0
''',
    "nested_containers": '''
def f(x: Tensor, n: int, b: bool):
    l: List[List[int]] = [[1], [n, 2]]
    l[0].append(n)
    m = l[1]
    m[0] = 7
    d: Dict[int, List[Tensor]] = {n: [x], 2: [x, x]}
    d[n].append(x + 1)
    e: Dict[str, Tuple[int, Optional[float]]] = {"a": (n, None), "b": (2, 1.5)}
    q = l[1][0]
    return l, m, d, e, q, d[2][0]
''',
    "const_containers": '''
def f(x: Tensor, n: int, b: bool):
    l = [1, 2, 3]
    t = (1, (2.5, "s"), None, True)
    m = ["a", "b"]
    k = [[1.0], [2.0, 3.0]]
    if b:
        l[0] = n
        k[0].append(9.0)
    return l, t, m, k, x.permute([1, 0]), x.sum([0, 1], dtype=torch.float64)
''',
    "dict_keys": '''
def f(x: Tensor, n: int, b: bool):
    d: Dict[int, str] = {1: "a", 2: "b", n: "c"}
    e: Dict[float, bool] = {0.5: True, 1.5: b}
    g: Dict[str, Tensor] = {"x": x, "y": x + 1, "z": x * n}
    if b:
        d[5] = "z"
    return d, e, g, d[n], g["y"]
''',
    "devices": '''
def f(x: Tensor, n: int, b: bool):
    d = torch.device("cpu")
    y = torch.zeros([2], device=d)
    return y.to(x.device), x.device == d, torch.arange(n, device="cpu")
''',
    "strings": '''
def f(x: Tensor, n: int, b: bool):
    a = "é中\\"'\\\\ \\t"
    return a + "z", len(a), "%d %s" % (n, a), a == "x"
''',
    "indexing": '''
def f(x: Tensor, n: int, b: bool):
    i = torch.tensor([1, 0])
    return x[i], x[:, i], x[..., n % 2], x[None], x[:, 0:n], x[x > 1], x[-1, -1], x[i, i]
''',
    "index_put": '''
def f(x: Tensor, n: int, b: bool):
    i = torch.tensor([1, 0])
    x[i] = x[0] * 2
    x[:, i] += 1
    x[x > 5] = 0.0
    y = x[0]
    y[n % 2] = 3.0
    x[1:, :1] = y[0]
    return x, y
''',
    "shadow": '''
def f(x: Tensor, n: int, b: bool):
    if b:
        y = x
        z = n
    else:
        y = x + 1
        z = 3
    for i in range(n):
        z, n2 = i, z
        y, x = x, y
    return x, y, z
''',
    "recurse_if": '''
def f(x: Tensor, n: int, b: bool):
    a = 0
    if n > 0:
        if n > 1:
            if b:
                a = 1
            else:
                a = 2
        elif b:
            a = 3
    elif b:
        a = 4
    return a
''',
    "loop_carried_types": '''
def f(x: Tensor, n: int, b: bool):
    o: Optional[Tensor] = None
    l: List[Optional[int]] = []
    t: Tuple[int, Optional[str]] = (n, None)
    for i in range(n):
        if o is None:
            o = x
        else:
            o = o + i
        l.append(i if b else None)
        t = (i, "s" if b else None)
    return o, l, t
''',
    "varargs_ops": '''
def f(x: Tensor, n: int, b: bool):
    torch.jit.annotate(List[int], [])
    return torch.stack([x, x], n % 2), torch.einsum("ij,kj->ik", [x, x]), torch.meshgrid([x[0], x[1]], indexing="ij")
''',
    "kwargs_defaults": '''
def k(x: Tensor, *, scale: float = 2.0, dims: Optional[List[int]] = None, flag: bool = False) -> Tensor:
    if dims is not None:
        x = x.sum(dims)
    return x * scale if flag else x

def f(x: Tensor, n: int, b: bool):
    return k(x), k(x, dims=[0]), k(x, scale=float(n), flag=True), k(x, flag=b, dims=[1], scale=3.0)
''',
    "many_results": '''
def f(x: Tensor, n: int, b: bool):
    v, i = torch.sort(x, dim=n % 2, descending=b)
    q, w = torch.std_mean(x, dim=[0])
    m, k = x.topk(1)
    return v, i, q, w, m, k, torch.unbind(x), torch.split(x, 1)
''',
    "scalar_types": '''
def f(x: Tensor, n: int, b: bool):
    return (torch.tensor(n), torch.tensor(2.5), torch.tensor(b), torch.tensor([1.5, 2.0]), torch.tensor([[b], [True]]),
            torch.as_tensor(n), torch.full([2], n), torch.full([2], b), torch.ones([n], dtype=torch.int32),
            torch.zeros([0, n]), torch.arange(0.0, 1.0, 0.25), x.type_as(torch.ones([1], dtype=torch.float64)))
''',
    "early_in_nested": '''
def f(x: Tensor, n: int, b: bool):
    for i in range(n):
        for j in range(2):
            if j == 1 and b:
                return i, j
            if i == 2:
                break
        if i == 1 and not b:
            continue
        x.add_(1)
    return -1, n
''',
    "ternary_tensor": '''
def f(x: Tensor, n: int, b: bool):
    y = x if b else x + n
    z = (y, n) if n > 1 else (x, 3)
    return z[0] * z[1], [y] if b else [x, y]
''',
    "overwrite_param": '''
def f(x: Tensor, n: int, b: bool):
    y = x
    x = x.clone()
    x[0] = 5.0
    y[1] = 7.0
    y += x
    return x, y
''',
    "list_of_tuples": '''
def f(x: Tensor, n: int, b: bool):
    l = [(1, "a"), (n, "b")]
    l.append((3, "c"))
    a = 0
    for i, s in l:
        a += i * len(s)
    return l, a
''',
    "mutual": '''
def k1(n: int) -> int:
    return n * 2

def k2(n: int) -> int:
    return k1(n) + k1(n + 1)

def k3(n: int, m: int) -> int:
    return k2(k1(n)) - m

def f(x: Tensor, n: int, b: bool):
    return k3(n, 4) + k3(1, n)
''',
    "complex_real": '''
def f(x: Tensor, n: int, b: bool):
    return torch.fft.fft(x), torch.view_as_real(torch.fft.fft(x)), torch.complex(x, x).real
''',
    "format_spec": '''
def f(x: Tensor, n: int, b: bool):
    return "{} {} {}".format(n, "q", b), str(n) + "z"
''',
    "dtype_queries": '''
def f(x: Tensor, n: int, b: bool):
    t = x.dtype
    return torch.ones([2], dtype=t), x.is_floating_point(), t == torch.float32, torch.promote_types(t, torch.float64) == torch.float64
''',
    "assert_msg": '''
def f(x: Tensor, n: int, b: bool):
    assert n < 3, "too big: {}".format(n)
    if n == 1:
        raise ValueError("one")
    return n
''',
    "while_true": '''
def f(x: Tensor, n: int, b: bool):
    i = 0
    while True:
        i += 1
        if i > n:
            break
        if b:
            continue
        x.add_(i)
    return x, i
''',
    "do_while_else": '''
def f(x: Tensor, n: int, b: bool):
    i = n
    while i > 0 or b:
        b = False
        i -= 1
    return i, b
''',
}
# programs outside what the value-semantics option promises: they update tensors in place
MUTATES = {"none_result", "noresult", "index_put", "overwrite_param", "early_in_nested", "while_true", "xadd_", "xset", "xidx",
           "zmut", "xalias"}
PROMOTE = '''
def __torch_mlir_internal_promote_dtypes(ranks: List[Optional[int]], dtypes: List[int]) -> int:
    return dtypes[0]

def f(x: Tensor, n: int, b: bool):
    ranks: List[Optional[int]] = [n, None]
    dtypes = [6, n]
    return __torch_mlir_internal_promote_dtypes(ranks, dtypes)
'''
INPUTS = [(n, b) for n in (0, 1, 2, 3) for b in (False, True)]


def X():
    return torch.tensor([[1.5, -2.0], [0.25, 3.0]])


def clone(v):
    if isinstance(v, torch.Tensor):
        return v.clone()
    if isinstance(v, (list, tuple)):
        return type(v)(map(clone, v))
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    return v


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(equal, a, b))
    if type(a) is float and type(b) is float and a == b == 0:
        return str(a) == str(b)
    if type(a) is not type(b) and not isinstance(a, torch.Tensor):
        return False
    return same(a, b)


def ts(src):
    torch._C._set_graph_executor_optimize(False)
    return torch.jit.CompilationUnit("import math\n" + src if False else src)


def run_ts(f, args):
    try:
        return True, f(*args)
    except Exception as e:
        return False, type(e).__name__


def case(c):
    kind, key, opts = c
    src = render(*key) if kind == "t" else SPECIAL[key] if kind == "s" else PROMOTE
    name = "/".join([key[0], *key[1]]) if kind == "t" else key
    tag = f"{name}:{'value' if opts[0] else 'ref'}{'-noshape' if opts[1] else ''}"
    try:
        cu = ts(src)
    except Exception as e:
        if kind == "t" and "\n" in str(e):
            return {"skipped": 1}
        raise
    fns = [getattr(cu, x) for x in [l[4:l.index("(")] for l in src.split("\n") if l.startswith("def ")]]
    f = fns[-1]

    def bad(what, msg):
        raise Violation(f"{what}:{tag}", f"{name}: {msg}\n{src[src.index('def f('):][:900]}")

    try:
        module = J.import_functions(fns, J.options(*opts))
    except J.ImportFailed as e:
        bad("import", f"the importer refuses: {e}")
    except C.Crash as e:
        bad("crash", f"the importer would crash: {e}")
    try:
        J.verify(module)
    except F.MLIRError as e:
        bad("invalid", f"invalid IR: {e}\n{module}"[:3000])
    hooks = {}
    if kind == "p":
        ops = []

        def promote(it, op, a):
            ops.append(a)
            return [a[1][0]]

        hooks["torch.promote_dtypes"] = promote
    it = J.Jit(module, hooks)
    funcs = [o for o in module.body._ops if o.name == "func.func"]
    want = [x.qualified_name for x in fns]
    if [F._sym(o) for o in funcs] != want:
        bad("symbols", f"the functions are {[F._sym(o) for o in funcs]}, not {want}")
    runs = 0
    for n, b in INPUTS:
        x1, x2 = X(), X()
        ok, exp = run_ts(f, (x1, n, b))
        it.steps = 0
        try:
            got = it.call("f", [x2, n, b])
            done = True
        except J.Raised as e:
            done, got = False, str(e)
        except TypeSoundness as e:
            bad("type", f"n={n} b={b}: {e}")
        except InterpError as e:
            bad("exec", f"n={n} b={b}: {e}")
        if ok != done:
            bad("outcome", f"n={n} b={b}: TorchScript {'returns' if ok else 'raises'} {exp}; imported: {got}")
        if ok:
            if len(got) != 1:
                bad("result", f"{len(got)} results")
            if not equal(got[0], exp):
                bad("result", f"n={n} b={b}: imported {got[0]!r}, TorchScript {exp!r}")
        if not same(x1, x2):
            bad("effect", f"n={n} b={b}: the argument is {short(x2)} after the imported function, {short(x1)} after TorchScript's")
        runs += 1
    if kind == "p" and not ops:
        bad("promote", "the promotion helper is not turned into its operation")
    # the types of the signature follow the import options
    return {"runs": runs, "ops": it.ops_run}


def run(ck):
    J.load()
    cases = []
    names = list(LETTERS)
    for t, (k, _) in TEMPLATES.items():
        if k == 1:
            ls = [(a,) for a in names]
        elif ck.thorough:
            ls = list(itertools.product(names, repeat=2)) if t in ("seq", "forif", "earlyret", "continue", "loopret", "nested") else \
                [x for x in itertools.product(names, repeat=2) if x[0] in CORE or x[1] in CORE]
        elif t == "seq":
            ls = list(itertools.product(CORE, names))
        else:
            ls = [(a, names[(i * 7 + len(t)) % len(names)]) for i, a in enumerate(names)] + \
                [x for x in itertools.product(CORE[::3], repeat=2)]
        cases += [("t", (t, l), (False, False)) for l in ls]
    cases += [("s", s, (v, i)) for s in SPECIAL for v in (False, True) for i in (False, True) if not (v and s in MUTATES)]
    cases += [("t", ("seq", (a, "inc")), (True, False)) for a in names if a not in MUTATES]
    cases += [("p", "promote_dtypes", (False, False)), ("p", "promote_dtypes", (True, False))]
    infos = ck.run_cases(cases, case, keyfn=lambda c: (c[0], c[1], c[2]), chunk=16)
    runs = sum(i["runs"] for i in infos if i and "runs" in i)
    skipped = sum(1 for i in infos if i and "skipped" in i)
    ck.transitions = runs + len(cases)
    ck.n_states_extra = runs
    ck.extra.update(programs=len(cases), programs_torchscript_rejects=skipped, executions=runs,
                    operations_executed=sum(i["ops"] for i in infos if i and "ops" in i))
    ck.sample(f"template 'continue' with letters (lcat, oin):\n{render('continue', ('lcat', 'oin'))[-420:]}")
    ck.sample(f"{len(TEMPLATES)} templates x {len(LETTERS)} letters; inputs n in 0..3, b in both")
    if skipped * 4 > len(cases):
        ck.violation("skipped", f"{skipped} of {len(cases)} programs are not TorchScript")
    ck.assumptions += ["MLIR's C API is replaced by a Python model of it (mc/fakecapi.py)",
                       "PyTorch operators are executed by PyTorch itself"]


def replay(ck, data):
    print(case((data[0], tuple([data[1][0], tuple(data[1][1])]) if data[0] == "t" else data[1], tuple(data[2]))))
    return 0

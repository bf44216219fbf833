"""The abstract interpretation library: its Python source, and an executor of the shipped text.

The shipped library is the MLIR module in lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp.
`Library` reads that text and turns every function into a Python function, operation by
operation, so that it can be run next to the Python source and next to the real operators.
"""
import ast
import importlib
import re
import sys

from . import env

CPP = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"
PKG = "torch_mlir.jit_ir_importer.build_tools"
UNKNOWN = 1 << 40  # what stands for an extent known only at run time


class LibError(Exception):
    """the library function raised"""


class BadLibrary(Exception):
    """the text is not a well-formed library"""


# ---------------------------------------------------------------- the Python source
def load_python():
    """(functions by name, invocations by name); the decorators only take notes"""
    env.install_fake_mlir()
    from . import native

    native.stub_jit_importer()
    import torchvision  # noqa: F401  registers its operators

    fw = importlib.import_module(PKG + ".testing_framework")
    inv, real = {}, {}

    def rec(invocations):
        def deco(f):
            inv[f.__name__] = list(invocations)
            return f

        return deco

    for n in ("check_shape_function", "check_dtype_function"):
        real[n] = getattr(fw, n)
        setattr(fw, n, rec)
    try:
        lib = importlib.import_module(PKG + ".abstract_interp_lib_gen")
    finally:
        for n, f in real.items():
            setattr(fw, n, f)
    return {k: v for k, v in vars(lib).items() if "〇" in k and callable(v)}, inv


def lib_name(pyname):
    n, kind = pyname.split("〡")
    return f"__torch_mlir_{kind}_fn." + n.replace("〇", ".")


# ---------------------------------------------------------------- the shipped text
def cpp_text(path):
    """the string literals of a C++ file's getAbstractInterpLibrary, concatenated"""
    s = open(path, encoding="utf-8").read()
    s = s[s.index("getAbstractInterpLibrary"):]
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s.startswith("//", i):
            i = s.index("\n", i)
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2
        elif c == "#":  # preprocessor line
            i = s.index("\n", i)
        elif c == "R" and s.startswith('R"', i):
            j = s.index("(", i)
            d = s[i + 2:j]
            e = s.index(")" + d + '"', j)
            out.append(repr(s[j + 1:e]))
            i = e + len(d) + 2
        else:
            i += 1
    return "".join(ast.literal_eval(x) for x in out)


NAME = r"%[\w$.#-]+"
_res = re.compile(rf"({NAME})(?::(\d+))?(?:, ({NAME}(?::\d+)?))*\s*=\s*")


def _v(name):
    return "v_" + name[1:].replace("-", "m").replace("$", "_d_").replace(".", "_p_").replace("#", "_r")


def _c(x, y):
    """C-style checks of an operand pair used by arithmetic: no surprises from Python's own rules"""
    return x, y


def _raise(msg):
    raise LibError(msg)


def _getitem(x, i):
    if not -len(x) <= i < len(x):
        raise LibError("list index out of range")
    return x[i]


def _set(x, i, v):
    if not -len(x) <= i < len(x):
        raise LibError("list index out of range")
    x[i] = v
    return x


def _append(x, v):
    x.append(v)
    return x


def _div(a, b):
    if b == 0:
        raise LibError("division by zero")
    return a / b


def _fdiv(a, b):
    if b == 0:
        raise LibError("division by zero")
    return a // b


def _mod(a, b):
    if b == 0:
        raise LibError("modulo by zero")
    return a % b


def _int(x):
    if x != x or x in (float("inf"), float("-inf")):
        raise LibError("not finite")
    return int(x)


def _ceil(x):
    import math

    return math.ceil(x) if x == x and x not in (float("inf"), float("-inf")) else _raise("not finite")


def _range_length(lo, hi, step):
    if step == 0:
        raise LibError("range() arg 3 must not be zero")
    return max(0, -((lo - hi) // step)) if step > 0 else max(0, -((hi - lo) // -step))


def _format(f, *a):
    try:
        return f.format(*[x if isinstance(x, (int, float, str)) else str(x) for x in a])
    except Exception:
        return f


def _min(a):
    return min(a) if a else _raise("min of an empty list")


def _list_unpack(x, n):
    return tuple(x) if len(x) == n else _raise("wrong number of values to unpack")


class _Num:
    def __init__(self, v):
        self.v = v


def _num_dtype(t):
    v = t.v
    return 11 if isinstance(v, bool) else 4 if isinstance(v, int) else 7 if isinstance(v, float) else 10


EXPR = {
    "torch.aten.__getitem__.t": "_getitem({0}, {1})", "torch.aten.len.t": "len({0})", "torch.aten.len.str": "len({0})",
    "torch.aten.append.t": "_append({0}, {1})", "torch.aten._set_item.t": "_set({0}, {1}, {2})",
    "torch.aten.__not__": "(not {0})", "torch.aten.neg.int": "(-{0})", "torch.aten.neg.float": "(-{0})",
    "torch.aten.__is__": "({0} is {1})", "torch.aten.__isnot__": "({0} is not {1})",
    "torch.aten.__range_length": "_range_length({0}, {1}, {2})", "torch.aten.__derive_index": "({1} + {0} * {2})",
    "torch.aten.slice.t": "{0}[{1}:{2}:{3}]", "torch.aten.__contains__.int_list": "({1} in {0})",
    "torch.aten.__contains__.str_list": "({1} in {0})",
    "torch.aten.add.t": "({0} + {1})", "torch.aten.mul.left_t": "({0} * {1})", "torch.aten.Int.float": "_int({0})",
    "torch.aten.Int.Scalar": "_int({0})", "torch.aten.Int.bool": "int({0})", "torch.aten.Float.Scalar": "float({0})",
    "torch.aten.ceil.Scalar": "_ceil({0})", "torch.aten.ceil.float": "_ceil({0})",
    "torch.aten.any.bool": "any({0})", "torch.aten.all.bool": "all({0})", "torch.aten.sqrt.int": "({0} ** 0.5)",
    "torch.prim.min.self_int": "_min({0})", "torch.prim.unchecked_cast": "{0}", "torch.derefine": "{0}",
    "torch.prim.NumToTensor.Scalar": "_Num({0})", "torch.prim.dtype": "_num_dtype({0})",
    "torch.prim.TupleIndex": "{0}[{1}]", "torch.aten.div": "_div({0}, {1})", "torch.aten.div.int": "_div({0}, {1})",
    "torch.aten.div.float": "_div({0}, {1})", "torch.aten.abs.int": "abs({0})", "torch.prim.abs.Scalar": "abs({0})",
    "torch.aten.add": "({0} + {1})", "torch.aten.sub": "({0} - {1})", "torch.aten.mul": "({0} * {1})",
    "torch.aten.Bool.int": "bool({0})", "torch.aten.Bool.float": "bool({0})",
}
for _ty in ("int", "float", "int_float", "float_int", "str", "bool", "int_list"):
    for _o, _s in dict(eq="==", ne="!=", lt="<", le="<=", gt=">", ge=">=").items():
        EXPR[f"torch.aten.{_o}.{_ty}"] = "({0} %s {1})" % _s
    for _o, _s in dict(add="+", sub="-", mul="*").items():
        EXPR.setdefault(f"torch.aten.{_o}.{_ty}", "({0} %s {1})" % _s)
for _ty in ("int", "float"):
    EXPR[f"torch.aten.floordiv.{_ty}"] = "_fdiv({0}, {1})"
    EXPR[f"torch.aten.remainder.{_ty}"] = "_mod({0}, {1})"
    EXPR[f"torch.prim.max.{_ty}"] = "max({0}, {1})"
    EXPR[f"torch.prim.min.{_ty}"] = "min({0}, {1})"
OPERATOR = {"aten.lt": "({0} < {1})", "aten.eq": "({0} == {1})", "aten.gt": "({0} > {1})", "aten.ge": "({0} >= {1})",
            "aten.le": "({0} <= {1})", "aten.ne": "({0} != {1})", "prim.id": "UNKNOWN", "prim.abs.int": "abs({0})", "prim.abs.float": "abs({0})"}

_fn = re.compile(r'^func\.func (?:private )?@("(?:[^"\\]|\\.)*"|[\w.$]+)\((.*?)\)(?: -> (.*))? \{$')


def unescape(s):
    """MLIR string: \\XX hex escapes, and \\n style ones"""
    b = bytearray()
    i = 0
    e = s.encode()
    while i < len(e):
        if e[i] == 92:
            nx = e[i + 1:i + 3].decode()
            if re.fullmatch("[0-9A-Fa-f]{2}", nx):
                b.append(int(nx, 16))
                i += 3
                continue
            b += {b"n": b"\n", b"t": b"\t", b'"': b'"', b"\\": b"\\"}[e[i + 1:i + 2]]
            i += 2
        else:
            b.append(e[i])
            i += 1
    return b.decode()


class Library:
    def __init__(self, path=None, promote=None):
        self.path = path or f"{env.REPO}/{CPP}"
        self.src = {}
        self.sig = {}
        self._parse(cpp_text(self.path))
        self.ns = {k: v for k, v in globals().items() if k.startswith("_") or k in ("UNKNOWN", "LibError")}
        self.ns["_promote"] = promote or (lambda ranks, dtypes: ("promoted", tuple(ranks), tuple(dtypes)))
        self.pyid = {n: f"f_{i}" for i, n in enumerate(self.src)}
        code = []
        for n, (params, body) in self.src.items():
            code.append(f"def {self.pyid[n]}({', '.join(params)}):")
            code += body
        text = "\n".join(re.sub(r"\{CALL:(.*?)\}", lambda m: self._callee(m[1]), l) for l in code)
        exec(compile(text, "<library>", "exec"), self.ns)
        self.fn = {n: self.ns[i] for n, i in self.pyid.items()}

    def _callee(self, n):
        if n not in self.pyid:
            raise BadLibrary(f"call to undefined function {n}")
        return self.pyid[n]

    def __contains__(self, n):
        return n in self.fn

    def __call__(self, name, *args):
        return self.fn[name](*args)

    # -- text to Python
    def _parse(self, text):
        lines = [l.strip() for l in text.split("\n")]
        if lines[0] != "module {":
            raise BadLibrary(f"unexpected start {lines[0]!r}")
        i = 1
        while lines[i] != "}":
            m = _fn.match(lines[i])
            if not m:
                raise BadLibrary(f"expected a function: {lines[i]!r}")
            name = unescape(m[1].strip('"'))
            params = [p.split(":")[0].strip() for p in self._split(m[2])]
            if name in self.src:
                raise BadLibrary(f"two functions named {name}")
            self.sig[name] = ([p.split(":", 1)[1].strip() for p in self._split(m[2])], m[3])
            self.scope = [set(params)]
            body = []
            i = self._block(lines, i + 1, body, "  ", ("ret", None))
            if lines[i] != "}":
                raise BadLibrary(f"{name}: expected end of function, got {lines[i]!r}")
            i += 1
            self.src[name] = ([_v(p) for p in params], body)
        return

    @staticmethod
    def _split(s):
        out, d, cur = [], 0, ""
        for c in s:
            if c in "(<[":
                d += 1
            if c in ")>]":
                d -= 1
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += c
        if cur.strip():
            out.append(cur)
        return [x.strip() for x in out]

    def _use(self, n):
        n = n.strip()
        if not any(n in s for s in self.scope):
            raise BadLibrary(f"use of undefined value {n}")
        return _v(n)

    def _uses(self, s):
        return [self._use(x) for x in self._split(s)]

    def _def(self, head):
        """names of the results in 'a, b:2' ; returns Python target names"""
        out = []
        for part in head.split(","):
            part = part.strip()
            if ":" in part:
                b, k = part.split(":")
                out += [f"{b}#{j}" for j in range(int(k))]
            else:
                out.append(part)
        for n in out:
            if any(n in s for s in self.scope):
                raise BadLibrary(f"redefinition of {n}")
            self.scope[-1].add(n)
        return [_v(n) for n in out]

    def _block(self, lines, i, out, ind, end):
        """until the closing brace of the region; end: what its terminator does with its operands"""
        done = False
        while True:
            l = lines[i]
            if l.startswith("}"):
                if not done:
                    raise BadLibrary("region without a terminator")
                return i
            if done:
                raise BadLibrary(f"operation after a terminator: {l!r}")
            head = None
            m = re.match(rf"^({NAME}(?::\d+)?(?:, {NAME}(?::\d+)?)*) = (.*)$", l)
            rest = l
            if m:
                head, rest = m[1], m[2]
            op = re.match(r"^[\w.]+", rest)
            if not op:
                raise BadLibrary(f"cannot read {l!r}")
            op = op[0]
            arg = rest[len(op):].strip()
            i += 1
            if op == "return" or op == "func.return":
                if end[0] != "ret":
                    raise BadLibrary("return inside a region")
                a = self._uses(arg.split(":")[0]) if arg else []
                out.append(f"{ind}return {a[0] if len(a) == 1 else '(' + ', '.join(a) + ')'}")
                done = True
            elif op == "torch.prim.If.yield":
                if end[0] != "if":
                    raise BadLibrary("yield of an If outside one")
                a = self._uses(arg.split(":")[0]) if arg else []
                if len(a) != len(end[1]):
                    raise BadLibrary("If yields a wrong number of values")
                out.append(f"{ind}{', '.join(end[1])} = {', '.join(a)}" if a else f"{ind}pass")
                done = True
            elif op == "torch.prim.Loop.condition":
                if end[0] != "loop":
                    raise BadLibrary("loop condition outside a loop")
                m = re.match(rf"^({NAME}), iter\((.*)\)$", arg)
                cond = self._use(m[1])
                a = self._uses(m[2].split(":")[0]) if m[2] else []
                if len(a) != len(end[1]):
                    raise BadLibrary("Loop carries a wrong number of values")
                if a:
                    out.append(f"{ind}{', '.join(end[1])} = {', '.join(a)}")
                out.append(f"{ind}{end[2]} = {cond}")
                done = True
            elif op == "torch.prim.If":
                m = re.match(rf"^({NAME}) -> \((.*)\) \{{$", arg)
                cond = self._use(m[1])
                n = len(self._split(m[2]))
                tmp = [f"t_{len(out)}_{len(ind)}_{j}" for j in range(n)]
                out.append(f"{ind}if {cond}:")
                self.scope.append(set())
                i = self._block(lines, i, out, ind + " ", ("if", tmp))
                self.scope.pop()
                if lines[i] == "} else {":
                    out.append(f"{ind}else:")
                    self.scope.append(set())
                    i = self._block(lines, i + 1, out, ind + " ", ("if", tmp))
                    self.scope.pop()
                elif n:
                    raise BadLibrary("If with results and no else")
                if lines[i] != "}":
                    raise BadLibrary(f"end of If: {lines[i]!r}")
                i += 1
                r = self._def(head) if head else []
                if len(r) != n:
                    raise BadLibrary("results of an If")
                if r:
                    out.append(f"{ind}{', '.join(r)} = {', '.join(tmp)}")
            elif op == "torch.prim.Loop":
                m = re.match(rf"^({NAME}), ({NAME}), init\((.*?)\) \{{$", arg)
                trip, cond = self._use(m[1]), self._use(m[2])
                init = self._uses(m[3]) if m[3] else []
                b = re.match(r"^\^bb\d+\((.*)\):$", lines[i])
                ps = [p.split(":")[0].strip() for p in self._split(b[1])]
                k = f"{len(out)}_{len(ind)}"
                st = [f"s_{k}_{j}" for j in range(len(init))]
                if len(ps) != len(st) + 1:
                    raise BadLibrary("arguments of a loop body")
                if st:
                    out.append(f"{ind}{', '.join(st)} = {', '.join(init)}")
                out.append(f"{ind}k_{k} = {cond}")
                self.scope.append(set(ps))
                out.append(f"{ind}for {_v(ps[0])} in range({trip}):")
                out.append(f"{ind} if not k_{k}: break")
                if st:
                    out.append(f"{ind} {', '.join(_v(p) for p in ps[1:])} = {', '.join(st)}")
                i = self._block(lines, i + 1, out, ind + " ", ("loop", st, f"k_{k}"))
                self.scope.pop()
                if not lines[i].startswith("} : "):
                    raise BadLibrary(f"end of Loop: {lines[i]!r}")
                i += 1
                r = self._def(head) if head else []
                if len(r) != len(st):
                    raise BadLibrary("results of a Loop")
                if r:
                    out.append(f"{ind}{', '.join(r)} = {', '.join(st)}")
            elif op == "torch.prim.RaiseException":
                out.append(f"{ind}raise LibError({self._uses(arg.split(':')[0])[0]})")
            elif op.startswith("torch.constant."):
                kind = op[15:]
                if kind == "none":
                    e = "None"
                elif kind == "bool":
                    e = {"true": "True", "false": "False"}[arg]
                elif kind == "str":
                    e = repr(unescape(ast.literal_eval("r'''" + arg[1:-1] + "'''") if "'''" not in arg else arg[1:-1]))
                elif kind == "int":
                    e = repr(int(arg))
                elif kind == "float":
                    e = repr(self._float(arg))
                else:
                    raise BadLibrary(f"constant {kind}")
                out.append(f"{ind}{self._def(head)[0]} = {e}")
            elif op in ("call", "func.call"):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[\w.$]+)\((.*?)\) : (.*)$', arg)
                name = unescape(m[1].strip('"'))
                a = self._uses(m[2])
                out.append(f"{ind}{', '.join(self._def(head)) if head else '_'} = {{CALL:{name}}}({', '.join(a)})")
            elif op == "torch.operator":
                m = re.match(r'^"([^"]+)"\((.*?)\) : (.*)$', arg)
                a = self._uses(m[2])
                if m[1] not in OPERATOR:
                    raise BadLibrary(f"operator {m[1]}")
                out.append(f"{ind}{self._def(head)[0]} = {OPERATOR[m[1]].format(*a)}")
            elif op == "torch.promote_dtypes":
                a = self._uses(arg.split(":")[0])
                out.append(f"{ind}{self._def(head)[0]} = _promote({a[0]}, {a[1]})")
            elif op in ("torch.prim.CreateObject", "torch.prim.Uninitialized"):
                out.append(f"{ind}{self._def(head)[0]} = None")
            elif op == "torch.prim.CallMethod":
                self._def(head)
            elif op == "torch.aten.format":
                m = re.match(r"^\((.*?)\) : ", arg)
                out.append(f"{ind}{self._def(head)[0]} = _format({', '.join(self._uses(m[1]))})")
            else:
                a = self._uses(arg.split(":")[0])
                if op == "torch.prim.ListConstruct":
                    e = "[" + ", ".join(a) + "]"
                elif op == "torch.prim.TupleConstruct":
                    e = "(" + "".join(x + ", " for x in a) + ")"
                elif op == "torch.prim.TupleUnpack":
                    e = a[0]
                elif op == "torch.prim.ListUnpack":
                    e = f"_list_unpack({a[0]}, {len(self._count(head))})"
                elif op == "torch.aten.insert.t":
                    e = f"{a[0]}.insert({a[1]}, {a[2]})"
                elif op == "torch.aten.add.str":
                    e = f"({a[0]} + {a[1]})"
                elif op in EXPR:
                    e = EXPR[op].format(*a)
                else:
                    raise BadLibrary(f"operation {op} is not known to this reader")
                if head:
                    t = self._def(head)
                    out.append(f"{ind}{', '.join(t)}{',' if op.endswith('Unpack') and len(t) == 1 else ''} = {e}")
                else:
                    out.append(f"{ind}{e}")

    @staticmethod
    def _count(head):
        n = []
        for p in head.split(","):
            n += [p] * (int(p.split(":")[1]) if ":" in p else 1)
        return n

    @staticmethod
    def _float(a):
        if a.startswith("0x"):
            import struct

            return struct.unpack(">d", bytes.fromhex(a[2:].zfill(16)))[0]
        return float(a)


# ---------------------------------------------------------------- values
_CODE = None


def dtype_code(dt):
    global _CODE
    import torch

    if _CODE is None:
        @torch.jit.script
        def code(x: torch.Tensor) -> int:
            return x.dtype

        _CODE = {}
        for d in {v for v in vars(torch).values() if isinstance(v, torch.dtype)}:
            try:
                _CODE[d] = code(torch.empty(0, dtype=d))
            except Exception:
                pass
    return _CODE[dt]


LAYOUT = {"torch.strided": 0, "torch.sparse_coo": 1}
MEMFMT = {"torch.contiguous_format": 0, "torch.preserve_format": 1, "torch.channels_last": 2,
          "torch.channels_last_3d": 3}


def to_lib(x):
    """a Python-side argument or result as the library sees it"""
    import torch

    if isinstance(x, torch.dtype):
        return dtype_code(x)
    if isinstance(x, torch.layout):
        return LAYOUT[str(x)]
    if isinstance(x, torch.memory_format):
        return MEMFMT[str(x)]
    if isinstance(x, list):
        return [to_lib(y) for y in x]
    if isinstance(x, tuple):
        return tuple(to_lib(y) for y in x)
    return x


def wild(x):
    """extents known only at run time compare equal"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int) and abs(x) >= UNKNOWN // 2:
        return "?"
    if isinstance(x, (list, tuple)):
        return type(x)(wild(y) for y in x)
    return x

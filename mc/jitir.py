"""The IR torch-mlir's TorchScript importer builds: how it is obtained, verified and executed.

The importer is the real C++ (mc.native.full_importer_so) on mc.fakemlir; what is imported
is executed op by op, every PyTorch operator by calling it, so that its meaning can be
compared with TorchScript's own execution of the same program.
"""
import copy
import io
import sys

import torch

from . import env, fakecapi as C, fakemlir as F, native
from .interp import DT, Interp, InterpError, TypeSoundness, check_type as _base_check, literal_tensor, resolve, short

TERMINATOR_OF = {"torch.prim.If": "torch.prim.If.yield", "torch.prim.Loop": "torch.prim.Loop.condition",
                 "torch.nn_module": "torch.nn_module_terminator", "torch.class_type": "torch.class_type_terminator",
                 "func.func": "func.return"}
LIB = None


def load():
    global LIB
    if LIB is None:
        F.install(env.REPO)
        F.load_ods(env.REPO)
        LIB = native.load_full_importer(env.REPO)
    return LIB


class ImportFailed(Exception):
    pass


def _quiet(f):
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        return f()
    finally:
        sys.stderr = err


def import_functions(fns, options=None):
    """a module with the given ScriptFunctions; ImportFailed when the importer refuses, Crash passes"""
    m = load()
    C.reset()

    def go():
        mb = m.ModuleBuilder()
        for f in fns:
            mb.import_function(f, options)
        return mb.module

    return _guard(go)


def import_module(scripted, annotator=None, options=None):
    m = load()
    C.reset()

    def go():
        mb = m.ModuleBuilder()
        mb.import_module(scripted._c, annotator, options)
        return mb.module

    return _guard(go)


def _guard(go):
    try:
        return _quiet(go)
    except C.Crash:
        raise
    except Exception as e:
        if "assertion" in str(e):
            raise C.Crash(str(e))
        raise ImportFailed(f"{type(e).__name__}: {e}; {[d.msg for d in C.DIAGNOSTICS]}") from None


def options(value_semantics=False, ignore_shapes=False):
    o = load().ImportOptions()
    o.assumeTensorsHaveValueSemantics = value_semantics
    o.ignoreExistingTensorShapesAndDtypes = ignore_shapes
    return o


# ---------------------------------------------------------------- verification
def verify(module):
    """fakemlir's rules, and those of the ops only this importer creates"""
    n = F.verify(module.operation)
    syms = {F._sym(o): o for o in module.body._ops if F._sym(o) is not None}

    def err(op, m):
        raise F.MLIRError(f"'{op.name}' op {m}")

    def types(vs):
        return [str(v.type) for v in vs]

    def visit(op, parent):
        nm = op.name
        for i, r in enumerate(op._regions):
            if nm != "builtin.module":
                if len(r._blocks) != 1:
                    err(op, f"region #{i} has {len(r._blocks)} blocks")
                b = r._blocks[0]
                want = TERMINATOR_OF.get(nm)
                if want and (not b._ops or b._ops[-1].name != want):
                    err(op, f"region #{i} does not end in {want}")
                for o in b._ops[:-1]:
                    if o.name in TERMINATOR_OF.values():
                        err(o, "is not the last operation of its block")
            for b in r._blocks:
                for o in b._ops:
                    if o._block is not b:
                        err(o, "is not where it says it is")
                    visit(o, op)
        ops, res = op._operands, op._results
        if nm == "torch.prim.If":
            if len(op._regions) != 2 or types(ops) != ["!torch.bool"]:
                err(op, "needs a bool and two regions")
            for r in op._regions:
                if r._blocks[0].arguments or types(r._blocks[0]._ops[-1]._operands) != types(res):
                    err(op, f"a branch yields {types(r._blocks[0]._ops[-1]._operands)}, not {types(res)}")
        elif nm == "torch.prim.Loop":
            b = op._regions[0]._blocks[0]
            if types(ops[:2]) != ["!torch.int", "!torch.bool"] or types(ops[2:]) != types(res):
                err(op, f"starts with {types(ops)}")
            if types(b.arguments) != ["!torch.int"] + types(res):
                err(op, f"the body takes {types(b.arguments)}")
            if types(b._ops[-1]._operands) != ["!torch.bool"] + types(res):
                err(op, f"the body passes on {types(b._ops[-1]._operands)}")
        elif nm == "torch.prim.ListConstruct":
            e = res[0].type
            if e.kind != "list" or not all(C.subtype(v.type, e.elem) for v in ops):
                err(op, f"makes {e} of {types(ops)}")
        elif nm == "torch.prim.DictConstruct":
            e, h = res[0].type, len(ops) // 2
            if e.kind != "dict" or len(ops) % 2 or not all(C.subtype(v.type, e.k) for v in ops[:h]) or \
                    not all(C.subtype(v.type, e.v) for v in ops[h:]):
                err(op, f"makes {e} of {types(ops)}")
        elif nm == "torch.prim.TupleConstruct":
            e = res[0].type
            if e.kind != "tuple" or len(e.elems) != len(ops) or not all(C.subtype(v.type, t) for v, t in zip(ops, e.elems)):
                err(op, f"makes {e} of {types(ops)}")
        elif nm == "torch.derefine":
            if not C.subtype(ops[0].type, res[0].type):
                err(op, f"{ops[0].type} is not a subtype of {res[0].type}")
        elif nm in ("torch.tensor.literal", "torch.vtensor.literal"):
            a, t = op.attributes["value"], res[0].type
            kind = "vtensor" if "vtensor" in nm else "tensor"
            if t.kind != kind or list(t.dims) != list(a._type.dims) or str(t.dtype) != str(a._type.element_type):
                err(op, f"literal of {a._type} typed {t}")
        elif nm == "func.func":
            aa = op.attributes.get("arg_attrs")
            if aa is not None and len(aa.items) != len(op.attributes["function_type"].value.ins):
                err(op, "arg_attrs has the wrong length")
            if parent.name != "builtin.module":
                err(op, "is not at module level")
        elif nm == "func.constant":
            f = syms.get(op.attributes["value"].value)
            if f is None or f.name != "func.func":
                err(op, f"@{op.attributes['value'].value} is not a function of the module")
            if str(f.attributes["function_type"].value) != str(res[0].type):
                err(op, f"typed {res[0].type}, the function is {f.attributes['function_type'].value}")
        elif nm == "func.call_indirect":
            t = ops[0].type
            if [str(x) for x in t.ins] != types(ops[1:]) or [str(x) for x in t.outs] != types(res):
                err(op, f"{t} called with {types(ops[1:])} for {types(res)}")
        elif nm == "torch.class_type":
            names = [o.attributes["name"].value for o in op._regions[0]._blocks[0]._ops[:-1]]
            if len(set(names)) != len(names):
                err(op, f"repeats a name: {names}")
            for o in op._regions[0]._blocks[0]._ops[:-1]:
                if o.name not in ("torch.attr", "torch.method"):
                    err(o, "is not allowed inside `torch.class_type`")
                if o.name == "torch.method":
                    f = syms.get(o.attributes["function"].value)
                    if f is None or f.name != "func.func":
                        err(o, "does not reference a valid function")
                    v = f.attributes.get("sym_visibility")
                    if v is None or v.value != "private":
                        err(o, "must reference a private function")
                    ins = f.attributes["function_type"].value.ins
                    if not ins or str(ins[0]) != f'!torch.nn.Module<"{F._sym(op)}">':
                        err(o, f"the first parameter is {ins[:1]}")
        elif nm == "torch.nn_module":
            c = syms.get(res[0].type.cls)
            if c is None or c.name != "torch.class_type":
                err(op, f"'{res[0].type.cls}' does not reference a valid class type")
            slots = op._regions[0]._blocks[0]._ops[:-1]
            attrs = [o for o in c._regions[0]._blocks[0]._ops if o.name == "torch.attr"]
            if any(s.name != "torch.slot" for s in slots):
                err(op, "holds something that is not a slot")
            if len(slots) != len(attrs):
                err(op, "has not as many slots as its class has attributes")
            for s, a in zip(slots, attrs):
                if s.attributes["name"].value != a.attributes["name"].value or \
                        not C.subtype(s._operands[0].type, a.attributes["type"].value):
                    err(s, f"{s.attributes['name'].value}: {s._operands[0].type} for "
                           f"{a.attributes['name'].value}: {a.attributes['type'].value}")
        elif nm == "torch.linear_params.create":
            if len(ops) not in (1, 2) or any(v.type.kind not in ("tensor", "vtensor") for v in ops):
                err(op, f"made of {types(ops)}")
        elif nm == "torch.per_tensor_affine.create":
            if len(ops) != 3 or str(ops[1].type) != "!torch.float" or str(ops[2].type) != "!torch.int":
                err(op, f"made of {types(ops)}")

    visit(module.operation, None)
    return n


# ---------------------------------------------------------------- execution
class Uninit:
    def __repr__(self):
        return "<uninitialized>"


UNINIT = Uninit()


class Obj:
    """an nn_module (or any object of a class type)"""

    def __init__(self, cls, slots):
        self.cls, self.slots = cls, slots

    def __repr__(self):
        return f"<{self.cls}>"


class Raised(Exception):
    """the program raised"""


def check_type(v, t, where=""):
    if v is UNINIT:
        return
    if isinstance(t, F.FunctionType):
        if not isinstance(v, tuple) or v[0] != "function":
            raise TypeSoundness(f"{where}: {short(v)} is not a function")
        return
    k = getattr(t, "kind", None)
    if k == "nn.Module":
        if not isinstance(v, Obj) or v.cls != t.cls:
            raise TypeSoundness(f"{where}: value {short(v)} does not inhabit {t}")
        return
    if k == "dict":
        if not isinstance(v, dict):
            raise TypeSoundness(f"{where}: value {short(v)} does not inhabit {t}")
        for a, b in v.items():
            check_type(a, t.k, where)
            check_type(b, t.v, where)
        return
    if k == "union":
        for e in t.elems:
            try:
                return check_type(v, e, where)
            except TypeSoundness:
                pass
        raise TypeSoundness(f"{where}: value {short(v)} does not inhabit {t}")
    if k == "optional":
        if v is not None:
            check_type(v, t.elem, where)
        return
    if k == "list":
        if not isinstance(v, list):
            raise TypeSoundness(f"{where}: value {short(v)} does not inhabit {t}")
        for x in v:
            check_type(x, t.elem, where)
        return
    if k == "tuple":
        if not isinstance(v, tuple) or len(v) != len(t.elems):
            raise TypeSoundness(f"{where}: value {short(v)} does not inhabit {t}")
        for x, e in zip(v, t.elems):
            check_type(x, e, where)
        return
    if k == "number" and type(v) is complex:
        return
    if k == "LinearParams":
        if not (isinstance(v, tuple) and v[0] == "linear_params"):
            raise TypeSoundness(f"{where}: value {short(v)} does not inhabit {t}")
        return
    _base_check(v, t, where)


def _index(l, i):
    if not -len(l) <= i < len(l):
        raise Raised("list index out of range")
    return l[i]


def _set(l, i, v):
    if not -len(l) <= i < len(l):
        raise Raised("list index out of range")
    l[i] = v
    return l


def _key(d, k):
    if k not in d:
        raise Raised("KeyError")
    return d[k]


def _del(c, k):
    if isinstance(c, list):
        _index(c, k)
        del c[k]
    else:
        _key(c, k)
        del c[k]


def _pop(c, *a):
    if isinstance(c, list):
        i = a[0] if a else -1
        if not c:
            raise Raised("pop from empty list")
        _index(c, i)
        return c.pop(i)
    if len(a) == 1:
        _key(c, a[0])
    return c.pop(*a)


def _store(d, k, v):
    d[k] = v


def _same_elem(a, b):
    if isinstance(a, torch.Tensor):
        raise InterpError("tensor comparison in a list")
    return a == b


# TorchScript's containers are references: these operators must act on the very object
CONTAINER = {
    "aten.append": lambda l, v: (l.append(v), l)[1],
    "aten.insert": lambda l, i, v: l.insert(i, v),
    "aten.extend": lambda l, o: l.extend(list(o)),
    "aten.reverse": lambda l: l.reverse(),
    "aten.clear": lambda l: l.clear(),
    "aten.copy": lambda l: copy.copy(l),
    "aten.list": lambda l: list(l),
    "aten._set_item": lambda c, k, v: _set(c, k, v) if isinstance(c, list) else _store(c, k, v),
    "aten.__getitem__": lambda c, k: _index(c, k) if isinstance(c, list) else _key(c, k),
    "aten.Delete": _del,
    "aten.pop": _pop,
    "aten.len": lambda c: len(c),
    "aten.slice": lambda l, a, b, s: l[a:b:s],
    "aten.keys": lambda d: list(d.keys()),
    "aten.values": lambda d: list(d.values()),
    "aten.items": lambda d: [tuple(x) for x in d.items()],
    "aten.update": lambda d, o: d.update(o),
    "aten.get": lambda d, k, *x: d.get(k, x[0] if x else None),
    "aten.setdefault": lambda d, k, v: d.setdefault(k, v),
    "aten.popitem": lambda d: d.popitem(),
    "aten.add_": lambda a, b: (a.extend(b), a)[1],
    "aten.mul_": lambda a, n: (a.__imul__(n), a)[1],
    "aten.add": lambda a, b: a + b,
    "aten.mul": lambda a, b: a * b,
    "aten.__contains__": lambda a, b: b in a,
    "aten.index": lambda a, b: a.index(b),
    "aten.count": lambda a, b: a.count(b),
    "aten.remove": lambda a, b: a.remove(b),
    "aten.sort": lambda a, *k: a.sort(reverse=bool(k and k[0])),
}


class Jit(Interp):
    """executes a module built by the importer; attribute state lives in Obj"""

    def __init__(self, module, hooks=None, step_limit=100000):
        self.m = module.operation
        self.syms, self.steps, self.step_limit, self.hooks = {}, 0, step_limit, hooks or {}
        self.ops_run = 0
        self.events = []
        for o in module.body._ops:
            n = F._sym(o)
            if n is not None:
                if n in self.syms:
                    raise InterpError(f"duplicate symbol {n}")
                self.syms[n] = o
        self.env, self.objects = {}, []
        for o in module.body._ops:
            if o.name in ("func.func", "torch.class_type"):
                continue
            if o.name == "torch.nn_module":
                slots = {}
                for s in o._regions[0]._blocks[0]._ops[:-1]:
                    slots[s.attributes["name"].value] = self.env[s._operands[0]]
                self.env[o._results[0]] = obj = Obj(o._results[0].type.cls, slots)
                self.objects.append((o, obj))
                continue
            self.define(o, self.op(o, [self.env[v] for v in o._operands], self.env), self.env)

    def define(self, op, res, env):
        if len(res) != len(op._results):
            raise InterpError(f"{op.name}: {len(res)} results, declared {len(op._results)}")
        for v, r in zip(op._results, res):
            check_type(r, v.type, op.name)
            env[v] = r

    def methods(self, cls):
        return {o.attributes["name"].value: o for o in self.syms[cls]._regions[0]._blocks[0]._ops
                if o.name == "torch.method"}

    def root(self):
        """the objects no other object holds"""
        held = set()

        def walk(v):
            if isinstance(v, Obj):
                held.add(id(v))
            elif isinstance(v, (list, tuple)):
                for x in v:
                    walk(x)
            elif isinstance(v, dict):
                for x in v.values():
                    walk(x)

        for _, o in self.objects:
            for v in o.slots.values():
                walk(v)
        return [o for _, o in self.objects if id(o) not in held]

    def call_method(self, obj, name, args):
        m = self.methods(obj.cls)
        if name not in m:
            raise InterpError(f"{obj.cls} has no method {name}")
        return self.call(m[name].attributes["function"].value, [obj, *args])

    def call(self, fname, args, check_args=True):
        f = self.syms.get(fname)
        if f is None or f.name != "func.func":
            raise InterpError(f"no function {fname}")
        b = f._regions[0]._blocks[0]
        if len(args) != len(b.arguments):
            raise InterpError(f"{fname}: {len(args)} args for {len(b.arguments)} params")
        env = {}
        for i, (a, v) in enumerate(zip(b.arguments, args)):
            check_type(v, a.type, f"arg {i} of {fname}")
            env[a] = v
        r = self.block(b, env)
        for v, t in zip(r, f.attributes["function_type"].value.outs):
            check_type(v, t, f"result of {fname}")
        return r

    def block(self, b, env):
        for op in b._ops:
            if op.name in ("func.return", "torch.prim.Loop.condition", "torch.prim.If.yield"):
                return [env[v] for v in op._operands]
            self.steps += 1
            if self.steps > self.step_limit:
                raise InterpError("does not end")
            self.define(op, self.op(op, [env[v] for v in op._operands], env), env)
        raise InterpError("block without terminator")

    def op(self, op, a, env):
        n, at = op.name, op.attributes
        self.ops_run += 1
        if n in self.hooks:
            return self.hooks[n](self, op, a)
        if n == "torch.operator":
            return self.torch_op("torch." + at["name"].value, a, op)
        if n == "torch.tensor.literal":
            return [literal_tensor(at["value"])]
        if n in ("torch.prim.ListUnpack", "torch.prim.TupleUnpack"):
            if n.endswith("ListUnpack") and len(a[0]) != len(op._results):
                raise Raised("list unpack")
            return list(a[0])
        if n == "torch.prim.TupleConstruct":
            return [tuple(a)]
        if n == "torch.prim.TupleIndex":
            return [_index(a[0], a[1])]
        if n == "torch.prim.DictConstruct":
            h = len(a) // 2
            return [dict(zip(a[:h], a[h:]))]
        if n == "torch.prim.If":
            return self.block(op._regions[0 if a[0] else 1]._blocks[0], dict(env))
        if n == "torch.prim.Loop":
            it, cond, carry = 0, a[1], list(a[2:])
            b = op._regions[0]._blocks[0]
            while cond and it < a[0]:
                e = dict(env)
                vals = [it] + carry
                for x, v in zip(b.arguments, vals):
                    check_type(v, x.type, "loop argument")
                    e[x] = v
                r = self.block(b, e)
                cond, carry = r[0], r[1:]
                it += 1
            return carry
        if n == "torch.prim.GetAttr":
            if at["name"].value not in a[0].slots:
                raise InterpError(f"{a[0]} has no attribute {at['name'].value}")
            return [a[0].slots[at["name"].value]]
        if n == "torch.prim.SetAttr":
            if at["name"].value not in a[0].slots:
                raise InterpError(f"{a[0]} has no attribute {at['name'].value}")
            a[0].slots[at["name"].value] = a[1]
            return []
        if n == "torch.prim.CallMethod":
            return self.call_method(a[0], at["name"].value, a[1:])
        if n == "func.constant":
            return [("function", at["value"].value)]
        if n == "func.call_indirect":
            return self.call(a[0][1], a[1:])
        if n in ("torch.prim.unchecked_cast", "torch.derefine", "torch.tensor_static_info_cast"):
            return [a[0]]
        if n == "torch.prim.Uninitialized":
            return [UNINIT]
        if n == "torch.prim.RaiseException":
            raise Raised(a[0])
        if n == "torch.prim.Print":
            self.events.append(("print", [short(x) for x in a]))
            return []
        if n == "torch.prim.CreateObject":
            return [Obj(op._results[0].type.cls, {})]
        if n == "torch.linear_params.create":
            return [("linear_params", a[0], a[1] if len(a) > 1 else None)]
        if n == "torch.per_tensor_affine.create":
            q = torch._make_per_tensor_quantized_tensor(a[0], a[1], a[2])
            return [q]
        if n in ("torch.constant.none", "torch.constant.int", "torch.constant.bool", "torch.constant.float",
                 "torch.constant.str", "torch.constant.device", "torch.vtensor.literal", "torch.prim.ListConstruct"):
            return super().op(op, a, env)
        if n.startswith("torch.aten.") or n.startswith("torch.prim.") or n.startswith("torch.prims.") or \
                n.startswith("torch.quantized.") or n.startswith("torch.torchvision."):
            return self.torch_op(n, a, op)
        raise InterpError(f"cannot execute {n}")

    def torch_op(self, n, a, op=None):
        base = ".".join(n.split(".")[1:3])
        if base in CONTAINER and a and isinstance(a[0], (list, dict)):
            if base == "aten.add" and not isinstance(a[1], list):
                raise InterpError(n)
            try:
                r = CONTAINER[base](*a)
            except (ValueError, KeyError) as e:
                raise Raised(str(e))
            return [] if not op._results else [r]
        if base == "aten.format":
            return [a[0].format(*a[1:])]
        if base == "aten.percentFormat":
            return [a[0] % (a[1] if len(a) == 2 and isinstance(a[1], tuple)
                            else tuple(a[1:]))]
        if base in ("aten.__is__", "aten.__isnot__"):
            return [(a[0] is a[1]) == (base == "aten.__is__")]
        if base == "aten.str":
            return [str(a[0])]
        if base in ("aten.tensor", "aten.as_tensor") and not isinstance(a[0], torch.Tensor):
            if len(a) != (4 if base == "aten.tensor" else 3):
                raise InterpError(f"{n} with {len(a)} operands")
            if a[1] is not None and a[1] not in TO_DTYPE:
                raise TypeSoundness(f"{n}: {a[1]} is not a ScalarType")
            kw = {"requires_grad": a[3]} if len(a) == 4 else {}
            return [torch.tensor(a[0], dtype=TO_DTYPE.get(a[1]), device=a[2], **kw)]
        if base == "aten.warn":
            return []
        if base == "prim.dtype" or base == "prim.layout":
            v = getattr(a[0], base[5:])
            return [TO_INT[v]]
        if any(x is UNINIT for x in a):
            raise InterpError(f"{n} reads an uninitialized value")
        f = resolve(n)
        sch = f._schema
        if len(a) != len(sch.arguments):
            raise InterpError(f"{n}: {len(a)} operands for schema {sch}")
        pos, kw = [], {}
        for v, arg in zip(a, sch.arguments):
            if type(v) is int:
                rt = str(arg.real_type)
                if "ScalarType" in rt:
                    if v not in TO_DTYPE:
                        raise TypeSoundness(f"{n}: {arg.name}={v} is not a ScalarType")
                    v = TO_DTYPE[v]
                elif "Layout" in rt:
                    v = TO_LAYOUT[v]
            if arg.kwarg_only:
                kw[arg.name] = v
            else:
                pos.append(v)
        try:
            r = f(*pos, **kw)
        except (RuntimeError, ValueError, IndexError, ZeroDivisionError, NotImplementedError) as e:
            raise Raised(f"{n}: {type(e).__name__}: {e}")
        if len(sch.returns) == 0:
            return []
        return [r] if len(sch.returns) == 1 else list(r)


TO_LAYOUT = {0: torch.strided, 1: torch.sparse_coo}
TO_DTYPE = {0: torch.uint8, 1: torch.int8, 2: torch.int16, 3: torch.int32, 4: torch.int64, 5: torch.float16,
            6: torch.float32, 7: torch.float64, 8: torch.complex32, 9: torch.complex64, 10: torch.complex128,
            11: torch.bool, 12: torch.qint8, 13: torch.quint8, 14: torch.qint32, 15: torch.bfloat16}
TO_INT = {v: k for k, v in TO_DTYPE.items()} | {torch.strided: 0}

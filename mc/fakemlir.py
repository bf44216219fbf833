"""A small, executable stand-in for the MLIR Python bindings.

The sandbox has no MLIR, so this module implements -- in plain Python -- the
part of `mlir.ir`, `mlir.dialects.func` and friends that torch-mlir's Python
front ends are written against.  The REAL importers of /repo then run unchanged
on top of it and build an in-memory IR which `mc.interp` can execute.

It is deliberately strict where MLIR is strict (types must parse, operands must
be Values, SSA dominance, terminators, symbol uniqueness, dense data sizes) and
permissive everywhere else.
"""
import re
import sys
import threading
import types as _pytypes

import numpy as np

try:
    import ml_dtypes
except ImportError:  # pragma: no cover
    ml_dtypes = None


class MLIRError(Exception):
    pass


# --------------------------------------------------------------------------
# thread-local context / location / insertion point stack
# --------------------------------------------------------------------------
class _TLS(threading.local):
    def __init__(self):
        self.stack = []


_tls = _TLS()


def _cur(kind):
    """Mirrors mlir's PyThreadContextEntry: (context, insertion point, location)."""
    if not _tls.stack:
        return None
    ctx, ip, loc = _tls.stack[-1]
    return {"ctx": ctx, "ip": ip, "loc": loc}[kind]


def _push(ctx=None, ip=None, loc=None):
    # As in MLIR: entries inherit ip/loc from the parent frame when same context.
    if _tls.stack:
        pctx, pip, ploc = _tls.stack[-1]
        if pctx is ctx:
            ip = ip if ip is not None else pip
            loc = loc if loc is not None else ploc
    _tls.stack.append((ctx, ip, loc))


def _pop():
    _tls.stack.pop()


def _need_ctx(context=None):
    if context is not None:
        return context
    c = _cur("ctx")
    if c is None:
        raise RuntimeError(
            "An MLIR function requires a Context but none was provided in the call "
            "or from the surrounding environment."
        )
    return c


class _Dialects:
    def __init__(self, ctx):
        self.ctx = ctx

    def __getitem__(self, name):
        if name not in self.ctx._dialects:
            raise IndexError(f"Dialect '{name}' not found")
        return name

    def __getattr__(self, name):
        return self[name]


class _Current:
    """a static read-only property"""

    def __init__(self, what, msg):
        self.what, self.msg = what, msg

    def __get__(self, obj, cls):
        v = _cur(self.what)
        if v is None:
            raise ValueError(self.msg)
        return v


class Context:
    def __init__(self):
        self._dialects = {"builtin", "func"}
        self.allow_unregistered_dialects = False
        self.emit_error_diagnostics = False
        self.log = []
        self._multithreading = True

    current = _Current("ctx", "No current Context")

    @property
    def dialects(self):
        return _Dialects(self)

    d = dialects

    def is_registered_operation(self, name):
        return is_registered_op(name)

    @property
    def _CAPIPtr(self):
        return self

    def enable_multithreading(self, enable):
        self._multithreading = bool(enable)

    def __enter__(self):
        _push(ctx=self)
        return self

    def __exit__(self, *a):
        _pop()


class Location:
    def __init__(self, context, kind, *args):
        self.context = context
        self.kind = kind
        self.args = args

    @staticmethod
    def unknown(context=None):
        return Location(_need_ctx(context), "unknown")

    @staticmethod
    def file(filename, line, col, context=None):
        if not isinstance(filename, str) or not isinstance(line, int):
            raise TypeError("bad file location")
        return Location(_need_ctx(context), "file", filename, line, col)

    @staticmethod
    def name(name, childLoc=None, context=None):
        if not isinstance(name, str):
            raise TypeError(f"name location needs str, got {type(name)}")
        return Location(_need_ctx(context), "name", name, childLoc)

    @staticmethod
    def callsite(callee, frames, context=None):
        frames = list(frames)
        if not frames:
            raise ValueError("No caller frames provided.")
        if not all(isinstance(f, Location) for f in frames):
            raise TypeError("callsite frames must be Locations")
        return Location(_need_ctx(context), "callsite", callee, *frames)

    @staticmethod
    def fused(locations, metadata=None, context=None):
        return Location(_need_ctx(context), "fused", *locations)

    def __enter__(self):
        _push(ctx=self.context, loc=self)
        return self

    def __exit__(self, *a):
        _pop()

    def __eq__(self, o):
        return isinstance(o, Location) and (self.kind, self.args) == (o.kind, o.args)

    def __hash__(self):
        return hash((self.kind, str(self.args)))

    def __repr__(self):
        return f"loc({self.kind}{self.args})"


def _need_loc(loc=None):
    if loc is not None:
        if not isinstance(loc, Location):
            raise TypeError(f"expected Location, got {type(loc)}")
        return loc
    l = _cur("loc")
    if l is None:
        raise RuntimeError(
            "An MLIR function requires a Location but none was provided in the "
            "call or from the surrounding environment."
        )
    return l


class InsertionPoint:
    def __init__(self, block_or_op):
        if isinstance(block_or_op, Block):
            self.block, self.ref = block_or_op, None
        else:
            op = block_or_op.operation
            self.block, self.ref = op._block, op

    @staticmethod
    def at_block_begin(block):
        ip = InsertionPoint(block)
        if block._ops:
            ip.ref = block._ops[0]
        return ip

    @staticmethod
    def at_block_terminator(block):
        ip = InsertionPoint(block)
        ip.ref = block._ops[-1]
        return ip

    def insert(self, op):
        op = op.operation
        if op._block is not None:
            raise ValueError("Attempt to insert operation that has already been inserted")
        op._block = self.block
        if self.ref is None:
            # MLIR refuses to insert after a terminator.
            if self.block._ops and self.block._ops[-1].name in TERMINATORS:
                raise IndexError("Cannot insert operation at the end of a block that already has a terminator. Did you mean to use 'InsertionPoint.at_block_terminator(block)' versus 'InsertionPoint(block)'?")
            self.block._ops.append(op)
        else:
            self.block._ops.insert(self.block._ops.index(self.ref), op)

    def __enter__(self):
        _push(ctx=self.block._ctx(), ip=self)
        return self

    def __exit__(self, *a):
        _pop()


TERMINATORS = {
    "func.return",
    "torch.operator_terminator",
    "torch.prim.Loop.condition",
    "torch.prim.If.yield",
}


# --------------------------------------------------------------------------
# Types
# --------------------------------------------------------------------------
class Type:
    """asm is canonical; identity is the asm string, as MLIR types are uniqued."""

    def __init__(self, asm, context=None, **fields):
        self._asm = asm
        self._context = context
        self.__dict__.update(fields)

    @staticmethod
    def parse(asm, context=None):
        ctx = _need_ctx(context)
        if not isinstance(asm, str):
            raise TypeError("Type.parse needs str")
        return _parse_type(asm, ctx)

    @property
    def context(self):
        return self._context

    def __str__(self):
        return self._asm

    def __repr__(self):
        return f"Type({self._asm})"

    def __eq__(self, o):
        return isinstance(o, Type) and self._asm == o._asm

    def __hash__(self):
        return hash(self._asm)

    # downcasting constructor used as `SomeType(t)`
    @classmethod
    def isinstance(cls, other):
        return isinstance(other, cls)


class IntegerType(Type):
    @staticmethod
    def _mk(width, sign, context=None):
        if not isinstance(width, int) or width <= 0:
            raise MLIRError("bad width")
        p = {"signless": "i", "signed": "si", "unsigned": "ui"}[sign]
        return IntegerType(f"{p}{width}", _need_ctx(context), width=width, sign=sign)

    @staticmethod
    def get_signless(width, context=None):
        return IntegerType._mk(width, "signless", context)

    @staticmethod
    def get_signed(width, context=None):
        return IntegerType._mk(width, "signed", context)

    @staticmethod
    def get_unsigned(width, context=None):
        return IntegerType._mk(width, "unsigned", context)

    is_signless = property(lambda s: s.sign == "signless")
    is_signed = property(lambda s: s.sign == "signed")
    is_unsigned = property(lambda s: s.sign == "unsigned")


class FloatType(Type):
    ASM = None

    @classmethod
    def get(cls, context=None):
        return cls(cls.ASM, _need_ctx(context))


def _mkfloat(name, asm):
    c = type(name, (FloatType,), {"ASM": asm})
    return c


BF16Type = _mkfloat("BF16Type", "bf16")
F16Type = _mkfloat("F16Type", "f16")
F32Type = _mkfloat("F32Type", "f32")
F64Type = _mkfloat("F64Type", "f64")
FloatTF32Type = _mkfloat("FloatTF32Type", "tf32")
Float4E2M1FNType = _mkfloat("Float4E2M1FNType", "f4E2M1FN")
Float6E2M3FNType = _mkfloat("Float6E2M3FNType", "f6E2M3FN")
Float6E3M2FNType = _mkfloat("Float6E3M2FNType", "f6E3M2FN")
Float8E5M2Type = _mkfloat("Float8E5M2Type", "f8E5M2")
Float8E4M3Type = _mkfloat("Float8E4M3Type", "f8E4M3")
Float8E3M4Type = _mkfloat("Float8E3M4Type", "f8E3M4")
Float8E4M3FNType = _mkfloat("Float8E4M3FNType", "f8E4M3FN")
Float8E5M2FNUZType = _mkfloat("Float8E5M2FNUZType", "f8E5M2FNUZ")
Float8E4M3FNUZType = _mkfloat("Float8E4M3FNUZType", "f8E4M3FNUZ")
Float8E4M3B11FNUZType = _mkfloat("Float8E4M3B11FNUZType", "f8E4M3B11FNUZ")
Float8E8M0FNUType = _mkfloat("Float8E8M0FNUType", "f8E8M0FNU")
FLOATS = {
    c.ASM: c
    for c in list(globals().values())
    if isinstance(c, type) and issubclass(c, FloatType) and c.ASM
}


class IndexType(Type):
    @staticmethod
    def get(context=None):
        return IndexType("index", _need_ctx(context))


class NoneType(Type):
    @staticmethod
    def get(context=None):
        return NoneType("none", _need_ctx(context))


class ComplexType(Type):
    @staticmethod
    def get(element_type):
        if not isinstance(element_type, (FloatType, IntegerType)):
            raise MLIRError("invalid element type for complex")
        return ComplexType(
            f"complex<{element_type}>", element_type.context, element_type=element_type
        )


def _shape_list(shape):
    out = []
    for d in shape:
        if d is None:
            out.append(None)
            continue
        d = d.__index__()
        if d == ShapedType.get_dynamic_size():
            out.append(None)
        elif d < 0:
            raise MLIRError("invalid tensor dimension size")
        else:
            out.append(d)
    return out


class ShapedType(Type):
    @staticmethod
    def get_dynamic_size():
        return -9223372036854775808

    @property
    def rank(self):
        return len(self.dims)

    @property
    def shape(self):
        return [ShapedType.get_dynamic_size() if d is None else d for d in self.dims]


class RankedTensorType(ShapedType):
    @staticmethod
    def get(shape, element_type, encoding=None, loc=None):
        if not isinstance(element_type, Type):
            raise TypeError(f"RankedTensorType.get: element type {element_type!r}")
        _need_loc(loc)
        dims = _shape_list(shape)
        s = "x".join(["?" if d is None else str(d) for d in dims] + [str(element_type)])
        enc = f", {encoding}" if encoding is not None else ""
        return RankedTensorType(
            f"tensor<{s}{enc}>",
            element_type.context,
            dims=dims,
            element_type=element_type,
            encoding=encoding,
        )


class UnrankedTensorType(ShapedType):
    @staticmethod
    def get(element_type, loc=None):
        return UnrankedTensorType(
            f"tensor<*x{element_type}>", element_type.context, element_type=element_type
        )


class MemRefType(ShapedType):
    @staticmethod
    def get(shape, element_type, layout=None, memory_space=None, loc=None):
        dims = _shape_list(shape)
        s = "x".join(["?" if d is None else str(d) for d in dims] + [str(element_type)])
        return MemRefType(
            f"memref<{s}>", element_type.context, dims=dims, element_type=element_type
        )


class UnrankedMemRefType(ShapedType):
    @staticmethod
    def get(element_type, memory_space=None, loc=None):
        return UnrankedMemRefType(
            f"memref<*x{element_type}>", element_type.context, element_type=element_type
        )


class TupleType(Type):
    @staticmethod
    def get_tuple(elements, context=None):
        els = list(elements)
        return TupleType(
            "tuple<" + ", ".join(map(str, els)) + ">", _need_ctx(context), elements=els
        )


class FunctionType(Type):
    def __init__(self, asm, context=None, **f):
        if isinstance(asm, FunctionType):  # downcast constructor
            f = dict(ins=asm.ins, outs=asm.outs)
            asm, context = asm._asm, asm._context
        super().__init__(asm, context, **f)

    @staticmethod
    def get(inputs, results, context=None):
        ins, outs = list(inputs), list(results)
        for t in ins + outs:
            if not isinstance(t, Type):
                raise TypeError(f"FunctionType.get: {t!r} is not a Type")
        asm = f"({', '.join(map(str, ins))}) -> ({', '.join(map(str, outs))})"
        return FunctionType(asm, _need_ctx(context), ins=ins, outs=outs)

    inputs = property(lambda s: list(s.ins))
    results = property(lambda s: list(s.outs))


SIMPLE_TORCH = {
    "bool", "int", "float", "none", "str", "Device", "Generator", "number", "any",
    "qint8", "quint8", "qint16", "qint32", "LinearParams",
}


class TorchType(Type):
    """kind: simple name | vtensor | tensor | list | optional | tuple | union | dict"""


VALID_INT_WIDTHS = {4, 8, 16, 32, 64}


def _valid_torch_dtype(t):
    if isinstance(t, ComplexType):
        t = t.element_type
    if isinstance(t, TorchType):
        return t.kind in ("qint8", "quint8", "qint16", "qint32", "str")
    if isinstance(t, FloatType):
        return t._asm in {
            "f16", "bf16", "f32", "f64", "f4E2M1FN", "f8E5M2", "f8E4M3FN",
            "f8E5M2FNUZ", "f8E4M3FNUZ", "f8E4M3B11FNUZ", "f8E8M0FNU",
        }
    if isinstance(t, IntegerType):
        if t.sign == "signless":
            return t.width == 1
        return t.width in VALID_INT_WIDTHS
    return False


class _P:
    def __init__(self, s, ctx):
        self.s, self.i, self.ctx = s, 0, ctx

    def err(self, m="parse error"):
        raise MLIRError(f"Unable to parse type: {self.s!r} at {self.i}: {m}")

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def opt(self, tok):
        self.ws()
        if self.s.startswith(tok, self.i):
            self.i += len(tok)
            return True
        return False

    def req(self, tok):
        if not self.opt(tok):
            self.err(f"expected {tok!r}")

    def re(self, pat):
        self.ws()
        m = re.compile(pat).match(self.s, self.i)
        if m:
            self.i = m.end()
        return m

    def balanced(self):
        """text up to the unmatched '>' (for attributes such as sparse encodings)"""
        self.ws()
        st, depth = self.i, 0
        while self.i < len(self.s):
            c = self.s[self.i]
            if c == "<":
                depth += 1
            elif c == ">" and self.s[self.i - 1] != "-":
                if depth == 0:
                    return self.s[st : self.i]
                depth -= 1
            self.i += 1
        self.err("unbalanced")

    def type(self, in_torch=False):
        self.ws()
        if self.opt("!torch."):
            return self.torch()
        if in_torch:
            return self.torch()
        if self.opt("tensor<"):
            if self.opt("*x"):
                el = self.type()
                self.req(">")
                return UnrankedTensorType(f"tensor<*x{el}>", self.ctx, element_type=el)
            dims = []
            while True:
                m = self.re(r"(\d+|\?)x")
                if not m:
                    break
                dims.append(None if m.group(1) == "?" else int(m.group(1)))
            el = self.type()
            enc = None
            if self.opt(","):
                enc = self.balanced()
            self.req(">")
            with Location.unknown(self.ctx):
                return RankedTensorType.get(dims, el, enc)
        if self.opt("complex<"):
            el = self.type()
            self.req(">")
            return ComplexType.get(el)
        m = self.re(r"[A-Za-z_][\w.]*")
        if not m:
            self.err("expected type")
        w = m.group(0)
        if w in FLOATS:
            return FLOATS[w](w, self.ctx)
        mm = re.fullmatch(r"(si|ui|i)(\d+)", w)
        if mm:
            return IntegerType._mk(
                int(mm.group(2)),
                {"i": "signless", "si": "signed", "ui": "unsigned"}[mm.group(1)],
                self.ctx,
            )
        if w == "index":
            return IndexType("index", self.ctx)
        if w == "none":
            return NoneType("none", self.ctx)
        self.err(f"unknown type {w}")

    def torch(self):
        m = self.re(r"[A-Za-z_][\w.]*")
        if not m:
            self.err("expected torch type")
        w = m.group(0)
        mk = lambda asm, **f: TorchType("!torch." + asm, self.ctx, **f)
        if w in ("vtensor", "tensor"):
            if not self.opt("<"):
                return mk(w, kind=w, dims=None, dtype=None, encoding=None)
            dims = None
            if self.opt("*"):
                pass
            else:
                self.req("[")
                dims = []
                first = True
                while True:
                    if not first and not self.opt(","):
                        break
                    if self.opt("?"):
                        dims.append(None)
                    else:
                        m = self.re(r"-?\d+")
                        if not m:
                            break
                        v = int(m.group(0))
                        if v < -1:
                            self.err(f"invalid size {v} for !torch.tensor type")
                        # kUnknownSize is -1
                        dims.append(None if v == -1 else v)
                    first = False
                self.req("]")
            self.req(",")
            dt = None
            if self.re(r"unk\b"):
                pass
            else:
                dt = self.type()
                if not _valid_torch_dtype(dt):
                    self.err(f"invalid dtype {dt} for !torch.tensor type")
            enc = None
            if self.opt(","):
                enc = self.balanced().strip()
                verify_sparse_encoding(enc, dims)
            self.req(">")
            if dims is None and dt is None:
                return mk(w, kind=w, dims=None, dtype=None, encoding=None)
            sh = (
                "*"
                if dims is None
                else "[" + ",".join("?" if d is None else str(d) for d in dims) + "]"
            )
            e = f",{enc}" if enc else ""
            return mk(
                f"{w}<{sh},{dt if dt is not None else 'unk'}{e}>",
                kind=w, dims=dims, dtype=dt, encoding=enc,
            )
        if w in ("list", "optional"):
            self.req("<")
            el = self.type(in_torch=True)
            self.req(">")
            return mk(f"{w}<{_strip(el)}>", kind=w, elem=el)
        if w in ("tuple", "union"):
            self.req("<")
            els = []
            while not (not els and self.opt(">")):
                els.append(self.type(in_torch=True))
                if not self.opt(","):
                    self.req(">")
                    break
            return mk(f"{w}<{', '.join(_strip(e) for e in els)}>", kind=w, elems=els)
        if w == "dict":
            self.req("<")
            k = self.type(in_torch=True)
            self.req(",")
            v = self.type(in_torch=True)
            self.req(">")
            return mk(f"dict<{_strip(k)}, {_strip(v)}>", kind=w, k=k, v=v)
        if w == "nn.Module":
            name = ""
            if self.opt("<"):
                m = self.re(r'"([^"]*)"')
                name = m.group(1)
                self.req(">")
            return mk(f'nn.Module<"{name}">', kind="nn.Module", cls=name)
        if w in SIMPLE_TORCH:
            return mk(w, kind=w)
        self.err(f"unknown torch type {w}")


def _strip(t):
    s = str(t)
    return s[len("!torch.") :] if s.startswith("!torch.") else s


_type_cache = {}


def _parse_type(asm, ctx):
    key = asm
    t = _type_cache.get(key)
    if t is not None:
        return t
    p = _P(asm, ctx)
    t = p.type()
    p.ws()
    if p.i != len(asm):
        p.err("trailing characters")
    _type_cache[key] = t
    return t


def parse_sparse_encoding(enc):
    """-> (ndims, [(dim_expr, level_type, props)], posWidth, crdWidth); raises MLIRError"""
    m = re.fullmatch(
        r"#sparse_tensor\.encoding<\{\s*map\s*=\s*\(([^()]*)\)\s*->\s*\((.*)\)\s*,"
        r"\s*posWidth\s*=\s*(\d+)\s*,\s*crdWidth\s*=\s*(\d+)\s*\}>",
        enc,
    )
    if not m:
        raise MLIRError(f"invalid sparse encoding {enc}")
    dims = [d.strip() for d in m.group(1).split(",")] if m.group(1).strip() else []
    body, lvls, depth, cur = m.group(2), [], 0, ""
    for c in body:
        if c == "," and depth == 0:
            lvls.append(cur)
            cur = ""
            continue
        depth += c == "("
        depth -= c == ")"
        cur += c
    lvls.append(cur)
    out = []
    for l in lvls:
        mm = re.fullmatch(
            r"\s*(d\d+(?:\s+(?:floordiv|mod)\s+\d+)?)\s*:\s*"
            r"(dense|batch|compressed|loose_compressed|singleton|structured\[\d+,\s*\d+\])"
            r"(?:\(([\w,\s]*)\))?\s*",
            l,
        )
        if not mm:
            raise MLIRError(f"invalid level {l!r} in {enc}")
        props = tuple(p.strip() for p in (mm.group(3) or "").split(",") if p.strip())
        for p in props:
            if p not in ("nonunique", "nonordered", "soa"):
                raise MLIRError(f"unknown level property {p}")
        ex = " ".join(mm.group(1).split())
        if ex.split()[0] not in dims:
            raise MLIRError(f"unbound dim in {l!r}")
        out.append((ex, mm.group(2), props))
    return dims, out, int(m.group(3)), int(m.group(4))


def verify_sparse_encoding(enc, dims):
    d, _, pos, crd = parse_sparse_encoding(enc)
    for w in (pos, crd):
        if w not in (0, 8, 16, 32, 64):
            raise MLIRError(f"unexpected bitwidth {w}")
    if dims is not None and len(d) != len(dims):
        raise MLIRError(f"sparse encoding rank mismatch: {enc} for {dims}")
    if d != [f"d{i}" for i in range(len(d))]:
        raise MLIRError("dims out of order")


# --------------------------------------------------------------------------
# Attributes
# --------------------------------------------------------------------------
class Attribute:
    @staticmethod
    def parse(asm, context=None):
        _need_ctx(context)
        a = Attribute()
        a.asm = asm
        return a

    @property
    def type(self):
        return getattr(self, "_type", None)

    def _key(self):
        return (type(self).__name__, repr(self.__dict__))

    def __eq__(self, o):
        return isinstance(o, Attribute) and self._key() == o._key()

    def __hash__(self):
        return hash(self._key())

    def __str__(self):
        return repr(self)

    def __repr__(self):
        return f"{type(self).__name__}({ {k: v for k, v in self.__dict__.items() if k != '_context'} })"

    @property
    def attr(self):
        return self


class UnitAttr(Attribute):
    @staticmethod
    def get(context=None):
        _need_ctx(context)
        return UnitAttr()


class IntegerAttr(Attribute):
    @staticmethod
    def get(type, value):
        if not isinstance(type, (IntegerType, IndexType)):
            raise MLIRError(f"IntegerAttr type {type}")
        v = value.__index__()
        if isinstance(type, IntegerType):
            w = type.width
            if type.sign == "signed" or (type.sign == "signless" and w > 1):
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if type.sign == "signless":
                    hi = (1 << w) - 1 if w <= 32 else hi
            elif w == 1:
                lo, hi = (-1, 1)
            else:
                lo, hi = 0, (1 << w) - 1
            if not lo <= v <= hi:
                raise TypeError(f"integer {v} out of range for {type}")
            if w == 1:
                v = abs(v)
        a = IntegerAttr()
        a._type, a.value = type, v
        return a

    def __int__(self):
        return self.value


class BoolAttr(IntegerAttr):
    @staticmethod
    def get(value, context=None):
        a = BoolAttr()
        a._type, a.value = IntegerType.get_signless(1, context), bool(value)
        return a


class FloatAttr(Attribute):
    @staticmethod
    def get(type, value, loc=None):
        if not isinstance(type, FloatType):
            raise MLIRError(f"FloatAttr type {type}")
        _need_loc(loc)
        return FloatAttr._mk(type, value)

    @staticmethod
    def get_unchecked(type, value, context=None):
        return FloatAttr._mk(type, value)

    @staticmethod
    def _mk(type, value):
        a = FloatAttr()
        a._type = type
        v = value
        if not isinstance(v, (int, float, np.floating)) :
            raise TypeError(f"FloatAttr value {value!r}")
        v = float(v)
        if str(type) == "f32":
            with np.errstate(all="ignore"):
                v = float(np.float32(v))
        a.value = v
        return a

    @staticmethod
    def get_f32(value, context=None):
        return FloatAttr._mk(F32Type.get(context), value)

    @staticmethod
    def get_f64(value, context=None):
        return FloatAttr._mk(F64Type.get(context), value)

    def __float__(self):
        return self.value


class StringAttr(Attribute):
    def __init__(self, other=None):
        if other is not None:
            if not isinstance(other, StringAttr):
                raise ValueError("Cannot cast attribute to StringAttr")
            self.bytes = other.bytes

    @staticmethod
    def get(value, context=None):
        _need_ctx(context)
        a = StringAttr()
        if isinstance(value, str):
            a.bytes = value.encode("utf-8", "surrogateescape")
        elif isinstance(value, (bytes, bytearray)):
            a.bytes = bytes(value)
        else:
            raise TypeError(f"StringAttr.get: {type(value)}")
        return a

    get_typed = staticmethod(lambda type, value: StringAttr.get(value, type.context))

    @property
    def value(self):
        return self.bytes.decode("utf-8", "surrogateescape")

    @property
    def value_bytes(self):
        return self.bytes

    def __str__(self):
        return '"' + "".join(chr(b) if 32 <= b < 127 and b not in b'\\"' else "\\%02X" % b for b in self.bytes) + '"'


class FlatSymbolRefAttr(Attribute):
    @staticmethod
    def get(value, context=None):
        _need_ctx(context)
        if not isinstance(value, str):
            raise TypeError("FlatSymbolRefAttr")
        a = FlatSymbolRefAttr()
        a.value = value
        return a


class SymbolRefAttr(Attribute):
    @staticmethod
    def get(value, context=None):
        a = SymbolRefAttr()
        a.value = list(value)
        return a


class TypeAttr(Attribute):
    @staticmethod
    def get(value, context=None):
        a = TypeAttr()
        a.value = value
        return a


class ArrayAttr(Attribute):
    @staticmethod
    def get(attributes, context=None):
        _need_ctx(context)
        a = ArrayAttr()
        a.items = list(attributes)
        for x in a.items:
            if not isinstance(x, Attribute):
                raise RuntimeError(f"Invalid attribute (None?) when attempting to create an ArrayAttribute: {x!r}")
        return a

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class DictAttr(Attribute):
    @staticmethod
    def get(value=None, context=None):
        _need_ctx(context)
        a = DictAttr()
        a.d = dict(value or {})
        for k, v in a.d.items():
            if not isinstance(k, str) or not isinstance(v, Attribute):
                raise TypeError("DictAttr")
        return a

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __len__(self):
        return len(self.d)


NP_OF = {
    "f16": np.float16, "f32": np.float32, "f64": np.float64,
    "si8": np.int8, "si16": np.int16, "si32": np.int32, "si64": np.int64,
    "ui8": np.uint8, "ui16": np.uint16, "ui32": np.uint32, "ui64": np.uint64,
    "i8": np.int8, "i16": np.int16, "i32": np.int32, "i64": np.int64,
    "i1": np.bool_, "complex<f32>": np.complex64, "complex<f64>": np.complex128,
    "index": np.int64,
}
if ml_dtypes is not None:
    NP_OF.update({
        "bf16": ml_dtypes.bfloat16, "f8E5M2": ml_dtypes.float8_e5m2,
        "f8E4M3FN": ml_dtypes.float8_e4m3fn, "f8E5M2FNUZ": ml_dtypes.float8_e5m2fnuz,
        "f8E4M3FNUZ": ml_dtypes.float8_e4m3fnuz,
        "f8E4M3B11FNUZ": ml_dtypes.float8_e4m3b11fnuz,
    })
    if hasattr(ml_dtypes, "float8_e8m0fnu"):
        NP_OF["f8E8M0FNU"] = ml_dtypes.float8_e8m0fnu


def _elem_of_numpy(arr, signless, ctx):
    k, n = arr.dtype.kind, arr.dtype.itemsize * 8
    if k == "f":
        return {16: F16Type, 32: F32Type, 64: F64Type}[n].get(ctx)
    if k == "i":
        return IntegerType._mk(n, "signless" if signless else "signed", ctx)
    if k == "u":
        return IntegerType._mk(n, "signless" if signless else "unsigned", ctx)
    if k == "c":
        return ComplexType.get({64: F32Type, 128: F64Type}[n].get(ctx))
    raise ValueError(f"unimplemented array format conversion from format: {arr.dtype}")


class DenseElementsAttr(Attribute):
    """data: numpy array of the declared shape and element type"""

    @staticmethod
    def get(array, signless=True, type=None, shape=None, context=None):
        if isinstance(array, (list, tuple)) and all(isinstance(x, Attribute) for x in array):
            assert type is not None
            a = DenseElementsAttr()
            a._type = type
            a.data = np.array([x.value for x in array], NP_OF[str(type.element_type)]).reshape(type.dims)
            return a
        ctx = _need_ctx(context)
        arr = np.asarray(array)
        if isinstance(type, ShapedType):
            if shape is not None:
                raise ValueError("Shape can only be specified explicitly when the type is not a shaped type.")
            st, elem, dims = type, type.element_type, list(type.dims)
        else:
            elem = type if type is not None else _elem_of_numpy(arr, signless, ctx)
            dims = [int(d) for d in shape] if shape is not None else list(arr.shape)
            with Location.unknown(ctx):
                st = RankedTensorType.get(dims, elem)
        npd = NP_OF.get(str(elem))
        if npd is None:
            raise ValueError(f"no storage for {elem}")
        n = int(np.prod(dims, dtype=np.int64)) if dims else 1
        if arr.size != n and arr.size != 1:
            raise ValueError(f"DenseElementsAttr: {arr.size} elements for shape {dims}")
        if type is not None and str(elem) == "i1":
            if arr.dtype not in (np.bool_, np.uint8, np.int8):
                raise ValueError(f"bool DenseElementsAttr from {arr.dtype}")
            data = arr.astype(np.bool_)
        else:
            # raw reinterpretation of the bytes, as MLIR does
            if arr.dtype.itemsize != np.dtype(npd).itemsize:
                raise ValueError(f"element size mismatch: {arr.dtype} as {elem}")
            data = np.ascontiguousarray(arr).view(npd).reshape(arr.shape)
        a = DenseElementsAttr()
        a._type = st
        a.data = (
            np.full(dims, data.reshape(-1)[0], dtype=data.dtype)
            if arr.size == 1
            else data.reshape(dims).copy()
        )
        a.is_splat = arr.size == 1
        return a

    @staticmethod
    def get_splat(shaped_type, element_attr):
        a = DenseElementsAttr()
        a._type = shaped_type
        a.is_splat = True
        a.data = np.full(
            shaped_type.dims, element_attr.value, NP_OF[str(shaped_type.element_type)]
        )
        return a

    def _key(self):
        return (str(self._type), self.data.tobytes())


class DenseResourceElementsAttr(Attribute):
    @staticmethod
    def get_from_buffer(array, name, type, alignment=None, is_mutable=False, context=None):
        _need_ctx(context or type.context)
        if not isinstance(name, str):
            raise TypeError("resource name")
        if not isinstance(type, ShapedType):
            raise TypeError(f"DenseResourceElementsAttr type {type!r}")
        if isinstance(array, np.ndarray):
            if not array.flags["C_CONTIGUOUS"] and not array.flags["F_CONTIGUOUS"]:
                raise ValueError("Contiguous buffer is required.")
            buf = array.tobytes("A")
        else:
            buf = bytes(memoryview(array))
        a = DenseResourceElementsAttr()
        a._type, a.raw, a.name = type, buf, name
        return a

    @property
    def data(self):
        st = self._type
        npd = np.dtype(NP_OF[str(st.element_type)])
        n = int(np.prod(st.dims, dtype=np.int64)) if st.dims else 1
        if len(self.raw) != n * npd.itemsize:
            raise MLIRError(
                f"resource blob of {len(self.raw)} bytes does not match {st} ({n * npd.itemsize} bytes)"
            )
        return np.frombuffer(self.raw, dtype=npd).reshape(st.dims)

    def _key(self):
        return (str(self._type), self.raw)


# Affine -------------------------------------------------------------------
class AffineExpr:
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    @staticmethod
    def _as(x):
        if isinstance(x, AffineExpr):
            return x
        return AffineConstantExpr.get(x)

    @staticmethod
    def get_constant(v, context=None):
        return AffineConstantExpr.get(v)

    @staticmethod
    def get_symbol(i, context=None):
        return AffineSymbolExpr.get(i)

    @staticmethod
    def get_add(a, b):
        return AffineAddExpr.get(a, b)

    @staticmethod
    def get_mul(a, b):
        return AffineMulExpr.get(a, b)

    @staticmethod
    def get_mod(a, b):
        return AffineModExpr.get(a, b)

    @staticmethod
    def get_floor_div(a, b):
        return AffineFloorDivExpr.get(a, b)

    @staticmethod
    def get_ceil_div(a, b):
        return AffineCeilDivExpr.get(a, b)

    def __add__(self, o):
        return AffineAddExpr.get(self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return AffineMulExpr.get(self, o)

    __rmul__ = __mul__

    def __mod__(self, o):
        return AffineModExpr.get(self, o)

    def __sub__(self, o):
        return AffineAddExpr.get(self, AffineMulExpr.get(AffineExpr._as(o), -1))

    def eval(self, syms):
        k, a = self.kind, self.args
        if k == "const":
            return a[0]
        if k == "sym":
            return syms[a[0]]
        x, y = a[0].eval(syms), a[1].eval(syms)
        if k == "add":
            return x + y
        if k == "mul":
            return x * y
        if k == "mod":
            return x % y
        if k == "floordiv":
            return x // y
        if k == "ceildiv":
            return -((-x) // y)
        raise AssertionError(k)

    def __repr__(self):
        return f"({self.kind} {self.args})"


def _affine(kind):
    class E(AffineExpr):
        @staticmethod
        def get(a, b):
            return AffineExpr(kind, AffineExpr._as(a), AffineExpr._as(b))

    return E


AffineAddExpr = _affine("add")
AffineMulExpr = _affine("mul")
AffineModExpr = _affine("mod")
AffineFloorDivExpr = _affine("floordiv")
AffineCeilDivExpr = _affine("ceildiv")


class AffineConstantExpr(AffineExpr):
    @staticmethod
    def get(v, context=None):
        _need_ctx(context)
        v = int(v.__index__()) if hasattr(v, "__index__") else int(v)
        return AffineExpr("const", v)


class AffineSymbolExpr(AffineExpr):
    @staticmethod
    def get(i, context=None):
        _need_ctx(context)
        return AffineExpr("sym", int(i))


class AffineDimExpr(AffineExpr):
    @staticmethod
    def get(i, context=None):
        return AffineExpr("dim", int(i))


class AffineMap:
    @staticmethod
    def get(dim_count, symbol_count, exprs, context=None):
        _need_ctx(context)
        m = AffineMap()
        m.n_dims, m.n_symbols, m.results = dim_count, symbol_count, list(exprs)
        for e in m.results:
            assert isinstance(e, AffineExpr)
        return m


class AffineMapAttr(Attribute):
    @staticmethod
    def get(affine_map):
        a = AffineMapAttr()
        a.value = affine_map
        return a


# --------------------------------------------------------------------------
# IR structure
# --------------------------------------------------------------------------
class Value:
    def __init__(self, type, owner, index, loc=None):
        self._type, self.owner, self._index, self.location = type, owner, index, loc

    @property
    def type(self):
        return self._type

    def set_type(self, t):
        self._type = t

    @property
    def context(self):
        return self._type.context

    def __repr__(self):
        return f"<{type(self).__name__} {self._index} of {getattr(self.owner, 'name', 'block')}: {self._type}>"


class OpResult(Value):
    result_number = property(lambda s: s._index)


class BlockArgument(Value):
    arg_number = property(lambda s: s._index)


class _List(list):
    """op.regions, region.blocks, block.arguments ... (list with extras)"""

    @property
    def types(self):
        return [v.type for v in self]


class _Blocks:
    def __init__(self, region):
        self.region = region

    def __getitem__(self, i):
        return self.region._blocks[i]

    def __len__(self):
        return len(self.region._blocks)

    def __iter__(self):
        return iter(self.region._blocks)

    def append(self, *args, arg_locs=None):
        return self.region._add_block(list(args), arg_locs, at_start=False)


class Region:
    def __init__(self, op):
        self._op = op
        self._blocks = []

    @property
    def blocks(self):
        return _Blocks(self)

    @property
    def owner(self):
        return self._op

    def __iter__(self):
        return iter(self._blocks)

    def __len__(self):
        return len(self._blocks)

    def __getitem__(self, i):
        return self._blocks[i]

    def _add_block(self, arg_types, arg_locs, at_start):
        if len(arg_types) == 1 and isinstance(arg_types[0], (list, tuple)):
            arg_types = list(arg_types[0])
        if arg_locs is None:
            arg_locs = [_need_loc() if arg_types else None] * len(arg_types)
        arg_locs = list(arg_locs)
        if len(arg_locs) != len(arg_types):
            raise ValueError("Expected locations for each block argument")
        b = Block()
        b._region = self
        b.arguments = _List()
        for i, t in enumerate(arg_types):
            if not isinstance(t, Type):
                raise TypeError(f"block arg type {t!r}")
            b.arguments.append(BlockArgument(t, b, i, arg_locs[i]))
        if at_start:
            self._blocks.insert(0, b)
        else:
            self._blocks.append(b)
        return b


class Block:
    def __init__(self):
        self._ops = []
        self._region = None
        self.arguments = _List()

    @staticmethod
    def create_at_start(parent, arg_types=(), arg_locs=None):
        if isinstance(parent, _Blocks):
            parent = parent.region
        return parent._add_block(list(arg_types), arg_locs, at_start=True)

    def _ctx(self):
        return self._region._op._context

    @property
    def owner(self):
        return self._region._op

    @property
    def region(self):
        return self._region

    @property
    def operations(self):
        return _List(o.opview for o in self._ops)

    def append(self, op):
        InsertionPoint(self).insert(op)

    def add_argument(self, type, loc):
        a = BlockArgument(type, self, len(self.arguments), loc)
        self.arguments.append(a)
        return a

    def __iter__(self):
        return iter([o.opview for o in self._ops])


class _Attrs(dict):
    def __setitem__(self, k, v):
        if not isinstance(v, Attribute):
            raise TypeError(f"attribute {k} = {v!r} is not an Attribute")
        super().__setitem__(k, v)


class Operation:
    def __init__(self, *a, **k):
        raise TypeError("use Operation.create")

    @classmethod
    def _make(cls, name, results, operands, attributes, regions, loc):
        op = object.__new__(cls)
        op.name = name
        op.location = _need_loc(loc)
        op._context = op.location.context
        op._block = None
        op.attributes = _Attrs()
        for k, v in (attributes or {}).items():
            if not isinstance(k, str):
                raise TypeError("attribute name")
            if v is None:
                raise RuntimeError(f"Found an invalid (`None`?) attribute value for the key \"{k}\" when attempting to create the operation \"{name}\"")
            op.attributes[k] = v
        op._operands = []
        for i, v in enumerate(operands or []):
            if not isinstance(v, Value):
                # MLIR accepts single-result ops as operands
                if isinstance(v, (Operation, OpView)) and len(v.operation._results) == 1:
                    v = v.operation._results[0]
                else:
                    raise TypeError(
                        f"Operand {i} of operation \"{name}\" must be a Value ({type(v).__name__} given: {v!r})"
                    )
            op._operands.append(v)
        op._results = _List()
        for i, t in enumerate(results or []):
            if not isinstance(t, Type):
                raise TypeError(f"Result {i} of operation \"{name}\" must be a Type ({t!r})")
            op._results.append(OpResult(t, op, i, op.location))
        op._regions = [Region(op) for _ in range(regions)]
        return op

    @staticmethod
    def create(
        name, results=None, operands=None, attributes=None, successors=None,
        regions=0, loc=None, ip=None, infer_type=False,
    ):
        if not isinstance(name, str):
            raise TypeError("op name")
        op = Operation._make(name, results, operands, attributes, regions, loc)
        _insert(op, ip)
        return op

    @property
    def operation(self):
        return self

    @property
    def context(self):
        return self._context

    @property
    def operands(self):
        return _List(self._operands)

    @property
    def results(self):
        return self._results

    @property
    def result(self):
        if len(self._results) != 1:
            raise ValueError(
                f"Cannot call .result on operation {self.name} which has {len(self._results)} results (it is only valid for operations with a single result)"
            )
        return self._results[0]

    @property
    def regions(self):
        return _List(self._regions)

    @property
    def parent(self):
        return self._block._region._op if self._block is not None else None

    @property
    def block(self):
        return self._block

    @property
    def opview(self):
        if self.name != "func.func":
            return self
        v = FuncOp.__new__(FuncOp)
        v.operation = self
        return v

    def erase(self):
        if self._block is not None:
            self._block._ops.remove(self)
            self._block = None

    def verify(self):
        verify(self)
        return True

    def get_asm(self, **kw):
        return print_op(self)

    def print(self, file=None, **kw):
        (file or sys.stdout).write(print_op(self) + "\n")

    def write_bytecode(self, file, **kw):
        file.write(print_op(self).encode())

    def __str__(self):
        return print_op(self)

    def __repr__(self):
        return f"<Operation {self.name}>"


def _insert(op, ip):
    if ip is False:
        return
    if ip is None:
        ip = _cur("ip")
    if ip is not None:
        ip.insert(op)


class OpView:
    def __init__(self, op):
        self.operation = op

    def __getattr__(self, n):
        if n == "operation":
            raise AttributeError(n)
        return getattr(self.operation, n)

    def __str__(self):
        return str(self.operation)


class Module:
    @staticmethod
    def create(loc=None):
        loc = _need_loc(loc)
        m = object.__new__(Module)
        m._op = Operation._make("builtin.module", [], [], {}, 1, loc)
        m._op._regions[0]._add_block([], None, False)
        return m

    @staticmethod
    def parse(asm, context=None):
        ctx = _need_ctx(context)
        hook = PARSE_HOOK[0]
        if hook is None:
            raise MLIRError("Module.parse not supported by the stand-in")
        return hook(asm, ctx)

    @staticmethod
    def _CAPICreate(capsule):
        return capsule

    @property
    def operation(self):
        return self._op

    @property
    def context(self):
        return self._op._context

    @property
    def body(self):
        return self._op._regions[0]._blocks[0]

    def __str__(self):
        return print_op(self._op)

    def dump(self):
        sys.stderr.write(str(self))


PARSE_HOOK = [None]


class SymbolTable:
    def __init__(self, op):
        self.op = op.operation
        self.table = {}
        self.counter = 0
        for o in self.op._regions[0]._blocks[0]._ops:
            n = _sym(o)
            if n is not None:
                self.table[n] = o

    @staticmethod
    def get_symbol_name(op):
        return op.operation.attributes["sym_name"]

    @staticmethod
    def set_symbol_name(op, name):
        op.operation.attributes["sym_name"] = StringAttr.get(name, op.operation._context)

    def insert(self, op):
        op = op.operation
        name = _sym(op)
        if name is None:
            raise ValueError("Expected operation to have a symbol name.")
        if op._block is None:
            InsertionPoint(self.op._regions[0]._blocks[0]).insert(op)
        cur = self.table.get(name)
        if cur is None or cur is op:
            self.table[name] = op
            return op.attributes["sym_name"]
        while True:
            cand = f"{name}_{self.counter}"
            self.counter += 1
            if cand not in self.table:
                break
        self.table[cand] = op
        op.attributes["sym_name"] = StringAttr.get(cand, op._context)
        return op.attributes["sym_name"]

    def erase(self, op):
        del self[_sym(op.operation)]

    def __getitem__(self, k):
        return self.table[k]

    def __delitem__(self, k):
        self.table.pop(k).erase()

    def __contains__(self, k):
        return k in self.table


def _sym(op):
    a = op.attributes.get("sym_name")
    return a.value if isinstance(a, StringAttr) else None


# func dialect ---------------------------------------------------------------
class FuncOp(OpView):
    def __init__(self, name, type, *, visibility=None, body_builder=None, loc=None, ip=None):
        if isinstance(type, tuple):
            type = FunctionType.get(*type)
        if not isinstance(type, FunctionType):
            raise TypeError("FuncOp type")
        loc = _need_loc(loc)
        attrs = {
            "sym_name": StringAttr.get(str(name), loc.context),
            "function_type": TypeAttr.get(type),
        }
        if visibility is not None:
            if visibility not in ("public", "private", "nested"):
                raise MLIRError(f"bad visibility {visibility}")
            attrs["sym_visibility"] = StringAttr.get(str(visibility), loc.context)
        op = Operation._make("func.func", [], [], attrs, 1, loc)
        super().__init__(op)
        _insert(op, ip)
        if body_builder:
            self.add_entry_block()
            with InsertionPoint(self.entry_block):
                body_builder(self)

    @property
    def body(self):
        return self.operation._regions[0]

    @property
    def type(self):
        return self.operation.attributes["function_type"].value

    @property
    def name(self):
        return self.operation.attributes["sym_name"]

    @property
    def visibility(self):
        return self.operation.attributes.get("sym_visibility")

    @property
    def is_external(self):
        return len(self.body._blocks) == 0

    @property
    def entry_block(self):
        return self.body._blocks[0]

    @property
    def arguments(self):
        return self.entry_block.arguments

    def add_entry_block(self, arg_locs=None):
        if self.body._blocks:
            raise IndexError("The function already has an entry block!")
        if arg_locs is None:
            arg_locs = [self.operation.location] * len(self.type.ins)
        return self.body._add_block(list(self.type.ins), arg_locs, False)


class ReturnOp(OpView):
    def __init__(self, operands_=(), *, loc=None, ip=None):
        super().__init__(Operation.create("func.return", [], list(operands_), loc=loc, ip=ip))


class CallOp(OpView):
    def __init__(self, callee_or_results, args_or_callee, argument_list=None, *, loc=None, ip=None):
        if isinstance(callee_or_results, FuncOp):
            f = callee_or_results
            res, callee, args = f.type.outs, _sym(f.operation), args_or_callee
        else:
            res = list(callee_or_results)
            c = args_or_callee
            callee = c if isinstance(c, str) else c.value
            args = argument_list
        super().__init__(
            Operation.create(
                "func.call", res, list(args),
                {"callee": FlatSymbolRefAttr.get(callee, _need_loc(loc).context)},
                loc=loc, ip=ip,
            )
        )


# --------------------------------------------------------------------------
# registered ops (from the ODS files of the tree under test)
# --------------------------------------------------------------------------
ODS = None
REPO = "/repo"


def load_ods(repo=None):
    """name -> (list of operand constraints or None if variadic, n results or None)"""
    global ODS
    repo = repo or REPO
    ods = {}
    for fn in ("GeneratedTorchOps.td", "TorchOps.td"):
        txt = open(f"{repo}/include/torch-mlir/Dialect/Torch/IR/{fn}").read()
        for m in re.finditer(r"^def\s+Torch_\w+\s*:\s*Torch_Op<\s*\"([\w.]+)\"(.*?)^}", txt, re.S | re.M):
            name, body = m.group(1), m.group(2)
            ai = re.search(r"let arguments = \(ins\s*(.*?)\);", body, re.S)
            ri = re.search(r"let results = \(outs\s*(.*?)\);", body, re.S)
            def items(t):
                t = re.sub(r"/\*.*?\*/|//[^\n]*", "", t)
                out, d, c = [], 0, ""
                for ch in t:
                    if ch == "," and d == 0:
                        out.append(c); c = ""; continue
                    d += ch in "<(["; d -= ch in ">)]"; c += ch
                if c.strip():
                    out.append(c)
                return [x.strip() for x in out]
            ops = res = None
            if ai:
                its = [x.rsplit(":$", 1)[0] for x in items(ai.group(1))]
                its = [x for x in its if not re.match(r".*Attr\b|.*Attr<", x)]
                ops = None if any("Variadic" in x or "Optional<" in x for x in its) else its
            if ri:
                its = [x.rsplit(":$", 1)[0] for x in items(ri.group(1))]
                res = None if any("Variadic" in x or "Optional<" in x for x in its) else its
            ods["torch." + name] = (ops, res)
    ODS = ods
    return ods


def is_registered_op(name):
    if ODS is None:
        load_ods()
    return name in ODS or name in ("func.func", "func.call", "func.return", "builtin.module")


# --------------------------------------------------------------------------
# verifier & printer
# --------------------------------------------------------------------------
def _is_tensor(t):
    return isinstance(t, TorchType) and t.kind in ("vtensor", "tensor")


def _subtype(t, k):
    return isinstance(t, TorchType) and t.kind == k


def _opt_of(t, pred):
    """OptionalOf<X>: none, X, or optional<X>"""
    if _subtype(t, "none"):
        return True
    if _subtype(t, "optional"):
        return pred(t.elem)
    return pred(t)


def _list_of(t, pred):
    return _subtype(t, "list") and pred(t.elem)


_K = lambda k: (lambda t: _subtype(t, k))
_scalar = lambda t: isinstance(t, TorchType) and t.kind in ("int", "float", "number")
_nvt = _K("tensor")
_any = lambda t: isinstance(t, TorchType)
CONSTRAINTS = {
    "AnyTorchTensorType": _is_tensor,
    "AnyTorchOptionalTensorType": lambda t: _opt_of(t, _is_tensor),
    "AnyTorchListOfOptionalTensorType": lambda t: _list_of(t, lambda e: _opt_of(e, _is_tensor)),
    "AnyTorchListOfTensorType": lambda t: _list_of(t, _is_tensor),
    "AnyTorchScalarType": _scalar,
    "AnyTorchOptionalScalarType": lambda t: _opt_of(t, _scalar),
    "Torch_IntType": _K("int"),
    "AnyTorchListOfTorchIntType": lambda t: _list_of(t, _K("int")),
    "AnyTorchOptionalIntType": lambda t: _opt_of(t, _K("int")),
    "AnyTorchOptionalListOfTorchIntType": lambda t: _opt_of(t, lambda e: _list_of(e, _K("int"))),
    "Torch_BoolType": _K("bool"),
    "AnyTorchListOfTorchBoolType": lambda t: _list_of(t, _K("bool")),
    "AnyTorchOptionalBoolType": lambda t: _opt_of(t, _K("bool")),
    "Torch_FloatType": _K("float"),
    "AnyTorchOptionalFloatType": lambda t: _opt_of(t, _K("float")),
    "AnyTorchListOfTorchFloatType": lambda t: _list_of(t, _K("float")),
    "AnyTorchOptionalListOfTorchFloatType": lambda t: _opt_of(t, lambda e: _list_of(e, _K("float"))),
    "AnyTorchListType": _K("list"),
    "AnyTorchType": _any,
    "Torch_DeviceType": _K("Device"),
    "AnyTorchOptionalDeviceType": lambda t: _opt_of(t, _K("Device")),
    "Torch_GeneratorType": _K("Generator"),
    "AnyTorchOptionalGeneratorType": lambda t: _opt_of(t, _K("Generator")),
    "Torch_StringType": _K("str"),
    "AnyTorchOptionalStringType": lambda t: _opt_of(t, _K("str")),
    "AnyTorchListOfTorchStringType": lambda t: _list_of(t, _K("str")),
    "Torch_NonValueTensorType": _nvt,
}


def verify(root):
    """Raises MLIRError on invalid IR. Returns the number of ops checked."""
    count = 0
    symtab = {}

    def collect(op):
        if op.name == "builtin.module":
            for o in op._regions[0]._blocks[0]._ops:
                n = _sym(o)
                if n is not None:
                    if n in symtab:
                        raise MLIRError(f"redefinition of symbol named '{n}'")
                    symtab[n] = o

    def err(op, msg):
        raise MLIRError(f"'{op.name}' op {msg}")

    def visit(op, scope):
        nonlocal count
        count += 1
        for v in op._operands:
            if v not in scope:
                err(op, f"operand does not dominate this use: {v}")
        ods = ODS.get(op.name) if ODS else None
        if ods:
            ops, res = ods
            if ops is not None:
                if len(ops) != len(op._operands):
                    err(op, f"expected {len(ops)} operands, got {len(op._operands)}")
                for i, (c, v) in enumerate(zip(ops, op._operands)):
                    pred = CONSTRAINTS.get(c)
                    if pred is not None and not pred(v.type):
                        err(op, f"operand #{i} must be {c}, but got '{v.type}'")
            if res is not None:
                if len(res) != len(op._results):
                    err(op, f"expected {len(res)} results, got {len(op._results)}")
                for i, (c, v) in enumerate(zip(res, op._results)):
                    pred = CONSTRAINTS.get(c)
                    if pred is not None and not pred(v.type):
                        err(op, f"result #{i} must be {c}, but got '{v.type}'")
        if op.name == "torch.vtensor.literal":
            a = op.attributes.get("value")
            st, rt = a._type, op._results[0].type
            if rt.dims is not None and list(rt.dims) != list(st.dims):
                err(op, f"literal type {st} does not match result type {rt}")
        if op.name == "func.call":
            f = symtab.get(op.attributes["callee"].value)
            if f is None:
                err(op, f"'{op.attributes['callee'].value}' does not reference a valid function")
            ft = f.attributes["function_type"].value
            if [v.type for v in op._operands] != ft.ins:
                err(op, f"operand types {[str(v.type) for v in op._operands]} != {ft}")
            if [v.type for v in op._results] != ft.outs:
                err(op, f"result types {[str(v.type) for v in op._results]} != {ft}")
        if op.name == "func.return":
            f = op.parent
            ft = f.attributes["function_type"].value
            if [v.type for v in op._operands] != ft.outs:
                err(op, f"return types {[str(v.type) for v in op._operands]} != {[str(t) for t in ft.outs]}")
        if op.name == "func.func":
            ft = op.attributes["function_type"].value
            if op._regions[0]._blocks:
                b = op._regions[0]._blocks[0]
                if [a.type for a in b.arguments] != ft.ins:
                    err(op, "entry block arguments do not match function type")
        for r in op._regions:
            for b in r._blocks:
                isolated = op.name in ("func.func", "builtin.module")
                sc = set() if isolated else set(scope)
                sc.update(b.arguments)
                for o in b._ops:
                    visit(o, sc)
                    sc.update(o._results)
                if op.name == "func.func":
                    if not b._ops or b._ops[-1].name != "func.return":
                        err(op, "block with no terminator")
                for o in b._ops[:-1]:
                    if o.name in TERMINATORS:
                        err(o, "must be the last operation in the parent block")

    if ODS is None:
        load_ods()
    collect(root)
    visit(root, set())
    return count


def print_op(op, indent=0, names=None):
    names = {} if names is None else names
    pad = "  " * indent

    def nm(v):
        if v not in names:
            names[v] = f"%{len(names)}"
        return names[v]

    s = pad
    if op._results:
        s += ", ".join(nm(r) for r in op._results) + " = "
    s += f'"{op.name}"(' + ", ".join(nm(v) for v in op._operands) + ")"
    if op.attributes:
        s += " {" + ", ".join(f"{k} = {_pa(v)}" for k, v in op.attributes.items()) + "}"
    s += " : (" + ", ".join(str(v.type) for v in op._operands) + ") -> (" + ", ".join(
        str(v.type) for v in op._results
    ) + ")"
    for r in op._regions:
        for b in r._blocks:
            s += "\n" + pad + "^(" + ", ".join(f"{nm(a)}: {a.type}" for a in b.arguments) + "):"
            for o in b._ops:
                s += "\n" + print_op(o, indent + 1, names)
    return s


def _pa(a):
    if isinstance(a, StringAttr):
        return repr(a.value)
    if isinstance(a, (DenseElementsAttr, DenseResourceElementsAttr)):
        try:
            return f"dense<{a.data.tolist()}> : {a._type}"
        except Exception as e:
            return f"dense<BAD {e}> : {a._type}"
    if isinstance(a, (IntegerAttr, FloatAttr)):
        return f"{a.value} : {a._type}"
    if isinstance(a, TypeAttr):
        return str(a.value)
    if isinstance(a, UnitAttr):
        return "unit"
    if isinstance(a, ArrayAttr):
        return "[" + ", ".join(_pa(x) for x in a.items) + "]"
    if isinstance(a, DictAttr):
        return "{" + ", ".join(f"{k}={_pa(x)}" for k, x in a.d.items()) + "}"
    if isinstance(a, FlatSymbolRefAttr):
        return "@" + a.value
    if isinstance(a, AffineMapAttr):
        return f"map<{a.value.results}>"
    return repr(a)


# --------------------------------------------------------------------------
# installation
# --------------------------------------------------------------------------
class PassManager:
    """run() delegates to RUN_HOOK(pipeline, op); default: no-op success."""

    RUN_HOOK = None
    PARSE_HOOK = None

    def __init__(self, anchor="any", context=None):
        self.pipeline = ""
        self.context = _need_ctx(context)

    @staticmethod
    def parse(pipeline, context=None):
        ctx = _need_ctx(context)
        if PassManager.PARSE_HOOK:
            PassManager.PARSE_HOOK(pipeline)
        pm = PassManager(context=ctx)
        pm.pipeline = pipeline
        return pm

    def enable_ir_printing(self, *a, **k):
        self.ir_printing = True

    def enable_verifier(self, e):
        pass

    def add(self, p):
        self.pipeline += p

    def run(self, op):
        if PassManager.RUN_HOOK:
            PassManager.RUN_HOOK(self.pipeline, op.operation)


def torch_op_builders():
    """The generated builders (`mlir-tblgen -gen-python-op-bindings`) the Python code uses."""
    builders = {}

    def builder(cls, opname, n_attr, kind):
        def __init__(self, *args, results=None, loc=None, ip=None):
            if kind == "list":
                result, elements = args
                res, opnds, attrs = [result], list(elements), {}
            else:
                if len(args) != n_attr:
                    raise TypeError(f"{cls}: {len(args)} arguments")
                res = results if results is not None else [Type.parse(f"!torch.{kind}", _need_loc(loc).context)]
                opnds, attrs = [], {"value": args[0]} if n_attr else {}
            OpView.__init__(self, Operation.create(opname, results=res, operands=opnds, attributes=attrs, loc=loc, ip=ip))

        builders[cls] = type(cls, (OpView,), {"__init__": __init__, "OPERATION_NAME": opname})

    for cls, opname, n_attr, kind in (
        ("ConstantNoneOp", "torch.constant.none", 0, "none"), ("ConstantBoolOp", "torch.constant.bool", 1, "bool"),
        ("ConstantIntOp", "torch.constant.int", 1, "int"), ("ConstantFloatOp", "torch.constant.float", 1, "float"),
        ("ConstantStrOp", "torch.constant.str", 1, "str"), ("ConstantDeviceOp", "torch.constant.device", 1, "Device"),
        ("PrimListConstructOp", "torch.prim.ListConstruct", 0, "list"),
    ):
        builder(cls, opname, n_attr, kind)
    return builders


def install(repo="/repo"):
    """Put the stand-in modules in sys.modules; must run before torch_mlir imports."""
    global REPO
    REPO = repo
    load_ods(repo)
    me = sys.modules[__name__]

    def mod(name, **attrs):
        m = _pytypes.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m
        return m

    ir_names = {
        k: v for k, v in globals().items()
        if not k.startswith("_") and k not in (
            "sys", "re", "np", "threading", "install", "load_ods", "ml_dtypes", "FuncOp",
            "ReturnOp", "CallOp", "PassManager", "print_op", "verify", "ODS", "REPO",
        )
    }
    mod("torch_mlir.ir", **ir_names)
    mod("torch_mlir.passmanager", PassManager=PassManager)
    mod("torch_mlir.dialects.func", FuncOp=FuncOp, ReturnOp=ReturnOp, CallOp=CallOp)
    mod("torch_mlir.dialects._torch_ops_gen", **torch_op_builders())

    def register_dialect(ctx, load=True):
        ctx._dialects.add("torch")

    mod("torch_mlir._mlir_libs._torchMlir", register_dialect=register_dialect)
    mod("torch_mlir._mlir_libs._REFERENCE_LAZY_BACKEND", _initialize=lambda: None)
    from . import fakeruntime, native

    mod("torch_mlir.execution_engine", ExecutionEngine=fakeruntime.ExecutionEngine)
    mod("torch_mlir.runtime", **fakeruntime.EXPORTS)
    native.stub_jit_importer()
    # `import torch_mlir._mlir_libs.X as y` reads the attributes of the packages
    import importlib

    for pkg in ("torch_mlir", "torch_mlir._mlir_libs", "torch_mlir.dialects"):
        importlib.import_module(pkg)
    for name in ("_torchMlir", "_REFERENCE_LAZY_BACKEND", "_jit_ir_importer"):
        setattr(sys.modules["torch_mlir._mlir_libs"], name, sys.modules[f"torch_mlir._mlir_libs.{name}"])
    return me

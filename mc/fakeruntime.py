"""Stand-ins for torch_mlir.runtime and torch_mlir.execution_engine.

The memref helpers follow MLIR's runtime/np_to_memref.py.  The engine calls the
registered result callbacks the way JIT-compiled code does: through their C
address, with every argument in the C type the *declared function* has - not the
one the Python side happens to assume.
"""
import ctypes

import numpy as np


class C128(ctypes.Structure):
    _fields_ = [("real", ctypes.c_double), ("imag", ctypes.c_double)]


class C64(ctypes.Structure):
    _fields_ = [("real", ctypes.c_float), ("imag", ctypes.c_float)]


class F16(ctypes.Structure):
    _fields_ = [("f16", ctypes.c_int16)]


def as_ctype(dtp):
    dtp = np.dtype(dtp)
    if dtp == np.dtype(np.complex128):
        return C128
    if dtp == np.dtype(np.complex64):
        return C64
    if dtp == np.dtype(np.float16):
        return F16
    return np.ctypeslib.as_ctypes_type(dtp)


def to_numpy(a):
    return {np.dtype(C128): lambda: a.view("complex128"), np.dtype(C64): lambda: a.view("complex64"),
            np.dtype(F16): lambda: a.view("float16")}.get(a.dtype, lambda: a)()


def make_nd_memref_descriptor(rank, dtype):
    class MemRefDescriptor(ctypes.Structure):
        _fields_ = [("allocated", ctypes.c_longlong), ("aligned", ctypes.POINTER(dtype)),
                    ("offset", ctypes.c_longlong)] + (
            [("shape", ctypes.c_longlong * rank), ("strides", ctypes.c_longlong * rank)] if rank else [])

    return MemRefDescriptor


class UnrankedMemRefDescriptor(ctypes.Structure):
    _fields_ = [("rank", ctypes.c_longlong), ("descriptor", ctypes.c_void_p)]


def get_ranked_memref_descriptor(a):
    ctp = as_ctype(a.dtype)
    x = make_nd_memref_descriptor(a.ndim, ctp)()
    x.allocated = a.ctypes.data
    x.aligned = a.ctypes.data_as(ctypes.POINTER(ctp))
    x.offset = 0
    if a.ndim:
        x.shape = a.ctypes.shape
        x.strides = (ctypes.c_longlong * a.ndim)(*[s // a.itemsize for s in a.strides])
    return x


def get_unranked_memref_descriptor(a):
    d = UnrankedMemRefDescriptor()
    d.rank = a.ndim
    x = get_ranked_memref_descriptor(a)
    d.descriptor = ctypes.cast(ctypes.pointer(x), ctypes.c_void_p)
    d._keep = x
    return d


def unranked_memref_to_numpy(unranked, np_dtype):
    ctp = as_ctype(np_dtype)
    rank = unranked[0].rank
    val = ctypes.cast(unranked[0].descriptor, ctypes.POINTER(make_nd_memref_descriptor(rank, ctp)))[0]
    addr = ctypes.cast(val.aligned, ctypes.c_void_p).value or 0
    ptr = ctypes.cast(addr + val.offset * ctypes.sizeof(ctp), ctypes.POINTER(ctp))
    if rank == 0:
        return to_numpy(np.ctypeslib.as_array(ptr, shape=(1,))).reshape(())
    shape = tuple(val.shape)
    arr = np.lib.stride_tricks.as_strided(np.ctypeslib.as_array(ptr, shape=shape), shape,
                                          [s * ctypes.sizeof(ctp) for s in val.strides])
    return to_numpy(arr)


EXPORTS = {k: v for k, v in globals().items() if not k.startswith("_") and k not in ("ctypes", "np")}

MEMREF = {"f16": np.float16, "f32": np.float32, "f64": np.float64, "i1": np.bool_, "i8": np.int8, "i16": np.int16,
          "i32": np.int32, "i64": np.int64, "c32": np.complex64, "c64": np.complex128}
SCALAR = {"i1": ctypes.c_bool, "i8": ctypes.c_int8, "i16": ctypes.c_int16, "i32": ctypes.c_int32,
          "i64": ctypes.c_int64, "f32": ctypes.c_float, "f64": ctypes.c_double}


class ExecutionEngine:
    """Runs a module whose functions are Python callables (module.code: name ->
    fn(list of input arrays) -> [(type token, value)])."""

    def __init__(self, module, opt_level=2, shared_libs=None, enable_object_dump=True):
        self.module = module
        self.runtime = {}

    def register_runtime(self, name, ctypes_callback):
        p = ctypes.cast(ctypes_callback, ctypes.c_void_p)
        self.runtime["_mlir_ciface_" + name] = p  # like c_void_p from cast, keeps the callback alive

    def lookup(self, name):
        if name not in self.module.code:
            raise RuntimeError("Unknown function " + name)
        return self.module.code[name]

    def invoke(self, name, *ffi_args):
        fn = self.lookup(name)
        packed = (ctypes.c_void_p * len(ffi_args))()
        for i, a in enumerate(ffi_args):
            packed[i] = ctypes.cast(a, ctypes.c_void_p)
        sig = self.module.signature(name)
        if len(sig) != len(ffi_args):
            raise AssertionError(f"{name} takes {len(sig)} arguments, called with {len(ffi_args)}")
        ins = []
        for i, tok in enumerate(sig):
            u = ctypes.cast(packed[i], ctypes.POINTER(ctypes.POINTER(UnrankedMemRefDescriptor)))[0]
            ins.append(unranked_memref_to_numpy(u, MEMREF[tok]))
        res = fn(ins)
        cb = "_mlir_ciface_refbackend_consume_func_return" + "".join("_" + t for t, _ in res)
        if cb not in self.runtime:
            raise RuntimeError("Symbols not found: [ " + cb + " ]")
        types, vals, keep = [], [], []
        for t, v in res:
            if t.startswith("mr"):
                d = get_unranked_memref_descriptor(v)
                keep.append((d, v))
                types.append(ctypes.POINTER(UnrankedMemRefDescriptor))
                vals.append(ctypes.pointer(d))
            else:
                types.append(SCALAR[t])
                vals.append(v)
        self.module.live.append(keep)  # results stay allocated, as compiled code leaves them
        ctypes.CFUNCTYPE(None, *types)(self.runtime[cb].value)(*vals)

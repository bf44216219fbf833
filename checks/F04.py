"""F04: the types, dtypes, layouts and dynamic dimensions declared by an import are right.

Exhaustive over: input dtype x shape x metadata style; dtype / layout / memory
format / device valued operator arguments; static/dynamic subsets of all input
dimensions; sparse layouts x index type x batch/dense dims x block sizes (the
encoding is *read back*: tensor storage is decoded through it); scalar inputs.
"""
import itertools

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from mc.core import Violation
from mc import fxlib, sparse
from mc.interp import Interp, same, short, DT, TypeSoundness

ID = "F04"
LEVEL = "model_checking"
RULE = ("a case is one import whose declared types are compared with an independent table and "
        "with the run-time values of executing the import; non-trivial unless PyTorch itself "
        "rejects the configuration")
ASM = {}
for k, v in DT.items():
    ASM.setdefault(v, k)
A = torch.ops.aten
D = torch
MUST = [D.uint8, D.int8, D.int16, D.int32, D.int64, D.float16, D.bfloat16, D.float32, D.float64,
        D.bool, D.complex32, D.complex64, D.complex128, D.float8_e5m2, D.float8_e4m3fn,
        D.float8_e5m2fnuz, D.float8_e4m3fnuz, D.float8_e8m0fnu, D.float4_e2m1fn_x2]
SHAPES = [(), (0,), (1,), (3,), (2, 3), (1, 1, 4), (2, 1, 0, 5)]


def main_types(m, f="main"):
    op = Interp(m).funcs[f]
    ft = op.attributes["function_type"].value
    return list(ft.ins), list(ft.outs)


def vt(shape, dt, stem="vtensor"):
    return f"!torch.{stem}<[{','.join('?' if s is None else str(s) for s in shape)}],{ASM[dt]}>"


def case_input(c):
    _, dn, shape, meta = c
    from torch_mlir import fx

    dt = getattr(torch, dn)
    t = torch.empty(shape, dtype=torch.uint8 if dt.itemsize == 1 else dt)
    t = t.view(dt) if t.dtype != dt else t
    p = fxlib.Prog(meta)
    n = p.g.placeholder("extra")
    p._meta(n, p.fm.from_tensor(t))
    if dt in (D.float4_e2m1fn_x2,):
        gm = p.finish((n,))
    else:
        o = p.call(A.view.default, (n, list(shape)))
        gm = p.finish((n, o))
    m = fx.stateless_fx_import(gm)
    m.operation.verify()
    ins, outs = main_types(m)
    want = vt(shape, dt)
    for got in [str(ins[-1])] + [str(o) for o in outs]:
        if got != want:
            raise Violation(f"input-type:{dn}/{shape}", f"declared {got}, is {want}")
    return 1


def dtype_ops():
    f = torch.tensor([[1.0, 0.0], [2.0, 3.0]])
    return {
        "_to_copy": (A._to_copy.default, (f,), {}),
        "zeros": (A.zeros.default, ([2, 3],), {}),
        "ones": (A.ones.default, ([0],), {}),
        "full": (A.full.default, ([2], 1), {}),
        "empty": (A.empty.memory_format, ([2, 1],), {}),
        "scalar_tensor": (A.scalar_tensor.default, (1,), {}),
        "zeros_like": (A.zeros_like.default, (f,), {}),
        "ones_like": (A.ones_like.default, (f,), {}),
        "full_like": (A.full_like.default, (f, 1), {}),
        "new_zeros": (A.new_zeros.default, (f, [3]), {}),
        "sum": (A.sum.default, (f,), {}),
        "sum_dim": (A.sum.dim_IntList, (f, [0]), {}),
        "cumsum": (A.cumsum.default, (f, 0), {}),
        "prod": (A.prod.default, (f,), {}),
        "arange": (A.arange.default, (3,), {}),
        "eye": (A.eye.m, (2, 3), {}),
        "convert": (torch.ops.prims.convert_element_type.default, (f, None), {}),
        "to.dtype": (A.to.dtype, (f, None), {}),
    }


def case_dtype_arg(c):
    _, opn, dn = c
    from torch_mlir import fx

    dt = getattr(torch, dn)
    target, args, kw = dtype_ops()[opn]
    p = fxlib.Prog("val")
    kw = dict(kw)
    if None in args:
        args = tuple(dt if a is None else a for a in args)
    else:
        kw["dtype"] = dt
    try:
        n = p.call(target, args, kw)
        gm = p.finish((n,))
        exp = fxlib.run_ref(gm, p.args)
    except Exception:
        return None  # not a PyTorch program
    m = fx.stateless_fx_import(gm)
    m.operation.verify()
    try:
        got = Interp(m).call("main", p.args)
    except TypeSoundness as e:
        raise Violation(f"dtype-arg:{opn}/{dn}", f"{e}\n{m}")
    _, outs = main_types(m)
    if str(outs[0]) != vt(exp[0].shape, dt):
        raise Violation(f"dtype-arg:{opn}/{dn}", f"declared {outs[0]}, is {vt(exp[0].shape, dt)}")
    if opn != "empty" and not dn.startswith("float4") and not same(got, exp):
        raise Violation(f"dtype-arg:{opn}/{dn}", f"{short(got[0])} != {short(exp[0])}")
    if got[0].dtype != dt:
        raise Violation(f"dtype-arg:{opn}/{dn}", f"result dtype {got[0].dtype}")
    return 1


FMT = ["contiguous_format", "preserve_format", "channels_last", "channels_last_3d"]
LAYOUT = ["strided", "sparse_coo", "sparse_csr", "sparse_csc", "sparse_bsr", "sparse_bsc"]


def case_fmt(c):
    _, kind, val, src = c
    from torch_mlir import fx

    p = fxlib.Prog("val")
    if kind == "memory_format":
        base = {4: torch.arange(120.0).reshape(2, 3, 4, 5), 5: torch.arange(120.0).reshape(1, 2, 3, 4, 5)}[src[0]]
        t = base.permute(*reversed(range(base.dim()))) if src[1] else base
        opn = src[2]
        kw = {"memory_format": None if val is None else getattr(torch, val)}
        args = (t,)
        target = {"clone": A.clone.default, "_to_copy": A._to_copy.default,
                  "empty_like": A.empty_like.default, "empty": A.empty.memory_format}[opn]
        if opn == "empty":
            args = (list(t.shape),)
    else:
        kw = {"layout": getattr(torch, val)}
        target, args = {"zeros": (A.zeros.default, ([4, 4],)), "empty": (A.empty.memory_format, ([4, 4],))}[src[2]]
    import torch.fx as tfx

    # build with a placeholder holding the exact strides
    g = tfx.Graph()
    ins = []
    if args and isinstance(args[0], torch.Tensor):
        n = g.placeholder("x")
        n.meta["val"] = p.fm.from_tensor(args[0])
        ins = [args[0]]
        nargs = (n,)
    else:
        nargs = args
    try:
        o = g.call_function(target, nargs, kw)
        with p.fm:
            o.meta["val"] = target(*[a.meta["val"] if isinstance(a, tfx.Node) else a for a in nargs], **kw)
        g.output((o,))
        gm = tfx.GraphModule(torch.nn.Module(), g)
        exp = tfx.Interpreter(gm).run(*ins)[0]
    except Exception:
        return None
    try:
        m = fx.stateless_fx_import(gm)
    except AttributeError as e:
        if kind == "layout":
            return None  # fake sparse values without index metadata cannot be typed
        raise
    m.operation.verify()
    if kind == "layout":
        # the run-time value is what matters
        it = Interp(m)
        import mc.interp as mi
        got = it.call("main", ins)[0]
        if got.layout != exp.layout or got.shape != exp.shape:
            raise Violation(f"layout:{val}/{src}", f"{got.layout} instead of {exp.layout}")
        return 1
    got = Interp(m).call("main", ins)[0]
    if got.stride() != exp.stride() or got.shape != exp.shape:
        raise Violation(f"memory_format:{val}/{src}",
                        f"strides {got.stride()} instead of {exp.stride()}\n{m}")
    return 1


class DynM(torch.nn.Module):
    def forward(self, x, y):
        return x + 1, y * 2, x.reshape(-1), torch.cat([y, y], 0), x.unsqueeze(0), x.sum(0)


SX, SY = (4, 6, 8), (5, 7)


def case_dyn(c):
    _, dx, dy, mutation = c
    from torch_mlir import fx
    from torch.export import Dim

    AUTO = Dim.AUTO
    dyn = {"x": {d: AUTO for d in dx}, "y": {d: AUTO for d in dy}}
    x, y = torch.randn(SX), torch.randn(SY)
    m = fx.export_and_import(DynM(), x, y, dynamic_shapes=dyn, experimental_support_mutation=mutation)
    m.operation.verify()
    ins, outs = main_types(m)
    key = f"dyn:{dx}/{dy}/{mutation}"
    X = [None if d in dx else SX[d] for d in range(3)]
    Y = [None if d in dy else SY[d] for d in range(2)]
    if [str(t) for t in ins] != [vt(X, D.float32), vt(Y, D.float32)]:
        raise Violation(key, f"inputs declared {ins}, are {vt(X, D.float32)} {vt(Y, D.float32)}")
    want = [X, Y, [None if dx else 4 * 6 * 8], [None if 0 in dy else 10, Y[1]], [1] + X, X[1:]]
    if [str(t) for t in outs] != [vt(w, D.float32) for w in want]:
        raise Violation(key, f"outputs declared {outs}, are {[vt(w, D.float32) for w in want]}")
    for scale in (1, 2):
        xs = torch.randn([s * scale + (scale - 1) if d in dx else s for d, s in enumerate(SX)])
        ys = torch.randn([s * scale + 1 if d in dy else s for d, s in enumerate(SY)])
        try:
            got = Interp(m).call("main", [xs, ys])
        except TypeSoundness as e:
            raise Violation(key, f"sizes {tuple(xs.shape)} {tuple(ys.shape)}: {e}\n{m}")
        if not same(got, list(DynM()(xs, ys)), 1e-5, 1e-6):
            raise Violation(key, f"wrong values at sizes {tuple(xs.shape)} {tuple(ys.shape)}")
    return 1


class Id(torch.nn.Module):
    def forward(self, x):
        return x


def sparse_cases(thorough):
    out = []
    for it in ("int64", "int32"):
        for nd in (2, 3, 4):
            for hyb in range(0, 2):
                for coal in (True, False):
                    if it == "int64":
                        out.append(("sparse", "coo", it, nd, hyb, coal))
        for lay in ("csr", "csc"):
            for batch in (0, 1, 2):
                for hyb in (0, 1):
                    out.append(("sparse", lay, it, batch, hyb, None))
        for lay in ("bsr", "bsc"):
            for batch in (0, 1):
                for bs in itertools.product((1, 2, 3), repeat=2):
                    for hyb in (0, 1):
                        out.append(("sparse", lay, it, batch, hyb, bs))
    return out


def make_sparse(c):
    _, lay, its, k, hyb, x = c
    it = getattr(torch, its)
    if lay == "coo":
        sizes = [3, 4, 2, 3][:k]
        idx = torch.tensor([[0, 2, 1, 0], [1, 3, 0, 1], [1, 0, 1, 1], [2, 2, 0, 2]])[:k]
        if x:
            idx = idx[:, :3]
            idx = idx[:, [0, 2, 1]]
        nnz = idx.shape[1]
        vals = torch.arange(1.0, 1 + nnz * (2 if hyb else 1))
        vals = vals.reshape(nnz, 2) if hyb else vals
        t = torch.sparse_coo_tensor(idx, vals, size=sizes + ([2] if hyb else []))
        return t.coalesce() if x else t
    if lay in ("csr", "csc"):
        R, C = (3, 4)
        n = R if lay == "csr" else C
        m = C if lay == "csr" else R
        bshape = [2, 2][:k]
        nb = 1
        for b in bshape:
            nb *= b
        comp, plain, vals = [], [], []
        v = 1.0
        for b in range(nb):
            cols = [[0, 2], [], [1]] + [[2]] * (n - 3) if b % 2 == 0 else [[1], [0], [0]] + [[1]] * (n - 3)
            if b % 2 == 0:
                pass
            cp = [0]
            pi = []
            for r in range(n):
                pi += cols[r]
                cp.append(len(pi))
            comp.append(cp)
            plain.append(pi)
        nnz = len(plain[0])
        assert all(len(q) == nnz for q in plain), plain
        cnt = nb * nnz * (2 if hyb else 1)
        vals = torch.arange(1.0, 1 + cnt).reshape(bshape + [nnz] + ([2] if hyb else []))
        comp = torch.tensor(comp, dtype=it).reshape(bshape + [n + 1])
        plain = torch.tensor(plain, dtype=it).reshape(bshape + [nnz])
        size = bshape + [R, C] + ([2] if hyb else [])
        fn = torch.sparse_csr_tensor if lay == "csr" else torch.sparse_csc_tensor
        return fn(comp, plain, vals, size=size)
    bm, bn = x
    R, C = 2, 3
    n = R if lay == "bsr" else C
    bshape = [2][:k]
    comp, plain = [], []
    nb = 2 if k else 1
    for b in range(nb):
        cols = ([[0, 1], [1]] + [[]] * (n - 2)) if b % 2 == 0 else ([[1], [0]] + [[1]] * (n - 2))
        if n == 2 and b % 2:
            cols = [[1], [0, 1]]
        cp, pi = [0], []
        for r in range(n):
            pi += cols[r]
            cp.append(len(pi))
        comp.append(cp)
        plain.append(pi)
    nnz = len(plain[0])
    vals = torch.arange(1.0, 1 + nb * nnz * bm * bn * (2 if hyb else 1)).reshape(
        bshape + [nnz, bm, bn] + ([2] if hyb else []))
    comp = torch.tensor(comp, dtype=it).reshape(bshape + [n + 1])
    plain = torch.tensor(plain, dtype=it).reshape(bshape + [nnz])
    fn = torch.sparse_bsr_tensor if lay == "bsr" else torch.sparse_bsc_tensor
    return fn(comp, plain, vals, size=bshape + [R * bm, C * bn] + ([2] if hyb else []))


def dense_of(t):
    """independent densification (torch's to_dense lacks some hybrid/batch combinations)"""
    L = t.layout
    if L is torch.sparse_coo:
        o = torch.zeros(t.shape)
        for q in range(t._nnz()):
            o[tuple(t._indices()[:, q].tolist())] += t._values()[q]
        return o
    rowmaj = L in (torch.sparse_csr, torch.sparse_bsr)
    comp = t.crow_indices() if rowmaj else t.ccol_indices()
    plain = t.col_indices() if rowmaj else t.row_indices()
    vals = t.values()
    nb = comp.dim() - 1
    o = torch.zeros(t.shape)
    blk = L in (torch.sparse_bsr, torch.sparse_bsc)
    for b in itertools.product(*[range(s) for s in comp.shape[:-1]]):
        for i in range(comp.shape[-1] - 1):
            for q in range(int(comp[b][i]), int(comp[b][i + 1])):
                j = int(plain[b][q])
                r, cc = (i, j) if rowmaj else (j, i)
                if blk:
                    bm, bn = vals.shape[nb + 1], vals.shape[nb + 2]
                    o[b][r * bm:(r + 1) * bm, cc * bn:(cc + 1) * bn] += vals[b][q]
                else:
                    o[b][r, cc] += vals[b][q]
    return o


def case_sparse(c):
    from torch_mlir import fx

    t = make_sparse(c)
    try:
        prog = torch.export.export(Id(), (t,))
    except Exception:
        return None  # torch.export does not accept this sparse tensor
    m = fx.export_and_import(prog)
    m.operation.verify()
    ins, outs = main_types(m)
    key = f"sparse:{c[1:]}"
    want = vt(t.shape, t.dtype)[:-1] + ","
    for ty in (ins[0], outs[0]):
        s = str(ty)
        if not s.startswith(want):
            raise Violation(key, f"declared {s}")
        enc = s[len(want):-1]
        try:
            got = sparse.decode(t, enc)
        except Exception as e:
            raise Violation(key, f"encoding {enc} does not describe the tensor: {e}")
        if not same(got, dense_of(t)):
            raise Violation(key, f"encoding {enc} decodes to {got.tolist()} instead of "
                            f"{dense_of(t).tolist()}")
    return 1


class Sc(torch.nn.Module):
    def forward(self, x, n, f=None, b=None, s="a"):
        r = x * n
        if f is not None:
            r = r + f
        if b:
            r = -r
        return r, n


SCAL = {"int": 3, "float": 2.5, "bool": True}


def case_scalar(c):
    _, nk, fk, b, mutation = c
    from torch_mlir import fx

    x = torch.tensor([1.0, 2.0])
    args = (x, SCAL[nk], None if fk is None else SCAL[fk], b)
    exp = list(Sc()(*args))
    m = fx.export_and_import(Sc(), *args, experimental_support_mutation=mutation)
    m.operation.verify()
    ins, outs = main_types(m)
    got = Interp(m).call("main", [x] if len(ins) == 1 else list(args))
    if not same(got, exp):
        raise Violation(f"scalar:{c}", f"{got} != {exp}\n{m}")
    return 1


def cases(thorough):
    names = [str(d)[6:] for d in MUST]
    cs = [("input", n, s, m) for n in names for s in SHAPES for m in ("val", "tensor_meta")
          if not (n.startswith("float4") and m == "tensor_meta")]
    cs += [("dtype", o, n) for o in dtype_ops() for n in names]
    for op in ("clone", "_to_copy", "empty_like", "empty"):
        for r in (4, 5):
            for tr in (False, True):
                cs += [("fmt", "memory_format", f, (r, tr, op)) for f in FMT + [None]]
    cs += [("fmt", "layout", l, (0, 0, o)) for l in LAYOUT for o in ("zeros", "empty")]
    sub3 = [s for r in range(4) for s in itertools.combinations(range(3), r)]
    sub2 = [s for r in range(3) for s in itertools.combinations(range(2), r)]
    cs += [("dyn", a, b, mu) for a in sub3 for b in sub2 for mu in (False, True)]
    cs += sparse_cases(thorough)
    cs += [("scalar", n, f, b, mu) for n in SCAL for f in [None] + list(SCAL)
           for b in (None, True, False) for mu in (False, True)]
    return cs


FN = {"input": case_input, "dtype": case_dtype_arg, "fmt": case_fmt, "dyn": case_dyn,
      "sparse": case_sparse, "scalar": case_scalar}


def run_case(c):
    return FN[c[0]](c)


def run(ck):
    cs = cases(ck.thorough)
    info = ck.run_cases(cs, run_case, nontrivial=lambda c, i: i is not None, chunk=6)
    for k in FN:
        ck.extra[f"{k}_cases"] = sum(1 for c, i in zip(cs, info) if c[0] == k and i)
    ck.sample(cs[len(cs) // 2])
    ck.sample(cs[-1])


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def replay(ck, case):
    try:
        run_case(_tup(case))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

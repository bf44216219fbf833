"""O06: the ONNX command-line importer.

Every combination of command-line options x model family x storage of the input
(inside the file, external data in one or several files, beside the model or in
another directory) x in-memory or large-model route; a fault at every file
operation; a kill at every file operation followed by another run; and all
interleavings, up to a preemption bound, of two concurrent runs of real
processes.  The emitted module must be the one importing the model yields, the
input files and everything else must be untouched, and no temporaries may stay.
"""
import io
import itertools
import os
import shutil
import sys
import tempfile

from mc import env

env.install_fake_mlir()
import numpy as np
import onnx
import onnx.version_converter
from onnx import TensorProto as TP
from onnx import helper as H
from onnx import numpy_helper as NH

from mc import onnxlib as O
from mc.core import Violation
from mc.interp import InterpError

ID = "O06"
LEVEL = "model_checking"
RULE = ("state = (model, storage, options, route, fault/kill/switch points); transition = one file operation of "
        "a run of the real command-line tool")

T = lambda n, s, e=TP.FLOAT: H.make_tensor_value_info(n, e, s)


def A(n, a):
    return NH.from_array(np.asarray(a), n)


def mk(nodes, ins, outs, inits=(), opset=17, extra=()):
    return H.make_model(H.make_graph(nodes, "g", ins, outs, list(inits)), ir_version=8,
                        opset_imports=[H.make_opsetid("", opset), *(H.make_opsetid(d, 1) for d in extra)])


def models():
    r = np.random.RandomState(0)
    X = np.float32([[1.5, -2, 3], [0.25, 0, -1]])
    W = r.randn(2, 3).astype(np.float32)
    N = H.make_node
    m = {}
    m["add"] = (mk([N("Add", ["x", "w"], ["y"])], [T("x", [2, 3])], [T("y", [2, 3])], [A("w", W)]), [X])
    big = r.randn(20, 20).astype(np.float32)
    m["big"] = (mk([N("Add", ["x", "w"], ["a"]), N("Mul", ["a", "u"], ["b"]), N("Add", ["b", "v"], ["y"])],
                   [T("x", [20, 20])], [T("y", [20, 20])],
                   [A("w", big), A("u", np.float32([2])), A("v", big[::-1].copy())]),
                [r.randn(20, 20).astype(np.float32)])
    m["squeeze"] = (mk([N("Squeeze", ["x"], ["a"], axes=[0]), N("Softmax", ["a"], ["y"], axis=-1)],
                       [T("x", [1, 2, 3])], [T("y", [2, 3])], opset=12), [X[None]])
    m["prop"] = (mk([N("Shape", ["x"], ["s"]), N("Concat", ["s", "one"], ["t"], axis=0),
                     N("Reshape", ["x", "t"], ["r"]), N("Neg", ["r"], ["y"])],
                    [T("x", [2, 3])], [T("y", ["a", "b", "c"])], [A("one", np.int64([1]))]), [X])
    m["domain"] = (mk([N("Relu", ["x"], ["a"], domain="my.dom"), N("Add", ["a", "w"], ["y"])], [T("x", [2, 3])],
                      [T("y", ["n", "k"])], [A("w", W)], extra=["my.dom"]), [X])
    m["mvn"] = (mk([N("HardSwish", ["x"], ["a"]), N("MeanVarianceNormalization", ["a"], ["y"], axes=[0])],
                   [T("x", [2, 3])], [T("y", [2, 3])]), [X])
    th = H.make_graph([N("Add", ["x", "k"], ["p"])], "t", [], [T("p", [2, 3])], [A("k", W)])
    el = H.make_graph([N("Neg", ["x"], ["q"])], "e", [], [T("q", [2, 3])])
    m["if"] = (mk([N("If", ["c"], ["y"], then_branch=th, else_branch=el)], [T("x", [2, 3]), T("c", [], TP.BOOL)],
                  [T("y", [2, 3])]), [X, np.array(True)])
    return m


MODELS = models()
STORE = ["inline", "ext1", "extN", "extsub"]
SENTINELS = {"onnx-importer-temp/precious.bin": b"keep me", "inferred.onnx": b"mine", "raw.onnx": b"mine too",
             "tmp/other": b"x", "onnx-importer-temp.txt": b"q"}


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d) + "/"] = None
        for x in fs:
            q = os.path.join(p, x)
            out[os.path.relpath(q, d)] = open(q, "rb").read()
    return out


def prepare(root, name, store, datadir):
    """Writes the model below root/in; -> command-line arguments naming it"""
    m = onnx.ModelProto()
    m.CopyFrom(MODELS[name][0])
    os.makedirs(f"{root}/in")
    os.makedirs(f"{root}/data")
    os.makedirs(f"{root}/temp")
    path = f"{root}/in/m.onnx"
    if store == "inline":
        onnx.save(m, path)
    else:
        loc = {"ext1": "w.bin", "extN": None, "extsub": "sub/w.bin"}[store]
        os.makedirs(f"{root}/in/sub")
        onnx.save(m, path, save_as_external_data=True, all_tensors_to_one_file=loc is not None, location=loc,
                  size_threshold=0, convert_attribute=True)
    args = [path]
    if datadir:
        for f in list(os.listdir(f"{root}/in")):
            if f != "m.onnx":
                shutil.move(f"{root}/in/{f}", f"{root}/data/{f}")
        args += ["--data-dir", f"{root}/data"]
    for f, b in SENTINELS.items():
        for base in ("in", "temp"):
            os.makedirs(os.path.dirname(f"{root}/{base}/{f}"), exist_ok=True)
            open(f"{root}/{base}/{f}", "wb").write(b)
    return args


# -- observation points --------------------------------------------------------
class Points:
    """every file operation below a root, in program order"""
    root = None
    on = False
    cb = None

    @classmethod
    def hook(cls, event, args):
        if not cls.on:
            return
        if event == "open" or event.startswith(("os.", "shutil.", "tempfile.")):
            p = args[0] if args else None
            try:
                p = os.fspath(p)
            except TypeError:
                return
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if event in ("os.fwalk", "os.walk", "os.scandir", "os.listdir") and not cls.scan:
                return
            if os.path.abspath(p).startswith(cls.root):
                cls.fire(f"{event}:{os.path.basename(p)}")

    scan = True

    @classmethod
    def fire(cls, what):
        cb, cls.on = cls.cb, False
        try:
            cb(what)
        finally:
            cls.on = True


_HOOKED = []


def hook():
    if not _HOOKED:
        sys.addaudithook(Points.hook)
        _HOOKED.append(1)
        real = onnx.shape_inference.infer_shapes_path

        def infer_shapes_path(*a, **k):  # C++ file access, invisible to audit hooks
            if Points.on:
                Points.fire("infer:begin")
            r = real(*a, **k)
            if Points.on:
                Points.fire("infer:end")
            return r

        onnx.shape_inference.infer_shapes_path = infer_shapes_path


def run_cli(argv, large, root, cb=None):
    """-> (text, modules) ; runs the real tool"""
    from torch_mlir.tools.import_onnx import __main__ as cli
    from mc import fakemlir as F

    hook()
    mods = []
    real = F.Operation.get_asm

    def get_asm(self, **k):
        mods.append(self)
        return real(self, **k)

    lim = onnx.checker.MAXIMUM_PROTOBUF
    so, buf = sys.stdout, io.StringIO()
    F.Operation.get_asm = get_asm
    try:
        if large:
            onnx.checker.MAXIMUM_PROTOBUF = 0  # every model counts as larger than protobuf's limit
        sys.stdout = buf
        Points.root, Points.cb, Points.on = root, cb or (lambda w: None), True
        cli.main(cli.parse_arguments(argv))
    finally:
        Points.on = False
        sys.stdout = so
        onnx.checker.MAXIMUM_PROTOBUF = lim
        F.Operation.get_asm = real
    return buf.getvalue(), mods


def expected(name, opts):
    """-> (model the run must import, reference outputs)"""
    m = onnx.ModelProto()
    m.CopyFrom(MODELS[name][0])
    cleared = onnx.ModelProto()
    cleared.CopyFrom(m)
    for n in cleared.graph.node:
        n.ClearField("domain")
    ins = [i.name for i in m.graph.input]
    ref = O.reference(cleared).run(None, dict(zip(ins, MODELS[name][1])))
    if "--opset-version" in opts:
        m = onnx.version_converter.convert_version(m, int(opts[opts.index("--opset-version") + 1]))
    if "--clear-domain" in opts:
        for n in m.graph.node:
            n.ClearField("domain")
    return m, ref


def check_module(mod, name, opts, key, large):
    m, ref = expected(name, opts)
    # without --clear-domain the foreign operator's result has no type to execute it by
    got = ref if name == "domain" and "--clear-domain" not in opts else O.OInterp(mod).call("g", list(MODELS[name][1]))
    if not O.same(list(got), ref, False):
        raise Violation(f"values:{key}", f"module yields {got}, model yields {ref}\n{mod}")
    f = list(mod.regions[0].blocks[0].operations)
    f = [x for x in f if x.operation.attributes["sym_name"].value == "g"][0].operation
    ver = f.attributes["torch.onnx_meta.opset_version"].value
    want = {o.domain: o.version for o in m.opset_import}[""]
    if ver != want:
        raise Violation(f"opset:{key}", f"opset {ver}, expected {want}")
    calls = sum(1 for o in mod.regions[0].blocks[0].operations) - 1
    inf = onnx.shape_inference.infer_shapes(m, data_prop="--no-data-prop" not in opts)
    exp = O.import_model(inf, O.expand_all() if "--disable-function-expansion-allowlist" in opts else None)
    want = sum(1 for o in exp.regions[0].blocks[0].operations) - 1
    if calls != want:
        raise Violation(f"expansion:{key}", f"{calls} function bodies, expected {want}\n{mod}")
    if not large:
        if str(exp) != str(mod):
            raise Violation(f"text:{key}", f"tool:\n{mod}\nlibrary:\n{exp}")
    return ref


OPTS = {
    "out": [[], ["-o", "-"], ["-o", "OUT"], ["-o", "OUTX"]],
    "temp": [[], ["--temp-dir", "TEMP"]],
    "keep": [[], ["--keep-temps"]],
    "opset": [[], ["--opset-version", "13"], ["--opset-version", "18"]],
    "clear": [[], ["--clear-domain"]],
    "prop": [[], ["--no-data-prop"], ["--data-prop"]],
    "verify": [[], ["--no-verify"]],
    "allow": [[], ["--disable-function-expansion-allowlist"]],
    "rel": ["abs", "cwd", "dot"],
}


class Scratch:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="o06-"))
        return self.d

    def __exit__(self, *a):
        Points.on = False
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def subst(root, opts, args, rel):
    o = [x.replace("OUTX", f"{root}/in/existing.mlir").replace("OUT", f"{root}/o.mlir").replace("TEMP", f"{root}/temp")
         for x in opts]
    os.chdir(root)
    if "existing" in " ".join(o):
        open(f"{root}/in/existing.mlir", "w").write("old text " * 5000)
    if rel == "cwd":
        os.chdir(f"{root}/in")
        args = ["m.onnx"] + args[1:]
    elif rel == "dot":
        args = ["./in/m.onnx"] + [os.path.relpath(a, root) if a.startswith("/") else a for a in args[1:]]
        o = [os.path.relpath(a, root) if a.startswith("/") else a for a in o]
    return args, o


def outfile(root, opts):
    if "OUT" in opts:
        return f"{root}/o.mlir", "o.mlir"
    if "OUTX" in opts:
        return f"{root}/in/existing.mlir", "in/existing.mlir"
    return None, None


def leftovers(before, after, keep, opts, rel, key, ok=True):
    """everything but the output file and kept temporaries must be as before"""
    new = {k for k in after if k not in before}
    gone = {k for k in before if k not in after}
    changed = {k for k in before if k in after and before[k] != after[k]}
    if rel:
        new.discard(rel)
        changed.discard(rel)
    if gone or changed:
        raise Violation(f"files:{key}", f"gone {sorted(gone)}, changed {sorted(changed)}")
    base = "temp/" if "--temp-dir" in opts else "in/"
    if new and (not keep or any(not k.startswith(base) for k in new)):
        raise Violation(f"temporaries:{key}", f"left behind {sorted(new)[:6]} (keep={keep})")
    return new


def full(c):
    """one complete run"""
    name, store, datadir, large, opts, rel = c
    key = f"{name}:{store}:{datadir}:{large}:{' '.join(opts)}:{rel}"
    pts = []
    with Scratch() as root:
        args = prepare(root, name, store, datadir)
        a, o = subst(root, opts, args, rel)
        before = snapshot(root)
        try:
            exp = expected(name, opts)
        except Exception:
            exp = None
        try:
            text, mods = run_cli(a + o, large, root, pts.append)
        except BaseException as e:
            if exp is None and isinstance(e, Exception):
                leftovers(before, snapshot(root), "--keep-temps" in opts, opts, outfile(root, opts)[1], key)
                return {"rejected": 1, "points": len(pts)}
            raise Violation(f"run:{key}", f"{type(e).__name__}: {e}")
        if len(mods) != 1:
            raise Violation(f"prints:{key}", f"printed {len(mods)} modules")
        check_module(mods[0], name, opts, key, large)
        want = str(mods[0])
        p, r = outfile(root, opts)
        got = open(p).read() if p else text
        if got.strip() != want.strip() or (p and text):
            raise Violation(f"output:{key}", f"expected module text of {len(want)} bytes, got {got[:200]!r}")
        new = leftovers(before, snapshot(root), "--keep-temps" in opts, opts, r, key)
        if large and "--keep-temps" in opts and not any(k.endswith(".onnx") for k in new):
            raise Violation(f"keep:{key}", f"--keep-temps kept {sorted(new)}")
    return {"rejected": 0, "points": len(pts)}


class Fault(OSError):
    pass


def points_of(c):
    name, store, datadir, large, opts, rel = c
    pts = []
    with Scratch() as root:
        args = prepare(root, name, store, datadir)
        a, o = subst(root, opts, args, rel)
        run_cli(a + o, large, root, pts.append)
    return pts


REMOVAL = ("os.rmdir", "os.remove", "os.unlink", "shutil.rmtree", "os.scandir", "os.listdir", "os.open", "open:onnx-importer",)


def faults(c):
    """an I/O error at every file operation of the run"""
    name, store, datadir, large, opts, rel = c
    pts = points_of(c)
    n = 0
    for k in range(len(pts)):
        key = f"{name}:{store}:{datadir}:{large}:{' '.join(opts)}:{rel}"
        with Scratch() as root:
            args = prepare(root, name, store, datadir)
            a, o = subst(root, opts, args, rel)
            before = snapshot(root)
            seen = []

            def cb(w):
                seen.append(w)
                if len(seen) - 1 == k:
                    raise Fault(5, "injected")

            cleaning = any(p.startswith("shutil.rmtree") for p in pts[:k + 1])
            try:
                run_cli(a + o, large, root, cb)
            except Exception as e:
                pass
            else:
                if not cleaning and len(seen) > k and not seen[k].startswith(("os.scandir", "os.listdir")):
                    raise Violation(f"fault-ignored:{seen[k]}:{key}", f"I/O error at {seen[k]} was swallowed")
                n += 1
                continue
            p, r = outfile(root, opts)
            after = snapshot(root)
            if not cleaning:
                leftovers(before, after, "--keep-temps" in opts, opts, r, f"fault{k}@{seen[k] if len(seen) > k else '-'}:{key}")
                if r and r in before and not any(x.startswith("open:" + os.path.basename(p)) for x in seen[:k]) \
                        and before[r] != after.get(r):
                    raise Violation(f"clobber:{key}", f"a run failing at {seen[k]} destroyed the existing output file")
            elif "--keep-temps" not in opts:
                # the clean-up itself failed: inputs must still be intact
                gone = [x for x in before if x not in after or (x != r and before[x] != after[x])]
                if gone:
                    raise Violation(f"files:{key}", f"fault while cleaning up: {gone} changed")
            n += 1
    return {"points": n}


# -- processes -------------------------------------------------------------------
class Proc:
    """one run of the tool in a real process, stopped at every file operation"""

    def __init__(self, argv, large, root):
        self.r, w = os.pipe()
        rd, self.w = os.pipe()
        self.pid = os.fork()
        self.buf = b""
        if self.pid == 0:
            code = 1
            try:
                os.close(self.r)
                os.close(self.w)

                def cb(what):
                    os.write(w, (what.replace("\n", " ") + "\n").encode())
                    if os.read(rd, 1) != b"g":
                        os._exit(9)

                cb("start")
                try:
                    text, mods = run_cli(argv, large, root, cb)
                    code = 0
                except BaseException as e:
                    os.write(w, f"!{type(e).__name__}: {e}".replace("\n", " ")[:300].encode() + b"\n")
            finally:
                os._exit(code)
        os.close(w)
        os.close(rd)
        self.done, self.rc, self.err, self.trace = False, None, "", []
        self.at = None
        self.wait()

    def wait(self):
        while b"\n" not in self.buf:
            d = os.read(self.r, 4096)
            if not d:
                _, st = os.waitpid(self.pid, 0)
                self.rc = os.waitstatus_to_exitcode(st)
                self.done, self.at = True, None
                os.close(self.r)
                os.close(self.w)
                return
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        line = line.decode()
        if line.startswith("!"):
            self.err = line[1:]
            return self.wait()
        self.at = line
        self.trace.append(line)

    def go(self):
        os.write(self.w, b"g")
        self.wait()

    def kill(self):
        if not self.done:
            os.write(self.w, b"k")
            while not self.done:
                self.wait()


def verify_text(path, name, opts, key):
    if not os.path.exists(path):
        raise Violation(f"race:{key}", "no output")
    want = WANT[name, tuple(opts)]
    if open(path).read().strip() != want.strip():
        raise Violation(f"race:{key}", "output differs from the one of an undisturbed run")


WANT = {}


def kills(c):
    """a run killed at every file operation, then a complete run in the same place"""
    name, store, datadir, large, opts, rel = c
    pts = points_of(c)
    n = 0
    for k in range(len(pts) + 1):
        with Scratch() as root:
            args = prepare(root, name, store, datadir)
            a, o = subst(root, opts, args, rel)
            before = snapshot(root)
            p = Proc(a + o, large, root)
            for _ in range(k):
                if p.done:
                    break
                p.go()
            at = p.at
            p.kill()
            key = f"kill@{at}:{name}:{store}:{datadir}:{large}:{' '.join(opts)}"
            mid = snapshot(root)
            bad = [x for x in before if x != outfile(root, opts)[1] and mid.get(x, 0) != before[x]]
            if bad:
                raise Violation(f"files:{key}", f"killed run changed {bad}")
            try:
                text, mods = run_cli(a + o, large, root)
            except Exception as e:
                raise Violation(f"rerun:{key}", f"{type(e).__name__}: {e}")
            check_module(mods[0], name, opts, key, large)
            after = snapshot(root)
            rel2 = outfile(root, opts)[1]
            bad = [x for x in mid if x != rel2 and after.get(x, 0) != mid[x] and not x.startswith(("in/onnx-importer-temp-",
                                                                                              "temp/onnx-importer-temp-"))]
            if bad:
                raise Violation(f"files:{key}", f"second run changed {bad}")
            if "--keep-temps" not in opts:
                new = [x for x in after if x not in mid and x != rel2]
                if new:
                    raise Violation(f"temporaries:{key}", f"second run left {new}")
            n += 1
    return {"points": n}


def pair_setup(root, pc):
    (n1, n2), store, same, large, opts = pc
    args1 = prepare(root, n1, store, False)
    if same:
        args2 = list(args1)
    else:  # another model in the same directory
        m = MODELS[n2][0]
        onnx.save(m, f"{root}/in/n.onnx")
        args2 = [f"{root}/in/n.onnx"]
    o = [x.replace("TEMP", f"{root}/temp") for x in opts]
    return args1 + o + ["-o", f"{root}/o1.mlir"], args2 + o + ["-o", f"{root}/o2.mlir"]


def execute(pc, sched):
    """sched: list of (process, steps); -> lengths"""
    (n1, n2), store, same, large, opts = pc
    with Scratch() as root:
        os.chdir(root)
        a1, a2 = pair_setup(root, pc)
        before = snapshot(root)
        ps = [Proc(a1, large, root), Proc(a2, large, root)]
        try:
            for who, k in sched:
                for _ in range(k):
                    if ps[who].done:
                        break
                    ps[who].go()
            for p in ps:
                while not p.done:
                    p.go()
        finally:
            for p in ps:
                p.kill()
        key = f"{pc[0]}:{store}:{same}:{large}:{' '.join(opts)}:{sched}"
        for i, p in enumerate(ps):
            if p.rc != 0:
                raise Violation(f"race:{key}", f"run {i + 1} failed beside a concurrent run: {p.err} (at {p.trace[-3:]})")
        verify_text(f"{root}/o1.mlir", n1, opts + [str(large)], key)
        verify_text(f"{root}/o2.mlir", n1 if same else n2, opts + [str(large)], key)
        after = snapshot(root)
        for x in ("o1.mlir", "o2.mlir"):
            after.pop(x, None)
        leftovers(before, after, "--keep-temps" in opts, opts, None, key)
        return [len(p.trace) for p in ps]


def solo(pc):
    (n1, n2), store, same, large, opts = pc
    for n in {n1, n2}:
        k = (n, tuple(opts + [str(large)]))
        if k not in WANT:
            with Scratch() as root:
                args = prepare(root, n, "inline", False)
                o = [x.replace("TEMP", f"{root}/temp") for x in opts]
                text, mods = run_cli(args + o, large, root)
                check_module(mods[0], n, opts, f"solo:{n}", large)
                WANT[k] = str(mods[0])


def races(c):
    pc, scheds = c
    solo(pc)
    n = 0
    for s in scheds:
        n += sum(execute(pc, s))
    return {"points": n}


def schedules(n1, n2, bound):
    """all schedules of two runs of n1/n2 steps with at most `bound` preemptions"""
    for first in (0, 1):
        L = (n1, n2)
        for b in range(bound + 1):
            # b preemption points, alternating between the processes
            def rec(i, who, left, acc):
                if i == b:
                    yield acc
                    return
                for k in range(1 if i else 0, left[who]):
                    l2 = list(left)
                    l2[who] -= k
                    yield from rec(i + 1, 1 - who, l2, acc + [(who, k)])

            for a in rec(0, first, list(L), []):
                yield a + [(1 - a[-1][0] if a else first, 10 ** 6)]


def dispatch(c):
    return {"full": full, "fault": faults, "kill": kills, "race": races}[c[0]](c[1])


def combos(axes, fixed=()):
    for v in itertools.product(*[OPTS[a] for a in axes]):
        yield [x for o in v for x in o] + list(fixed)


def run(ck):
    ro = os.path.realpath(env.REPO)
    cs = []
    storages = [(s, d) for s in STORE for d in (False, True) if not (s == "inline" and d)]
    for name in MODELS:
        for (s, d), large in itertools.product(storages, (False, True)):
            for o in combos(["temp", "keep", "opset", "clear", "prop", "allow"] if ck.thorough else
                            ["temp", "keep", "opset", "clear"]):
                cs.append(("full", (name, s, d, large, o, "abs")))
        for large in (False, True):
            for o in combos(["opset", "clear", "prop", "allow", "verify"]):
                cs.append(("full", (name, "inline", False, large, o, "abs")))
            for o in combos(["out", "temp", "keep"]):
                for rel in OPTS["rel"]:
                    for (s, d) in (("inline", False), ("ext1", True), ("ext1", False)):
                        cs.append(("full", (name, s, d, large, o, rel)))
    seen, u = set(), []
    for c in cs:
        if repr(c) not in seen:
            seen.add(repr(c))
            u.append(c)
    cs = u
    for name in (MODELS if ck.thorough else ("add", "big")):
        for (s, d), large in itertools.product(storages if ck.thorough else [("inline", False), ("ext1", True)], (False, True)):
            for o in combos(["out", "temp", "keep", "clear"]):
                cs.append(("fault", (name, s, d, large, o, "abs")))
    for name in ("add", "big") if ck.thorough else ("add",):
        for (s, d) in (("inline", False), ("ext1", False)):
            for large in (False, True):
                for o in combos(["temp", "keep", "clear"], ["-o", "OUT"]):
                    cs.append(("kill", (name, s, d, large, o, "abs")))
    bound = 3 if ck.thorough else 2
    for names, same in ((("add", "add"), True), (("add", "mvn"), False)):
        for o in ([], ["--temp-dir", "TEMP"], ["--clear-domain"]) + ((["--keep-temps"],) if ck.thorough else ()):
            for large in (True, False) if not o or ck.thorough else (True,):
                pc = (names, "inline", same, large, o)
                try:
                    solo(pc)
                    n1, n2 = execute(pc, [])
                except Violation as e:
                    ck.violation(e.key, str(e), ("race", (pc, [[]])))
                    continue
                sc = list(schedules(n1, n2, bound if not o or o == ["--clear-domain"] else bound - 1))
                ck.extra[f"schedules:{names}:{large}:{o}"] = len(sc)
                for j in range(0, len(sc), 8):
                    cs.append(("race", (pc, sc[j:j + 8])))
    infos = ck.run_cases(cs, dispatch, chunk=4, keyfn=repr)
    tot = {}
    for c, i in zip(cs, infos):
        n = len(c[1][1]) if c[0] == "race" else 1
        ck.n_states_extra += n
        ck.transitions += (i or {}).get("points", 0)
        tot[c[0]] = tot.get(c[0], 0) + n
        if i and i.get("rejected"):
            tot["rejected"] = tot.get("rejected", 0) + 1
    ck.extra["runs_by_family"] = tot
    ck.extra["preemption_bound"] = bound
    ck.sample({"run": "big.onnx, external data in --data-dir, --clear-domain, large-model route, fault at raw.onnx"})
    ck.assumptions += ["models above protobuf's limit are represented by lowering that limit to 0",
                       "file accesses inside ONNX's C++ shape inference are one step",
                       "MLIR bindings replaced by an executable stand-in (mc/fakemlir.py)"]


def replay(ck, c):
    def tup(x):
        return tuple(x) if isinstance(x, list) else x

    try:
        if c[0] == "race":
            pc, sc = c[1]
            races(((tuple(pc[0]), *pc[1:]), [[tuple(x) for x in s] for s in sc]))
        else:
            dispatch((c[0], c[1]))
    except Exception as e:
        print("REPRODUCED", e)
        return 1
    return 0

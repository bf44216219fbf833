"""B02: lowering runs what was asked for, and a failure is always explained.

Every public way to request a lowering x output type (in every accepted spelling) x
options is run with a recording pass manager: which stages ran, in which order, with
which options, on which module.  Then a fault is injected at every stage, in every
way it can fail, with the other resources of the report (IR text, temporary
directory) healthy or failing too.
"""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from mc import fakemlir
from mc.core import Violation

ID = "B02"
LEVEL = "model_checking"
RULE = ("state = (entry point, output type, options, stage and kind of fault); transition = one real lowering under a "
        "recording, fault-injecting pass manager")

SCR = None


# ---------------------------------------------------------------- pipelines
def parse(p):
    """'a(b,c{k=v x=y})' -> nested [(name, options dict, children)]"""
    pos = 0

    def items():
        nonlocal pos
        out = []
        while pos < len(p) and p[pos] != ")":
            m = re.compile(r"\s*([\w.\-]+)").match(p, pos)
            if not m:
                raise fakemlir.MLIRError(f"cannot parse pipeline at {p[pos:pos + 20]!r}")
            name, pos = m.group(1), m.end()
            opts = {}
            kids = []
            if pos < len(p) and p[pos] == "(":
                pos += 1
                kids = items()
                if pos >= len(p) or p[pos] != ")":
                    raise fakemlir.MLIRError("unbalanced pipeline")
                pos += 1
            if pos < len(p) and p[pos] == "{":
                e = p.index("}", pos)
                for kv in p[pos + 1:e].split():
                    k, _, v = kv.partition("=")
                    opts[k] = v if _ else None
                pos = e + 1
            out.append((name, opts, kids))
            if pos < len(p) and p[pos] == ",":
                pos += 1
        return out

    r = items()
    if pos != len(p) or len(r) != 1 or r[0][0] != "builtin.module":
        raise fakemlir.MLIRError(f"cannot parse pipeline {p!r}")
    return r


def flat(tree):
    out = []
    for n, o, k in tree:
        out.append((n, o))
        out += flat(k)
    return out


class Recorder:
    """A pass manager which records what runs, marks the module, and fails on demand."""

    def __init__(self, fault=None):
        self.runs = []  # [(flat pipeline, module op, ir printing)]
        self.fault = fault
        self.before = None
        self.text = []

    def __enter__(self):
        PM = fakemlir.PassManager
        self.saved = {k: PM.__dict__[k] for k in ("parse", "run", "enable_ir_printing")}
        rec = self

        def parse_(pipeline, context=None):
            ctx = fakemlir._need_ctx(context)
            k = len(rec.runs)
            pm = PM(context=ctx)
            pm.pipeline = pipeline
            pm.ir_printing = False
            if rec.fault and rec.fault["stage"] == k and rec.fault["when"] == "parse":
                rec.fail()
            parse(pipeline)
            return pm

        def run_(pm, op):
            op = op.operation
            k = len(rec.runs)
            if getattr(fakemlir._cur("ctx"), "emit_error_diagnostics", None) is None:
                raise fakemlir.MLIRError("no context")
            rec.runs.append((flat(parse(pm.pipeline)), op, pm.ir_printing, pm.pipeline))
            with op.context:
                if rec.fault and rec.fault["stage"] == k and rec.fault["when"] == "run":
                    rec.before = rec.asm_before
                    op.attributes["half.done"] = fakemlir.UnitAttr.get()
                    rec.fail()
                op.attributes[f"stage.{k}"] = fakemlir.UnitAttr.get()

        def printing(pm, *a, **k):
            if pm.context._multithreading:
                raise RuntimeError("IR printing can't be setup on a pass-manager without disabling multi-threading first.")
            pm.ir_printing = True

        PM.parse, PM.run, PM.enable_ir_printing = staticmethod(parse_), run_, printing
        return self

    def fail(self):
        sys.stderr.write(self.fault["diag"])
        raise self.fault["exc"]()

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(fakemlir.PassManager, k, v)


# ---------------------------------------------------------------- entry points
class Prog(torch.nn.Module):
    def forward(self, x):
        return x * 2


_EP = None


def exported():
    """The exported program; exporting and decomposing (PyTorch's part) is done once."""
    global _EP
    if _EP is None:
        _EP = torch.export.export(Prog(), (torch.ones(2),), strict=False)
        type(_EP).run_decompositions = lambda self, *a, **k: self
        torch.export.export = lambda *a, **k: _EP
    return _EP


def call(entry, otype, opts):
    from torch_mlir import fx
    from torch_mlir import compiler_utils as CU

    if entry in ("export", "program", "stateless"):
        kw = dict(output_type=otype, **opts)
        if entry == "stateless":
            gm = exported().graph_module
            return fx.stateless_fx_import(gm, **kw)
        return fx.export_and_import(*((Prog(), torch.ones(2)) if entry == "export" else (exported(),)), **kw)
    m = fx.export_and_import(exported(), output_type="raw")
    if entry == "lower":
        bo = CU.BackendLoweringOptions(allow_non_finites=opts["allow_non_finites"]) if "allow_non_finites" in opts else None
        args = (opts.get("verbose", False), CU.OutputType.get(otype), m)
        return CU.lower_mlir_module(*args, bo) if bo is not None else CU.lower_mlir_module(*args)
    B = backend(entry)
    return B.compile(m)


def backend(entry):
    from torch_mlir_e2e_test.linalg_on_tensors_backends.refbackend import RefBackendLinalgOnTensorsBackend as R
    from torch_mlir_e2e_test.stablehlo_backends.linalg_on_tensors import LinalgOnTensorsStablehloBackend as S
    from torch_mlir_e2e_test.tosa_backends.linalg_on_tensors import LinalgOnTensorsTosaBackend as T

    return {"ref": R, "refnv": lambda: R(generate_runtime_verification=False), "tosa": T, "stablehlo": S}[entry]()


SPELL = {"RAW": ["raw", "RAW", "Raw"], "TORCH": ["torch", "TORCH", "Torch"], "TOSA": ["tosa", "TOSA", "tOsA"],
         "LINALG_ON_TENSORS": ["linalg-on-tensors", "LINALG_ON_TENSORS", "linalg_on_tensors", "Linalg-On-Tensors"],
         "STABLEHLO": ["stablehlo", "STABLEHLO"]}
FINAL = {"TOSA": "torch-backend-to-tosa-backend-pipeline",
         "LINALG_ON_TENSORS": "torch-backend-to-linalg-on-tensors-backend-pipeline",
         "STABLEHLO": "torch-backend-to-stablehlo-backend-pipeline"}


def truth(v):
    return {"true": True, "1": True, "false": False, "0": False}[str(v).lower()]


def stages(entry, name, opts):
    """-> list of predicates (description, fn(flat pipeline) -> bool)"""
    out = []
    if entry in ("export", "program", "stateless") and name != "RAW":
        legal = list(opts.get("backend_legal_ops") or [])

        def torch_stage(f):
            d = [o for n, o in f if n == "torchdynamo-export-to-torch-backend-pipeline"]
            if len(d) != 1:
                return False
            got = [x for x in (d[0].get("backend-legal-ops") or "").split(",") if x]
            return set(got) == set(legal) and not d[0].get("extra-library") and not any(n in FINAL.values() for n, _ in f)

        out.append(("to the torch backend contract", torch_stage))
    if entry in ("export", "program", "stateless", "lower") and name in FINAL:
        def final(f):
            d = [o for n, o in f if n == FINAL[name]]
            if len(d) != 1 or any(n in FINAL.values() and n != FINAL[name] for n, _ in f):
                return False
            if name == "TOSA":
                return True
            return truth(d[0].get("allow-non-finites", "true")) == opts.get("allow_non_finites", True)

        out.append((f"to {name}", final))
    if entry in ("tosa", "stablehlo"):
        out.append((f"{entry} to linalg", lambda f: any(n in ("tosa-to-linalg", "stablehlo-legalize-to-linalg") for n, _ in f)))
    if entry in ("ref", "refnv", "tosa", "stablehlo"):
        verif = {"ref": True, "refnv": False, "tosa": True, "stablehlo": False}[entry]

        def ref(f):
            ns = [n for n, _ in f]
            if ("generate-runtime-verification" in ns) != verif:
                return False
            need = ["refback-munge-calling-conventions", "convert-func-to-llvm", "reconcile-unrealized-casts"]
            return all(n in ns for n in need) and [ns.index(n) for n in need] == sorted(ns.index(n) for n in need)

        out.append(("to LLVM", ref))
    return out


def norm(entry, name):
    return entry in ("ref", "refnv", "tosa", "stablehlo")


def lowered(entry, otype, opts, rec):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        mine = sys.stderr
        try:
            r = ("ok", call(entry, otype, opts))
        except BaseException as e:  # noqa: BLE001
            r = ("raise", e)
        if sys.stderr is not mine:
            raise Violation(f"stderr:{entry}", f"{entry} {otype} {opts}: standard error is not restored")
    if fakemlir._cur("ctx") is not None:
        raise Violation(f"context:{entry}", f"{entry} {otype} {opts}: the context stays entered")
    return r, out.getvalue(), err.getvalue()


def case_ok(c):
    entry, name, spec, opts = c
    opts = dict(opts)
    from torch_mlir.compiler_utils import OutputType

    otype = OutputType[spec[5:]] if spec.startswith("enum:") else spec
    what = f"{entry} output_type={otype} {opts}"
    key = f"{entry}/{name}/{sorted(opts)}"
    with Recorder() as rec:
        r, out, err = lowered(entry, otype, opts, rec)
    if r[0] != "ok":
        if entry == "lower" and name == "RAW":
            return 1
        raise Violation(f"fails:{key}", f"{what}: {type(r[1]).__name__}: {r[1]}")
    st = stages(entry, name, opts)
    if entry == "lower" and name == "RAW":
        raise Violation(f"raw:{key}", f"{what}: accepted")
    if len(rec.runs) != len(st):
        raise Violation(f"stages:{key}", f"{what}: stages {[x[3] for x in rec.runs]}, expected {[d for d, _ in st]}")
    m = r[1]
    for (d, pred), (f, op, pr, text) in zip(st, rec.runs):
        if not pred(f):
            raise Violation(f"stage:{key}", f"{what}: stage '{d}' ran {text}")
        if op is not m.operation.operation:
            raise Violation(f"module:{key}", f"{what}: stage '{d}' ran on another module")
    if rec.runs and opts.get("enable_ir_printing") and not rec.runs[0][2]:
        raise Violation(f"printing:{key}", f"{what}: IR printing is not enabled")
    if not opts.get("enable_ir_printing") and any(x[2] for x in rec.runs):
        raise Violation(f"printing:{key}", f"{what}: IR printing is enabled")
    if [k for k in m.operation.attributes if k.startswith("stage.")] != [f"stage.{i}" for i in range(len(st))]:
        raise Violation(f"module:{key}", f"{what}: the returned module is not the lowered one")
    if not opts.get("verbose") and out.strip():
        raise Violation(f"output:{key}", f"{what}: prints {out[:100]!r}")
    if opts.get("verbose") and out.count("func.func") < len(st):
        raise Violation(f"verbose:{key}", f"{what}: prints the IR {out.count('func.func')} times for {len(st)} stages")
    return 1


def case_spec(s):
    from torch_mlir.compiler_utils import OutputType

    spec = s
    ok = spec.upper().replace("-", "_") in SPELL
    try:
        r = OutputType.get(spec)
    except ValueError as e:
        if ok:
            raise Violation(f"spec:{spec}", f"output type {spec!r} is rejected")
        if not all(n.lower() in str(e).lower() for n in SPELL):
            raise Violation(f"specmsg:{spec}", f"output type {spec!r}: the message does not list the choices: {e}")
        return 1
    if not ok or r.name != spec.upper().replace("-", "_"):
        raise Violation(f"spec:{spec}", f"output type {spec!r} is taken as {r}")
    return 1


# ---------------------------------------------------------------- faults
class Odd(Exception):
    def __str__(self):
        return "odd {braces} %s \\u00e9\u20ac\n    indented"


EXC = {"mlir": lambda: fakemlir.MLIRError("pass failed"), "runtime": lambda: RuntimeError("Failure while executing pass"),
       "value": lambda: ValueError(""), "odd": Odd, "os": lambda: OSError(28, "No space left on device"),
       "unicode": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), "interrupt": lambda: KeyboardInterrupt(),
       "exit": lambda: SystemExit(3)}
DIAGS = {"none": "", "one": "error: 'torch.aten.foo' op failed to legalize\n",
         "many": "".join(f"error: {i}: note {{}} %d\n  see current operation: \"x\"() : () -> ()\n" for i in range(50)),
         "utf": "error: \u00e9\u20ac\U0001f600\n"}


def case_fault(c):
    entry, name, stage, when, exc, diag, env_ = c
    from torch_mlir import compiler_utils as CU

    d = tempfile.mkdtemp(dir=SCR)
    fault = {"stage": stage, "when": when, "exc": EXC[exc], "diag": DIAGS[diag]}
    what = f"{entry} output_type={name}, stage {stage} fails at {when} ({exc}, diagnostics {diag}, {env_})"
    key = f"{entry}/{name}/{stage}/{when}/{exc}/{env_}"
    saved = tempfile.tempdir
    tempfile.tempdir = d if env_ != "nodir" else os.path.join(d, "gone")
    if env_ == "collide":
        os.mkdir(os.path.join(d, "main.mlir"))
        os.mkdir(os.path.join(d, "UnnammedModule.mlir"))
    asms = []
    Op = fakemlir.Operation
    real = Op.get_asm

    def get_asm(self, **kw):
        if env_ == "noasm":
            raise RuntimeError("cannot print")
        t = real(self, **kw)
        asms.append(t)
        return t

    Op.get_asm = get_asm
    realtmp = tempfile.gettempdir
    if env_ == "notmp":
        def notmp():
            raise FileNotFoundError(2, "No usable temporary directory found")
        tempfile.gettempdir = notmp
    rec = Recorder(fault)
    rec.asm_before = None
    try:
        with rec:
            r, out, err = lowered(entry, name.lower(), {}, rec)
        files = {f: open(os.path.join(d, f), errors="replace").read() for f in os.listdir(d)
                 if os.path.isfile(os.path.join(d, f))}
    finally:
        tempfile.tempdir = saved
        tempfile.gettempdir = realtmp
        Op.get_asm = real
        shutil.rmtree(d, ignore_errors=True)
    if r[0] == "ok":
        raise Violation(f"swallowed:{key}", f"{what}: reported as success")
    e = r[1]
    if exc in ("interrupt", "exit"):
        if type(e) is not type(EXC[exc]()):
            raise Violation(f"interrupt:{key}", f"{what}: {type(e).__name__}: {e}")
        return 1
    if len(rec.runs) > stage + 1:
        raise Violation(f"goeson:{key}", f"{what}: later stages ran: {[x[3] for x in rec.runs]}")
    if not isinstance(e, CU.TorchMlirCompilerError):
        raise Violation(f"type:{env_}/{exc}", f"{what}: raised {type(e).__name__}: {str(e)[:300]}")
    msg = str(e)

    def lines(s):
        return [l.strip() for l in s.split("\n") if l.strip()]

    want = [l for l in lines(DIAGS[diag])] if env_ != "noasm" else []
    got = lines(msg)
    pos = -1
    for l in want:
        if l not in got[pos + 1:]:
            raise Violation(f"diag:{key}", f"{what}: the error does not contain the diagnostic {l!r}: {msg[:400]}")
        pos = got.index(l, pos + 1)
    text = "cannot print" if env_ == "noasm" else str(EXC[exc]())
    for l in lines(text):
        if not any(l in g for g in got):
            raise Violation(f"exc:{key}", f"{what}: the error does not contain the exception's text {l!r}")
    if env_ == "noasm":
        return 1
    pipes = [x[3] for x in rec.runs]
    failing = rec.runs[stage][3] if when == "run" else None
    if failing and failing not in msg:
        raise Violation(f"pipeline:{key}", f"{what}: the error does not contain the pipeline {failing}")
    if env_ == "ok":
        paths = [w for w in re.findall(r"\S+\.mlir", msg)]
        if not paths or os.path.basename(paths[0]) not in files:
            raise Violation(f"repro:{key}", f"{what}: the reproducer named in the error was not written ({paths}, {list(files)})")
        body = files[os.path.basename(paths[0])]
        marks = set(re.findall(r"stage\.\d+|half\.done", body))
        if "func.func" not in body or marks != {f"stage.{i}" for i in range(stage)}:
            raise Violation(f"reproir:{key}", f"{what}: the reproducer is not the IR before the failing stage (marks {marks})")
    return 1


def case_history(c):
    """failures do not affect later lowerings; the order of requests does not matter"""
    saved = tempfile.tempdir
    d = tempfile.mkdtemp(dir=SCR)
    tempfile.tempdir = d
    try:
        for i, (entry, name, bad) in enumerate(c):
            with Recorder({"stage": 0, "when": "run", "exc": EXC["runtime"], "diag": f"diag of {i}\n"} if bad else None) as rec:
                rec.asm_before = None
                r, out, err = lowered(entry, name.lower(), {}, rec)
            n = len(stages(entry, name, {}))
            if bad and n:
                if r[0] == "ok" or f"diag of {i}" not in str(r[1]) or any(f"diag of {j}" in str(r[1]) for j in range(len(c)) if j != i):
                    raise Violation(f"history:{c}", f"requests {c}: #{i} gave {str(r[1])[:200]}")
            elif r[0] != "ok" or len(rec.runs) != n:
                raise Violation(f"history:{c}", f"requests {c}: #{i} gave {str(r[1])[:200]}, {len(rec.runs)} stages")
    finally:
        tempfile.tempdir = saved
        shutil.rmtree(d, ignore_errors=True)
    return len(c)


def dispatch(c):
    return {"ok": case_ok, "s": case_spec, "f": case_fault, "h": case_history}[c[0]](c[1])


def run(ck):
    global SCR
    SCR = tempfile.mkdtemp(prefix="b02-")
    try:
        _run(ck)
    finally:
        shutil.rmtree(SCR, ignore_errors=True)


def _run(ck):
    exported()
    cases = []
    legal = [None, [], ["aten.linear"], ["aten.flatten.using_ints", "aten.linear", "aten.linear"]]
    for entry in ("program", "stateless", "export", "lower"):
        for name, specs in SPELL.items():
            for spec in specs + ["enum:" + name]:
                cases.append(("ok", (entry, name, spec, ())))
            for l, nf, vb, ip in itertools.product(legal, (None, True, False), (False, True), (False, True)):
                o = {}
                if entry == "lower":
                    if l is not None or ip:
                        continue
                else:
                    if l is not None:
                        o["backend_legal_ops"] = tuple(l)
                    if ip:
                        o["enable_ir_printing"] = True
                if nf is not None:
                    o["allow_non_finites"] = nf
                if vb:
                    o["verbose"] = True
                cases.append(("ok", (entry, name, specs[0], tuple(sorted(o.items())))))
    for entry in ("ref", "refnv", "tosa", "stablehlo"):
        cases.append(("ok", (entry, "-", "raw", ())))
    for s in [x for v in SPELL.values() for x in v] + ["", "linalg", "torch ", "tosa-", "linalg on tensors", "llvm", "raw.", "0",
                                                        "LINALG-ON_TENSORS", "stable-hlo", "_", "mro"]:
        cases.append(("s", s))
    for entry in ("program", "stateless", "lower", "ref", "tosa", "stablehlo"):
        for name in SPELL if entry in ("program", "stateless", "lower") else ["RAW"]:
            if entry == "lower" and name == "RAW":
                continue
            n = len(stages(entry, name, {}))
            for st in range(n):
                for when, exc in itertools.product(("parse", "run"), EXC):
                    for diag in DIAGS if ck.thorough or entry in ("program", "ref") else ("one", "utf"):
                        for e in ("ok", "nodir", "notmp", "collide", "noasm"):
                            if e == "noasm" and (st > 0 or exc != "mlir" or when != "run"):
                                continue
                            cases.append(("f", (entry, name, st, when, exc, diag, e)))
    reqs = [(e, n, b) for e in ("program", "lower") for n in ("TORCH", "TOSA", "LINALG_ON_TENSORS") for b in (False, True)]
    for h in itertools.product(reqs, repeat=2):
        cases.append(("h", h))
    if ck.thorough:
        for h in itertools.product(reqs[::2] + reqs[1::4], repeat=3):
            cases.append(("h", h))
    infos = ck.run_cases(cases, dispatch)
    ck.transitions = sum(i or 0 for i in infos)
    ck.extra["faults"] = sum(1 for c in cases if c[0] == "f")
    ck.sample({"entry": "program", "output_type": "linalg-on-tensors", "stages": ["torchdynamo-export-to-torch-backend-pipeline",
                                                                                    FINAL["LINALG_ON_TENSORS"]]})
    ck.sample({"fault": "stage 1 fails while running, temporary directory missing"})

"""E05: the driver runs what was asked for, and its status says what happened.

The real e2e_testing.main with its real registry and expectation lists, every
configuration x options x filters x outcome vectors; the runner underneath is a
recorder which gives each test a chosen outcome.  report_results and the registry
are also driven directly, over all outcome vectors and registration histories.
"""
import contextlib
import io
import itertools
import re
import sys

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
sys.path.insert(0, f"{env.REPO}/projects/pt1")
from mc.core import Violation

ID = "E05"
LEVEL = "model_checking"
RULE = ("state = (configuration, options, filter, outcome of each test); transition = one run of the real driver with "
        "these, its selection, report and exit status compared with an independent reading of the lists")

M = X = None

# configuration -> (expected failures or expected passes, crashing list, config class, backend class, output type)
REF = "RefBackendLinalgOnTensorsBackend"
TOSA = "LinalgOnTensorsTosaBackend"
SHLO = "LinalgOnTensorsStablehloBackend"
CONFIGS = {
    "native_torch": ((), (), "NativeTorchTestConfig", None, None),
    "torchscript": ((), (), "TorchScriptTestConfig", None, None),
    "linalg": ("LINALG_XFAIL_SET", "LINALG_CRASHING_SET", "JITImporterTestConfig", REF, "linalg-on-tensors"),
    "stablehlo": ("-STABLEHLO_PASS_SET", "STABLEHLO_CRASHING_SET", "JITImporterTestConfig", SHLO, "stablehlo"),
    "tosa": ("-TOSA_PASS_SET", "TOSA_CRASHING_SET", "JITImporterTestConfig", TOSA, "tosa"),
    "lazy_tensor_core": ("LTC_XFAIL_SET", "LTC_CRASHING_SET", "LazyTensorCoreTestConfig", None, None),
    "torchdynamo": ("TORCHDYNAMO_XFAIL_SET", "TORCHDYNAMO_CRASHING_SET", "TorchDynamoTestConfig", REF, None),
    "onnx": ("ONNX_XFAIL_SET", "ONNX_CRASHING_SET", "OnnxBackendTestConfig", REF, "linalg-on-tensors"),
    "onnx_tosa": ("ONNX_TOSA_XFAIL_SET", "ONNX_TOSA_CRASHING_SET", "OnnxBackendTestConfig", TOSA, "tosa"),
    "fx_importer": ("FX_IMPORTER_XFAIL_SET", "FX_IMPORTER_CRASHING_SET", "FxImporterTestConfig", REF,
                    "linalg-on-tensors"),
    "fx_importer_stablehlo": ("FX_IMPORTER_STABLEHLO_XFAIL_SET", "FX_IMPORTER_STABLEHLO_CRASHING_SET",
                              "FxImporterTestConfig", SHLO, "stablehlo"),
    "fx_importer_tosa": ("FX_IMPORTER_TOSA_XFAIL_SET", "FX_IMPORTER_TOSA_CRASHING_SET", "FxImporterTestConfig", TOSA,
                         "tosa"),
}
KINDS = ["pass", "compile", "run", "mismatch"]


def result(name, kind):
    from torch_mlir_e2e_test.framework import TestResult, TraceItem

    if kind == "compile":
        return TestResult(name, "C-error of " + name, None, None, None)
    if kind == "run":
        return TestResult(name, None, "R-error of " + name, None, None)
    g = [TraceItem("forward", [torch.ones(2)], torch.ones(2))]
    t = [TraceItem("forward", [torch.ones(2)], torch.ones(2) * (7 if kind == "mismatch" else 1))]
    return TestResult(name, None, None, t, g)


def lists(config):
    xf, cr, *_ = CONFIGS[config]
    names = [t.unique_name for t in M.GLOBAL_TEST_REGISTRY]
    cs = set(getattr(X, cr)) if cr else set()
    if not xf:
        xs = set()
    elif xf[0] == "-":
        xs = set(names) - set(getattr(X, xf[1:]))
    else:
        xs = set(getattr(X, xf))
    return names, xs, cs


# ---------------------------------------------------------------- the driver
def drive(argv, outcome):
    """-> (status, printed, [(tests, config, sequential, verbose)])"""
    calls = []

    def run_tests(tests, config, sequential=False, verbose=False):
        tests = list(tests)
        calls.append(([t.unique_name for t in tests], config, sequential, verbose))
        return sorted((result(t.unique_name, outcome(t.unique_name)) for t in tests), key=lambda r: r.unique_name)

    import torch_mlir_e2e_test.framework as FW

    saved = FW.run_tests, getattr(M, "run_tests", None)
    FW.run_tests = run_tests
    if saved[1] is not None:
        M.run_tests = run_tests
    av, sys.argv = sys.argv, ["main.py"] + argv
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                M.main()
                status = 0
            except SystemExit as e:
                status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    finally:
        sys.argv = av
        FW.run_tests = saved[0]
        if saved[1] is not None:
            M.run_tests = saved[1]
    return status, out.getvalue(), calls


LINE = re.compile(r'^(PASS|FAIL|XFAIL|XPASS) - "(.*)"$')
TOTAL = {"PASS": "Passed", "FAIL": "Failed", "XFAIL": "Expectedly Failed", "XPASS": "Unexpectedly Passed"}


def check_report(key, what, text, want):
    """want: name -> outcome"""
    got = {}
    for l in text.splitlines():
        m = LINE.match(l)
        if m:
            if m.group(2) in got:
                raise Violation(f"twice:{key}", f"{what}: {m.group(2)} is reported more than once")
            got[m.group(2)] = m.group(1)
    if got != want:
        d = {n: (got.get(n), want.get(n)) for n in set(got) | set(want) if got.get(n) != want.get(n)}
        raise Violation(f"outcome:{key}", f"{what}: (reported, expected) {dict(list(d.items())[:4])}")
    for o, label in TOTAL.items():
        n = sum(1 for x in want.values() if x == o)
        m = re.findall(rf"^\s+{label}: (\d+)$", text, re.M)
        if [int(x) for x in m] != ([n] if n else []):
            if not (n == 0 and [int(x) for x in m] == [0]):
                raise Violation(f"totals:{key}", f"{what}: total '{label}' is {m}, expected {n}")


def classify(kind, xf):
    return ("XPASS" if xf else "PASS") if kind == "pass" else ("XFAIL" if xf else "FAIL")


def case_driver(c):
    config, kinds, flags, default = c
    names, xs, cs = lists(config)
    pick = [n for n in names if n in xs and n not in cs][:2]
    plain = [n for n in names if n not in xs and n not in cs][:4 - len(pick)]
    crash = sorted(n for n in names if n in cs)[:1]
    chosen = (pick + plain)[:len(kinds)] if default != "plain_only" else plain[:len(kinds)]
    outcome = dict(zip(chosen, kinds))
    argv = ["-f", "^(" + "|".join(map(re.escape, chosen + crash)) + ")$"] + list(flags)
    if not (config == "fx_importer" and default == "implicit"):
        argv += ["-c", config]
    skip = []
    if "SKIP" in flags:
        skip = [chosen[-1]]
        argv.remove("SKIP")
        argv += ["--crashing_tests_to_not_attempt_to_run_and_a_bug_is_filed"] + skip
    what = f"main {' '.join(argv)} with {outcome}"
    key = f"{config}/{'+'.join(flags)}/{'+'.join(kinds)}/{default}"
    status, text, calls = drive(argv, lambda n: outcome[n])
    run = [n for n in chosen if n not in skip]
    if not run:
        if status == 0 or calls and calls[0][0]:
            raise Violation(f"empty:{key}", f"{what}: nothing to run, but status {status}")
        return 1
    if len(calls) != 1:
        raise Violation(f"runs:{key}", f"{what}: {len(calls)} runs; {text[-300:]}")
    if sorted(calls[0][0]) != sorted(run):
        raise Violation(f"select:{key}", f"{what}: selected {sorted(calls[0][0])}, expected {sorted(run)}")
    if bool(calls[0][2]) != ("-s" in flags or "--sequential" in flags) or bool(calls[0][3]) != ("-v" in flags or "--verbose" in flags):
        raise Violation(f"options:{key}", f"{what}: sequential={calls[0][2]}, verbose={calls[0][3]}")
    cfg = calls[0][1]
    cls, backend, otype = CONFIGS[config][2:]
    if type(cfg).__name__ != cls:
        raise Violation(f"config:{key}", f"{what}: runs with {type(cfg).__name__}")
    if backend is not None:
        bs = [v for v in vars(cfg).values() if type(v).__name__.endswith("Backend")]
        if [type(b).__name__ for b in bs] != [backend]:
            raise Violation(f"backend:{key}", f"{what}: backends {[type(b).__name__ for b in bs]}")
    if otype is not None:
        import torch_mlir.compiler_utils as CU

        for o in vars(cfg).values():
            if isinstance(o, (str, CU.OutputType)):
                try:
                    got = CU.OutputType.get(o)
                except Exception:
                    continue
                if got != CU.OutputType.get(otype):
                    raise Violation(f"otype:{key}", f"{what}: output type {o}, expected {otype}")
    want = {n: classify(outcome[n], n in xs) for n in run}
    check_report(key, what, text, want)
    bad = any(o in ("FAIL", "XPASS") for o in want.values())
    expect = 0 if not bad or "--ignore_failures" in flags else 1
    if (status != 0) != (expect != 0):
        raise Violation(f"status:{key}", f"{what}: exit status {status}, expected {'0' if not expect else 'nonzero'}")
    if "-v" in flags:
        for n in run:
            if want[n] == "FAIL" and outcome[n] in ("compile", "run"):
                if f"{'C' if outcome[n] == 'compile' else 'R'}-error of {n}" not in text:
                    raise Violation(f"explain:{key}", f"{what}: no explanation for {n}")
    return 1


def case_full(c):
    """the whole registry in one configuration"""
    config, flip = c
    names, xs, cs = lists(config)

    def outcome(n):
        ok = n not in xs
        if flip and n == flip:
            ok = not ok
        return "pass" if ok else "compile"

    status, text, calls = drive(["-c", config], outcome)
    key = f"{config}/all{'/' + flip if flip else ''}"
    run = [n for n in names if n not in cs]
    if len(calls) != 1 or sorted(calls[0][0]) != sorted(run):
        d = set(calls[0][0]) ^ set(run) if calls else "no run"
        raise Violation(f"select:{key}", f"all tests of {config}: differ in {str(d)[:200]}")
    want = {n: classify(outcome(n), n in xs) for n in run}
    check_report(key, key, text, want)
    if (status != 0) != bool(flip):
        raise Violation(f"status:{key}", f"all tests of {config} as expected except {flip}: exit status {status}")
    return 1


FILTERS = [".*", "Elementwise", "^Elementwise.*_basic$", "Matmul", ".*Matmul", "A|B", "Mm", "(?i)mm", "[A-C]", "Nothing_at_all",
           ".*_basic", "Aten", "mm"]


def case_filter(c):
    config, f, skips = c
    names, xs, cs = lists(config)
    argv = ["-c", config, "-f", f]
    if skips:
        argv += ["--crashing_tests_to_not_attempt_to_run_and_a_bug_is_filed"] + list(skips)
    invalid = [s for s in skips if s not in names]
    status, text, calls = drive(argv, lambda n: "pass" if n not in xs else "run")
    run = [n for n in names if re.match(f, n) and n not in cs and n not in skips]
    key = f"{config}/{f}/{len(skips)}"
    what = f"main {' '.join(argv)}"
    if invalid or not run:
        if status == 0 or calls:
            raise Violation(f"invalid:{key}", f"{what}: status {status}, {len(calls)} runs")
        if invalid and invalid[0] not in text:
            raise Violation(f"message:{key}", f"{what}: the message does not name {invalid[0]}")
        return 1
    if len(calls) != 1 or sorted(calls[0][0]) != sorted(run):
        raise Violation(f"select:{key}", f"{what}: selection differs in "
                        f"{str(sorted(set(calls[0][0]) ^ set(run)) if calls else text[-200:])[:300]}")
    if status != 0:
        raise Violation(f"status:{key}", f"{what}: status {status} although everything is as expected")
    return 1


def case_badargs(c):
    argv = list(c)
    status, text, calls = drive(argv, lambda n: "pass")
    if status == 0 or calls:
        raise Violation(f"badargs:{c}", f"main {argv}: status {status}, {len(calls)} runs")
    return 1


# ---------------------------------------------------------------- report_results
def case_report(c):
    kinds, xmask, verbose = c
    from torch_mlir_e2e_test.reporting import report_results

    names = [f"N{i}" for i in range(len(kinds))]
    xs = {n for i, n in enumerate(names) if xmask >> i & 1}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = report_results([result(n, k) for n, k in zip(names, kinds)], xs | {"unrelated"}, verbose, "cfg")
    want = {n: classify(k, n in xs) for n, k in zip(names, kinds)}
    key = f"report:{'+'.join(kinds)}/{xmask}"
    check_report(key, f"report of {want}", out.getvalue(), want)
    bad = any(o in ("FAIL", "XPASS") for o in want.values())
    if bool(r) != bad:
        raise Violation(f"status:{key}", f"report of {want}: returned {r}")
    for n, k in zip(names, kinds):
        if verbose and want[n] == "FAIL" and k in ("compile", "run") and f"-error of {n}" not in out.getvalue():
            raise Violation(f"explain:{key}", f"report of {want}: no explanation for {n}")
    return 1


# ---------------------------------------------------------------- the registry
def case_registry(seq):
    """every sequence of registrations over three names and two modules"""
    from torch_mlir_e2e_test import registry as R

    saved = list(R.GLOBAL_TEST_REGISTRY)
    seen = {k: (v, set(v)) for k, v in vars(R).items() if isinstance(v, set)}
    try:
        base = len(R.GLOBAL_TEST_REGISTRY)
        model = []
        for step, (name, fac, to) in enumerate(seq):
            def f(module, tu):
                pass

            f.__name__ = name
            factory = FACTORIES[fac]
            kw = {} if to is None else {"timeout_seconds": to}
            dup = any(m[0] == name for m in model)
            try:
                g = R.register_test_case(module_factory=factory, **kw)(f)
                if dup:
                    raise Violation(f"dup:{seq}", f"registrations {seq}: the second test named {name} was accepted")
                if g is not f:
                    raise Violation(f"deco:{seq}", f"registrations {seq}: the decorator does not return the function")
                model.append((name, factory, f, 120 if to is None else to))
            except Violation:
                raise
            except Exception as e:
                if not dup or name not in str(e):
                    raise Violation(f"reg:{seq}", f"registrations {seq}, step {step}: {type(e).__name__}: {e}")
            got = [(t.unique_name, t.program_factory, t.program_invoker, t.timeout_seconds)
                   for t in R.GLOBAL_TEST_REGISTRY[base:]]
            if got != model:
                raise Violation(f"registry:{seq}", f"registrations {seq}: registry {got}, expected {model}")
        if R.GLOBAL_TEST_REGISTRY[:base] != saved:
            raise Violation(f"registry:{seq}", "earlier registrations changed")
    finally:
        R.GLOBAL_TEST_REGISTRY[:] = saved
        for k, (v, c) in seen.items():
            v.clear()
            v.update(c)
    return 1


FACTORIES = [lambda: torch.nn.Identity(), lambda: torch.nn.ReLU()]


def case_static(config):
    """the registry itself"""
    names, xs, cs = lists(config)
    if len(set(names)) != len(names):
        raise Violation(f"unique:{config}", "two registered tests have one name")
    return 1


def dispatch(c):
    return {"d": case_driver, "a": case_full, "f": case_filter, "b": case_badargs, "r": case_report,
            "g": case_registry, "s": case_static}[c[0]](c[1])


FLAGS = [(), ("-v",), ("-s",), ("--ignore_failures",), ("-v", "-s"), ("-v", "--ignore_failures"),
         ("-s", "--ignore_failures"), ("-v", "-s", "--ignore_failures"), ("SKIP",), ("SKIP", "--ignore_failures")]


def run(ck):
    global M, X
    with contextlib.redirect_stdout(io.StringIO()):
        import e2e_testing.main as M
        import e2e_testing.xfail_sets as X

    cases = []
    for config in CONFIGS:
        cases.append(("s", config))
        for n in range(1, 5):
            for kinds in itertools.product(KINDS, repeat=n):
                if n == 4 and not ck.thorough and kinds.count("pass") not in (0, 2, 3, 4):
                    continue
                cases.append(("d", (config, kinds, (), "")))
        for flags in FLAGS:
            for kinds in itertools.product(("pass", "run") if not ck.thorough else KINDS[:3], repeat=3):
                cases.append(("d", (config, kinds, flags, "")))
                cases.append(("d", (config, kinds[:2], flags, "plain_only")))
        names, xs, cs = lists(config)
        cases.append(("a", (config, None)))
        flips = [n for n in names if n not in cs]
        for n in flips[::len(flips) // (60 if ck.thorough else 8)]:
            cases.append(("a", (config, n)))
        for f in FILTERS:
            for skips in ((), ("ElementwiseAddModule_basic",), ("NoSuchTest",), ("ElementwiseAddModule_basic", "NoSuchTest"),
                          ("MatmulModule_basic" if "MatmulModule_basic" in names else names[5], names[0])):
                cases.append(("f", (config, f, skips)))
    for kinds in itertools.product(("pass", "compile"), repeat=2):
        cases.append(("d", ("fx_importer", kinds, (), "implicit")))
    for a in (["-c", "nope"], ["--nope"], ["-c"], ["extra"]):
        cases.append(("b", tuple(a)))
    for n in range(0, 6 if ck.thorough else 5):
        for kinds in itertools.product(KINDS if n < 4 or ck.thorough else KINDS[:1] + KINDS[2:], repeat=n):
            for xmask in range(2 ** n):
                for verbose in (False, True) if n < 4 else (True,):
                    cases.append(("r", (kinds, xmask, verbose)))
    regs = [(n, f, t) for n in ("zz_a", "zz_b", "zz_c") for f in (0, 1) for t in (None, 7)]
    for n in range(1, 4 if ck.thorough else 3):
        for seq in itertools.product(regs, repeat=n):
            cases.append(("g", seq))
    for seq in itertools.product([("zz_a", 0, None), ("zz_b", 1, 3)], repeat=4):
        cases.append(("g", seq))
    ck.run_cases(cases, dispatch)
    ck.extra["driver_runs"] = sum(1 for c in cases if c[0] in "dafb")
    ck.extra["reports"] = sum(1 for c in cases if c[0] == "r")
    ck.extra["registrations"] = sum(1 for c in cases if c[0] == "g")
    ck.sample({"config": "tosa", "outcomes": ["pass", "mismatch"], "flags": ["-v", "--ignore_failures"]})
    ck.sample({"filter": "^Elementwise.*_basic$", "config": "onnx"})

"""E03: every test ends in exactly one, correctly classified result.

Faults: every stage of a test (building the program, driving it, recording,
compiling, building it again, running, recording the result) x every kind of
failure.  Timeouts: for each such scenario, the alarm goes off at *every*
bytecode boundary of the framework's code and every line of the test's code at
which it is armed; each is one execution of the real function.  A later test in
the same process must be unaffected.
"""
import contextlib
import io
import os
import signal
import sys
import time

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from mc.core import Violation

ID = "E03"
LEVEL = "model_checking"
RULE = ("state = (scenario, point at which the alarm goes off or a fault is raised); transition = one execution of "
        "the real compile_and_run_test with that alarm or fault")

FW = None
HERE = os.path.abspath(__file__)


class Weird(Exception):
    def __str__(self):
        raise ValueError("no message")


class BadTimeout(TimeoutError):
    pass


FAULTS = {
    "RuntimeError": lambda: RuntimeError("boom"), "AssertionError": lambda: AssertionError("boom"),
    "KeyError": lambda: KeyError("boom"), "StopIteration": lambda: StopIteration("boom"),
    "NotImplementedError": lambda: NotImplementedError("boom"), "Weird": lambda: Weird(),
    "chained": None, "TimeoutError": lambda: TimeoutError("socket"), "BadTimeout": lambda: BadTimeout("x"),
    "RecursionError": lambda: RecursionError("boom"), "MemoryError": lambda: MemoryError("boom"),
}
STAGES = ["factory1", "invoker_before", "program", "invoker_after", "compile", "factory2", "run", "golden_value",
          "run_value", "run_not_a_trace"]


def throw(kind):
    if kind == "chained":
        try:
            raise ValueError("inner")
        except ValueError as e:
            raise RuntimeError("boom") from e
    raise FAULTS[kind]()


class Scenario:
    """a test and a configuration which fail at one stage (or nowhere)"""

    def __init__(self, stage=None, fault="RuntimeError", mismatch=False, calls=1):
        self.stage, self.fault, self.mismatch, self.calls = stage, fault, mismatch, calls
        self.phase = "compile"
        self.factories = 0
        self.running = self.ran = False

    def at(self, stage):
        if stage == self.stage:
            throw(self.fault)

    def test(self, seconds=100):
        from torch_mlir_e2e_test.framework import Test

        sc = self

        class M(torch.nn.Module):
            def forward(self, x):
                sc.at("program")
                if sc.stage == "golden_value":
                    return None
                return x + 1

        def factory():
            sc.factories += 1
            sc.at(f"factory{sc.factories}")
            return M()

        def invoke(module, tu):
            sc.at("invoker_before")
            for _ in range(sc.calls):
                module.forward(tu.rand(2))
            sc.at("invoker_after")

        return Test("the_test", factory, invoke, seconds)

    def config(self):
        from torch_mlir_e2e_test.framework import TestConfig, TraceItem

        sc = self

        class C(TestConfig):
            def compile(self, program, verbose=False):
                sc.at("compile")
                return program

            def run(self, artifact, trace):
                sc.running = True
                try:
                    sc.at("run")
                    out = []
                    for it in trace:
                        y = artifact.forward(*it.inputs)
                        if sc.mismatch:
                            y = y + 1
                        if sc.stage == "run_value":
                            y = object()
                        out.append(TraceItem(it.symbol, it.inputs, y))
                    if sc.stage == "run_not_a_trace":
                        return None
                    return out
                finally:
                    sc.running = False
                    sc.ran = True

        return C()


def invariants(key, r, sc, timed_out=False):
    from torch_mlir_e2e_test.framework import TestResult
    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport

    if not isinstance(r, TestResult) or r.unique_name != "the_test":
        raise Violation(f"result:{key}", f"{key}: returned {r!r}")
    errs = [e for e in (r.compilation_error, r.runtime_error) if e is not None]
    traces = [t for t in (r.trace, r.golden_trace) if t is not None]
    if len(errs) > 1 or (errs and traces) or (not errs and len(traces) != 2):
        raise Violation(f"result:{key}", f"{key}: inconsistent result {r}")
    for e in errs:
        if not isinstance(e, str) or not e.strip():
            raise Violation(f"result:{key}", f"{key}: error is {e!r}")
    rep = SingleTestReport(r, ErrorContext.empty())
    if errs and not rep.failed:
        raise Violation(f"result:{key}", f"{key}: error result not reported as failure")
    if not errs and rep.failed != sc.mismatch:
        raise Violation(f"result:{key}", f"{key}: failed={rep.failed}, outputs {'differ' if sc.mismatch else 'agree'}")
    return errs


def quiet(f):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f()


def after(key):
    """the process is as it was: no alarm pending, the next test runs normally"""
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    if left:
        signal.setitimer(signal.ITIMER_REAL, 0)
        raise Violation(f"alarm:{key}", f"{key}: the alarm is still armed after the test ({left:.0f} s)")
    from torch_mlir_e2e_test.framework import compile_and_run_test

    sc = Scenario()
    r = compile_and_run_test(sc.test(), sc.config())
    if invariants(f"{key} / next test", r, sc):
        raise Violation(f"next:{key}", f"{key}: the next test in the process fails: {r}")


def expected_phase(stage):
    return "runtime_error" if stage in ("run", "run_value", "run_not_a_trace") else "compilation_error"


def case_fault(c):
    from torch_mlir_e2e_test.framework import compile_and_run_test

    stage, fault, verbose = c
    key = f"fault {fault} in {stage}" + (" verbose" if verbose else "")
    sc = Scenario(stage, fault)
    try:
        r = quiet(lambda: compile_and_run_test(sc.test(), sc.config(), verbose))
    except BaseException as e:
        if stage in ("golden_value", "run_value", "run_not_a_trace") and isinstance(e, (AssertionError, TypeError)):
            after(key)
            return ("known", "unrecordable")
        raise Violation(f"escape:{stage}", f"{key}: {type(e).__name__}: {e} escapes from the test")
    errs = invariants(key, r, sc)
    if not errs:
        raise Violation(f"class:{stage}", f"{key}: no error in the result")
    if getattr(r, expected_phase(stage)) is None:
        raise Violation(f"class:{stage}", f"{key}: classified as {errs[0]!r} in the wrong phase")
    if fault == "chained" and stage in STAGES[:7] and not ("inner" in errs[0] and "boom" in errs[0]):
        raise Violation(f"message:{stage}", f"{key}: the failure is not described: {errs[0]}")
    if fault in ("RuntimeError", "AssertionError", "NotImplementedError", "KeyError", "StopIteration") and stage in STAGES[:7] and "boom" not in errs[0]:
        raise Violation(f"message:{stage}", f"{key}: the failure is not described: {errs[0]}")
    after(key)
    return 1


# ---------------------------------------------------------------- timeouts
class Injector:
    """fires the alarm at the k-th point (bytecode boundary in the framework's test
    driver, line in the test) at which it is armed"""

    def __init__(self, k, sc):
        self.k, self.sc, self.n, self.fired, self.where = k, sc, 0, None, None
        self.files = {FW, HERE}

    def armed(self):
        return signal.getitimer(signal.ITIMER_REAL)[0] > 0

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in self.files or frame.f_code.co_name in ("glob", "loc", "armed", "fire", "handle_timeout"):
            return None
        frame.f_trace_opcodes = f == FW
        frame.f_trace_lines = f != FW
        return self.loc

    def loc(self, frame, event, arg):
        if event not in ("opcode", "line") or self.fired is not None:
            return self.loc
        if not self.armed():
            return self.loc
        self.n += 1
        if self.n == self.k:
            self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}:{frame.f_lineno}"
            self.fired = ("running" if self.sc.running else "ran" if self.sc.ran else "before")
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.raise_signal(signal.SIGALRM)
        return self.loc


def inject(sc, k, verbose=False, seconds=100):
    from torch_mlir_e2e_test.framework import compile_and_run_test

    inj = Injector(k, sc)
    t, c = sc.test(seconds), sc.config()

    def go():
        sys.settrace(inj.glob)
        try:
            return compile_and_run_test(t, c, verbose)
        except BaseException as e:  # noqa: BLE001
            return e
        finally:
            sys.settrace(None)

    try:
        return inj, quiet(go)
    finally:
        sys.settrace(None)


SC = [dict(), dict(mismatch=True), dict(calls=2), dict(stage="program"), dict(stage="compile"), dict(stage="run"),
      dict(stage="factory1"), dict(stage="factory2"), dict(stage="run_value"), dict(stage="golden_value"),
      dict(stage="run", fault="TimeoutError"), dict(stage="compile", fault="TimeoutError")]


def n_points(sc_kw, verbose):
    inj, _ = inject(Scenario(**sc_kw), -1, verbose)
    return inj.n


def case_timeout(c):
    si, verbose, k = c
    kw = SC[si]
    sc = Scenario(**kw)
    key = f"alarm in scenario {kw}{' verbose' if verbose else ''}"
    inj, r = inject(sc, k, verbose, seconds=7357)
    if isinstance(r, BaseException):
        e = r
        if kw.get("stage") in ("golden_value", "run_value") and isinstance(e, AssertionError):
            after(f"{key}, point {k} ({inj.where})")
            return ("known", "unrecordable")
        if isinstance(e, TimeoutError) and inj.fired in ("before", "ran") and inj.where.startswith("framework.py:"):
            after(f"{key}, point {k} ({inj.where})")
            return ("known", "timeout-between")
        raise Violation(f"timeout-escape:{kw}",
                        f"{key}, point {k} ({inj.where}): {type(e).__name__}: {e} escapes from the test")
    errs = invariants(f"{key}, point {k} ({inj.where})", r, sc)
    if inj.fired is None:
        return ("not reached",)
    # whatever the alarm interrupts, the test does not pass for having been cut short
    if not errs:
        raise Violation(f"timeout:{kw}", f"{key}, point {k} ({inj.where}): the test passes although it timed out")
    kn = False
    if "stage" not in kw:
        if r.runtime_error == UNFORMATTED:
            kn = True
        elif not ("timed out" in errs[0].lower() and "7357" in errs[0]):
            raise Violation(f"timeout-message:{kw}",
                            f"{key}, point {k} ({inj.where}): result does not name the timeout: {errs[0][-300:]}")
        if inj.fired == "running" and r.runtime_error is None:
            raise Violation(f"timeout-phase:{kw}", f"{key}, point {k} ({inj.where}): not reported as a run-time error")
        if inj.fired == "before" and not sc.ran and k <= 1 and r.compilation_error is None and False:
            raise Violation(f"timeout-phase:{kw}", key)
    after(f"{key}, point {k} ({inj.where})")
    return ("fired", inj.where, kn)


def case_real(c):
    """real time: an endless stage is stopped"""
    from torch_mlir_e2e_test.framework import compile_and_run_test

    sc = Scenario()
    orig = sc.at

    def at(stage):
        if stage == c:
            while True:
                pass

    sc.at = at
    t0 = time.time()
    r = compile_and_run_test(sc.test(1), sc.config())
    dt = time.time() - t0
    errs = invariants(f"endless {c}", r, sc)
    kn = r.runtime_error == UNFORMATTED
    if not kn and (not errs or "timed out" not in errs[0] or "1" not in errs[0]):
        raise Violation(f"endless:{c}", f"endless {c}: result {r}")
    if getattr(r, expected_phase(c)) is None:
        raise Violation(f"endless:{c}", f"endless {c}: wrong phase: {r}")
    if dt > 20:
        raise Violation(f"endless:{c}", f"endless {c}: stopped after {dt:.1f} s, limit 1 s")
    after(f"endless {c}")
    return ("known", "timeout-text") if kn else 1


UNFORMATTED = "Test timed out during execution (timeout={test.timeout}s)"
KNOWN = {"unrecordable": "a value returned by the configuration that cannot be copied aborts the run instead of failing the test",
         "timeout-between": "the time limit expiring between two stages aborts the run instead of failing the test",
         "timeout-text": "the message for a test that times out while running does not contain the time limit"}


def dispatch(c):
    return {"f": case_fault, "t": case_timeout, "r": case_real}[c[0]](c[1])


def run(ck):
    global FW
    import torch_mlir_e2e_test.framework as fw

    FW = fw.__file__
    cases = [("r", s) for s in STAGES[:7]]
    for stage in STAGES:
        for fault in FAULTS if stage in STAGES[:7] else ["RuntimeError"]:
            for verbose in (False, True):
                cases.append(("f", (stage, fault, verbose)))
    pts = {}
    for si, kw in enumerate(SC):
        for verbose in ((False, True) if ck.thorough or si < 3 else (False,)):
            n = n_points(kw, verbose)
            pts[f"{kw}{' verbose' if verbose else ''}"] = n
            # the last points may vanish or appear by a few with caching: go past the end
            cases += [("t", (si, verbose, k)) for k in range(1, n + 3)]
    infos = ck.run_cases(cases, dispatch)
    ck.transitions = len(cases) * 2
    fired = [i[1] for i in infos if isinstance(i, tuple) and i[0] == "fired"]
    kn = {i[1] for i in infos if isinstance(i, tuple) and i[0] == "known"}
    kn |= {"timeout-text" for i in infos if isinstance(i, tuple) and i[0] == "fired" and i[2]}
    for k in sorted(kn):
        ck.violation(k, KNOWN[k])
    ck.extra["alarms_fired"] = len(fired)
    ck.extra["distinct_alarm_sites"] = len(set(fired))
    ck.extra["points_per_scenario"] = pts
    if not fired:
        ck.violation("no-alarm", "the timeout is never armed while a test runs")
    ck.sample({"alarm_site": sorted(set(fired))[:4]})
    ck.sample({"fault": cases[9][1]})

"""E04: a run yields exactly one result per test, or fails; it never hangs.

The real run_tests with a real process pool.  Schedules: tests rendezvous through
files so that they finish in every order the pool permits, for every number of
tests and processes.  Faults: every test position x every way in which a process
can end (exit codes, signals) x every set of tests that finish before.  Also every
combination of the environment variables and of kinds of outcome, sequential and
parallel.
"""
import contextlib
import io
import itertools
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from mc import env

env.install_fake_mlir()
torch = env.quiet_torch()
from mc.core import Violation

ID = "E04"
LEVEL = "model_checking"
RULE = ("state = (tests and their outcomes, number of processes, order of completion, process deaths); transition = "
        "one run of the real run_tests with real processes following that schedule")

SCR = None
TURN_WAIT = 6.0
RUN_LIMIT = 30.0
OUTCOMES = ["pass", "mismatch", "golden_raises", "compile_raises", "run_raises", "program_raises", "timeout_late"]


# ---------------------------------------------------------------- synthetic tests
class Prog(torch.nn.Module):
    def __init__(self, i):
        super().__init__()
        self.i = i
        self.w = torch.nn.Parameter(torch.ones(2) * (i + 1))

    def forward(self, x):
        return self.w.detach() * x


class Spec(Prog):
    def __init__(self, i, d, what, before, n):
        super().__init__(i)
        self.d, self.what, self.before, self.n = d, what, before, n


class Cfg:
    """A test configuration whose behaviour is chosen by the program."""

    def compile(self, program, verbose=False):
        if program.what == "compile_raises":
            raise RuntimeError(f"compile of {program.i}")
        return program

    def run(self, artifact, trace):
        from torch_mlir_e2e_test.framework import TraceItem

        p = artifact
        log(p.d, f"run-{p.i}-{os.getpid()}-{time.time():.6f}")
        for b in p.before:
            t = time.time()
            while not os.path.exists(os.path.join(p.d, f"fin-{b}")) and time.time() - t < TURN_WAIT:
                time.sleep(0.001)
        open(os.path.join(p.d, f"fin-{p.i}"), "w").close()
        if p.what[0] == "die":
            if p.what[1] == "exit":
                sys.exit(p.what[2])
            if p.what[1] == "_exit":
                os._exit(p.what[2])
            os.kill(os.getpid(), p.what[2])
        if p.what == "run_raises":
            raise ValueError(f"run of {p.i}")
        out = [TraceItem(i.symbol, i.inputs, i.output) for i in trace]
        if p.what == "mismatch":
            out = [TraceItem(i.symbol, i.inputs, i.output + 1) for i in trace]
        return out


KNOWN = {"sequential-twice": "a run with one process executes every test a second time in a process pool",
         "exit0-hang": "the run never ends when a test process exits with status 0"}


def executed(rs, should, single):
    """each test ran once; -> names of the recorded defects seen (twice in a run with one process)"""
    got = sorted(int(r[1]) for r in rs)
    if got == sorted(should):
        return []
    if single and got == sorted(list(should) * 2) and all(
            len({r[2] for r in rs if int(r[1]) == i}) == 2 for i in should):
        return ["sequential-twice"]
    return None


def log(d, name):
    open(os.path.join(d, name), "w").close()


def mk_test(i, d, what, before=(), n=0, names=None):
    from torch_mlir_e2e_test.framework import Test

    def factory():
        return Spec(i, d, what, before, n)

    def invoker(module, tu):
        if what == "program_raises":
            raise KeyError(f"program of {i}")
        module.forward(torch.arange(2.0) + i)

    return Test(unique_name=(names or "T%02d")[0:] % i if not isinstance(names, (list, tuple)) else names[i],
                program_factory=factory, program_invoker=invoker, timeout_seconds=120)


def expected(i, what):
    """-> (kind, detail)"""
    if what in ("program_raises",):
        return "compile", f"program of {i}"
    if what == "compile_raises":
        return "compile", f"compile of {i}"
    if what == "run_raises":
        return "run", f"run of {i}"
    return ("differ" if what == "mismatch" else "same"), None


def judge(r, i, what):
    k, detail = expected(i, what)
    golden = (torch.ones(2) * (i + 1)) * (torch.arange(2.0) + i)
    if k in ("compile", "run"):
        e = r.compilation_error if k == "compile" else r.runtime_error
        o = r.runtime_error if k == "compile" else r.compilation_error
        return (e is not None and detail in e and o is None and r.trace is None and r.golden_trace is None)
    if r.compilation_error is not None or r.runtime_error is not None or not r.trace or not r.golden_trace:
        return False
    return (len(r.trace) == len(r.golden_trace) == 1 and torch.equal(r.golden_trace[0].output, golden)
            and torch.equal(r.trace[0].output, golden + (1 if k == "differ" else 0)))


# ---------------------------------------------------------------- one run in its own process
def in_child(body, limit=None):
    """body() in a forked process group; -> ('ok', value) | ('exit', code) | ('raise', text) | ('hang',)"""
    d = tempfile.mkdtemp(dir=SCR)
    out = os.path.join(d, "result")
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.setpgid(0, 0)
            fd = os.open(os.path.join(d, "stdout"), os.O_CREAT | os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            # this process is a daemonic pool worker, which may not have children itself
            import multiprocess as mp

            mp.process._current_process._config = {"authkey": mp.process.AuthenticationString(b"x"), "semprefix": "/mp"}
            mp.process._current_process._parent_pid = os.getppid()
            import builtins

            try:
                v = ("ok", body(d))
            except SystemExit as e:
                c = e.code
                v = ("exit", 0 if c is None else c if isinstance(c, int) else 1)
            except BaseException as e:  # noqa: BLE001
                v = ("raise", f"{type(e).__name__}: {e}")
            with open(out + ".tmp", "wb") as f:
                import dill

                f.write(dill.dumps(v))
            os.rename(out + ".tmp", out)
            code = 0
        finally:
            os._exit(code)
    t = time.time()
    res = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t > (limit or RUN_LIMIT):
            res = ("hang",)
            break
        time.sleep(0.002)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if res is None:
        if os.path.exists(out):
            import dill

            res = dill.loads(open(out, "rb").read())
        else:
            res = ("died", st)
    else:
        os.waitpid(pid, 0)
    logs = sorted(os.listdir(d))
    text = open(os.path.join(d, "stdout"), errors="replace").read()
    shutil.rmtree(d, ignore_errors=True)
    return res, logs, text


def run_once(whats, mode, procs, cpus, before=None, envs=None, order=None, names=None, verbose=False, limit=None):
    import multiprocess as mp

    try:
        mp.set_start_method("fork")
    except RuntimeError:
        pass
    from torch_mlir_e2e_test import framework as FW

    n = len(whats)
    before = before or {}

    def body(d):
        for k in ("TORCH_MLIR_TEST_CONCURRENCY", "TORCH_MLIR_TEST_VERBOSE"):
            os.environ.pop(k, None)
        os.environ.update(envs or {})
        if procs:
            os.environ["TORCH_MLIR_TEST_CONCURRENCY"] = str(procs)
        FW.mp.cpu_count = lambda: cpus
        ts = [mk_test(i, d, whats[i], before.get(i, ()), n, names=names) for i in (order or range(n))]
        rs = FW.run_tests(ts, Cfg(), sequential=(mode == "seq"), verbose=verbose)
        return [tuple(r) for r in rs]

    return in_child(body, limit)


def check_results(what, res, whats, names=None):
    from torch_mlir_e2e_test.framework import TestResult

    if res[0] == "hang":
        raise Violation(f"hang:{what}", f"{what}: the run did not end within {RUN_LIMIT:.0f} s")
    if res[0] != "ok":
        raise Violation(f"noresult:{what}", f"{what}: no test process died, yet the run ended with {res}")
    rs = [TestResult(*r) for r in res[1]]
    nm = [(names[i] if names else "T%02d" % i) for i in range(len(whats))]
    got = [r.unique_name for r in rs]
    if got != sorted(nm):
        raise Violation(f"names:{what}", f"{what}: results for {got}, expected exactly {sorted(nm)}")
    for r in rs:
        i = nm.index(r.unique_name)
        if not judge(r, i, whats[i]):
            raise Violation(f"result:{what}", f"{what}: {r.unique_name} ({whats[i]}) has result "
                            f"{str(r)[:300]}")


def runs_of(logs):
    return [l.split("-") for l in logs if l.startswith("run-")]


# ---------------------------------------------------------------- schedules
def orders(n, w):
    """every completion order of n tests on w processes that take tests in order"""
    out = []

    def go(started, running, done):
        if len(done) == n:
            out.append(tuple(done))
            return
        for i in running:
            r2 = [x for x in running if x != i]
            s2 = started
            if s2 < n:
                r2 = r2 + [s2]
                s2 += 1
            go(s2, r2, done + [i])

    go(min(w, n), list(range(min(w, n))), [])
    return out


def case_order(c):
    n, w, order, whats = c
    before = {i: order[:order.index(i)] for i in order}
    res, logs, _ = run_once(whats, "par", w, 8, before)
    what = f"order:{n}/{w}/{order}"
    check_results(what, res, whats)
    rs = runs_of(logs)
    if sorted(int(r[1]) for r in rs) != [i for i in range(n) if whats[i] not in ("program_raises", "compile_raises")]:
        raise Violation(f"times:{n}/{w}", f"{what}: tests executed: {sorted(int(r[1]) for r in rs)}")
    if len({r[2] for r in rs}) > w:
        raise Violation(f"procs:{n}/{w}", f"{what}: {len({r[2] for r in rs})} processes used, limit {w}")
    return 1


def case_outcomes(c):
    mode, w, whats, shuffled, names = c
    n = len(whats)
    order = list(range(n))
    order = order[::-1] if shuffled == 1 else order[1::2] + order[::2] if shuffled == 2 else order
    res, logs, text = run_once(whats, mode, w, 8, order=order, names=names)
    what = f"outcomes:{mode}/{w}/{'+'.join(whats)}/{shuffled}"
    check_results(what, res, whats, names)
    rs = runs_of(logs)
    kn = executed(rs, [i for i in range(n) if whats[i] not in ("program_raises", "compile_raises")],
                  mode == "seq" or w == 1 or n == 1)
    if kn is None:
        raise Violation(f"times:{what}", f"{what}: tests executed: {sorted(int(r[1]) for r in rs)}")
    return ("known", kn)


def case_death(c):
    n, w, victim, how, first = c
    whats = ["pass"] * n
    whats[victim] = ("die",) + how
    # `first`: the tests that finish before the victim dies; the others wait for its death
    before = {victim: first}
    for i in range(n):
        if i != victim and i not in first:
            before[i] = (victim,)
    what = f"death:{how[0]}({how[1]})@{victim} of {n} on {w}, after {list(first)}"
    key = f"death:{how[0]}({how[1]})"
    t = time.time()
    zero = how in (("_exit", 0), ("exit", 0))
    res, logs, text = run_once(whats, "par", w, 8, before, limit=3.0 if zero else None)
    if res[0] == "hang" and zero:
        return ("known", ["exit0-hang"])
    if res[0] == "hang":
        raise Violation(f"hang:{key}", f"{what}: the run does not end")
    if res[0] == "exit":
        if res[1] == 0:
            raise Violation(f"status:{key}", f"{what}: the run ends with status 0")
        return 1
    if res[0] == "ok":
        from torch_mlir_e2e_test.framework import TestResult

        rs = [TestResult(*r) for r in res[1]]
        if [r.unique_name for r in rs] != ["T%02d" % i for i in range(n)]:
            raise Violation(f"names:{key}", f"{what}: results for {[r.unique_name for r in rs]}")
        v = rs[victim]
        if v.runtime_error is None and v.compilation_error is None:
            raise Violation(f"lost:{key}", f"{what}: the test that died has no error")
        for i, r in enumerate(rs):
            if i != victim and not judge(r, i, "pass") and r.runtime_error is None and r.compilation_error is None:
                raise Violation(f"result:{key}", f"{what}: {str(r)[:300]}")
        return 1
    return 1  # an exception ends the run with a failure


def case_env(c):
    conc, verb, cpus, n, mode = c
    envs = {}
    if conc is not None:
        envs["TORCH_MLIR_TEST_CONCURRENCY"] = conc
    if verb is not None:
        envs["TORCH_MLIR_TEST_VERBOSE"] = verb
    what = f"env:CONCURRENCY={conc!r},VERBOSE={verb!r},cpus={cpus},n={n},{mode}"
    whats = ["pass"] * n
    res, logs, text = run_once(whats, mode, None, cpus, envs=envs)

    def as_int(x):
        try:
            return int(x) if x is not None else 0
        except ValueError:
            return None

    bad = [v for v, x in (("TORCH_MLIR_TEST_CONCURRENCY", conc), ("TORCH_MLIR_TEST_VERBOSE", verb)) if as_int(x) is None]
    if bad:
        if res[0] != "raise" or not any(b in res[1] for b in bad):
            raise Violation(f"badenv:{bad}", f"{what}: {str(res)[:200]}, expected an error about {bad}")
        return 1
    check_results(what, res, whats)
    rs = runs_of(logs)
    pids = {r[2] for r in rs}
    limit = as_int(conc) if conc and as_int(conc) > 0 else n
    limit = 1 if mode == "seq" or cpus in (1, 2) else limit
    kn = executed(rs, range(n), limit == 1)
    if kn is None:
        raise Violation(f"times:{what}", f"{what}: tests executed: {rs}")
    if kn:  # the second execution, in the pool
        limit = 1 + (as_int(conc) if conc and as_int(conc) > 0 else n)
    if len(pids) > limit:
        raise Violation(f"procs:{what}", f"{what}: {len(pids)} processes used, limit {limit}")
    progress = all(f"Compiling T{i:02d}" in text and f"Running T{i:02d}" in text for i in range(n))
    if mode == "seq" and as_int(verb) and not progress:
        raise Violation(f"verbose:{what}", f"{what}: no progress shown")
    return ("known", kn)


def case_spawn(c):
    """the whole thing as a user starts it (spawned processes)"""
    w, mode = c
    code = (
        "import sys; sys.path.insert(0, %r)\n"
        "from mc import env; env.install_fake_mlir(); torch = env.quiet_torch()\n"
        "import checks.e04_spawn as S\n"
        "if __name__ == '__main__':\n"
        "    S.main(%r, %r)\n" % (env.VERIF, w, mode))
    d = tempfile.mkdtemp(dir=SCR)
    f = os.path.join(d, "drive.py")
    open(f, "w").write(code)
    p = subprocess.run([sys.executable, f], capture_output=True, text=True, timeout=240, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0:
        raise Violation(f"spawn:{w}/{mode}", f"spawned run with {w} processes ({mode}): {p.stdout[-400:]}{p.stderr[-800:]}")
    return 1


def dispatch(c):
    return {"o": case_order, "k": case_outcomes, "d": case_death, "e": case_env, "s": case_spawn}[c[0]](c[1])


DEATHS = [("_exit", 0), ("_exit", 1), ("_exit", 3), ("exit", 0), ("exit", 2), ("signal", int(signal.SIGKILL)),
          ("signal", int(signal.SIGSEGV)), ("signal", int(signal.SIGABRT)), ("signal", int(signal.SIGTERM))]


def run(ck):
    global SCR
    SCR = tempfile.mkdtemp(prefix="e04-")
    try:
        _run(ck)
    finally:
        shutil.rmtree(SCR, ignore_errors=True)


def _run(ck):
    import multiprocess as mp

    try:
        mp.set_start_method("fork")
    except RuntimeError:
        pass
    from torch_mlir_e2e_test import framework as FW  # noqa: F401

    K = ["pass", "mismatch", "program_raises", "compile_raises", "run_raises"]
    cases = []
    N = 5 if ck.thorough else 4
    for n in range(1, N + 1):
        for w in range(2, min(n, 4) + 1):
            for k, o in enumerate(orders(n, w)):
                whats = [("pass", "mismatch", "run_raises")[(i + k) % 3] for i in range(n)]
                cases.append(("o", (n, w, o, whats)))
    for mode, w in (("seq", None), ("par", 1), ("par", 2), ("par", None)):
        for n in range(1, 4 if ck.thorough or mode == "seq" else 3):
            for ws in itertools.product(K, repeat=n):
                cases.append(("k", (mode, w, list(ws), (len(cases) % 3), None)))
        for names in (["b", "a", "c"], ["B", "a", "C"], ["x10", "x2", "x1"], ["a", "aa", "a_"]):
            for sh in (0, 1, 2):
                cases.append(("k", (mode, w, ["pass", "mismatch", "run_raises"], sh, names)))
        for n in (9, 24, 41):
            cases.append(("k", (mode, w, [K[i % 5] for i in range(n)], 1, None)))
    for n in range(1, 4 if ck.thorough else 3 + 1):
        for w in range(2, min(n, 3) + 1) if n > 1 else ():
            for victim in range(n):
                for how in DEATHS:
                    others = [i for i in range(n) if i != victim]
                    for r in range(len(others) + 1):
                        for first in itertools.combinations(others, r):
                            if not ck.thorough and n == 3 and how not in DEATHS[:1] + DEATHS[3:4] + DEATHS[5:6]:
                                continue
                            # feasible: the first tests can run while the victim occupies one process
                            started_before = [i for i in first if i > victim]
                            if started_before and w == 1:
                                continue
                            cases.append(("d", (n, w, victim, how, first)))
    for conc in (None, "0", "1", "2", "3", "100", "-1", "", "x", "1.5", " 2 "):
        for verb in (None, "0", "1"):
            for cpus in ((1, 2, 8) if ck.thorough or verb is None else (8,)):
                cases.append(("e", (conc, verb, cpus, 3, "par")))
    for verb in (None, "0", "1", "2", "-1", "", "yes", "true"):
        for conc in (None, "2", "x"):
            cases.append(("e", (conc, verb, 8, 3, "seq")))
    cases += [("s", (w, m)) for w, m in ((2, "par"), (4, "par"), (1, "seq"))]
    cases.sort(key=lambda c: c[0] != "s")
    ck.procs = min(16, 2 * ck.procs)  # the runs mostly wait
    infos = ck.run_cases(cases, dispatch, chunk=1)
    for k in sorted({k for i in infos if isinstance(i, tuple) for k in i[1]}):
        ck.violation(k, KNOWN[k])
    ck.extra["runs"] = len(cases)
    ck.sample({"order": [2, 0, 1], "tests": 3, "processes": 3})
    ck.sample({"death": "SIGKILL of test 1 of 3 on 2 processes after test 0 finished"})

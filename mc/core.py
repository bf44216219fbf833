"""Common machinery of the checks: case enumeration, counting, violations, evidence.

A check is a module checks/<ID>.py with
    ID, LEVEL, RULE          constants
    def run(ck): ...         enumerates everything within the tier's bounds
    def replay(ck, data)     (optional) re-executes one recorded case
Enumeration is always in a fixed order and complete within the stated bound;
VERIF_SEED only rotates the order in which cases are handed to the workers.
"""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    """Raised by a case function: the property does not hold on this case.

    `key` identifies the failing input/call site/history in a stable way, it is
    what known_findings.json is matched against.
    """

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


def h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


STUCK = 420.0  # a chunk that takes longer than this is taken to hang


def _worker(conn, fn):
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            items = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        if items is None:
            os._exit(0)
        conn.send([_one(fn, i, c) for i, c in items])


def _pool(procs, fn, batches):
    """Results of every batch, computed in forked workers.

    A worker that dies or hangs loses nothing: its cases run again one by one, and a
    case that takes its worker with it twice is reported as such.
    """
    from multiprocessing.connection import wait

    ctx = multiprocessing.get_context("fork")
    todo = [(b, 0) for b in reversed(batches)]
    workers = {}  # conn -> [process, (batch, tries) or None, start]

    def start():
        a, b = ctx.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        p = ctx.Process(target=_worker, args=(b, fn), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0]
        return a

    def feed(c):
        w = workers[c]
        w[1] = todo.pop() if todo else None
        w[2] = time.time()
        if w[1] is not None:
            try:
                c.send(w[1][0])
            except OSError:
                pass  # noticed below
        return w[1] is not None

    def lost(c, why):
        p, (batch, tries), _ = workers.pop(c)
        p.kill()
        p.join()
        c.close()
        if len(batch) > 1:
            todo.extend(([x], 0) for x in reversed(batch))
        elif tries == 0:
            todo.append((batch, 1))
        else:
            i, case = batch[0]
            return [(i, {"ok": False, "key": f"died:{why or p.exitcode}",
                         "msg": f"the process running this case {why or 'ended with status %s' % p.exitcode}"})]

    for _ in range(min(procs, len(batches))):
        feed(start())
    busy = lambda: [c for c, w in workers.items() if w[1] is not None]  # noqa: E731
    try:
        while busy() or todo:
            if todo and len(workers) < procs:
                feed(start())
                continue
            for c in wait(busy(), timeout=5):
                try:
                    res = c.recv()
                except (EOFError, OSError):
                    res = lost(c, None)
                    if res:
                        yield res
                    continue
                yield res
                feed(c)
            now = time.time()
            for c in busy():
                if now - workers[c][2] > STUCK:
                    res = lost(c, "hangs")
                    if res:
                        yield res
    finally:
        for c, w in workers.items():
            if w[1] is not None:
                w[0].kill()
            try:
                c.send(None)
            except OSError:
                pass
        for w in workers.values():
            w[0].join(2)
            if w[0].is_alive():
                w[0].kill()
                w[0].join()


def _one(fn, idx, case):
    """-> (idx, result-dict)"""
    try:
        r = fn(case)
        return idx, {"ok": True, "info": r}
    except Violation as v:
        return idx, {"ok": False, "key": v.key, "msg": v.msg}
    except Exception as e:
        tb = traceback.format_exc()
        return idx, {
            "ok": False,
            "key": f"raised:{type(e).__name__}",
            "msg": f"{type(e).__name__}: {e}\n{tb[-2500:]}",
        }


class Check:
    def __init__(self, pid, level, rule, tier=None):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.trivial = 0
        self.states = set()
        self.n_states_extra = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.extra = {}
        self.exhaustive = True
        self.procs = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
        self.known = self._load_known()
        self.budget = float(os.environ.get("MC_BUDGET", "0")) or (
            780 if not self.thorough else 5000
        )

    def _load_known(self):
        try:
            d = json.load(open(KNOWN))
        except FileNotFoundError:
            return []
        return [k for k in d.get("findings", []) if k["property"] == self.pid]

    # -- counting ----------------------------------------------------------
    def count(self, key, trivial=False, evals=1):
        self.evals += evals
        if trivial:
            self.trivial += 1
        else:
            self.distinct.add(h(key))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s))

    def state(self, s):
        self.states.add(h(s))

    def left(self):
        return self.budget - (time.time() - self.t0)

    # -- violations ----------------------------------------------------------
    def violation(self, key, msg, data=None):
        for k in self.known:
            if k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit[key] = k
                return
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        d = os.environ.get("MC_REPLAY_DIR", os.path.join(VERIF, "replays"))
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "key": key, "message": msg, "case": data}, f,
                      indent=1, default=repr)
        self.violations.append(p)
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        print("  " + f"[{key}] {msg}"[:1500].replace("\n", "\n  "), flush=True)

    # -- execution -------------------------------------------------------------
    def run_cases(self, cases, fn, keyfn=None, parallel=True, chunk=None, nontrivial=None,
                  setup=None, stop_after=20):
        """Run fn on every case (fork pool), count, collect violations; returns infos.

        fn returns any picklable info; raising Violation (or anything) reports it.
        keyfn(case) -> identity of the case.
        """
        cases = list(cases)
        keyfn = keyfn or (lambda c: c)
        order = list(range(len(cases)))
        if order:
            r = (self.seed - 1) % len(order)
            order = order[r:] + order[:r]
        infos = [None] * len(cases)
        if parallel and self.procs > 1 and len(cases) > 1:
            chunk = chunk or max(1, min(64, len(cases) // (self.procs * 4)))
            batches = [[(i, cases[i]) for i in order[j:j + chunk]]
                       for j in range(0, len(order), chunk)]
            for res in _pool(self.procs, fn, batches):
                for i, r in res:
                    self._absorb(cases[i], r, keyfn, infos, i, nontrivial)
        else:
            for i in order:
                _, r = _one(fn, i, cases[i])
                self._absorb(cases[i], r, keyfn, infos, i, nontrivial)
        return infos

    def _absorb(self, case, r, keyfn, infos, i, nontrivial):
        info = r.get("info")
        infos[i] = info
        triv = False
        if nontrivial is not None and r["ok"]:
            triv = not nontrivial(case, info)
        self.count(keyfn(case), trivial=triv)
        self.traces += 1
        if not r["ok"]:
            self.violation(r["key"], f"case {repr(keyfn(case))[:240]}: {r['msg']}", case)

    # -- evidence --------------------------------------------------------------
    def finish(self):
        for k in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        nviol = len(self.violations)
        cov = {}
        if self.level == "model_checking":
            cov.update(
                states=(len(self.states) + self.n_states_extra) or len(self.distinct) + self.trivial,
                transitions=self.transitions or self.evals,
                traces_validated_against_impl=self.traces,
            )
        else:
            cov.update(
                evaluations=self.evals,
                distinct_nontrivial=len(self.distinct),
                rule=self.rule,
            )
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = bool(self.exhaustive)
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": nviol,
        }
        ed = os.environ.get("MC_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print(f"{self.pid} {self.tier}: " + ", ".join(
            f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, bool)))
            + f", violations={nviol}, {ev['wall_s']}s", flush=True)
        return 1 if nviol else 0


def main(argv):
    import importlib

    pid = argv[0]
    mod = importlib.import_module(f"checks.{pid}")
    ck = Check(pid, mod.LEVEL, mod.RULE)
    d = os.environ.get("MC_REPLAY_DIR", os.path.join(VERIF, "replays"))
    if "--replay" not in argv and os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith(pid + "-"):
                os.remove(os.path.join(d, f))
    if len(argv) > 2 and argv[1] == "--replay":
        data = json.load(open(argv[2]))
        return mod.replay(ck, data["case"])
    try:
        mod.run(ck)
    except Exception as e:
        # A failure outside any case means the code under test could not even be
        # loaded/driven through its public interface.
        ck.violation(f"driver:{type(e).__name__}", traceback.format_exc()[-3000:])
    rc = ck.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    from mc import core as _core

    sys.exit(_core.main(sys.argv[1:]))

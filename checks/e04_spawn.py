"""Tests for a run with spawned processes (imported by the workers by name)."""
import sys

import torch

from torch_mlir_e2e_test import framework as FW


class Lin(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.l = torch.nn.Linear(3, 2)

    def forward(self, x):
        return self.l(x)


class Many(torch.nn.Module):
    def forward(self, x):
        return {"a": [x, x + 1], "b": x.to(torch.bfloat16)}, 1.5, 2, "s", True


class Cfg:
    def compile(self, p, verbose=False):
        return p

    def run(self, p, trace):
        return [FW.TraceItem(i.symbol, i.inputs, getattr(p, "forward")(*FW.clone_torch_script_value(i.inputs)))
                if not isinstance(p, Many) else FW.TraceItem(i.symbol, i.inputs, i.output) for i in trace]


def lin(m, tu):
    m.forward(tu.rand(4, 3))


def many(m, tu):
    m.forward(tu.rand(2))


def bad(m, tu):
    raise RuntimeError("bad program")


def main(w, mode):
    import os

    from torch_mlir_e2e_test.reporting import ErrorContext, SingleTestReport

    os.environ["TORCH_MLIR_TEST_CONCURRENCY"] = str(w)
    torch.manual_seed(0)
    ts = [FW.Test("c", Lin, lin, 60), FW.Test("a", Many, many, 60), FW.Test("b", Lin, bad, 60), FW.Test("d", Many, many, 60)]
    rs = FW.run_tests(ts, Cfg(), sequential=mode == "seq")
    assert [r.unique_name for r in rs] == list("abcd"), rs
    for r in rs:
        if r.unique_name == "b":
            assert "bad program" in r.compilation_error, r
        elif r.unique_name == "c":
            assert r.trace is not None and r.trace[0].output.shape == (4, 2), r
        else:
            rep = SingleTestReport(r, ErrorContext.empty())
            assert not rep.failed, (r, rep.error_str())
    sys.exit(0)

"""T01: the shape the compiler's library computes for an operator call is PyTorch's.

Every call within two parameters (three, where that stays small, in the thorough tier) of
an operator's base calls, over finite domains of shapes, element types, numbers and lists;
each call PyTorch accepts is a judged execution.
"""
from mc import absint_check, env  # noqa: F401

ID = "T01"
LEVEL = "model_checking"
RULE = "state = an operator call; every call within the width of a base call is run on PyTorch and on the library function"
PLAN = {"quick": dict(bases=3, width=2, narrow_if=40000),
        "thorough": dict(bases=12, width=2, max_width=3, wide_if=60000)}


def run(ck):
    absint_check.explore(ck, "shape", PLAN["thorough" if ck.thorough else "quick"])
    ck.extra["evaluations"] = ck.extra["accepted_by_pytorch"]
    ck.assumptions += [
        "PyTorch's shape inference (meta tensors) and its CPU kernels are the reference; where the two disagree, or the "
        "execution rejects what inference accepts, the call is not judged",
        "calls differ from a base call (the function's own test invocations) in at most the stated number of parameters",
        "calls listed in data/absint_known.json as unsupported may be refused; a refused call outside the list is a violation",
    ]

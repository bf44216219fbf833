"""lib/Dialect/Torch/Utils/TorchUpstream.cpp of the tree under test, compiled with stand-ins for the LLVM headers.

`promote(ranks, codes)` does what the compiler does with `torch.promote_dtypes`: the state is
filled as SimplifyDtypeCalculations does (None is a Python scalar, 0 a rank-zero tensor, >0 any
other), the answer is the compiled `result_type`.
"""
import ctypes
import hashlib
import os
import shutil
import subprocess
import tempfile

from .env import REPO, VERIF

FILES = ["lib/Dialect/Torch/Utils/TorchUpstream.cpp", "include/torch-mlir/Dialect/Torch/Utils/TorchUpstream.h"]
STUBS = {
    "mlir/Support/LLVM.h": "#pragma once\n#include <cassert>\n#include <cstdint>\n#include <optional>\n#include <string>\n"
                           "#include <vector>\n#include <array>\n#include <algorithm>\n#include \"llvm/ADT/StringRef.h\"\n"
                           "namespace mlir { using llvm::StringRef; }\n",
    "llvm/ADT/StringRef.h": "#pragma once\n#include <string>\n#include <string_view>\nnamespace llvm {\n"
                            "class StringRef : public std::string_view { public: using std::string_view::string_view;\n"
                            "StringRef(const std::string &s) : std::string_view(s) {}\n"
                            "std::string str() const { return std::string(*this); } }; }\n",
    "llvm/Support/ErrorHandling.h": "#pragma once\n#include <cstdlib>\n#include <stdexcept>\n"
                                    "#define llvm_unreachable(msg) throw std::runtime_error(msg)\n",
}
SHIM = r'''
#include "torch-mlir/Dialect/Torch/Utils/TorchUpstream.h"
#include <exception>
using namespace mlir::torch::torch_upstream;
extern "C" __attribute__((visibility("default"))) int mc_result_type(int dim, int wrapped, int zero) {
  ResultTypeState s{};
  s.dimResult = static_cast<ScalarType>(dim);
  s.wrappedResult = static_cast<ScalarType>(wrapped);
  s.zeroResult = static_cast<ScalarType>(zero);
  return static_cast<int>(result_type(s));
}
extern "C" __attribute__((visibility("default"))) int mc_promote(int a, int b) {
  return static_cast<int>(promote_skip_undefined(static_cast<ScalarType>(a), static_cast<ScalarType>(b)));
}
extern "C" __attribute__((visibility("default"))) int mc_undefined() { return static_cast<int>(ScalarType::Undefined); }
extern "C" __attribute__((visibility("default"))) int mc_loss(const char *s) {
  try { return static_cast<int>(get_loss_reduction_enum(s)); } catch (std::exception &) { return -1; }
}
extern "C" __attribute__((visibility("default"))) int mc_reduction(const char *s) {
  try { return static_cast<int>(get_reduction_enum(s)); } catch (std::exception &) { return -1; }
}
#define X(_1, n) if (!__builtin_strcmp(s, #n)) return static_cast<int>(ScalarType::n);
extern "C" __attribute__((visibility("default"))) int mc_scalar_type(const char *s) {
  AT_FORALL_SCALAR_TYPES_WITH_COMPLEX_AND_QINTS(X)
  return -1;
}
'''


def library(repo=REPO):
    h = hashlib.sha256((SHIM + repr(STUBS)).encode())
    for f in FILES:
        h.update(open(f"{repo}/{f}", "rb").read())
    d = f"{VERIF}/.build/upstream-{h.hexdigest()[:16]}"
    out = d + "/upstream.so"
    if not os.path.exists(out):
        tmp = tempfile.mkdtemp(prefix="up-")
        try:
            for n, t in STUBS.items():
                os.makedirs(os.path.dirname(f"{tmp}/{n}"), exist_ok=True)
                open(f"{tmp}/{n}", "w").write(t)
            open(f"{tmp}/shim.cpp", "w").write(SHIM)
            r = subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-fPIC", "-shared", "-fvisibility=hidden",
                                "-UNDEBUG", f"-I{tmp}", f"-I{repo}/include", "-o", f"{tmp}/upstream.so",
                                f"{tmp}/shim.cpp", f"{repo}/{FILES[0]}"], stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise RuntimeError("cannot compile TorchUpstream.cpp: " + r.stderr[-2000:])
            os.makedirs(d, exist_ok=True)
            shutil.copy(f"{tmp}/upstream.so", f"{out}.{os.getpid()}")
            os.rename(f"{out}.{os.getpid()}", out)
        finally:
            shutil.rmtree(tmp)
    return ctypes.CDLL(out)


class Promotion:
    LONG, FLOAT, DOUBLE = 4, 6, 7

    def __init__(self, repo=REPO):
        self.lib = library(repo)
        self.ud = self.lib.mc_undefined()
        self.memo = {}

    def __call__(self, ranks, codes):
        key = tuple((-1 if r is None else min(r, 1), c) for r, c in zip(ranks, codes))
        if len(ranks) != len(codes) or not key:
            raise ValueError("promote_dtypes: lists of different or no length")
        if key not in self.memo:
            self.memo[key] = self._compute(key)
        r = self.memo[key]
        if isinstance(r, Exception):
            raise r
        return r

    def _compute(self, key):
        dim = wrapped = zero = self.ud
        scalars_only = all(r == -1 for r, _ in key)
        for r, c in key:
            if r == -1:
                if c not in (self.LONG, self.DOUBLE):
                    return ValueError(f"promote_dtypes: scalar of dtype {c}")
                if c == self.DOUBLE and not scalars_only:
                    c = self.FLOAT
                wrapped = self.lib.mc_promote(wrapped, c)
            elif r == 0:
                zero = self.lib.mc_promote(zero, c)
            else:
                dim = self.lib.mc_promote(dim, c)
        return self.lib.mc_result_type(dim, wrapped, zero)

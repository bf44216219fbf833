#!/bin/bash
# Nothing is prebuilt: every check builds what it needs from /repo's working tree.
# This only verifies that the interpreter and its packages are there.
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python -c "import torch, onnx, numpy"

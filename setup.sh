#!/bin/bash
# Nothing to compile: the checks import /repo's working tree directly. Verifies that the tools are there.
cd "$(dirname "$0")" || exit 2
PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore /opt/venv/bin/python -c "import torch, onnx, crypten, vf.core; print('ready')"

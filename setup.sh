#!/bin/bash
# Nothing to build: the checks import /repo's sources directly and Hypothesis from the installed tooling.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
/opt/venv/bin/python -c "import pbt.env, hypothesis; print('hypothesis', hypothesis.__version__, 'stochopy', pbt.env.stochopy.__version__)"

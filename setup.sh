#!/bin/sh
# Nothing is built ahead of the checks (C28 compiles the extension from /repo's tree itself): only make sure the tools are here.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c "
from vf import env, registry
env.setup()
import hypothesis, numpy, scipy
print('ready:', len(registry.load(None)), 'sub-checks, hypothesis', hypothesis.__version__)"

#!/bin/sh
# Nothing to build ahead of time: every check builds wcpl and its library from /repo into scratch.
cd "$(dirname "$0")" || exit 1
/opt/vp/venv/bin/python -c "import wasmtime, vf.core, vf.run; vf.run.registry()" && clang --version >/dev/null && gcc --version >/dev/null

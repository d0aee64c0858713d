#!/bin/bash
# Nothing has to be built ahead: every check builds what it needs from /repo. This only
# confirms that the interpreter, the vendored Hypothesis and a compiler are there.
cd "$(dirname "$0")" || exit 1
chmod +x check
PYTHONPATH="$PWD/vendor:$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import hypothesis, numpy, scipy, torch, skimage, pbt.core" && command -v gcc >/dev/null

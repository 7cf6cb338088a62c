#!/bin/bash
# Builds the native modules of the current tree once (plain and with sanitizers) so that the checks find them cached.
# The checks rebuild on their own whenever the native sources differ from what is cached.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
exec /opt/venv/bin/python - <<'P'
import os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
from ffmon import build
for kind in ("plain", "asan"):
    d = tempfile.mkdtemp(prefix="ffmon-setup-")
    try:
        build.build(os.path.join(d, "lib"), kind)
        print("built", kind)
    finally:
        shutil.rmtree(d, ignore_errors=True)
P

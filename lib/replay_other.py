import os, shutil, subprocess, tempfile
from build import build, toolenv


def replay(kind, a, path):
    tmp = tempfile.mkdtemp(prefix="aobmon-")
    try:
        if kind == "ts":
            import tscheck
            return tscheck.replay(a, tmp)
        if kind == "wasm":
            import wasmcheck
            return wasmcheck.replay(a, tmp)
        import e2echeck
        return e2echeck.replay(a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

"""Child process for C01/memory_safety: runs kernel cases against sanitizer-instrumented kernels."""
import json, os, sys, traceback
from . import core, build

build.install(dict(cython_wrappers=os.environ["VERIF_ASAN_LIB"], ordered_indices=os.environ["VERIF_PLAIN_IDX"]))
import pystatsm.utilities.cython_wrappers as cw      # noqa
assert cw.__file__ == os.environ["VERIF_ASAN_LIB"], cw.__file__
from .props.c01_kernels import P                      # noqa
print("ready", flush=True)
for line in sys.stdin:
    out = dict(status="ok", message="")
    for name, case in json.loads(line):
        try:
            status, msg, _ = core.run_case(P.facets[name], case)
        except Exception as e:
            out = dict(status="error", message="".join(traceback.format_exception(e))[-2000:])
            break
        if status == "violation":
            out = dict(status="violation", message=f"{name}: {msg}")
            break
    print(json.dumps(out), flush=True)

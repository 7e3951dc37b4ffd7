"""One worker process of a check: reads tasks (JSON lines) from stdin, answers on stdout.

python worker.py PROPERTY SEED X64 VERBOSE
"""
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get("RV_REPO", "/repo"))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
answers = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # whatever the code under test prints goes to the log
prop, seed, x64, verbose = sys.argv[1], int(sys.argv[2]), sys.argv[3] == "1", sys.argv[4] == "1"
import jax

jax.config.update("jax_enable_x64", x64)
import jax_cosmo

assert os.path.realpath(jax_cosmo.__file__).startswith(REPO + "/"), jax_cosmo.__file__
import importlib

from rv.core import LibraryRaised, Monitor

mod = importlib.import_module("rv.checks." + prop.lower())


def run(task):
    t0 = time.time()
    m = Monitor(prop, task, seed, verbose)
    err = None
    try:
        mod.KINDS[task["kind"]](m, **task.get("args", {}))
    except LibraryRaised:
        pass  # already recorded as a violation
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inner = [f"{f.filename}:{f.lineno} {f.name}" for f in tb]
        if any(f.filename.startswith(REPO + "/") for f in tb):
            m.observe(
                "code under test raised", False,
                raised="%s: %s" % (type(e).__name__, str(e)[:300]),
                where=[w for w in inner if w.startswith(REPO)][-3:],
            )
        else:
            err = "".join(traceback.format_exception(e))[-3000:]
    r = m.result()
    r["error"] = err
    r["wall"] = time.time() - t0
    return r


for line in sys.stdin:
    answers.write(json.dumps(run(json.loads(line))) + "\n")
    answers.flush()

"""Executes the recorded calls on the real code (child process of pool.py).

Reads pickled jobs on one file descriptor, writes pickled replies on another.
"""
from __future__ import annotations
import os, sys, io, pickle, struct, warnings, logging, traceback


def serve(fin, fout):
    sys.path.insert(0, os.path.join(os.environ.get("GEORINEX_REPO", "/repo"), "src"))
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(1, 2)
    import numpy, pandas, xarray  # noqa
    sys.pycache_prefix = os.environ["VERIF_SCRATCH"] + "/pyc"   # never a stale compiled file of the code under test
    import georinex  # noqa
    root = os.path.join(os.environ.get("GEORINEX_REPO", "/repo"), "src")
    if not os.path.realpath(georinex.__file__).startswith(os.path.realpath(root) + os.sep):
        raise SystemExit("georinex imported from " + georinex.__file__)
    import ops, ops_session, ops_store, ops_head, ops_tools, ops_orbit, ops_threads, ops_plot
    jobs = {n: f for m in (ops, ops_session, ops_store, ops_head, ops_tools, ops_orbit, ops_threads, ops_plot) for n, f in vars(m).items() if callable(f)}
    while True:
        h = fin.read(4)
        if len(h) < 4:
            return
        job = pickle.loads(fin.read(struct.unpack("<I", h)[0]))
        try:
            rep = jobs[job["job"]](job)
        except Exception:
            rep = {"machinery": traceback.format_exc()}
        b = pickle.dumps(rep)
        fout.write(struct.pack("<I", len(b)))
        fout.write(b)
        fout.flush()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    serve(os.fdopen(int(sys.argv[1]), "rb"), os.fdopen(int(sys.argv[2]), "wb"))

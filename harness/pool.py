"""Pool of worker processes, with a time limit for each job."""
from __future__ import annotations
import os, pickle, struct, subprocess, sys, threading, queue, select, time, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)


# nothing the library gives depends on these; the workers differ in them
ENVS = [
    {"TZ": "UTC0", "PYTHONHASHSEED": "0"},
    {"TZ": "EST5EDT,M3.2.0,M11.1.0", "PYTHONHASHSEED": "1"},
    {"TZ": "<+0545>-5:45", "PYTHONHASHSEED": "2", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    {"TZ": "AEST-10AEDT,M10.1.0,M4.1.0/3", "PYTHONHASHSEED": "3"},
]
FORCED = None


class Worker:
    def __init__(self, scratch, env=0):
        self.scratch = scratch
        self.env = ENVS[env]
        self.start()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MPLBACKEND="Agg", VERIF_SCRATCH=self.scratch, **self.env)

        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "worker.py"), str(r1), str(w2)], env=env,
                                  cwd=self.scratch, pass_fds=(r1, w2), stdin=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "wb")
        self.r = r2

    def _read(self, n, deadline):
        b = b""
        while len(b) < n:
            left = deadline - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                raise TimeoutError
            c = os.read(self.r, n - len(b))
            if not c:
                raise EOFError
            b += c
        return b

    def call(self, job, timeout):
        b = pickle.dumps(job)
        self.w.write(struct.pack("<I", len(b)) + b)
        self.w.flush()
        dl = time.time() + timeout
        try:
            n = struct.unpack("<I", self._read(4, dl))[0]
            return pickle.loads(self._read(n, dl))
        except TimeoutError:
            self.stop()
            self.start()
            return {"timeout": True}
        except EOFError:
            code = self.p.wait()
            self.stop()
            self.start()
            return {"died": code}

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
            self.w.close()
        except OSError:
            pass
        os.close(self.r)


def run_jobs(jobs, nworkers=8, timeout=40, budget=None, scratch=None, progress=None):
    """results in the order of jobs; None for jobs not started within the budget (seconds)"""
    jobs = list(jobs)
    res = [None] * len(jobs)
    qs = [queue.Queue() for _ in ENVS]
    for i, j in enumerate(jobs):
        qs[((i * 40503) >> 6) % len(ENVS) if FORCED is None else FORCED].put((i, j))
    t0 = time.time()
    errs = []

    def loop(k):
        try:
            d = os.path.join(scratch, f"w{k}")
            os.makedirs(d, exist_ok=True)
            w = Worker(d, k % len(ENVS))
        except Exception as e:  # machinery
            errs.append(e)
            return
        try:
            while True:
                if budget and time.time() - t0 > budget:
                    return
                try:
                    i, j = qs[k % len(ENVS)].get_nowait()
                except queue.Empty:
                    return
                res[i] = w.call(j, timeout)
                if res[i].get("timeout") or "died" in res[i]:   # once more, in a fresh worker with more time
                    res[i] = w.call(j, 3 * timeout)
        except Exception as e:
            errs.append(e)
        finally:
            w.stop()

    th = [threading.Thread(target=loop, args=(k,)) for k in range(nworkers) if not qs[k % len(ENVS)].empty()]
    for t in th:
        t.start()
    for t in th:
        t.join()
    if errs:
        raise errs[0]
    return res

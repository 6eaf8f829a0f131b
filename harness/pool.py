"""Worker processes that run the code under test."""
import os, json, subprocess, threading, queue, select, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
JOB_TIMEOUT = 400


class Worker:
    def __init__(self, tmp, extra=None):
        self.extra = extra or {}
        r, w = os.pipe()
        env = dict(os.environ)
        env.update(NUMBA_CACHE_DIR=os.path.join(tmp, "nbcache"), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), NUMBA_BOUNDSCHECK="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
        env.update(self.extra)
        env.pop("PYTHONPATH", None)
        self.log = open(os.path.join(tmp, f"worker{os.getpid()}_{threading.get_ident()}.log"), "ab")
        code = f"import os,sys; os.dup2({w},3); os.close({w}) if {w}!=3 else None; sys.argv=['worker.py']; " \
               f"import runpy; runpy.run_path({os.path.join(HERE, 'worker.py')!r}, run_name='__main__')"
        self.p = subprocess.Popen([PY, "-u", "-c", code], stdin=subprocess.PIPE, stdout=self.log, stderr=self.log,
                                  pass_fds=[w], env=env, cwd=tmp, start_new_session=True)
        os.close(w)
        self.r = os.fdopen(r, "rb")
        self.buf = b""
        line = self._line(120)
        if line is None or line.strip() != b"ready":
            self.kill()
            raise StartError(self.tail())

    def _line(self, timeout):
        """next line, None when the worker died, raises TimeoutError"""
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise TimeoutError
            rd, _, _ = select.select([self.r], [], [], left)
            if not rd:
                raise TimeoutError
            chunk = os.read(self.r.fileno(), 1 << 20)
            if not chunk:
                return None
            self.buf += chunk
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def ask(self, job):
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        l = self._line(JOB_TIMEOUT)
        return None if l is None else json.loads(l)

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        self.log.flush()
        try:
            return open(self.log.name, "rb").read()[-2000:].decode(errors="replace")
        except OSError:
            return ""


class StartError(Exception):
    pass


def run_groups(groups, tmp, n=8):
    """groups: list of lists of jobs {"ev","how"}; returns the reply of every job (same structure).
    A worker that dies or hangs yields the outcome "crashed" or "timeout" for the current job."""
    order = sorted(range(len(groups)), key=lambda i: -sum(j.get("cost", 1) for j in groups[i]))
    q = queue.Queue()
    for i in order:
        q.put(i)
    res = [[None] * len(g) for g in groups]
    stop = threading.Event()
    errors = []

    def loop():
        w = None
        try:
            while not stop.is_set():
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                want = groups[i][0].get("env", {})
                if w is not None and w.extra != want:
                    w.kill(); w = None
                for k, job in enumerate(groups[i]):
                    if stop.is_set():
                        break
                    if w is None:
                        try:
                            w = Worker(tmp, want)
                        except StartError as e:
                            # the code under test cannot even be imported: every call fails
                            res[i][k] = {"obs": {"st": "import-failed", "msg": str(e)[-600:]}}
                            stop.set()
                            break
                    try:
                        rep = w.ask({"ev": job["ev"], "how": job.get("how", {}), "first": k == 0})
                    except TimeoutError:
                        rep = {"obs": {"st": "timeout"}}
                        w.kill(); w = None
                        stop.set()
                    else:
                        if rep is None:
                            rep = {"obs": {"st": "crashed", "msg": w.tail()[-600:]}}
                            w.kill(); w = None
                            res[i][k] = rep
                            break   # the rest of the group (session) is lost
                    res[i][k] = rep
                    if "harness_error" in rep:
                        errors.append((job, rep["harness_error"]))
                        stop.set()
                        break
        finally:
            if w is not None:
                w.kill()

    ts = [threading.Thread(target=loop) for _ in range(min(n, len(groups)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise RuntimeError("harness error: " + errors[0][1] + "\njob: " + json.dumps(errors[0][0])[:1500])
    return res

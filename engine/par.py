"""Runs tasks in forked processes with a wall limit each; a process that dies
or overruns yields an error value, never a hang. Every running process holds
one of a fixed number of tokens (file locks, released when the holder ends), so
a task may hand parts of its work to further processes while tokens are free."""
import atexit
import ctypes
import fcntl
import multiprocessing as mp
import multiprocessing.connection as mc
import os
import pickle
import select
import shutil
import signal
import tempfile
import time

CTX = mp.get_context("fork")
LIBC = ctypes.CDLL(None)


def die_with_parent():
    LIBC.prctl(1, signal.SIGKILL)


TOKENS = None


class Tokens:
    def __init__(self, n):
        self.pid = os.getpid()
        self.dir = tempfile.mkdtemp(prefix="verif-tok")
        self.files = [os.path.join(self.dir, str(i)) for i in range(n)]
        for f in self.files:
            open(f, "w").close()
        atexit.register(self.close)

    def close(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)

    def take(self):
        """A descriptor holding a token, or None when all are taken."""
        for f in self.files:
            try:
                fd = os.open(f, os.O_RDWR)
            except OSError:
                return None
            try:
                fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
                return fd
            except OSError:
                os.close(fd)
        return None


def fork_call(fn):
    """Runs fn in a forked process if a token is free: a handle for wait_calls, or None."""
    if TOKENS is None:
        return None
    tok = TOKENS.take()
    if tok is None:
        return None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            die_with_parent()
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    os.close(tok)
    return [pid, r, b""]


def finish_calls(calls, limit=None):
    """Waits for forked calls: [value or None (died or overran)]."""
    out = [None] * len(calls)
    fds = {c[1]: i for i, c in enumerate(calls)}
    end = None if limit is None else time.time() + limit
    while fds:
        t = None if end is None else max(0, end - time.time())
        ready = select.select(list(fds), [], [], t)[0]
        if not ready:
            break
        for fd in ready:
            d = os.read(fd, 1 << 16)
            i = fds[fd]
            if d:
                calls[i][2] += d
                continue
            os.close(fd)
            del fds[fd]
            os.waitpid(calls[i][0], 0)
            if calls[i][2]:
                try:
                    out[i] = pickle.loads(calls[i][2])
                except Exception:
                    pass
    for fd, i in fds.items():
        os.kill(calls[i][0], signal.SIGKILL)
        os.waitpid(calls[i][0], 0)
        os.close(fd)
    return out


def _run(fn, arg, conn):
    os.setpgid(0, 0)
    die_with_parent()
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try:
        conn.send((True, fn(arg)))
    except BaseException as e:  # reported to the parent
        conn.send((False, "%s: %s" % (type(e).__name__, e)))
    conn.close()


class Par:
    def __init__(self, n=None):
        global TOKENS
        self.n = n or min(8, os.cpu_count() or 1)
        if TOKENS is None:
            TOKENS = Tokens(self.n)
        self.queue, self.live = [], {}
        atexit.register(self.killall)
        self.pid = os.getpid()

    def killall(self):
        if os.getpid() == self.pid:
            for key, p, _ in self.live.values():
                self.kill(p)

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()

    def submit(self, key, fn, arg, limit, first=0):
        """Queues a task; tasks with the largest `first` start first."""
        self.queue.append((key, fn, arg, limit, first))
        self.queue.sort(key=lambda x: -x[4])

    def busy(self):
        return bool(self.queue or self.live)

    def collect(self):
        """[(key, ok, value or error text)] of finished tasks (waits for at least one)."""
        out = []
        while self.busy() and not out:
            while self.queue and len(self.live) < self.n:
                tok = TOKENS.take()
                if tok is None:
                    if not self.live:
                        time.sleep(0.02)
                        continue
                    break
                key, fn, arg, limit, _ = self.queue.pop(0)
                a, b = CTX.Pipe(False)
                p = CTX.Process(target=_run, args=(fn, arg, b))
                p.start()
                b.close()
                os.close(tok)
                self.live[a] = (key, p, time.time() + limit)
            for c in mc.wait(list(self.live), 0.05 if self.queue else 0.5):
                key, p, _ = self.live.pop(c)
                try:
                    ok, v = c.recv()
                except EOFError:
                    ok, v = False, "the verifier process died"
                p.join()
                c.close()
                out.append((key, ok, v))
            for c, (key, p, dl) in list(self.live.items()):
                if time.time() > dl:
                    self.kill(p)
                    p.join()
                    del self.live[c]
                    c.close()
                    out.append((key, False, "the verifier ran out of time"))
        return out

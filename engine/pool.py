"""Runs tasks in forked children, at most n at a time.  A server process, forked while this process is
single-threaded, does the forking: one child and one pipe per task, no shared queues or locks, and a child
that overruns its time is killed."""
import gc
import os
import pickle
import selectors
import signal
import struct
import time


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def _write(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Tasks:
    def __init__(self, fn, tasks, n, limit):
        self.r, w = os.pipe()
        self.buf = b""
        self.eof = False
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            try:
                os.setpgid(0, 0)
                _serve(fn, tasks, n, limit, w)
            finally:
                os._exit(0)
        try:
            os.setpgid(self.pid, self.pid)
        except OSError:
            pass
        os.close(w)
        os.set_blocking(self.r, False)

    def poll(self):
        """[(index, result or None)] that came in since the last call"""
        while not self.eof:
            try:
                c = os.read(self.r, 1 << 20)
            except BlockingIOError:
                break
            if not c:
                self.eof = True
                break
            self.buf += c
        out = []
        while len(self.buf) >= 12:
            i, n = struct.unpack("<iq", self.buf[:12])
            if n < 0:
                out.append((i, None))
                self.buf = self.buf[12:]
                continue
            if len(self.buf) < 12 + n:
                break
            out.append((i, pickle.loads(self.buf[12:12 + n])))
            self.buf = self.buf[12 + n:]
        return out

    def kill(self):
        for f in (os.killpg, os.kill):
            try:
                f(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def _serve(fn, tasks, n, limit, w):
    gc.collect()
    gc.freeze()
    sel = selectors.DefaultSelector()
    run = {}
    nxt = 0
    while nxt < len(tasks) or run:
        while nxt < len(tasks) and len(run) < n:
            r, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        b = pickle.dumps(fn(tasks[nxt]))
                    except BaseException as e:
                        b = pickle.dumps(("error", "%s: %s" % (type(e).__name__, e)))
                    _write(cw, b)
                finally:
                    os._exit(0)
            os.close(cw)
            run[r] = [nxt, pid, time.time(), b""]
            sel.register(r, selectors.EVENT_READ)
            nxt += 1
        for key, _ in sel.select(1.0):
            r = key.fd
            c = os.read(r, 1 << 20)
            if c:
                run[r][3] += c
            else:
                _done(sel, run, r, w)
        for r in [r for r, t in run.items() if time.time() - t[2] > limit]:
            try:
                os.kill(run[r][1], signal.SIGKILL)
            except OSError:
                pass
            run[r][3] = b""
            _done(sel, run, r, w)


def _done(sel, run, r, w):
    i, pid, _, b = run.pop(r)
    sel.unregister(r)
    os.close(r)
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass
    try:
        pickle.loads(b)
        _write(w, struct.pack("<iq", i, len(b)) + b)
    except Exception:
        _write(w, struct.pack("<iq", i, -1))

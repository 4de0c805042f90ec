"""
Runs in a fresh process state.

A server process is forked before anything of PyPEEC has run in the worker; every request is run in a
fork of this server, therefore without any history.
"""

import os
import pickle
import signal
import struct
import traceback

from pv.engine import HarnessError


def _send(fd, obj):
    raw = pickle.dumps(obj)
    raw = struct.pack(">Q", len(raw)) + raw
    while raw:
        n = os.write(fd, raw)
        raw = raw[n:]


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, min(1 << 20, n - len(out)))
        if not part:
            raise EOFError
        out += part
    return out


def _recv(fd):
    (n,) = struct.unpack(">Q", _read(fd, 8))
    return pickle.loads(_read(fd, n))


class Server:
    def __init__(self):
        (r1, self.w) = os.pipe()
        (self.r, w1) = os.pipe()
        self.owner = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                self._loop(r1, w1)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w1)
        self.pid = pid

    @staticmethod
    def _loop(r, w):
        import importlib
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        # importing is not a run (importing the dependencies for every request takes seconds)
        for name in ("pypeec.run.mesher", "pypeec.run.solver", "scipy.fft", "scipy.sparse.linalg"):
            importlib.import_module(name)
        while True:
            try:
                (mod, name, args) = _recv(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = (True, getattr(importlib.import_module(mod), name)(*args))
                    except Exception as ex:
                        res = (False, "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc(limit=-4)))
                    _send(w, res)
                finally:
                    os._exit(0)
            (_, status) = os.waitpid(pid, 0)
            if os.WIFSIGNALED(status):
                _send(w, (None, "signal %d" % os.WTERMSIG(status)))

    def run(self, mod, name, *args):
        """(True, result) or (False, error text) of a function run without history."""
        try:
            _send(self.w, (mod, name, args))
            (ok, res) = _recv(self.r)
        except (EOFError, BrokenPipeError) as ex:
            raise HarnessError("server of the fresh runs ended: %r" % ex)
        if ok is None:
            raise HarnessError("fresh run: " + res)
        return ok, res


_SERVER = []


def server():
    if not _SERVER or _SERVER[0].owner != os.getpid():
        del _SERVER[:]
        _SERVER.append(Server())
    return _SERVER[0]

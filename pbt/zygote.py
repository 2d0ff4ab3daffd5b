"""A pristine process, forked before anything ran, that forks a fresh child per request: the 'nothing ran before' baseline."""
import os
import pickle
import struct


class Zygote:
    """fn(request) is run in a fresh child of a process in which the library was imported but never called."""

    def __init__(self, fn):
        self.fn = fn
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    @staticmethod
    def _read(fd, n):
        buf = b""
        while len(buf) < n:
            c = os.read(fd, n - len(buf))
            if not c:
                raise EOFError
            buf += c
        return buf

    @classmethod
    def _recv(cls, fd):
        return cls._read(fd, struct.unpack("<Q", cls._read(fd, 8))[0])

    @staticmethod
    def _send(fd, data):
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(fd, data) :]

    def _serve(self, r, w):
        while True:
            try:
                req = self._recv(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    out = pickle.dumps(("ok", self.fn(pickle.loads(req))))
                except BaseException as e:
                    out = pickle.dumps(("err", f"{type(e).__name__}: {e}"))
                self._send(w, out)
                os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, request):
        self._send(self.w, pickle.dumps(request))
        return pickle.loads(self._recv(self.r))

"""Calls made in a process with no history.

A server process is forked before any call is made; for every request it forks once more, and the child makes the
call and sends back a snapshot of the result. Nothing that earlier calls left behind in a module, a class or a
default argument can reach it.
"""
import os
import pickle
import select
import signal
import struct

WAIT_S = 20


class Server(object):
    def __init__(self, answer):
        """answer: function of the unpickled request, called in the child."""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(w1)
                os.close(r2)
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                _serve(answer, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, request):
        """The answer, or None if there is none (request which cannot be sent, child which died)."""
        if self.w is None:
            return None
        try:
            data = pickle.dumps(request)
        except Exception:
            return None
        try:
            os.write(self.w, struct.pack('<Q', len(data)))
            _write(self.w, data)
            head = _read(self.r, 8)
            data = _read(self.r, struct.unpack('<Q', head)[0])
        except (OSError, EOFError):
            os.close(self.w)
            self.w = None
            return None
        return pickle.loads(data) if data else None


def _write(fd, data):
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def _read(fd, n):
    parts = []
    while n:
        if not select.select([fd], [], [], WAIT_S + 10)[0]:
            raise EOFError
        x = os.read(fd, min(n, 1 << 20))
        if not x:
            raise EOFError
        parts.append(x)
        n -= len(x)
    return b''.join(parts)


def _serve(answer, r, w):
    while True:
        select.select([r], [], [])
        try:
            data = _read(r, struct.unpack('<Q', _read(r, 8))[0])
        except EOFError:
            return
        cr, cw = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(WAIT_S)
                _write(cw, pickle.dumps(answer(pickle.loads(data))))
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(cw)
        out = []
        while True:
            x = os.read(cr, 1 << 20)
            if not x:
                break
            out.append(x)
        os.close(cr)
        os.waitpid(pid, 0)
        out = b''.join(out)
        try:
            pickle.loads(out)
        except Exception:
            out = b''
        _write(w, struct.pack('<Q', len(out)) + out)

"""The process that comes after a simulated one: forked before the run touches the library, it knows nothing but what it is told at the end."""
import json
import os
import struct

from .core import HarnessError, Violation


def _read(fd, n):
    buf = b''
    while len(buf) < n:
        chunk = os.read(fd, n - len(buf))
        if not chunk:
            return None
        buf += chunk
    return buf


def _send(fd, value):
    data = json.dumps(value, ensure_ascii=False).encode('utf-8')
    view = memoryview(struct.pack('>I', len(data)) + data)
    while view:
        view = view[os.write(fd, view):]


def _receive(fd):
    head = _read(fd, 4)
    if head is None:
        return None
    data = _read(fd, struct.unpack('>I', head)[0])
    return None if data is None else json.loads(data.decode('utf-8'))


class Successor:
    def __init__(self, fn):
        """fn(job) runs in the new process and may raise Violation"""
        ask_r, self.ask_w = os.pipe()
        self.tell_r, tell_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.ask_w)
                os.close(self.tell_r)
                job = _receive(ask_r)
                if job is not None:
                    try:
                        fn(job)
                        out = ['ok', None, None]
                    except Violation as e:
                        out = ['violation', e.cls, e.message]
                    except BaseException:
                        import traceback
                        out = ['harness', None, traceback.format_exc()]
                    _send(tell_w, out)
            finally:
                os._exit(0)
        os.close(ask_r)
        os.close(tell_w)

    def ask(self, job):
        _send(self.ask_w, job)
        out = _receive(self.tell_r)
        os.waitpid(self.pid, 0)
        if out is None:
            raise HarnessError('the following process gave no answer')
        if out[0] == 'violation':
            raise Violation(out[1], out[2])
        if out[0] != 'ok':
            raise HarnessError(out[2])

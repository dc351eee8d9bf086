"""Results computed in a process that has never run the package before: a
server forked before the first case runs forks one child per request."""
import os
import pickle
import struct
import traceback

_srv = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def read(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out

    return pickle.loads(read(struct.unpack("<Q", read(8))[0]))


def start():
    """to be called before the package runs in this process"""
    global _srv
    if _srv and _srv[0] == os.getpid():
        return
    a, b = os.pipe(), os.pipe()
    if os.fork() == 0:
        try:
            os.close(a[1])
            os.close(b[0])
            _serve(a[0], b[1])
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    _srv = (os.getpid(), a[1], b[0])


def _serve(i, o):
    while True:
        try:
            fn, args = _recv(i)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    r = ("ok", fn(*args))
                except BaseException as e:
                    r = ("raised", type(e).__name__, str(e)[:300], traceback.format_exc())
                _send(o, r)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def call(fn, *args):
    """fn: a function of an importable module"""
    start()
    _send(_srv[1], (fn, args))
    return _recv(_srv[2])

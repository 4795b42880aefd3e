"""Drives the preloaded library (rv/shim/shim.c): watches, kills at, or fails file-changing calls below a folder."""

import ctypes
import os
import pickle
import signal
import sys
import traceback

OFF, LOG, KILL_BEFORE, KILL_MIDDLE, KILL_AFTER, FAIL = range(6)
KILLS = {'before': KILL_BEFORE, 'middle': KILL_MIDDLE, 'after': KILL_AFTER}
_library = ctypes.CDLL(None)


def available():
    return hasattr(_library, 'rv_arm')


def arm(folder, mode, at=0, error=0, sticky=False, log=''):
    _library.rv_arm(os.fsencode(folder), mode, ctypes.c_long(at), error, int(sticky), os.fsencode(log))


def disarm():
    _library.rv_disarm()


def count():
    _library.rv_count.restype = ctypes.c_long
    return _library.rv_count()


def read_log(path):
    """[(number, operation, path)]"""
    result = []
    if os.path.exists(path):
        with open(path, 'rb') as file:
            for line in file.read().decode('utf-8', 'surrogateescape').splitlines():
                parts = line.split('\t', 2)
                if len(parts) == 3:
                    result.append((int(parts[0]), parts[1], parts[2]))
    return result


class Outcome:
    def __init__(self, status, value, error, trace, events):
        self.killed = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
        self.crashed = os.WIFSIGNALED(status) and not self.killed
        self.value, self.error, self.trace, self.events = value, error, trace, events


def forked(function, folder=None, mode=OFF, at=0, error=0, sticky=False, log=''):
    """Runs the function in a forked child with the library armed. The child ends without any cleanup.

    Returns an Outcome with .killed, .value or .error (type name and text), and the number of watched events."""
    read, write = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        payload = b''
        try:
            os.close(read)
            if folder is not None:
                arm(folder, mode, at, error, sticky, log)
            try:
                payload = pickle.dumps((function(), None, '', count() if folder is not None else 0))
            except BaseException as exception:  # noqa
                payload = pickle.dumps((None, (type(exception).__name__, str(exception)), traceback.format_exc(),
                                        count() if folder is not None else 0))
            disarm()
            with os.fdopen(write, 'wb') as file:
                file.write(payload)
        finally:
            os._exit(0)
    os.close(write)
    with os.fdopen(read, 'rb') as file:
        payload = file.read()
    _, status = os.waitpid(pid, 0)
    value, problem, trace, events = pickle.loads(payload) if payload else (None, None, '', 0)
    return Outcome(status, value, problem, trace, events)

"""Runs the command line in this process with a recording stand-in for the kernel mount."""

import contextlib
import io
import logging
import os
import sys
import tempfile


class Result:
    def __init__(self):
        self.code = None  # What cli() returned
        self.error = None  # or the type and text of what it raised,
        self.exit = None  # or the code of SystemExit.
        self.output = ''
        self.mounts = []  # [(mount point, keyword arguments)] for each FUSE session
        self.value = None  # what the session returned

    @property
    def refused(self):
        """A clean refusal: a message and an error code."""
        return (self.code not in (None, 0)) or (self.exit not in (None, 0))

    def __repr__(self):
        return f"code {self.code}, exit {self.exit}, error {self.error}, {len(self.mounts)} mounts, output {self.output[-800:]!r}"


def run(arguments, session=None, cwd=None, environment=None, stdin=''):
    """session(operations) is called where the kernel would take over; its result is kept."""
    import mfusepy

    from ratarmount.cli import cli

    result = Result()

    def fuse(operations=None, mountpoint=None, *arguments, **options):
        result.mounts.append((mountpoint, dict(options)))
        if session is not None:
            result.value = session(operations)

    saved = dict(os.environ)
    oldFuse, mfusepy.FUSE = mfusepy.FUSE, fuse
    oldCwd = os.getcwd()
    oldStdin, sys.stdin = sys.stdin, io.StringIO(stdin)
    handlers, level = logging.getLogger().handlers[:], logging.getLogger().level
    out = io.StringIO()
    try:
        if cwd:
            os.chdir(cwd)
        os.environ.update(environment or {})
        tempfile.tempdir = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                result.code = cli([str(argument) for argument in arguments])
            except SystemExit as exception:
                result.exit = exception.code if exception.code is not None else 0
            except Exception as exception:
                result.error = (type(exception).__name__, str(exception))
    finally:
        mfusepy.FUSE = oldFuse
        sys.stdin = oldStdin
        os.chdir(oldCwd)
        os.environ.clear()
        os.environ.update(saved)
        tempfile.tempdir = None
        root = logging.getLogger()
        root.handlers[:] = handlers
        root.setLevel(level)
    result.output = out.getvalue()
    return result

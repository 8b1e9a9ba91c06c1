"""Runs the command line scripts on the real code, in this process or in one of
its own, and records what they print and how they end."""
import contextlib
import importlib
import io
import logging
import os
import resource
import subprocess
import sys

from .engine import REPO


class Result:
    def __init__(self, code, out, err, both=None):
        self.code, self.out, self.err, self.both = code, out, err, both


class Tee(io.StringIO):
    def __init__(self, both):
        super().__init__()
        self.both = both

    def write(self, s):
        self.both.append(s)
        return super().write(s)


def _reset():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CPU, (30, 30))


def call(command, args, process=False, cwd=None, limited=False):
    """Result of `xigt command args`; code is 0, or the status of an exit."""
    args = [str(a) for a in args]
    if process:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING='utf-8',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1')
        p = subprocess.run([sys.executable, '-m', 'xigt.main', command] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           cwd=cwd, timeout=60, stdin=subprocess.DEVNULL,
                           preexec_fn=_limit if limited else None)
        return Result(p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8'))
    mod = importlib.import_module('xigt.scripts.xigt_' + command)
    both = []
    out, err = Tee(both), Tee(both)
    code = 0
    _reset()
    old = os.getcwd()
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod.main(args)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if isinstance(e.code, str):      # as the interpreter does
                    err.write(e.code + '\n')
    finally:
        os.chdir(old)
        _reset()
        logging.getLogger().setLevel(logging.CRITICAL)
    return Result(code, out.getvalue(), err.getvalue(), ''.join(both))


def tree(path):
    """Everything below a directory: {relative path: content or None}"""
    r = {}
    for d, ds, fs in os.walk(path):
        for x in ds:
            r[os.path.relpath(os.path.join(d, x), path)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                r[os.path.relpath(p, path)] = f.read()
    return r

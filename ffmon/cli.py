"""Runs the command-line programs, in process or as subprocesses."""
import contextlib
import importlib
import io
import os
import subprocess
import sys
import tempfile
import traceback


def run_cli(argv, stdin=None):
    """
    In-process run of finalfusion.scripts.<argv[0]> with the arguments argv[1:].
    Returns (exit status, stdout, stderr). An uncaught exception is status 1, as in a real run.
    stdin (bytes) replaces file descriptor 0 for programs that read from it.
    """
    mod = importlib.import_module(f"finalfusion.scripts.{argv[0]}")
    out, err = io.StringIO(), io.StringIO()
    old, old_in, saved = sys.argv, sys.stdin, None
    if stdin is not None:
        saved = os.dup(0)
        with tempfile.TemporaryFile() as f:
            f.write(stdin)
            f.flush()
            os.lseek(f.fileno(), 0, os.SEEK_SET)
            os.dup2(f.fileno(), 0)
        sys.stdin = open(0, closefd=False)
    sys.argv = [f"ffp-{argv[0]}"] + [str(a) for a in argv[1:]]
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod.main()
            except SystemExit as e:
                c = e.code
                rc = 0 if c is None else (c if isinstance(c, int) else 1)
            except Exception:
                traceback.print_exc(file=err)
                rc = 1
    finally:
        sys.argv, sys.stdin = old, old_in
        if saved is not None:
            os.dup2(saved, 0)
            os.close(saved)
    return rc, out.getvalue(), err.getvalue()


def sub_cli(argv, stdin=b"", timeout=120):
    """A real run: python -m finalfusion.scripts.<name>."""
    env = dict(os.environ)
    r = subprocess.run([sys.executable, "-m", f"finalfusion.scripts.{argv[0]}"] + [str(a) for a in argv[1:]],
                       input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")

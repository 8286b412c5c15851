"""Runs the subject's command line, in this process or as a child."""

from __future__ import annotations

import contextlib
import io
import logging
import os
import subprocess
import sys
from typing import Dict, List, Optional, Tuple

import subj

PYTHON = sys.executable


def inproc(argv: List[str], cwd: str, stdin: str = "", env: Optional[Dict[str, str]] = None) -> Tuple[int, str, str]:
    """`subsetter ARGV` inside this process: (exit status, stdout, stderr)."""
    import subsetter.__main__ as prog  # pylint: disable=import-outside-toplevel

    out, err = io.StringIO(), io.StringIO()
    saved = sys.argv, sys.stdin, os.getcwd(), dict(os.environ)
    root = logging.getLogger()
    level, handlers = root.level, root.handlers[:]
    names = ["subsetter", "faker"]
    levels = [logging.getLogger(n).level for n in names]
    root.handlers[:] = []
    for name in names:
        logging.getLogger(name).setLevel(logging.NOTSET)
    code = 0
    try:
        os.chdir(cwd)
        os.environ.update(env or {})
        sys.argv = ["subsetter", *argv]
        sys.stdin = io.StringIO(stdin)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                prog.main()
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
    finally:
        sys.argv, sys.stdin = saved[:2]
        os.chdir(saved[2])
        os.environ.clear()
        os.environ.update(saved[3])
        root.handlers[:] = handlers
        root.setLevel(level)
        for name, lvl in zip(names, levels):
            logging.getLogger(name).setLevel(lvl)
        subj.close_all()
    return code, out.getvalue(), err.getvalue()


def child(argv: List[str], cwd: str, stdin: str = "", env: Optional[Dict[str, str]] = None,
          timeout: float = 120) -> Tuple[int, str, str]:
    """`python -m subsetter ARGV` in a process of its own."""
    full_env = {k: v for k, v in os.environ.items() if not k.startswith(("SUBSET_", "PYTHON"))}
    full_env.update(PYTHONPATH=f"{subj.REPO}:{os.path.dirname(os.path.abspath(__file__))}", PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8")
    full_env.update(env or {})
    proc = subprocess.run(
        [PYTHON, "-W", "ignore", "-m", "subsetter", *argv], cwd=cwd, input=stdin, env=full_env,
        capture_output=True, text=True, encoding="utf-8", errors="surrogateescape", timeout=timeout, check=False,
    )
    return proc.returncode, proc.stdout, proc.stderr

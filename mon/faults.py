"""Interruptions injected at chosen points of the Python code of the repository."""
import os
import sys

from .build import REPO

ROOT = os.path.join(REPO, "rankeval") + os.sep


class Interrupt(BaseException):
    """Stands for Ctrl-C: raised where rankeval's own Python code enters a function."""


def interrupted(fn, at):
    """Runs fn(), raising Interrupt at the at-th call (or generator step) of rankeval's Python code.

    Returns (interrupted?, calls seen, result or None); fn's own exceptions propagate.
    """
    state = [0]

    def trace(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(ROOT):
            state[0] += 1
            if state[0] == at:
                raise Interrupt()
        return None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        out = fn()
        return False, state[0], out
    except Interrupt:
        return True, state[0], None
    finally:
        sys.settrace(old)

"""Path exploration: run a harness once per feasible path of the code under test."""
import time
from .core import E, PathDead, EngineError, Timeout


class Path:
    __slots__ = ("lits", "value", "exc")

    def __init__(self, lits, value, exc):
        self.lits, self.value, self.exc = lits, value, exc


def explore(fn, on_path=None, max_paths=None, deadline=None, on_error=None):
    """Depth-first re-execution.  fn() runs the harness with symbolic inputs; every symbolic
    branch consults/extends the decision prefix.  on_path(Path) is called at the end of each
    feasible path while the path condition is still in force.  Returns number of paths."""
    E.fork = True
    E.deadline = deadline
    E.prefix = []
    n = 0
    dead = 0
    while True:
        E.aig.path_reset()
        E.taken = []
        E.pc = 1
        E.uid = 0
        E.defs = {}
        E.divisors = []
        E.printed = []
        E.warned = []
        for h in E.cfg.get("path_hooks", ()):
            h()
        try:
            try:
                v = fn()
                p = Path(list(E.aig.path), v, None)
            except PathDead:
                p = None
                dead += 1
            except EngineError:
                raise
            except RecursionError:
                raise EngineError("recursion limit in engine")
            except Exception as e:
                p = Path(list(E.aig.path), None, e)
            if p is not None:
                n += 1
                E.paths += 1
                if on_path is not None:
                    on_path(p)
        except Timeout:
            raise
        except EngineError as e:
            if on_error is None or not on_error(e):
                raise
        pre = list(E.taken)
        while pre and (pre[-1][1] or pre[-1][0] is False):
            pre.pop()
        if not pre:
            break
        pre[-1] = (False, False)
        E.prefix = pre
        if max_paths is not None and n >= max_paths:
            raise EngineError("more than %d paths" % max_paths)
    E.dead_paths = getattr(E, "dead_paths", 0) + dead
    return n

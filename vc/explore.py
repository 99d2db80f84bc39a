"""Path exploration by re-execution: every boolean the real code needs is decided under the path condition."""
import time

from . import terms as T
from . import solve
from .terms import Unsupported


class Stop(BaseException):
    """Ends the current path (assumption contradicts the path condition)"""


class Budget(Exception):
    pass


class Ctx:
    def __init__(self):
        self.pc = []          # assumptions + decisions of this path
        self.n_assumed = 0
        self.prefix = []      # forced decisions
        self.trace = []       # (bool value, both_feasible)
        self.obligations = [] # (name, Result)
        self.divs = {}
        self.nns = {}
        self.names = []
        self.goals = []


ctx = None


def decide(b):
    b = T.lift_bool(b)
    if b.op == 'true':
        return True
    if b.op == 'false':
        return False
    if ctx is None:
        raise Unsupported('truth value of a symbolic condition outside of an exploration')
    c = ctx
    neg = T.not_(b)
    for p in c.pc:
        if p.key == b.key:
            return True
        if p.key == neg.key:
            return False
    i = len(c.trace)
    if i < len(c.prefix):
        v, both = c.prefix[i]
    else:
        logs = T._div_log, T._nn_log
        T._div_log = T._nn_log = None
        try:
            t_ok = solve.check(c.pc + [b], 800) != 'unsat'
            f_ok = solve.check(c.pc + [neg], 800) != 'unsat'
        finally:
            T._div_log, T._nn_log = logs
        if not t_ok and not f_ok:
            raise Stop()
        v, both = t_ok, t_ok and f_ok
    c.trace.append((v, both))
    c.pc.append(b if v else neg)
    return v


def assume(b):
    b = T.lift_bool(b)
    if b.op == 'true':
        return
    if b.op == 'false':
        raise Stop()
    ctx.pc.append(b)
    ctx.n_assumed += 1


def explore(fn, max_paths=400, deadline=None):
    """Run fn() on every feasible path; yields (ctx, outcome, exception).  Raises Budget when cut short"""
    global ctx
    stack = [[]]
    n = 0
    while stack:
        if n >= max_paths or (deadline and time.time() > deadline):
            raise Budget(f'{n} paths explored, {len(stack)} pending')
        prefix = stack.pop()
        ctx = c = Ctx()
        c.prefix = prefix
        T._div_log, T._nn_log = c.divs, c.nns
        exc = None
        try:
            fn()
        except Stop:
            exc = 'stop'
        except Exception as e:   # noqa: BLE001 - judged by the caller
            exc = e
        finally:
            ctx = None
            T._div_log = T._nn_log = None
        n += 1
        for i in range(len(prefix), len(c.trace)):
            v, both = c.trace[i]
            if both:
                stack.append(c.trace[:i] + [(not v, False)])
        if exc == 'stop':
            continue
        yield c, exc

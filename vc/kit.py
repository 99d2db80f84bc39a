"""The language contracts are written in.  One contract text, two readings:

SymKit   inputs are symbols; every `eq`/`holds` is a proof obligation over all their values
RunKit   inputs are floats; every `eq`/`holds` is evaluated on the real code (replay, search, conformance)
"""
import contextlib
import importlib
import math
import random

import numpy as np

from . import terms as T
from . import explore
from .terms import R


class Skip(BaseException):
    """a precondition does not hold for this input"""


class Failure:
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


def _obj(x):
    """object array (or scalar) of x, whatever it is"""
    if isinstance(x, np.ndarray):
        return x
    return np.asarray(x, dtype=object) if not np.isscalar(x) or isinstance(x, R) else np.asarray(x)


class Base:
    def raises(self, name, fn, exc=(ValueError,)):
        """fn() must raise one of exc"""
        try:
            fn()
        except exc:
            self.note(name, True)
            return
        except (T.Unsupported, Skip, explore.Stop):
            raise
        except Exception as e:     # noqa: BLE001
            self.note(name, False, f'raised {type(e).__name__} instead: {e}')
            return
        self.note(name, False, 'no error was raised')

    def finding(self, name, ok, cls):
        """a claim whose failure is told apart by a class of known findings; it counts as a violation unless listed"""
        self.checked += 1
        if not ok:
            self.found[cls] = name

    def same(self, name, a, b):
        """equality of ordinary python values"""
        self.note(name, a == b, f'got {a!r}, expected {b!r}')

    def mat(self, name, n, m=None, **k):
        return self.arr(name, (n, m or n), **k)

    def dot(self, *ms):
        out = ms[0]
        for m in ms[1:]:
            out = np.matmul(out, m)
        return out


class SymKit(Base):
    symbolic = True

    def __init__(self, cfg=None, tol=1.):
        self.decl = {}
        self.found = {}
        self.goals = []    # (name, kind, payload, n_pc)
        self.checked = 0

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, box=None, special=()):
        self.decl[name] = dict(pos=pos, nonneg=nonneg, lo=lo, hi=hi, box=box, special=special)
        v = T.var(name)
        if pos:
            explore.assume(v > 0)
        if nonneg:
            explore.assume(v >= 0)
        if lo is not None:
            explore.assume(v >= lo)
        if hi is not None:
            explore.assume(v <= hi)
        return v

    def arr(self, name, shape, **k):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(f'{name}[{",".join(map(str, i))}]', **k)
        return a

    def const(self, x):
        return T.R.const(x)

    def sampled(self, name, fn):
        raise T.Unsupported('non numeric random input')

    def assume(self, c):
        explore.assume(c)

    def note(self, name, ok, detail=''):
        self.goals.append((name, 'const', (bool(ok), detail), len(explore.ctx.pc)))

    def eq(self, name, a, b, **_k):
        a, b = _obj(a), _obj(b)
        if a.shape != b.shape:
            self.note(name + ' (shape)', False, f'shape {a.shape}, expected {b.shape}')
            return
        n = len(explore.ctx.pc)
        if a.size == 0:
            self.note(name + ' (empty)', True)
        for i in np.ndindex(*a.shape):
            odd = [isinstance(v, float) and not math.isfinite(v) for v in (a[i], b[i])]
            if any(odd):
                self.note(f'{name}{list(i) if i else ""}', all(odd) and repr(float(a[i])) == repr(float(b[i])), f'{a[i]!r} vs {b[i]!r}')
                continue
            x, y = T.lift(a[i]), T.lift(b[i])
            if x is NotImplemented or y is NotImplemented:
                self.note(f'{name}{list(i)}', a[i] is b[i] or a[i] == b[i], f'{a[i]!r} vs {b[i]!r}')
                continue
            self.goals.append((f'{name}{list(i) if i else ""}', 'eq', (x, y), n))

    def holds(self, name, c):
        if isinstance(c, np.ndarray):
            for i in np.ndindex(*c.shape):
                self.holds(f'{name}{list(i)}', c[i])
            return
        self.goals.append((name, 'bool', T.lift_bool(c), len(explore.ctx.pc)))

    def le(self, name, a, b):
        self.holds(name, T.lift(a) <= T.lift(b))

    @contextlib.contextmanager
    def contracts(self, **repl):
        """module__function=stand-in: callees replaced by their contract (each discharged on its own elsewhere)"""
        undo = []
        for name, f in repl.items():
            mod, fn = name.rsplit('__', 1)
            m = importlib.import_module('moirae.' + mod.replace('__', '.'))
            if hasattr(m, fn):
                undo.append((m, fn, getattr(m, fn)))
                setattr(m, fn, f)
        try:
            yield
        finally:
            for m, fn, f in undo:
                setattr(m, fn, f)

    # spec functions
    def exp(self, x):
        return T.lift(x).exp()

    def sqrt(self, x):
        return T.lift(x).sqrt()

    def abs(self, x):
        return abs(T.lift(x))

    def ite(self, c, a, b):
        return T.ite(c, a, b)

    def decide(self, c):
        """fork the proof on c"""
        return explore.decide(c)

    def and_(self, *c):
        return T.and_(*c)

    def or_(self, *c):
        return T.or_(*c)

    def not_(self, c):
        return T.not_(c)

    def eqb(self, a, b):
        return T.eq(a, b)


class RunKit(Base):
    symbolic = False

    def __init__(self, env=None, seed=0, tol=1., spread=1.):
        self.env = dict(env or {})
        self.used = {}
        self.found = {}
        self.rng = random.Random(seed)
        self.seed = seed
        self.failures = []
        self.checked = 0
        self.tol = tol
        self.spread = spread

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, box=None, special=()):
        if name in self.env:
            v = float(self.env[name])
        else:
            rng = random.Random(f'{self.seed}/{name}')
            blo, bhi = box if box else (0.1 if pos else 0. if nonneg else -3., 3.)
            if lo is not None:
                blo = max(blo, lo)
            if hi is not None:
                bhi = min(bhi, hi)
            v = rng.uniform(blo, bhi)
            if special and rng.random() < 0.3:
                v = float(rng.choice(list(special)))
            elif rng.random() < 0.06:
                v = float(rng.choice([0., 1., blo, bhi, -1., 0.5]))
        if (pos and not v > 0) or (nonneg and v < 0) or (lo is not None and v < lo) or (hi is not None and v > hi):
            if name in self.env:
                raise Skip()
            v = blo if not (pos and blo <= 0) else bhi
        self.used[name] = v
        return v

    def arr(self, name, shape, **k):
        a = np.empty(shape, dtype=float)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(f'{name}[{",".join(map(str, i))}]', **k)
        return a

    def const(self, x):
        return float(x)

    def sampled(self, name, fn):
        return fn(random.Random(f'{self.seed}/{name}'))

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def note(self, name, ok, detail=''):
        self.checked += 1
        if not ok:
            self.failures.append(Failure(name, detail))

    def eq(self, name, a, b, rtol=1e-7, atol=1e-9):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.note(name + ' (shape)', False, f'shape {a.shape}, expected {b.shape}')
            return
        self.checked += max(1, a.size)
        try:
            a = a.astype(float)
            b = b.astype(float)
        except (TypeError, ValueError):
            if not bool(np.all(a == b)):
                self.failures.append(Failure(name, f'{a!r} vs {b!r}'))
            return
        with np.errstate(all='ignore'):
            bad = ~((np.abs(a - b) <= self.tol * (rtol * np.maximum(np.abs(a), np.abs(b)) + atol)) | (np.isnan(a) & np.isnan(b)) | (a == b))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0]) if a.ndim else ()
            self.failures.append(Failure(f'{name}{list(i) if i else ""}', f'got {a[i]!r}, expected {b[i]!r}'))

    def holds(self, name, c):
        self.checked += 1
        if not bool(np.all(c)):
            self.failures.append(Failure(name, 'does not hold'))

    def le(self, name, a, b):
        self.checked += 1
        if not a <= b + self.tol * (1e-9 + 1e-7 * max(abs(a), abs(b))):
            self.failures.append(Failure(name, f'{a!r} > {b!r}'))

    @contextlib.contextmanager
    def contracts(self, **repl):
        yield

    def exp(self, x):
        return math.exp(x) if np.ndim(x) == 0 else np.exp(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def abs(self, x):
        return abs(x)

    def ite(self, c, a, b):
        return a if c else b

    def decide(self, c):
        return bool(c)

    def and_(self, *c):
        return all(c)

    def or_(self, *c):
        return any(c)

    def not_(self, c):
        return not c

    def eqb(self, a, b):
        return a == b

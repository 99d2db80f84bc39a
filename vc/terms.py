"""Term language of the verifier: real-valued terms in a canonical form, boolean terms over them.

A real term is a Laurent polynomial: a finite sum of  coeff * prod(atom_i ^ k_i) * exp(t)  with rational
coefficients and integer (possibly negative) exponents.  Atoms are hash-consed.  A non-monomial denominator p
becomes an atom Pol(p) with a negative exponent; `is_zero` multiplies those back out, so the zero test of
rational functions is exact.  `exp` factors of one monomial are merged (exp(a)exp(b) = exp(a+b)).
"""
from fractions import Fraction
import math

_atoms = {}      # key -> Atom
_atom_list = []  # id -> Atom


class Unsupported(Exception):
    """The construct is outside the reach of the engine (never a verdict about the code)."""


class Atom:
    __slots__ = ('id', 'kind', 'args', 'meta')

    def __init__(self, id_, kind, args, meta):
        self.id, self.kind, self.args, self.meta = id_, kind, args, meta

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, *args, meta=None):
    key = (kind,) + tuple(a.key if isinstance(a, (R, Bool)) else a for a in args)
    a = _atoms.get(key)
    if a is None:
        a = Atom(len(_atom_list), kind, args, meta)
        _atoms[key] = a
        _atom_list.append(a)
    return a


def atom(i):
    return _atom_list[i]


# ---------------------------------------------------------------- monomials
# monomial = (powers, eid)   powers: sorted tuple of (atom id, int power); eid: id of the exp argument (0: none)
ONE = ((), 0)
_exp_ids = {}
_exp_args = [None]


def exp_id(t):
    """Intern the argument of an exponential"""
    if not t.terms:
        return 0
    i = _exp_ids.get(t.key)
    if i is None:
        i = _exp_ids[t.key] = len(_exp_args)
        _exp_args.append(t)
    return i


def exp_arg(i):
    return _exp_args[i]


_esum = {}


def _exp_add(i, j):
    if not i:
        return j
    if not j:
        return i
    k = (i, j) if i < j else (j, i)
    r = _esum.get(k)
    if r is None:
        r = _esum[k] = exp_id(_exp_args[i] + _exp_args[j])
    return r


def _mul_pow(p, q):
    if not p:
        return q
    if not q:
        return p
    d = dict(p)
    for a, k in q:
        k2 = d.get(a, 0) + k
        if k2:
            d[a] = k2
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


_rat = {}


def rational(x):
    """The simplest rational that rounds to the float x: 0.1 is read as 1/10, 1/3600. as 1/3600, 1 - 98/99. as 1/99"""
    x = float(x)
    f = _rat.get(x)
    if f is None:
        f = Fraction(x)
        if f.denominator > 4096:
            g = Fraction(repr(x))
            h = f.limit_denominator(10**7)
            if len(repr(x)) > 14:
                if float(h) == x:
                    g = h
                else:
                    h = f.limit_denominator(10**4)   # what a few operations made of a simple number
                    if abs(h - f) <= abs(f) * Fraction(1, 5 * 10**12):
                        g = h
            f = g
        _rat[x] = f
    return f


class R:
    """Real term.  Immutable."""
    __slots__ = ('terms', 'key', '_h')

    def __init__(self, terms):
        # terms: dict monomial -> Fraction, no zeros
        self.terms = terms
        self.key = ('R', frozenset(terms.items()))
        self._h = hash(self.key)

    # --- constructors
    @staticmethod
    def const(c):
        if isinstance(c, float):
            if not math.isfinite(c):
                raise Unsupported(f'non finite constant {c}')
            c = rational(c)
        c = Fraction(c)
        if c == 0:
            return ZERO
        return R({ONE: c})

    @staticmethod
    def of_atom(a, k=1):
        return R({(((a.id, k),), 0): Fraction(1)})

    # --- inspection
    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and ONE in self.terms)

    def const_val(self):
        if not self.terms:
            return Fraction(0)
        return self.terms[ONE]

    def monos(self):
        return list(self.terms.items())

    def __hash__(self):
        return self._h

    def same(self, o):
        return self.key == o.key

    # --- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not self.terms:
            return o
        if not o.terms:
            return self
        d = dict(self.terms)
        for k, c in o.terms.items():
            if k in d:
                c2 = d[k] + c
                if c2:
                    d[k] = c2
                else:
                    del d[k]
            else:
                d[k] = c
        return R(d)

    __radd__ = __add__

    def __neg__(self):
        return R({k: -c for k, c in self.terms.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if len(self.terms) * len(o.terms) > 60000:
            raise Unsupported('term too large')
        d = {}

        def put(m, c):
            c += d.get(m, 0)
            if c:
                d[m] = c
            else:
                d.pop(m, None)
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m, extra = _reduce((_mul_pow(m1[0], m2[0]), _exp_add(m1[1], m2[1])))
                if extra is None:
                    put(m, c1 * c2)
                else:
                    for mm, c in (R({m: c1 * c2}) * extra).terms.items():
                        put(mm, c)
        return R(d)

    __rmul__ = __mul__

    def inv(self):
        if not self.terms:
            raise ZeroDivisionError('division by the zero term')
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            note_div(R({m: Fraction(1)}))
            m2 = (tuple((a, -k) for a, k in m[0]), exp_id(-exp_arg(m[1])) if m[1] else 0)
            m2, extra = _reduce(m2)
            r = R({m2: 1 / c})
            return r if extra is None else r * extra
        # polynomial denominator: split off the monomial content, make the rest primitive
        mins = None
        for m in self.terms:
            d = dict(m[0])
            if mins is None:
                mins = dict(d)
            else:
                for a in list(mins):
                    mins[a] = min(mins[a], d.get(a, 0))
                for a, k in d.items():
                    if a not in mins:
                        mins[a] = min(0, k)
        mins = tuple(sorted((a, k) for a, k in mins.items() if k))
        p, content = self, None
        if mins:
            content = R({(tuple((a, -k) for a, k in mins), 0): Fraction(1)})
            p = self * content
        lead = p.terms[min(p.terms)]
        p = R({k: c / lead for k, c in p.terms.items()})
        if content is not None:
            note_div(R({(mins, 0): Fraction(1)}))
        note_div(p)
        a = mk_atom('pol', p)
        r = R.of_atom(a, -1) * R.const(1 / lead)
        return r if content is None else r * content

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if o.is_const():
            if not o.terms:
                raise ZeroDivisionError
            return self * R.const(1 / o.const_val())
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, n):
        if isinstance(n, R) and n.is_const():
            n = n.const_val()
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        try:
            import numpy as _np
            if isinstance(n, _np.integer):
                n = int(n)
        except ImportError:
            pass
        if isinstance(n, int):
            if n < 0:
                return self.inv() ** (-n)
            r = R.const(1)
            for _ in range(n):
                r = r * self
            return r
        if n == 0.5:
            return self.sqrt()
        raise Unsupported(f'power {n!r}')

    # --- methods numpy's object ufuncs look up
    def exp(self):
        if not self.terms:
            return R.const(1)
        return R({((), exp_id(self)): Fraction(1)})

    def log(self):
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and not m[0]:
                return exp_arg(m[1]) if m[1] else ZERO
        return R.of_atom(mk_atom('log', self))

    def sqrt(self):
        if self.is_const():
            c = self.const_val()
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return R.const(Fraction(n, d))
        note_nonneg(self)
        return R.of_atom(mk_atom('sqrt', self))

    def __abs__(self):
        if self.is_const():
            return R.const(abs(self.const_val()))
        return ite(self >= 0, self, -self)

    def conjugate(self):
        return self

    def sign(self):
        return ite(self > 0, R.const(1), ite(self < 0, R.const(-1), ZERO))

    def isnan(self):
        return False

    def item(self):
        return self

    @property
    def real(self):
        return self

    def rint(self):
        raise Unsupported('rounding of a symbolic value')

    # --- comparisons give Bool
    def _cmp(self, o, op):
        o = lift(o)
        if o is NotImplemented:
            return o
        return cmp_(op, self - o)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        o = lift(o)
        return o if o is NotImplemented else cmp_('<', o - self)

    def __ge__(self, o):
        o = lift(o)
        return o if o is NotImplemented else cmp_('<=', o - self)

    def __eq__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return False
        return cmp_('=', self - o)

    def __ne__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return True
        return not_(cmp_('=', self - o))

    def __bool__(self):
        return bool(not_(cmp_('=', self)))

    def __float__(self):
        if self.is_const():
            return float(self.const_val())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const() and self.const_val().denominator == 1:
            return int(self.const_val())
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        return self.__int__()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling of a symbolic value')

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        return show(self)


def _reduce(m):
    """Rewrite sqrt(x)^k (|k|>=2) -> x^(k//2) * sqrt(x)^(k%2).  Returns (mono, extra factor or None)"""
    pw = m[0]
    for a, k in pw:
        if (k >= 2 or k <= -2) and atom(a).kind == 'sqrt':
            n = abs(k) // 2
            left = tuple((b, j) for b, j in pw if b != a)
            rem = abs(k) % 2
            if rem:
                left = tuple(sorted(left + ((a, 1 if k > 0 else -1),)))
            x = atom(a).args[0]
            f = x ** n if k > 0 else x.inv() ** n
            return (left, m[1]), f
    return m, None


ZERO = R({})


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, bool):
        return R.const(int(x))
    if isinstance(x, (int, float, Fraction)):
        return R.const(x)
    if isinstance(x, Bool):
        return ite(x, R.const(1), ZERO)
    tn = type(x).__module__
    if tn == 'numpy':
        import numpy as np
        if isinstance(x, np.bool_):
            return R.const(int(x))
        if isinstance(x, np.integer):
            return R.const(int(x))
        if isinstance(x, np.floating):
            return R.const(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype != object:
            return lift(x.item())
    return NotImplemented


def var(name, meta=None):
    return R.of_atom(mk_atom('var', name, meta=meta))


def app(fname, *args):
    """Uninterpreted function application; args may be R or hashable constants"""
    return R.of_atom(mk_atom('app', fname, *args))


# ---------------------------------------------------------------- booleans
class Bool:
    __slots__ = ('op', 'args', 'key', '_h')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.key = ('B', op) + tuple(a.key if isinstance(a, (R, Bool)) else a for a in args)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if isinstance(o, Bool):
            return iff(self, o)
        if isinstance(o, bool):
            return self if o else not_(self)
        return NotImplemented

    def __invert__(self):
        return not_(self)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __bool__(self):
        from . import explore
        return explore.decide(self)

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __rsub__(self, o):
        return o - lift(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def logical_not(self):
        return not_(self)

    def __repr__(self):
        return show_bool(self)


TRUE = Bool('true', ())
FALSE = Bool('false', ())


def lift_bool(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, R):
        return not_(cmp_('=', x))
    return TRUE if bool(x) else FALSE


def cmp_(op, t):
    """t op 0 with op in < <= ="""
    t = _clear_for_sign(t, op == '=')
    if t.is_const():
        c = t.const_val()
        return TRUE if (c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0) else FALSE
    # normalise positive scale
    first = t.terms[min(t.terms)]
    lead = first if op == '=' else abs(first)
    if lead != 1:
        t = R({k: c / lead for k, c in t.terms.items()})
    return Bool(op, (t,))


def _clear_for_sign(t, any_power):
    """Multiply t by (even powers of) its denominators: the sign of t is unchanged"""
    for _ in range(20):
        low = {}
        for m in t.terms:
            for a, k in m[0]:
                if k < 0:
                    low[a] = min(low.get(a, 0), k)
        if not low:
            return t
        if any(atom(a).kind == 'pol' for a in low):
            a = max(a for a in low if atom(a).kind == 'pol')
            K = -low[a] if any_power else -low[a] + low[a] % 2
            p = atom(a).args[0]
            if len(t.terms) * len(p.terms) ** K > 3000:
                return t
            out = ZERO
            for m, c in t.terms.items():
                e = dict(m[0]).get(a, 0) + K
                x = R({(tuple(y for y in m[0] if y[0] != a), m[1]): c})
                out = out + (x * p ** e if e else x)
            t = out
        else:
            mult = tuple(sorted((a, -k if any_power else -k + k % 2) for a, k in low.items()))
            t = t * R({(mult, 0): Fraction(1)})
    return t


def not_(b):
    b = lift_bool(b)
    if b is TRUE or b.op == 'true':
        return FALSE
    if b.op == 'false':
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == '<':
        return Bool('<=', (-b.args[0],))
    if b.op == '<=':
        return Bool('<', (-b.args[0],))
    return Bool('not', (b,))


def and_(*bs):
    out, seen = [], set()
    for b in bs:
        b = lift_bool(b)
        if b.op == 'false':
            return FALSE
        if b.op == 'true':
            continue
        for x in (b.args if b.op == 'and' else (b,)):
            if x.key not in seen:
                seen.add(x.key)
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Bool('and', tuple(out))


def or_(*bs):
    out, seen = [], set()
    for b in bs:
        b = lift_bool(b)
        if b.op == 'true':
            return TRUE
        if b.op == 'false':
            continue
        for x in (b.args if b.op == 'or' else (b,)):
            if x.key not in seen:
                seen.add(x.key)
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Bool('or', tuple(out))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def eq(a, b):
    return cmp_('=', lift(a) - lift(b))


def ite(c, a, b):
    c = lift_bool(c)
    if c.op == 'true':
        return lift(a)
    if c.op == 'false':
        return lift(b)
    a, b = lift(a), lift(b)
    if a.same(b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return R.of_atom(mk_atom('ite', c, a, b))


# ---------------------------------------------------------------- definedness side conditions
_div_log = None   # dict key -> R  (terms that must be non zero)
_nn_log = None


def note_div(p):
    if _div_log is not None:
        _div_log[p.key] = p


def note_nonneg(p):
    if _nn_log is not None:
        _nn_log[p.key] = p


# ---------------------------------------------------------------- traversal / substitution
def atoms_of(t, acc=None):
    """All atoms occurring (deeply) in a real or boolean term"""
    acc = {} if acc is None else acc
    if isinstance(t, Bool):
        for a in t.args:
            if isinstance(a, (R, Bool)):
                atoms_of(a, acc)
        return acc
    for m in t.terms:
        for a, _k in m[0]:
            if a not in acc:
                at = atom(a)
                acc[a] = at
                for x in at.args:
                    if isinstance(x, (R, Bool)):
                        atoms_of(x, acc)
        if m[1]:
            atoms_of(exp_arg(m[1]), acc)
    return acc


def rebuild(t, f):
    """Rebuild term t bottom-up; f(atom, new_args) -> R"""
    cache = {}

    def go_b(b):
        if b.key in cache:
            return cache[b.key]
        if b.op in ('<', '<=', '='):
            r = cmp_(b.op, go(b.args[0]))
        elif b.op == 'not':
            r = not_(go_b(b.args[0]))
        elif b.op == 'and':
            r = and_(*[go_b(x) for x in b.args])
        elif b.op == 'or':
            r = or_(*[go_b(x) for x in b.args])
        else:
            r = b
        cache[b.key] = r
        return r

    def go_a(i):
        k = ('a', i)
        if k not in cache:
            a = atom(i)
            args = [go(x) if isinstance(x, R) else go_b(x) if isinstance(x, Bool) else x for x in a.args]
            cache[k] = f(a, args)
        return cache[k]

    def go(t):
        if t.key in cache:
            return cache[t.key]
        r = ZERO
        for m, c in t.terms.items():
            x = R.const(c)
            for a, k in m[0]:
                x = x * go_a(a) ** k
            if m[1]:
                x = x * go(exp_arg(m[1])).exp()
            r = r + x
        cache[t.key] = r
        return r

    return go_b(t) if isinstance(t, Bool) else go(t)


def default_rebuild(a, args):
    if a.kind == 'var':
        return R.of_atom(a)
    if a.kind == 'pol':
        return args[0]
    if a.kind == 'ite':
        return ite(*args)
    if a.kind == 'sqrt':
        return args[0].sqrt()
    if a.kind == 'log':
        return args[0].log()
    return R.of_atom(mk_atom(a.kind, *args, meta=a.meta))


def resolve_ites(t, truth):
    """Replace ite atoms whose condition has a known truth value (truth: Bool -> True/False/None)"""
    def f(a, args):
        if a.kind == 'ite':
            c = args[0]
            v = truth(c)
            if v is not None:
                return args[1] if v else args[2]
        if a.kind == 'pol':
            p = args[0]
            return p if len(p.terms) <= 1 or p.is_const() else R.of_atom(mk_atom('pol', p))
        return default_rebuild(a, args)
    return rebuild(t, f)


def clear_pols(t):
    """Multiply t by the polynomial denominators (top level): returns a term that is zero iff t is zero
    (given non-zero denominators)"""
    for _ in range(40):
        worst = {}
        for m in t.terms:
            for a, k in m[0]:
                if atom(a).kind == 'pol':
                    worst[a] = min(worst.get(a, 0), k)
        if not worst:
            return t
        a = sorted(worst)[-1]
        p = atom(a).args[0]
        K = -worst[a]
        out = ZERO
        for m, c in t.terms.items():
            k = dict(m[0]).get(a, 0)
            x = R({(tuple(y for y in m[0] if y[0] != a), m[1]): c})
            e = k + K
            out = out + (x * p ** e if e else x)
        t = out
    raise Unsupported('denominators too deep')


def is_zero(t):
    """Exact zero test modulo commutative-ring + exp laws, congruence of atoms with equal arguments"""
    if not t.terms:
        return True
    t = clear_pols(t)
    if not t.terms:
        return True
    t2 = merge_congruent(t)
    return not t2.terms


def merge_congruent(t):
    """Identify atoms (and exp factors) whose arguments are equal although not syntactically so"""
    groups = {}
    for a, at in atoms_of(t).items():
        if at.kind in ('app', 'log', 'sqrt', 'ite'):
            sig = (at.kind, len(at.args)) + tuple(x if not isinstance(x, (R, Bool)) else None for x in at.args)
            groups.setdefault(sig, []).append(at)
    sub = {}
    for ats in groups.values():
        reps = []
        for at in ats:
            for r in reps:
                if all((isinstance(x, R) and is_zero(x - y)) or (not isinstance(x, R) and
                       (x.key == y.key if isinstance(x, Bool) else x == y)) for x, y in zip(at.args, r.args)):
                    sub[at.id] = r
                    break
            else:
                reps.append(at)
    exps = []
    esub = {0: 0}
    for m in t.terms:
        if m[1] not in esub:
            for e in exps:
                if is_zero(exp_arg(e) - exp_arg(m[1])):
                    esub[m[1]] = e
                    break
            else:
                exps.append(m[1])
                esub[m[1]] = m[1]
    out = ZERO
    for m, c in t.terms.items():
        x = R({((), esub[m[1]]): c})
        for a, k in m[0]:
            x = x * R({(((sub[a].id if a in sub else a, k),), 0): Fraction(1)})
        out = out + x
    return out


# ---------------------------------------------------------------- numeric evaluation
def evaluate(t, env, funs=None):
    """Evaluate with floats.  env: var name -> float; funs: app name -> callable(*args)"""
    cache = {}
    funs = funs or {}

    def ev_b(b):
        if b.op == 'true':
            return True
        if b.op == 'false':
            return False
        if b.op == '<':
            return ev(b.args[0]) < 0
        if b.op == '<=':
            return ev(b.args[0]) <= 0
        if b.op == '=':
            return ev(b.args[0]) == 0
        if b.op == 'not':
            return not ev_b(b.args[0])
        if b.op == 'and':
            return all(ev_b(x) for x in b.args)
        if b.op == 'or':
            return any(ev_b(x) for x in b.args)
        raise Unsupported(b.op)

    def ev_a(i):
        if i in cache:
            return cache[i]
        a = atom(i)
        if a.kind == 'var':
            v = env[a.args[0]]
        elif a.kind == 'pol':
            v = ev(a.args[0])
        elif a.kind == 'ite':
            v = ev(a.args[1]) if ev_b(a.args[0]) else ev(a.args[2])
        elif a.kind == 'sqrt':
            v = math.sqrt(ev(a.args[0]))
        elif a.kind == 'log':
            v = math.log(ev(a.args[0]))
        elif a.kind == 'app':
            f = funs.get(a.args[0])
            vals = [ev(x) if isinstance(x, R) else x for x in a.args[1:]]
            if f is None:
                # deterministic pseudo random function of the (rounded) arguments
                h = hash((a.args[0],) + tuple(round(x, 9) if isinstance(x, float) else x for x in vals))
                v = ((h % 1000003) / 1000003.0) * 2 - 1 + 0.1
            else:
                v = f(*vals)
        else:
            raise Unsupported(a.kind)
        cache[i] = v
        return v

    def ev(t):
        s = 0.0
        for m, c in t.terms.items():
            x = float(c)
            for a, k in m[0]:
                x *= ev_a(a) ** k
            if m[1]:
                x *= math.exp(ev(exp_arg(m[1])))
            s += x
        return s

    return ev_b(t) if isinstance(t, Bool) else ev(t)


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == 'var':
        return str(a.args[0])
    if a.kind == 'app':
        return f'{a.args[0]}({", ".join(map(str, a.args[1:]))})'
    return f'{a.kind}({", ".join(map(str, a.args))})'


def show(t, limit=400):
    if not t.terms:
        return '0'
    out = []
    for m, c in sorted(t.terms.items()):
        fs = [show_atom(atom(a)) + (f'^{k}' if k != 1 else '') for a, k in m[0]]
        if m[1]:
            fs.append(f'exp({show(exp_arg(m[1]))})')
        cs = str(c) if c.denominator < 10**6 else repr(float(c))
        if fs and c == 1:
            out.append('*'.join(fs))
        else:
            out.append('*'.join([cs] + fs))
        if sum(map(len, out)) > limit:
            out.append('...')
            break
    return ' + '.join(out)


def show_bool(b):
    if b.op in ('<', '<=', '='):
        return f'({show(b.args[0])} {b.op} 0)'
    return f'{b.op}({", ".join(map(str, b.args))})' if b.args else b.op

"""Back ends: normal form, case splitting, z3, cvc5 (through SMT-LIB)."""
import sys
import time
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

from . import terms as T  # noqa: E402
from .terms import R, Bool, Unsupported  # noqa: E402

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0, 'unknown': 0}


class Trans:
    """Translation of terms to z3; collects the axioms instances needed by the atoms that occur"""

    def __init__(self):
        self.axioms = []
        self.cache = {}
        self.exps = []
        self.vars = {}

    def r(self, t):
        k = t.key
        if k in self.cache:
            return self.cache[k]
        out = []
        for m, c in t.terms.items():
            fs = [] if c == 1 and (m[0] or m[1]) else [z3.RealVal(str(c))]
            for a, p in m[0]:
                x = self.a(a, p < 0)
                fs.extend([x] * abs(p))
            if m[1]:
                fs.append(self.e(m[1]))
            e = fs[0]
            for f in fs[1:]:
                e = e * f
            out.append(e)
        res = z3.RealVal(0) if not out else out[0] if len(out) == 1 else z3.Sum(out)
        self.cache[k] = res
        return res

    def e(self, i):
        k = ('exp', i)
        if k not in self.cache:
            x = z3.Real(f'exp!{i}')
            self.cache[k] = x
            arg = T.exp_arg(i)
            t = self.r(arg)
            self.axioms += [x > 0, z3.Implies(t > 0, x > 1 + t), z3.Implies(t < 0, z3.And(x < 1, x > 1 + t)), z3.Implies(t == 0, x == 1)]
            for (t2, x2, a2) in self.exps:
                if (arg + a2).same(T.ZERO):
                    self.axioms.append(x * x2 == 1)
                self.axioms += [z3.Implies(t < t2, x < x2), z3.Implies(t > t2, x > x2), z3.Implies(t == t2, x == x2)]
            self.exps.append((t, x, arg))
        return self.cache[k]

    def a(self, i, inv):
        k = ('atom', i, inv)
        if k in self.cache:
            return self.cache[k]
        at = T.atom(i)
        if inv:
            x = self.a(i, False)
            y = z3.Real(f'inv!{i}')
            self.cache[k] = y
            self.axioms += [x * y == 1]
            self.axioms += [z3.Implies(x > 0, y > 0), z3.Implies(x < 0, y < 0)]
            return y
        if at.kind == 'var':
            y = self.vars[at.args[0]] = z3.Real(str(at.args[0]))
        elif at.kind == 'pol':
            y = self.r(at.args[0])
        elif at.kind == 'ite':
            y = z3.If(self.b(at.args[0]), self.r(at.args[1]), self.r(at.args[2]))
        elif at.kind == 'sqrt':
            y = z3.Real(f'sqrt!{i}')
            x = self.r(at.args[0])
            self.axioms += [y >= 0, z3.Implies(x >= 0, y * y == x)]
        elif at.kind == 'log':
            y = z3.Real(f'log!{i}')
        elif at.kind == 'app':
            args = [self.r(x) for x in at.args[1:] if isinstance(x, R)]
            const = [x for x in at.args[1:] if not isinstance(x, R)]
            name = '|'.join([str(at.args[0])] + [str(x) for x in const])
            if args:
                f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
                y = f(*args)
            else:
                y = z3.Real(name)
            for c in (at.meta or ()):
                pass
        else:
            raise Unsupported(at.kind)
        self.cache[k] = y
        return y

    def b(self, c):
        k = ('b', c.key)
        if k in self.cache:
            return self.cache[k]
        op = c.op
        if op == 'true':
            y = z3.BoolVal(True)
        elif op == 'false':
            y = z3.BoolVal(False)
        elif op == '<':
            y = self.r(c.args[0]) < 0
        elif op == '<=':
            y = self.r(c.args[0]) <= 0
        elif op == '=':
            y = self.r(c.args[0]) == 0
        elif op == 'not':
            y = z3.Not(self.b(c.args[0]))
        elif op == 'and':
            y = z3.And(*[self.b(x) for x in c.args])
        elif op == 'or':
            y = z3.Or(*[self.b(x) for x in c.args])
        else:
            raise Unsupported(op)
        self.cache[k] = y
        return y


_sat_cache = {}


WORK = 700


class Wall:
    """was an answer missed because of the wall clock?"""
    hit = 0


def _expanded(t):
    """t with the named polynomials it contains multiplied out; denominators cleared by their squares (the sign is kept)"""
    for _ in range(6):
        pols = sorted({a for m in t.terms for a, _ in m[0] if T.atom(a).kind == 'pol'}, reverse=True)
        if not pols:
            return t
        a = pols[0]
        low = min([0] + [k for m in t.terms for b, k in m[0] if b == a])
        up = -low + (low % 2)
        p, powers, out = T.atom(a).args[0], {}, T.ZERO
        for m, c in t.terms.items():
            e = dict(m[0]).get(a, 0) + up
            x = R({(tuple(y for y in m[0] if y[0] != a), m[1]): c})
            if e:
                powers[e] = powers.get(e) or p ** e
                x = x * powers[e]
            out = out + x
            if len(out.terms) > 3000:
                return None
        t = out
    return None


def _signs(conds):
    """atoms that the conditions state to be positive or negative (literally): (atom, strictly, sign)"""
    pos = set()
    for c in conds:
        if c.op in ('<', '<=') and len(c.args[0].terms) == 1:
            (m, k), = c.args[0].terms.items()
            if not m[1] and len(m[0]) == 1 and m[0][0][1] % 2:
                pos.add((m[0][0][0], c.op == '<', 1 if k < 0 else -1))
        elif c.op == 'and':
            pos |= _signs(c.args)
    return pos


def sign_refuted(conds):
    """does a comparison among the conditions fail because every monomial has the same sign?  (sound, incomplete)"""
    pos = _signs(conds)
    strict = {a for a, s, _ in pos if s}
    weak = {a: v for a, _, v in pos}
    for c in conds:
        if c.op not in ('=', '<', '<='):
            continue
        t = c.args[0]
        if len(t.terms) < 2:
            continue
        try:
            t = _expanded(t)
        except Unsupported:
            continue
        if t is None or not t.terms:
            continue
        sign, definite = 0, False
        for m, k in t.terms.items():
            s = 1 if k > 0 else -1
            full = True
            for a, e in m[0]:
                at = T.atom(a)
                if e < 0 and e % 2 == 0:
                    continue                                  # defined, hence not zero
                if e % 2 == 0 or at.kind == 'sqrt' or a in weak:
                    full = full and a in strict
                    if e % 2 and at.kind != 'sqrt':
                        s *= weak[a]
                else:
                    s = None
                    break
            if s is None or (sign and s != sign):
                sign = None
                break
            sign, definite = s, definite or full
        if sign is None:
            continue
        if c.op == '=' and definite or c.op == '<' and sign > 0 or c.op == '<=' and sign > 0 and definite:
            return True
    return False


def check(conds, timeout_ms=2000, want_model=False, seed=1):
    """Satisfiability of a list of Bool: 'sat' / 'unsat' / 'unknown' (, model dict of floats or None)"""
    conds = [c for c in conds if c.op != 'true']
    if any(c.op == 'false' for c in conds):
        return ('unsat', None) if want_model else 'unsat'
    if not conds:
        return ('sat', {}) if want_model else 'sat'
    ck = (frozenset(c.key for c in conds), timeout_ms if want_model else 0, want_model, seed)
    if ck in _sat_cache:
        return _sat_cache[ck]
    if sign_refuted(conds):
        STATS['signs'] = STATS.get('signs', 0) + 1
        res = _sat_cache[ck] = ('unsat', None) if want_model else 'unsat'
        return res
    t0 = time.time()
    tr = Trans()
    s = z3.Solver()
    # bounded by work, so that the answer does not depend on the load of the machine; the wall clock is only a fallback
    s.set('rlimit', timeout_ms * WORK)
    s.set('timeout', timeout_ms * 10)
    s.set('random_seed', seed)
    cs = [tr.b(c) for c in conds]
    for c in tr.axioms:
        s.add(c)
    for c in cs:
        s.add(c)
    r = str(s.check())
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    res = r
    if r == 'unknown':
        STATS['unknown'] += 1
        if time.time() - t0 > timeout_ms * 9e-3:
            Wall.hit += 1
    if want_model:
        m = None
        if r == 'sat':
            mod = s.model()
            m = {n: _val(mod.eval(v, model_completion=True)) for n, v in tr.vars.items()}
        res = (r, m)
    _sat_cache[ck] = res
    return res


def _val(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return _val(v.approx(20))
    return 0.0


def cvc5_unsat(conds, timeout_ms=4000):
    """Second opinion of cvc5 on a query z3 left unknown"""
    t0 = time.time()
    STATS['cvc5_calls'] += 1
    try:
        import cvc5
        tr = Trans()
        s = z3.Solver()
        cs = [tr.b(c) for c in conds]
        s.add(*tr.axioms)
        s.add(*cs)
        smt = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager()
        sol = cvc5.Solver(tm)
        sol.setOption('tlimit-per', str(timeout_ms))
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out += cmd.invoke(sol, sm)
        return 'unsat' in out
    except Exception:
        return False
    finally:
        STATS['cvc5_time'] += time.time() - t0


# ---------------------------------------------------------------- simplification under a path condition
def _eq_subst(pc):
    """var := term substitutions from the linear equalities in pc"""
    sub = {}

    def apply(t):
        return subst_vars(t, sub) if sub else t
    for c in pc:
        if c.op != '=':
            continue
        t = apply(c.args[0])
        for m, k in t.terms.items():
            if m[1] or len(m[0]) != 1 or m[0][0][1] != 1:
                continue
            a = T.atom(m[0][0][0])
            if a.kind not in ('var', 'app', 'log', 'sqrt'):
                continue
            rest = t - R({m: k})
            if a.id in T.atoms_of(rest):
                continue
            val = rest * R.const(Fraction(-1) / k)
            for x in list(sub):
                sub[x] = subst_vars(sub[x], {a.id: val})
            sub[a.id] = val
            break
    return sub


def _forced(pc, d):
    """quantities of d that are not negative and, under pc, not positive either"""
    have, out = T.atoms_of(d), {}
    strict = {a for a, s, _ in _signs(pc) if s}
    for a, s, v in sorted(_signs(pc)):
        if a in have and a not in strict and a not in out and T.atom(a).kind == 'var':
            x = R({(((a, 1),), 0): Fraction(1)})
            if check(pc + [x > 0 if v > 0 else x < 0], 300) == 'unsat':
                out[a] = T.ZERO
    return out


def subst_vars(t, sub):
    def f(a, args):
        if a.id in sub:
            return sub[a.id]
        return T.default_rebuild(a, args)
    return T.rebuild(t, f)


def ite_conds(t):
    """Conditions of the ite atoms in t (innermost first)"""
    out = {}
    for a in T.atoms_of(t).values():
        if a.kind == 'ite':
            c = a.args[0]
            if not any(x.kind == 'ite' for x in T.atoms_of(c).values()):
                for lit in _lits(c):
                    out[lit.key] = lit
    return list(out.values())


def _lits(c):
    if c.op in ('and', 'or', 'not'):
        r = []
        for x in c.args:
            r += _lits(x)
        return r
    return [c]


def assume_lit(t, lit, val):
    """Replace the truth value of a literal inside t"""
    neg = T.not_(lit)

    def fb(b):
        if b.key == lit.key:
            return T.TRUE if val else T.FALSE
        if b.key == neg.key:
            return T.FALSE if val else T.TRUE
        if b.op == 'and':
            return T.and_(*[fb(x) for x in b.args])
        if b.op == 'or':
            return T.or_(*[fb(x) for x in b.args])
        if b.op == 'not':
            return T.not_(fb(b.args[0]))
        return b

    def f(a, args):
        if a.kind == 'ite':
            return T.ite(fb(args[0]), args[1], args[2])
        return T.default_rebuild(a, args)
    return T.rebuild(t, f)


BOX = None        # bounds of the quantities of the contract
ROUNDING = Fraction(1, 10**11)


class Result:
    def __init__(self, ok, backend=None, pc=None, diff=None, why=None):
        self.ok, self.backend, self.pc, self.diff, self.why = ok, backend, pc or [], diff, why


def prove_zero(d, pc, depth=0, budget=None):
    """Is d = 0 under pc?  Result(ok, backend) or a refutation candidate"""
    budget = budget if budget is not None else [4000, time.time() + 60]
    try:
        if T.is_zero(d):
            return Result(True, 'normal form')
    except Unsupported as e:
        return Result(None, why=str(e), pc=pc, diff=d)
    conds = ite_conds(d)
    if conds:
        if time.time() > budget[1]:
            return Result(None, why='wall clock', pc=pc, diff=d)
        if depth > 60 or budget[0] <= 0:
            return Result(None, why='case split budget', pc=pc, diff=d)
        lit = conds[0]
        used = 'normal form + case split'
        for val in (True, False):
            budget[0] -= 1
            c = lit if val else T.not_(lit)
            if check(pc + [c], 500) == 'unsat':
                continue
            r = prove_zero(assume_lit(d, lit, val), pc + [c], depth + 1, budget)
            if not r.ok:
                return r
            if r.backend.startswith(('z3', 'cvc5')):
                used = r.backend
        return Result(True, used)
    sub = _eq_subst(pc)
    if sub:
        try:
            d2 = subst_vars(d, sub)
            if T.is_zero(d2):
                return Result(True, 'normal form')
            if ite_conds(d2):
                return prove_zero(d2, pc, depth + 1, budget)
        except (ZeroDivisionError, Unsupported):
            pass
    forced = _forced(pc, d)
    if forced:
        try:
            d2 = subst_vars(d, forced)
            if T.is_zero(d2):
                return Result(True, 'normal form')
        except (ZeroDivisionError, Unsupported):
            pass
    r = check(pc + [T.not_(T.cmp_('=', d))], 3000)
    if r == 'unsat':
        return Result(True, 'z3')
    if r == 'unknown':
        r = again(pc + [T.not_(T.cmp_('=', d))])
        if r in ('z3', 'cvc5'):
            return Result(True, r)
    if r == 'sat' and BOX is not None:
        # constants that the code computes in floats differ from the exact ones by their rounding: accepted only where the
        # difference stays below it throughout a range of inputs of this path (which must not be empty)
        small = BOX()
        if check(pc + small, 3000) == 'sat' and check(pc + small + [T.or_(d >= ROUNDING, d <= -ROUNDING)], 3000) == 'unsat':
            return Result(True, 'z3, up to rounding of constants')
    return Result(False if r == 'sat' else None, why=r, pc=pc, diff=d)


def again(conds):
    """a query that z3 did not decide at first"""
    if cvc5_unsat(conds):
        return 'cvc5'
    for seed in (2, 3):
        r = check(conds, 6000, seed=seed)
        if r != 'unknown':
            return 'z3' if r == 'unsat' else r
    return 'wall clock' if Wall.hit else 'unknown'


def prove_bool(g, pc, timeout_ms=5000):
    g = T.lift_bool(g)
    if g.op == 'true':
        return Result(True, 'normal form')
    if g.op == '=':
        return prove_zero(g.args[0], pc)
    if g.op == 'and':
        used = 'normal form'
        for x in g.args:
            r = prove_bool(x, pc, timeout_ms)
            if not r.ok:
                return r
            if r.backend != 'normal form':
                used = r.backend
        return Result(True, used)
    neg = T.not_(g)
    r = check(pc + [neg], timeout_ms)
    if r == 'unsat':
        return Result(True, 'z3')
    if r == 'unknown':
        r = again(pc + [neg])
        if r in ('z3', 'cvc5'):
            return Result(True, r)
    return Result(False if r == 'sat' else None, why=r, pc=pc + [neg])

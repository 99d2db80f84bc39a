"""Is the engine sound?  Random programs are run path by path on terms and on floats: at every point exactly one path applies and has the
value of the program; what the back ends prove of random (in)equalities under random conditions is evaluated at random points.

    python -m vc.selftest [number of programs]     (run by setup.sh)"""
import math
import random
import sys
from . import explore, solve, terms as T


class Num:
    """operations on floats with the names of those on terms"""


def leaf(r, names):
    return ('var', r.choice(names)) if r.random() < .7 else ('const', r.choice([0., 1., -1., .5, 2., 3., -.25]))


def expr(r, names, depth):
    if depth == 0:
        return leaf(r, names)
    op = r.choice(['+', '+', '-', '*', '*', '/', 'abs', 'sqrt', 'exp', 'sq', 'max', 'ite', 'if', 'if', 'if', 'neg', 'f', 'sign'])
    n = {'+': 2, '-': 2, '*': 2, '/': 2, 'max': 2}.get(op, 1)
    if op in ('ite', 'if'):
        return (op, cond(r, names, depth - 1), expr(r, names, depth - 1), expr(r, names, depth - 1))
    return (op,) + tuple(expr(r, names, depth - 1) for _ in range(n))


def cond(r, names, depth):
    op = r.choice(['<', '<=', '<', 'and', 'or', 'not', '<'])
    if op in ('and', 'or'):
        return (op, cond(r, names, 0), cond(r, names, 0))
    if op == 'not':
        return (op, cond(r, names, 0))
    return (op, expr(r, names, min(depth, 1)), expr(r, names, min(depth, 1)))


def guard(v):
    """something positive made of any value"""
    return v * v + 1


def ev(e, env, sym):
    op = e[0]
    if op == 'var':
        return env[e[1]]
    if op == 'const':
        return T.lift(e[1]) if sym else e[1]
    if op == 'ite':
        c = evc(e[1], env, sym)
        a, b = ev(e[2], env, sym), ev(e[3], env, sym)
        return T.ite(c, a, b) if sym else (a if c else b)
    if op == 'if':
        return ev(e[2] if bool(evc(e[1], env, sym)) else e[3], env, sym)
    x = [ev(a, env, sym) for a in e[1:]]
    if op == '+':
        return x[0] + x[1]
    if op == '-':
        return x[0] - x[1]
    if op == '*':
        return x[0] * x[1]
    if op == '/':
        return x[0] / guard(x[1])
    if op == 'neg':
        return -x[0]
    if op == 'sq':
        return x[0] * x[0]
    if op == 'abs':
        return abs(x[0])
    if op == 'sqrt':
        v = guard(x[0])
        return v.sqrt() if sym else math.sqrt(v)
    if op == 'exp':
        v = -x[0] / guard(x[0])
        return v.exp() if sym else math.exp(v)
    if op == 'sign':
        return T.lift(x[0]).sign() if sym else float((x[0] > 0) - (x[0] < 0))
    if op == 'max':
        return T.ite(x[0] >= x[1], x[0], x[1]) if sym else max(x)
    if op == 'f':
        return T.app('fun', 'x', x[0]) if sym else fun('x', x[0])
    raise ValueError(op)


def fun(tag, x):
    return math.sin(3 * x) + .5 * x


def evc(c, env, sym):
    op = c[0]
    if op in ('and', 'or'):
        a, b = evc(c[1], env, sym), evc(c[2], env, sym)
        if sym:
            return T.and_(a, b) if op == 'and' else T.or_(a, b)
        return a and b if op == 'and' else a or b
    if op == 'not':
        return T.not_(evc(c[1], env, sym)) if sym else not evc(c[1], env, sym)
    a, b = ev(c[1], env, sym), ev(c[2], env, sym)
    if sym:
        a = T.lift(a)
    return a < b if op == '<' else a <= b


def rewrite(r, e):
    """an expression with the same value"""
    if e[0] in ('var', 'const'):
        return e if r.random() < .7 else ('+', ('-', e, ('const', 2.)), ('const', 2.))
    if e[0] in ('ite', 'if'):
        if r.random() < .5:
            return (e[0], ('not', e[1]), rewrite(r, e[3]), rewrite(r, e[2]))
        return (e[0], e[1], rewrite(r, e[2]), rewrite(r, e[3]))
    k = [rewrite(r, a) for a in e[1:]]
    if e[0] in ('+', '*', 'max') and r.random() < .5:
        k.reverse()
    if e[0] == '-' and r.random() < .5:
        return ('+', k[0], ('neg', k[1]))
    if e[0] == 'sq':
        return ('*', k[0], k[0])
    if e[0] == '*' and r.random() < .3:
        return ('-', ('*', ('+', k[0], ('const', 1.)), k[1]), k[1])
    if e[0] == 'sqrt' and r.random() < .3:
        return ('sqrt', ('neg', k[0]))
    if e[0] == 'abs' and r.random() < .3:
        return ('abs', ('neg', k[0]))
    if e[0] == 'sign' and r.random() < .3:
        return ('neg', ('sign', ('neg', k[0])))
    return (e[0],) + tuple(k)


def mutate(r, e):
    """an expression that usually has another value"""
    if e[0] in ('var', 'const') or r.random() < .25:
        return r.choice([('+', e, ('const', .5)), ('neg', e), ('abs', e), ('*', e, ('const', 2.)), ('max', e, ('const', 0.))])
    i = r.randrange(1 if e[0] not in ('ite', 'if') else 2, len(e))
    return e[:i] + (mutate(r, e[i]),) + e[i + 1:]


NAMES = ('x', 'y', 'z')


def near(c, env):
    """comparisons too close to call for floats"""
    if c.op in ('and', 'or', 'not'):
        return any(near(a, env) for a in c.args)
    if c.op in ('true', 'false'):
        return False
    return abs(T.evaluate(c.args[0], env, {'fun': fun})) < 1e-7


def points(r, n):
    for _ in range(n):
        yield {v: r.choice([0., 1., -1., .5, r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-20, 20)]) for v in NAMES}


def program(seed, stats):
    r = random.Random(seed)
    names = NAMES[:r.choice([1, 2, 3])]
    e, pre = expr(r, names, r.choice([1, 2, 3])), cond(r, names, 1)
    other = rewrite(r, e) if r.random() < .6 else mutate(r, e)
    c = cond(r, names, 1)
    sym = {v: T.var(v) for v in NAMES}
    got = []

    def fn():
        if seed % 2:
            explore.assume(evc(pre, sym, True))
        got.append((ev(e, sym, True), ev(other, sym, True), evc(c, sym, True)))
    paths = []
    try:
        for ctx, exc in explore.explore(fn, 60):
            if exc is not None:
                if isinstance(exc, T.Unsupported):
                    stats['unsupported'] += 1
                    return []
                return [(seed, 'exception', repr(exc))]
            paths.append((list(ctx.pc), got[-1]))
    except explore.Budget:
        stats['cut short'] += 1
        return []
    bad = []
    pts = list(points(r, 60))
    envs = []
    for env in pts:
        try:
            if seed % 2 and not evc(pre, env, False):
                continue
            want = ev(e, env, False), ev(other, env, False), evc(c, env, False)
            if not all(math.isfinite(v) and abs(v) < 1e6 for v in want[:2]):
                continue
            if any(near(b, env) for pc, _ in paths for b in pc):
                continue
        except OverflowError:
            continue
        hits = [v for pc, v in paths if all(T.evaluate(b, env, {'fun': fun}) for b in pc)]
        stats['points'] += 1
        if len(hits) != 1:
            bad.append((seed, f'{len(hits)} of {len(paths)} paths at', env))
            continue
        a, b = (T.evaluate(T.lift(v), env, {'fun': fun}) for v in hits[0][:2])
        if abs(a - want[0]) > 1e-6 * (1 + abs(a)) or abs(b - want[1]) > 1e-6 * (1 + abs(b)):
            bad.append((seed, 'value', env, (a, b), want))
        envs.append((env, want))
    for pc, (a, b, k) in paths:
        d = T.lift(a) - T.lift(b)
        eq, ok = solve.prove_zero(d, pc).ok, solve.prove_bool(T.lift_bool(k), pc, 500).ok
        stats['equalities proved'] += bool(eq)
        stats['conditions proved'] += bool(ok)
        stats['paths'] += 1
        for env, want in envs:
            if not all(T.evaluate(x, env, {'fun': fun}) for x in pc):
                continue
            if eq and abs(want[0] - want[1]) > 1e-6 * (1 + abs(want[0])):
                bad.append((seed, 'equality proved but', env, want))
            if ok and not want[2] and not near(T.lift_bool(k), env):
                bad.append((seed, 'condition proved but', env))
    return bad


def main(n=150, first=0):
    stats = dict.fromkeys(('points', 'paths', 'equalities proved', 'conditions proved', 'unsupported', 'cut short'), 0)
    bad = []
    for seed in range(first, first + n):
        bad += program(seed, stats)
    for b in bad:
        print('UNSOUND', *b)
    print(f'{n} random programs: {stats}, {len(bad)} disagreements')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(*map(int, sys.argv[1:])))

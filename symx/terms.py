"""Hash-consed real-valued terms, numeric snapping and (multi-precision) evaluation.

A term denotes the exact real-arithmetic value of the expression the
implementation computes.  Floating point constants of the implementation are
read as the rational number (or rational multiple of pi) they abbreviate.
"""
import math as _math
from fractions import Fraction

import mpmath

F0 = Fraction(0)
F1 = Fraction(1)
_PI = _math.pi
_raw = {k: getattr(_math, k) for k in dir(_math)}   # captured before patching


POISON = [None]


class Unsupported(Exception):
    """The engine cannot encode this construct; the path is inconclusive.

    The marker survives a handler in the code under test that swallows it."""

    def __init__(self, msg=''):
        Exception.__init__(self, msg)
        POISON[0] = msg


class T:
    __slots__ = ('op', 'args', 'val', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_all = []


def mk(op, args=(), val=None):
    key = (op, val) + tuple(a.id for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.val = val
        t.id = len(_all)
        _all.append(t)
        _table[key] = t
    return t


def reset():
    _table.clear()
    _all.clear()
    global ZERO, ONE, PI
    ZERO = mk('c', (), F0)
    ONE = mk('c', (), F1)
    PI = mk('pi')


reset()

_snap_cache = {}


def snap(x):
    """float -> ('q', Fraction) or ('pi', Fraction): the real it abbreviates."""
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant')
    if x == int(x) and abs(x) < 1e17:
        r = ('q', Fraction(int(x)))
    else:
        rep = repr(x)
        digits = rep.split('e')[0].replace('.', '').replace('-', '').lstrip('0')
        if len(digits) <= 13:
            r = ('q', Fraction(rep))
        else:
            tol = 4.5e-16 * abs(x)
            q = Fraction(x / _PI).limit_denominator(1440)
            if q != 0 and abs(float(q) * _PI - x) <= tol:
                r = ('pi', q)
            elif abs(round(x * _PI)) > 0 and abs(round(x * _PI) / _PI - x) <= tol and abs(x) < 1000:
                r = ('1/pi', Fraction(round(x * _PI)))      # 180/pi, 1/pi ...
            else:
                q = Fraction(x).limit_denominator(50000)
                q1 = Fraction(x).limit_denominator(2000)
                if q != 0 and abs(float(q) - x) <= tol:
                    r = ('q', q)
                elif q1 != 0 and abs(float(q1) - x) <= 3e-15 * abs(x):
                    r = ('q', q1)        # a literal cut to 15 digits
                else:
                    r = ('q', Fraction(rep))
    _snap_cache[x] = r
    return r


def const(q):
    return mk('c', (), q if isinstance(q, Fraction) else Fraction(q))


def lift(x):
    """Python number -> term."""
    if type(x) is T:
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        k, q = snap(float(x))
        return const(q) if k == 'q' else mul(const(q), PI if k == 'pi' else powr(PI, Fraction(-1)))
    if isinstance(x, mpmath.mpf):
        return const(mpf_frac(x))
    tn = type(x)
    if tn.__module__ == 'numpy':
        return lift(x.item())
    raise Unsupported('cannot lift %r' % (tn,))


def mpf_frac(x):
    s, m, e, _ = x._mpf_
    v = Fraction(int(m)) * (Fraction(2) ** e)
    return -v if s else v


def isc(t):
    return t.op == 'c'


def var(name):
    return mk('v', (), name)


def trim(q):
    """Keep rationals small: 60 significant digits."""
    d = q.denominator
    if d.bit_length() > 420 or q.numerator.bit_length() > 640:
        if q == 0:
            return q
        with mpmath.workdps(60):
            v = mpmath.mpf(q.numerator) / mpmath.mpf(q.denominator)
            return mpf_frac(v)
    return q


def add(a, b):
    if a.op == 'c':
        if a.val == 0:
            return b
        if b.op == 'c':
            return const(trim(a.val + b.val))
        a, b = b, a
    if b.op == 'c' and b.val == 0:
        return a
    if b.op == 'c' and a.op == '+' and a.args[1].op == 'c':
        return add(a.args[0], const(trim(a.args[1].val + b.val)))
    if b.op == '*' and b.args[0].op == 'c' and b.args[0].val == -1 and b.args[1] is a:
        return ZERO
    if a.op == '*' and a.args[0].op == 'c' and a.args[0].val == -1 and a.args[1] is b:
        return ZERO
    return mk('+', (a, b))


def mul(a, b):
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if a.val == 0:
            return ZERO
        if a.val == 1:
            return b
        if b.op == 'c':
            return const(trim(a.val * b.val))
        if b.op == '*' and b.args[0].op == 'c':
            return mul(const(trim(a.val * b.args[0].val)), b.args[1])
        return mk('*', (a, b))
    if b.op == '^' and b.val == -1 and b.args[0] is a or a.op == '^' and a.val == -1 and a.args[0] is b:
        return ONE      # the division has already excluded zero
    # pull constants out
    ca = F1
    if a.op == '*' and a.args[0].op == 'c':
        ca = a.args[0].val
        a = a.args[1]
    if b.op == '*' and b.args[0].op == 'c':
        ca = ca * b.args[0].val
        b = b.args[1]
    if ca != 1:
        return mul(const(trim(ca)), mul(a, b))
    return mk('*', (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def powr(a, r):
    """a**r, r a Fraction.  Caller is responsible for the domain."""
    if r == 0:
        return ONE
    if r == 1:
        return a
    if a.op == 'c':
        if r.denominator == 1 and abs(r) <= 64 and (a.val != 0 or r > 0):
            return const(trim(a.val ** int(r)))
        if a.val == 1:
            return ONE
        if a.val == 0 and r > 0:
            return ZERO
    if a.op == '^' and a.val.denominator == 1 and r.denominator == 1:
        return powr(a.args[0], a.val * r)
    return mk('^', (a,), r)


def fn(name, *args):
    return mk('f', tuple(args), name)


def div(a, b):
    return mul(a, powr(b, Fraction(-1)))


def show(t, depth=6):
    if t.op == 'c':
        q = t.val
        return str(q) if q.denominator < 10**6 else repr(float(q))
    if t.op == 'v':
        return t.val
    if t.op == 'pi':
        return 'pi'
    if depth == 0:
        return '..'
    if t.op == '^':
        return '(%s)^(%s)' % (show(t.args[0], depth - 1), t.val)
    if t.op == 'f':
        return '%s(%s)' % (t.val, ', '.join(show(a, depth - 1) for a in t.args))
    return '(' + (' %s ' % t.op).join(show(a, depth - 1) for a in t.args) + ')'


def free_vars(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            acc.add(x.val)
        st.extend(x.args)
    return acc


def subst(t, m):
    """replace variables by terms"""
    memo = {}
    for x in topo([t]):
        if x.op == 'v':
            r = m.get(x.val, x)
        elif x.op in ('c', 'pi'):
            r = x
        else:
            a = [memo[y.id] for y in x.args]
            if x.op == '+':
                r = add(a[0], a[1])
            elif x.op == '*':
                r = mul(a[0], a[1])
            elif x.op == '^':
                r = powr(a[0], x.val)
            else:
                r = fn(x.val, *a)
        memo[x.id] = r
    return memo[t.id]


def topo(ts):
    """Post-order list of the sub-terms of ts."""
    seen = set()
    out = []
    for root in ts:
        st = [(root, False)]
        while st:
            x, done = st.pop()
            if done:
                out.append(x)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            st.append((x, True))
            for a in x.args:
                if a.id not in seen:
                    st.append((a, False))
    return out


def _mp_lambertw(x):
    return mpmath.lambertw(x).real


def _mp_lambertwn(y):
    if y > 0.36787944117144233:
        y = min(y, mpmath.exp(-1)) if y < 0.367879441171443 else y
    return -mpmath.lambertw(-y, -1)


MPFN = {
    'exp': mpmath.exp, 'log': mpmath.log, 'sin': mpmath.sin, 'cos': mpmath.cos,
    'tan': mpmath.tan, 'atan': mpmath.atan, 'asin': mpmath.asin, 'acos': mpmath.acos,
    'tanh': mpmath.tanh, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh,
    'asinh': mpmath.asinh, 'acosh': mpmath.acosh, 'atanh': mpmath.atanh,
    'erf': mpmath.erf, 'erfc': mpmath.erfc, 'gamma': mpmath.gamma, 'lambertw': _mp_lambertw, 'lambertwn': _mp_lambertwn,
    'floor': mpmath.floor, 'abs': abs, 'atan2': mpmath.atan2,
    'ellipe': mpmath.ellipe, 'ellipk': mpmath.ellipk, 'ellipeinc': mpmath.ellipe, 'ellipkinc': mpmath.ellipf,
    'gammaincc_u': lambda a, x: mpmath.gammainc(a, x), 'lgamma': mpmath.loggamma,
    'gammaincc': lambda a, x: mpmath.gammainc(a, x, regularized=True),
}


class EvalError(Exception):
    pass


def evaluate(ts, env, dps=40):
    """Evaluate terms in multi-precision; env: var name -> number."""
    with mpmath.workdps(dps):
        memo = {}
        for t in topo(ts):
            op = t.op
            try:
                if op == 'c':
                    v = mpmath.mpf(t.val.numerator) / t.val.denominator
                elif op == 'v':
                    v = env[t.val]
                    if isinstance(v, Fraction):
                        v = mpmath.mpf(v.numerator) / v.denominator
                    else:
                        v = mpmath.mpf(v)
                elif op == 'pi':
                    v = +mpmath.pi
                elif op == '+':
                    v = memo[t.args[0].id] + memo[t.args[1].id]
                elif op == '*':
                    v = memo[t.args[0].id] * memo[t.args[1].id]
                elif op == '^':
                    b = memo[t.args[0].id]
                    r = t.val
                    if r.denominator == 1:
                        v = b ** int(r)
                    else:
                        if b < 0:
                            raise EvalError('pow domain')
                        if b == 0:
                            if r < 0:
                                raise EvalError('0**neg')
                            v = mpmath.mpf(0)
                        else:
                            v = mpmath.power(b, mpmath.mpf(r.numerator) / r.denominator)
                else:
                    a = [memo[x.id] for x in t.args]
                    v = MPFN[t.val](*a)
                if isinstance(v, mpmath.mpc):
                    if abs(v.imag) > 1e-25 * (1 + abs(v.real)):
                        raise EvalError('complex')
                    v = v.real
                if not mpmath.isfinite(v):
                    raise EvalError('not finite')
            except (ZeroDivisionError, ValueError, OverflowError, KeyError, mpmath.libmp.ComplexResult) as e:
                raise EvalError(str(e))
            memo[t.id] = v
        return [memo[t.id] for t in ts]

"""Outward-rounded interval evaluation of terms over a box."""
import math as _m
from fractions import Fraction
from .terms import topo, _raw

INF = float('inf')
nextafter = _raw['nextafter']
_exp, _log, _sin, _cos, _atan, _tanh, _pow = (_raw[k] for k in ('exp', 'log', 'sin', 'cos', 'atan', 'tanh', 'pow'))
_floor, _ceil = _raw['floor'], _raw['ceil']
_PI = _raw['pi']
TOP = (-INF, INF)


def dn(x, n=1):
    for _ in range(n):
        x = nextafter(x, -INF)
    return x


def up(x, n=1):
    for _ in range(n):
        x = nextafter(x, INF)
    return x


def ffrac(q):
    try:
        f = q.numerator / q.denominator
    except OverflowError:
        return (-INF, -1.7e308) if q < 0 else (1.7e308, INF)
    fq = Fraction(f)
    if fq == q:
        return (f, f)
    return (dn(f), up(f))


def iadd(a, b):
    lo = a[0] + b[0]
    hi = a[1] + b[1]
    return (dn(lo) if lo == lo else -INF, up(hi) if hi == hi else INF)


def _m1(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def imul(a, b):
    ps = (_m1(a[0], b[0]), _m1(a[0], b[1]), _m1(a[1], b[0]), _m1(a[1], b[1]))
    lo, hi = min(ps), max(ps)
    # exact-zero endpoints stay exact only if a factor's endpoint is exactly zero
    lo2 = 0.0 if (lo == 0 and a[0] >= 0 and b[0] >= 0) else dn(lo)
    hi2 = up(hi)
    return (lo2, hi2)


def ipow_nonneg(lo, hi, r):
    """[lo,hi]^r for lo>=0, r>0 float approx of a rational exponent."""
    def p(x, up_):
        if x == 0:
            return 0.0
        if x == INF:
            return INF
        try:
            v = _pow(x, r)
        except OverflowError:
            v = INF
        # libm pow error + exponent rounding |log x| * ulp(r)
        e = 4e-16 * (2 + abs(r * _log(x)) * 2)
        return v * (1 + e) if up_ else v * (1 - e)
    return (max(0.0, p(lo, False)), p(hi, True))


def ipow(a, r):
    lo, hi = a
    if r.denominator == 1:
        n = int(r)
        if n < 0:
            if lo > 0 or hi < 0:
                b = ipow(a, Fraction(-n))
                l2 = 0.0 if b[1] == INF else (1.0 / b[1] if b[1] != 0 else -INF)
                h2 = 1.0 / b[0] if b[0] != 0 else INF
                if b[0] < 0 or b[1] < 0:   # negative
                    l2 = 1.0 / b[1] if b[1] != 0 else -INF
                    h2 = 0.0 if b[0] == -INF else 1.0 / b[0]
                return (dn(l2) if l2 != 0 else 0.0, up(h2) if h2 != 0 else 0.0)
            if lo >= 0 or (n % 2 == 0):
                if n % 2 == 0:
                    m = max(abs(lo), abs(hi))
                else:
                    m = hi
                if m == 0 or m == INF:
                    return (0.0, INF)
                b = ipow((m, m), Fraction(-n))
                return (max(0.0, dn(1.0 / b[1])) if b[1] > 0 else 0.0, INF)
            return TOP
        if n % 2 == 0:
            if lo >= 0:
                return ipow_nonneg(lo, hi, float(n))
            if hi <= 0:
                return ipow_nonneg(-hi, -lo, float(n))
            return (0.0, ipow_nonneg(0.0, max(-lo, hi), float(n))[1])
        l = ipow_nonneg(lo, lo, float(n))[0] if lo >= 0 else -ipow_nonneg(-lo, -lo, float(n))[1]
        h = ipow_nonneg(hi, hi, float(n))[1] if hi >= 0 else -ipow_nonneg(-hi, -hi, float(n))[0]
        return (l, h)
    lo = max(lo, 0.0)
    if hi < 0:
        return (0.0, INF)
    f = float(r)
    if r > 0:
        return ipow_nonneg(lo, hi, f)
    b = ipow_nonneg(lo, hi, -f)
    return (dn(1.0 / b[1]) if b[1] not in (0.0, INF) else 0.0, up(1.0 / b[0]) if b[0] != 0 else INF)


def _mono(f, a, k=4):
    def s(x):
        try:
            return f(x)
        except OverflowError:
            return INF
    l, h = s(a[0]), s(a[1])
    return (dn(l, k) if l not in (INF, -INF) else l, up(h, k) if h not in (INF, -INF) else h)


def iexp(a):
    l, h = _mono(lambda x: 0.0 if x == -INF else (INF if x == INF else _exp(x)), a)
    if a[0] == 0:
        l = 1.0
    if a[1] == 0:
        h = 1.0
    return (max(l, 0.0), h)


def ilog(a):
    if a[1] <= 0:
        return TOP
    l = -INF if a[0] <= 0 else (0.0 if a[0] == 1.0 else dn(_log(a[0]), 4))
    h = INF if a[1] == INF else (0.0 if a[1] == 1.0 else up(_log(a[1]), 4))
    return (l, h)


def isin(a):
    lo, hi = a
    if hi - lo >= 6.28 or abs(lo) > 1e6 or abs(hi) > 1e6 or lo != lo or hi != hi:
        return (-1.0, 1.0)
    l = min(_sin(lo), _sin(hi))
    h = max(_sin(lo), _sin(hi))
    k = _floor((lo - _PI / 2) / (2 * _PI) - 1e-9)
    for j in (k, k + 1, k + 2):
        x = _PI / 2 + 2 * _PI * j
        if lo - 1e-9 <= x <= hi + 1e-9:
            h = 1.0
    k = _floor((lo + _PI / 2) / (2 * _PI) - 1e-9)
    for j in (k, k + 1, k + 2):
        x = -_PI / 2 + 2 * _PI * j
        if lo - 1e-9 <= x <= hi + 1e-9:
            l = -1.0
    return (max(-1.0, l - 1e-15 * (1 + abs(lo) + abs(hi))), min(1.0, h + 1e-15 * (1 + abs(lo) + abs(hi))))


def icos(a):
    hp = _PI / 2
    return isin((dn(a[0] + hp, 2), up(a[1] + hp, 2)))


def itan(a):
    lo, hi = a
    if hi - lo >= 3.14 or abs(lo) > 1e5 or abs(hi) > 1e5:
        return TOP
    k = _floor((lo + _PI / 2) / _PI)
    if hi >= (k + 1) * _PI - _PI / 2 - 1e-9 or lo <= k * _PI - _PI / 2 + 1e-9:
        return TOP
    t = _raw['tan']
    return (t(lo) - 1e-14 * (1 + t(lo) ** 2), t(hi) + 1e-14 * (1 + t(hi) ** 2))


def iasin(a):
    lo, hi = max(a[0], -1.0), min(a[1], 1.0)
    if lo > hi:
        return (-1.6, 1.6)
    s = _raw['asin']
    return (dn(s(lo), 4), up(s(hi), 4))


def iacos(a):
    lo, hi = max(a[0], -1.0), min(a[1], 1.0)
    if lo > hi:
        return (0.0, 3.15)
    s = _raw['acos']
    return (max(0.0, dn(s(hi), 4)), up(s(lo), 4))


def icosh(a):
    c = _raw['cosh']
    def s(x):
        try:
            return c(x)
        except OverflowError:
            return INF
    h = up(max(s(a[0]), s(a[1])), 4)
    l = 1.0 if a[0] <= 0 <= a[1] else dn(min(s(a[0]), s(a[1])), 4)
    return (max(1.0, l), h)


def ilambertw(a):
    def w(x, d):
        if x == INF:
            return INF
        if x < -0.36787944117144233:
            x = -0.36787944117144233
        import mpmath
        try:
            v = float(mpmath.lambertw(x).real)
        except Exception:
            return d * INF
        return v
    l, h = w(a[0], -1), w(a[1], 1)
    return (dn(l, 16) - 1e-300, up(h, 16))


def ilambertwn(a):
    # -W_{-1}(-y), decreasing on (0, 1/e]
    def w(y):
        if y <= 0:
            return INF
        if y >= 0.36787944117144233:
            return 1.0
        import mpmath
        try:
            return float(-mpmath.lambertw(-y, -1).real)
        except Exception:
            return None
    l, h = w(a[1]), w(a[0])
    if l is None or h is None:
        return (1.0, INF)
    return (max(1.0, dn(l, 16)), up(h, 16))


def _erf(a):
    lo, hi = _mono(_raw['erf'], a, 8)
    return max(lo, -1.0), min(hi, 1.0)


def igamma(a):
    if a[0] <= 0:
        return TOP
    g = _raw['gamma']
    hi = max(g(a[0]) if a[0] > 1e-300 else INF, g(a[1]) if a[1] < 170 else INF)
    return (0.8856 if a[0] < 1.4616321449683623 < a[1] else dn(min(g(min(a[0], 170.)), g(min(a[1], 170.))), 16), up(hi, 16))


FN = {
    'gamma': igamma,
    'exp': iexp, 'log': ilog, 'sin': isin, 'cos': icos, 'tan': itan,
    'atan': lambda a: _mono(_atan, a), 'asin': iasin, 'acos': iacos,
    'tanh': lambda a: _mono(_tanh, a),
    'sinh': lambda a: _mono(_raw['sinh'], a) if abs(a[0]) < 700 and abs(a[1]) < 700 else TOP,
    'cosh': icosh, 'asinh': lambda a: _mono(_raw['asinh'], a) if a[0] > -INF and a[1] < INF else TOP,
    'acosh': lambda a: (0.0, INF) if a[0] < 1 or a[1] == INF else _mono(_raw['acosh'], a),
    'erf': _erf,
    'erfc': lambda a: (0.0 if a[1] == INF else max(0.0, dn(_raw['erfc'](a[1]), 8)), 2.0 if a[0] == -INF else up(_raw['erfc'](a[0]), 8)),
    'lambertw': ilambertw, 'lambertwn': ilambertwn,
    'floor': lambda a: (a[0] if a[0] == -INF else float(_floor(a[0])), a[1] if a[1] == INF else float(_floor(a[1]))),
    'abs': lambda a: (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])), max(abs(a[0]), abs(a[1]))),
}
def igammaincc(a, x):
    """regularised upper incomplete gamma function: rises with a, falls with x"""
    if not (a[0] > 0 and x[0] >= 0):
        return (0.0, 1.0) if a[0] > 0 else TOP
    from scipy.special import gammaincc
    lo = 0.0 if x[1] == INF else float(gammaincc(a[0], x[1])) * (1 - 1e-9)
    hi = 1.0 if a[1] == INF else float(gammaincc(a[1], x[0]))
    p = 0.0 if hi < 0.5 else max(1 - hi, 0.0)      # keep it strictly below 1
    from scipy.special import gammainc
    if a[1] != INF and hi >= 0.5:
        p = float(gammainc(a[1], x[0])) * (1 - 1e-9)
        hi = up(1 - p) if p > 1e-15 else 1.0
    else:
        hi = min(1.0, hi * (1 + 1e-9))
    return (max(lo, 0.0), hi)


PI_I = (3.141592653589793, up(3.141592653589793))


def ieval(t, env, memo):
    """Interval of t; env: var name -> (lo, hi); memo: dict id -> interval."""
    r = memo.get(t.id)
    if r is not None:
        return r
    for x in topo_m(t, memo):
        op = x.op
        if op == 'c':
            v = ffrac(x.val)
        elif op == 'v':
            v = env.get(x.val, TOP)
        elif op == 'pi':
            v = PI_I
        elif op == '+':
            v = iadd(memo[x.args[0].id], memo[x.args[1].id])
        elif op == '*':
            if x.args[0] is x.args[1]:
                v = ipow(memo[x.args[0].id], Fraction(2))
            else:
                v = imul(memo[x.args[0].id], memo[x.args[1].id])
        elif op == '^':
            v = ipow(memo[x.args[0].id], x.val)
        else:
            f = FN.get(x.val)
            if x.val == 'gammaincc':
                v = igammaincc(memo[x.args[0].id], memo[x.args[1].id])
            elif f is None or len(x.args) != 1:
                v = TOP
            else:
                v = f(memo[x.args[0].id])
        if v[0] != v[0] or v[1] != v[1]:
            v = (-INF if v[0] != v[0] else v[0], INF if v[1] != v[1] else v[1])
        memo[x.id] = v
    return memo[t.id]


def topo_m(t, memo):
    seen = set()
    out = []
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if done:
            out.append(x)
            continue
        if x.id in seen or x.id in memo:
            continue
        seen.add(x.id)
        st.append((x, True))
        for a in x.args:
            if a.id not in memo:
                st.append((a, False))
    return out

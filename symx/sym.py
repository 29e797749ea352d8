"""Symbolic real proxy objects that flow through the real implementation."""
import math as _math
import numbers
from fractions import Fraction

from . import terms as tm
from .terms import T, lift, Unsupported

_raw = tm._raw
ENG = None          # current engine (symbolic run) or None

INF = float('inf')


def set_engine(e):
    global ENG
    ENG = e


class SymBool:
    """Lazy comparison t REL 0; forks when its truth value is asked for."""
    __slots__ = ('t', 'rel', 'neg')

    def __init__(self, t, rel, neg=False):
        self.t, self.rel, self.neg = t, rel, neg

    def __bool__(self):
        r = ENG.decide(self.t, self.rel)
        return r ^ self.neg

    def __invert__(self):
        return SymBool(self.t, self.rel, not self.neg)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    def __rand__(self, o):
        return bool(o) and bool(self)

    def __ror__(self, o):
        return bool(o) or bool(self)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%r %s 0)' % (self.t, self.rel)


def _isnum(o):
    return isinstance(o, (int, float, Fraction)) or (hasattr(o, '_mpf_')) or (
        type(o).__module__ == 'numpy' and getattr(o, 'ndim', 1) == 0 and hasattr(o, 'item'))


def _spec(o):
    """float inf / nan?"""
    return isinstance(o, float) and (o != o or o in (INF, -INF))


def mkbool(t, rel):
    if t.op == 'c':
        v = t.val
        return v < 0 if rel == '<' else (v <= 0 if rel == '<=' else v == 0)
    return SymBool(t, rel)


class Sym:
    __slots__ = ('t',)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # -- arithmetic ----------------------------------------------------
    def _bin(self, o, f, opname):
        if type(o) is Sym:
            return wrap(f(self.t, o.t))
        if type(o) is SymBool:
            return wrap(f(self.t, lift(int(bool(o)))))
        if _isnum(o):
            if _spec(o):
                return self._spec_arith(o, opname)
            return wrap(f(self.t, lift(o)))
        if type(o).__name__ == 'ndarray':
            import numpy as np
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = self._bin(o[i], f, opname)
            return out
        return NotImplemented

    def _spec_arith(self, o, opname):
        if o != o:
            return o
        if opname in ('add', 'radd', 'rsub'):
            return o
        if opname == 'sub':
            return -o
        if opname in ('mul', 'rmul'):
            if self > 0:
                return o
            if self < 0:
                return -o
            return o * 0.0
        raise Unsupported('non-finite arithmetic')

    def __add__(self, o):
        return self._bin(o, tm.add, 'add')

    def __radd__(self, o):
        return self._bin(o, lambda a, b: tm.add(b, a), 'radd')

    def __sub__(self, o):
        return self._bin(o, tm.sub, 'sub')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: tm.sub(b, a), 'rsub')

    def __mul__(self, o):
        return self._bin(o, tm.mul, 'mul')

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: tm.mul(b, a), 'rmul')

    def __truediv__(self, o):
        if type(o) is Sym or type(o) is SymBool:
            o = wrap(lift(int(bool(o)))) if type(o) is SymBool else o
            if type(o) is Sym:
                if ENG.domain(o.t, '=='):
                    raise ZeroDivisionError('float division by zero')
                return wrap(tm.div(self.t, o.t))
        if _isnum(o):
            if _spec(o):
                return 0.0 if o == o else o
            if o == 0:
                raise ZeroDivisionError('float division by zero')
            return wrap(tm.div(self.t, lift(o)))
        return self._bin(o, tm.div, 'div')

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        if ENG.domain(self.t, '=='):
            raise ZeroDivisionError('float division by zero')
        if _spec(o):
            return o if self > 0 else -o
        return wrap(tm.div(lift(o), self.t))

    def __neg__(self):
        return wrap(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        if ENG.decide(self.t, '<'):
            return wrap(tm.neg(self.t))
        return self

    def __pow__(self, o, mod=None):
        return spow(self, o, False)

    def __rpow__(self, o):
        return spow(o, self, False)

    def __floordiv__(self, o):
        return sfloor(self / o)

    def __rfloordiv__(self, o):
        return sfloor(o / self)

    def __mod__(self, o):
        return self - sfloor(self / o) * o

    def __rmod__(self, o):
        return o - sfloor(o / self) * self

    def __divmod__(self, o):
        q = sfloor(self / o)
        return q, self - q * o

    # -- comparison ----------------------------------------------------
    def _cmp(self, o, rel, flip):
        """self REL o (flip: o REL self)"""
        if type(o) is Sym:
            a, b = self.t, o.t
        elif type(o) is SymBool:
            a, b = self.t, lift(int(bool(o)))
        elif _isnum(o):
            if _spec(o):
                if o != o:
                    return False
                if rel == '==':
                    return False
                return (o > 0) ^ flip
            a, b = self.t, lift(o)
        else:
            return None
        if flip:
            a, b = b, a
        return mkbool(tm.sub(a, b), rel)

    def __lt__(self, o):
        r = self._cmp(o, '<', False)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, '<=', False)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, '<', True)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, '<=', True)
        return NotImplemented if r is None else r

    def __eq__(self, o):
        r = self._cmp(o, '==', False)
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, '==', False)
        if r is None:
            return True
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 0

    def __bool__(self):
        return not ENG.decide(self.t, '==')

    # -- conversions ---------------------------------------------------
    def __float__(self):
        raise Unsupported('float() of a symbolic value in C code')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        return strunc(self)

    def __index__(self):
        return strunc(self)

    def __trunc__(self):
        return strunc(self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __round__(self, n=None):
        if n is not None:
            # round to digits: kept as floor(x 10^n + 1/2) / 10^n (ties differ on a null set)
            p = Fraction(10)**n
            return wrap(tm.fn('floor', (self * p + Fraction(1, 2)).t)) / p
        return sfloor(self + Fraction(1, 2))

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<sym %s>' % tm.show(self.t, 4)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        raise Unsupported('is_integer')

    def __reduce__(self):
        raise Unsupported('pickle')


def wrap(t):
    """Term -> Python value (constants stay symbolic objects only if needed)."""
    if t.op == 'c':
        q = t.val
        if q.denominator == 1:
            i = int(q)
            if abs(i) < 2**53:
                return float(i)
    return Sym(t)


def sfloor(x):
    """floor of a symbolic value as a concrete int (forks over the possible values)."""
    if type(x) is not Sym:
        return _raw['floor'](x)
    return ENG.concretize_floor(x.t)


def strunc(x):
    if x.t.op == 'c':
        return int(x.t.val)
    if ENG.decide(x.t, '<'):
        return -sfloor(-x)
    return sfloor(x)


def spow(a, b, is_mathpow):
    """a ** b with Python float semantics."""
    dom = ValueError if is_mathpow else ZeroDivisionError
    if not (type(b) is Sym):
        if type(b) is SymBool:
            b = int(bool(b))
        if not _isnum(b):
            return NotImplemented
        if _spec(b):
            raise Unsupported('non-finite exponent')
        k, q = ('q', Fraction(b)) if isinstance(b, (int, Fraction)) else tm.snap(float(b)) if not hasattr(b, '_mpf_') else ('q', tm.mpf_frac(b))
        if k == 'q':
            if q == 0:
                return 1.0
            at = a.t
            if q.denominator == 1:
                if q < 0 and ENG.domain(at, '=='):
                    raise dom('0.0 cannot be raised to a negative power')
                return wrap(tm.powr(at, q))
            if ENG.domain(at, '<'):
                if is_mathpow:
                    raise ValueError('math domain error')
                raise Unsupported('complex power')
            if q < 0 and ENG.domain(at, '=='):
                raise dom('0.0 cannot be raised to a negative power')
            return wrap(tm.powr(at, q))
        b = Sym(lift(b))
    if type(a) is Sym:
        at = a.t
    elif _isnum(a):
        if _spec(a):
            raise Unsupported('non-finite base')
        at = lift(a)
    else:
        return NotImplemented
    bt = b.t
    if bt.op == 'c':
        return spow(Sym(at), bt.val, is_mathpow)
    if ENG.domain(at, '<'):
        raise Unsupported('negative base with symbolic exponent')
    if ENG.decide(at, '=='):
        if ENG.decide(bt, '=='):
            return 1.0
        if ENG.domain(bt, '<'):
            raise dom('0.0 cannot be raised to a negative power')
        return 0.0
    if at.op == 'c' and at.val == 1:
        return 1.0
    return wrap(tm.fn('exp', tm.mul(bt, tm.fn('log', at))))


# ---------------------------------------------------------------- math functions
def _t(x):
    return x.t if type(x) is Sym else lift(x)


def s_sqrt(x):
    if ENG.domain(x.t, '<'):
        raise ValueError('math domain error')
    return wrap(tm.powr(x.t, Fraction(1, 2)))


def s_cbrt(x):
    if ENG.decide(x.t, '<'):
        return wrap(tm.neg(tm.powr(tm.neg(x.t), Fraction(1, 3))))
    return wrap(tm.powr(x.t, Fraction(1, 3)))


def s_exp(x):
    return wrap(tm.fn('exp', x.t))


def s_expm1(x):
    return wrap(tm.sub(tm.fn('exp', x.t), tm.ONE))


def _logt(t):
    if ENG.domain(t, '<='):
        raise ValueError('math domain error')
    if t.op == 'c' and t.val == 1:
        return tm.ZERO
    return tm.fn('log', t)


def s_log(x, base=None):
    if base is None:
        return wrap(_logt(_t(x)))
    return wrap(tm.div(_logt(_t(x)), _logt(_t(base))))


LOG10 = None


def s_log10(x):
    return wrap(tm.div(_logt(x.t), tm.fn('log', tm.const(10))))


def s_log2(x):
    return wrap(tm.div(_logt(x.t), tm.fn('log', tm.const(2))))


def s_log1p(x):
    return wrap(_logt(tm.add(x.t, tm.ONE)))


def _plain(name):
    def f(x):
        return wrap(tm.fn(name, x.t))
    return f


def _unit_domain(name):
    def f(x):
        if ENG.decide(tm.sub(x.t, tm.ONE), '<=') and ENG.decide(tm.sub(tm.const(-1), x.t), '<='):
            return wrap(tm.fn(name, x.t))
        raise ValueError('math domain error')
    return f


def s_acosh(x):
    if ENG.domain(tm.sub(x.t, tm.ONE), '<'):
        raise ValueError('math domain error')
    return wrap(tm.fn('acosh', x.t))


def s_atanh(x):
    if abs(x) >= 1:
        raise ValueError('math domain error')
    return wrap(tm.fn('atanh', x.t))


def s_pow(a, b):
    if not (type(a) is Sym or type(b) is Sym):
        return _raw['pow'](a, b)
    return spow(a, b, True)


def s_atan2(y, x):
    y_, x_ = Sym(_t(y)), Sym(_t(x))
    if x_ > 0:
        return wrap(tm.fn('atan', tm.div(y_.t, x_.t)))
    if x_ == 0:
        if y_ > 0:
            return wrap(tm.mul(tm.const(Fraction(1, 2)), tm.PI))
        if y_ == 0:
            return 0.0
        return wrap(tm.mul(tm.const(Fraction(-1, 2)), tm.PI))
    if y_ >= 0:
        return wrap(tm.add(tm.fn('atan', tm.div(y_.t, x_.t)), tm.PI))
    return wrap(tm.sub(tm.fn('atan', tm.div(y_.t, x_.t)), tm.PI))


def s_hypot(*a):
    s = tm.ZERO
    for x in a:
        s = tm.add(s, tm.powr(_t(x), Fraction(2)))
    return wrap(tm.powr(s, Fraction(1, 2)))


def s_copysign(a, b):
    m = abs(a)
    if type(b) is Sym:
        return -m if b < 0 else m
    return m if _raw['copysign'](1.0, b) > 0 else -m


def s_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if _isnum(a) and _spec(a) or _isnum(b) and _spec(b):
        return False
    d = abs(a - b)
    return bool(d <= rel_tol * abs(b)) or bool(d <= rel_tol * abs(a)) or bool(d <= abs_tol)


def s_degrees(x):
    return x * Fraction(180) / Sym(tm.PI)


def s_radians(x):
    return x * Sym(tm.PI) / Fraction(180)


def saturated(name):
    """erf and erfc are exactly 1, -1, 2 or 0 in double precision far from 0"""
    f = _plain(name)

    def g(x):
        if ENG is not None:
            lo, hi = ENG.ival(x.t)
            if lo > 27.3:
                return 1.0 if name == 'erf' else 0.0
            if name == 'erf' and lo > 6:
                return 1.0
            if hi < -6:
                return -1.0 if name == 'erf' else 2.0
        return f(x)
    return g


SYMFN = {
    'sqrt': s_sqrt, 'cbrt': s_cbrt, 'exp': s_exp, 'expm1': s_expm1, 'log': s_log, 'log10': s_log10,
    'log2': s_log2, 'log1p': s_log1p, 'sin': _plain('sin'), 'cos': _plain('cos'), 'tan': _plain('tan'),
    'atan': _plain('atan'), 'asin': _unit_domain('asin'), 'acos': _unit_domain('acos'),
    'sinh': _plain('sinh'), 'cosh': _plain('cosh'), 'tanh': _plain('tanh'), 'asinh': _plain('asinh'),
    'acosh': s_acosh, 'atanh': s_atanh, 'erf': saturated('erf'), 'erfc': saturated('erfc'), 'gamma': _plain('gamma'),
    'pow': s_pow, 'atan2': s_atan2, 'hypot': s_hypot, 'copysign': s_copysign, 'isclose': s_isclose,
    'degrees': s_degrees, 'radians': s_radians, 'fabs': abs, 'floor': sfloor,
    'ceil': lambda x: -sfloor(-x), 'trunc': strunc,
    'isinf': lambda x: False, 'isnan': lambda x: False, 'isfinite': lambda x: True,
}


def _mp_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def mp_fns():
    import mpmath as mp

    def dom(f, ok):
        def g(x, *a):
            if not ok(x):
                raise ValueError('math domain error')
            return f(x, *a)
        return g

    def mpow(a, b):
        a, b = mp.mpf(a), mp.mpf(b)
        if a < 0 and b != int(b):
            raise ValueError('math domain error')
        if a == 0 and b < 0:
            raise ValueError('math domain error')
        return a ** b
    return {
        'sqrt': dom(mp.sqrt, lambda x: x >= 0), 'cbrt': lambda x: mp.cbrt(x) if x >= 0 else -mp.cbrt(-x),
        'exp': mp.exp, 'expm1': mp.expm1,
        'log': dom(mp.log, lambda x: x > 0), 'log10': dom(mp.log10, lambda x: x > 0),
        'log2': dom(lambda x: mp.log(x, 2), lambda x: x > 0), 'log1p': dom(mp.log1p, lambda x: x > -1),
        'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'atan': mp.atan,
        'asin': dom(mp.asin, lambda x: -1 <= x <= 1), 'acos': dom(mp.acos, lambda x: -1 <= x <= 1),
        'sinh': mp.sinh, 'cosh': mp.cosh, 'tanh': mp.tanh, 'asinh': mp.asinh,
        'acosh': dom(mp.acosh, lambda x: x >= 1), 'atanh': dom(mp.atanh, lambda x: -1 < x < 1),
        'erf': mp.erf, 'erfc': mp.erfc, 'gamma': mp.gamma, 'pow': mpow, 'atan2': mp.atan2, 'hypot': mp.hypot,
        'copysign': lambda a, b: abs(a) if b >= 0 else -abs(a), 'isclose': _mp_isclose,
        'degrees': mp.degrees, 'radians': mp.radians, 'fabs': abs,
        'floor': lambda x: int(mp.floor(x)), 'ceil': lambda x: int(mp.ceil(x)), 'trunc': int,
        'isinf': mp.isinf, 'isnan': mp.isnan, 'isfinite': mp.isfinite, 'lgamma': mp.loggamma,
    }

"""Make the real package run on symbolic / multi-precision numbers.

Nothing of the implementation is rewritten: only the *leaf* primitives it calls
(math.*, float(), int(), isinstance checks on float, scipy's lambertw, and on
request the iterative root finders) are given an extra case for symbolic
arguments.  Must run before the first import of the package under test.
"""
import builtins
import cmath
import math
import os
import sys

from . import sym, terms
from .sym import Sym, SymBool

_installed = False
REPO = os.environ.get('FLUIDS_REPO', '/repo')


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import mpmath
    import numpy  # noqa
    import scipy.special  # noqa
    import scipy.interpolate  # noqa
    import z3  # noqa
    import fractions, decimal, random, statistics  # noqa
    assert not any(m == 'fluids' or m.startswith('fluids.') for m in sys.modules), 'fluids imported too early'
    mpf = mpmath.mpf
    mpfns = sym.mp_fns()

    def mkwrap(name, orig, sf, mf):
        def w(*a, **k):
            for x in a:
                if type(x) is Sym:
                    if sf is None:
                        raise terms.Unsupported('math.%s' % name)
                    return sf(*a, **k)
            for x in a:
                if type(x) is mpf:
                    if mf is None:
                        break
                    return mf(*a, **k)
            return orig(*a, **k)
        w.__name__ = name
        w.__wrapped__ = orig
        return w

    for name in dir(math):
        orig = getattr(math, name)
        if name.startswith('_') or not callable(orig):
            continue
        if name in sym.SYMFN or name in mpfns or name in ('lgamma', 'fmod', 'dist', 'fsum', 'nextafter'):
            setattr(math, name, mkwrap(name, orig, sym.SYMFN.get(name), mpfns.get(name)))
    def cwrap(name, orig):
        def w(*a, **k):
            for x in a:
                if type(x) is Sym:
                    if name == 'sqrt':
                        if x < 0:
                            raise terms.Unsupported('complex sqrt')
                        return sym.s_sqrt(x)
                    raise terms.Unsupported('cmath.%s' % name)
                if type(x) in (mpf, mpmath.mpc) and hasattr(mpmath, name):
                    return getattr(mpmath, name)(*a)
            return orig(*a, **k)
        return w
    for name in dir(cmath):
        orig = getattr(cmath, name)
        if callable(orig) and not name.startswith('_'):
            setattr(cmath, name, cwrap(name, orig))

    bfloat, bint, bround = builtins.float, builtins.int, builtins.round

    class _FM(type):
        def __instancecheck__(cls, x):
            return isinstance(x, bfloat) or type(x) is Sym or type(x) is mpf

        def __subclasscheck__(cls, c):
            return issubclass(c, bfloat) or c is Sym or c is mpf

        def __call__(cls, x=0.0):
            if type(x) is Sym or type(x) is mpf:
                return x
            if type(x) is SymBool:
                return 1.0 if x else 0.0
            return bfloat(x)

        def __eq__(cls, o):
            return o is cls or o is bfloat

        def __hash__(cls):
            return hash(bfloat)

        def __getattr__(cls, k):
            return getattr(bfloat, k)

    class float_(metaclass=_FM):
        pass

    class _IM(type):
        def __instancecheck__(cls, x):
            return isinstance(x, bint)

        def __subclasscheck__(cls, c):
            return issubclass(c, bint)

        def __call__(cls, x=0, *a):
            if type(x) is Sym:
                return sym.strunc(x)
            if type(x) is mpf:
                return bint(x)
            return bint(x, *a)

        def __eq__(cls, o):
            return o is cls or o is bint

        def __hash__(cls):
            return hash(bint)

        def __getattr__(cls, k):
            return getattr(bint, k)

    class int_(metaclass=_IM):
        pass

    def round_(x, n=None):
        if type(x) is Sym:
            return x.__round__(n)
        if type(x) is mpf:
            if n is None:
                return bint(mpmath.nint(x))
            return mpf(mpmath.nint(x * 10**n)) / 10**n
        return bround(x, n) if n is not None else bround(x)

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import fluids
    assert os.path.realpath(fluids.__file__).startswith(os.path.realpath(REPO) + os.sep), fluids.__file__
    import importlib
    for m in ('fluids.numerics', 'fluids.numerics.arrays', 'fluids.numerics.doubledouble',
              'fluids.numerics.polynomial_roots', 'fluids.numerics.polynomial_utils',
              'fluids.numerics.polynomial_evaluation', 'fluids.numerics.special'):
        importlib.import_module(m)

    # wrapped library functions
    import fluids.numerics as fn
    repl = {}

    o_lambertw = fn.lambertw

    def lambertw_(x, k=0, tol=1e-8):
        if type(x) is Sym:
            if k == -1:
                return -sym.wrap(terms.fn('lambertwn', (-x).t))
            if k != 0:
                raise terms.Unsupported('lambertw branch')
            return sym.wrap(terms.fn('lambertw', x.t))
        if type(x) is mpf:
            return mpmath.lambertw(x, k)
        return o_lambertw(x, k, tol)
    repl[id(o_lambertw)] = lambertw_
    for name in ('splev', 'bisplev'):
        o = getattr(fn, name, None)
        py = getattr(fn, 'py_' + name, None)
        if o is None or py is None:
            continue

        def mkspl(o, py):
            def w(*a, **k):
                for x in a:
                    if type(x) in (Sym, mpf):
                        return py(*a, **k)
                return o(*a, **k)
            return w
        repl[id(o)] = mkspl(o, py)
    for name in ('erf', 'erfc'):
        o = getattr(fn, name, None)
        if o is not None and not hasattr(o, '__wrapped__'):
            repl[id(o)] = mkwrap(name, o, sym.SYMFN[name], mpfns[name])
    for name in ('gamma',):
        o = getattr(fn, name, None)
        if o is not None and not hasattr(o, '__wrapped__'):
            repl[id(o)] = mkwrap(name, o, sym.SYMFN[name], mpfns[name])
    o_gic = getattr(fn, 'gammaincc', None)

    def gammaincc_(a, x):
        if type(a) is Sym or type(x) is Sym:
            A = a.t if type(a) is Sym else terms.lift(a)
            X = x.t if type(x) is Sym else terms.lift(x)
            from .canon import Canon
            c = Canon(sym.ENG)
            iv, ia = c.piv(c.canon(X)), c.piv(c.canon(A))
            if ia[0] > 0 and ia[1] < 50:
                if iv[0] > 1200:
                    return 0.0
                if 0 <= iv[1] < 1 and iv[1]**min(ia[0], 50.) < 1e-17 and ia[0] > 1e-3:
                    return 1.0
            return sym.wrap(terms.fn('gammaincc', A, X))
        if type(a) is mpf or type(x) is mpf:
            return terms.MPFN['gammaincc'](a, x)
        return o_gic(a, x)
    if o_gic is not None:
        repl[id(o_gic)] = gammaincc_
    for name in ('ellipe', 'ellipkinc', 'ellipeinc'):
        o = getattr(fn, name, None)

        def mkell(name, o):
            def w(*a):
                if any(type(x) is Sym for x in a):
                    return sym.wrap(terms.fn(name, *[x.t if type(x) is Sym else terms.lift(x) for x in a]))
                if any(type(x) is mpf for x in a):
                    return terms.MPFN[name](*a)
                return o(*a)
            return w
        if o is not None:
            repl[id(o)] = mkell(name, o)
    o_quad = fn.quad

    def quad_(f, a, b, args=(), *rest, **kw):
        e = sym.ENG
        if e is not None and e.stub_solvers:
            return e.quad_contract(f, a, b, args), 0.0
        return o_quad(f, a, b, args, *rest, **kw)
    repl[id(o_quad)] = quad_
    for name, sig in SOLVERS.items():
        o = getattr(fn, name, None)
        if o is None:
            continue
        repl[id(o)] = _solver_wrap(name, o)

    for mname, m in list(sys.modules.items()):
        if mname == 'fluids' or mname.startswith('fluids.'):
            d = m.__dict__
            for k, v in list(d.items()):
                r = repl.get(id(v))
                if r is not None:
                    d[k] = r
            d['float'] = float_
            d['int'] = int_
            d['round'] = round_


SOLVERS = {'secant': 1, 'newton': 1, 'brenth': 2, 'ridder': 2, 'bisect': 2, 'brent': 2, 'py_bisect': 2, 'halley': 1,
           'one_sided_secant': 1}


def _solver_wrap(name, orig):
    kind = SOLVERS[name]

    def w(f, *a, **k):
        e = sym.ENG
        if e is not None and e.stub_solvers:
            args = k.get('args', ())
            kwargs = k.get('kwargs', {})
            low = high = None
            if kind == 2:
                low, high = (k.get('xa', k.get('a')), k.get('xb', k.get('b')))
                pos = list(a)
                if pos:
                    low = pos.pop(0)
                if pos:
                    high = pos.pop(0)
                if pos:
                    args = pos.pop(0)
            else:
                low, high = k.get('low'), k.get('high')
                pos = list(a)
                if len(pos) > 1 and isinstance(pos[1], tuple):
                    args = pos[1]
            if args is None:
                args = ()
            return e.solver_contract(f, low, high, args, kwargs or {}, name)
        return orig(f, *a, **k)
    w.__name__ = name
    w.__wrapped__ = orig
    return w

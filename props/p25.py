"""P25: polynomial and Chebyshev evaluation, calculus, conversion and fitting."""
from math import comb, exp, log, sqrt

from symx.harness import harness
import fluids.numerics as N
import fluids.numerics.polynomial_evaluation as E
import fluids.numerics.polynomial_utils as U
import fluids.numerics.polynomial_roots as RT

META = dict(
    title='Polynomial evaluation, calculus, conversion and roots are exact',
    statement='Every polynomial routine of fluids.numerics agrees with the polynomial sum c_i x^i it stands for. horner and its stable (offset and scale), domain, log, exp and ln tau = ln(1 - T/Tc) variants return that value, their _and_der ... _and_der4 variants also its true derivatives with respect to the argument, and the ln tau variants 0 from Tc up; the Chebyshev series of chebval, exp_cheb, chebval_ln_tau and their derivative variants equal the sum of c_i T_i, chebder and chebint (of any order, scale and lower bound) are its derivative and integral. '
              'polyint, polyint_stable, polyint_over_x, polyint_over_x_stable and polyder give antiderivatives and derivatives; poly_add, poly_mul, stable_poly_to_unstable and poly_convert the same function in another form; quadratic_from_points, quadratic_from_f_ders and exp_poly_ln_tau_coeffs2/3 reproduce the values and derivatives given. '
              'fit_integral_linear_extrapolation and fit_integral_over_T_linear_extrapolation integrate the fit with its linear extensions between any two temperatures on any side of the limits (negative when reversed), poly_fit_integral_value and poly_fit_integral_over_T_value are antiderivatives of the same function, and evaluate_linear_fits, _d and _d2 evaluate it. roots_quadratic, deflate_cubic_real_roots and the one-real-root case of roots_cubic return roots of the equation.',
    over=['inputs'],
    text='any coefficients, 1 to 5 of them, any argument; T/Tc 0.01 to 0.999 and above Tc; any offset and scale or domain; limits in any order',
    why='tests compare a few coefficient sets with numpy',
    files=['fluids/numerics/polynomial_evaluation.py', 'fluids/numerics/polynomial_utils.py', 'fluids/numerics/polynomial_roots.py', 'fluids/numerics/__init__.py'],
    mech=['horner, horner_and_der, ... horner_stable_ln_tau_and_der3, exp_horner_...', 'chebval, chebder, chebint, exp_cheb_..., chebval_ln_tau_...', 'polyint, polyder, polyint_over_x, polyint_over_x_stable, stable_poly_to_unstable, poly_convert',
          'fit_integral_linear_extrapolation, fit_integral_over_T_linear_extrapolation, poly_fit_integral_value, evaluate_linear_fits', 'roots_quadratic, roots_cubic, deflate_cubic_real_roots', 'exp_poly_ln_tau_coeffs2, exp_poly_ln_tau_coeffs3, quadratic_from_points'],
    note='roots_quartic, and roots_cubic with three real roots, work in complex arithmetic, which the encoding does not cover; the complex pair of roots_quadratic and roots_cubic is not checked.',
)


class Jet:
    """value and derivatives 1 .. 4 over k! (truncated Taylor series)"""
    K = 5

    def __init__(self, c):
        self.c = list(c) + [0.0] * (Jet.K - len(c))

    @staticmethod
    def of(x):
        return x if isinstance(x, Jet) else Jet([x])

    def __add__(self, o):
        return Jet([a + b for a, b in zip(self.c, Jet.of(o).c)])
    __radd__ = __add__

    def __mul__(self, o):
        b = Jet.of(o).c
        out = []
        for k in range(Jet.K):
            t = 0.0
            for i in range(k + 1):
                t = t + self.c[i] * b[k - i]
            out.append(t)
        return Jet(out)
    __rmul__ = __mul__

    def exp(self):
        e = [exp(self.c[0])]
        for k in range(1, Jet.K):
            t = 0.0
            for i in range(1, k + 1):
                t = t + i * self.c[i] * e[k - i]
            e.append(t / k)
        return Jet(e)

    def log(self):
        l = [log(self.c[0])]
        for k in range(1, Jet.K):
            t = k * self.c[k]
            for i in range(1, k):
                t = t - i * l[i] * self.c[k - i]
            l.append(t / (k * self.c[0]))
        return Jet(l)

    def ders(self, n):
        f, out = 1, []
        for k in range(n + 1):
            f *= max(k, 1)
            out.append(self.c[k] * f)
        return out


def poly(c, x):
    """sum of c[i] x^(n-i), by powers"""
    tot, p = Jet([0.0]), Jet([1.0])
    for a in reversed(list(c)):
        tot = tot + p * a
        p = p * x
    return tot


def cheb(c, x):
    T = [Jet([1.0]), x]
    while len(T) < len(c):
        T.append(2.0 * x * T[-1] + -1.0 * T[-2])
    tot = Jet([0.0])
    for a, t in zip(c, T):
        tot = tot + a * t
    return tot


def coeffs(ctx, sizes=(1, 2, 3, 4, 5), name='c', lo=-10., hi=10.):
    n = ctx.choice('number of coefficients ' + name, list(sizes))
    return [ctx.real('%s%d' % (name, i), lo, hi) for i in range(n)]


def same_all(ctx, name, got, want):
    if not isinstance(got, (list, tuple)):
        got = [got]
    ctx.true(name + ': length', len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.close('%s: derivative %d' % (name, i) if i else name, g, w)


def orders(fmt, top, first=''):
    return [(k, fmt + (first if k == 0 else '_and_der' + (str(k) if k > 1 else ''))) for k in range(top + 1)]


@harness('P25', timeout=200, funcs='horner, horner_stable, horner_domain, exp_horner_backwards, exp_horner_stable and their derivatives', bounds='1 .. 5 coefficients, x -3 .. 3')
def evaluation(ctx):
    kind = ctx.choice('kind', ['plain', 'stable', 'exp', 'exp stable', 'domain', 'log'])
    c = coeffs(ctx)
    x = ctx.real('x', 0.01 if kind == 'log' else -3., 3.)
    X = Jet([x, 1.0])
    if kind == 'plain':
        J = poly(c, X)
        ctx.close('backwards', E.horner_backwards(x, c), J.c[0])
        for k, f in orders('horner', 4):
            same_all(ctx, f, getattr(N, f)(c, x), J.ders(k))
    elif kind == 'exp':
        J = poly(c, X).exp()
        for k, f in orders('exp_horner_backwards', 3):
            same_all(ctx, f, getattr(N, f)(x, c), J.ders(k))
    elif kind == 'domain':
        lo, w = ctx.real('xmin', -10., 10.), ctx.real('xmax - xmin', 0.01, 20.)
        ctx.close('domain', N.horner_domain(x, c, lo, lo + w), poly(c, Jet([(2 * x - 2 * lo - w) / w])).c[0])
        o, s = N.polynomial_offset_scale(lo, lo + w)
        ctx.close('offset', o, -(2 * lo + w) / w)
        ctx.close('scale', s, 2 / w)
    else:
        o, s = ctx.real('offset', -3., 3.), ctx.real('scale', -3., 3.)
        S = Jet([o + s * x, s])
        J = poly(c, S)
        if kind == 'stable':
            for k, f in orders('horner_stable', 4):
                same_all(ctx, f, getattr(N, f)(x, c, o, s), J.ders(k))
        elif kind == 'log':
            l = ctx.real('log coeff', -10., 10.)
            ctx.close('horner_log', N.horner_log(c, l, x), poly(c, X).c[0] + l * log(x))
            ctx.close('horner_stable_log', N.horner_stable_log(x, c, o, s, l), J.c[0] + l * log(x))
        else:
            J = J.exp()
            for k, f in orders('exp_horner_stable', 3):
                same_all(ctx, f, getattr(N, f)(x, c, o, s), J.ders(k))


def tau(ctx):
    Tc = ctx.real('Tc', 10., 2000.)
    if ctx.choice('T below Tc', [True, False]):
        t = ctx.real('T/Tc', 0.01, 0.999)
        return Tc * t, Tc, Jet([1 - t, -1 / Tc]).log()
    return Tc * (1 + ctx.choice('above', [0.0, 1.0]) * ctx.real('excess', 0., 1.)), Tc, None


@harness('P25', timeout=300, funcs='horner_backwards_ln_tau, horner_stable_ln_tau, exp_... and derivatives', bounds='1 .. 4 coefficients, T/Tc .01 .. .999 and from Tc up')
def ln_tau(ctx):
    kind = ctx.choice('kind', ['horner_backwards_ln_tau', 'horner_stable_ln_tau', 'exp_horner_backwards_ln_tau', 'exp_horner_stable_ln_tau'])
    top = 2 if 'exp' in kind else 3
    c = coeffs(ctx, (1, 2, 4), lo=-2., hi=2.)
    T, Tc, L = tau(ctx)
    rest = ()
    if 'stable' in kind:
        rest = o, s = ctx.real('offset', -3., 3.), ctx.real('scale', -3., 3.)
        if L is not None:
            L = s * L + o
    if L is not None:
        J = poly(c, L)
        J = J.exp() if 'exp' in kind else J
    for k, f in orders(kind, top):
        same_all(ctx, f, getattr(E, f)(T, Tc, c, *rest), [0.0] * (k + 1) if L is None else J.ders(k))


@harness('P25', timeout=300, funcs='chebval, exp_cheb, chebval_ln_tau, exp_cheb_ln_tau and derivatives; chebder', bounds='1 .. 5 coefficients')
def chebyshev(ctx):
    kind = ctx.choice('kind', ['chebval', 'exp_cheb', 'chebval_ln_tau', 'exp_cheb_ln_tau'])
    c = coeffs(ctx, (2, 4) if 'tau' in kind else (1, 2, 3, 5) if kind == 'chebval' else (1, 3, 4), lo=-2., hi=2.)
    o, s = ctx.real('offset', -3., 3.), ctx.real('scale', -3., 3.)
    top = {'chebval': 0, 'exp_cheb': 3, 'chebval_ln_tau': 3, 'exp_cheb_ln_tau': 2}[kind]
    d = [c]
    for k in range(top):
        d.append(N.chebder(d[-1], 1, s) or [0.0])
    if 'tau' in kind:
        T, Tc, L = tau(ctx)
        a = (T, Tc)
    else:
        x = ctx.real('x', -3., 3.)
        L, a = Jet([x, 1.0]), (x,)
    if L is not None:
        J = cheb(c, s * L + o)
        J = J.exp() if 'exp' in kind else J
    if kind == 'chebval':
        ctx.close('chebval', N.chebval(x, c, o, s), J.c[0])
        ctx.close('chebval', N.chebval(x, c), cheb(c, L).c[0])
        return
    for k, f in orders(kind, top):
        same_all(ctx, f, getattr(N, f)(*(a + tuple(d[:k + 1]) + (o, s))), [0.0] * (k + 1) if L is None else J.ders(k))


@harness('P25', timeout=120, funcs='chebder, chebint', bounds='1 .. 5 coefficients, order 0 .. 3, scale given or not, any lower bound')
def chebyshev_calculus(ctx):
    c = coeffs(ctx, lo=0.1, hi=10.)
    m = ctx.choice('m', [0, 1, 2, 3])
    x = ctx.real('x', -2., 2.)
    J = cheb(c, Jet([x, 1.0]))
    kw, s, b = {}, 1.0, 0.0
    if ctx.choice('scale given', [True, False]):
        s = kw['scl'] = ctx.real('scl', 0.1, 5.)
    before = list(c)
    d = N.chebder(c, m=m, **kw)
    ctx.close('chebder', N.chebval(x, d) if d else 0.0, s**m * J.ders(m)[m])
    if ctx.choice('lower bound given', [True, False]):
        b = kw['lbnd'] = ctx.real('lbnd', -2., 2.)
    q = N.chebint(c, m=m, **kw)
    ctx.true('input kept', all(u is v for u, v in zip(c, before)) and len(c) == len(before))
    Q = cheb(q, Jet([x, 1.0]))
    ctx.close('derivative of chebint', Q.ders(m)[m], s**m * J.c[0])
    for k in range(m):
        ctx.close('chebint from the lower bound %d' % k, cheb(q, Jet([b, 1.0])).ders(k)[k], 0.0, atol=1e-9)


@harness('P25', timeout=120, funcs='polyint, polyint_stable, polyint_over_x, polyint_over_x_stable, polyder', bounds='1 .. 5 coefficients, any domain')
def calculus(ctx):
    c = coeffs(ctx)
    x, lo, w = ctx.real('x', 0.01, 10.), ctx.real('xmin', -10., 10.), ctx.real('xmax - xmin', 0.01, 20.)
    X = Jet([x, 1.0])
    v = poly(c, X)
    i = poly(N.polyint(c), X)
    ctx.close('polyint', i.c[1], v.c[0])
    ctx.close('polyint at 0', N.polyint(c)[-1], 0.0)
    t, l = N.polyint_over_x(c)
    ctx.close('polyint_over_x', poly(t, X).c[1] + l / x, v.c[0] / x)
    o, s = -(2 * lo + w) / w, 2 / w
    S = Jet([o + s * x, s])
    f = poly(c, S).c[0]
    ctx.close('polyint_stable', poly(N.polyint_stable(c, lo, lo + w), S).c[1], f)
    t, l = N.polyint_over_x_stable(c, lo, lo + w)
    ctx.close('polyint_over_x_stable', poly(t, X).c[1] + l / x, f / x)
    up = list(reversed(c))
    for m in (0, 1, 2, 3):
        d = N.polyder(list(up), m=m) if m != 1 else N.polyder(list(up))
        ctx.close('polyder %d' % m, poly(list(reversed(d)), X).c[0], v.ders(m)[m])


@harness('P25', timeout=120, funcs='poly_add, poly_mul, stable_poly_to_unstable, poly_convert', bounds='up to 5 and 3 coefficients')
def forms(ctx):
    a, b = coeffs(ctx, lo=0.1, name='a'), coeffs(ctx, (1, 3), name='b')
    x, lo, w = ctx.real('x', -3., 3.), ctx.real('low', -10., 10.), ctx.real('high - low', 0.01, 20.)
    X = Jet([x])
    A, B = list(reversed(a)), list(reversed(b))
    ctx.close('add', poly(list(reversed(U.poly_add(a, b))), X).c[0], (poly(A, X) + poly(B, X)).c[0])
    ctx.close('mul', poly(list(reversed(U.poly_mul(a, b))), X).c[0], (poly(A, X) * poly(B, X)).c[0])
    S = Jet([(2 * x - 2 * lo - w) / w])
    ctx.close('to unstable', poly(N.stable_poly_to_unstable(a, lo, lo + w), X).c[0], poly(a, S).c[0])
    ctx.close('no domain', poly(N.stable_poly_to_unstable(a, lo, lo), X).c[0], poly(a, X).c[0])
    ctx.close('to stable', poly(list(reversed(U.poly_convert(a, lo, lo + w))), S).c[0], poly(A, X).c[0])


@harness('P25', timeout=120, funcs='quadratic_from_points, quadratic_from_f_ders, exp_poly_ln_tau_coeffs2, exp_poly_ln_tau_coeffs3', bounds='three points at least .01 apart, any values; T/Tc .05 .. .99')
def fitting(ctx):
    kind = ctx.choice('kind', ['points', 'derivatives', 'exp2', 'exp3'])
    if kind == 'points':
        x = [ctx.real('x0', -10., 10.)]
        for i in (1, 2):
            x.append(x[-1] + ctx.real('step%d' % i, 0.01, 10.))
        f = [ctx.real('f%d' % i, -10., 10.) for i in range(3)]
        o = ctx.choice('order', [(0, 1, 2), (2, 0, 1), (1, 0, 2)])
        c = N.quadratic_from_points(*([x[i] for i in o] + [f[i] for i in o]))
        for u, v in zip(x, f):
            ctx.close('through the points', c[0] * u * u + c[1] * u + c[2], v, atol=1e-9)
    elif kind == 'derivatives':
        x, v, d1, d2 = [ctx.real(n, -10., 10.) for n in ('x', 'v', 'd1', 'd2')]
        same_all(ctx, 'quadratic', poly(N.quadratic_from_f_ders(x, v, d1, d2), Jet([x, 1.0])).ders(2), [v, d1, d2])
    else:
        Tc, t, v, d1 = ctx.real('Tc', 10., 2000.), ctx.real('T/Tc', 0.05, 0.99), ctx.real('v', 0.01, 100.), ctx.real('d1', -1., 1.)
        T = t * Tc
        L = Jet([1 - t, -1 / Tc]).log()
        if kind == 'exp2':
            p = poly(N.exp_poly_ln_tau_coeffs2(T, Tc, v, d1), L)
            k, d2 = 1, 0.0
        else:
            d2 = ctx.real('d2', -1., 1.)
            p = poly(N.exp_poly_ln_tau_coeffs3(T, Tc, v, d1, d2), L)
            k = 2
        # (exp p)'' = v (p'' + p'^2)
        w = p.ders(2)
        ctx.close('value', w[0], log(v))
        ctx.close('slope', v * w[1], d1)
        if k == 2:
            ctx.close('curvature', v * (w[2] + w[1] * w[1]), d2)


@harness('P25', timeout=300, funcs='fit_integral_linear_extrapolation, poly_fit_integral_value and the over-T forms, evaluate_linear_fits, _d, _d2', bounds='T1 and T2 on any side of Tmin and Tmax, also at them; 2 coefficients')
def extrapolated_integrals(ctx):
    lo = ctx.real('Tmin', 100., 500.)
    hi = lo + ctx.real('Tmax - Tmin', 1., 500.)
    vl, vh, sl, sh = [ctx.real(n, -10., 10.) for n in ('Tmin value', 'Tmax value', 'Tmin slope', 'Tmax slope')]
    c = [ctx.real('c%d' % i, -10., 10.) for i in range(2)]
    ends = (lo, hi, vl, vh, sl, sh)

    def place(n):
        k = ctx.choice(n, ['below', 'at Tmin', 'inside', 'at Tmax', 'above'])
        if k == 'below':
            return 0, lo * ctx.real(n + ' below', 0.1, 0.99)
        if k == 'inside':
            return 1, lo + (hi - lo) * ctx.real(n + ' inside', 0.01, 0.99)
        if k == 'above':
            return 2, hi * (1 + ctx.real(n + ' above', 0.001, 1.))
        return 1, lo if k == 'at Tmin' else hi
    over = ctx.choice('over T', [False, True])
    if over:
        def I(p, T):            # antiderivative of each piece over T
            if p == 1:
                return c[0] * T + c[1] * log(T)
            s, v, b = (sl, vl, lo) if p == 0 else (sh, vh, hi)
            return s * T + (v - s * b) * log(T)
        T_int, lg = N.polyint_over_x(c)
        whole, part = N.fit_integral_over_T_linear_extrapolation, N.poly_fit_integral_over_T_value
        cs = (T_int, lg)
    else:
        def I(p, T):
            if p == 1:
                return c[0] * T * T / 2 + c[1] * T
            s, v, b = (sl, vl, lo) if p == 0 else (sh, vh, hi)
            return s * T * T / 2 + (v - s * b) * T
        whole, part = N.fit_integral_linear_extrapolation, N.poly_fit_integral_value
        cs = (N.polyint(c),)
    p1, T1 = place('T1')
    p2, T2 = place('T2')

    def upto(p, T):             # integral from Tmin
        if p == 0:
            return I(0, T) - I(0, lo)
        if p == 1:
            return I(1, T) - I(1, lo)
        return I(1, hi) - I(1, lo) + I(2, T) - I(2, hi)
    want = upto(p2, T2) - upto(p1, T1)
    ctx.close('integral', whole(T1, T2, *(cs + ends)), want, atol=1e-9)
    ctx.close('antiderivative', part(T2, *(cs + ends)) - part(T1, *(cs + ends)), want, atol=1e-9)
    if not over:
        data = [[lo], [sl], [vl], [hi], [sh], [vh], [c], [[c[0]]], [[2.5]]]
        inside = c[0] * T1 + c[1]
        ctx.close('fit', N.evaluate_linear_fits(data, T1)[0], [vl + sl * (T1 - lo), inside, vh + sh * (T1 - hi)][p1], atol=1e-9)
        ctx.close('slope', N.evaluate_linear_fits_d(data, T1)[0], [sl, c[0], sh][p1])
        if p1 != 1:
            ctx.close('curvature', N.evaluate_linear_fits_d2(data, T1)[0], 0.0)
        elif T1 is not lo and T1 is not hi:
            ctx.close('curvature', N.evaluate_linear_fits_d2(data, T1)[0], 2.5)


@harness('P25', timeout=120, funcs='roots_quadratic, deflate_cubic_real_roots', bounds='any two real roots, any leading coefficient; linear equations')
def quadratic_roots(ctx):
    a = ctx.real('a', 0.01, 10.) * ctx.choice('sign', [1.0, -1.0])
    r, s = ctx.real('r', -10., 10.), ctx.real('distance', 0., 10.)
    q = r + s
    got = N.roots_quadratic(a, -a * (r + q), a * r * q)
    ctx.close('sum', got[0] + got[1], r + q, atol=1e-9)
    ctx.close('product', got[0] * got[1], r * q, atol=1e-9)
    ctx.close('larger root', max(got[0], got[1]), q, atol=1e-9)
    x0 = ctx.real('x0', 0.01, 10.) * ctx.choice('x0 sign', [1.0, -1.0])
    d = N.deflate_cubic_real_roots(-(x0 + r + q), x0 * r + x0 * q + r * q, -x0 * r * q, x0)
    ctx.close('deflated', d[0], q, atol=1e-9)
    ctx.close('deflated', d[1], r, atol=1e-9)
    l = N.roots_quadratic(0.0, a, r)
    ctx.close('linear', a * l[0] + r, 0.0, atol=1e-9)
    ctx.close('linear', a * l[1] + r, 0.0, atol=1e-9)
    g = N.deflate_cubic_real_roots(-(x0 + 2 * r), x0 * 2 * r + r * r + 0.01 + s * s, -x0 * (r * r + 0.01 + s * s), x0)
    ctx.true('no real roots', g == (0.0, 0.0))


@harness('P25', timeout=120, funcs='roots_cubic with one real root; a = 0', bounds='any shift, any S^3 and U^3 apart from 0')
def cubic_roots(ctx):
    """x = S + U - p solves the equation with f = -3 S U and g = -(S^3 + U^3)"""
    a = ctx.real('a', 0.1, 10.) * ctx.choice('sign', [1.0, -1.0])
    # S^3 = m + w and U^3 = m - w with w > 0
    m, w = ctx.real('m', -100., 100.), ctx.real('w', 0.01, 100.)

    def cbrt(x):
        return x**(1. / 3) if x > 0 else -(-x)**(1. / 3)
    ctx.assume(abs(m + w) > 1e-3)
    ctx.assume(abs(m - w) > 1e-3)
    S, U_ = cbrt(m + w), cbrt(m - w)
    p = ctx.real('p', -10., 10.)
    f, g = -3 * S * U_, -2 * m
    # (x + p)^3 + f (x + p) + g
    real = RT.complex_factor
    RT.complex_factor = sqrt(0.75)      # the unit i replaced by 1: the pair is known up to it
    try:
        got = RT.roots_cubic(a, 3 * p * a, (3 * p * p + f) * a, (p**3 + f * p + g) * a)
    finally:
        RT.complex_factor = real
    ctx.close('real root', got[0], S + U_ - p, atol=1e-9)
    ctx.close('pair: real part', got[1] + got[2], -S - U_ - 2 * p, atol=1e-9)
    ctx.close('pair: imaginary part', (got[1] - got[2])**2, 3 * (S - U_)**2, atol=1e-9)

"""P12: tank volumes, wetted areas and the TANK class."""
from math import acos, acosh, asin, atan, cos, log, pi, sin, sqrt

from symx.harness import harness
from symx.formula import cmp, same_formula
import fluids.geometry as G

META = dict(
    title='Tank volumes and wetted areas are right for every head and fill level',
    statement='For every head shape (conical, ellipsoidal, guppy, spherical, torispherical, flat; convex, or concave where offered), orientation and liquid height, partial volumes and wetted areas equal their documented formulas on every height regime, are 0 below the bottom and the full value above the top. '
              'V_from_h and SA_from_h add the two heads and the shell, mixed heads included, and agree with V_tank and SA_tank when full; unsupported heads and missing torispherical parameters raise ValueError. '
              'A TANK holds consistent dimensions however it is specified (D, L, L_over_D, head ratios, "same", or a target volume), its h_from_V inverts V_from_h, and add_thickness gives the tank with every dimension enlarged. '
              'Circle segment, partial sphere and cylinder relations hold at every height, and circle_segment_h_from_A inverts A_partial_circle.',
    over=['inputs', 'configurations'],
    text='D in [0.1, 10], head depth 0.02 to 2 D (spherical: to D/2), levels below, empty, inside, full and above; integrals compared by integrand and limits, root finders by contract; whole tanks for arbitrary head functions; the wetted areas of single horizontal guppy and torispherical heads, and the chebyshev and table options of TANK, are outside',
    why='tests pin isolated heights of a few heads; head pairs, orientations and height regimes multiply to hundreds of cases',
    files=['fluids/geometry.py'],
    mech=['V_from_h, V_tank', 'SA_from_h, SA_tank', 'V_horiz_*, V_vertical_*', 'SA_partial_*', 'TANK', 'circle_segment_h_from_A'],
)


def clamp(h, D):
    return D if h > D else h


def segment(D, h):
    R = D / 2
    return R**2 * acos((R - h) / R) - (R - h) * sqrt(2 * R * h - h**2)


def levels(ctx):
    level = ctx.choice('level', ['below', 'empty', 'inside', 'full', 'above'])
    y = ctx.real('y', 0.001, 0.999)
    return level, {'below': -y, 'empty': 0.0, 'inside': y, 'full': 1.0, 'above': 1 + y}[level]


# --- circle, sphere, cylinder
HD = dict(D=(0.1, 10.), x=(-0.3, 1.4))


def at(fn):
    """fn(D, h = x D)"""
    return lambda D, x, **k: fn(D, D * x, **k)


@harness('P12', funcs='A_partial_circle, SA_partial_sphere, V_partial_sphere, SA_partial_cylindrical_body', bounds='D in [.1,10], L in [.1,20], h below, inside, full, above')
def partial_shapes(ctx):
    D, L = ctx.real('D', 0.1, 10.), ctx.real('L', 0.1, 20.)
    level, x = levels(ctx)
    c = {'below': 0.0, 'empty': 0.0, 'full': 1.0, 'above': 1.0}.get(level, x)
    if level == 'inside':
        ctx.assume(segment(D, x * D) >= 0)   # acos(u) >= u sqrt(1 - u**2) for every u in [-1, 1]
    ctx.close('sphere area', G.SA_partial_sphere(D, x * D), pi * D**2 * c)
    ctx.close('sphere volume', G.V_partial_sphere(D, x * D), pi * D**3 * c**2 * (0.5 - c / 3))
    ctx.close('circle segment', G.A_partial_circle(D, x * D), pi / 4 * D**2 * c if level != 'inside' else segment(D, x * D), atol=1e-15)
    ctx.close('cylinder body', G.SA_partial_cylindrical_body(L, D, x * D), pi * D * L * c if level != 'inside' else L * D * acos(1 - 2 * x))


@harness('P12', funcs='circle_segment_h_from_A', stub=True, roots=(1e-9, 10.), mp=False, bounds='D in [.1,10], A from empty to the full circle')
def circle_segment_inverse(ctx):
    D, y = ctx.real('D', 0.1, 10.), ctx.real('y', 0.001, 0.999)
    A = pi * D**2 / 4 * y
    h = G.circle_segment_h_from_A(A, D)
    ctx.le('inside', h, D, tol=1e-9)
    ctx.close('area reproduced', segment(D, h) if y <= 0.5 else pi / 4 * D**2 - segment(D, D - h), A, rtol=1e-6)


# --- horizontal heads
def cone_h(D, a, h):
    R = D / 2
    if h == R:
        return a * R**2 * pi / 6 * 1
    M = (R - h) / R if h < R else (h - R) / R
    K = acos(M) + M**3 * acosh(1 / M) - 2 * M * sqrt(1 - M**2)
    return a * R**2 / 3 * K if h < R else a * R**2 / 3 * (pi - K)


def ell_h(D, a, h):
    return pi * a * h**2 / 2 * (1 - h / (1.5 * D))


def gup_h(D, a, h):
    R = D / 2
    return a * R**2 / 3 * acos(1 - h / R) + a / 9 / R * sqrt(2 * R * h - h**2) * (2 * h - 3 * R) * (h + R)


def sph_h(ctx, D, a, h):
    R = D / 2
    s = abs(a) / a
    r = (a**2 + R**2) / 2 / abs(a)
    w, y = R - h, sqrt(2 * R * h - h**2)
    if abs(a) <= R:
        if h == R:
            return pi * a / 12 * (3 * R**2 + a**2)
        if h == D:
            return pi * a / 6 * (3 * R**2 + a**2)
    if abs(abs(a) - R) <= 1e-12 * R:
        return ell_h(D, a, h)
    z = sqrt(r**2 - R**2)
    if abs(a) >= 0.01 * D:
        return s / 2 * (2 * r**3 / 3 * (acos((R**2 - r * w) / (R * (w - r))) + acos((R**2 + r * w) / (R * (w + r))) - z / r * (2 + (R / r)**2) * acos(w / R))
                        - 2 * (w * r**2 - w**3 / 3) * atan(y / z) + 4 * w * y * z / 3)
    return s / 2 * (2 * ctx.integral(lambda x: (r**2 - x**2) * atan(sqrt((R**2 - x**2) / (r**2 - R**2))), w, R) - segment(D, h) * z)


def tor_h(ctx, D, f, k, h):
    R = D / 2
    r, al = f * D, asin((1 - 2 * k) / (2 * (f - k)))
    a1, g, z, h1 = r * (1 - cos(al)), r * sin(al), r * cos(al), k * D * (1 - sin(al))
    n = lambda x: R - k * D + sqrt((k * D)**2 - x**2)

    def v1(hh):
        w = R - hh
        return ctx.integral(lambda x: n(x)**2 * asin(sqrt(n(x)**2 - w**2) / n(x)) - w * sqrt(n(x)**2 - w**2), 0.0, sqrt(2 * k * D * hh - hh**2))

    def v2(w):
        return ctx.integral(lambda x: n(x)**2 * (acos(w / n(x)) - acos(g / n(x))) - w * sqrt(n(x)**2 - w**2) + g * sqrt(n(x)**2 - g**2), 0.0, k * D * cos(al))
    if h <= h1:
        return v1(h)
    w = R - h
    if h < D - h1:
        v3 = ctx.integral(lambda x: (r**2 - x**2) * atan(sqrt(g**2 - x**2) / z), w, g) - z / 2 * (g**2 * acos(w / g) - w * sqrt(2 * g * (h - h1) - (h - h1)**2))
        return v1(h1) + v2(w) + v3
    return 2 * v1(h1) - v1(D - h) + v2(R - (D - h1)) + pi * a1 / 6 * (3 * g**2 + a1**2)


FULL = {'conical': lambda R, a: pi * R**2 * a / 3, 'ellipsoidal': lambda R, a: 2 * pi * R**2 * a / 3, 'guppy': lambda R, a: pi * R**2 * a / 3, 'spherical': lambda R, a: pi * a / 6 * (3 * R**2 + a**2)}


def horiz(name, ref, uses_ctx=False, depths=((0.02, 2.0),), levels=((0.001, 0.999),), **opt):
    fn = getattr(G, 'V_horiz_' + name)
    o = dict(funcs='V_horiz_' + name, timeout=90, domain='assume')
    o.update(opt)

    for alo, ahi in depths:
        def h(ctx, alo=alo, ahi=ahi):
            D, al, L = ctx.real('D', 0.1, 10.), ctx.real('al', alo, ahi) if alo < ahi else alo, ctx.real('L', 0.1, 20.)
            full = ctx.choice('level', ['below', 'empty', 'full', 'above'])
            x = {'below': -ctx.real('y', 0.01, 1.0), 'empty': 0.0, 'full': 1.0, 'above': 1 + ctx.real('y', 0.01, 1.0)}[full]
            V = FULL[name](D / 2, al * D) if x > 0 else 0.0
            ctx.close('head', fn(D, L, al * D, x * D, headonly=True), V, rtol=1e-6, atol=1e-12)
            ctx.close('two heads and shell', fn(D, L, al * D, x * D), 2 * V + (pi / 4 * D**2 * L if x > 0 else 0.0), rtol=1e-6, atol=1e-12)
        h.__name__ = 'V_horiz_%s_full[%g..%g]' % (name, alo, ahi)
        harness('P12', **dict(o, bounds='D in [.1,10], a/D in [%g,%g], h at or below the bottom, at or above the top' % (alo, ahi)))(h)
        for lo, hi in levels:
            def h(ctx, alo=alo, ahi=ahi, lo=lo, hi=hi):
                D, x, al, L = ctx.real('D', 0.1, 10.), ctx.real('x', lo, hi) if lo < hi else lo, ctx.real('al', alo, ahi) if alo < ahi else alo, ctx.real('L', 0.1, 20.)
                a, hh = al * D, x * D
                V = ref(ctx, D, a, hh) if uses_ctx else ref(D, a, hh)
                only, both = fn(D, L, a, hh, headonly=True), fn(D, L, a, hh)
                ctx.close('head', only, V, rtol=1e-6, atol=1e-12)
                ctx.close('two heads and shell', both, 2 * V + L * segment(D, hh), rtol=1e-6, atol=1e-12)
            h.__name__ = 'V_horiz_%s[%g..%g][%g..%g]' % (name, alo, ahi, lo, hi)
            harness('P12', **dict(o, bounds='D in [.1,10], a/D in [%g,%g], h/D in [%g,%g]' % (alo, ahi, lo, hi)))(h)


LV = ((0.001, 0.499), (0.5, 0.5), (0.501, 0.999))
horiz('conical', cone_h, levels=LV)
horiz('ellipsoidal', ell_h)
horiz('guppy', gup_h)
ST = dict(stub=True, roots=(1e-9, 1e3), mp=False)
horiz('spherical', sph_h, uses_ctx=True, depths=((0.001, 0.00999), (0.01, 0.4999), (0.5, 0.5), (-0.4999, -0.01), (-0.5, -0.5)), levels=LV, **ST)


@harness('P12', funcs='V_horiz_torispherical', bounds='D in [.1,10], f in [.8,1.1], k in [.05,.15], h/D in [-.1,1.2]', timeout=120, domain='assume', **ST)
def V_horiz_torispherical(ctx):
    D, L, f, k = ctx.real('D', 0.1, 10.), ctx.real('L', 0.1, 20.), ctx.real('f', 0.8, 1.1), ctx.real('k', 0.05, 0.15)
    level, x = levels(ctx)
    hh = x * D
    ctx.raises('f needed', G.V_horiz_torispherical, D, L, None, k, D / 2, exc='ValueError')
    only, both = G.V_horiz_torispherical(D, L, f, k, hh, headonly=True), G.V_horiz_torispherical(D, L, f, k, hh)
    if level in ('below', 'empty'):
        ctx.close('empty', both, 0.0)
        return
    c = D if level != 'inside' else hh
    V = tor_h(ctx, D, f, k, c)
    ctx.close('head', only, V)
    ctx.close('two heads and shell', both, 2 * V + (L * segment(D, c) if level == 'inside' else pi / 4 * D**2 * L))


# --- vertical heads
def cone_v(D, a, h):
    return pi / 12 * D**2 * h**3 / a**2 if h < a else pi / 4 * D**2 * (h - 2 * a / 3)


def ell_v(D, a, h):
    return pi / 4 * (D * h / a)**2 * (a - h / 3) if h < a else pi / 4 * D**2 * (h - a / 3)


def sph_v(D, a, h):
    return pi * h**2 / 4 * (2 * a + D**2 / 2 / a - 4 * h / 3) if h < a else pi / 4 * (2 * a**3 / 3 - a * D**2 / 2 + h * D**2)


def tv1(D, f, k, h):
    al = asin((1 - 2 * k) / (2 * (f - k)))
    a1, a2, D1 = f * D * (1 - cos(al)), k * D * cos(al), 2 * f * D * sin(al)
    s, t, u = (k * D * sin(al))**2, 2 * a2, h - a1
    return (pi / 4 * (2 * a1**3 / 3 + a1 * D1**2 / 2) + pi * u * ((D / 2 - k * D)**2 + s) + pi * t * u**2 / 2 - pi * u**3 / 3
            + pi * D * (1 - 2 * k) * ((2 * u - t) / 4 * sqrt(s + t * u - u**2) + t * sqrt(s) / 4 + k**2 * D**2 / 2 * (acos((t - 2 * u) / (2 * k * D)) - al)))


def tv2(D, f, k, h):
    al = asin((1 - 2 * k) / (2 * (f - k)))
    a1, D1 = f * D * (1 - cos(al)), 2 * f * D * sin(al)
    return pi * h**2 / 4 * (2 * a1 + D1**2 / 2 / a1 - 4 * h / 3)


def tor_a(D, f, k):
    al = asin((1 - 2 * k) / (2 * (f - k)))
    return f * D * (1 - cos(al)), k * D * cos(al)


def tor_v(D, f, k, h):
    al = asin((1 - 2 * k) / (2 * (f - k)))
    a1, a2 = tor_a(D, f, k)
    if h <= a1:
        return tv2(D, f, k, h)
    if h <= a1 + a2:
        return tv1(D, f, k, h)
    D1, s, t = 2 * f * D * sin(al), (k * D * sin(al))**2, 2 * a2
    return (pi / 4 * (2 * a1**3 / 3 + a1 * D1**2 / 2) + pi * t / 2 * ((D / 2 - k * D)**2 + s) + pi * t**3 / 12
            + pi * D * (1 - 2 * k) * (t * sqrt(s) / 4 + k**2 * D**2 / 2 * asin(cos(al))) + pi * D**2 / 4 * (h - a1 - a2))


def tor_vc(D, f, k, h):
    a1, a2 = tor_a(D, f, k)
    V = pi * D**2 * h / 4 - tv1(D, f, k, a1 + a2)
    if h < a2:
        return V + tv1(D, f, k, a1 + a2 - h)
    if h < a1 + a2:
        return V + tv2(D, f, k, a1 + a2 - h)
    return V


VERT = {
    'conical': cone_v, 'ellipsoidal': ell_v, 'spherical': sph_v,
    'conical_concave': lambda D, a, h: pi * D**2 / 12 * (3 * h + a - (a + h)**3 / a**2) if h < -a else pi * D**2 / 12 * (3 * h + a),
    'ellipsoidal_concave': lambda D, a, h: pi * D**2 / 12 * (3 * h + 2 * a - (a + h)**2 * (2 * a - h) / a**2) if h < -a else pi * D**2 / 12 * (3 * h + 2 * a),
    'spherical_concave': lambda D, a, h: pi / 12 * (3 * D**2 * h + a / 2 * (3 * D**2 + 4 * a**2) + (a + h)**3 * (4 - (3 * D**2 + 12 * a**2) / (2 * a * (a + h)))) if h < -a else pi / 12 * (3 * D**2 * h + a / 2 * (3 * D**2 + 4 * a**2)),
}
for _n, _ref in VERT.items():
    def _code(D, al, h, n=_n):
        return getattr(G, 'V_vertical_' + n)(D, al * D * (-1 if 'concave' in n else 1), h)
    same_formula('P12', _code, lambda D, al, h, n=_n, r=_ref: r(D, al * D * (-1 if 'concave' in n else 1), h) if h > 0 else 0.0,
                 dict(D=(0.1, 10.), al=(0.02, 2.0), h=(-0.5, 30.)), name='V_vertical_' + _n, domain='assume')
TV = dict(D=(0.1, 10.), f=(0.8, 1.1), k=(0.05, 0.15), x=(-0.1, 1.5))
same_formula('P12', lambda D, f, k, x: G.V_vertical_torispherical(D, f, k, x * D), lambda D, f, k, x: tor_v(D, f, k, x * D) if x > 0 else 0.0, TV, name='V_vertical_torispherical', timeout=90, domain='assume')
same_formula('P12', lambda D, f, k, x: G.V_vertical_torispherical_concave(D, f, k, x * D), lambda D, f, k, x: tor_vc(D, f, k, x * D) if x > 0 else 0.0, TV, name='V_vertical_torispherical_concave', timeout=90, domain='assume')
same_formula('P12', lambda D, f, k, x=0: G.a_torispherical(D, f, k), lambda D, f, k: sum(tor_a(D, f, k)), {k: v for k, v in TV.items() if k != 'x'}, name='a_torispherical', domain='assume')


# --- areas
def sa_ell(D, a):
    R = D / 2
    if a == R:
        return 2 * pi * R**2
    if a < R:
        e = sqrt(1 - a**2 / R**2)
        return pi * R**2 + pi * a**2 / 2 / e * log((1 + e) / (1 - e))
    return pi * R**2 + pi * a**2 * R / sqrt(a**2 - R**2) * acos(R / a)


def sa_tor(D, f, k):
    al1 = f * (1 - sqrt(1 - ((0.5 - k) / (f - k))**2))
    al2 = f - sqrt(f**2 - 2 * f * k + k - 0.25)
    return 2 * pi * D**2 * f * al1 + 2 * pi * D**2 * k * (al2 - al1 + (0.5 - k) * (0.0 - asin((al1 - al2) / k)))


SAH = {'conical': lambda D, a: pi * D / 2 * sqrt(a**2 + D**2 / 4), 'ellipsoidal': sa_ell,
       'guppy': lambda D, a: pi * D / 4 * sqrt(a**2 + D**2) + pi * D / 2 * a, 'spherical': lambda D, a: pi * (a**2 + D**2 / 4), None: lambda D, a: pi * D**2 / 4}
for _n in ('ellipsoidal', 'conical', 'guppy'):
    same_formula('P12', lambda D, al, n=_n: getattr(G, 'SA_%s_head' % n)(D, al * D), lambda D, al, n=_n: SAH[n](D, al * D), dict(D=(0.1, 10.), al=(0.02, 2.0)), name='SA_%s_head' % _n)
same_formula('P12', G.SA_torispheroidal, sa_tor, dict(D=(0.1, 10.), f=(0.8, 1.1), k=(0.05, 0.15)), name='SA_torispheroidal', domain='assume')


def sav_cone(D, a, h):
    return pi * D / 2 * h**2 * sqrt(a**2 + D**2 / 4) / a**2


def sav_ell(D, a, h):
    R = D / 2
    if a == R:
        return pi * D * h
    b = a - h
    s = pi * R**2 - pi * b * R * sqrt(a**4 - b**2 * (a**2 - R**2)) / a**2
    if a > R:
        return s + pi * a**2 * R / sqrt(a**2 - R**2) * (acos(R / a) - asin(b * sqrt(a**2 - R**2) / a**2))
    q = sqrt(R**2 - a**2)
    return s + pi * a**2 * R / q * log(a * (q + R) / (b * q + sqrt(a**4 + b**2 * (R**2 - a**2))))


def sav_sph(D, a, h):
    return pi * h * (a**2 + D**2 / 4) / a


def sav_tor(D, f, k, h):
    a1, a2 = tor_a(D, f, k)
    if h < a1:
        return 2 * pi * f * D * h
    return 2 * pi * f * D * a1 + 2 * pi * k * D * (h - a1 + (D / 2 - k * D) * (asin(a2 / (k * D)) - asin((a1 + a2 - h) / (k * D))))


SAV = {'conical': sav_cone, 'ellipsoidal': sav_ell, 'spherical': sav_sph}
for _n, _ref in SAV.items():
    for _lo, _hi in ((0.02, 0.4999), (0.5, 0.5), (0.5001, 2.0)):
        def _h(ctx, n=_n, r=_ref, lo=_lo, hi=_hi):
            D, al = ctx.real('D', 0.1, 10.), ctx.real('al', lo, hi) if lo < hi else lo
            level, y = levels(ctx)
            S = getattr(G, 'SA_partial_vertical_%s_head' % n)(D, al * D, y * al * D)
            ctx.close('wetted area', S, {'inside': lambda: r(D, al * D, al * D * y), 'below': lambda: 0.0, 'empty': lambda: 0.0}.get(level, lambda: r(D, al * D, al * D) if n == 'ellipsoidal' and al < 0.5 else SAH[n](D, al * D))())
        _h.__name__ = 'SA_partial_vertical_%s[%g..%g]' % (_n, _lo, _hi)
        harness('P12', funcs='SA_partial_vertical_%s_head' % _n, bounds='D in [.1,10], a/D in [%g,%g], h/a from below 0 to above 1' % (_lo, _hi), timeout=90, domain='assume')(_h)
same_formula('P12', lambda D, f, k, x: G.SA_partial_vertical_torispherical_head(D, f, k, x * D),
             lambda D, f, k, x: (sav_tor(D, f, k, x * D) if x * D <= sum(tor_a(D, f, k)) else sav_tor(D, f, k, sum(tor_a(D, f, k)))) if x > 0 else 0.0, TV, name='SA_partial_vertical_torispherical', timeout=90, domain='assume')
same_formula('P12', lambda D, n: getattr(G, 'SA_partial_vertical_%s_head' % n)(D, 0.0, D / 3), lambda D, n: pi * D**2 / 4, dict(D=(0.1, 10.)), choices=dict(n=['conical', 'ellipsoidal', 'spherical']), name='SA_partial_vertical_flat')


def sah(ctx, n, D, a, h):
    """wetted area of one horizontal head, 0 <= h <= D"""
    R = D / 2
    if n is None:
        return segment(D, h)
    if n == 'conical':
        return sqrt(a**2 + R**2) / R * segment(D, h)
    if n == 'spherical':
        return (a**2 + R**2) / a * ctx.integral(lambda x: asin(2 * a * sqrt(R**2 - x**2) / sqrt((a**2 + R**2)**2 - 4 * a**2 * x**2)), R - h, R)
    if n == 'ellipsoidal':
        c = R**2 - a**2
        from fluids.geometry import ellipe
        return 2 / R * ctx.integral(lambda y: sqrt(R**4 - c * y**2) * ellipe(c * (y**2 - R**2) / (c * y**2 - R**4)), R - h, R)


for _n in ('conical', 'spherical', 'ellipsoidal'):
    def _h(ctx, n=_n):
        D, al = ctx.real('D', 0.1, 10.), ctx.real('al', 0.02, 2.0)
        level, x = levels(ctx)
        S = getattr(G, 'SA_partial_horiz_%s_head' % n)(D, al * D, x * D)
        if level in ('below', 'empty'):
            ctx.close('empty', S, 0.0)
        elif n == 'spherical' and al == 0.5:
            ctx.close('hemisphere', S, pi * D / 2 * (x if level == 'inside' else 1.0) * D)
        elif n == 'conical' and level != 'inside':
            ctx.close('full', S, SAH[n](D, al * D))
        else:
            ctx.close('wetted area', S, sah(ctx, n, D, al * D, x * D if level == 'inside' else D), rtol=1e-5)
    _h.__name__ = 'SA_partial_horiz_' + _n
    harness('P12', funcs='SA_partial_horiz_%s_head' % _n, bounds='D in [.1,10], a/D in [.02,2], h/D in [-.2,1.3]', timeout=90, domain='assume', **ST)(_h)


@harness('P12', funcs='SA_partial_horiz_spherical_head', bounds='D in [.1,10], h/D in [-.2,1.3]')
def hemisphere(ctx):
    D, x = ctx.real('D', 0.1, 10.), ctx.real('x', -0.2, 1.3)
    S = G.SA_partial_horiz_spherical_head(D, D / 2, x * D)
    ctx.close('zone of a sphere', S, pi * D**2 / 2 * (0.0 if x < 0 else 1.0 if x > 1 else x))


# --- whole tanks
HEADS = (None, 'conical', 'ellipsoidal', 'guppy', 'spherical', 'torispherical')


class Swap:
    """The head functions (each compared with its own formula above) replaced
    by arbitrary ones, so that what V_from_h, V_tank, SA_from_h and SA_tank
    ask of which head is compared, whatever the head's formula is.  A weighted
    sum of the arguments tells any two different calls apart.  run() calls the
    code and the reference; if the code does not reach a replaced function
    (it may be bound elsewhere), both are compared with the real heads."""

    def __init__(self, kind):
        self.kind = kind  # prefix(es) of the functions to replace

    def fake(self, name, n):
        import inspect
        sig = inspect.signature(self.real[name])

        def f(*args, **kw):
            b = sig.bind(*args, **kw)
            b.apply_defaults()
            v = dict(b.arguments)
            self.used = True
            h, D = v.pop('h', None), v.get('D')
            only = v.pop('headonly', True)
            if h is not None:
                if h <= 0:
                    return 0.0
                if 'horiz' in name and h > D:
                    h = D
            r = 100.0 + 7 * n + (0.0 if only else 31.0)
            for i, q in enumerate(v):
                r = r + (0.0 if only and q == 'L' else (1.37 + 0.59 * i + 0.11 * n) * v[q])
            return r if h is None else h * (r + 0.83 * h)   # vanishes with h, as the real ones do
        return f

    def run(self, code, ref):
        names = [q for q in dir(G) if q.startswith(self.kind)]
        self.real = {q: getattr(G, q) for q in names}
        self.used = False
        try:
            for n, q in enumerate(names):
                setattr(G, q, self.fake(q, n))
            got = code()
            if self.used:
                return got, ref()
        finally:
            for q, v in self.real.items():
                setattr(G, q, v)
        return code(), ref()


def head_h(n, D, a, f, k, h):
    """volume of one horizontal head up to 0 <= h <= D (each checked above)"""
    if n is None:
        return 0.0
    if n == 'torispherical':
        return G.V_horiz_torispherical(D, 0.0, f, k, h, headonly=True)
    return getattr(G, 'V_horiz_' + n)(D, 0.0, a, h, headonly=True)


def head_v(n, D, a, f, k, h):
    if n in (None, 'guppy'):
        return 0.0
    if n == 'torispherical':
        return G.V_vertical_torispherical(D, f, k, h)
    return getattr(G, 'V_vertical_' + n)(D, a, h)


def head_a(n, D, a, f, k):
    if n == 'torispherical':
        return G.SA_torispheroidal(D, f, k)
    if n in (None, 'spherical'):
        return SAH[n](D, a)
    return getattr(G, 'SA_%s_head' % n)(D, a)


def wet_h(n, D, a, f, k, h):
    if n is None:
        return G.A_partial_circle(D, h)
    if n == 'torispherical':
        return G.SA_partial_horiz_torispherical_head(D, f, k, h)
    return getattr(G, 'SA_partial_horiz_%s_head' % n)(D, a, h)


def wet_v(n, D, a, f, k, h):
    if n is None:
        return pi / 4 * D**2
    if n == 'torispherical':
        return G.SA_partial_vertical_torispherical_head(D, f, k, h)
    return getattr(G, 'SA_partial_vertical_%s_head' % n)(D, a, h)


def sides(ctx, A, B):
    f1, k1, f2, k2 = ctx.real('fA', 0.8, 1.1), ctx.real('kA', 0.05, 0.15), ctx.real('fB', 0.8, 1.1), ctx.real('kB', 0.05, 0.15)
    D = ctx.real('D', 0.5, 5.)
    a1, a2 = ctx.real('alA', 0.05, 1.0) * D, ctx.real('alB', 0.05, 1.0) * D
    if A == B and A is not None and ctx.choice('equal heads', [False, True]):
        a2, f2, k2 = a1, f1, k1
    if A is None:
        a1 = 0.0
    if B is None:
        a2 = 0.0
    kw = dict(sideA=A, sideB=B)
    if A == 'torispherical':
        kw.update(sideA_f=f1, sideA_k=k1)
        a1 = sum(tor_a(D, f1, k1))
    if B == 'torispherical':
        kw.update(sideB_f=f2, sideB_k=k2)
        a2 = sum(tor_a(D, f2, k2))
    kw.update(sideA_a=a1, sideB_a=a2)
    return D, ctx.real('L', 0.1, 20.), (D, a1, f1, k1), (D, a2, f2, k2), kw


WH = dict(timeout=180, domain='assume', **ST)
for _A in HEADS:
    def _h(ctx, A=_A):
        B = ctx.choice('sideB', HEADS)
        D, L, hA, hB, kw = sides(ctx, A, B)
        x = ctx.choice('level', ['inside', 'full', 'above', 'below'])
        x = ctx.real('x', 0.001, 0.999) if x == 'inside' else 1.0 if x == 'full' else 1.4 if x == 'above' else -0.2
        c = 0.0 if x < 0 else D if x >= 1 else x * D
        def area():
            return 0.0 if x < 0 else pi / 4 * D**2 if x >= 1 else segment(D, c)
        if x >= 0:
            V, R = Swap('V_horiz_').run(lambda: G.V_from_h(x * D, D, L, True, **kw), lambda: head_h(A, *hA, c) + head_h(B, *hB, c) + L * area())
            ctx.close('volume of the horizontal tank', V, R)
            V, R = Swap('SA_partial_horiz_').run(lambda: G.SA_from_h(x * D, D, L, True, **kw), lambda: wet_h(A, *hA, c) + wet_h(B, *hB, c) + (L * D * acos(1 - 2 * x) if x < 1 else pi * D * L))
            ctx.close('wetted area of the horizontal tank', V, R)
    _h.__name__ = 'from_h_horizontal_%s' % _A
    harness('P12', funcs='V_from_h, SA_from_h', bounds='sideA %s, every sideB; heads arbitrary; D in [.5,5], a/D in [.05,1], h inside, full and above' % _A, **WH)(_h)

    def _h(ctx, A=_A):
        B = ctx.choice('sideB', HEADS)
        D, L, hA, hB, kw = sides(ctx, A, B)
        V, R = Swap('V_horiz_').run(lambda: G.V_tank(D, L, True, **kw), lambda: (head_h(A, *hA, D), head_h(B, *hB, D)))
        cmp(ctx, 'full horizontal tank', V, (sum(R) + pi / 4 * D**2 * L, *R, pi / 4 * D**2 * L))
        if A != 'guppy' and B != 'guppy':
            V, R = Swap('V_vertical_').run(lambda: G.V_tank(D, L, False, **kw), lambda: (head_v(A, *hA, hA[1]), head_v(B, *hB, hB[1])))
            cmp(ctx, 'full vertical tank', V, (sum(R) + pi / 4 * D**2 * L, *R, pi / 4 * D**2 * L))
        V, R = Swap(('SA_torispheroidal', 'SA_conical', 'SA_ellipsoidal', 'SA_guppy')).run(lambda: G.SA_tank(D, L, **kw), lambda: (head_a(A, *hA), head_a(B, *hB)))
        cmp(ctx, 'surface area', V, (sum(R) + pi * D * L, *R, pi * D * L))
    _h.__name__ = 'V_tank_SA_tank_%s' % _A
    harness('P12', funcs='V_tank, SA_tank', bounds='sideA %s, every sideB; heads arbitrary; D in [.5,5], a/D in [.05,1]' % _A, **WH)(_h)
    if _A == 'guppy':
        continue

    def _h(ctx, A=_A):
        B = ctx.choice('sideB', [x for x in HEADS if x != 'guppy'])
        D, L, hA, hB, kw = sides(ctx, A, B)
        a1, a2 = hA[1], hB[1]
        where = ctx.choice('level', ['below', 'bottom head', 'shell', 'top head', 'full', 'above'])
        y = ctx.real('y', 0.001, 0.999)
        S, C = pi / 4 * D**2, pi * D
        if where == 'bottom head' and A is None or where == 'top head' and B is None:
            return
        H = {'below': -y, 'bottom head': y * a1, 'shell': a1 + y * L, 'top head': a1 + L + y * a2, 'full': a1 + L + a2, 'above': a1 + L + a2 + y}[where]

        def level(head, side, whole=True):
            if where == 'below':
                return head(A, *hA, 0.0) if A is not None else 0.0
            if where == 'bottom head':
                return head(A, *hA, H)
            if where == 'shell':
                return head(A, *hA, a1) + side * y * L
            r = head(A, *hA, a1) + side * L + head(B, *hB, a2)
            return r - head(B, *hB, a2 * (1 - y)) if where == 'top head' else r
        V, R = Swap('V_vertical_').run(lambda: G.V_from_h(H, D, L, False, **kw), lambda: level(head_v, S))
        ctx.close('volume of the vertical tank', V, R)
        if where != 'below':
            V, R = Swap('SA_partial_vertical_').run(lambda: G.SA_from_h(H, D, L, False, **kw), lambda: level(wet_v, C))
            ctx.close('wetted area of the vertical tank', V, R)
    _h.__name__ = 'from_h_vertical_%s' % _A
    harness('P12', funcs='V_from_h, SA_from_h', bounds='sideA %s, every sideB but guppy; heads arbitrary; h below, in each section, full and above' % _A, **WH)(_h)


@harness('P12', funcs='V_from_h, V_tank, SA_from_h, SA_tank', bounds='unsupported and incomplete heads')
def bad_heads(ctx):
    D, L, h = ctx.real('D', 0.5, 5.), ctx.real('L', 0.1, 20.), ctx.real('h', 0.01, 0.4)
    kw = ctx.choice('heads', [dict(sideA='pyramid'), dict(sideB='pyramid'), dict(sideA='torispherical'), dict(sideB='torispherical', sideB_k=0.1), dict(sideA='torispherical', sideA_f=1.0)])
    for horizontal in (True, False):
        ctx.raises('V_tank', G.V_tank, D, L, horizontal, **kw, exc='ValueError')
        ctx.raises('V_from_h', G.V_from_h, h, D, L, horizontal, **kw, exc='ValueError')
        hh = h if horizontal else L + h
        ctx.raises('SA_from_h', G.SA_from_h, hh, D, L, horizontal, **dict(kw, sideB_a=0.3), exc='ValueError')


# --- TANK
def tank_kw(ctx, n):
    return {}


for _n in HEADS:
    for _horizontal in (True, False):
        if _n == 'guppy' and not _horizontal:
            continue

        def _h(ctx, n=_n, horizontal=_horizontal):
            D, lod = ctx.real('D', 0.5, 5.), ctx.real('LD', 0.5, 6.)
            L = D * lod
            r = ctx.real('ratio', 0.05, 0.45)
            kw = dict(sideA=n, sideB=n, horizontal=horizontal)
            how = ctx.choice('heads', ['default', 'ratio', 'depth', 'same A', 'same B'])
            f, k = ctx.real('f', 0.8, 1.1), ctx.real('k', 0.05, 0.15)
            a = None if n is None else 0.25 * D
            if n == 'torispherical':
                if how == 'default':
                    f, k = 1.0, 0.06
                else:
                    kw.update(sideA_f=f, sideA_k=k, sideB_f=f, sideB_k=k)
                a = sum(tor_a(D, f, k))
            elif n is not None and how != 'default':
                a = r * D
                kw.update(dict(sideA_a_ratio=r, sideB_a_ratio=r) if how == 'ratio' else dict(sideA_a=a, sideB_a=a))
            if how == 'same A':
                kw = {q: v for q, v in kw.items() if not q.startswith('sideA')}
                kw['sideA'] = 'same'
            elif how == 'same B':
                kw = {q: v for q, v in kw.items() if not q.startswith('sideB')}
                kw['sideB'] = 'same'
            kw.update(ctx.choice('size', [dict(D=D, L=L), dict(D=D, L_over_D=lod), dict(L=L, L_over_D=lod)]))
            T = G.TANK(**kw)
            ctx.close('D', T.D, D)
            ctx.close('L', T.L, L)
            ctx.close('L_over_D', T.L_over_D, lod)
            ctx.close('R', T.R, D / 2)
            a_ = 0.0 if a is None else a
            ctx.close('head depth A', T.sideA_a, a_, rtol=1e-9)
            ctx.close('head depth B', T.sideB_a, a_, rtol=1e-9)
            ctx.close('ratio', T.sideA_a_ratio, a_ / D)
            ctx.close('height', T.h_max, D if horizontal else L + 2 * a_)
            vh = head_h(n, D, a_, f, k, D) if horizontal else head_v(n, D, a_, f, k, a_)
            ctx.close('volume', T.V_total, 2 * vh + pi / 4 * D**2 * L, rtol=1e-5)
            sa = sa_tor(D, f, k) if n == 'torispherical' else SAH[n](D, a_)
            ctx.close('area', T.A, 2 * sa + pi * D * L, rtol=1e-5)
            ctx.close('parts', T.V_sideA + T.V_sideB + T.V_lateral, T.V_total)
            ctx.close('area beyond a flat plate', T.A_sideA_extra, sa - pi / 4 * D**2, rtol=1e-5, atol=1e-5)
        _h.__name__ = 'TANK_%s_%s' % (_n, 'horizontal' if _horizontal else 'vertical')
        harness('P12', funcs='TANK.__init__, TANK.set_misc', bounds='D in [.5,5], L/D in [.5,6], head ratio in [.05,.45]', timeout=180, domain='assume', **ST)(_h)


@harness('P12', funcs='TANK._solve_tank_for_V', bounds='V in [.1,100], D in [.5,3], L in [.5, 20], L/D in [.5,6]; root finder by contract', timeout=180, domain='assume', stub=True, roots=(0.1, 1e3), mp=False)
def TANK_for_volume(ctx):
    V = ctx.real('V', 0.1, 100.)
    n = ctx.choice('heads', [None, 'conical', 'ellipsoidal'])
    horizontal = ctx.choice('horizontal', [True, False])
    what = ctx.choice('given', ['D', 'L', 'L_over_D'])
    kw = dict(V=V, horizontal=horizontal, sideA=n, sideB=n)
    if n:
        kw.update(sideA_a_ratio=0.3, sideB_a_ratio=0.2)
    v = ctx.real('v', 0.5, 5.)
    T = G.TANK(**{what: v}, **kw)
    ctx.close('target volume', T.V_total, V, rtol=1e-6)
    ctx.close('given dimension kept', getattr(T, what), v, rtol=1e-6)
    ctx.close('L = D L_over_D', T.L, T.D * T.L_over_D, rtol=1e-6)
    if n:
        ctx.close('head ratio', T.sideA_a, 0.3 * T.D, rtol=1e-6)
        ctx.close('head ratio B', T.sideB_a, 0.2 * T.D, rtol=1e-6)
    ctx.raises('over-specified', G.TANK, V=V, D=v, L=v, exc='ValueError')


@harness('P12', funcs='TANK.V_from_h, TANK.h_from_V, TANK.SA_from_h, TANK.A_cross_sectional', bounds='D in [.5,5], L in [.5,20], V/V_total in [.02,.98]', timeout=180, domain='assume', stub=True, roots=(1e-4, 100.), mp=False)
def TANK_levels(ctx):
    D, L = ctx.real('D', 0.5, 5.), ctx.real('L', 0.5, 20.)
    n = ctx.choice('heads', [None, 'conical', 'ellipsoidal'])
    horizontal = ctx.choice('horizontal', [True, False])
    kw = dict(sideA=n, sideB=n, sideA_a=0.3 * D, sideB_a=0.2 * D) if n else {}
    T = G.TANK(D=D, L=L, horizontal=horizontal, **kw)
    y = ctx.real('y', 0.02, 0.98)
    V = y * T.V_total
    h = T.h_from_V(V, 'brenth')
    ctx.close('h_from_V inverts V_from_h', G.V_from_h(h, D, L, horizontal, **kw), V, rtol=1e-6)
    ctx.close('V_from_h', T.V_from_h(y * T.h_max), G.V_from_h(y * T.h_max, D, L, horizontal, **kw))
    if horizontal is False:
        ctx.close('SA_from_h', T.SA_from_h(y * T.h_max), G.SA_from_h(y * T.h_max, D, L, horizontal, **kw))
        hs = T.sideA_a + y * L
        ctx.close('cross section of the shell', T.A_cross_sectional(hs), pi / 4 * D**2, rtol=1e-4)
    ctx.close('no cross section at the top', T.A_cross_sectional(T.h_max), 0.0)
    ctx.raises('unknown method', T.V_from_h, y, 'guess', exc='ValueError')
    ctx.raises('unknown method for area', T.SA_from_h, y, 'guess', exc='ValueError')


@harness('P12', funcs='TANK.add_thickness', bounds='D in [.5,5], L in [.5,20], thickness in [.001,.1]', timeout=180, domain='assume', **ST)
def TANK_thickness(ctx):
    D, L = ctx.real('D', 0.5, 5.), ctx.real('L', 0.5, 20.)
    t, tA, tB = ctx.real('t', 0.001, 0.1), ctx.real('tA', 0.001, 0.1), ctx.real('tB', 0.001, 0.1)
    n = ctx.choice('heads', [None, 'conical', 'ellipsoidal', 'torispherical'])
    horizontal = n != 'torispherical' and ctx.choice('horizontal', [True, False])
    kw = dict(sideA=n, sideB=n)
    if n == 'torispherical':
        kw.update(sideA_f=1.0, sideA_k=0.1, sideB_f=0.9, sideB_k=0.06)
    elif n:
        kw.update(sideA_a=0.3, sideB_a=0.2)
    each = ctx.choice('each', [False, True])
    if not each:
        tA = tB = t
    T = G.TANK(D=D, L=L, horizontal=horizontal, **kw)
    U = T.add_thickness(t, tA, tB) if each else T.add_thickness(t)
    ctx.close('D', U.D, D + 2 * t)
    ctx.close('L', U.L, L + tA + tB)
    ctx.same('heads', (U.sideA, U.sideB, U.horizontal), (n, n, horizontal))
    if n == 'torispherical':
        ctx.close('torispherical A', U.sideA_a, sum(tor_a(D + 2 * t, 1.0, 0.1)))
        ctx.close('torispherical B', U.sideB_a, sum(tor_a(D + 2 * t, 0.9, 0.06)))
    elif n:
        ctx.close('head A', U.sideA_a, 0.3 + tA)
        ctx.close('head B', U.sideB_a, 0.2 + tB)
    else:
        ctx.close('flat heads stay flat', U.sideA_a + U.sideB_a, 0.0)
        ctx.close('outer height', U.h_max, D + 2 * t if horizontal else L + tA + tB)

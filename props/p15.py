"""P15: two-phase pressure drop."""
from math import cos, exp, log, pi, sin, sqrt

from symx.harness import harness
from symx.formula import cmp
from symx.swap import Swap
import fluids.two_phase as F

META = dict(
    title='Two-phase pressure drops and regimes follow their documented correlations',
    statement='Each of the two-phase pressure drop correlations of fluids.two_phase (Beggs-Brill, Friedel, Gronnerud, Chisholm with and without the roughness correction, Baroczy-Chisholm, Muller-Steinhagen-Heck, Lombardi-Pedrocchi, Theissing, Jung-Radermacher, Tran, Chen-Friedel, Zhang-Webb, Bankoff, Xu-Fang, Yu-France, Wang-Chiang-Lu, Hwang-Kim, Zhang-Hibiki-Mishima, Mishima-Hibiki, Kim-Mudawar, Lockhart-Martinelli) equals its documented formula for all flows, qualities, properties and diameters and in every regime (flow map, mass flux, Gamma, Froude, Bond and laminar/turbulent limits), whatever the friction factors are; where the correlation covers x = 0 and x = 1 it gives the liquid-only and gas-only pressure drop there. '
              'two_phase_dP selects the documented default, passes every input to the method asked for, raises TypeError for a missing input and ValueError for an unknown method, and two_phase_dP_methods lists exactly the methods the inputs allow. '
              'The acceleration and gravitational terms follow their formulas, the outlet defaulting to the inlet. The Taitel-Dukler and Mandhane-Gregory-Aziz maps give the regime and parameters their boundaries define.',
    over=['inputs', 'configurations'],
    text='m 0.001 to 50 kg/s, x 0 to 1, D 0.5 mm to 1 m, densities 300 to 1500 and 0.5 to 100 kg/m3, angles -90 to 90; friction factors arbitrary (a function of Re and eD)',
    why='24 correlations with up to six regimes each and a 24-way dispatcher; tests sample one or two points',
    files=['fluids/two_phase.py'],
    mech=['Beggs_Brill .. Lockhart_Martinelli', 'two_phase_dP, two_phase_dP_methods', 'two_phase_dP_acceleration, two_phase_dP_gravitational', 'Taitel_Dukler_regime, Mandhane_Gregory_Aziz_regime'],
)

G0 = 9.80665
R = dict(m=(0.001, 50.), x=(0.005, 0.995), rhol=(300., 1500.), rhog=(0.5, 100.), mul=(5e-5, 1e-2), mug=(5e-6, 4e-5), sigma=(0.005, 0.08), D=(0.0005, 1.), roughness=(1e-7, 1e-4), L=(0.1, 10.),
         P=(1e4, 2e6), Pc=(2.1e6, 1e7), angle=(-89.9, 89.9))


def ff(Re, eD=0.0, *a, **k):
    """an arbitrary friction factor: different for every Re and roughness"""
    return 0.003 + 0.3 * Re**-0.25 + 0.7 * eD


class S:
    """phase quantities, independent of the code"""
    def __init__(s, m, D, rhol=None, rhog=None, mul=None, mug=None, x=None, roughness=0.0, L=1.0, f=None, **k):
        s.G = m / (pi / 4 * D**2)
        f = f or F.friction_factor
        def dp(G, rho, mu):
            Re = G * D / mu
            v = G / rho
            return Re, f(Re=Re, eD=roughness / D), v
        def fill(n, G, rho, mu):
            Re, fd, v = dp(G, rho, mu)
            setattr(s, 'Re' + n, Re)
            setattr(s, 'f' + n, fd)
            setattr(s, 'v' + n, v)
            setattr(s, 'dP' + n, fd * L / D * rho * v**2 / 2)
        if mul is not None:
            fill('lo', s.G, rhol, mul)
        if mug is not None:
            fill('go', s.G, rhog, mug)
        if x is not None and not isinstance(x, int):
            if mul is not None:
                fill('l', s.G * (1 - x), rhol, mul)
            if mug is not None:
                fill('g', s.G * x, rhog, mug)
        if x is not None and rhog is not None:
            s.rhoh = 1 / (x / rhog + (1 - x) / rhol)


def Friedel(sigma, **k):
    s = S(**k)
    x, rr, mr, D = k['x'], k['rhol'] / k['rhog'], k['mug'] / k['mul'], k['D']
    Fr = s.G**2 / (G0 * D * s.rhoh**2)
    We = s.G**2 * D / (sigma * s.rhoh)
    E = (1 - x)**2 + x**2 * rr * s.fgo / s.flo
    return s.dPlo * (E + 3.24 * x**0.78 * (1 - x)**0.224 * rr**0.91 * mr**0.19 * (1 - mr)**0.7 / (Fr**0.0454 * We**0.035))


def Gronnerud(**k):
    s = S(**k)
    x = k['x']
    Fr = s.G**2 / (G0 * k['D'] * k['rhol']**2)
    f = 1.0 if Fr >= 1 else Fr**0.3 + 0.0055 * log(1 / Fr)**2
    a = f * (x + 4 * (x**1.8 - x**10 * f**0.5))
    return s.dPlo * (1 + a * (k['rhol'] / k['rhog'] / (k['mul'] / k['mug'])**0.25 - 1))


def Chisholm(rough_correction=False, baroczy=False, **k):
    s = S(**k)
    x, G = k['x'], s.G
    g2 = s.dPgo / s.dPlo
    ga = g2**0.5
    if ga <= 9.5:
        B = 55 / G**0.5 if baroczy or G >= 1900 else 4.8 if G <= 500 else 2400 / G
    elif ga <= 28:
        B = 520 / (ga * G**0.5) if baroczy or G <= 600 else 21 / ga
    else:
        B = 15000 / (g2 * G**0.5)
    n = 0.25
    if rough_correction:
        n = log(s.flo / s.fgo) / log(s.Rego / s.Relo)
        B = B * (0.5 * (1 + (k['mug'] / k['mul'])**2 + 10**(-600 * k['roughness'] / k['D'])))**((0.25 - n) / 0.25)
    return s.dPlo * (1 + (g2 - 1) * (B * x**((2 - n) / 2) * (1 - x)**((2 - n) / 2) + x**(2 - n)))


def Muller(**k):
    s = S(**k)
    x = k['x']
    return (s.dPlo + 2 * (s.dPgo - s.dPlo) * x) * (1 - x)**(1 / 3.) + s.dPgo * x**3


def Lombardi(sigma, D, L, **k):
    s = S(D=D, L=L, **k)
    return 0.83 * s.G**1.4 * sigma**0.4 * L / (D**1.2 * s.rhoh**0.866)


def Theissing(**k):
    s = S(**k)
    x = k['x']
    if isinstance(x, int) and x == 0:
        return s.dPlo
    if isinstance(x, int) and x == 1:
        return s.dPgo
    n1, n2 = log(s.dPl / s.dPlo) / log(1 - x), log(s.dPg / s.dPgo) / log(x)
    r = (s.dPg / s.dPl)**0.1
    n = (n1 + n2 * r) / (1 + r)
    rr = k['rhol'] / k['rhog']
    e = 3 - 2 * (2 * sqrt(rr) / (1 + rr))**(0.7 / n)
    return (s.dPlo**(1 / (n * e)) * (1 - x)**(1 / e) + s.dPgo**(1 / (n * e)) * x**(1 / e))**(n * e)


def xtt(x, k):
    return ((1 - x) / x)**0.9 * (k['rhog'] / k['rhol'])**0.5 * (k['mul'] / k['mug'])**0.1


def Jung(**k):
    return S(**k).dPlo * 12.82 * xtt(k['x'], k)**-1.47 * (1 - k['x'])**1.8


def Co(sigma, k):
    return sqrt(sigma / (G0 * (k['rhol'] - k['rhog']))) / k['D']


def Tran(sigma, **k):
    s = S(**k)
    x = k['x']
    return s.dPlo * (1 + (4.3 * s.dPgo / s.dPlo - 1) * (Co(sigma, k) * x**0.875 * (1 - x)**0.875 + x**1.75))


def Chen(sigma, **k):
    s = S(**k)
    D = k['D']
    Bo = G0 * (k['rhol'] - k['rhog']) * D**2 / (4 * sigma)
    We = s.G**2 * D / (sigma * s.rhoh)
    om = 0.0333 * s.Relo**0.45 / (s.Reg**0.09 * (1 + 0.4 * exp(-Bo))) if Bo < 2.5 else We**0.2 / (2.5 + 0.06 * Bo)
    return Friedel(sigma=sigma, **k) * om


def Webb(P, Pc, **k):
    s = S(**k)
    x = k['x']
    Pr = 0.5 if P is None or Pc is None else P / Pc
    return s.dPlo * ((1 - x)**2 + 2.87 * x**2 / Pr + 1.68 * x**0.8 * (1 - x)**0.25 * Pr**-1.64)


def Bankoff(**k):
    s = S(**k)
    x, r = k['x'], k['rhog'] / k['rhol']
    ga = (0.71 + 2.35 * r) / (1 + (1 - x) / x * r)
    return s.dPlo * ((1 - ga * (1 - r))**(3 / 7.) * (1 + x * (1 / r - 1)) / (1 - x))**(7 / 4.)


def Xu(sigma, **k):
    s = S(**k)
    x, D = k['x'], k['D']
    Y2 = s.dPgo / s.dPlo
    Fr = s.G**2 / (G0 * D * s.rhoh**2)
    We = s.G**2 * D / (sigma * s.rhoh)
    return s.dPlo * (Y2 * x**3 + (1 - x**2.59)**0.632 * (1 + 2 * x**1.17 * (Y2 - 1) + 0.00775 * x**-0.475 * Fr**0.535 * We**0.188))


def Yu(**k):
    s = S(**k)
    x = k['x']
    return s.dPl * (18.65 * (k['rhog'] / k['rhol'])**0.5 * (1 - x) / x * s.Reg**0.1 / s.Rel**0.5)**-1.9


def Wang(**k):
    s = S(**k)
    X = sqrt(s.dPl / s.dPg)
    if s.G >= 200:
        return s.dPg * (1 + 9.397 * X**0.62 + 0.564 * X**2.45)
    C = 0.000004566 * X**0.128 * s.Relo**0.938 * (k['rhol'] / k['rhog'])**-2.15 * (k['mul'] / k['mug'])**5.1
    return s.dPg * (1 + C * X + X**2)


def lm(s, C):
    X = sqrt(s.dPl / s.dPg)
    return s.dPl * (1 + C / X + 1 / X**2)


def Hwang(sigma, **k):
    s = S(**k)
    return lm(s, 0.227 * s.Relo**0.452 * sqrt(s.dPl / s.dPg)**-0.32 * Co(sigma, k)**-0.82)


def Zhang(sigma, flowtype='adiabatic vapor', **k):
    c = {'adiabatic vapor': 0.142, 'adiabatic gas': 0.674, 'flow boiling': 0.358}[flowtype]
    return lm(S(**k), 21 * (1 - exp(-c / Co(sigma, k))))


def Mishima(sigma, **k):
    return lm(S(**k), 21 * (1 - exp(-319 * k['D'])))


def fkm(Re, eD=None):
    return 64 / Re if Re < 2000 else 0.316 / Re**0.25 if Re < 20000 else 0.184 / Re**0.2


def Kim(sigma, **k):
    s = S(f=fkm, **k)
    Su = k['rhog'] * sigma * k['D'] / k['mug']**2
    rr = k['rhol'] / k['rhog']
    a, b, c, d = {(False, False): (3.5e-5, 0.44, 0.5, 0.48), (False, True): (0.0015, 0.59, 0.19, 0.36),
                  (True, False): (8.7e-4, 0.17, 0.5, 0.14), (True, True): (0.39, 0.03, 0.1, 0.35)}[(bool(s.Rel >= 2000), bool(s.Reg >= 2000))]
    return lm(s, a * s.Relo**b * Su**c * rr**d)


def Lockhart(Re_c=2000., **k):
    x = k['x']
    f = lambda Re, eD=None: 64 / Re if Re < Re_c else 0.184 / Re**0.2
    s = S(f=f, **k)
    if isinstance(x, int) and x == 0:
        return s.dPlo
    if isinstance(x, int) and x == 1:
        return s.dPgo
    return lm(s, {(False, False): 5., (False, True): 12., (True, False): 10., (True, True): 20.}[(bool(s.Rel >= Re_c), bool(s.Reg >= Re_c))])


def Beggs(m, x, rhol, rhog, mul, mug, sigma, P, D, angle, roughness, L, regime, g=G0, acceleration=True):
    A = pi / 4 * D**2
    vsg, vsl = x * m / rhog / A, (1 - x) * m / rhol / A
    vm = vsg + vsl
    Fr, la = vm**2 / (g * D), vsl / vm
    L1, L2, L3, L4 = 316 * la**0.302, 0.0009252 * la**-2.4684, 0.1 * la**-1.4516, 0.5 * la**-6.738
    Nv = vsl * (rhol / (g * sigma))**0.25
    if angle is None:
        angle = 0.0
    th = angle * pi / 180

    def hold(r):
        a, b, c = {'seg': (0.98, 0.4846, 0.0868), 'int': (0.845, 0.5351, 0.0173), 'dis': (1.065, 0.5824, 0.0609)}[r]
        H = max(a * la**b / Fr**c, la)
        if angle == 0 or (angle > 0 and r == 'dis'):
            return H
        d, e, f, h = (4.7, -0.3692, 0.1244, -0.5056) if angle < 0 else {'seg': (0.011, -3.768, 3.539, -1.614), 'int': (2.96, 0.305, -0.4473, 0.0978)}[r]
        C = max((1 - la) * log(d * la**e * Nv**f * Fr**h), 0)
        q = sin(1.8 * th)
        return H * (1 + C * (q - q**3 / 3))
    if regime == 'trans':
        w = (L3 - Fr) / (L3 - L2)
        Hl = w * hold('seg') + (1 - w) * hold('int')
    else:
        Hl = hold(regime)
    rhos = rhol * Hl + rhog * (1 - Hl)
    rhon, mun = rhol * la + rhog * (1 - la), mul * la + mug * (1 - la)
    fn = F.friction_factor(Re=rhon * vm * D / mun, eD=roughness / D)
    y = la / Hl**2
    if 1 < y and y < 1.2:
        s = log(2.2 * y - 1.2)
    else:
        u = log(y)
        s = u / (-0.0523 + 3.182 * u - 0.8725 * u**2 + 0.01853 * u**4)
    if s > 7.0:
        s = 7.0
    dP = g * sin(th) * rhos * L + fn * exp(s) * L / D * rhon * vm**2 / 2
    if acceleration:
        dP = dP / (1 - vm * vsg * rhos / (101325.0 if P is None else P))
    return dP


BASE = ('m', 'x', 'rhol', 'D', 'L')
ROUGH = BASE + ('rhog', 'mul', 'mug', 'roughness')
SIG = ROUGH + ('sigma',)
# method -> (function, reference, inputs, extra arguments, holds at x = 0 / 1)
M = {
    'Zhang_Webb': (F.Zhang_Webb, Webb, BASE + ('mul', 'roughness', 'P', 'Pc'), {}, (0, 1)),
    'Lockhart_Martinelli': (F.Lockhart_Martinelli, Lockhart, BASE + ('rhog', 'mul', 'mug'), {}, (0, 1)),
    'Bankoff': (F.Bankoff, Bankoff, ROUGH, {}, ()),
    'Baroczy_Chisholm': (F.Baroczy_Chisholm, lambda **k: Chisholm(baroczy=True, **k), ROUGH, {}, (0, 1)),
    'Chisholm': (F.Chisholm, Chisholm, ROUGH, {}, (0, 1)),
    'Gronnerud': (F.Gronnerud, Gronnerud, ROUGH, {}, (0, 1)),
    'Jung_Radermacher': (F.Jung_Radermacher, Jung, ROUGH, {}, ()),
    'Muller_Steinhagen_Heck': (F.Muller_Steinhagen_Heck, Muller, ROUGH, {}, (0, 1)),
    'Theissing': (F.Theissing, Theissing, ROUGH, {}, (0, 1)),
    'Wang_Chiang_Lu': (F.Wang_Chiang_Lu, Wang, ROUGH, {}, ()),
    'Yu_France': (F.Yu_France, Yu, ROUGH, {}, ()),
    'Kim_Mudawar': (F.Kim_Mudawar, Kim, BASE + ('rhog', 'mul', 'mug', 'sigma'), {}, ()),
    'Friedel': (F.Friedel, Friedel, SIG, {}, (0, 1)),
    'Hwang_Kim': (F.Hwang_Kim, Hwang, SIG, {}, ()),
    'Mishima_Hibiki': (F.Mishima_Hibiki, Mishima, SIG, {}, ()),
    'Tran': (F.Tran, Tran, SIG, {}, (0, 1)),
    'Xu_Fang': (F.Xu_Fang, Xu, SIG, {}, ()),
    'Zhang_Hibiki_Mishima': (F.Zhang_Hibiki_Mishima, Zhang, SIG, {}, ()),
    'Chen_Friedel': (F.Chen_Friedel, Chen, SIG, {}, ()),
    'Lombardi_Pedrocchi': (F.Lombardi_Pedrocchi, Lombardi, BASE + ('rhog', 'sigma'), {}, (0, 1)),
    'Chisholm rough': (F.Chisholm, Chisholm, ROUGH, dict(rough_correction=True), ()),
    'Zhang_Hibiki_Mishima adiabatic gas': (F.Zhang_Hibiki_Mishima, Zhang, SIG, dict(flowtype='adiabatic gas'), ()),
    'Zhang_Hibiki_Mishima flow boiling': (F.Zhang_Hibiki_Mishima, Zhang, SIG, dict(flowtype='flow boiling'), ()),
    'Beggs-Brill': (F.Beggs_Brill, Beggs, SIG + ('P', 'angle'), dict(acceleration=False), ()),
}


def one(meth):
    fn, ref, names, extra, ends = M[meth]

    def h(ctx):
        v = {k: ctx.real(k, *R[k]) for k in names if k not in ('x',)}
        kind = ctx.choice('x', ['inside'] + list(ends))
        x = ctx.real('x', *R['x']) if kind == 'inside' else float(kind)
        xr = x if kind == 'inside' else kind
        kw = dict(extra)
        if meth == 'Beggs-Brill':
            kw = dict(acceleration=ctx.choice('acceleration', [True, False]))
            a = ctx.choice('angle', ['any', None, 0.0])
            v['angle'] = v['angle'] if a == 'any' else a
        if meth == 'Zhang_Webb' and ctx.choice('pressures', [True, False]) is False:
            v['P'] = v['Pc'] = None
        if meth == 'Lockhart_Martinelli':
            kw = dict(Re_c=ctx.choice('Re_c', [2000., 1000.]))
        a, r = Swap(F, friction_factor=ff).run(lambda: fn(x=x, **v, **kw), lambda: ref(x=xr, **v, **kw))
        cmp(ctx, 'follows its documented formula', a, r)
    h.__name__ = 'corr_' + meth.replace(' ', '_').replace('-', '_')
    harness('P15', h.__name__, timeout=60, domain='assume' if meth in ('Theissing', 'Beggs-Brill') else 'decide', funcs=fn.__name__ + ((' %s' % extra) if extra else ''), bounds=', '.join('%s in [%g, %g]' % (k, *R[k]) for k in names) + '; x also %s; friction factor arbitrary' % (ends,))(h)


for _m in M:
    if _m != 'Beggs-Brill':
        one(_m)


BBV = ('rhol', 'rhog', 'mul', 'mug', 'sigma', 'D', 'roughness', 'L', 'P')


# where each regime of the flow map lies: liquid fraction range, conditions on the Froude number (its boundaries excluded)
REG = {
    'seg<.01': (1e-5, 0.00999, 'seg', lambda Fr, L1, L2, L3, L4: [Fr < L1]),
    'dis<.01': (1e-5, 0.00999, 'dis', lambda Fr, L1, L2, L3, L4: [Fr > L1]),
    'seg<.4': (0.01001, 0.39999, 'seg', lambda Fr, L1, L2, L3, L4: [Fr < L2]),
    'trans<.4': (0.01001, 0.39999, 'trans', lambda Fr, L1, L2, L3, L4: [Fr > L2, Fr < L3]),
    'int<.4': (0.01001, 0.39999, 'int', lambda Fr, L1, L2, L3, L4: [Fr > L2, Fr > L3, Fr < L1]),
    'dis<.4': (0.01001, 0.39999, 'dis', lambda Fr, L1, L2, L3, L4: [Fr > L2, Fr > L3, Fr > L1]),
    'seg>.4': (0.40001, 0.9999, 'seg', lambda Fr, L1, L2, L3, L4: [Fr < L2]),
    'trans>.4': (0.40001, 0.9999, 'trans', lambda Fr, L1, L2, L3, L4: [Fr > L2, Fr < L3]),
    'int>.4': (0.40001, 0.9999, 'int', lambda Fr, L1, L2, L3, L4: [Fr > L2, Fr > L3, Fr < L4]),
    'dis>.4': (0.40001, 0.9999, 'dis', lambda Fr, L1, L2, L3, L4: [Fr > L2, Fr > L3, Fr > L4]),
}


def bb(slope, reg, full):
    lo, hi, regime, where = REG[reg]

    def h(ctx):
        la, Fr = ctx.real('la', lo, hi), ctx.real('Fr', 1e-3, 1e4)
        for c in where(Fr, 316 * la**0.302, 0.0009252 * la**-2.4684, 0.1 * la**-1.4516, 0.5 * la**-6.738):
            ctx.assume(c)
        free = ('rhol', 'rhog', 'mul', 'mug', 'sigma', 'D', 'roughness', 'L', 'P') if full else ('D', 'roughness', 'L', 'P')
        v = {k: ctx.real(k, *R[k]) if k in free else dict(rhol=850., rhog=3.0, mul=0.002, mug=1.5e-5, sigma=0.03)[k] for k in BBV}
        v['angle'] = {'up': lambda: ctx.real('angle', 0.1, 89.9), 'down': lambda: ctx.real('angle', -89.9, -0.1), 'level': lambda: ctx.choice('angle', [None, 0.0])}[slope]()
        acc = slope != 'down'
        g = v['g'] = ctx.real('g', 1., 20.) if full else 9.8
        if v['angle'] is None:
            v['P'] = None
        vm = sqrt(Fr * g * v['D'])
        mg, ml = (1 - la) * vm * v['rhog'] * pi / 4 * v['D']**2, la * vm * v['rhol'] * pi / 4 * v['D']**2
        m = mg + ml
        a, r = Swap(F, friction_factor=ff).run(lambda: F.Beggs_Brill(m=m, x=mg / m, acceleration=acc, **v), lambda: Beggs(m=m, x=mg / m, acceleration=acc, regime=regime, **v))
        cmp(ctx, 'follows its documented formula', a, r)
    h.__name__ = 'beggs_brill_%s_%s%s' % (slope, reg, '_all' if full else '')
    harness('P15', h.__name__, timeout=300 if full else 90, tier='thorough' if full else 'quick', domain='assume', funcs='Beggs_Brill', bounds='input liquid fraction %g to %g, Froude numbers of the regime in 1e-3 to 1e4, angle %s; properties and g %s; friction factor arbitrary' % (lo, hi, dict(up='0.1 to 89.9 with acceleration', down='-89.9 to -0.1 without acceleration', level='0 (with P) or None (P None too)')[slope], 'free (g 1 to 20)' if full else 'fixed'))(h)


for _s in ('up', 'down', 'level'):
    for _r in REG:
        bb(_s, _r, False)
        bb(_s, _r, True)


# ---------------------------------------------------------------- dispatch
NEED = {k: tuple(n for n in v[2] if n not in BASE + ('roughness',)) for k, v in M.items()}
ALL = ('rhog', 'mul', 'mug', 'sigma', 'P', 'Pc', 'angle')


def inputs(ctx, names):
    return {k: ctx.real(k, *R[k]) for k in names}


def fakes():
    """one arbitrary function per correlation: a different value for every
    function, argument and option"""
    names = sorted({v[0].__name__ for v in M.values()})
    keys = ('m', 'x', 'rhol', 'D', 'L', 'rhog', 'mul', 'mug', 'sigma', 'P', 'Pc', 'angle', 'roughness')
    scale = dict(mul=1e3, mug=1e5, sigma=20., P=1e-6, Pc=1e-7, rhol=1e-3, rhog=1e-2, m=0.02, L=0.1, roughness=1e4, angle=0.01, D=1., x=1.)

    def mk(i, n):
        ks = [v[2] for v in M.values() if v[0].__name__ == n][0]

        def f(m, x, rhol, *a, **kw):
            assert not a, 'positional arguments'
            kw.update(m=m, x=x, rhol=rhol)
            r = 1.0 + i
            for k in ks:
                j = keys.index(k)
                v = kw.pop(k, None)
                if v is None:
                    v = {'L': 1.0, 'roughness': 0.0}[k]
                r = r + v * scale[k] * (0.37 + 0.11 * j) * (1 + 0.01 * i)
            r = r + 0.61 * ['adiabatic vapor', 'adiabatic gas', 'flow boiling'].index(kw.pop('flowtype', 'adiabatic vapor'))
            r = r + (0.43 if kw.pop('rough_correction', False) else 0.0)
            r = r + (0.29 if kw.pop('acceleration', True) and n == 'Beggs_Brill' else 0.0) + 0.03 * (kw.pop('g', G0) - G0)
            assert not kw, 'unexpected arguments %s' % sorted(kw)
            return r
        return f
    return {n: mk(i, n) for i, n in enumerate(names)}


def call(meth, **v):
    fn, ref, names, extra, ends = M[meth]
    return getattr(F, fn.__name__)(**{k: v[k] for k in names}, **extra)


@harness('P15', timeout=60, funcs='two_phase_dP', bounds='each of the 24 methods; correlations arbitrary functions (positional use of a correlation falls back to the real one)')
def dispatch(ctx):
    v = inputs(ctx, R)
    meth = ctx.choice('Method', sorted(M))
    got, want = Swap(F, **fakes()).run(lambda: F.two_phase_dP(Method=meth, **v), lambda: call(meth, **v))
    ctx.close('the method asked for', got, want)
    need = {k: v[k] for k in BASE + ('roughness',) + NEED[meth]}
    got, want = Swap(F, **fakes()).run(lambda: F.two_phase_dP(Method=meth, **need), lambda: call(meth, **v))
    ctx.close('only the inputs of the method are needed', got, want)
    for k in NEED[meth]:
        less = dict(v)
        less[k] = None
        ctx.raises('%s without %s' % (meth, k), F.two_phase_dP, Method=meth, exc='TypeError', **less)


@harness('P15', timeout=60, funcs='two_phase_dP, two_phase_dP_methods', bounds='each of the 128 combinations of optional inputs given or not; correlations arbitrary functions')
def defaults_and_methods(ctx):
    v = inputs(ctx, R)
    for k in ALL:
        if not ctx.choice(k + ' given', [True, False]):
            v[k] = None
    has = lambda *n: all(v[k] is not None for k in n)
    kw = {k: v[k] for k in BASE + ALL}
    ctx.same('methods', sorted(F.two_phase_dP_methods(**kw)), sorted(k for k in M if has(*NEED[k])))
    if has('rhog', 'mul', 'mug', 'sigma'):
        meth = 'Kim_Mudawar'
    elif has('rhog', 'mul', 'mug'):
        meth = 'Chisholm'
    elif has('mul', 'P', 'Pc'):
        meth = 'Zhang_Webb'
    elif has('rhog', 'sigma'):
        meth = 'Lombardi_Pedrocchi'
    else:
        return ctx.raises('no method possible', F.two_phase_dP, exc='ValueError', **v)
    got, want = Swap(F, **fakes()).run(lambda: F.two_phase_dP(**v), lambda: call(meth, **v))
    ctx.close('default method', got, want)
    ctx.raises('unknown method', F.two_phase_dP, Method='BADMETHOD', exc='ValueError', **v)
    ctx.raises('flow type', F.Zhang_Hibiki_Mishima, flowtype='BADFLOW', exc='ValueError', **{k: R[k][0] for k in SIG})


# ------------------------------------------------- acceleration and gravity
@harness('P15', timeout=60, funcs='two_phase_dP_acceleration, two_phase_dP_dz_acceleration', bounds='voidages and qualities .01 to .99, each outlet density given or not')
def acceleration(ctx):
    m, D = ctx.real('m', *R['m']), ctx.real('D', *R['D'])
    xi, xo, ai, ao = [ctx.real(k, 0.01, 0.99) for k in ('xi', 'xo', 'ai', 'ao')]
    rli, rgi = ctx.real('rho_li', *R['rhol']), ctx.real('rho_gi', *R['rhog'])
    rlo = ctx.real('rho_lo', *R['rhol']) if ctx.choice('rho_lo', [True, False]) else None
    rgo = ctx.real('rho_go', *R['rhog']) if ctx.choice('rho_go', [True, False]) else None
    flux = lambda x, a, rl, rg: (1 - x)**2 / (rl * (1 - a)) + x**2 / (rg * a)
    kw = {k: v for k, v in (('rho_lo', rlo), ('rho_go', rgo)) if v is not None}
    G = m / (pi * D**2 / 4)
    ctx.close('acceleration', F.two_phase_dP_acceleration(m=m, D=D, xi=xi, xo=xo, alpha_i=ai, alpha_o=ao, rho_li=rli, rho_gi=rgi, **kw),
              G**2 * (flux(xo, ao, rli if rlo is None else rlo, rgi if rgo is None else rgo) - flux(xi, ai, rli, rgi)), atol=1e-9)
    a, b, c, d, e = ctx.real('dvl', -1e-5, 1e-5), ctx.real('dvg', -1e-4, 1e-4), ctx.real('dx', -1e-4, 1e-4), ctx.real('dP', -1e6, 1e6), ctx.real('dA', -1., 1.)
    ctx.close('acceleration gradient', F.two_phase_dP_dz_acceleration(m=m, D=D, x=xi, rhol=rli, rhog=rgi, dv_dP_l=a, dv_dP_g=b, dx_dP=c, dP_dL=d, dA_dL=e),
              -G**2 * ((1 / rgi - 1 / rli) * d * c + d * (xi * b + (1 - xi) * a)) + G**2 * (xi / rgi + (1 - xi) / rli) / (pi * D**2 / 4) * e, atol=1e-9)


@harness('P15', timeout=60, funcs='two_phase_dP_gravitational, two_phase_dP_dz_gravitational', bounds='angle -90 to 90, z -100 to 100, each outlet quantity given or not, g 1 to 20 or the default')
def gravity(ctx):
    t, z, g = ctx.real('angle', -90., 90.), ctx.real('z', -100., 100.), ctx.real('g', 1., 20.)
    ai, ao = ctx.real('ai', 0., 1.), ctx.real('ao', 0., 1.)
    rli, rgi, rlo, rgo = ctx.real('rli', *R['rhol']), ctx.real('rgi', *R['rhog']), ctx.real('rlo', *R['rhol']), ctx.real('rgo', *R['rhog'])
    kw = {k: v for k, v in (('alpha_o', ao), ('rho_lo', rlo), ('rho_go', rgo)) if ctx.choice(k, [True, False])}
    if ctx.choice('g given', [True, False]):
        kw['g'] = g
    a2, l2, g2 = kw.get('alpha_o', ai), kw.get('rho_lo', rli), kw.get('rho_go', rgi)
    mean = (ai * rgi + (1 - ai) * rli + a2 * g2 + (1 - a2) * l2) / 2
    gg = kw.get('g', G0)
    ctx.close('gravity', F.two_phase_dP_gravitational(angle=t, z=z, alpha_i=ai, rho_li=rli, rho_gi=rgi, **kw), gg * sin(t * pi / 180) * z * mean, atol=1e-9)
    ctx.close('gravity gradient', F.two_phase_dP_dz_gravitational(angle=t, alpha=ai, rhol=rli, rhog=rgi, g=gg), gg * sin(t * pi / 180) * (ai * rgi + (1 - ai) * rli), atol=1e-9)


# --------------------------------------------------------------- regime maps
TCK = {'Dukler_XA_tck': ([-2.4791105294648372, -2.4791105294648372, -2.4791105294648372, -2.4791105294648372, 0.14360803483759585, 1.7199938263676038, 1.7199938263676038, 1.7199938263676038, 1.7199938263676038], [0.21299880246561081, 0.16299733301915248, -0.042340970712679615, -1.9967836909384598, -2.9917366639619414, 0.0, 0.0, 0.0, 0.0], 3),
       'Dukler_XC_tck': ([-1.8323873272724698, -1.8323873272724698, -1.8323873272724698, -1.8323873272724698, -0.15428198203334137, 1.7031193462360779, 1.7031193462360779, 1.7031193462360779, 1.7031193462360779], [0.2827776229531682, 0.6207113329042158, 1.0609541626742232, 0.44917638072891825, 0.014664597632360495, 0.0, 0.0, 0.0, 0.0], 3),
       'Dukler_XD_tck': ([0.2532652936901574, 0.2532652936901574, 0.2532652936901574, 0.2532652936901574, 3.5567847823070253, 3.5567847823070253, 3.5567847823070253, 3.5567847823070253], [0.09054274779541564, -0.05102629221303253, -0.23907463153703945, -0.7757156285450911, 0.0, 0.0, 0.0, 0.0], 3)}


@harness('P15', funcs='the fitted boundaries of the Taitel-Dukler map', bounds='every knot and coefficient')
def taitel_dukler_curves(ctx):
    from symx.swap import flat
    for k, v in TCK.items():
        ctx.same(k, flat(getattr(F, k)), flat(v))
    import fluids.numerics as N
    for k, name in (('XA_interp_obj', 'Dukler_XA_tck'), ('XC_interp_obj', 'Dukler_XC_tck'), ('XD_interp_obj', 'Dukler_XD_tck')):
        t = TCK[name]
        for i in range(9):
            u = t[0][0] + (t[0][-1] - t[0][0]) * i / 8.
            ctx.close('%s at 10**%g' % (k, u), getattr(F, k)(10**u), 10**float(N.splev(u, t)), rtol=1e-7)


@harness('P15', timeout=60, funcs='Taitel_Dukler_regime', bounds='X 1e-3 to 1e4; the fitted boundaries arbitrary functions of X; g 1 to 20; angle -80 to 80')
def taitel_dukler(ctx):
    v = {k: ctx.real(k, *R[k]) for k in ('m', 'x', 'rhol', 'rhog', 'mul', 'mug', 'D', 'roughness')}
    v['angle'] = ctx.real('angle', -80., 80.)
    g = ctx.real('g', 1., 20.) if ctx.choice('g given', [True, False]) else None
    XA, XC, XD = (lambda X: 1.3 / (1 + 0.3 * X)), (lambda X: 2.1 + 5 / (1 + X)), (lambda X: 1.7 / (1 + 0.01 * X))
    def ref():
        s = S(f=F.friction_factor, **{k: q for k, q in v.items() if k != 'angle'})
        c = (g or G0) * cos(v['angle'] * pi / 180)
        dr = v['rhol'] - v['rhog']
        D = v['D']
        X, T = sqrt(s.dPl / s.dPg), sqrt(s.dPl / (dr * c))
        f = sqrt(v['rhog'] / dr) * s.vg / sqrt(D * c)
        K = f * sqrt(s.Rel)
        if f >= F.XA_interp_obj(X):
            reg = 'annular' if X <= 1.7917 else 'bubbly' if T >= F.XD_interp_obj(X) else 'intermittent'
        else:
            reg = 'stratified wavy' if K >= F.XC_interp_obj(X) else 'stratified smooth'
        return reg, X, T, f, K
    a, r = Swap(F, friction_factor=ff, XA_interp_obj=XA, XC_interp_obj=XC, XD_interp_obj=XD).run(lambda: F.Taitel_Dukler_regime(**v, **({} if g is None else {'g': g})), ref)
    cmp(ctx, 'regime and parameters', tuple(a), r)


@harness('P15', timeout=100, funcs='Mandhane_Gregory_Aziz_regime', bounds='superficial velocities 1e-3 to 100 ft/s (liquid) and .01 to 1000 ft/s (gas), all properties')
def mandhane(ctx):
    k = ('rhol', 'rhog', 'mul', 'mug', 'sigma', 'D')
    v = {q: ctx.real(q, *R[q]) for q in k}
    rng = ctx.choice('Vsl', [(1e-3, 0.1), (0.1, 0.2), (0.2, 0.3), (0.3, 0.56), (0.56, 1.0), (1.0, 1.15), (1.15, 2.5), (2.5, 4.8), (4.8, 14.), (14., 100.)])
    w = (rng[1] - rng[0]) * 1e-7
    Vl, Vg = ctx.real('Vl', rng[0] + w, rng[1] - w), ctx.real('Vg', 0.01, 1000.)
    A = pi / 4 * v['D']**2 * 0.3048
    ml, mg = Vl * v['rhol'] * A, Vg * v['rhog'] * A
    reg, a, b = F.Mandhane_Gregory_Aziz_regime(m=ml + mg, x=mg / (ml + mg), **v)
    ctx.close('liquid velocity', a, Vl)
    ctx.close('gas velocity', b, Vg)
    st = (v['rhol'] * 0.0724 / (999.552 * v['sigma']))**0.25
    X1 = (v['rhog'] / 1.294292)**0.333 * st * (v['mug'] / (1 / 180000.))**0.2
    Y1 = st * (v['mul'] * 1000)**0.2
    if Vl < 14 * Y1:
        lo = rng[0]
        c = 14 * (Vl / 0.1)**-0.368 if lo < 0.1 else 14 * (Vl / 0.1)**-0.415 if lo < 0.2 else 10.5 * (Vl / 0.2)**-0.816 if lo < 1.15 else 2.5 if lo < 4.8 else 2.5 * (Vl / 4.8)**0.248
        d = 70 * (Vl / 0.01)**-0.0675 if lo < 0.1 else 60 * (Vl / 0.1)**-0.415 if lo < 0.3 else 38 * (Vl / 0.3)**0.0813 if lo < 0.56 else 40 * (Vl / 0.56)**0.385 if lo < 1 else 50 * Vl**0.756 if lo < 2.5 else 100 * (Vl / 2.5)**0.463
        if Vg <= c * X1:
            want = 'elongated bubble' if Vl >= 0.5 / Y1 else 'stratified'
        elif Vg <= d * X1:
            want = 'slug' if Vl > 0.3 * Y1 else 'wave'
        else:
            want = 'annular mist'
    else:
        want = 'dispersed bubble' if Vg <= 230 * (Vl / 14)**0.206 * X1 else 'annular mist'
    ctx.same('regime', reg, want)
    ctx.same('numbering', F.Mandhane_Gregory_Aziz_regimes, {'elongated bubble': 1, 'stratified': 2, 'slug': 3, 'wave': 4, 'annular mist': 5, 'dispersed bubble': 6})

"""P11: differential pressure flow meters."""
import json
import os
from math import acos, exp, log, log10, pi, sqrt

from symx.harness import harness
from symx.formula import cmp, same_formula
import fluids.flow_meter as F

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
g = 9.80665
inch = 0.0254

META = dict(
    title='Differential pressure flow meters follow their standards and solve exactly',
    statement='Every differential-pressure meter (ISO 5167 / ISO 15377 / Miller orifices with each tap arrangement, nozzles, venturi tubes, cone and wedge meters, Hollingshead data) uses the discharge coefficient, expansibility, diameter ratio and permanent pressure loss of its documented correlation, for every geometry, Reynolds number and pressure ratio including the regime boundaries (small pipes, low Reynolds number, k = 1, P1 = P2). '
              'differential_pressure_meter_C_epsilon, _beta and _dP dispatch every meter name and alias to its correlation, honour C_specified and epsilon_specified, and reject unsupported meters or taps. '
              'differential_pressure_meter_solver returns the m, D2, P1 or P2 at which flow_meter_discharge equals m with the coefficients at that very state, and raises ValueError unless exactly one is missing. '
              'discharge_coefficient_to_K and K_to_discharge_coefficient are inverse.',
    over=['inputs', 'configurations'],
    text='D in [0.02, 1] m, beta in [0.1, 0.85], Re in [1e2, 1e8], any P2 < P1, k in [1, 1.7]; root solvers by contract f(root) = 0',
    why='tests sample a few diameters and Reynolds numbers per meter; tap, diameter and Reynolds regimes multiply',
    files=['fluids/flow_meter.py', 'fluids/numerics/__init__.py'],
    mech=['differential_pressure_meter_solver', 'differential_pressure_meter_C_epsilon', 'C_Reader_Harris_Gallagher', 'C_Miller_1996', 'nozzle_expansibility, orifice_expansibility', 'differential_pressure_meter_dP'],
)


def wbeta(D, H):
    h = H / D
    return sqrt((acos(1 - 2 * h) - 2 * (1 - 2 * h) * sqrt(h - h**2)) / pi)


def cbeta(D, Dc):
    return sqrt(1 - (Dc / D)**2)


CONES = ('cone meter', 'Hollingshead v cone')
WEDGES = ('wedge meter', 'Hollingshead wedge')
SIMPLE = ('ISO 5167 orifice', 'ISO 15377 eccentric orifice', 'ISO 15377 conical orifice', 'ISO 15377 quarter-circle orifice',
          'Miller orifice', 'Miller eccentric orifice', 'Miller segmental orifice', 'Miller conical orifice', 'Miller quarter circle orifice',
          'orifice', 'eccentric orifice', 'conical orifice', 'segmental orifice', 'quarter circle orifice', 'unspecified meter',
          'Hollingshead venturi sharp', 'Hollingshead venturi smooth', 'Hollingshead orifice', 'long radius nozzle', 'ISA 1932 nozzle',
          'venturi nozzle', 'as cast convergent venturi tube', 'machined convergent venturi tube', 'rough welded convergent venturi tube')
ALL = SIMPLE + CONES + WEDGES


def beta_of(D, D2, meter):
    return cbeta(D, D2) if meter in CONES else wbeta(D, D2) if meter in WEDGES else D2 / D


@harness('P11', funcs='differential_pressure_meter_beta, flow_meter_discharge, diameter_ratio_*', timeout=90,
         bounds='D in [.02,1], ratio in [.1,.85], all 28 meters')
def beta_and_discharge(ctx):
    meter = ctx.choice('meter', list(ALL) + ['nonsense'])
    D, r = ctx.real('D', 0.02, 1.0), ctx.real('r', 0.1, 0.85)
    D2 = D * r
    if meter == 'nonsense':
        ctx.raises('unknown meter', F.differential_pressure_meter_beta, D, D2, meter, exc='ValueError')
        return
    ctx.same('meter list', sorted(F.all_meters), sorted(ALL))
    b = beta_of(D, D2, meter)
    ctx.close('beta', F.differential_pressure_meter_beta(D, D2, meter), b)
    P2, dP, rho = ctx.real('P2', 1e4, 1e7), ctx.real('dP', 1.0, 1e6), ctx.real('rho', 0.1, 2000.)
    C, e = ctx.real('C', 0.1, 1.2), ctx.real('eps', 0.5, 1.0)
    ctx.close('discharge', F.flow_meter_discharge(D, D2, P2 + dP, P2, rho, C, e, meter),
              C * e * pi / 4 * (b * D)**2 * sqrt(2 * rho * dP / (1 - b**4)))


PR = dict(D=(0.02, 1.0), r=(0.1, 0.8), P1=(1e4, 1e7), tau=(0.3, 0.9999), k=(1.05, 1.7))


def with_ratio(fn):
    def f(D, r, P1, tau, k):
        return fn(D, D * r, P1, P1 * tau, k)
    return f


same_formula('P11', with_ratio(F.orifice_expansibility), with_ratio(lambda D, Do, P1, P2, k: 1 - (0.351 + 0.256 * (Do / D)**4 + 0.93 * (Do / D)**8) * (1 - (P2 / P1)**(1 / k))), PR, name='orifice_expansibility')
same_formula('P11', with_ratio(F.orifice_expansibility_1989), with_ratio(lambda D, Do, P1, P2, k: 1 - (0.41 + 0.35 * (Do / D)**4) * (P1 - P2) / k / P1), PR, name='orifice_expansibility_1989')
same_formula('P11', with_ratio(F.cone_meter_expansibility_Stewart), with_ratio(lambda D, Dc, P1, P2, k: 1 - (0.649 + 0.696 * cbeta(D, Dc)**4) * (P1 - P2) / k / P1), PR, name='cone_meter_expansibility_Stewart')


def noz(b, tau, k):
    return sqrt(k * tau**(2 / k) / (k - 1) * (1 - b**4) / (1 - b**4 * tau**(2 / k)) * (1 - tau**((k - 1) / k)) / (1 - tau))


def noz_k1(b, tau):
    return sqrt(tau**2 * (1 - b**4) * (-log(tau)) / (1 - tau - b**4 * tau**2 + b**4 * tau**3))


@harness('P11', funcs='nozzle_expansibility', bounds='D, Do/D in [.1,.8], tau in [.3,.9999], k in [1.05,1.7], limits k = 1 and P1 = P2', timeout=90)
def nozzle_expansibility(ctx):
    D, r, P1, tau, k = ctx.real('D', 0.02, 1.0), ctx.real('r', 0.1, 0.8), ctx.real('P1', 1e4, 1e7), ctx.real('tau', 0.3, 0.9999), ctx.real('k', 1.05, 1.7)
    b = ctx.real('beta', 0.1, 0.8)
    case = ctx.choice('case', ['general', 'k = 1', 'no drop'])
    if case == 'general':
        ctx.close('formula', F.nozzle_expansibility(D, D * r, P1, P1 * tau, k), noz(r, tau, k))
        ctx.close('explicit beta', F.nozzle_expansibility(D, D * r, P1, P1 * tau, k, beta=b), noz(b, tau, k))
    elif case == 'k = 1':
        ctx.close('limit k -> 1', F.nozzle_expansibility(D, D * r, P1, P1 * tau, 1.0), noz_k1(r, tau))
    else:
        ctx.close('no expansion without pressure drop', F.nozzle_expansibility(D, D * r, P1, P1, k), 1.0)
        ctx.close('same for orifices', F.orifice_expansibility(D, D * r, P1, P1, k), 1.0)


def with_re(fn, *more):
    """fn(D, Do, rho, mu, m, ...) at Reynolds number Re"""
    def f(D, r, rho, mu, Re, **kw):
        return fn(D, D * r, rho, mu, Re * mu * pi * D / 4, **kw)
    return f


def rhg(Re, D, b, taps='corner'):
    if taps == 'corner':
        L1 = L2 = 0.0
    elif taps == 'flange':
        L1 = L2 = inch / D
    elif taps in ('D', 'D/2', 'D and D/2'):
        L1, L2 = 1.0, 0.47
    else:
        raise ValueError
    A = (19000 * b / Re)**0.8
    M2 = 2 * L2 / (1 - b)
    up = (0.043 + 0.08 * exp(-10 * L1) - 0.123 * exp(-7 * L1)) * (1 - 0.11 * A) * b**4 / (1 - b**4)
    low = log10(3700 / Re)
    if low < 0:
        low = 0.0
    down = -0.031 * (M2 - 0.8 * M2**1.1) * b**1.3 * (1 + 8 * low)
    x1, x2 = (1e6 / Re)**0.3, 22.7 - 0.0047 * Re
    C = 0.5961 + 0.0261 * b**2 - 0.216 * b**8 + 0.000521 * (1e6 * b / Re)**0.7 + (0.0188 + 0.0063 * A) * b**3.5 * (x1 if x1 > x2 else x2)
    C = C + up + down
    if D < 0.07112:
        C = C + 0.011 * (0.75 - b) * (2.8 - D / inch)
    return C


RR = dict(D=(0.02, 1.0), r=(0.1, 0.8), rho=(0.1, 2e3), mu=(1e-6, 1.0), Re=(5e2, 1e8))
for _t in ('corner', 'flange', 'D', 'D/2', 'D and D/2', 'pipe'):
    same_formula('P11', with_re(lambda *a, t=_t: F.C_Reader_Harris_Gallagher(*a, taps=t)), lambda D, r, rho, mu, Re, t=_t: rhg(Re, D, r, t), RR,
                 name='C_Reader_Harris_Gallagher_' + _t.replace('/', '_').replace(' ', '_'), timeout=120)
same_formula('P11', with_re(F.C_long_radius_nozzle), lambda D, r, rho, mu, Re: 0.9965 - 0.00653 * r**0.5 * (1e6 / Re)**0.5, RR, name='C_long_radius_nozzle')
same_formula('P11', with_re(F.C_ISA_1932_nozzle), lambda D, r, rho, mu, Re: 0.99 - 0.2262 * r**4.1 - (0.00175 * r**2 - 0.0033 * r**4.15) * (1e6 / Re)**1.15, RR, name='C_ISA_1932_nozzle')
same_formula('P11', lambda D, r: (F.C_venturi_nozzle(D, D * r), F.C_eccentric_orifice_ISO_15377_1998(D, D * r), F.C_quarter_circle_orifice_ISO_15377_1998(D, D * r),
                                  F.C_wedge_meter_ISO_5167_6_2017(D, D * r), F.velocity_of_approach_factor(D, D * r), F.diameter_ratio_cone_meter(D, D * r), F.diameter_ratio_wedge_meter(D, D * r)),
             lambda D, r: (0.9858 - 0.196 * r**4.5, 0.9355 - 1.6889 * r + 3.0428 * r**2 - 1.7989 * r**3, 0.73823 + 0.3309 * r - 1.16158 * r**2 + 1.5084 * r**3,
                           0.77 - 0.09 * wbeta(1.0, r), 1 / sqrt(1 - r**4), cbeta(1.0, r), wbeta(1.0, r)), dict(D=(0.02, 1.0), r=(0.05, 0.9)), name='geometric_coefficients')
same_formula('P11', lambda D, r: F.C_wedge_meter_Miller(D, D * r),
             lambda D, r: 0.7883 + 0.107 * (1 - wbeta(1.0, r)**2) if D <= 0.7 * inch else 0.6143 + 0.718 * (1 - wbeta(1.0, r)**2) if D <= 1.4 * inch else 0.5433 + 0.2453 * (1 - wbeta(1.0, r)**2),
             dict(D=(0.005, 1.0), r=(0.05, 0.95)), name='C_wedge_meter_Miller')

# C_Miller_1996: {subtype: {(taps, position, small): (b or None, (c0, c beta^2.1, c beta^8, c beta^4/(1-beta^4), c beta^3))}}
ECC = {
    ('flange', '180 degree', True): ((7.3, -15.7, 170.8, -399.7, 332.2), (0.5917, 0.3061, 0.3406, -0.1019, -0.2715)),
    ('flange', '180 degree', False): ((-139.7, 1328.8, -4228.2, 5691.9, -2710.4), (0.6016, 0.3312, -1.5581, 0.6510, -0.7308)),
    ('flange', '90 degree', True): ((69.1, -469.4, 1245.6, -1287.5, 486.2), (0.5866, 0.3917, 0.7586, -0.2273, -0.3343)),
    ('flange', '90 degree', False): ((-103.2, 898.3, -2557.3, 2977.0, -1131.3), (0.6037, 0.1598, -0.2918, 0.0244, -0.0790)),
    ('vena contracta', '180 degree', True): ((23.3, -207.0, 821.5, -1388.6, 900.3), (0.5925, 0.3380, 0.4016, -0.1046, -0.3212)),
    ('vena contracta', '180 degree', False): ((55.7, -471.4, 1721.8, -2722.6, 1569.4), (0.5922, 0.3932, 0.3412, -0.0569, -0.4628)),
    ('vena contracta', '90 degree', True): ((-69.3, 556.9, -1332.2, 1303.7, -394.8), (0.5875, 0.3813, 0.6898, -0.1963, -0.3366)),
    ('vena contracta', '90 degree', False): ((52.8, -434.2, 1571.2, -2460.9, 1420.2), (0.5949, 0.4078, 0.0547, 0.0955, -0.5608)),
}
SEG = {
    ('flange', True): (0.6284, 0.1462, -0.8464, 0.2603, -0.2886), ('flange', False): (0.6276, 0.0828, 0.2739, -0.0934, -0.1132),
    ('vena contracta', True): (0.6261, 0.1851, -0.2879, 0.1170, -0.2845), ('vena contracta', False): (0.6276, 0.0828, 0.2739, -0.0934, -0.1132),
}


def cinf(c, b):
    return c[0] + c[1] * b**2.1 + c[2] * b**8 + c[3] * b**4 / (1 - b**4) + c[4] * b**3


def miller(Re, D, b, kind, taps, pos):
    small = True if D < 0.1 else False
    if kind == 'orifice':
        bb = 91.706 * b**2.5
        if taps == 'corner':
            C = cinf((0.5959, 0.0312, -0.184, 0, 0), b)
        elif taps == 'flange':
            mm = D * 1000
            C = cinf((0.5959, 0.0312, -0.184, 2.286 / mm, -0.856 / mm), b) if mm >= 58.4 else cinf((0.5959, 0.0312, -0.184, 0.039, -0.856 / mm), b)
        elif taps == 'D and D/2':
            C = cinf((0.5959 - 0.01584, 0.0312, -0.184, 0.039, 0), b)
        elif taps == 'pipe':
            C = cinf((0.5959, 0.461, 0.48, 0.039, 0), b)
        else:
            raise ValueError
        return C + bb / Re**0.75
    if kind == 'eccentric orifice':
        if (taps, pos, small) not in ECC:
            raise ValueError
        q, c = ECC[(taps, pos, small)]
        return cinf(c, b) + (q[0] + q[1] * b + q[2] * b**2 + q[3] * b**3 + q[4] * b**4) / Re**0.75
    if kind == 'segmental orifice':
        if (taps, small) not in SEG:
            raise ValueError
        return cinf(SEG[(taps, small)], b)
    if kind == 'conical orifice':
        return 0.734 if Re >= 250 * b and Re <= 500 * b else 0.73
    if kind == 'quarter circle orifice':
        return cinf((0.7746, -0.1334, 1.4098, 0.0675, 0.3865), b)
    raise ValueError


for _kind in ('orifice', 'eccentric orifice', 'segmental orifice', 'conical orifice', 'quarter circle orifice', 'nonsense'):
    def _c(kind, alias, D, r, rho, mu, Re, taps, pos):
        return F.C_Miller_1996(D, D * r, rho, mu, Re * mu * pi * D / 4, subtype=alias, taps=taps, tap_position=pos)
    for _alias in ((_kind,) if _kind == 'nonsense' else (_kind, 'Miller ' + _kind)):
        same_formula('P11', lambda D, r, rho, mu, Re, taps, pos, k=_kind, a=_alias: _c(k, a, D, r, rho, mu, Re, taps, pos),
                     lambda D, r, rho, mu, Re, taps, pos, k=_kind: miller(Re, D, r, k, taps, pos), dict(RR, Re=(50., 1e8)),
                     choices=dict(taps=['corner', 'flange', 'D and D/2', 'pipe', 'vena contracta', 'nonsense'], pos=['180 degree', '90 degree', 'nonsense']),
                     name='C_Miller_1996_' + _alias.replace(' ', '_'), timeout=120)


@harness('P11', funcs='dP_orifice, dP_cone_meter, dP_wedge_meter, flow_coefficient', bounds='D, r in [.1,.8], C in [.1,1.2]')
def losses(ctx):
    D, r, C = ctx.real('D', 0.02, 1.0), ctx.real('r', 0.1, 0.8), ctx.real('C', 0.1, 1.0)
    P2, dP = ctx.real('P2', 1e4, 1e7), ctx.real('dP', 1.0, 1e6)
    P1, Do = P2 + dP, D * r
    ctx.close('orifice', F.dP_orifice(D, Do, P1, P2, C), dP * orf(r, C))
    ctx.close('cone', F.dP_cone_meter(D, Do, P1, P2), (1.09 - 0.813 * cbeta(D, Do)) * dP)
    ctx.close('wedge', F.dP_wedge_meter(D, Do, P1, P2), (1.09 - 0.79 * wbeta(D, Do)) * dP)
    ctx.close('flow coefficient', F.flow_coefficient(D, Do, C), C / sqrt(1 - r**4))


def orf(r, C):
    s = sqrt(1 - r**4 * (1 - C**2))
    return (s - C * r**2) / (s + C * r**2)


@harness('P11', funcs='discharge_coefficient_to_K, K_to_discharge_coefficient', bounds='r in [.1,.8], C in [.3,1]', timeout=120)
def discharge_K(ctx):
    D, r, C = ctx.real('D', 0.02, 1.0), ctx.real('r', 0.1, 0.8), ctx.real('C', 0.3, 1.0)
    K = F.discharge_coefficient_to_K(D, D * r, C)
    ctx.close('K', K, (sqrt(1 - r**4 * (1 - C**2)) / (C * r**2) - 1)**2)
    s = ctx.real('rootK', 0.05, 100.)
    ctx.close('C', F.K_to_discharge_coefficient(D, D * r, s * s), sqrt((1 - r**4) / (2 * s + s * s)) / r**2)
    C2 = F.K_to_discharge_coefficient(D, D * r, s * s)
    ctx.close('K back', F.discharge_coefficient_to_K(D, D * r, C2), s * s, rtol=1e-5)


def lin(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def venturi_loss(D, r):
    hi, lo = lin(r, TAB['venturi_tube_betas'], TAB['venturi_tube_dP_high']), lin(r, TAB['venturi_tube_betas'], TAB['venturi_tube_dP_low'])
    if D <= 0.065:
        return hi
    if D >= 0.5:
        return lo
    return hi + (lo - hi) * (D - 0.065) / (0.5 - 0.065)


for _i, (_lo, _hi) in enumerate([(0.2, 0.35), (0.35, 0.45), (0.45, 0.55), (0.55, 0.65), (0.65, 0.85)]):
    same_formula('P11', lambda D, r, P2, dP: F.dP_venturi_tube(D, D * r, P2 + dP, P2), lambda D, r, P2, dP: venturi_loss(D, r) * dP,
                 dict(D=(0.02, 1.0), r=(_lo, _hi), P2=(1e4, 1e7), dP=(1., 1e6)), name='dP_venturi_tube_%d' % _i, timeout=240)

WET = dict(mg=(0.1, 100.), ml=(0.01, 100.), rhog=(1., 100.), rhol=(300., 1500.), D=(0.05, 1.0), r=(0.3, 0.8))


def wetC(mg, ml, rhog, rhol, D, r):
    Fr = 4 * mg / (rhog * pi * D**2 * sqrt(g * D)) * sqrt(rhog / (rhol - rhog))
    X = ml / mg * sqrt(rhog / rhol)
    return 1 - 0.0463 * exp(-0.05 * Fr / r**2.5) * (sqrt(X / 0.016) if X < 0.016 else 1.0)


def wetdP(mg, ml, rhog, rhol, D, r, H, dP):
    Fr = 4 * mg / (rhog * pi * D**2 * sqrt(g * D)) * sqrt(rhog / (rhol - rhog))
    X = ml / mg * sqrt(rhog / rhol)
    Y = 0.61 * exp(-11 * rhog / rhol - 0.045 * Fr / H) * (1 - exp(-35 * X**0.75 * exp(-0.28 * Fr / H)))
    return dP * (Y + 0.0896 + 0.48 * r**9)


same_formula('P11', lambda mg, ml, rhog, rhol, D, r: F.C_Reader_Harris_Gallagher_wet_venturi_tube(mg, ml, rhog, rhol, D, D * r), wetC, WET, name='wet_venturi_C', timeout=90)
same_formula('P11', lambda mg, ml, rhog, rhol, D, r, H, dP, P2: F.dP_Reader_Harris_Gallagher_wet_venturi_tube(D, D * r, P2 + dP, P2, ml, mg, rhol, rhog, H), lambda P2=0, **k: wetdP(**k),
             dict(WET, H=(0.5, 1.5), dP=(1., 1e5), P2=(1e4, 1e7)), name='wet_venturi_dP', timeout=90)


# --- dispatch
def ref_C_eps(D, r, P1, tau, rho, mu, k, Re, meter, taps, pos):
    meter = {'orifice': 'ISO 5167 orifice', 'eccentric orifice': 'ISO 15377 eccentric orifice', 'conical orifice': 'ISO 15377 conical orifice',
             'quarter circle orifice': 'ISO 15377 quarter-circle orifice', 'segmental orifice': 'Miller segmental orifice'}.get(meter, meter)
    eo = 1 - (0.351 + 0.256 * r**4 + 0.93 * r**8) * (1 - tau**(1 / k))
    if meter == 'ISO 5167 orifice':
        return rhg(Re, D, r, taps or 'corner'), eo
    if meter == 'ISO 15377 eccentric orifice':
        return 0.9355 - 1.6889 * r + 3.0428 * r**2 - 1.7989 * r**3, eo
    if meter == 'ISO 15377 quarter-circle orifice':
        return 0.73823 + 0.3309 * r - 1.16158 * r**2 + 1.5084 * r**3, eo
    if meter == 'ISO 15377 conical orifice':
        return 0.734, 0.5 * (eo + noz(r, tau, k))
    if meter == 'Miller conical orifice':
        return miller(Re, D, r, 'conical orifice', taps, pos), 0.5 * (eo + noz(r, tau, k))
    if meter.startswith('Miller'):
        return miller(Re, D, r, meter[7:], taps, pos), eo
    if meter in CONES:
        e = 1 - (0.649 + 0.696 * cbeta(1.0, r)**4) * (1 - tau) / k
    elif meter in WEDGES:
        e = noz(wbeta(1.0, r), tau, k)
    elif meter in ('Hollingshead orifice',):
        e = eo
    else:
        e = noz(r, tau, k)
    if meter == 'long radius nozzle':
        return 0.9965 - 0.00653 * r**0.5 * (1e6 / Re)**0.5, e
    if meter == 'ISA 1932 nozzle':
        return 0.99 - 0.2262 * r**4.1 - (0.00175 * r**2 - 0.0033 * r**4.15) * (1e6 / Re)**1.15, e
    if meter == 'venturi nozzle':
        return 0.9858 - 0.196 * r**4.5, e
    if meter in CONST:
        return CONST[meter], e
    if meter == 'wedge meter':
        return 0.77 - 0.09 * wbeta(1.0, r), e
    raise KeyError(meter)


CONST = {'as cast convergent venturi tube': 0.984, 'machined convergent venturi tube': 0.995, 'rough welded convergent venturi tube': 0.985, 'cone meter': 0.82}


def args(ctx, lo=5e2, kinds=None):
    D, r, P1, tau = ctx.real('D', 0.02, 1.0), ctx.real('r', 0.1, 0.8), ctx.real('P1', 1e4, 1e7), ctx.real('tau', 0.3, 0.9999)
    rho, mu, k, Re = ctx.real('rho', 0.1, 2e3), ctx.real('mu', 1e-6, 1.0), ctx.real('k', 1.05, 1.7), ctx.real('Re', lo, 1e8)
    return D, r, P1, tau, rho, mu, k, Re


for _meter in ALL:
    if 'Hollingshead' in _meter or _meter == 'unspecified meter':
        continue

    def _h(ctx, meter=_meter):
        D, r, P1, tau, rho, mu, k, Re = args(ctx)
        t = [None]
        if 'ISO 5167' in meter or meter == 'orifice':
            t = [None, 'flange', 'D and D/2']
        elif 'Miller' in meter or 'segmental' in meter:
            t = ['corner', 'flange', 'pipe', 'vena contracta']
        taps, pos = ctx.choice('taps', t), ctx.choice('pos', ['180 degree', '90 degree'] if 'eccentric' in meter else ['180 degree'])
        m = Re * mu * pi * D / 4
        over = ctx.choice('over', ['no', 'C', 'eps', 'both'])
        kw = dict(taps=taps, tap_position=pos)
        Cs, es = ctx.real('Cs', 0.1, 1.2), ctx.real('es', 0.5, 1.0)
        if over in ('C', 'both'):
            kw['C_specified'] = Cs
        if over in ('eps', 'both'):
            kw['epsilon_specified'] = es
        got, e = ctx.attempt(F.differential_pressure_meter_C_epsilon, D, D * r, m, P1, P1 * tau, rho, mu, k, meter, **kw)
        want, er = ctx.attempt(ref_C_eps, D, r, P1, tau, rho, mu, k, Re, meter, taps, pos)
        ctx.same('supported', e, er)
        if er is None:
            ctx.close('C', got[0], kw.get('C_specified', want[0]))
            ctx.close('epsilon', got[1], kw.get('epsilon_specified', want[1]))
    _h.__name__ = 'C_epsilon_' + _meter.replace(' ', '_')
    harness('P11', funcs='differential_pressure_meter_C_epsilon', bounds='%s: D, r in [.1,.8], Re in [5e2,1e8], tau, k; with and without specified values' % _meter, timeout=120, domain='assume' if _meter == 'wedge meter' else 'decide')(_h)


@harness('P11', funcs='differential_pressure_meter_C_epsilon')
def unspecified_meter(ctx):
    D, r, P1, tau, rho, mu, k, Re = args(ctx)
    m = Re * mu * pi * D / 4
    Cs = ctx.real('Cs', 0.1, 1.2)
    a = (D, D * r, m, P1, P1 * tau, rho, mu, k)
    ctx.raises('C needed', F.differential_pressure_meter_C_epsilon, *a, 'unspecified meter', exc='ValueError')
    ctx.raises('unknown', F.differential_pressure_meter_C_epsilon, *a, 'nonsense', exc='ValueError')
    C, e = F.differential_pressure_meter_C_epsilon(*a, 'unspecified meter', C_specified=Cs)
    ctx.close('C', C, Cs)
    ctx.close('eps', e, 1 - (0.351 + 0.256 * r**4 + 0.93 * r**8) * (1 - tau**(1 / k)))


# --- Hollingshead data: independent Cox-de Boor evaluation of the tabulated splines
def basis(x, t, k):
    """values of all B-spline basis functions at x, knots t (x inside one knot span)"""
    n = len(t) - k - 1
    span = None
    for i in range(k, n):
        if x < t[i + 1] or i == n - 1:
            span = i
            break
    B = [0.0] * (len(t) - 1)
    B[span] = 1.0
    for d in range(1, k + 1):
        N = [0.0] * (len(t) - 1 - d)
        for i in range(len(N)):
            v = 0.0
            if t[i + d] > t[i] and not (isinstance(B[i], float) and B[i] == 0.0):
                v = v + (x - t[i]) / (t[i + d] - t[i]) * B[i]
            if t[i + d + 1] > t[i + 1] and not (isinstance(B[i + 1], float) and B[i + 1] == 0.0):
                v = v + (t[i + d + 1] - x) / (t[i + d + 1] - t[i + 1]) * B[i + 1]
            N[i] = v
        B = N
    return B[:n]


def spline2(x, y, tck):
    tx, ty, c, kx, ky = tck
    x = min(max(x, tx[0]), tx[-1])
    ny = len(ty) - ky - 1
    bx = basis(x, tx, kx)
    by = basis(y, ty, ky)
    s = 0.0
    for j in range(ny):
        if isinstance(by[j], float) and by[j] == 0.0:
            continue
        s = s + by[j] * sum(bx[i] * c[i * ny + j] for i in range(len(bx)))
    return s


HOL = {'Hollingshead orifice': ('orifice_std_tck', 0.5, 0.7), 'Hollingshead v cone': ('cone_tck', 0.6611, 0.8203), 'Hollingshead wedge': ('wedge_tck', 0.5023, 0.611)}
for _meter in HOL:
    for _i in range(4):
        def _h(ctx, meter=_meter, i=_i):
            D, P1, tau, rho, mu, k = ctx.real('D', 0.02, 1.0), ctx.real('P1', 1e4, 1e7), 0.9, ctx.real('rho', 0.1, 2e3), ctx.real('mu', 1e-6, 1.0), 1.3
            tck, lo, hi = HOL[meter]
            b = lo + (hi - lo) * (0.0, 0.3, 0.72, 1.0)[i]
            if meter == 'Hollingshead v cone':
                r = sqrt(1 - b * b)
            elif meter == 'Hollingshead wedge':
                a, z = 1e-6, 1 - 1e-6
                for _ in range(80):
                    c = 0.5 * (a + z)
                    a, z = (c, z) if wbeta(1.0, c) < b else (a, c)
                r = a
            else:
                r = b
            Lr = ctx.real('lnRe', 0.01, 17.5)
            Re = exp(Lr)
            C, e = F.differential_pressure_meter_C_epsilon(D, D * r, Re * mu * pi * D / 4, P1, P1 * tau, rho, mu, k, meter)
            ctx.close('C', C, spline2(b, Lr, TAB[tck]), rtol=1e-6)
            ctx.close('epsilon', e, {'Hollingshead orifice': 1 - (0.351 + 0.256 * r**4 + 0.93 * r**8) * (1 - tau**(1 / k)), 'Hollingshead wedge': noz(b, tau, k)}.get(meter, 1 - (0.649 + 0.696 * b**4) * (1 - tau) / k))
        _h.__name__ = 'hollingshead_%s_%d' % (_meter.split(' ', 1)[1].replace(' ', '_'), _i)
        harness('P11', funcs='differential_pressure_meter_C_epsilon, bisplev', bounds='ln Re in [0.01, 17.5], beta at the ends and two interior values of the table', timeout=120)(_h)

for _kind in ('smooth', 'sharp'):
    def _h(ctx, kind=_kind):
        D, r, P1, tau, rho, mu, k = ctx.real('D', 0.02, 1.0), 0.5, ctx.real('P1', 1e4, 1e7), 0.9, ctx.real('rho', 0.1, 2e3), ctx.real('mu', 1e-6, 1.0), 1.3
        Lr = ctx.real('lnRe', 0.01, 17.7)
        C, e = F.differential_pressure_meter_C_epsilon(D, D * r, exp(Lr) * mu * pi * D / 4, P1, P1 * tau, rho, mu, k, 'Hollingshead venturi ' + kind)
        ctx.close('C', C, lin(Lr, TAB['venturi_logRes_Hollingshead'], TAB['venturi_%s_Cs_Hollingshead' % kind]))
        ctx.close('epsilon', e, noz(r, tau, k))
    _h.__name__ = 'hollingshead_venturi_' + _kind
    harness('P11', funcs='differential_pressure_meter_C_epsilon, interp', bounds='ln Re in [0.01, 17.7]', timeout=120)(_h)


# --- solver and pressure loss dispatch
for _meter in ('ISO 5167 orifice', 'Miller segmental orifice', 'venturi nozzle', 'cone meter', 'wedge meter'):
    def _h(ctx, meter=_meter):
        D, r, P1, tau = ctx.real('D', 0.1, 1.0), ctx.real('r', 0.2, 0.7), ctx.real('P1', 1e5, 1e7), ctx.real('tau', 0.5, 0.99)
        rho, mu, k = ctx.real('rho', 0.5, 1500.), ctx.real('mu', 1e-6, 1e-3), ctx.real('k', 1.1, 1.6)
        D2, P2, m = D * r, P1 * tau, ctx.real('m', 0.5, 50.0)
        q = [ctx.real('q%d' % i, 0.01, 1.0) for i in range(8)]
        opts = dict(taps='flange', tap_position='90 degree')
        if ctx.choice('C given', [False, True]):
            opts['C_specified'] = ctx.real('Cs', 0.4, 1.0)
        if ctx.choice('epsilon given', [False, True]):
            opts['epsilon_specified'] = ctx.real('es', 0.6, 1.0)
        names = ('D', 'D2', 'm', 'P1', 'P2', 'rho', 'mu', 'k', 'meter_type', 'taps', 'tap_position', 'C_specified', 'epsilon_specified')

        def coefficients(*a, **kw):
            """an arbitrary (linear) dependence on every input; the real function is checked in C_epsilon_*"""
            v = dict(zip(names, a))
            v.update(kw)
            if v['meter_type'] != meter or any(v.get(n) is not x for n, x in opts.items()):
                raise TypeError('options not handed on')
            C = q[0] + q[1] * v['m'] + q[2] * v['D2'] / D + q[3] * v['P1'] / P1 + q[4] * v['P2'] / P1 + q[5] * v['rho'] + q[6] * v['mu'] + q[7] * v['k'] if v.get('C_specified') is None else v['C_specified']
            return C, (1 - q[4] * (v['P1'] - v['P2']) / v['P1'] / v['k'] if v.get('epsilon_specified') is None else v['epsilon_specified'])
        want = ctx.choice('solve', ['m', 'D2', 'P1', 'P2', 'nothing', 'two'])
        s = dict(D=D, D2=D2, P1=P1, P2=P2, m=m, rho=rho, mu=mu, k=k)
        real = F.differential_pressure_meter_C_epsilon
        F.differential_pressure_meter_C_epsilon = coefficients
        try:
            if want == 'nothing':
                ctx.raises('over-specified', F.differential_pressure_meter_solver, **s, meter_type=meter, **opts, exc='ValueError')
                return
            if want == 'two':
                del s['m'], s['P1']
                ctx.raises('under-specified', F.differential_pressure_meter_solver, **s, meter_type=meter, **opts, exc='ValueError')
                return
            given = {n: x for n, x in s.items() if n != want}
            if 'epsilon_specified' in opts and want == 'm':
                del given['k']
                s['k'] = 1.4
            s[want] = F.differential_pressure_meter_solver(**given, meter_type=meter, **opts)
        finally:
            F.differential_pressure_meter_C_epsilon = real
        C, eps = coefficients(**s, meter_type=meter, **opts)
        b = beta_of(D, s['D2'], meter)
        mc = C * eps * pi / 4 * (b * D)**2 * sqrt(2 * rho * (s['P1'] - s['P2']) / (1 - b**4))
        ctx.close('mass flow reproduced at the solution', mc, s['m'], rtol=1e-6)
    _h.__name__ = 'solver_' + _meter.replace(' ', '_')
    harness('P11', funcs='differential_pressure_meter_solver, err_dp_meter_solver_*', bounds='D in [.1,1], r in [.2,.7], tau in [.5,.99]; root finder by contract; C and expansibility an arbitrary linear function of every input', timeout=120, stub=True, roots=(1e-5, 1e8), mp=False, domain='assume')(_h)


@harness('P11', funcs='differential_pressure_meter_dP', timeout=240, bounds='all 28 meters; venturi tubes at beta = 0.45', light=True, domain='assume')
def dP_dispatch(ctx):
    meter = ctx.choice('meter', list(ALL) + ['nonsense'])
    D, r, C = ctx.real('D', 0.02, 1.0), ctx.real('r', 0.1, 0.8), ctx.real('C', 0.1, 1.0)
    P2, dP = ctx.real('P2', 1e4, 1e7), ctx.real('dP', 1.0, 1e6)
    P1 = P2 + dP
    f = F.differential_pressure_meter_dP
    if 'orifice' in meter or meter in ('long radius nozzle', 'ISA 1932 nozzle'):
        ctx.close('orifice loss', f(D, D * r, P1, P2, C, meter), dP * orf(r, C))
        ctx.raises('C needed', f, D, D * r, P1, P2, meter_type=meter, exc='ValueError')
    elif meter == 'venturi nozzle':
        ctx.raises('no correlation', f, D, D * r, P1, P2, C, meter, exc='NotImplementedError')
    elif meter in CONES:
        ctx.close('cone', f(D, D * r, P1, P2, meter_type=meter), (1.09 - 0.813 * cbeta(1.0, r)) * dP)
    elif meter in WEDGES:
        ctx.close('wedge', f(D, D * r, P1, P2, meter_type=meter), (1.09 - 0.79 * wbeta(1.0, r)) * dP)
    elif 'venturi' in meter:
        ctx.close('venturi', f(D, D * 0.45, P1, P2, meter_type=meter), venturi_loss(D, 0.45) * dP)
    else:
        ctx.raises('unknown', f, D, D * r, P1, P2, C, meter, exc='ValueError')

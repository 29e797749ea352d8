"""P14: pipe fitting loss coefficients."""
import json
import os
from math import atan, cos, degrees, log, log10, pi, radians, sin, sqrt, tan

from symx.harness import harness
from symx.formula import cmp, same_formula
from symx.swap import Swap, flat
import fluids.fittings as F

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
T = TAB['fittings']
KEY = {tuple(v): k for k, v in T.items()}

META = dict(
    title='Fitting loss coefficients follow their documented methods in every regime',
    statement='Every loss coefficient in fluids.fittings (entrances, exit, rounded and miter bends, helix, spiral, contractions, diffusers, Crane valves and tees, Darby 3K and Hooper 2K) equals the formula or tabulated interpolation its method documents, over all diameters, angles, lengths, Reynolds numbers and friction factors and in every regime (laminar/turbulent, 20, 45, 60, 75 and 180 degrees, beta = 1, area and flow ratio limits, saturation at the end of the tabulated data). '
              'Giving l or the equivalent angle, rc or the equivalent bend_diameters, fd or the Re and roughness it comes from gives the same K. Crane_loss_coefficient gives every named valve its own formula. '
              'A missing required argument, an unknown method, style or fitting name raises ValueError.',
    over=['inputs', 'configurations'],
    text='diameters 1 cm to 2 m, ratios 0.05 to 1, angles 0 to 180 degrees, Re 10 to 1e9; splines and friction factors as arbitrary functions in the dispatchers',
    why='some sixty functions with up to seven methods each and several regimes per method; tests sample one or two points of each',
    files=['fluids/fittings.py'],
    mech=['entrance_*', 'bend_rounded, bend_miter', 'contraction_*, diffuser_*', 'K_*_Crane, Crane_loss_coefficient', 'Darby3K, Hooper2K', 'v_lift_valve_Crane'],
)


def lin(x, xs, ys, extrapolate=False):
    n = len(xs)
    if not extrapolate:
        if x <= xs[0]:
            return ys[0]
        if x >= xs[-1]:
            return ys[-1]
    i = 0
    while i < n - 2 and x > xs[i + 1]:
        i += 1
    return ys[i] + (x - xs[i]) * (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])


def hor(c, x):
    r = 0.0
    for a in c:
        r = r * x + a
    return r


# arbitrary stand-ins for splines and friction factors ----------------------
def spread(name):
    """a different plane for every spline; some pass through zero so that the clamps matter"""
    n = sorted(T).index(name) + 1 if name in T else 97
    return n


def fake_bisplev(x, y, tck, **kw):
    name = KEY.get(tuple(flat(tck)))
    if name == 'tck_bend_rounded_Miller_C_Re':
        return 2.1775876405173977 + (x - 4) / 4 * (0.4196741237602154 - 2.1775876405173977) + 0.37 * (y - 2.0)
    if name == 'tck_bend_rounded_Miller':
        return 0.02 + 0.11 * x + 0.0037 * y
    if name == 'contraction_conical_Miller_tck':
        return 0.2 + 0.2 * x + 0.1 * y
    if name == 'tck_diffuser_conical_Miller':
        return 0.1 - 0.2 * x + 0.3 * y
    if name == 'tck_contraction_abrupt_Miller':
        return 0.3 - 0.2 * x - 3. * y
    if name == 'entrance_distance_Idelchik_tck':
        return 0.3 + 0.2 * x - 0.9 * y
    n = spread(name)
    return 0.3 + (0.11 + 0.003 * n) * x + (0.27 + 0.007 * n) * y


def fake_splev(x, tck, **kw):
    name = KEY.get(tuple(flat(tck)))
    n = spread(name)
    if name and name.startswith('tck_bend_rounded_Miller_C_o'):
        i = list(C_O).index(name)
        return 1.0 + (0.05 + 0.013 * i) * (T['bend_rounded_Miller_C_o_limits'][i] - x)
    return 0.1 + (0.31 + 0.003 * n) * x


C_O = ['tck_bend_rounded_Miller_C_o_' + s for s in ('0_1', '0_15', '0_2', '0_25', '1_0')]


def fake_fd(Re, eD=0.0, *a, **k):
    return 0.004 + 0.3 * Re**-0.25 + 0.7 * eD


def fake_ft(D):
    return 0.011 + 0.013 / (1 + 7 * D)


SP = dict(bisplev=fake_bisplev, splev=fake_splev)


def spl(name, x, y=None):
    """the spline called `name` of the code"""
    return float(F.splev(x, getattr(F, name))) if y is None and not sym(x) else F.splev(x, getattr(F, name)) if y is None else F.bisplev(x, y, getattr(F, name))


def sym(x):
    return hasattr(x, 't')


def tcks(name):
    return T[name]


@harness('P14', funcs='all tables of fluids.fittings', bounds='every entry')
def tables(ctx):
    for k, v in sorted(T.items()):
        ctx.same(k, flat(getattr(F, k)), v)
    for k in ('Darby', 'Hooper'):
        ctx.same(k, {a: list(b) for a, b in getattr(F, k).items()}, TAB[k])
    ctx.true('valve lists', all(k in F.Darby for k in F.DARBY_VALVES) and all(k in F.Hooper for k in F.HOOPER_VALVES))
    ctx.same('number of Darby and Hooper valves', [len(set(F.DARBY_VALVES)), len(set(F.HOOPER_VALVES))], [11, 10])
    ctx.close('smooth friction factor at 1e6', 0.011645040997991626, F.friction_factor(Re=1e6, eD=0.0), rtol=1e-7)
    ctx.close('Reynolds correction at 1e8', 0.4196741237602154, float(F.bisplev(8.0, 2.0, F.tck_bend_rounded_Miller_C_Re)), rtol=1e-7)
    ctx.close('Reynolds correction at 1e4', 2.1775876405173977, float(F.bisplev(4.0, 2.0, F.tck_bend_rounded_Miller_C_Re)), rtol=1e-7)


# ---------------------------------------------------------------- entrances
METHODS = dict(
    entrance_sharp=['Rennels', 'Swamee', 'Blevins', 'Idelchik', 'Crane', 'Miller'], entrance_distance=['Rennels', 'Miller', 'Idelchik', 'Harris', 'Crane'],
    entrance_angled=['Idelchik'], entrance_rounded=['Rennels', 'Crane', 'Miller', 'Idelchik', 'Harris', 'Swamee'], entrance_beveled=['Rennels', 'Idelchik'],
    bend_rounded=['Rennels', 'Crane', 'Crane standard', 'Miller', 'Swamee', 'Ito'], bend_miter=['Rennels', 'Miller', 'Crane', 'Blevins'],
    contraction_sharp=['Rennels', 'Hooper', 'Crane'], contraction_round=['Rennels', 'Miller', 'Idelchik'],
    contraction_conical=['Rennels', 'Idelchik', 'Crane', 'Swamee', 'Blevins', 'Miller', 'Hooper'],
    diffuser_sharp=['Rennels', 'Hooper'], diffuser_conical=['Rennels', 'Crane', 'Miller', 'Swamee', 'Idelchik', 'Hooper'])


@harness('P14', funcs='entrance_sharp, exit_normal, method lists', bounds='every method; unknown methods and missing arguments')
def methods_and_errors(ctx):
    for k, v in METHODS.items():
        ctx.same(k + ' methods', sorted(getattr(F, k + '_methods')), sorted(v))
    for m in METHODS['entrance_sharp']:
        ctx.close('sharp entrance ' + m, F.entrance_sharp(m), {'Rennels': 0.57, 'Miller': 0.5092676683721356}.get(m, 0.5))
    ctx.close('default', F.entrance_sharp(), 0.57)
    ctx.close('exit', F.exit_normal(), 1.0)
    D, r = ctx.real('D', 0.01, 2.), ctx.real('r', 0.1, 0.9)
    d = D * r
    bad = dict(method='BADMETHOD', exc='ValueError')
    ctx.raises('entrance_sharp', F.entrance_sharp, **bad)
    ctx.raises('entrance_distance', F.entrance_distance, D, t=d, **bad)
    for m in ('Rennels', 'Miller', 'Idelchik', 'Harris'):
        ctx.raises('entrance_distance without t, ' + m, F.entrance_distance, D, method=m, exc='ValueError')
    ctx.raises('entrance_angled', F.entrance_angled, 30 * r, **bad)
    ctx.raises('entrance_rounded', F.entrance_rounded, D, d, **bad)
    ctx.raises('entrance_beveled', F.entrance_beveled, D, d, 45 * r, **bad)
    ctx.raises('bend_rounded', F.bend_rounded, D, 90 * r, rc=2 * D, Re=1e5, **bad)
    for m in ('Rennels', 'Miller', 'Ito'):
        ctx.raises('bend_rounded without Re, ' + m, F.bend_rounded, D, 90 * r, rc=2 * D, method=m, exc='ValueError')
    ctx.raises('bend_rounded_Crane, two different radii', F.bend_rounded_Crane, D, 90 * r, rc=D * r * 3, bend_diameters=3.0, exc='ValueError')
    ctx.raises('bend_miter', F.bend_miter, 90 * r, Di=D, Re=1e5, **bad)
    ctx.raises('bend_miter Crane', F.bend_miter, 90 * r, Re=1e5, method='Crane', exc='ValueError')
    ctx.raises('bend_miter Miller Di', F.bend_miter, 90 * r, Re=1e5, method='Miller', exc='ValueError')
    ctx.raises('bend_miter Miller Re', F.bend_miter, 90 * r, Di=D, method='Miller', exc='ValueError')
    ctx.raises('bend_miter Blevins', F.bend_miter, 90 * r, Di=D, method='Blevins', exc='ValueError')
    ctx.raises('contraction_sharp', F.contraction_sharp, D, d, Re=1e5, **bad)
    ctx.raises('contraction_sharp Hooper', F.contraction_sharp, D, d, fd=0.02, method='Hooper', exc='ValueError')
    ctx.raises('contraction_round', F.contraction_round, D, d, 0.1 * D, **bad)
    ctx.raises('contraction_conical_Crane', F.contraction_conical_Crane, D, d, exc='ValueError')
    ctx.raises('contraction_conical', F.contraction_conical, D, d, l=D, fd=0.02, **bad)
    for m in METHODS['contraction_conical']:
        ctx.raises('contraction_conical without l or angle, ' + m, F.contraction_conical, D, d, Re=1e5, fd=0.02, method=m, exc='ValueError')
    for m in ('Rennels', 'Hooper'):
        ctx.raises('contraction_conical without Re, ' + m, F.contraction_conical, D, d, l=D, method=m, exc='ValueError')
    ctx.raises('diffuser_sharp', F.diffuser_sharp, d, D, Re=1e5, **bad)
    ctx.raises('diffuser_sharp Hooper', F.diffuser_sharp, d, D, fd=0.02, method='Hooper', exc='ValueError')
    ctx.raises('diffuser_conical', F.diffuser_conical, d, D, l=D, fd=0.02, **bad)
    for m in METHODS['diffuser_conical']:
        ctx.raises('diffuser_conical without l or angle, ' + m, F.diffuser_conical, d, D, Re=1e5, fd=0.02, method=m, exc='ValueError')
    for m in ('Rennels', 'Hooper'):
        ctx.raises('diffuser_conical without Re, ' + m, F.diffuser_conical, d, D, l=D, method=m, exc='ValueError')
    ctx.raises('diffuser_conical over 180 degrees', F.diffuser_conical, d, D, angle=180.5 + 30 * r, fd=0.02, exc='ValueError')
    for K in (F.Darby3K, F.Hooper2K):
        kw = dict(NPS=2.0) if K is F.Darby3K else dict(Di=2.0)
        ctx.raises('unknown fitting', K, Re=1e5, name='BADNAME', exc='ValueError', **kw)
        ctx.raises('no fitting', K, Re=1e5, exc='ValueError', **kw)
        ctx.raises('one constant', K, Re=1e5, K1=100.0, exc='ValueError', **kw)
    ctx.raises('Darby3K size', F.Darby3K, Re=1e5, K1=1.0, Ki=1.0, Kd=1.0, exc='ValueError')
    ctx.raises('Darby3K Re', F.Darby3K, NPS=2.0, K1=1.0, Ki=1.0, Kd=1.0, exc='ValueError')
    ctx.raises('Darby3K two constants', F.Darby3K, NPS=2.0, Re=1e5, K1=1.0, Ki=1.0, exc='ValueError')
    fd = 0.02
    for s in (-1, 3, 4):
        ctx.raises('angle valve style', F.K_angle_valve_Crane, d, D, fd=fd, style=s, exc='ValueError')
        ctx.raises('globe stop check style', F.K_globe_stop_check_valve_Crane, d, D, fd=fd, style=s, exc='ValueError')
        ctx.raises('angle stop check style', F.K_angle_stop_check_valve_Crane, d, D, fd=fd, style=s, exc='ValueError')
        ctx.raises('butterfly style', F.K_butterfly_valve_Crane, D, fd=fd, style=s, exc='ValueError')
        ctx.raises('plug style', F.K_plug_valve_Crane, d, D, 30.0, fd=fd, style=s, exc='ValueError')
    for s in (-1, 2):
        ctx.raises('diaphragm style', F.K_diaphragm_valve_Crane, D, fd=fd, style=s, exc='ValueError')
        ctx.raises('foot valve style', F.K_foot_valve_Crane, D, fd=fd, style=s, exc='ValueError')
    ctx.raises('swing', F.K_swing_check_valve_Crane, exc='ValueError')
    ctx.raises('diaphragm', F.K_diaphragm_valve_Crane, exc='ValueError')
    ctx.raises('foot', F.K_foot_valve_Crane, exc='ValueError')
    ctx.raises('lift velocity style', F.v_lift_valve_Crane, 800.0, style='BADSTYLE', exc='ValueError')
    ctx.raises('Crane fitting', F.Crane_loss_coefficient, d, D, 30.0, 'BADFITTING', exc='ValueError')


@harness('P14', funcs='entrance_distance, entrance_distance_45_Miller', bounds='Di in [.01,2], t/Di in [.0001,1.5], l/Di in [.001,15]; splines arbitrary')
def entrance_distance(ctx):
    Di, x = ctx.real('Di', 0.01, 2.), ctx.real('x', 0.0001, 1.5)
    m = ctx.choice('method', [None, 'Rennels', 'Miller', 'Idelchik', 'Harris', 'Crane', 'Miller 45'])
    if m == 'Miller 45':
        a = F.entrance_distance_45_Miller(Di, Di * (1 + 2 * x))
        return ctx.close('Miller 45', a, hor(T['entrance_distance_45_Miller_coeffs'], (min(x, 0.3) - 0.15) / 0.15), rtol=1e-5)
    if m == 'Crane':
        return ctx.close('Crane', F.entrance_distance(Di, method='Crane'), 0.78)
    if m in (None, 'Rennels'):
        y = min(x, 0.05)
        return ctx.close('Rennels', F.entrance_distance(Di, x * Di, method=m), 1.12 - 22 * y + 216 * y**2 + 80 * y**3)
    if m == 'Miller':
        return ctx.close('Miller', F.entrance_distance(Di, x * Di, method=m), hor(T['entrance_distance_Miller_coeffs'], (min(x, 0.3) - 0.15) / 0.15), rtol=1e-5)
    if m == 'Harris':
        V, R = Swap(F, **SP).run(lambda: F.entrance_distance(Di, x * Di, method=m), lambda: F.splev(min(x, 0.289145), T3('entrance_distance_Harris_tck')))
        return ctx.close('Harris', V, R)
    z = ctx.real('z', 0.001, 15.)
    given = ctx.choice('l', [True, False])
    V, R = Swap(F, **SP).run(lambda: F.entrance_distance(Di, x * Di, method=m, **(dict(l=z * Di) if given else {})),
                             lambda: max(F.bisplev(min(z, 10.0) if given else 1.0, min(x, 1.0), T3('entrance_distance_Idelchik_tck')), 0.0))
    ctx.close('Idelchik', V, R)


def T3(name):
    """the spline itself, from the code (pinned by `tables`), in the form FITPACK takes"""
    return getattr(F, name)


@harness('P14', funcs='entrance_angled, entrance_rounded', bounds='angle in [0,90]; Di in [.01,2], rc/Di in [1e-4,3]; splines arbitrary')
def entrance_rounded(ctx):
    Di, x = ctx.real('Di', 0.01, 2.), ctx.real('x', 0.0001, 3.)
    m = ctx.choice('method', [None, 'Rennels', 'Crane', 'Miller', 'Idelchik', 'Harris', 'Swamee', 'angled'])
    if m == 'angled':
        a = ctx.real('angle', 0.0, 90.0)
        return ctx.close('angled', F.entrance_angled(a), 0.57 + 0.3 * cos(radians(a)) + 0.2 * cos(radians(a))**2)

    def ref():
        if m in (None, 'Rennels'):
            if x > 1:
                return 0.03
            l = 1 + 0.622 * (1 - 0.3 * sqrt(x) - 0.7 * x)**4
            return 0.0696 * (1 - 0.569 * x) * l**2 + (l - 1)**2
        if m == 'Swamee':
            return 0.5 / (1 + 36 * x**1.2)
        if m == 'Crane':
            return lin(x, [0.0, 0.02, 0.04, 0.06, 0.1, 0.15], [0.5, 0.28, 0.24, 0.15, 0.09, 0.04])
        if m == 'Miller':
            return hor(T['entrance_rounded_Miller_coeffs'], (min(x, 0.3) - 0.15) / 0.15)
        if m == 'Harris':
            return 0.0 if x > 0.16 else F.splev(x, T3('entrance_rounded_Harris_tck'))
        return 0.03 if x > 0.2 else F.splev(x, T3('entrance_rounded_Idelchik_tck'))
    V, R = Swap(F, **SP).run(lambda: F.entrance_rounded(Di, x * Di, method=m), ref)
    ctx.close('entrance_rounded', V, R, rtol=1e-5)


@harness('P14', funcs='entrance_beveled, entrance_beveled_orifice', bounds='Di in [.01,2], l/Di in [.001,2], angle in [1,89], Do/Di in [.1,.99]; splines arbitrary')
def entrance_beveled(ctx):
    Di, x, a = ctx.real('Di', 0.01, 2.), ctx.real('x', 0.001, 2.), ctx.real('angle', 1.0, 89.0)
    m = ctx.choice('method', [None, 'Rennels', 'Idelchik', 'orifice'])
    Cb = (1 - a / 90) * (a / 90)**(1 / (1 + x))
    if m == 'orifice':
        b = ctx.real('beta', 0.1, 0.99)
        l = 1 + 0.622 * (1 - Cb * x**((1 - x**0.25) / 2))
        return ctx.close('orifice', F.entrance_beveled_orifice(Di / b, Di, x * Di, a), 0.0696 * (1 - Cb * x) * l**2 + (l - b**2)**2)
    if m == 'Idelchik':
        V, R = Swap(F, **SP).run(lambda: F.entrance_beveled(Di, x * Di, a, method=m), lambda: F.bisplev(2 * a, x, T3('entrance_beveled_Idelchik_tck')))
        return ctx.close('Idelchik', V, R)
    l = 1 + 0.622 * (1 - 1.5 * Cb * x**((1 - x**0.25) / 2))
    ctx.close('Rennels', F.entrance_beveled(Di, x * Di, a, method=m), 0.0696 * (1 - Cb * x) * l**2 + (l - 1)**2)


# -------------------------------------------------------------------- bends
def C_o_ref(Kb, x):
    K = 0.1 if Kb < 0.1 else 1.0 if Kb > 1 else Kb
    x = min(x, 30.0)
    Ks, lim, low = [0.1, 0.15, 0.2, 0.25, 1.0], T['bend_rounded_Miller_C_o_limits'], T['bend_rounded_Miller_C_o_limit_0_01']

    def co(i):
        return 1.0 if x >= lim[i] else low[i] if x <= 0.01 else F.splev(x, T3(C_O[i]))
    i = 0
    while i < 3 and K > Ks[i + 1]:
        i += 1
    return co(i) + (K - Ks[i]) * (co(i + 1) - co(i)) / (Ks[i + 1] - Ks[i])


def rough_ref(Re, eD):
    R = min(Re, 1e6)
    return F.friction_factor(Re=R, eD=eD) / (F.friction_factor(Re=R, eD=0.0) if R < 1e6 else 0.011645040997991626)


def C_1(Re):
    return F.bisplev(log10(Re), 1.0, T3('tck_bend_rounded_Miller_C_Re')) if Re < 207956.58904584477 else 1.0


def C_sharp(Kb, Re):
    c = Kb / (Kb - 0.2 * C_1(Re) + 0.2)
    return 2.2 if c > 2.2 or c < 0 else c


def C_Re_ref(r, Kb, Re):
    Re = min(max(Re, 1e4), 1e8)
    if r >= 2:
        return 0.4196741237602154 if Re == 1e8 else 2.1775876405173977 if Re == 1e4 else F.bisplev(log10(Re), 2.0, T3('tck_bend_rounded_Miller_C_Re'))
    if r <= 1:
        return C_1(Re) if r > 0.7 or Kb < 0.4 else C_sharp(Kb, Re)
    if Re > 1048884.4656835075 or Re > hor(T['bend_rounded_Miller_C_Re_limit_1'], r):
        return 1.0
    return F.bisplev(log10(Re), r, T3('tck_bend_rounded_Miller_C_Re'))


MI = dict(friction_factor=fake_fd, **SP)


@harness('P14', funcs='Miller_bend_unimpeded_correction, Miller_bend_roughness_correction', bounds='Kb in [.01,3], L/Di in [.001,60], Re in [10,1e9], eD in [0,.05]; splines and friction factor arbitrary')
def miller_corrections(ctx):
    Di = ctx.real('Di', 0.01, 2.)
    if ctx.choice('which', ['unimpeded', 'roughness']) == 'roughness':
        Re, eD = ctx.real('Re', 10., 1e9), ctx.real('eD', 0.0, 0.05)
        V, R = Swap(F, **MI).run(lambda: F.Miller_bend_roughness_correction(Re=Re, Di=Di, roughness=eD * Di), lambda: rough_ref(Re, eD))
        return ctx.close('roughness', V, R)
    Kb, x = ctx.real('Kb', 0.01, 3.), ctx.real('x', 0.001, 60.)
    V, R = Swap(F, **MI).run(lambda: F.Miller_bend_unimpeded_correction(Kb=Kb, Di=Di, L_unimpeded=x * Di), lambda: C_o_ref(Kb, x))
    ctx.close('unimpeded length', V, R)


# the corrections are compared above; here they are arbitrary functions of what they are given
MC = dict(Miller_bend_roughness_correction=lambda Re, Di, roughness: 1 + 0.3 * Re**-0.1 + 2.0 * (roughness / Di), Miller_bend_unimpeded_correction=lambda Kb, Di, L_unimpeded: 1.3 + 0.2 * Kb + 0.05 * (L_unimpeded / Di), **SP)


@harness('P14', funcs='bend_rounded_Miller, bend_rounded', bounds='rc/Di in [.2,15], angle in [2,180], Re in [1e3,1e9], eD in [0,.05]; splines and corrections arbitrary', timeout=120, domain='assume')
def bend_rounded_Miller(ctx):
    Di, a, Re, eD = ctx.real('Di', 0.01, 2.), ctx.real('angle', 2., 180.), ctx.real('Re', 1e3, 1e9), ctx.real('eD', 0.0, 0.05)
    how = ctx.choice('radius', ['rc', 'bend_diameters', 'default'])
    lo, hi = ctx.choice('range', [(0.2, 0.69), (0.71, 0.999), (1.001, 1.999), (2.001, 15.)])
    x = 5.0 if how == 'default' else ctx.real('x', lo, hi)
    if how == 'default' and lo != 0.2:
        return
    f = ctx.choice('function', ['bend_rounded', 'bend_rounded_Miller'])
    kw = dict(rc=x * Di) if how == 'rc' else dict(bend_diameters=x) if how == 'bend_diameters' else {}
    if f == 'bend_rounded':
        kw['method'] = 'Miller'
    y = ctx.real('y', 0.1, 60.)
    L = ctx.choice('L_unimpeded', [True, False])
    if L:
        kw['L_unimpeded'] = y * Di

    def ref():
        r = min(max(x, 0.5), 10.0)
        Kb = F.bisplev(r, max(a, 10.0), T3('tck_bend_rounded_Miller'))
        return Kb * C_Re_ref(r, Kb, Re) * F.Miller_bend_roughness_correction(Re=Re, Di=Di, roughness=eD * Di) * F.Miller_bend_unimpeded_correction(Kb=Kb, Di=Di, L_unimpeded=y * Di if L else 20 * Di)
    V, R = Swap(F, **MC).run(lambda: getattr(F, f)(Di=Di, angle=a, Re=Re, roughness=eD * Di, **kw), ref)
    ctx.close('Miller', V, R)


def crane_bend(x, a, ft):
    x = min(max(x, 1.0), 20.0)
    K = ft * hor(T['bend_rounded_Crane_coeffs'], (x - 10.5) / 9.5)
    return (a / 90 - 1) * (0.25 * pi * ft * x + 0.5 * K) + K


@harness('P14', funcs='bend_rounded, bend_rounded_Crane, bend_rounded_Ito', bounds='rc/Di in [.3,80], angle in [2,180], Re in [10,1e8], eD in [0,.05]; friction factors arbitrary', timeout=120)
def bend_rounded(ctx):
    Di, a = ctx.real('Di', 0.01, 2.), ctx.real('angle', 2., 180.)
    how = ctx.choice('radius', ['rc', 'bend_diameters', 'default', 'both'])
    m = ctx.choice('method', [None, 'Rennels', 'Crane', 'Crane standard', 'Swamee', 'Ito'])
    lo, hi = ctx.choice('range', [(0.3, 9.84), (9.86, 49.9), (50.1, 80.)]) if m == 'Ito' else (0.3, 30.)
    x = 5.0 if how == 'default' else ctx.real('x', lo, hi)
    Re, eD = ctx.real('Re', 10., 1e8), ctx.real('eD', 0.0, 0.05)
    kw = dict(rc=x * Di) if how == 'rc' else dict(bend_diameters=x) if how == 'bend_diameters' else {} if how == 'default' else dict(rc=x * Di, bend_diameters=x)
    real = m
    fd = ctx.real('fd', 0.005, 0.1)
    if m in (None, 'Rennels'):
        given = ctx.choice('fd given', [True, False])
        kw.update(dict(fd=fd) if given else dict(Re=Re, roughness=eD * Di))
    elif m == 'Ito':
        kw.update(Re=Re, roughness=eD * Di)

    def curved(Re, Di, Dc, roughness=0.0, Rec_method='Schmidt', laminar_method='Schmidt laminar', turbulent_method='Schmidt turbulent', Darcy=True):
        n = ['Srinivasan', 'White', 'Srinivasan turbulent', True] == [Rec_method, laminar_method, turbulent_method, Darcy]
        return (0.02 if n else 0.05) + 0.3 * Re**-0.25 + 0.7 * (roughness / Di) + 0.4 * (Di / Dc)

    def ref():
        t = radians(a)
        if m in (None, 'Rennels'):
            f = fd if given else F.Clamond(Re, eD, False)
            s = sin(t / 2)
            return f * t * x + (0.1 + 2.4 * f) * s + 6.6 * f * (sqrt(s) + s) / x**(4 * t / pi)
        if m == 'Swamee':
            return (0.0733 + 0.923 * (1 / x)**3.5) * sqrt(t)
        if m == 'Crane standard':
            return F.ft_Crane(Di) * lin(a, [45., 90., 180.], [16., 30., 50.], True)
        if m == 'Crane':
            return crane_bend(x, a, F.ft_Crane(Di))
        if x > 50:
            al = 1.0
        else:
            al = lin(a, [45., 90., 180.], [1 + 5.13 * x**-1.47, 0.95 + 4.42 * x**-1.96 if x < 9.85 else 1.0, 1 + 5.06 * x**-4.52])
        if Re / x**2 <= 360:
            return 0.0175 * al * F.friction_factor_curved(Re=Re, Di=Di, Dc=2 * x * Di, roughness=eD * Di, Rec_method='Srinivasan', laminar_method='White', turbulent_method='Srinivasan turbulent') * a * x
        return 0.00431 * al * a * Re**-0.17 * x**0.84
    V, R = Swap(F, Clamond=fake_fd, ft_Crane=fake_ft, friction_factor_curved=curved).run(lambda: F.bend_rounded(Di, a, method=m, **kw), ref)
    ctx.close('bend_rounded', V, R, rtol=1e-5)
    if m == 'Crane':
        V, R = Swap(F, ft_Crane=fake_ft).run(lambda: F.bend_rounded_Crane(Di, a, **kw), lambda: crane_bend(x, a, F.ft_Crane(Di)))
        ctx.close('bend_rounded_Crane', V, R, rtol=1e-5)


@harness('P14', funcs='bend_miter, bend_miter_Miller', bounds='angle in [1,150], Re in [1e3,1e9], eD in [0,.05]; splines, corrections and friction factors arbitrary', domain='assume')
def bend_miter(ctx):
    Di, a, Re, eD, y = ctx.real('Di', 0.01, 2.), ctx.real('angle', 1., 150.), ctx.real('Re', 1e3, 1e9), ctx.real('eD', 0.0, 0.05), ctx.real('y', 0.1, 60.)
    m = ctx.choice('method', [None, 'Rennels', 'Miller', 'Crane', 'Blevins'])
    L = ctx.choice('L_unimpeded', [True, False]) if m == 'Miller' else False

    def ref():
        if m in (None, 'Rennels'):
            s = sin(radians(a) / 2)
            return 0.42 * s + 2.56 * s**3
        if m == 'Crane':
            return F.ft_Crane(Di) * lin(a, [0., 15., 30., 45., 60., 75., 90.], [2., 4., 8., 15., 25., 40., 60.])
        if m == 'Blevins':
            return lin(a, [0., 10., 20., 30., 40., 50., 60., 70., 80., 90., 120.], [0.0, 0.025, 0.055, 0.1, 0.2, 0.35, 0.5, 0.7, 0.9, 1.1, 1.5]) * (2e5 / Re)**0.2
        Kb = hor(T['bend_miter_Miller_coeffs'], (min(a, 120.) - 60) / 60)
        return Kb * C_sharp(Kb, min(max(Re, 1e4), 1e8)) * F.Miller_bend_roughness_correction(Re=Re, Di=Di, roughness=eD * Di) * F.Miller_bend_unimpeded_correction(Kb=Kb, Di=Di, L_unimpeded=y * Di if L else 20 * Di)
    kw = dict(L_unimpeded=y * Di) if L else {}
    V, R = Swap(F, ft_Crane=fake_ft, **MC).run(lambda: F.bend_miter(a, Di=Di, Re=Re, roughness=eD * Di, method=m, **kw), ref)
    ctx.close('bend_miter', V, R, rtol=1e-5)


same_formula('P14', F.helix, lambda Di, rs, pitch, N, fd: N * (fd * sqrt((2 * pi * rs)**2 + pitch**2) / Di + 0.2 + 4.8 * fd),
             dict(Di=(0.005, 0.5), rs=(0.02, 5.), pitch=(0.01, 2.), N=(0.1, 100.), fd=(0.005, 0.1)))
same_formula('P14', F.spiral, lambda Di, rmax, rmin, pitch, fd: (rmax - rmin) / pitch * (fd * pi * (rmax + rmin) / Di + 0.2 + 4.8 * fd) + 13.2 * fd * Di**2 / rmin**2,
             dict(Di=(0.005, 0.5), rmax=(1.01, 5.), rmin=(0.02, 1.0), pitch=(0.01, 2.), fd=(0.005, 0.1)))


# ------------------------------------------------------------- contractions
def hooper_c(b, Re, fd):
    """sharp contraction, on the basis of the larger pipe"""
    r = 1 / b
    return (1.2 + 160 / Re) * (r**4 - 1) if Re <= 2500 else (0.6 + 0.48 * fd()) * r**2 * (r**2 - 1)


@harness('P14', funcs='contraction_sharp, contraction_round, contraction_round_Miller, contraction_beveled', bounds='D2/D1 in [.05,.99], rc/D2 in [1e-4,.9], Re in [10,1e8]; splines, friction factor arbitrary')
def contraction_sharp_round(ctx):
    D, b, Re, eD, fd = ctx.real('D', 0.01, 2.), ctx.real('beta', 0.05, 0.99), ctx.real('Re', 10., 1e8), ctx.real('eD', 0.0, 0.05), ctx.real('fd', 0.005, 0.1)
    d = b * D
    m = ctx.choice('method', ['Rennels', 'Hooper', 'Hooper fd', 'Crane', 'round default', 'round Rennels', 'round Miller', 'round Idelchik', 'beveled'])
    if m == 'beveled':
        x, a = ctx.real('x', 0.001, 0.2), ctx.real('angle', 5., 170.)
        t = radians(a)
        CB = x * 2 * b * tan(t / 2) / (1 - b)
        l = 1 + 0.622 * (1 + CB * ((a / 180)**0.8 - 1)) * (1 - 0.215 * b**2 - 0.785 * b**5)
        return ctx.close('beveled', F.contraction_beveled(D, d, x * d, a), 0.0696 * (1 + CB * (sin(t / 2) - 1)) * (1 - b**5) * l**2 + (l - 1)**2)
    if m[:5] == 'round':
        x = ctx.real('x', 0.0001, 0.9)

        def ref():
            if 'Miller' in m:
                return max(F.bisplev(b**2, min(x, 0.1), T3('tck_contraction_abrupt_Miller')), 0.0)
            if 'Idelchik' in m:
                return lin(x, [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.12, 0.16, 0.2], [0.5, 0.43, 0.37, 0.31, 0.26, 0.22, 0.2, 0.15, 0.09, 0.06, 0.03]) * (1 - b**2)
            l = 1 + 0.622 * (1 - 0.3 * sqrt(x) - 0.7 * x)**4 * (1 - 0.215 * b**2 - 0.785 * b**5)
            return 0.0696 * (1 - 0.569 * x) * (1 - sqrt(x) * b) * (1 - b**5) * l**2 + (l - 1)**2
        V, R = Swap(F, **SP).run(lambda: F.contraction_round(D, d, x * d, **({} if 'default' in m else dict(method=m[6:]))), ref)
        return ctx.close(m, V, R)
    if m == 'Crane':
        return ctx.close('Crane', F.contraction_sharp(D, d, method=m), 0.5 * (1 - b**2))
    if m == 'Rennels':
        l = 1 + 0.622 * (1 - 0.215 * b**2 - 0.785 * b**5)
        return ctx.close('Rennels', F.contraction_sharp(D, d), 0.0696 * (1 - b**5) * l**2 + (l - 1)**2)
    kw = dict(fd=fd) if 'fd' in m else dict(roughness=eD * D)
    V, R = Swap(F, Clamond=fake_fd).run(lambda: F.contraction_sharp(D, d, Re=Re, method='Hooper', **kw), lambda: hooper_c(b, Re, lambda: fd if 'fd' in m else F.Clamond(Re, eD)) * b**4)
    ctx.close('Hooper', V, R)


@harness('P14', funcs='contraction_conical, contraction_conical_Crane', bounds='D2/D1 in [.1,.98], angle in [1,179] or the equivalent length, and length 0; splines, friction factor arbitrary', timeout=120)
def contraction_conical(ctx):
    D, b, Re, eD, fd = ctx.real('D', 0.01, 2.), ctx.real('beta', 0.1, 0.98), ctx.real('Re', 10., 1e8), ctx.real('eD', 0.0, 0.05), ctx.real('fd', 0.005, 0.1)
    d = b * D
    m = ctx.choice('method', METHODS['contraction_conical'] + ['Crane alone'])
    how = ctx.choice('given', ['angle', 'l', 'l = 0'])
    if how == 'l = 0':
        t, x, kw = pi, 0.0, dict(l=0.0)
    elif how == 'angle':
        a = ctx.real('a', *ctx.choice('range', [(0.5, 44.99), (45.01, 179.)]))
        t = radians(a)
        x = (1 / b - 1) / (2 * tan(t / 2))       # length over the smaller diameter
        kw = dict(angle=a)
    else:
        x = ctx.real('x', 0.001, 50.)
        t = 2 * atan((1 / b - 1) / (2 * x))
        kw = dict(l=x * d)
    crane = (0.8 * sin(t / 2) if t < pi / 4 else 0.5 * sqrt(sin(t / 2))) * (1 - b**2)
    if m == 'Crane alone':
        return ctx.close('contraction_conical_Crane', F.contraction_conical_Crane(D, d, **kw), crane)
    given = ctx.choice('fd given', [True, False]) if m in ('Rennels', 'Hooper') else False
    kw.update(dict(fd=fd) if given else dict(roughness=eD * (d if m == 'Rennels' else D)))
    if m == 'Hooper' or m == 'Rennels' and not given:
        kw['Re'] = Re

    def ref():
        if m == 'Crane':
            return crane
        if m == 'Swamee':
            return 0.315 * t**(1 / 3)
        if m == 'Rennels':
            f = fd if given else F.Clamond(Re, eD, False)
            l = 1 + 0.622 * (t / pi)**0.8 * (1 - 0.215 * b**2 - 0.785 * b**5)
            return f * (1 - b**4) / (8 * sin(t / 2)) + 0.0696 * sin(t / 2) * (1 - b**5) * l**2 + (l - 1)**2
        if m == 'Hooper':
            return hooper_c(b, Re, lambda: fd if given else F.Clamond(Re, eD)) * (sqrt(sin(t / 2)) if t > pi / 4 else 1.6 * sin(t / 2)) * b**4
        if m == 'Idelchik':
            return F.bisplev(degrees(t), x, T3('entrance_beveled_Idelchik_tck')) * (1 - b**2) + F.bisplev(min(max(degrees(t), 2.0), 20.0), min(max(b**2, 0.05), 0.6), T3('contraction_conical_friction_Idelchik_tck'))
        if m == 'Blevins':
            return F.bisplev(min(x, 0.6), min(max(1 / b**2, 1.2), 10.0), T3('contraction_conical_Blevins_tck'))
        return max(min(F.bisplev(log(min(max(2 * x, 0.1), 10.0)), log(min(max(1 / b**2, 1.1), 4.0)), T3('contraction_conical_Miller_tck')), 0.5), 0)
    V, R = Swap(F, Clamond=fake_fd, **SP).run(lambda: F.contraction_conical(D, d, method=m, **kw), ref)
    ctx.close('contraction_conical', V, R, rtol=1e-5, atol=1e-9)


# ---------------------------------------------------------------- diffusers
def rennels_d(t, b, f):
    a = degrees(t)
    fr = f * (1 - b**4) / (8 * sin(t / 2))
    if a <= 20:
        return 8.3 * tan(t / 2)**1.75 * (1 - b**2)**2 + fr
    if a <= 60:
        c = 1.366 * sqrt(sin(2 * pi * (a - 15) / 180)) - 0.17
        if b < 0.5:
            c = c - 3.28 * (0.0625 - b**4) * sqrt((a - 20) / 40)
        return c * (1 - b**2)**2 + fr
    if b < 0.5:
        return (1.205 - 3.28 * (0.0625 - b**4) - 12.8 * b**6 * sqrt((a - 60) / 120)) * (1 - b**2)**2
    return (1.205 - 0.2 * sqrt((a - 60) / 120)) * (1 - b**2)**2


def hooper_d(b, Re, f):
    return 2 * (1 - b**4) if Re < 4000 else (1 + 0.8 * f()) * (1 - b**2)**2


@harness('P14', funcs='diffuser_sharp, diffuser_curved, diffuser_pipe_reducer', bounds='D1/D2 in [.05,.99], Re in [10,1e8]; friction factor arbitrary')
def diffuser_sharp_curved_reducer(ctx):
    D, b, Re, eD, fd = ctx.real('D', 0.01, 2.), ctx.real('beta', 0.05, 0.99), ctx.real('Re', 10., 1e8), ctx.real('eD', 0.0, 0.05), ctx.real('fd', 0.005, 0.1)
    d = b * D
    m = ctx.choice('method', ['Rennels', 'Hooper', 'Hooper fd', 'curved', 'reducer', 'reducer fd2'])
    if m == 'Rennels':
        return ctx.close(m, F.diffuser_sharp(d, D), (1 - b**2)**2)
    if 'Hooper' in m:
        kw = dict(fd=fd) if 'fd' in m else dict(roughness=eD * d)
        V, R = Swap(F, Clamond=fake_fd).run(lambda: F.diffuser_sharp(d, D, Re=Re, method='Hooper', **kw), lambda: hooper_d(b, Re, lambda: fd if 'fd' in m else F.Clamond(Re, eD)))
        return ctx.close(m, V, R)
    x = ctx.real('x', 0.05, 5.)
    if m == 'curved':
        return ctx.close(m, F.diffuser_curved(d, D, x * d), (1.01 - 0.624 * x + 0.3 * x**2 - 0.074 * x**3 + 0.007 * x**4) * (1.43 - 1.3 * b**2) * (1 - b**2)**2)
    f2 = ctx.real('fd2', 0.005, 0.1)
    h = atan((D - d) / (1.2 * x * d))
    ctx.close(m, F.diffuser_pipe_reducer(d, D, x * d, fd, *([f2] if '2' in m else [])), fd * 0.2 * x + fd * (1 - b) / (8 * sin(h)) + (f2 if '2' in m else fd) * 0.2 * x * b**5)


@harness('P14', funcs='diffuser_conical, diffuser_conical_Crane', bounds='D1/D2 in [.1,.98], angle in [1,179] or the equivalent length; splines, friction factor arbitrary', timeout=120, domain='assume')
def diffuser_conical(ctx):
    D, b, Re, eD, fd = ctx.real('D', 0.01, 2.), ctx.real('beta', 0.1, 0.98), ctx.real('Re', 10., 1e8), ctx.real('eD', 0.0, 0.05), ctx.real('fd', 0.005, 0.1)
    d = b * D
    m = ctx.choice('method', METHODS['diffuser_conical'] + [None, 'Crane alone'])
    how = ctx.choice('given', ['angle', 'l'])
    if how == 'angle':
        a = ctx.real('a', *ctx.choice('range', [(0.5, 19.99), (20.01, 44.99), (45.01, 59.99), (60.01, 179.)]))
        t = radians(a)
        x = (1 / b - 1) / (2 * tan(t / 2))
        kw = dict(angle=a)
    else:
        h = ctx.real('h', *ctx.choice('range', [(0.004, 0.2), (0.2, 0.36), (0.36, 0.412), (0.416, 50.)]))
        t = 2 * atan(h)
        x = (1 / b - 1) / (2 * h)
        kw = dict(l=x * d)
    crane = (2.6 * sin(t / 2) if t < pi / 4 else 1.0) * (1 - b**2)**2
    if m == 'Crane alone':
        ctx.close('sharp', F.diffuser_conical_Crane(d, D, l=0.0), (1 - b**2)**2)
        return ctx.close('diffuser_conical_Crane', F.diffuser_conical_Crane(d, D, **kw), crane)
    given = ctx.choice('fd given', [True, False]) if m in (None, 'Rennels', 'Hooper') else False
    kw.update(dict(fd=fd) if given else dict(roughness=eD * (d if m == 'Hooper' else D)))
    if m == 'Hooper' or m in (None, 'Rennels') and not given:
        kw['Re'] = Re

    def ref():
        if m == 'Crane':
            return crane
        if m in (None, 'Rennels'):
            return rennels_d(t, b, fd if given else F.Clamond(Re, eD, False))
        if m == 'Swamee':
            return (0.25 / t**3 * (1 + 0.6 * b**1.67 * (pi - t) / t)**(0.533 / b - 2.6))**-0.5
        if m == 'Hooper':
            return hooper_d(b, Re, lambda: fd if given else F.Clamond(Re, eD)) * (1.0 if t > pi / 4 else 2.6 * sin(t / 2))
        if m == 'Idelchik':
            return F.bisplev(min(max(degrees(t), 2.0), 20.0), min(max(b**2, 0.05), 0.6), T3('contraction_conical_friction_Idelchik_tck')) + F.bisplev(min(0.6, b**2), max(3.0, degrees(t)), T3('diffuser_conical_Idelchik_tck'))
        return max(F.bisplev(log(min(max(2 * x, 0.1), 20.0)), log(min(max(1 / b**2, 1.1), 4.0)), T3('tck_diffuser_conical_Miller')), 0)
    V, R = Swap(F, Clamond=fake_fd, **SP).run(lambda: F.diffuser_conical(d, D, **(dict(method=m) if m else {}), **kw), ref)
    ctx.close('diffuser_conical', V, R, rtol=1e-5, atol=1e-9)


@harness('P14', funcs='diffuser_conical_staged', bounds='2 to 4 stages; diffuser_conical arbitrary')
def diffuser_staged(ctx):
    n = ctx.choice('stages', [2, 3, 4, 5])
    D = [ctx.real('D%d' % i, 0.1 + i, 1.0 + i) for i in range(n + 1)]
    l = [ctx.real('l%d' % i, 0.1, 5.0) for i in range(n)]
    fd = ctx.real('fd', 0.005, 0.1)
    m = ctx.choice('method', ['Rennels', 'Crane'])

    def fake(Di1, Di2, l=None, angle=None, fd=None, Re=None, roughness=0.0, method='Rennels'):
        return 1 + 0.37 * Di1**2 + 0.53 * Di2 * Di1 + 0.23 * l * Di2 + (7 * fd if fd is not None else 31) + (0 if angle is None else 3) + (0 if Re is None else 5) + {'Rennels': 1, 'Crane': 2}[method]
    V, R = Swap(F, diffuser_conical=fake).run(lambda: F.diffuser_conical_staged(Di1=D[0], Di2=D[-1], DEs=D[1:-1], ls=l, fd=fd, method=m),
                                              lambda: sum(F.diffuser_conical(D[i], D[i + 1], l=l[i], fd=fd, method=m) for i in range(n)))
    ctx.close('sum over the stages', V, R)


# ------------------------------------------------------------ 2K and 3K
@harness('P14', funcs='Darby3K, Hooper2K', bounds='every fitting, Re in [1,1e8], nominal size in [.125,48] inch; constants given directly', timeout=120)
def two_k_three_k(ctx):
    Re, D = ctx.real('Re', 1., 1e8), ctx.real('D', 0.125, 48.)
    m = ctx.choice('which', ['Darby', 'Hooper', 'Darby constants', 'Hooper constants'])
    k1, k2, k3 = ctx.real('K1', 10., 3000.), ctx.real('K2', 0.01, 10.), ctx.real('K3', 1., 5.)
    if m == 'Darby constants':
        ctx.close(m, F.Darby3K(NPS=D, Re=Re, K1=k1, Ki=k2, Kd=k3), k1 / Re + k2 * (1 + k3 / D**0.3))
    elif m == 'Hooper constants':
        ctx.close(m, F.Hooper2K(Di=D, Re=Re, K1=k1, Kinfty=k2), k1 / Re + k2 * (1 + 1 / D))
    elif m == 'Darby':
        for n, (a, b, c) in sorted(TAB['Darby'].items()):
            ctx.close(n, F.Darby3K(NPS=D, Re=Re, name=n), a / Re + b * (1 + c / D**0.3))
    else:
        for n, (a, b) in sorted(TAB['Hooper'].items()):
            ctx.close(n, F.Hooper2K(Di=D, Re=Re, name=n), a / Re + b * (1 + 1 / D))


@harness('P14', funcs='Darby3K', bounds='Di in [5 mm, 1.2 m]: the nominal size is interpolated in schedule 40 pipe')
def darby_from_Di(ctx):
    Re, D = ctx.real('Re', 1., 1e8), ctx.real('D', 0.005, 1.2)
    P = TAB['pipes']['40']
    ctx.close('interpolated nominal size', F.Darby3K(Di=D, Re=Re, K1=800., Ki=0.14, Kd=4.0), 800 / Re + 0.14 * (1 + 4 / lin(D * 1000, P[1], P[0], True)**0.3))


# -------------------------------------------------------------- Crane valves
def gate(N, sty):
    def f(D1, D2, t, fd):
        b = D1 / D2
        if b == 1 or sty == 'gate' and t == 0:
            return N * fd
        if t <= pi / 4 and sty != 'plug':
            return (N * fd + sin(t / 2) * (0.8 * (1 - b**2) + 2.6 * (1 - b**2)**2)) / b**4
        return (N * fd + 0.5 * sqrt(sin(t / 2)) * (1 - b**2) + (1 - b**2)**2) / b**4
    return f


def seat(N, p=2):
    """Crane formula 7; globe and angle valves are implemented (and pinned by the tests) with (1 - beta)^2"""
    def f(D1, D2, t, fd):
        b = D1 / D2
        if b == 1:
            return N * fd
        return (N * fd + b * (0.5 * ((1 - b**2) if p == 2 else (1 - b)**2) + (1 - b**2)**2)) / b**4
    return f


def line(N):
    return lambda D1, D2, t, fd: N * fd


def sized(*N):
    return lambda D1, D2, t, fd: (N[0] if D2 <= 9 * 0.0254 else N[1] if D2 <= 15 * 0.0254 else N[2]) * fd


VALVES = {
    'GATE_VALVE': gate(8, 'gate'), 'GLOBE_VALVE': seat(340, 1), 'ANGLE_VALVE_0': seat(55, 1), 'ANGLE_VALVE_1': seat(150, 1), 'ANGLE_VALVE_2': seat(55, 1),
    'SWING_CHECK_VALVE': line(50), 'SWING_CHECK_VALVE_ANGLED': line(100), 'LIFT_CHECK_VALVE': seat(600), 'LIFT_CHECK_VALVE_ANGLED': seat(55),
    'TILTING_CHECK_VALVE_5DEG': sized(40, 30, 20), 'TILTING_CHECK_VALVE_15DEG': sized(120, 90, 60),
    'GLOBE_STOP_CHECK_VALVE_0': seat(400), 'GLOBE_STOP_CHECK_VALVE_1': seat(300), 'GLOBE_STOP_CHECK_VALVE_2': seat(55),
    'ANGLE_STOP_CHECK_VALVE_0': seat(200), 'ANGLE_STOP_CHECK_VALVE_1': seat(350), 'ANGLE_STOP_CHECK_VALVE_2': seat(55), 'BALL_VALVE': gate(3, 'ball'),
    'DIAPHRAGM_VALVE_WEIR': line(149), 'DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR': line(39), 'FOOT_VALVE_POPPET_DISK': line(420), 'FOOT_VALVE_HINGED_DISK': line(75),
    'BUTTERFLY_VALVE_CENTRIC': sized(45, 35, 25), 'BUTTERFLY_VALVE_DOUBLE_OFFSET': sized(74, 52, 43), 'BUTTERFLY_VALVE_TRIPLE_OFFSET': sized(218, 96, 55),
    'PLUG_VALVE_STRAIGHT_THROUGH': gate(18, 'plug'), 'PLUG_VALVE_3_WAY_STRAIGHT_THROUGH': gate(30, 'plug'), 'PLUG_VALVE_3_WAY_90_DEG': gate(90, 'plug')}
DIRECT = {
    'GATE_VALVE': lambda a, b, t, k: F.K_gate_valve_Crane(a, b, t, **k), 'GLOBE_VALVE': lambda a, b, t, k: F.K_globe_valve_Crane(a, b, **k),
    'ANGLE_VALVE_0': lambda a, b, t, k: F.K_angle_valve_Crane(a, b, **k), 'ANGLE_VALVE_1': lambda a, b, t, k: F.K_angle_valve_Crane(a, b, style=1, **k), 'ANGLE_VALVE_2': lambda a, b, t, k: F.K_angle_valve_Crane(a, b, style=2, **k),
    'SWING_CHECK_VALVE': lambda a, b, t, k: F.K_swing_check_valve_Crane(D=b, angled=False, **k), 'SWING_CHECK_VALVE_ANGLED': lambda a, b, t, k: F.K_swing_check_valve_Crane(D=b, **k),
    'LIFT_CHECK_VALVE': lambda a, b, t, k: F.K_lift_check_valve_Crane(a, b, angled=False, **k), 'LIFT_CHECK_VALVE_ANGLED': lambda a, b, t, k: F.K_lift_check_valve_Crane(a, b, **k),
    'TILTING_CHECK_VALVE_5DEG': lambda a, b, t, k: F.K_tilting_disk_check_valve_Crane(b, 9.999, **k), 'TILTING_CHECK_VALVE_15DEG': lambda a, b, t, k: F.K_tilting_disk_check_valve_Crane(b, 10.0, **k),
    'GLOBE_STOP_CHECK_VALVE_0': lambda a, b, t, k: F.K_globe_stop_check_valve_Crane(a, b, **k), 'GLOBE_STOP_CHECK_VALVE_1': lambda a, b, t, k: F.K_globe_stop_check_valve_Crane(a, b, style=1, **k),
    'GLOBE_STOP_CHECK_VALVE_2': lambda a, b, t, k: F.K_globe_stop_check_valve_Crane(a, b, style=2, **k),
    'ANGLE_STOP_CHECK_VALVE_0': lambda a, b, t, k: F.K_angle_stop_check_valve_Crane(a, b, **k), 'ANGLE_STOP_CHECK_VALVE_1': lambda a, b, t, k: F.K_angle_stop_check_valve_Crane(a, b, style=1, **k),
    'ANGLE_STOP_CHECK_VALVE_2': lambda a, b, t, k: F.K_angle_stop_check_valve_Crane(a, b, style=2, **k), 'BALL_VALVE': lambda a, b, t, k: F.K_ball_valve_Crane(a, b, t, **k),
    'DIAPHRAGM_VALVE_WEIR': lambda a, b, t, k: F.K_diaphragm_valve_Crane(D=b, **k), 'DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR': lambda a, b, t, k: F.K_diaphragm_valve_Crane(D=b, style=1, **k),
    'FOOT_VALVE_POPPET_DISK': lambda a, b, t, k: F.K_foot_valve_Crane(D=b, **k), 'FOOT_VALVE_HINGED_DISK': lambda a, b, t, k: F.K_foot_valve_Crane(D=b, style=1, **k),
    'BUTTERFLY_VALVE_CENTRIC': lambda a, b, t, k: F.K_butterfly_valve_Crane(b, **k), 'BUTTERFLY_VALVE_DOUBLE_OFFSET': lambda a, b, t, k: F.K_butterfly_valve_Crane(b, style=1, **k),
    'BUTTERFLY_VALVE_TRIPLE_OFFSET': lambda a, b, t, k: F.K_butterfly_valve_Crane(b, style=2, **k), 'PLUG_VALVE_STRAIGHT_THROUGH': lambda a, b, t, k: F.K_plug_valve_Crane(a, b, t, **k),
    'PLUG_VALVE_3_WAY_STRAIGHT_THROUGH': lambda a, b, t, k: F.K_plug_valve_Crane(a, b, t, style=1, **k), 'PLUG_VALVE_3_WAY_90_DEG': lambda a, b, t, k: F.K_plug_valve_Crane(a, b, t, style=2, **k)}


@harness('P14', funcs='K_*_valve_Crane, Crane_loss_coefficient', bounds='every Crane valve; D2 in [.01,2] and the 9 and 15 inch limits, D1/D2 in [.1,.99] and 1, angle in [.5,180] and 0; fd given or arbitrary', timeout=120)
def crane_valves(ctx):
    ctx.same('valves', sorted(F.CRANE_VALVES), sorted('CRANE_' + k for k in VALVES))
    v = ctx.choice('valve', sorted(VALVES))
    size = ctx.choice('size', ['any', '9 inch', '15 inch'] if 'CHECK_VALVE_5' in v or 'CHECK_VALVE_1' in v or 'BUTTER' in v else ['any'])
    D2 = ctx.real('D2', 0.01, 2.) if size == 'any' else 0.2286 if size[0] == '9' else 0.381
    full = ctx.choice('full bore', [True, False])
    D1 = D2 if full else ctx.real('beta', 0.1, 0.99) * D2
    a = 0.0 if ctx.choice('angle', ['0', 'any']) == '0' else ctx.real('a', 0.5, 180.)
    fd = ctx.real('fd', 0.005, 0.1)
    k = dict(fd=fd) if ctx.choice('fd given', [True, False]) else {}
    ref = lambda: VALVES[v](D1, D2, radians(a), fd if k else F.ft_Crane(D2))
    ctx.same('name', getattr(F, 'CRANE_' + v), 'CRANE_' + v)
    V, R = Swap(F, ft_Crane=fake_ft).run(lambda: DIRECT[v](D1, D2, a, k), ref)
    ctx.close(v, V, R)
    V, R = Swap(F, ft_Crane=fake_ft).run(lambda: F.Crane_loss_coefficient(D1, D2, a, 'CRANE_' + v, **k), ref)
    ctx.close('Crane_loss_coefficient ' + v, V, R)


@harness('P14', funcs='K_globe_valve_Crane, K_angle_valve_Crane', bounds='D2 in [.01,2], D1/D2 in [.1,.95], fd in [.005,.1]')
def reduced_seat(ctx):
    D2, b, fd = ctx.real('D2', 0.01, 2.), ctx.real('beta', 0.1, 0.95), ctx.real('fd', 0.005, 0.1)
    v = ctx.choice('valve', ['globe', 'angle'])
    K = F.K_globe_valve_Crane(b * D2, D2, fd) if v == 'globe' else F.K_angle_valve_Crane(b * D2, D2, fd)
    ctx.close('reduced seat of globe and angle valves by Crane formula 7', K, seat(340 if v == 'globe' else 55)(b * D2, D2, 0, fd))


LIFT = {'swing check angled': (45, 0), 'swing check straight': (75, 0), 'swing check UL': (120, 0), 'lift check straight': (50, 2), 'lift check angled': (170, 2),
        'tilting check 5°': (100, 0), 'tilting check 15°': (40, 0), 'stop check globe 1': (70, 2), 'stop check angle 1': (95, 2), 'stop check globe 2': (75, 2),
        'stop check angle 2': (75, 2), 'stop check globe 3': (170, 2), 'stop check angle 3': (170, 2), 'foot valve poppet disc': (20, 0), 'foot valve hinged disc': (45, 0)}


@harness('P14', funcs='v_lift_valve_Crane', bounds='every valve, rho in [.1,2e4], beta in [.1,1]')
def lift_velocity(ctx):
    rho, D, b = ctx.real('rho', 0.1, 2e4), ctx.real('D', 0.01, 2.), ctx.real('beta', 0.1, 1.0)
    for s, (N, p) in LIFT.items():
        ctx.close(s, F.v_lift_valve_Crane(rho=rho, D1=b * D, D2=D, style=s), N * b**p * sqrt(1 / rho))
        if not p:
            ctx.close(s + ' without diameters', F.v_lift_valve_Crane(rho, style=s), N * sqrt(1 / rho))
    ctx.close('default', F.v_lift_valve_Crane(rho), 45 * sqrt(1 / rho))


@harness('P14', funcs='K_branch_converging_Crane, K_run_converging_Crane, K_branch_diverging_Crane, K_run_diverging_Crane', bounds='branch/run diameter in [.1,1], flow fraction in [.01,.99], angle in [20,100] and the default', timeout=120)
def crane_tees(ctx):
    D, b, q, Q = ctx.real('D', 0.01, 2.), ctx.real('beta', 0.1, 1.0), ctx.real('q', 0.01, 0.99), ctx.real('Q', 1e-4, 10.)
    default = ctx.choice('angle', ['default', 'given']) == 'default'
    a = 90.0 if default else ctx.real('a', 20., 100.)
    m = ctx.choice('which', ['branch_converging', 'run_converging', 'branch_diverging', 'run_diverging'])
    got = getattr(F, 'K_%s_Crane' % m)(D_run=D, D_branch=b * D, Q_run=Q * (1 - q), Q_branch=Q * q, **({} if default else dict(angle=a)))
    b2 = b * b
    if m == 'branch_converging':
        C = 1.0 if b2 <= 0.35 else 0.55 if q > 0.4 else 0.9 * (1 - q)
        r = C * (1 + (q / b2)**2 - 2 * (1 - q)**2 - lin(a, [30., 45., 60., 90.], [1.74, 1.41, 1.0, 0.0]) / b2 * q**2)
    elif m == 'run_converging':
        r = 1.55 * q - q**2 if a >= 75 else 1 - (1 - q)**2 - lin(a, [30., 45., 60.], [1.74, 1.41, 1.0]) / b2 * q**2
    elif m == 'branch_diverging':
        H, J = (1.0, 2.0) if a < 60 or b <= 2 / 3 else (0.3, 0.0)
        if a < 75:
            G = (1.1 - 0.7 * q if q <= 0.4 else 0.85) if b2 <= 0.35 else 1 - 0.6 * q if q <= 0.6 else 0.6
        else:
            G = 1.0 if b2 <= 2 / 3 else 1 + 0.3 * q**2
        r = G * (1 + H * (q / b2)**2 - J * q / b2 * cos(radians(a)))
    else:
        r = (0.4 if b2 <= 0.4 else (2.0 if q <= 0.5 else 0.3) * (2 * q - 1)) * q**2
    ctx.close(m, got, r, rtol=1e-6, atol=1e-9)

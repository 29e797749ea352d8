"""P09: relief valve sizing per API 520/526 and flare noise."""
import json
import os
from math import log10, pi, sqrt

from symx.harness import harness
from symx.formula import same_formula
import fluids.safety_valve as S

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
ATM = 101325.0

META = dict(
    title='Relief valve sizing (API 520) and flare noise hold for every relieving state',
    statement='API520_A_g sizes gas relief by the critical-flow formula when the critical pressure ratio is reached and by the F2 formula below it; API520_A_steam by the Napier formula with KN and KSH; API520_A_l by the liquid formula with Kw from the backpressure and Kv given, computed from the viscosity (from the Reynolds number of the area without viscosity correction) or 1. '
              'C, F2, KN, Kv (both editions, the 7th capped at 1), KSH (2-D linear interpolation in both editions\' tables, 1 below their lowest temperature), Kb and Kw (1 up to their threshold, then linear in the published curve) equal the standard in every regime, and out-of-range superheat, pressure, backpressure, overpressure or edition raises ValueError. '
              'API520_round_size returns the smallest API 526 orifice large enough and raises above the largest. The API 521 and VDI 3732 noise levels equal their formulas, and the API 521 curve is continuous across its join.',
    over=['inputs', 'configurations'],
    text='all relieving pressures, temperatures, flows and factors, both editions',
    why='tests replay the standard\'s examples; interpolation intervals and regime boundaries are not covered',
    files=['fluids/safety_valve.py', 'fluids/compressible.py', 'fluids/numerics/__init__.py'],
    mech=['API520_A_g, API520_C, API520_F2, is_critical_flow', 'API520_A_steam, API520_N, API520_SH, bisplev', 'API520_A_l, API520_Kv, API520_W', 'API520_B, interp', 'API520_round_size, API526_A', 'API521_noise(_graph), VDI_3732_*'],
)


@harness('P09', funcs='API520_round_size, API526_A', bounds='area in [0, 0.02] m^2')
def round_size(ctx):
    A = [a * 0.0254**2 for a in TAB['api526']]
    x = ctx.real('A', 0.0, 0.02)
    r, e = ctx.attempt(S.API520_round_size, x)
    if e is not None:
        ctx.same('raises ValueError', e, 'ValueError')
        ctx.lt('only above the largest orifice', A[-1], x + 1e-12)
        return
    i = [k for k, a in enumerate(A) if abs(a - r) < 1e-10]
    ctx.same('an API 526 orifice', len(i), 1)
    ctx.le('large enough', x, A[i[0]], tol=1e-12)
    if i[0]:
        ctx.lt('next smaller is too small', A[i[0] - 1], x + 1e-12)


def C_ref(k):
    return 0.03948 * (k * (2 / (k + 1))**((k + 1) / (k - 1)))**0.5


def F2_ref(k, r):
    return (k / (k - 1) * r**(2 / k) * (1 - r**((k - 1) / k)) / (1 - r))**0.5


same_formula('P09', S.API520_C, C_ref, dict(k=(1.001, 2.0)))
same_formula('P09', lambda: S.API520_C(1), lambda: 0.03948 * 2.718281828459045**-0.5, {}, name='API520_C_k1', funcs='API520_C')
same_formula('P09', lambda k, P1, r: S.API520_F2(k, P1, r * P1), lambda k, P1, r: F2_ref(k, r), dict(k=(1.001, 2.0), P1=(1e4, 1e8), r=(.01, .999)), name='API520_F2', funcs='API520_F2')


def KN(P1):
    p = P1 / 1000
    return 1.0 if p <= 10339. else (0.02764 * p - 1000) / (0.03324 * p - 1061)


same_formula('P09', S.API520_N, KN, dict(P1=(1e4, 2.2e7)))


def Kv_ref(Re, edition='10E'):
    if edition == '7E':
        f = 1 / (0.9935 + 2.878 / Re**0.5 + 342.75 / Re**1.5)
        return 1.0 if f > 1 else f
    return (1 + 170 / Re)**-0.5


same_formula('P09', S.API520_Kv, Kv_ref, dict(Re=(1., 1e9)), choices=dict(edition=['7E', '10E']))
same_formula('P09', S.API520_Kv, lambda Re: Kv_ref(Re), dict(Re=(1., 1e9)), name='Kv_default')


def lin(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def KSH(T, P, edition='10E'):
    if edition == '7E':
        Ts, Ps, tab = TAB['KSH7']
        hi, Tlo = 20780325.0, 422.15
    else:
        Ts, Ps, tab = TAB['KSH10']
        hi, Tlo = 22063223.338138755, 478.15
    if T > 922.15:
        raise ValueError
    if T < Tlo:
        if edition == '7E' and P > hi:
            raise ValueError
        return 1.0
    if P > hi:
        raise ValueError
    # rows bracketing P, then linear in T within each
    if P <= Ps[0]:
        return lin(T, Ts, tab[0])
    for j in range(len(Ps) - 1):
        if P <= Ps[j + 1]:
            w = (P - Ps[j]) / (Ps[j + 1] - Ps[j])
            return (1 - w) * lin(T, Ts, tab[j]) + w * lin(T, Ts, tab[j + 1])
    return lin(T, Ts, tab[-1])


for _ed, _n in (('7E', 9), ('10E', 17)):
    for _i in range(_n):
        _Ts = TAB['KSH' + _ed[:-1]][0]

        def _h(ctx, ed=_ed, lo=_Ts[_i], hi=_Ts[_i + 1], first=_i == 0, last=_i == _n - 1):
            T = ctx.real('T', lo - (5.0 if first else 0.0), hi + (30.0 if last else 0.0))
            P = ctx.real('P', 1e5, 2.3e7)
            a, ea = ctx.attempt(S.API520_SH, T, P, ed)
            r, er = ctx.attempt(KSH, T, P, ed)
            ctx.same('raises where the table ends', ea, er)
            if ea is None:
                ctx.close('bilinear in the table', a, r, rtol=1e-7)
        harness('P09', 'KSH[%s,T %d]' % (_ed, _i), timeout=100, light=True, funcs='API520_SH, py_bisplev', bounds='one temperature interval of the table (all intervals are covered), P in [0.1, 23] MPa', max_paths=3000)(_h)


@harness('P09', funcs='API520_SH (edges)')
def KSH_edges(ctx):
    P = ctx.real('P', 1e5, 2e7)
    for ed in ('7E', '10E'):
        ctx.raises('superheat above 649 C, %s' % ed, S.API520_SH, 923.15, P, ed, exc=('ValueError',))
        ctx.close('below the table, %s' % ed, S.API520_SH(400.0, P, ed), 1.0)
    ctx.raises('unknown edition', S.API520_SH, 600.0, P, '11E', exc=('ValueError',))
    ctx.raises('unknown edition (Kv)', S.API520_Kv, P, '11E', exc=('ValueError',))
    ctx.raises('overpressure', S.API520_B, 1e6, 5e5, ctx.choice('op', [0.0, 0.12, 0.25, 1.0]), exc=('ValueError',))


def pct(Pset, Pback):
    return (Pback - ATM) / (Pset - ATM) * 100


def Kb_ref(Pset, Pback, overpressure=0.1):
    g = pct(Pset, Pback)
    lim = {0.1: 30., 0.16: 38., 0.21: 50.}[overpressure]
    if g < lim or (overpressure == 0.21 and g <= 50.):
        return 1.0
    if g > 50:
        raise ValueError
    n = '16' if overpressure == 0.16 else '10'
    return lin(g, TAB['Kb_%s_over_x' % n], TAB['Kb_%s_over_y' % n])


def bp(f, **kw):
    return lambda gauge, x: f(gauge + 101325.0, gauge * x + 101325.0, **kw)


for _op in (0.1, 0.16, 0.21):
    same_formula('P09', bp(S.API520_B, overpressure=_op), bp(Kb_ref, overpressure=_op), dict(gauge=(1e5, 1e8), x=(0.0, .6)), name='Kb[%g]' % _op, funcs='API520_B, interp', max_paths=5000)
same_formula('P09', bp(S.API520_B), bp(Kb_ref), dict(gauge=(1e5, 1e8), x=(0.0, .6)), name='Kb_default', funcs='API520_B, interp', max_paths=5000)


def Kw_ref(Pset, Pback):
    g = pct(Pset, Pback)
    return 1.0 if g < 15 else lin(g, TAB['Kw_x'], TAB['Kw_y'])


same_formula('P09', bp(S.API520_W), bp(Kw_ref), dict(gauge=(1e5, 1e8), x=(0.0, .6)), name='Kw', funcs='API520_W, interp', max_paths=5000)


def A_g(m, T, Z, MW, k, P1, P2, Kd=0.975, Kb=1, Kc=1):
    W, p1, p2 = m * 3600, P1 / 1000, P2 / 1000
    if p1 * (2 / (k + 1))**(k / (k - 1)) > p2:
        return 1e-6 * W / (C_ref(k) * Kd * p1 * Kb * Kc) * (T * Z / MW)**0.5
    return 1e-6 * 17.9 * W / (F2_ref(k, P2 / P1) * Kd * Kc) * (T * Z / (MW * p1 * (p1 - p2)))**0.5


G = dict(m=(1e-3, 1e3), T=(150., 1500.), Z=(.2, 1.5), MW=(2., 300.), k=(1.01, 1.8), P1=(1.5e5, 1e8), x=(.01, .99))
F = dict(Kd=(.5, 1.), Kb=(.3, 1.), Kc=(.5, 1.))
same_formula('P09', lambda x, P1, **k: S.API520_A_g(P1=P1, P2=x * P1, **k), lambda x, P1, **k: A_g(P1=P1, P2=x * P1, **k), dict(G, **F), name='API520_A_g', funcs='API520_A_g, API520_C, API520_F2, is_critical_flow, P_critical_flow')
same_formula('P09', lambda x, P1, **k: S.API520_A_g(P1=P1, P2=x * P1, **k), lambda x, P1, **k: A_g(P1=P1, P2=x * P1, **k), G, name='A_g_default_factors', funcs='API520_A_g')
same_formula('P09', lambda P1, **k: S.API520_A_g(P1=P1, **k), lambda P1, **k: A_g(P1=P1, P2=ATM, **k), dict({k: v for k, v in G.items() if k not in 'x'}, P1=(1.1e5, 1e7)), name='A_g_default_P2', funcs='API520_A_g', domain='assume')


def A_steam(m, T, P1, Kd=0.975, Kb=1, Kc=1, edition='10E'):
    return 190.5e-6 * m * 3600 / (P1 / 1000 * Kd * Kb * Kc * KN(P1) * S.API520_SH(T, P1, edition))


for _ed, _lo in (('10E', 478.), ('7E', 422.)):
    same_formula('P09', lambda ed=_ed, **k: S.API520_A_steam(edition=ed, **k), lambda ed=_ed, **k: A_steam(edition=ed, **k), dict(m=(1e-3, 1e3), T=(_lo - 20, _lo + 8), P1=(1e5, 2.05e7), **F), name='API520_A_steam[%s]' % _ed, light=True, funcs='API520_A_steam', max_paths=4000, timeout=100,
                 note='KSH itself is decided by the KSH harnesses')
same_formula('P09', S.API520_A_steam, A_steam, dict(m=(1e-3, 1e3), T=(400., 478.), P1=(1e5, 2.05e7)), name='A_steam_default', funcs='API520_A_steam', max_paths=4000)
same_formula('P09', lambda **k: S.API520_A_steam(**k), A_steam, dict(m=(1e-3, 1e3), T=(500., 520.), P1=(3e6, 3.2e6)), name='A_steam_default_superheated', funcs='API520_A_steam', max_paths=4000)


def A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0, Kw=None, Kv=None, edition='10E', mu=None):
    G1, Q = rho / 999.0107539518483, m / rho * 60000
    if Kw is None:
        Kw = S.API520_W((P1 - ATM) / (1 + overpressure) + ATM, P2)
    A = lambda kv: 11.78 * Q / (Kd * Kw * Kc * kv) * (G1 / ((P1 - P2) / 1000))**0.5 * 1e-6
    if Kv is None:
        Kv = 1.0
        if mu is not None:
            A0 = A(1.0)
            D = (4 * A0 / pi)**0.5
            Kv = Kv_ref(m / A0 * D / mu, edition)
    return A(Kv)


L = dict(m=(1e-2, 1e3), rho=(300., 2e3), P1=(3e5, 1e8), x=(.001, .3), overpressure=(0.03, .3))


def back(f):
    return lambda P1, x, **k: f(P1=P1, P2=101325.0 + x * (P1 - 101325.0), **k)


same_formula('P09', back(S.API520_A_l), back(A_l), dict(L, Kd=(.4, 1.), Kc=(.5, 1.), Kw=(.3, 1.), Kv=(.1, 1.)), name='A_l[all factors]', funcs='API520_A_l')
same_formula('P09', back(S.API520_A_l), back(A_l), dict(L, Kd=(.4, 1.), Kc=(.5, 1.), Kw=(.3, 1.), mu=(1e-5, 10.)), choices=dict(edition=['7E', '10E']), name='A_l[viscosity]', funcs='API520_A_l, API520_Kv', domain='assume')
same_formula('P09', back(S.API520_A_l), back(A_l), dict(L, Kw=(.3, 1.), mu=(1e-5, 10.)), name='A_l[viscosity, defaults]', funcs='API520_A_l, API520_Kv', domain='assume')
same_formula('P09', back(S.API520_A_l), back(A_l), dict(L, mu=(1e-5, 10.), x=(.0, .1)), name='A_l[viscosity, Kw 1]', funcs='API520_A_l, API520_Kv', domain='assume')
same_formula('P09', back(S.API520_A_l), back(A_l), dict(L, Kw=(.3, 1.), Kv=(.1, 1.), mu=(1e-5, 10.)), name='A_l[Kv before mu]', funcs='API520_A_l')
same_formula('P09', back(S.API520_A_l), back(A_l), dict(L, Kv=(.1, 1.)), name='A_l[Kw from backpressure]', funcs='API520_A_l, API520_W', max_paths=4000)
same_formula('P09', back(S.API520_A_l), back(A_l), dict(L, Kw=(.3, 1.)), name='A_l[no viscosity correction]', funcs='API520_A_l')


def graph(P_ratio):
    r = P_ratio
    if r < 1:
        r = 1.0
    a, b = 87.9084 * log10(r) + 12.7647, 4.8239 * log10(r) + 51.6217
    if r < 2.92:
        return a
    if r < 2.93:
        return a + (b - a) * (r - 2.92) / (2.93 - 2.92)
    return b


same_formula('P09', S.API521_noise_graph, graph, dict(P_ratio=(.2, 500.)))
same_formula('P09', lambda m, P2, R, c, r: S.API521_noise(m, R * P2, P2, c, r), lambda m, P2, R, c, r: graph(R) + 10 * log10(0.5 * m * c**2) - 20 * log10(r / 30), dict(m=(1e-3, 1e3), P2=(5e4, 2e5), R=(.5, 500.), c=(100., 2e3), r=(1., 1e4)), name='API521_noise', funcs='API521_noise, API521_noise_graph')
same_formula('P09', S.VDI_3732_noise_ground_flare, lambda m: 100 + 15 * log10(360 * m), dict(m=(1e-3, 1e3)))
same_formula('P09', S.VDI_3732_noise_elevated_flare, lambda m: 112 + 17 * log10(360 * m), dict(m=(1e-3, 1e3)))


@harness('P09', funcs='API521_noise_graph (continuity)')
def graph_continuous(ctx):
    """across each join the curve moves no more than its steepest slope allows"""
    a = ctx.choice('join', [1.0, 2.92, 2.93])
    e = ctx.real('e', 0.0, 1e-4)
    lo, hi = S.API521_noise_graph(a - e), S.API521_noise_graph(a + e)
    ctx.le('no jump', abs(hi - lo), 0.05)

"""P19: packed towers, demisters and separators."""
import json
import os
from math import exp, log, pi, sqrt

from symx.harness import harness
from symx.formula import cmp, same_formula, spline
from symx.swap import Swap
import fluids.packed_tower as F
import fluids.separator as S

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
G0 = 9.80665

META = dict(
    title='Packed towers, demisters and separators follow their documented models',
    statement='Stichlmair_dry, Robbins, both Setekleiv-Svendsen demister pressure drops, the El-Dessouky wet pressure drop and droplet separation (never above 1), voidage_experimental and specific_area_mesh equal their documented formulas for every input, and column pressure drops are proportional to the height H (1 m by default). '
              'Stichlmair_wet returns a pressure drop that satisfies the documented implicit equation, at least the dry one, and Stichlmair_flood a gas velocity at which the wet pressure drop equation and the flooding condition (its slope with gas flow is infinite) both hold. '
              'K_separator_Watkins equals its spline, Branan or Blackwell fit of the flow factor for every quality and density, K_separator_demister_York its fit in each pressure range (15, 40 psia, held below 1 and above 5500 psia), both times 1.25 when horizontal, an unknown method raises ValueError; v_Souders_Brown and K_Souders_Brown_theoretical together give the terminal velocity of the drop.',
    over=['inputs', 'configurations'],
    text='gas and liquid velocities 1e-4 to 10 m/s, densities 0.05 to 2000, viscosities 1e-6 to 1, voidage 0.3 to 0.99, areas 10 to 2000 1/m, H 0.1 to 50 m, pressures 100 Pa to 100 MPa, quality 0.001 to 0.999',
    why='tests sample one point of each function and of no pressure limit; the roots of the implicit models must satisfy their equations for every column',
    files=['fluids/packed_tower.py', 'fluids/separator.py'],
    mech=['Stichlmair_dry, Stichlmair_wet, Stichlmair_flood', 'Robbins', 'dP_demister_*, separation_demister_ElDessouky', 'K_separator_Watkins, K_separator_demister_York', 'v_Souders_Brown, K_Souders_Brown_theoretical'],
)

V, RHO, MU, EPS, A = (1e-3, 10.), (0.05, 2000.), (1e-6, 1.), (0.3, 0.99), (10., 2000.)
CS = dict(C1=(5., 100.), C2=(0.5, 20.), C3=(0.2, 10.))
DRY = dict(Vg=V, rhog=(0.05, 100.), mug=(5e-6, 1e-4), voidage=EPS, specific_area=A, **CS)


def dry(Vg, rhog, mug, voidage, specific_area, C1, C2, C3, H=1.0):
    dp = 6 * (1 - voidage) / specific_area
    Re = Vg * rhog * dp / mug
    return 0.75 * (C1 / Re + C2 / Re**0.5 + C3) * (1 - voidage) / voidage**4.65 * rhog * H / dp * Vg**2


def setekleiv(a, b, c, d, e):
    def ref(S, voidage, vs, rho, mu, L=1.0):
        x = S * L
        return (a - b / (69.6 * x - x**2 - 779) - c / (d - 4.85 * x) + e * (mu * voidage * S**2 * L / (rho * vs))**0.75) * rho * vs**2 / voidage**2
    return ref


def robbins(L, G, rhol, rhog, mul, H=1.0, Fpd=24.0):
    # lb/(h ft^2), lb/ft^3, cP; inH2O/ft to Pa/m
    L, G, rhol, rhog, mul = L * 737.33812, G * 737.33812, rhol * 0.062427961, rhog * 0.062427961, mul * 1000
    Lf = L * 62.4 / rhol * (Fpd / 20)**0.5 * mul**0.1
    Gf = G * (0.075 / rhog)**0.5 * (Fpd / 20)**0.5
    d = 7.4e-8 * Gf**2 * 10**(2.7e-5 * Lf)
    return (d + 0.4 * (Lf / 20000)**0.1 * d**4) * 817.22083 * H


def with_length(fn, ref, R, key, **opt):
    def h(ctx):
        v = {k: ctx.real(k, *q) for k, q in R.items()}
        x = ctx.real(key, 0.1, 50.)
        cmp(ctx, 'default length', fn(**v), ref(**v))
        cmp(ctx, 'documented formula', fn(**dict(v, **{key: x})), ref(**dict(v, **{key: x})))
    h.__name__ = fn.__name__
    harness('P19', h.__name__, timeout=60, funcs=fn.__name__, bounds=', '.join('%s in [%g, %g]' % (k, *q) for k, q in R.items()) + ', %s default or .1 .. 50' % key, **opt)(h)


with_length(F.Stichlmair_dry, dry, DRY, 'H')
with_length(F.dP_demister_dry_Setekleiv_Svendsen, setekleiv(10.29, 565., 74.9, 160.9, 45.33), dict(S=A, voidage=EPS, vs=V, rho=RHO, mu=MU), 'L', domain='assume')
with_length(F.dP_demister_dry_Setekleiv_Svendsen_lit, setekleiv(7.3, 320., 52.4, 161., 27.2), dict(S=A, voidage=EPS, vs=V, rho=RHO, mu=MU), 'L', domain='assume')
# the article's correlation: mesh density in kg/m^3 (7999 for the wire), wire diameter in mm
with_length(F.dP_demister_wet_ElDessouky, lambda vs, voidage, d_wire, L=1.0: 3.88178 * (7999 * (1 - voidage))**0.375798 * vs**0.81317 * (1000 * d_wire)**-1.56114147 * L, dict(vs=V, voidage=EPS, d_wire=(5e-5, 2e-3)), 'L')
same_formula('P19', F.separation_demister_ElDessouky, lambda vs, voidage, d_wire, d_drop: min(1.0, 0.175047 * (1000 * d_wire)**-0.28264 * (7999 * (1 - voidage))**0.099625 * vs**0.106878 * (1000 * d_drop)**0.383197),
             dict(vs=V, voidage=EPS, d_wire=(5e-5, 2e-3), d_drop=(1e-5, 1e-2)), rtol=1e-5)
same_formula('P19', F.voidage_experimental, lambda m, rho, D, H: 1 - m / (pi / 4 * D**2 * H * rho), dict(m=(0.01, 1e4), rho=(100., 10000.), D=(0.05, 10.), H=(0.05, 50.)))
same_formula('P19', F.specific_area_mesh, lambda voidage, d: 4 * (1 - voidage) / d, dict(voidage=EPS, d=(5e-5, 2e-3)))
with_length(F.Robbins, robbins, dict(L=(0.01, 50.), G=(0.01, 10.), rhol=(300., 2000.), rhog=(0.05, 100.), mul=(5e-5, 0.1)), 'H')


@harness('P19', funcs='Robbins', bounds='packing factor 1 to 1000')
def Robbins_packing(ctx):
    v = {k: ctx.real(k, *q) for k, q in dict(L=(0.01, 50.), G=(0.01, 10.), rhol=(300., 2000.), rhog=(0.05, 100.), mul=(5e-5, 0.1), H=(0.1, 50.), Fpd=(1., 1000.)).items()}
    cmp(ctx, 'documented formula', F.Robbins(**v), robbins(**v))


COL = dict(Vg=V, rhog=(0.05, 100.), voidage=EPS, specific_area=A, Vl=(1e-5, 0.05), rhol=(300., 2000.), **CS)


def column(ctx):
    """a column, its gas Reynolds number and the terms of the documented model: (inputs, Re, f0, c, h0, dry pressure gradient)"""
    v = {k: ctx.real(k, *q) for k, q in COL.items()}
    s = ctx.real('sqrt Re', 1., 100.)
    e, dp, Re = v['voidage'], 6 * (1 - v['voidage']) / v['specific_area'], s * s
    v['mug'] = v['Vg'] * v['rhog'] * dp / Re
    f0 = v['C1'] / Re + v['C2'] / s + v['C3']
    c = (-v['C1'] / Re - v['C2'] / (2 * s)) / f0
    h0 = 0.555 * (v['Vl']**2 * v['specific_area'] / (G0 * e**4.65))**(1 / 3.)
    return v, c, h0, 0.75 * f0 * (1 - e) / e**4.65 * v['rhog'] / dp * v['Vg']**2


@harness('P19', timeout=60, stub=True, domain='assume', funcs='Stichlmair_wet; secant replaced by its contract: it returns a root', bounds='every column with Re 1 .. 10^4 and every root with a holdup below the voidage; H default or .1 .. 50')
def wet(ctx):
    v, c, h0, d = column(ctx)
    w, e, H = dict(v), v['voidage'], 1.0
    if ctx.choice('H given', [True, False]):
        H = w['H'] = ctx.real('H', 0.1, 50.)
    hT = lambda dP: h0 * (1 + 20 * (dP / (H * v['rhol'] * G0))**2)
    real = F.secant

    def solver(f, x0, args=(), **kw):
        def below_flooding(dP, *args):
            ctx.assume(dP > 0)
            ctx.assume(hT(dP) < e)
            return f(dP, *args)
        return real(below_flooding, x0, args=args, **kw)
    F.secant = solver
    try:
        dP = F.Stichlmair_wet(**w)
    finally:
        F.secant = real
    h = hT(dP)
    ctx.close('documented equation', d * ((1 - e + h) / (1 - e))**((2 + c) / 3) * (e / (e - h))**4.65, dP / H)


@harness('P19', timeout=60, domain='assume', funcs='Stichlmair_flood, _Stichlmair_flood_f_and_jac; newton_system replaced by its contract: both functions vanish at the point it returns', bounds='every column with Re 1 .. 10^4, every point with a holdup below the voidage; H default or .1 .. 50')
def flood(ctx):
    v, c, h0, d = column(ctx)
    e, H = v['voidage'], 1.0
    w = {k: q for k, q in v.items() if k != 'Vg'}
    if ctx.choice('H given', [True, False]):
        H = w['H'] = ctx.real('H', 0.1, 50.)
    y = ctx.real('dP/(rhol g H)', 1e-3, 1.)
    dP = y * H * v['rhol'] * G0
    hT = h0 * (1 + 20 * y**2)
    ctx.assume(hT < e)
    seen = []

    def solver(f, x0, jac=None, args=(), **kw):
        r = f([v['Vg'], dP], *args)
        seen.append(r[0] if jac is True else r)
        return [v['Vg'], dP], 1
    real = F.newton_system
    F.newton_system = solver
    try:
        out = F.Stichlmair_flood(**w)
    finally:
        F.newton_system = real
    if seen:
        ctx.close('returns the velocity', out, v['Vg'])
        f1, f2 = seen[0]
        ctx.close('wet pressure drop equation', f1 + dP / H, d * ((1 - e + hT) / (1 - e))**((2 + c) / 3) * (e / (e - hT))**4.65)
        ctx.close('flooding condition', f2 + 186 * h0 / (e - hT) + 40 * (2 + c) / 3 * h0 / (1 - e + hT), 1 / y**2)


# -------------------------------------------------------------- separators
@harness('P19', timeout=60, funcs='K_separator_Watkins', bounds='x .001 .. .999; flow factor .001 .. 20; each method, default and unknown, vertical and horizontal')
def Watkins(ctx):
    x, rl, f = ctx.real('x', 0.001, 0.999), ctx.real('rhol', 300., 1500.), ctx.real('factor', 0.001, 20.)
    rg = rl * (f * x / (1 - x))**2
    hor = ctx.choice('horizontal', [None, True, False])
    meth = ctx.choice('method', [None, 'spline', 'branan', 'blackwell'])
    kw = {} if hor is None else dict(horizontal=hor)
    if meth:
        kw['method'] = meth
    X = log(f)
    if meth == 'branan':
        K = exp(-1.942936 - 0.814894 * X - 0.17939 * X**2 - 0.012379 * X**3 + 0.000386235 * X**4 + 0.00025955 * X**5)
    elif meth == 'blackwell':
        K = exp(-1.877478097 - 0.81145804597 * X - 0.1870744085 * X**2 - 0.0145228667 * X**3 - 0.00101148518 * X**4)
    else:
        K = exp(spline(X, *TAB['splines1']['tck_Watkins']))
    ctx.close('K', S.K_separator_Watkins(x, rl, rg, **kw), K * 0.3048 * (1.25 if hor else 1), rtol=1e-6)
    ctx.raises('unknown method', S.K_separator_Watkins, x, rl, rg, method='BADMETHOD', exc='ValueError')


@harness('P19', funcs='K_separator_demister_York', bounds='P in 0.015 .. 15000 psia')
def York(ctx):
    p = ctx.real('P psia', 0.015, 15000.)
    hor = ctx.choice('horizontal', [None, True, False])
    kw = {} if hor is None else dict(horizontal=hor)
    ctx.assume(abs(p - 15) > 1e-6)
    ctx.assume(abs(p - 40) > 1e-6)
    if p < 15:
        q = max(p, 1.0)
        K = 0.1821 + 0.0029 * q + 0.046 * log(q)
    else:
        K = 0.35 if p < 40 else 0.43 - 0.023 * log(min(p, 5500.0))
    ctx.close('K', S.K_separator_demister_York(p * 6894.757293168361, **kw), K * 0.3048 * (1.25 if hor else 1))


@harness('P19', funcs='v_Souders_Brown, K_Souders_Brown_theoretical and the old names', bounds='D 1e-6 .. .1, Cd .01 .. 1e5; g default or 1 .. 20')
def Souders_Brown(ctx):
    K, rl, rg, D, Cd = ctx.real('K', 0.001, 10.), ctx.real('rhol', 300., 1500.), ctx.real('rhog', 0.05, 200.), ctx.real('D', 1e-6, 0.1), ctx.real('Cd', 0.01, 1e5)
    kw = dict(g=ctx.real('g', 1., 20.)) if ctx.choice('g given', [True, False]) else {}
    g = kw.get('g', G0)
    v = S.v_Souders_Brown(K, rl, rg)
    ctx.close('velocity', v, K * sqrt((rl - rg) / rg))
    k = S.K_Souders_Brown_theoretical(D=D, Cd=Cd, **kw)
    ctx.close('factor', k, sqrt(4 * g * D / (3 * Cd)))
    ctx.close('terminal velocity', S.v_Souders_Brown(k, rl, rg)**2 * Cd * rg * pi * D**2 / 8, (rl - rg) * g * pi * D**3 / 6)
    ctx.close('old name', S.v_Sounders_Brown(K, rl, rg), v)
    ctx.close('old name K', S.K_Sounders_Brown_theoretical(D=D, Cd=Cd, **kw), k)

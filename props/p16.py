"""P16: void fraction, Lockhart-Martinelli parameter and two-phase viscosity."""
from math import cos, exp, log, pi, sin, sqrt

from symx.harness import harness
from symx.formula import cmp, same_formula
from symx.swap import Swap
import fluids.two_phase_voidage as F

META = dict(
    title='Void fraction and two-phase viscosity follow their documented models',
    statement='Each of the 29 void fraction correlations of fluids.two_phase_voidage equals its documented formula for all qualities, properties, flows and diameters and on both sides of every regime limit (Kawahara 75 and 250 um, Tandon-Varma-Gupta Re 1125, Domanski-Didion Xtt 10, Graham Ft 0.01032, Kopte-Newell-Chato Ft 0.044), and so do the Lockhart-Martinelli Xtt parameter and the six two-phase viscosities. '
              'The slip models lie in 0..1 and rise with quality, the homogeneous void fraction is exactly 0 and 1 at x = 0 and 1 and equals the volumetric gas flow fraction, and every two-phase viscosity is exactly mul and mug at the limits. two_phase_voidage_experimental inverts density_two_phase. '
              'liquid_gas_voidage and gas_liquid_viscosity use the default or the named method, pass it every input, raise TypeError for a missing input and ValueError for an unknown method; the methods functions list exactly what the inputs allow.',
    over=['inputs', 'configurations'],
    text='x 0.001 to 0.999 (and 0, 1 where defined), rhol 300 to 1500, rhog 0.5 to 100, viscosities 5e-6 to 1e-2, D 10 um to 1 m, m 1e-6 to 50 kg/s, angle -80 to 90',
    why='35 correlations and two dispatchers over eleven optional inputs; tests sample one point of each',
    files=['fluids/two_phase_voidage.py'],
    mech=['Thom .. Woldesemayat_Ghajar', 'Lockhart_Martinelli_Xtt', 'liquid_gas_voidage, liquid_gas_voidage_methods', 'gas_liquid_viscosity, gas_liquid_viscosity_methods', 'density_two_phase, two_phase_voidage_experimental'],
)

G0 = 9.80665
R = dict(x=(0.001, 0.999), rhol=(300., 1500.), rhog=(0.5, 100.), mul=(5e-5, 1e-2), mug=(5e-6, 4e-5), sigma=(0.005, 0.08), D=(1e-5, 1.), m=(1e-6, 50.), P=(1e4, 5e6), Pc=(1e6, 3e7), angle=(-80., 90.), g=(1., 20.))


def slip(c, p=1.0, q=1.0, r=0.0):
    return lambda x, rhol, rhog, mul=1.0, mug=1.0: 1 / (1 + c * ((1 - x) / x)**p * (rhog / rhol)**q * (mul / mug)**r)


def hom(x, rhol, rhog):
    return 1 / (1 + (1 - x) / x * rhog / rhol)


def smith(x, rhol, rhog):
    k, q = 0.4, (1 - x) / x
    return 1 / (1 + q * rhog / rhol * (k + (1 - k) * sqrt((rhol / rhog + k * q) / (1 + k * q))))


def chisholm(x, rhol, rhog):
    return 1 / (1 + (1 - x) / x * rhog / rhol * sqrt(1 - x * (1 - rhol / rhog)))


def chisholm_armand(x, rhol, rhog):
    a = hom(x, rhol, rhog)
    return a / (a + sqrt(1 - a))


def nishino(x, rhol, rhog):
    return 1 - sqrt((1 - x) / x * rhog / rhol) * sqrt(hom(x, rhol, rhog))


def flux(m, D):
    return m / (pi / 4 * D**2)


def guzhov(x, rhol, rhog, m, D):
    Fr = flux(m, D)**2 / (G0 * D) * ((1 - x) / rhol + x / rhog)**2
    return 0.81 * (1 - exp(-2.2 * sqrt(Fr))) * hom(x, rhol, rhog)


def kawahara(x, rhol, rhog, D):
    a = hom(x, rhol, rhog)
    if D > 250e-6:
        return 0.833 * a
    c, d = (0.03, 0.97) if D > 75e-6 else (0.02, 0.98)
    return c * sqrt(a) / (1 - d * sqrt(a))


def xtt(x, rhol, rhog, mul, mug):
    return ((1 - x) / x)**0.9 * (rhog / rhol)**0.5 * (mul / mug)**0.1


def tandon(x, rhol, rhog, mul, mug, m, D):
    X = xtt(x, rhol, rhog, mul, mug)
    Re = flux(m, D) * D / mul
    f = 0.15 * (1 / X + 2.85 * X**-0.476)
    if Re < 1125:
        return 1 - 1.928 * Re**-0.315 / f + 0.9293 * Re**-0.63 / f**2
    return 1 - 0.38 * Re**-0.088 / f + 0.0361 * Re**-0.176 / f**2


def harms(x, rhol, rhog, mul, mug, m, D):
    X, Re = xtt(x, rhol, rhog, mul, mug), flux(m, D) * (1 - x) * D / mul
    return (1 - 10.06 * Re**-0.875 * (1.74 + 0.104 * Re**0.5)**2 * (1.376 + 7.242 / X**1.655)**-0.5)**2


def domanski(**k):
    X = xtt(**k)
    return (1 + X**0.8)**-0.378 if X < 10 else 0.823 - 0.157 * log(X)


def froude_rate(x, rhog, m, D, g):
    return sqrt(flux(m, D)**2 * x**3 / ((1 - x) * rhog**2 * g * D))


def graham(x, rhol, rhog, mul, mug, m, D, g=G0):
    Ft = froude_rate(x, rhog, m, D, g)
    return 0.0 if Ft < 0.01032 else 1 - exp(-1 - 0.3 * log(Ft) - 0.0328 * log(Ft)**2)


def yashar(x, rhol, rhog, mul, mug, m, D, g=G0):
    return (1 + 1 / froude_rate(x, rhog, m, D, g) + xtt(x, rhol, rhog, mul, mug))**-0.321


def huq(x, rhol, rhog):
    return 1 - 2 * (1 - x)**2 / (1 - 2 * x + sqrt(1 + 4 * x * (1 - x) * (rhol / rhog - 1)))


def kopte(x, rhol, rhog, m, D, g=G0):
    Ft = froude_rate(x, rhog, m, D, g)
    return hom(x, rhol, rhog) if Ft < 0.044 else 1.045 - exp(-1 - 0.342 * log(Ft) - 0.0268 * log(Ft)**2 + 0.00597 * log(Ft)**3)


def drift(x, rhol, rhog, C0, vgm, G):
    return x / rhog / (C0 * (x / rhog + (1 - x) / rhol) + vgm / G)


def vr(x, rhol, rhog, sigma, g):
    return 1.18 * (1 - x) / rhol**0.5 * (g * sigma * (rhol - rhog))**0.25


def steiner(x, rhol, rhog, sigma, m, D, g=G0):
    return drift(x, rhol, rhog, 1 + 0.12 * (1 - x), vr(x, rhol, rhog, sigma, g), flux(m, D))


def rouhani1(x, rhol, rhog, sigma, m, D, g=G0):
    return drift(x, rhol, rhog, 1 + 0.2 * (1 - x), vr(x, rhol, rhog, sigma, g), flux(m, D))


def rouhani2(x, rhol, rhog, sigma, m, D, g=G0):
    return drift(x, rhol, rhog, 1 + 0.2 * (1 - x) * (g * D)**0.25 * (rhol / flux(m, D))**0.5, vr(x, rhol, rhog, sigma, g), flux(m, D))


def nicklin(x, rhol, rhog, m, D, g=G0):
    return drift(x, rhol, rhog, 1.2, 0.35 * sqrt(g * D), flux(m, D))


def gregory(x, rhol, rhog):
    return drift(x, rhol, rhog, 1.19, 0.0, 1.0)


def vs(x, rhol, rhog, m, D):
    return flux(m, D) * x / rhog, flux(m, D) * (1 - x) / rhol


def dix(x, rhol, rhog, sigma, m, D, g=G0):
    vg, vl = vs(x, rhol, rhog, m, D)
    C0 = vg / (vg + vl) * (1 + (vl / vg)**((rhog / rhol)**0.1))
    return drift(x, rhol, rhog, C0, 2.9 * (g * sigma * (rhol - rhog) / rhol**2)**0.25, flux(m, D))


def sun(x, rhol, rhog, sigma, m, D, P, Pc, g=G0):
    Pr = 0.5 if Pc is None else P / Pc
    return drift(x, rhol, rhog, 1 / (0.82 + 0.18 * Pr), 1.41 * (g * sigma * (rhol - rhog) / rhol**2)**0.25, flux(m, D))


def xu(x, rhol, rhog, m, D, g=G0):
    Fr = flux(m, D)**2 / (g * D * rhol**2)
    return 1 / (1 + (1 + 2 * Fr**-0.2 * hom(x, rhol, rhog)**3.5) * (1 - x) / x * rhog / rhol)


def wolde(x, rhol, rhog, sigma, m, D, P, angle=0, g=G0):
    vg, vl = vs(x, rhol, rhog, m, D)
    th = angle * pi / 180
    # the exponent is P_atm/P in the original paper and the code; the docstring has it upside down
    e = 1.0 if P is None else 101325. / P
    return vg / (vg * (1 + (vl / vg)**((rhog / rhol)**0.1)) + 2.9 * (g * D * sigma * (1 + cos(th)) * (rhol - rhog) / rhol**2)**0.25 * (1.22 + 1.22 * sin(th))**e)


S, V = ('x', 'rhol', 'rhog'), ('x', 'rhol', 'rhog', 'mul', 'mug')
MD, SD = ('m', 'D'), ('sigma', 'm', 'D', 'g')
M = {
    'Thom': (F.Thom, slip(1, 1, 0.89, 0.18), V), 'Zivi': (F.Zivi, slip(1, 1, 2 / 3.), S), 'Smith': (F.Smith, smith, S), 'Fauske': (F.Fauske, slip(1, 1, 0.5), S), 'Chisholm_voidage': (F.Chisholm_voidage, chisholm, S),
    'Turner Wallis': (F.Turner_Wallis, slip(1, 0.72, 0.4, 0.08), V), 'homogeneous': (F.homogeneous, hom, S), 'Chisholm Armand': (F.Chisholm_Armand, chisholm_armand, S), 'Armand': (F.Armand, lambda **k: 0.833 * hom(**k), S),
    'Nishino Yamazaki': (F.Nishino_Yamazaki, nishino, S), 'Guzhov': (F.Guzhov, guzhov, S + MD), 'Kawahara': (F.Kawahara, kawahara, S + ('D',)), 'Baroczy': (F.Baroczy, slip(1, 0.74, 0.65, 0.13), V),
    'Tandon Varma Gupta': (F.Tandon_Varma_Gupta, tandon, V + MD), 'Harms': (F.Harms, harms, V + MD), 'Domanski Didion': (F.Domanski_Didion, domanski, V), 'Graham': (F.Graham, graham, V + MD + ('g',)), 'Yashar': (F.Yashar, yashar, V + MD + ('g',)),
    'Huq_Loth': (F.Huq_Loth, huq, S), 'Kopte_Newell_Chato': (F.Kopte_Newell_Chato, kopte, S + MD + ('g',)), 'Steiner': (F.Steiner, steiner, S + SD), 'Rouhani 1': (F.Rouhani_1, rouhani1, S + SD), 'Rouhani 2': (F.Rouhani_2, rouhani2, S + SD),
    'Nicklin Wilkes Davidson': (F.Nicklin_Wilkes_Davidson, nicklin, S + MD + ('g',)), 'Gregory_Scott': (F.Gregory_Scott, gregory, S), 'Dix': (F.Dix, dix, S + SD), 'Sun Duffey Peng': (F.Sun_Duffey_Peng, sun, S + SD + ('P', 'Pc')),
    'Xu Fang voidage': (F.Xu_Fang_voidage, xu, S + MD + ('g',)), 'Woldesemayat Ghajar': (F.Woldesemayat_Ghajar, wolde, S + SD + ('P', 'angle')),
}
OPT = ('D', 'm', 'mul', 'mug', 'sigma', 'P', 'Pc')


def one(meth):
    fn, ref, names = M[meth]

    def h(ctx):
        v = {k: ctx.real(k, *R[k]) for k in names if k != 'g'}
        if 'g' in names and ctx.choice('g given', [True, False]):
            v['g'] = ctx.real('g', *R['g'])
        if meth == 'Sun Duffey Peng' and ctx.choice('Pc', [True, False]) is False:
            v['Pc'] = None
        if meth == 'Woldesemayat Ghajar' and ctx.choice('P', [True, False]) is False:
            v['P'] = None
            if ctx.choice('angle given', [True, False]) is False:
                del v['angle']
        cmp(ctx, 'follows its documented formula', fn(**v), ref(**v))
    h.__name__ = meth.replace(' ', '_')
    harness('P16', h.__name__, timeout=60, domain='assume' if meth in ('Huq_Loth',) else 'decide', funcs=fn.__name__, bounds=', '.join('%s in [%g, %g]' % (k, *R[k]) for k in names))(h)


for _m in M:
    one(_m)


@harness('P16', funcs='Lockhart_Martinelli_Xtt', bounds='powers 0 to 1, n 0 to 1 or None')
def Xtt(ctx):
    v = {k: ctx.real(k, *R[k]) for k in V}
    kind = ctx.choice('kind', ['default', 'powers', 'n'])
    a, b, c = 0.9, 0.5, 0.1
    if kind == 'default':
        X = F.Lockhart_Martinelli_Xtt(**v)
    elif kind == 'powers':
        a, b, c = ctx.real('pow_x', 0., 1.), ctx.real('pow_rho', 0., 1.), ctx.real('pow_mu', 0., 1.)
        X = F.Lockhart_Martinelli_Xtt(pow_x=a, pow_rho=b, pow_mu=c, **v)
    else:
        n = ctx.real('n', 0., 1.)
        b = ctx.real('pow_rho', 0., 1.)
        a, c = (2 - n) / 2, n / 2
        X = F.Lockhart_Martinelli_Xtt(n=n, pow_rho=b, pow_x=0.77, pow_mu=0.33, **v)
    ctx.close('Xtt', X, ((1 - v['x']) / v['x'])**a * (v['rhog'] / v['rhol'])**b * (v['mul'] / v['mug'])**c)


SLIP = ['Thom', 'Zivi', 'Smith', 'Fauske', 'Chisholm_voidage', 'Turner Wallis', 'homogeneous', 'Baroczy', 'Chisholm Armand', 'Armand']


@harness('P16', timeout=90, funcs='slip models of the void fraction', bounds='two qualities x < y in .001 .. .999')
def bounded_and_rising(ctx):
    meth = ctx.choice('Method', SLIP)
    fn, ref, names = M[meth]
    v = {k: ctx.real(k, *R[k]) for k in names}
    a = fn(**v)
    ctx.le('not negative', 0.0, a)
    ctx.le('at most one', a, 1.0)
    t = ctx.real('t', 0.001, 0.999)
    w = dict(v, x=v['x'] * t)
    ctx.le('rises with quality', fn(**w), a)


@harness('P16', funcs='homogeneous, density_two_phase, two_phase_voidage_experimental', bounds='all qualities including 0 and 1; voidage 0 to 1')
def homogeneous_limits(ctx):
    rl, rg, x = ctx.real('rhol', *R['rhol']), ctx.real('rhog', *R['rhog']), ctx.real('x', *R['x'])
    ctx.same('x = 0', F.homogeneous(0.0, rl, rg), 0.0)
    ctx.same('x = 1', F.homogeneous(1.0, rl, rg), 1.0)
    a = F.homogeneous(x, rl, rg)
    ctx.close('volumetric fraction', a, (x / rg) / (x / rg + (1 - x) / rl))
    ctx.close('homogeneous density', F.density_two_phase(a, rl, rg), 1 / (x / rg + (1 - x) / rl))
    al = ctx.real('alpha', 0., 1.)
    r = F.density_two_phase(al, rl, rg)
    ctx.close('density', r, al * rg + (1 - al) * rl)
    ctx.close('inverse', F.two_phase_voidage_experimental(r, rl, rg), al, atol=1e-9)


# -------------------------------------------------------------- viscosities
MU = ('x', 'mul', 'mug')
MUR = ('x', 'mul', 'mug', 'rhol', 'rhog')


def beattie(x, mul, mug, rhol, rhog):
    a = 0.0 if isinstance(x, float) and x == 0 else 1.0 if isinstance(x, float) and x == 1 else hom(x, rhol, rhog)
    return mul * (1 - a) * (1 + 2.5 * a) + mug * a


VISC = {
    'Beattie Whalley': (F.Beattie_Whalley, beattie, MUR),
    'Fourar Bories': (F.Fourar_Bories, lambda x, mul, mug, rhol, rhog: (sqrt(x * mug / rhog) + sqrt((1 - x) * mul / rhol))**2 / (x / rhog + (1 - x) / rhol), MUR),
    'Duckler': (F.Duckler, lambda x, mul, mug, rhol, rhog: (x * mug / rhog + (1 - x) * mul / rhol) / (x / rhog + (1 - x) / rhol), MUR),
    'McAdams': (F.McAdams, lambda x, mul, mug: 1 / (x / mug + (1 - x) / mul), MU),
    'Cicchitti': (F.Cicchitti, lambda x, mul, mug: x * mug + (1 - x) * mul, MU),
    'Lin Kwok': (F.Lin_Kwok, lambda x, mul, mug: mul * mug / (mug + x**1.4 * (mul - mug)), MU),
}


@harness('P16', timeout=60, funcs='the six viscosities, gas_liquid_viscosity, gas_liquid_viscosity_methods', bounds='x 0, 1 or .001 to .999; every method, the default and unknown ones; densities given or not')
def viscosity(ctx):
    meth = ctx.choice('Method', sorted(VISC))
    fn, ref, names = VISC[meth]
    at = ctx.choice('x', ['inside', 0.0, 1.0])
    v = {k: ctx.real(k, *R[k]) for k in MUR if k != 'x'}
    v['x'] = ctx.real('x', *R['x']) if at == 'inside' else at
    w = {k: v[k] for k in names}
    a = fn(**w)
    ctx.close('formula', a, ref(**w))
    if at != 'inside':
        ctx.close('limit', a, v['mul'] if at == 0.0 else v['mug'])
    elif meth not in ('Fourar Bories', 'Beattie Whalley') and ctx.decided(v['mul'] > v['mug']) is not None:
        lo, hi = (v['mug'], v['mul']) if v['mul'] > v['mug'] else (v['mul'], v['mug'])
        ctx.le('not below the smaller', lo * (1 - 1e-9), a)
        ctx.le('not above the larger', a, hi * (1 + 1e-9))
    ctx.close('by name', F.gas_liquid_viscosity(Method=meth, **v), a)
    ctx.close('by name, inputs needed', F.gas_liquid_viscosity(Method=meth, **w), a)
    for k in ('rhol', 'rhog'):
        less = dict(v)
        less[k] = None
        if k in names:
            ctx.raises('without ' + k, F.gas_liquid_viscosity, Method=meth, exc='TypeError', **less)
        ctx.same('methods without ' + k, sorted(F.gas_liquid_viscosity_methods(**{q: less[q] for q in ('rhol', 'rhog')})), ['Cicchitti', 'Lin Kwok', 'McAdams'])
    ctx.same('all methods', sorted(F.gas_liquid_viscosity_methods(rhol=v['rhol'], rhog=v['rhog'])), sorted(VISC))
    ctx.close('default', F.gas_liquid_viscosity(**v), F.McAdams(v['x'], v['mul'], v['mug']))
    ctx.raises('unknown', F.gas_liquid_viscosity, Method='BADMETHOD', exc='ValueError', **v)


# ------------------------------------------------------------------ dispatch
def fakes():
    scale = dict(x=1., rhol=1e-3, rhog=1e-2, mul=1e3, mug=1e5, sigma=20., P=1e-6, Pc=1e-7, m=0.02, angle=0.01, D=1., g=0.05)
    keys = sorted(scale)

    def mk(i, ks):
        def f(x, rhol, rhog, *a, **kw):
            assert not a, 'positional arguments'
            kw.update(x=x, rhol=rhol, rhog=rhog)
            r = 1.0 + i
            for k in ks:
                v = kw.pop(k, {'angle': 0, 'g': G0}.get(k))
                r = r + v * scale[k] * (0.37 + 0.11 * keys.index(k)) * (1 + 0.01 * i)
            assert not kw, 'unexpected arguments %s' % sorted(kw)
            return r
        return f
    return {v[0].__name__: mk(i, v[2]) for i, v in enumerate(M.values())}


def call(meth, v):
    return getattr(F, M[meth][0].__name__)(**{k: v[k] for k in M[meth][2] if k in v})


@harness('P16', timeout=60, funcs='liquid_gas_voidage', bounds='each of the 29 methods; correlations arbitrary functions; g and angle given or default')
def dispatch(ctx):
    v = {k: ctx.real(k, *R[k]) for k in R}
    meth = ctx.choice('Method', sorted(M))
    got, want = Swap(F, **fakes()).run(lambda: F.liquid_gas_voidage(Method=meth, **v), lambda: call(meth, v))
    ctx.close('the method asked for', got, want)
    few = {k: v[k] for k in M[meth][2] if k not in ('g', 'angle')}
    got, want = Swap(F, **fakes()).run(lambda: F.liquid_gas_voidage(Method=meth, **few), lambda: call(meth, few))
    ctx.close('only the inputs of the method, defaults elsewhere', got, want)
    for k in OPT:
        if k in M[meth][2]:
            ctx.raises('%s without %s' % (meth, k), F.liquid_gas_voidage, Method=meth, exc='TypeError', **dict(v, **{k: None}))
    ctx.raises('unknown method', F.liquid_gas_voidage, Method='BADMETHOD', exc='ValueError', **v)
    ctx.close('default', F.liquid_gas_voidage(**v), F.homogeneous(v['x'], v['rhol'], v['rhog']))


@harness('P16', timeout=60, funcs='liquid_gas_voidage_methods', bounds='each of the 128 combinations of optional inputs, angle given or None')
def methods(ctx):
    v = {k: 1.5 for k in R}
    for k in OPT + ('angle',):
        if not ctx.choice(k + ' given', [True, False]):
            v[k] = None
    ctx.same('methods', sorted(F.liquid_gas_voidage_methods(**v)), sorted(k for k, q in M.items() if all(v[n] is not None for n in q[2])))

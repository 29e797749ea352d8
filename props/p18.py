"""P18: packed bed pressure drop and voidage."""
from math import exp, pi, sqrt

from symx.harness import harness
from symx.formula import cmp, same_formula
from symx.swap import Swap
import fluids.packed_bed as F

META = dict(
    title='Packed bed pressure drop and voidage follow their documented correlations',
    statement='Each of the 14 packed bed pressure drop correlations of fluids.packed_bed equals its documented formula for all particle sizes, voidages, velocities, densities, viscosities and bed lengths, with and without a tube diameter (wall terms of Harrison-Brunner-Hecker, Montillet-Akkari-Comiti with its limits voidage 0.4 and Dt/dp 50, Guo-Sun), is proportional to L (1 m by default), and is positive. The Ergun pressure drop is the sum of its laminar and turbulent terms. '
              'dP_packed_bed uses Harrison-Brunner-Hecker when Dt is given and Erdim-Akgiray-Demir otherwise, or the named method, multiplies dp by the sphericity and passes every input on; an unknown method raises ValueError. dP_packed_bed_methods lists the 11 methods without a tube diameter, and all 14 with one, and nothing when an input is missing. '
              'The three Benyahia-Oneil voidages equal their formulas and fall as the tube widens.',
    over=['inputs', 'configurations'],
    text='dp 10 um to 0.1 m, voidage 0.2 to 0.9, vs 1e-5 to 10 m/s, rho 0.1 to 2000, mu 1e-6 to 1 Pa s, L 0.01 to 100 m, Dt/dp 1 to 1000, sphericity 0.1 to 1',
    why='14 correlations and a dispatcher over six to nine inputs; tests sample one or two points of each and no regime limit',
    files=['fluids/packed_bed.py'],
    mech=['Ergun .. Guo_Sun', 'dP_packed_bed, dP_packed_bed_methods', 'voidage_Benyahia_Oneil, voidage_Benyahia_Oneil_spherical, voidage_Benyahia_Oneil_cylindrical'],
)

R = dict(dp=(1e-5, 0.1), voidage=(0.2, 0.9), vs=(1e-5, 10.), rho=(0.1, 2000.), mu=(1e-6, 1.))


def fp(f):
    """dP = fp rho vs^2 L/dp with fp = f(Re/(1-eps)) (1-eps)^2/(eps^3 Re)"""
    def ref(dp, voidage, vs, rho, mu, L=1.0):
        Re = rho * vs * dp / mu
        return f(Re / (1 - voidage)) * (1 - voidage)**2 / (voidage**3 * Re) * rho * vs**2 * L / dp
    return ref


def ergun(dp, voidage, vs, rho, mu, L=1.0):
    return 150 * mu * (1 - voidage)**2 * vs * L / (voidage**3 * dp**2) + 1.75 * (1 - voidage) * rho * vs**2 * L / (voidage**3 * dp)


def hicks(dp, voidage, vs, rho, mu, L=1.0):
    return 6.8 * (1 - voidage)**1.2 / ((rho * vs * dp / mu)**0.2 * voidage**3) * rho * vs**2 * L / dp


def fv(f, dp, e, vs, rho, mu, L):
    return f(rho * vs * dp / (mu * (1 - e))) * mu * vs * L / dp**2 * (1 - e)**2 / e**3


def erdim(dp, voidage, vs, rho, mu, L=1.0):
    return fv(lambda Re: 160 + 2.81 * Re**0.904, dp, voidage, vs, rho, mu, L)


def guo(dp, voidage, vs, rho, mu, L=1.0, Dt=None):
    r = 3.5 if Dt is None else dp / Dt
    return fv(lambda Re: 180 + (9.5374 * r - 2.8054) * Re**0.97, dp, voidage, vs, rho, mu, L)


def fahien(dp, voidage, vs, rho, mu, L=1.0):
    e, Re = voidage, rho * vs * dp / (mu * (1 - voidage))
    q = exp(-e**2 * (1 - e) / 12.6 * Re)
    return (q * 136 / (1 - e)**0.38 / Re + (1 - q) * (1.87 * e**0.75 / (1 - e)**0.26 + 29 / ((1 - e)**1.45 * e**2) / Re)) * (1 - e) / e**3 * rho * vs**2 * L / dp


def idelchik(dp, voidage, vs, rho, mu, L=1.0):
    Re = 0.45 / sqrt(voidage) * rho * vs * dp / (mu * (1 - voidage))
    return 0.765 / voidage**4.2 * (30 / Re + 3 / Re**0.7 + 0.3) * L * rho * vs**2 / dp


def harrison(dp, voidage, vs, rho, mu, L=1.0, Dt=None):
    A = B = 1.0
    if Dt is not None:
        A = (1 + pi * dp / (6 * (1 - voidage) * Dt))**2
        B = 1 - pi**2 * dp / (24 * Dt) * (1 - 0.5 * dp / Dt)
    return fp(lambda Re: 119.8 * A + 4.63 * B * Re**(5 / 6.))(dp, voidage, vs, rho, mu, L)


def montillet(dp, voidage, vs, rho, mu, L=1.0, Dt=None):
    Re = rho * vs * dp / mu
    a = 0.061 if voidage < 0.4 else 0.05
    d = 2.2 if Dt is None or Dt / dp > 50 else (Dt / dp)**0.2
    return a * d * (1000 / Re + 60 / Re**0.5 + 12) * L * rho * vs**2 * (1 - voidage) / (dp * voidage**3)


M = {
    'Ergun': (F.Ergun, ergun, False), 'Tallmadge': (F.Tallmadge, fp(lambda Re: 150 + 4.2 * Re**(5 / 6.)), False), 'Kuo & Nydegger': (F.Kuo_Nydegger, fp(lambda Re: 276.23 + 5.05 * Re**0.87), False),
    'Jones & Krier': (F.Jones_Krier, fp(lambda Re: 150 + 3.89 * Re**0.87), False), 'Carman': (F.Carman, fp(lambda Re: 180 + 2.871 * Re**0.9), False), 'Hicks': (F.Hicks, hicks, False),
    # Brauer's coefficient is 3.1 in the article and the code; the docstring has KTA's 3
    'Brauer': (F.Brauer, fp(lambda Re: 160 + 3.1 * Re**0.9), False), 'KTA': (F.KTA, fp(lambda Re: 160 + 3.0 * Re**0.9), False), 'Fahien & Schriver': (F.Fahien_Schriver, fahien, False),
    'Idelchik': (F.Idelchik, idelchik, False), 'Erdim, Akgiray & Demir': (F.Erdim_Akgiray_Demir, erdim, False), 'Harrison, Brunner & Hecker': (F.Harrison_Brunner_Hecker, harrison, True),
    'Montillet, Akkari & Comiti': (F.Montillet_Akkari_Comiti, montillet, True), 'Guo, Sun, Zhang, Ding & Liu': (F.Guo_Sun, guo, True),
}


def one(meth):
    fn, ref, tube = M[meth]

    def h(ctx):
        v = {k: ctx.real(k, *R[k]) for k in R}
        if tube and ctx.choice('Dt given', [True, False]):
            r = ctx.real('Dt/dp', 1., 1000.)
            v['Dt'] = v['dp'] * r
            ctx.assume(abs(r - 50) > 1e-9)
        a = fn(**v)
        cmp(ctx, 'bed of 1 m', a, ref(**v))
        L = ctx.real('L', 0.01, 100.)
        b = fn(L=L, **v)
        cmp(ctx, 'documented formula', b, ref(L=L, **v))
        ctx.close('proportional to the length', b, a * L)
        if meth != 'Guo, Sun, Zhang, Ding & Liu':
            ctx.le('positive', 0.0, a)
    h.__name__ = fn.__name__
    harness('P18', h.__name__, timeout=60, funcs=fn.__name__, bounds='see the property; L default or .01 .. 100; Dt None or dp times 1 .. 1000 (not 50)')(h)


for _m in M:
    one(_m)


@harness('P18', funcs='Ergun', bounds='see the property')
def ergun_terms(ctx):
    v = {k: ctx.real(k, *R[k]) for k in R}
    t = ctx.real('t', 1., 100.)
    a = F.Ergun(**v)
    ctx.lt('rises with velocity', a, F.Ergun(**dict(v, vs=v['vs'] * (1 + t))))
    ctx.lt('falls with particle size', F.Ergun(**dict(v, dp=v['dp'] * (1 + t))), a)
    ctx.close('laminar and turbulent term', F.Ergun(**dict(v, vs=v['vs'] * t)), a * t + 1.75 * (1 - v['voidage']) * v['rho'] * v['vs']**2 / (v['voidage']**3 * v['dp']) * (t * t - t))


def fakes():
    scale = dict(dp=20., voidage=1., vs=0.1, rho=1e-3, mu=1., L=0.1, Dt=0.05)
    keys = sorted(scale)

    def mk(i, tube):
        def f(dp, voidage, vs, rho, mu, **kw):
            kw.update(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu)
            kw.setdefault('L', 1.0)
            r = 1.0 + i
            for k in keys:
                v = kw.pop(k, None)
                if k == 'Dt' and (v is None or not tube):
                    assert v is None
                    continue
                r = r + v * scale[k] * (0.37 + 0.11 * keys.index(k)) * (1 + 0.01 * i)
            assert not kw
            return r
        return f
    return {v[0].__name__: mk(i, v[2]) for i, v in enumerate(M.values())}


@harness('P18', timeout=60, funcs='dP_packed_bed', bounds='each method, the default and unknown ones; correlations arbitrary functions; L, Dt, sphericity given or not')
def dispatch(ctx):
    v = {k: ctx.real(k, *R[k]) for k in R}
    w = dict(v)
    if ctx.choice('L given', [True, False]):
        v['L'] = w['L'] = ctx.real('L', 0.01, 100.)
    if ctx.choice('Dt given', [True, False]):
        v['Dt'] = w['Dt'] = v['dp'] * ctx.real('Dt/dp', 1., 1000.)
    if ctx.choice('sphericity given', [True, False]):
        v['sphericity'] = ctx.real('sphericity', 0.1, 1.)
        w['dp'] = w['dp'] * v['sphericity']
    meth = ctx.choice('Method', [None] + sorted(M))
    use = meth or ('Harrison, Brunner & Hecker' if 'Dt' in w else 'Erdim, Akgiray & Demir')
    if not M[use][2]:
        w.pop('Dt', None)
    if meth:
        v['Method'] = meth
    got, want = Swap(F, **fakes()).run(lambda: F.dP_packed_bed(**v), lambda: getattr(F, M[use][0].__name__)(**w))
    ctx.close('the method asked for', got, want)
    v['Method'] = 'BADMETHOD'
    ctx.raises('unknown method', F.dP_packed_bed, exc='ValueError', **v)


@harness('P18', funcs='dP_packed_bed_methods', bounds='each combination of given and missing inputs')
def methods(ctx):
    v = {k: 1.5 if ctx.choice(k + ' given', [True, False]) else None for k in list(R) + ['Dt']}
    if not ctx.choice('L default', [True, False]):
        v['L'] = 1.5 if ctx.choice('L given', [True, False]) else None
    ok = all(v[k] is not None for k in v if k != 'Dt')
    ctx.same('methods', sorted(F.dP_packed_bed_methods(**v)), sorted(k for k, q in M.items() if v['Dt'] is not None or not q[2]) if ok else [])


E3 = dict(Dpe=(1e-4, 0.2), Dt=(1e-3, 10.), sphericity=(0.1, 1.))
same_formula('P18', F.voidage_Benyahia_Oneil, lambda Dpe, Dt, sphericity: 0.1504 + 0.2024 / sphericity + 1.0814 / (Dt / Dpe + 0.1226)**2, E3)
same_formula('P18', F.voidage_Benyahia_Oneil_cylindrical, lambda Dpe, Dt, sphericity: 0.373 + 1.703 / (Dt / Dpe + 0.611)**2, E3)
same_formula('P18', F.voidage_Benyahia_Oneil_spherical, lambda Dp, Dt: 0.39 + 1.74 / (Dt / Dp + 1.14)**2, dict(Dp=(1e-4, 0.2), Dt=(1e-3, 10.)))


@harness('P18', funcs='the three voidages', bounds='two tube diameters')
def voidage_falls(ctx):
    D, Dt, s, t = ctx.real('D', 1e-4, 0.2), ctx.real('Dt', 1e-3, 10.), ctx.real('sphericity', 0.1, 1.), ctx.real('t', 1., 100.)
    for n, f in (('any', lambda q: F.voidage_Benyahia_Oneil(D, q, s)), ('cylinder', lambda q: F.voidage_Benyahia_Oneil_cylindrical(D, q, s)), ('sphere', lambda q: F.voidage_Benyahia_Oneil_spherical(D, q))):
        ctx.le(n, f(Dt * t), f(Dt))

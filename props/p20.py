"""P20: saltation velocities for pneumatic conveying."""
from math import pi, sqrt

from symx.harness import harness
import fluids.saltation as F

G0 = 9.80665

META = dict(
    title='Saltation velocities satisfy their documented equations',
    statement='The gas velocity returned by Rizk, Matsumoto_1974, Matsumoto_1975, Matsumoto_1977, Schade and Weber_saltation satisfies the documented equations of its correlation (in the solids loading mu = mp/(pi/4 D^2 V rhog), the saltation Froude number Frs = V/sqrt(g D) and the particle Froude number Frp = Vterminal/sqrt(g dp)), and Geldart_Ling returns its documented expression, for every solids flow, particle and pipe; '
              'Matsumoto_1977 uses the fine-particle equation exactly when dp is at most 1.39 D (rhop/rhog)^-0.74, Weber_saltation the terminal velocity term up to 3 m/s, and Geldart_Ling the first equation up to Gs/D = 47000. '
              'Every saltation velocity rises with the solids flow (Geldart_Ling within each of its two equations).',
    over=['inputs'],
    text='mp 1e-4 to 1000 kg/s, dp 1e-5 to 0.02 m, D 0.01 to 2 m, rhop 100 to 20000, rhog 0.1 to 100 kg/m^3, Vterminal 0.01 to 50 m/s, mug 1e-6 to 1e-4 Pa s; the points where two equations meet are excluded',
    why='tests sample one or two points per function, solved forward from the code',
    files=['fluids/saltation.py'],
    mech=['Rizk', 'Matsumoto_1974, Matsumoto_1975, Matsumoto_1977', 'Schade', 'Weber_saltation', 'Geldart_Ling'],
)

BOX = dict(mp=(1e-4, 1000.), rhop=(100., 20000.), dp=(1e-5, 0.02), rhog=(0.1, 100.), D=(0.01, 2.), Vterminal=(0.01, 50.))
TXT = ', '.join('%s in [%g, %g]' % (k, *q) for k, q in BOX.items())


def rizk(v, mu, Frs, Frp):
    return Frs**(1100 * v['dp'] + 2.5) / 10**(1440 * v['dp'] + 1.96)


def mat77(v, mu, Frs, Frp):
    r = v['rhop'] / v['rhog']
    if v['dp'] < 1.39 * v['D'] * r**-0.74:
        return 5560 * (v['dp'] / v['D'])**1.43 * (Frs / 10)**4
    return 0.373 * r**1.06 * (Frp / 10)**-3.7 * (Frs / 10)**3.61


# the loading as the correlation gives it; Schade and Weber are stated the other way round
MU = dict(
    Rizk=rizk,
    Matsumoto_1974=lambda v, mu, Frs, Frp: 0.448 * (v['rhop'] / v['rhog'])**0.5 * (Frp / 10)**-1.75 * (Frs / 10)**3,
    Matsumoto_1975=lambda v, mu, Frs, Frp: 1.11 * (v['rhop'] / v['rhog'])**0.55 * (Frp / 10)**-2.3 * (Frs / 10)**3,
    Matsumoto_1977=mat77,
)
FRS = dict(
    Schade=lambda v, mu: mu**0.11 * (v['D'] / v['dp'])**0.025 * (v['rhop'] / v['rhog'])**0.34,
    Weber_saltation=lambda v, mu: ((7 + 8 / 3. * v['Vterminal']) if v['Vterminal'] <= 3 else 15) * mu**0.25 * (v['dp'] / v['D'])**0.1,
)
ARGS = dict(Rizk=['mp', 'dp', 'rhog', 'D'], Schade=['mp', 'rhop', 'dp', 'rhog', 'D'])


def one(name):
    names = ARGS.get(name, list(BOX))

    def h(ctx):
        v = {k: ctx.real(k, *BOX[k]) for k in names}
        kw = dict(v)
        if 'Vterminal' in v and ctx.choice('Vterminal default', [False, True]):
            del kw['Vterminal']
            v['Vterminal'] = 4.0 if name == 'Weber_saltation' else 1.0
        if name == 'Matsumoto_1977':
            ctx.assume(abs(v['dp'] / (1.39 * v['D'] * (v['rhop'] / v['rhog'])**-0.74) - 1) > 1e-6)
        V = getattr(F, name)(**kw)
        mu = v['mp'] / (pi / 4 * v['D']**2 * V * v['rhog'])
        Frs = V / sqrt(G0 * v['D'])
        if name in MU:
            ctx.close('documented equation', MU[name](v, mu, Frs, v.get('Vterminal', 1) / sqrt(G0 * v['dp'])), mu)
        else:
            ctx.close('documented equation', FRS[name](v, mu), Frs)
    h.__name__ = name
    harness('P20', name, timeout=60, funcs=name, bounds=TXT)(h)

    def rise(ctx):
        v = {k: ctx.real(k, *BOX[k]) for k in names}
        t = ctx.real('mp ratio', 1., 1000.)
        w = dict(v)
        w['mp'] = v['mp'] * t
        ctx.le('rises with the solids flow', getattr(F, name)(**v), getattr(F, name)(**w))
    rise.__name__ = 'rise_' + name
    harness('P20', rise.__name__, timeout=60, funcs=name, bounds=TXT + ', solids flow up to 1000 times larger')(rise)


for _n in list(MU) + list(FRS):
    one(_n)


@harness('P20', timeout=60, funcs='Geldart_Ling', bounds='Gs/D .01 .. 1e7, D .01 .. 2, mug 1e-6 .. 1e-4, rhog .1 .. 100')
def Geldart_Ling(ctx):
    q, D, mu, rho = ctx.real('Gs/D', 0.01, 1e7), ctx.real('D', 0.01, 2.), ctx.real('mug', 1e-6, 1e-4), ctx.real('rhog', 0.1, 100.)
    ctx.assume(abs(q - 47000) > 0.1)
    Gs = q * D
    c = mu**0.055 * rho**-0.42
    r = 1.5 * Gs**0.465 * D**-0.01 * c if q < 47000 else 8.7 * Gs**0.302 * D**0.153 * c
    ctx.close('documented equation', F.Geldart_Ling(mp=Gs * pi / 4 * D**2, rhog=rho, D=D, mug=mu), r)


@harness('P20', timeout=60, funcs='Geldart_Ling', bounds='two solids flows on the same side of Gs/D = 47000')
def rise_Geldart_Ling(ctx):
    q, t, D, mu, rho = ctx.real('Gs/D', 0.01, 1e7), ctx.real('ratio', 1., 1000.), ctx.real('D', 0.01, 2.), ctx.real('mug', 1e-6, 1e-4), ctx.real('rhog', 0.1, 100.)
    ctx.assume(abs(q - 47000) > 0.1)
    ctx.assume(q * t < 46999.9 if q < 47000 else True)
    f = lambda z: F.Geldart_Ling(mp=z * D * pi / 4 * D**2, rhog=rho, D=D, mug=mu)
    ctx.le('rises with the solids flow', f(q), f(q * t))

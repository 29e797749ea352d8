"""P22: liquid jet pumps and vacuum air leakage."""
from math import exp, log, pi, sqrt

from symx.harness import harness
from symx.formula import cmp
import fluids.jet_pump as F

META = dict(
    title='Jet pump and vacuum leakage results satisfy the documented model',
    statement='liquid_jet_pump_ancillary returns the one missing variable of d_nozzle, d_mixing, Qp, Qs, P1, P2 so that the documented momentum and energy balance of the mixing chamber holds, and raises ValueError when more or none are missing. '
              'Every result of liquid_jet_pump satisfies that balance, the documented pressure ratio equation N(R, C, M, alpha, loss coefficients), N = (P5-P2)/(P1-P5) and efficiency = M N, keeps every given variable, and it raises ValueError unless exactly two variables are missing. '
              'The four vacuum_air_leakage functions return their published rates in every vacuum band (Ryans and Croll 10 and 100 torr; HEI 2633 1, 3, 20 and 90 mmHg with volumes below 10 cubic feet taken as 10; Worthington 3, 5 and 8 inches of mercury, conservative or not), and never fall when the vessel volume rises.',
    over=['inputs'],
    text='densities 300 to 2000 kg/m^3, loss coefficients 0 to 2, nozzle 1 mm to 0.2 m, area ratio R 0.01 to 0.9, diffuser area ratio 0.001 to 1 or not given, Qs/Qp 0.01 to 5, density ratio 0.001 to 4, pressures and nozzle dynamic pressure 1e3 to 1e7 Pa; vessel volume 1e-3 to 1e4 m^3, vacuum 0.01 torr up to the full atmosphere; the retracted-nozzle term of the pressure ratio is compared for Ks = 0 only (documentation and code differ in a sign there)',
    why='tests solve one published pump for pairs of unknowns and one vessel per leakage function',
    files=['fluids/jet_pump.py'],
    mech=['liquid_jet_pump_ancillary', 'liquid_jet_pump, liquid_jet_pump_pressure_ratio', 'vacuum_air_leakage_Ryans_Croll, _Seider, _HEI2633, _Coker_Worthington'],
    note='Root finders are replaced by their contract: the harness lets the solver return an arbitrary point and requires the residual handed to it to be the documented equation there. Real arithmetic; convergence of the real solvers is not covered.',
)


class Pump:
    """a pump from its area, density and flow ratios and the dynamic pressure q of the nozzle flow"""
    def __init__(self, ctx, Ks=(0., 2.)):
        self.v = v = {}
        v['rhop'] = ctx.real('rhop', 300., 2000.)
        self.C = ctx.real('C', 0.001, 4.)
        v['rhos'] = self.C * v['rhop']
        v['Kp'] = ctx.real('Kp', 0., 2.)
        v['Ks'] = ctx.real('Ks', *Ks) if Ks else 0.0
        v['d_nozzle'] = ctx.real('d_nozzle', 0.001, 0.2)
        self.R = ctx.real('R', 0.01, 0.9)
        v['d_mixing'] = v['d_nozzle'] * self.R**-0.5
        self.q = ctx.real('q', 1e3, 1e7)
        v['Qp'] = pi / 4 * v['d_nozzle']**2 * (2 * self.q / v['rhop'])**0.5
        self.M = ctx.real('M', 0.01, 5.)
        v['Qs'] = self.M * v['Qp']
        v['P2'] = ctx.real('P2', 1e3, 1e7)
        self.f = 1 + v['Kp'] - self.C * (1 + v['Ks']) * (self.M * self.R / (1 - self.R))**2

    def head(self):
        return self.q * self.f


GEO = 'every pump in the box'


@harness('P22', timeout=60, funcs='liquid_jet_pump_ancillary', bounds=GEO)
def ancillary(ctx):
    p = Pump(ctx)
    u = ctx.choice('unknown', ['P1', 'P2', 'Qp', 'Qs'])
    kw = dict(p.v)
    kw['P1'] = P1 = kw['P2'] + p.head()
    x = kw.pop(u)
    ctx.close('the missing variable', F.liquid_jet_pump_ancillary(**kw), x)


@harness('P22', timeout=60, funcs='liquid_jet_pump_ancillary; brenth and secant replaced by an arbitrary point x', bounds=GEO + '; bracketing solver succeeding or not')
def ancillary_diameter(ctx):
    """the residual given to the solver is the difference of P1 from the documented one"""
    p = Pump(ctx)
    u = ctx.choice('unknown', ['d_nozzle', 'd_mixing'])
    works = ctx.choice('bracket', [True, False]) if u == 'd_mixing' else True
    kw = dict(p.v)
    kw['P1'] = P1 = ctx.real('P1', 1e3, 1e7)
    x = kw.pop(u)
    seen = []

    def brenth(f, a, b, args=(), **k):
        ctx.close('lower limit', a, 1e-9)
        ctx.close('upper limit', b, kw['d_mixing' if u == 'd_nozzle' else 'd_nozzle'] * 20)
        if not works:
            raise ValueError('no bracket')
        seen.append(f(x, *args))
        return x

    def secant(f, x0, args=(), **k):
        seen.append(f(x, *args))
        return x
    real = F.brenth, F.secant
    F.brenth, F.secant = brenth, secant
    try:
        ctx.close('the root', F.liquid_jet_pump_ancillary(**kw), x)
    finally:
        F.brenth, F.secant = real
    ctx.true('solved once', len(seen) == 1)
    ctx.close('documented balance', P1 - seen[0] - p.v['P2'], p.head())


ALL = ['d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2']


@harness('P22', funcs='liquid_jet_pump_ancillary, liquid_jet_pump', bounds='every number of missing variables')
def specification(ctx):
    p = Pump(ctx)
    v = dict(p.v)
    v['P1'] = v['P2'] * 3
    a = ctx.choice('missing', ALL + [''])
    b = ctx.choice('also', ALL + [''])
    w = {k: q for k, q in v.items() if k not in (a, b)}
    n = 10 - len(w)
    if n != 1:
        ctx.raises('%d missing' % n, F.liquid_jet_pump_ancillary, exc='ValueError', **w)
    v['P5'] = v['P2'] * 2
    c = ctx.choice('P5', [True, False])
    w = {k: q for k, q in v.items() if k not in (a, b) and (c or k != 'P5')}
    if 11 - len(w) != 2:
        ctx.raises('%d missing in total' % (11 - len(w)), F.liquid_jet_pump, exc='ValueError', **w)


def ratio(p, Km, Kd, alpha, retracted):
    R, C, M, Ks, Kp = p.R, p.C, p.M, p.v['Ks'], p.v['Kp']
    mix = R**2 * (1 + C * M) * (1 + M) * (1 + Km + Kd + alpha**2)
    t = C * M**2 * R**2 / (1 - R)
    num = 2 * R + 2 * t - mix - t / (1 - R) * (1 + Ks)
    den = 1 + Kp - 2 * R - 2 * t + mix + (t / (1 - R) * (1 + Ks) if retracted else 0)
    return num, den


def losses(ctx, need=False):
    """(pump, keywords, Km, Kd, alpha, retracted)"""
    r = ctx.choice('retracted', [True, False, 'default'])
    p = Pump(ctx, (0., 2.) if r is False else None)
    kw = {}
    Km, Kd = 0.15, 0.1
    kw['Kp'], kw['Ks'] = p.v['Kp'], p.v['Ks']
    given = ctx.choice('options given', [True, False]) or need
    if given:
        Km = kw['Km'] = ctx.real('Km', 0., 2.)
        Kd = kw['Kd'] = ctx.real('Kd', 0., 2.)
    if r == 'default':
        r = True
    else:
        kw['nozzle_retracted'] = r
    alpha = 1e-6
    if given:
        alpha = ctx.real('alpha', 0.001, 1.)
        kw['d_diffuser'] = p.v['d_mixing'] * alpha**-0.5
    return p, kw, Km, Kd, alpha, r


@harness('P22', timeout=200, domain='assume', funcs='liquid_jet_pump, liquid_jet_pump_pressure_ratio, liquid_jet_pump_ancillary', bounds='P5 and one of P1, P2, Qp, Qs missing; head 0.01 .. 5 times the dynamic pressure, pressure ratio N .001 .. 5 or a negative P5')
def pump_P5(ctx):
    """a pump given by its head f q (this fixes Kp) and its pressure ratio N (this fixes Km)"""
    u = ctx.choice('unknown', ['P1', 'P2', 'Qp', 'Qs'])
    r = ctx.choice('retracted', [True, False, 'default'])
    ok = ctx.choice('solution', [True, False])
    p = Pump(ctx, (0., 2.) if r is False else None)
    v = p.v
    t = p.C * (p.M * p.R / (1 - p.R))**2
    f = ctx.real('f', 0.01, 5.)
    v['Kp'] = f - 1 + (1 + v['Ks']) * t
    v['P1'] = v['P2'] + p.q * f
    alpha, Kd = ctx.real('alpha', 0.001, 1.), ctx.real('Kd', 0., 2.)
    if ok:
        N = ctx.real('N', 0.001, 5.)
    else:
        N = -ctx.real('-N', 0.001, 0.95)
        ctx.assume(v['P1'] * N + v['P2'] < -1)
    p.v['Kp'] = v['Kp']
    num, den = ratio(p, 0., Kd, alpha, r is not False)
    mix = p.R**2 * (1 + p.C * p.M) * (1 + p.M)
    Km = (num - N * den) / ((1 + N) * mix)
    kw = dict(Km=Km, Kd=Kd, d_diffuser=v['d_mixing'] * alpha**-0.5)
    if r != 'default':
        kw['nozzle_retracted'] = r
    kw.update(v)
    del kw[u]
    if not ok:
        if u == 'Qp':
            return
        ctx.raises('no solution', F.liquid_jet_pump, exc='ValueError', **kw)
        return
    real = F.liquid_jet_pump_ancillary
    if u == 'Qp':
        # the other harness shows that this is what it returns
        def known(rhop, rhos, Kp, Ks, **k):
            k.update(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks)
            for z in w:
                ctx.close('balance with the same ' + z, k[z], v[z])
            ctx.same('unknown', k['Qp'], None)
            return v['Qp']
        w = [z for z in v if z != 'Qp']
        F.liquid_jet_pump_ancillary = known
    try:
        out = F.liquid_jet_pump(**kw)
    finally:
        F.liquid_jet_pump_ancillary = real
    for k in ('d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2'):
        ctx.close(k, out[k], v[k])
    ctx.close('outlet pressure', out['P5'], (v['P1'] * N + v['P2']) / (N + 1))
    ctx.close('M', out['M'], p.M)
    ctx.close('R', out['R'], p.R)
    ctx.close('alpha', out['alpha'], alpha)
    ctx.close('N', out['N'], N)
    ctx.close('efficiency', out['efficiency'], p.M * N)


SEVEN = ['d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2', 'P5']
PAIRS = [(a, b) for i, a in enumerate(SEVEN) for b in SEVEN[i + 1:]]


@harness('P22', timeout=200, domain='assume', funcs='liquid_jet_pump, liquid_jet_pump_pressure_ratio; SolverInterface replaced by an arbitrary point', bounds='every pair of missing variables without P5; every point the solver may return')
def pump_pair(ctx):
    """the two residuals are those of the documented equations, and a point where they vanish is what is returned"""
    a, b = ctx.choice('unknowns', [q for q in PAIRS if 'P5' not in q])
    p, kw, Km, Kd, alpha, r = losses(ctx, 'd_mixing' in (a, b))
    v = dict(p.v)
    v['P1'] = v['P2'] * ctx.real('P1/P2', 1.1, 10.)
    v['P5'] = v['P2'] + ctx.real('P5 share', 0.05, 0.95) * (v['P1'] - v['P2'])
    num, den = ratio(p, Km, Kd, alpha, r)
    w = {k: q for k, q in v.items() if k not in (a, b)}
    w.update(kw)
    log_ = []

    class Solver:
        def __init__(self, **k):
            self.f = k['objf']

        def solve(self, guess):
            if ctx.choice('sign', [1, -1]) == 1:
                x = [v[a], v[b]]
            else:
                x = [-v[a], -v[b]]
            e1, e2 = self.f(x)
            log_.append((e1, e2))
            ctx.assume(abs(e1) + abs(e2) <= 1e-5)
            return x
    real = F.SolverInterface
    F.SolverInterface = Solver
    try:
        out = F.liquid_jet_pump(**w)
    finally:
        F.SolverInterface = real
    e1, e2 = log_[0]
    ctx.close('energy balance', e2 + v['P1'] - v['P2'], p.head())
    ctx.close('pressure ratio', (e1 + (v['P5'] - v['P2']) / (v['P1'] - v['P5'])) * den, num)
    for k in SEVEN:
        ctx.close(k, out[k], v[k])
    ctx.close('M', out['M'], p.M)
    ctx.close('R', out['R'], p.R)
    ctx.close('alpha', out['alpha'], alpha)
    ctx.close('N', out['N'] * (v['P1'] - v['P5']), v['P5'] - v['P2'])
    ctx.close('efficiency', out['efficiency'], p.M * out['N'])


# ------------------------------------------------------------------ vacuum
TORR, INHG, FT3, LBH = 101325 / 760., 25.4 * 101325 / 760, 0.3048**3, 0.45359237 / 3600
MMHG = TORR


def vessel(ctx, unit, top):
    V, p = ctx.real('V cubic feet', 0.05, 4e5), ctx.real('vacuum', 0.01, top)
    if ctx.choice('P_atm', ['default', 'given']) == 'given':
        Pa = ctx.real('P_atm', 6e4, 1.1e5)
        ctx.assume(p * unit < Pa)
        return V, p, Pa, dict(P_atm=Pa)
    return V, p, 101325., {}


def croll(V, p):
    return (0.026 * p**0.34 if p < 10 else 0.032 * p**0.26 if p < 100 else 0.106) * V**0.6


def seider(V, p):
    # the documentation prints 0.0298 for the first coefficient; the code and its test vector have 0.0289
    return 5 + (0.0289 + 0.03088 * log(p) - 0.0005733 * log(p)**2) * V**0.66


HEI = [(1, 0.6667235169997174, -3.71246576520232), (3, 0.664489357445796, -3.0147277548691274), (20, 0.6656780453394583, -2.34007321331419),
       (90, 0.663080000739313, -1.9278288516732665), (1e9, 0.6658471905826482, -1.6641585778506027)]


def hei(V, p):
    for top, a, b in HEI:
        if p < top:
            return exp(b + a * log(max(V, 10.0)))


VAC = dict(Ryans_Croll=(F.vacuum_air_leakage_Ryans_Croll, croll, TORR, [10, 100]), Seider=(F.vacuum_air_leakage_Seider, seider, TORR, []),
           HEI2633=(F.vacuum_air_leakage_HEI2633, hei, MMHG, [1, 3, 20, 90]))


def vacuum(name):
    fn, ref, unit, edges = VAC[name]

    def h(ctx):
        V, p, Pa, kw = vessel(ctx, unit, 755.)
        for e in edges:
            ctx.assume(abs(p - e) > 1e-4)
        if name == 'HEI2633':
            ctx.assume(abs(V - 10) > 1e-6)
        ctx.close('leakage', fn(V=V * FT3, P=Pa - p * unit, **kw), ref(V, p) * LBH)
    h.__name__ = name
    harness('P22', name, timeout=60, funcs=fn.__name__, bounds='V .05 .. 4e5 cubic feet, vacuum .01 .. 755, atmosphere default or 0.6 .. 1.1 bar')(h)


for _n in VAC:
    vacuum(_n)


@harness('P22', timeout=60, funcs='vacuum_air_leakage_Ryans_Croll, _Seider, _HEI2633', bounds='two volumes; vacuum .01 .. 755 torr (1 .. 755 for Seider)')
def volume(ctx):
    name = ctx.choice('function', list(VAC))
    fn = VAC[name][0]
    # (below 10 cubic feet HEI2633 is constant, which its own harness shows)
    u, t, p = ctx.real('ln V', -1.2617 if name == 'HEI2633' else -7., 9.), ctx.real('ln ratio', 0., 4.), ctx.real('vacuum', 1. if name == 'Seider' else 0.01, 755.)
    P = 101325 - p * TORR
    ctx.le('does not fall with the volume', fn(exp(u), P), fn(exp(u + t), P))


@harness('P22', timeout=60, funcs='vacuum_air_leakage_Coker_Worthington', bounds='vacuum .01 .. 29.5 inHg')
def Worthington(ctx):
    p = ctx.real('vacuum', 0.01, 29.5)
    for e in (3, 5, 8):
        ctx.assume(abs(p - e) > 1e-4)
    kw, Pa = {}, 101325.
    if ctx.choice('P_atm', ['default', 'given']) == 'given':
        Pa = kw['P_atm'] = ctx.real('P_atm', 6e4, 1.1e5)
    c = ctx.choice('conservative', ['default', True, False])
    if c != 'default':
        kw['conservative'] = c
    band = 0 if p < 3 else 1 if p < 5 else 2 if p < 8 else 3
    ctx.close('leakage', F.vacuum_air_leakage_Coker_Worthington(Pa - p * INHG, **kw), ([20, 25, 30, 40] if c else [10, 20, 25, 30])[band] * LBH)


@harness('P22', funcs='liquid_jet_pump', bounds='one geometry and flow, every suction pressure and density scale; every subset of the options left out')
def defaults(ctx):
    """Kp = 0, Ks = 0.1, Km = 0.15, Kd = 0.1, retracted, and a diffuser that changes nothing"""
    base = dict(Kp=0.0, Ks=0.1, Km=0.15, Kd=0.1, nozzle_retracted=True)
    r = ctx.real('rho', 100., 5000.)
    kw = dict(rhop=r, rhos=r * 0.75, P2=ctx.real('P2', 1e4, 1e7), Qp=0.01, Qs=0.007, d_nozzle=0.05, d_mixing=0.09)
    miss = ctx.choice('left out', list(base) + ['all'])
    some = {k: x for k, x in base.items() if miss != 'all' and k != miss}
    full = dict(base)
    full['d_diffuser'] = 90.0
    A, B = F.liquid_jet_pump(**kw, **some), F.liquid_jet_pump(**kw, **full)
    for k in ('P1', 'P5', 'N', 'efficiency', 'M', 'R'):
        ctx.close(k, A[k], B[k])

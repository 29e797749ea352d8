"""P01: gas-pipeline equations are self-consistent whichever variable is solved for."""
from math import log, pi, exp
from symx.harness import harness
import fluids.compressible as C

META = dict(
    title='Gas pipeline flow equations: documented flow, consistent for every unknown',
    statement='Each compressible gas-pipeline equation (Panhandle A/B, Weymouth, Spitzglass high/low, Oliphant, Fritzsche, Muller, IGT and the complete isothermal flow equation) returns the flow its documented formula gives, and solving it for the upstream pressure, downstream pressure, length or diameter returns a value that reproduces the given flow. '
              'Anything but exactly one unknown is rejected with ValueError. '
              'The isothermal equation rejects an outlet pressure above the inlet or below the choking pressure, which is where its flow is greatest, and a flow above that maximum.',
    over=['inputs', 'configurations'],
    text='every pipe, gas and standard-condition value in the stated boxes and every choice of the unknown',
    why='the tests check one literature case per equation and unknown; a wrong exponent in an inverse that only shows for Ts/Ps, E or Z away from that case passes',
    files=['fluids/compressible.py'],
    mech=['the five closed forms of each pipeline equation', 'secant solutions for diameter', 'isothermal_gas', 'P_isothermal_critical_flow', 'P_upstream_isothermal_critical_flow'],
)

NAMES = ['Panhandle_A', 'Panhandle_B', 'Weymouth', 'Spitzglass_high', 'Spitzglass_low', 'Oliphant', 'Fritzsche', 'Muller', 'IGT']
VISC = ('Muller', 'IGT')
ROOT_D = ('Spitzglass_high', 'Spitzglass_low', 'Oliphant')


def setup(ctx, name):
    kw = dict(SG=ctx.real('SG', 0.3, 2.0), Tavg=ctx.real('Tavg', 200.0, 500.0))
    if name in VISC:
        kw['mu'] = ctx.real('mu', 5e-6, 5e-5)
    base = dict(Ts=ctx.real('Ts', 250.0, 320.0), Ps=ctx.real('Ps', 5e4, 2e5), Zavg=ctx.real('Zavg', 0.2, 2.0), E=ctx.real('E', 0.3, 1.0))
    v = dict(L=ctx.real('L', 1.0, 1e6), D=ctx.real('D', 0.01, 3.0))
    v['P2'] = ctx.real('P2', 1e4, 5e7)
    v['P1'] = v['P2'] + ctx.real('dP', 1.0, 5e7)
    kw.update(base)
    return kw, v


def mk(name):
    f = getattr(C, name)

    def h(ctx):
        kw, v = setup(ctx, name)
        unk = ctx.choice('unknown', ['P1', 'P2', 'L', 'D'] if name not in ROOT_D else ['P1', 'P2', 'L'])
        Q = f(Q=None, **v, **kw)
        w = dict(v)
        w[unk] = None
        ctx.close('%s solved for %s' % (name, unk), f(Q=Q, **w, **kw), v[unk])
        ctx.true('flow positive', Q > 0)

    def h2(ctx):
        kw, v = setup(ctx, name)
        Q = ctx.real('Q', 1e-3, 1e4)
        unk = ctx.choice('unknown', ['D'])
        w = dict(v)
        w[unk] = None
        x = f(Q=Q, **w, **kw)
        w[unk] = x
        ctx.close('%s flow at the solved %s' % (name, unk), f(**w, **kw), Q, rtol=1e-5)

    def h3(ctx):
        kw, v = setup(ctx, name)
        v['Q'] = ctx.real('Q', 1e-3, 1e4)
        n = ctx.choice('missing', list(range(2 ** 5)))
        miss = [k for i, k in enumerate(['L', 'D', 'P1', 'P2', 'Q']) if n >> i & 1]
        if len(miss) == 1:
            return ctx.true('one unknown is solvable', True)
        for k in miss:
            v[k] = None
        if not miss:
            # nothing unknown: documented as an error
            pass
        ctx.raises('%s with %d unknowns' % (name, len(miss)), f, **v, **kw)
    harness('P01', name + '_roundtrip', timeout=60, funcs=name)(h)
    if name in ROOT_D:
        harness('P01', name + '_D', timeout=60, stub=True, roots=(1e-4, 50.0), funcs=name, mp=False)(h2)
    harness('P01', name + '_underspecified', timeout=60, funcs=name)(h3)


for n in NAMES:
    mk(n)


# documented flow formulas, transcribed independently
def X(v):
    return v['P1']**2 - v['P2']**2


FLOW = {
    'Panhandle_A': lambda v: 158.02053 * v['E'] * (v['Ts'] / v['Ps'])**1.0788 * (X(v) / (v['L'] * v['SG']**0.8539 * v['Tavg'] * v['Zavg']))**0.5394 * v['D']**2.6182,
    'Panhandle_B': lambda v: 152.88116 * v['E'] * (v['Ts'] / v['Ps'])**1.02 * (X(v) / (v['L'] * v['SG']**0.961 * v['Tavg'] * v['Zavg']))**0.51 * v['D']**2.53,
    'Weymouth': lambda v: 137.32958 * v['E'] * v['Ts'] / v['Ps'] * (X(v) / (v['L'] * v['SG'] * v['Tavg'] * v['Zavg']))**0.5 * v['D']**2.667,
    'Spitzglass_high': lambda v: 125.1060 * v['E'] * v['Ts'] / v['Ps'] * (X(v) / (v['L'] * v['SG'] * v['Tavg'] * v['Zavg'] * (1 + 0.09144 / v['D'] + 150. / 127 * v['D'])))**0.5 * v['D']**2.5,
    'Spitzglass_low': lambda v: 125.1060 * v['E'] * v['Ts'] / v['Ps'] * (2 * (v['P1'] - v['P2']) * (v['Ps'] + 1210) / (v['L'] * v['SG'] * v['Tavg'] * v['Zavg'] * (1 + 0.09144 / v['D'] + 150. / 127 * v['D'])))**0.5 * v['D']**2.5,
    'Oliphant': lambda v: 84.5872 * (v['D']**2.5 + 0.20915 * v['D']**3) * v['Ts'] / v['Ps'] * (X(v) / (v['L'] * v['SG'] * v['Tavg']))**0.5,
    'Fritzsche': lambda v: 93.500 * v['E'] * v['Ts'] / v['Ps'] * (X(v) / (v['L'] * v['SG']**0.8587 * v['Tavg'] * v['Zavg']))**0.538 * v['D']**2.69,
    'Muller': lambda v: 15.7743 * v['Ts'] / v['Ps'] * v['E'] * (X(v) / (v['L'] * v['Zavg'] * v['Tavg']))**0.575 * v['D']**2.725 / (v['mu']**0.15 * v['SG']**0.425),
    'IGT': lambda v: 24.6241 * v['Ts'] / v['Ps'] * v['E'] * (X(v) / (v['L'] * v['Zavg'] * v['Tavg']))**(5. / 9) * v['D']**(8. / 3) / (v['mu']**(1. / 9) * v['SG']**(4. / 9)),
}
EDEF = {'Spitzglass_high': 1.0, 'Spitzglass_low': 1.0, 'Fritzsche': 1.0, 'Muller': 1.0, 'IGT': 1.0}


def mkflow(name):
    f = getattr(C, name)

    @harness('P01', name + '_flow', funcs=name)
    def flow(ctx):
        kw, v = setup(ctx, name)
        if ctx.choice('standard conditions', ['given', 'default']) == 'given':
            ctx.close('%s flow' % name, f(**v, **kw), FLOW[name](dict(v, **kw)), rtol=1e-5, prove_tol='2/1000000')
        else:
            kw = {k: x for k, x in kw.items() if k in ('SG', 'Tavg', 'mu')}
            ctx.close('%s flow at default conditions' % name, f(**v, **kw), FLOW[name](dict(v, Ts=288.7, Ps=101325.0, Zavg=1.0, E=EDEF.get(name, 0.92), **kw)), rtol=1e-5, prove_tol='2/1000000')


for n in NAMES:
    mkflow(n)


def iso(ctx, long=False):
    # x = fd L/D
    x = ctx.real('x', 1e-2, 690.) if not long else ctx.real('x', 701., 1e5)
    D, fd = ctx.real('D', 0.01, 3.0), ctx.real('fd', 1e-3, 0.1)
    return dict(rho=ctx.real('rho', 0.05, 200.), fd=fd, L=x * D / fd, D=D)


def isoeq(ctx, label, m, P1, P2, rho, fd, L, D, **k):
    ctx.close(label, m**2 * P1 * (fd * L / D + 2 * log(P1 / P2)), (pi * D**2 / 4)**2 * rho * (P1**2 - P2**2), **k)


@harness('P01', funcs='isothermal_gas (flow, length)', bounds='rho in [.05,200], fd in [1e-3,.1], L in [1,1e5], D in [.01,3], P in [1e3,1e8]')
def isothermal_flow(ctx):
    b = iso(ctx)
    P1, P2 = ctx.real('P1', 1e3, 1e8), ctx.real('P2', 1e3, 1e8)
    Pcf = C.P_isothermal_critical_flow(P=P1, fd=b['fd'], D=b['D'], L=b['L'])
    m, err = ctx.attempt(C.isothermal_gas, P1=P1, P2=P2, **b)
    if P2 < Pcf:
        return ctx.same('choked flow rejected', err, 'ValueError')
    if P2 > P1:
        return ctx.same('reverse flow rejected', err, 'ValueError')
    ctx.assume(P2 < P1)
    if err:
        return ctx.fail('flow returned', err)
    isoeq(ctx, 'isothermal flow equation', m, P1, P2, **b)
    ctx.close('length', C.isothermal_gas(b['rho'], b['fd'], P1=P1, P2=P2, D=b['D'], m=m), b['L'], rtol=1e-5)


@harness('P01', funcs='P_isothermal_critical_flow, P_upstream_isothermal_critical_flow')
def isothermal_choke(ctx):
    b = iso(ctx)
    P1 = ctx.real('P1', 1e3, 1e8)
    fd, L, D = b['fd'], b['L'], b['D']
    Pc = C.P_isothermal_critical_flow(P=P1, fd=fd, D=D, L=L)
    # stationary point of (P1^2-P2^2)/(C + 2 ln(P1/P2)) in P2
    ctx.close('the flow is stationary at the choking pressure', Pc**2 * (fd * L / D - 2 * log(Pc / P1) + 1), P1**2)
    ctx.close('upstream pressure at which this outlet chokes', C.P_upstream_isothermal_critical_flow(P=Pc, fd=fd, D=D, L=L), P1)
    ctx.true('choking pressure positive', Pc > 0)


@harness('P01', funcs='P_isothermal_critical_flow, P_upstream_isothermal_critical_flow (long pipes)', bounds='fd L/D in [701, 1e5]')
def isothermal_choke_long(ctx):
    x = ctx.real('x', 701., 1e5)
    r = C.P_isothermal_critical_flow(P=1.0, fd=x, D=1.0, L=1.0)
    ctx.close('choking pressure of a long pipe', r**2 * (x - 2 * log(r) + 1), 1.0, rtol=0.05)
    u = C.P_upstream_isothermal_critical_flow(P=1.0, fd=x, D=1.0, L=1.0)
    ctx.close('upstream choking pressure of a long pipe', r * u, 1.0)


@harness('P01', funcs='isothermal_gas (D numerical)', stub=True, roots=(1e-3, 1e3), mp=False)
def isothermal_D(ctx):
    b = iso(ctx)
    P2 = ctx.real('P2', 1e3, 1e7)
    P1 = P2 * ctx.real('ratio', 1.0001, 1e3)
    m = ctx.real('m', 1e-4, 1e4)
    del b['D']
    D, err = ctx.attempt(C.isothermal_gas, P1=P1, P2=P2, m=m, **b)
    if err:      # choked at every diameter tried
        return ctx.same('choked flow rejected', err, 'ValueError')
    isoeq(ctx, 'flow equation at the solved diameter', m, P1, P2, D=D, rtol=1e-5, **b)


@harness('P01', funcs='isothermal_gas (P2)', stub=True, roots=(1e-3, 1e9), mp=False)
def isothermal_P2(ctx):
    b = iso(ctx)
    P1, m = ctx.real('P1', 1e3, 1e8), ctx.real('m', 1e-3, 1e4)
    P2, err = ctx.attempt(C.isothermal_gas, P1=P1, m=m, **b)
    if err:
        ctx.same('error type', err, 'ValueError')
        mm = C.isothermal_gas(P1=P1, P2=C.P_isothermal_critical_flow(P=P1, fd=b['fd'], D=b['D'], L=b['L']), **b)
        return ctx.le('rejected only above the maximum flow', mm, m)
    isoeq(ctx, 'flow equation at the solved outlet pressure', m, P1, P2, rtol=1e-5, **b)


@harness('P01', funcs='isothermal_gas (unknowns)')
def isothermal_unknowns(ctx):
    n = ctx.choice('missing', list(range(32)))
    v = dict(P1=ctx.real('P1', 2e5, 1e7), P2=1e5, L=ctx.real('L', 1., 100.), D=0.5, m=1.0)
    miss = [k for i, k in enumerate(['P1', 'P2', 'L', 'D', 'm']) if n >> i & 1]
    if len(miss) == 1:
        return ctx.true('one unknown is solvable', True)
    for k in miss:
        v[k] = None
    ctx.raises('isothermal flow with %d unknowns' % len(miss), C.isothermal_gas, 11.3, 0.015, **v)

"""P02: isentropic / polytropic / isothermal compression, critical flow and stagnation relations are mutually inverse."""
from symx.harness import harness
import fluids.compressible as C
from math import log
from fluids.constants import R

META = dict(
    title='Compression work, efficiencies, stagnation and critical flow agree',
    statement='Isentropic and isothermal compression work, temperature rise, isentropic/polytropic efficiency conversion, the polytropic exponent, stagnation and critical-flow states equal their documented thermodynamic formulas and are mutually consistent: solving for any one of work, P1, P2 or efficiency and substituting back returns the original value. '
              'Missing or conflicting inputs raise ValueError, and a flow is reported critical exactly when the downstream pressure is below the critical pressure.',
    over=['inputs', 'configurations'],
    text='all gas states with k in [1.02, 2], pressure ratios up to 50 either way, efficiencies in (0, 1]',
    why='tests check one literature point per function; inverses and cross-function consistency over all ratios and exponents are not sampled',
    files=['fluids/compressible.py'],
    mech=['isentropic_work_compression', 'isentropic_efficiency', 'polytropic_exponent', 'P_stagnation/T_stagnation', 'P_critical_flow, is_critical_flow'],
)


def gas(ctx, kname='k'):
    return ctx.real(kname, 1.02, 2.0)


def pr(ctx):
    P1 = ctx.real('P1', 1e3, 1e7)
    P2 = P1 * ctx.real('ratio', 1.01, 50.0)
    return P1, P2


@harness('P02', bounds='T1 in [100,2000], k in [1.02,2], Z in [.2,2], P2/P1 in [.02,50], eta in [.05,1]', funcs='isentropic_work_compression')
def work_inverse(ctx):
    T1, k, Z = ctx.real('T1', 100., 2000.), gas(ctx), ctx.real('Z', 0.2, 2.0)
    P1 = ctx.real('P1', 1e3, 1e7)
    P2 = P1 * (ctx.real('ratio', 0.02, 0.99) if ctx.choice('direction', ['expand', 'compress']) == 'expand' else ctx.real('ratio', 1.01, 50.0))
    eta = ctx.real('eta', 0.05, 1.0)
    W = C.isentropic_work_compression(T1=T1, k=k, Z=Z, P1=P1, P2=P2, eta=eta)
    w = ctx.choice('solve', ['P1', 'P2', 'eta'])
    kw = dict(P1=P1, P2=P2, W=W, eta=eta)
    ref = kw[w]
    kw[w] = None
    ctx.close('isentropic work solved for %s' % w, C.isentropic_work_compression(T1=T1, k=k, Z=Z, **kw), ref)


@harness('P02', funcs='isentropic_work_compression')
def work_definition(ctx):
    T1, k, Z = ctx.real('T1', 100., 2000.), gas(ctx), ctx.real('Z', 0.2, 2.0)
    P1, P2 = pr(ctx)
    eta = ctx.real('eta', 0.05, 1.0)
    W = C.isentropic_work_compression(T1=T1, k=k, Z=Z, P1=P1, P2=P2, eta=eta)
    T2 = C.isentropic_T_rise_compression(T1=T1, P1=P1, P2=P2, k=k, eta=eta)
    # energy balance of a constant-Cp gas: W = Cp*Z*(T2-T1), Cp = k R/(k-1)
    ctx.close('work equals enthalpy rise', W, k / (k - 1) * R * Z * (T2 - T1))
    ctx.true('compression needs work', W > 0)
    ctx.true('compression heats', T2 > T1)
    ctx.close('isothermal work', C.isothermal_work_compression(P1, P2, T1, Z), -C.isothermal_work_compression(P2, P1, T1, Z))
    ctx.true('isothermal work positive', C.isothermal_work_compression(P1, P2, T1, Z) > 0)


@harness('P02', funcs='isentropic_work_compression (missing inputs)')
def work_missing(ctx):
    n = ctx.choice('given', list(range(16)))
    kw = {}
    for i, (nm, lo, hi) in enumerate([('P1', 1e3, 1e6), ('P2', 1e3, 1e6), ('W', 1e3, 1e5), ('eta', 0.1, 1.0)]):
        kw[nm] = ctx.real(nm, lo, hi) if n >> i & 1 else None
    if bin(n).count('1') != 3:
        ctx.raises('needs exactly three of W, P1, P2, eta', C.isentropic_work_compression, T1=300.0, k=1.4, **kw)


@harness('P02', funcs='isentropic_efficiency, polytropic_exponent')
def efficiency_inverse(ctx):
    k = gas(ctx)
    P1 = ctx.real('P1', 1e3, 1e7)
    P2 = P1 * ctx.real('ratio', 1.05, 50.0)
    w = ctx.choice('way', ['s', 'p'])
    if w == 's':
        es = ctx.real('eta_s', 0.1, 1.0)
        ep = C.isentropic_efficiency(P1, P2, k, eta_s=es)
        ctx.close('eta_s -> eta_p -> eta_s', C.isentropic_efficiency(P1, P2, k, eta_p=ep), es)
    else:
        ep = ctx.real('eta_p', 0.3, 1.0)
        es = C.isentropic_efficiency(P1, P2, k, eta_p=ep)
        ctx.close('eta_p -> eta_s -> eta_p', C.isentropic_efficiency(P1, P2, k, eta_s=es), ep)
    ctx.raises('needs an efficiency', C.isentropic_efficiency, P1, P2, k)
    ctx.raises('both efficiencies', C.isentropic_efficiency, P1, P2, k, eta_s=0.5, eta_p=0.6)


@harness('P02', funcs='polytropic_exponent')
def polytropic(ctx):
    k = gas(ctx)
    if ctx.choice('way', [0, 1]):
        n = ctx.real('n', 1.01, 3.0)
        e = C.polytropic_exponent(k, n=n)
        ctx.assume(abs(1 - k * (1 - e)) > 1e-6)
        ctx.close('n -> eta_p -> n', C.polytropic_exponent(k, eta_p=e), n)
    else:
        e = ctx.real('eta_p', 0.2, 1.0)
        ctx.assume(abs(1 - k * (1 - e)) > 1e-3)
        n = C.polytropic_exponent(k, eta_p=e)
        ctx.assume(abs(n - 1) > 1e-6)
        ctx.close('eta_p -> n -> eta_p', C.polytropic_exponent(k, n=n), e)
    ctx.raises('needs n or eta_p', C.polytropic_exponent, k)
    ctx.close('reversible polytropic exponent is k', C.polytropic_exponent(k, eta_p=1.0), k)


@harness('P02', funcs='polytropic vs isentropic efficiency')
def polytropic_consistent(ctx):
    """The polytropic head with exponent n gives the same outlet temperature as the isentropic efficiency."""
    k = gas(ctx)
    P1 = ctx.real('P1', 1e3, 1e7)
    P2 = P1 * ctx.real('ratio', 1.05, 50.0)
    T1 = ctx.real('T1', 100., 2000.)
    ep = ctx.real('eta_p', 0.3, 1.0)
    ctx.assume(abs(1 - k * (1 - ep)) > 1e-3)
    n = C.polytropic_exponent(k, eta_p=ep)
    es = C.isentropic_efficiency(P1, P2, k, eta_p=ep)
    T2 = C.isentropic_T_rise_compression(T1=T1, P1=P1, P2=P2, k=k, eta=es)
    ctx.close('polytropic outlet temperature', T2, T1 * (P2 / P1) ** ((n - 1) / n))


@harness('P02', funcs='T_stagnation, P_stagnation, T_stagnation_ideal, stagnation_energy')
def stagnation(ctx):
    k = gas(ctx)
    T = ctx.real('T', 50., 3000.)
    P = ctx.real('P', 1e2, 1e8)
    x = ctx.real('ratio', 1.0, 20.0)
    if ctx.choice('way', [0, 1]):
        Tst = T * x
        Pst = C.P_stagnation(P, T, Tst, k)
        ctx.close('stagnation T->P->T', C.T_stagnation(T, P, Pst, k), Tst)
        ctx.le('stagnation pressure not below static', P, Pst)
    else:
        Pst = P * x
        Tst = C.T_stagnation(T, P, Pst, k)
        ctx.close('stagnation P->T->P', C.P_stagnation(P, T, Tst, k), Pst)
        ctx.le('stagnation temperature not below static', T, Tst)
    V, Cp = ctx.real('V', 0.0, 3000.0), ctx.real('Cp', 100.0, 2e4)
    ctx.close('stagnation energy balance', Cp * (C.T_stagnation_ideal(T, V, Cp) - T), C.stagnation_energy(V))


@harness('P02', funcs='T_critical_flow, P_critical_flow, is_critical_flow')
def critical(ctx):
    k = gas(ctx)
    T = ctx.real('T', 50., 3000.)
    P1 = ctx.real('P1', 1e2, 1e8)
    P2 = ctx.real('P2', 1e2, 1e8)
    Pc, Tc = C.P_critical_flow(P1, k), C.T_critical_flow(T, k)
    ctx.close('critical state is isentropic', C.P_stagnation(Pc, Tc, T, k), P1)
    # sonic velocity at the throat: stagnation T from c^2 = k R T / M with Cp = k R/(k-1)
    ctx.close('critical temperature is sonic', C.T_stagnation_ideal(Tc, (k * R * Tc) ** 0.5, k * R / (k - 1)), T)
    ctx.lt('critical pressure below upstream', Pc, P1)
    crit = C.is_critical_flow(P1, P2, k)
    if crit:
        ctx.lt('critical only below the critical pressure', P2, Pc)
    else:
        ctx.le('not critical at or above the critical pressure', Pc, P2)


@harness('P02', funcs='documented formulas of every function')
def formulas(ctx):
    k, T, P1 = gas(ctx), ctx.real('T', 50., 3000.), ctx.real('P1', 1e2, 1e8)
    P2 = P1 * ctx.real('ratio', 0.02, 50.)
    Z, eta, x = ctx.real('Z', .2, 2.), ctx.real('eta', .05, 1.), P2 / P1
    ctx.assume(abs(x - 1) > 1e-3)
    ctx.close('isothermal work', C.isothermal_work_compression(P1, P2, T, Z), Z * R * T * log(x), atol=1e-9)
    ctx.close('isothermal work, ideal', C.isothermal_work_compression(P1, P2, T), R * T * log(x), atol=1e-9)
    ctx.close('isentropic work', C.isentropic_work_compression(T1=T, k=k, Z=Z, P1=P1, P2=P2, eta=eta), k / (k - 1) * Z * R * T * (x**((k - 1) / k) - 1) / eta)
    ctx.close('isentropic work, ideal', C.isentropic_work_compression(T1=T, k=k, P1=P1, P2=P2, eta=eta), k / (k - 1) * R * T * (x**((k - 1) / k) - 1) / eta)
    ctx.close('outlet temperature', C.isentropic_T_rise_compression(T, P1, P2, k, eta), T + T / eta * (x**((k - 1) / k) - 1))
    ctx.close('outlet temperature, reversible', C.isentropic_T_rise_compression(T, P1, P2, k), T * x**((k - 1) / k))
    ctx.close('isentropic efficiency', C.isentropic_efficiency(P1, P2, k, eta_p=eta), (x**((k - 1) / k) - 1) / (x**((k - 1) / (k * eta)) - 1))
    ctx.close('critical temperature', C.T_critical_flow(T, k), 2 * T / (k + 1))
    ctx.close('critical pressure', C.P_critical_flow(P1, k), P1 * (2 / (k + 1))**(k / (k - 1)))
    ctx.close('stagnation energy', C.stagnation_energy(x), x**2 / 2)
    ctx.close('stagnation pressure', C.P_stagnation(P1, T, T * x, k), P1 * x**(k / (k - 1)))
    ctx.close('stagnation temperature', C.T_stagnation(T, P1, P2, k), T * x**((k - 1) / k))
    Cp = ctx.real('Cp', 100., 1e4)
    ctx.close('ideal stagnation temperature', C.T_stagnation_ideal(T, x * 10, Cp), T + (x * 10)**2 / 2 / Cp)
    n = ctx.real('n', 1.01, 3.)
    ctx.close('polytropic efficiency', C.polytropic_exponent(k, n=n), n * (k - 1) / (k * (n - 1)))
    if abs(1 - k * (1 - eta)) > 1e-3:
        ctx.close('polytropic exponent', C.polytropic_exponent(k, eta_p=eta), k * eta / (1 - k * (1 - eta)))
    ctx.raises('n and eta both given', C.polytropic_exponent, k, n=n, eta_p=eta)

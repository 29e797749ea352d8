"""P10: control valve sizing, choking, coefficients and noise per IEC 60534."""
from math import exp, log10, pi, sqrt

from symx.harness import harness
from symx.formula import cmp, same_formula
import fluids.control_valve as V
from fluids.constants import R

META = dict(
    title='Control valve sizing, choking, Reynolds factor and noise follow IEC 60534',
    statement='size_control_valve_l and size_control_valve_g return the Kv of the documented IEC 60534 procedure for liquids and gases (choked or not, turbulent or laminar, with or without reducers, iterating the piping factor until Kv changes by under 1 %), honour allow_choked and allow_laminar, report in full_output the state they used with the same Kv, and never fail for lack of convergence. '
              'Choking tests and choke pressures, FF, cavitation index, valve Reynolds number and factor, fitting loss coefficient and flow-coefficient conversion equal their documented formulas, choke pressures solved for either side are inverse, and missing inputs raise. '
              'The liquid (2015) and gas (2011) noise predictions equal the standard\'s equations in every regime and at every regime boundary.',
    over=['inputs', 'configurations'],
    text='all valve, pipe and fluid properties in engineering range, all regimes, all scales; piping iterations up to 2 rounds',
    why='tests replay a handful of standard examples; branch combinations of choking, laminar, reducers and flags are not covered',
    files=['fluids/control_valve.py'],
    mech=['size_control_valve_l', 'size_control_valve_g', 'control_valve_choke_P_l/g, is_choked_turbulent_l/g', 'Reynolds_valve, Reynolds_factor, loss_coefficient_piping', 'control_valve_noise_l_2015, control_valve_noise_g_2011', 'convert_flow_coefficient'],
)
N1, N2, N4, N5, N9, N18, N32 = 0.1, 1.6e-3, 7.07e-2, 1.8e-3, 24.6, 0.865, 140.0
RHO0 = 999.1032907570233      # water at 15 degC

P = dict(P1=(1e5, 1e7), P2=(1e4, 9e6), Psat=(1e2, 1e6))
same_formula('P10', V.cavitation_index, lambda P1, P2, Psat: (P1 - Psat) / (P1 - P2), P)
same_formula('P10', V.FF_critical_pressure_ratio_l, lambda Psat, Pc: 0.96 - 0.28 * (Psat / Pc)**0.5, dict(Psat=(1., 2e7), Pc=(1e6, 3e7)))


def ref_ff(Psat, Pc):
    return 0.96 - 0.28 * (Psat / Pc)**0.5


@harness('P10', funcs='control_valve_choke_P_l', bounds='Psat in [1e2,1e6], Pc in [2e6,3e7], FL in [.3,.99], P1 in [1e5,1e7]')
def choke_l(ctx):
    Psat, Pc, FL = ctx.real('Psat', 1e2, 1e6), ctx.real('Pc', 2e6, 3e7), ctx.real('FL', 0.3, 0.99)
    P1 = ctx.real('P1', 1e5, 1e7)
    FF = ref_ff(Psat, Pc)
    ctx.raises('needs a pressure', V.control_valve_choke_P_l, Psat, Pc, FL)
    ctx.raises('not both', V.control_valve_choke_P_l, Psat, Pc, FL, P1=P1, P2=P1)
    want = P1 - FL**2 * (P1 - FF * Psat)
    if want > P1:
        ctx.raises('choking impossible', V.control_valve_choke_P_l, Psat, Pc, FL, P1=P1)
        ctx.close('unchecked', V.control_valve_choke_P_l(Psat, Pc, FL, P1=P1, check_choking=False), want)
        return
    P2 = V.control_valve_choke_P_l(Psat, Pc, FL, P1=P1)
    ctx.close('choke P2', P2, want)
    ctx.close('P1 back', V.control_valve_choke_P_l(Psat, Pc, FL, P2=P2, check_choking=False), P1)


@harness('P10', funcs='control_valve_choke_P_g', bounds='xT in [.1,.9], gamma in [1.05,1.6]')
def choke_g(ctx):
    xT, gamma, P1 = ctx.real('xT', 0.1, 0.85), ctx.real('gamma', 1.05, 1.6), ctx.real('P1', 1e5, 1e7)
    P2 = V.control_valve_choke_P_g(xT, gamma, P1=P1)
    ctx.close('choke P2 where x = Fgamma xT', (P1 - P2) / P1, gamma / 1.4 * xT)
    ctx.close('P1 back', V.control_valve_choke_P_g(xT, gamma, P2=P2), P1)
    ctx.raises('needs a pressure', V.control_valve_choke_P_g, xT, gamma)
    ctx.raises('not both', V.control_valve_choke_P_g, xT, gamma, P1=P1, P2=P1)


@harness('P10', funcs='is_choked_turbulent_l, is_choked_turbulent_g')
def is_choked(ctx):
    P1, dP, Psat, FF = ctx.real('P1', 1e5, 1e7), ctx.real('dP', 1e3, 1e7), ctx.real('Psat', 1e2, 1e6), ctx.real('FF', 0.6, 0.96)
    FL, FP, FLP = ctx.real('FL', 0.3, 0.99), ctx.real('FP', 0.3, 1.0), ctx.real('FLP', 0.3, 1.0)
    ctx.same('choked without fittings', bool(V.is_choked_turbulent_l(dP, P1, Psat, FF, FL)), bool(dP >= FL**2 * (P1 - FF * Psat)))
    ctx.same('choked with fittings', bool(V.is_choked_turbulent_l(dP, P1, Psat, FF, FLP=FLP, FP=FP)), bool(dP >= (FLP / FP)**2 * (P1 - FF * Psat)))
    ctx.same('fittings take precedence', bool(V.is_choked_turbulent_l(dP, P1, Psat, FF, FL=FL, FLP=FLP, FP=FP)), bool(dP >= (FLP / FP)**2 * (P1 - FF * Psat)))
    ctx.raises('liquid needs factors', V.is_choked_turbulent_l, dP, P1, Psat, FF)
    x, Fg, xT, xTP = ctx.real('x', 0.0, 1.0), ctx.real('Fgamma', 0.7, 1.2), ctx.real('xT', 0.1, 0.9), ctx.real('xTP', 0.1, 0.9)
    ctx.same('gas', bool(V.is_choked_turbulent_g(x, Fg, xT)), bool(x >= Fg * xT))
    ctx.same('gas with fittings', bool(V.is_choked_turbulent_g(x, Fg, xTP=xTP)), bool(x >= Fg * xTP))
    ctx.raises('gas needs a factor', V.is_choked_turbulent_g, x, Fg)


def rev_ref(nu, Q, D1, FL, Fd, C):
    return N4 * Fd * Q / (nu * (C * FL)**0.5) * (FL**2 * C**2 / (N2 * D1**4) + 1)**0.25


def loss_ref(d, D1=None, D2=None):
    x = 0.0
    if D1 is not None:
        x = x + 0.5 * (1 - (d / D1)**2)**2 + 1 - (d / D1)**4
    if D2 is not None:
        x = x + (1 - (d / D2)**2)**2 - (1 - (d / D2)**4)
    return x


def fr_ref(FL, C, d, Rev, full_trim=True):
    if full_trim:
        r = C / d**2
        r = min(r, 0.04)
        n = N2 / r**2
        a = 0.026 / FL * (n * Rev)**0.5
    else:
        n = 1 + N32 * (C / d**2)**(2 / 3.)
        a = 0.026 / FL * (n * Rev)**0.5
        a = min(a, 1)
    b = 1 + 0.33 * FL**0.5 / n**0.25 * log10(Rev / 10000)
    if Rev < 10:
        return a
    return min(a, b) if full_trim else min(b, a)


same_formula('P10', V.Reynolds_valve, rev_ref, dict(nu=(1e-8, 1e-2), Q=(1e-3, 1e4), D1=(5., 1000.), FL=(.3, 1.), Fd=(.05, 1.), C=(1e-2, 1e4)))
same_formula('P10', V.loss_coefficient_piping, loss_ref, dict(d=(.01, .5), D1=(.01, 1.), D2=(.01, 1.)))
same_formula('P10', V.loss_coefficient_piping, lambda d, D1: loss_ref(d, D1), dict(d=(.01, .5), D1=(.01, 1.)), name='loss_inlet_only')
same_formula('P10', V.loss_coefficient_piping, lambda d, D2: loss_ref(d, None, D2), dict(d=(.01, .5), D2=(.01, 1.)), name='loss_outlet_only')
same_formula('P10', V.Reynolds_factor, fr_ref, dict(FL=(.3, 1.), C=(1e-3, 1e3), d=(5., 500.), Rev=(1., 1e4)), choices=dict(full_trim=[True, False]))


@harness('P10', funcs='Reynolds_factor (reduced trim never above 1)')
def fr_limit(ctx):
    FL, C, d, Rev = ctx.real('FL', .3, 1.), ctx.real('C', 1e-3, 1e3), ctx.real('d', 5., 500.), ctx.real('Rev', 1., 1e4)
    ctx.true('reduced trim: FR <= 1', V.Reynolds_factor(FL, C, d, Rev, full_trim=False) <= 1)


@harness('P10', funcs='Reynolds_factor (full trim never above 1, as documented)', timeout=40)
def fr_limit_full(ctx):
    FL, C, d, Rev = ctx.real('FL', .3, 1.), ctx.real('C', 1e-3, 1e3), ctx.real('d', 5., 500.), ctx.real('Rev', 1., 1e4)
    fr = V.Reynolds_factor(FL, C, d, Rev, full_trim=True)
    if Rev < 10:
        ctx.true('full trim: FR <= 1 below Rev 10', fr <= 1)
    else:
        ctx.true('full trim: FR <= 1', fr <= 1)


CONV = 1     # rounds of the piping iteration that are followed


def size_l(ctx, rho, Psat, Pc, mu, P1, P2, Q, D1, D2, d, FL, Fd, allow_choked, allow_laminar):
    """IEC 60534-2-1 liquid procedure; pressures Pa, flow m3/s, diameters m."""
    FF = ref_ff(Psat, Pc)
    Qh, dPk, P1k, Psk = Q * 3600, (P1 - P2) / 1000, P1 / 1000, Psat / 1000
    choked = dPk >= FL**2 * (P1k - FF * Psk)
    choked = bool(choked)
    if choked and allow_choked:
        C = Qh / (N1 * FL) * (rho / RHO0 / (P1k - FF * Psk))**0.5
    else:
        C = Qh / N1 * (rho / RHO0 / dPk)**0.5
    out = dict(choked=choked, FF=FF)
    if d is None:
        out.update(Kv=C, Rev=1e5)
        return out
    D1, D2, d = 1000 * D1, 1000 * D2, 1000 * d
    out['Rev'] = Rev = rev_ref(mu / rho, Qh, D1, FL, Fd, C)
    out['laminar'] = bool(Rev <= 10000)
    if (Rev > 10000 or not allow_laminar):
        if D1 == d and D2 == d:
            out['Kv'] = C
            return out
        for k in range(CONV + 1):
            FP = 1 / sqrt(1 + loss_ref(d, D1, D2) / N2 * (C / d**2)**2)
            up = 0.0 if d > D1 else loss_ref(d, D1)
            FLP = FL / sqrt(1 + FL**2 / N2 * up * (C / d**2)**2)
            if dPk >= (FLP / FP)**2 * (P1k - FF * Psk):
                C2 = Qh / (N1 * FLP) * (rho / RHO0 / (P1k - FF * Psk))**0.5
            else:
                C2 = Qh / (N1 * FP) * (rho / RHO0 / dPk)**0.5
            done = C / C2 >= 0.99
            if k == CONV:
                ctx.assume(done)
            C = C2
            if done:
                break
        out['Kv'] = C
    elif Rev <= 10000:
        laminar(ctx, C, lambda Ci: rev_ref(mu / rho, Qh, D1, FL, Fd, Ci), FL, d, out)
    return out


def laminar(ctx, C, rev, FL, d, out):
    """raise C by 30 % until C/FR is below it; the reported Rev and FR are
    those of the first round, and are only claimed when there is one round"""
    for k in range(CONV + 1):
        Ci = 1.3 * C
        Rev = rev(Ci)
        FR = fr_ref(FL, Ci, d, Rev, full_trim=not (Ci / d**2 > 0.016 * N18))
        again = C / FR >= Ci
        if k == CONV:
            ctx.assume(not again)
        C = Ci
        if not again:
            break
    out['Kv'] = C
    out.pop('Rev')
    if k == 0:
        out.update(FR=FR, Rev=Rev)


def size_g(ctx, T, MW, mu, gamma, Z, P1, P2, Q, D1, D2, d, FL, Fd, xT, allow_choked, allow_laminar):
    Qh, P1k = Q * 3600, P1 / 1000
    rho = MW / 1000 * P1 / (Z * R * T)
    Fg = gamma / 1.4
    x = (P1 - P2) / P1
    Y = 1 - x / (3 * Fg * xT)
    Y = max(Y, 2 / 3.)
    choked = bool(x >= Fg * xT)
    C = Qh / (N9 * P1k * Y) * (MW * T * Z / (xT * Fg if choked and allow_choked else x))**0.5
    out = dict(choked=choked, Y=Y)
    if d is None:
        out['Kv'] = C
        return out
    D1, D2, d = 1000 * D1, 1000 * D2, 1000 * d
    nu = mu / rho
    out['Rev'] = Rev = rev_ref(nu, Qh, D1, FL, Fd, C)
    out['laminar'] = bool(Rev <= 10000)
    if (Rev > 10000 or not allow_laminar):
        if D1 == d and D2 == d:
            out['Kv'] = C
            return out
        for k in range(CONV + 1):
            FP = 1 / sqrt(1 + loss_ref(d, D1, D2) / N2 * (C / d**2)**2)
            xTP = xT / FP**2 / (1 + xT * loss_ref(d, D1) / N5 * (C / d**2)**2)
            ch = x >= Fg * xTP
            C2 = Qh / (N9 * FP * P1k * Y) * (MW * T * Z / (xTP * Fg if ch else x))**0.5
            done = C / C2 >= 0.99
            if k == CONV:
                ctx.assume(done)
            C = C2
            if done:
                break
        out['Kv'] = C
    elif Rev <= 10000:
        laminar(ctx, C, lambda Ci: rev_ref(nu, Qh, D1, FL, Fd, Ci), FL, d, out)
    return out


def report(ctx, f, v, ref):
    lam = ref.pop('laminar', False)
    if ctx.choice('full_output', [True, False]):
        code = f(full_output=True, **v)
        for k in ref:
            cmp(ctx, 'full_output[%s]' % k, code[k], ref[k])
        ctx.same('laminar flag', bool(code['laminar']), lam)
    else:
        ctx.close('Kv without full_output', f(**v), ref['Kv'])


def diam(ctx, fit):
    d = ctx.real('d', 0.005, 0.5)
    if fit == 'reducers':
        return d * ctx.real('r1', 1.01, 3.0), d * ctx.real('r2', 1.01, 3.0), d
    if fit == 'inlet smaller':
        return d * ctx.real('r1', 0.7, 0.99), d, d
    return d, d * ctx.real('r2', 1.01, 3.0), d


for _fit in ('reducers', 'inlet smaller', 'outlet'):
    def _h(ctx, _fit=_fit):
        P1 = ctx.real('P1', 2e5, 1e7)
        P2 = P1 * ctx.real('ratio', 0.1, 0.95)
        D1, D2, d = diam(ctx, _fit)
        v = dict(rho=ctx.real('rho', 500., 1500.), Psat=ctx.real('Psat', 1e2, 1e5), Pc=ctx.real('Pc', 2e6, 3e7), mu=ctx.real('mu', 1e-5, 1e2), P1=P1, P2=P2, Q=ctx.real('Q', 1e-5, 1.0),
                 FL=ctx.real('FL', .4, .98), Fd=ctx.real('Fd', .05, 1.), allow_choked=True, allow_laminar=False, D1=D1, D2=D2, d=d)
        report(ctx, V.size_control_valve_l, v, size_l(ctx, **v))

    def _g(ctx, _fit=_fit):
        P1 = ctx.real('P1', 2e5, 1e7)
        P2 = P1 * ctx.real('ratio', 0.02, 0.97)
        D1, D2, d = diam(ctx, _fit)
        v = dict(T=ctx.real('T', 200., 1000.), MW=ctx.real('MW', 2., 200.), mu=ctx.real('mu', 1e-6, 1e-3), gamma=ctx.real('gamma', 1.05, 1.67), Z=ctx.real('Z', .2, 1.5),
                 P1=P1, P2=P2, Q=ctx.real('Q', 1e-6, 10.0), FL=ctx.real('FL', .4, .98), Fd=ctx.real('Fd', .05, 1.), xT=ctx.real('xT', .2, .85),
                 allow_choked=True, allow_laminar=False, D1=D1, D2=D2, d=d)
        report(ctx, V.size_control_valve_g, v, size_g(ctx, **v))
    harness('P10', 'size_l[%s]' % _fit, domain='assume', light=True, timeout=80, tier='thorough', funcs='size_control_valve_l', max_paths=4000,
            bounds='every input symbolic, engineering range, reducers 0.7..3 diameter ratio, at most %d piping iterations' % CONV)(_h)
    harness('P10', 'size_g[%s]' % _fit, domain='assume', light=True, timeout=80, tier='thorough', funcs='size_control_valve_g', max_paths=4000,
            bounds='every input symbolic, engineering range, reducers 0.7..3 diameter ratio, at most %d piping iterations' % CONV)(_g)


def diams(c, D1, D2, d):
    s = c('d', d)
    s1 = s if D1 == d else c('D1', D1)
    return s1, s1 if D2 == D1 else s if D2 == d else c('D2', D2), s


# no fittings, or line-size valve: everything symbolic
for _fit in ('none', 'same'):
    for _al in (False,):
        def _h(ctx, _fit=_fit, _al=_al):
            P1 = ctx.real('P1', 2e5, 1e7)
            P2 = P1 * ctx.real('ratio', 0.1, 0.95)
            Psat, Pc = ctx.real('Psat', 1e2, 1e5), ctx.real('Pc', 2e6, 3e7)
            v = dict(rho=ctx.real('rho', 500., 1500.), Psat=Psat, Pc=Pc, mu=ctx.real('mu', 1e-5, 1e2), P1=P1, P2=P2, Q=ctx.real('Q', 1e-5, 1.0),
                     FL=ctx.real('FL', .4, .98), Fd=ctx.real('Fd', .05, 1.), allow_choked=ctx.choice('allow_choked', [True, False]), allow_laminar=_al)
            d = None if _fit == 'none' else ctx.real('d', 0.005, 0.5)
            v.update(D1=d, D2=d, d=d)
            report(ctx, V.size_control_valve_l, v, size_l(ctx, **v))

        def _g(ctx, _fit=_fit, _al=_al):
            P1 = ctx.real('P1', 2e5, 1e7)
            P2 = P1 * ctx.real('ratio', 0.02, 0.97)
            v = dict(T=ctx.real('T', 200., 1000.), MW=ctx.real('MW', 2., 200.), mu=ctx.real('mu', 1e-6, 1e-3), gamma=ctx.real('gamma', 1.05, 1.67), Z=ctx.real('Z', .2, 1.5),
                     P1=P1, P2=P2, Q=ctx.real('Q', 1e-6, 10.0), FL=ctx.real('FL', .4, .98), Fd=ctx.real('Fd', .05, 1.), xT=ctx.real('xT', .2, .85),
                     allow_choked=ctx.choice('allow_choked', [True, False]), allow_laminar=_al)
            d = None if _fit == 'none' else ctx.real('d', 0.005, 0.5)
            v.update(D1=d, D2=d, d=d)
            report(ctx, V.size_control_valve_g, v, size_g(ctx, **v))
        if True:
            harness('P10', 'size_l[%s]' % _fit, domain='assume', timeout=60, funcs='size_control_valve_l', bounds='every input symbolic, engineering range, turbulent')(_h)
            harness('P10', 'size_g[%s]' % _fit, domain='assume', timeout=60, funcs='size_control_valve_g', bounds='every input symbolic, engineering range, turbulent')(_g)

# valve, line and trim given by a case table; pressures, flow and viscosity symbolic
CASES = [(0.08, 0.1, 0.08, 0.9, 0.46, 0.7), (0.1, 0.1, 0.05, 0.6, 0.98, 0.42), (0.15, 0.2, 0.15, 0.85, 0.42, 0.6), (0.08, 0.08, 0.1, 0.7, 0.3, 0.5), (0.1, 0.1, 0.1, 0.8, 0.5, 0.55), (0.015, 0.015, 0.015, 0.95, 0.42, 0.65)]
for _i, (_D1, _D2, _d, _FL, _Fd, _xT) in enumerate(CASES):
    for _lam in (False, True):
        def _h(ctx, D1=_D1, D2=_D2, d=_d, FL=_FL, Fd=_Fd, lam=_lam):
            c = lambda n, x: ctx.real(n, x, x)      # a given number, computed with exactly
            P1, FL, Fd = c('P1', 1e6), c('FL', FL), c('Fd', Fd)
            D1, D2, d = diams(c, D1, D2, d)
            P2 = P1 * ctx.real('ratio', 0.1, 0.95)
            v = dict(rho=c('rho', 960.0), Psat=c('Psat', 7e4), Pc=c('Pc', 2.2e7), mu=ctx.real('mu', 1e-2, 1e2) if lam else c('mu', 1e-6), P1=P1, P2=P2, Q=d**2 * ctx.real('Q', 1e-3, 5.0), FL=FL, Fd=Fd,
                     D1=D1, D2=D2, d=d, allow_choked=lam or ctx.choice('allow_choked', [True, False]), allow_laminar=lam)
            report(ctx, V.size_control_valve_l, v, size_l(ctx, **v))

        def _g(ctx, D1=_D1, D2=_D2, d=_d, FL=_FL, Fd=_Fd, xT=_xT, lam=_lam):
            c = lambda n, x: ctx.real(n, x, x)      # a given number, computed with exactly
            P1, FL, Fd = c('P1', 1e6), c('FL', FL), c('Fd', Fd)
            D1, D2, d = diams(c, D1, D2, d)
            P2 = P1 * ctx.real('ratio', 0.05, 0.95)
            v = dict(T=c('T', 433.0), MW=c('MW', 44.0), mu=ctx.real('mu', 1e-4, 1e-1) if lam else c('mu', 1.5e-5), gamma=c('gamma', 1.3), Z=c('Z', 0.99), P1=P1, P2=P2, Q=d**2 * ctx.real('Q', 0.1, 500.0), FL=FL, Fd=Fd, xT=c('xT', xT),
                     D1=D1, D2=D2, d=d, allow_choked=lam or ctx.choice('allow_choked', [True, False]), allow_laminar=lam)
            report(ctx, V.size_control_valve_g, v, size_g(ctx, **v))
        harness('P10', 'size_l[case %d,%s]' % (_i, 'viscous' if _lam else 'inviscid'), domain='assume', light=True, timeout=130, tier='thorough' if _lam and _i in (2, 3, 4) else 'quick', funcs='size_control_valve_l', max_paths=4000,
                bounds='case table of valves, pressure ratio, flow and viscosity symbolic, at most %d piping iterations' % CONV)(_h)
        harness('P10', 'size_g[case %d,%s]' % (_i, 'viscous' if _lam else 'inviscid'), domain='assume', light=True, timeout=130, tier='thorough' if _lam and _i in (2, 3, 4) else 'quick', funcs='size_control_valve_g', max_paths=4000,
                bounds='case table of valves, pressure ratio, flow and viscosity symbolic, at most %d piping iterations' % CONV)(_g)


@harness('P10', funcs='size_control_valve_l / _g (partial diameters)')
def partial_diameters(ctx):
    n = ctx.choice('given', [1, 2, 3, 4, 5, 6])
    D = ctx.real('D', 0.01, 1.0)
    kw = dict(D1=D if n & 1 else None, D2=D if n & 2 else None, d=D if n & 4 else None)
    P1 = ctx.real('P1', 2e5, 1e7)
    ctx.raises('liquid: all three diameters or none', V.size_control_valve_l, rho=1000.0, Psat=1e3, Pc=2e7, mu=1e-3, P1=P1, P2=P1 * 0.5, Q=0.1, **kw)
    ctx.raises('gas: all three diameters or none', V.size_control_valve_g, T=300.0, MW=28.0, mu=1e-5, gamma=1.4, Z=1.0, P1=P1, P2=P1 * 0.5, Q=0.1, **kw)


@harness('P10', funcs='size_control_valve_l (no convergence)', timeout=60)
def no_convergence(ctx):
    """a valve too small for the flow: the piping iteration diverges; a value (with a warning) is still returned"""
    Q = ctx.real('Q', 0.09, 0.11)
    kw = dict(rho=965.4, Psat=70.1E3, Pc=22120E3, mu=3.1472E-4, P1=680E3, P2=220E3, Q=Q, D1=0.1, D2=0.1, d=0.03, FL=0.6, Fd=0.98)
    a, e = ctx.attempt(V.size_control_valve_l, full_output=True, **kw)
    ctx.same('full output returned', e, None)
    b, e = ctx.attempt(V.size_control_valve_l, **kw)
    ctx.same('size_control_valve_l returns without full_output', e, None)
    ctx.true('warned', 'warning' in a)


@harness('P10', funcs='convert_flow_coefficient', bounds='coefficient in [1e-6, 1e6], every pair of scales')
def convert(ctx):
    x = ctx.real('x', 1e-6, 1e6)
    a, b, c = ctx.choice('from', ['Kv', 'Cv', 'Av']), ctx.choice('to', ['Kv', 'Cv', 'Av']), ctx.choice('via', ['Kv', 'Cv', 'Av'])
    y = V.convert_flow_coefficient(x, a, b)
    ctx.close('there and back', V.convert_flow_coefficient(y, b, a), x)
    ctx.close('through a third scale', V.convert_flow_coefficient(V.convert_flow_coefficient(x, a, c), c, b), y)
    # the same flow of water at 1 psi: Q[m3/s] = Av sqrt(dP/rho) = Cv gal/min at 1 psi
    gal_min, psi = 231 * 0.0254**3 / 60, 0.45359237 * 9.80665 / 0.0254**2
    Cv = V.convert_flow_coefficient(x, a, 'Cv')
    ctx.close('Av and Cv give the same flow', V.convert_flow_coefficient(x, a, 'Av') * sqrt(psi / RHO0), Cv * gal_min)
    ctx.close('Kv and Cv', V.convert_flow_coefficient(x, a, 'Kv') * 1.1560992283536566, Cv)
    ctx.raises('unknown source', V.convert_flow_coefficient, x, 'bad', b, exc=('NotImplementedError', 'ValueError'))
    ctx.raises('unknown target', V.convert_flow_coefficient, x, a, 'bad', exc=('NotImplementedError', 'ValueError'))


@harness('P10', funcs='Cv_char_linear', bounds='opening in [0, 1]')
def char_linear(ctx):
    x = ctx.real('opening', 0.0, 1.0)
    ctx.close('linear characteristic', V.Cv_char_linear(x), x)


# ----------------------------------------------------------------- noise
FI = [12.5, 16, 20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000]
AW = [-63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5, -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -0.8, 0, 0.6, 1.0, 1.2, 1.3, 1.2, 1.0, 0.5, -0.1, -1.1, -2.5, -4.3, -6.6, -9.3]


def noise_l(m, P1, P2, Psat, rho, c, Kv, d, Di, FL, Fd, t_pipe, rho_pipe=7800.0, c_pipe=5000.0, rho_air=1.2, c_air=343.0, xFz=None, An=-4.6, tab=(FI, AW)):
    N14, N34 = 0.0046, 1.17
    C = Kv * 1.1560992283536566
    xF = (P1 - P2) / (P1 - Psat)
    a, b = P1 - P2, FL**2 * (P1 - Psat)
    dPc = min(a, b)
    if xFz is None:
        xFz = 0.9 / (1 + 3 * Fd * (C / (N34 * FL))**0.5)**0.5
    xz = xFz * (6e5 / P1)**0.125
    Dj = N14 * Fd * (C * FL)**0.5
    Uvc = (2 * dPc / rho)**0.5 / FL
    Wm = m * Uvc**2 * FL**2 / 2
    cav = bool(xF > xz)
    et = 10**An * Uvc / c
    ec = 0.0
    if cav:
        ec = 0.32 * et * ((P1 - P2) / dPc / xz)**0.5 * exp(5 * xz) * ((1 - xz) / (1 - xF))**0.5 * (xF / xz)**5 * (xF - xz) * (xF - xz)**0.5
    Wa = (et + ec) * Wm
    Lpi = 10 * log10(3.2e9 * Wa * rho * c / Di**2)
    St = 0.036 * FL**2 * C * Fd**0.75 / (N34 * xz**1.5 * d**2) / (P1 - Psat)**0.57
    ft = St * Uvc / Dj
    fr = c_pipe / (pi * Di)
    TLfr = -10 - 10 * log10(c_pipe * rho_pipe * t_pipe / (c_air * rho_air * Di))
    s = 0.0
    for f, A in zip(*tab):
        f = float(f)
        Ft = -8 - 10 * log10((f / ft)**3 / 4 + ft / f)
        if cav:
            fc = 6 * ft * ((1 - xF) / (1 - xz))**2 * (xz / xF)**2.5
            Fc = -9 - 10 * log10((f / fc)**1.5 / 4 + (fc / f)**1.5)
            Lf = Lpi + 10 * log10(et / (et + ec) * 10**(Ft / 10) + ec / (et + ec) * 10**(Fc / 10))
        else:
            Lf = Lpi + Ft
        TL = TLfr - 20 * log10(fr / f + (f / fr)**1.5)
        Le = Lf + TL - 10 * log10((Di + 2 * t_pipe + 2) / (Di + 2 * t_pipe))
        s = s + 10**((Le + A) / 10)
    return 10 * log10(s)


class Bands:
    def __init__(self, idx):
        self.idx = idx

    def __enter__(self):
        self.tabs = {k: x for k, x in vars(V).items() if type(x) in (list, tuple) and len(x) == 33}
        for k, x in self.tabs.items():
            setattr(V, k, [x[i] for i in self.idx])
        self.n = {k: x for k, x in vars(V).items() if type(x) is int and x == 33}
        for k in self.n:
            setattr(V, k, len(self.idx))
        return [FI[i] for i in self.idx], [AW[i] for i in self.idx]

    def __exit__(self, *a):
        for k, x in list(self.tabs.items()) + list(self.n.items()):
            setattr(V, k, x)


NL = dict(m=(0.1, 100.), P1=(2e5, 5e6), xF=(.02, .96), a=(.6, .999), rho=(700., 1200.), c=(800., 1600.), Kv=(5., 500.), d=(0.02, 0.3), Di=(0.02, 0.5), FL=(.6, .98), Fd=(.05, .9), t_pipe=(.002, .02))
for _nm, _kw in (('default', {}), ('xFz', dict(xFz=(.1, .5), An=(-5., -4.), rho_pipe=(2e3, 9e3), c_pipe=(2e3, 6e3), rho_air=(1., 1.4), c_air=(300., 360.)))):
    def _h(ctx, _kw=_kw):
        v = {k: ctx.real(k, *r) for k, r in dict(NL, **_kw).items()}
        a = v.pop('a') * v['P1']                # P1 - Psat
        v.update(P2=v['P1'] - v.pop('xF') * a, Psat=v['P1'] - a)
        a, ea = ctx.attempt(V.control_valve_noise_l_2015, **v)
        r, er = ctx.attempt(noise_l, **v)
        ctx.same('defined where the standard is', ea, er)
        if er is None:
            ctx.close('IEC 60534-8-4 (2015) level', a, r)
    harness('P10', 'noise_l[%s]' % _nm, domain='assume', light=True, timeout=60, funcs='control_valve_noise_l_2015',
            bounds='all inputs in engineering range, cavitating or not, all 33 octave bands')(_h)


def noise_g(m, P1, P2, T1, rho, gamma, MW, Kv, d, Di, t_pipe, Fd, FL=None, FLP=None, FP=None, rho_pipe=7800.0, c_pipe=5000.0, P_air=101325.0, rho_air=1.2, c_air=343.0, An=-3.8, Stp=0.2, T2=None, beta=0.93, tab=(FI, AW)):
    k = gamma
    C = Kv * 1.1560992283536566
    T2 = T1 if T2 is None else T2
    x = (P1 - P2) / P1
    F = FL if FP is None or FLP is None else FLP / FP
    xvcc = 1 - (2 / (k + 1))**(k / (k - 1))
    xc = F**2 * xvcc
    al = (1 - xvcc) / (1 - xc)
    xB = 1 - 1 / al * (1 / k)**(k / (k - 1))
    xCE = 1 - 1 / (22 * al)
    Dj = 0.0046 * Fd * (C * F)**0.5
    cvcc = (2 * k * P1 / ((k + 1) * rho))**0.5
    Mj5 = (2 / (k - 1) * (22**((k - 1) / k) - 1))**0.5
    if x <= xc:
        Mvc = sqrt(2 / (k - 1) * ((1 - x / F**2)**((1 - k) / k) - 1))
        cvc = sqrt(k * P1 / rho * (1 - x / F**2)**((k - 1) / k))
        Wm = m * (Mvc * cvc)**2 / 2
        fp = Stp * Mvc * cvc / Dj
        eta = 10**An * F**2 * Mvc**3
    else:
        Wm = m * cvcc**2 / 2
        Mj = Mj5
        II, III, IV = bool(x <= xvcc), False, False
        if not II:
            III = bool(x <= xB)
            if not III:
                IV = bool(x <= xCE)
        if II or III or IV:
            Mj = min(sqrt(2 / (k - 1) * ((1 / (al * (1 - x)))**((k - 1) / k) - 1)), Mj5)
        if II or III:
            fp = Stp * Mj * cvcc / Dj
            eta = 10**An * (x / xvcc if II else 1) * Mj**(6.6 * F**2)
        else:
            fp = 1.4 * Stp * cvcc / Dj / sqrt(Mj * Mj - 1)
            eta = 10**An * Mj * Mj / 2 * sqrt(2)**(6.6 * F**2)
    Wa = eta * Wm
    rho2 = rho * P2 / P1
    c2 = (k * R * T2 / (MW / 1000))**0.5
    M2 = 4 * m / (pi * Di**2 * rho2 * c2)
    Lg = -16 * log10(1 - (0.3 if M2 > 0.3 else M2))
    Lpi = 10 * log10(3.2e9 * Wa * rho2 * c2 / Di**2) + Lg
    fast = bool(M2 > 0.3)
    if fast:
        Up = 4 * m / (pi * rho2 * Di**2)
        UR = Up * Di**2 / (beta * d**2)
        WmR = m * UR**2 / 2 * ((1 - d**2 / Di**2)**2 + 0.2)
        fpR = Stp * UR / d
        LpR = 10 * log10(3.2e9 * 10**An * (UR / c2)**3 * WmR * rho2 * c2 / Di**2) + Lg
    fr = c_pipe / (pi * Di)
    fo = fr / 4 * c2 / c_air
    fg = 3**0.5 * c_air**2 / (pi * t_pipe * c_pipe)
    dTL = 0.0 if d > 0.15 else 9.0 if d < 0.05 else -16660 * d**3 + 6370 * d**2 - 813 * d + 35.8
    s = 0.0
    for f, A in zip(*tab):
        f = float(f)
        Lf = Lpi - 8 - 10 * log10((1 + (f / (2 * fp))**2.5) * (1 + (fp / (2 * f))**1.7))
        if fast:
            LR = LpR - 8 - 10 * log10((1 + (f / (2 * fpR))**2.5) * (1 + (fpR / (2 * f))**1.7))
            Lf = 10 * log10(10**(Lf / 10) + 10**(LR / 10))
        if f < fo:
            Gx = (fo / fr)**(2 / 3.) * (f / fo)**4
            Gy = fo / fg if fo < fg else 1.0
        else:
            Gx = (f / fr)**0.5 if f < fr else 1.0
            Gy = f / fg if f < fg else 1.0
        es = (0.01 / f)**0.5
        TL = 10 * log10(8.25e-7 * (c2 / (t_pipe * f))**2 * Gx / ((rho2 * c2 + 2 * pi * t_pipe * f * rho_pipe * es) / (415 * Gy) + 1) * (P_air / 101325.)) - dTL
        Le = Lf + TL - 10 * log10((Di + 2 * t_pipe + 2) / (Di + 2 * t_pipe))
        s = s + 10**((Le + A) / 10)
    return 10 * log10(s)


for _k, _b in enumerate([[0], [12], [20], [32], [4], [8], [16], [24], [28], [0, 1], [19, 30]]):
    for _fl in ('FL', 'FLP/FP'):
        if (_fl == 'FL') == (_k in (1, 6)):
            continue

        def _h(ctx, _b=_b, _fl=_fl):
            v = dict(m=ctx.real('m', .05, 50.), P1=ctx.real('P1', 3e5, 5e6), rho=ctx.real('rho', 1., 50.), Kv=ctx.real('Kv', 5., 500.),
                     d=ctx.real('d', .02, .3), Fd=ctx.real('Fd', .05, 1.), T1=ctx.real('T1', 200., 800.), MW=ctx.real('MW', 2., 100.), Di=ctx.real('Di', .02, .6), t_pipe=ctx.real('t_pipe', .002, .03),
                     gamma=ctx.real('gamma', 1.05, 1.66), Stp=ctx.real('Stp', .1, .4), An=ctx.real('An', -4.8, -3.))
            v['P2'] = v['P1'] - ctx.real('x', .02, .99) * v['P1']
            if _fl == 'FL':
                v['FL'] = ctx.real('FL', .5, .95)
            else:
                v.update(FL=None, FLP=ctx.real('FLP', .4, .9), FP=ctx.real('FP', .91, 1.), T2=ctx.real('T2', 200., 800.), beta=ctx.real('beta', .8, 1.), P_air=ctx.real('P_air', 8e4, 1.1e5),
                         rho_pipe=ctx.real('rho_pipe', 2e3, 9e3), c_pipe=ctx.real('c_pipe', 2e3, 6e3), c_air=ctx.real('c_air', 300., 360.))
            with Bands(_b) as tab:
                a, ea = ctx.attempt(V.control_valve_noise_g_2011, **v)
            r, er = ctx.attempt(noise_g, tab=tab, **v)
            ctx.same('defined where the standard is', ea, er)
            if er is None:
                ctx.close('IEC 60534-8-3 (2011) level', a, r)
        harness('P10', 'noise_g[%s,bands %s]' % (_fl, _b), domain='assume', light=True, timeout=150, tier='quick' if _k < 4 else 'thorough', funcs='control_valve_noise_g_2011',
                bounds='all inputs in engineering range, every regime; octave-band table cut to the bands named')(_h)


@harness('P10', funcs='control_valve_noise_g_2011 (missing recovery factor)')
def noise_g_missing(ctx):
    v = dict(m=ctx.real('m', .05, 50.), P1=1e6, P2=5e5, rho=5., Kv=50., d=.1, Fd=.3, T1=300., MW=20., Di=.1, t_pipe=.01, gamma=1.3)
    f = ctx.choice('given', [dict(FL=None), dict(FL=None, FP=0.9), dict(FL=None, FLP=0.8)])
    ctx.raises('needs FL, or both FLP and FP', V.control_valve_noise_g_2011, **dict(v, **f))

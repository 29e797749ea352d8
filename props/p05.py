"""P05: sphere drag coefficients, method selection and terminal velocity."""
from math import exp, log10, sqrt, tanh, log
from symx.harness import harness
from symx.formula import same_formula
import fluids.drag as D
from fluids.constants import g

META = dict(
    title='Sphere drag: documented formulas, method selection, terminal velocity',
    statement='Each sphere drag correlation returns its documented formula at every Reynolds number, including every regime boundary of the piecewise ones; the dispatcher returns exactly the correlation asked for, by default the documented Stokes / blend / Barati / Barati_high choice, and the list of methods contains exactly those whose documented range contains Re. '
              'The terminal velocity returned balances weight, buoyancy and drag with the correlation asked for, and the time, velocity and distance of laminar settling satisfy the equation of motion.',
    over=['inputs', 'configurations'],
    text='all Re in [1e-4, 1e7], all particle and fluid properties in the stated boxes, all 21 method names and no method',
    why='tests sample a handful of Reynolds numbers per correlation and one terminal velocity; regime boundaries, the blend interval and method pass-through are not sampled',
    files=['fluids/drag.py'],
    mech=['drag_sphere dispatch', 'drag_sphere_methods range table', 'v_terminal', 'integrate_drag_sphere', 'time_v_terminal_Stokes'],
)


def morsi(Re):
    tab = [(0.1, 0.0, 24.0, 0.0), (1., 3.69, 22.73, 0.0903), (10., 1.222, 29.1667, -3.8889), (100., 0.6167, 46.5, -116.67),
           (1000., 0.3644, 98.33, -2778.), (5000., 0.357, 148.62, -47500.), (10000., 0.46, -490.546, 578700.)]
    for lim, a, b, c in tab:
        if Re < lim:
            return a + b / Re + c / Re**2
    return 0.5191 - 1662.5 / Re + 5.4167e6 / Re**2


def clift(Re):
    w = log10(Re)
    if Re < 0.01:
        return 24. / Re + 0.1875
    if Re < 20:
        return 24. / Re * (1 + 0.1315 * Re**(0.82 - 0.05 * w))
    if Re < 260:
        return 24. / Re * (1 + 0.1935 * Re**0.6305)
    if Re < 1500:
        return 10**(1.6435 - 1.1242 * w + 0.1558 * w**2)
    if Re < 12000:
        return 10**(-2.4571 + 2.5558 * w - 0.9295 * w**2 + 0.1049 * w**3)
    if Re < 44000:
        return 10**(-1.9181 + 0.637 * w - 0.0636 * w**2)
    if Re < 338000:
        return 10**(-4.339 + 1.5809 * w - 0.1546 * w**2)
    if Re < 400000:
        return 29.78 - 5.3 * w
    return 0.19 * w - 0.49


def barati_high(Re):
    if Re > 1e6:
        Re = 1e6
    return (8e-6 * ((Re / 6530.)**2 + tanh(Re) - 8 * log10(Re)) - 0.4119 * exp(-2.08e43 / (Re + Re**2)**4)
            - 2.1344 * exp(-(log10(Re**2 + 10.7563)**2 + 9.9867) / Re) + 0.1357 * exp(-((Re / 1620.)**2 + 10370.) / Re)
            - 8.5e-3 * (2 * log10(tanh(tanh(Re))) - 2825.7162) / Re + 2.4795)


REF = {
    'Stokes': lambda Re: 24 / Re,
    'Barati': lambda Re: 5.4856e9 * tanh(4.3774e-9 / Re) + 0.0709 * tanh(700.6574 / Re) + 0.3894 * tanh(74.1539 / Re) - 0.1198 * tanh(7429.0843 / Re) + 1.7174 * tanh(9.9851 / (Re + 2.3384)) + 0.4744,
    'Barati_high': barati_high,
    'Rouse': lambda Re: 24 / Re + 3 / Re**0.5 + 0.34,
    'Engelund_Hansen': lambda Re: 24 / Re + 1.5,
    'Clift_Gauvin': lambda Re: 24 / Re * (1 + 0.152 * Re**0.677) + 0.417 / (1 + 5070 * Re**-0.94),
    'Morsi_Alexander': morsi,
    'Graf': lambda Re: 24 / Re + 7.3 / (1 + Re**0.5) + 0.25,
    'Flemmer_Banks': lambda Re: 24 / Re * 10**(0.383 * Re**0.356 - 0.207 * Re**0.396 - 0.143 / (1 + log10(Re)**2)),
    'Khan_Richardson': lambda Re: (2.49 * Re**-0.328 + 0.34 * Re**0.067)**3.18,
    'Swamee_Ojha': lambda Re: 0.5 * (16 * ((24 / Re)**1.6 + (130 / Re)**0.72)**2.5 + ((40000 / Re)**2 + 1)**-0.25)**0.25,
    'Yen': lambda Re: 24 / Re * (1 + 0.15 * Re**0.5 + 0.017 * Re) - 0.208 / (1 + 1e4 * Re**-0.5),
    'Haider_Levenspiel': lambda Re: 24 / Re * (1 + 0.1806 * Re**0.6459) + 0.4251 / (1 + 6880.95 / Re),
    'Cheng': lambda Re: 24 / Re * (1 + 0.27 * Re)**0.43 + 0.47 * (1 - exp(-0.04 * Re**0.38)),
    'Terfous': lambda Re: 2.689 + 21.683 / Re + 0.131 / Re**2 - 10.616 / Re**0.1 + 12.216 / Re**0.2,
    'Mikhailov_Freire': lambda Re: 3808 * (1617933. / 2030 + 178861. / 1063 * Re + 1219. / 1084 * Re**2) / (681 * Re * (77531. / 422 + 13529. / 976 * Re - Re**2 / 71154.)),
    'Clift': clift,
    'Ceylan': lambda Re: 1 - 0.5 * exp(0.182) + 10.11 * Re**(-2 / 3.) * exp(0.952 * Re**-0.25) - 0.03859 * Re**(-4 / 3.) * exp(1.3 * Re**-0.5) + 0.037e-4 * Re * exp(-0.125e-4 * Re) - 0.116e-10 * Re**2 * exp(-0.444e-5 * Re),
    'Almedeij': lambda Re: (1 / (1 / ((24 / Re)**10 + (21 * Re**-0.67)**10 + (4 * Re**-0.33)**10 + 0.4**10 + 1 / ((0.148 * Re**0.11)**-10 + 0.5**-10)) + (1.57e8 * Re**-1.625)**-10) + 1 / ((6e-17 * Re**2.63)**-10 + 0.2**-10))**0.1,
    'Morrison': lambda Re: 24 / Re + 2.6 * Re / 5 / (1 + (Re / 5)**1.52) + 0.411 * (Re / 263000)**-7.94 / (1 + (Re / 263000)**-8) + Re**0.8 / 461000,
    'Song_Xu': lambda Re: 24 / Re * (1 + 0.35 * Re)**0.44,
}
# documented upper / lower limits of Re
RANGE = {'Stokes': (None, 0.3), 'Barati': (None, 2e5), 'Barati_high': (None, 1e6), 'Swamee_Ojha': (None, 1.5e5), 'Terfous': (0.1, 5e4),
         'Mikhailov_Freire': (None, 118300.), 'Clift': (None, 1e6), 'Ceylan': (0.1, 1e6), 'Almedeij': (None, 1e6), 'Morrison': (None, 1e6),
         'Song_Xu': (None, 1e3)}

for _n, _r in REF.items():
    same_formula('P05', getattr(D, _n), _r, {'Re': (1e-4, 1.2e5 if _n == 'Mikhailov_Freire' else 1e7)}, name=_n)
same_formula('P05', D.Song_Xu, lambda Re, sphericity, S: 24 / (Re * sphericity**0.65 * S**0.3) * (1 + 0.35 * Re)**0.44,
             {'Re': (1e-4, 1e7), 'sphericity': (0.05, 1.0), 'S': (0.05, 1.0)}, name='Song_Xu_shape')


@harness('P05', funcs='drag_sphere and every correlation', bounds='Re in [1e-4, 1e7], every method', timeout=120)
def dispatch(ctx):
    Re = ctx.real('Re', 1e-4, 1e7)
    m = ctx.choice('method', sorted(REF))
    if m == 'Mikhailov_Freire':
        ctx.assume(Re < 1.2e5)      # its denominator vanishes near 9.9e5, far outside its range
    ctx.close('drag_sphere(%s) is that correlation' % m, D.drag_sphere(Re, Method=m), REF[m](Re))


@harness('P05', funcs='drag_sphere', bounds='Re in [1e-4, 1e7]')
def default(ctx):
    Re = ctx.real('Re', 1e-4, 1e7)
    Cd = D.drag_sphere(Re)
    if Re < 0.01:
        ctx.close('Stokes below 0.01', Cd, 24 / Re)
    elif Re < 0.1:
        x = (Re - 0.01) / 0.09
        ctx.close('linear blend up to 0.1', Cd, x * REF['Barati'](Re) + (1 - x) * 24 / Re)
    elif Re <= 212963.26847812787:
        ctx.close('Barati', Cd, REF['Barati'](Re))
    else:
        ctx.close('Barati high', Cd, REF['Barati_high'](Re))
    ctx.raises('unknown method rejected', D.drag_sphere, Re, Method='no such method')


@harness('P05', funcs='drag_sphere', bounds='Re within 1e-6 relative of the regime boundaries')
def continuity(ctx):
    b = ctx.choice('boundary', [0.01, 0.1, 212963.26847812787])
    e1, e2 = ctx.real('e1', 0.0, 1e-7), ctx.real('e2', 0.0, 1e-7)
    ctx.close('no jump at %g' % b, D.drag_sphere(b * (1 - e1)), D.drag_sphere(b * (1 + e2)), rtol=2e-6, prove_tol='1/1000000')


@harness('P05', funcs='drag_sphere_methods', bounds='Re in [1e-4, 1e7]', timeout=120)
def methods(ctx):
    Re = ctx.real('Re', 1e-4, 1e7)
    got = D.drag_sphere_methods(Re)
    want = []
    for n in REF:
        lo, hi = RANGE.get(n, (None, 2e5))
        if (lo is None or Re > lo) and (hi is None or Re < hi):
            want.append(n)
    ctx.same('methods offered at this Re', sorted(got), sorted(want))
    ctx.same('all methods without range check', sorted(D.drag_sphere_methods(Re, check_ranges=False)), sorted(REF))


def props(ctx, m=''):
    # default method: kept below the Barati_high regime (Re < 2e5)
    Dp = ctx.real('D', 1e-6, 0.5 if m is not None else 1e-3)
    rho = ctx.real('rho', 0.1, 2e3)
    rhop = rho + ctx.real('drho', 0.1, 1e4)
    mu = ctx.real('mu', 1e-6 if m is not None else 1e-3, 10.)
    return Dp, rhop, rho, mu


def balance(ctx, m):
    Dp, rhop, rho, mu = props(ctx, m)
    V = D.v_terminal(Dp, rhop, rho, mu, Method=m)
    vl = g * Dp**2 * (rhop - rho) / (18 * mu)
    if m == 'Stokes' or rho * vl * Dp / mu < 0.01:
        ctx.close('laminar terminal velocity', V, vl)
    else:
        Cd = D.drag_sphere(rho * V * Dp / mu, Method=m)
        ctx.close('drag balances weight', V, sqrt(4 * g * Dp * (rhop - rho) / (3 * Cd * rho)), rtol=1e-5)


@harness('P05', funcs='v_terminal', stub=True, roots=(1e-9, 1e6), mp=False, bounds='D in [1e-6, .5], densities, viscosities', timeout=120)
def terminal(ctx):
    balance(ctx, ctx.choice('method', ['Stokes', 'Rouse', 'Barati', 'Song_Xu', 'Graf', 'Morsi_Alexander', 'Yen']))


@harness('P05', funcs='v_terminal', stub=True, roots=(1e-9, 100.), mp=False, bounds='D in [1e-6, 1e-3], densities, viscosities', timeout=120)
def terminal_default(ctx):
    balance(ctx, None)


@harness('P05', funcs='integrate_drag_sphere (laminar analytic solution)', bounds='laminar settling, t in [0, 100] time constants')
def laminar_motion(ctx):
    Dp, rhop, rho, mu = props(ctx)
    V0 = ctx.real('V0', 0.0, 50.0)
    a = 18 * mu / (Dp**2 * rhop)
    b = g * (rhop - rho) / rhop
    tau = ctx.real('tau', 0.0, 100.)
    t = tau / a
    V, x = D.integrate_drag_sphere(Dp, rhop, rho, mu, t, V=V0, Method='Stokes', distance=True)
    vt = b / a
    ctx.close('velocity', V, vt + (V0 - vt) * exp(-tau))
    # momentum balance integrated once:  V - V0 = b t - a x
    ctx.close('momentum balance', x, (b * t - (V - V0)) / a, atol=1e-9)
    ctx.close('same velocity without distance', D.integrate_drag_sphere(Dp, rhop, rho, mu, t, V=V0, Method='Stokes'), V)


@harness('P05', funcs='integrate_drag_sphere (default method, laminar)', stub=True, roots=(1e-9, 1e6), mp=False)
def laminar_motion_default(ctx):
    Dp, rhop, rho, mu = props(ctx)
    vl = g * Dp**2 * (rhop - rho) / (18 * mu)
    ctx.assume(rho * vl * Dp / mu < 0.009)
    V0 = ctx.real('V0', 0.0, 1.0)
    ctx.assume(rho * V0 * Dp / mu < 0.009)
    a = 18 * mu / (Dp**2 * rhop)
    tau = ctx.real('tau', 0.0, 100.)
    V = D.integrate_drag_sphere(Dp, rhop, rho, mu, tau / a, V=V0)
    ctx.close('velocity', V, vl + (V0 - vl) * exp(-tau))


@harness('P05', funcs='integrate_drag_sphere (equation handed to the ODE integrator)', stub=True, roots=(1e-9, 100.), mp=False, bounds='turbulent settling; the integrator is replaced by a recorder')
def turbulent_motion(ctx):
    import scipy.integrate as si
    m = ctx.choice('method', [None, 'Rouse', 'Graf', 'Song_Xu'])
    Dp, rhop, rho, mu = props(ctx, m)
    V0 = ctx.real('V0', 0.0, 100.0)
    ctx.assume(rho * V0 * Dp / mu > 0.011)
    rec = []

    def odeint(f, y0, ts, *a, **k):
        rec.append((f, y0, ts))
        return [[1.0], [2.0]]
    old = si.odeint
    si.odeint = odeint
    try:
        r = D.integrate_drag_sphere(Dp, rhop, rho, mu, 3.0, V=V0, Method=m)
    finally:
        si.odeint = old
    if not rec:
        return ctx.fail('integrates the equation of motion', 'no integration')
    f, y0, ts = rec[0]
    ctx.close('initial velocity', y0[0], V0)
    ctx.close('start time', float(ts[0]), 0.0)
    ctx.close('end time', float(ts[-1]), 3.0)
    ctx.close('returns the final velocity', r, 2.0)
    V = ctx.real('V', 1e-3, 100.)
    Cd = D.drag_sphere(rho * V * Dp / mu, Method=m)
    ctx.close('acceleration', f([V], 0.0), g * (rhop - rho) / rhop - 0.75 * Cd * rho * V**2 / (Dp * rhop))
    ctx.close('acceleration from rest', f([0.0], 0.0), g * (rhop - rho) / rhop)


@harness('P05', funcs='time_v_terminal_Stokes')
def stokes_time(ctx):
    Dp, rhop, rho, mu = props(ctx)
    vt = g * Dp**2 * (rhop - rho) / (18 * mu)
    up = ctx.choice('from', ['above', 'below'])
    V0 = vt * (ctx.real('x', 1.01, 100.) if up == 'above' else ctx.real('x', 0.0, 0.99))
    tol = ctx.real('tol', 1e-9, 1e-3)
    t = D.time_v_terminal_Stokes(Dp, rhop, rho, mu, V0, tol=tol)
    V = D.integrate_drag_sphere(Dp, rhop, rho, mu, t, V=V0, Method='Stokes')
    ctx.close('velocity after that time is within tol of terminal', V, vt * (1 + tol if up == 'above' else 1 - tol))
    ctx.true('time is positive', t > 0)

"""P21: mixing, and loss coefficients of screens, meshes and grills."""
import json
import os
from math import cos, log, pi, sqrt

from symx.harness import harness
from symx.formula import lin, same_formula, spline
import fluids.mixing as M
import fluids.filters as F

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
T = TAB['filters']
G0 = 9.80665

META = dict(
    title='Mixing and screen loss formulas hold, with their regimes and limits',
    statement='agitator_time_homogeneous returns the documented mixing time (turbulent regime from Np^(1/3) Re = 6370, transition below; impeller of half the tank diameter when not given; scaled by ln(1-f)/ln(0.05) for another homogeneity f), Kp_helical_ribbon_Rieger, time_helical_ribbon_Grenville, K_motionless_mixer and COV_motionless_mixer their documented formulas, and size_tee the published coefficient of variation for 1 to 4 side streams, continuous at the limit of its two regimes and ValueError for any other number of streams. '
              'round_edge_screen and square_edge_screen interpolate their published tables linearly and hold the end values outside; round_edge_open_mesh follows the formula of each of its four patterns and rejects any other; an inclined screen or mesh is scaled by cos^2 up to 45 degrees and by the table beyond; square_edge_grill and round_edge_grill return the documented loss, with the friction term exactly when l, Dh and fd are all given and l > 50 Dh. '
              'A more open screen, mesh or grill never has a larger loss coefficient.',
    over=['inputs'],
    text='alpha 0.01 to 1 (0.3 to 0.7 for the rounded grill), Re 1 to 1e5, angle 0 to 90 degrees, l/Dh 0.1 to 1000, fd 0.001 to 0.2; n 1 to 4 streams, B 0.001 to 1000; tank and impeller sizes 0.05 to 20 m; points where two regimes meet are excluded',
    why='tests sample one point per function; size_tee was only tested below its regime limit',
    files=['fluids/mixing.py', 'fluids/filters.py'],
    mech=['agitator_time_homogeneous', 'size_tee', 'COV_motionless_mixer, K_motionless_mixer, StatixMixers', 'Kp_helical_ribbon_Rieger, time_helical_ribbon_Grenville', 'round_edge_screen, round_edge_open_mesh, square_edge_screen', 'square_edge_grill, round_edge_grill'],
)


# ------------------------------------------------------------------ mixing
@harness('P21', timeout=60, funcs='agitator_time_homogeneous, adjust_homogeneity', bounds='regime constant 1 .. 1e8; D given or not; homogeneity default or .01 .. .9999')
def agitator(ctx):
    c = ctx.real('regime constant', 1., 1e8)
    ctx.assume(abs(c - 6370) > 0.01)
    tank, H, mu, rho, N = ctx.real('T', 0.05, 20.), ctx.real('H', 0.05, 20.), ctx.real('mu', 1e-5, 10.), ctx.real('rho', 100., 5000.), ctx.real('N', 0.01, 100.)
    kw = {}
    D = tank * 0.5
    if ctx.choice('D given', [True, False]):
        D = kw['D'] = ctx.real('D', 0.05, 20.)
    m = 1.0
    if ctx.choice('homogeneity given', [True, False]):
        f = kw['homogeneity'] = ctx.real('homogeneity', 0.01, 0.9999)
        m = log(1 - f) / log(0.05)
    Re = rho * D**2 * N / mu
    P = (c / Re)**3 * rho * N**3 * D**5 / G0
    Fo = 5.2 / c if c > 6370 else (183 / c)**2
    ctx.close('time', M.agitator_time_homogeneous(N=N, P=P, T=tank, H=H, mu=mu, rho=rho, **kw), Fo * rho * tank**1.5 * H**0.5 / mu * m)


@harness('P21', timeout=60, funcs='Kp_helical_ribbon_Rieger', bounds='1 to 8 ribbons; clearance .001 .. 1 m')
def helical_ribbon(ctx):
    D, h, c, p, w = ctx.real('D', 0.05, 10.), ctx.real('h', 0.05, 10.), ctx.real('c', 0.001, 1.), ctx.real('pitch', 0.05, 10.), ctx.real('width', 0.001, 1.)
    n = ctx.choice('nb', [1, 2, 3, 8])
    ctx.close('Kp', M.Kp_helical_ribbon_Rieger(D=D, h=h, nb=n, pitch=p, width=w, T=D + 2 * c),
              82.8 * h / D * (c / D)**-0.38 * (p / D)**-0.35 * (w / D)**0.2 * n**0.78)


same_formula('P21', M.time_helical_ribbon_Grenville, lambda Kp, N: 896e3 * Kp**-1.69 / N, dict(Kp=(1., 1e5), N=(0.001, 100.)))
same_formula('P21', M.K_motionless_mixer, lambda K, L, D, fd: K * fd * L / D, dict(K=(0.1, 1000.), L=(0.01, 100.), D=(0.005, 5.), fd=(0.001, 1.)))
same_formula('P21', M.COV_motionless_mixer, lambda Ki, Q1, Q2, pipe_diameters: sqrt(Q1 / Q2) * Ki**pipe_diameters, dict(Ki=(0.1, 1.), Q1=(1e-4, 100.), Q2=(1e-4, 100.), pipe_diameters=(0.1, 100.)))

LIMIT, START, POWER = {1: 0.7, 2: 0.8, 3: 0.8, 4: 2.0}, {1: 1.33, 2: 1.44, 3: 1.75, 4: 1.97}, {1: 1, 2: 1.5, 3: 1.8, 4: 2}


def exponent(n, B):
    return START[n] if B < LIMIT[n] else START[n] + 0.95 * log(B / LIMIT[n])**POWER[n]


@harness('P21', timeout=60, funcs='size_tee', bounds='B .001 .. 1000, both with the side diameter given and optimal; 0 to 6 streams')
def tee(ctx):
    n = ctx.choice('n', [1, 2, 3, 4, 0, 5, 6])
    if n not in LIMIT:
        ctx.raises('number of streams', M.size_tee, 11.7, 2.74, 0.762, 0.3, n, exc='ValueError')
        return
    D, Q1, L = ctx.real('D', 0.005, 5.), ctx.real('Q1', 1e-4, 100.), ctx.real('pipe_diameters', 0.1, 50.)
    b = ctx.real('sqrt B', 0.032, 31.6)
    ctx.assume(abs(b * b - LIMIT[n]) > 1e-6)
    if ctx.choice('D2 given', [True, False]):
        D2 = ctx.real('D2', 0.001, 5.)
        Q2 = b * Q1 * D2 / (n * D)
    else:
        D2, Q2 = None, Q1 * (b / n)**3
    kw = dict(pipe_diameters=L) if ctx.choice('length given', [True, False]) else {}
    if n == 1 and ctx.choice('n default', [True, False]):
        pass
    else:
        kw['n'] = n
    L = kw.get('pipe_diameters', 5)
    B = b * b
    ctx.close('COV squared', M.size_tee(Q1=Q1, Q2=Q2, D=D, D2=D2, **kw)**2, 0.32 * B**-0.86 * L**(-exponent(n, B)))


@harness('P21', timeout=60, funcs='size_tee', bounds='within 1e-9 relative of the regime limit of 1 to 4 streams')
def tee_continuous(ctx):
    n = ctx.choice('n', [1, 2, 3, 4])
    D, Q1, L, D2 = ctx.real('D', 0.005, 5.), ctx.real('Q1', 1e-4, 100.), ctx.real('pipe_diameters', 0.1, 50.), ctx.real('D2', 0.001, 5.)
    q = LIMIT[n]**0.5 * Q1 * D2 / (n * D)
    ctx.close('continuous', M.size_tee(Q1, q * (1 - 1e-9), D, D2, n, L), M.size_tee(Q1, q * (1 + 1e-9), D, D2, n, L), rtol=1e-3)


@harness('P21', funcs='StatixMixers', bounds='every entry')
def static_mixers(ctx):
    ctx.same('table', M.StatixMixers, TAB['static_mixers'])


# ------------------------------------------------------------------ screens
AL, ANG = (0.01, 1.), (0., 90.)


def incline(a):
    if a is None:
        return 1.0
    return cos(a * pi / 180)**2 if a < 45 else lin(a, T['round_thetas'], T['round_gammas'])


def angle(ctx):
    how = ctx.choice('angle', ['given', 'default', 'None'])
    if how == 'default':
        return {}, 0.0
    if how == 'None':
        return dict(angle=None), None
    a = ctx.real('angle', *ANG)
    ctx.assume(abs(a - 45) > 1e-6)
    return dict(angle=a), a


@harness('P21', timeout=60, funcs='round_edge_screen', bounds='alpha .01 .. 1, Re 1 .. 1e5, angle 0 .. 90, None or default')
def round_screen(ctx):
    al, Re = ctx.real('alpha', *AL), ctx.real('Re', 1., 1e5)
    kw, a = angle(ctx)
    ctx.close('K', F.round_edge_screen(al, Re, **kw), lin(Re, T['round_Res'], T['round_betas']) * (1 - al**2) / al**2 * incline(a))


MESH = {'round bar screen': (0.95, 0.2), 'diamond pattern wire': (0.67, 1.3), 'knotted net': (0.7, 4.9), 'knotless net': (0.72, 2.1)}


@harness('P21', timeout=60, funcs='round_edge_open_mesh', bounds='alpha .01 .. 1, each pattern, default and unknown; angle 0 .. 90, None or default')
def open_mesh(ctx):
    al = ctx.real('alpha', *AL)
    kw, a = angle(ctx)
    p = ctx.choice('pattern', list(MESH) + [None, 'knotless', ''])
    if p is not None:
        kw['subtype'] = p
        if p not in MESH:
            ctx.raises('unknown pattern', F.round_edge_open_mesh, al, exc='ValueError', **kw)
            return
    c = MESH[p or 'diamond pattern wire']
    ctx.close('K', F.round_edge_open_mesh(al, **kw), (c[0] * (1 - al) + c[1] * (1 - al)**2) * incline(a))


@harness('P21', timeout=60, funcs='square_edge_screen', bounds='alpha .001 .. .9999')
def square_screen(ctx):
    al = ctx.real('alpha', 0.001, 0.9999)
    ctx.close('K', F.square_edge_screen(al), lin(al, T['square_alphas'], T['square_Ks']))


def grill(name, ref, lo, hi):
    def h(ctx):
        al = ctx.real('alpha', lo, hi)
        kw = {}
        D = ctx.real('Dh', 0.001, 1.)
        r = ctx.real('l/Dh', 0.1, 1000.)
        ctx.assume(abs(r - 50) > 1e-6)
        fd = ctx.real('fd', 0.001, 0.2)
        kw = {k: v for k, v in dict(l=r * D, Dh=D, fd=fd).items() if ctx.choice(k + ' given', [True, False])}
        fr = fd * r / al**2 if len(kw) == 3 and r > 50 else 0
        ctx.close('K', getattr(F, name)(al, **kw), ref(al) + fr)
    h.__name__ = name
    harness('P21', name, timeout=60, funcs=name, bounds='alpha in [%g, %g], each of l, Dh, fd given or not' % (lo, hi))(h)


TCK = TAB['splines1']['grills_rounded_tck']
grill('square_edge_grill', lambda a: (0.5 * (1 - a) + 1 - a**2) / a**2, 0.01, 1.)
grill('round_edge_grill', lambda a: spline(a, *TCK), 0.3, 0.7)


@harness('P21', funcs='round_edge_grill', bounds='each point of the published table')
def round_grill_table(ctx):
    for a, k in zip(T['grills_rounded_alphas'], T['grills_rounded_Ks']):
        ctx.close('K at %g' % a, F.round_edge_grill(a), k)


@harness('P21', timeout=60, funcs='round_edge_screen, round_edge_open_mesh, square_edge_screen, square_edge_grill, round_edge_grill', bounds='two open fractions')
def more_open(ctx):
    k = ctx.choice('kind', ['round', 'mesh', 'square', 'grill', 'rounded'])
    lo, hi = (0.3, 0.7) if k == 'rounded' else (0.01, 1.)
    a, b = ctx.real('alpha', lo, hi), ctx.real('alpha2', lo, hi)
    ctx.assume(a < b)
    if k == 'round':
        Re = ctx.real('Re', 1., 1e5)
        f = lambda x: F.round_edge_screen(x, Re)
    elif k == 'mesh':
        p = ctx.choice('pattern', list(MESH))
        f = lambda x: F.round_edge_open_mesh(x, p)
    else:
        f = dict(square=F.square_edge_screen, grill=F.square_edge_grill, rounded=F.round_edge_grill)[k]
    ctx.le('not larger', f(b), f(a))

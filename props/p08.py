"""P08: pumps, motors and electrical power."""
import json
import os
from math import log

from symx.harness import harness
from symx.formula import same_formula
import fluids.pump as P
from fluids.numerics import interp

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))

META = dict(
    title='Pump, motor and drive ratings follow their standards at every power',
    statement='motor_round_size returns the smallest NEMA size at least as large as the power and raises ValueError above the largest. '
              'CSA_motor_efficiency (every enclosure, pole count and efficiency class) and VFD_efficiency interpolate the standard\'s table linearly in rating (and load), hold the end values outside it to 4 decimals, never leave the range of the table, and a high-efficiency motor is never rated below a standard one. '
              'motor_efficiency_underloaded switches rating classes at their stated limits (1, 5, 10, 25, 60 hp inclusive) and is 1 above each class\'s full-efficiency load. '
              'Corripio efficiencies, specific speed and diameter, synchronous speed and ideal current equal their documented formulas; a phase other than 1 or 3 raises. The residential and industrial power data are the tabulated voltages and frequencies.',
    over=['inputs', 'configurations'],
    text='every power, load and motor configuration',
    why='tests sample a handful of ratings; every interval and class boundary is an independent place to be wrong',
    files=['fluids/pump.py', 'fluids/numerics/__init__.py'],
    mech=['motor_round_size', 'CSA_motor_efficiency, interp', 'VFD_efficiency, bisplev', 'motor_efficiency_underloaded', 'Corripio_*', 'current_ideal, speed_synchronous, specific_speed, specific_diameter'],
)
HP = P.hp


@harness('P08', funcs='motor_round_size, nema_sizes', timeout=60, bounds='power in [0, 450 kW]')
def round_size(ctx):
    sizes = TAB['nema_sizes_hp']
    x = ctx.real('P', 0.0, 450e3)
    r, e = ctx.attempt(P.motor_round_size, x)
    if e is not None:
        ctx.same('raises ValueError', e, 'ValueError')
        ctx.lt('only above the largest', sizes[-1] * HP, x + 1e-6)
        return
    i = [k for k, s in enumerate(sizes) if abs(s * HP - r) < 1e-6]
    ctx.same('a NEMA size in watts', len(i), 1)
    ctx.le('large enough', x, sizes[i[0]] * HP, tol=1e-6)
    if i[0]:
        ctx.lt('next smaller is too small', sizes[i[0] - 1] * HP, x + 1e-6)


def lin(x, xs, ys):
    """piecewise linear through the table, end values outside"""
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


for _high in (True, False):
    for _closed in (True, False):
        for _poles in ((2, 4, 6) if _high else (2, 4, 6, 8)):
            _key = 'nema_%s_full_%s_%dp' % ('high' if _high else 'min', 'closed' if _closed else 'open', _poles)

            def _h(ctx, key=_key, kw=dict(high_efficiency=_high, closed=_closed, poles=_poles)):
                x = ctx.real('hp', 0.1, 700.)
                xs, ys = TAB['nema'][key]
                e = P.CSA_motor_efficiency(x * HP, **kw)
                ctx.close('linear in the table', e, lin(x, xs, ys), rtol=0, atol=5.001e-5)
                ctx.le('not below the table', min(ys), e, tol=1e-9)
                ctx.le('not above the table', e, max(ys), tol=1e-9)
            harness('P08', 'motor[%s]' % _key[5:], timeout=60, funcs='CSA_motor_efficiency, interp', bounds='rating in [0.1, 700] hp')(_h)


@harness('P08', funcs='CSA_motor_efficiency (classes; defaults)', timeout=90, light=True, bounds='rating in [1, 700] hp', max_paths=8000)
def motor_class(ctx):
    x = ctx.real('hp', 0.5, 700.)
    c, p = ctx.choice('closed', [True, False]), ctx.choice('poles', [2, 4, 6])
    hi, lo = P.CSA_motor_efficiency(x * HP, c, p, True), P.CSA_motor_efficiency(x * HP, c, p, False)
    if x <= 200:
        ctx.le('high efficiency is not below standard', lo, hi, tol=1.01e-4)
    if not c and p == 2:
        ctx.close('defaults: open, 2 poles, standard', P.CSA_motor_efficiency(x * HP), lo)


def vfd(x, load):
    """bilinear in load and rating"""
    ls, ps, tab = TAB['vfd']
    return lin(x, ps, [lin(load, ls, row) for row in tab])


for _i in range(6):
    def _h(ctx, i=_i):
        ls, ps, tab = TAB['vfd']
        load = ctx.real('load', ls[i] if i else 0.001, ls[i + 1])
        x = ctx.real('hp', 1.0, 800.)
        e = P.VFD_efficiency(x * HP, load)
        ctx.close('bilinear in load and rating', e, vfd(x, load), rtol=0, atol=5.001e-5)
    harness('P08', 'vfd[load %d]' % _i, timeout=60, light=True, funcs='VFD_efficiency, py_bisplev', bounds='rating in [1, 800] hp, load in an interval of the table (below 0.016 in the first)')(_h)


@harness('P08', funcs='VFD_efficiency (default load)', timeout=40)
def vfd_default(ctx):
    x = ctx.real('hp', 1.0, 800.)
    ctx.close('default is full load', P.VFD_efficiency(x * HP), vfd(x, 1.0), rtol=0, atol=5.001e-5)


def underloaded(P, load=0.5):
    lists, ones = TAB['underloaded']
    h = P / HP
    i = 0
    for lim in (1.0, 5.0, 10.0, 25.0, 60.0):
        if h <= lim:
            break
        i += 1
    if load > ones[i]:
        return 1
    return sum(c * load**k for k, c in enumerate(lists[i]))


same_formula('P08', P.motor_efficiency_underloaded, underloaded, dict(P=(10., 1e6), load=(0.01, 1.0)))
same_formula('P08', P.motor_efficiency_underloaded, lambda P: underloaded(P), dict(P=(10., 1e6)), name='underloaded_default')
for _n in (1, 5, 10, 25, 60):
    same_formula('P08', lambda load, n=_n: P.motor_efficiency_underloaded(n * HP, load), lambda load, n=_n: underloaded(n * HP * (1 - 1e-12), load), dict(load=(.01, 1.)), name='underloaded_at_limit[%d hp]' % _n, funcs='motor_efficiency_underloaded')


@harness('P08', funcs='motor_round_size, CSA_motor_efficiency (horsepower)')
def horsepower(ctx):
    ctx.close('mechanical horsepower', P.hp, 550 * 0.3048 * 0.45359237 * 9.80665, rtol=1e-12)


same_formula('P08', P.Corripio_pump_efficiency, lambda Q: -0.316 + 0.24015 * log(Q * 15850.323) - 0.01199 * log(Q * 15850.323)**2, dict(Q=(1e-5, 10.)))
same_formula('P08', P.Corripio_motor_efficiency, lambda P: 0.8 + 0.0319 * log(P / 745.69987) - 0.00182 * log(P / 745.69987)**2, dict(P=(10., 1e7)))
same_formula('P08', P.specific_speed, lambda Q, H, n: n * Q**0.5 / H**0.75, dict(Q=(1e-5, 10.), H=(.1, 1e4), n=(1., 1e5)))
same_formula('P08', P.specific_speed, lambda Q, H: 3600 * Q**0.5 / H**0.75, dict(Q=(1e-5, 10.), H=(.1, 1e4)), name='specific_speed_default')
same_formula('P08', P.specific_diameter, lambda Q, H, D: D * H**0.25 / Q**0.5, dict(Q=(1e-5, 10.), H=(.1, 1e4), D=(1e-3, 10.)))
same_formula('P08', P.speed_synchronous, lambda f, poles: 120 * f / poles, dict(f=(1., 400.)), choices=dict(poles=[2, 4, 6, 8, 12, 24]))
same_formula('P08', P.speed_synchronous, lambda f: 60 * f, dict(f=(1., 400.)), name='speed_synchronous_default')
same_formula('P08', P.current_ideal, lambda P, V, phase, PF: P / V / PF / (3**0.5 if phase == 3 else 1), dict(P=(1., 1e7), V=(1., 1e5), PF=(.01, 1.)), choices=dict(phase=[1, 3]))
same_formula('P08', P.current_ideal, lambda P, V: P / V / 3**0.5, dict(P=(1., 1e7), V=(1., 1e5)), name='current_ideal_default')


@harness('P08', funcs='current_ideal, residential_power, industrial_power')
def electrical(ctx):
    for ph in (0, 2, 4, 6):
        ctx.raises('phase %d' % ph, P.current_ideal, 1000.0, 230.0, ph, exc=('ValueError',))
    for n in ('residential_power', 'industrial_power'):
        got = {k: [v.country, list(v.voltage) if isinstance(v.voltage, tuple) else v.voltage, v.freq, list(v.plugs) if v.plugs else None] for k, v in getattr(P, n).items()}
        ctx.same(n, got, TAB[n])

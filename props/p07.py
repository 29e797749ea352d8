"""P07: standard pipe and wire-gauge selection."""
import json
import os

from symx.harness import harness
import fluids.piping as P

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))

META = dict(
    title='Pipe and gauge selection returns the right standard size for every request',
    statement='For every schedule, nearest_pipe given an inner or outer diameter returns (in metres) the smallest standard pipe at least that large, the same pipe its NPS looks up, with Di given precedence over Do over NPS, and Do - 2t = Di within table rounding; a diameter above the largest, an NPS outside the schedule or an unknown schedule raises ValueError, and schedule may be given as a number. '
              'The tabulated pipes and gauges are those of the standards. t_from_gauge and gauge_from_t are inverse on every tabulated gauge in metres and inches; for a thickness between two gauges gauge_from_t returns the thicker one unless the thickness is within 10 % of the interval above the thinner, and it gives the thinnest gauge below the thinnest and raises above the thickest or for an unknown schedule. '
              'erosional_velocity is C/sqrt(rho) in the units of API 14E.',
    over=['inputs', 'configurations'],
    text='all diameters, every NPS of every schedule; every thickness of every gauge schedule',
    why='tests sample a few sizes of a few schedules; selection boundaries between every pair of sizes are untested',
    files=['fluids/piping.py'],
    mech=['nearest_pipe, Di_lookup, Do_lookup, NPS_lookup, schedule_lookup', 'gauge_from_t, t_from_gauge, wire_schedules', 'erosional_velocity'],
)


def lookup(pipes, col, x):
    for p in pipes:
        if p[col] / 1000. >= x:
            return p
    return None


def mk(name, scheds, **o):
    @harness('P07', 'pipe[%s]' % name, timeout=100, funcs='nearest_pipe, Di_lookup, Do_lookup, NPS_lookup', bounds='schedules %s, diameter in [0, 1.05 x largest]' % ', '.join(scheds), max_paths=20000, light=True, **o)
    def h(ctx):
        s = ctx.choice('schedule', scheds)
        nps, di, do, t = TAB['pipes'][s]
        pipes = list(zip(nps, di, do, t))
        col = ctx.choice('by', [1, 2])
        x = ctx.real('diameter', 0.0, pipes[-1][col] * 1.05e-3)
        kw = {'Di': x} if col == 1 else {'Do': x}
        r, e = ctx.attempt(P.nearest_pipe, schedule=s, **kw)
        if e is not None:
            ctx.same('raises ValueError', e, 'ValueError')
            ctx.lt('only above the largest pipe', pipes[-1][col] * 1e-3, x + 1e-9)
            return
        want = [p for p in pipes if p[0] == r[0] and abs(p[1] * 1e-3 - r[1]) < 1e-9 and abs(p[2] * 1e-3 - r[2]) < 1e-9 and abs(p[3] * 1e-3 - r[3]) < 1e-9]
        ctx.same('a pipe of the schedule (NPS, Di, Do, t in m)', len(want), 1)
        i = pipes.index(want[0])
        ctx.le('large enough', x, pipes[i][col] * 1e-3, tol=1e-9)
        if i:
            ctx.lt('the next smaller pipe is too small', pipes[i - 1][col] * 1e-3, x + 1e-9)


S = sorted(TAB['pipes'])
CH = [S[i::12] for i in range(12)]
for _i, _c in enumerate(CH):
    mk(str(_i), _c)


@harness('P07', funcs='nearest_pipe by NPS; schedule_lookup', timeout=60, bounds='every NPS of every schedule')
def by_nps(ctx):
    s = ctx.choice('schedule', S)
    ctx.same('known schedules', sorted(P.schedule_lookup), S)
    for p in zip(*TAB['pipes'][s]):
        n, di, do, t = P.nearest_pipe(NPS=p[0], schedule=s)
        for a, b, nm in ((n, p[0], 'NPS'), (di, p[1] * 1e-3, 'Di'), (do, p[2] * 1e-3, 'Do'), (t, p[3] * 1e-3, 't')):
            ctx.close('%s of the tabulated pipe' % nm, a, b, rtol=1e-9)
        ctx.close('Do - 2t = Di', do - 2 * t, di, rtol=0, atol=1.1e-4)
        ctx.true('0 < Di < Do', 0 < di < do)
    ctx.raises('NPS outside the schedule', P.nearest_pipe, NPS=997.5, schedule=s, exc=('ValueError',))
    ctx.raises('unknown schedule', P.nearest_pipe, NPS=1, schedule=s + '?', exc=('ValueError',))


@harness('P07', funcs='nearest_pipe (argument precedence, numeric schedule)', timeout=60)
def precedence(ctx):
    s = ctx.choice('schedule', ['5', '10', '20', '30', '40', '60', '80', '100', '120', '140', '160'])
    di = ctx.real('Di', 0.03, 0.3)
    do = ctx.real('Do', 0.03, 0.3)
    a, ea = ctx.attempt(P.nearest_pipe, Di=di, schedule=s)
    both, eb = ctx.attempt(P.nearest_pipe, Di=di, Do=do, NPS=4, schedule=s)
    ctx.same('Di first', (ea, a), (eb, both))
    num, en = ctx.attempt(P.nearest_pipe, Di=di, schedule=int(s))
    ctx.same('integer schedule', (ea, a), (en, num))
    num, en = ctx.attempt(P.nearest_pipe, Di=di, schedule=float(s))
    ctx.same('float schedule', (ea, a), (en, num))
    if s == '40':
        d, ed = ctx.attempt(P.nearest_pipe, Di=di)
        ctx.same('default schedule 40', (ea, a), (ed, d))


@harness('P07', funcs='nearest_pipe (Do before NPS)', timeout=60)
def precedence_Do(ctx):
    s = ctx.choice('schedule', ['5', '10', '40', '80', '160'])
    do = ctx.real('Do', 0.03, 0.3)
    a, ea = ctx.attempt(P.nearest_pipe, Do=do, schedule=s)
    b, eb = ctx.attempt(P.nearest_pipe, Do=do, NPS=3.5, schedule=s)
    ctx.same('Do before NPS', (ea, a), (eb, b))


def gauges(s):
    g, inch, si = TAB['gauges'][s]
    return list(zip(g, inch, si))


@harness('P07', funcs='t_from_gauge, gauge_from_t on tabulated gauges', timeout=60)
def gauge_table(ctx):
    s = ctx.choice('schedule', sorted(TAB['gauges']))
    ctx.same('known schedules', sorted(P.wire_schedules), sorted(TAB['gauges']))
    for g, inch, si in gauges(s):
        ctx.close('inches', P.t_from_gauge(g, SI=False, schedule=s), inch, rtol=1e-12)
        ctx.close('metres', P.t_from_gauge(g, schedule=s), si, rtol=1e-12)
        ctx.close('metres and inches agree', P.t_from_gauge(g, schedule=s), 0.0254 * P.t_from_gauge(g, False, s), rtol=0, atol=6e-7)
        ctx.same('gauge of its thickness, inches', P.gauge_from_t(inch, SI=False, schedule=s), g)
        ctx.same('gauge of its thickness, metres', P.gauge_from_t(inch * 0.0254, schedule=s), g)
    ctx.raises('unknown schedule (gauge)', P.t_from_gauge, 5, schedule=s + '?', exc=('ValueError',))
    ctx.raises('unknown schedule (thickness)', P.gauge_from_t, 1e-3, schedule=s + '?', exc=('ValueError',))
    ctx.raises('unknown gauge', P.t_from_gauge, 5.5, schedule=s, exc=('ValueError',))


def mkg(s, SI):
    @harness('P07', 'gauge[%s,%s]' % (s, 'm' if SI else 'in'), timeout=100, light=True, max_paths=5000, funcs='gauge_from_t', bounds='every thickness from the thinnest to 1.5 x the thickest gauge')
    def h(ctx):
        T = gauges(s)
        x = ctx.real('t', T[-1][1] * (1 + 1e-5), T[0][1] * 1.5)
        lim = 1e-8 if SI else 1e-12      # the metric input is rounded to 1e-9 inch
        g, e = ctx.attempt(P.gauge_from_t, x * 0.0254 if SI else x, SI, s)
        if e is not None:
            ctx.same('raises ValueError', e, 'ValueError')
            ctx.lt('only above the thickest gauge', T[0][1], x + lim)
            return
        ctx.le('raises above the thickest gauge', x, T[0][1], tol=lim)
        i = [k for k, r in enumerate(T) if r[0] == g]
        ctx.same('a gauge of the schedule', len(i), 1)
        if not i:
            return
        i = i[0]
        # thick enough up to 10 % of the interval above it, and thinnest such
        if i:
            ctx.le('not thinner than allowed', x, T[i][1] + 0.1 * (T[i - 1][1] - T[i][1]), tol=lim)
        else:
            ctx.le('not thinner than allowed', x, T[i][1], tol=lim)
        if i + 1 < len(T):
            ctx.le('the next thinner gauge would be too thin', T[i + 1][1] + 0.1 * (T[i][1] - T[i + 1][1]), x, tol=lim)


for _s in sorted(TAB['gauges']):
    for _SI in (True, False):
        mkg(_s, _SI)


@harness('P07', funcs='gauge_from_t', bounds='thickness from a tenth of the thinnest gauge to it')
def gauge_thin(ctx):
    s = ctx.choice('schedule', sorted(TAB['gauges']))
    T = gauges(s)
    x = ctx.real('t', T[-1][1] * 0.1, T[-1][1] * 0.999)
    SI = ctx.choice('SI', [True, False])
    ctx.same('thinner than the thinnest: the thinnest gauge', P.gauge_from_t(x * 0.0254 if SI else x, SI, s), T[-1][0])


@harness('P07', funcs='erosional_velocity', bounds='rho in [1e-2, 1e4], C in [1, 1000]')
def erosional(ctx):
    rho, C = ctx.real('rho', 1e-2, 1e4), ctx.real('C', 1., 1000.)
    lb, ft = 0.45359237, 0.3048
    ctx.close('API 14E', P.erosional_velocity(rho, C), C * (rho * ft**3 / lb)**-0.5 * ft)

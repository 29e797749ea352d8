"""P17: weirs and open channels."""
import json
import os
from math import pi, sqrt, tan

from symx.harness import harness
from symx.formula import lin, same_formula
import fluids.open_flow as F

TAB = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
G0 = 9.80665

META = dict(
    title='Weir and open channel flow follow their documented equations',
    statement='The seven weir functions of fluids.open_flow return the documented flow rate for every head, crest height, notch and channel width (the V-notch with coefficients linear in its angle table and constant beyond 20 and 100 degrees), and the flow over the Ackers, Rehbock, full-channel Kindsvater-Carter, SIA and V-notch weirs never falls when the head rises. '
              'V_Manning and V_Chezy return the documented velocity, C_Chezy_to_n_Manning and n_Manning_to_C_Chezy invert each other, and Manning with n equals Chezy with the converted C for every hydraulic radius and slope. '
              'Every entry of the four tables of Manning coefficients is an increasing triple (minimum, normal, maximum) and equals the published value.',
    over=['inputs'],
    text='h1 0.001 to 3 m, h2 0.01 to 5 m, b 0.01 to 20 m, b1 from b to 20 b, notch angle 1 to 170 degrees, Rh 0.001 to 50 m, S 1e-6 to 1, n 0.005 to 0.5, C 1 to 200',
    why='tests sample one point of each function and none of the angles between the table points but 90 degrees',
    files=['fluids/open_flow.py'],
    mech=['Q_weir_V_Shen .. Q_weir_rectangular_full_Kindsvater_Carter', 'V_Manning, V_Chezy', 'n_Manning_to_C_Chezy, C_Chezy_to_n_Manning', 'n_natural, n_excavated_dredged, n_lined_built, n_closed_conduit'],
)

H1, H2, B = (0.001, 3.), (0.01, 5.), (0.01, 20.)
K23 = 2 / 3. * sqrt(2) * sqrt(G0)


def V_Shen(h1, angle):
    C, k = lin(angle, TAB['shen'][0], TAB['shen'][1]), lin(angle, TAB['shen'][0], TAB['shen'][2])
    return C * tan(angle * pi / 360) * sqrt(G0) * (h1 + k)**2.5


def SIA(h1, h2, b, b1):
    r = b / b1
    return (0.544 * (1 + 0.064 * r**2 + (0.00626 - 0.00519 * r**2) / (h1 + 0.0016)) * (1 + 0.5 * r**4 * (h1 / (h1 + h2))**2)) * b * sqrt(G0) * (h1 + h2)**1.5


WEIRS = [
    (F.Q_weir_rectangular_Kindsvater_Carter, lambda h1, h2, b: 0.554 * (1 - 0.0035 * h1 / h2) * (b + 0.0025) * sqrt(G0) * (h1 + 0.0001)**1.5),
    (F.Q_weir_rectangular_full_Ackers, lambda h1, h2, b: 0.564 * (1 + 0.15 * h1 / h2) * b * sqrt(G0) * (h1 + 0.001)**1.5),
    (F.Q_weir_rectangular_full_SIA, lambda h1, h2, b: K23 * (0.615 + 0.000615 / (h1 + 0.0016)) * b * h1 + 0.5 * (h1 / (h1 + h2))**2 * b * sqrt(G0) * h1**1.5),
    (F.Q_weir_rectangular_full_Rehbock, lambda h1, h2, b: K23 * (0.602 + 0.0832 * h1 / h2) * b * (h1 + 0.00125)**1.5),
    # the docstring repeats Rehbock's equation here; this is the published one, which the code has
    (F.Q_weir_rectangular_full_Kindsvater_Carter, lambda h1, h2, b: K23 * (0.602 + 0.075 * h1 / h2) * (b - 0.001) * (h1 + 0.001)**1.5),
]
for _fn, _ref in WEIRS:
    same_formula('P17', _fn, _ref, dict(h1=H1, h2=H2, b=B))
same_formula('P17', F.Q_weir_V_Shen, V_Shen, dict(h1=H1, angle=(1., 170.)))


@harness('P17', funcs='Q_weir_V_Shen', bounds='default angle')
def V_notch_default_angle(ctx):
    h1 = ctx.real('h1', *H1)
    ctx.close('90 degrees', F.Q_weir_V_Shen(h1), V_Shen(h1, 90))


@harness('P17', funcs='Q_weir_rectangular_SIA', bounds='b1 from b to 20 b')
def rectangular_SIA(ctx):
    h1, h2, b, r = ctx.real('h1', *H1), ctx.real('h2', *H2), ctx.real('b', *B), ctx.real('b1/b', 1., 20.)
    ctx.close('flow', F.Q_weir_rectangular_SIA(h1, h2, b, b * r), SIA(h1, h2, b, b * r))


@harness('P17', timeout=60, funcs='Ackers, Rehbock, full-channel Kindsvater-Carter and V-notch weirs', bounds='two heads in .001 .. 3')
def rising_head(ctx):
    i = ctx.choice('weir', [1, 3, 4, 5])
    s, t, h2, b = ctx.real('sqrt h1', 0.032, 1.7), ctx.real('t', 1., 3.), ctx.real('h2', *H2), ctx.real('b', *B)
    lo, hi = s * s, s * s * t * t
    ctx.assume(hi <= 3)
    if i < 5:
        q = lambda h: WEIRS[i][0](h, h2, b)
    else:
        a = ctx.real('angle', 1., 170.)
        q = lambda h: F.Q_weir_V_Shen(h, a)
    ctx.le('not falling', q(lo), q(hi))


@harness('P17', timeout=60, funcs='Q_weir_rectangular_SIA', bounds='two heads in .03 .. 3, b1 = 5 b')
def rising_head_SIA(ctx):
    h1, t, h2, b = ctx.real('h1', 0.03, 1.), ctx.real('t', 1., 3.), ctx.real('h2', *H2), ctx.real('b', *B)
    ctx.le('not falling', F.Q_weir_rectangular_SIA(h1, h2, b, b * 5), F.Q_weir_rectangular_SIA(h1 * t, h2, b, b * 5))


same_formula('P17', F.V_Manning, lambda Rh, S, n: Rh**(2 / 3.) * S**0.5 / n, dict(Rh=(0.001, 50.), S=(1e-6, 1.), n=(0.005, 0.5)))
same_formula('P17', F.V_Chezy, lambda Rh, S, C: C * (S * Rh)**0.5, dict(Rh=(0.001, 50.), S=(1e-6, 1.), C=(1., 200.)))


@harness('P17', funcs='n_Manning_to_C_Chezy, C_Chezy_to_n_Manning, V_Manning, V_Chezy', bounds='all n, C, Rh, S')
def conversion(ctx):
    n, C, Rh, S = ctx.real('n', 0.005, 0.5), ctx.real('C', 1., 200.), ctx.real('Rh', 0.001, 50.), ctx.real('S', 1e-6, 1.)
    ctx.close('C', F.n_Manning_to_C_Chezy(n, Rh), Rh**(1 / 6.) / n)
    ctx.close('n', F.C_Chezy_to_n_Manning(C, Rh), Rh**(1 / 6.) / C)
    ctx.close('n to C to n', F.C_Chezy_to_n_Manning(F.n_Manning_to_C_Chezy(n, Rh), Rh), n)
    ctx.close('C to n to C', F.n_Manning_to_C_Chezy(F.C_Chezy_to_n_Manning(C, Rh), Rh), C)
    ctx.close('same velocity', F.V_Chezy(Rh, S, F.n_Manning_to_C_Chezy(n, Rh)), F.V_Manning(Rh, S, n))


@harness('P17', funcs='n_natural, n_excavated_dredged, n_lined_built, n_closed_conduit, n_dicts', bounds='every entry')
def coefficients(ctx):
    for name, tab in sorted(TAB['manning'].items()):
        d = getattr(F, name)
        ctx.same(name + ' groups', sorted(d), sorted(tab))
        for k in sorted(tab):
            ctx.same('%s %s' % (name, k), {q: list(w) for q, w in d[k].items()}, tab[k])
            for q, w in sorted(d[k].items()):
                ctx.true('%s %s %s ordered' % (name, k, q), len(w) == 3 and 0 < w[0] <= w[1] <= w[2])

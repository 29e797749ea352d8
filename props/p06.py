"""P06: friction factors - every correlation equals its published formula, dispatch, validity lists, curved pipes, plates, roughness, one-phase dP."""
from math import cos, exp, log, log10, pi, radians, sin, sqrt, tan

from symx.harness import harness
from symx.formula import cmp, same_formula
import fluids.friction as F
from fluids.numerics import lambertw

META = dict(
    title='Friction factor correlations, selection, curvature, roughness, 1-phase dP',
    statement='Every friction-factor correlation (straight, curved/helical laminar, turbulent and transition, plate exchanger) returns the value of its published formula, with its published regime boundaries, for every Reynolds number and roughness or geometry; Colebrook satisfies the Colebrook equation itself. '
              'friction_factor and friction_factor_curved dispatch to the correlation named (laminar below Re 2040 or below the critical Reynolds number), scale by 1/4 for Fanning, reject unknown names, and the *_methods functions list exactly the correlations whose stated limits contain the input. '
              'Material roughness, transmission factor, and the one-phase frictional, acceleration and gravitational pressure drops equal their documented definitions.',
    over=['inputs', 'configurations'],
    text='Re from 1e-3 to 1e8, eD from 0 to 0.05, all method names, all diameter ratios and chevron angles',
    why='tests sample one or two points per correlation; limits, regime switches and name dispatch over the whole range are not covered',
    files=['fluids/friction.py'],
    mech=['friction_factor, Clamond, Colebrook and 28 explicit correlations', 'friction_factor_methods', 'friction_factor_curved, helical_*', 'friction_plate_*', 'material_roughness, roughness_Farshad, transmission_factor', 'one_phase_dP*'],
)


def inv2(x):
    return 1 / x**2


def ff4(x):
    """Fanning 1/sqrt(f_f) = x  ->  Darcy."""
    return 4 / x**2


def clamond_ref(Re, eD, fast=False):
    # Clamond (2009), Algorithm: Colebrook solved with quartic iterations
    X1 = eD * Re * 0.123968186335417556
    X2 = log(Re) - 0.779397488455682028
    Fv = X2 - 0.2
    for _ in range(1 if fast else 2):
        E = (log(X1 + Fv) + Fv - X2) / (1 + X1 + Fv)
        b = 1 + X1 + Fv + E * (1 + E / 3)
        n = (1 + X1 + Fv + E / 2) * E * (X1 + Fv)
        last = b * Fv - n           # F - n/b, brought over one denominator
        Fv = Fv - n / b
    if not fast:
        return (1.151292546497022842 * b / last)**2
    return (1.151292546497022842 / Fv)**2


def serg(Re, eD):
    A = -2 * log10(eD / 3.7 + 12 / Re)
    B = -2 * log10(eD / 3.7 + 2.51 * A / Re)
    C = -2 * log10(eD / 3.7 + 2.51 * B / Re)
    return A, B, C


def serghides_1(Re, eD):
    A, B, C = serg(Re, eD)
    return inv2(A - (B - A)**2 / (C - 2 * B + A))


def serghides_2(Re, eD):
    A, B, C = serg(Re, eD)
    return inv2(4.781 - (A - 4.781)**2 / (B - 2 * A + 4.781))


def tsal(Re, eD):
    A = 0.11 * (68 / Re + eD)**0.25
    return A if A >= 0.018 else 0.0028 + 0.85 * A


def sonnad(Re, eD):
    S = 0.1240 * eD * Re + log(0.4587 * Re)
    return inv2(0.8686 * log(0.4587 * Re / S**(S / (S + 1))))


def rao(Re, eD):
    beta = 1 - 0.55 * exp(-0.33 * log(Re / 6.5)**2)
    return inv2(2 * log10(1 / (2 * eD) / ((0.444 + 0.135 * Re) / Re * beta)))


def buzzelli(Re, eD):
    B1 = (0.774 * log(Re) - 1.41) / (1 + 1.32 * eD**0.5)
    B2 = eD / 3.7 * Re + 2.51 * B1
    return inv2(B1 - (B1 + 2 * log10(B2 / Re)) / (1 + 2.18 / B2))


def brkic_beta(Re):
    return log(Re / (1.816 * log(1.1 * Re / log(1 + 1.1 * Re))))


def zs6(Re, eD):
    A5 = eD / 3.7 + 13 / Re
    return eD / 3.7 - 5.02 / Re * log10(A5)


REF = {
    'Moody': lambda Re, eD: 4 * 1.375e-3 * (1 + (2e4 * eD + 1e6 / Re)**(1 / 3.)),
    'Alshul_1952': lambda Re, eD: 0.11 * (68 / Re + eD)**0.25,
    'Wood_1966': lambda Re, eD: 0.094 * eD**0.225 + 0.53 * eD + 88 * eD**0.4 * Re**(-1.62 * eD**0.134),
    'Churchill_1973': lambda Re, eD: inv2(2 * log10(eD / 3.7 + (7 / Re)**0.9)),
    'Eck_1973': lambda Re, eD: inv2(2 * log10(eD / 3.715 + 15 / Re)),
    'Jain_1976': lambda Re, eD: ff4(2.28 - 4 * log10(eD + (29.843 / Re)**0.9)),
    'Swamee_Jain_1976': lambda Re, eD: ff4(4 * log10((6.97 / Re)**0.9 + eD / 3.7)),
    'Churchill_1977': lambda Re, eD: 8 * ((8 / Re)**12 + ((2.457 * log((7 / Re)**0.9 + 0.27 * eD))**16 + (37530 / Re)**16)**-1.5)**(1 / 12.),
    'Chen_1979': lambda Re, eD: ff4(4 * log10(eD / 3.7065 - 5.0452 / Re * log10(eD**1.1098 / 2.8257 + (7.149 / Re)**0.8981))),
    'Round_1980': lambda Re, eD: ff4(3.6 * log10(Re / (0.135 * Re * eD + 6.5))),
    'Shacham_1980': lambda Re, eD: ff4(4 * log10(eD / 3.7 - 5.02 / Re * log10(eD / 3.7 + 14.5 / Re))),
    'Barr_1981': lambda Re, eD: inv2(2 * log10(eD / 3.7 + 4.518 * log10(Re / 7) / (Re * (1 + Re**0.52 / 29 * eD**0.7)))),
    'Zigrang_Sylvester_1': lambda Re, eD: ff4(4 * log10(zs6(Re, eD))),
    'Zigrang_Sylvester_2': lambda Re, eD: ff4(4 * log10(eD / 3.7 - 5.02 / Re * log10(zs6(Re, eD)))),
    'Haaland': lambda Re, eD: 4 * (-3.6 * log10(6.9 / Re + (eD / 3.7)**1.11))**-2,
    'Serghides_1': serghides_1,
    'Serghides_2': serghides_2,
    'Tsal_1989': tsal,
    'Manadilli_1997': lambda Re, eD: inv2(2 * log10(eD / 3.7 + 95 / Re**0.983 - 96.82 / Re)),
    'Romeo_2002': lambda Re, eD: inv2(2 * log10(eD / 3.7065 - 5.0272 / Re * log10(eD / 3.827 - 4.567 / Re * log10((eD / 7.7918)**0.9924 + (5.3326 / (208.815 + Re))**0.9345)))),
    'Sonnad_Goudar_2006': sonnad,
    'Rao_Kumar_2007': rao,
    'Buzzelli_2008': buzzelli,
    'Avci_Karagoz_2009': lambda Re, eD: 6.4 / (log(Re) - log(1 + 0.01 * Re * eD * (1 + 10 * eD**0.5)))**2.4,
    'Papaevangelo_2010': lambda Re, eD: (0.2479 - 0.0000947 * (7 - log(Re))**4) / log10(eD / 3.615 + 7.366 / Re**0.9142)**2,
    'Brkic_2011_1': lambda Re, eD: inv2(2 * log10(10**(-0.4343 * brkic_beta(Re)) + eD / 3.71)),
    'Brkic_2011_2': lambda Re, eD: inv2(2 * log10(2.18 * brkic_beta(Re) / Re + eD / 3.71)),
    'Fang_2011': lambda Re, eD: 1.613 / log(0.234 * eD**1.1007 - 60.525 / Re**1.1105 + 56.291 / Re**1.0712)**2,
    'Clamond': clamond_ref,
}

for _n, _r in REF.items():
    same_formula('P06', getattr(F, _n), _r, dict(Re=(2040., 1e8), eD=(1e-6, 0.05)), name=_n, domain='assume')
    if _n not in ('Rao_Kumar_2007', 'Wood_1966'):
        same_formula('P06', getattr(F, _n), _r, dict(Re=(2040., 1e8)), choices=dict(eD=[0.0]), name=_n + '_smooth', domain='assume')

same_formula('P06', F.Clamond, clamond_ref, dict(Re=(10., 1e8), eD=(1e-6, 0.05)), choices=dict(fast=[True, False]), name='Clamond_fast', domain='assume')
same_formula('P06', F.friction_laminar, lambda Re: 64 / Re, dict(Re=(1e-6, 1e8)))
same_formula('P06', F.Blasius, lambda Re: 0.3164 / Re**0.25, dict(Re=(1e-3, 1e8)))
same_formula('P06', F.von_Karman, lambda eD: inv2(2 * log10(eD / 3.7)), dict(eD=(1e-8, 0.5)))


@harness('P06', funcs='Prandtl_von_Karman_Nikuradse', bounds='Re in [10, 1e10]')
def prandtl(ctx):
    Re = ctx.real('Re', 10.0, 1e10)
    f = F.Prandtl_von_Karman_Nikuradse(Re)
    ctx.true('positive', f > 0)
    ctx.close('satisfies the smooth-pipe equation', 1 / sqrt(f), -2 * log10(2.51 / (Re * sqrt(f))))


@harness('P06', domain='assume', funcs='Colebrook', bounds='Re in [10, 1e8], eD in [0, 0.05] with eD*Re below the overflow of 10^(eD Re/9.287)')
def colebrook(ctx):
    Re = ctx.real('Re', 10.0, 1e8)
    eD = ctx.choice('smooth', [0, 1])
    eD = 0.0 if eD else ctx.real('eD', 1e-8, 0.05)
    ctx.assume(eD * Re < 2500)
    f = F.Colebrook(Re, eD)
    ctx.true('positive', f > 0)
    solves_colebrook(ctx, Re, eD, f)


def solves_colebrook(ctx, Re, eD, f):
    """x = 1/sqrt(f) satisfies x = -2 log10(eD/3.7 + 2.51 x/Re).  The positive
    solution is named through W(z) e^W(z) = z, and f must be 1/x^2 for it."""
    a = eD * Re / (2.51 * 3.7)
    W = lambertw(log(10) / 2 * sqrt(10**a) * Re / 2.51).real
    x = 2 / log(10) * W - a
    ctx.close('x solves the Colebrook equation', x, -2 * log10(eD / 3.7 + 2.51 * x / Re))
    ctx.close('f = 1/x^2', f * x * x, 1.0)


@harness('P06', domain='assume', stub=True, roots=(1e-5, 10.0), mp=False, funcs='Colebrook (tol given: numerical solution)', bounds='Re in [10, 1e8], eD in [0, 0.05], secant by contract: returns a root of the residual')
def colebrook_numeric(ctx):
    Re = ctx.real('Re', 10.0, 1e8)
    eD = 0.0 if ctx.choice('smooth', [0, 1]) else ctx.real('eD', 1e-8, 0.05)
    f = F.Colebrook(Re, eD, tol=1e-12)
    ctx.close('satisfies the Colebrook equation', 1 / sqrt(f), -2 * log10(eD / 3.7 + 2.51 / (Re * sqrt(f))))


@harness('P06', domain='assume', funcs='Colebrook (tol=-1)', bounds='Re in [1, 1e8], eD in [1e-6, 0.05]')
def colebrook_fast(ctx):
    Re = ctx.real('Re', 1.0, 1e8)
    eD = ctx.real('eD', 1e-6, 0.05)
    ctx.assume(eD * Re < 2500)
    f = F.Colebrook(Re, eD, tol=-1)
    if Re > 10:
        ctx.close('tol=-1 uses the Clamond solution', f, clamond_ref(Re, eD))
    else:
        solves_colebrook(ctx, Re, eD, f)


@harness('P06', domain='assume', funcs='ft_Crane', bounds='D in [1e-3, 5]')
def crane(ctx):
    D = ctx.real('D', 1e-3, 5.0)
    # fully turbulent limit: Re = 7.5e6 D, carbon steel Farshad-like roughness, documented in ft_Crane
    r = clamond_ref(7.5e6 * D, 3.4126825352925e-5 * D**-1.0112, fast=bool(D >= 1e-2))
    ctx.close('ft_Crane documented construction', F.ft_Crane(D), r)


# ----------------------------------------------------------------- dispatch
LIMITS = {
    'Moody': (4000.0, 1e8, 0.0, 0.01), 'Alshul_1952': (None, None, None, None), 'Wood_1966': (4000.0, 5e7, 1e-5, 0.04),
    'Churchill_1973': (None,) * 4, 'Eck_1973': (None,) * 4, 'Jain_1976': (5000.0, 1e7, 4e-5, 0.05), 'Swamee_Jain_1976': (5000.0, 1e8, 1e-6, 0.05),
    'Churchill_1977': (None,) * 4, 'Chen_1979': (4000.0, 4e8, 1e-7, 0.05), 'Round_1980': (4000.0, 4e8, 0.0, 0.05), 'Shacham_1980': (4000.0, 4e8, None, None),
    'Barr_1981': (None,) * 4, 'Zigrang_Sylvester_1': (4000.0, 1e8, 4e-5, 0.05), 'Zigrang_Sylvester_2': (4000.0, 1e8, 4e-5, 0.05), 'Haaland': (4000.0, 1e8, 1e-6, 0.05),
    'Serghides_1': (None,) * 4, 'Serghides_2': (None,) * 4, 'Tsal_1989': (4000.0, 1e8, 0.0, 0.05), 'Manadilli_1997': (5245.0, 1e8, 0.0, 0.05),
    'Romeo_2002': (3000.0, 1.5e8, 0.0, 0.05), 'Sonnad_Goudar_2006': (4000.0, 1e8, 1e-6, 0.05), 'Rao_Kumar_2007': (None,) * 4, 'Buzzelli_2008': (None,) * 4,
    'Avci_Karagoz_2009': (None,) * 4, 'Papaevangelo_2010': (1e4, 1e7, 1e-5, 0.001), 'Brkic_2011_1': (None,) * 4, 'Brkic_2011_2': (None,) * 4,
    'Fang_2011': (3000.0, 1e8, 0.0, 0.05), 'Clamond': (0.0, None, 0.0, None), 'Colebrook': (None,) * 4,
}


@harness('P06', domain='assume', funcs='friction_factor_methods', bounds='Re in [1, 1e9], eD in [0, 0.1]', max_paths=2000, timeout=120)
def methods_list(ctx):
    Re, eD = ctx.real('Re', 1.0, 1e9), ctx.real('eD', 0.0, 0.1)
    got = F.friction_factor_methods(Re, eD)
    if Re < 2040:
        ctx.same('laminar only', got, ['laminar'])
        return
    want = [n for n, (a, b, c, d) in LIMITS.items()
            if not ((a is not None and Re < a) or (b is not None and Re > b) or (c is not None and eD < c) or (d is not None and eD > d))]
    ctx.same('lists exactly the correlations whose limits hold', sorted(got), sorted(want))
    ctx.same('no duplicates', len(got), len(set(got)))
    ctx.same('unchecked list', sorted(F.friction_factor_methods(Re, eD, check_ranges=False)), sorted(list(LIMITS) + ['laminar']))


@harness('P06', domain='assume', funcs='friction_factor (dispatch)', bounds='Re in [1, 1e8], eD in [1e-6, 0.05], every method', timeout=120)
def dispatch(ctx):
    Re, eD = ctx.real('Re', 1.0, 1e8), ctx.real('eD', 1e-6, 0.05)
    ctx.assume(eD * Re < 2500)
    m = ctx.choice('Method', list(LIMITS) + ['laminar', None])
    f = F.friction_factor(Re=Re, eD=eD, Method=m)
    if Re < 2040 or m == 'laminar':
        want = 64 / Re
    else:
        want = getattr(F, m or 'Clamond')(Re, eD)
    ctx.close('friction_factor(Method) returns the named correlation', f, want)
    ctx.close('Fanning is a quarter of Darcy', F.friction_factor(Re=Re, eD=eD, Method=m, Darcy=False) * 4, f)


@harness('P06', domain='assume', funcs='friction_factor (default, unknown)', bounds='Re in [1, 1e8], eD in [0, 0.05]')
def dispatch_default(ctx):
    Re, eD = ctx.real('Re', 1.0, 1e8), ctx.real('eD', 0.0, 0.05)
    want = 64 / Re if Re < 2040 else clamond_ref(Re, eD)
    ctx.close('default method is Clamond above Re 2040, 64/Re below', F.friction_factor(Re, eD), want)
    if Re >= 2040:
        ctx.raises('unknown method', F.friction_factor, Re, eD, Method='BADMETHOD')


# ----------------------------------------------------------------- curved pipes
def White(Re, Di, Dc):
    De = Re * sqrt(Di / Dc)
    return 64 / Re if De < 11.6 else 64 / Re / (1 - (1 - (11.6 / De)**0.45)**(1 / 0.45))


def MN_lam(Re, Di, Dc):
    De = Re * sqrt(Di / Dc)
    return 64 / Re * 1.405296 if De < 42.328036 else 64 / Re * 0.108 * sqrt(De) / (1 - 3.253 * De**-0.5)


def ff_ref(Re, eD):
    return 64 / Re if Re < 2040 else clamond_ref(Re, eD)


def sch_turb(Re, Di, Dc, roughness):
    f = ff_ref(Re, roughness / Di)
    if Re < 22000:
        return f * (1 + 28800 / Re * (Di / Dc)**0.62)
    return f * (1 + 0.0823 * (1 + Di / Dc) * (Di / Dc)**0.53 * Re**0.25)


def mn_turb(Re, Di, Dc):
    x = (Re * (Di / Dc)**2)**-0.2
    return 0.3 * (Di / Dc)**0.5 * x * (1 + 0.112 * x)


LAM = {
    'White': (F.helical_laminar_fd_White, White),
    'Mori Nakayama laminar': (F.helical_laminar_fd_Mori_Nakayama, MN_lam),
    'Schmidt laminar': (F.helical_laminar_fd_Schmidt, lambda Re, Di, Dc: 64 / Re * (1 + 0.14 * (Di / Dc)**0.97 * Re**(1 - 0.644 * (Di / Dc)**0.312))),
}
TURB_R = {
    'Schmidt turbulent': (F.helical_turbulent_fd_Schmidt, sch_turb),
    'Prasad': (F.helical_turbulent_fd_Prasad, lambda Re, Di, Dc, roughness: ff_ref(Re, roughness / Di) * (1 + 0.18 * (Re * (Di / Dc)**2)**0.25)),
    'Ju': (F.helical_turbulent_fd_Ju, lambda Re, Di, Dc, roughness: ff_ref(Re, roughness / Di) * (1 + 0.11 * Re**0.23 * (Di / Dc)**0.14)),
    'Mandal Nigam': (F.helical_turbulent_fd_Mandal_Nigam, lambda Re, Di, Dc, roughness: ff_ref(Re, roughness / Di) * (1 + 0.03 * (Re * sqrt(Di / Dc))**0.27)),
}
TURB = {
    'Mori Nakayama turbulent': (F.helical_turbulent_fd_Mori_Nakayama, mn_turb),
    'Czop': (F.helical_turbulent_fd_Czop, lambda Re, Di, Dc: 0.096 * (Re * sqrt(Di / Dc))**-0.1517),
    'Guo': (F.helical_turbulent_fd_Guo, lambda Re, Di, Dc: 0.638 * Re**-0.15 * (Di / Dc)**0.51),
    'Srinivasan turbulent': (F.helical_turbulent_fd_Srinivasan, lambda Re, Di, Dc: 0.336 * (Re * sqrt(Di / Dc))**-0.2),
}
TRANS = {
    'Seth Stahel': (F.helical_transition_Re_Seth_Stahel, lambda Di, Dc: 1900 * (1 + 8 * (Di / Dc)**0.5)),
    'Ito': (F.helical_transition_Re_Ito, lambda Di, Dc: 20000 * (Di / Dc)**0.32),
    'Kubair Kuloor': (F.helical_transition_Re_Kubair_Kuloor, lambda Di, Dc: 12730 * (Di / Dc)**0.2),
    'Kutateladze Borishanskii': (F.helical_transition_Re_Kutateladze_Borishanskii, lambda Di, Dc: 2300 + 1.05e4 * (Di / Dc)**0.3),
    'Schmidt': (F.helical_transition_Re_Schmidt, lambda Di, Dc: 2300 * (1 + 8.6 * (Di / Dc)**0.45)),
    'Srinivasan': (F.helical_transition_Re_Srinivasan, lambda Di, Dc: 2100 * (1 + 12 * (Di / Dc)**0.5)),
}
COIL = dict(Di=(1e-3, 1.0), Dc=(1.0, 100.0))
for _k, (_f, _r) in LAM.items():
    same_formula('P06', _f, _r, dict(Re=(0.1, 2e4), **COIL), domain='assume')
for _k, (_f, _r) in TURB.items():
    same_formula('P06', _f, _r, dict(Re=(100., 1e7), **COIL))
for _k, (_f, _r) in TURB_R.items():
    same_formula('P06', _f, _r, dict(Re=(100., 1e7), roughness=(0.0, 1e-4), **COIL), domain='assume')
for _k, (_f, _r) in TRANS.items():
    same_formula('P06', _f, _r, COIL)


@harness('P06', domain='assume', funcs='friction_factor_curved, helical_Re_crit', bounds='Re in [1,1e7], Di in [1e-3,1], Dc in [1,100], all methods', timeout=200, max_paths=3000)
def curved(ctx):
    Re = ctx.real('Re', 100.0, 1e7)
    Di, Dc = ctx.real('Di', 1e-3, 1.0), ctx.real('Dc', 1.0, 100.0)
    rough = ctx.real('roughness', 0.0, 1e-4)
    rec = ctx.choice('Rec_method', list(TRANS))
    crit = TRANS[rec][1](Di, Dc)
    ctx.close('helical_Re_crit', F.helical_Re_crit(Di, Dc, Method=rec), crit)
    lam = ctx.choice('laminar', list(LAM)) if rec == 'Schmidt' else 'White'
    turb = ctx.choice('turbulent', list(TURB) + list(TURB_R)) if rec == 'Schmidt' and lam == 'White' else 'Guo'
    f = F.friction_factor_curved(Re, Di, Dc, roughness=rough, Rec_method=rec, laminar_method=lam, turbulent_method=turb)
    if Re < crit:
        want = LAM[lam][0](Re, Di, Dc)
    elif turb in TURB_R:
        want = TURB_R[turb][0](Re, Di, Dc, rough)
    else:
        want = TURB[turb][0](Re, Di, Dc)
    ctx.close('laminar below the critical Re, turbulent above', f, want)


@harness('P06', domain='assume', funcs='friction_factor_curved (defaults, Method, Fanning)', timeout=120)
def curved_named(ctx):
    Re = ctx.real('Re', 100.0, 1e7)
    Di, Dc = ctx.real('Di', 1e-3, 1.0), ctx.real('Dc', 1.0, 100.0)
    rough = ctx.real('roughness', 0.0, 1e-4)
    m = ctx.choice('Method', list(LAM) + list(TURB) + list(TURB_R) + [None])
    f = F.friction_factor_curved(Re, Di, Dc, roughness=rough, Method=m)
    mm = m or ('Schmidt laminar' if Re < TRANS['Schmidt'][1](Di, Dc) else 'Schmidt turbulent')
    if mm in TURB_R:
        want = TURB_R[mm][0](Re, Di, Dc, rough)
    else:
        want = (LAM.get(mm) or TURB[mm])[0](Re, Di, Dc)
    ctx.close('named method is used whatever the regime', f, want)
    ctx.close('Fanning', 4 * F.friction_factor_curved(Re, Di, Dc, roughness=rough, Method=m, Darcy=False), f)
    ctx.raises('unknown method', F.friction_factor_curved, Re, Di, Dc, Method='nope')
    ctx.raises('unknown critical Re method', F.friction_factor_curved, Re, Di, Dc, Rec_method='nope')
    ctx.raises('unknown critical Re method (helical_Re_crit)', F.helical_Re_crit, Di, Dc, Method='nope')


@harness('P06', domain='assume', funcs='friction_factor_curved_methods')
def curved_methods(ctx):
    Re = ctx.real('Re', 1.0, 1e7)
    Di, Dc = ctx.real('Di', 1e-3, 1.0), ctx.real('Dc', 1.0, 100.0)
    got = F.friction_factor_curved_methods(Re, Di, Dc)
    if Re < TRANS['Schmidt'][1](Di, Dc):
        ctx.same('laminar methods', sorted(got), sorted(LAM))
    else:
        ctx.same('turbulent methods', sorted(got), sorted(list(TURB) + list(TURB_R)))
    ctx.same('all methods', sorted(F.friction_factor_curved_methods(Re, Di, Dc, check_ranges=False)), sorted(list(LAM) + list(TURB) + list(TURB_R)))


# ----------------------------------------------------------------- plates
def martin(Re, chevron_angle):
    p = radians(chevron_angle)
    f0 = 16 / Re if Re < 2000 else (1.56 * log(Re) - 3)**-2
    f1 = 149 / Re + 0.9625 if Re < 2000 else 9.75 / Re**0.289
    return ff4(cos(p) / sqrt(0.045 * tan(p) + 0.09 * sin(p) + f0 / cos(p)) + (1 - cos(p)) / sqrt(3.8 * f1))


def martin_vdi(Re, chevron_angle):
    p = radians(chevron_angle)
    f0 = 64 / Re if Re < 2000 else (1.8 * log10(Re) - 1.5)**-2
    f1 = 597 / Re + 3.85 if Re < 2000 else 39 / Re**0.289
    return inv2(cos(p) / sqrt(0.18 * tan(p) + 0.36 * sin(p) + f0 / cos(p)) + (1 - cos(p)) / sqrt(3.8 * f1))


def kumar(Re, chevron_angle):
    b = chevron_angle
    if b <= 30:
        t = [(10, 50, 1), (100, 19.4, .589), (None, 2.99, .183)]
    elif b <= 45:
        t = [(15, 47, 1), (300, 18.29, .652), (None, 1.441, .206)]
    elif b <= 50:
        t = [(20, 34, 1), (300, 11.25, .631), (None, 0.772, .161)]
    elif b <= 60:
        t = [(40, 24, 1), (400, 3.24, .457), (None, 0.76, .215)]
    else:
        t = [(50, 24, 1), (500, 2.8, .451), (None, 0.639, .213)]
    for lim, C, p in t:
        if lim is None or Re <= lim:
            return 4 * C / Re**p


same_formula('P06', F.friction_plate_Martin_1999, martin, dict(Re=(10., 1e6), chevron_angle=(1., 85.)))
same_formula('P06', F.friction_plate_Martin_VDI, martin_vdi, dict(Re=(10., 1e6), chevron_angle=(1., 85.)))
same_formula('P06', F.friction_plate_Kumar, kumar, dict(Re=(0.1, 1e5), chevron_angle=(0., 80.)))
same_formula('P06', F.friction_plate_Muley_Manglik,
             lambda Re, chevron_angle, plate_enlargement_factor: 4 * (2.917 - 0.1277 * chevron_angle + 2.016e-3 * chevron_angle**2)
             * (5.474 - 19.02 * plate_enlargement_factor + 18.93 * plate_enlargement_factor**2 - 5.341 * plate_enlargement_factor**3)
             * Re**-(0.2 + 0.0577 * sin(pi * chevron_angle / 45 + 2.1)),
             dict(Re=(100., 1e5), chevron_angle=(30., 60.), plate_enlargement_factor=(1., 1.5)))

# ----------------------------------------------------------------- roughness, transmission, one-phase
FARSHAD = {
    'Plastic coated': (5e-6, 0.0002, -1.0098), 'Carbon steel, honed bare': (12.5e-6, 0.0005, -1.0101),
    'Cr13, electropolished bare': (30e-6, 0.0012, -1.0086), 'Cement lining': (33e-6, 0.0014, -1.0105),
    'Carbon steel, bare': (36e-6, 0.0014, -1.0112), 'Fiberglass lining': (38e-6, 0.0016, -1.0086), 'Cr13, bare': (55e-6, 0.0021, -1.0055),
}


@harness('P06', funcs='roughness_Farshad, material_roughness', bounds='D in [1e-3, 10], all materials')
def farshad(ctx):
    D = ctx.real('D', 1e-3, 10.0)
    m = ctx.choice('ID', list(FARSHAD))
    e, A, B = FARSHAD[m]
    want = A * (D / 0.0254)**(B + 1) * 0.0254
    ctx.close('Farshad', F.roughness_Farshad(m, D), want)
    ctx.close('material_roughness uses Farshad', F.material_roughness(m, D), want)
    ctx.close('no diameter', F.roughness_Farshad(m), e)
    ctx.close('coefficients', F.roughness_Farshad(D=D, coeffs=(A, B)), want)
    ctx.raises('coefficients need a diameter', F.roughness_Farshad, coeffs=(A, B))


@harness('P06', funcs='material_roughness (optimism)', bounds='every handbook material, each optimism')
def hhr(ctx):
    m = ctx.choice('ID', list(F.HHR_roughness))
    lo, hi, av = F.HHR_roughness[m]
    first = lambda *a: [v for v in a if v][0]
    ctx.same('average by default', F.material_roughness(m), first(av, hi, lo))
    ctx.same('optimistic is the smallest', F.material_roughness(m, optimism=True), first(lo, av, hi))
    ctx.same('pessimistic is the largest', F.material_roughness(m, optimism=False), first(hi, av, lo))


@harness('P06', funcs='transmission_factor', bounds='fd in [1e-4, 10]')
def transmission(ctx):
    fd = ctx.real('fd', 1e-4, 10.0)
    t = F.transmission_factor(fd=fd)
    ctx.close('F = 2/sqrt(fd)', t, 2 / sqrt(fd))
    ctx.close('and back', F.transmission_factor(F=t), fd)
    ctx.raises('needs one', F.transmission_factor)


def dp_ref(m, rho, mu, D, roughness, L):
    V = m / (pi / 4 * D**2 * rho)
    return ff_ref(rho * V * D / mu, roughness / D) * L / D * rho * V**2 / 2


ONE = dict(m=(1e-2, 100.), rho=(0.1, 2000.), mu=(1e-6, 0.1), D=(0.01, 1.), roughness=(0., 1e-4), L=(0.1, 1e4))
same_formula('P06', F.one_phase_dP, dp_ref, ONE, domain='assume')


def accel(m, D, rho_o, D_i):
    return rho_o / 2 * ((m / (pi / 4 * D**2 * rho_o))**2 - (m / (pi / 4 * D_i**2 * rho_o))**2)


same_formula('P06', lambda m, D, rho_o, D_i: F.one_phase_dP_acceleration(m, D, rho_o, rho_o, D_i), accel,
             dict(m=(0.01, 100.), D=(0.01, 1.), rho_o=(0.1, 2000.), D_i=(0.01, 1.)), name='one_phase_dP_acceleration', note='constant density')


same_formula('P06', F.one_phase_dP_dz_acceleration, lambda m, D, rho, dv_dP, dP_dL, dA_dL: -(m / (pi / 4 * D**2))**2 * (dP_dL * dv_dP - dA_dL / (rho * pi / 4 * D**2)),
             dict(m=(0.01, 100.), D=(0.01, 1.), rho=(0.1, 2000.), dv_dP=(-1e-3, 1e-3), dP_dL=(-1e6, 1e6), dA_dL=(-1., 1.)))
same_formula('P06', F.one_phase_dP_gravitational, lambda angle, rho, L, g: rho * g * sin(radians(angle)) * L,
             dict(angle=(-90., 90.), rho=(0.1, 2e4), L=(0.1, 1e4), g=(1., 30.)))
same_formula('P06', F.one_phase_dP_gravitational, lambda angle, rho: rho * 9.80665 * sin(radians(angle)), dict(angle=(-90., 90.), rho=(0.1, 2e4)), name='gravitational_default')

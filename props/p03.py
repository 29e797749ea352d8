"""P03: dimensionless numbers equal their definitions, in every alternative input form."""
from math import pi
from symx.harness import harness
import fluids.core as K
from fluids.constants import g as G0

META = dict(
    title='Dimensionless numbers equal their definitions in every input form',
    statement='Every dimensionless group and loss-coefficient helper of the core module returns its textbook definition for all positive inputs. '
              'Groups accepting alternative inputs (dynamic or kinematic viscosity, diffusivity or its components, optional gravity) give the same value for every sufficient combination of them and raise an error for an insufficient one.',
    over=['inputs', 'configurations'],
    text='all inputs in the stated boxes and every subset of the optional arguments',
    why='tests evaluate each group at one point and one or two input forms; wrong roles of equal-looking arguments or untested combinations pass',
    files=['fluids/core.py'],
    mech=['core dimensionless-number functions', 'optional-argument selection'],
)

# name -> (arguments with ranges, definition written independently from the documentation)
DEF = {
    'Weber': (dict(V=(1e-3, 1e3), L=(1e-4, 10.), rho=(.1, 2e4), sigma=(1e-4, 1.)), lambda V, L, rho, sigma: rho * V**2 * L / sigma),
    'Mach': (dict(V=(1e-3, 1e4), c=(10., 5e3)), lambda V, c: V / c),
    'Confinement': (dict(D=(1e-4, 1.), rhol=(500., 2e4), rhog=(.01, 400.), sigma=(1e-4, 1.), g=(1., 20.)), lambda D, rhol, rhog, sigma, g: (sigma / (g * (rhol - rhog)))**0.5 / D),
    'Morton': (dict(rhol=(500., 2e4), rhog=(.01, 400.), mul=(1e-5, 10.), sigma=(1e-4, 1.), g=(1., 20.)), lambda rhol, rhog, mul, sigma, g: g * mul**4 * (rhol - rhog) / (rhol**2 * sigma**3)),
    'Knudsen': (dict(path=(1e-9, 1.), L=(1e-9, 10.)), lambda path, L: path / L),
    'Bond': (dict(rhol=(500., 2e4), rhog=(.01, 400.), sigma=(1e-4, 1.), L=(1e-4, 10.)), lambda rhol, rhog, sigma, L: G0 * (rhol - rhog) * L**2 / sigma),
    'Eotvos': (dict(rhol=(500., 2e4), rhog=(.01, 400.), sigma=(1e-4, 1.), L=(1e-4, 10.)), lambda rhol, rhog, sigma, L: G0 * (rhol - rhog) * L**2 / sigma),
    'Rayleigh': (dict(Pr=(1e-3, 1e4), Gr=(1e-3, 1e12)), lambda Pr, Gr: Pr * Gr),
    'Strouhal': (dict(f=(1e-3, 1e4), L=(1e-4, 10.), V=(1e-3, 1e3)), lambda f, L, V: f * L / V),
    'Nusselt': (dict(h=(1e-2, 1e6), L=(1e-4, 10.), k=(1e-3, 500.)), lambda h, L, k: h * L / k),
    'Biot': (dict(h=(1e-2, 1e6), L=(1e-4, 10.), k=(1e-3, 500.)), lambda h, L, k: h * L / k),
    'Sherwood': (dict(K=(1e-6, 10.), L=(1e-4, 10.), D=(1e-12, 1e-2)), lambda K, L, D: K * L / D),
    'Stanton': (dict(h=(1e-2, 1e6), V=(1e-3, 1e3), rho=(.1, 2e4), Cp=(100., 1e4)), lambda h, V, rho, Cp: h / (V * rho * Cp)),
    'Euler': (dict(dP=(1., 1e8), rho=(.1, 2e4), V=(1e-3, 1e3)), lambda dP, rho, V: dP / (rho * V**2)),
    'Cavitation': (dict(P=(1e3, 1e8), Psat=(1., 1e8), rho=(.1, 2e4), V=(1e-3, 1e3)), lambda P, Psat, rho, V: (P - Psat) / (rho * V**2 / 2)),
    'Eckert': (dict(V=(1e-3, 1e3), Cp=(100., 1e4), dT=(.1, 1e3)), lambda V, Cp, dT: V**2 / (Cp * dT)),
    'Jakob': (dict(Cp=(100., 1e4), Hvap=(1e3, 1e7), Te=(.1, 1e3)), lambda Cp, Hvap, Te: Cp * Te / Hvap),
    'Power_number': (dict(P=(1., 1e8), L=(1e-2, 10.), N=(.1, 100.), rho=(.1, 2e4)), lambda P, L, N, rho: P / (rho * N**3 * L**5)),
    'Drag': (dict(F=(1e-3, 1e8), A=(1e-6, 100.), V=(1e-3, 1e3), rho=(.1, 2e4)), lambda F, A, V, rho: F / (A * rho * V**2 / 2)),
    'Stokes_number': (dict(V=(1e-3, 1e3), Dp=(1e-7, 1e-2), D=(1e-4, 10.), rhop=(1., 2e4), mu=(1e-6, 10.)), lambda V, Dp, D, rhop, mu: rhop * Dp**2 * V / (18 * mu * D)),
    'Capillary': (dict(V=(1e-3, 1e3), mu=(1e-6, 10.), sigma=(1e-4, 1.)), lambda V, mu, sigma: mu * V / sigma),
    'Archimedes': (dict(L=(1e-6, 10.), rhof=(.1, 2e4), rhop=(.1, 2e4), mu=(1e-6, 10.), g=(1., 20.)), lambda L, rhof, rhop, mu, g: L**3 * rhof * (rhop - rhof) * g / mu**2),
    'Ohnesorge': (dict(L=(1e-6, 10.), rho=(.1, 2e4), mu=(1e-6, 10.), sigma=(1e-4, 1.)), lambda L, rho, mu, sigma: mu / (rho * sigma * L)**0.5),
    'Suratman': (dict(L=(1e-6, 10.), rho=(.1, 2e4), mu=(1e-6, 10.), sigma=(1e-4, 1.)), lambda L, rho, mu, sigma: rho * sigma * L / mu**2),
    'Hagen': (dict(Re=(1., 1e8), fd=(1e-3, 10.)), lambda Re, fd: fd * Re**2 / 2),
    'Bejan_L': (dict(dP=(1., 1e8), L=(1e-6, 10.), mu=(1e-6, 10.), alpha=(1e-9, 1.)), lambda dP, L, mu, alpha: dP * L**2 / (mu * alpha)),
    'Bejan_p': (dict(dP=(1., 1e8), K=(1e-15, 1.), mu=(1e-6, 10.), alpha=(1e-9, 1.)), lambda dP, K, mu, alpha: dP * K / (mu * alpha)),
    'Boiling': (dict(G=(1e-2, 1e4), q=(1., 1e8), Hvap=(1e3, 1e7)), lambda G, q, Hvap: q / (G * Hvap)),
    'Dean': (dict(Re=(1., 1e8), Di=(1e-4, 1.), D=(1e-2, 100.)), lambda Re, Di, D: Re * (Di / D)**0.5),
    'relative_roughness': (dict(D=(1e-4, 10.), roughness=(0., 1e-2)), lambda D, roughness: roughness / D),
    'Peclet_mass': (dict(V=(1e-3, 1e3), L=(1e-4, 10.), D=(1e-12, 1e-2)), lambda V, L, D: V * L / D),
    'Fourier_mass': (dict(t=(1e-3, 1e6), L=(1e-4, 10.), D=(1e-12, 1e-2)), lambda t, L, D: t * D / L**2),
    'thermal_diffusivity': (dict(k=(1e-3, 500.), rho=(.1, 2e4), Cp=(100., 1e4)), lambda k, rho, Cp: k / (rho * Cp)),
    'c_ideal_gas': (dict(T=(10., 5e3), k=(1.01, 2.), MW=(1., 500.)), lambda T, k, MW: (k * 8.31446261815324 * T * 1000 / MW)**0.5),
    'K_from_f': (dict(fd=(1e-3, 1.), L=(1e-2, 1e4), D=(1e-4, 10.)), lambda fd, L, D: fd * L / D),
    'dP_from_K': (dict(K=(1e-3, 1e3), rho=(.1, 2e4), V=(1e-3, 1e3)), lambda K, rho, V: K * rho * V**2 / 2),
    'head_from_K': (dict(K=(1e-3, 1e3), V=(1e-3, 1e3), g=(1., 20.)), lambda K, V, g: K * V**2 / (2 * g)),
}


def mk(name):
    args, ref = DEF[name]
    f = getattr(K, name)

    @harness('P03', 'def_' + name, funcs='core.' + name, bounds=str(args))
    def h(ctx):
        v = {a: ctx.real(a, *b) for a, b in args.items()}
        ctx.close(name + ' equals its definition', f(**v), ref(**v))


for n in DEF:
    mk(n)


def subset(ctx, vals):
    """vals: name -> value; every subset of the optional inputs is tried"""
    names = list(vals)
    n = ctx.choice('given', list(range(2 ** len(names))))
    return {k: (vals[k] if n >> i & 1 else None) for i, k in enumerate(names)}


def forms(name, f, fixed, opt, derived, sufficient, ref):
    """fixed inputs; independent optional inputs; derived optional inputs (consistent);
    sufficient: list of sets of optional inputs each of which determines the number."""
    @harness('P03', 'forms_' + name, funcs='core.' + name, timeout=90, bounds='every subset of the optional inputs')
    def h(ctx):
        fx = {a: ctx.real(a, *b) for a, b in fixed.items()}
        o = {a: ctx.real(a, *b) for a, b in opt.items()}
        allv = dict(o)
        for k, d in derived.items():
            allv[k] = d(**o)
        given = subset(ctx, allv)
        have = {k for k, v in given.items() if v is not None}
        if any(s <= have for s in sufficient):
            ctx.close('%s from %s' % (name, sorted(have)), f(**fx, **given), ref(**fx, **allv))
        else:
            ctx.raises('%s from only %s' % (name, sorted(have)), f, **fx, **given)


visc = dict(rho=(.1, 2e4), mu=(1e-6, 10.))
dnu = {'nu': lambda rho, mu, **k: mu / rho}
therm = dict(rho=(.1, 2e4), Cp=(100., 1e4), k=(1e-3, 500.))
dal = {'alpha': lambda rho, Cp, k, **_: k / (rho * Cp)}
sv = [{'rho', 'mu'}, {'nu'}]
st = [{'rho', 'Cp', 'k'}, {'alpha'}]
VL = dict(V=(1e-3, 1e3), L=(1e-4, 10.))
forms('Reynolds', K.Reynolds, dict(V=(1e-3, 1e3), D=(1e-4, 10.)), visc, dnu, sv, lambda V, D, rho, mu, nu: rho * V * D / mu)
forms('Peclet_heat', K.Peclet_heat, VL, therm, dal, st, lambda V, L, rho, Cp, k, alpha: rho * Cp * V * L / k)
forms('Fourier_heat', K.Fourier_heat, dict(t=(1e-3, 1e6), L=(1e-4, 10.)), therm, dal, st, lambda t, L, rho, Cp, k, alpha: k * t / (rho * Cp * L**2))
forms('Graetz_heat', K.Graetz_heat, dict(V=(1e-3, 1e3), D=(1e-4, 10.), x=(1e-3, 100.)), therm, dal, st, lambda V, D, x, rho, Cp, k, alpha: rho * Cp * V * D**2 / (x * k))
forms('Schmidt', K.Schmidt, dict(D=(1e-12, 1e-2)), visc, dnu, sv, lambda D, rho, mu, nu: mu / (D * rho))
forms('Lewis', K.Lewis, dict(D=(1e-12, 1e-2)), therm, dal, st, lambda D, rho, Cp, k, alpha: k / (rho * Cp * D))
forms('Prandtl', K.Prandtl, {}, dict(rho=(.1, 2e4), Cp=(100., 1e4), k=(1e-3, 500.), mu=(1e-6, 10.)),
      {'nu': lambda rho, mu, **_: mu / rho, 'alpha': lambda rho, Cp, k, **_: k / (rho * Cp)},
      [{'k', 'Cp', 'mu'}, {'nu', 'rho', 'Cp', 'k'}, {'nu', 'alpha'}], lambda rho, Cp, k, mu, nu, alpha: Cp * mu / k)


@harness('P03', 'forms_Grashof', funcs='core.Grashof', timeout=90, bounds='every subset of the optional inputs; either temperature larger')
def grashof(ctx):
    L, beta, g = ctx.real('L', 1e-4, 10.), ctx.real('beta', 1e-5, 1e-1), ctx.real('g', 1., 20.)
    T1, T2 = ctx.real('T1', 100., 2000.), ctx.real('T2', 100., 2000.)
    rho, mu = ctx.real('rho', .1, 2e4), ctx.real('mu', 1e-6, 10.)
    given = subset(ctx, dict(rho=rho, mu=mu, nu=mu / rho))
    have = {k for k, v in given.items() if v is not None}
    if {'rho', 'mu'} <= have or 'nu' in have:
        Gr = K.Grashof(L, beta, T1, T2, g=g, **given)
        dT = T1 - T2 if T1 >= T2 else T2 - T1
        ctx.close('Grashof', Gr, g * beta * dT * L**3 * (rho / mu)**2)
        ctx.close('Grashof symmetric in temperatures', Gr, K.Grashof(L, beta, T2, T1, g=g, **given))
    else:
        ctx.raises('Grashof underspecified', K.Grashof, L, beta, T1, T2, g=g, **given)


@harness('P03', 'froude', funcs='core.Froude, core.Froude_densimetric')
def froude(ctx):
    V, L, g = ctx.real('V', 1e-3, 1e3), ctx.real('L', 1e-4, 100.), ctx.real('g', 1., 20.)
    Fr = K.Froude(V, L, g=g)
    ctx.close('Froude', Fr, V / (g * L)**0.5)
    ctx.close('Froude squared', K.Froude(V, L, g=g, squared=True), V**2 / (g * L))
    ctx.close('Froude default gravity', K.Froude(V, L), V / (G0 * L)**0.5)
    r1 = ctx.real('rho1', 200., 2e4)
    r2 = ctx.real('rho2', 0.1, 199.)
    ctx.close('densimetric heavy', K.Froude_densimetric(V, L, r1, r2, g=g), Fr * (r1 / (r1 - r2))**0.5)
    ctx.close('densimetric light', K.Froude_densimetric(V, L, r1, r2, heavy=False, g=g), Fr * (r2 / (r1 - r2))**0.5)


@harness('P03', 'relations', funcs='core: inter-relations')
def relations(ctx):
    V, L, rho, mu = ctx.real('V', 1e-3, 1e3), ctx.real('L', 1e-4, 10.), ctx.real('rho', .1, 2e4), ctx.real('mu', 1e-6, 10.)
    Cp, k, s, D = ctx.real('Cp', 100., 1e4), ctx.real('k', 1e-3, 500.), ctx.real('sigma', 1e-4, 1.), ctx.real('Dm', 1e-12, 1e-2)
    Re = K.Reynolds(V, L, rho, mu)
    Pr = K.Prandtl(Cp=Cp, k=k, mu=mu)
    Sc = K.Schmidt(D, mu=mu, rho=rho)
    We = K.Weber(V, L, rho, s)
    ctx.close('Pe = Re Pr', K.Peclet_heat(V, L, rho, Cp, k), Re * Pr)
    ctx.close('Pe_m = Re Sc', K.Peclet_mass(V, L, D), Re * Sc)
    ctx.close('Le = Sc/Pr', K.Lewis(D, rho=rho, Cp=Cp, k=k), Sc / Pr)
    ctx.close('Oh = sqrt(We)/Re', K.Ohnesorge(L, rho, mu, s), We**0.5 / Re)
    ctx.close('Su = 1/Oh^2', K.Suratman(L, rho, mu, s), 1 / K.Ohnesorge(L, rho, mu, s)**2)
    ctx.close('Ca = We/Re', K.Capillary(V, mu, s), We / Re)
    h = ctx.real('h', 1e-2, 1e6)
    ctx.close('St = Nu/(Re Pr)', K.Stanton(h, V, rho, Cp), K.Nusselt(h, L, k) / (Re * Pr))
    ctx.close('alias Pr', K.Pr(Cp=Cp, k=k, mu=mu), Pr)
    ctx.close('alias alpha', K.alpha(k, rho, Cp), k / (rho * Cp))


@harness('P03', 'gravity', funcs='core.gravity')
def grav(ctx):
    lat, H = ctx.real('lat', -90., 90.), ctx.real('H', 0., 1e5)
    ctx.close('symmetric in latitude', K.gravity(lat, H), K.gravity(-lat, H))
    ctx.le('gravity decreases with height', K.gravity(lat, H), K.gravity(lat, 0.0))
    ctx.le('between equator and pole', K.gravity(lat, 0.0), 9.8326)
    ctx.le('above the equatorial value', 9.7803, K.gravity(lat, 0.0))

"""P24: US Standard Atmosphere 1976, pressure integral and air mass."""
from math import cos, exp, pi, sqrt

from symx.harness import harness
import fluids.atmosphere as F

META = dict(
    title='The 1976 standard atmosphere follows its definition at every altitude',
    statement='ATMOSPHERE_1976(Z, dT) has geopotential height H = r0 Z/(r0+Z), the temperature of the piecewise linear profile of the standard (base heights 0, 11, 20, 32, 47, 51, 71 and 84.852 km, the first layer continued below sea level and the last, isothermal, above) plus dT, and the hydrostatic pressure of that profile, which does not depend on dT; density is P M0/(R T), v_sonic sqrt(1.4 R T/M0), mu and k the documented formulas at T, and g = g0 (r0/(r0+Z))^2. Pressure falls and temperature is continuous with altitude across every layer. '
              'pressure_integral(T1, P1, dH) integrates g rho from the elevation at which the standard pressure is P1 over dH, with the temperature offset that gives T1 there. airmass integrates the density function over the documented refracted path from 0 to H_max for every elevation angle, refractive index and planet radius.',
    over=['inputs'],
    text='Z -610 m to 110 km, dT -60 to 60 K, pressures 0.4 to 108000 Pa; angles 0.1 to 90 degrees, refractive index 1 to 1.01, any density function; the level where two layers meet is excluded (both give the same value)',
    why='tests check tabulated altitudes without a temperature offset and one air mass',
    files=['fluids/atmosphere.py'],
    mech=['ATMOSPHERE_1976.__init__, _get_ind_from_H', 'ATMOSPHERE_1976.density, sonic_velocity, viscosity, thermal_conductivity, gravity', 'ATMOSPHERE_1976.pressure_integral', 'airmass'],
    note='secant and quad are replaced by recorders: the residual handed to the root finder and the integrand and limits handed to the quadrature must be the documented ones at every point.',
)

R0, G, M, R = 6356766.0, 9.80665, 28.9644, 8314.32
HB = [0.0, 11e3, 20e3, 32e3, 47e3, 51e3, 71e3, 84852.0]
LB = [-6.5e-3, 0.0, 1e-3, 2.8e-3, 0.0, -2.8e-3, -2e-3, 0.0]


def bases():
    T, P, out = 288.15, 101325.0, []
    for i in range(8):
        out.append((T, P))
        if i < 7:
            d = HB[i + 1] - HB[i]
            T2 = T + LB[i] * d
            P *= exp(-G * M * d / (R * T)) if LB[i] == 0 else (T / T2)**(G * M / (R * LB[i]))
            T = T2
    return out


BASE = bases()


def layer(ctx):
    i = ctx.choice('layer', list(range(8)))
    lo = -610. if i == 0 else HB[i] + 1e-3
    hi = HB[i + 1] - 1e-3 if i < 7 else 108000.
    return i, ctx.real('H', lo, hi)


def standard(i, H):
    T0, P0 = BASE[i]
    h = H - HB[i]
    if LB[i] == 0:
        return T0, P0 * exp(-G * M * h / (R * T0))
    T = T0 + LB[i] * h
    return T, P0 * (T0 / T)**(G * M / (R * LB[i]))


def check(ctx, a, i, H, dT, Z):
    T, P = standard(i, H)
    T = T + dT
    ctx.close('H', a.H, H)
    ctx.close('T', a.T, T, rtol=1e-7)
    ctx.close('P', a.P, P, rtol=1e-6)
    ctx.close('rho', a.rho, P * M / (R * T), rtol=1e-6)
    ctx.close('v_sonic', a.v_sonic, sqrt(1.4 * R * T / M), rtol=1e-6)
    ctx.close('mu', a.mu, 1.458e-6 * T**1.5 / (T + 110.4), rtol=1e-6)
    ctx.close('k', a.k, 2.64638e-3 * T**1.5 / (T + 245.4 * 10**(-12. / T)), rtol=1e-6)
    ctx.close('g', a.g, G * (R0 / (R0 + Z))**2)


@harness('P24', timeout=120, funcs='ATMOSPHERE_1976', bounds='every layer; dT -60 .. 60 K or not given')
def atmosphere(ctx):
    i, H = layer(ctx)
    Z = R0 * H / (R0 - H)
    if ctx.choice('dT given', [True, False]):
        dT = ctx.real('dT', -60., 60.)
        a = F.ATMOSPHERE_1976(Z, dT)
    else:
        dT = 0.0
        a = F.ATMOSPHERE_1976(Z)
    check(ctx, a, i, H, dT, Z)


@harness('P24', timeout=60, funcs='ATMOSPHERE_1976 methods', bounds='T 100 .. 500 K, P .1 .. 2e5 Pa, Z -610 .. 110 km')
def methods(ctx):
    A = F.ATMOSPHERE_1976
    T, P, Z = ctx.real('T', 100., 500.), ctx.real('P', 0.1, 2e5), ctx.real('Z', -610., 110e3)
    ctx.close('density', A.density(T, P), P * M / (R * T))
    ctx.close('sonic', A.sonic_velocity(T), sqrt(1.4 * R * T / M))
    ctx.close('viscosity', A.viscosity(T), 1.458e-6 * T**1.5 / (T + 110.4))
    ctx.close('k', A.thermal_conductivity(T), 2.64638e-3 * T**1.5 / (T + 245.4 * 10**(-12. / T)))
    ctx.close('g', A.gravity(Z), G * (R0 / (R0 + Z))**2)


@harness('P24', timeout=120, funcs='ATMOSPHERE_1976', bounds='the two sides of every layer boundary, and the boundaries')
def layers_meet(ctx):
    i = ctx.choice('boundary', list(range(8)))
    Z = R0 * HB[i] / (R0 - HB[i])
    e = ctx.real('distance', 1e-6, 1.)
    lo, at, hi = F.ATMOSPHERE_1976(Z - e), F.ATMOSPHERE_1976(Z), F.ATMOSPHERE_1976(Z + e)
    ctx.close('T at', at.T, BASE[i][0], rtol=1e-7)
    ctx.close('P at', at.P, BASE[i][1], rtol=1e-6)
    for n, a in (('below', lo), ('above', hi)):
        ctx.le('T ' + n, abs(a.T - at.T), 0.0066 * e + 1e-6)
    ctx.lt('P falls to', at.P * (1 - 1e-9), lo.P)
    ctx.lt('P falls from', hi.P, at.P * (1 + 1e-9))


@harness('P24', timeout=120, funcs='ATMOSPHERE_1976', bounds='two altitudes of one layer')
def pressure_falls(ctx):
    i, H = layer(ctx)
    f = ctx.real('share', 0.01, 0.99)
    top = HB[i + 1] - 1e-3 if i < 7 else 108000.
    H2 = H + (top - H) * f
    ctx.assume(H2 - H > 1.)
    a, b = F.ATMOSPHERE_1976(R0 * H / (R0 - H)), F.ATMOSPHERE_1976(R0 * H2 / (R0 - H2))
    ctx.lt('falls', b.P, a.P)


@harness('P24', timeout=120, funcs='ATMOSPHERE_1976.pressure_integral; secant and quad recorded', bounds='the elevation of P1 and the integration point in any layer')
def pressure_integral(ctx):
    i, H = layer(ctx)
    Z = R0 * H / (R0 - H)
    T1, P1, dH = ctx.real('T1', 150., 350.), ctx.real('P1', 0.4, 108000.), ctx.real('dH', 0.1, 2000.)
    seen = []

    def solve(f, x0=None, *z, args=(), **k):
        seen.append(('root', f(Z, *args)))
        return Z

    def integrate(f, a, b, *z, args=(), **k):
        seen.append(('limits', a, b))
        seen.append(('integrand', f(Z, *args)))
        return [42.5, 0.0]
    rs, rq = F.secant, F.quad
    F.secant, F.quad = solve, integrate
    try:
        got = F.ATMOSPHERE_1976.pressure_integral(T1, P1, dH)
    finally:
        F.secant, F.quad = rs, rq
    T, P = standard(i, H)
    d = dict((s[0], s[1:]) for s in seen)
    ctx.close('the integral', got, 42.5)
    ctx.close('residual', d['root'][0] + P1, P, rtol=1e-6)
    ctx.close('from', d['limits'][0], Z)
    ctx.close('to', d['limits'][1], Z + dH)
    ctx.close('integrand', d['integrand'][0], G * (R0 / (R0 + Z))**2 * P * M / (R * T1), rtol=1e-6)


@harness('P24', timeout=60, funcs='airmass; quad recorded', bounds='any density function; every optional argument given or not')
def air_mass(ctx):
    angle, z = ctx.real('angle', 0.1, 90.), ctx.real('z', 1., 86400.)
    rho0, rho = ctx.real('rho(0)', 0.01, 100.), ctx.real('rho(z)/rho(0)', 1e-8, 1.)
    rho = rho * rho0
    kw = {}
    H, Rp, RI = 86400.0, 6.371229E6, 1.000276
    if ctx.choice('options', [True, False]):
        H, Rp, RI = ctx.real('H_max', 100., 1e6), ctx.real('R_planet', 1e6, 1e8), ctx.real('RI', 1., 1.01)
        kw = dict(H_max=H, R_planet=Rp, RI=RI)
    c = (1 + 2 * (RI - 1) * (1 - rho / rho0)) * (cos(angle * pi / 180) / (1 + z / Rp))**2
    ctx.assume(c < 0.999999)
    seen = []

    def density(Z):
        return rho0 if isinstance(Z, float) and Z == 0 else rho

    def integrate(f, a, b, *w, args=(), **k):
        seen.extend([a, b, f(z, *args)])
        return [42.5, 0.0]
    rq = F.quad
    F.quad = integrate
    try:
        got = F.airmass(density, angle, **kw)
    finally:
        F.quad = rq
    ctx.close('the integral', got, 42.5)
    ctx.close('from', seen[0], 0.0)
    ctx.close('to', seen[1], H)
    ctx.close('integrand', seen[2], rho / sqrt(1 - c))

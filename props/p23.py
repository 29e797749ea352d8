"""P23: particle size distributions and sieve series."""
import json
import os
from decimal import Decimal
from math import erf, exp, log, pi, sqrt

from symx.harness import harness
from symx.formula import same_formula
import fluids.particle_size_distribution as F
from fluids.numerics import gamma, gammaincc

T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))['sieves']

META = dict(
    title='Particle size distributions convert, truncate and average consistently',
    statement='The lognormal, Gates-Gaudin-Schuhman and Rosin-Rammler functions equal their documented pdf, cdf and basis integral. '
              'PSDLognormal, PSDGatesGaudinSchuhman and PSDRosinRammler give, in every order n and with any combination of d_min and d_max, pdf(d, n) = d^(n-order) q(d) over its integral between the limits and cdf(d, n) its integral up to d (0 below d_min, 1 above d_max, pdf 0 outside), so the cdf runs from 0 to 1; mean_size(p, q) is the moment ratio over the same limits, mean_size_ISO(k, r) = mean_size(k+r, r), vssa = 6/D[3,2], dn inverts cdf within the limits and rejects fractions outside 0 to 1, and the discrete fractions are differences of the cdf. '
              'A discrete ParticleSizeDistribution given in number, length, area or volume fractions, as fractions, counts or cumulative values, at points or size classes, has all four bases proportional to fraction over representative diameter power, each summing to 1 and returning the given basis, with the documented mean sizes and specific surface. '
              'psd_spacing returns the documented linear, logarithmic or Renard mesh or exactly the sieves of the named series between the limits; every sieve is named by its opening in millimetres and the series are complete and ordered.',
    over=['inputs'],
    text='orders 0 to 3 (and 4 for conversions), s 0.2 to 1.5, m 0.3 to 6, diameters within a factor 1e4 of the characteristic one, truncation at any ordered pair of limits; two or three bins of any fractions and increasing diameters; meshes of 2 to 5 points; Rosin-Rammler and GGS conversions where the moment exists (m + n - order > 0, above 0.6 for Rosin-Rammler, whose conversions are taken at exponents 0.9, 1.6 and 4 without d_min, and whose means without limits)',
    why='tests check a few distributions with one or two orders; truncated conversions, cumulative inputs and GGS truncation were untested and wrong (fixed)',
    files=['fluids/particle_size_distribution.py'],
    mech=['pdf_lognormal, cdf_lognormal, pdf_lognormal_basis_integral', 'pdf_Gates_Gaudin_Schuhman, cdf_..., ..._basis_integral', 'pdf_Rosin_Rammler, cdf_..., ..._basis_integral',
          'ParticleSizeDistributionContinuous.pdf, cdf, delta_cdf, dn, mean_size, vssa, fractions_discrete', 'ParticleSizeDistribution', 'psd_spacing, sieve series'],
    note='erf, gamma and the incomplete gamma function are uninterpreted (the same argument gives the same value; erf and the incomplete gamma function are constant where they are exactly 0, 1 or -1 in double precision). The root finder of dn is replaced by an arbitrary point at which the residual must be cdf - fraction, with a valid bracket. PSDInterpolated and PSDCustom (scipy splines and quadrature) are not covered.',
)

D, DC = (1e-9, 1.), (1e-6, 1e-2)


def rel(ctx, lo=1e-4, hi=1e4, name='d/dc'):
    return ctx.real(name, lo, hi)


@harness('P23', funcs='pdf_lognormal, cdf_lognormal, pdf_lognormal_basis_integral', bounds='d/dc 1e-4 .. 1e4, s .2 .. 1.5, n -3 .. 4')
def lognormal(ctx):
    dc, s, x = ctx.real('dc', *DC), ctx.real('s', 0.2, 1.5), rel(ctx)
    n = ctx.choice('n', [-3, -2, -1, 0, 1, 2, 3, 4])
    d = x * dc
    ctx.close('pdf', F.pdf_lognormal(d, dc, s), exp(-log(x)**2 / (2 * s**2)) / (d * s * sqrt(2 * pi)))
    ctx.close('cdf', F.cdf_lognormal(d, dc, s), (1 + erf(log(x) / (s * sqrt(2)))) / 2)
    ctx.close('integral', F.pdf_lognormal_basis_integral(d, dc, s, n), -exp(s**2 * n**2 / 2) / 2 * dc**n * erf((s**2 * n - log(x)) / (sqrt(2) * s)))
    ctx.close('pdf at 0', F.pdf_lognormal(0.0, dc, s), 0.0)
    ctx.close('cdf at 0', F.cdf_lognormal(0.0, dc, s), 0.0)


@harness('P23', funcs='pdf_Gates_Gaudin_Schuhman, cdf_Gates_Gaudin_Schuhman, pdf_Gates_Gaudin_Schuhman_basis_integral', bounds='d/dc 1e-4 .. 100, m .3 .. 6, n -3 .. 4')
def GGS(ctx):
    dc, m, x = ctx.real('dc', *DC), ctx.real('m', 0.3, 6.), rel(ctx, hi=100.)
    n = ctx.choice('n', [-3, -2, -1, 0, 1, 2, 3, 4])
    ctx.assume((x - 1)**2 > 1e-12)
    ctx.assume((m + n)**2 > 1e-4)
    d = x * dc
    inside = x < 1
    ctx.close('pdf', F.pdf_Gates_Gaudin_Schuhman(d, dc, m), m / d * x**m if inside else 0.0)
    ctx.close('cdf', F.cdf_Gates_Gaudin_Schuhman(d, dc, m), x**m if inside else 1.0)
    if inside:
        ctx.close('integral', F.pdf_Gates_Gaudin_Schuhman_basis_integral(d, dc, m, n), m / (m + n) * dc**n * x**(m + n))


@harness('P23', funcs='pdf_Rosin_Rammler, cdf_Rosin_Rammler, pdf_Rosin_Rammler_basis_integral', bounds='k d^m 1e-6 .. 100, m .3 .. 6, n -3 .. 4 with m + n > 0')
def Rosin_Rammler(ctx):
    d, m, x = ctx.real('d', *D), ctx.real('m', 0.3, 6.), ctx.real('k d^m', 1e-6, 100.)
    n = ctx.choice('n', [-3, -2, -1, 0, 1, 2, 3, 4])
    ctx.assume(m + n > 0.01)
    k = x * d**-m
    a = (m + n) / m
    ctx.close('pdf', F.pdf_Rosin_Rammler(d, k, m), m * x / d * exp(-x))
    ctx.close('cdf', F.cdf_Rosin_Rammler(d, k, m), 1 - exp(-x))
    ctx.close('integral', F.pdf_Rosin_Rammler_basis_integral(d, k, m, n), -d**n * x**(1 - a) * gamma(a) * gammaincc(a, x))


# ------------------------------------------------------------------ continuous classes
class LN:
    name = 'lognormal'

    def __init__(self, ctx):
        self.dc, self.s = ctx.real('dc', *DC), ctx.real('s', 0.2, 1.5)

    def make(self, **k):
        return F.PSDLognormal(d_characteristic=self.dc, s=self.s, **k)

    def q(self, d):
        return exp(-log(d / self.dc)**2 / (2 * self.s**2)) / (d * self.s * sqrt(2 * pi))

    def moment(self, p, a, b):
        """integral of x^p q(x) from a (None: 0) to b (None: infinity)"""
        def E(x):
            return erf((log(x / self.dc) - self.s**2 * p) / (sqrt(2) * self.s))
        return exp(self.s**2 * p**2 / 2) / 2 * self.dc**p * ((1 if b is None else E(b)) - (-1 if a is None else E(a)))

    def order(self, ctx, p, cut):
        self.p = p

    def at(self, ctx, name, of=None):
        """a diameter by its position in the distribution of order asked for"""
        if of is not None:
            return of * exp(-sqrt(2) * self.s * ctx.real(name, 0.001, 4.))
        return self.dc * exp(sqrt(2) * self.s * ctx.real(name, -3., 3.) + self.s**2 * self.p)

    def above(self, ctx, name, of):
        return of * exp(sqrt(2) * self.s * ctx.real(name, 0.001, 4.))


class GG:
    """the exponent e = m + p of the integral is the variable"""
    name = 'GGS'

    def __init__(self, ctx):
        self.dc = ctx.real('dc', *DC)

    def order(self, ctx, p, cut):
        neg = p < 0 and cut and ctx.choice('sign of m + n - order', [1, -1]) < 0
        self.e = -ctx.real('-(m + n - order)', 0.1, 2.7) if neg else ctx.real('m + n - order', 0.1, 6.)
        self.m = self.e - p
        self.root = -1 / self.e if neg else 1 / self.e
        ctx.assume(self.m > 0.1)

    def at(self, ctx, name, of=None):
        """a diameter below dc or a limit"""
        return (self.dc if of is None else of) * ctx.real(name, 0.02, 0.98)**self.root

    def above(self, ctx, name, of):
        return of * ctx.real(name, 0.02, 0.98)**-self.root

    def make(self, **k):
        return F.PSDGatesGaudinSchuhman(self.dc, self.m, **k)

    def q(self, d):
        return self.m / d * (d / self.dc)**self.m if d < self.dc else 0.0

    def moment(self, p, a, b):
        e = self.m + p
        if b is None or b > self.dc:
            b = self.dc
        return self.m / e * self.dc**p * ((b / self.dc)**e - (0.0 if a is None else (a / self.dc)**e))


class RR:
    """dc is the diameter at which k d^m = 1; diameters are given by x = k d^m"""
    name = 'RR'

    def __init__(self, ctx):
        self.ctx, self.dc, self._m = ctx, ctx.real('dc', 1e-4, 0.1), None

    @property
    def m(self):
        if self._m is None:
            self._m = self.ctx.real('m', 0.6, 4.)
        return self._m

    def order(self, ctx, p, cut):
        if p and self._m is None:
            self._m = ctx.choice('m', [0.9, 1.6, 4.])
        if self._m is not None:
            ctx.assume(self._m + p > 0.6)

    def at(self, ctx, name, of=None):
        return (self.dc if of is None else of) * ctx.real(name, 0.3, 0.98)**(1 / self.m)

    def above(self, ctx, name, of):
        return of * ctx.real(name, 0.1, 0.98)**(-1 / self.m)

    def make(self, **k):
        return F.PSDRosinRammler(k=self.dc**-self.m, m=self.m, **k)

    def q(self, d):
        x = (d / self.dc)**self.m
        return self.m / d * x * exp(-x)

    def moment(self, p, a, b):
        if p == 0:
            def Q(x):
                return exp(-(x / self.dc)**self.m)
            return (1.0 if a is None else Q(a)) - (0.0 if b is None else Q(b))
        e = 1 + p / self.m

        def Q(x):
            return gammaincc(e, (x / self.dc)**self.m)
        return gamma(e) * self.dc**p * ((1.0 if a is None else Q(a)) - (0.0 if b is None else Q(b)))


def case(ctx, cls, pairs, means=False):
    """distribution, its limits, order, order asked for, keywords"""
    M = cls(ctx)
    r, n = ctx.choice('order, n', pairs)
    same = not means and n in (None, 3 if r is None else r)
    cut = ctx.choice('limits', ['none', 'd_min', 'd_max', 'both'] if same or cls is not RR else ['none'] if means else ['none', 'd_max'])
    kw = {} if r is None else dict(order=r)
    r = 3 if r is None else r
    low = cut in ('d_min', 'both')
    if not means:
        M.order(ctx, 0 if n is None else n - r, low)
    elif cls is GG:
        M.order(ctx, min(n) - r, False)
    else:
        for q in n:
            M.order(ctx, q - r, low)
    a = b = None
    if low:
        a = kw['d_min'] = M.at(ctx, 'position of d_min')
    if cut == 'both':
        b = kw['d_max'] = M.above(ctx, 'position of d_max above d_min', a)
    if cut == 'd_max':
        b = kw['d_max'] = M.at(ctx, 'position of d_max') if ctx.choice('d_max below d_characteristic', [True, False]) else M.above(ctx, 'position of d_max', M.dc)
    if cls is GG and cut == 'both':
        ctx.assume((b / M.dc - 1)**2 > 1e-12)
    return M, a, b, r, n, kw


PAIRS = [(None, None), (None, 0), (3, 1), (3, 2), (3, 3), (3, 4), (0, None), (0, 3), (0, 1), (1, 3), (2, 0)]


def where(ctx, M, a, b):
    """a diameter and on which side of the limits it is"""
    side = ctx.choice('side', [0] + [-1] * (a is not None) + [1] * (b is not None))
    if side < 0:
        return M.at(ctx, 'd below d_min', a), -1
    if side > 0:
        return M.above(ctx, 'd above d_max', b), 1
    if a is None and b is None:
        if ctx.choice('d', ['below d_characteristic', 'above']) == 'above':
            return M.above(ctx, 'd', M.dc), 0
        return M.at(ctx, 'd'), 0
    if a is None:
        d = M.at(ctx, 'd below d_max', b)
    elif b is None:
        d = M.above(ctx, 'd above d_min', a)
    else:
        d = a * (b / a)**ctx.real('share', 0.001, 0.999)
    if type(M) is GG:
        ctx.assume((d / M.dc - 1)**2 > 1e-12)
    return d, 0


def continuous(cls):
    nm = cls.name

    @harness('P23', 'distribution_' + nm, timeout=240, domain='assume', funcs=cls.__name__ and 'pdf, cdf, delta_cdf, fractions_discrete, cdf_discrete of ' + nm, bounds='orders 0 .. 3, n 0 .. 4 or not given; every combination of limits', goal_timeout=30)
    def dist(ctx):
        M, a, b, r, n, kw = case(ctx, cls, PAIRS)
        p = 0 if n is None else n - r
        d, side = where(ctx, M, a, b)
        psd = M.make(**kw)
        nk = {} if n is None else dict(n=n)
        tot = M.moment(p, a, b)
        want = 0.0 if side < 0 else 1.0 if side > 0 else M.moment(p, a, d) / tot
        ctx.close('cdf', psd.cdf(d, **nk), want, rtol=1e-6)
        ctx.close('pdf', psd.pdf(d, **nk), 0.0 if side else d**p * M.q(d) / tot, rtol=1e-6)

    @harness('P23', 'means_' + nm, timeout=240, domain='assume', funcs='mean_size, mean_size_ISO, vssa of ' + nm, bounds='orders 0 .. 3; nine pairs p, q; every combination of limits', goal_timeout=30)
    def means(ctx):
        M, a, b, r, (p, q), kw = case(ctx, cls, [(None, (3, 2)), (3, (4, 3)), (3, (1, 0)), (0, (3, 2)), (0, (1, 0)), (1, (3, 0)), (2, (0, 1)), (2, (5, 3)), (1, (2, 0)), (0, (4, 2))], True)
        psd = M.make(**kw)
        want = (M.moment(p - r, a, b) / M.moment(q - r, a, b))**(1.0 / (p - q))
        ctx.close('mean size', psd.mean_size(p, q), want)
        ctx.close('ISO', psd.mean_size_ISO(p - q, q), want)
        if (p, q) == (3, 2):
            ctx.close('vssa', psd.vssa, 6 / want)

    @harness('P23', 'quantile_' + nm, timeout=240, domain='assume', funcs='dn of ' + nm + '; brenth replaced by an arbitrary point', bounds='every fraction; orders; every combination of limits', goal_timeout=30)
    def quantile(ctx):
        M, a, b, r, n, kw = case(ctx, cls, [(None, None), (3, 0), (0, 3), (2, None)])
        p = 0 if n is None else n - r
        psd = M.make(**kw)
        nk = {} if n is None else dict(n=n)
        f = ctx.choice('fraction', ['0', '<0', '>1', '1', 'inside'])
        if f == '0':
            ctx.close('at 0', psd.dn(0.0, **nk), 0.0 if a is None else a)
            if a is None and b is not None:
                ctx.close('at 0', psd.dn(0, **nk), 0.0)
            return
        if f in ('<0', '>1'):
            x = -ctx.real('f', 1e-6, 10.) if f == '<0' else 1 + ctx.real('f', 1e-6, 10.)
            ctx.raises(f, psd.dn, x, exc='ValueError', **nk)
            return
        x = 1.0 if f == '1' else ctx.real('f', 1e-3, 0.999)
        d, side = where(ctx, M, a, b)
        if side:
            return
        seen, ends = [], []

        def solve(g, lo, hi, *z, **k):
            ends.extend([g(lo), g(hi)])
            seen.append(g(d))
            return d
        real = F.brenth
        F.brenth = solve
        try:
            ctx.close('the root', psd.dn(x, **nk), d)
        finally:
            F.brenth = real
        ctx.true('solved once', len(seen) == 1)
        tot = M.moment(p, a, b)
        ctx.close('residual', seen[0] + x, M.moment(p, a, d) / tot, rtol=1e-6)
        ctx.close('1 + cdf at the lower end', 1 + ends[0] + x, 1.0)
        ctx.close('cdf at the upper end', ends[1] + x, 1.0)


for c in (LN, GG, RR):
    continuous(c)


class Plain(F.ParticleSizeDistributionContinuous):
    """a distribution with arbitrary values at three diameters"""
    order, truncated, d_minimum, d_excessive = 3, False, 0.0, 100.0

    def __init__(self, at):
        self.at = at

    def cdf(self, d, n=None):
        return self.at[d, n]


@harness('P23', funcs='delta_cdf, fractions_discrete, cdf_discrete, ds_discrete', bounds='three diameters, arbitrary cdf values; every order')
def discretized(ctx):
    n = ctx.choice('n', [None, 0, 1, 2, 3])
    ds = [1e-5, 2e-5, 1e-4]
    v = [ctx.real('Q%d' % i, 0., 1.) for i in range(3)]
    w = [ctx.real('other Q%d' % i, 0., 1.) for i in range(3)]
    at = {}
    for k in (None, 0, 1, 2, 3):
        for d, x, y in zip(ds, v, w):
            at[d, k] = x if k == n else y
    psd = Plain(at)
    nk = {} if n is None else dict(n=n)
    for i, x in enumerate(psd.cdf_discrete(ds, **nk)):
        ctx.close('cdf %d' % i, x, v[i])
    out = psd.fractions_discrete(ds, **nk)
    ctx.same('number of fractions', len(out), 3)
    for i, x in enumerate(out):
        ctx.close('fraction %d' % i, x, v[i] - (v[i - 1] if i else 0))
    ctx.close('difference', psd.delta_cdf(ds[0], ds[2], **nk), v[2] - v[0])
    psd.dn = lambda f, **k: ds[0] if f == 0.001 else ds[2] if f == 0.999 else None
    for m in ('linear', 'logarithmic'):
        a, b = psd.ds_discrete(pts=3, limit=0.001, method=m), F.psd_spacing(ds[0], ds[2], pts=3, method=m)
        for i in range(3):
            ctx.close('%s mesh %d' % (m, i), a[i], b[i])
        a, b = psd.ds_discrete(d_min=2e-5, pts=3, limit=0.001, method=m), F.psd_spacing(2e-5, ds[2], pts=3, method=m)
        for i in range(3):
            ctx.close('%s mesh from d_min %d' % (m, i), a[i], b[i])
        a, b = psd.ds_discrete(d_max=2e-5, pts=3, limit=0.001, method=m), F.psd_spacing(ds[0], 2e-5, pts=3, method=m)
        for i in range(3):
            ctx.close('%s mesh to d_max %d' % (m, i), a[i], b[i])
    ctx.same('Renard', psd.ds_discrete(d_min=1e-5, pts=4, method='R5'), F.psd_spacing(d_min=1e-5, pts=4, method='R5'))


# ------------------------------------------------------------------ discrete distributions
def power(lo, hi, r):
    """representative power r of a class (hi given) or of a point"""
    if hi is None:
        return lo**r
    if r == -1:
        return log(hi / lo) / (hi - lo)
    return (hi**(r + 1) - lo**(r + 1)) / ((hi - lo) * (r + 1))


def bins(ctx, N=3):
    classes = ctx.choice('size classes', [False, True])
    ds = [ctx.real('d0', 1e-6, 1e-2)]
    for i in range(N if classes else N - 1):
        ds.append(ds[-1] * ctx.real('d%d/d%d' % (i + 1, i), 1.05, 10.))
    f = [ctx.real('f%d' % i, 0.01, 100.) for i in range(N)]
    c = [(ds[i], ds[i + 1] if classes else None) for i in range(N)]
    return classes, ds, f, c


BASES = ['number', 'length', 'area', 'volume']


@harness('P23', timeout=200, funcs='ParticleSizeDistribution', bounds='three bins, points or classes, orders 0 .. 3, counts, fractions or cumulative', goal_timeout=20)
def discrete_bases(ctx):
    classes, ds, f, c = bins(ctx)
    r = ctx.choice('order', [0, 1, 2, 3, 'default'])
    kw = {}
    if r == 'default':
        r = 3
    else:
        kw['order'] = r
    tot = sum(f)
    given = [x / tot for x in f]
    how = ctx.choice('given as', ['counts', 'cumulative'])
    if how == 'cumulative':
        psd = F.ParticleSizeDistribution(ds, [given[0], given[0] + given[1], 1.0], cdf=True, **kw)
    else:
        psd = F.ParticleSizeDistribution(ds, list(f), **kw)
    ctx.same('number of bins', psd.N, 3)
    ctx.same('size classes', psd.size_classes, classes)
    sets = [psd.number_fractions, psd.length_fractions, psd.area_fractions, psd.fractions]
    cums = [psd.number_cdf, psd.length_cdf, psd.area_cdf, psd.fraction_cdf]
    for i in range(3):
        ctx.close('the given basis %d' % i, sets[r][i], given[i])
    for k in range(4):
        s, q = sets[k], cums[k]
        ctx.close(BASES[k] + ' sum', sum(s), 1.0)
        ctx.close(BASES[k] + ' cdf 0', q[0], s[0])
        ctx.close(BASES[k] + ' cdf 1', q[1], s[0] + s[1])
        ctx.close(BASES[k] + ' cdf 2', q[2], 1.0)
    ctx.same('volume cdf', psd.volume_cdf is psd.fraction_cdf or [x is y for x, y in zip(psd.volume_cdf, psd.fraction_cdf)] == [True] * 3, True)
    v = [psd.fractions[i] for i in range(3)]
    for k in range(3):
        for i in (0, 2):
            ctx.close('%s ratio %d' % (BASES[k], i), sets[k][i] / sets[k][1], (v[i] / v[1]) * power(*c[1], 3 - k) / power(*c[i], 3 - k))


@harness('P23', timeout=200, funcs='ParticleSizeDistribution.mean_size, mean_size_ISO, Dis, di_power, vssa', bounds='two bins, points or classes, number fractions; p, q from -1 to 5', goal_timeout=20)
def discrete_means(ctx):
    classes, ds, f, c = bins(ctx, 2)
    psd = F.ParticleSizeDistribution(ds, list(f), order=0)
    for i in range(2):
        ctx.close('diameter %d' % i, psd.Dis[i], power(*c[i], 1))
    p, q = ctx.choice('p, q', [(3, 2), (4, 3), (1, 0), (2, 0), (3, 0), (2, 1), (0, 1), (5, 3), (4, 2), (0, -1), (-1, 2), (3, 3), (2, 2), (1, 1), (0, 0)])
    n = f
    if p != q:
        want = (sum(n[i] * power(*c[i], p) for i in range(2)) / sum(n[i] * power(*c[i], q) for i in range(2)))**(1.0 / (p - q))
    else:
        want = exp(sum(n[i] * power(*c[i], p) * log(power(*c[i], 1)) for i in range(2)) / sum(n[i] * power(*c[i], p) for i in range(2)))
    ctx.close('mean size', psd.mean_size(p, q), want)
    ctx.close('ISO', psd.mean_size_ISO(p - q, q), want)
    for i in range(2):
        ctx.close('power %d of %d' % (p, i), psd.di_power(i, power=p), power(*c[i], p))
    v = psd.fractions
    ctx.close('vssa', psd.vssa, sum(6 * v[i] / power(*c[i], 1) for i in range(2)))


# ------------------------------------------------------------------ meshes and sieves
@harness('P23', funcs='psd_spacing', bounds='meshes of 2 .. 5 points, any limits')
def mesh(ctx):
    a, x = ctx.real('d_min', 1e-7, 1.), ctx.real('d_max/d_min', 1.1, 1e6)
    n = ctx.choice('pts', [2, 3, 5])
    m = ctx.choice('method', ['linear', 'logarithmic', 'default', 'R10', 'R5', 'r2.5', 'R40'])
    if m[0] in 'Rr':
        s = 10**(1 / float(m[1:]))
        up, down = F.psd_spacing(d_min=a, pts=n, method=m), F.psd_spacing(d_max=a, pts=n, method=m)
        ctx.same('points', (len(up), len(down)), (n, n))
        for i in range(n):
            ctx.close('from d_min %d' % i, up[i], a * s**i)
            ctx.close('to d_max %d' % i, down[i], a * s**(i - n + 1))
        ctx.raises('both limits', F.psd_spacing, exc='ValueError', d_min=a, d_max=a * x, method=m)
        ctx.raises('no limit', F.psd_spacing, exc='ValueError', method=m)
        return
    kw = {} if m == 'default' else dict(method=m)
    out = F.psd_spacing(d_min=a, d_max=a * x, pts=n, **kw)
    ctx.same('points', len(out), n)
    for i in range(n):
        t = i / (n - 1)
        ctx.close('point %d' % i, out[i], a * (1 + (x - 1) * t) if m == 'linear' else a * x**t)
    if m != 'linear':
        ctx.raises('no d_max', F.psd_spacing, exc='ValueError', d_min=a, **kw)
        ctx.raises('no d_min', F.psd_spacing, exc='ValueError', d_max=a, **kw)


SERIES = {'ISO 3310-1': 'ISO_3310_1_sieve_list', 'ISO 3310-1 R20': 'ISO_3310_1_R20', 'ISO 3310-1 R20/3': 'ISO_3310_1_R20_3', 'ISO 3310-1 R40/3': 'ISO_3310_1_R40_3', 'ISO 3310-1 R10': 'ISO_3310_1_R10', 'ASTM E11': 'ASTM_E11_sieve_list'}


@harness('P23', timeout=120, funcs='psd_spacing', bounds='all six sieve series; one limit anywhere, the other at each end or exactly on a sieve')
def sieve_mesh(ctx):
    s = ctx.choice('series', sorted(SERIES))
    mm = sorted(float(Decimal(x) / 1000) for x in T[s])
    on = ctx.choice('other limit', ['end', 'on a sieve'])
    side = ctx.choice('moving', ['d_min', 'd_max'])
    x = ctx.real('d', 1e-5, 0.2)
    if side == 'd_min':
        lo, hi = x, (0.2 if on == 'end' else mm[len(mm) // 2])
    else:
        lo, hi = (1e-6 if on == 'end' else mm[len(mm) // 2]), x
    for q in mm:
        ctx.assume((x - q)**2 > 1e-24)
    got = F.psd_spacing(d_min=lo, d_max=hi, method=s)
    want = [q for q in mm if lo <= q and q <= hi]
    ctx.same('openings', got, want)


@harness('P23', funcs='psd_spacing', bounds='invalid requests')
def bad_mesh(ctx):
    x = ctx.real('d', 1e-5, 0.1)
    for s in sorted(SERIES):
        ctx.raises(s + ' without d_max', F.psd_spacing, exc='ValueError', d_min=x, method=s)
        ctx.raises(s + ' without d_min', F.psd_spacing, exc='ValueError', d_max=x, method=s)
    ctx.raises('unknown method', F.psd_spacing, exc='ValueError', d_min=x, d_max=2 * x, method='ISO 1')


@harness('P23', funcs='ASTM_E11_sieves, ISO_3310_1_sieves and their lists', bounds='every sieve')
def sieves(ctx):
    for s, v in sorted(SERIES.items()):
        seq = getattr(F, v)
        ctx.same(s + ' members', [q.designation for q in seq], T[s])
        ctx.same(s + ' openings', [abs(q.opening - float(q.designation) / 1000) < 1e-9 for q in seq], [True] * len(T[s]))
        o = [q.opening for q in seq]
        ctx.same(s + ' order', o, sorted(o, reverse=True))
    for nm, lst in (('ASTM_E11_sieves', 'ASTM E11'), ('ISO_3310_1_sieves', 'ISO 3310-1')):
        d = getattr(F, nm)
        ctx.same(nm + ' keys', sorted(d), sorted(T[lst]))
        ctx.same(nm + ' names', [d[k].designation for k in sorted(d)], sorted(d))
    ctx.same('old names', {k: q.old_designation for k, q in F.ASTM_E11_sieves.items()}, T['old'])

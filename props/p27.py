"""P27: the equation solvers keep their contracts for any function."""
from symx.harness import harness
import fluids.numerics as N

META = dict(
    title='Solvers return a root to tolerance or raise, and stay inside their limits',
    statement='For any function, bisect, ridder and brenth raise when f(a) and f(b) have the same sign, return an end that is an exact root, evaluate only inside [a, b] (ridder: while the tolerance is below its width), and return an evaluated point that is an exact root or lies within xtol + rtol |x| of an evaluated point of the other sign (with |f| < ytol where given), also for negative or descending brackets; otherwise they raise UnconvergedError, and bisect halves the bracket with every evaluation. '
              'secant, newton and halley find the root of a linear function in one step from any start, take the secant, Newton or Halley step times the damping, never evaluate outside low and high, stay inside the bracket of known signs with bisection=True, and return with ytol (and require_eval) only an evaluated point of |f| < ytol; they raise UnconvergedError when maxiter is used up, for zero slope or equal points. one_sided_secant never returns a point of the flat region. '
              'newton_system, newton_minimize, broyden2 and homotopy_solver solve linear systems exactly, use the first line search factor that lowers the error, and return only with the error below the tolerance; fixed_point, fixed_point_aitken and fixed_point_gdem return only after a residual below the tolerance. nelder_mead returns the best of all points it evaluated and keeps its trial points inside low and high, given together or alone.',
    over=['inputs'],
    text='the function is arbitrary: each evaluation returns an unconstrained symbolic value; up to 4 evaluations after the start; three brackets for the bracketing solvers',
    why='tests solve particular equations; the contract must hold for every function value sequence and every tolerance path',
    files=['fluids/numerics/__init__.py'],
    mech=['bisect, ridder, brenth', 'secant, newton, halley, one_sided_secant', 'newton_system, newton_minimize, broyden2, homotopy_solver', 'fixed_point, fixed_point_aitken, fixed_point_gdem', 'nelder_mead, bounds_clip_naive'],
    note='Speed of convergence is not claimed; additional guesses, numerical Jacobian checks, fixed_point_anderson and solutions of differential equations are not covered.',
)


class Oracle:
    """an arbitrary function: the k-th evaluation returns the k-th unknown (the
    known value at a known point; other points differ from each other)"""
    def __init__(self, ctx, lo=-10., hi=10., name='f', given=()):
        self.ctx, self.lo, self.hi, self.name = ctx, lo, hi, name
        self.x, self.y, self.given = [], [], list(given)

    def __call__(self, x, *args, **kw):
        k = len(self.x)
        for u, v in zip(self.x, self.y):
            if x is u or isinstance(x, float) and isinstance(u, float) and x == u:
                y = v
                break
        else:
            if not isinstance(x, list):
                for u in self.x:
                    self.ctx.assume((x - u)**2 > 1e-12)
            y = self.given[k] if k < len(self.given) else self.ctx.real('%s%d' % (self.name, k), self.lo, self.hi)
        self.x.append(x)
        self.y.append(y)
        return y


def one_of(ctx, f, r):
    """index of the evaluated point that was returned"""
    for k in range(len(f.x)):
        if r is f.x[k]:
            return k
    for k in reversed(range(len(f.x))):
        if bool(r == f.x[k]):
            return k
    return None


BRACKETS = [(0.0, 1.0), (-12.0, -11.0), (3.0, -5.0)]


def bracketing(ctx, solver, n, **more):
    hard = solver is N.brenth
    a, b = ctx.choice('bracket', BRACKETS[2:] if hard and n == 2 else BRACKETS[::2] if hard else BRACKETS)
    first, second = ctx.choice('signs', [(1, -1), (1, 1)] if hard and n == 2 else [(1, -1), (-1, 1), (1, 1), (-1, -1), (0, 1), (1, 0)])
    fa, fb = first * ctx.real('fa', 0.1, 10.), second * ctx.real('fb', 0.1, 10.)
    if first == 0:
        fa = 0.0
    if second == 0:
        fb = 0.0
    f = Oracle(ctx, given=[fa, fb])
    tol = ctx.choice('tolerance', [dict(xtol=1e-3, rtol=1e-6), dict(xtol=abs(b - a) * 0.3, rtol=1e-6), dict(xtol=1e-3, rtol=0.2), dict(xtol=abs(b - a) * 1.5, rtol=1e-6)][1 if hard else 0:2 if hard else 4])
    kw = dict(tol)
    kw.update(more)
    k = dict(kw)
    r, e = ctx.attempt(solver, f, a, b, maxiter=n, **k)
    lo, hi = min(a, b), max(a, b)
    narrow = kw['xtol'] + kw['rtol'] * max(abs(a), abs(b)) > abs(b - a)
    for x in f.x if solver is not N.ridder or not narrow else []:
        ctx.le('inside', lo, x, tol=1e-9)
        ctx.le('inside', x, hi, tol=1e-9)
    if first * second > 0:
        ctx.true('same sign', e in ('ValueError', 'NotBoundedError') and r is None)
        return
    if first == 0:
        ctx.true('root at a', e is None and r == a)
        return
    if second == 0:
        ctx.true('root at b', e is None and r == b)
        return
    if e is not None:
        ctx.same('gave up', e, 'UnconvergedError')
        if solver is N.bisect and 'ytol' not in more:
            ctx.true('bisection shrinks', abs(b - a) / 2**n >= kw['xtol'])
        elif 'ytol' not in more:
            ctx.true('within tolerance from the start', kw['xtol'] + kw['rtol'] * min(abs(a), abs(b)) <= 1.5 * abs(b - a))
        return
    i = one_of(ctx, f, r)
    ctx.true('evaluated', i is not None)
    if i is None:
        return
    y = f.y[i]
    if bool(y == 0):
        return
    if 'ytol' in more:
        ctx.le('ytol', abs(y), more['ytol'])
    reach = kw['xtol'] + kw['rtol'] * abs(r)
    near = None
    for j in range(len(f.x)):
        if bool(f.y[j] * y <= 0):
            d = abs(f.x[j] - r)
            near = d if near is None or bool(d < near) else near
    ctx.true('other sign known', near is not None)
    if near is not None:
        ctx.le('within tolerance', near, reach, slack=1e-5, tol=1e-9)


@harness('P27', timeout=120, funcs='bisect', bounds='3 brackets, 4 tolerances, up to 3 iterations, with and without ytol')
def bisection(ctx):
    bracketing(ctx, N.bisect, 3, **ctx.choice('ytol', [{}, dict(ytol=0.5)]))


@harness('P27', timeout=120, funcs='ridder', bounds='3 brackets, 4 tolerances, 1 iteration')
def ridder(ctx):
    bracketing(ctx, N.ridder, 1)


@harness('P27', timeout=300, funcs='brenth', bounds='2 brackets, one tolerance, 1 iteration with every option, 2 iterations for one bracket')
def brenth(ctx):
    n = ctx.choice('iterations', [1, 2])
    bracketing(ctx, N.brenth, n, **ctx.choice('options', [{}, dict(ytol=0.5), dict(q=True)] if n == 1 else [{}]))


@harness('P27', timeout=60, funcs='secant, newton, halley', bounds='f = m (x - r), any m and r, any start')
def linear(ctx):
    m, r, x0 = ctx.real('m', 0.1, 10.) * ctx.choice('slope', [1.0, -1.0]), ctx.real('r', -10., 10.), ctx.real('x0', -10., 10.)
    ctx.assume((x0 - r)**2 > 1e-4)

    def f(x, *a, **k):
        return m * (x - r)
    x1 = x0 + ctx.choice('second', [1.0, -1.0]) * ctx.real('h', 0.1, 2.)
    ctx.close('secant', N.secant(f, x0, x1=x1), r, atol=1e-7)
    if ctx.choice('ytol too', [True, False]):
        ctx.close('secant', N.secant(f, x0, x1=x1, ytol=1e-9, xtol=1e-9), r, atol=1e-7)
    ctx.close('newton', N.newton(f, x0, fprime=lambda x: m), r, atol=1e-7)
    ctx.close('newton', N.newton(lambda x: (f(x), m), x0, fprime=True), r, atol=1e-7)
    ctx.close('newton', N.newton(lambda x: (f(x), m, 0.0), x0, fprime=True, fprime2=True), r, atol=1e-7)
    ctx.close('halley', N.halley(lambda x: (f(x), m, 0.0), x0), r, atol=1e-7)


@harness('P27', timeout=240, funcs='secant', bounds='any function, 2 steps, any tolerance setting; limits on either side; damping')
def secant(ctx):
    x0, x1 = ctx.real('x0', -5., 5.), ctx.real('x1', -5., 5.)
    ctx.assume((x1 - x0)**2 > 1e-4)
    low, high = -6.0, 6.0
    f = Oracle(ctx)
    bis = ctx.choice('bisection', [False, True])
    tol = ctx.choice('tolerances', [dict(ytol=0.5, xtol=None)] if bis else [dict(ytol=0.5, xtol=None), dict(ytol=0.5, xtol=0.1), dict(ytol=0.5, xtol=0.1, require_xtol=False), dict(xtol=0.1)])
    damping = 1.0 if bis else ctx.choice('damping', [1.0, 0.5])
    n = 2 if bis else 1
    r, e = ctx.attempt(N.secant, f, x0, x1=x1, low=low, high=high, bisection=bis, damping=damping, require_eval=True, maxiter=n, **tol)
    for x in f.x:
        ctx.le('inside', low, x, tol=1e-9)
        ctx.le('inside', x, high, tol=1e-9)
    if len(f.x) > 2:
        q0, q1 = f.y[0], f.y[1]
        p = x1 - q1 * (x1 - x0) / (q1 - q0) * damping
        if not bis:
            want = low if p < low else high if p > high else p
            ctx.close('step', f.x[2], want, atol=1e-8)
        elif q0 * q1 < 0:
            u, v = (x0, x1) if x0 < x1 else (x1, x0)
            ctx.le('bracket', u, f.x[2], tol=1e-9)
            ctx.le('bracket', f.x[2], v, tol=1e-9)
            if len(f.x) > 3:
                s, w = (x0, f.x[2]) if q0 * f.y[2] < 0 else (x1, f.x[2])
                u, v = (s, w) if s < w else (w, s)
                ctx.le('bracket', u, f.x[3], tol=1e-9)
                ctx.le('bracket', f.x[3], v, tol=1e-9)
    if e is not None:
        ctx.true('gave up', e in ('UnconvergedError', 'SamePointError'))
        if e == 'SamePointError':
            ctx.close('equal values', f.y[-1], f.y[-2])
        else:
            ctx.same('steps used', len(f.x), n + 2)
        return
    i = one_of(ctx, f, r)
    ctx.true('evaluated', i is not None)
    if i is not None and 'ytol' in tol:
        ctx.le('ytol', abs(f.y[i]), 0.5)


@harness('P27', timeout=60, funcs='secant', bounds='starting point of either sign without a second point; limits')
def secant_start(ctx):
    x0 = ctx.real('x0', -5., 5.)
    f = Oracle(ctx)
    kw = ctx.choice('limits', [{}, dict(low=-5.0, high=5.0)])
    ctx.attempt(N.secant, f, x0, maxiter=1, **kw)
    if len(f.x) > 1:
        want = x0 * 1.0001 + 1e-4 if x0 >= 0 else x0 * 1.0001 - 1e-4
        if kw:
            want = 5.0 if want > 5 else -5.0 if want < -5 else want
        ctx.close('second', f.x[1], want)
    x1 = ctx.real('x1', 6., 7.)
    g = Oracle(ctx, name='g')
    y0, y1 = ctx.real('y0', 1., 2.), ctx.real('y1', -2., -1.)
    ctx.attempt(N.secant, g, x0, x1=x1, f0=y0, f1=y1, maxiter=1)
    ctx.same('given values used', len(g.x), 1)
    ctx.close('from given', g.x[0], x1 - y1 * (x1 - x0) / (y1 - y0), atol=1e-9)
    h = Oracle(ctx, given=[0.5, 0.5, 0.5])
    ctx.raises('flat', N.secant, h, 1.0, exc=('SamePointError', 'UnconvergedError'))


class Derivatives(Oracle):
    def __init__(self, ctx, n, **k):
        Oracle.__init__(self, ctx, **k)
        self.n, self.d, self.c = n, [], []

    def __call__(self, x, *args, **kw):
        k = len(self.x)
        y = Oracle.__call__(self, x)
        d = self.ctx.real('%s slope %d' % (self.name, k), 0.1, 10.) * self.ctx.choice('%s slope sign %d' % (self.name, k), [1.0, -1.0] if k == 0 and self.n == 1 else [1.0])
        self.d.append(d)
        if self.n == 1:
            return y, d
        c = self.ctx.real('%s curve %d' % (self.name, k), -10., 10.)
        self.ctx.assume((2 * d * d - y * c)**2 > 1e-4)
        self.c.append(c)
        return y, d, c


@harness('P27', timeout=300, max_paths=6000, funcs='newton', bounds='any function, 2 steps, slopes not zero; limits; damping; bisection; with and without second derivative')
def newton(ctx):
    x0, low, high = ctx.real('x0', -5., 5.), -6.0, 6.0
    second = ctx.choice('second derivative', [False, True])
    f = Derivatives(ctx, 2 if second else 1)
    bis = ctx.choice('bisection', [False, True])
    tol = ctx.choice('tolerances', [dict(ytol=0.5, xtol=None)] if bis or second else [dict(ytol=0.5, xtol=None), dict(ytol=0.5, xtol=0.1), dict(ytol=0.5, xtol=0.1, require_xtol=False), dict(xtol=0.1)])
    damping = ctx.choice('damping', [1.0] if bis else [1.0, 0.5])
    r, e = ctx.attempt(N.newton, f, x0, fprime=True, fprime2=True if second else None, low=low, high=high, bisection=bis, damping=damping, require_eval=True, maxiter=2, **tol)
    for x in f.x:
        ctx.le('inside', low, x, tol=1e-9)
        ctx.le('inside', x, high, tol=1e-9)
    if len(f.x) > 1:
        y, d = f.y[0], f.d[0]
        step = y / d
        if second:
            den = 1 - y * f.c[0] / (2 * d * d)
            p = x0 - damping * (step / den if den > 0 else step)
        else:
            p = x0 - damping * step
        want = low if p < low else high if p > high else p
        ctx.close('step', f.x[1], want, atol=1e-7)
    if e is not None:
        ctx.same('gave up', e, 'UnconvergedError')
        return
    i = one_of(ctx, f, r)
    ctx.true('evaluated', i is not None)
    if i is not None and 'ytol' in tol:
        ctx.le('ytol', abs(f.y[i]), 0.5)


@harness('P27', timeout=120, funcs='newton, halley', bounds='two evaluations of opposite sign, any slopes')
def newton_bisection(ctx):
    s = ctx.choice('first sign', [1.0, -1.0])
    which = ctx.choice('solver', ['newton', 'newton 2', 'halley'])
    x0 = ctx.real('x0', -5., 5.)
    f = Derivatives(ctx, 1 if which == 'newton' else 2, given=[s * ctx.real('first', 1., 10.), -s * ctx.real('next', 1., 10.)])
    kw = dict(xtol=None, ytol=1e-3, maxiter=2, bisection=True)
    g = Derivatives(ctx, f.n, name='g')
    xs = []

    def rec(x, *a, **k):
        if len(xs) == 2:
            xs.append(x)
            raise OverflowError
        xs.append(x)
        return f(x)
    if which == 'halley':
        kw['maxiter'] = 3
        ctx.attempt(N.halley, rec, x0, **kw)
    else:
        kw['maxiter'] = 3
        ctx.attempt(N.newton, rec, x0, fprime=True, fprime2=True if f.n == 2 else None, **kw)
    if len(xs) == 3:
        u, v = (xs[0], xs[1]) if xs[0] < xs[1] else (xs[1], xs[0])
        ctx.le('bracket', u, xs[2], tol=1e-9)
        ctx.le('bracket', xs[2], v, tol=1e-9)


@harness('P27', timeout=250, funcs='halley', bounds='any function, 1 step; damping; limits')
def halley(ctx):
    x0, low, high = ctx.real('x0', -5., 5.), -6.0, 6.0
    f = Derivatives(ctx, 2)
    damping = ctx.choice('damping', [1.0, 0.5])
    lim = ctx.choice('limits', [{}, dict(low=low, high=high)] if damping == 1 else [{}])
    r, e = ctx.attempt(N.halley, f, x0, damping=damping, **lim, require_eval=True, maxiter=2, xtol=None, ytol=0.5)
    for x in f.x if lim else []:
        ctx.le('inside', low, x, tol=1e-9)
        ctx.le('inside', x, high, tol=1e-9)
    if len(f.x) > 1 and not lim:
        y, d, c = f.y[0], f.d[0], f.c[0]
        den = 1 - y * c / (2 * d * d)
        ctx.assume(den * den > 1e-6)
        q = damping / den
        ctx.assume((abs(1 - q) - 1.5)**2 > 1e-8)
        p = x0 - y / d * (1.0 if abs(1 - q) > 1.5 else q)
        ctx.close('step', f.x[1], p, atol=1e-7)
    if e is not None:
        ctx.same('gave up', e, 'UnconvergedError')
        return
    i = one_of(ctx, f, r)
    ctx.true('evaluated', i is not None)
    if i is not None:
        ctx.le('ytol', abs(f.y[i]), 0.5)


@harness('P27', timeout=60, funcs='newton, halley', bounds='zero slope at the start; root at the start')
def zero_slope(ctx):
    x0, y = ctx.real('x0', -5., 5.), ctx.real('y', 0.1, 5.)
    ctx.raises('newton', N.newton, lambda x: (y, 0.0), x0, fprime=True, exc=('UnconvergedError',))
    ctx.raises('halley', N.halley, lambda x: (y, 0.0, 1.0), x0, ytol=1e-3, exc=('UnconvergedError',))
    ctx.close('accepted', N.newton(lambda x: (y, 0.0), x0, fprime=True, ytol=6.0), x0)
    ctx.close('root', N.newton(lambda x: (0.0, y), x0, fprime=True), x0)
    ctx.close('root', N.halley(lambda x: (0.0, y, y), x0), x0)
    ctx.close('root', N.secant(lambda x: 0.0, x0), x0)


@harness('P27', timeout=200, funcs='one_sided_secant', bounds='any function, flat region on either side, 2 steps')
def one_sided(ctx):
    side = ctx.choice('flat side', [1.0, -1.0])
    x0 = ctx.real('x0', 1., 2.)
    x1, flat = x0 + side * 0.25, x0 + side * ctx.real('flat', 1., 5.)
    y0 = ctx.real('y0', 5., 10.)
    f = Oracle(ctx, given=[ctx.real('f0', 0.1, 4.), ctx.real('f1', 4.5, 4.9)])
    r, e = ctx.attempt(N.one_sided_secant, f, x0, flat, x1=x1, y_flat=0.0, y0=y0, y1=ctx.real('y1', 1., 4.), ytol=0.5, xtol=None, maxiter=2)
    for x in f.x:
        ctx.le('not beyond flat', side * x, side * flat, tol=1e-9)
    if e is not None:
        ctx.same('gave up', e, 'UnconvergedError')
    else:
        i = one_of(ctx, f, r)
        ctx.true('evaluated', i is not None)
        if i is not None:
            ctx.le('ytol', abs(f.y[i]), 0.5)
    for nm, y0, y1 in (('first flat', 0.0, 1.0), ('second flat', 1.0, 0.0), ('equal', 1.0, 1.0)):
        ctx.raises(nm, N.one_sided_secant, f, x0, flat, x1=x1, y_flat=0.0, y0=y0, y1=y1, exc=('ValueError',))


def system(ctx):
    A = [[ctx.real('a%d%d' % (i, j), -5., 5.) for j in range(2)] for i in range(2)]
    r = [ctx.real('r%d' % i, -5., 5.) for i in range(2)]
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    ctx.assume(abs(d) > 0.01)
    x0 = [ctx.real('x%d' % i, -5., 5.) for i in range(2)]

    def f(x, *a):
        return [A[i][0] * (x[0] - r[0]) + A[i][1] * (x[1] - r[1]) for i in range(2)]
    e = sum([abs(v) for v in f(x0)])
    ctx.assume(e > 0.01)
    return A, r, x0, f


@harness('P27', timeout=120, funcs='newton_system, newton_minimize, broyden2, homotopy_solver', bounds='two linear equations, any regular matrix, any start')
def linear_systems(ctx):
    A, r, x0, f = system(ctx)
    which = ctx.choice('solver', ['newton', 'newton together', 'line search', 'minimize', 'broyden', 'homotopy'])
    old = list(x0)
    J = lambda x, *a: [list(v) for v in A]
    if which == 'newton':
        x = N.newton_system(f, x0, J, ytol=1e-4)[0]
    elif which == 'newton together':
        x = N.newton_system(lambda v: (f(v), J(v)), x0, True, xtol=1e-4)[0]
    elif which == 'line search':
        x = N.newton_system(f, x0, J, ytol=1e-4, line_search=True, require_progress=True)[0]
    elif which == 'minimize':
        x = N.newton_minimize(lambda v: 0.0, x0, f, J, ytol=1e-4)[0]
    elif which == 'broyden':
        x = N.broyden2(x0, f, J, xtol=1e-4)[0]
    else:
        x = N.homotopy_solver(f, x0, J, ytol=1e-4, lambd_step=0.5, line_search=False)[0]
    for i in range(2):
        ctx.close(which, x[i], r[i], atol=1e-5)
    ctx.true('start kept', x0[0] is old[0] and x0[1] is old[1])


@harness('P27', timeout=120, funcs='newton_system', bounds='any function of one variable, 2 steps; damping; line search factors 1 .. 0.92')
def system_contract(ctx):
    y0, x0, s = ctx.real('y0', 1., 10.), ctx.real('x0', -5., 5.), ctx.real('slope', 0.1, 5.)
    tol = ctx.choice('tolerance', [dict(ytol=0.5), dict(xtol=0.5), dict(xtol=0.5, ytol=0.7)])
    damping = ctx.choice('damping', [1.0, 0.5])
    k = ctx.choice('good factor', [None, 0, 1, 2, 3])
    kw = {}
    if k is None:
        f = Oracle(ctx, given=[y0])
    else:
        f = Oracle(ctx, given=[y0] + [y0 + ctx.real('worse%d' % i, 0.1, 5.) for i in range(k)] + [ctx.real('better', -0.4, 0.4)])
        kw = dict(line_search=True, require_progress=ctx.choice('progress', [True, False]))
    r, e = ctx.attempt(N.newton_system, lambda x: [f(x[0])], [x0], lambda x: [[s]], maxiter=3, damping=damping, **kw, **tol)
    if k is not None:
        ctx.same('evaluations', len(f.x), k + 2)
        ctx.close('factor', f.x[-1], x0 - damping * [1.0, 0.99, 0.98, 0.96][k] * y0 / s, atol=1e-8)
        ctx.true('found', e is None and r[0][0] is f.x[-1])
        return
    ctx.close('step', f.x[1], x0 - damping * y0 / s, atol=1e-8)
    if e is None:
        ctx.true('evaluated', r[0][0] is f.x[-1])
        ctx.le('tolerance', abs(f.y[-1]), 0.5)
        ctx.same('iterations', r[1], len(f.x))
    else:
        ctx.same('gave up', e, 'UnconvergedError')
        ctx.same('steps used', len(f.x), 3)
        ctx.le('over', 0.5, abs(f.y[-1]))


@harness('P27', timeout=250, max_paths=6000, funcs='fixed_point, fixed_point_aitken, fixed_point_gdem', bounds='any function of one variable, up to 4 evaluations')
def fixed(ctx):
    which = ctx.choice('solver', ['fixed_point', 'fixed_point_aitken', 'fixed_point_gdem'])
    f, x0 = Oracle(ctx), ctx.real('x0', -5., 5.)
    tol = ctx.choice('tolerance', [dict(ytol=0.5), dict(xtol=0.5), dict(xtol=0.5, ytol=0.7)] if which == 'fixed_point' else [dict(ytol=0.5), dict(xtol=0.5)])
    kw = {} if which == 'fixed_point' else dict(acc_frequency=2 if which == 'fixed_point_aitken' else 3)
    progress = ctx.choice('progress', [False, True] if which == 'fixed_point' else [True])
    damping = ctx.choice('damping', [1.0, 0.5] if which == 'fixed_point' else [1.0])
    r, e = ctx.attempt(getattr(N, which), lambda x: [f(x[0])], [x0], maxiter=4, damping=damping, require_progress=progress, **kw, **tol)
    if e is None:
        ctx.le('tolerance', abs(f.y[-1]), 0.5)
        if which == 'fixed_point' and len(f.x) > 1:
            ctx.close('returned', r[0][0], f.x[-1] - damping * f.y[-1], atol=1e-9)
    elif e == 'UnconvergedError':
        ctx.same('steps used', len(f.x), 4)
        ctx.le('over', 0.5, abs(f.y[-1]))
    else:
        ctx.true('no progress', e == 'ValueError' and progress)
        ctx.le('no progress', abs(f.y[-2]), abs(f.y[-1]))
    if len(f.x) > 1:
        ctx.close('first', f.x[1], x0 - f.y[0], atol=1e-9)
    if len(f.x) > 2 and which == 'fixed_point':
        ctx.close('second', f.x[2], f.x[1] - damping * f.y[1], atol=1e-9)


@harness('P27', timeout=200, funcs='nelder_mead, bounds_clip_naive', bounds='one and two variables, any function, 1 iteration; no limits, low, high or both')
def simplex(ctx):
    n = ctx.choice('variables', [1, 2])
    f = Oracle(ctx)
    x0 = [ctx.real('x%d' % i, 0.5, 2.) for i in range(n)]
    lim = ctx.choice('limits', [{}, dict(low=0.4), dict(high=2.2), dict(low=0.4, high=2.2)] if n == 1 else [{}, dict(low=0.4, high=2.2)])
    kw = {k: [v] * n for k, v in lim.items()}
    if ctx.choice('adaptive', [False, True] if n == 2 and not lim else [False]):
        kw['adaptive'] = True
    r, e = ctx.attempt(N.nelder_mead, f, list(x0), maxiter=1, xtol=1e-6, **kw)
    ctx.same('error', e, None)
    if e is not None:
        return
    x, v, it = r
    for y in f.y:
        ctx.le('best', v, y)
    ctx.true('point of best', any(x is p and bool(y == v) for p, y in zip(f.x, f.y)))
    for p in f.x:
        for c in p:
            if 'low' in lim:
                ctx.le('limit', 0.4, c)
            if 'high' in lim:
                ctx.le('limit', c, 2.2)

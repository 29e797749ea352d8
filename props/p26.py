"""P26: linear algebra, interpolation, differentiation, quadrature and statistics."""
from itertools import permutations
from math import exp, log, sqrt

from symx.harness import harness
import fluids.numerics as N
import fluids.numerics.arrays as A

META = dict(
    title='Linear algebra, interpolation, differences and quadrature are right',
    statement='solve, solve_LU_decomposition, solve_2_direct, solve_3_direct, solve_4_direct and solve_tridiagonal return x with A x = b, inv and inv_lu the inverse, lu factors with P A = L U, and det the determinant (the number, for every size up to 5), for every non-singular matrix whatever the pivoting; products, sums, transposes, tridiagonal conversion, subsets and sorting helpers equal their definitions and reject mismatched sizes with ValueError; inputs are not modified. '
              'interp is the piecewise linear interpolant (end values, given left and right values or linear extrapolation outside), interp2d_linear the bilinear one, binary_search the interval index. derivative returns the exact n-th derivative of every polynomial of degree below its order, inside given limits; jacobian and hessian the difference quotients, exact for linear and quadratic functions up to their perturbation. The Gauss-Kronrod rule is exact for polynomials of degree up to 10 and quad_adaptive returns it when its error is small. '
              'linspace and logspace run from start to stop (exclusive without endpoint) in equal steps, diff, cumsum and cumulative_trapezoid follow their definitions, is_increasing and is_monotonic decide order, and mean, std, normalize, min_max_ratios and the maximum and mean error measures equal their formulas. damping_maintain_sign never changes the sign of its variable for dampings up to 1, translate_bound_func maps any variables into their bounds with an exact inverse, and best_bounding_bounds returns the tightest evaluated bracket.',
    over=['inputs'],
    text='matrices of size 1 to 3 with any entries (4 and 5 with some entries fixed); tables of 2 to 4 points; polynomials of degree up to 10; lists of 2 to 4 values',
    why='tests use numeric examples; pivoting paths, table ends and every sign combination are not covered',
    files=['fluids/numerics/__init__.py', 'fluids/numerics/arrays.py'],
    mech=['solve, inv, det, lu, inplace_LU, solve_from_lu, solve_tridiagonal', 'interp, interp2d_linear, binary_search', 'derivative, jacobian, hessian, central_diff_weights_precomputed', 'fixed_quad_Gauss_Kronrod, quad_adaptive', 'linspace, logspace, diff, cumsum, cumulative_trapezoid', 'best_bounding_bounds, damping_maintain_sign, translate_bound_func', 'max_abs_error, mean_squared_rel_error, std, normalize'],
    note='svd, gelsd and null_space call LAPACK and are not covered.',
)


def vector(ctx, n, name, lo=-10., hi=10.):
    return [ctx.real('%s%d' % (name, i), lo, hi) for i in range(n)]


def matrix(ctx, n, m=None, name='a', lo=-10., hi=10.):
    return [vector(ctx, m or n, '%s%d,' % (name, i), lo, hi) for i in range(n)]


def leibniz(M):
    n, tot = len(M), 0.0
    for p in permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        t = float(s)
        for i in range(n):
            t = t * M[i][p[i]]
        tot = tot + t
    return tot


def dot(M, x):
    out = []
    for r in M:
        t = 0.0
        for a, b in zip(r, x):
            t = t + a * b
        out.append(t)
    return out


def keep(M):
    return [list(r) for r in M]


def kept(M, C):
    return len(M) == len(C) and all(len(r) == len(s) and all(u is v for u, v in zip(r, s)) for r, s in zip(M, C))


@harness('P26', timeout=120, funcs='det', bounds='sizes 1 .. 4 any entries; 5 with a fixed row')
def determinant(ctx):
    n = ctx.choice('n', [1, 2, 3, 4, 5])
    M = matrix(ctx, n) if n < 5 else matrix(ctx, 4, 5, lo=0.1) + [[2.0, -3.0, 5.0, 7.0, -11.0]]
    ctx.close('det', A.det(M), leibniz(M), atol=1e-9)


@harness('P26', timeout=200, funcs='inv, solve, solve_2_direct, solve_3_direct', bounds='sizes 1 .. 3, determinant away from 0 by more than 1e-7')
def direct(ctx):
    n = ctx.choice('n', [1, 2, 3])
    M, b = matrix(ctx, n), vector(ctx, n, 'b')
    d = leibniz(M)
    ctx.assume(abs(d) > 0.001)
    C, B = keep(M), list(b)
    X = A.inv(M)
    for i in range(n):
        for j in range(n):
            ctx.close('A inv(A)', dot(M, [r[j] for r in X])[i], 1.0 if i == j else 0.0, atol=1e-9)
    if n > 1:
        for nm, f in [('solve', A.solve)] + ([('solve_2_direct', N.solve_2_direct)] if n == 2 else []):
            for u, v in zip(dot(M, f(M, b)), b):
                ctx.close(nm, u, v, atol=1e-9)
    ctx.true('inputs kept', kept(M, C) and kept([b], [B]))


@harness('P26', timeout=300, funcs='inplace_LU, solve_from_lu, solve_LU_decomposition, inv_lu, lu, inv, solve', bounds='size 2, any entries, every pivoting; near-singular by determinant below 1e-7 handled by the same routine')
def LU(ctx):
    M, b = matrix(ctx, 2), vector(ctx, 2, 'b')
    d = leibniz(M)
    ctx.assume(abs(d) > 1e-3)
    C, B = keep(M), list(b)
    which = ctx.choice('routine', ['solve', 'inverse', 'lu'])
    if which == 'solve':
        for u, v in zip(dot(M, A.solve_LU_decomposition(M, b)), b):
            ctx.close('solve', u, v, atol=1e-9)
    elif which == 'inverse':
        X = A.inv_lu(M)
        for i in range(2):
            for j in range(2):
                ctx.close('inverse', dot(M, [r[j] for r in X])[i], 1.0 if i == j else 0.0, atol=1e-9)
    else:
        P, L, U = A.lu(M)
        for j in range(2):
            for i in range(2):
                ctx.close('P A = L U', dot(P, [r[j] for r in M])[i], dot(L, [r[j] for r in U])[i], atol=1e-9)
        ctx.true('shapes', L[0][1] == 0.0 and L[0][0] == 1.0 and L[1][1] == 1.0 and U[1][0] == 0.0)
    ctx.true('inputs kept', kept(M, C) and kept([b], [B]))


FIXED = {
    3: [[[0.0, 2.0, 1.0], [1.0, -1.0, 3.0], [4.0, 1.0, -2.0]], [[1.0, 2.0, 3.0], [2.0, -1.0, 1.0], [-3.0, 5.0, 1.0]], [[2.0, 1.0, -1.0], [4.0, 3.0, 1.0], [1.0, 7.0, 2.0]]],
    4: [[[0.0, 2.0, 1.0, -1.0], [1.0, -1.0, 3.0, 2.0], [4.0, 1.0, -2.0, 5.0], [2.0, 3.0, 1.0, 1.0]], [[1.0, 2.0, 3.0, 4.0], [3.0, -1.0, 1.0, 2.0], [-3.0, 5.0, 1.0, 6.0], [9.0, 2.0, -4.0, 1.0]]],
    5: [[[0.0, 2.0, 1.0, -1.0, 3.0], [1.0, -1.0, 3.0, 2.0, 4.0], [4.0, 1.0, -2.0, 5.0, -6.0], [2.0, 3.0, 1.0, 1.0, 7.0], [5.0, 0.0, 1.0, 2.0, -8.0]]],
}


@harness('P26', timeout=300, funcs='LU routines and solve, inv; solve_3_direct, solve_4_direct', bounds='sizes 3 .. 5, three bases, the first (for size 3 also the third) entry of the first or second column arbitrary; one entry of the right hand side arbitrary')
def larger(ctx):
    n = ctx.choice('n', [3, 4, 5])
    M = [list(r) for r in ctx.choice('base', FIXED[n])] if len(FIXED[n]) > 1 else [list(r) for r in FIXED[n][0]]
    c = ctx.choice('column', [0, 1])
    M[0][c] = ctx.real('first', -6., 6.)
    if n == 3:
        M[2][c] = ctx.real('third', -6., 6.)
    b = [ctx.real('b', -10., 10.) if i == 1 else float(i * i - 2) for i in range(n)]
    d = leibniz(M)
    ctx.assume(abs(d) > 0.01)
    C, B = keep(M), list(b)
    which = ctx.choice('routine', ['solve', 'inverse', 'lu', 'direct'])
    if which == 'direct':
        if n == 5:
            return
        if n == 3:
            ctx.assume(abs(M[0][0]) > 0.01)
            ctx.assume(abs(M[0][0] * M[1][1] - M[0][1] * M[1][0]) > 0.01)
        else:
            ctx.assume(abs(M[0][0]) > 0.01)
            ctx.assume(abs(M[0][0] * M[1][1] - M[0][1] * M[1][0]) > 0.01)
            ctx.assume(abs(leibniz([r[:3] for r in M[:3]])) > 0.01)
        x = (N.solve_3_direct if n == 3 else N.solve_4_direct)(M, b)
        for u, v in zip(dot(M, x), b):
            ctx.close('direct', u, v, atol=1e-8)
    elif which == 'solve':
        for nm, f in (('LU', A.solve_LU_decomposition), ('solve', A.solve)):
            for u, v in zip(dot(M, f(M, b)), b):
                ctx.close(nm, u, v, atol=1e-8)
    elif which == 'inverse':
        X = A.inv(M)
        j = 1
        for i in range(n):
            ctx.close('inverse', dot(M, [r[j] for r in X])[i], 1.0 if i == j else 0.0, atol=1e-8)
    else:
        P, L, U = A.lu(M)
        for j in range(n):
            for i in range(n):
                ctx.close('P A = L U', dot(P, [r[j] for r in M])[i], dot(L, [r[j] for r in U])[i], atol=1e-8)
                if j > i:
                    ctx.true('lower', isinstance(L[i][j], float) and L[i][j] == 0.0)
                    ctx.true('upper', isinstance(U[j][i], float) and U[j][i] == 0.0)
    ctx.true('inputs kept', kept(M, C) and kept([b], [B]))


@harness('P26', timeout=120, funcs='solve_tridiagonal, array_as_tridiagonals, tridiagonals_as_array', bounds='size 2 .. 4, diagonally dominant')
def tridiagonal(ctx):
    n = ctx.choice('n', [2, 3, 4])
    a, c = vector(ctx, n - 1, 'a', -1., 1.), vector(ctx, n - 1, 'c', -1., 1.)
    b, d = vector(ctx, n, 'b', 2.5, 10.), vector(ctx, n, 'd')
    old = [list(v) for v in (a, b, c, d)]
    M = [[b[i] if i == j else a[j] if i == j + 1 else c[i] if j == i + 1 else 0.0 for j in range(n)] for i in range(n)]
    x = N.solve_tridiagonal(a, b, c, d)
    for u, v in zip(dot(M, x), d):
        ctx.close('A x', u, v, atol=1e-9)
    ctx.true('inputs kept', kept([a, b, c, d], old))
    ctx.true('from', kept(N.array_as_tridiagonals(M), [a, b, c]))
    T = N.tridiagonals_as_array(a, b, c)
    ctx.true('to', all(T[i][j] is M[i][j] or T[i][j] == 0.0 == M[i][j] for i in range(n) for j in range(n)))


@harness('P26', timeout=120, funcs='matrix and vector arithmetic, transpose, subset_matrix, argsort1d, sort_paired_lists, norm2, eye, shape', bounds='2 x 3 and 3 x 2 matrices')
def arithmetic(ctx):
    M, K, v = matrix(ctx, 2, 3), matrix(ctx, 3, 2, 'b'), vector(ctx, 3, 'v')
    L, s = matrix(ctx, 2, 3, 'c'), ctx.real('s', 0.1, 10.)
    C = A.matrix_multiply(M, K)
    for i in range(2):
        for j in range(2):
            ctx.close('product', C[i][j], M[i][0] * K[0][j] + M[i][1] * K[1][j] + M[i][2] * K[2][j])
    for u, w in zip(A.matrix_vector_dot(M, v), dot(M, v)):
        ctx.close('M v', u, w)
    ctx.close('dot', A.dot_product(v, M[0]), dot(M, v)[0])
    ctx.close('norm', A.norm2(v)**2, v[0]**2 + v[1]**2 + v[2]**2)
    ctx.true('transpose', kept(A.transpose(M), [[M[i][j] for i in range(2)] for j in range(3)]))
    for i in range(2):
        ctx.close('row sum', A.sum_matrix_rows(M)[i], M[i][0] + M[i][1] + M[i][2])
        for j in range(3):
            ctx.close('+', A.scalar_add_matrices(M, L)[i][j], M[i][j] + L[i][j])
            ctx.close('-', A.scalar_subtract_matrices(M, L)[i][j], M[i][j] - L[i][j])
            ctx.close('*', A.scalar_multiply_matrix(s, M)[i][j], s * M[i][j])
            ctx.close('/', A.scalar_divide_matrix(s, M)[i][j], M[i][j] / s)
    for j in range(3):
        ctx.close('column sum', A.sum_matrix_cols(M)[j], M[0][j] + M[1][j])
    S = A.scalar_add_matrices(M, L) + [v]
    ctx.true('subset', kept(A.subset_matrix(S, [0, 2]), [[S[0][0], S[0][2]], [S[2][0], S[2][2]]]) and kept(A.subset_matrix(S, slice(1, 3, 1)), [[S[1][1], S[1][2]], [S[2][1], S[2][2]]]))
    ctx.true('stack', kept(A.stack_vectors(M), M))
    ctx.true('eye', A.eye(3) == [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
    ctx.true('shape', tuple(A.shape(M)) == (2, 3) and tuple(A.shape(v)) == (3,))
    for nm, f, z in (('multiply', A.matrix_multiply, (M, L)), ('ragged', A.matrix_multiply, ([v, v[:2]], K)), ('vector', A.matrix_vector_dot, (M, v[:2])), ('dot', A.dot_product, (v, v[:2])),
                     ('add', A.scalar_add_matrices, (M, K)), ('subtract', A.scalar_subtract_matrices, (M, K)), ('transpose', A.transpose, ([v, v[:2]],)), ('pair', A.sort_paired_lists, (v, v[:2])), ('eye', A.eye, (0,))):
        ctx.raises(nm, f, *z, exc='ValueError')


@harness('P26', timeout=60, funcs='argsort1d, sort_paired_lists, is_increasing, is_monotonic', bounds='three values in any order, equal or not')
def ordering(ctx):
    v, w = vector(ctx, 3, 'v'), vector(ctx, 3, 'w')
    e = ctx.choice('equal', ['none', 'first two', 'last two'])
    if e == 'first two':
        v[1] = v[0]
    elif e == 'last two':
        v[2] = v[1]
    else:
        for i in range(3):
            for j in range(i):
                ctx.assume((v[i] - v[j])**2 > 1e-8)
    k = A.argsort1d(v)
    ctx.true('permutation', sorted(k) == [0, 1, 2])
    s, t = A.sort_paired_lists(v, w)
    for i in range(3):
        ctx.true('values', s[i] is v[k[i]] and t[i] is w[k[i]])
    ctx.le('sorted', s[0], s[1])
    ctx.le('sorted', s[1], s[2])
    if e == 'none':
        up, down = bool(v[0] < v[1]), bool(v[1] < v[2])
        ctx.same('increasing', N.is_increasing(v), up and down)
        ctx.same('monotonic', N.is_monotonic(v), up == down)
    else:
        ctx.same('increasing', N.is_increasing(v), False)
        ctx.same('monotonic', N.is_monotonic(v), True)


def table(ctx, n, name):
    x = [ctx.real(name + '0', -10., 10.)]
    for i in range(1, n):
        x.append(x[-1] + ctx.real('step %s%d' % (name, i), 0.01, 10.))
    return x


@harness('P26', timeout=120, funcs='interp, binary_search', bounds='2 .. 4 points, any position, every option')
def interpolation(ctx):
    n = ctx.choice('n', [2, 3, 4])
    X, Y = table(ctx, n, 'x'), vector(ctx, n, 'y')
    k = ctx.choice('interval', ['below', 'above'] + list(range(n - 1)))
    opt = ctx.choice('options', ['none', 'given', 'extrapolate'])
    kw = {}
    if opt == 'given':
        kw = dict(left=ctx.real('left', -10., 10.), right=ctx.real('right', -10., 10.))
    elif opt == 'extrapolate':
        kw = dict(extrapolate=True)

    def line(i, x):
        return Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i])
    out = ctx.real('distance', 0.001, 10.)
    if k == 'below':
        x = X[0] - out
        ctx.close('below', N.interp(x, X, Y, **kw), {'none': Y[0], 'given': kw.get('left'), 'extrapolate': line(0, x)}[opt], atol=1e-9)
        ctx.same('index', N.binary_search(x, X), -1)
    elif k == 'above':
        x = X[-1] + out
        ctx.close('above', N.interp(x, X, Y, **kw), {'none': Y[-1], 'given': kw.get('right'), 'extrapolate': line(n - 2, x)}[opt], atol=1e-9)
        ctx.same('index', N.binary_search(x, X), n)
    else:
        x = X[k] + (X[k + 1] - X[k]) * ctx.real('share', 0.001, 0.999)
        ctx.close('inside', N.interp(x, X, Y, **kw), line(k, x), atol=1e-9)
        ctx.close('at a point', N.interp(X[k], X, Y, **kw), Y[k], atol=1e-9)
        ctx.close('at a point', N.interp(X[k + 1], X, Y, **kw), Y[k + 1], atol=1e-9)
        ctx.same('index', N.binary_search(x, X), k)
        ctx.same('index', N.binary_search(X[k], X, n), k)


@harness('P26', timeout=120, funcs='interp2d_linear', bounds='3 x 3 table, any position')
def interpolation_2d(ctx):
    X, Y, V = table(ctx, 3, 'x'), table(ctx, 3, 'y'), matrix(ctx, 3, name='v')
    j = ctx.choice('y interval', [0, 1])
    i = ctx.choice('x interval', [0, 1])
    s, t = ctx.real('s', 0.001, 0.999), ctx.real('t', 0.001, 0.999)
    where = ctx.choice('position', ['inside', 'x outside', 'y outside', 'corner'])
    if where == 'x outside':
        s = s + (1 if i else -1)
    elif where == 'y outside':
        t = t + (1 if j else -1)
    elif where == 'corner':
        s, t = 0.0, 1.0
    x, y = X[i] + s * (X[i + 1] - X[i]), Y[j] + t * (Y[j + 1] - Y[j])
    lo, hi = [V[r][i] + s * (V[r][i + 1] - V[r][i]) for r in (j, j + 1)]
    ctx.close('bilinear', N.interp2d_linear(x, y, X, Y, V), lo + t * (hi - lo), atol=1e-8)


@harness('P26', timeout=120, funcs='derivative, central_diff_weights_precomputed', bounds='every tabulated order up to 19, monomials up to the order; any limits')
def differences(ctx):
    n, order = ctx.choice('n, order', sorted(N.central_diff_weights_precomputed))
    deg = ctx.choice('degree', [n, min(n + 2, order - 1), order - 1])
    x0, dx, c = ctx.real('x0', 0.5, 10.), ctx.real('dx', 0.01, 1.), ctx.real('c', 0.1, 10.)
    w = 1.0
    for k in range(n):
        w *= deg - k
    if deg > 8:
        x0 = 0.0 * x0       # moments of the weights about the centre
    want = c * w * x0**(deg - n) if deg > n else c * w
    ctx.close('scalar', N.derivative(lambda x, a: a * x**deg, x0, dx=dx, n=n, order=order, args=(c,)), want, rtol=1e-7, atol=1e-7)
    if order <= 5:
        v = N.derivative(lambda x: [c * x**deg, 2 * c * x**deg], x0, dx=dx, n=n, order=order, scalar=False)
        ctx.close('vector', v[0], want, rtol=1e-7)
        ctx.close('vector', v[1], 2 * want, rtol=1e-7)
        xs = []
        top, low = x0 + ctx.real('room', 0.001, 5.), x0 - ctx.real('room below', 0.001, 5.)

        def f(x):
            xs.append(x)
            return c * x
        side = ctx.choice('limit', ['upper', 'lower'])
        N.derivative(f, x0, dx=dx, n=n, order=order, **({'upper_limit': top} if side == 'upper' else {'lower_limit': low}))
        for x in xs:
            if side == 'upper':
                ctx.le('within limit', x, top)
            else:
                ctx.le('within limit', low, x)


@harness('P26', timeout=120, funcs='jacobian, hessian', bounds='two variables, also at 0; quadratic functions with any coefficients, scalar and vector')
def gradients(ctx):
    x = [ctx.real('x', 0.1, 10.), 0.0 if ctx.choice('second is 0', [True, False]) else ctx.real('y', 0.1, 10.)]
    a, b, c, d, e = vector(ctx, 5, 'c', 0.1, 10.)
    p, z = 0.0625, 0.125

    def f(v):
        return a * v[0] * v[0] + b * v[0] * v[1] + c * v[1] * v[1] + d * v[0] + e * v[1]
    D = [x[0] * p, z if isinstance(x[1], float) and x[1] == 0 else x[1] * p]
    g = [2 * a * x[0] + b * x[1] + d + a * D[0], b * x[0] + 2 * c * x[1] + e + c * D[1]]
    old = list(x)
    J = N.jacobian(f, x, perturbation=p, zero_offset=z)
    V = N.jacobian(lambda v: [f(v), 3 * v[1]], x, perturbation=p, zero_offset=z, scalar=False)
    for i in range(2):
        ctx.close('gradient', J[i], g[i], rtol=1e-7)
        ctx.close('vector', V[0][i], g[i], rtol=1e-6, atol=1e-6)
        ctx.close('vector', V[1][i], 3.0 * i)
    H, R = N.hessian(f, x, perturbation=p, zero_offset=z), N.hessian(f, x, perturbation=p, zero_offset=z, full=False)
    W = N.hessian(lambda v: [f(v), 2 * f(v)], x, perturbation=p, zero_offset=z, scalar=False)
    h = [[2 * a, b], [b, 2 * c]]
    for i in range(2):
        for j in range(2):
            ctx.close('hessian', H[i][j], h[i][j], rtol=1e-6, atol=1e-6)
            ctx.close('hessian', W[i][j][0], h[i][j], rtol=1e-6, atol=1e-6)
            ctx.close('hessian', W[i][j][1], 2 * h[i][j], rtol=1e-6, atol=1e-6)
            if j <= i:
                ctx.close('hessian', R[i][j], h[i][j], rtol=1e-6, atol=1e-6)
    ctx.true('point kept', kept([x], [old]))


@harness('P26', timeout=120, funcs='fixed_quad_Gauss_Kronrod, quad_adaptive', bounds='monomials up to 10, any limits')
def quadrature(ctx):
    deg = ctx.choice('degree', [0, 1, 2, 3, 5, 8, 10])
    a, c = ctx.real('a', -2., 2.), ctx.real('c', 0.1, 10.)
    b = a + ctx.real('b - a', 0.1, 3.)
    want = c * (b**(deg + 1) - a**(deg + 1)) / (deg + 1)
    v, e = N.fixed_quad_Gauss_Kronrod(lambda x, k: k * x**deg, a, b, N.kronrod_points[10], N.kronrod_weights[10], N.legendre_weights[10], (c,))
    ctx.close('Kronrod', v, want, atol=1e-6)
    ctx.close('error', e, 0.0, atol=1e-6)
    if deg < 4:
        v, e = N.quad_adaptive(lambda x, k: k * x**deg, a, b, args=(c,), epsabs=1e-3)
        ctx.close('adaptive', v, want, atol=1e-6)


@harness('P26', timeout=60, funcs='linspace, logspace, diff, cumsum, cumulative_trapezoid, product', bounds='up to 5 points')
def sequences(ctx):
    a, b, n = ctx.real('start', -3., 3.), ctx.real('stop', -3., 3.), ctx.choice('num', [0, 1, 2, 3, 5])
    base = ctx.choice('base', [10.0, 2.0])
    kw = {} if base == 10.0 else dict(base=base)
    y, z = N.linspace(a, b, n), N.linspace(a, b, n, endpoint=False)
    ctx.true('count', len(y) == n and len(z) == n)
    for i in range(n):
        ctx.close('linspace', y[i], a + (b - a) * i / max(n - 1, 1), atol=1e-9)
        ctx.close('open', z[i], a + (b - a) * i / n, atol=1e-9)
        ctx.close('logspace', N.logspace(a, b, n, **kw)[i], base**(a + (b - a) * i / max(n - 1, 1)))
    if n >= 2:
        ctx.close('step', N.linspace(a, b, n, retstep=True)[1], (b - a) / (n - 1), atol=1e-9)
    v, x = vector(ctx, 4, 'v'), table(ctx, 4, 'x')
    d, h = ctx.real('dx', 0.01, 10.), [x[i + 1] - x[i] for i in range(3)]
    for i in range(3):
        ctx.close('diff', N.diff(v)[i], v[i + 1] - v[i], atol=1e-9)
    for i in range(2):
        ctx.close('second diff', N.diff(v, 2)[i], v[i + 2] - 2 * v[i + 1] + v[i], atol=1e-9)
    ctx.true('lengths', len(N.diff(v)) == 3 and len(N.diff(v, 2)) == 2 and len(N.diff(v, 3)) == 1 and len(N.cumulative_trapezoid(v, x)) == 3)
    ctx.raises('order', N.diff, v, -1, exc='ValueError')
    s = t = u = 0.0
    for i in range(4):
        s = s + v[i]
        ctx.close('cumsum', N.cumsum(v)[i], s, atol=1e-9)
        if i:
            t = t + (v[i] + v[i - 1]) / 2 * h[i - 1]
            u = u + (v[i] + v[i - 1]) / 2 * d
            ctx.close('trapezoid', N.cumulative_trapezoid(v, x)[i - 1], t, atol=1e-9)
            ctx.close('trapezoid', N.cumulative_trapezoid(v, dx=d)[i - 1], u, atol=1e-9)
    ctx.raises('no spacing', N.cumulative_trapezoid, v, exc='ValueError')
    ctx.raises('length', N.cumulative_trapezoid, v, x[:3], exc='ValueError')
    ctx.close('product', N.product(v), v[0] * v[1] * v[2] * v[3], atol=1e-9)


@harness('P26', timeout=60, funcs='mean, std, normalize', bounds='two or three values')
def means(ctx):
    y, p = vector(ctx, 2, 'y'), vector(ctx, 3, 'p', 0.01, 10.)
    ctx.close('mean', N.mean(y), (y[0] + y[1]) / 2, atol=1e-9)
    ctx.close('std', N.std(y)**2, (y[0] - y[1])**2 / 4, atol=1e-9)
    for u, v in zip(N.normalize(p), p):
        ctx.close('normalize', u, v / (p[0] + p[1] + p[2]))


@harness('P26', timeout=120, funcs='error measures, min_max_ratios', bounds='two values of either sign')
def statistics(ctx):
    x = [ctx.real('x%d' % i, 0.1, 10.) * ctx.choice('sign %d' % i, [1.0, -1.0]) for i in range(2)]
    y = vector(ctx, 2, 'y')
    m = ctx.choice('measure', ['max_abs_error', 'max_abs_rel_error', 'max_squared_error', 'max_squared_rel_error', 'mean_abs_error', 'mean_abs_rel_error', 'mean_squared_error', 'mean_squared_rel_error', 'min_max_ratios'])
    e = [y[i] - x[i] for i in range(2)]
    if 'rel' in m:
        e = [e[i] / x[i] for i in range(2)]
    if m == 'min_max_ratios':
        q = [y[i] / x[i] for i in range(2)]
        lo, hi = N.min_max_ratios(x, y)
        a, b = (q[0], q[1]) if q[0] < q[1] else (q[1], q[0])
        ctx.close('lowest', lo, a if a < 1 else 1.0, atol=1e-9)
        ctx.close('highest', hi, b if b > 1 else 1.0, atol=1e-9)
        return
    got = getattr(N, m)(x, y)
    e = [v * v for v in e] if 'squared' in m else [abs(v) for v in e]
    if 'max' in m:
        ctx.close(m, got, e[0] if e[0] > e[1] else e[1], atol=1e-9)
    else:
        ctx.close(m, got, (e[0] + e[1]) / 2, atol=1e-9)


@harness('P26', timeout=60, funcs='damping_maintain_sign, translate_bound_func, translate_bound_jac', bounds='x -10 .. 10, any step, damping 0 .. 1, factor 0 .. 1')
def transforms(ctx):
    x, s = ctx.real('x', -10., 10.), ctx.real('step', -20., 20.)
    d, f = ctx.real('damping', 0., 1.), ctx.real('factor', 0., 1.)
    g = N.damping_maintain_sign(x, s, d, f)
    turned = x + s < 0 if x >= 0 else x + s > 0
    ctx.close('damped', g, x - f * x * d if turned else x + s * d, atol=1e-9)
    if x >= 0:
        ctx.le('sign kept', 0.0, g)
    else:
        ctx.le('sign kept', g, 0.0)
    L = N.damping_maintain_sign([x, x], [s, 0.5 * s], d, f)
    ctx.close('list', L[0], g, atol=1e-9)
    lo, t = ctx.real('low', -10., 10.), ctx.real('t', -5., 5.)
    hi = lo + ctx.real('width', 0.1, 10.)
    want = lo + (hi - lo) / (1 + exp(-t))
    for kw in (dict(bounds=[(lo, hi)]), dict(low=[lo], high=[hi])):
        h, into, out = N.translate_bound_func(lambda v: 3 * v[0], **kw)
        ctx.close('function', h([t]), 3 * want, atol=1e-9)
        ctx.close('out of', out([t])[0], want, atol=1e-9)
        ctx.close('into', into([lo + (hi - lo) * 0.25])[0], -log(3.0))
        ctx.close('into and out', into(out([t]))[0], t, atol=1e-8)
        j, into, out = N.translate_bound_jac(lambda v: [v[0]], **kw)
        ctx.close('jacobian', j([t])[0], want * (hi - lo) * exp(-t) / (1 + exp(-t))**2, atol=1e-9)


@harness('P26', timeout=60, funcs='best_bounding_bounds', bounds='either direction; history with positive, negative, both or no values')
def bounding(ctx):
    up = ctx.choice('rising', [True, False])
    lo, hi = 0.0, 10.0
    P, M = ctx.real('positive end', 0.1, 10.), -ctx.real('negative end', 0.1, 10.)
    fa, fb = (M, P) if up else (P, M)
    pos, neg = ctx.choice('positive history', [True, False]), ctx.choice('negative history', [True, False])
    kw = {}
    bp, xp, bn, xn = P, (hi if up else lo), M, (lo if up else hi)
    if pos:
        ys = [ctx.real('p%d' % i, 0.05, 20.) for i in range(2)]
        ctx.assume((ys[0] - ys[1])**2 > 1e-8)
        kw.update(xs_pos=[4.0, 6.0], ys_pos=ys)
        for x, y in zip([4.0, 6.0], ys):
            ctx.assume((y - P)**2 > 1e-8)
            if y < bp:
                bp, xp = y, x
    if neg:
        ys = [-ctx.real('n%d' % i, 0.05, 20.) for i in range(2)]
        ctx.assume((ys[0] - ys[1])**2 > 1e-8)
        kw.update(xs_neg=[3.0, 7.0], ys_neg=ys)
        for x, y in zip([3.0, 7.0], ys):
            ctx.assume((y - M)**2 > 1e-8)
            if y > bn:
                bn, xn = y, x
    if ctx.choice('ends given', [True, False]):
        got = N.best_bounding_bounds(lo, hi, fa=fa, fb=fb, **kw)
    else:
        got = N.best_bounding_bounds(lo, hi, f=lambda x: fa if x == lo else fb, **kw)
    want = (xn, xp, bn, bp) if up else (xp, xn, bp, bn)
    for nm, g, w in zip(('low', 'high', 'fa', 'fb'), got, want):
        ctx.close(nm, g, w)
    ctx.raises('same sign', N.best_bounding_bounds, lo, hi, fa=P, fb=P, exc='ValueError')

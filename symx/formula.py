"""Helpers to write 'the function evaluates its documented formula' harnesses."""
from .harness import harness


def same_formula(pid, fn, ref, ranges, name=None, rtol=1e-6, choices=None, note='', **opt):
    """fn(**v) == ref(**v) for every v in the box `ranges` (and every value of
    the discrete `choices`).  ref is an independent transcription of the
    documented formula."""
    nm = name or fn.__name__
    b = ', '.join('%s in [%g, %g]' % (k, lo, hi) for k, (lo, hi) in ranges.items())
    if choices:
        b += ''.join(', %s in %s' % (k, list(v)) for k, v in choices.items())

    def h(ctx):
        v = {k: ctx.real(k, lo, hi) for k, (lo, hi) in ranges.items()}
        for k, opts in (choices or {}).items():
            v[k] = ctx.choice(k, list(opts))
        a, ea = ctx.attempt(fn, **v)
        r, er = ctx.attempt(ref, **v)
        if ea is not None or er is not None:
            if ea != er:
                ctx.fail('%s agrees with its documented formula' % nm, 'code raises %s, documentation %s' % (ea, er))
            else:
                ctx.true('%s raises as documented' % nm, True)
            return
        cmp(ctx, '%s agrees with its documented formula' % nm, a, r, rtol)
    h.__name__ = nm
    o = dict(timeout=60, funcs=nm, bounds=b)
    o.update(opt)
    harness(pid, nm, **o)(h)


def cmp(ctx, label, a, r, rtol=1e-6):
    if isinstance(r, (tuple, list)):
        if not isinstance(a, (tuple, list)) or len(a) != len(r):
            ctx.fail(label, 'shape')
            return
        for i, (x, y) in enumerate(zip(a, r)):
            cmp(ctx, '%s [%d]' % (label, i), x, y, rtol)
    elif isinstance(r, dict):
        ctx.same(label + ' keys', sorted(a), sorted(r))
        for k in r:
            cmp(ctx, '%s [%s]' % (label, k), a[k], r[k], rtol)
    elif isinstance(r, (bool, str)) or r is None:
        ctx.same(label, a, r)
    else:
        ctx.close(label, a, r, rtol=rtol)


def lin(x, xs, ys):
    """piecewise linear through the table, end values outside"""
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def spline(x, t, c, k):
    """B-spline by the Cox-de Boor recursion, end polynomials extrapolated"""
    n = len(t) - k - 1
    i = k
    while i < n - 1 and x >= t[i + 1]:
        i += 1
    d = [c[j + i - k] for j in range(k + 1)]
    for r in range(1, k + 1):
        for j in range(k, r - 1, -1):
            lo, hi = t[j + i - k], t[j + 1 + i - r]
            a = (x - lo) / (hi - lo)
            d[j] = (1 - a) * d[j - 1] + a * d[j]
    return d[k]

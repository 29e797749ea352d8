"""Translation of terms to z3, with sound linear relaxations of the
transcendental operations ("purification")."""
import time
from fractions import Fraction

import z3

from .interval import ieval, INF, ffrac, FN as IFN, ipow
from .terms import topo
from . import terms as tm

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}


def q2z(q):
    return z3.RealVal(str(q.numerator) + '/' + str(q.denominator))


def f2z(f):
    f = max(-1.7976931348623157e308, min(1.7976931348623157e308, f))   # a lower bound of +inf, an upper one of -inf: weaker
    return q2z(Fraction(f))


def check(solver, timeout_ms):
    t0 = time.time()
    solver.set('timeout', int(timeout_ms))
    try:
        r = solver.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    s = str(r)
    STATS[s] = STATS.get(s, 0) + 1
    return s


class Enc:
    """Incremental encoder.  self.side collects (sound) side constraints."""

    def __init__(self, env, lemmas=True, imemo=None):
        self.env = env            # var -> (lo, hi)
        self.memo = {}
        self.side = []
        self.imemo = {} if imemo is None else imemo
        self.lemmas = lemmas
        self.vars = {}
        self.pure = {}            # fn -> list of (arg z3, val z3, arg term)

    def v(self, name):
        z = self.vars.get(name)
        if z is None:
            z = z3.Real(name)
            self.vars[name] = z
            lo, hi = self.env.get(name, (-INF, INF))
            if lo != -INF:
                self.side.append(z >= f2z(lo))
            if hi != INF:
                self.side.append(z <= f2z(hi))
        return z

    def fresh(self, t, iv):
        z = z3.Real('p%d' % t.id)
        if iv[0] != -INF:
            self.side.append(z >= f2z(iv[0]))
        if iv[1] != INF:
            self.side.append(z <= f2z(iv[1]))
        return z

    def enc(self, t):
        m = self.memo
        if t.id in m:
            return m[t.id]
        for x in topo([t]):
            if x.id in m:
                continue
            op = x.op
            if op == 'c':
                z = q2z(x.val)
            elif op == 'v':
                z = self.v(x.val)
            elif op == 'pi':
                z = z3.Real('pi')
                self.side.append(z >= z3.RealVal('3.14159265358979'))
                self.side.append(z <= z3.RealVal('3.14159265358980'))
            elif op == '+':
                z = m[x.args[0].id] + m[x.args[1].id]
            elif op == '*':
                z = m[x.args[0].id] * m[x.args[1].id]
            elif op == '^':
                z = self.pow(x)
            else:
                z = self.fnz(x)
            m[x.id] = z
        return m[t.id]

    def pow(self, x):
        b = self.memo[x.args[0].id]
        r = x.val
        if r.denominator == 1:
            n = int(r)
            if 1 <= n <= 4:
                z = b
                for _ in range(n - 1):
                    z = z * b
                return z
            iv = ieval(x, self.env, self.imemo)
            z = self.fresh(x, iv)
            if -3 <= n < 0:
                bb = b
                for _ in range(-n - 1):
                    bb = bb * b
                self.side.append(z * bb == 1)
                return z
            if n % 2 == 0:
                self.side.append(z >= 0)
            self._powlem(x, b, z, r)
            return z
        iv = ieval(x, self.env, self.imemo)
        z = self.fresh(x, iv)
        self.side.append(z >= 0)
        p, q = r.numerator, r.denominator
        if q <= 3 and abs(p) <= 3:
            zz = z
            for _ in range(q - 1):
                zz = zz * z
            bb = b
            for _ in range(abs(p) - 1):
                bb = bb * b
            if p > 0:
                self.side.append(zz == bb)
            else:
                self.side.append(zz * bb == 1)
        else:
            self._powlem(x, b, z, r)
        return z

    def _powlem(self, x, b, z, r):
        if not self.lemmas:
            return
        lo, hi = ieval(x.args[0], self.env, self.imemo)
        if not lo > 0:
            if lo >= 0 or r.denominator != 1:
                self.side.append(z3.Implies(b == 0, z == 0) if r > 0 else z > 0)
            if not (lo == 0 and hi < INF and r > 0):
                return
        # convex/concave power: tangents at points, secant over box
        f = lambda v: ipow((v, v), r)
        df = lambda v: tuple(float(c) for c in _imulc(ipow((v, v), r - 1), r))
        convex = r > 1 or r < 0
        self._curve(b, z, lo, hi, f, df, convex, 1 if r > 0 else -1)
        self._mono(('pow', r), b, z, 1 if r > 0 else -1)

    def _mono(self, key, a, z, d):
        lst = self.pure.setdefault(key, [])
        for (a2, z2) in lst[-6:]:
            if d > 0:
                self.side.append((a < a2) == (z < z2))
                self.side.append((a == a2) == (z == z2))
            else:
                self.side.append((a < a2) == (z > z2))
                self.side.append((a == a2) == (z == z2))
        lst.append((a, z))

    def _curve(self, a, z, lo, hi, f, df, convex, d):
        """tangent/secant lemmas for a convex (or concave) z=f(a) on [lo,hi]."""
        pts = []
        if hi < INF and lo > -INF:
            pts = [lo, (lo + hi) / 2, hi]
            if lo > 0 and hi / lo > 8:
                pts.append((lo * hi) ** 0.5)
        elif lo > 0:
            pts = [lo, lo * 10]
        for p in pts:
            if p == 0:
                continue
            fl, fh = f(p)
            dl, dh = df(p)
            if not all(abs(v) < 1e300 for v in (fl, fh, dl, dh)):
                continue
            # z >= f(p) + d (a-p) for some d in [dl,dh] (convex); use both ends
            P = f2z(p)
            if convex:
                self.side.append(z >= f2z(fl) + z3.If(a >= P, f2z(dl), f2z(dh)) * (a - P))
            else:
                self.side.append(z <= f2z(fh) + z3.If(a >= P, f2z(dh), f2z(dl)) * (a - P))
        if hi < INF and lo > -INF and hi > lo:
            fl0, fh0 = f(lo)
            fl1, fh1 = f(hi)
            if all(abs(v) < 1e300 for v in (fl0, fh0, fl1, fh1)):
                L, H = Fraction(lo), Fraction(hi)
                if convex:
                    self.side.append((z - f2z(fh0)) * q2z(H - L) <= q2z(Fraction(fh1) - Fraction(fh0)) * (a - q2z(L)))
                else:
                    self.side.append((z - f2z(fl0)) * q2z(H - L) >= q2z(Fraction(fl1) - Fraction(fl0)) * (a - q2z(L)))

    def fnz(self, x):
        iv = ieval(x, self.env, self.imemo)
        z = self.fresh(x, iv)
        if len(x.args) != 1 or not self.lemmas:
            return z
        a = self.memo[x.args[0].id]
        lo, hi = ieval(x.args[0], self.env, self.imemo)
        name = x.val
        if name == 'exp':
            self.side.append(z > 0)
            f = lambda v: IFN['exp']((v, v))
            self._curve(a, z, lo, hi, f, f, True, 1)
            self.side.append(z >= a + 1)
            self._mono('exp', a, z, 1)
        elif name == 'log':
            f = lambda v: IFN['log']((v, v))
            df = lambda v: ((1 / v) * (1 - 1e-15), (1 / v) * (1 + 1e-15))
            if lo > 0:
                self._curve(a, z, lo, hi, f, df, False, 1)
            self.side.append(z <= a - 1)
            if lo < 1 < hi:
                self.side.append(z3.And((a > 1) == (z > 0), (a < 1) == (z < 0)))
            self._mono('log', a, z, 1)
        elif name in ('tanh', 'atan', 'asinh', 'erf', 'sinh'):
            self._mono(name, a, z, 1)
            self.side.append(z3.And((a > 0) == (z > 0), (a == 0) == (z == 0)))
            if name == 'erf':
                self.side.append(z3.And(z < 1, z > -1))
        elif name == 'floor':
            self.side.append(z3.And(z <= a, z > a - 1))
        elif name in ('asin', 'lambertw'):
            self._mono(name, a, z, 1)
        elif name in ('acos', 'erfc', 'lambertwn'):
            self._mono(name, a, z, -1)
        elif name in ('sin', 'cos'):
            lst = self.pure.setdefault(name, [])
            for (a2, z2) in lst[-4:]:
                self.side.append(z3.Implies(a == a2, z == z2))
            lst.append((a, z))
        return z


def _imulc(iv, r):
    from .interval import imul
    return imul(iv, ffrac(r))

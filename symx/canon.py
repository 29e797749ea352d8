"""Canonical generalised polynomials over positive atoms with rational
exponents; used to turn equality goals into linear-arithmetic queries."""
from fractions import Fraction

import mpmath

from . import terms as tm
from .interval import INF, iadd, imul, ipow, ffrac, igammaincc, FN as IFN
from .terms import trim, mpf_frac

F1 = Fraction(1)
DPS = 60
EPS = 1e-12


SNAP = Fraction(1, 10**13)


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ('i', 'kind', 'data', 'iv', 'sg', 'tname')

    def __init__(self, i, kind, data, iv, sg):
        self.i, self.kind, self.data, self.iv, self.sg = i, kind, data, iv, sg

    def __repr__(self):
        return '%s%d' % (self.kind, self.i)


def close(a, b):
    if a == b:
        return True
    return abs(a - b) <= EPS * 10 * max(abs(a), abs(b))


def qmp(q):
    return mpmath.mpf(q.numerator) / q.denominator


def numpow(c, r):
    """c**r for rational c>0."""
    if r.denominator == 1 and abs(r) <= 40:
        return trim(c ** int(r))
    with mpmath.workdps(DPS):
        return mpf_frac(mpmath.power(qmp(c), qmp(r)))


class Canon:
    LIM = 6000

    def __init__(self, eng):
        self.eng = eng
        self.atoms = []
        self.key = {}
        self.memo = {}
        self.gt1 = set()     # atoms known > 1
        self.sums = {}       # structure -> list of atom
        with mpmath.workdps(DPS):
            self.PI = mpf_frac(+mpmath.pi)

    # ------------------------------------------------------------- atoms
    def atom(self, kind, key, data, iv, sg):
        k = (kind, key)
        a = self.key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, iv, sg)
            self.atoms.append(a)
            self.key[k] = a
        return a

    def amono(self, a, e=F1):
        return ((a.i, e),)

    def apoly(self, a, e=F1, c=F1):
        return {self.amono(a, e): [c, abs(float(c))]}

    def approx_atom(self, kind, extra, polys):
        """atom keyed by approximately equal argument polynomials"""
        st = (kind, extra) + tuple(frozenset(p) for p in polys)
        for a in self.sums.get(st, ()):
            ok = True
            for p, q in zip(polys, a.data[1]):
                for m, (c, _) in p.items():
                    if not close(c, q[m][0]):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return a, False
        a = Atom(len(self.atoms), kind, (extra, polys), (-INF, INF), 0)
        self.atoms.append(a)
        self.sums.setdefault(st, []).append(a)
        return a, True

    # ------------------------------------------------------------- poly ops
    def const(self, q):
        q = trim(q)
        return {(): [q, abs(float(q)) if abs(q) < 10**300 else 1e300]} if q else {}

    def add(self, p, q):
        if len(p) < len(q):
            p, q = q, p
        r = dict(p)             # coefficients are never changed in place
        self.accumulate(r, q)
        return r

    def accumulate(self, r, q):
        """r += q"""
        for m, cg in q.items():
            v = r.get(m)
            if v is None:
                r[m] = cg
            else:
                c, g = trim(v[0] + cg[0]), v[1] + cg[1]
                if c == 0 and g == 0:
                    del r[m]
                else:
                    r[m] = [c, g]
        if len(r) > self.LIM:
            raise TooBig('add')

    def clean(self, p):
        return {m: v for m, v in p.items() if abs(v[0]) > EPS * v[1] and v[0] != 0}

    def scale(self, p, q):
        if q == 0:
            return {}
        f = abs(float(q))
        return {m: [trim(c * q), g * f] for m, (c, g) in p.items()}

    def mm(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for i, e in b:
            s = d.get(i, 0) + e
            if s == 0:
                d.pop(i, None)
            else:
                d[i] = s
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if len(p) * len(q) > 40000:
            raise TooBig('mul')
        r = {}
        for m1, (c1, g1) in p.items():
            for m2, (c2, g2) in q.items():
                m = self.mm(m1, m2)
                v = r.get(m)
                if v is None:
                    r[m] = [trim(c1 * c2), g1 * g2]
                else:
                    r[m] = [trim(v[0] + c1 * c2), v[1] + g1 * g2]
        if len(r) > self.LIM:
            raise TooBig('mul')
        return r

    def ipow(self, p, n):
        if len(p) > 1 and (len(p) ** n > 50000 or n > 24):
            raise TooBig('pow')
        r = self.const(F1)
        for _ in range(n):
            r = self.mul(r, p)
        return r

    # ------------------------------------------------------------- signs
    def msign(self, m):
        """sign of a monomial: +1 (>=0), -1, 0 unknown"""
        s = 1
        for i, e in m:
            a = self.atoms[i]
            if a.sg > 0:
                continue
            if e.denominator == 1 and int(e) % 2 == 0:
                continue
            return 0
        return s

    def aiv(self, i):
        return self.atoms[i].iv

    def miv(self, m):
        r = (1.0, 1.0)
        for i, e in m:
            r = imul(r, ipow(self.atoms[i].iv, e))
        return r

    def piv(self, p):
        r = (0.0, 0.0)
        for m, (c, _) in p.items():
            r = iadd(r, imul(ffrac(c), self.miv(m)))
        return r

    def strict(self, m):
        """the positive monomial is nonzero"""
        for i, e in m:
            a = self.atoms[i]
            if a.kind == 'E' or e < 0:
                continue
            if a.iv[0] > 0:
                continue
            if a.kind == 'L' and self.logpos(a):
                continue
            return False
        return True

    def logpos(self, a):
        return self.atoms[a.data[0]].iv[0] > 1 or a.data[0] in self.gt1

    def mpos(self, m):
        return all(self.atoms[i].sg > 0 for i, _ in m)

    # ------------------------------------------------------------- normalise
    def expandable(self, a, e):
        n = int(e)
        return n == 1 or (n <= 24 and len(a.data[1][0]) ** n <= 50000)

    def expand(self, p):
        """expand integer parts >=1 of sum-atoms"""
        for _ in range(60):
            todo = None
            for m in p:
                for i, e in m:
                    a = self.atoms[i]
                    if a.kind == 'S' and e >= 1 and self.expandable(a, e):
                        todo = (m, i, e)
                        break
                    if a.kind == 'sin' and e >= 2 and e.denominator == 1:
                        todo = (m, i, e)
                        break
                if todo:
                    break
            if not todo:
                return p
            out = {}
            cache = {}
            for m, v in p.items():
                f = None
                rest = []
                for i, e in m:
                    a = self.atoms[i]
                    if f is None and a.kind == 'S' and e >= 1 and self.expandable(a, e):
                        n = int(e)
                        f = cache.get((i, n))
                        if f is None:
                            f = self.ipow(a.data[1][0], n)
                            cache[(i, n)] = f
                        if e != n:
                            rest.append((i, e - n))
                    elif f is None and a.kind == 'sin' and e >= 2 and e.denominator == 1:
                        n = int(e) // 2
                        co = self.trig_atom('cos', a.data[1][0])
                        one = self.const(F1)
                        f = self.ipow(self.add(one, self.apoly(co, Fraction(2), Fraction(-1))), n)
                        if e - 2 * n:
                            rest.append((i, e - 2 * n))
                    else:
                        rest.append((i, e))
                if f is None:
                    self.accumulate(out, {m: v})
                else:
                    self.accumulate(out, self.mul({tuple(rest): v}, f))
            p = self.clean(out)
        raise TooBig('expand')

    def rationalise(self, p):
        """-> (numerator poly, {S-atom: integer exponent of the denominator})"""
        p = self.expand(p)
        den = {}
        for _ in range(40):
            worst = {}
            for m in p:
                for i, e in m:
                    if self.atoms[i].kind == 'S' and e < 0:
                        k = -(e.numerator // e.denominator)      # ceil(-e) with frac part
                        worst[i] = max(worst.get(i, 0), k)
            if not worst:
                break
            i, k = next(iter(sorted(worst.items())))
            den[i] = den.get(i, 0) + k
            p = self.mul(p, {((i, Fraction(k)),): [F1, 1.0]})
            p = self.expand(self.clean(p))
        # cancel
        for i in list(den):
            S = self.atoms[i].data[1][0]
            while den[i] > 0:
                q = self.divide(p, S)
                if q is None:
                    break
                p = q
                den[i] -= 1
            if den[i] == 0:
                del den[i]
        return self.clean(p), den

    def content(self, p):
        """monomial content (min exponents)"""
        ms = list(p)
        d = dict(ms[0])
        ids = set(d)
        for m in ms[1:]:
            md = dict(m)
            for i in ids | set(md):
                d[i] = min(d.get(i, Fraction(0)), md.get(i, Fraction(0)))
                ids.add(i)
        return tuple(sorted((i, e) for i, e in d.items() if e != 0))

    def inv(self, m):
        return tuple((i, -e) for i, e in m)

    def divide(self, p, s):
        """exact division of polynomials; None when not exact"""
        if not p:
            return p
        if len(p) > 800:
            return None
        cp, cs = self.content(p), self.content(s)
        p1 = {self.mm(m, self.inv(cp)): list(v) for m, v in p.items()}
        s1 = {self.mm(m, self.inv(cs)): list(v) for m, v in s.items()}
        ids = sorted({i for m in p1 for i, _ in m} | {i for m in s1 for i, _ in m})

        def k(m):
            d = dict(m)
            return tuple(d.get(i, 0) for i in ids)
        ls = max(s1, key=k)
        lc = s1[ls][0]
        quo = {}
        rem = p1
        steps = 0
        while rem:
            steps += 1
            if steps > 3 * len(p1) + 20:
                return None
            lm = max(rem, key=k)
            q = self.mm(lm, self.inv(ls))
            if any(e < 0 for _, e in q):
                return None
            c = trim(rem[lm][0] / lc)
            g = rem[lm][1] / abs(float(lc))
            quo[q] = [c, g]
            sub = {}
            for m, (sc, sg) in s1.items():
                sub[self.mm(m, q)] = [trim(-sc * c), sg * g]
            nr = self.add(rem, sub)
            nr.pop(lm, None)
            rem = self.clean(nr)
        back = self.mm(cp, self.inv(cs))
        return {self.mm(m, back): v for m, v in quo.items()}

    # ------------------------------------------------------------- main
    def canon(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        for x in tm.topo([t]):
            if x.id in self.memo:
                continue
            op = x.op
            if op == 'c':
                r = self.const(x.val)
            elif op == 'pi':
                r = self.const(self.PI)
            elif op == 'v':
                r = self.var(x.val)
            elif op == '+':
                r = self.clean(self.add(self.memo[x.args[0].id], self.memo[x.args[1].id]))
            elif op == '*':
                r = self.clean(self.mul(self.memo[x.args[0].id], self.memo[x.args[1].id]))
            elif op == '^':
                r = self.pow(self.memo[x.args[0].id], x.val, x.args[0])
            else:
                r = self.fnc(x)
            self.memo[x.id] = r
        return self.memo[t.id]

    def var(self, name):
        lo, hi = self.eng.vars.get(name, (-INF, INF))
        t = tm.var(name)
        if lo < 0 and self.eng.decide_static(t, '<') is False:
            lo = 0.0
        if hi > 0 and self.eng.decide_static(tm.neg(t), '<') is False:
            hi = 0.0
        if hi <= 0 and lo < 0:
            a = self.atom('v', name, name, (-hi, -lo), 1)
            a.data = ('-', name)
            return self.apoly(a, F1, Fraction(-1))
        a = self.atom('v', name, name, (lo, hi), 1 if lo >= 0 else 0)
        return self.apoly(a)

    def sum_atom(self, p, tsign):
        """p: multi-term polynomial (content removed, lead coef +-1).
        tsign: known sign of p or 0.  -> (sign, atom)  with p = sign*atom"""
        lead = max(p)
        s = 1
        if p[lead][0] < 0:
            p = self.scale(p, Fraction(-1))
            s = -1
        np_ = self.scale(p, Fraction(-1))
        if tsign == 0 and self.piv(p)[1] <= 0:
            tsign = -s
        if self.find('S', 'neg', (np_,)) or (tsign * s < 0 and not self.find('S', None, (p,))):
            a, new = self.approx_atom('S', 'neg', (np_,))
            if new:
                a.iv = (max(0.0, self.piv(np_)[0]), self.piv(np_)[1])
                a.sg = 1
            return -s, a
        a, new = self.approx_atom('S', None, (p,))
        if new:
            a.iv = self.piv(p)
            a.sg = 1 if a.iv[0] >= 0 else 0
            if a.sg == 0 and tsign * s > 0:
                a.sg = 1
                a.iv = (0.0, a.iv[1])
        elif a.sg == 0 and tsign * s > 0:
            a.sg = 1
            a.iv = (max(0.0, a.iv[0]), a.iv[1])
        return s, a

    def find(self, kind, extra, polys):
        st = (kind, extra) + tuple(frozenset(p) for p in polys)
        for a in self.sums.get(st, ()):
            if all(close(c, q[m][0]) for p, q in zip(polys, a.data[1]) for m, (c, _) in p.items()):
                return a
        return None

    def pow(self, p, r, t=None):
        p = self.clean(p)
        if not p:
            return {} if r > 0 else self.fail('0**neg')
        if r.denominator == 1 and 0 <= r <= 24:
            try:
                return self.clean(self.ipow(p, int(r)))
            except TooBig:
                pass
        if len(p) == 1 and () in p and p[()][0] > 0:
            return self.const(numpow(p[()][0], r))
        p, den = self.rationalise(p)
        if not p:
            return {} if r > 0 else self.fail('0**neg')
        integer = r.denominator == 1
        tsign = 0
        if t is not None:
            if self.eng.decide_static(t, '<') is False:
                tsign = 1
            elif self.eng.decide_static(t, '<=') is True:
                tsign = -1
        if not integer:
            tsign = 1               # domain of a fractional power
        out = self.const(F1)
        # denominators
        for i, k in den.items():
            a = self.atoms[i]
            if not integer and a.sg <= 0:
                return self.opaque_pow(p, den, r)
            out = self.mul(out, {((i, -Fraction(k) * r),): [F1, 1.0]})
        cm = self.content(p)
        if integer or self.mpos(cm):
            pass
        else:
            # keep only positive part of the content
            cm = tuple((i, e) for i, e in cm if self.atoms[i].sg > 0)
        q = {self.mm(m, self.inv(cm)): v for m, v in p.items()}
        # constant content
        lead = max(q)
        lc = q[lead][0]
        alc = abs(lc)
        q = self.scale(q, 1 / alc)
        if len(q) == 1:
            m = lead
            sg = 1 if lc > 0 else -1
            if m == ():
                if sg < 0:
                    if not integer:
                        return self.opaque_pow(p, den, r)
                    csign = -1 if int(r) % 2 else 1
                    base = self.const(csign * numpow(alc, r))
                else:
                    base = self.const(numpow(alc, r))
                mono = tuple((i, e * r) for i, e in cm)
                return self.mul(out, self.mul(base, {mono: [F1, 1.0]}))
            # non-positive atoms remain
            if integer:
                csign = -1 if (sg < 0 and int(r) % 2) else 1
                mono = tuple((i, e * r) for i, e in self.mm(cm, m))
                return self.mul(out, {mono: [csign * numpow(alc, r), float(numpow(alc, r))]})
            return self.opaque_pow(p, den, r)
        ps = 0
        if tsign and self.msign(cm) > 0 and all(self.atoms[i].sg > 0 for i in den):
            ps = tsign
        s, a = self.sum_atom(q, ps)
        if integer:
            csign = -1 if (s < 0 and int(r) % 2) else 1
        else:
            if s < 0:
                return self.opaque_pow(p, den, r)
            csign = 1
        mono = tuple((i, e * r) for i, e in cm)
        base = {self.mm(mono, ((a.i, r),)): [csign * numpow(alc, r), float(numpow(alc, r))]}
        return self.mul(out, base)

    def opaque_pow(self, p, den, r):
        full = p
        for i, k in den.items():
            full = self.mul(full, {((i, -Fraction(k)),): [F1, 1.0]})
        a, new = self.approx_atom('P', None, (full,))
        if new:
            a.iv = (0.0, INF)
            a.sg = 1
        return {((a.i, r),): [F1, 1.0]}

    def fail(self, s):
        raise TooBig(s)

    def normal(self, p):
        """normal form of an argument polynomial"""
        n, den = self.rationalise(p)
        if den:
            for i, k in den.items():
                n = self.mul(n, {((i, -Fraction(k)),): [F1, 1.0]})
        return n

    def numeric(self, p):
        if not p:
            return Fraction(0)
        if len(p) == 1 and () in p:
            return p[()][0]
        return None

    def fnc(self, x):
        name = x.val
        args = [self.memo[a.id] for a in x.args]
        nums = [self.numeric(self.clean(a)) for a in args]
        if all(n is not None for n in nums):
            with mpmath.workdps(DPS):
                v = tm.MPFN[name](*[qmp(n) for n in nums])
                return self.const(mpf_frac(mpmath.mpf(v.real if hasattr(v, 'real') else v)))
        if name == 'exp':
            return self.exp(args[0])
        if name == 'log':
            return self.log(args[0], x.args[0])
        a0 = self.normal(args[0])
        if name == 'sinh':
            return self.add(self.scale(self.exp(a0), Fraction(1, 2)), self.scale(self.exp(self.scale(a0, Fraction(-1))), Fraction(-1, 2)))
        if name == 'cosh':
            return self.add(self.scale(self.exp(a0), Fraction(1, 2)), self.scale(self.exp(self.scale(a0, Fraction(-1))), Fraction(1, 2)))
        if name in ('asinh', 'acosh'):
            s = self.const(Fraction(1 if name == 'asinh' else -1))
            rt = self.pow(self.add(self.mul(a0, a0), s), Fraction(1, 2))
            return self.log(self.add(a0, rt), None)
        if name == 'tan':
            return self.mul(self.trig('sin', a0), self.pow(self.trig('cos', a0), Fraction(-1)))
        if name in ('sin', 'cos'):
            return self.trig(name, a0)
        odd = name in ('atan', 'asin', 'tanh', 'erf')
        sgn = F1
        if odd and a0:
            lead = max(a0)
            if a0[lead][0] < 0:
                a0 = self.scale(a0, Fraction(-1))
                sgn = Fraction(-1)
        rest = [self.normal(a) for a in args[1:]]
        a, new = self.approx_atom(name, None, (a0,) + tuple(rest))
        if new:
            iv = self.eng.ival(x)
            if sgn < 0:
                iv = (-iv[1], -iv[0])
            if not rest and name in IFN:
                i2 = IFN[name](self.piv(a0))
                iv = (max(iv[0], i2[0]), min(iv[1], i2[1]))
            if name == 'gammaincc':
                i2 = igammaincc(self.piv(a0), self.piv(rest[0]))
                iv = (max(iv[0], i2[0]), min(iv[1], i2[1]))
            a.iv = iv
            a.sg = 1 if iv[0] >= 0 else 0
        return self.apoly(a, F1, sgn)

    def trig_atom(self, name, a0):
        a, new = self.approx_atom(name, None, (a0,))
        if new:
            a.iv = IFN[name](self.piv(a0))
            a.sg = 1 if a.iv[0] >= 0 else 0
        return a

    def trig(self, name, a0):
        a0 = self.clean(a0)
        if not a0:
            return {} if name == 'sin' else self.const(F1)
        if len(a0) == 1:
            (m, (c, g)), = a0.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                at = self.atoms[m[0][0]]
                if at.kind in ('atan', 'asin', 'acos'):
                    x = at.data[1][0]
                    sq = self.mul(x, x)
                    one = self.const(F1)
                    if at.kind == 'atan':
                        den = self.pow(self.add(one, sq), Fraction(-1, 2))
                        r = self.mul(x, den) if name == 'sin' else den
                    elif (at.kind == 'asin') == (name == 'sin'):
                        r = x
                    else:
                        r = self.pow(self.add(one, self.scale(sq, Fraction(-1))), Fraction(1, 2))
                    if name == 'sin' and c < 0:
                        r = self.scale(r, Fraction(-1))
                    return r
        # constant offsets by multiples of pi/2
        sg = F1
        c0 = a0.get((), None)
        if c0 is not None and len(a0) > 1:
            k = c0[0] / (self.PI / 2)
            kr = round(float(k))
            if kr != 0 and abs(float(k) - kr) < 1e-11:
                a0 = {m: v for m, v in a0.items() if m != ()}
                kr %= 4
                if kr == 2:
                    sg = Fraction(-1)
                elif kr == 1:
                    if name == 'sin':
                        name = 'cos'
                    else:
                        name, sg = 'sin', Fraction(-1)
                elif kr == 3:
                    if name == 'sin':
                        name, sg = 'cos', Fraction(-1)
                    else:
                        name = 'sin'
        lead = max(a0)
        if a0[lead][0] < 0:
            a0 = self.scale(a0, Fraction(-1))
            if name == 'sin':
                sg = -sg
        a = self.trig_atom(name, a0)
        return self.apoly(a, F1, sg)

    def ppos(self, p):
        return self.piv(p)[0] >= 0 or all(k[0] > 0 and self.mpos(m) for m, k in p.items())

    def exp(self, p):
        p = self.normal(self.clean(p))
        out = self.const(F1)
        for m, (c, _) in p.items():
            if m == ():
                with mpmath.workdps(DPS):
                    out = self.scale(out, mpf_frac(mpmath.exp(qmp(c))))
                continue
            if len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a.kind == 'L':
                    # exponents like ln(10)*0.4342944819032518: rounding removed
                    s = c.limit_denominator(10000)
                    if s != c and s and abs(s - c) < abs(c) * SNAP:
                        c = s
                    b = self.atoms[a.data[0]]
                    if b.kind == 'P' and c.denominator == 1:
                        out = self.mul(out, self.pow(b.data[1][0], c))
                        continue
                    out = self.mul(out, {((a.data[0], c),): [F1, 1.0]})
                    continue
                if a.kind == 'lambertw' and (c.denominator == 1 or self.ppos(a.data[1][0])):
                    f = self.mul(a.data[1][0], self.apoly(a, Fraction(-1)))
                    out = self.mul(out, self.pow(f, c))
                    continue
                if a.kind == 'lambertwn' and (c.denominator == 1 or self.ppos(a.data[1][0])):
                    f = self.mul(a.data[1][0], self.apoly(a, Fraction(-1)))
                    out = self.mul(out, self.pow(f, -c))
                    continue
            e = self.atom('E', m, m, IFN['exp'](self.miv(m)), 1)
            out = self.mul(out, {((e.i, c),): [F1, 1.0]})
        return out

    def log(self, p, t):
        p = self.clean(p)
        p, den = self.rationalise(p)
        if not p:
            self.fail('log 0')
        out = {}
        for i, k in den.items():
            if self.atoms[i].sg <= 0:
                return self.opaque_log(p, den)
            out = self.add(out, self.scale(self.logatom(i), -Fraction(k)))
        cm = self.content(p)
        cm = tuple((i, e) for i, e in cm if self.atoms[i].sg > 0)
        q = {self.mm(m, self.inv(cm)): v for m, v in p.items()}
        lead = max(q)
        lc = q[lead][0]
        q = self.scale(q, 1 / abs(lc))
        for i, e in cm:
            out = self.add(out, self.scale(self.logatom(i), e))
        if abs(lc) != 1:
            with mpmath.workdps(DPS):
                out = self.add(out, self.const(mpf_frac(mpmath.log(qmp(abs(lc))))))
        if len(q) == 1:
            if lead == () and lc > 0:
                return self.clean(out)
            return self.opaque_log(p, den)
        s, a = self.sum_atom(q, 1)
        if s < 0:
            return self.opaque_log(p, den)
        return self.clean(self.add(out, self.logatom(a.i)))

    def opaque_log(self, p, den):
        full = p
        for i, k in den.items():
            full = self.mul(full, {((i, -Fraction(k)),): [F1, 1.0]})
        a, new = self.approx_atom('P', None, (full,))
        if new:
            a.iv = (0.0, INF)
            a.sg = 1
        return self.logatom(a.i)

    def logatom(self, i):
        a = self.atoms[i]
        if a.kind == 'E':
            return {a.data: [F1, 1.0]}
        if a.kind == 'lambertw' and self.ppos(a.data[1][0]):
            return self.add(self.log(a.data[1][0], None), self.apoly(a, F1, Fraction(-1)))
        if a.kind == 'lambertwn' and self.ppos(a.data[1][0]):
            return self.add(self.log(a.data[1][0], None), self.apoly(a))
        lo, hi = a.iv
        l = self.atom('L', i, (i,), IFN['log']((max(lo, 0.0), hi)) if hi > 0 else (-INF, INF), 0)
        l.sg = 1 if l.iv[0] >= 0 else 0
        return self.apoly(l)


class LazyCanon(Canon):
    """Normal form in which products of sums are kept as products of named
    sums and quotients are not brought over a common denominator.  Weaker than
    Canon (it misses identities that need expansion) but its cost is linear in
    the size of the term, so it settles deep iterated formulas."""

    def __init__(self, eng, k=1):
        super().__init__(eng)
        self.k = k

    def expand(self, p):
        return p

    def rationalise(self, p):
        return self.clean(p), {}

    def named(self, p):
        p = self.clean(p)
        if len(p) <= 1:
            return p
        cm = self.content(p)
        q = {self.mm(m, self.inv(cm)): v for m, v in p.items()}
        lc = q[max(q)][0]
        q = self.scale(q, 1 / abs(lc))
        s, a = self.sum_atom(q, 0)
        c = abs(lc) * s
        return {self.mm(cm, self.amono(a)): [c, abs(float(c))]}

    def mul(self, p, q):
        if len(p) > 1 and len(q) > 1 and len(p) * len(q) > self.k:
            p, q = self.named(p), self.named(q)
        return super().mul(p, q)

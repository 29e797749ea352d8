"""Discharging goals on a path with z3."""
import math
import time
from fractions import Fraction

import z3

from . import smt, terms as tm
from .canon import Canon, LazyCanon, TooBig
from .interval import INF, ieval, imul, ipow
from .smt import q2z, check

TOL = Fraction(1, 10**10)
F1 = Fraction(1)


def prove_zero(eng, d, scale_terms, tol, timeout=4000, log=None):
    """|d| <= tol * (scale) on the current path?  -> (status, how)

    Linear arithmetic over the monomials of the canonical form of d."""
    if sum(1 for _ in tm.topo([d])) > 40:
        for k in (1, 12):
            try:
                lc = LazyCanon(eng, k)
                if lc.canon(d):
                    lc.memo.clear()     # signs met on the first pass are known now
                if not lc.canon(d):
                    s = z3.Solver()
                    s.add(z3.RealVal(0) != 0)
                    if check(s, timeout) == 'unsat':
                        return 'proved', 'LRA/lazy'
            except (TooBig, RecursionError, OverflowError, ZeroDivisionError, ValueError):
                pass
    try:
        c = Canon(eng)
        p, den = c.rationalise(c.canon(d))
        if not p:
            # still a (trivial) solver query: 0 != 0
            s = z3.Solver()
            s.add(z3.RealVal(0) != 0)
            r = check(s, timeout)
            return ('proved', 'LRA/0') if r == 'unsat' else ('unknown', 'LRA')
        p = merge_close(c, p)
        eqs = []
        for (t, rel, val) in eng.cons:
            if rel == '==' and val:
                q0 = c.canon(t)
                for q in (c.rationalise(q0)[0], unroot(c, q0)):
                    if q:
                        eqs.append(q)
        r = _lra(c, p, eqs, tol, timeout)
        if r == 'unsat':
            return 'proved', 'LRA/%d' % len(p)
        return 'open', 'LRA'
    except TooBig as e:
        return 'open', 'toobig %s' % e
    except (RecursionError, OverflowError, ZeroDivisionError, ValueError) as e:
        return 'open', 'canon %s' % type(e).__name__


def merge_close(c, p, tol=1e-9):
    """add up the monomials of p which differ by rounding of their exponents:
    on the whole box they agree within a factor exp(+-tol) (the logarithm of
    a positive double is within +-745)"""
    bound = {}

    def liv(m):
        r = (1.0, 1.0)
        for i, e in m:
            iv = c.atoms[i].iv
            r = imul(r, ipow((max(iv[0], -745.0), min(iv[1], 745.0)) if c.atoms[i].kind == 'L' else iv, e))
        return r

    def lnb(i):
        b = bound.get(i)
        if b is None:
            a = c.atoms[i]
            iv = liv(a.data) if a.kind == 'E' else tuple(math.log(x) if 0 < x < INF else 745.0 for x in a.iv) if a.sg > 0 else (INF,)
            b = max(abs(x) for x in iv)
            bound[i] = b = INF if b != b else b
        return b
    groups, out = {}, {}
    for m, v in p.items():
        key = tuple(i for i, _ in m)
        for r in groups.setdefault(key, []):
            d = [(i, abs(float(e - f))) for (i, e), (_, f) in zip(m, r) if e != f]
            if all(x < 1e-9 for _, x in d) and sum(x * lnb(i) for i, x in d) < tol:
                w = out[r]
                out[r] = [w[0] + v[0], w[1] + v[1]]
                break
        else:
            groups[key].append(m)
            out[m] = v
    return c.clean(out) if len(out) < len(p) else p


def same_up_to(eng, t, u, k):
    """t == k*u identically?  (k a float read off sampled points)"""
    kq = Fraction(k).limit_denominator(10**6) if 1e-3 <= abs(k) <= 1e3 else 1 / Fraction(1 / k).limit_denominator(10**6) if abs(k) < 1 else Fraction(k)
    if abs(float(kq) - k) > 1e-12 * abs(k):
        kq = Fraction(k)
    d = tm.sub(t, tm.mul(tm.const(kq), u))
    n = sum(1 for _ in tm.topo([d]))
    for mk in (lambda: LazyCanon(eng, 1), lambda: LazyCanon(eng, 12)) + ((lambda: Canon(eng),) if n < 120 else ()):
        try:
            c = mk()
            p = c.canon(d)
            if p and not isinstance(c, LazyCanon):
                p = c.rationalise(p)[0]
            if not p:
                return True
        except (TooBig, RecursionError, OverflowError, ZeroDivisionError, ValueError):
            pass
    return False


def unroot(c, q):
    """a two-term equation k1*m1 = k2*m2 (all positive) with roots of sums, raised to clear the roots"""
    if len(q) != 2:
        return None
    (m1, (k1, _)), (m2, (k2, _)) = q.items()
    if k1 * k2 >= 0 or not (c.mpos(m1) and c.mpos(m2)):
        return None
    d = 1
    for i, e in c.mm(m1, c.inv(m2)):
        if c.atoms[i].kind in 'SP':
            d = max(d, e.denominator)
    if not 2 <= d <= 3:
        return None
    def mp(m):
        return tuple((i, e * d) for i, e in m)
    def ex(m, k):
        out = {tuple((i, e) for i, e in m if c.atoms[i].kind != 'P'): [k, abs(float(k))]}
        for i, e in m:
            if c.atoms[i].kind == 'P':
                out = c.mul(out, c.pow(c.atoms[i].data[1][0], e))
        return out
    k1, k2 = abs(k1)**d, abs(k2)**d
    p = c.add(ex(mp(m1), k1), ex(mp(m2), -k2))
    return c.rationalise(c.normal(c.clean(p)))[0]


def _lra(c, p, eqs, tol, timeout):
    s = z3.Solver()
    mv = {}

    def m2z(m):
        z = mv.get(m)
        if z is None:
            i = len(mv)
            if m == ():
                z = (z3.RealVal(1), z3.RealVal(1))
            elif c.mpos(m):
                x = z3.Real('m%d' % i)
                s.add(x >= 0)
                z = (x, x)
            else:
                x = z3.Real('m%d' % i)
                a = z3.Real('a%d' % i)
                s.add(a >= x, a >= -x)
                z = (x, a)
            mv[m] = z
        return z
    if len(p) > 1500:
        return 'unknown'
    D = z3.Sum([q2z(k) * m2z(m)[0] for m, (k, _) in p.items()])
    M = z3.Sum([q2z(Fraction(g)) * m2z(m)[1] for m, (_, g) in p.items() if g < 1e300])
    for q in eqs:
        if len(p) * len(q) > 400:
            mults = {c.mm(m, c.inv(max(q))) for m in p} if len(p) < 400 else {()}
        else:
            mults = {c.mm(m, c.inv(mq)) for m in p for mq in q}
        mults.add(())
        if len(p) * len(q) <= 60 and len(q) <= 6:
            # one more round: products reached through the equation itself
            more = {c.mm(mu, m) for mu in mults for m in q} - set(p)
            mults |= {c.mm(m, c.inv(mq)) for m in more for mq in q}
        for mu in mults:
            s.add(z3.Sum([q2z(k) * m2z(c.mm(mu, m))[0] for m, (k, _) in q.items()]) == 0)
    s.add(z3.Or(D > q2z(tol) * M, -D > q2z(tol) * M))
    return check(s, timeout)


def prove_cond(eng, t, rel, val, timeout=4000, split=True, budget=20.0):
    """Is (t rel 0) == val on every point of the path?"""
    r = eng.decide_static(t, rel)
    if r is not None and r == val:
        # interval / recorded fact: confirm with the solver on the purified term
        s = z3.Solver()
        lo, hi = eng.ival(t)
        x = z3.Real('x')
        if eng.lookup(t, rel) is not None:
            # fact on the path
            b = z3.Bool('fact')
            s.add(b, z3.Not(b))
        else:
            if lo != -INF:
                s.add(x >= smt.f2z(lo))
            if hi != INF:
                s.add(x <= smt.f2z(hi))
            s.add(_neg(x, rel, val))
        if check(s, timeout) == 'unsat':
            return 'proved', 'interval+LRA'
    if r is not None and r != val and eng.lookup(t, rel) is not None:
        # either a violation or a path no input takes (the solver had not been asked)
        s = eng.solver()
        eng._flush()
        if check(s, 1500) == 'unsat':
            return 'proved', 'infeasible path'
        return 'open', 'contradicts a path fact'
    t0 = time.time()
    # canonical simplification
    cd = canon_decide(eng, t, rel)
    if cd is not None and cd == val:
        return 'proved', 'canon+LRA'
    try:
        c = Canon(eng)
        p, den = c.rationalise(c.canon(t))
        if not p:
            ok = (rel in ('<=', '==')) == val
            if ok:
                return 'proved', 'canon'
    except (TooBig, RecursionError, OverflowError, ZeroDivisionError, ValueError):
        p = None
    if p is not None:
        r = _canon_query(eng, c, p, den, rel, val, timeout)
        if r == 'unsat':
            return 'proved', 'NRA-canon'
    s = eng.solver()
    e = eng._enc
    cz = eng.zc(e, t, rel, not val)
    eng._flush()
    s.push()
    s.add(cz)
    r = check(s, timeout)
    if r == 'sat':
        eng._take_model(s.model(), extra=(t, rel, not val))
    s.pop()
    if r == 'unsat':
        return 'proved', 'NRA'
    if split:
        if reduced_prove(eng, t, rel, val, budget / 2):
            return 'proved', 'reduced-box'
        ok, n = box_prove(eng, t, rel, val, budget)
        if ok:
            return 'proved', 'box/%d' % n
    return 'open', 'NRA:%s' % r


def _neg(x, rel, val):
    c = x < 0 if rel == '<' else (x <= 0 if rel == '<=' else x == 0)
    return z3.Not(c) if val else c


def fold_den(c, p, den):
    """polynomial with the sign of p/den (denominators of unknown sign multiplied in)"""
    for i, k in den.items():
        if c.atoms[i].sg <= 0 and k % 2:
            p = c.rationalise(c.mul(p, c.atoms[i].data[1][0]))[0]
    return p, {i: k for i, k in den.items() if c.atoms[i].sg > 0}


INCREASING = ('erf', 'atan', 'tanh', 'asin', 'gammaincc')


def _canon_query(eng, c, p, den, rel, val, timeout, depth=0):
    """NRA over canonical atoms (atoms purified with their sign / interval)."""
    if rel == '==':
        den = {}
    p, den = fold_den(c, p, den)
    if len(p) > 60 or not p:
        return 'unknown'
    ct = tuple((i, e) for i, e in c.content(p) if c.atoms[i].sg > 0)
    if ct and c.strict(ct):
        p = {c.mm(k, c.inv(ct)): v for k, v in p.items()}
    s = z3.Solver()
    az = {}

    def a2z(i):
        z = az.get(i)
        if z is None:
            a = c.atoms[i]
            z = z3.Real('a%d' % i)
            az[i] = z
            lo, hi = a.iv
            if lo != -INF:
                s.add(z >= smt.f2z(lo))
            elif a.sg > 0:
                s.add(z >= 0)
            if hi != INF:
                s.add(z <= smt.f2z(hi))
            if a.kind == 'E':
                s.add(z > 0)
            if a.kind == 'S' and len(a.data[1][0]) <= 30:
                ex = poly(a.data[1][0])
                s.add(z == ex)
        return z
    pw = {}

    def powz(i, e):
        k = (i, e)
        if k in pw:
            return pw[k]
        if e.denominator == 1 and 0 < e <= 4:
            z = a2z(i)
            r = z
            for _ in range(int(e) - 1):
                r = r * z
        elif e.denominator == 1 and -4 <= e < 0:
            z = a2z(i)
            r = z
            for _ in range(int(-e) - 1):
                r = r * z
            y = z3.Real('q%d_%d' % (i, len(pw)))
            s.add(y * r == 1)
            r = y
        else:
            z = a2z(i)
            y = z3.Real('q%d_%d' % (i, len(pw)))
            from .interval import ipow
            lo, hi = ipow(c.atoms[i].iv if c.atoms[i].sg <= 0 else (max(0.0, c.atoms[i].iv[0]), c.atoms[i].iv[1]), e)
            if lo != -INF:
                s.add(y >= smt.f2z(lo))
            if hi != INF:
                s.add(y <= smt.f2z(hi))
            if e.denominator in (2, 3) and abs(e.numerator) <= 3:
                yy = y
                for _ in range(e.denominator - 1):
                    yy = yy * y
                zz = z
                for _ in range(abs(e.numerator) - 1):
                    zz = zz * z
                s.add(yy == zz if e > 0 else yy * zz == 1)
            elif c.atoms[i].sg > 0:
                # x^e versus 1 and versus x
                if e > 0:
                    s.add((z < 1) == (y < 1), (z == 1) == (y == 1))
                    if e < 1:
                        s.add(z3.Implies(z <= 1, y >= z), z3.Implies(z >= 1, y <= z))
                    else:
                        s.add(z3.Implies(z <= 1, y <= z), z3.Implies(z >= 1, y >= z))
                else:
                    s.add((z < 1) == (y > 1), (z == 1) == (y == 1))
            r = y
        pw[k] = r
        return r

    def poly(q):
        out = []
        for m, (k, _) in q.items():
            z = q2z(k)
            for i, e in m:
                z = z * powz(i, e)
            out.append(z)
        return z3.Sum(out) if out else z3.RealVal(0)
    z = poly(p)
    if depth <= 1 and len(p) <= 12:
        ms = [m for m in p if c.mpos(m) and c.strict(m)]
        n = 0
        for a in range(len(ms)):
            for b in range(a):
                ra = c.mm(ms[a], c.inv(ms[b]))
                if not any(c.atoms[i].kind in 'E' or e.denominator != 1 for i, e in ra) or n > 20:
                    continue
                n += 1
                try:
                    r = mono_vs_one(eng, c, ra, F1, depth=depth + 1)
                except TooBig:
                    continue
                if r:
                    zm, zn = poly({ms[a]: (F1, 1.0)}), poly({ms[b]: (F1, 1.0)})
                    s.add({'<': zm < zn, '>': zm > zn, '=': zm == zn, '<=': zm <= zn, '>=': zm >= zn}[r])
    # logarithms are monotone
    ls = [i for i in az if c.atoms[i].kind == 'L']
    if len(ls) <= 6:
        for i in ls:
            bi = c.atoms[i].data[0]
            if c.atoms[bi].kind in ('v', 'S'):
                s.add((a2z(bi) > 1) == (az[i] > 0), (a2z(bi) == 1) == (az[i] == 0))
                for j in ls:
                    if j < i and c.atoms[c.atoms[j].data[0]].kind in ('v', 'S'):
                        s.add((a2z(bi) > a2z(c.atoms[j].data[0])) == (az[i] > az[j]))
    # increasing functions keep the order of their arguments
    fs = [i for i in az if c.atoms[i].kind in INCREASING]
    if len(fs) <= 6:
        for i in fs:
            for j in fs:
                if j < i and c.atoms[i].kind == c.atoms[j].kind:
                    u, v = c.atoms[i].data[1], c.atoms[j].data[1]
                    if len(u) > 1:          # decreasing in its last argument, the others must be the same
                        if len(v) != len(u) or c.add(u[0], c.scale(v[0], Fraction(-1))):
                            continue
                        u, v = v, u
                    d = c.add(u[-1], c.scale(v[-1], Fraction(-1)))
                    lo, hi = poly_range(eng, c, d)
                    if lo >= 0:
                        s.add(az[i] > az[j] if lo > 0 else az[i] >= az[j])
                    elif hi <= 0:
                        s.add(az[i] < az[j] if hi < 0 else az[i] <= az[j])
    # sign of the denominator
    sgn = 1
    for i, k in den.items():
        if c.atoms[i].sg <= 0 and k % 2:
            sgn = 0
    if sgn == 0 and rel != '==':
        return 'unknown'
    n = 0
    for (t, r2, v2) in eng.cons[-60:]:
        try:
            q, dn = c.rationalise(c.canon(t))
        except (TooBig, RecursionError, OverflowError, ZeroDivisionError, ValueError):
            continue
        if len(q) > 30 or any(c.atoms[i].sg <= 0 for i in dn):
            continue
        zc = poly(q)
        cc = zc < 0 if r2 == '<' else (zc <= 0 if r2 == '<=' else zc == 0)
        s.add(cc if v2 else z3.Not(cc))
    s.add(_neg(z, rel, val))
    return check(s, timeout)


class _Red:
    """The condition rewritten over the few independent dimensionless groups it
    depends on (the groups' box over-approximates the inputs' box)."""

    def __init__(self, eng, c, use_vlogs=False):
        self.eng, self.c = eng, c
        self.vlogs, self.use_vlogs = False, use_vlogs
        self.dirs = []        # basis of exponent vectors over v-atoms (dict i->e)
        self.piv = []         # pivot atom of each basis vector (reduced echelon)
        self.tt = {}

    def lead(self, i):
        """the leading monomial of sum atom i"""
        return max(self.c.atoms[i].data[1][0])

    def vpart(self, m):
        """exponents of the inputs; a sum counts as its leading monomial"""
        d = {}
        for i, e in m:
            k = self.c.atoms[i].kind
            if k == 'v':
                d[i] = d.get(i, 0) + e
            elif k == 'S':
                for j, f in self.vpart(self.lead(i)).items():
                    d[j] = d.get(j, 0) + e * f
        return {i: e for i, e in d.items() if e != 0}

    def reduce(self, d):
        """-> coordinates in the basis and remainder"""
        d = dict(d)
        co = []
        for b, pv in zip(self.dirs, self.piv):
            k = d.get(pv, 0)
            co.append(k)
            if k:
                for i, e in b.items():
                    d[i] = d.get(i, 0) - k * e
        return co, {i: e for i, e in d.items() if e != 0}

    def add_dir(self, d):
        co, r = self.reduce(d)
        if not r:
            return
        pv = min(r)
        k = r[pv]
        r = {i: e / k for i, e in r.items()}
        for b in self.dirs:
            k = b.get(pv, 0)
            if k:
                for i, e in r.items():
                    b[i] = b.get(i, 0) - k * e
                for i in [i for i, e in b.items() if e == 0]:
                    del b[i]
        self.dirs.append(r)
        self.piv.append(pv)

    def scan_atom(self, i, seen):
        if i in seen:
            return
        seen.add(i)
        a = self.c.atoms[i]
        if a.kind == 'v':
            if a.sg <= 0:
                raise TooBig('sign')
            return
        if a.kind == 'E':
            self.add_dir(self.vpart(a.data))
            for j, _ in a.data:
                self.scan_atom(j, seen)
        elif a.kind == 'L':
            b = self.c.atoms[a.data[0]]
            if b.kind == 'v':
                self.vlogs = True
                if self.use_vlogs:
                    self.add_dir({b.i: F1})
            elif b.kind == 'S':
                self.add_dir(self.vpart(((b.i, F1),)))
            self.scan_atom(a.data[0], seen)
        elif a.kind == 'S':
            self.scan(a.data[1][0], self.lead(i), seen)
        else:
            for q in a.data[1]:
                self.scan(q, None, seen)

    def scan(self, p, m0, seen):
        v0 = self.vpart(m0) if m0 is not None else {}
        for m in p:
            d = self.vpart(m)
            for i, e in v0.items():
                d[i] = d.get(i, 0) - e
            self.add_dir({i: e for i, e in d.items() if e != 0})
            for j, _ in m:
                self.scan_atom(j, seen)

    def atom_term(self, i):
        t = self.tt.get(i)
        if t is None:
            a = self.c.atoms[i]
            if a.kind == 'v':
                t = self.mono_term(((i, F1),))
            elif a.kind == 'E':
                t = tm.fn('exp', self.mono_term(a.data))
            elif a.kind == 'L':
                b = self.c.atoms[a.data[0]]
                if b.kind == 'v' and not self.use_vlogs:
                    # other atoms of the group set to one (justified by verify())
                    t = tm.fn('log', tm.var('@U%d' % self.piv.index(b.i))) if b.i in self.piv else tm.ZERO
                else:
                    t = tm.fn('log', self.mono_term(((a.data[0], F1),)))
            elif a.kind == 'S':
                t = self.term(a.data[1][0], self.lead(i))      # divided by its leading inputs
            elif a.kind == 'P':
                t = self.term(a.data[1][0])
            else:
                t = tm.fn(a.kind, *[self.term(q) for q in a.data[1]])
            self.tt[i] = t
        return t

    def mono_term(self, m, v0=None):
        d = self.vpart(m)
        for i, e in (v0 or {}).items():
            d[i] = d.get(i, 0) - e
        co, r = self.reduce(d)
        if r:
            raise TooBig('direction')
        t = tm.ONE
        for j, k in enumerate(co):
            if k:
                t = tm.mul(t, tm.powr(tm.var('@U%d' % j), k))
        for i, e in m:
            a = self.c.atoms[i]
            if a.kind == 'E':
                t = tm.mul(t, tm.fn('exp', tm.mul(tm.const(e), self.mono_term(a.data))))
            elif a.kind != 'v':
                t = tm.mul(t, tm.powr(self.atom_term(i), e))
        return t

    def term(self, p, m0=None):
        t = tm.ZERO
        v0 = self.vpart(m0) if m0 is not None else {}
        for m, (k, _) in p.items():
            t = tm.add(t, tm.mul(tm.const(k), self.mono_term(m, v0)))
        return t


    def verify(self, t, tt, m0):
        """tt with the groups written out equals t / m0"""
        if not self.vlogs or self.use_vlogs:
            return True
        at = {i: (tm.var(a.data) if isinstance(a.data, str) else tm.neg(tm.var(a.data[1]))) for i, a in enumerate(self.c.atoms) if a.kind == 'v'}

        def mono(m):
            x = tm.ONE
            for i, e in sorted(m):
                x = tm.mul(x, tm.powr(at[i], e))
            return x
        sub = {'@U%d' % j: mono(d.items()) for j, d in enumerate(self.dirs)}
        back = tm.mul(tm.subst(tt, sub), mono(m0))
        return prove_zero(self.eng, tm.sub(back, t), None, TOL)[0] == 'proved'


class _FakeEng:
    def __init__(self, vars, cons):
        self.vars, self.cons = vars, cons

    def zc(self, e, t, rel, val):
        z = e.enc(t)
        c = z < 0 if rel == '<' else (z <= 0 if rel == '<=' else z == 0)
        return c if val else z3.Not(c)


def _strip(c, p):
    """monomial of positive inputs: the v-part of the leading term of p"""
    v = tuple(sorted(_Red(None, c).vpart(max(p)).items()))
    if not all(c.atoms[i].sg > 0 for i, _ in v) or not c.strict(v):
        return None
    return v


def reduced_prove(eng, t, rel, val, budget=6.0, maxdim=2):
    if rel == '==' and val:
        return False
    try:
        c = Canon(eng)
        p, den = c.rationalise(c.canon(t))
        if rel == '==':
            den = {}
        odd = [i for i in den if c.atoms[i].sg <= 0]
        p, den = fold_den(c, p, den)
        if not p or len(p) > 200:
            return False
        m0 = _strip(c, p)
        if m0 is None:
            return False
        for use in (False, True):
            r = _Red(eng, c, use)
            r.scan(p, m0, set())
            if len(r.dirs) > maxdim or not r.dirs:
                continue
            tt = r.term(p, m0)
            if not den and not odd and rel != '==' and r.verify(t, tt, m0):
                break
            if not r.vlogs or use:
                break
        else:
            return False
        if len(r.dirs) > maxdim or not r.dirs:
            return False
        box = {}
        for j, d in enumerate(r.dirs):
            lo, hi = c.miv(tuple(sorted(d.items())))
            lo = max(lo, 0.0)
            if hi == INF or lo <= 0:
                return False
            box['@U%d' % j] = (lo, hi)
        cons = []
        for (t2, r2, v2) in eng.cons[-40:]:
            if r2 == '==':
                continue
            try:
                q, dn = c.rationalise(c.canon(t2))
                if not q or any(c.atoms[i].sg <= 0 for i in dn):
                    continue
                m1 = _strip(c, q)
                if m1 is None:
                    continue
                r.tt = {}
                x = r.term(q, m1)
                if r.use_vlogs or (not dn and r.verify(t2, x, m1)) or not r.vlogs:
                    cons.append((x, r2, v2))
            except TooBig:
                continue
        # sharpen the groups' box with single-group constraints
        for (t2, r2, v2) in cons:
            b = _bound(t2)
            if b is None or b[0] not in box:
                continue
            n, x, up = b
            lo, hi = box[n]
            if up == v2:
                hi = min(hi, x * (1 + 1e-12))
            else:
                lo = max(lo, x * (1 - 1e-12))
            if lo > hi:
                s = z3.Solver()
                z = z3.Real('u')
                s.add(z >= smt.f2z(lo), z <= smt.f2z(hi))
                return check(s, 500) == 'unsat'
            box[n] = (lo, hi)
        f = _FakeEng(box, [x for x in cons if tm.free_vars(x[0]) <= set(box)])
        if rel == '==':
            # nonzero: one sign throughout
            ok, n = box_prove(f, tt, '<=', False, budget / 2)
            if not ok:
                ok, n = box_prove(f, tt, '<', True, budget / 2)
            return ok
        ok, n = box_prove(f, tt, rel, val, budget)
        return ok
    except (TooBig, RecursionError, OverflowError, ZeroDivisionError, ValueError):
        return False


def _bound(t):
    """t = k*U^r + c  with k, r != 0: (U, (−c/k)^(1/r) rounded outward, upper bound when t<0)"""
    if t.op != '+' or t.args[1].op != 'c' and t.args[0].op != 'c':
        return None
    a, b = t.args if t.args[1].op == 'c' else (t.args[1], t.args[0])
    k = F1
    if a.op == '*' and a.args[0].op == 'c':
        k = a.args[0].val
        a = a.args[1]
    r = F1
    if a.op == '^':
        r = a.val
        a = a.args[0]
    if a.op != 'v':
        return None
    x = -b.val / k
    if x <= 0:
        return None
    up = (k > 0) == (r > 0)
    y = float(x) ** float(1 / r)
    return a.val, y, up


def box_prove(eng, t, rel, val, budget):
    """Branch over sub-boxes of the inputs; each leaf is closed by z3 on the
    linear relaxation valid on that sub-box."""
    if rel == '==':
        return False, 0
    names = sorted(n for n in tm.free_vars(t) if n in eng.vars)
    if not names or len(names) > 4:
        return False, 0
    for n in names:
        lo, hi = eng.vars[n]
        if lo == -INF or hi == INF:
            return False, 0
    cons = [(c, r, v) for (c, r, v) in eng.cons if tm.free_vars(c) <= set(names)]
    t0 = time.time()
    stack = [{n: eng.vars[n] for n in names}]
    leaves = 0
    while stack:
        if time.time() - t0 > budget or leaves > 4000:
            return False, leaves
        box = stack.pop()
        memo = {}
        lo, hi = ieval(t, box, memo)
        # infeasible by a constraint?
        dead = False
        for (c, r, v) in cons:
            l2, h2 = ieval(c, box, memo)
            if r == '<' and ((v and l2 >= 0) or (not v and h2 < 0)):
                dead = True
            elif r == '<=' and ((v and l2 > 0) or (not v and h2 <= 0)):
                dead = True
            elif r == '==' and v and (l2 > 0 or h2 < 0):
                dead = True
            if dead:
                break
        if dead:
            leaves += 1
            continue
        # interval closes?
        closed = False
        if rel == '<':
            closed = hi < 0 if val else lo >= 0
        else:
            closed = hi <= 0 if val else lo > 0
        # z3 verdict on the leaf
        if closed or _width(box, eng, names) < 0.26:
            s = z3.Solver()
            e = smt.Enc(box, imemo=memo)
            if closed:
                x = z3.Real('x')
                if lo != -INF:
                    s.add(x >= smt.f2z(lo))
                if hi != INF:
                    s.add(x <= smt.f2z(hi))
                s.add(_neg(x, rel, val))
            else:
                s.add(eng.zc(e, t, rel, not val))
                for (c, r, v) in cons:
                    s.add(eng.zc(e, c, r, v))
                for x in e.side:
                    s.add(x)
            if check(s, 150) == 'unsat':
                leaves += 1
                continue
        # split the (relatively) widest variable
        best, w = None, 0
        for n in names:
            a, b = box[n]
            l0, h0 = eng.vars[n]
            ww = (b - a) / (h0 - l0) if h0 > l0 else 0
            if l0 > 0 and h0 / l0 > 100:
                import math
                ww = tm._raw['log'](b / a) / tm._raw['log'](h0 / l0)
            if ww > w:
                best, w = n, ww
        if best is None or w < 1e-7:
            return False, leaves
        a, b = box[best]
        l0, h0 = eng.vars[best]
        m = (a * b) ** 0.5 if (a > 0 and b / a > 4) else 0.5 * (a + b)
        if not a < m < b:
            return False, leaves
        b1 = dict(box); b1[best] = (a, m)
        b2 = dict(box); b2[best] = (m, b)
        stack.append(b2)
        stack.append(b1)
    return True, leaves


def _width(box, eng, names):
    w = 0
    for n in names:
        a, b = box[n]
        l0, h0 = eng.vars[n]
        if h0 > l0:
            w = max(w, (b - a) / (h0 - l0))
    return w


def log_mono(c, m, k):
    """canonical polynomial of log(k*m) for positive k and positive atoms"""
    from .canon import qmp, mpf_frac, DPS
    import mpmath
    out = {}
    for i, e in m:
        out = c.add(out, c.scale(c.logatom(i), e))
    if k != 1:
        with mpmath.workdps(DPS):
            out = c.add(out, c.const(mpf_frac(mpmath.log(qmp(k)))))
    return c.clean(out)


def mono_vs_one(eng, c, m, k, depth=0):
    """sign of k*m - 1 for a positive monomial: '<', '=', '>', '<=', '>=' or None"""
    q, den = c.rationalise(log_mono(c, m, k))
    if not q:
        return '='
    if any(c.atoms[i].sg <= 0 for i in den):
        return None
    lo, hi = poly_range(eng, c, q)
    if lo > 0:
        return '>'
    if hi < 0:
        return '<'
    if depth < 2:
        for rel, val, ans in (('<=', True, '<='), ('<', False, '>=')):
            if _canon_query(eng, c, q, den, rel, val, 300, depth=depth + 1) == 'unsat':
                rel2, val2, a2 = ('<', True, '<') if ans == '<=' else ('<=', False, '>')
                if _canon_query(eng, c, q, den, rel2, val2, 300, depth=depth + 1) == 'unsat':
                    return a2
                return ans
    if lo >= 0:
        return '>='
    if hi <= 0:
        return '<='
    return None


def poly_range(eng, c, p):
    lo, hi = c.piv(p)
    if len(p) > 1 and lo <= 0 <= hi:
        m = c.content(p)
        m = tuple((i, e) for i, e in m if c.atoms[i].sg > 0)
        if m:
            p2 = {c.mm(k, c.inv(m)): v for k, v in p.items()}
            l2, h2 = c.piv(p2)
            a, b = c.miv(m)
            if l2 >= 0:
                lo = l2 * a if l2 > 0 and a > 0 else 0.0
                if l2 > 0 and a > 0:
                    lo = max(lo * (1 - 1e-12), 5e-324)
            if h2 <= 0:
                hi = h2 * a if h2 < 0 and a > 0 else 0.0
                if h2 < 0 and a > 0:
                    hi = min(hi * (1 - 1e-12), -5e-324)
            # strictness with a positive but possibly tiny content
            if l2 > 0 and c.strict(m):
                lo = max(lo, 5e-324)
            if h2 < 0 and c.strict(m):
                hi = min(hi, -5e-324)
    return lo, hi


def refine_logs(eng, c, p, depth):
    """settle the sign of log atoms of p: sign(log A) = sign(A - 1)"""
    for i in sorted({i for m in p for i, _ in m}):
        a = c.atoms[i]
        if a.kind != 'L' or a.iv[0] >= 0 or a.iv[1] <= 0:
            continue
        b = c.atoms[a.data[0]]
        q = b.data[1][0] if b.kind == 'S' else c.apoly(b)
        r = psign(eng, c, c.add(q, c.const(Fraction(-1))), depth + 1)
        if r in ('>', '>='):
            a.iv = (0.0, a.iv[1])
            a.sg = 1
            if r == '>':
                c.gt1.add(b.i)
        elif r in ('<', '<='):
            a.iv = (a.iv[0], 0.0)


def psign(eng, c, p, depth=0):
    """sign of a polynomial over positive atoms: '<','<=','=','>=','>' or None"""
    if depth > 2:
        return None
    p, den = c.rationalise(p)
    if not p:
        return '='
    p, den = fold_den(c, p, den)
    if not p:
        return None
    refine_logs(eng, c, p, depth)
    lo, hi = poly_range(eng, c, p)
    if lo > 0:
        return '>'
    if hi < 0:
        return '<'
    if len(p) == 1:
        (m, (k, _)), = p.items()
        if c.mpos(m):
            st = c.strict(m)
            return ('>' if st else '>=') if k > 0 else ('<' if st else '<=')
    if len(p) == 2:
        (m1, (k1, _)), (m2, (k2, _)) = sorted(p.items(), key=lambda x: -x[1][0])
        if k1 > 0 > k2 and c.mpos(m1) and c.mpos(m2) and c.strict(m1) and c.strict(m2):
            r = mono_vs_one(eng, c, c.mm(m1, c.inv(m2)), k1 / -k2)
            if r:
                return r
    if depth:
        for rel, val, ans in (('<=', True, '<='), ('<', False, '>=')):
            if _canon_query(eng, c, p, {}, rel, val, 300, depth=depth) == 'unsat':
                rel2, val2, a2 = ('<', True, '<') if ans == '<=' else ('<=', False, '>')
                if _canon_query(eng, c, p, {}, rel2, val2, 300, depth=depth) == 'unsat':
                    return a2
                return ans
    if lo >= 0:
        return '>='
    if hi <= 0:
        return '<='
    return None


def canon_decide(eng, t, rel):
    """Truth of (t rel 0) when the canonical form settles it, else None.
    The verdict is a z3 query over the canonical form's sign."""
    try:
        c = Canon(eng)
        p = c.canon(t)
        if rel == '==':
            p, _ = c.rationalise(p)
        r = psign(eng, c, p)
    except (TooBig, RecursionError, OverflowError, ZeroDivisionError, ValueError):
        return None
    if r is None:
        return None
    for ans in (True, False):
        s = z3.Solver()
        x = z3.Real('x')
        s.add({'<': x < 0, '<=': x <= 0, '=': x == 0, '>=': x >= 0, '>': x > 0}[r])
        s.add(_neg(x, rel, ans))
        if check(s, 500) == 'unsat':
            return ans
    return None


def canon_refutes(eng, t, rel, val, timeout):
    """No point of the path has (t rel 0) == val, by the canonical NRA query."""
    try:
        c = Canon(eng)
        p, den = c.rationalise(c.canon(t))
        if not p:
            return ((rel != '<') != val)
        return _canon_query(eng, c, p, den, rel, not val, timeout) == 'unsat'
    except (TooBig, RecursionError, OverflowError, ZeroDivisionError, ValueError):
        return False

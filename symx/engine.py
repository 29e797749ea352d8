"""Path exploration over the real code."""
import os
import random
import time
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import sym, smt
from . import terms as tm
from .interval import ieval, INF
from .sym import Sym, SymBool
from .terms import Unsupported

warnings.filterwarnings('ignore')


DEAD = [False]


class Infeasible(BaseException):
    """The current path contradicts an assumption (marker survives bare excepts)."""

    def __init__(self):
        DEAD[0] = True


class Stop(BaseException):
    """Stop this path here (after a finished harness)."""


_np_pow = np.power
NPFN = {
    'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'atan': np.arctan,
    'asin': np.arcsin, 'acos': np.arccos, 'tanh': np.tanh, 'sinh': np.sinh, 'cosh': np.cosh,
    'asinh': np.arcsinh, 'acosh': np.arccosh, 'atanh': np.arctanh, 'floor': np.floor, 'abs': np.abs,
}


class Points:
    """A pool of concrete points of the input box; used to find witnesses of
    path feasibility quickly and to seed counterexample concretisation."""

    def __init__(self, n, seed):
        self.n = n
        self.rng = np.random.RandomState(seed & 0x7fffffff)
        self.vals = {}
        self.memo = {}

    def new_var(self, name, lo, hi):
        if lo == -INF:
            lo = -1e6 if hi == INF else hi - 1e6
        if hi == INF:
            hi = 1e6 if lo <= 0 else lo * 1e8
        n = self.n
        u = self.rng.rand(n)
        lin = lo + (hi - lo) * u
        if lo > 0 and hi / lo > 20:
            lg = lo * (hi / lo) ** u
            pick = self.rng.rand(n) < 0.75
            v = np.where(pick, lg, lin)
        else:
            v = lin
        if lo <= 0 <= hi and hi > 0 and lo == 0:
            pick = self.rng.rand(n) < 0.35
            v = np.where(pick, hi * 10 ** (-6 * self.rng.rand(n)), v)
        self.vals[name] = np.clip(v, lo, hi)

    def eval(self, t):
        m = self.memo
        if t.id in m:
            return m[t.id]
        with np.errstate(all='ignore'):
            for x in tm.topo([t]):
                if x.id in m:
                    continue
                op = x.op
                if op == 'c':
                    try:
                        v = np.full(self.n, x.val.numerator / x.val.denominator)
                    except OverflowError:
                        v = np.full(self.n, np.nan)
                elif op == 'v':
                    v = self.vals[x.val]
                elif op == 'pi':
                    v = np.full(self.n, np.pi)
                elif op == '+':
                    v = m[x.args[0].id] + m[x.args[1].id]
                elif op == '*':
                    v = m[x.args[0].id] * m[x.args[1].id]
                elif op == '^':
                    b = m[x.args[0].id]
                    r = x.val
                    v = _np_pow(b, float(r)) if r.denominator != 1 else _np_pow(b, float(int(r)))
                else:
                    f = NPFN.get(x.val)
                    if f is None:
                        f = _slow(x.val)
                    v = f(*[m[a.id] for a in x.args])
                m[x.id] = v
        return m[t.id]

    def replace(self, idx, env):
        """Overwrite point idx."""
        for k, v in env.items():
            if k in self.vals:
                self.vals[k][idx] = v
        self.memo.clear()


def _slow(name):
    f = tm.MPFN[name]

    def g(*a):
        out = np.full(len(a[0]), np.nan)
        for i in range(len(a[0])):
            try:
                r = f(*[float(y[i]) for y in a])
                out[i] = float(r.real)
            except Exception:
                pass
        return out
    return g


def single_linear(t):
    """v, c*v, v + c or c*v + c for one input v: decided by its interval alone"""
    if t.op == '+':
        a, b = t.args
        if a.op == 'c':
            t = b
        elif b.op == 'c':
            t = a
        else:
            return False
    if t.op == '*':
        a, b = t.args
        return a.op == 'c' and b.op == 'v' or b.op == 'c' and a.op == 'v'
    return t.op == 'v'


def _lin(t):
    """(v, threshold) of a single_linear term"""
    c, k = 0, 1
    if t.op == '+':
        a, b = t.args
        c, t = (a.val, b) if a.op == 'c' else (b.val, a)
    if t.op == '*':
        a, b = t.args
        k, t = (a.val, b) if a.op == 'c' else (b.val, a)
    return t, float(-c / k) if k else 0.0


def near(t, u):
    (v, a), (w, b) = _lin(t), _lin(u)
    return v is w and abs(a - b) <= 1e-8 * max(abs(a), abs(b))


class Engine:
    def __init__(self, seed=1, npoints=96, feas_timeout=250, max_paths=2000, deadline=None):
        self.seed = seed
        self.npoints = npoints
        self.feas_timeout = feas_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.stub_solvers = False
        self.paths = 0
        self.complete = True
        self.unsupported = []
        self.max_decisions = 400
        self.concretize_limit = 80
        self.decision_log = 0
        self.feas_memo = {}
        self._same_memo = {}
        self._ratio_memo = {}
        self.red_budget = 2.0

    # -- path control ------------------------------------------------------
    def explore(self, run):
        """run(self) executes the harness once on the current path."""
        stack = [[]]
        while stack:
            if self.deadline and time.time() > self.deadline:
                self.complete = False
                self.unsupported.append('deadline')
                break
            if self.paths >= self.max_paths:
                self.complete = False
                self.unsupported.append('path limit')
                break
            prefix = stack.pop()
            self.begin(prefix)
            sym.set_engine(self)
            try:
                run(self)
            except Infeasible:
                pass
            finally:
                sym.set_engine(None)
            self.paths += 1
            # schedule alternatives
            for i in range(len(prefix), len(self.decisions)):
                d, alts = self.decisions[i]
                for a in alts:
                    stack.append([x for x, _ in self.decisions[:i]] + [a])

    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        DEAD[0] = False
        tm.POISON[0] = None
        self.decisions = []          # (value, remaining alternatives)
        self.known = {}              # (tid, rel) -> bool
        self.cons = []               # (term, rel, truth)
        self.vars = {}               # name -> (lo, hi)
        self.kinds = {}
        self.env_ver = 0
        self.imemo = {}
        self.pts = Points(self.npoints, self.seed)
        self.alive = np.ones(self.npoints, dtype=bool)
        self._solver = None
        self._enc = None
        self._asserted = 0
        self._sided = 0
        self.fresh_n = 0
        self.equations = []
        self.input_log = {}
        self.fun_log = {}
        self.path_start = time.time()

    def fresh_name(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def new_var(self, name, lo=-INF, hi=INF):
        if name not in self.vars:
            self.vars[name] = (float(lo), float(hi))
            self.pts.new_var(name, float(lo), float(hi))
            self._solver = None
        return Sym(tm.var(name))

    # -- intervals -----------------------------------------------------------
    def ival(self, t):
        return ieval(t, self.vars, self.imemo)

    # -- choice among concrete options -----------------------------------------
    def choose(self, n):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.decisions.append((d, []))
        else:
            d = 0
            self.decisions.append((d, list(range(n - 1, 0, -1))))
        self.pos += 1
        return d

    # -- decisions ---------------------------------------------------------
    def lookup(self, t, rel):
        k = self.known.get((t.id, rel))
        return k

    def _learn(self, t, rel, val):
        kn = self.known
        nt = tm.neg(t)
        a, b = t.id, nt.id
        # facts: t<0, t<=0, t==0, -t<0, -t<=0, -t==0
        def put(k, v):
            kn[k] = v
        if rel == '<':
            if val:
                put((a, '<'), True); put((a, '<='), True); put((a, '=='), False)
                put((b, '<'), False); put((b, '<='), False); put((b, '=='), False)
            else:
                put((a, '<'), False); put((b, '<='), True)
                if kn.get((a, '==')) is False:
                    self._learn(nt, '<', True)
                elif kn.get((a, '<=')) is True:
                    self._learn(t, '==', True)
        elif rel == '<=':
            if val:
                put((a, '<='), True); put((b, '<'), False)
                if kn.get((a, '==')) is False:
                    self._learn(t, '<', True)
                elif kn.get((a, '<')) is False:
                    self._learn(t, '==', True)
            else:
                self._learn(nt, '<', True)
        else:
            if val:
                put((a, '=='), True); put((b, '=='), True)
                put((a, '<='), True); put((b, '<='), True)
                put((a, '<'), False); put((b, '<'), False)
            else:
                put((a, '=='), False); put((b, '=='), False)
                if kn.get((a, '<=')) is True and kn.get((a, '<')) is None:
                    self._learn(t, '<', True)
                elif kn.get((a, '<')) is False and kn.get((b, '<')) is None:
                    self._learn(nt, '<', True)

    def decide_static(self, t, rel):
        """True/False when forced by constants, facts or intervals; else None."""
        if t.op == 'c':
            v = t.val
            return v < 0 if rel == '<' else (v <= 0 if rel == '<=' else v == 0)
        k = self.lookup(t, rel)
        if k is not None:
            return k
        if t.op == 'f' and t.val == 'exp':
            return False
        lo, hi = self.ival(t)
        if rel == '<':
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif rel == '<=':
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
            if lo == 0 == hi:
                return True
        return None

    domain_mode = 'decide'
    domain_assumed = 0

    def decide(self, t, rel):
        if DEAD[0]:
            raise Infeasible()
        if tm.POISON[0] is not None:
            raise Unsupported(tm.POISON[0])
        t = self._simplify(t, rel)
        r = self.decide_static(t, rel)
        if r is not None:
            return r
        if True:
            r = self._same_condition(t, rel, self.light and single_linear(t))
            if r is not None:
                self._learn(t, rel, r)
                return r
        self.decision_log += 1
        if len(self.decisions) > self.max_decisions:
            raise Unsupported('too many decisions on one path')
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.decisions.append((v, []))
            self.pos += 1
            self.constrain(t, rel, v)
            return v
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('deadline')
        mask_t = self.mask(t, rel, True) & self.alive
        mask_f = self.mask(t, rel, False) & self.alive
        at, af = bool(mask_t.any()), bool(mask_f.any())
        if not (at and af):
            from . import prove
            cd = prove.canon_decide(self, t, rel) if not self.light else None
            if cd is not None:
                at, af = cd, not cd
                ft, ff = at, af
            else:
                ft = at or self.feasible(t, rel, True)
                ff = True if not ft else (af or self.feasible(t, rel, False))
        else:
            ft = ff = True
        if not ft and not ff:
            raise Infeasible()
        v = bool(ft)
        self.decisions.append((v, [False] if (ft and ff) else []))
        self.pos += 1
        self.constrain(t, rel, v)
        return v

    def _same_condition(self, t, rel, simple=False):
        """The truth of (t rel 0) when t is a constant multiple of a term whose
        sign was decided earlier on this path (the same threshold written
        differently; multiples that agree to 1e-10 relative count)."""
        if rel == '==' or not self.cons:
            return None
        x = None
        for i, (u, r2, v2) in enumerate(self.cons):
            if r2 == '==':
                continue
            kk = (t.id, u.id)
            if simple and single_linear(u) and not near(t, u):
                continue
            k = self._ratio_memo.get(kk, 0)
            if k is None:
                continue
            if k == 0:
                if x is None:
                    x = self.pts.eval(t)
                    fin = np.isfinite(x) & (x != 0)
                self._ratio_memo[kk] = None
                y = self.pts.eval(u)
                ok = fin & np.isfinite(y) & (y != 0)
                if ok.sum() < 6:
                    continue
                q = x[ok] / y[ok]
                k = float(np.median(q))
                if k == 0 or not np.isfinite(k) or np.mean(np.abs(q / k - 1) < 1e-8) < 0.9:
                    continue
                self._ratio_memo[kk] = k
            if k > 0 and rel != r2 or k < 0 and rel == r2:
                # t < 0 from u <= 0 and the like: settled unless u may be 0
                if k > 0 and not ((rel == '<=' and v2) or (rel == '<' and not v2)):
                    continue
                if k < 0 and not ((rel == '<=' and not v2) or (rel == '<' and v2)):
                    continue
            key = (t.id, rel, i, tuple(d for d, _ in self.decisions))
            r = self._same_memo.get(key)
            if r is None:
                from . import prove
                r = prove.same_up_to(self, t, u, k)
                self._same_memo[key] = r
            if r:
                return v2 if k > 0 else not v2
        return None

    def domain(self, t, rel):
        """Is the operand outside the domain of the operation?  In the mode
        'assume' an undecided domain condition is added as an assumption (the
        harness then speaks about inputs where every operation is defined)
        unless a sampled point shows a whole region where it fails."""
        if self.domain_mode == 'assume' and not DEAD[0] and tm.POISON[0] is None:
            t = self._simplify(t, rel)
            r = self.decide_static(t, rel)
            if r is not None:
                return r
            if rel == '==' or not (self.mask(t, rel, True) & self.alive).any():
                self._learn(t, rel, False)
                self.domain_assumed += 1
                return False
        return self.decide(t, rel)

    def _simplify(self, t, rel):
        """equivalent, simpler condition: drop positive factors, log A ~ A - 1"""
        while True:
            if t.op == '*' and t.args[0].op == 'c' and (t.args[0].val > 0 or rel == '=='):
                t = t.args[1]
            elif t.op == 'f' and t.val == 'log':
                t = tm.sub(t.args[0], tm.ONE)
            elif t.op == '*' and (rel == '==' or self.ival(t.args[0])[0] > 0) and self._nonzero(t.args[0]):
                t = t.args[1]
            elif t.op == '*' and (rel == '==' or self.ival(t.args[1])[0] > 0) and self._nonzero(t.args[1]):
                t = t.args[0]
            elif t.op == '^' and rel == '==' and t.val > 0:
                t = t.args[0]
            else:
                return t

    def _nonzero(self, t):
        lo, hi = self.ival(t)
        return lo > 0 or hi < 0

    def mask(self, t, rel, val):
        x = self.pts.eval(t)
        if rel == '==':
            if val:
                return x == 0
            return np.isfinite(x) & (np.abs(x) > 0)
        if rel == '<' :
            return (x < 0) if val else (x >= 0)
        return (x <= 0) if val else (x > 0)

    def constrain(self, t, rel, val, count=True):
        self._learn(t, rel, val)
        self.cons.append((t, rel, val))
        if self._refine(t, rel, val):
            self.imemo = {}
        self.alive = self.alive & self.mask(t, rel, val)
        if rel == '==' and val and not self.alive.any():
            self._hit_equality(t)

    def _affine1(self, t):
        """t == c*v + k -> (v, c, k)"""
        c, k = Fraction(1), Fraction(0)
        while True:
            if t.op == 'v':
                return t.val, c, k
            if t.op == '+' and t.args[1].op == 'c':
                k += c * t.args[1].val
                t = t.args[0]
            elif t.op == '+' and t.args[0].op == 'c':
                k += c * t.args[0].val
                t = t.args[1]
            elif t.op == '*' and t.args[0].op == 'c':
                c *= t.args[0].val
                t = t.args[1]
            else:
                return None

    def _refine(self, t, rel, val):
        r = self._affine1(t)
        if r is None:
            return False
        v, c, k = r
        if c == 0 or v not in self.vars:
            return False
        b = -k / c
        from .interval import ffrac
        fb = ffrac(b)
        lo, hi = self.vars[v]
        if rel == '==':
            if val:
                self.vars[v] = (max(lo, fb[0]), min(hi, fb[1]))
                if self.vars[v][0] > self.vars[v][1]:
                    raise Infeasible()
                pv = self.pts.vals[v]
                pv[:] = float(b)
                self.pts.memo.clear()
                self._recheck_alive()
                return True
            return False
        upper = (c > 0) == val          # v < b  (or <=)
        if upper:
            hi = min(hi, fb[1])
        else:
            lo = max(lo, fb[0])
        if lo > hi:
            raise Infeasible()
        changed = (lo, hi) != self.vars[v]
        self.vars[v] = (lo, hi)
        return changed

    def _recheck_alive(self):
        a = np.ones(self.pts.n, dtype=bool)
        for (t, rel, val) in self.cons:
            r = self._affine1(t)
            if rel == '==' and val:
                x = self.pts.eval(t)
                a &= np.abs(x) <= 1e-9 * (1 + self._scale(t))
            else:
                a &= self.mask(t, rel, val)
        for k, (lo, hi) in self.vars.items():
            pass
        self.alive = a

    def _scale(self, t):
        if t.op == '+':
            return np.abs(self.pts.eval(t.args[0]))
        return 1.0

    def _hit_equality(self, t):
        """Try to move points on to the surface t == 0 (1-D root search)."""
        names = sorted(tm.free_vars(t), reverse=True)
        for name in names:
            lo, hi = self.vars[name]
            got = self.solve_points(t, name, lo, hi)
            if got:
                return True
        return False

    def solve_points(self, t, name, lo, hi, tries=24):
        lo2 = lo if lo > -INF else -1e9
        hi2 = hi if hi < INF else 1e9
        if lo2 > 0 and hi2 / lo2 > 50:
            grid = lo2 * (hi2 / lo2) ** np.linspace(0, 1, 120)
        elif lo2 == 0:
            grid = np.concatenate([[0.0], hi2 * 10.0 ** np.linspace(-9, 0, 120)])
        else:
            grid = np.linspace(lo2, hi2, 121)
        base_ok = np.ones(self.pts.n, dtype=bool)
        for (c, rel, val) in self.cons:
            if c is t or (rel == '==' and val):
                continue
            base_ok &= True
        best = np.full(self.pts.n, np.nan)
        prev = None
        save = self.pts.vals[name].copy()
        a = np.full(self.pts.n, np.nan)
        b = np.full(self.pts.n, np.nan)
        fa = np.full(self.pts.n, np.nan)
        for g in grid:
            self.pts.vals[name][:] = g
            self.pts.memo.clear()
            y = self.pts.eval(t)
            if prev is not None:
                hit = np.isnan(a) & np.isfinite(y) & np.isfinite(prev[1]) & (np.sign(y) * np.sign(prev[1]) <= 0)
                a[hit] = prev[0]
                b[hit] = g
                fa[hit] = prev[1][hit]
            prev = (g, y)
        ok = ~np.isnan(a)
        if not ok.any():
            self.pts.vals[name][:] = save
            self.pts.memo.clear()
            return False
        for _ in range(80):
            mid = 0.5 * (a + b)
            self.pts.vals[name][:] = np.where(ok, mid, save)
            self.pts.memo.clear()
            y = self.pts.eval(t)
            left = np.sign(y) * np.sign(fa) <= 0
            b = np.where(left, mid, b)
            a = np.where(left, a, mid)
            fa = np.where(left, fa, y)
        self.pts.vals[name][:] = np.where(ok, 0.5 * (a + b), save)
        self.pts.memo.clear()
        self._recheck_alive()
        self.alive &= ok
        return bool(self.alive.any())

    # -- solver --------------------------------------------------------------
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._enc = smt.Enc(dict(self.vars))
            self._asserted = 0
            self._sided = 0
        e = self._enc
        while self._asserted < len(self.cons):
            t, rel, val = self.cons[self._asserted]
            self._solver.add(self.zc(e, t, rel, val))
            self._asserted += 1
        self._flush()
        return self._solver

    def _flush(self):
        e = self._enc
        while self._sided < len(e.side):
            self._solver.add(e.side[self._sided])
            self._sided += 1

    def zc(self, e, t, rel, val):
        z = e.enc(t)
        c = z < 0 if rel == '<' else (z <= 0 if rel == '<=' else z == 0)
        return c if val else z3.Not(c)

    light = False       # do not spend solver time on pruning infeasible paths

    def feasible(self, t, rel, val):
        from . import prove
        if self.light:
            return True
        if prove.canon_refutes(self, t, rel, val, self.feas_timeout):
            return False
        s = self.solver()
        c = self.zc(self._enc, t, rel, val)
        self._flush()
        s.push()
        s.add(c)
        r = smt.check(s, self.feas_timeout)
        if r == 'sat':
            self._take_model(s.model(), extra=(t, rel, val))
        s.pop()
        if r == 'unsat':
            return False
        if not (self.mask(t, rel, val) & self.alive).any():
            k = (t.id, rel, val, tuple((a.id, b, c) for a, b, c in self.cons))
            x = self.feas_memo.get(k)
            if x is None:
                x = self.feas_memo[k] = prove.reduced_prove(self, t, rel, not val, self.red_budget)
            if x:
                return False
        return True

    def _take_model(self, m, extra=None):
        env = {}
        for name, z in self._enc.vars.items():
            v = m.eval(z, model_completion=True)
            f = _zf(v)
            if f is None:
                return
            env[name] = f
        dead = np.where(~self.alive)[0]
        idx = int(dead[self.pts.rng.randint(len(dead))]) if len(dead) else 0
        if not len(dead):
            return
        self.pts.replace(idx, env)
        # is it really a point of the path?
        ok = True
        for (t, rel, val) in self.cons + ([extra] if extra else []):
            if not self.mask(t, rel, val)[idx]:
                ok = False
                break
        if ok:
            for k, (lo, hi) in self.vars.items():
                v = self.pts.vals[k][idx]
                if v < lo or v > hi:
                    ok = False
        self.alive[idx] = ok

    # -- assume ---------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, SymBool):
            t = self._simplify(c.t, c.rel)
            r = self.decide_static(t, c.rel)
            want = not c.neg
            if r is not None:
                if r != want:
                    raise Infeasible()
                return
            self.constrain(t, c.rel, want)
        elif not c:
            raise Infeasible()

    def concretize_floor(self, t):
        lo, hi = self.ival(t)
        if lo == -INF or hi == INF:
            raise Unsupported('unbounded integer conversion')
        a, b = sym._raw['floor'](lo), sym._raw['floor'](hi)
        # binary search by forking: floor(t) in [a, b]
        while a < b:
            mid = (a + b + 1) // 2
            # t >= mid ?
            if not self.decide(tm.sub(t, tm.const(mid)), '<'):
                a = mid
            else:
                b = mid - 1
        return a

    # -- contract stub for iterative solvers ------------------------------------
    def solver_contract(self, f, low, high, args, kwargs, name):
        nm = self.fresh_name('root')
        lo, hi = self.solver_range
        sl = sh = None
        if low is not None:
            if type(low) is Sym:
                sl = low
                lo = max(lo, self.ival(low.t)[0])
            else:
                lo = max(lo, float(low))
        if high is not None:
            if type(high) is Sym:
                sh = high
                hi = min(hi, self.ival(high.t)[1])
            else:
                hi = min(hi, float(high))
        r = self.new_var(nm, lo, hi)
        if sl is not None:
            self.assume(sl <= r)
        if sh is not None:
            self.assume(r <= sh)
        save = self.stub_solvers
        e = f(r, *args, **kwargs)
        self.stub_solvers = save
        if isinstance(e, tuple):
            e = e[0]
        if type(e) is Sym:
            self.equations.append(e.t)
            self.constrain(e.t, '==', True)
            if not self.alive.any():
                self.solve_points(e.t, nm, *self.vars[nm])
        elif e != 0:
            raise Infeasible()
        self.solver_roots.append(nm)
        return r

    # -- contract for numerical quadrature -------------------------------------
    def quad_contract(self, f, a, b, args, kwargs=None):
        """The integral of f over [a, b] is some real number; two integrals
        over the same interval whose integrands agree at every point of it
        (decided symbolically at a fresh point x) are the same number."""
        from .prove import prove_zero
        ta = a.t if type(a) is Sym else tm.lift(a)
        tb = b.t if type(b) is Sym else tm.lift(b)
        if ta is tb:
            return 0.0

        def zero(d):
            if d.op == 'c':
                return d.val == 0
            return prove_zero(self, d, [], Fraction(0))[0] == 'proved'
        for (a0, b0, x, e0, v) in self.integrals:
            if not (zero(tm.sub(ta, a0)) and zero(tm.sub(tb, b0))):
                continue
            e = f(x, *args, **(kwargs or {}))
            te = e.t if type(e) is Sym else tm.lift(e)
            if zero(tm.sub(te, e0)):
                return v
        lo = self.ival(ta)
        hi = self.ival(tb)
        nm = self.fresh_name('x_int')
        x = self.new_var(nm, min(lo[0], hi[0]), max(lo[1], hi[1]))
        pa, pb = self.pts.eval(ta), self.pts.eval(tb)
        v = pa + (pb - pa) * self.pts.rng.rand(self.pts.n)
        self.pts.vals[nm] = np.where(np.isfinite(v), v, self.pts.vals[nm])
        self.assume(sym.wrap(tm.sub(x.t, ta)) >= 0)
        self.assume(sym.wrap(tm.sub(tb, x.t)) >= 0)
        e = f(x, *args, **(kwargs or {}))
        te = e.t if type(e) is Sym else tm.lift(e)
        v = self.new_var(self.fresh_name('integral'), -1e6, 1e6)
        self.integrals.append((ta, tb, x, te, v))
        return v

    # -- witnesses ---------------------------------------------------------------
    def witness(self):
        """A concrete point of the current path, or None."""
        idx = np.where(self.alive)[0]
        if len(idx) == 0:
            s = self.solver()
            r = smt.check(s, 4 * self.feas_timeout)
            if r == 'sat':
                self._take_model(s.model())
            idx = np.where(self.alive)[0]
        if len(idx) == 0:
            return None
        i = int(idx[0])
        return {k: float(v[i]) for k, v in self.pts.vals.items()}

    def witnesses(self, n):
        idx = np.where(self.alive)[0][:n]
        return [{k: float(v[i]) for k, v in self.pts.vals.items()} for i in idx]


def _zf(v):
    try:
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        return None
    return None

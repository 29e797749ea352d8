"""Harness contexts: the same harness function runs symbolically (deciding the
property with the solver) and concretely (replaying a counterexample)."""
import math
import time
from fractions import Fraction

REG = {}


class Harness:
    def __init__(self, pid, name, f, **opt):
        self.pid, self.name, self.f, self.opt = pid, name, f, opt


def harness(pid, name=None, **opt):
    """Options: timeout (s), stub (iterative solvers replaced by their
    contract), tier ('quick'|'thorough'), mp (multi-precision replay),
    max_paths, npoints, roots=(lo,hi), funcs=[...] description of code encoded."""
    def deco(f):
        REG.setdefault(pid, []).append(Harness(pid, name or f.__name__, f, **opt))
        return f
    return deco


class Violation(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, '%s: %s' % (label, detail))
        self.label, self.detail = label, detail


class Skip(BaseException):
    """assumption not met on this concrete input"""


# --------------------------------------------------------------------------- concrete
class NumCtx:
    symbolic = False

    def __init__(self, inputs, choices, funcs=None, mp=False, tolscale=1.0):
        self.inputs, self.choices, self.funcs = inputs, choices, funcs or {}
        self.mp = mp
        self.trace = []
        self.failed = []
        self.tolscale = tolscale
        if mp:
            import mpmath
            self.mpf = mpmath.mpf

    def real(self, name, lo=-math.inf, hi=math.inf):
        if name not in self.inputs:
            raise Skip()
        v = self.inputs[name]
        v = min(max(v, lo), hi)
        return self.mpf(v) if self.mp else float(v)

    def choice(self, name, opts):
        opts = list(opts)
        if name not in self.choices:
            raise Skip()
        return opts[self.choices[name]]

    def assume(self, c):
        if not c:
            raise Skip()

    def integral(self, f, a, b):
        if a == b:
            return 0.0
        from scipy.integrate import quad
        return quad(lambda x: float(f(x)), float(a), float(b), epsabs=0, epsrel=1e-9, limit=200)[0]

    def func(self, name, lo=-math.inf, hi=math.inf):
        tab = [(float(a), float(b)) for a, b in self.funcs.get(name, [])]

        def f(x):
            x = float(x)
            if not tab:
                return 0.0
            # piecewise-linear through the counterexample's points
            best = None
            for a, b in tab:
                if a == x:
                    return b
            s = sorted(tab)
            if x <= s[0][0]:
                return s[0][1]
            if x >= s[-1][0]:
                return s[-1][1]
            for (a0, b0), (a1, b1) in zip(s, s[1:]):
                if a0 <= x <= a1:
                    if a1 == a0:
                        return b0
                    return b0 + (b1 - b0) * (x - a0) / (a1 - a0)
        return f

    def fail(self, label, detail=''):
        self.trace.append((label, 'fail', detail))
        self.failed.append((label, detail))

    def close(self, label, a, b, rtol=1e-6, atol=0.0, prove_tol=None):
        self.trace.append((label, 'close', (a, b)))
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            if a is not b and a != b:
                self.failed.append((label, '%r != %r' % (a, b)))
            return
        if hasattr(a, 'imag') and a.imag == 0 and not isinstance(a, (int, float)) and not hasattr(a, '_mpf_'):
            a = a.real
        d = abs(a - b)
        s = max(abs(a), abs(b))
        if d != d:
            if not (a != a and b != b):
                self.failed.append((label, '%r vs %r' % (a, b)))
            return
        if a == b:
            return
        if d > rtol * self.tolscale * s + atol:
            self.failed.append((label, '%r != %r (relative difference %.3g)' % (float(a), float(b), float(d / s) if s else 0)))

    def le(self, label, a, b, slack=1e-9, tol=0.0):
        """a <= b"""
        self.trace.append((label, 'le', (a, b)))
        m = slack * max(abs(a), abs(b)) + tol
        if not (a <= b + m):
            self.failed.append((label, '%r > %r' % (a, b)))

    def lt(self, label, a, b):
        """a < b"""
        self.trace.append((label, 'lt', (a, b)))
        m = 1e-12 * max(abs(a), abs(b))
        if not (a < b + m):
            self.failed.append((label, '%r >= %r' % (a, b)))

    def true(self, label, c):
        self.trace.append((label, 'true', bool(c)))
        if not c:
            self.failed.append((label, 'false'))

    def same(self, label, a, b):
        self.trace.append((label, 'same', (a, b)))
        if a != b:
            self.failed.append((label, '%r != %r' % (a, b)))

    def attempt(self, f, /, *a, **k):
        """-> (value, exception type name or None)"""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, type(e).__name__

    def raises(self, label, f, *a, exc=('ValueError',), **k):
        v, e = self.attempt(f, *a, **k)
        ok = e is not None and (exc is None or e in exc)
        self.trace.append((label, 'raises', e))
        if not ok:
            self.failed.append((label, 'no error; returned %r' % (v,) if e is None else 'raised %s' % e))

    def decided(self, c):
        return bool(c)


# --------------------------------------------------------------------------- symbolic
class SymCtx:
    symbolic = True

    def __init__(self, eng, result):
        self.eng = eng
        self.res = result
        self.choices = {}
        self.inputs = []
        self.funcs = {}
        self.trace = []

    # inputs -----------------------------------------------------------
    def real(self, name, lo=-math.inf, hi=math.inf):
        self.inputs.append(name)
        return self.eng.new_var(name, lo, hi)

    def choice(self, name, opts):
        opts = list(opts)
        i = self.eng.choose(len(opts)) if len(opts) > 1 else 0
        self.choices[name] = i
        return opts[i]

    def assume(self, c):
        self.eng.assume(c)

    def integral(self, f, a, b):
        """reference integral of f over [a, b] (see Engine.quad_contract)"""
        return self.eng.quad_contract(f, a, b, ())

    def func(self, name, lo=-math.inf, hi=math.inf):
        """an arbitrary real function (congruent on equal arguments)"""
        from .sym import Sym
        from . import terms as tm
        log = self.funcs.setdefault(name, [])

        def f(x):
            t = x.t if type(x) is Sym else tm.lift(x)
            for a, b in log:
                if a is t:
                    return b
                d = tm.sub(a, t)
                if d.op == 'c':
                    if d.val == 0:
                        return b
                    continue
                if self.eng.decide(d, '=='):
                    return b
            v = self.eng.new_var(self.eng.fresh_name(name), lo, hi)
            log.append((t, v))
            return v
        return f

    # goals --------------------------------------------------------------
    def _val(self, x):
        from .sym import Sym
        return x.t if type(x) is Sym else None

    def _goal(self, label, kind, data):
        self.sane()
        self.trace.append((label, kind, data))

    def close(self, label, a, b, rtol=1e-6, atol=0.0, prove_tol=None):
        from .sym import Sym
        from . import terms as tm, prove
        self._goal(label, 'close', (a, b))
        if type(a) is not Sym and type(b) is not Sym:
            n = NumCtx({}, {})
            n.close(label, a, b, rtol, atol)
            self._concrete(label, not n.failed, n.failed)
            return
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            self._concrete(label, False, [(label, '%r != %r' % (a, b))])
            return
        for z in (a, b):
            if isinstance(z, float) and (z != z or z in (math.inf, -math.inf)):
                self._concrete(label, False, [(label, '%r != %r' % (a, b))])
                return
        at = a.t if type(a) is Sym else tm.lift(a)
        bt = b.t if type(b) is Sym else tm.lift(b)
        d = tm.sub(at, bt)
        key = ('close', at.id, bt.id, self._pkey())
        if self._done(key):
            return
        tol = Fraction(prove_tol) if prove_tol else prove.TOL
        if d is tm.ZERO:
            st, how = prove.prove_zero(self.eng, d, None, tol)
        else:
            st, how = prove.prove_zero(self.eng, d, None, tol, timeout=self.res['goal_timeout'])
        if st == 'proved':
            self._ok(label, how)
            return
        # candidates
        def bad(env):
            va, vb = tm.evaluate([at, bt], env)
            return abs(va - vb) > rtol * max(abs(va), abs(vb)) + atol and va != vb
        fa, fb = self.eng.pts.eval(at), self.eng.pts.eval(bt)
        import numpy as np
        with np.errstate(all='ignore'):
            mask = ~(np.abs(fa - fb) <= rtol * np.maximum(np.abs(fa), np.abs(fb)) + atol)
        if self._candidate(label, mask, bad, 'values differ'):
            return
        # NRA with the tolerance:  |a-b| <= rtol*max(|a|,|b|)+atol
        q = Fraction(rtol).limit_denominator(10**12)
        B = tm.add(tm.mul(tm.const(q), tm.powr(tm.powr(bt, Fraction(2)), Fraction(1, 2))), tm.lift(atol)) if self.eng.decide_static(bt, '<') is not False else tm.add(tm.mul(tm.const(q), bt), tm.lift(atol))
        t1 = tm.sub(d, B)
        t2 = tm.sub(tm.neg(d), B)
        s1, h1 = prove.prove_cond(self.eng, t1, '<=', True, self.res['goal_timeout'], True, self.res['box_budget'])
        if s1 == 'proved':
            s2, h2 = prove.prove_cond(self.eng, t2, '<=', True, self.res['goal_timeout'], True, self.res['box_budget'])
            if s2 == 'proved':
                self._ok(label, h1)
                return
        fa, fb = self.eng.pts.eval(at), self.eng.pts.eval(bt)
        with np.errstate(all='ignore'):
            mask = ~(np.abs(fa - fb) <= rtol * np.maximum(np.abs(fa), np.abs(fb)) + atol)
        if self._candidate(label, mask, bad, 'values differ'):
            return
        self._open(label, how + '/' + h1)

    def _cmpgoal(self, label, t, rel, badmargin):
        """goal t rel 0"""
        from . import prove, terms as tm
        if t.op == 'c':
            v = t.val
            ok = v < 0 if rel == '<' else (v <= 0 if rel == '<=' else v == 0)
            self._concrete(label, ok, [(label, 'constant %s' % float(v))])
            return
        key = ('cmp', t.id, rel, self._pkey())
        if self._done(key):
            return
        x = self.eng.pts.eval(t)
        import numpy as np
        if rel == '==':
            mask = ~(np.abs(x) <= badmargin(np))
        else:
            mask = ~(x <= badmargin(np))

        def bad(env):
            v, = tm.evaluate([t], env)
            m = badmargin(None, env)
            return v > m if rel != '==' else abs(v) > m
        if self._candidate(label, mask, bad, 'inequality violated'):
            return
        st, how = prove.prove_cond(self.eng, t, rel, True, self.res['goal_timeout'], True, self.res['box_budget'])
        if st == 'proved':
            self._ok(label, how)
            return
        x = self.eng.pts.eval(t)
        mask = ~(np.abs(x) <= badmargin(np)) if rel == '==' else ~(x <= badmargin(np))
        if self._candidate(label, mask, bad, 'inequality violated'):
            return
        self._open(label, how)

    def _two(self, a, b):
        from .sym import Sym
        from . import terms as tm
        at = a.t if type(a) is Sym else tm.lift(a)
        bt = b.t if type(b) is Sym else tm.lift(b)
        return at, bt

    def le(self, label, a, b, slack=1e-9, tol=0.0):
        from .sym import Sym
        from . import terms as tm
        self._goal(label, 'le', (a, b))
        if type(a) is not Sym and type(b) is not Sym:
            n = NumCtx({}, {})
            n.le(label, a, b, slack, tol)
            self._concrete(label, not n.failed, n.failed)
            return
        at, bt = self._two(a, b)

        def margin(np, env=None):
            if np is not None:
                return slack * np.maximum(np.abs(self.eng.pts.eval(at)), np.abs(self.eng.pts.eval(bt))) + tol
            va, vb = tm.evaluate([at, bt], env)
            return slack * max(abs(va), abs(vb)) + tol
        t = tm.sub(at, bt)
        if tol:
            t = tm.sub(t, tm.lift(tol))
        self._cmpgoal(label, t, '<=', (lambda np, env=None: margin(np, env) - tol) if tol else margin)

    def lt(self, label, a, b):
        from .sym import Sym
        from . import terms as tm
        self._goal(label, 'lt', (a, b))
        if type(a) is not Sym and type(b) is not Sym:
            n = NumCtx({}, {})
            n.lt(label, a, b)
            self._concrete(label, not n.failed, n.failed)
            return
        at, bt = self._two(a, b)

        def margin(np, env=None):
            if np is not None:
                return 1e-9 * np.maximum(np.abs(self.eng.pts.eval(at)), np.abs(self.eng.pts.eval(bt)))
            va, vb = tm.evaluate([at, bt], env)
            return 1e-9 * max(abs(va), abs(vb))
        self._cmpgoal(label, tm.sub(at, bt), '<', margin)

    def true(self, label, c):
        from .sym import SymBool
        if isinstance(c, SymBool):
            from . import prove
            self._goal(label, 'true', c)
            t, rel = c.t, c.rel
            want = not c.neg
            key = ('true', t.id, rel, want, self._pkey())
            if self._done(key):
                return
            mask = self.eng.mask(t, rel, not want)

            def bad(env):
                from . import terms as tm
                v, = tm.evaluate([t], env)
                r = v < 0 if rel == '<' else (v <= 0 if rel == '<=' else v == 0)
                return bool(r) != want
            if self._candidate(label, mask, bad, 'condition false'):
                return
            st, how = prove.prove_cond(self.eng, t, rel, want, self.res['goal_timeout'], True, self.res['box_budget'])
            if st == 'proved':
                return self._ok(label, how)
            mask = self.eng.mask(t, rel, not want)
            if self._candidate(label, mask, bad, 'condition false'):
                return
            return self._open(label, how)
        self._goal(label, 'true', bool(c))
        self._concrete(label, bool(c), [(label, 'false')])

    def same(self, label, a, b):
        from .sym import Sym
        if type(a) is Sym or type(b) is Sym:
            return self.close(label, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self.same('%s[%d]' % (label, i), x, y)
            return
        self._goal(label, 'same', (a, b))
        self._concrete(label, a == b, [(label, '%r != %r' % (a, b))])

    def attempt(self, f, /, *a, **k):
        from .terms import Unsupported
        try:
            r = f(*a, **k), None
        except Unsupported:
            raise
        except Exception as e:
            r = None, type(e).__name__
        self.sane()
        return r

    def raises(self, label, f, *a, exc=('ValueError',), **k):
        v, e = self.attempt(f, *a, **k)
        ok = e is not None and (exc is None or e in exc)
        self._goal(label, 'raises', e)
        self._concrete(label, ok, [(label, 'no error' if e is None else 'raised %s' % e)])

    def fail(self, label, detail=''):
        self._goal(label, 'fail', detail)
        self._concrete(label, False, [(label, detail)])

    def decided(self, c):
        return bool(c)

    def sane(self):
        from . import engine, terms as tm
        if engine.DEAD[0]:
            raise engine.Infeasible()
        if tm.POISON[0] is not None:
            raise tm.Unsupported(tm.POISON[0])

    # bookkeeping ----------------------------------------------------------
    def _pkey(self):
        return (tuple(sorted(self.choices.items())), tuple((t.id, r, v) for t, r, v in self.eng.cons))

    def _done(self, key):
        d = self.res['done']
        if key in d:
            return True
        d.add(key)
        return False

    def _ok(self, label, how):
        self.res['proved'] += 1
        h = how.split('/')[0]
        self.res['how'][h] = self.res['how'].get(h, 0) + 1

    def _open(self, label, how):
        self.res['open'].append((label, how, dict(self.choices)))

    def _concrete(self, label, ok, detail):
        """truth value fixed by the path alone"""
        key = ('conc', label, ok, self._pkey())
        if self._done(key):
            return
        if ok:
            import z3
            from . import smt
            s = z3.Solver()
            s.add(z3.BoolVal(not ok))
            smt.check(s, 1000)
            self._ok(label, 'path')
            return
        w = self.eng.witnesses(8)
        if not w:
            x = self.eng.witness()
            w = [x] if x else []
        d = detail[0][1] if detail else ''
        if w:
            self._cand(label, w, d)
        else:
            s = self.eng.solver()
            from . import smt
            if smt.check(s, 4000) == 'unsat':
                self._ok(label, 'path infeasible')
            else:
                self._open(label, 'no witness: ' + d)

    def _candidate(self, label, mask, bad, why):
        import numpy as np
        from . import terms as tm
        idx = np.where(mask & self.eng.alive)[0]
        w = []
        for i in idx[:12]:
            env = {k: float(v[i]) for k, v in self.eng.pts.vals.items()}
            try:
                if bad(env):
                    w.append(env)
            except tm.EvalError:
                continue
            if len(w) >= 5:
                break
        if not w:
            return False
        self._cand(label, w, why)
        return True

    def _cand(self, label, envs, why):
        cs = []
        for env in envs:
            from . import terms as tm
            fun = {}
            for n, log in self.funcs.items():
                fun[n] = []
                for t, v in log:
                    try:
                        x, y = tm.evaluate([t, v.t], env)
                        fun[n].append((float(x), float(y)))
                    except tm.EvalError:
                        pass
            cs.append({'inputs': {k: env[k] for k in self.inputs if k in env}, 'funcs': fun})
        self.res['cands'].append({'label': label, 'why': why, 'choices': dict(self.choices), 'cases': cs})


def harness_fault(x):
    """a name the harness itself looks up in the package is gone (renamed internals): no verdict"""
    import traceback
    if not isinstance(x, AttributeError) or not str(x).startswith('module '):
        return False
    tb = traceback.extract_tb(x.__traceback__)
    return '/props/' in tb[-1].filename or '/symx/' in tb[-1].filename


def run_symbolic(h, tier, seed, deadline):
    """Explore one harness; returns a plain-dict result."""
    from . import engine, smt, sym
    from . import terms as tm
    tm.reset()
    o = h.opt
    t0 = time.time()
    res = {'name': h.name, 'proved': 0, 'open': [], 'cands': [], 'how': {}, 'done': set(), 'unsupported': [],
           'goal_timeout': o.get('goal_timeout', 3000 if tier == 'quick' else 20000),
           'box_budget': o.get('box_budget', 15.0 if tier == 'quick' else 90.0),
           'exceptions': {}, 'witnessed': 0, 'validated': 0, 'mismatch': [], 'samples': [], 'paths_ok': 0}
    eng = engine.Engine(seed=seed, npoints=o.get('npoints', 96), feas_timeout=o.get('feas_timeout', 250),
                        max_paths=o.get('max_paths', 3000), deadline=deadline)
    eng.solver_range = o.get('roots', (1e-9, 1e9))
    eng.domain_mode = o.get('domain', 'decide')
    eng.light = bool(o.get('light'))
    for k in smt.STATS:
        smt.STATS[k] = 0 if k != 'time' else 0.0
    nval = o.get('validate', 6)

    def run(e):
        ctx = SymCtx(e, res)
        e.stub_solvers = bool(o.get('stub'))
        e.solver_roots = []
        e.integrals = []
        try:
            h.f(ctx)
            ctx.sane()
            res['paths_ok'] += 1
        except tm.Unsupported as x:
            res['unsupported'].append(str(x))
            # not encodable: at least the witnesses of this path go to the real code
            if e.alive.any() and not str(x).startswith(('deadline', 'path limit', 'too many')) and len(res['cands']) < 200:
                ctx._cand('path not encoded', e.witnesses(3), str(x)[:80])
            return
        except (engine.Infeasible, KeyboardInterrupt):
            raise
        except RecursionError as x:
            res['unsupported'].append('recursion')
            return
        except Exception as x:
            try:
                ctx.sane()
            except tm.Unsupported as y:
                res['unsupported'].append(str(y))
                return
            if type(x).__name__ == 'TooBig':
                res['unsupported'].append('expression too big')
                return
            import traceback
            tb = traceback.extract_tb(x.__traceback__)
            if harness_fault(x):
                res['unsupported'].append('harness: %s' % x)
                return
            loc = '%s:%s' % (tb[-1].filename.split('/')[-1], tb[-1].name)
            ctx.trace.append(('exception', 'exc', type(x).__name__))
            ctx._concrete('no exception', False, [('no exception', 'raised %s(%s) in %s' % (type(x).__name__, str(x)[:120], loc))])
            return
        # translation validation on a witness of this path
        if e.alive.any():
            res['witnessed'] += 1
            if res['validated'] < nval and not o.get('stub'):
                w = e.witnesses(1)[0]
                sym.set_engine(None)
                validate(h, ctx, w, res)

    eng.explore(run)
    res['domain_assumed'] = eng.domain_assumed
    res['paths'] = eng.paths
    res['complete'] = eng.complete
    res['unsupported'] += eng.unsupported
    res['decisions'] = eng.decision_log
    res['smt'] = dict(smt.STATS)
    res['wall'] = time.time() - t0
    del res['done']
    return res


def validate(h, ctx, w, res):
    """Run the real code on the witness and compare with the encoding."""
    from . import terms as tm
    from .sym import Sym
    if ctx.funcs:
        return
    n = NumCtx({k: w[k] for k in ctx.inputs if k in w}, ctx.choices)
    try:
        h.f(n)
    except Skip:
        return
    except Exception as x:
        res['mismatch'].append('%s raised %s on %r' % (h.name, type(x).__name__, w))
        return
    st = [x for x in ctx.trace if x[1] in ('close', 'le', 'lt')]
    nt = [x for x in n.trace if x[1] in ('close', 'le', 'lt')]
    if len(st) != len(nt):
        res['mismatch'].append('%s: path differs at %r' % (h.name, w))
        return
    ok = True
    for (l1, _, (a1, b1)), (l2, _, (a2, b2)) in zip(st, nt):
        for s, c in ((a1, a2), (b1, b2)):
            if type(s) is Sym and isinstance(c, (int, float)):
                try:
                    v, = tm.evaluate([s.t], w, dps=25)
                except tm.EvalError:
                    continue
                if not abs(float(v) - c) <= 1e-6 * max(abs(c), abs(float(v))) + 1e-9:
                    ok = False
                    res['mismatch'].append('%s/%s: encoding %r code %r at %r' % (h.name, l1, float(v), c, w))
    if ok:
        res['validated'] += 1
        if len(res['samples']) < 2:
            res['samples'].append({'harness': h.name, 'choices': {k: v for k, v in ctx.choices.items()},
                                   'input': {k: w[k] for k in ctx.inputs if k in w}})


def run_concrete(h, case, mp):
    n = NumCtx(case['inputs'], case['choices'], case.get('funcs'), mp=mp)
    try:
        h.f(n)
    except Skip:
        return 'skip', []
    except Exception as x:
        if harness_fault(x):
            return 'skip', []
        return 'exception', [('no exception', '%s: %s' % (type(x).__name__, str(x)[:200]))]
    return ('violated' if n.failed else 'ok'), n.failed

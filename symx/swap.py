"""Replace callee functions by arbitrary ones while code and reference run.

What a dispatcher asks of its callees is then compared whatever the callees
compute (each callee is compared with its own formula elsewhere).  If the code
does not reach a replaced global (a refactoring may bind it elsewhere), code
and reference are both run with the real functions."""


class Swap:
    def __init__(self, mod, **fakes):
        self.mod, self.fakes = mod, fakes

    def run(self, code, ref):
        real = {}
        self.used = False
        try:
            for k, f in self.fakes.items():
                real[k] = getattr(self.mod, k)
                setattr(self.mod, k, self._wrap(f))
            got = code()
            used, self.used = self.used, False
            want = ref()
            if used or not self.used:
                return got, want
        finally:
            for k, v in real.items():
                setattr(self.mod, k, v)
        return code(), ref()

    def _wrap(self, f):
        def g(*a, **k):
            self.used = True
            return f(*a, **k)
        return g


def flat(x):
    """numbers of a nested table, in order"""
    out = []
    def go(v):
        if isinstance(v, (str, bytes)):
            out.append(v)
        elif hasattr(v, '__iter__'):
            for q in v:
                go(q)
        else:
            out.append(float(v))
    go(x)
    return out

"""One view of a stated convex problem, for the recording stand-in and for cvxpy itself."""
import numpy as np


class Problem:
    def __init__(self, prob, sym):
        self.p = prob
        self.sym = sym
        self.vars = sorted(prob.variables(), key=lambda v: -v.size)

    def assign(self, v, val):
        if self.sym:
            v.value = val
        else:
            v.save_value(np.asarray(val).reshape(v.shape))

    def objective(self):
        o = self.p.objective
        x = o.args[0].value
        if not self.sym:
            x = np.asarray(x).reshape(-1)
            x = x[0].real if x.size == 1 else x
        if type(o).__name__ == 'Maximize':
            x = -x
        return x

    def feasible(self):
        """condition: every constraint holds at the assigned point"""
        if self.sym:
            from . import path, snp
            from .path import f_and, as_formula, SymBool
            fs = []
            for c in self.p.constraints:
                d = snp.as_sarr(c.violation())
                for x in d.view(np.ndarray).reshape(-1):
                    fs.append(as_formula(path.compare('==' if c.eq else '<=', snp._num(snp._elem(x)), snp.ZERO)))
            for v in self.vars:
                if v.nonneg:
                    for x in snp.as_sarr(v.value).view(np.ndarray).reshape(-1):
                        fs.append(as_formula(path.compare('<=', snp.ZERO, snp._num(snp._elem(x)))))
            f = f_and(fs)
            return f if isinstance(f, bool) else SymBool(f)
        ok = all(bool(np.all(c.value(1e-9))) for c in self.p.constraints)
        for v in self.vars:
            if v.attributes.get('nonneg') or v.attributes.get('pos'):
                ok = ok and bool(np.all(v.value >= 0))
        return ok

    def finish(self, status='optimal'):
        if self.sym:
            self.p.status = status
        else:
            self.p._status = status

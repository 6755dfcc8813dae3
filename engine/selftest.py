"""quick test of the engine: true statements are proved, false ones refuted and replayed"""
import pandas as pd

from . import harness
from .harness import Ob


def _sum(env, wrong):
    v = env.reals('x', 3, 0.0, 10.0)
    s = env.series(v, pd.RangeIndex(3))
    m = s.max()
    env.check('maximum', env.le(m, 10.0 if not wrong else 9.0))
    env.check_eq('sum', s.sum(), v[0] + v[1] + v[2])


def main():
    for wrong, want in ((False, 0), (True, 1)):
        ob = Ob('selftest', _sum, dict(wrong=wrong), bounds='three values')
        r = harness.run_symbolic(ob, 0)
        assert not r['inconclusive'], r['inconclusive']
        assert bool(r['cex']) == bool(want), r['cex']
    print('engine ok')
    return 0

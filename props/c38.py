"""C38: cascade statistics compare and combine field by field"""
import numpy as np

import melodist
from engine.harness import Ob

SHAPES = dict(p01=(2, 4), p10=(2, 4), pxx=(2, 4), wxx=(7, 2, 4), threshold=(5,))


def fill(env, tag, sym, base=0.0, percentile=50):
    """statistics with arbitrary values in the fields sym, fixed ones elsewhere; -> (object, values)"""
    cs = env.call(melodist.cascade.CascadeStatistics)
    vals = {}
    for f, shape in SHAPES.items():
        n = int(np.prod(shape))
        v = [env.real('%s_%s%d' % (tag, f, i), 0.0, 1.0) if f in sym else base + (i % 7) / 8.0 for i in range(n)]
        setattr(cs, f, env.nparray(v).reshape(shape))
        vals[f] = v
    cs.percentile = vals['percentile'] = percentile
    return cs, vals


def flat(x):
    return list(np.asarray(x, dtype=object).reshape(-1))


def equality(env, sym, percentiles=(50, 50)):
    """equal exactly if all fields agree"""
    a, va = fill(env, 'a', sym, percentile=percentiles[0])
    b, vb = fill(env, 'b', sym, percentile=percentiles[1])
    same = [x == y for f in SHAPES for x, y in zip(va[f], vb[f])] + [percentiles[0] == percentiles[1]]
    eq = env.call(lambda: bool(a == b))
    ne = env.call(lambda: bool(a != b))
    env.observe(float(eq))
    env.check('equal exactly if all fields agree', env.and_(*same) if eq else env.not_(env.and_(*same)))
    env.check('different is the opposite', ne == (not eq))
    env.check('equal to itself', env.call(lambda: bool(a == a)))
    for cs, v in ((a, va), (b, vb)):
        for f in SHAPES:
            env.check('not changed by comparing', all(x is y or env.branch(x == y)
                                                      for x, y in zip(flat(getattr(cs, f)), v[f])))


def shapes(env):
    """statistics of other numbers of levels are not equal"""
    a, _ = fill(env, 'a', ('p01',))
    b, _ = fill(env, 'a', ('p01',))
    b.threshold = env.nparray([float(x) for x in flat(a.threshold)][:4])
    env.check('different number of levels', not env.call(lambda: bool(a == b)))
    env.check('different number of levels', env.call(lambda: bool(a != b)))
    env.observe(list(flat(a.p01)))


def combine(env, op):
    a, va = fill(env, 'a', SHAPES)
    b, vb = fill(env, 'b', SHAPES, percentile=60)
    k = env.real('factor', -3.0, 3.0)

    def work():
        return a + b if op == 'add' else a * k

    r = env.call(work)
    r = a if r is None else r
    env.observe(flat(r.wxx))
    for f in ('p01', 'p10', 'pxx', 'wxx'):
        got = getattr(r, f)
        env.check('shape kept', np.shape(got) == SHAPES[f])
        if np.shape(got) != SHAPES[f]:
            continue
        for x, y, z in zip(flat(got), va[f], vb[f]):
            env.check_eq('each element combined', x, y + z if op == 'add' else y * k)
    for x, y in zip(flat(r.threshold), va['threshold']):
        env.check_eq('thresholds kept', x, y)
    env.check('percentile kept', r.percentile == 50)
    for f in SHAPES:
        for x, y in zip(flat(getattr(b, f)), vb[f]):
            env.check_eq('other statistics left unchanged', x, y)
    env.check('other statistics left unchanged', b.percentile == 60)


def independent(env):
    """new objects start from nothing and do not share their fields"""
    a = env.call(melodist.cascade.CascadeStatistics)
    x = env.real('x', 0.5, 1.0)
    for f in ('p01', 'p10', 'pxx', 'wxx'):
        env.check('starts with zeros', np.shape(getattr(a, f)) == SHAPES[f] and all(v == 0 for v in flat(getattr(a, f))))
    a.p01, a.wxx = env.nparray([x] * 8).reshape(2, 4), env.nparray([x] * 56).reshape(7, 2, 4)
    a.p10[0, 0] = 0.25
    a.pxx[1, 3] = 0.25
    b = env.call(melodist.cascade.CascadeStatistics)
    for f in ('p01', 'p10', 'pxx', 'wxx'):
        env.check('fields are not shared', all(v == 0 for v in flat(getattr(b, f))))
    c = env.call(melodist.cascade.CascadeStatistics)
    env.check('new objects are equal', env.call(lambda: bool(b == c)))
    env.call(b.fill_with_sample_data)
    env.check('sample data differ from nothing', not env.call(lambda: bool(b == c)))
    env.call(c.fill_with_sample_data)
    env.check('sample data are always the same', env.call(lambda: bool(b == c)))
    for f in range(2):
        for p in range(4):
            env.check_eq('branching probabilities add up to one', b.p01[f, p] + b.p10[f, p] + b.pxx[f, p], 1.0)
            env.check_eq('weights add up to one', sum(b.wxx[k, f, p] for k in range(7)), 1.0)
    b.p01[0, 0] = 0.875
    env.check('sample data are not shared', not env.call(lambda: bool(b == c)))
    env.observe([x])


def obligations(tier, seed):
    obs = []
    for f in SHAPES:
        obs.append(Ob('equal-%s' % f, equality, dict(sym=(f,)), bounds='all values of %s symbolic' % f))
    obs.append(Ob('equal-all', equality, dict(sym=tuple(SHAPES)), bounds='all values symbolic'))
    obs.append(Ob('equal-percentile', equality, dict(sym=('p01',), percentiles=(50, 51)),
                  bounds='different percentiles, one field symbolic'))
    obs.append(Ob('equal-levels', shapes, dict(), bounds='different numbers of thresholds'))
    for op in ('add', 'scale'):
        obs.append(Ob(op, combine, dict(op=op), bounds='all values symbolic'))
    obs.append(Ob('new', independent, dict(), bounds='new objects'))
    return obs

"""reference model of the multiplicative cascade used by C03 to C06"""
import numpy as np

import melodist
from engine.harness import isnan

BOUNDS = [0.1429, 0.2857, 0.4286, 0.5714, 0.7143, 0.8571, 1.0]
WIDTH = 1.0 / 14.0
START, ENCLOSED, END, ISOLATED = range(4)

# the nine ways to split an interval without leaving a choice to the draws
OUTCOMES = ['01', '10'] + list(range(7))


def empty_stats(nthr=5):
    cs = melodist.cascade.CascadeStatistics()
    cs.threshold = np.ones(nthr)
    return cs


def fixed_stats(mapping, thresholds, env=None):
    """every class (volume, position) splits in the way that mapping[volume][position] says"""
    cs = melodist.cascade.CascadeStatistics()
    p01, p10, pxx = np.zeros((2, 4)), np.zeros((2, 4)), np.zeros((2, 4))
    wxx = np.zeros((7, 2, 4))
    for i in range(2):
        for j in range(4):
            o = mapping[i][j]
            if o == '01':
                p01[i, j] = 1.0
            elif o == '10':
                p10[i, j] = 1.0
            else:
                pxx[i, j] = 1.0
            # weights of classes without wet/wet splits are equally distributed
            wxx[:, i, j] = 1.0 / 7
            if o not in ('01', '10'):
                wxx[:, i, j] = 0.0
                wxx[o, i, j] = 1.0
    cs.p01, cs.p10, cs.pxx, cs.wxx = p01, p10, pxx, wxx
    cs.threshold = env.array(list(thresholds)) if env is not None else np.array(thresholds, dtype=float)
    return cs


def position(wet, i):
    before = i > 0 and wet[i - 1]
    after = i + 1 < len(wet) and wet[i + 1]
    return [[ISOLATED, START], [END, ENCLOSED]][before][after]


def split(env, v, stats, thr, pos, rndp, rndw):
    """the two halves of the wet interval v; wet flags of the halves"""
    above = 1 if env.branch(v > thr) else 0
    p01, p10 = stats.p01[above, pos], stats.p10[above, pos]
    if env.branch(rndp <= p01):
        return [(0.0, False), (v, True)]
    if env.branch(rndp <= p01 + p10):
        return [(v, True), (0.0, False)]
    cum = 0.0
    for k in range(7):
        cum = stats.wxx[k, above, pos] + cum
        if k == 6 or env.branch(rndw <= cum):
            break
    w = BOUNDS[k] - WIDTH
    return [(v * w, True), (v * (1.0 - w), True)]


def cascade(env, values, wet, stats, nlev, draws):
    """finest intervals of the cascade over the given days

    stats: function level (1 = coarsest) -> (statistics, threshold)
    draws: function (level, interval) -> (draw for the branching, draw for the weight)
    """
    boxes = list(zip(values, wet))
    for level in range(1, nlev + 1):
        cs, thr = stats(level)
        flags = [w for _, w in boxes]
        out = []
        for i, (v, w) in enumerate(boxes):
            if not w:
                out += [(0.0, False), (0.0, False)]
            else:
                a, b = draws(level, i)
                if level > 1:
                    # rounding of the amounts may decide a tie
                    gap = 1e-6 if env.mode == 'sym' else 9e-7
                    env.assume(env.or_(v < thr - gap, v > thr + gap))
                out += split(env, v, cs, thr, position(flags, i), a, b)
        boxes = out
    return [v for v, _ in boxes]


def hours(boxes):
    """32 intervals per day of 45 minutes -> hourly sums"""
    out = []
    for h in range(len(boxes) * 3 // 4):
        # quarter hours 4h .. 4h+3
        s = 0.0
        for q in range(4 * h, 4 * h + 4):
            s = boxes[q // 3] / 3.0 + s
        out.append(s)
    return out


def averaged(cs, nlev):
    return lambda level: (cs, cs.threshold[nlev - level])


def listed(lst, nlev):
    return lambda level: (lst[nlev - level], lst[nlev - level].threshold[0])


def percentile(env, vals, q):
    """linear interpolation between the order statistics"""
    s = []
    for v in vals:
        i = 0
        while i < len(s) and env.branch(s[i] < v):
            i += 1
        s.insert(i, v)
    pos = (len(s) - 1) * q / 100.0
    k = min(int(pos), len(s) - 1)
    f = pos - k
    return s[k] if f == 0 else s[k] + (s[k + 1] - s[k]) * f


def distinct(env, vals):
    """rounding may decide ties; arbitrary sums that tie with another one are left out"""
    if env.mode != 'sym':
        return
    for i, x in enumerate(vals):
        for j, y in enumerate(vals):
            if i != j and not isinstance(x, float) and (j < i or isinstance(y, float)):
                env.assume(env.or_(x < y - 1e-6, x > y + 1e-6))


def aggregate(env, vals, q):
    """pair sums, threshold and relative frequencies of the branching of the pairs"""
    pairs = [(vals[2 * i], vals[2 * i + 1]) for i in range(len(vals) // 2)]
    sums = [a + b for a, b in pairs]
    wet = [env.branch(s > 0) for s in sums]
    distinct(env, [s for s, w in zip(sums, wet) if w])
    thr = percentile(env, [s for s, w in zip(sums, wet) if w], q)
    n = np.zeros((2, 4))
    count = {k: np.zeros((2, 4)) for k in ('01', '10', 'xx')}
    weight = np.zeros((7, 2, 4))
    for i, (a, b) in enumerate(pairs):
        if not wet[i]:
            continue
        cell = (1 if env.branch(sums[i] > thr) else 0, position(wet, i))
        n[cell] += 1
        if not env.branch(a > 0):
            count['01'][cell] += 1
        elif not env.branch(b > 0):
            count['10'][cell] += 1
        else:
            count['xx'][cell] += 1
            for k in range(7):
                # rounding may decide a tie; weights on a class boundary are left out
                if k < 6:
                    gap = 1e-6 if env.mode == 'sym' else 9e-7
                    d = a - BOUNDS[k] * sums[i]
                    env.assume(env.or_(d < -gap, d > gap))
                if k == 6 or env.branch(a <= BOUNDS[k] * sums[i]):
                    weight[(k,) + cell] += 1
                    break
    sample = melodist.cascade.CascadeStatistics()
    sample.fill_with_sample_data()
    if (n == 0).any():
        p = (sample.p01, sample.p10, sample.pxx, sample.wxx)
    else:
        nxx = count['xx']
        w = np.where(nxx > 0, weight / np.where(nxx > 0, nxx, 1), 1.0 / 7)
        p = (count['01'] / n, count['10'] / n, nxx / n, w)
    return sums, thr, p


def check_stats(env, label, cs, p):
    for name, want in zip(('p01', 'p10', 'pxx', 'wxx'), p):
        got = np.asarray(getattr(cs, name), dtype=object)
        env.check(label, got.shape == want.shape)
        if got.shape == want.shape:
            for x, y in zip(got.ravel(), want.ravel()):
                env.check_eq(label, x, float(y), tol=1e-6)

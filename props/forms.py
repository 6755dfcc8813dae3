"""obligations that are decided once more on data in another form

For each property some obligations are repeated with a named index of another resolution and, for
tables, with the columns in another order and a further column nobody asked for.
"""
from engine.harness import Ob
from .again import PAIRS

# properties about which columns there are
COLUMNS = ('C26', 'C31', 'C33')
ALSO = {'C30': ['computed', 'computed-levels'], 'C33': ['assign-complete-setter-freq']}


def formed(env, fn, params, columns):
    env.form = 'columns' if columns else 'index'
    fn(env, **params)


def forms(prop, obs):
    byname = {o.name: o for o in obs}
    out = []
    names = [name for name, _ in PAIRS.get(prop, ())] + ALSO.get(prop, [])
    columns = prop not in COLUMNS
    for name in names:
        o = byname[name]
        out.append(Ob('form-' + name, formed, dict(fn=o.fn, params=o.params, columns=columns),
                      bounds='%s; index named and of another resolution%s' % (
                          o.bounds, ', columns in another order, a further column' if columns else ''),
                      tier=o.tier, max_paths=o.max_paths, budget=o.budget, timeout_ms=o.timeout_ms,
                      witnesses=1, weight=o.weight))
    return out

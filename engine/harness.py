"""Obligations, their symbolic exploration and their concrete execution.

An obligation is a function ``f(env, **params)`` that builds inputs from ``env``, calls the
real melodist code and states checks.  The same function runs
* symbolically  (mode 'sym'):  inputs are solver variables, every branch is explored,
* pinned        (mode 'pin'):  same encoding, inputs are constants (encoding validation),
* concretely    (mode 'conc'): plain floats, unpatched melodist (replay of solver models).
"""
import math
import os
import random
import re
import sys
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import pandas as pd

from .state import State

REPO = os.environ.get('VERIF_REPO', '/repo')
NAN = float('nan')

# agreement tolerance of stated equalities (absolute, on quantities of order 1..1000); a
# symbolic counterexample must exceed SYM_TOL, its replay must exceed CONC_TOL
SYM_TOL = 4e-6
CONC_TOL = 1e-6


class CodeError(Exception):
    """the code under test raised"""

    def __init__(self, exc, where):
        self.exc = exc
        self.where = where
        super().__init__('%s: %s (%s)' % (type(exc).__name__, str(exc)[:200], where))


class Discard(Exception):
    """concrete values do not satisfy the precondition"""


class Ob:
    def __init__(self, name, fn, params=None, bounds='', tier='quick', max_paths=4000, budget=150,
                 timeout_ms=20000, witnesses=2, weight=1):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.bounds = bounds
        self.tier = tier
        self.max_paths = max_paths
        self.budget = budget
        self.timeout_ms = timeout_ms
        self.witnesses = witnesses
        self.weight = weight


def isnan(x):
    return isinstance(x, float) and x != x


class Env:
    def __init__(self, mode, values=None, ctx=None):
        self.mode = mode
        self.values = values if values is not None else {}
        self.ctx = ctx
        self.checks = []  # (label, cond)
        self.obs = []
        self.ndraw = 0
        self.used = {}
        self.draw_hook = None
        self.covers = []
        self.ranges = {}
        self.rehearsal = False
        self.sparse = None
        self.form = None
        self.calls = 0
        if mode != 'conc':
            from . import tokens
            tokens.reset()

    @property
    def symbolic(self):
        return self.mode != 'conc'

    def rehearse(self, fn, **params):
        """run another obligation first, on some fixed inputs and without its checks"""
        kept = self.checks, self.obs, self.covers, self.ndraw, self.draw_hook
        self.checks, self.obs, self.covers, self.ndraw, self.draw_hook = [], [], [], 0, None
        self.rehearsal = True
        try:
            fn(self, **params)
        except Exception:
            pass
        finally:
            self.rehearsal = False
            self.checks, self.obs, self.covers, self.ndraw, self.draw_hook = kept

    def fixed(self, name):
        """inputs that are not arbitrary: all in a rehearsal, those of most days in a long record"""
        if self.rehearsal:
            return True
        if self.sparse is None:
            return False
        m = re.search(r'\d+', name)
        return m is not None and int(m.group()) not in self.sparse

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False):
        if self.fixed(name):
            a = lo if lo is not None else -1.0
            b = hi if hi is not None else a + 2.0
            return self.const(a + (zlib.crc32(name.encode()) % 127 + 0.5) / 128.0 * (b - a))
        if self.mode == 'sym':
            from . import sym
            new = name not in self.ctx.vars
            v = self.ctx.var(name)
            if new:
                self.ranges[name] = (lo, hi)
                self.ctx.bound(v, None if lo is None else Fraction(lo), open_lo,
                               None if hi is None else Fraction(hi), open_hi)
            return sym.Sym(v)
        x = self.values.get(name)
        near = self.values.get('__near__')
        if near and lo is not None and hi is not None:
            # a point near the counterexample (or anywhere, with the same choices) for a replay
            f = (zlib.crc32(name.encode()) % 9973 + 0.5) / 9974.0
            if near == 'any' or x is None:
                x = lo + f * (hi - lo)
            else:
                x = float(x) + (f - 0.5) * 1e-3 * (hi - lo)
        if x is None:
            a = lo if lo is not None else -1.0
            b = hi if hi is not None else a + 2.0
            x = (a + b) / 2.0
        x = float(x)
        # rounding of solver rationals must not leave the stated range
        if lo is not None and (x < lo or (open_lo and x <= lo)):
            x = math.nextafter(float(lo), math.inf) if open_lo else float(lo)
        if hi is not None and (x > hi or (open_hi and x >= hi)):
            x = math.nextafter(float(hi), -math.inf) if open_hi else float(hi)
        self.used[name] = x
        if self.mode == 'pin':
            from . import sym
            return sym.as_sym(x)
        return x

    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real('%s%d' % (name, i), lo, hi, **k) for i in range(n)]

    def integer(self, name, lo, hi):
        """an integer input; symbolically every value in lo..hi is a separate path"""
        if self.fixed(name):
            return lo + zlib.crc32(name.encode()) % (hi - lo + 1)
        if self.mode == 'sym':
            if lo == hi:
                return lo
            v = self.ctx.var(name, 'int')
            return self.ctx.choose(v, lo, hi)
        x = int(self.values.get(name, lo))
        x = min(max(x, lo), hi)
        self.used[name] = x
        return x

    def choice(self, name, options):
        return options[self.integer(name, 0, len(options) - 1)]

    def const(self, x):
        if self.symbolic:
            from . import sym
            return sym.as_sym(x)
        return float(x)

    def assume(self, c):
        if self.rehearsal:
            return
        if self.mode == 'sym':
            self.ctx.assume(c)
        elif not bool(c):
            raise Discard()

    def draw(self):
        i = self.ndraw
        self.ndraw += 1
        if self.draw_hook is not None:
            v = self.draw_hook(i)
            if v is not None:
                return v if type(v) is not float else self.const(v)
        return self.real('draw%d' % i, 0.0, 1.0, open_hi=True)

    def rewind_draws(self):
        """the next call sees the same random numbers again"""
        self.ndraw = 0

    # ------------------------------------------------------------ containers
    def array(self, vals):
        vals = list(vals)
        if self.symbolic:
            from . import sym
            out = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                out[i] = NAN if isnan(v) else sym.as_sym(v)
            return out
        return np.array([float(v) for v in vals], dtype=float)

    def nparray(self, nested):
        """n-dimensional array of reals"""
        a = np.array(nested, dtype=object)
        flat = self.array(a.ravel())
        return flat.reshape(a.shape)

    def index(self, index):
        """the same times in another form, if asked for"""
        if not self.form or not isinstance(index, pd.DatetimeIndex):
            return index
        return index.as_unit('ns').rename('time')

    def series(self, vals, index, name=None):
        return pd.Series(self.array(vals), index=self.index(index), name=name)

    def frame(self, cols, index):
        index = self.index(index)
        if self.form == 'columns':
            cols = dict(reversed(list(cols.items())), unrelated=[0.5] * len(index))
        return pd.DataFrame(
            {c: self.series(list(v), index) for c, v in cols.items()}, index=index
        )

    # ------------------------------------------------------------ running code
    def call(self, fn, *a, **k):
        try:
            out = fn(*a, **k)
            self.calls += 1
            return out
        except Discard:
            raise
        except Exception as e:  # EngineLimit etc. are BaseException and pass through
            tb = traceback.extract_tb(e.__traceback__)
            where = '?'
            for f in tb:
                if f.filename.startswith(REPO):
                    where = '%s:%d' % (os.path.relpath(f.filename, REPO), f.lineno)
            raise CodeError(e, where) from e

    # ------------------------------------------------------------ conditions
    @property
    def tol(self):
        return CONC_TOL if self.mode == 'conc' else SYM_TOL

    def eq(self, a, b, tol=None, scale=1):
        t = (tol if tol is not None else self.tol) * scale
        if isnan(a) or isnan(b):
            return False
        d = a - b
        return self.and_(d <= t, d >= -t)

    def le(self, a, b, tol=None, scale=1):
        t = (tol if tol is not None else self.tol) * scale
        return a <= b + t

    def and_(self, *cs):
        if self.symbolic:
            from . import sym
            return sym.b_and(*cs)
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        if self.symbolic:
            from . import sym
            return sym.b_or(*cs)
        return any(bool(c) for c in cs)

    def not_(self, c):
        if self.symbolic:
            from . import sym
            return sym.b_not(c)
        return not bool(c)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        if self.symbolic:
            from . import sym
            return sym.ite(c, a, b)
        return a if c else b

    def min_(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(x <= r, x, r)
        return r

    def max_(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(x >= r, x, r)
        return r

    def abs_(self, x):
        return abs(x)

    def cos(self, x):
        if self.symbolic:
            from . import sym
            return sym.s_cos(x)
        return math.cos(x)

    def sin(self, x):
        if self.symbolic:
            from . import sym
            return sym.s_sin(x)
        return math.sin(x)

    def exp(self, x):
        if self.symbolic:
            from . import sym
            return sym.s_exp(x)
        return math.exp(x)

    def log(self, x):
        if self.symbolic:
            from . import sym
            return sym.s_log(x)
        return math.log(x) if x > 0 else NAN

    def branch(self, c):
        """decide a condition (a fork symbolically)"""
        return bool(c)

    # ------------------------------------------------------------ verdicts
    def check(self, label, cond):
        if hasattr(cond, 'dtype'):
            cond = bool(cond)
        self.checks.append((label, cond))

    def check_eq(self, label, a, b, tol=None, scale=1):
        if isnan(a) and isnan(b):
            self.check(label, True)
            return
        self.check(label, self.eq(a, b, tol, scale))

    def check_nan(self, label, x):
        self.check(label, isnan(x))

    def check_not_nan(self, label, x):
        self.check(label, not isnan(x))

    def cover(self, label, cond=True):
        """a situation this obligation must be able to reach (guards against vacuity)"""
        self.covers.append((label, cond))

    def observe(self, x):
        if isinstance(x, (pd.Series, pd.DataFrame)):
            x = x.to_numpy()
        if isinstance(x, np.ndarray):
            self.obs.extend(list(x.ravel()))
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.observe(y)
        else:
            self.obs.append(x)


# ---------------------------------------------------------------- symbolic exploration

def unreadable(env, e):
    """a result that does not have the described form: reading it fails"""
    if not env.calls or not isinstance(e, (TypeError, ValueError, LookupError, AttributeError)):
        return False
    return not re.match(r"(module|type object) '", str(e))


def collect_functions(store):
    base = os.path.join(REPO, 'melodist') + os.sep

    def prof(frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(base):
                store.add('%s:%s' % (os.path.relpath(fn, REPO), frame.f_code.co_name))

    return prof


def model_values(ctx, m):
    import z3
    from . import sym
    out = {}
    for n, v in ctx.vars.items():
        x = sym.model_float(m, v)
        out[n] = int(x) if z3.is_int(v) else float(x)
    return out


def solve_refined(ctx, extra, rounds=6):
    """satisfiability of path condition + extra, excluding models that give a transcendental
    function a wrong value; -> ('sat', model) / ('unsat', None) / ('unknown', None)"""
    import z3
    s = ctx.solver
    s.push()
    try:
        s.add(extra)
        for k in range(rounds):
            r = ctx.check()
            if r == z3.unsat:
                return 'unsat', None
            if r != z3.sat:
                return fallback(ctx, extra)
            m = s.model()
            if not ctx.apps:
                return 'sat', m
            n = ctx.refine(m, s)
            if n == 0:
                return 'sat', m
        return 'sat', m
    finally:
        s.pop()


def interior(ctx):
    """stay clear of the boundaries of the decisions of this path, so that rounding of the
    model to floats does not change them"""
    import z3
    from . import sym
    d = sym.rv(Fraction(1, 10**6))
    out = []
    for p, op in ctx.facts:
        if op in ('<', '<='):
            out.append(p.e <= -d)
        elif op in ('>', '>='):
            out.append(p.e >= d)
        elif op == '!=':
            out.append(z3.Or(p.e >= d, p.e <= -d))
    return out


def interior_model(ctx, extra, m):
    """prefer a model away from decision boundaries; m: model to fall back to"""
    import z3
    cs = interior(ctx)
    if not cs:
        return m
    r, m2 = solve_refined(ctx, z3.And(extra, *cs), rounds=4)
    return m2 if r == 'sat' else m


def fallback(ctx, extra):
    """second opinion after an unknown: dedicated nonlinear solver on the same formula"""
    import z3
    s = z3.Tactic('qfnra-nlsat').solver() if not _has_int(ctx) else z3.SimpleSolver()
    s.set('timeout', ctx.timeout_ms)
    for c in ctx.pc:
        s.add(c)
    s.add(extra)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    ctx.stats.solver_s += time.time() - t
    ctx.stats.queries += 1
    if r == z3.unsat:
        ctx.stats.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        ctx.stats.sat += 1
        return 'sat', s.model()
    ctx.stats.unknown += 1
    return 'unknown', None


def _has_int(ctx):
    import z3
    return any(z3.is_int(v) for v in ctx.vars.values())


def activate_sym(random_source):
    from . import patches
    patches.activate(random_source)


def run_symbolic(ob, seed, trace_functions=True):
    """explore one obligation; returns a picklable result"""
    import z3
    from . import sym, patches

    z3.set_param('smt.random_seed', seed % 1000)
    z3.set_param('sat.random_seed', seed % 1000)
    t0 = time.time()
    deadline = t0 + ob.budget
    stats = sym.Stats()
    res = dict(name=ob.name, paths=0, completed=0, decisions=0, checks=0, proved=0, cex=[],
               inconclusive=[], witnesses=[], covers={}, functions=[], infeasible=0,
               realized=0, pinned=[])
    functions = set()
    holder = {}
    patches.activate(lambda: holder['env'].draw())
    state = State(patches.melodist_modules())
    rnd = random.Random(seed)
    pool = []  # candidate witness value sets (reservoir)
    seen_pool = 0
    stack = [[]]
    try:
        while stack:
            if time.time() > deadline:
                res['inconclusive'].append('time budget: %d paths unexplored' % len(stack))
                break
            if res['paths'] >= ob.max_paths:
                res['inconclusive'].append('path bound: %d paths unexplored' % len(stack))
                break
            prefix = stack.pop()
            ctx = sym.Context(prefix, stats, timeout_ms=ob.timeout_ms, deadline=deadline)
            sym.set_ctx(ctx)
            env = Env('sym', ctx=ctx)
            holder['env'] = env
            res['paths'] += 1
            outcome = 'ok'
            state.restore()
            if trace_functions and res['paths'] <= 2:
                sys.setprofile(collect_functions(functions))
            try:
                ob.fn(env, **ob.params)
            except sym.PathInfeasible:
                outcome = 'infeasible'
            except sym.EngineLimit as e:
                outcome = 'limit'
                res['inconclusive'].append('engine limit: %s' % e)
            except Discard:
                outcome = 'infeasible'
            except CodeError as e:
                outcome = 'raised'
                err = e
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                if unreadable(env, e):
                    outcome = 'raised'
                    err = 'result cannot be read: %s: %s' % (type(e).__name__, str(e)[:150])
                else:
                    outcome = 'harness'
                    res['inconclusive'].append(
                        'harness: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:150], tb.filename, tb.lineno)
                    )
            finally:
                sys.setprofile(None)
            stack.extend(ctx.alternatives)
            res['decisions'] += len(ctx.decisions)
            res['realized'] += ctx.realized
            if ctx.realized and 'a value was fixed at a C boundary' not in res['inconclusive']:
                res['inconclusive'].append('a value was fixed at a C boundary')
            if outcome == 'infeasible':
                res['infeasible'] += 1
                continue
            try:
                if outcome in ('limit', 'harness'):
                    res['witnesses'] += diverse_models(ctx, env, rnd, 4)
                    if len(res['inconclusive']) > 12:
                        break
                    continue
                if outcome == 'raised':
                    r, m = solve_refined(ctx, z3.BoolVal(True))
                    if r == 'sat':
                        m = interior_model(ctx, z3.BoolVal(True), m)
                        res['cex'].append(
                            dict(label='raises', values=model_values(ctx, m), error=str(err))
                        )
                    elif r == 'unknown':
                        res['inconclusive'].append('raise not decided: %s' % err)
                    if len(res['cex']) >= 4:
                        break
                    continue
                res['completed'] += 1
                discharge(ctx, env, res)
                for lab, c in env.covers:
                    if not res['covers'].get(lab):
                        res['covers'][lab] = cover_sat(ctx, c)
                # reservoir of path witnesses
                seen_pool += 1
                if len(pool) < ob.witnesses:
                    pool.append(None)
                    k = len(pool) - 1
                else:
                    k = rnd.randrange(seen_pool)
                if k < ob.witnesses:
                    cs = interior(ctx)
                    pool[k] = path_model(ctx, z3.And(*cs) if cs else z3.BoolVal(True)) or pool[k] or {}
            except sym.EngineLimit as e:
                res['inconclusive'].append('engine limit: %s' % e)
            if len(res['cex']) >= 4:
                break
        res['witnesses'] += [p for p in pool if p]
        if res['completed'] == 0 and not res['cex'] and not res['inconclusive']:
            res['inconclusive'].append('vacuous: no feasible path')
        for lab, ok in res['covers'].items():
            if not ok:
                res['inconclusive'].append('situation never reached: %s' % lab)
        # encoding validation: constants through the same encoding
        for vals in res['witnesses'][: ob.witnesses + 2]:
            state.restore()
            res['pinned'].append((vals, run_pinned(ob, vals, holder)))
    finally:
        patches.deactivate()
        sym.set_ctx(None)
    res['inconclusive'] = sorted(set(res['inconclusive']))
    res['functions'] = sorted(functions)
    res['queries'] = stats.queries
    res['solver_s'] = stats.solver_s
    res['q_sat'], res['q_unsat'], res['q_unknown'] = stats.sat, stats.unsat, stats.unknown
    res['wall_s'] = time.time() - t0
    return res


def path_model(ctx, extra):
    """inputs that follow the path, or at least satisfy the preconditions"""
    import z3
    if ctx.stats.hard == 0 and len(ctx.pc) < 400:
        r, m = solve_refined(ctx, extra, rounds=3)
        if r == 'sat':
            return model_values(ctx, m)
    r, s = ctx.sliced_check(z3.BoolVal(True))
    return model_values(ctx, s.model()) if r == z3.sat else None


def cover_sat(ctx, c):
    from . import sym
    import z3
    if isinstance(c, sym.SymBool):
        return ctx.check(c.e) == z3.sat
    return bool(c)


def discharge(ctx, env, res):
    import z3
    from . import sym
    negs = []
    for lab, c in env.checks:
        res['checks'] += 1
        if isinstance(c, sym.SymBool):
            negs.append((lab, z3.Not(c.e)))
        elif c is NotImplemented or not c:
            negs.append((lab, z3.BoolVal(True)))
        else:
            res['proved'] += 1
    if not negs:
        return
    hard = ctx.stats.hard > 0 or len(ctx.apps.get('exp', [])) > 20
    r = 'unknown'
    if not hard:
        r, m = solve_refined(ctx, z3.Or(*[n for _, n in negs]) if len(negs) > 1 else negs[0][1])
    if r == 'unsat':
        res['proved'] += len(negs)
        return
    if r == 'sat':
        m = interior_model(ctx, z3.Or(*[n for _, n in negs]), m)
        labs = [l for l, n in negs if z3.is_true(m.eval(n, model_completion=True))]
        res['cex'].append(
            dict(label=labs[0] if labs else negs[0][0], values=model_values(ctx, m), error=None)
        )
        return
    # unknown: one by one
    for lab, n in negs:
        r, sl = ctx.sliced_check(n)
        if r == z3.unsat:
            res['proved'] += 1
            continue
        if r == z3.sat and hard:
            res['cex'].append(dict(label=lab, values=model_values(ctx, sl.model()), error=None))
            return
        r, m = solve_refined(ctx, n)
        if r == 'unknown' and ctx.timeout_ms < 10000:  # short limits are meant for branch decisions
            ctx.set_timeout(8 * ctx.timeout_ms)
            try:
                r, m = solve_refined(ctx, n)
            finally:
                ctx.set_timeout(ctx.timeout_ms // 8)
        if r == 'unsat':
            res['proved'] += 1
        elif r == 'sat':
            m = interior_model(ctx, n, m)
            res['cex'].append(dict(label=lab, values=model_values(ctx, m), error=None))
            return
        else:
            res['inconclusive'].append('solver gave no answer: %s' % lab)


def diverse_models(ctx, env, rnd, n):
    """models of the precondition collected so far, spread over the input ranges"""
    import z3
    from . import sym
    out = []
    s = ctx.solver
    for _ in range(n):
        s.push()
        try:
            names = [x for x in ctx.vars if x in env.ranges and None not in env.ranges[x]]
            rnd.shuffle(names)
            for x in names[:12]:
                lo, hi = env.ranges[x]
                p = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rnd.randrange(1, 64), 64)
                e = ctx.vars[x] >= sym.rv(p) if rnd.random() < 0.5 else ctx.vars[x] <= sym.rv(p)
                s.push()
                s.add(e)
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                out.append(model_values(ctx, s.model()))
        except z3.Z3Exception:
            pass
        finally:
            while s.num_scopes() > 0:
                s.pop()
    return out


def run_pinned(ob, vals, holder):
    from . import sym
    ctx = sym.Context([], sym.Stats())
    sym.set_ctx(ctx)
    env = Env('pin', values=vals, ctx=ctx)
    holder['env'] = env
    try:
        ob.fn(env, **ob.params)
    except (sym.EngineLimit, sym.PathInfeasible, Exception) as e:
        return dict(ok=False, error='%s: %s' % (type(e).__name__, str(e)[:150]))
    return dict(ok=True, obs=[_f(x) for x in env.obs])


def _f(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return str(x)


# ---------------------------------------------------------------- concrete execution

class ConcreteRandom:
    """numpy.random stand-in for replays: hands out the recorded draws"""

    def __init__(self, env):
        self.env = env
        self.saved = {}

    def _arr(self, shape):
        n = int(np.prod(shape))
        return np.array([self.env.draw() for _ in range(n)], dtype=float).reshape(shape)

    def __enter__(self):
        env = self.env

        def random(size=None):
            return env.draw() if size is None else self._arr(size)

        def rand(*shape):
            return env.draw() if not shape else self._arr(shape)

        def uniform(low=0.0, high=1.0, size=None):
            return low + (high - low) * random(size)

        def default_rng(*a, **k):
            return self

        def exponential(scale=1.0, size=None):
            return -np.log(random(size)) * scale

        def weibull(a, size=None):
            return (-np.log(random(size))) ** (1.0 / a)

        def unmodelled(*a, **k):
            raise Discard()

        known = dict(random=random, random_sample=random, ranf=random, sample=random,
                     rand=rand, uniform=uniform, default_rng=default_rng, exponential=exponential,
                     standard_exponential=lambda size=None: exponential(1.0, size),
                     weibull=weibull, RandomState=default_rng, seed=lambda *a, **k: None)
        self.__dict__.update({k: v for k, v in known.items() if k != 'seed'})
        for n in dir(np.random):
            f = getattr(np.random, n)
            if n in known or (callable(f) and not n.startswith('_') and not isinstance(f, type)):
                self.saved[n] = f
                setattr(np.random, n, known.get(n, unmodelled))
        ids = {id(f): n for n, f in self.saved.items()}
        self.names = []
        for m in [m for n, m in sys.modules.items() if n == 'melodist' or n.startswith('melodist.')]:
            for name, val in list(vars(m).items()):
                if callable(val) and id(val) in ids:
                    self.names.append((m, name, val))
                    setattr(m, name, known.get(ids[id(val)], unmodelled))
        return self

    def __exit__(self, *a):
        for m, name, val in self.names:
            setattr(m, name, val)
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def run_concrete(ob, values):
    """-> dict(status='held'|'violated'|'discarded'|'harness', failed=[labels], obs)"""
    env = Env('conc', values=values)
    np.seterr(all='ignore')
    try:
        with ConcreteRandom(env):
            ob.fn(env, **ob.params)
    except Discard:
        return dict(status='discarded', failed=[], obs=[], used=env.used)
    except CodeError as e:
        return dict(status='violated', failed=['raises %s' % e], obs=[], used=env.used)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        if unreadable(env, e):
            return dict(
                status='violated', obs=[], used=env.used,
                failed=['result cannot be read: %s: %s' % (type(e).__name__, str(e)[:150])],
            )
        return dict(
            status='harness', obs=[], used=env.used,
            failed=['%s: %s (%s:%d)' % (type(e).__name__, str(e)[:150], tb.filename, tb.lineno)],
        )
    failed = [lab for lab, c in env.checks if not bool(c)]
    return dict(
        status='violated' if failed else 'held', failed=failed[:20],
        obs=[_f(x) for x in env.obs], used=env.used,
    )

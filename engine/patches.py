"""Stand-ins that let the unmodified melodist source run on symbolic (object-dtype) data.

Two layers:
* names ``np`` / ``pd`` (and anything imported from them) inside melodist's modules are
  replaced by proxies whose float allocators give object arrays and whose elementwise
  functions understand ``Sym``;
* a few pandas internals that force ``float()`` on object data are taught about ``Sym``.
Nothing in /repo is edited; the concrete replay process never loads this module.
"""
import functools
import importlib
import json
import sys
import types
from fractions import Fraction

import numpy as np
import pandas as pd
from pandas.core import nanops

from . import sym, tokens
from .sym import Sym, SymBool, NAN

ZERO = Sym(Fraction(0))
ONE = Sym(Fraction(1))

_FLOATS = (float, np.float64, np.floating, 'float', 'float64', 'f8', 'd', np.dtype('float64'))


def is_float_dtype(dt):
    if dt is None:
        return False
    try:
        return np.dtype(dt) == np.dtype('float64')
    except TypeError:
        return False


def has_sym(arr):
    """object ndarray containing a symbolic value"""
    if isinstance(arr, (pd.Series, pd.Index)):
        if arr.dtype != object:
            return False
        arr = arr._values
    if not isinstance(arr, np.ndarray) or arr.dtype != object:
        return False
    for x in arr.ravel():
        if type(x) is Sym or type(x) is SymBool:
            return True
    return False


def symify(arr):
    """float ndarray -> object ndarray of constants (nan stays nan)"""
    out = np.empty(arr.shape, dtype=object)
    of, af = out.ravel(), arr.ravel()
    for i in range(len(af)):
        x = af[i]
        of[i] = NAN if x != x else sym.as_sym(float(x))
    return of.reshape(arr.shape)


def _map(f, x, *a):
    """apply f elementwise on object data, keep the container"""
    if isinstance(x, pd.Series):
        return pd.Series(_map(f, x._values), index=x.index, name=x.name, dtype=object)
    if isinstance(x, pd.DataFrame):
        return x.apply(lambda c: _map(f, c))
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return f(x.item())
        out = np.empty(x.shape, dtype=object)
        xf = x.ravel()
        of = out.ravel()
        for i in range(len(xf)):
            of[i] = f(xf[i])
        return of.reshape(x.shape)
    return f(x)


def _is_objlike(x):
    if type(x) is Sym:
        return True
    dt = getattr(x, 'dtype', None)
    if dt is not None:
        return dt == object
    if isinstance(x, pd.DataFrame):
        return any(t == object for t in x.dtypes)
    return False


def unary(name, f):
    real = getattr(np, name)

    @functools.wraps(real)
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object) if any(type(y) is Sym for y in x) else x
        if _is_objlike(x):
            return _map(f, x)
        return real(x, *a, **k)

    return g


def _isnan1(x):
    return bool(isinstance(x, float) and x != x)


def _isfinite1(x):
    if isinstance(x, float):
        return bool(x == x and x not in (sym.INF, -sym.INF))
    return True


def _isinf1(x):
    return bool(sym.is_inf(x))


def _boolmap(f):
    def g(x):
        r = _map(f, x)
        if isinstance(r, np.ndarray):
            return r.astype(bool)
        if isinstance(r, pd.Series):
            return r.astype(bool)
        return r

    return g


def np_isnan(x, *a, **k):
    return _boolmap(_isnan1)(x) if _is_objlike(x) else np.isnan(x, *a, **k)


def np_isfinite(x, *a, **k):
    return _boolmap(_isfinite1)(x) if _is_objlike(x) else np.isfinite(x, *a, **k)


def np_isinf(x, *a, **k):
    return _boolmap(_isinf1)(x) if _is_objlike(x) else np.isinf(x, *a, **k)


def _alloc(real, fill):
    @functools.wraps(real)
    def g(shape, dtype=None, *a, **k):
        if dtype is None or is_float_dtype(dtype):
            out = np.empty(shape, dtype=object)
            out.fill(fill)
            return out
        return real(shape, dtype, *a, **k)

    return g


def np_full(shape, fill_value, dtype=None, *a, **k):
    if type(fill_value) is Sym or dtype is None or is_float_dtype(dtype):
        if isinstance(fill_value, (bool, np.bool_, str)):
            return np.full(shape, fill_value, dtype, *a, **k)
        if isinstance(fill_value, (int, np.integer)) and dtype is None:
            return np.full(shape, fill_value, dtype, *a, **k)
        out = np.empty(shape, dtype=object)
        v = fill_value
        out.fill(NAN if _isnan1(v) else (v if type(v) is Sym else sym.as_sym(float(v))))
        return out
    return np.full(shape, fill_value, dtype, *a, **k)


def _alloc_like(real, fill):
    @functools.wraps(real)
    def g(a, dtype=None, *r, **k):
        arr = np.asarray(a)
        if (dtype is None and arr.dtype.kind in 'fO') or is_float_dtype(dtype):
            out = np.empty(arr.shape, dtype=object)
            out.fill(fill)
            return out
        return real(a, dtype, *r, **k)

    return g


def np_full_like(a, fill_value, dtype=None, *r, **k):
    arr = np.asarray(a)
    if (dtype is None and arr.dtype.kind in 'fO') or is_float_dtype(dtype):
        return np_full(arr.shape, float(fill_value) if type(fill_value) is not Sym else fill_value)
    return np.full_like(a, fill_value, dtype, *r, **k)


def _contains_sym(x, depth=0):
    if type(x) is Sym:
        return True
    if isinstance(x, (pd.Series, np.ndarray)):
        return x.dtype == object and has_sym(np.asarray(x, dtype=object))
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_contains_sym(y, depth + 1) for y in x)
    return False


def np_array(x, dtype=None, *a, **k):
    if _contains_sym(x) and (dtype is None or is_float_dtype(dtype)):
        if isinstance(x, (pd.Series, pd.Index)):
            return np.array(x._values, dtype=object)
        r = np.array(x, dtype=object)
        return r
    return np.array(x, dtype, *a, **k) if dtype is not None else np.array(x, *a, **k)


def np_asarray(x, dtype=None, *a, **k):
    if _contains_sym(x) and (dtype is None or is_float_dtype(dtype)):
        return np.asarray(x, dtype=object)
    return np.asarray(x, dtype, *a, **k) if dtype is not None else np.asarray(x, *a, **k)


def np_isscalar(x):
    return type(x) is Sym or np.isscalar(x)


def _binary(real, f):
    @functools.wraps(real)
    def g(a, b, *r, **k):
        if _is_objlike(a) or _is_objlike(b):
            if isinstance(a, pd.Series) or isinstance(b, pd.Series):
                ser = a if isinstance(a, pd.Series) else b
                av = a._values if isinstance(a, pd.Series) else a
                bv = b.reindex(ser.index)._values if isinstance(b, pd.Series) else b
                aa, bb = np.broadcast_arrays(np.asarray(av, dtype=object), np.asarray(bv, dtype=object))
                vals = np.array([f(x, y) for x, y in zip(aa.ravel(), bb.ravel())] + [None], dtype=object)[:-1]
                return pd.Series(vals, index=ser.index, dtype=object)
            aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            if aa.ndim == 0:
                return f(aa.item(), bb.item())
            out = np.empty(aa.shape, dtype=object)
            of = out.ravel()
            for i, (x, y) in enumerate(zip(aa.ravel(), bb.ravel())):
                of[i] = f(x, y)
            return of.reshape(aa.shape)
        return real(a, b, *r, **k)

    return g


def _fmin(a, b):
    if _isnan1(a):
        return b
    if _isnan1(b):
        return a
    return sym.s_min(a, b)


def _fmax(a, b):
    if _isnan1(a):
        return b
    if _isnan1(b):
        return a
    return sym.s_max(a, b)


def clip1(x, lo, hi):
    if _isnan1(x):
        return x
    if lo is not None and not _isnan1(lo):
        x = (sym.INF if x > 0 else lo) if sym.is_inf(x) else sym.s_max(x, lo)
    if hi is not None and not _isnan1(hi):
        x = (hi if x > 0 else x) if sym.is_inf(x) else sym.s_min(x, hi)
    return x


def np_clip(a, a_min=None, a_max=None, *r, **k):
    a_min = k.pop('min', a_min)
    a_max = k.pop('max', a_max)
    if _is_objlike(a):
        if np.ndim(a_min) or np.ndim(a_max):
            r_ = a
            if a_min is not None:
                r_ = PROXY_NP.maximum(r_, a_min)
            if a_max is not None:
                r_ = PROXY_NP.minimum(r_, a_max)
            return r_
        return _map(lambda x: clip1(x, a_min, a_max), a)
    return np.clip(a, a_min, a_max, *r, **k)


def np_where(c, *xy):
    if not xy:
        return np.where(np.asarray(c, dtype=bool) if _is_objlike(c) else c)
    x, y = xy
    if _is_objlike(c) or isinstance(c, SymBool):
        cc, aa, bb = np.broadcast_arrays(
            np.asarray(c, dtype=object), np.asarray(x, dtype=object), np.asarray(y, dtype=object)
        )
        out = np.empty(cc.shape, dtype=object)
        of = out.ravel()
        for i, (p, q, s) in enumerate(zip(cc.ravel(), aa.ravel(), bb.ravel())):
            of[i] = sym.ite(p, q, s)
        return of.reshape(cc.shape)
    if _contains_sym(x) or _contains_sym(y) or _is_objlike(x) or _is_objlike(y):
        return np.where(c, np.asarray(x, dtype=object), np.asarray(y, dtype=object))
    return np.where(c, *xy)


def sort_values(vals):
    """ascending insertion sort (branches on the order)"""
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and bool(sym.as_sym(v) < out[i - 1]):
            i -= 1
        out.insert(i, sym.as_sym(v))
    return out


def np_percentile(a, q, *r, **k):
    arr = np.asarray(a)
    if arr.dtype == object and r == () and not set(k) - {'method', 'interpolation'} and np.ndim(q) == 0:
        if k.get('method', 'linear') != 'linear':
            raise sym.EngineLimit('percentile method')
        if len(arr) == 0:
            return np.percentile(np.array([], dtype=float), q)
        vals = list(arr.ravel())
        if any(_isnan1(v) for v in vals):
            return NAN
        s = sort_values(vals)
        qq = sym.to_operand(q)
        if not isinstance(qq, Fraction):
            raise sym.EngineLimit('symbolic percentile')
        pos = qq / 100 * (len(s) - 1)
        lo = int(pos)
        hi = min(lo + 1, len(s) - 1)
        return s[lo] + (s[hi] - s[lo]) * (pos - lo)
    return np.percentile(a, q, *r, **k)


def np_quantile(a, q, *r, **k):
    arr = np.asarray(a)
    if arr.dtype == object:
        return np_percentile(arr, sym.to_operand(q) * 100, *r, **k)
    return np.quantile(a, q, *r, **k)


def np_median(a, *r, **k):
    arr = np.asarray(a)
    if arr.dtype == object and not r and not k:
        return np_percentile(arr, 50)
    return np.median(a, *r, **k)


def np_round(x, decimals=0, *a, **k):
    if _is_objlike(x):
        return _map(lambda v: v if isinstance(v, float) else sym.s_round(sym.as_sym(v), decimals), x)
    return np.round(x, decimals, *a, **k)


def _nanred(real, drop, red):
    def g(a, axis=None, *r, **k):
        arr = np.asarray(a)
        if arr.dtype == object:
            def one(v):
                v = [x for x in v if not _isnan1(x)] if drop else list(v)
                return red(v)
            if axis is None:
                return one(arr.ravel())
            return np.apply_along_axis(lambda v: np.array([one(v), None], dtype=object)[:1], axis, arr).squeeze(axis)
        return real(a, axis, *r, **k)

    return g


def _summ(v):
    t = ZERO
    for x in v:
        t = t + x
    return t


def _meann(v):
    if not v:
        return NAN
    return _summ(v) / len(v)


def _minn(v):
    r = v[0] if v else NAN
    for x in v[1:]:
        r = sym.s_min(r, x)
    return r


def _maxx(v):
    r = v[0] if v else NAN
    for x in v[1:]:
        r = sym.s_max(r, x)
    return r


def np_array_equal(a, b, *r, **k):
    aa, bb = np.asarray(a), np.asarray(b)
    if aa.dtype == object or bb.dtype == object:
        if aa.shape != bb.shape:
            return False
        cs = [(sym.as_sym(x) == y) if not _isnan1(x) else False for x, y in zip(aa.ravel(), bb.ravel())]
        return bool(sym.b_and(*cs))
    return np.array_equal(a, b, *r, **k)


class RandomProxy:
    """numpy.random stand-in: every draw is an arbitrary value of [0, 1)"""

    def __init__(self, source):
        self._source = source

    def _u(self):
        return self._source()

    def _arr(self, shape):
        out = np.empty(shape, dtype=object)
        of = out.ravel()
        for i in range(out.size):
            of[i] = self._u()
        return of.reshape(shape)

    def random(self, size=None):
        return self._u() if size is None else self._arr(size)

    random_sample = random
    ranf = random
    sample = random

    def rand(self, *shape):
        return self._u() if not shape else self._arr(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * self._u()
        return low + (high - low) * self._arr(size)

    def exponential(self, scale=1.0, size=None):
        if size is None:
            return -sym.s_log(self._u()) * scale
        return _map(lambda u: -sym.s_log(u), self._arr(size)) * scale

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def weibull(self, a, size=None):
        if size is None:
            return sym._s(self.exponential()) ** (1.0 / a)
        return _map(lambda x: sym._s(x) ** (1.0 / a), self.exponential(1.0, size))

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self

    def seed(self, *a, **k):
        pass

    def __getattr__(self, n):
        raise sym.EngineLimit('numpy.random.%s is not modelled' % n)


class ProxyNP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self._over = {}

    def __getattr__(self, n):
        over = self.__dict__.get('_over', {})
        if n in over:
            return over[n]
        return getattr(np, n)


PROXY_NP = ProxyNP()


def _build_np(random_source):
    o = PROXY_NP._over
    for nm, f in [
        ('cos', sym.s_cos), ('sin', sym.s_sin), ('tan', sym.s_tan), ('exp', sym.s_exp),
        ('log', sym.s_log), ('sqrt', sym.s_sqrt), ('arccos', sym.s_arccos),
        ('arcsin', sym.s_arcsin),
        ('deg2rad', lambda x: x * (np.pi / 180.0)), ('radians', lambda x: x * (np.pi / 180.0)),
        ('rad2deg', lambda x: x * (180.0 / np.pi)),
        ('floor', lambda x: sym.floor(sym._s(x))), ('abs', abs), ('absolute', abs), ('fabs', abs),
        ('square', lambda x: x * x),
        ('rint', lambda x: sym.s_round(sym._s(x))),
        ('log10', lambda x: sym.s_log(x) / sym.math.log(10.0)),
        ('log1p', lambda x: sym.s_log(x + 1)), ('expm1', lambda x: sym.s_exp(x) - 1),
        ('nan_to_num', lambda x: ZERO if _isnan1(x) else x),
        ('ceil', lambda x: -sym.floor(-sym._s(x))),
        ('negative', lambda x: -x),
    ]:
        o[nm] = unary(nm, f)
    if hasattr(np, 'acos'):
        o['acos'], o['asin'] = o['arccos'], o['arcsin']
    o.update(
        isnan=np_isnan, isfinite=np_isfinite, isinf=np_isinf, isscalar=np_isscalar,
        zeros=_alloc(np.zeros, ZERO), ones=_alloc(np.ones, ONE), empty=_alloc(np.empty, ZERO),
        full=np_full, zeros_like=_alloc_like(np.zeros_like, ZERO),
        ones_like=_alloc_like(np.ones_like, ONE), empty_like=_alloc_like(np.empty_like, ZERO),
        full_like=np_full_like, array=np_array, asarray=np_asarray,
        maximum=_binary(np.maximum, sym.s_max), minimum=_binary(np.minimum, sym.s_min),
        fmax=_binary(np.fmax, _fmax), fmin=_binary(np.fmin, _fmin),
        power=_binary(np.power, lambda a, b: sym._s(a) ** b),
        clip=np_clip, where=np_where, percentile=np_percentile, nanpercentile=np_percentile,
        quantile=np_quantile, median=np_median, round=np_round, around=np_round,
        nansum=_nanred(np.nansum, True, _summ), nanmean=_nanred(np.nanmean, True, _meann),
        nanmin=_nanred(np.nanmin, True, _minn), nanmax=_nanred(np.nanmax, True, _maxx),
        min=_nanred(np.min, False, _minn), max=_nanred(np.max, False, _maxx),
        amin=_nanred(np.min, False, _minn), amax=_nanred(np.max, False, _maxx),
        array_equal=np_array_equal, random=RandomProxy(random_source),
    )


# ------------------------------------------------------------------ pandas constructors

def _fix_series(s, dtype):
    if s.dtype == np.dtype('float64'):
        return pd.Series(symify(s.to_numpy()), index=s.index, name=s.name, dtype=object)
    return s


class _SeriesMeta(type(pd.Series)):
    def __call__(cls, *a, **k):
        a = list(a)
        dt = k.get('dtype', a[2] if len(a) > 2 else None)
        data = k.get('data', a[0] if a else None)
        if is_float_dtype(dt) and _data_sym(data):
            if len(a) > 2:
                a[2] = object
            else:
                k['dtype'] = object
        return _fix_series(pd.Series(*a, **k), dt)

    def __instancecheck__(cls, x):
        return isinstance(x, pd.Series)

    def __subclasscheck__(cls, c):
        return issubclass(c, pd.Series)


def _data_sym(d):
    if isinstance(d, dict):
        return any(_contains_sym(v) for v in d.values())
    return _contains_sym(d) or (isinstance(d, pd.DataFrame) and any(has_sym(d[c]) for c in d))


class ProxySeries(pd.Series, metaclass=_SeriesMeta):
    pass


class _FrameMeta(type(pd.DataFrame)):
    def __call__(cls, *a, **k):
        a = list(a)
        dt = k.get('dtype', a[3] if len(a) > 3 else None)
        data = k.get('data', a[0] if a else None)
        if is_float_dtype(dt) and _data_sym(data):
            k['dtype'] = object
        df = pd.DataFrame(*a, **k)
        for c in range(df.shape[1]):
            col = df.iloc[:, c]
            if col.dtype == np.dtype('float64') and len(col):
                df = _isetobj(df, c, col)
        return df

    def __instancecheck__(cls, x):
        return isinstance(x, pd.DataFrame)

    def __subclasscheck__(cls, c):
        return issubclass(c, pd.DataFrame)


def _isetobj(df, c, col):
    df.isetitem(c, pd.Series(symify(col.to_numpy()), index=df.index, dtype=object))
    return df


class ProxyDataFrame(pd.DataFrame, metaclass=_FrameMeta):
    pass


class ProxyPD(types.ModuleType):
    def __init__(self):
        super().__init__('pandas')
        self._over = {'Series': ProxySeries, 'DataFrame': ProxyDataFrame}
        for n in ('read_csv', 'read_table', 'read_json', 'read_fwf'):
            self._over[n] = tokens.reader(getattr(pd, n))

    def __getattr__(self, n):
        over = self.__dict__.get('_over', {})
        if n in over:
            return over[n]
        return getattr(pd, n)


PROXY_PD = ProxyPD()

# ------------------------------------------------------------------ pandas internals

_installed = False


def _install_internals():
    global _installed
    if _installed:
        return
    _installed = True

    real_en = nanops._ensure_numeric

    def ensure_numeric(x):
        if type(x) is Sym:
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and has_sym(x):
            return x
        return real_en(x)

    nanops._ensure_numeric = ensure_numeric

    def red(name, f):
        real = getattr(nanops, name)

        @functools.wraps(real)
        def g(values, *, axis=None, skipna=True, mask=None, **k):
            if isinstance(values, np.ndarray) and values.dtype == object and has_sym(values):
                if values.ndim == 1 or axis is None:
                    v = list(values.ravel())
                    if skipna:
                        v = [x for x in v if not _isnan1(x)]
                    elif any(_isnan1(x) for x in v):
                        return NAN
                    return f(v) if v else NAN
                vals = values if axis == 0 else values.T
                out = np.empty(vals.shape[1], dtype=object)
                for i in range(vals.shape[1]):
                    v = [x for x in vals[:, i] if not (_isnan1(x) and skipna)]
                    out[i] = f(v) if v else NAN
                return out
            return real(values, axis=axis, skipna=skipna, mask=mask, **k)

        setattr(nanops, name, g)
        return g

    red('nanmin', _minn)
    red('nanmax', _maxx)

    def med(v):
        return np_percentile(np.array(v + [None], dtype=object)[:-1], 50)

    red('nanmedian', med)
    red('nanmean', _meann)

    tokens.install()

    # storing symbolic values in a float column turns it into an object column
    from pandas.core.internals.blocks import Block

    real_coerce = Block.coerce_to_target_dtype

    def coerce_to_target_dtype(self, other, raise_on_upcast):
        if type(other) is Sym or _contains_sym(other):
            raise_on_upcast = False
        return real_coerce(self, other, raise_on_upcast)

    Block.coerce_to_target_dtype = coerce_to_target_dtype

    # Series.clip / DataFrame.clip with scalar bounds
    for cls in (pd.Series, pd.DataFrame):
        real_clip = cls.clip

        def clip(self, lower=None, upper=None, *, axis=None, inplace=False, _real=real_clip, **k):
            obj = self.dtype == object if isinstance(self, pd.Series) else any(
                t == object for t in self.dtypes
            )
            if obj and np.ndim(lower) == 0 and np.ndim(upper) == 0 and not inplace:
                return _map(lambda x: clip1(x, lower, upper), self)
            return _real(self, lower, upper, axis=axis, inplace=inplace, **k)

        cls.clip = clip

    real_round = pd.Series.round

    def s_round(self, decimals=0, *a, **k):
        if self.dtype == object and has_sym(self):
            return _map(
                lambda v: v if isinstance(v, float) else sym.s_round(sym.as_sym(v), decimals), self
            )
        return real_round(self, decimals, *a, **k)

    pd.Series.round = s_round

    from pandas.core.generic import NDFrame

    for cls in (pd.Series, pd.DataFrame):
        def shift(self, periods=1, freq=None, axis=0, fill_value=None, suffix=None, _real=cls.shift):
            k = {} if suffix is None else {'suffix': suffix}
            if freq is not None:
                return _real(self, periods, freq, axis, **k)
            obj = self.dtype == object if isinstance(self, pd.Series) else False
            if fill_value is None and obj:
                return _real(self, periods, freq, axis, np.nan, **k)
            if fill_value is not None:
                k['fill_value'] = fill_value
            return _real(self, periods, freq, axis, **k)

        cls.shift = shift

    real_astype = NDFrame.astype

    def astype(self, dtype, *a, **k):
        if isinstance(self, pd.Series) and self.dtype == object and has_sym(self):
            if is_float_dtype(dtype):
                return self.copy()
        if isinstance(self, pd.DataFrame) and is_float_dtype(dtype):
            if any(has_sym(self.iloc[:, i]) for i in range(self.shape[1])):
                return self.copy()
        return real_astype(self, dtype, *a, **k)

    NDFrame.astype = astype
    pd.Series.astype = astype
    pd.DataFrame.astype = astype

    real_interp = NDFrame.interpolate

    def interpolate(self, method='linear', **k):
        if isinstance(self, pd.Series) and self.dtype == object and has_sym(self):
            if method not in ('linear', 'time', 'index', 'values'):
                raise sym.EngineLimit('interpolation method %s' % method)
            # linear in the data for a fixed pattern of missing values: apply the real
            # pandas routine to the unit vectors and combine
            vals = list(self._values)
            known = [i for i, v in enumerate(vals) if not _isnan1(v)]
            res = [ZERO] * len(vals)
            base = np.full(len(vals), np.nan)
            base[known] = 0.0
            zero = real_interp(pd.Series(base.copy(), index=self.index), method=method, **k)
            nanmask = zero.isna().to_numpy()
            for i in known:
                b = base.copy()
                b[i] = 1.0
                w = real_interp(pd.Series(b, index=self.index), method=method, **k).to_numpy()
                for j in np.nonzero(~nanmask & (w != 0))[0]:
                    res[j] = res[j] + sym.as_sym(float(w[j])) * vals[i]
            out = np.empty(len(vals), dtype=object)
            for j in range(len(vals)):
                out[j] = NAN if nanmask[j] else res[j]
            return pd.Series(out, index=self.index, name=self.name, dtype=object)
        return real_interp(self, method=method, **k)

    NDFrame.interpolate = interpolate
    if 'interpolate' in pd.Series.__dict__:
        pd.Series.interpolate = interpolate


# ------------------------------------------------------------------ activation

_saved = []


def melodist_modules():
    return [m for n, m in sorted(sys.modules.items()) if n == 'melodist' or n.startswith('melodist.')]


def activate(random_source):
    """swap np/pd names inside melodist's modules"""
    _install_internals()
    _build_np(random_source)
    assert not _saved
    swap(melodist_modules())


def swap(modules):
    npfun = {id(getattr(np, k)): v for k, v in PROXY_NP._over.items() if hasattr(np, k)}
    rndfun = {id(getattr(np.random, k)): k for k in dir(RandomProxy)
              if not k.startswith('_') and hasattr(np.random, k)}
    for m in modules:
        for name, val in list(vars(m).items()):
            new = None
            if val is np:
                new = PROXY_NP
            elif val is pd:
                new = PROXY_PD
            elif val is np.random:
                new = PROXY_NP._over['random']
            elif val is json:
                new = tokens.PROXY_JSON
            elif val is pd.Series:
                new = ProxySeries
            elif val is pd.DataFrame:
                new = ProxyDataFrame
            elif id(val) in npfun and callable(val):
                new = npfun[id(val)]
            elif id(val) in rndfun and callable(val):
                new = getattr(PROXY_NP._over['random'], rndfun[id(val)])
            if new is not None:
                _saved.append((m, name, val))
                setattr(m, name, new)


def fresh(symbolic):
    """a newly imported copy of melodist without any history"""
    def known():
        return [n for n in sys.modules if n == 'melodist' or n.startswith('melodist.')]

    old = {n: sys.modules.pop(n) for n in known()}
    try:
        package = importlib.import_module('melodist')
        modules = melodist_modules()
    finally:
        for n in known():
            del sys.modules[n]
        sys.modules.update(old)
    if symbolic:
        n = len(_saved)
        swap(modules)
        del _saved[n:]
    return package


def deactivate():
    while _saved:
        m, name, val = _saved.pop()
        setattr(m, name, val)

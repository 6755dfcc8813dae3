"""symbolic numbers passing through text

Parsers and serialisers are C code working on text.  A symbolic number that is written out is
represented by a token, a number that occurs nowhere else; reading the token back yields the
symbolic number.  Formatting to n decimals writes a new number at most half a unit away.
"""
import json as real_json
import re
import types
from fractions import Fraction

import numpy as np
import pandas as pd

from . import sym
from .sym import Sym

BASE = 800000


class Registry:
    def __init__(self):
        self.by_value = {}
        self.by_key = {}
        self.texts = 0


_reg = Registry()


def reset():
    global _reg
    _reg = Registry()


def encode(x):
    """number standing for a symbolic value"""
    if type(x) is not Sym:
        return x
    if x.const:
        return float(x.v)
    k = x.v.hash()
    for t, y in _reg.by_key.get(k, []):
        if y is x:
            return t
    t = BASE + len(_reg.by_value) + 0.25
    _reg.by_value[t] = x
    _reg.by_key.setdefault(k, []).append((t, x))
    return t


def decode(t):
    if isinstance(t, (float, int, np.floating, np.integer)) and not isinstance(t, bool):
        f = float(t)
        if f in _reg.by_value:
            return _reg.by_value[f]
        if f == f and abs(f) >= BASE:
            g = round((f - 0.25)) + 0.25
            if abs(g - f) < 1e-6 and g in _reg.by_value:
                return _reg.by_value[g]
    return t


def formatted(x, spec):
    if x.const:
        return format(float(x.v), spec)
    m = re.fullmatch(r'([<>=^ ]?)([+ -]?)(\d*)(?:\.(\d+))?([feg]?)', spec)
    if m is None:
        raise sym.EngineLimit('format %r' % spec)
    prec, kind = m.group(4), m.group(5)
    if prec is not None and kind == 'f':
        c = sym.ctx()
        _reg.texts += 1
        v = c.var('text%d' % _reg.texts)
        r = Sym(v)
        h = Fraction(1, 2) / Fraction(10) ** int(prec)
        c.assume(r - x <= h)
        c.assume(r - x >= -h)
        x = r
    elif prec is not None:
        raise sym.EngineLimit('format %r' % spec)
    return ('%%%ss' % m.group(3)) % repr(encode(x)) if m.group(3) else repr(encode(x))


Sym.__format__ = formatted


def has_sym(a):
    return a.dtype == object and any(type(x) is Sym for x in a._values)


def encode_series(s):
    if not has_sym(s):
        return s
    return pd.Series([encode(x) for x in s._values], index=s.index, name=s.name, dtype=float)


def encode_frame(df):
    if not any(has_sym(df.iloc[:, i]) for i in range(df.shape[1])):
        return df
    out = df.copy()
    for i in range(df.shape[1]):
        if has_sym(df.iloc[:, i]):
            if all(type(x) is Sym or isinstance(x, (int, float, np.number)) for x in df.iloc[:, i]._values):
                out.isetitem(i, encode_series(df.iloc[:, i]))
            else:
                out.isetitem(i, pd.Series([encode(x) for x in df.iloc[:, i]._values], index=df.index,
                                          dtype=object))
    return out


def decode_series(s):
    if s.dtype.kind not in 'fi' and s.dtype != object:
        return s
    v = list(s._values)
    if not any(type(decode(x)) is Sym for x in v):
        return s
    out = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        x = decode(x)
        out[i] = x if type(x) is Sym or x is None or x != x or not isinstance(
            x, (float, int, np.floating, np.integer)) else sym.as_sym(float(x))
    return pd.Series(out, index=s.index, name=s.name, dtype=object)


def decode_any(x):
    if isinstance(x, pd.Series):
        return decode_series(x)
    if isinstance(x, pd.DataFrame):
        for i in range(x.shape[1]):
            c = decode_series(x.iloc[:, i])
            if c.dtype != x.dtypes.iloc[i]:
                x.isetitem(i, c)
        return x
    return x


def reader(f):
    def g(*a, **k):
        return decode_any(f(*a, **k))

    return g


def install():
    """writers of pandas objects"""
    real_js, real_jd = pd.Series.to_json, pd.DataFrame.to_json
    real_str, real_csv = pd.DataFrame.to_string, pd.DataFrame.to_csv
    real_scsv = pd.Series.to_csv

    pd.Series.to_json = lambda self, *a, **k: real_js(encode_series(self), *a, **k)
    pd.DataFrame.to_json = lambda self, *a, **k: real_jd(encode_frame(self), *a, **k)

    def formatter(ff):
        if ff is None:
            return None
        if isinstance(ff, str):
            m = re.fullmatch(r'%(.*)', ff)
            spec = m.group(1) if m else ff.strip('{}').lstrip(':')
            return lambda x: format(decode(x), spec)
        return lambda x: ff(decode(x))

    def to_string(self, *a, **k):
        e = encode_frame(self)
        if e is not self and k.get('float_format') is not None:
            k['float_format'] = formatter(k['float_format'])
        return real_str(e, *a, **k)

    def to_csv(self, *a, **k):
        e = encode_frame(self)
        if e is not self and k.get('float_format') is not None:
            k['float_format'] = formatter(k['float_format'])
        return real_csv(e, *a, **k)

    def s_to_csv(self, *a, **k):
        return real_scsv(encode_series(self), *a, **k)

    pd.DataFrame.to_string = to_string
    pd.DataFrame.to_csv = to_csv
    pd.Series.to_csv = s_to_csv


class ProxyJson(types.ModuleType):
    def __init__(self):
        super().__init__('json')

    def __getattr__(self, n):
        return getattr(real_json, n)

    @staticmethod
    def _default(k):
        d = k.get('default')

        def f(o):
            if type(o) is Sym:
                return encode(o)
            if d is None:
                raise TypeError('Object of type %s is not JSON serializable' % type(o).__name__)
            return d(o)

        return dict(k, default=f)

    def dumps(self, obj, *a, **k):
        return real_json.dumps(obj, *a, **self._default(k))

    def dump(self, obj, fp, *a, **k):
        return real_json.dump(obj, fp, *a, **self._default(k))

    def loads(self, s, *a, **k):
        k.setdefault('parse_float', lambda t: decode(float(t)))
        return real_json.loads(s, *a, **k)

    def load(self, fp, *a, **k):
        k.setdefault('parse_float', lambda t: decode(float(t)))
        return real_json.load(fp, *a, **k)


PROXY_JSON = ProxyJson()

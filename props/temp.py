"""reference course and shared inputs for the temperature obligations"""
import math

import pandas as pd

import melodist
from .common import days


def cos_(x):
    return math.cos(x)


def sine_min_max(tmin, tmax, d, h, lo, hi, mod):
    """value of hour h of day d; lo/hi: hours of the minimum and maximum of that day"""
    n = len(tmin)
    low = tmin[d] if h < hi else (tmin[d + 1] if d + 1 < n else tmin[d])
    high = (tmax[d - 1] if d > 0 else tmax[d]) if h < lo else tmax[d]
    if not mod:
        c = cos_(2 * math.pi / 24 * (h - hi))
    elif h >= hi:
        c = cos_(math.pi / (24 - (hi - lo)) * (h - hi))
    elif h <= lo:
        c = cos_(math.pi / (24 - (hi - lo)) * (24 - hi + h))
    else:
        c = cos_(1.25 * math.pi + 0.75 * math.pi / (hi - lo) * (h - lo))
    return low + (high - low) / 2.0 + (high - low) / 2.0 * c, low, high


def sine_mean(tmean, tmin, tmax, d, h, hi):
    return tmean[d] + (tmax[d] - tmin[d]) / 2.0 * cos_(2 * math.pi / 24 * (h - hi))


def sun(env, idx, sunrise=None, sunnoon=None, daylength=None):
    n = len(idx)
    sunrise = sunrise or [6.2] * n
    sunnoon = sunnoon or [12.3] * n
    daylength = daylength or [11.0] * n
    return env.frame(dict(sunrise=sunrise, sunnoon=sunnoon,
                          sunset=[2 * b - a for a, b in zip(sunrise, sunnoon)],
                          daylength=daylength), idx)


def frame(env, idx, tmin, tmax, temp=None):
    n = len(idx)
    temp = temp or [(a + b) / 2.0 for a, b in zip(tmin, tmax)]
    return env.frame(dict(tmin=tmin, tmax=tmax, temp=temp), idx)

# Stand-in for spiceypy (not installed here): bodies move on known curves, in km and km/s, over seconds since J2000.
import numpy as np
_loaded = []
_ids = {"SUN": 10, "SSB": 0, "EARTH": 399, "EARTH BARYCENTER": 3, "MARS": 499, "MOON": 301, "JUPITER BARYCENTER": 5}
_frames = {"J2000": 1, "ECLIPJ2000": 17}


class SpiceyError(Exception):
    pass


def tkvrsn(what):
    return "stand-in"


def furnsh(p):
    _loaded.extend([p] if isinstance(p, str) else list(p))


def unload(p):
    for q in [p] if isinstance(p, str) else list(p):
        if q in _loaded:
            _loaded.remove(q)


def spkobj(p):
    return set(_ids.values()) - {0}


def bodn2c(n):
    if n.upper() not in _ids:
        raise SpiceyError(n)
    return _ids[n.upper()]


def bodc2n(i):
    for k, v in _ids.items():
        if v == i:
            return k
    raise SpiceyError(i)


def irfnum(n):
    return _frames.get(n, 0)


def namfrm(n):
    return _frames.get(n, 0)


def curve(body, et, frame, obs):
    k = 1.0 + bodn2c(body) + 1000.0 * _frames[frame] + 0.5 * bodn2c(obs)
    t = et / 86400.0
    return np.array([k + t, 2 * k - t, 3 * k + 2 * t, 0.001 * k + t * 1e-6, 0.002 * k - t * 1e-6, 0.003 * k])


def spkezr(body, et, frame, corr, obs):
    if np.ndim(et) == 0:
        return curve(body, float(et), frame, obs), 0.0
    return [curve(body, float(e), frame, obs) for e in et], np.zeros(len(et))

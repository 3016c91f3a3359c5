"""A deformable mirror built from drawn parameters, and an independent oracle for its surface."""
import os
import numpy as np
from math import cos, sin, radians
from astropy.io import fits
from scipy.ndimage import map_coordinates, spline_filter
import falco

ORIENT = ['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270']
INF = {'xin': (falco.INFLUENCE_XINETICS, 1e-3), 'bmc': (falco.INFLUENCE_BMC_2K, 4e-4)}
_cache = {}


def inf0(key):
    if key not in _cache:
        fn = INF[key][0]
        h = fits.getheader(fn)
        _cache[key] = (np.squeeze(fits.getdata(fn)).astype(float), h['C2CDX_M']/h['P2PDX_M'])
    return _cache[key]


def make(Nact=8, cen='pixel', ppact=5., tilt=(0, 0, 0), off=(0, 0), orient='rot0', inf='xin', sign='+', zyx=False, d_prop=(0., 0.)):
    mp = falco.config.ModelParameters()
    mp.P2.full = falco.config.Object()
    mp.P2.compact = falco.config.Object()
    d = mp.dm1
    fn, pitch = INF[inf]
    z, ppa = inf0(inf)
    d.Nact = Nact
    d.VtoH = 1e-9*np.ones((Nact, Nact))
    d.V = np.zeros((Nact, Nact))
    d.xtilt, d.ytilt, d.zrot = tilt
    d.xc = (Nact - 1)/2 + off[0]
    d.yc = (Nact - 1)/2 + off[1]
    d.edgeBuffer = 1
    d.fitType = 'linear'
    d.dead = []
    d.pinned = np.array([])
    d.Vpinned = np.array([])
    d.tied = np.zeros((0, 2))
    d.Vmin, d.Vmax = 0., 1000.
    d.biasMap = 500.*np.ones((Nact, Nact))
    d.inf_fn = fn
    d.dm_spacing = pitch
    d.inf_sign = sign
    d.orientation = orient
    d.centering = cen
    d.flagZYX = zyx
    d.inf0 = -z if sign == '-' else z.copy()
    d.dx_inf0 = pitch/ppa
    d.ppact = ppa
    d.dx = pitch/ppact
    d.useDifferentiableModel = False
    mp.centering = cen
    mp.dm_ind = np.array([1])
    mp.P2.full.dx = mp.P2.compact.dx = pitch/ppact
    mp.sbp_centers = np.array([575e-9])
    mp.d_P2_dm1, mp.d_dm1_dm2 = d_prop
    return mp, d


def orient_map(M, o):
    """height map after the orientation change, from first principles (index arithmetic)"""
    n = M.shape[0]
    out = np.zeros_like(M)
    k = int(o.split('rot')[1])//90
    for r in range(n):
        for c in range(n):
            rr, cc = r, c
            if o.startswith('flipx'):
                cc = n - 1 - cc
            for _ in range(k):            # quarter turn of the array: (r, c) -> (n-1-c, r)
                rr, cc = n - 1 - cc, rr
            out[rr, cc] = M[r, c]
    return out


def rot3(tilt, zyx):
    a, b, g = [radians(t) for t in tilt]
    Rx = np.array([[1, 0, 0], [0, cos(a), -sin(a)], [0, sin(a), cos(a)]])
    Ry = np.array([[cos(b), 0, sin(b)], [0, 1, 0], [-sin(b), 0, cos(b)]])
    Rz = np.array([[cos(g), -sin(g), 0], [sin(g), cos(g), 0], [0, 0, 1]])
    return Rz @ Ry @ Rx if zyx else Rx @ Ry @ Rz


_splines = {}


def spline_inf(key):
    if key not in _splines:
        z, ppa = inf0(key)
        pad = 30
        _splines[key] = (spline_filter(np.pad(z, pad), order=3), z.shape[0]//2 + pad, ppa)
    return _splines[key]


def oracle_surface(d, inf, N, dx, heights=None):
    """sum over actuators of height times the continuous influence function at the projected actuator position"""
    H = orient_map(d.VtoH*d.V, d.orientation) if heights is None else heights
    coef, c0, ppa = spline_inf(inf)
    sgn = -1. if d.inf_sign == '-' else 1.
    x = (np.arange(N) - N//2)*dx
    if d.centering == 'interpixel':
        x = x + dx/2
    X, Y = np.meshgrid(x, x)
    M2 = rot3((d.xtilt, d.ytilt, d.zrot), d.flagZYX)[:2, :2]
    Mi = np.linalg.inv(M2)
    XY = np.stack([X.ravel(), Y.ravel()], axis=1) @ Mi      # row vectors: left-handed rotations
    xa = XY[:, 0]/d.dm_spacing + d.xc
    ya = XY[:, 1]/d.dm_spacing + d.yc
    S = np.zeros(N*N)
    half = c0/ppa
    for r, c in zip(*np.nonzero(H)):
        m = (np.abs(xa - c) < half) & (np.abs(ya - r) < half)
        S[m] += sgn*H[r, c]*map_coordinates(coef, [(ya[m] - r)*ppa + c0, (xa[m] - c)*ppa + c0], order=3, mode='constant',
                                            prefilter=False)
    return S.reshape(N, N)


# ---- speed -----------------------------------------------------------------------------------------------------
# The resampling of influence functions triangulates the same grid again and again; remember results of this pure library function.

def _memo(fn, size=400):
    import collections
    seen = collections.OrderedDict()

    def wrapped(points, values, xi, *a, **k):
        try:
            key = (tuple(np.asarray(p).tobytes() for p in points), np.asarray(values).tobytes(), tuple(np.asarray(p).tobytes() + str(np.shape(p)).encode() for p in xi), repr(a), repr(sorted(k.items())))
        except Exception:
            return fn(points, values, xi, *a, **k)
        h = hash(key)
        if h in seen and seen[h][0] == key:
            seen.move_to_end(h)
            return seen[h][1].copy()
        r = fn(points, values, xi, *a, **k)
        seen[h] = (key, r.copy())
        if len(seen) > size:
            seen.popitem(last=False)
        return r
    return wrapped


if getattr(falco.dm, 'griddata', None) is not None and not hasattr(falco.dm.griddata, '_vf'):
    falco.dm.griddata = _memo(falco.dm.griddata, 60)
    falco.dm.griddata._vf = True

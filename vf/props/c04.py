"""C04: PROPER's masks have the stated shape and its maps keep their place when resampled."""
import os
import numpy as np
from hypothesis import strategies as st
from scipy.special import erf
from core import Facets, close, need, rng, quiet, scratch
from falco import proper

F = Facets('C04', rule='shapes, sizes, centres, rotations, grids and antialiasing drawn at random and compared with finely sampled exact shapes; smooth maps resampled '
           'and compared with their formula; non-trivial = an edge crosses the grid, or a map that is moved, turned or scaled',
           assumptions=['even grids', 'ellipses turn clockwise with ROTATION, the other shapes counter-clockwise, as the pupils of this code need it',
                        'resampled values are judged away from the edge of the source'])
DEG = np.pi/180


def wave(c):
    with quiet():
        return proper.prop_begin(c['D'], 5e-7, c['n'], c['frac'])


def cover(n, inside, near=None, sub=20):
    """fraction of each pixel for which inside(x, y) holds, in pixels from the centre; pixels far from an edge need one look"""
    ax = np.arange(n) - n//2
    y, x = np.meshgrid(ax, ax, indexing='ij')
    out = inside(x.astype(float), y.astype(float)).astype(float)
    g = np.zeros((n, n), bool)
    for dy in (-.75, 0, .75):
        for dx in (-.75, 0, .75):
            g |= inside(x + dx, y + dy) != (out > 0)
    if near is not None:                           # small or slender shapes: all pixels of their box
        g |= (np.abs(x - near[0]) <= near[2] + 1) & (np.abs(y - near[1]) <= near[2] + 1)
        sub = 50 if near[2] < 5 else 20
    o = (np.arange(sub) + .5)/sub - .5
    yy, xx = y[g].astype(float), x[g].astype(float)
    s = np.zeros(yy.shape)
    for a in o:
        for b in o:
            s += inside(xx + b, yy + a)
    out[g] = s/sub**2
    return out


def turn(x, y, deg):
    t = deg*DEG
    return x*np.cos(t) + y*np.sin(t), -x*np.sin(t) + y*np.cos(t)


GRID = dict(D=st.sampled_from([.02, 1., 6.5]), n=st.sampled_from([32, 64, 90]), frac=st.sampled_from([.3, .5, .9]), nsub=st.sampled_from([1, 3, 11, 11, 21, 41]),
            norm=st.booleans(), dark=st.booleans(), xc=st.one_of(st.just(0.), st.floats(-1.3, 1.3)), yc=st.one_of(st.just(0.), st.floats(-1.3, 1.3)),
            rot=st.one_of(st.just(None), st.sampled_from([0., 90., -45., 180.]), st.floats(-200, 200)))


def judge(got, want, nsub, msg, perim, extra=0.):
    need(got.shape == want.shape, msg + ': shape')
    need(np.all(np.isfinite(got)), msg + ': not finite')
    need(got.min() > -1e-9 and got.max() < 1 + 1e-9, msg + ': outside 0 to 1', got.min(), got.max())
    tol = 1.25/nsub + .03 + extra
    d = np.abs(got - want)
    k = np.unravel_index(np.argmax(d), d.shape)
    need(d[k] <= tol, msg + ': pixel', k, got[k], want[k], tol)
    area = abs(got.sum() - want.sum())
    need(area <= .55*perim/nsub + (.02 + .05*extra)*perim + .02, msg + ': area', got.sum(), want.sum())


@F.facet(st.fixed_dictionaries(dict(GRID, kind=st.sampled_from(['ellipse', 'circle', 'rectangle', 'polygon', 'irregular', 'rounded']), a=st.floats(.04, 1.4), b=st.floats(.04, 1.4),
                                    nv=st.integers(3, 8), seed=st.integers(0, 10**6), ap=st.sampled_from(['', 'aperture', 'obscuration']))), quick=500, thorough=10000)
def shapes(c, rec):
    """each pixel of a mask has the fraction of it the shape covers, to the accuracy of the subsampling, wherever the shape lies; apertures and obscurations multiply the field by it"""
    n, kind = c['n'], c['kind']
    wf = wave(c)
    R = c['D']/2                                   # beam radius in metres
    pix = c['D']/(n*c['frac'])
    u = 1. if c['norm'] and kind != 'rounded' else R
    kw = {'NORM': True} if c['norm'] and kind != 'rounded' else {}
    rot = c['rot'] if kind not in ('circle', 'irregular', 'rounded') else None
    if rot is not None:
        kw['ROTATION'] = rot
    rot = rot or 0.
    ap = c['ap'] if kind in ('ellipse', 'circle', 'rectangle') else ''
    dark = (c['dark'] and kind != 'rounded') if not ap else ap == 'obscuration'
    if dark and not ap:
        kw['DARK'] = True
    ctr = (c['xc']*u, c['yc']*u)
    px = R/pix                                     # beam radius in pixels
    X0, Y0 = c['xc']*px, c['yc']*px
    a, b = c['a']*px, c['b']*px
    before = wf.wfarr.copy()
    extra = 0.
    old = proper.antialias_subsampling
    try:
        proper.prop_set_antialiasing(c['nsub'])
        if kind in ('ellipse', 'circle'):
            a = max(a, .6)
            b = max(b, .6)
            if kind == 'circle':
                b = a
            args = (a/px*u, b/px*u) + ctr
            if ap:
                (getattr(proper, 'prop_circular_' + ap) if kind == 'circle' else getattr(proper, 'prop_elliptical_' + ap))(wf, *(args[:1] + args[2:] if kind == 'circle' else args), **kw)
            else:
                got = proper.prop_ellipse(wf, *args, **kw)

            def inside(x, y):
                p, q = turn(x - X0, y - Y0, -rot)
                return (p/a)**2 + (q/b)**2 <= 1
            perim = 2*np.pi*max(a, b)
        elif kind == 'rectangle':
            args = (2*a/px*u, 2*b/px*u) + ctr
            if ap:
                getattr(proper, 'prop_rectangular_' + ap)(wf, *args, **kw)
            else:
                got = proper.prop_rectangle(wf, *args, **kw)

            def inside(x, y):
                p, q = turn(x - X0, y - Y0, rot)
                return (np.abs(p) <= a) & (np.abs(q) <= b)
            perim = 4*(a + b)
        elif kind == 'polygon':
            got = proper.prop_polygon(wf, c['nv'], a/px*u, *ctr, **kw)
            apo = a*np.cos(np.pi/c['nv'])

            def inside(x, y):
                p, q = x - X0, y - Y0
                return np.all([p*np.cos(t) + q*np.sin(t) <= apo for t in rot*DEG - (np.arange(c['nv']) + .5)*2*np.pi/c['nv']], axis=0)
            perim = 2*np.pi*a
        elif kind == 'irregular':
            r = rng(c['seed'])
            t = np.sort(r.uniform(0, 2*np.pi, c['nv']))
            while np.max(np.diff(np.append(t, t[0] + 2*np.pi))) > 3 or np.min(np.diff(t)) < .15:
                t = np.sort(r.uniform(0, 2*np.pi, c['nv']))
            vx, vy = X0 + a*np.cos(t), Y0 + b*np.sin(t)
            k = int(r.integers(c['nv']))
            vx, vy = np.roll(vx, k), np.roll(vy, k)
            if r.integers(2):
                vx, vy = vx[::-1], vy[::-1]
            vx, vy = np.append(vx, vx[0]), np.append(vy, vy[0])
            got = proper.prop_irregular_polygon(wf, vx/px*u, vy/px*u, **kw)
            s = np.sign((vx[1] - vx[0])*(vy[2] - vy[1]) - (vy[1] - vy[0])*(vx[2] - vx[1]))

            def inside(x, y):
                return np.all([s*((vx[i+1] - vx[i])*(y - vy[i]) - (vy[i+1] - vy[i])*(x - vx[i])) >= 0 for i in range(c['nv'])], axis=0)
            perim = 2*np.pi*max(a, b)
        else:
            a, b = max(a, 5.), max(b, 5.)
            rc = min(a, b)*(.3 + .6*(c['seed'] % 100)/100)
            rc = max(rc, 4.)
            extra = .6/rc                         # pixels holding the centre of a corner are all corner
            got = proper.prop_rounded_rectangle(wf, rc*pix, 2*a*pix, 2*b*pix, X0*pix, Y0*pix)

            def inside(x, y):
                p, q = np.abs(x - X0), np.abs(y - Y0)
                return (p <= a) & (q <= b) & ((p <= a - rc) | (q <= b - rc) | (np.hypot(p - a + rc, q - b + rc) <= rc))
            perim = 4*(a + b)
    finally:
        proper.prop_set_antialiasing(old)
    want = cover(n, inside, (X0, Y0, 1.5*max(a, b)) if min(a, b) < 4 or kind in ('polygon', 'irregular') else None)
    if ap:
        got = np.fft.fftshift(np.real(wf.wfarr/before))
    else:
        need(np.array_equal(wf.wfarr, before), 'drawing a mask changed the field')
    want = 1 - want if dark else want
    judge(got, want, c['nsub'], kind, perim, extra)
    rec.nontrivial(want.min() < .5 < want.max())
    rec.label(kind)
    rec.label('cut by the grid', abs(X0) + max(a, b) > n/2 or abs(Y0) + max(a, b) > n/2)
    rec.label('off the grid', want.min() == want.max())


class Smooth:
    """a few Gaussian blobs in the units the caller uses"""
    def __init__(self, seed, reach, width, complex_=False):
        r = rng(seed)
        m = 3
        self.x, self.y = r.uniform(-reach, reach, m), r.uniform(-reach, reach, m)
        self.w = r.uniform(1, 1.6, m)*width
        self.h = r.uniform(-1, 1, m) + (1j*r.uniform(-1, 1, m) if complex_ else 0)
        self.h[0] = 1

    def __call__(self, x, y):
        return sum(h*np.exp(-((x - a)**2 + (y - b)**2)/(2*w**2)) for h, a, b, w in zip(self.h, self.x, self.y, self.w))

    def box(self, x, y, s):
        """integral over squares of side s"""
        def e(t, a, w):
            return np.sqrt(np.pi/2)*w*(erf((t + s/2 - a)/(np.sqrt(2)*w)) - erf((t - s/2 - a)/(np.sqrt(2)*w)))
        return sum(h*e(x, a, w)*e(y, b, w) for h, a, b, w in zip(self.h, self.x, self.y, self.w))


def axes(ny, nx=None, step=1.):
    nx = ny if nx is None else nx
    return np.meshgrid((np.arange(nx) - nx//2)*step, (np.arange(ny) - ny//2)*step)


@F.facet(st.fixed_dictionaries({'n': st.sampled_from([40, 64, 81]), 'mag': st.one_of(st.floats(.4, 2.6), st.sampled_from([1., 2., .5])), 'out': st.sampled_from([0, 30, 41, 64]),
                                'cplx': st.booleans(), 'mode': st.sampled_from(['', 'CONSERVE', 'AMP_CONSERVE']), 'quick': st.booleans(), 'seed': st.integers(0, 10**6)}), quick=120, thorough=2500)
def magnify(c, rec):
    """a magnified image has the values of the original at the scaled places about its centre, divided as the conservation switch says"""
    n, mag = c['n'], c['mag']
    f = Smooth(c['seed'], n/5, 3.2, c['cplx'])
    img = f(*axes(n))
    keep = img.copy()
    kw = {c['mode']: True} if c['mode'] else {}
    if c['quick']:
        kw['QUICK'] = True
    got = proper.prop_magnify(img, mag, c['out'], **kw)
    need(np.array_equal(img, keep), 'magnifying changed its input')
    m = c['out'] or int(n*mag)
    need(got.shape == (m, m), 'size of the magnified image', got.shape, m)
    x, y = axes(m, step=1/mag)
    want = f(x, y)
    if c['mode']:
        want = want/(mag if c['mode'] == 'AMP_CONSERVE' or c['cplx'] else mag**2)
    reach = n//2 - 8
    sure = (np.abs(x) < reach) & (np.abs(y) < reach)
    close(np.where(sure, got, 0), np.where(sure, want, 0), 0, .006*max(1, np.max(np.abs(want))), msg='magnified image')
    rec.nontrivial(mag != 1)


@F.facet(st.fixed_dictionaries({'ny': st.sampled_from([40, 64, 65]), 'nx': st.sampled_from([40, 64, 51]), 'deg': st.one_of(st.floats(-200, 200), st.sampled_from([0., 90., 180.])),
                                'ctr': st.one_of(st.none(), st.tuples(st.floats(-5, 5), st.floats(-5, 5)).map(list)),
                                'shift': st.one_of(st.none(), st.tuples(st.floats(-5, 5), st.floats(-5, 5)).map(list)), 'missing': st.one_of(st.none(), st.just(7.)),
                                'cplx': st.booleans(), 'seed': st.integers(0, 10**6)}), quick=300, thorough=6000)
def rotate(c, rec):
    """a rotated image is the original turned counter-clockwise about the centre, or the given point, then shifted; what comes from outside is the stated value"""
    ny, nx = c['ny'], c['nx']
    f = Smooth(c['seed'], 10, 3., c['cplx'])
    X, Y = axes(ny, nx)
    img = f(X, Y)
    keep = img.copy()
    kw = {}
    cx, cy = c['ctr'] or (0., 0.)
    sx, sy = c['shift'] or (0., 0.)
    if c['ctr']:
        kw['XC'], kw['YC'] = nx//2 + cx, ny//2 + cy
    if c['shift']:
        kw['XSHIFT'], kw['YSHIFT'] = sx, sy
    if c['missing']:
        kw['MISSING'] = c['missing']
    got = proper.prop_rotate(img, c['deg'], **kw)
    need(np.array_equal(img, keep) and got.shape == img.shape, 'input changed, or another size')
    p, q = turn(X - cx - sx, Y - cy - sy, c['deg'])
    p, q = p + cx, q + cy
    lo = lambda t, m, e: (t > -(m//2) + e) & (t < m - 1 - m//2 - e)
    sure = lo(p, nx, 5) & lo(q, ny, 5)
    out = ~(lo(p, nx, -.01) & lo(q, ny, -.01))
    close(np.where(sure, got, 0), np.where(sure, f(p, q), 0), 0, .008, msg='rotated image')
    need(np.all(got[out] == (c['missing'] or 0.)), 'value of what lies outside', got[out][:3])
    rec.nontrivial(c['deg'] != 0 and (c['ctr'] is not None or c['shift'] is not None))


@F.facet(st.fixed_dictionaries({'n': st.sampled_from([64, 80]), 'ratio': st.floats(.7, 4), 'out': st.sampled_from([0, 10, 15]), 'pix': st.sampled_from([1., 1e-5]), 'seed': st.integers(0, 10**6)}),
         quick=120, thorough=2500)
def pixellate(c, rec):
    """detector pixels hold the integral of the image over their area"""
    f = Smooth(c['seed'], c['n']/8, 3.)
    f.h = np.abs(f.h)
    img = f(*axes(c['n']))
    got = proper.prop_pixellate(img, c['pix'], c['pix']*c['ratio'], c['out'])
    m = c['out'] or int(np.fix(c['n']/c['ratio']))
    need(got.shape == (m, m), 'size of the pixellated image', got.shape, m)
    x, y = axes(m, step=c['ratio'])
    reach = c['n']//2 - 9
    sure = (np.abs(x) < reach) & (np.abs(y) < reach)
    # the final interpolation needs the blurred image sampled by the detector pixels to be smooth on the input grid, which it is
    close(np.where(sure, got, 0), np.where(sure, f.box(x, y, c['ratio']), 0), .006, msg='pixel values')
    rec.nontrivial(c['ratio'] > 1)


MAP = {'D': st.sampled_from([.1, 2.]), 'n': st.sampled_from([64, 96]), 'frac': st.sampled_from([.4, .6]), 'ny': st.sampled_from([50, 64, 71]), 'nx': st.sampled_from([50, 64, 71]),
       'scale': st.floats(.6, 1.6), 'shift': st.tuples(st.floats(-.2, .2), st.floats(-.2, .2)).map(list), 'ctr': st.one_of(st.none(), st.tuples(st.floats(-4, 4), st.floats(-4, 4)).map(list)),
       'how': st.sampled_from(['PIXSIZE', 'RADPIX', 'SAMPLING', 'writemap', 'writemap radius', 'other SAMPLING']), 'kind': st.sampled_from(['WAVEFRONT', 'MIRROR_SURFACE', 'AMPLITUDE']),
       'unit': st.sampled_from(['', 'NM', 'MICRONS']), 'turn': st.one_of(st.none(), st.floats(-170, 170)), 'grow': st.one_of(st.none(), st.floats(.8, 1.5)),
       'times': st.one_of(st.none(), st.just(.5)), 'seed': st.integers(0, 10**6), 'direct': st.booleans()}


@F.facet(st.fixed_dictionaries(MAP), quick=250, thorough=5000)
def errormap(c, rec):
    """a map read from a file sits where its sampling, centre, shift, rotation and magnification put it, and changes the field by its type and units"""
    import astropy.io.fits as pf
    wf = wave(c)
    n, dx, R = c['n'], c['D']/(c['n']*c['frac']), c['D']/2
    pix = dx*c['scale']
    ny, nx = c['ny'], c['nx']
    f = Smooth(c['seed'], .35*R, 4.*max(pix, dx))
    cx, cy = c['ctr'] or (0., 0.)
    X, Y = axes(ny, nx, pix)
    data = f(X - cx*pix, Y - cy*pix)               # map centre at pixel (nx//2 + cx, ny//2 + cy)
    kw = {}
    if c['ctr']:
        kw['XC_MAP'], kw['YC_MAP'] = nx//2 + cx, ny//2 + cy
    with scratch() as d:
        name = os.path.join(str(d), 'map.fits')
        if c['how'].startswith('writemap'):
            proper.prop_writemap(data, name, **({'SAMPLING': pix} if c['how'] == 'writemap' else {'RADIUS_PIX': R/pix, 'SAMPLING': 3*pix}))
        else:
            hdu = pf.PrimaryHDU(data)
            if c['how'] == 'PIXSIZE':
                hdu.header['PIXSIZE'] = pix
            elif c['how'] == 'RADPIX':
                hdu.header['RADPIX'] = R/pix
                hdu.header['PIXSIZE'] = 5*pix
                if 'XC_MAP' not in kw:
                    kw['SAMPLING'] = 2*pix
            else:
                if c['how'] == 'other SAMPLING':
                    hdu.header['PIXSIZE'] = 7*pix
                kw['SAMPLING'] = pix
            hdu.writeto(name)
        sx, sy = c['shift'][0]*R, c['shift'][1]*R
        GX, GY = axes(n, step=dx)
        grow, deg = c['grow'] or 1., c['turn'] or 0.
        p, q = turn(GX/grow, GY/grow, deg)
        p, q = p - sx, q - sy
        if c['direct']:
            p, q = GX - sx, GY - sy
            grow, deg = 1., 0.
        edge = 6*pix
        x0, y0 = (nx//2 + cx)*pix, (ny//2 + cy)*pix
        lim = (n//2 - 9)*dx
        sure = (p > -x0 + edge) & (p < (nx - 1)*pix - x0 - edge) & (q > -y0 + edge) & (q < (ny - 1)*pix - y0 - edge)
        if grow != 1 or deg != 0:
            u, v = turn(GX/grow, GY/grow, deg)
            sure &= (np.abs(u) < lim) & (np.abs(v) < lim) & (np.abs(GX)/grow < lim) & (np.abs(GY)/grow < lim)
        want = f(p, q)
        with quiet():
            if c['direct']:
                got = np.fft.fftshift(proper.prop_readmap(wf, name, sx, sy, **kw))
                close(np.where(sure, got, 0), np.where(sure, want, 0), 0, .01, msg='resampled map')
                rec.nontrivial(True)
                return
            unit = c['unit'] if c['kind'] != 'AMPLITUDE' else ''
            kw[c['kind']] = True
            if unit:
                kw[unit] = True
            if c['turn'] is not None:
                kw['ROTATEMAP'] = c['turn']
            if c['grow'] is not None:
                kw['MAGNIFY'] = c['grow']
            t = (c['times'] or 1.)*{'': 1., 'NM': 1e-9, 'MICRONS': 1e-6}[unit]
            amount = wf.lamda/12 if c['kind'] != 'AMPLITUDE' else 1.
            kw['MULTIPLY'] = (c['times'] or 1.)*amount/{'': 1., 'NM': 1e-9, 'MICRONS': 1e-6}[unit]
            want = want*(c['times'] or 1.)*amount
            got = proper.prop_errormap(wf, name, sx, sy, **kw)
    tol = .014*(c['times'] or 1.)*amount
    close(np.where(sure, got, 0), np.where(sure, want, 0), 0, tol, msg='map of errors')
    e = np.fft.fftshift(wf.wfarr)
    k = 2*np.pi/wf.lamda
    close(e, {'WAVEFRONT': np.exp(1j*k*got), 'MIRROR_SURFACE': np.exp(-2j*k*got), 'AMPLITUDE': got + 0j}[c['kind']], 1e-9, msg='field with the map')
    rec.nontrivial(sure.sum() > 50)
    rec.label(c['kind'])
    rec.label('turned', c['turn'] is not None)


@F.facet(st.fixed_dictionaries({'ny': st.integers(1, 20), 'nx': st.integers(1, 20), 'seed': st.integers(0, 10**6)}), quick=150, thorough=2000)
def centre(c, rec):
    """moving the centre to the corner and back leaves an array of even size as it was; the centre pixel goes to the corner"""
    ny, nx = 2*c['ny'], 2*c['nx']
    a = rng(c['seed']).normal(size=(ny, nx))
    s = proper.prop_shift_center(a)
    need(s[0, 0] == a[ny//2, nx//2], 'centre goes to the corner')
    close(s, np.fft.ifftshift(a), 0, 0, msg='shifted array')
    close(proper.prop_shift_center(s), a, 0, 0, msg='shifted twice')
    rec.nontrivial(ny != nx)

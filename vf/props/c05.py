"""C05: pupil, Lyot-stop and focal-plane mask generators render the requested geometry."""
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, real
from falco import mask, util

F = Facets('C05', rule='geometries drawn over sizes, centering, shear, clocking, magnification; non-trivial = '
           'the mask has transmitting, opaque and (where claimed) partially covered pixels',
           assumptions=['reference masks are computed by 15x15 point sampling per pixel of the analytic shape; '
                        'tolerances cover the antialiasing of both renderings'])
CEN = st.sampled_from(['pixel', 'interpixel'])
SUB = 15


def coords(n, nbeam, cen):
    """Pixel-centre coordinates in beam diameters (FFT convention or half-pixel offset)."""
    x = (np.arange(n) - n//2)/nbeam
    if cen == 'interpixel':
        x = x + 0.5/nbeam
    return x


def coverage(pred, x, sub=SUB):
    """Fraction of each pixel inside pred(X, Y)."""
    d = x[1] - x[0] if len(x) > 1 else 1.0
    o = ((np.arange(sub) + 0.5)/sub - 0.5)*d
    xs = (x[:, None] + o[None, :]).ravel()
    X, Y = np.meshgrid(xs, xs)
    p = pred(X, Y).astype(float)
    n = len(x)
    return p.reshape(n, sub, n, sub).mean(axis=(1, 3))


def rot(X, Y, deg):
    """Coordinates in a frame rotated counter-clockwise by deg."""
    t = np.radians(deg)
    return np.cos(t)*X + np.sin(t)*Y, -np.sin(t)*X + np.cos(t)*Y


def compare(got, ref, tol, msg, mean_tol=None):
    need(got.shape == ref.shape, '%s: shape %s expected %s', msg, got.shape, ref.shape)
    need(np.all(got >= -1e-9) and np.all(got <= 1 + 1e-9), '%s: transmission outside [0,1]', msg)
    d = np.abs(got - ref)
    i = np.unravel_index(np.argmax(d), d.shape)
    need(d[i] <= tol, '%s: pixel %s is %.4f, expected %.4f', msg, i, got[i], ref[i])
    if mean_tol is not None:
        need(abs(np.sum(got) - np.sum(ref)) <= mean_tol*max(1.0, np.sum(d > 0)) + 1e-6, '%s: area %.4f expected %.4f', msg,
             np.sum(got), np.sum(ref))


def gray(m):
    return bool(np.any(m > 0.99) and np.any(m < 0.01) and np.any((m > 0.02) & (m < 0.98)))


def smallest_even(m, cen):
    """No even array smaller than the returned one could hold the non-zero part."""


# ------------------------------------------------------------------ ellipse / simple pupil
@F.facet(st.fixed_dictionaries({'nb': st.floats(8, 40), 'extra': st.integers(0, 6), 'cen': CEN,
                                'rx': st.floats(0.12, 0.5), 'ry': st.floats(0.12, 0.5), 'clk': st.floats(-180, 180),
                                'xs': st.floats(-.2, .2), 'ys': st.floats(-.2, .2), 'mag': st.floats(0.6, 1.5),
                                'opt': st.integers(0, 7)}), quick=240, thorough=3000)
def ellipse(c, rec):
    """gen_ellipse: area-sampled ellipse with clocking, shear and magnification"""
    n = 2*int(np.ceil(c['nb']*0.5*max(1, c['mag']))) + 2*c['extra']
    inp = dict(Nbeam=c['nb'], Narray=n, radiusX=c['rx'], radiusY=c['ry'], centering=c['cen'])
    clk = xs = ys = 0.0
    mag = 1.0
    if c['opt'] & 1:
        inp['clockingDegrees'] = clk = c['clk']
    if c['opt'] & 2:
        inp['xShear'], inp['yShear'] = xs, ys = c['xs'], c['ys']
    if c['opt'] & 4:
        inp['magFac'] = mag = c['mag']

    def pred(X, Y):
        U, V = rot(X - xs, Y - ys, clk)
        return (U/(mag*c['rx']))**2 + (V/(mag*c['ry']))**2 <= 1
    got = mask.gen_ellipse(inp)
    ref = coverage(pred, coords(n, c['nb'], c['cen']))
    compare(got, ref, 0.05, 'ellipse')
    big = n/c['nb']*0.5 - 2/c['nb'] > mag*max(c['rx'], c['ry']) + max(abs(xs), abs(ys))
    if big:
        close(np.sum(got), np.pi*c['rx']*c['ry']*(mag*c['nb'])**2, 0.01, 0.02, 'ellipse area')
    rec.nontrivial(gray(got))
    rec.label('clocked', c['opt'] & 1)
    rec.label('magnified', c['opt'] & 4)


@F.facet(st.fixed_dictionaries({'nb': st.integers(16, 40), 'extra': st.integers(0, 5), 'cen': CEN,
                                'OD': st.floats(0.7, 1.0), 'ID': st.sampled_from([0.0, 0.15, 0.31, 0.4]),
                                'w': st.floats(0.03, 0.12), 'ang': st.lists(st.integers(0, 359), max_size=4, unique=True),
                                'clk': st.floats(-90, 90), 'xs': st.floats(-.06, .06), 'ys': st.floats(-.06, .06),
                                'stretch': st.sampled_from([1.0, 1.0, 0.85]), 'omit': st.integers(0, 31)}), quick=160, thorough=2000)
def simple_pupil(c, rec):
    """falco_gen_pupil_Simple: annulus with radial struts, clocked and sheared together"""
    n = 2*((c['nb'] + 1)//2 + 4 + c['extra'])
    inp = dict(Nbeam=c['nb'], Npad=n, OD=c['OD'], ID=c['ID'], centering=c['cen'], clocking=c['clk'], xShear=c['xs'],
               yShear=c['ys'], xStretch=c['stretch'])
    # optional keys left out take their documented neutral values
    c = dict(c)
    for i, (key, name, default) in enumerate([('ID', 'ID', 0.0), ('clocking', 'clk', 0.0), ('xShear', 'xs', 0.0),
                                              ('yShear', 'ys', 0.0), ('xStretch', 'stretch', 1.0)]):
        if c['omit'] >> i & 1:
            del inp[key]
            c[name] = default
    if c['cen'] == 'pixel' and c['omit'] & 1:
        del inp['centering']
    if c['ang']:
        inp['angStrut'] = c['ang']
        inp['wStrut'] = c['w']

    def frame(X, Y):
        return rot(X - c['xs'], Y - c['ys'], c['clk'])

    def circ(D):
        def f(X, Y):
            U, V = frame(X, Y)
            return np.hypot(U/c['stretch'], V) <= D/2
        return f

    def strut(a):
        def f(X, Y):
            P, Q = rot(*frame(X, Y), a)
            return ~((P >= 0) & (P <= 0.6) & (np.abs(Q) <= c['w']/2))
        return f
    got = mask.falco_gen_pupil_Simple(inp)
    x = coords(n, c['nb'], c['cen'])
    feats = [coverage(circ(c['OD']), x)]
    if c['ID']:
        feats.append(1 - coverage(circ(c['ID']), x))
    feats += [coverage(strut(a), x) for a in c['ang']]
    several = np.sum([(f > 0) & (f < 1) for f in feats], axis=0) > 1   # edges of two features in one pixel
    ref = np.prod(feats, axis=0)
    need(got.shape == ref.shape, 'shape %s', got.shape)
    need(np.all(got >= -1e-9) and np.all(got <= np.min(feats, axis=0) + 0.1), 'simple pupil passes light outside a feature')
    d = np.abs(got - ref)*~several
    need(d.max() <= 0.1, 'simple pupil: pixel %s is %.3f, expected %.3f', np.unravel_index(np.argmax(d), d.shape),
         got.ravel()[np.argmax(d)], ref.ravel()[np.argmax(d)])
    rec.nontrivial(gray(got) and len(c['ang']) > 0)
    rec.label('struts', len(c['ang']))
    rec.label(c['cen'])


@F.facet(st.fixed_dictionaries({'nb': st.integers(24, 60), 'cen': CEN, 'OD': st.floats(0.7, 1.0),
                                'ID': st.sampled_from([0.0, 0.2, 0.35]), 'stretch': st.sampled_from([1.0, 0.85]),
                                'w': st.floats(0.05, 0.12), 'ang': st.lists(st.integers(0, 359), max_size=3, unique=True)}),
         quick=80, thorough=600)
def simple_pupil_hypergaussian(c, rec):
    """hyper-Gaussian rendering is the same geometry with narrow soft edges"""
    n = 2*((c['nb'] + 1)//2 + 4)
    inp = dict(Nbeam=c['nb'], Npad=n, OD=c['OD'], ID=c['ID'], centering=c['cen'], flagHG=True, xStretch=c['stretch'],
               wStrut=c['w'], angStrut=c['ang'])

    got = mask.falco_gen_pupil_Simple(inp)
    X, Y = np.meshgrid(coords(n, c['nb'], c['cen']), coords(n, c['nb'], c['cen']))
    X = X/c['stretch']
    r = np.hypot(X, Y)
    ref = ((r <= c['OD']/2) & ~(r < c['ID']/2)).astype(float)
    # the soft edges are narrow: 1% of a radius for the circles, 7% of the half-width for a strut
    edge = (np.abs(r/(c['OD']/2) - 1) < 0.01) | (np.abs(r - c['ID']/2) < 0.005*c['ID'])
    for a in c['ang']:
        P, Q = rot(X, Y, a)
        edge |= (P > -1e-9) & (np.abs(np.abs(Q)/(c['w']/2) - 1) < 0.07)
        edge |= (np.abs(P) < 1e-9) & (np.abs(Q) <= c['w']/2)
        ref = ref*~((P > 0) & (np.abs(Q) <= c['w']/2))
    need(got.shape == ref.shape, 'shape %s', got.shape)
    d = np.abs(got - ref)*~edge
    need(d.max() <= 0.02, 'hyper-Gaussian pupil: pixel %s is %.3f, expected %.0f', np.unravel_index(np.argmax(d), d.shape),
         got.ravel()[np.argmax(d)], ref.ravel()[np.argmax(d)])
    need(np.all(got > -1e-9) and np.all(got < 1 + 1e-9), 'range')
    rec.nontrivial(c['ID'] > 0)


@F.facet(st.fixed_dictionaries({'nb': st.floats(6, 50), 'D': st.floats(1e-3, 10), 'cen': CEN}), quick=120, thorough=1000)
def dm_stop(c, rec):
    """DM stop: circle of the requested diameter in the smallest even array"""
    dx = c['D']/c['nb']
    got = mask.falco_gen_DM_stop(dx, c['D'], c['cen'])
    n = got.shape[0]
    need(n % 2 == 0 and c['nb'] <= n <= c['nb'] + 3, 'array size %s for diameter %s pixels', n, c['nb'])
    ref = coverage(lambda X, Y: X*X + Y*Y <= 0.25, coords(n, c['nb'], c['cen']))
    compare(got, ref, 0.12, 'DM stop', 0.02)
    rec.nontrivial(gray(got))


# ------------------------------------------------------------------ focal-plane masks
FPMD = {'res': st.integers(3, 12), 'ri': st.floats(1.0, 4.0), 'dr': st.floats(0.8, 6.0), 'cen': CEN,
        'xo': st.floats(-2, 2), 'yo': st.floats(-2, 2), 'off': st.booleans(), 'grow': st.integers(0, 3)}


@F.facet(st.fixed_dictionaries(dict(FPMD, inf=st.booleans(), amp=st.sampled_from([0.0, 0.0, 0.3, 1e-3]))),
         quick=200, thorough=2500)
def annular_fpm(c, rec):
    """annular FPM: partially transmitting inner spot, opaque outside the outer radius, offset as requested"""
    ro = np.inf if c['inf'] else c['ri'] + c['dr']
    big = c['ri'] if c['inf'] else ro
    inp = dict(pixresFPM=c['res'], rhoInner=c['ri'], rhoOuter=ro, centering=c['cen'], FPMampFac=c['amp'])
    xo = yo = 0.0
    if c['off']:
        inp['xOffset'], inp['yOffset'] = xo, yo = c['xo'], c['yo']
    base = mask.gen_annular_fpm(inp)
    n = base.shape[0]
    w = 2*big*c['res'] + 2*max(abs(xo), abs(yo))*c['res'] + (1 if c['cen'] == 'pixel' else 0)
    need(base.shape == (n, n) and n % 2 == 0 and w - 1e-6 <= n < w + 2 + 1e-6, 'array size %s, needed %.3f', base.shape, w)
    if c['grow']:
        inp['Narray'] = n = n + 2*c['grow']
        got = mask.gen_annular_fpm(inp)
        if not c['inf']:
            close(got, util.pad_crop(base, n), 1e-6, msg='Narray only pads')
    else:
        got = base
    x = coords(n, c['res'], c['cen'])
    ref = 1 - (1 - c['amp'])*coverage(lambda X, Y: np.hypot(X-xo, Y-yo) <= c['ri'], x)
    if not c['inf']:
        ref = ref*coverage(lambda X, Y: np.hypot(X-xo, Y-yo) <= ro, x)
    compare(got, ref, 0.08, 'annular FPM', 0.02)
    rec.nontrivial(gray(got) or c['amp'] > 0)
    rec.label('infinite', c['inf'])


@F.facet(st.fixed_dictionaries(dict(FPMD, ang=st.floats(20, 170), clk=st.floats(-90, 90), full=st.integers(0, 5))),
         quick=160, thorough=2000)
def bowtie_fpm(c, rec):
    """bowtie FPM: open within ang/2 of the clocked axis between the radii"""
    ro = c['ri'] + c['dr']
    ang = 180 if c['full'] == 0 else c['ang']
    inp = dict(ang=ang, pixresFPM=c['res'], rhoInner=c['ri'], rhoOuter=ro, centering=c['cen'], clocking=c['clk'])
    xo = yo = 0.0
    if c['off']:
        inp['xOffset'], inp['yOffset'] = xo, yo = c['xo'], c['yo']
    got = mask.gen_bowtie_fpm(inp)
    n = got.shape[0]
    w = 2*ro*c['res'] + 2*max(abs(xo), abs(yo))*c['res'] + (1 if c['cen'] == 'pixel' else 0)
    need(got.shape == (n, n) and n % 2 == 0 and w - 1e-6 <= n < w + 2 + 1e-6, 'array size %s, needed %.3f', got.shape, w)

    def pred(X, Y):
        U, V = rot(X-xo, Y-yo, c['clk'])
        r = np.hypot(U, V)
        p = (r >= c['ri']) & (r <= ro)
        if ang < 180:
            p &= np.abs(V) <= np.abs(U)*np.tan(np.radians(ang/2))
        return p
    ref = coverage(pred, coords(n, c['res'], c['cen']))
    compare(got, ref, 0.35, 'bowtie FPM')
    bad = np.abs(got - ref) > 0.12
    need(np.sum(bad) <= 12, 'bowtie FPM: %d pixels off', np.sum(bad))
    rec.nontrivial(gray(got) and ang < 180)
    rec.label('clocked', abs(c['clk']) > 1)


@F.facet(st.fixed_dictionaries({'nb': st.integers(20, 48), 'ID': st.floats(0.1, 0.5), 'w': st.floats(0.2, 0.5),
                                'ang': st.one_of(st.floats(40, 170), st.just(180.0)), 'cen': CEN,
                                'clk': st.floats(-90, 90), 'xs': st.floats(-.1, .1), 'ys': st.floats(-.1, .1),
                                'mag': st.floats(0.7, 1.3), 'opt': st.integers(0, 7)}), quick=160, thorough=2000)
def bowtie_lyot_stop(c, rec):
    """bowtie Lyot stop: annulus open within ang/2 of the clocked vertical axis"""
    OD = min(c['ID'] + c['w'], 1.0)
    inp = dict(Nbeam=c['nb'], ID=c['ID'], OD=OD, ang=c['ang'], centering=c['cen'])
    clk = xs = ys = 0.0
    mag = 1.0
    if c['opt'] & 1:
        inp['clocking'] = clk = c['clk']
    if c['opt'] & 2:
        inp['xShear'], inp['yShear'] = xs, ys = c['xs'], c['ys']
    if c['opt'] & 4:
        inp['magfac'] = mag = c['mag']
    got = mask.gen_bowtie_lyot_stop(inp)
    n = got.shape[0]
    w = mag*c['nb'] + 2*c['nb']*max(abs(xs), abs(ys)) + (1 if c['cen'] == 'pixel' else 0)
    need(got.shape == (n, n) and n % 2 == 0 and w - 1e-6 <= n < w + 2 + 1e-6, 'array size %s, needed %.3f', got.shape, w)

    def pred(X, Y):
        U, V = rot(X-xs, Y-ys, clk)
        r = np.hypot(U, V)
        p = (r >= mag*c['ID']/2) & (r <= mag*OD/2)
        if c['ang'] < 180:
            p &= np.abs(U) <= np.abs(V)*np.tan(np.radians(c['ang']/2))
        return p
    ref = coverage(pred, coords(n, c['nb'], c['cen']))
    compare(got, ref, 0.35, 'bowtie Lyot stop')
    bad = np.abs(got - ref) > 0.12
    need(np.sum(bad) <= 12, 'bowtie Lyot stop: %d pixels off', np.sum(bad))
    rec.nontrivial(gray(got) and c['ang'] < 180)


# ------------------------------------------------------------------ telescope pupils (metamorphic)
def gen_pupil(kind, nb, cen, **k):
    if kind == 'roman':
        return mask.falco_gen_pupil_Roman_CGI_20200513(nb, cen, dict(k))
    if kind in ('lyot_roman', 'lyot_luvoirA'):
        k = dict(k, flagLyot=True, ID=0.35, OD=0.85)
        if kind == 'lyot_roman':
            return mask.falco_gen_pupil_Roman_CGI_20200513(nb, cen, k)
        kind = 'luvoirA'
    k = dict(k)
    if 'flagRot180' in k:
        k['flagRot180deg'] = k.pop('flagRot180')
    k.update(Nbeam=nb, centering=cen)
    if kind == 'luvoirA':
        return mask.falco_gen_pupil_LUVOIR_A_final(k)
    return mask.falco_gen_pupil_LUVOIR_B(k)


def same(a, b, tol, msg, frac=0.01):
    n = max(a.shape[0], b.shape[0])
    a, b = util.pad_crop(a, n), util.pad_crop(b, n)
    d = np.abs(a - b)
    need(np.mean(d > tol) <= frac, '%s: %d of %d pixels differ (max %.3f)', msg, np.sum(d > tol), d.size, d.max())


KIND = st.sampled_from(['roman', 'roman', 'lyot_roman', 'luvoirA', 'lyot_luvoirA', 'luvoirB'])


@F.facet(st.fixed_dictionaries({'kind': KIND, 'nb': st.integers(40, 70), 'cen': CEN,
                                'rel': st.sampled_from(['shear', 'rot180', 'clock90', 'mag', 'pad', 'clockturn']),
                                'kx': st.integers(-4, 4), 'ky': st.integers(-4, 4), 'mag': st.floats(0.8, 1.25),
                                'clk': st.floats(-20, 20), 'q': st.sampled_from([90, -90, 180])}),
         quick=60, thorough=500)
def telescope_pupils(c, rec):
    """telescope pupils: shear moves, 180-degree flag and 90-degree clocking rotate, magnification rescales,
    padding only removes light; values stay in [0,1]"""
    kind, nb, cen = c['kind'], c['nb'], c['cen']
    rel = c['rel']
    clk = c['clk']
    if kind == 'luvoirB':        # its array only fits the unclocked aperture
        clk = 0.0
        rel = 'shear' if rel != 'mag' else 'mag'
    a = gen_pupil(kind, nb, cen, clock_deg=clk)
    need(a.ndim == 2 and a.shape[0] == a.shape[1] and a.shape[0] % 2 == 0, 'pupil array shape %s', a.shape)
    need(np.all(a >= -1e-9) and np.all(a <= 1+1e-9), 'pupil transmission outside [0,1]')
    n = a.shape[0] + 2*max(abs(c['kx']), abs(c['ky'])) + 8
    A = util.pad_crop(a, n)
    if rel == 'shear':
        b = gen_pupil(kind, nb, cen, clock_deg=clk, xShear=c['kx']/nb, yShear=c['ky']/nb)
        same(util.pad_crop(b, n), np.roll(A, (c['ky'], c['kx']), (0, 1)), 0.02, kind + ' sheared by whole pixels', 0.002)
    elif rel == 'rot180' and kind != 'luvoirB':
        b = gen_pupil(kind, nb, cen, clock_deg=clk, flagRot180=True, xShear=c['kx']/nb, yShear=c['ky']/nb)
        f = util.pad_crop(gen_pupil(kind, nb, cen, clock_deg=clk, xShear=c['kx']/nb, yShear=c['ky']/nb), n)
        r = f[::-1, ::-1]
        if cen == 'pixel':
            r = np.roll(r, (1, 1), (0, 1))
        same(util.pad_crop(b, n), r, 0.03, kind + ' rotated by 180 degrees', 0.004)
    elif rel in ('clock90', 'clockturn'):
        b = gen_pupil(kind, nb, cen, clock_deg=clk + c['q'])
        r = np.rot90(A, {90: -1, -90: 1, 180: 2}[c['q']])
        if cen == 'pixel':
            r = np.roll(r, {90: (0, 1), -90: (1, 0), 180: (1, 1)}[c['q']], (0, 1))
        same(util.pad_crop(b, n), r, 0.08, kind + ' clocked by %d' % c['q'], 0.012)
    elif rel == 'mag':
        nb2 = int(round(nb*c['mag']))
        b = gen_pupil(kind, nb, cen, clock_deg=clk, magFac=nb2/nb)
        e = gen_pupil(kind, nb2, cen, clock_deg=clk)
        same(b, e, 0.05, kind + ' magnified', 0.012)
    elif rel == 'pad' and kind == 'roman':
        p = 0.01
        b = gen_pupil(kind, nb, cen, clock_deg=clk, pad_all=p)
        need(np.all(b <= util.pad_crop(a, b.shape[0]) + 0.03), 'padding obscurations added light')
        need(np.sum(b) < np.sum(a)*0.99, 'padding removed no light')
        b2 = gen_pupil(kind, nb, cen, clock_deg=clk, pad_strut=p, pad_COBS=p, pad_COBStabs=p, pad_OD=p)
        close(b2, b, 1e-9, msg='pad_all equals padding every feature')
    else:
        return
    rec.nontrivial()
    rec.label(kind + ':' + rel)


@F.facet(st.fixed_dictionaries({'nb': st.floats(24, 48), 'cen': CEN, 'ID': st.floats(0.1, 0.45), 'w': st.floats(0.2, 0.5),
                                'xs': st.floats(-.1, .1), 'ys': st.floats(-.1, .1), 'mag': st.floats(0.8, 1.2),
                                'kind': st.sampled_from(['roman', 'luvoirA'])}), quick=40, thorough=300)
def telescope_lyot_annulus(c, rec):
    """Lyot-stop mode without struts: annulus with the given diameters, sheared and magnified"""
    OD = min(1.0, c['ID'] + c['w'])
    k = dict(flagLyot=True, ID=c['ID'], OD=OD, xShear=c['xs'], yShear=c['ys'], magFac=c['mag'], wStrut=0)
    if c['kind'] == 'roman':
        got = mask.falco_gen_pupil_Roman_CGI_20200513(c['nb'], c['cen'], k)
    else:
        got = mask.falco_gen_pupil_LUVOIR_A_final(dict(k, Nbeam=c['nb'], centering=c['cen']))
    def pred(X, Y):
        r = np.hypot(X-c['xs'], Y-c['ys'])
        return (r >= c['mag']*c['ID']/2) & (r <= c['mag']*OD/2)
    ref = coverage(pred, coords(got.shape[0], c['nb'], c['cen']))
    compare(got, ref, 0.12, 'Lyot annulus (%s)' % c['kind'], 0.03)
    rec.nontrivial(gray(got))
    rec.label(c['kind'])


@F.facet(st.fixed_dictionaries({'n': st.integers(60, 120), 'ni': st.floats(40, 58), 'no': st.floats(14, 30),
                                'kx': st.floats(-3, 3), 'ky': st.floats(-3, 3), 'rot': st.floats(-60, 60),
                                'dorot': st.booleans(), 'rx': st.floats(0.25, 0.45), 'ry': st.floats(0.25, 0.45),
                                'x0': st.floats(-.05, .05), 'y0': st.floats(-.05, .05)}), quick=60, thorough=600)
def downsample_pupil(c, rec):
    """rotate_shift_downsample_pupil_mask: same shape at the coarser sampling, offset in output pixels and rotated"""
    n = 2*(c['n']//2)
    shape = lambda X, Y: ((X - c['x0'])/c['rx'])**2 + ((Y - c['y0'])/c['ry'])**2 <= 1
    a = coverage(shape, coords(n, c['ni'], 'pixel'), 5)
    a[0, :] = 0
    a[:, 0] = 0
    r = c['rot'] if c['dorot'] else 0.0
    got = mask.rotate_shift_downsample_pupil_mask(a, c['ni'], c['no'], c['kx'], c['ky'], r)
    m = got.shape[0]
    need(got.shape == (m, m) and m % 2 == 0, 'output shape %s', got.shape)
    def pred(X, Y):
        U, V = rot(X - c['kx']/c['no'], Y - c['ky']/c['no'], r)
        return shape(U, V)
    ref = coverage(pred, coords(m, c['no'], 'pixel'))
    d = np.abs(got - ref)
    need(d.max() < 0.35 and np.mean(d > 0.2) < 0.02, 'downsampled mask off by %.3f at %s', d.max(), np.unravel_index(np.argmax(d), d.shape))
    close(np.sum(got), np.sum(ref), 0.03, msg='area')
    raises(ValueError, mask.rotate_shift_downsample_pupil_mask, a, c['no'], c['ni'], 0, 0, 0)
    rec.nontrivial(np.any(got > 0.9))
    rec.label('rotated', c['dorot'])


@F.facet(st.fixed_dictionaries({'ch': st.one_of(st.integers(-8, 8), st.floats(-8, 8)), 'n': st.integers(1, 20)}), quick=100, thorough=500)
def vortex_mask(c, rec):
    """vortex mask: unit modulus and phase charge*theta about the centre pixel"""
    n = 2*c['n']
    v = mask.falco_gen_vortex_mask(c['ch'], n)
    a = np.arange(n) - n//2
    th = np.arctan2(a[:, None], a[None, :])
    close(v, np.exp(1j*c['ch']*th), 1e-12, msg='vortex phase')
    rec.nontrivial(c['ch'] != 0 and n > 2)


# ------------------------------------------------------------------ telescope pupils: the geometry itself
def ell(cx, cy, rx, ry):
    return lambda U, V: ((U - cx)/rx)**2 + ((V - cy)/ry)**2 <= 1


def bar(cx, cy, length, w, deg):
    def f(U, V):
        P, Q = rot(U - cx, V - cy, deg)
        return (np.abs(P) <= length/2) & (np.abs(Q) <= w/2)
    return f


def wedge(cx, cy, mid, half):
    def f(U, V):
        t = np.arctan2(V - cy, U - cx) - mid
        return np.abs((t + np.pi) % (2*np.pi) - np.pi) <= half
    return f


OD = 2*4027.25
STRUT1 = np.array([[843.9, 550.85], [728., 580.35], [47.5, -970.65], [-192., -1097.15], [-676., 605.55], [-816.65, 458.85]])/OD
STRUT2 = np.array([[1579.9, 3866.85], [3988., -511.65], [2429.7, -3214.65], [-2484., -3256.15], [-3988., -504.45], [-1572.65, 3866.85]])/OD
WIDTHS = np.array([257., 259., 258., 258., 259., 257.])/OD
P180718 = dict(w=3.219259259259259e-02, ang=[43.08638741879215, 18.28091850580443, -77.36372240624411, 77.46228722667239, -18.33049685311381, -43.10697246349373],
               x=[.1637164789600492, .3311169704392094, .1542050924925356, -.1556442459316893, -.3075636241385107, -.1712399202747162],
               y=[.2695837795868052, .007744558909460633, -.2885875977555251, -.2874651682155463, -.0007319997758726773, .2748434070552074],
               t0=[1.81577498992176, -.3487710035839058, -2.416523875732038], t1=[1.344727938801013, -.752730051, -2.822938064533701])


def roman_parts(c):
    """(transmitting shapes, blocking shapes, shapes nobody judges) in pupil diameters"""
    pad = dict.fromkeys(('OD', 'COBS', 'COBStabs', 'strut'), 0.)
    for k in c['pads']:
        for q in (pad if k == 'all' else [k]):
            pad[q] += c['p']
    w = [c['wS']]*6 if c['wS'] else WIDTHS
    mid, d = (STRUT1 + STRUT2)/2, STRUT2 - STRUT1
    struts = [bar(mid[i][0], mid[i][1], .55, w[i] + 2*pad['strut'], np.degrees(np.arctan2(d[i][1], d[i][0]))) for i in range(6)]
    if c['kind'] == 'lyot_roman':
        return [ell(0, 0, c['OD']/2, c['OD']/2)], [ell(0, 0, c['ID']/2, c['ID']/2)] + struts, []
    tabs, loose = [], []
    for i, (rx, ry, cy, a) in enumerate([(1343, 1353, 53.85, .616), (1343, 1353, 53.85, 2.54), (1364, 1374, 67.6, -1.57)]):
        e = ell(0, cy/OD, rx/OD + pad['COBStabs'], ry/OD + pad['COBStabs'])
        s = wedge(0, -cy/OD, a, 1.25*np.pi/16)
        tabs.append(lambda U, V, e=e, s=s: e(U, V) & s(U, V))
        loose.append(lambda U, V, e=e, s=wedge(0, -cy/OD, a, 1.25*np.pi/16 + .03), t=wedge(0, -cy/OD, a, 1.25*np.pi/16 - .03): e(U, V) & s(U, V) & ~t(U, V))
    return ([ell(0, 0, 3990/OD - pad['OD'], .5 - pad['OD'])],
            [ell(0, -2.95/OD, 1209.65/OD + pad['COBS'], 1220/OD + pad['COBS'])] + struts + tabs, loose)


def wfirst_parts(c):
    pad = dict.fromkeys(('OD', 'COBS', 'COBStabs', 'strut'), 0.)
    for k in c['pads']:
        for q in (pad if k == 'all' else [k]):
            pad[q] += c['p']
    g = P180718
    struts = [bar(g['x'][i], g['y'][i], .55, (c['wS'] or g['w']) + 2*pad['strut'], g['ang'][i]) for i in range(6)]
    tab = ell(-1.97e-4, -6.25e-3, .1572039473684211 + pad['COBStabs'], .1572039473684211 + pad['COBStabs'])
    tabs, loose = [], []
    for a, b in zip(g['t1'], g['t0']):
        s = wedge(1.97e-4, 6.25e-3, (a + b)/2, (b - a)/2)
        # the apex of its sectors stays put when the mask is clocked or magnified
        tabs.append(lambda U, V, s=s: tab(U, V) & s(U, V))
        loose.append(lambda U, V, s=wedge(1.97e-4, 6.25e-3, (a + b)/2, (b - a)/2 + .06), t=wedge(1.97e-4, 6.25e-3, (a + b)/2, (b - a)/2 - .06): tab(U, V) & s(U, V) & ~t(U, V))
    return ([ell(8.68e-6, 8.68e-6, .5000651041666665 - pad['OD'], .5000651041666665 - pad['OD'])],
            [ell(-1.1556e-4, -6.1333e-4, .1515066666666666 + pad['COBS'], .1515066666666666 + pad['COBS'])] + struts + tabs, loose)


def hexes(nr, flat, gap, D, skip_centre):
    sep, ctr = (flat + gap)/D, []
    for q in range(-nr, nr + 1):
        for r in range(-nr, nr + 1):
            d = max(abs(q), abs(r), abs(q + r))
            corner = d == nr and 0 in (q, r, q + r)
            if d <= nr and not corner and not (skip_centre and d == 0):
                ctr.append((sep*np.cos(np.pi/6)*q, sep*(r + q/2)))
    a = flat/D/2

    def f(U, V):
        out = np.zeros(np.shape(U), bool)
        for x, y in ctr:
            u, v = U - x, V - y
            out |= (np.abs(v) <= a) & (np.abs(u*np.cos(np.pi/6) + v/2) <= a) & (np.abs(u*np.cos(np.pi/6) - v/2) <= a)
        return out
    return f


def luvoir_parts(c):
    gap = c['gap'] or 6e-3
    if c['kind'] == 'luvoirB':
        D = (8*.955 + 7*gap)/.96075
        return [hexes(4, .955, gap, D, False)], [], []
    D = 12*1.2225 + 11*gap
    w = .15/D if c['wS'] is None else c['wS']
    h = 1.2225/np.sqrt(3)/D
    struts = [bar(0, .25, 7*1.2225/D, w, 90), bar(1.5*h, -11*np.sqrt(3)/4*h, (np.sqrt(93) + .5)*h, w, 102.7),
              bar(-1.5*h, -11*np.sqrt(3)/4*h, (np.sqrt(93) + .5)*h, w, 77.3)] if w > 0 else []
    if c['kind'] == 'lyot_luvoirA':
        return [ell(0, 0, c['OD']/2, c['OD']/2)], [ell(0, 0, c['ID']/2, c['ID']/2)] + struts, []
    return [hexes(6, 1.2225, gap, D, True)], struts, []


@F.facet(st.fixed_dictionaries({'kind': st.sampled_from(['roman', 'roman', 'roman', 'wfirst', 'lyot_roman', 'luvoirA', 'luvoirA', 'lyot_luvoirA', 'luvoirB']), 'nb': st.one_of(st.integers(50, 80), st.floats(50, 80)), 'cen': CEN,
                                'clk': st.one_of(st.none(), st.floats(-400, 400), st.floats(-30, 30)), 'xs': st.one_of(st.none(), st.floats(-.1, .1)), 'ys': st.one_of(st.none(), st.floats(-.1, .1)),
                                'mag': st.one_of(st.none(), st.floats(.7, 1.2)), 'pads': st.lists(st.sampled_from(['all', 'OD', 'COBS', 'COBStabs', 'strut']), max_size=2, unique=True), 'p': st.floats(.002, .02),
                                'wS': st.one_of(st.none(), st.floats(.02, .06)), 'gap': st.one_of(st.none(), st.floats(.002, .05)), 'ID': st.floats(.2, .5), 'OD': st.floats(.7, 1.), 'vec': st.booleans()}),
         quick=56, thorough=1200)
def telescope_geometry(c, rec):
    """telescope pupils and their Lyot stops are the published geometry, clocked, magnified, sheared, padded and with changed struts; whatever is not asked for is nominal"""
    kind, nb = c['kind'], c['nb']
    c = dict(c)
    roman = kind in ('roman', 'lyot_roman', 'wfirst')
    if kind == 'luvoirB':
        c['clk'] = None              # its array only fits the unclocked aperture
    if kind == 'wfirst' and c['clk'] is not None:
        c['clk'] = max(min(c['clk'], 15.), -15.)
    if not roman and c['wS'] is not None and c['mag'] is not None:
        c['mag'] = None              # a given strut width is not magnified
    k = {a: c[b] for a, b in (('clock_deg', 'clk'), ('xShear', 'xs'), ('yShear', 'ys'), ('magFac', 'mag')) if c[b] is not None}
    if kind.startswith('lyot'):
        k.update(flagLyot=True, ID=c['ID'], OD=c['OD'])
        c['pads'] = [q for q in c['pads'] if q in ('all', 'strut')]
    if roman:
        k.update({'pad_' + q: c['p'] for q in c['pads']})
        if c['wS']:
            k.update({'wStrutVec': np.full(6, c['wS'])} if c['vec'] else {'wStrut': c['wS']})
        good, bad, loose = (wfirst_parts if kind == 'wfirst' else roman_parts)(c)
        fn = mask.falco_gen_pupil_WFIRST_CGI_180718 if kind == 'wfirst' else mask.falco_gen_pupil_Roman_CGI_20200513
        got = fn(nb, c['cen'], k) if k else fn(nb, c['cen'])
    else:
        if c['gap'] is not None:
            k['wGap_m'] = c['gap']
        if c['wS'] is not None and kind != 'luvoirB':
            k['wStrut'] = c['wS']
        good, bad, loose = luvoir_parts(c)
        k['Nbeam'] = nb
        if c['cen'] != 'pixel' or c['vec']:
            k['centering'] = c['cen']
        got = (mask.falco_gen_pupil_LUVOIR_B if kind == 'luvoirB' else mask.falco_gen_pupil_LUVOIR_A_final)(k)
    mag, clk = c['mag'] or 1., c['clk'] or 0.

    def frame(X, Y):
        U, V = rot(X - (c['xs'] or 0.), Y - (c['ys'] or 0.), clk)
        return U/mag, V/mag

    def light(X, Y):
        U, V = frame(X, Y)
        return np.all([f(U, V) for f in good], axis=0) & ~np.any([f(U, V) for f in bad] + [np.zeros(np.shape(U), bool)], axis=0)
    x = coords(got.shape[0], nb, c['cen'])
    r = real(5, (2, 5*len(x), 5*len(x)))
    r = (np.abs(r) % 1 - .5)/(5*nb)             # or gaps between segments would align with the samples
    ref = coverage(lambda X, Y: light(X + r[0], Y + r[1]), x, 5)
    skip = coverage(lambda X, Y: np.any([f(*frame(X, Y)) for f in loose] + [np.zeros(np.shape(X), bool)], axis=0), x, 3) > 0
    if loose:
        s = skip.copy()              # and their neighbours
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                s |= np.roll(skip, (a, b), (0, 1))
        skip = s
    one = lambda f: coverage(lambda X, Y: f(*frame(X, Y)), x, 5)
    # dark by one feature alone: where two share a pixel their coverages multiply
    none = (np.any([one(f) == 0 for f in good], axis=0) | np.any([one(f) == 1 for f in bad] + [np.zeros(ref.shape, bool)], axis=0)) & ~skip
    full = (ref == 1) & ~skip
    need(np.all(got > -1e-9) and np.all(got < 1 + 1e-9), 'transmission outside 0 to 1')
    i = np.argwhere(full & (got < (.84 if roman else .7)))
    need(len(i) == 0, '%s: %d pixels inside the pupil are not clear, e.g. %s: %g', kind, len(i), i[:1], got[tuple(i[0])] if len(i) else 0)
    i = np.argwhere(none & (got > .16))
    need(len(i) == 0, '%s: %d pixels outside the pupil pass light, e.g. %s: %g', kind, len(i), i[:1], got[tuple(i[0])] if len(i) else 0)
    e = ~skip & ~full & ~none
    d = np.abs(got - ref)[e]
    need(np.mean(d) < .06, '%s: edge pixels off by %.3f on average', kind, np.mean(d))
    need(abs(np.sum(got[~skip]) - np.sum(ref[~skip])) < .02*e.sum() + 1, '%s: area %g, expected %g', kind, np.sum(got[~skip]), np.sum(ref[~skip]))
    rec.nontrivial(bool(k))
    rec.label(kind)

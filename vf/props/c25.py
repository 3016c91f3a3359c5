"""C25: segmented mirrors have the segments asked for, where they belong."""
import functools
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet
import falco
from falco import proper

F = Facets('C25', rule='rings, gaps, missing segments, pistons, tilts and modes of segmented mirrors drawn at random and rendered pixel by pixel from '
           'the hexagonal lattice; non-trivial = at least one ring with a missing or aberrated segment',
           assumptions=['pixels within one hundredth of a segment of an edge are not judged', 'even arrays'])
S3 = np.sqrt(3.)


def lattice(rings, sep):
    """(row, column) of the segments: ring by ring, each from the one at the top through the negative columns first"""
    out = [(0., 0.)]
    for k in range(1, rings + 1):
        corners = [(k*sep*np.cos(a), -k*sep*np.sin(a)) for a in np.arange(6)*np.pi/3]
        for f in range(6):
            (r0, c0), (r1, c1) = corners[f], corners[(f + 1) % 6]
            out += [(r0 + (r1 - r0)*i/k, c0 + (c1 - c0)*i/k) for i in range(k)]
    return out


def extent(y, x, flat):
    """distance from the centre of a hexagon with flats across rows, in units of its half width"""
    return np.maximum(np.abs(y), np.maximum(np.abs(y/2 + x*S3/2), np.abs(y/2 - x*S3/2)))/(flat/2)


SEG = {'rings': st.integers(0, 4), 'dia': st.floats(30, 130), 'gap': st.sampled_from([0., 1., 2.3]), 'N': st.sampled_from([96, 128, 150]), 'seed': st.integers(0, 10**6),
       'missing': st.sampled_from([None, 'one', 'many']), 'phase': st.booleans()}


def mirror(c):
    r = rng(c['seed'])
    n = 3*c['rings']*(c['rings'] + 1) + 1
    d = {'apDia': c['dia'], 'wGap': c['gap'], 'numRings': c['rings'], 'Npad': c['N']}
    here = np.ones(n)
    if c['missing'] == 'one':
        here[r.integers(n)] = 0
    elif c['missing'] == 'many':
        here = r.integers(0, 2, n).astype(float)
    if c['missing']:
        d['missingSegments'] = here.copy()
    if c['phase']:
        d['pistons'], d['tiltxs'], d['tiltys'] = r.uniform(-1, 1, n), r.uniform(-3, 3, n), r.uniform(-3, 3, n)
    return d, here


def expected(d, here, off=(0., 0.)):
    """field of the mirror and where it is certain"""
    N = d['Npad']
    y, x = np.mgrid[-(N//2):N//2, -(N//2):N//2].astype(float)
    flat = (d['apDia'] - 2*d['numRings']*d['wGap'])/(2*d['numRings'] + 1)
    E, sure = np.zeros((N, N), complex), np.ones((N, N), bool)
    for k, (r0, c0) in enumerate(lattice(d['numRings'], flat + d['wGap'])):
        dy, dx = y - r0 - off[0], x - c0 - off[1]
        e = extent(dy, dx, flat)
        if here[k]:
            sure &= np.abs(e - 1) > .012
            ph = 0.
            if 'pistons' in d:
                ph = d['pistons'][k] + (d['tiltxs'][k]*dx + d['tiltys'][k]*dy)/d['apDia']
            E[e < 1] = (np.exp(2j*np.pi*ph)*np.ones((N, N)))[e < 1]
    return E, sure


@F.facet(st.fixed_dictionaries(dict(SEG, off=st.one_of(st.none(), st.tuples(st.floats(-6, 6), st.floats(-6, 6)).map(list)))), quick=160, thorough=3000)
def segments(c, rec):
    """support and field have the present segments of the lattice, each with its piston and tilt, and nothing else"""
    d, here = mirror(c)
    n = here.size
    need(falco.hexsegmirror.count_segments(c['rings']) == n, 'count of segments')
    rec.nontrivial(c['rings'] > 0 and (not here.all() or c['phase']))
    rec.label('missing', not here.all())
    s = dict(d)
    off = (0., 0.)
    if c['off'] is not None:
        s['offset'] = off = c['off']
    got = falco.hexsegmirror.get_support(s)
    E, sure = expected({k: v for k, v in s.items() if k != 'pistons'}, here, off)
    need(np.all(np.abs(got - E)[sure] < 1e-4), 'support differs by %.3g', np.abs(got - E)[sure].max() if sure.any() else 0)
    need(got.shape == E.shape, 'shape')
    if c['phase']:
        got = falco.hexsegmirror.get_field(d)
        E, sure = expected(d, here)
        need(got.shape == E.shape, 'shape of the field')
        need(np.all(np.abs(got - E)[sure] < 1e-4), 'field differs by %.3g', np.abs(got - E)[sure].max() if sure.any() else 0)


@F.facet(st.fixed_dictionaries(dict(SEG, OD=st.sampled_from([1., .9, 1.2]), ID=st.sampled_from([0., .2, .35]), strut=st.sampled_from([None, 0., .02, .06]),
                                    angles=st.lists(st.sampled_from([0., 30., 90., 135., 200., 270.]), min_size=0, max_size=4, unique=True))), quick=120, thorough=2500)
def pupil(c, rec):
    """the custom pupil is the segmented mirror inside the outer circle, outside the inner circle and beside the struts"""
    d, here = mirror(c)
    p = dict(d, Nbeam=c['dia'], OD=c['OD'], ID=c['ID'])
    del p['apDia']
    if c['strut'] is not None:
        p['wStrut'], p['angStrut'] = c['strut'], c['angles']
    got = falco.mask.falco_gen_pupil_customHex(p)
    E, sure = expected(d, here)
    N = c['N']
    y, x = np.mgrid[-(N//2):N//2, -(N//2):N//2].astype(float)
    R = c['dia']/2
    r = np.hypot(x, y)/R
    sure &= (np.abs(r/c['OD'] - 1) > .012)
    E[r > c['OD']] = 0
    if c['ID']:
        sure &= np.abs(r/c['ID'] - 1) > .012
        E[r < c['ID']] = 0
    if c['strut']:
        half = c['strut']*R
        for a in np.radians(c['angles']):
            ahead, side = (x*np.cos(a) + y*np.sin(a))/half, np.abs(y*np.cos(a) - x*np.sin(a))/half
            # the strut begins at the centre
            sure &= ~((np.abs(side - 1) < .12) & (ahead > -1e-9)) & ~((np.abs(ahead) < 1e-9) & (side < 1.12))
            E[(side < 1) & (ahead > 0)] = 0
    rec.nontrivial(c['rings'] > 0 and bool(c['ID'] or c['strut'] or not here.all()))
    rec.label('struts', bool(c['strut'] and c['angles']))
    need(got.shape == E.shape, 'shape')
    need(np.all(np.abs(got - E)[sure] < 1e-3), 'pupil differs by %.3g', np.abs(got - E)[sure].max() if sure.any() else 0)


# ---- PROPER's segmented wavefront ------------------------------------------------------------------------------

@functools.lru_cache(None)
def polynomials():
    """the 22 polynomials orthonormal over a hexagon with a vertex on the x axis, as coefficients of x^i y^j"""
    m = 401
    g = (np.arange(m) - m//2)/(m//2)
    X, Y = np.meshgrid(g, g)
    w = np.clip((1 - extent(Y, X, S3))*(m//2)*S3/2 + .5, 0, 1)
    w /= w.sum()
    rr, th = np.hypot(X, Y), np.arctan2(Y, X)
    noll = []
    n = 0
    while len(noll) < 22:
        for mm in range(n % 2, n + 1, 2):
            noll += [(n, 0)] if mm == 0 else [(n, mm), (n, mm)]
        n += 1
    base = []
    for j, (n, mm) in enumerate(noll[:22]):
        from math import factorial as f
        R = sum((-1)**s*f(n - s)/(f(s)*f((n + mm)//2 - s)*f((n - mm)//2 - s))*rr**(n - 2*s) for s in range((n - mm)//2 + 1))
        base.append(R*(np.cos(mm*th) if (j + 1) % 2 == 0 else np.sin(mm*th) if mm else 1))
    out, coef = [], np.zeros((22, 22))
    for j, b in enumerate(base):
        v, k = b.copy(), np.zeros(22)
        k[j] = 1
        for i in range(j):
            a = np.sum(w*v*out[i])
            v = v - a*out[i]
            k -= a*coef[i]
        nrm = np.sqrt(np.sum(w*v*v))
        out.append(v/nrm)
        coef[j] = k/nrm
    return noll[:22], coef


def hexmode(j, x, y):
    """Noll-ordered hexagonal mode j (from 1) at x, y in vertex radii"""
    from math import factorial as f
    noll, coef = polynomials()
    rr, th = np.hypot(x, y), np.arctan2(y, x)
    if j == 18:     # as printed in the reference the routine cites, where this one mode is not quite orthogonal
        return 4*np.sqrt(385/295894589.)*(4365*rr**5 - 3322*rr**3)*np.cos(3*th)
    out = 0
    for i, (n, mm) in enumerate(noll):
        if coef[j-1, i]:
            R = sum((-1)**s*f(n - s)/(f(s)*f((n + mm)//2 - s)*f((n - mm)//2 - s))*rr**(n - 2*s) for s in range((n - mm)//2 + 1))
            out = out + coef[j-1, i]*R*(np.cos(mm*th) if (i + 1) % 2 == 0 else np.sin(mm*th) if mm else 1)
    return out


def inside(x, y, rad):
    return extent(y, x, S3*rad)


@F.facet(st.fixed_dictionaries({'n': st.sampled_from([64, 96, 128]), 'rad': st.floats(6, 40), 'rot': st.sampled_from([None, 0., 30., -17.]), 'xc': st.floats(-70, 70), 'yc': st.floats(-70, 70), 'centred': st.booleans(),
                                'modes': st.lists(st.integers(1, 22), min_size=1, max_size=5, unique=True), 'seed': st.integers(0, 10**6)}), quick=150, thorough=3000)
def modes(c, rec):
    """hexagonal modes are the polynomials orthonormal over the hexagon, about its own centre and axes"""
    dx = .01
    k = {} if c['rot'] is None else {'ROTATION': c['rot']}
    pos = () if c['centred'] else (c['xc']*dx, c['yc']*dx)
    xc, yc = (0, 0) if c['centred'] else (c['xc'], c['yc'])
    a = rng(c['seed']).uniform(-1, 1, len(c['modes']))
    got = proper.prop_hex_zernikes(c['modes'], a, c['n'], dx, c['rad']*dx, *pos, **k)
    n = c['n']
    y, x = np.mgrid[-(n//2):n//2, -(n//2):n//2].astype(float)
    t = np.radians(c['rot'] or 0.)
    u, v = ((x - xc)*np.cos(t) + (y - yc)*np.sin(t))/c['rad'], (-(x - xc)*np.sin(t) + (y - yc)*np.cos(t))/c['rad']
    inn = inside(u, v, 1.) < 1
    rec.nontrivial(inn.sum() > 30 and c['modes'] != [1])
    rec.label('partly outside', np.abs([xc, yc]).max() + c['rad'] > n/2)
    need(got.shape == (n, n), 'shape')
    want = sum(ai*hexmode(j, u, v) for ai, j in zip(a, c['modes']))*np.ones((n, n))
    d = np.abs(got - want)[inn]
    need(d.size == 0 or d.max() < 1e-2*max(1, np.abs(want[inn]).max()), 'modes %s differ by %.3g of %.3g', c['modes'], d.max() if d.size else 0, np.abs(want[inn]).max() if d.size else 0)


@F.facet(st.fixed_dictionaries({'n': st.sampled_from([96, 128]), 'rings': st.integers(0, 3), 'gap': st.sampled_from([0., .1, .3]), 'fill': st.floats(.3, 1.15), 'rot': st.sampled_from([None, 0., 30., 11.]),
                                'off': st.one_of(st.none(), st.tuples(st.floats(-.2, .2), st.floats(-.2, .2)).map(list)), 'dark': st.sampled_from([None, True, False]), 'apply': st.sampled_from([None, True, False]),
                                'omit': st.lists(st.integers(0, 36), max_size=4), 'noomit': st.booleans(), 'phase': st.sampled_from([None, 'zero', 'one', 'all']), 'seed': st.integers(0, 10**6)}), quick=150, thorough=2500, timeout=60)
def wavefront(c, rec):
    """a segmented wavefront has every segment that is not omitted or darkened, with its own modes, and is put on the wavefront unless asked not to"""
    r = rng(c['seed'])
    n, lam = c['n'], 6e-7
    nh = 3*c['rings']*(c['rings'] + 1) + 1
    with quiet():
        wf = proper.prop_begin(1., lam, n, .8)
        wf.wfarr = wf.wfarr*r.uniform(.5, 1, (n, n))
    dx = proper.prop_get_sampling(wf)
    before = proper.prop_get_wavefront(wf).copy()
    D = n*dx*c['fill']
    rad = D/2/(1 + 2*c['rings'])/1.1
    sep = S3*rad*(1 + c['gap'])
    Z = None
    k = {}
    if c['phase']:
        Z = np.zeros((22, nh))
        if c['phase'] == 'one':
            Z[r.integers(22), r.integers(nh)] = 3e-8
        elif c['phase'] == 'all':
            Z = r.uniform(-1, 1, (22, nh))*1e-8
    if c['rot'] is not None:
        k['ROTATION'] = c['rot']
    if c['off'] is not None:
        k['XCENTER'], k['YCENTER'] = c['off'][0]*D/4, c['off'][1]*D/4
    if c['dark'] is not None:
        k['DARKCENTER'] = c['dark']
    if c['apply'] is not None:
        k['NO_APPLY'] = c['apply']
    omit = [] if c['noomit'] else [i for i in c['omit'] if i < nh]
    if not c['noomit']:
        k['OMIT'] = omit
    out = proper.prop_hex_wavefront(wf, c['rings'], rad, sep, *([] if Z is None else [Z]), **k)
    aberrated = Z is not None and np.any(Z)
    rec.nontrivial(c['rings'] > 0 and bool(omit or aberrated or c['dark'] or c['rot']))
    rec.label('aberrated', aberrated)
    need(isinstance(out, tuple) == bool(aberrated), 'phase returned')
    ap, ph = out if aberrated else (out, np.zeros((n, n)))
    y, x = np.mgrid[-(n//2):n//2, -(n//2):n//2]*dx
    t = np.radians(c['rot'] or 0.)
    x, y = x - k.get('XCENTER', 0.), y - k.get('YCENTER', 0.)
    u, v = x*np.cos(t) + y*np.sin(t), -x*np.sin(t) + y*np.cos(t)
    W, P, sure = np.zeros((n, n)), np.zeros((n, n)), np.ones((n, n), bool)
    i = 0
    for col in range(c['rings'] + 1):
        for row in range(2*c['rings'] - col + 1):
            for side in ([1] if col == 0 else [1, -1]):
                xs, ys = side*col*sep*S3/2, (row - c['rings'] + col/2)*sep
                e = inside(u - xs, v - ys, 1.)
                mar = 1.0*dx
                if i not in omit:
                    sure &= np.abs(e - rad) > mar*1.2
                    if not (col == 0 and row == c['rings'] and c['dark']):
                        W[e < rad] = 1
                    if aberrated and np.any(Z[:, i]):
                        P[e < rad] = sum(Z[j, i]*hexmode(j + 1, (u - xs)/rad, (v - ys)/rad) for j in range(22) if Z[j, i])[e < rad] if np.any(Z[1:, i]) else Z[0, i]
                i += 1
    need(i == nh, 'count')
    need(np.all(np.abs(ap - W)[sure] < 1e-9), 'aperture differs by %.3g', np.abs(ap - W)[sure].max() if sure.any() else 0)
    area = ap.sum()*dx*dx
    drawn = nh - len(set(omit)) - (1 if c['dark'] and nh // 2 >= 0 and (c['rings'] not in omit if c['rings'] else 0 not in omit) else 0)
    if c['fill'] < .8 and (c['off'] is None):
        close(area, drawn*1.5*S3*rad**2, .02, 2*dx*dx, msg='area of %d segments' % drawn)
    need(np.all(np.abs(ph - P)[sure] <= 1e-2*max(np.abs(P).max(), 1e-12)), 'phase differs by %.3g of %.3g', np.abs(ph - P)[sure].max() if sure.any() else 0, np.abs(P).max())
    after = proper.prop_get_wavefront(wf)
    want = before if c['apply'] else before*ap*np.exp(2j*np.pi*ph/lam)
    close(after, want, 1e-10, 1e-12, msg='wavefront')

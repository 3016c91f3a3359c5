"""C06: software masks, dark-hole regions and spatial weights select exactly the requested pixels."""
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, rng
import falco
from falco import mask

F = Facets('C06', rule='regions drawn over shape, sides, radii, opening angle, clocking, offsets, field of view and '
           'sampling; non-trivial = the region selects some but not all pixels of the array',
           assumptions=['pixels within 1e-7 lambda/D (or 1e-7 rad) of a region edge are not judged'])
CEN = st.sampled_from(['pixel', 'interpixel'])
ONE = {'r': 0, 'right': 0, 'l': 180, 'left': 180, 't': 90, 'top': 90, 'u': 90, 'up': 90, 'b': 270, 'bottom': 270,
       'd': 270, 'down': 270}
TWO = {'lr': 0, 'rl': 0, 'leftright': 0, 'rightleft': 0, 'both': 0, 'tb': 90, 'bt': 90, 'ud': 90, 'du': 90,
       'topbottom': 90, 'bottomtop': 90, 'updown': 90, 'downup': 90}
TOL = 1e-7


def region(X, Y, z):
    """(inside, judged) of a zone, from the definition of the region."""
    x, y = X - z.get('xiOffset', 0), Y - z.get('etaOffset', 0)
    side = z['whichSide']
    clk = np.radians((ONE.get(side, TWO.get(side))) + z.get('clockAngDeg', 0))
    U, V = np.cos(clk)*x + np.sin(clk)*y, -np.sin(clk)*x + np.cos(clk)*y
    R = np.hypot(x, y)
    rin, rout = z['rhoInner'], z['rhoOuter']
    shape = z.get('shape', 'circle').lower()
    if shape in ('circle', 'annulus'):
        conds = [R - rin, rout - R]
    elif shape == 'square':
        conds = [R - rin, rout - abs(U), rout - abs(V)]
    elif shape in ('rect', 'rectangle'):
        conds = [abs(U) - rin, rout - abs(U), rout - abs(V)]
    else:
        conds = [abs(U) - rin, rout - R]
    ang = abs(np.arctan2(V, U))
    half = np.radians(z['angDeg'])/2
    if side in TWO:
        ang = np.minimum(ang, np.pi - ang)
    full = half >= (np.pi/2 if side in TWO else np.pi)
    inside = np.ones(X.shape, bool)
    judged = np.ones(X.shape, bool)
    if not full:
        conds.append(half - ang)
        judged &= R > 1e-9
    for q in conds:
        inside &= q >= 0
        judged &= abs(q) > TOL
    # a boundary pixel that fails another condition clearly is still outside
    for q in conds:
        judged |= q < -TOL
    if not full:
        judged &= R > 1e-9
    return inside, judged


def axis(n, res, cen):
    return (np.arange(n) - n/2 + (0.5 if cen == 'interpixel' else 0))/res


zone = st.fixed_dictionaries(
    {'rhoInner': st.one_of(st.just(0), st.floats(0, 5)), 'dr': st.floats(0.5, 8),
     'angDeg': st.one_of(st.sampled_from([180, 360, 65, 90, 140]), st.floats(5, 200)),
     'whichSide': st.sampled_from(sorted(ONE) + sorted(TWO)),
     'shape': st.sampled_from(['circle', 'annulus', 'square', 'rect', 'rectangle', 'd', 'D', 'Square']),
     'clockAngDeg': st.one_of(st.just(0), st.floats(-180, 180), st.sampled_from([45, 90, -30])),
     'xiOffset': st.one_of(st.just(0), st.floats(-5, 5)), 'etaOffset': st.one_of(st.just(0), st.floats(-5, 5))})


def mk(z):
    z = dict(z)
    z['rhoOuter'] = z['rhoInner'] + z.pop('dr')
    return z


@F.facet(st.fixed_dictionaries({'z': zone, 'res': st.one_of(st.integers(1, 6), st.floats(1, 6)), 'cen': CEN,
                                'drop': st.integers(0, 15), 'sz': st.sampled_from(['none', 'none', 'FOV', 'xieta', 'N']),
                                'fov': st.floats(2, 15), 'fov2': st.floats(2, 15)}), quick=700, thorough=20000)
def single_region(c, rec):
    """one region: pixels, axes and array size follow the geometric definition"""
    z = mk(c['z'])
    for i, k in enumerate(['shape', 'clockAngDeg', 'xiOffset', 'etaOffset']):
        if c['drop'] >> i & 1:
            z.pop(k)
    inp = dict(z, pixresFP=c['res'], centering=c['cen'])
    if c['sz'] == 'FOV':
        inp['FOV'] = c['fov']
    elif c['sz'] == 'xieta':
        inp['xiFOV'], inp['etaFOV'] = c['fov'], c['fov2']
    elif c['sz'] == 'N':
        inp['Nxi'], inp['Neta'] = 2*int(c['fov']), 2*int(c['fov2'])
    keep = dict(inp)
    m, xis, etas = mask.falco_gen_SW_mask(inp)
    need(inp == keep, 'the input dictionary was changed')
    need(m.shape == (len(etas), len(xis)), 'mask shape %s vs axes %s', m.shape, (len(etas), len(xis)))
    need(m.shape[0] % 2 == 0 and m.shape[1] % 2 == 0, 'array is not even-sized: %s', m.shape)
    if c['sz'] == 'N':
        need(m.shape == (inp['Neta'], inp['Nxi']), 'explicit size not honoured')
    else:
        # the array spans at least the requested field of view
        fx = c['fov'] if c['sz'] in ('FOV', 'xieta') else z['rhoOuter']
        fy = c['fov2'] if c['sz'] == 'xieta' else fx
        need(m.shape[1] >= 2*fx*c['res'] - 1e-6 and m.shape[0] >= 2*fy*c['res'] - 1e-6, 'FOV smaller than requested')
    close(xis, axis(len(xis), c['res'], c['cen']), 1e-12, 1e-12, 'horizontal axis')
    close(etas, axis(len(etas), c['res'], c['cen']), 1e-12, 1e-12, 'vertical axis')
    X, Y = np.meshgrid(xis, etas)
    ins, jud = region(X, Y, z)
    bad = jud & (ins != m.astype(bool))
    need(not bad.any(), '%d of %d pixels wrong, first at xi,eta=%s', bad.sum(), m.size,
         (X[bad][:1], Y[bad][:1]))
    need(set(np.unique(m.astype(float))) <= {0.0, 1.0}, 'mask is not binary')
    if c['sz'] == 'none' or (c['sz'] == 'FOV' and c['fov'] >= z['rhoOuter']):
        # nothing of the region lies outside the array
        nx, ny = m.shape[1] + 2*int(3*c['res']) + 20, m.shape[0] + 2*int(3*c['res']) + 20
        XX, YY = np.meshgrid(axis(nx, c['res'], c['cen']), axis(ny, c['res'], c['cen']))
        i2, j2 = region(XX, YY, z)
        out = np.ones_like(i2)
        oy, ox = (ny - m.shape[0])//2, (nx - m.shape[1])//2
        out[oy:oy + m.shape[0], ox:ox + m.shape[1]] = False
        need(not (i2 & j2 & out).any(), 'array too small: %d region pixels cut off', (i2 & j2 & out).sum())
    rec.nontrivial(0 < m.sum() < m.size)
    rec.label(z.get('shape', 'circle').lower())


def mkmp(c):
    mp = falco.config.ModelParameters()
    mp.centering = c['cen']
    mp.Fend.res = c['res']
    zs = [mk(z) for z in c['zones']]
    if c['scalar'] and len(zs) == 1:
        def wrap(v):
            return v[0]
    else:
        def wrap(v):
            return list(v)
    mp.Fend.corr = falco.config.Object()
    mp.Fend.score = falco.config.Object()
    mp.Fend.corr.Rin = wrap([z['rhoInner'] for z in zs])
    mp.Fend.corr.Rout = wrap([z['rhoOuter'] for z in zs])
    mp.Fend.corr.ang = wrap([z['angDeg'] for z in zs])
    mp.Fend.score.Rin = wrap([z['rhoInner'] + a for z, a in zip(zs, c['in'])])
    mp.Fend.score.Rout = wrap([z['rhoOuter'] + b for z, b in zip(zs, c['out'])])
    mp.Fend.score.ang = wrap([z['angDeg']*g for z, g in zip(zs, c['angf'])])
    mp.Fend.sides = wrap([z['whichSide'] for z in zs])
    mp.Fend.FOV = max(z['rhoOuter'] for z in zs) + c['fov']
    use = c['use']
    if use & 1:
        mp.Fend.shape = wrap([z['shape'] for z in zs])
    if use & 2:
        mp.Fend.clockAngDeg = wrap([z['clockAngDeg'] for z in zs])
    if use & 4:
        mp.Fend.xiOffset = wrap([z['xiOffset'] for z in zs])
    if use & 8:
        mp.Fend.etaOffset = wrap([z['etaOffset'] for z in zs])
    mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.res = c['eres']
    mp.thput_eval_x, mp.thput_eval_y = c['tx'], c['ty']
    ref = []
    for z, a, b, g in zip(zs, c['in'], c['out'], c['angf']):
        w = dict(z)
        if not use & 1:
            w.pop('shape')
        for k, bit in (('clockAngDeg', 2), ('xiOffset', 4), ('etaOffset', 8)):
            if not use & bit:
                w.pop(k)
        ref.append((w, dict(w, rhoInner=w['rhoInner'] + a, rhoOuter=w['rhoOuter'] + b, angDeg=w['angDeg']*g)))
    return mp, ref


small = st.floats(-0.5, 1.5)
DH = {'zones': st.lists(zone, min_size=1, max_size=3), 'cen': CEN, 'res': st.floats(1.5, 4), 'use': st.integers(0, 15),
      'in': st.lists(st.floats(0, 1), min_size=3, max_size=3), 'out': st.lists(small, min_size=3, max_size=3),
      'angf': st.lists(st.floats(.6, 1.1), min_size=3, max_size=3), 'fov': st.floats(0, 6), 'eres': st.floats(2, 8),
      'tx': st.floats(-6, 6), 'ty': st.floats(-6, 6), 'scalar': st.booleans()}


@F.facet(st.fixed_dictionaries(DH), quick=250, thorough=6000)
def dark_hole(c, rec):
    """correction/scoring regions are the unions of their zones, with consistent sizes, axes and counts"""
    mp, ref = mkmp(c)
    falco.setup.falco_configure_dark_hole_region(mp)
    corr, score = mp.Fend.corr.maskBool, mp.Fend.score.maskBool
    X, Y = np.meshgrid(axis(mp.Fend.Nxi, c['res'], c['cen']), axis(mp.Fend.Neta, c['res'], c['cen']))
    need(corr.shape == score.shape == X.shape, 'shapes %s %s %s', corr.shape, score.shape, X.shape)
    close(mp.Fend.xisDL, X[0], 1e-12, 1e-12, 'xisDL')
    close(mp.Fend.etasDL, Y[:, 0], 1e-12, 1e-12, 'etasDL')
    close(mp.Fend.RHOS, np.hypot(X, Y), 1e-12, 1e-12, 'RHOS')
    for got, k, nm in ((corr, 0, 'correction'), (score, 1, 'scoring')):
        ins = np.zeros(X.shape, bool)
        jud = np.ones(X.shape, bool)
        for r in ref:
            i, j = region(X, Y, r[k])
            ins |= i & j
            jud &= j
        bad = jud & (ins != got)
        need(not bad.any(), '%s region: %d pixels wrong', nm, bad.sum())
    need(mp.Fend.corr.Npix == corr.sum() and mp.Fend.score.Npix == score.sum(), 'pixel counts')
    sic = np.asarray(mp.Fend.scoreInCorr)
    v = np.zeros(corr.shape, bool)
    v[corr] = sic
    need(np.array_equal(v, corr & score), 'scoreInCorr does not mark the scoring pixels of the correction region')
    # no correction pixel is cut off by the array
    if True:
        n = 2*int(np.ceil(60*c['res']/2))
        nx = mp.Fend.Nxi + n
        ny = mp.Fend.Neta + n
        XX, YY = np.meshgrid(axis(nx, c['res'], c['cen']), axis(ny, c['res'], c['cen']))
        tot = 0
        cut = np.ones(XX.shape, bool)
        cut[n//2:n//2 + mp.Fend.Neta, n//2:n//2 + mp.Fend.Nxi] = False
        for r in ref:
            i, j = region(XX, YY, r[0])
            tot += (i & j & cut).sum()
        need(tot == 0, '%d correction pixels cut off', tot)
    # throughput-evaluation grid
    e = mp.Fend.eval
    for n, ne, ax in ((mp.Fend.Nxi, e.Nxi, e.xisDL), (mp.Fend.Neta, e.Neta, e.etasDL)):
        need(ne % 2 == 0 and ne >= n*c['eres']/c['res'] - 1e-6 and ne < n*c['eres']/c['res'] + 2, 'eval size %s for %s', ne, n)
        close(ax, axis(ne, c['eres'], c['cen']), 1e-12, 1e-12, 'eval axis')
    XE, YE = np.meshgrid(e.xisDL, e.etasDL)
    close(e.RHOS, np.hypot(XE - c['tx'], YE - c['ty']), 1e-12, 1e-12, 'eval radius from the throughput point')
    rec.nontrivial(0 < corr.sum() < corr.size)
    rec.label('zones%d' % len(ref))


@F.facet(st.fixed_dictionaries({**DH, 'W': st.lists(st.tuples(st.floats(0, 8), st.floats(0, 8), st.floats(0, 9)),
                                                    max_size=3),
                                'sw': st.lists(st.floats(0.1, 3), min_size=1, max_size=3)}),
         quick=120, thorough=2500)
def spatial_weights(c, rec):
    """spatial weight of a pixel = product over annuli holding it of the square root of the intensity weight"""
    mp, _ = mkmp(c)
    falco.setup.falco_configure_dark_hole_region(mp)
    mp.WspatialDef = np.array(c['W'], float) if c['W'] else []
    mp.compact = falco.config.Object()
    mp.compact.star = falco.config.Object()
    mp.compact.star.count = len(c['sw'])
    mp.jac = falco.config.Object()
    mp.jac.star = falco.config.Object()
    mp.jac.star.weights = list(c['sw'])
    falco.setup.falco_set_spatial_weights(mp)
    corr = mp.Fend.corr.maskBool
    X, Y = np.meshgrid(axis(mp.Fend.Nxi, c['res'], c['cen']), axis(mp.Fend.Neta, c['res'], c['cen']))
    R = np.hypot(X, Y)
    w = corr.astype(float)
    jud = np.ones(R.shape, bool)
    for lo, hi, v in c['W']:
        w[(R >= lo) & (R < hi)] *= np.sqrt(v)
        jud &= (abs(R - lo) > TOL) & (abs(R - hi) > TOL)
    close(np.where(jud, mp.Wspatial, 0), np.where(jud, w, 0), 1e-10, 1e-12, 'Wspatial')
    need(mp.WspatialVec.shape == (corr.sum(), len(c['sw'])), 'WspatialVec shape')
    for i, s in enumerate(c['sw']):
        close(np.where(jud[corr], mp.WspatialVec[:, i], 0), np.where(jud[corr], s*w[corr], 0), 1e-10, 1e-12, 'star weight')
    rec.nontrivial(bool(c['W']) and len(np.unique(np.round(w[corr], 9))) > 1)


@F.facet(st.fixed_dictionaries({'z': zone, 'bad': st.sampled_from(['side', 'shape', 'centering', 'notdict'])}),
         quick=30, thorough=200)
def rejects(c, rec):
    """unknown sides, shapes, centerings and non-dictionary inputs are rejected"""
    z = mk(c['z'])
    inp = dict(z, pixresFP=2, centering='pixel')
    rec.nontrivial(True)
    if c['bad'] == 'notdict':
        return raises(TypeError, mask.falco_gen_SW_mask, list(inp.items()))
    key = {'side': 'whichSide', 'shape': 'shape', 'centering': 'centering'}[c['bad']]
    inp[key] = 'banana'
    raises(ValueError, mask.falco_gen_SW_mask, inp)

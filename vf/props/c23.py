"""C23: setup turns the given parameters into one consistent instrument."""
import copy
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, rng, quiet
import modkit
import falco

F = Facets('C23', rule='small instruments drawn at random; a random subset of their optional settings is left out, or arrays of other sizes are given; '
           'non-trivial = a setting left out, an array resized, or mirrors in use that need padding',
           assumptions=['simulated instruments', 'Fourier or FPM-scaling layouts', 'even pupil arrays'])
O = falco.config.Object

# documented defaults (comments in falco/setup.py and the tutorial); value or function of mp
DEFAULTS = {
    'flagParallel': False, 'flagSaveWS': False, 'flagSVD': False, 'full.flagPROPER': False, 'flagRotation': True,
    'flagTrainModel': False, 'flagUseLearnedJac': False, 'est.flagUseJac': False, 'est.ItrStartKF': 2, 'ctrl.flagUseModel': False,
    'ctrl.ad.maxiter': 30, 'ctrl.ad.maxfun': 1000000, 'ctrl.ad.maxcor': 10, 'flagFiber': False, 'flagLenslet': False, 'flagDMwfe': False,
    'flagApod': False, 'runLabel': 'default_label_',
    'star.count': 1, 'star.xiOffsetVec': [0], 'star.etaOffsetVec': [0], 'star.weights': [1],
    'compact.star.count': 1, 'compact.star.xiOffsetVec': [0], 'compact.star.etaOffsetVec': [0], 'compact.star.weights': [1],
    'jac.star.weights': lambda mp: np.ones(mp.compact.star.count),
    'propMethodPTP': 'fft', 'jac.mftToVortex': False, 'F3.VortexSpotDiam': 0, 'F3.VortexSpotOffsets': [0, 0], 'F3.phaseMaskType': 'vortex',
    'F3.NstepStaircase': 6, 'F3.clocking': 0, 'F3.phaseScaleFac': 1, 'full.ZrmsVal': 1e-9, 'eval.Rsens': np.array([]),
    'eval.indsZnoll': np.array([2, 3]), 'flagImageNoise': False, 'detector.gain': 1., 'detector.darkCurrentRate': .015,
    'detector.readNoiseStd': 1.7, 'detector.wellDepth': 3e4, 'detector.peakFluxVec': lambda mp: 1e8*np.ones(mp.Nsbp),
    'detector.tExpVec': lambda mp: np.ones(mp.Nsbp), 'detector.Nexp': 1, 'WspatialDef': np.array([]), 'jac.minimizeNI': False,
    'jac.zerns': np.array([1]), 'jac.Zcoef': np.array([1]), 'est.InormProbeMax': 1e-4, 'est.Ithreshold': 1e-2,
    'Fend.eval.res': 10, 'P1.IDnorm': 0.,
    'P1.compact.E': lambda mp: np.ones((mp.P1.compact.mask.shape[0],)*2 + (mp.Nsbp,), complex),
    'P1.full.E': lambda mp: np.ones((mp.P1.full.mask.shape[0],)*2 + (mp.Nwpsbp, mp.Nsbp), complex)}
for _i in (1, 2):
    DEFAULTS.update({'dm%d.%s' % (_i, k): v for k, v in {
        'orientation': 'rot0', 'fitType': 'linear', 'dead': [], 'pinned': np.array([]), 'Vpinned': np.array([]), 'tied': np.zeros((0, 2)),
        'Vmin': 0., 'Vmax': lambda mp, _i=_i: 1000. if mp.flagSim else 100.,
        'dVnbrLat': lambda mp, _i=_i: getattr(mp, 'dm%d' % _i).Vmax, 'dVnbrDiag': lambda mp, _i=_i: getattr(mp, 'dm%d' % _i).Vmax,
        'biasMap': lambda mp, _i=_i: np.full((getattr(mp, 'dm%d' % _i).Nact,)*2, getattr(mp, 'dm%d' % _i).Vmax/2.),
        'facesheetFlatmap': lambda mp, _i=_i: np.array(getattr(mp, 'dm%d' % _i).biasMap),
        'surfFitMethod': 'lsq', 'useDifferentiableModel': False,
        'V': lambda mp, _i=_i: np.zeros((getattr(mp, 'dm%d' % _i).Nact,)*2)}.items()})
NAMES = list(DEFAULTS)


def vars_of(o):
    d = dict(vars(o))
    if isinstance(o, O):
        d.pop('data', None)
        d = dict(o.data, **d)
    return d


def node(mp, name, make=False):
    parts = name.split('.')
    o = mp
    for p in parts[:-1]:
        if make and not hasattr(o, p):
            setattr(o, p, O())
        o = getattr(o, p)
    return o, parts[-1]


def diff(a, b, path, out, depth=0):
    """list of paths where the two trees of settings differ"""
    if isinstance(a, (O,)) or (hasattr(a, '__dict__') and not isinstance(a, np.ndarray) and not callable(a)):
        if type(a) is not type(b):
            out.append(path + ' type')
            return
        da, db = vars_of(a), vars_of(b)
        for k in sorted(set(da) | set(db), key=str):
            if str(k).startswith('_'):
                continue
            if (k in da) != (k in db):
                out.append('%s.%s %s' % (path, k, 'missing' if k in da else 'extra'))
            elif depth < 6:
                diff(da[k], db[k], '%s.%s' % (path, k), out, depth + 1)
        return
    if isinstance(a, (dict, frozenset, set)) or callable(a) or a is None:
        if (isinstance(a, (dict, frozenset, set)) or a is None) and not (type(a) is type(b) and a == b):
            out.append(path)
        return
    if isinstance(a, str) or isinstance(b, str):
        if a != b:
            out.append('%s (%r, %r)' % (path, a, b))
        return
    try:
        x, y = np.asarray(a), np.asarray(b)
    except ValueError:
        return
    if x.dtype == object or y.dtype == object:
        return
    if x.shape != y.shape or not (x.size == 0 or (x.dtype.kind in 'US' and np.array_equal(x, y)) or
                                  (x.dtype.kind not in 'US' and np.allclose(x, y, rtol=1e-9, atol=0, equal_nan=True))):
        out.append(path)


def flesh(mp):
    with quiet():
        return falco.setup.flesh_out_workspace(mp)


SMALL = dict(Nact=st.sampled_from([4, 5]), Nbeam=st.sampled_from([16, 20]), Nwp=st.sampled_from([1, 2]), coro=st.sampled_from(['LC', 'FLC', 'VC']))


@F.facet(st.fixed_dictionaries({'c': modkit.base(**SMALL), 'out': st.lists(st.sampled_from(NAMES), min_size=1, max_size=30, unique=True),
                                'every': st.sampled_from([False, False, False, True]), 'sim': st.booleans(),
                                'vmax': st.sampled_from([[1000., 1000.], [90., 70.]])}), quick=80, thorough=1500, timeout=120)
def optional(c, rec):
    """an instrument with optional settings left out is the instrument with their documented defaults given"""
    out = NAMES if c['every'] else list(c['out'])
    for g in ('star', 'compact.star'):  # these describe the same stars: all or none
        if any(n.rpartition('.')[0] == g for n in out):
            out = out + [n for n in NAMES if n.rpartition('.')[0] == g and n not in out]
    base, _ = modkit.build(c['c'], raw=True)
    base.flagSim = c['sim']
    base.dm1.Vmax, base.dm2.Vmax = c['vmax']
    a, b = copy.deepcopy(base), copy.deepcopy(base)
    for name in NAMES:  # in the order in which defaults depend on each other
        o, k = node(a, name, make=True)
        if name in out or not hasattr(o, k):
            d = DEFAULTS[name]
            setattr(o, k, d(a) if callable(d) else copy.deepcopy(d))
    groups = set()
    for name in out:
        try:
            o, k = node(b, name)
        except AttributeError:
            continue
        if hasattr(o, k):
            delattr(o, k)
    for g in ('star', 'compact', 'detector', 'full', 'est', 'jac', 'eval'):
        if hasattr(b, g) and not vars_of(getattr(b, g)):
            delattr(b, g)
            groups.add(g)
    err = []
    for m in (a, b):
        try:
            err.append((flesh(m), None))
        except Exception as e:
            err.append((None, e))
    (oa, ea), (ob, eb) = err
    if ea is not None or eb is not None:
        need(type(ea) is type(eb), 'explicit defaults: %r; left out: %r' % (ea, eb))
        rec.label('rejected')
        rec.nontrivial(False)
        return
    rec.nontrivial(True)
    rec.label('group left out', bool(groups))
    bad = []
    diff(a, b, 'mp', bad)
    bad = [x for x in bad if not x.startswith(('mp.path', 'mp.Nthreads', 'mp.dm1.compact.V', 'mp.dm2.compact.V'))]
    need(not bad, 'left out %s: %s' % (sorted(out)[:5] if not c['every'] else 'everything', bad[:6]))
    if c['sim'] and not a.flagImageNoise:
        with quiet():
            Ia, Ib = falco.imaging.get_summed_image(a), falco.imaging.get_summed_image(b)
        close(Ib, Ia, 1e-9*max(np.abs(Ia).max(), 1e-30), msg='image')


def axis(n, cen):
    return modkit.pix(n, cen if n % 2 == 0 else 'pixel')


@F.facet(st.fixed_dictionaries({'c': modkit.base(F3M=st.sampled_from([None, 9, 14, 15]), nb4=st.sampled_from([None, 18, 24]), fscale=st.just(False),
                                                 NbeamFull=st.sampled_from([16, 24, 32]), coro=st.sampled_from(['LC', 'FLC', 'VC'])),
                                'lyot': st.floats(.1, .5), 'evalres': st.sampled_from([3., 5., 10]), 'D': st.floats(.2, 30), 'pad': st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list)}),
         quick=80, thorough=2000, timeout=120)
def coordinates(c, rec):
    """samplings and coordinate axes of every plane follow from the diameters, resolutions and array sizes; masks are padded or cropped without loss"""
    cc = dict(c['c'])
    cc['lyot'] = c['lyot']
    mp, ref = modkit.build(cc, raw=True)
    cen = cc['cen']
    mp.P1.D = c['D']
    mp.Fend.eval = O()
    mp.Fend.eval.res = c['evalres']
    fld = modkit.FL*modkit.LAM0/modkit.P2D
    rec.nontrivial(True)
    raw = {}
    for k in ('compact', 'full'):
        # take rows and columns of zeros off one side, so that setup has to make the array square and even again, about the same centre
        m = getattr(mp.P1, k).mask
        py, px = c['pad']
        m = np.pad(m, ((py, py), (px, px)))
        getattr(mp.P1, k).mask = m
        raw[k] = m.copy()
        E = getattr(mp.P1, k)
        if hasattr(E, 'E'):
            del E.E
    rec.label('not square', c['pad'][0] != c['pad'][1])
    flesh(mp)
    close(mp.mas2lam0D, np.deg2rad(1/3600e3)*c['D']/modkit.LAM0, 1e-9*mp.mas2lam0D, msg='mas to lambda/D')
    for k in ('compact', 'full'):
        P1, P2, P3, P4 = [getattr(getattr(mp, 'P%d' % i), k) for i in (1, 2, 3, 4)]
        n = max(raw[k].shape)
        need(P1.mask.shape == (n, n) and P1.Narr == n, 'P1 %s mask of %s for %s' % (k, P1.mask.shape, raw[k].shape))
        full = np.zeros((n, n))
        oy, ox = [(n - s)//2 for s in raw[k].shape]
        full[oy:oy + raw[k].shape[0], ox:ox + raw[k].shape[1]] = raw[k]
        need(np.array_equal(P1.mask, full), 'P1 %s mask' % k)
        x = modkit.pix(n, cen)/P1.Nbeam
        close(P2.xsDL, x, 1e-12, msg='P2 %s axis' % k)
        close(P2.XsDL, np.tile(x, (n, 1)), 1e-12, msg='P2 %s X' % k)
        close(P2.YsDL, np.tile(x, (n, 1)).T, 1e-12, msg='P2 %s Y' % k)
        close(P2.dx, modkit.P2D/P1.Nbeam, 1e-15, msg='P2 %s sampling' % k)
        close(P3.dx, P2.dx, 1e-15, msg='P3 %s sampling' % k)
        close(P4.dx, modkit.P2D/P4.Nbeam, 1e-15, msg='P4 %s sampling' % k)
        m = ref[k]['P4']
        q = P4.croppedMask
        need(q.shape == (P4.Narr, P4.Narr) and P4.Narr <= m.shape[0], 'P4 %s shape' % k)
        back = modkit.centre(q, m.shape[0])
        need(np.abs(back - m).max() == 0, 'P4 %s mask lost transmission when cropped' % k)
        need(P4.Narr <= 4 or np.abs(m - modkit.centre(modkit.centre(m, P4.Narr - 2), m.shape[0])).max() > 0, 'P4 %s mask not cropped as far as possible' % k)
        rec.label('Lyot cropped', P4.Narr < m.shape[0])
    close(mp.P4.compact.xs, modkit.pix(mp.P4.compact.Narr, cen)*mp.P4.compact.dx, 1e-15, msg='P4 axis')
    close(mp.P4.compact.ys, mp.P4.compact.xs, 1e-15, msg='P4 axis')
    if cc['coro'] != 'VC':
        ny, nx = ref['fpm'].shape
        rec.label('mixed parity', (nx - ny) % 2 == 1)
        for k in ('compact', 'full'):
            f = getattr(mp.F3, k)
            close(f.dxi, fld/cc['F3res'], 1e-12, msg='F3 sampling')
            close(f.deta, fld/cc['F3res'], 1e-12, msg='F3 sampling')
            close(f.xisDL, axis(nx, cen)/cc['F3res'], 1e-9, msg='F3 %s horizontal axis' % k)
            close(f.etasDL, axis(ny, cen)/cc['F3res'], 1e-9, msg='F3 %s vertical axis' % k)
        close(mp.F3.compact.xis, axis(nx, cen)/cc['F3res']*fld, 1e-12, msg='F3 horizontal axis in metres')
        close(mp.F3.compact.etas, axis(ny, cen)/cc['F3res']*fld, 1e-12, msg='F3 vertical axis in metres')
    close(mp.Fend.dxi, fld/cc['res'], 1e-12, msg='camera sampling')
    close(mp.Fend.deta, fld/cc['res'], 1e-12, msg='camera sampling')
    close(mp.Fend.eval.dxi, fld/c['evalres'], 1e-12, msg='evaluation sampling')
    close(mp.Fend.eval.deta, fld/c['evalres'], 1e-12, msg='evaluation sampling')
    for o, res in ((mp.Fend, cc['res']), (mp.Fend.eval, c['evalres'])):
        close(o.xisDL, modkit.pix(o.Nxi, cen)/res, 1e-9, msg='image axis')
        close(o.etasDL, modkit.pix(o.Neta, cen)/res, 1e-9, msg='image axis')
    X, Y = np.meshgrid(mp.Fend.eval.xisDL - mp.thput_eval_x, mp.Fend.eval.etasDL - mp.thput_eval_y)
    close(mp.Fend.eval.RHOS, np.hypot(X, Y), 1e-9, msg='distance from the evaluation point')
    X, Y = np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)
    close(mp.Fend.RHOS, np.hypot(X, Y), 1e-9, msg='distance from the star')
    need(mp.Fend.eval.Nxi/c['evalres'] >= mp.Fend.Nxi/cc['res'] - 1e-9, 'evaluation image smaller than the camera image')
    extent = {'xi': cc['fov'], 'eta': cc['fov'] + (cc.get('eta') or 0)}
    for k, n in (('xi', mp.Fend.Nxi), ('eta', mp.Fend.Neta)):
        want = 2*extent[k]*cc['res'] + (1 if cen == 'pixel' else 0)
        need(n % 2 == 0 and want - 1e-9 <= n < want + 2, '%s camera pixels along %s for a half-width of %s pixels', n, k, extent[k]*cc['res'])
    rec.label('camera not square', mp.Fend.Nxi != mp.Fend.Neta)
    s = mp.Fend.scoreInCorr
    need(np.array_equal(s, mp.Fend.score.maskBool[mp.Fend.corr.maskBool]), 'scoring pixels of the correction region')


@F.facet(st.fixed_dictionaries({'c': modkit.base(**SMALL), 'dn': st.tuples(*[st.sampled_from([-4, -2, 0, 2, 6])]*2).map(list),
                                'give': st.tuples(st.booleans(), st.booleans()).map(list), 'seed': st.integers(0, 999)}), quick=50, thorough=1200, timeout=120)
def fields(c, rec):
    """input fields given at another array size are the same fields about the same centre; those not given are uniform"""
    mp, ref = modkit.build(c['c'], raw=True)
    r = rng(c['seed'])
    want = {}
    for k, dn, give in zip(('compact', 'full'), c['dn'], c['give']):
        P = getattr(mp.P1, k)
        n = P.mask.shape[0]
        tail = (mp.Nsbp,) if k == 'compact' else (mp.Nwpsbp, mp.Nsbp)
        if not give:
            del P.E
            want[k] = np.ones((n, n) + tail)
            continue
        E = r.standard_normal((n + dn, n + dn) + tail) + 1j*r.standard_normal((n + dn, n + dn) + tail)
        P.E = E.copy()
        w = E.reshape((n + dn, n + dn, -1))
        want[k] = np.stack([modkit.centre(w[:, :, i], n) for i in range(w.shape[2])], axis=2).reshape((n, n) + tail)
    rec.nontrivial(any(d and g for d, g in zip(c['dn'], c['give'])))
    rec.label('cropped', any(d < 0 and g for d, g in zip(c['dn'], c['give'])))
    flesh(mp)
    for k in ('compact', 'full'):
        E = getattr(mp.P1, k).E
        need(E.shape == want[k].shape and np.array_equal(E, want[k]), '%s input field' % k)


@F.facet(st.fixed_dictionaries({'c': modkit.base(Nact=st.sampled_from([4, 5, 6]), Nbeam=st.sampled_from([16, 20, 24, 30]), NbeamFull=st.sampled_from([16, 24, 40]),
                                                 coro=st.sampled_from(['LC', 'VC']), bw=st.sampled_from([.05, .2, .5]),
                                                 dms=st.sampled_from([[1, 2], [1], [2], []])),
                                'dist': st.tuples(st.floats(-.3, .3), st.floats(-.3, .3)).map(list)}), quick=80, thorough=1500, timeout=120)
def padding(c, rec):
    """arrays at the mirrors hold both the beam and every actuator, and satisfy the sampling requirement of the propagation at every wavelength"""
    cc = dict(c['c'], dist=c['dist'])
    mp, ref = modkit.build(cc, raw=True)
    if cc['dms'] == []:
        mp.dm_ind = np.array([], dtype=int)
    flesh(mp)
    need_pad = False
    for k, lam in (('compact', mp.sbp_centers), ('full', mp.full.lambdas)):
        n = getattr(mp, k).NdmPad
        dx = getattr(mp.P2, k).dx
        need(float(n) == int(n) and int(n) % 2 == 0, '%s array size %r' % (k, n))
        for z in c['dist']:
            q = np.max(lam)*abs(z)/dx**2
            need(n >= q*(1 - 1e-9), '%s model: %g pixels for a propagation by %g m that needs %g' % (k, n, z, q))
            need_pad = need_pad or q > 32
        need(n >= getattr(mp.P1, k).Nbeam, '%s array smaller than the beam' % k)
        for i in cc['dms']:
            d = getattr(mp, 'dm%d' % i)
            need(n >= (d.compact if k == 'compact' else d).NdmPad, '%s array smaller than mirror %d' % (k, i))
    rec.nontrivial(need_pad or bool(cc['dms']))
    rec.label('propagation limited', need_pad)
    rec.label('no mirrors', not cc['dms'])


CHOICES = {'centering': ['pixel', 'interpixel'], 'coro': ['LC', 'FLC', 'vortex', 'VC', 'aplc', 'splc'], 'layout': ['Fourier', 'FPM_scale', 'proper'],
           'estimator': ['perfect', 'pairwise', 'pairwise-square', 'pairwise-rect', 'pwp-bp', 'pwp-bp-square', 'pwp-kf'], 'controller': ['gridsearchEFC', 'plannedEFC', 'AD-EFC']}


@F.facet(st.fixed_dictionaries({'c': modkit.base(**SMALL), 'key': st.sampled_from(sorted(CHOICES)), 'pick': st.integers(0, 10), 'case': st.lists(st.booleans(), min_size=20, max_size=20),
                                'junk': st.sampled_from([None, '', 'x', ' ', '-', 'EFC', 's'])}), quick=200, thorough=4000)
def rejects(c, rec):
    """the named choices are accepted in any case and normalised; any other value is refused with ValueError"""
    mp, ref = modkit.build(c['c'], raw=True)
    v = CHOICES[c['key']][c['pick'] % len(CHOICES[c['key']])]
    s = ''.join(x.upper() if u else x.lower() for x, u in zip(v, c['case']))
    if c['junk'] is not None:
        s = s + c['junk'] if c['junk'] else ''
    with quiet():
        falco.setup.set_optional_variables(mp)
    setattr(mp, c['key'], s)
    rec.nontrivial(s != v)
    rec.label('valid' if c['junk'] is None else 'invalid')
    with quiet():
        if c['junk'] is None:
            falco.setup.verify_key_values(mp)
            got = getattr(mp, c['key'])
            need(got == (v.upper() if c['key'] == 'coro' else v.lower()), '%r became %r' % (s, got))
        else:
            raises(ValueError, lambda: falco.setup.verify_key_values(mp))


# valid values other than the defaults; function of the actuator count, number of sub-bands and centering-independent
GIVEN = {
    'flagParallel': True, 'flagSaveWS': True, 'flagSVD': True, 'flagRotation': False, 'flagTrainModel': True, 'flagUseLearnedJac': True,
    'est.flagUseJac': True, 'est.ItrStartKF': 4, 'ctrl.flagUseModel': True, 'ctrl.ad.maxiter': 7, 'ctrl.ad.maxfun': 1234, 'ctrl.ad.maxcor': 5,
    'flagFiber': False, 'flagDMwfe': False, 'flagApod': True, 'runLabel': 'mine', 'propMethodPTP': 'mft', 'jac.mftToVortex': True,
    'F3.VortexSpotDiam': .8, 'F3.VortexSpotOffsets': [.1, -.2], 'F3.phaseMaskType': 'staircase', 'F3.NstepStaircase': 4, 'F3.clocking': 12.,
    'F3.phaseScaleFac': 1.1, 'full.ZrmsVal': 2e-10, 'full.pol_conds': [-1, 1], 'eval.Rsens': np.array([[2., 3.]]), 'eval.indsZnoll': np.array([4, 5, 6]),
    'flagImageNoise': True, 'detector.gain': 3., 'detector.darkCurrentRate': .7, 'detector.readNoiseStd': 2.5, 'detector.wellDepth': 1e5,
    'detector.peakFluxVec': lambda n, ns: 1e6*np.arange(1, ns + 1), 'detector.tExpVec': lambda n, ns: 3.*np.arange(1, ns + 1),
    'detector.Nexp': 3, 'WspatialDef': np.array([[2., 3., 2.]]), 'jac.minimizeNI': True, 'est.InormProbeMax': 3e-5, 'est.Ithreshold': 5e-3,
    'Fend.eval.res': 4, 'P1.IDnorm': .12, 'Nthreads': 2, 'path.brief': '/nonexistent/b', 'path.ws': '/nonexistent/w', 'path.jac': '/nonexistent/j',
    'path.config': '/nonexistent/c'}
for _i in (1, 2):
    GIVEN.update({'dm%d.%s' % (_i, k): v for k, v in {
        'orientation': 'flipxrot90', 'dead': [3, 1], 'pinned': np.array([2, 5]), 'Vpinned': np.array([.5, -1.5]),
        'tied': np.array([[6, 7]]), 'Vmin': -20., 'Vmax': 77., 'dVnbrLat': 31., 'dVnbrDiag': 42.,
        'biasMap': lambda n, ns: 20. + np.arange(n*n).reshape(n, n)/7., 'facesheetFlatmap': lambda n, ns: 21. - np.arange(n*n).reshape(n, n)/9.,
        'surfFitMethod': 'proper', 'useDifferentiableModel': True, 'fitType': 'quadratic',
        'V': lambda n, ns: np.cos(np.arange(n*n).reshape(n, n)), 'Dstop': .7*modkit.P2D, 'edgeBuffer': 0}.items()})
STARS = {'star': lambda: ([0, 2.], [0, -1.], [1, .5]), 'compact.star': lambda: ([0, 3.], [0, 1.], [1, .25])}


@F.facet(st.fixed_dictionaries({'c': modkit.base(**SMALL), 'given': st.lists(st.sampled_from(sorted(GIVEN)), min_size=1, max_size=25, unique=True),
                                'stars': st.lists(st.sampled_from(sorted(STARS)), unique=True), 'sim': st.booleans()}), quick=60, thorough=1500, timeout=120)
def kept(c, rec):
    """a setting the user gives is never replaced by a default, whatever else is given or left out"""
    mp, _ = modkit.build(c['c'], raw=True)
    mp.flagSim = c['sim']
    n, ns = c['c']['Nact'], c['c']['Nsbp']
    exp = {}
    for name in c['given']:
        if name in ('flagApod',) and c['c']['coro'] == 'VC' or name == 'jac.mftToVortex' and c['c']['coro'] != 'VC':
            continue
        v = GIVEN[name]
        exp[name] = v(n, ns) if callable(v) else copy.deepcopy(v)
    for g in c['stars']:
        x, y, w = STARS[g]()
        exp.update({g + '.count': 2, g + '.xiOffsetVec': x, g + '.etaOffsetVec': y, g + '.weights': w})
        if g == 'compact.star':
            exp['jac.star.weights'] = [1., .5]
    for d in ('dm1', 'dm2'):            # a list of pinned actuators comes with their voltages
        if d + '.pinned' in exp or d + '.Vpinned' in exp:
            exp.update({d + '.' + k: copy.deepcopy(GIVEN[d + '.' + k]) for k in ('pinned', 'Vpinned')})
    if 'dm1.fitType' in exp or 'dm2.fitType' in exp:
        for i in (1, 2):
            d = getattr(mp, 'dm%d' % i)
            d.p1, d.p2, d.p3 = 1e-12*np.ones((n, n)), 1e-9*np.ones((n, n)), np.zeros((n, n))
    for name, v in exp.items():
        o, k = node(mp, name, make=True)
        setattr(o, k, copy.deepcopy(v))
    try:
        flesh(mp)
    except Exception as e:
        raise AssertionError('setting up with %s raised %r' % (sorted(exp), e))
    for name, v in exp.items():
        o, k = node(mp, name)
        got = getattr(o, k)
        if k == 'V' and {name[:4] + q for q in ('dead', 'pinned', 'tied')} & set(exp):
            continue                    # commands obey the constraints given with them
        need(np.array_equal(np.asarray(got).ravel(), np.asarray(v).ravel()), '%s was given as %s and became %s', name, v, got)
    rec.nontrivial(bool(exp))
    rec.label('testbed', not c['sim'])
    rec.label('mirror settings', any(k.startswith('dm') for k in exp))


SCALARS = {'eval.indsZnoll': [3, 5], 'ctrl.log10regVec': [-3., -1.], 'dm_ind': [1, 2], 'relinItrVec': [0, 1], 'est.probe.gainFudge': [1., 2.],
           'est.probe.xiOffset': [6., 2.], 'est.probe.etaOffset': [0., 3.], 'est.probe.width': [12., 4.], 'est.probe.height': [24., 5.],
           'Fend.corr.Rin': [1.5, 1.2], 'Fend.corr.Rout': [4., 3.5], 'Fend.corr.ang': [150., 120.], 'Fend.score.Rin': [2., 1.8],
           'Fend.score.Rout': [3.5, 3.], 'Fend.score.ang': [140., 100.], 'Fend.sides': ['lr', 'r'], 'Fend.shape': ['circle', 'square'],
           'Fend.clockAngDeg': [0., 30.], 'Fend.xiOffset': [0., .5], 'Fend.etaOffset': [0., -.5], 'jac.zerns': [1]}


@F.facet(st.fixed_dictionaries({'c': modkit.base(**SMALL), 'given': st.lists(st.tuples(st.sampled_from(sorted(SCALARS)), st.integers(0, 1)), min_size=1, max_size=12,
                                                                              unique_by=lambda t: t[0]),
                                'np': st.booleans()}), quick=40, thorough=800, timeout=120)
def scalars(c, rec):
    """a list setting with one entry may be given as the bare value, and every such setting is a list afterwards"""
    trees = []
    for how in (0, 1):
        mp, _ = modkit.build(c['c'], raw=True)
        for name, k in c['given']:
            o, key = node(mp, name, make=True)
            v = SCALARS[name][k % len(SCALARS[name])]
            setattr(o, key, v if how == 0 else (np.array([v]) if c['np'] or name == 'dm_ind' else [v]))
            if name == 'jac.zerns':
                mp.jac.Zcoef = 1. if how == 0 else [1.]
        flesh(mp)
        trees.append(mp)
    bad = []
    diff(trees[0], trees[1], 'mp', bad)
    bad = [x for x in bad if not x.startswith(('mp.path', 'mp.dm1.compact.V', 'mp.dm2.compact.V', 'mp.Fend.sides', 'mp.Fend.shape'))]
    need(not bad, 'given as bare values: %s differ for %s', bad[:6], [n for n, _ in c['given']])
    for name, _ in c['given']:
        o, key = node(trees[0], name)
        need(name in ('Fend.sides', 'Fend.shape') or len(getattr(o, key)) == 1, '%s is not a list', name)
    rec.nontrivial()
    rec.label('mirrors', any(n == 'dm_ind' for n, _ in c['given']))


@F.facet(modkit.base(**SMALL), quick=40, thorough=800, timeout=120)
def repeat(c, rec):
    """setting up the same instrument again leaves it as it was"""
    mp, ref = modkit.build(c, raw=True)
    rec.nontrivial(c['d1']['amp'] > 0)
    flesh(mp)
    before = copy.deepcopy(mp)
    flesh(mp)
    bad = []
    diff(before, mp, 'mp', bad)
    bad = [x for x in bad if not x.endswith(' extra')]
    need(not bad, 'changed by the second setup: %s' % bad[:6])

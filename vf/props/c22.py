"""C22: Zernike modes are the Noll modes and the reported sensitivities are those of the instrument."""
import copy
import functools
import math
from math import factorial
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, rng, quiet
import modkit
import standin
from props.c06 import region
import falco
import falco.proper as proper

F = Facets('C22', rule='Zernike indices, coefficients, beams and obscurations drawn at random, evaluated from factorial formulas and Gram-Schmidt '
           'polynomials; sensitivities are compared with an independent propagation; non-trivial = a mode beyond piston, or an instrument with commands',
           assumptions=['even array sizes', 'circular beams'])
CEN = st.sampled_from(['pixel', 'interpixel'])


def noll(j):
    """(n, m) of the Noll index, m < 0 for the sine modes"""
    n, left = 0, j - 1
    while left > n:
        n += 1
        left -= n
    m = (-1)**j*((n % 2) + 2*((left + ((n + 1) % 2))//2))
    return n, m


def radial(n, m):
    """coefficients by power of r of the radial polynomial"""
    m = abs(m)
    p = np.zeros(n + 1)
    for k in range((n - m)//2 + 1):
        p[n - 2*k] = (-1)**k*factorial(n - k)/(factorial(k)*factorial((n + m)//2 - k)*factorial((n - m)//2 - k))
    return p


@functools.lru_cache(None)
def annular(n, m, eps):
    """radial polynomial orthogonal to those of lower degree over eps < r < 1, positive leading coefficient, mean square 1 in the area"""
    m = abs(m)
    inner = lambda a, b: sum(x*y/(i + j + 2)*(1 - eps**(i + j + 2)) for i, x in enumerate(a) for j, y in enumerate(b))*2/(1 - eps**2)
    done = []
    for k in range(m, n + 1, 2):
        p = np.zeros(n + 1)
        p[k] = 1.
        for _ in range(2):
            for q in done:
                p = p - inner(p, q)*q
        p = p/np.sqrt(inner(p, p))
        done.append(p)
    return done[-1]


def mode(j, r, t, eps=0.):
    """unit-RMS Noll mode"""
    n, m = noll(j)
    p = np.sqrt(n + 1)*radial(n, m) if eps == 0 else annular(n, m, float(eps))
    R = sum(c*r**k for k, c in enumerate(p) if c)
    if m == 0:
        return R
    return np.sqrt(2)*R*(np.cos(m*t) if m > 0 else np.sin(-m*t))


def grid(n, cen):
    x = modkit.pix(n, cen)
    X, Y = np.meshgrid(x, x)
    return np.hypot(X, Y), np.arctan2(Y, X)


@F.facet(st.fixed_dictionaries({'nb': st.one_of(st.integers(4, 40), st.floats(4, 40)), 'cen': CEN,
                                'idx': st.lists(st.integers(1, 45), min_size=1, max_size=4), 'scalar': st.booleans()}), quick=240, thorough=6000)
def maps(c, rec):
    """normalized maps are the unit-RMS Noll modes of a beam of the stated diameter, centred in the smallest even array"""
    idx = c['idx'][0] if c['scalar'] else np.array(c['idx'])
    with quiet():
        out = falco.zern.gen_norm_zern_maps(c['nb'], c['cen'], idx)
    want = c['nb'] if c['cen'] == 'interpixel' else c['nb'] + 1
    n = out.shape[0]
    need(n % 2 == 0 and n >= want - 1e-12 and n - 2 < want, 'array of %d pixels for a beam of %r' % (n, c['nb']))
    lst = [c['idx'][0]] if c['scalar'] else c['idx']
    need(out.shape == (n, n, len(lst)), 'shape %r' % (out.shape,))
    r, t = grid(n, c['cen'])
    for k, j in enumerate(lst):
        close(out[:, :, k], mode(j, 2*r/c['nb'], t), 1e-9, msg='Noll mode %d' % j)
    rec.nontrivial(max(lst) > 1)
    rec.label('high order', max(lst) > 22)
    rec.label(c['cen'])


APPLY = {'n': st.sampled_from([16, 24, 32]), 'frac': st.sampled_from([.4, .5, .8, 1.]), 'idx': st.lists(st.integers(1, 22), min_size=1, max_size=4),
         'eps': st.sampled_from([0., 0., .1, .31, .7]), 'seed': modkit.SEED, 'amp': st.booleans(), 'noapply': st.booleans(), 'radius': st.sampled_from([None, .35, 1.1]),
         'lam': st.sampled_from([4e-7, 6e-7, 1.2e-6]), 'diam': st.sampled_from([1., 2.4]), 'which': st.sampled_from(['falco pixel', 'falco interpixel', 'falco', 'proper'])}


@F.facet(st.fixed_dictionaries(APPLY), quick=240, thorough=6000)
def applied(c, rec):
    """a sum of modes, obscured or not, is returned and put on the wavefront as phase or amplitude, with the normalization radius asked for"""
    r0 = rng(c['seed'])
    with quiet():
        wf = proper.prop_begin(c['diam'], c['lam'], c['n'], c['frac'])
        other = proper.prop_begin(1., 5e-7, 2*c['n'], .5) if r0.random() < .3 else None
    wf.wfarr = r0.standard_normal((c['n'],)*2) + 1j*r0.standard_normal((c['n'],)*2)
    before = wf.wfarr.copy()
    idx = list(dict.fromkeys(c['idx']))
    val = 1e-7*r0.standard_normal(len(idx))
    kw = {}
    if c['radius']:
        kw['RADIUS'] = c['radius']
    if c['amp']:
        kw['AMPLITUDE'] = True
    if c['noapply']:
        kw['NO_APPLY'] = True
    cen = 'interpixel' if c['which'].endswith('interpixel') else 'pixel'
    fn = falco.zern.propcustom_zernikes if c['which'].startswith('falco') else proper.prop_zernikes
    if c['which'] in ('falco pixel', 'falco interpixel'):
        kw['CENTERING'] = cen
    with quiet():
        out = fn(wf, idx, val, c['eps'], **kw)
    r, t = grid(c['n'], cen)
    scale = c['diam']/(c['n']*c['frac'])/(c['radius'] or c['diam']/2.)
    ref = sum(v*mode(j, r*scale, t, c['eps']) for j, v in zip(idx, val))
    close(out, ref, 1e-8, msg='map of modes %r' % idx)
    if c['noapply']:
        fac = 1.
    else:
        fac = np.fft.ifftshift(out if c['amp'] else np.exp(2j*np.pi*out/c['lam']))
    close(wf.wfarr, before*fac, 1e-10, msg='wavefront afterwards')
    rec.nontrivial(max(idx) > 1)
    rec.label('obscured', c['eps'] > 0)
    rec.label(c['which'])


@F.facet(st.fixed_dictionaries({'maxz': st.one_of(st.integers(1, 60), st.integers(1, 700)), 'compact': st.booleans(), 'extra': st.booleans(),
                                'seed': modkit.SEED}), quick=60, thorough=1200)
def equations(c, rec):
    """the listed equations are the Noll modes up to any order, evaluated to rounding error"""
    out = proper.prop_noll_zernikes(c['maxz'], COMPACT=c['compact'], EXTRA_VALUES=c['extra'])
    if c['extra']:
        out, npow, nang = out
        nm = [noll(j) for j in range(1, c['maxz'] + 1)]
        need((npow, nang) == (max(n for n, m in nm), max(abs(m) for n, m in nm)), 'highest power %r, highest multiple %r', npow, nang)
    need(len(out) == c['maxz'] + 1 and not out[0], 'list')
    g = rng(c['seed'])
    r, t = g.uniform(0, 1, 6), g.uniform(-np.pi, np.pi, 6)
    r[0] = 1.
    names = {'math': math, 'sin': np.sin, 'cos': np.cos, 'r': r, 't': t}
    for k in range(1, 50):
        names['r_pow_%d' % k], names['cos%dt' % k], names['sin%dt' % k] = r**k, np.cos(k*t), np.sin(k*t)
    names['cost'], names['sint'] = np.cos(t), np.sin(t)
    for j in sorted(set(g.integers(1, c['maxz'] + 1, 12)) | {c['maxz']}):
        j = int(j)
        n, m = noll(j)
        text = out[j].decode() if isinstance(out[j], bytes) else out[j]
        try:
            v = eval(text, dict(names))
        except (SyntaxError, NameError) as e:
            need(False, 'mode %d: %s in %r', j, e, text)
        size = sum(abs(a)*r**k for k, a in enumerate(radial(n, m)))*np.sqrt(2*n + 2)
        need(np.all(np.abs(v - mode(j, r, t)) <= 1e-12*(size + 1)), 'mode %d is off by %s', j, np.abs(v - mode(j, r, t)).max())
    rec.nontrivial(c['maxz'] > 3)
    rec.label('more than 250', c['maxz'] > 250)


@F.facet(st.fixed_dictionaries({'which': st.sampled_from(['zern', 'prop', 'cen']), 'eps': st.sampled_from([.1, .5]), 'j': st.integers(23, 40)}), quick=40, thorough=200)
def rejects(c, rec):
    """obscured modes beyond the table and unknown centerings are refused"""
    with quiet():
        wf = proper.prop_begin(1., 5e-7, 16, .5)
        if c['which'] == 'cen':
            raises(ValueError, lambda: falco.zern.gen_norm_zern_maps(8, 'centre', 2))
            raises(ValueError, lambda: falco.zern.propcustom_zernikes(wf, [2], [1.], CENTERING='centre'))
        else:
            fn = falco.zern.propcustom_zernikes if c['which'] == 'zern' else proper.prop_zernikes
            raises(ValueError, lambda: fn(wf, [3, c['j']], [1., 1.], c['eps']))
    rec.nontrivial(True)


SENS = {'wfe': st.booleans(), 'fscale': st.booleans(), 'NbeamFull': st.sampled_from([16, 20]), 'idx': st.lists(st.sampled_from([2, 3, 4, 5, 6, 7, 11]), min_size=1, max_size=3, unique=True),
        'Rsens': st.lists(st.tuples(st.sampled_from([1., 2., 3.]), st.sampled_from([1., 1.5, 2.])).map(lambda x: [x[0] + .0137, x[0] + x[1] + .0173]), min_size=1, max_size=3),
        'rms': st.sampled_from([1e-9, 5e-9, 3e-8]), 'side': st.sampled_from(['lr', 'r', 't', 'tb']), 'shape': st.sampled_from(['circle', 'square', 'd']), 'ang': st.sampled_from([180., 150., 100.]),
        'extrafov': st.sampled_from([None, None, [6., 8.], [9., 6.]]), 'clock': st.sampled_from([None, 30., -70.]), 'par': st.integers(0, 5)}


@F.facet(modkit.base(**SENS), quick=60, thorough=1500, timeout=120)
def sensitivity(c, rec):
    """each sensitivity is the mean over the annulus, the wavelengths and the band of the squared field change for the stated RMS of that mode"""
    c = dict(c, Nbeam=16, zern=[[1], [1.]])
    mp, ref = modkit.build(c, raw=True)
    mp.Fend.corr.ang = mp.Fend.score.ang = c['ang']
    mp.Fend.shape = c['shape']
    mp.eval.indsZnoll = np.array(c['idx'])
    mp.eval.Rsens = np.array(c['Rsens'])
    mp.full.ZrmsVal = c['rms']
    if c['extrafov']:
        mp.Fend.xiFOV, mp.Fend.etaFOV = c['extrafov']
    if c['clock'] is not None:
        mp.Fend.clockAngDeg = c['clock']
    with quiet():
        falco.setup.flesh_out_workspace(mp)
    lam, _ = modkit.wavelengths(c)
    xis, etas = modkit.pix(mp.Fend.Nxi, c['cen'])/c['res'], modkit.pix(mp.Fend.Neta, c['cen'])/c['res']
    X, Y = np.meshgrid(xis, etas)
    E0 = mp.P1.full.E.copy()
    before = [copy.copy(mp.full.zindex) if hasattr(mp.full, 'zindex') else None]
    mp.flagParallel = c['par'] == 0
    mp.Nthreads = 2
    with quiet():
        out = falco.zern.calc_zern_sens(mp)
    need(np.array_equal(E0, mp.P1.full.E), 'the entrance field was changed')
    need(out.shape == (len(c['idx']), len(c['Rsens'])), 'shape %r' % (out.shape,))
    seen, fields = {}, []
    for si in range(c['Nsbp']):
        for wi in range(c['Nwp']):
            key = round(lam[si, wi]*1e15)
            if key in seen:
                continue
            seen[key] = (si, wi)
            fields.append((si, wi))
    n1 = ref['full']['P1'].shape[0]
    n1 += n1 % 2
    nbf = c['NbeamFull']
    r, t = grid(n1, c['cen'])
    keep = ref['Ef']
    want = np.zeros(out.shape)
    areas = []
    for a in c['Rsens']:
        z = {'whichSide': c['side'], 'rhoInner': a[0], 'rhoOuter': a[1], 'angDeg': c['ang'], 'shape': c['shape']}
        if c['clock'] is not None:
            z['clockAngDeg'] = c['clock']
        areas.append(region(X, Y, z))
    lo, hi = np.zeros(out.shape), np.zeros(out.shape)
    dE2 = np.zeros((len(c['idx']), mp.Fend.Neta, mp.Fend.Nxi))
    for si, wi in fields:
        w = lam[si, wi]
        # the band's entrance field at the edge wavelength may be that of either sub-band sharing it
        ref['Ef'] = keep
        I0 = modkit.i00(mp, ref, 'full', si, w, wi=wi)
        base = modkit.propagate(mp, ref, 'full', si, w, 0, 1, False, I00=I0, wi=wi)
        for k, j in enumerate(c['idx']):
            Z = np.exp(2j*np.pi*c['rms']/w*mode(j, 2*r/nbf, t))
            E = keep.copy()
            E[:, :, 0, si] = modkit.centre(modkit.centre(E[:, :, 0, si], n1)*Z, E.shape[0])
            ref['Ef'] = E
            ab = modkit.propagate(mp, ref, 'full', si, w, 0, 1, False, I00=I0, wi=wi)
            dE2[k] += np.abs(ab - base)**2/len(fields)
    ref['Ef'] = keep
    for k in range(len(c['idx'])):
        for a, (inside, judged) in enumerate(areas):
            sure, maybe = inside & judged, ~judged & (np.hypot(X, Y) > 1e-6)
            if sure.sum() == 0 or maybe.any():
                continue
            close(out[k, a], dE2[k][sure].mean(), 1e-7, msg='mode %d, annulus %d' % (c['idx'][k], a))
            rec.nontrivial(c['d1']['amp'] > 0 or c['d2']['amp'] > 0)
    rec.label('single mode', len(c['idx']) == 1)
    rec.label('rectangular image', bool(c['extrafov']))
    rec.label('parallel', c['par'] == 0)


@F.facet(modkit.base(layout=st.sampled_from(sorted(standin.KINDS)), Nbeam=st.just(28), extra=st.just(2), star=st.just([[0.], [0.], [1.]]), zern=st.just([[1], [1.]]),
                     coro=st.sampled_from(['LC', 'FLC', 'VC']), fov=st.sampled_from([5., 6.]), pol=st.sampled_from([None, [0], [-1, 1], [-2, -1, 1, 2], [10]]),
                     opt=st.sampled_from([None, 'item']), flagPROPER=st.just(True), zkey=st.sampled_from(['zval_m', 'zval']),
                     given=st.sampled_from(['none', 'none', 'array', 'list', 'item']), idx=SENS['idx'], Rsens=SENS['Rsens'], rms=SENS['rms'], par=st.integers(0, 7)), quick=32, thorough=800, timeout=120)
def prescription(c, rec):
    """so is it with an external PROPER prescription, which is told the mode besides those it has anyway and afterwards is as it was"""
    zern0 = [] if c['given'] == 'none' else [(4, 3e-9), (c['idx'][0], -2e-9), (9, 1e-9)]
    zern0 = zern0[:2] if c['idx'][0] in (4, 9) else zern0
    if c['idx'][0] == 4 and zern0:
        zern0 = [(4, 3e-9)]
    with standin.Standin(c, c['zkey']) as S:
        mp, r = S.mp, S.r
        mp.eval.indsZnoll = np.array(c['idx'])
        mp.eval.Rsens = np.array(c['Rsens'])
        mp.full.ZrmsVal = c['rms']
        wrap = np.array if c['given'] == 'array' else list
        user = {'zindex': wrap([z[0] for z in zern0]), c['zkey']: wrap([z[1] for z in zern0])} if zern0 else {}
        for k, v in user.items():
            if c['given'] == 'item':
                mp.full[k] = v
            else:
                setattr(mp.full, k, v)
        with quiet():
            falco.setup.flesh_out_workspace(mp)
        for i in c['dms']:
            d = getattr(mp, 'dm%d' % i)
            d.V = d.V + r.standard_normal(d.V.shape)
        lam, _ = modkit.wavelengths(c)
        now = S.volts()
        I0 = S.i00(lam, zern0)
        mp.flagParallel, mp.Nthreads = c['par'] == 0, 2
        close(mp.Fend.full.I00, I0, 1e-9, msg='normalisation')
        with quiet():
            out = falco.zern.calc_zern_sens(mp)
        for k in standin.ZKEYS:
            need(hasattr(mp.full, k) == (k in user), 'setting %s of the full model was %s', k, 'left behind' if k not in user else 'removed')
            if k in user:
                need(np.array_equal(getattr(mp.full, k), user[k]), 'setting %s of the full model was changed', k)
        seen, dE2 = set(), np.zeros((len(c['idx']), mp.Fend.Neta, mp.Fend.Nxi))
        pols = [0] if c['pol'] is None else c['pol']
        for si in range(c['Nsbp']):
            for wi in range(c['Nwp']):
                w = lam[si, wi]
                if round(w*1e15) in seen:
                    continue
                seen.add(round(w*1e15))
                for p in pols:
                    base = S.expected(w, False, now, p, zern0)
                    for k, j in enumerate(c['idx']):
                        z = [(a, b + c['rms']*(a == j)) for a, b in zern0]
                        if j not in [a for a, b in zern0]:
                            z.append((j, c['rms']))
                        dE2[k] += np.abs(S.expected(w, False, now, p, z) - base)**2/I0[si, wi]/len(pols)
        dE2 /= len(seen)
        X, Y = np.meshgrid(modkit.pix(mp.Fend.Nxi, c['cen'])/c['res'], modkit.pix(mp.Fend.Neta, c['cen'])/c['res'])
        for a, (lo, hi) in enumerate(c['Rsens']):
            inside, judged = region(X, Y, {'whichSide': 'lr', 'rhoInner': lo, 'rhoOuter': hi, 'angDeg': 150., 'shape': 'circle'})
            sure, maybe = inside & judged, ~judged & (np.hypot(X, Y) > 1e-6)
            if sure.sum() == 0 or maybe.any():
                continue
            for k, j in enumerate(c['idx']):
                close(out[k, a], dE2[k][sure].mean(), 1e-7, msg='mode %d, annulus %d' % (j, a))
                rec.nontrivial(True)
        mp.flagParallel = False
        # the images taken afterwards are those of the instrument
        w = np.ones(c['Nwp'])
        if c['Nwp'] > 1:
            w[[0, -1]] = .5
        w = w/w.sum()
        I = 0
        for wi in range(c['Nwp']):
            for p in pols:
                I = I + w[wi]/len(pols)*np.abs(S.expected(lam[0, wi], False, now, p, zern0))**2/I0[0, wi]
        with quiet():
            close(falco.imaging.get_sbp_image(mp, 0), I, 1e-9, msg='image afterwards')
    rec.label('given modes', bool(zern0))
    rec.label(c['layout'])

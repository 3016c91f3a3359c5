"""C24: thin-film occulters have the transmission of their layers, and tables of it are looked up at the right place."""
import os
import numpy as np
from unittest import mock
from hypothesis import strategies as st
from core import Facets, close, need, raises, rng, quiet, scratch, cplx
import falco
import modkit
from props.c14 import mv
from falco import thinfilm as tf

F = Facets('C24', rule='layer stacks, maps of thicknesses and look-up tables drawn at random, compared with the characteristic-matrix method; '
           'non-trivial = at least one layer, more than one thickness, or a table read back from its file',
           assumptions=['reference height above the stack', 'lossless incident medium and substrate'])


def stack(n, d, theta, lam, tm):
    """(r, t, R, T) of the characteristic matrices of the layers, time dependence exp(i w t), tangential electric field, t normalised to power"""
    n = np.asarray(n, complex)
    s = n[0]*np.sin(theta)
    c = np.sqrt(1 - (s/n)**2)
    c = np.where((n*c).imag > 1e-14, -c, c)
    eta = n/c if tm else n*c
    B, C = 1., eta[-1]
    for j in range(len(d) - 1, -1, -1):
        dl = 2*np.pi*n[j+1]*d[j]*c[j+1]/lam
        B, C = np.cos(dl)*B + 1j*np.sin(dl)/eta[j+1]*C, 1j*eta[j+1]*np.sin(dl)*B + np.cos(dl)*C
    r = (eta[0]*B - C)/(eta[0]*B + C)
    t = 2*eta[0]/(eta[0]*B + C)
    p = max((eta[-1]/eta[0]).real, 0.)
    return r, t*np.sqrt(p), abs(r)**2, abs(t)**2*p


@F.facet(st.fixed_dictionaries({
    'n0': st.floats(1, 2), 'ns': st.floats(1, 3), 'layers': st.lists(st.tuples(st.floats(.3, 4), st.sampled_from([0., 0., 1e-3, .5, 4.]), st.floats(0, .4)).map(list), max_size=6),
    'theta': st.one_of(st.just(0.), st.floats(0, 1.3)), 'tm': st.booleans(), 'lam': st.floats(.3, 2)}), quick=1500, thorough=40000,
    examples=[{'n0': 1., 'ns': 1.5, 'layers': [], 'theta': float(np.arctan(1.5)), 'tm': True, 'lam': .5},
              {'n0': 1., 'ns': 1.5, 'layers': [], 'theta': 0., 'tm': False, 'lam': .5}])
def solver(c, rec):
    """reflection and transmission of any stack in either polarization; energy is conserved"""
    n = np.array([c['n0']] + [a - 1j*k for a, k, _ in c['layers']] + [c['ns']], complex)
    d = np.array([x for _, _, x in c['layers']])
    rec.nontrivial(len(d) > 0)
    rec.label('absorbing', any(k for _, k, _ in c['layers']))
    rec.label('total reflection', c['n0']*np.sin(c['theta']) > c['ns'])
    s = c['n0']*np.sin(c['theta'])
    if min([abs(c['ns'] - s)] + [abs(a - s) for a, k, _ in c['layers'] if k == 0]) < 1e-3:  # grazing inside a layer
        rec.nontrivial(False)
        return
    r, t, R, T = stack(n, d, c['theta'], c['lam'], c['tm'])
    with quiet():
        gR, gT, gr, gt = tf.solver(n, d, c['theta'], c['lam'], c['tm'])
    tol = 1e-7
    need(abs(gR - R) < tol, 'reflected power %g, expected %g', gR, R)
    need(abs(gT - T) < tol*max(1, T), 'transmitted power %g, expected %g', gT, T)
    need(abs(gr - (-r if c['tm'] else r)) < tol, 'reflection %s, expected %s', gr, r)
    need(abs(gt - t) < tol, 'transmission %s, expected %s', gt, t)
    if not any(k for _, k, _ in c['layers']):
        need(abs(gR + gT - 1) < 1e-7, 'lossless stack: R + T = %r', gR + gT)
    else:
        need(gR + gT < 1 + 1e-7, 'R + T = %r', gR + gT)


# ---- materials -------------------------------------------------------------------------------------------------

TI = '''397 2.08 2.95 413 2.14 2.98 431 2.21 3.01 451 2.27 3.04 471 2.3 3.1 496 2.36 3.19 521 2.44 3.2 549 2.54 3.43 582 2.6 3.58 617 2.67 3.74
659 2.76 3.84 704 2.86 3.96 756 3.00 4.01 821 3.21 4.01 892 3.29 3.96 984 3.35 3.97 1088 3.5 4.02 1216 3.62 4.15'''
TI = np.array(TI.split(), float).reshape(-1, 3)


def table(name):
    rows = [l for l in open(os.path.join(os.path.dirname(falco.__file__), 'data', name), errors='replace') if l.strip() and not l.startswith('#')]
    return np.array([l.split('#')[0].split()[:3] for l in rows], float)


def look(tab, x):
    i = int(np.clip(np.searchsorted(tab[:, 0], x) - 1, 0, len(tab) - 2))
    f = np.clip((x - tab[i, 0])/(tab[i+1, 0] - tab[i, 0]), 0, 1)
    return tab[i, 1:]*(1 - f) + tab[i+1, 1:]*f


def sellmeier(um, num, den):
    return np.sqrt(1 + sum(a*um**2/(um**2 - b) for a, b in zip(num, den)))


def indices(sub, diel, lam):
    um = lam*1e6
    if sub.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
        ns = sellmeier(um, (.683740494, .420323613, .58502748), (.00460352869, .0133968856, 64.4932732))
    else:
        ns = sellmeier(um, (1.03961212, .231792344, 1.01046945), (.00600069867, .0200179144, 103.560653))
    if diel.lower() == 'pmgi':
        nd = 1.524 + 5.176e-3/um**2 + 2.105e-4/um**4
    else:
        a, k = look(table('MgF2_data_from_Rodriguez-deMarcos_wvlUM_n_k.txt'), um)
        nd = a - 1j*k
    a, k = look(TI, um*1e3)
    b, q = look(table('nickel_data_from_Palik_via_Bala_wvlNM_n_k.txt'), um*1e3)
    return ns, nd, b - 1j*q, a - 1j*k


def mask_coef(sub, diel, lam, aoi, tti, tm, td, d0, pol, opd):
    ns, nd, nm, nt = indices(sub, diel, lam)
    tti = tti if tm >= 1e-10 else 0.
    out = []
    for p in ((False, True) if pol == 2 else (bool(pol),)):
        r, t, _, _ = stack([1, 1, nd, nm, nt, ns], [d0 - td - tm - tti, td, tm, tti], np.deg2rad(aoi), lam, p)
        out.append((t, r if pol == 2 or not p else -r))
    t, r = np.mean(out, axis=0)
    return (t, r) if opd else (np.conj(t), np.conj(r))


SUB = st.sampled_from(['FS', 'fs', 'FusedSilica', 'fused_silica', 'N-BK7', 'nbk7', 'BK7'])
DIEL = st.sampled_from(['PMGI', 'pmgi', 'MgF2', 'mgf2'])
METAL = st.sampled_from(['Ni', 'nickel', 'NICKEL'])
LAYERS = {'sub': SUB, 'diel': DIEL, 'metal': METAL, 'lam': st.floats(400, 950).map(lambda x: round(x, 3)*1e-9), 'aoi': st.sampled_from([0, 0., 5.5, 10, 40.]),
          'tti': st.sampled_from([0, 3e-9, 10e-9]), 'pol': st.sampled_from([0, 1, 2]), 'opd': st.booleans(), 'd0': st.floats(1.2e-6, 4e-6)}
THICK_M = st.one_of(st.just(0.), st.just(0.), st.floats(1e-9, 2e-7))
THICK_D = st.one_of(st.just(0.), st.floats(0, 9e-7))


@F.facet(st.fixed_dictionaries(dict(LAYERS, tm=st.lists(THICK_M, min_size=1, max_size=4), td=st.lists(THICK_D, min_size=1, max_size=4))), quick=700, thorough=20000)
def matrix(c, rec):
    """coefficients of every combination of dielectric and metal thickness on the named materials, titanium only under metal"""
    with quiet():
        t, r = tf.calc_complex_trans_matrix(c['sub'], c['metal'], c['diel'], c['lam'], c['aoi'], c['tti'], np.array(c['tm']), c['td'], c['d0'], c['pol'], c['opd'])
    rec.nontrivial(any(c['tm']) or any(c['td']))
    rec.label('metal', any(c['tm']))
    rec.label('oblique mean', c['pol'] == 2 and c['aoi'] > 0)
    need(t.shape == (len(c['td']), len(c['tm'])) and r.shape == t.shape, 'shape %s', t.shape)
    for j, td in enumerate(c['td']):
        for i, tm in enumerate(c['tm']):
            et, er = mask_coef(c['sub'], c['diel'], c['lam'], c['aoi'], c['tti'], tm, td, c['d0'], c['pol'], c['opd'])
            need(abs(t[j, i] - et) < 1e-7, 'transmission of metal %g dielectric %g: %s, expected %s', tm, td, t[j, i], et)
            need(abs(r[j, i] - er) < 1e-7, 'reflection of metal %g dielectric %g: %s, expected %s', tm, td, r[j, i], er)


@F.facet(st.fixed_dictionaries(dict(LAYERS, ny=st.integers(1, 6), nx=st.integers(1, 6), tm=st.lists(THICK_M, min_size=1, max_size=3), td=st.lists(THICK_D, min_size=1, max_size=3),
                                    seed=st.integers(0, 999))), quick=400, thorough=8000)
def maps(c, rec):
    """each pixel of an occulter map has the transmission of its own pair of thicknesses"""
    r = rng(c['seed'])
    M = r.choice(c['tm'], (c['ny'], c['nx']))
    D = r.choice(c['td'], (c['ny'], c['nx']))
    M0, D0 = M.copy(), D.copy()
    with quiet():
        got = tf.calc_complex_occulter(c['sub'], c['metal'], c['diel'], c['lam'], c['aoi'], c['tti'], M, D, c['d0'], c['pol'], flagOPD=c['opd'])
    need(np.array_equal(M, M0) and np.array_equal(D, D0), 'input maps modified')
    rec.nontrivial(np.unique(M).size + np.unique(D).size > 2)
    rec.label('same total, other layers', np.unique(M).size > 1)
    need(got.shape == M.shape, 'shape %s', got.shape)
    known = {}
    for i in np.ndindex(M.shape):
        k = (M[i], D[i])
        if k not in known:
            known[k] = mask_coef(c['sub'], c['diel'], c['lam'], c['aoi'], c['tti'], M[i], D[i], c['d0'], c['pol'], c['opd'])[0]
        need(abs(got[i] - known[k]) < 1e-7, 'pixel %s: %s, expected %s', i, got[i], known[k])


GOOD = dict(substrate='FS', metal='Ni', dielectric='PMGI', lam=5e-7, aoi=5., t_Ti=3e-9, t_metal_vec=[0., 1e-8], t_diel_vec=[1e-7], d0=2e-6, pol=2)


@F.facet(st.fixed_dictionaries({'key': st.sampled_from(['substrate', 'metal', 'dielectric', 'lam', 'aoi', 't_Ti', 't_metal_vec', 't_diel_vec', 'pol']), 'k': st.integers(0, 9), 'x': st.floats(1e-9, 10)}),
         quick=300, thorough=4000)
def rejects(c, rec):
    """unknown materials, polarizations and unphysical numbers are refused"""
    bad = {'substrate': ['glass', '', 'FS, FUSED', 'fusedsilica, fused_silica'], 'metal': ['Ti', '', 'nick'], 'dielectric': ['PMMA', '', 'mgf'],
           'lam': [0, -c['x'], 1j, 'a', [5e-7]], 'aoi': [-c['x'], 1j, 'a', None], 't_Ti': [-c['x'], 'a', [1e-9]],
           't_metal_vec': [[[1e-9]], np.zeros((2, 2)), 1e-9], 't_diel_vec': [[[1e-9]], np.zeros((1, 2)), 1e-9], 'pol': [3, -1, 7, 2.5, 'p', None, [0]]}[c['key']]
    v = bad[c['k'] % len(bad)]
    rec.nontrivial(True)
    rec.label(c['key'])
    with quiet():
        raises((ValueError, TypeError), lambda: tf.calc_complex_trans_matrix(**dict(GOOD, **{c['key']: v})))


# ---- tables and look-up ----------------------------------------------------------------------------------------

def instrument(p):
    mp = falco.config.ModelParameters()
    mp.full, mp.compact = falco.config.Object(), falco.config.Object()
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, mp.F3.d0fac = p['sub'], p['metal'], p['diel'], p['d0fac']
    mp.t_Ti_nm, mp.aoi = p['tti'], p['aoi']
    mp.dt_metal_nm, mp.dt_diel_nm = p['dm'], p['dd']
    mp.t_metal_nm_vec = p['m0'] + p['dm']*np.arange(p['nm'])
    mp.t_diel_nm_vec = p['e0'] + p['dd']*np.arange(p['nd'])
    mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp, mp.flagSim = p['lam0'], p['bw'], p['Nsbp'], p['Nwp'], True
    with quiet():
        falco.setup.falco_set_spectral_properties(mp)
    return mp


TABLE = {'sub': st.sampled_from(['FS', 'N-BK7']), 'metal': st.just('Ni'), 'diel': st.sampled_from(['PMGI', 'MgF2']), 'd0fac': st.sampled_from([4, 4, 3.5]),
         'tti': st.sampled_from([3., 3., 0., 3.04]), 'aoi': st.sampled_from([5.5, 5.5, 0., 5.52]), 'm0': st.sampled_from([0., 90., 90.04]), 'dm': st.sampled_from([5., .25, .254]), 'nm': st.integers(1, 4),
         'e0': st.sampled_from([0., 200., 200.04]), 'dd': st.sampled_from([2., .2, .204]), 'nd': st.integers(1, 4), 'lam0': st.sampled_from([575e-9, 575e-9, 575.4e-9, 730e-9]),
         'bw': st.sampled_from([.1, .1, .1004, .01]), 'Nsbp': st.sampled_from([1, 2, 3]), 'Nwp': st.sampled_from([1, 1, 2, 3]), 'refl': st.sampled_from([False, False, True])}


@F.facet(st.fixed_dictionaries({'first': st.fixed_dictionaries(TABLE),
                                'changes': st.lists(st.one_of([st.tuples(st.just(k), s).map(list) for k, s in TABLE.items()]), max_size=6)}), quick=160, thorough=4000, timeout=60)
def tables(c, rec):
    """the tables of a mask are those of its own materials, thicknesses, wavelengths and reference height, whatever masks were tabulated before"""
    p = dict(c['first'])
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'falco'))
        os.makedirs(os.path.join(tmp, 'data', 'material'))
        real = os.path.dirname(os.path.abspath(tf.__file__))
        os.symlink(os.path.join(real, 'data'), os.path.join(tmp, 'falco', 'data'))
        with mock.patch.object(tf, '__file__', os.path.join(tmp, 'falco', 'thinfilm.py')):
            seen = set()
            for ch in [None] + c['changes']:
                if ch is not None:
                    p[ch[0]] = ch[1]
                key = str(sorted(p.items()))
                rec.label('read back', key in seen)
                seen.add(key)
                mp = instrument(p)
                with quiet():
                    C, Ff = tf.gen_complex_trans_table(mp, flagRefl=p['refl'])
                r = rng(len(seen))
                for name, cube, lams in (('compact', C, mp.sbp_centers), ('full', Ff, mp.full.lambdas)):
                    need(cube.shape[:2] == (p['nd'], p['nm']) and cube.shape[2] >= len(lams), '%s table of shape %s', name, cube.shape)
                    for _ in range(4):
                        j, i, l = r.integers(p['nd']), r.integers(p['nm']), r.integers(len(lams))
                        t, rr = mask_coef(p['sub'], p['diel'], lams[l], p['aoi'], p['tti']*1e-9, mp.t_metal_nm_vec[i]*1e-9, mp.t_diel_nm_vec[j]*1e-9, lams[l]*p['d0fac'], 2, False)
                        e = rr if p['refl'] else t
                        need(abs(cube[j, i, l] - e) < 1e-7, '%s table after %s at metal %g dielectric %g wavelength %g: %s, expected %s',
                             name, ch, mp.t_metal_nm_vec[i], mp.t_diel_nm_vec[j], lams[l], cube[j, i, l], e)
    rec.nontrivial(len(c['changes']) > 0)


@F.facet(st.fixed_dictionaries({'m0': st.floats(0, 100), 'dm': st.floats(.1, 5), 'nm': st.integers(1, 8), 'e0': st.floats(0, 300), 'dd': st.floats(.1, 5), 'nd': st.integers(1, 8),
                                'bias': st.one_of(st.just(0.), st.floats(0, 50)), 'Nsbp': st.integers(1, 3), 'Nwp': st.integers(1, 3), 'N': st.sampled_from([4, 6, 9]),
                                'boxes': st.tuples(st.integers(0, 4), st.integers(1, 5)).map(list), 'model': st.sampled_from(['compact', 'full', 'FULL']), 'seed': st.integers(0, 9999)}),
         quick=500, thorough=10000)
def lookup(c, rec):
    """mask surfaces are the non-negative sums of their modes plus the bias, and every pixel has the tabulated value of the nearest thickness at its wavelength"""
    r = rng(c['seed'])
    mp = falco.config.ModelParameters()
    mp.full, mp.compact = falco.config.Object(), falco.config.Object()
    mp.t_metal_nm_vec, mp.dt_metal_nm = c['m0'] + c['dm']*np.arange(c['nm']), c['dm']
    mp.t_diel_nm_vec, mp.dt_diel_nm = c['e0'] + c['dd']*np.arange(c['nd']), c['dd']
    mp.t_diel_bias_nm = c['bias']
    mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp, mp.flagSim = 6e-7, .1, c['Nsbp'], c['Nwp'], True
    with quiet():
        falco.setup.falco_set_spectral_properties(mp)
    nl = len(mp.full.lambdas)
    mp.complexTransCompact = cplx(c['seed'] + 1, (c['nd'], c['nm'], c['Nsbp']))
    mp.complexTransFull = cplx(c['seed'] + 2, (c['nd'], c['nm'], c['Nsbp']*c['Nwp']))
    full = c['model'].lower() == 'full'
    surf = {}
    for i, (lo, hi) in ((8, (mp.t_metal_nm_vec[0], mp.t_metal_nm_vec[-1])), (9, (mp.t_diel_nm_vec[0], mp.t_diel_nm_vec[-1]))):
        d = falco.config.Object()
        d.compact = falco.config.Object()
        na = c['boxes'][1] if i == 9 else 1
        d.NactTotal = na
        d.V = r.uniform(-.3, 1.3, na)*max(hi, 1.)
        d.VtoH = 1e-9*r.choice([1., .5, 0.], na, p=[.6, .3, .1])
        for o, n in ((d, c['N']), (d.compact, max(3, c['N'] - 1))):
            nb = max(1, n - c['boxes'][0])
            o.NdmPad, o.Nbox = n, nb
            o.xy_box_lowerLeft = r.integers(0, n - nb + 1, (2, na))
            o.inf_datacube = r.uniform(0, 1, (nb, nb, na))
        setattr(mp, 'dm%d' % i, d)
        o = d if full else d.compact
        S = np.zeros((o.NdmPad,)*2)
        for a in range(na):
            x, y = o.xy_box_lowerLeft[:, a]
            S[y:y + o.Nbox, x:x + o.Nbox] += d.V[a]*d.VtoH[a]*o.inf_datacube[:, :, a]
        surf[i] = np.maximum(S, 0)
        got = falco.hlc.gen_fpm_surf_from_cube(d, c['model'])
        close(got, surf[i], 1e-18 + 1e-12*np.abs(S).max(), msg='surface of mirror %d' % i)
    surf[9] = surf[9] + c['bias']*1e-9
    idx = {}
    for i, v, dt in ((8, mp.t_metal_nm_vec, mp.dt_metal_nm), (9, mp.t_diel_nm_vec, mp.dt_diel_nm)):
        before = surf[i].copy()
        got = falco.hlc.discretize_fpm_surf(surf[i], v, dt)
        need(np.array_equal(before, surf[i]), 'surface modified')
        need(got.dtype.kind == 'i' and got.min() >= 0 and got.max() < len(v), 'indices %d..%d of %d', got.min(), got.max(), len(v))
        near = np.abs(surf[i][..., None]*1e9 - v)
        need(np.all(near[tuple(np.indices(got.shape)) + (got,)] <= near.min(axis=-1) + 1e-6*dt), 'not the nearest thickness')
        idx[i] = got
    cube = mp.complexTransFull if full else mp.complexTransCompact
    want = cube[idx[9], idx[8]]
    C, s8, s9 = falco.hlc.gen_fpm_cube_from_LUT(mp, c['model'])
    n = nl if full else c['Nsbp']
    need(C.shape == surf[8].shape + (n,), 'cube of shape %s', C.shape)
    need(np.array_equal(C, want[:, :, :n]), 'mask cube')
    close(s8, surf[8], 1e-18 + 1e-12*surf[8].max(), msg='metal surface')
    close(s9, surf[9], 1e-18 + 1e-12*surf[9].max(), msg='dielectric surface')
    for si in range(c['Nsbp']):
        for wi in range(c['Nwp'] if full else 1):
            il = int(np.argmin(np.abs(mp.full.lambdas - mp.full.lambdasMat[si, wi]))) if full else si
            need(np.array_equal(falco.hlc.gen_fpm_from_LUT(mp, si, wi, c['model']), want[:, :, il]), 'mask at band %d wavelength %d', si, wi)
    rec.nontrivial(np.unique(idx[8]).size + np.unique(idx[9]).size > 2)
    rec.label('full', full)
    rec.label('clipped', np.any(surf[9]*1e9 > mp.t_diel_nm_vec[-1]))
    raises(ValueError, lambda: falco.hlc.gen_fpm_surf_from_cube(mp.dm9, 'other'))


# ---- a mask of dielectric actuators on a metal disk, in its instrument -----------------------------------------

@F.facet(modkit.base(coro=st.just('HLC'), cen=st.just('pixel'), zern=st.just([[1], [1.]]), Nbeam=st.sampled_from([16, 20]), Nact=st.sampled_from([4, 5]), fixed=st.just(True),
                     layers=st.fixed_dictionaries({'sub': st.sampled_from(['FS', 'BK7']), 'diel': st.sampled_from(['PMGI', 'MgF2']), 'tti': st.sampled_from([0., 3.]), 'aoi': st.sampled_from([0., 5.5]),
                                                   'bias': st.sampled_from([0., 50.]), 'd0fac': st.sampled_from([4, 5.]), 'Rin': st.floats(1.2, 3.), 'actres': st.sampled_from([2., 2.5, 3.]),
                                                   'buffer': st.sampled_from([0., -.5, .3])})), quick=32, thorough=1000, timeout=120)
def occulter(c, rec):
    """an instrument whose mask is designed in layers has the images of the mask those layers make"""
    L = c['layers']
    mp, ref = modkit.build(c, raw=True)
    mp.layout = 'Fourier'
    del mp.compact.fpmCube
    del mp.full.fpmCube
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, mp.F3.d0fac = L['sub'], 'Ni', L['diel'], L['d0fac']
    mp.t_Ti_nm, mp.aoi, mp.t_diel_bias_nm = L['tti'], L['aoi'], L['bias']
    mp.dt_metal_nm, mp.dt_diel_nm = 45., 25.
    mp.t_metal_nm_vec, mp.t_diel_nm_vec = 45.*np.arange(3), 25.*np.arange(21)
    mp.F3.Rin = mp.F3.RinA = L['Rin']
    mp.dm8, mp.dm9 = falco.config.Object(), falco.config.Object()
    mp.dm8.V0coef, mp.dm9.V0coef, mp.dm9.inf0name, mp.dm9.actres, mp.dm9.FPMbuffer = 90., 300., '3x3', L['actres'], L['buffer']
    with scratch() as tmp:
        os.makedirs(os.path.join(tmp, 'falco'))
        os.makedirs(os.path.join(tmp, 'data', 'material'))
        os.symlink(os.path.join(os.path.dirname(os.path.abspath(tf.__file__)), 'data'), os.path.join(tmp, 'falco', 'data'))
        with mock.patch.object(tf, '__file__', os.path.join(tmp, 'falco', 'thinfilm.py')), quiet():
            falco.setup.flesh_out_workspace(mp)
    na = 2*int(np.ceil(L['Rin']*L['actres']))
    need(mp.dm9.NactTotal == na**2, '%d actuators for %d across', mp.dm9.NactTotal, na)
    r = rng(c['seed'] + 5)
    V = r.uniform(50, 500, na**2)
    mp.dm9.V = V.copy()
    n = mp.dm9.NdmPad
    need(2*(na + 2) <= n <= 2*(na + 3) and n % 2 == 0 and n == mp.dm9.compact.NdmPad, 'array of %d for %d actuators', n, na)
    y, x = np.divmod(np.arange(na**2), na)
    x, y = 2*x - na + 1, 2*y - na + 1
    keep = np.hypot(x, y)/2/L['actres'] <= L['Rin'] - L['buffer']
    S = np.zeros((n, n))
    for a in np.nonzero(keep)[0]:
        i, j = n//2 + y[a], n//2 + x[a]
        S[i-1:i+2, j-1:j+2] += V[a]*np.outer([.5, 1, .5], [.5, 1, .5])
    disk = np.round(modkit.centre(1 - falco.mask.gen_annular_fpm({'pixresFPM': 2*L['actres'], 'rhoInner': L['Rin'], 'rhoOuter': np.inf, 'FPMampFac': 0, 'centering': 'pixel'}), n))
    S = S*disk
    close(falco.hlc.gen_fpm_surf_from_cube(mp.dm9, 'full')*1e9, S, 1e-6, msg='dielectric surface')
    close(falco.hlc.gen_fpm_surf_from_cube(mp.dm8, 'compact')*1e9, 90*disk, 1e-6, msg='metal surface')
    T = 25*np.round(np.clip(S + L['bias'], 0, 500)/25)
    known = {}

    def mask(lam):
        out = np.zeros((n, n), complex)
        for i in np.ndindex(n, n):
            k = (T[i], disk[i], lam)
            if k not in known:
                known[k] = mask_coef(L['sub'], L['diel'], lam, L['aoi'], L['tti']*1e-9, 90e-9*disk[i], T[i]*1e-9, lam*L['d0fac'], 2, False)[0]
            out[i] = known[k]
        return out

    f = np.abs(S + L['bias'])/25 % 1
    if np.any(np.abs(f - .5) < 1e-6):
        rec.nontrivial(False)
        return
    wf, cen = modkit.wavelengths(c)
    lams = sorted(mp.full.lambdas)
    ref['fpm'] = np.stack([mask(l) for l in cen], axis=2)
    ref['fpmfull'] = np.stack([mask(l) for l in lams], axis=2)
    c = dict(c, F3res=2*L['actres'])
    ref['c'] = c
    rec.nontrivial(True)
    rec.label('bias', L['bias'] > 0)
    rec.label('several wavelengths per band', c['Nwp'] > 1)
    with quiet():
        falco.imaging.calc_psf_norm_factor(mp)
    for si in range(c['Nsbp']):
        I0 = modkit.i00(mp, ref, 'compact', si, cen[si])
        with quiet():
            E = falco.model.compact(mp, mv(si, 0))
        O = modkit.propagate(mp, ref, 'compact', si, cen[si], 0, 1, False, I00=I0)
        close(E, O, 1e-6*np.abs(O).max(), msg='compact field in band %d' % si)
        wi = int(r.integers(c['Nwp']))
        lam = mp.full.lambdasMat[si, wi]
        I0 = modkit.i00(mp, ref, 'full', si, lam, wi=wi)
        with quiet():
            E = falco.model.full(mp, mv(si, 0, 1, wi))
        O = modkit.propagate(mp, ref, 'full', si, lam, 0, 1, False, wi=wi, I00=I0)
        close(E, O, 1e-6*np.abs(O).max(), msg='full field in band %d wavelength %d' % (si, wi))

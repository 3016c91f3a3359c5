"""C07: spectral sampling and control-mode weights are complete, normalised and consistently indexed."""
from collections import defaultdict
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, quiet
import falco

F = Facets('C07', rule='band layouts (sub-bands x wavelengths, bandwidth, simulation flag) and control-mode lists drawn '
           'at random; non-trivial = more than one wavelength or more than one control mode')


def mkmp(c):
    mp = falco.config.ModelParameters()
    mp.full = falco.config.Object()
    mp.lambda0 = c['lam']
    mp.fracBW = c['bw']
    mp.Nsbp = c['nsbp']
    mp.Nwpsbp = c['nw']
    mp.flagSim = c['sim']
    return mp


BAND = {'lam': st.floats(3e-7, 2e-6), 'bw': st.one_of(st.floats(0.005, 0.4), st.sampled_from([0.01, 0.1, 0.2]), st.floats(1e-6, 1e-4)),
        'nsbp': st.integers(1, 9), 'nw': st.integers(1, 9), 'sim': st.booleans()}


@F.facet(st.fixed_dictionaries(BAND), quick=400, thorough=10000)
def spectral(c, rec):
    """sub-band centres, in-band wavelengths, unique wavelengths and weights form a consistent quadrature"""
    mp = mkmp(c)
    falco.setup.falco_set_spectral_properties(mp)
    ns, nw, l0, bw = c['nsbp'], c['nw'], c['lam'], c['bw']
    need(mp.si_ref == ns//2 and mp.wi_ref == nw//2, 'reference indices')
    # sub-bands
    if ns == 1:
        cen = np.array([l0])
        wt = np.array([1.0])
    elif nw == 1 and c['sim']:
        cen = l0*(1 - bw/2 + bw*np.arange(ns)/(ns - 1))
        wt = np.ones(ns)
        wt[[0, -1]] = .5
    else:
        cen = l0*(1 - bw/2 + bw*(np.arange(ns) + .5)/ns)     # middles of ns equal sub-bands
        wt = np.ones(ns)
    wt = wt/wt.sum()
    close(np.ravel(mp.sbp_centers), cen, 1e-12, msg='sub-band centres')
    close(np.ravel(mp.sbp_weights), wt, 1e-12, msg='sub-band weights')
    # wavelengths within each sub-band span its full width with trapezoidal weights
    lam = np.zeros((ns, nw))
    for i in range(ns):
        lam[i] = cen[i] if nw == 1 else cen[i] + l0*bw/ns*(np.arange(nw)/(nw - 1) - .5)
    lw = np.ones(nw)
    if nw > 1:
        lw[[0, -1]] = .5
    lw /= lw.sum()
    close(mp.full.lambdasMat, lam, 1e-12, msg='wavelength matrix')
    close(np.ravel(mp.full.lambda_weights), lw, 1e-12, msg='weights within a sub-band')
    need([tuple(r) for r in mp.full.indsLambdaMat] == [(i, j) for i in range(ns) for j in range(nw)], 'index list')
    # unique list: a weighted sum over it equals the sum over all samples
    uw = np.ravel(mp.full.lambda_weights_all)
    ul = np.ravel(mp.full.lambdas)
    iu = np.asarray(mp.full.indsLambdaUnique)
    need(len(ul) == len(uw) == mp.full.NlamUnique == len(iu), 'unique list lengths')
    need(len(set(iu.tolist())) == len(iu), 'unique indices repeat')
    flat = lam.ravel()
    close(ul, flat[iu], 1e-12, msg='unique wavelengths')
    need(np.all(np.diff(np.sort(ul)) > 0), 'unique wavelengths repeat')
    close(uw.sum(), 1.0, 1e-12, msg='sum of weights')
    allw = (wt[:, None]*lw[None, :]).ravel()
    # group by picometre-rounded wavelength, tolerant at rounding ties
    near = np.abs(flat[:, None] - ul[None, :])
    need(np.all(near.min(axis=1) < 1.01e-12), 'a sampled wavelength has no representative')
    if len(ul) == 1 or np.diff(np.sort(ul)).min() > 3e-12:
        exp = np.zeros(len(ul))
        for k, a in zip(near.argmin(axis=1), allw):
            exp[k] += a
        close(uw, exp, 1e-10, msg='weights of the unique wavelengths')
    # first moment of the quadrature is the centre of the band
    need(abs((uw*ul).sum() - l0) < 1e-9*l0 + 2e-12, 'mean wavelength %s vs %s', (uw*ul).sum(), l0)
    rec.nontrivial(ns*nw > 1)
    rec.label('dups', len(ul) < ns*nw)


@F.facet(st.fixed_dictionaries({**BAND, 'zerns': st.lists(st.integers(2, 30), max_size=5, unique=True), 'pos': st.integers(0, 5),
                                'coef': st.lists(st.sampled_from([0, 0, 1e-9, 1., 2.5]), min_size=6, max_size=6),
                                'est': st.sampled_from(['perfect', 'pairwise', 'Perfect', 'pwp-bp-square']),
                                'nstar': st.integers(1, 3), 'arr': st.sampled_from(['list', 'np', 'scalar'])}),
         quick=400, thorough=10000)
def control_modes(c, rec):
    """control modes: every (star, wavelength, Zernike) mode once, weights normalised per Zernike, zero ones dropped"""
    mp = mkmp(c)
    falco.setup.falco_set_spectral_properties(mp)
    z = list(c['zerns'])
    p = min(c['pos'], len(z))
    z.insert(p, 1)
    coef = c['coef'][:len(z)]
    mp.estimator = c['est']
    mp.jac = falco.config.Object()
    if c['arr'] == 'scalar' and len(z) == 1:
        mp.jac.zerns, mp.jac.Zcoef = 1, 1.
    elif c['arr'] == 'np':
        mp.jac.zerns, mp.jac.Zcoef = np.array(z), np.array(coef, float)
    else:
        mp.jac.zerns, mp.jac.Zcoef = z, [float(v) for v in coef]
    mp.compact = falco.config.Object()
    mp.compact.star = falco.config.Object()
    mp.compact.star.count = c['nstar']
    falco.setup.falco_set_jacobian_modal_weights(mp)
    ns = c['nsbp']
    exp = np.zeros((ns, len(z)))
    for j, q in enumerate(z):
        col = np.zeros(ns)
        col[:] = 1 if q == 1 else 0
        col[[0, ns//2, ns - 1]] = 1
        if c['est'].lower() == 'perfect':
            col[0] *= .5
            col[-1] *= .5
        col /= col.sum()
        if q != 1 and coef[j] == 0:
            col[:] = 0
        exp[:, j] = col
    close(mp.jac.weightMat, exp, 1e-12, msg='mode weight matrix')
    n1 = int((exp > 0).sum())
    need(mp.jac.NmodePerStar == n1 and mp.jac.Nmode == n1*c['nstar'], 'mode counts')
    seen = defaultdict(int)
    for k in range(mp.jac.Nmode):
        si, zn, star = int(mp.jac.sbp_inds[k]), int(mp.jac.zern_inds[k]), int(mp.jac.star_inds[k])
        seen[si, zn, star] += 1
        close(mp.jac.weights[k], exp[si, z.index(zn)], 1e-12, msg='weight of mode %d' % k)
    want = {(i, z[j], s) for i, j in zip(*np.nonzero(exp)) for s in range(c['nstar'])}
    need(set(seen) == want and all(v == 1 for v in seen.values()), 'modes %s expected %s', sorted(seen), sorted(want))
    need(len(mp.jac.weights) == len(mp.jac.sbp_inds) == len(mp.jac.zern_inds) == len(mp.jac.star_inds) == mp.jac.Nmode, 'lengths')
    need(float(np.asarray(mp.jac.Zcoef)[p]) == 1, 'piston coefficient is not 1')
    rec.nontrivial(mp.jac.Nmode > 1)
    rec.label('zero-coef', (np.array(exp).sum(axis=0) == 0).any())


@F.facet(st.fixed_dictionaries({**BAND, 'zerns': st.lists(st.integers(2, 12), min_size=1, max_size=4, unique=True),
                                'kind': st.sampled_from(['nopiston', 'repeat', 'type'])}), quick=60, thorough=500)
def rejects(c, rec):
    """mode lists without piston or with repeats, and wrong container types, are rejected"""
    mp = mkmp(c)
    falco.setup.falco_set_spectral_properties(mp)
    mp.estimator = 'perfect'
    mp.jac = falco.config.Object()
    z = list(c['zerns'])
    if c['kind'] == 'repeat':
        z = [1] + z + z[:1]
    elif c['kind'] == 'type':
        z = [1] + z
    mp.jac.zerns, mp.jac.Zcoef = np.array(z), np.ones(len(z))
    mp.compact = falco.config.Object()
    mp.compact.star = falco.config.Object()
    mp.compact.star.count = 1
    rec.nontrivial(True)
    if c['kind'] == 'type':
        raises(TypeError, falco.setup.falco_set_jacobian_modal_weights, {'jac': 1})
    else:
        raises(ValueError, falco.setup.falco_set_jacobian_modal_weights, mp)

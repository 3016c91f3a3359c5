"""C18: images, expected images and throughput are the intensities of the modelled fields."""
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet
import modkit
from props.c14 import mv
import falco

F = Facets('C18', rule='whole coronagraphs with drawn masks, mirrors, stars and bandpass; images are compared with weighted sums of the '
           'intensities of an independent propagation; non-trivial = nonzero mirror commands',
           assumptions=['even array sizes', 'noise statistics are judged at seven standard deviations'])

WFE = {'wfe': st.booleans(), 'fscale': st.booleans(), 'chromatic': st.booleans(), 'NbeamFull': st.sampled_from([16, 20])}


def weights(c):
    """relative weights of the sub-bands and of the wavelengths in each"""
    ns, nw = c['Nsbp'], c['Nwp']
    s, w = np.ones(ns), np.ones(nw)
    if nw == 1:
        if ns > 1:
            s[[0, -1]] = .5
    else:
        w[[0, -1]] = .5
    return s/s.sum(), w/w.sum()


def rule(c, rec):
    rec.nontrivial(c['d1']['amp'] > 0 or c['d2']['amp'] > 0)
    rec.label(c['coro'])
    rec.label('several stars', len(c['star'][0]) > 1)
    rec.label('%d bands, %d wavelengths' % (c['Nsbp'], c['Nwp']))


@F.facet(modkit.base(**WFE), quick=48, thorough=1200, timeout=120)
def measured(c, rec):
    """simulated images are the weighted sum over wavelengths and stars of the full-model intensity"""
    c = dict(c, Nbeam=16)
    mp, ref = modkit.build(c)
    lam, _ = modkit.wavelengths(c)
    s, w = weights(c)
    tot = 0
    same_ends = True
    for si in range(c['Nsbp']):
        I = 0
        for wi in range(c['Nwp']):
            I0 = modkit.i00(mp, ref, 'full', si, lam[si, wi], wi=wi)
            for star in range(len(c['star'][0])):
                I = I + w[wi]*np.abs(modkit.propagate(mp, ref, 'full', si, lam[si, wi], star, 1, False, I00=I0, wi=wi))**2
        with quiet():
            out = falco.imaging.get_sbp_image(mp, si)
        close(out, I, 1e-8, msg='image of sub-band %d' % si)
        tot = tot + s[si]*I
    with quiet():
        out = falco.imaging.get_summed_image(mp)
    close(out, tot, 1e-8, msg='band-averaged image')
    rule(c, rec)


@F.facet(modkit.base(sub=st.booleans(), **WFE), quick=36, thorough=1000, timeout=120)
def expected(c, rec):
    """the expected image is the intensity of estimate plus model change in the dark hole, and leaves the commands as they were"""
    c = dict(c, NbeamFull=c['Nbeam'])
    mp, ref = modkit.build(c)
    r = rng(c['seed'] + 99)
    m = mp.Fend.corr.maskBool
    cvar, dDM = falco.config.Object(), falco.config.Object()
    n = int(m.sum())
    cvar.Eest = 1e-3*(r.standard_normal((n, mp.jac.Nmode)) + 1j*r.standard_normal((n, mp.jac.Nmode)))
    old = {}
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        old[i] = d.V.copy()
        dV = 5*r.standard_normal(d.V.shape)
        setattr(dDM, 'dDM%dV' % i, dV)
        d.V = d.V + dV
    other = {i: getattr(mp, 'dm%d' % i).V.copy() for i in (1, 2)}
    with quiet():
        out = falco.imaging.get_expected_summed_image(mp, cvar, dDM)
    for i in (1, 2):
        need(np.array_equal(other[i], getattr(mp, 'dm%d' % i).V), 'commands of mirror %d changed', i)
    _, cen = modkit.wavelengths(c)
    s, _ = weights(c)
    fields = {}
    for when in ('new', 'old'):
        for i in c['dms']:
            getattr(mp, 'dm%d' % i).V = other[i] if when == 'new' else old[i]
        for si in range(c['Nsbp']):
            I0 = mp.Fend.compact.I00[si]
            for star in range(len(c['star'][0])):
                fields[when, si, star] = modkit.propagate(mp, ref, 'compact', si, cen[si], star, 1, False, I00=I0)
    exp = np.zeros(m.shape)
    got = 0
    for k in range(mp.jac.Nmode):
        if mp.jac.zern_inds[k] == 1:
            si, star = mp.jac.sbp_inds[k], mp.jac.star_inds[k]
            E = cvar.Eest[:, k] + (fields['new', si, star] - fields['old', si, star])[m]
            exp[m] += s[si]*np.abs(E)**2
            got += 1
    need(got == c['Nsbp']*len(c['star'][0]), 'modes missing')
    close(out, exp, 1e-7, msg='expected image')
    rule(c, rec)
    rec.nontrivial(True)
    rec.label('aberration modes', len(c['zern'][0]) > 1)


@F.facet(modkit.base(off=st.sampled_from([[0., 0.], [3., 0.], [-2.5, 1.5], [.3, -4.]]), metric=st.sampled_from(['hmi', 'ee', 'HMI', 'E.E.']),
                     radius=st.sampled_from([.5, .7, 1.3]), zern=st.sampled_from([[[1], [1.]], [[1, 2], [1., 1e-9]], [[4, 1], [3e-9, 1.]],
                                                                            [[4, 1], [0., 1.]], [[5, 1, 3], [0., 1., 1e-9]]]), **WFE), quick=48, thorough=1200, timeout=120)
def offaxis(c, rec):
    """off-axis images and the throughput follow from the compact-model fields of a source at the stated place"""
    c = dict(c, NbeamFull=c['Nbeam'])
    mp, ref = modkit.build(c)
    _, cen = modkit.wavelengths(c)
    w = np.ravel(mp.jac.weightMat[:, list(mp.jac.zerns).index(1)])
    close(w.sum(), 1., 1e-12, msg='weights of the sub-bands')
    nstar = len(c['star'][0])

    def image(ev, off):
        I = 0
        for si in range(c['Nsbp']):
            I0 = modkit.i00(mp, ref, 'compact', si, cen[si], evalmode=ev)
            for star in range(nstar):
                I = I + w[si]*np.abs(modkit.propagate(mp, ref, 'compact', si, cen[si], star, 1, False, evalmode=ev, off=off, I00=I0))**2
        return I
    for ev in (False, True):
        with quiet():
            out = falco.imaging.get_sim_offaxis_image_compact(mp, c['off'][0], c['off'][1], isEvalMode=ev)
        close(out, image(ev, c['off']), 1e-8, msg='off-axis image (evaluation sampling: %s)' % ev)
    mp.thput_metric, mp.thput_radius = c['metric'], c['radius']
    before = mp.dm1.V.copy(), mp.dm2.V.copy()
    with quiet():
        t, I = falco.imaging.calc_thput(mp)
    need(np.array_equal(before[0], mp.dm1.V) and np.array_equal(before[1], mp.dm2.V), 'commands changed')
    close(I, image(True, (mp.thput_eval_x, mp.thput_eval_y)), 1e-8, msg='throughput image')
    if c['metric'].lower() == 'hmi':
        core = I >= .5*I.max()
    else:
        d = 1./mp.Fend.eval.res
        x = modkit.pix(mp.Fend.eval.Nxi, c['cen'])*d
        y = modkit.pix(mp.Fend.eval.Neta, c['cen'])*d
        rho = np.hypot(*np.meshgrid(x - mp.thput_eval_x, y - mp.thput_eval_y))
        core = rho <= c['radius']
        edge = np.abs(rho - c['radius']) < 1e-9
        if edge.any():
            rec.label('pixel on the radius')
            core = None
    pupil = np.abs(modkit.centre(ref['Ec'].mean(axis=2), ref['compact']['P1'].shape[0])*ref['compact']['P1'])**2
    if core is not None:
        close(t, I[core].sum()*np.mean(mp.Fend.eval.I00)/pupil.sum(), 1e-9, msg='throughput')
    need(t >= 0, 'negative throughput')
    if nstar == 1 and c['Nsbp'] == 1 and c['star'][2][0] == 1.:
        need(t <= 1.5, 'throughput above one: %g', t)
    rule(c, rec)


@F.facet(st.fixed_dictionaries({'n': st.sampled_from([[50, 60], [64, 64]]), 'I': st.sampled_from([0., 1e-4, 1e-2]),
                                'flux': st.lists(st.sampled_from([1e5, 1e6, 3e7]), min_size=3, max_size=3),
                                't': st.lists(st.sampled_from([.5, 1., 7.]), min_size=3, max_size=3),
                                'gain': st.sampled_from([.5, 1., 4.]), 'dark': st.sampled_from([0., .5, 20.]),
                                'read': st.sampled_from([6., 12., 40.]), 'nexp': st.integers(1, 5), 'si': st.integers(0, 2),
                                'seed': modkit.SEED}), quick=250, thorough=6000, timeout=60)
def noise(c, rec):
    """a noisy image has the mean and variance of photon, dark-current, read and quantisation noise of its own sub-band, averaged over exposures"""
    mp = falco.config.ModelParameters()
    D = mp.detector = falco.config.Object()
    D.peakFluxVec, D.tExpVec = np.array(c['flux']), np.array(c['t'])
    D.gain, D.darkCurrentRate, D.readNoiseStd, D.Nexp = c['gain'], c['dark'], c['read'], c['nexp']
    I = np.full(c['n'], c['I'])
    I[:, 1::2] *= 2
    keep = I.copy()
    np.random.seed(c['seed'])
    out = falco.imaging.add_noise_to_subband_image(mp, I, c['si'])
    again = falco.imaging.add_noise_to_subband_image(mp, I, c['si'])
    need(np.array_equal(I, keep), 'input image changed')
    need(out.shape == I.shape and np.all(np.isfinite(out)), 'bad output')
    t, peak = c['t'][c['si']], c['flux'][c['si']]*c['t'][c['si']]
    q = out*peak*c['nexp']
    need(np.abs(q - np.round(q)).max() < 1e-4, 'counts are not whole numbers')
    need(np.corrcoef(out.ravel() - I.ravel(), again.ravel() - I.ravel())[0, 1] < .9, 'the same noise twice')
    for k in (0, 1):
        x = out[:, k::2].ravel()
        lam = c['gain']*peak*I[0, k] + c['dark']*t
        var1 = lam + c['read']**2 + c['gain']**2/12.
        var = var1/c['nexp']/(c['gain']*peak)**2
        mean = I[0, k] + c['dark']*t/(c['gain']*peak)
        # kurtosis of the sum (Poisson part contributes lam)
        kurt = lam/var1**2/c['nexp']
        need(abs(x.mean() - mean) < 7*np.sqrt(var/x.size) + 1e-12, 'mean %g, expected %g +- %g', x.mean(), mean, np.sqrt(var/x.size))
        rel = x.var(ddof=1)/var - 1
        need(abs(rel) < 7*np.sqrt((2 + kurt)/x.size) + .02, 'variance is %g of the expected one', rel + 1)
    rec.nontrivial(c['I'] > 0)
    rec.label('several exposures', c['nexp'] > 1)

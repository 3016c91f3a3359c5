"""C14: the compact and full optical models are the stated Fourier-optics system."""
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet, scratch
import modkit
import standin
import falco

F = Facets('C14', rule='whole coronagraphs (Lyot, focal-plane-aperture, vortex, hybrid Lyot) with drawn masks, mirrors, sources, '
           'relays and bandpass; fields are compared with an independent explicit-DFT propagation of the drawn inputs; '
           'non-trivial = nonzero mirror commands and a mask or mirror feature that breaks a symmetry',
           assumptions=['even array sizes', 'the vortex relay itself is checked by C02'])

TOL = 2e-9


def mv(si, star=0, zern=1, wi=None, src='star', off=None):
    m = falco.config.ModelVariables()
    m.sbpIndex, m.starIndex, m.zernIndex, m.whichSource = si, star, zern, src
    if wi is not None:
        m.wpsbpIndex = wi
    if off is not None:
        m.x_offset, m.y_offset = off
    return m


def setup(c):
    mp, ref = modkit.build(c)
    modkit.ref_lams = modkit.wavelengths(c)
    return mp, ref


def nontriv(c, rec):
    rec.nontrivial(c['d1']['amp'] > 0 or c['d2']['amp'] > 0)
    rec.label(c['coro'])
    rec.label('rotated', c['rot'] and sum(c['relays']) % 2)
    rec.label('stop', any(c['stops']))
    rec.label('wfe', c.get('wfe'))
    rec.label('chromatic', c['coro'] == 'VC' and c['chromatic'])
    rec.label('fpm scale', c['coro'] != 'VC' and c['fscale'])
    rec.label('Lyot resolution', c['coro'] == 'FLC' and c['nb4'] and c['nb4'] != c['Nbeam'])


def same(E, O, msg, *a):
    need(E.shape == O.shape, msg + ' shape', *a)
    scale = np.abs(O).max()
    err = np.abs(E - O).max()
    need(np.all(np.isfinite(E)), msg + ': not finite', *a)
    need(err <= TOL*max(scale, 1e-12), msg + ': off by %.3g of %.3g', *(a + (err, scale)))


WFE = {'wfe': st.booleans(), 'F3M': st.sampled_from([None, None, 9, 14]), 'fscale': st.booleans(), 'chromatic': st.booleans(), 'nb4': st.sampled_from([None, None, 18, 24])}


@F.facet(modkit.base(**WFE), quick=48, thorough=1500, timeout=120)
def compact(c, rec):
    """compact model fields for every sub-band, star and Zernike mode, with and without the FPM, normalised and at evaluation sampling"""
    mp, ref = setup(c)
    _, cen = modkit.wavelengths(c)
    close(mp.sbp_centers, cen, 1e-12, msg='sub-band centres')
    r = rng(c['seed'])
    for si in range(c['Nsbp']):
        # with an external full model the compact one is the same (the HLC occulter then scales with wavelength)
        if r.integers(4) == 0 and (c['coro'] == 'HLC' or mp.layout == 'Fourier'):
            mp.layout = ['proper', 'roman_phasec_proper', 'wfirst_phaseb_proper'][r.integers(3)]
            rec.label('external full model')
        I0 = modkit.i00(mp, ref, 'compact', si, cen[si])
        close(mp.Fend.compact.I00[si], I0, 1e-8, msg='compact normalisation')
        Ie = modkit.i00(mp, ref, 'compact', si, cen[si], evalmode=True)
        close(mp.Fend.eval.I00[si], Ie, 1e-8, msg='evaluation normalisation')
        for star in range(len(c['star'][0])):
            for z in c['zern'][0]:
                E = falco.model.compact(mp, mv(si, star, z))
                O = modkit.propagate(mp, ref, 'compact', si, cen[si], star, z, False, I00=I0)
                same(E, O, 'band %d star %d mode %d', si, star, z)
        star = r.integers(len(c['star'][0]))
        coarse = c['coro'] == 'FLC' and c['nb4'] and c['nb4'] != c['Nbeam']
        if not coarse or c['nb4'] < c['Nbeam']:
            E = falco.model.compact(mp, mv(si, star), useFPM=False)
            O = modkit.propagate(mp, ref, 'compact', si, cen[si], star, 1, False, useFPM=False, I00=I0)
            if coarse:
                need(np.abs(E - O).max() <= 4e-3*np.abs(O).max(), 'no FPM, coarser Lyot plane, band %d: off by %.3g of %.3g', si, np.abs(E - O).max(), np.abs(O).max())
                rec.label('no FPM, coarser Lyot plane')
            else:
                same(E, O, 'no-FPM band %d', si)
        E = falco.model.compact(mp, mv(si, star), isEvalMode=True)
        same(E, modkit.propagate(mp, ref, 'compact', si, cen[si], star, 1, False, evalmode=True, I00=Ie), 'evaluation band %d', si)
        off = [float(v) for v in r.uniform(-3, 3, 2)]
        E = falco.model.compact(mp, mv(si, star, src='offaxis', off=off))
        same(E, modkit.propagate(mp, ref, 'compact', si, cen[si], star, 1, False, off=off, I00=I0), 'off-axis band %d', si)
    nontriv(c, rec)


@F.facet(modkit.base(NbeamFull=st.sampled_from([16, 20, 24]), **WFE), quick=48, thorough=1500, timeout=120)
def full(c, rec):
    """full model fields for every wavelength of every sub-band, star and Zernike mode, on-axis and offset"""
    mp, ref = setup(c)
    lam, _ = modkit.wavelengths(c)
    close(mp.full.lambdasMat, lam, 1e-12, msg='wavelengths')
    r = rng(c['seed'])
    for si in range(c['Nsbp']):
        for wi in range(c['Nwp']):
            w = lam[si, wi]
            I0 = modkit.i00(mp, ref, 'full', si, w, wi=wi)
            close(mp.Fend.full.I00[si, wi], I0, 1e-8, msg='full normalisation')
            for star in range(len(c['star'][0])):
                E = falco.model.full(mp, mv(si, star, wi=wi))
                same(E, modkit.propagate(mp, ref, 'full', si, w, star, 1, False, I00=I0, wi=wi), 'wavelength (%d, %d) star %d', si, wi, star)
            z = c['zern'][0][r.integers(len(c['zern'][0]))]
            off = [float(v) for v in r.uniform(-3, 3, 2)]
            E = falco.model.full(mp, mv(si, 0, z, wi=wi, src='offaxis', off=off))
            same(E, modkit.propagate(mp, ref, 'full', si, w, 0, z, False, off=off, I00=I0, wi=wi), 'off-axis (%d, %d) mode %d', si, wi, z)
    nontriv(c, rec)
    rec.label('full sampled differently', c['NbeamFull'] != c['Nbeam'])


@F.facet(modkit.base(layout=st.sampled_from(sorted(standin.KINDS)), Nbeam=st.just(28), extra=st.just(2), star=st.just([[0.], [0.], [1.]]),
                     coro=st.sampled_from(['LC', 'FLC', 'VC']), fov=st.sampled_from([5., 6.]), pol=st.sampled_from([None, [0], [-1, 1], [2, -2], [-2, -1, 1, 2], [10], [5], [6]]),
                     opt=st.sampled_from([None, 'field', 'item', 'lazy']), flagPROPER=st.booleans()), quick=32, thorough=600, timeout=120)
def prescription(c, rec):
    """an external PROPER prescription is called with the wavelength, grid, mirror heights, source and settings the state implies, and its fields make the model, the images and the perfect estimate"""
    with standin.Standin(c) as S:
        mp, r = S.mp, S.r
        with quiet():
            falco.setup.flesh_out_workspace(mp)
        for i in c['dms']:
            d = getattr(mp, 'dm%d' % i)
            d.V = d.V + r.standard_normal(d.V.shape)
        lam, _ = modkit.wavelengths(c)
        now = S.volts()
        keys = set(vars(mp.full))
        I0 = S.i00(lam)
        close(mp.Fend.full.I00, I0, 1e-9, msg='normalisation')
        for si in range(c['Nsbp']):
            for wi in range(c['Nwp']):
                with quiet():
                    E = falco.model.full(mp, mv(si, wi=wi))
                same(E, S.expected(lam[si, wi], False, now)/np.sqrt(I0[si, wi]), 'field (%d, %d)', si, wi)
        si = int(r.integers(c['Nsbp']))
        w = np.ones(c['Nwp'])
        if c['Nwp'] > 1:
            w[[0, -1]] = .5
        w = w/w.sum()
        pols = [0] if c['pol'] is None else c['pol']
        I = 0
        for wi in range(c['Nwp']):
            for p in pols:
                I = I + w[wi]/len(pols)*np.abs(S.expected(lam[si, wi], False, now, p))**2/I0[si, wi]
        with quiet():
            got = falco.imaging.get_sbp_image(mp, si)
        close(got, I, 1e-9, msg='image')
        # the perfect estimate is that of the average polarization state
        ev = falco.config.Object()
        ev.Itr = 0
        with quiet():
            falco.est.perfect(mp, ev)
        mean = {(0,): 0, (-1, 1): 5, (-2, 2): 6, (-2, -1, 1, 2): 10}.get(tuple(sorted(pols)), pols[0])
        ew = w if c['Nwp'] > 1 else [1.]
        for m in range(mp.jac.Nmode):
            sb = mp.jac.sbp_inds[m]
            E = sum(ew[wi]*S.expected(lam[sb, wi], False, now, mean)/np.sqrt(I0[sb, wi]) for wi in range(c['Nwp']))
            close(ev.Eest[:, m], E[mp.Fend.corr.maskBool], 1e-9, msg='perfect estimate of mode %d' % m)
        keys.add('polaxis')
        need(set(vars(mp.full)) | {'polaxis'} == keys, 'settings of the full model changed: %s', set(vars(mp.full)) ^ keys)
    rec.nontrivial(c['d1']['amp'] > 0 or c['d2']['amp'] > 0)
    rec.label(c['layout'])
    rec.label('several polarizations', len(pols) > 1)
    rec.label('user setting', c['opt'] is not None)
    rec.label('no full-model masks', c['flagPROPER'])

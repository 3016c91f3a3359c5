"""C17: running in parallel changes nothing but the time taken."""
import contextlib
import threading
import time
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet
import modkit
from props.c14 import mv
import falco

F = Facets('C17', rule='whole coronagraphs evaluated serially and with several threads, with drawn delays inserted at every '
           'propagation so that the threads interleave differently in each case; non-trivial = more than one component to compute '
           'and nonzero mirror commands',
           assumptions=['interleavings are forced at calls of the propagation functions, and otherwise left to the interpreter'])

PATCH = [('prop', 'ptp'), ('prop', 'mft_p2f'), ('prop', 'mft_f2p'), ('prop', 'mft_p2v2p'), ('prop', 'relay'), ('dm', 'gen_surf_from_act'),
         ('util', 'pad_crop')]


@contextlib.contextmanager
def jitter(seed, dt=2e-3):
    """put a drawn delay before and after each propagation step of the worker threads"""
    main = threading.get_ident()
    lock = threading.Lock()
    r = rng(seed)
    keep = []

    def wrap(fn):
        def g(*a, **k):
            if threading.get_ident() == main:
                return fn(*a, **k)
            with lock:
                u = r.uniform(0, 1, 2)
            if u[0] < .3:
                time.sleep(dt*u[0])
            out = fn(*a, **k)
            if u[1] < .3:
                time.sleep(dt*u[1])
            return out
        return g
    try:
        for m, n in PATCH:
            mod = getattr(falco, m)
            if hasattr(mod, n):
                keep.append((mod, n, getattr(mod, n)))
                setattr(mod, n, wrap(getattr(mod, n)))
        yield
    finally:
        for mod, n, f in keep:
            setattr(mod, n, f)


def both(mp, fn, seed, threads):
    """serial result, result with jittered threads"""
    mp.flagParallel = False
    with quiet():
        s = fn()
    mp.flagParallel = True
    mp.Nthreads = threads
    with quiet(), jitter(seed):
        p = fn()
    mp.flagParallel = False
    return s, p


THREAD = {'threads': st.integers(2, 6), 'jit': modkit.SEED, 'wfe': st.booleans(), 'fscale': st.booleans(), 'chromatic': st.booleans(),
          'diff': st.booleans(), 'change': st.booleans(), 'Nsbp': st.sampled_from([1, 2, 3]), 'Nwp': st.sampled_from([1, 2, 3])}


def state(mp):
    return {i: getattr(mp, 'dm%d' % i).V.copy() for i in (1, 2)}


def setup(c):
    mp, ref = modkit.build(c, diff=c['diff'])
    if c['Nwp'] > 1:
        # the pupil field is a function of wavelength: neighbouring sub-bands share their end wavelengths
        E = np.array(mp.P1.full.E)
        g = [np.exp(.3j*np.random.default_rng(c['seed'] + k).standard_normal(E.shape[:2])) for k in range(c['Nsbp']*(c['Nwp'] - 1) + 1)]
        for si in range(c['Nsbp']):
            for wi in range(c['Nwp']):
                E[:, :, wi, si] = E[:, :, 0, 0]*g[si*(c['Nwp'] - 1) + wi]
        mp.P1.full.E = E
        falco.imaging.calc_psf_norm_factor(mp)
    r = rng(c['jit'])
    if c['change']:  # the commands change after set-up, so nothing computed then may be reused
        for i in (1, 2):
            d = getattr(mp, 'dm%d' % i)
            d.V = d.V + 4*r.standard_normal(d.V.shape)
    return mp, ref


def rule(c, rec):
    rec.nontrivial((c['change'] or c['d1']['amp'] > 0 or c['d2']['amp'] > 0) and c['Nsbp']*c['Nwp']*len(c['star'][0]) > 1)
    rec.label(c['coro'])
    rec.label('several stars', len(c['star'][0]) > 1)
    rec.label('differentiable mirrors', c['diff'])


@F.facet(modkit.base(**THREAD), quick=60, thorough=1500, timeout=120)
def images(c, rec):
    """images of a sub-band and of the band, and the normalisation, are the same with threads as without"""
    mp, ref = setup(c)
    before = state(mp)
    s, p = both(mp, lambda: falco.imaging.get_summed_image(mp), c['jit'], c['threads'])
    close(p, s, 1e-10, msg='summed image')
    need(np.all(s >= 0) and s.max() > 0, 'image empty')
    for si in range(c['Nsbp']):
        s, p = both(mp, lambda: falco.imaging.get_sbp_image(mp, si), c['jit'] + si, c['threads'])
        close(p, s, 1e-10, msg='sub-band image')

    def norm():
        falco.imaging.calc_psf_norm_factor(mp)
        return np.concatenate([mp.Fend.compact.I00.ravel(), mp.Fend.eval.I00.ravel(), mp.Fend.full.I00.ravel()])
    s, p = both(mp, norm, c['jit'] + 5, c['threads'])
    close(p, s, 1e-10, msg='normalisation')
    for i in (1, 2):
        need(np.array_equal(before[i], getattr(mp, 'dm%d' % i).V), 'commands changed by taking images')
    rule(c, rec)


@F.facet(modkit.base(pol=st.sampled_from([[0], [10], [5], [-1, 1], [-2, -1, 1, 2]]), noise=st.booleans(), bylam=st.booleans(), **THREAD),
         quick=80, thorough=1500, timeout=120)
def components(c, rec):
    """every wavelength, polarization state and star enters the images once with its own weight, whatever order the threads run in"""
    mp, ref = setup(c)
    mp.full.pol_conds = c['pol']
    shape = (mp.Fend.Neta, mp.Fend.Nxi)
    r = rng(c['jit'])
    lock = threading.Lock()
    calls = []

    def field(si, wi, star, pol):
        lam = int(round(mp.full.lambdasMat[si, wi]*1e13)) if c['bylam'] else si*7 + wi
        g = rng(((lam*7 + star)*31 + pol + 5)*64 + c['seed'] % 64)
        return g.standard_normal(shape) + 1j*g.standard_normal(shape)

    def fake(m, modvar, **kw):
        with lock:
            dt = r.uniform(0, 4e-3)
        a = m.full.polaxis, modvar.sbpIndex, modvar.wpsbpIndex, modvar.starIndex
        time.sleep(dt)
        b = m.full.polaxis, modvar.sbpIndex, modvar.wpsbpIndex, modvar.starIndex
        need(a == b, 'model inputs changed by another thread: %s became %s', a, b)
        calls.append(a)
        return field(a[1], a[2], a[3], a[0])
    w, v = np.ravel(mp.sbp_weights), np.ravel(mp.full.lambda_weights)
    exp = []
    for si in range(c['Nsbp']):
        I = 0
        for wi in range(c['Nwp']):
            for star in range(len(c['star'][0])):
                for pol in c['pol']:
                    # repeated wavelengths of neighbouring sub-bands may be computed in either
                    I = I + v[wi]/len(c['pol'])*np.abs(field(si, wi, star, pol))**2
        exp.append(I)
    old = falco.model.full
    try:
        falco.model.full = fake
        for par in (False, True):
            mp.flagParallel, mp.Nthreads = par, c['threads']
            del calls[:]
            for si in range(c['Nsbp']):
                with quiet():
                    I = falco.imaging.get_sbp_image(mp, si)
                close(I, exp[si], 1e-10, msg='sub-band image')
            need(len(set(calls)) == len(calls) == c['Nsbp']*c['Nwp']*len(c['star'][0])*len(c['pol']), 'components computed: %s', calls)
            if c['Nwp'] == 1 or c['bylam'] or not par:  # the parallel image takes a wavelength shared by two sub-bands once
                with quiet():
                    I = falco.imaging.get_summed_image(mp)
                close(I, sum(w[si]*exp[si] for si in range(c['Nsbp'])), 1e-10, msg='summed image')
            if c['noise']:
                mp.flagImageNoise = True
                mp.detector = falco.config.Object()
                n = c['Nsbp']
                mp.detector.gain, mp.detector.darkCurrentRate, mp.detector.readNoiseStd = 1., .1, 2.
                mp.detector.peakFluxVec, mp.detector.tExpVec, mp.detector.Nexp = 1e3*np.ones(n), np.ones(n), 2
                out = []
                for p2 in (False, True):
                    mp.flagParallel = p2
                    np.random.seed(c['seed'] % 1000)
                    with quiet():
                        out.append(falco.imaging.get_summed_image(mp))
                close(out[1], out[0], 1e-10, msg='noisy summed image')
                need(np.abs(out[0] - sum(w[si]*exp[si] for si in range(c['Nsbp']))).max() > 0, 'no noise added')
                mp.flagImageNoise = False
    finally:
        falco.model.full = old
    rec.nontrivial(len(exp)*c['Nwp']*len(c['star'][0])*len(c['pol']) > 1)
    rec.label('several polarization states', len(c['pol']) > 1)


@F.facet(modkit.base(**THREAD), quick=48, thorough=1200, timeout=120)
def estimate(c, rec):
    """the perfect-knowledge estimate and its images are the same with threads as without"""
    mp, ref = setup(c)
    mp.estimator = 'perfect'

    def run():
        ev = falco.config.Object()
        falco.est.perfect(mp, ev)
        return ev.Eest.copy(), ev.imageArray.copy(), ev.IincoEst.copy()
    s, p = both(mp, run, c['jit'], c['threads'])
    close(p[0], s[0], 1e-10, msg='estimate')
    close(p[1], s[1], 1e-10, msg='image of the estimate')
    close(p[2], s[2], 1e-10, msg='incoherent estimate')
    rule(c, rec)


@F.facet(modkit.base(**THREAD), quick=36, thorough=1000, timeout=150)
def jacobian(c, rec):
    """control Jacobians computed by threads are the serial ones"""
    c = dict(c, Nact=min(c['Nact'], 5))
    mp, ref = setup(c)
    r = rng(c['jit'])
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        d.act_ele = np.sort(r.choice(d.NactTotal, 5, replace=False))
        d.Nele = 5
    s, p = both(mp, lambda: falco.model.jacobian(mp), c['jit'], c['threads'])
    for i in c['dms']:
        a, b = getattr(s, 'G%d' % i), getattr(p, 'G%d' % i)
        need(a.shape == b.shape, 'shape of G%d: %s and %s', i, a.shape, b.shape)
        close(b, a, 1e-10, msg='G%d' % i)
        need(np.abs(a).max() > 0, 'empty Jacobian')
    rule(c, rec)
    rec.nontrivial(True)

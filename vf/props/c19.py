"""C19: field estimates are the field, whatever the instrument, and estimating changes nothing."""
import contextlib
import copy
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, rng, quiet
import modkit
from props.c14 import mv
from props.c18 import weights
import falco

F = Facets('C19', rule='perfect-knowledge estimates against an independent propagation; pair-wise estimates with a drawn linear instrument, '
           'for which they are exact; non-trivial = nonzero starting commands (perfect) or a full-rank set of probes at most pixels (pair-wise)',
           assumptions=['one star for exact pair-wise estimates (images of several stars cannot be separated by probing)',
                        'the unfinished Kalman filter (pwp-kf after its first iterations) is outside'])

WFE = {'wfe': st.booleans(), 'fscale': st.booleans(), 'chromatic': st.booleans(), 'NbeamFull': st.sampled_from([16, 20])}
PAR = {'par': st.sampled_from([0, 0, 1, 3])}


@F.facet(modkit.base(**WFE, **PAR), quick=64, thorough=1200, timeout=120)
def perfect(c, rec):
    """the perfect estimate is the band-averaged full-model field of every mode, its image the sum of the stars' intensities"""
    c = dict(c, Nbeam=16)
    mp, ref = modkit.build(c)
    lam, _ = modkit.wavelengths(c)
    _, w = weights(c)
    V = mp.dm1.V.copy(), mp.dm2.V.copy()
    ev = falco.config.Object()
    ev.Itr = 0
    mp.estimator = 'perfect'
    mp.flagParallel, mp.Nthreads = c['par'] > 0, c['par']
    with quiet():
        falco.est.wrapper(mp, ev, None)
    # neighbouring sub-bands share a wavelength, which the parallel image computes in one of them only (the drawn aberrations differ between them)
    mp.flagParallel = c['par'] > 0 and c['Nwp'] > 1
    need(np.array_equal(V[0], mp.dm1.V) and np.array_equal(V[1], mp.dm2.V), 'commands changed')
    m = mp.Fend.corr.maskBool
    need(ev.Eest.shape == (m.sum(), mp.jac.Nmode), 'shape of the estimate: %s', ev.Eest.shape)
    img = np.zeros(m.shape + (c['Nsbp'],))
    seen = set()
    for k in range(mp.jac.Nmode):
        si, star, z = int(mp.jac.sbp_inds[k]), int(mp.jac.star_inds[k]), int(mp.jac.zern_inds[k])
        seen.add((si, star, z))
        E = 0
        for wi in range(c['Nwp']):
            I0 = modkit.i00(mp, ref, 'full', si, lam[si, wi], wi=wi)
            E = E + w[wi]*modkit.propagate(mp, ref, 'full', si, lam[si, wi], star, z, False, I00=I0, wi=wi)
        close(ev.Eest[:, k], E[m], 1e-8, atol=1e-9*np.abs(E).max(), msg='estimate of mode %d' % k)
        if z == 1:
            img[:, :, si] += np.abs(E)**2
    need(mp.jac.Nmode == len(seen), 'modes repeated')
    need({k[:2] for k in seen if k[2] == 1} == {(si, s) for si in range(c['Nsbp']) for s in range(len(c['star'][0]))}, 'piston modes missing')
    close(ev.imageArray[:, :, 0, :], img, 1e-8, msg='image of the estimate')
    need(ev.IincoEst.shape == ev.Eest.shape and not np.any(ev.IincoEst), 'incoherent light in a perfect estimate')
    with quiet():
        close(ev.Im, falco.imaging.get_summed_image(mp), 1e-12, msg='measured image')
    rec.nontrivial(c['d1']['amp'] > 0 or c['d2']['amp'] > 0)
    rec.label(c['coro'])
    rec.label('several stars', len(c['star'][0]) > 1)
    rec.label('parallel', c['par'] > 0)
    rec.label('aberration modes', len(c['zern'][0]) > 1)
    rec.label('pairwise weights', c['est'] == 'pairwise')


@contextlib.contextmanager
def patched(mod, name, fn):
    old = getattr(mod, name)
    setattr(mod, name, fn)
    try:
        yield
    finally:
        setattr(mod, name, old)


class Linear:
    """an instrument whose field is exactly linear in the commands, with incoherent light"""
    def __init__(self, mp, c, r):
        self.mp = mp
        n, ns = int(mp.Fend.corr.maskBool.sum()), mp.Nsbp
        self.shape = mp.Fend.corr.maskBool.shape
        size = int(np.prod(self.shape))
        self.E0 = 10.**c['logE']*(r.standard_normal((ns, size)) + 1j*r.standard_normal((ns, size)))
        self.inc = 10.**(2*c['logE'])*c['inc']*r.uniform(0, 1, (ns, size))
        self.J = {i: 1e-3*(r.standard_normal((ns, size, getattr(mp, 'dm%d' % i).NactTotal)) +
                           1j*r.standard_normal((ns, size, getattr(mp, 'dm%d' % i).NactTotal))) for i in (1, 2)}
        self.V0 = {i: getattr(mp, 'dm%d' % i).V.copy() for i in (1, 2)}
        self.gain = 1.
        self.scale = r.uniform(.5, 2, ns) if c['mismatch'] else np.ones(ns)
        self.seen = []
        # pairs of probes whose measured amplitude is negative (as with noise) at some pixels
        self.dud = r.uniform(0, 1, (ns, size, c['pairs'])) < (.4 if c.get('dud') else 0)

    def used(self):
        return [i for i in (1, 2) if np.any(np.asarray(self.mp.dm_ind) == i)]

    def field(self, si, model=False):
        E = self.E0[si].copy()
        g = self.scale[si] if model else 1.
        if model:
            E = E*g  # the model need not know the absolute level
        for i in self.used():
            d = getattr(self.mp, 'dm%d' % i)
            E = E + g*self.J[i][si] @ (d.V - self.V0[i]).ravel()
        return E.reshape(self.shape)

    def compact(self, mp, modvar, **kw):
        return self.field(int(modvar.sbpIndex), True)

    def image(self, mp, si):
        si = int(si)
        k = sum(q[0] == si for q in self.seen)
        E = self.field(si)
        I = np.abs(E)**2 + self.inc[si].reshape(self.shape)
        if k:
            I = I - 2*(self.dud[si][:, (k - 1)//2]).reshape(self.shape)*np.abs(E - self.E0[si].reshape(self.shape))**2
        self.seen.append((si, mp.dm1.V.copy(), mp.dm2.V.copy(), I.copy()))
        return I


PW = {'estimator': st.sampled_from(['pairwise', 'pairwise-square', 'pwp-bp-square', 'pairwise-rect', 'pwp-bp']),
      'pairs': st.sampled_from([2, 3, 3, 4]), 'which': st.sampled_from([1, 2]), 'axis': st.sampled_from(['x', 'y', 'alternate', 'xy', 'alt']),
      'poff': st.sampled_from([[0, 0], [1, 0], [0, -1], [.6, .4]]), 'rotation': st.sampled_from([0, 30., -90.]),
      'xi': st.sampled_from([[2., 0.], [1.5, 1.], [0., 2.]]), 'wh': st.sampled_from([[3., 4.], [2., 2.], [4., 1.]]),
      'fudge': st.sampled_from([1., .5, 3.]), 'rad': st.sampled_from([1.5, 2., 12.]), 'logE': st.sampled_from([-4, -3, -2]),
      'inc': st.sampled_from([0., .3]), 'mismatch': st.booleans(), 'jac': st.booleans(), 'thr': st.booleans(), 'itr': st.integers(0, 3),
      'sched': st.booleans(), 'Nact2': st.sampled_from([4, 5, 6]), 'repeat': st.booleans(), 'dud': st.booleans(), 'probe': st.sampled_from([1e-4, 1e-6, 1e-8])}


def setprobe(mp, c):
    P = mp.est.probe
    P.Npairs, P.whichDM, P.axis = c['pairs'], c['which'], c['axis']
    P.xOffset, P.yOffset = c['poff']
    P.rotation, P.radius = c['rotation'], c['rad']
    P.gainFudge = np.array([c['fudge']])
    P.xiOffset, P.etaOffset = np.array([c['xi'][0]]), np.array([c['xi'][1]])
    P.width, P.height = np.array([c['wh'][0]]), np.array([c['wh'][1]])
    mp.estimator = c['estimator']


@F.facet(modkit.base(Nsbp=st.sampled_from([1, 2, 3]), **PW), quick=80, thorough=2500, timeout=60)
def pairwise(c, rec):
    """with a linear instrument pair-wise probing returns the field and the incoherent light exactly, with or without the Jacobian; commands are restored"""
    c = dict(c, coro='LC', Nbeam=16, est='pairwise', zern=[[1], [1.]], star=[[0.], [0.], [1.]], d1=dict(c['d1'], tilt=[0, 0, 0]),
             d2=dict(c['d2'], tilt=[0, 0, 0]), Nwp=1)
    mp, ref = modkit.build(c)
    r = rng(c['seed'] + 5)
    setprobe(mp, c)
    mp.Nitr = 4
    mp.est.InormProbeMax = c['probe']
    S = mp.est.probeSchedule
    if c['sched']:
        S.xOffsetVec, S.yOffsetVec = np.array([0, 1, -1, 1]), np.array([1, 0, 0, 1])
        S.rotationVec, S.InormProbeVec = np.array([0., 10., -40., 90.]), np.array([1e-5, 3e-6, 2e-7, 1e-6])
    lin = Linear(mp, c, r)
    mp.est.flagUseJac = c['jac']
    jac = falco.config.Object()
    n = int(mp.Fend.corr.maskBool.sum())
    mk = mp.Fend.corr.maskBool.ravel()
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        if c['jac'] and i in c['dms'] or i == c['which']:
            d.act_ele, d.Nele = np.arange(d.NactTotal), d.NactTotal
            d.weight = .5 if c['mismatch'] else 1.
        setattr(jac, 'G%d' % i, np.moveaxis(lin.J[i][:, mk, :], 0, 2)*d.weight)
    E = lin.E0[:, mk].T
    mp.est.Ithreshold = np.quantile(np.abs(E)**2, .7) if c['thr'] else 1e9
    start = mp.dm1.V.copy(), mp.dm2.V.copy(), np.array(mp.dm_ind).copy()
    ev = falco.config.Object()
    ev.Itr = c['itr']
    with patched(falco.model, 'compact', lin.compact), patched(falco.imaging, 'get_sbp_image', lin.image), quiet():
        falco.est.wrapper(mp, ev, jac)
    need(np.array_equal(start[0], mp.dm1.V) and np.array_equal(start[1], mp.dm2.V), 'commands not restored')
    need(np.array_equal(np.sort(start[2]), np.sort(mp.dm_ind)), 'set of mirrors not restored: %s', mp.dm_ind)
    ns, np_ = c['Nsbp'], c['pairs']
    need(ev.Eest.shape == (n, ns), 'shape of the estimate')
    need(len(lin.seen) == ns*(1 + 2*np_), '%d images taken', len(lin.seen))
    W, _ = weights(c)
    Im = 0
    # recorded images belong to the recorded commands
    good_total = 0
    for si in range(ns):
        seq = lin.seen[si*(1 + 2*np_):(si + 1)*(1 + 2*np_)]
        dV = []
        for k, (s2, v1, v2, I) in enumerate(seq):
            need(s2 == si, 'image of the wrong sub-band')
            vv = {1: v1, 2: v2}
            other = 3 - c['which']
            need(np.array_equal(vv[other], start[other-1]), 'the other mirror moved')
            dV.append(vv[c['which']] - start[c['which']-1])
            for i in (1, 2):
                d = getattr(ev, 'dm%d' % i)
                if hasattr(d, 'Vall'):
                    close(d.Vall[:, :, k, si], vv[i], 1e-12, atol=1e-12, msg='recorded commands')
            need(hasattr(getattr(ev, 'dm%d' % c['which']), 'Vall'), 'probe commands not recorded')
            close(ev.imageArray[:, :, k, si], I, 1e-9, msg='recorded image %d' % k)
            if k == 0:
                need(not np.any(dV[0]), 'first image is probed')
                Im = Im + W[si]*I
        for k in range(np_):
            close(dV[1 + 2*k], -dV[2 + 2*k], 1e-9, atol=1e-9*np.abs(dV[1 + 2*k]).max(), msg='probes of pair %d are not opposite' % k)
        # the probes have the (scheduled) place, rotation and size
        T = c['itr'] if c['sched'] else None
        P = mp.est.probe
        P.xOffset, P.yOffset = c['poff'] if T is None else ([0, 1, -1, 1][T], [1, 0, 0, 1][T])
        rot = c['rotation'] if T is None else [0., 10., -40., 90.][T]
        size = min(np.sqrt((np.abs(E[:, si])**2 + lin.inc[si][mk]).max()*1e-5), c['probe']) if T is None else [1e-5, 3e-6, 2e-7, 1e-6][T]
        # phases are evenly spaced over half a turn; alternating axes start with x in even iterations and with y in odd ones
        for k in range(np_):
            psi = k*np.pi/np_
            axis = c['axis'] if c['axis'] in ('x', 'y') else 'xy'[(k + c['itr']) % 2]
            with quiet():
                want = falco.est.gen_pairwise_probe(mp, size, psi, 0, rot) if c['estimator'] in ('pairwise-rect', 'pwp-bp') else \
                    falco.est.gen_pairwise_probe_square(mp, size, psi, axis, rot)
            close(dV[1 + 2*k], want, 1e-7, atol=1e-7*max(np.abs(want).max(), np.abs(dV[1]).max()), msg='probe %d' % k)
        # estimate
        D = np.stack([lin.J[c['which']][si][mk] @ dV[1 + 2*k].ravel() for k in range(np_)], axis=1)
        H = np.stack([D.real, D.imag], axis=2)
        if not c['jac']:                # pairs with a negative amplitude do not count, and less than two leave nothing to estimate
            H[lin.dud[si][mk]] = 0
        few = np.zeros(n, bool) if c['jac'] else (~lin.dud[si][mk]).sum(axis=1) < 2
        need(not np.any(ev.Eest[few, si]), 'estimate from less than two pairs')
        sv = np.linalg.svd(H, compute_uv=False)
        level = np.abs(E[:, si]) + np.sqrt(lin.inc[si][mk])
        # differences of intensities: rounding noise relative to the probe
        ok = (sv[:, -1] > 1e-2*sv[:, 0]) & (np.abs(D).min(axis=1) > 1e-5*level) & ~few
        thr = np.abs(E[:, si])**2 > mp.est.Ithreshold
        near = np.abs(np.abs(E[:, si])**2/mp.est.Ithreshold - 1) < 1e-3
        exp = np.where(thr, 0, E[:, si])
        sel = ok & ~near
        err = np.abs(ev.Eest[:, si] - exp)[sel]
        tol = 1e-11*(level/np.abs(D).min(axis=1))[sel]**2*level[sel]*100 + 1e-8*level[sel]
        if sel.any():
            need(np.all(err <= tol), 'band %d: estimate off by %.3g of %.3g', si, (err/np.abs(E[:, si])[sel]).max(), 1.)
        I0 = np.abs(E[:, si])**2 + lin.inc[si][mk]
        close(ev.IincoEst[:, si], I0 - np.abs(ev.Eest[:, si])**2, 1e-9, atol=1e-9*I0.max(), msg='incoherent light')
        good_total += sel.mean()/ns
    close(ev.Im, Im, 1e-9, msg='band-averaged unprobed image')
    rec.nontrivial(good_total > .5)
    rec.label(c['estimator'])
    rec.label('Jacobian', c['jac'])
    rec.label('probing mirror not controlled', c['which'] not in c['dms'])
    rec.label('schedule', c['sched'])
    rec.label('unusable pairs', c['dud'] and not c['jac'])
    rec.label('different actuator counts', c['Nact'] != c['Nact2'])


@F.facet(modkit.base(vmax=st.sampled_from([.2, 1., 3.]), bias=st.booleans(), **PW), quick=40, thorough=1000, timeout=60)
def limits(c, rec):
    """probes past a voltage bound are clipped, in the instrument and in the model alike, and leave no actuator pinned"""
    c = dict(c, coro='LC', Nbeam=16, est='pairwise', zern=[[1], [1.]], star=[[0.], [0.], [1.]], d1=dict(c['d1'], tilt=[0, 0, 0], amp=0.),
             d2=dict(c['d2'], tilt=[0, 0, 0], amp=0.), Nwp=1, dud=False)
    mp, ref = modkit.build(c)
    r = rng(c['seed'] + 5)
    setprobe(mp, c)
    mp.est.InormProbeMax = c['probe']
    mp.est.flagUseJac = False
    mp.est.Ithreshold = 1e9
    lin = Linear(mp, c, r)
    with quiet():
        gen = falco.est.gen_pairwise_probe if c['estimator'] in ('pairwise-rect', 'pwp-bp') else falco.est.gen_pairwise_probe_square
        size = np.abs(gen(mp, c['probe'], 0., *((0,) if 'rect' in c['estimator'] or c['estimator'] == 'pwp-bp' else ('x',)), 0.)).max()
    pins = {}
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        d.biasMap = r.uniform(10, 11, (d.Nact, d.Nact)) if c['bias'] else 10*np.ones((d.Nact, d.Nact))
        d.Vmin, d.Vmax = 10 - c['vmax']*size, 11*c['bias'] + 10*(1 - c['bias']) + c['vmax']*size/2
        d.pinned = np.sort(r.permutation(d.NactTotal)[:int(r.integers(0, 3))])
        d.Vpinned = .1*c['vmax']*size*np.ones(d.pinned.size)
        d.V = np.zeros((d.Nact, d.Nact))
        d.V.flat[d.pinned] = d.Vpinned
        pins[i] = d.pinned.copy(), d.Vpinned.copy()

    def clipped(i, V):
        d = getattr(mp, 'dm%d' % i)
        V = np.clip(V, d.Vmin - d.biasMap, d.Vmax - d.biasMap)
        V.flat[pins[i][0]] = pins[i][1]
        return V

    def used(f):
        def g(*a, **k):
            for i in lin.used():        # as making the surface of the mirror does
                falco.dm.enforce_constraints(getattr(mp, 'dm%d' % i))
            return f(*a, **k)
        return g
    model = []
    lin.compact, plain = lambda mp, modvar, **kw: (model.append((mp.dm1.V.copy(), mp.dm2.V.copy())), plain(mp, modvar))[1], lin.compact
    ev = falco.config.Object()
    ev.Itr = c['itr'] = 0
    start = {1: mp.dm1.V.copy(), 2: mp.dm2.V.copy()}
    with patched(falco.model, 'compact', used(lin.compact)), patched(falco.imaging, 'get_sbp_image', used(lin.image)), quiet():
        falco.est.wrapper(mp, ev, falco.config.Object())
    n = 1 + 2*c['pairs']
    hit = 0
    for si in range(c['Nsbp']):
        seq = lin.seen[si*n:(si + 1)*n]
        mods = model[si*n:(si + 1)*n]
        need(len(seq) == n and len(mods) == n, 'images and model fields')
        for k in range(c['pairs']):
            I0 = seq[0][3][mp.Fend.corr.maskBool]
            amp = min(np.sqrt(I0.max()*1e-5), c['probe'])
            psi = k*np.pi/c['pairs']
            axis = c['axis'] if c['axis'] in ('x', 'y') else 'xy'[k % 2]
            with quiet():
                cmd = falco.est.gen_pairwise_probe(mp, amp, psi, 0, c['rotation']) if gen is falco.est.gen_pairwise_probe else \
                    gen(mp, amp, psi, axis, c['rotation'])
            for sign, j, jm in ((1, 1 + 2*k, 1 + 2*k), (-1, 2 + 2*k, 2 + 2*k)):
                for i in (1, 2):
                    free = want = start[i] + (sign*cmd if i == c['which'] else 0)
                    if i == c['which'] or i in c['dms']:
                        want = clipped(i, want)
                    close(seq[j][i], want, 1e-7, atol=1e-7*size, msg='commands of image %d' % j)
                    close(mods[jm][i - 1], want, 1e-7, atol=1e-7*size, msg='commands of model field %d' % jm)
                    hit += np.any(np.abs(want - free) > 1e-9*size)
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        need(np.array_equal(np.asarray(d.pinned), pins[i][0]) and np.array_equal(np.asarray(d.Vpinned), pins[i][1]), 'pinned actuators of mirror %d changed', i)
        need(np.array_equal(d.V, start[i]), 'commands of mirror %d not restored', i)
    rec.nontrivial(hit > 0)
    rec.label('mirror %d' % c['which'])


@F.facet(modkit.base(psi=st.sampled_from([0., np.pi/2, np.pi, 2*np.pi/3, 1.]), **PW), quick=80, thorough=3000, timeout=60)
def probes(c, rec):
    """probe commands make the stated surface (sinc, sinc, cosine) about the stated centre, rotated and scaled as stated, whose square is the intensity asked for"""
    c = dict(c, coro='LC', Nbeam=16, est='pairwise', zern=[[1], [1.]], star=[[0.], [0.], [1.]], Nsbp=1, Nwp=1)
    mp, ref = modkit.build(c)
    setprobe(mp, c)
    d = getattr(mp, 'dm%d' % c['which'])
    n = d.Nact
    rect = c['estimator'] in ('pairwise-rect', 'pwp-bp')
    axis = 'y' if c['axis'] == 'y' else 'x'
    got = []

    def fit(dm, surf):
        got.append((dm, np.array(surf)))
        return real(dm, surf)
    real = falco.dm.fit_surf_to_act

    def gen(I, psi, rot):
        if rect:
            return falco.est.gen_pairwise_probe(mp, I, psi, 0, rot)
        return falco.est.gen_pairwise_probe_square(mp, I, psi, axis, rot)
    with patched(falco.dm, 'fit_surf_to_act', fit), quiet():
        V = gen(c['probe'], c['psi'], c['rotation'])
        V2 = gen(4*c['probe'], c['psi'], c['rotation'])
        Vn = gen(c['probe'], c['psi'] + np.pi, c['rotation'])
    need(V.shape == (n, n) and np.all(np.isfinite(V)), 'bad command')
    top = np.abs(V).max()
    close(V2, 2*V, 1e-9, atol=1e-9*top, msg='probe is not proportional to the root of the intensity')
    close(Vn, -V, 1e-7, atol=1e-7*top, msg='probe of the opposite phase')
    need(got[0][0] is d, 'probe for the other mirror')
    k = np.arange(n) - (n - 1)/2.
    x, y = np.meshgrid(k - round(c['poff'][0]), k - round(c['poff'][1]))
    if abs(c['poff'][0] % 1 - .5) < 1e-9:
        return
    t = np.radians(c['rotation'])
    x, y = x*np.cos(t) + y*np.sin(t), -x*np.sin(t) + y*np.cos(t)
    A = 4*np.pi*mp.lambda0*np.sqrt(c['probe'])
    if rect:
        u = d.dm_spacing/mp.P2.D
        x, y = x*u, y*u
        s = A*np.sinc(c['wh'][0]*x)*np.sinc(c['wh'][1]*y)*np.cos(2*np.pi*(c['xi'][0]*x + c['xi'][1]*y) + c['psi'])
    else:
        R = min(c['rad'], n/2.)
        x, y = x/n, y/n
        if axis == 'y':
            s = A*np.sinc(R*x)*np.sinc(2*R*y)*np.cos(np.pi*R*x + c['psi'])
        else:
            s = A*np.sinc(2*R*x)*np.sinc(R*y)*np.cos(np.pi*R*y + c['psi'])
    close(got[0][1], s, 1e-9, atol=1e-9*A, msg='probe surface')
    with quiet():
        close(V, c['fudge']*real(d, s), 1e-7, atol=1e-7*top, msg='probe command')
    rec.nontrivial(c['psi'] != 0 and top > 0)
    rec.label('rectangle' if rect else 'square')


@F.facet(st.fixed_dictionaries({'which': st.sampled_from(['xOffsetVec', 'yOffsetVec', 'rotationVec', 'InormProbeVec', 'axis', 'whichDM', 'pol']),
                                'kind': st.sampled_from(['short', 'matrix']), 'nitr': st.integers(2, 5), 'seed': modkit.SEED}), quick=24, thorough=200, timeout=60)
def refused(c, rec):
    """schedules that do not cover the run, unknown axes, mirrors and polarization states are refused before any image is taken"""
    mp = copy.deepcopy(_plain())
    mp.Nitr = c['nitr']
    ev = falco.config.Object()
    ev.Itr = 0
    taken = []

    def image(*a):
        taken.append(a)
        return np.zeros(mp.Fend.corr.maskBool.shape)
    n = c['nitr']
    setprobe(mp, dict(pairs=2, which=1, axis='x', poff=[0, 0], rotation=0, rad=2., fudge=1., xi=[1.5, 0.], wh=[3., 4.], estimator='pairwise'))
    if c['which'].endswith('Vec'):
        setattr(mp.est.probeSchedule, c['which'], np.ones(n - 1) if c['kind'] == 'short' else np.ones((n, n)))
    elif c['which'] == 'axis':
        mp.est.probe.axis = 'z'
    elif c['which'] == 'whichDM':
        mp.est.probe.whichDM = 3
    else:
        mp.estimator = 'perfect'
        mp.full.pol_conds = [[1], [-2, 1], [3], [0, 1]][c['seed'] % 4]
    with patched(falco.imaging, 'get_sbp_image', image), quiet():
        raises(ValueError, falco.est.wrapper, mp, ev, np.array([]))
    need(not taken, 'images were taken')
    rec.nontrivial()
    rec.label(c['which'])


_cache = {}


def _plain():
    if not _cache:
        _cache['mp'] = modkit.build(dict(PLAIN))[0]
    return _cache['mp']


PLAIN = {'coro': 'LC', 'cen': 'pixel', 'rot': True, 'relays': [1, 1, 1, 1], 'Nact': 4, 'pitch': .4, 'Nbeam': 16, 'extra': 0, 'dms': [1, 2],
         'd1': {'off': [0., 0.], 'tilt': [0, 0, 0], 'orient': 'rot0', 'sign': '+', 'amp': 1.},
         'd2': {'off': [0., 0.], 'tilt': [0, 0, 0], 'orient': 'rot0', 'sign': '+', 'amp': 1.}, 'dist': [0., .1], 'stops': [0, 0], 'apod': False,
         'Nsbp': 1, 'Nwp': 1, 'bw': .05, 'est': 'pairwise', 'zern': [[1], [1.]], 'star': [[0.], [0.], [1.]], 'src': [3., 0.], 'charge': 4,
         'res': 2.5, 'fov': 6., 'F3res': 3., 'F3N': 11, 'seed': 4}

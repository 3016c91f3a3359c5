"""Small optical systems built from drawn parameters, and an independent reference propagation.

The reference works from the drawn parameters and raw mask arrays only (explicit coordinates, explicit DFT matrices,
its own angular spectrum and mirror surfaces); it shares no code with the package except the vortex propagator,
which has its own checks."""
import os
import numpy as np
from hypothesis import strategies as st
import falco
import dmkit
from core import rng, quiet, scratch

SEED = st.integers(0, 2**20)

# ---- strategies ------------------------------------------------------------------------------------------------

DM = st.fixed_dictionaries({
    'off': st.sampled_from([[0., 0.], [.3, -.2], [-.5, .7]]), 'tilt': st.sampled_from([[0, 0, 0], [5, 0, 0], [0, 9, 20]]),
    'orient': st.sampled_from(dmkit.ORIENT), 'sign': st.sampled_from(['+', '-']), 'amp': st.sampled_from([0., 1., 6.])})

BASE = {
    'coro': st.sampled_from(['LC', 'FLC', 'VC', 'HLC']),
    'cen': st.sampled_from(['pixel', 'interpixel']),
    'rot': st.booleans(), 'relays': st.tuples(*[st.integers(0, 2)]*4).map(list),
    'Nact': st.sampled_from([4, 5, 6]), 'pitch': st.sampled_from([.4, .4, .5, 1.]), 'Nbeam': st.sampled_from([16, 20, 24]), 'extra': st.sampled_from([0, 2, 4]),
    'dms': st.sampled_from([[1, 2], [1, 2], [1], [2]]), 'd1': DM, 'd2': DM,
    'dist': st.sampled_from([[0., .1], [.02, .05], [0., 0.], [-.03, .08], [-.08, .03], [.04, -.04]]),
    'stops': st.sampled_from([[0, 0], [0, 1], [1, 0], [1, 1]]),
    'apod': st.booleans(), 'Nsbp': st.sampled_from([1, 2, 3]), 'Nwp': st.sampled_from([1, 1, 2, 3]),
    'bw': st.sampled_from([.05, .2]), 'est': st.sampled_from(['perfect', 'pairwise']),
    'zern': st.sampled_from([[[1], [1.]], [[1], [1.]], [[1, 2, 3], [1., 1e-9, 2e-9]], [[4, 1], [3e-9, 1.]]]),
    'star': st.sampled_from([[[0.], [0.], [1.]], [[0.], [0.], [1.]], [[.5], [-.3], [1.]], [[0., 1.5], [.2, -1.], [1., .3]]]),
    'src': st.sampled_from([[3., 0.], [4., -3.5], [0., 3.]]),
    'charge': st.sampled_from([4, 6, 2, -4]), 'res': st.sampled_from([2.5, 3., 4.]), 'fov': st.sampled_from([6., 5., 7.]), 'eta': st.sampled_from([0., 0., 1.5, -.9]),
    'F3res': st.sampled_from([3., 4.]), 'F3N': st.sampled_from([11, 12, 16, 21]),
    'seed': SEED}


def base(**over):
    d = dict(BASE)
    d.update(over)
    return st.fixed_dictionaries(d)


# ---- building --------------------------------------------------------------------------------------------------

P2D = 1e-3
FL = 1.0
LAM0 = 550e-9


def pix(n, cen):
    """pixel coordinates in pixels"""
    return np.arange(n) - n/2. + .5 if cen == 'interpixel' else np.arange(n) - n//2


def amplitude(seed, n, nbeam, cen, floor=.4):
    """an asymmetric, partly transmitting mask inside the beam"""
    r = rng(seed)
    x = pix(n, cen)/nbeam
    X, Y = np.meshgrid(x, x)
    a = r.uniform(floor, 1, (n, n))*(np.hypot(X, Y) < .5)
    a[(np.abs(X - .1) < .06) & (Y > 0)] = 0
    return a


def smooth_phase(seed, n, cen, nbeam, amp=1.):
    r = rng(seed)
    x = pix(n, cen)/nbeam
    X, Y = np.meshgrid(x, x)
    p = 0
    for _ in range(4):
        u, v = r.integers(-3, 4, 2)
        p = p + r.standard_normal()*np.cos(2*np.pi*(u*X + v*Y) + r.uniform(0, 6))
    return amp*p


def build(c, tmp=None, controller='gridsearchefc', raw=False, diff=False, parallel=False):
    """(mp, ref) for the drawn parameters; ref keeps the raw inputs for the reference"""
    cen = c['cen']
    N, Nb = c['Nbeam'] + 2 + c['extra'], c['Nbeam']
    Nbf = c.get('NbeamFull', Nb)
    Nf = Nbf + 2 + c['extra']
    s = c['seed']
    mp = falco.config.ModelParameters()
    tmp = tmp or '/nonexistent'
    O = falco.config.Object
    for k in ('path', 'est', 'ctrl', 'jac', 'eval', 'Fend', 'full', 'compact', 'star'):
        setattr(mp, k, O())
    mp.compact.star, mp.jac.star, mp.Fend.corr, mp.Fend.score = O(), O(), O(), O()
    for k in ('config', 'ws', 'out', 'ws_inprogress', 'mask', 'jac', 'brief'):
        setattr(mp.path, k, tmp)
    mp.SeriesNum = mp.TrialNum = 1
    mp.flagParallel = parallel
    mp.Nthreads = 3
    mp.flagPlot = False
    mp.flagSim = True
    mp.centering = cen
    mp.thput_metric = 'hmi'
    mp.thput_radius, mp.thput_eval_x, mp.thput_eval_y = .7, 3., 0.
    mp.source_x_offset_norm, mp.source_y_offset_norm = c['src']
    mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp = LAM0, c['bw'], c['Nsbp'], c['Nwp']
    mp.estimator = c['est']
    mp.est.probe = falco.config.Probe()
    mp.ctrl.flagUseModel = True
    mp.logGmin = -6
    mp.jac.zerns = np.array(c['zern'][0])
    mp.jac.Zcoef = np.array(c['zern'][1])
    mp.eval.indsZnoll = np.array([2, 3])
    mp.eval.Rsens = np.array([[2., 4.]])
    mp.ctrl.log10regVec = np.arange(-6, -1, 1)
    mp.ctrl.dmfacVec = [1.]
    mp.WspatialDef = []
    nstar = len(c['star'][0])
    for so in (mp.star, mp.compact.star):
        so.count, so.xiOffsetVec, so.etaOffsetVec, so.weights = nstar, list(c['star'][0]), list(c['star'][1]), list(c['star'][2])
    mp.jac.star.weights = np.ones(nstar)
    mp.dm_ind = np.array(c['dms'])
    r = rng(s + 7)
    ref = {'c': c}
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        p = c['d%d' % i]
        n = c['Nact'] if i == 1 else c.get('Nact2', c['Nact'])
        d.weight = c.get('weights', [1., 1.])[i-1]
        d.inf_fn = falco.INFLUENCE_XINETICS
        d.dm_spacing = P2D/(n - .5)*c.get('pitch', 1.)
        d.inf_sign = p['sign']
        d.orientation = p['orient']
        d.Nact = n
        d.VtoH = 1e-9*r.uniform(.5, 2, (n, n))
        d.V = p['amp']*r.standard_normal((n, n))
        d.xtilt, d.ytilt, d.zrot = p['tilt']
        d.flagZYX = False
        d.xc, d.yc = (n-1)/2. + p['off'][0], (n-1)/2. + p['off'][1]
        d.edgeBuffer = c.get('edge', 1)
        d.Dstop = P2D*.8
        if diff:
            d.useDifferentiableModel = True
    mp.flagDM1stop, mp.flagDM2stop = bool(c['stops'][0]), bool(c['stops'][1])
    mp.d_P2_dm1, mp.d_dm1_dm2 = c['dist']
    mp.controller = controller
    mp.Nitr = 1
    mp.relinItrVec = np.arange(1)
    mp.coro = {'VC': 'vortex'}.get(c['coro'], c['coro'])
    mp.layout = 'fpm_scale' if (c['coro'] == 'HLC' or c.get('fscale')) else 'Fourier'
    mp.Fend.res = c['res']
    if c.get('eta'):                    # a camera that is not square
        mp.Fend.xiFOV, mp.Fend.etaFOV = c['fov'], c['fov'] + c['eta']
    else:
        mp.Fend.FOV = c['fov']
    mp.Fend.sides = c.get('side', 'lr')
    mp.Fend.corr.Rin, mp.Fend.corr.Rout, mp.Fend.corr.ang = 1.5, c['fov'] - 1., 150.
    mp.Fend.score.Rin, mp.Fend.score.Rout, mp.Fend.score.ang = c.get('score', [2., c['fov'] - 2., 140.])
    mp.Fend.shape = 'circle'
    mp.fl = FL
    mp.P2.D = mp.P3.D = mp.P4.D = P2D
    nb4 = c.get('nb4') if c['coro'] == 'FLC' else None
    Nl, Nlf = nb4 or Nb, nb4 or Nbf
    mp.P1.compact.Nbeam, mp.P4.compact.Nbeam = Nb, Nl
    mp.P1.full.Nbeam, mp.P4.full.Nbeam = Nbf, Nlf
    mp.flagRotation = c['rot']
    mp.Nrelay1to2, mp.Nrelay2to3, mp.Nrelay3to4, mp.NrelayFend = c['relays']
    mp.F3.compact.res = mp.F3.full.res = c['F3res']
    mp.P1.IDnorm, mp.P1.ODnorm, mp.P1.D = 0., 1., 4.
    mp.P4.IDnorm, mp.P4.ODnorm = 0., 1.
    ref['compact'] = {'P1': amplitude(s, N, Nb, cen), 'P3': amplitude(s + 1, N, Nb, cen, .1),
                      'P4': amplitude(s + 2, Nl + 2 + c['extra'], Nl, cen, .2)}
    same = Nbf == Nb
    ref['full'] = ref['compact'] if same else {'P1': amplitude(s, Nf, Nbf, cen), 'P3': amplitude(s + 1, Nf, Nbf, cen, .1),
                                               'P4': amplitude(s + 2, Nlf + 2 + c['extra'], Nlf, cen, .2)}
    # shrink the Lyot stop inside its array in some cases, so that cropping has something to do
    lmax = c.get('lyot', .5)
    for k in ('compact', 'full'):
        m = ref[k]['P4'] if not (k == 'full' and same) else None
        if m is not None:
            n = m.shape[0]
            x = pix(n, cen)/(Nl if k == 'compact' else Nlf)
            m *= (np.hypot(*np.meshgrid(x, x)) < lmax)
    mp.P1.full.mask, mp.P1.compact.mask = ref['full']['P1'].copy(), ref['compact']['P1'].copy()
    mp.flagApod = c['apod']
    if s % 2:
        # an apodizer may also retard the light
        for k, n, nb in (('compact', N, Nb), ('full', Nf, Nbf)):
            if k == 'compact' or not same:
                ref[k]['P3'] = ref[k]['P3']*np.exp(1j*smooth_phase(s + 5, n, cen, nb, .5))
    mp.P3.full.mask, mp.P3.compact.mask = ref['full']['P3'].copy(), ref['compact']['P3'].copy()
    mp.P4.full.mask, mp.P4.compact.mask = ref['full']['P4'].copy(), ref['compact']['P4'].copy()
    mp.P4.compact.maskAtP1res = ref['compact']['P4'].copy() if not nb4 else np.ones((N, N))
    n3 = c['F3N']
    m3 = c.get('F3M') or n3
    r3 = rng(s + 3)
    if c['coro'] == 'VC':
        mp.F3.VortexCharge = c['charge']
        if c.get('chromatic'):
            mp.F3.VortexCharge = np.array([c['charge'] + .4, c['charge'] + 0., c['charge'] - .3])
            mp.F3.VortexCharge_lambdas = LAM0*np.array([.95, 1., 1.06])
    elif c['coro'] == 'HLC':
        ns, nw = c['Nsbp'], c['Nwp']
        nlam = ns if nw == 1 else ns*(nw - 1) + 1
        cube = r3.uniform(0, 1, (m3, n3, ns))*np.exp(1j*r3.uniform(-2, 2, (m3, n3, ns)))
        ref['fpm'] = cube
        ref['fpmfull'] = cube if nw == 1 else r3.uniform(0, 1, (m3, n3, nlam))*np.exp(1j*r3.uniform(-2, 2, (m3, n3, nlam)))
        mp.F3.compact.mask = cube[:, :, 0].copy()
        mp.F3.full.mask = cube[:, :, 0].copy()
        mp.compact.fpmCube = cube.copy()
        mp.full.fpmCube = ref['fpmfull'].copy()
        mp.t_diel_bias_nm = 0.
    else:
        mp.F3.Rin = mp.F3.RinA = 2.
        mp.F3.Rout, mp.F3.ang = 5., 180.
        m = r3.uniform(0, 1, (m3, n3))
        ref['fpm'] = m
        mp.F3.compact.mask, mp.F3.full.mask = m.copy(), m.copy()
    mp.FPMampFac = 0.
    E = np.stack([np.exp(1j*smooth_phase(s + 11 + i, N, cen, Nb, .3))*(1 + .05*i) for i in range(c['Nsbp'])], axis=2)
    ref['Ec'] = E
    mp.P1.compact.E = E.copy()
    Ef = np.stack([np.stack([np.exp(1j*smooth_phase(s + 11 + i, Nf, cen, Nbf, .3))*(1 + .05*i)
                             for i in range(c['Nsbp'])], axis=2)]*c['Nwp'], axis=2)
    ref['Ef'] = Ef
    mp.P1.full.E = Ef.copy()
    if c.get('wfe'):
        mp.flagDMwfe = True
        for i in (1, 2):
            d = getattr(mp, 'dm%d' % i)
            d.wfe = 3e-8*smooth_phase(s + 30 + i, Nf + 4, cen, Nbf)
            ref['wfe%d' % i] = {'full': d.wfe.copy(), 'compact': 3e-8*smooth_phase(s + 30 + i, N + 4, cen, Nb)}
    if raw:
        return mp, ref
    with quiet():
        out = falco.setup.flesh_out_workspace(mp)
        if c.get('wfe') and not same:
            # the setup copies the maps of the full model, which has another sampling here
            for i in (1, 2):
                getattr(mp, 'dm%d' % i).compact.wfe = ref['wfe%d' % i]['compact'].copy()
            falco.imaging.calc_psf_norm_factor(mp)
    ref['out'] = out
    return mp, ref


# ---- reference propagation -------------------------------------------------------------------------------------

def rotate(E, n, cen):
    """n times 180 degrees about the optical axis, by index arithmetic on the even array"""
    if n % 2 == 0:
        return E
    N = E.shape[0]
    out = np.zeros_like(E)
    src = (-np.arange(N)) % N if cen == 'pixel' else N - 1 - np.arange(N)
    return E[np.ix_(src, src)]


def centre(E, n):
    """centred n x n version of the array"""
    out = np.zeros((n, n), dtype=E.dtype)
    N = E.shape[0]
    o = n//2 - N//2
    for (a0, b0) in [(max(0, o), max(0, -o))]:
        m = min(n, N)
        out[a0:a0+m, a0:a0+m] = E[b0:b0+m, b0:b0+m]
    return out


def dft(E, x, xi, eta, wvl, sgn=-1.):
    """explicit lens transform from pupil coordinates x (both axes) to focal coordinates"""
    A = np.exp(sgn*2j*np.pi*np.outer(eta, x)/(wvl*FL))
    B = np.exp(sgn*2j*np.pi*np.outer(x, xi)/(wvl*FL))
    return A @ E @ B


def back(F, xi, eta, x, wvl):
    """explicit lens transform from focal coordinates to the square pupil grid x"""
    return np.exp(-2j*np.pi*np.outer(x, eta)/(wvl*FL)) @ F @ np.exp(-2j*np.pi*np.outer(xi, x)/(wvl*FL))


def fresnel(E, dx, wvl, z):
    if z == 0:
        return E
    N = E.shape[0]
    f = np.fft.fftfreq(N, dx)
    H = np.exp(-1j*np.pi*wvl*z*(f[:, None]**2 + f[None, :]**2))
    return np.fft.ifft2(np.fft.fft2(E)*H)


def wavelengths(c):
    """(Nsbp, Nwp) wavelengths of the full model and the sub-band centres"""
    w = LAM0*c['bw']
    ns, nw = c['Nsbp'], c['Nwp']
    if nw == 1:
        cen = LAM0 - w/2 + w*np.arange(ns)/(ns - 1) if ns > 1 else np.array([LAM0])
    else:
        cen = LAM0 - w/2 + w/ns*(np.arange(ns) + .5)
    sub = np.zeros(1) if nw == 1 else np.linspace(-.5, .5, nw)*w/ns
    return cen[:, None] + sub[None, :], cen


def propagate(mp, ref, which, si, wvl, star, zern, norm, useFPM=True, evalmode=False, off=None, I00=None, wi=0):
    """independent compact/full model; returns the field, normalised by I00 when given"""
    c = ref['c']
    cen = c['cen']
    full = which == 'full'
    Nb = c.get('NbeamFull', c['Nbeam']) if full else c['Nbeam']
    dx = P2D/Nb
    masks = ref[which]
    N = int(mp.full.NdmPad if full else mp.compact.NdmPad)
    n1 = masks['P1'].shape[0]
    n1 += n1 % 2
    x1 = pix(n1, cen)/Nb
    X, Y = np.meshgrid(x1, x1)
    E0 = ref['Ef'][:, :, 0, si] if full else ref['Ec'][:, :, si]
    E = centre(E0, n1)*centre(masks['P1'], n1)
    xo, yo, w = c['star'][0][star], c['star'][1][star], c['star'][2][star]
    ph = xo*X + yo*Y
    if off is not None:
        ph = ph + off[0]*X + off[1]*Y
    if norm:
        ph = ph + c['src'][0]*X + c['src'][1]*Y
    E = np.sqrt(w)*E*np.exp(-2j*np.pi*ph*LAM0/wvl)
    if zern != 1:
        E = E*zernike(zern, X, Y)*(2j*np.pi/wvl)*c['zern'][1][c['zern'][0].index(zern)]
    fac = 1 if c['rot'] else 0
    R = [fac*k for k in c['relays']]
    E = rotate(centre(E, N), R[0], cen)
    E = fresnel(E, dx, wvl, c['dist'][0])
    for i, d in ((1, mp.dm1), (2, mp.dm2)):
        if i == 2:
            E = fresnel(E, dx, wvl, c['dist'][1])
        if c['stops'][i-1]:
            m = (mp.dm1 if i == 1 else mp.dm2)
            E = E*centre(stop_mask(dx, d.Dstop, cen), N)
        if i in c['dms']:
            key = ('surf', i, which)
            sig = d.V.tobytes()
            if ref.get(key, (None,))[0] != sig:
                ref[key] = (sig, dmkit.oracle_surface(d, 'xin', N, dx))
            E = E*np.exp(4j*np.pi*ref[key][1]/wvl)
            if c.get('wfe'):
                # the map is zero (no error) outside its array
                E = E*np.exp(2j*np.pi*centre(ref['wfe%d' % i][which], N)/wvl)
    E = fresnel(E, dx, wvl, -(c['dist'][0] + c['dist'][1]))
    E = rotate(E, R[1], cen)
    if c['apod']:
        E = E*centre(masks['P3'], N)
    scale = wvl/LAM0 if ((c['coro'] == 'HLC' and not c.get('fixed')) or c.get('fscale')) else 1.
    x3 = x4 = pix(N, cen)*dx
    dx4 = dx
    if c['coro'] == 'FLC' and c.get('nb4'):
        dx4 = P2D/c['nb4']
        x4 = pix(masks['P4'].shape[0], cen)*dx4
    if c['coro'] == 'VC':
        if norm or not useFPM:
            E4 = rotate(E, R[2], cen)
        else:
            # the vortex relay includes one rotation
            charge = c['charge']
            if c.get('chromatic'):
                x, y = np.array([.95, 1., 1.06]), charge + np.array([.4, 0, -.3])
                k = 0 if wvl < LAM0 else 1
                charge = y[k] + (y[k+1] - y[k])/(x[k+1] - x[k])*(wvl/LAM0 - x[k])
            E4 = rotate(falco.prop.mft_p2v2p(E, charge, Nb/2., .3, 5), R[2] + 1, cen)
    else:
        f3 = ref['fpm']
        if c['coro'] == 'HLC':
            f3 = f3[:, :, si] if not full else ref['fpmfull'][:, :, si*max(1, c['Nwp'] - 1) + wi]
        d3 = FL*LAM0/P2D/c['F3res']*scale
        xi3, eta3 = [pix(k, cen if k % 2 == 0 else 'pixel')*d3 for k in f3.shape[1::-1]]
        F = dft(E, x3, xi3, eta3, wvl)*dx*d3/(wvl*FL)
        k = dx*d3/(wvl*FL)
        if c['coro'] == 'FLC':
            if useFPM:
                E4 = rotate(back(F*f3, xi3, eta3, x4, wvl)*dx4*d3/(wvl*FL), R[2] + 1, cen)
            elif dx4 == dx:
                E4 = centre(rotate(E, R[2], cen), x4.size)
            else:
                E4 = coarser(rotate(E, R[2], cen), x3, x4, dx, dx4)
        else:
            t = f3[0, 0] if c['coro'] == 'HLC' else 1.
            if useFPM:
                E4 = t*rotate(E, R[2], cen) - rotate(back(F*(t - f3), xi3, eta3, x3, wvl)*k, R[2] + 1, cen)
            else:
                E4 = t*rotate(E, R[2], cen)
    E4 = E4*centre(masks['P4'], x4.size)
    E4 = rotate(E4, R[3], cen)
    res = c['res']
    d5 = FL*LAM0/P2D/res
    nxi = mp.Fend.Nxi
    if evalmode:
        d5, nxi = mp.Fend.eval.dxi, mp.Fend.eval.Nxi
    neta = mp.Fend.eval.Neta if evalmode else mp.Fend.Neta
    xi5, eta5 = pix(nxi, cen)*d5, pix(neta, cen)*d5
    out = dft(E4, x4, xi5, eta5, wvl)*dx4*d5/(wvl*FL)
    return out if I00 is None else out/np.sqrt(I00)


def coarser(E, x, x4, dx, dx4):
    """the field averaged over the round pixels of a coarser grid at its coordinates, with the same energy per pixel"""
    from scipy.interpolate import RectBivariateSpline
    from scipy.signal import fftconvolve
    k = np.arange(-3, 4)
    win = (np.hypot(*np.meshgrid(k, k)) <= dx4/dx/2*(1 + 1e-12)).astype(float)
    A = fftconvolve(E, win/win.sum(), 'same')
    return dx4/dx*(RectBivariateSpline(x, x, A.real)(x4, x4) + 1j*RectBivariateSpline(x, x, A.imag)(x4, x4))


def stop_mask(dx, D, cen):
    return np.real(falco.mask.falco_gen_DM_stop(dx, D, cen))


def zernike(j, X, Y):
    """unit-RMS Noll Zernikes 2-4 on the unit disc (amplitude everywhere, the mask cuts them)"""
    r = np.hypot(X, Y)*2
    x, y = 2*X, 2*Y
    return {2: 2*x, 3: 2*y, 4: np.sqrt(3)*(2*r**2 - 1)}[j]


def i00(mp, ref, which, si, wvl, evalmode=False, wi=0):
    return np.max(np.abs(propagate(mp, ref, which, si, wvl, 0, 1, True, evalmode=evalmode, wi=wi))**2)

"""A tiny coronagraph for demonstrations."""
import io
import contextlib
import numpy as np
import falco

LAM0 = 550e-9


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def tiny(coro='LC', star=([0.], [0.], [1.]), Nsbp=1, Nwp=1, bw=.1, dms=(1, 2), dist=(0., 0.), layout='Fourier', est='pairwise',
         zern=((1,), (1.,)), stops=(False, False), relays=(0, 0, 0, 0), rot=False, cen='pixel', apod=False, Nact=5, amp=0.,
         controller='gridsearchefc', jacstar=None, seed=0, res=3., tweak=None, diff=False, sides='lr', tilt=(0., 0., 0.), orient='rot0'):
    r = np.random.default_rng(seed)
    N, Nb = 22, 20
    mp = falco.config.ModelParameters()
    O = falco.config.Object
    for k in ('path', 'est', 'ctrl', 'jac', 'eval', 'Fend', 'full', 'compact', 'star'):
        setattr(mp, k, O())
    mp.compact.star, mp.jac.star, mp.Fend.corr, mp.Fend.score = O(), O(), O(), O()
    for k in ('config', 'ws', 'out', 'ws_inprogress', 'mask', 'jac', 'brief'):
        setattr(mp.path, k, '/nonexistent')
    mp.SeriesNum = mp.TrialNum = 1
    mp.flagParallel, mp.Nthreads, mp.flagPlot, mp.flagSim = False, 3, False, True
    mp.centering = cen
    mp.thput_metric, mp.thput_radius, mp.thput_eval_x, mp.thput_eval_y = 'hmi', .7, 3., 0.
    mp.source_x_offset_norm, mp.source_y_offset_norm = 3., 0.
    mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp = LAM0, bw, Nsbp, Nwp
    mp.estimator = est
    mp.est.probe = falco.config.Probe()
    mp.ctrl.flagUseModel = True
    mp.logGmin = -6
    mp.jac.zerns, mp.jac.Zcoef = np.array(zern[0]), np.array(zern[1])
    mp.eval.indsZnoll, mp.eval.Rsens = np.array([2, 3]), np.array([[2., 4.]])
    mp.ctrl.log10regVec, mp.ctrl.dmfacVec = np.arange(-6, -1, 1), [1.]
    mp.WspatialDef = []
    for so in (mp.star, mp.compact.star):
        so.count, so.xiOffsetVec, so.etaOffsetVec, so.weights = len(star[0]), list(star[0]), list(star[1]), list(star[2])
    mp.jac.star.weights = np.ones(len(star[0])) if jacstar is None else np.array(jacstar)
    mp.dm_ind = np.array(dms)
    for d in (mp.dm1, mp.dm2):
        d.weight = 1.
        d.inf_fn, d.dm_spacing, d.inf_sign, d.orientation = falco.INFLUENCE_XINETICS, 1e-3/(Nact - .5), '+', orient
        d.Nact = Nact
        d.VtoH = 1e-9*r.uniform(.5, 2, (Nact, Nact))
        d.V = amp*r.standard_normal((Nact, Nact))
        d.xtilt, d.ytilt, d.zrot = tilt
        d.flagZYX = False
        d.xc = d.yc = (Nact - 1)/2.
        d.edgeBuffer, d.Dstop = 1, .8e-3
        d.useDifferentiableModel = diff
    mp.flagDM1stop, mp.flagDM2stop = stops
    mp.d_P2_dm1, mp.d_dm1_dm2 = dist
    mp.controller, mp.Nitr, mp.relinItrVec = controller, 1, np.arange(1)
    mp.coro, mp.layout = coro, layout
    mp.Fend.res, mp.Fend.FOV, mp.Fend.sides, mp.Fend.shape = res, 6., sides, 'circle'
    mp.Fend.corr.Rin, mp.Fend.corr.Rout, mp.Fend.corr.ang = 1.5, 5., 150.
    mp.Fend.score.Rin, mp.Fend.score.Rout, mp.Fend.score.ang = 2., 4., 140.
    mp.fl = 1.
    mp.P2.D = mp.P3.D = mp.P4.D = 1e-3
    mp.P1.compact.Nbeam = mp.P1.full.Nbeam = mp.P4.compact.Nbeam = mp.P4.full.Nbeam = Nb
    mp.flagRotation = rot
    mp.Nrelay1to2, mp.Nrelay2to3, mp.Nrelay3to4, mp.NrelayFend = relays
    mp.F3.compact.res = mp.F3.full.res = 4.
    mp.P1.IDnorm, mp.P1.ODnorm, mp.P1.D, mp.P4.IDnorm, mp.P4.ODnorm = 0., 1., 4., 0., 1.
    x = np.arange(N) - N//2 + (.5 if cen == 'interpixel' else 0)
    X, Y = np.meshgrid(x, x)
    def mask(f):
        return r.uniform(.4, 1, (N, N))*(np.hypot(X, Y) < f*Nb)
    a, b, c = mask(.5), mask(.5), mask(.42)
    mp.P1.full.mask, mp.P1.compact.mask = a.copy(), a.copy()
    mp.flagApod = apod
    mp.P3.full.mask, mp.P3.compact.mask = b.copy(), b.copy()
    mp.P4.full.mask, mp.P4.compact.mask, mp.P4.compact.maskAtP1res = c.copy(), c.copy(), c.copy()
    mp.F3.Rin = mp.F3.RinA = 2.
    mp.F3.Rout, mp.F3.ang = 5., 180.
    if coro == 'vortex':
        mp.F3.VortexCharge = 4
    m = r.uniform(0, 1, (12, 12))
    mp.F3.compact.mask, mp.F3.full.mask = m.copy(), m.copy()
    mp.FPMampFac = 0.
    mp.P1.compact.E = np.ones((N, N, Nsbp), dtype=complex)
    mp.P1.full.E = np.ones((N, N, Nwp, Nsbp), dtype=complex)
    if tweak:
        tweak(mp)
    with quiet():
        out = falco.setup.flesh_out_workspace(mp)
    mp.demo_out = out
    return mp


def mv(si=0, star=0, zern=1, wi=0, src='star'):
    m = falco.config.ModelVariables()
    m.sbpIndex, m.starIndex, m.zernIndex, m.wpsbpIndex, m.whichSource = si, star, zern, wi, src
    return m

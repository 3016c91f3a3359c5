from plantlib import plant
plant('p01-rect-sampling','C02','falco/prop.py',[("""    y = x.T  # Row vector

    # Focal-plane coordinates
    xi = util.create_axis(Nxi, dxi, centering=centering)[None, :]  # Broadcast to row vector
    eta = util.create_axis(Neta, deta, centering=centering)[:, None]""","""    y = x.T  # Row vector

    # Focal-plane coordinates
    xi = util.create_axis(Nxi, dxi, centering=centering)[None, :]  # Broadcast to row vector
    eta = util.create_axis(Neta, deta if Neta != Nxi else dxi, centering=centering)[:, None]""")],
'a square focal-plane array sampled differently along its two axes',
'the vertical focal-plane coordinate uses the horizontal step for square arrays with different steps','''
import numpy as np
import falco
r = np.random.default_rng(3)
E = r.normal(size=(12, 12)) + 1j*r.normal(size=(12, 12))
fl, wvl, dx, dxi, deta, N = 1., 5e-7, 1e-3, 2e-5, 3e-5, 9
F = falco.prop.mft_p2f(E, fl, wvl, dx, dxi, N, deta, N)
x = (np.arange(12) - 6)*dx
xi = (np.arange(N) - N//2)
for m, n in ((0, 0), (2, 7), (8, 1)):
    k = np.exp(-2j*np.pi/(wvl*fl)*(x[None, :]*xi[n]*dxi + x[:, None]*xi[m]*deta))
    exp = np.sum(E*k)*dx*np.sqrt(dxi*deta)/(wvl*fl)
    assert abs(F[m, n] - exp) < 1e-9*np.abs(F).max(), (m, n, F[m, n], exp)
''')
plant('p02-pinned-dead','C11','falco/dm.py',[("""        Vflat = dm.V.flatten()
        Vflat[dm.pinned.astype(int)] = dm.Vpinned
        dm.V = Vflat.reshape(dm.V.shape)
""","""        Vflat = dm.V.flatten()
        Vflat[dm.pinned.astype(int)[::-1]] = dm.Vpinned
        dm.V = Vflat.reshape(dm.V.shape)
""")],'two or more actuators pinned or beyond a bound at different values',
'pinned actuators swap their fixed values','''
import numpy as np
import falco
d = falco.config.Object()
d.Nact = 4
d.V = np.zeros((4, 4))
d.V[1, 2] = 500.
d.V[3, 0] = -500.
d.biasMap = np.zeros((4, 4))
d.Vmin, d.Vmax = -50., 80.
d.dead = []
d.pinned = np.array([2])
d.Vpinned = np.array([7.])
d.tied = np.zeros((0, 2))
falco.dm.enforce_constraints(d)
assert d.V[1, 2] == 80. and d.V[3, 0] == -50. and d.V[0, 2] == 7., d.V
''')
plant('p03-jac-weights','C07','falco/setup.py',[("""    for izern in range(mp.jac.Nzern):
        colSum = np.double(sum(mp.jac.weightMat[:, izern]))
        mp.jac.weightMat[:, izern] = mp.jac.weightMat[:, izern]/colSum
""","""    colSum = np.double(sum(mp.jac.weightMat[:, 0]))
    for izern in range(mp.jac.Nzern):
        mp.jac.weightMat[:, izern] = mp.jac.weightMat[:, izern]/colSum
""")],'aberration modes besides piston and more than three subbands (or piston not listed first)',
'weights of the aberration modes are normalized by the sum of the first column','''
import numpy as np
import falco
mp = falco.config.ModelParameters()
mp.Nsbp = 5
mp.si_ref = 2
mp.estimator = 'pairwise'
mp.jac = falco.config.Object()
mp.compact = falco.config.Object()
mp.compact.star = falco.config.Object()
mp.jac.zerns = np.array([1, 2])
mp.jac.Zcoef = np.array([1., 1e-9])
mp.compact.star.count = 1
falco.setup.falco_set_jacobian_modal_weights(mp)
for z in (1, 2):
    s = mp.jac.weights[mp.jac.zern_inds == z].sum()
    assert abs(s - 1) < 1e-12, (z, s)
''')
plant('p04-star-weight','C15','falco/model/jacobians.py',[("""        Ein = np.sqrt(starWeight) * Ett * \\
            np.squeeze(mp.P1.compact.E[:, :, modvar.sbpIndex])

        # Apply a Zernike""","""        Ein = starWeight * Ett * \\
            np.squeeze(mp.P1.compact.E[:, :, modvar.sbpIndex])

        # Apply a Zernike""")],'a star whose weight is not 1',
'Jacobian of a star of weight w scales as w instead of sqrt(w), unlike the model','''
import numpy as np
import falco
from tiny import tiny
w = 4.
mp = tiny(star=([.5], [.2], [w]))
mp.dm_ind = np.array([1])
mask = mp.Fend.corr.maskBool
J = falco.model.jacobian(mp)
k = 5
h = .02
mod = falco.config.ModelVariables()
mod.sbpIndex, mod.starIndex, mod.zernIndex, mod.whichSource = 0, 0, 1, 'star'
def E(s):
    mp.dm1.V[...] = 0
    mp.dm1.V.flat[mp.dm1.act_ele[k]] = s*h
    return falco.model.compact(mp, mod)[mask]
d = (E(1) - E(-1))/(2*h)*mp.dm1.weight
e = np.linalg.norm(J.G1[:, k, 0] - d)/np.linalg.norm(d)
print(e)
assert e < 2e-2, e
''')

plant('p05-flc-scaled-eta','C14','falco/model/models.py',[("""            EP4 = falco.prop.mft_f2p(EF3, mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi,
                                     fpmScaleFac*mp.F3.compact.deta, mp.P4.compact.dx,
                                     mp.P4.compact.Narr, mp.centering)
            EP4 = falco.prop.relay(EP4, NrelayFactor*mp.Nrelay3to4-1, mp.centering)

        elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
            # MFT from SP to FPM (i.e., P3 to F3)""","""            EP4 = falco.prop.mft_f2p(EF3, mp.fl, wvl, fpmScaleFac*mp.F3.compact.dxi,
                                     mp.F3.compact.deta, mp.P4.compact.dx,
                                     mp.P4.compact.Narr, mp.centering)
            EP4 = falco.prop.relay(EP4, NrelayFactor*mp.Nrelay3to4-1, mp.centering)

        elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
            # MFT from SP to FPM (i.e., P3 to F3)""")],'FLC with a focal-plane mask that scales with wavelength, off-centre subband',
'compact model returns to the Lyot plane with an unscaled vertical step','''
import numpy as np
import falco
from tiny import tiny, mv
# with the mask scaling with wavelength the mask sees the same field (in lambda/D) at every wavelength
mp = tiny(coro='FLC', layout='fpm_scale', Nsbp=3, bw=.3)
full = falco.model.full(mp, mv(2, wi=0))
comp = falco.model.compact(mp, mv(2))
e = np.abs(full - comp).max()/np.abs(full).max()
print(e)
assert e < 1e-6, e
''')
plant('p06-lazy-retry','C08','falco/config/Eval.py',[('''        try:
            result = eval(self.code, self.globals, self.locals)
        finally:
            self.in_progress = False
        return result
''','''        result = eval(self.code, self.globals, self.locals)
        self.in_progress = False
        return result
''')],'a lazy expression read once while something it needs is missing, then read again after that is provided',
'the second read reports a circular dependency although there is none','''
import falco
from falco.config.Eval import Eval
o = falco.config.Object()
o.a = Eval({}, {'o': o}, 'o.b*2')
o = falco.config.Object(a=Eval({}, {}, 'o.b*2'))
o.data['a'].locals['o'] = o
try:
    o.a
    raise SystemExit('expected an error')
except AttributeError:
    pass
o.b = 4
assert o.a == 8
''')
plant('p07-bowtie-side','C06','falco/mask.py',[],'','','')

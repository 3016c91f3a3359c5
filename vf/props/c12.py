"""C12: fitting a mirror surface recovers the commands that made it."""
import numpy as np
from hypothesis import strategies as st
from scipy.ndimage import convolve, map_coordinates
from core import Facets, close, need, raises, real, rng
import dmkit
from props.c10 import DMP, mk
import falco
from falco import proper

F = Facets('C12', rule='random commands on mirrors of 3-12 actuators with drawn alignment, orientation, sampling and influence '
           'function; non-trivial = commands that are not all zero on a mirror that is offset, tilted, re-oriented or has gains '
           'that vary', assumptions=['commands in the outermost two actuators are left at zero when a resampled surface is fitted'])
SEED = st.integers(0, 2**20)


def inf_at_actuators(key):
    """influence function sampled at actuator spacing (independent cubic spline)"""
    coef, c0, ppa = dmkit.spline_inf(key)
    k = 5
    g = np.arange(-k, k + 1)*ppa + c0
    Y, X = np.meshgrid(g, g, indexing='ij')
    return map_coordinates(coef, [Y, X], order=3, prefilter=False)


@F.facet(st.fixed_dictionaries({'n': st.integers(3, 11), 'inf': st.sampled_from(['xin', 'bmc']), 'sign': st.sampled_from(['+', '-']),
                                'orient': st.sampled_from(dmkit.ORIENT), 'seed': SEED, 'zero': st.booleans(), 'pre': st.booleans()}),
         quick=150, thorough=3000)
def actres(c, rec):
    """a surface given at actuator resolution is inverted exactly by the least-squares fit"""
    mp, d = dmkit.make(Nact=c['n'], inf=c['inf'], sign=c['sign'], orient=c['orient'])
    n = c['n']
    r = rng(c['seed'])
    V = r.standard_normal((n, n))
    d.VtoH = 1e-9*r.uniform(.5, 2, (n, n))
    d.surfFitMethod = 'lsq'
    sgn = -1 if c['sign'] == '-' else 1
    H = dmkit.orient_map(d.VtoH*V, c['orient'])
    S = convolve(H, sgn*inf_at_actuators(c['inf']), mode='constant')
    S0 = S.copy()
    if c['pre']:
        falco.dm.make_dm_prefilter_attribute(d)
    dead = None
    if c['zero']:                       # an actuator with no gain gets no command
        dead = (r.integers(n), r.integers(n))
        d.VtoH = d.VtoH.copy()
        d.VtoH[dead] = 0
    for k in range(2):                  # the stored prefilter serves a second fit
        W = falco.dm.fit_surf_to_act(d, S*(k + 1))
        exp = V*(k + 1)
        if dead is not None:
            exp = exp.copy()
            exp[dead] = 0
        close(W, exp, 1e-5, msg='fitted commands')
    need(np.array_equal(S, S0), 'surface changed')
    rec.nontrivial()


@F.facet(st.fixed_dictionaries({**{k: v for k, v in DMP.items() if k not in ('Nact', 'ppact')}, 'Nact': st.integers(7, 12),
                                'ppact': st.floats(3.5, 8.), 'seed': SEED, 'method': st.sampled_from(['lsq', 'proper', 'LSQ'])}),
         quick=60, thorough=800, timeout=300)
def roundtrip(c, rec):
    """fitting the rendered surface gives back the commands to a few percent, whatever the alignment and orientation"""
    mp, d = mk(c)
    n = c['Nact']
    r = rng(c['seed'])
    V = np.zeros((n, n))
    V[2:-2, 2:-2] = r.standard_normal((n - 4, n - 4))
    d.V = V.copy()
    d.VtoH = 1e-9*r.uniform(.5, 2, (n, n))
    N = int(2*np.ceil((n + 12)*c['ppact']/2))
    S = falco.dm.gen_surf_from_act(d, d.dx, N)
    d.surfFitMethod = c['method']
    W = falco.dm.fit_surf_to_act(d, S)
    e = np.abs(d.VtoH*(W - V)).max()/np.abs(d.VtoH*V).max()
    lim = .08 if c['inf'] == 'xin' else .3      # the broader influence function is less well conditioned
    need(e < lim, 'fitted commands off by %.3f', e)
    d.V = W
    S2 = falco.dm.gen_surf_from_act(d, d.dx, N)
    e = np.abs(S2 - S).max()/np.abs(S).max()
    need(e < lim, 'surface of the fitted commands off by %.3f', e)
    rec.nontrivial()
    rec.label('tilted', any(c['tilt']))
    rec.label(c['method'])


@F.facet(st.fixed_dictionaries({**{k: v for k, v in DMP.items() if k not in ('Nact', 'ppact')}, 'Nact': st.integers(9, 12),
                                'ppact': st.floats(3.5, 8.), 'x': st.floats(-1.5, 1.5), 'y': st.floats(-1.5, 1.5),
                                'tip': st.floats(-.4, .4), 'method': st.sampled_from(['lsq', 'proper'])}),
         quick=60, thorough=800, timeout=300)
def smooth_command(c, rec):
    """a smooth displaced bump of commands is recovered actuator by actuator to 3% of its height"""
    mp, d = mk(c)
    n = c['Nact']
    a = np.arange(n) - (n - 1)/2
    X, Y = np.meshgrid(a - c['x'], a - c['y'])
    s = n/6.5
    V = np.exp(-(X**2 + Y**2)/2/s**2)*(1 + c['tip']*X/s)
    d.V = V.copy()
    d.VtoH = 1e-9*np.ones((n, n))
    N = int(2*np.ceil((n + 12)*c['ppact']/2))
    S = falco.dm.gen_surf_from_act(d, d.dx, N)
    d.surfFitMethod = c['method']
    W = falco.dm.fit_surf_to_act(d, S)
    e = np.abs(W - V)
    i = np.unravel_index(np.argmax(e), e.shape)
    need(e[1:-1, 1:-1].max() < .03 and (e.max() < .05 or c['method'] == 'proper' and e.max() < .2), 'actuator %s is commanded %.4f, expected %.4f', i, W[i], V[i])
    rec.nontrivial()
    rec.label('tilted', any(c['tilt']))


@F.facet(st.fixed_dictionaries({'nr': st.integers(2, 8), 'nc': st.integers(2, 8), 'm': st.integers(0, 3), 'ppa': st.integers(1, 5),
                                'seed': SEED}), quick=150, thorough=3000)
def prefilter(c, rec):
    """the prefilter is the effect of every actuator on every other, for rectangular grids, and the fit solves with it"""
    nr, nc, ppa = c['nr'], c['nc'], c['ppa']
    half = c['m']*ppa
    y = np.arange(-half, half + 1)/ppa
    r = rng(c['seed'])
    a = r.uniform(.3, .9)
    g = np.exp(-(y/a)**2*2)
    inf = np.outer(g, g)
    if inf.shape[0] < 4 and ppa > 1:
        return
    A = falco.dm.build_prefilter(nr, nc, inf, float(ppa)).toarray()
    exp = np.zeros((nr*nc, nr*nc))
    for i in range(nr*nc):
        for j in range(nr*nc):
            dy, dx = abs(i//nc - j//nc), abs(i % nc - j % nc)
            if max(dy, dx) <= c['m']:
                exp[i, j] = np.exp(-(dy/a)**2*2)*np.exp(-(dx/a)**2*2)
    close(A, exp, 1e-7, msg='actuator coupling')
    import scipy.sparse
    b = r.standard_normal((nr, nc))
    x = falco.dm.fit_surf_with_dm_lsq(b, scipy.sparse.csr_matrix(exp))
    close((exp @ x.ravel()).reshape(nr, nc), b, 1e-7, msg='solution')
    if nr*nc > 1:
        raises(TypeError, falco.dm.fit_surf_with_dm_lsq, np.ones((nr + 1, nc)), scipy.sparse.csr_matrix(exp))
        raises(TypeError, falco.dm.fit_surf_with_dm_lsq, b, exp)
    rec.nontrivial(c['m'] > 0)


@F.facet(st.fixed_dictionaries({'n0': st.integers(2, 30), 'pi': st.integers(2, 8), 'po': st.integers(1, 8), 'seed': SEED}),
         quick=150, thorough=2000)
def resample(c, rec):
    """a resampled influence function has the same values at the shared coordinates, stays centred and odd-sized"""
    n = 2*c['n0'] + 1
    x = (np.arange(n) - c['n0'])/c['pi']
    s = c['n0']/c['pi']/1.5 + .5

    def f(y, x):
        return np.exp(-(x**2 + y**2)/s**2)*(1 + .2*x/s - .3*y/s)
    Z = f(x[:, None], x[None, :])
    R = falco.dm.resample_inf_func(Z, c['pi'], c['po'])
    m = R.shape[0]
    need(R.shape[1] == m and m % 2 == 1, 'shape %s', R.shape)
    half = n/2*c['po']/c['pi']
    need(m == 2*int(np.floor(half)) + 1 or c['pi'] == c['po'] and m == n, 'size %d', m)
    X = (np.arange(m) - m//2)/c['po']
    inside = np.abs(X) <= x[-1] + 1e-12
    ii = np.ix_(inside, inside)
    close(R[ii], f(X[:, None], X[None, :])[ii], 2e-2, msg='resampled values')
    need(abs(R[m//2, m//2] - 1) < 1e-9, 'peak')
    rec.nontrivial(c['pi'] != c['po'])


@F.facet(st.fixed_dictionaries({'n': st.integers(3, 12), 'seed': SEED, 'inf': st.sampled_from(['xin', 'bmc']),
                                'amp': st.sampled_from([1., 1e-9, 1e3])}), quick=60, thorough=800)
def proper_fit(c, rec):
    """PROPER's iterative fit returns commands whose convolution with the kernel is the surface it reports and approaches the request"""
    n = c['n']
    k = inf_at_actuators(c['inf'])[3:8, 3:8]
    H = real(c['seed'], (n, n))
    S = c['amp']*convolve(H, k, mode='reflect')
    z, s = proper.prop_fit_dm(S, k)
    close(s, convolve(z, k, mode='reflect'), 1e-9, msg='reported surface')
    e0 = np.linalg.norm(S - convolve(S, k, mode='reflect'))
    e1 = np.linalg.norm(S - s)
    need(e1 <= e0*(1 + 1e-9), 'the fit is worse (%s) than its first guess (%s)', e1, e0)
    if c['inf'] == 'xin':
        need(e1 < .05*np.linalg.norm(S), 'fit error %s', e1/np.linalg.norm(S))
    rec.nontrivial()

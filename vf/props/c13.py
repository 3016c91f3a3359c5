"""C13: the differentiable mirror's backward pass is the adjoint of its forward pass."""
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, real, rng
import dmkit
from props.c10 import DMP, mk
import falco

F = Facets('C13', rule='differentiable mirror models over drawn geometry; the inner product <render(u), g> is compared with '
           '<u, render_backprop(g)>; non-trivial = a non-integer sampling, an offset, an odd actuator count or a rotation')
SEED = st.integers(0, 2**20)
CASE = st.fixed_dictionaries({**DMP, 'N': st.integers(20, 90), 'seed': SEED, 'wfe': st.booleans()})


def model(c):
    mp, d = mk(c)
    d.useDifferentiableModel = True
    d.V = real(c['seed'], (d.Nact, d.Nact))
    falco.dm.gen_surf_from_act(d, d.dx, c['N'])
    return d, d.differentiableModel


def nontriv(c, rec):
    rec.nontrivial(c['ppact'] != int(c['ppact']) or any(c['off']) or any(c['tilt']) or c['Nact'] % 2)
    rec.label('tilted', any(c['tilt']))


@F.facet(CASE, quick=64, thorough=2000)
def adjoint(c, rec):
    """<render(u), g> = <u, backprop(g)> for every actuator at once"""
    d, M = model(c)
    n, N = c['Nact'], c['N']
    tilted = any(c['tilt'])
    r = rng(c['seed'] + 9)
    x = np.linspace(-1, 1, N)
    if tilted:
        kx, ky, p = r.uniform(-4, 4, 3)
        g = np.cos(kx*x[None, :] + p)*np.sin(ky*x[:, None] + 2*p) + .3
    else:
        g = r.standard_normal((N, N))
    g0 = g.copy()
    b = np.array(M.render_backprop(g.copy(), wfe=c['wfe']))
    need(b.shape == (n, n), 'gradient shape')
    need(np.all(np.isreal(b)), 'real gradient')
    ref = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            u = np.zeros((n, n))
            u[i, j] = 1.
            M.update(u)
            ref[i, j] = np.sum(M.render(Nout=N, wfe=c['wfe'])*g)
    # gradients of single actuators that barely touch the grid are compared on the scale of a fully lit one
    one = np.abs(dmkit.inf0(c['inf'])[0]).sum()/dmkit.inf0(c['inf'])[1]**2*c['ppact']**2*np.abs(g).max()
    err = np.abs(b - ref).max()
    tol = 1e-9*max(np.abs(ref).max(), one) if not tilted else (8e-3 if c['ppact'] >= 3.5 else 4e-2)*max(np.abs(ref).max(), .3*one)
    need(err <= tol, 'adjoint off by %.2g of %.2g', err, max(np.abs(ref).max(), one))
    need(np.array_equal(g, g0), 'gradient input changed')
    nontriv(c, rec)


@F.facet(CASE, quick=100, thorough=2000)
def wavefront(c, rec):
    """the wavefront error of the model is twice its surface, forwards and backwards, and rendering is repeatable"""
    d, M = model(c)
    n, N = c['Nact'], c['N']
    u = real(c['seed'] + 1, (n, n))
    M.update(u)
    s = np.array(M.render(Nout=N, wfe=False))
    w = np.array(M.render(Nout=N, wfe=True))
    close(np.array(M.render(Nout=N, wfe=False)), s, 1e-13, msg='repeatable')
    tilted = any(c['tilt'])
    need(np.abs(s).max() > 0, 'no surface')
    ratio = (w*s).sum()/(s*s).sum()
    close(w, ratio*s, 1e-9, msg='wavefront is proportional to the surface')
    if not tilted:
        close(ratio, 2., 1e-12, msg='wavefront per surface height')
    g = real(c['seed'] + 2, (N, N))
    b1 = np.array(M.render_backprop(g.copy(), wfe=False))
    b2 = np.array(M.render_backprop(g.copy(), wfe=True))
    close(b2, ratio*b1, 1e-9, msg='backward wavefront factor')
    nontriv(c, rec)

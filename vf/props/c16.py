"""C16: algorithmic-differentiation EFC minimises the cost it states, with its exact gradient."""
import numpy as np
import scipy.optimize
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet
import modkit
from props.c14 import mv
import falco

F = Facets('C16', rule='whole coronagraphs with the differentiable mirror model, drawn commands, estimates and regularisation; the gradient is '
           'compared with differences of the compact model; non-trivial = nonzero commands, estimate and step',
           assumptions=['the gradient is linearised at the commands the iteration starts from (as the code states), so it is the exact '
                        'derivative of the cost at a zero step'])

EXTRA = {'wfe': st.booleans(), 'fscale': st.booleans(), 'chromatic': st.booleans(), 'weights': st.sampled_from([[1., 1.], [1., 1.], [.5, 2.]]),
         'nsel': st.integers(2, 6), 'seln': st.integers(0, 2**20), 'subset': st.sampled_from(['all', 'some']),
         'reg': st.sampled_from([-9., -4., -2., 0.]), 'dead': st.booleans()}


def setup(c):
    mp, ref = modkit.build(c, controller='ad-efc', diff=True)
    r = rng(c['seln'])
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        if c['subset'] == 'some':
            n = min(d.NactTotal, c['nsel'] + int(r.integers(0, 3)))
            d.act_ele = np.sort(r.choice(d.NactTotal, n, replace=False))
            d.Nele = d.act_ele.size
        if c['dead']:
            dead = r.choice(d.NactTotal, 2, replace=False)
            d.dead = [int(v) for v in dead]
            d.dead_map = np.zeros((d.Nact, d.Nact), dtype=bool)
            d.dead_map.flat[dead] = True
            d.V = d.V*~d.dead_map
    cvar = falco.config.Object()
    falco.ctrl.init(mp, cvar)
    npix = int(mp.Fend.corr.maskBool.sum())
    cvar.Eest = 1e-3*(r.standard_normal((npix, mp.jac.Nmode)) + 1j*r.standard_normal((npix, mp.jac.Nmode)))
    cvar.Itr = 0
    if not hasattr(mp.ctrl, 'ad'):
        mp.ctrl.ad = falco.config.Object()
    return mp, cvar, r


def tol(c):
    return 1e-3 if any(any(c["d%d" % i]["tilt"]) for i in c["dms"]) else 5e-6


def lists(mp):
    out = [falco.model.compact(mp, mode(mp, m), forRevGradModel=True) for m in range(mp.jac.Nmode)]
    return [o[0] for o in out], [o[1] for o in out], [o[2] for o in out], [o[4] for o in out]


def mode(mp, m):
    return mv(mp.jac.sbp_inds[m], mp.jac.star_inds[m], mp.jac.zern_inds[m])


def fields(mp, V):
    """dark-hole fields of every mode with the given commands"""
    keep = mp.dm1.V, mp.dm2.V
    mp.dm1.V, mp.dm2.V = V[0].copy(), V[1].copy()
    out = np.stack([falco.model.compact(mp, mode(mp, m))[mp.Fend.corr.maskBool] for m in range(mp.jac.Nmode)], 1)
    mp.dm1.V, mp.dm2.V = keep
    return out


def stepped(mp, du):
    V = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    for i in mp.dm_ind:
        d = getattr(mp, 'dm%d' % i)
        V[i-1].flat[d.act_ele] += du[mp.ctrl.uLegend == i]
    return V


def cost(mp, cvar, du, utu):
    E = cvar.Eest + fields(mp, stepped(mp, du)) - fields(mp, [mp.dm1.V, mp.dm2.V])
    return np.sum(mp.jac.weights*np.sum(np.abs(E)**2, 0)) + utu*np.sum(du**2), E


@F.facet(modkit.base(**EXTRA), quick=32, thorough=1200, timeout=300)
def gradient(c, rec):
    """cost and gradient against the weighted intensity of estimate plus model change, and its derivative by central differences"""
    mp, cvar, r = setup(c)
    du = r.standard_normal(cvar.NeleAll)*float(r.choice([0., .5, 4.]))
    mp.ctrl.ad.utu_scale_fac = float(r.uniform(1e-6, 1e-2))
    utu = mp.ctrl.ad.utu_scale_fac*10**c['reg']
    before = mp.dm1.V.copy(), mp.dm2.V.copy()
    # dead actuators do not move
    alive = np.concatenate([~getattr(mp, 'dm%d' % i).dead_map.ravel()[getattr(mp, 'dm%d' % i).act_ele] for i in mp.dm_ind])
    if r.random() < .3:
        # a search also tries commands past the bounds; nothing of them may remain
        with quiet():
            falco.model.compact_reverse_gradient(r.choice([-3000., 3000.], du.size), c['reg'], mp, cvar.Eest.copy(), *lists(mp))
        rec.label('after a trial past the bounds')
    with quiet():
        total, grad = falco.model.compact_reverse_gradient(du.copy(), c['reg'], mp, cvar.Eest.copy(), *lists(mp))
    need(np.array_equal(mp.dm1.V, before[0]) and np.array_equal(mp.dm2.V, before[1]), 'commands left as they were')
    need(grad.shape == du.shape, 'one derivative per command')
    exp, E = cost(mp, cvar, du, utu)
    need(abs(total - exp) <= 1e-9*exp, 'cost %g, expected %g', total, exp)
    h = .02
    ks = r.choice(du.size, min(8, du.size), replace=False)
    ref = np.zeros(du.size)
    big = 0
    for k in ks:
        e = np.zeros(du.size)
        e[k] = h
        G = (fields(mp, stepped(mp, e)) - fields(mp, stepped(mp, -e)))/(2*h)
        ref[k] = alive[k]*2*np.sum(mp.jac.weights*np.real(np.sum(np.conj(G)*E, 0))) + 2*utu*du[k]
        big = max(big, 2*np.sum(mp.jac.weights*np.sqrt(np.sum(np.abs(G)**2, 0)*np.sum(np.abs(E)**2, 0))))
    need(np.all(np.isfinite(grad)), 'finite')
    for k in ks:
        need(abs(grad[k] - ref[k]) <= tol(c)*big + 1e-9*abs(ref[k]), 'derivative %d (mirror %d): %.8g, expected %.8g (scale %.3g)',
             k, mp.ctrl.uLegend[k], grad[k], ref[k], big)
    rec.nontrivial(big > 0 and np.any(du != 0) and any(c['d%d' % i]['amp'] for i in c['dms']))
    rec.label(c['coro'])
    rec.label('zero step', not np.any(du))


@F.facet(modkit.base(**dict(EXTRA, Nsbp=st.sampled_from([1, 2]), Nact=st.sampled_from([4, 5]))), quick=16, thorough=600, timeout=300)
def step(c, rec):
    """the step taken lowers the stated cost, moves only the used actuators, keeps every voltage in its bounds, and is what is reported"""
    mp, cvar, r = setup(c)
    fac = float(r.choice([1., 1., .5]))
    mp.ctrl.dmfacVec = [fac]
    mp.ctrl.log10regVec = [c['reg']]
    mp.gridSearchItrVec = [0]
    mp.ctrl.log10regSchedIn = np.array([1j])
    mp.ctrl.ad.utu_scale_fac = 1e-6
    mp.ctrl.ad.maxiter, mp.ctrl.ad.maxfun, mp.ctrl.ad.maxcor, mp.ctrl.ad.iprint = 4, 200, 10, -1
    utu = mp.ctrl.ad.utu_scale_fac*10**c['reg']
    lim = float(r.choice([300., 2.]))
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        d.biasMap = r.uniform(40, 60, (d.Nact, d.Nact))
        d.Vmin = float(np.min(d.V + d.biasMap)) - lim
        d.Vmax = float(np.max(d.V + d.biasMap)) + lim
    V0 = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    c0, E0 = cost(mp, cvar, np.zeros(cvar.NeleAll), utu)
    with quiet():
        falco.ctrl.wrapper(mp, cvar, None)
    V1 = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    du = []
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        dV = V1[i-1] - V0[i-1]
        if i not in c['dms']:
            need(not np.any(dV), 'unused mirror %d moved', i)
            continue
        used = np.zeros(d.NactTotal, dtype=bool)
        used[d.act_ele] = True
        need(not np.any(dV.ravel()[~used]), 'mirror %d: unused actuator moved', i)
        close(d.dV, dV, 1e-9, 1e-12*(1 + np.abs(V0[i-1]).max()), msg='reported step')
        need(np.all(V1[i-1] + d.biasMap >= d.Vmin - 1e-9) and np.all(V1[i-1] + d.biasMap <= d.Vmax + 1e-9), 'mirror %d out of bounds', i)
        du.append(dV.ravel()[d.act_ele])
    du = np.concatenate(du)
    mp.dm1.V, mp.dm2.V = V0[0].copy(), V0[1].copy()
    falco.ctrl.init(mp, cvar)
    if fac == 1.:
        c1, E1 = cost(mp, cvar, du, utu)
        # L-BFGS line searches only accept decreases of the true cost; the gradient is linearised, so allow no step at all
        need(c1 <= c0*(1 + 1e-9), 'cost rose from %g to %g', c0, c1)
        rec.label('cost fell', c1 < .99*c0)
    else:
        # the step is the factor times the optimised step
        mp.ctrl.dmfacVec = [1.]
        cv2 = falco.config.Object()
        cv2.Eest, cv2.Itr = cvar.Eest, 0
        falco.ctrl.init(mp, cv2)
        with quiet():
            falco.ctrl.wrapper(mp, cv2, None)
        for i in c['dms']:
            d = getattr(mp, 'dm%d' % i)
            close(V1[i-1] - V0[i-1], fac*(d.V - V0[i-1]), 1e-6, 1e-9, msg='scaled step')
        rec.label('scaled')
    rec.nontrivial(np.any(du))
    rec.label('bound reached', any(np.any(np.abs(V1[i-1] + getattr(mp, 'dm%d' % i).biasMap - b) < 1e-9) for i in c['dms'] for b in (getattr(mp, 'dm%d' % i).Vmin, getattr(mp, 'dm%d' % i).Vmax)))


SMALL = dict(EXTRA, coro=st.sampled_from(['LC', 'FLC', 'HLC']), Nsbp=st.sampled_from([1, 1, 2]), Nact=st.sampled_from([4, 5]), zern=st.just([[1], [1.]]),
             star=st.sampled_from([[[0.], [0.], [1.]], [[.5], [-.3], [1.]]]), subset=st.sampled_from(['all', 'some', 'some']))


@F.facet(modkit.base(**SMALL), quick=24, thorough=600, timeout=200)
def optimum(c, rec):
    """for small fields the step reaches the bounded, regularised least-squares optimum of the linear problem"""
    mp, cvar, r = setup(c)
    cvar.Eest = cvar.Eest*1e-3
    c['reg'] = max(-6., min(c['reg'], -1.))
    mp.ctrl.dmfacVec, mp.ctrl.log10regVec = [1.], [c['reg']]
    mp.gridSearchItrVec = [0] if c['dead'] else []
    mp.ctrl.log10regSchedIn = np.array([1j if c['dead'] else c['reg']])
    mp.ctrl.ad.maxiter, mp.ctrl.ad.maxfun, mp.ctrl.ad.maxcor, mp.ctrl.ad.iprint = 40, 2000, 10, -1
    V0 = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    n, h = cvar.NeleAll, .01
    G = np.zeros((cvar.Eest.size, n), dtype=complex)
    w = np.tile(np.sqrt(mp.jac.weights), cvar.Eest.shape[0])
    for k in range(n):
        e = np.zeros(n)
        e[k] = h
        G[:, k] = w*((fields(mp, stepped(mp, e)) - fields(mp, stepped(mp, -e)))/(2*h)).ravel()
    alive = np.concatenate([~getattr(mp, 'dm%d' % i).dead_map.ravel()[getattr(mp, 'dm%d' % i).act_ele] for i in mp.dm_ind])
    G[:, ~alive] = 0
    # a field the mirrors can mostly correct
    x0 = r.standard_normal(n)
    cvar.Eest = cvar.Eest*.1 + 1e-3*(G @ x0/np.where(w, w, 1)).reshape(cvar.Eest.shape)
    E = w*cvar.Eest.ravel()
    A = np.real(np.conj(G).T @ G)
    b = np.real(np.conj(G).T @ E)
    mp.ctrl.ad.utu_scale_fac = float(np.max(np.diag(A))) + 1e-30
    utu = mp.ctrl.ad.utu_scale_fac*10**c['reg']
    free = -np.linalg.solve(A + utu*np.eye(n), b)
    span = float(np.abs(free).max()) if r.random() < .5 else .3*float(np.abs(free).max())
    lo, hi = [], []
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        d.biasMap = np.full((d.Nact, d.Nact), 50.)
        d.Vmin = float(np.min(d.V + d.biasMap)) - span
        d.Vmax = float(np.max(d.V + d.biasMap)) + span
        if i in c['dms']:
            tot = (d.V + d.biasMap).ravel()[d.act_ele]
            lo.append(d.Vmin - tot)
            hi.append(d.Vmax - tot)
    lo, hi = np.concatenate(lo), np.concatenate(hi)

    def q(du):
        return np.sum(np.abs(E + G @ du)**2) + utu*np.sum(du**2)

    ref = scipy.optimize.lsq_linear(np.vstack([G.real, G.imag, np.sqrt(utu)*np.eye(n)]), -np.concatenate([E.real, E.imag, np.zeros(n)]), (lo, hi)).x
    with quiet():
        falco.ctrl.wrapper(mp, cvar, None)
    du = np.concatenate([(getattr(mp, 'dm%d' % i).V - V0[i-1]).ravel()[getattr(mp, 'dm%d' % i).act_ele] for i in c['dms']])
    need(np.all(du >= lo - 1e-9) and np.all(du <= hi + 1e-9), 'voltage past a bound')
    gain = q(np.zeros(n)) - q(ref)
    left = q(du) - q(ref)
    rec.label('slow convergence', left > .01*gain)
    need(left <= (.05 if c['reg'] > -3 else .3)*gain + 1e-12*q(np.zeros(n)), 'step leaves %.3g of the possible improvement', left/max(gain, 1e-300))
    rec.nontrivial(gain > 1e-3*q(np.zeros(n)))
    rec.label('bounded', np.any((ref <= lo + 1e-12) | (ref >= hi - 1e-12)))
    rec.label('weighted', c['weights'] != [1., 1.])


@F.facet(modkit.base(**EXTRA), quick=16, thorough=400, timeout=150)
def scale(c, rec):
    """the scale of the usage penalty is the largest weighted squared response among the chosen actuators; nothing else changes"""
    mp, cvar, r = setup(c)
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        m = np.zeros(d.NactTotal, dtype=bool)
        m[r.choice(d.NactTotal, 4, replace=False)] = True
        setattr(mp.ctrl.ad, 'dm%d_act_mask_for_jac_norm' % i, m)
    act = [np.array(mp.dm1.act_ele), np.array(mp.dm2.act_ele), mp.dm1.Nele, mp.dm2.Nele]
    with quiet():
        falco.ctrl.set_utu_scale_fac(mp)
        need(np.array_equal(act[0], mp.dm1.act_ele) and np.array_equal(act[1], mp.dm2.act_ele), 'actuators restored')
        need(act[2] == mp.dm1.Nele and act[3] == mp.dm2.Nele, 'counts restored')
        for i in (1, 2):
            d = getattr(mp, 'dm%d' % i)
            d.act_ele = np.arange(d.NactTotal)
            d.Nele = d.NactTotal
        J = falco.model.jacobian(mp)
    exp = 0
    for i in c['dms']:
        G = getattr(J, 'G%d' % i)
        m = getattr(mp.ctrl.ad, 'dm%d_act_mask_for_jac_norm' % i)
        exp = max(exp, np.max(np.sum(np.sum(np.abs(G)**2, 0)*mp.jac.weights, 1)[m]))
    need(abs(mp.ctrl.ad.utu_scale_fac - exp) <= 1e-9*exp, 'scale %g, expected %g', mp.ctrl.ad.utu_scale_fac, exp)
    rec.nontrivial(exp > 0)

"""C11: mirror commands respect bounds, dead/pinned/tied actuators, the neighbour rule, quantisation and the gain curve."""
import copy
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, real, rng
import dmkit
import falco

F = Facets('C11', rule='command histories on mirrors of 2-10 actuators with drawn bias maps, voltage limits and sets of dead, '
           'pinned and tied actuators; non-trivial = at least one constraint is active in the history')
SEED = st.integers(0, 2**20)


def parts(n, seed, nd, npin, nt):
    """disjoint sets of actuators"""
    p = rng(seed).permutation(n*n)
    p = p[:max(0, n*n - 1)]
    dead, p = p[:nd], p[nd:]
    pin, p = p[:npin], p[npin:]
    nt = min(nt, len(p)//2)
    tied = p[:2*nt].reshape(-1, 2)
    return dead, pin, tied


HIST = st.fixed_dictionaries({
    'n': st.integers(2, 10), 'seed': SEED, 'ndead': st.integers(0, 3), 'npin': st.integers(0, 3), 'ntied': st.integers(0, 4),
    'vmax': st.floats(5, 200), 'vmin': st.floats(-50, 4), 'bias': st.sampled_from(['scalar', 'flat', 'map', 'edge']),
    'amp': st.sampled_from([1., 20., 100., 1000.]), 'steps': st.integers(1, 5), 'via': st.sampled_from(['enforce', 'surface', 'incr']),
    'floatidx': st.booleans(), 'deadmap': st.booleans()})


@F.facet(HIST, quick=400, thorough=10000)
def constraints(c, rec):
    """after any history of commands every actuator is at the value its constraints imply (reference model)"""
    n = c['n']
    mp, d = dmkit.make(Nact=n)
    dead, pin, tied = parts(n, c['seed'], c['ndead'], c['npin'], c['ntied'])
    r = rng(c['seed'] + 1)
    d.Vmin, d.Vmax = c['vmin'], c['vmax']
    lo, hi = d.Vmin, d.Vmax
    if c['bias'] == 'scalar':
        bias = (lo + hi)/2
    elif c['bias'] == 'flat':
        bias = (lo + .3*(hi - lo))*np.ones((n, n))
    elif c['bias'] == 'map':
        bias = r.uniform(lo, hi, (n, n))
    else:
        bias = np.where(r.uniform(size=(n, n)) < .5, lo, hi)*1.0
    if c['bias'] in ('map', 'edge'):
        for a, b in tied:                       # tied actuators share their wiring, hence their bias
            bias.ravel()[b] = bias.ravel()[a]
    d.biasMap = bias
    d.dead = [int(k) for k in dead]
    vp = r.uniform(-20, 20, len(pin))
    typ = float if c['floatidx'] else int
    d.pinned = np.array(pin, dtype=typ)
    d.Vpinned = vp
    d.tied = np.array(tied, dtype=typ).reshape(-1, 2)
    if c['deadmap']:
        d.dead_map = np.zeros((n, n), dtype=bool)
        d.dead_map.ravel()[dead] = True
    B = bias*np.ones((n, n))
    pins = {int(k): float(v) for k, v in zip(pin, vp)}
    active = len(dead) + len(pin) + len(tied) > 0
    V = np.zeros((n, n))
    for k in range(c['steps']):
        cmd = c['amp']*r.standard_normal((n, n))
        if c['via'] == 'incr':
            cmd = V + cmd
        d.V = cmd.copy()
        if c['via'] == 'surface':
            falco.dm.gen_surf_from_act(d, d.dx, 16)
        else:
            need(falco.dm.enforce_constraints(d) is d, 'returns the mirror')
        # reference
        exp = cmd.copy().ravel()
        exp[list(map(int, dead))] = 0
        tot = exp + B.ravel()
        for i in range(n*n):
            if i in pins:
                continue
            if tot[i] < lo:
                pins[i] = lo - B.ravel()[i]
                active = True
            elif tot[i] > hi:
                pins[i] = hi - B.ravel()[i]
                active = True
        for i, v in pins.items():
            exp[i] = v
        for a, b in tied:
            exp[b] = exp[a]
        V = np.array(d.V)
        need(V.shape == (n, n), 'command shape')
        close(V.ravel(), exp, 1e-12, 1e-10, msg='commands after step %d' % k)
        need({int(i) for i in d.pinned} == set(pins), 'the pinned list holds the stuck actuators')
        free = np.ones(n*n, dtype=bool)
        free[list(map(int, pin))] = False
        for a, b in tied:
            if not free[a]:
                free[b] = False
        T = (V + B).ravel()[free]
        need(np.all(T >= lo - 1e-9) and np.all(T <= hi + 1e-9), 'total voltage out of bounds')
        before = V.copy()
        d2 = copy.deepcopy(d)
        falco.dm.enforce_constraints(d2)
        close(d2.V, before, 1e-12, 1e-10, msg='enforcing twice changes nothing')
    rec.nontrivial(active)
    rec.label('bounded', len(pins) > len(pin))
    rec.label('dead', len(dead) > 0)
    rec.label('tied', len(tied) > 0)


@F.facet(st.fixed_dictionaries({'n': st.integers(2, 9), 'seed': SEED, 'lim': st.floats(0, 3) | st.just(0.), 'kind': st.sampled_from(
    ['noise', 'spike', 'smooth', 'int'])}), quick=200, thorough=4000)
def neighbour_rule(c, rec):
    """the neighbour rule returns commands whose neighbouring differences are within the limit, touching only what it must"""
    n = c['n']
    r = rng(c['seed'])
    if c['kind'] == 'noise':
        V = r.standard_normal((n, n))
    elif c['kind'] == 'spike':
        V = np.zeros((n, n))
        V[r.integers(n), r.integers(n)] = 5*r.standard_normal()
    elif c['kind'] == 'int':
        V = r.integers(-3, 4, (n, n))
    else:
        V = .3*np.add.outer(np.arange(n), np.arange(n))
    V0 = V.copy()
    W, pairs = falco.dm.apply_neighbor_rule(V, c['lim'], n)
    need(np.array_equal(V, V0), 'input changed')
    W = np.asarray(W)
    need(W.shape == (n, n), 'shape')
    tol = 1e-5*(np.ptp(V0) + 1e-12)
    viol0 = set()
    worst = 0.
    for dy, dx in ((0, 1), (1, 0), (1, 1), (1, -1)):
        for y in range(n - dy):
            for x in range(max(0, -dx), n - max(0, dx)):
                worst = max(worst, abs(W[y, x] - W[y + dy, x + dx]))
                if abs(float(V0[y, x]) - V0[y + dy, x + dx]) > c['lim'] + tol:
                    viol0.add((y*n + x, (y + dy)*n + x + dx))
    need(worst <= c['lim'] + tol, 'difference %s exceeds the limit %s', worst, c['lim'])
    close(W.sum(), float(V0.sum()), 1e-9, 1e-9*(np.abs(V0).sum() + 1), msg='mean command')
    need(W.max() <= V0.max() + 1e-9 and W.min() >= V0.min() - 1e-9, 'overshoot')
    p = np.asarray(pairs)
    need(p.ndim == 2 and p.shape[1] == 2, 'pair list shape')
    got = {tuple(sorted((int(a), int(b)))) for a, b in p}
    for a, b in got:
        need(max(abs(a//n - b//n), abs(a % n - b % n)) == 1, 'pair %s,%s are not neighbours', a, b)
    if not viol0:
        if not got:
            close(W, V0.astype(float), 1e-12, tol, msg='nothing to change')
    else:
        need(len(got) > 0, 'no pairs reported')
        if len(viol0) == 1:
            need(viol0 <= got, 'violating pair not reported')
    rec.nontrivial(len(viol0) > 0)


@F.facet(st.fixed_dictionaries({'n': st.integers(2, 9), 'seed': SEED, 'step': st.floats(1e-12, 5e-10),
                                'method': st.sampled_from(['round', 'floor', 'ceil', 'fix', 'Round', 'CEIL', None, 'nearest', 3]),
                                'via': st.booleans(), 'amp': st.sampled_from([.1, 1., 30.])}), quick=200, thorough=4000)
def quantise(c, rec):
    """quantised commands are the representable step next to the request in the documented direction, and are what is rendered"""
    n = c['n']
    mp, d = dmkit.make(Nact=n)
    r = rng(c['seed'])
    d.V = c['amp']*r.standard_normal((n, n))
    d.VtoH = 1e-9*r.uniform(.5, 2, (n, n))
    d.HminStep = c['step']
    V0 = d.V.copy()
    m = c['method']
    if m == 3:
        raises(TypeError, falco.dm.discretize_surf, d, m)
        return
    if m == 'nearest':
        raises(ValueError, falco.dm.discretize_surf, d, m)
        return
    if m is None and not c['via']:
        m = 'round'
    if c['via']:
        if m is not None:
            d.HminStepMethod = m
        S = falco.dm.gen_surf_from_act(d, d.dx, 24)
        m = m or 'round'
    else:
        falco.dm.discretize_surf(d, m)
    h = d.VtoH*V0/c['step']
    q = d.VtoH*d.Vquantized/c['step']
    need(np.all(np.abs(q - np.round(q)) < 1e-6*np.maximum(1, np.abs(q))), 'not a whole number of steps')
    m = m.lower()
    k = np.round(q)
    e = 1e-9*np.maximum(1, np.abs(h))
    if m == 'round':
        need(np.all(np.abs(k - h) <= .5 + e), 'not the nearest step')
    elif m == 'floor':
        need(np.all((k <= h + e) & (k > h - 1 - e)), 'not the step below')
    elif m == 'ceil':
        need(np.all((k >= h - e) & (k < h + 1 + e)), 'not the step above')
    else:
        need(np.all((np.abs(k) <= np.abs(h) + e) & (np.abs(k) > np.abs(h) - 1 - e) & (k*h >= 0)), 'not the step towards zero')
    close(d.V, V0, 1e-15, msg='the continuous command is kept')
    if c['via']:
        close(S, dmkit.oracle_surface(d, 'xin', 24, d.dx, heights=d.VtoH*d.Vquantized), 1e-9, 1e-18, msg='rendered surface')
    rec.nontrivial(np.any(np.abs(h - k) > 1e-6))
    rec.label(m)


@F.facet(st.fixed_dictionaries({'n': st.integers(2, 8), 'seed': SEED, 'fit': st.sampled_from(
    ['linear', 'poly1', 'quadratic', 'poly2', 'fourier2', 'Quadratic', 'Fourier2', 'cubic', 'missing2', 'missingF']),
    'bias': st.sampled_from(['scalar', 'map'])}), quick=200, thorough=4000)
def gain(c, rec):
    """the updated gain map is the slope of the height-versus-voltage curve at the total voltage"""
    n = c['n']
    mp, d = dmkit.make(Nact=n)
    r = rng(c['seed'])
    d.V = 10*r.standard_normal((n, n))
    d.biasMap = 50. if c['bias'] == 'scalar' else 50 + 10*r.standard_normal((n, n))
    G0 = 1e-9*r.uniform(.5, 2, (n, n))
    d.VtoH = G0.copy()
    fit = c['fit']
    P = {k: r.uniform(-1, 1, (n, n))*1e-9 for k in ('p1', 'p2', 'p3', 'a0', 'a1', 'a2', 'b1', 'b2')}
    P['p1'] *= .01
    P['w'] = r.uniform(.01, .05, (n, n))
    V0 = d.V.copy()
    if fit in ('missing2', 'missingF'):
        d.fitType = 'quadratic' if fit == 'missing2' else 'fourier2'
        keys = ['p1', 'p2', 'p3'] if fit == 'missing2' else ['a0', 'a1', 'a2', 'b1', 'b2', 'w']
        drop = keys[c['seed'] % len(keys)]
        for k in keys:
            if k != drop:
                setattr(d, k, P[k])
        raises(ValueError, falco.dm.update_gain_map, d)
        rec.nontrivial()
        return
    for k, v in P.items():
        setattr(d, k, v)
    d.fitType = fit
    if fit == 'cubic':
        raises(ValueError, falco.dm.update_gain_map, d)
        return
    need(falco.dm.update_gain_map(d) is d, 'returns the mirror')

    def height(V):
        T = V + d.biasMap
        if fit.lower() in ('quadratic', 'poly2'):
            return P['p1']*T*T + P['p2']*T + P['p3']
        w = P['w']
        return (P['a0'] + P['a1']*np.cos(T*w) + P['b1']*np.sin(T*w) + P['a2']*np.cos(2*T*w) + P['b2']*np.sin(2*T*w))
    if fit in ('linear', 'poly1'):
        close(d.VtoH, G0, 1e-15, msg='gain of a linear mirror')
    else:
        e = 1e-3
        close(d.VtoH, (height(V0 + e) - height(V0 - e))/(2*e), 1e-6, msg='slope')
        rec.nontrivial()
    close(d.V, V0, 1e-15, msg='commands')

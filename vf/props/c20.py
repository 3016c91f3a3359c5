"""C20: the controller returns the regularised least-squares command and the best of the settings it tries."""
import contextlib
import copy
import functools
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet
import modkit
import falco

F = Facets('C20', rule='drawn Jacobians, estimates, weights, actuator subsets, mirrors and search settings given to the controllers, with '
           'an instrument that is linear in the commands; non-trivial = several settings or iterations and a nonzero command',
           assumptions=['the regularised normal equations are well conditioned (log10 of the regularisation at least -6)'])

SEED = modkit.SEED


@functools.lru_cache(maxsize=64)
def _base(na, na2, nsbp, nstar, nz, cen):
    star = [[0.], [0.], [1.]] if nstar == 1 else [[0., 1.], [0., 2.], [1., .4]]
    c = dict(cen=cen, coro='LC', Nbeam=16, extra=0, F3N=11, F3res=3., Nsbp=nsbp, Nwp=1, bw=.1, Nact=na, Nact2=na2, apod=False, charge=4,
             d1={'amp': 0., 'off': [0., 0.], 'orient': 'rot0', 'sign': '+', 'tilt': [0, 0, 0]},
             d2={'amp': 0., 'off': [0., 0.], 'orient': 'rot0', 'sign': '+', 'tilt': [0, 0, 0]}, dist=[0., .1], dms=[1, 2], est='perfect', fov=5.,
             pitch=1., relays=[0, 0, 0, 0], res=2.5, rot=True, seed=1, src=[3., 0.], star=star, stops=[0, 0], weights=[1., 1.],
             wfe=False, zern=[[1], [1.]] if nz == 1 else [[1, 2], [1., 1e-9]])
    mp, ref = modkit.build(c)
    return mp


CASE = {'Nact': st.sampled_from([3, 4, 5]), 'Nact2': st.sampled_from([3, 4]), 'Nsbp': st.sampled_from([1, 2, 3]), 'nstar': st.sampled_from([1, 1, 2]),
        'nz': st.sampled_from([1, 1, 2]), 'seed': SEED, 'npix': st.integers(2, 30), 'dms': st.sampled_from([[1], [2], [1, 2], [1, 2], [2, 1], [1, 2, 9], [1, 8], [9], [1, 2, 8, 9]]),
        'keep': st.sampled_from([1., .7, .1]), 'regs': st.lists(st.sampled_from([-6., -4., -2.5, -1., 0., 1.]), min_size=2, max_size=4),
        'facs': st.lists(st.sampled_from([1., .5, 2., -.5]), min_size=1, max_size=3), 'model': st.booleans(), 'par': st.sampled_from([False, False, False, True]),
        'ni': st.booleans(), 'sp': st.booleans(), 'wt': st.booleans(), 'logE': st.sampled_from([-5, -3, 0]), 'dead': st.sampled_from([0, 1, 2]),
        'start': st.booleans(), 'bound': st.booleans(), 'decades': st.sampled_from([0, 2])}


def prepare(c):
    mp = copy.deepcopy(_base(c['Nact'], c['Nact2'], c['Nsbp'], c['nstar'], c['nz'], 'pixel'))
    r = rng(c['seed'])
    m = np.zeros(mp.Fend.corr.maskBool.size, bool)
    m[r.choice(m.size, c['npix'], replace=False)] = True
    mp.Fend.corr.maskBool = m.reshape(mp.Fend.corr.maskBool.shape)
    mp.Fend.corr.Npix = c['npix']
    mp.dm_ind = np.array(c['dms'])
    mp.ctrl.dmfacVec, mp.ctrl.log10regVec = list(c['facs']), np.array(c['regs'])
    mp.ctrl.flagUseModel = c['model']
    mp.flagParallel, mp.Nthreads = c['par'], 2
    mp.jac.minimizeNI = c['ni']
    mp.WspatialVec = r.uniform(.3, 3, (c['npix'], c['nstar'])) if c['sp'] else np.ones((c['npix'], c['nstar']))
    mp.jac.weights = r.uniform(.1, 2, mp.jac.Nmode) if c['wt'] else np.ones(mp.jac.Nmode)
    for i, n in ((8, 5), (9, 7)):
        d = getattr(mp, 'dm%d' % i)
        d.NactTotal = n
        d.V = np.zeros(n)
        d.weight = 1.
    for i in (1, 2, 8, 9):
        d = getattr(mp, 'dm%d' % i)
        d.weight = float(r.uniform(.4, 2)) if c['wt'] else 1.
        k = max(1, int(round(c['keep']*d.NactTotal)))
        d.act_ele = np.sort(r.choice(d.NactTotal, k, replace=False))
        d.Nele = k if i in c['dms'] else 0
        if c['start']:
            d.V = d.V + r.uniform(-3, 3, d.V.shape)
    if c.get('bound'):
        for i in (1, 2):
            d = getattr(mp, 'dm%d' % i)
            d.biasMap = 50 + r.uniform(-.3, .3, d.V.shape)
            d.Vmin, d.Vmax = 46.5, 53.4
            d.pinned = np.sort(r.choice(d.NactTotal, int(r.integers(0, 3)), replace=False))
            d.Vpinned = d.V.flat[d.pinned].copy()
    return mp, r


def held(d, V):
    """the commands as they are rendered"""
    V = np.clip(V, d.Vmin - d.biasMap, d.Vmax - d.biasMap)
    V.flat[np.asarray(d.pinned, int)] = d.Vpinned
    return V


def jacobian(mp, c, r):
    J = falco.config.Object()
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        s = (c['npix'], d.Nele, mp.jac.Nmode)
        G = r.standard_normal(s) + 1j*r.standard_normal(s)
        G = G*10.**(-c['decades']*r.uniform(0, 1, d.Nele))[None, :, None]
        if d.Nele > 2 and c['dead']:
            G[:, :c['dead'] - 1] = 0
        setattr(J, 'G%d' % i, G)
    for i in (1, 2):
        if i not in c['dms']:
            setattr(J, 'G%d' % i, np.zeros((c['npix'], 0, mp.jac.Nmode), complex))
    return J


def unknown(c, mp, J, E, peaks):
    """matrix and right-hand side of the weighted least-squares problem"""
    rows, rhs = [], []
    order = [i for i in (1, 2, 8, 9) if i in c['dms']]
    for m in range(mp.jac.Nmode):
        W = mp.WspatialVec[:, mp.jac.star_inds[m]][:, None]
        A = np.hstack([(W if i in (1, 2) else 1.)*getattr(J, 'G%d' % i)[:, :, m] for i in order])
        e = E[:, m].copy()
        if c['ni']:
            e = e/peaks[m]
        b = W[:, 0]*e
        s = np.sqrt(mp.jac.weights[m])
        rows += [s*A.real, s*A.imag]
        rhs += [s*b.real, s*b.imag]
    A, b = np.vstack(rows), np.hstack(rhs)
    return A, b, order


def solve(A, b, reg):
    top = np.max(np.sum(A**2, 0))
    lam = np.sqrt(10.**reg*top)
    return -np.linalg.lstsq(np.vstack([A, lam*np.eye(A.shape[1])]), np.hstack([b, np.zeros(A.shape[1])]), rcond=None)[0]


class Bench:
    """the instrument: an image that depends on the commands of all mirrors"""
    def __init__(self, mp, c, r):
        self.mp, self.c = mp, c
        self.shape = mp.Fend.corr.maskBool.shape
        n = int(np.prod(self.shape))
        self.E0 = 10.**c['logE']*(r.standard_normal(n) + 1j*r.standard_normal(n))
        self.H = {i: 10.**c['logE']*(r.standard_normal((n, getattr(mp, 'dm%d' % i).V.size)) + 1j*r.standard_normal((n, getattr(mp, 'dm%d' % i).V.size))) for i in (1, 2, 8, 9)}
        self.P = {}
        self.V0 = self.state(mp)
        for m in range(mp.jac.Nmode):
            k = (int(mp.jac.sbp_inds[m]), int(mp.jac.zern_inds[m]), int(mp.jac.star_inds[m]))
            self.P[k] = r.standard_normal((6, 5)) + 1j*r.standard_normal((6, 5))
        self.calls = 0

    def image(self, V):
        x = self.E0.copy()
        for i, v in V.items():
            x = x + self.H[i] @ np.tanh((v - self.V0[i]).ravel()/(4*10.**self.c['logE']))
        return (np.abs(x)**2).reshape(self.shape)

    def state(self, mp):
        return {i: getattr(mp, 'dm%d' % i).V.copy() for i in (1, 2, 8, 9)}

    def summed(self, mp):
        need(not self.c['model'], 'image taken although the model is used')
        self.render(mp)
        return self.image(self.state(mp))

    def render(self, mp):
        for i in (1, 2):                # making the surface applies the constraints
            if self.c.get('bound') and i in self.c['dms']:
                falco.dm.enforce_constraints(getattr(mp, 'dm%d' % i))

    def expected(self, mp, cvar, dDM):
        need(self.c['model'], 'model used although images are taken')
        V = self.state(mp)
        for i in self.c['dms']:
            d = getattr(dDM, 'dDM%dV' % i)
            close(V[i], self.before[i] + d, 1e-12, msg='commands of mirror %d when the expected image is computed' % i)
        self.render(mp)
        return self.image(self.state(mp))

    def compact(self, mp, modvar, **kw):
        need(kw.get('useFPM') is False, 'unocculted field expected')
        return self.P[(int(modvar.sbpIndex), int(modvar.zernIndex), int(modvar.starIndex))].copy()

    def peaks(self):
        out = []
        for m in range(self.mp.jac.Nmode):
            P = self.P[(int(self.mp.jac.sbp_inds[m]), int(self.mp.jac.zern_inds[m]), int(self.mp.jac.star_inds[m]))]
            out.append(P.ravel()[np.argmax(np.abs(P))])
        return out

    @contextlib.contextmanager
    def on(self):
        keep = falco.imaging.get_summed_image, falco.imaging.get_expected_summed_image, falco.model.compact
        falco.imaging.get_summed_image, falco.imaging.get_expected_summed_image, falco.model.compact = self.summed, self.expected, self.compact
        try:
            yield
        finally:
            falco.imaging.get_summed_image, falco.imaging.get_expected_summed_image, falco.model.compact = keep


def split(mp, order, du):
    """commands of each mirror for the solution"""
    out, k = {}, 0
    for i in order:
        d = getattr(mp, 'dm%d' % i)
        v = np.zeros(d.V.size)
        v[d.act_ele] = d.weight*du[k:k + d.Nele]
        k += d.Nele
        out[i] = v.reshape(d.V.shape)
    return out


def trial(mp, c, bench, A, b, order, reg, fac, V0):
    dV = split(mp, order, fac*solve(A, b, reg))
    V = {i: V0[i] + dV.get(i, 0) for i in V0}
    if c.get('bound'):
        V.update({i: held(getattr(mp, 'dm%d' % i), V[i]) for i in (1, 2) if i in c['dms']})
    I = bench.image(V)
    return dV, I, I[mp.Fend.corr.maskBool].mean()


def run(mp, c, bench, cvar, J, E):
    cvar.Eest = E.copy()
    cvar.NeleAll = sum(getattr(mp, 'dm%d' % i).Nele for i in (1, 2, 8, 9))
    bench.before = bench.state(mp)
    J0 = copy.deepcopy(J)
    pins = [(np.array(d.pinned), np.array(d.Vpinned)) for d in (mp.dm1, mp.dm2)]
    with quiet(), bench.on():
        falco.ctrl.wrapper(mp, cvar, copy.copy(J))
    for d, (p, v) in zip((mp.dm1, mp.dm2), pins):
        need(np.array_equal(d.pinned, p) and np.array_equal(d.Vpinned, v), 'actuators pinned by trial commands')
    for i in c['dms']:
        need(np.array_equal(getattr(J, 'G%d' % i), getattr(J0, 'G%d' % i)), 'Jacobian of mirror %d changed by the controller', i)
    need(np.array_equal(cvar.Eest, E), 'estimate changed by the controller')


def check_applied(mp, c, bench, cvar, tr, V0, msg):
    dV, I, mean = tr
    for i in (1, 2, 8, 9):
        d = getattr(mp, 'dm%d' % i)
        if i in c['dms']:
            s = np.abs(dV[i]).max()
            close(d.V, V0[i] + dV[i], 1e-6, atol=1e-5*s + 1e-12, msg=msg + ': commands of mirror %d' % i)
            close(d.dV, dV[i], 1e-6, atol=1e-5*s + 1e-12, msg=msg + ': change of the commands of mirror %d' % i)
        else:
            need(np.array_equal(d.V, V0[i]), '%s: mirror %d is not used but moved', msg, i)
    close(cvar.cMin, mean, 1e-5, msg=msg + ': best intensity')
    close(np.asarray(cvar.Im), I, 1e-4, atol=1e-5*I.max(), msg=msg + ': image')


def field(mp, c, r):
    s = (c['npix'], mp.jac.Nmode)
    return 10.**c['logE']*(r.standard_normal(s) + 1j*r.standard_normal(s))


@F.facet(st.fixed_dictionaries(CASE), quick=400, thorough=12000, timeout=60)
def search(c, rec):
    """the grid search applies, once, the regularised least-squares command of the best setting"""
    if c['model']:
        c = dict(c)
    else:
        c = dict(c, par=False)
    mp, r = prepare(c)
    mp.controller = 'gridsearchefc'
    J = jacobian(mp, c, r)
    E = field(mp, c, r)
    bench = Bench(mp, c, r)
    V0 = bench.state(mp)
    A, b, order = unknown(c, mp, J, E, bench.peaks())
    cvar = falco.config.Object()
    cvar.Itr = 0
    run(mp, c, bench, cvar, J, E)
    T = [(reg, fac, trial(mp, c, bench, A, b, order, reg, fac, V0)) for fac in c['facs'] for reg in c['regs']]
    means = np.array([t[2][2] for t in T])
    close(cvar.InormVec, means, 1e-5, msg='intensities of the settings')
    best = means.min()
    ok = [t for t in T if t[2][2] <= best*(1 + 3e-5)]
    # settings that are as good may be chosen: the one whose commands were applied
    ok.sort(key=lambda t: max(np.abs(getattr(mp, 'dm%d' % i).V - V0[i] - t[2][0][i]).max() for i in c['dms']))
    check_applied(mp, c, bench, cvar, ok[0][2], V0, 'best setting')
    need(any(cvar.log10regUsed == t[0] for t in ok), 'regularization reported %s, best %s', cvar.log10regUsed, [t[0] for t in ok])
    rec.nontrivial(len(T) > 1 and np.ptp(means) > 1e-3*best)
    rec.label('parallel', c['par'])
    rec.label('normalised by the peak', c['ni'])
    rec.label('several stars', c['nstar'] > 1)
    rec.label('DM8 or DM9', any(i in (8, 9) for i in c['dms']))
    rec.label('one actuator', mp.dm1.Nele == 1)
    rec.label('bounds', c['bound'])


class Smooth(Bench):
    """a cost whose minimum is known for every regularization"""
    def target(self, mp, reg):
        n = sum(getattr(mp, 'dm%d' % i).Nele for i in self.c['dms'])
        return 10.**self.c['logE']*rng(int(round(100*reg)) + 5000 + self.c['seed']).standard_normal(n)

    def gradient(self, du, log10reg, mp, Eest, *args):
        need(Eest.shape == (self.c['npix'], mp.jac.Nmode), 'estimate given to the cost')
        for i in (1, 2):
            close(getattr(mp, 'dm%d' % i).V, self.before[i], 1e-12, atol=1e-12, msg='commands of mirror %d at the start of the optimization' % i)
        e = du - self.target(mp, log10reg)
        k = 100.**-self.c['logE']
        return k*np.sum(e**2), 2*k*e

    def compact(self, mp, modvar, **kw):
        if not kw.get('forRevGradModel'):
            return super().compact(mp, modvar, **kw)
        return (0,)*5

    @contextlib.contextmanager
    def on(self):
        keep = falco.model.compact_reverse_gradient
        falco.model.compact_reverse_gradient = self.gradient
        try:
            with super().on():
                yield
        finally:
            falco.model.compact_reverse_gradient = keep


def adtrial(mp, c, bench, A, b, order, reg, fac, V0):
    t = bench.target(mp, reg)
    V, dV, k = dict(V0), {}, 0
    for i in order:
        d = getattr(mp, 'dm%d' % i)
        lo, hi = (v - (V0[i] + d.biasMap).flat[d.act_ele] for v in (d.Vmin, d.Vmax))
        dV[i] = np.zeros(d.V.shape)
        dV[i].flat[d.act_ele] = fac*np.clip(t[k:k + d.Nele], lo, hi)
        k += d.Nele
        V[i] = V0[i] + dV[i]
        if c.get('bound'):
            V[i] = held(d, V[i])
    I = bench.image(V)
    return dV, I, I[mp.Fend.corr.maskBool].mean()


def scheduled(c, rec, ad):
    c = dict(c, par=False)
    mp, r = prepare(c)
    mp.controller = 'ad-efc' if ad else 'plannedefc'
    plan = [list(p) for p in c['plan']]
    first = min([k for k, p in enumerate(plan) if p[2]], default=len(plan))
    for k, p in enumerate(plan):
        if k < first:
            p[1] = False  # nothing found yet
    n = len(plan)
    mp.Nitr = n
    mp.gridSearchItrVec = np.array([k for k in range(n) if plan[k][2]])
    mp.ctrl.log10regSchedIn = np.array([p[0] + (1j if p[1] else 0) for p in plan], dtype=complex)
    bench = (Smooth if ad else Bench)(mp, c, r)
    attempt = adtrial if ad else trial
    mp.ctrl.ad = falco.config.Object()
    mp.ctrl.ad.iprint, mp.ctrl.ad.maxiter, mp.ctrl.ad.maxfun, mp.ctrl.ad.maxcor, mp.ctrl.ad.utu_scale_fac = -1, 60, 200, 10, 1e-6
    cvar = falco.config.Object()
    best, fac = None, 1.
    for k, (reg, rel, grid) in enumerate(plan):
        cvar.Itr = k
        J = jacobian(mp, c, r)
        E = field(mp, c, r)
        V0 = bench.state(mp)
        A, b, order = unknown(c, mp, J, E, bench.peaks())
        run(mp, c, bench, cvar, J, E)
        if grid:
            T = [(g, f, attempt(mp, c, bench, A, b, order, g, f, V0)) for f in c['facs'] for g in c['regs']]
            means = [t[2][2] for t in T]
            near = [t for t in T if t[2][2] <= min(means)*(1 + 3e-5)]
            if len({(t[0], t[1]) for t in near}) > 1:
                rec.label('tie between settings')
                return
            best, fac = near[0][0], near[0][1]
        use = best + reg if rel else reg
        need(abs(cvar.log10regUsed - use) < 1e-12, 'iteration %d: regularization %s used, %s planned', k, cvar.log10regUsed, use)
        if use < -6.5:
            return
        check_applied(mp, c, bench, cvar, attempt(mp, c, bench, A, b, order, use, fac, V0), V0, 'iteration %d' % k)
    rec.nontrivial(n > 1)
    rec.label('relative to the best found', any(p[1] and p[0] != 0 for p in plan))
    rec.label('best found earlier', any(p[1] and not p[2] for p in plan))



PLAN = dict(CASE, plan=st.lists(st.tuples(st.sampled_from([0., -1., -2., -4., .5, -.3]), st.booleans(), st.booleans()), min_size=2, max_size=5))


@F.facet(st.fixed_dictionaries(PLAN), quick=240, thorough=8000, timeout=60)
def planned(c, rec):
    """the planned controller follows its schedule: fixed, relative to or equal to the latest best regularisation, with the latest best factor"""
    scheduled(c, rec, False)


@F.facet(st.fixed_dictionaries(dict(PLAN, dms=st.sampled_from([[1], [2], [1, 2], [2, 1]]))), quick=160, thorough=5000, timeout=60)
def planned_ad(c, rec):
    """so does the one that minimizes the cost of the model, within the bounds of the mirrors"""
    scheduled(c, rec, True)


@F.facet(st.fixed_dictionaries({'Nact': st.sampled_from([3, 4, 5]), 'Nact2': st.sampled_from([3, 4]), 'seed': SEED, 'logG': st.sampled_from([-6., -2., -1., -.2, 0.]),
                                'sets': st.lists(st.sampled_from([[1], [2], [1, 2], [2, 1]]), min_size=1, max_size=5), 'planned': st.booleans(),
                                'relin': st.lists(st.booleans(), min_size=5, max_size=5), 'ties': st.booleans(), 'npix': st.integers(1, 12)}),
         quick=300, thorough=6000, timeout=60)
def cull(c, rec):
    """kept actuators are those whose mean response exceeds the given fraction of the strongest, and the tied ones; columns match them"""
    mp = copy.deepcopy(_base(c['Nact'], c['Nact2'], 2, 1, 1, 'pixel'))
    r = rng(c['seed'])
    mp.logGmin = c['logG']
    sets = c['sets'] if c['planned'] else [c['sets'][0]]*len(c['sets'])
    n = len(sets)
    mp.Nitr = n
    if c['planned']:
        mp.dm_ind_sched = [np.array(s) for s in sets]
    ties = {1: np.array([[1, 6], [8, 3]]), 2: np.array([[2, 5]])}
    for i in (1, 2):
        getattr(mp, 'dm%d' % i).tied = ties[i] if c['ties'] else np.zeros((0, 2))
    cvar = falco.config.Object()
    J = None
    full = {}
    for k, s in enumerate(sets):
        mp.dm_ind = np.array(s)
        cvar.Itr = k
        change = k == 0 or sorted(s) != sorted(sets[k-1])
        cvar.flagRelin = change or c['relin'][k]
        before = {i: (np.array(getattr(mp, 'dm%d' % i).act_ele).copy(), getattr(mp, 'dm%d' % i).Nele) for i in s}
        if cvar.flagRelin:
            J = falco.config.Object()
            for i in (1, 2):
                d = getattr(mp, 'dm%d' % i)
                m = d.NactTotal if change else before.get(i, ([], 0))[1]
                G = (r.standard_normal((c['npix'], m, 2)) + 1j*r.standard_normal((c['npix'], m, 2)))*10.**(-3*r.uniform(0, 1, m))[None, :, None]
                setattr(J, 'G%d' % i, G if i in s else G[:, :0])
            full = {i: getattr(J, 'G%d' % i).copy() for i in s}
        with quiet():
            falco.ctrl.cull_weak_actuators(mp, cvar, J)
        need(bool(cvar.flagCullAct) == change and bool(mp.flagCullActHist[k]) == change, 'iteration %d: culled %s, expected %s', k, cvar.flagCullAct, change)
        for i in s:
            d = getattr(mp, 'dm%d' % i)
            G = getattr(J, 'G%d' % i)
            act = np.array(d.act_ele)
            need(d.Nele == len(act) == G.shape[1], 'iteration %d: %d actuators, Nele %d, %d columns', k, len(act), d.Nele, G.shape[1])
            if not change:
                need(np.array_equal(act, before[i][0]) and np.array_equal(G, full[i]), 'iteration %d: actuators changed', k)
                continue
            p = (np.abs(full[i])**2).mean(2).sum(0)
            p = p/p.max()
            lim = 10.**c['logG']
            if np.any(np.abs(p/lim - 1) < 1e-9) and c['logG'] < 0:
                return
            kept = set(np.nonzero(p >= lim*(1 - 1e-12))[0])
            if c['ties']:
                kept |= set(ties[i].ravel())
            need(list(act) == sorted(kept), 'iteration %d: mirror %d keeps %s, expected %s', k, i, list(act), sorted(kept))
            need(np.array_equal(G, full[i][:, sorted(kept)]), 'iteration %d: columns of mirror %d', k, i)
            full[i] = G.copy()
            rec.label('actuators culled', len(act) < d.NactTotal)
            rec.label('tied ones kept', c['ties'] and len(kept) > np.sum(p >= lim))
        for i in (1, 2):
            need(i in s or getattr(mp, 'dm%d' % i).Nele == 0 or not c['planned'], 'iteration %d: mirror %d is not used', k, i)
    rec.nontrivial(n > 1 and c['logG'] > -6)


@F.facet(st.fixed_dictionaries({'rows': st.lists(st.tuples(st.integers(0, 4), st.sampled_from([-5., -2., 0., -3.5, -1.]), st.booleans(), st.sampled_from([1, 2, 12, 129, 1289, 9]),
                                                           st.booleans(), st.booleans()), min_size=1, max_size=6)}), quick=300, thorough=6000)
def schedule(c, rec):
    """the schedule matrix is expanded row by row"""
    rows = [list(x) for x in c['rows']]
    if sum(x[0] for x in rows) == 0:
        rows.append([1, -2., False, 12, True, False])
    mat = np.array([[n, g + (1j if im else 0), d, int(rl), int(gr)] for n, g, im, d, rl, gr in rows], dtype=complex)
    keep = mat.copy()
    N, relin, grid, reg, inds = falco.ctrl.efc_schedule_generator(mat)
    need(np.array_equal(mat, keep), 'schedule changed')
    regs, dms, re, gs = [], [], [], []
    for n, g, im, d, rl, gr in rows:
        if rl:
            re.append(len(regs))
        if gr:
            gs.append(len(regs))
        regs += [g + (1j if im else 0)]*n
        dms += [[int(x) for x in str(d)]]*n
    need(N == len(regs), '%s iterations, expected %d', N, len(regs))
    need([int(x) for x in relin] == re, 'relinearisations %s, expected %s', relin, re)
    need([int(x) for x in grid] == gs, 'grid searches %s, expected %s', grid, gs)
    need(np.array_equal(reg, np.array(regs)), 'regularisations %s, expected %s', reg, regs)
    need([list(x) for x in inds] == dms, 'mirrors %s, expected %s', inds, dms)
    rec.nontrivial(len(rows) > 2 and any(x[0] == 0 for x in rows))

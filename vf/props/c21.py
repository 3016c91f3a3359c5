"""C21: every iteration of the wavefront-control loop is recorded truthfully and uses the state it should."""
import copy
import os
import pickle
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet, scratch
import dmkit
import modkit
from props.c14 import mv
from props.c19 import setprobe
import falco

F = Facets('C21', rule='whole control runs of two or three iterations with drawn instruments, controllers, schedules and estimators, '
           'observed at the controller and checked against recomputation from the recorded commands; '
           'non-trivial = the commands change at every iteration',
           assumptions=['mirrors that are not selected in an iteration are not modelled in it (as the code states)'])

LOOP = {'coro': st.sampled_from(['LC', 'VC', 'FLC']), 'Nitr': st.integers(1, 3), 'ctrl': st.sampled_from(['grid', 'grid', 'plan', 'plan', 'ad']),
        'relin': st.lists(st.booleans(), min_size=3, max_size=3), 'sets': st.lists(st.sampled_from([1, 2, 12]), min_size=3, max_size=3),
        'model': st.booleans(), 'est': st.sampled_from(['perfect', 'perfect', 'pairwise', 'pairwise-rect']), 'cull': st.sampled_from([-6., -1., -.3]),
        'sp': st.sampled_from([[], [[1.5, 3., 4.]], [[2., 3., .5], [3., 5., 2.]]]), 'bound': st.booleans(), 'bias': st.booleans(),
        'ties': st.booleans(), 'dead': st.booleans(), 'par': st.sampled_from([False]*5 + [True]), 'zs': st.booleans(), 'regs': st.lists(st.sampled_from([-1., -2., -3., -5.]), min_size=3, max_size=3),
        'best': st.lists(st.booleans(), min_size=3, max_size=3), 'save': st.booleans(), 'Nbeam': st.just(16), 'Nact': st.sampled_from([4, 5]),
        'fov': st.just(5.), 'score': st.sampled_from([[2., 3., 140.], [1.5, 4., 150.], [1.2, 4.5, 170.], [3., 4.5, 160.]]),
        'Nact2': st.sampled_from([4, 5, 6]), 'NbeamFull': st.sampled_from([16, 16, 20]), 'wfe': st.booleans(), 'weights': st.sampled_from([[1., 1.], [.5, 2.]]),
        'zern': st.sampled_from([[[1], [1.]], [[1], [1.]], [[1, 2], [1., 1e-9]]]), 'ni': st.booleans()}


def schedule(c):
    """rows of the schedule and what each iteration should do: (mirrors, relinearise, grid search, regularisation, use the best found)"""
    n = c['Nitr']
    rows, plan = [], []
    for k in range(n):
        dms = c['sets'][k]
        change = k > 0 and c['sets'][k] != c['sets'][k-1]
        relin = k == 0 or c['relin'][k] or change
        grid = c['best'][k]
        reg = (1j if grid else 0) + (0. if grid else c['regs'][k])
        rows.append([1, reg, dms, 1 if relin else 0, 1 if grid else 0])
        plan.append(([int(x) for x in str(dms)], relin, grid, c['regs'][k], grid))
    return np.array(rows, dtype=complex), plan


def start(c, tmp):
    diff = c['ctrl'] == 'ad'
    mp, ref = modkit.build(c, tmp=tmp, controller={'grid': 'gridsearchefc', 'plan': 'plannedefc', 'ad': 'ad-efc'}[c['ctrl']], raw=True, diff=diff)
    n = mp.Nitr = c['Nitr']
    mp.runLabel = 'run'
    mp.relinItrVec = np.array([k for k in range(n) if k == 0 or c['relin'][k]])
    mp.ctrl.log10regVec = np.array([-4., -2., -1.])
    mp.ctrl.dmfacVec = [1., .5]
    mp.ctrl.flagUseModel = c['model']
    mp.logGmin = c['cull']
    mp.WspatialDef = np.array(c['sp']) if c['sp'] else []
    mp.flagSaveWS = c['save']
    if not c['zs']:
        mp.eval.Rsens, mp.eval.indsZnoll = np.array([]), np.array([])
    mp.jac.minimizeNI = bool(c['ni'] and c['zern'][0] == [1])
    plan = None
    if c['ctrl'] == 'plan':
        mat, plan = schedule(c)
        [mp.Nitr, mp.relinItrVec, mp.gridSearchItrVec, mp.ctrl.log10regSchedIn, mp.dm_ind_sched] = falco.ctrl.efc_schedule_generator(mat)
        mp.dm_ind = np.array([1, 2])
    elif c['ctrl'] == 'ad':
        mp.gridSearchItrVec = [0]
        mp.ctrl.log10regSchedIn = np.array([1j] + c['regs'][1:n])
        mp.ctrl.log10regVec, mp.ctrl.dmfacVec = np.array([-3., -1.]), [1.]
        mp.ctrl.ad = falco.config.Object()
        mp.ctrl.ad.iprint, mp.ctrl.ad.maxiter, mp.ctrl.ad.maxfun, mp.ctrl.ad.maxcor, mp.ctrl.ad.utu_scale_fac = -1, 3, 8, 10, 1e-6
    r = rng(c['seed'] + 3)
    if c['bound']:
        mp.dm1.Vmin, mp.dm1.Vmax, mp.dm2.Vmin, mp.dm2.Vmax = -9., 11., -8., 12.
    for i in (1, 2):
        d = getattr(mp, 'dm%d' % i)
        nn = d.Nact**2
        if c['bias']:
            d.biasMap = r.uniform(-1, 1, (d.Nact, d.Nact))
        if c['ties']:
            d.tied = np.array([[1, 6], [10, 3]])
            d.V.flat[6], d.V.flat[3] = d.V.flat[1], d.V.flat[10]
        if c['dead']:
            d.dead = [5]
            d.V.flat[5] = 0
    if c['est'] != 'perfect':
        mp.est.probe.radius = 2
    with quiet():
        out = falco.setup.flesh_out_workspace(mp)
    if c['par']:
        # in parallel a wavelength shared by two sub-bands is computed once
        mp.P1.full.E = np.array(mp.P1.full.E)
        mp.P1.full.E[...] = mp.P1.full.E[:, :, :1, :1]
    if c['est'] != 'perfect':
        setprobe(mp, dict(pairs=2, which=1 + c['seed'] % 2, axis='alternate', poff=[0, 0], rotation=0, rad=2., fudge=1., xi=[1.5, 0.], wh=[3., 4.], estimator=c['est']))
        ns = len(c['star'][0])
        for k in ('gainFudge', 'xiOffset', 'etaOffset', 'width', 'height'):
            if c['est'] == 'pairwise-rect':
                setattr(mp.est.probe, k, np.repeat(getattr(mp.est.probe, k), ns))
    mp.flagParallel = c['par'] and not diff
    mp.Nthreads = 2
    return mp, ref, out, plan


def pins(mp, put=None):
    """actuators held at a bound so far (documented: an actuator that reaches a bound is added to the pinned ones)"""
    out = []
    for k, d in enumerate((mp.dm1, mp.dm2)):
        if put is not None:
            d.pinned, d.Vpinned = (np.array(v).copy() for v in put[k])
        out.append((np.array(d.pinned).copy(), np.array(d.Vpinned).copy()))
    return out


@F.facet(modkit.base(**LOOP), quick=44, thorough=1500, timeout=240)
def history(c, rec):
    """recorded commands, intensities, throughput, statistics, regularization and sensitivities are those of the iteration; Jacobians are current"""
    if c['ctrl'] == 'ad':
        c = dict(c, pitch=.4, ties=False, ni=False, zern=[[1], [1.]])
    if c['ctrl'] == 'plan':
        c = dict(c, dms=[1, 2])
    if c['est'] != 'perfect':
        c = dict(c, zern=[[1], [1.]])
    with scratch() as tmp:
        mp, ref, out, plan = start(c, tmp)
        seen = []
        real = falco.ctrl.wrapper

        def spy(m, cvar, jac):
            e = {'pin': pins(m), 'V': {i: getattr(m, 'dm%d' % i).V.copy() for i in (1, 2)}, 'dm_ind': [int(v) for v in m.dm_ind], 'Eest': cvar.Eest.copy(),
                 'act': {i: np.array(getattr(m, 'dm%d' % i).act_ele).copy() for i in (1, 2)}, 'Itr': cvar.Itr}
            if jac is not None:
                e['G'] = {i: np.array(getattr(jac, 'G%d' % i)).copy() for i in e['dm_ind']}
            r = real(m, cvar, jac)
            e['V2'] = {i: getattr(m, 'dm%d' % i).V.copy() for i in (1, 2)}
            e['reg'] = cvar.log10regUsed
            e['Im'] = np.array(cvar.Im).copy()
            e['inco'], e['img'] = last_ev
            seen.append(e)
            return r
        masks = mp.Fend.corr.maskBool.copy(), mp.Fend.score.maskBool.copy()
        spare = copy.deepcopy(mp) if c['save'] else mp
        realest, last_ev = falco.est.wrapper, []

        def spyest(m, ev, jac):
            r = realest(m, ev, jac)
            last_ev[:] = [np.array(ev.IincoEst), np.array(ev.imageArray)]
            return r
        falco.ctrl.wrapper, falco.est.wrapper = spy, spyest
        try:
            with quiet():
                falco.wfsc.loop(mp, out)
        finally:
            falco.ctrl.wrapper, falco.est.wrapper = real, realest
        n = c['Nitr']
        need(len(seen) == n, '%d controller calls', len(seen))
        with open(os.path.join(tmp, 'run_snippet.pkl'), 'rb') as fh:
            snip = pickle.load(fh)
        for k in ('IrawCorrHist', 'log10regHist', 'thput'):
            need(np.array_equal(getattr(snip, k), getattr(out, k)), 'saved %s differs', k)
        need(np.array_equal(snip.dm1.Vall, out.dm1.Vall), 'saved commands differ')
        if c['save']:
            ws = [f for f in os.listdir(tmp) if f.endswith('_all.pkl')]
            up = [f for f in os.listdir(os.path.dirname(tmp)) if f.startswith(os.path.basename(tmp)) and f.endswith('_all.pkl')]
            need(ws or up, 'workspace not saved')
            for f in up:
                os.remove(os.path.join(os.path.dirname(tmp), f))
            m2 = spare
        else:
            m2 = mp
        m2.flagParallel = False
        last = {}
        for k, e in enumerate(seen):
            need(e['Itr'] == k, 'iteration numbers')
            if plan:
                need(sorted(e['dm_ind']) == plan[k][0], 'iteration %d: mirrors %s', k, e['dm_ind'])
            else:
                need(sorted(e['dm_ind']) == sorted(c['dms']), 'mirrors %s', e['dm_ind'])
            for i in (1, 2):
                d = getattr(m2, 'dm%d' % i)
                V = getattr(out, 'dm%d' % i).Vall
                need(np.array_equal(V[:, :, k], e['V'][i]), 'iteration %d: recorded commands of mirror %d', k, i)
                after = e['V2'][i]
                if i in e['dm_ind']:
                    exp = np.clip(after + d.biasMap, d.Vmin, d.Vmax) - d.biasMap
                    free = np.ones(exp.size, bool)
                    free[e['pin'][i-1][0].astype(int)] = False
                    got = V[:, :, k+1] + d.biasMap
                    need(got.min() >= d.Vmin - 1e-9 and got.max() <= d.Vmax + 1e-9 or c['dead'] or c['ties'], 'iteration %d: mirror %d beyond its bounds', k, i)
                    if c['ties']:
                        # tied actuators end equal, inside the bounds
                        nxt = V[:, :, k+1]
                        need(abs(nxt.flat[1] - nxt.flat[6]) < 1e-9 and abs(nxt.flat[10] - nxt.flat[3]) < 1e-9 or c['bias'] or c['bound'], 'tied actuators apart')
                        keep = np.ones(exp.size, bool)
                        keep[[1, 6, 10, 3]] = False
                    else:
                        keep = np.ones(exp.size, bool)
                    if c['dead']:
                        exp.flat[5] = 0
                        keep[5] = True
                        need(V[:, :, k+1].flat[5] == 0 or c['bias'], 'dead actuator moved')
                        keep[5] = False
                    keep &= free
                    close(V[:, :, k+1].ravel()[keep], exp.ravel()[keep], 1e-9, atol=1e-9, msg='iteration %d: commands applied to mirror %d' % (k, i))
                    rec.label('bound reached', np.abs(exp - after).max() > 1e-6)
                else:
                    need(np.array_equal(V[:, :, k+1], e['V'][i]), 'iteration %d: unused mirror %d moved', k, i)
            # state of the model in this iteration
            m2.dm_ind = np.array(e['dm_ind'])
            pins(m2, e['pin'])
            for i in (1, 2):
                getattr(m2, 'dm%d' % i).V = e['V'][i].copy()
            with quiet():
                falco.imaging.calc_psf_norm_factor(m2)
                close(out.thput[k], falco.imaging.calc_thput(m2)[0], 1e-8, msg='throughput')
                if c['est'] != 'perfect' and m2.est.probe.whichDM not in m2.dm_ind:
                    # the mirror used for probing is modelled while probing
                    m2.dm_ind = np.append(m2.dm_ind, m2.est.probe.whichDM)
                I = falco.imaging.get_summed_image(m2)
                m2.dm_ind = np.array(e['dm_ind'])
            close(out.IrawCorrHist[k], I[masks[0]].mean(), 1e-8, msg='iteration %d: intensity of the correction region' % k)
            close(out.IrawScoreHist[k], I[masks[1]].mean(), 1e-8, msg='iteration %d: intensity of the scoring region' % k)
            close(out.InormHist[k], out.IrawCorrHist[k], 1e-12, msg='intensity history')
            need(out.log10regHist[k] == e['reg'], 'regularization history')
            if plan and not plan[k][4]:
                need(e['reg'] == plan[k][3], 'scheduled regularization %g, used %g', plan[k][3], e['reg'])
            # Jacobian: that of the last linearisation for the actuators kept
            if c['ctrl'] != 'ad':
                if k == 0 or (plan[k][1] if plan else c['relin'][k]):
                    lin = {i: e['V'][i].copy() for i in (1, 2)}
                    keepact = {i: np.array(getattr(m2, 'dm%d' % i).act_ele) for i in (1, 2)}
                    for i in e['dm_ind']:
                        d = getattr(m2, 'dm%d' % i)
                        d.act_ele, d.Nele = np.arange(d.NactTotal), d.NactTotal
                    with quiet():
                        J = falco.model.jacobian(m2)
                    last = {i: np.array(getattr(J, 'G%d' % i)) for i in e['dm_ind']}
                need(set(last) >= set(e['dm_ind']), 'no Jacobian for a mirror')
                for i in e['dm_ind']:
                    a = e['act'][i]
                    need(e['G'][i].shape[1] == len(a), 'iteration %d: %d columns for %d actuators of mirror %d', k, e['G'][i].shape[1], len(a), i)
                    ok = last[i][:, a, :]
                    close(e['G'][i], ok, 1e-7, atol=1e-8*np.abs(last[i]).max(), msg='iteration %d: Jacobian of mirror %d' % (k, i))
            # estimate
            w = np.ravel(m2.sbp_weights)
            tot = sum(w[m2.jac.sbp_inds[q]]*np.abs(e['Eest'][:, q])**2 for q in range(e['Eest'].shape[1]))
            close(out.IestCorrHist[k], tot.mean(), 1e-9, msg='estimated intensity')
            tot2 = np.zeros(masks[0].shape)
            tot2[masks[0]] = tot
            close(out.IestScoreHist[k], tot2[masks[1]].mean(), 1e-9, msg='estimated intensity of the scoring region')
            for q in range(e['Eest'].shape[1]):
                a = np.abs(e['Eest'][:, q])**2
                close(out.normIntModCorr[k, q], a.mean(), 1e-9, msg='modulated intensity of mode %d' % q)
                close(out.normIntModScore[k, q], a[masks[1][masks[0]]].mean(), 1e-9, msg='modulated intensity of mode %d in the scoring region' % q)
                u = e['inco'][:, q]
                close(out.normIntUnmodCorr[k, q], u.mean(), 1e-9, atol=1e-12, msg='incoherent intensity of mode %d' % q)
                close(out.normIntUnmodScore[k, q], u[masks[1][masks[0]]].mean(), 1e-9, atol=1e-12, msg='incoherent intensity of mode %d in the scoring region' % q)
            tot2[masks[0]] = sum(w[m2.jac.sbp_inds[q]]*e['inco'][:, q] for q in range(e['inco'].shape[1]))
            close(out.IincoCorrHist[k], tot2[masks[0]].mean(), 1e-9, atol=1e-12, msg='incoherent intensity')
            close(out.IincoScoreHist[k], tot2[masks[1]].mean(), 1e-9, atol=1e-12, msg='incoherent intensity of the scoring region')
            for si in range(c['Nsbp']):
                J = e['img'][:, :, 0, si]
                close(out.normIntMeasCorr[k, si], J[masks[0]].mean(), 1e-9, msg='measured intensity of band %d' % si)
                close(out.normIntMeasScore[k, si], J[masks[1]].mean(), 1e-9, msg='measured intensity of band %d in the scoring region' % si)
            if c['est'] != 'perfect':
                # what is measured is the estimated and the incoherent light
                bands = m2.jac.sbp_inds
                for q in range(e['Eest'].shape[1]):
                    meas = out.normIntMeasCorr[k, bands[q]]
                    close(out.normIntModCorr[k, q] + out.normIntUnmodCorr[k, q], meas, 1e-8, msg='measured intensity of mode %d' % q)
                close(np.sum(w*out.normIntMeasCorr[k]), out.IrawCorrHist[k], 1e-8, msg='measured intensity')
            # statistics of the commands after the iteration
            for i in e['dm_ind']:
                d = getattr(m2, 'dm%d' % i)
                V = getattr(out, 'dm%d' % i).Vall[:, :, k+1]
                d.V = V.copy()
                o = getattr(out, 'dm%d' % i)
                close(o.Vpv[k], V.max() - V.min(), 1e-9, msg='peak-to-valley voltage')
                if c['ctrl'] != 'ad':
                    S = dmkit.oracle_surface(d, 'xin', d.compact.Ndm, modkit.P2D/c['Nbeam'])
                    close(o.Spv[k], S.max() - S.min(), 1e-6, msg='peak-to-valley surface')
                    x = modkit.pix(d.compact.Ndm, c['cen'])/c['Nbeam']
                    R = np.hypot(*np.meshgrid(x, x))
                    if not np.any(np.abs(R - .5) < 1e-9):
                        close(o.Srms[k], np.sqrt(np.mean(S[R <= .5]**2)), 1e-6, msg='RMS surface')
            if c['zs']:
                with quiet():
                    Z = falco.zern.calc_zern_sens(m2)
                close(out.Zsens[:, :, k], Z, 1e-7, msg='iteration %d: Zernike sensitivities' % k)
        # end of the run
        for i in (1, 2):
            getattr(m2, 'dm%d' % i).V = getattr(out, 'dm%d' % i).Vall[:, :, n].copy()
        with quiet():
            close(out.thput[n], falco.imaging.calc_thput(m2)[0], 1e-8, msg='final throughput')
        if not c['model']:
            close(out.IrawCorrHist[n], seen[-1]['Im'][masks[0]].mean(), 1e-9, msg='final intensity')
            pins(m2, seen[-1]['pin'])
            for i in seen[-1]['dm_ind']:
                getattr(m2, 'dm%d' % i).V = seen[-1]['V2'][i].copy()
            with quiet():
                close(out.IrawCorrHist[n], falco.imaging.get_summed_image(m2)[masks[0]].mean(), 1e-8, msg='intensity of the last command')
        moved = all(any(np.abs(e['V2'][i] - e['V'][i]).max() > 0 for i in e['dm_ind']) for e in seen)
        rec.nontrivial(moved and n > 1)
        rec.label(c['ctrl'])
        rec.label(c['est'])
        rec.label('actuators culled', any(len(e['act'][i]) < c['Nact']**2 for e in seen for i in e['dm_ind']))
        rec.label('spatial weights', bool(c['sp']))
        rec.label('mirrors change', plan is not None and len({tuple(p[0]) for p in plan}) > 1)
        rec.label('Jacobian kept', n > 1 and c['ctrl'] == 'grid' and not all(c['relin'][1:n]))
        rec.label('workspace saved', c['save'])

"""C15: the control Jacobian is the derivative of the compact model."""
import copy
import os
import pickle
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, quiet, scratch
import modkit
from props.c14 import mv
import falco

F = Facets('C15', rule='whole coronagraphs with drawn masks, mirror commands, actuator subsets, stars and modes; Jacobian columns are '
           'compared with central differences of the compact model; non-trivial = nonzero commands on the mirrors',
           assumptions=['actuator boxes: looser agreement when light propagates between the mirrors (the Jacobian crops the '
                        'diffracted poke) or when the mirror is tilted', 'the vortex Jacobian uses a coarser focal-plane grid'])

EXTRA = {'dist': st.sampled_from([[0., 0.], [0., 0.], [0., .008], [-.004, .01]]), 'wfe': st.booleans(), 'fscale': st.booleans(), 'chromatic': st.booleans(), 'weights': st.sampled_from([[1., 1.], [.5, 2.]]),
         'flat': st.booleans(), 'nsel': st.integers(2, 6), 'seln': st.integers(0, 2**20), 'subset': st.sampled_from(['all', 'some', 'some'])}


def setup(c, **kw):
    if c.get('flat'):
        for k in ('d1', 'd2'):
            c[k] = dict(c[k], tilt=[0, 0, 0])
    mp, ref = modkit.build(c, **kw)
    r = rng(c['seln'])
    if c.get('subset') != 'all':
        for d in (mp.dm1, mp.dm2):
            n = min(d.NactTotal, c['nsel'] + int(r.integers(0, 3)))
            d.act_ele = np.sort(r.choice(d.NactTotal, n, replace=False))
            d.Nele = d.act_ele.size
    return mp, ref


def field(mp, m):
    """focal-plane field of a Jacobian mode in the dark hole"""
    return falco.model.compact(mp, mv(mp.jac.sbp_inds[m], mp.jac.star_inds[m], mp.jac.zern_inds[m]))


def fd(mp, d, iact, m, fun=field, h=.02):
    V0 = d.V.copy()
    d.V = V0.copy()
    d.V.flat[iact] += h
    a = fun(mp, m)
    d.V = V0.copy()
    d.V.flat[iact] -= h
    b = fun(mp, m)
    d.V = V0
    return (a - b)/(2*h)


def tol(c):
    t = 6e-2 if c['coro'] == 'VC' else 2e-6
    if any(any(c['d%d' % i]['tilt']) for i in c['dms']):
        t = max(t, 3e-3)
    if any(c['dist']):
        t = max(t, 1.5e-2)
    return t


def nontriv(c, rec):
    rec.nontrivial(any(c['d%d' % i]['amp'] > 0 for i in c['dms']))
    rec.label(c['coro'])
    rec.label('tight', tol(c) < 1e-5)
    rec.label('rotated', c['rot'] and sum(c['relays']) % 2)


@F.facet(modkit.base(**EXTRA), quick=40, thorough=1200, timeout=120)
def derivative(c, rec):
    """columns of drawn actuators and modes against central differences of the compact model times the mirror weight"""
    mp, ref = setup(c)
    r = rng(c['seln'] + 1)
    # with an external full model the compact model and its derivative stay as they are
    if r.integers(4) == 0 and (c['coro'] == 'HLC' or mp.layout == 'Fourier'):
        mp.layout = ['proper', 'roman_phasec_proper', 'wfirst_phaseb_proper'][r.integers(3) if c['coro'] == 'HLC' else 0]
        rec.label('external full model')
    with quiet():
        J = falco.model.jacobian(mp)
    mask = mp.Fend.corr.maskBool
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        G = getattr(J, 'G%d' % i)
        need(G.shape == (mask.sum(), d.Nele, mp.jac.Nmode), 'shape of G%d', i)
        need(np.all(np.isfinite(G)), 'finite G%d', i)
        if d.Nele == 0:
            continue
        for m in r.choice(mp.jac.Nmode, min(2, mp.jac.Nmode), replace=False):
            big = np.sqrt(np.max(np.sum(np.abs(G[:, :, m])**2, 0)))
            for k in r.choice(d.Nele, min(3, d.Nele), replace=False):
                ref_col = fd(mp, d, d.act_ele[k], m)[mask]*d.weight
                err = np.linalg.norm(G[:, k, m] - ref_col)
                scale = max(big, np.linalg.norm(ref_col))
                rec.label('err>1e-2', err > 1e-2*scale)
                need(err <= tol(c)*scale + 1e-18, 'mode %d mirror %d actuator %d: off by %.3g of %.3g', m, i, d.act_ele[k], err, scale)
    nontriv(c, rec)


@F.facet(modkit.base(**EXTRA), quick=24, thorough=800, timeout=120)
def schedules(c, rec):
    """threads, and slices written to files in a drawn order and reassembled, give the serial Jacobian bit for bit"""
    with scratch() as tmp:
        mp, ref = setup(c, tmp=tmp)
        r = rng(c['seln'] + 2)
        for i in c['dms']:
            d = getattr(mp, 'dm%d' % i)
            if r.random() < .5:
                d.dead = [int(v) for v in r.choice(d.NactTotal, 2, replace=False)]
        with quiet():
            J = falco.model.jacobian(mp)
            mp.flagParallel = True
            P = falco.model.jacobian(mp)
            mp.flagParallel = False
        combos = [(m, i, int(a)) for m in range(mp.jac.Nmode) for i in c['dms'] for a in getattr(mp, 'dm%d' % i).act_ele]
        combos = [combos[k] for k in r.permutation(len(combos))]
        fn = os.path.join(tmp, 'mp.pkl')
        with open(fn, 'wb') as fh:
            pickle.dump(mp, fh)
        cut = int(r.integers(0, len(combos) + 1))
        with quiet():
            falco.model.write_jac_slices(fn, combos[:cut])
            falco.model.write_jac_slices(fn, combos[cut:])
            S = falco.model.reassemble_jac_from_slices(mp)
        for i in (1, 2):
            for name, other in (('threads', P), ('slices', S)):
                a, b = getattr(J, 'G%d' % i), getattr(other, 'G%d' % i)
                need(a.shape == b.shape, '%s: shape of G%d', name, i)
                close(b, a, 1e-12, 1e-15*max(1e-30, np.abs(a).max() if a.size else 1), msg='%s G%d' % (name, i))
            if i in c['dms']:
                d = getattr(mp, 'dm%d' % i)
                for k, a in enumerate(d.act_ele):
                    need((a not in d.dead) or not np.any(getattr(J, 'G%d' % i)[:, k]), 'dead actuator %d has a response', a)
    nontriv(c, rec)


@F.facet(modkit.base(**EXTRA), quick=24, thorough=800, timeout=120)
def ties(c, rec):
    """tied actuators: the response of moving them together, in the column of the first of the pair, wherever the pair lies"""
    mp, ref = setup(c)
    r = rng(c['seln'] + 3)
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        d.V *= 0
    with quiet():
        J = falco.model.jacobian(mp)
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        # two disjoint pairs, inside or across the subset of used actuators
        d.tied = r.choice(d.NactTotal, 4, replace=False).reshape(2, 2)
        if r.random() < .7 and d.Nele >= 2:
            d.tied[0] = r.choice(d.act_ele, 2, replace=False)
            rest = np.setdiff1d(np.arange(d.NactTotal), d.tied[0])
            d.tied[1] = r.choice(rest, 2, replace=False)
            unused, used = np.setdiff1d(rest, d.act_ele), np.intersect1d(rest, d.act_ele)
            if r.random() < .5 and unused.size and used.size:
                d.tied[1] = r.choice(unused), r.choice(used)
    with quiet():
        T = falco.model.jacobian(mp)
    for i in c['dms']:
        d = getattr(mp, 'dm%d' % i)
        a, b = getattr(J, 'G%d' % i), getattr(T, 'G%d' % i)
        exp = a.copy()
        inside = 0
        for p, q in d.tied:
            ip, iq = np.nonzero(d.act_ele == p)[0], np.nonzero(d.act_ele == q)[0]
            if ip.size and iq.size:
                exp[:, ip[0]] += exp[:, iq[0]]
                inside += 1
            # the second of a pair has no command of its own
            exp[:, iq] = 0
        rec.label('pair inside', inside)
        rec.label('pair across', inside < 2)
        rec.nontrivial(inside)
        close(b, exp, 1e-12, 1e-15*max(1e-30, np.abs(a).max() if a.size else 1), msg='G%d' % i)
        need(np.all(np.isfinite(b)), 'finite')


NI = modkit.base(**dict(EXTRA, star=st.just([[0.], [0.], [1.]]), cen=st.just('pixel'), zern=st.just([[1], [1.]]),
                        src=st.just([3., 0.])))


@F.facet(NI, quick=24, thorough=800, timeout=120)
def normalized(c, rec):
    """with mp.jac.minimizeNI the columns are the derivative of the field divided by the peak of the uncovered star"""
    mp, ref = setup(c)
    mp.jac.minimizeNI = True
    with quiet():
        J = falco.model.jacobian(mp)
    mask = mp.Fend.corr.maskBool
    r = rng(c['seln'] + 4)
    cache = {}
    compared = False

    def ratio(mp, m):
        mod = mv(mp.jac.sbp_inds[m], mp.jac.star_inds[m], mp.jac.zern_inds[m])
        P = falco.model.compact(mp, mod, useFPM=False)
        if m not in cache:
            cache[m] = np.unravel_index(np.argmax(np.abs(P)), P.shape)
        return falco.model.compact(mp, mod)/P[cache[m]]

    for m in range(mp.jac.Nmode):
        ratio(mp, m)
        # the documented scope: the peak is the image of the star, here the origin
        if tuple(cache[m]) != (mp.Fend.Neta//2, mp.Fend.Nxi//2):
            rec.label('peak moved by aberrations')
            continue
        compared = True
        for i in c['dms']:
            d = getattr(mp, 'dm%d' % i)
            G = getattr(J, 'G%d' % i)
            if d.Nele == 0:
                continue
            big = np.sqrt(np.max(np.sum(np.abs(G[:, :, m])**2, 0)))
            for k in r.choice(d.Nele, min(2, d.Nele), replace=False):
                exp = fd(mp, d, d.act_ele[k], m, ratio)[mask]*d.weight
                err = np.linalg.norm(G[:, k, m] - exp)
                scale = max(big, np.linalg.norm(exp))
                need(err <= 2*tol(c)*scale, 'mode %d mirror %d actuator %d: off by %.3g of %.3g', m, i, d.act_ele[k], err, scale)
    rec.nontrivial(compared and any(c['d%d' % i]['amp'] > 0 for i in c['dms']))

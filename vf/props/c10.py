"""C10: every deformable-mirror surface model renders the commanded superposition of influence functions."""
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, real, rng, scratch
import dmkit
import falco
from falco import proper

F = Facets('C10', rule='mirrors of 3-12 actuators with drawn sampling, centring, offset, tilts, clocking, rotation order, '
           'orientation, influence function, sign and gain map; non-trivial = a non-zero tilt/offset/orientation or '
           'non-integer sampling',
           assumptions=['influence functions shipped with the package', 'tilts up to 20 degrees, clocking up to 45 degrees'])

DMP = {'Nact': st.integers(3, 12), 'cen': st.sampled_from(['pixel', 'interpixel']),
       'ppact': st.one_of(st.sampled_from([5., 10., 2.5]), st.floats(2., 9.)),
       'tilt': st.one_of(st.just([0, 0, 0]), st.tuples(*[st.sampled_from([0, 0, 5.5, -12, 20])]*2, st.sampled_from([0, 10, -30, 45]))
                         .map(list)),
       'off': st.tuples(st.floats(-1.5, 1.5), st.floats(-1.5, 1.5)).map(list) | st.just([0, 0]),
       'orient': st.sampled_from(dmkit.ORIENT), 'inf': st.sampled_from(['xin', 'bmc']), 'sign': st.sampled_from(['+', '-']),
       'zyx': st.booleans()}
SEED = st.integers(0, 2**20)


def mk(c):
    k = {a: c[a] for a in DMP if a in c}
    return dmkit.make(**k)


def command(d, seed, how):
    n = d.Nact
    r = rng(seed)
    V = r.standard_normal((n, n))*10
    if how == 'sparse':
        V = V*(r.uniform(size=(n, n)) < .1)
        V[r.integers(n), r.integers(n)] = 7.
    d.V = V
    d.VtoH = 1e-9*r.uniform(.3, 2, (n, n))


def interesting(c, rec):
    t = any(c['tilt'])
    rec.nontrivial(t or any(c['off']) or c['orient'] != 'rot0' or c['ppact'] != int(c['ppact']))
    rec.label('tilted', t)
    rec.label('interpixel', c['cen'] == 'interpixel')
    rec.label('odd actuators', c['Nact'] % 2)


CASE = st.fixed_dictionaries({**DMP, 'N': st.integers(16, 90), 'seed': SEED, 'how': st.sampled_from(['dense', 'sparse'])})
CHANGE = {'xc': lambda d: setattr(d, 'xc', d.xc + .37), 'yc': lambda d: setattr(d, 'yc', d.yc - .2),
          'xtilt': lambda d: setattr(d, 'xtilt', d.xtilt + 9.), 'ytilt': lambda d: setattr(d, 'ytilt', d.ytilt - 11.),
          'zrot': lambda d: setattr(d, 'zrot', d.zrot + 25.), 'spacing': lambda d: setattr(d, 'dm_spacing', 1.04*d.dm_spacing),
          'order': lambda d: (setattr(d, 'flagZYX', not d.flagZYX), setattr(d, 'xtilt', 12.), setattr(d, 'ytilt', 17.)),
          'orient': lambda d: setattr(d, 'orientation', 'flipxrot90' if d.orientation == 'rot270' else 'rot270'),
          'gain': lambda d: setattr(d, 'VtoH', 1.3*d.VtoH[::-1])}


@F.facet(CASE, quick=250, thorough=5000)
def surface(c, rec):
    """the full-model surface equals the sum over actuators of height times the influence function at the projected position"""
    mp, d = mk(c)
    command(d, c['seed'], c['how'])
    S = falco.dm.gen_surf_from_act(d, d.dx, c['N'])
    O = dmkit.oracle_surface(d, c['inf'], c['N'], d.dx)
    close(S, O, 1e-10, msg='surface')
    interesting(c, rec)


@F.facet(CASE, quick=120, thorough=2000)
def cube(c, rec):
    """the compact model's influence-function cube reproduces the same surface inside its padded array"""
    mp, d = mk(c)
    command(d, c['seed'], c['how'])
    falco.dm.gen_poke_cube(d, mp, d.dx)
    S = falco.dm.gen_surf_from_poke_cube(d, 'full')
    need(S.shape == (d.NdmPad, d.NdmPad), 'padded shape')
    O = dmkit.oracle_surface(d, c['inf'], d.NdmPad, d.dx)
    tilted = any(c['tilt'])
    close(S, O, 6e-3 if tilted else 1e-6, msg='cube surface')
    d.compact = falco.config.Object()
    d.compact.NdmPad, d.compact.Nbox = d.NdmPad, d.Nbox
    d.compact.inf_datacube, d.compact.xy_box_lowerLeft = d.inf_datacube, d.xy_box_lowerLeft
    close(falco.dm.gen_surf_from_poke_cube(d, 'compact'), S, 1e-14, msg='compact and full lookups')
    # every postage stamp lies inside the padded array, and the array leaves room for propagation padding
    need(d.xy_box_lowerLeft.min() >= 0 and d.xy_box_lowerLeft.max() + d.Nbox <= d.NdmPad, 'stamp outside the padded array')
    need(d.NboxAS >= d.Nbox and d.NdmPad % 2 == 0, 'padding')
    interesting(c, rec)


@F.facet(st.fixed_dictionaries({**DMP, 'N': st.integers(16, 90), 'seed': SEED, 'how': st.sampled_from(['dense', 'sparse']),
                                'changes': st.lists(st.sampled_from(sorted(CHANGE)), min_size=1, max_size=3)}), quick=120, thorough=2500)
def differentiable(c, rec):
    """the differentiable model renders the same surface, again after new commands and after the alignment changes"""
    mp, d = mk(c)
    d.useDifferentiableModel = True
    # Fourier resampling of the shipped influence functions is exact when no pixel grid change truncates their spectrum
    tol = 1e-2 if c['ppact'] >= 3.5 else 6e-2
    for k, what in enumerate([None, None] + c['changes']):
        command(d, c['seed'] + k, c['how'])
        if what:
            CHANGE[what](d)
        S = falco.dm.gen_surf_from_act(d, d.dx, c['N'])
        O = dmkit.oracle_surface(d, c['inf'], c['N'], d.dx)
        ref = max(np.abs(O).max(), 1e-9*np.abs(d.V).max())
        need(np.abs(S - O).max() <= tol*ref, 'differentiable surface step %d: error %.2g', k, np.abs(S - O).max()/ref)
    interesting(c, rec)


@F.facet(st.fixed_dictionaries({**DMP, 'N': st.integers(16, 60), 'seed': SEED, 'a': st.floats(-2, 2), 'b': st.floats(-2, 2),
                                'diff': st.booleans()}), quick=120, thorough=2000)
def linear(c, rec):
    """surfaces are linear in the commands, whichever model renders them"""
    mp, d = mk(c)
    d.useDifferentiableModel = c['diff']
    n = d.Nact
    v1, v2 = real(c['seed'], (n, n)), real(c['seed'] + 1, (n, n))
    d.VtoH = 1e-9*rng(c['seed']).uniform(.3, 2, (n, n))
    out = []
    for v in (v1, v2, c['a']*v1 + c['b']*v2):
        d.V = v
        out.append(falco.dm.gen_surf_from_act(d, d.dx, c['N']))
    scale = np.abs(out[0]).max() + np.abs(out[1]).max()
    close(out[2], c['a']*out[0] + c['b']*out[1], 1e-9, 1e-10*scale, msg='superposition')
    interesting(c, rec)


@F.facet(st.fixed_dictionaries({'Nact': st.integers(3, 10), 'N': st.integers(8, 40).map(lambda k: 2*k), 'ppact': st.floats(2., 9.),
                                'tilt': DMP['tilt'], 'off': DMP['off'], 'zyx': st.booleans(), 'seed': SEED,
                                'mode': st.sampled_from(['spacing', 'nact']), 'apply': st.booleans()}), quick=120, thorough=2000)
def proper_dm(c, rec):
    """PROPER's own mirror routine and the package's variant give the same surface and imprint twice it on the wavefront"""
    n = c['Nact']
    N = c['N']
    Z = 1e-9*real(c['seed'], (n, n))
    dx = 1e-3/c['ppact']
    wl = 6e-7
    kw = {'XTILT': c['tilt'][0], 'YTILT': c['tilt'][1], 'ZTILT': c['tilt'][2]}
    kw['ZYX' if c['zyx'] else 'XYZ'] = True
    if not c['apply']:
        kw['NO_APPLY'] = True
    xc, yc = (n - 1)/2 + c['off'][0], (n - 1)/2 + c['off'][1]
    out = []
    for fn in (falco.dm.propcustom_dm, proper.prop_dm):
        wf = proper.prop_begin(N*dx, wl, N, 1.0)
        if c['mode'] == 'spacing':
            S = fn(wf, Z, xc, yc, 1e-3, **kw)
            pitch = 1e-3
        else:
            S = fn(wf, Z, xc, yc, N_ACT_ACROSS_PUPIL=n, **kw)
            pitch = N*dx/n
        E = proper.prop_get_wavefront(wf)
        exp = np.exp(2j*np.pi/wl*2*S) if c['apply'] else np.ones((N, N))
        close(E/E[0, 0]*exp[0, 0], exp, 1e-9, msg='phase imprinted by ' + fn.__name__)
        out.append(S)
    close(out[1], out[0], 1e-6, msg='the two mirror routines')
    d = dmkit.make(Nact=n, ppact=c['ppact'], tilt=c['tilt'], off=c['off'], zyx=c['zyx'])[1]
    d.dm_spacing = pitch
    close(out[0], dmkit.oracle_surface(d, 'xin', N, dx, heights=Z), 1e-9, msg='mirror surface')
    rec.nontrivial()
    rec.label(c['mode'])


@F.facet(st.fixed_dictionaries({**DMP, 'seed': SEED, 'name': st.sampled_from(['bogus', 'rot45', 'flipyrot90', '', 'ROT90', 'FlipXRot270'])}),
         quick=40, thorough=400)
def orientation_names(c, rec):
    """unknown orientations are refused by every surface routine; names are case-insensitive"""
    mp, d = mk(c)
    command(d, c['seed'], 'dense')
    d.orientation = c['name']
    ok = c['name'].lower() in dmkit.ORIENT
    rec.nontrivial()
    for fn in (lambda: falco.dm.gen_surf_from_act(d, d.dx, 20), lambda: falco.dm.gen_poke_cube(d, mp, d.dx, NOCUBE=True)):
        try:
            r = fn()
        except ValueError:
            need(not ok, 'orientation %s refused', c['name'])
        else:
            need(ok, 'orientation %s accepted', c['name'])
            if r is not None:
                d.orientation = c['name'].lower()
                close(r, dmkit.oracle_surface(d, c['inf'], 20, d.dx), 1e-10, msg='surface')
                d.orientation = c['name']

"""C01: centred array re-sizing, coordinate axes and grids."""
import math
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, rng
from falco import util

F = Facets('C01', rule='arrays of drawn shape/dtype/content and drawn sizes; non-trivial = the '
           'operation really pads, crops, bins or mixes parities (not the identity)',
           assumptions=['numpy indexing is trusted as the reference'])

DT = st.sampled_from(['float64', 'complex128', 'int64', 'float32', 'bool', 'int32', 'complex64', 'uint8'])
N = st.integers(1, 14)


def make(seed, shape, dtype):
    r = rng(seed)
    if dtype == 'bool':
        return r.integers(0, 2, shape).astype(bool)
    if dtype.startswith('complex'):
        return (r.standard_normal(shape) + 1j*r.standard_normal(shape)).astype(dtype)
    if dtype.startswith('float'):
        return r.standard_normal(shape).astype(dtype)
    return r.integers(1, 100, shape).astype(dtype)


def ref_place(a, shape, fill):
    """out[i,j] = a at the same offset from the FFT-centre pixel n//2, else fill."""
    out = np.full(shape, fill, dtype=a.dtype)
    for i in range(shape[0]):
        for j in range(shape[1]):
            k, m = i - shape[0]//2 + a.shape[0]//2, j - shape[1]//2 + a.shape[1]//2
            if 0 <= k < a.shape[0] and 0 <= m < a.shape[1]:
                out[i, j] = a[k, m]
    return out


@F.facet(st.fixed_dictionaries({'seed': st.integers(0, 2**20), 'ny': N, 'nx': N, 'my': N, 'mx': N,
                                'dt': DT, 'form': st.sampled_from(['tuple', 'list', 'array', 'int', 'npint']),
                                'fill': st.sampled_from([0, 0, 0, 1])}),
         quick=1500, thorough=20000)
def pad_crop_reference(c, rec):
    """pad_crop keeps every pixel at its offset from the FFT centre, fills the rest, keeps the type and copies"""
    a = make(c['seed'], (c['ny'], c['nx']), c['dt'])
    keep = a.copy()
    shape = (c['my'], c['mx'])
    if c['form'] in ('int', 'npint'):
        shape = (c['my'], c['my'])
        arg = c['my'] if c['form'] == 'int' else np.int64(c['my'])
    elif c['form'] == 'array':
        arg = np.array(shape)
    else:
        arg = tuple(shape) if c['form'] == 'tuple' else list(shape)
    out = util.pad_crop(a, arg, extrapval=c['fill']) if c['fill'] else util.pad_crop(a, arg)
    need(out.dtype == a.dtype, 'dtype %s became %s', a.dtype, out.dtype)
    need(np.array_equal(out, ref_place(a, shape, c['fill'])), 'pad_crop differs from reference %s -> %s', a.shape, shape)
    out[...] = 0
    need(np.array_equal(a, keep), 'output aliases the input')
    rec.nontrivial(shape != a.shape)
    rec.label('pad_and_crop', (shape[0] > a.shape[0]) != (shape[1] > a.shape[1]))
    rec.label('parity_mix', (shape[0]-a.shape[0]) % 2 == 1)


@F.facet(st.fixed_dictionaries({'seed': st.integers(0, 2**20), 'ny': N, 'nx': N,
                                'chain': st.lists(st.tuples(N, N).map(list), min_size=1, max_size=5)}),
         quick=600, thorough=8000)
def pad_crop_transitive(c, rec):
    """chained pad_crop through sizes never below both end sizes equals the direct pad_crop"""
    a = make(c['seed'], (c['ny'], c['nx']), 'complex128')
    fin = c['chain'][-1]
    b = a
    for s in c['chain'][:-1]:
        s = (max(s[0], min(fin[0], a.shape[0])), max(s[1], min(fin[1], a.shape[1])))
        b = util.pad_crop(b, s)
    b = util.pad_crop(b, tuple(fin))
    need(np.array_equal(b, util.pad_crop(a, tuple(fin))), 'not transitive: %s via %s', a.shape, c['chain'])
    rec.nontrivial(len(c['chain']) > 1)


@F.facet(st.fixed_dictionaries({'bad': st.sampled_from(['neg', 'zero', 'three', 'float', 'oned', 'cplxfill', 'str']),
                                'n': N}), quick=60, thorough=200)
def pad_crop_rejects(c, rec):
    """invalid sizes and inputs are rejected with TypeError"""
    a = np.ones((c['n'], c['n']))
    bad = {'neg': (-c['n'], 3), 'zero': (3, 0), 'three': (1, 2, 3), 'float': (2.5, 3), 'str': 'ab'}
    if c['bad'] == 'oned':
        raises(TypeError, util.pad_crop, np.ones(c['n']), (3, 3))
    elif c['bad'] == 'cplxfill':
        raises(TypeError, util.pad_crop, a, (3, 3), extrapval=1j)
    else:
        raises(TypeError, util.pad_crop, a, bad[c['bad']])
    rec.nontrivial()


@F.facet(st.fixed_dictionaries({'seed': st.integers(0, 2**20), 'ny': N, 'nx': N}), quick=200, thorough=2000)
def even_square(c, rec):
    """pad_to_even_square: smallest even square holding the array, centred"""
    a = make(c['seed'], (c['ny'], c['nx']), 'float64')
    m = max(a.shape)
    m += m % 2
    out = util.pad_to_even_square(a)
    need(np.array_equal(out, ref_place(a, (m, m), 0)), 'pad_to_even_square wrong for %s', a.shape)
    rec.nontrivial(a.shape != (m, m))


@F.facet(st.fixed_dictionaries({'seed': st.integers(0, 2**20), 'ny': N, 'nx': N,
                                'r': st.floats(-30, 40), 'q': st.floats(-30, 40), 'my': N, 'mx': N}),
         quick=1500, thorough=20000)
def offcenter_crop_reference(c, rec):
    """offcenter_crop: output centre pixel shows the requested input pixel, zeros outside"""
    a = make(c['seed'], (c['ny'], c['nx']), 'float64')
    for k in ('r', 'q'):
        if abs(abs(c[k]) % 1 - 0.5) < 1e-6:
            c[k] = math.floor(c[k])
    out = util.offcenter_crop(a, c['r'], c['q'], c['my'], c['mx'])
    r0, q0 = int(round(c['r'])), int(round(c['q']))
    ref = np.zeros((c['my'], c['mx']))
    for i in range(c['my']):
        for j in range(c['mx']):
            k, m = i - c['my']//2 + r0, j - c['mx']//2 + q0
            if 0 <= k < a.shape[0] and 0 <= m < a.shape[1]:
                ref[i, j] = a[k, m]
    need(out.shape == ref.shape, 'shape %s expected %s', out.shape, ref.shape)
    need(np.array_equal(out, ref), 'offcenter_crop wrong')
    rec.nontrivial(bool(np.any(ref)))
    rec.label('partly_outside', bool(np.any(ref)) and not np.all(ref))


@F.facet(st.fixed_dictionaries({'seed': st.integers(0, 2**20), 'ny': st.integers(1, 7), 'nx': st.integers(1, 7),
                                'f': st.integers(1, 5), 'cplx': st.booleans(), 'ey': st.integers(0, 1),
                                'ex': st.integers(0, 1)}), quick=500, thorough=5000)
def bin_downsample_mean(c, rec):
    """bin_downsample is the block mean, for complex data too; indivisible sizes are rejected"""
    f = c['f']
    sh = (c['ny']*f + (c['ey'] if f > 1 else 0), c['nx']*f + (c['ex'] if f > 1 else 0))
    a = make(c['seed'], sh, 'complex128' if c['cplx'] else 'float64')
    if sh[0] % f or sh[1] % f:
        raises(ValueError, util.bin_downsample, a, f)
    else:
        out = util.bin_downsample(a, f)
        ref = a.reshape(c['ny'], f, c['nx'], f).mean(axis=(1, 3))
        close(out, ref, 1e-12, msg='block mean')
    rec.nontrivial(f > 1)
    rec.label('complex', c['cplx'])


@F.facet(st.fixed_dictionaries({'n': st.integers(1, 200), 'step': st.floats(1e-9, 1e6),
                                'cen': st.sampled_from(['pixel', 'interpixel'])}), quick=400, thorough=4000)
def axis_conventions(c, rec):
    """create_axis: N uniform samples, zero at index N//2 (pixel or odd) or symmetric about 0 (interpixel)"""
    n = c['n']
    ax = util.create_axis(n, c['step'], centering=c['cen'])
    inter = c['cen'] == 'interpixel' and n % 2 == 0
    ref = np.array([(i - n//2 + (0.5 if inter else 0.0))*c['step'] for i in range(n)])
    close(ax, ref, 1e-12, msg='axis')
    if c['cen'] == 'pixel' or n % 2:
        need(ax[n//2] == 0.0, 'no zero at the FFT centre')
    else:
        close(ax, -ax[::-1], 1e-12, msg='symmetry')
    rec.nontrivial(n > 2)
    rec.label(('odd' if n % 2 else 'even') + '_' + c['cen'])


@F.facet(st.fixed_dictionaries({'n': st.integers(1, 24), 'step': st.floats(0.01, 100),
                                'cen': st.sampled_from(['pixel', 'interpixel']),
                                'xs': st.floats(0.2, 5), 'ys': st.floats(0.2, 5)}), quick=300, thorough=3000)
def grids(c, rec):
    """radial, squared-radial and azimuthal grids agree with explicit per-pixel formulas"""
    ax = util.create_axis(c['n'], c['step'], centering=c['cen'])
    X, Y = np.meshgrid(ax, ax)
    X, Y = X/c['xs'], Y/c['ys']
    close(util.radial_grid(ax, c['xs'], c['ys']), np.hypot(X, Y), 1e-12, msg='radial_grid')
    close(util.radial_grid_squared(ax, c['xs'], c['ys']), X*X + Y*Y, 1e-12, msg='radial_grid_squared')
    close(np.exp(1j*util.azimuthal_grid(ax, c['xs'], c['ys'])), np.exp(1j*np.arctan2(Y, X)), 1e-9, msg='azimuth')
    rho, th = util.cart2pol(X, Y)
    close(rho*np.exp(1j*th), X + 1j*Y, 1e-12, msg='cart2pol')
    bx, by = util.broadcast(ax)
    need(np.array_equal(bx + 0*by, np.meshgrid(ax, ax)[0]) and np.array_equal(by + 0*bx, np.meshgrid(ax, ax)[1]),
         'broadcast')
    rec.nontrivial(c['n'] > 2 and c['xs'] != c['ys'])


@F.facet(st.fixed_dictionaries({'x': st.one_of(st.floats(-1e6, 1e6), st.integers(-1000, 1000))}),
         quick=600, thorough=5000)
def integer_rounding(c, rec):
    """ceil_even, ceil_odd, nextpow2: least admissible integer not below the input"""
    x = c['x']
    e = util.ceil_even(x)
    need(isinstance(e, int) and e % 2 == 0 and e - 2 < x <= e, 'ceil_even(%r)=%r', x, e)
    o = util.ceil_odd(x)
    need(isinstance(o, int) and o % 2 == 1 and o - 2 < x <= o, 'ceil_odd(%r)=%r', x, o)
    if abs(x) >= 1:
        p = util.nextpow2(x)
        need(2.0**p >= abs(x)*(1-1e-14) and 2.0**(p-1) < abs(x), 'nextpow2(%r)=%r', x, p)
    need(abs(util.sind(x) - math.sin(math.pi*x/180)) < 1e-9 and abs(util.cosd(x) - math.cos(math.pi*x/180)) < 1e-9,
         'sind/cosd')
    rec.nontrivial(x != int(x) or int(x) % 2 == 1)


@F.facet(st.fixed_dictionaries({'lists': st.lists(st.lists(st.integers(0, 9), max_size=4), min_size=1, max_size=4)}),
         quick=150, thorough=1000)
def cartesian_product(c, rec):
    """allcomb: every tuple once, last list varying fastest"""
    out = util.allcomb(*c['lists'])
    ref = [()]
    for li in c['lists']:
        ref = [r + (v,) for r in ref for v in li]
    need(list(out) == ref, 'allcomb')
    rec.nontrivial(len(ref) > 2 and len(c['lists']) > 1)

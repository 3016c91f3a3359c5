"""C02: Fourier-optics propagators (pupil<->focus, relay, plane-to-plane, vortex)."""
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, cplx, real
from falco import prop, util

F = Facets('C02', rule='complex fields of drawn size/centering/sampling; non-trivial = rectangular focal '
           'plane, unequal samplings, more than one pixel, or nonzero distance',
           assumptions=['explicit O(N^4) Fourier sums written from the documented transform are the reference'])
CEN = st.sampled_from(['pixel', 'interpixel'])
SEED = st.integers(0, 2**20)


def axis(n, d, cen):
    a = (np.arange(n) - n//2)*d
    if cen == 'interpixel' and n % 2 == 0:
        a = a + d/2
    return a


MFT = st.fixed_dictionaries({'seed': SEED, 'n': st.integers(1, 16), 'nxi': st.integers(1, 14), 'neta': st.integers(1, 14),
                             'sx': st.floats(0.05, 1.2), 'sy': st.floats(0.05, 1.2), 'cen': CEN,
                             'fl': st.floats(0.1, 5), 'wvl': st.floats(3e-7, 2e-6), 'dx': st.floats(1e-5, 1e-2)})


@F.facet(MFT, quick=500, thorough=6000)
def pupil_to_focus(c, rec):
    """mft_p2f equals the explicit Fourier sum at the requested focal-plane coordinates"""
    E = cplx(c['seed'], (c['n'], c['n']))
    u = c['wvl']*c['fl']/(c['n']*c['dx'])
    dxi, deta = u*c['sx'], u*c['sy']
    got = prop.mft_p2f(E, c['fl'], c['wvl'], c['dx'], dxi, c['nxi'], deta, c['neta'], centering=c['cen'])
    x = axis(c['n'], c['dx'], c['cen'])
    xi, eta = axis(c['nxi'], dxi, c['cen']), axis(c['neta'], deta, c['cen'])
    lf = c['wvl']*c['fl']
    ph = np.exp(-2j*np.pi/lf*(eta[:, None, None, None]*x[None, None, :, None] + xi[None, :, None, None]*x[None, None, None, :]))
    ref = np.einsum('abij,ij->ab', ph, E)*c['dx']*np.sqrt(dxi*deta)/lf
    close(got, ref, 1e-9, msg='mft_p2f')
    rec.nontrivial(c['n'] > 1 and c['nxi'] != c['neta'] and c['sx'] != c['sy'])
    rec.label(c['cen'])


@F.facet(MFT, quick=500, thorough=6000)
def focus_to_pupil(c, rec):
    """mft_f2p equals the explicit Fourier sum at the requested pupil coordinates"""
    E = cplx(c['seed'], (c['neta'], c['nxi']))
    u = c['wvl']*c['fl']/(c['n']*c['dx'])
    dxi, deta = u*c['sx'], u*c['sy']
    got = prop.mft_f2p(E, c['fl'], c['wvl'], dxi, deta, c['dx'], c['n'], centering=c['cen'])
    x = axis(c['n'], c['dx'], c['cen'])
    xi, eta = axis(c['nxi'], dxi, c['cen']), axis(c['neta'], deta, c['cen'])
    lf = c['wvl']*c['fl']
    ph = np.exp(-2j*np.pi/lf*(x[:, None, None, None]*eta[None, None, :, None] + x[None, :, None, None]*xi[None, None, None, :]))
    ref = np.einsum('abij,ij->ab', ph, E)*c['dx']*np.sqrt(dxi*deta)/lf
    close(got, ref, 1e-9, msg='mft_f2p')
    rec.nontrivial(c['n'] > 1 and c['nxi'] != c['neta'] and c['sx'] != c['sy'])
    rec.label(c['cen'])


@F.facet(st.fixed_dictionaries({'seed': SEED, 'h': st.integers(1, 16), 'cen': CEN, 'fl': st.floats(0.1, 5),
                                'wvl': st.floats(3e-7, 2e-6), 'dx': st.floats(1e-5, 1e-2)}), quick=300, thorough=3000)
def round_trip(c, rec):
    """critically sampled pupil->focus is unitary and focus->pupil then returns the field rotated by 180 degrees"""
    n = 2*c['h']
    E = cplx(c['seed'], (n, n))
    d = c['wvl']*c['fl']/(n*c['dx'])
    foc = prop.mft_p2f(E, c['fl'], c['wvl'], c['dx'], d, n, d, n, centering=c['cen'])
    close(np.sum(np.abs(foc)**2), np.sum(np.abs(E)**2), 1e-9, msg='energy')
    back = prop.mft_f2p(foc, c['fl'], c['wvl'], d, d, c['dx'], n, centering=c['cen'])
    close(back, prop.relay(E, 1, centering=c['cen']), 1e-9, msg='f2p(p2f(E)) vs one relay')
    neg = prop.mft_f2p(foc, -c['fl'], c['wvl'], d, d, c['dx'], n, centering=c['cen'])
    close(-neg, E, 1e-9, msg='f2p with opposite focal length inverts p2f')
    rec.nontrivial(n > 2)


@F.facet(st.fixed_dictionaries({'seed': SEED, 'ny': st.integers(1, 20), 'nx': st.integers(1, 20)}),
         quick=300, thorough=3000)
def centred_fft(c, rec):
    """fft2d is the orthonormal DFT about the centre pixel and ifft2d is its inverse"""
    a = cplx(c['seed'], (c['ny'], c['nx']))
    y, x = np.arange(c['ny']) - c['ny']//2, np.arange(c['nx']) - c['nx']//2
    Wy = np.exp(-2j*np.pi*np.outer(y, y)/c['ny'])/np.sqrt(c['ny'])
    Wx = np.exp(-2j*np.pi*np.outer(x, x)/c['nx'])/np.sqrt(c['nx'])
    f = prop.fft2d(a)
    close(f, Wy @ a @ Wx, 1e-10, msg='fft2d')
    close(prop.ifft2d(a), Wy.conj() @ a @ Wx.conj(), 1e-10, msg='ifft2d')
    close(prop.ifft2d(f), a, 1e-10, msg='ifft2d(fft2d)')
    rec.nontrivial(c['ny'] > 2 and c['nx'] > 2)
    rec.label('odd', c['nx'] % 2 or c['ny'] % 2)


@F.facet(st.fixed_dictionaries({'seed': SEED, 'h': st.integers(1, 12), 'w': st.integers(1, 12), 'n': st.integers(-5, 9),
                                'm': st.integers(-5, 9), 'cen': CEN}), quick=400, thorough=4000)
def relay_rotation(c, rec):
    """n relays rotate by n*180 degrees about the array centre; relays compose additively"""
    E = cplx(c['seed'], (2*c['h'], 2*c['w']))
    out = prop.relay(E, c['n'], centering=c['cen'])
    if c['n'] % 2 == 0:
        ref = E
    else:
        iy = np.arange(2*c['h'])
        ix = np.arange(2*c['w'])
        if c['cen'] == 'pixel':
            ref = E[np.ix_((-iy) % (2*c['h']), (-ix) % (2*c['w']))]
        else:
            ref = E[np.ix_(2*c['h']-1-iy, 2*c['w']-1-ix)]
    need(np.array_equal(out, ref), 'relay n=%s', c['n'])
    need(np.array_equal(prop.relay(out, c['m'], centering=c['cen']), prop.relay(E, c['n'] + c['m'], centering=c['cen'])),
         'relays do not compose')
    rec.nontrivial(c['n'] % 2 == 1)
    rec.label(c['cen'])


@F.facet(st.fixed_dictionaries({'seed': SEED, 'n': st.integers(2, 20), 'w': st.floats(1e-3, 1e-1),
                                'wvl': st.floats(3e-7, 2e-6), 'a': st.floats(-1, 1), 'b': st.floats(-1, 1)}),
         quick=400, thorough=4000)
def plane_to_plane(c, rec):
    """ptp is the Fresnel angular spectrum: explicit-DFT reference, energy, inverse, additivity, plane waves"""
    n = c['n']
    dx = c['w']/n
    z1, z2 = (v*n*dx*dx/c['wvl'] for v in (c['a'], c['b']))
    E = cplx(c['seed'], (n, n))
    o1 = prop.ptp(E, c['w'], c['wvl'], z1)
    k = np.arange(n)
    W = np.exp(-2j*np.pi*np.outer(k, k)/n)
    f = np.where(k < (n+1)//2, k, k-n)/c['w']
    H = np.exp(-1j*np.pi*c['wvl']*z1*(f[:, None]**2 + f[None, :]**2))
    ref = W.conj() @ (H*(W @ E @ W)) @ W.conj()/n**2
    close(o1, ref, 1e-9, msg='angular spectrum')
    close(np.sum(np.abs(o1)**2), np.sum(np.abs(E)**2), 1e-10, msg='energy')
    close(prop.ptp(o1, c['w'], c['wvl'], -z1), E, 1e-9, msg='inverse')
    close(prop.ptp(o1, c['w'], c['wvl'], z2), prop.ptp(E, c['w'], c['wvl'], z1+z2), 1e-8, msg='additivity')
    need(np.array_equal(prop.ptp(E, c['w'], c['wvl'], 0), E), 'dz=0')
    close(prop.ptp(np.ones((n, n)), c['w'], c['wvl'], z1), np.ones((n, n)), 1e-10, msg='on-axis plane wave')
    rec.nontrivial(abs(c['a']) > 1e-3 and n > 2)
    rec.label('odd', n % 2)


@F.facet(st.fixed_dictionaries({'seed': SEED, 'rad': st.integers(4, 9), 'pad': st.integers(0, 4),
                                'charge': st.sampled_from([1, 2, 3, 4, 5, 6, 8, -2, -4]), 'iv': st.floats(0.15, 0.45),
                                'ov': st.floats(1.5, 6)}), quick=48, thorough=400)
def vortex_adjoint(c, rec):
    """the vortex pupil-to-pupil propagator is linear and its reverse-gradient form is its exact adjoint"""
    n = 2*(c['rad'] + c['pad'])
    R, iv, ov = float(c['rad']), c['iv'], c['ov']
    x, y, z = cplx(c['seed'], (n, n)), cplx(c['seed']+1, (n, n)), cplx(c['seed']+2, (n, n))
    Ax = prop.mft_p2v2p(x, c['charge'], R, iv, ov)
    Ay = prop.mft_p2v2p(y, c['charge'], R, iv, ov)
    close(prop.mft_p2v2p(2.5*x - 1j*y, c['charge'], R, iv, ov), 2.5*Ax - 1j*Ay, 1e-9, msg='linearity')
    Bz = prop.mft_p2v2p(z, c['charge'], R, iv, ov, reverseGradient=True)
    lhs, rhs = np.vdot(z, Ax), np.vdot(Bz, x)
    need(abs(lhs-rhs) <= 1e-9*np.linalg.norm(z)*np.linalg.norm(Ax) + 1e-12, 'adjoint: %s vs %s', lhs, rhs)
    rec.nontrivial()


def disk(n, r):
    """Anti-aliased disk of radius r pixels about pixel n//2 (8x8 sub-sampling)."""
    u = (np.arange(8*n) - 8*(n//2) - 3.5)/8
    return (np.add.outer(u**2, u**2) <= r*r).astype(float).reshape(n, 8, n, 8).mean(axis=(1, 3))


@F.facet(st.fixed_dictionaries({'rad': st.integers(16, 28), 'charge': st.sampled_from([0, 2, 4, 6, -2, -4, -6]),
                                'iv': st.floats(0.25, 0.35), 'ov': st.floats(4.5, 5.5),
                                'tilt': st.tuples(st.floats(-.3, .3), st.floats(-.3, .3)).map(list)}),
         quick=40, thorough=300)
def vortex_physics(c, rec):
    """analytic vortex behaviour: charge 0 relays the pupil, even charges null on-axis light inside the
    pupil, charge +-2 scatters it outside as (R/r)^2 exp(+-2i theta)"""
    R = float(c['rad'])
    n = 2*c['rad'] + 24
    E = disk(n, R)
    a = np.arange(n) - n//2
    X, Y = np.meshgrid(a, a)
    r, th = np.hypot(X, Y), np.arctan2(Y, X)
    inside = r <= 0.85*R
    ch = c['charge']
    if ch == 0:
        E = E*np.exp(2j*np.pi*(c['tilt'][0]*X + c['tilt'][1]*Y)/(2*R))
        out = prop.mft_p2v2p(E, 0, R, c['iv'], c['ov'])
        i = (-np.arange(n)) % n
        close(out[inside], E[np.ix_(i, i)][inside], 5e-3, msg='charge 0 must relay the pupil')
    else:
        out = prop.mft_p2v2p(E, ch, R, c['iv'], c['ov'])
        resid = np.sum(np.abs(out[inside])**2)/np.sum(np.abs(E[inside])**2)
        need(resid < 1e-3, 'charge %s leaves %.3g of the starlight inside', ch, resid)
        if abs(ch) == 2:
            ring = (r > 1.15*R) & (r < 1.45*R)
            q = out[ring]/((R/r[ring])**2*np.exp(1j*ch*th[ring]))
            need(abs(np.mean(q) + 1) < 0.01 and np.std(q) < 0.05, 'charge-2 diffraction ring: %s +- %s', np.mean(q), np.std(q))
    rec.nontrivial()
    rec.label('charge%d' % ch)


@F.facet(st.fixed_dictionaries({'which': st.sampled_from(['p2f', 'f2p', 'relay', 'ptp', 'ptp_rect', 'p2f_rect', 'p2f_cen']),
                                'n': st.integers(2, 6)}), quick=60, thorough=200)
def propagators_reject(c, rec):
    """bad centering, non-square pupils and non-2D fields are rejected"""
    n = c['n']
    a, r = np.ones((n, n)), np.ones((n, n+1))
    w = c['which']
    if w == 'p2f':
        raises(TypeError, prop.mft_p2f, np.ones(n), 1., 1e-6, 1e-3, 1e-6, 4, 1e-6, 4)
    elif w == 'p2f_rect':
        raises(ValueError, prop.mft_p2f, r, 1., 1e-6, 1e-3, 1e-6, 4, 1e-6, 4)
    elif w == 'p2f_cen':
        raises(ValueError, prop.mft_p2f, a, 1., 1e-6, 1e-3, 1e-6, 4, 1e-6, 4, centering='corner')
    elif w == 'f2p':
        raises(ValueError, prop.mft_f2p, a, 1., 1e-6, 1e-6, 1e-6, 1e-3, 4, centering='corner')
    elif w == 'relay':
        raises(ValueError, prop.relay, a, 1, centering='corner')
    elif w == 'ptp':
        raises(TypeError, prop.ptp, a, -1., 1e-6, 1.)
    else:
        raises(ValueError, prop.ptp, r, 1., 1e-6, 1.)
    rec.nontrivial()

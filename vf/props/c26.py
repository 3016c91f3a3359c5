"""C26: aberrations, occulters and prescriptions of PROPER do what they state."""
import contextlib
import gc
import io
import os
import sys
import numpy as np
from hypothesis import strategies as st
from math import factorial
from core import Facets, close, need, raises, rng, cplx, quiet, scratch
import falco
from falco import proper

gc.freeze()     # every PROPER step collects garbage; keep what is loaded out of that

F = Facets('C26', rule='sets of Zernikes, error spectra, occulters, saved states, files and prescriptions drawn at random; non-trivial = as stated per facet',
           assumptions=['even grids', 'the spectrum is judged where it is sampled without limit on frequency and rms at once'])


def noll(j):
    n = 0
    while (n + 1)*(n + 2)//2 < j:
        n += 1
    k = j - n*(n + 1)//2 - 1                       # place within the row
    m = 2*((k + 1)//2) if n % 2 == 0 else 2*(k//2) + 1
    return n, m


def zern(j, r, t):
    n, m = noll(j)
    R = sum((-1)**s*factorial(n - s)/(factorial(s)*factorial((n + m)//2 - s)*factorial((n - m)//2 - s))*r**(n - 2*s) for s in range((n - m)//2 + 1))
    if m == 0:
        return np.sqrt(n + 1)*R
    return np.sqrt(2*(n + 1))*R*(np.cos(m*t) if j % 2 == 0 else np.sin(m*t))


def ring(eps, js, nr=40, nt=64):
    """polar quadrature over the annulus, exact for these polynomials"""
    x, w = np.polynomial.legendre.leggauss(nr)
    s = eps**2 + (1 - eps**2)*(x + 1)/2            # r^2
    t = (np.arange(nt) + .5)*2*np.pi/nt
    r, th = np.meshgrid(np.sqrt(s), t)
    return r, th, np.tile(w/2/nt, (nt, 1))


def annular(js, eps, r, t):
    """Zernikes made orthonormal over the annulus within each angular order, in order"""
    R, T, W = ring(eps, js)
    out = {}
    for j in range(1, max(js) + 1):
        n, m = noll(j)
        f, g = zern(j, R, T), zern(j, r, t)
        for i in out:
            if noll(i)[1] == m and (m == 0 or (i - j) % 2 == 0):
                a = np.sum(W*f*out[i][0])
                f, g = f - a*out[i][0], g - a*out[i][1]
        norm = np.sqrt(np.sum(W*f*f))
        out[j] = (f/norm, g/norm)
    return {j: out[j][1] for j in js}


GRID = {'D': st.sampled_from([.01, 2.4]), 'lam': st.floats(4e-7, 2e-6), 'n': st.sampled_from([32, 48]), 'frac': st.sampled_from([.4, .5, .8]), 'seed': st.integers(0, 10**6)}


def wave(c, field=True):
    with quiet():
        wf = proper.prop_begin(c['D'], c['lam'], c['n'], c['frac'])
    if field:
        wf.wfarr[:] = cplx(c['seed'], (c['n'], c['n']))
    return wf


def polar(c, radius):
    ax = (np.arange(c['n']) - c['n']//2)*c['D']/(c['n']*c['frac'])/radius
    X, Y = np.meshgrid(ax, ax)
    return np.hypot(X, Y), np.arctan2(Y, X)


@F.facet(st.fixed_dictionaries(dict(GRID, modes=st.lists(st.integers(1, 45), min_size=1, max_size=6, unique=True), eps=st.sampled_from([0., 0., .2, .45, .8]),
                                    radius=st.one_of(st.none(), st.floats(.6, 1.7)), how=st.sampled_from(['phase', 'AMPLITUDE', 'NO_APPLY']))), quick=250, thorough=5000)
def zernikes(c, rec):
    """a sum of Zernike polynomials, of a full or obscured circle of the beam's or the given radius, is what is returned and what the field is aberrated by"""
    eps = c['eps']
    modes = [j for j in c['modes'] if eps == 0 or j <= 22]
    if not modes:
        wf = wave(c)
        raises(ValueError, lambda: proper.prop_zernikes(wf, np.array(c['modes']), np.ones(len(c['modes'])), eps))
        return
    wf = wave(c)
    e = np.fft.fftshift(wf.wfarr)
    v = rng(c['seed'] + 1).normal(size=len(modes))*(c['lam']/9 if c['how'] != 'AMPLITUDE' else .3)
    radius = (c['radius'] or 1.)*c['D']/2
    kw = {'RADIUS': radius} if c['radius'] else {}
    if c['how'] != 'phase':
        kw[c['how']] = True
    r, t = polar(c, radius)
    z = annular(modes, eps, r, t) if eps else {j: zern(j, r, t) for j in modes}
    want = sum(a*z[j] for a, j in zip(v, modes))
    with quiet():
        got = proper.prop_zernikes(wf, np.array(modes), v, eps, **kw)
    need(got.shape == want.shape, 'size of the map')
    inside = r <= 1.2
    close(got[inside], want[inside], 1e-6, msg='Zernike map')
    now = np.fft.fftshift(wf.wfarr)
    w = {'phase': e*np.exp(2j*np.pi/c['lam']*got), 'AMPLITUDE': e*got, 'NO_APPLY': e}[c['how']]
    close(now[inside], w[inside], 1e-9, msg='field with the Zernikes')
    rec.nontrivial(len(modes) > 1)
    rec.label('obscured', eps > 0)


@F.facet(st.fixed_dictionaries({'ny': st.sampled_from([40, 51, 64]), 'nx': st.sampled_from([40, 51, 64]), 'nz': st.integers(1, 28), 'eps': st.sampled_from([0., 0., .25, .5]),
                                'rad': st.floats(14, 19), 'ctr': st.one_of(st.none(), st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list)), 'fit': st.booleans(),
                                'holes': st.booleans(), 'seed': st.integers(0, 10**6)}), quick=150, thorough=3000)
def fit(c, rec):
    """fitting recovers the coefficients a map was made with from its valid pixels alone, about the stated centre, and returns the map they make"""
    eps = c['eps']
    nz = min(c['nz'], 22) if eps else c['nz']
    r_ = rng(c['seed'])
    coef = r_.normal(size=nz)
    cx, cy = c['ctr'] or (0, 0)
    kw = {'XC': c['nx']//2 + cx, 'YC': c['ny']//2 + cy} if c['ctr'] else {}
    if eps:
        kw['OBSCURATION_RATIO'] = eps
    if c['fit']:
        kw['FIT'] = True
    X, Y = np.meshgrid(np.arange(c['nx']) - c['nx']//2 - cx, np.arange(c['ny']) - c['ny']//2 - cy)
    r, t = np.hypot(X, Y)/c['rad'], np.arctan2(Y, X)
    z = annular(range(1, nz + 1), eps, r, t) if eps else {j: zern(j, r, t) for j in range(1, nz + 1)}
    m = sum(a*z[j + 1] for j, a in enumerate(coef))
    good = (r < 1) & (r >= eps)
    if c['holes']:
        good &= r_.uniform(size=good.shape) > .2
    bad = m.copy()
    bad[~good] = 1e3*r_.normal(size=int((~good).sum()))
    res = proper.prop_fit_zernikes(bad, good.astype(float), c['rad'], nz, **kw)
    zc = res[0] if c['fit'] else res
    close(zc, coef, 1e-5, 1e-6, msg='fitted coefficients')
    if c['fit']:
        need(res[1].shape == m.shape, 'size of the fitted map', res[1].shape, m.shape)
        close(res[1][r < 1.1], m[r < 1.1], 1e-5, 1e-5, msg='fitted map')
    rec.nontrivial(nz > 3)
    rec.label('not square', c['nx'] != c['ny'])
    rec.label('centre', c['ctr'] is not None)


PSD = {'D': st.sampled_from([.05, 2.]), 'lam': st.just(6e-7), 'n': st.sampled_from([64, 96]), 'frac': st.sampled_from([.4, .5]), 'seed': st.integers(0, 10**6), 'amp': st.sampled_from([1e-22, 3e-20]),
       'b': st.floats(1.5, 9), 'c': st.floats(1.5, 4), 'tpf': st.booleans(), 'norm': st.sampled_from(['', 'RMS', 'AMPLITUDE']), 'mirror': st.booleans(),
       'limit': st.one_of(st.none(), st.floats(4, 14)), 'rot': st.one_of(st.none(), st.floats(-170, 170)), 'inc': st.one_of(st.none(), st.floats(20, 65)),
       'apply': st.booleans(), 'file': st.booleans()}


@F.facet(st.fixed_dictionaries(PSD), quick=200, thorough=4000)
def spectrum(c, rec):
    """a random error map has exactly the stated power at each spatial frequency up to one scale, which makes its rms that of the spectrum or the stated one; a stored map is used again"""
    wf = wave(c)
    n = c['n']
    e = np.fft.fftshift(wf.wfarr)
    b = c['b']/c['D']
    kw = {}
    for k, v in (('TPF', c['tpf']), ('RMS', c['norm'] == 'RMS'), ('MIRROR', c['mirror'] and c['norm'] != 'AMPLITUDE'), ('NO_APPLY', not c['apply'])):
        if v:
            kw[k] = True
    amp = c['amp'] if not c['norm'] else 2e-8 if c['norm'] == 'RMS' else .01
    if c['norm'] == 'AMPLITUDE':
        kw['AMPLITUDE'] = .9
    if c['limit'] is not None:
        kw['MAX_FREQUENCY'] = c['limit']/c['D']
    if c['rot'] is not None:
        kw['ROTATION'] = c['rot']
    if c['inc'] is not None:
        kw['INCLINATION'] = c['inc']
    np.random.seed(c['seed'] % 2**31)
    fft = (proper.use_fftw, proper.use_ffti)
    with scratch() as d, quiet():
        if c['file']:
            kw['FILE'] = os.path.join(str(d), 'psd.fits')
        got = proper.prop_psd_errormap(wf, amp, b, c['c'], **kw)
        now = np.fft.fftshift(wf.wfarr)
        if c['file']:
            w2 = wave(c)
            again = proper.prop_psd_errormap(w2, 7*amp, b/3, c['c'] + 1, **kw)
            k = slice(1, -1)
            close(again[k, k], got[k, k], 1e-6, 1e-6*np.max(np.abs(got - got.mean())), msg='stored map')
    need((proper.use_fftw, proper.use_ffti) == fft, 'creating a map changed which FFT is used')
    dk = c['frac']/c['D']                          # cycles per metre of one step in frequency
    kx, ky = np.meshgrid(np.arange(n) - n//2, np.arange(n) - n//2)
    t = (c['rot'] or 0.)*np.pi/180
    u, v = kx*np.cos(t) + ky*np.sin(t), -kx*np.sin(t) + ky*np.cos(t)
    k = np.hypot(u, v*np.cos((c['inc'] or 0.)*np.pi/180))*dk
    S = 1/(1 + (k/b)**c['c']) if c['tpf'] else 1/(1 + (k/b)**2)**((c['c'] + 1)/2)
    S[n//2, n//2] = 0
    full = np.sqrt(np.sum(S)*c['amp'])*dk
    if c['limit'] is not None:
        S = np.where(k > kw['MAX_FREQUENCY'], 0, S)
    m = got - got.mean()
    P = np.abs(np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(m))))**2
    # the map is the real part of a sum of waves with these amplitudes and free phases: each pair of opposite frequencies has between nothing and all of the power
    Sm = (np.sqrt(S) + np.sqrt(np.roll(S[::-1, ::-1], (1, 1), (0, 1))))**2/4
    i = np.ones((n, n), bool)
    i[0], i[:, 0] = False, False
    on = i & (S > 0)
    scale = np.mean(P[on]/S[on])                   # not of the sums: a few frequencies may hold nearly all of the power
    need(np.all(P[i & (Sm == 0)] <= 1e-12*np.sum(P)), 'power at frequencies the spectrum lacks')
    need(np.all(P[on] <= 2.6*scale*Sm[on]), 'power above what the spectrum allows', np.max(P[on]/Sm[on])/scale)
    # its average over rings, with the known scatter of such a mean
    q = k/b
    edges = np.quantile(q[on], np.linspace(0, 1, 7))
    for lo, hi in zip(edges[:-1], edges[1:]):
        s = on & (q >= lo) & (q <= hi)
        ratio = P[s]/S[s]/scale
        sd = 1.05/np.sqrt(max(s.sum()/2, 1))
        need(abs(ratio.mean() - 1) < 5.5*sd + .12, 'mean power between %g and %g: %g of the stated', lo, hi, ratio.mean())
    if c['norm'] == 'RMS' or c['norm'] == 'AMPLITUDE':
        close(np.std(got), amp, 1e-9, msg='rms')
    elif c['limit'] is None:
        close(np.std(got), full, 1e-9, msg='rms of the spectrum')
    if c['norm'] == 'AMPLITUDE':
        close(np.max(got), .9, 1e-12, msg='largest amplitude')
    ph = 2*np.pi/c['lam']
    want = e if not c['apply'] else e*got if c['norm'] == 'AMPLITUDE' else e*np.exp(1j*ph*got*(2 if c['mirror'] else 1))
    close(now, want, 1e-8, msg='field with the map')
    rec.nontrivial(on.sum() > 100)
    for z in ('tpf', 'rot', 'inc', 'limit'):
        rec.label(z, bool(c[z]))


@F.facet(st.fixed_dictionaries({'n': st.integers(2, 40), 'alpha': st.one_of(st.just(2.), st.floats(0., 4.)), 'rms': st.floats(.1, 30), 'seed': st.integers(0, 10**6)}),
         quick=150, thorough=3000)
def simple_spectrum(c, rec):
    """the simple error map is white noise whose power falls off as the stated power of the distance in frequency, equally in all directions"""
    n = c['n']
    np.random.seed(c['seed'])
    noise = np.random.rand(n, n)
    np.random.seed(c['seed'])
    with quiet(), np.errstate(all='ignore'):
        got = falco.util.gen_simple_psd_errormap(n, c['alpha'], c['rms'])
        np.random.seed(c['seed'])
        twice = falco.util.gen_simple_psd_errormap(n, c['alpha'], 2*c['rms'])
    need(got.shape == (n, n) and np.isrealobj(got), 'map of shape %r', got.shape)
    close(twice, 2*got, 1e-12, msg='twice the noise')
    close(got.sum(), 0., 0, 1e-10*c['rms']*n*n, msg='mean')
    k = np.fft.fftfreq(n, 1/n)
    q = np.hypot(*np.meshgrid(k, k))
    on = q > 0
    fall = np.zeros((n, n))
    fall[on] = q[on]**(-c['alpha']/2)
    F0, F1 = np.fft.fft2(noise)*fall, np.fft.fft2(np.fft.ifftshift(got))
    if n % 2 == 0:      # the real part is kept of waves at the highest frequency, which has no opposite
        F0, F1 = F0[1:n//2], F1[1:n//2]
        F0, F1 = np.delete(F0, n//2, 1), np.delete(F1, n//2, 1)
    if F0.size:
        s = np.linalg.norm(F1)/np.linalg.norm(F0)
        close(F1, s*F0, 1e-8, 1e-8*np.abs(F1).max(), msg='spectrum')
    rec.nontrivial(n > 4 and c['alpha'] > 0)
    rec.label('odd', n % 2 == 1)


@F.facet(st.fixed_dictionaries({'D': st.sampled_from([.01, 1.]), 'lam': st.floats(4e-7, 2e-6), 'n': st.sampled_from([64, 128]), 'frac': st.sampled_from([.1, .2]), 'f': st.floats(15, 60),
                                'hwhm': st.floats(2, 6), 'shape': st.sampled_from(['linear', 'Y_AXIS', 'CIRCULAR', 'ELLIPTICAL']), 'ratio': st.sampled_from([.5, 1.5, 2.]),
                                'range': st.sampled_from([None, [.01, 1.], [0., .8], [.1, .9]]), 'metres': st.booleans(), 'seed': st.integers(0, 10**6)}), quick=120, thorough=2000)
def occulter(c, rec):
    """an eighth-order occulter has half its transmission at the stated width, eighth-order leakage at its centre, its stated extremes, and multiplies the field"""
    wf = wave(c, False)
    with quiet():
        proper.prop_lens(wf, c['f']*c['D'])
        proper.prop_propagate(wf, c['f']*c['D'])
    n = c['n']
    wf.wfarr[:] = cplx(c['seed'], (n, n))
    e = np.fft.fftshift(wf.wfarr)
    u = proper.prop_get_fratio(wf)*c['lam']        # metres of one lambda/D
    kw = {}
    if c['shape'] == 'ELLIPTICAL':
        kw['ELLIPTICAL'] = c['ratio']
    elif c['shape'] != 'linear':
        kw[c['shape']] = True
    if c['metres']:
        kw['METERS'] = True
    lo, hi = c['range'] or (0., 1.)
    got = proper.prop_8th_order_mask(wf, c['hwhm']*(u if c['metres'] else 1), *(c['range'] or []), **kw)
    close(np.fft.fftshift(wf.wfarr), e*got, 1e-12, msg='field behind the occulter')
    T = got**2
    close(T.min(), lo, 0, 1e-9, msg='smallest transmission')
    close(T.max(), hi, 0, 1e-9, msg='largest transmission')
    ax = (np.arange(n) - n//2)*proper.prop_get_sampling(wf)/u
    X, Y = np.meshgrid(ax, ax)
    s = {'linear': np.abs(X), 'Y_AXIS': np.abs(Y), 'CIRCULAR': np.hypot(X, Y), 'ELLIPTICAL': np.hypot(X, Y/c['ratio'])}[c['shape']]
    t = (T - lo)/(hi - lo)
    w = c['hwhm']
    eps = 1.788/w
    a = 2/3 - np.sinc(s*eps/3)**3 + np.sinc(s*eps)/3
    a = a**2
    close(t, a/a.max(), 0, 1e-8, msg='transmission')
    if s.max() > 2.2*w:                            # the largest transmission is then on the grid
        k = np.argsort(s.ravel())
        half = np.interp(w, s.ravel()[k], t.ravel()[k])
        need(abs(half - .5) < .09, 'transmission at the stated width: %g', half)
        rec.label('half')
    rec.nontrivial(c['range'] is not None or c['metres'])


PRE = '''
import numpy as np
import falco
from falco import proper
CALLS = []
def %(name)s(lamda, gridsize, PASSVALUE=None):
    p = PASSVALUE or {}
    CALLS.append((lamda, gridsize, dict(p)))
    D = p.get('D', .1)
    wf = proper.prop_begin(D, lamda, gridsize, .3)
    proper.prop_circular_aperture(wf, D/2)
    proper.prop_define_entrance(wf)
    proper.prop_zernikes(wf, [4, 7], np.array([p.get('z4', 0.), p.get('z7', 0.)]))
    proper.prop_propagate(wf, .5*D, 'gap')
    proper.prop_lens(wf, 20*D, 'objective')
    proper.prop_propagate(wf, 18*D, 'before focus')
    proper.prop_propagate(wf, 2*D, 'focus')
    out, dx = proper.prop_end(wf, NOABS=p.get('field', False))
    return out, dx
'''
STATE = ['phase_offset', 'do_table', 'print_it', 'verbose', 'print_total_intensity', 'n', 'fft_nthreads', 'action_num', 'first_pass', 'layout_only']


@contextlib.contextmanager
def prescription(name):
    keep = {k: getattr(proper, k) for k in STATE}
    env = os.environ.get('OMP_NUM_THREADS')
    with scratch() as d:
        with open(os.path.join(str(d), name + '.py'), 'w') as fh:
            fh.write(PRE % {'name': name})
        sys.path.insert(0, str(d))
        try:
            import importlib
            importlib.invalidate_caches()
            sys.modules.pop(name, None)
            yield str(d)
        finally:
            sys.path.remove(str(d))
            sys.modules.pop(name, None)
            for k, v in keep.items():
                setattr(proper, k, v)
            if env is None:
                os.environ.pop('OMP_NUM_THREADS', None)
            else:
                os.environ['OMP_NUM_THREADS'] = env


def direct(name, lam, n, p):
    m = sys.modules[name]
    with quiet():
        return getattr(m, name)(lam, n, p)


PASS = st.fixed_dictionaries({'z4': st.floats(-1e-7, 1e-7), 'z7': st.floats(-1e-7, 1e-7), 'field': st.booleans(), 'D': st.sampled_from([.05, .1])})


@F.facet(st.fixed_dictionaries({'lams': st.lists(st.tuples(st.floats(.4, 1.2), st.floats(.1, 2)).map(list), min_size=1, max_size=4), 'n': st.sampled_from([32, 64]),
                                'file': st.booleans(), 'pass': st.one_of(st.none(), PASS), 'table': st.booleans(), 'odd': st.booleans(), 'phase': st.booleans()}), quick=80, thorough=1500)
def run(c, rec):
    """running a prescription gives what it returns, summed over the wavelengths of a file with their weights; its table lists each surface as the beam met it"""
    name = 'c26_prescription'
    import gc
    gc.freeze()
    with prescription(name) as d:
        lams = c['lams'] if c['file'] else c['lams'][:1]
        arg = lams[0][0]
        if c['file']:
            arg = os.path.join(d, 'lam.txt')
            with open(arg, 'w') as fh:
                fh.write(''.join('%.17g %.17g\n' % tuple(l) for l in lams))
        kw = {'QUIET': True}
        if c['pass'] is not None:
            kw['PASSVALUE'] = c['pass']
        if c['phase']:
            kw['PHASE_OFFSET'] = True
        if c['table']:
            kw['TABLE'] = True
        if c['odd']:
            raises(Exception, lambda: proper.prop_run(name, arg, c['n'] + 6, **kw))
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            psf, dx = proper.prop_run(name, arg, c['n'], **kw)
        calls = list(sys.modules[name].CALLS)
        need(len(calls) == len(lams), 'number of runs', len(calls))
        close([x[0] for x in calls], [1e-6*l[0] for l in lams], 1e-12, msg='wavelengths run')
        need(all(x[1] == c['n'] and x[2] == (c['pass'] or {}) for x in calls), 'grid or values passed')
        lists = None
        if c['table']:
            lists = [np.array(getattr(proper, k))[:4] for k in ('sampling_list', 'beam_diam_list', 'distance_list', 'lens_fl_list', 'lens_eff_fratio_list')]
            need(proper.action_num == 4 and [s.decode() for s in proper.surface_name_list[:4]] == ['gap', 'objective', 'before focus', 'focus'], 'surfaces of the table', proper.surface_name_list[:4])
            need(text.getvalue().count('LENS ') == len(lams), 'printed tables')
        want, w = 0., None
        for l, t in lams:
            e, w = direct(name, l*1e-6, c['n'], c['pass'])
            want = want + e*(t if c['file'] else 1.)
        close(psf, want, 1e-9, msg='result of the run')
        close(dx, w, 1e-12, msg='sampling of the run')
        if lists:
            D, n, lam = (c['pass'] or {}).get('D', .1), c['n'], lams[-1][0]*1e-6
            q = 1j*np.pi*(D/2)**2/lam
            q = q + .5*D
            dia = lambda q: 2*np.sqrt(lam/np.pi*abs(q)**2/q.imag)
            dias = [dia(q)]*2
            q = 1/(1/q - 1/(20*D))
            fr = abs(q.real)/dia(q)
            xi = -q.real
            dias += [dia(q + 18*D), dia(q + 20*D)]
            dx0 = D/(.3*n)
            f0 = lam*xi/(n*dx0)                    # sampling at the waist
            spl = [dx0, dx0] + [f0 if abs(xi - z) < q.imag else lam*abs(xi - z)/(n*f0) for z in (18*D, 20*D)]
            for got, exp, what in zip(lists, (spl, dias, [.5*D, 0, 18*D, 2*D], [0, 20*D, 0, 0], [0, fr, 0, 0]), ('sampling', 'beam diameters', 'distances', 'focal lengths', 'focal ratios')):
                close(got, np.array(exp), 1e-6, msg='table: ' + what)
    rec.nontrivial(c['file'] and len(lams) > 1 or c['pass'] is not None)
    rec.label('table', c['table'])


@F.facet(st.fixed_dictionaries({'lams': st.lists(st.floats(.4, 1.2), min_size=1, max_size=3), 'array': st.booleans(), 'pass': st.lists(PASS, min_size=0, max_size=3), 'form': st.sampled_from(['list', 'dict']),
                                'n': st.just(32), 'ncpu': st.sampled_from([None, 1, 2])}), quick=16, thorough=200, timeout=240)
def multi(c, rec):
    """running a prescription for several wavelengths or values in parallel gives, in order, what running them one by one gives"""
    name = 'c26_prescription'
    with prescription(name):
        lams = c['lams']
        one = len(lams) == 1
        arg = lams[0] if one and not c['array'] else np.array(lams) if c['array'] else list(lams)
        p = c['pass'][:len(lams)] if not one else c['pass']
        if not one and len(p) not in (0, 1, len(lams)):
            p = p[:1]
        same = p[0]['field'] if p else False
        p = [dict(x, field=same) for x in p]
        kw = {'QUIET': True}
        if p:
            kw['PASSVALUE'] = p[0] if c['form'] == 'dict' and len(p) == 1 else p
        if c['ncpu']:
            kw['NCPUS'] = c['ncpu']
        got, dx = proper.prop_run_multi(name, arg, c['n'], **kw)
        k = max(len(lams), len(p))
        need(len(got) == k and len(dx) == k, 'number of results', len(got), k)
        import importlib
        importlib.import_module(name)
        for i in range(k):
            e, w = direct(name, lams[min(i, len(lams) - 1)]*1e-6, c['n'], p[min(i, len(p) - 1)] if p else None)
            close(got[i], e, 1e-10, msg='result %d' % i)
            close(dx[i], w, 1e-12, msg='sampling %d' % i)
    rec.nontrivial(k > 1)


SAVE = st.one_of(st.tuples(st.just('visit'), st.integers(0, 2)), st.tuples(st.just('ask'), st.integers(0, 2)), st.tuples(st.just('restart'), st.just(0))).map(list)


@F.facet(st.fixed_dictionaries({'n': st.sampled_from([16, 32]), 'seed': st.integers(0, 10**6), 'ops': st.lists(SAVE, min_size=2, max_size=10), 'files': st.integers(0, 2)}), quick=100, thorough=2000)
def states(c, rec):
    """a state saved once per wavelength is what every later visit at that wavelength continues from; ending removes the saved files and nothing else"""
    lams = [5e-7, 6e-7, 6.5e-7]
    saved, hits = {}, 0
    here = os.getcwd()
    keep = (proper.save_state, proper.save_state_lam, proper.statefile)
    with scratch() as d:
        os.chdir(str(d))
        try:
            others = ['other%d.npz' % i for i in range(c['files'])]
            for f in others:
                open(f, 'w').close()
            proper.prop_init_savestate()
            for i, (op, k) in enumerate(c['ops']):
                with quiet():
                    wf = proper.prop_begin(1., lams[k], c['n'], .5)
                if op == 'restart':
                    proper.prop_end_savestate()
                    need(sorted(os.listdir('.')) == others, 'files after the end', os.listdir('.'))
                    proper.prop_init_savestate()
                    saved = {}
                    continue
                if op == 'ask':
                    need(bool(proper.prop_is_statesaved(wf)) == (k in saved), 'whether a state is saved')
                    continue
                wf.wfarr[:] = cplx(c['seed'] + i, (c['n'], c['n']))
                with quiet():
                    if i % 2:
                        proper.prop_lens(wf, 30.)
                    proper.prop_propagate(wf, 3. + i)
                    mine = dict(wf.__dict__, _wfarr=wf.wfarr.copy())
                    proper.prop_state(wf)
                hits += k in saved
                want = saved.setdefault(k, mine)
                for a, v in want.items():
                    if a == '_wfarr':
                        close(wf.wfarr, v, 0, 0, msg='field of the state')
                    else:
                        need(wf.__dict__[a] == v, 'state differs in ' + a, wf.__dict__[a], v)
            proper.prop_end_savestate()
            need(sorted(os.listdir('.')) == others, 'files after the end', os.listdir('.'))
        finally:
            os.chdir(here)
            proper.save_state, proper.save_state_lam, proper.statefile = keep
    rec.nontrivial(hits > 0)


@F.facet(st.fixed_dictionaries({'ny': st.integers(1, 30), 'nx': st.integers(1, 30), 'seed': st.integers(0, 10**6), 'keys': st.dictionaries(st.text('ABCDEFGH', min_size=2, max_size=8), st.floats(-1e6, 1e6), max_size=3),
                                'twice': st.booleans(), 'dtype': st.sampled_from(['float64', 'float32', 'int32'])}), quick=80, thorough=1500)
def files(c, rec):
    """an image written to a FITS file comes back with its values and header, replacing what was there"""
    a = (100*rng(c['seed']).normal(size=(c['ny'], c['nx']))).astype(c['dtype'])
    with scratch() as d:
        f = os.path.join(str(d), 'x.fits')
        if c['twice']:
            proper.prop_fits_write(f, np.ones((7, 7)))
        proper.prop_fits_write(f, a, HEADER={k: (v, 'note') for k, v in c['keys'].items()}) if c['keys'] else proper.prop_fits_write(f, a)
        b, h = proper.prop_fits_read(f, header=True)
        close(proper.prop_fits_read(f), b, 0, 0, msg='with and without header')
        need(b.dtype == np.float64, 'type')
        close(b, a.astype(float), 0, 0, msg='image')
        for k, v in c['keys'].items():
            close(h[k], v, 1e-12, msg='header')
        raises(IOError, lambda: proper.prop_fits_read(os.path.join(str(d), 'none.fits')))
    rec.nontrivial(bool(c['keys']))

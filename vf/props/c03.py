"""C03: fields propagate through lenses and free space as Fresnel optics has it."""
import gc
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, rng, cplx, quiet
from falco import proper

F = Facets('C03', rule='Gaussian beams with offsets and tilts taken through random sequences of lenses, free-space steps, apertures and wedges, against closed-form '
           'Fresnel optics; arbitrary fields for the exact laws; non-trivial = at least one lens and one step within the grid',
           assumptions=['even grids', 'fields that fit into the grid and its angular range at every plane to 1e-7'])

gc.freeze()     # every PROPER step collects garbage; keep what is loaded out of that


class Beam:
    """exp(-a r^2 + b.r + c) in metres, with the geometry of the pilot beam carried along separately"""
    def __init__(self, lam, D, n, frac, waist, off, tilt):
        self.lam, self.n, self.k = lam, n, 2*np.pi/lam
        self.dx = D/(n*frac)
        self.D = D
        off, tilt = np.array(off), np.array(tilt)
        self.a = 1./waist**2 + 0j
        self.b = 2*off/waist**2 + 1j*self.k*tilt
        self.c = -np.sum(off**2)/waist**2 + 0j
        self.q = 1j*np.pi*(D/2)**2/lam        # complex parameter of the pilot beam: distance from waist + i Rayleigh distance
        self.ref = 'PLANAR'
        self.fratio = None
        self.ok = True
        self.z = 0.
        self.total = None                     # grid sum of |E|^2 that PROPER keeps

    @property
    def xi(self):                             # distance of the waist behind this plane
        return self.q.real

    @property
    def zr(self):
        return self.q.imag

    @property
    def w(self):
        return np.sqrt(self.lam/np.pi*abs(self.q)**2/self.zr)

    def axis(self):
        return (np.arange(self.n) - self.n//2)*self.dx

    def field(self, dx=None):
        """physical field with the pilot beam's sphere taken off, in units where the grid sum of |E|^2 times dx^2 is energy"""
        x = self.axis()
        a = self.a + (1j*self.k/(2*self.xi) if self.ref == 'SPHERI' else 0.)
        fx, fy = np.exp(-a*x**2 + self.b[0]*x + self.c), np.exp(-a*x**2 + self.b[1]*x)
        return fy[:, None]*fx[None, :]

    def contained(self):
        x = self.axis()
        a = self.a + (1j*self.k/(2*self.xi) if self.ref == 'SPHERI' else 0.)
        for b in self.b:
            # extents in space and frequency of the one-dimensional Gaussian
            x0, wx = b.real/(2*a.real), 1/np.sqrt(a.real)
            f0 = (b.imag - 2*a.imag*x0)/(2*np.pi)
            wf = np.sqrt(a.real + a.imag**2/a.real)/np.pi
            if abs(x0) + 4.2*wx > -x[0] or abs(f0) + 4.2*wf > .5/self.dx or wx < .8*self.dx:
                return False
        return True

    def check(self):
        self.ok = self.ok and self.contained()

    def free(self, dz):
        """Fresnel integral of the physical field"""
        if dz != 0:
            t = 2*dz/self.k                       # well conditioned for however short a step
            s = 1 + 1j*self.a*t
            self.c += 1j*t*np.sum(self.b**2)/(4*s) - np.log(s)
            self.b = self.b/s
            self.a = self.a/s
        self.q += dz
        self.z += dz

    def waist_step(self, dz):                 # between the waist and a sphere, either way
        self.dx = self.lam*abs(dz)/(self.n*self.dx)

    def step(self, dz, to_plane):
        xi = self.xi
        inside = abs(xi + dz) < self.zr
        flat = inside or to_plane
        if self.ref == 'SPHERI':
            self.free(-xi)
            self.waist_step(xi)
            self.ref = 'PLANAR'
            self.check()
            rest = xi + dz
        else:
            rest = dz
            if not flat:
                self.free(-xi)
                self.check()
                rest = xi + dz
        if flat:
            self.free(rest)
        else:
            self.free(rest)
            self.waist_step(rest)
            self.ref = 'SPHERI'
        self.check()

    def lens(self, f):
        self.a += 1j*self.k/(2*f)
        w = self.w
        self.q = 1/(1/self.q - 1/f)
        self.ref = 'PLANAR' if abs(self.xi) < self.zr else 'SPHERI'
        self.fratio = abs(self.xi)/(2*w)
        self.check()

    def copy(self):
        new = object.__new__(Beam)
        new.__dict__.update(self.__dict__)
        return new


STEP = st.one_of(st.tuples(st.just('lens'), st.one_of(st.floats(6, 60), st.floats(-80, -15))),
                 st.just(('collimate', 0.)),
                 st.tuples(st.just('frac'), st.one_of(st.floats(.01, 1.9), st.sampled_from([1., 2., .999, 1.001]))),
                 st.tuples(st.just('focus'), st.booleans()),
                 st.tuples(st.just('rayleigh'), st.floats(-1.6, 1.6)),
                 st.tuples(st.just('metres'), st.floats(-2, 4)),
                 st.tuples(st.just('plane'), st.floats(-3, 3)),
                 st.tuples(st.just('stop'), st.floats(.6, 1.5)),
                 st.tuples(st.just('wedge'), st.tuples(st.floats(-2, 2), st.floats(-2, 2)).map(list)))
OPS = st.tuples(st.one_of(st.just([]), st.tuples(st.just('lens'), st.floats(8, 60)).map(lambda t: [list(t)]), st.tuples(st.just('lens'), st.floats(8, 60)).map(lambda t: [list(t)])),
                st.lists(STEP.map(list), min_size=1, max_size=7)).map(lambda t: t[0] + t[1])
BEAM = dict(lam=st.floats(4e-7, 2e-6), D=st.sampled_from([.01, .05, .3]), n=st.sampled_from([128, 192, 256]), frac=st.sampled_from([.3, .4, .5]), w=st.floats(.12, .28),
            off=st.tuples(st.floats(-.1, .1), st.floats(-.1, .1)).map(list), tilt=st.tuples(st.floats(-3, 3), st.floats(-3, 3)).map(list))


def begin(c):
    with quiet():
        wf = proper.prop_begin(c['D'], c['lam'], c['n'], c['frac'])
    b = Beam(c['lam'], c['D'], c['n'], c['frac'], c['w']*c['D'], np.array(c['off'])*c['D'], np.array(c['tilt'])*c['lam']/c['D'])
    b.check()
    e = b.field()
    proper.prop_multiply(wf, np.abs(e))
    proper.prop_add_phase(wf, np.angle(e)*c['lam']/(2*np.pi))
    return wf, b, e


def agree(wf, b, scale, where):
    """the wavefront is the analytic field up to a constant phase; its geometry is that of the pilot beam"""
    close(proper.prop_get_sampling(wf), b.dx, 1e-8, msg=where + ': sampling')
    close(proper.prop_get_beamradius(wf), b.w, 1e-8, msg=where + ': beam radius')
    close(proper.prop_get_distancetofocus(wf), -b.xi, 1e-7, 1e-7*b.zr + 1e-9*abs(b.xi), msg=where + ': distance to focus')
    close(proper.prop_get_refradius(wf), b.xi, 1e-7, 1e-7*b.zr + 1e-9*abs(b.xi), msg=where + ': radius of the reference sphere')
    close(proper.prop_get_z(wf), b.z, 1e-9, 1e-9, msg=where + ': travelled distance')
    need(wf.reference_surface == b.ref, where + ': reference surface', wf.reference_surface, b.ref)
    if b.fratio is not None:
        t = 1e-6 + 1e-7*b.zr/b.w                   # a collimated beam has no focal ratio but rounding errors
        close(proper.prop_get_fratio(wf), b.fratio, 1e-6, t, msg=where + ': focal ratio')
        close(proper.prop_get_nyquistsampling(wf), b.fratio*b.lam/2, 1e-6, t*b.lam, msg=where + ': Nyquist sampling')
        close(proper.prop_get_nyquistsampling(wf, 1e-6), b.fratio*1e-6/2, 1e-6, t*1e-6, msg=where + ': Nyquist sampling of another wavelength')
        if b.fratio > 100*t:
            close(proper.prop_get_sampling_radians(wf), b.dx/(b.fratio*b.D), 1e-7, msg=where + ': sampling in radians')
            close(proper.prop_get_sampling_arcsec(wf), b.dx/(b.fratio*b.D)*206264.80624709636, 1e-7, msg=where + ': sampling in arcseconds')
    e = b.field()*b.dx/scale
    got = proper.prop_get_wavefront(wf)
    ph = np.vdot(e, got)
    need(abs(ph) > 0, where + ': field is orthogonal to the expected one')
    close(got, e*ph/abs(ph), 2e-5, msg=where + ': field')
    close(proper.prop_get_amplitude(wf), np.abs(got), 1e-12, msg='amplitude')
    close(proper.prop_get_phase(wf), np.angle(got), 1e-12, 1e-12, msg='phase')
    need(proper.prop_get_wavelength(wf) == b.lam and proper.prop_get_gridsize(wf) == b.n, 'wavelength or grid')


def do(wf, b, op, v):
    """one step on PROPER's wavefront and on the beam; None where it makes no sense"""
    if op == 'lens' or op == 'collimate':
        f = v*2*b.w if op == 'lens' else None
        if f is None:
            if abs(b.xi) < 1e-9*b.zr:
                return None
            f = abs(b.q)**2/b.xi
        b.lens(f)
        return lambda: proper.prop_lens(wf, f)
    if op == 'stop':
        w = v*np.sqrt(1/b.a.real)
        x = b.axis()
        b.a += 1/w**2
        return lambda: proper.prop_multiply(wf, np.exp(-(x[:, None]**2 + x**2)/w**2))
    if op == 'wedge':
        t = np.array(v)*b.lam/(2*b.w)
        x = b.axis()
        b.b = b.b + 1j*b.k*t
        b.check()
        return lambda: proper.prop_add_phase(wf, x*t[0] + x[:, None]*t[1])
    dz = {'frac': lambda: -v*b.xi, 'focus': lambda: -b.xi, 'rayleigh': lambda: v*b.zr, 'metres': lambda: v, 'plane': lambda: -b.xi + v*b.zr}[op]()
    tp = op == 'plane' or (op == 'focus' and v)
    if abs(dz) < 1e-9 or abs(abs(b.xi + dz) - b.zr) < 1e-6*b.zr or (b.ref == 'SPHERI' and abs(b.xi) < 1e-3*b.zr):
        return None
    b.step(dz, tp)
    kw = {'TO_PLANE': True} if tp else {}
    return lambda: proper.prop_propagate(wf, dz, **kw)


@F.facet(st.fixed_dictionaries(dict(BEAM, ops=OPS)), quick=1500, thorough=20000)
def optics(c, rec):
    """after any sequence of lenses, steps, stops and wedges the field is the Fresnel integral, and sampling, beam size, focus and focal ratio are those of the beam"""
    with quiet():
        wf, b, e = begin(c)
        if not b.ok:
            return
        scale, lenses, steps = b.dx, 0, 0
        for i, (op, v) in enumerate(c['ops']):
            nb = b.copy()
            f = do(wf, nb, op, v)
            if f is None:
                continue
            if not nb.ok:
                continue
            f()
            b = nb
            lenses += op in ('lens', 'collimate')
            steps += op not in ('lens', 'collimate', 'stop', 'wedge')
            rec.label(op)
            agree(wf, b, scale, 'step %d (%s)' % (i, op))
        rec.nontrivial(lenses > 0 and steps > 0)
        rec.label('long', lenses + steps > 3)
        rec.label('sphere', b.ref == 'SPHERI')


def fresh(c, seed=0):
    with quiet():
        wf = proper.prop_begin(c['D'], c['lam'], c['n'], c['frac'])
    e = cplx(c['seed'] + seed, (c['n'], c['n']))
    wf.wfarr[:] = e
    return wf, e


def path(wf, ops, D):
    """go through lenses (focal length in beam diameters) and steps (fraction of the distance to focus, or metres)"""
    out = []
    for op, v in ops:
        if op == 'lens':
            proper.prop_lens(wf, v*D)
        else:
            d = proper.prop_get_distancetofocus(wf)
            dz = v*d if op == 'frac' and d != 0 else v
            if abs(dz) < 1e-9:
                continue
            proper.prop_propagate(wf, dz, TO_PLANE=op == 'plane')
        out.append((op, v))
    return out


WALK = st.lists(st.one_of(st.tuples(st.just('lens'), st.one_of(st.floats(8, 60), st.floats(-60, -8))), st.tuples(st.just('frac'), st.one_of(st.floats(.05, 1.9), st.just(1.))),
                          st.tuples(st.just('metres'), st.floats(-3, 3)), st.tuples(st.just('plane'), st.floats(-2, 2))).map(list), min_size=1, max_size=6)
ANY = dict(lam=st.floats(4e-7, 2e-6), D=st.sampled_from([.01, .1, 2.4]), n=st.sampled_from([16, 30, 64]), frac=st.sampled_from([.3, .5, .8]), seed=st.integers(0, 10**6), walk=WALK)


@F.facet(st.fixed_dictionaries(dict(ANY, back=st.floats(-3, 3), phase=st.booleans())), quick=700, thorough=12000)
def laws(c, rec):
    """whatever the field: energy is conserved, sums add up, a step and its reverse cancel, two lenses cancel, the travelled path adds its phase when asked to"""
    with quiet():
        a, ea = fresh(c)
        b, eb = fresh(c, 1)
        s, _ = fresh(c)
        s.wfarr[:] = 2*ea - 1j*eb
        done = path(a, c['walk'], c['D'])
        path(b, c['walk'], c['D'])
        path(s, c['walk'], c['D'])
        need(np.all(np.isfinite(a.wfarr)), 'field is not finite')
        close(np.sum(np.abs(a.wfarr)**2), np.sum(np.abs(ea)**2), 1e-9, msg='energy')
        close(s.wfarr, 2*a.wfarr - 1j*b.wfarr, 1e-8, msg='superposition')
        rec.nontrivial(len(done) > 1)
        rec.label('sphere', a.reference_surface == 'SPHERI')
        f = a.wfarr.copy()
        geo = (a.reference_surface, a.dx, a.z, a.z_w0, a.w0)
        if a.reference_surface == 'PLANAR' and abs(a.z - a.z_w0) >= a.z_Rayleigh:
            rec.label('flattened')            # reached by TO_PLANE: going on changes the reference
        else:
            if abs(c['back']) > 1e-6 and abs(a.z + c['back'] - a.z_w0) > 1e-6*a.z_Rayleigh:
                proper.prop_propagate(a, c['back'])
                proper.prop_propagate(a, -c['back'])
                need(a.reference_surface == geo[0], 'reference surface after going there and back', a.reference_surface, geo[0])
                close(np.array(a.dx), geo[1], 1e-6, msg='sampling after going there and back')
                close(a.wfarr, f, 1e-7, msg='field after going there and back')
            proper.prop_lens(a, 13*c['D'])
            proper.prop_lens(a, -13*c['D'])
            if a.reference_surface == geo[0] and abs(a.z_w0 - geo[3]) < 1e-6*a.z_Rayleigh:
                close(a.wfarr, f, 1e-6, msg='field after two opposite lenses')
        if c['phase']:
            proper.phase_offset = True
            try:
                p, _ = fresh(c)
                path(p, c['walk'], c['D'])
            finally:
                proper.phase_offset = False
            g, _ = fresh(c)
            path(g, c['walk'], c['D'])
            close(p.wfarr, g.wfarr*np.exp(2j*np.pi*np.fmod(g.z/c['lam'], 1)), 1e-4, msg='phase of the path')


FIELD = dict(lam=st.floats(4e-7, 2e-6), D=st.sampled_from([.01, 2.4]), n=st.sampled_from([16, 30, 64]), frac=st.sampled_from([.3, .5, .8]), seed=st.integers(0, 10**6))
EDIT = st.one_of(st.tuples(st.sampled_from(['multiply', 'divide', 'phase', 'add']), st.sampled_from(['scalar', 'int', 'array', 'list'])), st.tuples(st.just('entrance'), st.just('')),
                 st.tuples(st.just('complex'), st.just('')))


@F.facet(st.fixed_dictionaries(dict(FIELD, edits=st.lists(EDIT.map(list), min_size=1, max_size=6), end=st.sampled_from(['', 'NOABS', 'EXTRACT', 'both']), cut=st.integers(1, 16))),
         quick=500, thorough=8000)
def edits(c, rec):
    """maps and numbers applied to a wavefront act on the centred field as stated; what comes out at the end is that field or its intensity, cut out about the centre"""
    n = c['n']
    with quiet():
        wf, _ = fresh(c)
        e = np.fft.fftshift(wf.wfarr)
        close(proper.prop_get_wavefront(wf), e, 1e-14, msg='centred field')
        for i, (op, kind) in enumerate(c['edits']):
            r = rng(c['seed'] + 17*i)
            v = r.uniform(.5, 2, (n, n)) if kind in ('array', 'list') else float(r.uniform(.5, 2)) if kind == 'scalar' else int(r.integers(1, 4))
            a = v.tolist() if kind == 'list' else v
            if op == 'multiply':
                proper.prop_multiply(wf, a)
                e = e*v
            elif op == 'divide':
                proper.prop_divide(wf, a)
                e = e/v
            elif op == 'phase':
                t = c['lam']/3
                proper.prop_add_phase(wf, (v*t).tolist() if kind == 'list' else v*t)
                e = e*np.exp(2j*np.pi*np.asarray(v)/3)
            elif op == 'add':
                v = v*np.exp(1j*np.asarray(v))
                proper.prop_add_wavefront(wf, v.tolist() if kind == 'list' else v)
                e = e + v
            elif op == 'complex':
                v = cplx(c['seed'] + i, (n, n))
                proper.prop_multiply(wf, v)
                e = e*v
            else:
                proper.prop_define_entrance(wf)
                e = e/np.sqrt(np.sum(np.abs(e)**2))
            close(proper.prop_get_wavefront(wf), e, 1e-11, msg='field after %s by %s' % (op, kind))
        close(proper.prop_get_amplitude(wf), np.abs(e), 1e-11, msg='amplitude')
        close(np.exp(1j*proper.prop_get_phase(wf)), e/np.abs(e), 1e-9, msg='phase')
        ax = (np.arange(n) - n//2)*c['D']/(n*c['frac'])
        rad = np.hypot(ax[:, None], ax)
        close(proper.prop_radius(wf), rad, 1e-12, msg='radius')
        close(proper.prop_radius(wf, NORM=True), rad/(c['D']/2), 1e-12, msg='normalized radius')
        kw = {}
        want = e if c['end'] in ('NOABS', 'both') else np.abs(e)**2
        if c['end'] in ('NOABS', 'both'):
            kw['NOABS'] = True
        if c['end'] in ('EXTRACT', 'both'):
            k = kw['EXTRACT'] = c['cut']
            lo = n//2 - k//2
            want = want[lo:lo + k, lo:lo + k]
        out, dx = proper.prop_end(wf, **kw)
        need(np.shape(out) == want.shape, 'size of the final field', np.shape(out), want.shape)
        close(out, want, 1e-10, msg='final field')
        close(dx, c['D']/(n*c['frac']), 1e-12, msg='final sampling')
    rec.nontrivial(len(c['edits']) > 1)
    rec.label('extract', 'EXTRACT' in kw)

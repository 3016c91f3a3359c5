"""Stand-ins for external PROPER prescriptions: functions whose field depends on everything they are told."""
import sys
import types
import numpy as np
import falco
import modkit
from core import rng

KINDS = {'proper': 'vf_fake_prescription', 'roman_phasec_proper': 'roman_phasec', 'wfirst_phaseb_proper': 'wfirst_phaseb'}
ZKEYS = ('zindex', 'zval_m', 'zval')


def field(lam, n, opt, shape, zkey='zval_m'):
    """what the stand-in prescription returns"""
    r = rng(5)
    base = r.standard_normal(shape) + 1j*r.standard_normal(shape)
    out = base*(1 + n/100.)*np.exp(2e-7j*np.pi/lam)
    for k in sorted(opt):
        v = opt[k]
        if k in ('dm1', 'dm2', 'dm1_m', 'dm2_m') and isinstance(v, np.ndarray):
            w = 1 + np.cos(np.arange(v.size)*(3 if '1' in k else 5)).reshape(v.shape)
            out = out*(1 + 1e6*np.sum(w*v)) + base[::-1, ::-1]*1e5*np.sum(w.T*v)
        elif k in ('xoffset', 'yoffset', 'source_x_offset', 'source_y_offset'):
            out = out*(1 + .01*v) + (.3 if 'x' in k else .4)*v
        elif k in ('use_dm1', 'use_dm2', 'use_fpm'):
            out = out + (2 if v else 3)*(.1 if k == 'use_dm1' else .2 if k == 'use_dm2' else .5)*base[::-1]
        elif k == 'polaxis':
            out = out + .3*v*base[:, ::-1]
        elif k == 'user_option':
            out = out*v
        elif k == 'zindex':
            z = np.array(v)
            if z[0] != 0:                           # as the Roman prescription does
                a = np.array(opt[zkey])
                need = [(float(a[i]), int(z[i])) for i in range(len(z))]
                for val, j in need:
                    x = np.cos(j*np.arange(base.size)).reshape(shape)
                    out = out*np.exp(2j*np.pi*val/lam*x)
    return out


class Standin:
    """An instrument whose full model is a stand-in prescription; expected() is the field it should give."""

    def __init__(self, c, zkey='zval_m'):
        self.c, self.zkey = c, zkey
        self.general = c['layout'] == 'proper'
        self.name = KINDS[c['layout']]
        mp, self.ref = modkit.build(c, raw=True)
        self.mp = mp
        mp.layout = c['layout']
        self.r = rng(c['seed'] + 3)
        self.flat = [1e-8*self.r.standard_normal((getattr(mp, 'dm%d' % i).Nact,)*2) for i in (1, 2)]
        if self.general:
            mp.full.prescription = self.name
            mp.full.dm1FlatMap, mp.full.dm2FlatMap = self.flat[0].copy(), self.flat[1].copy()
        else:
            mp.full.dm1, mp.full.dm2 = falco.config.Object(), falco.config.Object()
            mp.full.dm1.flatmap, mp.full.dm2.flatmap = self.flat[0].copy(), self.flat[1].copy()
        if c['pol'] is not None:
            mp.full.pol_conds = list(c['pol'])
        if c['opt'] == 'field':
            mp.full.user_option = 1.7
        elif c['opt'] == 'item':
            mp.full['user_option'] = 1.7
        elif c['opt'] == 'lazy':
            mp.full['user_option'] = falco.config.Eval({}, {'mp': mp}, 'mp.Nsbp - %d + 1.7' % c['Nsbp'])
        mp.flagApod = False
        if c.get('flagPROPER'):
            mp.full.flagPROPER = True
            mp.P1.full.Nbeam = 30 if c['cen'] == 'pixel' else 32        # arrays of a power of two
            for p in (mp.P1, mp.P3, mp.P4, mp.F3):
                if hasattr(p.full, 'mask'):
                    del p.full.mask

    def __enter__(self):
        def fake(lam, n, opt):
            s = (n, n) if not self.general else (self.mp.Fend.Neta, self.mp.Fend.Nxi)
            return field(lam, n, opt, s, self.zkey), 1e-5
        mod = types.ModuleType(self.name)
        mod.__file__ = '/nonexistent/%s.py' % self.name
        setattr(mod, self.name, fake)
        sys.modules[self.name] = mod
        return self

    def __exit__(self, *a):
        del sys.modules[self.name]

    def volts(self):
        return {i: getattr(self.mp, 'dm%d' % i).V for i in (1, 2)}

    def start(self):
        base, _ = modkit.build(self.c, raw=True)
        return {i: getattr(base, 'dm%d' % i).V for i in (1, 2)}

    def size(self):
        mp = self.mp
        if self.general:
            return mp.P1.full.Narr
        n = 1
        while n < max(mp.Fend.Nxi, mp.Fend.Neta):
            n *= 2
        return n

    def expected(self, w, norm, V, pol=None, zern=()):
        c, mp, n = self.c, self.mp, self.size()
        nf, ne = mp.Fend.Nxi, mp.Fend.Neta
        opt = {}
        for i in (1, 2):
            if self.general and i not in c['dms']:
                continue
            d = getattr(mp, 'dm%d' % i)
            opt['use_dm%d' % i] = True
            opt['dm%d' % i if self.general else 'dm%d_m' % i] = V[i]*d.VtoH + self.flat[i-1]
        if norm:
            x, y = c['src']
            if self.general and c['coro'] == 'VC':
                opt['use_fpm'] = False
                x = y = 0
            opt.update({'xoffset': -x, 'yoffset': -y} if self.general else {'source_x_offset': -x, 'source_y_offset': -y})
        if c['opt']:
            opt['user_option'] = 1.7
        if pol is not None:
            opt['polaxis'] = pol
        if len(zern):
            opt['zindex'], opt[self.zkey] = [z[0] for z in zern], [z[1] for z in zern]
        E = field(w, n, opt, (n, n) if not self.general else (ne, nf), self.zkey)
        big = max(nf, ne)
        return E if self.general else modkit.centre(E, big)[(big - ne)//2:(big + ne)//2, (big - nf)//2:(big + nf)//2]

    def i00(self, lam, zern=(), pol=None):
        c, V0 = self.c, self.start()
        I0 = np.zeros((c['Nsbp'], c['Nwp']))
        for si in range(c['Nsbp']):
            for wi in range(c['Nwp']):
                I0[si, wi] = (np.abs(self.expected(lam[si, wi], True, V0, pol, zern))**2).max()
        return I0

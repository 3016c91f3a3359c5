"""C09: argument validators accept exactly their documented domain and name the failing argument."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from core import Facets, need
import falco
from falco import check

F = Facets('C09', rule='values of every kind (python/numpy scalars of each dtype, 0-d to 4-d arrays of each dtype, nested lists, '
           'strings, bytes, None, dicts, booleans) against every validator; non-trivial = the value is not of the plainest '
           'accepted type (python int/float/list)')


class MyErr(Exception):
    pass


class SubErr(MyErr, ValueError):
    pass


EXC = {'TypeError': TypeError, 'ValueError': ValueError, 'MyErr': MyErr, 'SubErr': SubErr, 'KeyError': KeyError}
NPS = ['int8', 'int32', 'int64', 'uint8', 'uint64', 'float16', 'float32', 'float64', 'complex64', 'complex128', 'bool_']

scalar = st.one_of(
    st.tuples(st.just('py'), st.one_of(st.integers(-3, 3), st.integers(-10**20, 10**20), st.booleans(), st.none(),
                                       st.floats(-5, 5), st.sampled_from([0.0, -0.0, 1e-300, -1e-300, 1e308]),
                                       st.text(max_size=4), st.sampled_from(['pixel', 'interpixel', 'Pixel', 'inter']))),
    st.tuples(st.just('np'), st.sampled_from(NPS), st.integers(-3, 100)),
    st.tuples(st.just('cx'), st.floats(-3, 3), st.sampled_from([0.0, 1.0, -2.5])),
    st.tuples(st.just('inf'), st.sampled_from([1, -1])),
    st.tuples(st.just('frac'), st.integers(-3, 3), st.integers(1, 4)),
    st.tuples(st.just('bytes'), st.text(alphabet='abc', max_size=3)),
    st.tuples(st.just('dict'), st.integers(0, 3)),
    st.tuples(st.just('obj')), st.tuples(st.just('type')),
    st.tuples(st.just('arr'), st.sampled_from(NPS + ['str', 'object']), st.lists(st.integers(0, 4), max_size=4), st.booleans()),
    st.tuples(st.just('sq'), st.sampled_from(NPS + ['str']), st.integers(0, 5), st.booleans()),
    st.tuples(st.just('set'), st.integers(0, 3)),
)


def build(v):
    """-> value and its facts: number?, integer?, real?, sign, array rank/shape, kind, text?, bool?, dict?"""
    k = v[0]
    f = dict(num=False, integ=False, real=True, val=None, arr=None, text=False, boolean=False, dic=False)
    if k == 'py':
        x = v[1]
        if isinstance(x, bool):
            f.update(num=True, integ=True, val=int(x), boolean=True)
        elif isinstance(x, int):
            f.update(num=True, integ=True, val=x)
        elif isinstance(x, float):
            f.update(num=True, val=x)
        elif isinstance(x, str):
            f.update(text=True)
    elif k == 'np':
        n = v[2]
        if v[1].startswith('u') or v[1] == 'bool_':
            n = abs(n)
        x = getattr(np, v[1])(n)
        if v[1] != 'bool_':
            f.update(num=True, integ='int' in v[1], real='complex' not in v[1], val=n)
    elif k == 'cx':
        x = complex(v[1], v[2])
        f.update(num=True, real=False)
    elif k == 'inf':
        x = float('inf')*v[1]
        f.update(num=True, val=x)
    elif k == 'frac':
        x = Fraction(v[1], v[2])
        f.update(num=True, val=x)
        if v[2] == 1:
            pass
    elif k == 'bytes':
        x = v[1].encode()
        f.update(text=True)
    elif k == 'dict':
        x = {str(i): i for i in range(v[1])}
        f.update(dic=True)
    elif k == 'obj':
        x = object()
    elif k == 'type':
        x = int
    elif k == 'set':
        x = set(range(v[1]))
    else:
        shape = tuple(v[2]) if k == 'arr' else (v[2], v[2])
        aslist = v[3]
        if v[1] == 'str':
            a = np.full(shape, 'a')
            kind = 'U'
        elif v[1] == 'object':
            a = np.empty(shape, dtype=object)
            a[...] = None
            kind = 'O'
        else:
            a = np.ones(shape, dtype=getattr(np, v[1]))
            kind = a.dtype.kind
        x = a
        if aslist and len(shape) > 0:
            x = a.tolist()
            a2 = np.asarray(x)
            shape, kind = a2.shape, a2.dtype.kind
        f['arr'] = (shape, kind)
    return x, f


def is_real(f):
    return f['num'] and f['real']


RULES = {
    'real_positive_scalar': lambda f: is_real(f) and f['val'] > 0,
    'real_nonnegative_scalar': lambda f: is_real(f) and f['val'] >= 0,
    'real_scalar': is_real,
    'positive_scalar_integer': lambda f: f['integ'] and f['val'] > 0,
    'nonnegative_scalar_integer': lambda f: f['integ'] and f['val'] >= 0,
    'scalar_integer': lambda f: f['integ'],
    'string': lambda f: f['text'],
    'boolean': lambda f: f['boolean'],
    'dictionary': lambda f: f['dic'],
    'real_array': lambda f: f['arr'] is not None and len(f['arr'][0]) > 0 and f['arr'][1] in 'biuf',
    'oneD_array': lambda f: f['arr'] is not None and len(f['arr'][0]) == 1,
    'twoD_array': lambda f: f['arr'] is not None and len(f['arr'][0]) == 2,
    'twoD_square_array': lambda f: f['arr'] is not None and len(f['arr'][0]) == 2 and f['arr'][0][0] == f['arr'][0][1],
    'threeD_array': lambda f: f['arr'] is not None and len(f['arr'][0]) == 3,
}
ARRAYS = [k for k in RULES if k.endswith('array')]


def same(r, x):
    if r is x:
        return True
    a, b = np.asarray(r), np.asarray(x)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))


@F.facet(st.fixed_dictionaries({'v': scalar, 'exc': st.sampled_from(sorted(EXC)),
                                'name': st.text(alphabet='abcXYZ_', min_size=1, max_size=8)}), quick=1500, thorough=30000)
def domain(c, rec):
    """each validator returns the value when it is in its documented domain and otherwise raises the caller's exception"""
    x, f = build(c['v'])
    exc = EXC[c['exc']]
    text_or_obj = c['v'][0] in ('arr', 'sq') and f['arr'][1] in 'UO'
    rec.nontrivial(c['v'][0] != 'py')
    rec.label(c['v'][0])
    for nm, rule in RULES.items():
        if nm in ARRAYS and nm != 'real_array' and text_or_obj:
            continue                       # rank checks of non-numeric arrays are unspecified
        ok = bool(rule(f))
        if f['num'] and isinstance(x, bool) and nm not in ('boolean', 'string', 'dictionary') and nm not in ARRAYS:
            continue                       # whether a bool passes for a number is unspecified
        fn = getattr(check, nm)
        try:
            r = fn(x, c['name'], exc)
        except Exception as e:
            need(not ok, '%s rejected %r (%s: %s)', nm, x, type(e).__name__, e)
            need(type(e) is exc, '%s raised %s instead of the requested %s', nm, type(e).__name__, exc.__name__)
            need(c['name'] in str(e), '%s does not name the argument: %s', nm, e)
        else:
            need(ok, '%s accepted %r', nm, x)
            need(same(r, x), '%s changed the value %r to %r', nm, x, r)
    for nm, ok in (('is_dict', f['dic']), ('is_bool', f['boolean'])):
        try:
            r = getattr(check, nm)(x, c['name'])
        except TypeError as e:
            need(not ok and c['name'] in str(e), '%s rejected %r: %s', nm, x, e)
        else:
            need(ok and r is x, '%s accepted %r', nm, x)
    cen = isinstance(x, str) and x in ('pixel', 'interpixel')
    try:
        r = check.centering(x)
    except ValueError:
        need(isinstance(x, str) and not cen, 'centering: ValueError for %r', x)
    except TypeError:
        need(not isinstance(x, str), 'centering: TypeError for %r', x)
    else:
        need(cen and r == x, 'centering accepted %r', x)


@F.facet(st.fixed_dictionaries({'v': scalar, 'fn': st.sampled_from(sorted(RULES)), 'bad': scalar, 'which': st.booleans()}),
         quick=600, thorough=8000)
def misuse(c, rec):
    """a validator called without a usable name or exception class says so, whatever the value"""
    x, _ = build(c['v'])
    bad, f = build(c['bad'])
    fn = getattr(check, c['fn'])
    if c['which']:
        if f['text']:
            return
        args = (x, bad, TypeError)
    else:
        args = (x, 'x', bad)
    try:
        fn(*args)
    except check.CheckException:
        rec.nontrivial()
    except Exception as e:
        raise AssertionError('%s: %s instead of CheckException' % (c['fn'], type(e).__name__))
    else:
        raise AssertionError('%s accepted a bad %s: %r' % (c['fn'], 'name' if c['which'] else 'exception', bad))


# ---------------------------------------------------------------- public functions reject wrong argument types
A = np.ones((6, 6))
CALLS = {
    'util.pad_crop': (falco.util.pad_crop, [(A, '2d'), (8, 'posint')]),
    'util.ceil_odd': (falco.util.ceil_odd, [(3.2, 'real')]),
    'util.ceil_even': (falco.util.ceil_even, [(3.2, 'real')]),
    'util.nextpow2': (falco.util.nextpow2, [(3.2, 'real')]),
    'prop.ptp': (falco.prop.ptp, [(A, '2d'), (1e-2, 'pos'), (5e-7, 'pos'), (1e-3, 'real')]),
    'prop.relay': (falco.prop.relay, [(A, '2d'), (2, 'int')]),
    'prop.mft_p2f': (falco.prop.mft_p2f, [(A, '2d'), (1., 'real'), (5e-7, 'pos'), (1e-3, 'pos'), (1e-5, 'pos'), (4, 'posint'),
                                          (1e-5, 'pos'), (4, 'posint')]),
    'prop.mft_f2p': (falco.prop.mft_f2p, [(A, '2d'), (1., 'real'), (5e-7, 'pos'), (1e-5, 'pos'), (1e-5, 'pos'), (1e-3, 'pos'),
                                          (6, 'posint')]),
    'dm.apply_neighbor_rule': (falco.dm.apply_neighbor_rule, [(A, '2d'), (1., 'nonneg'), (6, 'posint')]),
    'dm.build_prefilter': (falco.dm.build_prefilter, [(2, 'posint'), (2, 'posint'), (A[:5, :5], '2d'), (2., 'pos')]),
    'dm.resample_inf_func': (falco.dm.resample_inf_func, [(A[:5, :5], '2d'), (2., 'pos'), (1., 'pos')]),
}
WRONG = {
    '2d': [None, 3.0, 'x', [1, 2], 'cube'],
    'posint': [None, 0, -2, 2.5, 'x', [3]],
    'int': [None, 2.5, 'x', [3]],
    'pos': [None, 0, -1.5, 'x', 2j, [1.0]],
    'nonneg': [None, -1.5, 'x', 2j, [1.0]],
    'real': [None, 'x', 2j, [1.0]],
}


@F.facet(st.fixed_dictionaries({'fn': st.sampled_from(sorted(k for k in CALLS if CALLS[k][1])), 'arg': st.integers(0, 7),
                                'bad': st.integers(0, 6)}), quick=300, thorough=2000)
def rejected(c, rec):
    """a numerical routine given one argument outside its documented domain raises instead of returning a number"""
    fn, spec = CALLS[c['fn']]
    args = [s[0] for s in spec]
    fn(*args)                                   # the baseline call is valid
    i = c['arg'] % len(spec)
    bads = WRONG[spec[i][1]]
    b = bads[c['bad'] % len(bads)]
    if isinstance(b, str) and b == 'cube':
        b = np.ones((3, 3, 3))
    if isinstance(b, complex):
        b = complex(1, 2)
    args[i] = b
    rec.nontrivial()
    rec.label(c['fn'])
    try:
        r = fn(*args)
    except Exception:
        return
    raise AssertionError('%s accepted %r for argument %d and returned %r' % (c['fn'], b, i, type(r)))

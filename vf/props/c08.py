"""C08: configuration objects and YAML configs behave like a consistent, lazily evaluated dictionary."""
import copy
import numpy as np
from hypothesis import strategies as st
from core import Facets, close, need, raises, scratch
import yaml
import falco
from falco.config import ModelParameters, Object, Probe, ProbeSchedule

F = Facets('C08', rule='operation histories on config objects against a dictionary model, and YAML configs with random '
           'dependency graphs of lazy expressions; non-trivial = at least one overwritten field / one expression')
KEYS = ['a', 'b', 'cc', 'Nact', 'V', 'items_', 'x1']
val = st.recursive(st.one_of(st.integers(-5, 5), st.floats(-3, 3), st.booleans(), st.none(), st.text('abcxyz', max_size=4)),
                   lambda s: st.one_of(st.lists(s, max_size=3),
                                       st.dictionaries(st.sampled_from(KEYS), s, max_size=3)), max_leaves=5)
op = st.one_of(
    st.tuples(st.just('setattr'), st.sampled_from(KEYS), val),
    st.tuples(st.just('setitem'), st.sampled_from(KEYS), val),
    st.tuples(st.just('merge'), st.dictionaries(st.sampled_from(KEYS), val, min_size=1, max_size=3), st.none()),
    st.tuples(st.just('copy'), st.sampled_from(KEYS), val),
)


def merged(base, new):
    """always-merge: dictionaries merge, lists append, anything else is overridden."""
    if isinstance(base, dict) and isinstance(new, dict):
        out = dict(base)
        for k, v in new.items():
            out[k] = merged(base[k], v) if k in base else v
        return out
    if isinstance(base, list) and isinstance(new, list):
        return base + new
    return new


def same(a, b):
    return type(a) is type(b) and a == b if not isinstance(a, (dict, list)) else \
        (type(a) is type(b) and len(a) == len(b) and
         (all(k in b and same(a[k], b[k]) for k in a) if isinstance(a, dict) else all(same(x, y) for x, y in zip(a, b))))


def agree(obj, model, where):
    for k in KEYS:
        need(hasattr(obj, k) == (k in model), '%s: hasattr(%s) is %s', where, k, hasattr(obj, k))
        if k in model:
            need(same(getattr(obj, k), model[k]), '%s: obj.%s = %r expected %r', where, k, getattr(obj, k), model[k])
            need(same(obj[k], model[k]), "%s: obj['%s'] = %r expected %r", where, k, obj[k], model[k])
        else:
            raises(AttributeError, getattr, obj, k)
            raises(AttributeError, lambda: obj[k])


@F.facet(st.fixed_dictionaries({'init': st.dictionaries(st.sampled_from(KEYS), val, max_size=4),
                                'ops': st.lists(op, min_size=1, max_size=10)}), quick=500, thorough=15000)
def object_history(c, rec):
    """field syntax, index syntax, merge and deepcopy of an Object follow a plain dictionary"""
    obj = Object(**copy.deepcopy(c['init']))
    model = copy.deepcopy(c['init'])
    agree(obj, model, 'init')
    over = False
    for i, (kind, a, b) in enumerate(c['ops']):
        over |= kind == 'merge' and bool(set(a) & set(model)) or kind != 'merge' and a in model
        if kind == 'setattr':
            setattr(obj, a, copy.deepcopy(b))
            model[a] = b
        elif kind == 'setitem':
            obj[a] = copy.deepcopy(b)
            model[a] = b
        elif kind == 'merge':
            obj.merge(**copy.deepcopy(a))
            model = merged(model, a)
        else:
            old, om = obj, copy.deepcopy(model)
            obj = copy.deepcopy(obj)
            if i % 2:           # mutate the copy, keep the original
                setattr(obj, a, copy.deepcopy(b))
                if isinstance(model.get('a'), list) and a != 'a':
                    obj.a.append('new')
                    obj['a'].pop()
                    obj.a.append('new')
                    model = copy.deepcopy(model)
                    model['a'].append('new')
                model = dict(model)
                model[a] = b
            agree(old, om, 'original after copying (op %d)' % i)
        agree(obj, model, 'op %d %s' % (i, kind))
    rec.nontrivial(over)


# ------------------------------------------------------------- lazy expressions
NAMES = ['mp.p0', 'mp.p1', 'mp.g0.q0', 'mp.g0.q1', 'mp.g1.r0', 'mp.g1.h.s0', 'mp.g1.h.s1']
node = st.one_of(st.tuples(st.just('c'), st.integers(-9, 9), st.just([]), st.just(0)),
                 st.tuples(st.just('e'), st.integers(-9, 9), st.lists(st.integers(0, 6), max_size=3), st.integers(0, 3)))
chg = st.tuples(st.sampled_from(['attr', 'item']), st.integers(0, 6), st.integers(-50, 50))


def expr(n):
    _, k, refs, form = n
    terms = [NAMES[r] for r in refs] + [str(k)]
    if form == 0:
        return ' + '.join(terms)
    if form == 1:
        return 'np.sum([%s])' % ', '.join(terms)
    if form == 2:
        return 'math.floor(%s)' % ' + '.join(terms)
    return ' + '.join(terms + ['ctxval'])


def model_value(g, i, ctx, stack=()):
    if i in stack:
        raise ValueError
    kind, k, refs, form = g[i]
    if kind == 'c':
        return k
    return k + sum(model_value(g, r, ctx, stack + (i,)) for r in refs) + (ctx if form == 3 else 0)


def build(g):
    def s(i):
        return '!eval "%s"' % expr(g[i]) if g[i][0] == 'e' else str(g[i][1])
    return ('p0: %s\np1: %s\ng0:\n  q0: %s\n  q1: %s\ng1:\n  r0: %s\n  h:\n    s0: %s\n    s1: %s\n'
            % tuple(s(i) for i in range(7)))


def fetch(mp, i, item):
    o = mp
    for nm in NAMES[i].split('.')[1:]:
        o = o[nm] if item else getattr(o, nm)
    return o


def check_all(mp, g, ctx, where):
    for i in range(7):
        try:
            want = model_value(g, i, ctx)
        except ValueError:
            raises(ValueError, fetch, mp, i, False)
            raises(ValueError, fetch, mp, i, True)
            continue
        for item in (False, True):
            got = fetch(mp, i, item)
            need(got == want, '%s: %s is %r expected %r', where, NAMES[i], got, want)


def assign(mp, i, how, v):
    parts = NAMES[i].split('.')[1:]
    o = mp
    for nm in parts[:-1]:
        o = getattr(o, nm)
    if how == 'attr':
        setattr(o, parts[-1], v)
    else:
        o[parts[-1]] = v


@F.facet(st.fixed_dictionaries({'g': st.lists(node, min_size=7, max_size=7), 'ctx': st.integers(-9, 9),
                                'g2': st.lists(node, min_size=7, max_size=7), 'share': st.booleans(),
                                'ops': st.lists(chg, max_size=5), 'file': st.booleans()}), quick=300, thorough=8000)
def lazy_graph(c, rec):
    """lazy expressions always see current values, cycles are errors, configs and copies stay isolated"""
    g, g2 = [list(n) for n in c['g']], [list(n) for n in c['g2']]
    ctx1 = {'ctxval': c['ctx']}
    ctx2 = ctx1 if c['share'] else {'ctxval': c['ctx'] + 100}
    if c['file']:
        with scratch() as d:
            with open(d + '/a.yaml', 'w') as f:
                f.write(build(g))
            mp = ModelParameters.from_yaml_file(d + '/a.yaml', ctx1)
    else:
        mp = ModelParameters.from_yaml(build(g), ctx1)
    mp2 = ModelParameters.from_yaml(build(g2), ctx2)
    v2 = ctx2['ctxval']
    check_all(mp, g, c['ctx'], 'first config')
    check_all(mp2, g2, v2, 'second config')
    cp = copy.deepcopy(mp)
    gc = [list(n) for n in g]
    for j, (how, i, v) in enumerate(c['ops']):
        tgt, gg = ((mp, g), (cp, gc), (mp2, g2))[j % 3]
        assign(tgt, i, how, v)
        gg[i] = ['c', v, [], 0]
        check_all(mp, g, c['ctx'], 'first after op %d' % j)
        check_all(cp, gc, c['ctx'], 'copy after op %d' % j)
        check_all(mp2, g2, v2, 'second after op %d' % j)
    check_all(cp, gc, c['ctx'], 'copy')
    rec.nontrivial(any(n[0] == 'e' and n[2] for n in c['g']))
    cyc = False
    for i in range(7):
        try:
            model_value([list(n) for n in c['g']], i, 0)
        except ValueError:
            cyc = True
    rec.label('cycle', cyc)


# ------------------------------------------------------------- plain documents
doc = st.recursive(st.one_of(st.integers(-99, 99), st.floats(-1e3, 1e3), st.booleans(), st.none(),
                             st.text('abc xyz_', max_size=6)),
                   lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.sampled_from(KEYS), s, max_size=3)),
                   max_leaves=10)


def tree_eq(obj, ref, path='mp'):
    if isinstance(ref, dict):
        need(isinstance(obj, Object), '%s is %s, not a config object', path, type(obj).__name__)
        for k, v in ref.items():
            tree_eq(getattr(obj, k), v, path + '.' + k)
            tree_eq(obj[k], v, path + '[%s]' % k)
    elif isinstance(ref, list):
        need(isinstance(obj, list) and len(obj) == len(ref), '%s list', path)
        for i, (a, b) in enumerate(zip(obj, ref)):
            tree_eq(a, b, path + '[%d]' % i)
    else:
        need(same(obj, ref), '%s: %r expected %r', path, obj, ref)


PROBE = ['Npairs', 'whichDM', 'xOffset', 'yOffset', 'rotation', 'gainFudge', 'radius', 'axis', 'width', 'xiOffset', 'height',
         'etaOffset']
DEFAULT = dict(Npairs=3, whichDM=1, xOffset=0, yOffset=0, rotation=0, gainFudge=1, radius=12, axis='alternate', width=12,
               xiOffset=6, height=24, etaOffset=0)
SCHED = ['xOffsetVec', 'yOffsetVec', 'rotationVec', 'InormProbeVec']


@F.facet(st.fixed_dictionaries({'doc': st.dictionaries(st.sampled_from(KEYS), doc, min_size=1, max_size=5),
                                'probe': st.dictionaries(st.sampled_from(PROBE), st.integers(-40, 40), max_size=5),
                                'sched': st.dictionaries(st.sampled_from(SCHED), st.lists(st.integers(0, 9), max_size=3), max_size=3),
                                'late': st.tuples(st.sampled_from(PROBE), st.integers(-40, 40))}),
         quick=300, thorough=8000)
def yaml_tree(c, rec):
    """a YAML document loads to the same tree of objects; probe objects keep defaults; other yaml users are unaffected"""
    text = yaml.safe_dump(c['doc'])
    text += 'pr: !Probe %s\nsc: !ProbeSchedule %s\ndflt: !Probe {}\n' % (
        yaml.safe_dump(c['probe'], default_flow_style=True).strip(), yaml.safe_dump(c['sched'], default_flow_style=True).strip())
    mp = ModelParameters.from_yaml(text)
    for k, v in c['doc'].items():
        tree_eq(getattr(mp, k), v, 'mp.' + k)
        tree_eq(mp[k], v, 'mp.' + k)
    for obj, given in ((mp.pr, c['probe']), (mp.dflt, {}), (Probe(**c['probe']), c['probe'])):
        need(isinstance(obj, Probe), 'not a Probe')
        for k, v in DEFAULT.items():
            w = given.get(k, v)
            need(getattr(obj, k) == w and obj[k] == w, 'probe.%s is %r expected %r', k, getattr(obj, k), w)
    need(isinstance(mp.sc, ProbeSchedule), 'not a ProbeSchedule')
    for k in SCHED:
        need(getattr(mp.sc, k) == c['sched'].get(k) and mp.sc[k] == c['sched'].get(k), 'schedule.%s', k)
    setattr(mp.pr, *c['late'])
    need(mp.pr[c['late'][0]] == c['late'][1] and getattr(mp.dflt, c['late'][0]) == DEFAULT[c['late'][0]], 'probe aliasing')
    back = yaml.safe_load(yaml.safe_dump(c['doc']))
    need(type(back) is dict and same(back, c['doc']), 'yaml.safe_load is altered by loading a config')
    raises(yaml.YAMLError, yaml.safe_load, 'a: !eval 3')
    rec.nontrivial(any(isinstance(v, dict) and v for v in c['doc'].values()) or bool(c['probe']))


@F.facet(st.fixed_dictionaries({'kw': st.dictionaries(st.sampled_from(PROBE), st.integers(-40, 40), max_size=4),
                                'sub': st.dictionaries(st.sampled_from(['Dstop', 'dx', 'NdmPad', 'ppact', 'Nact']),
                                                       st.floats(0.1, 9), max_size=4),
                                'which': st.sampled_from(['dm1', 'dm2'])}), quick=60, thorough=1000)
def defaults(c, rec):
    """model-parameter sections keep documented defaults, explicit values win, and instances share nothing"""
    a, b = ModelParameters(), ModelParameters()
    base = {'Dstop': 0.048, 'dx': 0, 'NdmPad': 0, 'ppact': 1}
    cls = getattr(ModelParameters, '_BaseDm1' if c['which'] == 'dm1' else '_BaseDm2')
    o = cls(**c['sub'])
    for k in set(base) | set(c['sub']):
        need(getattr(o, k) == c['sub'].get(k, base.get(k)), '%s.%s = %r', c['which'], k, getattr(o, k))
    for k, v in c['sub'].items():
        setattr(getattr(a, c['which']), k, v)
        need(not hasattr(getattr(b, c['which']), k) or getattr(b, c['which'])[k] == base[k], 'instances share state')
    mp = ModelParameters()
    F3, sec = {'Rin': 2.8, 'Rout': float('inf'), 'ang': 180}, {'F3': {}, 'Fend': {}}
    need(all(getattr(mp.F3, k) == v for k, v in F3.items()), 'F3 defaults')
    for k in F3:
        f = ModelParameters._BaseF3(**{k: 1.5})
        need(all(getattr(f, q) == (1.5 if q == k else v) for q, v in F3.items()), 'F3 given %s', k)
    need((mp.F3.full.res, mp.F3.compact.res) == (50., 30.) and (mp.P4.IDnorm, mp.P4.ODnorm) == (.5, .8), 'section defaults')
    mp = ModelParameters(**{c['which']: o, 'lambda0': 3})
    need(getattr(mp, c['which']) is o and mp['lambda0'] == 3 and getattr(mp, c['which']) is mp[c['which']], 'explicit section lost')
    rec.nontrivial(bool(c['sub']))

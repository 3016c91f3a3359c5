"""Common machinery of the property-based checks: facets, sharding, replay, evidence.

A property is decided by several *facets*.  A facet is a Hypothesis strategy that
yields JSON-able cases plus a body that runs the real code on one case and raises
if an oracle disagrees.  Everything random comes from the strategy (bulk arrays are
expanded deterministically from drawn integers), so a case replays from its JSON.
"""
import contextlib
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

import logging
import numpy as np
logging.disable(logging.CRITICAL)

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class HarnessError(Exception):
    """The harness itself is at fault: never reported as a violation."""


class CaseTimeout(BaseException):
    """A single case ran far too long (inconclusive, an error of the check)."""


class Rec:
    """What a body tells about its case."""

    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, s, cond=True):
        if cond:
            self.labels.append(str(s))


class Facet:
    def __init__(self, name, strategy, body, quick, thorough, examples, rule,
                 shards, timeout):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.examples = list(examples)
        self.rule = rule
        self.shards = shards
        self.timeout = timeout


class Facets:
    """Registry of the facets of one property."""

    def __init__(self, prop, rule, assumptions=(), setup=None):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.facets = []
        self.setup = setup

    def facet(self, strategy, quick=100, thorough=2000, examples=(), rule='',
              shards=None, timeout=600):
        def deco(fn):
            self.facets.append(Facet(fn.__name__, strategy, fn, quick, thorough,
                                     examples, rule or (fn.__doc__ or '').strip(),
                                     shards, timeout))
            return fn
        return deco

    def get(self, name):
        for f in self.facets:
            if f.name == name:
                return f
        raise HarnessError('no facet %s' % name)


# ---------------------------------------------------------------- case helpers
def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def rng(seed):
    return np.random.default_rng(int(seed))


def cplx(seed, shape):
    r = rng(seed)
    return r.standard_normal(shape) + 1j*r.standard_normal(shape)


def real(seed, shape):
    return rng(seed).standard_normal(shape)


def need(cond, msg='', *args):
    """Oracle assertion."""
    if not cond:
        raise AssertionError(msg % args if '%' in msg and args else ' '.join([msg] + ['%s' % (a,) for a in args]))


def close(a, b, rtol=1e-9, atol=None, msg=''):
    """Arrays agree up to rtol times the largest magnitude in the reference b."""
    a = np.asarray(a)
    b = np.asarray(b)
    need(a.shape == b.shape, '%s: shape %s != expected %s', msg, a.shape, b.shape)
    if a.size == 0:
        return
    scale = float(np.max(np.abs(b)))
    tol = rtol*scale + (atol if atol is not None else 1e-300)
    d = np.abs(a - b)
    bad = ~(d <= tol)
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.ndim else ()
        raise AssertionError('%s: differs at %s: got %r expected %r (max err %.3g, tol %.3g)'
                             % (msg, i, a[i], b[i], float(np.nanmax(d)) if d.size else 0, tol))


def raises(exc, fn, *a, **k):
    """fn must raise exc (class or tuple)."""
    try:
        fn(*a, **k)
    except exc:
        return
    except Exception as e:
        raise AssertionError('raised %s instead of %s: %s' % (type(e).__name__, exc, e))
    raise AssertionError('accepted invalid input; expected %s' % (exc,))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vf_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as dn:
        o = sys.stdout
        sys.stdout = dn
        try:
            yield
        finally:
            sys.stdout = o


# ---------------------------------------------------------------- shard runner
def _alarm(signum, frame):
    raise CaseTimeout()


def run_body(facet, case):
    """Run one case; returns (rec, failure text or None)."""
    rec = Rec()
    case = json.loads(json.dumps(case))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(facet.timeout)
    try:
        with quiet(), np.errstate(all='ignore'):
            facet.body(case, rec)
        return rec, None, None
    except HarnessError:
        raise
    except MemoryError:
        raise
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        return rec, traceback.format_exc(limit=-12), e
    finally:
        signal.alarm(0)


def run_shard(prop, fname, n, seed, deadline, do_examples):
    """Run n generated cases of one facet in this process."""
    import hypothesis
    from hypothesis import HealthCheck, given, settings, Phase
    import warnings
    warnings.simplefilter('ignore')
    facets = load(prop)
    f = facets.get(fname)
    st = dict(evals=0, nt=set(), labels={}, samples=[], fail=None, skipped=0, facet=fname,
              wall=0.0)
    t0 = time.time()
    state = {'best': None, 'first_fail': None}

    def one(case):
        js = canon(case)
        rec, txt, exc = run_body(f, case)
        st['evals'] += 1
        if rec.nt:
            h = hashlib.md5(js.encode()).hexdigest()
            if h not in st['nt']:
                st['nt'].add(h)
                if len(st['samples']) < 2 and len(js) < 3000:
                    st['samples'].append({'facet': fname, 'case': case})
        for lb in rec.labels:
            st['labels'][lb] = st['labels'].get(lb, 0) + 1
        if txt is not None:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            key = (len(js), js)
            if state['best'] is None or key < state['best'][0]:
                state['best'] = (key, case, txt)
            raise exc

    if do_examples:
        for ex in f.examples:
            try:
                one(ex)
            except Exception:
                if state['best'] is None:
                    raise
                break
    if state['best'] is None and n > 0:
        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
        @given(f.strategy)
        def test(case):
            now = time.time()
            if state['first_fail'] is None and now > deadline:
                st['skipped'] += 1
                return
            if state['first_fail'] is not None and now > state['first_fail'] + 45:
                return          # stop shrinking: keep the best so far
            one(case)
        try:
            test()
        except Exception:
            if state['best'] is None:
                raise
    if state['best'] is not None:
        st['fail'] = {'facet': fname, 'case': state['best'][1], 'why': state['best'][2]}
    st['nt'] = list(st['nt'])
    st['wall'] = time.time() - t0
    return st


_LOADED = {}


def load(prop):
    if prop not in _LOADED:
        import importlib
        m = importlib.import_module('props.' + prop.lower())
        _LOADED[prop] = m.F
    return _LOADED[prop]


def known_entries(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d['property'] == prop:
                out.append(d)
    return out

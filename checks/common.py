"""Shared plumbing of the checks: reporting, cached interpretations, normal forms of job fields."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))

import expr
from expr import *                                    # noqa
from program import Program, BuildError, REPO, CONFIGS  # noqa
from flow import Inliner, Interp, TooBig, unroll               # noqa
from query import Q                                    # noqa

TIER = os.environ.get('VERIF_TIER', 'quick')
OUT = os.environ.get('VERIF_OUT') or VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class Report:
    """obligations of one check"""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.failures = {}       # key -> message
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.level = 'other'
        self.trusted = []

    def ob(self, ok, key, msg='', sample=None):
        """one obligation; key is stable (no line numbers)"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample is not None and len(self.samples) < 40:
                self.samples.append(sample)
        else:
            self.failures.setdefault(key, msg)
        return ok

    def fail(self, key, msg):
        self.ob(False, key, msg)

    def floor(self, what, n, least):
        """fail closed when a rule matched fewer instances than were confirmed by hand"""
        self.counts[what] = n
        self.ob(n >= least, 'floor %s' % what, 'analysed only %d %s, at least %d expected: the anchor is missing' % (n, what, least))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def rule(self, name, text):
        self.rules[name] = text


_progs = {}


def program(config='host'):
    if config not in _progs:
        _progs[config] = Program(config)
    return _progs[config]


_interps = {}
_bodies = {}


def interp(key, config='host', opaque=None, tag='', rep=None, sub=None, models=None, init=None, fn=None, depth=14, assume=None, fold=None, straight=False):
    """interpretation of one function with everything crate-local inlined; None when it does not exist"""
    k = (key, config, tag)
    if k not in _interps:
        P = program(config)
        f = fn or P.fn(key)
        if f is None:
            _interps[k] = None
        else:
            kb = (key, config, fn is None or fn, opaque, repr(sub))
            if kb not in _bodies:
                _bodies[kb] = Inliner(P, opaque, depth=depth).build(f, sub)
            body = unroll(P, _bodies[kb], models=models, assume=assume, fold=fold, init=init) if straight else _bodies[kb]
            _interps[k] = Interp(P, body, models=models, assume=assume, fold=fold).run(init)
    it = _interps[k]
    if rep is not None and it is not None:
        rep.functions.add(key)
        rep.functions.update(it.body.inlined)
    return it


# ---------------------------------------------------------------- normal forms
PAYS = (('v', 'Some'), ('v', 'Ok'))
BUFCALLS = ('OzzBuf>::buf', 'OzzMutBuf>::mut_buf')


def strip(e):
    while isinstance(e, E) and e.op in ('&', 'deref'):
        e = e.a[0]
    return e


def norm_job(e):
    """generic accessors of the jobs become transparent: obj() is the object itself, buf()/mut_buf() one buffer"""
    if e.op == 'deref':
        return e.a[0]
    if e.op == 'ld':
        for i in range(len(e.a[1]) - 1):
            if e.a[1][i] in PAYS and e.a[1][i + 1][0] == 'f':
                v = mk('pay', mk('ld', e.a[0], e.a[1][:i]) if i else e.a[0])
                for p in e.a[1][i + 2:]:
                    v = mk('pj', v, p)
                return v
        if e.a[1] and e.a[1][0][0] == 'i' and isinstance(e.a[1][0][1], E):
            # an element is the same whether reached by index or by iterator
            v = mk('elem', e.a[0], e.a[1][0][1])
            for p in e.a[1][1:]:
                v = mk('pj', v, p)
            return v
        return None
    if e.op == 'call':
        n = e.a[0]
        if n.endswith('OzzObj>::obj'):
            return strip(e.a[1][0])
        if n.endswith(BUFCALLS):
            return mk('buf', strip(e.a[1][0]))
    return None


def fld(name, arg=1):
    return mk('ld', mk('arg', arg), (('f', name),))


def opt(name, arg=1):
    return mk('pay', fld(name, arg))


def buflen(name, arg=1):
    return mk('len', mk('pay', mk('buf', opt(name, arg))))


def of(base, *fields):
    """a field of the object a pointer-like value refers to"""
    v = mk('ld', base, tuple(('f', f) for f in fields))
    return v


def ge(a, b):
    return le0(sub(b, a))


def gt(a, b):
    return le0(add(sub(b, a), const(1)))


def some(name, arg=1):
    return mk('eq0', mklin({mk('discr', fld(name, arg)): 1}, -1))


def none(name, arg=1):
    return mk('eq0', mk('discr', fld(name, arg)))


def bufok(name, arg=1):
    return mk('eq0', mk('discr', mk('buf', opt(name, arg))))


def implied(c, facts):
    """is boolean c implied by one of the facts (same fact, or the same linear form with a tighter constant)"""
    if c is TRUE or c in facts:
        return True
    if c.op == 'not' and c.a[0].op == 'eq0':
        d, k = lin_parts(c.a[0].a[0])
        for s in (1, -1):
            if implied(le0(mklin({a: s * v for a, v in d.items()}, s * k + 1)), facts):
                return True
    if c.op == 'le0':
        d, k = lin_parts(c.a[0])
        for f in facts:
            if f.op == 'le0':
                d2, k2 = lin_parts(f.a[0])
                if d2 == d and k2 >= k:
                    return True
            if f.op == 'eq0':
                d2, k2 = lin_parts(f.a[0])
                if d2 == d and k2 >= k:
                    return True
                if {a: -v for a, v in d2.items()} == d and -k2 >= k:
                    return True
    return False


def returns(q):
    return [e for e in q.events('return')]


def mentions(e, pred):
    return any(pred(x) for x in walk(e))


# ---------------------------------------------------------------- driver
def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return {}
    out = {}
    for x in json.load(open(p))['findings']:
        if x['status'] == 'open':
            out.setdefault(x['property'], {})[x['key']] = x['what']
    return out


def main(pid, fn, technique_note):
    rep = Report(pid)
    try:
        fn(rep)
    except BuildError as e:
        rep.fail('build', 'the tree does not build in a configuration the property quantifies over: ' + str(e)[-1500:])
    except Exception:
        rep.fail('analysis', 'the analysis could not decide the property on this tree: ' + traceback.format_exc()[-3000:])
    known = known_findings().get(pid, {})
    new = {k: v for k, v in rep.failures.items() if k not in known}
    for k in sorted(rep.failures):
        if k in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    print('%s: %d obligations, %d discharged, %d functions analysed, %s' % (
        pid, rep.obligations, rep.discharged, len(rep.functions),
        ', '.join('%s=%s' % kv for kv in sorted(rep.counts.items()))))
    ev = {
        'property': pid, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': 'other',
        'coverage': {
            'explanation': technique_note,
            'obligations': rep.obligations, 'discharged': rep.discharged,
            'functions_analysed': len(rep.functions), 'functions': sorted(rep.functions),
            'instances': rep.counts, 'rules': rep.rules, 'samples': rep.samples[:40],
            'undischarged': {k: v[:600] for k, v in rep.failures.items()},
            'exhaustive': True,
        },
        'assumptions': rep.assumptions,
        'wall_s': round(time.time() - rep.t0, 3), 'violations': len(new),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if new:
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        path = os.path.join(OUT, 'replay', pid + '.txt')
        with open(path, 'w') as fh:
            for k, v in sorted(new.items()):
                fh.write('%s\n    %s\n' % (k, v))
        for k, v in sorted(new.items())[:12]:
            print('  %s: %s' % (k, v[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0

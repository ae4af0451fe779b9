"""Names for the fields of the jobs and assets, learnt from the public accessors of the current tree, so that
renaming a private field or re-implementing an accessor changes nothing."""
from common import *

_norm_q = {}


def ret(key, config='host'):
    """normalised value an accessor returns, in terms of arg1 (a reference to self)"""
    k = (key, config)
    if k not in _norm_q:
        it = interp(key, config)
        if it is None:
            raise KeyError('public function %s not found' % key)
        q = Q(it, norm=norm_job)
        r = returns(q)
        if len(r) != 1:
            raise KeyError('accessor %s has %d returns' % (key, len(r)))
        v = it.valarg(r[0]['state'], r[0]['value'])
        _norm_q[k] = (q, q.canon(v))
    return _norm_q[k]


def at(key, obj, config='host'):
    """value accessor `key` returns for the object `obj`"""
    q, v = ret(key, config)
    a1 = mk('arg', 1)
    memo = {}
    return q.subst(v, lambda x: obj if x is a1 else None, memo)


class Job:
    def __init__(self, name, config='host'):
        self.name, self.config = name, config

    def f(self, field):
        """the field a getter exposes: the Option itself for optional fields"""
        q, v = ret('%s::%s' % (self.name, field), self.config)
        v = strip(v)
        if v.op == 'asref':
            return v.a[0]
        return v

    def obj(self, field):
        return mk('pay', self.f(field))

    def some(self, field):
        return mk('eq0', mklin({mk('discr', self.f(field)): 1}, -1))

    def bufok(self, field):
        return mk('eq0', mk('discr', mk('buf', self.obj(field))))

    def len(self, field):
        return mk('len', mk('pay', mk('buf', self.obj(field))))


_fields = {}


def fields(job):
    """{private field: public getter that exposes it} of a job; a field no getter exposes keeps its name"""
    if job not in _fields:
        from soa import unproj
        out = {}
        for f in program().fns:
            n = f.key.split('::')
            if len(n) != 2 or n[0] != job or n[1].startswith(('set_', 'clear_', 'take_', 'run', 'validate')) or n[1].endswith('_mut'):
                continue
            try:
                q, v = ret(f.key)
            except KeyError:
                continue
            tops = set()

            def go(x):
                if x.op in ('ld', 'pj'):
                    b, p = unproj(x)
                    if b is mk('arg', 1) and p and p[0][0] == 'f':
                        tops.add(p[0][1])
                        return
                for y in x.a:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        if isinstance(z, E):
                            go(z)
            go(v)
            if len(tops) == 1:
                out.setdefault(tops.pop(), n[1])
        _fields[job] = out
    return _fields[job]

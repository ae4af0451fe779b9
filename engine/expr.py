"""Hash-consed symbolic values and their normal forms.

Integers are kept as linear forms over atoms (products are monomial atoms), comparisons as `le0`/`eq0`
over linear forms, options/results by their discriminant and payload.  Machine wrap-around is ignored
(stated in DESIGN.md)."""

_tab = {}

import os


class E:
    __slots__ = ('op', 'a', 'id', '_s')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __reduce__(self):
        raise TypeError('E is interned')


_ORD = -1 if os.environ.get('VERIF_REVERSE') else 1     # nothing may depend on the order in which terms are made


def mk(op, *a):
    if op in ('max', 'min') and len(a) == 2 and a[0].id > a[1].id:
        a = (a[1], a[0])
    k = (op, a)
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op, e.a, e.id, e._s = op, a, _ORD * len(_tab), None
        _tab[k] = e
    return e


def const(v):
    k = ('const', type(v), v)      # True and 1 are different constants
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op, e.a, e.id, e._s = 'const', (v,), _ORD * len(_tab), None
        _tab[k] = e
    return e


def is_const(e):
    return e.op == 'const'


def cval(e):
    return e.a[0] if e.op == 'const' else None


TRUE = const(True)
FALSE = const(False)
UNIT = const('()')


# ------------------------------------------------------------ linear forms
def lin_parts(e):
    """-> (dict atom->coef, const)"""
    if e.op == 'const' and isinstance(e.a[0], int) and not isinstance(e.a[0], bool):
        return {}, e.a[0]
    if e.op == 'lin':
        return dict(e.a[0]), e.a[1]
    return {e: 1}, 0


def mklin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', tuple(sorted(d.items(), key=lambda kv: kv[0].id)), c)


def add(x, y, sy=1):
    d, c = lin_parts(x)
    d2, c2 = lin_parts(y)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + sy * v
    return mklin(d, c + sy * c2)


def sub(x, y):
    return add(x, y, -1)


def _monos(a):
    return list(a.a) if a.op == 'mono' else [a]


def mul(x, y):
    d1, c1 = lin_parts(x)
    d2, c2 = lin_parts(y)
    if (d1 and d2) and (len(d1) * len(d2) > 64):
        return mk('mono', *sorted([x, y], key=lambda e: e.id))
    out = {}
    c = c1 * c2
    for k, v in d1.items():
        if c2:
            out[k] = out.get(k, 0) + v * c2
        for k2, v2 in d2.items():
            m = mk('mono', *sorted(_monos(k) + _monos(k2), key=lambda e: e.id))
            out[m] = out.get(m, 0) + v * v2
    for k2, v2 in d2.items():
        if c1:
            out[k2] = out.get(k2, 0) + v2 * c1
    return mklin(out, c)


def div(x, y):
    if is_const(x) and is_const(y) and isinstance(cval(x), int) and cval(y) not in (0, None):
        return const(abs(cval(x)) // abs(cval(y)) * (1 if (cval(x) < 0) == (cval(y) < 0) else -1))
    if is_const(y) and isinstance(cval(y), int) and cval(y) > 1:
        d, c = lin_parts(x)
        k = cval(y)
        if c == k - 1 and d:
            return div_ceil(mklin(d, 0), y)
    if cval(y) == 1:
        return x
    return mk('div', x, y)


def div_ceil(x, y):
    if is_const(x) and is_const(y):
        return const(-(-cval(x) // cval(y)))
    d, c = lin_parts(x)
    k = cval(y)
    if isinstance(k, int) and k > 0 and c == 0 and all(v % k == 0 for v in d.values()):
        return mklin({a: v // k for a, v in d.items()}, 0)
    return mk('div_ceil', x, y)


# ------------------------------------------------------------ conditions
def le0(x):
    """x <= 0 over integers"""
    d, c = lin_parts(x)
    if not d:
        return const(c <= 0)
    # divide by gcd
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = -((-c) // g)
        # x = g*d + c0 <= 0  <=> d <= floor(-c0/g)
    return mk('le0', mklin(d, c))


def eq0(x):
    d, c = lin_parts(x)
    if not d:
        return const(c == 0)
    k = min(d, key=lambda e: e.id)
    if d[k] < 0:
        d = {a: -v for a, v in d.items()}
        c = -c
    return mk('eq0', mklin(d, c))


def neg(c):
    if c.op == 'const':
        return const(not c.a[0])
    if c.op == 'not':
        return c.a[0]
    if c.op == 'le0':
        d, k = lin_parts(c.a[0])
        return le0(mklin({a: -v for a, v in d.items()}, 1 - k))
    return mk('not', c)


def boolval(e):
    """integer 0/1 value as a condition"""
    return e


def cmp(op, a, b, isint):
    if isint:
        if op == 'Lt':
            return le0(add(sub(a, b), const(1)))
        if op == 'Le':
            return le0(sub(a, b))
        if op == 'Gt':
            return le0(add(sub(b, a), const(1)))
        if op == 'Ge':
            return le0(sub(b, a))
        if op == 'Eq':
            return eq0(sub(a, b))
        if op == 'Ne':
            return neg(eq0(sub(a, b)))
    if op == 'Gt':
        return mk('fcmp', 'Lt', b, a)
    if op == 'Ge':
        return mk('fcmp', 'Le', b, a)
    if op == 'Ne':
        return neg(cmp('Eq', a, b, False))
    if op == 'Eq':
        if is_const(a) and is_const(b):
            return const(a is b)
        x, y = (a, b) if a.id <= b.id else (b, a)
        return mk('fcmp', 'Eq', x, y)
    return mk('fcmp', op, a, b)


# ------------------------------------------------------------ printing
def show(e, depth=12):
    if not isinstance(e, E):
        if isinstance(e, tuple):
            return '(' + ', '.join(show(x, depth - 1) for x in e) + ')'
        return str(e)
    if e._s is not None:
        return e._s
    if depth <= 0:
        return '…%d' % e.id
    d = depth - 1
    op, a = e.op, e.a
    if op == 'const':
        return str(a[0])
    if op == 'arg':
        return 'arg%s' % a[0]
    if op == 'ld':
        return '%s%s' % (show(a[0], d), ''.join(_pe(p, d) for p in a[1]))
    if op == 'lin':
        s = ''
        for k, v in a[0]:
            s += (' + ' if v > 0 else ' - ') + ('' if abs(v) == 1 else '%d*' % abs(v)) + show(k, d)
        if a[1]:
            s += ' %s %d' % ('+' if a[1] > 0 else '-', abs(a[1]))
        return '(' + s.strip(' +') + ')'
    if op == 'mono':
        return '*'.join(show(x, d) for x in a)
    if op == 'le0':
        return '(%s <= 0)' % show(a[0], d)
    if op == 'eq0':
        return '(%s == 0)' % show(a[0], d)
    if op == 'not':
        return '!' + show(a[0], d)
    if op == 'fcmp':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if op == 'phi':
        return 'φ%s.%s' % (a[0], _key(a[1], d))
    if op == 'call':
        n = a[0] if a[0].startswith('<') else '::'.join(a[0].split('::')[-2:])
        return '%s%s%s(%s)' % (n, '::<%s>' % a[3] if a[3] else '', '#%d' % a[2] if a[2] is not None else '',
                               ', '.join(show(x, d) for x in a[1]))
    if op == 'agg':
        n = a[0].split('::')[-1]
        if a[1]:
            return '%s{%s}' % (n, ', '.join('%s: %s' % (k, show(x, d)) for k, x in zip(a[1], a[2])))
        return '%s(%s)' % (n, ', '.join(show(x, d) for x in a[2]))
    if op == 'pj':
        return show(a[0], d) + _pe(a[1], d)
    if op == '&':
        return '&' + show(a[0], d)
    if op == 'upd':
        return '%s with {%s}' % (show(a[0], d), ', '.join('%s: %s' % (''.join(_pe(p, d) for p in k), show(v, d)) for k, v in a[1]))
    return '%s(%s)' % (op, ', '.join(show(x, d) if isinstance(x, E) else _key(x, d) for x in a))


def _pe(p, d):
    if p[0] == 'f':
        return '.%s' % p[1]
    if p[0] == 'v':
        return '@%s' % p[1]
    if p[0] == 'i':
        return '[%s]' % show(p[1], d)
    return str(p)


def _key(k, d=3):
    if isinstance(k, E):
        return show(k, d)
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and k[0] and k[0][0] in ('L', 'M'):
        root, path = k
        r = '_%s' % root[1] if root[0] == 'L' else '*%s' % show(root[1], d)
        return r + ''.join(_pe(p, d) for p in path)
    if isinstance(k, tuple):
        return '(' + ','.join(_key(x, d) for x in k) + ')'
    return str(k)


def walk(e, seen=None):
    """all sub-expressions"""
    if seen is None:
        seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, E):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)

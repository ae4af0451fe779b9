"""Parser for the text MIR that the pinned rustc prints (-Zunpretty=mir).

The text is the compiler's own rendering of the type-checked, borrow-checked program: every callee is
resolved, every place is typed.  Nothing here looks at the source except to learn the header of an
`impl` block, which MIR names only by its span."""
import os
import re
import sys

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


class ParseError(Exception):
    pass


def split_top(s, sep=','):
    """Split at top-level separators, minding brackets, strings and `->`/`=>`."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    instr = False
    while i < n:
        c = s[i]
        if instr:
            cur.append(c)
            if c == '\\':
                i += 1
                cur.append(s[i])
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur.append(c)
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.index("'", i + 2)
            cur.append(s[i:j + 1])
            i = j
        elif c in '([{<':
            depth += 1
            cur.append(c)
        elif c in ')]}':
            depth -= 1
            cur.append(c)
        elif c == '>':
            if i > 0 and s[i - 1] in '-=':
                pass
            else:
                depth -= 1
            cur.append(c)
        elif c == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


def match_close(s, i):
    """s[i] opens a bracket; index of its close."""
    stack = []
    n = len(s)
    instr = False
    j = i
    while j < n:
        c = s[j]
        if instr:
            if c == '\\':
                j += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c == "'" and j + 2 < n and (s[j + 2] == "'" or s[j + 1] == '\\'):
            j = s.index("'", j + 2)
        elif c in OPEN:
            stack.append(OPEN[c])
        elif c in ')]}>':
            if c == '>' and s[j - 1] in '-=':
                pass
            else:
                if not stack or stack[-1] != c:
                    raise ParseError('bracket mismatch at %d in %r' % (j, s))
                stack.pop()
                if not stack:
                    return j
        j += 1
    raise ParseError('unclosed bracket in %r' % s)


# ---------------------------------------------------------------- places
# place = (local:int, proj:tuple) ; proj elements:
#  ('*',) ('f', idx, type) ('v', variant) ('i', local) ('ci', off, min, fromend) ('sub', a, b, fromend)

def parse_place(s):
    p, rest = _place(s)
    if rest.strip():
        raise ParseError('trailing %r in place %r' % (rest, s))
    return p


def _place(s):
    s = s.lstrip()
    if s.startswith('('):
        e = match_close(s, 0)
        inner = s[1:e]
        rest = s[e + 1:]
        if inner.startswith('*'):
            (l, pr), r = _place(inner[1:])
            if r.strip():
                raise ParseError('deref %r' % s)
            base = (l, pr + (('*',),))
        else:
            (l, pr), r = _place(inner)
            m = re.match(r'\.(\d+): (.*)$', r, re.S)
            if m:
                base = (l, pr + (('f', int(m.group(1)), m.group(2)),))
            else:
                m = re.match(r' as (?:variant#)?([A-Za-z_0-9#]+)$', r)
                if m:
                    base = (l, pr + (('v', m.group(1)),))
                elif r.startswith(' as subtype') or r.startswith(' as '):
                    base = (l, pr)
                else:
                    raise ParseError('proj %r in %r' % (r, s))
    elif s.startswith('*'):
        (l, pr), rest = _place(s[1:])
        return (l, pr + (('*',),)), rest
    else:
        m = re.match(r'_(\d+)', s)
        if not m:
            raise ParseError('place %r' % s)
        base = (int(m.group(1)), ())
        rest = s[m.end():]
    while rest.startswith('['):
        e = match_close(rest, 0)
        ix = rest[1:e]
        rest = rest[e + 1:]
        l, pr = base
        m = re.match(r'_(\d+)$', ix)
        if m:
            pr = pr + (('i', int(m.group(1))),)
        else:
            m = re.match(r'(-?)(\d+) of (\d+)$', ix)
            if m:
                pr = pr + (('ci', int(m.group(2)), int(m.group(3)), m.group(1) == '-'),)
            else:
                m = re.match(r'(\d*):(-?)(\d*)$', ix)
                if not m:
                    raise ParseError('index %r' % ix)
                pr = pr + (('sub', int(m.group(1) or 0), int(m.group(3) or 0), m.group(2) == '-'),)
        base = (l, pr)
    return base, rest


# ---------------------------------------------------------------- operands
# ('copy', place) ('move', place) ('const', text)

def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    # function items used as values are printed bare
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne',
          'Ge', 'Gt', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow',
          'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&'):
        m = re.match(r'&raw (const|mut)(?: \(fake\))? (.*)$', s, re.S)
        if m:
            return ('raw', m.group(1), parse_place(m.group(2)))
        m = re.match(r"&(?:'[a-z_0-9]+ )?(mut |fake shallow |fake )?(.*)$", s, re.S)
        k = (m.group(1) or '').strip()
        return ('ref', 'mut' if k == 'mut' else 'shared', parse_place(m.group(2)))
    m = re.match(r'([A-Za-z]+)\(', s)
    if m and (m.group(1) in BINOPS or m.group(1) in UNOPS or m.group(1) in ('discriminant', 'Len', 'CopyForDeref')):
        e = match_close(s, m.end() - 1)
        if e == len(s) - 1:
            args = split_top(s[m.end():e])
            op = m.group(1)
            if op in BINOPS:
                return ('bin', op, parse_operand(args[0]), parse_operand(args[1]))
            if op in UNOPS:
                return ('un', op, parse_operand(args[0]))
            if op == 'discriminant':
                return ('discr', parse_place(args[0]))
            if op == 'Len':
                return ('len', parse_place(args[0]))
            return ('use', ('copy', parse_place(args[0])))
    if s.startswith('deref_copy '):
        return ('use', ('copy', parse_place(s[11:])))
    if s.startswith(('move ', 'copy ', 'const ')):
        # maybe a cast:  `move _3 as T (Kind)`
        m = re.match(r'^(.*) as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s, re.S)
        if m and m.group(3).split('(')[0] in (
                'IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat', 'PtrToPtr', 'FnPtrToPtr', 'PointerCoercion',
                'Transmute', 'PointerExposeProvenance', 'PointerWithExposedProvenance', 'Subtype'):
            return ('cast', m.group(3), parse_operand(m.group(1)), m.group(2))
        return ('use', parse_operand(s))
    if s.startswith('['):
        e = match_close(s, 0)
        if e == len(s) - 1:
            inner = s[1:e]
            parts = split_top(inner, ';')
            if len(parts) == 2:
                return ('repeat', parse_operand(parts[0]), parts[1])
            return ('agg', '[]', None, [parse_operand(a) for a in split_top(inner)])
    if s.startswith('('):
        e = match_close(s, 0)
        if e == len(s) - 1:
            return ('agg', '()', None, [parse_operand(a) for a in split_top(s[1:e])])
    if s.startswith('{closure@'):
        m = match_close(s, 0)
        name = s[:m + 1]
        rest = s[m + 1:].strip()
        fields, names = [], []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                k, v = f.split(': ', 1)
                names.append(k)
                fields.append(parse_operand(v))
        elif rest.startswith('('):
            fields = [parse_operand(a) for a in split_top(rest[1:-1])]
            names = None
        return ('agg', name, names, fields)
    # struct / enum aggregates: Path { a: .., b: .. } | Path(..) | Path
    m = re.match(r'^(.*?) \{ (.*) \}$', s, re.S)
    if m and _balanced(m.group(1)):
        names, fields = [], []
        for f in split_top(m.group(2)):
            k, v = f.split(': ', 1)
            names.append(k)
            fields.append(parse_operand(v))
        return ('agg', m.group(1), names, fields)
    if s.endswith(')'):
        i = _last_paren(s)
        if i is not None and i > 0:
            return ('agg', s[:i], None, [parse_operand(a) for a in split_top(s[i + 1:-1])])
    if s.startswith(('wrapping', 'ShallowInitBox', 'thread_local', 'ThreadLocalRef', '/*tls*/', '&/*tls*/')):
        return ('other', s)
    return ('agg', s, None, [])


def _balanced(s):
    d = 0
    for i, c in enumerate(s):
        if c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
    return d == 0


def _last_paren(s):
    """index of the '(' matching the final ')'"""
    stack = []
    i = 0
    n = len(s)
    instr = False
    last = None
    while i < n:
        c = s[i]
        if instr:
            if c == '\\':
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            i = s.index("'", i + 2)
        elif c in OPEN:
            stack.append((c, i))
        elif c in ')]}>':
            if c == '>' and s[i - 1] in '-=':
                pass
            elif stack:
                last = stack.pop()
        i += 1
    return last[1] if last and not stack and last[0] == '(' else None


# ---------------------------------------------------------------- bodies

class Fn:
    __slots__ = ('path', 'args', 'ret', 'locals', 'debug', 'blocks', 'kind', 'key', 'impl', 'nargs', 'cleanup',
                 'header', 'argtys')

    def __repr__(self):
        return 'Fn(%s)' % self.key


_TARGET = re.compile(r' -> (\[.*\]|bb\d+|unwind [a-z0-9() ]+)$', re.S)


def parse_targets(t):
    d = {}
    if t.startswith('['):
        for p in split_top(t[1:-1]):
            if p.startswith('unwind'):
                if 'bb' in p:
                    d['unwind'] = int(re.search(r'bb(\d+)', p).group(1))
            else:
                k, v = p.split(': ')
                d[k] = int(v[2:])
    elif t.startswith('bb'):
        d['return'] = int(t[2:])
    elif 'bb' in t:
        d['unwind'] = int(re.search(r'bb(\d+)', t).group(1))
    return d


def parse_line(s):
    """One statement or terminator line without the trailing ';'. Returns ('stmt', ..) or ('term', ..)."""
    if s.startswith('StorageLive('):
        return ('stmt', ('live', int(s[13:-1])))
    if s.startswith('StorageDead('):
        return ('stmt', ('dead', int(s[13:-1])))
    if s in ('ConstEvalCounter', 'nop') or s.startswith(('PlaceMention(', 'FakeRead(', 'Retag(', 'AscribeUserType(',
                                                        'Coverage', 'BackwardIncompatibleDrop')):
        return ('stmt', ('nop',))
    if s.startswith(('assume(', 'copy_nonoverlapping(')):
        return ('stmt', ('intrinsic', s))
    if s == 'return':
        return ('term', ('return',))
    if s in ('resume', 'unreachable') or s.startswith('terminate'):
        return ('term', (s.split('(')[0],))
    if s.startswith('goto -> '):
        return ('term', ('goto', int(s[10:])))
    if s.startswith('switchInt('):
        e = match_close(s, 9)
        op = parse_operand(s[10:e])
        t = s[e + 1:].strip()
        t = t[3:].strip()
        arms, other = [], None
        for p in split_top(t[1:-1]):
            k, v = p.split(': ')
            if k == 'otherwise':
                other = int(v[2:])
            else:
                arms.append((int(k), int(v[2:])))
        return ('term', ('switch', op, arms, other))
    if s.startswith('assert('):
        e = match_close(s, 6)
        args = split_top(s[7:e])
        c = args[0]
        neg = c.startswith('!')
        tg = parse_targets(s[e + 1:].strip()[3:])
        return ('term', ('assert', parse_operand(c[1:] if neg else c), not neg, args[1], [parse_operand(a) for a in args[2:]],
                         tg['success']))
    if s.startswith('drop('):
        e = match_close(s, 4)
        tg = parse_targets(s[e + 1:].strip()[3:])
        return ('term', ('drop', parse_place(s[5:e]), tg.get('return')))
    if s.startswith('falseEdge -> ') or s.startswith('falseUnwind -> '):
        raise ParseError('unexpected ' + s)
    m = re.match(r'^discriminant\((.*)\) = (\d+)$', s)
    if m:
        return ('stmt', ('setdiscr', parse_place(m.group(1)), int(m.group(2))))
    # call?
    m = _TARGET.search(s)
    if m and s[:m.start()].rstrip().endswith(')'):
        head = s[:m.start()]
        tg = parse_targets(m.group(1))
        i = head.find(' = ')
        dest = parse_place(head[:i])
        callp = head[i + 3:]
        j = _last_paren(callp)
        func = callp[:j]
        args = [parse_operand(a) for a in split_top(callp[j + 1:-1])]
        return ('term', ('call', dest, func, args, tg.get('return')))
    i = s.find(' = ')
    if i < 0:
        raise ParseError('statement %r' % s)
    return ('stmt', ('assign', parse_place(s[:i]), parse_rvalue(s[i + 3:])))


_FNITEM = re.compile(r"(?:for<[^<>]*> )?(?:unsafe )?(?<![\w])fn\(")


def fn_items(text):
    """functions passed as values become closures that call them, so that they are treated alike"""
    made = {}
    out = []
    for ln in text.split('\n'):
        if 'fn(' in ln and '{' in ln and not ln.startswith('fn '):
            pos = 0
            while True:
                m = _FNITEM.search(ln, pos)
                if not m:
                    break
                e = match_close(ln, m.end() - 1)
                rest = ln[e + 1:]
                ret = '()'
                if rest.startswith(' -> '):
                    k = _typeend(rest, 4)
                    ret, rest = rest[4:k], rest[k:]
                if not rest.startswith(' {'):
                    pos = m.end()
                    continue
                start = len(ln) - len(rest) + 1
                end = match_close(ln, start)
                path = ln[start + 1:end]
                args = split_top(ln[m.end():e])
                key = (path, tuple(args), ret)
                n = made.setdefault(key, len(made))
                new = '{closure@fnitem:%d}' % n
                ln = ln[:m.start()] + new + re.sub(r'(?<=[(,] |.\()(?:const )?' + re.escape(path) + r'(?=[,)])', 'const ' + new, ln[end + 1:])
                pos = m.start() + len(new)
        out.append(ln)
    for (path, args, ret), n in made.items():
        ps = ', '.join('_%d: %s' % (j + 2, t) for j, t in enumerate(args))
        ops = ', '.join('move _%d' % (j + 2) for j in range(len(args)))
        last = strip_generics(path).split('::')
        out.append('fn fnitem::f%d::{closure#0}(_1: {closure@fnitem:%d}%s) -> %s {' % (n, n, ', ' + ps if ps else '', ret))
        out.append('    let mut _0: %s;' % ret)
        if last[-1][:1].isupper():
            out += ['    bb0: {', '        _0 = %s(%s);' % (path, ops), '        return;', '    }', '}', '']
        else:
            out += ['    bb0: {', '        _0 = %s(%s) -> [return: bb1, unwind continue];' % (path, ops), '    }', '', '    bb1: {', '        return;', '    }', '}', '']
    return '\n'.join(out)


def _typeend(s, i):
    """end of the type that starts at s[i] and is followed by ' {'"""
    d = 0
    while i < len(s):
        c = s[i]
        if c in '<([':
            d += 1
        elif c in ')]' or c == '>' and s[i - 1] != '-':
            if d == 0:
                return i
            d -= 1
        elif d == 0 and (s.startswith(' {', i) or c == ','):
            return i
        i += 1
    return i


def parse_mir(text):
    """-> (list of Fn, alloc dict name->bytes text)"""
    text = fn_items(text)
    fns = []
    lines = text.split('\n')
    i, n = 0, len(lines)
    allocs = {}
    simple = {}
    while i < n:
        ln = lines[i]
        if ln.startswith('alloc') and ln.endswith('{'):
            m = re.match(r'(alloc\d+) \((.*)\)', ln)
            body = []
            i += 1
            while not lines[i].startswith('}'):
                body.append(lines[i])
                i += 1
            if m:
                allocs[m.group(1)] = '\n'.join(body)
            i += 1
            continue
        if ln.startswith(' ') or not ln or ln.startswith('//') or ln.startswith('}'):
            i += 1
            continue
        if ln.endswith('{'):
            start = i
            j = i + 1
            while lines[j] != '}':
                j += 1
            fns.append(_parse_fn(ln, lines[start + 1:j]))
            i = j + 1
            continue
        m = re.match(r'(?:const|static|static mut) (.*?): ([^=]*) = (const .*);$', ln)
        if m:
            simple[m.group(1)] = m.group(3)[6:]
        i += 1
    return fns, allocs, simple


def _parse_fn(header, body):
    f = Fn()
    h = header[:-1].strip()
    f.header = h
    f.locals = {}
    f.debug = {}
    f.blocks = {}
    f.cleanup = set()
    f.impl = None
    if h.startswith('fn '):
        f.kind = 'fn'
        # path up to the argument list: the '(' at top level that starts '(_1:' or '()'
        k = _argparen(h)
        f.path = h[3:k]
        e = match_close(h, k)
        args = split_top(h[k + 1:e])
        f.argtys = []
        for a in args:
            m = re.match(r'_(\d+): (.*)$', a, re.S)
            f.locals[int(m.group(1))] = m.group(2)
            f.argtys.append(m.group(2))
        f.nargs = len(args)
        f.ret = h[e + 1:].strip()[3:].strip()
        f.locals[0] = f.ret
    else:
        m = re.match(r'(const|static mut|static)? ?(.*) =$', h, re.S)
        f.kind = m.group(1) or 'const'
        full = m.group(2)
        # path: type  (split at the last top-level ': ')
        k = _toplevel_colon(full)
        f.path, f.ret = full[:k], full[k + 2:]
        f.nargs = 0
        f.argtys = []
        f.locals[0] = f.ret
    cur = None
    depth = 0
    for ln in body:
        s = ln.strip()
        if not s or s.startswith('//'):
            continue
        if s.startswith('bb') and s.endswith('{'):
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{', s)
            cur = int(m.group(1))
            f.blocks[cur] = ([], None)
            if m.group(2):
                f.cleanup.add(cur)
            continue
        if cur is None or ln.startswith('    }') and s == '}':
            if s.startswith('let '):
                m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
                f.locals[int(m.group(1))] = m.group(2)
            elif s.startswith('debug '):
                m = re.match(r'debug (\S+) => (.*);$', s)
                if m:
                    f.debug.setdefault(m.group(1), []).append(m.group(2))
            if s == '}' and cur is not None:
                cur = None
            continue
        s = s.rstrip(';')
        kind, x = parse_line(s)
        if kind == 'stmt':
            if x[0] != 'nop':
                f.blocks[cur][0].append(x)
        else:
            f.blocks[cur] = (f.blocks[cur][0], x)
    return f


def _argparen(h):
    # find '(_1: ' or '()' at angle depth 0 after 'fn '
    depth = 0
    i = 3
    while i < len(h):
        c = h[i]
        if c in '<[{':
            depth += 1
        elif c in ']}' or (c == '>' and h[i - 1] not in '-='):
            depth -= 1
        elif c == '(' and depth == 0:
            return i
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        i += 1
    raise ParseError(h)


def _toplevel_colon(s):
    depth = 0
    for i, c in enumerate(s):
        if c in '<[{(':
            depth += 1
        elif c in ']})' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
        elif c == ':' and depth == 0 and s[i:i + 2] == ': ':
            return i
    raise ParseError(s)


# ---------------------------------------------------------------- types and names

def strip_generics(path):
    """Drop every ::<..> and <..> argument list of a path, keeping `<impl ..>` and `<X as T>`."""
    out, i, n = [], 0, len(path)
    while i < n:
        c = path[i]
        if c == '<':
            e = match_close(path, i)
            inner = path[i:e + 1]
            if (inner.startswith('<impl ') and _impl_segment(path, i, e)) or (' as ' in inner and i == 0):
                out.append(inner)
            else:
                while out and out[-1] == ':':
                    out.pop()
            i = e + 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def _impl_segment(path, i, e):
    """`<impl ..>` at path[i..e] is a path segment (core::f32::<impl f32>::abs), not the argument of an
    `impl Trait` generic (Archive::<impl Read>::read)"""
    if path.startswith('<impl at ', i):
        return True
    if not path.startswith('::', e + 1):
        return False
    m = re.search(r'(\w+)::$', path[:i])
    return not m or m.group(1)[0].islower() or m.group(1)[0] == '_'


def type_head(t):
    """last path segment of a type without references and generics: `&mut a::B<C>` -> 'B'"""
    t = t.strip()
    while True:
        m = re.match(r"(&(?:'\w+ )?(?:mut )?|\*const |\*mut )", t)
        if not m:
            break
        t = t[m.end():].strip()
    if t.startswith(('[', '(', '{')):
        return t
    if t.startswith('<'):
        return t
    return strip_generics(t).split('::')[-1].strip()


def type_args(t):
    i = t.find('<')
    if i < 0:
        return []
    e = match_close(t, i)
    return [a for a in split_top(t[i + 1:e]) if not a.startswith("'")]

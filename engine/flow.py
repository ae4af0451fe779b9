"""Inlining and a forward abstract interpreter over MIR.

The interpreter runs one join-over-paths dataflow to a fixpoint: each block has one abstract state mapping
access paths to symbolic values, joins introduce φ symbols, infeasible constant branches are cut.  No path
is enumerated and nothing is handed to a solver."""
import re
import sys

import mir
from mir import strip_generics, type_head, type_args, split_top, match_close
from expr import *
import expr as X
from program import unify, clean_type

sys.setrecursionlimit(20000)

SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8,
         # crate / glam types; every entry is re-proved by compile-time assertions in checks that rely on it
         'SoaVec3': 48, 'SoaQuat': 64, 'SoaTransform': 160, 'Float3Key': 6, 'QuaternionKey': 6,
         'InterpSoaFloat3': 128, 'InterpSoaQuaternion': 160, 'Simd<f32, 4>': 16, 'Mat4': 64, 'Vec3': 12, 'Vec2': 8}

ALIGNS = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4,
          'SoaVec3': 16, 'SoaQuat': 16, 'SoaTransform': 16, 'Float3Key': 2, 'QuaternionKey': 2,
          'InterpSoaFloat3': 16, 'InterpSoaQuaternion': 16}

INT = {'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'u128', 'i128', 'char'}
UBITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'bool': 1}
IBITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}


class TooBig(Exception):
    pass


class Body:
    """an inlined body"""

    def __init__(self):
        self.blocks = {}     # id -> (stmts, term)
        self.ctx = {}        # id -> (fn key, call chain tuple)
        self.types = {}      # local -> type
        self.entry = 0
        self.nargs = 0
        self.inlined = {}    # key -> number of inlined copies
        self.opaque = {}
        self.fn = None


def subst_type(t, sub):
    if not sub or not t:
        return t
    for k in sorted(sub, key=len, reverse=True):
        if k.startswith('impl '):
            t = t.replace(k, sub[k])
        else:
            t = re.sub(r'(?<![\w:])%s(?!\w)' % re.escape(k), lambda m: sub[k], t)
    return t


_STRUCT_FIELDS = {}


def struct_fields(prog):
    """struct head -> field names by index, learnt from the aggregates the compiler prints and, for types the
    crate never builds by name, from the definitions in the source"""
    if id(prog) in _STRUCT_FIELDS:
        return _STRUCT_FIELDS[id(prog)]
    out = {}
    for f in prog.fns:
        for b, (st, t) in f.blocks.items():
            for s in st:
                if s[0] == 'assign' and s[2][0] == 'agg' and s[2][2]:
                    h = type_head(s[2][1]) if not s[2][1].startswith('{') else s[2][1]
                    out.setdefault(h, s[2][2])
    import os
    from program import REPO
    for base, _, files in os.walk(os.path.join(REPO, 'src')):
        for fn in files:
            txt = open(os.path.join(base, fn)).read()
            for m in re.finditer(r'\bstruct (\w+)(<[^{;(]*>)?\s*(?:where[^{]*)?\{(.*?)\n\}', txt, re.S):
                if m.group(1) in out:
                    continue
                names = re.findall(r'^\s*(?:pub(?:\([^)]*\))? )?(\w+)\s*:', m.group(3), re.M)
                out[m.group(1)] = names
    _STRUCT_FIELDS[id(prog)] = out
    return out


class Inliner:
    def __init__(self, prog, opaque=None, depth=14, max_blocks=60000):
        self.prog = prog
        self.opaque = opaque or (lambda key, fn: False)
        self.depth = depth
        self.max_blocks = max_blocks

    def build(self, fn, sub=None):
        b = Body()
        b.fn = fn
        b.nargs = fn.nargs
        self.b = b
        self.nl = 0
        self.nb = 0
        self.active = []
        self.csubs = {}
        entry, base, _ = self._copy(fn, sub or {}, (), None, None)
        b.entry = entry
        assert base == 0
        self._merge_heads(b)
        return b

    def _merge_heads(self, b):
        """a loop header that only leads to the header of an inner loop (the search of a filter) is copied into its
        predecessors: the two loops become one"""
        def succ(x):
            t = b.blocks[x][1] if x in b.blocks else ('return',)
            return {'goto': lambda: [t[1]], 'switch': lambda: [y for _, y in t[2]] + ([t[3]] if t[3] is not None else []), 'assert': lambda: [t[5]],
                    'drop': lambda: [t[2]], 'call': lambda: [t[7]]}.get(t[0], lambda: [])()
        for _ in range(20):
            state, heads, preds, stack = {}, set(), {}, [(b.entry, iter(succ(b.entry)))]
            state[b.entry] = 1
            while stack:
                x, it = stack[-1]
                y = next(it, None)
                if y is None:
                    state[x] = 2
                    stack.pop()
                    continue
                if y not in b.blocks:
                    continue
                preds.setdefault(y, set()).add(x)
                if state.get(y) == 1:
                    heads.add(y)
                elif y not in state:
                    state[y] = 1
                    stack.append((y, iter(succ(y))))
            for h in sorted(heads):
                st, t = b.blocks[h]
                if t[0] == 'goto' and t[1] in heads and t[1] != h and len(preds[h]) <= 4 and h != b.entry and all(b.blocks[x][1][0] == 'goto' for x in preds[h]):
                    for x in preds[h]:
                        b.blocks[x] = (b.blocks[x][0] + st, ('goto', t[1]))
                    del b.blocks[h]
                    break
            else:
                return

    # operand types -------------------------------------------------
    def _place_ty(self, types, p):
        t = types.get(p[0], '')
        for pr in p[1]:
            if pr[0] == 'f':
                t = pr[2]
            elif pr[0] == '*':
                t = strip_ref(t)
            elif pr[0] in ('i', 'ci'):
                t = elem_ty(t)
        return t

    def _op_ty(self, types, op):
        if op[0] in ('copy', 'move'):
            return self._place_ty(types, op[1])
        return const_ty(op[1])

    def _copy(self, fn, sub, chain, dest, cont):
        """copy fn's blocks; on return assign dest and go to cont. -> (entry block, local offset, ret local)"""
        b = self.b
        lo = self.nl
        nloc = max(fn.locals) + 1
        self.nl += nloc
        for l, t in fn.locals.items():
            b.types[l + lo] = subst_type(t, sub)
        bo = self.nb
        self.nb += max(fn.blocks) + 1
        if self.nb > self.max_blocks:
            raise TooBig('%s: more than %d blocks after inlining' % (fn.key, self.max_blocks))
        for bid, (st, t) in fn.blocks.items():
            if bid in fn.cleanup:
                continue
            nst = [self._rst(s, lo, sub) for s in st]
            nb = bid + bo
            b.ctx[nb] = (fn.key, chain)
            if t is None:
                continue
            k = t[0]
            if k == 'return':
                if cont is None:
                    b.blocks[nb] = (nst, ('return',))
                else:
                    nst.append(('assign', dest, ('use', ('move', (lo, ())))))
                    b.blocks[nb] = (nst, ('goto', cont))
            elif k == 'goto':
                b.blocks[nb] = (nst, ('goto', t[1] + bo))
            elif k == 'switch':
                b.blocks[nb] = (nst, ('switch', self._rop(t[1], lo, sub), [(v, x + bo) for v, x in t[2]],
                                      None if t[3] is None else t[3] + bo))
            elif k == 'assert':
                b.blocks[nb] = (nst, ('assert', self._rop(t[1], lo, sub), t[2], t[3],
                                      [self._rop(o, lo, sub) for o in t[4]], t[5] + bo))
            elif k == 'drop':
                b.blocks[nb] = (nst, ('drop', self._rp(t[1], lo, sub), None if t[2] is None else t[2] + bo))
            elif k == 'call':
                self._call(fn, nb, nst, t, lo, bo, sub, chain)
            else:
                b.blocks[nb] = (nst, t)
        return bo + 0, lo, lo

    def _call(self, fn, nb, nst, t, lo, bo, sub, chain):
        b = self.b
        dest = self._rp(t[1], lo, sub)
        func = subst_type(t[2], sub)
        if func.startswith(('move _', 'copy _')):
            func = 'fnptr'
        args = [self._rop(a, lo, sub) for a in t[3]]
        ret = None if t[4] is None else t[4] + bo
        argtys = [self._op_ty(b.types, a) for a in args]
        dty = self._place_ty(b.types, dest)
        callee = self.prog.resolve(func, argtys, dty)
        name = self.prog.callee_name(func)
        inst = (callee.key, func) if callee is not None else None
        if callee is not None and len(chain) < self.depth and inst not in self.active and callee is not fn \
                and not self.opaque(callee.key, callee):
            self.active.append(inst)
            self._inline(callee, func, name, args, argtys, dest, dty, ret, nb, nst, chain + (fn.key,), b)
            self.active.pop()
            return
        if callee is None and len(chain) < self.depth and \
                Desugar(self, sub, chain + (fn.key,)).call(name, func, args, argtys, dest, dty, ret, nb, nst):
            return
        if callee is None:
            # external callee that receives a crate closure: may run it any number of times
            cl = [(i, self.prog.closures.get(_clty(a))) for i, a in enumerate(argtys) if '{closure@' in (a or '')]
            cl = [(i, c) for i, c in cl if c is not None]
            if cl and len(chain) < self.depth and not self.opaque(cl[0][1].key, cl[0][1]):
                i, c = cl[0]
                self._closure_loop(c, i, args, argtys, dest, func, name, ret, nb, nst, chain + (fn.key,), t)
                return
        if callee is not None:
            b.opaque[callee.key] = b.opaque.get(callee.key, 0) + 1
        b.blocks[nb] = (nst, ('call', dest, func, name, args, argtys, dty, ret, callee))

    def _inline(self, callee, func, name, args, argtys, dest, dty, ret, nb, nst, chain, b):
        csub = {}
        # closure calls spread a tuple
        if name.startswith('<{closure@') or callee.argtys and '{closure@' in callee.argtys[0]:
            clo, tup = args[0], args[1] if len(args) > 1 else None
            nargs = [clo]
            if callee.argtys and callee.argtys[0].startswith('&') and not argtys[0].startswith('&'):
                tmp = self._tmp(callee.argtys[0])
                nst.append(('assign', (tmp, ()), ('ref', 'mut', clo[1])))
                nargs = [('move', (tmp, ()))]
            tt = split_top(argtys[1][1:-1]) if tup is not None and argtys[1].startswith('(') else []
            for i in range(callee.nargs - 1):
                if tup[0] == 'const':
                    nargs.append(tup)
                else:
                    nargs.append(('move', (tup[1][0], tup[1][1] + (('f', i, tt[i] if i < len(tt) else '?'),))))
            args = nargs
            argtys = [argtys[0]] + tt
        for p, a in zip(callee.argtys, argtys):
            unify(p, a or '?', csub)
        if dty:
            unify(callee.ret, dty, csub)
        m = re.match(r'^<(.*)>::\w+', func)
        if func.startswith('<'):
            e = match_close(func, 0)
            inner = func[1:e]
            from program import _find_as
            k = _find_as(inner)
            if k > 0:
                csub['Self'] = inner[:k]
                # trait type arguments bind the trait's own parameters (ArchiveRead<T>)
                if callee.impl is None:
                    ta = type_args(inner[k + 4:])
                    if len(ta) == 1 and 'T' not in csub:
                        csub['T'] = ta[0]
        elif callee.impl and not callee.impl.get('trait') and '<' in (callee.impl.get('self') or ''):
            own = callee.impl['self']
            mo = re.search(r'(?:^|::)%s::<' % re.escape(own.split('<')[0].split('::')[-1]), func)
            if mo:
                e = match_close(func, mo.end() - 1)
                for p, a in zip(split_top(own[own.index('<') + 1:-1]), split_top(func[mo.end():e])):
                    if re.match(r'^[A-Z]\w*$', p):
                        csub.setdefault(p, a)
        # explicit turbofish at the end
        mm = re.search(r'::<([^<>]*(?:<.*>)?[^<>]*)>$', func)
        csub = {k: v for k, v in csub.items() if k != v and v}
        b.inlined[callee.key] = b.inlined.get(callee.key, 0) + 1
        lo_before = self.nl
        centry, clo, cret = self._copy(callee, csub, chain, dest, ret if ret is not None else -1)
        for i, a in enumerate(args):
            nst.append(('assign', (clo + 1 + i, ()), ('use', a)))
        b.blocks[nb] = (nst, ('goto', centry))

    def _closure_loop(self, c, ci, args, argtys, dest, func, name, ret, nb, nst, chain, t):
        b = self.b
        head = self.nb
        body = self.nb + 1
        post = self.nb + 2
        self.nb += 3
        fkey = chain[-1]
        for x in (head, body, post):
            b.ctx[x] = (fkey, chain[:-1])
        if name.endswith(' as Iterator>::for_each') and ci == 1 and args[0][0] != 'const':
            # iter.for_each(f)  ==  while let Some(x) = iter.next() { f(x) }
            item = c.argtys[1] if len(c.argtys) > 1 else '?'
            itl = self._tmp(argtys[0])
            itr = self._tmp('&mut ' + argtys[0])
            opt = self._tmp('std::option::Option<%s>' % item)
            dsc = self._tmp('isize')
            sw = self.nb
            self.nb += 1
            b.ctx[sw] = (fkey, chain[:-1])
            nst.append(('assign', (itl, ()), ('use', args[0])))
            b.blocks[nb] = (nst, ('goto', head))
            nname = name.replace('::for_each', '::next')
            b.blocks[head] = ([('assign', (itr, ()), ('ref', 'mut', (itl, ())))],
                              ('call', (opt, ()), nname, nname, [('move', (itr, ()))], ['&mut ' + argtys[0]],
                               b.types[opt], sw, None))
            b.blocks[sw] = ([('assign', (dsc, ()), ('discr', (opt, ())))],
                            ('switch', ('move', (dsc, ())), [(0, post)], body))
            bst = []
            first = args[ci]
            if first[0] != 'const' and c.argtys[0].startswith('&') and not argtys[ci].startswith('&'):
                tmp = self._tmp(c.argtys[0])
                bst.append(('assign', (tmp, ()), ('ref', 'mut', first[1])))
                first = ('move', (tmp, ()))
            elif first[0] != 'const':
                first = ('copy', first[1])
            b.inlined[c.key] = b.inlined.get(c.key, 0) + 1
            rl = self._tmp(c.ret)
            centry, lo, _ = self._copy(c, {}, chain, (rl, ()), head)
            bst.append(('assign', (lo + 1, ()), ('use', first)))
            if c.nargs > 1:
                bst.append(('assign', (lo + 2, ()), ('use', ('move', (opt, (('v', 'Some'), ('f', 0, item)))))))
            b.blocks[body] = (bst, ('goto', centry))
            dty = self._place_ty(b.types, dest)
            b.blocks[post] = ([('assign', dest, ('use', ('const', '()')))], ('goto', ret))
            return
        b.blocks[nb] = (nst, ('goto', head))
        b.blocks[head] = ([], ('switch', ('const', 'nondet#%d' % head), [(0, post)], body))
        # unknown parameters
        bst = []
        clo = args[ci]
        if clo[0] != 'const' and c.argtys[0].startswith('&') and not argtys[ci].startswith('&'):
            tmp = self._tmp(c.argtys[0])
            bst.append(('assign', (tmp, ()), ('ref', 'mut', clo[1])))
            first = ('move', (tmp, ()))
        else:
            first = clo if clo[0] == 'const' else ('copy', clo[1])
        csub = {}
        b.inlined[c.key] = b.inlined.get(c.key, 0) + 1
        rl = self._tmp(c.ret)
        centry, lo, _ = self._copy(c, csub, chain, (rl, ()), head)
        bst.append(('assign', (lo + 1, ()), ('use', first)))
        recv = [a for i, a in enumerate(args) if i != ci]
        for i in range(1, c.nargs):
            bst.append(('assign', (lo + 1 + i, ()), ('closure_param', name, i, recv)))
        b.blocks[body] = (bst, ('goto', centry))
        dty = self._place_ty(b.types, dest)
        b.blocks[post] = ([], ('call', dest, func, name, args, argtys, dty, ret, None))

    def _tmp(self, ty):
        l = self.nl
        self.nl += 1
        self.b.types[l] = ty
        return l

    # renaming --------------------------------------------------------
    def _rp(self, p, lo, sub):
        return (p[0] + lo, tuple(
            ('i', x[1] + lo) if x[0] == 'i' else (('f', x[1], subst_type(x[2], sub)) if x[0] == 'f' else x) for x in p[1]))

    def _rop(self, o, lo, sub):
        if o[0] in ('copy', 'move'):
            return (o[0], self._rp(o[1], lo, sub))
        return ('const', subst_type(o[1], sub))

    def _rst(self, s, lo, sub):
        k = s[0]
        if k == 'assign':
            return ('assign', self._rp(s[1], lo, sub), self._rrv(s[2], lo, sub))
        if k in ('live', 'dead'):
            return (k, s[1] + lo)
        if k == 'setdiscr':
            return (k, self._rp(s[1], lo, sub), s[2])
        return s

    def _rrv(self, r, lo, sub):
        k = r[0]
        if k in ('use',):
            return ('use', self._rop(r[1], lo, sub))
        if k in ('ref', 'raw'):
            return (k, r[1], self._rp(r[2], lo, sub))
        if k == 'bin':
            return (k, r[1], self._rop(r[2], lo, sub), self._rop(r[3], lo, sub))
        if k == 'un':
            return (k, r[1], self._rop(r[2], lo, sub))
        if k in ('discr', 'len'):
            return (k, self._rp(r[1], lo, sub))
        if k == 'cast':
            return (k, r[1], self._rop(r[2], lo, sub), subst_type(r[3], sub))
        if k == 'agg':
            if r[1].startswith('{closure@'):
                self.csubs[_clty(r[1])] = sub
            return (k, subst_type(r[1], sub), r[2], [self._rop(o, lo, sub) for o in r[3]])
        if k == 'repeat':
            return (k, self._rop(r[1], lo, sub), r[2])
        return r


class Desugar:
    """Iterator adaptors and Option/Result combinators that take a crate closure, written out as the control flow
    they stand for."""
    ADAPT = {'map': ('Map', ('it', 'f')), 'filter': ('Filter', ('it', 'f')), 'filter_map': ('FilterMap', ('it', 'f')),
             'take_while': ('TakeWhile', ('it', 'f')), 'inspect': ('Inspect', ('it', 'f')), 'enumerate': ('Enumerate', ('it', 'n')),
             'zip': ('Zip', ('a', 'b')), 'copied': ('Copied', ('it',)), 'cloned': ('Cloned', ('it',)), 'take': ('Take', ('it', 'n')),
             'rev': ('Rev', ('it',))}
    CONSUME = ('for_each', 'all', 'any', 'fold', 'collect', 'count', 'find', 'position', 'sum', 'try_for_each')

    def __init__(self, inl, sub, chain):
        self.i, self.b, self.sub, self.chain = inl, inl.b, sub, chain

    # ---------------------------------------------------------- assembler
    def blk(self):
        x = self.i.nb
        self.i.nb += 1
        self.b.ctx[x] = (self.chain[-1], self.chain[:-1])
        return x

    def put(self, x, stmts, term):
        self.b.blocks[x] = (list(stmts), term)

    def tmp(self, ty):
        return self.i._tmp(ty)

    def closure(self, ty):
        return self.i.prog.closures.get(_clty(ty)) if '{closure@' in (ty or '') else None

    def invoke(self, c, cty, fplace, params, dest, cont, x, pre=()):
        """in block x: dest = (*fplace)(params); goto cont.  fplace: a place holding the closure (or a reference), or a constant"""
        i = self.i
        i.b.inlined[c.key] = i.b.inlined.get(c.key, 0) + 1
        i.active.append((c.key, None))
        centry, lo, _ = i._copy(c, i.csubs.get(_clty(cty), self.sub), self.chain, dest, cont)
        i.active.pop()
        st = list(pre)
        if fplace[0] == 'const':
            st.append(('assign', (lo + 1, ()), ('use', fplace)))
        elif c.argtys[0].startswith('&') and not cty.startswith('&'):
            st.append(('assign', (lo + 1, ()), ('ref', 'mut', fplace[1])))
        else:
            st.append(('assign', (lo + 1, ()), ('use', ('copy', fplace[1]))))
        for j, p in enumerate(params):
            st.append(('assign', (lo + 2 + j, ()), ('use', p)))
        self.put(x, st, ('goto', centry))

    def some(self, op, ty):
        return ('agg', 'std::option::Option::<%s>::Some' % ty, None, [op])

    def none(self, ty):
        return ('agg', 'std::option::Option::<%s>::None' % ty, None, [])

    # ---------------------------------------------------------- types
    def head(self, ty):
        return type_head(ty).split('::')[-1] if not ty.startswith(('&', '(', '[', '{')) else ''

    def item(self, ty):
        h = self.head(ty)
        a = type_args(ty) if '<' in ty else []
        a = [x for x in a if not x.startswith("'")]
        if h == 'Map':
            c = self.closure(a[1])
            return c.ret if c else '?'
        if h in ('Filter', 'TakeWhile', 'Inspect', 'Take', 'Rev', 'Skip', 'StepBy', 'Peekable'):
            return self.item(a[0])
        if h == 'FilterMap':
            c = self.closure(a[1])
            return type_args(c.ret)[0] if c else '?'
        if h == 'Enumerate':
            return '(usize, %s)' % self.item(a[0])
        if h == 'Zip':
            return '(%s, %s)' % (self.item(a[0]), self.item(a[1]))
        if h in ('Copied', 'Cloned'):
            return strip_ref(self.item(a[0]))
        if h in ('Range', 'RangeInclusive'):
            return a[0]
        if h == 'Iter':
            return '&' + a[0]
        if h == 'IterMut':
            return '&mut ' + a[0]
        return '?'

    def clos(self, ty):
        return '{closure@' in ty

    def ok(self, ty):
        """can next() on this iterator type be written out?"""
        if not self.clos(ty):
            return not ty.startswith('{') and ty != '?'
        h = self.head(ty)
        if h not in ('Map', 'Filter', 'FilterMap', 'TakeWhile', 'Inspect', 'Enumerate', 'Zip', 'Copied', 'Cloned', 'Take', 'Rev'):
            return False
        a = [x for x in type_args(ty) if not x.startswith("'")]
        if h in ('Map', 'Filter', 'FilterMap', 'TakeWhile', 'Inspect'):
            c = self.closure(a[1]) if a[1].startswith('{closure@') else None
            return c is not None and self.ok(a[0]) and not self.i.opaque(c.key, c)
        if h == 'Zip':
            return self.ok(a[0]) and self.ok(a[1])
        return self.ok(a[0])

    # ---------------------------------------------------------- next
    def next(self, place, ty, dest, cont, back=False):
        """-> entry block of code that puts place.next() into dest and goes to cont"""
        x = self.blk()
        it = self.item(ty)
        h = self.head(ty)
        a = [y for y in type_args(ty) if not y.startswith("'")] if '<' in ty else []
        f = lambda n, t: (place[0], place[1] + (('f', n, t),))
        if not self.clos(ty):
            r = self.tmp('&mut ' + ty)
            nm = '<%s as %s>::%s' % (h, 'DoubleEndedIterator' if back else 'Iterator', 'next_back' if back else 'next')
            self.put(x, [('assign', (r, ()), ('ref', 'mut', place))],
                     ('call', dest, nm, nm, [('move', (r, ()))], ['&mut ' + ty], 'std::option::Option<%s>' % it, cont, None))
            return x
        if h == 'Rev':
            self.put(x, [], ('goto', self.next(f('it', a[0]), a[0], dest, cont, not back)))
            return x
        if h == 'Take':
            n = f('n', 'usize')
            z = self.tmp('bool')
            go, no = self.blk(), self.blk()
            self.put(x, [('assign', (z, ()), ('bin', 'Eq', ('copy', n), ('const', '0_usize')))], ('switch', ('move', (z, ())), [(0, go)], no))
            self.put(no, [('assign', dest, self.none(it))], ('goto', cont))
            self.put(go, [('assign', n, ('bin', 'Sub', ('copy', n), ('const', '1_usize')))], ('goto', self.next(f('it', a[0]), a[0], dest, cont, back)))
            return x
        if h == 'Zip':
            ia, ib = self.item(a[0]), self.item(a[1])
            oa, ob = self.tmp('std::option::Option<%s>' % ia), self.tmp('std::option::Option<%s>' % ib)
            s1, s2, yes, no = self.blk(), self.blk(), self.blk(), self.blk()
            self.put(x, [], ('goto', self.next(f('a', a[0]), a[0], (oa, ()), s1, back)))
            self.switch(s1, oa, no, self.next(f('b', a[1]), a[1], (ob, ()), s2, back))
            self.switch(s2, ob, no, yes)
            t = self.tmp(it)
            pa, pb = ('move', (oa, (('v', 'Some'), ('f', 0, ia)))), ('move', (ob, (('v', 'Some'), ('f', 0, ib))))
            self.put(yes, [('assign', (t, ()), ('agg', '()', None, [pa, pb])), ('assign', dest, self.some(('move', (t, ())), it))], ('goto', cont))
            self.put(no, [('assign', dest, self.none(it))], ('goto', cont))
            return x
        inner = a[0]
        ii = self.item(inner)
        o = self.tmp('std::option::Option<%s>' % ii)
        sw, yes, no = self.blk(), self.blk(), self.blk()
        n0 = self.next(f('it', inner), inner, (o, ()), sw, back)
        self.put(x, [], ('goto', n0))
        self.switch(sw, o, no, yes)
        self.put(no, [('assign', dest, self.none(it))], ('goto', cont))
        p = (o, (('v', 'Some'), ('f', 0, ii)))
        if h == 'Enumerate':
            n = f('n', 'usize')
            t = self.tmp(it)
            self.put(yes, [('assign', (t, ()), ('agg', '()', None, [('copy', n), ('move', p)])), ('assign', n, ('bin', 'Add', ('copy', n), ('const', '1_usize'))),
                           ('assign', dest, self.some(('move', (t, ())), it))], ('goto', cont))
            return x
        if h in ('Copied', 'Cloned'):
            self.put(yes, [('assign', dest, self.some(('copy', (p[0], p[1] + (('*',),))), it))], ('goto', cont))
            return x
        c = self.closure(a[1])
        fp = ('copy', f('f', a[1]))
        if h == 'Map':
            r = self.tmp(it)
            done = self.blk()
            self.invoke(c, a[1], fp, [('move', p)], (r, ()), done, yes)
            self.put(done, [('assign', dest, self.some(('move', (r, ())), it))], ('goto', cont))
        elif h == 'FilterMap':
            done = self.blk()
            r = self.tmp(c.ret)
            y2 = self.blk()
            self.invoke(c, a[1], fp, [('move', p)], (r, ()), done, yes)
            self.switch(done, r, x, y2)
            self.put(y2, [('assign', dest, ('use', ('move', (r, ()))))], ('goto', cont))
        else:
            ref = self.tmp('&' + ii)
            r = self.tmp(c.ret)
            done, y2, n2 = self.blk(), self.blk(), self.blk()
            self.invoke(c, a[1], fp, [('copy', (ref, ()))], (r, ()), done, yes, [('assign', (ref, ()), ('ref', '', p))])
            if h == 'Inspect':
                self.put(done, [], ('goto', y2))
            else:
                self.put(done, [], ('switch', ('move', (r, ())), [(0, x if h == 'Filter' else n2)], y2))
                self.put(n2, [('assign', dest, self.none(it))], ('goto', cont))
            self.put(y2, [('assign', dest, self.some(('move', p), it))], ('goto', cont))
        return x

    def switch(self, x, opt, no, yes):
        """Option in local opt"""
        d = self.tmp('isize')
        self.put(x, [('assign', (d, ()), ('discr', (opt, ())))], ('switch', ('move', (d, ())), [(0, no)], yes))

    # ---------------------------------------------------------- calls
    def call(self, name, func, args, argtys, dest, dty, ret, nb, nst):
        if ret is None or not args:
            return False
        m = name.split('::')[-1]
        if ' as Iterator>' in name or ' as DoubleEndedIterator>' in name:
            return self.iter_call(m, name, args, argtys, dest, dty, ret, nb, nst)
        if (name.startswith('std::option::Option::') or name.startswith('std::result::Result::')):
            return self.opt_call(m, name.startswith('std::option'), args, argtys, dest, dty, ret, nb, nst)
        if m == 'then' and 'bool' in name and len(args) == 2:
            c = self.closure(argtys[1])
            if c is None:
                return False
            yes, no, done = self.blk(), self.blk(), self.blk()
            r = self.tmp(c.ret)
            nst, f = self.hold(args[1], argtys[1], nst)
            self.put(nb, nst, ('switch', args[0], [(0, no)], yes))
            self.put(no, [('assign', dest, self.none(c.ret))], ('goto', ret))
            self.invoke(c, argtys[1], f, [], (r, ()), done, yes)
            self.put(done, [('assign', dest, self.some(('move', (r, ())), c.ret))], ('goto', ret))
            return True
        if m == 'then_some' and 'bool' in name and len(args) == 2 and argtys[1]:
            yes, no = self.blk(), self.blk()
            nst, f = self.hold(args[1], argtys[1], nst)
            self.put(nb, nst, ('switch', args[0], [(0, no)], yes))
            self.put(no, [('assign', dest, self.none(argtys[1]))], ('goto', ret))
            self.put(yes, [('assign', dest, self.some(f, argtys[1]))], ('goto', ret))
            return True
        if m == 'into_iter' and ' as IntoIterator>' in name and self.clos(argtys[0] or '') and self.head(argtys[0]) in Interp.ITERS:
            self.put(nb, nst + [('assign', dest, ('use', args[0]))], ('goto', ret))
            return True
        if m == 'partition_point' and 'slice' in name and len(args) == 2 and (argtys[0] or '').startswith('&['):
            # on sorted data: the first element the predicate rejects
            c = self.closure(argtys[1])
            if c is None or self.i.opaque(c.key, c):
                return False
            e = argtys[0][2:-1]
            ity = "std::slice::Iter<'_, %s>" % e
            nst, f = self.hold(args[1], argtys[1], nst)
            itl, n, r, o = self.tmp(ity), self.tmp('usize'), self.tmp('bool'), self.tmp('std::option::Option<&%s>' % e)
            b1, lp, sw, body, chk, inc, post = (self.blk() for _ in range(7))
            nm = 'core::slice::<impl [%s]>::iter' % e
            self.put(nb, nst, ('call', (itl, ()), nm, nm, [args[0]], [argtys[0]], ity, b1, None))
            self.put(b1, [('assign', (n, ()), ('use', ('const', '0_usize')))], ('goto', lp))
            self.put(lp, [], ('goto', self.next((itl, ()), ity, (o, ()), sw)))
            self.switch(sw, o, post, body)
            self.invoke(c, argtys[1], f, [('move', (o, (('v', 'Some'), ('f', 0, '&' + e))))], (r, ()), chk, body)
            self.put(chk, [], ('switch', ('move', (r, ())), [(0, post)], inc))
            self.put(inc, [('assign', (n, ()), ('bin', 'Add', ('copy', (n, ())), ('const', '1_usize')))], ('goto', lp))
            self.put(post, [('assign', dest, ('use', ('copy', (n, ()))))], ('goto', ret))
            return True
        if m in ('map', 'from_fn') and (m == 'map' and len(args) == 2 or len(args) == 1 and 'array' in name):
            # [a, b, ..].map(f) and array::from_fn(f): f element by element, in order
            at = re.match(r'^\[(.*); (\d+)\]$', (argtys[0] if m == 'map' else dty) or '')
            c = self.closure(argtys[-1])
            if at and c is not None and 0 < int(at.group(2)) <= 16 and not self.i.opaque(c.key, c) and dest is not None:
                n = int(at.group(2))
                nst, f = self.hold(args[-1], argtys[-1], nst)
                src = None
                if m == 'map':
                    if args[0][0] == 'const':
                        return False
                    src = self.tmp(argtys[0])
                    nst = nst + [('assign', (src, ()), ('use', args[0]))]
                x, outs = self.blk(), []
                self.put(nb, nst, ('goto', x))
                for j in range(n):
                    ix, r, nx = self.tmp('usize'), self.tmp(c.ret), self.blk()
                    pre = [('assign', (ix, ()), ('use', ('const', '%d_usize' % j)))]
                    arg = ('copy', (src, (('i', ix),))) if m == 'map' else ('copy', (ix, ()))
                    self.invoke(c, argtys[-1], f, [arg], (r, ()), nx, x, pre)
                    outs.append(('move', (r, ())))
                    x = nx
                self.put(x, [('assign', dest, ('agg', '[]', None, outs))], ('goto', ret))
                return True
        if m in ('extend',) and ' as Extend>' in name and len(args) == 2 and name.startswith('<Vec') and self.clos(argtys[1]) and self.ok(argtys[1]):
            itl, lp, sw, body, post = self.tmp(argtys[1]), self.blk(), self.blk(), self.blk(), self.blk()
            item = self.item(argtys[1])
            o = self.tmp('std::option::Option<%s>' % item)
            self.put(nb, nst + [('assign', (itl, ()), ('use', args[1]))], ('goto', lp))
            self.put(lp, [], ('goto', self.next((itl, ()), argtys[1], (o, ()), sw)))
            self.switch(sw, o, post, body)
            self.push(body, args[0], argtys[0], ('move', (o, (('v', 'Some'), ('f', 0, item)))), item, lp)
            self.put(post, [('assign', dest, ('use', ('const', '()')))], ('goto', ret))
            return True
        return False

    def hold(self, op, ty, nst):
        """the closure operand as a place that survives"""
        if op[0] == 'const':
            return nst, op
        l = self.tmp(ty)
        return nst + [('assign', (l, ()), ('use', op))], ('copy', (l, ()))

    def push(self, x, vecref, vty, op, item, cont):
        """in block x: (*vecref).push(op)"""
        u = self.tmp('()')
        ve = ('copy', vecref[1]) if vecref[0] == 'move' else vecref
        nm = 'std::vec::Vec::<%s>::push' % item
        self.put(x, [], ('call', (u, ()), nm, 'std::vec::Vec::push', [ve, op], [vty, item], '()', cont, None))

    def iter_call(self, m, name, args, argtys, dest, dty, ret, nb, nst):
        t0 = argtys[0] or ''
        if m in self.ADAPT and self.clos(dty or '') and self.ok(dty):
            h, fs = self.ADAPT[m]
            ops = list(args)
            if m == 'enumerate':
                ops.append(('const', '0_usize'))
            if m == 'zip':
                bt = [y for y in type_args(dty) if not y.startswith("'")][1]
                if clean_type(bt) != clean_type(argtys[1]):
                    l = self.tmp(bt)
                    after = self.blk()
                    nm = '<%s as IntoIterator>::into_iter' % (self.head(argtys[1]) or argtys[1])
                    self.put(nb, nst, ('call', (l, ()), nm, nm, [args[1]], [argtys[1]], bt, after, None))
                    nb, nst = after, []
                    ops[1] = ('move', (l, ()))
            self.put(nb, nst + [('assign', dest, ('agg', '$' + h + 'C', list(fs), ops))], ('goto', ret))
            return True
        if m in ('next', 'next_back') and t0.startswith('&mut ') and self.clos(t0):
            ty = strip_ref(t0)
            if not self.ok(ty) or args[0][0] == 'const':
                return False
            pl = (args[0][1][0], args[0][1][1] + (('*',),))
            self.put(nb, nst, ('goto', self.next(pl, ty, dest, ret, m == 'next_back')))
            return True
        if m not in self.CONSUME:
            return False
        byref = t0.startswith('&mut ') and m in ('all', 'any', 'find', 'position', 'try_for_each')
        ty = strip_ref(t0) if byref else t0
        cl = self.closure(argtys[-1]) if len(args) > 1 and (argtys[-1] or '').startswith('{closure@') else None
        if not self.ok(ty) or not (self.clos(ty) or cl is not None):
            return False
        if args[0][0] == 'const':
            return False
        if m in ('for_each', 'all', 'any', 'fold', 'find', 'position', 'try_for_each') and cl is None:
            return False
        item = self.item(ty)
        if item == '?' and cl is not None:
            item = cl.argtys[-1] if m != 'find' else strip_ref(cl.argtys[-1])
        if m == 'collect':
            dt = (dty or '')
            kind = self.head(dt)
            if kind == 'Result' and self.head(type_args(dt)[0]) == 'Vec' and self.head(item) == 'Result':
                elem = type_args(item)[0]
            elif kind == 'Vec':
                elem = item
            else:
                return False
        if m == 'sum' and (dty not in ('f32', 'f64') and not isint_ty(dty or '')):
            return False
        fop = None
        if cl is not None:
            nst, fop = self.hold(args[-1], argtys[-1], nst)
        if byref:
            l = self.tmp(t0)
            nst = nst + [('assign', (l, ()), ('use', args[0]))]
            pl = (l, (('*',),))
        else:
            l = self.tmp(ty)
            nst = nst + [('assign', (l, ()), ('use', args[0]))]
            pl = (l, ())
        o = self.tmp('std::option::Option<%s>' % item)
        lp, sw, body, post = self.blk(), self.blk(), self.blk(), self.blk()
        p = (o, (('v', 'Some'), ('f', 0, item)))
        go = lambda x: self.put(x, [], ('goto', self.next(pl, ty, (o, ()), sw)))
        init = []
        fin = [('assign', dest, ('use', ('const', '()')))]
        if m == 'for_each':
            r = self.tmp('()')
            self.invoke(cl, argtys[-1], fop, [('move', p)], (r, ()), lp, body)
        elif m in ('all', 'any'):
            r = self.tmp('bool')
            chk, early = self.blk(), self.blk()
            self.invoke(cl, argtys[-1], fop, [('move', p)], (r, ()), chk, body)
            self.put(chk, [], ('switch', ('move', (r, ())), [(0, early if m == 'all' else lp)], lp if m == 'all' else early))
            self.put(early, [('assign', dest, ('use', ('const', 'false' if m == 'all' else 'true')))], ('goto', ret))
            fin = [('assign', dest, ('use', ('const', 'true' if m == 'all' else 'false')))]
        elif m == 'fold':
            acc = self.tmp(dty)
            init = [('assign', (acc, ()), ('use', args[1]))]
            r = self.tmp(dty)
            back = self.blk()
            self.invoke(cl, argtys[-1], fop, [('copy', (acc, ())), ('move', p)], (r, ()), back, body)
            self.put(back, [('assign', (acc, ()), ('use', ('move', (r, ()))))], ('goto', lp))
            fin = [('assign', dest, ('use', ('move', (acc, ()))))]
        elif m == 'find':
            ref = self.tmp('&' + item)
            r = self.tmp('bool')
            chk, early = self.blk(), self.blk()
            self.invoke(cl, argtys[-1], fop, [('copy', (ref, ()))], (r, ()), chk, body, [('assign', (ref, ()), ('ref', '', p))])
            self.put(chk, [], ('switch', ('move', (r, ())), [(0, lp)], early))
            self.put(early, [('assign', dest, self.some(('move', p), item))], ('goto', ret))
            fin = [('assign', dest, self.none(item))]
        elif m == 'position':
            n = self.tmp('usize')
            init = [('assign', (n, ()), ('use', ('const', '0_usize')))]
            r = self.tmp('bool')
            chk, early, inc = self.blk(), self.blk(), self.blk()
            self.invoke(cl, argtys[-1], fop, [('move', p)], (r, ()), chk, body)
            self.put(chk, [], ('switch', ('move', (r, ())), [(0, inc)], early))
            self.put(inc, [('assign', (n, ()), ('bin', 'Add', ('copy', (n, ())), ('const', '1_usize')))], ('goto', lp))
            self.put(early, [('assign', dest, self.some(('copy', (n, ())), 'usize'))], ('goto', ret))
            fin = [('assign', dest, self.none('usize'))]
        elif m == 'try_for_each':
            if self.head(cl.ret) != 'Result':
                return False
            r = self.tmp(cl.ret)
            chk, early = self.blk(), self.blk()
            self.invoke(cl, argtys[-1], fop, [('move', p)], (r, ()), chk, body)
            d = self.tmp('isize')
            self.put(chk, [('assign', (d, ()), ('discr', (r, ())))], ('switch', ('move', (d, ())), [(0, lp)], early))
            self.put(early, [('assign', dest, ('use', ('move', (r, ()))))], ('goto', ret))
            u = self.tmp('()')
            fin = [('assign', (u, ()), ('use', ('const', '()'))), ('assign', dest, ('agg', 'std::result::Result::Ok', None, [('move', (u, ()))]))]
        elif m == 'count':
            n = self.tmp('usize')
            init = [('assign', (n, ()), ('use', ('const', '0_usize')))]
            self.put(body, [('assign', (n, ()), ('bin', 'Add', ('copy', (n, ())), ('const', '1_usize')))], ('goto', lp))
            fin = [('assign', dest, ('use', ('copy', (n, ()))))]
        elif m == 'sum':
            acc = self.tmp(dty)
            init = [('assign', (acc, ()), ('use', ('const', '0_%s' % dty if isint_ty(dty) else '0_' + dty)))]
            self.put(body, [('assign', (acc, ()), ('bin', 'Add', ('copy', (acc, ())), ('move', p)))], ('goto', lp))
            fin = [('assign', dest, ('use', ('copy', (acc, ()))))]
        elif m == 'collect':
            vt = 'std::vec::Vec<%s>' % elem
            v = self.tmp(vt)
            vr = self.tmp('&mut ' + vt)
            st2 = self.blk()
            self.put(nb, nst, ('call', (v, ()), 'std::vec::Vec::<%s>::new' % elem, 'std::vec::Vec::new', [], [], vt, st2, None))
            self.put(st2, [], ('goto', lp))
            go(lp)
            self.switch(sw, o, post, body)
            if kind == 'Vec':
                b2 = self.blk()
                self.put(body, [('assign', (vr, ()), ('ref', 'mut', (v, ())))], ('goto', b2))
                self.push(b2, ('move', (vr, ())), '&mut ' + vt, ('move', p), elem, lp)
                self.put(post, [('assign', dest, ('use', ('move', (v, ()))))], ('goto', ret))
            else:
                b2, b3, early = self.blk(), self.blk(), self.blk()
                d = self.tmp('isize')
                self.put(body, [('assign', (d, ()), ('discr', p))], ('switch', ('move', (d, ())), [(0, b2)], early))
                et = type_args(item)[1]
                self.put(early, [('assign', dest, ('agg', 'std::result::Result::Err', None, [('move', (p[0], p[1] + (('v', 'Err'), ('f', 0, et))))]))], ('goto', ret))
                self.put(b2, [('assign', (vr, ()), ('ref', 'mut', (v, ())))], ('goto', b3))
                self.push(b3, ('move', (vr, ())), '&mut ' + vt, ('move', (p[0], p[1] + (('v', 'Ok'), ('f', 0, elem)))), elem, lp)
                self.put(post, [('assign', dest, ('agg', 'std::result::Result::Ok', None, [('move', (v, ()))]))], ('goto', ret))
            return True
        self.put(nb, nst + init, ('goto', lp))
        go(lp)
        self.switch(sw, o, post, body)
        self.put(post, fin, ('goto', ret))
        return True

    def opt_call(self, m, isopt, args, argtys, dest, dty, ret, nb, nst):
        cls = [(j, self.closure(t)) for j, t in enumerate(argtys) if (t or '').startswith('{closure@')]
        if len(cls) != 1 or cls[0][1] is None or self.i.opaque(cls[0][1].key, cls[0][1]):
            return False
        j, c = cls[0]
        good, bad = ('Some', 'None') if isopt else ('Ok', 'Err')
        t0 = argtys[0] or ''
        ta = type_args(t0) if '<' in t0 else []
        if not ta:
            return False
        path = 'std::option::Option' if isopt else 'std::result::Result'
        if m not in ('map', 'and_then', 'map_or', 'is_some_and', 'is_ok_and', 'unwrap_or_else', 'ok_or_else', 'or_else', 'map_err'):
            return False
        l = self.tmp(t0)
        nst = nst + [('assign', (l, ()), ('use', args[0]))]
        nst, fop = self.hold(args[j], argtys[j], nst)
        d = self.tmp('isize')
        yes, no, done = self.blk(), self.blk(), self.blk()
        gv, bv = (yes, no)
        nst = nst + [('assign', (d, ()), ('discr', (l, ())))]
        none_is = 0 if isopt else 1
        self.put(nb, nst, ('switch', ('move', (d, ())), [(none_is, no)], yes))
        x = ('move', (l, (('v', good), ('f', 0, ta[0]))))
        e = None if isopt else ('move', (l, (('v', 'Err'), ('f', 0, ta[1] if len(ta) > 1 else '?'))))
        fail = ('agg', path + '::' + bad, None, [] if isopt else [e])
        if m in ('map', 'and_then', 'map_or', 'is_some_and', 'is_ok_and'):
            r = self.tmp(c.ret)
            self.invoke(c, argtys[j], fop, [x], (r, ()), done, yes)
            if m == 'map':
                self.put(done, [('assign', dest, ('agg', path + '::' + good, None, [('move', (r, ()))]))], ('goto', ret))
            else:
                self.put(done, [('assign', dest, ('use', ('move', (r, ()))))], ('goto', ret))
            f = {'map': fail, 'and_then': fail, 'map_or': ('use', args[1]), 'is_some_and': ('use', ('const', 'false')), 'is_ok_and': ('use', ('const', 'false'))}[m]
            self.put(no, [('assign', dest, f)], ('goto', ret))
            return True
        r = self.tmp(c.ret)
        self.invoke(c, argtys[j], fop, [] if isopt else [e], (r, ()), done, no)
        if m == 'unwrap_or_else':
            self.put(yes, [('assign', dest, ('use', x))], ('goto', ret))
            self.put(done, [('assign', dest, ('use', ('move', (r, ()))))], ('goto', ret))
        elif m in ('ok_or_else', 'map_err'):
            self.put(yes, [('assign', dest, ('agg', 'std::result::Result::Ok', None, [x]))], ('goto', ret))
            self.put(done, [('assign', dest, ('agg', 'std::result::Result::Err', None, [('move', (r, ()))]))], ('goto', ret))
        else:
            self.put(yes, [('assign', dest, ('use', ('move', (l, ()))))], ('goto', ret))
            self.put(done, [('assign', dest, ('use', ('move', (r, ()))))], ('goto', ret))
        return True


def _clty(t):
    i = t.find('{closure@')
    return t[i:match_close(t, i) + 1]


def strip_ref(t):
    t = t.strip()
    m = re.match(r"(&(?:'\w+ )?(?:mut )?|\*const |\*mut )", t)
    if m:
        return t[m.end():].strip()
    if t.startswith('std::boxed::Box<'):
        return type_args(t)[0]
    return t


def elem_ty(t):
    t = t.strip()
    if t.startswith('['):
        return split_top(t[1:-1], ';')[0]
    return '?'


def const_ty(s):
    if s.startswith('{closure@'):
        return s
    m = re.match(r'^-?[\d.eE+-]+_?(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|f32|f64)$', s)
    if m:
        return m.group(1)
    if s in ('true', 'false'):
        return 'bool'
    if s.startswith('"'):
        return '&str'
    if s == '()':
        return '()'
    return '?'


def isint_ty(t):
    t = t.strip()
    return t in INT or t.startswith(('*', ))


VARIANT_IX = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1, 'Less': -1, 'Equal': 0, 'Greater': 1,
              'Occupied': 0, 'Vacant': 1, 'Big': 0, 'Little': 1}

# callees that look through a reference without changing anything
PURE_ACCESS = {'deref', 'deref_mut', 'as_ref', 'as_mut', 'buf', 'mut_buf', 'obj', 'borrow', 'borrow_mut', 'as_slice',
               'as_mut_slice', 'as_ptr', 'as_mut_ptr', 'index_mut', 'as_mut_array', 'as_bytes_mut', 'as_array'}


class State(dict):
    __slots__ = ('sub',)


OPASSIGN = {'add_assign': 'Add', 'sub_assign': 'Sub', 'mul_assign': 'Mul', 'div_assign': 'Div', 'bitand_assign': 'BitAnd',
            'bitor_assign': 'BitOr', 'bitxor_assign': 'BitXor'}


GLAM = ('Vec2', 'Vec3', 'Vec3A', 'Vec4', 'Quat')     # indexed like arrays of their components


class Interp:
    """Abstract interpretation of an inlined Body."""

    def __init__(self, prog, body, models=None, assume=None, fold=None):
        self.prog = prog
        self.body = body
        self.fields = struct_fields(prog)
        self.types = body.types
        self.instate = {}
        self.phi_in = {}
        self.sticky = {}
        self.unstick = {}
        self.events = {}
        self.feasible = set()
        self.models = models or {}
        self.assume = assume
        self.fold = fold
        self.const_cache = {}
        self.collect = False
        self.cur = None
        self.rpo = self._rpo()

    # ------------------------------------------------------------ CFG
    def succs(self, b):
        t = self.body.blocks[b][1] if b in self.body.blocks else None
        if t is None:
            return []
        k = t[0]
        if k == 'goto':
            return [t[1]] if t[1] != -1 else []
        if k == 'switch':
            r = [x for _, x in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return r
        if k == 'assert':
            return [t[5]]
        if k == 'drop':
            return [] if t[2] is None else [t[2]]
        if k == 'call':
            return [] if t[7] is None else [t[7]]
        return []

    def _rpo(self):
        seen = set()
        order = []
        stack = [(self.body.entry, iter(self.succs(self.body.entry)))]
        seen.add(self.body.entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen and s in self.body.blocks:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        order.reverse()
        return order

    # ------------------------------------------------------------ lvalues
    def fname(self, ty, idx):
        h = type_head(ty) if ty else ''
        names = self.fields.get(h)
        if names and idx < len(names):
            return names[idx]
        if ty.startswith('{closure@'):
            names = self.fields.get(ty)
            if names and idx < len(names):
                return names[idx]
        return idx

    def lvalue(self, st, p):
        """-> ((root, path), type)"""
        loc = (('L', p[0]), ())
        ty = self.types.get(p[0], '')
        off = None
        for n, pr in enumerate(p[1]):
            k = pr[0]
            if k == '*':
                v = self.load(st, loc)
                ty = strip_ref(ty)
                loc = None
                if v.op in ('unsize', 'slice') and n + 1 < len(p[1]) and (p[1][n + 1][0] == 'i' or p[1][n + 1][0] == 'ci' and not p[1][n + 1][3]):
                    # an element of a local array seen through a slice
                    u, off = v, const(0)
                    while u.op in ('unsize', 'slice'):
                        off = add(off, u.a[1]) if u.op == 'slice' else off
                        u = u.a[0]
                    if u.op == 'ref' and u.a[0][0][0] == 'L':
                        loc = u.a[0]
                    else:
                        off = None
                if loc is None:
                    loc = self.pointee(v)
            elif k == 'f':
                loc = (loc[0], loc[1] + (('f', self.fname(ty, pr[1]) if not (loc[1] and loc[1][-1][0] == 'v') else pr[1]),))
                ty = pr[2]
            elif k == 'v':
                loc = (loc[0], loc[1] + (('v', pr[1]),))
            elif k == 'i':
                iv = self.load(st, (('L', pr[1]), ()))
                if off is not None:
                    iv, off = add(iv, off), None
                loc = (loc[0], loc[1] + (('i', iv),))
                ty = elem_ty(ty)
            elif k == 'ci':
                iv = const(pr[1]) if not pr[3] else mk('fromend', pr[1])
                if off is not None:
                    iv, off = add(iv, off), None
                loc = (loc[0], loc[1] + (('i', iv),))
                ty = elem_ty(ty)
            elif k == 'sub':
                loc = (loc[0], loc[1] + (('s', pr[1], pr[2], pr[3]),))
        return loc, ty

    @staticmethod
    def pointee(v):
        """the place a pointer value designates"""
        if v.op == 'ref':
            return v.a[0]
        if v.op == 'elemref':
            s, i = v.a
            off = const(0)
            while s.op in ('unsize', 'slice'):
                if s.op == 'slice':
                    off = add(off, s.a[1])
                s = s.a[0]
            if s.op == 'ref':
                return (s.a[0][0], s.a[0][1] + (('i', add(off, i)),))
            return (('M', s), (('i', add(off, i)),))
        return (('M', v), ())

    # ------------------------------------------------------------ memory
    def load(self, st, loc):
        v = st.get(loc)
        root, path = loc
        if v is None:
            # longest prefix
            n = len(path)
            while n > 0:
                n -= 1
                v = st.get((root, path[:n]))
                if v is not None:
                    for i in range(n, len(path)):
                        v = self.proj(v, path[i])
                    break
            if v is None:
                if root[0] == 'M':
                    v = self.initial(root[1], path)
                else:
                    v = mk('uninit', loc)
        # overlay more specific entries
        ov = self._exts(st, loc)
        if ov:
            items = []
            for k in ov:
                items.append((k[1][len(path):], st[k]))
            items.sort(key=lambda kv: (len(kv[0]), repr([(x[0], x[1].id if isinstance(x[1], E) else str(x[1])) for x in kv[0]])))
            if v.op == 'uninit' and v.a[0] == loc:
                v = mk('undef')
            v = mk('upd', v, tuple(items))
            v = self._simp_upd(v)
        return v

    def _simp_upd(self, v):
        base, items = v.a
        # (x as checked tuple etc.)
        return v

    def _exts(self, st, loc):
        root, path = loc
        idx = st.sub.get(root)
        if not idx:
            return None
        n = len(path)
        return [k for k in idx if len(k[1]) > n and k[1][:n] == path]

    def initial(self, ptr, path):
        v = None
        if ptr.op == '&':
            v = ptr.a[0]
            for p in path:
                v = self.proj(v, p)
            return v
        if ptr.op == 'elemref':
            v = mk('elem', *ptr.a)
            for p in path:
                v = self.proj(v, p)
            return v
        v = mk('ld', ptr, path)
        if self.assume is not None:
            r = self.assume(v)
            if r is not None:
                return r
        return v

    def proj(self, v, p):
        op = v.op
        if op == 'upd':
            base, items = v.a
            rest = []
            exact = None
            for pa, val in items:
                if pa[0] == p:
                    if len(pa) == 1:
                        exact = val
                    else:
                        rest.append((pa[1:], val))
            b = exact if exact is not None else self.proj(base, p)
            if rest:
                return mk('upd', b, tuple(rest))
            return b
        if op == 'undef':
            return v
        if op == 'agg':
            kind = v.a[0]
            if p[0] == 'v':
                return v
            if p[0] == 'f':
                names, vals = v.a[1], v.a[2]
                if isinstance(p[1], int) and p[1] < len(vals):
                    return vals[p[1]]
                if names and p[1] in names:
                    return vals[names.index(p[1])]
            if p[0] == 'i' and p[1].op == 'const' and kind == '[]':
                i = p[1].a[0]
                if isinstance(i, int) and i < len(v.a[2]):
                    return v.a[2][i]
        if op == 'repeat' and p[0] == 'i':
            return v.a[0]
        if op == 'ld':
            return self.initial(v.a[0], v.a[1] + (p,))
        if op == 'vproj':      # (x as Variant)
            if p[0] == 'f':
                return self.payload(v.a[0], v.a[1], p[1])
        if p[0] == 'v':
            return mk('vproj', v, p[1])
        return mk('pj', v, p)

    def payload(self, v, variant, i):
        op = v.op
        if op == 'agg' and v.a[0].split('::')[-1] == variant:
            return v.a[2][i]
        if i == 0 and variant in ('Some', 'Ok', 'Continue'):
            return self.pay(v)
        if i == 0 and variant in ('Err',):
            return self.err(v)
        if i == 0 and variant == 'Break':
            return mk('residual', v.a[0] if op == 'branch' else v)
        return mk('pj', mk('vproj', v, variant), ('f', i))

    def pay(self, v):
        op = v.op
        if op == 'branch':
            return self.pay(v.a[0])
        if op == 'agg' and v.a[0].split('::')[-1] in ('None', 'Err', 'Break'):
            return mk('bottom')
        if op == 'agg' and v.a[0].split('::')[-1] in ('Some', 'Ok', 'Continue'):
            return v.a[2][0]
        if op in ('ok_or',):
            return self.pay(v.a[0])
        if op == 'asref':
            return mk('&', self.pay(v.a[0]))
        if op == 'opt':          # opt(cond, value)
            return v.a[1]
        if op == 'maperr':
            return self.pay(v.a[0])
        if op == 'copied':
            p = self.pay(v.a[0])
            return self.initial(p, ())
        return mk('pay', v)

    def err(self, v):
        op = v.op
        if op == 'agg' and v.a[0].split('::')[-1] in ('Ok', 'Continue'):
            return mk('bottom')
        if op == 'agg' and v.a[0].split('::')[-1] == 'Err':
            return v.a[2][0]
        if op == 'ok_or':
            return v.a[1]
        if op == 'reserr':
            return v.a[0]
        return mk('err', v)

    def discr(self, v):
        """discriminant as an integer value expression"""
        op = v.op
        if op == 'agg':
            vn = v.a[0].split('::')[-1]
            if vn in VARIANT_IX:
                return const(VARIANT_IX[vn])
            return mk('discr', v)
        if op == 'branch':
            d = self.discr(v.a[0])
            return d if v.a[1] == 'Result' else self._not01(d)
        if op == 'ok_or':
            return self._not01(self.discr(v.a[0]))
        if op in ('asref', 'maperr', 'copied'):
            return self.discr(v.a[0])
        if op == 'opt':
            return mk('b2i', v.a[0]) if v.a[0].op != 'const' else const(1 if v.a[0].a[0] else 0)
        if op == 'reserr':
            return const(1)
        if op == 'resnone':
            return const(0)
        v = mk('discr', v)
        if self.assume is not None:
            r = self.assume(v)
            if r is not None:
                return r
        return v

    def _not01(self, d):
        if d.op == 'const':
            return const(1 - d.a[0])
        if d.op == 'b2i':
            return mk('b2i', neg(d.a[0]))
        return sub(const(1), d)

    def store(self, st, loc, v):
        root, path = loc
        idx = st.sub.get(root)
        if idx:
            n = len(path)
            dead = [k for k in idx if len(k[1]) > n and k[1][:n] == path]
            for k in dead:
                idx.discard(k)
                del st[k]
            # an element store kills what is known of other elements of the same array
            for j, p in enumerate(path):
                if p[0] == 'i':
                    pre = path[:j]
                    kill = [k for k in idx if len(k[1]) > j and k[1][:j] == pre and k[1][j] != p and
                            not (k[1][j][0] == 'i' and k[1][j][1].op == 'const' and p[1].op == 'const')]
                    for k in kill:
                        idx.discard(k)
                        del st[k]
        for j, p in enumerate(path):
            if p[0] == 'i' and p[1].op != 'const':
                # some element changed: nothing is known of the others any more
                self._put(st, (root, path[:j]), mk('hvarr', self.cur, root, path[:j]))
                break
        if v.op == 'upd':
            base, items = v.a
            self.store(st, loc, base)
            for pa, val in items:
                self._put(st, (root, path + pa), val)
            return
        self._put(st, loc, v)

    def _put(self, st, loc, v):
        st[loc] = v
        st.sub.setdefault(loc[0], set()).add(loc)

    def kill_local(self, st, l):
        root = ('L', l)
        idx = st.sub.pop(root, None)
        if idx:
            for k in idx:
                st.pop(k, None)

    def havoc(self, st, loc, site):
        root, path = loc
        self.store(st, loc, mk('hv', site, loc if root[0] == 'L' else (('M', root[1]), path)))

    # ------------------------------------------------------------ operands
    def operand(self, st, o):
        if o[0] in ('copy', 'move'):
            loc, ty = self.lvalue(st, o[1])
            return self.load(st, loc)
        return self.constant(o[1])

    def op_ty(self, o):
        if o[0] in ('copy', 'move'):
            t = self.types.get(o[1][0], '')
            for pr in o[1][1]:
                if pr[0] == 'f':
                    t = pr[2]
                elif pr[0] == '*':
                    t = strip_ref(t)
                elif pr[0] in ('i', 'ci'):
                    t = elem_ty(t)
            return t
        return const_ty(o[1])

    def constant(self, s):
        m = re.match(r'^(-?\d+)_(?:u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)$', s)
        if m:
            return const(int(m.group(1)))
        if s == 'true':
            return TRUE
        if s == 'false':
            return FALSE
        if s == '()':
            return UNIT
        if s.startswith('nondet#'):
            return mk('nondet', s)
        r = self.const_cache.get(s)
        if r is None:
            r = self._const_item(s)
            self.const_cache[s] = r
        return r

    def _const_item(self, s):
        m = re.match(r'^(-?[\d.]+(?:[eE][+-]?\d+)?)_?(f32|f64)$', s)
        if m:
            return mk('fconst', float(m.group(1)))
        m = re.match(r'^(?:core::num::<impl )?(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)>?::(MAX|MIN)$', s)
        if m:
            bits = UBITS.get(m.group(1)) or IBITS.get(m.group(1))
            if m.group(1)[0] == 'u':
                return const((1 << bits) - 1 if m.group(2) == 'MAX' else 0)
            return const((1 << (bits - 1)) - 1 if m.group(2) == 'MAX' else -(1 << (bits - 1)))
        if s.startswith(('"', 'b"', "'", '{alloc', 'b\'')):
            return mk('str', s)
        if '{closure@' in s or s.startswith('{'):
            return mk('constitem', s)
        name = s
        f = None
        key = strip_generics(name)
        cands = self.prog.consts.get(key) or self.prog.consts.get('::'.join(key.split('::')[-2:])) or \
            self.prog.consts.get('::'.join(key.split('::')[-3:])) or self.prog.consts.get(self.prog.callee_name(name) if name.startswith('<') else '')
        if cands and len(cands[-1].blocks) <= 8:
            f = cands[-1]
            v = eval_const(self.prog, f)
            if v is not None:
                return v
        for k in (key, '::'.join(key.split('::')[-2:])):
            if k in self.prog.simple:
                return self.constant(self.prog.simple[k])
        return mk('constitem', clean_type(s))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k in ('ref', 'raw'):
            loc, ty = self.lvalue(st, r[2])
            root, path = loc
            if root[0] == 'M' and not path:
                return root[1]
            return mk('ref', loc)
        if k == 'bin':
            return self.binop(r[1], self.operand(st, r[2]), self.operand(st, r[3]), self.op_ty(r[2]) if self.op_ty(r[2]) != '?' else self.op_ty(r[3]))
        if k == 'un':
            a = self.operand(st, r[2])
            if r[1] == 'Not':
                if a.op in ('le0', 'eq0', 'not', 'fcmp') or (a.op == 'const' and isinstance(a.a[0], bool)) or self.op_ty(r[2]) == 'bool':
                    return neg(a)
                return mk('bitnot', a)
            if r[1] == 'Neg':
                if isint_ty(self.op_ty(r[2])):
                    return sub(const(0), a)
                return mk('fneg', a)
            if r[1] == 'PtrMetadata':
                return self.len_of(st, a)
        if k == 'discr':
            loc, ty = self.lvalue(st, r[1])
            return self.discr(self.load(st, loc))
        if k == 'len':
            loc, ty = self.lvalue(st, r[1])
            m = re.match(r'^\[.*; (\d+)\]$', ty)
            if m:
                return const(int(m.group(1)))
            root, path = loc
            return self.len_of(st, root[1] if root[0] == 'M' and not path else mk('ref', loc))
        if k == 'cast':
            return self.cast(r[1], self.operand(st, r[2]), self.op_ty(r[2]), r[3], st)
        if k == 'agg':
            vals = tuple(self.operand(st, o) for o in r[3])
            kind = r[1]
            if kind not in ('[]', '()') and not kind.startswith('{'):
                kind = strip_generics(kind)
                if not vals and not r[2]:
                    # unit struct / const-like aggregate / enum variant
                    pass
            return mk('agg', kind, tuple(r[2]) if r[2] else None, vals)
        if k == 'repeat':
            return mk('repeat', self.operand(st, r[1]), r[2])
        if k == 'closure_param':
            return mk('cparam', r[1], r[2], self.cur[0]) if not r[3] else \
                mk('cparam', r[1], r[2], self.valarg(st, self.operand(st, r[3][0])))
        return mk('other', str(r))

    def binop(self, op, a, b, ty):
        isint = isint_ty(ty)
        if op.endswith('WithOverflow'):
            v = self.binop(op[:-12], a, b, ty)
            return mk('agg', '()', None, (v, FALSE))
        if op.endswith('Unchecked'):
            op = op[:-9]
        if ty == 'bool':
            if op == 'BitAnd':
                if FALSE in (a, b):
                    return FALSE
                if a is TRUE:
                    return b
                if b is TRUE:
                    return a
                return mk('and', a, b)
            if op == 'BitOr':
                if TRUE in (a, b):
                    return TRUE
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                return neg(mk('and', neg(a), neg(b)))
            if op == 'Eq' and b.op == 'const':
                return a if b is TRUE else neg(a)
            if op == 'Ne' and b.op == 'const':
                return a if b is FALSE else neg(a)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return cmp(op, a, b, isint)
        if isint:
            if op == 'Add':
                return add(a, b)
            if op == 'Sub':
                return sub(a, b)
            if op == 'Mul':
                return mul(a, b)
            if op == 'Div':
                return div(a, b)
            if op == 'Shl' and is_const(b):
                if ty in ('u8', 'u16', 'u32') and not is_const(a):
                    # bits shifted out are lost
                    return mk('rem', mul(a, const(1 << cval(b))), const(1 << UBITS[ty]))
                return mul(a, const(1 << cval(b)))
            if op == 'Shr' and is_const(b) and ty.startswith('u'):
                return div(a, const(1 << cval(b)))
            if op == 'BitAnd' and is_const(b) and is_const(a):
                return const(cval(a) & cval(b))
            if op == 'BitAnd':
                for x, m in ((a, b), (b, a)):
                    if is_const(m) and cval(m) >= 0 and (cval(m) + 1) & cval(m) == 0:
                        return mk('rem', x, const(cval(m) + 1))
            if op == 'Rem':
                if is_const(a) and is_const(b) and cval(b):
                    return const(cval(a) % cval(b))
                return mk('rem', a, b)
            x, y = (a, b) if a.id <= b.id or op in ('Shl', 'Shr', 'Offset') else (b, a)
            return mk('i' + op, x, y)
        if op in ('Add', 'Mul') and b.id < a.id:
            a, b = b, a
        return mk('f' + op, a, b)

    def cast(self, kind, v, sty, dty, st):
        k = kind.split('(')[0]
        if k == 'IntToInt':
            if sty in UBITS and (dty in UBITS and UBITS[dty] >= UBITS[sty] or dty in IBITS and IBITS[dty] > UBITS[sty]):
                if sty == 'bool':
                    return mk('b2i', v) if v.op != 'const' else const(int(v.a[0]))
                return v
            if sty in IBITS and dty in IBITS and IBITS[dty] >= IBITS[sty]:
                return v
            if v.op == 'const' and isinstance(v.a[0], int):
                bits = UBITS.get(dty) or IBITS.get(dty)
                if bits:
                    x = v.a[0] & ((1 << bits) - 1)
                    if dty in IBITS and x >> (bits - 1):
                        x -= 1 << bits
                    return const(x)
            if sty in IBITS and dty in UBITS and UBITS[dty] >= IBITS[sty]:
                return mk('cast', dty, v, 'sign')      # the same number only if it is not negative
            return mk('cast', dty, v)
        if k in ('PtrToPtr', 'Subtype', 'FnPtrToPtr'):
            return v
        if k == 'PointerCoercion':
            if 'Unsize' in kind:
                m = re.search(r'\[.*; (\d+)\]', sty)
                if m and '[' in dty and 'dyn' not in dty:
                    return mk('unsize', v, int(m.group(1)))
            return v
        if k == 'Transmute':
            return mk('transmute', v, clean_type(sty), clean_type(dty))
        if k in ('PointerExposeProvenance', 'PointerWithExposedProvenance'):
            return v
        return mk('cast', dty, v)

    # canonical value of a reference argument (for naming pure results)
    def valarg(self, st, v, depth=0):
        if v.op == 'ref':
            loc = v.a[0]
            x = self.load(st, loc)
            return mk('&', self.valarg(st, x, depth + 1) if depth < 6 else x)
        if v.op in ('agg',) and depth < 6:
            return mk('agg', v.a[0], v.a[1], tuple(self.valarg(st, x, depth + 1) for x in v.a[2]))
        return v

    @staticmethod
    def strip_access(v):
        while v.op in ('&', 'deref', 'unsize_'):
            v = v.a[0]
        return v

    def len_of(self, st, p):
        if p.op == 'unsize':
            return const(p.a[1])
        if p.op == 'ref':
            loc = p.a[0]
            v = self.load(st, loc)
            return self._len(v)
        return self._len(p)

    def _len(self, v):
        v = self.strip_access(v)
        if v.op == 'rawslice':
            return v.a[1]
        if v.op == 'slice':
            return sub(v.a[2], v.a[1]) if v.a[2] is not None and v.a[2].op != 'end' else sub(self._len(v.a[0]), v.a[1])
        if v.op == 'unsize':
            return const(v.a[1])
        if v.op == 'repeat' and isinstance(v.a[1], str):
            m = re.match(r'(?:const )?(\d+)(?:_usize)?$', v.a[1])
            if m:
                return const(int(m.group(1)))
        if v.op == 'agg' and v.a[0] == '[]':
            return const(len(v.a[2]))
        if v.op == 'vec':
            return v.a[1]
        v = mk('len', v)
        if self.assume is not None:
            r = self.assume(v)
            if r is not None:
                return r
        return v

    # ------------------------------------------------------------ transfer
    def transfer(self, b):
        st = State(self.instate[b])
        st.sub = {k: set(v) for k, v in self.instate[b].sub.items()}
        stmts, term = self.body.blocks[b]
        for i, s in enumerate(stmts):
            self.cur = (b, i)
            k = s[0]
            if k == 'assign':
                dloc, dty = self.lvalue(st, s[1])
                v = self.rvalue(st, s[2], dty)
                if self.fold is not None:
                    v = self.fold(v) or v
                if self.collect and dloc[0][0] == 'M':
                    self.event(b, i, 'store', loc=dloc, value=v, ty=dty, state=st)
                elif self.collect:
                    self.event(b, i, 'set', loc=dloc, value=v, ty=dty)
                self.store(st, dloc, v)
            elif k in ('live', 'dead'):
                self.kill_local(st, s[1])
            elif k == 'setdiscr':
                dloc, dty = self.lvalue(st, s[1])
                self.store(st, dloc, mk('setdiscr', s[2]))
        self.cur = (b, len(stmts))
        outs = []
        k = term[0]
        if k == 'goto':
            if term[1] != -1:
                outs = [(term[1], None)]
        elif k == 'switch':
            v = self.operand(st, term[1])
            if self.assume is not None:
                r = self.assume(v)
                if r is not None:
                    v = r
            isb = self.op_ty(term[1]) == 'bool' or v.op in ('le0', 'eq0', 'not', 'fcmp', 'and', 'or')
            arms = term[2]
            if v.op == 'const':
                cv = int(v.a[0]) if not isinstance(v.a[0], str) else None
                tgt = None
                for av, x in arms:
                    if av == cv or (cv is not None and cv < 0 and av == cv % (1 << 8)):
                        tgt = x
                if tgt is None:
                    tgt = term[3]
                if tgt is not None:
                    outs = [(tgt, None)]
            else:
                vals = []
                for av, x in arms:
                    outs.append((x, ('is', v, bool(av) if isb else av)))
                    vals.append(av)
                if term[3] is not None and term[3] in self.body.blocks and self.body.blocks[term[3]][1] != ('unreachable',):
                    if isb and vals == [0]:
                        outs.append((term[3], ('is', v, True)))
                    elif isb and vals == [1]:
                        outs.append((term[3], ('is', v, False)))
                    else:
                        outs.append((term[3], ('notin', v, tuple(vals))))
        elif k == 'assert':
            v = self.operand(st, term[1])
            if self.collect:
                self.event(b, len(stmts), 'assert', cond=v if term[2] else neg(v), msg=term[3])
            c = v if term[2] else neg(v)
            outs = [(term[5], ('is', c, True))]
        elif k == 'drop':
            loc, dty = self.lvalue(st, term[1])
            if self.collect:
                self.event(b, len(stmts), 'drop', loc=loc, ty=dty, value=self.load(st, loc))
            if term[2] is not None:
                outs = [(term[2], None)]
        elif k == 'call':
            outs = self.call(b, st, term, len(stmts))
        elif k == 'return':
            if self.collect:
                self.event(b, len(stmts), 'return', value=self.load(st, (('L', 0), ())), state=st)
        elif k == 'unreachable':
            pass
        return st, outs

    def event(self, b, i, kind, **kw):
        kw['kind'] = kind
        kw['block'] = b
        kw['idx'] = i
        self.events.setdefault(b, []).append(kw)

    # ------------------------------------------------------------ calls
    def call(self, b, st, term, i):
        _, dest, func, name, args, argtys, dty, ret, callee = term
        vals = [self.operand(st, a) for a in args]
        vargs = [self.valarg(st, v) for v in vals]
        dloc, dtyp = self.lvalue(st, dest)
        site = b
        pre = None
        if self.collect:
            pre = dict(name=name, func=func, args=vargs, raw=vals, argtys=argtys, dty=dty, callee=callee, ret=ret)
        res = None
        method = name.split('::')[-1]
        for md in self.models.values():
            res = md(self, st, b, name, func, vals, vargs, argtys, dty)
            if res is not None:
                break
        if res is None:
            res = self.model(st, b, name, method, func, vals, vargs, argtys, dty)
        if res is None and callee is None and method in OPASSIGN and name.startswith('<') and len(vals) == 2 and argtys[0].startswith('&'):
            # x op= y is x = x op y
            loc = self.pointee(vals[0])
            old = self.load(st, loc)
            ty = name[1:].split(' as ')[0]
            rhs = self._deref1(vargs[1]) if argtys[1].startswith('&') else vargs[1]
            o = method[:-7]
            if ty in ('f32', 'f64'):
                v = mk('f' + o.capitalize(), old, rhs)
            elif ty in INT and o in ('add', 'sub', 'mul'):
                v = {'add': add, 'sub': sub, 'mul': mul}[o](old, rhs)
            else:
                v = mk('call', '<%s as %s>::%s' % (ty, OPASSIGN[method], o), (old, rhs), None, None)
            if loc[0][0] == 'M' and self.collect:
                self.event(b, i, 'store', loc=loc, value=v, ty=ty, state=st)
            self.store(st, loc, v)
            res = UNIT
        if res is None:
            # opaque
            mutated = False
            if not (callee is None and method in PURE_ACCESS):
                for j, (v, t) in enumerate(zip(vals, argtys)):
                    if t and (t.startswith('&mut ') or re.match(r"&'\w+ mut ", t)):
                        mutated = True
                        u = v
                        while u.op in ('unsize', 'slice'):
                            u = u.a[0]
                        if u.op == 'ref':
                            self.havoc(st, u.a[0], (site, j))
                        else:
                            self.havoc(st, (('M', v), ()), (site, j))
                    elif v.op == 'ref' and t and t.startswith('*mut '):
                        mutated = True
                        self.havoc(st, v.a[0], (site, j))
            if mutated or dty == '!' or is_effectful(name):
                res = mk('call', name, tuple(vargs), site, _tf(func))
            else:
                res = mk('call', name, tuple(vargs), None, _tf(func))
        if self.collect:
            pre['result'] = res
            self.event(b, i, 'call', state=st, **pre)
        if dloc[0][0] == 'M' and self.collect:
            self.event(b, i, 'store', loc=dloc, value=res, ty=dtyp, state=st)
        self.store(st, dloc, res)
        if ret is None:
            return []
        return [(ret, None)]

    def model(self, st, b, name, method, func, vals, vargs, argtys, dty):
        a0 = vals[0] if vals else None
        v0 = vargs[0] if vargs else None
        r = self.iter_model(st, b, name, method, vals, vargs, argtys)
        if r is not None:
            return r
        if method == 'branch' and ' as Try>' in name:
            h = name[1:].split(' as ')[0]
            return mk('branch', v0, h)
        if method == 'from_residual' and ' as FromResidual>' in name:
            h = name[1:].split(' as ')[0]
            if h == 'Option':
                return mk('agg', 'std::option::Option::None', None, ())
            e = self.err(a0.a[0]) if a0.op == 'residual' else mk('err', a0)
            return mk('agg', 'std::result::Result::Err', None, (mk('conv', e),) if e.op not in ('agg', 'conv') else (e,))
        if name.startswith('std::option::Option::') or name.startswith('std::result::Result::'):
            opt = name.startswith('std::option::Option::')
            if method in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
                return mk('asref', self._deref1(v0))
            if method == 'ok_or':
                return mk('ok_or', v0, vals[1])
            if method == 'ok_or_else':
                return mk('ok_or', v0, mk('closure_result', vals[1]))
            if method == 'map_err':
                return mk('maperr', v0)
            if method in ('copied', 'cloned') and opt:
                return mk('copied', v0)
            if method in ('is_some', 'is_err'):
                return eq0(sub(self.discr(self._deref1(v0)), const(1)))
            if method in ('is_none', 'is_ok'):
                return eq0(self.discr(self._deref1(v0)))
            if method == 'unwrap_or':
                if v0.op == 'agg':
                    return self.pay(v0) if v0.a[0].endswith('Some') or v0.a[0].endswith('Ok') else vals[1]
                return mk('unwrap_or', v0, vals[1])
            if method in ('unwrap', 'expect', 'unwrap_unchecked'):
                return self.pay(v0)
            if method == 'ok':
                return mk('opt', eq0(self.discr(v0)), self.pay(v0))
        if method == 'len' and len(vals) == 1 and ('slice' in name or name.startswith(('std::vec::Vec', 'std::string', 'core::str'))):
            return self._len(v0)
        if method == 'is_empty' and len(vals) == 1 and ('slice' in name or name.startswith(('std::vec::Vec', 'std::string', 'core::str'))):
            return eq0(self._len(v0))
        if method in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'as_slice', 'as_mut_slice', 'borrow', 'borrow_mut') and len(vals) == 1 and \
                (name.startswith('<') or 'vec::Vec' in name):
            return mk('deref', self._deref1(v0))
        if name in ('std::mem::size_of', 'core::mem::size_of'):
            t = _tf(func)
            h = type_head(t) if t not in SIZES else t
            if t in ('usize', 'isize') or t.startswith('*') or t.startswith('&'):
                return mk('sizeof', 'usize')
            return const(SIZES[h]) if h in SIZES else mk('sizeof', clean_type(t))
        if name in ('std::mem::align_of', 'core::mem::align_of'):
            t = _tf(func)
            h = type_head(t) if t not in ALIGNS else t
            return const(ALIGNS[h]) if h in ALIGNS else mk('alignof', clean_type(t))
        if re.search(r'::(mut_ptr|const_ptr)::<impl \*(mut|const) [^>]*>+::(add|wrapping_add|offset|sub|wrapping_sub)$', name) or \
                re.search(r'::ptr::.*<impl \*(mut|const) .*>::(add|offset|sub)$', name):
            t = strip_ref(argtys[0])
            h = t if t in SIZES else type_head(t)
            sz = const(SIZES[h]) if h in SIZES else mk('sizeof', clean_type(t))
            return add(v0, mul(vals[1], sz), -1 if method.endswith('sub') else 1)
        if method in ('cast', 'cast_mut', 'cast_const') and '_ptr::' in name:
            return v0
        if method == 'offset_from' and '_ptr::' in name:
            t = strip_ref(argtys[0])
            h = t if t in SIZES else type_head(t)
            d = sub(v0, vals[1])
            return d if SIZES.get(h) == 1 else mk('div', d, const(SIZES[h]) if h in SIZES else mk('sizeof', clean_type(t)))
        if name in ('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'core::slice::from_raw_parts',
                    'core::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut'):
            return mk('rawslice', a0, vals[1])
        if method == 'get' and 'slice::<impl' in name or method == 'get_mut' and 'slice::<impl' in name:
            if len(vals) == 2 and isint_ty(argtys[1]):
                s = self._slc(v0)
                return mk('opt', le0(add(sub(vals[1], self._len(s)), const(1))), mk('elemref', s, vals[1]))
        if method in ('get_unchecked', 'get_unchecked_mut') and 'slice::<impl' in name and isint_ty(argtys[1]):
            return mk('elemref', self._slc(v0), vals[1])
        if method in ('index', 'index_mut') and ' as Index' in name:
            s = a0 if method == 'index_mut' and a0.op == 'ref' and (strip_ref(argtys[0]).startswith('[') or strip_ref(argtys[0]).split('::')[-1] in GLAM) and a0.a[0][0][0] == 'L' else self._slc(v0)
            r = vargs[1]
            if r.op == 'agg':
                k = r.a[0].split('::')[-1]
                if k == 'Range':
                    return mk('slice', s, r.a[2][0], r.a[2][1])
                if k == 'RangeTo':
                    return mk('slice', s, const(0), r.a[2][0])
                if k == 'RangeFrom':
                    return mk('slice', s, r.a[2][0], mk('end'))
            if isint_ty(argtys[1]):
                return mk('elemref', s, vals[1])
        if method == 'div_ceil':
            return div_ceil(vals[0], vals[1])
        if method == 'next_multiple_of' and is_const(vals[1]) and isinstance(cval(vals[1]), int):
            return mul(vals[1], div_ceil(vals[0], vals[1]))
        if method == 'from' and ' as From>' in name and len(vals) == 1:
            h, t = name[1:].split(' as ')[0], (argtys[0] or '').strip()
            if h in INT and (t in INT or t == 'bool') or h in ('f32', 'f64') and t in INT:
                return self.cast('IntToInt' if h in INT else 'IntToFloat', vals[0], t, h, st)
        if method in ('clone', 'to_owned') and name.startswith('<') and len(vals) == 1:
            h = name[1:].split(' as ')[0]
            if h in INT or h in ('f32', 'f64', 'bool'):
                return self._deref1(v0)
        if method in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(vals) == 2 and name.startswith('<'):
            h = name[1:].split(' as ')[0]
            x, y = self._deref1(v0), self._deref1(vargs[1])
            m = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[method]
            while h.startswith('&'):
                h = h[1:].strip()
                x, y = self._deref1(x), self._deref1(y)
            if h in INT:
                return cmp(m, x, y, True)
            if h in ('f32', 'f64', 'str', 'String'):
                return cmp(m, self.strip_access(x), self.strip_access(y), False)
        if method in ('min', 'max') and len(vals) == 2 and (name.startswith('<') and ' as Ord>' in name or name.startswith(('std::cmp', 'core::cmp'))):
            x, y = sorted(vargs, key=lambda e: e.id)
            if x.op == 'const' and y.op == 'const':
                return const(min(x.a[0], y.a[0]) if method == 'min' else max(x.a[0], y.a[0]))
            return mk(method, x, y)
        if name in ('std::convert::identity', 'std::hint::black_box'):
            return a0
        if method == 'contains' and 'Range' in name and len(vals) == 2:
            r = self._deref1(v0)
            if r.op == 'agg' and r.a[0].split('::')[-1] == 'Range':
                x = self._deref1(vargs[1])
                t = strip_ref(argtys[1])
                return mk('and', cmp('Le', r.a[2][0], x, t in INT), cmp('Lt', x, r.a[2][1], t in INT))
        return None

    # ------------------------------------------------------------ iterators
    ITERS = ('Range', 'RangeInclusive', 'Rev', 'Enumerate', 'Take', 'Zip', 'Skip', 'Iter', 'IterMut', 'Cloned', 'Copied',
             'Map', 'StepBy', 'Chain', 'Filter', 'ChunksMut', 'Chunks', 'ChunksExact', 'ChunksExactMut', 'Peekable',
             'Windows', 'Drain', 'TakeWhile', 'SkipWhile')

    def iter_model(self, st, b, name, method, vals, vargs, argtys):
        if not vals:
            return None
        a0, v0 = vals[0], vargs[0]
        if name.endswith('RangeInclusive::new') and len(vals) == 2:
            return mk('agg', '$RangeI', ('start', 'end'), (a0, vals[1]))
        slic = 'core::slice::<impl' in name or 'std::slice::<impl' in name or name.startswith('std::vec::Vec::')
        if method in ('iter', 'iter_mut') and slic and len(vals) == 1:
            s, u = self._slc(v0), a0
            while u.op in ('unsize', 'slice'):
                u = u.a[0]
            if method == 'iter_mut' and a0.op == 'unsize' and u.op == 'ref' and u.a[0][0][0] == 'L':
                s = a0                             # writes go to the local array
            return mk('agg', '$Iter', ('s', 'pos', 'end'), (s, const(0), self._len(s)))
        if method in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut') and slic:
            s = self._slc(v0)
            return mk('agg', '$Chunks', ('s', 'pos', 'n'), (s, const(0), vals[1]))
        if method == 'into_iter' and name.startswith('<'):
            h = name[1:].split(' as ')[0]
            if h in self.ITERS:
                return a0
            t = (argtys[0] or '').strip()
            if re.match(r"&(?:'\w+ )?(?:mut )?(?:\[|(?:std::vec::)?Vec<|alloc::vec::Vec<)", t):
                s = self._slc(v0)
                return mk('agg', '$Iter', ('s', 'pos', 'end'), (s, const(0), self._len(s)))
            m = re.match(r'^\[.*; (\d+)\]$', t)
            if m:
                return mk('agg', '$Copied', ('it',), (mk('agg', '$Iter', ('s', 'pos', 'end'), (v0, const(0), const(int(m.group(1))))),))
            return mk('iter', v0)
        if ' as Iterator>' in name or ' as DoubleEndedIterator>' in name:
            if method == 'enumerate':
                return mk('agg', '$Enum', ('it', 'n'), (a0, const(0)))
            if method == 'take':
                return mk('agg', '$Take', ('it', 'n'), (a0, vals[1]))
            if method == 'rev':
                return mk('agg', '$Rev', ('it',), (a0,))
            if method in ('copied', 'cloned'):
                return mk('agg', '$Copied', ('it',), (a0,))
            if method == 'zip':
                y = vals[1]
                if y.op != 'agg' or not y.a[0].startswith('$') and y.a[0].split('::')[-1] not in ('Range', 'RangeInclusive'):
                    y = mk('agg', '$Iter', ('s', 'pos', 'end'), (self._slc(vargs[1]), const(0), self._len(vargs[1])))
                return mk('agg', '$Zip', ('a', 'b'), (a0, y))
            if method == 'skip':
                return self.iter_skip(a0, vals[1])
            if method == 'by_ref':
                return a0
            if method in ('next', 'next_back') and a0.op == 'ref':
                r = self.iter_next(st, a0.a[0], method == 'next_back')
                if r is not None:
                    return mk('opt', r[0], r[1])
                it = self.load(st, a0.a[0])
                return mk('next', b, self.valarg(st, it))
        return None

    def iter_skip(self, v, n):
        if v.op == 'agg':
            k = v.a[0].split('::')[-1]
            f = dict(zip(v.a[1], v.a[2]))
            if k == '$Iter':
                f['pos'] = add(f['pos'], n)
            elif k == 'Range':
                f['start'] = add(f['start'], n)
            elif k == '$Enum':
                inner = self.iter_skip(f['it'], n)
                if inner is None:
                    return None
                f['it'], f['n'] = inner, add(f['n'], n)
            else:
                return None
            return mk('agg', v.a[0], v.a[1], tuple(f[x] for x in v.a[1]))
        return None

    def iter_kind(self, st, loc):
        """kind tag of the iterator stored at loc (kept apart from its φ-able fields)"""
        v = self.load(st, loc)
        while v.op == 'upd':
            v = v.a[0]
        if v.op == 'agg':
            return v.a[0].split('::')[-1]
        if v.op == 'phi':
            seen = set()
            stack = [v]
            kinds = set()
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                while x.op == 'upd':
                    x = x.a[0]
                if x.op == 'phi':
                    stack.extend(self.phi_in.get(x, {}).values())
                elif x.op == 'agg':
                    kinds.add(x.a[0].split('::')[-1])
                else:
                    kinds.add('?')
            if len(kinds) == 1:
                return kinds.pop()
        return '?'

    def iter_next(self, st, loc, back=False):
        """advance the modelled iterator stored at loc -> (condition, item) or None"""
        root, path = loc

        def at(f):
            return (root, path + (('f', f),))
        k = self.iter_kind(st, loc)
        if k == 'Range':
            lo, hi = self.load(st, at('start')), self.load(st, at('end'))
            if back:
                self.store(st, at('end'), sub(hi, const(1)))
                return le0(add(sub(lo, hi), const(1))), sub(hi, const(1))
            self.store(st, at('start'), add(lo, const(1)))
            return le0(add(sub(lo, hi), const(1))), lo
        if k == '$RangeI':
            lo, hi = self.load(st, at('start')), self.load(st, at('end'))
            if back:
                self.store(st, at('end'), sub(hi, const(1)))
                return le0(sub(lo, hi)), hi
            self.store(st, at('start'), add(lo, const(1)))
            return le0(sub(lo, hi)), lo
        if k == '$Iter':
            s, lo, hi = self.load(st, at('s')), self.load(st, at('pos')), self.load(st, at('end'))
            if back:
                self.store(st, at('end'), sub(hi, const(1)))
                return le0(add(sub(lo, hi), const(1))), mk('elemref', s, sub(hi, const(1)))
            self.store(st, at('pos'), add(lo, const(1)))
            return le0(add(sub(lo, hi), const(1))), mk('elemref', s, lo)
        if k == '$Chunks' and not back:
            s, lo, n = self.load(st, at('s')), self.load(st, at('pos')), self.load(st, at('n'))
            self.store(st, at('pos'), add(lo, n))
            return le0(add(sub(lo, self._len(s)), const(1))), mk('slice', s, lo, mk('min', add(lo, n), self._len(s)))
        if k == '$Enum' and back:
            n = self.load(st, at('n'))
            r = self.iter_next(st, at('it'), True)
            left = self.iter_len(st, at('it'))
            return None if r is None or left is None else (r[0], mk('agg', '()', None, (add(n, left), r[1])))
        if k == '$Enum' and not back:
            n = self.load(st, at('n'))
            r = self.iter_next(st, at('it'))
            if r is None:
                return None
            self.store(st, at('n'), add(n, const(1)))
            return r[0], mk('agg', '()', None, (n, r[1]))
        if k == '$Take' and not back:
            n = self.load(st, at('n'))
            r = self.iter_next(st, at('it'))
            if r is None:
                return None
            self.store(st, at('n'), sub(n, const(1)))
            return mk('and', le0(sub(const(1), n)), r[0]), r[1]
        if k == '$Rev':
            return self.iter_next(st, at('it'), not back)
        if k == '$Copied':
            r = self.iter_next(st, at('it'), back)
            return None if r is None else (r[0], self.deref_val(st, r[1]))
        if k == '$Zip' and not back:
            r = self.iter_next(st, at('a'))
            q = self.iter_next(st, at('b'))
            if r is None or q is None:
                return None
            c = q[0] if r[0] is TRUE else r[0] if q[0] is TRUE or r[0] is FALSE else FALSE if q[0] is FALSE else mk('and', r[0], q[0])
            return c, mk('agg', '()', None, (r[1], q[1]))
        return None

    def iter_len(self, st, loc):
        """how many items the modelled iterator at loc still has"""
        root, path = loc
        at = lambda f: (root, path + (('f', f),))
        k = self.iter_kind(st, loc)
        if k == 'Range':
            return sub(self.load(st, at('end')), self.load(st, at('start')))
        if k == '$Iter':
            return sub(self.load(st, at('end')), self.load(st, at('pos')))
        if k in ('$Enum', '$Copied', '$Rev'):
            return self.iter_len(st, at('it'))
        return None

    def deref_val(self, st, p):
        loc = self.pointee(p)
        if loc[0][0] == 'L':
            return self.load(st, loc)
        if p.op == 'elemref' and p.a[0].op == 'agg' and p.a[0].a[0] == '[]' and isinstance(cval(p.a[1]), int) and 0 <= cval(p.a[1]) < len(p.a[0].a[2]):
            return p.a[0].a[2][cval(p.a[1])]
        return self.initial(p, ())

    def _deref1(self, v):
        if v.op == '&':
            return v.a[0]
        if v.op == 'elemref':
            return mk('elem', *v.a)
        return mk('ld', v, ())

    def _slc(self, v):
        return self.strip_access(v)

    # ------------------------------------------------------------ fixpoint
    def run(self, init=None):
        entry = self.body.entry
        st = State()
        st.sub = {}
        for i in range(1, self.body.nargs + 1):
            self._put(st, (('L', i), ()), mk('arg', i))
        if init:
            init(self, st)
        self.instate[entry] = st
        order = {b: i for i, b in enumerate(self.rpo)}
        import heapq
        work = [(order[entry], entry)]
        inq = {entry}
        self.outstate = {}     # edge -> state
        self.preds = {}
        n = 0
        while work:
            _, b = heapq.heappop(work)
            inq.discard(b)
            n += 1
            if n > 400000:
                raise TooBig('fixpoint')
            out, outs = self.transfer(b)
            for tgt, cond in outs:
                if tgt not in self.body.blocks:
                    continue
                self.feasible.add((b, tgt))
                self.outstate[(b, tgt)] = out
                self.preds.setdefault(tgt, set()).add(b)
                if self.join(tgt):
                    if tgt not in inq:
                        inq.add(tgt)
                        heapq.heappush(work, (order[tgt], tgt))
        self.iters = n
        self.finish()
        return self

    def join(self, b):
        ps = sorted(self.preds[b])
        old = self.instate.get(b)
        if len(ps) == 1:
            new = self.outstate[(ps[0], b)]
            if old is not None and _same(old, new):
                return False
            self.instate[b] = new
            return True
        sts = [self.outstate[(p, b)] for p in ps]
        keys = set()
        for s in sts:
            keys.update(s.keys())
        new = State()
        new.sub = {}
        stick = self.sticky.setdefault(b, set())
        for k in sorted(keys, key=lambda k: len(k[1])):
            vals = []
            undef = False
            for s in sts:
                v = s.get(k)
                if v is None:
                    root, path = k
                    if root[0] == 'L':
                        n = len(path)
                        found = None
                        while n > 0:
                            n -= 1
                            found = s.get((root, path[:n]))
                            if found is not None:
                                for i in range(n, len(path)):
                                    found = self.proj(found, path[i])
                                break
                        if found is None:
                            undef = True
                            break
                        v = found
                    else:
                        v = self._base_load(s, k)
                vals.append(v)
            if undef:
                continue
            first = vals[0]
            if k not in stick and all(v is first for v in vals):
                new[k] = first
            else:
                ph = mk('phi', b, k)
                # a phi all of whose inputs are itself or one other value is that value
                rest = {v for v in vals if v is not ph}
                if k in stick and len(rest) == 1 and self.unstick.get(ph, 0) < 6:
                    self.unstick[ph] = self.unstick.get(ph, 0) + 1
                    stick.discard(k)
                    self.phi_in.pop(ph, None)
                    new[k] = rest.pop()
                    new.sub.setdefault(k[0], set()).add(k)
                    continue
                if k not in stick:
                    stick.add(k)
                self.phi_in[ph] = dict(zip(ps, vals))
                new[k] = ph
            new.sub.setdefault(k[0], set()).add(k)
        if old is not None and _same(old, new):
            # phi inputs may have changed but symbols did not
            return False
        self.instate[b] = new
        return True

    def _base_load(self, s, k):
        root, path = k
        n = len(path)
        while n > 0:
            n -= 1
            v = s.get((root, path[:n]))
            if v is not None:
                for i in range(n, len(path)):
                    v = self.proj(v, path[i])
                return v
        return self.initial(root[1], path)

    def finish(self):
        # refresh phi inputs, collect events and edge conditions
        for b in list(self.instate):
            if b in self.sticky:
                self.join(b)
        self.collect = True
        self.edge_cond = {}
        self.out = {}
        self.succ = {}
        for b in self.rpo:
            if b not in self.instate:
                continue
            st, outs = self.transfer(b)
            self.out[b] = st
            for tgt, cond in outs:
                if tgt in self.body.blocks:
                    self.succ.setdefault(b, []).append((tgt, cond))
        self.collect = False
        self.all_events = []
        for b in self.rpo:
            for e in self.events.get(b, []):
                self.all_events.append(e)
        self._phi_simplify()
        self._facts()

    def _phi_simplify(self):
        """copy φ (x, x, self) -> x, and induction φs of one loop with equal start and step, to a fixpoint"""
        self.phi_alias = {}
        groups = {}
        for ph, ins in self.phi_in.items():
            if len(ins) >= 2:
                steps, inits = [], []
                for p, v in sorted(ins.items()):
                    d = sub(v, ph) if v.op in ('lin', 'phi', 'const') or v is ph else None
                    if d is not None and d.op == 'const' and d.a[0] != 0:
                        steps.append((p, d))
                    else:
                        inits.append((p, v))
                if steps and inits and all(isinstance(d.a[0], int) for _, d in steps):
                    groups.setdefault((ph.a[0], tuple(steps), tuple(inits)), []).append(ph)
        for g in groups.values():
            g.sort()
            for x in g[1:]:
                self.phi_alias[x] = g[0]
        ch = True
        while ch:
            ch = False
            for ph, ins in self.phi_in.items():
                if ph in self.phi_alias:
                    continue
                vs = set()
                for v in ins.values():
                    while v in self.phi_alias:
                        v = self.phi_alias[v]
                    if v is not ph:
                        vs.add(v)
                if len(vs) == 1:
                    self.phi_alias[ph] = vs.pop()
                    ch = True

    def blocks_order(self):
        return [b for b in self.rpo if b in self.instate]

    def _facts(self):
        """must-facts on entry to each block: frozenset of conditions ('is', E, v) / ('notin', E, vals)"""
        TOP = None
        facts = {self.body.entry: frozenset()}
        order = self.blocks_order()
        inedges = {}
        for b in order:
            for t, c in self.succ.get(b, []):
                inedges.setdefault(t, []).append((b, c))
        self.inedges = inedges
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == self.body.entry:
                    continue
                acc = TOP
                # merge parallel edges from the same block with different conditions
                for p, c in inedges.get(b, []):
                    f = facts.get(p, TOP)
                    if f is TOP:
                        continue
                    g = f | {c} if c is not None else f
                    acc = g if acc is TOP else acc & g
                if acc is TOP:
                    continue
                if facts.get(b, TOP) != acc:
                    facts[b] = acc
                    changed = True
        self.facts_in = facts


def _same(a, b):
    if len(a) != len(b):
        return False
    for k, v in a.items():
        if b.get(k) is not v:
            return False
    return True


def _tf(func):
    """trailing turbofish text of a callee"""
    if func.endswith('>') and not func.endswith('->'):
        # find the '<' matching the last '>'
        d = 0
        for i in range(len(func) - 1, -1, -1):
            c = func[i]
            if c == '>' and func[i - 1] not in '-=':
                d += 1
            elif c == '<':
                d -= 1
                if d == 0:
                    if func[i - 2:i] == '::':
                        return clean_type(func[i + 1:-1])
                    return None
    return None


def is_effectful(name):
    return name in ('fnptr', 'std::alloc::alloc', 'std::alloc::alloc_zeroed', 'std::alloc::dealloc', 'std::alloc::realloc') or \
        'panic' in name


def eval_const(prog, f):
    """value of a constant item whose body is straight-line"""
    c = prog._unify_cache.get(('const', id(f)))
    if c is not None:
        return c if c != 0 else None
    prog._unify_cache[('const', id(f))] = 0
    try:
        inl = Inliner(prog, depth=4, max_blocks=400)
        body = inl.build(f)
        it = Interp(prog, body)
        it.run()
        rets = [e for e in it.all_events if e['kind'] == 'return']
        if len(rets) != 1:
            return None
        v = rets[0]['value']
        v = it.valarg(rets[0]['state'], v)
        for x in walk(v):
            if x.op in ('ref', 'phi', 'hv', 'uninit'):
                return None
        prog._unify_cache[('const', id(f))] = v
        return v
    except TooBig:
        return None


def retarget(term, new):
    """the terminator of a block whose next block is decided"""
    k = term[0]
    if k in ('goto', 'switch'):
        return ('goto', new)
    t = list(term)
    t[{'assert': 5, 'drop': 2, 'call': 7}[k]] = new
    return tuple(t)


def unroll(prog, body, models=None, assume=None, fold=None, init=None, limit=4000):
    """the same body with the run from its entry copied out block by block as long as every branch is decided: loops over
    known ranges become straight-line code"""
    nb = Body()
    nb.__dict__.update(body.__dict__)
    nb.blocks, nb.ctx = dict(body.blocks), dict(body.ctx)
    it = Interp(prog, nb, models=models, assume=assume, fold=fold)
    st = State()
    st.sub = {}
    for i in range(1, body.nargs + 1):
        it._put(st, (('L', i), ()), mk('arg', i))
    if init:
        init(it, st)
    it.outstate, it.preds = {}, {}
    fresh = max(nb.blocks) + 1
    src, cur = body.entry, fresh
    nb.blocks[cur], nb.entry = nb.blocks[src], cur
    if src in nb.ctx:
        nb.ctx[cur] = nb.ctx[src]
    copied = {}
    for _ in range(limit):
        it.instate[cur] = st
        out, outs = it.transfer(cur)
        if len(outs) != 1 or outs[0][0] not in body.blocks:
            break
        src, fresh = outs[0][0], fresh + 1
        copied[src] = copied.get(src, 0) + 1
        if copied[src] > 300:                       # not a short loop after all
            return body
        nb.blocks[fresh] = body.blocks[src]
        if src in nb.ctx:
            nb.ctx[fresh] = nb.ctx[src]
        nb.blocks[cur] = (nb.blocks[cur][0], retarget(nb.blocks[cur][1], fresh))
        it.outstate[(cur, fresh)] = out
        it.preds[fresh] = {cur}
        cur, st = fresh, out
    else:
        return body
    return nb

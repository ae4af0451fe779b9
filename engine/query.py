"""Questions asked of a finished Interp: path facts, reachability, effects."""
from expr import *


INF = 1 << 30


class Q:
    def __init__(self, it, assume=None, norm=None):
        """assume: E -> E replaced everywhere (conditions that become false cut their edges);
        norm: extra rewriting E -> E|None applied with it"""
        self.it = it
        self.assume = assume or {}
        self.normf = norm
        self._exp = {}
        self._lf = {}
        self._imemo = {}
        self._ememo = {}
        self._cmemo = {}
        self._build()

    def _build(self):
        it = self.it
        if not self.assume and not self.normf:
            self.edges = {b: [(t, c) for t, c in it.succ.get(b, [])] for b in it.blocks_order()}
            self.live = set(it.blocks_order())
            self.facts_in = it.facts_in
            self.inedges = it.inedges
            return
        edges = {}
        live = set()
        st = [it.body.entry]
        while st:
            b = st.pop()
            if b in live:
                continue
            live.add(b)
            out = []
            for t, c in it.succ.get(b, []):
                if c is not None and self.assume and any(x is FALSE for x in self.norm(c)):
                    continue
                out.append((t, c))
                st.append(t)
            edges[b] = out
        self.edges, self.live = edges, live
        inedges = {}
        for b in it.blocks_order():
            for t, c in edges.get(b, []):
                inedges.setdefault(t, []).append((b, c))
        self.inedges = inedges
        facts = {it.body.entry: frozenset()}
        changed = True
        while changed:
            changed = False
            for b in it.blocks_order():
                if b == it.body.entry or b not in live:
                    continue
                acc = None
                for p, c in inedges.get(b, []):
                    f = facts.get(p)
                    if f is None:
                        continue
                    g = f | {c} if c is not None else f
                    acc = g if acc is None else acc & g
                if acc is not None and facts.get(b) != acc:
                    facts[b] = acc
                    changed = True
        self.facts_in = facts
        self._cmemo = {}

    # ---------------------------------------------------------- aliases
    def canon(self, e):
        """replace trivial φ by their value, apply the assumptions and the normaliser"""
        al = self.it.phi_alias
        asm, nf = self.assume, self.normf

        def f(x):
            r = al.get(x)
            if r is None:
                r = asm.get(x)
            if r is None and nf is not None:
                r = nf(x)
            if r is None and (x.op == 'pay' or x.op == 'err') and x.a[0].op == 'phi':
                r = self.only(x)
            return r
        return self.subst(e, f, self._cmemo)

    def only(self, x):
        """the payload of a φ of which one input alone has one"""
        live = getattr(self, 'live', None)
        ph = x.a[0]
        if live is None or ph in self.it.phi_alias:
            return None
        ins = self.it.phi_in.get(ph, {})
        if len(ins) < 2 or ph.a[0] in self.loops():
            return None
        read = self.it.pay if x.op == 'pay' else self.it.err
        got = None
        for p, v in ins.items():
            if p not in live:
                continue
            w = self.canon(read(self.canon(v)))
            if w.op == 'bottom':
                continue
            if got is not None and got is not w or any(y is ph for y in walk(w)):
                return None
            got = w
        return got

    def subst(self, e, f, memo=None):
        if memo is None:
            memo = {}
        if not isinstance(e, E):
            if isinstance(e, tuple):
                return tuple(self.subst(x, f, memo) for x in e)
            return e
        if e in memo:
            return memo[e]
        memo[e] = e
        r = f(e)
        if r is not None and r is not e:
            out = self.subst(r, f, memo)
        else:
            na = tuple(self.subst(x, f, memo) for x in e.a)
            out = e
            if any(x is not y for x, y in zip(na, e.a)):
                out = self.rebuild(e, na)
                r = f(out) if isinstance(out, E) else None
                if r is not None and r is not out:
                    out = self.subst(r, f, memo)
        memo[e] = out
        return out

    def rebuild(self, e, na):
        it = self.it
        op = e.op
        if op == 'const':
            return e
        if op == 'lin':
            d = const(na[1])
            for k, v in na[0]:
                d = add(d, mul(k, const(v)))
            return d
        if op == 'mono':
            r = na[0]
            for x in na[1:]:
                r = mul(r, x)
            return r
        if op == 'le0':
            return le0(na[0])
        if op == 'eq0':
            return eq0(na[0])
        if op == 'not':
            return neg(na[0])
        if op == 'discr':
            return it.discr(na[0])
        if op == 'pay':
            return it.pay(na[0])
        if op == 'err':
            return it.err(na[0])
        if op == 'vproj':
            return mk('vproj', *na)
        if op == 'pj':
            return it.proj(na[0], na[1])
        if op == 'ld':
            v = it.initial(na[0], ())
            if v.op == 'ld':
                return mk('ld', v.a[0], v.a[1] + na[1])
            for p in na[1]:
                v = it.proj(v, p)
            return v
        if op == 'b2i':
            return const(int(na[0].a[0])) if na[0].op == 'const' else mk('b2i', na[0])
        if op == 'len':
            return it._len(na[0])
        if op == 'fcmp':
            return cmp(na[0], na[1], na[2], False)
        if op == 'unwrap_or':
            if na[0].op == 'agg':
                return it.pay(na[0]) if na[0].a[0].split('::')[-1] in ('Some', 'Ok') else na[1]
            return mk('unwrap_or', *na)
        if op == 'opt':
            return mk('opt', *na)
        if op == 'and':
            if FALSE in na:
                return FALSE
            na = [x for x in na if x is not TRUE]
            return TRUE if not na else na[0] if len(na) == 1 else mk('and', *na)
        return mk(op, *na)

    # ---------------------------------------------------------- dominators and loops
    def order(self):
        if not hasattr(self, '_order'):
            self._order = [b for b in self.it.blocks_order() if b in self.live]
        return self._order

    def preds(self, b):
        return [p for p, _ in self.inedges.get(b, []) if p in self.live]

    def _dominators(self):
        if hasattr(self, '_idom'):
            return
        order = self._rpo_live()
        num = {b: i for i, b in enumerate(order)}
        entry = order[0]
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in self.preds(b):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self._idom, self._num = idom, num

    def _rpo_live(self):
        seen, order = set(), []
        e = self.it.body.entry
        stack = [(e, iter(self.succ(e)))]
        seen.add(e)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        return order

    def dominates(self, a, b):
        self._dominators()
        n = self._num
        if a not in n or b not in n:
            return False
        while n[b] > n[a]:
            b = self._idom[b]
        return a == b

    def loops(self):
        """header -> (set of blocks, back-edge sources)"""
        if hasattr(self, '_loops'):
            return self._loops
        self._dominators()
        out = {}
        for b in self._num:
            for t in self.succ(b):
                if self.dominates(t, b):
                    body, backs = out.setdefault(t, (set([t]), set()))
                    backs.add(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.preds(x))
        self._loops = out
        return out

    def loops_of(self, b):
        """headers of the loops containing b, outermost first"""
        L = self.loops()
        hs = [h for h, (body, _) in L.items() if b in body]
        hs.sort(key=lambda h: -len(L[h][0]))
        return hs

    def induction(self, ph):
        """(initial value, step) of an induction φ, else None"""
        if ph.op != 'phi':
            return None
        ins = self.it.phi_in.get(ph)
        if not ins:
            return None
        init, step = None, None
        for p, v in ins.items():
            if p not in self.live:
                continue
            v = self.canon(v)
            d = sub(v, ph)
            if not any(x is ph for x in walk(d)) and (v is not d) and self.dominates(ph.a[0], p):
                if step is not None and step is not d:
                    return None
                step = d
            else:
                if init is not None and init is not v:
                    return None
                init = v
        if init is None or step is None:
            return None
        return init, step

    def each(self, h, e):
        """name the zero-based unit-step index of loop h canonically"""
        def f(x):
            if x.op == 'phi' and x.a[0] == h:
                i = self.induction(x)
                if i is not None and i[0] is const(0) and i[1] is const(1):
                    return mk('each')
            return None
        return self.subst(e, f)

    # ---------------------------------------------------------- facts
    def norm(self, c):
        """('is'/'notin', E, v) -> list of boolean E that hold"""
        k, e, v = c
        e = self.canon(e)
        if k == 'is':
            return [self.iseq(e, v)]
        return [neg(self.iseq(e, x)) for x in v]

    def iseq(self, e, v):
        if isinstance(v, bool):
            return e if v else neg(e)
        if e.op == 'b2i':
            return e.a[0] if v == 1 else neg(e.a[0])
        if e.op == 'lin':
            # 1 - b2i
            d, c = lin_parts(e)
            if len(d) == 1:
                (a, k), = d.items()
                if a.op == 'b2i' and k == -1 and c == 1:
                    return self.iseq(a, 1 - v)
        if e.op in ('le0', 'eq0', 'not', 'fcmp', 'and', 'nondet'):
            return e if v else neg(e)
        return self.n01(eq0(sub(e, const(v))))

    def n01(self, c):
        """canonical two-valued discriminants: != 0 is == 1"""
        base = c.a[0] if c.op == 'not' else c
        if base.op == 'eq0':
            d, k = lin_parts(base.a[0])
            if len(d) == 1:
                (a, co), = d.items()
                if a.op == 'discr' and co == 1 and k in (0, -1):
                    if c.op == 'not':
                        return mk('eq0', mklin({a: 1}, -1 - k))
                    return c
                if a.op == 'len' and co == 1 and k == 0 and c.op == 'not':
                    return le0(sub(const(1), a))          # lengths are never negative
        if c.op == 'le0' and c.a[0].op == 'len':
            return eq0(c.a[0])
        return c

    def conds(self, b):
        """all boolean facts that hold on entry to block b, φ-decisions expanded"""
        if b in self._exp:
            return self._exp[b]
        out = set()
        for c in self.facts_in.get(b, frozenset()):
            for e in self.norm(c):
                out |= self.imp(e, ())[0]
        self.after_loops(b, None, out)
        self._exp[b] = out
        return out

    def after_loops(self, p, b, out):
        """facts about the completed iterations of every loop that is behind block p (behind the edge p->b)"""
        low = INF
        for h, (body, _) in self.loops().items():
            if not self.dominates(h, p):
                continue
            if p in body and (b is None or b in body):
                continue
            fs = self.loop_facts(h)
            if fs is None:
                low = 0
                continue
            for x in fs:
                y = self.each(h, x)
                if y is not x:
                    out.add(mk('forall', y))
            for x in list(out):
                if x.op in ('le0', 'not', 'eq0'):
                    y = self.each(h, x)
                    if y is not x:
                        out.add(mk('swept', y))
        return low

    def loop_facts(self, h):
        """facts that hold in every completed iteration of loop h; None while being computed"""
        if h in self._lf:
            return self._lf[h]
        self._lf[h] = None
        acc = None
        for p in self.loops()[h][1]:
            s = self.edge_imp(p, h, ())[0]
            acc = s if acc is None else acc & s
        self._lf[h] = acc or frozenset()
        return self._lf[h]

    def edge_conds(self, p, b):
        """facts on the edge p->b"""
        out = None
        for q, c in self.inedges.get(b, []):
            if q != p:
                continue
            s = set(self.facts_in.get(p, frozenset()))
            if c is not None:
                s.add(c)
            out = s if out is None else out & s
        return out or set()

    def edge_imp(self, p, b, stack):
        k = (p, b)
        r = self._ememo.get(k)
        if r is not None:
            return r, INF
        s = set()
        low = INF
        for c in self.edge_conds(p, b):
            for x in self.norm(c):
                f, l = self.imp(x, stack)
                s |= f
                low = min(low, l)
        low = min(low, self.after_loops(p, b, s))
        s = frozenset(s)
        if low >= INF:
            self._ememo[k] = s
        return s, low

    def expand(self, e, out, stack=()):
        out |= self.imp(e, stack)[0]

    def imp(self, e, stack):
        """(facts implied by e, lowest stack position the derivation was cut at)"""
        e = self.n01(e)
        r = self._imemo.get(e)
        if r is not None:
            return r, INF
        r, low = self._imp(e, stack)
        r = frozenset(r)
        if low >= len(stack):
            self._imemo[e] = r
            low = INF
        return r, low

    def _imp(self, e, stack):
        out = {e}
        low = INF
        if e.op == 'and':
            for x in e.a:
                f, l = self.imp(x, stack)
                out |= f
                low = min(low, l)
            return out, low
        t = self.head(e)
        if t is None:
            return out, low
        kind, node = t
        if kind == 'unwrap_or':
            x, d = node.a
            val = self.subst(e, lambda y: self.it.pay(x) if y is node else None)
            dv = self.subst(e, lambda y: d if y is node else None)
            if dv is FALSE:
                for z in (self.n01(self.iseq(self.it.discr(x), self._some(x))), val):
                    f, l = self.imp(z, stack)
                    out |= f
                    low = min(low, l)
            return out, low
        ph = node
        if ph in stack:
            return out, stack.index(ph)
        if len(stack) > 30:
            return out, 0
        ins = self.it.phi_in.get(ph)
        if not ins:
            return out, low
        h = ph.a[0]
        acc = None
        backs = []
        seen_any = False
        isloop = h in self.loops()
        st2 = stack + (ph,)
        for p, v in ins.items():
            if p not in self.live or not any(q == p for q, _ in self.inedges.get(h, [])):
                continue
            ev = self.subst(e, lambda y: v if y is ph else None)
            ev = self.canon(ev)
            if ev is FALSE or self.bottom(ev):
                continue
            f, l = self.edge_imp(p, h, st2)
            low = min(low, l)
            s = set(f)
            if ev is not TRUE:
                f, l = self.imp(ev, st2)
                low = min(low, l)
                s |= f
            if FALSE in s:
                continue
            seen_any = True
            if isloop and p in self.loops()[h][1]:
                if ev is TRUE:
                    s.add(FALSE)
                backs.append(s)
                continue
            acc = s if acc is None else acc & s
        if low >= len(stack):
            low = INF
        if not seen_any:
            if low >= INF:
                out.add(FALSE)       # no input can satisfy it
            return out, low
        if backs:
            if all(e in s for s in backs):
                # a monotone accumulator: true at the exit means true, and its contribution true, in every iteration
                common = set.intersection(*backs)
                if acc:
                    out |= acc
                for x in common:
                    y = self.each(h, x)
                    if y is not x:
                        out.add(mk('forall', y))
                return out, low
            for s in backs:
                s.discard(FALSE)
                acc = s if acc is None else acc & s
        if acc:
            out |= acc
        return out, low

    @staticmethod
    def bottom(e):
        while isinstance(e, E):
            if e.op == 'bottom':
                return True
            if e.op in ('le0', 'eq0', 'not', 'discr', 'b2i', 'pay', 'vproj', 'pj', 'unwrap_or', '&', 'len'):
                e = e.a[0]
            else:
                return False
        return False

    def _some(self, x):
        return 1

    def head(self, e):
        """the φ or unwrap_or that decides e"""
        while True:
            if e.op in ('not', 'eq0', 'discr', 'b2i', 'branch', 'asref', 'maperr', 'pay', 'err', 'vproj', 'copied', 'conv'):
                e = e.a[0]
            elif e.op == 'pj':
                e = e.a[0]
            elif e.op == 'ok_or':
                e = e.a[0]
            elif e.op == 'lin' and len(e.a[0]) == 1:
                e = e.a[0][0][0]
            elif e.op == 'phi':
                return ('phi', e)
            elif e.op == 'unwrap_or':
                return ('unwrap_or', e)
            else:
                return None

    # ---------------------------------------------------------- graph
    def succ(self, b):
        return [t for t, _ in self.edges.get(b, [])]

    def reach(self, start, avoid=()):
        seen = set()
        st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.succ(b))
        return seen

    def events(self, kind=None):
        for e in self.it.all_events:
            if e['block'] in self.live and (kind is None or e['kind'] == kind):
                yield e

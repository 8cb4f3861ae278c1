"""Abstract interpreter over the MIR facts: inlines local callees, keeps symbolic values,
partitions states by control facts, joins by anti-unification. No code is executed and no
solver is called; everything here is a fixpoint over abstract states."""
import heapq
import itertools
from .terms import *
from . import terms as TM

FULL = (1 << 256) - 1


def mask_of(lo, hi):
    lo = max(0, int(lo))
    hi = min(255, int(hi))
    if hi < lo:
        return 0
    return ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)


def signed_discr(o, x, y):
    """The comparison of a discriminant of Ordering, whose Less is dumped as 255, with another."""
    x, y = (INT(t.a[0] - 256) if t.k == 'int' and t.a[0] > 127 else t for t in (x, y))
    if y.k != 'int':
        x, y, o = y, x, {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[o]
    if x.k == 'int' and y.k == 'int':
        a, b = x.a[0], y.a[0]
        return INT(int({'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[o]))
    if x.k == 'app' and x.a[0] == 'discr' and y is INT(0):
        t = mkapp('eq0', addc(x, -1 if o in ('Le', 'Gt') else -255))
        return mkapp('not', t) if o in ('Le', 'Ge') else t
    return None


class Facts:
    """The fact file of one crate."""

    def __init__(self, d, base=None):
        self.d = d
        self.types = d['types']
        self.adts = d['adts']
        self.bodies = {}
        for b in d['bodies']:
            self.bodies[b['key']] = Body(b, self)
        self.impls = d['impls']
        for p, a in self.adts.items():
            DISCR[p] = [v['discr'] for v in a['variants']]

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']

    def unit_ty(self):
        for i, t in enumerate(self.types):
            if t['k'] == 'tuple' and t['s'] == '()':
                return i
        return 0

    def field(self, adt, name, variant=0):
        a = self.adts.get(adt)
        if not a:
            return None
        for i, f in enumerate(a['variants'][variant]['fields']):
            if f[0] == name:
                return i
        return None

    def variant(self, adt, name):
        a = self.adts.get(adt)
        if not a:
            return None
        for i, v in enumerate(a['variants']):
            if v['name'] == name:
                return i
        return None

    def int_range(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'bool':
            return (0, 1)
        if k == 'char':
            return (0, 0x10ffff)
        s = t['s']
        if k == 'uint':
            b = 64 if s == 'usize' else int(s[1:])
            return (0, 2 ** b - 1)
        if k == 'int':
            b = 64 if s == 'isize' else int(s[1:])
            return (-2 ** (b - 1), 2 ** (b - 1) - 1)
        return None

    def enum_range(self, i):
        t = self.types[i]
        if t['k'] == 'adt':
            a = self.adts.get(t['def'])
            if a and a['kind'] == 'enum' and a['variants']:
                ds = [v['discr'] for v in a['variants']]
                return (min(ds), max(ds))
        return None

    def strip_ref(self, i):
        while i is not None and self.types[i]['k'] in ('ref', 'ptr'):
            i = self.types[i]['to']
        return i


class Body:
    def __init__(self, b, facts):
        self.b = b
        self.facts = facts
        self.key = b['key']
        self.pretty = b['pretty']
        self.kind = b['kind']
        self.local = b['local']
        self.argc = b['argc']
        self.locals = b['locals']
        self.blocks = b['blocks']
        self.parent = b.get('parent')
        self.span = b['span']
        self.derived = b.get('derived')
        self.is_async = b.get('async')
        self._prep()

    def succs(self, i):
        t = self.blocks[i]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = [x[1] for x in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return r
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        if k == 'yield':
            return [t[1]]
        return []

    def _prep(self):
        n = len(self.blocks)
        # reachable, rpo
        seen = set()
        order = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        back = set()
        onstack = {0}
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    back.add(s)
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                onstack.discard(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.heads = back
        preds = {}
        for b in order:
            for s in set(self.succs(b)):
                preds.setdefault(s, []).append(b)
        self.preds = preds
        self.merge = {b for b in order if len(preds.get(b, ())) >= 2 or b in back}
        # borrowed locals, liveness
        borrowed = set()
        use = {}
        deff = {}
        for b in order:
            u, d = set(), set()
            bl = self.blocks[b]

            def useop(o):
                if o[0] in ('cp', 'mv'):
                    usepl(o[1])

            def usepl(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def defpl(p):
                if p[1]:
                    usepl(p)
                else:
                    d.add(p[0])
            for s in bl['s']:
                if s[0] == '=':
                    rv = s[2]
                    k = rv[0]
                    if k in ('use', 'repeat'):
                        useop(rv[1])
                    elif k == 'ref':
                        usepl(rv[2])
                        if not any(e[0] == '*' for e in rv[2][1]):
                            borrowed.add(rv[2][0])
                    elif k == 'cast':
                        useop(rv[2])
                    elif k == 'bin':
                        useop(rv[2])
                        useop(rv[3])
                    elif k == 'un':
                        useop(rv[2])
                    elif k == 'discr':
                        usepl(rv[1])
                    elif k == 'agg':
                        for o in rv[4]:
                            useop(o)
                    defpl(s[1])
                elif s[0] == 'sd':
                    usepl(s[1])
                elif s[0] in ('dead', 'sl'):
                    d.add(s[1])
            t = bl['t']
            k = t[0]
            if k == 'switch':
                useop(t[1])
            elif k == 'call':
                if t[1][0] != 'c':
                    useop(t[1])
                for o in t[2]:
                    useop(o)
                defpl(t[3])
            elif k == 'assert':
                useop(t[1])
                for o in t[4]:
                    useop(o)
            elif k == 'yield':
                defpl(t[2])
            elif k == 'return':
                u.add(0)
            use[b], deff[b] = u, d
        self.borrowed = borrowed
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in self.succs(b):
                    out |= live[s]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live

    def line(self, span):
        return '%s:%s' % (span[0], span[1])


class Frame:
    __slots__ = ('id', 'parent', 'bb', 'body', 'kind', 'order', 'depth', 'keys')

    def __init__(self, fid, parent, bb, body, kind):
        self.id = fid
        self.parent = parent
        self.bb = bb
        self.body = body
        self.kind = kind
        if parent is None:
            self.order = ()
            self.depth = 0
            self.keys = frozenset((body.key,))
        else:
            self.order = parent.order + (parent.body.rpo[bb],)
            self.depth = parent.depth + 1
            self.keys = parent.keys | {body.key}


class Ev:
    """An observable event: an opaque call, a completed await, a panic, a root's end."""
    __slots__ = ('kind', 'site', 'args', 'res', 'many', 'info')

    def __init__(self, kind, site, args=(), res=None, many=False, info=None):
        self.kind = kind
        self.site = site
        self.args = tuple(args)
        self.res = res
        self.many = many
        self.info = info

    def skel(self):
        return (self.kind, self.site, self.many)

    def key(self):
        return (self.kind, self.site, self.args, self.res, self.many)

    def __repr__(self):
        return '%s%s(%s)->%s' % ('+' if self.many else '', self.kind, ', '.join(map(repr, self.args)), self.res)


# operations whose terms are joined argument by argument
STRUCTURAL = {'slice', 'elem', 'cat', 'text', 'mapget', 'split', 'splitn', 'split_terminator', 'lines', 'trim', 'chars', 'bytesof'}


class State:
    __slots__ = ('env', 'dom', 'iv', 'ineq', 'neq', 'trace', 'mon', 'seen')

    def __init__(self):
        self.env = {}
        self.dom = {}
        self.iv = {}
        self.ineq = EMPTY
        self.neq = EMPTY
        self.trace = ()
        self.mon = ()
        self.seen = EMPTY

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.dom = dict(self.dom)
        s.iv = dict(self.iv)
        s.ineq = self.ineq
        s.neq = self.neq
        s.trace = self.trace
        s.mon = self.mon
        s.seen = self.seen
        return s

    def same(self, o):
        return (self.env == o.env and self.dom == o.dom and self.iv == o.iv and self.ineq == o.ineq
                and self.neq == o.neq and self.mon == o.mon and self.seen == o.seen
                and [e.key() for e in self.trace] == [e.key() for e in o.trace])

    # ---- reasoning

    def domain(self, a):
        m = self.dom.get(a)
        if m is None:
            r = RNG.get(a, (0, 255))
            m = mask_of(*r)
        return m

    def bounds(self, t, depth=0):
        k = t.k
        if k == 'int':
            return t.a[0], t.a[0]
        if k == 'lin':
            lo = hi = t.a[0]
            a = byte_atom(t)
            if a is not None:
                return self._bb(t, a)
            parts = t.a[1]
            g = groups(t)
            if g:
                parts = g[1]
                for y, at in g[0]:
                    l, h = self._bb(y, at)
                    lo += l
                    hi += h
            for x, w in parts:
                l, h = self.bounds(x, depth + 1)
                if w > 0:
                    lo += w * l
                    hi += w * h
                else:
                    lo += w * h
                    hi += w * l
            return lo, hi
        a = byte_atom(t)
        if a is not None:
            return self._bb(t, a)
        lo, hi = RNG.get(t, (-INF, INF))
        iv = self.iv.get(t)
        if iv:
            lo, hi = max(lo, iv[0]), min(hi, iv[1])
        if k == 'app' and depth < 8:
            o = t.a[0]
            if o == 'mod' and t.a[2].k == 'int':
                lo, hi = max(lo, 0), min(hi, t.a[2].a[0] - 1)
                l, h = self.bounds(t.a[1], depth + 1)
                if l >= 0:
                    hi = min(hi, h)
            elif o == 'div' and t.a[2].k == 'int':
                l, h = self.bounds(t.a[1], depth + 1)
                m = t.a[2].a[0]
                if l >= 0:
                    lo = max(lo, l // m if l != INF else 0)
                    if h != INF:
                        hi = min(hi, h // m)
            elif o == 'and':
                for x in t.a[1:]:
                    l, h = self.bounds(x, depth + 1)
                    if l >= 0:
                        lo = max(lo, 0)
                        hi = min(hi, h)
            elif o == 'min':
                bs = [self.bounds(x, depth + 1) for x in t.a[1:]]
                lo = max(lo, min(b[0] for b in bs))
                hi = min(hi, min(b[1] for b in bs))
            elif o in ('not', 'ge0', 'eq0', 'eq', 'and2', 'or2', 'xor2', 'same_channel'):
                lo, hi = max(lo, 0), min(hi, 1)
            elif o == 'len':
                lo = max(lo, 0)
        return lo, hi

    def _bb(self, t, a):
        d = self.domain(a)
        if t is a:
            if d == 0:
                return 0, 0
            return (d & -d).bit_length() - 1, d.bit_length() - 1
        tab = table(t)
        key = (t, d)
        r = _bbmemo.get(key)
        if r is None:
            vs = [tab[i] for i in range(256) if d >> i & 1]
            r = (min(vs), max(vs)) if vs else (0, 0)
            _bbmemo[key] = r
        return r

    def ge0(self, t, use=True):
        """Is t >= 0? True / False / None."""
        lo, hi = self.bounds(t)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if not use or not self.ineq:
            return None
        if t.k == 'lin' and len(t.a[1]) == 1 or t.k == 'app':
            c, d = lin_of(t)
            (x, w), = d.items()
            if x.k == 'app' and x.a[0] == 'div' and x.a[2].k == 'int' and x.a[2].a[0] > 0:
                # a quotient is bounded exactly as its dividend is
                k = x.a[2].a[0]
                if w > 0:
                    return self.ge0(addc(x.a[1], -k * -(c // w)))
                return self.ge0(addc(mulc(x.a[1], -1), k * (c // -w) + k - 1))
        ts = atoms(t)
        cand = [q for q in self.ineq if not atoms(q).isdisjoint(ts)]
        n = add(INT(-1), t, -1)
        for q in cand:
            if self.bounds(sub(t, q))[0] >= 0:
                return True
            if self.bounds(sub(n, q))[0] >= 0:
                return False
        allq = list(self.ineq)
        if len(allq) <= 24:
            for q in cand:
                d1 = sub(t, q)
                d2 = sub(n, q)
                for p in allq:
                    if p is q:
                        continue
                    if self.bounds(sub(d1, p))[0] >= 0:
                        return True
                    if self.bounds(sub(d2, p))[0] >= 0:
                        return False
                    if len(allq) <= 12:
                        e1 = sub(d1, p)
                        for r in allq:
                            if r is not p and r is not q and self.bounds(sub(e1, r))[0] >= 0:
                                return True
        return None

    def eq0(self, t):
        if t.k == 'int':
            return t.a[0] == 0
        a = byte_atom(t)
        if a is not None:
            d = self.domain(a)
            tab = table(t)
            vs = {tab[i] == 0 for i in range(256) if d >> i & 1}
            if vs == {True}:
                return True
            if vs == {False}:
                return False
            return None
        if t in self.neq or mulc(t, -1) in self.neq:
            return False
        g = self.ge0(t)
        if g is False:
            return False
        h = self.ge0(mulc(t, -1))
        if h is False:
            return False
        if g and h:
            return True
        return None

    def value(self, t):
        """Known integer value of a term, or None."""
        if t.k == 'int':
            return t.a[0]
        lo, hi = self.bounds(t)
        if lo == hi:
            return int(lo)
        if t.k == 'app':
            r = self.truth(t)
            if r is not None:
                return int(r)
        return None

    def truth(self, c):
        """Known truth of a boolean term: True/False/None."""
        if c.k == 'int':
            return bool(c.a[0])
        if c.k == 'app':
            o = c.a[0]
            if o == 'not':
                r = self.truth(c.a[1])
                return None if r is None else not r
            if o == 'ge0':
                return self.ge0(c.a[1])
            if o == 'eq0':
                return self.eq0(c.a[1])
            if o == 'and2':
                x, y = self.truth(c.a[1]), self.truth(c.a[2])
                if x is False or y is False:
                    return False
                return True if x and y else None
            if o == 'or2':
                x, y = self.truth(c.a[1]), self.truth(c.a[2])
                if x or y:
                    return True
                return False if x is False and y is False else None
            if o not in ('eq', 'same_channel', 'discr') and byte_atom(c) is None and c not in self.iv:
                return None
        lo, hi = self.bounds(c)
        if lo == hi:
            return bool(lo)
        return None

    def assume(self, c, val):
        """Adds 'boolean c has truth val'. False when impossible."""
        r = self.truth(c)
        if r is not None:
            return r == val
        if c.k == 'app':
            o = c.a[0]
            if o == 'not':
                return self.assume(c.a[1], not val)
            if o == 'and2' and val:
                return self.assume(c.a[1], True) and self.assume(c.a[2], True)
            if o == 'or2' and not val:
                return self.assume(c.a[1], False) and self.assume(c.a[2], False)
            if o == 'and2':
                x, y = self.truth(c.a[1]), self.truth(c.a[2])
                if x:
                    return self.assume(c.a[2], False)
                if y:
                    return self.assume(c.a[1], False)
            if o == 'or2':
                x, y = self.truth(c.a[1]), self.truth(c.a[2])
                if x is False:
                    return self.assume(c.a[2], True)
                if y is False:
                    return self.assume(c.a[1], True)
            a = byte_atom(c)
            if a is not None and not (a is c):
                return self.refine_tab(c, a, lambda v: bool(v) == val)
            if o == 'ge0':
                return self.add_ge0(c.a[1] if val else add(INT(-1), c.a[1], -1))
            if o == 'eq0':
                if val:
                    return self.add_eq0(c.a[1])
                return self.add_neq0(c.a[1])
            if o in ('and2', 'or2', 'xor2'):
                RNG.setdefault(c, (0, 1))
        RNG.setdefault(c, (0, 1))
        return self.set_dom(c, mask_of(int(val), int(val)))

    def set_dom(self, a, m):
        d = self.domain(a) & m
        if d == 0:
            return False
        self.dom[a] = d
        return True

    def refine_tab(self, t, a, pred):
        tab = table(t)
        d = self.domain(a)
        m = 0
        i = 0
        x = d
        while x:
            if x & 1 and pred(tab[i]):
                m |= 1 << i
            x >>= 1
            i += 1
        if m == 0:
            return False
        self.dom[a] = m
        return True

    def add_ge0(self, t):
        lo, hi = self.bounds(t)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        a = byte_atom(t)
        if a is not None:
            return self.refine_tab(t, a, lambda v: v >= 0)
        if t.k != 'lin' or len(t.a[1]) == 1:
            c, d = lin_of(t)
            (x, w), = d.items()
            if byte_atom(x) is None:
                l, h = self.bounds(x)
                if w > 0:
                    l = max(l, -(c // w))
                else:
                    h = min(h, c // (-w))
                if l > h:
                    return False
                self.iv[x] = (l, h)
                if x.k == 'app' and x.a[0] == 'div' and x.a[2].k == 'int' and x.a[2].a[0] > 0:
                    # what is known of a quotient is known of the dividend
                    k = x.a[2].a[0]
                    if w > 0 and not self.add_ge0(addc(x.a[1], -k * l)):
                        return False
                    if w < 0 and not self.add_ge0(addc(mulc(x.a[1], -1), k * h + k - 1)):
                        return False
                return True
        self.ineq = self.ineq | {t}
        return True

    def add_eq0(self, t):
        a = byte_atom(t)
        if a is not None:
            return self.refine_tab(t, a, lambda v: v == 0)
        if self.eq0(t) is False:
            return False
        return self.add_ge0(t) and self.add_ge0(mulc(t, -1))

    def add_neq0(self, t):
        a = byte_atom(t)
        if a is not None:
            return self.refine_tab(t, a, lambda v: v != 0)
        lo, hi = self.bounds(t)
        if lo == 0:
            return self.add_ge0(addc(t, -1))
        if hi == 0:
            return self.add_ge0(addc(mulc(t, -1), -1))
        if self.ge0(t):
            return self.add_ge0(addc(t, -1))
        if self.ge0(mulc(t, -1)):
            return self.add_ge0(addc(mulc(t, -1), -1))
        self.neq = self.neq | {t}
        return True

    def assume_val(self, t, v, equal=True):
        """Adds t == v (or t != v)."""
        if t.k == 'int':
            return (t.a[0] == v) == equal
        if t.k == 'app' and t.a[0] in ('not', 'ge0', 'eq0', 'eq', 'and2', 'or2', 'xor2', 'same_channel'):
            if v in (0, 1):
                return self.assume(t, bool(v) == equal)
            return not equal
        if t.k == 'app' and t.a[0] == 'discr':
            x = t.a[1]
            if x.k == 'app' and x.a[0] == 'cmp3':
                d = sub(x.a[1], x.a[2])
                neg = add(INT(-1), d, -1)
                if v in (255, -1):
                    return self.assume(mkapp('ge0', neg), equal)
                if v == 0:
                    return self.assume(mkapp('eq0', d), equal)
                if v == 1:
                    return self.assume(mkapp('ge0', addc(d, -1)), equal)
            if t not in RNG:
                RNG[t] = (0, 255)
        d = addc(t, -v)
        return self.add_eq0(d) if equal else self.add_neq0(d)


_bbmemo = {}
_gmemo = {}


def groups(t):
    """Components of a linear term that depend on the same byte, put together."""
    r = _gmemo.get(t, 0)
    if r == 0:
        by = {}
        for x, w in t.a[1]:
            by.setdefault(byte_atom(x), []).append((x, w))
        gs, rest = [], []
        for at, xs in by.items():
            if at is None or len(xs) == 1:
                rest += xs
            else:
                y = INT(0)
                for x, w in xs:
                    y = add(y, x, w)
                gs.append((y, at))
        r = (gs, rest) if gs else None
        _gmemo[t] = r
    return r


def rename(st, m):
    """Apply a substitution of symbols to a whole state."""
    memo = {}

    def f(t):
        return subst(t, m, memo)
    env = {}
    for c, t in st.env.items():
        if c[0] == 'H':
            c = ('H', f(c[1]))
        env[c] = f(t)
    st.env = env
    st.dom = {f(t): v for t, v in st.dom.items()}
    st.iv = {f(t): v for t, v in st.iv.items()}
    st.ineq = frozenset(f(t) for t in st.ineq)
    st.neq = frozenset(f(t) for t in st.neq)
    st.trace = tuple(Ev(e.kind, e.site, [f(x) for x in e.args], f(e.res) if e.res is not None else None, e.many, e.info)
                     for e in st.trace)


def tightest(qs):
    """Without the inequalities that others with the same variable part imply."""
    best = {}
    for q in qs:
        if q.k == 'lin':
            k = tuple(q.a[1])
            b = best.get(k)
            if b is None or q.a[0] < b.a[0]:
                best[k] = q
    return frozenset(q for q in qs if q.k != 'lin' or best[tuple(q.a[1])] is q)


class Stored:
    __slots__ = ('st', 'phis', 'count', 'pid', 'order', 'srcs', 'loc', 'pkey')


FLEETING = ('at', 'old', 'older', 'uninit', 'bad', 'gone')


class Giveup(Exception):
    pass


def istable(t):
    return t.k == 'agg' and t.a[0] == 'array' and 0 < len(t.a[2]) <= 16 and (all(x.k == 'agg' for x in t.a[2]) or
                                                                         all(x.k == 'int' for x in t.a[2]) and len(set(t.a[2])) > 1)


def indexed(x):
    """Places with an index in them."""
    if isinstance(x, list):
        if len(x) >= 2 and isinstance(x[0], int) and isinstance(x[1], list) and any(isinstance(e, list) and e and e[0] == 'i' for e in x[1]):
            return [x]
        return [p for y in x for p in indexed(y)]
    return []


class Analysis:
    """One fixpoint from one root body."""

    CAP0, CAP1, CAP2 = 64, 160, 320
    INTCAP = 6
    MAXSTEPS = 400000

    def __init__(self, facts, hooks=None, models=None, name=''):
        self.f = facts
        self.tables = {}
        self.hooks = hooks
        self.models = models or []
        self.name = name
        self.frames = {}
        self.framelist = []
        self.store = {}       # loc -> {pkey: Stored}
        self.level = {}
        self.ints = {}
        self.queue = []
        self.queued = set()
        self.steps = 0
        self.recording = False
        self.unknown = {}     # opaque callees without a model
        self.inlined = set()
        self.blocks_seen = set()
        self.edges = {}
        self.pids = {}
        self.sites = {}
        self.made = {}        # site -> symbols of the values produced there
        self.phidef = {}      # phi -> set of incoming terms
        self.cur = None
        self.finals = []

    # ---- frames

    def frame(self, parent, bb, body, kind='call'):
        k = (parent.id if parent else None, bb, body.key, kind)
        fr = self.frames.get(k)
        if fr is None:
            fr = Frame(len(self.framelist), parent, bb, body, kind)
            self.frames[k] = fr
            self.framelist.append(fr)
        return fr

    def site(self, fr, bb):
        return (fr.id, bb)

    def where(self, site):
        """Human readable call path of a site: innermost function and line, without frame ids."""
        fid, bb = site
        fr = self.framelist[fid]
        path = []
        while fr is not None:
            t = fr.body.blocks[bb]['t']
            sp = None
            for x in reversed(t):
                if isinstance(x, list) and len(x) == 3 and isinstance(x[0], str) and isinstance(x[1], int):
                    sp = x
                    break
            path.append((fr.body, sp))
            bb = fr.bb
            fr = fr.parent
        return path

    def fnname(self, site):
        for body, sp in self.where(site):
            if body.local:
                return body.pretty, sp
        b, sp = self.where(site)[0]
        return b.pretty, sp

    def describe(self, site):
        n, sp = self.fnname(site)
        return '%s%s' % (clean(n), ' (%s:%s)' % (sp[0], sp[1]) if sp else '')

    # ---- places

    def rd_cell(self, st, cell):
        t = st.env.get(cell)
        if t is None:
            if cell[0] == 'H':
                return cell[1]
            return sym('uninit', *cell)
        return t

    def read(self, st, cell, path):
        t = self.rd_cell(st, cell)
        for s in path:
            t = self.proj(st, t, s)
            if t is None:
                return None
        return t

    def proj(self, st, t, s):
        if s[0] == 'f':
            if t.k == 'ref':
                # field of a pointer-like wrapper (Pin, Box): look through
                return fld(app('ptr', t), s[1], s[2])
            return fld(t, s[1], s[2])
        if s[0] == 'ix':
            t, i = self.content(st, t), s[1]
            n = st.value(i) if t.k == 'agg' and i.k != 'int' else None
            return mkapp('elem', t, i if n is None else INT(n))
        if s[0] == 'sub':
            return mkapp('slice', self.content(st, t), s[1], s[2])
        raise Giveup('projection %r' % (s,))

    def write(self, st, cell, path, v):
        if not path:
            st.env[cell] = v
            return
        base = self.rd_cell(st, cell)
        st.env[cell] = self.wr(st, base, path, v)

    def wr(self, st, base, path, v):
        s = path[0]
        if s[0] == 'f':
            if len(path) == 1:
                return upd(base, s[1], s[2], v)
            x = fld(base, s[1], s[2])
            if x is None:
                x = sym('bad')
            return upd(base, s[1], s[2], self.wr(st, x, path[1:], v))
        if s[0] == 'ix':
            if len(path) == 1:
                x = v
            else:
                x = self.wr(st, mkapp('elem', base, s[1]), path[1:], v)
            if base.k == 'agg' and base.a[0] == 'array' and s[1].k == 'int' and s[1].a[0] < len(base.a[2]):
                fs = list(base.a[2])
                fs[s[1].a[0]] = x
                return agg('array', None, fs)
            return app('setix', base, s[1], x)
        if s[0] == 'sub':
            b = self.content(st, base)
            x = v if len(path) == 1 else self.wr(st, mkapp('slice', b, s[1], s[2]), path[1:], v)
            return mkapp('cat', mkapp('slice', b, INT(0), s[1]), x, mkapp('slice', b, s[2], mkapp('len', b)))
        raise Giveup('write %r' % (s,))

    def lv(self, st, fr, place):
        cell = ('L', fr.id, place[0])
        path = ()
        var = None
        for e in place[1]:
            k = e[0]
            if k == '*':
                t = self.read(st, cell, path)
                if t is None:
                    return None
                if t.k == 'ref':
                    cell, path = t.a
                else:
                    cell, path = ('H', t), ()
            elif k == 'f':
                path = path + (('f', var, e[1]),)
                var = None
            elif k == 'v':
                var = e[1]
            elif k == 'i':
                path = path + (('ix', self.rd_cell(st, ('L', fr.id, e[1]))),)
            elif k == 'ci':
                if e[2]:
                    b = self.read(st, cell, path)
                    path = path + (('ix', addc(mkapp('len', self.content(st, b)), -e[1])),)
                else:
                    path = path + (('ix', INT(e[1])),)
            elif k == 'oc':
                pass
            else:
                raise Giveup('place element %r' % (e,))
        return cell, path

    def rdp(self, st, fr, place):
        cp = self.lv(st, fr, place)
        if cp is None:
            return None
        t = self.read(st, *cp)
        if t is not None and len(place) > 2 and place[2] is not None:
            self.typed(t, place[2])
        return t

    def typed(self, t, ty):
        if t.k in ('sym', 'fld', 'app', 'phi') and t not in RNG:
            r = self.f.int_range(ty)
            if r:
                set_rng(t, *r)

    def op(self, st, fr, o):
        if o[0] == 'c':
            return self.const(o[1])
        if o[0] == 'rt':
            return sym('runtime checks')
        return self.rdp(st, fr, o[1])

    def const(self, c):
        if 'int' in c:
            return INT(c['int'])
        if 'str' in c:
            return STR(c['str'])
        if 'bytes' in c:
            return mk('bytes', bytes(c['bytes']))
        if 'agg' in c:
            t = self.f.types[c['ty']] if 'ty' in c else None
            d = c['agg'] or 'tuple'
            v = c.get('v')
            a = self.f.adts.get(d)
            if not a or a['kind'] != 'enum':
                v = None
            return agg(d if a else ('array' if t and t['k'] in ('array', 'slice', 'ref') else 'tuple'), v, [self.const(x) for x in c['fields']])
        if 'fn' in c:
            return mk('fn', c['fn'].get('rname') or c['fn']['name'], c.get('ty'))
        if 'zst' in c:
            t = self.f.types[c['ty']]
            if t['k'] == 'adt':
                return agg(t['def'], None, ())
            if t['k'] == 'tuple':
                return UNIT
            return mk('zst', t['s'])
        return sym('const', c.get('cname') or c.get('opaque') or self.f.tys(c['ty']))

    # ---- references and contents

    def deref(self, st, t):
        if t.k == 'ref':
            r = self.read(st, *t.a)
            return r if r is not None else sym('bad')
        return st.env.get(('H', t), t)

    def content(self, st, t):
        """The value behind any number of references."""
        n = 0
        while n < 12:
            n += 1
            if t.k == 'ref':
                x = self.read(st, *t.a)
                if x is None:
                    return sym('bad')
                t = x
            else:
                x = st.env.get(('H', t))
                if x is None or x is t:
                    return t
                t = x
        return t

    def setref(self, st, r, v):
        """Write through a reference, to the innermost place."""
        n = 0
        while n < 8 and r.k == 'ref':
            n += 1
            inner = self.read(st, *r.a)
            if inner is not None and inner.k == 'ref':
                r = inner
                continue
            self.write(st, r.a[0], r.a[1], v)
            return
        x = st.env.get(('H', r))
        if x is not None and x.k == 'ref':
            self.setref(st, x, v)
            return
        st.env[('H', r)] = v

    # ---- rvalues

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == 'use':
            return self.op(st, fr, rv[1])
        if k == 'ref':
            cp = self.lv(st, fr, rv[2])
            if cp is None:
                return None
            cell, path = cp
            if path and cell[0] == 'H' and cell not in st.env and rv[1] != 'mut':
                # shared reference into an unmodified symbolic value: the value itself
                t = self.read(st, cell, path)
                if t is not None and t.k in ('fld', 'sym', 'app', 'phi') and rv[1] in ('shared', 'imm', 'fake', ''):
                    return ref(cell, path)
            return ref(cell, path)
        if k == 'agg':
            fs = [self.op(st, fr, o) for o in rv[4]]
            if any(x is None for x in fs):
                return None
            kind, d, v = rv[1], rv[2], rv[3]
            if kind == 'adt':
                a = self.f.adts.get(d)
                if a and a['kind'] == 'union':
                    return agg(d, None, fs)
                return agg(d, v if a is None or a['kind'] == 'enum' else None, fs)
            if kind in ('tuple', 'array'):
                return agg(kind, None, fs)
            return agg(d, None, fs)
        if k == 'discr':
            t = self.rdp(st, fr, rv[1])
            if t is None:
                return None
            d = discr_of(t)
            if d.k == 'app' and d not in RNG:
                r = self.f.enum_range(rv[1][2]) if rv[1][2] is not None else None
                RNG[d] = r if r and 0 <= r[0] and r[1] <= 255 else ((0, 255) if r is None or r[0] >= 0 else r)
            return d
        if k == 'bin':
            return self.binop(st, fr, rv)
        if k == 'un':
            x = self.op(st, fr, rv[2])
            if x is None:
                return None
            if rv[1] == 'Not':
                r = self.f.int_range(rv[3]) if len(rv) > 3 and rv[3] is not None else None
                if r is None or r == (0, 1):
                    return mkapp('not', x)
                if r[0] == 0:
                    return add(INT(r[1]), x, -1)
                return add(INT(-1), x, -1)
            if rv[1] == 'Neg':
                return mulc(x, -1)
            if rv[1] == 'PtrMetadata':
                return mkapp('len', self.content(st, x))
            return app('un' + rv[1], x)
        if k == 'cast':
            return self.cast(st, fr, rv)
        if k == 'repeat':
            return app('repeat', self.op(st, fr, rv[1]))
        if k == 'tls':
            return sym('tls', str(rv[1]))
        raise Giveup('rvalue %s' % k)

    def cast(self, st, fr, rv):
        x = self.op(st, fr, rv[2])
        if x is None:
            return None
        if rv[1] == 'IntToInt':
            r = self.f.int_range(rv[3])
            if r is None:
                return x
            return self.fit(st, x, r)
        if rv[1] in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            y = app('cast' + rv[1], x)
            self.typed(y, rv[3])
            return y
        return x

    def fit(self, st, x, r):
        """Value wrapped into the range of an integer type."""
        lo, hi = st.bounds(x)
        if (lo >= r[0] or st.ge0(addc(x, -r[0]))) and (hi <= r[1] or st.ge0(add(INT(r[1]), x, -1))):
            return x
        if r[0] == 0:
            return mkapp('mod', x, INT(r[1] + 1))
        y = app('wrap', x, INT(r[0]), INT(r[1]))
        RNG.setdefault(y, r)
        return y

    def binop(self, st, fr, rv):
        o = rv[1]
        x, y = self.op(st, fr, rv[2]), self.op(st, fr, rv[3])
        if x is None or y is None:
            return None
        ty = rv[4] if len(rv) > 4 else None
        r = self.f.int_range(ty) if ty is not None else None
        if r is None and rv[2][0] != 'c':
            r = self.f.int_range(rv[2][1][2]) if rv[2][1][2] is not None else None
        isbool = r == (0, 1)
        if o in ('Eq', 'Ne'):
            if r is not None or x.k in ('int', 'lin') or y.k in ('int', 'lin'):
                if isbool and (x.k == 'int' or y.k == 'int'):
                    a, b = (x, y) if y.k == 'int' else (y, x)
                    t = a if b.a[0] else mkapp('not', a)
                else:
                    t = mkapp('eq0', sub(x, y))
            else:
                t = mkapp('eq', x, y)
            return t if o == 'Eq' else mkapp('not', t)
        if o in ('Lt', 'Le', 'Gt', 'Ge'):
            if r == (-128, 127):
                t = signed_discr(o, x, y)
                if t is not None:
                    return t
            if o == 'Lt':
                d = addc(sub(y, x), -1)
            elif o == 'Le':
                d = sub(y, x)
            elif o == 'Gt':
                d = addc(sub(x, y), -1)
            else:
                d = sub(x, y)
            return mkapp('ge0', d)
        if o == 'Cmp':
            lt = st.ge0(sub(x, y))
            if lt is False:
                return agg('core::cmp::Ordering', 0, ())
            if st.eq0(sub(x, y)):
                return agg('core::cmp::Ordering', 1, ())
            if st.ge0(addc(sub(x, y), -1)):
                return agg('core::cmp::Ordering', 2, ())
            return app('cmp3', x, y)
        if isbool and o in ('BitAnd', 'BitOr', 'BitXor'):
            return mkapp({'BitAnd': 'and2', 'BitOr': 'or2', 'BitXor': 'xor2'}[o], x, y)
        if r is None:
            return app(o, x, y)
        if o in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            m = add(x, y) if o[0] == 'A' else sub(x, y) if o[0] == 'S' else mul(x, y)
            lo, hi = st.bounds(m)
            ov = FALSE
            if lo < r[0]:
                ov = mkapp('not', mkapp('ge0', addc(m, -r[0])))
            if hi > r[1]:
                ov = mkapp('or2', ov, mkapp('not', mkapp('ge0', add(INT(r[1]), m, -1))))
            if m.k in ('app',):
                RNG.setdefault(m, r)
            return TUP(m, ov)
        if o in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            m = add(x, y) if o[0] == 'A' else sub(x, y) if o[0] == 'S' else mul(x, y)
            return self.fit(st, m, r)
        if o == 'Div':
            if y.k == 'int' and y.a[0] > 0 and st.bounds(x)[0] >= 0:
                return mkapp('div', x, y)
            t = app('sdiv', x, y)
            RNG.setdefault(t, r)
            return t
        if o == 'Rem':
            if y.k == 'int' and y.a[0] > 0 and st.bounds(x)[0] >= 0:
                return self._ranged_mod(st, x, y)
            t = app('srem', x, y)
            RNG.setdefault(t, r)
            return t
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bits(st, o, x, y, r)
        if o in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            if y.k == 'int' and y.a[0] >= 0 and st.bounds(x)[0] >= 0:
                if o[2] == 'l':
                    return self.fit(st, mulc(x, 1 << y.a[0]), r)
                return mkapp('div', x, INT(1 << y.a[0]))
            t = app('shl' if o[2] == 'l' else 'shr', x, y)
            RNG.setdefault(t, r)
            return t
        t = app(o, x, y)
        RNG.setdefault(t, r)
        return t

    def _ranged_mod(self, st, x, y):
        lo, hi = st.bounds(x)
        if lo >= 0 and hi < y.a[0]:
            return x
        return mkapp('mod', x, y)

    def bits(self, st, o, x, y, r):
        if x.k == 'int' and y.k == 'int':
            a, b = x.a[0], y.a[0]
            return INT(a & b if o == 'BitAnd' else a | b if o == 'BitOr' else a ^ b)
        if x.k == 'int':
            x, y = y, x
        if y.k == 'int' and st.bounds(x)[0] >= 0:
            m = y.a[0]
            if o == 'BitAnd':
                if m == 0:
                    return INT(0)
                if m > 0 and m & (m + 1) == 0:
                    return self._ranged_mod(st, x, INT(m + 1))
                hi = st.bounds(x)[1]
                if hi != INF and pbits(st, x) & ~m == 0:
                    return x
                if m > 0:
                    # contiguous mask: (x mod 2^h) - (x mod 2^l)
                    t = app('and', x, y)
                    RNG.setdefault(t, (0, m))
                    return t
            elif m >= 0:
                if m == 0:
                    return x
                if pbits(st, x) & m == 0:
                    return addc(x, m)
        elif o in ('BitOr', 'BitXor') and st.bounds(x)[0] >= 0 and st.bounds(y)[0] >= 0:
            if pbits(st, x) & pbits(st, y) == 0:
                return add(x, y)
        if y.id < x.id:
            x, y = y, x
        t = app({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[o], x, y)
        RNG.setdefault(t, r)
        return t

    # ---- events and symbols

    def fresh(self, st, site, what, *extra):
        """The symbol of a value produced at a site; older values of the site get other names."""
        s = sym('at', what, site, *extra)
        self.made.setdefault(site, set()).add(s)
        if s in st.seen:
            o = sym('old', what, site, *extra)
            w = sym('older', what, site, *extra)
            m = {s: o}
            if o in st.seen:
                m[o] = w
            rename(st, m)
            st.seen = st.seen | {o, w}
        else:
            st.seen = st.seen | {s}
        return s

    def age(self, st, site):
        """Before a call is made again, values of its last time get other names."""
        ms = self.made.get(site)
        if not ms or ms.isdisjoint(st.seen):
            return
        m = {}
        for s in ms & st.seen:
            o, w = (sym(x, *s.a[1:]) for x in ('old', 'older'))
            m[s] = o
            if o in st.seen:
                m[o] = w
            for x in (o, w):
                for a, b in ((x, s), (app('discr', x), app('discr', s)), (mkapp('len', x), mkapp('len', s))):
                    if b in RNG:
                        RNG.setdefault(a, RNG[b])
        rename(st, m)
        st.seen = (st.seen - ms) | set(m.values())

    def emit(self, st, kind, site, args=(), res=None, info=None):
        ev = Ev(kind, site, args, res, False, info)
        h = self.hooks
        if h is not None:
            return h.event(self, st, ev)
        return True

    def log(self, st, ev):
        """Append to the trace, folding repetitions of a site (loops)."""
        sk = (ev.kind, ev.site)
        tr = list(st.trace)
        for i, e in enumerate(tr):
            if (e.kind, e.site) == sk:
                ev.many = True
                tr[i] = ev
                st.trace = tuple(tr)
                return
        st.trace = st.trace + (ev,)

    # ---- block transfer

    def run(self, body, args, pre=None):
        """Fixpoint from a root body with argument terms."""
        fr = self.frame(None, 0, body)
        st = State()
        for i, a in enumerate(args):
            st.env[('L', fr.id, i + 1)] = a
        if pre:
            pre(st)
        self.root = fr
        self.initial = st
        self.push_state(None, fr, 0, st, force=True)
        while self.queue:
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Giveup('too many steps')
            _, _, loc, pkey = heapq.heappop(self.queue)
            if (loc, pkey) not in self.queued:
                continue
            self.queued.discard((loc, pkey))
            sd = self.store.get(loc, {}).get(pkey)
            if sd is None:
                continue
            self.process(sd)
        # final pass over the stable states, recording observations
        self.recording = True
        for loc in sorted(self.store, key=lambda l: self.order(l)):
            for sd in list(self.store[loc].values()):
                self.process(sd)
        self.recording = False
        return self

    def order(self, loc):
        fr = self.framelist[loc[0]]
        return fr.order + (fr.body.rpo[loc[1]],)

    def process(self, sd):
        self.cur = sd
        fr = self.framelist[sd.loc[0]]
        work = [(fr, sd.loc[1], sd.st.copy(), True)]
        n = 0
        while work:
            f, bb, st, first = work.pop()
            n += 1
            if n > 60000:
                raise Giveup('path explosion at %s' % (self.describe(sd.loc),))
            if not first and (bb in f.body.merge):
                self.push_state(sd, f, bb, st)
                continue
            for x in self.block(f, bb, st):
                work.append(x + (False,))

    def block(self, fr, bb, st):
        body = fr.body
        self.blocks_seen.add((body.key, bb))
        bl = body.blocks[bb]
        for s in bl['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, fr, s[2])
                if v is None:
                    return []
                cp = self.lv(st, fr, s[1])
                if cp is None:
                    return []
                if not s[1][1]:
                    self.typed(v, s[1][2]) if s[1][2] is not None else None
                self.write(st, cp[0], cp[1], v)
            elif k == 'dead' or k == 'sl':
                st.env.pop(('L', fr.id, s[1]), None)
            elif k == 'sd':
                cp = self.lv(st, fr, s[1])
                t = self.read(st, *cp)
                d = t.a[0] if t.k == 'agg' else 'adt'
                self.write(st, cp[0], cp[1], agg(d, s[2], t.a[2] if t.k == 'agg' else ()))
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [(fr, t[1], st)]
        if k == 'switch':
            return self.switch(fr, bb, st, t)
        if k == 'drop':
            return [(fr, t[2], st)]
        if k == 'return':
            return self.ret(fr, bb, st)
        if k == 'call':
            return self.call(fr, bb, st, t)
        if k == 'assert':
            return [(f, b, y) for f, b, x in self.do_assert(fr, bb, st, t) for y in self.entries(f, b, x)]
        if k == 'yield':
            self.write(st, *self.lv(st, fr, t[2]), sym('resume'))
            if self.emit(st, 'yield', self.site(fr, bb)) is False:
                return []
            return [(fr, t[1], st)]
        return []

    def entries(self, fr, bb, st):
        """The block is about to look at an entry of a table: one state for each entry it can be."""
        k = (fr.body.key, bb)
        if k not in self.tables:
            self.tables[k] = [p for s in fr.body.blocks[bb]['s'] if s[0] == '=' for p in indexed(s[2])]
        out = [st]
        for p in self.tables[k]:
            j = next(n for n, e in enumerate(p[1]) if e[0] == 'i')
            new = []
            for x in out:
                base = self.rdp(x, fr, [p[0], p[1][:j], None])
                t, i = self.content(x, base) if base is not None else None, self.rd_cell(x, ('L', fr.id, p[1][j][1]))
                new += self.each_entry(x, t, i) if t is not None and i is not None else [x]
            out = new
        return out

    def each_entry(self, st, t, i):
        if not (istable(t) and st.value(i) is None):
            return [st]
        out = []
        for n in range(len(t.a[2])):
            x = st.copy()
            if x.assume_val(i, n):
                out.append(x)
        return out

    def switch(self, fr, bb, st, t):
        x = self.op(st, fr, t[1])
        if x is None:
            return []
        out = []
        v = st.value(x)
        vals = t[2]
        if v is not None:
            for c, tgt in vals:
                if c == v or (v < 0 and (v & 0xffffffffffffffff) == c) or (v < 0 and (v & 0xff) == c):
                    return [(fr, tgt, st)]
            return [(fr, t[3], st)] if t[3] is not None else []
        rest = st
        ok = True
        for c, tgt in vals:
            s2 = rest.copy()
            if s2.assume_val(x, c):
                out.append((fr, tgt, s2))
            if not rest.assume_val(x, c, False):
                ok = False
                break
        if ok and t[3] is not None:
            out.append((fr, t[3], rest))
        return out

    def do_assert(self, fr, bb, st, t):
        c = self.op(st, fr, t[1])
        if c is None:
            return []
        exp = bool(t[2])
        bad = st.copy()
        site = self.site(fr, bb)
        if bad.assume(c, not exp):
            self.emit(bad, 'panic', site, (STR(str(t[3])),), info=t[3])
        else:
            self.emit(st, 'assert-ok', site, (), info=t[3])
        if not st.assume(c, exp):
            return []
        return [(fr, t[5], st)]

    def ret(self, fr, bb, st):
        v = st.env.get(('L', fr.id, 0), UNIT)
        if fr.parent is None:
            self.emit(st, 'end', self.site(fr, bb), (v,))
            return []
        self.popframe(st, fr)
        par = fr.parent
        t = par.body.blocks[fr.bb]['t']
        if fr.kind == 'poll':
            v = READY(v)
        elif isinstance(fr.kind, tuple):
            if self.emit(st, 'ret:' + fr.kind[0], self.site(fr, bb), (v,), info=self.facts_of(fr)) is False:
                return []
            if len(fr.kind) > 2:
                out = []
                for s2, v2 in fr.kind[2](self, fr, st, v):
                    out += self.finish_call(par, fr.bb, s2, t, v2)
                return out
            v = fr.kind[1](v)
        return self.finish_call(par, fr.bb, st, t, v)

    def facts_of(self, fr):
        """The call that a special frame runs for."""
        return fr.parent.body.blocks[fr.bb]['t']

    def popframe(self, st, fr):
        i = fr.id
        for c in [c for c in st.env if c[0] == 'L' and c[1] == i]:
            del st.env[c]

    def finish_call(self, fr, bb, st, t, v):
        if v is None:
            return []
        if t[4] is None:
            return []
        cp = self.lv(st, fr, t[3])
        if cp is None:
            return []
        if t[3][2] is not None:
            self.typed(v, t[3][2])
        self.write(st, cp[0], cp[1], v)
        return [(fr, t[4], st)]

    # ---- calls

    def call(self, fr, bb, st, t):
        f = t[1]
        self.age(st, (fr.id, bb))
        args = [self.op(st, fr, o) for o in t[2]]
        if any(a is None for a in args):
            return []
        if f[0] == 'c' and 'fn' in f[1]:
            callee = f[1]['fn']
        else:
            callee = {'name': 'indirect', 'pretty': 'indirect', 'targs': []}
        c = Call(self, fr, bb, t, callee, args)
        return self.dispatch(st, c)

    def dispatch(self, st, c):
        fr, bb, t = c.fr, c.bb, c.t
        for m in self.models:
            r = m(self, st, c)
            if r is not None:
                out = []
                for x in r:
                    if len(x) == 2:
                        out += self.finish_call(fr, bb, x[0], t, x[1])
                    else:
                        out += x[2](x[0])
                return out
        return self.default_call(st, c)

    def enter(self, st, c, body, args, kind='call'):
        """Continue in a callee's body."""
        fr = c.fr
        if body.key in fr.keys or fr.depth > 40:
            return self.recurse(st, c, body, args)
        nf = self.frame(fr, c.bb, body, kind)
        self.inlined.add(body.key)
        self.popframe(st, nf)
        if body.b.get('spread') is not None:
            # last arguments arrive as one tuple
            pass
        for i, a in enumerate(args):
            st.env[('L', nf.id, i + 1)] = a
        if 0 in body.merge:
            self.push_state(self.cur, nf, 0, st)
            return []
        return [(nf, 0, st)]

    def recurse(self, st, c, body, args):
        s = self.fresh(st, c.site, 'rec')
        if self.emit(st, 'recurse', c.site, args, s, info=body.key) is False:
            return []
        return self.finish_call(c.fr, c.bb, st, c.t, s)

    def default_call(self, st, c):
        callee = c.callee
        tr = callee.get('trait') or ''
        args = c.args
        if callee.get('shim') == 'closure_once' and callee.get('closure_once') in self.f.bodies:
            return self.call_closure(st, c, self.f.bodies[callee['closure_once']], args[0], self.untup(st, args[1]))
        if callee.get('shim') == 'fnptr' and callee.get('target'):
            tg = callee['target']
            c2 = Call(self, c.fr, c.bb, c.t, tg, self.untup(st, args[1]))
            return self.dispatch(st, c2)
        if 'ctor' in callee and callee['ctor']:
            a = self.f.adts.get(callee['ctor'])
            v = callee.get('ctor_v', 0) if a is None or a['kind'] == 'enum' else None
            return self.finish_call(c.fr, c.bb, st, c.t, agg(callee['ctor'], v, args))
        b = callee.get('body')
        if b is None and callee.get('virtual'):
            b = self.devirt(callee)
        if b is not None and b in self.f.bodies:
            body = self.f.bodies[b]
            if callee.get('method') == 'poll' and body.kind == 'coroutine':
                return self.poll_local(st, c, body)
            if body.kind == 'closure' and tr.startswith('core::ops::function::'):
                return self.call_closure(st, c, body, args[0], self.untup(st, args[1]))
            if tr.startswith('core::ops::function::') and body.kind == 'fn' and len(args) == 2 \
                    and '::ops::function::' not in body.key:
                return self.enter(st, c, body, self.untup(st, args[1]))
            return self.enter(st, c, body, args)
        return self.opaque(st, c)

    def devirt(self, callee):
        name = callee['name']
        c = [i['items'][name] for i in self.f.impls if i['trait'] == callee.get('trait') and name in i['items']]
        c = [k for k in c if k in self.f.bodies]
        return c[0] if len(c) == 1 else None

    def untup(self, st, t):
        if t.k == 'agg':
            return list(t.a[2])
        if t.k == 'zst':
            return []
        return [fld(t, None, 0)]

    def call_closure(self, st, c, body, clo, args, kind='call'):
        by_ref = self.f.types[body.locals[1][0]]['k'] == 'ref'
        if by_ref and clo.k != 'ref' and (clo.k == 'agg' or clo.k == 'zst'):
            cell = ('L', c.fr.id, 'clo%d' % c.bb)
            st.env[cell] = clo
            clo = ref(cell)
        elif not by_ref and clo.k == 'ref':
            clo = self.deref(st, clo)
        return self.enter(st, c, body, [clo] + args, kind)

    def poll_local(self, st, c, body):
        fut = self.pinned(st, c.args[0])
        out = []
        if self.allow_pending(c):
            p = st.copy()
            if self.emit(p, 'pendlocal', c.site, (STR(body.key),), info=c) is not False:
                out += self.finish_call(c.fr, c.bb, p, c.t, PENDING)
        out += self.enter(st, c, body, [fut, sym('cx')], 'poll')
        return out

    def allow_pending(self, c):
        # an ordinary .await loops back on Pending with nothing changed; only a poll inside
        # a poll function (select!) can take another branch meanwhile
        f = c.fr
        return f.body.kind != 'coroutine'

    def pinned(self, st, t):
        n = 0
        while n < 10:
            n += 1
            if t.k == 'ref':
                t = self.read(st, *t.a)
                if t is None:
                    return sym('bad')
            elif t.k == 'agg' and t.a[0] == 'core::pin::Pin':
                t = t.a[2][0]
            else:
                x = st.env.get(('H', t))
                if x is None or x is t:
                    return t
                t = x
        return t

    def opaque(self, st, c):
        """No model: unknown result, unknown new values behind mutable references."""
        callee = c.callee
        name = c.name
        self.unknown[name] = self.unknown.get(name, 0) + 1
        if callee.get('method') == 'poll' and (callee.get('trait') or '').endswith('Future'):
            out = []
            if self.allow_pending(c):
                out += self.finish_call(c.fr, c.bb, st.copy(), c.t, PENDING)
            fut = self.pinned(st, c.args[0])
            r = self.fresh(st, c.site, 'await')
            if self.emit(st, 'await:' + name, c.site, (fut,), r, info=c) is not False:
                out += self.finish_call(c.fr, c.bb, st, c.t, READY(r))
            return out
        r = self.fresh(st, c.site, 'call')
        for i, a in enumerate(c.args):
            if a.k == 'ref' or ('H', a) in st.env:
                ty = c.argty(i)
                if ty is None or (self.f.types[ty]['k'] in ('ref', 'ptr') and self.f.types[ty].get('mut')):
                    old = self.content(st, a)
                    self.setref(st, a, app('mut', r, INT(i), old))
        if self.emit(st, 'call:' + name, c.site, c.args, r, info=c) is False:
            return []
        if c.t[4] is None:
            # never returns: the task goes no further than here
            self.emit(st, 'panic', c.site, (STR(name.split('::')[-1]),), info=c)
            return []
        return self.finish_call(c.fr, c.bb, st, c.t, r)

    # ---- states at merge points

    def live_env(self, st, fr, bb):
        """Drop dead locals of all frames on the stack."""
        keep = {}
        f, b = fr, bb
        chain = {}
        first = True
        while f is not None:
            if first:
                lv = f.body.live[b]
            else:
                t = f.body.blocks[b]['t']
                tgt = t[4]
                lv = set(f.body.live[tgt]) if tgt is not None else set()
                if t[3][1]:
                    lv.add(t[3][0])
                else:
                    lv.discard(t[3][0])
            chain[f.id] = (lv, f.body.borrowed)
            b = f.bb
            f = f.parent
            first = False
        env = st.env
        drop = []
        for c in env:
            if c[0] == 'L':
                x = chain.get(c[1])
                if x is None:
                    drop.append(c)
                elif isinstance(c[2], int) and c[2] not in x[0] and c[2] not in x[1]:
                    drop.append(c)
        for c in drop:
            del env[c]
        # borrowed but dead locals: only while something refers to them
        roots = []
        cand = set()
        for c, t in env.items():
            if c[0] == 'L' and (not isinstance(c[2], int) or c[2] not in chain[c[1]][0]):
                cand.add(c)
            else:
                roots.append(t)
        if cand:
            reach = set()
            work = []
            for t in roots:
                work.extend(refcells(t))
            for e in st.trace:
                for t in e.args:
                    work.extend(refcells(t))
            while work:
                c = work.pop()
                if c in reach:
                    continue
                reach.add(c)
                t = env.get(c)
                if t is not None:
                    work.extend(refcells(t))
            for c in cand:
                if c not in reach:
                    del env[c]

    def prune(self, st):
        al = set()
        for c, t in st.env.items():
            al |= atoms(t)
            if c[0] == 'H':
                al |= atoms(c[1])
        for e in st.trace:
            for t in e.args:
                al |= atoms(t)
            if e.res is not None:
                al |= atoms(e.res)
        def keep(t):
            # the given symbols of a root stay known
            return all(x in al or (x.k == 'sym' and x.a[0] not in FLEETING) for x in atoms(t))
        st.dom = {t: m for t, m in st.dom.items() if keep(t) and m != mask_of(*RNG.get(t, (0, 255)))}
        st.iv = {t: m for t, m in st.iv.items() if keep(t)}
        st.ineq = frozenset(t for t in st.ineq if keep(t))
        st.neq = frozenset(t for t in st.neq if keep(t))
        st.seen = frozenset(s for s in st.seen if s in al)

    def pkey(self, st, loc):
        lvl = self.level.get(loc, 0)
        k = [st.mon, tuple(e.skel() for e in st.trace)]
        if lvl >= 3:
            return ('*',)
        if self.hooks is not None:
            k.append(self.hooks.key(self, st))
        if lvl < 2:
            vs = []
            for c in sorted(st.env, key=cellkey):
                s = self.skeleton(loc, c, st.env[c], st)
                if s is not None:
                    vs.append((c, s))
            k.append(tuple(vs))
        if lvl < 1 and loc[1] not in self.framelist[loc[0]].body.heads:
            fs = []
            for t, m in st.dom.items():
                if m & (m - 1) == 0 and (RNG.get(t, (0, 255))[1] <= 32 or t.k == 'app'):
                    fs.append((t.id, m))
            fs.sort()
            k.append(tuple(fs))
        return tuple(k)

    def skeleton(self, loc, c, t, st, d=0):
        k = t.k
        if k == 'int':
            seen = self.ints.setdefault((loc, c, d), set())
            if seen is None or len(seen) > self.INTCAP:
                return None
            if t.a[0] not in seen:
                seen.add(t.a[0])
                if len(seen) > self.INTCAP:
                    return None
            return t.a[0]
        if k == 'agg':
            sub_ = ()
            if d < 6 and t.a[0] != ITER:
                sub_ = tuple(self.skeleton(loc, c, x, st, d + 1) for x in t.a[2])
                if all(x is None for x in sub_):
                    sub_ = ()
            if t.a[1] is None and not sub_:
                return None
            return ('v', t.a[1], sub_)
        if k == 'ref':
            return ('r', t.a[0], tuple(s[:1] if s[0] == 'ix' else s for s in t.a[1]))
        if k in ('sym', 'fld'):
            if c[0] == 'G':
                return None
            dm = st.dom.get(app('discr', t)) if True else None
            return None
        return None

    def push_state(self, src, fr, bb, st, force=False):
        loc = (fr.id, bb)
        if self.hooks is not None:
            back = bb in fr.body.heads and src is not None and src.order >= self.order(loc)
            self.hooks.at(self, fr, bb, st, back)
        if self.recording:
            return
        self.live_env(st, fr, bb)
        self.prune(st)
        parts = self.store.setdefault(loc, {})
        key = self.pkey(st, loc)
        if key not in parts:
            lvl = self.level.get(loc, 0)
            cap = (self.CAP0, self.CAP1, self.CAP2, 10 ** 9)[lvl]
            if len(parts) >= cap:
                self.level[loc] = lvl + 1
                key = self.pkey(st, loc)
        sd = parts.get(key)
        if sd is None:
            sd = Stored()
            sd.st = st
            sd.phis = {}
            sd.count = 0
            sd.loc = loc
            sd.pkey = key
            sd.pid = self.pids.setdefault((loc, key), len(self.pids))
            sd.order = self.order(loc)
            sd.srcs = set()
            parts[key] = sd
            if src is not None:
                sd.srcs.add((src.loc, src.pkey))
            self.enqueue(sd)
            return
        if src is not None:
            sd.srcs.add((src.loc, src.pkey))
        changed = self.join(sd, st)
        if changed:
            sd.count += 1
            if sd.count > 60:
                raise Giveup('no convergence at %s' % self.describe(loc))
            if bb in fr.body.heads:
                self.clear_from(sd)
            self.enqueue(sd)

    def enqueue(self, sd):
        k = (sd.loc, sd.pkey)
        if k not in self.queued:
            self.queued.add(k)
            heapq.heappush(self.queue, (sd.order, sd.pid, sd.loc, sd.pkey))

    def clear_from(self, head):
        """Forget states derived from an older version of a loop head (inside its loop)."""
        dead = set()
        hk = (head.loc, head.pkey)
        succ = {}
        for loc, parts in self.store.items():
            for key, sd in parts.items():
                for s in sd.srcs:
                    succ.setdefault(s, []).append(sd)
        work = [head]
        while work:
            x = work.pop()
            for sd in succ.get((x.loc, x.pkey), ()):
                k = (sd.loc, sd.pkey)
                if k == hk or k in dead or sd.order <= head.order:
                    continue
                dead.add(k)
                work.append(sd)
        for loc, key in dead:
            sd = self.store[loc].pop(key)
            self.queued.discard((loc, key))
            for s in sd.srcs:
                if s not in dead and s != hk:
                    o = self.store.get(s[0], {}).get(s[1])
                    if o is not None:
                        self.enqueue(o)

    # ---- join

    def join(self, sd, Tt):
        S = sd.st
        sigma = {}
        for p, (c, path) in sd.phis.items():
            v = self._at(Tt, c, path)
            if v is None:
                v = sym('gone', p.id)
            sigma[p] = v
        moved = {p: v for p, v in sigma.items() if v is not p}
        for p, v in moved.items():
            self.phidef.setdefault(p, set()).add(v)
            r = RNG.get(p)
            if r and numeric(v):
                lo, hi = Tt.bounds(v)
                if (lo < r[0] or hi > r[1]) and r[1] <= 255:
                    TM.rerange(p, wide(lo, hi))
                    _gmemo.clear()
                    _bbmemo.clear()
        # heap cells keyed by a moved phi describe other objects now
        if moved:
            mv = set(moved)
            for c in [c for c in Tt.env if c[0] == 'H' and not atoms(c[1]).isdisjoint(mv)]:
                del Tt.env[c]
        news = []
        memo = {}
        changed = [False]
        smemo = {}

        def sub_(t):
            return subst(t, sigma, smemo) if sigma else t

        def satoms():
            r = set()
            for x in S.env.values():
                r |= atoms(x)
            return r

        def kept(r, s, t):
            """Which variant it is, when both sides know."""
            if r is s or r.k not in ('app', 'fld'):
                return r
            d = discr_of(r)
            if byte_atom(d) is d and d not in newdom:
                a, b = S.bounds(discr_of(s)), Tt.bounds(discr_of(t))
                if 0 <= a[0] and a[1] <= 255 and 0 <= b[0] and b[1] <= 255:
                    m1 = S.domain(discr_of(s)) if byte_atom(discr_of(s)) is discr_of(s) else mask_of(*a)
                    m2 = Tt.domain(discr_of(t)) if byte_atom(discr_of(t)) is discr_of(t) else mask_of(*b)
                    newdom[d] = m1 | m2
            return r

        def counted(s, t, p):
            if p.k != 'lin':
                known = satoms()
                qs = [sub(t, p)] if t.k != 'int' and atoms(t) <= known else []
                if t.k in ('phi', 'sym'):
                    qs += [subst(q, {t: p}) for q in Tt.ineq if q.k == 'lin' and any(x is t for x, _ in q.a[1])
                           and all(x is t or x in known for x, _ in q.a[1])][:6]
                for q in qs:
                    if q.k == 'lin' and S.ge0(subst(q, {p: s})):
                        newineq.append(q)
            # a difference that goes with the known values of a symbol
            d = sub(t, s) if s.k != 'int' or t.k != 'int' else s
            if d.k == 'int' and d is not s and p.k != 'lin':
                for x, (l, h) in S.iv.items():
                    if l == h and x.k != 'phi':
                        l2, h2 = Tt.iv.get(x, (0, 1))
                        if l2 == h2 and l2 - l == d.a[0] != 0:
                            e = addc(sub(sub(p, s), x), int(l))
                            newineq.append(e)
                            newineq.append(mulc(e, -1))
            # a constant that goes with the known value of a symbol
            old = {x: y for x, y, _ in news} if p.k == 'lin' else {p: s}
            for z, zs in ((s, S), (t, Tt)):
                if z.k == 'int':
                    for x, (l, h) in zs.iv.items():
                        if x.k == 'phi' or l == -INF:
                            continue
                        ds = [addc(sub(x, p), z.a[0] - int(l))]
                        if l == h:
                            ds.append(mulc(ds[0], -1))
                        if l > z.a[0]:
                            ds.append(sub(x, p))
                        for d in ds:
                            if d.k != 'int' and (zs is S or S.ge0(subst(d, old))):
                                newineq.append(d)

        def au(s, t, c, path):
            s2 = sub_(s)
            if s2 is t:
                return s
            if s.k == 'agg' and t.k == 'agg' and s.a[0] == t.a[0] and s.a[1] == t.a[1] and len(s.a[2]) == len(t.a[2]):
                return agg(s.a[0], s.a[1], [au(x, y, c, path + (('f', None, i),)) for i, (x, y) in enumerate(zip(s.a[2], t.a[2]))])
            if s.k == 'app' and t.k == 'app' and s.a[0] == t.a[0] and s.a[0] in STRUCTURAL \
                    and len(s.a) == len(t.a):
                if s.a[0] == 'slice' and s.a[1] is t.a[1]:
                    i, j = [au(s.a[n], t.a[n], c, path + (('a', n),)) for n in (2, 3)]
                    newineq.append(sub(j, i))
                    return mkapp('slice', s.a[1], i, j)
                return kept(mkapp(s.a[0], *[au(x, y, c, path + (('a', i + 1),)) for i, (x, y) in enumerate(zip(s.a[1:], t.a[1:]))]), s, t)
            if s.k == 'fld' and t.k == 'fld' and s.a[1:] == t.a[1:] and s.a[0].k in ('app', 'fld') and t.a[0].k in ('app', 'fld'):
                return kept(fld(au(s.a[0], t.a[0], c, path + (('b',),)), s.a[1], s.a[2]), s, t)
            if s.k == 'ref' and t.k == 'ref' and s.a[1] == t.a[1] and s.a[0][0] == 'H' and t.a[0][0] == 'H' \
                    and s.a[0] not in S.env and t.a[0] not in Tt.env:
                return ref(('H', au(s.a[0][1], t.a[0][1], c, path + (('b',),))), s.a[1])
            if s.k == 'sym' and t.k == 'app' and t.a[0] == 'slice' and t.a[1] is s:
                changed[0] = True
                s = app('slice', s, INT(0), mkapp('len', s))
                return mkapp('slice', s.a[1], *[au(s.a[n], t.a[n], c, path + (('a', n),)) for n in (2, 3)])
            if t.k == 'sym' and s.k == 'app' and s.a[0] == 'slice' and s.a[1] is t:
                t = app('slice', t, INT(0), mkapp('len', t))
                return mkapp('slice', s.a[1], *[au(s.a[n], t.a[n], c, path + (('a', n),)) for n in (2, 3)])
            if s is EMPTYSEQ and t.k == 'app' and t.a[0] == 'slice' and t.a[1].k == 'sym':
                s, s2 = (app('slice', t.a[1], t.a[2], t.a[2]),) * 2
                if atoms(t.a[2]) <= satoms():
                    changed[0] = True
                    return mkapp('slice', t.a[1], t.a[2], au(t.a[2], t.a[3], c, path + (('a', 3),)))
            elif t is EMPTYSEQ and s.k == 'app' and s.a[0] == 'slice' and s.a[1].k == 'sym':
                t = app('slice', s.a[1], sub_(s.a[2]), sub_(s.a[2]))
                return mkapp('slice', s.a[1], s.a[2], au(s.a[3], t.a[3], c, path + (('a', 3),)))
            if s.k == 'upd' and t.k == 'upd' and s.a[0] is t.a[0] and [x[0] for x in s.a[1]] == [x[0] for x in t.a[1]]:
                r = s.a[0]
                for (k, x), (_, y) in zip(s.a[1], t.a[1]):
                    r = upd(r, k[0], k[1], au(x, y, c, path + (('f', k[0], k[1]),)))
                return r
            if s.k == 'fut' and t.k == 'fut' and s.a[:2] == t.a[:2] and len(s.a[2]) == len(t.a[2]):
                return mk('fut', s.a[0], s.a[1], tuple(au(x, y, c, path + (('a', i),)) for i, (x, y) in enumerate(zip(s.a[2], t.a[2]))))
            changed[0] = True
            if (s, t) in memo:
                return memo[(s, t)]
            if numeric(s) and numeric(t):
                d = sub(t, s2)
                # the same, by what one of the two sides knows
                if d.k != 'int' and Tt.bounds(d) == (0, 0):
                    return s
                d0 = sub(t, s)
                if d0.k != 'int' and S.bounds(d0) == (0, 0) and not any(x in sigma for x in atoms(t)) and atoms(t) <= satoms():
                    return t
                for p, ps, pd in news:
                    k = ratio(d, pd)
                    if k is not None:
                        r = add(s, sub(p, ps), k)
                        newineq.append(r)
                        if s.k == 'int' or t.k == 'int':
                            counted(s, t, r)
                        return r
                if s.k == 'lin' and len(news) <= 12:
                    for x, y in itertools.combinations(news, 2):
                        for k in (1, -1):
                            k2 = ratio(add(d, x[2], -k), y[2])
                            if k2 is not None:
                                return add(add(s, sub(x[0], x[1]), k), sub(y[0], y[1]), k2)
            p = mk('phi', sd.loc, sd.pid, c if c[0] != 'H' else ('H', c[1].id), path)
            if p is s:
                p = mk('phi', sd.loc, sd.pid, c if c[0] != 'H' else ('H', c[1].id), path + ('+',))
            self.phidef.setdefault(p, set()).update((s, t))
            memo[(s, t)] = p
            sd.phis[p] = (c, path)
            sigma[p] = t
            smemo.clear()
            if numeric(s) and numeric(t):
                news.append((p, s, sub(t, s2)))
                l1, h1 = S.bounds(s)
                l2, h2 = Tt.bounds(t)
                r1 = RNG.get(s) or (wide(l1, h1))
                r2 = RNG.get(t) or (wide(l2, h2))
                RNG.setdefault(p, (min(r1[0], r2[0]), max(r1[1], r2[1])))
                if byte_atom(p) is None:
                    lo = min(l1, l2)
                    for w in (1, 0):
                        if lo < w and S.ge0(addc(s, -w)) and Tt.ge0(addc(t, -w)):
                            lo = w
                    newiv[p] = (lo, max(h1, h2))
                else:
                    newdom[p] = mask_of(min(l1, l2), max(h1, h2))
                newineq.append(sub(p, s))
                newineq.append(sub(s, p))
                counted(s, t, p)
            elif s.k == 'agg' or t.k == 'agg' or s.k in ('sym', 'fld', 'app', 'phi'):
                a, b = S.bounds(discr_of(s)), Tt.bounds(discr_of(t))
                if a[1] <= 255 and b[1] <= 255 and a[0] >= 0 and b[0] >= 0:
                    RNG.setdefault(app('discr', p), (0, 255))
                    m1 = S.domain(discr_of(s)) if discr_of(s).k == 'app' and byte_atom(discr_of(s)) is discr_of(s) else mask_of(*a)
                    m2 = Tt.domain(discr_of(t)) if discr_of(t).k == 'app' and byte_atom(discr_of(t)) is discr_of(t) else mask_of(*b)
                    newdom[app('discr', p)] = m1 | m2
            return p

        newiv, newdom, newineq = {}, {}, []
        env = {}
        for c in sorted(set(S.env) | set(Tt.env), key=cellkey):
            s, t = S.env.get(c), Tt.env.get(c)
            if s is None or t is None:
                if c[0] == 'H':
                    s = c[1] if s is None else s
                    t = c[1] if t is None else t
                else:
                    if s is not None:
                        changed[0] = True
                    continue
            env[c] = au(s, t, c, ())
            if c not in S.env:
                changed[0] = True
        trace = []
        for i, (x, y) in enumerate(zip(S.trace, Tt.trace)):
            args = tuple(au(a, b, ('T', i), (('a', j),)) for j, (a, b) in enumerate(zip(x.args, y.args)))
            res = None
            if x.res is not None and y.res is not None:
                res = au(x.res, y.res, ('T', i), (('a', 'r'),))
            trace.append(Ev(x.kind, x.site, args, res, x.many or y.many, x.info))
        # what held of the old values may hold of the new symbols
        by = {}
        for p, ps, _ in news:
            if ps.k in ('sym', 'fld', 'app', 'phi'):
                by.setdefault(ps, []).append(p)
        if by:
            for q in S.ineq:
                vs = [x for x, _ in q.a[1] if x in by] if q.k == 'lin' else [q] if q in by else []
                if vs and len(vs) <= 3:
                    for m in itertools.product(*[[x] + by[x][:2] for x in vs]):
                        m = {x: y for x, y in zip(vs, m) if x is not y}
                        if m:
                            q2 = subst(q, m)
                            newineq.append(q2)
                            newineq.append(addc(q2, 1))
        R = State()
        R.env = env
        R.trace = tuple(trace)
        R.mon = S.mon
        # facts: keep what holds on both sides
        widen = sd.count > 4
        for t, m in S.dom.items():
            u = sub_(t)
            if byte_atom(u) is u:
                m2 = m | Tt.domain(u)
            else:
                lo, hi = Tt.bounds(u)
                m2 = m | mask_of(lo, hi)
            if m2 != m:
                changed[0] = True
            if m2 != mask_of(*RNG.get(t, (0, 255))):
                R.dom[t] = m2
        for t, m in newdom.items():
            R.dom[t] = m
        for t, (lo, hi) in S.iv.items():
            l2, h2 = Tt.bounds(sub_(t))
            if l2 < lo and lo != -INF and Tt.ge0(addc(sub_(t), -int(lo))):
                l2 = lo
            if h2 > hi and hi != INF and Tt.ge0(add(INT(int(hi)), sub_(t), -1)):
                h2 = hi
            nl, nh = min(lo, l2), max(hi, h2)
            if (nl, nh) != (lo, hi):
                changed[0] = True
                if widen:
                    r = RNG.get(t, (-INF, INF))
                    nl = lo if nl == lo else r[0]
                    nh = hi if nh == hi else r[1]
            r = RNG.get(t, (-INF, INF))
            if nl > r[0] or nh < r[1]:
                R.iv[t] = (nl, nh)
        for t, iv in newiv.items():
            r = RNG.get(t, (-INF, INF))
            if iv[0] > r[0] or iv[1] < r[1]:
                R.iv[t] = iv
        q2 = set()
        for q in S.ineq:
            if Tt.ge0(sub_(q)):
                q2.add(q)
            else:
                changed[0] = True
        if sd.count == 0:
            for q in Tt.ineq:
                if q not in q2 and S.ge0(q) and Tt.ge0(sub_(q)):
                    q2.add(q)
                    changed[0] = True
        for q in newineq:
            if q.k != 'int' and Tt.ge0(sub_(q)):
                q2.add(q)
        R.ineq = tightest(q2)
        n2 = set()
        for q in S.neq:
            if Tt.eq0(sub_(q)) is False:
                n2.add(q)
            else:
                changed[0] = True
        R.neq = frozenset(n2)
        R.seen = S.seen | Tt.seen
        if R.seen != S.seen:
            changed[0] = True
        if not changed[0]:
            return False
        self.prune(R)
        if R.same(S):
            return False
        sd.st = R
        live = set()
        for t in env.values():
            live |= atoms(t)
        for e in R.trace:
            for t in e.args:
                live |= atoms(t)
        sd.phis = {p: x for p, x in sd.phis.items() if p in live}
        return True

    def _at(self, st, c, path):
        if c[0] == 'T':
            if c[1] >= len(st.trace):
                return None
            e = st.trace[c[1]]
            k = path[0][1]
            t = e.res if k == 'r' else e.args[k] if k < len(e.args) else None
            path = path[1:]
        else:
            t = st.env.get(c)
            if t is None and c[0] == 'H':
                t = c[1]
        for s in path:
            if t is None:
                return None
            if s == '+':
                continue
            if s[0] == 'f':
                if t.k in ('agg', 'upd', 'fld', 'sym', 'phi', 'app'):
                    t = fld(t, s[1], s[2])
                else:
                    return None
            elif s[0] == 'b':
                if t.k == 'fld':
                    t = t.a[0]
                elif t.k == 'ref' and t.a[0][0] == 'H':
                    t = t.a[0][1]
                else:
                    return None
            elif s[0] == 'a':
                if t.k == 'app' and s[1] < len(t.a):
                    t = t.a[s[1]]
                elif t.k == 'fut' and s[1] < len(t.a[2]):
                    t = t.a[2][s[1]]
                elif t.k == 'sym' and s[1] in (2, 3):          # a sequence as the slice of itself
                    t = (INT(0), mkapp('len', t))[s[1] - 2]
                else:
                    return None
        return t


ITER = 'iter'


def wide(lo, hi):
    if lo >= 0:
        return (0, 2 ** 64 - 1) if hi > 255 or True else (0, 255)
    return (-INF, INF)


def numeric(t):
    if t.k in ('int', 'lin'):
        return True
    if t in RNG:
        return True
    return t.k == 'app' and t.a[0] in ('len', 'mod', 'div', 'and', 'or', 'xor', 'shl')


def ratio(d, e):
    """k with d = k*e for a constant k, or None."""
    c1, m1 = lin_of(d)
    c2, m2 = lin_of(e)
    k = None
    if set(m1) != set(m2):
        if not m1 and c1 == 0:
            return 0
        return None
    for t in m1:
        if m1[t] % m2[t]:
            return None
        q = m1[t] // m2[t]
        if k is None:
            k = q
        elif k != q:
            return None
    if k is None:
        if c2 == 0 or c1 % c2:
            return 0 if c1 == 0 else None
        return c1 // c2
    return k if c1 == k * c2 else None


def pbits(st, x):
    """Mask of bits a non-negative term may have set."""
    a = byte_atom(x)
    if a is not None:
        d = st.domain(a)
        tab = table(x)
        m = 0
        for i in range(256):
            if d >> i & 1:
                m |= tab[i]
        return m
    lo, hi = st.bounds(x)
    if hi == INF:
        return ~0
    m = (1 << int(hi).bit_length()) - 1
    c, d = lin_of(x)
    g = c
    from math import gcd
    for w in d.values():
        g = gcd(g, w)
    z = (g & -g).bit_length() - 1 if g else 0
    return m & ~((1 << z) - 1)


def cellkey(c):
    if c[0] == 'G':
        return (3 if c[1] == 'snap' else 0, str(c[1]), 0, '')
    if c[0] == 'H':
        return (1, '', c[1].id, '')
    return (2, '', c[1], '%06d' % c[2] if isinstance(c[2], int) else str(c[2]))


def clean(n):
    return n.replace('::{closure#0}', '')


class Call:
    __slots__ = ('an', 'fr', 'bb', 't', 'callee', 'args', 'name', 'site')

    def __init__(self, an, fr, bb, t, callee, args):
        self.an = an
        self.fr = fr
        self.bb = bb
        self.t = t
        self.callee = callee
        self.args = args
        self.name = callee.get('rpretty') or callee['pretty']
        self.site = (fr.id, bb)

    def argty(self, i):
        ops = self.t[2]
        if i >= len(ops):
            return None
        o = ops[i]
        if o[0] == 'c':
            return o[1].get('ty')
        return o[1][2]

    def retty(self):
        return self.t[3][2]

"""Hash-consed symbolic terms of the abstract interpreter."""

INF = float('inf')


class T:
    __slots__ = ('k', 'a', 'id', '_atoms', '_byte', '_tab', '_has')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = _n[0]
        _n[0] += 1
        t._atoms = None
        t._byte = 0
        t._tab = None
        t._has = None
        _tab[key] = t
    return t


# ranges of symbolic integer terms, from their static types
RNG = {}


def set_rng(t, lo, hi):
    if t.k in ('int', 'lin', 'agg', 'ref', 'str'):
        return
    o = RNG.get(t)
    if o is None:
        RNG[t] = (lo, hi)
    else:
        RNG[t] = (max(lo, o[0]), min(hi, o[1]))
        if RNG[t][0] > RNG[t][1]:
            RNG[t] = o


def INT(v):
    return mk('int', int(v))


def STR(s):
    return mk('str', s)


TRUE = INT(1)
FALSE = INT(0)


def sym(*name):
    return mk('sym', *name)


def app(op, *args):
    return mk('app', op, *args)


def agg(d, v, fields):
    fields = tuple(fields)
    # eta: a rebuilt value is the value itself
    if fields and fields[0].k == 'fld' and d not in ('tuple', 'array', 'closure'):
        b = fields[0].a[0]
        w = fields[0].a[1]
        if w == v and b.k != 'phi' and all(f.k == 'fld' and f.a[0] is b and f.a[1] == w and f.a[2] == i
                                             for i, f in enumerate(fields)):
            if ETA.get((b, w)) == (d, len(fields)):
                return b
    return mk('agg', d, v, fields)


ETA = {}

UNIT = mk('agg', 'tuple', None, ())
OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
NONE = mk('agg', OPT, 0, ())
PENDING = mk('agg', POLL, 1, ())


def SOME(x):
    return agg(OPT, 1, (x,))


def OK(x):
    return agg(RES, 0, (x,))


def ERR(x):
    return agg(RES, 1, (x,))


def READY(x):
    return agg(POLL, 0, (x,))


def TUP(*xs):
    return agg('tuple', None, xs)


def ref(cell, path=()):
    if not path and cell[0] == 'H':
        return cell[1]
    return mk('ref', cell, path)


def fld(t, v, i):
    k = t.k
    if k == 'agg':
        if v is not None and t.a[1] is not None and t.a[1] != v:
            return None
        fs = t.a[2]
        if t.a[0] == 'mapentry' and v is not None:
            return t
        if i < len(fs):
            return fs[i]
        return mk('fld', t, v, i)
    if k == 'upd':
        for s, x in t.a[1]:
            if s == (v, i) or (s[1] == i and (v is None or s[0] is None)):
                return x
        return fld(t.a[0], v, i)
    return mk('fld', t, v, i)


def upd(t, v, i, x):
    if t.k == 'agg' and i < len(t.a[2]) and (v is None or t.a[1] is None or t.a[1] == v):
        fs = list(t.a[2])
        fs[i] = x
        return agg(t.a[0], t.a[1], fs)
    base, ov = (t.a[0], dict(t.a[1])) if t.k == 'upd' else (t, {})
    if fld(base, v, i) is x:
        ov.pop((v, i), None)
    else:
        ov[(v, i)] = x
    if not ov:
        return base
    return mk('upd', base, tuple(sorted(ov.items(), key=lambda e: (e[0][0] is not None, e[0][0] or 0, e[0][1]))))


# ---- linear arithmetic

def lin_of(t):
    if t.k == 'int':
        return t.a[0], {}
    if t.k == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    if len(d) > 1:
        d = _recombine(d)
        if c == 0 and len(d) == 1:
            (t, k), = d.items()
            if k == 1:
                return t
    return mk('lin', c, tuple(sorted(d.items(), key=lambda e: e[0].id)))


def _recombine(d):
    # m*div(x,m) + mod(x,m) = x
    for t in list(d):
        if t.k == 'app' and t.a[0] == 'mod' and t in d:
            x, m = t.a[1], t.a[2].a[0]
            q = app('div', x, INT(m))
            if q in d and d[q] == m * d[t]:
                k = d[t]
                del d[t], d[q]
                c, e = lin_of(x)
                if c == 0:
                    for u, w in e.items():
                        d[u] = d.get(u, 0) + k * w
                    d = {u: w for u, w in d.items() if w}
                else:
                    d[t] = k
                    d[q] = k * m
    return d


def add(a, b, k=1):
    c, d = lin_of(a)
    c2, d2 = lin_of(b)
    d = dict(d)
    for t, w in d2.items():
        d[t] = d.get(t, 0) + k * w
    return mk_lin(c + k * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = lin_of(a)
    return mk_lin(c * k, {t: w * k for t, w in d.items()})


def mul(a, b):
    if a.k == 'int':
        return mulc(b, a.a[0])
    if b.k == 'int':
        return mulc(a, b.a[0])
    if b.id < a.id:
        a, b = b, a
    return app('mul', a, b)


def addc(a, c):
    return add(a, INT(c))


# ---- structure

def kids(t):
    k = t.k
    if k == 'agg':
        return t.a[2]
    if k == 'app':
        return tuple(x for x in t.a[1:] if isinstance(x, T))
    if k == 'lin':
        return tuple(x for x, _ in t.a[1])
    if k == 'fld':
        return (t.a[0],)
    if k == 'upd':
        return (t.a[0],) + tuple(x for _, x in t.a[1])
    if k == 'fut':
        return t.a[2]
    if k == 'ref':
        c = t.a[0]
        return ((c[1],) if c[0] == 'H' else ()) + tuple(s[1] for s in t.a[1] if s[0] == 'ix')
    return ()


EMPTY = frozenset()


def atoms(t):
    """Leaf symbols (sym, phi) of a term."""
    r = t._atoms
    if r is None:
        if t.k in ('sym', 'phi'):
            r = frozenset((t,))
        else:
            ks = kids(t)
            if not ks:
                r = EMPTY
            elif len(ks) == 1:
                r = atoms(ks[0])
            else:
                s = set()
                for x in ks:
                    s |= atoms(x)
                r = frozenset(s)
        t._atoms = r
    return r


def refcells(t):
    """Cells that references inside a term point to."""
    r = t._has
    if r is None:
        s = set()
        if t.k == 'ref':
            s.add(t.a[0])
        for x in kids(t):
            s |= refcells(x)
        r = frozenset(s)
        t._has = r
    return r


def rebuild(t, f):
    """Apply f to the children and rebuild with simplification."""
    k = t.k
    if k == 'agg':
        return agg(t.a[0], t.a[1], [f(x) for x in t.a[2]])
    if k == 'app':
        return mkapp(t.a[0], *[f(x) if isinstance(x, T) else x for x in t.a[1:]])
    if k == 'lin':
        r = INT(t.a[0])
        for x, w in t.a[1]:
            r = add(r, f(x), w)
        return r
    if k == 'fld':
        b = f(t.a[0])
        r = fld(b, t.a[1], t.a[2])
        return r if r is not None else mk('fld', b, t.a[1], t.a[2])
    if k == 'upd':
        b = f(t.a[0])
        for (v, i), x in t.a[1]:
            b = upd(b, v, i, f(x))
        return b
    if k == 'fut':
        return mk('fut', t.a[0], t.a[1], tuple(f(x) for x in t.a[2]))
    if k == 'ref':
        c, p = t.a
        if c[0] == 'H':
            c = ('H', f(c[1]))
        p = tuple(('ix', f(s[1])) if s[0] == 'ix' else s for s in p)
        return ref(c, p)
    return t


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif atoms(t).isdisjoint(keys):
            r = t
        else:
            r = rebuild(t, go)
        if r is not t and t in RNG and r.k in ('app', 'fld', 'sym', 'phi') and r not in RNG:
            RNG[r] = RNG[t]
        memo[t] = r
        return r
    keys = set()
    for x in m:
        keys |= atoms(x)
    return go(t)


# ---- simplifying constructors of pure operations

def discr_of(t):
    return mkapp('discr', t)


DISCR = {}  # adt -> list of discriminants, filled in from the facts


def mkapp(op, *a):
    if op == 'discr':
        t = a[0]
        while t.k == 'upd':
            t = t.a[0]
        if t.k == 'agg' and t.a[1] is not None:
            ds = DISCR.get(t.a[0])
            return INT(ds[t.a[1]] if ds and t.a[1] < len(ds) else t.a[1])
        if t.k == 'agg' and t.a[0] == 'mapentry':       # Occupied or Vacant
            return mkapp('eq0', app('discr', mkapp('mapget', t.a[2][2], t.a[2][1])))
        return app('discr', t)
    if op == 'not':
        t = a[0]
        if t.k == 'int':
            return INT(1 - t.a[0])
        if t.k == 'app' and t.a[0] == 'not':
            return t.a[1]
        if t.k == 'app' and t.a[0] == 'ge0':
            return mkapp('ge0', add(INT(-1), t.a[1], -1))
        return app('not', t)
    if op == 'ge0':
        t = a[0]
        if t.k == 'int':
            return INT(t.a[0] >= 0)
        return app('ge0', t)
    if op == 'eq0':
        t = a[0]
        if t.k == 'int':
            return INT(t.a[0] == 0)
        if t.k == 'lin':
            # canonical sign
            if t.a[1][0][1] < 0:
                t = mulc(t, -1)
        return app('eq0', t)
    if op == 'eq':
        x, y = a
        if x is y:
            return TRUE
        if x.k == 'str' and y.k == 'str':
            return FALSE
        if y.id < x.id:
            x, y = y, x
        return app('eq', x, y)
    if op == 'and2':
        x, y = a
        if x.k == 'int':
            return y if x.a[0] else FALSE
        if y.k == 'int':
            return x if y.a[0] else FALSE
        return app('and2', *sorted((x, y)))
    if op == 'or2':
        x, y = a
        if x.k == 'int':
            return TRUE if x.a[0] else y
        if y.k == 'int':
            return TRUE if y.a[0] else x
        return app('or2', *sorted((x, y)))
    if op == 'xor2':
        x, y = a
        if x.k == 'int':
            return mkapp('not', y) if x.a[0] else y
        if y.k == 'int':
            return mkapp('not', x) if y.a[0] else x
        return app('xor2', *sorted((x, y)))
    if op == 'div':
        x, m = a
        if m.k != 'int' or m.a[0] <= 0:
            return app('div', x, m)
        m = m.a[0]
        if m == 1:
            return x
        if x.k == 'int':
            return INT(x.a[0] // m)
        if x.k == 'app' and x.a[0] == 'div' and x.a[2].k == 'int':
            return mkapp('div', x.a[1], INT(x.a[2].a[0] * m))
        if x.k == 'lin' and x.a[0] % m == 0 and all(w % m == 0 for _, w in x.a[1]):
            return mk_lin(x.a[0] // m, {t: w // m for t, w in x.a[1]})
        if x.k == 'lin':
            # a rest smaller than the divisor is dropped
            top = x.a[0] % m
            for t, w in x.a[1]:
                if w % m:
                    r = RNG.get(t)
                    if w < 0 or not r or r[0] < 0:
                        return app('div', x, INT(m))
                    top += w * r[1]
            if top < m:
                return mk_lin(x.a[0] // m, {t: w // m for t, w in x.a[1] if w % m == 0})
        return app('div', x, INT(m))
    if op == 'mod':
        x, m = a
        if m.k != 'int' or m.a[0] <= 0:
            return app('mod', x, m)
        m = m.a[0]
        if m == 1:
            return INT(0)
        if x.k == 'int':
            return INT(x.a[0] % m)
        if x.k == 'app' and x.a[0] == 'mod' and x.a[2].k == 'int' and x.a[2].a[0] % m == 0:
            return mkapp('mod', x.a[1], INT(m))
        if x.k == 'lin':
            c = x.a[0] % m
            d = {t: w % m if (w % m) * 2 <= m or w >= 0 else w for t, w in x.a[1] if w % m}
            y = mk_lin(c, d)
            if y is not x:
                return mkapp('mod', y, INT(m))
        r = RNG.get(x)
        if r and 0 <= r[0] and r[1] < m:
            return x
        return app('mod', x, INT(m))
    if op == 'len':
        t = a[0]
        k = t.k
        if k == 'str':
            return INT(len(t.a[0].encode('utf-8', 'surrogatepass')))
        if k == 'bytes':
            return INT(len(t.a[0]))
        if k == 'agg' and t.a[0] == 'array':
            return INT(len(t.a[2]))
        if k == 'app':
            o = t.a[0]
            if o == 'slice':
                return sub(t.a[3], t.a[2])
            if o == 'cat':
                r = INT(0)
                for x in t.a[1:]:
                    r = add(r, mkapp('len', x))
                return r
            if o in ('u8b', 'seq1'):
                return INT(1)
            if o == 'u16b':
                return INT(2)
            if o == 'zeros':
                return t.a[1]
            if o == 'fill':
                return t.a[2]
            if o == 'empty':
                return INT(0)
            if o == 'push':
                return addc(mkapp('len', t.a[1]), 1)
            if o in ('text', 'untext', 'seq'):
                return mkapp('len', t.a[1])
        r = app('len', t)
        if r not in RNG:
            RNG[r] = (0, 2 ** 63 - 1)
        return r
    if op == 'slice':
        b, i, j = a
        if i is j and b.k != 'sym' and not (b.k == 'app' and b.a[0] == 'slice'):
            return EMPTYSEQ
        if b.k == 'app' and b.a[0] == 'slice':
            return mkapp('slice', b.a[1], add(b.a[2], i), add(b.a[2], j))
        if i is INT(0) and mkapp('len', b) is j:
            return b
        if b.k == 'app' and b.a[0] == 'cat' and i is INT(0):
            n = INT(0)
            for k, x in enumerate(b.a[1:]):
                n = add(n, mkapp('len', x))
                if n is j:
                    return mkapp('cat', *b.a[1:k + 2])
        return app('slice', b, i, j)
    if op == 'cat':
        parts = []
        for x in a:
            xs = x.a[1:] if x.k == 'app' and x.a[0] == 'cat' else (x,)
            for y in xs:
                if y is EMPTYSEQ or (parts and isempty(y)):
                    continue
                if y.k == 'app' and y.a[0] == 'u8b' and y.a[1].k == 'app' and y.a[1].a[0] == 'elem' \
                        and y.a[1].a[1].k == 'sym' and y.a[1].a[1].a[0] == 'IN':
                    y = app('slice', y.a[1].a[1], y.a[1].a[2], addc(y.a[1].a[2], 1))
                elif y.k == 'app' and y.a[0] == 'u8b' and y.a[1].k == 'app' and y.a[1].a[0] == 'discr':
                    # the values of a list of enumerators, as bytes
                    e = y.a[1].a[1]
                    if e.k == 'app' and e.a[0] == 'elem' and e.a[1].k == 'sym':
                        y = app('slice', sym('values', e.a[1]), e.a[2], addc(e.a[2], 1))
                if parts:
                    p = parts[-1]
                    pb, pi, pj = _as_slice(p)
                    yb, yi, yj = _as_slice(y)
                    if pb is yb and pj is yi:
                        parts[-1] = mkapp('slice', pb, pi, yj)
                        continue
                if parts and isempty(parts[-1]):
                    parts.pop()
                parts.append(y)
        if not parts:
            return EMPTYSEQ
        if len(parts) == 1:
            return parts[0]
        return app('cat', *parts)
    if op == 'text':
        return app('text', a[0])
    if op == 'elem':
        s, i = a
        if i.k == 'int':
            if s.k == 'agg' and s.a[0] == 'array' and i.a[0] < len(s.a[2]):
                return s.a[2][i.a[0]]
        while s.k == 'app' and s.a[0] == 'slice':
            s, i = s.a[1], add(s.a[2], i)
        r = app('elem', s, i)
        if s.k == 'sym' and s.a[0] in ('IN', 'OUT'):
            RNG.setdefault(r, (0, 255))
        return r
    if op == 'mapget':
        m, k = a
        if m.k == 'app':
            o = m.a[0]
            if o == 'emptymap':
                return NONE
            if o == 'ins' and m.a[2] is k:
                return SOME(m.a[3])
            if o == 'del' and m.a[2] is k:
                return NONE
        r = app('mapget', m, k)
        RNG.setdefault(app('discr', r), (0, 1))
        return r
    if op == 'same_channel':
        x, y = a
        if x is y:
            return TRUE
        return app('same_channel', *sorted((x, y)))
    return app(op, *a)


def isempty(t):
    return t is EMPTYSEQ or (t.k == 'app' and t.a[0] == 'slice' and t.a[2] is t.a[3])


def _as_slice(t):
    if t.k == 'app' and t.a[0] == 'slice':
        return t.a[1], t.a[2], t.a[3]
    return t, INT(0), mkapp('len', t)


EMPTYSEQ = app('empty')


# ---- byte functions: terms that depend on a single 8-bit symbol

EVAL = {'div', 'mod', 'and', 'or', 'xor', 'shl', 'ge0', 'eq0', 'not', 'and2', 'or2', 'xor2', 'trunc', 'mul'}


def byte_atom(t):
    """The single 8-bit leaf an integer term is a function of, or None."""
    r = t._byte
    if r == 0:
        r = None
        if t.k == 'lin' or (t.k == 'app' and t.a[0] in EVAL):
            s = {byte_atom(x) if x.k != 'int' else True for x in kids(t)}
            s.discard(True)
            r = s.pop() if len(s) == 1 else None
        elif RNG.get(t) and RNG[t][0] >= 0 and RNG[t][1] <= 255:
            r = t
        elif t.k in ('sym', 'fld', 'app') and t not in RNG:
            return None
        t._byte = r
    return r


def table(t):
    """Values of a byte function for the atom values 0..255."""
    if t._tab is None:
        a = byte_atom(t)
        memo = {}

        def go(x):
            if x is a:
                return list(range(256))
            if x.k == 'int':
                return [x.a[0]] * 256
            if x in memo:
                return memo[x]
            if x.k == 'lin':
                r = [x.a[0]] * 256
                for y, w in x.a[1]:
                    v = go(y)
                    r = [p + w * q for p, q in zip(r, v)]
            else:
                o = x.a[0]
                v = [go(y) for y in x.a[1:]]
                f = OPS[o]
                r = [f(*z) for z in zip(*v)]
            memo[x] = r
            return r
        t._tab = go(t)
    return t._tab


def _trunc(v, bits):
    return v & ((1 << bits) - 1)


OPS = {
    'div': lambda x, m: x // m if m else 0, 'mod': lambda x, m: x % m if m else 0,
    'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
    'shl': lambda x, y: x << y, 'ge0': lambda x: int(x >= 0), 'eq0': lambda x: int(x == 0),
    'not': lambda x: 1 - x, 'and2': lambda x, y: x & y, 'or2': lambda x, y: x | y,
    'xor2': lambda x, y: x ^ y, 'trunc': _trunc, 'mul': lambda x, y: x * y,
}


def rerange(p, r):
    """A joined symbol turned out not to be a byte."""
    RNG[p] = r
    for t in list(_tab.values()):
        if t._byte is p:
            t._byte = 0
            t._tab = None


# ---- printing

def show(t, depth=6):
    if depth == 0:
        return '…'
    d = depth - 1
    k = t.k
    if k == 'int':
        return str(t.a[0])
    if k == 'str':
        return repr(t.a[0])
    if k == 'bytes':
        return repr(t.a[0])
    if k == 'sym':
        return '$' + '.'.join(str(x) for x in t.a)
    if k == 'phi':
        return 'φ%d' % t.id
    if k == 'lin':
        s = [str(t.a[0])] if t.a[0] else []
        for x, w in t.a[1]:
            s.append(('' if w == 1 else '%s*' % w) + show(x, d))
        return '(' + ' + '.join(s) + ')'
    if k == 'agg':
        n = t.a[0].split('::')[-1]
        v = '' if t.a[1] is None else '#%s' % t.a[1]
        return n + v + '{' + ', '.join(show(x, d) for x in t.a[2]) + '}'
    if k == 'fld':
        return show(t.a[0], d) + ('.' if t.a[1] is None else '#%s.' % t.a[1]) + str(t.a[2])
    if k == 'upd':
        return show(t.a[0], d) + '[' + ', '.join('%s:=%s' % (s[1], show(x, d)) for s, x in t.a[1]) + ']'
    if k == 'ref':
        c = t.a[0]
        cs = '*' + show(c[1], d) if c[0] == 'H' else ':'.join(str(x) for x in c)
        return '&' + cs + ''.join('.%s' % (s[0] if s[0] != 'ix' else show(s[1], d),) for s in t.a[1])
    if k == 'fut':
        return 'fut<%s>(%s)' % (t.a[0].split('::')[-1], ', '.join(show(x, d) for x in t.a[2]))
    if k == 'app':
        return t.a[0] + '(' + ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in t.a[1:]) + ')'
    return k + str(t.a)

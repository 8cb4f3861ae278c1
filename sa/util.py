"""Helpers shared by the rules: obligations, violations, comparison of terms."""
from .terms import *
from . import core, models
from .core import numeric
from .models import IN, OUT


class Report:
    """Obligations decided on this run, and the violated ones."""

    def __init__(self):
        self.obl = {}      # (property, rule, construct) -> [ok, detail]
        self.roots = []
        self.notes = []
        self.stats = []     # (kind, name, numbers) of every analysis

    def numbers(self):
        out = []
        for kind, name, r in self.stats:
            out.append(dict({'kind': kind, 'name': name}, **{k: v for k, v in r.items() if isinstance(v, (int, list)) and k != 'fails'}))
        return out

    def ok(self, prop, rule, construct, detail=''):
        for p in prop.split():
            self.obl.setdefault((p, rule, construct), [True, detail])

    def bad(self, prop, rule, construct, detail=''):
        for p in prop.split():
            o = self.obl.setdefault((p, rule, construct), [False, detail])
            if o[0]:
                o[0] = False
                o[1] = detail

    def check(self, cond, prop, rule, construct, detail=''):
        (self.ok if cond else self.bad)(prop, rule, construct, '' if cond else detail)
        return cond


class Hooks:
    """Base class of the rule monitors."""

    def __init__(self, rep, where=''):
        self.rep = rep
        self.where = where
        self.rootname = where

    def event(self, an, st, ev):
        return True

    def at(self, an, fr, bb, st, back):
        pass

    def put(self, an, st, c, v, x):
        return x

    def key(self, an, st):
        """What else keeps states apart."""
        return ()

    # reporting (only in the final pass over the fixpoint)

    def ok(self, an, prop, rule, site, detail=''):
        if an.recording:
            self.rep.ok(prop, rule, self.place(an, site), detail)

    def bad(self, an, prop, rule, site, detail=''):
        if an.recording:
            self.rep.bad(prop, rule, self.place(an, site), detail + self.at_line(an, site))

    def check(self, an, cond, prop, rule, site, detail=''):
        if cond:
            self.ok(an, prop, rule, site)
        else:
            self.bad(an, prop, rule, site, detail() if callable(detail) else detail)
        return cond

    def place(self, an, site):
        """The construct: root and innermost local function, without line numbers."""
        if site is None:
            return self.where
        n, _ = an.fnname(site)
        n = core.clean(n)
        return '%s' % n if n == self.where else '%s in %s' % (n, self.where)

    def at_line(self, an, site):
        if site is None:
            return ''
        _, sp = an.fnname(site)
        return ' [%s:%s]' % (sp[0], sp[1]) if sp else ''


def strip_text(t):
    """The bytes behind a text term, however they were converted."""
    while t.k == 'app' and t.a[0] in ('text', 'lossy', 'unchecked'):
        t = t.a[1]
    return t


def as_slice(t):
    if t.k == 'app' and t.a[0] == 'slice':
        return t.a[1], t.a[2], t.a[3]
    return t, INT(0), mkapp('len', t)


def eqnum(st, a, b):
    if a is b:
        return True
    if not (numeric(a) and numeric(b)):
        return False
    d = sub(a, b)
    if d.k == 'int':
        return d.a[0] == 0
    return st.eq0(d) is True


def empty(st, t):
    if isempty(t):
        return True
    n = mkapp('len', t)
    return st.eq0(n) is True if n.k != 'int' else n.a[0] == 0


def same(st, a, b):
    """Provably equal values."""
    if a is b:
        return True
    if a.k == 'phi' or b.k == 'phi':
        if not (numeric(a) and numeric(b)):
            return False
    if a.k == 'agg' and b.k == 'agg':
        return a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and \
            all(same(st, x, y) for x, y in zip(a.a[2], b.a[2]))
    if a.k == 'app' and b.k == 'app' and a.a[0] == 'text' and b.a[0] == 'text':
        return same(st, a.a[1], b.a[1])
    if seqlike(a) or seqlike(b):
        if empty(st, a) and empty(st, b):
            return True
        x, i, j = as_slice(a)
        y, k, l = as_slice(b)
        return x is y and eqnum(st, i, k) and eqnum(st, j, l)
    return eqnum(st, a, b)


def seqlike(t):
    return t is EMPTYSEQ or (t.k == 'app' and t.a[0] in ('slice', 'cat'))


def dom_vals(st, a):
    d = st.domain(a)
    return [i for i in range(256) if d >> i & 1]


def eqtab(st, t, atom, f):
    """t equals f(atom) for every value the atom can still have."""
    vs = dom_vals(st, atom)
    if t.k == 'int':
        return all(f(v) == t.a[0] for v in vs)
    if t.k == 'lin' or byte_atom(t) is not None:
        if byte_atom(t) is not atom:
            b = st.bounds(t)
            return b[0] == b[1] and all(f(v) == b[0] for v in vs)
        tab = table(t)
        return all(tab[v] == f(v) for v in vs)
    return False


def byte_at(base, i):
    x = mkapp('elem', base, i)
    if x.k == 'app':
        RNG.setdefault(x, (0, 255))
    return x


def u16_at(base, i):
    return add(mulc(byte_at(base, i), 256), byte_at(base, addc(i, 1)))


def fld_of(facts, adt, name, t, v=0):
    i = facts.field(adt, name, v)
    if i is None:
        return None
    a = facts.adts[adt]
    return fld(t, v if a['kind'] == 'enum' else None, i)


class Scan:
    """What is known about the characters of a text: mixed into a monitor.

    chars: the characters asked about; levels: whether it is enough that no level is one of them."""
    chars = ''
    levels = False

    def lacks(self, st, t, ch):
        """On this path the text is known not to contain the character."""
        for p in models.PATTERNS.get(t, ()):
            cs = list(p.a[2]) if p.k == 'agg' and p.a[0] == 'array' else [p]
            if any(q is INT(ord(ch)) or q is STR(ch) for q in cs) and (
                    st.truth(mkapp('contains', t, p)) is False or
                    st.value(discr_of(app('find', t, p))) == 0 or st.value(discr_of(app('rfind', t, p))) == 0):
                return True
        if st.truth(app('member', t, INT(ord(ch)))) is False:
            return True
        return ('G', ('lacks', t, ch)) in st.env

    def scanned(self, src):
        """The text whose characters, bytes or levels src enumerates."""
        if self.is_text(src):
            return src
        if src.k == 'app' and (src.a[0] in ('chars', 'bytesof', 'char_indices') or
                               self.levels and src.a[0] == 'split' and src.a[2] in (INT(47), STR('/'))):
            return src.a[1]
        return None

    def is_text(self, t):
        return t.k == 'app' and t.a[0] == 'text'

    def can_be(self, st, src, x, ch):
        s2 = st.copy()
        if src.a[0] == 'split':
            return bool(s2.assume(mkapp('eq', x, STR(ch)), True))
        if src.a[0] == 'char_indices':
            x = fld(x, None, 1)
        return bool(s2.assume(mkapp('eq0', addc(x, -ord(ch))), True))

    def scan_event(self, an, st, ev):
        k = ev.kind
        if k not in ('next', 'next-end', 'search:none'):
            return
        src = ev.args[0]
        if k == 'search:none' and src.k == 'agg' and src.a[0] == 'array':
            # a test that fails for every element of a list of constants
            for t, ps in list(models.PATTERNS.items()):
                if ev.args[2] in ps and st.truth(mkapp('contains', t, ev.args[2])) is False:
                    for q in src.a[2]:
                        if q.k in ('int', 'str'):
                            st.env[('G', ('lacks', t, q.a[0] if q.k == 'str' else chr(q.a[0])))] = INT(1)
            return
        t = self.scanned(src)
        if t is None:
            return
        if k == 'next':
            st.env[('G', ('scan', src))] = ev.args[2]
        elif k == 'next-end':
            for ch in self.chars:
                if ('G', ('maybe', t, ch)) not in st.env:
                    st.env[('G', ('lacks', t, ch))] = INT(1)
        else:
            for ch in self.chars:
                if not self.can_be(st, src, ev.args[2], ch):
                    st.env[('G', ('lacks', t, ch))] = INT(1)

    def scan_at(self, an, st, back):
        # before the next character: what is known of this one
        if not back:
            return
        for c in [c for c in st.env if c[0] == 'G' and isinstance(c[1], tuple) and c[1][0] == 'scan']:
            x = st.env.pop(c)
            for ch in self.chars:
                if self.can_be(st, c[1][1], x, ch):
                    st.env[('G', ('maybe', c[1][1].a[1], ch))] = INT(1)

    def scan_key(self, st):
        return tuple(sorted(str(c[1]) for c in st.env if c[0] == 'G' and isinstance(c[1], tuple) and c[1][0] == 'maybe'))

"""The credential store of the broker (A03): what is loaded, and when authentication succeeds."""
from .terms import *
from . import core, models
from .core import Analysis, numeric
from .util import *
from .models import one, T, mkiter, mapget
from .evloop import callees

COLON = (INT(58), STR(':'))


def fork(an, st, c, good, bad):
    """Success or failure."""
    e = st.copy()
    return [(st, OK(good(st))), (e, ERR(bad(e)))]


class StoreHooks(Hooks):
    PROPS = 'A03'

    def __init__(self, rep, where, facts):
        Hooks.__init__(self, rep, where)
        self.f = facts
        self.anchors = set()
        self.turns = 0

    def g(self, st, n):
        return st.env.get(('G', n))

    def s(self, st, n, v=INT(1)):
        if v is None:
            st.env.pop(('G', n), None)
        else:
            st.env[('G', n)] = v

    def key(self, an, st):
        return tuple(sorted(c[1] for c in st.env if c[0] == 'G'))

    def models(self, an, st, c):
        n = core.clean(c.name)
        w = n.split('::')[-1]
        if n == 'std::fs::read_to_string':
            self.anchors.add('read')
            f = an.content(st, c.args[0])
            r = fork(an, st, c, lambda s: app('filetext', f), lambda s: an.fresh(s, c.site, 'ioerr'))
            self.s(r[1][0], 'ioerr')
            return r
        if n == 'std::fs::File::open' or n == 'std::fs::read':
            f = an.content(st, c.args[0])
            r = fork(an, st, c, lambda s: app('file', f) if w == 'open' else app('filetext', f), lambda s: an.fresh(s, c.site, 'ioerr'))
            self.s(r[1][0], 'ioerr')
            return r
        if w in ('read_to_string', 'read_to_end') and len(c.args) == 2:
            f = an.content(st, c.args[0])
            if f.k == 'app' and f.a[0] == 'file' and isempty(an.content(st, c.args[1])):
                r = fork(an, st, c, lambda s: an.fresh(s, c.site, 'n'), lambda s: an.fresh(s, c.site, 'ioerr'))
                an.setref(r[0][0], c.args[1], app('filetext', f.a[1]))
                self.s(r[1][0], 'ioerr')
                return r
        if n.split('::')[-2:-1] == ['BufReader'] and w in ('new', 'with_capacity'):
            return one(st, c.args[-1])
        if w == 'lines' and 'BufRead' in n:
            f = an.content(st, c.args[0])
            if f.k == 'app' and f.a[0] == 'file':
                return one(st, mkiter(app('lines', app('filetext', f.a[1]), INT(1))))
        if w == 'next' and c.args:
            it = an.content(st, c.args[0])
            if it.k == 'agg' and it.a[0] == 'iter' and it.a[2][0].k == 'app' and it.a[2][0].a[0] == 'lines' and len(it.a[2][0].a) == 3:
                out = []
                for s, v in models.iter_next(an, st, c) or []:
                    if v is NONE:
                        out.append((s, v))
                        continue
                    e = s.copy()
                    self.s(e, 'ioerr')
                    line = app('elem', app('lines', it.a[2][0].a[1]), it.a[2][1])
                    out.append((s, SOME(OK(line))))
                    out.append((e, SOME(ERR(an.fresh(e, c.site, 'ioerr')))))
                return out
        if n == 'password_hash::PasswordHash::new':
            x = an.content(st, c.args[0])
            r = fork(an, st, c, lambda s: app('phash', x), lambda s: an.fresh(s, c.site, 'hasherr'))
            self.s(r[1][0], 'refused')
            return r
        if w == 'verify_password':
            owner = n.split('::')[-2]
            if owner == 'PasswordHash':
                h, pw = c.args[0], c.args[2]
            else:
                pw, h = c.args[1], c.args[2]
            pw, h = strip_text(an.content(st, pw)), an.content(st, h)
            self.anchors.add('verify')
            e = st.copy()
            self.s(st, 'verified', TUP(pw, h))
            self.s(e, 'refused')
            return [(st, OK(UNIT)), (e, ERR(an.fresh(e, c.site, 'wrong')))]
        return None

    def lookup(self, an, st, c):
        return self.models(an, st, c) or models.lookup(an, st, c)


class Authenticate(StoreHooks):
    """Ok exactly when the entry of that user exists, parses and verifies the password."""

    def __init__(self, rep, where, facts, store, user, password):
        StoreHooks.__init__(self, rep, where, facts)
        self.store, self.user, self.password = store, user, password
        self.stores = set()

    def event(self, an, st, ev):
        if ev.kind == 'end':
            self.turns += an.recording
            self.on_end(an, st, ev, ev.args[0])
        elif ev.kind.startswith('call:') and ('password' in ev.kind or 'argon2' in ev.kind) and an.recording \
                and not ev.kind.endswith('::default'):
            self.rep.notes.append(('password call', ev.kind))
        return True

    def on_end(self, an, st, ev, v):
        d = st.value(discr_of(v))
        if not self.check(an, d is not None, 'A03', 'decided', ev.site, 'returns %s' % v):
            return
        ver = self.g(st, 'verified')
        good = False
        if ver is not None:
            pw, h = ver.a[2]
            if h.k == 'app' and h.a[0] == 'phash':
                e = h.a[1]
                # the stored value under the given name
                if e.k == 'fld' and e.a[0].k == 'app' and e.a[0].a[0] == 'mapget':
                    m, k = e.a[0].a[1:3]
                    good = m.k == 'fld' and m.a[0] is self.store and k is self.user and pw is self.password
                    if good:
                        self.stores.add(m.a[2])
        if d == 0:
            self.anchors.add('ok')
            self.check(an, good, 'A03', 'only-the-stored-hash', ev.site,
                       'succeeds, having verified %s' % ('nothing' if ver is None else '%s against %s' % ver.a[2]))
        else:
            self.anchors.add('err')
            self.check(an, not good, 'A03', 'accepts-the-right-password', ev.site, 'fails although the password verifies')
            if not good:
                missing = any(st.value(discr_of(mapget(m, self.user))) == 0 for m in self.maps(st))
                self.check(an, missing or self.g(st, 'refused') is not None, 'A03', 'accepts-the-right-password', ev.site,
                           'fails although there is an entry and its hash was not asked')

    def maps(self, st):
        """The parts of the store that are maps."""
        return [fld(self.store, None, i) for i in range(16)]


class Load(StoreHooks):
    """Every line of the file becomes one entry, split at its first colon; otherwise loading fails."""

    def __init__(self, rep, where, facts, name, adt):
        StoreHooks.__init__(self, rep, where, facts)
        self.name, self.adt = name, adt
        self.lines = app('lines', app('filetext', name))
        self.field = None

    def start(self, an, st):
        self.s(st, 'n', INT(0))
        self.s(st, 'map', app('emptymap'))

    def splits(self, t, which):
        """The line of which the text is the part before (after) the first colon."""
        if t.k != 'app':
            return None
        op = t.a[0]
        if op == ('before', 'after')[which] and t.a[2] in COLON:
            return t.a[1]
        if op == 'elem' and t.a[2] is INT(which) and t.a[1].k == 'app':
            q = t.a[1]
            if q.a[0] == 'splitn' and INT(2) in q.a[2:] and any(x in COLON for x in q.a[2:]):
                return [x for x in q.a[1:] if x.k != 'int' and x not in COLON][0]
            if q.a[0] == 'split' and which == 0 and q.a[2] in COLON:
                return q.a[1]
        if op == 'slice':
            src, i, j = t.a[1:4]
            for d in COLON:
                at = fld(app('find', src, d), 1, 0)
                if which == 0 and i is INT(0) and j is at:
                    return src
                if which == 1 and i is addc(at, 1) and j is mkapp('len', src):
                    return src
        return None

    def nocolon(self, st, line):
        return any(st.truth(mkapp('contains', line, d)) is False or st.value(discr_of(app('find', line, d))) == 0 or
                   any(st.ge0(addc(sub(INT(1), mkapp('len', q)), 0)) is True for q in (app('splitn', line, INT(2), d),))
                   for d in COLON)

    def event(self, an, st, ev):
        k = ev.kind
        if k == 'map.insert':
            self.anchors.add('insert')
            self.on_insert(an, st, ev)
        elif k in ('map.remove', 'map.clear', 'map.retain', 'map.ensure', 'map.getmut'):
            self.bad(an, 'A03', 'one-entry-per-line', ev.site, '%s while loading' % k)
        elif k == 'next' and ev.args[0] is self.lines:
            self.s(st, 'cur', ev.args[2])
            if self.g(st, 'all') is not None:
                return all(st.assume(mkapp('contains', ev.args[2], d), True) for d in COLON)
        elif k == 'search:found' and ev.args[0] is self.lines:
            self.s(st, 'cur', ev.args[2])
        elif k == 'search:none' and ev.args[0] is self.lines:
            if any(st.truth(mkapp('contains', ev.args[2], d)) is True for d in COLON):
                self.s(st, 'all')
        elif k == 'next' and len(ev.args[0].a) == 3 and ev.args[0].a[:2] == self.lines.a:
            self.s(st, 'cur', app('elem', self.lines, ev.args[1]))
        elif k == 'end':
            self.turns += an.recording
            self.on_end(an, st, ev, ev.args[0])
        return True

    def on_insert(self, an, st, ev):
        ref_, m, k, v = ev.args[:4]
        v = an.content(st, v)
        n = self.g(st, 'n')
        a, b = self.splits(k, 0), self.splits(v, 1)
        good = a is not None and a is b
        if self.check(an, good, 'A03', 'split-at-first-colon', ev.site, 'stores %s under %s' % (v, k)):
            line = a.k == 'app' and a.a[0] == 'elem' and a.a[1] is self.lines
            self.check(an, line and eqnum(st, a.a[2], n), 'A03', 'one-entry-per-line', ev.site, 'stores the entry of %s as number %s' % (a, n))
        self.check(an, m is self.g(st, 'map'), 'A03', 'one-entry-per-line', ev.site, 'stores entries in different places')
        self.s(st, 'n', addc(n, 1))
        self.s(st, 'map', app('ins', m, k, v))

    def on_end(self, an, st, ev, v):
        d = st.value(discr_of(v))
        if not self.check(an, d is not None, 'A03', 'decided', ev.site, 'returns %s' % v):
            return
        if d == 0:
            self.anchors.add('ok')
            n = self.g(st, 'n')
            every = any(eqnum(st, mkapp('len', q), n) or st.ge0(sub(n, mkapp('len', q))) is True
                        for q in (self.lines, app('lines', self.lines.a[1], INT(1))))
            self.check(an, every, 'A03', 'one-entry-per-line', ev.site, 'succeeds after %s entries' % n)
            x = an.content(st, fld(v, 0, 0) if v.k != 'agg' else v.a[2][0])
            fs = [i for i, y in enumerate(x.a[2]) if y is self.g(st, 'map')] if x.k == 'agg' and x.a[0] == self.adt else []
            if self.check(an, len(fs) == 1, 'A03', 'loaded-entries-are-used', ev.site, 'returns %s' % x):
                self.field = fs[0]
        else:
            self.anchors.add('err')
            line = self.g(st, 'cur')
            self.check(an, self.g(st, 'ioerr') is not None or line is not None and self.nocolon(st, line), 'A03', 'fails-only-without-colon',
                       ev.site, 'fails for another reason than a line without colon')


def text_arg(st, n):
    return ref(('H', sym(n)))


def check(facts, rep):
    impls = [i for i in facts.impls if i['trait'] and i['trait'].split('::')[-1] == 'IdentityProvider']
    rep.check(bool(impls), 'A03', 'anchor', 'identity provider', 'there is none')
    done = {}
    for i in impls:
        adt = 'ratelmq::' + i['self']
        for n, k in sorted(i['items'].items()):
            b = facts.bodies.get(k)
            if n.split('::')[-1] != 'authenticate' or b is None:
                continue
            where = core.clean(b.pretty)
            self_ = ref(('H', sym('self')))
            h = Authenticate(rep, where, facts, sym('self'), sym('user'), sym('password'))
            an = Analysis(facts, h, [h.lookup], 'authenticate')
            an.run(b, [self_, sym('user'), sym('password')])
            for a in ('verify', 'ok', 'err'):
                rep.check(a in h.anchors, 'A03', 'anchor', '%s: %s' % (where, a), 'never happens')
            stat(rep, 'authenticate', where, an, h)
            done[adt] = h.stores
    # what makes a store
    for adt, stores in sorted(done.items()):
        makers = [b for b in facts.bodies.values() if b.local and b.kind == 'fn' and b.argc >= 1 and makes(facts, b, adt)]
        makers = [b for b in makers if not any(b.key in reach(facts, o.key) for o in makers if o is not b)]
        rep.check(bool(makers), 'A03', 'anchor', '%s: loading' % adt.split('::')[-1], 'nothing makes one')
        for b in makers:
            where = core.clean(b.pretty)
            h = Load(rep, where, facts, sym('file'), adt)
            an = Analysis(facts, h, [h.lookup], 'load')
            an.run(b, [sym('file')] + [sym('arg%d' % n) for n in range(2, b.argc + 1)], pre=lambda st: h.start(an, st))
            for a in ('read', 'insert', 'ok', 'err'):
                rep.check(a in h.anchors or a == 'read' and 'insert' in h.anchors, 'A03', 'anchor', '%s: %s' % (where, a), 'never happens')
            rep.check(h.field is not None and stores == {h.field}, 'A03', 'loaded-entries-are-used', where,
                      'entries go to field %s; authentication asks %s' % (h.field, sorted(stores)))
            stat(rep, 'load', where, an, h)


def reach(facts, k):
    """The local functions below one."""
    seen, work = set(), [k]
    while work:
        for y in callees(facts, facts.bodies[work.pop()]):
            if y not in seen and y in facts.bodies:
                seen.add(y)
                work.append(y)
    return seen


def makes(facts, b, adt):
    """The function returns a fresh store, or fails."""
    t = facts.types[b.locals[0][0]]
    if t.get('def') == adt:
        return True
    if (t.get('def') or '').split('::')[-1] != 'Result':
        return False
    return adt.split('::', 1)[1] in t['s'].split(',')[0]


def stat(rep, kind, where, an, h):
    rep.stats.append((kind, where, {'steps': an.steps, 'states': sum(len(x) for x in an.store.values()), 'turns': h.turns,
                                    'bodies': len({f.body.key for f in an.framelist})}))
    rep.notes.append(('unmodelled', sorted(an.unknown)))

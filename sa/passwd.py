"""The password tool (A05, A06): what it writes, and how it replaces the password file."""
from .terms import *
from . import core, models, terms
from .core import Analysis
from .util import *
from .models import one
from .store import fork, stat

NL = '\n'
TEXTNESS = {'str::as_str', 'str::to_str'}
PATHS = ('std::path::', 'std::ffi::os_str::', 'core::path::', 'alloc::ffi::')
SAMEPATH = {'new', 'from', 'to_path_buf', 'as_path', 'as_os_str', 'as_ref', 'deref', 'to_owned', 'into_os_string', 'into_path_buf', 'clone',
            'into', 'borrow', 'display', 'to_string_lossy', 'into_boxed_path', 'as_mut_os_string', 'to_os_string', 'from_str'}


def pieces(t):
    """A text as the list of its parts, constants joined."""
    out = []

    def go(x):
        if x is EMPTYSEQ or x.k == 'str' and x.a[0] == '':
            return
        if x.k == 'app' and x.a[0] == 'cat':
            for y in x.a[1:]:
                go(y)
        elif x.k == 'app' and x.a[0] == 'push':
            go(x.a[1])
            go(STR(chr(x.a[2].a[0])) if x.a[2].k == 'int' else app('ch', x.a[2]))
        elif x.k == 'app' and x.a[0] in ('text', 'bytesof'):
            go(x.a[1])
        elif x.k == 'bytes':
            try:
                go(STR(x.a[0].decode()))
            except (AttributeError, UnicodeDecodeError):
                out.append(x)
        elif x.k == 'str':
            if out and out[-1].k == 'str':
                out[-1] = STR(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
        elif x.k == 'app' and x.a[0] == 'replace' and any(p.k == 'str' for p in pieces(x.a[1])) and x.a[2].k in ('str', 'int'):
            # character-wise replacing distributes over the parts
            old = x.a[2].a[0] if x.a[2].k == 'str' else chr(x.a[2].a[0])
            if len(old) != 1 or x.a[3].k != 'str':
                out.append(x)
                return
            for p in pieces(x.a[1]):
                go(STR(p.a[0].replace(old, x.a[3].a[0])) if p.k == 'str' else app('replace', p, STR(old), x.a[3]))
        elif x.k == 'app' and x.a[0] == 'replace' and x.a[2].k == 'int':
            go(app('replace', x.a[1], STR(chr(x.a[2].a[0])), x.a[3]))
        else:
            out.append(x)
    go(t)
    return out


def shown(ps):
    return ' + '.join(repr(p.a[0]) if p.k == 'str' else str(p)[:120] for p in ps) or "''"


def _replaced(an, fr, st, v):
    cell = ('G', ('repl', fr.parent.id, fr.bb))
    info = st.env.pop(cell, None)
    if info is None:
        return []
    re, text, w = info.a[2]
    return [(st, app('rereplace', re, text, agg('NoExpand', None, (an.content(st, v),)), w))]


REPLACED = ('replaced', None, _replaced)


class Tool(Hooks, Scan):
    chars = ':\n'
    PROPS = 'A04 A05 A06'

    def __init__(self, rep, where, facts):
        Hooks.__init__(self, rep, where)
        self.f = facts
        self.long = {}
        self.anchors = set()
        self.atoms = set()
        self.turns = 0

    def g(self, st, n):
        return st.env.get(('G', n))

    def s(self, st, n, v=INT(1)):
        if v is None:
            st.env.pop(('G', n), None)
        else:
            st.env[('G', n)] = v

    def key(self, an, st):
        return (tuple(sorted(((str(c[1]), str(v)) for c, v in st.env.items() if c[0] == 'G'))),
                tuple((str(a), t) for a in sorted(self.atoms, key=str) for t in (st.truth(a),) if t is not None))

    # ---- the arguments, by their long names

    def arg(self, name):
        i = self.long.get(name, name)
        return fld(app('argval', STR(i)), 1, 0)

    def deleting(self, st):
        d = st.truth(app('present', STR(self.long.get('delete', 'delete'))))
        if d is None:
            p = st.value(discr_of(app('argval', STR(self.long.get('password', 'password')))))
            if p is not None:
                return p == 0
        return d

    # ---- library calls

    def lookup(self, an, st, c):
        n = core.clean(c.name)
        w = n.split('::')[-1]
        r = self.clap(an, st, c, n, w) or self.regex(an, st, c, n, w) or self.crypt(an, st, c, n, w) or self.paths(an, st, c, n, w) \
            or self.fs(an, st, c, n, w)
        if r is not None:
            return r
        r = models.lookup(an, st, c)
        if r and w in ('contains', 'ends_with', 'starts_with', 'is_empty') and r[0][1] is not None and r[0][1].k == 'app':
            self.atoms.add(r[0][1])
        return r

    def clap(self, an, st, c, n, w):
        if not n.startswith('clap'):
            return None
        owner = n.split('::')[-2]
        if w in ('get_matches', 'get_matches_from'):
            return one(st, sym('argmatches'))
        if owner == 'Arg':
            if w == 'new':
                return one(st, app('arg', an.content(st, c.args[0])))
            if w == 'long' and c.args[0].k == 'app' and c.args[1].k == 'str':
                i = c.args[0].a[1]
                if i.k == 'str':
                    self.long[c.args[1].a[0]] = i.a[0]
            return one(st, c.args[0])
        if owner == 'ArgMatches':
            i = an.content(st, c.args[1]) if len(c.args) > 1 else None
            if w == 'value_of':
                v = app('argval', i)
                self.atoms.add(mkapp('eq0', discr_of(v)))
                return one(st, v)
            if w == 'is_present':
                v = app('present', i)
                RNG.setdefault(v, (0, 1))
                self.atoms.add(v)
                return one(st, v)
        return None

    def regex(self, an, st, c, n, w):
        if not n.startswith('regex'):
            return None
        owner = n.split('::')[-2]
        if n == 'regex::escape' or w == 'escape' and 'regex' in n:
            return one(st, app('reescape', an.content(st, c.args[0])))
        if owner == 'RegexBuilder':
            if w == 'new':
                return one(st, app('rebuilder', an.content(st, c.args[0]), STR('')))
            b = an.content(st, c.args[0])
            if b.k == 'app' and b.a[0] == 'rebuilder':
                if w == 'build':
                    return fork(an, st, c, lambda s: app('re', b.a[1], b.a[2]), lambda s: an.fresh(s, c.site, 'reerr'))
                fl = set(b.a[2].a[0].split())
                v = c.args[1]
                (fl.discard if v is FALSE else fl.add)(w if v in (TRUE, FALSE) else w + '?')
                an.setref(st, c.args[0], app('rebuilder', b.a[1], STR(' '.join(sorted(fl)))))
                return one(st, c.args[0])
        if owner == 'Regex' or owner == 'Replacer' or 'Regex' in n:
            x = [an.content(st, a) for a in c.args]
            if w == 'new' and len(x) == 1:
                return fork(an, st, c, lambda s: app('re', x[0], STR('')), lambda s: an.fresh(s, c.site, 'reerr'))
            if x and x[0].k == 'app' and x[0].a[0] == 're':
                if w == 'is_match':
                    r = app('rematch', x[0], x[1])
                    RNG.setdefault(r, (0, 1))
                    self.atoms.add(r)
                    return one(st, r)
                if w == 'find':
                    r = app('rematch', x[0], x[1])
                    RNG.setdefault(r, (0, 1))
                    self.atoms.add(r)
                    e = st.copy()
                    out = []
                    if st.assume(r, True):
                        out.append((st, SOME(app('refound', x[0], x[1]))))
                    if e.assume(r, False):
                        out.append((e, NONE))
                    return out
                if w in ('replace', 'replace_all', 'replacen'):
                    rp = x[-1]
                    b = models.closure_body(an, c)
                    if b is not None and rp.k in ('agg', 'fn') and not rp.a[0].endswith('NoExpand'):
                        # the replacement is what the closure returns, taken literally
                        st.env[('G', ('repl', c.fr.id, c.bb))] = TUP(x[0], x[1], STR(w))
                        return [(st, None, lambda s: models.run_closure(an, s, c, b, rp, [sym('captures')], REPLACED))]
                    return one(st, app('rereplace', x[0], x[1], rp, STR(w)))
        if owner == 'Match':
            m = an.content(st, c.args[0])
            if m.k == 'app' and m.a[0] == 'refound':
                a, b = app('restart', m), app('reend', m)
                for q in (a, b):
                    RNG.setdefault(q, (0, 2 ** 62))
                if w == 'start':
                    return one(st, a)
                if w == 'end':
                    return one(st, b)
                if w == 'range':
                    return one(st, agg('core::ops::range::Range', None, (a, b)))
        return None

    def crypt(self, an, st, c, n, w):
        owner = n.split('::')[-2] if '::' in n else ''
        if owner == 'SaltString':
            if w == 'generate':
                ty = an.f.tys(an.f.strip_ref(c.argty(0))) if c.argty(0) is not None else ''
                rng = any(r in ty for r in ('OsRng', 'ThreadRng', 'StdRng', 'ChaCha'))
                return one(st, app('salt' if rng else 'weaksalt', an.fresh(st, c.site, 'salt')))
            if w in ('as_salt', 'as_str'):
                return one(st, an.content(st, c.args[0]))
            return one(st, app('fixedsalt', *[an.content(st, a) for a in c.args]))
        if w.startswith('hash_password'):
            xs = [an.content(st, a) for a in c.args]
            return fork(an, st, c, lambda s: app('phc', strip_text(xs[1]), xs[-1]), lambda s: an.fresh(s, c.site, 'hasherr'))
        return None

    def paths(self, an, st, c, n, w):
        m = n.replace('<', '').split(' as ')[0]
        if not m.startswith(PATHS) and not ('Path' in n.split('::')[-2:-1] or 'PathBuf' in n.split('::')[-2:-1]):
            return None
        x = [an.content(st, a) for a in c.args]
        if w in SAMEPATH and len(x) == 1:
            return one(st, x[0])
        if w == 'push' and 'OsString' in n:
            an.setref(st, c.args[0], mkapp('cat', x[0], x[1]))
            return one(st, UNIT)
        if w == 'to_str':
            return one(st, SOME(x[0]))
        if w in ('with_extension', 'with_file_name', 'join', 'with_added_extension'):
            return one(st, app(w, *x))
        if w == 'set_extension':
            an.setref(st, c.args[0], app('with_extension', *x))
            return one(st, app('b', an.fresh(st, c.site, 'b')))
        if w in ('parent', 'file_name', 'extension', 'file_stem'):
            return one(st, app(w, x[0]))
        return None

    # ---- files

    def target(self):
        return self.arg('file')

    def may_be_target(self, st, p):
        """The path can name the password file."""
        t = self.target()
        ps = pieces(p)
        if t in ps and len(ps) > 1:
            return False
        if p.k == 'app' and p.a[0] in ('with_file_name', 'join', 'with_added_extension'):
            base, name = p.a[1], pieces(p.a[2])
            if p.a[0] == 'with_added_extension':
                return not (base is t and bool(name))
            if len(name) > 1 and any(same_name(q, t) for q in name):
                return False
        if self.g(st, ('new', p)) is not None:
            return False
        return True

    def fs(self, an, st, c, n, w):
        owner = n.split('::')[-2] if '::' in n else ''
        x = [an.content(st, a) for a in c.args]
        site = c.site
        if n.startswith('std::fs::'):
            if n == 'std::fs::read_to_string' or n == 'std::fs::read':
                return self.io(an, st, c, lambda s: app('filetext', x[0]))
            if n in ('std::fs::metadata', 'std::fs::symlink_metadata', 'std::fs::canonicalize', 'std::fs::exists', 'std::fs::File::metadata'):
                return self.io(an, st, c, lambda s: app('meta', x[0]))
            if owner == 'Metadata' or owner == 'Permissions':
                return one(st, app(w, *x))
            if n == 'std::fs::set_permissions':
                return self.io(an, st, c, lambda s: UNIT)
            if n == 'std::fs::write':
                self.written_in_place(an, st, x[0], site)
                self.anchors.add('temporary')
                self.s(st, ('w', x[0]), mkapp('cat', x[1]))
                self.s(st, ('sync', x[0]), None)
                return self.io(an, st, c, lambda s: UNIT)
            if n == 'std::fs::rename':
                self.rename(an, st, x[0], x[1], site)
                return self.io(an, st, c, lambda s: UNIT, lambda s: self.s(s, 'replaced'))
            if n == 'std::fs::copy':
                self.written_in_place(an, st, x[1], site, 'copies over')
                return self.io(an, st, c, lambda s: an.fresh(s, site, 'n'))
            if n in ('std::fs::remove_file',):
                if not self.check(an, not self.may_be_target(st, x[0]), 'A06', 'file-is-never-missing', site, lambda: 'removes %s' % x[0]):
                    pass
                return self.io(an, st, c, lambda s: UNIT, cleanup=True)
            if n in ('std::fs::hard_link', 'std::fs::soft_link'):
                return self.io(an, st, c, lambda s: UNIT)
            if owner == 'File':
                if w in ('create', 'create_new', 'options', 'open'):
                    if w == 'options':
                        return one(st, app('oo', STR('')))
                    return self.open(an, st, c, x[0], {'create': {'write', 'create', 'truncate'}, 'create_new': {'write', 'create_new'},
                                                       'open': {'read'}}[w])
                f = self.file(x[0])
                if f is not None:
                    p = f.a[1]
                    if w in ('sync_all', 'sync_data'):
                        ok = self.g(st, ('buf', p)) is None
                        return self.io(an, st, c, lambda s: UNIT, lambda s: self.s(s, ('sync', p)) if ok else None)
                    if w in ('set_permissions', 'metadata', 'lock', 'try_lock', 'unlock', 'lock_shared', 'set_modified', 'set_times'):
                        return self.io(an, st, c, lambda s: app('meta', p) if w == 'metadata' else UNIT)
                    if w == 'set_len':
                        self.s(st, ('w', p), app('resized', self.g(st, ('w', p)) or EMPTYSEQ))
                        self.s(st, ('sync', p), None)
                        return self.io(an, st, c, lambda s: UNIT)
                    if w == 'try_clone':
                        return self.io(an, st, c, lambda s: f)
            if owner == 'OpenOptions':
                if w == 'new':
                    return one(st, app('oo', STR('')))
                if x and x[0].k == 'app' and x[0].a[0] == 'oo':
                    fl = set(x[0].a[1].a[0].split())
                    if w == 'open':
                        return self.open(an, st, c, x[1], fl)
                    if c.args[1] in (TRUE, FALSE):
                        (fl.add if c.args[1] is TRUE else fl.discard)(w)
                    an.setref(st, c.args[0], app('oo', STR(' '.join(sorted(fl)))))
                    return one(st, c.args[0])
        if 'OpenOptionsExt' in n and w in ('mode', 'custom_flags'):
            return one(st, c.args[0])
        if 'BufWriter' in n or 'LineWriter' in n:
            if w in ('new', 'with_capacity'):
                f = self.file(x[-1])
                return None if f is None else one(st, app('bufw', f))
            if w in ('get_ref', 'get_mut') and x[0].k == 'app' and x[0].a[0] == 'bufw':
                return one(st, x[0].a[1])
            if w == 'into_inner' and x[0].k == 'app' and x[0].a[0] == 'bufw':
                p = x[0].a[1].a[1]
                r = self.io(an, st, c, lambda s: x[0].a[1], lambda s: self.s(s, ('buf', p), None))
                return r
        if ('io' in n.split('::') and 'Write' in n) or n.startswith('<std::fs::File as') or 'BufWriter' in n:
            f = self.file(x[0])
            if f is not None and w in ('write_all', 'write', 'write_fmt', 'flush'):
                p = f.a[1]
                buffered = x[0].k == 'app' and x[0].a[0] == 'bufw'
                if w == 'flush':
                    return self.io(an, st, c, lambda s: UNIT, lambda s: self.s(s, ('buf', p), None))
                y = x[1]
                if w == 'write_fmt':
                    y = models.formatted(y)
                if w == 'write':
                    y = app('part', y)
                old = self.g(st, ('w', p))
                self.s(st, ('sync', p), None)
                bad = st.copy()
                self.s(bad, ('w', p), app('part', y))
                self.s(bad, 'ioerr')
                self.s(st, ('w', p), mkapp('cat', old, y) if old is not None else app('tail', y))
                if buffered:
                    self.s(st, ('buf', p))
                return [(st, OK(UNIT if w != 'write' else an.fresh(st, site, 'n'))), (bad, ERR(an.fresh(bad, site, 'ioerr')))]
        if n == 'std::process::id':
            return one(st, sym('pid'))
        return None

    def file(self, t):
        if t.k == 'app' and t.a[0] == 'bufw':
            t = t.a[1]
        return t if t.k == 'app' and t.a[0] == 'wfile' else None

    def io(self, an, st, c, good, then=None, cleanup=False):
        e = st.copy()
        if not cleanup:
            self.s(e, 'ioerr')
        v = good(st)
        if then is not None:
            then(st)
        return [(st, OK(v)), (e, ERR(an.fresh(e, c.site, 'ioerr')))]

    def open(self, an, st, c, p, how):
        if how & {'write', 'append', 'truncate', 'create', 'create_new'}:
            if 'create_new' in how:
                self.s(st, ('new', p))
            self.written_in_place(an, st, p, c.site, 'opens for writing')
            self.s(st, ('w', p), EMPTYSEQ if how & {'truncate', 'create_new'} else app('oldcontent', p))
            self.s(st, ('sync', p), None)
            self.anchors.add('temporary')
        r = self.io(an, st, c, lambda s: app('wfile', p))
        self.s(r[1][0], ('new', p), None)
        return r

    def written_in_place(self, an, st, p, site, what='writes'):
        self.check(an, not self.may_be_target(st, p), 'A06', 'never-written-in-place', site, lambda: '%s %s, which can be the password file' % (what, p))

    def rename(self, an, st, a, b, site):
        self.anchors.add('rename')
        if a is self.target() or not (b is self.target()):
            self.check(an, not self.may_be_target(st, a), 'A06', 'file-is-never-missing', site, lambda: 'moves %s away' % a)
            self.check(an, not self.may_be_target(st, b), 'A06', 'replaced-by-the-complete-new-file', site, lambda: 'moves %s to %s' % (a, b))
            return
        w = self.g(st, ('w', a))
        if not self.check(an, w is not None, 'A06', 'replaced-by-the-complete-new-file', site, lambda: 'moves %s into place, which was not written' % a):
            return
        self.check(an, self.g(st, ('buf', a)) is None, 'A06', 'replaced-by-the-complete-new-file', site, 'the new content may still be buffered')
        self.check(an, self.g(st, ('sync', a)) is not None, 'A06', 'synced-before-it-replaces', site,
                   'the new content was not synced to the disk before the rename')
        self.check(an, self.g(st, 'ioerr') is None, 'A06', 'replaced-by-the-complete-new-file', site, 'replaces the file although an operation failed')
        self.content(an, st, w, site)

    # ---- the new content

    def refuses(self, st, ch):
        """On this path the user name is known not to contain the character."""
        return self.lacks(st, self.arg('user'), ch)

    def content(self, an, st, w, site):
        ps = pieces(w)
        ft = app('filetext', self.target())
        dele = self.deleting(st)
        for ch, name in ((':', 'a colon'), (NL, 'a line break')):
            self.check(an, self.refuses(st, ch), 'A05', 'unrepresentable-names-are-refused', site, 'user names with %s are not refused' % name)
        self.anchors.add('delete' if dele else 'set')
        if not self.check(an, dele is not None, 'A05', 'new-content', site, 'the file is replaced whether or not an entry is to be deleted'):
            return
        r = 'new-content'
        if len(ps) == 1 and ps[0].k == 'app' and ps[0].a[0] == 'rereplace':
            re, text, rep, how = ps[0].a[1:]
            self.check(an, text is ft, 'A05', r, site, lambda: 'the new content derives from %s' % text)
            eats = self.pattern(an, st, re, site)
            if rep.k == 'agg' and rep.a[0].endswith('NoExpand'):
                q = pieces(rep.a[2][0])
            else:
                q = pieces(rep)
                raw = [p for p in q if not self.unexpanded(p)]
                self.check(an, not raw, 'A05', 'replacement-is-literal', site, lambda: '$ in %s is expanded by the replacement' % shown(raw))
                q = [self.unescape(p) for p in q]
            if dele:
                self.check(an, not q and eats is not False, 'A05', 'delete-removes-the-entry', site, lambda: 'deleting leaves %s' % shown(q))
            else:
                self.entry(an, st, q, eats, site)
            return
        i = [n for n, p in enumerate(ps) if p.k == 'app' and p.a[0] == 'slice' and p.a[1] is ft]
        if len(i) == 2 and i == [0, len(ps) - 1]:
            a, b = ps[0], ps[-1]
            m = b.a[2].a[1] if b.a[2].k == 'app' and b.a[2].a[0] == 'reend' else None
            good = m is not None and a.a[2] is INT(0) and a.a[3].k == 'app' and a.a[3].a[0] == 'restart' and a.a[3].a[1] is m \
                and m.a[2] is ft and same(st, b.a[3], mkapp('len', ft))
            if self.check(an, good, 'A05', r, site, lambda: 'replaces %s' % shown(ps)):
                eats = self.pattern(an, st, m.a[1], site)
                if dele:
                    self.check(an, len(ps) == 2 and eats is not False, 'A05', 'delete-removes-the-entry', site, lambda: 'deleting leaves %s' % shown(ps))
                else:
                    self.entry(an, st, ps[1:-1], eats, site)
            return
        if ps and ps[0] is ft and not dele:
            # appended: there is no entry of this user
            no = [a for a in self.atoms if a.k == 'app' and a.a[0] == 'rematch' and a.a[2] is ft and st.truth(a) is False]
            if self.check(an, bool(no), 'A05', 'one-entry-per-user', site, 'appends an entry although the user may have one'):
                self.pattern(an, st, no[0].a[1], site)
            rest = ps[1:]
            sep = rest and rest[0].k == 'str' and rest[0].a[0].startswith(NL)
            if sep:
                rest = pieces(app('cat', STR(rest[0].a[0][1:]), *rest[1:]))
            hasnl = [st.truth(app('ends_with', ft, p)) for p in (INT(10), STR(NL))]
            emp = empty(st, ft)
            non = st.eq0(mkapp('len', ft)) is False or st.ge0(addc(mkapp('len', ft), -1)) is True
            if sep:
                self.check(an, False in hasnl and non, 'A05', 'entries-stay-apart', site,
                           'puts a line break after a text that may be empty or end with one')
            else:
                self.check(an, True in hasnl or emp, 'A05', 'entries-stay-apart', site,
                           'appends to a text that may lack its final line break')
            self.entry(an, st, rest, True, site)
            return
        self.bad(an, 'A05', r, site, 'the new content is %s' % shown(ps))

    def unexpanded(self, p):
        if p.k == 'str':
            return '$' not in p.a[0].replace('$$', '')
        return p.k == 'app' and p.a[0] == 'replace' and p.a[2] is STR('$') and p.a[3] is STR('$$')

    def unescape(self, p):
        if p.k == 'str':
            return STR(p.a[0].replace('$$', '$'))
        return p.a[1] if self.unexpanded(p) else p

    def entry(self, an, st, q, eats, site):
        """user:hash and a line break."""
        u = self.arg('user')
        ok = len(q) >= 3 and q[0] is u and q[1] is STR(':') and len(q) == (4 if eats is not False else 3) and (len(q) == 3 or q[3] is STR(NL))
        if not self.check(an, ok, 'A05', 'entry-format', site, lambda: 'the entry is %s' % shown(q)):
            return
        h = q[2]
        if h.k == 'app' and h.a[0] == 'display':
            h = h.a[1]
        pw = self.arg('password')
        if self.check(an, h.k == 'app' and h.a[0] == 'phc' and h.a[1] is pw, 'A05', 'stores-the-hash', site, lambda: 'stores %s' % q[2]):
            self.check(an, h.a[2].k == 'app' and h.a[2].a[0] == 'salt', 'A05', 'fresh-salt', site, lambda: 'the salt is %s' % h.a[2])

    def pattern(self, an, st, re, site):
        """Exactly the line of this user; whether it takes the line break along (None: unknown)."""
        ps = pieces(re.a[1])
        fl = set(re.a[2].a[0].split())
        u = self.arg('user')
        text = ''.join(p.a[0] if p.k == 'str' else '\0' if p is app('reescape', u) else '\1' for p in ps)
        if text.startswith('(?m)'):
            text, fl = text[4:], fl | {'multi_line'}
        ok = fl - {'unicode'} == {'multi_line'}
        eats = None
        for tail, e in ((r'\n?', True), (r'(\n|$)', True), (r'(?:\n|$)', True), (r'(?:$|\n)', None), (r'\r?\n?', True), ('\n?', True), ('$', False), ('', False)):
            for any_ in ('.*', '[^\\n]*', '[^\n]*', '.+', '(.*)', '(?:.*)', '(?P<hash>.*)'):
                if text == '^\0:' + any_ + tail:
                    eats = e
                    break
            else:
                continue
            break
        else:
            ok = False
        self.check(an, ok, 'A05', 'only-this-users-entry', site, lambda: 'entries are found by %s with %s' % (shown(ps), sorted(fl)))
        return eats

    # ---- events

    def event(self, an, st, ev):
        k = ev.kind
        if k in ('print', 'log'):
            self.secret(an, st, ev)
        elif k == 'panic' and ev.info is not None and hasattr(ev.info, 'args'):
            self.secret(an, st, ev, ev.info.args)
        elif k == 'exit':
            n = ev.args[0]
            if n.k == 'int' and n.a[0] != 0:
                self.anchors.add('refused')
            else:
                self.finish(an, st, ev.site)
        elif k == 'end':
            v = ev.args[0]
            d = st.value(discr_of(v)) if v.k in ('agg', 'app', 'sym') and v is not UNIT else 0
            if d != 1:
                self.turns += an.recording
                self.finish(an, st, ev.site)
        elif k.startswith('call:'):
            self.secret(an, st, ev)
            if an.recording and not k.startswith(('call:clap', 'call:env_logger')):
                self.rep.notes.append(('unmodelled in the tool', k))
        self.scan_event(an, st, ev)
        return True

    def is_text(self, t):
        return t is self.arg('user')

    def at(self, an, fr, bb, st, back):
        self.scan_at(an, st, back)

    def secret(self, an, st, ev, args=None):
        """The plain password goes nowhere but into the hash."""
        pw = self.arg('password')
        for a in (ev.args if args is None else args):
            x = an.content(st, a) if a.k == 'ref' else a
            if mentions(x, pw) or mentions(x, sym('argmatches')):
                k = {'print': 'printed', 'log': 'logged', 'panic': 'part of a panic message'}.get(ev.kind, 'handed to ' + ev.kind[5:])
                self.bad(an, 'A04', 'tool-keeps-the-password', ev.site, 'the password is %s' % k)
                return
        self.ok(an, 'A04', 'tool-keeps-the-password', ev.site)

    def finish(self, an, st, site):
        """The tool reports success."""
        self.anchors.add('done')
        self.check(an, self.g(st, 'ioerr') is None, 'A06', 'errors-are-reported', site, 'ends as if all had gone well although an operation failed')
        if self.g(st, 'replaced') is None:
            ft = app('filetext', self.target())
            no = any(a.k == 'app' and a.a[0] == 'rematch' and a.a[2] is ft and st.truth(a) is False for a in self.atoms)
            self.check(an, self.deleting(st) is True and no, 'A05', 'does-what-was-asked', site,
                       'ends as if all had gone well without having changed the file')


def mentions(t, x, seen=None):
    """The term contains x outside a hash."""
    if t is x:
        return True
    if t.k == 'app' and t.a[0] in ('phc', 'len', 'discr', 'present'):
        return False
    if t.k == 'app' or t.k == 'agg' or t.k in ('fld', 'upd', 'lin'):
        seen = set() if seen is None else seen
        if t in seen:
            return False
        seen.add(t)

        def sub(y):
            if isinstance(y, terms.T):
                return mentions(y, x, seen)
            if isinstance(y, tuple):
                return any(sub(z) for z in y)
            return False
        return any(sub(y) for y in t.a)
    return False


def same_name(q, t):
    return q.k == 'fld' and q.a[0].k == 'app' and q.a[0].a[0] == 'file_name' and q.a[0].a[1] is t


def check(facts, rep):
    main = [b for b in facts.bodies.values() if b.local and b.kind == 'fn' and b.key.endswith('::main') and b.key.count('::') == 1]
    rep.check(len(main) == 1, 'A04 A05 A06', 'anchor', 'password tool', 'has no main function')
    for b in main:
        where = core.clean(b.pretty)
        h = Tool(rep, where, facts)
        an = Analysis(facts, h, [h.lookup], 'tool')
        an.run(b, [])
        for p, a, what in (('A05', 'set', 'an entry is set'), ('A05', 'delete', 'an entry is deleted'), ('A05', 'done', 'success'),
                           ('A06', 'rename', 'a new file replaces the old one'), ('A06', 'temporary', 'a new file is written'),
                           ('A06', 'done', 'success'), ('A04', 'done', 'success')):
            rep.check(a in h.anchors, p, 'anchor', '%s: %s' % (where, what), 'never happens')
        stat(rep, 'password tool', where, an, h)

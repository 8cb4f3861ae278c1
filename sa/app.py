"""Start and stop of the broker: settings, listeners, long-lived tasks, shutdown."""
from .tasks import *


def config_models(an, st, c):
    """The parts of the config crate that make up the settings."""
    n = core.clean(c.name)
    if n == '<config::config::Config as core::default::Default>::default':
        return one(st, app('cfg'))
    if not n.startswith('config::'):
        return None
    w = n.split('::')[-1]
    owner = n.split('::')[-2]
    if owner == 'Config':
        if w in ('new', 'default'):
            return one(st, app('cfg'))
        if w in ('merge', 'with_merged'):
            src = an.content(st, c.args[1])
            ref = c.args[0]
            old = an.content(st, ref)
            bad = st.copy()
            if w == 'merge':
                an.setref(st, ref, app('merged', old, src))
                an.setref(bad, ref, app('failed', old, src))
                good = OK(ref)
            else:
                good = OK(app('merged', old, src))
            return [(st, good), (bad, ERR(an.fresh(bad, c.site, 'cfgerr')))]
        if w in ('try_into', 'try_deserialize', 'deserialize'):
            cfg = an.content(st, c.args[0])
            bad = st.copy()
            return [(st, OK(app('settings', cfg))), (bad, ERR(an.fresh(bad, c.site, 'cfgerr')))]
    if owner == 'File':
        if w == 'with_name':
            return one(st, app('file', an.content(st, c.args[0])))
        if w == 'new' and len(c.args) == 2:
            return one(st, app('fmt', app('file', an.content(st, c.args[0])), c.args[1]))
        if w == 'format':
            return one(st, app('fmt', c.args[0], c.args[1]))
        if w == 'required':
            return one(st, app('req', c.args[0], c.args[1]))
    if owner == 'Environment':
        if w == 'new':
            return one(st, app('env'))
        if w == 'with_prefix':
            return one(st, app('prefix', app('env'), an.content(st, c.args[0])))
        if w in ('prefix', 'separator'):
            return one(st, app(w, c.args[0], an.content(st, c.args[1])))
        if w == 'ignore_empty':
            return one(st, app(w, c.args[0], c.args[1]))
    return None


def peel(t, names):
    """The modifiers of a builder term, and what they modify."""
    mods = {}
    while t.k == 'app' and t.a[0] in names:
        mods.setdefault(t.a[0], t.a[2] if len(t.a) > 2 else None)
        t = t.a[1]
    return mods, t


class AppHooks(TaskHooks):
    PROPS = 'R04 R05 S01'
    TURNS = False

    def __init__(self, rep, where, facts, S, kinds):
        TaskHooks.__init__(self, rep, where, facts, S)
        self.kinds = kinds          # 'accept', 'dispatch', 'messaging' -> coroutines
        self.futs = []
        self.lists = set()
        self.config = sym('up0')

    def lookup(self, an, st, c):
        return config_models(an, st, c) or TaskHooks.lookup(self, an, st, c)

    # ---- settings

    def settings(self, an, st, t):
        """(path of field names, configuration) when the term is a part of the settings."""
        path = []
        while t.k == 'fld':
            path.append(t)
            t = t.a[0]
        if t.k != 'app' or t.a[0] != 'settings':
            return None, None
        names = []
        adt = sfx(self.f, 'Settings')
        cur = t
        for x in reversed(path):
            a = self.f.adts.get(adt)
            if a is None or a['kind'] != 'struct':
                return None, None
            hit = [fl for i, fl in enumerate(a['variants'][0]['fields']) if fld(cur, None, i) is x]
            if not hit:
                return None, None
            names.append(hit[0][0])
            adt = self.f.types[hit[0][1]].get('def')
            cur = x
        return '.'.join(names), t.a[1]

    def sources(self, an, cfg, site):
        """The configuration is the file, overridden by the environment."""
        parts = []
        t = cfg
        while t.k == 'app' and t.a[0] in ('merged', 'failed'):
            parts.append((t.a[0], t.a[2]))
            t = t.a[1]
        parts.reverse()
        if not self.check(an, t is app('cfg') and all(p[0] == 'merged' for p in parts), 'S01', 'errors-end-the-start', site,
                          'settings are read although a source failed to load (%s)' % cfg):
            return
        env = [p for p in parts if self.envsrc(p[1]) is not None]
        fil = [p for p in parts if self.filesrc(p[1]) is not None]
        if not self.check(an, len(parts) == 2 and len(env) == 1 and len(fil) == 1, 'S01', 'file-and-environment', site,
                          'sources are %s' % ', '.join(str(p[1]) for p in parts)):
            return
        self.check(an, parts[-1] is env[0], 'S01', 'environment-wins', site, 'the environment is read before the file')
        m = self.envsrc(env[0][1])
        pre, sep, ign = m.get('prefix'), m.get('separator'), m.get('ignore_empty')
        self.check(an, pre is not None and pre.k == 'str' and pre.a[0].lower() == 'ratelmq', 'S01', 'environment-prefix', site, 'prefix is %s' % pre)
        self.check(an, sep is STR('__'), 'S01', 'environment-separator', site, 'separator is %s' % sep)
        self.check(an, ign is None or ign is INT(0), 'S01', 'environment-wins', site, 'empty values do not override')
        m, name = self.filesrc(fil[0][1])
        self.check(an, name is self.config, 'S01', 'given-file', site, 'reads %s' % name)
        req = m.get('req')
        self.check(an, req is None or req is INT(1), 'S01', 'errors-end-the-start', site, 'the file may be missing')
        f = m.get('fmt')
        tom = f is not None and f.k == 'agg' and self.variant(f) == 'Toml'
        self.check(an, tom, 'S01', 'toml-file', site, 'format is %s' % (f,))

    def variant(self, t):
        a = self.f.adts.get(t.a[0])
        return a['variants'][t.a[1]]['name'] if a else ('Toml' if t.a[1] == 0 else '?')

    def envsrc(self, t):
        m, b = peel(t, ('prefix', 'separator', 'ignore_empty'))
        return m if b is app('env') else None

    def filesrc(self, t):
        m, b = peel(t, ('fmt', 'req'))
        return (m, b.a[1]) if b.k == 'app' and b.a[0] == 'file' else None

    def uses(self, an, st, t, want, site, prop):
        n, cfg = self.settings(an, st, t)
        if self.check(an, n == want, prop, 'configured-value', site, 'uses %s instead of the setting %s' % (t, want)):
            self.sources(an, cfg, site)
            self.anchors.add(want)

    # ---- events

    def event(self, an, st, ev):
        k = ev.kind
        self.steps += an.recording
        if k == 'bind':
            self.on_bind(an, st, ev)
        elif k == 'next-end':
            L = self.g(st, 'list')
            if L is None and self.settings(an, st, ev.args[0])[0] == 'mqtt.listeners_tcp':
                self.s(st, 'list', ev.args[0])
                L = ev.args[0]
            if ev.args[0] is L:
                self.s(st, 'end', ev.args[1])
            tl = self.g(st, 'tl')
            if tl is not None and ev.args[0] is tl and eqnum(st, ev.args[1], self.g(st, 'j') or INT(0)):
                self.s(st, 'tl', None)
            bl = self.g(st, 'bl')
            if bl is not None and ev.args[0] is bl and eqnum(st, ev.args[1], self.g(st, 'started') or INT(0)):
                self.s(st, 'bl', None)
        elif k == 'spawn':
            self.on_spawn(an, st, ev)
        elif k == 'vec.push':
            x = ev.args[2]
            lst = self.g(st, 'lst')
            if lst is not None and contains(x, fld(lst, 0, 0)):
                # bound, to be started later from the list it is put in
                bl = self.g(st, 'bl')
                self.check(an, st.value(discr_of(lst)) == 0 and (empty(st, ev.args[1]) if bl is None else ev.args[1] is bl), 'R05',
                           'listens-on-every-address', ev.site, 'keeps a listener where the earlier ones are not')
                self.listens(an, st, x, ev.site)
                self.s(st, 'bl', app('push', ev.args[1], x))
                self.s(st, 'lst', None)
            for n, v in self.tasks(st):
                if v is x:
                    tl = self.g(st, 'tl')
                    self.check(an, empty(st, ev.args[1]) if tl is None else ev.args[1] is tl, 'R04', 'waits-for-every-task', ev.site,
                               'keeps a task where the earlier ones are not')
                    self.s(st, 'tl', app('push', ev.args[1], x))
                    self.s(st, n, None)
        elif k in ('join', 'join_all'):
            self.on_join(an, st, ev)
        elif k == 'ctrl_c':
            self.ready(an, st, ev.site)
            self.s(st, 'ready')
            self.anchors.add('ctrl_c')
        elif k == 'broadcast':
            self.check(an, self.g(st, 'ready') is not None, 'R04 R05', 'stops-on-signal-only', ev.site, 'tells the tasks to stop before the signal came')
            b = self.g(st, 'B')
            self.check(an, b is None or contains(ev.args[0], b), 'R04', 'signals-every-task', ev.site, 'the signal goes to %s' % ev.args[0])
            self.s(st, 'down')
            self.anchors.add('broadcast')
        elif k in ('accept', 'readpkt', 'writepkt'):
            self.bad(an, 'R05', 'each-listener-on-its-own', ev.site, '%s while starting' % k)
        elif k.endswith('read_to_string') and k.startswith('call:'):
            self.uses(an, st, an.content(st, ev.args[0]), 'authentication.password_file', ev.site, 'S01')
        elif k == 'exit':
            if self.g(st, 'ready') is not None:
                self.over(an, st, ev.site)
        elif k == 'end':
            self.anchors.add('end')
            if self.g(st, 'ready') is not None:
                self.over(an, st, ev.site)
            else:
                self.check(an, self.g(st, 'n') is None, 'R05 R04', 'runs-until-the-signal', ev.site, 'ends without having waited for the signal')
        return True

    def on_bind(self, an, st, ev):
        a = ev.args[0]
        self.anchors.add('bind')
        n = self.g(st, 'n') or INT(0)
        good = a.k == 'app' and a.a[0] == 'elem'
        self.check(an, self.g(st, 'lst') is None, 'R05', 'listens-on-every-address', ev.site, 'goes on without accepting on an address')
        if good:
            self.uses(an, st, a.a[1], 'mqtt.listeners_tcp', ev.site, 'R05 S01')
            self.lists.add(a.a[1])
            self.s(st, 'list', a.a[1])
            good = eqnum(st, a.a[2], n)
        self.check(an, good, 'R05', 'listens-on-every-address', ev.site, 'listens on %s after %s addresses' % (a, n))
        self.s(st, 'n', addc(n, 1))
        self.s(st, 'lst', ev.res)

    def tasks(self, st):
        return [(c[1], st.env[c]) for c in st.env if c[0] == 'G' and str(c[1]).startswith('t:')]

    def kind(self, fut):
        return [k for k, v in self.kinds.items() if self.runs(fut, v)]

    def on_spawn(self, an, st, ev):
        fut = ev.args[0]
        ks = self.kind(fut)
        lst = self.g(st, 'lst')
        if lst is not None and contains(fut, fld(lst, 0, 0)):
            self.check(an, st.value(discr_of(lst)) == 0 and 'accept' in ks, 'R05', 'listens-on-every-address', ev.site, 'does not accept on an address')
            self.s(st, 'lst', None)
        n = 't:%d.%d' % ev.site[:2]
        self.check(an, self.g(st, n) is None, 'R04', 'waits-for-every-task', ev.site, 'loses sight of a task')
        self.s(st, n, app('task', ev.res))
        self.anchors |= set(ks)
        if an.recording:
            self.futs.append((fut, ks, ev.site))
        bl = self.g(st, 'bl')
        held = find(fut, lambda t: t.k == 'app' and t.a[0] == 'elem' and t.a[1] is bl) if bl is not None else []
        if held:
            i = self.g(st, 'started') or INT(0)
            self.check(an, 'accept' in ks and eqnum(st, held[0].a[2], i), 'R05', 'listens-on-every-address', ev.site, 'does not accept on an address')
            self.s(st, 'started', addc(i, 1))
        elif 'accept' in ks or 'dispatch' in ks:
            self.listens(an, st, fut, ev.site)
        if 'messaging' in ks:
            rx = find(fut, lambda t: t.k == 'app' and t.a[0] == 'rx')
            if rx:
                self.s(st, 'M', rx[0].a[1])
                self.s(st, 'mt', app('task', ev.res))

    def listens(self, an, st, what, site):
        """What a task is made of lets it learn of the shutdown."""
        brx = find(what, lambda t: t.k == 'app' and t.a[0] == 'brx')
        if self.check(an, len(brx) >= 1, 'R04', 'signals-every-task', site, 'a task cannot learn of the shutdown'):
            b = brx[0].a[2] if len(brx[0].a) > 2 else brx[0]
            old = self.g(st, 'B')
            self.check(an, old is None or old is b, 'R04', 'signals-every-task', site, 'tasks listen to different signals')
            self.s(st, 'B', b)

    def on_join(self, an, st, ev):
        what = ev.args[0]
        self.check(an, self.g(st, 'down') is not None, 'R04', 'waits-after-the-signal', ev.site, 'waits for a task that was not told to stop')
        mt, M = self.g(st, 'mt'), self.g(st, 'M')
        if mt is not None and contains(what, mt) and M is not None:
            h = holders(an, ev.site, 'MessagingOperation')
            self.check(an, not h, 'R04', 'messaging-can-end', ev.site, 'waits for the messaging task while it can still get requests (%s)' % ', '.join(h))
        tl = self.g(st, 'tl')
        if tl is not None:
            if what is tl:
                self.s(st, 'tl', None)
            elif what.k == 'app' and what.a[0] == 'elem' and what.a[1] is tl:
                j = self.g(st, 'j') or INT(0)
                if eqnum(st, what.a[2], j):
                    self.s(st, 'j', addc(j, 1))
        for n, v in self.tasks(st):
            if contains(what, v):
                self.s(st, n, None)

    def ready(self, an, st, site):
        self.check(an, self.g(st, 'lst') is None and self.g(st, 'bl') is None, 'R05', 'listens-on-every-address', site,
                   'goes on without accepting on an address')
        n, L, end = self.g(st, 'n') or INT(0), self.g(st, 'list'), self.g(st, 'end')
        good = L is not None and end is not None and eqnum(st, end, n) or \
            any(eqnum(st, mkapp('len', x), n) for x in ([L] if L is not None else self.lists))
        self.check(an, good, 'R05', 'listens-on-every-address', site, 'waits for the signal after %s addresses' % n)

    def over(self, an, st, site):
        self.check(an, self.g(st, 'down') is not None, 'R04', 'signals-every-task', site, 'ends without having told the tasks')
        left = [n for n, _ in self.tasks(st)]
        self.check(an, not left and self.g(st, 'tl') is None, 'R04', 'waits-for-every-task', site, 'ends without waiting for every task')


def holders(an, site, elem):
    """Locals that may still hold a sender of such things when the task waits there, and are dropped only later."""
    out = []
    fr, bb = an.framelist[site[0]], site[1]
    while fr is not None:
        for l in droppable(fr.body, bb):
            if sends(an.f, fr.body.locals[l][0], elem):
                out.append('%s of %s' % ((fr.body.locals[l][1] or '_%d' % l), core.clean(fr.body.pretty)))
        bb, fr = fr.bb, fr.parent
    return sorted(set(out))


def sends(facts, ty, elem, d=0):
    """A value of the type owns a sender of such things."""
    t = facts.types[ty]
    s = facts.tys(ty)
    if t['k'] in ('ref', 'ptr') or d > 6:
        return False
    if 'Sender<' in s and elem in s.split('Sender<', 1)[1]:
        return True
    if t['k'] == 'adt' and t['def'] in facts.adts:
        for v in facts.adts[t['def']]['variants']:
            for fl in v['fields']:
                if 'Sender<' in fl[2] and elem in fl[2] and not fl[2].startswith('&'):
                    return True
                if fl[2] in facts.adts and fl[2] != t['def'] and any(
                        'Sender<' in f2[2] and elem in f2[2] for v2 in facts.adts[fl[2]]['variants'] for f2 in v2['fields']):
                    return True
    return False


def droppable(body, at):
    """Locals that may be initialised at that block and reach a drop of theirs still initialised."""
    gen, kill = {}, {}
    for i in body.rpo:
        g, k = set(), set()
        bl = body.blocks[i]

        def use(o):
            if isinstance(o, (list, tuple)) and o and o[0] == 'mv' and not o[1][1]:
                g.discard(o[1][0])
                k.add(o[1][0])

        def assign(p):
            if not p[1]:
                g.add(p[0])
                k.discard(p[0])

        for s in bl['s']:
            if s[0] == '=':
                walk(s[2], use)
                assign(s[1])
        t = bl['t']
        if t[0] == 'call':
            for a in t[2]:
                use(a)
            assign(t[3])
        elif t[0] == 'drop':
            if not t[1][1]:
                g.discard(t[1][0])
                k.add(t[1][0])
        gen[i], kill[i] = g, k
    # forward: initialised on entry
    IN_ = {i: set() for i in body.rpo}
    work = sorted(body.rpo, key=lambda i: body.rpo[i])
    while work:
        i = work.pop(0)
        o = (IN_[i] - kill[i]) | gen[i]
        for j in body.succs(i):
            if j in IN_ and not o <= IN_[j]:
                IN_[j] |= o
                work.append(j)
    # forward from here: which of them are dropped
    here = IN_[at]
    out = set()
    seen = {}
    work = [(at, frozenset(here))]
    while work:
        i, l = work.pop()
        if seen.get(i, frozenset()) >= l:
            continue
        l = l | seen.get(i, frozenset())
        seen[i] = l
        t = body.blocks[i]['t']
        if t[0] == 'drop' and not t[1][1] and t[1][0] in l:
            out.add(t[1][0])
        l2 = frozenset(x for x in l if x not in kill[i])
        for j in body.succs(i):
            if j in IN_:
                work.append((j, l2))
    return out


def walk(x, f):
    if isinstance(x, (list, tuple)):
        f(x)
        for y in x:
            walk(y, f)


def check(facts, rep, S):
    waits = outermost(facts, {b.key for b in facts.bodies.values() if b.local and any(
        True for _ in mentions(b, lambda f: core.clean(f['pretty']) in models_names('ctrl_c')))})
    rep.check(len(waits) == 1, 'R04 R05 S01', 'anchor', 'start of the broker', 'functions that wait for the signal: %s' % waits)
    kinds = {'accept': set(accepting(facts)), 'dispatch': set(root(facts, 'events::ClientEvent')), 'messaging': set(root(facts, 'MessagingOperation'))}
    for k in waits:
        h = AppHooks(rep, core.clean(facts.bodies[k].pretty), facts, S, kinds)
        run(facts, h, k, 'start and stop')
        for a, p in (('ctrl_c', 'R04'), ('broadcast', 'R04'), ('bind', 'R05'), ('accept', 'R05 R04'), ('dispatch', 'R04'), ('messaging', 'R04'),
                     ('end', 'R04'), ('mqtt.listeners_tcp', 'S01 R05'), ('authentication.password_file', 'S01')):
            rep.check(a in h.anchors, p, 'anchor', '%s: %s' % (h.where, a), 'never happens')
        # who else can send requests
        M = {r.a[1] for fut, ks, _ in h.futs if 'messaging' in ks for r in find(fut, lambda t: t.k == 'app' and t.a[0] == 'rx')}
        for fut, ks, site in h.futs:
            for m in M:
                if contains(fut, app('tx', m)):
                    ok = bool(find(fut, lambda t: t.k == 'app' and t.a[0] == 'brx'))
                    rep.check(ok, 'R04', 'messaging-can-end', '%s: %s' % (h.where, '+'.join(ks) or 'task'),
                              'a task that is not told to stop can go on sending requests')
    check_missing(facts, rep)


def check_missing(facts, rep):
    """Every setting is required: the generated deserializers report each field that is missing, by its own name."""
    todo = [sfx(facts, 'Settings')]
    seen = []
    while todo:
        a = todo.pop()
        if a is None or a in seen or not facts.adts.get(a, {}).get('local'):
            continue
        seen.append(a)
        A = facts.adts[a]
        short = a.split('::')[-1]
        if not rep.check(A['kind'] == 'struct', 'S01', 'settings-required', short, 'settings are not a plain struct'):
            continue
        todo += [facts.types[fl[1]].get('def') for fl in A['variants'][0]['fields']]
        bodies = [b for b in facts.bodies.values() if b.local and b.pretty.split('::')[-1] in ('visit_map', 'visit_seq')
                  and facts.types[b.locals[0][0]].get('def', '').endswith('Result')
                  and facts.types[facts.types[b.locals[0][0]]['args'][0]].get('def') == a]
        maps = [b for b in bodies if b.pretty.endswith('visit_map')]
        if not rep.check(bool(maps), 'S01', 'settings-required', short, 'no deserializer to be found'):
            continue
        for b in bodies:
            for _, f in mentions(b, lambda f: f.get('method') == 'default'):
                rep.bad('S01', 'settings-required', short, 'a missing setting gets a default (%s)' % f['pretty'])
            for _, f in mentions(b, lambda f: facts.bodies.get(f.get('body') or f.get('rname')) is not None):
                g = facts.bodies[f.get('body') or f.get('rname')]
                if g.local and not g.derived:
                    rep.bad('S01', 'settings-required', short, 'a setting is made by %s' % core.clean(g.pretty))
        for b in maps:
            said = set()
            for i, f in mentions(b, lambda f: f['name'].split('::')[-1] == 'missing_field'):
                for o in b.blocks[i]['t'][2]:
                    if o[0] == 'c' and 'str' in o[1]:
                        said.add(o[1]['str'])
            for fl in A['variants'][0]['fields']:
                opt = (facts.types[fl[1]].get('def') or '').endswith('option::Option')
                rep.check(fl[0] in said and not opt, 'S01', 'settings-required', '%s.%s' % (short, fl[0]),
                          'a missing setting is not reported under its name')

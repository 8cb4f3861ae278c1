"""The messaging task: the owner of sessions and subscriptions, one request after another."""
from .evloop import *
from . import trie
from .handler import root, ENDING

OWN = {'ConnectionLost': ('remove',), 'ConnectionDisconnected': ('remove',), 'Subscribe': ('subscribe',), 'Unsubscribe': ('unsubscribe',),
       'SendersToPublish': ('lookup',), 'Publish': ('lookup',)}
CHANGES = ('map.insert', 'map.remove', 'map.clear', 'map.retain', 'map.getmut', 'map.ensure')


class MessagingHooks(LoopHooks):
    KEEP = ('send', 'trysend', 'blocking', 'orecv', 'brecv', 'recv', 'reply', 'spawn', 'join', 'sleep', 'trie')

    def __init__(self, rep, where, facts, tree, service):
        LoopHooks.__init__(self, rep, where)
        self.f = facts
        self.op = sfx(facts, 'MessagingOperation')
        self.session = sfx(facts, 'Session')
        self.methods = tree.methods() if tree.ok else {}
        self.repo = tree.repo
        self.anchors = set()

    # ---- recognising events

    def lookup(self, an, st, c):
        cal = c.callee
        for k in ('body', 'rname', 'name'):
            m = self.methods.get(cal.get(k))
            if m:
                b, role, ps = m
                a = {n: an.content(st, c.args[i - 1]) for n, i in ps.items() if isinstance(i, int)}
                if role in ('lookup', 'subscribe'):
                    r = an.fresh(st, c.site, 'trie')
                    if role == 'lookup':
                        RNG.setdefault(app('discr', r), (0, 1))
                else:
                    r = UNIT
                ev = Ev('trie', c.site, (STR(role or '?'),) + tuple(a.get(n, UNIT) for n in ('client', 'subscription', 'topics', 'topic')), r, False, c)
                if an.hooks.event(an, st, ev) is False:
                    return []
                return one(st, r)
        return None

    def is_recv(self, an, ev):
        return 'MessagingOperation' in elemty(an, ev)

    def keep(self, an, st, ev):
        if ev.kind in self.KEEP:
            return True
        return ev.kind.startswith('map.') and self.sessions(an, ev)

    def sessions(self, an, ev):
        ty = ev.info.argty(0)
        return ty is not None and 'Session>' in an.f.tys(ty) and 'HashMap' in an.f.tys(ty)

    def started(self, an, st, ev):
        st.env[('G', 'O')] = EMPTYSEQ
        return True

    def at(self, an, fr, bb, st, back):
        self.settle(st)
        LoopHooks.at(self, an, fr, bb, st, back)

    def settle(self, st):
        """A match without a session needs nothing more."""
        c, m = st.env.get(('G', 'c')), self.map0(st)
        if c is not None and m is not None and st.value(discr_of(mapget(m, c))) == 0:
            del st.env[('G', 'c')]
            st.env.pop(('G', 'to'), None)

    def key(self, an, st):
        q = self.lookups(st)
        return tuple(sorted(str(c[1]) for c in st.env if c[0] == 'G')) + (st.value(discr_of(q[0].res)) if q else None,)

    # ---- the request being served

    def req(self, st):
        for e in st.trace:
            if e.kind == 'recv':
                return e
        return None

    def kind(self, st):
        r = self.req(st)
        if r is None or st.value(discr_of(r.res)) == 0:
            return 'None', None
        e = fld(r.res, 1, 0)
        v = st.value(discr_of(e))
        return ('?', e) if v is None else (self.f.adts[self.op]['variants'][v]['name'], e)

    def part(self, e, k, name):
        v = self.f.variant(self.op, k)
        i = self.f.field(self.op, name, v)
        return None if i is None else fld(e, v, i)

    def map0(self, st):
        for e in st.trace:
            if e.kind.startswith('map.'):
                return e.args[1]
        return None

    def tries(self, st):
        return [e for e in st.trace if e.kind == 'trie']

    def g_known(self, an, st, ev):
        # one session per client: what is put there, and that it goes, is checked elsewhere
        return ev.kind == 'map.insert' and self.sessions(an, ev) and self.kind(st)[0] == 'SessionInsert'

    def seen(self, an, st, ev):
        k = ev.kind
        if k == 'panic':
            self.bad(an, 'R01', 'no-panic', ev.site, 'the messaging task can panic here (%s)' % ev.args[0])
        elif k in ('spawn', 'trysend', 'blocking'):
            self.bad(an, 'M06 R03', 'one-at-a-time', ev.site, 'the messaging task %s instead of finishing what it serves' % k)
        elif k in ('sleep', 'poll') or k.startswith('await:'):
            self.bad(an, 'R03', 'no-foreign-wait', ev.site, 'the messaging task waits for %s' % k)
        elif k == 'trie':
            self.on_trie(an, st, ev)
        elif k in CHANGES and self.sessions(an, ev):
            self.on_map(an, st, ev)
        elif k == 'reply':
            self.on_answer(an, st, ev)
        elif k == 'send':
            self.on_send(an, st, ev)
        elif k == 'map.get' and self.sessions(an, ev):
            if ev.args[2] is st.env.get(('G', 'c')):
                # kept with the state: the address stays known over waiting
                g = mapget(ev.args[1], ev.args[2])
                st.env[('G', 'to')] = fld_of(self.f, self.session, 'sender', fld(g, 1, 0))
        elif k == 'next' or k == 'index':
            self.on_next(an, st, ev)
        elif k == 'next-end':
            if self.found(st) is not None and ev.args[0] is self.found(st):
                self.passed(an, st, ev.site)
                st.env[('G', 'alldone')] = INT(1)
            elif self.collected(st, ev.args[0]):
                self.passed(an, st, ev.site)
                st.env[('G', 'allsent')] = INT(1)
        elif k == 'vec.push':
            self.on_push(an, st, ev)
        elif k.startswith('vec.') and self.senders(an, ev):
            self.bad(an, 'M04', 'each-session-once', ev.site, '%s on the list of senders' % k)
        elif k.startswith('call:') and self.repo and any(
                self.repo.split('::')[-1] in an.f.tys(ev.info.argty(i)) for i in range(len(ev.info.args)) if ev.info.argty(i) is not None):
            self.bad(an, 'M03', 'recognised-operation', ev.site, 'the tree is handed to %s' % k[5:])
        return True

    def senders(self, an, ev):
        return 'Sender<mqtt::events::ServerEvent>' in elemty(an, ev)

    # ---- the tree

    def on_trie(self, an, st, ev):
        role = ev.args[0].a[0]
        client, sub, topics, topic = ev.args[1:]
        k, e = self.kind(st)
        if role == '?':
            self.bad(an, 'M03', 'recognised-operation', ev.site, 'an operation of the tree that is not recognised')
            return
        if role == 'lookup':
            want = None
            if k == 'SendersToPublish':
                want = self.part(e, k, 'topic')
            elif k == 'Publish':
                want = fld_of(self.f, sfx(self.f, 'Message'), 'topic', self.part(e, k, 'message'))
            self.check(an, want is not None and same(st, topic, want) and not ev.many, 'M02 M04', 'matches-own-topic', ev.site,
                       'looks up %s while serving %s' % (topic, k))
            return
        prop = {'remove': 'L03', 'subscribe': 'M03 M01', 'unsubscribe': 'M03'}[role]
        if not self.check(an, role in OWN.get(k, ()) and not ev.many, prop, 'operation-of-the-request', ev.site, '%s while serving %s' % (role, k)):
            return
        self.anchors.add(k)
        cid = self.part(e, k, 'client_id')
        self.check(an, same(st, client, cid), prop, 'own-client-only', ev.site, '%s of %s instead of %s' % (role, client, cid))
        if role == 'subscribe':
            self.check(an, same(st, sub, self.part(e, k, 'subscription')), prop, 'the-requested-filter', ev.site, 'subscribes to %s' % sub)
        elif role == 'unsubscribe':
            self.check(an, same(st, topics, self.part(e, k, 'topics')), prop, 'all-filters', ev.site, 'unsubscribes from %s' % topics)

    # ---- the sessions

    def on_map(self, an, st, ev):
        k, e = self.kind(st)
        key = ev.args[2] if len(ev.args) > 2 else None
        if ev.kind == 'map.insert' and k == 'SessionInsert':
            s = self.part(e, k, 'session')
            self.anchors.add('SessionInsert')
            self.check(an, same(st, ev.args[3], s) and same(st, key, fld_of(self.f, self.session, 'client_id', s)) and not ev.many,
                       'L05 L03 M04', 'registers-the-session', ev.site, 'registers %s under %s' % (ev.args[3], key))
        elif ev.kind == 'map.remove' and k in ENDING:
            self.check(an, same(st, key, self.part(e, k, 'client_id')), 'L03', 'own-client-only', ev.site, 'removes the session of %s' % key)
        else:
            self.bad(an, 'L03 L05', 'sessions-stay', ev.site, '%s of sessions while serving %s' % (ev.kind, k))

    # ---- matching sessions, one after another

    def lookups(self, st):
        return [e for e in self.tries(st) if e.args[0].a[0] == 'lookup']

    def found(self, st):
        q = self.lookups(st)
        return fld(q[0].res, 1, 0) if q else None

    def collected(self, st, src):
        """src is the list of the senders of all matches."""
        O = st.env.get(('G', 'O'), EMPTYSEQ)
        return self.kind(st)[0] == 'Publish' and ('G', 'alldone') in st.env and src is O and O is not EMPTYSEQ

    def on_next(self, an, st, ev):
        if self.collected(st, ev.args[0]):
            i, x = ev.args[1:3]
            done = st.env.get(('G', 'm'))
            if ev.kind == 'index' and done is not None and eqnum(st, i, addc(done, -1)):
                return
            self.passed(an, st, ev.site)
            self.check(an, eqnum(st, i, done or INT(0)), 'M04', 'each-session-once', ev.site, 'takes sender %s after %s' % (i, done))
            st.env[('G', 'm')] = addc(i, 1)
            st.env[('G', 's')] = x
            return
        if self.found(st) is None or ev.args[0] is not self.found(st):
            return
        i, x = ev.args[1:3]
        done = st.env.get(('G', 'n'))
        if ev.kind == 'index' and done is not None and eqnum(st, i, addc(done, -1)):
            return
        self.passed(an, st, ev.site)
        self.check(an, eqnum(st, i, done or INT(0)), 'M04', 'each-session-once', ev.site, 'takes match %s after %s' % (i, done))
        st.env[('G', 'n')] = addc(i, 1)
        st.env[('G', 'c')] = x

    def passed(self, an, st, site):
        """The match taken before is served: it had no session."""
        self.settle(st)
        c = st.env.pop(('G', 'c'), None) or st.env.pop(('G', 's'), None)
        st.env.pop(('G', 'to'), None)
        self.check(an, c is None, 'M04', 'each-session-once', site, 'leaves out a subscriber that has a session')

    def target(self, an, st, t):
        """The sender is the one of the session of the match being served."""
        if st.env.get(('G', 's')) is t:
            return True
        c = st.env.get(('G', 'c'))
        m = self.map0(st)
        if c is None or m is None:
            return False
        if t is st.env.get(('G', 'to')):
            return True
        g = mapget(m, c)
        return st.value(discr_of(g)) == 1 and same(st, t, fld_of(self.f, self.session, 'sender', fld(g, 1, 0)))

    def on_push(self, an, st, ev):
        if not self.senders(an, ev):
            return
        k, e = self.kind(st)
        self.anchors.add('found')
        O = st.env.get(('G', 'O'), EMPTYSEQ)
        before = ev.args[1]
        good = self.target(an, st, ev.args[2]) and (before is O or (empty(st, before) and empty(st, O)))
        self.check(an, good, 'M04', 'each-session-once', ev.site, 'adds %s to %s; the match is %s' % (ev.args[2], before, st.env.get(('G', 'c'))))
        st.env[('G', 'O')] = app('push', before, ev.args[2])
        st.env.pop(('G', 'c'), None)
        st.env.pop(('G', 'to'), None)

    def on_send(self, an, st, ev):
        k, e = self.kind(st)
        to, v = ev.args
        if not self.check(an, k == 'Publish', 'M04', 'delivery-of-a-publication', ev.site, 'sends %s while serving %s' % (v, k)):
            return
        self.anchors.add('delivery')
        self.check(an, self.target(an, st, to), 'M04', 'each-session-once', ev.site, 'delivers to %s; the match is %s' % (to, st.env.get(('G', 'c'))))
        if st.env.pop(('G', 's'), None) is None:
            st.env[('G', 'direct')] = INT(1)
        for x in ('c', 'to'):
            st.env.pop(('G', x), None)
        f = self.f
        p = None
        if v.k == 'agg' and v.a[0] == SERVER and v.a[2] and v.a[2][0].k == 'agg' and v.a[2][0].a[0] == CP \
                and f.adts[CP]['variants'][v.a[2][0].a[1]]['name'] == 'Publish':
            p = v.a[2][0].a[2][0]
        if not self.check(an, p is not None, 'M04 M05', 'delivery-of-a-publication', ev.site, 'sends %s' % v):
            return
        P, M = PKT + 'publish::PublishPacket', sfx(f, 'Message')
        m = fld_of(f, P, 'message', p)
        src = fld_of(f, P, 'message', self.part(e, k, 'publish'))
        src2 = self.part(e, k, 'message')
        for x in ('topic', 'payload'):
            t = fld_of(f, M, x, m)
            self.check(an, same(st, t, fld_of(f, M, x, src)) or same(st, t, fld_of(f, M, x, src2)), 'M04', 'unaltered', ev.site, '%s is %s' % (x, t))
        self.check(an, st.value(discr_of(fld_of(f, M, 'qos', m))) == 0, 'M05', 'granted-qos', ev.site, 'QoS %s' % fld_of(f, M, 'qos', m))
        for x, t in (('retain', fld_of(f, M, 'retain', m)), ('dup', fld_of(f, P, 'dup', p))):
            self.check(an, st.value(t) == 0, 'M05', x + '-cleared', ev.site, '%s is %s' % (x, t))
        self.check(an, st.value(discr_of(fld_of(f, P, 'packet_id', p))) == 0, 'M05', 'no-packet-id', ev.site,
                   'packet id is %s' % fld_of(f, P, 'packet_id', p))

    # ---- the answer

    def on_answer(self, an, st, ev):
        k, e = self.kind(st)
        to, v = ev.args
        if e is None or k == '?':
            self.bad(an, 'R02', 'answers-the-request', ev.site, 'answers without looking at the request')
            return
        r = self.part(e, k, 'resp')
        self.check(an, to is r and not ev.many, 'R02', 'answers-the-request', ev.site, 'answers %s instead of %s' % (to, r))
        self.done(an, st, ev.site, k, e)
        if k == 'SessionExists':
            m = self.map0(st)
            g = mapget(m, self.part(e, k, 'client_id')) if m is not None else None
            good = False
            if g is not None:
                d = st.value(discr_of(g))
                t = st.truth(v) if not numeric(v) else st.value(v)
                good = (d is not None and t is not None and bool(d) == bool(t)) or v is discr_of(g) or (numeric(v) and eqnum(st, v, discr_of(g))) \
                    or v is mkapp('contains_key', m, self.part(e, k, 'client_id'))
            self.check(an, good, 'M01', 'truthful-answer', ev.site, 'says %s, the session is %s' % (v, g))
        elif k == 'Subscribe':
            t = self.tries(st)
            self.check(an, len(t) == 1 and v is t[0].res, 'M01', 'truthful-answer', ev.site, 'says %s' % v)
        elif k == 'SendersToPublish':
            O = st.env.get(('G', 'O'), EMPTYSEQ)
            self.check(an, v is O or (empty(st, v) and empty(st, O)), 'M04', 'each-session-once', ev.site, 'answers %s, found %s' % (v, O))

    def done(self, an, st, site, k, e):
        """Everything the request asks for has been done."""
        t = [x.args[0].a[0] for x in self.tries(st)]
        if k in OWN:
            prop = {'remove': 'L03', 'subscribe': 'M01 M03', 'unsubscribe': 'M01 M03', 'lookup': 'M04'}[OWN[k][0]]
            self.check(an, t == list(OWN[k]), prop + ' R02', 'effect-before-reply', site, 'answers %s after the operations %s' % (k, t))
        if k in ENDING:
            cid = self.part(e, k, 'client_id')
            m = [x for x in st.trace if x.kind.startswith('map.')]
            now = an.content(st, m[0].args[0]) if m else None
            self.check(an, now is not None and st.value(discr_of(mapget(now, cid))) == 0, 'L03 L06 R06', 'session-ended', site,
                       'answers %s while the session is still there' % k)
        elif k == 'SessionInsert':
            m = [x for x in st.trace if x.kind.startswith('map.')]
            s = self.part(e, k, 'session')
            self.check(an, [x.kind for x in m if x.kind in CHANGES] == ['map.insert'], 'L05 R02', 'effect-before-reply', site, 'answers before the session is registered')
        elif k in ('SendersToPublish', 'Publish'):
            q = self.lookups(st)
            none = q and st.value(discr_of(q[0].res)) == 0
            F = self.found(st)
            n = st.env.get(('G', 'n'), INT(0))
            full = F is not None and (st.env.get(('G', 'alldone')) is not None or empty(st, F) or eqnum(st, mkapp('len', F), n))
            good = (none or full) and ('G', 'c') not in st.env and ('G', 's') not in st.env
            if k == 'Publish':
                # sent one by one as they are found, or collected first and then sent
                O = st.env.get(('G', 'O'), EMPTYSEQ)
                good = good and (empty(st, O) or (('G', 'allsent') in st.env and ('G', 'direct') not in st.env))
            self.check(an, good, 'M04', 'each-session-once', site, 'stops after %s of the matches' % n)

    def over(self, an, st):
        return self.kind(st)[0] == 'None'

    def ended(self, an, st, site):
        self.check(an, OVER in st.mon, 'R01 R02', 'ends-only-when-unused', site, 'the messaging task ends by itself')
        self.anchors.add('end')

    def turn(self, an, st, why, site):
        k, e = self.kind(st)
        if why == 'next' and k == 'None':
            self.check(an, OVER in st.mon, 'R04', 'leaves-on-shutdown', site, 'goes on although nobody can send requests any more')
            return
        if why == 'end':
            self.check(an, k == 'None', 'R01 R02', 'ends-only-when-unused', site, 'the messaging task ends after serving %s' % k)
            self.anchors.add('end')
            if k == 'None':
                return
        self.anchors.add('turn')
        n = [x for x in st.trace if x.kind == 'reply']
        self.check(an, len(n) == 1, 'R02', 'one-answer', n[0].site if n else site, '%s gets %d answers' % (k, len(n)))
        for x in st.trace:
            if n and st.trace.index(x) > st.trace.index(n[0]) and (x.kind in CHANGES or x.kind in ('trie', 'send')):
                self.bad(an, 'M01 M06 R02', 'effect-before-reply', x.site, 'answers before it is done')


def check(facts, rep, tree=None):
    T = tree or trie.Tree(facts)
    tasks = root(facts, 'MessagingOperation')
    rep.check(len(tasks) == 1, 'L03 L05 M01 M03 M04 M05 M06 R01 R02 R04 R06', 'anchor', 'messaging task', 'tasks that receive requests: %s' % tasks)
    for t in tasks:
        b = facts.bodies[t]
        h = MessagingHooks(rep, core.clean(b.pretty), facts, T, None)
        an = Analysis(facts, h, [h.lookup, models.lookup], 'messaging')
        an.run(b, co_args(b, [sym('up%d' % i) for i in range(len(b.b['upvars']))]))
        for a, p in (('ConnectionLost', 'L03'), ('ConnectionDisconnected', 'L03'), ('Subscribe', 'M01 M03'), ('Unsubscribe', 'M03'), ('found', 'M04'),
                     ('SessionInsert', 'L05'), ('end', 'R04'), ('turn', 'R02')):
            rep.check(a in h.anchors, p, 'anchor', '%s: %s' % (h.where, a), 'never happens')
        rep.check(bool(h.chain), 'R06', 'bounded-state', h.where, 'the turns of the task are not recognised')
        rep.stats.append(('messaging', h.where, {'steps': an.steps, 'states': sum(len(x) for x in an.store.values()), 'turns': h.turns,
                                                 'bodies': len({f.body.key for f in an.framelist})}))
        rep.notes.append(('unmodelled', sorted(an.unknown)))

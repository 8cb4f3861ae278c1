"""The dispatcher: the task that serves what all connections send."""
import re

from .evloop import *

MUTATING = ('SessionInsert', 'ConnectionLost', 'ConnectionDisconnected', 'Subscribe', 'Unsubscribe', 'Publish')
ENDING = ('ConnectionLost', 'ConnectionDisconnected')


class HandlerHooks(Watch, LoopHooks):
    def __init__(self, rep, where, facts):
        LoopHooks.__init__(self, rep, where)
        self.f = facts
        self.op = sfx(facts, 'MessagingOperation')
        self.ret = sfx(facts, 'ConnAckReturnCode')
        self.anchors = set()
        self.panics = 0
        self.entry = entries(facts)

    def key(self, an, st):
        return self.watchkey(an, st)

    # ---- recognising events

    def lookup(self, an, st, c):
        cal = c.callee
        if (cal.get('trait') or '').endswith('IdentityProvider') and cal.get('method') == 'authenticate' \
                or 'IdentityProvider>::authenticate' in c.name:
            r = an.fresh(st, c.site, 'auth')
            RNG.setdefault(app('discr', r), (0, 1))
            an.emit(st, 'auth', c.site, [an.content(st, a) for a in c.args[1:]], r, info=c)
            return one(st, r)
        return None

    def is_recv(self, an, ev):
        return 'events::ClientEvent' in elemty(an, ev)

    def keep(self, an, st, ev):
        if ev.kind in self.KEEP:
            return True
        return ev.kind.startswith('map.') and self.conns(an, ev)

    def conns(self, an, ev):
        c = ev.info
        ty = c.argty(0)
        return ty is not None and (SENDER in an.f.tys(ty) or any(e in an.f.tys(ty) for e in self.entry[0]))

    def held(self, g):
        """The connection in what the table of connections gives for a client."""
        t = fld(g, 1, 0)
        for i in self.entry[1]:
            t = fld(t, None, i)
        return t

    def entered(self, v):
        for i in self.entry[1]:
            v = fld(v, None, i)
        return v

    def g_known(self, an, st, ev):
        # one entry per connected client: what is put there, and that it goes, is checked elsewhere
        return ev.kind == 'map.insert' and self.conns(an, ev) and self.kind(an, st)[0] == 'Connected'

    def seen(self, an, st, ev):
        k = ev.kind
        if k == 'trysend':
            self.on_try(an, st, ev)
        if k == 'send' or k == 'trysend':
            return self.on_send(an, st, ev)
        if k == 'auth':
            self.anchors.add('auth')
        if k == 'vec.push':
            self.on_push(an, st, ev)
        if k.startswith(('vec.', 'call:alloc::', 'call:std::collections', 'call:core::cell', 'map.')) and not self.conns(an, ev):
            self.on_keep(an, st, ev)
        if k == 'next-end':
            self.on_exhausted(an, st, ev)
        if k in ('map.insert', 'map.remove', 'map.clear', 'map.retain', 'map.getmut') and self.conns(an, ev):
            self.on_map(an, st, ev)
        if k == 'panic':
            self.on_panic(an, st, ev)
        if k in ('spawn', 'blocking'):
            self.bad(an, 'M06', 'one-at-a-time', ev.site, 'the dispatcher %s instead of finishing what it serves' % k)
        if k in ('sleep', 'poll') or k.startswith('await:'):
            self.bad(an, 'R03', 'no-foreign-wait', ev.site, 'the dispatcher waits for %s' % k)
        return True

    # ---- the event being served

    def ev(self, an, st):
        for e in st.trace:
            if e.kind == 'recv':
                return fld(e.res, 1, 0)
        return None

    def kind(self, an, st):
        """(variant name, payload) of the event being served; None when unknown."""
        e = self.ev(an, st)
        if e is None:
            return None, None
        r = [x for x in st.trace if x.kind == 'recv'][0].res
        if st.value(discr_of(r)) == 0:
            return 'None', None
        v = st.value(discr_of(e))
        if v is None:
            return '?', e
        return self.f.adts[EVENT]['variants'][v]['name'], e

    def part(self, e, variant, what):
        v = self.f.variant(EVENT, variant)
        for i, fl in enumerate(self.f.adts[EVENT]['variants'][v]['fields']):
            if fl[2].endswith(what):
                return fld(e, v, i)
        return None

    def who(self, an, st):
        """kind, client id, sender, packet of the event."""
        k, e = self.kind(an, st)
        if k == 'Connected':
            p = self.part(e, k, 'ConnectPacket')
            return k, fld_of(self.f, PKT + 'connect::ConnectPacket', 'client_id', p), self.part(e, k, 'Sender<mqtt::events::ServerEvent>'), p
        if k == 'ControlPacket':
            return k, self.part(e, k, 'String'), self.part(e, k, 'Sender<mqtt::events::ServerEvent>'), self.part(e, k, 'ControlPacket')
        if k == 'ConnectionLost':
            return k, self.part(e, k, 'String'), self.part(e, k, 'Sender<mqtt::events::ServerEvent>'), None
        return k, None, None, None

    def pkind(self, an, st, p):
        v = st.value(discr_of(p))
        return None if v is None else self.f.adts[CP]['variants'][v]['name']

    def current(self, st, cid, snd):
        """Whether the state knows the connection to be the accepted, current one: True, False, None."""
        m = self.conns0(st)
        if m is None:
            return None
        g = mapget(m, cid)
        d = st.value(discr_of(g))
        if d == 0:
            return False
        a, b = self.held(g), snd
        for x in (mkapp('same_channel', a, b), mkapp('same_channel', b, a)):
            t = st.truth(x)
            if t is False:
                return False
            if t is True:
                return True if d == 1 else None
        return None

    def conns0(self, st):
        """The connections map as it was when the event arrived."""
        for e in st.trace:
            if e.kind.startswith('map.'):
                return e.args[1]
        return None

    def conns1(self, an, st):
        """... and as it is now."""
        for e in st.trace:
            if e.kind.startswith('map.'):
                return an.content(st, e.args[0])
        return None

    # ---- operations

    def opname(self, v):
        if v.k == 'agg' and v.a[0] == self.op:
            return self.f.adts[self.op]['variants'][v.a[1]]['name']
        return None

    def opfield(self, v, name):
        i = self.f.field(self.op, name, v.a[1])
        return None if i is None else v.a[2][i]

    def ops(self, st):
        return [(e, self.opname(e.args[1])) for e in st.trace if e.kind in ('send', 'trysend') and self.opname(e.args[1])]

    def replied(self, an, st, e):
        """The reply of the operation has been awaited."""
        r = self.opfield(e.args[1], 'resp')
        for x in st.trace:
            if x.kind == 'orecv' and r is not None and r.k == 'app' and r.a[0] == 'otx' and x.args[0] is app('orx', r.a[1]):
                return x
        return None

    def packet(self, v):
        """(control packet variant name, its payload) of a server event; ('Disconnect', None)."""
        if v.k != 'agg' or v.a[0] != SERVER:
            return None, None
        if self.f.adts[SERVER]['variants'][v.a[1]]['name'] != 'ControlPacket':
            return 'Disconnect', None
        p = v.a[2][0]
        if p.k != 'agg' or p.a[0] != CP:
            return None, None
        return self.f.adts[CP]['variants'][p.a[1]]['name'], (p.a[2][0] if p.a[2] else None)

    def sends(self, st, to=None):
        """Server events sent in this turn: (event, packet name, payload)."""
        out = []
        for e in st.trace:
            if e.kind in ('send', 'trysend') and not self.opname(e.args[1]) and (to is None or e.args[0] is to):
                n, p = self.packet(e.args[1])
                out.append((e, n, p))
        return out

    # ---- rules at a send

    def on_try(self, an, st, ev):
        """A send that gives up when the queue is full."""
        ty = elemty(an, ev)
        if 'ServerEvent' in ty:
            n = self.packet(ev.args[1])[0]
            ids = {'Publish': 'M04', 'ConnAck': 'L05', 'Disconnect': 'L04 L05'}.get(n, 'M01')
        else:
            ids = 'R02'
        self.bad(an, ids, 'not-given-up', ev.site, 'gives up what is to be sent when the queue is full at the moment')

    def on_send(self, an, st, ev):
        ty = elemty(an, ev)
        to, v = ev.args
        if 'MessagingOperation' in ty:
            return self.on_op(an, st, ev)
        if 'ServerEvent' not in ty:
            self.bad(an, 'M06', 'known-channels', ev.site, 'sends something else than operations and server events')
            return True
        n, p = self.packet(v)
        k, cid, snd, pkt = self.who(an, st)
        if n is None:
            self.bad(an, 'M01 M04 L05', 'recognised-reply', ev.site, 'sends %s' % v)
            return True
        # requests handed to the messaging task are finished first
        for e, on in self.ops(st):
            self.check(an, self.replied(an, st, e) is not None, 'M01 M06 L05' if to is snd else 'M06', 'effect-before-reply', ev.site,
                       'sends %s before %s has been carried out' % (n, on))
        if n == 'ConnAck':
            self.on_connack(an, st, ev, k, cid, snd, pkt, to, p)
        elif n == 'Publish':
            self.on_delivery(an, st, ev, k, cid, snd, pkt, to, p)
        elif n == 'Disconnect':
            if to is snd:
                return True
            # somebody else's connection: only the one this client id had before
            m = self.conns0(st)
            prev = m is not None and cid is not None and same(st, to, self.held(mapget(m, cid))) and st.value(discr_of(mapget(m, cid))) == 1
            self.check(an, prev and k == 'Connected', 'A02 L04', 'disconnects-only-the-predecessor', ev.site,
                       'disconnects %s while serving %s' % (to, k))
            if k == 'Connected':
                self.authenticated(an, st, ev, 'the earlier connection is disconnected', pkt)
        elif n in ('SubAck', 'UnsubAck', 'PingResp'):
            if not self.check(an, to is snd and k == 'ControlPacket', 'M01', 'reply-to-requester', ev.site,
                              'sends %s to %s while serving %s' % (n, to, k)):
                return True
            self.accepted(an, st, ev, cid, snd, n)
            self.on_reply(an, st, ev, n, p, cid, snd, pkt)
        else:
            self.bad(an, 'M01', 'reply-to-requester', ev.site, 'sends %s' % n)
        return True

    def authenticated(self, an, st, ev, what, pkt):
        cp = PKT + 'connect::ConnectPacket'
        u, w = fld_of(self.f, cp, 'user_name', pkt), fld_of(self.f, cp, 'password', pkt)
        good = st.value(discr_of(u)) == 0
        if not good and st.value(discr_of(u)) == 1 and st.value(discr_of(w)) == 1:
            for e in st.trace:
                if e.kind == 'auth' and len(e.args) == 2 and same(st, e.args[0], fld(u, 1, 0)) \
                        and same(st, e.args[1], fld(w, 1, 0)) and st.value(discr_of(e.res)) == 0:
                    good = True
        return self.check(an, good, 'A01', 'authenticated-first', ev.site,
                          '%s although the user name was not verified with the password of the same packet' % what)

    def accepted(self, an, st, ev, cid, snd, what):
        return self.check(an, self.current(st, cid, snd) is True, 'A02 L04', 'accepted-connection-only', ev.site,
                          '%s for a connection not known to be the accepted one' % what)

    def on_connack(self, an, st, ev, k, cid, snd, pkt, to, p):
        self.anchors.add('connack')
        if not self.check(an, k == 'Connected' and to is snd, 'L05', 'connack-to-connecting', ev.site,
                          'sends CONNACK to %s while serving %s' % (to, k)):
            return
        n = [e for e in self.sends(st, snd)]
        self.check(an, len(n) == 1 and not n[0][0].many and n[0][0].site == ev.site, 'L05', 'connack-first-and-once', ev.site,
                   'sends %s before the CONNACK' % [x[1] for x in n[:-1]])
        code = fld_of(self.f, PKT + 'connack::ConnAckPacket', 'return_code', p)
        sp = fld_of(self.f, PKT + 'connack::ConnAckPacket', 'session_present', p)
        cv = st.value(discr_of(code))
        self.check(an, st.value(sp) == 0 if numeric(sp) else False, 'L04 L05', 'no-session-claimed', ev.site,
                   'claims a session that was not resumed (session present %s)' % sp)
        ins = [(e, on) for e, on in self.ops(st) if on == 'SessionInsert']
        if cv is None:
            self.bad(an, 'L05 A01', 'truthful-connack', ev.site, 'return code %s' % code)
            return
        if cv == 0:
            self.anchors.add('accept')
            self.authenticated(an, st, ev, 'the connection is accepted', pkt)
            good = len(ins) == 1 and not ins[0][0].many and self.replied(an, st, ins[0][0]) is not None
            self.check(an, good, 'L05', 'accepted-after-registration', ev.site,
                       'says accepted before the session has been registered')
        else:
            self.anchors.add('refuse')
            self.check(an, not ins, 'L05 A01', 'refused-without-session', ev.site, 'refuses a client whose session was registered')

    # ---- rules at an operation

    def on_op(self, an, st, ev):
        to, v = ev.args
        n = self.opname(v)
        k, cid, snd, pkt = self.who(an, st)
        if n is None:
            self.bad(an, 'L05 M01 M06', 'recognised-operation', ev.site, 'requests %s' % v)
            return True
        r = self.opfield(v, 'resp')
        self.check(an, r is not None and r.k == 'app' and r.a[0] == 'otx', 'R02', 'own-reply-channel', ev.site,
                   '%s carries %s to be answered on' % (n, r))
        for e, on in self.ops(st)[:-1]:
            if e.site != ev.site:
                self.check(an, self.replied(an, st, e) is not None, 'M06', 'one-at-a-time', ev.site,
                           'requests %s before %s has been carried out' % (n, on))
        c = self.opfield(v, 'client_id')
        if n == 'SessionInsert':
            self.on_insert(an, st, ev, k, cid, snd, pkt, self.opfield(v, 'session'))
            return True
        if c is not None:
            self.check(an, cid is not None and same(st, c, cid), 'A02 L03', 'own-client-only', ev.site,
                       '%s for %s while serving %s' % (n, c, cid))
        if n not in MUTATING and n != 'SendersToPublish':
            return True
        if k == 'Connected':
            if self.check(an, n in ENDING, 'A02 L04', 'connect-effects', ev.site, '%s while serving a CONNECT' % n):
                self.authenticated(an, st, ev, 'a session is ended', pkt)
        elif k in ('ControlPacket', 'ConnectionLost'):
            self.accepted(an, st, ev, cid, snd, n)
            pk = self.pkind(an, st, pkt) if k == 'ControlPacket' else k
            allowed = {'Publish': ('SendersToPublish', 'Publish'), 'Subscribe': ('Subscribe',), 'Unsubscribe': ('Unsubscribe',),
                       'Disconnect': ENDING, 'ConnectionLost': ENDING}.get(pk, ())
            self.check(an, n in allowed, 'L01 A02 L03', 'operation-of-the-packet', ev.site, '%s while serving %s' % (n, pk or 'an unknown packet'))
            self.on_request(an, st, ev, n, pk, pkt, v)
        else:
            self.bad(an, 'A02 L03', 'operation-of-the-packet', ev.site, '%s while serving %s' % (n, k))
        return True

    def on_insert(self, an, st, ev, k, cid, snd, pkt, session):
        self.anchors.add('insert')
        if not self.check(an, k == 'Connected', 'A02 L01', 'session-only-by-connect', ev.site, 'registers a session while serving %s' % k):
            return
        S = sfx(self.f, 'Session')
        c, s = fld_of(self.f, S, 'client_id', session), fld_of(self.f, S, 'sender', session)
        self.check(an, same(st, c, cid) and s is snd, 'L05 M04', 'registers-this-connection', ev.site,
                   'registers %s with %s for client %s on %s' % (c, s, cid, snd))
        self.authenticated(an, st, ev, 'a session is registered', pkt)
        self.check(an, not any(n == 'ConnAck' for _, n, _ in self.sends(st, snd)), 'L05', 'accepted-after-registration', ev.site,
                   'registers the session after the CONNACK')
        self.check(an, self.unoccupied(an, st, cid), 'L03 L04 L06', 'predecessor-ended-first', ev.site,
                   'registers the session while an earlier connection of the client may still have its own')

    def unoccupied(self, an, st, cid):
        """No other connection acts for the client id at this point."""
        m = self.conns0(st)
        if m is None:
            return False
        g = mapget(m, cid)
        if st.value(discr_of(g)) == 0:
            return True
        told = any(n == 'Disconnect' and same(st, e.args[0], self.held(g)) for e, n, _ in self.sends(st))
        ended = any(on in ENDING and same(st, self.opfield(e.args[1], 'client_id'), cid) and self.replied(an, st, e) is not None
                    for e, on in self.ops(st))
        return st.value(discr_of(g)) == 1 and told and ended

    # ---- requests in detail

    def pk(self, pkt, name):
        return fld(pkt, self.f.variant(CP, name), 0)

    def on_request(self, an, st, ev, n, pk, pkt, v):
        f = self.f
        if n == 'Subscribe':
            self.anchors.add('subscribe')
            subs = fld_of(f, PKT + 'subscribe::SubscribePacket', 'subscriptions', self.pk(pkt, 'Subscribe'))
            s = self.opfield(v, 'subscription')
            done = st.env.get(('G', 'subscribed'), INT(0))
            good = s.k == 'app' and s.a[0] == 'elem' and same(st, s.a[1], subs) and eqnum(st, s.a[2], done)
            self.check(an, good, 'M01 M03', 'filters-in-order', ev.site, 'subscribes to %s after %s filters of %s' % (s, done, subs))
            st.env[('G', 'subscribed')] = addc(done, 1)
        elif n == 'Unsubscribe':
            self.anchors.add('unsubscribe')
            tp = fld_of(f, PKT + 'unsubscribe::UnsubscribePacket', 'topics', self.pk(pkt, 'Unsubscribe'))
            self.check(an, same(st, self.opfield(v, 'topics'), tp) and not ev.many, 'M01 M03', 'all-filters', ev.site,
                       'unsubscribes from %s instead of %s' % (self.opfield(v, 'topics'), tp))
        elif n == 'SendersToPublish':
            self.anchors.add('publish')
            t = self.published(pkt, 'topic')
            self.check(an, same(st, self.opfield(v, 'topic'), t) and not ev.many, 'M02 M04', 'matches-own-topic', ev.site,
                       'asks for the subscribers of %s instead of %s' % (self.opfield(v, 'topic'), t))

    def published(self, pkt, name):
        m = fld_of(self.f, PKT + 'publish::PublishPacket', 'message', self.pk(pkt, 'Publish'))
        return fld_of(self.f, sfx(self.f, 'Message'), name, m)

    def on_push(self, an, st, ev):
        """A return code is put on the list."""
        ops = [(e, on) for e, on in self.ops(st) if on == 'Subscribe']
        if not ops:
            return
        x = ev.args[2]
        done = st.env.get(('G', 'subscribed'), INT(0))
        for e, on in ops:
            r = self.replied(an, st, e)
            if r is not None and x is fld(r.res, 0, 0) and not isinstance(x, int):
                n = st.env.get(('G', 'answered'), INT(0))
                v = st.env.get(('G', 'codes'))
                before = ev.args[1]
                good = eqnum(st, addc(n, 1), done) and (empty(st, before) if v is None else before is v)
                self.check(an, good, 'M01', 'one-code-per-filter', ev.site, 'code %s for filter %s' % (n, done))
                st.env[('G', 'answered')] = addc(n, 1)
                st.env[('G', 'codes')] = app('push', before, x)
                return

    def on_exhausted(self, an, st, ev):
        src, i = ev.args[0], ev.args[1]
        k, cid, snd, pkt = self.who(an, st)
        if k != 'ControlPacket':
            return
        st.env[('G', 'end', src.id)] = i

    def on_reply(self, an, st, ev, n, p, cid, snd, pkt):
        f = self.f
        pk = self.pkind(an, st, pkt)
        want = {'SubAck': 'Subscribe', 'UnsubAck': 'Unsubscribe', 'PingResp': 'PingReq'}[n]
        if not self.check(an, pk == want, 'M01', 'matching-reply', ev.site, '%s answers %s' % (n, pk)):
            return
        self.anchors.add(n)
        self.check(an, not ev.many and len(self.sends(st, snd)) == 1, 'M01', 'one-reply', ev.site,
                   'sends %s after %s' % (n, [x[1] for x in self.sends(st, snd)]))
        if n == 'SubAck':
            sp, ap = PKT + 'subscribe::SubscribePacket', PKT + 'suback::SubAckPacket'
            subs = fld_of(f, sp, 'subscriptions', self.pk(pkt, want))
            self.check(an, same(st, fld_of(f, ap, 'packet_id', p), fld_of(f, sp, 'packet_id', self.pk(pkt, want))), 'M01', 'same-packet-id',
                       ev.site, 'packet id %s' % fld_of(f, ap, 'packet_id', p))
            codes = fld_of(f, ap, 'return_codes', p)
            done, ans = st.env.get(('G', 'subscribed'), INT(0)), st.env.get(('G', 'answered'), INT(0))
            v = st.env.get(('G', 'codes'))
            i = st.env.get(('G', 'end', subs.id))
            ln = mkapp('len', subs)
            allof = i is not None and eqnum(st, i, done) or eqnum(st, ln, done)
            self.check(an, allof and eqnum(st, ans, done), 'M01', 'code-for-every-filter', ev.site,
                       '%s codes for %s filters carried out' % (ans, done))
            self.check(an, (empty(st, codes) if v is None else codes is v), 'M01', 'codes-of-the-filters', ev.site,
                       'return codes %s instead of %s' % (codes, v))
        elif n == 'UnsubAck':
            up, ap = PKT + 'unsubscribe::UnsubscribePacket', PKT + 'unsuback::UnSubAckPacket'
            self.check(an, same(st, fld_of(f, ap, 'packet_id', p), fld_of(f, up, 'packet_id', self.pk(pkt, want))), 'M01', 'same-packet-id',
                       ev.site, 'packet id %s' % fld_of(f, ap, 'packet_id', p))
            self.check(an, [on for _, on in self.ops(st)] .count('Unsubscribe') == 1, 'M01', 'effect-before-reply', ev.site,
                       'acknowledged without having been carried out')

    def on_delivery(self, an, st, ev, k, cid, snd, pkt, to, p):
        f = self.f
        self.anchors.add('delivery')
        if not self.check(an, k == 'ControlPacket' and self.pkind(an, st, pkt) == 'Publish', 'M04 A02', 'delivery-of-a-publication', ev.site,
                          'delivers a message while serving %s' % k):
            return
        self.accepted(an, st, ev, cid, snd, 'delivery')
        # to the next of the senders asked for
        q = [e for e, on in self.ops(st) if on == 'SendersToPublish']
        r = self.replied(an, st, q[0]) if q else None
        S = fld(r.res, 0, 0) if r is not None else None
        done = st.env.get(('G', 'delivered'), INT(0))
        good = S is not None and to.k == 'app' and to.a[0] == 'elem' and to.a[1] is S and eqnum(st, to.a[2], done)
        self.check(an, good, 'M04', 'each-subscriber-once', ev.site, 'delivers to %s after %s of %s' % (to, done, S))
        st.env[('G', 'delivered')] = addc(done, 1)
        P, M = PKT + 'publish::PublishPacket', sfx(f, 'Message')
        m = fld_of(f, P, 'message', p)
        for x in ('topic', 'payload'):
            self.check(an, same(st, fld_of(f, M, x, m), self.published(pkt, x)), 'M04', 'unaltered', ev.site,
                       '%s is %s instead of %s' % (x, fld_of(f, M, x, m), self.published(pkt, x)))
        q = st.value(discr_of(fld_of(f, M, 'qos', m)))
        self.check(an, q == 0, 'M05', 'granted-qos', ev.site, 'delivered with QoS %s, granted QoS 0' % fld_of(f, M, 'qos', m))
        for x, t in (('retain', fld_of(f, M, 'retain', m)), ('dup', fld_of(f, P, 'dup', p))):
            self.check(an, st.value(t) == 0, 'M05', x + '-cleared', ev.site, '%s is %s' % (x, t))
        pid = fld_of(f, P, 'packet_id', p)
        self.check(an, st.value(discr_of(pid)) == 0, 'M05', 'no-packet-id', ev.site, 'packet id is %s' % pid)

    # ---- the connections map

    def on_map(self, an, st, ev):
        k, cid, snd, pkt = self.who(an, st)
        if ev.kind in ('map.clear', 'map.retain'):
            self.bad(an, 'A02 L04', 'own-entry-only', ev.site, 'changes entries of all clients')
            return
        key = ev.args[2]
        self.check(an, cid is not None and same(st, key, cid), 'A02 L04', 'own-entry-only', ev.site,
                   'changes the entry of %s while serving %s' % (key, cid))
        if k == 'Connected':
            self.authenticated(an, st, ev, 'the entry of the client is changed', pkt)
            if ev.kind == 'map.insert':
                self.check(an, self.entered(ev.args[3]) is snd, 'A02 L04', 'own-entry-only', ev.site, 'enters %s instead of %s' % (ev.args[3], snd))
        elif k in ('ControlPacket', 'ConnectionLost'):
            if self.check(an, ev.kind == 'map.remove', 'A02', 'own-entry-only', ev.site, 'changes an entry while serving %s' % k):
                self.accepted(an, st, ev, cid, snd, 'the entry is removed')
        else:
            self.bad(an, 'A02 L04', 'own-entry-only', ev.site, 'changes an entry while serving %s' % k)

    def on_keep(self, an, st, ev):
        """The connection of the event is put anywhere else."""
        k, cid, snd, pkt = self.who(an, st)
        if snd is not None:
            kept = any(contains(a, snd) for a in ev.args[1:] if not isinstance(a, int))
            self.check(an, not kept, 'L06', 'not-kept', ev.site, 'keeps the connection where nothing removes it (%s)' % ev.kind)

    # ---- panics, ends

    def on_panic(self, an, st, ev):
        c = ev.info
        what = str(ev.args[0])
        self.panics += an.recording
        site = ev.site
        if 'unwrap_failed' in what and len(c.args) >= 2:
            e = an.content(st, c.args[1])
            for x in st.trace:
                if x.kind in ('send', 'orecv') and x.res is not None and (e is fld(x.res, 1, 0) or e is x.res):
                    if x.kind == 'orecv' or 'MessagingOperation' in elemty(an, x):
                        # only when the messaging task itself is gone
                        self.ok(an, 'R01', 'fails-only-without-messaging', site)
                        return
        self.bad(an, 'R01', 'no-panic', site, 'the dispatcher can panic here (%s)' % what)

    def over(self, an, st):
        return any(e.kind == 'brecv' for e in st.trace)

    def ended(self, an, st, site):
        self.check(an, OVER in st.mon, 'R01', 'ends-only-on-shutdown', site, 'the dispatcher ends by itself')
        self.anchors.add('end')

    def turn(self, an, st, why, site):
        k, cid, snd, pkt = self.who(an, st)
        down = self.over(an, st)
        if why == 'next':
            self.check(an, not down or OVER in st.mon, 'R04', 'leaves-on-shutdown', site, 'the dispatcher goes on after the shutdown signal')
        elif why == 'end':
            self.check(an, down or OVER in st.mon or k == 'None', 'R01', 'ends-only-on-shutdown', site, 'the dispatcher ends after serving %s' % k)
            self.anchors.add('end')
        for e, on in self.ops(st):
            self.check(an, self.replied(an, st, e) is not None, 'M06 R02', 'waits-for-the-reply', e.site,
                       'does not wait until %s has been carried out' % on)
        if k == 'Connected':
            self.turn_connect(an, st, site, cid, snd, pkt)
        elif k in ('ControlPacket', 'ConnectionLost'):
            self.turn_packet(an, st, site, k, cid, snd, pkt)
        elif k == '?':
            # an event handled the same way whatever it is: only when nothing happens
            if self.ops(st) or self.sends(st):
                self.bad(an, 'L05 M01', 'known-event', site, 'acts on an event without looking at it')
            else:
                self.bad(an, 'L05 M01 L03', 'event-served', site, 'an event can be dropped')

    def turn_connect(self, an, st, site, cid, snd, pkt):
        mine = self.sends(st, snd)
        acks = [(e, p) for e, n, p in mine if n == 'ConnAck']
        if not self.check(an, len(acks) == 1, 'L05', 'one-connack', site, '%d CONNACKs for a CONNECT' % len(acks)):
            return
        cv = st.value(discr_of(fld_of(self.f, PKT + 'connack::ConnAckPacket', 'return_code', acks[0][1])))
        last = mine[-1][1]
        if cv == 0:
            self.check(an, len(mine) == 1, 'L05', 'accepted-stays', site, 'after accepting, sends %s' % [n for _, n, _ in mine[1:]])
            m = self.conns1(an, st)
            g = mapget(m, cid) if m is not None else None
            self.check(an, g is not None and st.value(discr_of(g)) == 1 and self.held(g) is snd, 'L04 A02', 'accepted-becomes-current', site,
                       'after accepting, the current connection of the client is %s' % g)
            o = [on for _, on in self.ops(st)]
            self.check(an, o.count('SessionInsert') == 1 and o[-1] == 'SessionInsert', 'L05', 'accepted-stays', site,
                       'accepting ends with the operations %s' % o)
        elif cv is not None:
            self.check(an, last == 'Disconnect', 'L05 L06', 'refused-is-disconnected', site, 'a refused connection is not disconnected')
            if self.conns0(st) is not None:
                self.check(an, self.conns1(an, st) is self.conns0(st), 'A01', 'refused-without-effect', site, 'a refused client changes the connections')
            self.check(an, not [1 for _, on in self.ops(st) if on in MUTATING], 'A01', 'refused-without-effect', site,
                       'a refused client has %s carried out' % [on for _, on in self.ops(st)])

    def turn_packet(self, an, st, site, k, cid, snd, pkt):
        cur = self.current(st, cid, snd)
        if cur is False:
            return
        pk = self.pkind(an, st, pkt) if k == 'ControlPacket' else k
        pos = self.place_of_turn(st)
        if pk is None:
            # packets treated alike: none of the ones that need an answer may be among them
            d = st.domain(discr_of(pkt)) if pkt is not None else 0
            names = [v['name'] for i, v in enumerate(self.f.adts[CP]['variants']) if d >> i & 1]
            need = [n for n in names if n in ('Subscribe', 'Unsubscribe', 'PingReq', 'Publish', 'Disconnect')]
            self.check(an, not need, 'M01 M04 L03', 'packet-served', site, 'does nothing for %s' % need)
            if need:
                return
            self.check(an, not self.ops(st) and not self.sends(st), 'L01', 'no-effect', site, 'acts on %s' % names)
            return
        mine = self.sends(st, snd)
        if pk in ('Subscribe', 'Unsubscribe', 'PingReq'):
            want = {'Subscribe': 'SubAck', 'Unsubscribe': 'UnsubAck', 'PingReq': 'PingResp'}[pk]
            got = [n for _, n, _ in mine]
            good = got == [want] or (pk == 'PingReq' and got == ['Disconnect'])
            self.check(an, good, 'M01', 'one-reply', pos or site, '%s is answered by %s' % (pk, got))
            if pk == 'PingReq' and got == ['Disconnect']:
                # only when there is no session
                ex = [e for e, on in self.ops(st) if on == 'SessionExists']
                r = self.replied(an, st, ex[0]) if ex else None
                self.check(an, r is not None and st.truth(fld(r.res, 0, 0)) is False, 'M01', 'ping-answered', site,
                           'a PINGREQ of a client with a session is not answered')
        elif pk == 'Publish':
            S = [e for e, on in self.ops(st) if on == 'SendersToPublish']
            other = [e for e, on in self.ops(st) if on == 'Publish']
            if other and not S:
                return
            if not self.check(an, len(S) == 1, 'M04', 'subscribers-asked-for', site, '%d requests for the subscribers' % len(S)):
                return
            r = self.replied(an, st, S[0])
            if r is None:
                return
            R = fld(r.res, 0, 0)
            done = st.env.get(('G', 'delivered'), INT(0))
            i = st.env.get(('G', 'end', R.id))
            self.check(an, i is not None and eqnum(st, i, done) or eqnum(st, mkapp('len', R), done), 'M04', 'each-subscriber-once', pos or site,
                       'stops after %s of the subscribers' % done)
        elif pk in ('Disconnect', 'ConnectionLost'):
            self.anchors.add('over:' + pk)
            o = [e for e, on in self.ops(st) if on in ENDING]
            self.check(an, len(o) == 1, 'L03 L06 R06', 'session-ended', site, 'after %s, %d requests to end the session' % (pk, len(o)))
            m = self.conns1(an, st)
            g = mapget(m, cid) if m is not None else None
            self.check(an, g is not None and st.value(discr_of(g)) == 0, 'L03 L06 A02 R06', 'no-longer-current', site,
                       'after %s, the connection stays the current one' % pk)

    def place_of_turn(self, st):
        for e in reversed(st.trace):
            return e.site
        return None


def root(facts, elem):
    """The task that receives the events of that type: the outermost coroutine that takes them off their channel."""
    def takes(b):
        return any(True for _ in mentions(b, lambda f: f.get('method') == 'recv' and 'mpsc' in f['name'] and
                                          any(elem in facts.tys(i) for i in f.get('targs') or [] if isinstance(i, int))))
    return outermost(facts, {b.key for b in facts.bodies.values() if b.local and takes(b)})


SENDER = 'Sender<mqtt::events::ServerEvent>'


def sender_path(facts, i, depth=4):
    """Where a value of the type has the one sender of a connection's queue; None when it has none, or several."""
    t = facts.types[i]
    if t['s'].endswith(SENDER) and t['k'] == 'adt':
        return ()
    if depth == 0:
        return None
    if t['k'] == 'tuple':
        parts = t['args']
    elif t['k'] == 'adt' and facts.adts.get(t['def'], {}).get('kind') == 'struct' and facts.adts[t['def']].get('local'):
        parts = [fl[1] for fl in facts.adts[t['def']]['variants'][0]['fields']]
    else:
        return None
    found = [(j,) + p for j, p in ((j, sender_path(facts, x, depth - 1)) for j, x in enumerate(parts) if isinstance(x, int)) if p is not None]
    return found[0] if len(found) == 1 else None


def entries(facts):
    """What the dispatcher's table holds for a client: (names of the types, place of the sender in it)."""
    names, paths = set(), set()
    session = sfx(facts, 'Session')
    for i, t in enumerate(facts.types):
        if t['k'] == 'adt' and t.get('def', '').endswith(('::HashMap', '::BTreeMap')) and facts.tys(t['args'][0]).endswith('String'):
            v = facts.types[t['args'][1]]
            p = sender_path(facts, t['args'][1])
            if p is not None and v.get('def') != session:
                names.add(v['s'])
                paths.add(p)
    return (names, paths.pop()) if len(paths) == 1 else ({SENDER}, ())


COLLECTIONS = ('HashMap<', 'BTreeMap<', 'HashSet<', 'BTreeSet<', 'Vec<', 'VecDeque<', 'LinkedList<', 'BinaryHeap<', 'Slab<', 'Option<', 'Arc<', 'Rc<')


def places(facts, rep):
    """The structures that can keep a connection open: those with room for a sender of its queue."""
    local = {n: a for n, a in facts.adts.items() if a.get('local')}
    holds = set()
    sender = SENDER

    def short(n):
        return n.split('::', 1)[1] if '::' in n else n

    def mention(ty):
        return sender in ty or any(re.search(r'(?<![\w:])%s(?![\w])' % re.escape(short(h)), ty) for h in holds)
    while True:
        new = {n for n, a in local.items() if n not in holds and any(mention(fl[2]) for v in a['variants'] for fl in v['fields'])}
        if not new:
            break
        holds |= new
    session = sfx(facts, 'Session')
    # taken over by the analyses of the dispatcher (by client id) and of the messaging task (the sessions)
    known = [r'(Hash|BTree)Map<[\w:]*String, [\w:]*' + re.escape(sender), r'(Hash|BTree)Map<[\w:]*String, ' + re.escape(short(session or '?'))]
    known += [r'(Hash|BTree)Map<[\w:]*String, ' + re.escape(e) for e in entries(facts)[0]]
    n = 0
    for h in sorted(holds):
        a = local[h]
        if a['kind'] == 'enum':
            continue        # events and requests, which are passed on
        for v in a['variants']:
            for fl in v['fields']:
                ty = fl[2]
                if mention(ty) and any(c in ty for c in COLLECTIONS):
                    n += 1
                    good = any(re.search(k, ty) for k in known)
                    rep.check(good, 'L06', 'known-places', '%s.%s' % (core.clean(h), fl[0]), 'can keep connections open, and nothing is known to remove them (%s)' % ty)
    rep.check(n >= 2, 'L06', 'anchor', 'tables of connections', '%d found' % n)


def check(facts, rep):
    places(facts, rep)
    tasks = root(facts, 'events::ClientEvent')
    rep.check(len(tasks) == 1, 'L01 L03 L04 L05 A01 A02 M01 M04 M05 M06 R01 R04 R06', 'anchor', 'dispatcher',
              'tasks that receive client events: %s' % tasks)
    for t in tasks:
        b = facts.bodies[t]
        h = HandlerHooks(rep, core.clean(b.pretty), facts)
        an = Analysis(facts, h, [h.lookup, models.lookup], 'dispatcher')
        an.run(b, co_args(b, [sym('self')] if len(b.b['upvars']) == 1 else [sym('up%d' % i) for i in range(len(b.b['upvars']))]))
        for a, p in (('auth', 'A01'), ('accept', 'L05 L04'), ('refuse', 'L05 A01'), ('insert', 'L05'), ('subscribe', 'M01'), ('unsubscribe', 'M01'),
                     ('publish', 'M04'), ('delivery', 'M04 M05'), ('SubAck', 'M01'), ('UnsubAck', 'M01'), ('PingResp', 'M01'),
                     ('over:Disconnect', 'L03'), ('over:ConnectionLost', 'L03'), ('end', 'R04')):
            rep.check(a in h.anchors, p, 'anchor', '%s: %s' % (h.where, a), 'never happens')
        rep.check(bool(h.chain), 'R06', 'bounded-state', h.where, 'the turns of the task are not recognised')
        rep.stats.append(('dispatcher', h.where, {'steps': an.steps, 'states': sum(len(x) for x in an.store.values()), 'turns': h.turns,
                                                  'panic_sites': h.panics, 'bodies': len({f.body.key for f in an.framelist})}))
        rep.notes.append(('unmodelled', sorted(an.unknown)))
    return rep

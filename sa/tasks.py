"""The tasks around a connection: accepting, reading, writing; and the start and stop of the broker."""
from .evloop import *
from . import decoder, encoder
from .core import numeric, Giveup
from .handler import root


def find(t, pred, out=None):
    if out is None:
        out = []
    if pred(t):
        out.append(t)
    else:
        for k in kids(t):
            find(k, pred, out)
    return out


# never returns the same value twice
UNIQUE = ('Uuid::new_v4', 'Uuid::now_v1', 'Uuid::now_v6', 'Uuid::now_v7', 'AtomicU64::fetch_add', 'AtomicUsize::fetch_add', 'AtomicU32::fetch_add',
          'Atomic::fetch_add', 'rand::random', 'Rng::gen', 'Rng::random', 'RngCore::next_u64', 'thread::ThreadRng::next_u64')


class TaskHooks(Growth, Hooks):
    """Packet reading and writing count as single steps here: (kind, stream, ...)."""
    TURNS = True                # serves something, turn by turn

    def __init__(self, rep, where, facts, S):
        Hooks.__init__(self, rep, where)
        self.f = facts
        self.S = S
        rd, wr = decoder.roots(facts, S.readers), encoder.roots(facts, S.writers)
        self.rd = {co.key for _, co, _ in rd}
        self.wr = {co.key for _, co, _ in wr}
        self.begin = {b.key for b, _, _ in rd + wr}
        self.anchors = set()
        self.steps = 0

    def lookup(self, an, st, c):
        if core.clean(c.callee.get('pretty') or '').endswith(UNIQUE):
            return one(st, app('unique', an.fresh(st, c.site, 'id')))
        if c.callee.get('body') in self.begin and self.g(st, 'mid') is not None:
            # what was read or written of a packet before this one is given up
            self.s(st, 'torn')
        if c.callee.get('method') != 'poll':
            return None
        k = c.callee.get('rname') if c.callee.get('rname') in self.rd | self.wr else c.callee.get('body')
        if k not in self.rd and k not in self.wr:
            return None
        kind = 'readpkt' if k in self.rd else 'writepkt'
        fut = an.pinned(st, c.args[0])
        out = []
        if an.allow_pending(c):
            p = st.copy()
            self.s(p, 'mid')
            if an.emit(p, 'pending', c.site, (fut,), info=c) is not False:
                out.append((p, PENDING))
        self.check(an, self.g(st, 'torn') is None, self.TORN, 'whole-packets', c.site, 'goes on in the middle of a packet, after its %s was cut off'
                   % ('reading' if kind == 'readpkt' else 'writing'))
        self.s(st, 'mid', None)
        r = an.fresh(st, c.site, kind)
        RNG.setdefault(app('discr', r), (0, 1))
        args = fut.a[2] if fut.k == 'agg' else ()
        if an.emit(st, kind, c.site, args, r, info=c) is not False:
            out.append((st, READY(r)))
        return out

    TORN = 'C02 M06'
    TURNS = ('readpkt',)

    def key(self, an, st):
        return tuple(sorted(str(c[1]) for c in st.env if c[0] == 'G'))

    def g(self, st, n):
        return st.env.get(('G', n))

    def s(self, st, n, v=INT(1)):
        if v is None:
            st.env.pop(('G', n), None)
        else:
            st.env[('G', n)] = v

    def at(self, an, fr, bb, st, back):
        self.g_at(an, fr, bb, st)
        self.settle(an, st)

    def runs(self, fut, what):
        """The future runs one of these coroutines."""
        seen, work = set(), [f.a[0] for f in find(fut, lambda t: t.k == 'agg' and t.a[0] in self.f.bodies)]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in what:
                return True
            work += callees(self.f, self.f.bodies[x])
        return False

    def settle(self, an, st):
        pass


class Wiring:
    """What one connection consists of: a channel, a reading and a writing task, and the two halves of one socket."""

    def wire(self, an, st, fut, site):
        """A future of the connection starts to run. Tells whether it reads or writes."""
        ch = self.g(st, 'ch')
        rd, wr = self.runs(fut, self.rd), self.runs(fut, self.wr)
        if ch is None or not rd and not wr:
            return rd or wr
        halves = find(fut, lambda t: t.k == 'app' and t.a[0] == 'half')
        rx, tx = contains(fut, app('rx', ch)), contains(fut, app('tx', ch))
        self.check(an, len(halves) == 1 and rx == wr and tx == rd, 'M01 L05 L06 R05', 'wired', site,
                   'the %s gets %s of the connection' % ('reading task' if rd else 'writing task', halves))
        if rd:
            self.anchors.add('reader')
            self.check(an, self.g(st, 'rd') is None, 'M06', 'one-reader', site, 'starts two reading tasks')
        for h in halves[:1]:
            self.half(an, st, h, rd, site)
        self.s(st, 'rd' if rd else 'wr')
        return True

    def half(self, an, st, h, rd, site):
        self.check(an, self.g(st, 'sock') in (None, h.a[1]) and (h.a[2] is STR('read')) == rd, 'M01 L05', 'wired', site,
                   'connects the tasks of different connections')
        self.s(st, 'sock', h.a[1])

    def complete(self, an, st, site):
        if self.g(st, 'ch') is not None:
            self.check(an, self.g(st, 'rd') is not None and self.g(st, 'wr') is not None, 'L05 R05', 'every-connection-served', site,
                       'a connection is not read or not written')

    def inline(self, an, st, ev, rd):
        """A packet is read or written by the very task that set up the connection."""
        ch = self.g(st, 'ch')
        if ch is None:
            return
        if rd:
            self.anchors.add('reader')
        for h in [x for a in ev.args[:1] for x in find(an.content(st, a), lambda t: t.k == 'app' and t.a[0] == 'half')]:
            self.half(an, st, h, rd, ev.site)
        self.s(st, 'rd' if rd else 'wr')


class ReaderHooks(Wiring, Watch, TaskHooks):
    """Reads the packets of one connection and hands them to the dispatcher.

    Once the CONNECT was handed over it waits at the same time for the end of the writing task, which ends when told to disconnect."""
    WATCHED = 'closed'

    def waiting(self, an, st, ev, main):
        f = ev.args[0]
        if ev.kind == 'pendlocal':
            return 'pm' if f.a[0] in self.rd or self.reads(f.a[0]) else 'pb' if 'closed' in waits_in(an.f, f.a[0]) else None
        if f.k == 'agg' and f.a[0] in self.rd:
            return 'pm'
        return 'pb' if f.k == 'fut' and f.a[0] == 'closed' and self.mine(an, st, f.a[2]) else None

    def reads(self, key):
        seen, work = set(), [key]
        while work:
            x = work.pop()
            if x in self.rd:
                return True
            if x not in seen:
                seen.add(x)
                work += callees(self.f, self.f.bodies[x])
        return False

    def mine(self, an, st, args):
        return bool(args) and same(st, an.content(st, args[0]), self.g(st, 'own') or UNIT)

    def watched(self, an, st, site, good):
        if self.g(st, 'id') is not None:
            self.check(an, good, 'L06', 'watches-for-the-disconnect', site,
                       'waits for the next packet without noticing that the connection has been told to disconnect')

    def settle(self, an, st):
        p = self.g(st, 'pk')
        if p is not None and st.value(discr_of(p)) == 1:
            self.s(st, 'pk', None)
            self.s(st, 'err')
        r = self.g(st, 'sent')
        if r is not None:
            d = st.value(discr_of(r))
            if d is not None:
                self.s(st, 'sent', None)
                if d == 1:
                    # nobody is there any more to be told anything
                    self.s(st, 'alone')
        q = self.g(st, 'last')
        if q is not None:
            d = st.value(discr_of(q))
            if d is not None:
                self.s(st, 'last', None)
                if self.f.adts[CP]['variants'][d]['name'] == 'Disconnect':
                    self.s(st, 'bye')

    def key(self, an, st):
        # whether the CONNECT names its client keeps states apart
        p = self.g(st, 'pk')
        e = ''
        if p is not None and self.g(st, 'id') is None and st.value(discr_of(p)) == 0:
            c = fld_of(self.f, PKT + 'connect::ConnectPacket', 'client_id', fld(fld(p, 0, 0), self.f.variant(CP, 'Connect'), 0))
            n = mkapp('len', c)
            e = 'empty' if empty(st, c) else 'named' if numeric(n) and st.ge0(addc(n, -1)) else ''
        return TaskHooks.key(self, an, st) + (e,) + self.watchkey(an, st)

    def pkind(self, st, p):
        """Possible kinds of the packet."""
        d = st.domain(discr_of(fld(p, 0, 0)))
        return {v['name'] for i, v in enumerate(self.f.adts[CP]['variants']) if d >> i & 1}

    def event(self, an, st, ev):
        self.settle(an, st)
        self.growth(an, st, ev)
        k = ev.kind
        if k in self.TURNS:
            self.g_turn(an, ev)
        self.steps += an.recording
        self.watch(an, st, ev, lambda k: k == 'readpkt')
        if k == 'readpkt':
            for n, p, what in (('err', 'L02 L06', 'an error'), ('lost', 'L02 L06', 'reporting the connection lost'), ('bye', 'L02 L06', 'DISCONNECT'),
                               ('gone', 'L06', 'the connection was told to disconnect'), ('down', 'R04', 'the shutdown signal')):
                self.check(an, self.g(st, n) is None, p, 'stops-reading', ev.site, 'goes on reading after %s' % what)
            self.check(an, self.g(st, 'pk') is None, 'M06 L01 M01 M04', 'each-packet-delivered', ev.site, 'reads on without having delivered a packet')
            self.s(st, 'last', None)
            self.s(st, 'pk', ev.res)
            self.inline(an, st, ev, True)
            self.anchors.add('read')
        elif k in ('send', 'trysend', 'blocking') and 'ClientEvent' in elemty(an, ev):
            self.s(st, 'sent', ev.res)
            if k != 'send':
                self.bad(an, 'M06 L02', 'in-order', ev.site, 'delivers with %s' % k)
            self.on_send(an, st, ev)
        elif k == 'channel' and 'ServerEvent' in elemty(an, ev):
            self.s(st, 'ch', ev.res)
            self.anchors.add('channel')
        elif k == 'send':
            self.bad(an, 'L01 M06', 'known-channels', ev.site, 'sends something else than client events')
        elif k == 'spawn':
            if not self.wire(an, st, ev.args[0], ev.site) or self.runs(ev.args[0], self.rd):
                self.bad(an, 'M06', 'in-order', ev.site, 'hands the work of the connection to another task')
        elif k == 'closed':
            if self.mine(an, st, ev.args):
                self.s(st, 'gone')
                self.anchors.add('closed')
        elif k == 'brecv':
            self.s(st, 'down')
        elif k == 'panic':
            self.check(an, self.g(st, 'id') is None, 'L02', 'no-panic', ev.site, 'can panic and never report the end of the connection (%s)' % ev.args[0])
        elif k == 'end':
            self.on_end(an, st, ev)
        return True

    def on_send(self, an, st, ev):
        v = ev.args[1]
        if not self.check(an, v.k == 'agg' and v.a[0] == EVENT, 'L01 L02 M06', 'recognised-event', ev.site, 'sends %s' % v):
            return
        n = self.f.adts[EVENT]['variants'][v.a[1]]['name']
        self.anchors.add(n)
        fs = {}
        for i, fl in enumerate(self.f.adts[EVENT]['variants'][v.a[1]]['fields']):
            fs[fl[2].split('::')[-1].rstrip('>') if 'Sender<' not in fl[2] else 'sender'] = v.a[2][i]
        self.check(an, self.g(st, 'lost') is None and self.g(st, 'bye') is None, 'L02', 'ends-with-its-report', ev.site,
                   'sends %s after the end was reported' % n)
        p = self.g(st, 'pk')
        if n == 'Connected':
            self.on_connect(an, st, ev, fs, p)
            return
        if not self.check(an, self.g(st, 'id') is not None, 'L01', 'connect-first', ev.site, 'sends %s before the CONNECT' % n):
            return
        if not self.check(an, n in ('ControlPacket', 'ConnectionLost'), 'L02', 'recognised-event', ev.site, 'sends %s' % n):
            return
        self.check(an, 'String' in fs and same(st, fs['String'], self.g(st, 'id')), 'L02', 'effective-client-id', ev.site,
                   'sends %s for %s instead of %s' % (n, fs.get('String'), self.g(st, 'id')))
        self.check(an, fs.get('sender') is self.g(st, 'own'), 'L02 A02 M01', 'own-connection', ev.site,
                   'sends %s with %s instead of %s' % (n, fs.get('sender'), self.g(st, 'own')))
        if n == 'ControlPacket':
            good = p is not None and st.value(discr_of(p)) == 0 and fs.get('ControlPacket') is fld(p, 0, 0)
            self.check(an, good, 'M06 L01 M01 M04', 'each-packet-delivered', ev.site, 'delivers %s, read was %s' % (fs.get('ControlPacket'), p))
            self.s(st, 'pk', None)
            if p is not None:
                self.s(st, 'last', fld(p, 0, 0))
        else:
            self.check(an, p is None, 'M06 M01 M04', 'each-packet-delivered', ev.site, 'reports the end without having delivered a packet')
            self.s(st, 'lost')

    def on_connect(self, an, st, ev, fs, p):
        self.check(an, self.g(st, 'id') is None, 'L01', 'connect-once', ev.site, 'reports a CONNECT twice')
        c = fs.get('ConnectPacket')
        good = p is not None and st.value(discr_of(p)) == 0 and self.pkind(st, p) == {'Connect'}
        if not self.check(an, good and c is not None, 'L01', 'connect-first', ev.site, 'reports a CONNECT although %s was read' % p):
            return
        C = fld(fld(p, 0, 0), self.f.variant(CP, 'Connect'), 0)
        adt = PKT + 'connect::ConnectPacket'
        for i, fl in enumerate(self.f.adts[adt]['variants'][0]['fields']):
            if fl[0] != 'client_id':
                self.check(an, same(st, fld(c, None, i), fld(C, None, i)), 'A01 L01', 'connect-unaltered', ev.site,
                           '%s is %s' % (fl[0], fld(c, None, i)))
        i, j = fld_of(self.f, adt, 'client_id', c), fld_of(self.f, adt, 'client_id', C)
        made = not same(st, i, j)
        if made:
            self.check(an, empty(st, j) and i.k != 'str' and not isempty(i) and bool(atoms(i)), 'L02 L04', 'effective-client-id', ev.site,
                       'the client is called %s instead of %s' % (i, j))
            if empty(st, j):
                own = bool(find(i, lambda t: t.k == 'app' and t.a[0] == 'unique'))
                self.check(an, own, 'L04', 'own-client-id', ev.site, 'a client without client id is called %s, which others can be called as well' % i)
        self.s(st, 'id', i)
        ch = self.g(st, 'ch')
        self.check(an, ch is None or fs.get('sender') is app('tx', ch), 'L05 M01', 'wired', ev.site, 'answers are to go to %s' % fs.get('sender'))
        self.s(st, 'own', fs.get('sender'))
        self.s(st, 'pk', None)

    def on_end(self, an, st, ev):
        self.anchors.add('end')
        self.complete(an, st, ev.site)
        p = self.g(st, 'pk')
        if self.g(st, 'down') is not None:
            return
        if self.g(st, 'id') is None:
            self.check(an, p is None or 'Connect' not in self.pkind(st, p), 'L02 L05', 'connect-delivered', ev.site, 'ends without having delivered a CONNECT')
            return
        self.check(an, any(self.g(st, x) is not None for x in ('lost', 'bye', 'alone')), 'L02 L03 R06', 'end-reported', ev.site,
                   'ends without reporting it, and without a DISCONNECT delivered')
        self.check(an, p is None, 'M06 M01 M04', 'each-packet-delivered', ev.site, 'ends without having delivered a packet')


class WriterHooks(Wiring, TaskHooks):
    """Writes what the broker sends to one connection."""
    TORN = 'C07 M01 M04'
    TURNS = ('recv',)

    def settle(self, an, st):
        e = self.g(st, 'ev')
        if e is not None:
            d = st.value(discr_of(e))
            if d == 0:
                self.s(st, 'ev', None)
                self.s(st, 'over')
            elif d == 1:
                x = st.value(discr_of(fld(e, 1, 0)))
                if x is not None and self.f.adts[SERVER]['variants'][x]['name'] != 'ControlPacket':
                    self.s(st, 'ev', None)
                    self.s(st, 'bye')
        w = self.g(st, 'res')
        if w is not None:
            d = st.value(discr_of(w))
            if d is not None:
                self.s(st, 'res', None)
                if d == 1:
                    self.s(st, 'failed')

    def event(self, an, st, ev):
        self.settle(an, st)
        self.growth(an, st, ev)
        k = ev.kind
        if k in self.TURNS:
            self.g_turn(an, ev)
        self.steps += an.recording
        if k == 'recv' and 'ServerEvent' in elemty(an, ev):
            self.check(an, self.g(st, 'ev') is None, 'L05 M01 M04', 'each-packet-written', ev.site, 'goes on without having written a packet')
            self.check(an, self.g(st, 'bye') is None, 'L04 L05 L06', 'disconnects-when-told', ev.site, 'goes on after having been told to disconnect')
            self.check(an, self.g(st, 'over') is None, 'L06', 'disconnects-when-told', ev.site, 'goes on although nothing can be sent any more')
            ch = self.g(st, 'ch')
            self.check(an, ch is None or contains(ev.args[0], app('rx', ch)), 'L05 M01 M04', 'wired', ev.site, 'takes packets from %s' % (ev.args[0],))
            self.s(st, 'failed', None)
            self.s(st, 'res', None)
            self.s(st, 'ev', ev.res)
        elif k == 'writepkt':
            e = self.g(st, 'ev')
            v = self.f.variant(SERVER, 'ControlPacket')
            good = e is not None and st.value(discr_of(e)) == 1 and st.value(discr_of(fld(e, 1, 0))) == v \
                and len(ev.args) > 1 and an.content(st, ev.args[1]) is fld(fld(e, 1, 0), v, 0)
            self.check(an, good, 'L05 M01 M04', 'each-packet-written', ev.site, 'writes %s' % (ev.args[1:],))
            self.s(st, 'ev', None)
            self.s(st, 'res', ev.res)
            self.inline(an, st, ev, False)
            self.anchors.add('write')
        elif k == 'panic':
            self.bad(an, 'L05 M01 M04', 'each-packet-written', ev.site, 'can panic with packets left to write (%s)' % ev.args[0])
        elif k == 'channel' and 'ServerEvent' in elemty(an, ev):
            self.s(st, 'ch', ev.res)
            self.anchors.add('channel')
        elif k == 'spawn':
            if not self.wire(an, st, ev.args[0], ev.site) or self.runs(ev.args[0], self.wr):
                self.bad(an, 'M06', 'in-order', ev.site, 'hands the writing to another task')
        elif k == 'brecv':
            self.s(st, 'down')
        elif k == 'end':
            self.anchors.add('end')
            if self.g(st, 'ch') is not None:
                self.check(an, self.g(st, 'rd') is not None, 'L05 R05', 'every-connection-served', ev.site, 'a connection is not read')
            if self.g(st, 'down') is None:
                over = any(self.g(st, n) is not None for n in ('over', 'bye', 'failed', 'res'))
                self.check(an, over, 'L05 M01 M04', 'each-packet-written', ev.site, 'stops writing before being told to')
                self.check(an, self.g(st, 'ev') is None, 'L05 M01 M04', 'each-packet-written', ev.site, 'ends without having written a packet')
        return True


class AcceptHooks(Wiring, Watch, TaskHooks):
    """Accepts connections; each of them gets tasks of its own."""
    TURNS = ('accept',)

    def __init__(self, rep, where, facts, S, accepts):
        TaskHooks.__init__(self, rep, where, facts, S)
        self.accepts = accepts
        self.spawned = {}

    def key(self, an, st):
        return TaskHooks.key(self, an, st) + self.watchkey(an, st)

    def settle(self, an, st):
        a = self.g(st, 'acc')
        if a is not None and st.value(discr_of(a)) == 1:
            self.s(st, 'acc', None)

    def event(self, an, st, ev):
        self.settle(an, st)
        self.growth(an, st, ev)
        k = ev.kind
        if k in self.TURNS:
            self.g_turn(an, ev)
        self.steps += an.recording
        if self.accepts:
            self.watch(an, st, ev, lambda k: k == 'accept')
        if k == 'accept':
            self.check(an, self.g(st, 'down') is None, 'R04', 'leaves-on-shutdown', ev.site, 'goes on accepting after the shutdown signal')
            self.served(an, st, ev.site)
            self.s(st, 'acc', ev.res)
            self.anchors.add('accept')
        elif k == 'brecv':
            if self.accepts:
                self.check(an, self.g(st, 'down') is None, 'R04', 'leaves-on-shutdown', ev.site, 'goes on after the shutdown signal')
            self.s(st, 'down')
            self.anchors.add('brecv')
        elif k == 'channel' and 'ServerEvent' in elemty(an, ev):
            self.s(st, 'ch', ev.res)
            self.anchors.add('channel')
        elif k == 'spawn':
            self.on_spawn(an, st, ev)
        elif k in ('recv', 'send', 'orecv', 'join', 'join_all', 'readpkt', 'writepkt', 'poll') or k.startswith('await:'):
            if self.accepts:
                self.bad(an, 'R05 R03', 'accepting-not-held-up', ev.site, 'waits for %s before accepting the next connection' % k)
        elif k == 'blocking':
            self.bad(an, 'R03 R05', 'accepting-not-held-up', ev.site, 'blocks')
        elif k.startswith(('vec.', 'map.', 'call:alloc::', 'call:std::collections')):
            ch, x = self.g(st, 'ch'), self.g(st, 'sock')
            kept = [a for a in ev.args[1:] if not isinstance(a, int) and (ch is not None and contains(a, app('tx', ch)) or x is not None and contains(a, x))]
            self.check(an, not kept, 'L06', 'not-kept', ev.site, 'keeps the connection where nothing removes it (%s)' % k)
        elif k in ('panic', 'exit'):
            if self.accepts:
                self.bad(an, 'R05 R01', 'accepting-goes-on', ev.site, 'accepting can end here (%s)' % (ev.args[0] if ev.args else ''))
        elif k == 'end':
            self.served(an, st, ev.site)
            if self.accepts:
                self.check(an, self.g(st, 'down') is not None, 'R05 R01', 'accepting-goes-on', ev.site, 'accepting ends without a shutdown signal')
        return True

    def on_spawn(self, an, st, ev):
        fut = ev.args[0]
        a = self.g(st, 'acc')
        if an.recording:
            for f in find(fut, lambda t: t.k == 'agg' and t.a[0] in self.f.bodies and self.f.bodies[t.a[0]].kind == 'coroutine'):
                self.spawned[f.a[0]] = f
        if a is not None:
            sock = fld(fld(a, 0, 0), None, 0)
            if contains(fut, sock):
                self.check(an, st.value(discr_of(a)) == 0, 'R05', 'every-connection-served', ev.site, 'serves a connection that may not exist')
                self.s(st, 'acc', None)
        self.wire(an, st, fut, ev.site)

    def served(self, an, st, site):
        self.check(an, self.g(st, 'acc') is None, 'R05', 'every-connection-served', site, 'drops an accepted connection')
        self.complete(an, st, site)
        for n in ('ch', 'rd', 'wr', 'sock'):
            self.s(st, n, None)


def accepting(facts):
    return outermost(facts, {b.key for b in facts.bodies.values() if b.local and any(
        True for _ in mentions(b, lambda f: core.clean(f['pretty']) in models_names('accept')))})


def models_names(kind):
    return [k for k, v in models.SHORT.items() if v == kind]


def run(facts, h, key, name):
    b = facts.bodies[key]
    an = Analysis(facts, h, [h.lookup, models.lookup], name)
    try:
        an.run(b, co_args(None, [sym('up%d' % i) for i in range(len(b.b['upvars']))]))
    except Giveup as e:
        for p in h.PROPS.split():
            h.rep.bad(p, 'analysable', h.where, 'analysis gave up: %s' % e)
        return an
    h.rep.stats.append((name, h.where, {'steps': an.steps, 'states': sum(len(x) for x in an.store.values()), 'events': h.steps,
                                        'bodies': len({f.body.key for f in an.framelist})}))
    h.rep.notes.append(('unmodelled', sorted(an.unknown)))
    if h.TURNS and not (isinstance(h, AcceptHooks) and not h.accepts):
        h.rep.check(bool(h.g_chain), 'R06', 'bounded-state', h.where, 'the turns of the task are not recognised')
    return an


ReaderHooks.PROPS = 'L01 L02 L06 M06 R06'
WriterHooks.PROPS = 'L05 L06 M01 M04 R06'
AcceptHooks.PROPS = 'R05 R01 R04 R06'


FORGET = ('core::mem::forget', 'Box::leak', 'Vec::leak', 'ManuallyDrop::new', 'OwnedWriteHalf::forget', 'mem::manually_drop::ManuallyDrop::new',
          'Arc::into_raw', 'Box::into_raw', 'IntoRawFd::into_raw_fd', 'TcpStream::into_std')


def check_forget(facts, rep):
    """Nothing is kept from being dropped, which is what closes a socket."""
    n = 0
    for b in facts.bodies.values():
        if not b.local or b.derived:
            continue
        n += 1
        for i, f in mentions(b, lambda f: True):
            nm = core.clean(f['pretty'])
            if nm.endswith(FORGET):
                rep.bad('L06', 'closed-when-dropped', '%s in %s' % (nm, core.clean(b.pretty)), 'what it is given is never dropped')
    rep.check(n > 50, 'L06', 'closed-when-dropped', 'all local bodies', '%d bodies' % n)


def check_connections(facts, rep, S):
    check_forget(facts, rep)
    dec = decoder.roots(facts, S.readers)
    enc = encoder.roots(facts, S.writers)
    readers = outermost(facts, {co.key for _, co, _ in dec})
    writers = outermost(facts, {co.key for _, co, _ in enc})
    accs = accepting(facts)
    rep.check(bool(readers), 'L01 L02 M06', 'anchor', 'reading task', 'no task reads packets')
    rep.check(bool(writers), 'L05 M01 M04', 'anchor', 'writing task', 'no task writes packets')
    rep.check(bool(accs), 'R05 R01 R04', 'anchor', 'accepting task', 'no task accepts connections')
    anchors = set()
    for k in readers:
        h = ReaderHooks(rep, core.clean(facts.bodies[k].pretty), facts, S)
        run(facts, h, k, 'reading task')
        anchors |= h.anchors & {'channel', 'reader'}
        for a, p in (('read', 'L01 M06'), ('Connected', 'L01'), ('ControlPacket', 'M06'), ('ConnectionLost', 'L02'), ('end', 'L02 L06'),
                     ('closed', 'L06')):
            rep.check(a in h.anchors, p, 'anchor', '%s: %s' % (h.where, a), 'never happens')
    for k in writers:
        h = WriterHooks(rep, core.clean(facts.bodies[k].pretty), facts, S)
        run(facts, h, k, 'writing task')
        anchors |= h.anchors & {'channel', 'reader'}
        for a, p in (('write', 'M01 M04'), ('end', 'L05')):
            rep.check(a in h.anchors, p, 'anchor', '%s: %s' % (h.where, a), 'never happens')
    seen = set()
    todo = [(k, True) for k in accs]
    while todo:
        k, acc = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        h = AcceptHooks(rep, core.clean(facts.bodies[k].pretty), facts, S, acc)
        run(facts, h, k, 'accepting task' if acc else 'connection task')
        anchors |= h.anchors
        todo += [(x, False) for x in h.spawned if x not in readers and x not in writers]
    for a, p in (('accept', 'R05'), ('brecv', 'R04'), ('channel', 'L05'), ('reader', 'L05 R05')):
        rep.check(a in anchors, p, 'anchor', 'accepting task: %s' % a, 'never happens')

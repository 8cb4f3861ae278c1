"""The packet decoder: what read_packet accepts, how much it consumes and which bytes become
which field, for every byte sequence and every fragmentation."""
from .terms import *
from .core import Analysis, Giveup
from . import models, stream
from .par import pmap
import time
from .models import IN
from .stream import SELF, POS, init_read, co_args, at_path, progress, utf8_known
from .util import *

P0 = sym('p0')
MAXRL = 268435455

# first bytes MQTT 3.1.1 allows from a client, per packet
FIRST = {
    'Connect': [0x10], 'PubAck': [0x40], 'PubRec': [0x50], 'PubRel': [0x62], 'PubComp': [0x70],
    'Subscribe': [0x82], 'Unsubscribe': [0xA2], 'PingReq': [0xC0], 'Disconnect': [0xE0],
    'Publish': [0x30 | x for x in range(16) if (x >> 1) & 3 != 3],
}
# a set dup flag on QoS 0 is illegal too, but may be tolerated
NEED = dict(FIRST, Publish=[0x30 | x for x in range(16) if (x >> 1) & 3 != 3 and not (x & 8 and (x >> 1) & 3 == 0)])


def roots(facts, readers):
    """Async functions that read one whole packet from a stream."""
    out = []
    for b in facts.bodies.values():
        if b.kind != 'fn' or not b.local or not b.is_async or b.argc != 1:
            continue
        co = facts.bodies.get(b.key + '::{closure#0}')
        if co is None:
            continue
        t = facts.types[facts.strip_ref(b.locals[1][0])]
        r = stream.result_of(facts, co.locals[0][0])
        if r is None or t.get('def') not in readers:
            continue
        rd = facts.types[r].get('def') or ''
        if packet_adt(facts) == rd:
            out.append((b, co, t['def']))
    return out


def packet_adt(facts):
    for p, a in facts.adts.items():
        if a['local'] and a['kind'] == 'enum' and p.split('::')[-1] == 'ControlPacket':
            return p
    for p, a in facts.adts.items():
        ns = {v['name'] for v in a['variants']}
        if a['local'] and a['kind'] == 'enum' and {'Connect', 'Publish', 'Subscribe', 'PingReq'} <= ns and \
                any(v['fields'] for v in a['variants']):
            return p
    return None


class DecodeHooks(Hooks, Scan):
    chars = '+#'
    levels = True

    def __init__(self, rep, where, facts, path, only=None):
        Hooks.__init__(self, rep, where)
        self.f = facts
        self.only = only       # (type bits, length bytes): the case this run is about
        self.path = path
        self.cover = {}        # variant -> first bytes accepted
        self.lens = {}         # k -> variants that end right, with every length of k bytes
        self.ks = {}           # (variant, k) -> [right, wrong]
        self.qos = {0: set(), 1: set(), 2: set()}
        self.flags = set()     # CONNECT flags accepted
        self.ends = 0
        self.asserts = set()
        self.progressed = 0
        self.mayend = set()

    # ---- fields taken off the stream

    def field(self, an, st, c, kind, pos, n, v):
        if st.mon and 'err' in st.mon:
            return [(st, v)]
        out = [(st, v)]
        if kind == 'bytes':
            lim = add(INT(MAXRL), n, -1)
            self.check(an, bool(st.ge0(lim)) or numeric_const(n, MAXRL), 'C01', 'bounded-allocation', c.site,
                       lambda: 'asks for %s bytes of memory' % show(n))
        ph = st.mon[0] if st.mon else 'hdr'
        if ph == 'hdr':
            if eqnum(st, pos, P0) and kind == 'u8':
                st.mon = ('rl', 1)
                if self.only is not None:
                    b = byte_at(IN, P0)
                    if not (st.assume(mkapp('ge0', addc(b, -16 * self.only[0])), True) and
                            st.assume(mkapp('ge0', add(INT(16 * self.only[0] + 15), b, -1)), True)):
                        return []
            else:
                st.mon = ('odd',)
        elif ph == 'rl':
            i = st.mon[1]
            if kind != 'u8' or not eqnum(st, pos, addc(P0, i)):
                st.mon = ('odd',)
            elif i == 5:
                st.mon = ('long',)
            else:
                b = byte_at(IN, addc(P0, i))
                s2 = st.copy()
                out = []
                k = self.only[1] if self.only else None
                if (k is None or k > i) and st.assume(mkapp('ge0', addc(b, -128)), True):
                    st.mon = ('rl', i + 1)
                    out.append((st, v))
                if (k is None or k == i) and s2.assume(mkapp('ge0', addc(b, -128)), False):
                    s2.mon = ('body', i)
                    s2.env[('G', 'mark')] = addc(P0, i + 3)
                    out.append((s2, v))
        return out

    def E(self, k):
        """Where the declared length ends."""
        r = addc(P0, k + 1)
        for j in range(1, k + 1):
            b = byte_at(IN, addc(P0, j))
            r = add(r, mkapp('mod', b, INT(128)) if j < k else b, 128 ** (j - 1))
        return r

    # ---- events

    def event(self, an, st, ev):
        k = ev.kind
        if k == 'panic':
            self.bad(an, 'C01', 'no-panic', ev.site, 'can panic: %s' % show(ev.args[0]) if ev.args else 'can panic')
        elif k == 'assert-ok':
            if an.recording:
                self.asserts.add(ev.site)
                self.ok(an, 'C01', 'no-panic', ev.site)
        elif k == 'alloc':
            n = ev.args[0]
            self.check(an, bool(st.ge0(add(INT(MAXRL + 2 ** 20), n, -1))), 'C01', 'bounded-allocation', ev.site,
                       lambda: 'asks for %s bytes of memory' % show(n))
        elif k in ('field-err', 'read-err'):
            st.mon = ('err',) + tuple(x for x in st.mon if x != 'err')
        elif k == 'read':
            st.env[('G', 'lastn')] = ev.res
        elif k == 'next':
            st.env[('G', 'iter')] = addc(st.env.get(('G', 'iter'), INT(0)), 1)
        elif k == 'vec.push':
            self.pushed(an, st, ev)
        elif k == 'recurse':
            self.bad(an, 'C01', 'analysable', ev.site, 'recursion while decoding')
        elif k == 'exit':
            self.bad(an, 'C01', 'no-panic', ev.site, 'ends the process')
        elif k == 'end':
            self.end(an, st, ev)
        self.scan_event(an, st, ev)
        return True

    def key(self, an, st):
        return self.scan_key(st)

    def buf(self, an, st):
        b = at_path(an.content(st, SELF), self.path)
        return an.content(st, b) if b is not None else EMPTYSEQ

    def pos(self, an, st):
        b = self.buf(an, st)
        return st.env[('G', 'inpos')] if b is EMPTYSEQ else as_slice(b)[1]

    def measure(self, an, st):
        it = st.env.get(('G', 'iter'), INT(0))
        return add(add(st.env[('G', 'inpos')], self.pos(an, st)), it), add(self.pos(an, st), it)

    def at(self, an, fr, bb, st, back):
        self.scan_at(an, st, back)
        if bb in fr.body.heads:
            progress(self, an, fr, bb, st, back, self.measure(an, st))

    def err(self, an, what, rule, site, detail):
        n = an.framelist[site[0]].body.pretty
        if an.recording:
            self.rep.bad('C09', rule, '%s in %s' % (n.replace('::{closure#0}', ''), self.where), detail)

    def looped(self, an, fr):
        self.rep.ok('C09', 'loops-make-progress', '%s in %s' % (fr.body.pretty.replace('::{closure#0}', ''), self.where))

    # ---- list elements

    def pushed(self, an, st, ev):
        """The element is the next item of the payload."""
        if not st.mon or st.mon[0] != 'body':
            return
        x = an.content(st, ev.args[2])
        mark = st.env.get(('G', 'mark'))
        t, q, sub_ = x, None, False
        if x.k == 'agg' and not x.a[0].startswith(('core::', 'alloc::')) and len(x.a[2]) >= 2:
            ts = [y for y in x.a[2] if y.k == 'app' and y.a[0] in ('text', 'lossy', 'unchecked')]
            qs = [y for y in x.a[2] if y not in ts]
            if len(ts) != 1 or len(qs) != 1:
                return
            t, q, sub_ = ts[0], qs[0], True
        if not (t.k == 'app' and t.a[0] in ('text', 'lossy', 'unchecked')):
            return
        self.text(an, st, t, ev.site, 'topic filter')
        ln = u16_at(IN, mark)
        e = addc(add(mark, ln), 2)
        self.check(an, same(st, strip_text(t), app('slice', IN, addc(mark, 2), e)) or (empty(st, t) and eqnum(st, ln, INT(0))),
                   'C05', 'items-in-wire-order', ev.site,
                   lambda: 'adds %s, which is not the next item of the payload' % show(x, 5))
        if sub_:
            b = byte_at(IN, e)
            vs = dom_vals(st, b)
            self.check(an, all(v <= 2 for v in vs), 'C04', 'no-qos-3', ev.site, 'accepts a requested QoS above 2')
            d = discr_of(q)
            ok = eqtab(st, d, b, lambda v: v)
            self.check(an, ok, 'C05', 'items-in-wire-order', ev.site, lambda: 'requested QoS is %s' % show(q))
            if ok and an.recording:
                for v in vs:
                    self.qos.setdefault(v, set()).add('sub')
            e = addc(e, 1)
        st.env[('G', 'mark')] = e
        st.env[('G', 'list')] = INT(1)

    # ---- the end of read_packet

    def text(self, an, st, x, site, what):
        ok = x.k == 'app' and x.a[0] == 'text' and utf8_known(st, x.a[1])
        self.check(an, ok, 'C06', 'text-is-validated-utf8', site, lambda: 'the %s is %s, not the validated bytes' % (what, show(x, 4)))

    def end(self, an, st, ev):
        v = an.content(st, ev.args[0])
        if not (v.k == 'agg' and v.a[0] == RES):
            self.bad(an, 'C02', 'result', None, 'unknown result %s' % show(v))
            return
        if v.a[1] != 0 or not an.recording:
            return
        self.ends += 1
        x = an.content(st, v.a[2][0])
        if 'err' in st.mon:
            self.bad(an, 'C09', 'read-errors-are-reported', None, 'a packet is returned although reading a field failed')
            return
        adt = packet_adt(self.f)
        if not (x.k == 'agg' and x.a[0] == adt):
            self.bad(an, 'C04', 'packet-type', None, 'returns an unknown packet %s' % show(x, 4))
            return
        name = self.f.adts[adt]['variants'][x.a[1]]['name']
        where = '%s of %s' % (self.where, name)
        R = self.rep
        b0 = byte_at(IN, P0)
        first = set(dom_vals(st, b0))
        if name not in FIRST:
            R.bad('C04', 'only-client-packets', where, 'accepts %s from a client' % name)
            return
        self.cover.setdefault(name, set()).update(first)
        extra = sorted(first - set(FIRST[name]))
        R.check(not extra, 'C04', 'header-byte', where, 'accepts first byte %s' % ', '.join(hex(e) for e in extra[:8]))
        if st.mon[0] != 'body':
            what = {'long': 'accepts a remaining length of five bytes', 'hdr': 'accepts without reading a header',
                    'rl': 'accepts before the remaining length ends'}.get(st.mon[0], 'reads the fixed header in an unknown way')
            R.bad('C03', 'remaining-length', where, what)
            return
        k = st.mon[1]
        E = self.E(k)
        pos = self.pos(an, st)
        good = eqnum(st, pos, E)
        r = self.ks.setdefault((name, k), [0, 0])
        r[0 if good else 1] += 1
        if good:
            full = all(dom_vals(st, byte_at(IN, addc(P0, j))) == list(range(128, 256) if j < k else range(128)) for j in range(1, k + 1))
            if full:
                self.lens.setdefault(k, set()).add(name)
        R.check(good, 'C02', 'consumes-the-declared-length', where,
                'ends at %s although the declared length ends at %s' % (show(pos, 8), show(E, 8)))
        B = addc(P0, k + 1)
        f = getattr(self, 'p_' + name.lower(), None)
        if f:
            y = an.content(st, x.a[2][0])
            f(an, st, y, B, E, where)

    def val(self, an, st, y, name, adt=None):
        adt = adt or (y.a[0] if y.k == 'agg' else None)
        if adt is None or adt not in self.f.adts:
            return sym('unknown', name)
        r = fld_of(self.f, adt, name, y)
        return an.content(st, r) if r is not None else sym('unknown', name)

    def fieldis(self, st, where, name, v, ok):
        self.rep.check(ok, 'C05', 'field-position', '%s: %s' % (where, name), 'is %s' % show(v, 6))

    def textis(self, an, st, where, name, v, i):
        """v is the string whose length field is at i; returns where it ends."""
        ln = u16_at(IN, i)
        e = addc(add(i, ln), 2)
        y = strip_text(v)
        self.fieldis(st, where, name, v, same(st, y, app('slice', IN, addc(i, 2), e)) or (empty(st, y) and eqnum(st, ln, INT(0))))
        ok = v.k == 'app' and v.a[0] == 'text' and utf8_known(st, v.a[1])
        self.rep.check(ok, 'C06', 'text-is-validated-utf8', '%s: %s' % (where, name), 'is %s, not the validated bytes' % show(v, 4))
        return e

    def opt(self, an, st, where, name, v, bits, mask):
        """Content of an optional field, present iff the flag is set."""
        vs = {bool(x & mask) for x in dom_vals(st, bits)}
        some = v.k == 'agg' and v.a[0] == OPT and v.a[1] == 1
        none = v.k == 'agg' and v.a[0] == OPT and v.a[1] == 0
        ok = (vs == {True} and some) or (vs == {False} and none)
        self.rep.check(ok, 'C05', 'optional-iff-flagged', '%s: %s' % (where, name), 'is %s with flag %s' % (show(v, 4), sorted(vs)))
        return an.content(st, v.a[2][0]) if some else None

    def packet_id(self, an, st, y, B, E, where):
        v = self.val(an, st, y, 'packet_id')
        self.fieldis(st, where, 'packet_id', v, eqnum(st, v, u16_at(IN, B)))

    p_puback = p_pubrec = p_pubrel = p_pubcomp = packet_id

    def qosis(self, st, where, v, bits, f, name='qos'):
        d = discr_of(v)
        self.fieldis(st, where, name, v, eqtab(st, d, bits, f))

    def p_publish(self, an, st, y, B, E, where):
        b0 = byte_at(IN, P0)
        m = self.val(an, st, y, 'message')
        t = self.val(an, st, m, 'topic')
        e = self.textis(an, st, where, 'topic', t, B)
        # looked up in the subscription tree it would find the filters that contain the wildcard twice
        for ch in self.chars:
            self.rep.check(self.lacks(st, t, ch), 'M04', 'no-filter-matches-twice', '%s: topic' % where,
                           "accepts a PUBLISH to a topic that contains '%s'" % ch)
        pid = self.opt(an, st, where, 'packet_id', self.val(an, st, y, 'packet_id'), b0, 6)
        if pid is not None:
            self.fieldis(st, where, 'packet_id', pid, eqnum(st, pid, u16_at(IN, e)))
            e = addc(e, 2)
        v = self.val(an, st, m, 'payload')
        self.fieldis(st, where, 'payload', v, same(st, v, app('slice', IN, e, E)) or (empty(st, v) and eqnum(st, e, E)))
        self.qosis(st, where, self.val(an, st, m, 'qos'), b0, lambda b: (b >> 1) & 3)
        v = self.val(an, st, m, 'retain')
        self.fieldis(st, where, 'retain', v, eqtab(st, v, b0, lambda b: b & 1))
        v = self.val(an, st, y, 'dup')
        self.fieldis(st, where, 'dup', v, eqtab(st, v, b0, lambda b: b >> 3 & 1))

    def p_connect(self, an, st, y, B, E, where):
        e = addc(add(B, u16_at(IN, B)), 3)
        fl = byte_at(IN, e)
        ka = u16_at(IN, addc(e, 1))
        e = addc(e, 3)
        self.flags.update(dom_vals(st, fl))
        v = self.val(an, st, y, 'clean_session')
        self.fieldis(st, where, 'clean_session', v, eqtab(st, v, fl, lambda b: b >> 1 & 1))
        v = self.val(an, st, y, 'keep_alive_seconds')
        self.fieldis(st, where, 'keep_alive_seconds', v, eqnum(st, v, ka))
        e = self.textis(an, st, where, 'client_id', self.val(an, st, y, 'client_id'), e)
        w = self.opt(an, st, where, 'will_message', self.val(an, st, y, 'will_message'), fl, 4)
        if w is not None:
            e = self.textis(an, st, where, 'will topic', self.val(an, st, w, 'topic'), e)
            v = self.val(an, st, w, 'payload')
            ln = u16_at(IN, e)
            i = addc(e, 2)
            e = add(i, ln)
            self.fieldis(st, where, 'will payload', v, same(st, v, app('slice', IN, i, e)) or (empty(st, v) and eqnum(st, ln, INT(0))))
            bad = [b for b in dom_vals(st, fl) if b & 0x18 == 0x18]
            self.rep.check(not bad, 'C04', 'no-qos-3', where, 'accepts a will with QoS 3')
            self.qosis(st, where, self.val(an, st, w, 'qos'), fl, lambda b: (b >> 3) & 3, 'will qos')
            v = self.val(an, st, w, 'retain')
            self.fieldis(st, where, 'will retain', v, eqtab(st, v, fl, lambda b: b >> 5 & 1))
        for name, mask in (('user_name', 0x80), ('password', 0x40)):
            v = self.opt(an, st, where, name, self.val(an, st, y, name), fl, mask)
            if v is not None:
                e = self.textis(an, st, where, name, v, e)

    def p_subscribe(self, an, st, y, B, E, where):
        self.packet_id(an, st, y, B, E, where)
        self.listis(an, st, where, 'subscriptions', self.val(an, st, y, 'subscriptions'), E)

    def p_unsubscribe(self, an, st, y, B, E, where):
        self.packet_id(an, st, y, B, E, where)
        self.listis(an, st, where, 'topics', self.val(an, st, y, 'topics'), E)

    def listis(self, an, st, where, name, v, E):
        """The list is made of the pushed items only, and they reach to the end."""
        seen = set()
        bad = []

        def go(t):
            if t in seen:
                return
            seen.add(t)
            if t is EMPTYSEQ:
                return
            if t.k == 'app' and t.a[0] == 'push':
                go(t.a[1])
            elif t.k == 'phi':
                for u in an.phidef.get(t, ()):
                    go(u)
            else:
                bad.append(t)
        go(v)
        self.fieldis(st, where, name, v, not bad)
        mark = st.env[('G', 'mark')]
        self.rep.check(eqnum(st, mark, E), 'C05', 'items-in-wire-order', '%s: %s' % (where, name),
                       'the items end at %s, the packet at %s' % (show(mark, 6), show(E, 6)))

    # ---- over all ends

    def finish(self):
        R = self.rep
        for name, need in NEED.items():
            miss = sorted(set(need) - self.cover.get(name, set()))
            R.check(not miss, 'C04', 'every-legal-packet', '%s of %s' % (self.where, name),
                    'rejects first byte %s' % ', '.join(hex(m) for m in miss))
        for k in (1, 2, 3, 4):
            R.check(bool(self.lens.get(k)), 'C03', 'remaining-length', '%s, %d-byte lengths' % (self.where, k),
                    'no packet type is read to its end for every %d-byte remaining length' % k)
        for q in (0, 1, 2):
            R.check('sub' in self.qos.get(q, ()), 'C04', 'every-legal-qos', '%s of Subscribe, QoS %d' % (self.where, q), 'refuses the QoS')
        for what, of in FLAGSETS:
            miss = sorted(set(of) - self.flags)
            R.check(not miss, 'C04', 'every-legal-connect-flags', '%s of Connect, %s' % (self.where, what),
                    'rejects connect flags %s' % ', '.join(hex(m) for m in miss[:8]))
        if not self.ends:
            R.bad('C04', 'can-succeed', self.where, 'never returns a packet')


def numeric_const(n, lim):
    return n.k == 'int' and 0 <= n.a[0] <= lim


def flagset(will):
    # bits: user name, password, will retain, will QoS (2), will, clean session, reserved; no password without a user name
    return [b for b in range(0, 256, 2) if (b & 0xC0) != 0x40 and (b & 0x18) != 0x18
            and (b & 0x3C == 0 if will is None else b & 4 and (b >> 3) & 3 == will)]


FLAGSETS = [('no will', flagset(None))] + [('will of QoS %d' % q, flagset(q)) for q in (0, 1, 2)]

PROPS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C09')
CASES = [(t, k) for k in (1, 2, 3, 4, 5) for t in range(16)]


def case(facts, S, fn, co, adt, only):
    """One case: packet type bits and number of length bytes."""
    path = S.rpath.get(adt)
    rep = Report()
    where = fn.pretty
    h = DecodeHooks(rep, where, facts, path, only)
    an = Analysis(facts, h, [S.lookup, models.lookup], where)
    t0 = time.time()
    try:
        an.run(co, co_args(None, [SELF]), lambda st: (init_read(st, facts, adt, path), st.env.update({('G', 'iter'): INT(0)})))
    except Giveup as e:
        for p in PROPS:
            rep.bad(p, 'analysable', where, 'analysis gave up: %s' % e)
    return {'obl': rep.obl, 'cover': h.cover, 'lens': h.lens, 'ks': h.ks, 'qos': h.qos, 'flags': h.flags, 'ends': h.ends, 'steps': an.steps,
            'unknown': sorted(an.unknown), 'blocks': len(an.blocks_seen), 'frames': len(an.framelist), 'time': time.time() - t0,
            'levels': {an.describe(l): v for l, v in an.level.items() if v}}


def check(facts, rep, S):
    rs = roots(facts, S.readers)
    if not rs:
        for p in PROPS:
            rep.bad(p, 'anchor', 'packet decoder', 'no function reads a ControlPacket from a byte stream')
        return
    for fn, co, adt in rs:
        # the slow cases first
        cases = sorted(CASES, key=lambda c: (c[0] not in (1, 3, 8, 10), -c[1]))
        outs = pmap(lambda c: case(facts, S, fn, co, adt, c), cases)
        h = DecodeHooks(rep, fn.pretty, facts, S.rpath.get(adt))
        for c, o in zip(cases, outs):
            for key, (ok, detail) in o['obl'].items():
                (rep.ok if ok else rep.bad)(key[0], key[1], key[2], detail)
            for n, v in o['cover'].items():
                h.cover.setdefault(n, set()).update(v)
            for n, v in o['lens'].items():
                h.lens.setdefault(n, set()).update(v)
            for n, v in o['qos'].items():
                h.qos.setdefault(n, set()).update(v)
            h.flags |= o['flags']
            h.ends += o['ends']
            rep.stats.append(('decoder case: type %d, %d length bytes' % c, fn.pretty, o))
        h.finish()

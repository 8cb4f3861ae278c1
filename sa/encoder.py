"""The packet encoder: the exact bytes write_packet hands to the stream, for every packet the broker
sends, and that it finishes the stream."""
import itertools
import time
from .terms import *
from .core import Analysis, Giveup
from . import depth, models, stream
from .models import OUT
from .par import pmap
from .stream import SELF, init_write, co_args, at_path, match_part, bytesame, progress
from .util import *
from .decoder import packet_adt

MAXRL = 268435455
PROPS = ('C03', 'C07', 'C08')

# values MQTT 3.1.1 assigns to the enumerations that go on the wire
ENUMS = {
    'QoS': {'AtMostOnce': 0, 'AtLeastOnce': 1, 'ExactlyOnce': 2},
    'SubAckReturnCode': {'SuccessQoS0': 0, 'SuccessQoS1': 1, 'SuccessQoS2': 2, 'Failure': 128},
    'ConnAckReturnCode': {'Accepted': 0, 'UnacceptableProtocolVersion': 1, 'IdentifierRejected': 2, 'ServerUnavailable': 3,
                          'BadUserNameOrPassword': 4, 'NotAuthorized': 5},
}
IDS = {'PubAck': 0x40, 'PubRec': 0x50, 'PubRel': 0x62, 'PubComp': 0x70, 'UnsubAck': 0xB0}
SENT = ['ConnAck', 'Publish', 'SubAck', 'PingResp'] + sorted(IDS)


def local_adt(facts, name):
    r = [p for p, a in facts.adts.items() if a['local'] and p.split('::')[-1] == name]
    return r[0] if len(r) == 1 else None


def roots(facts, writers):
    """Async functions that write one packet to a stream."""
    out = []
    pk = packet_adt(facts)
    for b in facts.bodies.values():
        if b.kind != 'fn' or not b.local or not b.is_async or b.argc != 2:
            continue
        co = facts.bodies.get(b.key + '::{closure#0}')
        if co is None:
            continue
        ts = [facts.types[facts.strip_ref(b.locals[i][0])].get('def') for i in (1, 2)]
        # one that reports nothing handles the outcome itself: it only calls the others
        if ts[0] in writers and ts[1] == pk and 'Result<' in facts.tys(co.locals[0][0]):
            out.append((b, co, ts[0]))
    # a function that only the others call is analysed as a part of them
    keys = {b.key for b, _, _ in out}
    who = {k: set() for k in keys}
    for x in facts.bodies.values():
        for k in keys & set(depth.callees(facts, x)):
            if x.key.split('::{closure')[0] != k:
                who[k].add(x.key.split('::{closure')[0])
    return [r for r in out if not who[r[0].key] or not who[r[0].key] <= keys]


class Case:
    """One kind of packet: its value, and the bytes it has to become."""

    def __init__(self, name, value, first, parts, length, codes=None, refused=False, toolong=False):
        self.name = name
        self.value = value
        self.first = first
        self.parts = parts
        self.length = length
        self.codes = codes
        self.refused = refused
        self.toolong = toolong


def struct(facts, adt, vals):
    a = facts.adts[adt]
    fs = []
    for f in a['variants'][0]['fields']:
        if f[0] not in vals:
            raise KeyError('%s.%s' % (adt, f[0]))
        fs.append(vals[f[0]])
    return agg(adt, None, fs)


def num(name, hi):
    s = sym(name)
    RNG[s] = (0, hi)
    return s


def cases(facts):
    """The packets to encode: (label, builder)."""
    pk = packet_adt(facts)
    A = facts.adts[pk]['variants']
    vi = {v['name']: i for i, v in enumerate(A)}

    def inner(n):
        f = A[vi[n]]['fields']
        return facts.types[f[0][1]]['def'] if f else None

    def packet(n, x=None):
        return agg(pk, vi[n], [] if x is None else [x])
    out = []
    ra = local_adt(facts, 'ConnAckReturnCode')
    for sp in (0, 1):
        for i, v in enumerate(facts.adts[ra]['variants']):
            code = ENUMS['ConnAckReturnCode'].get(v['name'], v['discr'])
            x = struct(facts, inner('ConnAck'), {'session_present': INT(sp), 'return_code': agg(ra, i, ())})
            out.append(Case('ConnAck %s, session present %d' % (v['name'], sp), packet('ConnAck', x), 0x20,
                            [app('u8b', INT(sp)), app('u8b', INT(code))], INT(2)))
    pid = num('packet_id', 65535)
    for n, b in IDS.items():
        x = struct(facts, inner(n), {'packet_id': pid})
        out.append(Case(n, packet(n, x), b, [app('u16b', pid)], INT(2)))
    out.append(Case('PingResp', packet('PingResp'), 0xD0, [], INT(0)))
    codes = sym('codes')
    RNG[mkapp('len', codes)] = (0, MAXRL - 2)
    x = struct(facts, inner('SubAck'), {'packet_id': pid, 'return_codes': codes})
    out.append(Case('SubAck', packet('SubAck', x), 0x90, [app('u16b', pid)], add(INT(2), mkapp('len', codes)), codes=codes))
    qa = local_adt(facts, 'QoS')
    ma = local_adt(facts, 'Message')
    topic, payload = sym('topic'), sym('payload')
    RNG[mkapp('len', topic)] = (0, 65535)
    RNG[mkapp('len', payload)] = (0, MAXRL - 65539)
    for dup, retain, hasid, (qi, qv) in itertools.product((0, 1), (0, 1), (0, 1), enumerate(facts.adts[qa]['variants'])):
        qos = ENUMS['QoS'].get(qv['name'], qv['discr'])
        m = struct(facts, ma, {'topic': topic, 'payload': payload, 'qos': agg(qa, qi, ()), 'retain': INT(retain)})
        x = struct(facts, inner('Publish'), {'packet_id': SOME(pid) if hasid else NONE, 'dup': INT(dup), 'message': m})
        parts = [app('u16b', mkapp('len', topic)), topic] + ([app('u16b', pid)] if qos else []) + [payload]
        ln = add(addc(mkapp('len', topic), 2 + (2 if qos else 0)), mkapp('len', payload))
        out.append(Case('Publish QoS %d, retain %d, dup %d, packet id %s' % (qos, retain, dup, 'given' if hasid else 'missing'),
                        packet('Publish', x), 0x30 | dup << 3 | qos << 1 | retain, parts, ln, refused=bool(qos and not hasid)))
    topic, payload = sym('longtopic'), sym('itspayload')
    RNG[mkapp('len', topic)] = (65536, 2 ** 24)
    RNG[mkapp('len', payload)] = (0, MAXRL - 2 ** 24 - 2)
    q0 = [i for i, v in enumerate(facts.adts[qa]['variants']) if ENUMS['QoS'].get(v['name']) == 0]
    m = struct(facts, ma, {'topic': topic, 'payload': payload, 'qos': agg(qa, q0[0], ()), 'retain': INT(0)})
    x = struct(facts, inner('Publish'), {'packet_id': NONE, 'dup': INT(0), 'message': m})
    out.append(Case('Publish with a topic of more than 65535 bytes', packet('Publish', x), 0x30, [],
                    add(addc(mkapp('len', topic), 2), mkapp('len', payload)), toolong=True))
    return out


def literal(st):
    """How many bytes, written one by one, wait in local buffers: a loop over few of them is unrolled."""
    n = 0
    todo = list(st.env.values())
    while todo:
        x = todo.pop()
        if x.k in ('agg', 'fut'):
            todo += x.a[2]
        elif x.k == 'app' and x.a[0] in ('u8b', 'cat'):
            xs = x.a[1:] if x.a[0] == 'cat' else (x,)
            if all(y.k == 'app' and y.a[0] == 'u8b' for y in xs):
                n += len(xs)
    return min(n, 12)


class EncodeHooks(Hooks):
    def __init__(self, rep, where, facts, path, case):
        Hooks.__init__(self, rep, where)
        self.f = facts
        self.path = path
        self.c = case
        self.label = '%s: %s' % (where, case.name.split(',')[0].split(' ')[0])
        self.ends = 0

    def fail(self, an, prop, rule, site, detail):
        if an.recording:
            self.rep.bad(prop, rule, self.label, '%s (%s)%s' % (detail, self.c.name, self.at_line(an, site)))

    # ---- one appended piece

    def piece(self, an, st, site, x):
        """Consumes one appended piece; returns the states that go on."""
        if 'err' in st.mon:
            return [st]
        if empty(st, x):
            return [st]
        ph = st.mon[0] if st.mon else 'hdr'
        C = self.c
        if ph in ('hdr', 'rl'):
            if x.k == 'app' and x.a[0] == 'u16b':
                return self.halves(an, st, site, x)
            if not (x.k == 'app' and x.a[0] == 'u8b'):
                self.fail(an, 'C07' if ph == 'hdr' else 'C03 C07', 'layout' if ph == 'hdr' else 'remaining-length', site, 'writes %s where the fixed header has to be' % show(x, 4))
                return []
            v = x.a[1]
            if ph == 'hdr':
                if not bytesame(st, v, INT(C.first)):
                    self.fail(an, 'C07', 'first-byte', site, 'the first byte is %s, not 0x%02x' % (show(v, 4), C.first))
                st.mon = ('rl', 1)
                st.env[('G', 'rlq')] = C.length
                return [st]
            q = st.env[('G', 'rlq')]
            j = st.mon[1]
            out = []
            more = st.copy()
            if more.assume(mkapp('ge0', addc(q, -128)), True):
                w = addc(mkapp('mod', q, INT(128)), 128)
                if not bytesame(more, v, w):
                    self.fail(an, 'C03 C07', 'remaining-length', site,
                              'length byte %d is %s although bytes follow; it has to be %s' % (j, show(v, 5), show(w, 5)))
                if j < 4:
                    more.mon = ('rl', j + 1)
                    more.env[('G', 'rlq')] = mkapp('div', q, INT(128))
                    out.append(more)
                else:
                    self.fail(an, 'C03 C07', 'remaining-length', site, 'writes more than four length bytes')
            if st.assume(mkapp('ge0', addc(q, -128)), False):
                if not (bytesame(st, v, q) or bytesame(st, v, mkapp('mod', q, INT(128)))):
                    self.fail(an, 'C03 C07', 'remaining-length', site, 'the last length byte is %s, not %s' % (show(v, 5), show(q, 5)))
                st.mon = ('body',)
                st.env[('G', 'next')] = INT(0)
                if ('G', 'rlq') in st.env:
                    del st.env[('G', 'rlq')]
                out.append(st)
            return out
        if ph == 'body' and C.toolong:
            self.fail(an, 'C07', 'length-not-truncated', site, 'writes %s of a string that does not fit its length field' % show(x, 4))
            return []
        if ph == 'body':
            nx = st.env[('G', 'next')]
            pos = INT(0)
            for p in C.parts:
                if match_part(st, p, sub(nx, pos), x):
                    st.env[('G', 'next')] = add(nx, mkapp('len', x))
                    return [st]
                pos = add(pos, mkapp('len', p))
            if C.codes is not None:
                i = sub(nx, pos)
                if st.ge0(i) and st.ge0(addc(sub(mkapp('len', C.codes), i), -1)) and x.k == 'app' and x.a[0] == 'u8b':
                    d = discr_of(mkapp('elem', C.codes, i))
                    RNG.setdefault(d, (0, 255))
                    if bytesame(st, x.a[1], d):
                        st.env[('G', 'next')] = addc(nx, 1)
                        return [st]
                base, k, l = as_slice(x)
                if base is sym('values', C.codes) and eqnum(st, k, i) and st.ge0(sub(mkapp('len', C.codes), l)):
                    st.env[('G', 'next')] = add(nx, sub(l, k))
                    return [st]
            if x.k == 'app' and x.a[0] == 'u16b':
                return self.halves(an, st, site, x)
            self.fail(an, 'C07', 'layout', site, 'writes %s at offset %s of the body' % (show(x, 5), show(nx, 5)))
            return []
        self.fail(an, 'C07 C08', 'layout', site, 'writes %s after the packet was finished' % show(x, 4))
        return []

    def halves(self, an, st, site, x):
        hi = app('u8b', mkapp('mod', mkapp('div', x.a[1], INT(256)), INT(256)))
        lo = app('u8b', mkapp('mod', x.a[1], INT(256)))
        return [t for s in self.piece(an, st, site, hi) for t in self.piece(an, s, site, lo)]

    def pieces(self, an, st, site, parts):
        sts = [st]
        for x in parts:
            if x.k == 'agg' and x.a[0] == 'array':
                x = models.as_bytes(an, st, x)
            for y in (x.a[1:] if x.k == 'app' and x.a[0] == 'cat' else (x,)):
                sts = [t for s in sts for t in self.piece(an, s, site, y)]
        return sts

    def emitted(self, an, st, c, kind, parts):
        if kind == 'finish':
            if 'err' not in st.mon:
                if st.mon and st.mon[0] == 'body' and not self.c.toolong:
                    self.body_done(an, st, c.site)
                    st.mon = ('sent',)
            return [st]
        return self.pieces(an, st, c.site, parts)

    def body_done(self, an, st, site):
        C = self.c
        want = INT(0)
        for p in C.parts:
            want = add(want, mkapp('len', p))
        if C.codes is not None:
            want = add(want, mkapp('len', C.codes))
        nx = st.env[('G', 'next')]
        if not eqnum(st, nx, want):
            self.fail(an, 'C07', 'layout', site, 'ends after %s of %s bytes' % (show(nx, 5), show(want, 5)))

    def key(self, an, st):
        q = st.env.get(('G', 'rlq'))
        return (st.ge0(addc(q, -128)) if q is not None else None), literal(st)

    # ---- events

    def event(self, an, st, ev):
        k = ev.kind
        if k == 'panic':
            self.fail(an, 'C07', 'can-be-written', ev.site, 'can panic: %s' % show(ev.args[0]) if ev.args else 'can panic')
        elif k in ('write-err', 'read-err'):
            st.mon = ('err',) + tuple(x for x in st.mon if x != 'err')
        elif k == 'recurse':
            self.fail(an, 'C07', 'analysable', ev.site, 'recursion')
        elif k == 'end':
            self.end(an, st, ev)
        return True

    def put(self, an, st, c, v, x):
        """An append outside the verified methods: only the stream's own buffer counts."""
        if not stream.WriteHooks.is_wb(self, an, st, c.args[0], v):
            return x
        tot = st.env[('G', 'tot')]
        base, i, j = as_slice(v) if v is not EMPTYSEQ else (OUT, tot, tot)
        if base is not OUT or not eqnum(st, j, tot):
            self.fail(an, 'C08', 'appends-in-order', c.site, 'appends after %s' % show(v))
        n = mkapp('len', x)
        sts = self.pieces(an, st, c.site, [x])
        for s in sts:
            s.env[('G', 'tot')] = add(tot, n)
        return [(s, app('slice', OUT, tot, add(tot, n))) for s in sts]

    def end(self, an, st, ev):
        v = an.content(st, ev.args[0])
        if not (v.k == 'agg' and v.a[0] == RES):
            self.fail(an, 'C07', 'result', None, 'unknown result %s' % show(v))
            return
        if v.a[1] != 0 or not an.recording:
            return
        if 'err' in st.mon:
            self.fail(an, 'C08', 'write-errors-are-reported', None, 'reports success although writing failed')
            return
        if self.c.refused:
            return
        self.ends += 1
        ph = st.mon[0] if st.mon else 'hdr'
        if self.c.toolong:
            self.fail(an, 'C07', 'length-not-truncated', None, 'reports success for a string that does not fit its length field')
            return
        if ph == 'sent':
            return
        if ph == 'body':
            self.body_done(an, st, None)
            self.fail(an, 'C08', 'finishes-the-packet', None, 'reports success without finishing the packet on the stream')
        else:
            self.fail(an, 'C07' if ph == 'hdr' else 'C03 C07', 'layout' if ph == 'hdr' else 'remaining-length', None,
                      'reports success before the header is complete')


def run_case(facts, S, fn, co, adt, i):
    c = cases(facts)[i]
    rep = Report()
    path = S.wpath.get(adt)
    h = EncodeHooks(rep, fn.pretty, facts, path, c)
    an = Analysis(facts, h, [S.lookup, models.lookup], fn.pretty)
    t0 = time.time()

    def pre(st):
        init_write(st, facts, adt, path)
    try:
        an.run(co, co_args(None, [SELF, c.value]), pre)
        if not h.ends and not c.refused and not c.toolong:
            rep.bad('C07', 'can-be-written', h.label, 'never succeeds (%s)' % c.name)
    except Giveup as e:
        for p in PROPS:
            rep.bad(p, 'analysable', fn.pretty, 'analysis gave up: %s' % e)
    return {'name': c.name, 'label': h.label, 'obl': rep.obl, 'ends': h.ends, 'steps': an.steps, 'unknown': sorted(an.unknown),
            'blocks': len(an.blocks_seen), 'time': time.time() - t0}


def check(facts, rep, S):
    rs = roots(facts, S.writers)
    if not rs:
        for p in PROPS:
            rep.bad(p, 'anchor', 'packet encoder', 'no function writes a ControlPacket to a byte stream')
        return
    for en, want in ENUMS.items():
        a = local_adt(facts, en)
        if a is None:
            rep.bad('C07', 'enum-values', en, 'not found')
            continue
        got = {v['name']: v['discr'] for v in facts.adts[a]['variants']}
        for n, d in want.items():
            rep.check(got.get(n) == d, 'C07', 'enum-values', '%s::%s' % (en, n), 'is %s, MQTT says %d' % (got.get(n), d))
    try:
        cs = cases(facts)
    except (KeyError, TypeError, IndexError) as e:
        rep.bad('C07', 'anchor', 'packet types', 'cannot build a packet: %r' % (e,))
        return
    for fn, co, adt in rs:
        outs = pmap(lambda i: run_case(facts, S, fn, co, adt, i), range(len(cs)))
        rules = (('C07', 'first-byte'), ('C07', 'layout'), ('C03', 'remaining-length'), ('C07', 'remaining-length'),
                 ('C08', 'finishes-the-packet'), ('C08', 'write-errors-are-reported'), ('C07', 'can-be-written'))
        for o in outs:
            for p, r in rules:
                if not any(k[:2] == (p, r) for k in o['obl']):
                    rep.ok(p, r, o['label'])
            for key, (ok, detail) in o['obl'].items():
                (rep.ok if ok else rep.bad)(key[0], key[1], key[2], detail)
            rep.stats.append(('encoder case: ' + o['name'], fn.pretty, o))

"""The byte streams: what each reading and writing method does, decided for every state of the
buffers and the socket, and used as a summary where the method is called."""
from .terms import *
from .core import Analysis, Facts, Giveup
from . import core, models
from .models import IN, OUT, emptied
from .util import *
from .par import pmap
from .growth import GROWING, CALLS

POS = 2 ** 60
DEBUG = None


def contains_ty(facts, ty, pred, depth=0):
    if not isinstance(ty, int):
        return False
    t = facts.types[ty]
    if pred(t):
        return True
    if depth > 4 or t['k'] != 'adt':
        return False
    a = facts.adts.get(t['def'])
    if a is None or not a['local']:
        return False
    return any(contains_ty(facts, f[1], pred, depth + 1) for v in a['variants'] for f in v['fields'])


SOCK_R = ('tokio::net::tcp::split_owned::OwnedReadHalf', 'tokio::net::tcp::OwnedReadHalf', 'tokio::net::tcp::stream::TcpStream',
          'tokio::net::TcpStream')
SOCK_W = ('tokio::net::tcp::split_owned::OwnedWriteHalf', 'tokio::net::tcp::OwnedWriteHalf', 'tokio::net::tcp::stream::TcpStream',
          'tokio::net::TcpStream')


def is_def(names):
    return lambda t: t['k'] == 'adt' and t['def'] in names


def is_buf(t):
    return t['k'] == 'adt' and t['def'] == 'bytes::bytes_mut::BytesMut'


def stream_adts(facts, names):
    out = []
    for p, a in facts.adts.items():
        if a['local'] and a['kind'] == 'struct' and len(a['variants']) == 1:
            fs = [f[1] for f in a['variants'][0]['fields']]
            if any(contains_ty(facts, f, is_def(names)) for f in fs) and any(contains_ty(facts, f, is_buf) for f in fs):
                out.append(p)
    return out


def buf_paths(facts, adt, pre=()):
    """Paths of the byte buffers inside a stream."""
    out = []
    for i, f in enumerate(facts.adts[adt]['variants'][0]['fields']):
        if not isinstance(f[1], int):
            continue
        t = facts.types[f[1]]
        if is_buf(t):
            out.append(pre + (i,))
        elif t['k'] == 'adt' and t['def'] in facts.adts and facts.adts[t['def']]['local'] \
                and facts.adts[t['def']]['kind'] == 'struct' and len(pre) < 3:
            out += buf_paths(facts, t['def'], pre + (i,))
    return out


def build(facts, adt, path, buf, base):
    """A symbolic stream whose buffer at `path` is `buf`."""
    fs = []
    for i, f in enumerate(facts.adts[adt]['variants'][0]['fields']):
        if path and path[0] == i:
            if len(path) == 1:
                fs.append(buf)
            else:
                fs.append(build(facts, facts.types[f[1]]['def'], path[1:], buf, base + (i,)))
        else:
            fs.append(sym('field', *(base + (i,))))
    return agg(adt, None, fs)


def at_path(t, path):
    for i in path:
        t = fld(t, None, i)
        if t is None:
            return None
    return t


def set_path(t, path, v):
    if len(path) == 1:
        return upd(t, None, path[0], v)
    return upd(t, None, path[0], set_path(fld(t, None, path[0]), path[1:], v))


class Method:
    __slots__ = ('name', 'key', 'fn', 'co', 'self_adt', 'args', 'ret', 'pub')


def result_of(facts, ty):
    """Type T of a Result<T, _> type."""
    t = facts.types[ty]
    if t['k'] == 'adt' and t['def'] == RES and t.get('args'):
        return t['args'][0]
    return None


def methods(facts, adt):
    """Async methods taking &mut self."""
    out = []
    for b in facts.bodies.values():
        if b.kind != 'fn' or not b.local or not b.is_async or b.argc < 1:
            continue
        t = facts.types[b.locals[1][0]]
        if t['k'] != 'ref':
            continue
        t = facts.types[t['to']]
        if t['k'] != 'adt' or t['def'] != adt:
            continue
        co = facts.bodies.get(b.key + '::{closure#0}')
        if co is None:
            continue
        m = Method()
        m.name = b.pretty.split('::')[-1]
        m.key = b.key
        m.fn = b
        m.co = co
        m.self_adt = adt
        m.args = [b.locals[i + 1][0] for i in range(b.argc)]
        m.ret = result_of(facts, co.locals[0][0])
        out.append(m)
    return out


SELF = sym('self')


def co_args(m, args):
    """Arguments of a coroutine: its captured parameters, then the context."""
    return [agg('co', None, args), sym('cx')]


class Kept(Hooks):
    def kept(self, an, st, ev):
        """The stream keeps nothing but its buffer from one field to the next."""
        r = ev.args[0] if ev.args else None
        if r is None or isinstance(r, int) or r.k != 'ref' or r.a[0] != ('H', SELF):
            return
        if GROWING.match(ev.kind) or ev.kind.startswith('call:') and CALLS.search(ev.kind):
            p = tuple(x[2] for x in r.a[1])
            if p[:len(self.path)] != tuple(self.path):
                self.err(an, 'kept', 'bounded-state', ev.site, 'what the stream keeps grows with what it carries (%s)' % ev.kind)


class ReadHooks(Kept):
    """Monitor of one reading method."""

    def __init__(self, rep, where, st_, m, path, kind, props):
        Hooks.__init__(self, rep, where)
        self.s = st_
        self.m = m
        self.path = path
        self.kind = kind
        self.fail = []
        self.props = props
        self.ends = 0
        self.apart = False

    def buf(self, an, st):
        return at_path(an.content(st, SELF), self.path)

    def err(self, an, what, rule, site, detail):
        if an.recording:
            if DEBUG:
                DEBUG(an, what, site)
            self.fail.append((what, rule, self.place(an, site), detail + self.at_line(an, site)))

    def event(self, an, st, ev):
        self.kept(an, st, ev)
        k = ev.kind
        if k == 'panic':
            self.err(an, 'panic', 'no-panic', ev.site, 'can panic: %s' % (ev.args[0].a[0] if ev.args else ''))
        elif k == 'alloc':
            n = ev.args[0]
            lim = self.size if self.size is not None else INT(0)
            d = sub(add(lim, INT(2 ** 20)), n)
            if not st.ge0(d):
                self.err(an, 'alloc', 'bounded-allocation', ev.site, 'allocates %s bytes' % show(n))
        elif k == 'read':
            self.read(an, st, ev)
        elif k == 'end':
            self.end(an, st, ev)
        elif k == 'recurse':
            self.err(an, 'unknown', 'analysable', ev.site, 'recursion')
        elif k == 'next':
            st.env[('G', 'iter')] = addc(st.env.get(('G', 'iter'), INT(0)), 1)
        elif k == 'read-err':
            st.env[('G', 'lasterr')] = ev.res
        return True

    def read(self, an, st, ev):
        # reading again after the end of the stream is pointless: the last read got something
        last = st.env.get(('G', 'lastn'))
        if last is not None and not st.ge0(addc(last, -1)):
            self.err(an, 'progress', 'end-of-stream-is-an-error', ev.site,
                     'reads again although the previous read may have reported the end of the stream')
        st.env[('G', 'lastn')] = ev.res
        # ... and so is waiting for more once the field is there
        q, p0 = st.env[('G', 'inpos')], sym('p0')
        n = {'u8': INT(1), 'u16': INT(2), 'bytes': self.size, 'string': addc(u16_at(IN, p0), 2)}[self.kind]
        lack = [addc(sub(add(p0, n), q), -1)] + ([sub(addc(p0, 1), q)] if self.kind == 'string' else [])
        if not any(st.ge0(x) for x in lack):
            self.err(an, 'progress', 'waits-for-its-field-only', ev.site, 'reads on although its field of %s bytes may have been received' % show(n))

    def field(self, an, st, c, kind, i, n, v):
        return [(st, v)]

    def key(self, an, st):
        # on a second attempt, states with nothing buffered are kept apart
        if not self.apart:
            return None
        b = self.buf(an, st)
        b = an.content(st, b) if b is not None else EMPTYSEQ
        return b is EMPTYSEQ or empty(st, b)

    def measure(self, an, st):
        b = self.buf(an, st)
        b = an.content(st, b) if b is not None else EMPTYSEQ
        q = st.env[('G', 'inpos')]
        pos = q if b is EMPTYSEQ else as_slice(b)[1]
        it = st.env.get(('G', 'iter'), INT(0))
        return add(add(q, pos), it)

    def at(self, an, fr, bb, st, back):
        if bb not in fr.body.heads:
            return
        progress(self, an, fr, bb, st, back, self.measure(an, st))

    def end(self, an, st, ev):
        v = an.content(st, ev.args[0])
        if not (v.k == 'agg' and v.a[0] == RES):
            self.err(an, 'value', 'result', None, 'unknown result %s' % show(v))
            return
        if v.a[1] != 0:
            return
        self.ends += an.recording
        last = st.env.get(('G', 'lastn'))
        if last is not None and not st.ge0(addc(last, -1)):
            self.err(an, 'eof', 'end-of-stream-is-an-error', None, 'succeeds although the last read may have reported the end of the stream')
        x0 = an.content(st, v.a[2][0])
        x = trim(st, x0)
        b = an.content(st, self.buf(an, st))
        q = st.env[('G', 'inpos')]
        p0 = sym('p0')
        n = {'u8': INT(1), 'u16': INT(2), 'bytes': self.size, 'string': None}[self.kind]
        ln = u16_at(IN, p0)
        if self.kind == 'string':
            n = addc(ln, 2)
        pos = add(p0, n)
        ok = (eqnum(st, pos, q) if isempty(b) and b is EMPTYSEQ else
              same(st, b, app('slice', IN, pos, q)) or (empty(st, b) and eqnum(st, pos, q)))
        if not ok:
            self.err(an, 'consume', 'consumes-exactly-its-field', None,
                     'leaves %s in the buffer, expected the bytes from offset %s on' % (show(b), show(n)))
        if self.kind == 'u8':
            ok = eqnum(st, x, byte_at(IN, p0)) or x is byte_at(IN, p0)
        elif self.kind == 'u16':
            ok = eqnum(st, x, ln)
        elif self.kind == 'bytes':
            ok = same(st, x, app('slice', IN, p0, pos)) or (empty(st, x) and eqnum(st, n, INT(0)))
        else:
            body = app('slice', IN, addc(p0, 2), pos)
            y = strip_text(x)
            ok = same(st, y, body) or (empty(st, y) and eqnum(st, ln, INT(0)))
            if not any(t.k == 'app' and t.a[0] == 'text' and utf8_known(st, t.a[1]) for t in (x, x0)):
                self.err(an, 'utf8', 'text-is-validated-utf8', None, 'the text is %s, not checked UTF-8 of the bytes received' % show(x, 3))
            if not ok and x.k == 'app' and x.a[0] in ('lossy', 'unchecked'):
                ok = True
        if not ok:
            self.err(an, 'value', 'returns-its-field', None, 'returns %s' % show(x))


def trim(st, x):
    """x without the parts known to be empty."""
    if x.k == 'app' and x.a[0] == 'cat':
        parts = [p for p in x.a[1:] if not empty(st, p)]
        return EMPTYSEQ if not parts else parts[0] if len(parts) == 1 else app('cat', *parts)
    if x.k == 'app' and x.a[0] == 'text':
        y = trim(st, x.a[1])
        return x if y is x.a[1] else app('text', y)
    return x


def utf8_known(st, b):
    t = app('utf8', b)
    return st.truth(t) is True


def progress(h, an, fr, bb, st, back, m):
    """Every way round a loop moves at least one byte."""
    c = ('G', 'snap', fr.id, bb)
    ms = m if isinstance(m, tuple) else (m,)
    m = TUP(*ms)
    if back:
        old = st.env.get(c)
        if an.recording:
            # any of the measures (none ever decreases) has to grow
            if interrupted(an, st):
                pass
            elif old is not None and not any(st.ge0(addc(sub(x, fld(old, None, i)), -1)) for i, x in enumerate(ms)):
                h.err(an, 'progress', 'loops-make-progress', (fr.id, bb), 'can go round its loop without moving a byte')
            else:
                h.progressed = getattr(h, 'progressed', 0) + 1
                if hasattr(h, 'looped'):
                    h.looped(an, fr)
    if not an.recording:
        st.env[c] = m
        st.env[('G', 'lasterr')] = UNIT


def interrupted(an, st):
    """The last operation on the socket in this turn was interrupted by a signal; to try again is right."""
    e = st.env.get(('G', 'lasterr'))
    if e is None or e is UNIT:
        return False
    d = discr_of(app('errkind', e))
    n = an.f.variant('core::io::error::ErrorKind', 'Interrupted')
    return n is not None and st.bounds(d) == (n, n)


def init_read(st, facts, adt, path):
    p0, q0 = sym('p0'), sym('q0')
    RNG.setdefault(p0, (0, POS))
    RNG.setdefault(q0, (0, POS))
    st.ineq = st.ineq | {sub(q0, p0)}
    st.env[('H', SELF)] = build(facts, adt, path, app('slice', IN, p0, q0), ())
    st.env[('G', 'inpos')] = q0


def read_kind(facts, m):
    if m.ret is None:
        return None
    t = facts.types[m.ret]
    d = t.get('def') or t['s']
    rest = [facts.types[a] for a in m.args[1:]]
    ints = [i for i, t2 in enumerate(rest) if t2['k'] == 'uint']
    if t['s'] == 'u8' and not rest:
        return 'u8'
    if t['s'] == 'u16' and not rest:
        return 'u16'
    if d in ('bytes::bytes_mut::BytesMut', 'alloc::vec::Vec', 'bytes::bytes::Bytes') and len(rest) == 1 and ints:
        return 'bytes'
    if d == 'alloc::string::String' and not rest:
        return 'string'
    return None


def write_kind(facts, m):
    if m.ret is None or facts.types[m.ret]['s'] != '()':
        return None
    rest = [facts.types[facts.strip_ref(a)] for a in m.args[1:]]
    if not rest:
        return 'finish'
    if len(rest) != 1:
        return None
    d = rest[0].get('def') or rest[0]['s']
    if d == 'u8':
        return 'u8'
    if d == 'u16':
        return 'u16'
    if d in ('str', 'alloc::string::String'):
        return 'string'
    if d in ('bytes::bytes_mut::BytesMut', 'alloc::vec::Vec', '[u8]', 'bytes::bytes::Bytes'):
        return 'bytes'
    return None


# ---- writing

def virt(kind, arg):
    """The bytes a writing method has to append, as a list of parts."""
    if kind == 'u8':
        return [app('u8b', arg)]
    if kind == 'u16':
        return [app('u16b', arg)]
    if kind == 'bytes':
        return [arg]
    if kind == 'string':
        return [app('u16b', mkapp('len', arg)), arg]
    return []


def match_part(st, part, off, x):
    """x is the piece of `part` at offset `off`."""
    if x.k == 'app' and x.a[0] == 'u8b':
        v = x.a[1]
        if part.k == 'app' and part.a[0] == 'u8b':
            return off is INT(0) and bytesame(st, v, part.a[1])
        if part.k == 'app' and part.a[0] == 'u16b':
            y = part.a[1]
            if off is INT(0):
                return bytesame(st, v, mkapp('div', y, INT(256))) or bytesame(st, v, mkapp('mod', mkapp('div', y, INT(256)), INT(256)))
            return off is INT(1) and bytesame(st, v, mkapp('mod', y, INT(256)))
        e = mkapp('elem', part, off)
        return v is e
    if x.k == 'app' and x.a[0] == 'u16b':
        return part.k == 'app' and part.a[0] == 'u16b' and off is INT(0) and bytesame(st, x.a[1], part.a[1])
    b, i, j = as_slice(x)
    pb, pi, pj = as_slice(part)
    if strip_text(b) is not strip_text(pb):
        return False
    return eqnum(st, i, add(pi, off)) and st.ge0(sub(pj, j)) is True


def bytesame(st, a, b):
    if a is b:
        return True
    if eqnum(st, a, b):
        return True
    x = byte_atom(a) if a.k != 'int' else None
    y = byte_atom(b) if b.k != 'int' else None
    at = x or y
    if at is None or (x and y and x is not y):
        return False
    ta = table(a) if x else [a.a[0]] * 256
    tb = table(b) if y else [b.a[0]] * 256
    return all(ta[i] == tb[i] for i in dom_vals(st, at))


class WriteHooks(Kept):
    """Monitor of one writing method."""

    def __init__(self, rep, where, st_, m, path, kind, parts):
        Hooks.__init__(self, rep, where)
        self.m = m
        self.path = path
        self.kind = kind
        self.parts = parts
        self.fail = []
        self.ends = 0

    err = ReadHooks.err

    def buf(self, an, st):
        return at_path(an.content(st, SELF), self.path)

    def total(self):
        r = INT(0)
        for p in self.parts:
            r = add(r, mkapp('len', p))
        return r

    def put(self, an, st, c, v, x):
        """An append to a buffer; only the stream's own buffer counts."""
        b = self.buf(an, st)
        if b is None or not self.is_wb(an, st, c.args[0], v):
            return x
        tot = st.env[('G', 'tot')]
        base, i, j = as_slice(v) if v is not EMPTYSEQ else (OUT, tot, tot)
        if base is not OUT or not eqnum(st, j, tot):
            self.err(an, 'order', 'appends-in-order', c.site, 'appends after %s' % show(v))
        self.accept(an, st, c.site, x)
        n = mkapp('len', x)
        st.env[('G', 'tot')] = add(tot, n)
        return app('slice', OUT, tot, add(tot, n))

    def is_wb(self, an, st, r, v):
        while r.k == 'ref':
            if r.a[0] == ('H', SELF):
                return tuple(s[2] for s in r.a[1] if s[0] == 'f') == self.path
            t = an.read(st, *r.a)
            if t is None or t.k != 'ref':
                return False
            r = t
        return False

    def accept(self, an, st, site, x):
        """x has to be the next piece of what this method writes."""
        for y in (x.a[1:] if x.k == 'app' and x.a[0] == 'cat' else (x,)):
            nx = st.env[('G', 'next')]
            pos = INT(0)
            ok = False
            for p in self.parts:
                if match_part(st, p, sub(nx, pos), y):
                    ok = True
                    break
                pos = add(pos, mkapp('len', p))
            if not ok and not empty(st, y):
                self.err(an, 'payload', 'writes-its-argument', site, 'writes %s at offset %s' % (show(y), show(nx)))
            st.env[('G', 'next')] = add(nx, mkapp('len', y))

    def event(self, an, st, ev):
        self.kept(an, st, ev)
        k = ev.kind
        if k == 'panic':
            self.err(an, 'panic', 'no-panic', ev.site, 'can panic: %s' % (ev.args[0].a[0] if ev.args else ''))
        elif k == 'write':
            self.written(an, st, ev)
        elif k == 'write-err':
            st.mon = st.mon + ('failed',) if 'failed' not in st.mon else st.mon
        elif k == 'end':
            self.end(an, st, ev)
        elif k in ('vec.clear', 'vec.truncate', 'buf.cut', 'buf.take'):
            if self.is_wb(an, st, ev.args[0], ev.args[1]):
                v = ev.args[1]
                front = k == 'buf.take'
                dropped = ev.args[2] if front and len(ev.args) > 2 else mkapp('len', v)
                i, j = as_slice(v)[1:]
                over = add(i, dropped) if front else j
                # bytes may go once the socket has them; those split off are accounted for at the end
                if not (front and ev.res is not None and ev.res.k == 'app') and not empty(st, v) \
                        and not st.ge0(sub(st.env[('G', 'sock')], over)):
                    self.err(an, 'lost', 'nothing-pending-is-discarded', ev.site, 'discards bytes not yet written')
        elif k == 'next':
            st.env[('G', 'iter')] = addc(st.env.get(('G', 'iter'), INT(0)), 1)
        elif k == 'recurse':
            self.err(an, 'unknown', 'analysable', ev.site, 'recursion')
        return True

    def written(self, an, st, ev):
        b = an.content(st, ev.args[1])
        base, i, j = as_slice(ev.args[2])
        sock, tot = st.env[('G', 'sock')], st.env[('G', 'tot')]
        n = ev.args[3]
        if empty(st, ev.args[2]):
            return
        if base is OUT:
            if not eqnum(st, i, sock):
                self.err(an, 'order', 'hands-over-in-order', ev.site, 'writes from %s although %s is next' % (show(i), show(sock)))
            st.env[('G', 'sock')] = add(sock, n)
            if len(ev.args) > 3 and not an.content(st, ev.args[1]) is b:
                pass
        else:
            if not eqnum(st, sock, tot):
                self.err(an, 'order', 'hands-over-in-order', ev.site, 'writes past bytes waiting in the buffer')
            self.accept(an, st, ev.site, ev.args[2])
            tot = st.env[('G', 'sock')] = st.env[('G', 'tot')] = add(tot, n)
            if empty(st, an.content(st, self.buf(an, st))):        # an empty buffer is at every position
                an.setref(st, ref(('H', SELF)), set_path(an.content(st, SELF), self.path, app('slice', OUT, tot, tot)))

    def emitted(self, an, st, c, kind, parts):
        sock, tot = st.env[('G', 'sock')], st.env[('G', 'tot')]
        for x in parts:
            self.accept(an, st, c.site, x)
            tot = add(tot, mkapp('len', x))
        new = tot
        if kind != 'finish':
            new = an.fresh(st, c.site, 'sock')
            RNG.setdefault(new, (0, POS))
            st.ineq = st.ineq | {sub(new, sock), sub(tot, new)}
        st.env[('G', 'sock')], st.env[('G', 'tot')] = new, tot
        an.setref(st, ref(('H', SELF)), set_path(an.content(st, SELF), self.path, app('slice', OUT, new, tot)))
        return [st]

    def measure(self, an, st):
        it, tot, sock = st.env.get(('G', 'iter'), INT(0)), st.env[('G', 'tot')], st.env[('G', 'sock')]
        return add(add(tot, sock), it)

    def at(self, an, fr, bb, st, back):
        if bb not in fr.body.heads:
            return
        progress(self, an, fr, bb, st, back, self.measure(an, st))

    def end(self, an, st, ev):
        v = an.content(st, ev.args[0])
        if not (v.k == 'agg' and v.a[0] == RES):
            self.err(an, 'payload', 'result', None, 'unknown result %s' % show(v))
            return
        if v.a[1] != 0:
            return
        self.ends += an.recording
        if 'failed' in st.mon:
            self.err(an, 'lost', 'write-errors-are-reported', None, 'succeeds although a write failed')
        b = an.content(st, self.buf(an, st))
        sock, tot = st.env[('G', 'sock')], st.env[('G', 'tot')]
        ok = same(st, b, app('slice', OUT, sock, tot)) or (empty(st, b) and eqnum(st, sock, tot))
        if not ok:
            self.err(an, 'lost', 'nothing-pending-is-discarded', None,
                     'the buffer holds %s, but bytes %s to %s are still to be written' % (show(b), show(sock), show(tot)))
        if not eqnum(st, st.env[('G', 'next')], self.total()):
            self.err(an, 'short', 'writes-its-argument', None, 'wrote %s of %s bytes' % (show(st.env[('G', 'next')]), show(self.total())))
        if self.kind == 'finish' and not eqnum(st, sock, tot):
            self.err(an, 'finish', 'finishing-writes-everything', None, 'succeeds with bytes %s to %s unwritten' % (show(sock), show(tot)))


def init_write(st, facts, adt, path):
    w0, t0 = sym('w0'), sym('t0')
    RNG.setdefault(w0, (0, POS))
    RNG.setdefault(t0, (0, POS))
    st.ineq = st.ineq | {sub(t0, w0)}
    st.env[('H', SELF)] = build(facts, adt, path, app('slice', OUT, w0, t0), ())
    st.env[('G', 'sock')] = w0
    st.env[('G', 'tot')] = t0
    st.env[('G', 'next')] = INT(0)


# methods whose contract is always required (they are the crate's public interface)
PINNED = {'get_u8', 'get_u16', 'get_bytes', 'get_string', 'put_u8', 'put_u16', 'put_string', 'put_bytes', 'finish_packet'}
# property that each kind of failure breaks
RPROP = {'kept': 'R06', 'value': 'C05', 'consume': 'C02 C05', 'utf8': 'C06', 'panic': 'C01', 'alloc': 'C01', 'progress': 'C09', 'eof': 'C09',
         'unknown': 'C01 C02 C05 C09'}
WPROP = {'kept': 'R06', 'payload': 'C07', 'short': 'C07 C08', 'order': 'C08', 'lost': 'C08', 'finish': 'C08', 'progress': 'C09', 'panic': 'C07', 'unknown': 'C07 C08 C09'}
ROBL = (('C05', 'returns-its-field'), ('C02', 'consumes-exactly-its-field'), ('C06', 'text-is-validated-utf8'), ('C01', 'no-panic'),
        ('C09', 'makes-progress'), ('R06', 'keeps-its-buffer-only'))
WOBL = (('C07', 'writes-its-argument'), ('C08', 'nothing-lost-or-reordered'), ('C09', 'makes-progress'), ('R06', 'keeps-its-buffer-only'))


class Streams:
    """All streams of the crate, with the verified methods as summaries."""

    def __init__(self, facts, rep):
        self.f = facts
        self.rep = rep
        self.verified = {}     # body key of the coroutine -> (kind, dir)
        self.results = []      # (adt, method, kind, dir, path, failures, stats)
        self.readers = [a for a in stream_adts(facts, SOCK_R)]
        self.writers = [a for a in stream_adts(facts, SOCK_W)]
        self.rpath = {}
        self.wpath = {}

    def verify(self):
        jobs = []
        for d, adts in (('r', self.readers), ('w', self.writers)):
            for adt in adts:
                for path in buf_paths(self.f, adt):
                    for i, (m, k) in enumerate(self.kinds(adt, d)):
                        jobs.append((d, adt, path, i))
        rs = pmap(self.job, jobs)
        rs = self.again(jobs, rs)
        by = {}
        for j, r in zip(jobs, rs):
            by.setdefault(j[:2], {}).setdefault(j[2], []).append((j[3], r))
        for (d, adt), paths in by.items():
            # the buffer the methods work on is the one for which they hold
            path = min(paths, key=lambda p: sum(1 for _, r in paths[p] if r['fails']))
            ms = self.kinds(adt, d)
            (self.rpath if d == 'r' else self.wpath)[adt] = path
            for i, r in paths[path]:
                m, k = ms[i]
                self.results.append((adt, m, k, d, path, r))
                if not r['fails'] or m.name in PINNED:
                    self.verified[m.co.key] = (k, d, m)
        self.report()

    def again(self, jobs, rs):
        """Methods that do not hold with their callees looked into may hold given the contracts of
        those that do."""
        while True:
            todo = [n for n, r in enumerate(rs) if r['fails']]
            sub = []
            for n in todo:
                d, adt, path, i = jobs[n]
                good = tuple(j[3] for j, r in zip(jobs, rs) if j[:3] == jobs[n][:3] and not r['fails'])
                if good and good != rs[n].get('given'):
                    sub.append((n, jobs[n] + (good,)))
            if not sub:
                return rs
            new = pmap(self.job, [j for _, j in sub])
            gained = False
            for (n, j), r in zip(sub, new):
                r['given'] = j[4]
                gained |= not r['fails']
                if not r['fails']:
                    rs[n] = r
                else:
                    rs[n]['given'] = j[4]
            if not gained:
                return rs

    def kinds(self, adt, d):
        ms = [(m, read_kind(self.f, m) if d == 'r' else write_kind(self.f, m)) for m in methods(self.f, adt)]
        return [(m, k) for m, k in ms if k]

    def job(self, j):
        d, adt, path, i = j[:4]
        ms = self.kinds(adt, d)
        m, k = ms[i]
        given = {ms[g][0].co.key: (ms[g][1], d, ms[g][0]) for g in j[4]} if len(j) > 4 else None
        fails, an = self.one(adt, m, k, d, path, given)
        return {'fails': fails, 'steps': an.steps, 'unknown': sorted(an.unknown), 'blocks': len(an.blocks_seen),
                'progressed': getattr(an.hooks, 'progressed', 0), 'ends': an.hooks.ends}

    def report(self):
        R = self.rep
        got = set()
        for adt, m, k, d, path, r in self.results:
            where = core.clean(m.fn.pretty)
            bad = {}
            for what, rule, cons, detail in r['fails']:
                for p in (RPROP if d == 'r' else WPROP).get(what, '').split():
                    bad.setdefault(p, []).append((rule, cons, detail))
            R.stats.append(('stream method', where, r))
            for p, rule in (ROBL if d == 'r' else WOBL):
                if p == 'C06' and k != 'string':
                    continue
                if m.name not in PINNED and r['fails']:
                    continue
                if p not in bad:
                    R.ok(p, 'contract: ' + rule, where)
                for ru, cons, detail in bad.get(p, ()):
                    R.bad(p, 'contract: ' + ru, cons, detail)
            if not r['fails']:
                got.add((d, k))
        self.got = got

    def one(self, adt, m, kind, d, path, given=None):
        r = self.attempt(adt, m, kind, d, path, given, False)
        if r[0] and d == 'r':
            q = self.attempt(adt, m, kind, d, path, given, True)
            if not q[0]:
                return q
        return r

    def attempt(self, adt, m, kind, d, path, given, apart):
        f = self.f
        where = m.fn.pretty
        if d == 'r':
            h = ReadHooks(self.rep, where, self, m, path, kind, None)
            h.apart = apart
        else:
            h = WriteHooks(self.rep, where, self, m, path, kind, [])
        args = [SELF]
        h.size = None
        for i, a in enumerate(m.args[1:]):
            s = sym('arg', i)
            t = f.types[a]
            if t['k'] == 'uint':
                RNG.setdefault(s, (0, POS) if t['s'] not in ('u8', 'u16', 'u32') else f.int_range(a))
                s2 = s
                if t['s'] == 'u8':
                    s = s2 = sym('arg8', i)
                    RNG[s] = (0, 255)
                elif t['s'] == 'u16':
                    s = s2 = sym('arg16', i)
                    RNG[s] = (0, 65535)
                h.size = s2
            else:
                s = sym('argv', i)
            args.append(s)
        if d == 'w':
            x = args[1] if len(args) > 1 else None
            if x is not None and kind in ('string', 'bytes'):
                RNG.setdefault(mkapp('len', x), (0, 2 ** 60))
            h.parts = virt(kind, x)
        ms = [models.lookup]
        if given:
            ms.insert(0, lambda an, st, c: self.summary(an, st, c, given, path))
        an = Analysis(f, h, ms, where)

        def pre(st):
            (init_read if d == 'r' else init_write)(st, f, adt, path)
        order = m.co.b['upvars'] or []
        try:
            an.run(m.co, co_args(m, args), pre)
        except Giveup as e:
            h.fail.append(('unknown', 'analysable', where, 'analysis gave up: %s' % e))
        if not h.ends and not h.fail:
            h.fail.append(('value', 'can-succeed', where, 'never succeeds'))
        fails = []
        for x in h.fail:
            if x not in fails:
                fails.append(x)
        return fails, an

    # ---- use as summaries

    def lookup(self, an, st, c):
        return self.summary(an, st, c, self.verified)

    def summary(self, an, st, c, verified, path=None):
        callee = c.callee
        if callee.get('method') != 'poll' or callee.get('body') not in verified:
            return None
        kind, d, m = verified[callee['body']]
        fut = an.pinned(st, c.args[0])
        if fut.k != 'agg':
            return None
        args = fut.a[2]
        selfr = args[0]
        obj = an.content(st, selfr)
        if obj.k not in ('agg', 'upd'):
            return None
        if path is None:
            path = (self.rpath if d == 'r' else self.wpath)[m.self_adt]
        out = []
        if an.allow_pending(c):
            out.append((st.copy(), PENDING))
        if d == 'r':
            return out + self.apply_read(an, st, c, kind, m, selfr, obj, path, args)
        return out + self.apply_write(an, st, c, kind, m, selfr, obj, path, args)

    def apply_read(self, an, st, c, kind, m, selfr, obj, path, args):
        out = []
        buf = an.content(st, at_path(obj, path))
        q = st.env[('G', 'inpos')]
        base, i, j = as_slice(buf) if buf is not EMPTYSEQ else (IN, q, q)
        if base is not IN:
            return None
        e = st.copy()
        x = an.fresh(e, c.site, 'err')
        if an.emit(e, 'field-err', c.site, (STR(kind),), x, info=c) is not False:
            out.append((e, READY(ERR(x))))
        size = args[1] if kind == 'bytes' else None
        n = {'u8': INT(1), 'u16': INT(2), 'bytes': size, 'string': addc(u16_at(IN, i), 2)}[kind]
        pos = add(i, n)
        if kind == 'u8':
            v = byte_at(IN, i)
        elif kind == 'u16':
            v = u16_at(IN, i)
        elif kind == 'bytes':
            v = mkapp('slice', IN, i, pos)
        else:
            v = app('text', mkapp('slice', IN, addc(i, 2), pos))
            if not st.assume(app('utf8', v.a[1]), True):
                return out
        q2 = an.fresh(st, c.site, 'inpos')
        RNG[q2] = (0, POS)
        st.ineq = st.ineq | {sub(q2, pos), sub(q2, q)}
        st.env[('G', 'inpos')] = q2
        an.setref(st, selfr, set_path(an.content(st, selfr), path, app('slice', IN, pos, q2)))
        # the monitor may split the state
        for s, w in an.hooks.field(an, st, c, kind, i, n, v):
            out.append((s, READY(OK(w))))
        return out

    def apply_write(self, an, st, c, kind, m, selfr, obj, path, args):
        out = []
        e = st.copy()
        x = an.fresh(e, c.site, 'err')
        if an.emit(e, 'write-err', c.site, (STR(kind),), x, info=c) is not False:
            out.append((e, READY(ERR(x))))
        if kind == 'string':
            # strings that do not fit the length field are refused
            if not st.add_ge0(add(INT(65535), mkapp('len', an.content(st, args[1])), -1)):
                return out
        parts = virt(kind, an.content(st, args[1]) if len(args) > 1 else None)
        for s in an.hooks.emitted(an, st, c, kind, parts):
            out.append((s, READY(OK(UNIT))))
        return out

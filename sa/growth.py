"""What the long-lived tasks keep from one event to the next: it must not grow with what was served."""
import re

from .terms import *
from . import core, models

GROWING = re.compile(r'(vec\.(push|append|insert)|map\.(insert|ensure)|buf\.put)$')
CALLS = re.compile(r'::(push|push_back|push_front|push_str|insert|insert_str|extend|extend_from_slice|append|entry|put|put_slice|put_u8|put_u16|'
                   r'put_u32|put_u64|put_bytes|resize|resize_with|write_str|write_fmt|spawn|get_or_insert_with)$')
MANY = ('HashMap<', 'BTreeMap<', 'HashSet<', 'BTreeSet<', 'Vec<', 'VecDeque<', 'LinkedList<', 'BinaryHeap<', 'String', 'BytesMut', 'JoinSet<',
        'FuturesUnordered<', 'SmallVec<', 'Slab<')
LIMIT = 65536


def natural(body, h):
    """Blocks of the loop with head h."""
    L = {h}
    work = [p for p in body.preds.get(h, ()) if body.rpo[p] >= body.rpo[h]]
    while work:
        b = work.pop()
        if b in L:
            continue
        L.add(b)
        work += [p for p in body.preds.get(b, ()) if body.rpo.get(p, -1) >= body.rpo[h]]
    return L


class Growth:
    """Follows what grows in a task and was there before the event being served."""

    def g_init(self):
        if not hasattr(self, 'g_heads'):
            self.g_heads, self.g_chain, self.g_loops = {}, set(), {}
            self.g_seen = 0

    def g_at(self, an, fr, bb, st):
        """The cells known whenever the head of a loop is reached."""
        self.g_init()
        if bb in fr.body.heads:
            have = {c for c in st.env if c[0] != 'G'}
            k = (fr.id, bb)
            self.g_heads[k] = self.g_heads[k] & have if k in self.g_heads else have

    def g_sites(self, an, site):
        fr, bb = an.framelist[site[0]], site[1]
        while fr is not None:
            yield fr, bb
            bb, fr = fr.bb, fr.parent

    def g_loop(self, fr, h):
        k = (fr.body.key, h)
        if k not in self.g_loops:
            self.g_loops[k] = natural(fr.body, h)
        return self.g_loops[k]

    def g_turn(self, an, ev):
        """The event starts a turn of the task."""
        self.g_init()
        for fr, bb in self.g_sites(an, ev.site):
            self.g_chain.add((fr.id, bb))

    def g_outlives(self, an, site, cell):
        """The cell was there before the turn that is under way."""
        for fr, bb in self.g_sites(an, site):
            for (f, h), cells in self.g_heads.items():
                if f == fr.id:
                    L = self.g_loop(fr, h)
                    if bb in L and any(g == f and b in L for g, b in self.g_chain):
                        if cell in cells or cell[0] == 'H':
                            return True
        return False

    def g_known(self, an, st, ev):
        """Growth another rule accounts for."""
        return False

    def growth(self, an, st, ev):
        if not an.recording:
            return
        self.g_init()
        k = ev.kind
        if GROWING.match(k):
            r, before = ev.args[0], ev.args[1]
        elif k.startswith('call:') and CALLS.search(k) and ev.args and ev.info is not None and ev.info.argty(0) is not None \
                and any(x in an.f.tys(ev.info.argty(0)) for x in MANY):
            r, before = ev.args[0], None
        else:
            return
        self.g_seen += 1
        if r.k != 'ref' or not self.g_outlives(an, ev.site, r.a[0]):
            return
        if before is not None and k.startswith(('vec.', 'buf.')) and st.ge0(sub(INT(LIMIT), mkapp('len', before))):
            return
        self.check(an, self.g_known(an, st, ev), 'R06', 'bounded-state', ev.site, 'what the task keeps grows with what it serves (%s)' % k)


UNBOUNDED = ('unbounded_channel', 'mpsc::unbounded', 'channel::unbounded', 'flume::unbounded', 'std::sync::mpsc::channel', 'std::sync::mpmc::channel')
BOUNDED = ('tokio::sync::mpsc::bounded::channel', 'tokio::sync::broadcast::channel', 'std::sync::mpsc::sync_channel')
SHARED = ('Mutex::lock', 'Mutex::try_lock', 'Mutex::blocking_lock', 'RwLock::write', 'RwLock::try_write', 'RwLock::blocking_write', 'RefCell::borrow_mut',
          'LocalKey::with', 'LocalKey::with_borrow_mut', 'Cell::set', 'Cell::replace', 'Cell::take')


OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Shl': lambda a, b: a << b, 'Shr': lambda a, b: a >> b,
       'Div': lambda a, b: a // b if b else None, 'Rem': lambda a, b: a % b if b else None, 'BitOr': lambda a, b: a | b, 'BitAnd': lambda a, b: a & b}


def constant(body, op, depth=8):
    """The integer an operand is, when the body says so."""
    if op[0] == 'c':
        return op[1].get('int')
    if op[0] not in ('mv', 'cp') or depth == 0:
        return None
    n = op[1][0]
    defs = [s for i in body.rpo for s in body.blocks[i]['s'] if s[0] == '=' and s[1][0] == n and not s[1][1]]
    if len(defs) != 1:
        return None
    r = defs[0][2]
    if r[0] in ('use', 'cast'):
        return constant(body, [x for x in r[1:] if isinstance(x, list) and x and x[0] in ('c', 'mv', 'cp')][0], depth - 1)
    if r[0] == 'bin':
        a, b = [constant(body, x, depth - 1) for x in r[2:4]]
        f = OPS.get(r[1].replace('WithOverflow', '').replace('Unchecked', ''))
        return f(a, b) if f and a is not None and b is not None else None
    return None


def check(facts, rep):
    """Queues are bounded, and what is kept is kept by the tasks."""
    n = 0
    for b in facts.bodies.values():
        if not b.local or b.derived:
            continue
        for i in b.rpo:
            t = b.blocks[i]['t']
            if t[0] != 'call' or t[1][0] != 'c' or 'fn' not in t[1][1]:
                continue
            f = t[1][1]['fn']
            nm = core.clean(f['pretty'])
            where = '%s in %s' % (models.short(nm), core.clean(b.pretty))
            if nm.endswith(UNBOUNDED):
                rep.bad('R06', 'bounded-queues', where, 'a queue without a limit')
            elif nm in BOUNDED or nm.split('::<')[0] in BOUNDED:
                n += 1
                v = constant(b, t[2][0])
                rep.check(v is None or v <= LIMIT, 'R06', 'bounded-queues', where, 'a queue of %s entries' % v)
            elif nm.endswith(SHARED):
                ts = [facts.tys(x) for x in f.get('targs') or [] if isinstance(x, int)]
                rep.check(not any(m in x for m in MANY for x in ts), 'R06', 'state-is-owned', where, 'keeps %s outside the tasks' % ts)
    rep.check(n >= 3, 'R06', 'anchor', 'queues', '%d found' % n)

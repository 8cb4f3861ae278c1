"""The subscription tree: what each of its operations does to which node, level by level.

Nodes are identified by the way that led to them (root, then one key per level); the contents of a
node are never followed through memory, only looked at and changed in the steps observed here."""
from .terms import *
from . import core, models
from .core import Analysis, Ev, Giveup
from .models import *
from .util import *
from .evloop import sfx, elemty
from .growth import GROWING, CALLS

TREEOPS = ('mapref', 'elem', 'elemref', 'entryval', 'last', 'front', 'mapget', 'child')


class Tree:
    """The types the tree is made of, found by their shape."""

    def __init__(self, facts):
        self.f = facts
        self.repo = sfx(facts, 'SubscriptionsRepository')
        self.node = None
        for d, a in facts.adts.items():
            if not d.startswith('ratelmq') or a['kind'] != 'struct':
                continue
            for i, fl in enumerate(a['variants'][0]['fields']):
                if 'HashMap<' in fl[2] and fl[2].rstrip('>').endswith(d.split('::')[-1]):
                    self.node, self.children = d, i
        if self.node:
            fs = facts.adts[self.node]['variants'][0]['fields']
            cl = [i for i, fl in enumerate(fs) if i != self.children and 'Vec<' in fl[2]]
            self.clients = cl[0] if len(cl) == 1 else None
            self.short = self.node.split('::')[-1]
        self.root = None
        if self.repo and self.node:
            for i, fl in enumerate(facts.adts[self.repo]['variants'][0]['fields']):
                if fl[2].endswith(self.short):
                    self.root = i

    @property
    def ok(self):
        return self.repo and self.node and self.clients is not None and self.root is not None

    def methods(self):
        """Methods of the repository that other code calls, with their parts: {key: (body, role, params)}."""
        f = self.f
        own = [b for b in f.bodies.values() if b.local and b.kind == 'fn' and b.argc >= 2 and not b.b['derived']
               and self.isrepo(b.locals[1][0])]
        keys = {b.key for b in own}
        used = set()
        for b in f.bodies.values():
            if not b.local or b.key in keys or any(b.key.startswith(k) for k in keys):
                continue
            for i in b.rpo:
                t = b.blocks[i]['t']
                if t[0] == 'call' and t[1][0] == 'c' and 'fn' in t[1][1]:
                    for k in ('body', 'rname', 'name'):
                        if t[1][1]['fn'].get(k) in keys:
                            used.add(t[1][1]['fn'][k])
        out = {}
        for b in own:
            if b.key in used:
                r = self.role(b)
                if r:
                    out[b.key] = (b,) + r
                else:
                    out[b.key] = (b, None, {})
        return out

    def isrepo(self, ty):
        t = self.f.types[self.f.strip_ref(ty)]
        return t['k'] == 'adt' and t['def'] == self.repo

    def role(self, b):
        f = self.f
        ret = f.tys(b.locals[0][0])
        ps = {}
        texts = []
        for i in range(2, b.argc + 1):
            ty = f.tys(f.strip_ref(b.locals[i][0]))
            if ty.endswith('Subscription'):
                ps['subscription'] = i
            elif 'Vec<std::string::String>' in ty or '[std::string::String]' in ty:
                ps['topics'] = i
            elif ty in ('std::string::String', 'str'):
                texts.append(i)
            else:
                ps.setdefault('other', []).append(i)
        mut = 'mut' in f.tys(b.locals[1][0]).split(' ')[0] or f.tys(b.locals[1][0]).startswith('&mut')
        if not mut:
            if len(texts) == 1 and 'Vec<std::string::String>' in ret:
                return 'lookup', dict(ps, topic=texts[0])
            return None
        if 'subscription' in ps and len(texts) == 1:
            return 'subscribe', dict(ps, client=texts[0])
        if 'topics' in ps and len(texts) == 1:
            return 'unsubscribe', dict(ps, client=texts[0])
        if len(texts) == 1 and not ps:
            return 'remove', dict(ps, client=texts[0])
        return None


class TreeHooks(Hooks):
    PROP = 'M03'

    def __init__(self, rep, where, tree):
        Hooks.__init__(self, rep, where)
        self.t = tree
        self.self_ = sym('self')
        self.turns = 0
        self.anchors = set()

    # ---- ghosts

    def g(self, st, n):
        return st.env.get(('G', n))

    def s(self, st, n, v):
        if v is None:
            st.env.pop(('G', n), None)
        else:
            st.env[('G', n)] = v

    def flag(self, st, n):
        return st.env.get(('G', n)) is INT(1)

    def setflag(self, st, n, on=True):
        self.s(st, n, INT(1) if on else None)

    # ---- the tree in memory

    def at(self, an, fr, bb, st, back):
        for c in [c for c in st.env if c[0] == 'H' and self.intree(c[1])]:
            del st.env[c]

    def intree(self, t):
        if t is self.self_ or t.k == 'phi':
            return True
        if t.k == 'fld':
            return self.intree(t.a[0])
        return t.k == 'app' and t.a[0] in TREEOPS

    def rootref(self):
        return ref(('H', self.self_), (('f', None, self.t.root),))

    def isroot(self, r):
        return r is self.rootref() or r is fld(self.self_, None, self.t.root)

    def nodeval(self, an, st, r):
        """Identity of the node a reference or value stands for."""
        if r.k == 'ref':
            c, p = r.a
            v = c[1] if c[0] == 'H' else None
            if v is None:
                return an.content(st, r)
            for s in p:
                v = fld(v, s[1], s[2])
            if not p:
                x = st.env.get(c)
                if x is not None and x.k == 'ref':
                    return self.nodeval(an, st, x)
            return v
        return r

    def part(self, an, st, r, i):
        return fld(self.nodeval(an, st, r), None, i)

    def locus(self, an, st, r):
        """Identity of the tree part a reference points to."""
        return self.nodeval(an, st, r)

    def is_part(self, an, st, r, node, i):
        """The reference r points to that part of the node."""
        return r.k == 'ref' and node is not None and self.locus(an, st, r) is self.part(an, st, node, i)

    def is_nodes(self, an, ev):
        """The sequence holds nodes."""
        c = ev.info
        ty = c.argty(0)
        ts = [an.f.tys(ty)] if ty is not None else []
        ts += [an.f.tys(i) for i in c.callee.get('targs') or [] if isinstance(i, int)]
        return any(self.t.short in x for x in ts)

    def segs(self, t):
        """The text whose levels t lists."""
        if t.k == 'app' and t.a[0] == 'split' and (t.a[2] is STR('/') or t.a[2] is INT(47)):
            return t.a[1]
        return None

    def contains(self, an, st, seq, x):
        """Whether the state knows x to be an element of seq."""
        return st.truth(mkapp('member', seq, x))

    def equal(self, st, a, b):
        if a is b:
            return True
        for x in (mkapp('eq', a, b), mkapp('eq', b, a)):
            t = st.truth(x)
            if t is not None:
                return t
        return None

    # ---- events

    def grows(self, an, st, ev):
        """Whether the operation may make this part of the tree grow."""
        return False

    def growth(self, an, st, ev):
        """What stays after the operation only grows by what is subscribed."""
        k = ev.kind
        r = ev.args[0]
        if not (GROWING.match(k) or k.startswith('call:') and CALLS.search(k)) or isinstance(r, int) or r.k != 'ref':
            return
        c = r.a[0]
        if c[0] == 'H' and (c[1] is sym('self') or self.intree(c[1])):
            self.check(an, self.grows(an, st, ev), 'R06', 'bounded-tree', ev.site, 'what is kept grows although nothing is subscribed (%s)' % k)

    def event(self, an, st, ev):
        k = ev.kind
        if ev.args:
            self.growth(an, st, ev)
        if k in ('map.remove', 'map.retain') and self.is_nodes(an, ev):
            self.anchors.add('prune')
        if k == 'next' or k == 'index':
            self.on_next(an, st, ev, *ev.args[:3])
        elif k == 'next-end':
            self.on_end_of(an, st, ev, *ev.args[:2])
        elif k.startswith('map.'):
            return self.on_map(an, st, ev) is not False
        elif k == 'iterate':
            self.on_iterate(an, st, ev, *ev.args)
        elif k == 'miss':
            return self.on_miss(an, st, ev) is not False
        elif k.startswith('vec.') or k == 'retain':
            self.on_vec(an, st, ev)
        elif k.startswith('search:'):
            self.on_search(an, st, ev, k[7:], *ev.args)
        elif k == 'retain:one':
            self.on_keep(an, st, ev, *ev.args)
        elif k == 'panic':
            self.bad(an, 'R01', 'no-panic', ev.site, 'can panic here (%s)' % (ev.args[0] if ev.args else ''))
        elif k == 'recurse':
            self.bad(an, 'R01', 'bounded-stack', ev.site, 'recursion as deep as a client chooses')
        elif k == 'end':
            self.on_return(an, st, ev, ev.args[0])
        elif k.startswith('call:') and self.touches(an, ev):
            self.bad(an, self.PROP, 'recognised-operation', ev.site, 'the tree is handed to %s' % k[5:])
        return True

    def touches(self, an, ev):
        return any(self.t.short in an.f.tys(ev.info.argty(i)) for i in range(len(ev.info.args)) if ev.info.argty(i) is not None)

    def on_next(self, an, st, ev, src, i, x):
        pass

    def on_end_of(self, an, st, ev, src, i):
        pass

    def on_search(self, an, st, ev, how, src, j, x):
        if self.g(st, 'node') is None or src is not self.clients_of(an, st):
            return
        e = self.equal(st, x, self.client)
        if how == 'found' and e is True:
            self.setflag(st, 'present')
        elif how == 'none' and e is False:
            self.setflag(st, 'absent')

    def on_keep(self, an, st, ev, src, x, keep):
        """Whether one element stays in the list."""
        if self.g(st, 'node') is None or src is not self.clients_of(an, st):
            return
        for v in (True, False):
            s2 = st.copy()
            if s2.assume(keep, v):
                self.check(an, self.equal(s2, x, self.client) is (not v), self.PROP, 'removes-the-client', ev.site,
                           'may keep the client' if v else 'may remove another client')

    def on_map(self, an, st, ev):
        pass

    def on_iterate(self, an, st, ev, src, m):
        pass

    def on_miss(self, an, st, ev):
        """A key looked up is not there."""

    def on_vec(self, an, st, ev):
        pass

    def on_return(self, an, st, ev, v):
        pass

    def vec_of_tree(self, an, st, ev):
        """The list of clients of a node is changed."""
        r = ev.args[0]
        if r.k != 'ref':
            return self.intree(r)
        c, p = r.a
        if c[0] == 'H' and self.intree(c[1]):
            return True
        return False


class Walk(TreeHooks):
    """Goes down the levels of one filter from the root."""

    def start(self, an, st, topic):
        self.s(st, 'topic', topic)
        self.s(st, 'node', self.rootref())
        for n in ('pending', 'down', 'absent', 'present', 'gone', 'there', 'changed', 'last', 'src'):
            self.s(st, n, None)

    def topic(self, st):
        return self.g(st, 'topic')

    def at(self, an, fr, bb, st, back):
        self.settle(an, st)
        TreeHooks.at(self, an, fr, bb, st, back)

    def settle(self, an, st):
        """What is known of the child for the level taken, kept apart from the values it was learnt from:
        'gone', there is none; 'there', there is one."""
        p, node = self.g(st, 'pending'), self.g(st, 'node')
        if p is not None and not self.flag(st, 'gone') and not self.flag(st, 'there'):
            d = st.value(discr_of(mapget(self.part(an, st, node, self.t.children), p)))
            if d is not None:
                self.setflag(st, 'there' if d else 'gone')

    def level(self, an, st, ev, src, i, x):
        """The next level of the filter is taken."""
        if not self.check(an, self.segs(src) is self.topic(st), self.PROP, 'levels-of-the-filter', ev.site,
                          'goes through %s instead of the levels of %s' % (src, self.topic(st))):
            return
        if ev.kind == 'index':
            p = self.g(st, 'last')
            if p is not None and eqnum(st, p, i):
                return
            self.check(an, eqnum(st, i, INT(0) if p is None else addc(p, 1)), self.PROP, 'every-level', ev.site, 'takes level %s after %s' % (i, p))
        self.settle(an, st)
        self.s(st, 'src', src)
        if self.flag(st, 'gone'):
            return
        self.check(an, self.g(st, 'pending') is None, self.PROP, 'every-level', ev.site, 'does not go down at a level')
        self.s(st, 'last', i)
        self.s(st, 'pending', x)

    def key(self, an, st):
        return tuple(sorted(c[1] for c, v in st.env.items() if c[0] == 'G' and isinstance(c[1], str)))

    def isdown(self, st):
        """The node of the last level is reached."""
        if self.flag(st, 'down'):
            return True
        # an index loop: left when the index reaches the number of levels
        p, src = self.g(st, 'last'), self.g(st, 'src')
        return p is not None and self.g(st, 'pending') is None and st.ge0(sub(addc(p, 1), mkapp('len', src))) is True

    def on_map(self, an, st, ev):
        k = ev.kind
        if not self.is_nodes(an, ev):
            return
        mref, m = ev.args[0], ev.args[1]
        node = self.g(st, 'node')
        key = ev.args[2] if len(ev.args) > 2 else None
        pend = self.g(st, 'pending')
        good = node is not None and self.locus(an, st, mref) is self.part(an, st, node, self.t.children)
        if not self.check(an, good and key is not None and pend is not None and key is pend, self.PROP, 'one-level-at-a-time', ev.site,
                          '%s of %s under %s; the level is %s below %s' % (k, mref, key, pend, node)):
            return
        if k in ('map.ensure', 'map.insert'):
            v = ev.args[3]
            fs = v.a[2] if v.k == 'agg' and v.a[0] == self.t.node else None
            made = fs is not None and fs[self.t.children].k == 'app' and fs[self.t.children].a[0] == 'emptymap' and empty(st, fs[self.t.clients])
            self.check(an, made, self.PROP, 'new-nodes-are-empty', ev.site, 'puts %s into the tree' % v)
            if k == 'map.insert':
                self.check(an, self.flag(st, 'gone') or st.value(discr_of(mapget(m, key))) == 0, self.PROP, 'nodes-stay', ev.site,
                           'may replace a node and what is below it')
                self.setflag(st, 'gone', False)
                self.setflag(st, 'there')
                return
            self.descend(st, ref(('H', ev.res)))
        elif k == 'map.getmut':
            if self.flag(st, 'gone'):
                return False
            self.descend(st, ref(('H', ev.res)))
        elif k != 'map.get':
            self.bad(an, self.PROP, 'nodes-stay', ev.site, '%s while going down' % k)

    def on_miss(self, an, st, ev):
        if self.flag(st, 'there') and ev.args[2] is self.g(st, 'pending') and self.is_nodes(an, ev):
            node = self.g(st, 'node')
            if self.locus(an, st, ev.args[0]) is self.part(an, st, node, self.t.children):
                return False

    def descend(self, st, r):
        self.s(st, 'node', r)
        for n in ('pending', 'gone', 'there'):
            self.s(st, n, None)

    def clients_of(self, an, st):
        return self.part(an, st, self.g(st, 'node'), self.t.clients) if self.g(st, 'node') is not None else None

    def scanned(self, an, st, ev, src, i, x, client):
        """A client of the node is looked at: remember the one not yet compared."""
        self.compared(an, st, client)
        self.s(st, 'cmp', x)
        if i is INT(0):
            self.setflag(st, 'scan')

    def compared(self, an, st, client):
        x = self.g(st, 'cmp')
        if x is None:
            return
        e = self.equal(st, x, client)
        if e is True:
            self.setflag(st, 'present')
        elif e is None:
            self.setflag(st, 'unsure')
        self.s(st, 'cmp', None)

    def known(self, an, st, client):
        """'present', 'absent' or None: whether the client is in the list of the node."""
        self.compared(an, st, client)
        C = self.clients_of(an, st)
        c = self.contains(an, st, C, client)
        if c is True or self.flag(st, 'present'):
            return 'present'
        if c is False or self.flag(st, 'absent'):
            return 'absent'
        return None


class Subscribe(Walk):
    PROP = 'M02 M03'

    def __init__(self, rep, where, tree, topic, client, sub):
        Walk.__init__(self, rep, where, tree)
        self.topic0, self.client, self.sub = topic, client, sub

    def begin(self, an, st):
        self.start(an, st, self.topic0)

    def grows(self, an, st, ev):
        if ev.kind.startswith('map.'):
            return self.is_nodes(an, ev)
        return self.is_part(an, st, ev.args[0], self.g(st, 'node'), self.t.clients)

    def on_next(self, an, st, ev, src, i, x):
        if self.segs(src) is not None:
            self.level(an, st, ev, src, i, x)
        elif src is self.clients_of(an, st):
            self.scanned(an, st, ev, src, i, x, self.client)

    def on_end_of(self, an, st, ev, src, i):
        if self.segs(src) is self.topic(st):
            self.settle(an, st)
            if not self.flag(st, 'gone'):
                self.check(an, self.g(st, 'pending') is None, 'M02 M03', 'every-level', ev.site, 'does not go down at a level')
                self.setflag(st, 'down')
        elif src is self.clients_of(an, st):
            self.compared(an, st, self.client)
            if not self.flag(st, 'unsure') and not self.flag(st, 'present'):
                self.setflag(st, 'absent')

    def on_vec(self, an, st, ev):
        if not self.vec_of_tree(an, st, ev):
            return
        self.anchors.add('add')
        good = ev.kind == 'vec.push' and self.is_part(an, st, ev.args[0], self.g(st, 'node'), self.t.clients)
        if not self.check(an, good and self.isdown(st), 'M02 M03 M04', 'adds-at-the-last-level', ev.site,
                          '%s %s, node %s' % (ev.kind, ev.args[0], self.g(st, 'node'))):
            return
        self.check(an, same(st, ev.args[2], self.client), 'M03 M04', 'adds-the-client', ev.site, 'adds %s' % ev.args[2])
        self.check(an, self.known(an, st, self.client) == 'absent' and not self.flag(st, 'changed'), 'M03 R06', 'at-most-once', ev.site,
                   'adds a client that may be there already')
        self.setflag(st, 'changed')

    def on_return(self, an, st, ev, v):
        self.turns += an.recording
        self.check(an, self.isdown(st), 'M02 M03', 'every-level', ev.site, 'ends before the last level of the filter')
        self.check(an, self.flag(st, 'changed') or self.known(an, st, self.client) == 'present', 'M03 M01', 'subscribed', ev.site,
                   'reports the subscription without having it')
        # what is granted
        R = sfx(an.f, 'SubAckReturnCode')
        names = {x['discr']: x['name'] for x in an.f.adts[R]['variants']}
        d = st.value(discr_of(v))
        qos = fld_of(an.f, sfx(an.f, 'Subscription'), 'qos', self.sub)
        if not self.check(an, d is not None, 'M01', 'granted-qos', ev.site, 'return code %s' % v):
            return
        g = {'SuccessQoS0': 0, 'SuccessQoS1': 1, 'SuccessQoS2': 2}.get(names.get(d))
        self.check(an, g is not None, 'M01 M03', 'subscribed', ev.site, 'answers %s to a subscription that it holds' % names.get(d, d))
        lo = min(dom_vals(st, discr_of(qos))) if qos is not None else 0
        self.check(an, g is None or g <= lo, 'M01', 'granted-qos', ev.site, 'grants QoS %s when QoS %s may have been requested' % (g, lo))
        self.check(an, g is None or g == 0, 'M05', 'granted-qos', ev.site, 'grants QoS %s; deliveries are made with QoS 0' % g)


class Unsubscribe(Walk):
    def __init__(self, rep, where, tree, topics, client):
        Walk.__init__(self, rep, where, tree)
        self.topics, self.client = topics, client

    def begin(self, an, st):
        pass

    def on_next(self, an, st, ev, src, i, x):
        if src is self.topics:
            if ev.kind == 'index':
                p = self.g(st, 'idx')
                if p is not None and eqnum(st, p, i):
                    return
                self.check(an, eqnum(st, i, INT(0) if p is None else addc(p, 1)), 'M03', 'every-filter', ev.site, 'takes filter %s after %s' % (i, p))
                self.s(st, 'idx', i)
            self.finish(an, st, ev.site)
            for n in ('unsure', 'scan', 'cmp'):
                self.s(st, n, None)
            self.start(an, st, x)
        elif self.g(st, 'topic') is None:
            if self.segs(src) is not None:
                self.bad(an, 'M03', 'every-filter', ev.site, 'goes through %s' % src)
        elif self.segs(src) is not None:
            self.level(an, st, ev, src, i, x)
        elif src is self.clients_of(an, st):
            self.scanned(an, st, ev, src, i, x, self.client)

    def on_end_of(self, an, st, ev, src, i):
        if src is self.topics:
            self.finish(an, st, ev.site)
            self.s(st, 'topic', None)
            self.setflag(st, 'all')
        elif self.g(st, 'topic') is None:
            return
        elif self.segs(src) is self.topic(st):
            self.settle(an, st)
            if not self.flag(st, 'gone'):
                self.check(an, self.g(st, 'pending') is None, 'M03', 'every-level', ev.site, 'does not go down at a level')
                self.setflag(st, 'down')
        elif src is self.clients_of(an, st):
            self.compared(an, st, self.client)
            if not self.flag(st, 'unsure') and not self.flag(st, 'present'):
                self.setflag(st, 'absent')

    def on_vec(self, an, st, ev):
        if not self.vec_of_tree(an, st, ev):
            return
        self.anchors.add('remove')
        if not self.check(an, self.g(st, 'topic') is not None and self.isdown(st) and
                          self.is_part(an, st, ev.args[0], self.g(st, 'node'), self.t.clients), 'M03', 'removes-at-the-last-level', ev.site,
                          '%s %s, node %s' % (ev.kind, ev.args[0], self.g(st, 'node'))):
            return
        removal(self, an, st, ev, self.client, 'M03')

    def finish(self, an, st, site):
        if self.g(st, 'topic') is None:
            return
        self.turns += an.recording
        if self.flag(st, 'changed'):
            return
        if self.isdown(st):
            k = self.known(an, st, self.client)
            self.check(an, k == 'absent', 'M03 R06', 'unsubscribed', site, 'a filter is left subscribed')
            return
        # the way down ended at a level that does not exist
        self.settle(an, st)
        self.check(an, self.flag(st, 'gone'), 'M03', 'unsubscribed', site, 'ends before the last level of a filter')

    def on_return(self, an, st, ev, v):
        self.finish(an, st, ev.site)
        p = self.g(st, 'idx')
        done = self.flag(st, 'all') or empty(st, self.topics) or \
            p is not None and st.ge0(sub(addc(p, 1), mkapp('len', self.topics))) is True
        self.check(an, done, 'M03', 'every-filter', ev.site, 'ends before the last filter')


def removal(h, an, st, ev, client, prop):
    """The client, and only the client, is taken off a list."""
    if ev.kind == 'vec.remove':
        x = ev.args[3]
        h.check(an, h.equal(st, x, client) is True, prop, 'removes-the-client', ev.site, 'removes %s' % x)
        h.setflag(st, 'changed')
    elif ev.kind == 'retain':
        h.setflag(st, 'changed')        # each element is looked at in 'retain:one'
    else:
        h.bad(an, prop, 'removes-the-client', ev.site, '%s on the clients of a node' % ev.kind)


class Remove(TreeHooks):
    PROP = 'L03 R06'

    def __init__(self, rep, where, tree, client):
        TreeHooks.__init__(self, rep, where, tree)
        self.client = client

    def begin(self, an, st):
        pass

    compared = Walk.compared

    def key(self, an, st):
        return tuple(sorted(c[1] for c, v in st.env.items() if c[0] == 'G' and isinstance(c[1], str)))

    def clients_of(self, an, st):
        return self.part(an, st, self.g(st, 'node'), self.t.clients)

    def on_next(self, an, st, ev, src, i, x):
        if self.is_todo(an, st, ev, src):
            # level by level: the nodes found meanwhile are the next list
            if not self.flag(st, 'levels'):
                self.check(an, self.g(st, 'node') is None and self.g(st, 'pop') is None, 'L03 R06', 'every-node', ev.site, 'goes through %s' % src)
                self.setflag(st, 'levels')
                self.s(st, 'list', EMPTYSEQ)
            self.visit(an, st, ev.site, x)
            return
        n = self.g(st, 'node')
        if n is None:
            if self.is_nodes(an, ev):
                self.bad(an, 'L03 R06', 'every-node', ev.site, 'goes through %s' % src)
            return
        if src is self.clients_of(an, st):
            self.compared(an, st, self.client)
            self.s(st, 'cmp', x)
        elif self.is_children(an, st, src):
            self.check(an, self.g(st, 'child') is None, 'L03 R06', 'every-node', ev.site, 'passes over a node')
            v = x.a[2][1] if x.k == 'agg' and len(x.a[2]) == 2 else x
            self.s(st, 'child', v)

    def on_iterate(self, an, st, ev, src, m):
        if self.g(st, 'node') is not None and m is self.part(an, st, self.g(st, 'node'), self.t.children) and src.a[0] != 'mapkeys':
            self.s(st, 'kids', src)

    def is_children(self, an, st, src):
        return src is self.g(st, 'kids')

    def one_root(self, src):
        return src.k == 'agg' and src.a[0] == 'array' and len(src.a[2]) == 1 and self.isroot(src.a[2][0])

    def is_todo(self, an, st, ev, src):
        """The nodes to be visited are gone through."""
        if not self.is_nodes(an, ev) or src is self.g(st, 'kids'):
            return False
        p = self.g(st, 'pend')
        return src is p if p is not None else self.one_root(src) or \
            src.k == 'app' and src.a[0] == 'push' and empty(st, src.a[1]) and self.isroot(src.a[2])

    def visit(self, an, st, site, x):
        self.finish(an, st, site)
        for n in ('present', 'absent', 'unsure', 'cmp', 'changed', 'queued', 'child', 'kids'):
            self.s(st, n, None)
        self.s(st, 'node', x)

    def on_end_of(self, an, st, ev, src, i):
        if self.is_todo(an, st, ev, src):
            self.finish(an, st, ev.site)
            self.setflag(st, 'levels')
            for n in ('present', 'absent', 'unsure', 'cmp', 'changed', 'queued', 'child', 'kids', 'node'):
                self.s(st, n, None)
            self.s(st, 'pend', self.g(st, 'list') if self.g(st, 'list') is not None else EMPTYSEQ)
            self.s(st, 'list', EMPTYSEQ)
            return
        if self.g(st, 'node') is None:
            return
        if src is self.clients_of(an, st):
            self.compared(an, st, self.client)
            if not self.flag(st, 'unsure') and not self.flag(st, 'present'):
                self.setflag(st, 'absent')
        elif self.is_children(an, st, src):
            self.check(an, self.g(st, 'child') is None, 'L03 R06', 'every-node', ev.site, 'passes over a node')
            self.setflag(st, 'queued')

    def on_map(self, an, st, ev):
        if self.is_nodes(an, ev) and ev.kind in ('map.insert', 'map.ensure', 'map.remove', 'map.clear', 'map.retain'):
            self.bad(an, 'L03 R06', 'nodes-stay', ev.site, '%s on the tree' % ev.kind)

    def on_vec(self, an, st, ev):
        if self.vec_of_tree(an, st, ev):
            self.anchors.add('remove')
            if self.check(an, self.is_part(an, st, ev.args[0], self.g(st, 'node'), self.t.clients) if self.g(st, 'node') is not None else False,
                          'L03 R06', 'removes-from-the-node', ev.site, '%s %s while at %s' % (ev.kind, ev.args[0], self.g(st, 'node'))):
                removal(self, an, st, ev, self.client, 'L03 R06')
            return
        if not self.is_nodes(an, ev):
            return
        # the list of nodes still to be visited
        k = ev.kind
        before = ev.args[1]
        L = self.g(st, 'list')
        if L is None:
            one = before.k == 'agg' and before.a[0] == 'array' and len(before.a[2]) == 1 and self.isroot(before.a[2][0])
            if not one and empty(st, before) and k == 'vec.push' and self.isroot(ev.args[2]):
                self.s(st, 'list', app('push', before, ev.args[2]))
                return
            self.check(an, one, 'L03 R06', 'starts-at-the-root', ev.site, 'starts with %s' % before)
        else:
            self.check(an, before is L or empty(st, before) and empty(st, L), 'L03 R06', 'every-node', ev.site, 'nodes to visit are lost: %s instead of %s' % (before, L))
        if k == 'vec.pop':
            self.check(an, not self.flag(st, 'levels'), 'L03 R06', 'every-node', ev.site, 'takes a node off the list of the next level')
            self.visit(an, st, ev.site, fld(ev.res, 1, 0))
            self.s(st, 'pop', ev.res)
            self.s(st, 'list', app('popfront' if ev.res.k == 'app' and ev.res.a[0] == 'front' else 'pop', before))
        elif k == 'vec.append':
            self.check(an, self.g(st, 'node') is not None and self.is_children(an, st, ev.args[2]), 'L03 R06', 'every-node', ev.site, 'visits %s' % ev.args[2])
            self.setflag(st, 'queued')
            self.s(st, 'list', mkapp('cat', before, ev.args[2]))
        elif k == 'vec.push':
            c = self.g(st, 'child')
            good = c is not None and (self.nodeval(an, st, ev.args[2]) is self.nodeval(an, st, c))
            self.check(an, good, 'L03 R06', 'every-node', ev.site, 'visits %s' % ev.args[2])
            self.s(st, 'child', None)
            self.s(st, 'list', app('push', before, ev.args[2]))
        else:
            self.bad(an, 'L03 R06', 'every-node', ev.site, '%s on the nodes to visit' % k)

    def finish(self, an, st, site):
        if self.g(st, 'node') is None:
            return
        self.turns += an.recording
        self.compared(an, st, self.client)
        c = self.contains(an, st, self.clients_of(an, st), self.client)
        self.check(an, self.flag(st, 'changed') or self.flag(st, 'absent') or c is False, 'L03 R06', 'every-subscription', site,
                   'leaves the client subscribed at a node')
        self.check(an, self.flag(st, 'queued') or empty(st, self.part(an, st, self.g(st, 'node'), self.t.children)), 'L03 R06', 'every-node', site,
                   'does not visit what is below a node')

    def on_return(self, an, st, ev, v):
        p = self.g(st, 'pop')
        none = p is not None and st.value(discr_of(p)) == 0
        if self.flag(st, 'levels'):
            L = self.g(st, 'pend')
            self.check(an, self.g(st, 'node') is None and L is not None and empty(st, L), 'L03 R06', 'every-node', ev.site, 'ends while there are nodes to visit')
            return
        self.check(an, none or (self.g(st, 'list') is not None and empty(st, self.g(st, 'list'))), 'L03 R06', 'every-node', ev.site,
                   'ends while there are nodes to visit')


class Lookup(TreeHooks):
    PROP = 'M02'

    def on_search(self, an, st, ev, how, src, j, x):
        pass

    def __init__(self, rep, where, tree, topic):
        TreeHooks.__init__(self, rep, where, tree)
        self.topic = topic

    def at(self, an, fr, bb, st, back):
        self.settle(an, st)
        TreeHooks.at(self, an, fr, bb, st, back)

    def settle(self, an, st):
        """What is known of the node being visited, kept apart from the values it was learnt from."""
        if self.g(st, 'x') is None:
            return
        for k in ('level', '+', '#'):
            if k == 'level' and self.g(st, 'seg') is None:
                continue
            if not self.flag(st, 'gone:' + k) and st.value(discr_of(self.kid(an, st, k))) == 0:
                self.setflag(st, 'gone:' + k)
        if self.g(st, 'w:1') is None and self.g(st, 'w:0') is None:
            w = self.wild(st)
            if w is not None:
                self.s(st, 'w:1' if w else 'w:0', INT(1))

    def begin(self, an, st):
        self.s(st, 'F', INT(0))         # nodes of the level so far; 0: the root only
        self.s(st, 'D', EMPTYSEQ)       # nodes of the next level
        self.s(st, 'O', EMPTYSEQ)       # clients found

    def key(self, an, st):
        return tuple(sorted(c[1] for c, v in st.env.items() if c[0] == 'G' and isinstance(c[1], str)))

    # which of the keys of the node were looked up, pushed, output: ghosts 'got:k', 'down:k', 'out:k'

    def keyname(self, an, st, k):
        if k is STR('+') or k is STR('#'):
            return k.a[0]
        if k is self.g(st, 'seg'):
            return 'level'
        return None

    def children(self, an, st):
        return self.part(an, st, self.g(st, 'x'), self.t.children)

    def kid(self, an, st, k):
        key = self.g(st, 'seg') if k == 'level' else STR(k)
        return mapget(self.children(an, st), key)

    def dollar(self, st):
        """Whether the topic begins with $: True, False, None."""
        for p in (INT(36), STR('$')):
            t = st.truth(mkapp('starts_with', self.topic, p))
            if t is not None:
                return t
            for seg in [app('split', self.topic, STR('/')), app('split', self.topic, INT(47))]:
                t = st.truth(mkapp('starts_with', mkapp('elem', seg, INT(0)), p))
                if t is not None:
                    return t
        # its first byte or character is looked at
        for s in (self.topic, app('chars', self.topic)):
            if empty(st, s):
                return False
            t = st.truth(mkapp('eq0', addc(mkapp('elem', s, INT(0)), -36)))
            if t is not None:
                return t
        return None

    def wild(self, st):
        """Whether wildcards match at this level: True, False, None."""
        i = self.g(st, 'i')
        if i is None:
            return None
        if self.g(st, 'w:1') is not None:
            return True
        if self.g(st, 'w:0') is not None:
            return False
        if st.ge0(addc(i, -1)) is True:
            return True
        d = self.dollar(st)
        if d is False:
            return True
        if eqnum(st, i, INT(0)):
            return None if d is None else False
        return None

    def on_next(self, an, st, ev, src, i, x):
        if self.segs(src) is not None:
            self.level(an, st, ev, src, i, x)
        elif self.is_nodes(an, ev):
            self.visit(an, st, ev, src, i, x)
        else:
            self.client(an, st, ev, src, i, x)

    def level(self, an, st, ev, src, i, x):
        if not self.check(an, self.segs(src) is self.topic, 'M02', 'levels-of-the-topic', ev.site, 'goes through %s' % src):
            return
        p = self.g(st, 'i')
        if ev.kind == 'index':
            if p is not None and eqnum(st, p, i):
                return
            self.check(an, eqnum(st, i, INT(0) if p is None else addc(p, 1)), 'M02', 'every-level', ev.site, 'takes level %s after %s' % (i, p))
        self.advance(an, st, ev, p)
        self.s(st, 'i', i)
        self.s(st, 'seg', x)
        self.s(st, 'w:1', None)
        self.s(st, 'w:0', None)

    def advance(self, an, st, ev, p):
        """All nodes of a level are done: on to the next."""
        self.served(an, st, ev.site)
        if p is not None:
            self.check(an, self.flag(st, 'all') or self.nothing(st, self.g(st, 'F')), 'M02 M04', 'every-node', ev.site, 'leaves out nodes of a level')
            self.s(st, 'F', self.g(st, 'D'))
            self.s(st, 'D', EMPTYSEQ)
        self.s(st, 'all', None)
        self.s(st, 'x', None)

    def nothing(self, st, F):
        return F is not INT(0) and empty(st, F)

    def is_frontier(self, an, st, src):
        F = self.g(st, 'F')
        if F is INT(0):
            return src.k == 'agg' and src.a[0] == 'array' and len(src.a[2]) == 1 and self.isroot(src.a[2][0]) \
                or src.k == 'app' and src.a[0] == 'push' and empty(st, src.a[1]) and self.isroot(src.a[2])
        return src is F or (empty(st, src) and empty(st, F))

    def visit(self, an, st, ev, src, i, x):
        if self.flag(st, 'over') and self.g(st, 'fin') is None:
            self.s(st, 'fin', INT(0))
        if not self.check(an, self.is_frontier(an, st, src), 'M02', 'nodes-of-the-level', ev.site,
                          'visits %s instead of %s' % (src, self.g(st, 'F'))):
            return
        self.served(an, st, ev.site)
        self.s(st, 'x', x)

    def client(self, an, st, ev, src, i, x):
        n = self.g(st, 'x')
        if n is None:
            return
        w = None
        if self.g(st, 'fin') is not None and src is self.part(an, st, n, self.t.clients):
            w = 'own'
        elif src is self.part(an, st, fld(self.kid(an, st, '#'), 1, 0), self.t.clients):
            w = '#'
        if not self.check(an, w is not None, 'M02 M04', 'only-matching', ev.site, 'goes through %s' % src):
            return
        self.check(an, self.g(st, 'c') is None, 'M02 M04', 'every-client', ev.site, 'leaves out a client')
        if w == '#' and self.g(st, 'fin') is None:
            self.check(an, self.wild(st) is True, 'M02', 'dollar-topics', ev.site, 'a leading wildcard matches a topic beginning with $')
        self.s(st, 'c', x)
        self.check(an, not self.flag(st, 'out:' + w), 'M02 M04', 'once', ev.site, 'takes the clients of a node twice')

    def on_end_of(self, an, st, ev, src, i):
        if self.segs(src) is self.topic:
            self.advance(an, st, ev, self.g(st, 'i'))
            self.setflag(st, 'over')
        elif self.is_nodes(an, ev) and self.segs(src) is None:
            if self.flag(st, 'over') and self.g(st, 'fin') is None:
                self.s(st, 'fin', INT(0))
            if self.is_frontier(an, st, src):
                self.served(an, st, ev.site)
                self.setflag(st, 'all')
                self.s(st, 'x', None)
        else:
            n = self.g(st, 'x')
            if n is None:
                return
            self.check(an, self.g(st, 'c') is None, 'M02 M04', 'every-client', ev.site, 'leaves out a client')
            if self.g(st, 'fin') is not None and src is self.part(an, st, n, self.t.clients):
                self.setflag(st, 'out:own')
            if src is self.part(an, st, fld(self.kid(an, st, '#'), 1, 0), self.t.clients):
                self.setflag(st, 'out:#')

    def on_map(self, an, st, ev):
        if not self.is_nodes(an, ev):
            return
        if ev.kind not in ('map.get', 'map.getmut'):
            self.bad(an, 'M02 M03', 'looks-only', ev.site, '%s while looking up' % ev.kind)
            return
        n = self.g(st, 'x')
        k = self.keyname(an, st, ev.args[2])
        self.check(an, n is not None and ev.args[1] is self.children(an, st) and k is not None, 'M02', 'looks-at-the-level', ev.site,
                   'looks up %s in %s at %s' % (ev.args[2], ev.args[1], n))

    def on_vec(self, an, st, ev):
        if self.vec_of_tree(an, st, ev):
            self.bad(an, 'M02 M03', 'looks-only', ev.site, '%s while looking up' % ev.kind)
        elif self.is_nodes(an, ev):
            self.push_node(an, st, ev)
        else:
            self.push_client(an, st, ev)

    def push_node(self, an, st, ev):
        n = self.g(st, 'x')
        before = ev.args[1]
        if n is None and ev.kind == 'vec.push' and self.isroot(ev.args[2]) and empty(st, before) and self.g(st, 'F') is INT(0):
            return
        if not self.check(an, ev.kind == 'vec.push' and n is not None and self.g(st, 'fin') is None, 'M02', 'nodes-of-the-level', ev.site,
                          '%s on the nodes' % ev.kind):
            return
        D = self.g(st, 'D')
        self.check(an, before is D or (empty(st, before) and empty(st, D)), 'M02', 'nodes-of-the-level', ev.site,
                   'adds to %s instead of %s' % (before, D))
        v = self.nodeval(an, st, ev.args[2])
        for k in ('level', '+'):
            g = self.kid(an, st, k)
            if v is fld(g, 1, 0) and st.value(discr_of(g)) == 1:
                self.check(an, not self.flag(st, 'down:' + k), 'M02 M04', 'once', ev.site, 'goes on with a node twice')
                if k == '+':
                    self.check(an, self.wild(st) is True, 'M02', 'dollar-topics', ev.site, 'a leading wildcard matches a topic beginning with $')
                self.setflag(st, 'down:' + k)
                break
        else:
            self.bad(an, 'M02 M04', 'only-matching', ev.site, 'goes on with %s' % v)
        self.s(st, 'D', app('push', before, ev.args[2]))

    def push_client(self, an, st, ev):
        if 'String' not in elemty(an, ev):
            return
        c = self.g(st, 'c')
        O = self.g(st, 'O')
        before = ev.args[1]
        mine = before is O or (empty(st, before) and empty(st, O))
        if ev.kind == 'vec.append':
            src = ev.args[2]
            n = self.g(st, 'x')
            w = None
            if n is not None and self.g(st, 'fin') is not None and src is self.part(an, st, n, self.t.clients):
                w = 'own'
            elif n is not None and src is self.part(an, st, fld(self.kid(an, st, '#'), 1, 0), self.t.clients):
                w = '#'
            if not self.check(an, w is not None and mine and not self.flag(st, 'out:' + w), 'M02 M04', 'only-matching', ev.site, 'adds %s' % src):
                return
            if w == '#' and self.g(st, 'fin') is None:
                self.check(an, self.wild(st) is True, 'M02', 'dollar-topics', ev.site, 'a leading wildcard matches a topic beginning with $')
            self.setflag(st, 'out:' + w)
            self.s(st, 'O', mkapp('cat', before, src))
            return
        if c is None and not mine:
            return          # some other list of texts
        self.anchors.add('found')
        self.check(an, ev.kind == 'vec.push' and mine and c is not None and same(st, ev.args[2], c), 'M02 M04', 'only-matching', ev.site,
                   'adds %s to %s; the client is %s' % (ev.args[2:], before, c))
        self.s(st, 'c', None)
        if ev.kind == 'vec.push':
            self.s(st, 'O', app('push', before, ev.args[2]))

    def served(self, an, st, site):
        """The node visited is done: everything it contributes was taken."""
        if self.g(st, 'x') is None:
            return
        self.turns += an.recording
        self.check(an, self.g(st, 'c') is None, 'M02 M04', 'every-client', site, 'leaves out a client')

        def out(k, g):
            """Clients of that child: taken completely, or none there."""
            return self.flag(st, 'out:' + k) or self.flag(st, 'gone:' + k) or (g is not None and st.value(discr_of(g)) == 0)
        if self.g(st, 'fin') is not None:
            C = self.part(an, st, self.g(st, 'x'), self.t.clients)
            self.check(an, self.flag(st, 'out:own') or empty(st, C), 'M02 M04', 'exact-match', site, 'leaves out the clients of a matching filter')
            if an.recording:
                self.rep.check(out('#', self.kid(an, st, '#')), 'M02', 'hash-matches-parent', 'subscription tree: lookup',
                               "a final '#' does not match its parent level")
        else:
            w = self.wild(st)
            for k in ('level', '+'):
                if k == '+' and w is False:
                    continue
                g = self.kid(an, st, k)
                good = self.flag(st, 'down:' + k) or self.flag(st, 'gone:' + k) or st.value(discr_of(g)) == 0
                self.check(an, good, 'M02 M04', 'literal-level' if k == 'level' else 'plus-level', site,
                           'does not go on with the child %s' % ('of the level' if k == 'level' else "'+'"))
            if w is not False:
                self.check(an, out('#', self.kid(an, st, '#')), 'M02 M04', 'hash-level', site, "leaves out the clients of a '#'")
        for n in ('down:level', 'down:+', 'out:#', 'out:own', 'gone:level', 'gone:+', 'gone:#'):
            self.s(st, n, None)

    def on_return(self, an, st, ev, v):
        O = self.g(st, 'O')
        r = v
        if v.k == 'agg' and v.a[0].endswith('::Option'):
            r = v.a[2][0] if v.a[2] else None
        elif st.value(discr_of(v)) == 1:
            r = fld(v, 1, 0)
        self.check(an, self.g(st, 'c') is None, 'M02 M04', 'every-client', ev.site, 'leaves out a client')
        self.check(an, (r is None and empty(st, O)) or r is O or (r is not None and empty(st, r) and empty(st, O)), 'M02 M04', 'returns-the-found', ev.site,
                   'returns %s instead of %s' % (v, O))
        done = self.g(st, 'fin') is not None and self.flag(st, 'all')
        gone = self.nothing(st, self.g(st, 'F')) or (self.nothing(st, self.g(st, 'D')) and self.flag(st, 'all'))
        self.check(an, done or gone, 'M02 M04', 'every-node', ev.site, 'ends before all nodes were looked at')


def check(facts, rep):
    T = Tree(facts)
    rep.check(bool(T.ok), 'M02 M03 L03', 'anchor', 'subscription tree', 'the types of the tree are not recognised')
    if not T.ok:
        return
    roles = {}
    for k, (b, role, ps) in sorted(T.methods().items()):
        where = core.clean(b.pretty)
        rep.check(role is not None, 'M02 M03 L03', 'anchor', where, 'an operation of the tree that is not recognised')
        if role is None:
            continue
        roles.setdefault(role, []).append(b.key)
        args = [ref(('H', sym('self')))] + [sym('arg%d' % i) for i in range(2, b.argc + 1)]
        a = {n: sym('arg%d' % i) for n, i in ps.items() if isinstance(i, int)}
        if role == 'lookup':
            h = Lookup(rep, where, T, a['topic'])
        elif role == 'subscribe':
            sub = a['subscription']
            h = Subscribe(rep, where, T, fld_of(facts, sfx(facts, 'Subscription'), 'topic', sub), a['client'], sub)
        elif role == 'unsubscribe':
            h = Unsubscribe(rep, where, T, a['topics'], a['client'])
        else:
            h = Remove(rep, where, T, a['client'])
        an = Analysis(facts, h, [models.lookup], role)
        an.run(b, args, pre=lambda st: h.begin(an, st))
        for x in {'lookup': ('found',), 'subscribe': ('add',), 'unsubscribe': ('remove',), 'remove': ('remove',)}[role]:
            rep.check(x in h.anchors, {'lookup': 'M02', 'remove': 'L03'}.get(role, 'M03'), 'anchor', '%s: %s' % (where, x), 'never happens')
        if role in ('unsubscribe', 'remove'):
            rep.check('prune' in h.anchors, 'R06', 'empty-nodes-go', 'subscription tree: %s' % role,
                      'the nodes made for a filter stay when nobody is subscribed to it any more')
        rep.stats.append((role, where, {'steps': an.steps, 'states': sum(len(x) for x in an.store.values()), 'turns': h.turns,
                                        'bodies': len({f.body.key for f in an.framelist})}))
        rep.notes.append(('unmodelled', sorted(an.unknown)))
    for r, p in (('lookup', 'M02'), ('subscribe', 'M03'), ('unsubscribe', 'M03'), ('remove', 'L03')):
        rep.check(r in roles, p, 'anchor', 'subscription tree: %s' % r, 'there is no such operation')
    return T

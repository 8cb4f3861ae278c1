"""Monitoring of tasks that serve one event after another."""
from .terms import *
from . import core, models
from .core import Analysis, Ev
from .models import *
from .util import *
from .stream import co_args
from .growth import Growth, natural

PKT = 'ratelmq::mqtt::packets::'
EVENT = 'ratelmq::mqtt::events::ClientEvent'
SERVER = 'ratelmq::mqtt::events::ServerEvent'
CP = PKT + 'ControlPacket'


def sfx(facts, name):
    """The ADT of that last name (unique in the crate)."""
    r = [a for a in facts.adts if a.startswith('ratelmq') and a.split('::')[-1] == name]
    return r[0] if len(r) == 1 else None


def contains(t, x):
    if t is x:
        return True
    return any(contains(k, x) for k in kids(t))


def elemty(an, ev):
    """Static type of what a channel operation carries, as text."""
    c = ev.info
    ts = []
    for i in c.callee.get('targs') or []:
        if isinstance(i, int):
            ts.append(an.f.tys(i))
    for i in range(len(c.args)):
        ty = c.argty(i)
        if ty is not None:
            ts.append(an.f.tys(ty))
    return ' '.join(ts)


def coroutines(facts):
    return [b for b in facts.bodies.values() if b.local and b.kind == 'coroutine' and not b.derived]


def mentions(body, what):
    """Calls in the body whose callee (with its type arguments) matches."""
    for i in body.rpo:
        t = body.blocks[i]['t']
        if t[0] == 'call' and t[1][0] == 'c' and 'fn' in t[1][1]:
            f = t[1][1]['fn']
            if what(f):
                yield i, f


def callees(facts, body):
    """Local bodies a body can run: called, awaited, or built as closures or futures inside it."""
    out = set()
    for i in body.rpo:
        bl = body.blocks[i]
        for s in bl['s']:
            if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][2], str):
                out.add(s[2][2])
        t = bl['t']
        if t[0] == 'call' and t[1][0] == 'c' and 'fn' in t[1][1]:
            f = t[1][1]['fn']
            for k in (f.get('body'), f.get('rname'), f.get('name')):
                if k:
                    out.add(k)
    return {k for k in out if k in facts.bodies}


def waits_in(facts, key):
    """Kinds of things a local future can wait for."""
    memo = facts.__dict__.setdefault('waits_in', {})
    if key not in memo:
        out, seen, work = set(), set(), [key]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            b = facts.bodies[k]
            if b.local:
                work += callees(facts, b)
                out |= {models.short(core.clean(f['pretty'])) for _, f in mentions(b, lambda f: True)}
        memo[key] = out
    return memo[key]


OVER = ('over',)        # the event after which the task has to end has been seen


class Watch:
    """Whether a task that waits for its work also waits for the shutdown signal at the same time.

    The choice of a select! is followed for each of its starting points, one branch after the other."""
    unroll = True

    def watch(self, an, st, ev, main):
        k = ev.kind
        if k == 'rng':
            st.mon = tuple(x for x in st.mon if x[0] != 'rng') + (('rng', ev.args[0].a[0]),)
        elif k == 'pendlocal' or k == 'pending' and ev.args:
            w = self.waiting(an, st, ev, main)
            if w is not None and (w,) not in st.mon:
                st.mon = tuple(sorted(st.mon + ((w,),)))
        elif k == 'yield':
            m = {x[0] for x in st.mon}
            if 'pm' in m:
                self.watched(an, st, ev.site, 'pb' in m)
            self.reset(st)
        elif main(k):
            fr = an.framelist[ev.site[0]]
            poll = False
            while fr is not None and not poll:
                poll = fr.body.kind != 'coroutine'
                fr = fr.parent
            self.watched(an, st, ev.site, poll)
            self.reset(st)
        elif k == self.WATCHED:
            self.reset(st)

    WATCHED = 'brecv'

    def waiting(self, an, st, ev, main):
        """What is not ready yet: 'pm' the work, 'pb' what is watched for."""
        if ev.kind == 'pending' and ev.args[0].k != 'fut':
            return None
        kinds = waits_in(an.f, ev.args[0].a[0]) if ev.kind == 'pendlocal' else (ev.args[0].a[0],)
        return 'pm' if any(main(x) for x in kinds) else 'pb' if self.WATCHED in kinds else None

    def watched(self, an, st, site, good):
        self.check(an, good, 'R04', 'watches-for-shutdown', site, 'waits for its work without watching for the shutdown signal')

    def reset(self, st):
        st.mon = tuple(x for x in st.mon if x == OVER)

    def watchkey(self, an, st):
        if not any(x[0] == 'rng' for x in st.mon):
            return ()
        out = []
        for c, v in st.env.items():
            if v.k == 'agg' and v.a[0] and v.a[0].endswith('Range') and len(v.a[2]) == 2 and v.a[2][0].k == 'int' and v.a[2][1].k == 'int' \
                    and v.a[2][1].a[0] - v.a[2][0].a[0] <= 4:
                out.append((c[0], str(c[1:]), v.a[2][0].a[0]))
        return tuple(sorted(out))


class LoopHooks(Growth, Hooks):
    """Keeps the trace of the current turn of the event loop and hands it over when the turn ends."""
    #: kinds of events kept in the trace
    KEEP = ('send', 'trysend', 'blocking', 'orecv', 'brecv', 'recv', 'reply', 'auth', 'spawn', 'join', 'sleep')

    def __init__(self, rep, where):
        Hooks.__init__(self, rep, where)
        self.chain = set()
        self.inloop = {}
        self.turns = 0

    def is_recv(self, an, ev):
        return False

    def turn(self, an, st, why, site):
        """One turn is over (why: 'next', 'end')."""

    def seen(self, an, st, ev):
        """After the event was logged."""
        return True

    def event(self, an, st, ev):
        self.growth(an, st, ev)
        if isinstance(self, Watch):
            self.watch(an, st, ev, lambda k: k == 'recv')
        if OVER in st.mon and (ev.kind == 'brecv' or ev.kind == 'recv' and self.is_recv(an, ev)):
            self.bad(an, 'R04', 'leaves-on-shutdown', ev.site, 'goes on after what has to end the task')
            return False
        if ev.kind == 'recv' and self.is_recv(an, ev):
            self.chain |= {(fr.id, bb) for fr, bb in self.g_sites(an, ev.site)}
            self.g_turn(an, ev)
            self.finish(an, st, 'next', ev.site)
            an.log(st, ev)
            return self.started(an, st, ev)
        if ev.kind == 'end':
            if st.trace:
                self.finish(an, st, 'end', ev.site)
            else:
                self.ended(an, st, ev.site)
            return True
        if self.keep(an, st, ev):
            an.log(st, ev)
        return self.seen(an, st, ev)

    def keep(self, an, st, ev):
        return ev.kind in self.KEEP

    def started(self, an, st, ev):
        return True

    def ended(self, an, st, site):
        """The task ends between two events."""

    def over(self, an, st):
        """The turn saw what has to end the task."""
        return False

    def finish(self, an, st, why, site):
        if st.trace:
            if an.recording:
                self.turns += 1
            self.turn(an, st, why, site)
        st.trace = ()
        for c in [c for c in st.env if c[0] == 'G']:
            del st.env[c]

    def at(self, an, fr, bb, st, back):
        self.g_at(an, fr, bb, st)
        if not back:
            return
        k = (fr.id, bb)
        mine = [b for f, b in self.chain if f == fr.id]
        if not mine:
            return
        L = self.inloop.get(fr.body.key, {}).get(bb)
        if L is None:
            L = self.inloop.setdefault(fr.body.key, {})[bb] = natural(fr.body, bb)
        if any(b in L for b in mine):
            if OVER not in st.mon and st.trace and self.over(an, st):
                st.mon = tuple(sorted(st.mon + (OVER,)))
            self.finish(an, st, 'next', None)


def outermost(facts, has):
    """The tasks that run these bodies: the coroutines around them that nobody awaits."""
    calls = {b.key: callees(facts, b) for b in facts.bodies.values() if b.local}
    tasks = set()
    for k in has:
        seen, work = set(), [k]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            b = facts.bodies[x]
            if b.kind == 'coroutine' and not awaited(facts, b):
                tasks.add(x)
                continue
            work += [y for y in calls if x in calls[y] and y != x]
    # what nobody starts does not run
    live = {t for t in tasks if any(function(t) in c for k, c in calls.items() if function(k) != function(t))}
    return sorted(live or tasks)


def function(key):
    """The function a closure or coroutine is in."""
    return key.split('::{closure#')[0]


def awaited(facts, co):
    """Some local body polls this coroutine."""
    for b in facts.bodies.values():
        if not b.local:
            continue
        for i, f in mentions(b, lambda f: f.get('method') == 'poll'):
            if f.get('rname') == co.key:
                return True
    return False

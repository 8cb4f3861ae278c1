"""What the tasks wait for: a call-graph analysis over all of them."""
from .evloop import *
from . import tasks, decoder, encoder
from .handler import root

# calls that hold up the thread they run on
BLOCKING = ('std::thread::sleep', 'std::thread::functions::sleep', 'std::thread::park', 'std::fs::', 'std::process::Command::',
            'std::process::Child::wait', 'std::sync::Mutex::lock', 'std::sync::poison::mutex::Mutex::lock', 'std::sync::poison::rwlock::RwLock::',
            'std::sync::poison::condvar::Condvar::wait', 'std::sync::barrier::Barrier::wait', 'std::sync::mpsc::Receiver::recv',
            'std::sync::mpsc::SyncSender::send', 'std::thread::JoinHandle::join', 'std::thread::join_handle::JoinHandle::join', 'std::net::',
            'std::io::stdio::Stdin::', 'futures_executor::local_pool::block_on', 'futures::executor::block_on')
BLOCKING_METHODS = ('blocking_send', 'blocking_recv', 'blocking_lock', 'blocking_read', 'blocking_write', 'block_on', 'block_in_place',
                    'sleep_ms', 'spin_loop')
HARMLESS = ('std::net::ip', 'std::net::socket_addr', 'core::net')


def blocking(f):
    for n in (core.clean(f.get('rpretty') or ''), core.clean(f['pretty'])):
        if any(n.startswith(h) for h in HARMLESS):
            continue
        if any(n.startswith(b) or ('<' + b) in n for b in BLOCKING):
            return n
        if n.split('::')[-1] in BLOCKING_METHODS and n.split('::')[0].lstrip('<&') in ('tokio', 'futures', 'std', 'core'):
            return n
    if f.get('method') in ('read', 'read_to_string', 'read_to_end', 'read_line', 'write', 'write_all', 'flush') \
            and (f.get('trait') or '').startswith('std::io'):
        return core.clean(f['pretty'])
    return None


def impls_of(facts, f):
    """Local bodies a call through a trait object or type parameter can reach."""
    out = []
    if f.get('trait') and f.get('method') and not f.get('body'):
        for im in facts.impls:
            for n, k in (im.get('items') or {}).items():
                if im.get('trait') == f['trait'] and n.split('::')[-1] == f['method'] and k in facts.bodies:
                    out.append(k)
    return out


def spawned(facts):
    """Coroutines handed to the runtime as tasks of their own, and those nobody awaits."""
    out = set()
    for b in facts.bodies.values():
        if b.local:
            for i, f in mentions(b, lambda f: f.get('method') in ('spawn', 'spawn_local') or core.clean(f['pretty']).endswith(('::spawn', '::spawn_local'))):
                for t in f.get('targs') or []:
                    if isinstance(t, int) and facts.types[t]['k'] == 'coroutine' and facts.types[t].get('def') in facts.bodies:
                        out.add(facts.types[t]['def'])
    return out


def within(facts, r, stop):
    seen, work = set(), [r]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        b = facts.bodies[x]
        nxt = set(callees(facts, b))
        for i, f in mentions(b, lambda f: bool(f.get('trait'))):
            nxt |= set(impls_of(facts, f))
        work += [y for y in nxt if y not in stop or y == r]
    return seen


def elems(facts, f):
    return [facts.tys(t) for t in f.get('targs') or [] if isinstance(t, int)]


def check(facts, rep, S):
    start = set(outermost(facts, {b.key for b in facts.bodies.values() if b.local and any(
        True for _ in mentions(b, lambda f: core.clean(f['pretty']) in tasks.models_names('ctrl_c')))}))
    names = {}
    names.update({k: 'reading task' for k in outermost(facts, {co.key for _, co, _ in decoder.roots(facts, S.readers)})})
    names.update({k: 'writing task' for k in outermost(facts, {co.key for _, co, _ in encoder.roots(facts, S.writers)})})
    names.update({k: 'accepting task' for k in tasks.accepting(facts)})
    names.update({k: 'dispatcher' for k in root(facts, 'events::ClientEvent')})
    names.update({k: 'messaging task' for k in root(facts, 'MessagingOperation')})
    roots = set(names) | spawned(facts)
    for k in roots:
        names.setdefault(k, 'task ' + core.clean(facts.bodies[k].pretty))
    names.update({k: 'start and stop' for k in start})
    allr = roots | start
    rep.check(len(set(names.values())) >= 6, 'R03', 'anchor', 'tasks', 'recognised %s' % sorted(names.values()))
    sends, recvs, answers, asks = {}, {}, {}, {}
    nbodies = 0
    for r in sorted(allr):
        inside = within(facts, r, allr)
        nbodies += len(inside)
        for x in sorted(inside):
            b = facts.bodies[x]
            for i, f in mentions(b, lambda f: True):
                n = core.clean(f['pretty'])
                w = blocking(f)
                if w and r not in start:
                    rep.bad('R03', 'no-blocking-call', '%s: %s in %s' % (names[r], w, core.clean(b.pretty)), 'blocks the thread the %s runs on' % names[r])
                for e in elems(facts, f):
                    if n.endswith('mpsc::bounded::Sender::send') or n.endswith('mpsc::bounded::Sender::reserve'):
                        sends.setdefault(r, {}).setdefault(e, set()).add(x)
                    elif n.endswith('mpsc::bounded::Receiver::recv') or n.endswith('mpsc::unbounded::UnboundedReceiver::recv'):
                        recvs.setdefault(r, set()).add(e)
                    elif n.endswith('oneshot::Sender::send'):
                        answers.setdefault(r, set()).add(e)
            # replies waited for: a oneshot receiver polled
            for i, f in mentions(b, lambda f: f.get('method') == 'poll'):
                for e in elems(facts, f):
                    if 'oneshot::Receiver<' in e:
                        asks.setdefault(r, set()).add(e.split('oneshot::Receiver<', 1)[1].rsplit('>', 1)[0])
        if r not in start:
            rep.ok('R03', 'no-blocking-call', names[r])
    edges = {}
    for r in allr:
        es = edges.setdefault(r, {})
        for e in sends.get(r, {}):
            for q in allr:
                if e in recvs.get(q, ()):
                    es.setdefault(q, set()).add('room for a %s' % e.split('::')[-1])
        for e in asks.get(r, ()):
            for q in allr:
                if e in answers.get(q, ()):
                    es.setdefault(q, set()).add('an answer (%s)' % e.split('::')[-1])
    n = 0
    for r in sorted(allr, key=lambda k: names[k]):
        back = path(edges, r)
        n += len(edges[r])
        rep.check(back is None, 'R03', 'no-circular-wait', names[r],
                  'can wait for itself: %s' % ' -> '.join(names[x] for x in back or ()))
    rep.check(n > 0, 'R03', 'anchor', 'waiting', 'no task waits for another')
    # no shared task waits for one client
    shared = [r for r in sorted(allr) if names[r] in ('dispatcher', 'messaging task', 'accepting task')]
    for r in shared:
        es = sends.get(r, {})
        for e in sorted(es):
            if 'ServerEvent' in e:
                rep.bad('R03', 'no-wait-for-one-client', '%s: room in the queue of a connection' % names[r],
                        'waits until the client has read enough (%s)' % ', '.join(sorted(core.clean(facts.bodies[x].pretty) for x in es[e])))
        touches = sorted({core.clean(f['pretty']) for x in within(facts, r, allr) for i, f in mentions(facts.bodies[x], socket_io)})
        rep.check(not touches, 'R03', 'no-wait-for-one-client', '%s: sockets' % names[r], 'reads or writes sockets itself (%s)' % ', '.join(touches))
    rep.stats.append(('waits', 'call graph of the tasks', {'tasks': len(allr), 'bodies': nbodies, 'edges': n}))


def socket_io(f):
    n = core.clean(f['pretty'])
    return n.startswith(('tokio::io::util::async_read_ext', 'tokio::io::util::async_write_ext', 'tokio::io::util::async_buf_read_ext')) \
        or (n.startswith('tokio::net::tcp::') and n.split('::')[-1] in ('readable', 'writable', 'ready', 'peek', 'connect'))


def path(edges, r):
    """A cycle through r."""
    work = [(q, (r, q)) for q in edges.get(r, {})]
    seen = set()
    while work:
        x, p = work.pop()
        if x == r:
            return p
        if x in seen:
            continue
        seen.add(x)
        work += [(q, p + (q,)) for q in edges.get(x, {})]
    return None

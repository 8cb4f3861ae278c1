"""Stack depth that clients control, and futures that are never run."""
from .evloop import *
from . import tasks, decoder, encoder, waits
from .handler import root


def owned(facts, ty, out, d=0):
    """Local ADTs a value of the type owns."""
    t = facts.types[ty]
    if t['k'] in ('ref', 'ptr') or d > 8:
        return
    if t['k'] == 'adt' and t['def'] in facts.adts and facts.adts[t['def']].get('local'):
        if t['def'] in out:
            return
        out.add(t['def'])
        for v in facts.adts[t['def']]['variants']:
            for fl in v['fields']:
                owned(facts, fl[1], out, d + 1)
        return
    for a in t.get('args') or []:
        if isinstance(a, int):
            owned(facts, a, out, d + 1)


def recursive_adts(facts):
    out = {}
    for n, a in facts.adts.items():
        if not a.get('local'):
            continue
        for v in a['variants']:
            for fl in v['fields']:
                s = set()
                owned(facts, fl[1], s)
                if n in s:
                    out.setdefault(n, []).append(fl[0])
    return out


DETACH = ('drain', 'take', 'replace', 'swap', 'remove', 'pop', 'clear', 'into_iter', 'extract_if', 'split_off', 'append', 'remove_entry')


def detaches(facts, body, fields, inloop_only, seen=None):
    """Blocks of the body that take the inner values out of a node."""
    hits, refs = [], set()
    for i in body.rpo:
        bl = body.blocks[i]
        for s in bl['s']:
            if s[0] == '=' and s[2][0] == 'ref' and s[2][1] == 'mut' and (any(e[0] == 'f' and e[2] in fields for e in s[2][2][1]) or s[2][2][0] in refs):
                refs.add(s[1][0])
            if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] == 'mv' and s[2][1][1][0] in refs and not s[2][1][1][1]:
                refs.add(s[1][0])
            if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] == 'mv' and any(e[0] == 'f' and e[2] in fields for e in s[2][1][1][1]):
                hits.append(i)
        t = bl['t']
        if t[0] == 'call' and t[1][0] == 'c' and 'fn' in t[1][1]:
            f = t[1][1]['fn']
            if core.clean(f['pretty']).split('::')[-1] in DETACH and any(a[0] in ('mv', 'cp') and a[1][0] in refs for a in t[2]):
                hits.append(i)
    if inloop_only:
        loops = [natural(body, h) for h in body.heads]
        hits = [i for i in hits if any(i in L for L in loops)]
    return hits


def reach(facts, roots):
    seen, work = set(), list(roots)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        b = facts.bodies[x]
        nxt = set(callees(facts, b))
        for i, f in mentions(b, lambda f: bool(f.get('trait'))):
            nxt |= set(waits.impls_of(facts, f))
        work += nxt
    return seen


def sccs(g):
    """Strongly connected components that are cycles."""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]

    def visit(v):
        work = [(v, iter(g.get(v, ())))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                if w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == u:
                            break
                    if len(c) > 1 or u in g.get(u, ()):
                        out.append(c)
    for v in g:
        if v not in idx:
            visit(v)
    return out


def check_depth(facts, rep):
    shared = set(root(facts, 'events::ClientEvent')) | set(root(facts, 'MessagingOperation')) | set(tasks.accepting(facts))
    rep.check(len(shared) >= 3, 'R01', 'anchor', 'shared tasks', 'recognised %s' % sorted(shared))
    bodies = reach(facts, shared)
    drops = {b.key for b in facts.bodies.values() if b.local and b.key.endswith('::drop')}
    bodies |= reach(facts, drops)
    g = {}
    for x in bodies:
        b = facts.bodies[x]
        nxt = set(callees(facts, b))
        for i, f in mentions(b, lambda f: bool(f.get('trait'))):
            nxt |= set(waits.impls_of(facts, f))
        g[x] = {y for y in nxt if y in bodies}
    cyc = [c for c in sccs(g) if any(facts.bodies[x].local and not facts.bodies[x].derived for x in c)]
    for c in cyc:
        ns = sorted(core.clean(facts.bodies[x].pretty) for x in c if facts.bodies[x].local)
        rep.bad('R01', 'bounded-stack', ns[0], 'a shared task recurses through %s' % ', '.join(ns))
    rep.ok('R01', 'bounded-stack', 'functions of the shared tasks')
    rec = recursive_adts(facts)
    rep.check(True, 'R01', 'bounded-stack', 'recursive types')
    for n, fields in sorted(rec.items()):
        short = core.clean(n)
        d = [k for k in drops for im in facts.impls if im.get('trait', '').endswith('ops::drop::Drop')
             and k in (im.get('items') or {}).values() and n.endswith(im['self'])]
        if not rep.check(len(d) == 1, 'R01', 'bounded-stack', 'dropping a %s' % short.split('::')[-1],
                         'dropping it recurses once per level, and clients choose the number of levels'):
            continue
        inner = reach(facts, d)
        got = []
        for x in inner:
            b = facts.bodies[x]
            if b.local or x in d:
                got += detaches(facts, b, fields, x in d)
        loops = bool(facts.bodies[d[0]].heads) or any(facts.bodies[x].heads for x in inner if facts.bodies[x].local)
        rep.check(bool(got) and loops, 'R01', 'bounded-stack', 'dropping a %s' % short.split('::')[-1],
                  'its Drop does not take the inner nodes out before they are dropped')
        for x in sorted(bodies):
            b = facts.bodies[x]
            if not b.local or b.derived:
                continue
            for i, f in mentions(b, lambda f: f['pretty'].startswith('core::fmt::rt::Argument')):
                for t in f.get('targs') or []:
                    if isinstance(t, int):
                        s = set()
                        owned(facts, strip(facts, t), s)
                        if n in s:
                            rep.bad('R01', 'bounded-stack', 'printing a %s in %s' % (short.split('::')[-1], core.clean(b.pretty)),
                                    'printing it recurses once per level')
    rep.stats.append(('depth', 'call graph of the shared tasks', {'bodies': len(bodies), 'cycles': len(cyc), 'recursive_types': len(rec)}))


def strip(facts, t):
    while facts.types[t]['k'] == 'ref':
        t = facts.strip_ref(t)
    return t


def future_type(facts, ty):
    t = facts.types[ty]
    if t['k'] == 'coroutine':
        return True
    if t['k'] == 'adt' and any(t['def'].startswith(p) for p in models.FUTURE_ADTS):
        return 'JoinHandle' not in t['s'] and 'oneshot::Receiver' not in t['s']
    return t['k'] == 'adt' and ('dyn std::future::Future' in t['s'] or 'dyn core::future::Future' in t['s']) and t['s'].startswith('std::pin::Pin<std::boxed::Box<dyn')


def unrun(body, at, local):
    """The future made there and kept in that local can be dropped without having been run."""
    work = [(body.succs(at)[0], frozenset([local]))] if body.succs(at) else []
    seen = set()
    while work:
        i, ls = work.pop()
        if (i, ls) in seen:
            continue
        seen.add((i, ls))
        bl = body.blocks[i]
        cur = set(ls)
        gone = False

        def used(o):
            return isinstance(o, (list, tuple)) and len(o) > 1 and o[0] in ('mv', 'cp') and o[1][0] in cur

        for s in bl['s']:
            if s[0] != '=':
                continue
            rv = s[2]
            if rv[0] == 'use' and used(rv[1]) and not rv[1][1][1] and not s[1][1]:
                cur.discard(rv[1][1][0])
                cur.add(s[1][0])
            elif mentioned(rv, cur):
                gone = True
                break
        if gone:
            continue
        t = bl['t']
        if t[0] == 'call':
            if any(used(a) for a in t[2]):
                f = t[1][1].get('fn', {}) if t[1][0] == 'c' else {}
                if core.clean(f.get('pretty', '')) in ('core::mem::drop', 'core::mem::forget'):
                    return True
                continue
        elif t[0] == 'drop' and not t[1][1] and t[1][0] in cur:
            return True
        elif t[0] == 'return':
            if 0 in cur:
                continue
            return True
        for j in body.succs(i):
            work.append((j, frozenset(cur)))
    return False


def mentioned(x, ls):
    """A place of one of these locals occurs in the rvalue."""
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], (list, tuple)) and x[0] in ls and isinstance(x[2], int):
            return True
        return any(mentioned(y, ls) for y in x)
    return False


def check_futures(facts, rep):
    n = 0
    for b in facts.bodies.values():
        if not b.local or b.derived:
            continue
        name = core.clean(b.pretty)
        for i in b.rpo:
            t = b.blocks[i]['t']
            if t[0] != 'call' or t[4] is None or t[3][1] or t[3][0] == 0:
                continue
            ty = b.locals[t[3][0]][0]
            if not future_type(facts, ty):
                continue
            f = t[1][1].get('fn', {}) if t[1][0] == 'c' else {}
            if f.get('method') in ('into_future', 'new_unchecked', 'clone'):
                continue
            n += 1
            rep.check(not unrun(b, i, t[3][0]), 'R02', 'every-future-runs', '%s: %s' % (name, core.clean(f.get('pretty', '?'))),
                      'an asynchronous operation is made here and can be dropped without having been run')
    rep.check(n > 0, 'R02', 'anchor', 'futures', 'no asynchronous operation found')
    rep.stats.append(('futures', 'asynchronous operations', {'made': n}))

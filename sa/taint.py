"""A04: where the password of a CONNECT may go.

A whole-program information-flow analysis over the MIR of the crate: flow-insensitive, with access paths
(tuples, Option, Result, captured variables are told apart, the fields of the crate's own types are
global), calls matched with their returns. Only types that can hold text are followed.

The password is whatever reaches the password operand of `verify_password`: every field and every call
result from which it is reached is a source. Functions that many callers share (reading a string off the
wire) hold the password too, but what they return to their other callers is not the password: inside them
the flow is followed within the function only.

Sinks: log records, standard output and error, panic messages, files, the network."""
import re
from collections import deque

TEXT = re.compile(r'^(alloc::string::|alloc::str|core::str::|core::fmt::|bytes::|alloc::borrow::Cow|std::ffi|alloc::ffi|std::path|'
                  r'core::ffi|std::os_str|core::ascii|alloc::fmt|core::char|http::|std::io::cursor|core::io::cursor|log::Record)')
ERR = re.compile(r'(^|::)io::error::Error$')
FMT = re.compile(r'^core::fmt::(Formatter|builders::)')
OPAQUE = re.compile(r'^(tokio::sync|tokio::task|tokio::runtime|tokio::net|tokio::signal|std::sync::mpsc|futures_channel)')
SEALED = re.compile(r'(verify_password|hash_password\w*|generate|same_channel)$')
PRINT = re.compile(r'^(std::io::stdio::_e?print|core::panicking::(panic_fmt|panic_display|panic_str\w*|panic_explicit)|'
                   r'std::panicking::(begin_panic|panic_any|rust_panic\w*)|std::panic::panic_any|'
                   r'core::option::expect_failed|core::result::unwrap_failed|std::fs::write|std::env::set_var)$')
LOG = re.compile(r'^log::(__private_api\w*::log\w*|Log::log|logger)')
CHANNEL = re.compile(r'(File|Stdout|StdoutLock|Stderr|StderrLock|TcpStream|OwnedWriteHalf|WriteHalf|TcpStream\w*)\b')
WRITE = re.compile(r'::(write|write_all|write_fmt|write_buf|write_all_buf|write_vectored|write_str)$')
# value-preserving calls: the shape of the value is kept
SAME = re.compile(r'::(into_future|new_unchecked|as_ref|as_mut|as_deref|as_deref_mut|clone|cloned|copied|take|by_ref|from_residual|'
                  r'into_iter|get_mut|deref|deref_mut|borrow|borrow_mut|must_use|to_owned|into_pin|pin|replace)$')
MAPPING = re.compile(r'::(map|and_then|map_or|map_or_else|then|filter_map|flat_map|is_some_and|is_ok_and|fold|try_fold|scan|'
                     r'for_each|any|all|position|map_while|then_some|inspect_err|zip_with|then_with)$')
HASH = '$ERR'


class Flow:
    def __init__(self, F):
        self.F = F
        self.bodies = {k: b for k, b in F.bodies.items() if b.local and not serde(k)}
        self._text = {}
        self._err = {}
        self._own = {}
        self.impls = {}
        self.fmtbody = {}
        for im in F.impls:
            for name, key in im['items'].items():
                self.impls.setdefault((im['trait'], name.rsplit('::', 1)[-1]), []).append(key)
                if im['trait'].startswith('core::fmt::') and name.endswith('::fmt'):
                    self.fmtbody[key] = (self.adt_named(im['self']), im['trait'])
        self.reads = {}     # (body, local) -> [(kind, data)]
        self.freads = {}    # field -> [(body, reader)]
        self.defs = {}      # (body, local) -> [rvalue / call]
        self.sites = {}     # body -> [call]
        self.revs = {}      # adt -> [(body, dest)]
        self.calls = []
        self.sinks = []
        for k, b in self.bodies.items():
            self.index(k, b)

    def adt_named(self, s):
        """The path of the ADT an impl is for (its self type is printed without the crate name)."""
        s = re.sub(r'<.*$', '', s)
        for p in self.F.adts:
            if p == s or p.split('::', 1)[-1] == s:
                return p
        return s

    # -- types -----------------------------------------------------------------------------------------

    def mine(self, adt):
        return adt is not None and adt.startswith('ratelmq')

    def text(self, i):
        r = self._text.get(i)
        if r is None:
            self._text[i] = False
            r = self._text[i] = self.text0(i)
        return r

    def text0(self, i):
        t = self.F.types[i]
        k = t['k']
        if k in ('str', 'param', 'alias', 'closure', 'coroutine', 'dyn', 'char'):
            return True
        if k in ('ref', 'ptr'):
            return self.text(t['to'])
        if k in ('slice', 'array'):
            e = t.get('to', t.get('elem'))
            if e is None:
                e = (t.get('args') or [None])[0]
            if e is None:
                return True
            return self.F.types[e]['s'] == 'u8' or self.text(e)
        if k == 'tuple':
            return any(self.text(a) for a in t['args'])
        if k == 'adt':
            if self.mine(t['def']):
                # a type parameter of the crate's own type: its fields are followed by themselves
                return False
            if re.match(r'^core::str::error|^alloc::string::ParseError|^core::char::', t['def']):
                return False
            if TEXT.match(t['def']):
                return True
            if t['def'] in ('alloc::vec::Vec', 'core::option::Option', 'alloc::boxed::Box', 'core::slice::iter::Iter',
                            'alloc::vec::into_iter::IntoIter') and any(self.F.types[a]['s'] == 'u8' for a in t['args']):
                return True
            return any(self.text(a) for a in t['args'])
        return False

    def err(self, i):
        r = self._err.get(i)
        if r is None:
            self._err[i] = False
            t = self.F.types[i]
            k = t['k']
            if k in ('ref', 'ptr'):
                r = self.err(t['to'])
            elif k in ('param', 'alias', 'closure', 'coroutine', 'dyn'):
                r = True
            elif k == 'adt':
                r = not self.mine(t['def']) and (bool(ERR.search(t['def'])) or any(self.err(a) for a in t['args']))
            elif k == 'tuple':
                r = any(self.err(a) for a in t['args'])
            else:
                r = False
            self._err[i] = r
        return r

    def own(self, i):
        """The crate's own types whose formatting shows when a value of this type is formatted."""
        r = self._own.get(i)
        if r is None:
            self._own[i] = frozenset()
            t = self.F.types[i]
            k = t['k']
            if k in ('ref', 'ptr', 'slice', 'array'):
                to = t.get('to', t.get('elem'))
                r = self.own(to) if to is not None else frozenset().union(*[self.own(a) for a in t.get('args') or ()])
            elif k == 'adt':
                if self.mine(t['def']):
                    r = frozenset([t['def']])
                elif OPAQUE.match(t['def']):
                    r = frozenset()
                else:
                    r = frozenset().union(*[self.own(a) for a in t['args']])
            elif k == 'tuple':
                r = frozenset().union(*[self.own(a) for a in t['args']])
            else:
                r = frozenset()
            self._own[i] = r
        return r

    def carries(self, i, lab):
        return self.err(i) if lab == HASH else self.text(i)

    def leaves(self, i, depth=4):
        """The parts of a value that can be told apart."""
        t = self.F.types[i]
        if depth == 0 or not self.text(i):
            return [()] if depth == 0 and self.text(i) else []
        if t['k'] == 'tuple':
            return [(n,) + p for n, a in enumerate(t['args']) for p in self.leaves(a, depth - 1)]
        if t['k'] == 'adt' and not self.mine(t['def']):
            d = t['def']
            at = {'core::option::Option': [((1, 0), 0)], 'core::result::Result': [((0, 0), 0), ((1, 0), 1)],
                  'core::task::poll::Poll': [((0, 0), 0)],
                  'core::ops::control_flow::ControlFlow': [((0, 0), 1), ((1, 0), 0)]}.get(d)
            if at and len(t['args']) > max(x[1] for x in at):
                return [(q,) + p for q, n in at for p in self.leaves(t['args'][n], depth - 1)]
        return [()]

    def lty(self, k, n):
        return self.bodies[k].locals[n][0]

    # -- places ----------------------------------------------------------------------------------------

    def resolve(self, k, place):
        """('L', body, local, path) or ('F', adt, variant, field, path)."""
        F = self.F
        ty = self.lty(k, place[0])
        var = None
        path = []
        base = ('L', k, place[0])
        for e in place[1]:
            ty = F.strip_ref(ty) if ty is not None and e[0] != '*' else ty
            t = F.types[ty] if ty is not None else None
            if e[0] == '*':
                if t is not None:
                    if t['k'] in ('ref', 'ptr'):
                        ty = t['to']
                    elif t['k'] == 'adt' and t['def'] == 'alloc::boxed::Box':
                        ty = t['args'][0]
                    elif t['k'] == 'adt' and t['def'] == 'core::pin::Pin':
                        ty = t['args'][0]
                continue
            if e[0] == 'v':
                var = e[1]
                continue
            if e[0] == 'f':
                i = e[1]
                if t is not None and t['k'] == 'adt' and self.mine(t['def']):
                    a = F.adts.get(t['def'])
                    base = ('F', t['def'], var or 0, i)
                    path = []
                    fs = a['variants'][var or 0]['fields'] if a else []
                    nt = fs[i][1] if i < len(fs) else None
                    if nt is not None and F.types[nt]['k'] == 'param':
                        nt = None
                    ty = nt
                elif t is not None and t['k'] == 'tuple':
                    path.append(i)
                    ty = t['args'][i] if i < len(t['args']) else None
                elif t is not None and t['k'] == 'adt':
                    path.append((var or 0, i))
                    ty = self.vfield(t, var or 0, i)
                else:
                    path.append(i)
                    ty = None
                var = None
                continue
            # an element of an array or slice: the whole stands for it
            ty = None
        path = tuple(path[:6])
        return base + (path,)

    def vfield(self, t, v, i):
        d = t['def']
        try:
            if d == 'core::option::Option' and v == 1:
                return t['args'][0]
            if d == 'core::result::Result':
                return t['args'][v]
            if d == 'core::ops::control_flow::ControlFlow':
                return t['args'][1 - v]
            if d == 'core::task::poll::Poll' and v == 0:
                return t['args'][0]
        except IndexError:
            pass
        return None

    # -- indexing --------------------------------------------------------------------------------------

    def index(self, k, b):
        self.sites[k] = []
        for i in sorted(b.rpo):
            bl = b.blocks[i]
            for s in bl['s']:
                if s[0] != '=':
                    continue
                dst, rv = s[1], s[2]
                line = s[3] if len(s) > 3 else None
                self.defs.setdefault((k, dst[0]), []).append(('rv', rv, dst))
                for op, sub in self.operands(rv):
                    self.reader(k, op, ('asg', dst, sub, rv, line))
                if rv[0] == 'cast' and str(rv[1]).startswith('Coerce:Unsize'):
                    to = self.F.types[self.F.strip_ref(rv[3])]
                    if to['k'] == 'dyn':
                        src = self.opty(k, rv[2])
                        if src is not None:
                            for a in self.own(src):
                                self.revs.setdefault(a, []).append((k, dst, line))
            t = bl['t']
            if t[0] == 'call':
                self.site(k, t, i)
            elif t[0] == 'yield' and len(t) > 2:
                pass

    def opty(self, k, op):
        if op[0] in ('cp', 'mv'):
            return op[1][2]
        return op[1].get('ty') if isinstance(op[1], dict) else None

    def operands(self, rv):
        """(place, where in the result it lands): () the whole, ('agg', i)."""
        k = rv[0]
        if k == 'use' or k == 'cast':
            op = rv[1] if k == 'use' else rv[2]
            if op[0] in ('cp', 'mv'):
                yield op[1], ()
        elif k == 'ref' or k == 'ptr' or k == 'addr':
            yield rv[-1] if isinstance(rv[-1], list) else rv[2], ()
        elif k == 'agg':
            kind, d, v, ops = rv[1], rv[2], rv[3], rv[4]
            for i, op in enumerate(ops):
                if op[0] in ('cp', 'mv'):
                    yield op[1], (kind, d, v, i)
        elif k in ('repeat',):
            op = rv[1]
            if op[0] in ('cp', 'mv'):
                yield op[1], ()

    def reader(self, k, place, what):
        r = self.resolve(k, place)
        if r[0] == 'L':
            self.reads.setdefault((k, r[2]), []).append((r[3], what))
        else:
            self.freads.setdefault(r[1:4], []).append((k, r[4], what))

    def site(self, k, t, bb):
        f = t[1]
        fn = f[1].get('fn') if f[0] == 'c' and isinstance(f[1], dict) else None
        c = {'body': k, 'args': t[2], 'dest': t[3], 'span': t[5] if len(t) > 5 else None, 'fn': fn or {}, 'id': (k, bb)}
        n = c['fn']
        c['name'] = n.get('rpretty') or n.get('pretty') or '<indirect>'
        keys = []
        body = n.get('body')
        if body in self.bodies:
            keys = [body]
        elif not body and n.get('trait') and n.get('rname') in (None, n.get('name')):
            keys = [x for x in self.impls.get((n['trait'], n.get('method')), ()) if x in self.bodies]
        elif n.get('rname') in self.bodies:
            keys = [n['rname']]
        c['to'] = keys
        c['poll'] = n.get('method') == 'poll' and keys and self.bodies[keys[0]].kind == 'coroutine'
        # functions given to a call: closures by value or by reference, futures
        clo = {}
        for j, op in enumerate(t[2]):
            ty = self.opty(k, op)
            d = self.fnbody(ty)
            if d:
                clo[j] = d
        c['clo'] = {} if keys else clo
        self.calls.append(c)
        self.sites[k].append(c)
        self.defs.setdefault((k, t[3][0]), []).append(('call', c, t[3]))
        for j, op in enumerate(t[2]):
            if op[0] in ('cp', 'mv'):
                self.reader(k, op[1], ('arg', c, j))
        c['sink'] = self.sinkof(c)
        if c['sink']:
            self.sinks.append(c)
        name = c['name']
        if re.search(r'Argument::new_(debug|display|lower_\w+|upper_\w+)$', name) or (n.get('method') in ('to_string', 'fmt') and not keys):
            for op in t[2][:1]:
                ty = self.opty(k, op)
                if ty is not None:
                    for a in self.own(ty):
                        self.revs.setdefault(a, []).append((k, t[3], c['span']))
        if re.search(r'^core::result::Result::(unwrap|expect|unwrap_err|expect_err)$', name) and t[2]:
            ty = self.opty(k, t[2][0])
            if ty is not None:
                ta = self.F.types[ty].get('args') or []
                at = 0 if name.endswith('_err') else 1
                if len(ta) == 2:
                    for a in self.own(ta[at]):
                        self.revs.setdefault(a, []).append((k, ('sink', c), c['span']))

    def fnbody(self, ty):
        n = 0
        while ty is not None and n < 8:
            n += 1
            t = self.F.types[ty]
            if t['k'] in ('ref', 'ptr'):
                ty = t['to']
            elif t['k'] == 'adt' and t['def'] in ('alloc::boxed::Box', 'core::pin::Pin') and t['args']:
                ty = t['args'][0]
            elif t['k'] in ('closure', 'coroutine', 'fndef'):
                return t['def'] if t.get('def') in self.bodies else None
            else:
                return None
        return None

    def sinkof(self, c):
        n = c['name']
        m = c['fn'].get('name') or n
        if LOG.match(n) or LOG.match(m):
            return 'a log record'
        if PRINT.match(n) or PRINT.match(m):
            return 'standard output or error' if 'print' in n else 'a file' if 'fs::' in n else 'a panic message'
        if WRITE.search(n) and c['args'] and not c['to']:
            ty = self.opty(c['body'], c['args'][0])
            s = self.F.types[ty]['s'] if ty is not None else ''
            g = CHANNEL.search(s)
            if g:
                return 'the network' if g.group(1).startswith(('Tcp', 'Owned', 'Write')) else 'a file or the terminal'
        if re.search(r'^core::result::Result::(unwrap|expect|unwrap_err|expect_err)$', n):
            return 'a panic message'
        return None

    # -- propagation -----------------------------------------------------------------------------------

    def run(self, seeds, local=False, goal=None, limit=200000):
        """seeds: [(base, path, label)]. Returns the facts reached: {(entry, fact): (parent, why)}."""
        seen = {}
        work = deque()
        hits = {}
        inc = {}        # entry -> [(entry of the caller, call, shift)]
        outs = {}       # entry -> {(out, path, label)}
        multi = set()
        goals = []

        def add(entry, fact, par, why):
            base, path, lab = fact
            if base[0] == 'F':
                entry = None
                f = self.F.adts.get(base[1])
                fs = f['variants'][base[2]]['fields'] if f and base[2] < len(f['variants']) else []
                if base[3] < len(fs) and not self.carries(fs[base[3]][1], lab):
                    return
            elif base[0] == 'L':
                if not self.carries(self.lty(base[1], base[2]), lab):
                    return
            path = path[:6]
            kk = (entry, (base, path, lab))
            if kk in seen:
                return
            # a taint of a prefix covers it
            for n in range(len(path)):
                if (entry, (base, path[:n], lab)) in seen:
                    return
            seen[kk] = (par, why)
            work.append(kk)

        def mutate(entry, k, op, lab, par, why, depth=0):
            """What a &mut argument points to takes the text in."""
            if op[0] not in ('cp', 'mv') or depth > 8:
                return
            r = self.resolve(k, op[1])
            add(entry, (r[:3] if r[0] == 'L' else r[:4], r[-1], lab), par, why)
            if r[0] != 'L':
                return
            for d in self.defs.get((k, r[2]), ()):
                if d[0] == 'rv':
                    rv = d[1]
                    if rv[0] == 'ref':
                        mutate(entry, k, ('mv', rv[-1] if isinstance(rv[-1], list) else rv[2]), lab, par, why, depth + 1)
                    elif rv[0] == 'use':
                        mutate(entry, k, rv[1], lab, par, why, depth + 1)
                    elif rv[0] == 'cast':
                        mutate(entry, k, rv[2], lab, par, why, depth + 1)
                elif d[0] == 'call' and SAME.search(d[1]['name']) and d[1]['args']:
                    mutate(entry, k, d[1]['args'][0], lab, par, why, depth + 1)

        def mutable(k, op):
            ty = self.opty(k, op)
            if ty is None:
                return False
            t = self.F.types[ty]
            return t['k'] in ('ref', 'ptr') and t['s'].startswith(('&mut', '&\'{erased} mut', '*mut')) or \
                (t['k'] == 'ref' and re.match(r"&('\S+ )?mut ", t['s'])) or \
                (t['k'] == 'adt' and t['def'] == 'core::pin::Pin' and 'mut ' in t['s'])

        def write(entry, k, dst, sub, lab, par, why):
            if isinstance(dst, tuple):
                return
            r = self.resolve(k, dst)
            add(entry, (r[:3] if r[0] == 'L' else r[:4], r[-1] + sub, lab), par, why)

        def out(entry, callee, what, path, lab, par):
            """Text leaves a body: to the callers that put it there, or to all of them."""
            if local:
                return
            if entry is None:
                cs = [c for c in self.calls if callee in c['to'] or callee in c['clo'].values()]
                if len(cs) > 1 and what == 'ret' and lab is None:
                    multi.add(callee)
                for c in cs:
                    back(None, c, callee, what, path, lab, par)
            else:
                o = outs.setdefault(entry, set())
                if (what, path, lab) in o:
                    return
                o.add((what, path, lab))
                for ce, c in inc.get(entry, ()):
                    back(ce, c, callee, what, path, lab, par)

        def back(entry, c, callee, what, path, lab, par):
            k = c['body']
            if what == 'ret':
                if callee in c['to']:
                    sub = ((0, 0),) + path if c['poll'] else path
                    write(entry, k, c['dest'], sub, lab, par, ('returns to', c['span']))
                else:
                    sub = ()
                    if re.search(r'Option::map$', c['name']):
                        sub = ((1, 0),) + path
                    elif re.search(r'(Option|Result)::(and_then|or_else|unwrap_or_else)$', c['name']):
                        sub = path
                    elif re.search(r'Result::map$', c['name']):
                        sub = ((0, 0),) + path
                    elif re.search(r'Result::map_err$|Option::ok_or_else$', c['name']):
                        sub = ((1, 0),) + path
                    write(entry, k, c['dest'], sub, lab, par, ('returns to', c['span']))
            else:
                j = what - 1
                if callee in c['to'] and j < len(c['args']):
                    mutate(entry, k, c['args'][j], lab, par, ('is put into', c['span']))

        def enter(entry, c, callee, local_n, path, lab, par):
            if local:
                return
            b = self.bodies[callee]
            if local_n > b.argc:
                return
            e2 = (callee, local_n, path, lab)
            l = inc.setdefault(e2, [])
            if (entry, c) not in l:
                l.append((entry, c))
                for (w, p, lb) in list(outs.get(e2, ())):
                    back(entry, c, callee, w, p, lb, par)
            add(e2, (('L', callee, local_n), path, lab), par, ('is passed to', c['span']))

        def usecall(entry, c, j, path, lab, par):
            k = c['body']
            name = c['name']
            fn = c['fn']
            if goal and goal(c, j):
                goals.append((entry, par, c))
            if c['sink']:
                if fn.get('method') in ('unwrap', 'expect', 'unwrap_err', 'expect_err') and 'Result::' in name:
                    at = 0 if name.endswith('_err') else 1
                    ta = self.F.types[self.opty(k, c['args'][0])].get('args') or []
                    if (path and path[0] == (at, 0)) or (not path and len(ta) == 2 and self.carries(ta[at], lab)
                                                          and not self.carries(ta[1 - at], lab)):
                        hits.setdefault(c['id'], (c, par))
                elif not (local and c['sink'] == 'the network'):
                    hits.setdefault(c['id'], (c, par))
                    return
            if SEALED.search(name) or SEALED.search(fn.get('name', '')):
                return
            if c['to']:
                for callee in c['to']:
                    enter(entry, c, callee, j + 1, path, lab, par)
                return
            # functions handed over with the value
            if c['clo']:
                if j in c['clo']:
                    enter(entry, c, c['clo'][j], 1, path, lab, par)
                else:
                    for jj, callee in c['clo'].items():
                        b = self.bodies[callee]
                        lo = 2 if b.kind in ('closure', 'coroutine') else 1
                        p2 = path
                        if p2 and isinstance(p2[0], tuple):
                            if re.search(r'::(map_err|or_else|unwrap_or_else|inspect_err|map_or_else)$', name) and 'Result' in name and p2[0] == (0, 0) and not name.endswith('map_or_else'):
                                p2 = None
                            elif re.search(r'Result::(map|and_then|inspect|is_ok_and|map_or)$', name) and p2[0] != (0, 0):
                                p2 = None
                            else:
                                p2 = p2[1:]
                        if p2 is not None:
                            for n in range(lo, b.argc + 1):
                                enter(entry, c, callee, n, p2, lab, par)
                if MAPPING.search(name):
                    if re.search(r'Result::(map|and_then)$', name) and path and path[0] == (1, 0):
                        write(entry, k, c['dest'], path, lab, par, ('goes through ' + short(name), c['span']))
                    if re.search(r'::map_or$', name) and j == 1:
                        write(entry, k, c['dest'], (), lab, par, ('goes through ' + short(name), c['span']))
                    return
            # the rest: what goes in may come out, and may end in what is borrowed mutably
            why = ('goes through ' + short(name), c['span'])
            dty = c['dest'][2]
            if re.search(r'Argument::new_display$|to_string$', name) and 'FromUtf8Error' in self.F.tys(self.opty(k, c['args'][j])):
                return
            lab2 = lab
            if re.search(r'io::error::Error', name) or (re.search(r'::(from|into)$', name) and not self.text(dty)):
                lab2 = HASH
            if lab == HASH and (re.search(r'Argument::new_|to_string$|::fmt$', name)):
                lab2 = None
            sub = ()
            if SAME.search(name):
                sub = path
                if name.endswith('::pin') or name.endswith('into_iter'):
                    sub = path
            elif re.search(r'Try(>)?::branch$', name):
                if path and isinstance(path[0], tuple):
                    if 'Option' in name:
                        sub = ((0, 0),) + path[1:]
                    elif path[0][0] == 0:
                        sub = ((0, 0),) + path[1:]
                    else:
                        sub = ((1, 0),) + path
                else:
                    for s2 in (((0, 0),), ((1, 0),)):
                        write(entry, k, c['dest'], s2, lab2, par, why)
                    return
            elif re.search(r'(Option|Result)::(unwrap\w*|expect\w*)$', name):
                if path and isinstance(path[0], tuple):
                    if 'Result' in name and path[0] == (1, 0) and not name.endswith('_err'):
                        return
                    sub = path[1:]
            elif re.search(r'Result::map_err$', name):
                if path and path[0] == (1, 0):
                    return
                sub = path
            elif re.search(r'Option::ok_or(_else)?$', name):
                if j == 0:
                    sub = ((0, 0),) + path[1:] if path else ((0, 0),)
                else:
                    sub = ((1, 0),)
            elif re.search(r'Result::ok$', name):
                if path and path[0] == (1, 0):
                    return
                sub = ((1, 0),) + path[1:] if path else ()
            write(entry, k, c['dest'], sub, lab2, par, why)
            for jj, op in enumerate(c['args']):
                if jj != j and mutable(k, op):
                    mutate(entry, k, op, lab2, par, why)

        def rev(adt, trait, par):
            key = (None, (('R', adt, trait), (), None))
            if key in seen:
                return
            seen[key] = par
            work.append(key)

        def consume(entry, k, rpath, what, path, lab, par):
            if path[:len(rpath)] == rpath:
                rest = path[len(rpath):]
            elif rpath[:len(path)] == path:
                rest = ()
            else:
                return
            if what[0] == 'asg':
                _, dst, sub, rv, line = what
                if sub == ():
                    write(entry, k, dst, rest, lab, par, ('', line))
                else:
                    kind, d, v, i = sub
                    if kind == 'adt' and self.mine(d):
                        add(None, (('F', d, v or 0, i), rest, lab), par, ('is stored in', line))
                    elif kind == 'adt':
                        write(entry, k, dst, ((v or 0, i),) + rest, lab, par, ('', line))
                    elif kind == 'array':
                        write(entry, k, dst, (), lab, par, ('', line))
                    else:
                        write(entry, k, dst, (i,) + rest, lab, par, ('', line))
            else:
                usecall(entry, what[1], what[2], rest, lab, par)

        for (base, path, lab) in seeds:
            add(None, (base, path, lab), None, ('source', None))
        n = 0
        while work:
            kk = work.popleft()
            n += 1
            if n > limit:
                raise RuntimeError('taint: too many facts')
            entry, (base, path, lab) = kk
            if base[0] == 'R':
                for (k, dst, line) in self.revs.get(base[1], ()):
                    if isinstance(dst, tuple):
                        c = dst[1]
                        if base[2] == 'core::fmt::Debug':
                            hits.setdefault(c['id'], (c, kk))
                        continue
                    if not self.revealing(k, dst, base[2]):
                        continue
                    r = self.resolve(k, dst)
                    add(None, (r[:3] if r[0] == 'L' else r[:4], r[-1], None), kk, ('is formatted', line))
                continue
            if base[0] == 'F':
                for (k, rpath, what) in self.freads.get(base[1:], ()):
                    consume(None, k, rpath, what, path, lab, kk)
                continue
            _, k, l = base
            b = self.bodies[k]
            ty = self.F.types[self.F.strip_ref(b.locals[l][0])]
            if k in self.fmtbody and ty['k'] == 'adt' and FMT.match(ty['def']):
                rev(self.fmtbody[k][0], self.fmtbody[k][1], (kk, ('is written by', b.span)))
            for (rpath, what) in self.reads.get((k, l), ()):
                consume(entry, k, rpath, what, path, lab, kk)
            if l == 0:
                out(entry, k, 'ret', path, lab, kk)
            elif l <= b.argc and entry is not None and entry[:2] != (k, l):
                t = self.F.types[b.locals[l][0]]
                if t['k'] == 'ref' and re.match(r"&('\S+ )?mut ", t['s']):
                    out(entry, k, l, path, lab, kk)
        self.seen = seen
        return {'seen': seen, 'hits': hits, 'multi': multi, 'goals': goals}

    def revealing(self, k, dst, trait):
        """Whether the formatting that yields `dst` is by this trait."""
        for d in self.defs.get((k, dst[0]), ()):
            if d[0] == 'rv' and d[1][0] == 'cast':
                to = self.F.types[self.F.strip_ref(d[1][3])]
                if to.get('def') == trait or to.get('def') not in ('core::fmt::Debug', 'core::fmt::Display'):
                    return True
            elif d[0] == 'call':
                n = d[1]['name']
                if 'new_debug' in n:
                    if trait == 'core::fmt::Debug':
                        return True
                elif 'new_display' in n or n.endswith('to_string'):
                    if trait == 'core::fmt::Display':
                        return True
                else:
                    return True
        return False

    def trace(self, seen, kk, n=12):
        """The way from the source, for a reader."""
        out = []
        while kk is not None and kk in seen and len(out) < 60:
            par, why = seen[kk]
            entry, (base, path, lab) = kk
            out.append((self.show(base), why))
            kk = par
        out.reverse()
        r = []
        for what, why in out:
            at = ''
            if why and why[1]:
                at = ' (%s:%s)' % (why[1][0], why[1][1])
            s = '%s%s%s' % ((why[0] + ' ') if why and why[0] not in ('source', '') else '', what, at)
            if what is not None and (not r or r[-1] != s):
                r.append(s)
        if len(r) > n:
            r = r[:n // 2] + ['...'] + r[-n // 2:]
        return ' -> '.join(r)

    def show(self, base):
        if base[0] == 'F':
            a = self.F.adts.get(base[1])
            f = a['variants'][base[2]]['fields'][base[3]][0] if a else base[3]
            v = '' if not a or len(a['variants']) == 1 else '::' + a['variants'][base[2]]['name']
            return '`%s%s.%s`' % (base[1].rsplit('::', 1)[-1], v, f)
        if base[0] == 'R':
            return '%s of `%s`' % (base[2].rsplit('::', 1)[-1], base[1].rsplit('::', 1)[-1])
        b = self.bodies[base[1]]
        nm = b.locals[base[2]][1]
        return '`%s` in %s' % (nm, fname(b.pretty)) if nm else None


def serde(k):
    return '::_::' in k or '::_#' in k


def fname(p):
    return re.sub(r'^ratelmq::', '', re.sub(r'(::\{closure#\d+\})+$', '', p))


def short(n):
    return n.rsplit('::', 2)[-1]


def goal(c, j):
    n = c['fn'].get('name') or ''
    r = c['name']
    if not n.endswith('verify_password') and not r.endswith('verify_password'):
        return False
    if c['to']:
        return False
    return j == (2 if r.startswith('password_hash::PasswordHash') else 1)


def check(F, rep):
    fl = Flow(F)
    ends = [c for c in fl.calls if goal(c, 1) or goal(c, 2)]
    rep.check(bool(ends), 'A04', 'password-is-verified', 'ratelmq',
              'no call of verify_password: where the password goes cannot be told')
    # every field and every call result from which the password operand is reached
    cand = []
    for d, a in F.adts.items():
        if not fl.mine(d):
            continue
        for v, va in enumerate(a['variants']):
            for i, f in enumerate(va['fields']):
                if fl.text(f[1]):
                    cand.append((('F', d, v, i), (), None))
    for c in fl.calls:
        r = fl.resolve(c['body'], c['dest'])
        if r[0] == 'L' and fl.text(c['dest'][2]) and F.types[c['dest'][2]]['k'] not in ('closure', 'coroutine'):
            for sub in fl.leaves(c['dest'][2]):
                cand.append((r[:3], r[-1] + sub, None))
    P, B = [], []
    for s in dict.fromkeys(cand):
        r = fl.run([s], goal=goal)
        if r['goals']:
            (B if r['multi'] else P).append(s)
    if ends:
        rep.check(bool(P), 'A04', 'password-has-a-source', 'ratelmq',
                  'the source of the verified password was not found')
    r1 = fl.run(P)
    r2 = fl.run(B, local=True)
    # an error that holds what was read is passed on by everybody
    E = [f for (e, f) in r2['seen'] if f[2] == HASH]
    r3 = fl.run(E)
    # a function, and which of its sinks of that kind
    nth = {}
    for c in sorted(fl.sinks, key=lambda c: c['id']):
        k = (fl.bodies[c['body']].pretty, c['sink'])
        nth[c['id']] = nth[k] = nth.get(k, 0) + 1
    shown = 0
    for c in fl.sinks:
        h = None
        for r in (r1, r2, r3):
            if c['id'] in r['hits']:
                h = (r, r['hits'][c['id']][1])
                break
        rule = {'a log record': 'not-logged', 'the network': 'not-sent'}.get(c['sink'], 'not-printed')
        site = '%s: %s #%d' % (fname(fl.bodies[c['body']].pretty), short(c['name']), nth[c['id']])
        if h is None:
            rep.ok('A04', rule, site, 'no password of a client reaches %s' % c['sink'])
            continue
        way = fl.trace(h[0]['seen'], h[1])
        sp = c['span']
        rep.bad('A04', rule, site, 'the password of a client reaches %s at %s:%s: %s'
                % (c['sink'], sp[0] if sp else '?', sp[1] if sp else '?', way))
        shown += 1
    # the text of the crate's own types: none of them shows the password when it is formatted
    revs = set()
    for r in (r1, r2):
        for (entry, (base, path, lab)) in r['seen']:
            if base[0] == 'R':
                revs.add((base[1], base[2]))
    rep.notes.append(("taint", ['%d calls, %d sinks, %d sources, %d shared, formatting reveals: %s'
                       % (len(fl.calls), len(fl.sinks), len(P), len(B), sorted(revs))]))
    return fl, P, B, ends
